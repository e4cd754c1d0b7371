/* I02: integration of peaked functions. */
#include "mc.h"
#include <softlib/Integration/PeakedIntegration.h>
#include <softlib/SOFTLibException.h>
using namespace std;
typedef function<slibreal_t(slibreal_t)> Fn;
/* unimodal functions with known primitive; w: width */
struct Peak { const char *name; double A, m, w; int kind;
    double f(double x) const { double u=(x-m)/w; switch (kind) { case 0: return A*exp(-u*u/2); case 1: return A/cosh(u)/cosh(u); case 2: return A*exp(-u*u/(2*(u<0?0.25:1))); default: return A/((1+u*u)*(1+u*u)); } }
    double F(double x) const { double u=(x-m)/w; switch (kind) { case 0: return A*w*sqrt(M_PI/2)*erf(u/sqrt(2.)); case 1: return A*w*tanh(u); case 2: { double s= u<0?0.5:1; return A*w*s*sqrt(M_PI/2)*erf(u/s/sqrt(2.)); } default: return A*w*0.5*(u/(1+u*u)+atan(u)); } } };
static Peak pickPeak(mc::Ctx& c) { static const char *N[]={"gaussian","sech^2","skew gaussian","lorentzian^2"}; int k=c.pick(4); double m=c.pickOf(vector<double>{0.05,0.7,M_PI/2,2.5,4,6.2}), w=c.pickOf(vector<double>{0.02,0.1,0.4}), A=c.pickOf(vector<double>{1,250}); return {N[k],A,m,w,k}; }
static void maximum(mc::Ctx& c) {
    int k=c.pick(4); Peak p={k==0?"gaussian":k==1?"sech^2":k==2?"skew gaussian":"lorentzian^2",c.flip()?250.:1.,0.003+0.02*c.pick(314),0.4,k}; double tol=c.pickOf(vector<double>{-1,0.3,0.0846,1e-2,2e-3,1e-4,1e-6,2e-7}); PeakedIntegration I; unsigned long n=0; bool out=false; Fn f=[&](double x){ n++; out|=!(x>=0&&x<=2*M_PI); return p.f(x); }; double x= tol<0? I.FindMaximum(f) : I.FindMaximum(f,tol); double t= tol<0? 1e-2 : tol; c.step(); c.noteL([&]{ return mc::fmt("maximum of %s at %g, tolerance %g: %g",p.name,p.m,t,x); });
    c.require(fabs(x-p.m)<=t*1.0000001,"maximum of a %s at %.9g with tolerance %g is reported at %.9g",p.name,p.m,t,x); c.require(!out,"evaluated outside of 0..2pi"); c.require(n<200,"%lu evaluations",n); c.state(mc::mix(mc::hdbl(p.m),mc::mix(p.kind,mc::hdbl(t)))); }
static void integral(mc::Ctx& c) {
    Peak p=pickPeak(c); double fr=c.pickOf(vector<double>{0.5,0.2,0.05}), fall=fr*p.w*(p.kind==2?0.5:1), cut=c.pickOf(vector<double>{1e-2,1e-4,1e-8}); int lim=c.pick(7); double a,b; switch (lim) { case 0: a=p.m-40*p.w; b=p.m+40*p.w; break; case 1: a=p.m-40*p.w; b=p.m+1.3*p.w; break; case 2: a=p.m-0.9*p.w; b=p.m+40*p.w; break; case 3: a=p.m-1.7*p.w; b=p.m+2.1*p.w; break; case 4: a=p.m-0.3*fall; b=p.m+40*p.w; break; case 5: a=p.m-40*p.w; b=p.m+0.7*fall; break; default: a=p.m-0.4*fall; b=p.m+0.4*fall; }
    double off=c.pickOf(vector<double>{0,0.3,-0.7,2.4,-3.3,1,-1,2,-2,3,-3,0.5,-0.5,1.5,-1.5}); double g=p.m+off*fall; if (g<=a||g>=b) return; PeakedIntegration I; unsigned long n=0; double lo=1e300, hi=-1e300; Fn f=[&](double x){ n++; lo=min(lo,x); hi=max(hi,x); return p.f(x); }; double v=I.Evaluate(f,a,b,fall,cut,g,p.f(g)); c.step(); c.noteL([&]{ return mc::fmt("%s at %g width %g over %g..%g, fall-off %g, cut-off %g, start %g: %g",p.name,p.m,p.w,a,b,fall,cut,g,v); });
    c.require(n==0||(lo>=a&&hi<=b),"%s at %g: evaluated at %.9g..%.9g outside of %.9g..%.9g",p.name,p.m,lo,hi,a,b); c.require(n<20000,"%lu evaluations",n);
    double ex=p.F(b)-p.F(a); /* below the cut-off: the tails; at a limit: up to one interval of the function there */ double fm=p.f(p.m), tail=0, edge=0; for (int s=-1;s<=1;s+=2) { double e= s<0?a:b, x=p.m; while (p.f(x)>cut*fm*0.999&&(e-x)*s>0) x+=s*fall*0.25; if ((e-x)*s>0) { x-=s*2*fall; if ((x-p.m)*s<0) x=p.m; tail+=fabs(p.F(e)-p.F(x)); } edge+= fall*max(p.f(e),(e-p.m)*s<2*fall? fm:p.f(e-s*fall)); if ((e-x)*s>0) edge-=fall*max(p.f(e),(e-p.m)*s<2*fall? fm:p.f(e-s*fall)); }
    double trap= p.kind==2? 0.1*fr*fr*ex : p.kind==1? 1e-6*ex : p.kind==3? 5*exp(-2*M_PI*p.w/fall)*2*M_PI*(1+p.w/fall)*ex : 1e-6*ex; if (fr==0.5&&p.kind==1) trap=1e-4*ex; double bound=tail+edge+trap+1e-9*ex; c.require(fabs(v-ex)<=bound,"integral of a %s at %g of width %g over %g..%g, fall-off %g, cut-off %g from %g is %.9g instead of %.9g (error allowed %g)",p.name,p.m,p.w,a,b,fall,cut,g,v,ex,bound);
    c.state(mc::mix(mc::hdbl(v),lim)); }
/* without a known maximum */
static void automatic(mc::Ctx& c) {
    Peak p=pickPeak(c); if (p.kind==3) p.w=max(p.w,0.1); else p.w=0.4; double fr=c.pickOf(vector<double>{0.5,0.2,0.05}), fall=fr*p.w*(p.kind==2?0.5:1), cut=c.pickOf(vector<double>{1e-4,1e-8}); double W=c.pickOf(vector<double>{20,60}); PeakedIntegration I; Fn f=[&](double x){ return p.f(x); }; double v=I.Evaluate(f,p.m-W*p.w,p.m+W*p.w,fall,cut), ex=p.F(p.m+W*p.w)-p.F(p.m-W*p.w); c.step(); c.noteL([&]{ return mc::fmt("%s at %g: %g",p.name,p.m,v); }); double tol= p.kind==3? 3*pow(cut,0.75)+1e-3 : 0.1*fr*fr+10*cut+1e-4; c.require(fabs(v-ex)<=tol*ex,"integral of a %s at %g of width %g with fall-off %g, cut-off %g is %.9g instead of %.9g",p.name,p.m,p.w,fall,cut,v,ex);
    bool thr=false; try { I.Evaluate(f,0,1,0,cut,p.m,1); } catch (SOFTLibException&) { thr=true; } c.require(thr,"fall-off zero was accepted"); c.state(mc::hdbl(v)); }
/* fall-offs much finer than the peak */
static void fine(mc::Ctx& c) {
    Peak p=pickPeak(c); double fr=c.pickOf(vector<double>{1/30.,1/101.,1/250.,1/500.,1/1700.}), fall=fr*p.w, cut=c.pickOf(vector<double>{1e-2,1e-4,1e-6,1e-8}), g=p.m+fall*c.pickOf(vector<double>{0,0.4,-1.3}), W=c.pickOf(vector<double>{200,3}); PeakedIntegration I; unsigned long n=0; Fn f=[&](double x){ n++; return p.f(x); }; double v=I.Evaluate(f,p.m-W*p.w,p.m+W*p.w,fall,cut,g,p.f(g)); c.step(); c.noteL([&]{ return mc::fmt("%s at %g width %g, fall-off %g, cut-off %g: %g",p.name,p.m,p.w,fall,cut,v); });
    /* where each side falls below the cut-off */ double ex=p.F(p.m+W*p.w)-p.F(p.m-W*p.w), tail=0; for (int s=-1;s<=1;s+=2) { double lo=0, hi=W*p.w; if (p.f(p.m+s*hi)<cut*p.A) { for (int k=0;k<100;k++) { double m=(lo+hi)/2; (p.f(p.m+s*m)>cut*p.A? lo:hi)=m; } tail+=fabs(p.F(p.m+s*W*p.w)-p.F(p.m+s*max(0.,lo-2*fall))); } else tail+=2*fall*p.f(p.m+s*max(0.,W*p.w-2*fall)); }
    c.require(fabs(v-ex)<=tail+fr*fr*ex+1e-9*ex,"integral of a %s at %g of width %g with fall-off %g, cut-off %g is %.9g instead of %.9g (error allowed %g)",p.name,p.m,p.w,fall,cut,v,ex,tail+fr*fr*ex); c.require(n<2000000,"%lu evaluations",n); c.state(mc::hdbl(v)); }
/* the same integral in other units */
static void units(mc::Ctx& c) {
    Peak p=pickPeak(c); double fall=p.w*c.pickOf(vector<double>{0.5,0.125}), cut=c.pickOf(vector<double>{1e-3,1e-7}); PeakedIntegration I; auto at=[&](double u, double k){ Fn f=[&](double x){ return k*p.f(x/u+p.m); }; return I.Evaluate(f,-30*p.w*u,30*p.w*u,fall*u,cut,0,k*p.f(p.m)); }; double v=at(1,1), ex=p.F(p.m+30*p.w)-p.F(p.m-30*p.w); c.require(fabs(v-ex)<=0.2*ex,"integral of a %s is %.9g instead of %.9g",p.name,v,ex); static const int E[]={-60,-40,-30,-20,-7,9,25,50}; for (int e : E) for (int k : {-80,-30,0,20,70}) { double u=ldexp(1,e), q=ldexp(1,k), x=at(u,q)/u/q; c.step(); c.noteL([&]{ return mc::fmt("%s width %g, fall-off %g, height %g",p.name,p.w*u,fall*u,p.A*q); }); c.require(fabs(x-v)<=1e-6*v,"integral of a %s of width %g and height %g with fall-off %g is %.9g of that in units of 1",p.name,p.w*u,p.A*q,fall*u,x/v); } c.state(mc::hdbl(v)); }
int main(int argc, char **argv) {
    return mc::run(argc, argv, "I02", {
        {"maximum", maximum, 2, "4 peak shapes x 314 positions x 2 heights x 8 tolerances"},
        {"integral", integral, 2, "4 peak shapes x 6 positions x 3 widths x 2 heights x 3 fall-offs x 3 cut-offs x 7 placements of the limits (wide, one-sided, within one interval of the peak) x 15 starting points on and off the peak, in steps of the fall-off, of half of it, and between"},
        {"fine", fine, 2, "the same peaks x 5 fall-offs down to 1/1700 of the width x 4 cut-offs x 3 starting points x 2 ranges"},
        {"units", units, 2, "the same peaks in units of 2^-60 to 2^50, heights scaled by 2^-80 to 2^70"},
        {"automatic", automatic, 2, "the same peaks with automatic location of the maximum"},
    });
}
