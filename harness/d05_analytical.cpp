/* D05: analytical distribution functions, radial profiles and their products. */
#include "distref.h"
#include <softlib/DistributionFunction/AnalyticalAvalanche.h>
#include <softlib/DistributionFunction/BesselRadialProfile.h>
#include <softlib/DistributionFunction/ConnorHastieDistribution.h>
#include <softlib/DistributionFunction/ExponentialPitch.h>
#include <softlib/DistributionFunction/GaussianRadialProfile.h>
#include <softlib/DistributionFunction/LinearRadialProfile.h>
#include <softlib/DistributionFunction/PowerRadialProfile.h>
#include <softlib/DistributionFunction/RadialDistributionFunction.h>
#include <softlib/DistributionFunction/UniformRadialProfile.h>
#include <softlib/DistributionFunction/UnitDistributionFunction.h>
using namespace std;
typedef MomentumSpaceDistributionFunction MSDF;
static bool rel(double g, double e, double tol=1e-11) { return g==e || (isfinite(g)&&fabs(g-e)<=tol*fabs(e)) || (fabs(e)<1e-300&&fabs(g)<1e-290); }
static const double PS[]={1e-3,0.1,0.5,1,2.75,10,40,49.999,50,50.001,75,200,5000}, XS[]={-1,-0.999,-0.75,-0.5,-0.25,-0.01,0,0.01,0.25,0.5,0.75,0.999,1};
static double avalanche(double E, double L, double Z, double p, double xi) { const double me=9.10938356e-31, cc=299792458.0; double g=sqrt(p*p+1), g0=L*sqrt(Z+5), A=(E+1)/(Z+1)*g; return me*cc*A/(2*M_PI*g0*p*p)*exp(-g/g0-A*(1-fabs(xi)))/(1-exp(-2*A)); }
static double hastie(double E, double Z, double pm, double dp, double p, double xi) { double a=fabs(xi), par=p*a, perp2=p*p*(1-xi*xi), e=-(E+1)/(2*(Z+1))*perp2/par; if (dp!=0&&p>=pm) e-=pow((p-pm)/dp,2); return exp(e)/par; }
/* one distribution function with its parameters */
static const double E_[]={1.5,4,10,50,400,1.01}, Z_[]={1,1.5,4,10,74}, L_[]={5,14.9,20}, C_[]={-3,0,0.5,20,300};
struct Par { int kind=0; double a=0,b=0,c=0,d=0; double at(double p, double xi) const { switch (kind) { case 0: return avalanche(a,b,c,p,xi); case 1: return hastie(a,b,c,d,p,xi); case 2: return exp(a*fabs(xi)); default: return 1; } } string str() const { return mc::fmt("%s(%g,%g,%g,%g)",kind==0?"avalanche":kind==1?"Connor-Hastie":kind==2?"exponential pitch":"unit",a,b,c,d); } };
static Par draw(mc::Ctx& c, int kind) { Par q; q.kind=kind; if (kind==0) { q.a=E_[c.pick(6)]; q.b=L_[c.pick(3)]; q.c=Z_[c.pick(5)]; } else if (kind==1) { q.a=E_[c.pick(6)]; q.b=Z_[c.pick(5)]; int k=c.pick(3); q.c= k==0?0:k==1?50:1; q.d= k==0? 0 : c.pick(2)?0.5:10; if (k==0) c.pick(2); } else if (kind==2) q.a=C_[c.pick(5)]; return q; }
static unique_ptr<MSDF> make(const Par& q, bool late) { switch (q.kind) { case 0: { auto *a= late? new AnalyticalAvalanche : new AnalyticalAvalanche(q.a,q.b,q.c); if (late) a->Initialize(q.a,q.b,q.c); return unique_ptr<MSDF>(a); } case 1: { auto *a= late? new ConnorHastieDistribution : new ConnorHastieDistribution(q.a,q.b,q.c,q.d); if (late) a->Initialize(q.a,q.b,q.c,q.d); return unique_ptr<MSDF>(a); } case 2: { auto *a= late? new ExponentialPitch : new ExponentialPitch(q.a); if (late) a->Initialize(q.a); return unique_ptr<MSDF>(a); } default: return unique_ptr<MSDF>(new UnitDistributionFunction); } }
static void reinit(MSDF& m, const Par& q) { if (q.kind==0) ((AnalyticalAvalanche&)m).Initialize(q.a,q.b,q.c); else if (q.kind==1) ((ConnorHastieDistribution&)m).Initialize(q.a,q.b,q.c,q.d); else if (q.kind==2) ((ExponentialPitch&)m).Initialize(q.a); }
static void check(mc::Ctx& c, MSDF& m, const Par& q, const char *what) { DistributionFunction *d=&m; for (double p : PS) for (double x : XS) { if (x==0&&q.kind==1) continue; double g=m.Eval(p,x), e=q.at(p,x); c.step(); c.state(mc::hdbl(e)); c.require(rel(g,e,1e-10),"%s: f(%g,%g)=%.15g instead of %.15g",what,p,x,g,e); c.require(g>=0,"%s negative",what); c.require(rel(g,m.Eval(p,-x),1e-10),"%s: not symmetric in the pitch at (%g,%g)",what,p,x); double r=d->Eval(1.7,p,x,0.3); c.require(r==g,"%s: depends on the radius",what); } }
static void single(mc::Ctx& c) { int kind=c.pick(4); Par q=draw(c,kind); bool late=c.flip(); c.noteL([&]{ return q.str(); }); auto m=make(q,late); check(c,*m,q,"distribution"); unique_ptr<MSDF> k(m->MinClone()); check(c,*k,q,"clone"); m.reset(); check(c,*k,q,"clone after deleting the original"); }
/* re-initialisation with a second parameter set; the clone keeps the first */
static void reset(mc::Ctx& c) { int kind=c.pick(3); Par a=draw(c,kind), b=draw(c,kind); auto m=make(a,false); unique_ptr<MSDF> k(m->MinClone()); reinit(*m,b); c.noteL([&]{ return a.str()+" then "+b.str(); }); for (double p : {0.1,49.999,50.5}) for (double x : {-0.5,0.75}) { double g=m->Eval(p,x), h=k->Eval(p,x); c.step(); c.require(rel(g,b.at(p,x),1e-10)&&rel(h,a.at(p,x),1e-10),"f(%g,%g): %.15g (expected %.15g), clone %.15g (expected %.15g)",p,x,g,b.at(p,x),h,a.at(p,x)); } }
/* radial profiles */
struct Prof { int kind=0; double r0=1,r1=2,a=1,b=1,c=1; double at(double rho) const { if (kind==0) return 1; if (rho<r0||rho>=r1) return 0; double x=(rho-r0)/(r1-r0); switch (kind) { case 1: return 1-x; case 2: return 1-pow(x,a); case 3: return j0(2.404825557695773*x); default: return a*exp(-(rho-b)*(rho-b)/(c*c)); } } string str() const { return mc::fmt("profile %d [%g,%g] (%g,%g,%g)",kind,r0,r1,a,b,c); } };
static const double R0_[]={0,1.6,0.5}, DR_[]={0.5,1,0.03125,5.9604644775390625e-08};
static Prof pdraw(mc::Ctx& c) { Prof q; q.kind=c.pick(5); if (q.kind==0) return q; q.r0=R0_[c.pick(3)]; q.r1=q.r0+DR_[c.pick(q.r0==0?4:3)]; if (q.kind==2) { static const double b[]={0.5,1,2,3.5,0,60}; q.a=b[c.pick(6)]; } else if (q.kind==4) { static const double A[]={0.5,1,3}, B[]={0.25,1.7,2}, C[]={0.1,0.5,2}; q.a=A[c.pick(3)]; q.b=B[c.pick(3)]; q.c=C[c.pick(3)]; } return q; }
static unique_ptr<RadialProfile> pmake(const Prof& q) { switch (q.kind) { case 0: return unique_ptr<RadialProfile>(new UniformRadialProfile); case 1: return unique_ptr<RadialProfile>(new LinearRadialProfile(q.r0,q.r1)); case 2: return unique_ptr<RadialProfile>(new PowerRadialProfile(q.r0,q.r1,q.a)); case 3: return unique_ptr<RadialProfile>(new BesselRadialProfile(q.r0,q.r1)); default: return unique_ptr<RadialProfile>(new GaussianRadialProfile(q.r0,q.r1,q.a,q.b,q.c)); } }
static V radii(const Prof& q) { V v; for (double t : {-3.0,-1.0,-0.01,0.0,0.0625,0.25,0.5,0.75,0.9375,1.0,1.01,2.0,5.0}) v.push_back(q.r0+t*(q.r1-q.r0)); v.back()=q.r0+5*(q.r1-q.r0); return v; }
static void profile(mc::Ctx& c) { Prof q=pdraw(c); c.noteL([&]{ return q.str(); }); auto p=pmake(q); auto chk=[&](RadialProfile& r, const char *what){ for (double rho : radii(q)) for (double sh : {0.0,0.25,-0.5}) { double in=rho+sh, eff=in-sh; double g=r.Eval(in,sh), e=q.at(eff); c.step(); c.state(mc::hdbl(e)); c.require(fabs(g-e)<=1e-10*(1+fabs(e)),"%s: at %g shifted by %g: %.15g instead of %.15g",what,in,sh,g,e); } c.require(r.Eval(q.r0+0.3*(q.r1-q.r0),0.0)>=0,"%s negative",what); }; chk(*p,"profile"); unique_ptr<RadialProfile> k(p->MinClone()); p.reset(); chk(*k,"clone"); }
static void product(mc::Ctx& c) { Prof pr=pdraw(c); int kind=c.pick(4); static const Par base[]={{0,10,14.9,1.5,0},{1,10,4,50,10},{2,3,0,0,0},{3,0,0,0,0}}; Par q=base[kind]; int how=c.pick(3); auto p=pmake(pr); auto m=make(q,false); unique_ptr<RadialDistributionFunction> d; if (how==0) d.reset(new RadialDistributionFunction(p.get(),m.get())); else if (how==1) d.reset(m->ToRadialDistribution(p.get())); else d.reset(m->ToRadialDistribution()); bool uni=how==2; c.noteL([&]{ return pr.str()+" x "+q.str(); }); auto chk=[&](DistributionFunction& x, const char *what){ for (double rho : radii(pr)) for (double sh : {0.0,0.25}) for (double mom : {0.5,10.0,60.0}) for (double xi : {-0.75,0.25,1.0}) { double in=rho+sh, e=(uni?1:pr.at(in-sh))*q.at(mom,xi), g=x.Eval(in,mom,xi,sh); c.step(); c.require(fabs(g-e)<=1e-10*q.at(mom,xi)*(1+pr.a),"%s: f(%g-%g,%g,%g)=%.15g instead of %.15g",what,in,sh,mom,xi,g,e); } }; chk(*d,"product"); unique_ptr<RadialDistributionFunction> k(d->MinClone()); chk(*k,"clone"); p.reset(); m.reset(); d.reset(); chk(*k,"clone after deleting the original"); unique_ptr<RadialDistributionFunction> k2(k->MinClone()); chk(*k2,"clone of the clone"); }
static void refused(mc::Ctx& c) { int kind=1+c.pick(4), lim=c.pick(4); static const double B[][2]={{1,2},{1,1},{2,1},{-1,-2}}; double r0=B[lim][0], r1=B[lim][1]; int bad=0; if (kind==4) bad=c.pick(7); double a[3]={1,1,1}; if (bad>0) a[(bad-1)/2]=(bad-1)%2? -1:0; bool ok=lim==0&&bad==0, ex=false; try { Prof q; q.kind=kind; q.r0=r0; q.r1=r1; q.a=a[0]; q.b=a[1]; q.c=a[2]; pmake(q); } catch (SOFTLibException&) { ex=true; } c.step(); c.require(ex==!ok,"profile %d with limits %g,%g, parameters %g,%g,%g %s",kind,r0,r1,a[0],a[1],a[2],ex?"refused":"accepted"); }
int main(int argc, char **argv) {
    return mc::run(argc, argv, "D05", {
        {"single", single, 2, "4 distribution functions x all parameter combinations (6 fields, 5 charges, 3 logarithms, 3 cut-offs x 2 widths, 5 pitch parameters) x 13 momenta x 13 pitches x both ways to initialise; clones"},
        {"reset", reset, 3, "all pairs of parameter sets of each kind, clone taken in between"},
        {"profile", profile, 3, "5 profiles x 10 intervals x all parameters x 13 radii inside, at the limits and outside x 3 drift shifts; clones"},
        {"product", product, 3, "all profiles x 4 distribution functions x 3 ways to combine; clones, clones of clones, originals deleted"},
        {"refused", refused, 1, "all profiles with empty, reversed intervals and non-positive parameters"},
    });
}
