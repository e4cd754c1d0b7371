/* I01: the adaptive Runge-Kutta integrator. */
#include "mc.h"
#include <array>
#include <memory>
#include <softlib/RKDP45.h>
#include <softlib/GeneralEquation.h>
#include <softlib/SOFTLibException.h>
using namespace std;
typedef vector<double> V;
/* an equation with its exact solution; end: where the solution ceases to exist (INFINITY if nowhere) */
struct Eq { const char *name; int n; void (*f)(double,const double*,double*); function<V(double,const V&)> sol; vector<V> y0; double tmax; double end; double grow; };
static const vector<Eq>& eqs() { static const vector<Eq> E={
    {"x'=0",1,[](double,const double*,double*o){ o[0]=0; },[](double,const V& y){ return y; },{{0},{3}},1e3,INFINITY,1},
    {"x'=4t^3-3t^2+2t-1",1,[](double t,const double*,double*o){ o[0]=((4*t-3)*t+2)*t-1; },[](double t,const V& y){ return V{y[0]+(((t-1)*t+1)*t-1)*t}; },{{0},{-2}},20,INFINITY,1},
    {"x'=t/x",1,[](double t,const double*x,double*o){ o[0]=t/x[0]; },[](double t,const V& y){ return V{sqrt(y[0]*y[0]+t*t)}; },{{1},{0.5}},10,INFINITY,4},
    {"x'=-x",1,[](double,const double*x,double*o){ o[0]=-x[0]; },[](double t,const V& y){ return V{y[0]*exp(-t)}; },{{1},{-4}},10,INFINITY,1},
    {"x'=x cos t",1,[](double t,const double*x,double*o){ o[0]=x[0]*cos(t); },[](double t,const V& y){ return V{y[0]*exp(sin(t))}; },{{1},{0.1}},12,INFINITY,8},
    {"relaxation to cos t",1,[](double t,const double*x,double*o){ o[0]=-50*(x[0]-cos(t))-sin(t); },[](double t,const V& y){ return V{cos(t)+(y[0]-1)*exp(-50*t)}; },{{1},{2}},4,INFINITY,1},
    {"rotation",2,[](double,const double*x,double*o){ o[0]=-M_PI*x[1]; o[1]=M_PI*x[0]; },[](double t,const V& y){ double c=cos(M_PI*t), s=sin(M_PI*t); return V{y[0]*c-y[1]*s,y[0]*s+y[1]*c}; },{{1,0},{-0.25,2}},6,INFINITY,10},
    {"three rates",3,[](double t,const double*x,double*o){ o[0]=-0.5*x[0]; o[1]=2*t; o[2]=-3*x[2]+3*x[0]; },[](double t,const V& y){ double a=y[0]*exp(-0.5*t), k=3.0/2.5*y[0]; return V{a,y[1]+t*t,k*exp(-0.5*t)+(y[2]-k)*exp(-3*t)}; },{{1,0,1},{2,-1,0}},8,INFINITY,2},
    {"x'=x^2",1,[](double,const double*x,double*o){ o[0]=x[0]*x[0]; },[](double t,const V& y){ return V{y[0]/(1-y[0]*t)}; },{{1},{0.5}},0.9,1,100},
    {"x'=-sqrt(x)",1,[](double,const double*x,double*o){ o[0]=-sqrt(x[0]); },[](double t,const V& y){ double s=sqrt(y[0])-t/2; return V{s*s}; },{{4},{1}},1.5,2,4},
    {"x'=-1/(2x)",1,[](double,const double*x,double*o){ o[0]=-0.5/x[0]; },[](double t,const V& y){ return V{sqrt(y[0]*y[0]-t)}; },{{1},{2}},0.8,1,10},
    {"not a number",1,[](double,const double*,double*o){ o[0]=NAN; },[](double,const V& y){ return y; },{{1}},0,0,1},
}; return E; }
struct Opt { double tol; bool deftol; double beta, maxs, safe; };
static const vector<Opt>& opts(bool) { static const vector<Opt> O={ {1e-6,false,0,0,0},{1e-3,false,0,0,0},{1e-10,false,0,0,0},{RK_DEFAULT_TOLERANCE,true,0,0,0},{1e-7,false,0.05,0,0},{1e-5,false,0,2,0.8} }; return O; }
/* type-erased solver */
struct Solver { virtual ~Solver() {} virtual void restart(const V&)=0; virtual double step()=0; virtual unsigned n()=0; virtual double t(unsigned)=0; virtual V y(unsigned)=0; virtual V d(unsigned)=0; virtual double lt()=0; virtual V ly()=0; virtual V ld()=0; virtual V dense(V)=0; virtual V uniform(unsigned,double,double,V&)=0; virtual void toggle(bool)=0; virtual bool has()=0; virtual void use(const Eq&)=0; };
template<unsigned N> struct SolverN : public Solver {
    struct F : public IntegratorEquation<N> { void (*f)(double,const double*,double*); Vector<N>& Evaluate(const slibreal_t t, const Vector<N>& y, Vector<N>& o) override { double a[N],b[N]; for (unsigned i=0;i<N;i++) a[i]=y[i]; f(t,a,b); for (unsigned i=0;i<N;i++) o[i]=b[i]; return o; } } f;
    unique_ptr<RKDP45<N>> s; static V vec(double *p) { return p? V(p,p+N) : V(); }
    SolverN(const Eq& e, const Opt& o) { s.reset(o.deftol? new RKDP45<N>() : new RKDP45<N>(o.tol)); use(e); s->SetEquation(&f); if (o.beta) { s->SetExponentBeta(o.beta); s->SetExponentAlpha(0.2-0.75*o.beta); } if (o.maxs) s->SetMaxScaleFactor(o.maxs); if (o.safe) { s->SetSafetyFactor(o.safe); s->SetMinScaleFactor(0.1); } }
    void use(const Eq& e) override { f.f=e.f; }
    void restart(const V& v) override { Vector<N> y; for (unsigned i=0;i<N;i++) y[i]=v[i]; Integrator<N> *b=s.get(); b->InitialValue(y); } double step() override { Integrator<N> *b=s.get(); return b->Step(); }
    unsigned n() override { return s->StepsTaken(); } double t(unsigned i) override { return s->TimeAt(i); } V y(unsigned i) override { return vec(s->SolutionAt(i)); } V d(unsigned i) override { return vec(s->DerivativeAt(i)); } double lt() override { return s->LastTime(); } V ly() override { return vec(s->LastSolution()); } V ld() override { return vec(s->LastDerivative()); }
    V dense(V t) override { V o(t.size()*N+1,12345); s->OutputDense(t.size(),t.data(),o.data()); if (o.back()!=12345) throw mc::Failure{"","dense output wrote beyond its array"}; o.pop_back(); return o; } V uniform(unsigned k, double a, double b, V& t) override { V o(k*N); t.assign(k,0); s->OutputDense(k,a,b,o.data(),t.data()); return o; } void toggle(bool b) override { s->ToggleDenseOutput(b); } bool has() override { return s->HasDenseOutput(); } };
static unique_ptr<Solver> make(const Eq& e, const Opt& o) { if (e.n==1) return unique_ptr<Solver>(new SolverN<1>(e,o)); if (e.n==2) return unique_ptr<Solver>(new SolverN<2>(e,o)); return unique_ptr<Solver>(new SolverN<3>(e,o)); }
/* one Dormand-Prince step from the published tableau */
static void dp(const Eq& e, double t, double h, const V& y, V& out, V& err) {
    static const double A[7][6]={{0},{1/5.},{3/40.,9/40.},{44/45.,-56/15.,32/9.},{19372/6561.,-25360/2187.,64448/6561.,-212/729.},{9017/3168.,-355/33.,46732/5247.,49/176.,-5103/18656.},{35/384.,0,500/1113.,125/192.,-2187/6784.,11/84.}}, C[7]={0,.2,.3,.8,8/9.,1,1}, B4[7]={5179/57600.,0,7571/16695.,393/640.,-92097/339200.,187/2100.,1/40.};
    int n=e.n; double k[7][3]; V s(n); for (int i=0;i<7;i++) { for (int m=0;m<n;m++) { double a=0; for (int j=0;j<i;j++) a+=A[i][j]*k[j][m]; s[m]=y[m]+h*a; } e.f(t+C[i]*h,s.data(),k[i]); if (i==6) out=s; } err.assign(n,0); for (int m=0;m<n;m++) for (int i=0;i<7;i++) err[m]+=h*((i<6?A[6][i]:0)-B4[i])*k[i][m]; }
static double norm(const V& v) { double s=0; for (double x : v) s=max(s,fabs(x)); return s; }
static string show(const V& v) { string s; for (double x : v) s+=mc::fmt("%s%.12g",s.empty()?"":",",x); return s; }
/* step i of the record must be an accepted Dormand-Prince step */
static void checkStep(mc::Ctx& c, Solver& s, const Eq& e, const Opt& o, unsigned i) {
    double t=s.t(i), u=s.t(i+1); c.require(u>t&&std::isfinite(u),"%s: recorded times %.17g, %.17g do not increase",e.name,t,u); V y=s.y(i), z, er; double h=u-t; if (h<1e-9*t) return; /* the recorded times no longer determine the step */ dp(e,t,h,y,z,er); double rh=1e-13+4e-16*fabs(t)/h; V got=s.y(i+1); double sc=norm(y)+norm(z)+h*norm(s.d(i)); bool bad=false; for (int m=0;m<e.n;m++) bad|=!(fabs(got[m]-z[m])<=sc*(1e-11+rh*30)); c.require(!bad,"%s: step %u from t=%.9g by %.9g gives (%s) instead of (%s)",e.name,i,t,h,show(got).c_str(),show(z).c_str());
    double q=0; for (int m=0;m<e.n;m++) { double sk=o.tol+o.tol*max(fabs(y[m]),fabs(got[m])); q+=er[m]/sk*er[m]/sk; } q=sqrt(q/e.n); double slack=1e-6+sc*(1e-13+rh)/o.tol; c.require(q<=1+slack,"%s: step %u from t=%.9g by %.9g with an error of %g times the tolerance (%g) was accepted",e.name,i,t,h,q,o.tol);
    V d(e.n); e.f(u,got.data(),d.data()); V gd=s.d(i+1); for (int m=0;m<e.n;m++) c.require(fabs(gd[m]-d[m])<=1e-12*(1+fabs(d[m])),"%s: derivative recorded for step %u",e.name,i+1); c.step(); }
static void accuracy(mc::Ctx& c, const Eq& e, const Opt& o, const V& y0, double t, const double *g, double K, const char *what) { V x=e.sol(t,y0); double sc=1; for (double v : x) sc=max(sc,fabs(v)); for (int m=0;m<e.n;m++) c.require(fabs(g[m]-x[m])<=K*e.grow*max(o.tol,1e-13)*sc*(1+t),"%s, tolerance %g: %s at t=%.9g is %.12g instead of %.12g",e.name,o.tol,what,t,g[m],x[m]); }
static bool stepFails(Solver& s) { try { s.step(); return false; } catch (SOFTLibException&) { return true; } }
static bool denseFails(Solver& s, const V& t, V& out) { try { out=s.dense(t); return false; } catch (SOFTLibException&) { return true; } }
/* whole runs: accuracy of record and dense output */
static void runs(mc::Ctx& c) {
    const Eq& e=eqs()[c.pick(eqs().size()-1)]; const Opt& o=c.pickOf(opts(c.thorough)); const V& y0=e.y0[c.pick(e.y0.size())]; double scale=isinf(e.end)?1:e.end*(e.y0[0][0]>2?1:1); auto s=make(e,o); s->restart(y0); c.noteL([&]{ return mc::fmt("%s from (%s), tolerance %g",e.name,show(y0).c_str(),o.tol); });
    c.require(s->n()==1&&s->lt()==0&&s->ly()==y0&&s->t(0)==0&&s->y(0)==y0,"initial value"); V d0(e.n); e.f(0,y0.data(),d0.data()); c.require(s->ld()==d0&&s->d(0)==d0,"initial derivative"); double tmax=e.tmax; if (string(e.name)=="x'=-sqrt(x)") tmax=0.85*2*sqrt(y0[0]); else if (string(e.name)=="x'=-1/(2x)") tmax=0.8*y0[0]*y0[0]; else if (string(e.name)=="x'=x^2") tmax=0.8/y0[0]; (void)scale;
    unsigned k=0; double safety=0; while (s->lt()<tmax) { c.require(!stepFails(*s),"%s: step %u from t=%.9g failed",e.name,k,s->lt()); double T=s->lt(); k++; c.require(s->n()==k+1&&s->t(k)==T&&s->ly()==s->y(k)&&s->ld()==s->d(k),"step %u is not the last of the record",k); checkStep(c,*s,e,o,k-1); if (T<=tmax*1.2||isinf(e.end)) accuracy(c,e,o,y0,min(T,T),s->y(k).data(),10,"solution"); c.require(k<200000,"%s: no progress",e.name); }
    (void)safety; unsigned n=s->n(); double tl=s->lt(); /* dense output at the recorded times */
    V t; for (unsigned i=0;i<n;i++) t.push_back(s->t(i)); V out; c.require(!denseFails(*s,t,out),"dense output at the recorded times failed"); for (unsigned i=0;i<n;i++) { V y=s->y(i); for (int m=0;m<e.n;m++) c.require(fabs(out[i*e.n+m]-y[m])<=1e-12*(1+fabs(y[m])+norm(s->y(max(1u,i)-1))),"%s: dense output at recorded time %.17g is %.17g instead of %.17g",e.name,t[i],out[i*e.n+m],y[m]); }
    /* between */
    V tt; for (unsigned i=0;i+1<n;i++) for (double w : {0.1,0.3,0.5,0.75,0.99}) { double x=t[i]+w*(t[i+1]-t[i]); if (x<=tmax||isinf(e.end)) tt.push_back(x); } c.require(!denseFails(*s,tt,out),"dense output within the interval failed"); for (size_t i=0;i<tt.size();i++) accuracy(c,e,o,y0,tt[i],&out[i*e.n],400,"dense output"); c.step(tt.size());
    if (string(e.name)=="x'=4t^3-3t^2+2t-1"||string(e.name)=="x'=0") for (size_t i=0;i<tt.size();i++) { double x=e.sol(tt[i],y0)[0], S=fabs(y0[0])+pow(tl,4)+1; c.require(fabs(out[i]-x)<=1e-11*S,"%s: dense output of a quartic at t=%.9g is %.12g instead of %.12g",e.name,tt[i],out[i],x); }
    /* uniform output */
    for (unsigned k : {2u,3u,7u}) { V ut; double a=tl*0.125, b=tl; V u=s->uniform(k,a,b,ut); for (unsigned i=0;i<k;i++) { double x=a+(b-a)*i/(k-1); c.require(fabs(ut[i]-x)<=1e-13*(1+tl),"uniform output time %u is %.17g instead of %.17g",i,ut[i],x); } c.require(ut[0]==a&&ut[k-1]==b,"ends of uniform output"); V v=s->dense(ut); c.require(u==v,"uniform output differs from output at the same times"); } { V ut, v=s->uniform(1,tl/2,tl/2,ut); c.require(ut[0]==tl/2&&v==s->dense({tl/2}),"uniform output at one time"); for (unsigned k : {0u,1u}) { bool thr=false; V w(8),x(8); try { V q; s->uniform(k,0,tl/2,q); } catch (SOFTLibException&) { thr=true; } c.require(thr,"%u uniform times from 0 to %g were accepted",k,tl/2); } }
    /* outside */
    for (double x : {-1e-9*tl,-1.0,tl*(1+1e-9),tl+1,1e30,-1e30}) { c.require(denseFails(*s,{x},out),"%s: dense output at t=%.12g outside of 0..%.12g gave (%s)",e.name,x,tl,show(out).c_str()); c.require(denseFails(*s,{0,tl/2,x},out),"dense output at 0, %g, %g",tl/2,x); c.require(denseFails(*s,{x,tl/2},out),"dense output at %g, %g",x,tl/2); c.step(3); }
    c.state(mc::mix(mc::hstr(e.name),mc::mix(mc::hdbl(o.tol+o.beta),mc::hdbl(y0[0])))); }
/* solutions that end: stepping must end with an exception, and never record a time twice */
static void endings(mc::Ctx& c) {
    const Eq *p; do p=&eqs()[c.pick(eqs().size())]; while (0); const Eq& e=*p; if (isinf(e.end)) return; const Opt& o=c.pickOf(opts(c.thorough)); const V& y0=e.y0[c.pick(e.y0.size())]; auto s=make(e,o); s->restart(y0); c.noteL([&]{ return mc::fmt("%s, tolerance %g to the end",e.name,o.tol); }); bool failed=false; unsigned k=0; double cap=1e6; for (;k<4000;k++) { double t0=s->lt(); unsigned n=s->n(); if (stepFails(*s)) { failed=true; c.require(s->n()==n&&s->lt()==t0,"a failed step was recorded"); break; } if (norm(s->ly())>1e200) break; checkStep(c,*s,e,o,n-1); if (s->lt()>cap) break; }
    /* a step which jumps over the singular point within its error estimate is legitimate; standing still is not */
        if (e.end==0) c.require(failed,"undefined derivative was integrated"); s->restart(y0); c.require(s->n()==1&&s->ly()==y0,"restart after a failed step"); c.state(mc::mix(mc::hstr(e.name),k)); }
/* histories of steps, restarts, outputs and changes of the equation against fresh solvers */
struct Rec { V t; vector<V> y,d; V between; };
static const Rec& fresh(int ei, int oi, int yi, unsigned n) { static map<array<int,4>,Rec> M; auto k=array<int,4>{ei,oi,yi,(int)n}; auto it=M.find(k); if (it!=M.end()) return it->second; Rec r; const Eq& e=eqs()[ei]; auto s=make(e,opts(false)[oi]); s->restart(e.y0[yi]); for (unsigned i=1;i<n;i++) s->step(); for (unsigned i=0;i<n;i++) { r.t.push_back(s->t(i)); r.y.push_back(s->y(i)); r.d.push_back(s->d(i)); } if (n>1) { V t; for (unsigned i=0;i+1<n;i++) for (double w : {0.0,0.25,0.6}) t.push_back(s->t(i)+w*(s->t(i+1)-s->t(i))); t.push_back(s->lt()); r.between=s->dense(t); } return M.emplace(k,r).first->second; }
static void history(mc::Ctx& c) {
    static const int pair[][2]={{2,3},{6,6},{4,5},{7,7}}; auto& pr=pair[c.pick(4)]; int oi=c.pick(3)*2; /* 1e-6, 1e-10, PI control */ int ei=pr[0], yi=0; auto s=make(eqs()[ei],opts(false)[oi]); s->restart(eqs()[ei].y0[0]); unsigned n=1; int D=c.thorough?7:5; mc::u64 h=mc::mix(ei,oi); bool dense=true, on=true;
    for (int d=0;d<D;d++) { int op=c.pick(7); const Eq& e=eqs()[ei]; c.step(); switch (op) {
        case 0: s->step(); n++; if (!on) dense=false; break; case 1: for (int k=0;k<5;k++) s->step(); n+=5; if (!on) dense=false; break;
        case 2: yi=0; s->restart(e.y0[0]); n=1; dense=true; break; case 3: yi=1; s->restart(e.y0[1]); n=1; dense=true; break;
        case 4: ei= ei==pr[0]? pr[1]:pr[0]; s->use(eqs()[ei]); yi=0; s->restart(eqs()[ei].y0[0]); n=1; dense=true; break;
        case 5: on=!on; s->toggle(on); c.require(s->has()==on,"dense output switch"); break;
        case 6: { V out; bool f; if (n<2) { f=denseFails(*s,{0},out); c.require(f||out==eqs()[ei].y0[yi],"dense output without steps gave (%s)",show(out).c_str()); f=denseFails(*s,{0.5},out); c.require(f,"dense output beyond the initial time without steps"); } else { V t={s->lt()*0.75,s->lt()*0.25,s->lt(),0,s->lt()*0.5}; f=denseFails(*s,t,out); if (dense) { c.require(!f,"dense output failed"); for (size_t i=0;i<t.size();i++) { V one=s->dense({t[i]}); for (int m=0;m<eqs()[ei].n;m++) c.require(out[i*eqs()[ei].n+m]==one[m],"dense output at t=%g depends on the other requested times: %.12g and %.12g",t[i],out[i*eqs()[ei].n+m],one[m]); } } else c.require(f,"dense output for steps taken while it was off"); } break; } }
        c.noteL([&]{ return mc::fmt("operation %d: %u steps of %s",op,n,eqs()[ei].name); });
        c.require(s->n()==n,"%u steps recorded instead of %u",s->n(),n); const Rec& r=fresh(ei,oi,yi,n); for (unsigned i=0;i<n;i++) c.require(s->t(i)==r.t[i]&&s->y(i)==r.y[i]&&s->d(i)==r.d[i],"record %u is t=%.17g (%s), a fresh solver gives t=%.17g (%s)",i,s->t(i),show(s->y(i)).c_str(),r.t[i],show(r.y[i]).c_str());
        if (n>1&&dense) { V t; for (unsigned i=0;i+1<n;i++) for (double w : {0.0,0.25,0.6}) t.push_back(s->t(i)+w*(s->t(i+1)-s->t(i))); t.push_back(s->lt()); V out; c.require(!denseFails(*s,t,out)&&out==r.between,"dense output differs from that of a fresh solver"); }
        h=mc::mix(h,mc::mix(mc::mix(n,ei*2+yi),dense*2+on)); c.state(mc::mix(mc::mix(ei*10+oi,n),mc::mix(yi,dense*2+on))); } }
/* more steps than a storage block holds */
static void blocks(mc::Ctx& c) {
    int ei=c.pick(2)?7:6; const Eq& e=eqs()[ei]; int first=c.pickOf(vector<int>{0,1,3,998,999,1000,1001,1500,2001}), second=c.pickOf(vector<int>{2,997,999,1000,1003,1999,2000,2500}); auto s=make(e,opts(false)[2]); bool off=c.flip(); c.noteL([&]{ return mc::fmt("%s: %d steps%s, restart, %d steps",e.name,first,off?" without dense output":"",second); }); s->toggle(!off); s->restart(e.y0[0]); for (int i=0;i<first;i++) s->step(); s->toggle(true); s->restart(e.y0[1]); for (int i=0;i<second;i++) s->step(); const Rec& r=fresh(ei,2,1,second+1); c.require((int)s->n()==second+1,"number of steps"); V t; for (int i=0;i<=second;i++) { c.require(s->t(i)==r.t[i]&&s->y(i)==r.y[i]&&s->d(i)==r.d[i],"record %d after %d and %d steps",i,first,second); if (i) { for (double w : {0.0,0.25,0.6}) t.push_back(s->t(i-1)+w*(s->t(i)-s->t(i-1))); c.require(s->t(i)>s->t(i-1),"times"); } c.step(); } t.push_back(s->lt()); V out; c.require(!denseFails(*s,t,out)&&out==r.between,"dense output after %d and %d steps",first,second); for (int i=0;i<=second;i+=37) if (s->t(i)<e.tmax) accuracy(c,e,opts(false)[2],e.y0[1],s->t(i),s->y(i).data(),400,"solution"); c.state(first*4000+second); }
/* many uniform times, and ends that rounding would miss */
static void uniformTimes(mc::Ctx& c) {
    int ei=c.pickOf(vector<int>{3,6,7}); const Eq& e=eqs()[ei]; auto s=make(e,opts(false)[0]); s->restart(e.y0[0]); while (s->lt()<1.7) s->step(); double tl=s->lt(); unsigned k=c.pickOf(vector<unsigned>{2,3,4,5,8,11,50,1000,1001,9973,100001}); int N= k>1000? 3 : k>100? 20 : 200; for (int i=0;i<N;i++) { double a=tl*(0.0137+0.98*i/N*0.9), b= i%2? tl : tl*(1-0.0007*(i%13)); if (a>=b) continue; V t, u; bool f=false; try { u=s->uniform(k,a,b,t); } catch (SOFTLibException&) { f=true; } c.step(); c.noteL([&]{ return mc::fmt("%s: %u times from %.17g to %.17g",e.name,k,a,b); }); c.require(!f,"%u uniform times from %.17g to %.17g within 0..%.17g are refused",k,a,b,tl); c.require(t[0]==a&&t[k-1]==b,"%u uniform times from %.17g to %.17g begin at %.17g and end at %.17g",k,a,b,t[0],t[k-1]); double bad=0; unsigned w=0; for (unsigned j=0;j<k;j++) { double x=a+(b-a)*((double)j/(k-1)), d=fabs(t[j]-x); if (!(d<=bad)) bad=d, w=j; } c.require(bad<=1e-14*tl,"uniform time %u of %u from %.17g to %.17g is %.17g, off by %g",w,k,a,b,t[w],bad); for (unsigned j=0;j<k;j+= k>100? k/37 : 1) { V one=s->dense({t[j]}); for (int m=0;m<e.n;m++) c.require(u[(size_t)j*e.n+m]==one[m],"uniform output %u of %u",j,k); } } c.state(mc::mix(ei,k)); }
/* a solver is as good as new after a step that failed or was rejected on the way */
static void recovery(mc::Ctx& c) {
    const Eq& bad=eqs()[c.pickOf(vector<int>{8,9,10,11})]; int ei=c.pickOf(vector<int>{2,3,4,5}), oi=c.pick(6), yi=c.pick(2), n=c.pickOf(vector<int>{0,1,3,1000000}), m=c.pickOf(vector<int>{1,2,5,30}); auto s=make(bad,opts(false)[oi]); s->restart(bad.y0[0]); int k=0; bool failed=false; for (;k<n&&k<4000;k++) { if (stepFails(*s)) { failed=true; break; } if (norm(s->ly())>1e200) break; } c.noteL([&]{ return mc::fmt("%s: %d steps%s, then %s",bad.name,k,failed?" and a failure":"",eqs()[ei].name); }); s->use(eqs()[ei]); s->restart(eqs()[ei].y0[yi]); for (int i=0;i<m;i++) { c.require(!stepFails(*s),"%s: step %d after %d steps of %s%s failed",eqs()[ei].name,i,k,bad.name,failed?" and a failure":""); c.step(); } const Rec& r=fresh(ei,oi,yi,m+1); for (int i=0;i<=m;i++) c.require(s->t(i)==r.t[i]&&s->y(i)==r.y[i]&&s->d(i)==r.d[i],"%s after %d steps of %s%s: record %d is t=%.17g (%s), a fresh solver gives t=%.17g (%s)",eqs()[ei].name,k,bad.name,failed?" and a failure":"",i,s->t(i),show(s->y(i)).c_str(),r.t[i],show(r.y[i]).c_str()); V t; for (int i=0;i<m;i++) for (double w : {0.0,0.25,0.6}) t.push_back(s->t(i)+w*(s->t(i+1)-s->t(i))); t.push_back(s->lt()); V out; c.require(!denseFails(*s,t,out)&&out==r.between,"dense output differs from that of a fresh solver"); c.state(mc::mix(mc::mix(ei,oi),mc::mix(mc::hstr(bad.name),n*100+m*2+yi))); }
/* long records: nothing recorded is lost or changed however many steps follow, and dense output finds its step from anywhere */
static void longRuns(mc::Ctx& c) {
    int ei=c.pickOf(vector<int>{4,6,7}), n=c.pickOf(c.thorough? vector<int>{5500,10001,20000,66000,140000} : vector<int>{5500,10001,66000}); if (n>60000&&ei==7&&!c.thorough) return; const Eq& e=eqs()[ei]; const Opt& o=opts(false)[2]; auto s=make(e,o); s->restart(e.y0[0]); V t={0}; vector<V> y={e.y0[0]}, d={s->ld()}; c.noteL([&]{ return mc::fmt("%s: %d steps",e.name,n); });
    for (int i=0;i<n;i++) { c.require(!stepFails(*s),"%s: step %d from t=%.9g failed",e.name,i,s->lt()); t.push_back(s->lt()); y.push_back(s->ly()); d.push_back(s->ld()); checkStep(c,*s,e,o,i); } c.require((int)s->n()==n+1,"%u steps recorded instead of %d",s->n(),n+1);
    for (int i=0;i<=n;i++) c.require(s->t(i)==t[i]&&s->y(i)==y[i]&&s->d(i)==d[i],"%s: record %d changed between its step and step %d",e.name,i,n);
    auto hermite=[&](int i, double w) { /* third-order reference between two records */ double h=t[i+1]-t[i]; V r(e.n); for (int m=0;m<e.n;m++) { double a=y[i][m], b=y[i+1][m], p=h*d[i][m], q=h*d[i+1][m]; r[m]=a*(1+2*w)*(1-w)*(1-w)+p*w*(1-w)*(1-w)+b*w*w*(3-2*w)+q*w*w*(w-1); } return r; };
    vector<vector<pair<int,double>>> Q(4); for (int i=0;i<n;i+=max(1,n/4001)) Q[0].push_back({i,0.3}); for (int i=n-1;i>=0;i-=n/53) Q[1].push_back({i,0.6}); for (long k=0;k<60;k++) Q[2].push_back({(int)(k*k*7919+k*613)%n<0?0:(int)((k*k*7919+k*613)%n),0.45}); for (int i : {n-1,0,n-1,n/2,4095,4096,4097,1,n-2,999,1000,1001,5000,4999,n-1}) Q[3].push_back({i,0.7});
    for (auto& q : Q) { V tt, out; for (auto& x : q) tt.push_back(t[x.first]+x.second*(t[x.first+1]-t[x.first])); c.require(!denseFails(*s,tt,out),"%s: dense output among %d steps failed",e.name,n); for (size_t i=0;i<q.size();i++) { V r=hermite(q[i].first,q[i].second); double h=t[q[i].first+1]-t[q[i].first]; for (int m=0;m<e.n;m++) c.require(fabs(out[i*e.n+m]-r[m])<=1e-4*h*(norm(d[q[i].first])+norm(d[q[i].first+1])+1e-3),"%s: dense output in step %d of %d is %.12g instead of %.12g",e.name,q[i].first,n,out[i*e.n+m],r[m]); c.step(); } }
    V out; for (int i=0;i<=n;i+=n/997) { c.require(!denseFails(*s,{t[i]},out),"dense output at record %d",i); for (int m=0;m<e.n;m++) c.require(fabs(out[m]-y[i][m])<=1e-11*(1+norm(y[i])),"%s: dense output at recorded time %d of %d is %.12g instead of %.12g",e.name,i,n,out[m],y[i][m]); }
    c.state(mc::mix(ei,n)); }
/* a solution that ends is followed to within the resolution of its times, on every scale of time */
static void approach(mc::Ctx& c) {
    int ei=c.pickOf(vector<int>{8,9,10}); const Eq& e=eqs()[ei]; const Opt& o=c.pickOf(opts(c.thorough)); double T=c.pickOf(vector<double>{1,1e-8,1e-3,1e3}), x0= ei==8? 1/T : ei==9? T*T/4 : sqrt(T); auto s=make(e,o); s->restart({x0}); c.noteL([&]{ return mc::fmt("%s from %g, tolerance %g",e.name,x0,o.tol); }); auto left=[&](double x) { return ei==8? 1/x : ei==9? 2*sqrt(x) : x*x; };
    for (int k=0;k<6000;k++) { double x=s->ly()[0], t=s->lt(), r=left(x); if (!(x>0)||r<1e-11*T||norm(s->ly())>1e100) break; bool f=stepFails(*s); c.step(); c.require(!f||r<=1e-9*T,"%s from %g, tolerance %g: step from t=%.17g failed although the solution goes on for %g",e.name,x0,o.tol,t,r); if (f) break; c.require(s->lt()>t,"%s: time %.17g after %.17g",e.name,s->lt(),t); checkStep(c,*s,e,o,s->n()-2); }
    c.state(mc::mix(ei,mc::mix(mc::hdbl(T),mc::hdbl(o.tol+o.beta+o.maxs)))); }
int main(int argc, char **argv) {
    return mc::run(argc, argv, "I01", {
        {"runs", runs, 2, "11 equations with known solutions (1-3 components) x 2 initial values x 6 tolerance/controller settings, whole runs: every step against the published Dormand-Prince tableau, exact solutions, dense output at and between all recorded times, uniform output, requests outside"},
        {"ends", endings, 2, "equations whose solution ends at a finite time or has no derivative x 6 settings, stepped until they fail or 4000 steps"},
        {"history", history, 3, "4 equation pairs x 3 settings x all sequences of 5 (thorough 7) step/5 steps/restart/change equation/switch dense output/request output against fresh solvers"},
        {"uniform", uniformTimes, 2, "3 equations x 11 numbers of uniform times (2 to 100001) x up to 200 intervals whose ends do not divide evenly"},
        {"recovery", recovery, 2, "4 equations that end x stopped after 0, 1, 3 steps or at the failure x 4 regular equations x 6 settings x 2 initial values x 4 step counts, against fresh solvers"},
        {"long", longRuns, 2, "3 equations x 3 (thorough 5) records of 5500 to 66000 (thorough 140000) steps: every step against the tableau, every record unchanged at the end, dense output forwards, backwards and in jumps"},
        {"approach", approach, 2, "3 equations whose solution ends x 6 settings x 4 time scales, followed until the end is within 1e-11 of the elapsed time"},
        {"blocks", blocks, 2, "2 equations x 9 x 8 step counts around the storage block size before and after a restart, with and without dense output before"},
    });
}
