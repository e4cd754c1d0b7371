/* M05: the analytical magnetic field. */
#include "numericref.h"
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
using namespace std;
typedef MagneticFieldAnalytical2D A;
struct Par { double B0,Rm,zm,a; bool ccB,ccI; int qt; double q1,q2;
    A *make() const { return new A(B0,Rm,zm,a,ccB?MFAFS_CCW:MFAFS_CW,ccI?MFAFS_CCW:MFAFS_CW,(MFASafetyFactorType)qt,q1,q2,"nm","ds"); }
    double q(double r) const { double x=r/a; switch (qt) { case MFASF_CONSTANT: return q1; case MFASF_LINEAR: return q1*x+q2; case MFASF_QUADRATIC: return q1*x*x+q2; case MFASF_EXPONENTIAL: return exp(q1*x)+q2; default: return isinf(q2)? q1 : q1/(1-2/(q2+2)*pow(x,q2)); } }
    /* cylindrical components (R, toroidal, Z) */
    void cyl(double R, double Z, double b[3]) const { double sB=ccB?1:-1, sI=ccI?1:-1, z=Z-zm, r=hypot(R-Rm,z), iq=1/q(r); b[0]=sI*B0*z*iq/R; b[1]=sB*B0*Rm/R; b[2]=sI*B0*(Rm-R)*iq/R; }
    double psi(double R, double Z) const { double z=Z-zm, r2=(R-Rm)*(R-Rm)+z*z; return (ccI?1:-1)*M_PI*B0*r2/q(sqrt(r2)); }
    string show() const { return mc::fmt("B0=%g Rm=%g zm=%g a=%g signs %d %d q-profile %d (%g,%g)",B0,Rm,zm,a,ccB,ccI,qt,q1,q2); } };
static Par pickPar(mc::Ctx& c) { static const vector<array<double,4>> G={ {5,0.68,0,0.22}, {2.5,3,-0.4,1.5}, {1,1,2,0.5} }; static const vector<array<double,3>> Q={ {MFASF_CONSTANT,1,0},{MFASF_CONSTANT,3.5,7},{MFASF_LINEAR,2,1},{MFASF_LINEAR,-0.5,3},{MFASF_QUADRATIC,3,1},{MFASF_QUADRATIC,-0.75,2},{MFASF_EXPONENTIAL,1,0.5},{MFASF_EXPONENTIAL,-0.5,1},{MFASF_CURRENT,1.5,2},{MFASF_CURRENT,1,4},{MFASF_CURRENT,2,INFINITY},{MFASF_CURRENT,1.25,2.5},{MFASF_CURRENT,3,1},{MFASF_CURRENT,1.1,9},{MFASF_LINEAR,0,2},{MFASF_EXPONENTIAL,2,0},{MFASF_QUADRATIC,0.5,0.75} }; auto& g=c.pickOf(G); auto& q=c.pickOf(Q); int s=c.pick(4); return {g[0],g[1],g[2],g[3],bool(s&1),bool(s&2),(int)q[0],q[1],q[2]}; }
static const vector<array<double,2>>& minor(bool t) { static const vector<array<double,2>> Q={{0,0},{0.01,0},{0.3,0.2},{0,0.5},{-0.5,0},{-0.4,-0.45},{0.7,-0.7},{0.05,0.95},{-0.99,0},{0.6,0}}; static vector<array<double,2>> T; if (T.empty()) { for (int i=-9;i<=9;i++) for (int j=-9;j<=9;j++) if (i*i+j*j<95) T.push_back({i/9.7,j/9.7}); T.insert(T.end(),Q.begin(),Q.end()); } return t?T:Q; }
static bool cl(double g, double e, double sc, double tol) { return std::isfinite(g)&&fabs(g-e)<=tol*sc; }
static void body(mc::Ctx& c) {
    Par p=pickPar(c); unique_ptr<A> f(p.make()); c.noteL([&]{ return p.show(); }); double S=p.B0*p.Rm/(p.Rm-p.a), SD=S/min(p.a,p.Rm-p.a)*4;
    for (auto& m : minor(true)) for (auto& t : angles()) { double R=p.Rm+m[0]*p.a, Z=p.zm+m[1]*p.a, x=R*t[0], y=R*t[1]; double b[3]; p.cyl(R,Z,b); double e[3]={b[0]*t[0]-b[1]*t[1],b[0]*t[1]+b[1]*t[0],b[2]}; double *g=f->Eval(x,y,Z); c.step(); for (int k=0;k<3;k++) c.require(cl(g[k],e[k],S,1e-11),"%s: Eval(%g,%g,%g)[%d] = %.12g instead of %.12g",p.show().c_str(),x,y,Z,k,g[k],e[k]);
        auto& d=f->EvalDerivatives(x,y,Z); c.step(); double ab=sqrt(b[0]*b[0]+b[1]*b[1]+b[2]*b[2]); for (int k=0;k<3;k++) c.require(cl(d.B[k],e[k],S,1e-11),"%s: EvalDerivatives(%g,%g,%g).B[%d] = %.12g instead of %.12g",p.show().c_str(),x,y,Z,k,d.B[k],e[k]); c.require(cl(d.Babs,ab,S,1e-11),"%s: Babs(%g,%g,%g) = %.12g instead of %.12g",p.show().c_str(),x,y,Z,d.Babs,ab);
        /* derivatives of the field itself, by differences in cylindrical coordinates */
        double h=1e-3*p.a, rr=hypot(R-p.Rm,Z-p.zm); bool kink= rr<3*h && p.qt!=MFASF_CONSTANT && p.qt!=MFASF_QUADRATIC && !(p.qt==MFASF_CURRENT&&p.q2>=2); auto D=[&](auto fn){ return (fn(-2.0)-8*fn(-1.0)+8*fn(1.0)-fn(2.0))/(12*h); }; double BR[3],BZ[3]; for (int k=0;k<3;k++) { BR[k]=D([&](double w){ double q[3]; p.cyl(R+w*h,Z,q); return q[k]; }); BZ[k]=D([&](double w){ double q[3]; p.cyl(R,Z+w*h,q); return q[k]; }); } auto abs2=[&](double r, double z){ double q[3]; p.cyl(r,z,q); return sqrt(q[0]*q[0]+q[1]*q[1]+q[2]*q[2]); }; double gR=D([&](double w){ return abs2(R+w*h,Z); }), gZ=D([&](double w){ return abs2(R,Z+w*h); });
        double T= kink? 2e-2 : 1e-7; Cyl q{b[0],b[1],b[2],BR[0],BZ[0],BR[1],BZ[1],BR[2],BZ[2],R,t[0],t[1]}; double J[3][3]; q.jac(J); for (int i=0;i<3;i++) for (int j=0;j<3;j++) c.require(cl(d.J[i][j],J[i][j],SD,T),"%s: J[%d][%d] at R=%g Z=%g angle (%g,%g) is %.9g, the field changes by %.9g",p.show().c_str(),i,j,R,Z,t[0],t[1],d.J[i][j],J[i][j]);
        double ge[3]={gR*t[0],gR*t[1],gZ}, cu[3]={J[2][1]-J[1][2],J[0][2]-J[2][0],J[1][0]-J[0][1]}; for (int k=0;k<3;k++) { c.require(cl(d.gradB[k],ge[k],SD,T),"%s: gradB[%d] at R=%g Z=%g angle (%g,%g) is %.9g, the field strength changes by %.9g",p.show().c_str(),k,R,Z,t[0],t[1],d.gradB[k],ge[k]); c.require(cl(d.curlB[k],cu[k],SD,T),"%s: curlB[%d] at R=%g Z=%g angle (%g,%g) is %.9g instead of %.9g",p.show().c_str(),k,R,Z,t[0],t[1],d.curlB[k],cu[k]); } c.require(fabs(d.J[0][0]+d.J[1][1]+d.J[2][2])<=1e-10*SD,"%s: divergence %g",p.show().c_str(),d.J[0][0]+d.J[1][1]+d.J[2][2]);
        auto *fl=f->EvalFluxDerivatives(x,y,Z); double PS=M_PI*p.B0*p.a*p.a*4, ps=p.psi(R,Z), pR=D([&](double w){ return p.psi(R+w*h,Z); }), pZ=D([&](double w){ return p.psi(R,Z+w*h); }); c.step(2); c.require(cl(f->EvalFlux(x,y,Z),ps,PS,1e-11)&&cl(fl->psi,ps,PS,1e-11),"%s: flux at R=%g Z=%g is %.9g / %.9g instead of %.9g",p.show().c_str(),R,Z,f->EvalFlux(x,y,Z),fl->psi,ps); c.require(cl(fl->dpsi_dR,pR,PS/p.a,T)&&cl(fl->dpsi_dZ,pZ,PS/p.a,T),"%s: flux derivatives at R=%g Z=%g are %.9g, %.9g instead of %.9g, %.9g",p.show().c_str(),R,Z,fl->dpsi_dR,fl->dpsi_dZ,pR,pZ);
        double r=hypot(R-p.Rm,Z-p.zm); c.require(cl(f->__GetSafetyFactor(r),p.q(r),1+fabs(p.q(r)),1e-11),"%s: safety factor at r=%g",p.show().c_str(),r); }
    c.state(mc::hstr(p.show())); }
static void wall(mc::Ctx& c) { Par p=pickPar(c); unique_ptr<A> f(p.make()); double a,b,d,e; f->GetDomainBounds(a,b,d,e); c.step(); double t=p.a*2.5e-3; c.require(fabs(a-p.Rm+p.a)<t&&fabs(b-p.Rm-p.a)<t&&fabs(d-p.zm+p.a)<t&&fabs(e-p.zm-p.a)<t,"%s: bounds R %g..%g Z %g..%g",p.show().c_str(),a,b,d,e); c.require(fabs(f->GetMaxRadius()-p.Rm-p.a)<t&&fabs(f->GetMinRadius()-p.Rm+p.a)<t,"radii %g..%g",f->GetMinRadius(),f->GetMaxRadius()); for (int k=0;k<97;k++) { double th=2*M_PI*k/97; for (double s : {0.1,0.9,0.99,1.01,1.3}) { bool x=f->CrossesDomain(p.Rm+s*p.a*cos(th),0,p.zm+s*p.a*sin(th)); c.step(); c.require(x==(s>1),"%s: a point at %g minor radii is %s",p.show().c_str(),s,x?"outside":"inside"); } } c.require(f->GetRMajor()==p.Rm&&f->GetRMinor()==p.a&&f->GetB0()==p.B0&&f->GetMagneticAxisR()==p.Rm&&f->GetMagneticAxisZ()==p.zm&&f->HasMagneticFlux(),"parameters"); c.state(mc::hdbl(p.Rm)); }
/* histories of evaluations, clones, changes of B0 and destruction */
static void history(mc::Ctx& c) {
    static const vector<Par> P={ {5,0.68,0,0.22,true,true,MFASF_LINEAR,2,1}, {2.5,3,-0.4,1.5,false,true,MFASF_CURRENT,1,4}, {1,1,2,0.5,true,false,MFASF_EXPONENTIAL,1,0.5} }; Par p0=c.pickOf(P); vector<unique_ptr<A>> o; vector<Par> m; o.emplace_back(p0.make()); m.push_back(p0); mc::u64 h=0; int D=c.thorough?7:6;
    for (int d=0;d<D;d++) { int q=c.pick(5*3), op=q/3, i=q%3; if (i>=(int)o.size()||!o[i]) return; Par& p=m[i]; c.noteL([&]{ return mc::fmt("operation %d on %d",op,i); }); if (op==0) { if (o.size()==3) return; unique_ptr<A> k(o[i]->Clone()); o.push_back(move(k)); m.push_back(Par(m[i])); } else if (op==1) { p.B0*=2; o[i]->SetB0(p.B0); } else if (op==2) o[i].reset(); else if (op==3) o[i]->EvalDerivatives(p.Rm+0.2*p.a,0.1,p.zm); else o[i]->EvalFluxDerivatives(p.Rm,p.a/2,p.zm+p.a/3);
        for (size_t k=0;k<o.size();k++) if (o[k]) { Par& w=m[k]; double R=w.Rm+0.3*w.a, Z=w.zm-0.4*w.a, b[3]; w.cyl(R,Z,b); double *g=o[k]->Eval(0.6*R,0.8*R,Z), S=w.B0*8; c.step(); c.require(cl(g[0],0.6*b[0]-0.8*b[1],S,1e-11)&&cl(g[1],0.8*b[0]+0.6*b[1],S,1e-11)&&cl(g[2],b[2],S,1e-11),"%s %zu: field (%g,%g,%g)",k?"clone":"original",k,g[0],g[1],g[2]); c.require(cl(o[k]->EvalFlux(R,0,Z),w.psi(R,Z),1+fabs(w.psi(R,Z)),1e-11),"flux of %zu",k); c.require(o[k]->GetName()=="nm"&&o[k]->GetDescription()=="ds"&&o[k]->GetMagneticAxisZ()==w.zm&&o[k]->GetRMinor()==w.a&&fabs(o[k]->GetMaxRadius()-w.Rm-w.a)<w.a/100,"metadata of %zu",k); } h=mc::mix(h,q); c.state(h); } }
static void gridded(mc::Ctx& c) {
    Par p=pickPar(c); unsigned nr=c.pickOf(vector<unsigned>{4,5,9}), nz=c.pickOf(vector<unsigned>{4,6,11}); unique_ptr<A> f(p.make()); unique_ptr<MagneticFieldNumeric2D> n(f->ToNumeric2D(nr,nz)); c.noteL([&]{ return p.show()+mc::fmt(" on %u x %u",nr,nz); }); double S=p.B0*p.Rm/(p.Rm-p.a), PS=M_PI*p.B0*p.a*p.a*4;
    for (unsigned i=0;i<nr;i++) for (unsigned j=0;j<nz;j++) { double R=p.Rm-p.a+2*p.a*i/(nr-1), Z=p.zm-p.a+2*p.a*j/(nz-1); double b[3]; if (p.qt==MFASF_CURRENT && hypot(R-p.Rm,Z-p.zm)>p.a*1.0001) { double *e=f->Eval(R,0,Z); for (int k=0;k<3;k++) b[k]=e[k]; } else p.cyl(R,Z,b); for (auto& t : angles()) { double *g=n->Eval(R*t[0],R*t[1],Z); c.step(); double sc=S+fabs(b[0])+fabs(b[2]); c.require(cl(g[0],b[0]*t[0]-b[1]*t[1],sc,1e-6)&&cl(g[1],b[0]*t[1]+b[1]*t[0],sc,1e-6)&&cl(g[2],b[2],sc,1e-6),"%s: gridded field at node (%u,%u) is (%g,%g,%g)",p.show().c_str(),i,j,g[0],g[1],g[2]); c.require(cl(n->EvalFlux(R*t[0],R*t[1],Z),f->EvalFlux(R,0,Z),PS+fabs(f->EvalFlux(R,0,Z)),1e-6),"%s: gridded flux at node (%u,%u) is %g instead of %g",p.show().c_str(),i,j,n->EvalFlux(R,0,Z),f->EvalFlux(R,0,Z)); } }
    MagneticField2D *b=n.get(); c.require(b->GetName()=="nm"&&b->GetMagneticAxisR()==p.Rm&&b->GetMagneticAxisZ()==p.zm&&b->GetNDomain()==f->GetNDomain()&&b->HasMagneticFlux(),"metadata of the gridded field"); for (unsigned i=0;i<b->GetNDomain();i++) c.require(b->GetRDomain()[i]==f->GetRDomain()[i]&&b->GetZDomain()[i]==f->GetZDomain()[i],"wall of the gridded field"); c.state(mc::mix(mc::hstr(p.show()),nr*100+nz)); }
/* grids of practical size */
static void fine(mc::Ctx& c) {
    Par p=pickPar(c); static const vector<array<unsigned,2>> N={{16,17},{32,31},{33,65},{64,20},{7,101},{130,4}}; auto& nn=c.pickOf(N); unsigned nr=nn[0], nz=nn[1]; unique_ptr<A> f(p.make()); unique_ptr<MagneticFieldNumeric2D> n(f->ToNumeric2D(nr,nz)); c.noteL([&]{ return p.show()+mc::fmt(" on %u x %u",nr,nz); });
    for (unsigned i=0;i<nr;i++) for (unsigned j=0;j<nz;j++) { double R=p.Rm-p.a+2*p.a*i/(nr-1), Z=p.zm-p.a+2*p.a*j/(nz-1); double e[3]; double *q=f->Eval(R,0,Z); for (int k=0;k<3;k++) e[k]=q[k]; double ps=f->EvalFlux(R,0,Z), sc=fabs(e[0])+fabs(e[1])+fabs(e[2]); double *g=n->Eval(R,0,Z); c.step(); c.require(cl(g[0],e[0],sc,1e-6)&&cl(g[1],e[1],sc,1e-6)&&cl(g[2],e[2],sc,1e-6),"%s: gridded field at node (%u,%u) of %u x %u is (%g,%g,%g) instead of (%g,%g,%g)",p.show().c_str(),i,j,nr,nz,g[0],g[1],g[2],e[0],e[1],e[2]); c.require(cl(n->EvalFlux(R,0,Z),ps,p.B0*p.a*p.a+fabs(ps),1e-6),"%s: gridded flux at node (%u,%u) of %u x %u is %g instead of %g",p.show().c_str(),i,j,nr,nz,n->EvalFlux(R,0,Z),ps); } c.state(mc::mix(mc::hstr(p.show()),nr*1000+nz)); }
int main(int argc, char **argv) {
    return mc::run(argc, argv, "M05", {
        {"field", body, 2, "3 machines x 17 safety-factor profiles (all kinds, rising and falling) x 4 sign combinations x ~310 positions including the magnetic axis x 8 toroidal angles"},
        {"wall", wall, 2, "the same configurations: bounds, radii, and 97x5 points in and out of the circular wall"},
        {"history", history, 2, "all sequences of 6 (thorough 7) clone/SetB0/delete/evaluate operations over up to 3 objects"},
        {"gridded", gridded, 2, "the same configurations converted to 9 grid sizes, every node and angle"},
        {"fine", fine, 2, "the same configurations on 6 larger grids (up to 130 points a side), every node"},
    });
}
