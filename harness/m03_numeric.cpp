/* M03: evaluation of gridded magnetic fields. */
#include "numericref.h"
using namespace std;
typedef unique_ptr<MagneticFieldNumeric2D> F;
static const vector<vector<double>>& rgrids() { static const vector<vector<double>> G={ {1,2,3,4}, {0.5,0.75,1.5,3}, {1,1.5,2,2.5,4}, {0,1,2,3}, {10,10.5,12,12.25,15,16} }; return G; }
static const vector<vector<double>>& zgrids() { static const vector<vector<double>> G={ {-1,0,1,2}, {-2,-0.5,0.25,1}, {0.5,1,2,2.5,3}, {-3,-2,-1.75,-1,-0.5,2} }; return G; }
static V4 generic(double, double, size_t i, size_t j) { return { 1.0+0.7*sin(1.3*i+2.1*j), -2.0+0.5*cos(0.9*i-1.7*j), 0.6*sin(2.2*i*1.0+0.4*j+0.3)+1.5, 3.0+0.8*cos(1.1*i+0.6*j) }; }
static void checkB(mc::Ctx& c, MagneticFieldNumeric2D *f, double x, double y, double z, double br, double bp, double bz, double cs, double sn, double scale, const char *what, double tol=1e-11) {
    double e[3]={br*cs-bp*sn, br*sn+bp*cs, bz}; double *g=f->Eval(x,y,z); c.step(); for (int k=0;k<3;k++) c.require(close(g[k],e[k],scale,tol),"%s: Eval(%g,%g,%g)[%d] = %.15g instead of %.15g",what,x,y,z,k,g[k],e[k]);
    auto& d=f->EvalDerivatives(x,y,z); c.step(); for (int k=0;k<3;k++) c.require(close(d.B[k],e[k],scale,tol),"%s: EvalDerivatives(%g,%g,%g).B[%d] = %.15g instead of %.15g",what,x,y,z,k,d.B[k],e[k]); double ab=sqrt(e[0]*e[0]+e[1]*e[1]+e[2]*e[2]); if (ab>0) c.require(close(d.Babs,ab,scale,tol),"%s: Babs(%g,%g,%g) = %.15g instead of %.15g",what,x,y,z,d.Babs,ab);
}
/* every node, every angle; unit impulses at single nodes, or a generic pattern */
static void nodes(mc::Ctx& c) {
    Grid g; g.R=c.pickOf(rgrids()); g.Z=c.pickOf(zgrids()); int nn=(int)(g.nr()*g.nz()); int kind=c.pick(2+nn); if (kind==0) g.fill(generic); else if (kind==1) g.fill([](double,double,size_t i,size_t j){ return V4{(double)(i+1)*100+j,-1.0*(double)(j+1)*10-i,0.25*(double)i-3.0*(double)j+100,7.0*i-2.0*j}; }); else { int k=kind-2; size_t w=g.nr(); g.fill([k,w](double,double,size_t i,size_t j){ double u=(int)(i+j*w)==k; return V4{u,2*u,1+3*u,4*u}; }); }
    g.box(); F f(g.make()); double sc=0; for (auto* v : {&g.Br,&g.Bp,&g.Bz,&g.Psi}) for (double x : *v) sc=max(sc,fabs(x)); c.noteL([&]{ return mc::fmt("%zux%zu grid, data %d",g.nr(),g.nz(),kind); });
    for (size_t i=0;i<g.nr();i++) for (size_t j=0;j<g.nz();j++) { size_t k=i+j*g.nr(); for (auto& a : angles()) { if (g.R[i]==0 && a[0]!=1) continue; double x=g.R[i]*a[0], y=g.R[i]*a[1]; checkB(c,f.get(),x,y,g.Z[j],g.Br[k],g.Bp[k],g.Bz[k],a[0],a[1],sc,"node");
            c.step(2); c.require(close(f->EvalFlux(x,y,g.Z[j]),g.Psi[k],sc),"flux at node (%zu,%zu): %.15g instead of %.15g",i,j,f->EvalFlux(x,y,g.Z[j]),g.Psi[k]); c.require(close(f->EvalFluxDerivatives(x,y,g.Z[j])->psi,g.Psi[k],sc),"flux_diff.psi at node (%zu,%zu)",i,j); } }
    c.state(mc::mix(mc::mix(mc::hdbl(g.R[1]),mc::hdbl(g.Z[1])),kind)); }
/* data linear in R and Z: exact everywhere, with all derivatives */
static void linear(mc::Ctx& c) {
    Grid g; g.R=c.pickOf(rgrids()); g.Z=c.pickOf(zgrids()); static const vector<array<double,12>> C={ {1,0,0, 2,0,0, 3,0,0, 4,0,0}, {1,0.5,0, 2,-0.25,0, 3,1,0, 4,0.5,0}, {1,0,0.5, 2,0,-0.25, 3,0,1, 4,0,2}, {-1,0.5,0.75, 20,-0.25,1.5, 3,1,-0.5, 4,-1,3}, {0.25,0.1,-0.3, 0.125,0.2,0.6, -8,0.3,0.9, 1,2,3}, {2,0,0, 0,0,0, 0,0,0, 1,0,0}, {0,0,0, -3,0,0, 0,0,0, 0,1,0}, {0,0,0, 0,0,0, 0.5,0,0, 0,0,1}, {2,0,0, 0,0,0, -0.5,0,0, 0,0,0}, {0,0,0, 1,0,0, -4,0,0, 0,0,0} }; auto L=c.pickOf(C);
    auto v=[&](int q, double r, double z) { return L[3*q]+L[3*q+1]*r+L[3*q+2]*z; }; g.fill([&](double r, double z, size_t, size_t){ return V4{v(0,r,z),v(1,r,z),v(2,r,z),v(3,r,z)}; }); g.box(); F f(g.make());
    vector<double> rs,zs; for (size_t i=0;i<g.nr();i++) { rs.push_back(g.R[i]); if (i+1<g.nr()) for (double t : {0.25,0.5,0.875}) rs.push_back(g.R[i]+t*(g.R[i+1]-g.R[i])); } for (size_t i=0;i<g.nz();i++) { zs.push_back(g.Z[i]); if (i+1<g.nz()) for (double t : {0.25,0.5,0.875}) zs.push_back(g.Z[i]+t*(g.Z[i+1]-g.Z[i])); }
    double sc=50; for (double r : rs) for (double z : zs) for (auto& a : angles()) { if (r==0) continue; double x=r*a[0], y=r*a[1]; checkB(c,f.get(),x,y,z,v(0,r,z),v(1,r,z),v(2,r,z),a[0],a[1],sc,"linear data");
        Cyl q{v(0,r,z),v(1,r,z),v(2,r,z),L[1],L[2],L[4],L[5],L[7],L[8],r,a[0],a[1]}; double B[3],J[3][3]; q.cart(B); q.jac(J); auto& d=f->EvalDerivatives(x,y,z); double ab=sqrt(B[0]*B[0]+B[1]*B[1]+B[2]*B[2]); const double T=1e-9;
        for (int i=0;i<3;i++) for (int j=0;j<3;j++) c.require(close(d.J[i][j],J[i][j],sc,T),"linear data at (%g,%g,%g): J[%d][%d] = %.12g instead of %.12g",x,y,z,i,j,d.J[i][j],J[i][j]);
        if (ab>1e-6) for (int j=0;j<3;j++) { double e=(B[0]*J[0][j]+B[1]*J[1][j]+B[2]*J[2][j])/ab; c.require(close(d.gradB[j],e,sc,T),"linear data at (%g,%g,%g): gradB[%d] = %.12g instead of %.12g",x,y,z,j,d.gradB[j],e); } double cu[3]={J[2][1]-J[1][2],J[0][2]-J[2][0],J[1][0]-J[0][1]}; for (int j=0;j<3;j++) c.require(close(d.curlB[j],cu[j],sc,T),"linear data at (%g,%g,%g): curlB[%d] = %.12g instead of %.12g",x,y,z,j,d.curlB[j],cu[j]);
        auto *fd=f->EvalFluxDerivatives(x,y,z); c.require(close(fd->psi,v(3,r,z),sc,T)&&close(fd->dpsi_dR,L[10],sc,T)&&close(fd->dpsi_dZ,L[11],sc,T),"flux of linear data at (%g,%g,%g): %g, %g, %g instead of %g, %g, %g",x,y,z,fd->psi,fd->dpsi_dR,fd->dpsi_dZ,v(3,r,z),L[10],L[11]); c.require(close(f->EvalFlux(x,y,z),v(3,r,z),sc,T),"flux of linear data"); c.step(3); }
    c.state(mc::mix(mc::hdbl(L[1]),g.nr()*100+g.nz())); }
/* outside the grid: the boundary value at the same toroidal angle */
static void outside(mc::Ctx& c) {
    Grid g; g.R=c.pickOf(rgrids()); g.Z=c.pickOf(zgrids()); g.fill(generic); g.box(); F f(g.make()); double r0=g.R.front(), r1=g.R.back(), z0=g.Z.front(), z1=g.Z.back(), sc=4;
    vector<double> rs={0,1e-300,1e-150,1e-15,1e-9,1e-7,1e-4,r0/3,r0*0.99,r0,(r0+r1)/2,g.R[1],r1,r1*1.01,r1*3,1e6}, zs={-1e6,z0-7,z0-0.01,z0,(z0+z1)/2,g.Z[1],z1,z1+0.01,z1+9,1e6};
    for (double r : rs) for (double z : zs) { bool in= r>=r0&&r<=r1&&z>=z0&&z<=z1; if (in) continue; double rc=min(max(r,r0),r1), zc=min(max(z,z0),z1); if (rc==0) continue; double *e=f->Eval(rc,0,zc), br=e[0], bp=e[1], bz=e[2], psi=f->EvalFlux(rc,0,zc); for (auto& a : angles()) { if (r==0 && a[0]!=1) continue; checkB(c,f.get(),r*a[0],r*a[1],z,br,bp,bz,a[0],a[1],sc,"outside the grid"); c.step(2); c.require(close(f->EvalFlux(r*a[0],r*a[1],z),psi,sc,1e-9),"flux outside the grid at R=%g, Z=%g is not the boundary value",r,z); c.require(close(f->EvalFluxDerivatives(r*a[0],r*a[1],z)->psi,psi,sc,1e-9),"flux_diff.psi outside the grid");
        if (r<1e-4||r>100) continue; /* along the directions in which the field goes on changing, the derivatives are those of the boundary */ double J[3][3], K[3][3]; { auto& d=f->EvalDerivatives(r*a[0],r*a[1],z); for (int i=0;i<3;i++) for (int j=0;j<3;j++) J[i][j]=d.J[i][j]; } { auto& d=f->EvalDerivatives(rc*a[0],rc*a[1],zc); for (int i=0;i<3;i++) for (int j=0;j<3;j++) K[i][j]=d.J[i][j]; }
        double er[3]={a[0],a[1],0}, ep[3]={-a[1],a[0],0}; for (int i=0;i<3;i++) { double t=(J[i][0]*ep[0]+J[i][1]*ep[1])*r, e= i==2? 0 : br*ep[i]-bp*er[i]; c.require(close(t,e,sc,1e-9),"outside the grid at R=%g, Z=%g: the field component %d changes by %g per radian instead of %g",r,z,i,t,e); if (zc==z) c.require(close(J[i][2],K[i][2],20,1e-9),"outside the grid at R=%g, Z=%g: J[%d][2] is %g instead of %g",r,z,i,J[i][2],K[i][2]); if (rc==r) for (int j=0;j<2;j++) c.require(close(J[i][j],K[i][j],20,1e-9),"outside the grid at R=%g, Z=%g: J[%d][%d] is %g instead of %g",r,z,i,j,J[i][j],K[i][j]); } } }
    c.state(g.nr()*100+g.nz()); }
/* derivatives of generic data against differences of the field itself */
static void derivs(mc::Ctx& c) {
    Grid g; g.R=c.pickOf(rgrids()); g.Z=c.pickOf(zgrids()); int i=c.pick((int)g.nr()-1), j=c.pick((int)g.nz()-1); g.fill(generic); g.box(); F f(g.make());
    for (double tr : {0.3,0.5,0.8}) for (double tz : {0.2,0.5,0.7}) for (auto& a : angles()) { double r=g.R[i]+tr*(g.R[i+1]-g.R[i]), z=g.Z[j]+tz*(g.Z[j+1]-g.Z[j]), p[3]={r*a[0],r*a[1],z}, h=2e-4*min({g.R[i+1]-g.R[i],g.Z[j+1]-g.Z[j],r}), N[3][3], G[3], P[3];
        for (int k=0;k<3;k++) { double B[4][4]; const double w[4]={-2,-1,1,2}; for (int m=0;m<4;m++) { double q[3]={p[0],p[1],p[2]}; q[k]+=w[m]*h; double *e=f->Eval(q[0],q[1],q[2]); B[m][0]=e[0]; B[m][1]=e[1]; B[m][2]=e[2]; B[m][3]=f->EvalFlux(q[0],q[1],q[2]); } auto D=[&](double m2,double m1,double p1,double p2){ return (m2-8*m1+8*p1-p2)/(12*h); }; for (int q=0;q<3;q++) N[q][k]=D(B[0][q],B[1][q],B[2][q],B[3][q]); auto ab=[&](int m){ return sqrt(B[m][0]*B[m][0]+B[m][1]*B[m][1]+B[m][2]*B[m][2]); }; G[k]=D(ab(0),ab(1),ab(2),ab(3)); P[k]=D(B[0][3],B[1][3],B[2][3],B[3][3]); }
        auto& d=f->EvalDerivatives(p[0],p[1],p[2]); c.step(); double sc=20, T=1e-7; for (int q=0;q<3;q++) for (int k=0;k<3;k++) c.require(close(d.J[q][k],N[q][k],sc,T),"J[%d][%d] at (%g,%g,%g) is %.10g, but the field changes by %.10g",q,k,p[0],p[1],p[2],d.J[q][k],N[q][k]); for (int k=0;k<3;k++) c.require(close(d.gradB[k],G[k],sc,T),"gradB[%d] at (%g,%g,%g) is %.10g, but the field strength changes by %.10g",k,p[0],p[1],p[2],d.gradB[k],G[k]); double cu[3]={N[2][1]-N[1][2],N[0][2]-N[2][0],N[1][0]-N[0][1]}; for (int k=0;k<3;k++) c.require(close(d.curlB[k],cu[k],sc,T),"curlB[%d] at (%g,%g,%g) is %.10g instead of %.10g",k,p[0],p[1],p[2],d.curlB[k],cu[k]);
        auto *fd=f->EvalFluxDerivatives(p[0],p[1],p[2]); c.step(); c.require(close(fd->dpsi_dR,P[0]*a[0]+P[1]*a[1],sc,T)&&close(fd->dpsi_dZ,P[2],sc,T),"flux derivatives at (%g,%g,%g): %.10g, %.10g instead of %.10g, %.10g",p[0],p[1],p[2],fd->dpsi_dR,fd->dpsi_dZ,P[0]*a[0]+P[1]*a[1],P[2]); }
    c.state(mc::mix(g.nr()*100+g.nz(),i*10+j)); }
/* no answer depends on what was asked before */
struct Ans { vector<double> v; bool threw=false; };
static Ans ask(MagneticFieldNumeric2D *f, int op, const array<double,3>& p) { Ans a; MagneticField2D *b=f; double q[3]={p[0],p[1],p[2]}; Vector<3> w; for (int k=0;k<3;k++) w[k]=p[k]; try { switch (op) {
    case 0: { double *e=f->Eval(p[0],p[1],p[2]); a.v={e[0],e[1],e[2]}; break; } case 1: { auto& d=f->EvalDerivatives(p[0],p[1],p[2]); a.v={d.B[0],d.B[1],d.B[2],d.Babs,d.gradB[0],d.gradB[1],d.gradB[2],d.curlB[0],d.curlB[1],d.curlB[2]}; for (int i=0;i<3;i++) for (int j=0;j<3;j++) a.v.push_back(d.J[i][j]); break; }
    case 2: a.v={f->EvalFlux(p[0],p[1],p[2])}; break; case 3: { auto *d=f->EvalFluxDerivatives(p[0],p[1],p[2]); a.v={d->psi,d->dpsi_dR,d->dpsi_dZ}; break; }
    case 4: { double *e=b->Eval(q); a.v={e[0],e[1],e[2]}; break; } case 5: { double *e=b->Eval(w); a.v={e[0],e[1],e[2]}; break; } case 6: a.v={b->EvalFlux(q)}; break; case 7: { auto& d=b->EvalDerivatives(q); a.v={d.B[0],d.B[1],d.B[2],d.Babs}; break; } case 8: { auto& d=b->EvalDerivatives(w); a.v={d.gradB[0],d.gradB[1],d.gradB[2]}; break; } case 9: a.v={b->EvalFlux(w)}; break; case 10: { auto *d=b->EvalFluxDerivatives(q); a.v={d->psi,d->dpsi_dR,d->dpsi_dZ}; break; } default: { auto *d=b->EvalFluxDerivatives(w); a.v={d->psi,d->dpsi_dR,d->dpsi_dZ}; } } } catch (SOFTLibException&) { a.threw=true; } return a; }
static void same(mc::Ctx& c, const Ans& g, const Ans& e, const char *what) { c.require(g.threw==e.threw,"%s: %s",what,g.threw?"raised an exception":"did not raise an exception"); for (size_t k=0;k<e.v.size();k++) c.require(close(g.v[k],e.v[k],10,1e-12)||(std::isnan(g.v[k])&&std::isnan(e.v[k])),"%s: value %zu is %.17g instead of %.17g",what,k,g.v[k],e.v[k]); }
static void history(mc::Ctx& c) {
    static const vector<array<double,3>> P={{1.5,0.3,-0.2},{0,2.5,0.6},{-3.5,-1,0.9},{0.3,0.1,5},{0.6,0.7,-0.9},{2,0,-8}}; bool flux=c.flip(); static Grid g[2]; if (g[0].R.empty()) for (int k=0;k<2;k++) { g[k].R={0.5,0.75,1.5,3}; g[k].Z={-1,-0.5,0.25,1}; g[k].fill(generic); g[k].box(); if (!k) g[k].Psi.clear(); }
    const int NO=4; static map<int,Ans> ref; F f(g[flux].make()); int D=c.thorough?5:4; mc::u64 h=flux; for (int d=0;d<D;d++) { int q=c.pick(NO*(int)P.size()), op=q%NO, pt=q/NO; int key=(flux*NO+op)*100+pt; auto it=ref.find(key); if (it==ref.end()) { F o(g[flux].make()); it=ref.emplace(key,ask(o.get(),op,P[pt])).first; c.require(it->second.threw==(!flux&&(op==2||op==3)),"flux %s, but evaluation %s",flux?"given":"not given",it->second.threw?"raised an exception":"went on"); } c.noteL([&]{ return mc::fmt("operation %d at point %d",op,pt); }); same(c,ask(f.get(),op,P[pt]),it->second,"in this history"); c.step(); h=mc::mix(h,key); c.state(mc::mix(key,d)); } }
static void overloads(mc::Ctx& c) { static const vector<array<double,3>> P={{1.5,0.3,-0.2},{0,2.5,0.6},{-3.5,-1,0.9},{0.3,0.1,5},{0.6,0.7,-0.9}}; Grid g; g.R={0.5,0.75,1.5,3}; g.Z={-1,-0.5,0.25,1}; g.fill(generic); g.box(); F f(g.make()); auto p=c.pickOf(P); Ans e=ask(f.get(),0,p), d=ask(f.get(),1,p), s=ask(f.get(),2,p), q=ask(f.get(),3,p); same(c,ask(f.get(),4,p),e,"Eval(pointer)"); { double q[3]={p[0],p[1],p[2]}; double *v=f->Eval(q); same(c,{{v[0],v[1],v[2]},false},e,"Eval(pointer) of the gridded field"); } same(c,ask(f.get(),5,p),e,"Eval(vector)"); same(c,ask(f.get(),6,p),s,"EvalFlux(pointer)"); same(c,ask(f.get(),9,p),s,"EvalFlux(vector)"); same(c,ask(f.get(),7,p),{{d.v[0],d.v[1],d.v[2],d.v[3]},false},"EvalDerivatives(pointer)"); same(c,ask(f.get(),8,p),{{d.v[4],d.v[5],d.v[6]},false},"EvalDerivatives(vector)"); same(c,ask(f.get(),10,p),q,"EvalFluxDerivatives(pointer)"); same(c,ask(f.get(),11,p),q,"EvalFluxDerivatives(vector)"); c.step(12); c.state(mc::hdbl(p[0])); }
/* larger grids: every node, and linear data inside every cell */
static void large(mc::Ctx& c) {
    static const vector<int> NS={7,8,9,15,16,17,31,32,33,64,65,100}; int nr=c.pickOf(NS), nz= c.thorough? c.pickOf(NS) : NS[(c.pick(3)*5+3)%NS.size()]; int kind=c.pick(2); bool even=c.flip(); Grid g; for (int i=0;i<nr;i++) g.R.push_back(1+ (even? 2.0*i/nr : 2.0*i*i/nr/nr+0.01*i)); for (int j=0;j<nz;j++) g.Z.push_back(-1+(even? 2.5*j/nz : 2.5*sqrt((double)j/nz)));
    auto lin=[](double r,double z){ return V4{1+0.5*r-0.25*z,2-r+3*z,-1+0.125*r+z,4+r-2*z}; }; if (kind) g.fill([&](double r,double z,size_t,size_t){ return lin(r,z); }); else g.fill(generic); g.box(); F f(g.make()); c.note(mc::fmt("%dx%d grid, %s data",nr,nz,kind?"linear":"generic")); const double sc=20;
    for (int i=0;i<nr;i++) for (int j=0;j<nz;j++) { size_t k=i+(size_t)j*nr; checkB(c,f.get(),0.8*g.R[i],0.6*g.R[i],g.Z[j],g.Br[k],g.Bp[k],g.Bz[k],0.8,0.6,sc,"node"); c.require(close(f->EvalFlux(0.8*g.R[i],0.6*g.R[i],g.Z[j]),g.Psi[k],sc),"flux at node (%d,%d)",i,j);
        if (kind && i+1<nr && j+1<nz) { double r=0.7*g.R[i]+0.3*g.R[i+1], z=0.4*g.Z[j]+0.6*g.Z[j+1]; V4 v=lin(r,z); checkB(c,f.get(),-0.6*r,0.8*r,z,v[0],v[1],v[2],-0.6,0.8,sc,"linear data",1e-9); auto *fd=f->EvalFluxDerivatives(-0.6*r,0.8*r,z); c.require(close(fd->psi,v[3],sc,1e-9)&&close(fd->dpsi_dR,1,sc,1e-8)&&close(fd->dpsi_dZ,-2,sc,1e-8),"flux in cell (%d,%d)",i,j); } }
    c.state(mc::mix(nr*1000+nz,kind)); }
/* grids that cannot be interpolated on are refused */
static void invalid(mc::Ctx& c) {
    int nr=1+c.pick(6), nz=1+c.pick(6); Grid g; for (int i=0;i<nr;i++) g.R.push_back(1+0.5*i); for (int j=0;j<nz;j++) g.Z.push_back(-1+0.5*j); bool ok=nr>=4&&nz>=4; int bad=c.pick(2*(nr+nz)-3); if (bad) { int k=(bad-1)/2; auto& v= k<nr-1? g.R : g.Z; if (k>=nr-1) k-=nr-1; if (bad%2) swap(v[k],v[k+1]); else v[k+1]=v[k]; ok=false; } g.fill(generic); g.ra=2; g.za=0.1; g.rw={0.5,5,5,0.5}; g.zw={-2,-2,3,3}; bool flux=c.flip(); if (!flux) g.Psi.clear(); F f; bool threw=false; try { f.reset(g.make()); } catch (SOFTLibException&) { threw=true; } c.step(); c.noteL([&]{ return mc::fmt("%dx%d grid, damage %d",nr,nz,bad); }); c.require(threw==!ok,"the grid is %s",threw?"refused":"accepted"); if (f) checkB(c,f.get(),g.R[1],0,g.Z[2],g.Br[1+2*nr],g.Bp[1+2*nr],g.Bz[1+2*nr],1,0,4,"node"); c.state(mc::mix(nr*10+nz,bad)); }
int main(int argc, char **argv) {
    return mc::run(argc, argv, "M03", {
        {"nodes", nodes, 2, "5x4 grid pairs (4..6 points, uneven, R from 0) x generic data, distinct data and a unit impulse at every single node x all nodes x 8 toroidal angles"},
        {"linear", linear, 2, "5x4 grid pairs x 5 linear fields x all nodes and 3 points in each cell direction x 8 angles, with Jacobian, gradient, curl and flux derivatives"},
        {"outside", outside, 2, "5x4 grid pairs x 160 points around the grid x 8 angles"},
        {"derivatives", derivs, 3, "5x4 grid pairs x every cell x 9 inner points x 8 angles: derivatives against fourth-order differences of the field"},
        {"history", history, 3, "all sequences of 4 (thorough 5) evaluations of 4 kinds at 6 points, inside and outside, against fresh objects, with and without flux"},
        {"large", large, 3, "grids of 7..100 points in each direction, even and uneven: all nodes of generic and linear data, a point in every cell"},
        {"invalid", invalid, 2, "all grid sizes 1..6 x 1..6, equal or decreasing neighbours at every place"},
        {"overloads", overloads, 1, "all overloads at 5 points"},
    });
}
