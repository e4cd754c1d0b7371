/* D01: gridded momentum-space distribution functions. */
#include "distref.h"
using namespace std;
static unique_ptr<NMS> build(Ms m, bool lg, int itp) { unique_ptr<NMS> n(new NMS); if (lg) n->InitializeLog(m.np(),m.nx(),m.p.data(),m.xi.data(),m.f.data(),itp); else n->Initialize(m.np(),m.nx(),m.p.data(),m.xi.data(),m.f.data(),itp); for (auto *v : {&m.p,&m.xi,&m.f}) for (auto& x : *v) x=-77; return n; }
static void check(mc::Ctx& c, NMS& n, const Ms& m, bool lin, const char *what) {
    double S=m.scale(); for (size_t i=0;i<m.np();i++) for (size_t j=0;j<m.nx();j++) { double X=m.flip?-m.xi[j]:m.xi[j], e=m.f[j*m.np()+i]; double g=n.Eval(m.p[i],X); c.step(); if (!m.clean(m.p[i],X)) { c.require(g>=0&&g<=S*1.0001&&(e>0||g==0),"%s: at node (%zu,%zu) with %g: %.12g",what,i,j,e,g); continue; } c.require(near(g,e,m.lg?0:S,1e-11),"%s: node (%zu,%zu) is %.12g instead of %.12g",what,i,j,g,e); }
    /* between */
    V P, X; for (size_t i=0;i+1<m.np();i++) for (double w : {0.25,0.6}) P.push_back(m.p[i]+w*(m.p[i+1]-m.p[i])); for (size_t j=0;j+1<m.nx();j++) for (double w : {0.2,0.5}) X.push_back(m.xi[j]+w*(m.xi[j+1]-m.xi[j])); P.push_back(m.p.front()); P.push_back(m.p.back()); X.push_back(m.xi.front()); X.push_back(m.xi.back()); for (double a : P) for (double b : X) { if (m.flip) b=-b; double g=n.Eval(a,b); c.step(); c.require(!std::isnan(g)&&(!m.lg||g>=0),"%s: f(%g,%g) = %g",what,a,b,g); if (!m.clean(a,b)) { c.require(g==0||lin==false,"%s: f(%g,%g) = %g next to a zero",what,a,b,g); continue; } if (lin) c.require(near(g,m.at(a,b),S,1e-11),"%s: f(%g,%g) = %.12g instead of %.12g",what,a,b,g,m.at(a,b)); }
    /* outside */
    double dp=m.p.back()-m.p.front(), dx=m.xi.back()-m.xi.front(); for (double a : {m.p.front()-dp,m.p.front()-1e-9*dp,m.p.front()+dp/3,m.p.back()+1e-9*dp,m.p.back()+2*dp}) for (double b : {m.xi.front()-dx,m.xi.front()-1e-9,m.xi.front()+dx/3,m.xi.back()+1e-9,m.xi.back()+dx}) for (int s=-1;s<=1;s+=2) { double x=b*s; if (m.inside(a,x)) continue; double g=n.Eval(a,x); c.step(); c.require(g==0,"%s: f(%g,%g) = %g outside of the grid",what,a,x,g); }
    DistributionFunction *d=&n; c.require(d->Eval(3,P[0],m.flip?-X[0]:X[0],0.7)==n.Eval(P[0],m.flip?-X[0]:X[0]),"%s: depends on the radius",what); }
static void patterns(mc::Ctx& c) {
    int itp=c.pick(2)? NMS::INTERPOLATION_CUBIC : NMS::INTERPOLATION_LINEAR; int lo=itp==NMS::INTERPOLATION_CUBIC?4:2; Ms m; m.p=lattice(c.pick(2)?0.0:-0.5,3,lo+c.pick(4)); static const double XR[][2]={{-1,1},{-0.5,1},{0.25,0.75}}; auto xr=XR[c.pick(3)]; m.xi=lattice(xr[0],xr[1],lo+c.pick(4)); m.lg=c.flip(); m.flip=c.flip(); int N=m.np()*m.nx(); int pat=c.pick(5+N); m.f.assign(N,0); for (size_t j=0;j<m.nx();j++) for (size_t i=0;i<m.np();i++) { double& v=m.f[j*m.np()+i]; switch (pat) { case 0: v=val(i,j); break; case 1: v=2; break; case 2: { double l=2+0.5*m.p[i]-0.25*m.xi[j]; v= m.lg? exp(l) : l; break; } case 3: v=val(i,j)*pow(10,(int)(i+2*j)%9-4); break; case 4: v=(i+j)%3? val(i,j):0; break; default: v=(int)(j*m.np()+i)==pat-5? 1 : (m.lg? 0.125:0); } }
    if (pat==4&&!m.lg) for (auto& v : m.f) if (v==0) v=-1.5; if (pat==4&&m.lg&&itp==NMS::INTERPOLATION_CUBIC) return; /* the spline through a zero is zero or anything */
    auto n=build(m,m.lg,itp); n->FlipPitchSign(m.flip); c.noteL([&]{ return mc::fmt("%zux%zu %s%s%s pattern %d",m.np(),m.nx(),itp?"cubic ":"linear ",m.lg?"logarithmic ":"",m.flip?"flipped":"",pat); }); c.require(n->IsLogarithmic()==m.lg,"logarithmic flag"); bool lin=itp==NMS::INTERPOLATION_LINEAR||pat==1||pat==2; check(c,*n,m,itp==NMS::INTERPOLATION_LINEAR,"distribution"); if (lin&&itp!=NMS::INTERPOLATION_LINEAR) { for (double a : {0.1,0.77,2.9}) for (double w : {0.1,0.5,0.83}) { double x=m.xi.front()+w*(m.xi.back()-m.xi.front()); double l= pat==1? (m.lg? log(2):2) : 2+0.5*a-0.25*x; double e= m.lg? exp(l):l; double g=n->Eval(a,m.flip?-x:x); c.require(near(g,e,1,1e-10),"cubic: linear data at (%g,%g) is %.12g instead of %.12g",a,x,g,e); } }
    unique_ptr<NMS> k(n->MinClone()); c.require(k->IsLogarithmic()==m.lg,"logarithmic flag of a clone"); check(c,*k,m,itp==NMS::INTERPOLATION_LINEAR,"clone"); if (itp) { for (double a=m.p.front();a<=m.p.back();a+=0.37) for (double b=-1;b<=1;b+=0.23) c.require(k->Eval(a,b)==n->Eval(a,b),"clone differs at (%g,%g)",a,b); } n->FlipPitchSign(!m.flip); m.flip=!m.flip; check(c,*n,m,itp==NMS::INTERPOLATION_LINEAR,"after flipping"); c.state(mc::mix(mc::mix(pat,N),mc::mix(m.np(),m.lg*4+m.flip*2+itp))); }
/* grids of practical size */
static void fine(mc::Ctx& c) {
    static const vector<array<int,2>> N={{8,9},{16,17},{17,33},{64,20},{10,65},{100,101},{257,4},{5,256}}; auto& n=c.pickOf(N); int itp=c.pick(2)? NMS::INTERPOLATION_CUBIC : NMS::INTERPOLATION_LINEAR; Ms m; m.lg=c.flip(); m.flip=c.flip(); int pat=c.pick(2); bool wide=m.lg&&c.flip(); double p0=c.pick(2)?0.0:1.5; for (int i=0;i<n[0];i++) m.p.push_back(p0+ (pat? 0.05*i : 0.002*i*i+0.01*i)); for (int j=0;j<n[1];j++) m.xi.push_back(pat? -1+2.0*j/(n[1]-1) : -cos(M_PI*j/(n[1]-1))); for (int j=0;j<n[1];j++) for (int i=0;i<n[0];i++) m.f.push_back(val(i,j)*(wide? pow(10,(i*7+j*3)%77*8-306) : 1)); c.noteL([&]{ return mc::fmt("%dx%d %s%s%s grid %d",n[0],n[1],itp?"cubic ":"linear ",m.lg?wide?"logarithmic over 600 decades ":"logarithmic ":"",m.flip?"flipped":"",pat); });
    auto o=build(m,m.lg,itp); o->FlipPitchSign(m.flip); check(c,*o,m,itp==NMS::INTERPOLATION_LINEAR,"distribution"); unique_ptr<NMS> k(o->MinClone()); o.reset(); check(c,*k,m,itp==NMS::INTERPOLATION_LINEAR,"clone"); c.state(mc::mix(mc::mix(n[0],n[1]),m.lg*8+m.flip*4+pat*2+itp)); }
/* more values than 16 bits count */
static void huge(mc::Ctx& c) {
    static const vector<array<int,2>> N={{300,230},{4,16500},{17000,5},{70001,2}}; auto& n=c.pickOf(N); bool lg=c.flip(); Ms m; m.lg=lg; for (int i=0;i<n[0];i++) m.p.push_back(0.05*i); for (int j=0;j<n[1];j++) m.xi.push_back(-1+2.0*j/(n[1]-1)); for (int j=0;j<n[1];j++) for (int i=0;i<n[0];i++) m.f.push_back(val(i%91,j%37)); c.noteL([&]{ return mc::fmt("%dx%d %s",n[0],n[1],lg?"logarithmic":""); }); auto o=build(m,lg,NMS::INTERPOLATION_LINEAR); unique_ptr<NMS> k(o->MinClone()); for (auto *d : {o.get(),k.get()}) for (int j=0;j<n[1];j++) for (int i=0;i<n[0];i++) { double e=m.f[size_t(j)*n[0]+i], g=d->Eval(m.p[i],m.xi[j]); c.step(); c.require(near(g,e,0,1e-9),"%s: node (%d,%d) is %.12g instead of %.12g",d==o.get()?"distribution":"clone",i,j,g,e); } c.state(mc::mix(mc::mix(n[0],n[1]),lg)); }
/* histories over up to three objects */
static void history(mc::Ctx& c) {
    Ms m; m.p=lattice(0,2,5); m.xi=lattice(-0.75,1,4); for (int j=0;j<4;j++) for (int i=0;i<5;i++) m.f.push_back(val(i,j)); m.lg=c.flip(); int itp=c.pick(2)? NMS::INTERPOLATION_CUBIC:NMS::INTERPOLATION_LINEAR; static const vector<array<double,2>> P={{0,-0.75},{1.1,0.9},{2,1},{0.05,-0.2},{2.5,0},{1.9,-0.9}}; static map<array<int,4>,double> ref; auto expect=[&](bool fl, int k){ array<int,4> key={m.lg,itp,fl,k}; auto it=ref.find(key); if (it!=ref.end()) return it->second; auto n=build(m,m.lg,itp); n->FlipPitchSign(fl); double v=n->Eval(P[k][0],P[k][1]); ref[key]=v; return v; };
    vector<unique_ptr<NMS>> o; vector<bool> fl; o.push_back(build(m,m.lg,itp)); fl.push_back(false); int D=c.thorough?6:5; for (int d=0;d<D;d++) { int q=c.pick(3*9), i=q/9, op=q%9; if (i>=(int)o.size()||!o[i]) return; c.step(); c.noteL([&]{ return mc::fmt("operation %d on %d",op,i); }); if (op<6) { double g=o[i]->Eval(P[op][0],P[op][1]), e=expect(fl[i],op); c.require(g==e||near(g,e,1,1e-13),"object %d at point %d: %.17g instead of %.17g",i,op,g,e); } else if (op==6) { if (o.size()==3) return; o.emplace_back(o[i]->MinClone()); fl.push_back(fl[i]); } else if (op==7) { fl[i]=!fl[i]; o[i]->FlipPitchSign(fl[i]); } else o[i].reset(); mc::u64 h=0; for (size_t k=0;k<o.size();k++) h=mc::mix(h,!o[k]?2:fl[k]); c.state(mc::mix(h,mc::mix(m.lg,itp))); }
    for (size_t k=0;k<o.size();k++) if (o[k]) for (int q=0;q<6;q++) { double g=o[k]->Eval(P[q][0],P[q][1]), e=expect(fl[k],q); c.require(g==e||near(g,e,1,1e-13),"object %zu at point %d in the end: %.17g instead of %.17g",k,q,g,e); } }
static void invalid(mc::Ctx& c) {
    int itp=c.pick(2)? NMS::INTERPOLATION_CUBIC:NMS::INTERPOLATION_LINEAR; bool lg=c.flip(); int np=1+c.pick(6), nx=1+c.pick(6); int lo=itp==NMS::INTERPOLATION_CUBIC?4:2; Ms m; for (int i=0;i<np;i++) m.p.push_back(i+1); for (int j=0;j<nx;j++) m.xi.push_back(-1+j*0.25); for (int k=0;k<np*nx;k++) m.f.push_back(1+k); int bad=c.pick(1+np+nx); bool ok=np>=lo&&nx>=lo; if (bad>0) { int k=bad-1; auto& g= k<np? m.p : m.xi; if (k>=np) k-=np; if (k==0&&g.size()>1) { g[0]=g[1]; ok=false; } else if (k>0) { g[k]=g[k-1]-(c.flip()?0.5:0); ok=false; } } int neg= lg? c.pick(3) : 0; if (neg) { m.f[neg==1?0:m.f.size()-1]=-1e-3; ok=false; } bool thr=false; unique_ptr<NMS> n; try { n=build(m,lg,itp); } catch (SOFTLibException&) { thr=true; } c.step(); c.noteL([&]{ return mc::fmt("%dx%d %s, damage %d, negative %d: %s",np,nx,itp?"cubic":"linear",bad,neg,thr?"refused":"accepted"); }); c.require(thr==!ok,"%dx%d grid for %s interpolation, damage %d, negative %d: %s",np,nx,itp?"cubic":"linear",bad,neg,thr?"refused":"accepted"); c.state(mc::mix(bad*10+neg,np*10+nx)); }
int main(int argc, char **argv) {
    return mc::run(argc, argv, "D01", {
        {"data", patterns, 3, "4x4 grid sizes (from the smallest) x 2x3 ranges x linear/cubic x logarithmic x flipped x 5 patterns and a single peak at every node: all nodes, points in every cell, points outside, clones"},
        {"fine", fine, 3, "8 larger grids (up to 257 points in a direction) x uniform/non-uniform x linear/cubic x logarithmic x flipped: logarithmic data also over 600 decades: all nodes, points in every cell, outside, clone"},
        {"huge", huge, 1, "4 grids of more than 65536 nodes (up to 70001 points in a direction), plain and logarithmic: every node; clone"},
        {"history", history, 3, "all sequences of 5 (thorough 6) evaluate/clone/flip/delete operations over up to 3 objects, 4 configurations"},
        {"invalid", invalid, 2, "all grid sizes 1..6 x 1..6 with equal or decreasing neighbours at every place, negative values"},
    });
}
