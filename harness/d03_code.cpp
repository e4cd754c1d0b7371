/* D03: Legendre-decomposed (CODE, GO+CODE) distribution functions. */
#include "coderef.h"
struct Obj { V p, f; unique_ptr<CODE> c; };     // the data outlive the distribution functions
static Obj make(const Ref& r) { Obj o; o.p=r.p; o.f=r.f; o.c.reset(new CODE); o.c->Initialize(r.p.size(),r.nl,o.p.data(),o.f.data(),IT(r.itp)); return o; }
static const double XS[]={-1,-0.7,0,0.3,1};
static void compare(mc::Ctx& c, CODE& o, const Ref& r, const char *what) { double S=r.S(); bool periodic=r.itp==3||r.itp==5; auto one=[&](double P, double X){ double g=o.Eval(P,X), e=r.at(P,X); c.step(); c.state(mc::hdbl(g)); c.require(near(g,e,S,1e-10)&&g>=0,"%s: f(%g,%g)=%.15g instead of %.15g",what,P,X,g,e); };
    for (double X : XS) { for (size_t i=0;i<r.p.size();i++) { one(r.p[i],X); if (!periodic) { double g=o.Eval(r.p[i],X), e=max(0.0,r.node(i,X)); c.require(near(g,e,S,1e-10),"%s: at node %zu, pitch %g: %.15g instead of %.15g",what,i,X,g,e); } if (i+1<r.p.size()) for (double w : {0.25,0.8}) one(r.p[i]+w*(r.p[i+1]-r.p[i]),X); } double d=r.p.back()-r.p.front(); for (double P : {r.p.front()-d,r.p.front()-1e-9,r.p.back()+1e-9,r.p.back()+d}) c.require(o.Eval(P,X)==0,"%s: %g outside of the momentum grid",what,o.Eval(P,X)); }
    c.require(o.GetPMin()==r.p.front()&&o.GetPMax()==r.p.back(),"%s: limits %g %g",what,o.GetPMin(),o.GetPMax()); DistributionFunction *d=&o; c.require(d->Eval(1.5,r.p[0],0.3,0.2)==o.Eval(r.p[0],0.3),"%s depends on the radius",what); }
static void modes(mc::Ctx& c) {
    Ref r; r.itp=c.pick(7); IT(0); int lo=gsl_interp_type_min_size(ITP[r.itp]); if (r.itp==3) lo=3; /* the library's own limit for periodic splines is wrong */ int np=lo+c.pick(4); r.nl=1+c.pick(6); r.p=lattice(c.pick(2)?0.0:0.5,4,np); int pat=c.pick(4+2*r.nl); r.f.assign(np*r.nl,0); for (int k=0;k<r.nl;k++) for (int i=0;i<np;i++) { double v; if (pat==0) v=val(i,k)/(1+k); else if (pat==1) v=(k%2?-1:1)*val(i,k); else if (pat==2) v=-val(i,k); else if (pat==3) v=(k==0?3:1)*exp(-r.p[i])*(1+0.1*k); else { int q=(pat-4)/2; v=q!=k?0:((pat-4)%2?-1:1)*val(i,k); } r.f[k*np+i]=v; }
    if (r.itp==3||r.itp==5) for (int k=0;k<r.nl;k++) r.f[k*np+np-1]=r.f[k*np];
    Obj o=make(r); c.noteL([&]{ return mc::fmt("%s, %d points, %d modes, data %d",ITN[r.itp],np,r.nl,pat); }); compare(c,*o.c,r,"distribution"); unique_ptr<CODE> k(o.c->MinClone()); compare(c,*k,r,"clone"); o.c.reset(); compare(c,*k,r,"clone after deleting the original"); }
/* sizes of practical use */
static void fine(mc::Ctx& c) {
    static const int NP[]={8,17,33,65}, NL[]={7,8,9,16,25,40}; int itps[]={0,2,4,6}; Ref r; IT(0); r.itp=itps[c.pick(4)]; int np=NP[c.pick(4)]; r.nl=NL[c.pick(6)]; int pat=c.pick(3); for (int i=0;i<np;i++) r.p.push_back(0.05*i+0.001*i*i); for (int k=0;k<r.nl;k++) for (int i=0;i<np;i++) r.f.push_back(pat==0? (k==0?12:1)*val(i,k)/(1+k) : pat==1? (k%2?-1:1)*val(i,k) : (k==r.nl-1? 1 : 0)*val(i,k)); c.noteL([&]{ return mc::fmt("%s, %d points, %d modes, data %d",ITN[r.itp],np,r.nl,pat); }); Obj o=make(r); compare(c,*o.c,r,"distribution"); unique_ptr<CODE> k(o.c->MinClone());
    int nx=5+r.nl; unique_ptr<NMS> n(o.c->ToMomentumSpace(false,false,nx,NMS::INTERPOLATION_LINEAR)); o.c.reset(); compare(c,*k,r,"clone"); for (int j=0;j<nx;j++) for (int i=0;i<np;i++) { double X=-1+2.0*j/(nx-1), g=n->Eval(r.p[i],min(1.0,X)), e=r.node(i,X); c.step(); c.require(near(g,e,r.S(),1e-10),"conversion: node (%d,%d) is %.12g instead of %.12g",i,j,g,e); } }
/* many modes; many radii */
static void wide(mc::Ctx& c) {
    static const int NL[]={63,64,65,80,128,129,150,257,300}, NR[]={5,9,17,32,33,34,64,65,129,257,300}; IT(0); if (c.flip()) { Ref r; r.nl=NL[c.pick(9)]; int np=6, pat=c.pick(3); r.p=lattice(0.25,3,np); for (int k=0;k<r.nl;k++) for (int i=0;i<np;i++) r.f.push_back(pat==0? (k==0?12:1)*val(i,k)/(1+k) : pat==1? (k%2?-1:1)*val(i,k)/8 : (k==0?2:k==r.nl-1? 1 : 0)*val(i,k)); c.noteL([&]{ return mc::fmt("%d modes, data %d",r.nl,pat); }); Obj o=make(r); compare(c,*o.c,r,"distribution"); unique_ptr<CODE> k(o.c->MinClone()); int nx=9; unique_ptr<NMS> n(o.c->ToMomentumSpace(false,c.flip(),nx,NMS::INTERPOLATION_LINEAR)); o.c.reset(); compare(c,*k,r,"clone"); for (int i=0;i<np;i++) for (double X : {-1.0,1.0}) { double g=n->Eval(r.p[i],X), e=r.node(i,X); c.step(); c.require(near(g,e,r.S(),1e-10),"conversion: (%g,%g) is %.12g instead of %.12g",r.p[i],X,g,e); } return; }
    int nr=NR[c.pick(11)]; double r0=c.pick(2)?1.5:-1; vector<Ref> rs(nr); vector<Obj> objs; V rad; CODE **a=new CODE*[nr]; for (int k=0;k<nr;k++) { Ref& r=rs[k]; r.nl=1+k%3; r.p=lattice(0,3,3+k%2); for (int l=0;l<r.nl;l++) for (size_t i=0;i<r.p.size();i++) r.f.push_back((l==0?6:1)*val(i,l,k%11)); rad.push_back(r0+0.03125*k+0.0078125*(k%3)); objs.push_back(make(r)); a[k]=objs[k].c.get(); } unique_ptr<GOCODE> g(new GOCODE); g->Initialize(nr,rad.data(),a); c.noteL([&]{ return mc::fmt("%d radii from %g",nr,r0); });
    auto same=[&](GOCODE& o, const char *what){ auto one=[&](int k, double t){ for (double P : {0.3,1.7}) for (double X : {-0.4,0.6}) { double q=rad[k]+t*(rad[k+1]-rad[k]), e=(1-t)*rs[k].at(P,X)+t*rs[k+1].at(P,X), v=o.Eval(q,P,X); c.step(); c.require(near(v,e,10*(1+fabs(t)),1e-10),"%s: f(%g,%g,%g) is %.12g instead of %.12g",what,q,P,X,v,e); } }; for (int k=0;k+1<nr;k++) for (double t : {0.0,0.375,0.9}) one(k,t); one(0,-3); one(nr-2,1); one(nr-2,4); }; same(*g,"distribution"); unique_ptr<GOCODE> k(g->MinClone()); g.reset(); same(*k,"clone"); c.state(mc::mix(nr,mc::hdbl(r0))); }
static void convert(mc::Ctx& c) {
    Ref r; r.itp=0; int np=4+c.pick(3); r.nl=1+c.pick(6); r.p=lattice(0.25,3,np); int pat=c.pick(3); for (int k=0;k<r.nl;k++) for (int i=0;i<np;i++) r.f.push_back(pat==0? (k==0?6:0.5)*val(i,k) : pat==1? (k%2?-1:1)*val(i,k) : val(i,k)-2); bool lg=c.flip(), th=c.flip(); int itp=c.pick(2)? NMS::INTERPOLATION_CUBIC : NMS::INTERPOLATION_LINEAR; int nx=(itp==NMS::INTERPOLATION_CUBIC?4:2)+c.pick(7); c.noteL([&]{ return mc::fmt("%d points %d modes data %d, %s%s %s %d pitches",np,r.nl,pat,lg?"logarithmic ":"",th?"uniform in angle":"uniform in pitch",itp?"cubic":"linear",nx); });
    Obj o=make(r); if (c.pick(2)) o.c->Eval(1,0.3); unique_ptr<NMS> n(o.c->ToMomentumSpace(lg,th,nx,itp)); c.require(n->IsLogarithmic()==lg,"logarithmic flag of the conversion"); Ms m; m.lg=lg; m.p=r.p; for (int j=0;j<nx;j++) m.xi.push_back(th? -cos(M_PI*j/(nx-1)) : -1+2.0*j/(nx-1)); for (int j=0;j<nx;j++) for (int i=0;i<np;i++) { double v=r.node(i,m.xi[j]); if (fabs(v)<1e-12*r.S()) v=0; m.f.push_back(lg?max(0.0,v):v); }
    double S=r.S(); bool hole=false; for (double v : m.f) if (v<=1e-12*S) hole=true; if (lg&&itp==NMS::INTERPOLATION_CUBIC&&hole) return; /* no spline through log 0 */
    auto same=[&](NMS& q, const char *what){ for (int j=0;j<nx;j++) for (int i=0;i<np;i++) { double X=min(1.0,max(-1.0,m.xi[j])); double g=q.Eval(m.p[i],X), e=m.f[j*np+i]; c.step(); bool weak=false; if (lg) for (int a=max(0,i-1);a<=min(np-1,i+1);a++) for (int b=max(0,j-1);b<=min(nx-1,j+1);b++) if (m.f[b*np+a]<=1e-12*S) weak=true; if (weak) { c.require(g>=0&&(g<=S*1.0001)&&(e>1e-12*S||g<1e-9*S),"%s: node (%d,%d) is %.12g with %g",what,i,j,g,e); continue; } if (e==0) { c.require(fabs(g)<1e-9*S,"%s: node (%d,%d) is %.12g with 0",what,i,j,g); continue; } c.require(near(g,e,lg?0:S,1e-8),"%s: node (%d,%d) is %.12g instead of %.12g",what,i,j,g,e); }
        if (itp==NMS::INTERPOLATION_LINEAR) for (int j=0;j+1<nx;j++) for (int i=0;i+1<np;i++) for (double w : {0.3,0.75}) { double P=m.p[i]+w*(m.p[i+1]-m.p[i]), X=m.xi[j]+(1-w)*(m.xi[j+1]-m.xi[j]); double g=q.Eval(P,X), e=m.at(P,X); c.step(); if (!m.clean(P,X)) { c.require(g>=0&&g<=S*1.0001,"%s: (%g,%g) is %g",what,P,X,g); continue; } bool tiny=false; for (int a=0;a<2;a++) for (int b=0;b<2;b++) if (fabs(m.f[(j+b)*np+i+a])<1e-9*S) tiny=true; if (tiny&&lg) continue; c.require(near(g,e,S,1e-9),"%s: (%g,%g) is %.12g instead of %.12g",what,P,X,g,e); }
        for (double P : {m.p.front()-0.1,m.p.back()+0.1}) c.require(q.Eval(P,0.1)==0,"%s: %g outside",what,q.Eval(P,0.1)); };
    same(*n,"conversion"); compare(c,*o.c,r,"after the conversion"); unique_ptr<NMS> k(n->MinClone()); o.c.reset(); same(*k,"clone of the conversion"); same(*n,"conversion after deleting the original"); }
static void history(mc::Ctx& c) {
    static const int NLS[]={1,2,3,5}; Ref r; r.itp=c.pick(2)*4; IT(0); r.nl=NLS[c.pick(4)]; r.p=lattice(0.25,3,6); for (int k=0;k<r.nl;k++) for (int i=0;i<6;i++) r.f.push_back((k==0?8:1)*val(i,k)); static const double P[][2]={{1,0.5},{1,-0.5},{2.5,0.5},{0.25,0},{3.5,-0.5},{2.9,1},{0.3,-1}}; double E[7]; for (int q=0;q<7;q++) E[q]=r.at(P[q][0],P[q][1]);
    Obj o=make(r); vector<unique_ptr<CODE>> v; v.push_back(move(o.c)); vector<unique_ptr<NMS>> conv; int D=c.thorough?6:4; for (int d=0;d<D;d++) { int q=c.pick(3*10), i=q/10, op=q%10; if (i>=(int)v.size()||!v[i]) return; c.step(); c.noteL([&]{ return mc::fmt("operation %d on %d",op,i); }); if (op<7) { double g=v[i]->Eval(P[op][0],P[op][1]); c.state(mc::mix(op*3+i,v.size()*64+conv.size())); c.require(near(g,E[op],1,1e-11),"object %d at (%g,%g): %.15g instead of %.15g",i,P[op][0],P[op][1],g,E[op]); } else if (op==7) { if (v.size()==3) return; v.emplace_back(v[i]->MinClone()); } else if (op==8) v[i].reset(); else { conv.emplace_back(v[i]->ToMomentumSpace(false,false,5)); } }
    for (auto& x : v) if (x) for (int q=6;q>=0;q--) { double g=x->Eval(P[q][0],P[q][1]); c.require(near(g,E[q],1,1e-11),"in the end at (%g,%g): %.15g instead of %.15g",P[q][0],P[q][1],g,E[q]); }
    for (auto& n : conv) for (int i=0;i<6;i++) for (int j=0;j<5;j++) { double g=n->Eval(r.p[i],-1+0.5*j), e=r.node(i,-1+0.5*j); c.require(near(g,e,8,1e-10),"conversion at (%d,%d): %.15g instead of %.15g",i,j,g,e); } }
/* distribution functions of any magnitude */
static void scales(mc::Ctx& c) {
    static const double SC[]={1e-40,1e-25,1e-14,1e-9,1e18,1e30}; int itps[]={0,1,2,6}; Ref r; IT(0); r.itp=itps[c.pick(4)]; int np=5+c.pick(3); r.nl=1+c.pick(5); double sc=SC[c.pick(6)]; int pat=c.pick(3); r.p=lattice(0.25,3,np); for (int k=0;k<r.nl;k++) for (int i=0;i<np;i++) r.f.push_back(sc*(pat==0? (k==0?12:1)*val(i,k) : pat==1? (k%2?-1:1)*val(i,k) : (k==0?12:1)*val(i,k)*exp(-r.p[i]))); c.noteL([&]{ return mc::fmt("%s, %d points, %d modes, data %d times %g",ITN[r.itp],np,r.nl,pat,sc); }); Obj o=make(r); compare(c,*o.c,r,"distribution"); unique_ptr<CODE> k(o.c->MinClone()); compare(c,*k,r,"clone"); bool lg=pat==0&&c.flip(); int nx=4+c.pick(3); unique_ptr<NMS> n(o.c->ToMomentumSpace(lg,c.flip(),nx,NMS::INTERPOLATION_LINEAR)); for (int i=0;i<np;i++) for (double X : {-1.0,1.0}) { double g=n->Eval(r.p[i],X), e=r.node(i,X); if (lg&&e<=0) continue; c.step(); c.require(near(g,e,r.S(),1e-8),"conversion: (%g,%g) is %.12g instead of %.12g",r.p[i],X,g,e); }
    double rad[]={1,2}; CODE **a=new CODE*[2]; a[0]=o.c.get(); a[1]=k.get(); GOCODE g; g.Initialize(2,rad,a); for (double R : {1.0,1.3,2.0}) for (double P : {0.4,2.2}) for (double X : {-0.5,0.8}) { double v=g.Eval(R,P,X), e=r.at(P,X); c.step(); c.require(near(v,e,r.S(),1e-10),"in radius: f(%g,%g,%g) is %.12g instead of %.12g",R,P,X,v,e); } }
/* what was evaluated before, however close, does not matter */
static void pitches(mc::Ctx& c) {
    static const double X[]={0.3,0.3+1e-3,0.3+1e-6,0.3+1e-8,0.3+1e-10,0.3-1e-5,-0.3,-0.3-1e-7,0,1e-9,-1e-9,1,1-1e-9,1-1e-4,-1,-1+1e-8}, P[]={1.1,1.1+1e-9,1.1+1e-6,2}; const int NX=16; int nl=2+c.pick(3)*2; Ref r; r.itp=0; IT(0); r.nl=nl; r.p=lattice(0.25,3,6); for (int k=0;k<nl;k++) for (int i=0;i<6;i++) r.f.push_back((k==0?40:(k%2?-1:1))*val(i,k)); Obj o=make(r); unique_ptr<CODE> k; bool cl=c.flip(); int D=c.thorough?4:3; for (int d=0;d<D;d++) { int q=c.pick(NX), w=d==0?0:c.pick(4); if (cl&&d==1) k.reset(o.c->MinClone()); CODE& x= k? *k : *o.c; double g=x.Eval(P[w],X[q]), e=r.at(P[w],X[q]); c.step(); c.state(mc::mix(q*4+w,d)); c.noteL([&]{ return mc::fmt("f(%.17g,%.17g)",P[w],X[q]); }); c.require(fabs(g-e)<=4e-13*fabs(e),"evaluation %d: f(%.17g,%.17g) is %.17g instead of %.17g",d,P[w],X[q],g,e); } }
static void radial(mc::Ctx& c) {
    int nr=1+c.pick(4); vector<Ref> rs; for (int k=0;k<nr;k++) { Ref r; r.itp=0; IT(0); r.nl=1+(k+c.pick(2))%4; r.p=lattice(0.25*k,3-0.25*k,3+c.pick(2)); for (int l=0;l<r.nl;l++) for (size_t i=0;i<r.p.size();i++) r.f.push_back((l==0?6:1)*val(i,l,k)); rs.push_back(r); } V rad; static const double RR[][4]={{1.5,1.6,1.9,2},{0,0.25,0.5,0.75}}; int gr=c.pick(2); for (int k=0;k<nr;k++) rad.push_back(RR[gr][k]);
    vector<Obj> objs; for (auto& r : rs) objs.push_back(make(r)); CODE **a=new CODE*[nr]; for (int k=0;k<nr;k++) a[k]=objs[k].c.get(); unique_ptr<GOCODE> g(new GOCODE); g->Initialize(nr,rad.data(),a); c.noteL([&]{ return mc::fmt("%d radii from %g",nr,rad[0]); }); V Q; for (int k=0;k<nr;k++) { Q.push_back(rad[k]); if (k+1<nr) for (double w : {0.2,0.5,0.9}) Q.push_back(rad[k]+w*(rad[k+1]-rad[k])); } double d=nr>1? rad.back()-rad.front() : 1; Q.push_back(rad.front()-d); Q.push_back(rad.front()-0.1*d); Q.push_back(rad.back()+0.1*d); Q.push_back(rad.back()+2*d);
    auto same=[&](GOCODE& o, const char *what){ for (double q : Q) for (double P : {0.3,0.8,1.7,2.4,2.8}) for (double X : {-1.0,-0.4,0.0,0.6}) for (double sh : {0.0,0.125}) { double e; if (nr==1) e=rs[0].at(P,X); else { int k=0; while (k+2<nr&&q>=rad[k+1]) k++; double t=(q-rad[k])/(rad[k+1]-rad[k]); e=(1-t)*rs[k].at(P,X)+t*rs[k+1].at(P,X); } double v=o.Eval(q+sh,P,X,sh); c.step(); c.state(mc::hdbl(v)); c.require(near(v,e,10,1e-10),"%s: f(%g-%g,%g,%g)=%.15g instead of %.15g",what,q+sh,sh,P,X,v,e); } };
    same(*g,"distribution"); unique_ptr<GOCODE> k(g->MinClone()); same(*k,"clone"); g.reset(); objs.clear(); }
static void cloneafter(mc::Ctx& c) {        /* clones of clones with the originals deleted in every order */
    int nr=1+c.pick(3); vector<Ref> rs; vector<Obj> objs; V rad; for (int k=0;k<nr;k++) { Ref r; r.nl=2; r.p=lattice(0,3,4); for (int i=0;i<8;i++) r.f.push_back((i<4?6:1)*val(i,1,k)); rs.push_back(r); rad.push_back(1+k*0.5); } IT(0); for (auto& r : rs) objs.push_back(make(r)); CODE **a=new CODE*[nr]; for (int k=0;k<nr;k++) a[k]=objs[k].c.get(); vector<unique_ptr<GOCODE>> v; v.emplace_back(new GOCODE); v[0]->Initialize(nr,rad.data(),a); v.emplace_back(v[0]->MinClone()); bool early=c.flip(); if (early) { v[0].reset(); for (auto& o : objs) o.c.reset(); for (auto& x : rad) x=-7; } v.emplace_back(v[1]->MinClone()); int del=c.pick(3); v[del].reset(); for (auto& x : v) if (x) for (double R : {1.0,1.25,1.6,2.0}) for (double P : {0.0,0.7,2.2}) for (double X : {-0.5,0.5}) { double e; if (nr==1) e=rs[0].at(P,X); else { int k=0; while (k+2<nr&&R>=1+0.5*(k+1)) k++; double t=(R-1-0.5*k)/0.5; e=(1-t)*rs[k].at(P,X)+t*rs[k+1].at(P,X); } double g=x->Eval(R,P,X); c.step(); c.require(near(g,e,10,1e-10),"f(%g,%g,%g)=%.12g instead of %.12g",R,P,X,g,e); } }
static void invalid(mc::Ctx& c) {
    IT(0); int itp=c.pick(8), np=1+c.pick(6), nl=1+c.pick(3); V p; for (int i=0;i<np;i++) p.push_back(1+i); int bad=c.pick(2*np-1); bool ok=itp<7&&np>=(int)gsl_interp_type_min_size(ITP[itp%7]); if (bad>0) { int k=(bad-1)/2; if ((bad-1)%2) swap(p[k],p[k+1]); else p[k+1]=p[k]; ok=false; } if (itp==3&&np==2) return; V f(np*nl,1.0); CODE o; bool ex=false; try { o.Initialize(np,nl,p.data(),f.data(),itp<7?IT(itp):99); } catch (SOFTLibException&) { ex=true; } c.step(); c.noteL([&]{ return mc::fmt("interpolation %d, %d points, change %d",itp,np,bad); }); c.require(ex==!ok,"%s",ex?"valid data refused":"invalid data accepted"); }
int main(int argc, char **argv) {
    return mc::run(argc, argv, "D03", {
        {"modes", modes, 3, "7 interpolation types x 4 grid sizes from the smallest x 2 ranges x 1..6 Legendre modes x 4 data patterns and every single mode of both signs: all nodes, points between, points outside x 5 pitches; clones before and after deleting the original"},
        {"fine", fine, 3, "4 interpolation types x 8..65 points x 7..40 modes x 3 data patterns: all nodes, between, outside; clone and conversion"},
        {"wide", wide, 2, "9 numbers of modes from 63 to 300 x 3 data patterns x both conversions; 11 numbers of radii from 5 to 300 x 2 radial grids; clones"},
        {"convert", convert, 3, "grid sizes 4..6 x 1..6 modes x 3 patterns x logarithmic x uniform angle/pitch x linear/cubic x 7 pitch grid sizes, with and without an earlier evaluation"},
        {"history", history, 2, "all sequences of 4 (thorough 6) evaluate/clone/delete/convert operations over up to 3 objects, 4 mode counts, 2 interpolation types"},
        {"scales", scales, 3, "6 magnitudes from 1e-40 to 1e30 x 4 interpolation types x 3 grid sizes x 1..5 modes x 3 patterns: all of the above comparisons, clone, conversion, and in radius"},
        {"pitches", pitches, 3, "all sequences of 3 (thorough 4) evaluations over 16 pitches as close as 1e-10 and 4 momenta, with and without a clone in between, to 4e-13"},
        {"radial", radial, 3, "1..4 radii with different momentum grids and mode counts, 2 radial grids: nodes, between, outside on both sides, drift shifts, clone"},
        {"clones", cloneafter, 1, "clones of clones, deletion in every order"},
        {"invalid", invalid, 2, "8 interpolation types x 1..6 points x equal and decreasing neighbours at every place"},
    });
}
