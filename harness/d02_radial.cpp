/* D02: numeric distribution functions in radius and momentum. */
#include "distref.h"
using namespace std;
struct Model { map<double,Ms> ms; bool extra=true;
    double eval(double rho, double P, double X, bool& thr) const { thr=false; if (!extra&&(rho<ms.begin()->first||rho>ms.rbegin()->first)) { thr=true; return 0; } if (ms.size()==1) return ms.begin()->second.at(P,X); auto b=ms.upper_bound(rho); if (b==ms.begin()) ++b; if (b==ms.end()) --b; auto a=prev(b); double t=(rho-a->first)/(b->first-a->first); return (1-t)*a->second.at(P,X)+t*b->second.at(P,X); } };
static const vector<array<double,2>>& pts() { static const vector<array<double,2>> P={{0,-1},{1,0.5},{0.3,0.1},{2,1},{1.7,-0.6},{2.5,0},{1,-1.2}}; return P; }
static void check(mc::Ctx& c, NDF& n, const Model& m, const char *what) {
    V R; for (auto& k : m.ms) R.push_back(k.first); V q=R; for (size_t i=0;i+1<R.size();i++) { q.push_back(R[i]+0.25*(R[i+1]-R[i])); q.push_back(0.5*(R[i]+R[i+1])); q.push_back(R[i+1]-1e-7); } q.push_back(R[0]-0.4); q.push_back(R[0]-1e-6); q.push_back(R[0]-1e-9); q.push_back(R.back()+1e-9); q.push_back(R.back()+0.3); q.push_back(R.back()+2); q.push_back(0);
    for (double r : q) for (double sh : {0.0,0.125,-0.5}) for (auto& p : pts()) { double pos=r+sh, rho=pos-sh; bool et, gt=false; double e=m.eval(rho,p[0],p[1],et), g=0; try { g= sh==0? n.Eval(pos,p[0],p[1]) : n.Eval(pos,p[0],p[1],sh); } catch (SOFTLibException&) { gt=true; } c.step(); c.require(gt==et,"%s: radius %.9g, shift %g: %s",what,pos,sh,gt?"exception":"no exception"); if (!et) c.require(near(g,e,20+20*fabs(rho),1e-10),"%s: f(%.9g,%g,%g) with shift %g is %.12g instead of %.12g",what,pos,p[0],p[1],sh,g,e); } }
static Ms mk(int k, bool same) { Ms m; m.p=lattice(0,same?2:2+0.25*(k%2),same?4:4+k%2); m.xi=lattice(-1,1,same?4:4+(k+1)%2); for (size_t j=0;j<m.nx();j++) for (size_t i=0;i<m.np();i++) m.f.push_back(val(i,j,k)); return m; }
static const vector<V>& radii() { static const vector<V> R={ {0,0.5,1.5,2}, {1,1.25,2,4}, {-1,-0.25,0.5,3} }; return R; }
/* everything in one call */
static void whole(mc::Ctx& c) {
    const V& R0=c.pickOf(radii()); int nr=1+c.pick(4); V R(R0.begin(),R0.begin()+nr); bool desc=c.flip(), lg=c.flip(), alloc=lg&&c.flip(), flip=c.flip(), ext=c.flip(); int bad=c.pick(nr+1); Model m; m.extra=ext; V r, p, xi, f; for (int k=0;k<nr;k++) { Ms q=mk(k,true); q.lg=lg; q.flip=flip; m.ms[R[k]]=q; } for (int k=0;k<nr;k++) { int i= desc? nr-1-k:k; r.push_back(R[i]); auto& q=m.ms[R[i]]; p=q.p; xi=q.xi; f.insert(f.end(),q.f.begin(),q.f.end()); }
    if (bad>0) { int k=bad-1; if (nr<2||k==0||nr<3) { if (nr==2&&k==1) r[1]=r[0]; else return; } else r[k]= k==1? r[0] : r[k-2]; }
    NDF n; V f0=f; bool thr=false; try { if (lg) n.InitializeLog(nr,p.size(),xi.size(),r.data(),p.data(),xi.data(),f.data(),NDF::INTERPOLATION_LINEAR,alloc); else n.Initialize(nr,p.size(),xi.size(),r.data(),p.data(),xi.data(),f.data(),NDF::INTERPOLATION_LINEAR); } catch (SOFTLibException&) { thr=true; } c.noteL([&]{ return mc::fmt("%d radii %s %s%s flip %d extrapolation %d damage %d",nr,desc?"descending":"ascending",lg?"logarithmic":"",alloc?" in a new array":"",flip,ext,bad); }); c.require(thr==(bad>0),"%d radii, damage %d: %s",nr,bad,thr?"refused":"accepted"); if (thr) return; if (!lg||alloc) c.require(f==f0,"the given data was changed"); f.assign(f.size(),-5); r.assign(r.size(),-5); n.SetExtrapolationPermission(ext); n.FlipPitchSign(flip); check(c,n,m,"distribution"); unique_ptr<NDF> k(n.MinClone()); check(c,*k,m,"clone"); unique_ptr<NDF> kk(k->MinClone()); check(c,*kk,m,"clone of the clone"); c.state(mc::mix(mc::mix(nr*4+desc*2+lg,ext*2+flip),mc::hdbl(R[0]))); }
/* one radius at a time, in every order and with every method */
static void inserts(mc::Ctx& c) {
    const V& R=c.pickOf(radii()); int nr=1+c.pick(4); NDF n; Model m; vector<int> left; for (int k=0;k<nr;k++) left.push_back(k); bool flip=false; string tr; vector<V> keep; /* arrays given without a copy */
    for (int s=0;s<nr;s++) { int w=c.pick(left.size()), k=left[w]; left.erase(left.begin()+w); int how=c.pick(4); Ms q=mk(k,false); Ms a=q; q.lg= how>=2; int idx; switch (how) { case 0: idx=n.InsertMomentumSpaceDistribution(a.np(),a.nx(),R[k],a.p.data(),a.xi.data(),a.f.data(),NDF::INTERPOLATION_LINEAR); break; case 1: { NMS *x=new NMS; x->Initialize(a.np(),a.nx(),a.p.data(),a.xi.data(),a.f.data()); if (k%2) { x->FlipPitchSign(); q.flip=true; } idx=n.InsertMomentumSpaceDistribution(R[k],x); break; } case 2: idx=n.InsertMomentumSpaceDistributionLog(a.np(),a.nx(),R[k],a.p.data(),a.xi.data(),a.f.data(),NDF::INTERPOLATION_LINEAR); break; default: idx=n.InsertMomentumSpaceDistributionLog(a.np(),a.nx(),R[k],a.p.data(),a.xi.data(),a.f.data(),NDF::INTERPOLATION_LINEAR,true); c.require(a.f==q.f,"the given data was changed"); }
        m.ms[R[k]]=q; int pos=distance(m.ms.begin(),m.ms.find(R[k])); tr+=mc::fmt(" %g(%d)",R[k],how); c.noteL([&]{ return "radii"+tr; }); c.require(idx==pos,"inserting%s: index %d instead of %d",tr.c_str(),idx,pos); for (auto *v : {&a.p,&a.xi,&a.f}) for (auto& x : *v) x=99; check(c,n,m,"after inserting"); }
    n.SetExtrapolationPermission(false); m.extra=false; check(c,n,m,"without extrapolation"); unique_ptr<NDF> k(n.MinClone()); check(c,*k,m,"clone without extrapolation"); n.SetExtrapolationPermission(true); m.extra=true; n.FlipPitchSign(true); for (auto& x : m.ms) x.second.flip=true; check(c,n,m,"flipped"); c.state(mc::hstr(tr,mc::hdbl(R[0]))); }
/* many radii, in one call or inserted in several orders */
static void many(mc::Ctx& c) {
    static const int NR[]={5,6,7,8,9,16,17,33,65,128,300}; int nr=NR[c.pick(11)], how=c.pick(8), neg=c.pick(2); bool ext=c.flip(), lg=c.flip(); Model m; m.extra=ext; V R; for (int k=0;k<nr;k++) R.push_back((neg?-1.5:0.5)+0.0625*k+0.015625*(k%3)); vector<int> ord; for (int k=0;k<nr;k++) ord.push_back(k); switch (how) { case 3: reverse(ord.begin(),ord.end()); break; case 4: { vector<int> o; for (int k=0;k<nr;k++) o.push_back(k%2? nr-1-k/2 : k/2); ord=o; break; } case 5: { vector<int> o; int mid=nr/2; for (int d=0;d<nr;d++) { if (mid+d<nr) o.push_back(mid+d); if (d>0&&mid-d>=0) o.push_back(mid-d); } ord=o; break; } case 6: { vector<int> o; for (int s=0;s<3;s++) for (int k=s;k<nr;k+=3) o.push_back(k); ord=o; break; } case 7: rotate(ord.begin(),ord.begin()+nr/3,ord.end()); break; }
    c.noteL([&]{ return mc::fmt("%d radii from %g, way %d, extrapolation %d",nr,R[0],how,ext); }); NDF n; if (how<2) { V r,p,xi,f; for (int k=0;k<nr;k++) { m.ms[R[k]]=mk(k,true); m.ms[R[k]].lg=lg; } for (int k=0;k<nr;k++) { int i= how? nr-1-k : k; auto& q=m.ms[R[i]]; r.push_back(R[i]); p=q.p; xi=q.xi; f.insert(f.end(),q.f.begin(),q.f.end()); } if (lg) n.InitializeLog(nr,p.size(),xi.size(),r.data(),p.data(),xi.data(),f.data(),NDF::INTERPOLATION_LINEAR,neg); else n.Initialize(nr,p.size(),xi.size(),r.data(),p.data(),xi.data(),f.data(),NDF::INTERPOLATION_LINEAR); } else for (int k : ord) { Ms q=mk(k,false), a=q; q.lg=lg; int idx= lg? n.InsertMomentumSpaceDistributionLog(a.np(),a.nx(),R[k],a.p.data(),a.xi.data(),a.f.data(),NDF::INTERPOLATION_LINEAR,neg) : n.InsertMomentumSpaceDistribution(a.np(),a.nx(),R[k],a.p.data(),a.xi.data(),a.f.data(),NDF::INTERPOLATION_LINEAR); m.ms[R[k]]=q; c.require(idx==(int)distance(m.ms.begin(),m.ms.find(R[k])),"index %d of radius %g",idx,R[k]); }
    n.SetExtrapolationPermission(ext); check(c,n,m,"distribution"); unique_ptr<NDF> k(n.MinClone()); check(c,*k,m,"clone"); c.state(mc::mix(nr*10+how,neg*4+ext*2+lg)); }
/* histories mixing insertion, options, cloning, deletion and evaluation */
static void history(mc::Ctx& c) {
    static const V R={1.5,1,2,0.25}; vector<unique_ptr<NDF>> o(1); vector<Model> m(1); o[0].reset(new NDF); int used[3]={0,0,0}; bool fl[3]={0,0,0}; int D=c.thorough?6:5; for (int d=0;d<D;d++) { int q=c.pick(2*8), i=q/8, op=q%8; if (i>=(int)o.size()||!o[i]) return; c.step(); c.noteL([&]{ return mc::fmt("operation %d on %d",op,i); });
        if (op<4) { if (m[i].ms.count(R[op])) return; Ms x=mk(op,false), a=x; x.lg=op%2; x.flip=false; if (x.lg) o[i]->InsertMomentumSpaceDistributionLog(a.np(),a.nx(),R[op],a.p.data(),a.xi.data(),a.f.data(),NDF::INTERPOLATION_LINEAR,true); else o[i]->InsertMomentumSpaceDistribution(a.np(),a.nx(),R[op],a.p.data(),a.xi.data(),a.f.data(),NDF::INTERPOLATION_LINEAR); m[i].ms[R[op]]=x; } else if (m[i].ms.empty()) return; else if (op==4) { m[i].extra=!m[i].extra; o[i]->SetExtrapolationPermission(m[i].extra); } else if (op==5) { fl[i]=!fl[i]; o[i]->FlipPitchSign(fl[i]); for (auto& x : m[i].ms) x.second.flip=fl[i]; } else if (op==6) { if (o.size()==2) return; o.emplace_back(o[i]->MinClone()); m.push_back(Model(m[i])); fl[1]=fl[i]; } else o[i].reset();
        mc::u64 h=0; for (size_t k=0;k<o.size();k++) if (o[k]&&!m[k].ms.empty()) { check(c,*o[k],m[k],k?"clone":"original"); for (auto& x : m[k].ms) h=mc::mix(h,mc::mix(mc::hdbl(x.first),x.second.flip)); h=mc::mix(h,m[k].extra); } c.state(h); } (void)used; }
/* logarithmic data over many decades: exact to the relative accuracy everywhere */
static void decades(mc::Ctx& c) {
    static const double DEC[]={5,40,120,280}, OFF[]={0,-12,-20,10}; int nr=1+c.pick(3), how=c.pick(4), np=2+c.pick(4), nx=2+c.pick(3), shape=c.pick(3); double dec=DEC[c.pick(4)], off=OFF[c.pick(4)]; bool flip=c.flip(); static const V R={0.5,1,2}; Model m; V p,xi,f; for (int k=0;k<nr;k++) { Ms q; q.lg=true; q.p=lattice(0,3,np); q.xi=lattice(-1,1,nx); for (int j=0;j<nx;j++) for (int i=0;i<np;i++) { double e= shape==0? double(i)/(np-1) : shape==1? double(j)/(nx-1) : double((i*3+j*5+k*2)%7)/6; q.f.push_back(val(i,j,k)*pow(10,off-dec*e)); } m.ms[R[k]]=q; p=q.p; xi=q.xi; f.insert(f.end(),q.f.begin(),q.f.end()); } c.noteL([&]{ return mc::fmt("%d radii, way %d, %dx%d over %g decades from 1e%g, shape %d",nr,how,np,nx,dec,off,shape); });
    NDF n; V r(R.begin(),R.begin()+nr), F=f; if (how<2) n.InitializeLog(nr,np,nx,r.data(),p.data(),xi.data(),F.data(),NDF::INTERPOLATION_LINEAR,how==1); else for (int k=nr-1;k>=0;k--) n.InsertMomentumSpaceDistributionLog(np,nx,R[k],p.data(),xi.data(),&F[k*np*nx],NDF::INTERPOLATION_LINEAR,how==3); if (how%2) c.require(F==f,"the given data was changed"); if (flip) { n.FlipPitchSign(true); for (auto& x : m.ms) x.second.flip=true; } unique_ptr<NDF> cl(n.MinClone());
    for (NDF *d : {&n,cl.get()}) for (int k=0;k<nr;k++) for (double t : {0.0,0.5,0.9}) { if (t>0&&k+1>=nr) continue; double rho=R[k]+ (t>0? t*(R[k+1]-R[k]) : 0); for (int i=0;i<np;i++) for (double w : {0.0,0.4}) for (int j=0;j<nx;j++) for (double u : {0.0,0.7}) { if ((w>0&&i+1>=np)||(u>0&&j+1>=nx)) continue; double P=p[i]+(w>0? w*(p[i+1]-p[i]) : 0), X=xi[j]+(u>0? u*(xi[j+1]-xi[j]) : 0); if (flip) X=-X; bool th; double e=m.eval(rho,P,X,th), g=d->Eval(rho,P,X); c.step(); c.require(near(g,e,0,1e-9),"%s: f(%g,%g,%g) is %.12g instead of %.12g",d==&n?"distribution":"clone",rho,P,X,g,e); c.state(mc::hdbl(e)); } } }
/* logarithmic data with zeros: a cell next to a zero is zero, everything else is as without it */
static void zeros(mc::Ctx& c) {
    int nr=1+c.pick(3), how=c.pick(4), z=c.pick(20), zr=c.pick(nr); bool flip=c.flip(); static const V R={0.5,1,2}; Model m; V p,xi,f; for (int k=0;k<nr;k++) { Ms q=mk(k,true); q.lg=true; q.flip=flip; for (int i=0;i<16;i++) if (k==zr && (z<16? i==z : z==16? i/4==0 : z==17? i%4==3 : z==18? true : (i/4+i%4)%3==0)) q.f[i]=0; m.ms[R[k]]=q; p=q.p; xi=q.xi; f.insert(f.end(),q.f.begin(),q.f.end()); } c.noteL([&]{ return mc::fmt("%d radii, way %d, zeros %d at radius %d, flip %d",nr,how,z,zr,flip); });
    NDF n; V r(R.begin(),R.begin()+nr), F=f; if (how<2) n.InitializeLog(nr,4,4,r.data(),p.data(),xi.data(),F.data(),NDF::INTERPOLATION_LINEAR,how==1); else for (int k=0;k<nr;k++) n.InsertMomentumSpaceDistributionLog(4,4,R[k],p.data(),xi.data(),&F[k*16],NDF::INTERPOLATION_LINEAR,how==3); n.FlipPitchSign(flip); unique_ptr<NDF> cl(n.MinClone());
    for (NDF *d : {&n,cl.get()}) for (double rho : {0.3,0.5,0.75,1.0,1.25,2.0,2.5}) for (int i=0;i<3;i++) for (int j=0;j<3;j++) for (double w : {0.25,0.7}) { double P=p[i]+w*(p[i+1]-p[i]), X=xi[j]+(1-w)*(xi[j+1]-xi[j]); if (flip) X=-X; bool th; double e=m.eval(rho,P,X,th), g=d->Eval(rho,P,X); c.step(); c.require(near(g,e,10,1e-11),"%s: f(%g,%g,%g) is %.12g instead of %.12g",d==&n?"distribution":"clone",rho,P,X,g,e); c.state(mc::hdbl(e)); } }
/* cubic interpolation in momentum: nodes only */
static void cubic(mc::Ctx& c) { bool lg=c.flip(); int how=c.pick(2); V R={1,2,2.5}; NDF n; vector<Ms> ms; V f,p,xi; for (int k=0;k<3;k++) { Ms q=mk(k,true); ms.push_back(q); p=q.p; xi=q.xi; f.insert(f.end(),q.f.begin(),q.f.end()); } if (how==0) { if (lg) n.InitializeLog(3,p.size(),xi.size(),R.data(),p.data(),xi.data(),f.data(),NDF::INTERPOLATION_CUBIC,true); else n.Initialize(3,p.size(),xi.size(),R.data(),p.data(),xi.data(),f.data(),NDF::INTERPOLATION_CUBIC); } else for (int k=0;k<3;k++) { if (lg) n.InsertMomentumSpaceDistributionLog(p.size(),xi.size(),R[k],p.data(),xi.data(),&f[k*p.size()*xi.size()],NDF::INTERPOLATION_CUBIC,true); else n.InsertMomentumSpaceDistribution(p.size(),xi.size(),R[k],p.data(),xi.data(),&f[k*p.size()*xi.size()],NDF::INTERPOLATION_CUBIC); } unique_ptr<NDF> k(n.MinClone()); double rough=0; for (NDF *d : {&n,k.get()}) for (int r=0;r<3;r++) { for (size_t i=0;i<p.size();i++) for (size_t j=0;j<xi.size();j++) { double e=ms[r].f[j*p.size()+i], g=d->Eval(R[r],p[i],xi[j]); c.step(); c.require(near(g,e,1,1e-10),"cubic: node (%zu,%zu) at radius %g is %g instead of %g",i,j,R[r],g,e); if (r<2) { double h=ms[r+1].f[j*p.size()+i], gm=d->Eval(0.5*(R[r]+R[r+1]),p[i],xi[j]); c.require(near(gm,0.5*(e+h),1,1e-10),"cubic: node (%zu,%zu) between radii",i,j); } } for (double a : {0.3,1.1}) for (double b : {-0.4,0.77}) { Ms q=ms[r]; q.lg=lg; rough=max(rough,fabs(d->Eval(R[r],a,b)-q.at(a,b))); } } c.require(rough>1e-6,"cubic interpolation gives linear values"); c.state(lg*2+how); }
int main(int argc, char **argv) {
    return mc::run(argc, argv, "D02", {
        {"whole", whole, 3, "3 radius sets x 1-4 radii x ascending/descending x linear/logarithmic/in a new array x flipped x extrapolation, and every repeated radius; on a lattice of radii, drift shifts and momenta; clones of clones"},
        {"inserts", inserts, 3, "3 radius sets x all insertion orders of 1-4 radii x 4 insertion methods per radius, checked after every insertion"},
        {"many", many, 2, "11 numbers of radii from 5 to 300 x given at once (ascending, descending) or inserted in 6 orders x 2 radial grids x linear/logarithmic x extrapolation: all radii, between, outside; clone"},
        {"history", history, 2, "all sequences of 5 (thorough 6) insert/option/flip/clone/delete operations over an original and a clone"},
        {"decades", decades, 3, "logarithmic data over 5 to 280 decades from 4 magnitudes x 1-3 radii x 4 ways of giving it x 12 grid sizes x 3 shapes x flipped: nodes, between nodes, between radii, to relative accuracy; clone"},
        {"zeros", zeros, 3, "logarithmic data with a zero at every single node or in rows, columns, everywhere or scattered x 1-3 radii x 4 ways of giving it x flipped"},
        {"cubic", cubic, 1, "cubic momentum interpolation: nodes at and between radii"},
    });
}
