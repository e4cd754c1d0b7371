/* K01: clones share no mutable state.
 * Part 1 (address sanitizer): all clone/evaluate/destroy histories of every cloneable class.
 * Part 2 (-DK01_RACES, library compiled with access hooks): the memory footprint of each evaluation is recorded on a thread of
 * its own; two evaluations on different objects must be independent (no unsynchronised access to the same memory, one of them a
 * write).  Independent operations commute, so the one execution stands for every interleaving of the two. */
#ifdef K01_RACES
#include <dlfcn.h>
#include <pthread.h>
#include <gsl/gsl_spline2d.h>
#include <gsl/gsl_interp2d.h>
#include <gsl/gsl_spline.h>
#endif
#include "coderef.h"
#include "numericref.h"
#include <hdf5.h>
#include <softlib/DistributionFunction/AnalyticalAvalanche.h>
#include <softlib/DistributionFunction/BesselRadialProfile.h>
#include <softlib/DistributionFunction/ConnorHastieDistribution.h>
#include <softlib/DistributionFunction/DREAMDistributionFunction.h>
#include <softlib/DistributionFunction/ExponentialPitch.h>
#include <softlib/DistributionFunction/GaussianRadialProfile.h>
#include <softlib/DistributionFunction/LUKEDistributionFunction.h>
#include <softlib/DistributionFunction/LinearRadialProfile.h>
#include <softlib/DistributionFunction/PowerRadialProfile.h>
#include <softlib/DistributionFunction/RadialDistributionFunction.h>
#include <softlib/DistributionFunction/SOFTDistributionFunction.h>
#include <softlib/DistributionFunction/UniformRadialProfile.h>
#include <softlib/DistributionFunction/UnitDistributionFunction.h>
#include <softlib/DistributionFunction/deprSOFTDistributionFunction.h>
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
#include <softlib/SFile.h>
#include <condition_variable>
#include <mutex>
#include <thread>
/* ------------------------------------------------------------ objects */
struct Obj { virtual ~Obj() {} virtual int nops() const=0; virtual V eval(int k)=0; virtual Obj *clone()=0; virtual void hold() {} virtual bool held() { return true; } };
struct FieldObj : Obj { unique_ptr<MagneticField2D> f; double *b=nullptr; double saved[3]; struct magnetic_field_data *d=nullptr; double dsaved[13]; struct flux_diff *w=nullptr; double wsaved[3]; double r0,z0,s; FieldObj(MagneticField2D *p, double r0, double z0, double s) : f(p), r0(r0), z0(z0), s(s) {}
    int nops() const override { return 11; } Obj *clone() override { return new FieldObj(f->Clone(),r0,z0,s); }
    static V all(struct magnetic_field_data& d) { V v={d.B[0],d.B[1],d.B[2],d.Babs}; for (int i=0;i<3;i++) { v.push_back(d.gradB[i]); v.push_back(d.curlB[i]); for (int j=0;j<3;j++) v.push_back(d.J[i][j]); } return v; }
    V eval(int k) override { static const double P[][3]={{1,0,0},{0.6,0.8,0.3},{-0.28,-0.96,-0.4}}; int t=k==10?2:k%3; double q=r0+s*(0.2+0.1*t), x=P[t][0]*q, y=P[t][1]*q, z=z0+s*P[t][2]; if (k<3) { b=f->Eval(x,y,z); return {b[0],b[1],b[2]}; } if (k<6) { d=&f->EvalDerivatives(x,y,z); return all(*d); } if (k==6) return {f->EvalFlux(x,y,z)}; if (k==7||k==10) { w=f->EvalFluxDerivatives(x,y,z); return {w->psi,w->dpsi_dR,w->dpsi_dZ}; } if (k==8) { double a,b2,c,e; f->GetDomainBounds(a,b2,c,e); return {a,b2,c,e,f->GetMaxRadius(),f->GetMinRadius(),f->GetMagneticAxisR(),f->GetMagneticAxisZ()}; } return {(double)f->CrossesDomain(r0+0.3*s,0,z0+0.1*s),(double)f->CrossesDomain(r0+30*s,0,z0+0.1*s),(double)f->CrossesDomain(r0,0,z0,r0+30*s,0,z0+0.1*s),(double)f->GetNDomain()}; }
    void hold() override { if (b) memcpy(saved,b,sizeof saved); if (d) for (int i=0;i<13;i++) dsaved[i]=all(*d)[i]; if (w) { wsaved[0]=w->psi; wsaved[1]=w->dpsi_dR; wsaved[2]=w->dpsi_dZ; } } bool held() override { bool ok=true; if (b) ok=!memcmp(saved,b,sizeof saved); if (d) { V v=all(*d); for (int i=0;i<13;i++) if (v[i]!=dsaved[i]) ok=false; } if (w&&(w->psi!=wsaved[0]||w->dpsi_dR!=wsaved[1]||w->dpsi_dZ!=wsaved[2])) ok=false; return ok; } };
struct DistObj : Obj { unique_ptr<DistributionFunction> f; shared_ptr<void> keep; double R; DistObj(DistributionFunction *p, double R, shared_ptr<void> k=nullptr) : f(p), keep(k), R(R) {} int nops() const override { return 6; } Obj *clone() override { return new DistObj(f->MinClone(),R,keep); }
    V eval(int k) override { static const double P[][4]={{0.05,0.5,0.3,0},{0.05,0.5,-0.7,0},{0.3,1.7,0.3,0.01},{0.12,2.9,-1,0},{0.4,0.26,0.9,0},{0.2,7,0.1,0}}; return {f->Eval(R+P[k][0],P[k][1],P[k][2],P[k][3])}; } };
struct MsObj : Obj { unique_ptr<MomentumSpaceDistributionFunction> f; shared_ptr<void> keep; MsObj(MomentumSpaceDistributionFunction *p, shared_ptr<void> k=nullptr) : f(p), keep(k) {} int nops() const override { return 6; } Obj *clone() override { return new MsObj(f->MinClone(),keep); }
    V eval(int k) override { static const double P[][2]={{0.5,0.3},{0.5,-0.7},{1.7,0.3},{2.9,-1},{0.26,0.9},{7,0.1}}; return {f->Eval(P[k][0],P[k][1])}; } };
struct ProfObj : Obj { unique_ptr<RadialProfile> f; ProfObj(RadialProfile *p) : f(p) {} int nops() const override { return 4; } Obj *clone() override { return new ProfObj(f->MinClone()); } V eval(int k) override { static const double P[][2]={{1.7,0},{1.95,0.05},{1.2,0},{2.3,0.1}}; return {f->Eval(P[k][0],P[k][1])}; } };
/* ------------------------------------------------------------ one of each kind */
static string g_dir; static void file(const string& n, std::function<void(SFile&)> w) { string fn=g_dir+"/"+n; struct stat st; if (!stat(fn.c_str(),&st)) return; string t=g_dir+"/t"+n; unique_ptr<SFile> s(SFile::Create(t,SFILE_MODE_WRITE)); w(*s); s->Close(); rename(t.c_str(),fn.c_str()); }
static void arr(SFile& s, const string& n, const V& v, size_t r, size_t k) { vector<const double*> p; for (size_t i=0;i<r;i++) p.push_back(v.data()+i*k); s.WriteArray(n,p.data(),r,k); }
static Ms ms(int k) { Ms m; m.p=lattice(0.25,3,5); m.xi=lattice(-1,1,5); for (int j=0;j<5;j++) for (int i=0;i<5;i++) m.f.push_back(val(i,j,k)*(1+k)); return m; }
static NMS *nms(int k, bool lg, int itp) { Ms m=ms(k); NMS *n=new NMS; if (lg) n->InitializeLog(5,5,m.p.data(),m.xi.data(),m.f.data(),itp); else n->Initialize(5,5,m.p.data(),m.xi.data(),m.f.data(),itp); return n; }
static NDF *ndf(bool lg, int itp) { NDF *d=new NDF; Ms m=ms(0); V r={1.7,1.9,2.2}, f; for (int k=0;k<3;k++) { Ms q=ms(k); f.insert(f.end(),q.f.begin(),q.f.end()); } if (lg) d->InitializeLog(3,5,5,r.data(),m.p.data(),m.xi.data(),f.data(),itp); else d->Initialize(3,5,5,r.data(),m.p.data(),m.xi.data(),f.data(),itp); return d; }
struct CD { V p, f; }; static shared_ptr<CD> cdata(int k, int nl=4) { auto d=make_shared<CD>(); d->p=lattice(0.25,3,6); for (int l=0;l<nl;l++) for (int i=0;i<6;i++) d->f.push_back((l==0?6:1)*val(i,l,k)); return d; }
static CODE *code(shared_ptr<CD> d, int itp) { CODE *o=new CODE; o->Initialize(6,d->f.size()/6,d->p.data(),d->f.data(),itp); return o; }
static const double AXR=1.625; struct AxisField { unique_ptr<MagneticField2D> f; AxisField() : f(new MagneticFieldAnalytical2D(5,AXR,0,0.7,MFAFS_CCW,MFAFS_CCW,MFASF_CONSTANT,2,0)) {} MagneticField2D *get() { return f.get(); } };
static const int NKIND=38; static const char *KN[NKIND]={"gridded field","gridded field without flux","analytical field (constant q)","analytical field (linear q)","analytical field (quadratic q)","analytical field (exponential q)","analytical field (current)","gridded momentum space","gridded momentum space, logarithmic cubic","gridded distribution","gridded distribution, logarithmic cubic","CODE","CODE akima","GO+CODE","profile x gridded","profile x CODE","avalanche","Connor-Hastie","exponential pitch","unit","Bessel profile","Gaussian profile","power profile","DREAM","SOFT","LUKE","old SOFT","CODE, one mode","CODE, two modes","CODE, three modes","CODE, many modes","CODE polynomial","CODE steffen","gridded distribution, one radius","gridded distribution, many radii","GO+CODE, one radius","linear profile","profile x avalanche"};
static Obj *make(int kind) {
    if (kind<=1) { Grid g; g.R=lattice(1,3,6); g.Z=lattice(-1,1,5); g.fill([](double r, double z, size_t i, size_t j){ return V4{1+0.3*r*z,2/r+0.1*z*z,-0.5+sin(r+j),r*r+z*i}; }); g.box(); if (kind==1) g.Psi.clear(); return new FieldObj(g.make(),1.8,0.1,0.5); }
    if (kind<=6) { static const MFASafetyFactorType T[]={MFASF_CONSTANT,MFASF_LINEAR,MFASF_QUADRATIC,MFASF_EXPONENTIAL,MFASF_CURRENT}; return new FieldObj(new MagneticFieldAnalytical2D(5,1.7,0.1,0.6,MFAFS_CW,MFAFS_CCW,T[kind-2],2,1.5),1.7,0.1,0.5); }
    switch (kind) { case 7: return new MsObj(nms(0,false,NMS::INTERPOLATION_LINEAR)); case 8: return new MsObj(nms(1,true,NMS::INTERPOLATION_CUBIC)); case 9: return new DistObj(ndf(false,NDF::INTERPOLATION_LINEAR),1.7); case 10: return new DistObj(ndf(true,NDF::INTERPOLATION_CUBIC),1.7);
    case 11: case 12: { auto d=cdata(0); return new MsObj(code(d,IT(kind==11?0:4)),d); }
    case 13: { struct G { shared_ptr<CD> d[3]; V r={1.7,1.9,2.2}; }; auto g=make_shared<G>(); CODE **a=new CODE*[3]; for (int k=0;k<3;k++) { g->d[k]=cdata(k); a[k]=code(g->d[k],IT(0)); } GOCODE *o=new GOCODE; o->Initialize(3,g->r.data(),a); return new DistObj(o,1.7,g); }
    case 14: return new DistObj(new RadialDistributionFunction(new LinearRadialProfile(1.6,2.2),nms(0,false,NMS::INTERPOLATION_CUBIC)),1.7); case 15: { auto d=cdata(1); return new DistObj(new RadialDistributionFunction(new UniformRadialProfile,code(d,IT(0))),1.7,d); }
    case 16: return new MsObj(new AnalyticalAvalanche(10,15,2)); case 17: return new MsObj(new ConnorHastieDistribution(10,2,2,0.5)); case 18: return new MsObj(new ExponentialPitch(2.5)); case 19: return new MsObj(new UnitDistributionFunction); case 20: return new ProfObj(new BesselRadialProfile(1.6,2.2)); case 21: return new ProfObj(new GaussianRadialProfile(1.6,2.2,1,1.8,0.2)); case 22: return new ProfObj(new PowerRadialProfile(1.6,2.2,2.5));
    case 23: { file("r.h5",[](SFile& s){ for (const char *g : {"eqsys","grid","grid/runaway"}) s.CreateStruct(g); Ms m=ms(0); double t[]={0}, r[]={0.1,0.3,0.6}; s.WriteList("grid/t",t,1); s.WriteList("grid/r",r,3); s.WriteList("grid/runaway/p1",m.p.data(),5); s.WriteList("grid/runaway/p2",m.xi.data(),5); V f; for (int k=0;k<3;k++) { Ms q=ms(k); f.insert(f.end(),q.f.begin(),q.f.end()); } sfilesize_t d[]={1,3,5,5}; s.WriteMultiArray("eqsys/f_re",f.data(),4,d); }); AxisField a; return new DistObj(new DREAMDistributionFunction(g_dir+"/r.h5",a.get()),1.7); }
    case 24: { file("s.h5",[](SFile& s){ double r[]={0.1,0.3,0.6}; s.WriteList("r",r,3); for (int k=0;k<3;k++) { string g="r"+to_string(k); s.CreateStruct(g); Ms m=ms(k); s.WriteList(g+"/p",m.p.data(),5); s.WriteList(g+"/xi",m.xi.data(),5); arr(s,g+"/f",m.f,5,5); } }); AxisField a; return new DistObj(new SOFTDistributionFunction(g_dir+"/s.h5",a.get(),true,NDF::INTERPOLATION_LINEAR),1.7); }
    case 25: { file("l.h5",[](SFile& s){ Ms m=ms(0); double x[]={0,0.4,0.9}, b[]={1}; s.WriteList("xrhoG",x,3); s.WriteList("pn",m.p.data(),5); s.WriteList("mhu",m.xi.data(),5); s.WriteList("betath_ref",b,1); V f; for (int k=0;k<3;k++) { Ms q=ms(k); f.insert(f.end(),q.f.begin(),q.f.end()); } sfilesize_t d[]={3,5,5}; s.WriteMultiArray("f",f.data(),3,d); }); AxisField a; return new DistObj(new LUKEDistributionFunction(g_dir+"/l.h5",a.get(),false,NDF::INTERPOLATION_LINEAR),1.7); }
    case 27: case 28: case 29: case 30: { auto d=cdata(2,kind==30?23:kind-26); return new MsObj(code(d,IT(0)),d); } case 31: case 32: { auto d=cdata(1,3); return new MsObj(code(d,IT(kind==31?1:6)),d); }
    case 33: case 34: { NDF *d=new NDF; for (int k=0;k<(kind==33?1:19);k++) { Ms m=ms(k); double R=1.65+0.03*((k*7)%19); if (k%2) d->InsertMomentumSpaceDistributionLog(5,5,R,m.p.data(),m.xi.data(),m.f.data(),NDF::INTERPOLATION_LINEAR,true); else d->InsertMomentumSpaceDistribution(5,5,R,m.p.data(),m.xi.data(),m.f.data(),NDF::INTERPOLATION_LINEAR); } return new DistObj(d,1.7); }
    case 35: { struct G { shared_ptr<CD> d; V r={1.8}; }; auto g=make_shared<G>(); CODE **a=new CODE*[1]; g->d=cdata(0,2); a[0]=code(g->d,IT(0)); GOCODE *o=new GOCODE; o->Initialize(1,g->r.data(),a); return new DistObj(o,1.7,g); }
    case 36: return new ProfObj(new LinearRadialProfile(1.6,2.2)); case 37: return new DistObj(new RadialDistributionFunction(new BesselRadialProfile(1.6,2.2),new AnalyticalAvalanche(10,15,2)),1.7);
    default: { file("d.h5",[](SFile& s){ Ms m=ms(0); double r[]={1.7,1.9,2.2}; s.WriteList("r",r,3); s.WriteList("p",m.p.data(),5); s.WriteList("xi",m.xi.data(),5); V f; for (int k=0;k<3;k++) { Ms q=ms(k); f.insert(f.end(),q.f.begin(),q.f.end()); } arr(s,"f",f,3,25); s.WriteString("punits","normalized"); }); return new DistObj(new deprSOFTDistributionFunction(g_dir+"/d.h5",nullptr,false,NDF::INTERPOLATION_CUBIC),1.7); } } }
static bool refused(int kind, int op) { return kind==1 && (op==6||op==7||op==10); }
/* the answer of a fresh object asked nothing else */
static const V& expect(int kind, int op) { static map<pair<int,int>,V> M; auto it=M.find({kind,op}); if (it==M.end()) { unique_ptr<Obj> o(make(kind)); it=M.emplace(make_pair(kind,op),o->eval(op)).first; } return it->second; }
static void same(mc::Ctx& c, int kind, int op, const V& g, const char *what) { const V& e=expect(kind,op); c.step(); c.require(g.size()==e.size(),"size"); for (size_t i=0;i<e.size();i++) c.require(g[i]==e[i]||fabs(g[i]-e[i])<=1e-12*(1e-30+fabs(e[i]))||(std::isnan(g[i])&&std::isnan(e[i])),"%s, %s: operation %d gives %.17g instead of %.17g",KN[kind],what,op,g[i],e[i]); }
#ifndef K01_RACES
static void history(mc::Ctx& c) {
    g_dir=c.scratch; int kind=c.pick(NKIND); vector<unique_ptr<Obj>> o; o.emplace_back(make(kind)); int n=o[0]->nops(); static const int SEL[]={0,1,3,4,7,10,8}; int ne=n>6?(c.thorough?7:6):3, D=c.thorough?5:4; mc::u64 h=kind; for (int d=0;d<D;d++) { int q=c.pick(3*(ne+2)), i=q/(ne+2), op=q%(ne+2); if (i>=(int)o.size()||!o[i]) return; c.noteL([&]{ return mc::fmt("%s: %s %d",KN[kind],op<ne?"evaluate":op==ne?"clone":"delete",i); }); h=mc::mix(h,q);
        for (auto& x : o) if (x) x->hold(); Obj *cur=nullptr; if (op<ne) { int k=n>6? SEL[op] : (op*2+1)%n; if (refused(kind,k)) return; cur=o[i].get(); same(c,kind,k,o[i]->eval(k),i?"clone":"original"); } else if (op==ne) { if (o.size()==3) return; o.emplace_back(o[i]->clone()); } else o[i].reset(); c.step(); for (auto& x : o) if (x&&x.get()!=cur) c.require(x->held(),"%s: a result is overwritten by an operation on another object",KN[kind]); c.state(h); }
    for (int k=n-1;k>=0;k--) for (auto& x : o) if (x&&!refused(kind,k)) same(c,kind,k,x->eval(k),"in the end"); }
int main(int argc, char **argv) { H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr);
    return mc::run(argc, argv, "K01", { {"history", history, 2, "38 classes and configurations x all sequences of 4 (thorough 5) evaluate/clone/delete operations over up to 3 objects; every result compared with a fresh object's, earlier results of the other objects must stay"} }); }
#else
/* ------------------------------------------------------------ recording */
struct Acc { uintptr_t a; unsigned n; bool w, atomic; int locks; const char *what; };
struct Rec { vector<Acc> acc; vector<pair<uintptr_t,uintptr_t>> mine; uintptr_t s0=0,s1=0; int guard=0; vector<const void*> locks; };
static thread_local Rec *t_rec=nullptr; static thread_local bool t_busy=false; static map<vector<const void*>,int> g_lockset; static vector<vector<const void*>> g_locksets;
static inline void acc(const void *p, unsigned n, bool w, bool at=false, const char *what="memory") { Rec *r=t_rec; if (!r||t_busy||r->guard) return; uintptr_t a=(uintptr_t)p; if (a>=r->s0&&a<r->s1) return; t_busy=true; bool own=false; for (auto& m : r->mine) if (a>=m.first&&a<m.second) own=true; if (!own) { int L=-1; if (!r->locks.empty()) { auto k=r->locks; sort(k.begin(),k.end()); auto it=g_lockset.find(k); if (it==g_lockset.end()) { it=g_lockset.emplace(k,(int)g_locksets.size()).first; g_locksets.push_back(k); } L=it->second; } r->acc.push_back({a,n,w,at,L,what}); } t_busy=false; }
static void alloc(void *p, size_t n) { Rec *r=t_rec; if (!r||t_busy||!p) return; t_busy=true; r->mine.push_back({(uintptr_t)p,(uintptr_t)p+n}); t_busy=false; }
void *operator new(size_t n) { void *p=malloc(n?n:1); if (!p) throw std::bad_alloc(); alloc(p,n); return p; } void *operator new[](size_t n) { return operator new(n); } void operator delete(void *p) noexcept { free(p); } void operator delete(void *p, size_t) noexcept { free(p); } void operator delete[](void *p) noexcept { free(p); } void operator delete[](void *p, size_t) noexcept { free(p); }
template<class F> static F real(const char *n) { void *p=dlsym(RTLD_NEXT,n); if (!p) { fprintf(stderr,"no %s\n",n); abort(); } return (F)p; }
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_vptr_update(void **p,void*) { acc(p,8,true); } void __tsan_vptr_read(void **p) { acc(p,8,false); }
#define RW(n) void __tsan_read##n(void *p) { acc(p,n,false); } void __tsan_write##n(void *p) { acc(p,n,true); } void __tsan_unaligned_read##n(void *p) { acc(p,n,false); } void __tsan_unaligned_write##n(void *p) { acc(p,n,true); } void __tsan_volatile_read##n(void *p) { acc(p,n,false); } void __tsan_volatile_write##n(void *p) { acc(p,n,true); } void __tsan_unaligned_volatile_read##n(void *p) { acc(p,n,false); } void __tsan_unaligned_volatile_write##n(void *p) { acc(p,n,true); } void __tsan_read_write##n(void *p) { acc(p,n,true); } void __tsan_unaligned_read_write##n(void *p) { acc(p,n,true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p,n,false); } void __tsan_write_range(void *p, size_t n) { acc(p,n,true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { acc(d,n,true); acc(s,n,false); return memcpy(d,s,n); } void *__tsan_memset(void *d, int v, size_t n) { acc(d,n,true); return memset(d,v,n); } void *__tsan_memmove(void *d, const void *s, size_t n) { acc(d,n,true); acc(s,n,false); return memmove(d,s,n); }
#define A_ acc((void*)p,sizeof *p,true,true)
#define AT(n,T) T __tsan_atomic##n##_load(const volatile T *p, int) { acc((void*)p,sizeof *p,false,true); return __atomic_load_n(p,5); } void __tsan_atomic##n##_store(volatile T *p, T v, int) { A_; __atomic_store_n(p,v,5); } T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { A_; return __atomic_exchange_n(p,v,5); } T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { A_; return __atomic_fetch_add(p,v,5); } T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { A_; return __atomic_fetch_sub(p,v,5); } T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { A_; return __atomic_fetch_and(p,v,5); } T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { A_; return __atomic_fetch_or(p,v,5); } T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { A_; return __atomic_fetch_xor(p,v,5); } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { A_; return __atomic_compare_exchange_n(p,e,v,false,5,5); } int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { A_; return __atomic_compare_exchange_n(p,e,v,false,5,5); } T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int, int) { A_; __atomic_compare_exchange_n(p,&e,v,false,5,5); return e; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
/* locks and one-time initialisation order their accesses */
static void lk(const void *m) { if (t_rec&&!t_busy) { t_busy=true; t_rec->locks.push_back(m); t_busy=false; } } static void ul(const void *m) { if (t_rec&&!t_busy) { auto& L=t_rec->locks; for (size_t i=L.size();i-->0;) if (L[i]==m) { L.erase(L.begin()+i); break; } } }
int pthread_mutex_lock(pthread_mutex_t *m) { static auto f=real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); int r=f(m); lk(m); return r; } int pthread_mutex_unlock(pthread_mutex_t *m) { static auto f=real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); ul(m); return f(m); }
void GOMP_critical_name_start(void **p) { static auto f=real<void(*)(void**)>("GOMP_critical_name_start"); f(p); lk(p); } void GOMP_critical_name_end(void **p) { static auto f=real<void(*)(void**)>("GOMP_critical_name_end"); ul(p); f(p); } static char K_CRIT; void GOMP_critical_start() { static auto f=real<void(*)()>("GOMP_critical_start"); f(); lk(&K_CRIT); } void GOMP_critical_end() { static auto f=real<void(*)()>("GOMP_critical_end"); ul(&K_CRIT); f(); } void omp_set_lock(void *p) { static auto f=real<void(*)(void*)>("omp_set_lock"); f(p); lk(p); } void omp_unset_lock(void *p) { static auto f=real<void(*)(void*)>("omp_unset_lock"); ul(p); f(p); }
int __cxa_guard_acquire(long long *g) { static int (*f)(long long*)=nullptr; if (!f) f=(int(*)(long long*))dlsym(RTLD_NEXT,"__cxa_guard_acquire"); int r=f(g); if (r&&t_rec) t_rec->guard++; return r; } void __cxa_guard_release(long long *g) { static void (*f)(long long*)=nullptr; if (!f) f=(void(*)(long long*))dlsym(RTLD_NEXT,"__cxa_guard_release"); if (t_rec) t_rec->guard--; f(g); }
void *__real_malloc(size_t); void *__wrap_malloc(size_t n) { void *p=__real_malloc(n); alloc(p,n); return p; }
/* GSL updates the work spaces given to it */
static void ws(const gsl_interp_accel *a) { if (a) acc(a,sizeof *a,true,false,"an interpolation work space"); } static void sp(const void *s) { acc(s,8,false,false,"an interpolation object"); }
#define G1(n) double n(const gsl_interp *i, const double xa[], const double ya[], double x, gsl_interp_accel *a) { static auto f=real<double(*)(const gsl_interp*,const double[],const double[],double,gsl_interp_accel*)>(#n); ws(a); sp(i); return f(i,xa,ya,x,a); }
#define G1E(n) int n(const gsl_interp *i, const double xa[], const double ya[], double x, gsl_interp_accel *a, double *r) { static auto f=real<int(*)(const gsl_interp*,const double[],const double[],double,gsl_interp_accel*,double*)>(#n); ws(a); sp(i); acc(r,8,true); return f(i,xa,ya,x,a,r); }
#define GS(n) double n(const gsl_spline *i, double x, gsl_interp_accel *a) { static auto f=real<double(*)(const gsl_spline*,double,gsl_interp_accel*)>(#n); ws(a); sp(i); return f(i,x,a); }
#define GSE(n) int n(const gsl_spline *i, double x, gsl_interp_accel *a, double *r) { static auto f=real<int(*)(const gsl_spline*,double,gsl_interp_accel*,double*)>(#n); ws(a); sp(i); acc(r,8,true); return f(i,x,a,r); }
#define G2(n) double n(const gsl_interp2d *i, const double xa[], const double ya[], const double za[], double x, double y, gsl_interp_accel *a, gsl_interp_accel *b) { static auto f=real<double(*)(const gsl_interp2d*,const double[],const double[],const double[],double,double,gsl_interp_accel*,gsl_interp_accel*)>(#n); ws(a); ws(b); sp(i); return f(i,xa,ya,za,x,y,a,b); }
#define G2E(n) int n(const gsl_interp2d *i, const double xa[], const double ya[], const double za[], double x, double y, gsl_interp_accel *a, gsl_interp_accel *b, double *r) { static auto f=real<int(*)(const gsl_interp2d*,const double[],const double[],const double[],double,double,gsl_interp_accel*,gsl_interp_accel*,double*)>(#n); ws(a); ws(b); sp(i); acc(r,8,true); return f(i,xa,ya,za,x,y,a,b,r); }
#define S2(n) double n(const gsl_spline2d *i, double x, double y, gsl_interp_accel *a, gsl_interp_accel *b) { static auto f=real<double(*)(const gsl_spline2d*,double,double,gsl_interp_accel*,gsl_interp_accel*)>(#n); ws(a); ws(b); sp(i); return f(i,x,y,a,b); }
#define S2E(n) int n(const gsl_spline2d *i, double x, double y, gsl_interp_accel *a, gsl_interp_accel *b, double *r) { static auto f=real<int(*)(const gsl_spline2d*,double,double,gsl_interp_accel*,gsl_interp_accel*,double*)>(#n); ws(a); ws(b); sp(i); acc(r,8,true); return f(i,x,y,a,b,r); }
G1(gsl_interp_eval) G1(gsl_interp_eval_deriv) G1(gsl_interp_eval_deriv2) G1E(gsl_interp_eval_e) G1E(gsl_interp_eval_deriv_e) GS(gsl_spline_eval) GS(gsl_spline_eval_deriv) GSE(gsl_spline_eval_e) GSE(gsl_spline_eval_deriv_e)
G2(gsl_interp2d_eval) G2(gsl_interp2d_eval_extrap) G2(gsl_interp2d_eval_deriv_x) G2(gsl_interp2d_eval_deriv_y) G2(gsl_interp2d_eval_deriv_xx) G2(gsl_interp2d_eval_deriv_yy) G2(gsl_interp2d_eval_deriv_xy) G2E(gsl_interp2d_eval_e) G2E(gsl_interp2d_eval_e_extrap) G2E(gsl_interp2d_eval_deriv_x_e) G2E(gsl_interp2d_eval_deriv_y_e)
S2(gsl_spline2d_eval) S2(gsl_spline2d_eval_deriv_x) S2(gsl_spline2d_eval_deriv_y) S2(gsl_spline2d_eval_deriv_xx) S2(gsl_spline2d_eval_deriv_yy) S2(gsl_spline2d_eval_deriv_xy) S2E(gsl_spline2d_eval_e) S2E(gsl_spline2d_eval_deriv_x_e) S2E(gsl_spline2d_eval_deriv_y_e)
size_t gsl_interp_accel_find(gsl_interp_accel *a, const double x[], size_t n, double v) { static auto f=real<size_t(*)(gsl_interp_accel*,const double[],size_t,double)>("gsl_interp_accel_find"); ws(a); return f(a,x,n,v); }
}
/* each operation on a thread of its own; both threads exist all the time */
struct Runner { Rec rec; thread th; std::mutex m; condition_variable cv; int state=0; std::function<void()> job; Runner() { th=thread([this]{ unique_lock<std::mutex> l(m); for (;;) { cv.wait(l,[&]{ return state==1||state==3; }); if (state==3) return; l.unlock(); pthread_attr_t at; pthread_getattr_np(pthread_self(),&at); void *b; size_t n; pthread_attr_getstack(&at,&b,&n); pthread_attr_destroy(&at); rec.acc.clear(); rec.mine.clear(); rec.locks.clear(); rec.guard=0; rec.s0=(uintptr_t)b; rec.s1=rec.s0+n; t_rec=&rec; job(); t_rec=nullptr; l.lock(); state=2; cv.notify_all(); } }); } void run(std::function<void()> j) { unique_lock<std::mutex> l(m); job=j; state=1; cv.notify_all(); cv.wait(l,[&]{ return state==2; }); } };
static Runner& runner(int i) { static pid_t owner=0; static Runner *r[2]={nullptr,nullptr}; if (owner!=getpid()) { owner=getpid(); r[0]=new Runner; r[1]=new Runner; } return *r[i]; }
static bool common(int a, int b) { if (a<0||b<0) return false; for (auto x : g_locksets[a]) for (auto y : g_locksets[b]) if (x==y) return true; return false; }
static void races(mc::Ctx& c) {
    g_dir=c.scratch; int kind=c.pick(NKIND), rel=c.pick(4); unique_ptr<Obj> o(make(kind)), k(o->clone()), k2; Obj *a=o.get(), *b=k.get(); if (rel==1) { k2.reset(o->clone()); a=k.get(); b=k2.get(); } else if (rel==2) { k2.reset(k->clone()); b=k2.get(); } else if (rel==3) { k2.reset(k->clone()); a=k.get(); b=k2.get(); } int n=o->nops(); int x=c.pick(n), y=c.pick(n); bool warm=c.flip(); if (refused(kind,x)||refused(kind,y)) return; static const char *RL[]={"original and clone","two clones","original and clone of its clone","clone and its clone"}; c.noteL([&]{ return mc::fmt("%s: %s, operations %d and %d",KN[kind],RL[rel],x,y); }); expect(kind,x); expect(kind,y); if (warm) { a->eval(y); b->eval(x); }
    V ra, rb; runner(0).run([&]{ t_busy=true; V t; t_busy=false; t=a->eval(x); t_busy=true; ra=t; t_busy=false; }); runner(1).run([&]{ V t=b->eval(y); t_busy=true; rb=t; t_busy=false; }); c.step(2); same(c,kind,x,ra,"first"); same(c,kind,y,rb,"second");
    Rec &A=runner(0).rec, &B=runner(1).rec; c.require((kind>=19&&kind<=22)||kind==36 ? true : !A.acc.empty(),"%s: nothing was recorded",KN[kind]); unordered_map<uintptr_t,vector<const Acc*>> m; mc::u64 h=kind*100+rel; for (auto& q : A.acc) { if (!q.n) continue; for (uintptr_t u=q.a>>3;u<=(q.a+q.n-1)>>3;u++) m[u].push_back(&q); } for (auto& q : B.acc) { if (!q.n) continue; for (uintptr_t u=q.a>>3;u<=(q.a+q.n-1)>>3;u++) { auto it=m.find(u); if (it==m.end()) continue; for (auto *p : it->second) if ((p->w||q.w)&&!(p->atomic&&q.atomic)&&!common(p->locks,q.locks)&&p->a<q.a+q.n&&q.a<p->a+p->n) c.require(false,"%s: %s: concurrent evaluations (operations %d and %d) access %s without synchronisation (%s and %s)",KN[kind],RL[rel],x,y,q.what[0]=='a'?q.what:p->what[0]=='a'?p->what:"the same memory",p->w?"write":"read",q.w?"write":"read"); } } c.state(mc::mix(h,A.acc.size()*64+B.acc.size())); }
int main(int argc, char **argv) { H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr);
    return mc::run(argc, argv, "K01", { {"concurrent", races, 3, "38 classes and configurations x 4 relations (original/clone, clones, clones of clones) x all pairs of evaluations, first use and later use; access footprints must be independent, so that all interleavings of the pair are equivalent to the one executed"} }); }
#endif
