/* D04: distribution functions loaded from files of every supported kind. */
#include "coderef.h"
#include "fieldref.h"
#include <hdf5.h>
#include <softlib/DistributionFunction/DREAMDistributionFunction.h>
#include <softlib/DistributionFunction/LUKEDistributionFunction.h>
#include <softlib/DistributionFunction/SOFTDistributionFunction.h>
#include <softlib/DistributionFunction/deprSOFTDistributionFunction.h>
#include <softlib/SFile.h>
#include <softlib/SFileException.h>
static const char *EXT[]={"h5","mat"};
/* files left open by a refused load are of no interest here */
static void sweep() { hid_t ids[64]; ssize_t n; while ((n=H5Fget_obj_ids(H5F_OBJ_ALL,H5F_OBJ_FILE,64,ids))>0) for (ssize_t i=0;i<n;i++) H5Fclose(ids[i]); }
typedef unique_ptr<SFile> S;
static S create(const string& fn) { unlink(fn.c_str()); return S(SFile::Create(fn,SFILE_MODE_WRITE)); }
static void arr(SFile& s, const string& n, const V& v, size_t r, size_t k) { vector<const double*> p; for (size_t i=0;i<r;i++) p.push_back(v.data()+i*k); s.WriteArray(n,p.data(),r,k); }
/* a vector as list, row or column; deformed: 1 too short, 2 too long, 3 a matrix */
static void vec(SFile& s, const string& n, V v, int shape, int bad=0) { if (bad==1) v.pop_back(); else if (bad==2) v.push_back(v.back()+1); else if (bad==3) { V w=v; w.insert(w.end(),v.begin(),v.end()); arr(s,n,w,2,v.size()); return; } if (shape==0) s.WriteList(n,v.data(),v.size()); else if (shape==1) arr(s,n,v,1,v.size()); else arr(s,n,v,v.size(),1); }
struct Dist { V r; vector<Ms> m; double at(double R, double P, double X) const { size_t n=r.size(); if (n==1) return m[0].at(P,X); size_t k=0; while (k+2<n&&R>=r[k+1]) k++; double t=(R-r[k])/(r[k+1]-r[k]); return (1-t)*m[k].at(P,X)+t*m[k+1].at(P,X); } };
static void momentum(mc::Ctx& c, std::function<double(double,double)> f, const Ms& m, bool lin, const char *what) { double S=m.scale(); for (size_t i=0;i<m.np();i++) for (size_t j=0;j<m.nx();j++) { double g=f(m.p[i],m.xi[j]), e=m.f[j*m.np()+i]; c.step(); c.state(mc::hdbl(g)); c.require(near(g,e,S,1e-9),"%s: node (%zu,%zu) is %.12g instead of %.12g",what,i,j,g,e); if (lin&&i+1<m.np()&&j+1<m.nx()) { double P=m.p[i]+0.4*(m.p[i+1]-m.p[i]), X=m.xi[j]+0.7*(m.xi[j+1]-m.xi[j]); g=f(P,X); e=m.at(P,X); c.require(near(g,e,S,1e-9),"%s: (%g,%g) is %.12g instead of %.12g",what,P,X,g,e); } } double d=m.p.back()-m.p.front(); c.require(f(m.p.back()+0.01*d,m.xi[0])==0&&f(m.p.front()-0.01*d,m.xi[0])==0&&f(m.p[0],m.xi.back()+0.01)==0,"%s: not zero outside",what); }
static void whole(mc::Ctx& c, DistributionFunction& d, const Dist& D, bool lin, const char *what) { for (size_t k=0;k<D.r.size();k++) { momentum(c,[&](double p, double x){ return d.Eval(D.r[k],p,x); },D.m[k],lin,what); if (k+1<D.r.size()) { double R=D.r[k]+0.3*(D.r[k+1]-D.r[k]); const Ms& m=D.m[k]; for (size_t i=0;i<m.np();i++) for (size_t j=0;j<m.nx();j++) { double P=m.p[i], X=m.xi[j]; if (!lin && !(D.m[k+1].p==m.p&&D.m[k+1].xi==m.xi)) continue; double e=D.at(R,P,X), g=d.Eval(R+0.125,P,X,0.125); c.require(near(g,e,m.scale(),1e-9),"%s: between radii (%g,%g,%g) is %.12g instead of %.12g",what,R,P,X,g,e); } } } }
template<class F> static bool refuses(F f) { try { f(); return false; } catch (SOFTLibException&) { sweep(); return true; } }
static int nitp(bool cubic) { return cubic? NDF::INTERPOLATION_CUBIC : NDF::INTERPOLATION_LINEAR; }
static const double AXR=1.625;
static unique_ptr<PlainField> field() { unique_ptr<PlainField> f(new PlainField(AXR,0.1)); static double r[]={1,2.5,2.5,1}, z[]={-1,-1,1,1}; f->SetDomain(r,z,4); return f; }
static Ms space(int np, int nx, int k, bool lg, double p1=3, bool same=false) { Ms m; m.lg=lg; m.p=lattice(same?0.25:0.25*k,p1,np); m.xi=lattice(same?-1:-1+0.125*k,1,nx); for (int j=0;j<nx;j++) for (int i=0;i<np;i++) m.f.push_back(val(i,j,k)*(1+k)); return m; }
/* ---------------- SOFT ---------------- */
struct SoftFile { V r; vector<Ms> m; int type=0, fmt=0, sr=0, sp=0, sx=0; int missing=-1, bad=-1, kind=0; bool ftr=false; void write(const string& fn) const { S s=create(fn); if (type==1) s->WriteString("type","distribution/soft"); else if (type==2) s->WriteString("type","distribution/other"); if (missing!=0) vec(*s,"r",r,sr,bad==0?kind:0); for (size_t k=0;k<m.size();k++) { string g="r"+to_string(k); s->CreateStruct(g); bool here=k==m.size()-1; if (!(here&&missing==1)) vec(*s,g+"/p",m[k].p,sp,here&&bad==1?kind:0); if (!(here&&missing==2)) vec(*s,g+"/xi",m[k].xi,sx,here&&bad==2?kind:0); if (!(here&&missing==3)) { if (here&&ftr) arr(*s,g+"/f",m[k].f,m[k].np(),m[k].nx()); else arr(*s,g+"/f",m[k].f,m[k].nx(),m[k].np()); } } s->Close(); } };
static void soft(mc::Ctx& c) { SoftFile F; F.fmt=c.pick(2); int nr=1+c.pick(3); bool lg=c.flip(), cub=c.flip(), mf=c.flip(); F.type=c.pick(2); int sh=c.pick(9); F.sr=sh%3; F.sp=sh/3; F.sx=(sh+1)%3; int dn=c.pick(3); for (int k=0;k<nr;k++) { F.r.push_back(0.25+0.125*k*(k+1)); F.m.push_back(space(4+(k*dn)%3,5+(k+dn)%2,dn?k:0,lg)); if (!dn) for (auto& v : F.m[k].f) v*=k+1; } string fn=c.scratch+"/s."+EXT[F.fmt]; F.write(fn); c.noteL([&]{ return mc::fmt("%s, %d radii, %s%s, %s field, shapes %d",EXT[F.fmt],nr,lg?"logarithmic ":"",cub?"cubic":"linear",mf?"with":"without",sh); }); auto f=field(); Dist D; D.r=F.r; D.m=F.m; if (mf) for (auto& x : D.r) x+=AXR;
    unique_ptr<SOFTDistributionFunction> d(new SOFTDistributionFunction(fn,mf?f.get():nullptr,lg,nitp(cub))); whole(c,*d,D,!cub,"SOFT"); F.write(fn); /* the file is free again */ unique_ptr<NDF> k(d->MinClone()); d.reset(); whole(c,*k,D,!cub,"clone");
    for (int i=0;i<=nr;i++) { unique_ptr<NMS> m; bool no=refuses([&]{ m.reset(SOFTDistributionFunction::LoadMomentumSpace(fn,mf?f.get():nullptr,lg,i,nitp(cub))); }); c.require(no==(i==nr),"momentum space %d of %d %s",i,nr,no?"refused":"accepted"); if (m) momentum(c,[&](double p, double x){ return m->Eval(p,x); },F.m[i],!cub,"SOFT momentum space"); } unlink(fn.c_str()); }
static void softbad(mc::Ctx& c) { SoftFile F; F.fmt=c.pick(2); int nr=1+c.pick(3); for (int k=0;k<nr;k++) { F.r.push_back(0.25+0.25*k); F.m.push_back(space(4,5,k,false)); } int what=c.pick(4+9+2+2*nr); bool ok=false; if (what<4) F.missing=what; else if (what<13) { F.bad=(what-4)/3; F.kind=1+(what-4)%3; if (F.bad==0&&F.kind==1&&nr==1) return; /* an empty list */ if (F.bad==0&&F.kind==1) { ok=true; } if (F.bad==0&&F.kind==3&&nr==1) ok=false; } else if (what==13) F.ftr=true; else if (what==14) F.type=2; else { int q=(what-15)/2; if (q==0) { ok=true; } else { if ((what-15)%2) F.r[q]=F.r[q-1]; else swap(F.r[q],F.r[q-1]); } if (q==0&&(what-15)%2) return; }
    string fn=c.scratch+"/s."+EXT[F.fmt]; F.write(fn); c.noteL([&]{ return mc::fmt("SOFT %s damage %d of %d radii",EXT[F.fmt],what,nr); }); auto f=field(); unique_ptr<SOFTDistributionFunction> d; bool no=refuses([&]{ d.reset(new SOFTDistributionFunction(fn,f.get(),false,nitp(false))); }); c.step(); c.require(no==!ok,"the file is %s",no?"refused":"accepted"); bool no2=refuses([&]{ unique_ptr<NMS> m(SOFTDistributionFunction::LoadMomentumSpace(fn,f.get(),false,0,nitp(false))); }); c.require(no2==!ok,"for a momentum space the file is %s",no2?"refused":"accepted"); unlink(fn.c_str()); }
/* ---------------- old SOFT ---------------- */
static const double UNIT[]={5.109989461e5,1,9.10938356e-31*299792458.0}; static const char *UN[]={"ev","normalized","si","gev"};
struct DeprFile { V r; Ms m; V f; int fmt=0, sr=0, sp=0, sx=0, sf=0, unit=1, ver[3]={0,0,0}, missing=-1, bad=-1, kind=0; void write(const string& fn) const { S s=create(fn); V p=m.p; for (auto& x : p) x*= unit<3? UNIT[unit] : 1; if (missing!=0) vec(*s,"r",r,sr,bad==0?kind:0); if (missing!=1) vec(*s,"p",p,sp,bad==1?kind:0); if (missing!=2) vec(*s,"xi",m.xi,sx,bad==2?kind:0); size_t N=m.np()*m.nx(); if (missing!=3) { V g=f; if (bad==3) { if (kind==1) g.pop_back(); else if (kind==2) g.push_back(1); if (kind==3) arr(*s,"f",g,m.np(),g.size()/m.np()); else arr(*s,"f",g,1,g.size()); } else if (sf==0) arr(*s,"f",g,r.size(),N); else if (sf==1) arr(*s,"f",g,1,g.size()); else arr(*s,"f",g,g.size(),1); } if (missing!=4) s->WriteString("punits",UN[unit]); static const char *VN[]={"fp0","fxi0","fr0"}; size_t n[]={m.np(),m.nx(),r.size()}, st[]={1,m.np(),N}; for (int k=0;k<3;k++) if (ver[k]) { V v; size_t cnt= ver[k]==3||ver[k]==7? n[k]+1 : ver[k]==4? max<size_t>(1,n[k]-1) : n[k]; for (size_t i=0;i<cnt;i++) v.push_back(i<n[k]? f[i*st[k]] : 1); if (ver[k]==2) v.back()*=1.0001; if (ver[k]==5) v.front()= v.front()==0? 1e-3 : v.front()*1.001; vec(*s,VN[k],v,ver[k]>=6?2:1); } s->Close(); } };
static DeprFile dbase(mc::Ctx& c, int nr, bool lg) { DeprFile F; F.m=space(4,5,0,lg); for (int k=0;k<nr;k++) { F.r.push_back(1.75+0.125*k*(k+1)); for (double v : F.m.f) F.f.push_back(v*(1+k)+0.0625*k); } return F; }
static Dist ddist(const DeprFile& F) { Dist D; D.r=F.r; for (size_t k=0;k<F.r.size();k++) { Ms m=F.m; m.f.assign(F.f.begin()+k*F.m.f.size(),F.f.begin()+(k+1)*F.m.f.size()); D.m.push_back(m); } return D; }
static void depr(mc::Ctx& c) { int nr=1+c.pick(3); bool lg=c.flip(), cub=c.flip(); DeprFile F=dbase(c,nr,lg); F.fmt=c.pick(2); F.unit=c.pick(3); F.sf=c.pick(3); int sh=c.pick(9); F.sr=sh%3; F.sp=sh/3; F.sx=(sh+1)%3; if (nr==1&&F.sf==0) F.sf=1; string fn=c.scratch+"/d."+EXT[F.fmt]; F.write(fn); c.noteL([&]{ return mc::fmt("%s, %d radii, %s%s, units %s, shapes %d %d",EXT[F.fmt],nr,lg?"logarithmic ":"",cub?"cubic":"linear",UN[F.unit],sh,F.sf); }); Dist D=ddist(F); auto f=field();
    auto tiny=[&](double){ return 0.0; }; (void)tiny; for (auto& m : D.m) for (auto& x : m.p) { double raw=x*UNIT[F.unit]; x=raw/UNIT[F.unit]; } unique_ptr<deprSOFTDistributionFunction> d(new deprSOFTDistributionFunction(fn,f.get(),lg,nitp(cub))); whole(c,*d,D,!cub,"old SOFT"); F.write(fn); unique_ptr<NDF> k(d->MinClone()); d.reset(); whole(c,*k,D,!cub,"clone"); for (int i=0;i<=nr;i++) { unique_ptr<NMS> m; bool no=refuses([&]{ m.reset(deprSOFTDistributionFunction::LoadMomentumSpace(fn,f.get(),lg,i,nitp(cub))); }); c.require(no==(i==nr),"momentum space %d of %d %s",i,nr,no?"refused":"accepted"); if (m) momentum(c,[&](double p, double x){ return m->Eval(p,x); },D.m[i],!cub,"old SOFT momentum space"); } unlink(fn.c_str()); }
static void deprver(mc::Ctx& c) { int nr=1+c.pick(3); DeprFile F=dbase(c,nr,false); F.fmt=c.pick(2); F.sf=c.pick(2); if (nr==1&&F.sf==0) return; bool ok=true; for (int k=0;k<3;k++) { F.ver[k]=c.pick(8); if (F.ver[k]==2||F.ver[k]==3||F.ver[k]==5||F.ver[k]==7) ok=false; } int zero=c.pick(5); if (zero>2) { if (F.fmt||F.sf) return; double q=ldexp(1,zero==3?-70:50); for (auto& v : F.f) v*=q; } else if (zero) { F.f[zero==1?0:1]=0; if (zero==1 && (F.ver[0]==2||F.ver[1]==2||F.ver[2]==2) && nr==1) return; } string fn=c.scratch+"/d."+EXT[F.fmt]; F.write(fn); c.noteL([&]{ return mc::fmt("%s, %d radii, verification %d %d %d",EXT[F.fmt],nr,F.ver[0],F.ver[1],F.ver[2]); }); unique_ptr<deprSOFTDistributionFunction> d; bool no=refuses([&]{ d.reset(new deprSOFTDistributionFunction(fn,nullptr,false,nitp(false))); }); c.step(); c.require(no==!ok,"the file is %s",no?"refused":"accepted"); if (d) whole(c,*d,ddist(F),true,"verified"); unlink(fn.c_str()); }
static void deprbad(mc::Ctx& c) { int nr=1+c.pick(3); DeprFile F=dbase(c,nr,false); F.fmt=c.pick(2); F.sf=1; int what=c.pick(5+12+1); if (what<5) F.missing=what; else if (what<17) { F.bad=(what-5)/3; F.kind=1+(what-5)%3; if (F.bad==0&&F.kind==1&&nr==1) return; if (F.bad==3&&F.kind==3&&nr*5==1) return; } else F.unit=3; string fn=c.scratch+"/d."+EXT[F.fmt]; F.write(fn); c.noteL([&]{ return mc::fmt("old SOFT %s damage %d of %d radii",EXT[F.fmt],what,nr); }); bool no=refuses([&]{ unique_ptr<NDF> d(new deprSOFTDistributionFunction(fn,nullptr,false,nitp(false))); }); c.step(); c.require(no,"the file is accepted"); c.require(refuses([&]{ unique_ptr<NMS> d(deprSOFTDistributionFunction::LoadMomentumSpace(fn,nullptr,false,0,nitp(false))); }),"the file is accepted for a momentum space"); unlink(fn.c_str()); }
/* ---------------- LUKE ---------------- */
struct LukeFile { V x; Ms m; V f; double beta=0.0625; int fmt=0, sr=0, sp=0, sx=0, missing=-1, bad=-1, kind=0; void write(const string& fn) const { S s=create(fn); V p=m.p; for (auto& q : p) q/=beta; if (missing!=0) vec(*s,"xrhoG",x,sr,bad==0?kind:0); if (missing!=1) vec(*s,"pn",p,sp,bad==1?kind:0); if (missing!=2) vec(*s,"mhu",m.xi,sx,bad==2?kind:0); if (missing!=3) { V b={beta}; if (bad==3) b.push_back(1); vec(*s,"betath_ref",b,1,bad==3&&kind==3?3:0); } if (missing!=4) { sfilesize_t d[]={x.size(),m.nx(),m.np()}; if (bad==4) { if (kind==1) swap(d[1],d[2]); else if (kind==2) { sfilesize_t e[]={1,x.size(),m.nx(),m.np()}; s->WriteMultiArray("f",f.data(),4,e); s->Close(); return; } else { arr(*s,"f",f,x.size(),m.nx()*m.np()); s->Close(); return; } } s->WriteMultiArray("f",f.data(),3,d); } s->Close(); } };
static LukeFile lbase(int nr, bool lg) { LukeFile F; F.m=space(4,5,0,lg); for (int k=0;k<nr;k++) { F.x.push_back(nr==1?0.5:0.0625+0.125*k*(k+1)); for (double v : F.m.f) F.f.push_back(v*(1+k)+0.0625*k); } return F; }
static Dist ldist(const LukeFile& F, double a, double b) { Dist D; for (double x : F.x) D.r.push_back(a+x*(b-a)); for (size_t k=0;k<F.x.size();k++) { Ms m=F.m; for (auto& p : m.p) p=p/F.beta*F.beta; m.f.assign(F.f.begin()+k*F.m.f.size(),F.f.begin()+(k+1)*F.m.f.size()); D.m.push_back(m); } return D; }
static void luke(mc::Ctx& c) { int nr=1+c.pick(3); bool lg=c.flip(), cub=c.flip(); LukeFile F=lbase(nr,lg); F.fmt=c.pick(2); static const double B[]={0.0625,1,2,0.1,16}; F.beta=B[c.pick(5)]; int sh=c.pick(9); F.sr=sh%3; F.sp=sh/3; F.sx=(sh+1)%3; string fn=c.scratch+"/l."+EXT[F.fmt]; F.write(fn); c.noteL([&]{ return mc::fmt("LUKE %s, %d radii, %s%s, beta %g, shapes %d",EXT[F.fmt],nr,lg?"logarithmic ":"",cub?"cubic":"linear",F.beta,sh); }); auto f=field(); Dist D=ldist(F,AXR,2.5); unique_ptr<LUKEDistributionFunction> d(new LUKEDistributionFunction(fn,f.get(),lg,nitp(cub))); whole(c,*d,D,!cub,"LUKE"); F.write(fn); unique_ptr<NDF> k(d->MinClone()); d.reset(); whole(c,*k,D,!cub,"clone"); for (int i=0;i<=nr;i++) { unique_ptr<NMS> m; bool no=refuses([&]{ m.reset(LUKEDistributionFunction::LoadMomentumSpace(fn,f.get(),lg,i,nitp(cub))); }); c.require(no==(i==nr),"momentum space %d of %d %s",i,nr,no?"refused":"accepted"); if (m) momentum(c,[&](double p, double x){ return m->Eval(p,x); },D.m[i],!cub,"LUKE momentum space"); } unlink(fn.c_str()); }
static void lukebad(mc::Ctx& c) { int nr=1+c.pick(3); LukeFile F=lbase(nr,false); F.fmt=c.pick(2); int what=c.pick(5+15); if (what<5) F.missing=what; else { F.bad=(what-5)/3; F.kind=1+(what-5)%3; if (F.bad==0&&F.kind==1&&nr==1) return; } string fn=c.scratch+"/l."+EXT[F.fmt]; F.write(fn); c.noteL([&]{ return mc::fmt("LUKE %s damage %d of %d radii",EXT[F.fmt],what,nr); }); auto f=field(); c.step(); c.require(refuses([&]{ unique_ptr<NDF> d(new LUKEDistributionFunction(fn,f.get(),false,nitp(false))); }),"the file is accepted"); c.require(refuses([&]{ unique_ptr<NMS> d(LUKEDistributionFunction::LoadMomentumSpace(fn,f.get(),false,0,nitp(false))); }),"the file is accepted for a momentum space"); unlink(fn.c_str()); }
/* ---------------- DREAM ---------------- */
struct DreamFile { V t, r; Ms m[2]; V f[2]; bool has[2]={true,true}; bool other=false; int missing=-1, bad=-1, kind=0; void write(const string& fn) const { S s=create(fn); s->CreateStruct("eqsys"); s->CreateStruct("grid"); static const char *G[]={"runaway","hottail"}, *N[]={"f_re","f_hot"}; auto lst=[&](const string& n, V v, int id){ if (missing==id) return; vec(*s,n,v,0,bad==id?kind:0); }; lst("grid/t",t,0); lst("grid/r",r,1); for (int k=0;k<2;k++) { s->CreateStruct(string("grid/")+G[k]); lst(string("grid/")+G[k]+"/p1",m[k].p,2+2*k); lst(string("grid/")+G[k]+"/p2",m[k].xi,3+2*k); if (!has[k]) continue; sfilesize_t d[]={t.size(),r.size(),m[k].nx(),m[k].np()}; if (bad==6+k) { if (kind==1) swap(d[2],d[3]); else if (kind==2) swap(d[0],d[1]); else { d[1]*=d[0]; s->WriteMultiArray(string("eqsys/")+N[k],f[k].data(),3,d+1); continue; } } s->WriteMultiArray(string("eqsys/")+N[k],f[k].data(),4,d); } if (other) { s->CreateStruct("other"); sfilesize_t d[]={t.size(),r.size(),m[0].nx(),m[0].np()}; V g=f[0]; for (auto& v : g) v*=7; s->WriteMultiArray("other/f_re",g.data(),4,d); s->WriteMultiArray("eqsys/n",g.data(),4,d); s->WriteMultiArray("eqsys/re",g.data(),4,d); sfilesize_t dh[]={t.size(),r.size(),m[1].nx(),m[1].np()}; s->WriteMultiArray("eqsys/f_hot2",f[1].data(),4,dh); s->WriteMultiArray("eqsys/f_re_",g.data(),4,d); } s->Close(); } };
static DreamFile rbase(int nt, int nr, bool lg) { DreamFile F; for (int k=0;k<nt;k++) F.t.push_back(0.5*k); for (int k=0;k<nr;k++) F.r.push_back(0.125+0.125*k*(k+1)); for (int q=0;q<2;q++) { F.m[q]=space(4+q,6-2*q,q,lg,3+q); for (int a=0;a<nt;a++) for (int k=0;k<nr;k++) for (double v : F.m[q].f) F.f[q].push_back(v*(1+k)*(1+0.5*a)+0.0625*k+0.125*a+q); } return F; }
static void dream(mc::Ctx& c) { int nt=1+c.pick(3), nr=1+c.pick(3); bool lg=c.flip(), cub=c.flip(), mf=c.flip(); DreamFile F=rbase(nt,nr,lg); int have=c.pick(4); F.has[0]=have!=1&&have!=3; F.has[1]=have!=0&&have!=3; F.other=true; static const char *NM[]={"","f_re","f_hot","/eqsys/f_re","/eqsys/f_hot","/other/f_re","f","n","re","f_cold","/other/f_hot","/n","f_hot2","f_re_"}; int ni=c.pick(14), ts=c.pick(2*nt+2)-nt-1; string nm=NM[ni]; int which= ni==0? (F.has[0]?0:1) : ni==1||ni==3? 0 : ni==2||ni==4? 1 : ni==5? 2 : -1; bool ok= which==2 || (which>=0&&F.has[which]); int ti=ts<0? nt+ts : ts; if (ti<0||ti>=nt) ok=false; if (ni>=6 && ts!=0) return;
    string fn=c.scratch+"/r.h5"; F.write(fn); c.noteL([&]{ return mc::fmt("DREAM %d times %d radii, %s%s, %s field, contains %d, name '%s' step %d",nt,nr,lg?"logarithmic ":"",cub?"cubic":"linear",mf?"with":"without",have,nm.c_str(),ts); }); auto f=field(); unique_ptr<DREAMDistributionFunction> d; bool no=refuses([&]{ d.reset(new DREAMDistributionFunction(fn,mf?f.get():nullptr,nm,ts,lg,nitp(cub))); }); c.step(); c.require(no==!ok,"%s",no?"refused":"accepted"); if (d) { Dist D; D.r=F.r; if (mf) for (auto& x : D.r) x+=AXR; const Ms& m=F.m[which%2]; size_t N=m.f.size(); for (int k=0;k<nr;k++) { Ms q=m; for (size_t i=0;i<N;i++) q.f[i]=F.f[which%2][(ti*nr+k)*N+i]*(which==2?7:1); D.m.push_back(q); } whole(c,*d,D,!cub,"DREAM"); F.write(fn); unique_ptr<NDF> k(d->MinClone()); whole(c,*k,D,!cub,"clone"); d.reset(); whole(c,*k,D,!cub,"clone after deleting the original"); } unlink(fn.c_str()); }
static void dreambad(mc::Ctx& c) { int nt=2+c.pick(2), nr=1+c.pick(3); DreamFile F=rbase(nt,nr,false); int sel=c.pick(2), what=c.pick(6+24+2*nr); bool rel[8]={true,true,sel==0,sel==0,sel==1,sel==1,sel==0,sel==1}; bool ok; if (what<6) { F.missing=what; ok=!rel[what]; } else if (what<30) { F.bad=(what-6)/3; F.kind=1+(what-6)%3; if (F.bad==1&&F.kind==1&&nr==1) return; ok=!rel[F.bad]; if (F.bad>=6&&F.kind==2&&nt==nr) ok=true; } else { int q=(what-30)/2; ok=q==0; if (q==0&&(what-30)%2) return; if (q) { if ((what-30)%2) F.r[q]=F.r[q-1]; else swap(F.r[q],F.r[q-1]); } } string fn=c.scratch+"/r.h5"; F.write(fn); c.noteL([&]{ return mc::fmt("DREAM damage %d of %d times %d radii, %s",what,nt,nr,sel?"f_hot":"f_re"); }); unique_ptr<NDF> d; bool no=refuses([&]{ d.reset(new DREAMDistributionFunction(fn,nullptr,sel?"f_hot":"f_re",0,false,nitp(false))); }); c.step(); c.require(no==!ok,"the file is %s",no?"refused":"accepted"); unlink(fn.c_str()); }
/* ---------------- CODE, GO+CODE ---------------- */
struct CodeData { Ref r; int nt=1; vector<V> f; double delta=0.5, nref=0, Tref=0; int missing=-1, bad=-1, kind=0, shape=0, wrongNxi=0; double norm() const { double T=Tref? Tref:1, n=nref? nref:1; return n/pow(2*M_PI*9.10938356e-31*T,1.5); } void put(SFile& s, const string& pre) const { V y=r.p; for (auto& v : y) v/=delta; if (missing!=0) vec(s,pre+"y",y,shape,bad==0?kind:0); auto sc=[&](const char *n, double v, int id){ if (missing==id) return; V x={v}; vec(s,pre+n,x,1,bad==id?kind+1:0); }; sc("delta",delta,1); sc("Nxi",r.nl+wrongNxi,2); if (nref) sc("nref",nref,4); if (Tref) sc("Tref",Tref,5); if (missing!=3) { V all; for (auto& q : f) all.insert(all.end(),q.begin(),q.end()); size_t n=f[0].size(); if (bad==3) { if (kind==1) arr(s,pre+"f",all,n,f.size()); else { all.resize(f.size()*(n-1)); arr(s,pre+"f",all,f.size(),n-1); } } else arr(s,pre+"f",all,f.size(),n); } } };
static CodeData cdata(int itp, int np, int nl, int nt, int k, int norm) { CodeData d; IT(0); d.r.itp=itp; d.r.nl=nl; d.r.p=lattice(0.25*k,3,np); d.nt=nt; d.nref= norm&1? 2e19 : 0; d.Tref= norm&2? 1.5e-16 : 0; for (int t=0;t<nt;t++) { V f; for (int l=0;l<nl;l++) for (int i=0;i<np;i++) f.push_back((l==0?6:1)*val(i,l,k+2*t)); d.f.push_back(f); } return d; }
static Ref at(const CodeData& d, int t) { Ref r=d.r; for (auto& p : r.p) p=p/d.delta*d.delta; for (double v : d.f[t]) r.f.push_back(v*d.norm()); return r; }
static void same(mc::Ctx& c, std::function<double(double,double)> f, const Ref& r, const char *what) { double S=r.S(); for (size_t i=0;i<r.p.size();i++) for (double X : {-1.0,-0.3,0.0,0.8,1.0}) { double P=r.p[i], g=f(P,X), e=r.at(P,X); c.step(); c.state(mc::hdbl(g)); c.require(near(g,e,S,1e-9),"%s: f(%g,%g)=%.12g instead of %.12g",what,P,X,g,e); if (i+1<r.p.size()) { P+=0.3*(r.p[i+1]-P); g=f(P,X); e=r.at(P,X); c.require(near(g,e,S,1e-9),"%s: f(%g,%g)=%.12g instead of %.12g",what,P,X,g,e); } } c.require(f(r.p.back()+0.01,0.5)==0,"%s: not zero outside",what); }
static void mkdirs(SFile& s, string p) { for (size_t i=1;i<=p.size();i++) if (i==p.size()? p.back()!='/' : p[i]=='/') s.CreateStruct(p.substr(0,i)); }
static void code(mc::Ctx& c) { int fmt=c.pick(2), nt=1+c.pick(3), nl=1+c.pick(3), norm=c.pick(4), ts=c.pick(2*nt+2)-nt-1, how=c.pick(2), itp=c.pick(2)*4; static const char *PATH[]={"","a","a/","a/b"}; int pi=c.pick(4), shape=(pi+ts+nt)%3; CodeData d=cdata(itp,6,nl,nt,1,norm); d.delta=(pi+nl)%2?0.5:0.0625; d.shape=shape; string fn=c.scratch+"/c."+EXT[fmt], pre=PATH[pi]; { S s=create(fn); mkdirs(*s,pre); string q=pre; if (!q.empty()&&q.back()!='/') q+='/'; d.put(*s,q); s->Close(); } c.noteL([&]{ return mc::fmt("CODE %s, %d times, %d modes, reference values %d, step %d, path '%s'",EXT[fmt],nt,nl,norm,ts,pre.c_str()); }); int ti=ts<0? nt+ts : ts; bool ok=ti>=0&&ti<nt; unique_ptr<CODE> o; S in; bool no=refuses([&]{ if (how) { in.reset(SFile::Create(fn,SFILE_MODE_READ)); o.reset(new CODE(in.get(),ts,IT(itp),pre)); in->Close(); } else o.reset(new CODE(fn,ts,IT(itp),pre)); }); c.step(); c.require(no==!ok,"%s",no?"refused":"accepted"); if (!o) { in.release(); unlink(fn.c_str()); return; } in.reset(); { S s=create(fn); s->Close(); } Ref r=at(d,ti); same(c,[&](double p, double x){ return o->Eval(p,x); },r,"CODE"); unique_ptr<CODE> k(o->MinClone()); o.reset(); same(c,[&](double p, double x){ return k->Eval(p,x); },r,"clone"); unlink(fn.c_str()); }
static void codebad(mc::Ctx& c) { int fmt=c.pick(2), nt=1+c.pick(3); CodeData d=cdata(0,6,3,nt,0,3); int what=c.pick(4+12+3+3); bool ok=false; if (what<4) d.missing=what; else if (what==19) { d.bad=0; d.kind=3; } else if (what==20) d.wrongNxi=1; else if (what==21) d.wrongNxi=-1; else if (what<16) { d.bad=(what-4)/2; d.kind=1+(what-4)%2; if (d.bad==0&&0) ok=true; } else if (what==16) { d.missing=4; ok=true; d.nref=0; } else if (what==17) { d.Tref=0; ok=true; } else { swap(d.r.p[2],d.r.p[3]); } if (d.bad==3&&d.kind==1&&nt==18) return; string fn=c.scratch+"/c."+EXT[fmt]; { S s=create(fn); d.put(*s,""); s->Close(); } c.noteL([&]{ return mc::fmt("CODE %s damage %d, %d times",EXT[fmt],what,nt); }); bool no=refuses([&]{ CODE o(fn,0,IT(0)); }); c.step(); c.require(no==!ok,"the file is %s",no?"refused":"accepted"); unlink(fn.c_str()); }
/* one object, several files, released in between or not */
static void reload(mc::Ctx& c) { int fmt=c.pick(2); vector<CodeData> F; vector<string> fn; for (int k=0;k<3;k++) { CodeData d=cdata(k==1?4:0,5+k,k==2?1:2+k,1+k%2,k,3*(k%2)); F.push_back(d); fn.push_back(c.scratch+"/c"+to_string(k)+"."+EXT[fmt]); S s=create(fn.back()); d.put(*s,""); s->Close(); } unique_ptr<CODE> o(new CODE); int cur=-1; int D=c.thorough?6:5; mc::u64 h=0; for (int d=0;d<D;d++) { int op=c.pick(5); if (op<3) { c.noteL([&]{ return mc::fmt("load file %d",op); }); o->Load(fn[op],-1,IT(F[op].r.itp)); cur=op; } else if (op==3) { if (cur<0) return; c.note("destroy"); o->Destroy(); cur=-1; } else { if (cur<0) return; c.note("refused file"); bool no=refuses([&]{ o->Load(fn[0],7,IT(0)); }); c.require(no,"time index 7 accepted"); } c.step(); if (cur>=0) { same(c,[&](double p, double x){ return o->Eval(p,x); },at(F[cur],F[cur].nt-1),"CODE"); c.require(o->GetPMin()==at(F[cur],0).p.front(),"smallest momentum"); } h=mc::mix(h,op); c.state(h); } o.reset(); for (auto& f : fn) unlink(f.c_str()); sweep(); }
static void gocode(mc::Ctx& c) { int fmt=c.pick(2), nr=1+c.pick(3), nt=1+c.pick(3), ts=c.pick(2*nt+2)-nt-1, type=c.pick(3), shape=c.pick(3), dmg=c.pick(4+2*nr), norm=c.pick(2)*3; V R; for (int k=0;k<nr;k++) R.push_back(0.125+0.125*k*(k+1)); vector<vector<CodeData>> D(nt); for (int t=0;t<nt;t++) for (int k=0;k<nr;k++) { CodeData d=cdata(0,4+k,1+k,1,k,norm); for (auto& v : d.f[0]) v*=1+t; D[t].push_back(d); } int ti=ts<0? nt+ts : ts; bool ok=ti>=0&&ti<nt&&type!=2; if (!ok&&dmg) return; V W=R; if (dmg==1||dmg==2||dmg==3) ok=false; if (dmg>=4) { int q=(dmg-4)/2; if (q==0) return; ok=false; if ((dmg-4)%2) W[q]=W[q-1]; else swap(W[q],W[q-1]); } string fn=c.scratch+"/g."+EXT[fmt]; { S s=create(fn); if (type) s->WriteString("type",type==1?"distribution/gocode":"distribution/soft"); if (dmg!=1) vec(*s,"r",W,shape,dmg==3?3:0); double n=nt; if (dmg!=2) s->WriteScalar("nt",n); for (int t=0;t<nt;t++) { string g="t"+to_string(t); s->CreateStruct(g); for (int k=0;k<nr;k++) { string h=g+"/r"+to_string(k); s->CreateStruct(h); D[t][k].put(*s,h+"/"); } } s->Close(); } c.noteL([&]{ return mc::fmt("GO+CODE %s, %d radii, %d times, step %d, type %d, damage %d",EXT[fmt],nr,nt,ts,type,dmg); }); auto f=field(); unique_ptr<GOCODE> o; bool no=refuses([&]{ o.reset(new GOCODE(fn,f.get(),ts)); }); c.step(); c.require(no==!ok,"the file is %s",no?"refused":"accepted"); if (!o) { unlink(fn.c_str()); return; } { S s=create(fn); s->Close(); } unlink(fn.c_str()); vector<Ref> rs; for (int k=0;k<nr;k++) rs.push_back(at(D[ti][k],0)); auto chk=[&](GOCODE& g, const char *what){ for (int k=0;k<nr;k++) { same(c,[&](double p, double x){ return g.Eval(R[k]+AXR,p,x); },rs[k],what); if (k+1<nr) { double w=0.3, q=R[k]+w*(R[k+1]-R[k])+AXR, S=rs[k].S(); for (double P : {0.8,1.7,2.9}) for (double X : {-0.5,0.6}) { double e=(1-w)*rs[k].at(P,X)+w*rs[k+1].at(P,X), v=g.Eval(q+0.125,P,X,0.125); c.step(); c.require(near(v,e,S,1e-9),"%s: f(%g,%g,%g)=%.12g instead of %.12g",what,q,P,X,v,e); } } } }; chk(*o,"GO+CODE"); unique_ptr<GOCODE> k(o->MinClone()); o.reset(); chk(*k,"clone"); }
/* many radii, times and grid points */
static V radii(int nr) { V r; for (int k=0;k<nr;k++) r.push_back(0.0625+0.03125*k+0.0078125*(k%2)); return r; }
static Ms big(int np, int nx, int k, bool lg) { Ms m; m.lg=lg; for (int i=0;i<np;i++) m.p.push_back(0.25+0.125*i+0.0078125*(i%3)); for (int j=0;j<nx;j++) m.xi.push_back(-1+2.0*j/(nx-1)); for (int j=0;j<nx;j++) for (int i=0;i<np;i++) m.f.push_back(val(i,j,k)*(1+0.125*k)); return m; }
static void large(mc::Ctx& c) {
    static const vector<array<int,3>> N={{8,9,10},{11,17,12},{20,33,20},{5,65,16},{13,6,64}}; int kind=c.pick(6), fmt=kind==3?0:c.pick(2); auto& n=c.pickOf(N); int nr=n[0], np=n[1], nx=n[2], ti=0, nt=1; bool lg=c.flip(), mf=c.flip(); V R=radii(nr); auto f=field(); string fn=c.scratch+"/b."+EXT[fmt]; Dist D; D.r=R; for (int k=0;k<nr;k++) D.m.push_back(big(np,nx,k,lg)); V all; for (auto& m : D.m) all.insert(all.end(),m.f.begin(),m.f.end()); unique_ptr<DistributionFunction> d; auto note=[&](const char *w){ c.noteL([&]{ return mc::fmt("%s %s, %d radii, %d momenta, %d pitches, %d times, time %d",w,EXT[fmt],nr,np,nx,nt,ti); }); };
    if (kind==0) { note("SOFT"); SoftFile F; F.fmt=fmt; F.r=R; F.m=D.m; F.write(fn); d.reset(new SOFTDistributionFunction(fn,mf?f.get():nullptr,lg,nitp(false))); if (mf) for (auto& x : D.r) x+=AXR; for (int i : {0,nr/2,nr-1}) { unique_ptr<NMS> m(SOFTDistributionFunction::LoadMomentumSpace(fn,nullptr,lg,i,nitp(false))); momentum(c,[&](double p, double x){ return m->Eval(p,x); },D.m[i],true,"SOFT momentum space"); } whole(c,*d,D,true,"SOFT"); }
    else if (kind==1) { note("old SOFT"); DeprFile F; F.fmt=fmt; F.r=R; F.m=D.m[0]; F.f=all; F.sf=mf; F.ver[0]=F.ver[1]=F.ver[2]=1; F.write(fn); d.reset(new deprSOFTDistributionFunction(fn,f.get(),lg,nitp(false))); for (int i : {0,nr/2,nr-1}) { unique_ptr<NMS> m(deprSOFTDistributionFunction::LoadMomentumSpace(fn,nullptr,lg,i,nitp(false))); momentum(c,[&](double p, double x){ return m->Eval(p,x); },D.m[i],true,"old SOFT momentum space"); } whole(c,*d,D,true,"old SOFT"); }
    else if (kind==2) { note("LUKE"); LukeFile F; F.fmt=fmt; F.x=R; F.m=D.m[0]; F.f=all; F.beta= mf? 0.25 : 1; F.write(fn); d.reset(new LUKEDistributionFunction(fn,f.get(),lg,nitp(false))); Dist E=ldist(F,AXR,2.5); for (int i : {0,nr/2,nr-1}) { unique_ptr<NMS> m(LUKEDistributionFunction::LoadMomentumSpace(fn,f.get(),lg,i,nitp(false))); momentum(c,[&](double p, double x){ return m->Eval(p,x); },E.m[i],true,"LUKE momentum space"); } whole(c,*d,E,true,"LUKE"); }
    else if (kind==3) { nt=12; static const int TI[]={0,1,5,10,11,-1,-12}; ti=TI[c.pick(7)]; note("DREAM"); DreamFile F; for (int k=0;k<nt;k++) F.t.push_back(k); F.r=R; F.m[0]=D.m[0]; F.m[1]=space(4,4,0,lg); F.has[1]=false; for (int t=0;t<nt;t++) for (double v : all) F.f[0].push_back(v*(1+0.25*t)); F.write(fn); d.reset(new DREAMDistributionFunction(fn,mf?f.get():nullptr,"f_re",ti,lg,nitp(false))); int q=ti<0? nt+ti : ti; if (mf) for (auto& x : D.r) x+=AXR; for (auto& m : D.m) for (auto& v : m.f) v*=1+0.25*q; whole(c,*d,D,true,"DREAM"); }
    else if (kind==4) { nt=12; static const int TI[]={0,1,5,10,11,-1,-12}; ti=TI[c.pick(7)]; note("CODE"); int nl= nr==13? 150 : nr; CodeData q=cdata(lg?4:0,np,nl,nt,1,mf?3:0); q.r.p.clear(); for (int i=0;i<np;i++) q.r.p.push_back(0.125*i); { S s=create(fn); q.put(*s,""); s->Close(); } unique_ptr<CODE> o(new CODE(fn,ti,IT(lg?4:0),"")); same(c,[&](double p, double x){ return o->Eval(p,x); },at(q,ti<0?nt+ti:ti),"CODE"); }
    else { nt=11; static const int TI[]={0,1,9,10,-1,-11}; ti=TI[c.pick(6)]; if (np>33) return; note("GO+CODE"); int q=ti<0? nt+ti : ti; vector<vector<CodeData>> E(nt); for (int t=0;t<nt;t++) for (int k=0;k<nr;k++) { CodeData e=cdata(0,4+k%3,1+k%5,1,k%7,mf?3:0); for (auto& v : e.f[0]) v*=1+t+0.125*k; E[t].push_back(e); } { S s=create(fn); vec(*s,"r",R,0); s->WriteScalar("nt",(double)nt); for (int t=0;t<nt;t++) { string g="t"+to_string(t); s->CreateStruct(g); for (int k=0;k<nr;k++) { string h=g+"/r"+to_string(k); s->CreateStruct(h); E[t][k].put(*s,h+"/"); } } s->Close(); } GOCODE g(fn,f.get(),ti); for (int k=0;k<nr;k++) { same(c,[&](double p, double x){ return g.Eval(R[k]+AXR,p,x); },at(E[q][k],0),"GO+CODE"); if (k+1<nr) { Ref a=at(E[q][k],0), b=at(E[q][k+1],0); double v=g.Eval(0.5*(R[k]+R[k+1])+AXR,1.75,0.5), e=0.5*(a.at(1.75,0.5)+b.at(1.75,0.5)); c.require(near(v,e,a.S(),1e-9),"GO+CODE between radii %d: %g instead of %g",k,v,e); } } }
    sweep(); unlink(fn.c_str()); c.state(mc::mix(kind*100+nr,lg*4+mf*2+fmt)); }
int main(int argc, char **argv) {
    H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr);
    return mc::run(argc, argv, "D04", {
        {"soft", soft, 3, "2 formats x 1..3 radii with equal or different momentum grids x linear/cubic x logarithmic x with/without field x type present/absent x 9 layouts of the vectors; clones; every radial index"},
        {"large", large, 3, "6 kinds of file x 5 larger sizes (up to 20 radii, 65 momenta, 64 pitches, 150 modes) x up to 12 times with first, middle, two-digit, last and negative time index x logarithmic x with/without field"},
        {"soft-bad", softbad, 2, "every variable missing, too short, too long, a matrix; transposed data, wrong type, radii equal or decreasing at every place"},
        {"old-soft", depr, 3, "1..3 radii x linear/cubic x logarithmic x 2 formats x 3 momentum units x 3 layouts of the data x 9 of the vectors; clones; every radial index"},
        {"old-soft-verification", deprver, 3, "all combinations of the three verification vectors absent, right, wrong, too long, short, nearly right, column, too long column, also of data with a zero, very small or very large"},
        {"old-soft-bad", deprbad, 2, "every variable missing, too short, too long, a matrix, unknown units"},
        {"luke", luke, 3, "1..3 radii x linear/cubic x logarithmic x 2 formats x 5 reference momenta x 9 layouts; clones; every radial index"},
        {"luke-bad", lukebad, 2, "every variable missing, too short, too long, a matrix, data of wrong rank or order"},
        {"dream", dream, 3, "1..3 times x 1..3 radii x linear/cubic x logarithmic x with/without field x 4 sets of distributions x 14 names x every time index from below the first to above the last, both signs; clones"},
        {"dream-bad", dreambad, 2, "every variable of either grid missing or of a wrong size, data of wrong order or rank, radii equal or decreasing at every place"},
        {"code", code, 3, "2 formats x 1..3 times x 1..3 modes x reference values x every time index x by name/by handle x 2 interpolation types x 3 layouts x 4 paths; clones"},
        {"code-bad", codebad, 2, "every variable missing or of a wrong size, reference values absent, momenta out of order"},
        {"code-reload", reload, 3, "all sequences of 5 (thorough 6) loads of 3 different files, refused loads and releases of one object, 2 formats"},
        {"gocode", gocode, 3, "2 formats x 1..3 radii with different grids x 1..3 times x every time index x type x layouts x damage; clones"},
    });
}
