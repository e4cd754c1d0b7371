/* M06: LUKE equilibrium files. */
#include "numericcheck.h"
#include <hdf5.h>
#include <softlib/MagneticField/MagneticFieldLUKE.h>
#include <softlib/SFile.h>
#include <softlib/SFileException.h>
typedef vector<double> V;
typedef unique_ptr<MagneticFieldLUKE> L;
static const char *EXT[]={"h5","mat","sdt"}; static const enum sfile_type FT[]={SFILE_TYPE_HDF5,SFILE_TYPE_MATLAB,SFILE_TYPE_SDT};
/* the contents of a file; the field components are matrices (angle, flux) */
struct Eq { string id="EQUIL_test 1"; double Rp=1.9, Zp=0.3, psia=-0.7; V x,y,psin,psi,th,Bx,By,Bt,px,py; V rw,zw; bool wallT=false; int missing=-1, bad=-1; };
static const char *VARS[]={"equil/id","equil/Rp","equil/Zp","equil/eqdsk/x","equil/eqdsk/y","equil/eqdsk/xypsin","equil/eqdsk/psia","equil/psi_apRp","equil/theta","equil/ptBx","equil/ptBy","equil/ptBPHI","equil/ptx","equil/pty"}; static const int NVAR=14;
static V lin(double a, double b, int n) { V v; for (int i=0;i<n;i++) v.push_back(a+(b-a)*i/(n-1)+(i&&i<n-1? n<8? 0.013*i : 0.3*(b-a)/(n-1)*sin(1.7*i) : 0)); return v; }
static Eq make(int nx, int ny, int np, int nt, int axis, int sgn, int pat) {
    Eq e; static const double AX[][3]={{1.9,0.3,-0.7},{3,-0.5,2.5},{1.25,0,0.125}}; e.Rp=AX[axis][0]; e.Zp=AX[axis][1]; e.psia=AX[axis][2]; e.x=lin(-0.6,0.7,nx); e.y=lin(-0.8,0.9,ny); if (pat==2) { int z=0; for (int j=0;j<ny;j++) if (fabs(e.y[j])<fabs(e.y[z])) z=j; e.y[ny<8? ny/2 : z]=0; } if (pat==3) { auto near=[](V& v, double q) { size_t z=0; for (size_t j=0;j<v.size();j++) if (fabs(v[j])<fabs(v[z])) z=j; v[z]=q; }; near(e.y,-1e-6); near(e.x,0); } e.psi= pat==1? lin(0.1,1.3,np) : lin(0,2,np); { static const double PS[]={1,7,0.05}; for (auto& q : e.psi) q*= (sgn?-1:1)*PS[axis]; } e.th=lin(0,2*M_PI,nt);
    for (int j=0;j<ny;j++) for (int i=0;i<nx;i++) { double r=hypot(e.x[i],e.y[j]); double q= r*r*1.1+0.02*i; if (pat==1&&(i+j)%3==0) q=-q; if (pat==2) q=(i*ny+j)%(np+1)/(double)np*1.2; e.psin.push_back(q); }
    for (int t=0;t<nt;t++) for (int k=0;k<np;k++) { e.Bx.push_back(0.3+0.7*k-0.41*t+0.05*k*t); e.By.push_back(-1.5+sin(1.0+k+2.0*t)); e.Bt.push_back(4-0.3*k+0.11*t*t); double a=0.02+0.5*k/(np-1); e.px.push_back(a*cos(e.th[t]+0.1)+0.011*t); e.py.push_back(a*sin(e.th[t]+0.3)+0.017+0.003*t); }
    return e; }
static void put2(SFile *s, const string& n, V v, size_t r, size_t k, int bad) { if (bad==1) { r++; v.resize(r*k,0.5); } if (bad==2) { r--; v.resize(r*k); } if (bad==3) { k++; v.resize(r*k,0.5); } if (bad==4) { k--; v.resize(r*k); } if (bad==5) { k=r*k; r=1; } if (bad==6) { V o; for (size_t j=0;j<k;j++) for (size_t i=0;i<r;i++) o.push_back(v[i*k+j]); v=o; swap(r,k); } vector<const double*> p; for (size_t i=0;i<r;i++) p.push_back(v.data()+i*k); s->WriteArray(n,p.data(),r,k); }
static bool badList(V& v, int bad) { switch (bad) { case 1: v.push_back(v.back()+1); break; case 2: v.pop_back(); break; case 3: swap(v[0],v[1]); break; case 4: v[1]=v[0]; break; case 5: v[v.size()-1]=v[v.size()-2]; break; case 6: v[1]=NAN; break; default: v.resize(1); } return true; }
static void write(const string& fn, const Eq& e, const string& wn="") {
    unique_ptr<SFile> s(SFile::Create(fn,SFILE_MODE_WRITE)); s->CreateStruct("equil"); s->CreateStruct("equil/eqdsk"); auto bad=[&](int id){ return e.bad>=10*id&&e.bad<10*id+10? e.bad-10*id : 0; }; size_t nx=e.x.size(), ny=e.y.size(), np=e.psi.size(), nt=e.th.size(); if (e.missing!=0) s->WriteString(VARS[0],e.id); const double sc[]={e.Rp,e.Zp,e.psia}; int si[]={1,2,6}; for (int q=0;q<3;q++) if (e.missing!=si[q]) { if (bad(si[q])) { double two[]={sc[q],1}; s->WriteList(VARS[si[q]],two,2); } else s->WriteScalar(VARS[si[q]],sc[q]); }
    const V *li[]={&e.x,&e.y,&e.psi,&e.th}; int ln[]={3,4,7,8}; for (int q=0;q<4;q++) if (e.missing!=ln[q]) { V v=*li[q]; if (bad(ln[q])==8) { put2(s.get(),VARS[ln[q]],v,1,v.size(),0); continue; } if (bad(ln[q])==9) { put2(s.get(),VARS[ln[q]],v,v.size(),1,0); continue; } if (bad(ln[q])) badList(v,bad(ln[q])); s->WriteList(VARS[ln[q]],v.data(),v.size()); }
    if (e.missing!=5) put2(s.get(),VARS[5],e.psin,ny,nx,bad(5)); const V *ma[]={&e.Bx,&e.By,&e.Bt,&e.px,&e.py}; for (int q=0;q<5;q++) if (e.missing!=9+q) put2(s.get(),VARS[9+q],*ma[q],nt,np,bad(9+q)); s->Close();
    if (!wn.empty()) { s.reset(SFile::Create(wn,SFILE_MODE_WRITE)); V v; size_t n=e.rw.size(); if (e.wallT) { for (size_t i=0;i<n;i++) { v.push_back(e.rw[i]); v.push_back(e.zw[i]); } put2(s.get(),"wall",v,n,2,0); } else { v=e.rw; v.insert(v.end(),e.zw.begin(),e.zw.end()); put2(s.get(),"wall",v,2,n,0); } s->Close(); } }
/* bilinear, continued linearly beyond the grid */
static double bil(const V& a, const V& b, const V& f, double x, double y) { size_t i=0, j=0, n=a.size(); while (i+2<n&&x>=a[i+1]) i++; while (j+2<b.size()&&y>=b[j+1]) j++; double t=(x-a[i])/(a[i+1]-a[i]), u=(y-b[j])/(b[j+1]-b[j]); return (1-t)*(1-u)*f[j*n+i]+t*(1-u)*f[j*n+i+1]+(1-t)*u*f[(j+1)*n+i]+t*u*f[(j+1)*n+i+1]; }
static Grid meaning(const Eq& e) {
    Grid g; g.name=g.desc=e.id; g.ra=e.Rp; g.za=e.Zp; for (double q : e.x) g.R.push_back(q+e.Rp); for (double q : e.y) g.Z.push_back(q+e.Zp); V s; for (double q : e.psi) s.push_back(fabs(q/e.psi.back())); size_t nx=e.x.size(); g.fill([&](double, double, size_t i, size_t j){ double q=e.psin[j*nx+i], th=atan2(e.y[j],e.x[i]); if (th<0) th+=2*M_PI; return V4{bil(s,e.th,e.Bx,fabs(q),th),bil(s,e.th,e.Bt,fabs(q),th),bil(s,e.th,e.By,fabs(q),th),q*e.psia}; }); for (size_t t=0;t<e.th.size();t++) { size_t k=t*e.psi.size()+e.psi.size()-1; g.rs.push_back(e.px[k]+e.Rp); g.zs.push_back(e.py[k]+e.Zp); } g.rw=e.rw; g.zw=e.zw; return g; }
static void walls(Eq& e, int w, bool t) { static const double W[][2]={{-0.9,-1},{1,-1.1},{1.2,0.9},{-0.8,1.05},{-1,0.2}}; e.rw.clear(); e.zw.clear(); if (!w) return; int n= w==1? 5 : w==2? 3 : 2; for (int i=0;i<n;i++) { e.rw.push_back(e.Rp+W[i][0]); e.zw.push_back(e.Zp+W[i][1]); } e.wallT=t&&n>2; }
static MagneticFieldLUKE *load(const string& f, int fmt, const string& w, int ctor) { if (w.empty()) return ctor&1? new MagneticFieldLUKE(f,FT[fmt]) : new MagneticFieldLUKE(f); switch (ctor%3) { case 0: return new MagneticFieldLUKE(f,w); case 1: return new MagneticFieldLUKE(f,FT[fmt],w); default: return new MagneticFieldLUKE(f,FT[fmt],w,FT[fmt]); } }
static const int NF=2;
static void mapping(mc::Ctx& c) {
    int nx=4+c.pick(3), ny=4+c.pick(2), np=c.pickOf(vector<int>{2,3,5}), nt=c.pickOf(vector<int>{3,4,7}), axis=c.pick(3), sgn=c.pick(2), pat=c.pick(3), w=c.pick(5), fmt=c.pick(NF), ctor=c.pick(c.thorough?3:1)+(c.thorough?0:(nx+np+nt+w)%3); Eq e=make(nx,ny,np,nt,axis,sgn,pat); static const int WK[]={0,1,2,1,3}; walls(e,WK[w],w==3); c.noteL([&]{ return mc::fmt("%dx%d nodes, %d surfaces, %d angles, axis %d, sign %d, pattern %d, wall %d, %s",nx,ny,np,nt,axis,sgn,pat,w,EXT[fmt]); });
    string fn=c.scratch+"/e."+EXT[fmt], wn= w? c.scratch+"/w."+EXT[fmt] : ""; write(fn,e,wn); L f(load(fn,fmt,wn,ctor)); Grid g=meaning(e); check(c,f.get(),g,"loaded"); if (w) unlink(wn.c_str()); unlink(fn.c_str()); F k(f->Clone()); F ref(g.make()); alike(c,f.get(),ref.get(),"loaded"); f.reset(); check(c,k.get(),g,"clone"); alike(c,k.get(),ref.get(),"clone"); c.state(mc::mix(mc::mix(nx*10+ny,np*10+nt),mc::mix(axis*10+pat,w*10+fmt))); }
/* equilibria of practical size */
static void fine(mc::Ctx& c) {
    static const vector<array<int,4>> N={{16,17,9,12},{33,20,17,33},{9,40,33,16},{65,33,20,65}}; auto& n=c.pickOf(N); int axis=c.pick(3), sgn=c.pick(2), pat=c.pick(4), w=c.pick(3), fmt=c.pick(NF); Eq e=make(n[0],n[1],n[2],n[3],axis,sgn,pat); int nw= w==0? 17 : w==1? 301 : 1200; for (int i=0;i<nw;i++) { double a=2*M_PI*i/nw; e.rw.push_back(e.Rp+(1+0.2*cos(3*a))*cos(a)); e.zw.push_back(e.Zp+(1.1+0.1*sin(2*a))*sin(a)); } e.wallT=(axis+pat+fmt)%2; c.noteL([&]{ return mc::fmt("%dx%d nodes, %d surfaces, %d angles, axis %d, sign %d, pattern %d, wall of %d points, %s",n[0],n[1],n[2],n[3],axis,sgn,pat,nw,EXT[fmt]); });
    string fn=c.scratch+"/e."+EXT[fmt], wn=c.scratch+"/w."+EXT[fmt]; write(fn,e,wn); L f(load(fn,fmt,wn,0)); Grid g=meaning(e); check(c,f.get(),g,"loaded"); unlink(wn.c_str()); unlink(fn.c_str()); F k(f->Clone()); f.reset(); check(c,k.get(),g,"clone"); c.state(mc::mix(mc::mix(n[0],axis*10+pat),w*10+fmt)); }
static void damaged(mc::Ctx& c) {
    Eq e=make(5,4,3,4,c.pick(2),c.pick(2),c.pick(2)); int fmt=c.pick(NF), id=c.pick(NVAR), k=c.pick(10); bool wall=c.flip(); walls(e,wall?1:0,false); bool ok=false; if (k==0) e.missing=id; else { bool sc=id==1||id==2||id==6, ls=id==3||id==4||id==7||id==8, ma=!sc&&!ls&&id; if (id==0||(sc&&k>1)||(ma&&k>6)) return; e.bad=10*id+k; if (ls&&k>=8) ok=true; } c.noteL([&]{ return mc::fmt("%s %s %d in %s",VARS[id],k?"damaged":"missing",k,EXT[fmt]); });
    string fn=c.scratch+"/e."+EXT[fmt], wn= wall? c.scratch+"/w."+EXT[fmt] : ""; write(fn,e,wn); L f; try { f.reset(load(fn,fmt,wn,0)); } catch (SOFTLibException&) {} c.step(); c.require((f!=nullptr)==ok,"%s (%s %d): the file is %s",VARS[id],k?"damage":"missing",k,f?"accepted":"refused"); if (f) check(c,f.get(),meaning(e),"layout"); unlink(fn.c_str()); if (wall) unlink(wn.c_str()); c.state(id*100+k*10+fmt); }
/* consistent files of every small size: too small for an interpolation is refused */
static void small(mc::Ctx& c) {
    int nx=1+c.pick(5), ny=1+c.pick(5), np=1+c.pick(3), nt=1+c.pick(3), fmt=c.pick(NF); Eq b=make(5,5,3,3,0,0,0), e=b; e.x.resize(nx); e.y.resize(ny); e.psi.resize(np); e.th.resize(nt); auto cut=[](const V& f, int w, int r, int k) { V o; for (int i=0;i<r;i++) for (int j=0;j<k;j++) o.push_back(f[i*w+j]); return o; }; e.psin=cut(b.psin,5,ny,nx); for (auto f : {&Eq::Bx,&Eq::By,&Eq::Bt,&Eq::px,&Eq::py}) e.*f=cut(b.*f,3,nt,np); bool ok=nx>=4&&ny>=4&&np>=2&&nt>=2; if (ok && nt==2) return; /* a separatrix of two points may miss the axis */ if (ok && np==2) return; walls(e,1,false); c.noteL([&]{ return mc::fmt("%dx%d nodes, %d surfaces, %d angles, %s",nx,ny,np,nt,EXT[fmt]); });
    string fn=c.scratch+"/e."+EXT[fmt], wn=c.scratch+"/w."+EXT[fmt]; write(fn,e,wn); L f; try { f.reset(load(fn,fmt,wn,0)); } catch (SOFTLibException&) {} c.step(); c.require((f!=nullptr)==ok,"%dx%d nodes, %d surfaces, %d angles: the file is %s",nx,ny,np,nt,f?"accepted":"refused"); if (f) check(c,f.get(),meaning(e),"loaded"); unlink(fn.c_str()); unlink(wn.c_str()); c.state(mc::mix(nx*10+ny,np*10+nt)); }
/* walls loaded and replaced */
static void history(mc::Ctx& c) {
    Eq e=make(4,4,2,4,0,0,0); int fmt=c.pick(NF), D=c.thorough?5:4; string fn=c.scratch+"/e."+EXT[fmt]; write(fn,e); L f(load(fn,fmt,"",0)); Grid g=meaning(e); mc::u64 h=fmt; for (int d=0;d<D;d++) { int op=c.pick(8); h=mc::mix(h,op); string wn=c.scratch+"/w."+EXT[fmt]; bool refuse=false, typed=op==2; Eq q=e; static const char *ON[]={"wall of 5 points","wall of 3 points","wall of 5 points in columns, explicit type","no wall","missing wall file","wall of wrong size","no such variable","clone"}; c.noteL([&]{ return string(ON[op]); });
        if (op<3) { walls(q,op==1?2:1,op==2); unique_ptr<SFile> s(SFile::Create(wn,SFILE_MODE_WRITE)); V v; size_t n=q.rw.size(); if (q.wallT) { for (size_t i=0;i<n;i++) { v.push_back(q.rw[i]); v.push_back(q.zw[i]); } put2(s.get(),"wall",v,n,2,0); } else { v=q.rw; v.insert(v.end(),q.zw.begin(),q.zw.end()); put2(s.get(),"wall",v,2,n,0); } s->Close(); } else if (op==3) wn=""; else if (op==4) unlink(wn.c_str()), refuse=true; else if (op<7) { unlink(wn.c_str()); unique_ptr<SFile> s(SFile::Create(wn,SFILE_MODE_WRITE)); V v(9,1.0); if (op==5) put2(s.get(),"wall",v,3,3,0); else put2(s.get(),"walls",v,3,3,0); s->Close(); refuse=true; } else { F k(f->Clone()); check(c,k.get(),g,"clone"); continue; }
        bool thr=false; try { if (typed) f->LoadWall(wn,FT[fmt]); else f->LoadWall(wn); } catch (SOFTLibException&) { thr=true; } c.step(); c.require(thr==refuse,"%s: %s",ON[op],thr?"refused":"accepted"); if (!refuse) { g.rw=q.rw; g.zw=q.zw; } check(c,f.get(),g,"after loading a wall"); c.state(h); } unlink(fn.c_str()); unlink((c.scratch+"/w."+EXT[fmt]).c_str()); }
int main(int argc, char **argv) { H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr);
    return mc::run(argc, argv, "M06", {
        {"mapping", mapping, 3, "grids of 4..6 x 4..5 nodes x 2/3/5 flux surfaces x 3/4/7 angles x 3 axis positions and flux values x flux sign x 3 flux patterns (inside, both signs, beyond the last surface, on the surfaces) x wall {none, rows, triangle, columns, 2 points} x 2 formats x ways to construct: every node, points between, clone"},
        {"fine", fine, 3, "4 larger equilibria (up to 65x33 nodes, 33 surfaces, 65 angles) with walls of 17, 301 and 1200 points; also nodes straight above the axis and a hair below its level"},
        {"damaged", damaged, 3, "every variable missing, too short, too long, transposed, out of order, repeated, not a number, as row or column matrix"},
        {"small", small, 3, "consistent files of all sizes 1..5 x 1..5 nodes x 1..3 surfaces x 1..3 angles"},
        {"history", history, 3, "all sequences of 4 (thorough 5) wall loads (rows, columns, none, missing, wrong size) and clones; the previous wall must survive a refused one"},
    });
}
