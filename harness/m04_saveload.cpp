/* M04: saving, loading and cloning gridded magnetic fields. */
#include "numericcheck.h"
#include <softlib/SFile.h>
#include <softlib/SFileException.h>
using namespace std;
static const char *EXT[]={"h5","mat","sdt"}; static const enum sfile_type FT[]={SFILE_TYPE_HDF5,SFILE_TYPE_MATLAB,SFILE_TYPE_SDT};
static V4 ndata(double, double, size_t i, size_t j) { return { 1.0/3+0.7*i-0.31*j, 2.0-0.11*i*j, -1.5+sin(1.0+i+2.0*j), 0.1*i*i+0.7*j+1e-3 }; }
static const vector<pair<vector<double>,vector<double>>>& grids() { static const vector<pair<vector<double>,vector<double>>> G={ {{1,1.5,2,3},{-1,-0.5,0.125,1,2}}, {{0.5,1,1.75,2,3,3.1},{-1,0,0.5,1.5}}, {{1,2,3,4},{-2,-1,1,2}} };
    static vector<pair<vector<double>,vector<double>>> A; if (A.empty()) { A=G; for (auto d : {make_pair(9,17),make_pair(33,8),make_pair(65,66)}) { vector<double> r,z; for (int i=0;i<d.first;i++) r.push_back(1+2.0*i/d.first+0.001*i*i); for (int j=0;j<d.second;j++) z.push_back(-1+2.0*j/d.second); A.push_back({r,z}); } } return A; }
static Grid base(int gi, int wall, int sep, bool flux) { Grid g; g.R=grids()[gi].first; g.Z=grids()[gi].second; g.fill(ndata); if (gi==2) for (size_t j=0;j<g.nz();j++) for (size_t i=0;i<g.nr();i++) { double x=i-1.5, y=j-1.5; size_t k=i+j*g.nr(); g.Psi[k]=x*x+2*y*y; g.Bz[k]=0.75; } g.ra=1.9; g.za=0.3; g.name="Test field 1"; g.desc="a description; with (punctuation) 100%"; if (!flux) g.Psi.clear(); if (wall) { g.rw={1.1,2.8,2.9,1.05,1.0}; g.zw={-0.9,-0.8,0.9,0.95,0.1}; if (gi>2) { g.rw.clear(); g.zw.clear(); for (int i=0;i<gi*30;i++) { g.rw.push_back(2+0.9*cos(i*2*M_PI/(gi*30))); g.zw.push_back(0.1+0.9*sin(i*2*M_PI/(gi*30))); } } if (wall==2) { g.rw.push_back(g.rw[0]); g.zw.push_back(g.zw[0]); } if (wall==3) { g.rw={1.1,2.9}; g.zw={-0.9,0.8}; } } if (sep) { g.rs={1.3,2.5,2.4,1.25}; g.zs={-0.7,-0.6,0.75,0.8}; if (gi>2) { g.rs.clear(); g.zs.clear(); for (int i=0;i<gi*20+1;i++) { g.rs.push_back(2+0.8*cos(0.1+i*2*M_PI/(gi*20+1))); g.zs.push_back(0.1+0.8*sin(0.1+i*2*M_PI/(gi*20+1))); } } if (sep==2) { g.rs={1.3,2.5,1.9}; g.zs={-0.7,0.6,0.75}; } if (sep==3) { g.rs={1.3,2.5}; g.zs={-0.7,0.75}; } } return g; }
static void roundtrip(mc::Ctx& c) {
    int gi=c.pick(6), wall=c.pick(4), sep=c.pick(4); if ((wall==3||sep==3)&&gi>2) return; bool flux=c.flip(); int fmt=c.pick(3); bool typed=c.flip(), cloneFirst=c.flip(), again=c.flip(); if (!wall && !sep) return; Grid g=base(gi,wall,sep,flux); c.noteL([&]{ return mc::fmt("grid %d, wall %d, separatrix %d, flux %d, format %s",gi,wall,sep,flux,EXT[fmt]); });
    F o(g.make()); check(c,o.get(),g,"original"); F src(cloneFirst? o->Clone() : nullptr); if (src) { check(c,src.get(),g,"clone"); alike(c,src.get(),o.get(),"clone"); } MagneticFieldNumeric2D *s=src? src.get() : o.get(); string fn=c.scratch+"/f."+(typed&&fmt!=2? "dat" : EXT[fmt]);
    try { if (typed) s->Save(fn,FT[fmt]); else s->Save(fn); c.require(true,"-"); } catch (SFileException&) { c.require(fmt==2,"the field cannot be saved"); check(c,s,g,"after refused save"); unlink(fn.c_str()); c.state(77); return; } // SDT has no arrays of rank 2 in this interface
    F l(typed? new MagneticFieldNumeric2D(fn,FT[fmt]) : new MagneticFieldNumeric2D(fn)); check(c,l.get(),g,"loaded"); alike(c,l.get(),o.get(),"loaded"); F k(l->Clone()); l.reset(); src.reset(); check(c,k.get(),g,"clone of loaded"); alike(c,k.get(),o.get(),"clone of loaded");
    if (again) { string f2=c.scratch+"/g."+EXT[fmt]; k->Save(f2); k.reset(); F l2(new MagneticFieldNumeric2D(f2)); check(c,l2.get(),g,"second generation"); alike(c,l2.get(),o.get(),"second generation"); unlink(f2.c_str()); } unlink(fn.c_str()); c.state(mc::mix(gi*1000+wall*100+sep*10+flux,fmt)); }
/* files written by others */
struct Opt { bool tr[4]={false,false,false,false}; bool wallT=false, sepT=false; int ver[3]={0,0,0}; int missing=-1, bad=-1; };
static void put2(SFile *s, const string& n, const vector<double>& v, size_t r, size_t k) { vector<const double*> p; for (size_t i=0;i<r;i++) p.push_back(v.data()+i*k); s->WriteArray(n,p.data(),r,k); }
static vector<double> tp(const vector<double>& v, size_t r, size_t k) { vector<double> o; for (size_t j=0;j<k;j++) for (size_t i=0;i<r;i++) o.push_back(v[i*k+j]); return o; }
static const char *VARS[]={"name","desc","maxis","r","z","Br","Bphi","Bz","Psi","wall","separatrix"};
static void write(const string& fn, const Grid& g, const Opt& o) {
    unique_ptr<SFile> s(SFile::Create(fn,SFILE_MODE_WRITE)); if (o.missing!=0) s->WriteString("name",g.name); if (o.missing!=1) s->WriteString("desc",g.desc); double ax[3]={g.ra,g.za,1}; if (o.missing!=2) s->WriteList("maxis",ax,o.bad==2?3:o.bad==12?1:2); auto L=[&](int id, const vector<double>& v, int bad) { vector<double> w=v; if (bad==1) w.push_back(w.back()+1); if (bad==2) w.pop_back(); if (bad==3) swap(w[0],w[1]); if (bad==4) w[1]=w[0]; if (bad==5) w.resize(3); if (bad==6) w[1]=NAN; if (o.missing!=id) s->WriteList(VARS[id],w.data(),w.size()); };
    L(3,g.R,o.bad>=30&&o.bad<40? o.bad-30 : 0); L(4,g.Z,o.bad>=40&&o.bad<50? o.bad-40 : 0); const vector<double> *B[4]={&g.Br,&g.Bp,&g.Bz,&g.Psi}; size_t nr=g.nr(), nz=g.nz(); for (int k=0;k<4;k++) { if (o.missing==5+k || B[k]->empty()) continue; vector<double> v=*B[k]; size_t r=nz, w=nr; int bad= o.bad>=50+10*k && o.bad<60+10*k? o.bad-50-10*k : 0; if (bad==1) { r++; v.resize(r*w,0.5); } if (bad==2) { r--; v.resize(r*w); } if (bad==3) { w++; v.resize(r*w,0.5); } if (bad==4) { w--; v.resize(r*w); } if (bad==5) { r=1; w=v.size(); } if (bad==6) { r=w=1; v.resize(1); } if (o.tr[k]) { v=tp(v,r,w); swap(r,w); } put2(s.get(),VARS[5+k],v,r,w); }
    for (int k=0;k<2;k++) { const auto &a= k? g.rs : g.rw, &b= k? g.zs : g.zw; if (a.empty()||o.missing==9+k) continue; vector<double> v=a; v.insert(v.end(),b.begin(),b.end()); size_t r=2, w=a.size(); int bad= o.bad>=90+10*k && o.bad<100+10*k? o.bad-90-10*k : 0; if (bad==1) { r=3; v.resize(3*w,1.0); } if (bad==2) { r=1; v.resize(w); } bool t= k? o.sepT : o.wallT; if (t) { v=tp(v,r,w); swap(r,w); } put2(s.get(),VARS[9+k],v,r,w); }
    static const char *VN[]={"verBr","verBphi","verBz"}; for (int k=0;k<3;k++) if (o.ver[k]) { vector<double> v(B[k]->begin(),B[k]->begin()+nr); if (o.ver[k]==2) v.back()+=0.5; if (o.ver[k]==3) v.push_back((*B[k])[nr]); if (o.ver[k]==4) v.resize(2); if (o.ver[k]==5) v[0]*=1+1e-12; s->WriteList(VN[k],v.data(),v.size()); } s->Close(); }
static void load(mc::Ctx& c, const string& fn, const Grid& g, bool ok, const char *what) { F f; try { f.reset(new MagneticFieldNumeric2D(fn)); } catch (SOFTLibException&) {} c.step(); c.require((f!=nullptr)==ok,"%s: the file is %s",what,f?"accepted":"refused"); if (f) { check(c,f.get(),g,what); F k(f->Clone()); f.reset(); check(c,k.get(),g,"clone"); } unlink(fn.c_str()); }
static void layouts(mc::Ctx& c) { int gi=c.pick(c.thorough?6:4), fmt=c.pick(3), t=c.pick(16), w=c.pick(3), s=c.pick(3); bool flux=c.flip(); if (gi==2 && t) return; if (!flux && (t&8)) return; if (!w && !s) return; Grid g=base(gi,w!=0,s!=0,flux); Opt o; for (int k=0;k<4;k++) o.tr[k]=t>>k&1; o.wallT=w==2; o.sepT=s==2; string fn=c.scratch+"/f."+EXT[fmt]; c.noteL([&]{ return mc::fmt("grid %d format %s transposed %d wall %d separatrix %d flux %d",gi,EXT[fmt],t,w,s,flux); }); write(fn,g,o); load(c,fn,g,true,"layout"); c.state(mc::mix(gi*100+t,w*100+s*10+fmt)); }
static void verify(mc::Ctx& c) { int gi=c.pick(c.thorough?6:4), fmt=c.pick(3); Opt o; bool tr=c.flip(); if (tr && gi==2) return; bool ok=true; for (int k=0;k<3;k++) { o.ver[k]=c.pick(6); o.tr[k]=tr; if (o.ver[k]==2||o.ver[k]==3||o.ver[k]==5) ok=false; } Grid g=base(gi,1,0,true); string fn=c.scratch+"/f."+EXT[fmt]; c.noteL([&]{ return mc::fmt("verification vectors %d %d %d",o.ver[0],o.ver[1],o.ver[2]); }); write(fn,g,o); load(c,fn,g,ok,"verification"); c.state(mc::mix(o.ver[0]*100+o.ver[1]*10+o.ver[2],gi)); }
static void damaged(mc::Ctx& c) { static const vector<int> BAD={2,12, 31,32,33,34,35,36, 41,42,43,44,45,46, 51,52,53,54,55,56, 61,62,63,64,65,66, 71,72,73,74,75,76, 81,82,83,84,85,86, 91,92, 101,102}; int gi=c.pick(3), fmt=c.pick(3), w=c.pick(4), k=c.pick(11+(int)BAD.size()); bool tr=c.flip(), wt=c.flip(); if (tr && gi==2) return; Grid g=base(gi,w!=1,w!=0,w!=3); Opt o; for (int q=0;q<4;q++) o.tr[q]=tr; o.wallT=o.sepT=wt; bool ok=false;
    if (k<11) { o.missing=k; if (k==8) { g.Psi.clear(); ok=true; } if (k==9 && !g.rs.empty()) { g.rw.clear(); g.zw.clear(); ok=true; } if (k==9 && w==1) ok=true; if (k==10 && !g.rw.empty()) { g.rs.clear(); g.zs.clear(); ok=true; } } else { o.bad=BAD[k-11]; if (o.bad>=80&&o.bad<90&&g.Psi.empty()) ok=true; if (o.bad>=90&&o.bad<100&&g.rw.empty()) ok=true; if (o.bad>=100&&g.rs.empty()) ok=true; }
    string fn=c.scratch+"/f."+EXT[fmt]; c.noteL([&]{ return mc::fmt("grid %d format %s missing %s bad %d transposed %d %d",gi,EXT[fmt],o.missing>=0?VARS[o.missing]:"-",o.bad,tr,wt); }); write(fn,g,o); load(c,fn,g,ok,o.missing>=0? mc::fmt("without %s",VARS[o.missing]).c_str() : mc::fmt("damage %d",o.bad).c_str()); c.state(mc::mix(k*10+w,gi*3+fmt)); }
/* clones live their own life */
static void lives(mc::Ctx& c) {
    int wall=c.pick(2), sep=c.pick(2); bool flux=c.flip(); if (!wall&&!sep) return; Grid g=base(1,wall,sep,flux); F ref(g.make()); vector<F> o; o.emplace_back(g.make()); bool changed=false; vector<double> r={1.5,2.2,2.2,1.5}, z={0,0,0.5,0.5}; mc::u64 h=0; int D=c.thorough?7:6;
    for (int d=0;d<D;d++) { int n=(int)o.size(), q=c.pick(3*3+1); int i=q%3; if (q==9) { if (!o[0] || sep) return; c.note("another wall for the original"); o[0]->SetDomain(r.data(),z.data(),4); changed=true; h=mc::mix(h,9); continue; } if (i>=n || !o[i]) return; if (q<3) { c.noteL([&]{ return mc::fmt("clone %d",i); }); if (n<3) { if (i==0 && changed) return; F k(o[i]->Clone()); o.push_back(move(k)); } else return; } else if (q<6) { c.noteL([&]{ return mc::fmt("delete %d",i); }); o[i].reset(); } else { c.noteL([&]{ return mc::fmt("use %d",i); }); o[i]->Eval(1.1,0.2,0.3); o[i]->EvalDerivatives(2.2,0.2,0.3); }
        for (size_t k=0;k<o.size();k++) if (o[k] && !(k==0&&changed)) { check(c,o[k].get(),g,k?"clone":"original"); alike(c,o[k].get(),ref.get(),k?"clone":"original"); } h=mc::mix(h,q); c.state(h); } }
int main(int argc, char **argv) {
    return mc::run(argc, argv, "M04", {
        {"roundtrip", roundtrip, 3, "6 grids (4x4 to 65x66) x wall {none, open, closed, 2 points} x separatrix {none, 2 shapes, 2 points} x flux x 3 formats x explicit type x clone first x second generation"},
        {"layouts", layouts, 3, "files of 3 formats, 4 (thorough 6) grids, with every combination of transposed components, wall and separatrix as rows or columns or absent, with and without flux"},
        {"verification", verify, 3, "all combinations of verification vectors: absent, right, wrong, too long, short, nearly right"},
        {"damaged", damaged, 3, "every variable missing or of a wrong size, grids not increasing, too short or NaN, in 3 formats, 3 grids, both layouts, 4 combinations of optional parts"},
        {"lives", lives, 3, "all sequences of 6 (thorough 7) clone/delete/use/change-wall operations over up to 3 objects"},
    });
}
