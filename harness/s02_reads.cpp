/* S02: reading is repeatable: all short sequences of reads on one open file, with caller-owned buffers kept, scribbled over and freed. */
#include "sfileref.h"
using namespace std; using namespace sf;

static const vector<string>& attrNames() { static const vector<string> v={"q","t","none"}; return v; }
static vector<string> names(int fmt) { vector<string> v={"sc","row","col","mat","one","i32","i64","u32","u64s","str","g/in","e30","e03","e10","absent","g/absent"}; if (fmt!=SDT) { v.push_back("cube"); v.push_back("icube"); v.push_back("g"); } return v; }
static File content(int fmt) {
    File m; auto V=[&](Var a){ m.var[a.name]=a; }; vector<Val> P; for (double d : {0.5,-2.25,3.0,1.0/3,7.0,1e300,-0.125,42.0}) { Val v; v.d=d; P.push_back(v); } vector<Val> I; for (int i : {3,1,4,1,5,9,2,6}) { Val v; v.i=i; I.push_back(v); }
    V(numVar("sc",F64,{1},P,4)); V(numVar("row",F64,{4},P)); V(numVar("col",F64,{3,1},P,1)); V(numVar("mat",F64,{2,3},P,2)); V(numVar("one",F64,{1,1},P,7)); V(numVar("i32",I32,{2,2},I)); V(numVar("i64",I64,{5},I,1)); V(numVar("u32",U32,{3,2},I,2)); V(numVar("u64s",U64,{1},I,5)); { int b= fmt==SDT? 0 : 1; vector<Val> B; __int128 o=1; for (__int128 x : {(o<<53)+b,-(o<<53)-b,fmt==SDT? (o<<40)+1 : (o<<62)+1,(__int128)7}) { Val v; v.i=x; B.push_back(v); } V(numVar("big",I64,{4},B)); V(numVar("bigm",I64,{2,2},B,1)); V(numVar("bigs",I64,{1},B,2));
        vector<Val> U, W, N; for (__int128 x : {fmt==SDT? (o<<52)+1 : (o<<62)+1,(o<<40)+3,(__int128)5,(o<<33)}) { Val v; v.i=x; U.push_back(v); } for (__int128 x : {(o<<32)-1,(o<<31)+1,(o<<31),(__int128)6}) { Val v; v.i=x; W.push_back(v); } for (__int128 x : {-(o<<31),(o<<31)-1,(__int128)-1,(__int128)65537}) { Val v; v.i=x; N.push_back(v); }
        V(numVar("ul",U64,{3},U)); V(numVar("um",U64,{2,2},U,1)); V(numVar("us",U64,{1},U)); V(numVar("us2",U64,{1,1},U,1)); V(numVar("wl",U32,{4},W)); V(numVar("wm",U32,{2,2},W,1)); V(numVar("ws",U32,{1},W)); V(numVar("nl",I32,{3},N)); V(numVar("nm",I32,{1,4},N)); V(numVar("ns",I32,{1},N)); } V(strVar("str","hello world")); V(numVar("e30",F64,{3,0},P)); V(numVar("e03",F64,{0,3},P)); V(numVar("e10",F64,{1,0},P)); V(numVar("g/in",F64,{2},P,3));
    if (fmt!=SDT) { V(numVar("cube",F64,{2,3,2},P)); V(numVar("icube",I32,{1,2,3},I)); }
    Attr q; q.name="q"; q.d=-1.0/3; m.att[{"mat","q"}]=q; Attr t; t.name="t"; t.isStr=true; t.s="some attribute text"; m.att[{"mat","t"}]=t;
    return m;
}
static string bytes[3]; static File model[3];
static void init() {
    string d; { const char *t=getenv("MC_TMP"); d=string(t?t:"/tmp")+mc::fmt("/mc.s02.%d",(int)getpid()); mkdir(d.c_str(),0700); }
    for (int fmt=0;fmt<3;fmt++) { model[fmt]=content(fmt); string p=d+"/x."+EXT[fmt]; SFile *f=SFile::Create(p,SFILE_MODE_WRITE); f->CreateStruct("g"); for (auto& v : model[fmt].var) writeVar(f,v.second); for (auto& a : model[fmt].att) if (a.second.isStr) f->WriteAttribute_string(a.first.first,a.first.second,a.second.s); else f->WriteAttribute_scalar(a.first.first,a.first.second,a.second.d); f->Close(); delete f; bytes[fmt]=slurp(p);
        if (fmt!=HDF) for (auto& a : model[fmt].att) { string n=a.first.first+"_"+a.first.second; if (a.second.isStr) model[fmt].var[n]=strVar(n,a.second.s); else { Var v; v.name=n; v.dims={1}; Val x; x.d=a.second.d; v.v={x}; model[fmt].var[n]=v; } } }
    mc::rmtree(d);
}
static int nops(const vector<string>& N) { return (int)N.size()*NREAD + 6; }
static void op(mc::Ctx& c, SFile *f, int fmt, const File& m, const vector<string>& N, int k, vector<Held>& held) {
    if (k<(int)N.size()*NREAD) { doRead(c,f,fmt,m,N[k/NREAD],k%NREAD,held); return; } k-=(int)N.size()*NREAD;
    static const char *v[6]={"mat","mat","mat","mat","row","absent"}, *a[6]={"q","t","q","t","q","q"}; static const bool s[6]={false,true,true,false,false,false};
    readAttr(c,f,fmt,m,v[k],a[k],s[k]);
}
static SFile *openCopy(mc::Ctx& c, int fmt) { string p=c.scratch+"/r."+EXT[fmt]; static int have=-1; if (have!=fmt) { spit(p,bytes[fmt]); have=fmt; } return SFile::Create(p,SFILE_MODE_READ); }
static void run(mc::Ctx& c, bool small, int L) {
    int fmt=c.pick(3); const File& m=model[fmt]; vector<string> N=names(fmt); 
    if (small) N= fmt==SDT? vector<string>{"sc","col","mat","str","absent"} : vector<string>{"sc","mat","i32","str","cube","absent"};
    static const vector<int> RT={R_D2,R_I64_2,R_D1,R_LIST,R_SCAL,R_INTARR,R_STR,R_MULTI}, RQ={R_D2,R_I64_2,R_LIST,R_SCAL,R_STR,R_MULTI}; const vector<int>& RS= c.thorough? RT : RQ;
    int n0= small? -1 : c.pick(nops(N)); unique_ptr<SFile> f; vector<Held> held;
    mc::u64 h=fmt+1;
    for (int i=0;i<L;i++) {
        int k; if (small) { int a=c.pick((int)(N.size()*RS.size())); k=(a/(int)RS.size())*NREAD+RS[a%RS.size()]; } else if (i==0) k=n0; else if (c.thorough) k=c.pick(nops(N)); else { static const vector<int> QS={R_D2,R_I64_2,R_D1,R_LIST,R_SCAL,R_INTARR,R_STR,R_MULTI}; int a=c.pick((int)(N.size()*QS.size())+6); k= a<(int)(N.size()*QS.size())? (a/(int)QS.size())*NREAD+QS[a%QS.size()] : nops(N)-6+a-(int)(N.size()*QS.size()); }
        if (!f) f.reset(openCopy(c,fmt));
        op(c,f.get(),fmt,m,N,k,held); h=mc::mix(h,k);
        for (auto& b : held) c.require(b.intact(),"a buffer returned by an earlier read was changed or shared by a later one");
        if (!held.empty() && i%2==0) held.back().scribble();                       // the caller writes into its own buffer ...
        if (i+1==L && held.size()>1) { held.front().free(); held.erase(held.begin()); }   // ... and frees an earlier one before the last look
    }
    for (auto& b : held) c.require(b.intact(),"a returned buffer was changed by a later read"); for (auto& b : held) b.free();
    f->Close(); c.state(h);
}
static void pairs(mc::Ctx& c) { run(c,false,2); }
static void triples(mc::Ctx& c) { run(c,true,c.thorough?4:3); }
/* each single read of each variable, then everything again, then everything after closing and re-opening with the same object */
static void again(mc::Ctx& c) {
    int fmt=c.pick(3); const File& m=model[fmt]; vector<string> N=names(fmt); int k=c.pick(nops(N)); bool reopen=c.flip(); SFile *f=openCopy(c,fmt); vector<Held> held;
    op(c,f,fmt,m,N,k,held); if (reopen) { f->Close(); f->Open(c.scratch+"/r."+EXT[fmt],SFILE_MODE_READ); }
    checkAll(c,f,fmt,m); op(c,f,fmt,m,N,k,held); for (auto& b : held) c.require(b.intact(),"a returned buffer was changed by a later read"); f->Close(); delete f;
    // buffers outlive the file object
    for (auto& b : held) { c.require(b.intact(),"a returned buffer does not survive the file object"); b.free(); }
    c.state(mc::mix(fmt,k*2+reopen));
}
/* one object opening different files in turn: every answer is about the file opened last */
static void others(mc::Ctx& c) {
    static string by[3][4]; static File md[3][4]; static bool made=false; if (!made) { made=true; for (int fmt=0;fmt<3;fmt++) for (int k=0;k<4;k++) { File m; auto V=[&](Var a){ m.var[a.name]=a; }; vector<Val> P; for (double d : {0.5,-2.25,3.0,7.0,1e10}) { Val v; v.d=d+k; P.push_back(v); } vector<Val> I; for (int i : {3,1,4,1}) { Val v; v.i=i+k; I.push_back(v); }
            if (k==0) { V(numVar("x",F64,{2,3},P)); V(strVar("y","first")); V(numVar("z",I32,{1},I)); V(numVar("only0",F64,{2},P)); V(strVar("text0","t")); } if (k==1) { V(strVar("x","second")); V(numVar("y",F64,{3,1},P)); V(numVar("z",F64,{2,2},P)); V(strVar("text1","u")); } if (k==2) { V(numVar("x",F64,{2,3},P)); V(strVar("y","third")); V(numVar("only2",U64,{2},I)); }
            string p=c.scratch+"/m."+EXT[fmt]; SFile *f=SFile::Create(p,SFILE_MODE_WRITE); for (auto& v : m.var) writeVar(f,v.second); f->Close(); delete f; by[fmt][k]=slurp(p); unlink(p.c_str()); md[fmt][k]=m; } }
    int fmt=c.pick(3), same=c.pick(2), L=c.thorough?5:4; unique_ptr<SFile> f; mc::u64 h=fmt*2+same; for (int i=0;i<L;i++) { int k=c.pick(4); string p=c.scratch+(same? "/o." : "/o"+to_string(k)+".")+EXT[fmt]; spit(p,by[fmt][k]); c.noteL([&]{ return mc::fmt("open file %d",k); }); if (!f) f.reset(SFile::Create(p,SFILE_MODE_READ)); else f->Open(p,SFILE_MODE_READ); const File& m=md[fmt][k]; vector<Held> held; for (const char *n : {"x","y","z","only0","only2","text0","text1"}) for (int r : {R_HAS,R_TYPE,R_D2,R_STR,R_LIST,R_I64_2}) doRead(c,f.get(),fmt,m,n,r,held); for (auto& b : held) { c.require(b.intact(),"a returned buffer was changed by a later read"); b.free(); } f->Close(); h=mc::mix(h,k); c.state(h); } for (int k=0;k<4;k++) unlink((c.scratch+"/o"+to_string(k)+"."+EXT[fmt]).c_str()); unlink((c.scratch+"/o."+EXT[fmt]).c_str()); }
int main(int argc, char **argv) {
    cerr.rdbuf(nullptr); H5::Exception::dontPrint(); init();
    return mc::run(argc, argv, "S02", {
        {"pairs", pairs, 2, "all ordered pairs of reads (25 read functions x every variable, plus attribute reads, present, absent and of the wrong kind) on one open file (quick: the second read through 8 of the functions), 3 formats"},
        {"triples", triples, 2, "all sequences of 3 (thorough 4) reads over 6 (thorough 8) functions x 5-6 variables, 3 formats"},
        {"others", others, 2, "all sequences of 4 (thorough 5) of 4 different files opened one after another by one object, under one name or four, all reads after each, 3 formats"},
        {"again", again, 2, "each read, followed by the full contents and by itself, with and without re-opening, 3 formats"},
    });
}
