/* S01: whatever is written is read back: kinds x shapes x critical values, and sequences of writes, per format. */
#include "sfileref.h"
using namespace std; using namespace sf;

static void verify(mc::Ctx& c, int fmt, const string& path, const File& m) {
    SFile *f=make(fmt,path,SFILE_MODE_READ); checkAll(c,f,fmt,m); checkAll(c,f,fmt,m,true); f->Close(); delete f;
    mc::u64 h=fmt; for (auto& v : m.var) h=mc::mix(h,hashVar(v.second)); for (auto& a : m.att) h=mc::mix(mc::hstr(a.second.s,mc::hstr(a.first.second,h)),mc::hdbl(a.second.d)); c.state(h);
}
static void single(mc::Ctx& c) {
    int fmt=c.pick(3); Type t=(Type)c.pick(5);
    static const vector<vector<sfilesize_t>> SH={{1},{2},{5},{1,1},{1,3},{3,1},{2,2},{2,3},{3,2},{4,4},{2,3,2},{1,2,3},{3,1,1},{2,1,2,2},{0},{0,3},{3,0},{1,0},{0,1}};
    auto dims=c.pickOf(SH); auto P=pool(t,fmt); int form=c.pick(3); size_t n=prod(dims);
    File m; Var a; 
    if (n<=2) { a=numVar("v",t,dims,P); for (size_t k=0;k<n;k++) a.v[k]=P[c.pick((int)P.size())]; } else { int off=c.pick((int)P.size()); a=numVar("v",t,dims,P,off); }
    c.noteL([&]{ return string("write ")+EXT[fmt]+" "+describe(a)+mc::fmt(" form %d",form); });
    string path=c.scratch+"/a."+EXT[fmt]; SFile *f=make(fmt,path,SFILE_MODE_WRITE);
    Outcome o=guarded(c,"write",[&]{ writeVar(f,a,form); }); c.step();
    bool multi= dims.size()>2||form==2;
    if (fmt==SDT && multi) { c.require(o==SFEXC,"a multi-dimensional array is not refused by the text format"); f->Close(); delete f; c.state(fmt*100+form); return; }
    c.require(o==VALUE,"writing raises a file exception"); f->Close(); delete f;
    m.var["v"]=a; verify(c,fmt,path,m);
}
static void strings(mc::Ctx& c) {
    int fmt=c.pick(3); static const string A="a \n\"@0"; string s; int n=c.pick(c.thorough?6:5); for (int i=0;i<n;i++) { int k=c.pick((int)A.size()+1); s+= k<(int)A.size()? A[k] : (char)0xe5; }
    int how=c.pick(2); string path=c.scratch+"/a."+EXT[fmt]; SFile *f=make(fmt,path,SFILE_MODE_WRITE); File m; c.noteL([&]{ return string(EXT[fmt])+" string "+mc::show(s); });
    // fixed-length strings of HDF5 are NUL/space padded: empty ones are written as a zero-size dataset
    if (how==0) { m.var["s"]=strVar("s",s); f->WriteString("s",s); } else { Var d=numVar("d",F64,{2},pool(F64,fmt)); m.var["d"]=d; writeVar(f,d); f->WriteAttribute_string("d","note",s); Attr a; a.name="note"; a.isStr=true; a.s=s; m.att[{"d","note"}]=a; if (fmt!=HDF) m.var["d_note"]=strVar("d_note",s); }
    c.step(); f->Close(); delete f; verify(c,fmt,path,m);
}
static void attrs(mc::Ctx& c) {
    int fmt=c.pick(3); auto P=pool(F64,fmt); double x=P[c.pick((int)P.size())].d; Type t=(Type)c.pick(6); bool grp=c.flip();
    string path=c.scratch+"/a."+EXT[fmt]; SFile *f=make(fmt,path,SFILE_MODE_WRITE); File m; string nm= grp?"g/d":"d"; if (grp) f->CreateStruct("g");
    Var d= t==STR? strVar(nm,"hello") : numVar(nm,t,{2,2},pool(t,fmt)); m.var[nm]=d; writeVar(f,d); c.noteL([&]{ return string(EXT[fmt])+mc::fmt(" attribute %.17g on ",x)+describe(d); });
    f->WriteAttribute_scalar(nm,"q",x); Attr a; a.name="q"; a.d=x; m.att[{nm,"q"}]=a; if (fmt!=HDF) { Var v; v.name=nm+"_q"; v.type=F64; v.dims={1}; Val q; q.d=x; v.v={q}; if (fmt==SDT) v.dims={1,1}; m.var[v.name]=v; }
    c.step(); f->Close(); delete f; verify(c,fmt,path,m);
}
/* sequences of writes into one file */
static void sequence(mc::Ctx& c) {
    int fmt=c.pick(3), L=c.thorough?4:3; string path=c.scratch+"/a."+EXT[fmt]; unique_ptr<SFile> F(make(fmt,path,SFILE_MODE_WRITE)); SFile *f=F.get(); File m; bool grp=false; string lastNum;
    for (int k=0;k<L;k++) {
        int op=c.pick(15); string n= string(1,'a'+k)+(k==1?"_long_name_1":""); if (grp && k>1) n="grp/"+n; Var a; int form=0;
        switch (op) {
            case 0: a=numVar(n,F64,{1},pool(F64,fmt),k); break; case 1: a=numVar(n,F64,{3},pool(F64,fmt),2+k); break; case 2: a=numVar(n,F64,{3,2},pool(F64,fmt),5+k); break; case 3: a=numVar(n,F64,{3,3},pool(F64,fmt),k); form=1; break;
            case 4: a=numVar(n,I32,{2,2},pool(I32,fmt),k); break; case 5: a=numVar(n,I64,{4},pool(I64,fmt),k+2); break; case 6: a=numVar(n,U32,{2},pool(U32,fmt),k+1); break; case 7: a=numVar(n,U64,{1,3},pool(U64,fmt),k); break;
            case 8: a=strVar(n,"x y\nz"); break; case 9: a=strVar(n,string(k*150+1,'q')); break; case 10: a=numVar(n,F64,{2,2,2},pool(F64,fmt),k); break; case 11: a=numVar(n,I64,{2,1,3},pool(I64,fmt),k); break;
            case 12: case 13: { if (lastNum.empty()) { c.step(); continue; } string an="at"+to_string(k); Attr t; t.name=an; t.isStr=op==13; if (op==12) { t.d=-1.0/3; f->WriteAttribute_scalar(lastNum,an,t.d); } else { t.s="attr text"; f->WriteAttribute_string(lastNum,an,t.s); } m.att[{lastNum,an}]=t; c.note("attribute "+an+" on "+lastNum); c.step(); continue; }
            case 14: { if (grp) { c.step(); continue; } f->CreateStruct("grp"); grp=true; c.note("struct grp"); c.step(); continue; }
        }
        c.noteL([&]{ return "write "+describe(a); });
        Outcome o=guarded(c,"write",[&]{ writeVar(f,a,form); }); c.step();
        if (fmt==SDT && a.dims.size()>2) { c.require(o==SFEXC,"multi-dimensional array accepted by the text format"); continue; }
        c.require(o==VALUE,"write refused"); m.var[n]=a; lastNum=n;
    }
    f->Close(); F.reset(); verify(c,fmt,path,m);
}
/* sizes around the block sizes that readers and writers may use */
static void sizes(mc::Ctx& c) {
    int fmt=c.pick(3); static const vector<sfilesize_t> N={7,8,9,63,64,65,127,128,129,255,256,257,1000,1023,1024,1025,4097,22000,33000,65535,65536,70001}; sfilesize_t n=c.pickOf(N); int shape=c.pick(4); Type t= shape==3? STR : (Type)c.pick(n>5000&&!c.thorough?2:5);
    Var a= shape==0? numVar("v",t,{n},pool(t,fmt)) : shape==1? numVar("v",t,{n,2},pool(t,fmt)) : shape==2? numVar("v",t,{3,n},pool(t,fmt)) : strVar("v",""); if (shape==3) for (size_t i=0;i<n;i++) a.s+=char('A'+i%50);
    for (size_t i=0;i<a.v.size();i++) if (t==F64 && i%3==0) a.v[i].d=(double)i+0.1; else if (t!=F64 && t!=STR && i%3==0) a.v[i].i=(__int128)i;
    string path=c.scratch+"/a."+EXT[fmt]; SFile *f=make(fmt,path,SFILE_MODE_WRITE); File m; m.var["v"]=a; c.noteL([&]{ return mc::fmt("%s shape %d n=%llu %s",EXT[fmt],shape,(unsigned long long)n,TN[t]); }); writeVar(f,a); c.step(); f->Close(); delete f; verify(c,fmt,path,m);
}
/* several sessions on one file: written, then opened for update (by a new object, or by the same one) and added to, all kinds of data in each */
static Var kind(int k, const string& n, int fmt, int off) {
    switch (k) { case 0: return numVar(n,F64,{1},pool(F64,fmt),off); case 1: return numVar(n,F64,{4},pool(F64,fmt),off); case 2: return numVar(n,F64,{3,2},pool(F64,fmt),off); case 3: return numVar(n,I32,{2,2},pool(I32,fmt),off); case 4: return numVar(n,I64,{4},pool(I64,fmt),off); case 5: return numVar(n,U32,{2},pool(U32,fmt),off); case 6: return numVar(n,U64,{1,3},pool(U64,fmt),off); case 7: return strVar(n,"x y\nz"); default: return numVar(n,F64,{2,1,2},pool(F64,fmt),off); } }
static void sessions(mc::Ctx& c) {
    int fmt=c.pick(3), reuse=c.pick(3), n1= c.thorough? c.pick(3) : 2*c.pick(2), n2= c.thorough? 1+c.pick(2) : 1, off=c.pick(c.thorough?18:2), att=c.pick(2); int nk= fmt==SDT? 8 : 9, k1=c.pick(nk), k2=c.pick(nk);
    string path=c.scratch+"/a."+EXT[fmt]; unique_ptr<SFile> f(make(fmt,path,SFILE_MODE_WRITE)); File m; int id=0;
    auto put=[&](int k) { Var a=kind(k,"v"+to_string(id),fmt,off+2*id); id++; c.noteL([&]{ return "write "+describe(a); }); writeVar(f.get(),a); m.var[a.name]=a; c.step(); };
    auto mark=[&](const string& v) { Attr t; t.name="q"+to_string(id); t.d=pool(F64,fmt)[(off*3+id)%8].d; f->WriteAttribute_scalar(v,t.name,t.d); m.att[{v,t.name}]=t; if (fmt!=HDF) { Var w; w.name=v+"_"+t.name; w.type=F64; w.dims={1}; Val q; q.d=t.d; w.v={q}; if (fmt==SDT) w.dims={1,1}; m.var[w.name]=w; } };
    for (int i=0;i<n1;i++) put((k1+i)%nk); f->Close();
    for (int s=0;s<2;s++) { c.note("open for update"); if (reuse==0) f.reset(make(fmt,path,SFILE_MODE_UPDATE)); else { if (reuse==2) { f->Open(path,SFILE_MODE_READ); checkAll(c,f.get(),fmt,m); f->Close(); } f->Open(path,SFILE_MODE_UPDATE); }
        if (s==0) checkAll(c,f.get(),fmt,m); for (int i=0;i<(s?1:n2);i++) put((k2+3*i+s)%nk); if (att) mark("v"+to_string(id-1)); f->Close(); }
    f.reset(); verify(c,fmt,path,m);
}
int main(int argc, char **argv) {
    cerr.rdbuf(nullptr); H5::Exception::dontPrint();
    return mc::run(argc, argv, "S01", {
        {"single", single, 3, "3 formats x 5 element types x 19 shapes (0 to 4 dimensions) x 3 write interfaces x all critical value tuples (n<=2) or rotations"},
        {"strings", strings, 3, "all strings of length 0-4 (thorough 0-5) over 7 character classes, as variable and attribute, 3 formats"},
        {"attrs", attrs, 3, "all critical scalars as attributes of every kind of variable, plain and in a group, 3 formats"},
        {"sequence", sequence, 3, "all sequences of 3 (thorough 4) writes out of 15 kinds into one file, 3 formats"},
        {"sizes", sizes, 2, "22 sizes up to 70001 (210003 elements) x 4 shapes x 5 (large quick: 2) element types x 3 formats"},
        {"sessions", sessions, 3, "a file written, then opened for update twice and added to: 8-9 kinds of data x 8-9 x value rotations x numbers of variables x attributes, by new or by the same objects, 3 formats"},
    });
}
