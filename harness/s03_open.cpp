/* S03: open modes, format choice, failed opens, truncated and corrupted files. */
#include "sfileref.h"
#include <dirent.h>
using namespace std; using namespace sf;

/* --- histories of open/close/write over the three modes, one path per format, two objects --- */
static void modes(mc::Ctx& c) {
    int fmt=c.pick(3), L=c.thorough?5:4; string path=c.scratch+"/m."+EXT[fmt], missing=c.scratch+"/nodir/x."+EXT[fmt]; ::remove(path.c_str());
    bool exists=false; File m; int cnt=0; unique_ptr<SFile> f; bool direct=c.flip();
    auto mk=[&]()->SFile* { if (fmt==HDF) return new SFile_HDF5(); if (fmt==MAT) return new SFile_MAT(); return new SFile_SDT(); };
    for (int i=0;i<L;i++) {
        int op=c.pick(8); string what; bool needNew=!f;
        auto open=[&](const string& p, sfile_mode md){ return guarded(c,what,[&]{ if (direct) { if (!f) f.reset(mk()); f->Open(p,md); } else { f.reset(); f.reset(SFile::Create(p,md)); } }); };
        auto wr=[&]{ Var a=numVar("v"+to_string(cnt),F64,{2,2},pool(F64,fmt),cnt); Var s=strVar("s"+to_string(cnt),"text "+to_string(cnt)); cnt++; writeVar(f.get(),a); writeVar(f.get(),s); m.var[a.name]=a; m.var[s.name]=s; };
        switch (op) {
            case 0: what="write mode"; c.note("open for writing, write two variables, close"); c.require(open(path,SFILE_MODE_WRITE)==VALUE,"open for writing failed"); m=File(); wr(); f->Close(); exists=true; break;
            case 1: what="update mode"; c.note("open for update, write two variables, close"); { Outcome o=open(path,SFILE_MODE_UPDATE); c.require((o==VALUE)==exists,"open for update of %s file: %s",exists?"an existing":"a missing",o==VALUE?"succeeds":"fails"); if (o==VALUE) { wr(); f->Close(); } else c.require(slurp(path)=="<none>","a failed open created the file"); } break;
            case 2: what="read mode"; c.note("open for reading, read everything, close"); { string before=slurp(path); Outcome o=open(path,SFILE_MODE_READ); c.require((o==VALUE)==exists,"open for reading of %s file: %s",exists?"an existing":"a missing",o==VALUE?"succeeds":"fails"); if (o==VALUE) { checkAll(c,f.get(),fmt,m); c.require(!f->HasVariable("nope"),"phantom variable"); f->Close(); } c.require(slurp(path)==before,"read mode modified the file"); } break;
            case 3: what="read mode, writing"; c.note("open for reading and try to write"); if (exists) { string before=slurp(path); c.require(open(path,SFILE_MODE_READ)==VALUE,"open failed"); try { f->WriteString("zz","zz"); } catch (...) {} try { double x=1; f->WriteList("yy",&x,1); } catch (...) {} try { f->Close(); } catch (...) {} c.require(slurp(path)==before,"a file opened for reading was modified"); } break;
            case 4: what="failed open"; c.note("failed open in every mode, then close"); for (auto md : {SFILE_MODE_READ,SFILE_MODE_UPDATE,SFILE_MODE_WRITE}) c.require(open(missing,md)==SFEXC,"opening a file in a missing directory does not fail (mode %d)",(int)md); if (f) f->Close(); break;
            case 5: what="destroy"; c.note("destroy the object"); f.reset(); break;
            case 6: what="update without writing"; c.note("open for update and close without writing"); if (exists) { c.require(open(path,SFILE_MODE_UPDATE)==VALUE,"open failed"); checkAll(c,f.get(),fmt,m); f->Close(); } break;
            case 7: what="garbage"; c.note("open a file of another format"); { string g=c.scratch+"/g."+EXT[fmt]; spit(g,"this is not a data file\n1 2 3\n"); for (auto md : {SFILE_MODE_READ,SFILE_MODE_UPDATE}) { c.require(open(g,md)==SFEXC,"a file of another format is accepted"); c.require(slurp(g)=="this is not a data file\n1 2 3\n","a rejected file was modified"); } } break;
        }
        c.step();
        // whatever happened, a fresh reader sees exactly the model
        if (exists) { SFile *r=SFile::Create(path,SFILE_MODE_READ); checkAll(c,r,fmt,m); for (int k=0;k<=cnt;k++) { string n="v"+to_string(k); c.require(r->HasVariable(n)==(m.var.count(n)>0),"variable %s is %s",n.c_str(),m.var.count(n)?"lost":"still there"); } r->Close(); delete r; }
        mc::u64 h=fmt*2+exists; for (auto& v : m.var) h=mc::mix(h,mc::hstr(v.first)); c.state(h); (void)needNew;
    }
}
/* --- format choice --- */
static void names(mc::Ctx& c) {
    static const vector<string> P={"h5","hdf5","mat","sdt","out",".","/","x","H5","h"};
    string s; int n=1+c.pick(c.thorough?5:4); for (int i=0;i<n;i++) s+=c.pickOf(P); c.note(s);
    size_t d=s.rfind('.'); string e= d==string::npos? "\x01" : s.substr(d+1); sfile_type t= e=="h5"||e=="hdf5"? SFILE_TYPE_HDF5 : e=="mat"? SFILE_TYPE_MATLAB : e=="sdt"||e=="out"? SFILE_TYPE_SDT : SFILE_TYPE_UNKNOWN;
    c.require(SFile::TypeOfFile(s)==t,"type of '%s' is %d, not %d",s.c_str(),(int)SFile::TypeOfFile(s),(int)t); c.step(); c.state(mc::mix(t,n));
    if (n==1) { sfile_type g= s=="h5"||s=="hdf5"? SFILE_TYPE_HDF5 : s=="mat"? SFILE_TYPE_MATLAB : s=="sdt"||s=="out"? SFILE_TYPE_SDT : SFILE_TYPE_UNKNOWN; c.require(SFile::GetFileType(s)==g,"type name '%s'",s.c_str()); }
    if (t==SFILE_TYPE_UNKNOWN && n<=2) { bool threw=false; string p=c.scratch+"/q"+s; try { delete SFile::Create(p,SFILE_MODE_WRITE); } catch (SFileException&) { threw=true; } c.require(threw,"a file of unknown type is opened"); }
}
static void byExtension(mc::Ctx& c) { // the content written is of the format the extension names
    static const vector<pair<string,int>> E={{"h5",HDF},{"hdf5",HDF},{"mat",MAT},{"sdt",SDT},{"out",SDT}}; auto e=c.pickOf(E); string pre=c.pickOf(vector<string>{"a","a.mat","b.sdt.x","a.h5"}); for (int k=c.pick(4), i=0;i<1;i++) if (k) { auto d=vector<string>{"","mat","h5","sdt"}[k]; c.note("after writing a file of format "+d); unique_ptr<SFile> g(SFile::Create(c.scratch+"/before."+d,SFILE_MODE_WRITE)); g->WriteString("s","t"); g->Close(); } string p=c.scratch+"/"+pre+"."+e.first; c.note(p);
    SFile *f=SFile::Create(p,SFILE_MODE_WRITE); double x=2.5; f->WriteList("x",&x,1); c.require(f->filetype==(e.second==HDF?SFILE_TYPE_HDF5:e.second==MAT?SFILE_TYPE_MATLAB:SFILE_TYPE_SDT)&&f->mode==SFILE_MODE_WRITE,"type or mode member wrong"); f->Close(); delete f; c.step();
    string b=slurp(p); bool h5=b.size()>8 && b.compare(1,3,"HDF")==0, mat=b.compare(0,10,"MATLAB 7.3")==0, txt=b.compare(0,7,"@matrix")==0; c.note(mc::show(b.substr(0,30))); c.require(e.second==HDF?h5:e.second==MAT?mat:txt,"content of '%s' is not of its format",p.c_str()); c.state(e.second);
    for (int o=0;o<3;o++) if (o!=e.second && !(o==HDF&&e.second==MAT) && !(o==MAT&&e.second==HDF)) { bool t=false; try { delete SFile::Create(p,SFILE_MODE_READ,o==HDF?SFILE_TYPE_HDF5:o==MAT?SFILE_TYPE_MATLAB:SFILE_TYPE_SDT); } catch (SFileException&) { t=true; } c.require(t,"a forced wrong format is accepted"); }
}
/* --- damaged text files --- */
/* reference reader of the text format. strict: well-formed text that must load; lenient: what a successful load may contain */
struct TVar { bool str=false; sfilesize_t r=0,cc=0; vector<double> v; string s; };
/* (returns false with refuse set if the file cannot be what it says: an incomplete header, a missing or non-numeric element, an unknown kind of variable) */
static bool parseText(const string& t, map<string,TVar>& out, bool& strict, bool& refuse) {
    refuse=false;
    vector<string> lines; { string l; for (char ch : t) { if (ch=='\n') { lines.push_back(l); l.clear(); } else l+=ch; } if (!l.empty()) { lines.push_back(l); } }
    auto toks=[](const string& l){ vector<string> v; string w; for (char ch : l) { if (isspace((unsigned char)ch)) { if (!w.empty()) v.push_back(w); w.clear(); } else w+=ch; } if (!w.empty()) v.push_back(w); return v; };
    strict=true; for (char ch : t) if ((unsigned char)ch<32 && ch!='\n') strict=false; if (!t.empty() && t.back()!='\n') strict=false;
    auto num=[&](const string& s, sfilesize_t& n){ if (s.empty()||s.size()>9) { strict=false; return false; } n=0; for (char ch : s) { if (ch<'0'||ch>'9') { strict=false; return false; } n=n*10+(ch-'0'); } return true; };
    size_t i=0; while (i<lines.size()) {
        if (lines[i].empty()) { i++; continue; }
        auto h=toks(lines[i]); if (h.empty()) { strict=false; return false; } if (lines[i][0]!='@') strict=false; i++;
        TVar v; if (h[0]=="@matrix") { auto nan=[](const string& q){ return !q.empty()&&!isdigit((unsigned char)q[0])&&q[0]!='-'&&q[0]!='+'; }; bool whole=h.size()>2&&h[2].find_first_not_of("0123456789")==string::npos; if (h.size()<3||nan(h[2])||(whole&&(h.size()<4||nan(h[3])))) { strict=false; refuse=true; return false; } if (h.size()<4) { strict=false; return false; } if (h.size()!=4) strict=false; if (!num(h[2],v.r)||!num(h[3],v.cc)) return false;
            for (sfilesize_t r=0;r<v.r;r++) { if (i>=lines.size()) { strict=false; refuse=true; return false; } auto d=toks(lines[i++]); if (d.size()<v.cc) { strict=false; refuse=true; return false; } if (d.size()!=v.cc) strict=false;
                for (sfilesize_t k=0;k<v.cc;k++) { char *e; double x=strtod(d[k].c_str(),&e); if (e!=d[k].c_str()+d[k].size()||d[k].empty()) { strict=false; refuse=true; return false; } for (char ch : d[k]) if (!strchr("0123456789+-.eE",ch)) strict=false; if (d[k][0]=='+'||d[k][0]=='.'||d[k].back()=='.') strict=false; v.v.push_back(x); } } }
        else if (h[0]=="@string") { v.str=true; if (h.size()<3||(!isdigit((unsigned char)h[2][0])&&h[2][0]!='-'&&h[2][0]!='+')) { strict=false; refuse=true; return false; } if (h.size()!=3) strict=false; sfilesize_t n; if (!num(h[2],n)) return false; if (i>=lines.size()) { strict=false; } else { for (auto& d : toks(lines[i])) { char *e; long x=strtol(d.c_str(),&e,10); if (*e||x<-128||x>127) strict=false; v.s+=(char)x; } i++; } if (v.s.size()!=n) strict=false; }
        else { strict=false; refuse=true; return false; }
        if (out.count(h[1])) strict=false; else out[h[1]]=v;
    }
    return true;
}
static const vector<string>& corpus() { static vector<string> v={
    "@matrix abc 3 2\n1 2\n3 4\n5 6\n\n@string s 2\n104 105\n",
    "@matrix a 1 3\n1.5 -2e3 nan \n\n@matrix b 2 1\n7\n-inf\n\n@string t 0\n\n\n@matrix c 1 1\n42\n\n",
    "@string x 3\n97 -1 98 \n\n@matrix g/m 2 2\n0 1\n2 3\n",
    "@matrix e 1 0\n\n\n@matrix z 0 3\n\n@matrix q 1 2\n8 9\n"}; return v; }
static void checkText(mc::Ctx& c, const string& t) {
    string p=c.scratch+"/d.sdt"; spit(p,t); c.noteL([&]{ return mc::show(t); });
    map<string,TVar> ref; bool strict, refuse; bool ok=parseText(t,ref,strict,refuse);
    SFile_SDT f; Outcome o=guarded(c,"loading",[&]{ f.Open(p,SFILE_MODE_READ); }); c.step();
    if (ok && strict) c.require(o==VALUE,"a well-formed file is refused");
    if (refuse) c.require(o==SFEXC,"a file with an incomplete header, a missing or non-numeric matrix element or an unknown kind of variable is accepted");
    c.require(slurp(p)==t,"loading modified the file");
    if (o==SFEXC) { f.Close(); // reusable
        spit(p,corpus()[0]); f.Open(p,SFILE_MODE_READ); sfilesize_t d[2]; double **m=f.GetDoubles("abc",d); c.require(d[0]==3&&d[1]==2&&m[2][1]==6,"the object is not usable after a failed load"); delete[] m[0]; delete[] m; f.Close(); c.state(1); return; }
    static const vector<string> N={"abc","s","a","b","t","c","x","g/m","e","z","q","ab","bc","104","1","@matrix","@string","sx","abcx","xabc",""};
    set<string> all(N.begin(),N.end()); for (auto& r : ref) all.insert(r.first);
    mc::u64 h=2;
    for (auto& n : all) { if (!f.HasVariable(n)) { if (ok && strict) c.require(!ref.count(n),"variable '%s' is missing",n.c_str()); continue; }
        c.require(ok? ref.count(n)>0 : t.find(n)!=string::npos,"variable '%s' is not in the file",n.c_str()); h=mc::hstr(n,h); if (!ok) continue; auto& v=ref[n];
        // a name may stand for one matrix and one string
        if (!v.str && f.GetDataType(n)==SFile::SFILE_DATA_DOUBLE) { sfilesize_t d[2]; double **m=f.GetDoubles(n,d); c.require(d[0]==v.r&&d[1]==v.cc,"size of '%s' is %llux%llu",n.c_str(),(unsigned long long)d[0],(unsigned long long)d[1]); for (size_t k=0;k<v.v.size();k++) c.require(same(m[k/v.cc][k%v.cc],v.v[k]),"element %zu of '%s' is wrong",k,n.c_str()); delete[] m[0]; delete[] m; }
        if (v.str && strict) c.require(f.GetString(n)==v.s,"string '%s' is %s, not %s",n.c_str(),mc::show(f.GetString(n)).c_str(),mc::show(v.s).c_str()); }
    c.state(h);
}
static const string REP=string("019-.e@ nx\n\t\r#")+string(1,'\0')+string(1,(char)0xff);
static string damage(mc::Ctx& c, string t) {
    int kind=c.pick(5); if (t.empty()) return t;
    switch (kind) { case 0: return t.substr(0,c.pick((int)t.size()+1)); case 1: { int p=c.pick((int)t.size()); t[p]=REP[c.pick((int)REP.size())]; return t; } case 2: { int p=c.pick((int)t.size()); t.erase(p,1); return t; } case 3: { int p=c.pick((int)t.size()+1); t.insert(t.begin()+p,REP[c.pick((int)REP.size())]); return t; } default: { // swap or drop a line
        vector<string> l; string w; for (char ch : t) { w+=ch; if (ch=='\n') { l.push_back(w); w.clear(); } } int k=c.pick((int)l.size()); int m=c.pick((int)l.size()+1); if (m==(int)l.size()) l.erase(l.begin()+k); else swap(l[k],l[m]); string o; for (auto& x : l) o+=x; return o; } }
}
static void damaged(mc::Ctx& c) { string t=c.pickOf(corpus()); if (c.flip()) t=damage(c,t); checkText(c,t); }
static void damaged2(mc::Ctx& c) { // two damages of a small file
    static const string T="@matrix a 2 2\n1 2\n3 4\n\n@string s 1\n65\n"; string t=damage(c,T); if (c.thorough) t=damage(c,t); else { int k=c.pick(3); if (k==0) t=t.substr(0,c.pick((int)t.size()+1)); else if (k==1 && !t.empty()) t.erase(c.pick((int)t.size()),1); else if (k==2 && !t.empty()) { int p=c.pick((int)t.size()); t[p]=REP[c.pick(6)]; } } checkText(c,t);
}
static void hugeDims(mc::Ctx& c) { static const vector<string> D={"0","1","2","-1","4294967296","4294967297","18446744073709551615","18446744073709551616","9223372036854775808","1e3","1.5","x","99999"}; string a=c.pickOf(D), b=c.pickOf(D); int w=c.pick(3); string t="@matrix a "+a+" "+b+(w==0?"\n":w==1?"\n1 2\n3 4\n":"\n\n@matrix b 1 1\n5\n"); checkText(c,t); }
/* --- truncated binary files: refused, or everything that can be read is right --- */
static string bin[2]; static File bm;
static void initBin() { string d; const char *t=getenv("MC_TMP"); d=string(t?t:"/tmp")+mc::fmt("/mc.s03.%d",(int)getpid()); mkdir(d.c_str(),0700); bm=File(); Var a=numVar("v",F64,{2,2},pool(F64,0)); Var s=strVar("s","text"); bm.var["v"]=a; bm.var["s"]=s;
    for (int fmt=0;fmt<2;fmt++) { string p=d+"/x."+EXT[fmt]; SFile *f=SFile::Create(p,SFILE_MODE_WRITE); writeVar(f,a); writeVar(f,s); f->Close(); delete f; bin[fmt]=slurp(p); } mc::rmtree(d); }
static void truncated(mc::Ctx& c) {
    int fmt=c.pick(2); const string& b=bin[fmt]; int n=c.pick((int)b.size()+1); string p=c.scratch+"/t."+EXT[fmt]; spit(p,b.substr(0,n)); c.note(mc::fmt("%s truncated to %d of %zu bytes",EXT[fmt],n,b.size()));
    for (auto md : {SFILE_MODE_READ,SFILE_MODE_UPDATE}) { unique_ptr<SFile> f; Outcome o=guarded(c,"open",[&]{ f.reset(SFile::Create(p,md)); }); c.step(); c.state(o*2+(n==(int)b.size()));
        if (n==(int)b.size()) c.require(o==VALUE,"an intact file is refused");
        if (o==VALUE) { for (auto& v : bm.var) { if (!f->HasVariable(v.first)) { c.require(n<(int)b.size(),"variable lost"); continue; } vector<Held> h; doRead(c,f.get(),fmt,bm,v.first,v.second.type==STR?R_STR:R_D2,h); for (auto& x : h) x.free(); } f->Close(); } else if (md==SFILE_MODE_READ) c.require(slurp(p)==b.substr(0,n),"read mode modified a damaged file"); }
}
int main(int argc, char **argv) {
    cerr.rdbuf(nullptr); H5::Exception::dontPrint(); initBin();
    return mc::run(argc, argv, "S03", {
        {"modes", modes, 4, "all histories of 4 (thorough 5) of 8 open/close/write/fail operations x 3 formats x 2 ways of opening; full re-read by a fresh reader after every step"},
        {"names", names, 3, "all file names of 1-4 (thorough 1-5) parts out of 10"},
        {"extension", byExtension, 1, "5 extensions x 4 stems x what was written before in the same process"},
        {"damaged", damaged, 3, "4 text files x every truncation, every byte replaced by each of 16 class representatives, every deletion, every insertion, every line dropped or swapped"},
        {"damaged2", damaged2, 3, "every pair of damages of a small text file (second damage from a reduced set in quick)"},
        {"dims", hugeDims, 2, "13x13 declared sizes (zero, negative, overflowing, malformed) x 3 bodies"},
        {"truncated", truncated, 2, "HDF5 and MATLAB files truncated at every byte, read and update mode"},
    });
}
