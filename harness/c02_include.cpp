/* C02: an included file behaves as its text pasted in place; all sources of text are equivalent. */
#include <fstream>
#include "scriptref.h"
using namespace std;
static vector<string> ALLTYPES = {"/root","B","Dd"};
static void put(const string& f, const string& s) { ofstream o(f, ios::binary|ios::trunc); o<<s; }

static void judge(mc::Ctx& c, const string& main, const string& pasted, int source) {
    ref::Blk want; ref::Verdict v=ref::parse(pasted, ALLTYPES, want);
    c.noteL([&]{ return "main="+mc::show(main)+" pasted="+mc::show(pasted)+" source="+to_string(source)+(v==ref::OK?" -> "+want.dump():" -> rejected"); });
    ConfigurationScript cs; cs.RegisterBlockType("B"); cs.RegisterBlockType("Dd");
    bool threw=false; istringstream in;
    try {
        if (source==0) cs.FromString(main, "main");
        else if (source==1) { put("main.cfg",main); cs.FromFile("main.cfg"); }
        else { in.str(main); cin.clear(); streambuf *o=cin.rdbuf(in.rdbuf()); cin.clear(); try { cs.FromStdin(); } catch (...) { cin.rdbuf(o); throw; } cin.rdbuf(o); }
    } catch (ConfigurationException&) { threw=true; }
    c.step();
    bool err=threw||cs.HasError();
    if (v==ref::BAD) { c.require(err, "malformed text accepted: %s", mc::show(main).c_str()); c.state(source+1); }
    else if (v==ref::OK) {
        c.require(!err, "valid text reported as erroneous: %s (pasted: %s)", mc::show(main).c_str(), mc::show(pasted).c_str());
        ref::Blk got=ref::snapshot(cs.GetRootBlock(), ALLTYPES, &c);
        c.require(ref::same(want,got), "text %s: expected %s got %s", mc::show(main).c_str(), want.dump().c_str(), got.dump().c_str());
        if (source==1) c.require(cs.GetFilename()=="main.cfg", "after loading, the configuration's file name is %s", mc::show(cs.GetFilename()).c_str());
        c.state(mc::hstr(got.dump())+source);
    }
    delete cs.GetRootBlock();
}
static string inc(const string& f, int style) {
    switch (style) { case 0: return "<"+f+">"; case 1: return " <"+f+"> "; case 2: return "#x <y>\n<"+f+">\n"; default: return "\n\t<"+f+">#z\n"; }
}
static void split(mc::Ctx& c) {
    if (chdir(c.scratch.c_str())) return;
    static const vector<string> U={"a=1;","b=2 \"q;\";","B n{","Dd m(s) {\n","}"};
    int n=1+c.pick(c.thorough?5:4); vector<string> u; for (int i=0;i<n;i++) u.push_back(U[c.pick(U.size())]);
    int i=c.pick(n+1), j=i+c.pick(n-i+1); int nested=c.pick(2); int k=i,l=i;
    if (nested) { k=i+c.pick(j-i+1); l=k+c.pick(j-k+1); }
    int style=c.pick(4), end=c.pick(3), twice=c.pick(2);
    static const vector<string> END={"","\n","# tail"};
    auto cat=[&](int a, int b){ string s; for (int x=a;x<b;x++) s+=u[x]; return s; };
    string f2=cat(k,l)+END[end], f1body = nested? cat(i,k)+inc("f2.cfg",style)+cat(l,j) : cat(i,j);
    string f1=f1body+END[end]; put("f1.cfg",f1); if (nested) put("f2.cfg",f2);
    string nl="\n"; // pasting text that ends in a comment needs its line ended
    string p1 = nested? cat(i,k)+nl+f2+nl+cat(l,j)+END[end]+nl : f1+nl;
    string main=cat(0,i)+inc("f1.cfg",style)+(twice?inc("f1.cfg",style):"")+cat(j,n);
    string pasted=cat(0,i)+nl+p1+(twice?p1:"")+cat(j,n);
    judge(c, main, pasted, 0);
    if (!nested && !twice) judge(c, main, pasted, 1);
}
static void sources(mc::Ctx& c) {
    if (chdir(c.scratch.c_str())) return;
    // lengths across the standard-input block size; the pad is a comment or a long value
    static const vector<int> LEN={0,1,2,500,998,999,1000,1001,1998,1999,2000,2001,2999,3000,3001,5000,8191,8192,8193,10000,16000,32767,32768,65535,65536,65537,70000,100000,131073,300001};
    int len=LEN[c.pick(LEN.size())], kind=c.pick(4), source=c.pick(3);
    string head="a=1;", tail="B n(s){b=2;}"; string s;
    string pad;
    int room=len-(int)(head+tail).size();
    if (kind==0) { pad = room>2? "#"+string(room-2,'x')+"\n":""; s=head+pad+tail; }
    else if (kind==1) { pad = room>5? "v="+string(room-3,'y')+";":""; s=head+pad+tail; }
    else if (kind==2) { s=string(len,' '); }
    else { pad = room>1? "#"+string(room-1,'x'):""; s=head+tail+pad; }
    judge(c,s,s,source);
    if (source==1) {   // an included file of that length
        put("f1.cfg",s); judge(c,"p=1;<f1.cfg>q=2;","p=1;"+s+"\nq=2;",0);
    }
    { // an inclusion behind that many characters and that many lines, in the text and in an included file
        put("f2.cfg","z=1;\nzz=2 3;"); string t="w=5;"+string(len<70000? len : 7,'\n')+"<f2.cfg>"; judge(c,s+"\n<f2.cfg>q=2;p=1;",s+"\n\nz=1;\nzz=2 3;\nq=2;p=1;",source);
        judge(c,t+"q=2;","w=5;\nz=1;\nzz=2 3;\nq=2;",source); if (source==0) { put("f1.cfg",s+"\n<f2.cfg>q=2;p=1;"); judge(c,"<f1.cfg>k=4;",s+"\n\nz=1;\nzz=2 3;\nq=2;p=1;\nk=4;",source); }
    }
}
/* long chains of nested includes and long rows of includes, with statements in front of, between and behind them */
static void deep(mc::Ctx& c) {
    if (chdir(c.scratch.c_str())) return;
    static const vector<int> N={1,2,3,4,5,8,9,16,17,33,65}; int n=c.pickOf(N), kind=c.pick(4), style=c.pick(4), source=c.pick(3), name=c.pick(3);
    auto fn=[&](int i) { string b="f"+to_string(i); return name==0? b : name==1? b+string(60,'n')+".cfg" : "./"+b+".cfg"; }; // plain, long, with a directory
    auto st=[&](int i, char w) { return string(1,w)+to_string(i)+"="+to_string(i)+" "+string(1+i%3,w)+";"; };
    string main, pasted;
    if (kind<=1) { string body=st(n,'e'); // innermost file first
        for (int i=n-1;i>=0;i--) { put(fn(i),body+(kind?"\n":"")); pasted=st(i,'h')+"\n"+(i==n-1?body:pasted)+"\n"+st(i,'t'); body=st(i,'h')+inc(fn(i),style)+st(i,'t'); } main=body; }
    else if (kind==2) for (int i=0;i<n;i++) { string body=st(i,'h')+"B n"+to_string(i%5)+" {"+st(i,'k')+"}"; put(fn(i),body); string mid= i%2? st(i,'m') : ""; main+=inc(fn(i),style)+mid; pasted+="\n"+body+"\n"+mid; }
    else { put(fn(0),st(0,'h')); put(fn(1),"B q {"+st(1,'k')+"}"); for (int i=0;i<n;i++) { string mid= i%2? st(i,'m') : ""; main+=inc(fn(i%2),style)+mid; pasted+="\n"+(i%2? "B q {"+st(1,'k')+"}" : st(0,'h'))+"\n"+mid; } }
    judge(c,main,pasted,source);
}
static void missing(mc::Ctx& c) {
    if (chdir(c.scratch.c_str())) return;
    ::unlink("nofile.cfg"); put("good.cfg","a=1;"); put("bad.cfg","b=2;<nofile.cfg>c=3;");
    static const vector<string> M={"<nofile.cfg>","a=1;<nofile.cfg>b=2;","B n{<nofile.cfg>}","<bad.cfg>","<good.cfg><bad.cfg>","<>"};
    int k=c.pick(M.size()+3); bool threw=false; c.step();
    ConfigurationScript cs; cs.RegisterBlockType("B");
    if (k<(int)M.size()) {
        int src=c.pick(2); c.note(M[k]);
        try { if (src) { put("main.cfg",M[k]); cs.FromFile("main.cfg"); } else cs.FromString(M[k]); } catch (ConfigurationException&) { threw=true; }
        c.require(threw, "inclusion of a missing file was not reported: %s", M[k].c_str());
    } else if (k==(int)M.size()) { try { cs.FromFile("nofile.cfg"); } catch (ConfigurationException&) { threw=true; } c.require(threw,"missing configuration file not reported");
        // the object is still usable
        cs.FromFile("good.cfg"); c.require(!cs.HasError() && cs.GetRootBlock()->HasSetting("a"), "object unusable after a missing file");
    } else if (k==(int)M.size()+1) { try { cs.FromFile("bad.cfg"); } catch (ConfigurationException&) { threw=true; } c.require(threw,"missing included file not reported"); }
    else { cs.FromFile("good.cfg"); c.require(!cs.HasError() && cs.GetRootBlock()->GetSetting("a")->GetInteger()==1, "plain file misread"); }
    c.state(100+k);
}
int main(int argc, char **argv) {
    cerr.rdbuf(nullptr);
    return mc::run(argc, argv, "C02", {
        {"split", split, 4, "every program of up to 4 (thorough 5) units out of 5, with every sub-range moved to an included file, every sub-range of that to a nested include, include written in 4 layouts, 3 file endings, included once or twice"},
        {"sources", sources, 2, "texts of 29 lengths around the block sizes and up to 300 kB, 4 shapes, from string, file, standard input and include"},
        {"deep", deep, 2, "chains of 1-65 nested includes and rows of 1-65 includes of different or repeated files, with statements around each, 4 layouts, plain, long and relative file names, from 3 sources"},
        {"missing", missing, 1, "missing main and included files in every position"},
    });
}
