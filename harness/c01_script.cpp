/* C01: every script text is read as the grammar says. */
#include "scriptref.h"
using namespace std;

static const vector<string> USERTYPES = {"B","Dd"};
static vector<string> ALLTYPES = {"/root","B","Dd"};

static void judge(mc::Ctx& c, const string& text) {
    ref::Blk want; ref::Verdict v=ref::parse(text, ALLTYPES, want);
    c.noteL([&]{ return mc::show(text)+(v==ref::OK?" -> "+want.dump():v==ref::BAD?" -> must be rejected":" -> (unspecified, must run safely)"); });
    ConfigurationScript cs; for (auto& t : USERTYPES) cs.RegisterBlockType(t);
    bool threw=false; string what;
    try { cs.FromString(text); } catch (ConfigurationException& e) { threw=true; what="exception"; }
    bool err = threw || cs.HasError();
    c.step();
    if (v==ref::BAD) { c.require(err, "malformed script accepted without report: %s", mc::show(text).c_str()); c.state(mc::mix(1,want.dump().size())); }
    else if (v==ref::OK) {
        c.require(!err, "valid script reported as erroneous: %s", mc::show(text).c_str());
        ref::Blk got=ref::snapshot(cs.GetRootBlock(), ALLTYPES, &c);
        c.require(got.type=="/root" && !cs.GetRootBlock()->HasParent(), "the root block has the type %s%s", got.type.c_str(), cs.GetRootBlock()->HasParent()?" and a parent":"");
        c.require(ref::same(want,got), "script %s: expected tree %s but got %s", mc::show(text).c_str(), want.dump().c_str(), got.dump().c_str());
        c.state(mc::hstr(got.dump()));
    }
    delete cs.GetRootBlock();
}

/* 1. all token strings up to a length, two ways of separating them */
static void tokens(mc::Ctx& c) {
    static const vector<string> T={"a","=","7",";","B","{","}","(",")","\"x y\""};
    int L = c.thorough? 7 : 6;
    int n=c.pick(L+1); string s; int style=c.pick(2);
    for (int i=0;i<n;i++) { if (i && style) s+=' '; const string& t=T[c.pick(T.size())]; if (i && !style && isalnum(t[0]) && isalnum(s.back())) s+=','; s+=t; }
    judge(c,s);
}
/* 2. all character strings up to a length, inside each lexical context */
static void chars(mc::Ctx& c) {
    static const string A="a=; \n#\"B{},\t(";
    static const vector<pair<string,string>> CT={{"",""},{"a=1",";"},{"B n{a=1;","}"},{"a=\"q","\";"},{"a=1;#c",""},{"B n","{b=2;}"}};
    int k=c.pick(CT.size()); int L = c.thorough? 6 : 5;
    int n=c.pick(L+1); string s=CT[k].first;
    for (int i=0;i<n;i++) s+=A[c.pick(A.size())];
    judge(c, s+CT[k].second);
}
/* 3. programs built from statements, in all layouts; then with one token deleted, doubled, swapped or replaced */
static void gen(mc::Ctx& c, int depth, int minst, int maxst, int inner, vector<string>& out) {
    int n=minst+c.pick(maxst-minst+1);
    for (int i=0;i<n;i++) {
        int k=c.pick(depth>0?4:2);
        const string nm = c.flip()?"bb":"a";
        if (k==0) { for (auto s : {nm,string("="),string("1e-3"),string(";")}) out.push_back(s); }
        else if (k==1) { for (auto s : {nm,string("="),string("B"),string("\"t{;#,=\""),string("a"),string(";")}) out.push_back(s); }
        else { out.push_back(k==2?"B":"Dd"); out.push_back(nm); if (k==3) { out.push_back("("); out.push_back("a"); out.push_back(")"); }
               out.push_back("{"); gen(c,depth-1,0,depth>1?1:inner,inner,out); out.push_back("}"); }
    }
}
static string layout(mc::Ctx& c, const vector<string>& t, int nsep, int ntail) {
    static const vector<string> SEP={"#k=\"1;{\n","","\t \n",", "," ","\n"};
    const string& sep=SEP[c.pick(nsep)]; int tail=c.pick(ntail);      // comment without newline, nothing, newline
    string s; for (size_t i=0;i<t.size();i++) {
        string sp=sep;
        if (i) { if (sp.empty() && (isalnum(s.back())&&isalnum(t[i][0]))) sp=" "; s+=sp; }
        s+=t[i]; }
    if (tail==0) s+="#end"; else if (tail==2) s+="\n";
    return s;
}
static void programs(mc::Ctx& c) {
    vector<string> t; gen(c, 2, 0, 2, c.thorough?2:1, t);
    judge(c, layout(c,t,6,3));
}
static void mutate(mc::Ctx& c, vector<string>& t) {
    if (t.empty()) return;
    int kind=c.pick(4), i=c.pick(t.size());
    if (kind==0) t.erase(t.begin()+i);
    else if (kind==1) t.insert(t.begin()+i,t[i]);
    else if (kind==2) { if (i+1<(int)t.size()) swap(t[i],t[i+1]); }
    else { static const vector<string> T={"a","=",";","B","{","}","(",")","\"=\"","\"}\"","\"\""}; t[i]=T[c.pick(T.size())]; }
}
static void mutants(mc::Ctx& c) {
    vector<string> t; gen(c, 2, 1, 1, 2, t);
    mutate(c,t);
    judge(c, layout(c,t,2,2));
}
static void mutants2(mc::Ctx& c) {   // a damaged statement must not be masked by a following or preceding valid one
    vector<string> t; gen(c, c.thorough?2:1, 2, 2, 1, t);
    mutate(c,t);
    judge(c, layout(c,t,1,c.thorough?2:1));
}
/* 4. quoted values holding every printable character and every pair of special ones */
static void quoted(mc::Ctx& c) {
    string v; int n=c.pick(4);
    static const string SP="=(){};,# \n\t<>a'\\";
    if (n==0) v=string(1,(char)(1+c.pick(126)));
    else for (int i=0;i<n;i++) v+=SP[c.pick(SP.size())];
    if (v.find('"')!=string::npos) v="q";
    int f=c.pick(3);
    judge(c, f==0? "a=\""+v+"\";" : f==1? "B n (s) { a = 1 \""+v+"\" 2; }" : "a=\""+v+"\"\""+v+"\";");
}
/* 5. one object parsing several scripts in a row: each result depends on its own text only */
static void sequences(mc::Ctx& c) {
    static const vector<string> S={"a=1;","B n(s){a=\"q\";}","a=\"open","a=1;#c","x=1; B n{","a=2;}",""," #","a=<","\"v\"=1;"};
    ConfigurationScript cs; for (auto& t : USERTYPES) cs.RegisterBlockType(t);
    bool everBad=false; int n=c.thorough?4:3;
    for (int i=0;i<n;i++) {
        const string& s=c.pickOf(S); ref::Blk want; ref::Verdict v= s.find('<')!=string::npos? ref::BAD : ref::parse(s,ALLTYPES,want);
        bool threw=false; ConfigBlock *rb=nullptr; try { rb=cs.FromString(s); } catch (ConfigurationException&) { threw=true; }
        c.step(); c.noteL([&]{ return mc::show(s); });
        if (v==ref::BAD) { c.require(threw||cs.HasError(), "malformed script %s not reported", mc::show(s).c_str()); everBad=true; }
        else { c.require(!threw && (everBad || !cs.HasError()), "valid script %s reported as erroneous", mc::show(s).c_str());
               c.require(rb==cs.GetRootBlock(), "returned root block differs from GetRootBlock");
               ref::Blk got=ref::snapshot(rb,ALLTYPES,&c); c.require(ref::same(want,got), "script %s: expected %s got %s", mc::show(s).c_str(), want.dump().c_str(), got.dump().c_str()); c.state(mc::hstr(got.dump())+i); }
        if (rb) { /* ownership of an earlier tree stays with the caller */ }
    }
}
/* 6. every byte in every lexical context (control characters outside quotes are left open: they must only be handled safely) */
static void bytes(mc::Ctx& c) {
    char b=(char)(1+c.pick(255)); int k=c.pick(9), rep=1+c.pick(3); string v(rep,b); if (b=='<'||b=='>') return;
    if (b=='"' && k>=1) return;
    static const vector<pair<string,string>> CT={{"a=x",";b=2;"},{"a=\"",";\";b=2;"},{"a=\"p","q\" r;"},{"#c","\na=1;"},{"a=1;#",""},{"n","=1;c=3;"},{"B n","{a=1;}c=2;"},{"B n(s","){a=1;}"},{"a=1","2 3;B n{b=1;}"}};
    string t=CT[k].first+v+CT[k].second; bool quoted= k==1||k==2, comment= k==3||k==4; bool ctl= ((unsigned char)b<32 && b!='\n' && b!='\t') || b==127;
    if (ctl && !quoted && !comment) { ConfigurationScript cs; for (auto& u : USERTYPES) cs.RegisterBlockType(u); try { cs.FromString(t); } catch (ConfigurationException&) {} c.step(); delete cs.GetRootBlock(); return; }
    judge(c,t);
}
/* 7. sizes: long words, strings and comments, many values, statements and blocks, deep nesting */
static void sizes(mc::Ctx& c) {
    static vector<int> N; if (N.empty()) { for (int p=8;p<=4096;p*=2) for (int d=-1;d<=1;d++) N.push_back(p+d); for (int x : {1,2,3,99,100,101,999,1000,1001,10000,65535,65536,65537}) N.push_back(x); }
    int n=c.pickOf(N), k=c.pick(12); string s; auto W=[&](int len, int i){ string w(len,'w'); string d=to_string(i); for (size_t j=0;j<d.size() && j<w.size();j++) w[w.size()-1-j]=d[d.size()-1-j]; return w; };
    if (k>=5 && n>4097) return; if ((k==8||k==9) && n>513) return;
    switch (k) {
        case 0: s="a="+W(n,0)+" 1;b=2;"; break; case 1: s="a=\""+string(n,' ')+W(3,1)+"\";"; break; case 2: s="a=1;#"+string(n,'c')+"\nb=2;"; break; case 3: s="a"+string(n,'n')+"=1;B "+string(n,'m')+"("+string(n,'s')+"){x=1;}"; break; case 4: s="a"+string(n,' ')+"="+string(n,'\t')+"1"+string(n,'\n')+";b=2;"; break;
        case 5: s="a="; for (int i=0;i<n;i++) s+=to_string(i)+(i%3?" ":","); s+=";b=2;"; break; case 6: for (int i=0;i<n;i++) s+="s"+to_string(i)+"="+to_string(i)+";"; break; case 7: for (int i=0;i<n;i++) s+="B b"+to_string(i)+"{a="+to_string(i)+";}"; break;
        case 8: for (int i=0;i<n;i++) s+="B b{a="+to_string(i)+";"; s+=string(n,'}'); break; case 9: for (int i=0;i<n;i++) s+="B b{"; s+=string(n-1,'}'); break;
        case 10: for (int i=0;i<n;i++) s+="a="+to_string(i)+";"; break; case 11: for (int i=0;i<n;i++) s+="a=\""+to_string(i)+"\"#;\n\"x\";"; break; }
    c.note(mc::fmt("size %d, shape %d",n,k)); judge(c,s);
}
/* 8. the same text as a string, a file and standard input */
static void sources(mc::Ctx& c) {
    static vector<int> N; if (N.empty()) { for (int p : {0,1,64,256,512,1000,1024,2000,2048,3000,4000,4096,5000,8192,10000,16384,65536,100000}) for (int d=-2;d<=2;d++) if (p+d>0) N.push_back(p+d); }
    int n=c.pickOf(N), k=c.pick(3), src=c.pick(3); string s; switch (k) { case 0: for (int i=0;(int)s.size()<n;i++) s+= i%5==4? "B n"+to_string(i)+"(t){x="+to_string(i)+";}\n" : "s"+to_string(i)+"="+to_string(i*7)+" \"v "+to_string(i)+"\";\n"; while ((int)s.size()>n) s.pop_back(); break; case 1: s="a=1;"; while ((int)s.size()+1<n) s+=' '; s+="#"; break; default: s="a=\""; while ((int)s.size()+2<n) s+='v'; s+="\";"; }
    ref::Blk want; ref::Verdict v=ref::parse(s,ALLTYPES,want); c.noteL([&]{ return mc::fmt("%zu characters of kind %d from %s",s.size(),k,src==0?"a string":src==1?"a file":"standard input"); });
    ConfigurationScript cs; for (auto& t : USERTYPES) cs.RegisterBlockType(t); bool threw=false; try { if (src==0) cs.FromString(s); else if (src==1) { string p=c.scratch+"/s.cfg"; FILE *f=fopen(p.c_str(),"wb"); fwrite(s.data(),1,s.size(),f); fclose(f); cs.FromFile(p); } else { istringstream in(s); streambuf *o=cin.rdbuf(in.rdbuf()); cin.clear(); try { cs.FromStdin(); } catch (...) { cin.rdbuf(o); throw; } cin.rdbuf(o); } } catch (ConfigurationException&) { threw=true; } c.step();
    bool err=threw||cs.HasError(); c.require(err==(v!=ref::OK),"%zu characters of kind %d from source %d: %s",s.size(),k,src,err?"reported as erroneous":"malformed, but not reported"); if (v==ref::OK) { ref::Blk got=ref::snapshot(cs.GetRootBlock(),ALLTYPES,&c); c.require(ref::same(want,got),"%zu characters of kind %d from source %d give another tree",s.size(),k,src); } delete cs.GetRootBlock(); c.state(mc::mix(n,k*3+src)); }
int main(int argc, char **argv) {
    cerr.rdbuf(nullptr);
    return mc::run(argc, argv, "C01", {
        {"programs", programs, 4, "programs of up to 2 top-level statements, block nesting 2, up to 1 (thorough 2) statements in inner blocks, 6 separators, 3 endings"},
        {"mutants", mutants, 4, "every single-statement program (nesting 2) with every single-token deletion, duplication, swap or replacement, 2 separators, 2 endings"},
        {"mutants2", mutants2, 4, "every two-statement program (nesting 1, thorough 2) with every single-token deletion, duplication, swap or replacement"},
        {"tokens", tokens, 4, "every string of up to 6 (thorough 7) tokens over 10 token classes, spaced and unspaced"},
        {"chars", chars, 4, "every string of up to 5 (thorough 6) characters over 13 character classes inside 6 lexical contexts"},
        {"quoted", quoted, 2, "every single character and every string of up to 3 special characters inside quotes, in 3 contexts"},
        {"bytes", bytes, 2, "every byte 1..255, once, twice and three times, in 9 lexical contexts"},
        {"sizes", sizes, 2, "43 sizes around powers of two and ten x 12 shapes (word, string, comment, name, blank lengths; numbers of values, statements, blocks; nesting depth up to 513)"},
        {"sources", sources, 2, "texts of 85 lengths around multiples of powers of two and ten x 3 kinds (cut anywhere) as a string, a file and standard input"},
        {"sequences", sequences, 2, "every sequence of 3 (thorough 4) scripts parsed by one object"},
    });
}
