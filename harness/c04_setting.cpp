/* C04: setting type predicates and typed getters, on every short value text. */
#include "scriptref.h"
#include <memory>
#include <softlib/SOFTLibException.h>
#include <cerrno>
#include <functional>
using namespace std;
typedef __int128 i128;

/* independent recognisers: decimal integer / decimal floating literal covering the whole text */
static bool intLit(const string& s, bool& neg, i128& v, bool& huge) {
    size_t i=0; neg=false; huge=false; v=0;
    if (i<s.size() && (s[i]=='+'||s[i]=='-')) { neg=s[i]=='-'; i++; }
    if (i>=s.size()) return false;
    for (;i<s.size();i++) { if (s[i]<'0'||s[i]>'9') return false; if (v>((i128)1<<100)) huge=true; else v=v*10+(s[i]-'0'); }
    if (neg) v=-v; return true;
}
static bool floatLit(const string& s) {
    size_t i=0,n=s.size(), dig=0; if (i<n && (s[i]=='+'||s[i]=='-')) i++;
    while (i<n && isdigit((unsigned char)s[i])) { i++; dig++; }
    if (i<n && s[i]=='.') { i++; while (i<n && isdigit((unsigned char)s[i])) { i++; dig++; } }
    if (!dig) return false;
    if (i<n && (s[i]=='e'||s[i]=='E')) { i++; if (i<n && (s[i]=='+'||s[i]=='-')) i++; size_t d=0; while (i<n && isdigit((unsigned char)s[i])) { i++; d++; } if (!d) return false; }
    return i==n;
}
static bool special(const string& s) { // hexadecimal, inf, nan: only consistency is required
    for (char ch : s) if (ch=='x'||ch=='X'||ch=='n'||ch=='N') return true; return !s.empty() && isspace((unsigned char)s[0]);
}
static int boolLit(const string& s) {
    static const char *t[]={"yes","Yes","YES","true","True","TRUE"}, *f[]={"no","No","NO","false","False","FALSE"};
    for (auto *x : t) if (s==x) return 1; for (auto *x : f) if (s==x) return 0; return -1;
}
static bool in64r(i128 v, bool huge) { return !huge&&v>=-((i128)1<<63)&&v<((i128)1<<63); }
template<class F> static bool noThrow(mc::Ctx& c, const string& s, const char *what, F f) {
    try { return f(); } catch (exception& e) { c.require(false,"%s throws (%s) for %s",what,e.what(),mc::show(s).c_str()); } return false;
}
static void one(mc::Ctx& c, const string& s, const Setting& S, unsigned k, bool idx) {
    bool neg,huge; i128 v; bool il=intLit(s,neg,v,huge);
    auto P=[&](const char *n, bool (Setting::*a)() const, bool (Setting::*b)(unsigned) const){ return noThrow(c,s,n,[&]{ return idx? (S.*b)(k) : (S.*a)(); }); };
    bool b=P("IsBool",&Setting::IsBool,&Setting::IsBool), i=P("IsInteger",&Setting::IsInteger,&Setting::IsInteger), i32=P("IsInteger32",&Setting::IsInteger32,&Setting::IsInteger32), i64=P("IsInteger64",&Setting::IsInteger64,&Setting::IsInteger64),
         u32=P("IsUnsignedInteger32",&Setting::IsUnsignedInteger32,&Setting::IsUnsignedInteger32), u64=P("IsUnsignedInteger64",&Setting::IsUnsignedInteger64,&Setting::IsUnsignedInteger64), sc=P("IsScalar",&Setting::IsScalar,&Setting::IsScalar);
    int bl=boolLit(s);
    auto R=[&](const char *n, bool got, bool want){ c.require(got==want,"%s(%s) is %s",n,mc::show(s).c_str(),got?"true":"false"); };
    auto T=[&](const char *n, std::function<void()> g){ bool t=false; try { g(); } catch (exception&) { t=true; } c.require(t,"%s(%s) gives a value",n,mc::show(s).c_str()); };
    if (bl<0) T("GetBool",[&]{ S.GetBool(k); });
    { size_t q=0; while (q<s.size()&&isspace((unsigned char)s[q])) q++; if (q<s.size()&&(s[q]=='+'||s[q]=='-')) q++; bool num=q<s.size()&&isdigit((unsigned char)s[q]); if (!num) { T("GetInteger",[&]{ S.GetInteger(k); }); T("GetInteger32",[&]{ S.GetInteger32(k); }); T("GetInteger64",[&]{ S.GetInteger64(k); }); T("GetUnsignedInteger32",[&]{ S.GetUnsignedInteger32(k); }); T("GetUnsignedInteger64",[&]{ S.GetUnsignedInteger64(k); }); if (!special(s)&&!floatLit(s)&&!(q<s.size()&&s[q]=='.')&&!(q<s.size()&&tolower(s[q])=='i')) T("GetScalar",[&]{ S.GetScalar(k); }); } if (il&&!in64r(v,huge)) { T("GetInteger",[&]{ S.GetInteger(k); }); T("GetInteger32",[&]{ S.GetInteger32(k); }); } }
    R("IsBool",b,bl>=0); if (b) c.require(S.GetBool(k)==(bl==1),"GetBool(%s) wrong",mc::show(s).c_str());
    bool in32= il&&!huge&&v>=-(i128)2147483648LL&&v<=2147483647LL, in64= il&&!huge&&v>=-((i128)1<<63)&&v<((i128)1<<63), inu32= il&&!huge&&v>=0&&v<=(i128)0xffffffffLL, inu64= il&&!huge&&v>=0&&v<((i128)1<<64);
    bool negz= il&&neg&&v==0, ws= !s.empty()&&isspace((unsigned char)s[0]);
    if (!ws) { R("IsInteger32",i32,in32); R("IsInteger64",i64,in64); R("IsInteger",i,in64); if (!negz) { R("IsUnsignedInteger32",u32,inu32); R("IsUnsignedInteger64",u64,inu64); }
        if (i32) c.require((i128)S.GetInteger32(k)==v,"GetInteger32(%s)=%d",mc::show(s).c_str(),S.GetInteger32(k));
        if (i64) c.require((i128)S.GetInteger64(k)==v && (i128)S.GetInteger(k)==v,"GetInteger64(%s)=%lld",mc::show(s).c_str(),(long long)S.GetInteger64(k));
        if (u32) c.require((i128)S.GetUnsignedInteger32(k)==v,"GetUnsignedInteger32(%s)=%u",mc::show(s).c_str(),S.GetUnsignedInteger32(k));
        if (u64) c.require((i128)S.GetUnsignedInteger64(k)==v,"GetUnsignedInteger64(%s)=%llu",mc::show(s).c_str(),(unsigned long long)S.GetUnsignedInteger64(k)); }
    errno=0; char *e; double d=strtod(s.c_str(),&e); bool range= errno==ERANGE; errno=0;
    if (!special(s)) { bool fl=floatLit(s); if (!fl) R("IsScalar",sc,false); else if (!range) R("IsScalar",sc,true); }
    if (sc) { double g; try { g=S.GetScalar(k); } catch (exception&) { c.require(false,"IsScalar(%s) holds but GetScalar throws",mc::show(s).c_str()); } c.require(memcmp(&g,&d,sizeof d)==0,"GetScalar(%s)=%.17g",mc::show(s).c_str(),g); }
    c.require(S.GetString(k)==s,"GetString(%s)=%s",mc::show(s).c_str(),mc::show(S.GetString(k)).c_str());
    c.step(); c.state(mc::mix(b+2*i32+4*i64+8*u32+16*u64+32*sc, sc? mc::hdbl(d):0));
}
static void texts(mc::Ctx& c) {
    static const string A="019+-.eExn f"; int L=c.thorough?7:5; string s; int n=c.pick(L+1);
    for (int i=0;i<n;i++) s+=A[c.pick((int)A.size())];
    c.noteL([&]{ return mc::show(s); });
    SettingScript S("a",s); one(c,s,S,0,false); one(c,s,S,0,true);
}
static void limits(mc::Ctx& c) { // every integer within +-3 of a limit, in every notation
    static const vector<i128> B={0,(i128)1<<31,-((i128)1<<31),(i128)1<<32,(i128)1<<63,-((i128)1<<63),(i128)1<<64,(i128)1<<53,-((i128)1<<32),-((i128)1<<64),(i128)1000000000000000000LL*1000,(i128)255,(i128)65536};
    i128 v=c.pickOf(B)+(c.pick(7)-3); bool neg=v<0; i128 a=neg?-v:v; string s; do { s.insert(s.begin(),char('0'+(int)(a%10))); a/=10; } while (a>0);
    static const vector<string> pre={"","+","0","000000000000000000000000000000"}, post={"",".","e0","x","-","u"," "};
    string p=c.pickOf(pre), q=c.pickOf(post); s= neg? "-"+p+s : p+s; s+=q; if (neg && p=="+") s="-"+s.substr(2);
    c.note(mc::show(s)); SettingScript S("a",s); one(c,s,S,0,false); one(c,s,S,0,true);
}
static const vector<string>& words() { static const vector<string> W={"1","-2","4294967295","4294967296","1.5","1e400","1e-400","2.5e-308","1e308","-1e-3","yes","No","FALSE","True","false","NO","tRue","","abc","3x","1.5.2","nan","inf","-inf","0x1p3","1e5","18446744073709551615","-9223372036854775808","2147483648","1e-310","yes ","YES!","no1"}; return W; }
static void lists(mc::Ctx& c) {
    int n=c.pick(4); vector<string> v; for (int i=0;i<n;i++) v.push_back(c.pickOf(words()));
    int how=c.pick(3); SettingScript *S;
    if (how==0 || n==0) S=new SettingScript("a",v); else if (how==1) { S=new SettingScript("a",v[0]); for (int i=1;i<n;i++) S->AppendValue(v[i]); } else { SettingScript t("a",v); S=(SettingScript*)t.Copy(); }
    c.noteL([&]{ string s; for (auto& x : v) s+=mc::show(x)+" "; return s; });
    c.require(S->GetNumberOfValues()==v.size() && S->GetTextVector()==v && S->GetName()=="a" && S->HasName("a") && !S->HasName("b"),"contents wrong");
    for (int i=0;i<n;i++) one(c,v[i],*S,i,true);
    if (n==1) one(c,v[0],*S,0,false);
    else c.require(!S->IsBool()&&!S->IsInteger()&&!S->IsInteger32()&&!S->IsInteger64()&&!S->IsUnsignedInteger32()&&!S->IsUnsignedInteger64()&&!S->IsScalar(),"a list of %d values passes for a single value",n);
    bool all=true; for (int i=0;i<n;i++) all=all&&S->IsScalar(i);
    bool nv=noThrow(c,"list","IsNumericVector",[&]{ return S->IsNumericVector(); });
    if (n>0) c.require(nv==all,"IsNumericVector is %s",nv?"true":"false");
    for (unsigned k=0;k<=4;k++) { bool g=S->IsNumericVector(k); if (n>0) c.require(g==(all && k==(unsigned)n),"IsNumericVector(%u) is %s for %d values",k,g?"true":"false",n); }
    if (nv) { auto q=S->GetNumericVector(); c.require(q.size()==v.size(),"numeric vector has %zu elements",q.size()); for (int i=0;i<n;i++) { double d=strtod(v[i].c_str(),nullptr); c.require(memcmp(&d,&q[i],8)==0,"element %d is %.17g",i,q[i]); } }
    // an index outside the list is an exception, not an answer
    for (int w=0;w<4;w++) { bool t=false; try { if (w==0) S->GetString(n); else if (w==1) S->GetScalar(n); else if (w==2) S->GetInteger(n); else S->IsScalar((unsigned)n); } catch (exception&) { t=true; } c.require(t,"access beyond the last value is not an exception"); }
    delete S;
}
/* longer lists, one unusual word at every place */
static void longlists(mc::Ctx& c) {
    static const int N[]={4,5,8,9,17,40}; int n=N[c.pick(6)], at=c.pick(n); const string& w=c.pickOf(words()); vector<string> v; for (int i=0;i<n;i++) v.push_back(to_string(i*i-5)); v[at]=w; int how=c.pick(2); unique_ptr<SettingScript> S; if (how) { S.reset(new SettingScript("a",v[0])); for (int i=1;i<n;i++) S->AppendValue(v[i]); } else S.reset(new SettingScript("a",v)); c.noteL([&]{ return mc::fmt("%d values, %s at %d",n,mc::show(w).c_str(),at); });
    c.require(S->GetNumberOfValues()==v.size()&&S->GetTextVector()==v,"contents wrong"); for (int i=0;i<n;i++) one(c,v[i],*S,i,true); bool all=S->IsScalar(at); c.require(S->IsNumericVector()==all,"IsNumericVector is %s",all?"false":"true"); for (int k=n-2;k<=n+1;k++) c.require(S->IsNumericVector(k)==(all&&k==n),"IsNumericVector(%d) of %d values",k,n); c.require(!S->IsBool()&&!S->IsInteger()&&!S->IsScalar(),"a list passes for a single value"); if (all) { auto q=S->GetNumericVector(); c.require((int)q.size()==n,"numeric vector has %zu elements",q.size()); for (int i=0;i<n;i++) { double d=strtod(v[i].c_str(),nullptr); c.require(memcmp(&d,&q[i],8)==0,"element %d is %.17g",i,q[i]); } } }
/* the words for booleans in every mixture of upper and lower case, and everything one edit away from them */
static void booleans(mc::Ctx& c) {
    static const vector<string> B={"yes","no","true","false","on","off","y","n","t","f","0","1","ja","none"}; string s=c.pickOf(B); int m=c.pick(1<<s.size()); for (size_t i=0;i<s.size();i++) if (m>>i&1) s[i]=toupper(s[i]);
    static const string A="yesnotrufalYESNOTRUFAL 01-\t\n"; int edit=c.pick(4), at=edit? c.pick((int)s.size()+(edit==2)) : 0; if (edit==1) s.erase(at,1); else if (edit==2) s.insert(at,1,A[c.pick((int)A.size())]); else if (edit==3) s[at]=A[c.pick((int)A.size())];
    int how=c.pick(3); c.noteL([&]{ return mc::show(s); }); vector<string> v={s}; if (how==1) v={s,"no"}; else if (how==2) v={"TRUE","x",s}; unsigned k= how==2? 2 : 0; SettingScript S("a",v); one(c,s,S,k,true); if (how==0) one(c,s,S,0,false); else c.require(!S.IsBool(),"a list passes for a boolean"); }
/* the same through a parsed script: unquoted and quoted spellings reach the setting unchanged */
static void script(mc::Ctx& c) {
    const string& w=c.pickOf(words()); bool q=c.flip(); if (!q && (w.empty()||w.back()==' ')) return;
    ConfigurationScript s; s.FromString("a="+(q?"\""+w+"\"":w)+";"); Setting *t=s.GetRootBlock()->GetSetting("a"); c.note(w);
    c.require(t!=nullptr,"setting missing"); one(c,w,*t,0,false); one(c,w,*t,0,true);
}
int main(int argc, char **argv) {
    cerr.rdbuf(nullptr);
    return mc::run(argc, argv, "C04", {
        {"texts", texts, 3, "every text of length 0-5 (thorough 0-7) over {0 1 9 + - . e E x n space f}"},
        {"limits", limits, 2, "every integer within 3 of every type limit x 4 prefixes x 7 suffixes"},
        {"lists", lists, 2, "every list of 0-3 values out of 33 critical words x 3 ways of building it"},
        {"long", longlists, 2, "lists of 4 to 40 values with each critical word at every place"},
        {"booleans", booleans, 2, "14 words in every mixture of cases x every deletion, insertion and substitution of one character, alone and in lists"},
        {"script", script, 1, "every critical word, quoted and unquoted, through the parser"},
    });
}
