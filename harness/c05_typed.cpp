/* C05: typed settings hold exactly the values given, through every history of setting, copying and overwriting. */
#include "mc.h"
#include <softlib/Configuration/ConfigurationScript.h>
#include <softlib/Configuration/ConfigurationSFile.h>
#include <softlib/SOFTLibException.h>
#include <cmath>
#include <memory>
using namespace std;
typedef __int128 i128;
enum Ty { B, I32, I64, U32, U64, R, S };
static const char *TN[]={"bool","int32","int64","uint32","uint64","real","string"};
struct Val { bool b=false; i128 i=0; double r=0; string s; };
struct Mod { Ty t=B; vector<Val> v; bool integer() const { return t==I32||t==I64||t==U32||t==U64; } bool numeric() const { return integer()||t==R; } };
struct Named : SettingSFile { using SettingSFile::SettingSFile; void nm(const string& n) { name=n; } };
static Val iv(i128 i) { Val v; v.i=i; return v; } static Val rv(double r) { Val v; v.r=r; return v; } static Val sv(const string& s) { Val v; v.s=s; return v; } static Val bv(bool b) { Val v; v.b=b; return v; }
static const vector<Val>& pool(Ty t) {
    static const i128 one=1;
    static const vector<vector<Val>> P={
        {bv(false),bv(true)},
        {iv(0),iv(1),iv(-1),iv((one<<31)-1),iv(-(one<<31))},
        {iv(0),iv(7),iv(-1),iv((one<<31)-1),iv(one<<31),iv(-(one<<31)),iv(-(one<<31)-1),iv((one<<32)-1),iv(one<<32),iv((one<<63)-1),iv(-(one<<63))},
        {iv(0),iv(3),iv((one<<31)-1),iv(one<<31),iv((one<<32)-1)},
        {iv(0),iv(9),iv((one<<31)-1),iv(one<<31),iv((one<<32)-1),iv(one<<32),iv((one<<63)-1),iv(one<<63),iv((one<<64)-1)},
        {rv(0),rv(1),rv(-3),rv(1.5),rv(-0.25),rv(1e10),rv(2147483648.),rv(-2147483649.),rv(4294967296.),rv(1e300)},
        {sv(""),sv("a"),sv("yes"),sv("12"),sv("x y")}};
    return P[t];
}
template<class T> static vector<T> *vec(const Mod& m) { auto *v=new vector<T>; for (auto& x : m.v) v->push_back((T)x.i); return v; }
static vector<double> *vecr(const Mod& m) { auto *v=new vector<double>; for (auto& x : m.v) v->push_back(x.r); return v; }
static vector<bool> *vecb(const Mod& m) { auto *v=new vector<bool>; for (auto& x : m.v) v->push_back(x.b); return v; }
static vector<string> *vecs(const Mod& m) { auto *v=new vector<string>; for (auto& x : m.v) v->push_back(x.s); return v; }
static Named *make(const Mod& m) {
    switch (m.t) { case B: return new Named(vecb(m)); case I32: return new Named(vec<int32_t>(m)); case I64: return new Named(vec<int64_t>(m)); case U32: return new Named(vec<uint32_t>(m)); case U64: return new Named(vec<uint64_t>(m)); case R: return new Named(vecr(m)); default: return new Named(vecs(m)); }
}
static void put(SettingSFile& s, const Mod& m) {
    switch (m.t) { case B: s.SetValueBool(vecb(m)); break; case I32: s.SetValueInt32(vec<int32_t>(m)); break; case I64: s.SetValueInt64(vec<int64_t>(m)); break; case U32: s.SetValueUInt32(vec<uint32_t>(m)); break; case U64: s.SetValueUInt64(vec<uint64_t>(m)); break; case R: s.SetValueReal(vecr(m)); break; default: s.SetValueString(vecs(m)); }
}
static Mod choose(mc::Ctx& c, int maxn, int stride=1) {
    Mod m; m.t=(Ty)c.pick(7); int n=1+c.pick(maxn); auto& p=pool(m.t);
    for (int i=0;i<n;i++) { if (stride==1) m.v.push_back(p[c.pick((int)p.size())]); else { int k=c.pick(2); m.v.push_back(k? p[p.size()-1-i%p.size()] : p[i%p.size()]); } }
    return m;
}
static string str(const Mod& m) { string s=string(TN[m.t])+"["; for (auto& x : m.v) { if (m.t==S) s+=mc::show(x.s); else if (m.t==R) s+=to_string(x.r); else if (m.t==B) s+=x.b?"yes":"no"; else s+=to_string((double)x.i); s+=" "; } return s+"]"; }
template<class F> static bool throws(F f) { try { f(); return false; } catch (SOFTLibException&) { return true; } catch (exception&) { return true; } }
static void same(mc::Ctx& c, const Setting& s, const Mod& m, const char *who) {
    size_t n=m.v.size(); uint64_t h=m.t*31+n;
    #define Q(cond,...) c.require(cond,"%s: " ,who,##__VA_ARGS__)
    c.require(s.GetNumberOfValues()==n,"%s: %zu values instead of %zu",who,s.GetNumberOfValues(),n);
    for (unsigned i=0;i<n;i++) {
        const Val& x=m.v[i]; i128 lo32=-((i128)1<<31), hi32=((i128)1<<31)-1, hiu32=((i128)1<<32)-1, hi63=((i128)1<<63)-1;
        // predicates
        c.require(s.IsBool(i)==(m.t==B),"%s: IsBool(%u)",who,i);
        if (!m.numeric()) c.require(!s.IsInteger(i)&&!s.IsInteger32(i)&&!s.IsInteger64(i)&&!s.IsUnsignedInteger32(i)&&!s.IsUnsignedInteger64(i)&&!s.IsScalar(i),"%s: value %u of type %s passes for a number",who,i,TN[m.t]);
        else { c.require(s.IsInteger(i),"%s: IsInteger(%u) does not hold",who,i); c.require(s.IsScalar(i),"%s: IsScalar(%u) does not hold",who,i); }
        if (m.integer()) {
            c.require(s.IsInteger32(i)==(x.i>=lo32&&x.i<=hi32),"%s: IsInteger32(%u) is %d",who,i,(int)s.IsInteger32(i));
            c.require(s.IsUnsignedInteger32(i)==(x.i>=0&&x.i<=hiu32),"%s: IsUnsignedInteger32(%u) is %d",who,i,(int)s.IsUnsignedInteger32(i));
            c.require(s.IsUnsignedInteger64(i)==(x.i>=0),"%s: IsUnsignedInteger64(%u) is %d",who,i,(int)s.IsUnsignedInteger64(i));
            if (m.t==I64) c.require(s.IsInteger64(i),"%s: IsInteger64(%u) does not hold",who,i);
            if (m.t==U64 && x.i>hi63) c.require(!s.IsInteger64(i),"%s: IsInteger64(%u) holds",who,i);
            if (x.i<=hi63) c.require((i128)s.GetInteger(i)==x.i && (i128)s.GetInteger64(i)==x.i,"%s: GetInteger(%u)=%lld",who,i,(long long)s.GetInteger(i));
            if (x.i>=lo32&&x.i<=hi32) c.require((i128)s.GetInteger32(i)==x.i,"%s: GetInteger32(%u)=%d",who,i,s.GetInteger32(i));
            if (x.i>=0&&x.i<=hiu32) c.require((i128)s.GetUnsignedInteger32(i)==x.i,"%s: GetUnsignedInteger32(%u)=%u",who,i,s.GetUnsignedInteger32(i));
            if (x.i>=0) c.require((i128)s.GetUnsignedInteger64(i)==x.i,"%s: GetUnsignedInteger64(%u)=%llu",who,i,(unsigned long long)s.GetUnsignedInteger64(i));
            c.require(s.GetScalar(i)==(double)x.i,"%s: GetScalar(%u)=%.17g",who,i,s.GetScalar(i)); h=mc::mix(h,(uint64_t)x.i);
        } else if (m.t==R) {
            double d=s.GetScalar(i); c.require(memcmp(&d,&x.r,8)==0,"%s: GetScalar(%u)=%.17g instead of %.17g",who,i,d,x.r); h=mc::mix(h,mc::hdbl(d));
            if (x.r==floor(x.r) && fabs(x.r)<9e18) { i128 k=(i128)x.r; c.require((i128)s.GetInteger(i)==k && (i128)s.GetInteger64(i)==k,"%s: GetInteger(%u)=%lld",who,i,(long long)s.GetInteger(i));
                c.require(s.IsInteger32(i)==(k>=lo32&&k<=hi32),"%s: IsInteger32(%u) is %d for %g",who,i,(int)s.IsInteger32(i),x.r); c.require(s.IsUnsignedInteger32(i)==(k>=0&&k<=hiu32),"%s: IsUnsignedInteger32(%u) is %d for %g",who,i,(int)s.IsUnsignedInteger32(i),x.r);
                if (k>=lo32&&k<=hi32) c.require((i128)s.GetInteger32(i)==k,"%s: GetInteger32(%u)",who,i); if (k>=0) c.require(s.IsUnsignedInteger64(i) && (i128)s.GetUnsignedInteger64(i)==k,"%s: GetUnsignedInteger64(%u)",who,i); else c.require(!s.IsUnsignedInteger64(i),"%s: IsUnsignedInteger64(%u) for %g",who,i,x.r); }
        } else if (m.t==B) { c.require(s.GetBool(i)==x.b,"%s: GetBool(%u)",who,i); h=mc::mix(h,x.b); }
        else { c.require(s.GetString(i)==x.s,"%s: GetString(%u)=%s",who,i,s.GetString(i).c_str()); h=mc::mix(h,mc::hstr(x.s)); }
        if (m.t!=B) c.require(throws([&]{ s.GetBool(i); }),"%s: GetBool of type %s is no error",who,TN[m.t]);
        if (m.t!=S) c.require(throws([&]{ s.GetString(i); }),"%s: GetString of type %s is no error",who,TN[m.t]);
        if (!m.numeric()) c.require(throws([&]{ s.GetScalar(i); }) && throws([&]{ s.GetInteger(i); }) && throws([&]{ s.GetInteger32(i); }) && throws([&]{ s.GetUnsignedInteger64(i); }),"%s: a number out of type %s is no error",who,TN[m.t]);
    }
    unsigned k=n; // one past the end: an exception, never an answer
    if (m.t==B) c.require(throws([&]{ s.GetBool(k); }),"%s: GetBool past the end",who); else if (m.t==S) c.require(throws([&]{ s.GetString(k); }),"%s: GetString past the end",who); else c.require(throws([&]{ s.GetScalar(k); }) && throws([&]{ s.GetInteger(k); }),"%s: number past the end",who);
    c.require(s.IsScalar()==(m.numeric() && n==1),"%s: IsScalar() is %d",who,(int)s.IsScalar());
    c.require(s.IsBool()==(m.t==B),"%s: IsBool() is %d",who,(int)s.IsBool()); c.require(n!=1 || (s.IsInteger()==s.IsInteger(0) && s.IsInteger32()==s.IsInteger32(0) && s.IsInteger64()==s.IsInteger64(0) && s.IsUnsignedInteger32()==s.IsUnsignedInteger32(0) && s.IsUnsignedInteger64()==s.IsUnsignedInteger64(0)),"%s: the predicates of the setting and of its only value differ: %d%d%d%d%d",who,(int)s.IsInteger(),(int)s.IsInteger32(),(int)s.IsInteger64(),(int)s.IsUnsignedInteger32(),(int)s.IsUnsignedInteger64());
    c.require(s.IsNumericVector()==m.numeric(),"%s: IsNumericVector() is %d",who,(int)s.IsNumericVector());
    for (unsigned q=0;q<n+3;q++) c.require(s.IsNumericVector(q)==(m.numeric() && q==n),"%s: IsNumericVector(%u) is %d for %zu values",who,q,(int)s.IsNumericVector(q),n);
    if (m.numeric()) { auto v=s.GetNumericVector(); c.require(v.size()==n,"%s: numeric vector has %zu elements instead of %zu",who,v.size(),n); for (unsigned i=0;i<n;i++) c.require(v[i]==(m.t==R? m.v[i].r : (double)m.v[i].i),"%s: numeric vector element %u is %g",who,i,v[i]); }
    else c.require(throws([&]{ s.GetNumericVector(); }),"%s: numeric vector of type %s is no error",who,TN[m.t]);
    if (m.t==S) { auto v=s.GetTextVector(); c.require(v.size()==n,"%s: text vector has %zu elements",who,v.size()); for (unsigned i=0;i<n;i++) c.require(v[i]==m.v[i].s,"%s: text vector element %u",who,i); } else c.require(throws([&]{ s.GetTextVector(); }),"%s: text vector of type %s is no error",who,TN[m.t]);
    c.step(); c.state(h);
}
static void values(mc::Ctx& c) {
    Mod m=choose(c,c.thorough?3:2); c.noteL([&]{ return str(m); });
    unique_ptr<Named> s(make(m)); s->nm("q"); same(c,*s,m,"setting");
    unique_ptr<Setting> k(s->Copy()); same(c,*k,m,"copy"); c.require(k->GetName()=="q" && k->HasName("q"),"the copy has the name '%s'",k->GetName().c_str());
    s.reset(); same(c,*k,m,"copy of a deleted setting");
}
static const vector<vector<string>>& words() { static const vector<vector<string>> W={{"yes"},{"No"},{"12"},{"-3"},{"2147483647"},{"2147483648"},{"-2147483649"},{"4294967296"},{"9223372036854775807"},{"9223372036854775808"},{"18446744073709551615"},{"1.5"},{"1e3"},{"abc"},{""},{"1","2"},{"1.5","-2","7"},{"a","b"},{"1","b"},{"yes","no"},{"a","2","yes"},{"2147483648","5"},{"x","x","y"}}; return W; }
/* after being overwritten with script text: the same values, as numbers where they are numbers */
static void from(mc::Ctx& c, const Setting& s, const vector<string>& w) {
    SettingScript t("t",w); size_t n=w.size(); c.require(s.GetNumberOfValues()==n,"%zu values after taking over %zu",s.GetNumberOfValues(),n);
    if (t.IsBool()) { c.require(s.IsBool() && s.GetBool()==t.GetBool(),"boolean %s not taken over",w[0].c_str()); return; }
    bool num=true; for (unsigned i=0;i<n;i++) num=num&&t.IsScalar(i);
    if (num) { c.require(s.IsNumericVector() && s.IsNumericVector(n),"numbers are not numbers any more"); auto v=s.GetNumericVector(), q=t.GetNumericVector(); c.require(v==q,"numeric vector changed"); for (unsigned i=0;i<n;i++) c.require(s.GetScalar(i)==t.GetScalar(i),"number %u is %g",i,s.GetScalar(i));
        if (n==1 && t.IsInteger64()) c.require(s.IsInteger() && s.GetInteger()==t.GetInteger(),"integer is %lld",(long long)s.GetInteger()); if (n==1 && t.IsUnsignedInteger64()) c.require(s.GetUnsignedInteger64()==t.GetUnsignedInteger64(),"integer is %llu",(unsigned long long)s.GetUnsignedInteger64()); }
    else { c.require(s.GetTextVector()==w,"text changed"); for (unsigned i=0;i<n;i++) c.require(s.GetString(i)==w[i],"text %u is %s",i,s.GetString(i).c_str()); }
    c.step(); c.state(mc::hstr(w[0])+n);
}
static void text(mc::Ctx& c) {
    Mod m=choose(c,2,2); auto& w=c.pickOf(words()); c.noteL([&]{ return str(m)+" <- "+w[0]+"..."; });
    unique_ptr<Named> s(make(m)); s->nm("q"); { SettingScript t("t",w); s->OverwriteValues(&t); } from(c,*s,w); c.require(s->GetName()=="q","overwriting changed the name");
    unique_ptr<Setting> k(s->Copy()); from(c,*k,w);
    if (k->GetNumberOfValues() && !k->IsBool() && !k->IsNumericVector()) { SettingScript b("b","old"); b.OverwriteValues(k.get()); c.require(b.GetTextVector()==w,"text does not come back into a script setting"); }
}
/* three settings, every short history of new values, overwriting, copying and deleting */
static void history(mc::Ctx& c) {
    unique_ptr<Named> base[2]; Setting *s[3]; Mod m[3]; unique_ptr<Setting> cp;
    static const int SH[7][2]={{1,0},{4,1},{8,0},{4,1},{8,1},{3,0},{4,0}};
    auto mk=[&](int n){ Mod q; q.t=(Ty)c.pick(7); auto& p=pool(q.t); for (int i=0;i<=n;i++) q.v.push_back(p[(SH[q.t][0]+i)%p.size()]); return q; };
    auto again=[&](int n){ Mod q; q.t=(Ty)((m[0].t+1+2*c.pick(2))%7); auto& p=pool(q.t); for (int i=0;i<=n;i++) q.v.push_back(p[(SH[q.t][0]+i)%p.size()]); return q; };
    for (int i=0;i<2;i++) { m[i]= i&&!c.thorough? again(i) : mk(i); base[i].reset(make(m[i])); base[i]->nm(i?"b":"a"); s[i]=base[i].get(); } string nc;
    int D=c.thorough?4:3; string log=str(m[0])+" "+str(m[1]);
    for (int d=0;d<D;d++) {
        switch (c.pick(6)) {
            case 0: { int i=c.pick(2); m[i]=mk(1); put(*base[i],m[i]); log+=" set"+to_string(i)+str(m[i]); break; }
            case 1: s[0]->OverwriteValues(s[1]); m[0]=m[1]; log+=" 0<-1"; break;
            case 2: s[1]->OverwriteValues(s[0]); m[1]=m[0]; log+=" 1<-0"; break;
            case 3: { int i=c.pick(2); cp.reset(s[i]->Copy()); m[2]=m[i]; nc=i?"b":"a"; log+=" copy"+to_string(i); break; }
            case 4: { int i=c.pick(2); s[i]->OverwriteValues(s[i]); log+=" self"+to_string(i); break; }
            case 5: if (!cp) return; { int i=c.pick(2); s[i]->OverwriteValues(cp.get()); m[i]=m[2]; log+=" "+to_string(i)+"<-copy"; break; }
        }
        c.note(log);
        for (int i=0;i<2;i++) { same(c,*s[i],m[i],i?"b":"a"); c.require(s[i]->GetName()==(i?"b":"a"),"name changed"); } if (cp) { same(c,*cp,m[2],"copy"); c.require(cp->GetName()==nc,"name of the copy is '%s'",cp->GetName().c_str()); }
    }
}
/* long lists: a value out of range anywhere must be noticed, order and number kept */
static void longs(mc::Ctx& c) {
    static const int N[]={3,4,5,8,9,16,17,33,100}; int n=N[c.pick(9)]; auto mk=[&](int t, int sh){ Mod q; q.t=(Ty)t; auto& p=pool(q.t); for (int i=0;i<n+(sh>2);i++) q.v.push_back(p[(i*(sh+1)+sh)%p.size()]); return q; }; int t=c.pick(7); Mod m=mk(t,c.pick(3)), o=mk((t+1+c.pick(6))%7,3); c.noteL([&]{ return mc::fmt("%d values, %s and %s",n,TN[m.t],TN[o.t]); });
    unique_ptr<Named> a(make(m)), b(make(o)); a->nm("a"); b->nm("b"); same(c,*a,m,"setting"); unique_ptr<Setting> k(a->Copy()); same(c,*k,m,"copy"); a->OverwriteValues(b.get()); same(c,*a,o,"overwritten"); same(c,*b,o,"source"); same(c,*k,m,"copy"); b.reset(); a->OverwriteValues(k.get()); same(c,*a,m,"overwritten back"); put(*a,o); same(c,*a,o,"new values");
    int bad=c.pick(4), at=c.pick(3); vector<string> w; for (int i=0;i<n;i++) w.push_back(to_string(i*7-3)); if (bad) w[at==0?0:at==1?n/2:n-1]= bad==1? "1.5" : bad==2? "4294967296" : "x"; SettingScript s("s",w); a->OverwriteValues(&s); from(c,*a,w); k.reset(a->Copy()); from(c,*k,w); }
/* typed settings inside configuration blocks: added, replaced, merged, copied */
static void block(mc::Ctx& c) {
    Mod m[3]; for (auto& q : m) { q.t=(Ty)c.pick(7); auto& p=pool(q.t); for (int i=0;i<2;i++) q.v.push_back(p[(&q-m+i)%p.size()]); }
    auto mk=[&](int i, const string& n){ Named *s=make(m[i]); s->nm(n); return s; };
    ConfigBlock a(0,"<root>"), b(0,"<root>"); a.AddSetting(mk(0,"x")); int how=c.pick(3); c.noteL([&]{ return str(m[0])+str(m[1])+str(m[2])+" how "+to_string(how); });
    if (how==0) { a.AddSetting(mk(1,"x")); c.require(a.GetAllSettings().size()==1,"replaced setting is there twice"); same(c,*a.GetSetting("x"),m[1],"replaced"); }
    else if (how==1) { b.AddSetting(mk(1,"x")); b.AddSetting(mk(2,"y")); auto *u=a.Merge(&b,true); delete u; same(c,*a.GetSetting("x"),m[1],"merged"); c.require(a.HasSetting("y"),"new setting missing after the merge"); same(c,*a.GetSetting("y"),m[2],"merged"); same(c,*b.GetSetting("x"),m[1],"source"); same(c,*b.GetSetting("y"),m[2],"source"); }
    else { a.AddSetting(mk(2,"y")); ConfigBlock k(&a); c.require(k.HasSetting("x")&&k.HasSetting("y"),"copied block lost its settings"); same(c,*k.GetSetting("x"),m[0],"copied"); same(c,*k.GetSetting("y"),m[2],"copied"); k.AddSetting(mk(1,"x")); same(c,*a.GetSetting("x"),m[0],"original"); same(c,*k.GetSetting("x"),m[1],"copied"); }
}
int main(int argc, char **argv) {
    cerr.rdbuf(nullptr);
    return mc::run(argc, argv, "C05", {
        {"values", values, 3, "every list of 1-2 (thorough 1-3) values out of the limits of each of the 7 types, and its copy"},
        {"text", text, 2, "typed settings of every type and 1-2 values x 23 script values taken over, copied, and handed back"},
        {"history", history, 3, "two settings (of every pair of types; quick: every type with two others) and a copy, every history of 3 (thorough 4) new values / overwrites / copies"},
        {"long", longs, 2, "lists of 3 to 100 values of every type, copied, overwritten by longer lists of every other type and by texts with one unusual word at the start, middle or end"},
        {"block", block, 2, "settings of every type added to, replaced in, merged between and copied with configuration blocks"},
    });
}
