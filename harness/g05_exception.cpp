/* G05: exceptions carry their complete message. */
#include "mc.h"
#include <softlib/SOFTLibException.h>
#include <softlib/SFileException.h>
#include <softlib/ConfigurationException.h>
#include <memory>
using namespace std;

static string filler(int n, int seed) { string s(n,'x'); for (int i=0;i<n;i++) s[i]=(char)('!'+(i*7+seed)%90); for (char& ch : s) if (ch=='%') ch='&'; return s; }
static void same(mc::Ctx& c, const SOFTLibException& e, const string& want, const char *when) {
    c.step(); c.require(want==e.what(),"%s: message of %zu characters (%s), expected %zu (%s)",when,strlen(e.what()),mc::show(string(e.what()).substr(0,60)).c_str(),want.size(),mc::show(want.substr(0,60)).c_str());
    c.require(e.whats()==want,"%s: whats() differs from what()",when);
    const std::exception& b=e; c.require(want==b.what(),"%s: std::exception::what() differs",when);
}
/* everything a caller does with an exception after it was built */
template<class E> static void histories(mc::Ctx& c, const function<E()>& mk, const string& want) {
    int h=c.pick(8); c.note(mc::fmt("history %d",h));
    switch (h) {
        case 0: same(c,mk(),want,"as built"); break;
        case 1: { bool got=false; try { throw mk(); } catch (E& e) { same(c,e,want,"caught by its own type"); got=true; } c.require(got,"not caught"); break; }
        case 2: { bool got=false; try { throw mk(); } catch (SOFTLibException& e) { same(c,e,want,"caught as SOFTLibException"); got=true; } c.require(got,"not caught"); break; }
        case 3: { bool got=false; try { throw mk(); } catch (std::exception& e) { c.require(want==e.what(),"caught as std::exception"); c.step(); got=true; } c.require(got,"not caught"); break; }
        case 4: { bool got=false; try { try { throw mk(); } catch (E&) { throw; } } catch (SOFTLibException& e) { same(c,e,want,"rethrown"); got=true; } c.require(got,"not caught"); break; }
        case 5: { unique_ptr<E> a(new E(mk())); E b(*a); a.reset(); same(c,b,want,"copy outliving the original"); E d=mk(); d=b; same(c,d,want,"assigned"); same(c,b,want,"source of an assignment"); break; }
        case 6: { exception_ptr p; try { throw mk(); } catch (...) { p=current_exception(); } bool got=false; try { rethrow_exception(p); } catch (E& e) { same(c,e,want,"stored and rethrown"); got=true; } c.require(got,"not caught"); break; }
        case 7: { E a=mk(); E b=std::move(a); same(c,b,want,"moved"); vector<E> v; for (int i=0;i<3;i++) v.push_back(b); for (auto& x : v) same(c,x,want,"in a container"); break; }
    }
    c.state(mc::hstr(want,h));
}
/* lengths across every buffer boundary */
static const vector<int>& lengths(bool th) {
    static vector<int> q,t; if (q.empty()) { for (int b : {0,16,64,128,256,512,1000,1024,2000,2048,4096,8192,10000,16384,65536}) for (int d=-3;d<=3;d++) if (b+d>=0) q.push_back(b+d); for (int i=0;i<=5000;i++) t.push_back(i); for (int x : q) if (x>5000) t.push_back(x); vector<int> r; for (int i=0;i<=1100;i++) r.push_back(i); for (int x : q) if (x>1100) r.push_back(x); q=r; }
    return th? t : q;
}
template<class E> static void formats(mc::Ctx& c, int f, int n) {
    switch (f) {
        case 0: { string m=filler(n,1); histories<E>(c,[=]{ return E(m); },m); return; }
        case 1: { string m=filler(n,2); histories<E>(c,[=]{ string tmp=m; return E("%s",tmp.c_str()); },m); return; }
        case 2: { string m=filler(n,3); histories<E>(c,[=]{ string fm=m+"%d"; return E(fm,12345); },m+"12345"); return; }
        case 3: { string m=filler(n,4); histories<E>(c,[=]{ return E("%s: %zu/%d '%c' %s",m.c_str(),(size_t)18446744073709551615ull,-7,'q',"end"); },m+": 18446744073709551615/-7 'q' end"); return; }
        case 4: { string w=to_string(n); string want; want=mc::fmt("%.6f|",1.5)+string(max(0,n-2),' ')+(n<2? "42" : "42"); if (n<2) want="1.500000|42"; histories<E>(c,[=]{ return E("%f|%*d",1.5,n,42); },want); return; }
        case 5: { string m=filler(n,5); histories<E>(c,[=]{ return E("100%% of %s%%",m.c_str()); },"100% of "+m+"%"); return; }
        case 6: { string m="50% "+filler(n,6)+" %s %d %n"; histories<E>(c,[=]{ return E(m); },m); return; } // no arguments: the text is taken literally
    }
}
static void soft(mc::Ctx& c) { int f=c.pick(7); int n=c.pickOf(lengths(c.thorough)); c.note(mc::fmt("SOFTLibException, form %d, length %d",f,n)); formats<SOFTLibException>(c,f,n); }
static void sfile(mc::Ctx& c) { int f=c.pick(7); int n=c.pickOf(lengths(c.thorough)); c.note(mc::fmt("SFileException, form %d, length %d",f,n)); formats<SFileException>(c,f,n); }
static void conf(mc::Ctx& c) { int f=c.pick(7); int n=c.pickOf(lengths(c.thorough)); c.note(mc::fmt("ConfigurationException, form %d, length %d",f,n)); formats<ConfigurationException>(c,f,n); }
static void located(mc::Ctx& c) { // location and text
    static const vector<size_t> L={0,1,9,10,4294967295ull,4294967296ull,18446744073709551615ull}; size_t l=c.pickOf(L), p=c.pickOf(L); int fl=c.pickOf(vector<int>{0,1,8,200,996,1500}), n=c.pickOf(vector<int>{0,1,5,900,970,971,972,973,974,975,976,977,978,979,980,985,990,991,992,993,994,995,996,997,998,999,1000,1001,3000}); bool args=c.flip();
    string file=filler(fl,8)+(fl? "%d":""), m=filler(n,9), want=file+":"+to_string(l)+":"+to_string(p)+": "+m+(args?"=17":"");
    auto mk=[=]{ return args? ConfigurationException(l,p,file,m+"=%d",17) : ConfigurationException(l,p,file,m); };
    ConfigurationException e=mk(); c.require(e.GetLine()==l&&e.GetCharpos()==p,"line or position wrong"); ConfigurationException d(e); c.require(d.GetLine()==l&&d.GetCharpos()==p,"line or position of the copy wrong");
    histories<ConfigurationException>(c,mk,want);
}
static void two(mc::Ctx& c) { // several exceptions alive at the same time do not share anything
    static const vector<int> N={0,5,998,999,1000,1001,2500}; int a=c.pickOf(N), b=c.pickOf(N), d=c.pickOf(N); string sa=filler(a,1), sb=filler(b,2), sd=filler(d,3);
    try { throw SFileException("%s!",sa.c_str()); } catch (SFileException& x) { try { throw ConfigurationException("%s?",sb.c_str()); } catch (ConfigurationException& y) { SOFTLibException z("%s.",sd.c_str()), w; same(c,x,sa+"!","outer"); same(c,y,sb+"?","inner"); same(c,z,sd+".","third"); same(c,w,"","empty"); w=z; z=y; same(c,w,sd+".","assigned"); same(c,z,sb+"?","assigned"); same(c,y,sb+"?","source"); } same(c,x,sa+"!","after the inner one is gone"); }
    c.state(mc::mix(mc::mix(a,b),d));
}
static void encoding(mc::Ctx& c) { // a message that cannot be formatted is reported unformatted
    int n=c.pickOf(vector<int>{0,10,990,1500}); string m=filler(n,1)+"%ls"; wchar_t bad[2]={(wchar_t)0x20ac,0}; SOFTLibException e(m,bad); c.step(); c.require(string(e.what()).substr(0,n)==m.substr(0,n),"the text of a message that cannot be formatted is lost"); c.state(n);
}
int main(int argc, char **argv) {
    return mc::run(argc, argv, "G05", {
        {"soft", soft, 2, "7 forms x message lengths (quick: every length up to 1100 and +-3 around larger powers of two and of ten; thorough: every length up to 5000) x 8 build/throw/copy/move/rethrow histories"},
        {"sfile", sfile, 2, "same for SFileException"},
        {"config", conf, 2, "same for ConfigurationException"},
        {"located", located, 2, "7x7 line/position values x 6 file name lengths x 29 text lengths x with/without arguments x 8 histories"},
        {"several", two, 2, "7^3 lengths of three exceptions alive at the same time"},
        {"encoding", encoding, 1, "4 lengths of a message with an unencodable argument"},
    });
}
