/* G03: ProgressTracker under a controlled scheduler.
 * ProgressTracker.cpp and Timer.cpp are compiled with -fsanitize=thread, but instead of the TSan run time this file
 * provides the hooks: each access to shared memory (the tracker, what it allocated, globals), each lock operation and each
 * output is a scheduling point.  "Threads" are coroutines; all schedules with at most P preemptions are executed. */
#include "mc.h"
#include <ucontext.h>
#include <memory>
#include <new>
#include <sys/time.h>
typedef long long ll;
/* ---------------- clock */
static ll g_ns=0; static bool g_fake=false;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) { if (g_fake) { t->tv_sec=g_ns/1000000000; t->tv_nsec=g_ns%1000000000; return 0; } return syscall(SYS_clock_gettime,id,t); }
/* ---------------- shared memory ranges */
struct Range { uintptr_t a,b; }; static Range g_rng[256]; static int g_nr=0; static bool g_track=false;
void *operator new(size_t n) { void *p=malloc(n?n:1); if (!p) throw std::bad_alloc(); if (g_track && g_nr<256) g_rng[g_nr++]={(uintptr_t)p,(uintptr_t)p+n}; return p; }
void operator delete(void *p) noexcept { free(p); } void operator delete(void *p, size_t) noexcept { free(p); }
extern "C" char __data_start, _end;
/* ---------------- coroutines */
struct Co { ucontext_t u; std::unique_ptr<char[]> stack; bool done=false; const void *want=nullptr; std::function<void()> body; };
static std::vector<std::unique_ptr<Co>> g_co; static int g_cur=-1; static ucontext_t g_sched; static std::map<const void*,std::pair<int,int>> g_lock; // lock -> owner, depth
static std::string g_err;
static void point() { if (g_cur>=0) { Co& c=*g_co[g_cur]; swapcontext(&c.u,&g_sched); } }
static bool shared(const void *p) { uintptr_t a=(uintptr_t)p; if (a>=(uintptr_t)&__data_start && a<(uintptr_t)&_end) { return a<(uintptr_t)&g_rng || a>=(uintptr_t)(&g_rng+1); } for (int i=0;i<g_nr;i++) if (a>=g_rng[i].a && a<g_rng[i].b) return true; return false; }
static inline void acc(const void *p) { if (g_cur>=0 && shared(p)) point(); }
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_vptr_update(void**,void*) {} void __tsan_vptr_read(void **p) { acc(p); }
#define RW(n) void __tsan_read##n(void *p) { acc(p); } void __tsan_write##n(void *p) { acc(p); } void __tsan_unaligned_read##n(void *p) { acc(p); } void __tsan_unaligned_write##n(void *p) { acc(p); } void __tsan_volatile_read##n(void *p) { acc(p); } void __tsan_volatile_write##n(void *p) { acc(p); } void __tsan_read_write##n(void *p) { acc(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t) { acc(p); } void __tsan_write_range(void *p, size_t) { acc(p); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { acc(d); acc(s); return memcpy(d,s,n); } void *__tsan_memset(void *d, int v, size_t n) { acc(d); return memset(d,v,n); } void *__tsan_memmove(void *d, const void *s, size_t n) { acc(d); acc(s); return memmove(d,s,n); }
#define AT(n,T) T __tsan_atomic##n##_load(const volatile T *p, int) { acc((void*)p); return *p; } void __tsan_atomic##n##_store(volatile T *p, T v, int) { acc((void*)p); *p=v; } T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { acc((void*)p); T o=*p; *p=v; return o; } \
 T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { acc((void*)p); T o=*p; *p=o+v; return o; } T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { acc((void*)p); T o=*p; *p=o-v; return o; } T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { acc((void*)p); T o=*p; *p=o&v; return o; } T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { acc((void*)p); T o=*p; *p=o|v; return o; } T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { acc((void*)p); T o=*p; *p=o^v; return o; } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { acc((void*)p); if (*p==*e) { *p=v; return 1; } *e=*p; return 0; } int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { return __tsan_atomic##n##_compare_exchange_strong(p,e,v,a,b); } T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int, int) { acc((void*)p); T o=*p; if (o==e) *p=v; return o; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
/* ---------------- locks */
static void lockOp(const void *k, bool recursive=false) { if (g_cur<0) return; point(); for (;;) { auto it=g_lock.find(k); if (it==g_lock.end()) { g_lock[k]={g_cur,1}; return; } if (recursive && it->second.first==g_cur) { it->second.second++; return; } g_co[g_cur]->want=k; point(); g_co[g_cur]->want=nullptr; } }
static void unlockOp(const void *k) { if (g_cur<0) return; auto it=g_lock.find(k); if (it==g_lock.end()||it->second.first!=g_cur) { g_err="a lock is released by a thread that does not hold it"; return; } if (--it->second.second==0) g_lock.erase(it); point(); }
static int tryOp(const void *k) { if (g_cur<0) return 1; point(); if (g_lock.count(k)) return 0; g_lock[k]={g_cur,1}; return 1; }
static char K_CRIT, K_ATOMIC;
extern "C" {
void GOMP_critical_name_start(void **p) { lockOp(p); } void GOMP_critical_name_end(void **p) { unlockOp(p); } void GOMP_critical_start() { lockOp(&K_CRIT); } void GOMP_critical_end() { unlockOp(&K_CRIT); } void GOMP_atomic_start() { lockOp(&K_ATOMIC); } void GOMP_atomic_end() { unlockOp(&K_ATOMIC); }
void omp_init_lock(void*) {} void omp_destroy_lock(void*) {} void omp_set_lock(void *p) { lockOp(p); } void omp_unset_lock(void *p) { unlockOp(p); } int omp_test_lock(void *p) { return tryOp(p); }
void omp_init_nest_lock(void*) {} void omp_destroy_nest_lock(void*) {} void omp_set_nest_lock(void *p) { lockOp(p,true); } void omp_unset_nest_lock(void *p) { unlockOp(p); }
int omp_get_thread_num() { return g_cur<0?0:g_cur; } int omp_get_num_threads() { return g_co.empty()?1:(int)g_co.size(); }
int pthread_mutex_lock(pthread_mutex_t *m) { lockOp(m,true); return 0; } int pthread_mutex_unlock(pthread_mutex_t *m) { unlockOp(m); return 0; } int pthread_mutex_trylock(pthread_mutex_t *m) { return tryOp(m)?0:EBUSY; }
}
/* ---------------- output */
struct Out { int thread, call; std::string text; }; static std::vector<Out> g_out; static bool g_capture=false; static int g_call[8];
static void emit(const std::string& s) { point(); g_out.push_back({g_cur,g_cur<0?0:g_call[g_cur],s}); }
extern "C" {
int vprintf(const char *f, va_list ap) { if (!g_capture) return vfprintf(stdout,f,ap); char b[2048]; int n=vsnprintf(b,sizeof b,f,ap); emit(b); return n; }
int printf(const char *f, ...) { va_list ap; va_start(ap,f); int n=vprintf(f,ap); va_end(ap); return n; }
int __printf_chk(int, const char *f, ...) { va_list ap; va_start(ap,f); int n=vprintf(f,ap); va_end(ap); return n; }
int fprintf(FILE *o, const char *f, ...) { va_list ap; va_start(ap,f); int n= g_capture&&(o==stdout)? vprintf(f,ap) : vfprintf(o,f,ap); va_end(ap); return n; }
int puts(const char *s) { if (!g_capture) { fputs(s,stdout); fputs("\n",stdout); return 1; } emit(std::string(s)+"\n"); return 1; }
int putchar(int ch) { if (!g_capture) return fputc(ch,stdout); emit(std::string(1,(char)ch)); return ch; }
}
struct CapBuf : std::streambuf { std::streambuf *old; int overflow(int ch) override { if (!g_capture) return ch; if (ch!=EOF) emit(std::string(1,(char)ch)); return ch; } std::streamsize xsputn(const char *s, std::streamsize n) override { if (g_capture) emit(std::string(s,n)); return n; } };
static CapBuf g_cap;
#include <softlib/ProgressTracker.h>
using namespace std;
static void tramp() { Co& c=*g_co[g_cur]; c.body(); c.done=true; swapcontext(&c.u,&g_sched); }
struct World { unique_ptr<ProgressTracker> t; World() { g_fake=true; g_ns=1790000000LL*1000000000; g_out.clear(); g_lock.clear(); g_err.clear(); g_nr=0; } void make(ll n, ll np, bool col, bool est) { g_track=true; t.reset(new ProgressTracker(n,np,ProgressTracker::PROGRESS_LINES,col,est)); g_track=false; g_capture=true; } ~World() { g_capture=false; g_cur=-1; g_track=false; t.reset(); g_co.clear(); g_fake=false; } };
static ll threshold(ll n, ll np, ll k) { return k*(n/np)+min(k,n%np); }
/* one printed piece: a line "PROGRESS (k/N) :: ..." */
static string strip(const string& s) { string o; for (size_t i=0;i<s.size();i++) { if (s[i]=='\x1b') { while (i<s.size() && s[i]!='m') i++; } else o+=s[i]; } return o; }
static bool mark(const string& s, ll& k, ll& n) { size_t p=s.find('('); return p!=string::npos && sscanf(s.c_str()+p,"(%lld/%lld)",&k,&n)==2; }
struct Call { ll i; int p0=-1,p1=-1; };
/* -------- all interleavings */
static void threads(mc::Ctx& c, int T, int P, bool counter) {
    struct Cfg { ll n,np; vector<vector<ll>> rep; };
    static const vector<Cfg> F2={ {2,2,{{1},{2}}}, {2,1,{{1},{2}}}, {3,3,{{1,3},{2}}}, {4,2,{{1,3},{2,4}}}, {4,4,{{1,2},{3,4}}}, {5,2,{{2,5},{3,4}}}, {5,3,{{1,4},{2,5}}}, {4,3,{{4,4},{4,4}}}, {6,3,{{2,4,6},{1,3,5}}} };
    static const vector<Cfg> F3={ {3,3,{{1},{2},{3}}}, {3,2,{{1},{2},{3}}}, {4,2,{{2},{4},{3}}}, {4,4,{{1,4},{2},{3}}}, {5,5,{{5},{5},{5}}} };
    const Cfg& f=c.pickOf(T==2?F2:F3); bool est=c.flip();
    World w; w.make(f.n,f.np,false,est); c.note(mc::fmt("n=%lld nprint=%lld threads=%d %s%s",f.n,f.np,T,counter?"shared counter":"fixed reports",est?" estimate":""));
    vector<vector<Call>> calls(T); ll done=0; int prints=0; (void)prints;
    auto count=[&]{ int k=0; for (auto& o : g_out) if (o.text.find("PROGRESS")!=string::npos) k++; return k; };
    for (int t=0;t<T;t++) { g_co.emplace_back(new Co); Co& co=*g_co.back(); co.stack.reset(new char[65536]); getcontext(&co.u); co.u.uc_stack.ss_sp=co.stack.get(); co.u.uc_stack.ss_size=65536; co.u.uc_link=&g_sched; makecontext(&co.u,tramp,0);
        co.body=[&,t]{ for (size_t k=0;k<f.rep[t].size();k++) { ll i; point(); if (counter) { i=++done; point(); } else i=f.rep[t][k]; Call q; q.i=i; q.p0=count(); g_call[t]=(int)calls[t].size(); calls[t].push_back(q); w.t->PrintProgress(i); calls[t].back().p1=count(); } }; }
    int budget=P, cur=-1;
    for (int steps=0;;steps++) {
        vector<int> en; for (int t=0;t<T;t++) { Co& co=*g_co[t]; if (co.done) continue; if (co.want && g_lock.count(co.want)) continue; en.push_back(t); }
        bool all=true; for (auto& co : g_co) all=all&&co->done; if (all) break;
        c.require(!en.empty(),"deadlock: no thread can proceed"); c.require(steps<20000,"no progress"); if (!g_err.empty()) c.require(false,"%s",g_err.c_str());
        bool curOk=false; for (int t : en) curOk|= t==cur; int nx;
        if (curOk && budget==0) nx=cur; else if (curOk) { vector<int> o={cur}; for (int t : en) if (t!=cur) o.push_back(t); int k=o.size()>1? c.pick((int)o.size()) : 0; if (k) budget--; nx=o[k]; } else nx= en.size()>1? en[c.pick((int)en.size())] : en[0];
        if (nx!=cur) c.noteL([&]{ return mc::fmt("-> thread %d",nx); }); size_t before=g_out.size(); cur=nx; g_cur=nx; swapcontext(&g_sched,&g_co[nx]->u); g_cur=-1; g_ns+=1000000; for (size_t k=before;k<g_out.size();k++) c.noteL([&]{ return mc::fmt("thread %d prints ",nx)+mc::show(g_out[k].text); }); c.step();
    }
    c.require(g_lock.empty(),"a lock is still held at the end"); if (!g_err.empty()) c.require(false,"%s",g_err.c_str());
    // the output is whole lines, numbered 1,2,3,... in order, each justified by the report that printed it
    string all; vector<pair<int,int>> who; for (auto& o : g_out) { all+=o.text; } ll expect=1; size_t pos=0; map<pair<int,int>,int> perCall; ll m=0; size_t oi=0;
    for (auto& o : g_out) { ll k,n; if (o.text.find("PROGRESS")!=string::npos && mark(strip(o.text),k,n)) { c.require(k==expect,"mark %lld is printed where %lld is due",k,expect); expect++; m++; c.require(n==f.np && k<=f.np,"mark %lld/%lld of %lld",k,n,f.np); Call& q=calls[o.thread][o.call]; c.require(q.i>=threshold(f.n,f.np,k),"mark %lld, which stands for %lld of %lld, is printed by a report of %lld",k,threshold(f.n,f.np,k),f.n,q.i); c.require((++perCall[{o.thread,o.call}]==1),"one report prints two marks"); } oi++; }
    { istringstream is(all); string l; ll seen=0; while (getline(is,l)) { ll k,n; c.require(l.compare(0,8,"PROGRESS")==0 && mark(l,k,n),"garbled output line '%s'",l.c_str()); seen++; } c.require(seen==m,"lines and marks differ"); } (void)pos;
    // nothing was left out: a report that printed nothing had no mark due
    ll maxI=0; for (int t=0;t<T;t++) for (size_t k=0;k<calls[t].size();k++) { Call& q=calls[t][k]; maxI=max(maxI,q.i); if (!perCall.count({t,(int)k}) && q.p1<f.np) c.require(q.i<threshold(f.n,f.np,q.p1+1),"a report of %lld prints nothing although only %d marks were printed when it returned",q.i,q.p1); }
    mc::u64 h=mc::mix(f.n,f.np); for (auto& o : g_out) h=mc::mix(mc::mix(h,o.thread),o.call); for (auto& v : calls) for (auto& q : v) h=mc::mix(h,q.i*7+q.p1); c.state(h);
}
static void t2fixed(mc::Ctx& c) { threads(c,2,c.thorough?4:3,false); } static void t2counter(mc::Ctx& c) { threads(c,2,c.thorough?4:3,true); } static void t3fixed(mc::Ctx& c) { threads(c,3,c.thorough?3:2,false); } static void t3counter(mc::Ctx& c) { threads(c,3,c.thorough?3:2,true); }
/* -------- sequential: every total and mark count, in order, and with arbitrary reports */
static ll decode(const string& s) { ll ms=0; const char *p=s.c_str(); while (*p) { char *e; ll v=strtoll(p,&e,10); if (e==p) return -1; if (!strncmp(e,"ms",2)) { ms+=v; p=e+2; } else if (*e=='d') { ms+=v*86400000; p=e+1; } else if (*e=='h') { ms+=v*3600000; p=e+1; } else if (*e=='m') { ms+=v*60000; p=e+1; } else if (*e=='s') { ms+=v*1000; p=e+1; } else return -1; } return ms; }
static bool denotes(ll shown, ll ms) { return shown==ms || (shown==ms/1000*1000 && ms>=10000); } // whole seconds from ten seconds on
static void inorder(mc::Ctx& c) { // reports 1..n in order: every mark exactly once, the last one with the last report, with the right times
    ll n=1+c.pick(c.thorough?40:24), np=1+c.pick((int)n); bool col=c.flip(), est=c.flip(); static const vector<ll> DT={0,7,1500,61003,3600000,90061001}; ll dt=c.pickOf(DT); World w; w.make(n,np,col,est); c.note(mc::fmt("n=%lld nprint=%lld dt=%lldms",n,np,dt));
    ll m=0, last=g_ns, start=g_ns; for (ll i=1;i<=n;i++) { g_ns+=dt*1000000; size_t b=g_out.size(); w.t->PrintProgress(i); c.step(); bool due= i==threshold(n,np,m+1); string txt; for (size_t k=b;k<g_out.size();k++) txt+=g_out[k].text; c.require(due==!txt.empty(),"report %lld of %lld with %lld marks printed: %s",i,n,m,due?"the due mark is missing":"a mark is printed too early");
        if (!due) continue; m++; string s=strip(txt); ll k=0,tot=0; c.require((col?txt.find('\x1b')!=string::npos:txt==s) && mark(s,k,tot) && k==m && tot==np,"mark %lld is printed as '%s'",m,s.c_str()); c.require(s.back()=='\n' && std::count(s.begin(),s.end(),'\n')==1,"a mark is not one line");
        size_t q=s.find(":: "); c.require(q!=string::npos,"format"); istringstream is(s.substr(q+3)); string a,sl,r,pw; is>>a>>sl>>r>>pw; c.require(denotes(decode(a),(g_ns-start)/1000000),"%lld ms after the start, mark %lld reports '%s'",(g_ns-start)/1000000,m,a.c_str()); c.require(denotes(decode(r),(g_ns-last)/1000000),"%lld ms after the last mark, mark %lld reports '%s'",(g_ns-last)/1000000,m,r.c_str());
        if (est) { string e,rm,t; is>>e>>rm>>t; if (!t.empty()&&t[0]=='(') t=t.substr(1); c.require(decode(e)>=0&&decode(t)>=0,"estimate '%s' / '%s'",e.c_str(),t.c_str()); ll sum=decode(e)+(g_ns-start)/1000000; c.require(llabs(decode(t)-sum)<=1999,"total '%s' is not the elapsed plus the remaining time '%s'",t.c_str(),e.c_str()); if (m==np) c.require(decode(e)==0,"time remains after the last mark"); }
        last=g_ns; }
    c.require(m==np,"%lld of %lld marks printed after everything was reported",m,np); c.state(mc::mix(mc::mix(n,np),dt));
}
/* -------- estimates: marks at a constant or linearly growing pace; the estimate is the time that really remains */
static void estimates(mc::Ctx& c) {
    ll np=1+c.pick(c.thorough?16:10), per=1+c.pick(3), n=np*per; static const vector<ll> A={1,7,250,1500,61000,3600000}, G={0,1,13,400,60000}; ll a=c.pickOf(A), g=c.pickOf(G); bool col=c.flip(); World w; w.make(n,np,col,true); c.note(mc::fmt("n=%lld nprint=%lld first interval %lld ms, growing by %lld ms",n,np,a*per,g*per));
    vector<ll> D; for (ll k=0;k<np;k++) D.push_back((a+g*k)*per); ll m=0; 
    for (ll i=1;i<=n;i++) { g_ns+=(a+g*((i-1)/per))*1000000; size_t b=g_out.size(); w.t->PrintProgress(i); c.step(); if (g_out.size()==b) continue; m++; string s; for (size_t k=b;k<g_out.size();k++) s+=g_out[k].text; s=strip(s);
        size_t q=s.find(" passed, "); c.require(q!=string::npos,"no estimate in '%s'",s.c_str()); istringstream is(s.substr(q+9)); string e,rm,t; is>>e>>rm>>t; if (!t.empty()&&t[0]=='(') t=t.substr(1); ll left=0,past=0; for (ll k=0;k<np;k++) (k<m?past:left)+=D[k];
        if (m==1) left=(np-1)*D[0];  // only one interval is known
        c.require(denotes(decode(e),left),"after mark %lld, %lld ms remain but '%s' is reported",m,left,e.c_str()); c.require(denotes(decode(t),left+past),"after mark %lld, the total is %lld ms but '%s' is reported",m,left+past,t.c_str()); }
    c.require(m==np,"%lld of %lld marks",m,np); c.state(mc::mix(mc::mix(np,per),mc::mix(a,g)));
}
/* -------- long runs: many marks and large totals; reports just before and at every mark */
static void longruns(mc::Ctx& c) {
    static const vector<ll> NP={1,2,3,7,10,63,64,65,99,100,101,127,128,129,255,256,257,1000,1024,1025,5000}, NN={0,1,-1,7,1000003,2147483647LL,2147483648LL,2147483649LL,4294967295LL,4294967296LL,10000000000LL,1000000000000LL,4611686018427387LL}; ll np=c.pickOf(NP), n=c.pickOf(NN); bool est=c.flip(); if (n==0||n==1) n=np+n; else if (n<0) n=2*np-1; else if (n==7) n=7*np+np/2; if (n<np) return; World w; w.make(n,np,false,est); c.note(mc::fmt("n=%lld nprint=%lld",n,np)); ll prev=0;
    for (ll k=1;k<=np;k++) { ll t=threshold(n,np,k); if (t-1>prev) { size_t b=g_out.size(); w.t->PrintProgress(t-1); c.step(); c.require(g_out.size()==b,"mark %lld of %lld is printed by report %lld of %lld, which has not reached it",k,np,t-1,n); } g_ns+=3000000; size_t b=g_out.size(); w.t->PrintProgress(t); c.step(); string s; for (size_t i=b;i<g_out.size();i++) s+=g_out[i].text; ll a=0,tt=0; c.require(mark(s,a,tt)&&a==k&&tt==np&&std::count(s.begin(),s.end(),'\n')==1,"report %lld of %lld with %lld of %lld marks printed: '%s'",t,n,k-1,np,s.c_str()); if (est) { size_t q=s.find(" passed, "); c.require(q!=string::npos,"no estimate in '%s'",s.c_str()); istringstream is(s.substr(q+9)); string e; is>>e; c.require(denotes(decode(e),(np-k)*3),"after mark %lld, %lld ms remain but '%s' is reported",k,(np-k)*3,e.c_str()); } prev=t; }
    c.state(mc::mix(n,np)); }
static void arbitrary(mc::Ctx& c) { // any report sequence
    ll n=1+c.pick(4), np=1+c.pick((int)n); int L=c.thorough?7:6; World w; w.make(n,np,false,false); ll m=0; c.note(mc::fmt("n=%lld nprint=%lld",n,np));
    for (int k=0;k<L;k++) { ll i=c.pick((int)n+1); size_t b=g_out.size(); w.t->PrintProgress(i); c.step(); c.note(mc::fmt("report %lld",i)); bool due= m<np && i>=threshold(n,np,m+1); ll a=0,t=0; bool got=g_out.size()>b; if (m>=np) { c.require(!got,"a mark beyond the last"); continue; } c.require(got==due,"report %lld with %lld marks printed: %s",i,m,due?"nothing is printed":"a mark is printed"); if (due) { m++; c.require(mark(g_out[b].text,a,t)&&a==m&&t==np,"mark %lld is printed as '%s'",m,g_out[b].text.c_str()); } }
    c.state(mc::mix(mc::mix(n,np),m));
}
static void timestr(mc::Ctx& c) { static vector<ll> A; if (A.empty()) for (ll b : {0LL,10LL,100LL,1000LL,9999LL,10000LL,59999LL,60000LL,600000LL,3600000LL,36000000LL,86400000LL,90061001LL,864000000LL}) for (ll d : {-1000LL,-1LL,0LL,1LL,9LL,99LL,1001LL}) if (b+d>=0) A.push_back(b+d);
    ll ms=c.pickOf(A); int tu=1+c.pick(3); bool col=c.flip(); World w; w.make(1,1,false,false); string s=strip(w.t->TimeString(ms,col,(ProgressTracker::TimeUnit)tu)); c.step(); c.note(mc::fmt("%lld ms: %s",ms,s.c_str())); c.require(denotes(decode(s),ms),"%lld ms is shown as '%s'",ms,s.c_str()); size_t q=0; for (bool first=true;q<s.size();first=false) { size_t d=q; while (d<s.size()&&isdigit((unsigned char)s[d])) d++; size_t u=d; while (u<s.size()&&!isdigit((unsigned char)s[u])) u++; if (!first) c.require(d-q==(u-d==2?3:2),"%lld ms is shown as '%s': a later field is not padded",ms,s.c_str()); q=u; } c.state(ms); }
int main(int argc, char **argv) {
    g_cap.old=cout.rdbuf(&g_cap);
    return mc::run(argc, argv, "G03", {
        {"inorder", inorder, 2, "all totals up to 24 (thorough 40), all mark counts, colours, estimates, 6 time steps; reports in order on a controlled clock"},
        {"estimates", estimates, 2, "10 (thorough 16) mark counts x 3 reports per mark x 6 paces x 5 growth rates, with and without colour"},
        {"longruns", longruns, 2, "21 numbers of marks up to 5000 x 13 totals up to 4e15, with and without estimate: reports just before and at every mark"},
        {"arbitrary", arbitrary, 3, "all report sequences of length 6 (thorough 7) over 0..n, n<=4, all mark counts"},
        {"timestr", timestr, 1, "durations around every unit boundary, 3 largest units, with and without colour"},
        {"t2fixed", t2fixed, 4, "2 threads, 9 workloads with fixed reports, estimate on/off; all interleavings of shared accesses, locks and prints with at most 3 (thorough 4) preemptions"},
        {"t2counter", t2counter, 4, "2 threads reporting a shared counter, same workloads and bounds"},
        {"t3fixed", t3fixed, 4, "3 threads, 5 workloads, at most 2 (thorough 3) preemptions"},
        {"t3counter", t3counter, 4, "3 threads with a shared counter, same"},
    });
}
