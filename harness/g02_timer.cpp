/* G02: the timer on a controlled clock: all short histories of start/stop/continue/reset with critical clock advances. */
#include "mc.h"
#include <sys/time.h>
typedef long long ll;
static ll g_ns=0; static bool g_fake=false;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) { if (g_fake) { t->tv_sec=g_ns/1000000000; t->tv_nsec=g_ns%1000000000; return 0; } return syscall(SYS_clock_gettime,id,t); }
extern "C" int gettimeofday(struct timeval *tv, void*) { struct timespec t; clock_gettime(CLOCK_REALTIME,&t); tv->tv_sec=t.tv_sec; tv->tv_usec=t.tv_nsec/1000; return 0; }
extern "C" time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME,&t); if (p) *p=t.tv_sec; return t.tv_sec; }
#include <softlib/Timer.h>
#include <memory>
using namespace std;
static const ll US=1000, MS=1000*US, S=1000*MS, MIN=60*S, H=60*MIN, D=24*H;
static ll fl(ll a, ll b) { return a/b; }
struct M { bool run=true; ll tic=0, acc=0; ll total(ll now) const { return acc+(run? now-tic : 0); } };
/* all ways of reading, compared with the model's duration */
static void readAll(mc::Ctx& c, const Timer& t, ll want) {
    c.step();
    double us=t.GetMicroseconds(); c.require(us==(double)fl(want,US),"GetMicroseconds is %.17g after running for %lld ns",us,want);
    double ms=t.GetMilliseconds(); c.require(ms>=(double)fl(want,MS) && ms<=want/1e6,"GetMilliseconds is %.17g after running for %lld ns",ms,want);
    Timer::time s=t.GetTimeStruct();
    ll sum=s.days.count()*24*3600000000LL+s.hours.count()*3600000000LL+s.minutes.count()*60000000LL+s.seconds.count()*1000000LL+s.milliseconds.count()*1000LL+s.microseconds.count();
    c.require(sum==fl(want,US),"days..microseconds (%ld %ld %ld %ld %ld %ld) add up to %lld us after %lld ns",(long)s.days.count(),(long)s.hours.count(),(long)s.minutes.count(),(long)s.seconds.count(),(long)s.milliseconds.count(),(long)s.microseconds.count(),sum,want);
    c.require(s.days.count()>=0&&s.hours.count()>=0&&s.hours.count()<24&&s.minutes.count()>=0&&s.minutes.count()<60&&s.seconds.count()>=0&&s.seconds.count()<60&&s.milliseconds.count()>=0&&s.milliseconds.count()<1000&&s.microseconds.count()>=0&&s.microseconds.count()<1000,"a component is out of its range after %lld ns: %ld d %ld h %ld m %ld s %ld ms %ld us",want,(long)s.days.count(),(long)s.hours.count(),(long)s.minutes.count(),(long)s.seconds.count(),(long)s.milliseconds.count(),(long)s.microseconds.count());
    c.require(s.tp.count()==fl(want,US),"tp is %ld us after %lld ns",(long)s.tp.count(),want); c.require(s.total_sec.count()==fl(want,S),"total_sec is %ld after %lld ns",(long)s.total_sec.count(),want);
    c.require(Timer::GetMicroseconds(s)==us && Timer::GetMilliseconds(s)==ms,"the static getters disagree with the members");
    string str=t.ToString(); c.require(Timer::ToString(s)==str,"ToString of the struct differs");
    // the printed form denotes the duration: pairs of a number and a unit
    istringstream is(str); string n,u; ll tot=0; int last=99; bool any=false;
    while (is>>n>>u) { if (!u.empty() && u.back()==',') u.pop_back(); char *e; ll v=strtoll(n.c_str(),&e,10); c.require(!*e && v>=0,"ToString: '%s'",str.c_str()); int k; ll f; if (u.compare(0,3,"day")==0) { k=6; f=D; } else if (u.compare(0,4,"hour")==0) { k=5; f=H; } else if (u.compare(0,3,"min")==0) { k=4; f=MIN; } else if (u.compare(0,3,"sec")==0) { k=3; f=S; } else if (u.compare(0,5,"milli")==0) { k=2; f=MS; } else if (u.compare(0,5,"micro")==0) { k=1; f=US; } else { c.require(false,"ToString: '%s'",str.c_str()); return; } c.require(k<last,"ToString: units out of order in '%s'",str.c_str()); last=k; tot+=v*f; any=true; }
    c.require(any && tot==fl(want,US)*US,"ToString is '%s' after %lld ns",str.c_str(),want);
}
static const vector<ll>& adv() { static const vector<ll> v={0,MS*7+3*US+250,S+999999999,H+MIN+S,D+2*H+1}; return v; }
struct Fake { Fake(ll t) { g_fake=true; g_ns=t; } ~Fake() { g_fake=false; } };
static const ll T0=1790000000LL*S+123456789;
static void histories(mc::Ctx& c) {
    Fake fk(T0); int L=c.thorough?5:4; Timer t; M m; m.tic=g_ns; readAll(c,t,0);
    for (int i=0;i<L;i++) {
        ll a=c.pickOf(adv()); int op=c.pick(4); g_ns+=a; c.note(mc::fmt("%lld ns later: %s",a,op==0?"Stop":op==1?"Continue":op==2?"Reset":"(read)"));
        switch (op) { case 0: if (m.run) { m.acc+=g_ns-m.tic; m.run=false; } t.Stop(); break;
            case 1: if (m.run) m.acc=0; m.run=true; m.tic=g_ns; t.Continue(); break;   // continuing a running timer restarts it
            case 2: m.run=true; m.acc=0; m.tic=g_ns; t.Reset(); break; default: break; }
        readAll(c,t,m.total(g_ns)); if (m.run) c.require(t.GetClock().time_since_epoch().count()==m.tic,"GetClock is not the time at which the timer was last started");
        if (i+1==L) { g_ns+=3*MS+1; readAll(c,t,m.total(g_ns)); } c.state(mc::mix(mc::mix(m.run,m.acc),g_ns-m.tic));
    }
}
static void advances(mc::Ctx& c) { // single runs and two-part runs over all boundary durations
    static vector<ll> A; if (A.empty()) for (ll b : {(ll)0,US,MS,10*MS,S,10*S,MIN,10*MIN,H,10*H,D,2*D,9*D,31*D,366*D}) for (ll d : {-1000000000LL,-US,-1LL,0LL,1LL,US,MS,1000000000LL}) if (b+d>=0) A.push_back(b+d);
    ll a=c.pickOf(A); Fake fk(T0); Timer t; g_ns+=a; c.note(mc::fmt("run for %lld ns",a)); readAll(c,t,a);
    t.Stop(); g_ns+=D+S; readAll(c,t,a); int mode=c.pick(3); if (mode==0) { c.state(a); return; }
    ll b=c.pickOf(A); t.Continue(); g_ns+=b; c.note(mc::fmt("stop, continue for %lld ns",b)); readAll(c,t,a+b); if (mode==2) { t.Stop(); g_ns+=b+US; readAll(c,t,a+b); t.Continue(); readAll(c,t,a+b); g_ns+=a; readAll(c,t,a+b+a); } c.state(mc::mix(a,b));
}
static void copies(mc::Ctx& c) { // timers are values: two timers and assignments between them
    Fake fk(T0); int L=c.thorough?6:5; vector<Timer> t(2); M m[2]; m[0].tic=m[1].tic=g_ns;
    for (int i=0;i<L;i++) { int w=c.pick(2), op=c.pick(4); g_ns+=(i%2)? D+3*S+17 : 61*MIN+5*US; Timer& x=t[w]; M& y=m[w]; c.note(mc::fmt("timer %d: %s",w,op==0?"Stop":op==1?"Continue":op==2?"Reset":"copy of the other"));
        switch (op) { case 0: if (y.run) { y.acc+=g_ns-y.tic; y.run=false; } x.Stop(); break; case 1: if (y.run) y.acc=0; y.run=true; y.tic=g_ns; x.Continue(); break; case 2: y.run=true; y.acc=0; y.tic=g_ns; x.Reset(); break; default: x=t[1-w]; y=m[1-w]; }
        for (int k=0;k<2;k++) readAll(c,t[k],m[k].total(g_ns)); c.state(mc::mix(mc::mix(m[0].total(g_ns),m[1].total(g_ns)),m[0].run*2+m[1].run)); }
}
int main(int argc, char **argv) {
    return mc::run(argc, argv, "G02", {
        {"histories", histories, 3, "all sequences of 4 (thorough 5) of {stop, continue, reset, read} x 5 clock advances (0, sub-millisecond, 2 s, 1h1m1s, 26 h), every getter after each"},
        {"durations", advances, 2, "every duration within 1 s/1 us/1 ns of every unit boundary up to 366 days, alone and in all two-part runs"},
        {"copies", copies, 3, "two timers, all sequences of 5 (thorough 6) operations including assignment of one to the other"},
    });
}
