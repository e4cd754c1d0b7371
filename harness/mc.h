/* mc.h - a small stateless model checker for driving real code.
 *
 * A *suite* is a function body(Ctx&) that builds its world from scratch, asks
 * ctx.pick(n) at every choice point and checks the implementation against a
 * reference model with ctx.require()/ctx.fail().  The explorer enumerates every
 * sequence of choices depth first (all of them: no sampling, no caps), sharded
 * over worker processes.  A worker that dies or stops making progress is a
 * violation after the choice sequence has been replayed alone.
 */
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

typedef uint64_t u64;
inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdULL; return h ^ (h>>33); }
inline u64 hstr(const std::string& s, u64 h=1469598103934665603ULL) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return mix(h, s.size()); }
inline u64 hdbl(double d) { u64 u; memcpy(&u, &d, 8); return mix(7, u); }

struct Failure { std::string key, msg; };
struct Skip {};

static const int MAXPICK = 8192;
struct Shared {            // one per worker, in shared memory
    volatile u64 beat;     // progress counter
    volatile int suite, n;
    volatile int choice[MAXPICK];
};

inline std::string vfmt(const char *f, va_list ap) {
    char buf[4096]; vsnprintf(buf, sizeof buf, f, ap); return buf;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap,f); std::string s=vfmt(f,ap); va_end(ap); return s; }
inline std::string show(const std::string& s) {
    std::string o="\""; for (unsigned char c : s) { if (c=='\n') o+="\\n"; else if (c=='\t') o+="\\t"; else if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c<32||c>126) o+=fmt("\\x%02x",c); else o+=c; } return o+"\"";
}

class Ctx {
public:
    // explorer side
    std::vector<std::pair<int,int>> path;   // (choice, n)
    size_t pos=0; int shardDepth=0; bool doShard=false; u64 ordinal=0; int nw=1, w=0;
    bool trace=false; std::vector<std::string> log;
    std::unordered_set<u64> *states=nullptr;
    u64 steps=0, obs=0; Shared *sh=nullptr;
    bool thorough=false; std::string scratch;
    std::set<std::string> known; std::map<std::string,std::string> knownHit;
    bool mismatch=false;

    /// choose one of n alternatives (0..n-1)
    int pick(int n) {
        if (n <= 0) throw Failure{"", "internal: pick(0)"};
        int c;
        if (pos < path.size()) {
            if (path[pos].second != n && path[pos].second != -1) { mismatch=true; throw Failure{"", fmt("nondeterministic execution: choice point %zu offered %d then %d alternatives", pos, path[pos].second, n)}; }
            path[pos].second = n; c = path[pos].first;
            if (c >= n) { mismatch=true; throw Failure{"", "replay choice out of range"}; }
        } else { path.push_back({0,n}); c = 0; }
        if (sh && pos < (size_t)MAXPICK) { sh->choice[pos]=c; sh->n=(int)pos+1; }
        pos++;
        if (doShard && (int)pos == shardDepth && (int)(ordinal % nw) != w) throw Skip{};
        return c;
    }
    bool flip() { return pick(2)==1; }
    template<class T> const T& pickOf(const std::vector<T>& v) { return v[pick((int)v.size())]; }
    /// one operation on the implementation was compared with the model
    void step(u64 k=1) { steps+=k; if (sh) sh->beat=sh->beat+1; }
    /// observable state reached
    void state(u64 h) { obs=mix(obs,h); if (states) states->insert(h); }
    FILE *logFile=nullptr;   // replay: the trace is written out as it grows, so that it survives a crash
    void addlog(const std::string& s) { log.push_back(s); if (logFile) { fprintf(logFile,"%s\n",s.c_str()); fflush(logFile); } }
    void note(const std::string& s) { if (trace) addlog(s); }
    template<class F> void noteL(F f) { if (trace) addlog(f()); }
    template<class L> void checkL(bool ok, L msg) { if (!ok) throw Failure{"",msg()}; }
    void require(bool ok, const char *f, ...) __attribute__((format(printf,3,4))) {
        if (ok) return; va_list ap; va_start(ap,f); std::string s=vfmt(f,ap); va_end(ap); throw Failure{"",s};
    }
    void fail(const std::string& key, const std::string& msg) { throw Failure{key,msg}; }
};

struct Suite {
    std::string name;
    std::function<void(Ctx&)> body;
    int shardDepth=1;
    std::string bound;      // human-readable description of the explored space
    int hangSeconds=30;
    std::function<void()> workerInit;   // once per worker process
};

struct Opts { std::string out="stats.json", replayDir=".", replay, scratch, only; bool thorough=false; int jobs=8; std::set<std::string> known; };

inline int rmcb(const char *p, const struct stat*, int, struct FTW*) { return ::remove(p); }
inline void rmtree(const std::string& p) { if (p.find("/mc.")!=std::string::npos) nftw(p.c_str(), rmcb, 32, FTW_DEPTH|FTW_PHYS); }
inline std::string jesc(const std::string& s) {
    std::string o; for (unsigned char c : s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c<32||c>126) o+=fmt("\\u%04x",c); else o+=c; } return o;
}

struct WorkerResult { u64 execs=0, steps=0, picks=0; size_t maxdepth=0; bool failed=false; std::string msg; std::vector<int> vec; std::vector<std::string> samples; std::map<std::string,std::string> known;
    bool paused=false; std::vector<int> resume; u64 ordinal=0, mine=0, nextSample=0; };

inline void quiet() {
    int fd=open("/dev/null",O_WRONLY); if (fd>=0) { dup2(fd,1); dup2(fd,2); close(fd); }
}

/// run a single path; returns 0 ok, 1 failure, 2 skipped, 3 known finding
inline int runOne(const Suite& S, Ctx& c, std::string& msg) {
    c.pos=0; c.log.clear(); c.obs=0;
    try { S.body(c); return 0; }
    catch (Skip&) { return 2; }
    catch (Failure& f) {
        if (!f.key.empty() && c.known.count(f.key)) { c.knownHit.emplace(f.key, f.msg); return 3; }
        msg = f.key.empty()? f.msg : "["+f.key+"] "+f.msg; return 1; }
    catch (std::exception& e) { msg=std::string("unexpected exception: ")+e.what(); return 1; }
    catch (...) { msg="unexpected exception of unknown type"; return 1; }
}

inline long rssMB() { long a=0,b=0; FILE *f=fopen("/proc/self/statm","r"); if (f) { if (fscanf(f,"%ld %ld",&a,&b)!=2) b=0; fclose(f); } return b*4096/1048576; }
inline void explore(const Suite& S, int si, const Opts& o, int w, int nw, Shared *sh, WorkerResult& R, std::unordered_set<u64>& states) {
    Ctx c; c.shardDepth=S.shardDepth; c.nw=nw; c.w=w; c.sh=sh; c.states=&states; c.thorough=o.thorough; c.known=o.known;
    c.scratch=o.scratch+fmt("/w%d",w); mkdir(c.scratch.c_str(),0700);
    if (sh) { sh->suite=si; sh->n=0; }
    if (S.workerInit) S.workerInit();
    // a worker that has accumulated memory (the library leaks) is replaced: it resumes where the last one paused
    u64 nextSample=R.nextSample, mine=R.mine, count=0; size_t given=R.samples.size();
    for (int v : R.resume) c.path.push_back({v,-1}); c.ordinal=R.ordinal;
    bool resumed=R.paused; R=WorkerResult();
    for (;;) {
        if ((++count & 255)==0 && rssMB()>1200) { R.paused=true; R.resume.clear(); for (auto& p : c.path) R.resume.push_back(p.first); R.ordinal=c.ordinal; R.mine=mine; R.nextSample=nextSample; break; }
        c.doShard = nw>1; 
        bool sample = w==0 && mine==nextSample && given+R.samples.size()<12;
        c.trace=sample; u64 s0=c.steps;
        if (sh) sh->n=0;
        std::string msg; int rc=runOne(S,c,msg);
        if (sh) sh->beat=sh->beat+1;
        if (rc==1) { R.failed=true; R.msg=msg; R.vec.clear(); for (size_t i=0;i<c.path.size()&&i<=c.pos;i++) R.vec.push_back(c.path[i].first); if (R.vec.size()>c.pos) R.vec.resize(c.pos); R.steps=c.steps; return; }
        bool own = rc!=2 && (nw==1 || (int)c.pos>=S.shardDepth || (int)(c.ordinal%nw)==w);
        if (own) {
            R.execs++; mine++; R.picks+=c.pos; if (c.pos>R.maxdepth) R.maxdepth=c.pos;
            if (sample) {
                std::string s; for (auto& l : c.log) { if (!s.empty()) s+=" ; "; s+=l; if (s.size()>1500) { s+=" ..."; break; } }
                R.samples.push_back(s); nextSample = nextSample? nextSample*7 : 3;
                // determinism: the same choices must give the same observations
                u64 ob=c.obs; size_t np=c.pos; int rc2=runOne(S,c,msg);
                if (rc2!=rc || c.obs!=ob || c.pos!=np) { R.failed=true; R.msg="nondeterministic: replaying the same choices gave different observations: "+msg; for (auto& p : c.path) R.vec.push_back(p.first); return; }
            }
        } else c.steps=s0;
        if (rc==2) { /* prefix skipped: drop everything below */ }
        c.path.resize(c.pos);
        while (!c.path.empty() && c.path.back().first+1>=c.path.back().second) c.path.pop_back();
        if (c.path.empty()) break;
        c.path.back().first++;
        if ((int)c.path.size()<=S.shardDepth) c.ordinal++;
    }
    R.steps=c.steps; R.known=c.knownHit;
}

inline void put(FILE *f, const std::string& s) { size_t n=s.size(); fwrite(&n,sizeof n,1,f); fwrite(s.data(),1,n,f); }
inline std::string get(FILE *f) { size_t n=0; if (fread(&n,sizeof n,1,f)!=1) return ""; std::string s(n,0); if (n && fread(&s[0],1,n,f)!=n) return ""; return s; }

long mc_raw_time(double *d);
inline double now() { double d; mc_raw_time(&d); return d; }

inline void readlog(const std::string& p, std::vector<std::string>& log) {
    FILE *f=fopen(p.c_str(),"r"); if (!f) return; char line[4096]; while (fgets(line,sizeof line,f)) { line[strcspn(line,"\n")]=0; log.push_back(line); } fclose(f);
}
/// Replays one vector in a child; returns -1 clean pass, 1 failure reported, 2 crashed, 3 hang
inline int replayChild(const Suite& S, const Opts& o, const std::vector<int>& vec, int limit, std::string& msg, std::vector<std::string>& log, const std::string& asanlog) {
    std::string tmp=o.scratch+"/replay.bin"; ::remove(tmp.c_str()); ::remove((tmp+".log").c_str());
    pid_t p=fork();
    if (p==0) {
        quiet();
        Ctx c; c.thorough=o.thorough; c.trace=true; c.known=o.known; c.scratch=o.scratch+"/wr"; mkdir(c.scratch.c_str(),0700);
        for (int v : vec) c.path.push_back({v,-1});
        c.logFile=fopen((tmp+".log").c_str(),"w");
        if (S.workerInit) S.workerInit();
        std::string m; int rc=runOne(S,c,m);
        FILE *f=fopen(tmp.c_str(),"w"); put(f,m); fclose(f);
        _exit(rc==1?1:0);
    }
    double t0=now(); int st; int out=-1;
    for (;;) {
        pid_t r=waitpid(p,&st,WNOHANG);
        if (r==p) break;
        if (now()-t0>limit) { kill(p,SIGKILL); waitpid(p,&st,0); readlog(tmp+".log",log); return 3; }
        usleep(20000);
    }
    FILE *f=fopen(tmp.c_str(),"r");
    if (f) { msg=get(f); fclose(f); }
    readlog(tmp+".log",log);
    if (WIFEXITED(st)) { int e=WEXITSTATUS(st); if (e==0 && f) out=-1; else if (e==1 && f) out=1; else out=2; }
    else out=2;
    if (out==2) {
        msg=WIFSIGNALED(st)? fmt("killed by signal %d",WTERMSIG(st)) : fmt("terminated with status %d",WEXITSTATUS(st));
        std::string cmd=asanlog+"."+std::to_string((long)p); FILE *a=fopen(cmd.c_str(),"r");
        if (a) { char line[1024]; int k=0; while (fgets(line,sizeof line,a)&&k<6) if (strlen(line)>2 && line[0]!='=' || strstr(line,"ERROR")) { msg+=" | "; line[strcspn(line,"\n")]=0; msg+=std::string(line).substr(0,160); k++; } fclose(a); }
    }
    return out;
}

inline int run(int argc, char **argv, const std::string& prop, std::vector<Suite> suites) {
    Opts o;
    for (int i=1;i<argc;i++) {
        std::string a=argv[i]; auto nx=[&]{ return std::string(i+1<argc?argv[++i]:""); };
        if (a=="--out") o.out=nx(); else if (a=="--replay-dir") o.replayDir=nx(); else if (a=="--thorough") o.thorough=true;
        else if (a=="--jobs") o.jobs=atoi(nx().c_str()); else if (a=="--replay") o.replay=nx(); else if (a=="--known") o.known.insert(nx());
        else if (a=="--only") o.only=nx();
    }
    const char *td=getenv("MC_TMP"); char tmpl[4096]; snprintf(tmpl,sizeof tmpl,"%s/mc.XXXXXX", td?td:"/tmp");
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    o.scratch=tmpl;
    std::string asanlog=std::string(getenv("MC_ASAN_LOG")?getenv("MC_ASAN_LOG"):"/dev/null");
    auto findSuite=[&](const std::string& n)->Suite* { for (auto& s : suites) if (s.name==n) return &s; return nullptr; };

    if (!o.replay.empty()) {
        FILE *f=fopen(o.replay.c_str(),"r"); if (!f) { perror(o.replay.c_str()); return 2; }
        char line[65536]; std::string sn; std::vector<int> v; 
        while (fgets(line,sizeof line,f)) { if (!strncmp(line,"suite ",6)) { sn=line+6; sn.erase(sn.find_last_not_of("\n")+1); } else if (!strncmp(line,"thorough 1",10)) o.thorough=true; else if (!strncmp(line,"choices",7)) { char *p=line+7; char *e; for (;;) { long x=strtol(p,&e,10); if (e==p) break; v.push_back(x); p=e; } } }
        fclose(f); Suite *S=findSuite(sn); if (!S) { fprintf(stderr,"no suite %s\n",sn.c_str()); return 2; }
        std::string msg; std::vector<std::string> log; int rc=replayChild(*S,o,v,120,msg,log,asanlog);
        for (auto& l : log) printf("  %s\n",l.c_str());
        printf("replay: %s %s\n", rc==-1?"property holds":rc==1?"VIOLATED:":rc==2?"CRASHED:":"HANGS", msg.c_str());
        rmtree(o.scratch); return rc==-1?0:1;
    }

    double T0=now(); int violations=0; std::string js; std::map<std::string,std::string> knownAll; std::vector<std::string> vlines;
    u64 totE=0,totS=0,totP=0,totStates=0; 
    for (size_t si=0; si<suites.size(); si++) {
        Suite& S=suites[si];
        if (!o.only.empty() && S.name!=o.only) continue;
        double t0=now(); int nw=std::max(1,o.jobs);
        std::vector<Shared*> sh(nw); std::vector<pid_t> pid(nw,0); std::vector<std::string> rf(nw);
        std::vector<WorkerResult> R(nw); std::unordered_set<u64> states; std::vector<int> retried(nw,0), done(nw,0);
        auto launch=[&](int w) {
            rf[w]=o.scratch+fmt("/r%d.bin",w); ::remove(rf[w].c_str());
            sh[w]->beat=0; sh[w]->n=0;
            fflush(nullptr);
            pid_t p=fork();
            if (p==0) {
                quiet();
                WorkerResult r=R[w]; std::unordered_set<u64> st; explore(S,(int)si,o,w,nw,sh[w],r,st);
                FILE *f=fopen((rf[w]+".t").c_str(),"w");
                fwrite(&r.execs,8,1,f); fwrite(&r.steps,8,1,f); fwrite(&r.picks,8,1,f); fwrite(&r.maxdepth,8,1,f); int pz=r.paused; fwrite(&pz,sizeof pz,1,f); { size_t m=r.resume.size(); fwrite(&m,8,1,f); fwrite(r.resume.data(),sizeof(int),m,f); } fwrite(&r.ordinal,8,1,f); fwrite(&r.mine,8,1,f); fwrite(&r.nextSample,8,1,f);
                int fl=r.failed; fwrite(&fl,sizeof fl,1,f); put(f,r.msg);
                size_t n=r.vec.size(); fwrite(&n,8,1,f); fwrite(r.vec.data(),sizeof(int),n,f);
                n=r.samples.size(); fwrite(&n,8,1,f); for (auto& s : r.samples) put(f,s);
                n=r.known.size(); fwrite(&n,8,1,f); for (auto& k : r.known) { put(f,k.first); put(f,k.second); }
                n=st.size(); fwrite(&n,8,1,f); for (u64 h : st) fwrite(&h,8,1,f);
                fclose(f); rename((rf[w]+".t").c_str(), rf[w].c_str());
                _exit(0);
            }
            pid[w]=p;
        };
        for (int w=0;w<nw;w++) { sh[w]=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); launch(w); }
        std::vector<u64> lastBeat(nw,0); std::vector<double> lastT(nw,now());
        bool stop=false; std::string vmsg; std::vector<int> vvec; std::vector<std::string> vlog; bool violated=false;
        auto handleDeath=[&](int w, bool hang) {
            std::vector<int> vec; for (int i=0;i<sh[w]->n && i<MAXPICK;i++) vec.push_back((int)sh[w]->choice[i]);
            std::string msg; std::vector<std::string> log;
            int rc=replayChild(S,o,vec, hang? 3*S.hangSeconds : 2*S.hangSeconds, msg, log, asanlog);
            if (rc==-1 && !retried[w]) { retried[w]=1; lastBeat[w]=0; lastT[w]=now(); launch(w); return; }  // not reproduced alone: once more in context
            if (rc==-1 && hang) { retried[w]++; if (retried[w]<4) { lastBeat[w]=0; lastT[w]=now(); launch(w); return; } }
            violated=true; vvec=vec; vlog=log;
            vmsg = rc==3? "does not terminate (hang)" : rc==-1? std::string(hang?"hang":"crash")+" in context (twice) at this choice sequence" : (rc==2? "crash: ":"")+msg;
            stop=true;
        };
        int live=nw, killed=0;
        while (live>0 && !stop) {
            bool any=false;
            for (int w=0;w<nw && !stop;w++) if (!done[w]) {
                int st; pid_t r=waitpid(pid[w],&st,WNOHANG);
                if (r==pid[w]) {
                    any=true;
                    FILE *f=fopen(rf[w].c_str(),"r");
                    if (WIFEXITED(st) && WEXITSTATUS(st)==0 && f) {
                        WorkerResult q; size_t n; int fl=0, pz=0;
                        bool ok=fread(&q.execs,8,1,f)==1 && fread(&q.steps,8,1,f)==1 && fread(&q.picks,8,1,f)==1 && fread(&q.maxdepth,8,1,f)==1 && fread(&pz,sizeof pz,1,f)==1 && fread(&n,8,1,f)==1;
                        if (ok) { q.resume.resize(n); ok=fread(q.resume.data(),sizeof(int),n,f)==n && fread(&q.ordinal,8,1,f)==1 && fread(&q.mine,8,1,f)==1 && fread(&q.nextSample,8,1,f)==1; }
                        ok=ok && fread(&fl,sizeof fl,1,f)==1;
                        q.failed=fl; q.msg=get(f); ok=ok&&fread(&n,8,1,f)==1; if (ok) { q.vec.resize(n); ok=fread(q.vec.data(),sizeof(int),n,f)==n; }
                        ok=ok&&fread(&n,8,1,f)==1; for (size_t i=0;ok&&i<n;i++) q.samples.push_back(get(f));
                        ok=ok&&fread(&n,8,1,f)==1; for (size_t i=0;ok&&i<n;i++) { std::string k=get(f); q.known[k]=get(f); }
                        ok=ok&&fread(&n,8,1,f)==1; if (ok) { std::vector<u64> b(n); ok=fread(b.data(),8,n,f)==n; states.insert(b.begin(),b.end()); }
                        fclose(f); q.paused=pz;
                        { WorkerResult& A=R[w]; q.execs+=A.execs; q.steps+=A.steps; q.picks+=A.picks; q.maxdepth=std::max(q.maxdepth,A.maxdepth); q.samples.insert(q.samples.begin(),A.samples.begin(),A.samples.end()); for (auto& k : A.known) q.known.insert(k); A=q; }
                        if (ok && q.paused && !q.failed) { lastBeat[w]=0; lastT[w]=now(); launch(w); continue; }
                        done[w]=1; live--;
                        for (auto& k : q.known) knownAll.insert(k);
                        if (!ok) { fprintf(stderr,"worker result unreadable\n"); rmtree(o.scratch); return 2; }
                        if (q.failed) {
                            std::string msg; std::vector<std::string> log; int rc=replayChild(S,o,q.vec,2*S.hangSeconds,msg,log,asanlog);
                            violated=true; stop=true; vvec=q.vec; vlog=log; vmsg=q.msg; if (rc==-1) vmsg+=" (only in the context of earlier executions of this shard)";
                        }
                    } else { if (f) fclose(f); 
                        if (WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL) { fprintf(stderr,"worker %d was killed from outside\n",w); if (++killed>16) { rmtree(o.scratch); return 2; } lastBeat[w]=0; lastT[w]=now(); launch(w); }
                        else handleDeath(w,false); }
                } else {
                    u64 b=sh[w]->beat; if (b!=lastBeat[w]) { lastBeat[w]=b; lastT[w]=now(); }
                    else if (now()-lastT[w]>S.hangSeconds) { kill(pid[w],SIGKILL); waitpid(pid[w],&st,0); handleDeath(w,true); any=true; }
                }
            }
            if (!any) usleep(10000);
        }
        if (stop) for (int w=0;w<nw;w++) if (!done[w] && pid[w]>0) { kill(pid[w],SIGKILL); int st; waitpid(pid[w],&st,0); }
        u64 e=0,s=0,p=0; size_t md=0; std::vector<std::string> samples;
        for (auto& q : R) { e+=q.execs; s+=q.steps; p+=q.picks; md=std::max(md,q.maxdepth); for (auto& x : q.samples) samples.push_back(x); }
        for (int w=0;w<nw;w++) munmap(sh[w],sizeof(Shared));
        totE+=e; totS+=s; totP+=p; totStates+=states.size();
        if (violated) {
            violations++;
            std::string rp=o.replayDir+"/"+prop+"-"+S.name+".replay"; FILE *f=fopen(rp.c_str(),"w");
            if (f) { fprintf(f,"property %s\nsuite %s\nthorough %d\nchoices",prop.c_str(),S.name.c_str(),(int)o.thorough); for (int v : vvec) fprintf(f," %d",v); fprintf(f,"\nmessage %s\n",vmsg.c_str()); for (auto& l : vlog) fprintf(f,"trace %s\n",l.c_str()); fclose(f); }
            printf("VIOLATION property=%s replay=%s\n",prop.c_str(),rp.c_str());
            printf("  suite %s: %s\n",S.name.c_str(),vmsg.c_str());
            for (auto& l : vlog) printf("    %s\n",l.substr(0,400).c_str());
        }
        printf("suite %-14s executions=%llu operations=%llu choices=%llu states=%zu maxdepth=%zu %.1fs%s\n",S.name.c_str(),(unsigned long long)e,(unsigned long long)s,(unsigned long long)p,states.size(),md,now()-t0,violated?"  VIOLATED":"");
        if (!js.empty()) js+=",";
        js+=fmt("{\"suite\":\"%s\",\"executions\":%llu,\"operations\":%llu,\"choices\":%llu,\"states\":%zu,\"max_depth\":%zu,\"wall_s\":%.2f,\"complete\":%s,",S.name.c_str(),(unsigned long long)e,(unsigned long long)s,(unsigned long long)p,states.size(),md,now()-t0,violated?"false":"true");
        js+="\"bound\":\""+jesc(S.bound)+"\",\"samples\":["; for (size_t i=0;i<samples.size();i++) js+=(i?",\"":"\"")+jesc(samples[i])+"\""; js+="]}";
        fflush(stdout);
    }
    FILE *f=fopen(o.out.c_str(),"w");
    if (f) {
        fprintf(f,"{\"property\":\"%s\",\"executions\":%llu,\"operations\":%llu,\"choices\":%llu,\"states\":%llu,\"violations\":%d,\"wall_s\":%.2f,\"suites\":[%s],\"known\":{",prop.c_str(),(unsigned long long)totE,(unsigned long long)totS,(unsigned long long)totP,(unsigned long long)totStates,violations,now()-T0,js.c_str());
        bool first=true; for (auto& k : knownAll) { fprintf(f,"%s\"%s\":\"%s\"",first?"":",",jesc(k.first).c_str(),jesc(k.second).c_str()); first=false; }
        fprintf(f,"}}\n"); fclose(f);
    }
    for (auto& k : knownAll) printf("KNOWN-FINDING: property=%s %s: %s\n",prop.c_str(),k.first.c_str(),k.second.c_str());
    rmtree(o.scratch);
    return violations?1:0;
}

} // namespace mc

#include <sys/syscall.h>
namespace mc { __attribute__((weak)) long mc_raw_time(double *d) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); *d=t.tv_sec+1e-9*t.tv_nsec; return 0; } }
/* the message and its arguments are only made when they are needed */
#define require(cond, ...) checkL(bool(cond), [&]{ return mc::fmt(__VA_ARGS__); })
