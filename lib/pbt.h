// Minimal property-based testing engine (choice-sequence based, in the style of
// Hypothesis): every random decision goes through Ctx::draw(), is recorded, and the
// recorded sequence is what gets shrunk and saved as a replay file.  Cases run in forked
// workers, so that aborts, sanitizer reports and endless loops of the code under test are
// observations, not errors of the check.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cmath>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <fcntl.h>
#include <dirent.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace pbt {
inline std::function<void()>& onDeath(){ static std::function<void()> f; return f; }

struct Failure { std::string msg; };
struct Discard { std::string why; };

inline std::string vfmt(const char* f, va_list ap) {
    char buf[8192]; vsnprintf(buf, sizeof buf, f, ap); return buf;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char* f, ...) { va_list ap; va_start(ap,f); std::string s=vfmt(f,ap); va_end(ap); return s; }

static inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
struct Rng { uint64_t s; explicit Rng(uint64_t x=0):s(x){} uint64_t next(){ s+=0x9e3779b97f4a7c15ull; return mix(s);} };

static const size_t MAXC = 1u << 20;
struct Shm {
    volatile uint64_t caseNo;
    volatile double caseStart;
    volatile uint64_t nchoices;
    volatile int status;          // 0 running, 1 finished all, 2 failed
    volatile uint64_t evals, discards, nontrivial;
    char msg[8192];
    uint64_t choices[MAXC];
};

struct Ctx {
    // replay part
    const std::vector<uint64_t>* rep = nullptr; size_t pos = 0;
    Rng rng; Shm* shm = nullptr;
    // statistics of the worker
    std::unordered_set<uint64_t>* hashes = nullptr;
    std::map<std::string,uint64_t>* labels = nullptr;
    std::vector<std::string>* samples = nullptr;
    bool nt = false; uint64_t h = 0; std::string desc;
    std::string scratch;          // private scratch directory of this worker
    bool verbose = false; bool thorough = false; uint64_t caseIndex = 0;

    uint64_t draw(uint64_t n) {   // uniform in [0,n)
        if (n <= 1) { return 0; }
        uint64_t v;
        if (rep) { v = pos < rep->size() ? (*rep)[pos] : 0; pos++; if (v >= n) v = n-1; }
        else v = rng.next() % n;
        uint64_t k = shm->nchoices;
        if (k >= MAXC) throw Discard{"too many choices"};
        shm->choices[k] = v; shm->nchoices = k+1;
        return v;
    }
    uint64_t bits64() { uint64_t a=draw(1ull<<32), b=draw(1ull<<32); return a<<32|b; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi-lo)+1); } // inclusive
    bool chance(int num, int den) { // true with num/den; shrinks towards false
        return (int)draw(den) >= den-num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    // index with weights; shrinks towards 0
    size_t weighted(std::initializer_list<int> w) {
        int tot=0; for(int x:w) tot+=x; int r=(int)draw(tot); size_t i=0; for(int x:w){ if(r<x) return i; r-=x; i++; } return 0;
    }
    void label(const std::string& l) { if (labels) (*labels)[l]++; }
    // mark the case as non-trivial; content goes in the distinctness hash
    void nontrivial(const std::string& content) { nt = true; for(unsigned char ch:content) h = mix(h ^ ch); }
    void nontrivial(uint64_t x) { nt = true; h = mix(h ^ x); }
    void note(const char* f, ...) __attribute__((format(printf,2,3))) {
        va_list ap; va_start(ap,f); std::string s=vfmt(f,ap); va_end(ap);
        if (desc.size() < 600) { if(!desc.empty()) desc += "; "; desc += s; }
        if (verbose) fprintf(stderr, "  | %s\n", s.c_str());
    }
    std::string path(const std::string& n) const { return scratch + "/" + n; }
};

[[noreturn]] inline void fail(const char* f, ...) { va_list ap; va_start(ap,f); std::string s=vfmt(f,ap); va_end(ap); throw Failure{s}; }
#define CHECK(cond, ...) do { if(!(cond)) ::pbt::fail(__VA_ARGS__); } while(0)

typedef std::function<void(Ctx&)> Prop;

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec + t.tv_nsec*1e-9; }

enum Kind { PASS=0, FAIL=1, CRASH=2, HANG=3, DISC=4 };
struct Outcome { Kind kind; std::string msg; std::vector<uint64_t> choices; };

inline std::string slurp(const std::string& p, size_t max=1<<20) {
    std::string r; FILE* f=fopen(p.c_str(),"rb"); if(!f) return r; char b[65536]; size_t k;
    while(r.size()<max && (k=fread(b,1,sizeof b,f))>0) r.append(b,k); fclose(f); return r;
}
inline void rmtree(const std::string& d) {
    DIR* D=opendir(d.c_str());
    if(D){ while(dirent* e=readdir(D)){ std::string n=e->d_name; if(n=="."||n=="..") continue; std::string p=d+"/"+n;
        struct stat st; if(lstat(p.c_str(),&st)==0 && S_ISDIR(st.st_mode)) { chmod(p.c_str(),0700); rmtree(p);} else unlink(p.c_str()); } closedir(D);} 
    rmdir(d.c_str());
}

struct Config {
    uint64_t seed=1; uint64_t cases=1000; double maxTime=60; int jobs=8; int cpuLimit=40; double wallLimit=240;
    std::string scratch, out, replayDir, replay, id="X"; bool thorough=false;
    std::string known; // resource patterns
    bool expectKnown=false;
    std::string pattern; // violation text must match (used for known-finding probes)
};
inline Config& config() { static Config c; return c; }

// Whether this harness feeds inputs that may ask for any amount of memory (damaged files):
// only there is an allocation that is refused by its size skipped; elsewhere it is a failure.
inline bool& memoryMayRunOut() { static bool b=false; return b; }
// stderr fragments of a sanitizer that mean "ran out of memory", not "wrong access"
inline bool isResource(const std::string& e) {
    if(e.find("rss-limit")!=std::string::npos || e.find("hard rss limit")!=std::string::npos) return true;
    return memoryMayRunOut() && (e.find("allocation-size-too-big")!=std::string::npos || e.find("out-of-memory")!=std::string::npos ||
           e.find("calloc-overflow")!=std::string::npos || e.find("failed to allocate")!=std::string::npos);
}
inline std::string crashSummary(const std::string& e) {
    std::string r; std::istringstream is(e); std::string l; int n=0, fr=0;
    while(std::getline(is,l)) {
        if(l.find("ERROR: AddressSanitizer")!=std::string::npos || l.find("runtime error")!=std::string::npos ||
           l.find("Assertion")!=std::string::npos || l.find("terminate called")!=std::string::npos || l.find("what():")!=std::string::npos ||
           l.find("WARNING: ThreadSanitizer")!=std::string::npos ||
           (l.find("    #")==0 && fr++<6)) { r += l.substr(0,300) + "\n"; if(++n>10) break; }
    }
    return r.empty()? e.substr(0,500) : r;
}

inline void armCpu(int sec) { struct itimerval it; memset(&it,0,sizeof it); it.it_value.tv_sec=sec; setitimer(ITIMER_PROF,&it,0); }

// Notices processes that do nothing at all: every thread asleep and no CPU time used for
// 20 seconds, which only a deadlock does (starved or busy threads are runnable).
struct Idle {
    double since=0, last=0; unsigned long long cpu=~0ull;
    bool stuck(pid_t pid) {
        double t=now(); if(t-last<0.5) return false; last=t;
        unsigned long long tot=0; bool asleep=true; std::string d=fmt("/proc/%d/task",(int)pid); DIR* D=opendir(d.c_str()); if(!D){ since=0; return false; }
        while(dirent* e=readdir(D)){ if(e->d_name[0]=='.') continue; FILE* f=fopen((d+"/"+e->d_name+"/stat").c_str(),"r"); if(!f) continue; char b[1024]; size_t k=fread(b,1,sizeof b-1,f); fclose(f); b[k]=0; char* q=strrchr(b,')'); if(!q) continue;
            char st=0; unsigned long long u=0, s2=0; if(sscanf(q+1," %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu",&st,&u,&s2)==3){ tot+=u+s2; if(st!='S') asleep=false; } }
        closedir(D);
        if(!asleep || tot!=cpu || since==0) { cpu=tot; since= asleep? t:0; return false; }
        return t-since>20;
    }
};

// run one case in the current process; Kind PASS/FAIL/DISC
inline Kind runHere(Prop& prop, Ctx& c, std::string& msg) {
    c.shm->nchoices=0; c.shm->caseStart=now();
    armCpu(config().cpuLimit);
    try { prop(c); return PASS; }
    catch(Failure& f){ msg=f.msg; return FAIL; }
    catch(Discard& d){ msg=d.why; return DISC; }
    catch(std::exception& e){ msg=std::string("unexpected exception escaped: ")+e.what(); return FAIL; }
}

inline Outcome runForked(Prop& prop, const std::vector<uint64_t>& ch, Shm* shm, const std::string& scratch, bool verbose) {
    Outcome o; std::string errf = scratch+"/stderr";
    shm->status=0; shm->nchoices=0; shm->caseStart=now(); shm->msg[0]=0;
    fflush(0);
    pid_t p=fork();
    if(p==0){
        mkdir((scratch+"/w").c_str(),0700);
        if(!verbose){ int fd=open(errf.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(fd,2); int dn=open("/dev/null",O_WRONLY); dup2(dn,1);} 
        Ctx c; c.rep=&ch; c.shm=shm; c.scratch=scratch+"/w"; c.verbose=verbose; c.thorough=config().thorough; std::string msg;
        Kind k=runHere(prop,c,msg);
        if(verbose) fprintf(stderr,"%s\n",msg.c_str());
        strncpy(shm->msg,msg.c_str(),sizeof shm->msg-1); shm->msg[sizeof shm->msg-1]=0; shm->status=10+k; fflush(0); _exit(0);
    }
    int st=0; bool killed=false; Idle idle;
    for(;;){ pid_t r=waitpid(p,&st,WNOHANG); if(r==p) break; if(now()-shm->caseStart>config().wallLimit || idle.stuck(p)){ kill(p,SIGKILL); killed=true; waitpid(p,&st,0); break;} usleep(300);} 
    o.choices.assign(shm->choices, shm->choices+shm->nchoices);
    if(!killed && WIFEXITED(st) && WEXITSTATUS(st)==0 && shm->status>=10){ o.kind=(Kind)(shm->status-10); o.msg=shm->msg; }
    else if(killed || (WIFSIGNALED(st)&&WTERMSIG(st)==SIGPROF)) { o.kind=HANG; o.msg= killed? "no progress: deadlock, or far beyond the time limit" : "no result within the CPU limit"; }
    else { std::string e=slurp(errf); if(isResource(e)){ o.kind=DISC; o.msg="resource"; } else if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL) {o.kind=DISC;o.msg="killed";} else { o.kind=CRASH;
        o.msg=fmt("process died (%s %d): ", WIFSIGNALED(st)?"signal":"exit", WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st))+crashSummary(e);} }
    rmtree(scratch+"/w");
    return o;
}

// runs generated cases from, from+step, ..., to in one process (for failures that need the
// state left behind by earlier cases)
inline Outcome runHistory(Prop& prop, uint64_t seed, uint64_t from, uint64_t step, uint64_t to, Shm* shm, const std::string& scratch, bool verbose) {
    Outcome o; std::string errf = scratch+"/stderr"; shm->status=0; shm->nchoices=0; shm->caseStart=now(); shm->msg[0]=0; fflush(0);
    pid_t p=fork();
    if(p==0){
        mkdir((scratch+"/w").c_str(),0700);
        if(!verbose){ int fd=open(errf.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(fd,2); int dn=open("/dev/null",O_WRONLY); dup2(dn,1);} 
        Kind k=PASS; std::string msg;
        for(uint64_t i=from;i<=to;i+=step){ Ctx c; c.shm=shm; c.rng=Rng(mix(seed*0x100000001b3ull ^ mix(i))); c.scratch=scratch+"/w"; c.verbose=verbose&&i+step>to; c.thorough=config().thorough; c.caseIndex=i; k=runHere(prop,c,msg); if(k==FAIL) break; }
        strncpy(shm->msg,msg.c_str(),sizeof shm->msg-1); shm->msg[sizeof shm->msg-1]=0; shm->status=10+k; fflush(0); _exit(0);
    }
    int st=0; bool killed=false; Idle idle;
    for(;;){ pid_t r=waitpid(p,&st,WNOHANG); if(r==p) break; if(now()-shm->caseStart>config().wallLimit || idle.stuck(p)){ kill(p,SIGKILL); killed=true; waitpid(p,&st,0); break;} usleep(300);} 
    if(!killed && WIFEXITED(st) && WEXITSTATUS(st)==0 && shm->status>=10){ o.kind=(Kind)(shm->status-10); o.msg=shm->msg; }
    else if(killed || (WIFSIGNALED(st)&&WTERMSIG(st)==SIGPROF)) { o.kind=HANG; o.msg= killed? "no progress: deadlock, or far beyond the time limit" : "no result within the CPU limit"; }
    else { std::string e=slurp(errf); if(isResource(e)||(WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL)){ o.kind=DISC; o.msg="resource"; } else { o.kind=CRASH;
        o.msg=fmt("process died (%s %d): ", WIFSIGNALED(st)?"signal":"exit", WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st))+crashSummary(e);} }
    rmtree(scratch+"/w"); return o;
}

inline std::string slurpLink(const char* p){ char b[4096]; ssize_t n=readlink(p,b,sizeof b-1); return n>0?std::string(b,n):std::string(); }
inline std::vector<uint64_t> shrink(Prop& prop, std::vector<uint64_t> best, Kind kind, Shm* shm, const std::string& scratch, std::string& msg) {
    double t0=now(); double budget = kind==HANG? 0 : 45; int runs=0;
    auto bad=[&](const std::vector<uint64_t>& c, std::vector<uint64_t>& actual)->bool{
        if(now()-t0>budget||runs>4000) return false; runs++;
        Outcome o=runForked(prop,c,shm,scratch,false);
        if(o.kind==kind){ actual=o.choices; msg=o.msg; return true;} return false; };
    bool progress=true;
    while(progress && now()-t0<budget){
        progress=false; std::vector<uint64_t> a;
        // delete blocks
        for(size_t blk=std::max<size_t>(1,best.size()/2); blk>=1; blk/=2){
            for(size_t i=best.size(); i>0 && now()-t0<budget; ){
                size_t s = i>blk? i-blk:0; std::vector<uint64_t> c(best.begin(),best.begin()+s); c.insert(c.end(),best.begin()+std::min(i,best.size()),best.end());
                if(bad(c,a) && (a.size()<best.size() || (a.size()==best.size() && a<best))){ best=a; progress=true; i=std::min(i,best.size()); if(i>s) i=s; } else i=s; }
            if(blk==1) break; }
        // zero blocks, then lower values
        for(size_t blk=std::max<size_t>(1,best.size()/4); blk>=1; blk/=2){
            for(size_t i=0;i<best.size()&&now()-t0<budget;i+=blk){ std::vector<uint64_t> c=best; bool any=false; for(size_t j=i;j<std::min(i+blk,best.size());j++) if(c[j]){c[j]=0;any=true;}
                if(any && bad(c,a) && (a.size()<best.size() || (a.size()==best.size() && a<best))){ best=a; progress=true; } }
            if(blk==1) break; }
        for(size_t i=0;i<best.size()&&now()-t0<budget;i++){
            uint64_t lo=0, hi=best[i]; // smallest failing value by bisection
            while(lo<hi && now()-t0<budget && i<best.size()){ uint64_t m=lo+(hi-lo)/2; std::vector<uint64_t> c=best; c[i]=m;
                if(bad(c,a) && a.size()<=best.size() && i<a.size()){ if(a!=best) progress=true; best=a; hi=best[i]<hi?best[i]:m; } else lo=m+1; } }
    }
    return best;
}

inline void jesc(std::string& o, const std::string& s){ o+='"'; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c<32||c>=127){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b;} else o+=c;} o+='"'; }

inline int pbtMain(int argc, char** argv, const char* rule, Prop prop, std::function<void(Ctx&)> perWorkerInit={}) {
    Config& g=config();
    for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
        if(a=="--seed") g.seed=strtoull(nx().c_str(),0,10); else if(a=="--cases") g.cases=strtoull(nx().c_str(),0,10);
        else if(a=="--time") g.maxTime=atof(nx().c_str()); else if(a=="--jobs") g.jobs=atoi(nx().c_str());
        else if(a=="--scratch") g.scratch=nx(); else if(a=="--out") g.out=nx(); else if(a=="--replaydir") g.replayDir=nx();
        else if(a=="--replay") g.replay=nx(); else if(a=="--id") g.id=nx(); else if(a=="--thorough") g.thorough=true;
        else if(a=="--cpu") g.cpuLimit=atoi(nx().c_str());
        else { fprintf(stderr,"unknown option %s\n",a.c_str()); return 64; } }
    if(g.scratch.empty()){ char t[]="/tmp/pbtXXXXXX"; g.scratch=mkdtemp(t);} else mkdir(g.scratch.c_str(),0700);
    auto mkshm=[&]{ return (Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); };
    if(!g.replay.empty()){
        std::ifstream f(g.replay); std::vector<uint64_t> ch, hist; std::string l; while(std::getline(f,l)){ if(l=="# thorough") g.thorough=true; if(l.compare(0,9,"# history")==0){ std::istringstream is(l.substr(9)); uint64_t v; while(is>>v) hist.push_back(v); } if(l.empty()||l[0]=='#') continue; std::istringstream is(l); uint64_t v; while(is>>v) ch.push_back(v);} 
        Shm* s=mkshm(); Outcome o= hist.size()==5? (config().thorough=hist[4],runHistory(prop,hist[0],hist[1],hist[2],hist[3],s,g.scratch,true)) : runForked(prop,ch,s,g.scratch,true); rmtree(g.scratch);
        static const char* names[]={"PASS","FAIL","CRASH","HANG","DISCARD"}; printf("REPLAY %s %s\n",names[o.kind],o.msg.c_str()); return o.kind==PASS||o.kind==DISC?0:1; }

    struct W { pid_t pid; Shm* shm; std::string dir; uint64_t next; bool done; Idle idle; };
    std::vector<W> ws(g.jobs); double t0=now();
    auto launch=[&](int w){ W& x=ws[w]; x.idle=Idle(); x.shm->status=0; x.shm->caseStart=now(); mkdir(x.dir.c_str(),0700); mkdir((x.dir+"/w").c_str(),0700); fflush(0);
        x.pid=fork();
        if(x.pid==0){
            int fd=open((x.dir+"/stderr").c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(fd,2); int dn=open("/dev/null",O_WRONLY); dup2(dn,1);
            std::unordered_set<uint64_t> hashes; std::map<std::string,uint64_t> labels; std::vector<std::string> samples; uint64_t ntot=0;
            auto dump=[&]{ std::string base=fmt("%s/stats.%d.%ld",g.scratch.c_str(),w,(long)getpid()); FILE* f=fopen(base.c_str(),"wb"); 
                for(uint64_t hh:hashes) fprintf(f,"H %llx\n",(unsigned long long)hh); for(auto& kv:labels) fprintf(f,"L %llu %s\n",(unsigned long long)kv.second,kv.first.c_str());
                for(auto s:samples){ std::replace(s.begin(),s.end(),'\n',' '); fprintf(f,"S %s\n",s.c_str()); } fclose(f); };
            onDeath()=dump; if(__sanitizer_set_death_callback) __sanitizer_set_death_callback([]{ if(onDeath()) onDeath()(); });
            Shm* shm=x.shm; double lastDump=now();
            for(uint64_t i=x.next;i<g.cases && now()-t0<g.maxTime;i+=g.jobs){
                shm->caseNo=i; Ctx c; c.shm=shm; c.rng=Rng(mix(g.seed*0x100000001b3ull ^ mix(i))); c.hashes=&hashes; c.labels=&labels; c.samples=&samples; c.scratch=x.dir+"/w"; c.thorough=g.thorough; c.caseIndex=i;
                std::string msg; Kind k=runHere(prop,c,msg);
                if(k==FAIL){ strncpy(shm->msg,msg.c_str(),sizeof shm->msg-1); shm->msg[sizeof shm->msg-1]=0; shm->status=2; dump(); _exit(0);} 
                if(k==DISC){ shm->discards++; labels["discard:"+msg]++; continue; }
                shm->evals++; if(c.nt){ ntot++; shm->nontrivial++; if(hashes.insert(c.h).second && samples.size()<4 && !c.desc.empty()) samples.push_back(c.desc); }
                else labels["trivial"]++;
                if(now()-lastDump>5){ fflush(0); if(ftell(stderr)>(1<<24)){} lastDump=now(); dump(); int r=ftruncate(2,0); (void)r; lseek(2,0,SEEK_SET);} }
            dump(); shm->status=1; _exit(0);
        } };
    for(int w=0;w<g.jobs;w++){ ws[w].shm=mkshm(); ws[w].dir=fmt("%s/%d",g.scratch.c_str(),w); ws[w].next=w; ws[w].done=false; launch(w);} 
    Outcome found; found.kind=PASS; uint64_t foundCase=0; int live=g.jobs; uint64_t resource=0;
    while(live>0 && found.kind==PASS){
        usleep(2000);
        for(int w=0;w<g.jobs;w++){ W& x=ws[w]; if(x.done) continue; int st=0; pid_t r=waitpid(x.pid,&st,WNOHANG);
            bool hang=false;
            if(r==0){ if(now()-x.shm->caseStart>g.wallLimit || x.idle.stuck(x.pid)){ kill(x.pid,SIGKILL); waitpid(x.pid,&st,0); hang=true; } else continue; }
            if(!hang && WIFEXITED(st)&&WEXITSTATUS(st)==0&&x.shm->status==1){ x.done=true; live--; continue; }
            std::vector<uint64_t> ch(x.shm->choices,x.shm->choices+x.shm->nchoices); foundCase=x.shm->caseNo;
            if(!hang && x.shm->status==2){ found={FAIL,x.shm->msg,ch}; break; }
            std::string e=slurp(x.dir+"/stderr",1<<24); 
            if(!hang && (isResource(e) || (WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL))){ // ran out of memory: skip the case, carry on
                resource++; rmtree(x.dir); x.next=x.shm->caseNo+g.jobs; launch(w); continue; }
            if(hang || (WIFSIGNALED(st)&&WTERMSIG(st)==SIGPROF)) found={HANG,"no result within the CPU/wall limit",ch};
            else found={CRASH,fmt("process died (%s %d): ",WIFSIGNALED(st)?"signal":"exit",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st))+crashSummary(e),ch};
            break; } }
    for(auto& x:ws) if(!x.done){ kill(x.pid,SIGKILL); int st; waitpid(x.pid,&st,0);} 
    // statistics
    std::unordered_set<uint64_t> all; std::map<std::string,uint64_t> labels; std::vector<std::string> samples; uint64_t evals=0,disc=0,ntn=0;
    for(auto& x:ws){ evals+=x.shm->evals; disc+=x.shm->discards; ntn+=x.shm->nontrivial; }
    { DIR* D=opendir(g.scratch.c_str()); std::vector<std::string> names; while(dirent* e=readdir(D)) if(!strncmp(e->d_name,"stats.",6)) names.push_back(e->d_name); closedir(D); std::sort(names.begin(),names.end());
      for(auto& n:names){ std::ifstream f(g.scratch+"/"+n); std::string l; while(std::getline(f,l)){ if(l.size()<2) continue; if(l[0]=='H') all.insert(strtoull(l.c_str()+2,0,16)); else if(l[0]=='S'){ if(samples.size()<8) samples.push_back(l.substr(2)); } else if(l[0]=='L'){ char* e; uint64_t k=strtoull(l.c_str()+2,&e,10); labels[e+1]+=k; } } } }
    int rc=0; std::string rf;
    if(found.kind!=PASS){
        Shm* s=mkshm(); std::string sd=g.scratch+"/shrink"; mkdir(sd.c_str(),0700);
        // confirm, then shrink, then replay three times
        Outcome o=runForked(prop,found.choices,s,sd,false); std::vector<uint64_t> best=found.choices; std::string msg=found.msg; Kind k=found.kind;
        if(o.kind==PASS||o.kind==DISC){ Outcome o2=runForked(prop,found.choices,s,sd,false); if(o2.kind!=PASS&&o2.kind!=DISC) o=o2; }
        if(o.kind==PASS||o.kind==DISC){ // look for the shortest history of earlier cases of that worker that brings it back
            uint64_t step=g.jobs, maxBack=foundCase/step; Outcome q; uint64_t back=0; bool hit=false; double th=now();
            for(uint64_t k=1;;k*=4){ back=std::min(k,maxBack); q=runHistory(prop,g.seed,foundCase-back*step,step,foundCase,s,sd,false); if(q.kind!=PASS&&q.kind!=DISC){ hit=true; break; } if(back==maxBack||now()-th>200) break; }
            if(hit){ mkdir(g.replayDir.c_str(),0755); rf=fmt("%s/%s-seed%llu-case%llu.replay",g.replayDir.c_str(),g.id.c_str(),(unsigned long long)g.seed,(unsigned long long)foundCase);
                std::ofstream f(rf); f<<"# property "<<g.id<<"\n# history "<<g.seed<<" "<<foundCase-back*step<<" "<<step<<" "<<foundCase<<" "<<(int)g.thorough<<"\n"; std::istringstream is(q.msg); std::string l; while(std::getline(is,l)) f<<"# "<<l<<"\n"; f.close(); rc=1;
                printf("%s\n(needs %llu earlier cases in the same process)\nFOUND replay=%s\n",q.msg.c_str(),(unsigned long long)back,rf.c_str()); }
            else { printf("NOT-REPRODUCED case=%llu %s\n",(unsigned long long)foundCase,found.msg.c_str()); rc=3; } }
        else { k=o.kind; msg=o.msg; if(o.choices.size()>=MAXC){} best=shrink(prop,found.choices,k,s,sd,msg); int again=0; int reps = k==HANG?1:3; std::string m2; for(int i=0;i<reps;i++){ Outcome q=runForked(prop,best,s,sd,false); if(q.kind!=PASS&&q.kind!=DISC){ again++; m2=q.msg; } }
            if(again<reps){ best=found.choices; again=0; for(int i=0;i<reps;i++){ Outcome q=runForked(prop,best,s,sd,false); if(q.kind!=PASS&&q.kind!=DISC){again++; m2=q.msg;} } }
            if(again==0){ printf("NOT-REPRODUCED case=%llu %s\n",(unsigned long long)foundCase,found.msg.c_str()); rc=3; }
            else { if(!m2.empty()) msg=m2; mkdir(g.replayDir.c_str(),0755); rf=fmt("%s/%s-seed%llu-case%llu.replay",g.replayDir.c_str(),g.id.c_str(),(unsigned long long)g.seed,(unsigned long long)foundCase);
                std::ofstream f(rf); f<<"# property "<<g.id<<"\n"; if(g.thorough) f<<"# thorough\n"; std::istringstream is(msg); std::string l; while(std::getline(is,l)) f<<"# "<<l<<"\n"; for(size_t i=0;i<best.size();i++) f<<best[i]<<(i%16==15?"\n":" "); f<<"\n"; f.close(); rc=1;
                if(k==CRASH&&getenv("ASAN_OPTIONS")&&strstr(getenv("ASAN_OPTIONS"),"symbolize=0")){ // once more, with names
                    std::string t=g.scratch+"/sym", cmd="ASAN_OPTIONS=$ASAN_OPTIONS:symbolize=1 '"+slurpLink("/proc/self/exe")+"' --replay '"+rf+"' --scratch "+g.scratch+"/rp > "+t+" 2>&1"; int r=system(cmd.c_str()); (void)r; std::string m3=crashSummary(slurp(t)); if(m3.find("    #")!=std::string::npos) msg=m3; }
                printf("%s\n",msg.c_str()); printf("FOUND replay=%s\n",rf.c_str()); } }
    }
    std::string js="{\"evaluations\":"+std::to_string(evals)+",\"distinct_nontrivial\":"+std::to_string(all.size())+",\"nontrivial\":"+std::to_string(ntn)+",\"discarded\":"+std::to_string(disc)+",\"resource_skips\":"+std::to_string(resource)+",\"rule\":"; jesc(js,rule);
    js+=",\"samples\":["; for(size_t i=0;i<samples.size();i++){ if(i) js+=","; jesc(js,samples[i]); } js+="],\"labels\":{"; bool first=true; for(auto& kv:labels){ if(!first) js+=","; first=false; jesc(js,kv.first); js+=":"+std::to_string(kv.second);} js+="},\"wall\":"+std::to_string(now()-t0)+",\"replay\":"; jesc(js,rf); js+="}";
    if(!g.out.empty()){ std::ofstream f(g.out); f<<js<<"\n"; }
    rmtree(g.scratch);
    return rc;
}
} // namespace pbt
#define PBT_MAIN(rule, prop) int main(int argc,char**argv){ return ::pbt::pbtMain(argc,argv,rule,prop); }
