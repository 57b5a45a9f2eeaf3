// Several threads at once (C28), under ThreadSanitizer: results equal those of one thread alone, and no data race.
#include "files.h"
#include <thread>
#include <mutex>
#include <atomic>
#include <sched.h>
using namespace pm;
#include <sys/wait.h>
#include <spawn.h>
// The very first use of the library, by several threads at once: only a fresh process can show it.
// THREADS_FIRST=number of threads|file to write|file to read|number of its particles|...
static void firstUseChild(const char* e){ std::vector<std::string> a; std::stringstream ss(e); std::string t; while(std::getline(ss,t,'|')) a.push_back(t); int nt=atoi(a[0].c_str()); size_t nf=(a.size()-1)/3; std::atomic<int> ready{0}, bad{0}; std::vector<std::thread> th;
    for(int i=0;i<nt;i++) th.emplace_back([&,i]{ ready++; while(ready<nt) sched_yield(); size_t k=i%nf; std::ostringstream es;
        if(i%3==1){ Partio::ParticlesDataMutable* p=Partio::create(); Partio::ParticleAttribute h=p->addAttribute("position",Partio::VECTOR,3); p->addParticles(3); for(int j=0;j<3;j++) for(int q=0;q<3;q++) p->dataWrite<float>(h,j)[q]=(float)j; Partio::write((a[1+3*k]+std::to_string(i)+".pdb").c_str(),*p,false,true,es); p->release(); if(!es.str().empty()) bad=1; }
        else { Partio::ParticlesInfo* p= i%3==2? (Partio::ParticlesInfo*)Partio::readCached(a[2+3*k].c_str(),false,true,es) : Partio::read(a[2+3*k].c_str(),true,es); if(!p||p->numParticles()!=atoi(a[3+3*k].c_str())) bad=2; if(p) p->release(); } });
    for(auto& x:th) x.join(); _exit(bad?40+bad:0); }
extern char** environ;
static void firstUse(Ctx& c){ int nt=(int)c.range(2,6), nf=(int)c.range(1,3); std::string spec=std::to_string(nt); std::vector<std::string> files; for(int i=0;i<nf;i++){ AnyFile f=anyFile(c,{},1,4,false); std::string n=c.path(fmt("first%d.",i)+f.ext); writeFile(n,f.bytes); Holder h(readQ(n)); CHECK(h.p,"%s cannot be read",f.kind.c_str()); spec+="|"+c.path("out")+"|"+n+"|"+std::to_string(static_cast<ParticlesData*>(h.p)->numParticles()); files.push_back(n); }
    std::vector<std::string> ev; for(char** e=environ;*e;e++) ev.push_back(*e); ev.push_back("THREADS_FIRST="+spec); std::vector<char*> ep; for(auto& e:ev) ep.push_back(&e[0]); ep.push_back(nullptr); char exe[]="/proc/self/exe"; char* av[]={exe,nullptr}; char real[4096]; ssize_t l=readlink("/proc/self/exe",real,sizeof real-1); if(l<=0) throw Discard{"no /proc"}; real[l]=0; pid_t pid; if(posix_spawn(&pid,real,nullptr,nullptr,av,ep.data())) throw Discard{"spawn"}; int st=0; waitpid(pid,&st,0); for(auto& f:files) unlink(f.c_str()); for(int i=0;i<nt;i++) unlink(c.path("out"+std::to_string(i)+".pdb").c_str());
    c.note("first use by %d threads of %d files",nt,nf); CHECK(WIFEXITED(st),"the first use by %d threads dies of signal %d",nt,WTERMSIG(st)); CHECK(WEXITSTATUS(st)!=66,"data race in the first use by %d threads",nt); CHECK(WEXITSTATUS(st)==0,"the first use by %d threads gives wrong results (%d)",nt,WEXITSTATUS(st)); c.label("first use of the library"); c.nontrivial(spec); }
struct Op { int kind; uint64_t a,b; };
static void prop(Ctx& c){
    if(c.chance(1,12)){ firstUse(c); return; }
    GenOpt o=commonOpt(); o.wide=false; o.maxN=c.chance(1,4)?600:40; o.minN=1; o.maxAttrs=3; o.floatCls=2; PS s=genPS(c,o); bool inter=c.chance(1,4); Holder sh(build(s,inter)); auto* S=static_cast<ParticlesDataMutable*>(sh.p); const ParticlesData& CS=*S; bool sorted=false; if(!inter){ S->sort(); sorted=true; }
    static const std::vector<std::string> ex={"bgeo","geo","pdb","pda","pdc","ptc","bin","prt","bgeo.gz","pdb64","ptc.gz"}; int nf=(int)c.range(1,3); std::vector<std::string> files; std::vector<PS> want; for(int i=0;i<nf;i++){ files.push_back(c.path(fmt("f%d.",i)+c.pick(ex))); Holder h(build(i?genPS(c,o):s)); writeQ(files[i],*static_cast<ParticlesData*>(h.p)); want.push_back(readBack(files[i])); }
    std::string missing=c.path("missing.bgeo"); int nt=(int)c.range(2,4); std::vector<std::vector<Op>> prog(nt); int kinds=0,total=0; std::set<int> ks; 
    for(auto& p:prog){ int k=(int)c.range(1,8); for(int i=0;i<k;i++){ Op q; q.kind=(int)c.weighted({3,4,3,3,3,2,2,2,1,2}); q.a=c.draw(1000); q.b=c.draw(1000); p.push_back(q); ks.insert(q.kind); total++; } } kinds=(int)ks.size();
    // the set shared for writing: every thread owns the particles congruent to its number
    PS ws=s; Holder wh(build(ws,c.chance(1,2))); auto* W=static_cast<ParticlesDataMutable*>(wh.p);
    std::mutex fm; std::string failure; std::atomic<int> ready{0}; auto note=[&](const std::string& m){ std::lock_guard<std::mutex> l(fm); if(failure.empty()) failure=m; };
    std::vector<std::string> ref; for(auto& f:files) (void)f; std::string refOut; std::string outExt=c.pick(std::vector<std::string>{"bgeo","geo","pdb","ptc","pdc","bin","pda","prt","bgeo.gz"}); { std::string f=c.path("ref."+outExt); writeQ(f,CS); refOut=readFile(f); unlink(f.c_str()); }
    std::vector<ParticleIndex> boxRef; float lo[3]={-100,-100,-100}, hi[3]={100,100,100}; if(sorted) CS.findPoints(lo,hi,boxRef); std::vector<ParticleIndex> nnRef; std::vector<float> ndRef; float pt[3]={0,0,0}; if(sorted) CS.findNPoints(pt,5,1e7f,nnRef,ndRef);
    std::vector<std::thread> th; for(int t=0;t<nt;t++) th.emplace_back([&,t]{ ready++; while(ready<nt) sched_yield();
        try { for(auto& q:prog[t]) switch(q.kind){
            case 0: { size_t i=q.a%files.size(); std::ostringstream es; ParticlesDataMutable* p=Partio::read(files[i].c_str(),true,es); if(!p) fail("read fails: %s",es.str().c_str()); PS g=extract(p); p->release(); cmpExact(want[i],g); break; }
            case 1: { size_t i=q.a%files.size(); std::ostringstream es; bool srt=q.b%2; ParticlesData* p=Partio::readCached(files[i].c_str(),srt,true,es); if(!p) fail("cached read fails: %s",es.str().c_str()); if(q.b%3==0) sched_yield(); ParticlesData* p2=Partio::readCached(files[i].c_str(),false,true,es); if(p2!=p) fail("another object for a file that is held"); p2->release(); { PS g=extract(p); cmpExact(want[i],g); } p->release(); break; }
            case 2: { std::string f=c.path(fmt("w%d_%d.",t,(int)(q.b%3))+outExt); std::ostringstream es; Partio::write(f.c_str(),CS,false,true,es); std::string b=readFile(f); unlink(f.c_str()); if(b!=refOut) fail("the .%s file written differs (%zu and %zu bytes)",outExt.c_str(),b.size(),refOut.size()); break; }
            case 3: { PS g=extract(&CS); cmpExact(s,g); break; }
            case 4: { if(!sorted) break; std::vector<ParticleIndex> r; CS.findPoints(lo,hi,r); if(r!=boxRef) fail("box query differs"); std::vector<ParticleIndex> n; std::vector<float> d; CS.findNPoints(pt,5,1e7f,n,d); if(n!=nnRef||d!=ndRef) fail("nearest query differs"); break; }
            case 5: { ParticlesDataMutable* p=Partio::clone(CS,true); PS g=extract(p); p->release(); cmpExact(s,g); break; }
            case 6: { for(int i=t;i<ws.n;i+=nt) for(size_t k=0;k<ws.attrs.size();k++){ if(ws.attrs[k].type==INDEXEDSTR) continue; ParticleAttribute h; W->attributeInfo((int)k,h); uint32_t* d=static_cast<uint32_t*>(W->dataWrite<void>(h,i)); for(int j=0;j<h.count;j++) d[j]=ws.attrs[k].data[(size_t)i*h.count+j]; } break; }
            case 7: { ParticlesDataMutable* p=q.b%2?Partio::create():Partio::createInterleave(); ParticleAttribute a=p->addAttribute("position",VECTOR,3), b=p->addAttribute("s",INDEXEDSTR,1); int n=(int)(q.a%60)+1; for(int i=0;i<n;i++){ ParticleIndex x=p->addParticle(); for(int k=0;k<3;k++) p->dataWrite<float>(a,x)[k]=(float)(i*t+k); p->dataWrite<int>(b,x)[0]=p->registerIndexedStr(b,fmt("t%d_%d",t,i%4).c_str()); } if(!(q.b%2==0)) p->sort(); for(int i=0;i<n;i++) if(p->data<float>(a,i)[1]!=(float)(i*t+1)||p->indexedStrs(b)[p->data<int>(b,i)[0]]!=fmt("t%d_%d",t,i%4)) fail("a private set changed"); p->release(); break; }
            case 8: { std::ostringstream es; if(Partio::read(missing.c_str(),true,es)||es.str().empty()) fail("missing file"); if(Partio::readCached(missing.c_str(),q.b%2,true,es)) fail("missing file"); break; }
            default: { size_t i=q.a%files.size(); std::ostringstream es; ParticlesInfo* p=Partio::readHeaders(files[i].c_str(),true,es); if(!p) fail("headers: %s",es.str().c_str()); int n=p->numParticles(), k=p->numAttributes(); p->release(); if(n!=want[i].n||k!=(int)want[i].attrs.size()) fail("headers differ"); } }
        } catch(const Failure& f){ note(f.msg); } });
    for(auto& x:th) x.join(); if(!failure.empty()) throw Failure{failure};
    { PS g=extract(&CS); cmpExact(s,g); } { PS g=extract(W); cmpExact(ws,g); }
    for(auto& f:files) unlink(f.c_str()); c.note("%d threads, %d operations of %d kinds, %d files, %s %s",nt,total,kinds,nf,inter?"interleaved":"separate",describe(s).c_str()); for(int k:ks){ static const char* n[]={"read","cached read","write","walk","queries","clone","writes to own particles","private sets","missing file","headers"}; c.label(n[k]); } if(total>=3&&kinds>=2) c.nontrivial(hashPS(s)+fmt("%d %d",nt,total)+[&]{ std::string r; for(auto& p:prog){ for(auto& q:p) r+=fmt("%d.%d.%d,",q.kind,(int)q.a,(int)q.b); r+="|"; } return r; }());
}
int main(int argc,char**argv){ if(const char* e=getenv("THREADS_FIRST")) firstUseChild(e); return pbt::pbtMain(argc,argv,"at least three operations of two kinds in at least two threads, or a first use of the library by several threads, told apart by set, files and operations",prop); }
