// The command line tools and print() show what the library reads (C29): partinfo, partattr and
// partconvert are compiled from the tree and run in process on generated files and command lines;
// their output is compared, token by token, with a listing made from the set itself.
#include "files.h"
#include <bits/stdc++.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sanitizer/common_interface_defs.h>
#include <PartioAttribute.h>
#include <PartioIterator.h>
// exit() inside a tool ends the tool only
struct ToolExit { int code; };
namespace std { [[noreturn]] inline void tool_exit(int code){ throw ToolExit{code}; } }
using std::tool_exit;
#define exit tool_exit
#define main partinfo_main
namespace partinfo_ns {
#include <../tools/partinfo.cpp>
}
#undef main
#undef FLAG
#define main partattr_main
namespace partattr_ns {
#include <../tools/partattr.cpp>
}
#undef main
#define main partconvert_main
namespace partconvert_ns {
#include <../tools/partconvert.cpp>
}
#undef main
#undef exit
using namespace pm;
typedef std::vector<std::string> Toks;
// what separates values is layout; every other character counts
static Toks tokens(const std::string& s){ Toks r; std::string t; for(char ch:s){ if(strchr(" \t\n\r,()[]",ch)&&ch){ if(!t.empty()) r.push_back(t); t.clear(); } else t+=ch; } if(!t.empty()) r.push_back(t); return r; }
static std::string num(float f){ std::ostringstream o; o.imbue(std::locale::classic()); o<<f; return o.str(); }
static std::string val(const Attr& a,uint32_t d){ return isFloatT(a.type)? num(asF(d)) : std::to_string((int)d); }
static std::string ruler(const char* name){ return std::string(" Type Count ")+name+" ---- ----- ---- "; }
static std::string particle(const PS& s,int i){ std::string r=" --------------------------- Particle "+std::to_string(i)+": "; if(i<0||i>=s.n) return r+" OUT OF RANGE ";
    for(auto& a:s.attrs){ r+=std::string(" ")+tname(a.type)+" "+a.name; for(int k=0;k<a.count;k++){ uint32_t d=a.data[(size_t)i*a.count+k]; r+=" "+val(a,d); if(a.type==INDEXEDSTR) r+= d<a.strings.size()? "='"+a.strings[d]+"'" : "=<out-of-bounds>"; } r+=" "; } return r; }
static std::string wantInfo(const PS& s,bool all,bool strs,const std::set<int>& which){
    std::string r="Number of particles: "+std::to_string(s.n)+ruler("Name"); for(auto& a:s.attrs) r+=std::string(" ")+tname(a.type)+" "+std::to_string(a.count)+" "+a.name;
    if(all){ for(int i=0;i<s.n;i++) r+=particle(s,i); return r; }
    if(which.size()){ for(int i:which) r+=particle(s,i); return r; }
    if(s.fixed.size()){ r+=" --------------------------- Fixed Attributes "+ruler("Name"); for(auto& a:s.fixed) r+=std::string(" ")+tname(a.type)+" "+std::to_string(a.count)+" "+a.name;
        for(auto& a:s.fixed){ r+=std::string(" ")+tname(a.type)+" "+a.name; for(auto d:a.data){ r+=" "+val(a,d); if(a.type==INDEXEDSTR) for(size_t i=0;i<a.strings.size();i++) r+=" "+std::to_string(i)+" '"+a.strings[i]+"'"; } } }
    bool title=false; for(auto& a:s.attrs) if(a.type==INDEXEDSTR){ if(!title) r+=" INDEXED STRINGS: "; title=true; r+=" "+a.name+" ("+std::to_string(a.strings.size())+") = ["; for(size_t i=0;i<a.strings.size()&&(strs||i<5);i++) r+=" "+a.strings[i]+" "; if(a.strings.size()>5) r+=" ... "; r+="]"; }
    return r; }
static std::string wantPrint(const PS& s){ std::string r="Particle count "+std::to_string(s.n)+" Attribute count "+std::to_string(s.attrs.size()); for(auto& a:s.attrs) r+=" attribute "+a.name+" type="+tname(a.type)+" count="+std::to_string(a.count);
    int k=std::min(10,s.n); r+=" num to print "+std::to_string(k); for(int i=0;i<k;i++){ r+=" "+std::to_string(i)+": "; for(auto& a:s.attrs){ r+=a.name+"="; for(int j=0;j<a.count;j++) r+=" "+val(a,a.data[(size_t)i*a.count+j]); r+=" "; } } return r; }
// "name= value" and "name=value" are the same listing
static Toks glue(Toks t){ Toks r; for(size_t i=0;i<t.size();i++){ if(r.size()&&r.back().size()&&r.back().back()=='='&&i) r.back()+=t[i]; else r.push_back(t[i]); } return r; }
static void same(const std::string& want,const std::string& got,const char* what,bool more=false){ Toks w=glue(tokens(want)), g=glue(tokens(got)); for(size_t i=0;i<(more?w.size():std::max(w.size(),g.size()));i++){ std::string a=i<w.size()?w[i]:"(end)", b=i<g.size()?g[i]:"(end)"; if(more&&i+1==w.size()&&a.size()&&a.back()=='='&&b.size()>a.size()) b.resize(a.size()); CHECK(a==b,"%s: item %zu of the output is '%s', expected '%s' (after '%s')",what,i,esc(b).c_str(),esc(a).c_str(),esc(i?w[i-1]:"").c_str()); } }
struct Run { int rc; std::string out, err; };
// what a tool prints, through streams or stdio, goes to descriptors 1 and 2: files in memory for the time of its run
struct Capture { int to, saved, mem; static int file(int to){ static std::map<int,int> m; int& fd=m[to]; if(!fd) fd=memfd_create("out",0); return fd; }
    explicit Capture(int t):to(t){ mem=file(t); if(ftruncate(mem,0)!=0||lseek(mem,0,SEEK_SET)!=0) abort(); saved=dup(to); dup2(mem,to); if(to==2) __sanitizer_set_report_fd((void*)(intptr_t)saved); }
    std::string end(){ dup2(saved,to); if(to==2) __sanitizer_set_report_fd((void*)(intptr_t)2); close(saved); off_t n=lseek(mem,0,SEEK_END); std::string r((size_t)n,0); if(n && pread(mem,&r[0],(size_t)n,0)!=n) abort(); return r; } };
static Run run(int (*f)(int,char**),std::vector<std::string> args){ std::vector<char*> v; for(auto& a:args) v.push_back(&a[0]); v.push_back(nullptr); Run r;
    std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr); std::ios fo(nullptr), fe(nullptr); fo.copyfmt(std::cout); fe.copyfmt(std::cerr);
    { Capture o(1), e(2); try { r.rc=f((int)args.size(),v.data()); } catch(const ToolExit& x) { r.rc=x.code; } catch(...) { std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr); o.end(); e.end(); throw; }
      std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr); r.out=o.end(); r.err=e.end(); }
    std::cout.copyfmt(fo); std::cerr.copyfmt(fe); std::cout.clear(); std::cerr.clear(); return r; }
static PS readSet(const std::string& f){ Holder h(readQ(f)); if(!h.p) throw Discard{"unreadable"}; return extract(static_cast<ParticlesData*>(h.p)); }
static int attr0(int n,char** v){ return partattr_ns::partattr_main(n,v); }
static int info0(int n,char** v){ return partinfo_ns::partinfo_main(n,v); }
static int conv0(int n,char** v){ return partconvert_ns::partconvert_main(n,v); }
static std::string norm(const std::string& ext,std::string x){ if(ext=="rib"){ size_t i=x.find("\"name\" [\""); if(i!=std::string::npos){ size_t j=x.find('"',i+9); x.erase(i,j-i);} } return x; }
static void prop(Ctx& c){
    // a file: any format, or BGEO with everything a set can hold, some with indices that have no string
    std::string f; PS s; std::string kind;
    bool broken=c.chance(1,8);
    if(broken){ int k=(int)c.draw(4); kind="unreadable"; if(k==0) f=c.path("missing.bgeo"); else if(k==1){ f=c.path("bad."+c.pick(writableExts())); writeFile(f,c.chance(1,2)?"":"this is not a particle file\n\x01\x02"); } else if(k==2) f=c.path("noextension"); else { f=c.path("what.xyz"); writeFile(f,"x"); } Holder h(readQ(f)); if(h.p){ broken=false; s=extract(static_cast<ParticlesData*>(h.p)); } }
    else if(c.chance(1,3)){ AnyFile a=anyFile(c); f=c.path("in."+a.ext); writeFile(f,a.bytes); kind=a.kind; s=readSet(f); }
    else { GenOpt o=commonOpt(); o.wide=false; o.floatCls=0; o.nameStyle=NAME_PLAIN; o.nameMax=300; o.maxN=60; o.manyStrings=c.chance(1,4); o.mostStrings=1500; o.mostIn=2; s=genPS(c,o); if(c.chance(1,10)) for(auto* v:{&s.attrs,&s.fixed}) if(v==&s.attrs||c.chance(1,2)){ Attr a; a.name="empty"; a.type=std::vector<ParticleAttributeType>{FLOAT,INT,INDEXEDSTR}[c.draw(3)]; a.count=0; if(a.type==INDEXEDSTR) a.strings={"s0"}; v->insert(v->begin()+c.draw(v->size()+1),a); c.label("attribute of no values"); }
            if(c.chance(1,4)) for(auto* v:{&s.attrs,&s.fixed}) for(auto& a:*v) if(a.type==INDEXEDSTR) for(auto& d:a.data) if(c.chance(1,4)) d=(uint32_t)c.pick(std::vector<int>{-1,(int)a.strings.size(),(int)a.strings.size()+7,INT_MIN,INT_MAX});
        Holder h(build(s,c.chance(1,4))); f=c.path(std::string("in.")+(c.chance(1,2)?"bgeo":"bhclassic")+(c.chance(1,4)?".gz":"")); kind="bgeo"; writeQ(f,*static_cast<ParticlesData*>(h.p)); PS t=readSet(f); s=t; }
    int tool=(int)c.draw(4); std::string what; c.note("%s %s",kind.c_str(),describe(s).c_str()); bool listed=false;
    if(tool==0){ bool all=false,strs=false,help=false,named=false; std::set<int> which; std::vector<std::string> a={"partinfo"}; int extra=(int)c.draw(5); size_t at=c.draw(extra+1); bool none=c.chance(1,12);
        for(int i=0;i<=extra;i++){ if((size_t)i==at&&!none){ a.push_back(f); named=true; continue; } switch(c.weighted({2,2,5,1,1})){ case 0: a.push_back(c.chance(1,2)?"-a":"--all"); all=true; break; case 1: a.push_back(c.chance(1,2)?"-s":"--strings"); strs=true; break; case 2: if(!named){ i--; if(none) { i++; } else { a.push_back(f); named=true; at=99; } break; } else { int k=c.chance(1,3)? (int)c.range(0,100000) : (int)c.range(0,std::max(1,s.n)); which.insert(k); a.push_back(std::to_string(k)); } break; case 3: a.push_back(c.pick(std::vector<std::string>{"-x","--nothing","-"})); break; case 4: if(c.chance(1,3)){ a.push_back(c.chance(1,2)?"-h":"--help"); help=true; } break; } if(help) break; }
        std::string cl; for(auto& x:a) cl+=(x==f?"FILE":x)+" "; c.note("%s",cl.c_str()); Run r=run(info0,a);
        if(help){ CHECK(r.rc==0,"asking for help gives %d",r.rc); CHECK((r.out+r.err).find("partinfo")!=std::string::npos,"no help is given"); }
        else if(!named||broken){ CHECK(r.rc!=0,"partinfo without a readable file ends with 0"); CHECK(!r.err.empty(),"no message"); CHECK(r.out.empty(),"partinfo shows something of a file it cannot read"); }
        else { CHECK(r.rc==0,"partinfo ends with %d: %s",r.rc,esc(r.err,200).c_str()); same(wantInfo(s,all,strs,which),r.out,"partinfo"); listed=true; }
        what="partinfo"; c.label(help?"partinfo: help":!named?"partinfo: no file":all?"partinfo: all particles":which.size()?"partinfo: chosen particles":"partinfo: overview"); }
    else if(tool==1){ std::string name= s.attrs.size()&&c.chance(5,6)? s.attrs[c.draw(s.attrs.size())].name : c.pick(std::vector<std::string>{"missing","","positio","position "}); const Attr* a=find(s.attrs,name); std::vector<std::string> args={"partattr",f,name}; int most=10; if(c.chance(1,2)){ most=c.chance(1,4)? (int)c.pick(std::vector<int>{0,1,1000000,INT_MAX}) : (int)c.range(0,s.n+3); args.push_back(std::to_string(most)); }
        bool wrong=c.chance(1,20); if(wrong){ if(c.chance(1,2)) args.resize(c.range(1,2)); else { args.resize(3); args.push_back("1"); args.push_back("2"); } }
        c.note("partattr FILE '%s' %s",esc(name).c_str(),args.size()>3?args[3].c_str():""); Run r=run(attr0,args);
        if(wrong||broken||!a){ CHECK(r.rc!=0,"partattr ends with 0 where there is nothing to show"); CHECK(!r.err.empty(),"no message"); CHECK(r.out.empty(),"partattr shows something"); }
        else { CHECK(r.rc==0,"partattr ends with %d: %s",r.rc,esc(r.err,200).c_str()); std::string w; for(int i=0;i<std::min(most,s.n);i++){ uint32_t d=a->count?a->data[(size_t)i*a->count]:0; w+=name+"["+std::to_string(i)+"]="; if(a->count==0) w+=a->type==INT||a->type==INDEXEDSTR?"":"()"; else if(a->type==INT) w+=std::to_string((int)d); else if(a->type==INDEXEDSTR) w+= d<a->strings.size()? "'"+a->strings[d]+"'" : "<out-of-bounds>"; else for(int k=0;k<a->count;k++) w+=(k?",":"(")+num(asF(a->data[(size_t)i*a->count+k])); w+="\n"; } same(w,r.out,"partattr"); listed=s.n>0&&most>0; }
        what="partattr"; c.label(!a?"partattr: no such attribute":std::string("partattr: ")+tname(a->type)); }
    else if(tool==2){ static const std::vector<std::string> to={"bgeo","bhclassic","geo","pdb","pdb32","pdb64","pda","ptc","pdc","prt","bin","rib","bgeo.gz","geo.gz"}; std::string ext=c.pick(to), plain=ext.substr(0,ext.find('.')); std::string o=c.path("out."+ext), o2=c.path("api."+ext); unlink(o.c_str()); unlink(o2.c_str()); bool wrong=c.chance(1,20); std::vector<std::string> args={"partconvert",f,o}; if(wrong){ if(c.chance(1,2)) args.resize(c.range(1,2)); else args.push_back("x"); }
        c.note("partconvert FILE out.%s",ext.c_str()); Run r=run(conv0,args);
        if(wrong||broken){ CHECK(r.rc!=0,"partconvert ends with 0 though nothing was converted"); CHECK(!r.err.empty(),"no message"); CHECK(!exists(o),"partconvert writes a file without reading one"); }
        else { CHECK(r.rc==0,"partconvert ends with %d: %s",r.rc,esc(r.err,200).c_str()); size_t at=r.out.find("Particle count"); CHECK(at!=std::string::npos,"partconvert does not show the set"); same(wantPrint(s),r.out.substr(at),"partconvert",true); /* writers may add remarks */ Holder h(readQ(f)); writeQ(o2,*static_cast<ParticlesData*>(h.p)); CHECK(exists(o)==exists(o2),"the converted file %s",exists(o)?"should not exist":"does not exist"); if(exists(o)) CHECK(norm(plain,readFile(o))==norm(plain,readFile(o2)),"the converted .%s file is not what the library writes",ext.c_str()); listed=true; }
        unlink(o.c_str()); unlink(o2.c_str()); what="partconvert "+ext; c.label("partconvert to "+plain); }
    else { if(broken) throw Discard{"nothing to print"}; // print() of a set in either layout
        bool il=c.chance(1,2); Holder h(build(s,il)); std::cout.flush(); fflush(stdout); std::string o; { Capture k(1); Partio::print(static_cast<ParticlesData*>(h.p)); std::cout.flush(); fflush(stdout); o=k.end(); } same(wantPrint(s),o,"print"); what="print"; listed=true; c.label(il?"print: interleaved":"print"); }
    unlink(f.c_str()); if(broken) c.label("unreadable input"); if(listed&&s.n>=1&&s.attrs.size()>=2) c.nontrivial(hashPS(s)+what);
}
PBT_MAIN("a tool or print() run on a set of at least one particle and two attributes, its whole output compared", prop)
