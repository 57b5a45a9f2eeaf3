// What cannot be done is reported, on the stream given and only when asked for (C25).
#include "files.h"
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
using namespace pm;
static const std::vector<std::string> readable={"bgeo","bhclassic","itbl","atbl","geo","hclassic","pdb","pdb32","pdb64","pda","mc","ptc","ptf","pdc","prt","bin","pts"};
static const std::vector<std::string> writable={"bgeo","bhclassic","itbl","atbl","geo","hclassic","pdb","pdb32","pdb64","pda","ptc","ptf","pdc","prt","bin","rib"};
static std::string genBase(Ctx& c){ static const std::vector<std::string> b={"file","a.b","with space","x.gz.y","x.bgeo.y","UPPER","trailing.","-dash","#frame.0001","a'b"}; return c.pick(b); }
// the three ways of reading; what they say goes to es
static void* readBy(int how,const std::string& f,bool verbose,std::string& said,Holder& h){ std::ostringstream es; if(how==0) h.p=Partio::read(f.c_str(),verbose,es); else if(how==1) h.p=Partio::readHeaders(f.c_str(),verbose,es); else h.p=Partio::readCached(f.c_str(),how==3,verbose,es); said=es.str(); return h.p; }
static const char* hows[]={"read","readHeaders","readCached","readCached with sorting"};
struct Limit { rlimit old; Limit(rlim_t n){ signal(SIGXFSZ,SIG_IGN); getrlimit(RLIMIT_FSIZE,&old); rlimit r=old; r.rlim_cur=n; setrlimit(RLIMIT_FSIZE,&r); } ~Limit(){ setrlimit(RLIMIT_FSIZE,&old); } };
static void prop(Ctx& c){
    bool verbose=c.chance(3,4); int kind=(int)c.weighted({3,3,4,3,3,5,4}); std::string said; int how=(int)c.draw(4);
    if(kind==0){ // nothing there, or a directory
        std::string ext=c.pick(readable), f=c.path(genBase(c)+"."+ext+(c.chance(1,3)?".gz":"")); bool dir=c.chance(1,4); int at=(int)c.draw(3); if(at==1) f=c.path("no such directory/")+f.substr(f.rfind('/')+1); if(at==2&&!dir){ writeFile(c.path("plain"),"x"); f=c.path("plain/")+f.substr(f.rfind('/')+1); } if(dir) mkdir((f).c_str(),0700); bool isdir=dir&&at!=1;
        Holder h; readBy(how,f,verbose,said,h); c.note("%s of %s %s",hows[how],isdir?"a directory":"a missing file",f.substr(f.rfind('/')+1).c_str()); CHECK(!h.p,"%s of %s gives a set",hows[how],isdir?"a directory":"a missing file"); if(verbose) CHECK(!said.empty(),"%s of a %s .%s says nothing",hows[how],isdir?"directory named":"missing",ext.c_str()); else CHECK(said.empty(),"quiet %s says '%s'",hows[how],esc(said).c_str()); if(!isdir) CHECK(!exists(f),"reading created the file"); else rmdir(f.c_str()); c.label(isdir?"read a directory":"read a missing file"); c.nontrivial(ext+f.substr(f.rfind('/'))+hows[how]+(char)verbose); return; }
    if(kind==1){ // no extension, unknown ones, those of the other direction
        static const std::vector<std::string> bad={"","txt","bgeox","BGEO","Pdb","pdb ","gz","gz.gz","bge","ptcc","p","prt~","bgeo.gz.gz","bgeo/x","bgeo.","bgeo.d/file","0001","bgeo.GZ","pdb.Gz","geo.z","prt.gz~"}; bool writing=c.chance(1,2); std::string e=c.chance(1,5)? (writing?std::string(c.chance(1,2)?"mc":"pts"):std::string("rib")) : c.pick(bad); if(c.chance(1,3)){ auto& v=writing?writable:readable; std::string x=c.pick(v); size_t i=c.draw(x.size()); switch(c.draw(4)){ case 0: x[i]=(char)(x[i]^0x20); break; case 1: x.erase(i,1); break; case 2: x.insert(i,1,x[i]); break; default: x+=c.pick(std::vector<char>{'z','2','4',' ','_','\t'}); } if(std::find(v.begin(),v.end(),x)==v.end()) e=x; } std::string f=c.path("u"+(e.empty()?std::string(c.chance(1,2)?"":"."):"."+e)+(c.chance(1,5)?".gz":"")); 
        // the directories of scratch have no dots unless the case puts one there
        if(e.find('/')!=std::string::npos) mkdir(f.substr(0,f.rfind('/')).c_str(),0700);
        if(writing){ GenOpt o=commonOpt(); o.maxN=5; PS s=genPS(c,o); Holder h(build(s)); std::ostringstream es; Partio::write(f.c_str(),*static_cast<ParticlesData*>(h.p),c.chance(1,4),verbose,es); CHECK(!es.str().empty(),"writing '%s' says nothing",f.substr(c.scratch.size()+1).c_str()); CHECK(!exists(f),"writing '%s' left a file",f.substr(c.scratch.size()+1).c_str()); { PS x=extract(static_cast<ParticlesData*>(h.p)); cmpExact(s,x); } }
        else { AnyFile a=anyFile(c); writeFile(f,a.bytes); Holder h; readBy(how,f,verbose,said,h); CHECK(!h.p,"%s of '%s' gives a set",hows[how],f.substr(c.scratch.size()+1).c_str()); CHECK(!said.empty(),"%s of '%s' says nothing",hows[how],f.substr(c.scratch.size()+1).c_str()); unlink(f.c_str()); }
        c.note("%s %s",writing?"write":hows[how],f.substr(c.scratch.size()+1).c_str()); c.label(writing?"write under an unknown extension":"read under an unknown extension"); c.nontrivial(f.substr(f.rfind('/'))+(writing?"w":hows[how])+(char)verbose); return; }
    if(kind==2){ // the extension alone decides, whatever else the name holds
        AnyFile a=anyFile(c); static const std::vector<std::vector<std::string>> alias={{"bgeo","bhclassic","itbl","atbl"},{"geo","hclassic"},{"ptc","ptf"}}; std::string e=a.ext; for(auto& g:alias) if(std::find(g.begin(),g.end(),e)!=g.end()) e=c.pick(g); if((e=="pdb32"||e=="pdb64")&&c.chance(1,2)) e="pdb";
        std::string b=genBase(c); std::string dir=c.path(c.chance(1,3)?"dir.pdb":"dir"); mkdir(dir.c_str(),0700); std::string f=dir+"/"+b+"."+e+(a.gz&&c.chance(1,4)?".gz":""); writeFile(f,a.bytes); Holder h; readBy(how,f,verbose,said,h); CHECK(h.p,"%s of a .%s file named '%s' fails: %s",hows[how],a.ext.c_str(),f.substr(c.scratch.size()+1).c_str(),said.c_str()); if(!verbose) CHECK(said.empty(),"quiet %s says '%s'",hows[how],esc(said).c_str());
        std::string plain=c.path("plain."+a.ext); writeFile(plain,a.bytes); Holder g(readQ(plain)); CHECK(g.p,"the file cannot be read under its own extension"); CHECK(sig(extractInfo(h.p))==sig(extractInfo(g.p)),"the name of the file makes a difference"); if(how!=1){ PS x=extract(static_cast<ParticlesData*>(g.p)), y=extract(static_cast<ParticlesData*>(h.p)); cmpExact(x,y); } unlink(f.c_str()); unlink(plain.c_str());
        // and under the extension of another format it is refused
        static const std::vector<std::string> strict={"bgeo","geo","pdb32","pda","mc","ptc","pdc","prt","bin"}; std::string o=c.pick(strict); auto fam=[](std::string x){ if(x=="bhclassic"||x=="itbl"||x=="atbl") return std::string("bgeo"); if(x=="hclassic") return std::string("geo"); if(x=="ptf") return std::string("ptc"); if(x=="pdb32"||x=="pdb64") return std::string("pdb"); return x; };
        if(fam(o)!=fam(a.ext)){ std::string w=c.path("wrong."+o); writeFile(w,a.bytes); Holder k; readBy(how,w,verbose,said,k); CHECK(!k.p,"a .%s file is taken for .%s",a.ext.c_str(),o.c_str()); if(verbose) CHECK(!said.empty(),"a .%s file under .%s is refused without a message",a.ext.c_str(),o.c_str()); else CHECK(said.empty(),"quiet %s says '%s'",hows[how],esc(said).c_str()); unlink(w.c_str()); c.label("content of another format"); }
        c.note("%s %s as %s",hows[how],a.kind.c_str(),f.substr(c.scratch.size()+1).c_str()); c.label("read under odd names"); if(a.want.n) c.nontrivial(hashPS(a.want)+b+e+hows[how]); return; }
    if(kind==6){ // a file of a variant of its format that is not supported
        static const std::vector<Encoder> marked={encBGEO,encGEO,encPDB,encPDA,encPDC,encPTC,encPRT,encBIN,encMC}; Sample a=marked[c.draw(marked.size())](c); if(a.marks.empty()) throw Discard{"no marks"}; Mark m=a.marks[c.draw(a.marks.size())]; std::string with=c.pick(m.other); if(m.what=="BIN magic"&&a.bytes.compare(0,4,with)==0) throw Discard{"same"}; std::string b=a.bytes.substr(0,m.at)+with+a.bytes.substr(m.at+m.len), f=c.path("v."+a.ext); bool gz=gzFormat(a.ext)&&c.chance(1,4); if(gz) b=gzEncode(b); writeFile(f,b); Holder h; readBy(how,f,verbose,said,h); c.note("%s of a file with another %s at %zu: %s",hows[how],m.what.c_str(),m.at,esc(with).c_str());
        if(m.what.find("primitive")!=std::string::npos&&h.p){ // the points may be read all the same, but not without a word
            PS x=how==1?extractInfo(h.p):extract(static_cast<ParticlesData*>(h.p)), w=a.want; if(x.fixed.empty()) w.fixed.clear(); if(how==1) CHECK(sig(x)==sig(w),"the headers of a file with unknown primitives are read as %s instead of %s",sig(x).c_str(),sig(w).c_str()); else cmpExact(w,x); c.label("unknown primitives"); }
        else CHECK(!h.p,"%s of a file with another %s gives a set",hows[how],m.what.c_str());
        if(verbose) CHECK(!said.empty(),"%s of a file with another %s says nothing",hows[how],m.what.c_str()); else CHECK(said.empty(),"quiet %s says '%s'",hows[how],esc(said).c_str()); unlink(f.c_str()); c.label("another "+m.what); c.nontrivial(hashPS(a.want)+m.what+with+hows[how]+(char)verbose); return; }
    std::string ext=c.pick(writable); GenOpt o=commonOpt(); o.maxN=kind==5?200:10; if(ext=="prt") o.minN=1; bool gz=c.chance(1,3);
    if(kind==3){ // places that cannot be written
        PS s=genPS(c,o); Holder h(build(s)); int at=(int)c.draw(3); std::string f=c.path("w."+ext+(gz&&c.chance(1,2)?".gz":"")); if(at==0) f=c.path("missing/")+f.substr(f.rfind('/')+1); else if(at==1) mkdir(f.c_str(),0700); else { writeFile(c.path("plain"),"x"); f=c.path("plain/")+f.substr(f.rfind('/')+1); }
        std::ostringstream es; Partio::write(f.c_str(),*static_cast<ParticlesData*>(h.p),gz,verbose,es); if(verbose) CHECK(!es.str().empty(),"writing .%s%s to a place that cannot be written says nothing",ext.c_str(),gz?" compressed":""); else CHECK(es.str().empty(),"quiet writing says '%s'",esc(es.str()).c_str()); if(at!=1) CHECK(!exists(f),"a file appeared"); else rmdir(f.c_str()); { PS x=extract(static_cast<ParticlesData*>(h.p)); cmpExact(s,x); } c.note("write %s%s to %s",ext.c_str(),gz?" compressed":"",at==0?"a missing directory":at==1?"a directory":"below a plain file"); c.label("unwritable place"); c.nontrivial(hashPS(s)+ext+(char)(at*2+gz)); return; }
    if(kind==4){ // positions missing where the format needs them
        static const std::vector<std::string> need={"bgeo","bhclassic","geo","hclassic","ptc","ptf","rib"}; ext=c.pick(need); o.requirePosition=false; o.reserved.push_back("position"); o.reserved.push_back("p"); PS s=genPS(c,o); if(ext!="rib"&&c.chance(1,2)){ Attr a; a.name="position"; a.type=c.chance(1,2)?INT:INDEXEDSTR; a.count=c.chance(1,2)?3:1; if(a.type==INDEXEDSTR) a.strings={"x"}; fillData(c,a,(size_t)s.n*a.count,1); s.attrs.push_back(a); c.label("position of another type"); } else if(ext!="rib"&&c.chance(1,2)){ Attr a; a.name="position"; a.type=FLOAT; a.count=(int)c.range(1,2); fillData(c,a,(size_t)s.n*a.count,1); s.attrs.push_back(a); c.label("position of one or two values"); }
        c.note("write %s without positions: %s",ext.c_str(),describe(s).c_str()); Holder h(build(s,c.chance(1,4))); std::string f=c.path("n."+ext+(gz?".gz":"")); bool before=c.chance(1,2); if(before) writeFile(f,"what was there before"); else unlink(f.c_str()); std::ostringstream es; Partio::write(f.c_str(),*static_cast<ParticlesData*>(h.p),false,verbose,es); if(verbose) CHECK(!es.str().empty(),"writing .%s without positions says nothing",ext.c_str()); else CHECK(es.str().empty(),"quiet writing says '%s'",esc(es.str()).c_str()); if(before) CHECK(readFile(f)=="what was there before","the file that was there before is lost although writing .%s is refused",ext.c_str()); else CHECK(!exists(f),"a .%s file that cannot be written is left behind",ext.c_str()); unlink(f.c_str()); c.label("no positions"); if(s.n) c.nontrivial(hashPS(s)+ext); return; }
    // the disk is full at any point
    PS s=genPS(c,o); Holder h(build(s)); std::string f=c.path("l."+ext+(gz&&c.chance(1,2)?".gz":"")), err; unlink(f.c_str()); writeQ(f,*static_cast<ParticlesData*>(h.p),gz,&err); CHECK(exists(f),"no file was written: %s",err.c_str()); std::string full=readFile(f); if(full.empty()) throw Discard{"empty file"}; unlink(f.c_str());
    size_t at; switch(c.draw(4)){ case 0: at=full.size()-1; break; case 1: at=full.size()-std::min(full.size(),(size_t)c.range(1,20)); break; case 2: at=(size_t)c.draw(2); if(at>=full.size()) at=0; break; default: at=(size_t)c.draw(full.size()); } bool enough=c.chance(1,8); if(enough) at=full.size();
    std::ostringstream es; { Limit l(at); Partio::write(f.c_str(),*static_cast<ParticlesData*>(h.p),gz,verbose,es); }
    std::string got=readFile(f); c.note("write %s%s, %zu of %zu bytes fit",ext.c_str(),gz?" compressed":"",at,full.size()); if(enough){ CHECK(got==full||ext=="rib","a file that just fits is not written whole"); c.label("just enough room"); }
    else { CHECK(got.size()<=at,"harness: limit"); if(verbose) CHECK(!es.str().empty()&&es.str()!=err,"writing .%s%s says nothing although only %zu of %zu bytes fit",ext.c_str(),gz?" compressed":"",at,full.size()); else CHECK(es.str().empty(),"quiet writing says '%s'",esc(es.str()).c_str()); { PS x=extract(static_cast<ParticlesData*>(h.p)); cmpExact(s,x); } c.label("no room for the file"); }
    unlink(f.c_str()); if(s.n) c.nontrivial(hashPS(s)+ext+std::to_string(at));
}
PBT_MAIN("a request that cannot be met (or one with an odd file name that can), told apart by file name, kind and set", prop)
