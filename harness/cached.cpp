// readCached() against a model of the cache (C20).
#include "files.h"
#include <sys/stat.h>
using namespace pm;
struct Ver { PS s; std::string bytes; bool good=true; bool absent=false; };
static void prop(Ctx& c){
    int nf=(int)c.range(1,4), nh=0; static const std::vector<std::string> ex={"bgeo","geo","pdb","pda","pdc","ptc","bin","bgeo.gz","pdc.gz"}; static const std::vector<std::string> bad={"bgeo","geo","pda","pdb","ptc","bin"};
    struct File { std::string name, ext; Ver cur; ParticlesData* p=nullptr; int refs=0; PS at; bool sorted=false; }; std::vector<File> fs(nf);
    auto put=[&](File& f){ GenOpt o=commonOpt(); o.wide=false; o.maxN=c.chance(1,6)?300:12; o.maxAttrs=2; PS s=genPS(c,o); Holder h(build(s)); unlink(f.name.c_str()); writeQ(f.name,*static_cast<ParticlesData*>(h.p)); f.cur.good=true; f.cur.absent=false; f.cur.s=readBack(f.name); };
    // names that differ in as little as the directory, the extension or the case of a letter
    int style=(int)c.draw(4); for(int i=0;i<nf;i++){ fs[i].ext=c.pick(ex); std::string base=fmt("c%d.",i);
        if(style==1){ mkdir(c.path(fmt("d%d",i)).c_str(),0700); base=fmt("d%d/c.",i); } else if(style==2){ base=i==0?"c.":i==1?"C.":i==2?"cc.":"c.c."; } else if(style==3){ base="c."; static const char* ee[]={"bgeo","bgeo.gz","geo","pdb"}; fs[i].ext=ee[i]; }
        fs[i].name=c.path(base+fs[i].ext); unlink(fs[i].name.c_str()); if(c.chance(5,6)) put(fs[i]); else { fs[i].cur.good=false; fs[i].cur.absent=true; } }
    int steps=(int)c.range(2,c.chance(1,5)?60:20), shared=0, reloads=0, changedWhileHeld=0, lateSort=0, loads=0; std::set<int> loadedOnce;
    auto verify=[&](File& f){ PS g=extract(f.p); cmpExact(f.at,g); if(f.sorted){ const Attr* a=find(f.at.attrs,"position"); std::vector<ParticleIndex> r; float lo[3]={-3e38f,-3e38f,-3e38f}, hi[3]={3e38f,3e38f,3e38f}; f.p->findPoints(lo,hi,r); size_t w=0; for(int i=0;i<f.at.n;i++){ bool in=true; for(int k=0;k<3;k++) in&=std::fabs(asF(a->data[3*i+k]))<=3e38f; w+=in; } CHECK(r.size()==w,"a set read with sorting finds %zu of %zu points in an all-embracing box",r.size(),w); } };
    for(int t=0;t<steps;t++){ int i=(int)c.draw(nf); File& f=fs[i];
        switch(c.weighted({8,6,3,1,1,2})){
        case 0: { bool sort=c.chance(1,2); std::ostringstream es; ParticlesData* p=Partio::readCached(f.name.c_str(),sort,true,es);
            if(f.p){ CHECK(p==f.p,"a file already cached was handed out as another object"); f.refs++; shared++; if(sort&&!f.sorted){ f.sorted=true; lateSort++; } nh++; if(f.refs<100&&c.chance(1,150)){ static const std::vector<int> K={254,255,256,300,32766,65535,65536}; int k=K[c.draw(K.size())]; for(int q=0;q<k;q++){ ParticlesData* r=Partio::readCached(f.name.c_str(),false,true,es); CHECK(r==f.p,"a file already cached was handed out as another object"); } f.refs+=k; c.label("hundreds of holders"); } }
            else if(!f.cur.good){ CHECK(!p,"a %s file was handed out",f.cur.absent?"missing":"damaged"); CHECK(!es.str().empty()||f.cur.absent,"no message for a %s file",f.cur.absent?"missing":"damaged"); c.label(f.cur.absent?"missing file":"damaged file"); }
            else { CHECK(p,"a file cannot be read: %s",es.str().c_str()); f.p=p; f.refs=1; f.at=f.cur.s; f.sorted=sort; if(!loadedOnce.insert(i).second) reloads++; loads++; nh++; for(auto& g:fs) if(&g!=&f) CHECK(g.p!=p,"two files share one object"); }
            break; }
        case 1: { if(!f.p) break; if(c.chance(1,4)) Partio::beginCachedAccess(f.p); if(c.chance(1,4)) Partio::endCachedAccess(f.p); int drop= f.refs>100&&c.chance(1,2)? f.refs-(int)c.draw(3) : 1; for(int q=1;q<drop;q++){ f.p->release(); f.refs--; } f.p->release(); if(--f.refs==0){ f.p=nullptr; f.sorted=false; } break; }
        case 2: { put(f); if(f.p) changedWhileHeld++; break; }
        case 3: { unlink(f.name.c_str()); f.cur.good=false; f.cur.absent=true; break; }
        case 4: { std::string b=readFile(f.name); if(b.empty()||f.ext.find("gz")!=std::string::npos||f.ext=="pdc") break; writeFile(f.name,std::string("\x01garbage at the start ",21)+b); f.cur.good=false; f.cur.absent=false; if(f.ext=="geo") { unlink(f.name.c_str()); f.cur.absent=true; } break; }
        default: { std::ostringstream es; ParticlesDataMutable* p=Partio::read(f.name.c_str(),true,es); CHECK((p!=nullptr)==f.cur.good,"read() of a %s file",f.cur.good?"good":"bad"); if(p){ CHECK((void*)p!=(void*)f.p,"read() handed out the cached object"); cmpExact(f.cur.s,extract(p)); ParticleAttribute h; if(p->numParticles()&&p->attributeInfo(0,h)) memset(p->dataWrite<void>(h,0),1,4*h.count); p->release(); } c.label("read() in between"); } }
        if(f.p) verify(f); }
    for(auto& f:fs) if(f.p) verify(f);
    for(auto& f:fs) { while(f.refs>0){ f.p->release(); f.refs--; } f.p=nullptr; unlink(f.name.c_str()); }
    c.note("%d files, %d steps: %d loads (%d again after release), %d shared, %d changed while held, %d late sorts",nf,steps,loads,reloads,shared,changedWhileHeld,lateSort); if(reloads) c.label("loaded again"); if(changedWhileHeld) c.label("file changed while held"); if(lateSort) c.label("sorting asked for later");
    if(shared&&loads>=1&&(reloads||changedWhileHeld||lateSort)) c.nontrivial(fmt("%d %d %d %d %d %d",nf,steps,loads,reloads,shared,changedWhileHeld)+hashPS(fs[0].at));
}
PBT_MAIN("a history in which an object is shared and, besides, a file is loaded again, changed while held, or sorted on a later request", prop)
