// Files of every format: written by the library itself from a generated set, or produced by
// the independent encoders.
#pragma once
#include "enc.h"
namespace pm {
inline const std::vector<std::string>& writableExts(){ static const std::vector<std::string> e={"bgeo","bhclassic","itbl","atbl","geo","hclassic","pdb","pdb32","pdb64","pda","ptc","ptf","pdc","prt","bin"}; return e; }
// sets every writer accepts and every reader of its own format can read back
inline GenOpt commonOpt(){ GenOpt o; o.requirePosition=true; o.floatCls=1; o.nameMax=31; o.maxAttrs=5; o.maxCount=8; o.wide=true; o.dupStrings=true; o.big=false; o.maxN=600; o.strLen=200; o.manyStrings=false; o.fixed=true; o.zero=true; o.reserved={"TYPES","tYPES","normal","radius"}; o.fold=[](const std::string& s){ std::string r=s; if(!r.empty()&&r[0]>='A'&&r[0]<='Z') r[0]+=32; return r; }; return o; }
struct AnyFile { std::string ext, bytes, kind; PS want; bool own=false; bool gz=true; bool ordered=true; };
// plain (uncompressed) bytes of a valid file
inline AnyFile anyFile(Ctx& c,const std::vector<std::string>& only={},int ownNum=1,int ownDen=2,bool interleaveToo=true){
    AnyFile f; auto ok=[&](const std::string& e){ return only.empty()||std::find(only.begin(),only.end(),e)!=only.end(); };
    f.own=c.chance(ownNum,ownDen);
    if(f.own){ std::vector<std::string> es; for(auto& e:writableExts()) if(ok(e)) es.push_back(e); if(es.empty()) f.own=false; else {
        f.ext=c.pick(es); GenOpt o=commonOpt(); if(f.ext=="prt") o.minN=1; PS s=genPS(c,o); bool inter=interleaveToo&&c.chance(1,8); Holder h(build(s,inter)); std::string p=c.path("own."+f.ext); unlink(p.c_str()); std::string err; writeQ(p,*static_cast<ParticlesData*>(h.p),false,&err); CHECK(exists(p),"no .%s file was written: %s",f.ext.c_str(),err.c_str()); f.bytes=readFile(p); unlink(p.c_str()); f.want=s; f.kind="own "+f.ext; c.note("own %s%s %s",f.ext.c_str(),inter?" interleaved":"",describe(s).c_str()); } }
    if(!f.own){ std::vector<Encoder> es; for(auto& e:encoders()) if(ok(e.first)) es.push_back(e.second); Sample s=es[c.draw(es.size())](c); f.ext=s.ext; f.bytes=s.bytes; f.want=s.want; f.kind=s.kind; f.ordered=s.ordered; }
    f.gz=gzFormat(f.ext); return f; }
inline PS readBack(const std::string& file,std::string* why=nullptr){ std::string err; Holder h(readQ(file,&err)); CHECK(h.p,"%s cannot be read: %s",file.substr(file.rfind('/')+1).c_str(),err.c_str()); if(why) *why=err; return extract(static_cast<ParticlesData*>(h.p)); }
inline std::string sig(const PS& p){ std::string r=std::to_string(p.n); for(auto* v:{&p.attrs,&p.fixed}){ r+="|"; for(auto& a:*v) r+=a.name+":"+tname(a.type)+std::to_string(a.count)+","; } return r; }
} // namespace pm
