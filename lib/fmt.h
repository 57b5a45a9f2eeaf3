// Shared driver of the file format round-trip properties.
#pragma once
#include "model.h"
namespace pm {
struct Fmt {
    std::vector<std::string> exts; bool gz=true; GenOpt opt;
    std::function<PS(const PS&)> expect;                 // what reading back must give
    bool ordered=true; Eq eq=bitEq; bool table=true;
    std::function<void(const PS&,const std::string&)> decode; // independent decoder: throws Failure when the bytes do not denote the set
    std::function<bool(const PS&)> nontrivial;
    std::function<void(Ctx&,PS&)> tweak;                 // adjusts a generated set to the domain
    bool interleaveOk=true;
};
inline void compare(const Fmt& f,const PS& want,const PS& got){ if(f.ordered) cmpExact(want,got,f.table,f.eq); else cmpUnordered(want,got,f.table,f.eq); }
inline void roundtrip(Ctx& c,const Fmt& f){
    PS s=genPS(c,f.opt); if(f.tweak) f.tweak(c,s);
    std::string ext=f.exts[c.draw(f.exts.size())]; int comp= f.gz? (int)c.weighted({5,2,2}) : 0; // plain, .gz suffix, forced
    bool inter = f.interleaveOk && c.chance(1,6);
    std::string file=c.path("rt."+ext+(comp==1?".gz":""));
    c.note("%s %s%s %s",ext.c_str(),comp==0?"plain":comp==1?".gz":"forced gz",inter?" interleaved":"",describe(s).c_str());
    Holder h(build(s,inter)); unlink(file.c_str());
    std::string err; writeQ(file,*static_cast<ParticlesData*>(h.p),comp==2,&err);
    CHECK(exists(file),"write produced no file (%s)",err.c_str());
    std::string raw=readFile(file), plain=raw;
    if(comp){ CHECK(isGz(raw),"compressed output is not a gzip file"); CHECK(gzDecode(raw,plain),"zlib cannot decompress the compressed output"); }
    if(f.decode) f.decode(s,plain);
    Holder r(readQ(file,&err)); CHECK(r.p,"reading back failed: %s",err.c_str());
    PS got=extract(static_cast<ParticlesData*>(r.p));
    compare(f,f.expect(s),got);
    unlink(file.c_str());
    c.label("ext:"+ext); c.label(comp==0?"plain":comp==1?"gz suffix":"gz forced"); if(inter) c.label("interleaved source"); c.label(s.n==0?"n=0":s.n<10?"n<10":s.n<1000?"n<1000":s.n<65536?"n<65536":"n>=65536"); if(s.attrs.size()>=8) c.label("many attributes");
    if(f.nontrivial? f.nontrivial(s) : (s.n>=2&&s.attrs.size()>=2)) c.nontrivial(hashPS(s)+ext+(char)comp);
}
} // namespace pm
