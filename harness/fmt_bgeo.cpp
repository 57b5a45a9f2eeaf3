// BGEO round trip, against an independent decoder of the Houdini classic binary layout.
#include "fmt.h"
using namespace pm;
static void attrDef(Rd& r,const Attr& a){ uint16_t l=r.be16(); std::string nm=r.bytes(l); CHECK(r.ok && nm==a.name,"file: attribute name '%s', expected '%s'",esc(nm).c_str(),esc(a.name).c_str()); uint16_t sz=r.be16(); CHECK(sz==a.count,"file: attribute size %d, expected %d",sz,a.count); uint32_t t=r.be32(); uint32_t want= a.type==FLOAT?0:a.type==INT?1:a.type==INDEXEDSTR?4:5; CHECK(t==want,"file: attribute type %u, expected %u",t,want);
    if(t==4){ uint32_t k=r.be32(); CHECK(k==a.strings.size(),"file: %u strings, expected %zu",k,a.strings.size()); for(auto& s:a.strings){ uint16_t sl=r.be16(); CHECK(r.bytes(sl)==s,"file: string differs"); } } else for(int i=0;i<sz;i++) r.be32(); }
static void decode(const PS& s,const std::string& b){ Rd r(b); CHECK(r.bytes(5)=="BgeoV","file: bad magic"); CHECK(r.be32()==5,"file: version"); CHECK((int)r.be32()==s.n,"file: point count"); CHECK(r.be32()==0,"file: prims"); r.be32(); r.be32(); CHECK(r.be32()==s.attrs.size()-1,"file: attribute count"); r.be32(); r.be32(); CHECK(r.be32()==s.fixed.size(),"file: detail attribute count");
    std::vector<const Attr*> o; const Attr* pos=nullptr; for(auto& a:s.attrs) if(a.name=="position") pos=&a; else { attrDef(r,a); o.push_back(&a);} 
    for(int i=0;i<s.n;i++){ for(int k=0;k<3;k++){ uint32_t v=r.be32(); CHECK(v==pos->data[i*3+k],"file: position of point %d comp %d is %08x, expected %08x",i,k,v,pos->data[i*3+k]); } CHECK(r.be32()==0x3f800000u,"file: homogeneous coordinate of point %d is not 1",i); for(auto* a:o) for(int k=0;k<a->count;k++){ uint32_t v=r.be32(); CHECK(v==a->data[(size_t)i*a->count+k],"file: '%s' of point %d comp %d is %08x, expected %08x",esc(a->name).c_str(),i,k,v,a->data[(size_t)i*a->count+k]); } }
    for(auto& a:s.fixed) attrDef(r,a); for(auto& a:s.fixed) for(int k=0;k<a.count;k++){ uint32_t v=r.be32(); CHECK(v==a.data[k],"file: detail '%s' comp %d is %08x, expected %08x",esc(a.name).c_str(),k,v,a.data[k]); }
    CHECK(r.bytes(2)==std::string("\x00\xff",2) && r.ok && r.end(),"file: trailer"); }
static void prop(Ctx& c){
    static Fmt f; static bool init=false; if(!init){ init=true; f.exts={"bgeo","bhclassic","itbl","atbl"}; f.opt.nameStyle=NAME_ANY; f.opt.fixed=true; f.opt.maxCount=64; f.opt.dupStrings=true; f.opt.wide=true; f.decode=decode;
        f.expect=[](const PS& s){ PS e; e.n=s.n; e.fixed=s.fixed; for(auto& a:s.attrs) if(a.name=="position") e.attrs.push_back(a); for(auto& a:s.attrs) if(a.name!="position") e.attrs.push_back(a); return e; }; f.nontrivial=[](const PS& s){ return s.n>=2 && (s.attrs.size()>=2||s.fixed.size()); }; 
        f.tweak=[](Ctx& c,PS& s){ if(c.chance(1,60)){ static const std::vector<int> L={32767,32768,40000,65534,65535}; int l=L[c.draw(L.size())]; for(auto& a:s.attrs) if(a.type==INDEXEDSTR){ std::string x; for(int i=0;i<l;i++) x+=(char)('a'+i%23); a.strings.push_back(x); c.label("string >= 32767 bytes"); break; } }
            if(c.chance(1,150)) for(auto& a:s.attrs) if(a.type==INDEXEDSTR){ static const std::vector<int> K={32767,32769,65535,65536,65537,70000}; int k=K[c.draw(K.size())]; a.strings.clear(); for(int i=0;i<k;i++) a.strings.push_back("t"+std::to_string(i)); Rng g(7); for(auto& v:a.data) v=g.next()%3? (uint32_t)(g.next()%k) : (uint32_t)(k-1); c.label("more than 32767 strings"); break; }
            if(c.chance(1,200)) for(auto& a:s.attrs) if(a.name!="position"){ a.name=std::string((size_t)c.range(32700,65535),'n'); c.label("very long name"); break; }
            if(c.chance(1,100)&&s.n<20) for(auto& a:s.attrs) if(a.type==INT||a.type==FLOAT){ static const std::vector<int> C={255,256,257,1000,4096,32768,65535}; a.count=C[c.draw(C.size())]; fillData(c,a,(size_t)s.n*a.count,0); c.label("very wide attribute"); break; } }; }
    roundtrip(c,f);
}
PBT_MAIN("a set with at least two particles and at least one attribute besides position (per-particle or fixed), written, decoded independently and read back", prop)
