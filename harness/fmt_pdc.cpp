// PDC (Maya disk cache) round trip.
#include "fmt.h"
using namespace pm;
static bool eq(const Attr&,uint32_t w,uint32_t g){ return w==g || (std::isnan(asF(w))&&std::isnan(asF(g))); }
static PS expect(const PS& s){ PS e=s; e.fixed.clear(); for(auto& a:e.attrs){ int w= a.type==VECTOR?3:1; std::vector<uint32_t> d; for(int i=0;i<s.n;i++) for(int k=0;k<w;k++){ uint32_t v=a.data[(size_t)i*a.count+k]; d.push_back(isFloatT(a.type)? v : asU((float)(double)(int)v)); } a.data=d; a.count=w; if(a.type!=VECTOR) a.type=FLOAT; a.strings.clear(); } return e; }
static void decode(const PS& s,const std::string& b){ Rd r(b); CHECK(r.bytes(4)=="PDC ","file: magic"); CHECK(r.be32()==1,"file: version"); CHECK(r.be32()==1,"file: bit order"); r.be32(); r.be32(); CHECK((int)r.be32()==s.n,"file: particles"); CHECK(r.be32()==s.attrs.size(),"file: attributes"); 
    for(auto& a:s.attrs){ uint32_t l=r.be32(); CHECK(r.bytes(l)==a.name,"file: name of '%s'",esc(a.name).c_str()); CHECK(r.be32()==(a.type==VECTOR?5u:3u),"file: type of '%s'",esc(a.name).c_str()); int w=a.type==VECTOR?3:1; for(int i=0;i<s.n;i++) for(int k=0;k<w;k++){ uint64_t u=r.be64(); double d; memcpy(&d,&u,8); uint32_t v=a.data[(size_t)i*a.count+k]; double x= isFloatT(a.type)? (double)asF(v) : (double)(int)v; CHECK(d==x||(std::isnan(d)&&std::isnan(x)),"file: '%s' of particle %d comp %d is %g, expected %g",esc(a.name).c_str(),i,k,d,x); } }
    CHECK(r.ok&&r.end(),"file: length"); }
static void prop(Ctx& c){
    Fmt f; f.exts={"pdc"}; f.opt.nameStyle=NAME_ANY; f.eq=eq; f.opt.requirePosition=c.chance(7,8); f.opt.maxCount=8; if(c.chance(1,2)){ f.opt.floatMax=f.opt.intMax=f.opt.strMax=1; }
    f.expect=expect; f.decode=decode; f.nontrivial=[](const PS& s){ return s.n>=1&&s.attrs.size()>=1; };
    roundtrip(c,f);
}
PBT_MAIN("a set with at least one particle and one attribute, written, decoded independently and read back", prop)
