// PRT (Krakatoa) round trip.
#include "fmt.h"
using namespace pm;
static std::string fold(const std::string& s){ std::string r=s; if(!r.empty()&&r[0]>='A'&&r[0]<='Z') r[0]+=32; return r; }
static bool kept(const Attr& a){ return a.type!=INDEXEDSTR; }
static PS expect(const PS& s){ PS e; e.n=s.n; for(auto& a:s.attrs) if(kept(a)){ Attr b=a; b.name=fold(a.name); if(b.type!=INT) b.type= b.count==3?VECTOR:FLOAT; e.attrs.push_back(b);} return e; }
static void decode(const PS& s,const std::string& b){ Rd r(b); CHECK(r.bytes(8)==std::string("\xc0PRT\r\n\x1a\n",8),"file: magic"); CHECK(r.le32()==56,"file: header size"); CHECK(r.bytes(32)==std::string("Extensible Particle Format\0\0\0\0\0\0",32),"file: signature"); CHECK(r.le32()==1,"file: version"); CHECK(r.le64()==(uint64_t)s.n,"file: particles"); r.le32(); PS e=expect(s); CHECK(r.le32()==e.attrs.size(),"file: number of channels"); CHECK(r.le32()==44,"file: channel size"); uint32_t off=0;
    for(auto& a:e.attrs){ std::string nm=r.bytes(32); nm=nm.c_str(); CHECK(fold(nm)==a.name && !(nm[0]>='a'&&nm[0]<='z'),"file: channel '%s', expected '%s'",esc(nm).c_str(),esc(a.name).c_str()); CHECK(r.le32()==(a.type==INT?1u:4u),"file: channel type"); CHECK((int)r.le32()==a.count,"file: arity"); CHECK(r.le32()==off,"file: offset"); off+=4*a.count; }
    CHECK(r.ok,"file: truncated"); std::string body=b.substr(r.p), out(((size_t)s.n*off)+16,0); uLongf l=out.size(); int z=uncompress((Bytef*)&out[0],&l,(const Bytef*)body.data(),body.size()); CHECK(z==Z_OK,"file: body is not a zlib stream (%d)",z); CHECK(l==(size_t)s.n*off,"file: body of %lu bytes, expected %zu",(unsigned long)l,(size_t)s.n*off); Rd q(out); for(int i=0;i<s.n;i++) for(auto& a:e.attrs) for(int k=0;k<a.count;k++){ uint32_t v=q.le32(); CHECK(v==a.data[(size_t)i*a.count+k],"file: '%s' of particle %d comp %d is %08x, expected %08x",esc(a.name).c_str(),i,k,v,a.data[(size_t)i*a.count+k]); } }
static void prop(Ctx& c){
    Fmt f; f.exts={"prt"}; f.decode=decode; f.gz=false; f.opt.nameMax=31; f.opt.nameStyle=NAME_ANY; f.opt.fold=fold; f.opt.minN=1; f.opt.maxCount=20; f.opt.wide=true; f.opt.requirePosition=c.chance(3,4); f.expect=expect;
    f.tweak=[](Ctx& c,PS& s){ if(c.chance(1,60)) for(auto& a:s.attrs) if(a.type==INT||a.type==FLOAT){ static const std::vector<int> W={33,128,255,256,1000,8192,16383,16384,16385,20000,40000}; if(s.n>9){ for(auto& b:s.attrs) b.data.resize((size_t)9*b.count); s.n=9; } a.count=W[c.draw(W.size())]; fillData(c,a,(size_t)s.n*a.count,0); c.label("very wide attribute"); break; } bool any=false; for(auto& a:s.attrs) any|=kept(a); if(!any){ Attr a; a.name="position"; a.type=VECTOR; a.count=3; a.data.assign((size_t)s.n*3,asU(2.5f)); s.attrs.push_back(a);} };
    roundtrip(c,f);
}
PBT_MAIN("a set with at least two particles and two attributes, written, decoded independently (zlib) and read back", prop)
