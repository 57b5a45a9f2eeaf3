// BIN (RealFlow) round trip: the fixed RealFlow schema, defaults for what is missing.
#include "fmt.h"
using namespace pm;
struct F { const char* name; ParticleAttributeType t; int n; float def; };
static const std::vector<F> schemaV={{"position",VECTOR,3,0},{"velocity",VECTOR,3,0},{"force",VECTOR,3,0},{"vorticity",VECTOR,3,0},{"normal",VECTOR,3,0},{"neighbors",INT,1,0},{"uvw",VECTOR,3,0},{"age",FLOAT,1,0},{"isolationTime",FLOAT,1,1},{"viscosity",FLOAT,1,1},{"density",FLOAT,1,1},{"pressure",FLOAT,1,1},{"mass",FLOAT,1,1},{"temperature",FLOAT,1,1},{"id",INT,1,-1}};
static PS expect(const PS& s){ PS e; e.n=s.n; for(auto& f:schemaV){ Attr a; a.name=f.name; a.type=f.t; a.count=f.n; if(const Attr* x=find(s.attrs,f.name)) a.data=x->data; else for(int i=0;i<s.n;i++) for(int k=0;k<f.n;k++) a.data.push_back(f.t==INT? (f.def<0?(uint32_t)i:0u) : asU(f.def)); e.attrs.push_back(a);} return e; }
static void decode(const PS& s,const std::string& b){ PS e=expect(s); Rd r(b); CHECK(r.le32()==0xFABADA,"file: magic"); r.bytes(250); CHECK(r.le16()==11,"file: version"); r.bytes(20); CHECK((int)r.le32()==s.n,"file: particles"); r.bytes(4+36+36); for(int i=0;i<s.n;i++) for(auto& a:e.attrs){ for(int k=0;k<a.count;k++){ uint32_t v=r.le32(); CHECK(v==a.data[(size_t)i*a.count+k],"file: '%s' of particle %d comp %d is %08x, expected %08x",a.name.c_str(),i,k,v,a.data[(size_t)i*a.count+k]); } if(a.name=="uvw") r.le16(); } CHECK(r.le32()==0&&r.u8()==0&&r.u8()==0&&r.ok&&r.end(),"file: trailer"); }
static void prop(Ctx& c){
    Fmt f; f.exts={"bin"}; f.gz=false; f.decode=decode; f.expect=expect; f.opt.requirePosition=false; f.opt.maxAttrs=1; f.opt.manyAttrs=false; for(auto& x:schemaV) f.opt.reserved.push_back(x.name);
    f.tweak=[](Ctx& c,PS& s){ if(c.chance(2,3)) s.attrs.clear(); for(auto& x:schemaV) if(c.chance(1,2)){ Attr a; a.name=x.name; a.type=x.t; a.count=x.n; if(x.t==VECTOR&&c.chance(1,8)){ a.type=FLOAT; c.label("three floats for a vector"); } if(x.t==INT&&c.chance(1,10)){ a.type=INDEXEDSTR; a.strings={"a","b","c"}; c.label("strings for an integer"); } fillData(c,a,(size_t)s.n*a.count,0); s.attrs.insert(s.attrs.begin()+c.draw(s.attrs.size()+1),a); } };
    f.nontrivial=[](const PS& s){ return s.n>=1&&s.attrs.size()>=1; }; f.opt.big=c.chance(1,10);
    roundtrip(c,f);
}
PBT_MAIN("a set with at least one particle and one attribute, written, decoded independently and read back, defaults included", prop)
