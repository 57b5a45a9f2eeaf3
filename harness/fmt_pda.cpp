// PDA (Maya ASCII particles) round trip.
#include "fmt.h"
using namespace pm;
static bool closeEq(const Attr& a,uint32_t w,uint32_t g){ if(!isFloatT(a.type)) return w==g; double x=asF(w),y=asF(g); return x==y || std::fabs(x-y)<=6e-6*std::fabs(x)+3e-45; }
// what the format can hold: one value for a float or an integer, three for a vector
static PS expect(const PS& s){ PS e=s; e.fixed.clear(); for(auto& a:e.attrs){ int w= a.type==VECTOR?3:1; std::vector<uint32_t> d; for(int i=0;i<s.n;i++) for(int k=0;k<w;k++) d.push_back(a.data[(size_t)i*a.count+k]); a.data=d; a.count=w; if(a.type==INDEXEDSTR) a.type=INT; a.strings.clear(); } return e; }
static void decode(const PS& s,const std::string& b){ PS e=expect(s); std::istringstream is(b); is.imbue(std::locale::classic()); std::string w; is>>w; CHECK(w=="ATTRIBUTES","file: header"); for(auto& a:e.attrs){ is>>w; CHECK(w==a.name,"file: attribute '%s', expected '%s'",esc(w).c_str(),esc(a.name).c_str()); } is>>w; CHECK(w=="TYPES","file: TYPES"); for(auto& a:e.attrs){ is>>w; CHECK(w==(a.type==VECTOR?"V":a.type==FLOAT?"R":"I"),"file: type of '%s' is %s",esc(a.name).c_str(),w.c_str()); } is>>w; CHECK(w=="NUMBER_OF_PARTICLES:","file: count"); int n=-1; is>>n; CHECK(n==s.n,"file: %d particles, expected %d",n,s.n); is>>w; CHECK(w=="BEGIN","file"); is>>w; CHECK(w=="DATA","file"); 
    for(int i=0;i<s.n;i++) for(auto& a:e.attrs) for(int k=0;k<a.count;k++){ CHECK(bool(is>>w),"file: ends early"); char* p; uint32_t g; if(isFloatT(a.type)) g=asU(strtof(w.c_str(),&p)); else g=(uint32_t)(int)strtol(w.c_str(),&p,10); CHECK(*p==0&&closeEq(a,a.data[(size_t)i*a.count+k],g),"file: '%s' of particle %d comp %d is '%s', expected %g / %d",esc(a.name).c_str(),i,k,w.c_str(),asF(a.data[(size_t)i*a.count+k]),(int)a.data[(size_t)i*a.count+k]); }
    CHECK(!(is>>w),"file: trailing '%s'",esc(w).c_str()); }
static void prop(Ctx& c){
    Fmt f; f.exts={"pda"}; f.opt.floatCls=1; f.eq=closeEq; f.opt.requirePosition=c.chance(7,8); f.opt.maxCount=8; f.opt.dupStrings=true; if(c.chance(3,4)){ f.opt.floatMax=f.opt.intMax=f.opt.strMax=1; }
    f.opt.big=c.chance(1,20); f.opt.maxN=f.opt.big?20000:1000; f.expect=expect; f.decode=decode; f.nontrivial=[](const PS& s){ return s.n>=1&&s.attrs.size()>=1; };
    roundtrip(c,f);
}
PBT_MAIN("a set with at least one particle and one attribute, written, decoded by an independent parser and read back", prop)
