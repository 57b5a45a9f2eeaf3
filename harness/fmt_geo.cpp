// GEO (classic text) round trip against an independent tokenizer.
#include "fmt.h"
using namespace pm;
static bool closeEq(const Attr& a,uint32_t w,uint32_t g){ if(!isFloatT(a.type)) return w==g; double x=asF(w),y=asF(g); return x==y || std::fabs(x-y)<=6e-6*std::fabs(x)+3e-45; }
struct Tok { const std::string& s; size_t p=0; void ws(){ while(p<s.size()&&isspace((unsigned char)s[p])) p++; } std::string word(){ ws(); size_t b=p; while(p<s.size()&&!isspace((unsigned char)s[p])&&s[p]!='('&&s[p]!=')') p++; if(p==b&&p<s.size()) p++; return s.substr(b,p-b);} std::string nameTok(){ ws(); size_t b=p; while(p<s.size()&&!isspace((unsigned char)s[p])) p++; return s.substr(b,p-b);} 
  std::string quoted(){ ws(); CHECK(p<s.size()&&s[p]=='"',"file: string not quoted"); p++; std::string r; while(p<s.size()&&s[p]!='"'){ if(s[p]=='\\') p++; r+=s[p++]; } p++; return r; } };
static uint32_t val(const std::string& w,const Attr& a){ char* e; if(isFloatT(a.type)){ float f=strtof(w.c_str(),&e); CHECK(*e==0&&!w.empty(),"file: '%s' is not a number",esc(w).c_str()); return asU(f);} long v=strtol(w.c_str(),&e,10); CHECK(*e==0&&!w.empty(),"file: '%s' is not an integer",esc(w).c_str()); return (uint32_t)(int)v; }
static void decode(const PS& s,const std::string& b){ Tok t{b}; std::vector<const Attr*> o; const Attr* pos=nullptr; for(auto& a:s.attrs) if(a.name=="position") pos=&a; else o.push_back(&a);
    auto kw=[&](const char* k){ std::string w=t.word(); CHECK(w==k,"file: '%s' where '%s' is expected",esc(w).c_str(),k); }; auto num=[&](){ return atol(t.word().c_str()); };
    kw("PGEOMETRY"); kw("V5"); kw("NPoints"); CHECK(num()==s.n,"file: NPoints"); kw("NPrims"); CHECK(num()==1,"file: NPrims"); kw("NPointGroups"); CHECK(num()==0,"file: NPointGroups"); kw("NPrimGroups"); CHECK(num()==0,"file: NPrimGroups"); kw("NPointAttrib"); CHECK(num()==(long)o.size(),"file: NPointAttrib"); kw("NVertexAttrib"); CHECK(num()==0,"file: NVertexAttrib"); kw("NPrimAttrib"); CHECK(num()==1,"file: NPrimAttrib"); kw("NAttrib"); CHECK(num()==0,"file: NAttrib");
    if(o.size()){ kw("PointAttrib"); for(auto* a:o){ std::string nm=t.nameTok(); CHECK(nm==a->name,"file: attribute '%s', expected '%s'",esc(nm).c_str(),esc(a->name).c_str()); CHECK(num()==a->count,"file: count of '%s'",esc(a->name).c_str()); kw(a->type==FLOAT?"float":a->type==INT?"int":a->type==VECTOR?"vector":"index"); if(a->type==INDEXEDSTR){ CHECK(num()==(long)a->strings.size(),"file: number of strings"); for(auto& x:a->strings) CHECK(t.quoted()==x,"file: string table"); } else for(int k=0;k<a->count;k++) num(); } }
    auto chk=[&](const Attr& a,int i,int k){ uint32_t g=val(t.word(),a), w=a.data[(size_t)i*a.count+k]; CHECK(closeEq(a,w,g),"file: '%s' of point %d comp %d: %08x, expected %08x",esc(a.name).c_str(),i,k,g,w); };
    for(int i=0;i<s.n;i++){ for(int k=0;k<3;k++) chk(*pos,i,k); CHECK(t.word()=="1","file: homogeneous coordinate"); if(o.size()){ kw("("); for(auto* a:o) for(int k=0;k<a->count;k++) chk(*a,i,k); kw(")"); } }
    kw("PrimitiveAttrib"); kw("generator"); kw("1"); kw("index"); kw("1"); kw("papi"); kw("Part"); CHECK(num()==s.n,"file: points of the primitive"); for(int i=0;i<s.n;i++) CHECK(num()==i,"file: point %d of the primitive",i); kw("[0]"); kw("beginExtra"); kw("endExtra"); t.ws(); CHECK(t.p==b.size(),"file: something after the end"); }
static void prop(Ctx& c){
    static Fmt f; static bool init=false; if(!init){ init=true; f.exts={"geo","hclassic"}; f.opt.floatCls=1; f.opt.maxCount=20; f.opt.dupStrings=true; f.opt.wide=true; f.eq=closeEq; f.decode=decode; f.opt.big=false;
        f.expect=[](const PS& s){ PS e; e.n=s.n; for(auto& a:s.attrs) if(a.name=="position") e.attrs.push_back(a); for(auto& a:s.attrs) if(a.name!="position") e.attrs.push_back(a); return e; }; f.nontrivial=[](const PS& s){ return s.n>=1; }; }
    f.opt.big=c.chance(1,20); f.opt.maxN=f.opt.big? 20000:1000; roundtrip(c,f);
}
PBT_MAIN("a set with at least one particle, written, decoded by an independent tokenizer and read back", prop)
