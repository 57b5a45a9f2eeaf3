// RIB output against an independent tokenizer (C13).
#include "model.h"
using namespace pm;
static bool isP(const std::string& n){ return n=="position"||n=="P"; }
static bool isP2(const std::string& n){ return n=="position2"||n=="P2"; }
struct Tok { const std::string& s; size_t p=0; std::string next(){ while(p<s.size()&&isspace((unsigned char)s[p])) p++; if(p>=s.size()) return ""; char ch=s[p]; if(ch=='['||ch==']'){ p++; return std::string(1,ch);} if(ch=='"'){ size_t b=p++; while(p<s.size()&&s[p]!='"') p++; p++; return s.substr(b,p-b);} size_t b=p; while(p<s.size()&&!isspace((unsigned char)s[p])&&s[p]!='['&&s[p]!=']') p++; return s.substr(b,p-b);} std::string peek(){ size_t q=p; std::string r=next(); p=q; return r; } };
static bool closeF(float w,float g){ double x=w,y=g; return x==y||std::fabs(x-y)<=6e-6*std::fabs(x)+3e-45; }
static void prop(Ctx& c){
    GenOpt o; o.requirePosition=false; o.floatCls=1; o.maxAttrs=5; o.big=c.chance(1,20); o.maxN=5000; o.reserved={"position","P","position2","P2","width","radius","radiusPP"};
    PS s=genPS(c,o); auto put=[&](const char* n,ParticleAttributeType t,int k){ Attr a; a.name=n; a.type=t; a.count=k; fillData(c,a,(size_t)s.n*k,1); s.attrs.insert(s.attrs.begin()+c.draw(s.attrs.size()+1),a); };
    size_t pk=c.weighted({6,3,1}); if(pk==0) put("position",VECTOR,3); else if(pk==1) put("P",VECTOR,3); if(c.chance(1,3)) put(c.chance(1,2)?"position2":"P2",VECTOR,3); size_t wk=c.draw(4); if(wk==1) put("width",FLOAT,1); else if(wk==2) put("radius",FLOAT,1); else if(wk==3) put("radiusPP",FLOAT,1);
    bool gz=c.chance(1,4); std::string f=c.path(gz?"x.rib.gz":"x.rib"); unlink(f.c_str()); bool inter=c.chance(1,6); Holder h(build(s,inter)); std::string err; c.note("%s%s",gz?"gz ":"",describe(s).c_str());
    writeQ(f,*static_cast<ParticlesData*>(h.p),false,&err); bool P2=false; for(auto& a:s.attrs) P2|=isP2(a.name);
    if(pk==2){ CHECK(!err.empty(),"no position, and no message"); c.label("no position"); unlink(f.c_str()); return; }
    std::string raw=readFile(f), b=raw; if(gz){ CHECK(isGz(raw)&&gzDecode(raw,b),"not a gzip file"); }
    Tok t{b}; auto kw=[&](const char* w){ std::string g=t.next(); CHECK(g==w,"file: '%s' where '%s' is expected",esc(g).c_str(),w); };
    kw("version"); kw("3.04"); if(P2){ kw("GeometricApproximation"); kw("\"motionfactor\""); kw("1.0"); } kw("AttributeBegin"); kw("ResourceBegin"); kw("Attribute"); kw("\"identifier\""); kw("\"name\""); kw("["); t.next(); kw("]"); if(P2){ kw("MotionBegin"); kw("["); kw("0.0"); kw("1.0"); kw("]"); }
    for(int pass=0;pass<(P2?2:1);pass++){ kw("Points"); for(auto& a:s.attrs){ if(pass==0&&isP2(a.name)) continue; if(pass==1&&isP(a.name)) continue; std::string nm= isP(a.name)||isP2(a.name)?"P":a.name=="radius"?"width":a.name; std::string g=t.next(); CHECK(g=="\""+nm+"\"","file: parameter %s, expected \"%s\"",esc(g).c_str(),esc(nm).c_str()); kw("["); 
            if(a.type!=INDEXEDSTR) for(size_t i=0;i<a.data.size();i++){ std::string v=t.next(); char* e; if(isFloatT(a.type)){ float x=strtof(v.c_str(),&e); CHECK(!v.empty()&&*e==0&&closeF(asF(a.data[i]),x),"file: \"%s\" value %zu is '%s', expected %g",esc(nm).c_str(),i,esc(v).c_str(),asF(a.data[i])); } else { long x=strtol(v.c_str(),&e,10); CHECK(!v.empty()&&*e==0&&x==(int)a.data[i],"file: \"%s\" value %zu is '%s', expected %d",esc(nm).c_str(),i,esc(v).c_str(),(int)a.data[i]); } }
            kw("]"); }
        if(wk==0){ kw("\"constantwidth\""); kw("["); kw("1.0"); kw("]"); } }
    if(P2) kw("MotionEnd"); kw("ResourceEnd"); kw("AttributeEnd"); CHECK(t.next().empty(),"file: trailing text"); unlink(f.c_str());
    c.label(P2?"motion":"static"); c.label(wk==0?"constant width":"width attribute"); if(s.n>=1&&s.attrs.size()>=2) c.nontrivial(hashPS(s)+(char)gz);
}
PBT_MAIN("a set with at least one particle and two attributes, every value of the RIB text compared", prop)
