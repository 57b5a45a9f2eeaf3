// Plain reference representation of a particle set, generators for it, and the bridges
// to and from the public Partio API.
#pragma once
#include "pbt.h"
#include <Partio.h>
#include <zlib.h>

namespace pm {
using namespace pbt;
using Partio::ParticleAttributeType; using Partio::ParticleAttribute; using Partio::FixedAttribute;
using Partio::ParticlesDataMutable; using Partio::ParticlesData; using Partio::ParticlesInfo; using Partio::ParticleIndex;
using Partio::NONE; using Partio::VECTOR; using Partio::FLOAT; using Partio::INT; using Partio::INDEXEDSTR;

struct Attr { std::string name; ParticleAttributeType type=FLOAT; int count=1; std::vector<std::string> strings; std::vector<uint32_t> data; };
struct PS { int n=0; std::vector<Attr> attrs, fixed; };

inline const char* tname(int t){ static const char* n[]={"NONE","VECTOR","FLOAT","INT","INDEXEDSTR"}; return t>=0&&t<5?n[t]:"?"; }
inline float asF(uint32_t b){ float f; memcpy(&f,&b,4); return f; }
inline uint32_t asU(float f){ uint32_t b; memcpy(&b,&f,4); return b; }
inline bool isFloatT(int t){ return t==VECTOR||t==FLOAT; }

inline std::string esc(const std::string& s, size_t max=40){ std::string r; for(unsigned char c:s){ if(r.size()>max){ r+="..("+std::to_string(s.size())+")"; break;} if(c<33||c>126) r+=fmt("\\x%02x",c); else r+=c;} return r; }

// ---- generators ------------------------------------------------------------------------
enum NameStyle { NAME_PLAIN=0, NAME_ANY=1 };
inline std::string genName(Ctx& c, int style, size_t maxLen, bool allowLong=true) {
    static const std::vector<std::string> common={"v","id","density","Cd","velocity","radius","mass","normal","color","a","P","width","life","N","pscale","test_1","Position","posit","position2","type","uvw","x0"};
    size_t w=c.weighted({6,6,style==NAME_ANY?3:0,allowLong?1:0});
    std::string s;
    if(w==0) s=common[c.draw(common.size())];
    else if(w==1){ int n=(int)c.range(1,(int)std::min<size_t>(12,maxLen)); static const char al[]="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"; for(int i=0;i<n;i++) s+= i==0? al[c.draw(52)] : al[c.draw(sizeof(al)-1)]; }
    else if(w==2){ int n=(int)c.range(1,(int)std::min<size_t>(10,maxLen)); for(int i=0;i<n;i++) s+=(char)c.range(1,255); }
    else { static const std::vector<int> ls={13,15,16,17,30,31,32,33,63,64,65,127,128,129,255,256,257,300,1000}; int n=(int)ls[c.draw(ls.size())]; n=std::min<int>(n,(int)maxLen); uint64_t k=c.draw(26); for(int i=0;i<n;i++) s+=(char)('a'+(k+i*7)%26); }
    if(s.size()>maxLen) s.resize(maxLen);
    return s;
}
inline std::string genStr(Ctx& c, int style, size_t maxLen) {
    size_t w=c.weighted({5,2,style==NAME_ANY?3:0,1});
    std::string s;
    if(w==0){ static const std::vector<std::string> k={"a","","foo","bar","test string","x","/path/to/obj_01","With Spaces","0","-1"}; s=k[c.draw(k.size())]; }
    else if(w==1){ int n=(int)c.range(0,20); for(int i=0;i<n;i++) s+=(char)c.range(32,126); }
    else if(w==2){ int n=(int)c.range(0,20); for(int i=0;i<n;i++) s+=(char)c.range(1,255); }
    else { static const std::vector<int> ls={63,64,127,128,255,256,257,1023,1024,4095,4096,5000}; int n=ls[c.draw(ls.size())]; for(int i=0;i<n;i++) s+=(char)('a'+i%26); }
    if(s.size()>maxLen) s.resize(maxLen);
    return s;
}
// a float bit pattern; cls: 0 = any bits, 1 = finite only, 2 = moderate
inline uint32_t floatFrom(uint64_t sel, uint64_t r, int cls) {
    static const uint32_t sp[]={0x00000000u,0x80000000u,0x3f800000u,0xbf800000u,0x7f800000u,0xff800000u,0x7fc00000u,0x7fc00001u,0xffc12345u,0x7f800001u,0x00000001u,0x80000001u,0x007fffffu,0x00800000u,0x7f7fffffu,0xff7fffffu,0x3f800001u,0x4b800000u,0x4b7fffffu,0x33800000u,0x3dcccccdu,0x40490fdbu,0x4f000000u,0xcf000000u,0x47c35000u};
    uint32_t b;
    switch(sel){ case 0: b=asU((float)(int64_t)(r%201) - 100.f); break; case 1: b=sp[r%(sizeof sp/4)]; break; case 2: b=(uint32_t)r; break; default: b=asU((float)((int64_t)(r%2000001)-1000000)/1000.f*1.0009f); }
    if(cls>=1){ float f=asF(b); if(!std::isfinite(f)) b=asU((float)(int)(b&0xffff)-0x8000); }
    if(cls>=2){ float f=asF(b); if(std::fabs(f)>1e6f || (f!=0&&std::fabs(f)<1e-6f)) b=asU((float)(int)(b&0xffff)/16.f-2000.f); }
    return b;
}
inline uint32_t intFrom(uint64_t sel, uint64_t r){ static const uint32_t sp[]={0,1,0xffffffffu,0x7fffffffu,0x80000000u,255,256,65535,65536,16777216,16777217,0x01020304u,0xff00ff00u,0x7f800000u,0x7fc00000u,0x80000001u}; switch(sel){ case 0: return (uint32_t)(int)((int64_t)(r%201)-100); case 1: return sp[r%16]; default: return (uint32_t)r; } }
inline uint32_t genFloat(Ctx& c,int cls){ size_t s=c.weighted({4,3,3,3}); return floatFrom(s,c.draw(s==0?201:s==1?25:s==2?(1ull<<32):2000001),cls); }
inline uint32_t genInt(Ctx& c){ size_t s=c.weighted({4,3,3}); return intFrom(s,c.draw(s==0?201:s==1?16:(1ull<<32))); }

inline int genCount(Ctx& c,bool big){ // number of particles
    static const std::vector<int> med={9,10,11,14,15,16,17,31,32,33,63,64,65,99,100,127,128,129,200,255,256,257,300,511,512,513,1000,1023,1024,1025};
    static const std::vector<int> large={2000,4095,4096,4097,5000,8191,8192,8193,10000,20000};
    static const std::vector<int> huge={32767,32768,65534,65535,65536,65537,70000};
    size_t w=c.weighted({8,6,4,big?1:0,0});
    if(big && c.chance(1,150)) return huge[c.draw(huge.size())];
    if(w==0) return (int)c.range(0,4); if(w==1) return (int)c.range(0,20); if(w==2) return med[c.draw(med.size())]; return large[c.draw(large.size())];
}

struct GenOpt {
    bool requirePosition=true, positionFirst=false;
    bool posVec=true;
    int maxAttrs=7; bool manyAttrs=true;     // occasionally dozens
    std::vector<ParticleAttributeType> types={FLOAT,INT,VECTOR,INDEXEDSTR};
    bool wide=false; // now and then an attribute with thousands of components
    bool zero=false; // now and then an attribute of no values
    int maxCount=20; int floatMax=0,intMax=0,strMax=0; // 0 = maxCount
    bool fixed=false; int nameStyle=NAME_PLAIN; size_t nameMax=300; size_t strLen=5000; int strStyle=NAME_ANY;
    int floatCls=0; bool big=true; int minN=0; int maxN=1<<30; bool strTable=true; bool dupStrings=false; /* strings that several tokens have */ int maxStrings=40; bool manyStrings=true; int mostStrings=66000, mostIn=15;
    std::vector<std::string> reserved; // names never generated
    std::function<std::string(const std::string&)> fold; // names equal under fold are duplicates
};
inline void fillData(Ctx& c, Attr& a, size_t total, int cls, bool validIdx=true) {
    a.data.assign(total,0);
    bool small = total<=48;
    uint64_t seed = 0; uint64_t mode=0;
    if(!small){ seed=c.draw(1ull<<32); mode=c.draw(4); }
    Rng r(seed);
    for(size_t i=0;i<total;i++){
        if(a.type==INDEXEDSTR){ size_t k=a.strings.size(); if(small) a.data[i]=k?(uint32_t)c.draw(k):0; else a.data[i]= k? (uint32_t)(r.next()%k):0; (void)validIdx; }
        else if(a.type==INT){ if(small) a.data[i]=genInt(c); else { uint64_t x=r.next(); a.data[i]= mode==0? (uint32_t)i : intFrom(x%3,x>>8); } }
        else { if(small) a.data[i]=genFloat(c,cls); else { uint64_t x=r.next(); a.data[i]= mode==0? asU((float)i*0.5f) : floatFrom(x%4,x>>8,cls); } }
    }
}
inline Attr genAttr(Ctx& c,const GenOpt& o,std::set<std::string>& used,bool fixed){
    Attr a; auto fold=[&](const std::string& s){ return o.fold? o.fold(s):s; };
    a.name=genName(c,o.nameStyle,o.nameMax); int tries=0;
    while(used.count(fold(a.name)) || a.name.empty()){ std::string suf="_"+std::to_string(used.size()+tries++); std::string b=a.name; if(b.size()+suf.size()>o.nameMax) b.resize(o.nameMax-suf.size()); a.name=b+suf; }
    used.insert(fold(a.name));
    a.type=o.types[c.draw(o.types.size())];
    if(a.type==VECTOR) a.count=3;
    else { int mx= a.type==FLOAT&&o.floatMax? o.floatMax : a.type==INT&&o.intMax? o.intMax : a.type==INDEXEDSTR&&o.strMax? o.strMax : o.maxCount;
        size_t w=c.weighted({5,3,1}); a.count = w==0||mx==1? 1 : w==1? (int)c.range(1,std::min(mx,4)) : (int)c.range(1,mx); if(o.zero && c.chance(1,40)){ a.count=0; c.label("attribute of no values"); } }
    if(a.type==INDEXEDSTR && o.strTable){ int k; if(o.manyStrings && c.chance(1,25)) { k=(int)c.range(41,400); if(o.mostStrings>400&&c.chance(1,o.mostIn)){ k=c.chance(1,3)?o.mostStrings:std::min(o.mostStrings,(int)c.range(401,4000)); c.label("more than 400 strings"); } uint64_t b=c.draw(1000); for(int i=0;i<k;i++) a.strings.push_back(fmt("s%llu_%d",(unsigned long long)b,i)); }
        else { k=(int)c.range(1,std::min(o.maxStrings,6)); std::set<std::string> u; for(int i=0;i<k;i++){ std::string s=genStr(c,o.strStyle,o.strLen); if(u.count(s)) continue; u.insert(s); a.strings.push_back(s);} } }
    if(o.dupStrings && a.type==INDEXEDSTR && a.strings.size()>1 && c.chance(1,8)){ for(int k=(int)c.range(1,4);k>0;k--){ size_t i=c.draw(a.strings.size()), j=c.draw(a.strings.size()); a.strings[i]=a.strings[j]; } c.label("strings with several tokens"); }
    (void)fixed; return a;
}
inline PS genPS(Ctx& c,const GenOpt& o){
    PS p; p.n=genCount(c,o.big); if(p.n<o.minN) p.n=o.minN; if(p.n>o.maxN) p.n=o.maxN;
    std::set<std::string> used(o.reserved.begin(),o.reserved.end()); 
    if(o.requirePosition) used.insert(o.fold?o.fold("position"):"position");
    int na = o.manyAttrs && p.n<300 && c.chance(1,20) ? p.n<=20&&c.chance(1,12)? (int)c.range(256,400) : (int)c.range(8,70) : (int)c.range(0,o.maxAttrs); if(na>255) c.label("hundreds of attributes");
    if(p.n>5000) na=std::min(na,3);
    for(int i=0;i<na;i++) p.attrs.push_back(genAttr(c,o,used,false));
    if(o.requirePosition){ Attr a; a.name="position"; a.type=VECTOR; a.count=3; size_t at= o.positionFirst?0:c.draw(p.attrs.size()+1); p.attrs.insert(p.attrs.begin()+at,a); }
    if(o.wide && p.n>0 && p.n<=129 && c.chance(1,60)) for(auto& a:p.attrs) if((a.type==FLOAT&&!o.floatMax)||(a.type==INT&&!o.intMax)){ a.count=(int)c.range(257,std::min(30000,std::max(300,400000/p.n))); c.label("very wide attribute"); break; }
    for(auto& a:p.attrs){ if(p.n>5000) a.count=std::min(a.count,a.type==VECTOR?3:2); fillData(c,a,(size_t)p.n*a.count,o.floatCls); }
    if(o.fixed){ std::set<std::string> uf; int nf=c.chance(1,2)? (int)c.range(0,4):0; bool wf=nf&&o.wide&&c.chance(1,60); if(nf&&o.manyAttrs&&p.n<=20&&c.chance(1,150)){ nf=(int)c.range(256,400); c.label("hundreds of fixed attributes"); } for(int i=0;i<nf;i++){ Attr a=genAttr(c,o,uf,true); if(wf&&a.type!=VECTOR&&a.type!=INDEXEDSTR){ a.count=(int)c.range(257,3000); wf=false; c.label("very wide fixed attribute"); } fillData(c,a,a.count,o.floatCls); p.fixed.push_back(a);} }
    return p;
}

// ---- bridges ----------------------------------------------------------------------------
inline void release(ParticlesInfo* p){ if(p) p->release(); }
struct Holder { ParticlesInfo* p; explicit Holder(ParticlesInfo* x=nullptr):p(x){} ~Holder(){ if(p) p->release(); } Holder(const Holder&)=delete; Holder& operator=(const Holder&)=delete; };

// fills a table, in which renaming gives several tokens the same string
template<class R,class L,class N> inline void fillTable(const std::vector<std::string>& v,R reg,L look,N rename){ for(size_t i=0;i<v.size();i++){ if(reg(v[i].c_str())==(int)i) continue; std::string u=v[i]+"'"; while(look(u.c_str())>=0) u+="'"; rename(reg(u.c_str()),v[i].c_str()); } }
inline std::vector<std::string> distinct(const std::vector<std::string>& v){ std::vector<std::string> r; std::set<std::string> u; for(auto& s:v) if(u.insert(s).second) r.push_back(s); return r; }
inline ParticlesDataMutable* build(const PS& s,bool interleave=false){
    ParticlesDataMutable* p = interleave? Partio::createInterleave() : Partio::create();
    std::vector<ParticleAttribute> h; for(auto& a:s.attrs) h.push_back(p->addAttribute(a.name.c_str(),a.type,a.count));
    for(size_t i=0;i<s.attrs.size();i++) fillTable(s.attrs[i].strings,[&](const char* x){ return p->registerIndexedStr(h[i],x); },[&](const char* x){ return p->lookupIndexedStr(h[i],x); },[&](int t,const char* x){ p->setIndexedStr(h[i],t,x); });
    if(s.n) p->addParticles(s.n);
    for(size_t i=0;i<s.attrs.size();i++){ auto& a=s.attrs[i]; if(a.count==0) continue; for(int k=0;k<s.n;k++) memcpy(p->dataWrite<void>(h[i],k),&a.data[(size_t)k*a.count],4*a.count); }
    for(auto& a:s.fixed){ FixedAttribute f=p->addFixedAttribute(a.name.c_str(),a.type,a.count); fillTable(a.strings,[&](const char* x){ return p->registerFixedIndexedStr(f,x); },[&](const char* x){ return p->lookupFixedIndexedStr(f,x); },[&](int t,const char* x){ p->setFixedIndexedStr(f,t,x); }); if(a.count) memcpy(p->fixedDataWrite<void>(f),a.data.data(),4*a.count); }
    return p;
}
inline PS extractInfo(const ParticlesInfo* p){ PS s; s.n=p->numParticles();
    for(int i=0;i<p->numAttributes();i++){ ParticleAttribute h; CHECK(p->attributeInfo(i,h),"attributeInfo(%d) failed",i); Attr a; a.name=h.name; a.type=h.type; a.count=h.count; s.attrs.push_back(a); 
        ParticleAttribute h2; CHECK(p->attributeInfo(h.name.c_str(),h2),"attribute '%s' listed at %d but not found by name",esc(h.name).c_str(),i); CHECK(h2.name==h.name,"lookup by name returned another attribute"); }
    for(int i=0;i<p->numFixedAttributes();i++){ FixedAttribute h; CHECK(p->fixedAttributeInfo(i,h),"fixedAttributeInfo(%d) failed",i); Attr a; a.name=h.name; a.type=h.type; a.count=h.count; s.fixed.push_back(a); 
        FixedAttribute h2; CHECK(p->fixedAttributeInfo(h.name.c_str(),h2),"fixed attribute '%s' not found by name",esc(h.name).c_str()); }
    return s; }
inline PS extract(const ParticlesData* p){
    PS s=extractInfo(p);
    for(size_t i=0;i<s.attrs.size();i++){ ParticleAttribute h; p->attributeInfo((int)i,h); Attr& a=s.attrs[i]; CHECK(a.count>=0 && a.count<(1<<24),"attribute '%s' has count %d",esc(a.name).c_str(),a.count); a.data.resize((size_t)s.n*a.count);
        if(a.count) for(int k=0;k<s.n;k++){ const void* d=p->data<void>(h,k); CHECK(d!=nullptr,"data() of attribute %zu particle %d is null",i,k); memcpy(&a.data[(size_t)k*a.count],d,4*a.count);} if(a.type==INDEXEDSTR) a.strings=p->indexedStrs(h); }
    for(size_t i=0;i<s.fixed.size();i++){ FixedAttribute h; p->fixedAttributeInfo((int)i,h); Attr& a=s.fixed[i]; a.data.resize(a.count); if(a.count) memcpy(a.data.data(),p->fixedData<void>(h),4*a.count); if(a.type==INDEXEDSTR) a.strings=p->fixedIndexedStrs(h); }
    return s;
}
inline std::string schema(const std::vector<Attr>& v){ std::string r; for(auto& a:v) r+=fmt("%s:%s[%d]%s ",esc(a.name,20).c_str(),tname(a.type),a.count,a.type==INDEXEDSTR?fmt("{%zu}",a.strings.size()).c_str():""); return r; }
inline std::string describe(const PS& p){ std::string r=fmt("n=%d attrs=[%s] fixed=[%s]",p.n,schema(p.attrs).c_str(),schema(p.fixed).c_str()); if(r.size()>500) r.resize(500); return r; }
inline const Attr* find(const std::vector<Attr>& v,const std::string& n){ for(auto& a:v) if(a.name==n) return &a; return nullptr; }

typedef std::function<bool(const Attr&,uint32_t want,uint32_t got)> Eq;
inline bool bitEq(const Attr&,uint32_t a,uint32_t b){ return a==b; }
// compare one attribute's values; indexed strings are compared by the string they denote
inline void cmpAttr(const Attr& w,const Attr& g,int n,const char* what,bool table=true,Eq eq=bitEq){
    CHECK(w.type==g.type,"%s '%s': type %s expected, got %s",what,esc(w.name).c_str(),tname(w.type),tname(g.type));
    CHECK(w.count==g.count,"%s '%s': count %d expected, got %d",what,esc(w.name).c_str(),w.count,g.count);
    if(w.type==INDEXEDSTR && table && distinct(w.strings).size()<w.strings.size()) CHECK(distinct(w.strings)==distinct(g.strings),"%s '%s': the strings differ",what,esc(w.name).c_str());
    else if(w.type==INDEXEDSTR && table){ CHECK(w.strings.size()==g.strings.size(),"%s '%s': %zu strings expected, got %zu",what,esc(w.name).c_str(),w.strings.size(),g.strings.size());
        for(size_t i=0;i<w.strings.size();i++) CHECK(w.strings[i]==g.strings[i],"%s '%s': string %zu is '%s', expected '%s'",what,esc(w.name).c_str(),i,esc(g.strings[i]).c_str(),esc(w.strings[i]).c_str()); }
    size_t tot=(size_t)n*w.count; CHECK(w.data.size()==tot&&g.data.size()==tot,"%s '%s': size",what,esc(w.name).c_str());
    for(size_t i=0;i<tot;i++){
        if(w.type==INDEXEDSTR && w.strings.size()){ 
            if(w.data[i]>=w.strings.size()) continue;
            CHECK(g.data[i]<g.strings.size(),"%s '%s'[%zu]: string index %u out of table of %zu",what,esc(w.name).c_str(),i,g.data[i],g.strings.size());
            CHECK(w.strings[w.data[i]]==g.strings[g.data[i]],"%s '%s' particle %zu comp %zu: string '%s' expected, got '%s'",what,esc(w.name).c_str(),i/w.count,i%w.count,esc(w.strings[w.data[i]]).c_str(),esc(g.strings[g.data[i]]).c_str());
        } else CHECK(eq(w,w.data[i],g.data[i]),"%s '%s' particle %zu comp %zu: expected 0x%08x (%g / %d), got 0x%08x (%g / %d)",what,esc(w.name).c_str(),i/w.count,i%w.count,w.data[i],asF(w.data[i]),(int)w.data[i],g.data[i],asF(g.data[i]),(int)g.data[i]);
    }
}
// every attribute of want, in order, and nothing else
inline void cmpExact(const PS& w,const PS& g,bool table=true,Eq eq=bitEq){
    CHECK(w.n==g.n,"particle count %d expected, got %d",w.n,g.n);
    CHECK(w.attrs.size()==g.attrs.size(),"%zu attributes expected, got %zu: [%s] vs [%s]",w.attrs.size(),g.attrs.size(),schema(w.attrs).c_str(),schema(g.attrs).c_str());
    for(size_t i=0;i<w.attrs.size();i++){ CHECK(w.attrs[i].name==g.attrs[i].name,"attribute %zu is '%s', expected '%s'",i,esc(g.attrs[i].name).c_str(),esc(w.attrs[i].name).c_str()); cmpAttr(w.attrs[i],g.attrs[i],w.n,"attribute",table,eq);} 
    CHECK(w.fixed.size()==g.fixed.size(),"%zu fixed attributes expected, got %zu",w.fixed.size(),g.fixed.size());
    for(size_t i=0;i<w.fixed.size();i++){ CHECK(w.fixed[i].name==g.fixed[i].name,"fixed attribute %zu is '%s', expected '%s'",i,esc(g.fixed[i].name).c_str(),esc(w.fixed[i].name).c_str()); cmpAttr(w.fixed[i],g.fixed[i],1,"fixed attribute",table,eq);} 
}
// same set of attributes irrespective of order
inline void cmpUnordered(const PS& w,const PS& g,bool table=true,Eq eq=bitEq){
    CHECK(w.n==g.n,"particle count %d expected, got %d",w.n,g.n);
    CHECK(w.attrs.size()==g.attrs.size(),"%zu attributes expected, got %zu: [%s] vs [%s]",w.attrs.size(),g.attrs.size(),schema(w.attrs).c_str(),schema(g.attrs).c_str());
    for(auto& a:w.attrs){ const Attr* b=find(g.attrs,a.name); CHECK(b,"attribute '%s' is missing; have [%s]",esc(a.name).c_str(),schema(g.attrs).c_str()); cmpAttr(a,*b,w.n,"attribute",table,eq);} 
    CHECK(w.fixed.size()==g.fixed.size(),"%zu fixed attributes expected, got %zu",w.fixed.size(),g.fixed.size());
    for(auto& a:w.fixed){ const Attr* b=find(g.fixed,a.name); CHECK(b,"fixed attribute '%s' is missing",esc(a.name).c_str()); cmpAttr(a,*b,1,"fixed attribute",table,eq);} 
}
inline std::string hashPS(const PS& p){ std::string r=fmt("%d",p.n); for(auto* v:{&p.attrs,&p.fixed}) for(auto& a:*v){ r+=a.name; r+=(char)a.type; r+=(char)a.count; for(auto& s:a.strings) r+=s; uint64_t h=0; for(auto d:a.data) h=mix(h^d); r+=std::to_string(h);} return r; }

// ---- files --------------------------------------------------------------------------------
inline std::string readFile(const std::string& p){ std::string r; FILE* f=fopen(p.c_str(),"rb"); if(!f) return r; char b[65536]; size_t k; while((k=fread(b,1,sizeof b,f))>0) r.append(b,k); fclose(f); return r; }
inline void writeFile(const std::string& p,const std::string& d){ FILE* f=fopen(p.c_str(),"wb"); if(!f){ fprintf(stderr,"harness: cannot write %s\n",p.c_str()); throw Discard{"harness-io"}; } fwrite(d.data(),1,d.size(),f); fclose(f); }
inline bool exists(const std::string& p){ struct stat st; return stat(p.c_str(),&st)==0; }
// independent gzip encoder/decoder (zlib), used as the other side of differentials
struct GzOpt { int level=6; bool name=false, comment=false, extra=false, hcrc=false; int strategy=Z_DEFAULT_STRATEGY; size_t flushEvery=0; int members=1; int extraLen=4; int nameLen=12; };
inline std::string gzEncode(const std::string& d,const GzOpt& o=GzOpt()){
    std::string out; size_t per = o.members>1? d.size()/o.members : d.size(); size_t at=0;
    for(int m=0;m<o.members;m++){ size_t len = m==o.members-1? d.size()-at : per;
        z_stream z; memset(&z,0,sizeof z); deflateInit2(&z,o.level,Z_DEFLATED,15+16,8,o.strategy); gz_header h; memset(&h,0,sizeof h); std::vector<Bytef> ex((size_t)o.extraLen+4); ex[0]='A'; ex[1]='B'; ex[2]=(Bytef)o.extraLen; ex[3]=(Bytef)(o.extraLen>>8); for(int i=0;i<o.extraLen;i++) ex[4+i]=(Bytef)(i*37); std::string nm(o.nameLen,'n'), cm(o.nameLen,'c'); memset(&nm[0],'\x1f',std::min(nm.size(),(size_t)2));
        if(o.name) h.name=(Bytef*)&nm[0]; if(o.comment) h.comment=(Bytef*)&cm[0]; if(o.extra){ h.extra=ex.data(); h.extra_len=(uInt)ex.size(); } h.hcrc=o.hcrc; h.os=3; if(o.name||o.comment||o.extra||o.hcrc) deflateSetHeader(&z,&h);
        std::vector<char> buf(65536); size_t pos=0; int r;
        do { size_t chunk = o.flushEvery? std::min(o.flushEvery,len-pos) : len-pos; z.next_in=(Bytef*)d.data()+at+pos; z.avail_in=(uInt)chunk; pos+=chunk; int fl= pos>=len? Z_FINISH : Z_FULL_FLUSH;
            do { z.next_out=(Bytef*)buf.data(); z.avail_out=buf.size(); r=deflate(&z,fl); out.append(buf.data(),buf.size()-z.avail_out); } while(z.avail_out==0 || (fl==Z_FINISH&&r!=Z_STREAM_END)); } while(pos<len);
        deflateEnd(&z); at+=len; }
    return out; }
inline bool gzDecode(const std::string& d,std::string& out){ z_stream z; memset(&z,0,sizeof z); inflateInit2(&z,15+16); z.next_in=(Bytef*)d.data(); z.avail_in=d.size(); std::vector<char> buf(65536); int r; out.clear(); do { z.next_out=(Bytef*)buf.data(); z.avail_out=buf.size(); r=inflate(&z,Z_NO_FLUSH); if(r!=Z_OK&&r!=Z_STREAM_END){ inflateEnd(&z); return false;} out.append(buf.data(),buf.size()-z.avail_out); } while(r!=Z_STREAM_END); bool all = z.avail_in==0; inflateEnd(&z); return all; }
inline bool isGz(const std::string& d){ return d.size()>2 && (unsigned char)d[0]==0x1f && (unsigned char)d[1]==0x8b; }
inline ParticlesDataMutable* readQ(const std::string& f,std::string* err=nullptr){ std::ostringstream es; ParticlesDataMutable* p=Partio::read(f.c_str(),true,es); if(err) *err=es.str(); return p; }
inline void writeQ(const std::string& f,const ParticlesData& p,bool gz=false,std::string* err=nullptr){ std::ostringstream es; Partio::write(f.c_str(),p,gz,true,es); if(err) *err=es.str(); }

struct BE { std::string s; void u8(uint8_t v){ s+=(char)v; } void u16(uint16_t v){ u8(v>>8); u8(v); } void u32(uint32_t v){ u16(v>>16); u16(v); } void u64(uint64_t v){ u32(v>>32); u32((uint32_t)v);} void f32(float f){ u32(asU(f)); } void f64(double d){ uint64_t b; memcpy(&b,&d,8); u64(b);} void raw(const std::string& x){ s+=x; } };
struct LE { std::string s; void u8(uint8_t v){ s+=(char)v; } void u16(uint16_t v){ u8(v); u8(v>>8); } void u32(uint32_t v){ u16(v); u16(v>>16); } void u64(uint64_t v){ u32((uint32_t)v); u32(v>>32);} void f32(float f){ u32(asU(f)); } void f64(double d){ uint64_t b; memcpy(&b,&d,8); u64(b);} void raw(const std::string& x){ s+=x; } };
struct Rd { const std::string& s; size_t p=0; bool ok=true; explicit Rd(const std::string& x):s(x){} uint8_t u8(){ if(p>=s.size()){ ok=false; return 0;} return (uint8_t)s[p++]; } uint32_t le32(){ uint32_t a=u8(),b=u8(),c=u8(),d=u8(); return a|b<<8|c<<16|d<<24; } uint16_t le16(){ uint32_t a=u8(),b=u8(); return a|b<<8; } uint32_t be32(){ uint32_t a=u8(),b=u8(),c=u8(),d=u8(); return d|c<<8|b<<16|a<<24; } uint16_t be16(){ uint32_t a=u8(),b=u8(); return b|a<<8; } uint64_t be64(){ uint64_t a=be32(); return a<<32|be32(); } uint64_t le64(){ uint64_t a=le32(); return a|(uint64_t)le32()<<32; } std::string bytes(size_t n){ if(p+n>s.size()){ ok=false; n=s.size()-std::min(p,s.size()); } std::string r=s.substr(p,n); p+=n; return r; } bool end()const{ return p==s.size(); } };
} // namespace pm
