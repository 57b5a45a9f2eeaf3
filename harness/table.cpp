// Point table: model-based test of the particle set returned by Partio::create().
// Also compiled by table_il.cpp for the interleaved layout (C01, C03).
#include "model.h"
using namespace pm;
typedef std::vector<std::pair<bool,uint32_t>> Cells; // (written, bits)
struct MA { Attr a; Cells cells; ParticleAttribute h; };
struct MF { Attr a; Cells cells; FixedAttribute h; };

struct World {
    Ctx& c; ParticlesDataMutable* p; int n=0; std::vector<MA> at; std::vector<MF> fx; bool grownAfterWrite=false, attrAfterWrite=false, wrote=false;
    World(Ctx& c_,ParticlesDataMutable* p_):c(c_),p(p_){}
    MA* get(const std::string& nm){ for(auto& x:at) if(x.a.name==nm) return &x; return nullptr; }
    MF* getf(const std::string& nm){ for(auto& x:fx) if(x.a.name==nm) return &x; return nullptr; }
    void schemaCheck(){
        CHECK(p->numParticles()==n,"numParticles()=%d, expected %d",p->numParticles(),n);
        CHECK(p->numAttributes()==(int)at.size(),"numAttributes()=%d, expected %zu",p->numAttributes(),at.size());
        CHECK(p->numFixedAttributes()==(int)fx.size(),"numFixedAttributes()=%d, expected %zu",p->numFixedAttributes(),fx.size());
        for(size_t i=0;i<at.size();i++){ ParticleAttribute h; CHECK(p->attributeInfo((int)i,h),"attributeInfo(%zu) false",i);
            CHECK(h.name==at[i].a.name&&h.type==at[i].a.type&&h.count==at[i].a.count,"attributeInfo(%zu) = %s %s[%d], expected %s %s[%d]",i,esc(h.name).c_str(),tname(h.type),h.count,esc(at[i].a.name).c_str(),tname(at[i].a.type),at[i].a.count);
            ParticleAttribute k; CHECK(p->attributeInfo(at[i].a.name.c_str(),k),"attributeInfo('%s') false",esc(at[i].a.name).c_str());
            CHECK(k.name==h.name&&k.type==h.type&&k.count==h.count&&k.attributeIndex==h.attributeIndex,"lookup by name and by index disagree for '%s'",esc(h.name).c_str()); }
        for(size_t i=0;i<fx.size();i++){ FixedAttribute h; CHECK(p->fixedAttributeInfo((int)i,h),"fixedAttributeInfo(%zu) false",i);
            CHECK(h.name==fx[i].a.name&&h.type==fx[i].a.type&&h.count==fx[i].a.count,"fixedAttributeInfo(%zu) = %s %s[%d], expected %s %s[%d]",i,esc(h.name).c_str(),tname(h.type),h.count,esc(fx[i].a.name).c_str(),tname(fx[i].a.type),fx[i].a.count);
            FixedAttribute k; CHECK(p->fixedAttributeInfo(fx[i].a.name.c_str(),k),"fixedAttributeInfo('%s') false",esc(fx[i].a.name).c_str());
            CHECK(k.name==h.name&&k.type==h.type&&k.count==h.count&&k.attributeIndex==h.attributeIndex,"fixed lookup by name and by index disagree for '%s'",esc(h.name).c_str()); }
        ParticleAttribute h; FixedAttribute f;
        CHECK(!p->attributeInfo((int)at.size(),h)&&!p->attributeInfo(-1,h),"attributeInfo accepts an index out of range");
        CHECK(!p->fixedAttributeInfo((int)fx.size(),f)&&!p->fixedAttributeInfo(-1,f),"fixedAttributeInfo accepts an index out of range");
        for(auto& nm:{std::string("no such attr"),std::string("positio"),std::string("position ")}) { if(!get(nm)) CHECK(!p->attributeInfo(nm.c_str(),h),"attributeInfo finds '%s'",nm.c_str()); if(!getf(nm)) CHECK(!p->fixedAttributeInfo(nm.c_str(),f),"fixedAttributeInfo finds '%s'",nm.c_str()); }
    }
    void cellCheck(const MA& m,int i){ const uint32_t* d=static_cast<const uint32_t*>(p->data<void>(m.h,i)); CHECK(d||m.a.count==0,"data() null for particle %d of %d",i,n);
        for(int k=0;k<m.a.count;k++){ auto& x=m.cells[(size_t)i*m.a.count+k]; if(x.first) CHECK(d[k]==x.second,"'%s' particle %d comp %d: 0x%08x, expected 0x%08x",esc(m.a.name).c_str(),i,k,d[k],x.second); } }
    void fixCheck(const MF& m){ const uint32_t* d=static_cast<const uint32_t*>(p->fixedData<void>(m.h)); for(int k=0;k<m.a.count;k++) if(m.cells[k].first) CHECK(d[k]==m.cells[k].second,"fixed '%s' comp %d: 0x%08x, expected 0x%08x",esc(m.a.name).c_str(),k,d[k],m.cells[k].second); }
    void strCheck(const MA& m){ auto& v=p->indexedStrs(m.h); CHECK(v==m.a.strings,"string table of '%s' differs",esc(m.a.name).c_str()); for(size_t i=0;i<v.size();i++) CHECK(p->lookupIndexedStr(m.h,v[i].c_str())==(int)i,"lookup of string %zu",i); }
    void strCheckF(const MF& m){ auto& v=p->fixedIndexedStrs(m.h); CHECK(v==m.a.strings,"string table of fixed '%s' differs",esc(m.a.name).c_str()); for(size_t i=0;i<v.size();i++) CHECK(p->lookupFixedIndexedStr(m.h,v[i].c_str())==(int)i,"fixed lookup of string %zu",i);}
    void full(){ schemaCheck(); for(auto& m:at){ for(int i=0;i<n;i++) cellCheck(m,i); strCheck(m);} for(auto& m:fx){ fixCheck(m); strCheckF(m);} }
    void grow(int k){ for(auto& m:at) m.cells.resize((size_t)(n+k)*m.a.count,{false,0}); n+=k; if(wrote) grownAfterWrite=true; }
    // gather through the multi-index accessors
    void gather(){ if(at.empty()||!n) return; MA& m=at[c.draw(at.size())]; int k=(int)c.range(1,12); std::vector<ParticleIndex> ix; bool sorted=c.chance(1,3);
        for(int i=0;i<k;i++){ int j=(int)c.draw(n); for(int q=0;q<m.a.count;q++) if(!m.cells[(size_t)j*m.a.count+q].first){ writeCell(m,j); break; } ix.push_back(j);} if(sorted) std::sort(ix.begin(),ix.end());
        std::vector<uint32_t> out((size_t)k*m.a.count+1,0xdeadbeef); std::vector<float> fo((size_t)k*m.a.count+1,-77.f);
        if(isFloatT(m.a.type)) p->data<float>(m.h,k,ix.data(),sorted,(float*)out.data()); else p->data<int>(m.h,k,ix.data(),sorted,(int*)out.data());
        p->dataAsFloat(m.h,k,ix.data(),sorted,fo.data());
        CHECK(out.back()==0xdeadbeef && fo.back()==-77.f,"gather wrote past the requested values");
        for(int i=0;i<k;i++) for(int q=0;q<m.a.count;q++){ uint32_t w=m.cells[(size_t)ix[i]*m.a.count+q].second; size_t o=(size_t)i*m.a.count+q;
            CHECK(out[o]==w,"gather '%s' item %d comp %d: 0x%08x, expected 0x%08x",esc(m.a.name).c_str(),i,q,out[o],w);
            uint32_t wf= isFloatT(m.a.type)? w : asU((float)(int)w); CHECK(asU(fo[o])==wf,"dataAsFloat '%s' item %d comp %d: %g, expected %g",esc(m.a.name).c_str(),i,q,fo[o],asF(wf)); }
        c.label("op:gather"); }
    std::vector<uint32_t> vals(const MA& m){ std::vector<uint32_t> v(m.a.count); for(auto& x:v) x= isFloatT(m.a.type)? genFloat(c,0) : m.a.type==INT? genInt(c) : (uint32_t)c.draw(std::max<size_t>(1,m.a.strings.size())); return v; }
    void writeCell(MA& m,int j){ std::vector<uint32_t> v=vals(m); for(int q=0;q<m.a.count;q++) m.cells[(size_t)j*m.a.count+q]={true,v[q]}; wrote=true;
        ParticleAttribute h=m.h; if(c.chance(1,4)) p->attributeInfo(m.a.name.c_str(),h);
        switch(c.draw(3)){ case 0: memcpy(p->dataWrite<void>(h,j),v.data(),4*v.size()); break; case 1: if(isFloatT(m.a.type)) p->set<float>(h,j,(float*)v.data()); else p->set<int>(h,j,(int*)v.data()); break;
            default: { auto it=p->setupIterator(j); Partio::ParticleAccessor acc(h); it.addAccessor(acc); memcpy(acc.raw<uint32_t>(it),v.data(),4*v.size()); } } }
    void step(){
        size_t op=c.weighted({10,6,6,4,3,5,3,2,4,2});
        switch(op){
        case 0: { if(at.empty()||!n) break; MA& m=at[c.draw(at.size())]; int j=(int)c.draw(n); writeCell(m,j); c.label("op:write"); break; }
        case 1: { ParticleIndex i=p->addParticle(); CHECK((int)i==n,"addParticle() returned %d, expected %d",(int)i,n); grow(1); c.label("op:addParticle"); break; }
        case 2: { static const std::vector<int> ks={1,2,3,5,9,10,11,20,64,100,333}; int k=ks[c.draw(ks.size())]; if(n+k>3000) k=1; auto it=p->addParticles(k); int first=n; grow(k); CHECK((int)it.index==first,"addParticles() iterator starts at %d, expected %d",(int)it.index,first);
                  int cnt=0; for(auto e=p->end(); it!=e; ++it) cnt++; CHECK(cnt==k,"iterating from addParticles(%d) visits %d particles",k,cnt); c.label("op:addParticles"); break; }
        case 3: { GenOpt o; o.zero=true; o.nameStyle=NAME_ANY; o.maxCount=40; std::set<std::string> used; for(auto& m:at) used.insert(m.a.name); Attr a=genAttr(c,o,used,false); if(at.size()>40) break; MA m; m.a=a; m.a.strings.clear(); m.h=p->addAttribute(a.name.c_str(),a.type,a.count);
                  CHECK(m.h.name==a.name&&m.h.type==a.type&&m.h.count==a.count,"addAttribute returned a wrong handle"); for(auto& s:a.strings){ int t=p->registerIndexedStr(m.h,s.c_str()); CHECK(t==(int)m.a.strings.size(),"token %d for new string, expected %zu",t,m.a.strings.size()); m.a.strings.push_back(s);} m.cells.resize((size_t)n*a.count,{false,0}); at.push_back(m); if(wrote) attrAfterWrite=true; c.label("op:addAttribute"); break; }
        case 4: { if(at.empty()) break; MA& m=at[c.draw(at.size())]; ParticleAttribute h=p->addAttribute(m.a.name.c_str(),(ParticleAttributeType)c.range(2,4),(int)c.range(1,5)); CHECK(h.type==NONE && h.attributeIndex<0,"a duplicate addAttribute returned a usable handle"); schemaCheck(); c.label("op:dupAttribute"); break; }
        case 5: { gather(); break; }
        case 6: { GenOpt o; o.zero=true; o.nameStyle=NAME_ANY; o.maxCount=40; std::set<std::string> used; for(auto& m:fx) used.insert(m.a.name); if(fx.size()>20) break; Attr a=genAttr(c,o,used,true); MF m; m.a=a; m.a.strings.clear(); m.h=p->addFixedAttribute(a.name.c_str(),a.type,a.count); CHECK(m.h.name==a.name&&m.h.type==a.type&&m.h.count==a.count,"addFixedAttribute returned a wrong handle"); for(auto& s:a.strings){ int t=p->registerFixedIndexedStr(m.h,s.c_str()); CHECK(t==(int)m.a.strings.size(),"fixed token %d",t); m.a.strings.push_back(s);} m.cells.resize(a.count,{false,0}); fx.push_back(m); c.label("op:addFixed"); break; }
        case 7: { if(fx.empty()) break; MF& m=fx[c.draw(fx.size())]; FixedAttribute h=p->addFixedAttribute(m.a.name.c_str(),INT,1); CHECK(h.type==NONE && h.attributeIndex<0,"a duplicate addFixedAttribute returned a usable handle"); schemaCheck(); c.label("op:dupFixed"); break; }
        case 8: { if(fx.empty()) break; MF& m=fx[c.draw(fx.size())]; std::vector<uint32_t> v(m.a.count); for(auto& x:v) x=isFloatT(m.a.type)?genFloat(c,0):genInt(c); if(c.chance(1,2)) memcpy(p->fixedDataWrite<void>(m.h),v.data(),4*v.size()); else { if(isFloatT(m.a.type)) p->setFixed<float>(m.h,(float*)v.data()); else p->setFixed<int>(m.h,(int*)v.data()); } for(int q=0;q<m.a.count;q++) m.cells[q]={true,v[q]}; c.label("op:writeFixed"); break; }
        case 9: { if(at.empty()) break; MA& m=at[c.draw(at.size())]; static const std::vector<uint64_t> off={0,1,5,1000,1u<<20}; ParticleIndex i=(ParticleIndex)n+off[c.draw(off.size())]; const void* d=p->data<void>(m.h,i); CHECK(d==nullptr,"data() of particle %llu of %d is not null",(unsigned long long)i,n); std::vector<uint32_t> v(m.a.count,7); if(isFloatT(m.a.type)) p->set<float>(m.h,i,(float*)v.data()); else p->set<int>(m.h,i,(int*)v.data()); CHECK(p->numParticles()==n,"an out of range access changed the number of particles"); c.label("op:outOfRange"); break; }
        }
    }
};
#ifdef INTERLEAVE
static const bool inter=true;
#else
static const bool inter=false;
#endif
static void prop(Ctx& c){
    Holder h(inter?Partio::createInterleave():Partio::create()); World w(c,(ParticlesDataMutable*)h.p);
    w.p=static_cast<ParticlesDataMutable*>(h.p);
    int steps=(int)c.range(1, c.chance(1,8)?120:30);
    for(int i=0;i<steps;i++){ w.step(); if(c.chance(1,10)) w.full(); if(!w.at.empty()&&w.n){ MA& m=w.at[c.draw(w.at.size())]; w.cellCheck(m,(int)c.draw(w.n)); } }
    w.full();
    PS s; s.n=w.n; for(auto& m:w.at){ Attr a=m.a; for(auto& x:m.cells) a.data.push_back(x.first?x.second:0x55555555u); s.attrs.push_back(a);} for(auto& m:w.fx) s.fixed.push_back(m.a);
    c.note("%d steps, final %s",steps,describe(s).c_str());
    if(w.grownAfterWrite) c.label("grown after a write"); if(w.attrAfterWrite) c.label("attribute added after a write");
    if(w.wrote && (w.grownAfterWrite||w.attrAfterWrite)) c.nontrivial(hashPS(s));
}
PBT_MAIN("a history in which particles or attributes were added after values had been written, with every written value read back afterwards", prop)
