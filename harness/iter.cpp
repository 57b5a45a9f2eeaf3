// Iterators and accessors against random access, both layouts (C02).
#include "model.h"
using namespace pm;
using Partio::ParticleAccessor;
template<class IT,class P> static void walk(Ctx& c,P* p,const PS& s,IT from,IT end,int first,bool postfix,size_t maxAcc,P* other=nullptr){
    IT it=from;
    if(other && c.chance(1,2)){ IT x=other->begin(); int k=(int)c.range(0,6); while(k-->0&&x!=other->end()) ++x; if(c.chance(1,3)) while(x!=other->end()) ++x; x=from; it=x; CHECK(it==from&&it.valid()==from.valid(),"an assigned iterator differs from the one it was assigned from"); c.label("iterator variable used for another set before"); }
    std::vector<ParticleAttribute> h(s.attrs.size()); for(size_t i=0;i<h.size();i++) p->attributeInfo(s.attrs[i].name.c_str(),h[i]);
    std::vector<size_t> use; for(size_t i=0;i<h.size()&&use.size()<maxAcc;i++) if(s.attrs[i].count>0) use.push_back(i);
    std::vector<ParticleAccessor> acc; acc.reserve(use.size()); for(auto i:use) acc.emplace_back(h[i]); for(auto& a:acc) it.addAccessor(a);
    int i=first;
    while(it!=end){ CHECK(i<s.n,"iteration goes past the %d particles",s.n); CHECK((int)it.index==i,"iterator is at %d, expected %d",(int)it.index,i); CHECK(it.valid(),"iterator in the middle is not valid"); CHECK(!(it==end),"an iterator at particle %d of %d equals the end",i,s.n); if(i>first) CHECK(!(it==from)&&it!=from,"iterators at particles %d and %d of one set are equal",first,i);
        if(other&&i<5){ IT x=other->begin(); for(int k=0;k<i&&x!=other->end();k++) ++x; if(x.valid()) CHECK(!(x==it)&&x!=it,"iterators of two sets, both at particle %d, are equal",i); }
        for(size_t k=0;k<use.size();k++){ const Attr& a=s.attrs[use[k]]; const uint32_t* d=acc[k].template raw<uint32_t>(it); for(int q=0;q<a.count;q++) CHECK(d[q]==a.data[(size_t)i*a.count+q],"accessor '%s' at particle %d comp %d: 0x%08x, expected 0x%08x",esc(a.name).c_str(),i,q,d[q],a.data[(size_t)i*a.count+q]); 
            if(a.count==3&&isFloatT(a.type)){ const Partio::DataV& v=acc[k].template data<Partio::DataV>(it); for(int q=0;q<3;q++) CHECK(asU(v[q])==a.data[(size_t)i*3+q],"typed accessor of '%s' at %d",esc(a.name).c_str(),i); } 
            const void* r=p->template data<void>(h[use[k]],i); CHECK(r==(const void*)d,"accessor and random access to '%s' of particle %d differ",esc(a.name).c_str(),i); }
        if(postfix){ IT old=it++; CHECK((int)old.index==i,"postfix increment returned position %d, expected %d",(int)old.index,i); } else { IT& r=++it; CHECK(&r==&it,"prefix increment"); }
        i++; }
    CHECK(i==std::max(first,s.n),"iteration from %d ends after particle %d of %d",first,i-1,s.n);
    CHECK(!it.valid(),"the end iterator is valid"); CHECK(it==end,"loop left, but iterator not equal to end");
}
static void prop(Ctx& c){
    GenOpt o; o.zero=true; o.requirePosition=c.chance(1,2); o.nameStyle=NAME_ANY; o.maxAttrs=5; o.big=c.chance(1,10); PS s=genPS(c,o); if(s.n>5000) s.n=5000; for(auto& a:s.attrs) a.data.resize((size_t)s.n*a.count);
    bool inter=c.chance(1,2); Holder hh(build(s,inter)); ParticlesDataMutable* p=static_cast<ParticlesDataMutable*>(hh.p);
    Holder oh; ParticlesDataMutable* other=nullptr; if(c.chance(1,2)){ oh.p=other=inter?Partio::createInterleave():Partio::create(); other->addAttribute("position",VECTOR,3); int k=c.chance(1,2)?(int)c.range(0,5):s.n+(int)c.range(0,40); if(k) other->addParticles(k); }
    int ops=(int)c.range(1,5); size_t walks=0;
    for(int t=0;t<ops;t++) switch(c.draw(5)){
        case 0: { int first=c.chance(1,2)?0:(int)c.range(0,s.n); bool pf=c.chance(1,2); auto it= first==0? p->begin():p->setupIterator(first); walk(c,p,s,it,p->end(),first,pf,c.draw(6),other); walks++; break; }
        case 1: { const ParticlesDataMutable* q=p; const ParticlesData* d=q; int first=c.chance(1,2)?0:(int)c.range(0,s.n); bool pf=c.chance(1,2); auto it= first==0? d->begin():d->setupConstIterator(first); walk(c,d,s,it,d->end(),first,pf,c.draw(6),(const ParticlesData*)other); walks++; break; }
        case 2: { // write a whole attribute through an accessor
            if(s.attrs.empty()) break; Attr& a=s.attrs[c.draw(s.attrs.size())]; ParticleAttribute h; p->attributeInfo(a.name.c_str(),h); Attr b=a; fillData(c,b,(size_t)s.n*b.count,0); auto it=p->begin(); ParticleAccessor acc(h); it.addAccessor(acc); int i=0; for(;it!=p->end();++it,i++){ CHECK(i<s.n,"iteration too long"); memcpy(acc.raw<uint32_t>(it),&b.data[(size_t)i*b.count],4*b.count);} CHECK(i==s.n,"iteration wrote %d of %d particles",i,s.n); a=b; c.label("write through accessor"); break; }
        case 3: { // grow, filling what is new through the returned iterator
            static const std::vector<int> ks={0,0,1,2,9,10,11,50,400}; int k=ks[c.draw(ks.size())]; int old=s.n; auto it=p->addParticles(k); std::vector<ParticleAttribute> h(s.attrs.size()); std::vector<ParticleAccessor> acc; acc.reserve(h.size()); for(size_t i=0;i<h.size();i++){ p->attributeInfo((int)i,h[i]); acc.emplace_back(h[i]); it.addAccessor(acc[i]); s.attrs[i].data.resize((size_t)(old+k)*s.attrs[i].count); }
            s.n=old+k; std::vector<Attr> fresh=s.attrs; for(auto& a:fresh) fillData(c,a,(size_t)k*a.count,0); int i=old; for(;it!=p->end();++it,i++){ CHECK(i<s.n,"addParticles(%d): the iterator visits more than the new particles",k); CHECK((int)it.index==i,"addParticles iterator at %d, expected %d",(int)it.index,i); for(size_t q=0;q<h.size();q++){ Attr& a=s.attrs[q]; memcpy(acc[q].raw<uint32_t>(it),&fresh[q].data[(size_t)(i-old)*a.count],4*a.count); memcpy(&a.data[(size_t)i*a.count],&fresh[q].data[(size_t)(i-old)*a.count],4*a.count);} } CHECK(i==s.n,"addParticles(%d): the iterator visits %d",k,i-old); c.label(k?"grow":"grow by none"); break; }
        default: { // add an attribute, fill it by random access
            GenOpt o2=o; std::set<std::string> used; for(auto& a:s.attrs) used.insert(a.name); Attr a=genAttr(c,o2,used,false); fillData(c,a,(size_t)s.n*a.count,0); ParticleAttribute h=p->addAttribute(a.name.c_str(),a.type,a.count); for(auto& x:a.strings) p->registerIndexedStr(h,x.c_str()); for(int i=0;i<s.n;i++) memcpy(p->dataWrite<void>(h,i),&a.data[(size_t)i*a.count],4*a.count); s.attrs.push_back(a); c.label("attribute added"); break; } }
    walk(c,p,s,p->begin(),p->end(),0,false,99);
    PS g=extract(p); cmpExact(s,g);
    c.note("%s %d operations, %s",inter?"interleaved":"separate",ops,describe(s).c_str()); c.label(inter?"interleaved":"separate"); c.label(s.n==0?"n=0":s.n==1?"n=1":"n>1");
    if(s.n>=2&&s.attrs.size()>=2) c.nontrivial(hashPS(s)+(char)inter+(char)walks);
}
PBT_MAIN("a set with at least two particles and two attributes, walked with accessors on several attributes, after writes and growth through iterators", prop)
