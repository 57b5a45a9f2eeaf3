// clone() and cloneSchema() (C21).
#include "model.h"
using namespace pm;
// where a map gives several attributes one name, the first keeps it and the others are left out
static PS renamed(const PS& s,const std::map<std::string,std::string>& m){ PS r=s; for(auto* v:{&r.attrs,&r.fixed}){ std::set<std::string> seen; std::vector<Attr> kept; for(auto& a:*v){ auto i=m.find(a.name); if(i!=m.end()) a.name=i->second; if(seen.insert(a.name).second) kept.push_back(a); } *v=kept; } return r; }
static void prop(Ctx& c){
    GenOpt o; o.zero=true; o.requirePosition=c.chance(1,2); o.nameStyle=NAME_ANY; o.fixed=true; o.dupStrings=true; o.wide=true; o.maxAttrs=5; o.big=c.chance(1,20); o.maxN=6000; PS s=genPS(c,o); if(c.chance(1,8)) for(int f=0;f<2;f++) if(c.chance(2,3)){ auto& v=f?s.fixed:s.attrs; Attr a; a.name="empty attribute"; a.type=std::vector<ParticleAttributeType>{FLOAT,INT,INDEXEDSTR}[c.draw(3)]; a.count=0; if(a.type==INDEXEDSTR) a.strings={"s0","s1"}; v.insert(v.begin()+c.draw(v.size()+1),a); c.label("attribute of no values"); }
    bool inter=c.chance(1,3); Holder hh(build(s,inter)); ParticlesDataMutable* p=static_cast<ParticlesDataMutable*>(hh.p); PS before=extract(p);
    // a map of names that keeps them distinct: some renamed to fresh names, some rotated, some entries for absent names
    std::map<std::string,std::string> m; bool useMap=c.chance(2,3); if(useMap){ std::vector<std::string> all; for(auto* v:{&s.attrs,&s.fixed}) for(auto& a:*v) if(std::find(all.begin(),all.end(),a.name)==all.end()) all.push_back(a.name);
        if(c.chance(1,2)&&all.size()>=2){ size_t k=2+c.draw(all.size()-1); for(size_t i=0;i<k;i++) m[all[i]]=all[(i+1)%k]; c.label("names rotated"); } else for(auto& n:all) if(c.chance(1,2)) m[n]="new "+n+(c.chance(1,4)?"\x80":""); if(c.chance(1,2)) m["not an attribute"]="x"; m["new nothing"]="y";
        if(all.size()>=2&&c.chance(1,12)){ std::string t=c.chance(1,2)?"shared":all[c.draw(all.size())]; for(auto& n:all) if(c.chance(1,2)) m[n]=t; c.label("one name for several"); } }
    const std::map<std::string,std::string>* mp= useMap? &m:nullptr; PS want=renamed(s,m); if(!useMap) want=s;
    size_t mode=c.weighted({4,1,2}); Holder k(mode==0? Partio::clone(*p,true,mp) : mode==1? Partio::clone(*p,false,mp) : Partio::cloneSchema(*p,mp)); CHECK(k.p,"clone returned null"); ParticlesDataMutable* q=static_cast<ParticlesDataMutable*>(k.p);
    CHECK((void*)q!=(void*)p,"clone returned its argument");
    if(mode==0) cmpExact(want,extract(q));
    else if(mode==1){ PS w=want; w.n=0; w.attrs.clear(); cmpExact(w,extract(q)); }
    else { PS g=extractInfo(q); CHECK(g.n==0,"cloneSchema has %d particles",g.n); CHECK(g.attrs.size()==want.attrs.size()&&g.fixed.size()==want.fixed.size(),"cloneSchema has %zu+%zu attributes, expected %zu+%zu",g.attrs.size(),g.fixed.size(),want.attrs.size(),want.fixed.size()); for(int f=0;f<2;f++){ auto& a=f?g.fixed:g.attrs; auto& b=f?want.fixed:want.attrs; for(size_t i=0;i<a.size();i++) CHECK(a[i].name==b[i].name&&a[i].type==b[i].type&&a[i].count==b[i].count,"cloneSchema attribute %zu is %s %s[%d], expected %s %s[%d]",i,esc(a[i].name).c_str(),tname(a[i].type),a[i].count,esc(b[i].name).c_str(),tname(b[i].type),b[i].count); } }
    cmpExact(before,extract(p));
    // independence: change one, look at the other
    PS kept=extract(q); bool changeCopy=c.chance(1,2); ParticlesDataMutable* t=changeCopy?q:p;
    for(int i=0;i<t->numAttributes();i++){ ParticleAttribute h; t->attributeInfo(i,h); for(int j=0;j<std::min(3,t->numParticles());j++) memset(t->dataWrite<void>(h,j),0x3c,4*h.count); if(h.type==INDEXEDSTR){ t->registerIndexedStr(h,"brand new"); if(t->indexedStrs(h).size()>1) t->setIndexedStr(h,0,"renamed"); } }
    for(int i=0;i<t->numFixedAttributes();i++){ FixedAttribute h; t->fixedAttributeInfo(i,h); memset(t->fixedDataWrite<void>(h),0x3c,4*h.count); if(h.type==INDEXEDSTR) t->setFixedIndexedStr(h,0,"renamed"); }
    t->addParticles((int)c.range(1,20)); t->addAttribute("added later",FLOAT,1);
    if(changeCopy) cmpExact(before,extract(p)); else cmpExact(kept,extract(q));
    if(!changeCopy&&c.chance(1,2)){ p->release(); hh.p=nullptr; cmpExact(kept,extract(q)); c.label("source released first"); }
    c.note("%s %s%s of %s",mode==0?"clone":mode==1?"clone(no particles)":"cloneSchema",inter?"interleaved ":"",useMap?"with names mapped":"",describe(s).c_str()); c.label(mode==0?"clone":mode==1?"details only":"schema"); if(s.n>=1&&s.attrs.size()+s.fixed.size()>=2) c.nontrivial(hashPS(s)+fmt("%zu",mode)+(useMap?"m":""));
}
PBT_MAIN("a set with at least one particle and two attributes, cloned, compared value by value, then one of the two changed and the other compared again", prop)
