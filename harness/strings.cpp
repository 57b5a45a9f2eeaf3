// String tables: model-based, both layouts, per-particle and fixed attributes (C04).
#include "model.h"
using namespace pm;
static void prop(Ctx& c){
    bool inter=c.chance(1,3); Holder hh(inter?Partio::createInterleave():Partio::create()); ParticlesDataMutable* p=static_cast<ParticlesDataMutable*>(hh.p);
    int na=(int)c.range(1,3), nf=(int)c.range(0,2); std::vector<ParticleAttribute> at; std::vector<FixedAttribute> fx; std::vector<std::vector<std::string>> ta(na), tf(nf);
    for(int i=0;i<na;i++) at.push_back(p->addAttribute(fmt("a%d",i).c_str(),INDEXEDSTR,(int)c.range(1,2))); for(int i=0;i<nf;i++) fx.push_back(p->addFixedAttribute(fmt("a%d",i).c_str(),INDEXEDSTR,1));
    std::vector<std::string> pool={"","a","b","ab","A","a b","\"q\"","\\"}; int extra=(int)c.range(0,6); for(int i=0;i<extra;i++) pool.push_back(genStr(c,NAME_ANY,300));
    std::sort(pool.begin(),pool.end()); pool.erase(std::unique(pool.begin(),pool.end()),pool.end());
    int steps=(int)c.range(1,c.chance(1,6)?150:25), renames=0, dups=0, many=0;
    auto lookup=[&](int w,bool fixed,const std::string& s){ return fixed? p->lookupFixedIndexedStr(fx[w],s.c_str()):p->lookupIndexedStr(at[w],s.c_str()); };
    auto checkOne=[&](int w,bool fixed){ auto& t=fixed?tf[w]:ta[w]; auto& v= fixed? p->fixedIndexedStrs(fx[w]):p->indexedStrs(at[w]); CHECK(v.size()==t.size(),"%s table %d has %zu strings, expected %zu",fixed?"fixed":"particle",w,v.size(),t.size()); for(size_t i=0;i<t.size();i++) CHECK(v[i]==t[i],"%s table %d token %zu is '%s', expected '%s'",fixed?"fixed":"particle",w,i,esc(v[i]).c_str(),esc(t[i]).c_str());
        for(auto& s:pool){ int k=lookup(w,fixed,s); bool in=std::find(t.begin(),t.end(),s)!=t.end(); if(!in) CHECK(k==-1,"lookup of unknown '%s' gives %d",esc(s).c_str(),k); else CHECK(k>=0&&k<(int)t.size()&&t[k]==s,"lookup of '%s' gives %d, which is '%s'",esc(s).c_str(),k,k>=0&&k<(int)t.size()?esc(t[k]).c_str():"nothing"); } };
    for(int i=0;i<steps;i++){ bool fixed= nf && c.chance(1,3); int w=(int)c.draw(fixed?nf:na); auto& t=fixed?tf[w]:ta[w];
        switch(c.weighted({6,4,2,1,1})){
        case 0: { std::string s=c.pick(pool); bool in=std::find(t.begin(),t.end(),s)!=t.end(); int k= fixed? p->registerFixedIndexedStr(fx[w],s.c_str()):p->registerIndexedStr(at[w],s.c_str()); if(in){ CHECK(k>=0&&k<(int)t.size()&&t[k]==s,"registering '%s' again gives token %d",esc(s).c_str(),k); dups++; } else { CHECK(k==(int)t.size(),"a new string got token %d, expected %zu",k,t.size()); t.push_back(s); } break; }
        case 1: { if(t.empty()) break; int k=(int)c.draw(t.size()); std::string s=c.pick(pool); if(fixed) p->setFixedIndexedStr(fx[w],k,s.c_str()); else p->setIndexedStr(at[w],k,s.c_str()); t[k]=s; renames++; break; }
        case 2: { static const std::vector<int> bad={-1,0,1,100,2147483647,-2147483647}; int k=bad[c.draw(bad.size())]; if(k>=0&&k<=100) k+=(int)t.size(); if(fixed) p->setFixedIndexedStr(fx[w],k,"zz"); else p->setIndexedStr(at[w],k,"zz"); break; }
        case 3: { int k=(int)c.range(1,60); for(int q=0;q<k;q++){ std::string s=fmt("many%d",many++); int id= fixed? p->registerFixedIndexedStr(fx[w],s.c_str()):p->registerIndexedStr(at[w],s.c_str()); CHECK(id==(int)t.size(),"token %d, expected %zu",id,t.size()); t.push_back(s);} break; }
        default: { p->addParticles((int)c.range(1,30)); if(c.chance(1,2)) p->addAttribute(fmt("n%d",p->numAttributes()).c_str(),FLOAT,1); } }
        checkOne(w,fixed); }
    for(int w=0;w<na;w++) checkOne(w,false); for(int w=0;w<nf;w++) checkOne(w,true);
    std::string h; for(auto* v:{&ta,&tf}) for(auto& t:*v) for(auto& s:t) h+=s+"|"; c.note("%s: %d steps, %d renames, %d repeated registrations, %zu strings in the first table",inter?"interleaved":"separate",steps,renames,dups,ta[0].size()); c.label(renames?"with renames":"no renames");
    if(renames&&dups) c.nontrivial(h+fmt("%d %d",renames,dups));
}
PBT_MAIN("a history with at least one rename and one repeated registration, every table and every lookup compared after each step", prop)
