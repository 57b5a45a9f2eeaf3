// Any set can be written to any format (C36).
#include "files.h"
using namespace pm;
// names that formats give a meaning to, with any type and size
static PS oddSet(Ctx& c,bool wild){ GenOpt o; o.requirePosition=false; o.maxAttrs=5; o.maxCount=c.chance(1,6)?40:6; o.big=false; o.maxN=60; o.floatCls=wild?0:1; o.nameStyle=wild?NAME_ANY:NAME_PLAIN; o.strLen=wild?5000:100; if(!wild) o.nameMax=31; o.fixed=true; o.manyAttrs=c.chance(1,10); o.strTable=true; static const std::vector<std::string> sp={"position","P","normal","N","radius","width","radiusPP","velocity","id","ID","uvw","age","force","mass","vorticity","density","neighbors","isolationTime","viscosity","pressure","temperature","v","Cd","position2","pointColor","remission","quality","lifespan","particleId"};
    std::vector<std::string> pick; bool proper=c.chance(2,3); if(proper) pick.push_back("position"); int k=(int)c.range(0,5); for(int i=0;i<k;i++){ std::string n=c.chance(1,3)?sp[c.draw(5)]:c.pick(sp); bool dup=false; for(auto& m:pick) dup|=strcasecmp(m.c_str(),n.c_str())==0; if(!dup) pick.push_back(n); } o.reserved=pick; if(!wild) o.fold=[](const std::string& x){ std::string r=x; if(!r.empty()) r[0]=(char)tolower(r[0]); return r; }; for(auto& n:pick) o.reserved.push_back(o.fold?o.fold(n):n); PS s=genPS(c,o); std::set<std::string> used;
    if(c.chance(1,6)&&s.attrs.size()) s.attrs.pop_back();
    for(auto& n:pick){ GenOpt q=o; q.reserved.clear(); std::set<std::string> u; Attr a=genAttr(c,q,u,false); a.name=n; if(proper&&n=="position"){ a.type=VECTOR; a.count=3; a.strings.clear(); } else if(c.chance(1,2)){ a.type= c.chance(3,4)?VECTOR:FLOAT; a.count=3; a.strings.clear(); } fillData(c,a,(size_t)s.n*a.count,o.floatCls); s.attrs.insert(s.attrs.begin()+c.draw(s.attrs.size()+1),a); }
    if(wild) for(auto& a:s.attrs) if(c.chance(1,12)&&a.name!="position"){ a.count=0; a.data.clear(); }
    if(wild) for(auto& a:s.attrs) if(a.type==INDEXEDSTR&&c.chance(1,4)) a.strings.clear(), a.data.assign(a.data.size(),0);
    return s; }
static void walk(const ParticlesData* p){ PS x=extract(p); (void)x; }
static void prop(Ctx& c){
    static const std::vector<std::string> ex={"bgeo","geo","pdb32","pdb64","pdb","pda","ptc","pdc","prt","bin","rib"}; std::string ext=c.pick(ex); bool wild=c.chance(1,3); PS s=oddSet(c,wild); bool inter=c.chance(1,4), gz=gzFormat(ext)&&c.chance(1,6);
    Holder h(build(s,inter)); c.note("%s%s%s %s",ext.c_str(),wild?" wild":"",inter?" interleaved":"",describe(s).c_str()); std::string f=c.path("t."+ext); unlink(f.c_str()); std::string err; auto& P=*static_cast<ParticlesData*>(h.p);
    PS before=extract(&P); writeQ(f,P,gz,&err); { PS after=extract(&P); cmpExact(before,after); }
    const Attr* pos=find(s.attrs,"position"); bool goodPos=pos&&pos->type==VECTOR&&pos->count==3, anyPos=goodPos||(pos&&isFloatT(pos->type)&&pos->count>=3);
    bool numeric=false; for(auto& a:s.attrs) numeric|=a.type!=INDEXEDSTR; bool special=false; for(auto& a:s.attrs) special|= a.name=="normal"||a.name=="radius"||a.name=="id"||a.name=="velocity"||a.name=="uvw"||a.name=="age"||a.name=="position";
    std::string re; Holder r; if(exists(f)&&ext!="rib"){ r.p=readQ(f,&re); if(r.p) walk(static_cast<ParticlesData*>(r.p)); else CHECK(!re.empty(),"the .%s file written is refused without a message",ext.c_str()); Holder hd; std::ostringstream es; hd.p=Partio::readHeaders(f.c_str(),true,es); if(hd.p) extractInfo(hd.p); }
    if(!wild){ bool refused=false;
        if(ext=="bgeo"||ext=="geo"||ext=="ptc"){ if(!goodPos&&!anyPos){ CHECK(!err.empty(),"a set without positions is written to .%s without a message",ext.c_str()); refused=true; } else if(!goodPos) refused=!err.empty()&&!r.p; }
        if(ext=="prt"&&(s.n==0||!numeric)) refused=true;
        if(ext!="rib"&&!refused){ CHECK(exists(f),"no .%s file was written: %s",ext.c_str(),err.c_str()); CHECK(r.p,"the .%s file written cannot be read: %s",ext.c_str(),re.c_str()); auto* q=static_cast<ParticlesData*>(r.p); bool empty=q->numAttributes()==0; CHECK(q->numParticles()==s.n||empty,"%d particles written to .%s, %d read",s.n,ext.c_str(),q->numParticles());
            // positions survive in every format, whatever else the set holds
            if(goodPos&&s.n){ PS g=extract(q); const Attr* w=find(g.attrs,"position"); CHECK(w&&w->count==3,"the .%s file has no positions",ext.c_str()); bool text=ext=="geo"||ext=="pda"; for(size_t i=0;i<pos->data.size();i++){ float x=asF(pos->data[i]),y=asF(w->data[i]); CHECK(text? std::fabs((double)x-y)<=1e-5*std::fabs((double)x)+1e-37 : pos->data[i]==w->data[i]||(ext=="pdc"&&x==y),"position of particle %zu comp %zu: %g written to .%s, %g read",i/3,i%3,x,ext.c_str(),y); } } }
        if(refused) c.label("refused "+ext); }
    unlink(f.c_str()); c.label((wild?"any names, values and sizes ":"plain ")+ext); if(special) c.label("names with a meaning"); if(!goodPos) c.label("no proper position"); if(s.n>=1&&s.attrs.size()>=2&&special) c.nontrivial(hashPS(s)+ext+(char)(wild+2*inter));
}
PBT_MAIN("a set of at least one particle and two attributes, at least one under a name formats give a meaning to", prop)
