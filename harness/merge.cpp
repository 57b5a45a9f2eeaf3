// merge() against a reference model (C22).
#include "model.h"
using namespace pm;
static bool fl(const Attr& a){ return isFloatT(a.type); }
static bool aligned(const Attr& a,const Attr& b){ return a.count==b.count && (a.type==b.type || (fl(a)&&fl(b))); }
struct MV { std::vector<uint32_t> v; std::vector<std::string> s; bool any=false; }; // value of one attribute of one particle; strings by content
static MV get(const Attr& a,int i){ MV r; for(int k=0;k<a.count;k++){ uint32_t x=a.data[(size_t)i*a.count+k]; r.v.push_back(x); if(a.type==INDEXEDSTR) r.s.push_back(x<a.strings.size()?a.strings[x]:"?"); } return r; }
static void addTo(Ctx& c,PS& s,const Attr& a){ s.attrs.insert(s.attrs.begin()+c.draw(s.attrs.size()+1),a); }
static void prop(Ctx& c){
    GenOpt o; o.zero=true; o.requirePosition=c.chance(3,4); o.maxAttrs=4; o.fixed=true; o.big=false; o.maxN=400; o.maxCount=40; o.reserved={"id0","id1","other"}; o.manyAttrs=c.chance(1,10); o.dupStrings=true;
    PS b=genPS(c,o), d=genPS(c,o);
    // share schema: copy some attributes of the base to the delta, with fresh values and partly other strings
    for(int f=0;f<2;f++){ auto& B=f?b.fixed:b.attrs; auto& D=f?d.fixed:d.attrs; int nd=f?1:d.n; for(auto& a:B) if(!find(D,a.name)&&c.chance(2,3)){ Attr x=a; if(x.type==INDEXEDSTR){ std::vector<std::string> t; for(auto& y:x.strings) if(c.chance(1,2)) t.push_back(y); int k=(int)c.range(0,3); for(int i=0;i<k;i++){ std::string y=fmt("d%d",(int)c.draw(6)); if(std::find(t.begin(),t.end(),y)==t.end()) t.push_back(y);} if(t.empty()) t.push_back("only"); for(size_t i=t.size()-1;i>0;i--) std::swap(t[i],t[c.draw(i+1)]); x.strings=t; }
            else if(c.chance(1,8)){ size_t w=c.draw(2); if(w==0) { x.count=x.count<=1?x.count+1:x.count-1; if(x.type==VECTOR) x.type=FLOAT; } else x.type= x.type==INT?FLOAT:INT; c.label("attribute of another shape"); }
            fillData(c,x,(size_t)nd*x.count,0); D.insert(D.begin()+c.draw(D.size()+1),x); } }
    // identifiers
    size_t mode=c.weighted({2,5,4,2,2}); std::string i0,i1; const char* names[2]={"id0","id1"}; int domain=(int)c.range(1,30); static const std::vector<uint32_t> muls={1,1,1,1,1,255,256,65536,65537,1u<<24,1u<<28}; uint32_t mul=c.pick(muls); if(mul>1) c.label("identifiers far apart");
    auto ids=[&](PS& s,const char* nm,ParticleAttributeType t){ Attr a; a.name=nm; a.type=t; a.count=1; for(int i=0;i<s.n;i++) a.data.push_back((uint32_t)((int)c.draw(domain)-domain/3)*mul); addTo(c,s,a); };
    bool bh0=false,bh1=false,dh0=false,dh1=false;
    switch(mode){ case 0: break; // no identifier
        case 1: i0="id0"; bh0=dh0=true; break; case 2: i0="id0"; i1="id1"; bh0=bh1=dh0=dh1=true; break;
        case 3: i0="id0"; i1="id1"; bh0=c.chance(1,2); bh1=c.chance(1,2); dh0=c.chance(1,2); dh1=c.chance(1,2); break; // some absent
        default: i0=c.chance(1,2)?"id0":"nope"; i1=c.chance(1,2)?"id1":""; bh0=bh1=dh0=dh1=true; }
    bool floatId=mode==4&&c.chance(1,3); if(b.n>2000) return;
    if(bh0) ids(b,"id0",INT); if(bh1) ids(b,"id1",INT); if(dh0) ids(d,"id0",floatId?FLOAT:INT); if(dh1) ids(d,"id1",INT);
    auto id=[&](const PS& s,int i,bool u0,bool u1){ const Attr* a=find(s.attrs,"id0"); const Attr* e=find(s.attrs,"id1"); return std::make_pair(u0?(int)a->data[i]:0,u1?(int)e->data[i]:0); };
    auto isInt=[&](const PS& s,const std::string& n){ const Attr* a=n.empty()?nullptr:find(s.attrs,n); return a&&a->type==INT; };
    bool B0=isInt(b,i0),B1=isInt(b,i1),D0=isInt(d,i0),D1=isInt(d,i1); bool keyed= (B0||B1) && B0==D0 && B1==D1;
    // identifiers of the base must be unique: drop repeated particles
    if(B0||B1){ std::set<std::pair<int,int>> seen; std::vector<int> keep; for(int i=0;i<b.n;i++) if(seen.insert(id(b,i,B0,B1)).second) keep.push_back(i); for(auto& a:b.attrs){ std::vector<uint32_t> v; for(int i:keep) v.insert(v.end(),a.data.begin()+(size_t)i*a.count,a.data.begin()+(size_t)(i+1)*a.count); a.data=v; } b.n=(int)keep.size(); }
    bool self=c.chance(1,15); if(self){ d=b; D0=B0; D1=B1; keyed=B0||B1; c.label("merged with itself"); }
    bool bi=c.chance(1,5), di=c.chance(1,5); Holder hb(build(b,bi)), hd(build(d,di)); auto* pb=static_cast<ParticlesDataMutable*>(hb.p); auto* pd=static_cast<ParticlesDataMutable*>(self?hb.p:hd.p); PS dBefore=extract(pd);
    c.note("base %s; delta %s%s; identifiers '%s' '%s'%s",describe(b).c_str(),self?"itself: ":"",describe(d).c_str(),i0.c_str(),i1.c_str(),keyed?" keyed":"");
    Partio::merge(*pb,*pd,i0,i1);
    if(!self) cmpExact(dBefore,extract(pd)); PS g=extract(pb);
    // reference
    std::vector<Attr> sch=b.attrs; std::vector<bool> isNew; for(auto& a:d.attrs) if(!find(b.attrs,a.name)) sch.push_back(a); CHECK(g.attrs.size()==sch.size(),"%zu attributes after the merge, expected %zu",g.attrs.size(),sch.size());
    std::map<std::pair<int,int>,int> at; if(keyed) for(int i=0;i<b.n;i++) at[id(b,i,B0,B1)]=i; std::vector<int> target; int n=b.n, repl=0, app=0; for(int i=0;i<d.n;i++){ if(keyed){ auto it=at.find(id(d,i,D0,D1)); if(it!=at.end()){ target.push_back(it->second); repl++; continue; } } target.push_back(n++); app++; }
    CHECK(g.n==n,"%d particles after the merge, expected %d (%d replaced, %d added)",g.n,n,repl,app);
    for(size_t k=0;k<sch.size();k++){ const Attr* ab=find(b.attrs,sch[k].name); const Attr* ad=find(d.attrs,sch[k].name); const Attr& G=g.attrs[k]; CHECK(G.name==sch[k].name&&G.type==sch[k].type&&G.count==sch[k].count,"attribute %zu after the merge is '%s' %s[%d], expected '%s' %s[%d]",k,esc(G.name).c_str(),tname(G.type),G.count,esc(sch[k].name).c_str(),tname(sch[k].type),sch[k].count);
        std::vector<MV> want(n); for(auto& m:want) m.v.assign(G.count,0); if(G.type==INDEXEDSTR) for(auto& m:want) m.any=true; if(ab) for(int i=0;i<b.n;i++) want[i]=get(*ab,i); if(ad&&(!ab||aligned(*ab,*ad))) for(int i=0;i<d.n;i++) want[target[i]]=get(*ad,i); else if(ab&&G.type==INDEXEDSTR) for(int i=b.n;i<n;i++) want[i].any=true;
        if(ab&&ab->type==INDEXEDSTR) for(size_t q=0;q<ab->strings.size();q++) CHECK(q<G.strings.size()&&G.strings[q]==ab->strings[q],"string %zu of '%s' changed in the merge",q,esc(G.name).c_str());
        for(int i=0;i<n;i++){ if(want[i].any) continue; MV x=get(G,i); if(G.type==INDEXEDSTR){ for(int q=0;q<G.count;q++) CHECK(x.s[q]==want[i].s[q],"'%s' of particle %d is '%s', expected '%s'",esc(G.name).c_str(),i,esc(x.s[q]).c_str(),esc(want[i].s[q]).c_str()); } else for(int q=0;q<G.count;q++) CHECK(x.v[q]==want[i].v[q],"'%s' of particle %d comp %d is %08x, expected %08x (%s)",esc(G.name).c_str(),i,q,x.v[q],want[i].v[q],i>=b.n?"added":"in base"); } }
    std::vector<Attr> fs=b.fixed; for(auto& a:d.fixed) if(!find(b.fixed,a.name)) fs.push_back(a); CHECK(g.fixed.size()==fs.size(),"%zu fixed attributes, expected %zu",g.fixed.size(),fs.size());
    for(size_t k=0;k<fs.size();k++){ const Attr* ad=find(d.fixed,fs[k].name); const Attr& G=g.fixed[k]; CHECK(G.name==fs[k].name&&G.type==fs[k].type&&G.count==fs[k].count,"fixed attribute %zu",k); MV w=get(ad&&aligned(fs[k],*ad)?*ad:fs[k],0), x=get(G,0); if(G.type==INDEXEDSTR){ for(int q=0;q<G.count;q++) CHECK(x.s[q]==w.s[q],"fixed '%s' comp %d is '%s', expected '%s'",esc(G.name).c_str(),q,esc(x.s[q]).c_str(),esc(w.s[q]).c_str()); } else CHECK(x.v==w.v,"fixed '%s' differs after the merge",esc(G.name).c_str()); }
    c.label(keyed?"keyed":"appended"); if(repl) c.label("particles replaced"); if(app) c.label("particles added"); if(keyed?repl&&app:app>0&&b.n>0) c.nontrivial(hashPS(b)+hashPS(d)+i0+i1);
}
PBT_MAIN("a merge that replaces and adds particles (with identifiers) or appends to a non-empty base (without), every value compared with a reference model", prop)
