// Writing is a pure function of the set (C27): same bytes every time, from any layout and any
// history, over any old file, with the set left as it was; what was read can be written and
// read again without changing any further.
#include "files.h"
using namespace pm;
static std::string norm(const std::string& ext,std::string x){ if(ext=="rib"){ size_t i=x.find("\"name\" [\""); if(i!=std::string::npos){ size_t j=x.find('"',i+9); x.erase(i,j-i);} } return x; }
// the same set by another route: particles one at a time or in portions, attributes in between, values written in another order and more than once
static ParticlesDataMutable* buildOther(Ctx& c,const PS& s,bool inter){
    ParticlesDataMutable* p=inter?Partio::createInterleave():Partio::create(); Rng g(c.draw(1ull<<32)); int n=0; std::vector<ParticleAttribute> h; size_t na=0; 
    while(n<s.n||na<s.attrs.size()){ bool attr= na<s.attrs.size() && (n>=s.n || g.next()%3==0);
        if(attr){ auto& a=s.attrs[na++]; h.push_back(p->addAttribute(a.name.c_str(),a.type,a.count)); auto& H=h.back(); fillTable(a.strings,[&](const char* x){ return p->registerIndexedStr(H,x); },[&](const char* x){ return p->lookupIndexedStr(H,x); },[&](int t,const char* x){ p->setIndexedStr(H,t,x); }); if(a.strings.size()) p->registerIndexedStr(h.back(),a.strings[0].c_str()); }
        else if(g.next()%2||s.n-n>2000){ int k=1+(int)(g.next()%(uint64_t)(s.n-n)); p->addParticles(k); n+=k; } else { p->addParticle(); n++; } }
    for(int pass=0;pass<2;pass++) for(int i=(int)s.attrs.size()-1;i>=0;i--){ auto& a=s.attrs[i]; if(!a.count) continue; std::vector<uint32_t> junk(a.count,0x3f800000u+pass); for(int k=s.n-1;k>=0;k--) memcpy(p->dataWrite<void>(h[i],k),pass?&a.data[(size_t)k*a.count]:junk.data(),4*a.count); }
    for(auto& a:s.fixed){ FixedAttribute f=p->addFixedAttribute(a.name.c_str(),a.type,a.count); fillTable(a.strings,[&](const char* x){ return p->registerFixedIndexedStr(f,x); },[&](const char* x){ return p->lookupFixedIndexedStr(f,x); },[&](int t,const char* x){ p->setFixedIndexedStr(f,t,x); }); if(a.count) memcpy(p->fixedDataWrite<void>(f),a.data.data(),4*a.count); }
    return p; }
static void prop(Ctx& c){
    if(c.chance(2,5)){ // what was read is written the same from then on
        static const std::vector<std::string> only={"bgeo","bhclassic","itbl","atbl","geo","hclassic","pdb","pdb32","pdb64","pda","ptc","ptf","pdc","prt","bin"}; AnyFile f=anyFile(c,only,1,3); if(f.ext=="prt"&&(f.want.n==0||f.want.attrs.empty())) throw Discard{"empty PRT"};
        std::string to=c.chance(1,2)?f.ext:c.pick(only); std::string a=c.path("p."+f.ext); writeFile(a,f.bytes); std::string err; Holder r(readQ(a,&err)); CHECK(r.p,"%s cannot be read: %s",f.kind.c_str(),err.c_str()); PS s1=extract(static_cast<ParticlesData*>(r.p));
        c.note("%s to %s %s",f.kind.c_str(),to.c_str(),describe(s1).c_str()); bool pos=false; if(const Attr* x=find(s1.attrs,"position")) pos=x->type==VECTOR; if(!pos&&(to=="geo"||to=="hclassic"||to=="ptc"||to=="ptf"||to[1]=='h'||to=="bgeo"||to=="itbl"||to=="atbl")){ if(to==f.ext) throw Discard{"no position"}; to="pdb"; }
        if(to=="prt"){ bool num=false; for(auto& x:s1.attrs) num|=x.type!=INDEXEDSTR; if(!num||s1.n==0) to="bin"; for(auto& x:s1.attrs) if(x.name.size()>31) to="bin"; std::set<std::string> fold; for(auto& x:s1.attrs){ std::string q=x.name; q[0]=(char)tolower(q[0]); if(!fold.insert(q).second) to="bin"; } }
        if(to=="geo"||to=="hclassic"||to=="pda"){ for(auto* v:{&s1.attrs,&s1.fixed}) for(auto& x:*v) if(isFloatT(x.type)) for(auto d:x.data) if(!std::isfinite(asF(d))) throw Discard{"values text cannot hold"}; }
        std::string b=c.path("q."+to), d=c.path("s."+to); unlink(b.c_str()); unlink(d.c_str()); writeQ(b,*static_cast<ParticlesData*>(r.p),false,&err); CHECK(exists(b),"no .%s file: %s",to.c_str(),err.c_str()); { PS again=extract(static_cast<ParticlesData*>(r.p)); cmpExact(s1,again); }
        Holder r2(readQ(b,&err)); CHECK(r2.p,"the .%s file written from %s cannot be read: %s",to.c_str(),f.kind.c_str(),err.c_str()); PS s2=extract(static_cast<ParticlesData*>(r2.p)); CHECK(s2.n==s1.n,"%d particles written, %d read",s1.n,s2.n);
        writeQ(d,*static_cast<ParticlesData*>(r2.p),false,&err); CHECK(exists(d),"no second .%s file: %s",to.c_str(),err.c_str());
        PS s3=readBack(d);
        if(to=="ptc"||to=="ptf") cmpExact(s2,s3,true,[](const Attr& a,uint32_t x,uint32_t y){ return a.name=="normal"? std::fabs(asF(x)-asF(y))<2e-3||x==y : x==y; }); else if(to=="prt") cmpUnordered(s2,s3); else { cmpExact(s2,s3); if(to!="geo"&&to!="hclassic") { std::string x=readFile(b),y=readFile(d); if(to==f.ext||true){ Holder r3(readQ(d)); std::string e=c.path("t."+to); writeQ(e,*static_cast<ParticlesData*>(r3.p)); CHECK(readFile(e)==y,"the .%s file is not the same the third time",to.c_str()); unlink(e.c_str()); } } }
        for(auto& p:{a,b,d}) unlink(p.c_str()); c.label("read "+f.ext); c.label("rewritten as "+to); if(to!=f.ext) c.label("converted"); if(s1.n>=1&&s1.attrs.size()>=2) c.nontrivial(hashPS(s1)+to); return; }
    static const std::vector<std::string> ex={"bgeo","geo","pdb32","pdb64","pdb","pda","ptc","pdc","prt","bin","rib","bhclassic","ptf"}; std::string ext=c.pick(ex); GenOpt o=commonOpt(); if(ext=="prt") o.minN=1; bool anyFloat=ext!="geo"&&ext!="pda"&&ext!="rib"; if(anyFloat) o.floatCls=0; o.big=c.chance(1,30); if(o.big) o.maxN=20000; PS s=genPS(c,o); bool gz=gzFormat(ext)&&c.chance(1,4);
    bool i1=c.chance(1,4), i2=c.chance(1,2); Holder p(build(s,i1)), q(buildOther(c,s,i2)); if(ext=="ptc"&&anyFloat) (void)0;
    c.note("%s%s %s%s %s",ext.c_str(),gz?" gz":"",i1?"interleaved":"separate",i2?" and interleaved":" and separate",describe(s).c_str());
    { PS x=extract(static_cast<ParticlesData*>(q.p)); cmpExact(s,x); }
    std::string a=c.path("a."+ext), b=c.path("b."+ext); unlink(a.c_str()); unlink(b.c_str()); bool old=c.chance(1,2); if(old) writeFile(b,std::string((size_t)c.range(1,200000),'z'));
    auto& P=*static_cast<ParticlesData*>(p.p); auto& Q=*static_cast<ParticlesData*>(q.p); if(!i1&&c.chance(1,6)&&find(s.attrs,"position")) { bool fin=true; for(auto d:find(s.attrs,"position")->data) fin&=std::isfinite(asF(d)); if(fin){ static_cast<ParticlesDataMutable*>(p.p)->sort(); c.label("sorted before"); } }
    writeQ(a,P,gz); CHECK(exists(a),"no .%s file was written",ext.c_str()); std::string A=norm(ext,readFile(a)); { PS x=extract(&P); cmpExact(s,x); }
    int other=(int)c.draw(4); if(other==3){ PS t=genPS(c,o); Holder u(build(t,c.chance(1,4))); std::string e=c.path("z."+ext); writeQ(e,*static_cast<ParticlesData*>(u.p),gz); unlink(e.c_str()); c.label("another set in between"); } if(other==1){ std::string e=c.path("x."+c.pick(ex)); writeQ(e,P); unlink(e.c_str()); } if(other==2){ Holder cl(Partio::clone(P,true)); std::string e=c.path("y."+ext); writeQ(e,*static_cast<ParticlesData*>(cl.p),gz); CHECK(norm(ext,readFile(e))==A,"a clone gives another .%s file",ext.c_str()); unlink(e.c_str()); }
    writeQ(b,P,gz); std::string B=norm(ext,readFile(b)); if(gz&&ext=="rib"){ std::string u,v; CHECK(gzDecode(readFile(a),u)&&gzDecode(readFile(b),v),"zlib cannot decompress the file"); A=norm(ext,u); B=norm(ext,v); }
    auto cmp=[&](const std::string& x,const char* what){ if(x!=A){ size_t i=0; while(i<x.size()&&i<A.size()&&x[i]==A[i]) i++; CHECK(false,"the .%s file %s differs: %zu and %zu bytes, first difference at %zu",ext.c_str(),what,A.size(),x.size(),i); } };
    cmp(B,old?"written over an old file":"written again"); writeQ(b,Q,gz); std::string C=readFile(b); if(gz&&ext=="rib"){ std::string u; gzDecode(C,u); C=u; } cmp(norm(ext,C),"of the same set made by another route"); { PS x=extract(&Q); cmpExact(s,x); }
    unlink(a.c_str()); unlink(b.c_str()); c.label("written "+ext); if(old) c.label("over an old file"); if(i1!=i2) c.label("both layouts"); if(s.n>=1&&s.attrs.size()>=2) c.nontrivial(hashPS(s)+ext+(char)(gz+2*i1+4*i2));
}
PBT_MAIN("a set of at least one particle and two attributes, written at least twice (by two routes, or after reading) with files compared byte by byte or value by value", prop)
