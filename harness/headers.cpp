// readHeaders() against read() (C15).
#include "files.h"
using namespace pm;
static void prop(Ctx& c){
    AnyFile f=anyFile(c); int comp= f.gz? (int)c.weighted({3,2,1}) : 0; // plain, gzip with suffix, gzip without suffix
    std::string name=c.path("h."+f.ext+(comp==1?".gz":"")); writeFile(name,comp?gzEncode(f.bytes):f.bytes); if(comp==1&&c.chance(1,3)){ writeFile(name,f.bytes); comp=3; } // suffix but plain content
    std::ostringstream es; bool first=c.chance(1,2); Holder h,r; auto hd=[&]{ h.p=Partio::readHeaders(name.c_str(),true,es); }; auto rd=[&]{ r.p=Partio::read(name.c_str(),true,es); };
    if(first){ hd(); rd(); } else { rd(); hd(); }
    CHECK(r.p,"%s cannot be read: %s",f.kind.c_str(),es.str().c_str()); CHECK(h.p,"headers of %s cannot be read: %s",f.kind.c_str(),es.str().c_str());
    PS a=extractInfo(h.p), b=extractInfo(r.p); CHECK(a.n==b.n,"readHeaders reports %d particles, read %d",a.n,b.n); CHECK(sig(a)==sig(b),"readHeaders reports [%s][%s], read [%s][%s]",schema(a.attrs).c_str(),schema(a.fixed).c_str(),schema(b.attrs).c_str(),schema(b.fixed).c_str());
    for(auto& x:b.attrs){ ParticleAttribute p,q; CHECK(h.p->attributeInfo(x.name.c_str(),p)&&r.p->attributeInfo(x.name.c_str(),q)&&p.attributeIndex==q.attributeIndex,"lookup of '%s' by name",esc(x.name).c_str()); }
    ParticleAttribute no; CHECK(!h.p->attributeInfo("no such attribute",no)&&!h.p->attributeInfo((int)b.attrs.size(),no)&&!h.p->attributeInfo(-1,no),"the headers give an attribute that is not there");
    if(f.own) CHECK(a.n==f.want.n,"readHeaders reports %d particles, %d were written",a.n,f.want.n);
    unlink(name.c_str()); c.label(f.kind); c.label(comp==0?"plain":comp==1?"gzip":comp==2?"gzip without suffix":"plain with suffix"); if(b.n>=1&&b.attrs.size()>=2) c.nontrivial(hashPS(f.want)+f.kind);
}
PBT_MAIN("a file with at least one particle and two attributes, headers and full read compared attribute by attribute", prop)
