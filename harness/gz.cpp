// Compression is transparent (C16).
#include "files.h"
using namespace pm;
static void prop(Ctx& c){
    bool writing=c.chance(1,3);
    if(writing){ static const std::vector<std::string> ex={"bgeo","bhclassic","itbl","atbl","geo","hclassic","pdb","pdb32","pdb64","pda","ptc","ptf","pdc","rib"}; std::string ext=c.pick(ex); GenOpt o=commonOpt(); o.big=c.chance(1,8); o.maxN=20000; if(o.big) o.maxAttrs=3; PS s=genPS(c,o); Holder h(build(s,c.chance(1,8)));
        std::string p=c.path("a."+ext), q=c.path("b."+ext+(c.chance(1,2)?".gz":"")); bool forced=q.substr(q.size()-3)!=".gz"||c.chance(1,3); unlink(p.c_str()); unlink(q.c_str()); writeQ(p,*static_cast<ParticlesData*>(h.p)); writeQ(q,*static_cast<ParticlesData*>(h.p),forced); CHECK(exists(p)&&exists(q),"no .%s file was written",ext.c_str());
        std::string a=readFile(p), b=readFile(q), d; auto norm=[&](std::string x){ if(ext=="rib"){ size_t i=x.find("\"name\" [\""); if(i!=std::string::npos){ size_t j=x.find('"',i+9); x.erase(i,j-i);} } return x; };
        CHECK(!isGz(a),"the plain file is compressed"); CHECK(isGz(b),"the .%s file written %s is not compressed",ext.c_str(),forced?"with compression forced":"with suffix .gz"); CHECK(gzDecode(b,d),"zlib cannot decompress the .%s file",ext.c_str()); CHECK(norm(d)==norm(a),"the compressed .%s file holds %zu bytes, the plain one %zu, or they differ",ext.c_str(),d.size(),a.size());
        if(ext!="rib"){ PS x=readBack(p), y=readBack(q); cmpExact(x,y); }
        unlink(p.c_str()); unlink(q.c_str()); c.label("write "+ext); c.label(forced?"forced":"suffix"); if(a.size()>100000) c.label("large file"); c.note("write %s %s",q.substr(q.rfind('/')+1).c_str(),describe(s).c_str()); if(s.n>=1&&s.attrs.size()>=2) c.nontrivial(hashPS(s)+ext+(char)forced); return; }
    static const std::vector<std::string> only={"bgeo","bhclassic","itbl","atbl","geo","hclassic","pdb","pdb32","pdb64","pda","ptc","ptf","pdc","mc","pts"}; AnyFile f=anyFile(c,only,1,2);
    GzOpt o; o.level=(int)c.range(0,9); static const int st[]={Z_DEFAULT_STRATEGY,Z_HUFFMAN_ONLY,Z_RLE,Z_FIXED,Z_FILTERED}; o.strategy=st[c.draw(5)]; if(c.chance(1,2)){ o.name=c.chance(1,2); o.comment=c.chance(1,3); o.extra=c.chance(1,3); o.hcrc=c.chance(1,3); static const std::vector<int> L={0,1,4,30,250,251,252,253,300,508,512,5000,65531}; o.extraLen=L[c.draw(L.size())]; static const std::vector<int> M={1,2,12,100,255,256,511,512,513,1000,70000}; o.nameLen=M[c.draw(M.size())]; } if(c.chance(1,4)) o.flushEvery=(size_t)c.range(1,5000)+(f.bytes.size()>20000?5000:0);
    std::string p=c.path("a."+f.ext), q=c.path("b."+f.ext+(c.chance(1,2)?".gz":"")); bool plainSuffix=c.chance(1,6); if(plainSuffix) p+=".gz"; writeFile(p,f.bytes); writeFile(q,gzEncode(f.bytes,o));
    c.note("gzip level %d strategy %d%s%s%s%s flush %zu, %zu bytes",o.level,o.strategy,o.name?" name":"",o.comment?" comment":"",o.extra?" extra":"",o.hcrc?" crc":"",o.flushEvery,f.bytes.size());
    PS x=readBack(p), y=readBack(q); cmpExact(x,y); if(!f.own) CHECK(x.n==f.want.n,"%d particles read, %d in the file",x.n,f.want.n);
    std::ostringstream es; Holder h(Partio::readHeaders(q.c_str(),true,es)); CHECK(h.p,"headers of the compressed file cannot be read: %s",es.str().c_str()); CHECK(sig(extractInfo(h.p))==sig(x),"headers of the compressed file differ");
    unlink(p.c_str()); unlink(q.c_str()); c.label("read "+f.kind); if(o.name||o.comment||o.extra||o.hcrc) c.label("optional header fields"); if(o.flushEvery) c.label("flush points"); if(plainSuffix) c.label("plain content under .gz"); if(x.n>=1&&x.attrs.size()>=2) c.nontrivial(hashPS(x)+f.kind+fmt("%d%d%d%d%d%d",o.level,o.strategy,o.name,o.comment,o.extra,o.hcrc));
}
PBT_MAIN("a set of at least one particle and two attributes, written or read both plain and compressed, with contents compared byte by byte or value by value", prop)
