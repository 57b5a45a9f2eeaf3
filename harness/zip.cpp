// Zip archives (C30).
#include "model.h"
#include <io/ZIP.h>
#include <memory>
using namespace pm; using namespace Partio;
static std::string genContent(Ctx& c){ size_t n; switch(c.weighted({3,4,3,2,1})){ case 0: n=c.draw(4); break; case 1: n=c.draw(600); break; case 2: { static const std::vector<int> e={503,504,507,508,509,511,512,513,1015,1016,1017,1024,4096}; n=c.pick(e); break; } case 3: n=c.draw(20000); break; default: n=c.draw(200000); if(c.chance(1,4)) n=250000+c.draw(400000); }
    std::string s(n,0); Rng g(c.draw(1ull<<32)); switch(c.draw(4)){ case 0: for(auto& x:s) x=(char)g.next(); break; case 1: for(auto& x:s) x="abcab "[g.next()%6]; break; case 2: std::fill(s.begin(),s.end(),'x'); break; default: for(size_t i=0;i<n;i++) s[i]=(char)(i*7>>3); } if(n>30&&c.chance(1,8)) s.replace(n/2,4,"PK\5\6",4); if(n>30&&c.chance(1,8)) s.replace(n/3,4,"PK\1\2",4); return s; }
static std::string genFileName(Ctx& c){ std::string s=c.chance(1,3)? fmt("dir%d/",(int)c.draw(3)) : ""; return s+(c.chance(1,10)? std::string((size_t)c.range(200,3000),'n') : genStr(c,NAME_ANY,60)); }
struct Member { std::string name, data; };
static bool rawInflate(const std::string& d,std::string& out){ z_stream z; memset(&z,0,sizeof z); inflateInit2(&z,-15); z.next_in=(Bytef*)d.data(); z.avail_in=d.size(); out.clear(); char b[65536]; int r; do { z.next_out=(Bytef*)b; z.avail_out=sizeof b; r=inflate(&z,Z_NO_FLUSH); out.append(b,sizeof b-z.avail_out); } while(r==Z_OK); bool ok=r==Z_STREAM_END&&z.avail_in==0; inflateEnd(&z); return ok; }
static std::string rawDeflate(const std::string& d,int level){ z_stream z; memset(&z,0,sizeof z); deflateInit2(&z,level,Z_DEFLATED,-15,8,0); std::string o(deflateBound(&z,d.size())+16,0); z.next_in=(Bytef*)d.data(); z.avail_in=d.size(); z.next_out=(Bytef*)&o[0]; z.avail_out=o.size(); deflate(&z,Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o; }
// the archive as APPNOTE describes it
static void decode(const std::string& b,const std::vector<Member>& m){ CHECK(b.size()>=22&&b.substr(b.size()-22,4)==std::string("PK\5\6",4),"no end of central directory"); std::string e=b.substr(b.size()-22); Rd r(e); r.le32(); CHECK(r.le16()==0&&r.le16()==0,"disk numbers"); CHECK(r.le16()==m.size()&&r.le16()==m.size(),"number of members"); uint32_t csz=r.le32(), coff=r.le32(); CHECK((size_t)coff+csz+22==b.size(),"central directory of %u bytes at %u in %zu bytes",csz,coff,b.size()); Rd d(b); d.p=coff; size_t at=0;
    for(auto& x:m){ CHECK(d.le32()==0x02014b50,"central header of '%s'",esc(x.name).c_str()); d.le16(); d.le16(); d.le16(); int method=d.le16(); d.le32(); uint32_t crc=d.le32(), cs=d.le32(), us=d.le32(); size_t nl=d.le16(), el=d.le16(), cl=d.le16(); CHECK(d.le16()==0,"disk number of '%s'",esc(x.name).c_str()); d.le16(); d.le32(); uint32_t off=d.le32(); CHECK(nl==x.name.size()&&b.substr(d.p,nl)==x.name,"name in the central header"); d.p+=nl+el+cl; CHECK(off==at,"offset of '%s'",esc(x.name).c_str());
        Rd l(b); l.p=off; CHECK(l.le32()==0x04034b50,"local header of '%s'",esc(x.name).c_str()); l.le16(); l.le16(); CHECK(l.le16()==method&&method==8,"method"); l.le32(); CHECK(l.le32()==crc&&l.le32()==cs&&l.le32()==us,"the two headers of '%s' differ",esc(x.name).c_str()); CHECK(l.le16()==nl,"name"); size_t e2=l.le16(); CHECK(b.substr(l.p,nl)==x.name,"name in the local header"); l.p+=nl+e2; std::string u; CHECK(rawInflate(b.substr(l.p,cs),u)&&u==x.data,"contents of '%s'",esc(x.name).c_str()); CHECK(us==x.data.size()&&crc==crc32(0,(const Bytef*)x.data.data(),x.data.size()),"size or checksum of '%s'",esc(x.name).c_str()); at=l.p+cs; }
    CHECK(at==coff,"something lies between the members and the directory"); }
static std::string drain(Ctx& c,std::istream& s){ std::string r; int how=(int)c.draw(3); if(how==0){ char ch; while(s.get(ch)) r+=ch; } else { size_t k= how==1?(size_t)c.range(1,700):100000; std::vector<char> b(k); while(s.read(b.data(),k),s.gcount()>0) r.append(b.data(),s.gcount()); } return r; }
static void prop(Ctx& c){
    std::vector<Member> m; std::set<std::string> used; int k=(int)c.range(0,c.chance(1,10)?60:6); if(c.chance(1,150)) k=(int)c.range(250,700); for(int i=0;i<k;i++){ Member x; x.name=genFileName(c); while(!used.insert(x.name).second) x.name+="_"; x.data=genContent(c); if(k>10&&x.data.size()>3000) x.data.resize(3000); if(k>100) x.data.resize(std::min(x.data.size(),(size_t)40)); m.push_back(x); }
    std::string f=c.path("a.zip"); bool own=c.chance(1,2); size_t tot=0; for(auto& x:m) tot+=x.data.size(); bool nested=false;
    if(own){ unlink(f.c_str()); { ZipFileWriter w(f); for(auto& x:m){ std::unique_ptr<std::ostream> o(w.Add_File(x.name)); size_t at=0; int how=(int)c.draw(3); size_t step= how==0?x.data.size()+1: how==1?(size_t)c.range(1,1000):1; if(x.data.size()>5000) step=std::max(step,(size_t)100); while(at<x.data.size()){ size_t l=std::min(step,x.data.size()-at); if(l==1) o->put(x.data[at]); else o->write(x.data.data()+at,l); at+=l; if(c.chance(1,100)) o->flush(); } CHECK(o->good(),"writing a member fails"); } }
        decode(readFile(f),m); }
    else { LE o; std::vector<uint32_t> off; LE cd; bool comment=c.chance(1,4); for(auto& x:m){ int method=c.chance(1,2)?8:0; std::string body=method?rawDeflate(x.data,(int)c.range(0,9)):x.data; size_t ex=c.chance(1,4)?(size_t)c.range(1,c.chance(1,8)?3000:40):0; bool later=c.chance(1,5); if(later) c.label("sizes behind the data"); uint32_t crc=crc32(0,(const Bytef*)x.data.data(),x.data.size()); if(body.find(std::string("PK\5\6",4))!=std::string::npos) nested=true; off.push_back((uint32_t)o.s.size());
            o.u32(0x04034b50); o.u16(20); o.u16(later?8:0); o.u16(method); o.u16(0x6000); o.u16(0x5000); o.u32(later?0:crc); o.u32(later?0:(uint32_t)body.size()); o.u32(later?0:(uint32_t)x.data.size()); o.u16((uint16_t)x.name.size()); o.u16((uint16_t)ex); o.raw(x.name); o.raw(std::string(ex,'e')); o.raw(body); if(later){ if(c.chance(2,3)) o.u32(0x08074b50); o.u32(crc); o.u32((uint32_t)body.size()); o.u32((uint32_t)x.data.size()); }
            size_t ex2=c.chance(1,4)?(size_t)c.range(1,40):0, cm=c.chance(1,4)?(size_t)c.range(1,c.chance(1,8)?3000:40):0; cd.u32(0x02014b50); cd.u16(0x031e); cd.u16(20); cd.u16(later?8:0); cd.u16(method); cd.u16(0x6000); cd.u16(0x5000); cd.u32(crc); cd.u32((uint32_t)body.size()); cd.u32((uint32_t)x.data.size()); cd.u16((uint16_t)x.name.size()); cd.u16((uint16_t)ex2); cd.u16((uint16_t)cm); cd.u16(0); cd.u16(1); cd.u32(0x81a40000); cd.u32(off.back()); cd.raw(x.name); cd.raw(std::string(ex2,'f')); cd.raw(std::string(cm,'g')); }
        uint32_t at=(uint32_t)o.s.size(); o.raw(cd.s); o.u32(0x06054b50); o.u16(0); o.u16(0); o.u16((uint16_t)m.size()); o.u16((uint16_t)m.size()); o.u32((uint32_t)cd.s.size()); o.u32(at); size_t cl=comment?(size_t)c.range(1,c.chance(1,4)?65535:300):0; o.u16((uint16_t)cl); o.raw(std::string(cl,'h')); writeFile(f,o.s); if(comment) c.label("archive comment"); }
    c.note("%s archive, %d members, %zu bytes%s",own?"own":"foreign",k,tot,nested?", signatures inside":"");
    { ZipFileReader r(f); std::vector<std::string> l={"junk"}; r.Get_File_List(l); CHECK(l.size()==m.size(),"%zu members listed, %zu in the archive",l.size(),m.size()); CHECK(std::set<std::string>(l.begin(),l.end())==used,"other names are listed");
      std::vector<size_t> order; for(size_t i=0;i<m.size();i++) order.push_back(i); for(size_t i=order.size();i>1;i--) std::swap(order[i-1],order[c.draw(i)]); if(m.size()&&c.chance(1,2)) order.push_back(c.draw(m.size()));
      for(size_t i:order){ std::unique_ptr<std::istream> s(r.Get_File(m[i].name)); CHECK(s.get(),"member '%s' is not found",esc(m[i].name).c_str()); if(c.chance(1,10)&&m[i].data.size()>10){ char b[5]; s->read(b,5); CHECK(m[i].data.compare(0,5,b,5)==0,"first bytes of '%s'",esc(m[i].name).c_str()); continue; } std::string g=drain(c,*s); CHECK(g.size()==m[i].data.size(),"member '%s' has %zu bytes, %zu read",esc(m[i].name).c_str(),m[i].data.size(),g.size()); CHECK(g==m[i].data,"member '%s' reads differently",esc(m[i].name).c_str()); }
      std::string no="not there"; while(used.count(no)) no+="!"; std::unique_ptr<std::istream> s(r.Get_File(no)); CHECK(!s,"a member that is not there is found"); }
    unlink(f.c_str()); c.label(own?"own archive":"foreign archive"); c.label(k==0?"empty archive":k<10?"some members":"many members"); if(nested) c.label("signature within a member"); if(m.size()>=2&&tot>0){ std::string h; for(auto& x:m) h+=x.name+std::to_string(crc32(0,(const Bytef*)x.data.data(),x.data.size())); c.nontrivial(h+(own?"o":"f")); }
}
PBT_MAIN("an archive of at least two members with any contents, told apart by names and contents", prop)
