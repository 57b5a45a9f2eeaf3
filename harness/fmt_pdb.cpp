// PDB (Maya particle database) round trip, 32 and 64 bit layouts.
#include "fmt.h"
using namespace pm;
static bool g64;
static void decode(const PS& s,const std::string& b){ Rd r(b); CHECK(r.le32()==670,"file: magic"); CHECK(r.le16()==1,"file: byte order mark"); r.le16(); CHECK(asF(r.le32())==1.0f,"file: version"); r.le32(); CHECK((int)r.le32()==s.n,"file: particle count"); CHECK(r.le32()==s.attrs.size(),"file: channel count"); r.bytes(32+(g64?8:4));
    for(auto& a:s.attrs){ CHECK(r.u8()==0&&r.u8()==0&&r.le16()==1&&r.u8()==0&&r.u8()==0,"file: channel introduction of '%s'",esc(a.name).c_str()); r.bytes(g64?8:4); uint32_t want= a.type==VECTOR?1:a.type==FLOAT?2:3; CHECK(r.le32()==want,"file: type of '%s'",esc(a.name).c_str()); r.le32(); CHECK(r.le32()==0,"file: first active particle"); CHECK((int)r.le32()==s.n-1,"file: last active particle of '%s'",esc(a.name).c_str()); r.bytes(g64? 56-24 : 36-20); std::string nm; for(;;){ uint8_t ch=r.u8(); CHECK(r.ok,"file: truncated"); if(!ch) break; nm+=(char)ch; } CHECK(nm==a.name,"file: channel '%s', expected '%s'",esc(nm).c_str(),esc(a.name).c_str()); CHECK(r.le32()==want,"file: data type"); CHECK((int)r.le32()==a.count*4,"file: data size of '%s'",esc(a.name).c_str()); CHECK((int)r.le32()==s.n,"file: block size"); CHECK(r.le32()==1,"file: number of blocks"); r.bytes(g64?8:4);
        for(size_t i=0;i<a.data.size();i++){ uint32_t v=r.le32(); CHECK(v==a.data[i],"file: '%s' value %zu is %08x, expected %08x",esc(a.name).c_str(),i,v,a.data[i]); } }
    CHECK(r.ok&&r.end(),"file: length"); }
static void prop(Ctx& c){
    Fmt f; f.opt.nameStyle=NAME_ANY; f.opt.maxCount=20; f.opt.dupStrings=true; f.opt.wide=true; f.opt.requirePosition=c.chance(7,8); f.decode=decode;
    size_t w=c.draw(3); f.exts={w==0?"pdb":w==1?"pdb32":"pdb64"}; g64=w==2;
    f.expect=[](const PS& s){ PS e=s; for(auto& a:e.attrs) if(a.type==INDEXEDSTR){ a.type=INT; a.strings.clear(); } return e; }; f.nontrivial=[](const PS& s){ return s.n>=1&&s.attrs.size()>=1; };
    roundtrip(c,f);
    if(w!=0 && c.chance(1,3)){ // the width is detected when the name does not say it
        GenOpt o=f.opt; PS s=genPS(c,o); Holder h(build(s)); std::string a=c.path(w==1?"x.pdb32":"x.pdb64"), b=c.path("x.pdb"), err; writeQ(a,*static_cast<ParticlesData*>(h.p)); CHECK(exists(a),"no file written"); rename(a.c_str(),b.c_str()); if(s.attrs.empty()) return;
        Holder r(readQ(b,&err)); CHECK(r.p,"%s content in a .pdb file: not read: %s",w==1?"32 bit":"64 bit",err.c_str()); try { compare(f,f.expect(s),extract(static_cast<ParticlesData*>(r.p))); } catch(Failure& e){ fail("%s content in a .pdb file: %s",w==1?"32 bit":"64 bit",e.msg.c_str()); } c.label("width detected"); unlink(b.c_str()); }
}
PBT_MAIN("a set with at least one particle and one attribute, written, decoded independently and read back", prop)
