// Truncated and damaged files (C24).
//  truncated files: refused with a message, or (never) mistaken for something else
//  damaged files: no crash, no hang, no leak; what is read can be walked; null comes with a message
#include "files.h"
#include <sanitizer/allocator_interface.h>
using namespace pm;
static int openFds(){ int n=0; DIR* D=opendir("/proc/self/fd"); while(readdir(D)) n++; closedir(D); return n; }
static void walkAll(ParticlesDataMutable* p){ int n=p->numParticles(); CHECK(n>=0,"a set with %d particles",n); for(int i=0;i<p->numAttributes();i++){ ParticleAttribute h; CHECK(p->attributeInfo(i,h),"attribute %d of %d",i,p->numAttributes()); CHECK(h.count>=0,"attribute '%s' of size %d",esc(h.name).c_str(),h.count); for(int k: {0,n/2,n-1}) if(k>=0&&k<n&&h.count){ const volatile uint32_t* d=(const volatile uint32_t*)p->data<void>(h,k); uint32_t s=0; for(int j=0;j<h.count;j++) s+=d[j]; (void)s; } if(h.type==INDEXEDSTR) for(auto& s:p->indexedStrs(h)) CHECK(s.size()<(1u<<30),"string"); } for(int i=0;i<p->numFixedAttributes();i++){ FixedAttribute h; CHECK(p->fixedAttributeInfo(i,h),"fixed attribute %d",i); const volatile uint32_t* d=(const volatile uint32_t*)p->fixedData<void>(h); uint32_t s=0; for(int j=0;j<h.count;j++) s+=d[j]; (void)s; } }
struct R { bool ok=false; PS s; std::string err; };
static R tryRead(const std::string& name,bool full){ R r; std::ostringstream es; ParticlesDataMutable* p=Partio::read(name.c_str(),true,es); r.err=es.str(); r.ok=p!=nullptr; if(p){ Holder h(p); if(full) r.s=extract(p); else walkAll(p); } return r; }
static R tryHead(const std::string& name){ R r; std::ostringstream es; ParticlesInfo* p=Partio::readHeaders(name.c_str(),true,es); r.err=es.str(); r.ok=p!=nullptr; if(p){ Holder h(p); if(p->numParticles()<0) fail("headers with %d particles",p->numParticles()); r.s=extractInfo(p); } return r; }
static bool sameButLast(const PS& a,const PS& b){ // PDA: a cut inside the last number leaves another number there
    if(a.n!=b.n||a.attrs.size()!=b.attrs.size()) return false; size_t diff=0, last=0; for(size_t k=0;k<a.attrs.size();k++) for(size_t i=0;i<a.attrs[k].data.size();i++) if(a.attrs[k].data[i]!=b.attrs[k].data[i]){ diff++; last= (k+1==a.attrs.size()&&i+1==a.attrs[k].data.size()); } return diff==0||(diff==1&&last); }
// a PRT file whose compressed part ends early in good order: the decompressed data cut, compressed again
static bool cutInside(Ctx& c,const std::string& b,std::string& out){
    auto u32=[&](size_t i){ uint32_t v=0; if(i+4<=b.size()) memcpy(&v,&b[i],4); return v; }; if(b.size()<72) return false;
    size_t h=std::max<uint32_t>(u32(8),56), at=h+12+(size_t)u32(h+4)*std::max<uint32_t>(u32(h+8),44); if(at>=b.size()) return false;
    z_stream z; memset(&z,0,sizeof z); if(inflateInit(&z)!=Z_OK) return false; std::string d; char buf[65536]; z.next_in=(Bytef*)&b[at]; z.avail_in=(uInt)(b.size()-at); int r=Z_OK; while(r==Z_OK){ z.next_out=(Bytef*)buf; z.avail_out=sizeof buf; r=inflate(&z,Z_NO_FLUSH); d.append(buf,sizeof buf-z.avail_out); } inflateEnd(&z); if(r!=Z_STREAM_END||d.empty()) return false;
    d.resize(c.chance(1,2)? c.draw(d.size()) : d.size()-1-c.draw(std::min<size_t>(d.size(),20))); uLongf n=compressBound(d.size()); std::string e(n,0); if(compress((Bytef*)&e[0],&n,(const Bytef*)d.data(),d.size())!=Z_OK) return false; e.resize(n); out=b.substr(0,at)+e; return true; }
static void truncated(Ctx& c){
    AnyFile f=anyFile(c); bool gz=f.gz&&c.chance(1,4); std::string raw=gz?gzEncode(f.bytes):f.bytes; std::string name=c.path("t."+f.ext+(gz&&c.chance(1,2)?".gz":"")); writeFile(name,raw); PS whole=readBack(name); if(raw.size()<2) return;
    size_t cuts= f.bytes.size()>100000?2:8; bool refused=false; for(size_t t=0;t<cuts;t++){ size_t cut; switch(c.draw(4)){ case 0: cut=c.draw(raw.size()); break; case 1: cut=raw.size()-1-c.draw(std::min<size_t>(raw.size(),40)); break; case 2: cut=c.draw(std::min<size_t>(raw.size(),400)); break; default: cut=raw.size()*c.draw(16)/16; if(cut>=raw.size()) cut=raw.size()-1; }
        std::string part=raw.substr(0,cut); if(f.ext=="prt"&&c.chance(1,2)&&cutInside(c,raw,part)){ cut=part.size(); c.label("cut inside the compressed part"); }
        writeFile(name,part); R r=tryRead(name,true); if(!r.ok){ CHECK(!r.err.empty(),"%s cut at %zu of %zu is refused without a message",f.kind.c_str(),cut,raw.size()); refused=true; c.label("cut and refused"); }
        else { c.label("cut and still read"); if(f.ext=="pts"){ CHECK(r.s.n<=whole.n+1/*a cut can make a skipped line readable*/,"%s cut at %zu of %zu has more particles",f.kind.c_str(),cut,raw.size()); } 
            else if(f.ext=="pda") CHECK(sameButLast(whole,r.s),"%s cut at %zu of %zu%s is read as something else: %s instead of %s",f.kind.c_str(),cut,raw.size(),gz?" (gzip)":"",describe(r.s).c_str(),describe(whole).c_str());
            else try { cmpExact(whole,r.s); } catch(Failure& e){ fail("%s cut at %zu of %zu%s is read as something else: %s",f.kind.c_str(),cut,raw.size(),gz?" (gzip)":"",e.msg.c_str()); } }
        R h=tryHead(name); if(!h.ok) CHECK(!h.err.empty(),"headers of %s cut at %zu of %zu are refused without a message",f.kind.c_str(),cut,raw.size()); else if(f.ext!="pts"&&f.ext!="pda") CHECK(h.s.n==whole.n,"headers of %s cut at %zu of %zu report %d particles instead of %d",f.kind.c_str(),cut,raw.size(),h.s.n,whole.n); }
    unlink(name.c_str()); c.label("truncated "+f.kind); if(refused&&whole.n>=1) c.nontrivial(hashPS(whole)+f.kind+fmt("%zu",raw.size()));
}
static void damaged(Ctx& c){
    AnyFile f=anyFile(c); std::string b=f.bytes; int ops=(int)c.range(1,c.chance(1,4)?12:3); static const std::vector<uint32_t> vals={0,1,2,0x7fffffff,0x80000000,0xffffffff,0xfffffffe,0x10000,0xffff,100,0x01000000,0x40000000,0x00ffffff}; std::string what;
    for(int i=0;i<ops&&!b.empty();i++){ size_t at= c.chance(2,3)? c.draw(std::min<size_t>(b.size(),300)) : c.draw(b.size());
        switch(c.draw(11)){ case 8: { static const std::vector<uint64_t> W={0,1,~0ull,1ull<<32,1ull<<63,(1ull<<63)-1,1ull<<61,0x7ff8000000000000ull,0x7ff0000000000000ull,0xfff0000000000000ull,0xbff0000000000000ull,0x41dfffffffc00000ull,0x41e0000000000000ull,0xc1e0000000000000ull,0x3fe0000000000000ull,0x43f0000000000000ull,0x7e37e43c8800759cull}; uint64_t v=c.pick(W); bool big=c.chance(1,2); if(c.chance(3,4)) at&=~(size_t)3; for(size_t k=0;k<8&&at+k<b.size();k++) b[at+k]=(char)(v>>(big?56-8*k:8*k)); break; }
            case 9: { bool big=c.chance(1,2); at&=~(size_t)(c.chance(2,3)?3:0); uint32_t v=0; for(size_t k=0;k<4&&at+k<b.size();k++) v|=(uint32_t)(unsigned char)b[at+k]<<(big?24-8*k:8*k); static const std::vector<int32_t> D={1,-1,2,-2,16,256,65536,-65536,1<<24}; v= c.chance(1,6)? 0u-v : c.chance(1,6)? v*2 : v+(uint32_t)c.pick(D); for(size_t k=0;k<4&&at+k<b.size();k++) b[at+k]=(char)(v>>(big?24-8*k:8*k)); break; }
            case 10: { auto sp=[&](size_t i){ return isspace((unsigned char)b[i])!=0; }; size_t e=at; while(e<b.size()&&!sp(e)&&e-at<40) e++; while(at>0&&!sp(at-1)&&e-at<60) at--; static const std::vector<std::string> w={"-1","0","1","2147483647","2147483648","-2147483648","4294967296","1e999","-0","nan","3.5","x","\"",""}; b.replace(at,e-at,c.pick(w)); break; }
            case 0: b[at]=(char)c.draw(256); break; case 1: b[at]^=(char)(1<<c.draw(8)); break; case 2: { uint32_t v=vals[c.draw(vals.size())]; bool big=c.chance(1,2); at&=~(size_t)(c.chance(1,2)?3:0); for(size_t k=0;k<4&&at+k<b.size();k++) b[at+k]=(char)(v>>(big?24-8*k:8*k)); break; }
            case 3: { size_t n=std::min<size_t>(b.size()-at,c.range(1,40)); b.erase(at,n); break; } case 4: { size_t n=std::min<size_t>(b.size()-at,c.range(1,40)); b.insert(c.draw(b.size()+1),b.substr(at,n)); break; } case 5: b.resize(at); break; case 6: { std::string j; int n=(int)c.range(1,12); for(int k=0;k<n;k++) j+=(char)c.draw(256); b.insert(at,j); break; }
            default: { static const std::vector<std::string> w={"-1","0","99999999","-99999999999999999999","1e999","nan","\"","(",")","\n"," ","\\","DATA","BEGIN","TYPES","PointAttrib"}; b.insert(at,c.pick(w)); } } }
    if(c.chance(1,30)){ b.clear(); int n=(int)c.range(0,200); for(int i=0;i<n;i++) b+=(char)c.draw(256); }
    bool gz=f.gz&&c.chance(1,4), gzDamage=gz&&c.chance(1,2); std::string raw=b; if(gz){ raw=gzEncode(gzDamage?f.bytes:b); if(gzDamage&&!raw.empty()) for(int i=0;i<ops;i++){ size_t at=c.chance(1,2)?c.draw(std::min<size_t>(raw.size(),20)):c.draw(raw.size()); if(c.chance(1,2)) raw[at]=(char)c.draw(256); else raw[at]^=(char)(1<<c.draw(8)); } }
    std::string name=c.path("d."+f.ext+(gz&&c.chance(1,2)?".gz":"")); writeFile(name,raw);
    c.note("%s, %d changes%s, %zu bytes",f.kind.c_str(),ops,gzDamage?" to the gzip stream":gz?", then gzip":"",raw.size());
    int fd0=openFds(); R r=tryRead(name,false); int fd1=openFds(); CHECK(fd0==fd1,"%d file descriptors leaked by reading a damaged %s",fd1-fd0,f.kind.c_str()); if(!r.ok) CHECK(!r.err.empty(),"a damaged %s is refused without a message",f.kind.c_str());
    R h=tryHead(name); if(!h.ok) CHECK(!h.err.empty(),"headers of a damaged %s are refused without a message",f.kind.c_str());
    // memory: after the first reads nothing more may stay allocated
    { size_t m0=__sanitizer_get_current_allocated_bytes(); bool hd=c.chance(1,3); for(int i=0;i<2;i++){ std::ostringstream es; if(hd){ Holder x(Partio::readHeaders(name.c_str(),true,es)); } else { Holder x(Partio::read(name.c_str(),true,es)); } } size_t m1=__sanitizer_get_current_allocated_bytes(); CHECK(m1<=m0+256,"reading a damaged %s leaks memory: %zu bytes stay allocated after two more %s reads (%s)",f.kind.c_str(),m1-m0,hd?"header":"full",r.ok?"read":"refused"); }
    unlink(name.c_str()); c.label("damaged "+f.kind); c.label(r.ok?"damaged, read":"damaged, refused"); c.nontrivial(fmt("%zu",std::hash<std::string>()(raw)));
}
static const bool mayRunOut = (pbt::memoryMayRunOut()=true);
static void prop(Ctx& c){
#ifdef DAMAGED
    damaged(c);
#else
    truncated(c);
#endif
}
#ifdef DAMAGED
PBT_MAIN("a file with at least one byte changed, inserted or removed, read fully and by header, with memory and descriptors counted", prop)
#else
PBT_MAIN("a file with at least one particle, at least one of the cuts made refused, everything else that is read compared with the whole file", prop)
#endif
