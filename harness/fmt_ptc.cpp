// PTC (RenderMan point cloud) round trip.
#include "fmt.h"
using namespace pm;
static bool special(const std::string& n){ return n=="position"||n=="normal"||n=="radius"; }
static bool kept(const Attr& a){ return !special(a.name) && isFloatT(a.type) && (a.count==1||a.count==3||a.count==16); }
static void chkNormal(const float* w,const float* g,int i){ // w as written, g as decoded
    if(w[0]==0&&w[1]==0&&w[2]==0){ CHECK(g[0]==0&&g[1]==0&&g[2]==0,"zero normal of point %d became (%g,%g,%g)",i,g[0],g[1],g[2]); return; }
    double l=std::sqrt((double)w[0]*w[0]+(double)w[1]*w[1]+(double)w[2]*w[2]), x=w[0]/l,y=w[1]/l,z=w[2]/l; double gl=std::sqrt((double)g[0]*g[0]+(double)g[1]*g[1]+(double)g[2]*g[2]);
    CHECK(std::fabs(gl-1)<2e-5,"normal of point %d has length %g",i,gl); CHECK(std::fabs(g[2]-z)<4e-5,"normal of point %d: z %g, expected %g",i,g[2],z);
    double r=std::sqrt(x*x+y*y); if(r>0.05){ double a=std::atan2(y,x)-std::atan2((double)g[1],(double)g[0]); while(a>M_PI)a-=2*M_PI; while(a<-M_PI)a+=2*M_PI; CHECK(std::fabs(a)<1.5e-4,"normal of point %d: (%g,%g,%g), expected (%g,%g,%g)",i,g[0],g[1],g[2],x,y,z); } }
static PS expect(const PS& s){ PS e; e.n=s.n; const Attr* p=find(s.attrs,"position"),*n=find(s.attrs,"normal"),*r=find(s.attrs,"radius"); e.attrs.push_back(*p);
    Attr a; a.name="normal"; a.type=VECTOR; a.count=3; a.data.assign((size_t)s.n*3,0); if(n) a.data=n->data; e.attrs.push_back(a); Attr b; b.name="radius"; b.type=FLOAT; b.count=1; b.data.assign(s.n,asU(1.f)); if(r) b.data=r->data; e.attrs.push_back(b);
    for(auto& x:s.attrs) if(kept(x)){ Attr y=x; y.type=FLOAT; e.attrs.push_back(y);} return e; }
static void decode(const PS& s,const std::string& b){ PS e=expect(s); Rd r(b); CHECK(r.bytes(4)=="pptc","file: magic"); CHECK(r.le32()==0,"file: version"); uint64_t u=r.le64(); double d; memcpy(&d,&u,8); CHECK(d==s.n,"file: %g points",d); float bb[6]; for(auto& x:bb) x=asF(r.le32()); bool nan=false; for(auto v:e.attrs[0].data) if(std::isnan(asF(v))) nan=true; if(s.n&&!nan) for(int k=0;k<3;k++){ float lo=INFINITY,hi=-INFINITY; for(int i=0;i<s.n;i++){ float v=asF(e.attrs[0].data[i*3+k]); lo=std::min(lo,v); hi=std::max(hi,v);} if(std::isfinite(lo)&&std::isfinite(hi)) CHECK(bb[k]==lo&&bb[3+k]==hi,"file: bounding box axis %d is [%g,%g], expected [%g,%g]",k,bb[k],bb[3+k],lo,hi); }
    r.bytes(128+12); CHECK(r.le32()==e.attrs.size()-3,"file: number of variables"); size_t sz=0; for(size_t i=3;i<e.attrs.size();i++) sz+=e.attrs[i].count; CHECK(r.le32()==sz,"file: data size");
    for(size_t i=3;i<e.attrs.size();i++){ std::string l; for(;;){ uint8_t ch=r.u8(); CHECK(r.ok,"file: truncated"); if(ch=='\n') break; l+=(char)ch; } const char* t=e.attrs[i].count==1?"float ":e.attrs[i].count==3?"color ":"matrix "; CHECK(l==t+e.attrs[i].name,"file: spec '%s', expected '%s%s'",esc(l).c_str(),t,esc(e.attrs[i].name).c_str()); }
    for(int i=0;i<s.n;i++){ for(int k=0;k<3;k++) CHECK(r.le32()==e.attrs[0].data[i*3+k],"file: position of point %d",i); r.le32(); CHECK(r.le32()==e.attrs[2].data[i],"file: radius of point %d",i); for(size_t j=3;j<e.attrs.size();j++) for(int k=0;k<e.attrs[j].count;k++) CHECK(r.le32()==e.attrs[j].data[(size_t)i*e.attrs[j].count+k],"file: '%s' of point %d comp %d",esc(e.attrs[j].name).c_str(),i,k); }
    CHECK(r.ok&&r.end(),"file: length"); }
static void prop(Ctx& c){
    Fmt f; f.exts={"ptc","ptf"}; f.decode=decode; f.opt.reserved={"normal","radius"}; f.opt.maxCount=16; f.opt.maxAttrs=5;
    f.expect=[](const PS& s){ PS e=expect(s); e.attrs[1].data.assign((size_t)s.n*3,0); return e; };
    f.eq=[](const Attr& a,uint32_t w,uint32_t g){ return a.name=="normal"||w==g; };
    f.tweak=[](Ctx& c,PS& s){ for(auto& a:s.attrs) if(a.type==FLOAT && c.chance(1,2)){ a.count= c.chance(1,2)?3:16; fillData(c,a,(size_t)s.n*a.count,0);} 
        if(c.chance(2,3)){ Attr a; a.name="normal"; a.type=VECTOR; a.count=3; fillData(c,a,(size_t)s.n*3,c.chance(1,2)?2:1); if(c.chance(1,4)){ c.label("very long or short normals"); static const std::vector<float> mags={1e-45f,1e-40f,1e-23f,1e-19f,1e18f,2e19f,1e38f,3.4e38f}; float m=c.pick(mags); for(auto& v:a.data) v=asU((asF(v)<0?-1.f:1.f)*m); } if(c.chance(1,3)) for(int i=0;i<s.n;i++) switch(i%7){ case 0: a.data[i*3]=a.data[i*3+1]=0; break; case 1: a.data[i*3]=a.data[i*3+2]=0; break; case 2: a.data[i*3+1]=a.data[i*3+2]=0; break; case 3: a.data[i*3]=asU(1e-4f); a.data[i*3+1]=0; a.data[i*3+2]=asU(3.f); break; case 4: a.data[i*3]=a.data[i*3+1]=a.data[i*3+2]=0; break; } s.attrs.insert(s.attrs.begin()+c.draw(s.attrs.size()+1),a);} 
        if(c.chance(1,2)){ Attr a; a.name="radius"; a.type=FLOAT; a.count=1; fillData(c,a,s.n,0); s.attrs.insert(s.attrs.begin()+c.draw(s.attrs.size()+1),a);} };
    f.nontrivial=[](const PS& s){ return s.n>=1 && s.attrs.size()>=2; };
    // normals are compared separately: they are quantised
    PS last; auto t=f.tweak; f.tweak=[&](Ctx& c,PS& s){ t(c,s); last=s; };
    static std::string file; f.expect=[&](const PS& s){ return expect(s); };
    roundtrip(c,f);
    // once more, reading the normals of the same set
    Holder h(build(last)); file=c.path("n.ptc"); writeQ(file,*static_cast<ParticlesData*>(h.p)); Holder r(readQ(file)); CHECK(r.p,"second read failed"); PS g=extract(static_cast<ParticlesData*>(r.p)); PS e=expect(last); for(int i=0;i<last.n;i++) chkNormal((const float*)&e.attrs[1].data[i*3],(const float*)&g.attrs[1].data[i*3],i); unlink(file.c_str());
}
PBT_MAIN("a set with at least one particle and an attribute besides position, written, decoded independently and read back, normals compared within their quantisation", prop)
