// Independent encoders of the file formats the readers support: files as other software writes
// them, together with the particle set they denote.
#pragma once
#include "model.h"
namespace pm {
// a place of the file that says which variant of the format it is, and what would make it one that is not supported
struct Mark { size_t at,len; std::string what; std::vector<std::string> other; };
struct Sample { std::string ext, bytes; PS want; bool ordered=true; std::string kind; bool table=true; std::vector<Mark> marks; };
inline std::vector<std::string> be32s(std::initializer_list<uint32_t> v){ std::vector<std::string> r; for(auto x:v){ BE b; b.u32(x); r.push_back(b.s); } return r; }
inline std::vector<std::string> le32s(std::initializer_list<uint32_t> v){ std::vector<std::string> r; for(auto x:v){ LE b; b.u32(x); r.push_back(b.s); } return r; }

inline double asD(uint64_t b){ double d; memcpy(&d,&b,8); return d; }
inline float halfToFloat(uint16_t h){ int s=h>>15, e=(h>>10)&31, m=h&1023; double v; if(e==0) v=std::ldexp((double)m,-24); else if(e==31) v= m? NAN : INFINITY; else v=std::ldexp((double)(m+1024),e-25); return (float)(s?-v:v); }
// a double as some other program may have computed it, within the range of float
inline double genDouble(Ctx& c){ switch(c.draw(4)){ case 0: return (double)c.range(-1000,1000); case 1: return (double)asF(genFloat(c,1)); case 2: return (double)(int64_t)(c.bits64()>>11)/9007199254740992.0*100.0-50.0; default: { double d=(double)(int64_t)c.range(-1000000,1000000)/997.0; return d; } } }

inline std::vector<std::string> uniqueNames(Ctx& c,int n,size_t maxLen,std::set<std::string> used={},bool lowerFirst=false){ std::vector<std::string> r; for(int i=0;i<n;i++){ std::string s=genName(c,NAME_PLAIN,maxLen); auto f=[&](std::string x){ if(lowerFirst&&x[0]>='A'&&x[0]<='Z') x[0]+=32; return x; }; int t=0; while(used.count(f(s))){ std::string suf="_"+std::to_string(t++); s=s.substr(0,std::min(s.size(),maxLen-suf.size()))+suf; } used.insert(f(s)); r.push_back(s);} return r; }
inline int foreignCount(Ctx& c,int min=0,bool huge=false){ int n; if(huge&&c.chance(1,80)){ static const std::vector<int> H={32767,32768,65535,65536,65537,70000}; c.label("more than 32766 particles"); return H[c.draw(H.size())]; } switch(c.weighted({6,4,1})){ case 0: n=(int)c.range(0,5); break; case 1: n=(int)c.range(0,60); break; default: n=(int)c.range(100,3000); } return std::max(n,min); }

inline Sample encPRT(Ctx& c){ Sample s; s.ext="prt"; s.kind="PRT with foreign channels"; PS& p=s.want; p.n=foreignCount(c,c.chance(1,8)?0:1); int k=(int)c.range(1,c.chance(1,6)?20:6);
    auto names=uniqueNames(c,k,31,{},true); struct Ch { std::string name; int type,arity; uint32_t off; }; int wideAt=c.chance(1,15)?(int)c.draw(k):-1; std::vector<Ch> ch; static const int sz[]={2,4,8,2,4,8,2,4,8,1,1}; std::vector<int> order; for(int i=0;i<k;i++) order.push_back(i); for(int i=k-1;i>0;i--) std::swap(order[i],order[c.draw(i+1)]);
    for(int i=0;i<k;i++){ Ch x; x.name=names[i]; x.type=(int)c.draw(11); x.arity=c.chance(1,3)?3:(int)c.range(1,c.chance(1,5)?16:4); if(i==wideAt){ static const std::vector<int> W={33,64,100,127,128,255,256,1000,8192,16384,20000,40000}; x.arity=W[c.draw(W.size())]; p.n=std::min(p.n,9); c.label("PRT with a very wide channel"); } ch.push_back(x);} uint32_t off=0; for(int i:order){ if(c.chance(1,4)) off+=(uint32_t)(c.chance(1,60)?c.range(200,70000):c.range(1,8)); ch[i].off=off; off+=sz[ch[i].type]*ch[i].arity; } uint32_t psize=off;
    if(psize>20000) p.n=std::min(p.n,20); std::string body((size_t)psize*p.n,0); Rng g(c.draw(1ull<<32)); for(auto& b:body) b=(char)g.next(); int cls=(int)c.draw(3); // random bytes everywhere, gaps included
    for(auto& x:ch){ Attr a; a.name=x.name; if(a.name[0]>='A'&&a.name[0]<='Z') a.name[0]+=32; bool fl=x.type>=3&&x.type<=5; a.type= fl? (x.arity==3?VECTOR:FLOAT) : INT; a.count=x.arity;
        for(int i=0;i<p.n;i++) for(int j=0;j<x.arity;j++){ uint64_t r=g.next(); int w=sz[x.type]; char* d=&body[(size_t)i*psize+x.off+(size_t)j*w]; uint32_t v=0;
            switch(x.type){ case 0: v=(uint32_t)(int32_t)(int16_t)r; break; case 1: case 7: v=(uint32_t)r; break; case 2: if(r>>63) r=(uint64_t)(int64_t)(int32_t)r; v=(uint32_t)r; break; case 8: if(r>>63) r&=0x7fffffff; v=(uint32_t)r; break; case 6: v=(uint16_t)r; break; case 9: v=(uint32_t)(int32_t)(int8_t)r; break; case 10: v=(uint8_t)r; break;
                case 3: { if(((r>>10)&31)==31&&(r&1023)) r&=~1023ull; v=asU(halfToFloat((uint16_t)r)); break; } case 4: v=floatFrom(cls,r>>3,0); r=v; break; case 5: { double D= cls==0? (double)asF(floatFrom(r%4,r>>8,1)) : (double)(int64_t)(r>>20)/1048576.0-8192.0; v=asU((float)D); memcpy(&r,&D,8); break; } }
            memcpy(d,&r,w); a.data.push_back(v); }
        p.attrs.push_back(a); }
    LE o; s.marks.push_back({0,8,"PRT magic",{std::string("\xc0PRT\n\x1a\n\0",8),"PRTPRTPR",std::string("\xc0PRT\r\n\x1a ",8)}}); o.raw(std::string("\xc0PRT\r\n\x1a\n",8)); uint32_t extra=c.chance(1,3)?(uint32_t)(c.chance(1,15)?c.range(200,70000):c.range(1,64)):0; o.u32(56+extra); o.raw(std::string("Extensible Particle Format\0\0\0\0\0\0",32)); o.u32(1); o.u64(p.n); o.raw(std::string(extra,'x')); uint32_t cx=c.chance(1,3)?(uint32_t)(c.chance(1,15)?c.range(200,70000):c.range(1,40)):0; o.u32(4); o.u32(k); o.u32(44+cx);
    for(auto& x:ch){ std::string nm=x.name; nm.resize(32,0); o.raw(nm); s.marks.push_back({o.s.size(),4,"PRT channel type",le32s({11,12,255,0x80000000u,0xffffffffu})}); o.u32(x.type); o.u32(x.arity); o.u32(x.off); o.raw(std::string(cx,'y')); }
    uLongf l=compressBound(body.size()); std::string z(l,0); compress2((Bytef*)&z[0],&l,(const Bytef*)body.data(),body.size(),(int)c.range(0,9)); z.resize(l); o.raw(z); s.bytes=o.s; c.note("PRT n=%d %s psize=%u header+%u channel+%u",p.n,schema(p.attrs).c_str(),psize,extra,cx); return s; }

inline Sample encBIN(Ctx& c){ Sample s; s.ext="bin"; PS& p=s.want; p.n=foreignCount(c,0,true); int v=(int)c.range(1,13); s.kind=fmt("BIN version %d",v);
    auto add=[&](const char* n,ParticleAttributeType t,int k){ Attr a; a.name=n; a.type=t; a.count=k; fillData(c,a,(size_t)p.n*k,0); p.attrs.push_back(a); };
    add("position",VECTOR,3); add("velocity",VECTOR,3); add("force",VECTOR,3); if(v>=9) add("vorticity",VECTOR,3); if(v>=3) add("normal",VECTOR,3); if(v>=4) add("neighbors",INT,1); if(v>=5) add("uvw",VECTOR,3); for(const char* n:{"age","isolationTime","viscosity","density","pressure","mass","temperature"}) add(n,FLOAT,1); add("id",INT,1);
    LE o; s.marks.push_back({0,4,"BIN magic",le32s({0xDABAFA,0,0xFABADB,0xDABAFA00})}); s.marks.push_back({254,2,"BIN version",{std::string("\x0e\0",2),std::string("\x0f\0",2),std::string("\0\x01",2),std::string("\xff\x7f",2)}}); o.u32(0xFABADA); std::string nm="some fluid"; nm.resize(250,(char)c.draw(256)); o.raw(nm); o.u16(v); o.f32(1.5f); o.u32(9); o.f32(.25f); o.u32((uint32_t)c.draw(1000)); o.u32(24); o.u32(p.n); o.f32(.1f); for(int i=0;i<9;i++) o.f32((float)c.range(0,100)); if(v>=7) for(int i=0;i<9;i++) o.f32((float)c.range(-9,9));
    for(int i=0;i<p.n;i++) for(auto& a:p.attrs){ if(a.name=="id"&&v>=12) o.u64(a.data[i]); else for(int k=0;k<a.count;k++) o.u32(a.data[(size_t)i*a.count+k]); if(a.name=="uvw") o.u16((uint16_t)(i*7)); }
    if(c.chance(1,2)){ o.u32(0); o.u8(0); o.u8(0); } s.bytes=o.s; c.note("BIN version %d n=%d",v,p.n); return s; }

inline Sample encPTC(Ctx& c){ Sample s; s.ext=c.chance(1,4)?"ptf":"ptc"; PS& p=s.want; p.n=foreignCount(c); int v=(int)c.draw(3); s.kind=fmt("PTC version %d",v); int k=(int)c.range(0,6);
    Attr pos; pos.name="position"; pos.type=VECTOR; pos.count=3; fillData(c,pos,(size_t)p.n*3,0); Attr rad; rad.name="radius"; rad.count=1; fillData(c,rad,p.n,0); Attr nrm; nrm.name="normal"; nrm.type=VECTOR; nrm.count=3; std::vector<uint16_t> enc; Rng g(c.draw(1ull<<32));
    for(int i=0;i<p.n;i++){ uint16_t phi=(uint16_t)g.next(), z=(uint16_t)g.next(); if(g.next()%5==0) phi=z=65535; enc.push_back(phi); enc.push_back(z); double nz=2.0*z/65535.0-1, f=2*M_PI*(phi/65535.0-0.5), r=std::sqrt(std::max(0.0,1-nz*nz)); if(phi==65535&&z==65535){ for(int j=0;j<3;j++) nrm.data.push_back(0);} else { nrm.data.push_back(asU((float)(r*std::sin(f)))); nrm.data.push_back(asU((float)(r*std::cos(f)))); nrm.data.push_back(asU((float)nz)); } }
    p.attrs={pos,nrm,rad}; static const std::vector<std::string> types={"float","color","point","vector","normal","matrix"}; std::string spec; int dsz=0; std::vector<std::string> have={"position","normal","radius"};
    for(int i=0;i<k;i++){ std::string t=types[c.draw(6)], n= c.chance(1,4)? have[c.draw(have.size())] : genName(c,NAME_PLAIN,60); Attr a; a.type= t=="float"||t=="color"||t=="matrix"?FLOAT:VECTOR; a.count= t=="float"?1:t=="matrix"?16:3; fillData(c,a,(size_t)p.n*a.count,0); s.marks.push_back({spec.size(),t.size(),"PTC channel type",{"string","double","floats","Color","hpoint",""}}); spec+=t+std::string((size_t)c.range(1,2),' ')+n+"\n"; std::string e=n; int u=1; while(std::find(have.begin(),have.end(),e)!=have.end()) e=n+std::to_string(u++); have.push_back(e); a.name=e; dsz+=a.count; p.attrs.push_back(a); }
    LE o; s.marks.push_back({0,4,"PTC magic",{"ctpp","pptb",std::string(4,0),"PPTC"}}); s.marks.push_back({4,4,"PTC version",le32s({3,4,256,0x7fffffff})}); o.raw(std::string("pptc",4)); o.u32(v); o.f64(p.n); for(int i=0;i<6;i++) o.f32((float)c.range(-5,5)); if(v>=1) for(int i=0;i<4;i++) o.f32(1); if(v>=2){ o.f32(2); for(int i=0;i<32;i++) o.u32(0xdeadbeef);} for(int i=0;i<32;i++) o.f32((float)i); for(int i=0;i<3;i++) o.f32(640); o.u32(k); o.u32(dsz); for(auto& m:s.marks) if(m.what=="PTC channel type") m.at+=o.s.size(); o.raw(spec); if(v>=1){ o.f32(3); o.f32(4);} 
    for(int i=0;i<p.n;i++){ for(int j=0;j<3;j++) o.u32(pos.data[3*i+j]); o.u16(enc[2*i]); o.u16(enc[2*i+1]); o.u32(rad.data[i]); for(size_t q=3;q<p.attrs.size();q++){ auto& a=p.attrs[q]; for(int j=0;j<a.count;j++) o.u32(a.data[(size_t)i*a.count+j]); } }
    s.bytes=o.s; c.note("PTC version %d n=%d %s",v,p.n,schema(p.attrs).c_str()); return s; }
inline bool ptcEq(const Attr& a,uint32_t w,uint32_t g){ if(a.name=="normal") return std::fabs((double)asF(w)-asF(g))<2e-3; return w==g; }

inline Sample encMC(Ctx& c){ Sample s; s.ext="mc"; s.kind="MC"; PS& p=s.want; p.n=foreignCount(c,2,true); int k=(int)c.range(0,6); auto names=uniqueNames(c,k,60,{"id","count"}); int idAt=(int)c.draw(k+1); BE body; body.raw("MYCH"); std::string shape=c.chance(1,3)?"":c.chance(1,2)?"nParticleShape1_":"p_"; Rng g(c.draw(1ull<<32));
    auto chan=[&](const std::string& nm,const char* type,uint32_t count,const std::string& data){ body.raw("CHNM"); std::string n=shape+nm; n+='\0'; body.u32((uint32_t)n.size()); n.resize((n.size()+3)/4*4,0); body.raw(n); body.raw("SIZE"); body.u32(4); body.u32(count); body.raw(type); body.u32((uint32_t)data.size()); body.raw(data); };
    for(int i=0;i<=k;i++){ if(c.chance(1,5)){ BE d; d.f64((double)p.n); chan(fmt("count%d",i),"DBLA",1,d.s); c.label("MC single value channel"); }
        if(i==idAt){ Attr a; a.name="id"; a.type=INT; BE d; int base= c.chance(1,2)?(int)c.range(0,100000): c.chance(1,2)? 0x7fffffff-3*p.n : (int)c.range(1<<24,0x70000000); for(int j=0;j<p.n;j++){ a.data.push_back((uint32_t)(base+j*3)); d.f64(base+j*3);} chan("id","DBLA",p.n,d.s); p.attrs.push_back(a); }
        if(i<k){ std::string n=names[i]; if(shape.empty()){ n.erase(std::remove(n.begin(),n.end(),'_'),n.end()); if(n.empty()||find(p.attrs,n)) n="q"+std::to_string(i); } Attr a; a.name=n; BE d; if(c.chance(1,2)){ a.type=VECTOR; a.count=3; for(int j=0;j<3*p.n;j++){ uint64_t r=g.next(); uint32_t v=floatFrom(r%4,r>>8,0); a.data.push_back(v); d.u32(v);} chan(n,"FVCA",p.n,d.s); } else { for(int j=0;j<p.n;j++){ uint64_t r=g.next(); double v= r&1? (double)asF(floatFrom(r%4,r>>8,1)) : (double)(int64_t)(r>>24)/4096.0; a.data.push_back(asU((float)v)); d.f64(v);} chan(n,"DBLA",p.n,d.s); } p.attrs.push_back(a); } 
        if(c.chance(1,8)){ BE d; for(int j=0;j<2+p.n;j++) d.u32(j); chan(fmt("other%d",i),"XXXA",p.n,d.s); c.label("MC channel of another type"); } }
    BE o; s.marks.push_back({0,4,"MC magic",{"FOR8","4ROF",std::string(4,0),"LIST"}}); o.raw("FOR4"); o.u32(40); o.raw("CACHVRSN"); o.u32(4); o.raw(std::string("0.1\0",4)); o.raw("STIM"); o.u32(4); o.u32(250); o.raw("ETIM"); o.u32(4); o.u32(250); o.raw("FOR4"); o.u32((uint32_t)body.s.size()); o.raw(body.s); s.bytes=o.s; c.note("MC n=%d %s",p.n,schema(p.attrs).c_str()); return s; }

inline std::string num(Ctx& c,float f){ char b[64]; switch(c.draw(3)){ case 0: snprintf(b,64,"%.9g",f); break; case 1: snprintf(b,64,"%.9e",f); break; default: snprintf(b,64, std::fabs(f)<1e6?"%.4f":"%.9g",f);} return b; }
inline float parseF(const std::string& s){ return strtof(s.c_str(),nullptr); }
inline Sample encPTS(Ctx& c){ Sample s; s.ext="pts"; PS& p=s.want; static const int cols[]={3,4,6,7,8}; int k=cols[c.draw(5)]; s.kind=fmt("PTS with %d columns",k); int rows=foreignCount(c,1); Rng g(c.draw(1ull<<32)); bool crlf=c.chance(1,5); int wideRow=c.chance(1,5)?(int)c.draw(rows):-1; size_t wideBy=(size_t)c.range(900,1300); std::string o=std::to_string(rows)+(c.chance(1,8)?std::string(wideBy,' '):"")+(crlf?"\r\n":"\n"); std::vector<Attr> at; auto add=[&](const char* n,ParticleAttributeType t,int m){ Attr a; a.name=n; a.type=t; a.count=m; at.push_back(a); };
    add("id",INT,1); add("position",VECTOR,3); if(k==4||k>=7) add("remission",FLOAT,1); if(k==8) add("quality",INT,1); if(k>=6) add("pointColor",VECTOR,3); int n=0; bool dirty=c.chance(1,2); std::string sep=c.chance(1,4)?"\t":c.chance(1,4)?"  ":" "; std::string lead=c.chance(1,5)?c.chance(1,2)?" ":"\t ":"", trail=c.chance(1,5)?c.chance(1,2)?" ":" \t":""; if(!lead.empty()||!trail.empty()) c.label("PTS with blanks around lines");
    for(int i=0;i<rows;i++){ std::vector<std::string> t; std::vector<float> v; int kk=k; if(dirty&&i>0&&g.next()%4==0){ kk=(int)(g.next()%12); if(g.next()%16==0) kk=(int)(g.next()%600); if(kk==k) kk=0; }
        for(int j=0;j<kk;j++){ char b[64]; if(j<3) snprintf(b,64,"%.6f",(double)(int64_t)(g.next()%2000001)/1000.0-1000.0); else if(j>=k-3&&k>=6) snprintf(b,64,"%d",(int)(g.next()%256)); else if(j==4) snprintf(b,64,"%d",(int)(g.next()%1000)-500); else snprintf(b,64,"%.5g",(double)(int64_t)(g.next()%4096)/7.0-200); t.push_back(b); v.push_back(parseF(b)); }
        bool wide=i==wideRow; o+=lead; for(size_t j=0;j<t.size();j++){ if(j) o+=wide&&j==2? std::string(wideBy,sep[0]):sep; o+=t[j]; } o+=trail; o+=crlf?"\r\n":"\n"; if(kk!=k) continue;
        for(auto& a:at){ if(a.name=="id") a.data.push_back(n); else if(a.name=="position"){ a.data.push_back(asU(v[0])); a.data.push_back(asU(v[2])); a.data.push_back(asU(v[1])); } else if(a.name=="remission") a.data.push_back(asU(v[3])); else if(a.name=="quality") a.data.push_back((uint32_t)(int)v[4]); else for(int j=0;j<3;j++) a.data.push_back(asU(v[k-3+j]/255)); } n++; }
    p.n=n; p.attrs=at; if(c.chance(1,3)&&!o.empty()) o.pop_back(); s.bytes=o; if(dirty) c.label("PTS with lines to be skipped"); if(wideRow>=0) c.label("PTS with a long line"); c.note("PTS %d columns, %d lines, %d points",k,rows,n); return s; }

inline Sample encPDC(Ctx& c){ Sample s; s.ext="pdc"; s.kind="PDC"; PS& p=s.want; p.n=foreignCount(c,0,true); int k=(int)c.range(0,8); auto names=uniqueNames(c,k,300); BE o; s.marks.push_back({0,4,"PDC magic",{" CDP","PDC2",std::string(4,0),"pdc "}}); o.raw("PDC "); o.u32(1); o.u32(1); o.u32(0); o.u32(0); o.u32(p.n); o.u32(k); Rng g(c.draw(1ull<<32));
    for(int i=0;i<k;i++){ Attr a; a.name=names[i]; bool vec=c.chance(1,2); a.type=vec?VECTOR:FLOAT; a.count=vec?3:1; o.u32((uint32_t)a.name.size()); o.raw(a.name); s.marks.push_back({o.s.size(),4,"PDC attribute type",be32s({0,1,2,4,6,0xffffffffu})}); o.u32(vec?5:3); for(int j=0;j<p.n*a.count;j++){ uint64_t r=g.next(); double v= r&1? (double)asF(floatFrom(r%4,r>>8,1)) : (double)(int64_t)(r>>20)/65536.0-100; o.f64(v); a.data.push_back(asU((float)v)); } p.attrs.push_back(a); }
    s.bytes=o.s; c.note("PDC n=%d %s",p.n,schema(p.attrs).c_str()); return s; }

inline Sample encPDB(Ctx& c){ Sample s; bool w64=c.chance(1,2); s.ext= c.chance(1,2)?"pdb": w64?"pdb64":"pdb32"; s.kind=fmt("PDB %d bit",w64?64:32); PS& p=s.want; p.n=foreignCount(c,0,true); int k=(int)c.range(1,7); auto names=uniqueNames(c,k,300); LE o; auto ptr=[&](){ uint64_t v= c.chance(1,3)?0: w64? 0x7f0000000000ull+c.draw(1ull<<32) : 0x08000000ull+c.draw(1u<<27); if(w64) o.u64(v); else o.u32((uint32_t)v); };
    s.marks.push_back({0,4,"PDB magic",le32s({671,0,0x9e020000,0xffffffffu})}); o.u32(670); o.u16(1); o.u16(0); o.f32(1); o.f32((float)c.range(0,9)); o.u32(p.n); o.u32(k); o.raw(std::string(32,0)); ptr();
    for(int i=0;i<k;i++){ Attr a; a.name=names[i]; int t=(int)c.weighted({0,4,4,4,1})%5; a.type= t==1?VECTOR:t==2?FLOAT:t==3?INT:NONE; a.count=t==1?3:1; bool skip=t==4; int dsz= skip? (int)c.range(1,9) : 4*a.count; std::string data; if(skip){ data.assign((size_t)dsz*p.n,'z'); c.label("PDB channel of another type"); } else { fillData(c,a,(size_t)p.n*a.count,0); LE d; for(auto v:a.data) d.u32(v); data=d.s; }
        o.u8(0); o.u8(0); o.u16(1); o.u8(0); o.u8((uint8_t)c.draw(6)); ptr(); o.u32(t); o.u32(p.n); o.u32(0); o.u32(p.n-1); o.u8(0); o.u8(0); o.u16(0); if(w64) o.u32(0); ptr(); ptr(); ptr(); o.raw(a.name); o.u8(0); o.u32(t); o.u32(dsz); o.u32(p.n); o.u32(1); ptr(); o.raw(data); if(!skip) p.attrs.push_back(a); }
    s.bytes=o.s; c.note("PDB%d as .%s n=%d %s",w64?64:32,s.ext.c_str(),p.n,schema(p.attrs).c_str()); return s; }

inline Sample encBGEO(Ctx& c){ Sample s; static const std::vector<std::string> ex={"bgeo","bhclassic","itbl","atbl"}; s.ext=c.pick(ex); PS& p=s.want; GenOpt g; g.positionFirst=true; g.fixed=true; g.dupStrings=true; g.big=c.chance(1,60); g.maxAttrs=5; g.strLen=2000; g.manyAttrs=false; if(c.chance(1,40)){ static const std::vector<int> H={65534,65535,65536,65537}; g.minN=g.maxN=H[c.draw(H.size())]; g.maxAttrs=2; } p=genPS(c,g); BE o; s.marks.push_back({0,4,"BGEO magic",{"\x7fNSJ","oegB","bgeo",std::string(4,0)}}); s.marks.push_back({5,4,"BGEO version",be32s({4,6,0,0x05000000,0xffffffffu})}); int np=c.chance(1,60)?(int)c.range(256,800):(int)c.range(0,3), npa=np||c.chance(1,3)?c.chance(1,80)?(int)c.range(256,400):(int)c.range(0,3):0; s.kind=np?"BGEO with primitives":"BGEO"; o.raw("BgeoV"); o.u32(5); o.u32(p.n); o.u32(np); o.u32(0); o.u32(0); o.u32((uint32_t)p.attrs.size()-1); o.u32(0); o.u32(npa); o.u32((uint32_t)p.fixed.size());
    auto str=[&](const std::string& x){ o.u16((uint16_t)x.size()); o.raw(x); }; auto dict=[&](const Attr& a){ str(a.name); o.u16((uint16_t)a.count); s.marks.push_back({o.s.size(),4,"BGEO attribute type",be32s({2,3,6,7,100,0xffffffffu})}); if(a.type==INDEXEDSTR){ o.u32(4); o.u32((uint32_t)a.strings.size()); for(auto& x:a.strings) str(x);} else { o.u32(a.type==FLOAT?0:a.type==INT?1:5); for(int k=0;k<a.count;k++) o.u32(0x3f800000u+k); } };
    for(size_t i=1;i<p.attrs.size();i++) dict(p.attrs[i]); for(int i=0;i<p.n;i++) for(size_t k=0;k<p.attrs.size();k++){ auto& a=p.attrs[k]; for(int j=0;j<a.count;j++) o.u32(a.data[(size_t)i*a.count+j]); if(k==0) o.f32(1); }
    std::vector<Attr> pa; int pw=0; for(int i=0;i<npa;i++){ Attr a; a.name=fmt("prim%d",i); a.type=std::vector<ParticleAttributeType>{INT,FLOAT,INDEXEDSTR,VECTOR}[c.draw(4)]; a.count=a.type==VECTOR?3:(int)c.range(1,3); if(a.type==INDEXEDSTR) a.strings={"papi","x"}; pw+=a.count; dict(a); s.marks.back().what="BGEO primitive attribute type"; } 
    for(int i=0;i<np;i++){ s.marks.push_back({o.s.size(),4,"BGEO primitive type",be32s({0,1,2,0x00000400,0x8001,0x80000000u})}); o.u32(0x8000); uint32_t m=(uint32_t)c.range(0,std::min(p.n,50)); o.u32(m); for(uint32_t j=0;j<m;j++) if(p.n>=65536) o.u32(j); else o.u16(j); for(int j=0;j<pw;j++) o.u32(1); }
    for(auto& a:p.fixed) dict(a); for(auto& a:p.fixed) for(auto v:a.data) o.u32(v); if(c.chance(1,2)){ o.u8(0); o.u8(0xff); } s.bytes=o.s; c.note("BGEO %d primitives %d primitive attributes %s",np,npa,describe(p).c_str()); return s; }

inline std::string ws(Ctx& c){ static const std::vector<std::string> w={" "," ","\n","\t","  "," \n ","\r\n"}; return w[c.draw(w.size())]; }
inline Sample encGEO(Ctx& c){ Sample s; s.ext=c.chance(1,3)?"hclassic":"geo"; s.kind="GEO text"; PS& p=s.want; GenOpt g; g.positionFirst=true; g.dupStrings=true; g.big=false; g.maxAttrs=4; g.maxN=120; g.strLen=300; g.floatCls=1; g.manyAttrs=false; g.maxCount=6; p=genPS(c,g); std::string o="PGEOMETRY V5\n"; o+=fmt("NPoints %d NPrims 1\nNPointGroups 0 NPrimGroups 0\nNPointAttrib %d NVertexAttrib 0 NPrimAttrib 1 NAttrib 0\n",p.n,(int)p.attrs.size()-1); bool fixedSep=p.n>30; std::string s0=ws(c); auto W=[&]{ return fixedSep?s0:ws(c); };
    if(p.attrs.size()>1) o+="PointAttrib"+ws(c); for(size_t i=1;i<p.attrs.size();i++){ auto& a=p.attrs[i]; o+=a.name+W()+std::to_string(a.count)+W(); s.marks.push_back({o.size(),a.type==INDEXEDSTR||a.type==FLOAT?5u:a.type==INT?3u:6u,"GEO attribute type",{"string","mixed","double","Float","indexpair"}}); if(a.type==INDEXEDSTR){ o+="index"+W()+std::to_string(a.strings.size()); for(auto& x:a.strings){ o+=W(); bool bare=!x.empty()&&x[0]!='"'; for(char ch:x) if(isspace((unsigned char)ch)) bare=false; if(bare&&c.chance(1,2)) o+=x; else { o+='"'; for(char ch:x){ if(ch=='"'||ch=='\\') o+='\\'; o+=ch; } o+='"'; } } } else { o+=a.type==FLOAT?"float":a.type==INT?"int":"vector"; bool dflt=c.chance(1,2); for(int k=0;k<a.count;k++) o+=W()+(!dflt?std::string("0"):a.type==INT?std::to_string((int)c.range(0,2000000)-1000000):fmt("%g",asF(genFloat(c,1)))); } o+=ws(c); }
    for(int i=0;i<p.n;i++){ for(size_t k=0;k<p.attrs.size();k++){ auto& a=p.attrs[k]; if(k==1) o+=W()+"("; for(int j=0;j<a.count;j++){ if(k!=1||j) o+=W(); uint32_t& v=a.data[(size_t)i*a.count+j]; if(isFloatT(a.type)){ std::string t=num(c,asF(v)); v=asU(parseF(t)); o+=t; } else o+=std::to_string((int)v); } if(k==0) o+=W()+"1"; } if(p.attrs.size()>1) o+=")"; o+="\n"; }
    if(c.chance(1,2)) o+="PrimitiveAttrib\ngenerator 1 index 1 papi\nPart 0 [0]\nbeginExtra\nendExtra\n"; s.bytes=o; c.note("GEO text %s",describe(p).c_str()); return s; }
inline Sample encPDA(Ctx& c){ Sample s; s.ext="pda"; s.kind="PDA text"; PS& p=s.want; GenOpt g; g.requirePosition=c.chance(1,2); g.big=false; g.maxAttrs=5; g.maxN=120; g.types={FLOAT,INT,VECTOR}; g.maxCount=1; g.floatCls=1; g.manyAttrs=false; p=genPS(c,g); for(auto& a:p.attrs) if(a.name=="TYPES") a.name="TYPE_"; std::string o="ATTRIBUTES"+ws(c); for(auto& a:p.attrs) o+=a.name+ws(c); o+="TYPES"+ws(c); for(auto& a:p.attrs){ s.marks.push_back({o.size(),1,"PDA attribute type",{"S","X","v","VV","M"}}); o+=std::string(a.type==VECTOR?"V":a.type==INT?"I":"R")+ws(c); } o+="NUMBER_OF_PARTICLES:"+ws(c)+std::to_string(p.n)+ws(c)+"BEGIN"+ws(c)+"DATA\n"; bool fixedSep=p.n>30; std::string s0=ws(c); for(int i=0;i<p.n;i++) for(auto& a:p.attrs) for(int j=0;j<a.count;j++){ uint32_t& v=a.data[(size_t)i*a.count+j]; if(isFloatT(a.type)){ std::string t=num(c,asF(v)); v=asU(parseF(t)); o+=t; } else o+=std::to_string((int)v); o+=fixedSep?s0:ws(c); } s.bytes=o; c.note("PDA text %s",describe(p).c_str()); return s; }
typedef Sample (*Encoder)(Ctx&);
inline const std::vector<std::pair<std::string,Encoder>>& encoders(){ static const std::vector<std::pair<std::string,Encoder>> e={{"bgeo",encBGEO},{"geo",encGEO},{"pdb",encPDB},{"pda",encPDA},{"pdc",encPDC},{"ptc",encPTC},{"prt",encPRT},{"bin",encBIN},{"mc",encMC},{"pts",encPTS}}; return e; }
// formats whose reader decompresses
inline bool gzFormat(const std::string& ext){ return ext!="prt" && ext!="bin"; }
} // namespace pm
