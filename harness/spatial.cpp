// Spatial queries against brute force.  -DNEAREST: findNPoints (C19); otherwise findPoints (C18).
#include "model.h"
using namespace pm;
struct P3 { float x[3]; };
static std::vector<P3> genPoints(Ctx& c,int n,int& kind){
    kind=(int)c.draw(7); std::vector<P3> v(n); bool small=n<=24; Rng r(small?0:c.draw(1ull<<32)); auto u=[&](uint64_t m)->uint64_t{ return small? c.draw(m): r.next()%m; };
    float scale= kind==6? 1e15f : 1.f;
    for(int i=0;i<n;i++) for(int k=0;k<3;k++){ float& f=v[i].x[k];
        switch(kind){ case 0: f=(float)u(5); break;                               // lattice with many duplicates
            case 1: f=(float)((double)u(2000001)/1000.0-1000.0); break;           // spread out
            case 2: f= k==0? (float)u(1000)/10.f : 3.f; break;                    // collinear
            case 3: f= 7.25f; break;                                              // all the same
            case 4: f= k==2? 0.f : (float)u(40)/4.f; break;                       // planar lattice
            case 5: f= (u(3)==0? 1000.f:0.f)+(float)u(1000)/5000.f; break;        // clusters
            default: f=((float)u(2001)-1000.f)*scale; } }                         // huge coordinates
    return v; }
static int genN(Ctx& c){ if(c.chance(1,120)){ static const std::vector<int> H={32767,32769,33000,40000,65535,65537,70000}; return H[c.draw(H.size())]; } static const std::vector<int> b={1,2,3,4,5,6,7,8,9,15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,511,512,513,1000,1023,1024,1025}; size_t w=c.weighted({4,6,1}); if(w==0) return (int)c.range(0,24); if(w==1) return b[c.draw(b.size())]; return (int)c.range(1000,5000); }
struct Set { ParticlesDataMutable* p; ParticleAttribute pos; std::vector<P3> pts; };
static float coord(Ctx& c,const Set& s,int k){ // coordinates near or exactly on the points
    if(!s.pts.empty()&&c.chance(3,4)){ float f=s.pts[c.draw(s.pts.size())].x[k]; switch(c.draw(4)){ case 0: case 1: return f; case 2: return f+(float)((int)c.range(-20,20))/4.f; default: return std::nextafterf(f,c.chance(1,2)?INFINITY:-INFINITY);} }
    return (float)((double)c.range(-1000000,1000000)/1000.0); }
#ifndef NEAREST
static bool query(Ctx& c,const Set& s){
    float lo[3],hi[3]; for(int k=0;k<3;k++){ lo[k]=coord(c,s,k); hi[k]=coord(c,s,k); if(lo[k]>hi[k]) std::swap(lo[k],hi[k]); if(c.chance(1,8)) hi[k]=lo[k]; if(c.chance(1,10)){ lo[k]=-3e38f; hi[k]=3e38f; } }
    std::vector<ParticleIndex> out; int pre=c.chance(1,3)?(int)c.range(1,5):0; for(int i=0;i<pre;i++) out.push_back(900000+i);
    s.p->findPoints(lo,hi,out); CHECK((int)out.size()>=pre,"findPoints dropped earlier results"); for(int i=0;i<pre;i++) CHECK(out[i]==(ParticleIndex)(900000+i),"findPoints changed an earlier result");
    std::vector<uint64_t> got(out.begin()+pre,out.end()), want; std::sort(got.begin(),got.end()); for(size_t i=0;i<s.pts.size();i++){ bool in=true; for(int k=0;k<3;k++) in&= s.pts[i].x[k]>=lo[k]&&s.pts[i].x[k]<=hi[k]; if(in) want.push_back(i);} 
    for(size_t i=1;i<got.size();i++) CHECK(got[i]!=got[i-1],"particle %llu returned twice",(unsigned long long)got[i]);
    for(auto i:got){ CHECK(i<s.pts.size(),"particle %llu of %zu returned",(unsigned long long)i,s.pts.size()); CHECK(std::binary_search(want.begin(),want.end(),i),"particle %llu (%g %g %g) returned, outside [%g %g %g]-[%g %g %g]",(unsigned long long)i,s.pts[i].x[0],s.pts[i].x[1],s.pts[i].x[2],lo[0],lo[1],lo[2],hi[0],hi[1],hi[2]); }
    for(auto i:want) CHECK(std::binary_search(got.begin(),got.end(),i),"particle %llu (%g %g %g) missed, inside [%g %g %g]-[%g %g %g] (%zu of %zu found)",(unsigned long long)i,s.pts[i].x[0],s.pts[i].x[1],s.pts[i].x[2],lo[0],lo[1],lo[2],hi[0],hi[1],hi[2],got.size(),want.size());
    return want.size()>0 && want.size()<s.pts.size();
}
#else
static bool query(Ctx& c,const Set& s){
    float q[3]; for(int k=0;k<3;k++) q[k]=coord(c,s,k); if(!s.pts.empty()&&c.chance(1,3)) for(int k=0;k<3;k++) q[k]=s.pts[c.draw(s.pts.size())].x[k];
    static const std::vector<int> Ns={1,0,2,3,4,5,7,8,10,16,50,100,1000,6000}; int N=Ns[c.draw(Ns.size())];
    std::vector<double> d(s.pts.size()); for(size_t i=0;i<s.pts.size();i++){ double t=0; for(int k=0;k<3;k++){ double e=(double)(float)(s.pts[i].x[k]-q[k]); t+=e*e; } d[i]=t; }
    float R; switch(c.draw(4)){ case 0: R=1e18f; break; case 1: R=(float)c.range(0,4000)/16.f; break; case 2: R=s.pts.empty()?1.f:(float)std::sqrt(d[c.draw(d.size())]); break; default: R=(float)c.range(1,100); }
    float R2=R*R; const double eps=2e-6; std::vector<double> ds=d; std::sort(ds.begin(),ds.end());
    size_t surely=0,maybe=0; for(double x:ds){ if(x<R2*(1-eps)-1e-37) surely++; if(x<=(double)R2*(1+eps)) maybe++; }
    auto verify=[&](const char* which,const ParticleIndex* ix,const float* dd,size_t n){
        CHECK(n<=(size_t)N,"%s: %zu results for N=%d",which,n,N); CHECK(n>=std::min((size_t)N,surely)&&n<=std::min((size_t)N,maybe),"%s: %zu results, expected %zu..%zu (N=%d, R=%g, %zu points)",which,n,std::min((size_t)N,surely),std::min((size_t)N,maybe),N,R,s.pts.size());
        std::vector<uint64_t> u(ix,ix+n); std::sort(u.begin(),u.end()); for(size_t i=1;i<n;i++) CHECK(u[i]!=u[i-1],"%s: particle %llu returned twice",which,(unsigned long long)u[i]);
        std::vector<double> g; for(size_t i=0;i<n;i++){ CHECK(ix[i]<s.pts.size(),"%s: particle %llu of %zu",which,(unsigned long long)ix[i],s.pts.size()); double t=d[ix[i]]; CHECK(std::fabs((double)dd[i]-t)<=eps*t+1e-37 || (std::isinf(dd[i])&&t>3e38),"%s: particle %llu at squared distance %g reported with %g",which,(unsigned long long)ix[i],t,dd[i]); g.push_back(t); }
        std::sort(g.begin(),g.end()); for(size_t i=0;i<n;i++) CHECK(g[i]<=ds[i]*(1+eps)+1e-37,"%s: the %zu-th nearest is at squared distance %g, but a point at %g exists",which,i+1,g[i],ds[i]); };
    std::vector<ParticleIndex> pv; std::vector<float> dv; if(c.chance(1,2)){ pv.assign(3,77); dv.assign(5,-1.f); }
    s.p->findNPoints(q,N,R,pv,dv); CHECK(pv.size()==dv.size(),"findNPoints: %zu points, %zu distances",pv.size(),dv.size()); verify("findNPoints(vector)",pv.data(),dv.data(),pv.size());
    if(c.chance(1,6)){ int keep=N; N=c.chance(1,3)?-(int)c.range(1,1000):c.chance(1,2)?1<<30:2147483647; s.p->findNPoints(q,N,R,pv,dv); CHECK(pv.size()==dv.size(),"findNPoints: %zu points, %zu distances",pv.size(),dv.size()); if(N<0){ CHECK(pv.empty(),"findNPoints: %zu results for N=%d",pv.size(),N); } else verify("findNPoints(vector)",pv.data(),dv.data(),pv.size()); N=keep; c.label("N negative or larger than any set"); }
    std::vector<ParticleIndex> pa(N+1,424242); std::vector<float> da(N+1,-5.f); float fr=-1; int n=s.p->findNPoints(q,N,R,pa.data(),da.data(),&fr); CHECK(n>=0&&n<=N,"findNPoints(array): returned %d for N=%d",n,N); CHECK(pa[N]==424242&&da[N]==-5.f,"findNPoints(array): wrote past N entries"); verify("findNPoints(array)",pa.data(),da.data(),n);
    if(n<N||N==0) CHECK(fr==R2||std::fabs((double)fr-R2)<=eps*R2,"final squared radius %g, expected %g: fewer than N found",fr,R2); else { double mx=0; for(int i=0;i<n;i++) mx=std::max(mx,(double)da[i]); CHECK(std::fabs(fr-mx)<=eps*mx||fr==(float)mx,"final squared radius %g, expected that of the farthest of the N results, %g",fr,mx); }
    c.label(N==0?"N=0":n==N?"N found":n?"fewer than N":"none"); return n>0 && (size_t)n<s.pts.size();
}
#endif
static void prop(Ctx& c){
    Holder hh(Partio::create()); Set s; s.p=static_cast<ParticlesDataMutable*>(hh.p); int extra=(int)c.draw(3); for(int i=0;i<extra;i++) s.p->addAttribute(fmt("e%d",i).c_str(),c.chance(1,2)?FLOAT:INT,(int)c.range(1,4)); s.pos=s.p->addAttribute("position",VECTOR,3);
    int rounds=c.chance(1,3)?(int)c.range(2,3):1; bool good=false; uint64_t hv=0; int kind=0;
    for(int t=0;t<rounds;t++){ int n=genN(c); if(t&&c.chance(1,2)) n=0; auto add=genPoints(c,n,kind); size_t old=s.pts.size(); if(n) s.p->addParticles(n); for(int i=0;i<n;i++) s.p->set<float>(s.pos,old+i,add[i].x); s.pts.insert(s.pts.end(),add.begin(),add.end());
        if(t&&old&&c.chance(1,2)){ size_t i=c.draw(old); P3 x; for(int k=0;k<3;k++) x.x[k]=(float)c.range(-50,50); s.p->set<float>(s.pos,i,x.x); s.pts[i]=x; }
        s.p->sort(); for(size_t i=0;i<s.pts.size();i++) CHECK(!memcmp(s.p->data<float>(s.pos,i),s.pts[i].x,12),"sort() changed the position of particle %zu",i); CHECK(s.p->numParticles()==(int)s.pts.size(),"sort() changed the number of particles");
        int nq=s.pts.size()>2000?4:8; for(int i=0;i<nq;i++) good|=query(c,s); for(auto& p:s.pts) for(float f:p.x) hv=mix(hv^asU(f)); }
    c.note("%zu points of kind %d, %d sorts",s.pts.size(),kind,rounds); c.label(fmt("kind %d",kind)); c.label(s.pts.size()==0?"n=0":s.pts.size()<24?"n<24":s.pts.size()<1000?"n<1000":s.pts.size()<32767?"n>=1000":"n>=32767"); if(rounds>1) c.label("sorted again after a change");
    if(good) c.nontrivial(hv);
}
#ifdef NEAREST
PBT_MAIN("at least one query per case returns some but not all of the points", prop)
#else
PBT_MAIN("at least one box per case contains some but not all of the points", prop)
#endif
