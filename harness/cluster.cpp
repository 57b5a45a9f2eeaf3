// computeClustering() against its documented construction (C23).
#include "model.h"
using namespace pm;
struct In { PS s; std::vector<int> ids; };
static PS permute(const PS& s,const std::vector<int>& o){ PS r=s; for(size_t k=0;k<s.attrs.size();k++){ auto& a=s.attrs[k]; for(int i=0;i<s.n;i++) for(int j=0;j<a.count;j++) r.attrs[k].data[(size_t)i*a.count+j]=a.data[(size_t)o[i]*a.count+j]; } return r; }
static void prop(Ctx& c){
    GenOpt o; o.zero=true; o.requirePosition=false; o.floatCls=2; o.maxAttrs=4; o.big=false; o.manyAttrs=false; o.dupStrings=true; o.maxCount=6; o.strLen=30; o.manyStrings=false; o.reserved={"position","id","clusterId"}; o.maxN=c.chance(1,6)?150:25; PS s=genPS(c,o);
    int kind=(int)c.draw(4); double scale= kind==3? 0.1:1; Attr P; P.name="position"; P.type=VECTOR; P.count=3; Rng g(c.draw(1ull<<32)); for(int i=0;i<3*s.n;i++){ uint64_t r=g.next(); float f; switch(kind){ case 0: f=(float)(r%4000001)/400000.f; break; case 1: f=(float)(r%5); break; case 2: f= i%3? 0.f:(float)(r%1000001)/50000.f; break; default: f=(float)(r%4000001)/400000.f*(float)scale-3.f; } P.data.push_back(asU(f)); }
    Attr I; I.name="id"; I.type=INT; I.count=1; std::set<int> used; for(int i=0;i<s.n;i++){ int v; do { uint64_t r=g.next(); v= kind==0? (int)(r%100000) : (int)(r%400)-200; } while(!used.insert(v).second); I.data.push_back((uint32_t)v); }
    s.attrs.insert(s.attrs.begin()+c.draw(s.attrs.size()+1),P); s.attrs.insert(s.attrs.begin()+c.draw(s.attrs.size()+1),I); bool again=c.chance(1,8); if(again){ Attr a; a.name="clusterId"; a.type=c.chance(3,4)?INT:FLOAT; a.count=1; fillData(c,a,s.n,2); s.attrs.insert(s.attrs.begin()+c.draw(s.attrs.size()+1),a); c.label("has a clusterId already"); }
    int nn= kind==1? s.n+(int)c.range(0,3) : (int)c.range(1,std::max(2,std::min(s.n+2,12))); double R= kind==1? 0.5+(double)c.range(0,3) : (kind==3?0.1:1.0)*(0.3+(double)c.range(0,60)/7.0); double inside= c.chance(1,4)? 100 : c.chance(1,8)? (c.chance(1,2)?-5.0:250.0) : (double)c.range(0,99); int conn=(int)c.range(0,6); double dens= (double)c.range(0,40)/4.0/(kind==3?0.1:1); if(s.n<=6&&c.chance(1,6)) dens=(double)c.range(20,400)/(kind==3?0.1:1);
    bool inter=false; Holder h(build(s,inter)); auto* p=static_cast<ParticlesDataMutable*>(h.p);
    c.note("%s; %d neighbours within %g, inside %g, %d connections, density %g",describe(s).c_str(),nn,R,inside,conn,dens);
    ParticlesDataMutable* q=Partio::computeClustering(p,nn,R,inside,conn,dens); CHECK(q,"no clusters were returned"); Holder hq(q); cmpExact(s,extract(p)); PS r=extract(q);
    // schema
    std::vector<Attr> want; for(auto& a:s.attrs) if(a.name!="clusterId") want.push_back(a); CHECK(r.attrs.size()==want.size()+1,"%zu attributes, expected %zu",r.attrs.size(),want.size()+1); for(auto& a:want){ const Attr* b=find(r.attrs,a.name); CHECK(b&&b->type==a.type&&b->count==a.count,"attribute '%s' is missing or of another shape",esc(a.name).c_str()); if(a.type==INDEXEDSTR) CHECK(b->strings==a.strings,"strings of '%s' differ",esc(a.name).c_str()); } const Attr* C=find(r.attrs,"clusterId"); CHECK(C&&C->type==INT&&C->count==1,"no clusterId");
    const Attr& pos=*find(want,"position"); const Attr& rp=*find(r.attrs,"position"); auto at=[&](int i,int k){ return (double)asF(pos.data[3*i+k]); };
    auto dist=[&](int a,int b){ double d=0; for(int k=0;k<3;k++){ double e=at(a,k)-at(b,k); d+=e*e; } return std::sqrt(d); };
    double in=std::min(100.0,std::max(0.0,inside))*0.01*R; int cur=0; int total=0, conns=0;
    for(int i=0;i<s.n;i++){
        CHECK(cur<r.n,"particle %d is missing from the result",i); CHECK(C->data[cur]==0,"clusterId of the original particle %d is %d",i,(int)C->data[cur]);
        for(auto& a:want){ auto& b=*find(r.attrs,a.name); for(int k=0;k<a.count;k++) CHECK(a.data[(size_t)i*a.count+k]==b.data[(size_t)cur*a.count+k],"'%s' of original particle %d differs",esc(a.name).c_str(),i); }
        int self=cur++; (void)self;
        // neighbours
        std::vector<std::pair<double,int>> d; for(int j=0;j<s.n;j++) d.push_back({dist(i,j),j}); std::sort(d.begin(),d.end()); bool unsure=false; std::vector<int> nb; for(auto& x:d){ if(std::fabs(x.first-R)<1e-5*R) unsure=true; if(x.first<=R && (int)nb.size()<nn) nb.push_back(x.second); } if((int)nb.size()==nn&&nn<s.n){ double a=dist(i,nb.back()), b=d[nn].first; if(b-a<1e-5*(a+1e-3)) unsure=true; }
        std::vector<std::pair<int,int>> byId; for(int j:nb) if(j!=i) byId.push_back({(int)find(s.attrs,"id")->data[j],j}); std::sort(byId.begin(),byId.end()); if((int)byId.size()>conn) byId.resize(conn);
        int cid=1; auto expected=[&](int j,double& e,int& lo,int& hi){ double len=dist(i,j); if(len<in) e=dens*len; else if(R-in<=0) e=0; else { double t=1-(len-in)/(R-in); e=dens*len*(3-2*t)*t*t; } lo=std::max(0,(int)std::floor(e-1e-4*(1+e))); hi=(int)std::floor(e+1e-4*(1+e)); if(std::fabs(len-in)<1e-5*R&&in>=R*0.9999) lo=0; };
        for(auto& x:byId){ double e; int lo,hi; expected(x.second,e,lo,hi); if(lo!=hi) unsure=true; }
        if(unsure){ while(cur<r.n&&C->data[cur]!=0){ CHECK((int)C->data[cur]==cid,"clusterId %d where %d is expected",(int)C->data[cur],cid); cid++; cur++; } c.label("ambiguous neighbours"); continue; }
        for(auto& x:byId){ int j=x.second; double len=dist(i,j); double e; int lo,hi; expected(j,e,lo,hi);
            int got=0; double tmin=2,tmax=-1; std::vector<double> ts; 
            while(cur<r.n && C->data[cur]!=0 && got<hi){ 
                CHECK((int)C->data[cur]==cid,"clusterId of instance %d of particle %d is %d",cid,i,(int)C->data[cur]); double L2=len*len,t=0; for(int k=0;k<3;k++) t+=((double)asF(rp.data[3*cur+k])-at(i,k))*(at(j,k)-at(i,k)); t=L2>0?t/L2:0; CHECK(t>-1e-3&&t<1+1e-3,"instance %d of particle %d lies at %g of the way to its neighbour %d",cid,i,t,j); tmin=std::min(tmin,t); tmax=std::max(tmax,t); ts.push_back(t);
                double terr=1e-6*(std::fabs(at(i,0))+std::fabs(at(i,1))+std::fabs(at(i,2))+len)/len+1e-6;
                for(auto& a:want){ auto& b=*find(r.attrs,a.name); for(int k=0;k<a.count;k++){ uint32_t v=b.data[(size_t)cur*a.count+k], w=a.data[(size_t)i*a.count+k]; if(isFloatT(a.type)){ double x0=asF(w), x1=asF(a.data[(size_t)j*a.count+k]), y=asF(v), z=x0+t*(x1-x0); double tol=4*terr*std::fabs(x1-x0)+2e-6*(std::fabs(x0)+std::fabs(x1))+1e-30; CHECK(std::fabs(y-z)<=tol,"'%s' comp %d of instance %d of particle %d is %g, expected %g (%g of the way from %g to %g)",esc(a.name).c_str(),k,cid,i,y,z,t,x0,x1); } else CHECK(v==w,"'%s' of instance %d of particle %d is %d, expected %d",esc(a.name).c_str(),cid,i,(int)v,(int)w); } }
                cur++; cid++; got++; total++; }
            CHECK(got>=lo,"%d instances between particles %d and %d (distance %g), expected %g",got,i,j,len,e); if(got>=8) CHECK(tmax-tmin>1e-3,"%d instances between particles %d and %d all at the same place",got,i,j); if(got>=16){ std::sort(ts.begin(),ts.end()); int same=0; double w=1e-6*(std::fabs(at(i,0))+std::fabs(at(i,1))+std::fabs(at(i,2)))/len+1e-6; for(int q=1;q<got;q++) same+= ts[q]-ts[q-1]<1e-9; if(w<2e-5) CHECK(same<=2+got/50,"%d of the %d instances between particles %d and %d lie exactly where another lies",same,got,i,j); c.label(got>64?"more than 64 instances on a connection":"16 or more instances on a connection"); } if(got) conns++; }
        CHECK(cur>=r.n||C->data[cur]==0,"more instances than expected after particle %d",i); }
    CHECK(cur==r.n,"%d particles in the result, expected %d",r.n,cur);
    // the same again, and with the particles in another order
    ParticlesDataMutable* q2=Partio::computeClustering(p,nn,R,inside,conn,dens); Holder h2(q2); cmpExact(r,extract(q2));
    if(kind!=1&&s.n>1&&c.chance(1,2)){ std::vector<int> ord; for(int i=0;i<s.n;i++) ord.push_back(i); for(int i=s.n-1;i>0;i--) std::swap(ord[i],ord[g.next()%(i+1)]); PS t=permute(s,ord); Holder h3(build(t)); ParticlesDataMutable* q3=Partio::computeClustering(static_cast<ParticlesDataMutable*>(h3.p),nn,R,inside,conn,dens); Holder h4(q3); PS u=extract(q3); auto groups=[&](const PS& x){ std::map<int,std::string> m; const Attr& id=*find(x.attrs,"id"); for(int i=0;i<x.n;i++) for(auto& a:x.attrs) m[(int)id.data[i]].append((const char*)&a.data[(size_t)i*a.count],4*a.count); return m; }; bool ties=false; for(int i=0;i<s.n&&!ties;i++) for(int j=0;j<i;j++) for(int k=0;k<j;k++) if(dist(i,j)==dist(i,k)||dist(j,i)==dist(j,k)||dist(k,i)==dist(k,j)){ ties=true; break; } if(!ties){ CHECK(groups(u)==groups(r),"the result depends on the order of the particles"); c.label("reordered"); } }
    c.label(total?"with instances":"no instances"); c.label(fmt("kind %d",kind)); if(total>=2&&conns>=1) c.nontrivial(hashPS(r));
}
PBT_MAIN("a set for which at least two instances are created, every original and instance checked attribute by attribute", prop)
