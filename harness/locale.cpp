// Reading and writing do not depend on the locale of the program (C17).
#include "files.h"
#include <locale>
#include <clocale>
using namespace pm;
struct Punct: std::numpunct<char> { char dp, ts; std::string gr; Punct(char d,char t,std::string g):dp(d),ts(t),gr(g){} char do_decimal_point() const override { return dp; } char do_thousands_sep() const override { return ts; } std::string do_grouping() const override { return gr; } std::string do_truename() const override { return "wahr"; } };
struct Space: std::ctype<char> { static const mask* tab(){ static mask t[table_size]; static bool done=false; if(!done){ std::copy(classic_table(),classic_table()+table_size,t); t[(unsigned char)',']=(mask)(t[(unsigned char)',']|space); t[(unsigned char)'.']=(mask)(t[(unsigned char)'.']|space); t[(unsigned char)'0']=(mask)(t[(unsigned char)'0']&~digit); done=true; } return t; } Space():std::ctype<char>(tab()){} };
static bool haveC=false;
struct InLocale { std::locale old; bool c; InLocale(const std::locale& l,bool c_):old(std::locale::global(l)),c(c_&&haveC){ if(c) setlocale(LC_ALL,"de_DE.UTF-8"); else setlocale(LC_ALL,"C"); } ~InLocale(){ std::locale::global(old); setlocale(LC_ALL,"C"); } };
static void prop(Ctx& c){
    std::locale l=std::locale::classic(); static const std::vector<std::string> gs={"\3","\1","\2\3",""}; char dp=c.chance(1,2)?',':c.chance(2,3)?'.':'_', ts="._ ,'"[c.draw(5)]; if(ts==dp) ts=dp=='.'?',':'.'; std::string g=gs[c.draw(gs.size())]; l=std::locale(l,new Punct(dp,ts,g)); bool sp=c.chance(1,5); if(sp) l=std::locale(l,new Space); bool cl=c.chance(1,2);
    c.note("decimal '%c' separator '%c' groups %zu%s%s",dp,ts,g.size(),sp?" other spaces":"",cl&&haveC?" and C locale de_DE":"");
    if(c.chance(1,2)){ std::vector<std::string> ex=writableExts(); ex.push_back("rib"); for(auto t:{"geo","pda","rib","hclassic"}) for(int i=0;i<3;i++) ex.push_back(t); std::string ext=c.pick(ex); GenOpt o=commonOpt(); if(ext=="prt") o.minN=1; o.big=c.chance(1,40); o.maxN=3000; PS s=genPS(c,o); Holder h(build(s)); std::string p=c.path("a."+ext); unlink(p.c_str());
        bool gz=c.chance(1,6); writeQ(p,*static_cast<ParticlesData*>(h.p),gz); std::string a=readFile(p); CHECK(!a.empty(),"no .%s file was written",ext.c_str()); unlink(p.c_str()); { InLocale il(l,cl); std::ostringstream es; es.imbue(std::locale::classic()); Partio::write(p.c_str(),*static_cast<ParticlesData*>(h.p),gz,true,es); } std::string b=readFile(p); size_t i=0; while(i<a.size()&&i<b.size()&&a[i]==b[i]) i++; CHECK(a==b,"the .%s file differs when written under another locale: at %zu '%s' instead of '%s'",ext.c_str(),i,esc(b.substr(i,20)).c_str(),esc(a.substr(i,20)).c_str());
        unlink(p.c_str()); c.label("write "+ext); c.note("write %s %s",ext.c_str(),describe(s).c_str()); if(s.n>=1&&s.attrs.size()>=2) c.nontrivial(hashPS(s)+ext+dp+ts+g); return; }
    std::vector<std::string> only; if(c.chance(2,3)) only={"geo","hclassic","pda","pts"}; AnyFile f=anyFile(c,only); bool gz=f.gz&&c.chance(1,6); std::string p=c.path("a."+f.ext); writeFile(p,gz?gzEncode(f.bytes):f.bytes); PS x=readBack(p), y; bool hd=true; { InLocale il(l,cl); y=readBack(p); std::ostringstream es; Holder h(Partio::readHeaders(p.c_str(),true,es)); hd=h.p; if(h.p) y.n=h.p->numParticles(); }
    CHECK(hd,"headers of %s cannot be read under another locale",f.kind.c_str()); cmpExact(x,y); unlink(p.c_str()); c.label("read "+f.kind); if(x.n>=1&&x.attrs.size()>=2) c.nontrivial(hashPS(x)+f.kind+dp+ts+g);
}
int main(int argc,char** argv){ haveC=setlocale(LC_ALL,"de_DE.UTF-8")!=nullptr&&*localeconv()->decimal_point==','; setlocale(LC_ALL,"C"); return pbtMain(argc,argv,"a set of at least one particle and two attributes, written or read under the classic and under another locale, bytes or values compared",prop); }
