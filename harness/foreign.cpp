// Files as other software writes them, read and compared with what they denote.
#include "enc.h"
using namespace pm;
#ifndef FORMATS
#define FORMATS {"bgeo","geo","pdb","pda","pdc"}
#endif
static void prop(Ctx& c){
    static const std::vector<std::string> mine=FORMATS; const std::string& want=mine[c.draw(mine.size())]; Sample s; for(auto& e:encoders()) if(e.first==want) s=e.second(c);
    int comp= gzFormat(s.ext)? (int)c.weighted({4,1,1}) : 0; std::string file=c.path("f."+s.ext+(comp==1?".gz":"")); writeFile(file,comp?gzEncode(s.bytes):s.bytes); std::string err; Holder h(readQ(file,&err)); CHECK(h.p,"%s cannot be read: %s",s.kind.c_str(),err.c_str()); PS got=extract(static_cast<ParticlesData*>(h.p)); cmpExact(s.want,got,true,want=="ptc"?ptcEq:bitEq); unlink(file.c_str());
    Holder hh(Partio::readHeaders((writeFile(file,comp?gzEncode(s.bytes):s.bytes),file.c_str()),true,*new std::ostringstream)); CHECK(hh.p,"headers of %s cannot be read",s.kind.c_str()); unlink(file.c_str());
    c.label(s.kind); c.label(comp?"gzip":"plain"); if(s.want.n>=2&&s.want.attrs.size()>=2) c.nontrivial(hashPS(s.want)+s.kind);
}
PBT_MAIN("a file with at least two particles and two attributes, produced by an encoder written from the format description, compared value by value with what it denotes", prop)
