#include <algorithm>
#include <array>
#include <map>
#include <fstream>
// P06: charge conjugation of particles, quark contents and decays is the table's antiparticle map.
#include <iomanip>
#include <sstream>
#include "particle_gen.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/QuarkContent.h"
#include <cstring>
using namespace AmpGen;
namespace {
  std::vector<std::array<int,6>> content(const QuarkContent& q){ std::vector<std::array<int,6>> r; for(size_t i=0;i<q.size();++i){ std::array<int,6> a; for(int k=0;k<6;++k) a[k]=q[i][k]; r.push_back(a); } return r; }
  void species(pbt::Gen& g){
    auto& all=pg::db().all; size_t i=g.draw(all.size()); if( pg::db().dup.count(i) ) g.discard(); auto& s=all[i]; g.desc(s.name); if( s.hasAnti ) g.nontrivial();
    auto* p=ParticlePropertiesList::get(s.name,true); g.require(p!=nullptr,"not found by name"); g.require(ParticlePropertiesList::get(s.id,true)==p,"lookup by id gives another particle"); g.require(ParticleProperties::get(s.name,true)==p,"ParticleProperties::get");
    g.require(p->pdgID()==s.id && p->name()==s.name && p->charge()==s.charge && p->twoSpin()==s.twoSpin && p->P()==s.P && p->C()==s.C,"identity, charge, spin or parities"); g.close("mass",p->mass(),s.mass,1e-12); g.close("width",p->width(),s.width,1e-12); if( s.width>0 ) g.close("lifetime in ns times width",p->lifetime()*p->width(),6.582119514e-16,1e-6); int aid=std::abs(s.id); g.require(p->isPhoton()==(s.id==22) && p->isNeutrino()==(aid==12||aid==14||aid==16) && p->isNonResonant()==pg::nonRes(s.name),"photon, neutrino or non-resonant"); g.close("radius",p->radius(),aid==421||aid==411||aid==431||aid==4122 ? 5. : 1.5,1e-12);
    auto& o=all[g.draw(all.size())]; if( o.id!=0 && ParticlePropertiesList::get(o.id,true) ){ auto& q=*ParticlePropertiesList::get(o.id,true); g.require((*p==q)==(s.id==o.id) && (*p<q)==(s.id<o.id) && (*p>q)==(s.id>o.id) && (*p<=q)==(s.id<=o.id) && (*p>=q)==(s.id>=o.id),"comparison with " + o.name); }
    g.require(content(p->quarkContent())==s.quarks,"quark content"); g.require(p->hasDistinctAnti()==s.hasAnti,"distinct antiparticle"); g.require(p->isFermion()==(s.twoSpin%2==1) && p->isBoson()==(s.twoSpin%2==0),"statistics");
    static const auto latex=[]{ std::map<int,std::array<std::string,2>> m; std::ifstream f("/repo/options/pdgID_to_latex.dat"); std::string l; while( std::getline(f,l) ){ std::istringstream i(l); int id; std::string x,y; if( i >> id >> x >> y ) m[id]={x,y}; } return m; }();
    if( latex.count(std::abs(s.id)) && !( s.id<0 && !latex.count(-s.id) ) ) g.require(p->label()==latex.at(std::abs(s.id))[s.id<0],"label is " + p->label());
    static const auto names=ParticlePropertiesList::getMe()->getParticleNames(); static const auto ids=ParticlePropertiesList::getMe()->getParticleIds(); g.require(std::count(names.begin(),names.end(),s.name)==1,"listed once among the names"); if( s.id ) g.require(std::count(ids.begin(),ids.end(),s.id)==1,"listed once among the ids");
    auto a=p->anti(); g.require(a.name()==s.anti,"antiparticle is called " + a.name()); 
    if( s.hasAnti ){ g.require(a.pdgID()==-s.id && a.charge()==-s.charge,"id or charge of the antiparticle"); auto* q=ParticlePropertiesList::get(-s.id,true); g.require(q && q->name()==s.anti,"antiparticle by id"); g.require(a==*q,"anti() is not the listed antiparticle"); auto neg=s.quarks; for(auto& x : neg) for(int& k : x) k=-k; g.require(content(a.quarkContent())==neg,"quark content of the antiparticle"); g.require(a.P()==(s.twoSpin%2?-s.P:s.P) && a.twoSpin()==s.twoSpin,"spin and parity of the antiparticle"); g.close("mass of the antiparticle",a.mass(),s.mass,0); g.close("width of the antiparticle",a.width(),s.width,0); }
    else { g.require(a.pdgID()==s.id && a.charge()==s.charge,"self-conjugate particle is changed"); g.require(ParticlePropertiesList::get(-s.id,true)==nullptr,"self-conjugate particle has a listed antiparticle"); }
    auto b=a.anti(); g.require(b.name()==s.name && b.pdgID()==s.id && b.charge()==s.charge && b.P()==s.P && content(b.quarkContent())==s.quarks,"antiparticle of the antiparticle");
    static const char* bos[]={"S","V","T","H"}; static const char* fe[]={"f","r","e","c"}; if( s.twoSpin<=7 ){ std::string want = s.twoSpin%2==0 ? bos[s.twoSpin/2] : fe[(s.twoSpin-1)/2]; if( s.twoSpin%2 && s.id<0 ) want[0]=std::toupper(want[0]); g.require(p->spinName()==want,"spin name " + p->spinName()); }
    std::string J = s.twoSpin%2 ? std::to_string(s.twoSpin)+"/2" : std::to_string(s.twoSpin/2); g.require(p->J()==J,"J is printed as " + p->J() + ", expected " + J);
    if( s.twoSpin<=2 || s.twoSpin==4 ){ auto pol=p->polarisations(); size_t n = s.id==22 ? 2 : s.twoSpin+1; g.require(pol.size()==n && std::set<int>(pol.begin(),pol.end()).size()==n,"number of polarisation states"); for(int x : pol){ int two = s.twoSpin%2 ? x : 2*x; g.require(std::abs(two)<=s.twoSpin && !(s.id==22 && x==0) && !(s.twoSpin%2 && x==0),"polarisation state out of range"); } }
  }
  // one line of the table: eighteen comma-separated columns, padded with blanks
  void rows(pbt::Gen& g){
    auto num=[&](double lo,double hi){ std::ostringstream o; int k=g.draw(3); double x=g.logreal(lo,hi); if( k==0 ) o << std::scientific << std::setprecision(g.range(1,12)) << x; else if( k==1 ) o << std::setprecision(g.range(1,15)) << x; else o << std::fixed << std::setprecision(g.range(0,6)) << x; return o.str(); };
    std::vector<std::string> c(18); c[0]=num(1e-3,2e5); c[1]=num(1e-6,1e3); c[2]=num(1e-6,1e3); c[3]=num(1e-20,1e4); c[4]=num(1e-6,1e3); c[5]=num(1e-6,1e3); if( g.chance(1,5) ) c[g.pick({1,2,4,5})]="-0.0E+00"; c[6]=g.pick<std::string>({"0","1","1/2","3/2","<2","?",""}); c[7]=g.pick<std::string>({"+","-","","?"}); int twoJ=g.range(-1,9); c[8]= twoJ<0 ? "?" : twoJ%2 ? std::to_string(twoJ)+"/2" : std::to_string(twoJ/2); c[9]=g.pick<std::string>({"+","-","","?"}); c[10]=g.pick<std::string>({"+","-","","?"}); c[11]=g.pick<std::string>({"B","F",""}); int id=g.range(1,9999999); c[12]=std::to_string(id); c[13]=g.pick<std::string>({"+","-","0","++","--",""}); int R=g.range(0,4); c[14]=R?std::to_string(R):""; c[15]=g.pick<std::string>({"R","D","S","F",""}); c[16]=g.pick<std::string>({"K*(892)","Lambda(c)","X","f(0)(980)","nu(e)"}); c[17]=g.pick<std::string>({"uD","uud","sSc","??"});
    std::string line; for(int i=0;i<18;++i) line += (i?",":"") + std::string(g.range(0,3),' ') + c[i] + std::string(g.range(0,3),' '); g.desc(line); g.nontrivial(); auto sgn=[](const std::string& x){ return x=="+"?1:x=="-"?-1:x=="++"?2:x=="--"?-2:0; };
    auto verify=[&](const ParticleProperties& p, int anti){ bool f = twoJ>=0 && twoJ%2==1; g.require(p.isValid(),"a complete line is valid"); g.close("mass",p.mass(),std::stod(c[0])*1e-3,1e-12); g.close("positive error of the mass",p.mErrPlus(),std::stod(c[1])*1e-3,1e-12); g.close("negative error of the mass",p.mErrMinus(),std::stod(c[2])*1e-3,1e-12); g.close("width",p.width(),std::stod(c[3])*1e-3,1e-12); g.close("positive error of the width",p.wErrPlus(),std::stod(c[4])*1e-3,1e-12); g.close("negative error of the width",p.wErrMinus(),std::stod(c[5])*1e-3,1e-12);
      g.require(p.I()==c[6],"isospin is "+p.I()); g.require(p.G()==sgn(c[7]),"G-parity is "+std::to_string(p.G())); g.require(p.twoSpin()==twoJ,"twice the spin is "+std::to_string(p.twoSpin())); g.require(p.P()==sgn(c[9])*(f?anti:1),"parity is "+std::to_string(p.P())); g.require(p.C()==sgn(c[10]),"C-parity is "+std::to_string(p.C())); g.require(p.hasDistinctAnti()==!c[11].empty(),"distinct antiparticle"); g.require(p.pdgID()==anti*id,"id is "+std::to_string(p.pdgID())); g.require(p.charge()==anti*sgn(c[13]),"charge is "+std::to_string(p.charge())); g.require(p.R()==R,"existence is "+std::to_string(p.R())); g.require(c[15].empty() || p.S()==c[15][0],"status"); std::string q=c[13]; if( anti<0 ) for(char& x : q) x = x=='+'?'-':x=='-'?'+':x; g.require(p.name()==c[16]+(anti<0 && c[11]=="F"?"bar":"")+q,"name is "+p.name()); g.require(p.quarkContent()==(anti<0 ? [&]{ QuarkContent k(c[17]); k.antiThis(); return k; }() : QuarkContent(c[17])),"quark content"); };
    ParticleProperties p(line); verify(p,1); if( !c[11].empty() ) verify(p.anti(),-1); else verify(p.anti(),1);
    g.require(!ParticleProperties("* "+line).isValid() && !ParticleProperties("").isValid(),"comments and empty lines are no particles"); g.require(!ParticleProperties(line+",x").isValid() && !ParticleProperties(line.substr(line.find(',')+1)).isValid(),"lines with too many or too few columns are no particles"); g.evals(20); }
  // particles the user adds to the table, or aliases of listed ones
  void custom(pbt::Gen& g){
    static int counter=0; auto* L=ParticlePropertiesList::getMutable(); auto& all=pg::db().all; size_t i=g.draw(all.size()); if( pg::db().dup.count(i) ) g.discard(); auto& s=all[i]; std::string nm="user" + std::to_string(counter++) + "a" + g.pick({std::string(""),std::string("0"),std::string("+"),std::string("(1)*")}); bool alias=g.coin(); 
    { std::vector<char*> junk; for(int k=0;k<40;++k){ junk.push_back(new char[sizeof(ParticleProperties)]); std::memset(junk.back(),'F',sizeof(ParticleProperties)); } for(auto* x : junk) delete[] x; } // (so that members left uninitialised show)
    double mass=0,width=0; int twoJ=0,P=0,Q=0; auto qk=content(QuarkContent("")); std::string what; if( alias ){ what="alias of " + s.name; L->makeAlias(s.name,nm); mass=s.mass; width=s.width; twoJ=s.twoSpin; P=s.P; Q=s.charge; qk=s.quarks; auto* p=ParticlePropertiesList::get(nm,true); g.require(p!=nullptr,"alias is not found"); g.require(p->name()==nm,"alias is called " + p->name()); g.close("mass of the alias",p->mass(),mass,1e-12); g.close("width of the alias",p->width(),width,1e-12); g.require(p->twoSpin()==twoJ && p->P()==P && p->charge()==Q && p->C()==s.C && content(p->quarkContent())==qk,"properties of the alias"); g.require(!p->hasDistinctAnti(),"alias has an antiparticle"); g.require(ParticlePropertiesList::get(s.name,true)->name()==s.name,"original is renamed"); }
    else what="new particle"; 
    std::vector<std::string> tok={"ParticleProperties",nm}; std::vector<int> keys={0,1,2,3,4,5}; g.shuffle(keys); int n=g.range(alias?0:1,6); const char* sg[]={"--","-","0","+","++"};
    for(int k=0;k<n;++k) switch( keys[k] ){ case 0: mass=g.logreal(0.01,100); tok.push_back("mass"); tok.push_back(pbt::str(mass)); break; case 1: width=g.logreal(1e-6,3); tok.push_back("width"); tok.push_back(pbt::str(width)); break; case 2: twoJ=g.range(0,9); tok.push_back("spin"); tok.push_back(twoJ%2?std::to_string(twoJ)+"/2":std::to_string(twoJ/2)); break; case 3: P=g.coin()?1:-1; tok.push_back("parity"); tok.push_back(P>0?"+":"-"); break; case 4: Q=g.range(-2,2); tok.push_back("charge"); tok.push_back(sg[Q+2]); break; default: { std::string t; int m=g.range(1,3); for(int j=0;j<m;++j) t+="duscbtDUSCBT"[g.draw(12)]; qk=pg::parseQuarks(t); tok.push_back("quarks"); tok.push_back(t); } }
    std::string d; for(auto& t : tok) d += t + " "; bool cut=n>0 && g.chance(1,6); if( cut ) tok.pop_back(); g.desc(what + ": " + d + (cut?"(last value missing)":"")); if( n ) g.nontrivial(); g.label(alias?"alias":"new");
    if( cut ){ L->addParticle(tok); g.require(ParticlePropertiesList::get(nm,true)!=nullptr,"particle with an incomplete list of properties is not found"); return; } if( n ) L->addParticle(tok);
    auto* p=ParticlePropertiesList::get(nm,true); g.require(p!=nullptr,"particle is not found"); g.require(p->name()==nm,"particle is called " + p->name()); g.close("mass",p->mass(),mass,1e-9); g.close("width",p->width(),width,1e-9); g.require(p->twoSpin()==twoJ && p->P()==P && p->charge()==Q,"spin, parity or charge: 2J=" + std::to_string(p->twoSpin()) + " P=" + std::to_string(p->P()) + " Q=" + std::to_string(p->charge())); auto c1=content(p->quarkContent()); g.require(c1==qk,"quark content"); g.require(!p->hasDistinctAnti(),"particle added by the user has a distinct antiparticle"); if( !alias ) g.require(p->anti().name()==nm && p->pdgID()==0,"identity of a particle added by the user");
    auto* orig=ParticlePropertiesList::get(s.name,true); g.close("mass of the original",orig->mass(),s.mass,1e-12); g.require(orig->twoSpin()==s.twoSpin && orig->P()==s.P && content(orig->quarkContent())==s.quarks,"the original is changed too");
    if( twoJ%2==0 ){ Particle x(nm + "{K+,pi-}"); g.close("mass of a decaying particle added by the user",x.mass(),mass,1e-9); g.close("spin",x.spin(),twoJ/2.,0); g.require(x.decayDescriptor().find(nm)==0 && x.conj().name()==nm,"conjugate of a particle added by the user"); }
  }
  void quarks(pbt::Gen& g){
    auto text=[&]{ std::string t; int n=g.range(1,3); if( g.chance(1,4) ){ auto w=[&]{ std::string q; int m=g.range(1,3); for(int i=0;i<m;++i) q += "duscbtDUSCBT"[g.draw(12)]; return q; }; t = g.pick({std::string("p("),std::string("x("),std::string("(")}) + w() + g.pick({std::string(")+q("),std::string(")-q("),std::string(")+y(")}) + w() + ( g.chance(1,3) ? g.pick({std::string(")+r("),std::string(")-r(")}) + w() : std::string("") ) + g.pick({std::string(")"),std::string(")/sqrt(2)")}); return t; } for(int i=0;i<n;++i) t += "duscbtDUSCBT"[g.draw(12)]; return t; };
    auto a=text(), b=text(), c=text(); QuarkContent A(a),B(b),C(c); auto ra=pg::parseQuarks(a), rb=pg::parseQuarks(b), rc=pg::parseQuarks(c); g.desc(a + " and " + b + " and " + c); if( ra.size()>1 || rb.size()>1 ) g.nontrivial();
    auto neg=[](std::vector<std::array<int,6>> v){ for(auto& x : v) for(int& k : x) k=-k; return v; };
    auto as=[](std::vector<std::array<int,6>> v){ std::sort(v.begin(),v.end()); return v; };
    g.require(as(content(A))==as(ra),"parsed content of " + a); g.require(as(content(A+B))==as(pg::sum(ra,rb)),"A+B"); g.require(as(content(A-B))==as(pg::sum(ra,neg(rb))),"A-B"); auto D=A; D+=B; g.require(as(content(D))==as(pg::sum(ra,rb)),"A+=B"); D=A; D-=B; g.require(as(content(D))==as(pg::sum(ra,neg(rb))),"A-=B"); g.require(as(content((A+B)+C))==as(content(A+(B+C))),"associativity");
    auto N=A; N.antiThis(); g.require(as(content(N))==as(neg(ra)),"antiThis"); g.require((A==B)==pg::sameFlavour(ra,rb) && (A!=B)==!pg::sameFlavour(ra,rb) && (B==A)==(A==B),"comparison"); g.require(A==A,"reflexive");
    auto vac=A; vac-=A; std::array<int,6> z{}; auto cv=content(vac); g.require(std::find(cv.begin(),cv.end(),z)!=cv.end(),"A-A contains the vacuum");
  }
  std::string shape(const Particle& p){ std::string s=p.name() + "/L" + std::to_string(p.daughters().size()==2 ? p.L() : 0) + "S" + std::to_string((int)p.S()) + "/" + p.lineshape(); for(auto k : {"key","keys","ke","r","type","vertex"}) if( p.attribute(k) ) s += std::string("/") + k + "=" + *p.attribute(k); std::vector<std::string> d; for(auto& x : p.daughters()) d.push_back(shape(*x)); std::sort(d.begin(),d.end()); for(auto& x : d) s += "{" + x + "}"; return s; }
  void decays(pbt::Gen& g){
    pg::Opts o; o.maxLeaves=5; auto t=pg::tree(g,o); 
    // (the table lists a few flavoured exotics, such as Z(c)(3900)+, without an antiparticle)
    bool odd=false; std::function<void(const pg::Node&)> look=[&](const pg::Node& x){ auto& s=pg::db()[x.name]; if( !s.hasAnti ){ auto a=s.quarks, b=a; for(auto& y : b) for(int& k : y) k=-k; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); if( a!=b || s.charge ) odd=true; } for(auto& y : x.d) look(y); }; look(t); if( odd )g.discard();
    g.desc(t.str()); auto ct=pg::conjTree(t); if( ct.str()!=t.str() ) g.nontrivial();
    Particle p(t.str()); auto c=p.conj(); Particle want(ct.str());
    g.require(shape(c)==shape(want),"conjugate decay " + c.decayDescriptor() + " is not the decay with every particle replaced by its antiparticle:\n " + shape(c) + "\n " + shape(want));
    if( !pg::ambiguous(t) ) g.require(c.decayDescriptor()==want.decayDescriptor(),"descriptor of the conjugate is " + c.decayDescriptor() + ", expected " + want.decayDescriptor());
    g.require(Particle(c.decayDescriptor()).decayDescriptor()==c.decayDescriptor(),"descriptor of the conjugate does not round trip");
    auto cc=c.conj(); g.require(shape(cc)==shape(p) && (pg::ambiguous(t) || cc.decayDescriptor()==p.decayDescriptor()),"conjugating twice gives " + cc.decayDescriptor());
    // in the canonical order the conjugate has its daughters in the same positions
    if( !pg::ambiguous(t) ){ std::function<void(const Particle&,const Particle&)> pos=[&](const Particle& a, const Particle& b){ if( a.daughters().size()!=b.daughters().size() ) g.fail("tree shape"); for(size_t i=0;i<a.daughters().size();++i){ bool selfConjHead = !pg::db()[a.name()].hasAnti; if( !selfConjHead ) g.require(pg::db()[a.daughter(i)->name()].anti==b.daughter(i)->name(),"decay products of " + a.name() + " change places under conjugation"); if( !selfConjHead ) pos(*a.daughter(i),*b.daughter(i)); } }; pos(p,c); }
    auto half=p.conj(false); g.require(half.name()==p.name(),"head is conjugated although asked not to");
    auto q=p.clone(); q.conjThis(); // conjThis replaces every species in place
    std::function<void(const Particle&,const Particle&)> walk=[&](const Particle& a, const Particle& b){ g.require(b.props()->name()==pg::db()[a.name()].anti,"conjThis: " + a.name() + " became " + b.props()->name()); for(size_t i=0;i<a.daughters().size();++i) walk(*a.daughter(i),*b.daughter(i)); }; walk(p,q);
    // net flavour and charge change sign
    auto f1=p.daughterQuarks(), f2=c.daughterQuarks(); f2.antiThis(); auto s1=content(f1), s2=content(f2); std::sort(s1.begin(),s1.end()); std::sort(s2.begin(),s2.end()); g.require(s1==s2,"flavour of the decay products of the conjugate");
  }
}
int main(int argc, char** argv){
  pbt::Check c("P06","the particle has a distinct antiparticle, the quark content is a superposition, or the decay is not self-conjugate"); c.scale(10);
  c.prop("species", 4000, 20000, species); c.prop("rows", 3000, 60000, rows); c.prop("custom", 6000, 60000, custom); c.prop("quarks", 20000, 400000, quarks); c.prop("decays", 20000, 400000, decays);
  return c.main(argc,argv);
}
