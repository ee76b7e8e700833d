// P07: angular-momentum and parity selection rules of two-body decays, and the parities derived from them.
#include "particle_gen.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
using namespace AmpGen;
namespace {
  std::string lsText(const std::vector<std::pair<int,int>>& v){ std::string s; for(auto& x : v) s += "(" + std::to_string(x.first) + "," + std::to_string(x.second) + "/2)"; return s; }
  void couplings(pbt::Gen& g){
    auto& all=pg::names(9); pg::Node n; auto pick=[&]{ return g.coin() ? g.pick(pg::common()) : g.pick(all); }; n.name = g.chance(1,25) ? g.pick({std::string("W+"),std::string("W-"),std::string("Z0")}) : pick(); pg::Node a,b; a.name=pick(); b.name=pick(); n.d={a,b}; auto &H=pg::db()[n.name], &A=pg::db()[a.name], &B=pg::db()[b.name];
    if( pg::nonRes(a.name) || pg::nonRes(b.name) ) g.discard(); // non-resonant systems only exist as decaying particles
    if( (H.twoSpin+A.twoSpin+B.twoSpin)%2 ) g.discard(); // no angular momentum conserving configuration exists at all
    g.desc(n.str() + " 2J=" + std::to_string(H.twoSpin) + "," + std::to_string(A.twoSpin) + "," + std::to_string(B.twoSpin)); if( A.twoSpin && B.twoSpin ) g.nontrivial(); if( H.twoSpin%2 || A.twoSpin%2 ) g.label("half-integer");
    Particle p(n.name,Particle(a.name,0u),Particle(b.name,1u));
    for(bool parity : {false,true}){ auto want=pg::couplings(H,A,B,parity); auto got=p.spinOrbitCouplings(parity); std::vector<std::pair<int,int>> gi; for(auto& x : got){ g.require(x.first==std::floor(x.first) && 2*x.second==std::floor(2*x.second),"non-integer L or 2S"); gi.push_back({int(x.first),int(2*x.second)}); } std::sort(gi.begin(),gi.end()); std::sort(want.begin(),want.end());
      g.require(gi==want,std::string("spin-orbit couplings ") + (parity?"with":"without") + " parity are " + lsText(gi) + ", expected " + lsText(want));
      auto r=p.orbitalRange(parity); if( want.empty() ) g.require(r.first==999,"a range of L is given although no L is allowed"); else g.require((int)r.first==want.front().first && (int)r.second==want.back().first,"range of L is " + std::to_string(r.first) + ".." + std::to_string(r.second) + ", expected " + lsText(want)); }
    for(unsigned L=0;L<6;++L) g.require(p.conservesParity(L)==(H.P==A.P*B.P*(L%2?-1:1)),"conservesParity(" + std::to_string(L) + ")");
    // ground state: lowest allowed L, with parity imposed if the flavour allows a strong decay
    bool strong=pg::strong(n); g.label(strong?"strong":"weak"); auto ok=pg::couplings(H,A,B,strong); unsigned want = ok.empty() ? 999 : ok.front().first; g.require(p.L()==want,"ground state of a " + std::string(strong?"strong":"weak") + " decay has L = " + std::to_string(p.L()) + ", expected " + std::to_string(want));
    if( !ok.empty() ){ Particle q(n.str()); g.require(q.L()==want,"ground state of the parsed decay has L = " + std::to_string(q.L()) + ", expected " + std::to_string(want)); }
    g.close("spin",p.spin(),H.twoSpin/2.,0); g.require(p.parity()==H.P,"parity"); g.close("mass",p.mass(),H.mass,1e-12);
    g.require(p.isWeakDecay()==!strong,"isWeakDecay"); g.require(p.isQuasiStable()==(H.width<1e-6 && n.name!="gamma0"),"quasi-stable"); 
  }
  // flavour of non-resonant systems is that of their products, however many and however deep
  void flavours(pbt::Gen& g){
    auto leaf=[&]{ pg::Node x; do x.name=g.pick(pg::common()); while( pg::nonRes(x.name) || pg::db()[x.name].twoSpin%2 ); return x; };
    pg::Node nr; nr.name=g.pick({std::string("NonResS0"),std::string("NonResV0"),std::string("NonResA0")}); if( !pg::db().has(nr.name) ) g.discard(); int k=g.range(2,4); for(int i=0;i<k;++i) nr.d.push_back(leaf()); if( g.chance(1,4) && k>2 ){ pg::Node in; in.name="NonResS0"; in.d={nr.d[0],nr.d[1]}; nr.d.erase(nr.d.begin(),nr.d.begin()+2); nr.d.push_back(in); }
    std::function<bool(const pg::Node&)> okAll=[&](const pg::Node& n){ if( n.d.size()==2 && pg::couplings(pg::db()[n.name],pg::db()[n.d[0].name],pg::db()[n.d[1].name],pg::strong(n)).empty() ) return false; for(auto& x : n.d) if( !okAll(x) ) return false; return true; };
    pg::Node h; h.d={leaf(),nr}; if( g.coin() ) std::swap(h.d[0],h.d[1]); auto fl=pg::daughterFlavour(h); std::vector<std::string> same,other; for(auto& n : pg::common()) if( !pg::nonRes(n) && pg::db()[n].twoSpin%2==0 ) (pg::sameFlavour(pg::db()[n].quarks,fl) ? same : other).push_back(n); auto& from = !same.empty() && g.chance(2,3) ? same : other; h.name=g.pick(from);
    g.desc(h.str()); if( !okAll(h) ) g.discard(); bool strong=pg::strong(h); g.label(strong?"strong":"weak"); if( nr.d.size()!=2 ) g.nontrivial();
    Particle p(h.str()); auto want=pg::couplings(pg::db()[h.name],pg::db()[h.d[0].name],pg::db()[h.d[1].name],strong); g.require(p.isWeakDecay()==!strong,std::string("isWeakDecay, although the flavours ")+(strong?"agree":"differ")); g.require((int)p.L()==want.front().first,"ground state L = " + std::to_string(p.L()) + ", expected " + std::to_string(want.front().first));
  }
  struct Ref { int fp, c; };
  Ref ref(const pg::Node& n){ Ref r{1,1}; if( n.d.size()==1 ){ return ref(n.d[0]); } for(auto& d : n.d){ auto x=ref(d); int C=pg::db()[d.name].C; r.fp*=x.fp; r.c*=x.c*(C==0?1:C); } if( n.d.size()==2 ){ int f = pg::db()[n.name].twoSpin - 2*n.L - pg::db()[n.d[0].name].twoSpin - pg::db()[n.d[1].name].twoSpin; if( (f/2)%2 ) r.fp*=-1; } return r; }
  void parities(pbt::Gen& g){ pg::Opts o; o.maxLeaves=5; o.multi=false; auto t=pg::tree(g,o); g.desc(t.str()); if( t.count()>=5 ) g.nontrivial(); Particle p(t.str()); auto r=ref(t); g.require(p.finalStateParity()==r.fp,"final state parity " + std::to_string(p.finalStateParity()) + ", expected " + std::to_string(r.fp)); g.require(p.C()==r.c,"C of the decay " + std::to_string(p.C()) + ", expected " + std::to_string(r.c)); g.require(p.CP()==r.c*r.fp,"CP of the decay");
    g.label(r.fp>0?"even":"odd"); }
}
int main(int argc, char** argv){
  pbt::Check c("P07","both decay products have spin, or the tree has at least two decaying particles"); c.scale(15);
  c.assume("parity of a decay is judged conserved by the library when quark contents of the decaying particle and of its products overlap (W and Z excepted)");
  c.prop("couplings", 40000, 1000000, couplings); c.prop("parities", 30000, 600000, parities); c.prop("flavours", 10000, 200000, flavours);
  return c.main(argc,argv);
}
