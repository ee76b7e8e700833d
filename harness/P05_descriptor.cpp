// P05: decay descriptors are parsed into the decay tree they spell out, printed back in a canonical
// form that parses to the same tree, and matched to the final state.
#include "particle_gen.h"
#include "AmpGen/Particle.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/MsgService.h"
using namespace AmpGen;
namespace {
  // structure of a Particle vs. a generated tree, daughters as multisets
  std::string canon(const Particle& p, bool mods){ std::string s=p.name(); if( mods ){ s += "/L" + std::to_string(p.daughters().size()==2 ? p.L() : 0) + "S" + std::to_string((int)p.S()); s += "/" + p.lineshape(); for(auto k : {"key","keys","ke","r","type","vertex"}) if( p.attribute(k) ) s += std::string("/") + k + "=" + *p.attribute(k); } std::vector<std::string> d; for(auto& x : p.daughters()) d.push_back(canon(*x,mods)); std::sort(d.begin(),d.end()); if( !d.empty() ){ s+="{"; for(auto& x : d) s+=x+","; s+="}"; } return s; }
  std::string canon(const pg::Node& n){ std::string s=n.name; std::vector<std::string> d; for(auto& x : n.d) d.push_back(canon(x)); std::sort(d.begin(),d.end()); if( !d.empty() ){ s+="{"; for(auto& x : d) s+=x+","; s+="}"; } return s; }
  void nodeCheck(pbt::Gen& g, const pg::Node& n, const Particle& p){ // by matching daughters (names plus full structure)
    g.require(p.name()==n.name, "name " + p.name() + ", expected " + n.name); g.require(p.daughters().size()==n.d.size(), "number of decay products of " + n.name);
    if( n.d.size()==2 ){ g.require((int)p.L()==n.L, "orbital angular momentum of " + n.str() + " is " + std::to_string(p.L()) + ", expected " + std::to_string(n.L)); g.require((int)p.S()==n.spinConf, "spin configuration of " + n.str()); }
    if( n.lineshape!="" ) g.require(p.lineshape()==n.lineshape, "lineshape of " + n.str() + " is " + p.lineshape());
    for(auto& m : n.modList){ auto e=m.find('='); if( e!=std::string::npos ){ auto a = p.attribute(m.substr(0,e)); g.require(a && *a==m.substr(e+1), "attribute " + m + " of " + n.str()); for(std::string k : {m.substr(0,e-1),m.substr(0,e)+"x",std::string("")}){ bool given=false; for(auto& q : n.modList) given|=q.rfind(k+"=",0)==0; if( !given ) g.require(!p.attribute(k),"attribute " + k + " that was not given to " + n.str()); } } }
    std::vector<bool> used(n.d.size(),false);
    for(auto& x : p.daughters()){ bool ok=false; for(size_t i=0;i<n.d.size() && !ok;++i){ if( used[i] || n.d[i].name!=x->name() || canon(n.d[i])!=canon(*x,false) ) continue; bool unique=true; for(size_t j=0;j<n.d.size();++j) if( j!=i && canon(n.d[j])==canon(n.d[i]) ) unique=false; used[i]=ok=true; if( unique || n.d.size()==1 ) nodeCheck(g,n.d[i],*x); } g.require(ok, "decay product " + x->decayDescriptor() + " of " + n.name + " is not in the descriptor"); } }
  void roundtrip(pbt::Gen& g){
    pg::Opts o; o.letters=true; o.maxLeaves = g.chance(1,6) ? 8 : 5; auto t = pg::tree(g,o); std::string s=t.str(); g.desc(s); if( t.count()>=4 ) g.nontrivial();
    Particle p(s); nodeCheck(g,t,p);
    std::string u=p.decayDescriptor(); g.require(u==p.uniqueString(),"decayDescriptor and uniqueString differ");
    Particle q(u); g.require(q.decayDescriptor()==u, "printed form " + u + " is printed as " + q.decayDescriptor() + " when parsed again");
    g.require(canon(p,true)==canon(q,true), "printed form " + u + " does not parse to the same decay:\n  " + canon(p,true) + "\n  " + canon(q,true)); nodeCheck(g,t,q);
    g.require(Particle::isValidDecayDescriptor(u) && Particle::isValidDecayDescriptor(s), "descriptor is not recognised as valid");
    Particle c=p.clone(); g.require(c.decayDescriptor()==u && canon(c,true)==canon(p,true), "clone differs");
    g.require(p.matches(q)==Particle::MatchState::Exact, "does not match itself exactly");
    // order of the decay products in the text is immaterial
    auto t2=t; pg::shuffleTree(g,t2); if( !pg::ambiguous(t) ){ Particle r(t2.str()); g.require(r.decayDescriptor()==u, "written as " + t2.str() + " the canonical form is " + r.decayDescriptor() + " rather than " + u); } else g.label("ambiguous siblings");
    std::vector<std::string> lv, got; t.leaves(lv); for(auto& f : p.getFinalStateParticles(false)) got.push_back(f->name()); std::sort(lv.begin(),lv.end()); std::sort(got.begin(),got.end()); g.require(lv==got,"final state particles");
    auto et=p.eventType(); auto fs=et.finalStates(); std::sort(fs.begin(),fs.end()); g.require(et.mother()==t.name && fs==lv, "event type of the decay");
  }
  void collectL(const pg::Node& n, std::vector<const pg::Node*>& o){ if( n.d.size()==2 ) o.push_back(&n); for(auto& x : n.d) collectL(x,o); }
  void distinct(pbt::Gen& g){ // two different decays never share a descriptor
    pg::Opts o; o.maxLeaves=4; auto t=pg::tree(g,o); auto t2=t; std::vector<pg::Node*> nodes; std::function<void(pg::Node&)> col=[&](pg::Node& n){ nodes.push_back(&n); for(auto& x : n.d) col(x); }; col(t2); auto* n=g.pick(nodes); std::string why;
    switch( g.range(0,3) ){
      case 0: { if( n->d.size()!=2 ) g.discard(); auto Ls=pg::allowedL(*n); std::vector<int> v; for(int l : Ls) if( l<=6 && l!=n->L ) v.push_back(l); if( v.empty() ) g.discard(); int l=g.pick(v); n->modList.erase(std::remove_if(n->modList.begin(),n->modList.end(),[](auto& m){ return m.size()<=2 && m!="TD"; }),n->modList.end()); if( l==0 && *Ls.begin()!=0 ) g.discard(); n->modList.push_back(std::string(1,"SPDFGHI"[l])+(n->spinConf?std::to_string(n->spinConf):"")); why="orbital"; break; }
      case 1: { if( n->d.empty() ) g.discard(); std::string nl = n->lineshape=="LASS" ? "Bugg" : "LASS"; n->modList.erase(std::remove(n->modList.begin(),n->modList.end(),n->lineshape),n->modList.end()); n->modList.push_back(nl); why="lineshape"; break; }
      case 2: { if( n->d.size() || n==&t2 ) g.discard(); std::string nn; auto& c=pg::common(); for(size_t k=0;k<c.size();++k){ auto& m=c[g.draw(c.size())]; if( m!=n->name && pg::db()[m].twoSpin==pg::db()[n->name].twoSpin && pg::db()[m].P==pg::db()[n->name].P && pg::sameFlavour(pg::db()[m].quarks,pg::db()[n->name].quarks) ){ nn=m; break; } } if( nn=="" ) g.discard(); n->name=nn; why="particle"; break; }
      default: { if( n->d.size()!=2 || n->spinConf ) g.discard(); n->modList.erase(std::remove_if(n->modList.begin(),n->modList.end(),[](auto& m){ return m.size()<=2 && m!="TD"; }),n->modList.end()); if( n->L>6 ) g.discard(); n->modList.push_back(std::string(1,"SPDFGHI"[n->L])+"1"); why="spin configuration"; } }
    g.desc(t.str() + "  vs  " + t2.str() + " (" + why + ")"); g.nontrivial(); g.label(why); if( canon(t)==canon(t2) && why=="particle" ) g.discard();
    g.require(Particle(t.str()).decayDescriptor() != Particle(t2.str()).decayDescriptor(), "different decays are both printed as " + Particle(t.str()).decayDescriptor());
    auto m=Particle(t.str()).matches(Particle(t2.str())); if( why=="orbital" && !pg::ambiguous(t) && !pg::ambiguous(t2) ) g.require(m & Particle::MatchState::DifferentOrbital, "orbital difference is not reported by matches"); if( why=="orbital" || why=="particle" ) g.require(!(m & Particle::MatchState::Exact), "different decays match exactly");
    { Particle a(t.str()), b(t.str()); auto fa=a.getFinalStateParticles(false), fb=b.getFinalStateParticles(false); size_t k=g.draw(fa.size()); int pa=g.range(-2,2), pb=g.range(-2,2); fa[k]->setPolarisationState(pa); fb[k]->setPolarisationState(pb); int qa=fa[k]->polState(), qb=fb[k]->polState(); auto mm=a.matches(b); if( qa!=qb && fa.size()==fb.size() ) g.require((mm & Particle::MatchState::DifferentPolarisation) && !(mm & Particle::MatchState::Exact),"polarisation states " + std::to_string(qa) + " and " + std::to_string(qb) + " of " + fa[k]->name() + " are not reported by matches"); else g.require(mm==Particle::MatchState::Exact,"equal decays in equal polarisation states do not match exactly"); }
  }
  void finalState(pbt::Gen& g){
    pg::Opts o; o.maxLeaves=5; o.multi=false; auto t=pg::tree(g,o); std::vector<std::string> lv; t.leaves(lv); auto fs=lv; g.shuffle(fs); int k=g.range(0,5); bool good=true; std::string what="complete";
    if( k==4 ){ fs[0] = fs[0]=="mu+" ? "mu-" : "mu+"; auto a=fs,b=lv; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); good = std::includes(b.begin(),b.end(),a.begin(),a.end()); what="wrong particle"; } else if( k==5 ){ fs.push_back(g.pick(lv)); good=false; what="one too many"; }
    std::string f; for(auto& x : fs) f+=" "+x; g.desc(t.str() + " final state" + f); std::set<std::string> u(lv.begin(),lv.end()); if( u.size()<lv.size() ){ g.nontrivial(); g.label("identical particles"); } g.label(what);
    Particle p(t.str(),fs); g.require(p.isStateGood()==good, good ? "state not good although the final state matches" : "state good although the final state does not match (" + what + ")");
    std::set<unsigned> idx; for(auto& d : p.getFinalStateParticles(false)){ if( d->index()==999 ){ g.require(!good,"particle without an index"); continue; } g.require(d->index()<fs.size() && fs[d->index()]==d->name(), d->name() + " was given index " + std::to_string(d->index())); g.require(idx.insert(d->index()).second,"index used twice"); g.require(d->originalIndex()==d->index(),"original index"); }
    if( !good ) return; g.require(idx.size()==fs.size(),"some particle of the final state is not used");
    auto sorted=p.getFinalStateParticles(true); for(size_t i=0;i<sorted.size();++i) g.require(sorted[i]->originalIndex()==i && sorted[i]->name()==fs[i],"sorted final state particles");
    // exchange orderings: every permutation of identical particles exactly once
    if( lv.size()<=5 ){ auto ord=p.identicalDaughterOrderings(); size_t want=1; std::map<std::string,int> mult; for(auto& x : lv) want*=++mult[x]; std::set<std::vector<size_t>> s(ord.begin(),ord.end()); g.require(s.size()==ord.size() && ord.size()==want, "number of exchange orderings " + std::to_string(ord.size()) + ", expected " + std::to_string(want)); for(auto& q : ord) for(size_t i=0;i<q.size();++i) g.require(q[i]<fs.size() && fs[q[i]]==fs[i],"ordering exchanges different particles");
      auto pick=g.pick(ord); p.setOrdering(pick); auto after=p.getFinalStateParticles(true); for(size_t i=0;i<after.size();++i) g.require(after[i]->index()==pick[i],"setOrdering"); }
  }
  // the default modifier of lineshapes, and labels for print
  pg::Node node(const Particle& p){ pg::Node n; n.name=p.name(); for(auto& d : p.daughters()) n.d.push_back(node(*d)); return n; }
  void labels(pbt::Gen& g){
    pg::Opts o; o.maxLeaves=5; auto t=pg::tree(g,o); std::string s=t.str(); g.desc(s); if( t.count()>=4 ) g.nontrivial(); Particle p(s);
    std::function<std::string(const Particle&,bool,bool,bool)> tex=[&](const Particle& x, bool top, bool head, bool rec)->std::string{ std::string l=x.props()->label(); if( x.daughters().empty() ) return l; std::string r = top ? ( head ? l + "\\rightarrow " : "" ) : l; if( !top && !rec ) return r; auto* n=&x; int mn=0; if( n->daughters().size()==2 ) mn=*pg::allowedL(node(*n)).begin(); bool up=(int)n->L()!=mn, br=!top || up; std::string in; for(auto& d : n->daughters()) in += tex(*d,false,false,rec) + " "; r += br ? "\\left[" + in + "\\right]" : in; if( up ) r += "^{" + n->orbitalString() + "}"; return r; };
    for(bool head : {false,true}) for(bool rec : {false,true}){ auto want=tex(p,true,head,rec), got=p.texLabel(head,rec); g.require(got==want,"label is " + got + ", expected " + want); }
    std::string mod=g.pick<std::string>({"BL","BELLE2018","xyz"}); OptionsParser::setArg("Particle::DefaultModifier " + mod); Particle q(s); std::function<void(const Particle&,const Particle&)> walk=[&](const Particle& a, const Particle& b){ std::string want=a.lineshape(); if( want.find('.')==std::string::npos ) want += "." + mod; g.require(b.lineshape()==want,"lineshape of " + a.name() + " with the default modifier " + mod + " is " + b.lineshape() + ", expected " + want); g.require(a.daughters().size()==b.daughters().size(),"decay products"); for(size_t i=0;i<a.daughters().size();++i) walk(*a.daughter(i),*b.daughter(i)); };
    struct Reset { ~Reset(){ reset(); } static void reset(){ auto it=OptionsParser::getMe()->find("Particle::DefaultModifier"); if( it!=OptionsParser::getMe()->end() ) it->second.resize(1); } } guard; walk(p,q); Reset::reset(); Particle r(s); g.require(r.lineshape()==p.lineshape(),"lineshape without the default modifier"); g.evals(6); }
  void quasi(pbt::Gen& g){
    pg::Opts o; o.maxLeaves=5; o.modifiers=false; auto t=pg::tree(g,o); g.desc(t.str()); Particle p(t.str()); auto q=p.quasiStableTree(); std::vector<std::string> a,b; for(auto& f : p.getFinalStateParticles(false)) a.push_back(f->name()); for(auto& f : q.getFinalStateParticles(false)) b.push_back(f->name()); std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); g.require(a==b,"quasi-stable tree " + q.decayDescriptor() + " has another final state"); g.require(q.name()==p.name(),"head of the quasi-stable tree");
    bool multi=false; std::function<void(const Particle&,bool)> walk=[&](const Particle& x, bool head){ if( x.daughters().empty() ) return; if( !head ){ multi=true; g.require(pg::db()[x.name()].width < 1e-6 && x.name()!="gamma0", x.name() + " is kept in the quasi-stable tree"); } for(auto& d : x.daughters()) walk(*d,false); }; walk(q,true); if( t.count()>=4 ) g.nontrivial(); if( multi ) g.label("nested");
    // broad intermediate states are replaced by their decay products, narrow ones are kept
    std::function<pg::Node(const pg::Node&)> qt=[&](const pg::Node& n){ pg::Node r; r.name=n.name; for(auto& d : n.d){ auto x=qt(d); if( x.d.empty() || (pg::db()[x.name].width<1e-6 && x.name!="gamma0" && n.d.size()!=1) ) r.d.push_back(x); else for(auto& y : x.d) r.d.push_back(y); } return r; };
    g.require(canon(q,false)==canon(qt(t)),"quasi-stable tree is " + canon(q,false) + ", expected " + canon(qt(t)));
  }
  // decays assembled from their parts are the decays spelled out by a descriptor
  Particle leaf(pbt::Gen& g, const pg::Node& n){ Particle p; switch( g.range(0,1) ){ case 0: p=Particle(n.name); break; default: p=Particle(n.name,g.draw(4)); } g.require(p.name()==n.name && p.props() && p.props()->name()==n.name && p.isStable(),"a single particle " + n.name + " is called '" + p.name() + "'"); return p; }
  Particle build(pbt::Gen& g, const pg::Node& n){ if( n.d.empty() ) return leaf(g,n); std::vector<Particle> ds; for(auto& x : n.d) ds.push_back(build(g,x)); Particle p; int how=g.range(0,3);
    if( n.d.size()==2 && how==0 ) p=Particle(n.name,ds[0],ds[1]); else if( n.d.size()==2 && how==1 ) p=Particle(pg::db()[n.name].id,ds[0],ds[1]); else if( how==2 ){ p=Particle(n.name); p.setDaughters(ds); } else p=Particle(n.name,ds);
    if( n.d.size()==2 && n.L!=-1 && (int)p.L()!=n.L ) p.setOrbital(n.L); for(auto& m : n.modList) if( m.find('=')!=std::string::npos ) p.addModifier(m); if( n.lineshape!="" ) p.addModifier(n.lineshape);
    g.require(p.name()==n.name && !p.isStable(),"name of an assembled decay"); for(auto& d : p.daughters()) g.require(!d->isHead(),"a decay product of an assembled decay counts as the head"); return p; }
  void assembly(pbt::Gen& g){
    pg::Opts o; o.maxLeaves=5; auto t=pg::tree(g,o); std::function<void(pg::Node&)> clean=[&](pg::Node& n){ n.modList.erase(std::remove_if(n.modList.begin(),n.modList.end(),[&](const std::string& m){ return m=="BgSpin0"||m=="Inco"||m=="NoSym"||(n.spinConf&&m.size()<=2&&m!="TD"); }),n.modList.end()); if( n.spinConf ){ n.spinConf=0; if( n.L!=-1 && n.L<7 ) n.modList.push_back(std::string(1,"SPDFGHI"[n.L])); } for(auto& x : n.d) clean(x); }; clean(t); g.desc(t.str()); if( t.count()>=4 ) g.nontrivial();
    Particle want(t.str()), p=build(g,t); g.require(p.isHead(),"an assembled decay is not the head");
    g.require(canon(p,true)==canon(want,true),"decay assembled from its parts is\n " + canon(p,true) + ", its descriptor spells\n " + canon(want,true)); nodeCheck(g,t,p);
    Particle back(p.decayDescriptor()); g.require(canon(back,true)==canon(want,true),"descriptor " + p.decayDescriptor() + " of an assembled decay parses to another decay");
    // replacing one stable product by its decay
    std::vector<pg::Node*> nodes; std::function<void(pg::Node&)> col=[&](pg::Node& n){ if( !n.d.empty() ) nodes.push_back(&n); for(auto& x : n.d) col(x); }; auto t2=t; col(t2); if( nodes.size()>1 ){ auto* n=nodes[1+g.draw(nodes.size()-1)]; pg::Node cut=*n; n->d.clear(); n->modList.clear(); n->L=-1; n->lineshape=""; bool other=false; int same=0; std::function<void(const pg::Node&)> cnt=[&](const pg::Node& x){ if( x.d.empty() && x.name==cut.name ) same++; for(auto& y : x.d) cnt(y); }; cnt(t2); if( same!=1 || pg::nonRes(cut.name) ) other=true; // (non-resonant systems only exist as decaying particles)
     
      if( !other ){ g.label("expanded"); Particle q(t2.str()); bool ok=q.expand(Particle(cut.str())); g.require(ok,"nothing was expanded in " + t2.str()); g.require(canon(q,true)==canon(want,true),"expanding " + cut.str() + " in " + t2.str() + " gives\n " + canon(q,true)); g.require(canon(Particle(q.decayDescriptor()),true)==canon(want,true),"descriptor after expanding is " + q.decayDescriptor()); std::function<void(const Particle&)> par=[&](const Particle& x){ for(auto& d : x.daughters()){ g.require(!d->isHead(),d->name() + " counts as the head after expanding"); par(*d); } }; par(q);
        g.require(!Particle(t.str()).expand(Particle("B+")) || canon(t).find("B+")!=std::string::npos,"expanded a particle that is not there"); } }
    // a clone shares nothing with the original
    auto c=p.clone(); auto before=canon(p,true); std::function<void(Particle&)> spoil=[&](Particle& x){ for(auto& d : x.daughters()){ d->setLineshape("Bugg"); spoil(*d); } x.setOrbital(5); }; spoil(c); g.require(canon(p,true)==before,"changing a clone changes the original");
  }
  // the ordering of particles used to sort decay products is a strict weak ordering
  void order(pbt::Gen& g){ pg::Opts o; o.maxLeaves=3; std::vector<Particle> v; std::string t; for(int i=0;i<3;++i){ if( g.chance(1,3) ){ auto x=pg::tree(g,o); v.push_back(Particle(x.str())); t += " " + x.str(); } else { auto nm=pg::pickName(g,o); unsigned k=g.draw(3); v.push_back(Particle(nm,k)); t += " " + nm + "#" + std::to_string(k); } } g.desc(t); 
    auto lt=[&](int a, int b){ return v[a]<v[b]; }; auto eq=[&](int a, int b){ return !lt(a,b) && !lt(b,a); }; for(int i=0;i<3;++i){ g.require(!lt(i,i),"a particle is before itself"); for(int j=0;j<3;++j){ if( i!=j ) g.require(!(lt(i,j)&&lt(j,i)),"two particles are each before the other"); for(int k=0;k<3;++k){ if( lt(i,j)&&lt(j,k) ){ g.nontrivial(); g.require(lt(i,k),"order is not transitive"); } if( eq(i,j)&&eq(j,k) ) g.require(eq(i,k),"equivalence is not transitive"); } } }
    // heavier spin first, then decaying before stable, then heavier, then particle before antiparticle
    for(int i=0;i<3;++i) for(int j=0;j<3;++j){ auto &a=pg::db()[v[i].name()], &b=pg::db()[v[j].name()]; if( a.twoSpin!=b.twoSpin ) g.require(lt(i,j)==(a.twoSpin>b.twoSpin),"spins are not ordered"); else if( v[i].isStable()!=v[j].isStable() ) g.require(lt(i,j)==v[j].isStable(),"decaying and stable particles are not ordered"); else if( std::fabs(a.mass-b.mass)>1e-9 ) g.require(lt(i,j)==(a.mass>b.mass),"masses are not ordered"); else if( a.id==-b.id ) g.require(lt(i,j)==(a.id>0),"particle and antiparticle are not ordered"); }
  }
}
int main(int argc, char** argv){
  pbt::Check c("P05","the tree has at least two decaying particles, the final state has identical particles, or the compared pair differs in exactly one attribute");
  c.prop("roundtrip", 40000, 1000000, roundtrip); c.prop("distinct", 40000, 1000000, distinct); c.prop("finalState", 20000, 600000, finalState); c.prop("assembly", 20000, 600000, assembly); c.prop("order", 30000, 600000, order); c.prop("labels", 10000, 300000, labels); c.prop("quasi", 10000, 400000, quasi);
  return c.main(argc,argv);
}
