// P08: amplitudes of decay chains: sum over exchanges of identical particles of the product of
// propagators and spin factor; Lorentz invariant, exchange (anti)symmetric, basis independent.
#include <numeric>
#include <set>
#include "vertices.h"
#include "insitu.h"
#include "particle_gen.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/Utilities.h"
using namespace AmpGen;
using lz::T; using lz::C;
namespace {
  std::string spinName(const pg::Spec& s){ static const char* b[]={"S","V","T","H"}; static const char* f[]={"f","r","e","c"}; std::string r = s.twoSpin%2 ? f[s.twoSpin/2] : b[std::min(3,s.twoSpin/2)]; if( s.twoSpin%2 && s.id<0 ) r[0]=std::toupper(r[0]); return r; }
  bool known(const Particle& p, bool head){ if( p.daughters().empty() ){ int s=p.props()->twoSpin(); return s<=2 && (s==0 || p.props()->mass()>0); } if( p.daughters().size()!=2 || p.L()>6 ) return false; auto v=pg::db()[p.name()]; std::string n=spinName(v)+"_"+spinName(pg::db()[p.daughter(0)->name()])+spinName(pg::db()[p.daughter(1)->name()])+"_"+p.orbitalString(); if( !vx::find(n) ) return false; if( head && v.twoSpin>2 ) return false; return known(*p.daughter(0),false) && known(*p.daughter(1),false); }
  const std::vector<std::string> leaves={"pi+","pi-","pi0","K+","K-","K0S0","eta0"}, spinning={"p+","pbar-","mu+","mu-","Lambda0","e-","e+"}, res={"rho(770)0","rho(770)+","K*(892)0","K*(892)bar0","K*(892)+","f(0)(980)0","f(2)(1270)0","a(1)(1260)+","K(1)(1270)+","K(1)(1270)bar-","K(0)*(1430)bar0","K(2)*(1430)0","phi(1020)0","omega(782)0","pi(1300)+","Delta(1232)++","Lambda(1520)0","a(2)(1320)+","NonResS0","NonResV0","rho(1450)0","Xi-","J/psi(1S)0"}, heads={"D0","Dbar0","B0","B+","D+","D(s)+","eta'(958)0","Lambda(c)+","Lambda(b)0","J/psi(1S)0","Lambda0","Xi-","rho(770)0"};
  struct Chain { pg::Node t; };
  pg::Node gen(pbt::Gen& g, bool spins, int maxLeaves, bool scalarHead, int identical){ auto have=[](const std::vector<std::string>& v){ std::vector<std::string> r; for(auto& x : v) if( pg::db().has(x) ) r.push_back(x); return r; }; static auto L=have(leaves), S=have(spinning), R=have(res), H=have(heads);
    int n=g.range(2,maxLeaves); std::vector<pg::Node> f; for(int i=0;i<n;++i){ pg::Node x; x.name = spins && g.chance(1,2) ? g.pick(S) : g.pick(L); if( i && g.chance(identical,4) ) x.name=f[g.draw(i)].name; f.push_back(x); }
    auto allowed=[](const pg::Node& n){ int tot=0; for(auto& x : n.d) tot+=pg::db()[x.name].twoSpin; if( (tot+pg::db()[n.name].twoSpin)%2 ) return std::vector<int>(); std::vector<int> r; std::string nm[2]; for(int i=0;i<2;++i) nm[i]=spinName(pg::db()[n.d[i].name]); for(int l : pg::allowedL(n)) if( l<=2 ) for(int k=0;k<2;++k) if( vx::find(spinName(pg::db()[n.name])+"_"+nm[k]+nm[1-k]+"_"+"SPD"[l]) ){ r.push_back(l); break; } return r; };
    while( f.size()>1 ){ g.shuffle(f); pg::Node h; h.d={f[f.size()-2],f[f.size()-1]}; f.resize(f.size()-2); bool head=f.empty(), ok=false; for(int k=0;k<40 && !ok;++k){ h.name = head ? g.pick(H) : g.pick(R); if( head && scalarHead && pg::db()[h.name].twoSpin ) continue; auto a=allowed(h); if( a.empty() ) continue; ok=true; int mn=*pg::allowedL(h).begin(); int l=g.pick(a); if( l==0 && mn!=0 ){ ok=false; continue; } if( l!=mn ) h.modList.push_back(std::string(1,"SPD"[l])); h.L=l; } if( !ok ) g.discard(); if( !head && g.chance(1,5) ) h.modList.push_back("FormFactor"); f.push_back(h); }
    return f[0]; }
  typedef std::vector<std::vector<double>> Event;
  Event event(pbt::Gen& g, const std::vector<std::string>& fs){ Event e; for(auto& n : fs){ double m=pg::db()[n].mass, p2=0; std::vector<double> p(4); for(int i=0;i<3;++i){ p[i]=g.uniform(-0.8,0.8); p2+=p[i]*p[i]; } p[3]=std::sqrt(p2+m*m); e.push_back(p); } return e; }
  // a decay of the given mass in a random frame
  Event moveEvent(const lz::Lambda& l, const Event& e);
  Event decay(pbt::Gen& g, const std::vector<std::string>& fs, double M, bool atRest=false){ Event e; if( M<0 ){ M=0; for(auto& f : fs) M+=pg::db()[f].mass; M*=1.1; M+=g.uniform(0.05,2); } std::vector<double> m, last(4,0); for(size_t i=0;i<fs.size();++i){ m.push_back(pg::db()[fs[i]].mass); std::vector<double> p(4); for(int k=0;k<3;++k) p[k] = i+1<fs.size() ? g.uniform(-0.8,0.8) : -last[k]; for(int k=0;k<3;++k) last[k]+=p[k]; e.push_back(p); } if( M<1.02*std::accumulate(m.begin(),m.end(),0.) ) g.discard(); auto total=[&](double x){ double E=0; for(size_t i=0;i<fs.size();++i) E+=std::sqrt(m[i]*m[i]+x*x*(e[i][0]*e[i][0]+e[i][1]*e[i][1]+e[i][2]*e[i][2])); return E; }; if( total(1e3)<M ) g.discard(); double lo=0, hi=1e3; for(int k=0;k<120;++k){ double x=(lo+hi)/2; (total(x)<M?lo:hi)=x; } for(size_t i=0;i<fs.size();++i){ double p2=0; for(int k=0;k<3;++k){ e[i][k]*=lo; p2+=e[i][k]*e[i][k]; } e[i][3]=std::sqrt(m[i]*m[i]+p2); } return atRest || g.coin() ? e : moveEvent(lz::lorentz(g),e); }
  std::vector<double> flat(const Event& e){ std::vector<double> r; for(auto& p : e) r.insert(r.end(),p.begin(),p.end()); return r; }
  Event moveEvent(const lz::Lambda& l, const Event& e){ Event r; for(auto& p : e){ T v=lz::apply(l,lz::vec({p[0],p[1],p[2],p[3]})); r.push_back({v(0).real(),v(1).real(),v(2).real(),v(3).real()}); } return r; }
  T mom(const Particle& p, const Event& e){ if( p.daughters().empty() ){ auto& k=e[p.index()]; return lz::vec({k[0],k[1],k[2],k[3]}); } T r(1); for(auto& d : p.daughters()) r=r+mom(*d,e); return r; }
  std::map<std::string,double> times; // decay times of the time-dependent heads
  std::map<std::string,unsigned> evMap(size_t n){ auto m=insitu::eventMap(n); for(auto& t : times) m[t.first]=m.size(); return m; }
  C eval(const Expression& x, const Event& e){ insitu::Expr i(x,evMap(e.size())); i.event(flat(e)); for(auto& t : times) i.set(t.first,t.second); return i(); }
  T current(const Particle& p, const Event& e){ if( p.daughters().empty() ){ int s=p.props()->twoSpin(); if( s==0 ) return T(C(1)); insitu::Tens t(p.externalSpinTensor(p.polState()),insitu::eventMap(e.size())); t.event(flat(e)); auto v=t(); T r(1); for(int i=0;i<4;++i) r(i)=v[i]; return r; }
    if( p.daughters().size()==1 ) return current(*p.daughter(0),e); if( p.daughters().size()==3 ) return p.props()->twoSpin()!=2 ? T(C(1)) : lz::ein("mnrs,n,r,s->m",{lz::eps(),mom(*p.daughter(0),e),mom(*p.daughter(1),e),mom(*p.daughter(2),e)});
    std::string n=spinName(pg::db()[p.name()])+"_"+spinName(pg::db()[p.daughter(0)->name()])+spinName(pg::db()[p.daughter(1)->name()])+"_"+p.orbitalString(); T a=mom(*p.daughter(0),e), b=mom(*p.daughter(1),e); return vx::find(n)->f(a+b,a-b,current(*p.daughter(0),e),current(*p.daughter(1),e)); }
  C spinFactor(const Particle& p, const Event& e){ T c=current(p,e); int s=p.props()->twoSpin(); if( s==0 ) return c.v[0]; insitu::Tens t(p.externalSpinTensor(p.polState()),insitu::eventMap(e.size())); t.event(flat(e)); auto v=t(); T x(1); for(int i=0;i<4;++i) x(i)=v[i]; return s==1 ? lz::ein("a,a->",{lz::bar(x),c}).v[0] : lz::d(lz::conj(x),c); }
  C lines(const Particle& p, const Event& e){ C r(1); if( p.daughters().empty() ) return r; auto ls=p.lineshape(); if( p.daughters().size()==1 ){ if( ls=="TD" ) r=times[p.name()+"_decayTime"]*pg::db()[p.name()].width/(2*6.582119514e-16); } else r=eval(Lineshape::Factory::get(p.daughters().size()>2 && ls=="BW" ? "SBW" : ls,p,nullptr),e); for(auto& d : p.daughters()) r*=lines(*d,e); return r; }
  std::vector<int> randomPols(pbt::Gen& g, const Particle& p, const std::vector<std::string>& fs){ std::vector<int> r; auto pick=[&](const ParticleProperties* q){ return g.pick(q->polarisations()); }; r.push_back(pick(p.props())); for(auto& f : fs) r.push_back(pick(ParticleProperties::get(f))); return r; }
  std::vector<std::vector<int>> allPols(const Particle& p, const std::vector<std::string>& fs){ std::vector<std::vector<int>> r={{}}; auto add=[&](const ParticleProperties* q){ std::vector<std::vector<int>> n; for(auto& x : r) for(int s : q->polarisations()){ auto y=x; y.push_back(s); n.push_back(y); } r=n; }; add(p.props()); for(auto& f : fs) add(ParticleProperties::get(f)); return r; }
  bool close(C a, C b, double scale, double tol){ return std::abs(a-b) <= tol*std::max({std::abs(a),std::abs(b),scale}); }
  std::string show(C c){ std::ostringstream o; o.precision(12); o << c; return o.str(); }
  std::vector<std::string> fsOf(pbt::Gen& g, const pg::Node& t){ std::vector<std::string> v; t.leaves(v); g.shuffle(v); return v; }
  void basis(bool weyl, bool canonical=false, bool moving=false){ OptionsParser::setArg(std::string("helicityAmplitude::MovingParent ") + (moving?"true":"false")); OptionsParser::setArg(std::string("Particle::SpinBasis ") + (weyl?"Weyl":"Dirac")); OptionsParser::setArg(std::string("Particle::SpinFormalism ") + (canonical?"Canonical":"Covariant")); }
  size_t nPerm(const std::vector<std::string>& fs){ std::map<std::string,int> m; size_t n=1; for(auto& f : fs) n*=++m[f]; return n; }
  int permParity(const std::vector<size_t>& perm, const std::vector<std::string>& fs){ int s=1; for(size_t i=0;i<perm.size();++i) for(size_t j=i+1;j<perm.size();++j) if( perm[i]>perm[j] && fs[perm[i]]==fs[perm[j]] && pg::db()[fs[i]].twoSpin%2 && fs[i]==fs[j] ) s=-s; return s; }
  void exchangeSpins(Particle& q, const std::vector<size_t>& o, const std::vector<int>& pol){ auto f=q.getFinalStateParticles(); for(size_t i=0;i<f.size();++i) f[i]->setPolarisationState(pol[o[i]+1]); }
  void structure(pbt::Gen& g){ // the amplitude is what the isobar model says
    basis(g.coin()); bool spins=g.coin(); auto t=gen(g,spins,4,false,2); auto fs=fsOf(g,t); if( nPerm(fs)>6 ) g.discard(); int mode=g.weighted({5,1,1,1}); std::set<int> modes; if( mode ) modes.insert(mode); if( mode && g.chance(1,3) ) modes.insert(g.range(1,3)); for(int x : modes) t.modList.push_back(x==1?"NoSym":x==2?"Inco":"BgSpin0"); if( modes.size()>1 ) g.label("two modifiers"); std::string d=t.str(), f; for(auto& x : fs) f+=" "+x; Particle p(d,fs); if( !known(p,true) ) g.discard(); auto e=event(g,fs); auto pol=randomPols(g,p,fs); std::string ps; for(int x : pol) ps+=" "+std::to_string(x); g.desc(d + " |" + f + " | pol" + ps); if( t.count()>=5 || nPerm(fs)>1 ) g.nontrivial(); if( nPerm(fs)>1 ) g.label("identical particles"); if( p.props()->twoSpin() ) g.label("head with spin"); g.label(mode==0?"default":mode==1?"NoSym":mode==2?"Inco":"BgSpin0");
    auto x=p.getExpression(insitu::db,pol); C got=eval(x,e);
    Particle q(d,fs); q.setPolarisationState(pol); auto ord=q.identicalDaughterOrderings(); C sum=0; double inc=0, mag=0; size_t used=0;
    for(auto& o : ord){ q.setOrdering(o); exchangeSpins(q,o,pol); C a=lines(q,e)*(modes.count(3)?C(1):spinFactor(q,e)); mag=std::max(mag,std::abs(a)); sum+=double(permParity(o,fs))*a; inc+=std::norm(a); ++used; if( modes.count(1) ) break; }
    C want = modes.count(2) ? C(std::sqrt(inc/used)) : sum/std::sqrt(double(used)); if( !std::isfinite(mag) ) g.discard();
    if( modes.count(2) ) got=C(std::abs(got)); bool constant = is<Constant>(x) || t.count()==3 || std::abs(std::abs(got-want)*std::sqrt(double(used))-1e-5)<1e-9; // a constant amplitude is given a negligible imaginary part
    if( !(constant && std::abs(got-want)<3e-5) && !close(got,want,mag*1e-2,1e-8) ) g.fail("amplitude is " + show(got) + ", expected " + show(want)); }
  // nodes with three daughters, and quasi-particles with a single one
  void manyBody(pbt::Gen& g){ basis(g.coin()); std::string d; std::vector<std::string> fs; static const std::vector<std::string> tri={"omega(782)0","phi(1020)0","eta0","eta'(958)0","f(0)(980)0","a(1)(1260)0"}, ls={"","","[BW]","[SBW]","[FormFactor]","[BW.BL]","[SBW.BL]","[NonRelBW]"};
    auto three=[&](const std::string& n){ static const std::vector<std::vector<std::string>> f={{"pi+","pi-","pi0"},{"K+","K-","pi0"},{"pi+","pi+","pi-"},{"pi0","pi0","pi0"}}; auto v=g.pick(f); g.shuffle(v); for(auto& x : v) fs.push_back(x); return n + g.pick(ls) + "{" + v[0] + "," + v[1] + "," + v[2] + "}"; };
    auto pair=[&](const std::string& n){ std::vector<std::string> v={"pi+","pi-"}; if( n[0]=='K' ) v={"K-","pi+"}; g.shuffle(v); for(auto& x : v) fs.push_back(x); return n + "{" + v[0] + "," + v[1] + "}"; };
    times.clear(); auto have=[&](const std::string& n){ return pg::db().has(n); }; std::string X=g.pick(tri); if( !have(X) ) g.discard(); int kind=g.range(0,3); bool td=false; int single=0;
    auto wrap=[&](const std::string& h, const std::string& in, bool time){ ++single; std::string m; if( time && g.coin() ){ m="[TD]"; td=true; times[h+"_decayTime"]=g.logreal(1e-5,10); } else m=g.pick(ls); return h + m + "{" + in + "}"; };
    if( kind==0 ){ d=three(X); bool flip=g.coin(); std::string o=g.pick(std::vector<std::string>{"K0S0","pi0","pi+","K-"}); fs.push_back(o); d = flip ? "D0{"+o+","+d+"}" : "D0{"+d+","+o+"}"; }
    else if( kind==1 ) d=three(X);
    else if( kind==2 ){ std::string in = g.coin() ? pair(g.pick(std::vector<std::string>{"f(0)(980)0","f(0)(1370)0","K(0)*(1430)bar0"})) : three(g.pick(std::vector<std::string>{"eta0","f(0)(980)0"})); d=wrap(g.pick(std::vector<std::string>{"B0","D0","B(s)0","D+"}),in,true); }
    else { std::string v=g.pick(std::vector<std::string>{"rho(770)0","K*(892)bar0","omega(782)0"}); std::string in=wrap(g.pick(std::vector<std::string>{"omega(782)0","phi(1020)0"}),pair(v),false); std::string o=g.pick(std::vector<std::string>{"K0S0","pi0","pi-"}); fs.push_back(o); d="D0{"+in+","+o+"}"; if( g.chance(1,3) ) d=wrap("B0",d,true); }
    g.shuffle(fs); if( nPerm(fs)>24 ) g.discard(); Particle p(d,fs); if( p.props()->twoSpin()>2 ) g.discard(); Event e=event(g,fs); std::vector<int> pol={g.pick(p.props()->polarisations())}; for(size_t i=0;i<fs.size();++i) pol.push_back(0); std::string f, tt; for(auto& x : fs) f+=" "+x; for(auto& t : times) tt+=" t=" + pbt::str(t.second); g.desc(d + " |" + f + tt); g.nontrivial(); g.label(single?td?"single daughter, time-dependent":"single daughter":"three daughters");
    C got=eval(p.getExpression(insitu::db,pol),e); Particle q(d,fs); q.setPolarisationState(pol); auto ord=q.identicalDaughterOrderings(); C sum=0; double mag=0; for(auto& o : ord){ q.setOrdering(o); C a=lines(q,e)*spinFactor(q,e); mag=std::max(mag,std::abs(a)); sum+=a; } C want=sum/std::sqrt(double(ord.size())); times.clear(); if( !std::isfinite(mag) || mag<1e-300 ) g.discard(); g.require(ord.size()==nPerm(fs),"the number of exchanges is " + std::to_string(ord.size()));
    bool tiny=std::abs(std::abs(got-want)*std::sqrt(double(ord.size()))-1e-5)<1e-9; if( !tiny && !close(got,want,mag*1e-2,1e-8) ) g.fail("amplitude is " + show(got) + ", expected " + show(want)); }
  void lorentz(pbt::Gen& g){ bool spins=g.coin(); int conf=g.range(0,3); bool can=conf>=2; basis(conf==1,can,conf==3); auto t=gen(g,spins,can&&spins?3:4,!spins,1); auto fs=fsOf(g,t); if( nPerm(fs)>2 ) g.discard(); std::string d=t.str(), f; for(auto& x : fs) f+=" "+x; Particle p(d,fs); if( !known(p,true) ) g.discard(); auto pols=allPols(p,fs); if( pols.size()>(can?8:16) ) g.discard(); g.desc(d + " |" + f + (conf==1?" Weyl":conf==2?" Canonical, at rest":conf==3?" Canonical, moving":" Dirac")); if( t.count()>=5 ) g.nontrivial(); g.label(can?"canonical":"covariant"); g.label(pols.size()>1?"spins":"scalars");
    auto e = p.props()->twoSpin() ? decay(g,fs,p.props()->mass(),conf==2) : conf==2 ? decay(g,fs,-1,true) : event(g,fs); bool rot = conf==2 || g.coin(); auto l = rot ? lz::rotation(g) : lz::lorentz(g); auto e2=moveEvent(l,e);
    double mag=1e-9, tol=1e-6; if( can ){ Particle u(d,fs); mag=0; for(auto& o : u.identicalDaughterOrderings()){ u.setOrdering(o); mag=std::max(mag,std::abs(lines(u,e))); } tol=1e-4; mag*=1e-2; } // the boost of a slow particle loses half of the digits
    double s1=0, s2=0; for(auto& pol : pols){ Particle q(d,fs); auto x=q.getExpression(insitu::db,pol); C a=eval(x,e), b=eval(x,e2); s1+=std::norm(a); s2+=std::norm(b); if( pols.size()==1 && !close(a,b,mag,tol) ) g.fail("amplitude changes under a Lorentz transformation from " + show(a) + " to " + show(b)); }
    g.evals(2*pols.size()); if( !std::isfinite(s1) ) g.discard(); if( std::abs(s1-s2)>tol*std::max({s1,s2,mag*mag}) ) g.fail("spin-summed rate changes under a " + std::string(rot?"rotation":"Lorentz transformation") + " from " + pbt::str(s1) + " to " + pbt::str(s2));
    if( !can && pols.size()>1 ){ basis(conf==0); double s3=0; for(auto& pol : pols){ Particle q(d,fs); s3+=std::norm(eval(q.getExpression(insitu::db,pol),e)); } if( std::abs(s1-s3)>1e-6*std::max(s1,s3)+1e-18 ) g.fail("spin-summed rate depends on the spin basis: " + pbt::str(s1) + " and " + pbt::str(s3)); g.label("both bases"); } }
  void exchange(pbt::Gen& g){ int conf=g.range(0,3); bool spins=g.coin(); basis(conf==1,conf>=2,conf==3); auto t=gen(g,spins,conf>=2&&spins?3:4,false,3); auto fs=fsOf(g,t); size_t np=nPerm(fs); if( np<2 || np>6 ) g.discard(); std::string d=t.str(), f; for(auto& x : fs) f+=" "+x; Particle p(d,fs); if( !known(p,true) ) g.discard(); auto e=event(g,fs); auto pol=randomPols(g,p,fs); std::string ps; for(int x : pol) ps+=" "+std::to_string(x); g.desc(d + " |" + f + " | pol" + ps + (conf==1?" Weyl":conf==2?" Canonical":conf==3?" Canonical, moving":" Dirac")); g.nontrivial();
    std::vector<std::pair<size_t,size_t>> sw; for(size_t i=0;i<fs.size();++i) for(size_t j=i+1;j<fs.size();++j) if( fs[i]==fs[j] ) sw.push_back({i,j}); auto s=g.pick(sw); auto e2=e; std::swap(e2[s.first],e2[s.second]); auto pol2=pol; std::swap(pol2[s.first+1],pol2[s.second+1]); int sign = pg::db()[fs[s.first]].twoSpin%2 ? -1 : 1; g.label(sign<0?"fermions":"bosons");
    Particle q(d,fs), r(d,fs); C a=eval(q.getExpression(insitu::db,pol),e), b=eval(r.getExpression(insitu::db,pol2),e2); if( !std::isfinite(std::abs(a)) ) g.discard(); Particle u(d,fs); u.setPolarisationState(pol); double mag=0; if( conf<2 ) for(auto& o : u.identicalDaughterOrderings()){ u.setOrdering(o); exchangeSpins(u,o,pol); mag=std::max(mag,std::abs(lines(u,e)*spinFactor(u,e))); } else mag=1e-3;
    if( !close(a,double(sign)*b,1e-2*mag,1e-8) ) g.fail("exchange of identical particles: " + show(a) + " becomes " + show(b)); }
  void signs(pbt::Gen& g){ size_t n=g.range(1,6); std::vector<int> kind(n); for(auto& k : kind) k=g.range(0,2); std::vector<size_t> perm(n); std::iota(perm.begin(),perm.end(),0); for(int r=0;r<8;++r){ size_t i=g.draw(n), j=g.draw(n); if( kind[i]==kind[j] ) std::swap(perm[i],perm[j]); } std::vector<int> ex(n); for(size_t i=0;i<n;++i) ex[i] = kind[i]==0 ? 1 : -1; int want=1; size_t cyc=0; std::vector<bool> seen(n,false); for(size_t i=0;i<n;++i){ if( seen[i] ) continue; size_t len=0; for(size_t j=i; !seen[j]; j=perm[j]){ seen[j]=true; ++len; } cyc+=len-1; if( ex[i]<0 && len%2==0 ) want=-want; } std::string s; for(size_t i=0;i<n;++i) s += " " + std::to_string(perm[i]) + (ex[i]<0?"f":"b"); g.desc("permutation" + s); if( cyc>=2 ) g.nontrivial(); auto r=minSwaps(perm,ex); g.require(r.first==cyc,"number of swaps " + std::to_string(r.first) + ", expected " + std::to_string(cyc)); g.require(r.second==want,"exchange sign " + std::to_string(r.second) + ", expected " + std::to_string(want)); }
  // every exchange of identical particles is listed once
  void orderings(pbt::Gen& g){ auto t=gen(g,false,6,true,3); auto fs=fsOf(g,t); size_t n=nPerm(fs); std::string d=t.str(), f; for(auto& x : fs) f+=" "+x; g.desc(d + " |" + f); if( n>2 ) g.nontrivial(); g.label(n>24?"more than 24":n>6?"more than 6":"up to 6"); if( n>720 ) g.discard(); Particle p(d,fs); auto ord=p.identicalDaughterOrderings(); auto fsp=p.getFinalStateParticles(); g.requirel(ord.size()==n,[&]{ return std::to_string(ord.size()) + " exchanges, expected " + std::to_string(n); }); std::set<std::vector<size_t>> seen; for(auto& o : ord){ std::vector<size_t> s(o.begin(),o.end()); g.require(seen.insert(s).second,"an exchange is listed twice"); g.require(s.size()==fs.size(),"length of an exchange"); auto q=s; std::sort(q.begin(),q.end()); for(size_t i=0;i<q.size();++i) g.require(q[i]==i,"an exchange is a permutation"); for(size_t i=0;i<s.size();++i) g.require(fs[s[i]]==fsp[i]->name(),"an exchange maps particles to particles of the same kind"); } g.evals(n); }
}
int main(int argc, char** argv){
  pbt::Check c("P08","the chain has at least two decaying particles or identical final-state particles, the permutation needs two or more swaps");
  c.assume("final-state particles are on shell; chains use vertices of the covariant formalism and the Breit-Wigner or form-factor lineshapes of the chain itself");
  c.prop("signs", 5000, 50000, insitu::debugged(signs)); c.prop("structure", 6000, 100000, insitu::debugged(structure)); c.prop("orderings", 1500, 20000, insitu::debugged(orderings)); c.prop("manyBody", 2000, 40000, insitu::debugged(manyBody)); c.prop("lorentz", 2500, 60000, insitu::debugged(lorentz)); c.prop("exchange", 3500, 60000, insitu::debugged(exchange));
  return c.main(argc,argv);
}
