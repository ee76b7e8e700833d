// P19: decay rules, their couplings and expansion, and the CP-conjugate model.
#include "particle_gen.h"
#include "jit.h"
#include "AmpGen/AmplitudeRules.h"
#include "AmpGen/AddCPConjugate.h"
#include "AmpGen/EventType.h"
#include "AmpGen/ExpressionParser.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Particle.h"
#include <complex>
using namespace AmpGen;
typedef std::complex<double> C;
namespace {
  struct Coords { bool polar=false; double sf=1; };
  Coords config(pbt::Gen& g){ Coords c; int m=g.range(0,2); c.polar=m>0; c.sf=m==2?M_PI/180:1; OptionsParser::setArg(std::string("CouplingConstant::Coordinates ")+(m?"polar":"cartesian")); OptionsParser::setArg(std::string("CouplingConstant::AngularUnits ")+(m==2?"deg":"rad")); ExpressionParser::gExpressionParser=nullptr; if( m ) g.label(m==2?"polar deg":"polar"); return c; }
  C value(const Coords& c, double re, double im){ return c.polar ? re*std::exp(C(0,c.sf*im)) : C(re,im); }
  void internal(const pg::Node& n, std::vector<const pg::Node*>& o, bool root=true){ if( n.d.empty() ) return; if( !root ) o.push_back(&n); for(auto& x : n.d) internal(x,o,false); }
  bool acyclic(const std::map<std::string,std::set<std::string>>& e, const std::string& n, std::set<std::string>& path){ if( !path.insert(n).second ) return false; auto it=e.find(n); if( it!=e.end() ) for(auto& x : it->second) if( !acyclic(e,x,path) ) return false; path.erase(n); return true; }
  void leafNodes(pg::Node& n, std::vector<pg::Node*>& o){ if( n.d.empty() ) o.push_back(&n); for(auto& x : n.d) leafNodes(x,o); }
  void close(pbt::Gen& g, const std::string& what, C a, C b){ g.requirel(std::abs(a-b)<1e-10*(1+std::abs(b)),[&]{ return what + " is (" + pbt::str(a.real()) + "," + pbt::str(a.imag()) + "), expected (" + pbt::str(b.real()) + "," + pbt::str(b.imag()) + ")"; }); g.evals(1); }
  // the tree with its rules: every cut node has alternatives
  struct Rule { pg::Node shortForm; std::string text; double re, im; Flag f; bool alias=false; };
  struct Model { pg::Node tree; std::map<std::string,std::vector<Rule>> rules; Rule top; };
  pg::Node cutCopy(const pg::Node& n, const std::set<std::string>& cuts, bool root){ pg::Node r=n; if( !root && cuts.count(n.name) ){ r.d.clear(); r.modList.clear(); return r; } r.d.clear(); for(auto& x : n.d) r.d.push_back(cutCopy(x,cuts,false)); return r; }
  const pg::Node* find(const pg::Node& n, const std::string& name){ if( n.name==name && n.d.size() ) return &n; for(auto& x : n.d){ auto p=find(x,name); if( p ) return p; } return nullptr; }
  // full trees with products of couplings
  void expand(const std::map<std::string,std::vector<Rule>>& rules, const pg::Node& n, std::vector<std::pair<pg::Node,std::vector<const Rule*>>>& out){ std::vector<std::pair<pg::Node,std::vector<const Rule*>>> acc; pg::Node base=n; base.d.clear(); if( n.d.empty() ){ auto it=rules.find(n.name); if( it==rules.end() ){ out.push_back({n,{}}); return; } for(auto& r : it->second){ std::vector<std::pair<pg::Node,std::vector<const Rule*>>> sub; expand(rules,r.shortForm,sub); for(auto& s : sub){ auto v=s.second; v.push_back(&r); out.push_back({s.first,v}); } } return; }
    acc.push_back({base,{}}); for(auto& d : n.d){ std::vector<std::pair<pg::Node,std::vector<const Rule*>>> sub, next; expand(rules,d,sub); for(auto& a : acc) for(auto& s : sub){ auto x=a; x.first.d.push_back(s.first); x.second.insert(x.second.end(),s.second.begin(),s.second.end()); next.push_back(x); } acc=next; } for(auto& a : acc) out.push_back(a); }
  double cval(pbt::Gen& g){ return g.chance(1,6)?1.:g.real(-2,2); }
  void rules(pbt::Gen& g){ Coords co=config(g); pg::Opts o; o.maxLeaves=4; o.multi=false; auto t=pg::tree(g,o); if( t.d.empty() ) g.discard(); std::vector<std::string> lv; t.leaves(lv); for(auto& l : lv) if( pg::nonRes(l) ) g.discard(); { std::vector<const pg::Node*> nn; internal(t,nn); for(auto p : nn) if( pg::nonRes(p->name) ) g.discard(); }
    std::vector<const pg::Node*> in; internal(t,in); std::set<std::string> cuts; for(auto p : in) if( g.chance(2,3) ) cuts.insert(p->name); Model m; auto fill=[&](Rule& r){ r.re=cval(g); r.im=co.sf!=1?g.real(-180,180):cval(g); r.f=g.pick<Flag>({Flag::Free,Flag::Fix,Flag::Fix}); r.text=r.shortForm.str(); }; m.top.shortForm=cutCopy(t,cuts,true); if( cuts.size() && g.chance(1,3) ){ std::vector<pg::Node*> lf; leafNodes(m.top.shortForm,lf); std::string nm=*cuts.begin(); for(auto& c : cuts) if( g.coin() ) nm=c; g.pick(lf)->name=nm; } fill(m.top); std::string prefix=g.chance(1,3)?g.pick<std::string>({"Pre","PreB","B"}):""; 
    for(auto& c : cuts){ auto full=find(t,c); pg::Node s=cutCopy(*full,cuts,true); auto& v=m.rules[c]; Rule r; r.shortForm=s; fill(r); v.push_back(r); int extra=g.range(0,2); for(int i=0;i<extra;++i){ pg::Node a=s; a.modList={g.pick<std::string>({"LASS","GounarisSakurai","FormFactor","BgSpin0"})}; Rule q; q.shortForm=a; fill(q); bool dup=false; for(auto& e : v) dup|=e.text==q.text; if( !dup ) v.push_back(q); } }
    { std::map<std::string,std::set<std::string>> edges; auto add=[&](const Rule& r){ std::vector<std::string> v; r.shortForm.leaves(v); for(auto& x : v) edges[r.shortForm.name].insert(x); }; add(m.top); for(auto& v : m.rules) for(auto& r : v.second) add(r); std::set<std::string> path; if( m.rules.count(t.name) || !acyclic(edges,t.name,path) ) g.discard(); for(auto& v : m.rules){ path.clear(); if( !acyclic(edges,v.first,path) ) g.discard(); } }
    MinuitParameterSet s; std::vector<Rule*> all; std::vector<std::pair<std::string,Rule*>> order; order.push_back({(prefix.size()?prefix+"_":"")+m.top.text,&m.top}); for(auto& v : m.rules) for(auto& r : v.second) order.push_back({r.text,&r}); g.shuffle(order); std::string d; for(auto& x : order){ d+=x.first+"  "; s.add(x.first+"_Re",x.second->f,x.second->re,0.1); s.add(x.first+"_Im",x.second->f,x.second->im,0.1); all.push_back(x.second); } s.add("c_Re",Flag::Free,1,1); s.add("c_Im",Flag::Free,1,1); s.add("K*(892)0_mass",Flag::Fix,0.9,0); bool other=prefix.size() && g.coin(); if( other ){ s.add(m.top.text+"_Re",Flag::Free,7,1); s.add(m.top.text+"_Im",Flag::Free,7,1); } std::set<std::string> mine={"",prefix}; if( prefix.size() ) for(std::string q : {"Pre","PreB","B","reB"}) if( q!=prefix && g.coin() ){ mine.insert(q); s.add(q+"_"+m.top.text+"_Re",Flag::Free,9,1); s.add(q+"_"+m.top.text+"_Im",Flag::Free,9,1); g.label("several prefixes"); }
    g.desc(d); if( cuts.size() ) g.nontrivial(); g.label("cuts " + std::to_string(cuts.size()));
    std::vector<std::pair<pg::Node,std::vector<const Rule*>>> full; expand(m.rules,m.top.shortForm,full); if( full.empty() || full.size()>60 ) g.discard(); { std::vector<std::string> lf; full[g.draw(full.size())].first.leaves(lf); lv=lf; if( lv.size()>7 ) g.discard(); for(auto& r : full) if( r.second.size()>cuts.size() ) g.label("several sub-decays of one kind"); }
    std::vector<std::string> names{t.name}; auto fs=lv; if( g.coin() ) g.shuffle(fs); for(auto& l : fs) names.push_back(l); EventType type(names); AmplitudeRules ar(s); 
    g.require(ar.hasDecay(t.name),"there are rules for the decay of " + t.name); for(auto& v : m.rules){ auto r=ar.rulesForDecay(v.first); g.requirel(r.size()==v.second.size(),[&]{ return std::to_string(r.size()) + " rules for " + v.first + ", expected " + std::to_string(v.second.size()); }); } g.require(!ar.hasDecay("c") && ar.rulesForDecay("nosuchparticle").empty(),"no rules for other particles");
    for(auto& v : ar.rules()) for(auto& c : v.second){ bool known=false; for(auto& x : order){ std::string nm=(c.prefix().size()?c.prefix()+"_":"")+c.name(); if( x.first==nm ){ known=true; close(g,"coupling of "+nm,c(),value(co,x.second->re,x.second->im)); g.require(c.head()==v.first && c.particle().decayDescriptor()==Particle(c.name()).decayDescriptor() && c.x()==s.find(nm+"_Re") && c.y()==s.find(nm+"_Im"),"parameters of the coupling"); } } g.require(known || (c.name()==m.top.text && mine.count(c.prefix())),"rule " + c.name()); }
    struct W { std::string desc; std::vector<const Rule*> r; }; std::vector<W> want; for(auto& f : full){ Particle p(f.first.str(),type.finalStates()); if( !p.isStateGood() ) continue; auto v=f.second; v.push_back(&m.top); std::sort(v.begin(),v.end()); bool dup=false; for(auto& w : want) if( w.desc==p.decayDescriptor() ){ dup=true; if( w.r!=v ) g.discard(); } if( !dup ) want.push_back({p.decayDescriptor(),v}); }
    auto got=ar.getMatchingRules(type,prefix); g.requirel(got.size()==want.size(),[&]{ std::string x=std::to_string(got.size()) + " amplitudes, expected " + std::to_string(want.size()) + ":"; for(auto& q : got) x+="\n  "+q.first.decayDescriptor(); x+="\n expected"; for(auto& q : want) x+="\n  "+q.desc; return x; });
    auto product=[&](const W& w){ C p=1; for(auto r : w.r) p*=value(co,r->re,r->im); return p; };
    auto check=[&](const char* when){ for(auto& w : want){ bool f=false; for(auto& q : got) if( q.first.decayDescriptor()==w.desc ){ f=true; close(g,std::string("coupling of ")+w.desc+when,q.second(),product(w)); } g.requirel(f,[&]{ return "no amplitude " + w.desc; }); } }; check("");
    for(auto& w : want) for(auto& q : got) if( q.first.decayDescriptor()==w.desc ){ bool fixed=true; for(auto r : w.r) fixed&=r->f==Flag::Fix; g.require(q.second.isFixed()==fixed,"a product of couplings is fixed if all of them are"); g.require(q.second.size()==w.r.size(),"number of couplings"); for(auto r : w.r) g.require(q.second.contains(r->text),"couplings in the product"); g.require(!q.second.contains("nosuchdecay"),"couplings not in the product"); }
    for(auto& x : order) if( g.coin() ){ x.second->re=cval(g); s.find(x.first+"_Re")->setCurrentFitVal(x.second->re); } check(" after parameters changed");
    if( prefix.size() ){ auto none=ar.getMatchingRules(type,"Other"); g.require(none.empty(),"no amplitudes with another prefix"); }
    if( g.coin() ){ EventType cut(names); std::vector<std::string> n2=names; n2[1]="gamma0"; bool has=false; for(auto& l : lv) has|=l=="gamma0"; if( !has ){ auto none=ar.getMatchingRules(EventType(n2),prefix); g.require(none.empty(),"no amplitudes for another final state"); } } }
  // couplings that are expressions, and rules added by hand
  void aliases(pbt::Gen& g){ config(g); MinuitParameterSet s; double a=g.real(0.2,2), b=g.real(-2,2), k=g.real(-2,2); s.add("a",Flag::Free,a,0.1); s.add("b",Flag::Free,b,0.1); std::string d=g.pick<std::string>({"D0{K-,pi+,pi0}","D0{K*(892)bar0{K-,pi+},pi0}","D0{rho(770)+{pi+,pi0},K-}"}); g.desc(d); g.nontrivial(); s.add(new MinuitExpression({d,"=",pbt::str(k),"*","a","+","i","*","b"},&s)); AmplitudeRules ar(s); auto r=ar.getMatchingRules(EventType({"D0","K-","pi+","pi0"})); g.require(r.size()==1,"one amplitude"); close(g,"coupling given by an expression",r[0].second(),C(k*a,b)); g.require(!r[0].second.isFixed(),"couplings given by expressions are not fixed"); a+=1; s.find("a")->setCurrentFitVal(a); close(g,"coupling after a parameter changed",r[0].second(),C(k*a,b)); double f=g.real(-3,3); AmplitudeRules hand; hand.add_rule(Particle(d),f); auto h=hand.getMatchingRules(EventType({"D0","K-","pi+","pi0"})); g.require(h.size()==1,"one amplitude added by hand"); close(g,"coupling of a rule added by hand",h[0].second(),C(f)); }
  // CP conjugate
  int modelCP(const pg::Node& n, const Particle& p, bool top){ int s=1; if( n.d.size()==2 ){ int f=pg::db()[n.name].twoSpin/2-int(p.L())-pg::db()[n.d[0].name].twoSpin/2-pg::db()[n.d[1].name].twoSpin/2; s*=f%2?-1:1; } (void)top; for(auto& x : n.d){ int c=pg::db()[x.name].C; if( c ) s*=c; const Particle* q=nullptr; for(auto& y : p.daughters()) if( y->name()==x.name ) q=y.get(); if( q ) s*=modelCP(x,*q,false); } return s; }
  void conjugate(pbt::Gen& g){ Coords co=config(g); std::string forbid; pg::Opts o; o.maxLeaves=4; o.multi=false; o.repeatsOk=true; MinuitParameterSet s; std::vector<pg::Node> ts; int n=g.range(1,4); std::set<std::string> used, descs; struct E { pg::Node t; std::string name, prefix; double re, im; bool skip; int cp; }; std::vector<E> es; for(int i=0;i<n;++i){ auto t=pg::tree(g,o); if( t.d.empty() || pg::ambiguous(t) ) continue; bool bad=false; std::function<void(const pg::Node&)> look=[&](const pg::Node& x){ auto& sp=pg::db()[x.name]; if( sp.twoSpin%2 || x.d.size()==1 ) bad=true; if( !sp.hasAnti ){ auto a=sp.quarks, b=a; for(auto& y : b) for(int& k : y) k=-k; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); if( a!=b || sp.charge ) bad=true; } for(auto& y : x.d) look(y); }; look(t); if( bad ) continue; auto ct=pg::conjTree(t); Particle p(t.str()), q(ct.str()); if( descs.count(p.decayDescriptor()) || descs.count(q.decayDescriptor()) ) continue; descs.insert(p.decayDescriptor()); descs.insert(q.decayDescriptor()); E e; e.t=t; e.prefix=g.chance(1,5)?"Pre_":""; e.name=e.prefix+t.str(); e.re=cval(g); e.im=cval(g); e.cp=modelCP(ct,q,true); es.push_back(e); }
    if( es.empty() ) g.discard(); bool fb=g.chance(1,4); std::set<std::string> forbidden; if( fb ){ std::vector<std::string> fl; if( g.coin() ) fl.push_back("B(c)+"); for(auto& e : es) if( fl.empty() || g.chance(1,3) ) fl.push_back(e.t.name); g.shuffle(fl); for(auto& x : fl){ forbid+=" "+x; forbidden.insert(x); } } OptionsParser::setArg("AddCPConjugate::Forbid"+forbid); std::string d; for(auto& e : es){ d+=e.name+"  "; s.add(e.name+"_Re",Flag::Free,e.re,0.1); s.add(e.name+"_Im",Flag::Free,e.im,0.1); e.skip=forbidden.count(e.t.name) || !pg::db()[e.t.name].hasAnti; if( !e.skip ) g.nontrivial(); } s.add("plain",Flag::Free,1,1); if( g.coin() ){ s.add("c_Re",Flag::Free,1,1); s.add("c_Im",Flag::Free,1,1); } s.add("K*(892)0_mass",Flag::Fix,0.9,0); std::map<std::string,double> pars; for(int i=g.range(0,3);i>0;--i){ std::string pn=g.pick(pg::common()); if( pn.find('_')!=std::string::npos || pg::nonRes(pn) ) continue; std::string q=g.pick<std::string>({"width","radius","mass","alpha","g1"}); std::string nm=pn+"_"+q; if( nm=="K*(892)0_mass" || nm=="K*(892)bar0_mass" || pars.count(nm) || pars.count(pg::db()[pn].anti+"_"+q) ) continue; double v=g.range(1,100)/16.; s.add(nm,Flag::Free,v,0.1); pars[nm]=v; d+=nm+"  "; if( g.chance(1,4) ){ std::string sp=pn+"::Spline::"+std::to_string(g.range(0,12)); if( sp.find("K(0)*(1430)")==std::string::npos && s.find(sp)==nullptr && s.find(pg::db()[pn].anti+sp.substr(pn.size()))==nullptr ){ s.add(sp,Flag::Free,v+1,0.1); pars[sp]=v+1; } } } s.add("K(0)*(1430)0::Spline::1",Flag::Free,2.5,0); bool given=g.chance(1,4) && Particle(es[0].t.str()).decayDescriptor()!=Particle(pg::conjTree(es[0].t).str()).decayDescriptor(); std::string gname; if( given ){ auto c=Particle(es[0].t.str()).conj().uniqueString(); gname=es[0].prefix+c+"_Re"; s.add(gname,Flag::Free,42,1); if( s.find(es[0].prefix+c+"_Im")==nullptr ) s.add(es[0].prefix+c+"_Im",Flag::Free,43,1); }
    g.desc(d+(fb?" forbidden "+forbid:"")); std::vector<std::string> before; for(auto p : s) before.push_back(p->name()); AddCPConjugate(s); for(size_t i=0;i<before.size();++i) g.require(s.at(i)->name()==before[i],"the parameters already there are kept"); std::set<std::string> names; for(auto p : s){ g.require(p->name()!="","no parameter without a name"); g.require(names.insert(p->name()).second,"names are unique"); }
    // indices of couplings by decay
    auto lookup=[&](const std::string& prefix, const std::string& desc, const std::string& q)->MinuitParameter*{ MinuitParameter* r=nullptr; for(auto p : s){ std::string nm=p->name(); if( nm.size()<3 || nm.substr(nm.size()-3)!=q ) continue; nm=nm.substr(0,nm.size()-3); std::string pre; if( nm.rfind("Pre_",0)==0 ){ pre="Pre_"; nm=nm.substr(4); } if( nm.find('{')==std::string::npos || pre!=prefix ) continue; if( Particle(nm).decayDescriptor()==desc ) r=p; } return r; };
    auto cmp=[&](const char* when){ for(size_t i=0;i<es.size();++i){ auto& e=es[i]; std::string want=Particle(pg::conjTree(e.t).str()).decayDescriptor(); auto re=lookup(e.prefix,want,"_Re"), im=lookup(e.prefix,want,"_Im"); if( i==0 && given ){ g.require(re && re->mean()==42 && im,"conjugate couplings given by the user are kept"); continue; } if( e.skip ){ if( want!=Particle(e.t.str()).decayDescriptor() ) g.require(re==nullptr && im==nullptr,"no conjugate of " + e.name); continue; } if( want==Particle(e.t.str()).decayDescriptor() ) continue; g.requirel(re!=nullptr && im!=nullptr,[&]{ return "no conjugate of " + e.name + when; }); close(g,"coupling of the conjugate of "+e.name+when,value(co,re->mean(),im->mean()),double(e.cp)*value(co,e.re,e.im)); } }; cmp("");
    for(auto& e : es) if( g.coin() ){ e.re=cval(g); e.im=cval(g); s.find(e.name+"_Re")->setCurrentFitVal(e.re); s.find(e.name+"_Im")->setCurrentFitVal(e.im); } cmp(" after parameters changed"); auto mb=s.find("K*(892)bar0_mass"); g.require(mb && mb->mean()==0.9,"mass of the antiparticle"); auto sb=s.find("K(0)*(1430)bar0::Spline::1"); g.require(sb && sb->mean()==2.5,"spline of the antiparticle"); for(auto& q : pars){ size_t c=q.first.find("::"); if( c==std::string::npos ) c=q.first.rfind('_'); std::string an=pg::db()[q.first.substr(0,c)].anti+q.first.substr(c); auto a=s.find(an); g.requirel(a!=nullptr,[&]{ return "no parameter " + an + " for the antiparticle of that of " + q.first; }); g.close("parameter "+an,a->mean(),q.second,1e-12); s.find(q.first)->setCurrentFitVal(q.second+1); g.close("parameter "+an+" after a change",a->mean(),q.second+1,1e-12); } }
  // couplings given by expressions, of decays and of their conjugates
  void conjugateExpr(pbt::Gen& g){ config(g); MinuitParameterSet s; double a=g.real(0.2,2), b=g.real(0.2,2); s.add("a",Flag::Free,a,0.1); s.add("b",Flag::Free,b,0.1); static const std::vector<std::pair<std::string,std::string>> ds={{"D0{K-,pi+,pi0}","Dbar0{K+,pi-,pi0}"},{"D0{K*(892)bar0{K-,pi+},pi0}","Dbar0{K*(892)0{K+,pi-},pi0}"},{"D+{rho(770)0{pi+,pi-},pi+}","D-{rho(770)0{pi+,pi-},pi-}"},{"B0{D-,pi+}","Bbar0{D+,pi-}"},{"K*(892)bar0{K-,pi+}","K*(892)0{K+,pi-}"}}; std::vector<size_t> id; for(size_t i=0;i<ds.size();++i) if( g.coin() ) id.push_back(i); if( id.empty() ) id.push_back(0); g.shuffle(id);
    std::string forbid; OptionsParser::setArg("AddCPConjugate::Forbid"); if( g.chance(1,2) ){ forbid=g.pick<std::string>({"D0","D+","B0","K*(892)bar0"}); OptionsParser::setArg("AddCPConjugate::Forbid "+forbid); } std::map<size_t,double> user; std::map<size_t,C> val; std::string t; for(auto i : id){ double k=g.real(0.5,2); std::string n=Particle(ds[i].first).decayDescriptor(); s.add(new MinuitExpression({n,"=",pbt::str(k),"*","a","+","i","*","b"},&s)); val[i]=C(k,1); t+=n+" "; if( g.chance(1,3) ){ user[i]=g.real(3,4); s.add(new MinuitExpression({Particle(ds[i].second).decayDescriptor(),"=",pbt::str(user[i]),"*","a"},&s)); t+="(conjugate given) "; } }
    g.desc(t + " forbidden: " + forbid); g.nontrivial(); std::vector<std::string> before; for(auto p : s) before.push_back(p->name()); AddCPConjugate(s); for(size_t i=0;i<before.size();++i) g.require(s.at(i)->name()==before[i],"the parameters already there are kept"); auto check=[&](const char* when){ for(auto i : id){ auto c=s.find(Particle(ds[i].second).decayDescriptor()); auto e=dynamic_cast<MinuitExpression*>(c); std::string head=ds[i].first.substr(0,ds[i].first.find('{')); if( user.count(i) ){ g.require(e!=nullptr,"the conjugate coupling given by the user is there"); close(g,std::string("conjugate coupling given by the user")+when,e->getVal(),C(user[i]*a)); } else if( head==forbid ) g.require(c==nullptr,"no conjugate of a forbidden decay"); else { g.requirel(e!=nullptr,[&]{ return "no conjugate of " + ds[i].first; }); C w(val[i].real()*a,val[i].imag()*b); close(g,std::string("modulus of the conjugate coupling")+when,std::abs(e->getVal()),std::abs(w)); } } }; check(""); a+=1; b*=2; s.find("a")->setCurrentFitVal(a); s.find("b")->setCurrentFitVal(b); check(" after parameters changed"); OptionsParser::setArg("AddCPConjugate::Forbid"); }
  void expression(pbt::Gen& g){ Coords co=config(g); MinuitParameterSet s; static const char* ds[]={"D0{K-,pi+,pi0}","D0{K*(892)bar0,pi0}","D0{rho(770)+,K-}","K*(892)bar0{K-,pi+}","rho(770)+{pi+,pi0}","K*(892)bar0[LASS]{K-,pi+}"}; for(auto d : ds) for(auto q : {"_Re","_Im"}) s.add(std::string(d)+q,Flag::Free,cval(g),0.1); AmplitudeRules ar(s); auto r=ar.getMatchingRules(EventType({"D0","K-","pi+","pi0"})); g.nontrivial(); g.desc(std::to_string(r.size())+" amplitudes"); g.require(r.size()==4,"number of amplitudes"); std::vector<CompiledExpression<complex_t(const real_t*, const real_t*)>> ce; for(size_t i=0;i<r.size();++i) ce.emplace_back(r[i].second.to_expression(),"coupling"+std::to_string(getpid())+"_"+std::to_string(i)+"_"+std::to_string(g.raw(1ull<<40)),std::map<std::string,unsigned>(),&s); auto so=jit::compileAll(ce); unlink(so.c_str()); double dummy[4]={0}; (void)co; for(int k=0;k<3;++k){ for(auto p : s) p->setCurrentFitVal(cval(g)); for(size_t i=0;i<r.size();++i){ ce[i].prepare(); close(g,"compiled coupling",ce[i](dummy),r[i].second()); } } }
}
int main(int argc, char** argv){
  pbt::Check c("P19","at least one sub-decay given by separate rules; a decay with a conjugate"); c.scale(5);
  c.prop("rules", 6000, 100000, rules); c.prop("aliases", 500, 5000, aliases); c.prop("conjugate", 6000, 100000, conjugate); c.prop("conjugateExpr", 1500, 20000, conjugateExpr); c.prop("expression", 4, 20, expression, 120);
  return c.main(argc,argv);
}
