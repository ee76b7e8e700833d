// P26: probabilities and likelihoods of models of amplitudes.
// HARNESS_NEEDS_ROOT_PART
#include "pbt.h"
#include "AmpGen/CoherentSum.h"
#include "AmpGen/IncoherentSum.h"
#include "AmpGen/PolarisedSum.h"
#include "AmpGen/SumPDF.h"
#include "AmpGen/FitFraction.h"
#include "AmpGen/ErrorPropagator.h"
#include "AmpGen/PhaseSpace.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/AmplitudeRules.h"
#include "AmpGen/EventListSIMD.h"
#include "AmpGen/EventList.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ExtendLikelihoodBase.h"
#include "AmpGen/SimPDF.h"
#include <dlfcn.h>
#include <functional>
#include <memory>
using namespace AmpGen;
typedef std::complex<double> C;
namespace {
  struct Family { std::vector<std::string> type; std::vector<std::vector<std::string>> groups; };
  // each group is one amplitude of the model, spelt as one rule or as several
  const std::vector<Family> scalar{
    {{"D0","K-","pi+","pi0"},{{"D0{K*(892)bar0{K-,pi+},pi0}"},{"D0{rho(770)+{pi+,pi0},K-}"},{"D0{K*(892)bar-{K-,pi0},pi+}"},{"D0{K(0)*(1430)bar0{K-,pi+},pi0}"},{"D0{NonResS0{K-,pi+},pi0}"}}},
    {{"D+","K-","pi+","pi+"},{{"D+{K*(892)bar0{K-,pi+},pi+}"},{"D+{K(0)*(1430)bar0{K-,pi+},pi+}"},{"D+{K(2)*(1430)bar0{K-,pi+},pi+}"}}},
    {{"D0","K0S0","pi+","pi-"},{{"D0{rho(770)0{pi+,pi-},K0S0}"},{"D0{K*(892)bar-{K0S0,pi-},pi+}"},{"D0{K*(892)+{K0S0,pi+},pi-}"},{"D0{f(0)(980)0{pi+,pi-},K0S0}"}}},
    {{"D0","K-","pi+","pi+","pi-"},{{"D0{a(1)(1260)+,K-}","a(1)(1260)+{rho(770)0{pi+,pi-},pi+}","a(1)(1260)+{f(0)(980)0{pi+,pi-},pi+}"},{"D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}"},{"D0[P]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}"}}},
  };
  const std::vector<Family> spin{
    {{"Lambda(c)+","p+","K-","pi+"},{{"Lambda(c)+{K*(892)bar0{K-,pi+},p+}"},{"Lambda(c)+{Lambda(1520)0{p+,K-},pi+}"},{"Lambda(c)+{Delta(1232)++{p+,pi+},K-}"}}},
    {{"J/psi0","pi+","pi-","pi0"},{{"J/psi0{rho(770)0{pi+,pi-},pi0}"},{"J/psi0{rho(770)+{pi+,pi0},pi-}"}}},
    {{"K(1)(1270)+","K+","pi+","pi-"},{{"K(1)(1270)+{K*(892)0{K+,pi-},pi+}"},{"K(1)(1270)+{rho(770)0{pi+,pi-},K+}"},{"K(1)(1270)+[D]{K*(892)0{K+,pi-},pi+}"}}},
    {{"B0","K+","pi-","gamma0"},{{"B0{K*(892)0{K+,pi-},gamma0}"},{"B0{K(2)*(1430)0{K+,pi-},gamma0}"}}},
  };
  const char* masses[]={"K*(892)bar0_mass","rho(770)+_mass","rho(770)0_mass","K*(892)bar-_mass","K*(892)0_mass","Lambda(1520)0_mass","f(0)(980)0_mass"};
  bool shape(const std::string& n){ for(auto x : {"_mass","_width","_radius"}) if( n.find(x)!=std::string::npos ) return true; return false; }
  double nominal(const std::string& n){ auto k=n.rfind('_'); auto p=ParticlePropertiesList::get(n.substr(0,k)); auto w=n.substr(k); return w=="_mass" ? p->mass() : w=="_width" ? p->width() : p->radius(); }
  struct Model { EventType type; std::unique_ptr<MinuitParameterSet> mps; std::vector<std::string> free; std::vector<std::string> rules; };
  Model model(pbt::Gen& g, const Family& f, const std::string& prefix, int nmin, int nmax){ Model m; m.type=EventType(f.type); m.mps.reset(new MinuitParameterSet()); auto gr=f.groups; g.shuffle(gr); size_t n=std::min<size_t>(gr.size(),g.range(nmin,nmax)); gr.resize(n); std::string d; for(auto& x : gr) for(size_t k=0;k<x.size();++k){ std::string name=(k==0 ? prefix : "")+x[k]; m.rules.push_back(name); double re=g.real(-2,2), im=g.real(-2,2); if( std::hypot(re,im)<0.1 ) re=1; m.mps->add(name+"_Re",Flag::Free,re,0.01); m.mps->add(name+"_Im",Flag::Free,im,g.coin()?0.02:0.); m.free.push_back(name+"_Re"); m.free.push_back(name+"_Im"); d+=name+" "; } for(std::string q : masses) for(auto x : {"_mass","_width","_radius"}){ std::string p=q.substr(0,q.size()-5)+x; if( g.chance(1,2) ){ m.mps->add(p,Flag::Free,nominal(p),0.01); m.free.push_back(p); } } g.desc(d); return m; }
  EventList events(pbt::Gen& g, const EventType& t, bool weights){ TRandom3 r(g.range(1,100000)); PhaseSpace ps(t,&r); int n=g.weighted({1,1,3})==0?g.range(1,4):g.range(5,40); EventList l(t); for(int i=0;i<n;++i){ auto e=ps.makeEvent(); if( weights ){ e.setWeight(0.2+1.8*r.Rndm()); e.setGenPdf(0.3+2*r.Rndm()); } l.push_back(e); } return l; }
  bool near(double a, double b, double scale, double tol=1e-7){ return std::isfinite(a) && std::isfinite(b) && std::fabs(a-b)<=tol*(std::fabs(b)+scale); }
  void same(pbt::Gen& g, const std::string& what, double got, double want, double scale=1e-12, double tol=1e-7){ g.evals(1); g.requirel(near(got,want,scale,tol),[&]{ return what+" is "+pbt::str(got)+", expected "+pbt::str(want); }); }
  // amplitudes of every element for one event, evaluated one by one with the current parameters
  template <class P> std::vector<MatrixElement> elements(P& pdf){ auto v=pdf.matrixElements(); for(auto& m : v) m.prepare(); return v; }
  C amp(const MatrixElement& m, const Event& e, unsigned k=0){ auto v=m(e)[k]; return C(utils::at(v,0)); }
  struct Oracle { bool inco; std::vector<MatrixElement> me; std::vector<C> c; double p(const Event& e) const { C s=0; double n=0; for(size_t i=0;i<me.size();++i){ C a=c[i]*amp(me[i],e); s+=a; n+=std::norm(a); } return inco?n:std::norm(s); } C a(const Event& e) const { C s=0; for(size_t i=0;i<me.size();++i) s+=c[i]*amp(me[i],e); return s; } };
  template <class P> Oracle oracle(P& pdf, bool inco){ Oracle o; o.inco=inco; o.me=elements(pdf); for(auto& m : o.me) o.c.push_back(m.coupling()); return o; }
  double integral(const EventList& l, const std::function<double(const Event&)>& f){ double s=0, n=0; for(auto& e : l){ double w=e.weight()/e.genPdf(); s+=w*f(e); n+=w; } return s/n; }
  void change(pbt::Gen& g, Model& m){ int n=g.range(1,3); for(int i=0;i<n;++i){ auto name=g.pick(m.free); auto p=m.mps->find(name); bool mass=name.find("_mass")!=std::string::npos; p->setCurrentFitVal(mass ? nominal(name)+g.real(-0.03,0.03) : shape(name) ? nominal(name)*g.real(0.5,1.5) : g.real(-2,2)); } }
  // a history of operations on a pdf
  template <class P> void history(pbt::Gen& g, const std::vector<Family>& fams, bool inco){ auto& f=g.pick(fams); std::string prefix=inco?"Inco_":""; Model m=model(g,f,prefix,1,3); double w=1; P pdf(m.type,*m.mps,inco?"Inco":""); g.require(pdf.size()>=1,"amplitudes are missing"); g.nontrivial(); std::vector<std::unique_ptr<EventListSIMD>> lists; std::vector<std::unique_ptr<EventList>> plain; EventList data, mc; bool haveMC=false; MinuitParameter yield("yield",Flag::Free,1,0.1);
    auto setData=[&]{ data=events(g,m.type,true); if( g.coin() ){ lists.emplace_back(new EventListSIMD(data)); pdf.setEvents(*lists.back()); } else { pdf.setEvents(data); } };
    auto setMC=[&]{ mc=events(g,m.type,true); haveMC=true; if( g.coin() ){ lists.emplace_back(new EventListSIMD(mc)); pdf.setMC(*lists.back()); } else { plain.emplace_back(new EventList(mc)); pdf.setMC(*plain.back()); } };
    auto check=[&](const std::string& when){ pdf.prepare(); auto o=oracle(pdf,inco); auto P0=[&](const Event& e){ return o.p(e); }; double norm = haveMC ? integral(mc,P0) : 1; if( haveMC ) same(g,"normalisation"+when,pdf.norm(),norm,0,1e-7); double big=0; for(auto& e : data) big=std::max(big,o.p(e)); for(auto& e : data){ double want=w*o.p(e)/norm, s=1e-3*w*big/norm; same(g,"probability of event "+std::to_string(e.index())+when,pdf(e),want,s); real_v b=pdf((const real_v*)nullptr,e.index()/4); same(g,"probability in a block"+when,b.at(e.index()%4),want,s); if constexpr( std::is_same_v<P,IncoherentSum> ){ same(g,"unnormalised probability"+when,pdf.prob_unnormalised(e),o.p(e),1e-3*big); same(g,"probability without cache"+when,pdf.prob_unnormalisedNoCache(e),o.p(e),1e-3*big); } else { C a=o.a(e), v=pdf.getVal(e), u=pdf.getValNoCache(e); g.requirel(std::abs(v-a)<1e-7*std::sqrt(big) && std::abs(u-a)<1e-7*std::sqrt(big),[&]{ return "amplitude is "+pbt::str(v.real())+" "+pbt::str(v.imag())+", expected "+pbt::str(a.real())+" "+pbt::str(a.imag())+when; }); } }
      if( haveMC && pdf.size()<=6 ) for(size_t i=0;i<pdf.size();++i) for(size_t j=i;j<pdf.size();++j){ C s=0; double n=0; for(auto& e : mc){ double wt=e.weight()/e.genPdf(); s+=wt*amp(o.me[i],e)*std::conj(amp(o.me[j],e)); n+=wt; } s/=n; if( inco && i!=j ) s=0; C v; if constexpr( std::is_same_v<P,IncoherentSum> ) v=pdf.norm(i,j); else v=pdf.norm(i,j); double sc=std::sqrt(std::abs(integral(mc,[&](const Event& e){ return std::norm(amp(o.me[i],e)); })*integral(mc,[&](const Event& e){ return std::norm(amp(o.me[j],e)); }))); g.requirel(std::abs(v-s)<1e-7*sc,[&]{ return "integral of amplitudes "+std::to_string(i)+", "+std::to_string(j)+" is "+pbt::str(v.real())+" "+pbt::str(v.imag())+", expected "+pbt::str(s.real())+" "+pbt::str(s.imag())+when; }); } };
    auto evaluators=[&](const std::string& when){ pdf.prepare(); auto o=oracle(pdf,inco); double norm=integral(mc,[&](const Event& e){ return o.p(e); }); bool own=g.coin(); EventList other=events(g,m.type,false); EventListSIMD vec(other); auto f=own?pdf.evaluator(nullptr):pdf.evaluator(&vec); auto cs=own?pdf.componentEvaluator(nullptr):pdf.componentEvaluator(&vec); auto& l=own?mc:other; double big=0; for(auto& e : l) big=std::max(big,o.p(e)); for(auto& e : l){ same(g,"evaluator"+when,f(e),w*o.p(e)/norm,1e-3*w*big/norm); double s=0; for(double x : cs(e)) s+=x; same(g,"sum of the components"+when,s,o.p(e),1e-2*big); } if constexpr( std::is_same_v<P,CoherentSum> ){ auto af=own?pdf.amplitudeEvaluator(nullptr):pdf.amplitudeEvaluator(&vec); for(auto& e : l){ C a=o.a(e), v=af(e); g.requirel(std::abs(a-v)<1e-7*std::sqrt(big),[&]{ return "amplitude evaluator"+when; }); } } };
    setData(); bool early=g.coin(); if( early ) setMC(); check(" at first"); int n=g.range(2,7); for(int i=0;i<n;++i){ std::string when; switch( g.weighted({5,2,2,1,2,2}) ){ case 0: change(g,m); when=" after parameters changed"; break; case 1: setData(); when=" after new events"; break; case 2: setMC(); when=" after new integration events"; break; case 3: pdf.reset(); when=" after a reset"; break; case 4: w=g.real(0.1,5); if( g.coin() ) pdf.setWeight(MinuitProxy(nullptr,w)); else { yield.setCurrentFitVal(w); pdf.setWeight(&yield); } when=" after a change of weight"; break; default: if( haveMC ){ evaluators(""); continue; } setMC(); when=" after integration events"; } g.label(when.substr(1)); if( g.chance(2,3) ) check(when); } if( !haveMC ) setMC(); check(" at the end"); evaluators(" at the end"); }
  void coherent(pbt::Gen& g){ history<CoherentSum>(g,scalar,false); }
  void incoherent(pbt::Gen& g){ history<IncoherentSum>(g,scalar,true); }
  // likelihood of a sum of pdfs
  void likelihood(pbt::Gen& g){ auto& f=g.pick(scalar); Model m=model(g,f,"",1,2); Model b=model(g,f,"Inco_",1,2); for(auto& n : b.free) if( !m.mps->find(n) ){ auto p=b.mps->find(n); m.mps->add(n,p->flag(),p->mean(),p->err()); } g.nontrivial(); CoherentSum sig(m.type,*m.mps); IncoherentSum bkg(m.type,*m.mps,"Inco"); EventList data=events(g,m.type,true), mc=events(g,m.type,true); EventListSIMD vd(data), vm(mc); sig.setMC(vm); bkg.setMC(vm); double f1=g.real(0.05,0.95); MinuitParameter frac("fs",Flag::Free,f1,0.1), rest("fb",Flag::Free,1-f1,0.1); sig.setWeight(&frac); bkg.setWeight(&rest); auto want=[&]{ auto o=oracle(sig,false), q=oracle(bkg,true); double ns=integral(mc,[&](const Event& e){ return o.p(e); }), nb=integral(mc,[&](const Event& e){ return q.p(e); }); double ll=0, sw=0; for(auto& e : data){ ll+=-2*e.weight()*std::log(double(frac.mean())*o.p(e)/ns+double(rest.mean())*q.p(e)/nb); sw+=e.weight(); } return std::make_pair(ll,sw); };
    auto pdf=make_likelihood(vd,sig,bkg); g.require(pdf.nPDFs()==2,"number of pdfs"); int n=g.range(1,4); for(int i=0;i<n;++i){ auto w=want(); same(g,"-2 log likelihood",pdf.getVal(),w.first,w.second,1e-8); double s=0; auto ev=pdf.evaluator(&vd); size_t k=0; for(auto e : vd){ double p=pdf(e); same(g,"evaluator of the sum",ev(e),p,1e-9); s+=-2*e.weight()*std::log(p); ++k; } g.require(k==data.size(),"number of events"); same(g,"sum over events",s,w.first,w.second,1e-8); change(g,m); f1=g.real(0.05,0.95); frac.setCurrentFitVal(f1); rest.setCurrentFitVal(1-f1); } auto single=make_likelihood(vd,sig); frac.setCurrentFitVal(1); auto o=oracle(sig,false); double ns=integral(mc,[&](const Event& e){ return o.p(e); }), ll=0, sw=0; for(auto& e : data){ ll+=-2*e.weight()*std::log(o.p(e)/ns); sw+=e.weight(); } same(g,"-2 log likelihood of a single pdf",single.getVal(),ll,sw,1e-8); }
  // fit fractions
  void fractions(pbt::Gen& g){ auto& f=g.pick(scalar); bool inco=g.chance(1,3); Model m=model(g,f,inco?"Inco_":"",2,3); g.nontrivial(); std::unique_ptr<CoherentSum> pdf; std::vector<FitFraction> out; EventList mc=events(g,m.type,true); EventListSIMD vm(mc); auto run=[&](auto& p, auto value){ p.setMC(vm); p.prepare(); if( g.coin() ){ change(g,m); p.prepare(); } auto me=elements(p); size_t n=me.size(); std::vector<std::vector<C>> N(n,std::vector<C>(n)); for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j){ C s=0; double nn=0; for(auto& e : mc){ double wt=e.weight()/e.genPdf(); s+=wt*amp(me[i],e)*std::conj(amp(me[j],e)); nn+=wt; } N[i][j]=s/nn; } LinearErrorPropagator prop(*m.mps); out=p.fitFractions(prop);
      auto frac=[&](const std::vector<size_t>& A, const std::vector<size_t>& B, const std::vector<size_t>& D){ auto sum=[&](auto& a, auto& b){ C s=0; for(auto i : a) for(auto j : b) if( !inco || i==j ) s+=me[i].coupling()*std::conj(me[j].coupling())*N[i][j]; return s.real(); }; return sum(A,B)/sum(D,D); };
      auto error=[&](auto fcn){ double s=0; for(auto q : *m.mps){ if( shape(q->name()) || q->err()==0 || !q->isFree() ) continue; double v=q->mean(), e=q->err(); q->setCurrentFitVal(v+e); double a=fcn(); q->setCurrentFitVal(v-e); double b=fcn(); q->setCurrentFitVal(v); s+=std::pow((a-b)/2,2); } return std::sqrt(s); };
      auto find=[&](const std::string& name, size_t from=0){ for(size_t i=from;i<out.size();++i) if( out[i].name()==name ) return int(i); return -1; };
      std::vector<size_t> all(n); for(size_t i=0;i<n;++i) all[i]=i; int checked=0; auto compare=[&](const std::string& name, auto A, auto B, auto D){ int k=find(name); g.require(k>=0,"no fraction of "+name); double v=frac(A,B,D); same(g,"fraction of "+name,out[k].val(),v,1e-2,1e-6); double e=error([&]{ return frac(A,B,D); }); g.requirel(std::fabs(out[k].err()-e)<1e-6+1e-4*e,[&]{ return "uncertainty of the fraction of "+name+" is "+pbt::str(out[k].err())+", expected "+pbt::str(e); }); ++checked; };
      value(me,all,compare,find,frac); g.require(checked>0,"nothing checked"); };
    if( inco ){ IncoherentSum p(m.type,*m.mps,"Inco"); run(p,[&](auto& me, auto& all, auto& compare, auto& find, auto& frac){ double s=0; for(size_t i=0;i<me.size();++i){ compare(me[i].decayDescriptor(),std::vector<size_t>{i},std::vector<size_t>{i},all); s+=frac(std::vector<size_t>{i},std::vector<size_t>{i},all); } int k=find("Sum_"+m.type.mother()); g.require(k>=0,"no sum"); same(g,"sum of the fractions",out[k].val(),s,1e-2,1e-6); g.requirel(std::fabs(s-1)<1e-9,[&]{ return "incoherent fractions add up to "+pbt::str(s); }); }); g.label("incoherent"); }
    else { CoherentSum p(m.type,*m.mps); run(p,[&](auto& me, auto& all, auto& compare, auto& find, auto& frac){ std::map<std::string,std::vector<size_t>> heads; std::map<std::string,double> sums; std::vector<std::string> tops; for(auto& r : m.rules){ std::vector<size_t> A, D; std::string head=r.substr(0,r.find_first_of("[{")); for(size_t i=0;i<me.size();++i){ bool in=false; for(auto& c : me[i].coupling) if( c.name()==Particle(r).decayDescriptor() || c.name()==r ) in=true; if( in ) A.push_back(i); if( head==m.type.mother() || me[i].decayDescriptor().find(head)!=std::string::npos ) D.push_back(i); } if( A.empty() || A==D ) continue; std::string name; for(auto& c : me[A[0]].coupling) if( c.name()==r || c.name()==Particle(r).decayDescriptor() ) name=c.name(); compare(name,A,A,D); sums[head]+=frac(A,A,D); if( head==m.type.mother() ) tops.push_back(r); }
        for(auto& [h,s] : sums){ int k=find("Sum_"+h); g.require(k>=0,"no sum for "+h); same(g,"sum of the fractions",out[k].val(),s,1e-2,1e-6); }
        auto rules=AmplitudeRules::get()->rulesForDecay(m.type.mother()); for(size_t i=0;i<rules.size();++i) for(size_t j=i+1;j<rules.size();++j){ auto idx=[&](const std::string& nm){ std::vector<size_t> A; for(size_t k=0;k<me.size();++k) for(auto& c : me[k].coupling) if( c.name()==nm ) A.push_back(k); return A; }; compare(rules[i].name()+"x"+rules[j].name(),idx(rules[i].name()),idx(rules[j].name()),all); } }); } }
  // terms added to the likelihood: sums of moduli and ratios of partial widths, and the sum of several fits
  void terms(pbt::Gen& g){ static int cnt=0; auto& f=g.pick(scalar); Model m=model(g,f,"",1,3); g.nontrivial(); CoherentSum pdf(m.type,*m.mps); EventList mc=events(g,m.type,true), data=events(g,m.type,true); EventListSIMD vm(mc), vd(data); pdf.setMC(vm); pdf.prepare(); size_t n=pdf.size(); g.require(n>0,"no amplitudes"); std::string tag="pw"+std::to_string(getpid())+"_"+std::to_string(cnt++);
    double lambda=g.logreal(1e-3,1e3), weight=g.logreal(1e-3,1e3), ratio=g.real(0,2); auto me=elements(pdf); std::vector<size_t> A, D; for(size_t i=0;i<n;++i){ if( g.coin() ) A.push_back(i); if( g.coin() ) D.push_back(i); } if( D.empty() ) D.push_back(g.draw(n)); g.shuffle(A); g.shuffle(D); auto opt=[&](const std::string& k, const std::vector<size_t>& v){ std::string l=tag+k; for(auto i : v) l+=" \""+me[i].decayDescriptor()+"\""; OptionsParser::setArg(l); }; if( A.empty() ) A.push_back(0); opt("_numChannels",A); opt("_denChannels",D);
    LASSO las(&pdf); PartialWidthConstraint pw(&pdf); las.configure("LASSO "+pbt::str(lambda),*m.mps); pw.configure("PartialWidthConstraint "+tag+" "+pbt::str(weight)+" "+pbt::str(ratio),*m.mps); SimFit fit; CoherentSum p1(m.type,*m.mps), p2(m.type,*m.mps); p1.setMC(vm); p2.setMC(vd); auto l1=make_likelihood(vd,p1), l2=make_likelihood(vm,p2); int nl=g.range(0,3); std::vector<int> which; for(int i=0;i<nl;++i){ which.push_back(g.coin()); if( which.back() ) fit.add(l1); else fit.add(l2); }
    int steps=g.range(1,3); for(int st=0;st<steps;++st){ if( st ) change(g,m); pdf.prepare(); me=elements(pdf); std::vector<std::vector<C>> N(n,std::vector<C>(n)); for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j){ C s=0; double nn=0; for(auto& e : mc){ double wt=e.weight()/e.genPdf(); s+=wt*amp(me[i],e)*std::conj(amp(me[j],e)); nn+=wt; } N[i][j]=s/nn; }
      double l=0; for(size_t i=0;i<n;++i) l+=std::abs(C(me[i].coupling()))*std::sqrt(N[i][i].real()); same(g,"sum of the moduli (the sign is a convention)",std::fabs(las()),lambda*l,1e-8); auto sum=[&](auto& a, double& mag){ C s=0; mag=0; for(auto i : a) for(auto j : a){ C t=me[i].coupling()*std::conj(me[j].coupling())*N[i][j]; s+=t; mag+=std::abs(t); } return s.real(); };
      double ma, md, num=sum(A,ma), den=sum(D,md), r=num/den, er=1e-9*(ma/std::fabs(den)+std::fabs(r)*md/std::fabs(den)); if( std::isfinite(r) && md<1e4*std::fabs(den) ){ double w=weight*(r-ratio)*(r-ratio), e=weight*(2*std::fabs(r-ratio)*er+er*er)+1e-12*w, v=std::fabs(pw()); g.requirel(std::fabs(v-w)<=e,[&]{ return "ratio of partial widths: "+pbt::str(v)+", expected "+pbt::str(w); }); }
      double a=0; for(int i=0;i<nl;++i) a+=which[i]?l1.getVal():l2.getVal(); double v=fit.getVal(); if( std::isfinite(a) ) g.requirel(std::fabs(v-a)<=1e-9*(1+std::fabs(a)),[&]{ return "simultaneous fit: "+pbt::str(v)+", sum of its parts "+pbt::str(a); }); } }
  // polarised sums
  typedef std::vector<std::vector<C>> M;
  M density(unsigned dim, const std::vector<double>& p){ const C I(0,1); if( dim==1 ) return {{1}}; if( dim==2 ) return {{1+p[2],p[0]-I*p[1]},{p[0]+I*p[1],1-p[2]}}; // 1 + 3/2 P.S + sqrt(3/2) T_ij (S_i S_j + S_j S_i), with the spin matrices of spin one
    const double h=std::sqrt(0.5); M S[3]={{{0,h,0},{h,0,h},{0,h,0}},{{0,-I*h,0},{I*h,0,-I*h},{0,I*h,0}},{{1,0,0},{0,0,0},{0,0,-1}}}; double T[3][3]={{-p[3]-p[4],p[5],p[6]},{p[5],p[3],p[7]},{p[6],p[7],p[4]}}; M r(3,std::vector<C>(3)); for(int a=0;a<3;++a) for(int b=0;b<3;++b){ r[a][b]=(a==b); for(int i=0;i<3;++i){ r[a][b]+=1.5*p[i]*S[i][a][b]; for(int j=0;j<3;++j) for(int c=0;c<3;++c) r[a][b]+=std::sqrt(1.5)*T[i][j]*(S[i][a][c]*S[j][c][b]+S[j][a][c]*S[i][c][b]); } } return r; }
  const char* pn[]={"Px","Py","Pz","Tyy","Tzz","Txy","Txz","Tyz"};
  struct PolOracle { unsigned d1, d2; std::vector<MatrixElement> me; std::vector<C> c; M rho; double frac=-1; double p(const Event& e) const { std::vector<C> T(d1*d2); for(size_t i=0;i<me.size();++i){ auto v=me[i](e); for(unsigned k=0;k<d1*d2;++k) T[k]+=c[i]*C(utils::at(v[k],0)); } C s=0; for(unsigned f=0;f<d2;++f) for(unsigned a=0;a<d1;++a) for(unsigned b=0;b<d1;++b) s+=(frac<0?1.:f==0?frac:1-frac)*rho[b][a]*T[a*d2+f]*std::conj(T[b*d2+f]); return s.real(); } };
  void polarised(pbt::Gen& g){ auto& f=g.pick(spin); OptionsParser::setArg(std::string("Particle::SpinBasis ")+(f.type.back()=="gamma0"?"Weyl":"Dirac")); Model m=model(g,f,"",1,2); auto [d1,d2]=m.type.dim(); std::vector<double> pol(8,0.); auto setPol=[&]{ unsigned n=d1==2?3:d1==3?8:0; for(unsigned i=0;i<n;++i){ pol[i]=g.chance(1,4)?0:g.real(-0.12,0.12); auto p=m.mps->addOrGet(pn[i],Flag::Free,pol[i],0.01); p->setCurrentFitVal(pol[i]); } }; if( g.coin() ) setPol(); bool pf=d1==1 && d2==2 && g.coin(); double frac=-1; if( pf ){ frac=g.unit(); m.mps->add("polFrac",Flag::Free,frac,0.01); g.label("polFrac"); } PolarisedSum pdf(m.type,*m.mps); g.nontrivial(); g.label(std::to_string(d1)+"x"+std::to_string(d2)); EventList data, mc; std::vector<std::unique_ptr<EventListSIMD>> lists; double w=1; auto setData=[&]{ data=events(g,m.type,true); if( g.coin() ){ lists.emplace_back(new EventListSIMD(data)); pdf.setEvents(*lists.back()); } else pdf.setEvents(data); }; auto setMC=[&]{ mc=events(g,m.type,true); lists.emplace_back(new EventListSIMD(mc)); pdf.setMC(*lists.back()); };
    auto check=[&](const std::string& when){ pdf.prepare(); PolOracle o{d1,d2,elements(pdf),{},density(d1,pol),frac}; for(auto& x : o.me) o.c.push_back(x.coupling()); double norm=integral(mc,[&](const Event& e){ return o.p(e); }); same(g,"normalisation"+when,pdf.norm(),norm,0,1e-7); double big=0; for(auto& e : data) big=std::max(big,std::fabs(o.p(e))); for(auto& e : data){ double want=w*o.p(e)/norm, s=1e-3*w*big/norm; same(g,"probability"+when,pdf(e),want,s); same(g,"probability in a block"+when,pdf((const real_v*)nullptr,e.index()/4).at(e.index()%4),want,s); same(g,"probability without cache"+when,pdf.getValNoCache(e),o.p(e),1e-3*big); } };
    setData(); setMC(); check(" at first"); int n=g.range(1,5); for(int i=0;i<n;++i){ std::string when; switch( g.weighted({3,3,1,1,1,pf?2:0,2}) ){ case 0: change(g,m); when=" after parameters changed"; break; case 1: setPol(); when=" after the polarisation changed"; break; case 2: setData(); when=" after new events"; break; case 3: setMC(); when=" after new integration events"; break; case 4: w=g.real(0.1,4); pdf.setWeight(MinuitProxy(nullptr,w)); when=" after a change of weight"; break; case 5: frac=g.unit(); m.mps->find("polFrac")->setCurrentFitVal(frac); when=" after the photon polarisation changed"; break; default: { pdf.prepare(); PolOracle o{d1,d2,elements(pdf),{},density(d1,pol),frac}; for(auto& x : o.me) o.c.push_back(x.coupling()); double norm=integral(mc,[&](const Event& e){ return o.p(e); }); EventList other=events(g,m.type,false); EventListSIMD vec(other); bool own=g.coin(); auto ev=own?pdf.evaluator(nullptr):pdf.evaluator(&vec); auto cs=own?pdf.componentEvaluator(nullptr):pdf.componentEvaluator(&vec); auto& l=own?mc:other; double big=0; for(auto& e : l) big=std::max(big,std::fabs(o.p(e))); for(auto& e : l){ same(g,"evaluator",ev(e),w*o.p(e)/norm,1e-3*w*big/norm); if( !pf ){ double s=0; for(double x : cs(e)) s+=x; same(g,"sum of the components",s,o.p(e),1e-2*big); } } continue; } } g.label(when.substr(1)); check(when); }
    // rotating the events and the polarisation together changes nothing
    if( d1>1 ){ double a=g.real(-3,3), b=g.real(0,3), c=g.real(-3,3); double R[3][3]; { double ca=std::cos(a), sa=std::sin(a), cb=std::cos(b), sb=std::sin(b), cc=std::cos(c), sc=std::sin(c); double r[3][3]={{ca*cb*cc-sa*sc,-ca*cb*sc-sa*cc,ca*sb},{sa*cb*cc+ca*sc,-sa*cb*sc+ca*cc,sa*sb},{-sb*cc,sb*sc,cb}}; std::memcpy(R,r,sizeof(R)); } pdf.prepare(); std::vector<double> before; for(auto& e : data) before.push_back(pdf.getValNoCache(e)); double T[3][3]={{-pol[3]-pol[4],pol[5],pol[6]},{pol[5],pol[3],pol[7]},{pol[6],pol[7],pol[4]}}, U[3][3]={}; double q[8]; for(int i=0;i<3;++i){ q[i]=0; for(int j=0;j<3;++j){ q[i]+=R[i][j]*pol[j]; for(int k=0;k<3;++k) for(int l=0;l<3;++l) U[i][j]+=R[i][k]*R[j][l]*T[k][l]; } } q[3]=U[1][1]; q[4]=U[2][2]; q[5]=U[0][1]; q[6]=U[0][2]; q[7]=U[1][2]; for(unsigned i=0;i<(d1==2?3u:8u);++i) m.mps->addOrGet(pn[i],Flag::Free,q[i],0.01)->setCurrentFitVal(q[i]); pdf.prepare(); double big=0; for(double x : before) big=std::max(big,std::fabs(x)); for(size_t k=0;k<data.size();++k){ Event e=data[k]; for(unsigned i=0;i<m.type.size();++i){ double v[3]; for(int x=0;x<3;++x){ v[x]=0; for(int y=0;y<3;++y) v[x]+=R[x][y]*data[k][4*i+y]; } for(int x=0;x<3;++x) e[4*i+x]=v[x]; } double p=pdf.getValNoCache(e); g.requirel(near(p,before[k],1e-2*big,1e-5),[&]{ return "probability of a rotated event with rotated polarisation is "+pbt::str(p)+", not "+pbt::str(before[k]); }); } g.label("rotated"); } }
  // libraries written for other programs
  void source(pbt::Gen& g){ auto& f=g.pick(scalar); Model m=model(g,f,"",1,3); CoherentSum pdf(m.type,*m.mps); pdf.prepare(); g.nontrivial(); double norm=g.real(0.2,3); std::string path=pbt::scratch()+"/model"+std::to_string(g.range(0,999999))+".cpp"; pdf.generateSourceCode(path,norm); std::string so=path.substr(0,path.size()-4)+".so"; void* h=dlopen(so.c_str(),RTLD_NOW); if( !h ) h=dlopen(path.c_str(),RTLD_NOW); if( !h ){ std::string cmd="g++ -std=c++17 -shared -fPIC -O1 -o "+so+" "+path+" 2>/dev/null"; if( system(cmd.c_str())==0 ) h=dlopen(so.c_str(),RTLD_NOW); } g.require(h!=nullptr,"no library was written"); auto fcn=(double(*)(const double*,const int&))dlsym(h,"FCN"); auto a=(C(*)(const double*,const int&))dlsym(h,"AMP"); g.require(fcn && a,"functions missing from the library"); auto o=oracle(pdf,false); EventList data=events(g,m.type,false); double big=0; for(auto& e : data) big=std::max(big,o.p(e)); for(auto& e : data) for(int parity : {1,-1}){ C s=0; for(size_t i=0;i<o.me.size();++i) s+=(o.me[i].decayTree.finalStateParity()==1?1.:double(parity))*o.c[i]*amp(o.me[i],e); C got=a(e.address(),parity); g.requirel(std::abs(got-s)<1e-7*std::sqrt(big),[&]{ return "amplitude of the library is "+pbt::str(got.real())+" "+pbt::str(got.imag())+", expected "+pbt::str(s.real())+" "+pbt::str(s.imag()); }); same(g,"probability of the library",fcn(e.address(),parity),std::norm(s)/norm,1e-3*big/norm); } dlclose(h); }
}
int main(int argc, char** argv){ pbt::Check c("P26","every case is a model of at least one compiled amplitude with data and integration samples"); c.assume("matrix elements evaluated one event at a time with the current parameters are right (P01, P08) and so are their couplings (P19)"); c.prop("coherent",40,600,coherent,120); c.prop("incoherent",24,300,incoherent,120); c.prop("likelihood",24,300,likelihood,120); c.prop("fractions",24,300,fractions,120); c.prop("terms",16,200,terms,120); c.prop("polarised",24,300,polarised,180); c.prop("source",16,200,source,120); return c.main(argc,argv); }
