// P25: generated events are distributed as they claim.
// HARNESS_NEEDS_ROOT_PART
#include "pbt.h"
#include "AmpGen/PhaseSpace.h"
#include "AmpGen/RecursivePhaseSpace.h"
#include "AmpGen/TreePhaseSpace.h"
#include "AmpGen/DiscreteDistribution.h"
#include "AmpGen/Generator.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticlePropertiesList.h"
#include <numeric>
using namespace AmpGen;
namespace {
  const double SIG=6.5; // standard deviations that are not a coincidence
  double mass(const std::string& n){ return ParticlePropertiesList::get(n)->mass(); }
  double q(double M, double a, double b){ double x=(M*M-(a+b)*(a+b))*(M*M-(a-b)*(a-b)); return x<=0?0:std::sqrt(x)/(2*M); }
  // volume of the n-body phase space, by integration over the mass of all but the last
  double volume(double M, std::vector<double> m, int pts){ if( m.size()==1 ) return 1; double last=m.back(); m.pop_back(); if( m.size()==1 ) return q(M,m[0],last)/M; double lo=0; for(double x : m) lo+=x; double hi=M-last; if( hi<=lo ) return 0; double s=0; for(int i=0;i<pts;++i){ double t=(i+0.5)/pts, u=t*t*(3-2*t), w=6*t*(1-t)/pts, x=lo+(hi-lo)*u; s+=w*(hi-lo)*2*x*volume(x,m,std::max(16,pts/2))*q(M,x,last)/M; } return s; }
  // distribution of the invariant mass of some particles
  struct Marginal { std::vector<double> x, w; double norm=0; Marginal(double M, const std::vector<double>& in, const std::vector<double>& out, int pts=160){ double lo=0, hi=M; for(double m : in) lo+=m; for(double m : out) hi-=m; for(int i=0;i<pts;++i){ double t=(i+0.5)/pts, u=t*t*(3-2*t), jac=6*t*(1-t)/pts*(hi-lo), m=lo+(hi-lo)*u; auto o=out; o.insert(o.begin(),m); double d=2*m*volume(m,in,48)*volume(M,o,48)*jac; x.push_back(m); w.push_back(d); norm+=d; } }
    template <class F> double mean(F f) const { double s=0; for(size_t i=0;i<x.size();++i) s+=w[i]*f(x[i]); return s/norm; } };
  struct P4 { double x=0, y=0, z=0, e=0; double m2() const { return e*e-x*x-y*y-z*z; } };
  P4 sum(const Event& e, const std::vector<unsigned>& ix){ P4 r; for(auto i : ix){ r.x+=e[4*i]; r.y+=e[4*i+1]; r.z+=e[4*i+2]; r.e+=e[4*i+3]; } return r; }
  void kinematics(pbt::Gen& g, const Event& e, const std::vector<double>& m, double M){ std::vector<unsigned> all(m.size()); std::iota(all.begin(),all.end(),0); auto t=sum(e,all); double tol=1e-8*M; g.requirel(std::fabs(t.x)<tol && std::fabs(t.y)<tol && std::fabs(t.z)<tol && std::fabs(t.e-M)<tol,[&]{ return "momenta add up to "+pbt::str(t.x)+" "+pbt::str(t.y)+" "+pbt::str(t.z)+" "+pbt::str(t.e)+", not to a particle of mass "+pbt::str(M)+" at rest"; }); for(unsigned i=0;i<m.size();++i){ double s=e.s(i); g.requirel(std::fabs(s-m[i]*m[i])<1e-8*M*M && e[4*i+3]>0,[&]{ return "particle "+std::to_string(i)+" has mass squared "+pbt::str(s)+", expected "+pbt::str(m[i]*m[i]); }); } }
  // weighted mean of f against its expectation
  struct Mean { double s=0, s2=0, w=0, w2=0, sw=0; void add(double f, double wt=1){ s+=wt*f; s2+=wt*wt*f*f; sw+=wt*wt*f; w+=wt; w2+=wt*wt; } double mean() const { return s/w; } double error() const { double m=mean(); return std::sqrt(std::max(0.,s2-2*m*sw+m*m*w2))/w; } };
  void compare(pbt::Gen& g, const std::string& what, const Mean& m, double want){ double err=m.error()+2e-4; g.requirel(std::fabs(m.mean()-want)<SIG*err,[&]{ return what+" is "+pbt::str(m.mean())+" +- "+pbt::str(err)+", expected "+pbt::str(want); }); g.evals(1); }
  // all observables of a sample of weighted events in an n-body phase space
  template <class W, class D> void distribution(pbt::Gen& g, const std::vector<Event>& evts, const std::vector<double>& m, double M, const W& weight, const D& density, std::vector<unsigned> sub, bool isotropy=true){ std::vector<double> in, out; for(unsigned i=0;i<m.size();++i) (std::find(sub.begin(),sub.end(),i)!=sub.end()?in:out).push_back(m[i]); Marginal mg(M,in,out); double lo=0, hi=M; for(double x : in) lo+=x; for(double x : out) hi-=x; auto u=[&](double x){ return (x-lo)/(hi-lo); }; std::vector<std::function<double(double)>> fs{ u, [&](double x){ return u(x)*u(x); }, [&](double x){ return std::cos(3*M_PI*u(x)); }, [&](double x){ return std::cos(7*M_PI*u(x)); } }; std::string l; for(auto i : sub) l+=std::to_string(i);
    for(unsigned k=0;k<fs.size();++k){ Mean a; for(auto& e : evts) a.add(fs[k](std::sqrt(sum(e,sub).m2())),weight(e)); double norm=mg.mean([&](double x){ return density(x); }); compare(g,"moment "+std::to_string(k)+" of the mass of "+l,a,mg.mean([&](double x){ return density(x)*fs[k](x); })/norm); }
    if( isotropy ) for(unsigned i=0;i<m.size();++i) for(int c=0;c<3;++c){ Mean a, b, ab; for(auto& e : evts){ double p=std::sqrt(e[4*i]*e[4*i]+e[4*i+1]*e[4*i+1]+e[4*i+2]*e[4*i+2]); double t=e[4*i+c]/p, t2=e[4*i+(c+1)%3]/p; a.add(t,weight(e)); b.add(t*t,weight(e)); ab.add(t*t2,weight(e)); } compare(g,"mean direction of particle "+std::to_string(i),a,0); compare(g,"mean squared direction",b,1./3); compare(g,"correlation of directions",ab,0); }
    if( sub.size()>=2 && isotropy ){ // direction of the first particle of the system relative to its flight
      Mean a, b; for(auto& e : evts){ P4 S=sum(e,sub), p=sum(e,{sub[0]}); double ms=std::sqrt(S.m2()), P=std::sqrt(S.x*S.x+S.y*S.y+S.z*S.z); if( P<1e-6 ) continue; double par=(p.x*S.x+p.y*S.y+p.z*S.z)/P, pl=(par*S.e-p.e*P)/ms; double es=(p.e*S.e-par*P)/ms, pm=std::sqrt(std::max(1e-12,es*es-p.m2())); a.add(pl/pm,weight(e)); b.add(pl*pl/pm/pm,weight(e)); } compare(g,"helicity cosine",a,0); compare(g,"squared helicity cosine",b,1./3); } }
  std::vector<unsigned> subset(pbt::Gen& g, unsigned n){ std::vector<unsigned> r(n); std::iota(r.begin(),r.end(),0); g.shuffle(r); r.resize(g.range(2,n-1)); return r; }
  auto one=[](double){ return 1.; };
  const std::vector<std::string> heads{"D0","B0","D+","D(s)+","B-","Lambda(c)+","Lambda(b)0"}, finals{"pi+","pi-","pi0","K+","K-","p+","pbar-","gamma0","mu+","e-","eta0","K0S0","nu(mu)0"};
  const std::vector<std::pair<std::string,std::string>> heavy{{"B(c)+","B(s)0"},{"Omega-","Xi-"},{"Xi0","Lambda0"}};
  std::vector<std::string> decay(pbt::Gen& g, int n0, int n1){ if( g.chance(1,5) ){ auto h=g.pick(heavy); std::vector<std::string> r{h.first,h.second}; int n=g.range(n0-1,n1-1); double m=mass(r[0])-mass(r[1]); for(int i=0;i<n;++i){ auto f=g.pick(finals); if( !ParticlePropertiesList::get(f,true) || mass(f)+0.03>m ) f="gamma0"; m-=mass(f); r.push_back(f); } g.shuffle(r); for(auto& x : r) if( x==h.first ) std::swap(x,r[0]); std::string d; for(auto& x : r) d+=x+" "; g.desc(d); g.label("heavy daughter"); return r; } for(;;){ std::vector<std::string> r{g.pick(heads)}; int n=g.range(n0,n1); double m=mass(r[0]); for(int i=0;i<n;++i){ auto f=g.pick(finals); if( !ParticlePropertiesList::get(f,true) ) f="pi+"; r.push_back(f); m-=mass(f); } if( m>0.05 ){ std::string d; for(auto& x : r) d+=x+" "; g.desc(d); return r; } g.discard(); } }
  void flat(pbt::Gen& g){ auto n=decay(g,2,4); bool td=g.chance(1,3); EventType t(n,td); TRandom3 rnd(g.range(1,1000000)); g.nontrivial(); int N=pbt::thorough()?40000:15000; PhaseSpace ps(t,&rnd); g.require(ps.size()==t.size() && ps.eventType()==t,"type of the phase space"); std::vector<Event> evts; Mean tau, tau2; int mode=g.range(0,2); if( mode==0 ) for(int i=0;i<N;++i) evts.push_back(ps.makeEvent()); else if( mode==1 ){ Generator<PhaseSpace> gen(t,&rnd); gen.setRandom(&rnd); auto l=gen.generate(N); g.require(l.size()==(size_t)N,"number of events generated"); for(auto& e : l) evts.push_back(e); } else { unsigned w=g.range(1,5), off=g.range(0,w-1); std::vector<double> buf(t.eventSize()*w,-77); for(int i=0;i<N;++i){ ps.fill(buf.data()+off,w); Event e(t.eventSize()); for(unsigned k=0;k<t.eventSize();++k) for(unsigned j=0;j<w;++j) if( j==off ) e[k]=buf[k*w+j]; else g.require(buf[k*w+j]==-77,"fill writes between its elements"); evts.push_back(e); } } g.label(mode==0?"events":mode==1?"generator":"strided");
    for(auto& e : evts){ g.require(e.size()==t.eventSize(),"size of an event"); kinematics(g,e,t.masses(),t.motherMass()); g.require(e.genPdf()==1 && e.weight()==1,"weights of a phase-space event"); if( td ){ tau.add(e[4*t.size()]); tau2.add(std::exp(-e[4*t.size()]/ParticlePropertiesList::get(n[0])->lifetime())); } } if( td ){ double life=ParticlePropertiesList::get(n[0])->lifetime(); Mean r; for(auto& e : evts) r.add(e[4*t.size()]/life); compare(g,"mean decay time over the lifetime",r,1); compare(g,"mean exponential of the decay time",tau2,0.5); g.label("time"); }
    auto w=[](const Event&){ return 1.; }; if( t.size()>2 ) distribution(g,evts,t.masses(),t.motherMass(),w,one,subset(g,t.size())); else for(int c=0;c<3;++c){ Mean a, b; for(auto& e : evts){ double p=std::sqrt(e[0]*e[0]+e[1]*e[1]+e[2]*e[2]); a.add(e[c]/p); b.add(e[c]*e[c]/p/p); } compare(g,"direction",a,0); compare(g,"squared direction",b,1./3); } }
  // sequences of two-body decays, weighted by the inverse of the probability they were generated with
  const std::vector<std::string> res{"rho(770)0","rho(770)+","K*(892)0","K*(892)bar0","K*(892)+","phi(1020)0","f(0)(980)0","K(0)*(1430)bar0","NonResS0","NonResV0","a(1)(1260)+","f(2)(1270)0","Delta(1232)++","Lambda(1520)0"};
  std::string chain(pbt::Gen& g, const std::string& head, std::vector<std::string> f){ while( f.size()>2 ){ g.shuffle(f); auto r=g.pick(res); if( !ParticlePropertiesList::get(r,true) ) r="NonResS0"; int k=f.size()>=4 && g.chance(1,5) ? 3 : 2; std::string s=r+"{"; for(int i=0;i<k;++i){ s+=(i?",":"")+f.back(); f.pop_back(); } f.push_back(s+"}"); } g.shuffle(f); return head+"{"+f[0]+","+f[1]+"}"; }
  void tree(pbt::Gen& g){ auto n=decay(g,3,4); for(size_t i=2;i<n.size();++i) if( g.chance(1,3) ) n[i]=n[g.range(1,i-1)]; EventType t(n); double left=t.motherMass(); for(double m : t.masses()) left-=m; g.assume(left>0.02); std::vector<std::string> f(n.begin()+1,n.end()); int k=g.range(1,3); std::vector<Particle> ps; std::string d; for(int i=0;i<k;++i){ auto c=chain(g,n[0],f); d+=c+" "; ps.emplace_back(c,f); } g.desc(d); TRandom3 rnd(g.range(1,1000000)); bool single = k==1 && g.coin(); std::unique_ptr<TreePhaseSpace> p; bool global=g.chance(1,4); if( global ){ gRandom->SetSeed(g.range(1,100000)); p.reset(single ? new TreePhaseSpace(ps[0],t) : new TreePhaseSpace(ps,t)); } else p.reset(single ? new TreePhaseSpace(ps[0],t,&rnd) : new TreePhaseSpace(ps,t,&rnd)); g.require(p->eventType()==t && p->size()>=1,"type of the phase space"); g.nontrivial(); int N=pbt::thorough()?60000:20000; std::vector<Event> evts; for(int i=0;i<N;++i) evts.push_back(p->makeEvent()); double big=0, tot=0; for(auto& e : evts){ kinematics(g,e,t.masses(),t.motherMass()); g.require(e.genPdf()>0 && std::isfinite(e.genPdf()),"generator probability"); big=std::max(big,1/e.genPdf()); tot+=1/e.genPdf(); } if( big>0.03*tot ){ g.label("few events carry the weight"); return; } auto w=[](const Event& e){ return 1/e.genPdf(); }; for(int r=0;r<2;++r) distribution(g,evts,t.masses(),t.motherMass(),w,one,subset(g,t.size()),r==0); }
  // long-lived intermediate particles
  void cascade(pbt::Gen& g){ struct S { std::string chain; std::vector<std::string> fs; std::vector<std::pair<std::string,std::vector<unsigned>>> inter; }; static const std::vector<S> list{ {"B-{D0{K-,pi+},pi-}",{"K-","pi+","pi-"},{{"D0",{0,1}}}}, {"B-{D0{K-,pi+,pi0},pi-}",{"pi-","K-","pi0","pi+"},{{"D0",{1,2,3}}}}, {"B0{D+{K-,pi+,pi+},pi-}",{"K-","pi+","pi+","pi-"},{{"D+",{0,1,2}}}}, {"D0{K0S0{pi+,pi-},K+,K-}",{"K+","K-","pi+","pi-"},{{"K0S0",{2,3}}}}, {"Lambda(c)+{Lambda0{p+,pi-},pi+}",{"p+","pi-","pi+"},{{"Lambda0",{0,1}}}}, {"B0{D+{K0S0{pi+,pi-},K+},K-}",{"K-","K+","pi-","pi+"},{{"K0S0",{2,3}},{"D+",{1,2,3}}}}, {"B0{D0{K-,pi+},K0S0{pi+,pi-}}",{"K-","pi+","pi+","pi-"},{}} };
    auto s=g.pick(list); std::vector<std::string> n{s.chain.substr(0,s.chain.find('{'))}; for(auto& f : s.fs) n.push_back(f); for(auto& x : n) g.assume(ParticlePropertiesList::get(x,true)); EventType t(n); g.desc(s.chain); g.nontrivial(); TRandom3 rnd(g.range(1,1000000)); Particle p(s.chain,s.fs); RecursivePhaseSpace r(p,t,&rnd); g.require(r.eventType()==t && r.size()==p.daughters().size(),"type of the phase space"); std::vector<Event> evts; for(int i=0;i<800;++i){ evts.push_back(r.makeEvent()); kinematics(g,evts.back(),t.masses(),t.motherMass()); for(auto& [x,ix] : s.inter){ double m=std::sqrt(sum(evts.back(),ix).m2()); g.requirel(std::fabs(m-mass(x))<1e-7,[&]{ return "mass of the "+x+" is "+pbt::str(m); }); } } g.evals(800); for(unsigned i=0;i<t.size();++i) for(int c=0;c<3;++c){ Mean a, b; for(auto& e : evts){ double k=std::sqrt(e[4*i]*e[4*i]+e[4*i+1]*e[4*i+1]+e[4*i+2]*e[4*i+2]); a.add(e[4*i+c]/k); b.add(e[4*i+c]*e[4*i+c]/k/k); } compare(g,"direction of particle "+std::to_string(i),a,0); compare(g,"squared direction",b,1./3); } for(auto& [x,ix] : s.inter){ Mean a, b; for(auto& e : evts){ P4 S=sum(e,ix), k=sum(e,{ix[0]}); double ms=std::sqrt(S.m2()), P=std::sqrt(S.x*S.x+S.y*S.y+S.z*S.z), par=(k.x*S.x+k.y*S.y+k.z*S.z)/P, pl=(par*S.e-k.e*P)/ms, es=(k.e*S.e-par*P)/ms, pm=std::sqrt(es*es-k.m2()); a.add(pl/pm); b.add(pl*pl/pm/pm); } compare(g,"helicity cosine",a,0); compare(g,"squared helicity cosine",b,1./3); } }
  void dice(pbt::Gen& g){ int n=g.range(1,12); std::vector<double> w(n); double s=0; std::string d; for(auto& x : w){ x=g.chance(1,5)?0:g.chance(1,3)?1:g.logreal(0.01,10); s+=x; d+=pbt::str(x)+" "; } g.assume(s>0); g.desc(d); g.nontrivial(); DiscreteDistribution D(w); g.require(D.min()==0 && D.max()==unsigned(n-1) && D.probabilities().size()==(size_t)n,"range"); TRandom3 r(g.range(1,1000000)); int N=20000; std::vector<int> c(n,0); for(int i=0;i<N;++i){ unsigned k=D(&r); g.require(k<(unsigned)n,"outcome out of range"); c[k]++; } for(int i=0;i<n;++i){ double p=w[i]/s; g.requirel(std::fabs(D.probabilities()[i]-p)<1e-12,[&]{ return "probability"; }); double err=std::sqrt(N*p*(1-p)); if( p<1e-12 ) g.require(c[i]<=1,"impossible outcome"); else g.requirel(std::fabs(c[i]-N*p)<SIG*err+1,[&]{ return "outcome "+std::to_string(i)+" occurs "+std::to_string(c[i])+" times, expected "+pbt::str(N*p); }); } g.evals(n); }
  // accept and reject
  struct Pdf { std::vector<unsigned> ix; double lo, hi, a; mutable size_t prepared=0; template <class L> void setEvents(L&){} void prepare(){ ++prepared; } void reset(bool=false){} void debug(const Event&) const {} double f(double m) const { double u=(m-lo)/(hi-lo); return 0.2+a*u+(1-u)*(1-u); } double operator()(const Event& e) const { return f(std::sqrt(sum(e,ix).m2())); } real_v operator()(const real_v* b, unsigned) const { double r[4]; for(int k=0;k<4;++k){ P4 p; for(auto i : ix){ p.x+=b[4*i].at(k); p.y+=b[4*i+1].at(k); p.z+=b[4*i+2].at(k); p.e+=b[4*i+3].at(k); } double m=std::sqrt(std::max(p.m2(),lo*lo)); r[k]=f(m); } return real_v(r); } };
  void accept(pbt::Gen& g){ auto n=decay(g,3,3); EventType t(n); TRandom3 rnd(g.range(1,1000000)); std::vector<unsigned> ix{0,1,2}; g.shuffle(ix); ix.resize(2); Pdf pdf; pdf.ix=ix; pdf.lo=mass(n[ix[0]+1])+mass(n[ix[1]+1]); pdf.hi=t.motherMass(); for(unsigned i=0;i<3;++i) if( i!=ix[0] && i!=ix[1] ) pdf.hi-=t.mass(i); pdf.a=g.real(0,3); g.nontrivial(); g.desc(" a="+pbt::str(pdf.a)); int N=g.range(500,3000), B=g.range(500,3000); EventList l(t); int have=g.range(0,3); PhaseSpace ps(t,&rnd); for(int i=0;i<have;++i) l.push_back(ps.makeEvent()); bool treeps=g.chance(1,3); auto run=[&](auto& gen){ gen.setRandom(&rnd); gen.setBlockSize(B); if( g.coin() ) gen.fillEventList(pdf,l,N); else { auto o=gen.generate(pdf,N); for(auto& e : o) l.push_back(e); } }; if( treeps ){ std::vector<std::string> f(n.begin()+1,n.end()); std::vector<Particle> c{Particle(chain(g,n[0],f),f)}; Generator<TreePhaseSpace> gen(c,t,&rnd); run(gen); g.label("chains"); } else { Generator<PhaseSpace> gen(t,&rnd); run(gen); } g.require(treeps ? l.size()>=size_t(have) && l.size()<=size_t(have+N) : l.size()==size_t(have+N),"number of generated events is "+std::to_string(l.size()-have)+", not "+std::to_string(N)); std::vector<Event> evts; for(size_t i=have;i<l.size();++i){ auto& e=l[i]; kinematics(g,e,t.masses(),t.motherMass()); double v=pdf(e); g.requirel(std::fabs(e.genPdf()-v)<1e-9*v,[&]{ return "probability of a generated event is "+pbt::str(e.genPdf())+", expected "+pbt::str(v); }); g.require(e.weight()==1,"weight of a generated event"); evts.push_back(e); } auto w=[](const Event&){ return 1.; }; if( !treeps ) distribution(g,evts,t.masses(),t.motherMass(),w,[&](double x){ return pdf.f(x); },ix); }
  void python(pbt::Gen& g){ auto n=decay(g,2,4); EventType t(n); unsigned N=g.range(1,30); std::vector<double> out(N*t.eventSize()+4,-5); std::string s=t.constructor_string(); g.nontrivial(); python__generate(s.c_str(),out.data(),N); for(unsigned i=0;i<N;++i) kinematics(g,Event(out.data()+i*t.eventSize(),t.eventSize()),t.masses(),t.motherMass()); for(int k=0;k<4;++k) g.require(out[N*t.eventSize()+k]==-5,"writes beyond the end"); g.evals(N); }
}
int main(int argc, char** argv){ pbt::Check c("P25","every case is a decay with at least two particles and a sample of events; the distribution of discrete outcomes has a non-zero weight"); c.assume("statistical comparisons tolerate 6.5 standard deviations"); c.prop("flat",160,1500,flat); c.prop("tree",120,1200,tree,200); c.prop("cascade",60,600,cascade); c.prop("dice",300,3000,dice); c.prop("accept",80,800,accept); c.prop("python",100,1000,python); return c.main(argc,argv); }
