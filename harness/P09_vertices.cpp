// P09: covariant spin projectors, orbital operators and vertices.
#include "vertices.h"
#include "AmpGen/Vertex.h"
#include "AmpGen/Tensor.h"
using namespace AmpGen;
using lz::T; using lz::C; using lz::ein;
namespace {
  Tensor lib(const T& t){ std::vector<Expression> e; for(auto& x : t.v) e.push_back( x.imag()==0 ? Expression(x.real()) : Expression(complex_t(x)) ); std::vector<unsigned> d(std::max(1,t.rank), t.rank==0?1:4); return Tensor(e,d); }
  T num(pbt::Gen& g, const Tensor& t, int rank){ T r(rank); if( t.size()!=r.v.size() ) g.fail("result has " + std::to_string(t.size()) + " components, expected " + std::to_string(r.v.size())); for(size_t i=0;i<r.v.size();++i) r.v[i]=t[i](); return r; }
  void same(pbt::Gen& g, const std::string& what, const T& got, const T& want, double scale=1){ double s=std::max({want.norm(),got.norm(),scale*1e-3,1e-6}); for(size_t i=0;i<want.v.size();++i) if( !(std::abs(got.v[i]-want.v[i]) <= 1e-9*s*scale) ){ std::ostringstream o; o << what << ": component " << i << " is " << got.v[i] << ", expected " << want.v[i]; g.fail(o.str()); } }
  using vx::V; using vx::table;
  T state(pbt::Gen& g, const std::string& k){ T t=lz::cpx(g,(int)k.size()); if( k=="vv" ){ t = (t + [&]{ T s(2); for(int i=0;i<4;++i) for(int j=0;j<4;++j) s(i,j)=t(j,i); return s; }())*0.5; } return t; }
  T eval(pbt::Gen& g, const V& v, const T& P, const T& Q, const T& a, const T& b){ return num(g,Vertex::Factory::getSpinFactor(lib(P),lib(Q),lib(a),lib(b),v.name),(int)strlen(v.out)); }
  void vertex(pbt::Gen& g){
    static auto tab=table(); auto& v=tab[g.draw(tab.size())]; g.label(v.name); T P=lz::timelike(g), Q=lz::real4(g,2), a=state(g,v.k1), b=state(g,v.k2); std::ostringstream o; o << v.name << " P=("; for(auto& x : P.v) o << x.real() << " "; o << ") Q=("; for(auto& x : Q.v) o << x.real() << " "; o << ")"; g.desc(o.str()); g.nontrivial();
    g.require(Vertex::Factory::isVertex(v.name),std::string(v.name) + " is not known"); T r=eval(g,v,P,Q,a,b); T want=v.f(P,Q,a,b); std::string nm=v.name; same(g,nm,r,want);
    // invariants, which hold for the documented expression by construction and tie it to its meaning
    std::string out=v.out; double sc=std::max(r.norm(),1e-3); if( v.transverse ){ T c = out=="v" ? ein("m,m->",{P,r}) : out=="vv" ? ein("m,mn->n",{P,r}) : ein("m,ma->a",{P,r}); if( c.norm()>1e-8*sc*(1+P.norm()) ) g.fail(nm + " is not transverse to the momentum"); }
    if( out=="vv" ){ C tr=0; for(int i=0;i<4;++i){ tr+=lz::metric(i)*r(i,i); for(int j=0;j<i;++j) if( std::abs(r(i,j)-r(j,i))>1e-9*sc ) g.fail(nm + " is not symmetric"); } if( std::abs(tr)>1e-8*sc*(1+P.norm()*P.norm()) ) g.fail(nm + " is not traceless"); }
    if( v.dirac ){ T p=lz::slash(P)*(C(v.dirac)/std::sqrt(lz::d(P,P))); T q = out=="s" ? lz::mul(p,r) : ein("ab,mb->ma",{p,r}); T diff=q-r; if( diff.norm()>1e-8*sc*(1+P.norm()) ) g.fail(nm + " does not satisfy the Dirac equation"); if( out=="vs" ){ T gt=ein("mab,mb->a",{lz::gamma(),r}); if( gt.norm()>1e-8*sc*(1+P.norm()) ) g.fail(nm + " is not gamma-traceless"); } }
    switch( g.range(0,3) ){
      case 0: { auto l = v.lorentzOk ? lz::lorentz(g) : lz::rotation(g); T r2=eval(g,v,lz::apply(l,P),lz::apply(l,Q),lz::transform(l,a,v.k1),lz::transform(l,b,v.k2)); T w=lz::transform(l,r,v.out); double s=std::max(1.,l.vec.norm()); for(size_t i=0;i<w.v.size();++i) if( !(std::abs(r2.v[i]-w.v[i])<=1e-8*s*s*s*(1+r.norm())*(1+std::pow(P.norm(),3))) ) g.fail(nm + " does not transform covariantly"); break; }
      case 1: { C z(g.uniform(-1,1),g.uniform(-1,1)); bool first=g.coin(); T r2 = first ? eval(g,v,P,Q,a*z,b) : eval(g,v,P,Q,a,b*z); same(g,nm + " is not (anti)linear in the wave function of a decay product",r2,r*(( first?v.bar1:v.bar2 ) ? std::conj(z) : z)); break; }
      case 2: { if( v.degree<0 ) break; double z=g.uniform(0.3,2); T r2=eval(g,v,P,Q*C(z) + P*C(g.uniform(-1,1)),a,b); double tol=1e-8*(1+r.norm())*std::pow(1+P.norm()+Q.norm(),4); T w=r*C(std::pow(z,v.degree)); for(size_t i=0;i<w.v.size();++i) if( !(std::abs(r2.v[i]-w.v[i])<=tol) ) g.fail(nm + " is not of degree " + std::to_string(v.degree) + " in the transverse relative momentum"); break; }
      default: break; }
  }
  void operators(pbt::Gen& g){ T P=lz::timelike(g), Q=lz::real4(g,2); std::ostringstream o; o << "P=("; for(auto& x : P.v) o << x.real() << " "; o << ") Q=("; for(auto& x : Q.v) o << x.real() << " "; o << ")"; g.desc(o.str()); g.nontrivial(); auto p=lib(P), q=lib(Q); double sc=1+P.norm()*P.norm();
    same(g,"Orbital_PWave",num(g,Orbital_PWave(p,q),1),lz::L1(P,Q),sc); same(g,"Orbital_DWave",num(g,Orbital_DWave(p,q),2),lz::L2(P,Q),sc*sc); same(g,"slash",num(g,slash(p),2),lz::slash(P)); same(g,"Gamma4Vec",num(g,Gamma4Vec(),3),lz::gamma()); same(g,"gamma_twiddle",num(g,gamma_twiddle(p),3),lz::gt(P),sc);
    T S=num(g,Spin1Projector(p),2); same(g,"Spin1Projector",S,lz::S1(P),sc); same(g,"Spin1Projector squared",ein("mn,nr->mr",{S,S}),S,sc*sc);
    T F=num(g,Spin1hProjector(p),2), B=num(g,Spin1hbProjector(p),2); same(g,"Spin1hProjector",F,lz::Sh(P,1),sc); same(g,"Spin1hbProjector",B,lz::Sh(P,-1),sc); same(g,"spin-half projectors do not add up to one",F+B,lz::one(),sc); same(g,"product of the particle and antiparticle projectors",lz::mul(F,B),T(2),sc*1e3); same(g,"Spin1hProjector squared",lz::mul(F,F),F,sc*sc);
    if( g.chance(1,3) ){ T S2=num(g,Spin2Projector(p),4); same(g,"Spin2Projector",S2,lz::S2(P),sc*sc); same(g,"Spin2Projector squared",ein("mnrs,rstu->mntu",{S2,S2}),S2,sc*sc*sc); g.label("spin 2"); }
    if( g.chance(1,3) ){ int s=g.coin()?1:-1; T R=num(g,s>0?Spin3hProjector(p):Spin3hbProjector(p),4); same(g,"Spin3hProjector",R,lz::S3h(P,s),sc*sc); T tr=ein("m,mnab->nab",{P,R}); if( tr.norm()>1e-8*sc*sc*(1+R.norm()) ) g.fail("spin 3/2 projector is not transverse"); T gtr=ein("mab,mnbc->nac",{lz::gamma(),R}); if( gtr.norm()>1e-8*sc*sc*(1+R.norm()) ) g.fail("spin 3/2 projector is not gamma-traceless"); T sq=ein("mnab,nrbc->mrac",{R,R}); same(g,"minus the spin 3/2 projector squared",sq*(-1.),R,sc*sc*sc); g.label("spin 3/2"); }
    T u=lz::cpx(g,1); same(g,"Bar",num(g,Bar(lib(u)),1),lz::bar(u));
    std::vector<T> ps={lz::timelike(g),lz::timelike(g),lz::timelike(g)}; std::vector<std::pair<Tensor,Tensor>> in; for(auto& x : ps) in.push_back({lib(x),lib(T(C(1)))}); same(g,"three-body vector current",num(g,Vertex::Factory::getSpinFactorNBody(in,1),1),ein("mnrs,n,r,s->m",{lz::eps(),ps[0],ps[1],ps[2]}),1); same(g,"three-body scalar current",num(g,Vertex::Factory::getSpinFactorNBody(in,0),0),T(C(1)));
  }
}
int main(int argc, char** argv){
  pbt::Check c("P09","every case: random time-like momentum, relative momentum and complex wave functions in a random vertex"); c.scale(2);
  c.prop("operators", 2500, 60000, operators); c.prop("vertices", 30000, 600000, vertex);
  return c.main(argc,argv);
}
