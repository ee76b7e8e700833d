// P10: Dirac and generator matrices, and the external polarisation vectors and spinors.
#include "lorentz.h"
#include "insitu.h"
#include "particle_gen.h"
#include "AmpGen/DiracMatrices.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/Vertex.h"
using namespace AmpGen;
using lz::T; using lz::C; using lz::ein;
namespace {
  T mat(pbt::Gen& g, const Tensor& t, int n=4){ g.require((int)t.size()==n*n,"matrix size"); T r(2); for(int i=0;i<n;++i) for(int j=0;j<n;++j) r(i,j)=t(i,j)(); return r; }
  void same(pbt::Gen& g, const std::string& what, const T& a, const T& b, double tol){ for(size_t i=0;i<a.v.size();++i) if( !(std::abs(a.v[i]-b.v[i])<=tol) ){ std::ostringstream o; o << what << ": component " << i << " is " << a.v[i] << ", expected " << b.v[i]; g.fail(o.str()); } }
  void algebra(pbt::Gen& g){ int i=g.range(0,3), j=g.range(0,3); g.desc("matrices " + std::to_string(i) + "," + std::to_string(j)); g.nontrivial(); T a=mat(g,Gamma[i]), b=mat(g,Gamma[j]), g5=mat(g,Gamma[4]);
    same(g,"{gamma_i,gamma_j} = 2 g_ij",lz::mul(a,b)+lz::mul(b,a),lz::one()*C(i==j?2*lz::metric(i):0),1e-14); same(g,"{gamma_i,gamma_5} = 0",lz::mul(a,g5)+lz::mul(g5,a),T(2),1e-14); same(g,"gamma_5 squared",lz::mul(g5,g5),lz::one(),1e-14); same(g,"gamma_5",lz::mul(mat(g,Gamma[3]),lz::mul(mat(g,Gamma[0]),lz::mul(mat(g,Gamma[1]),mat(g,Gamma[2]))))*lz::I,g5,1e-14);
    T ref(2); for(int x=0;x<4;++x) for(int y=0;y<4;++y) ref(x,y)=lz::gamma()(i,x,y); same(g,"gamma matrix",a,ref,0);
    if( i<3 && j<3 ){ int k=3-i-j; double e = i==j ? 0 : (j-i+3)%3==1 ? 1 : -1; auto comm=[&](const T& x, const T& y){ return lz::mul(x,y)-lz::mul(y,x); }; T si=mat(g,Sigma[i],2), sj=mat(g,Sigma[j],2), z(2); same(g,"[sigma_i,sigma_j]",comm(si,sj), i==j?z:mat(g,Sigma[k],2)*(2.*lz::I*e),1e-14); same(g,"{sigma_i,sigma_j}",lz::mul(si,sj)+lz::mul(sj,si),[&]{ T r(2); r(0,0)=r(1,1)= i==j?2:0; return r; }(),1e-14); same(g,"[Sigma4_i,Sigma4_j]",comm(mat(g,Sigma4[i]),mat(g,Sigma4[j])), i==j?z:mat(g,Sigma4[k])*(2.*lz::I*e),1e-14); same(g,"SO(3) algebra",comm(mat(g,SO3[i]),mat(g,SO3[j])), i==j?z:mat(g,SO3[k])*C(e),1e-14);
      T S4(2); T gi(2), gj(2), gk(2); for(int x=0;x<4;++x) for(int y=0;y<4;++y){ gi(x,y)=lz::gamma()((i+1)%3,x,y); gj(x,y)=lz::gamma()((i+2)%3,x,y); } same(g,"Sigma4 is the rotation generator of bispinors",lz::mul(gi,gj)*lz::I,mat(g,Sigma4[i]),1e-14); }
    int p=g.range(0,7), q=g.range(0,7); T A=mat(g,SU3[p],3), B=mat(g,SU3[q],3); C tr=0; for(int x=0;x<3;++x) for(int y=0;y<3;++y) tr+=A(x,y)*B(y,x); if( std::abs(tr-(p==q?2.:0.))>1e-12 ) g.fail("trace of the product of Gell-Mann matrices " + std::to_string(p) + "," + std::to_string(q)); for(int x=0;x<3;++x) for(int y=0;y<3;++y) if( std::abs(A(x,y)-std::conj(A(y,x)))>1e-14 ) g.fail("Gell-Mann matrix is not hermitian");
    { static const struct { int a,b,c; double v; } fs[]={{0,1,2,1},{0,3,6,.5},{0,4,5,-.5},{1,3,5,.5},{1,4,6,.5},{2,3,4,.5},{2,5,6,-.5},{3,4,7,std::sqrt(3.)/2},{5,6,7,std::sqrt(3.)/2}}; auto F=[](int a, int b, int c){ for(auto& f : fs){ int p[3]={a,b,c}; for(int k=0;k<3;++k){ if( p[k]==f.a && p[(k+1)%3]==f.b && p[(k+2)%3]==f.c ) return f.v; if( p[k]==f.a && p[(k+2)%3]==f.b && p[(k+1)%3]==f.c ) return -f.v; } } return 0.; }; C t1=A(0,0)+A(1,1)+A(2,2); if( std::abs(t1)>1e-12 ) g.fail("trace of Gell-Mann matrix " + std::to_string(p)); T M[8]; for(int c=0;c<8;++c) M[c]=mat(g,SU3[c],3); for(int x=0;x<3;++x) for(int y=0;y<3;++y){ C k=0, w=0; for(int z=0;z<3;++z) k+=A(x,z)*B(z,y)-B(x,z)*A(z,y); for(int c=0;c<8;++c) w+=C(0,2*F(p,q,c))*M[c](x,y); if( std::abs(k-w)>1e-12 ) g.fail("commutator of Gell-Mann matrices " + std::to_string(p) + "," + std::to_string(q)); } } }
  const std::vector<std::string>& fermions(){ static std::vector<std::string> v={"mu-","mu+","e+","p+","pbar-","Lambda0","Lambdabar0","Xi-","Lambda(c)+","tau-","Sigma+"}; static bool once=[]{ std::vector<std::string> k; for(auto& n : v) if( pg::db().has(n) ) k.push_back(n); v=k; return true; }(); (void)once; return v; }
  const std::vector<std::string>& vectors(){ static std::vector<std::string> v={"rho(770)0","K*(892)0","phi(1020)0","J/psi(1S)0","a(1)(1260)+","D*(2010)+","gamma0"}; static bool once=[]{ std::vector<std::string> k; for(auto& n : v) if( pg::db().has(n) ) k.push_back(n); v=k; return true; }(); (void)once; return v; }
  struct State { std::vector<T> s; };
  void external(pbt::Gen& g){
    bool weyl=g.coin(); bool fermion=g.coin(); auto name=g.pick(fermion?fermions():vectors()); auto& sp=pg::db()[name]; bool photon=name=="gamma0"; if( photon ) weyl=true; g.assume(!(sp.mass==0 && !photon));
    OptionsParser::setArg(std::string("Particle::SpinBasis ") + (weyl?"Weyl":"Dirac")); Particle p(name,0u); double m=sp.mass;
    double mom = g.pick({0.0,1e-3,0.3,1.0,5.0})*g.uniform(0.5,1.5)*std::max(m,0.2); if( photon && mom==0 ) mom=0.7; double ct,ph; int dir=g.range(0,6); ct = dir==0 ? 1 : dir==1 ? -1 : dir==2 ? 0 : g.uniform(-1,1); ph = dir==3 ? g.range(0,3)*M_PI/2 : g.uniform(-M_PI,M_PI); if( mom*(1+ct)<3e-6 ) ct = ct<0 ? -1 : 1; double st=std::sqrt(std::max(0.,1-ct*ct)); if( ct==1||ct==-1 ) st=0; g.label(mom==0?"at rest":ct==-1?"along -z":ct==1?"along +z":"general"); g.label(weyl?"helicity":"z axis");
    std::vector<double> k={mom*st*std::cos(ph),mom*st*std::sin(ph),mom*ct,std::sqrt(mom*mom+m*m)}; std::ostringstream o; o.precision(17); o << name << (weyl?" Weyl":" Dirac") << " p=(" << k[0] << "," << k[1] << "," << k[2] << "," << k[3] << ")"; g.desc(o.str()); if( mom>0 ) g.nontrivial();
    T P=lz::vec({k[0],k[1],k[2],k[3]}); auto ev=insitu::eventMap(1); auto get=[&](int pol){ insitu::Tens t(p.externalSpinTensor(pol),ev); t.event(k); auto v=t(); g.require(v.size()==4,"number of components"); T r(1); for(int i=0;i<4;++i){ if( !std::isfinite(v[i].real()) || !std::isfinite(v[i].imag()) ) g.fail("component " + std::to_string(i) + " of polarisation state " + std::to_string(pol) + " is not finite"); r(i)=v[i]; } return r; };
    double gam = m>0 ? k[3]/m : 1; double tol=1e-10*(1+gam*gam)*(1+1/(mom*(1+ct)+ (mom==0||ct==-1?1:0))); T n(1); for(int i=0;i<3;++i) n(i) = mom>0 ? k[i]/mom : (i==2?1.:0.);
    if( fermion ){ int sg = sp.id>0 ? 1 : -1; std::vector<int> pols={1,-1}; std::vector<T> u; for(int s : pols) u.push_back(get(s)); T D=lz::slash(P)*C(sg/m); T sum(2);
      for(int a=0;a<2;++a){ same(g,"Dirac equation, state " + std::to_string(pols[a]),lz::mul(D,u[a]),u[a],tol*gam); for(int b=0;b<2;++b){ C x=ein("a,a->",{lz::bar(u[a]),u[b]}).v[0]; if( std::abs(x-C(a==b?sg:0))>tol*gam ) g.fail("normalisation of the spinors " + std::to_string(pols[a]) + "," + std::to_string(pols[b]) + ": " + pbt::str(x.real())); } sum=sum+ein("a,b->ab",{u[a],lz::bar(u[a])}); }
      same(g,"spin sum",sum,(lz::slash(P)*C(1/m) + lz::one()*C(sg))*0.5,tol*gam);
      for(int a=0;a<2;++a){ T w(1); if( weyl ){ // helicity operator
          T h(2); for(int x=0;x<4;++x) for(int y=0;y<4;++y) for(int i=0;i<3;++i) h(x,y)+=n(i)*Sigma4[i](x,y)(); w=lz::mul(h,u[a]); same(g,"helicity of state " + std::to_string(pols[a]),w,u[a]*C(pols[a]),tol*gam); }
        else { T r(1); r((a==0?0:1) + (sg>0?0:2))=1; T b=(lz::slash(P)*C(sg) + lz::one()*C(m))*C(1./std::sqrt(2*m*(k[3]+m))); w=lz::mul(b,r); same(g,"spinor boosted from rest, state " + std::to_string(pols[a]),u[a],w,tol*gam); } } }
    else { std::vector<int> pols = photon ? std::vector<int>{1,-1} : std::vector<int>{1,0,-1}; std::vector<T> e; for(int s : pols) e.push_back(get(s)); T sum(2);
      for(size_t a=0;a<e.size();++a){ C x=lz::d(P,e[a]); if( std::abs(x)>tol*gam*(1+k[3]) ) g.fail("polarisation vector " + std::to_string(pols[a]) + " is not transverse: " + pbt::str(std::abs(x))); for(size_t b=0;b<e.size();++b){ C y=lz::d(lz::conj(e[a]),e[b]); if( std::abs(y+C(a==b?1:0))>tol*gam ) g.fail("normalisation of the polarisation vectors " + std::to_string(pols[a]) + "," + std::to_string(pols[b]) + ": " + pbt::str(y.real())); } sum=sum+ein("m,n->mn",{e[a],lz::conj(e[a])}); }
      if( !photon ) same(g,"polarisation sum",sum,ein("m,n->mn",{P,P})*C(1/(m*m)) - lz::g(),tol*gam*gam);
      else { T w(2); for(int i=0;i<3;++i) for(int j=0;j<3;++j) w(i,j)=(i==j?1.:0.)-n(i)*n(j); same(g,"polarisation sum of the photon",sum,w,tol); }
      for(size_t a=0;a<e.size();++a){ if( weyl ){ T w(1); w(0)=lz::I*(n(1)*e[a](2)-n(2)*e[a](1)); w(1)=lz::I*(n(2)*e[a](0)-n(0)*e[a](2)); w(2)=lz::I*(n(0)*e[a](1)-n(1)*e[a](0)); T v=e[a]*C(pols[a]); v(3)=0; if( pols[a]!=0 ) v(3)=0; same(g,"helicity of polarisation vector " + std::to_string(pols[a]),w,v,tol*gam); if( pols[a] && std::abs(e[a](3))>tol*gam ) g.fail("transverse polarisation has a time component"); if( pols[a]==0 && mom>0 ){ C y=0; for(int i=0;i<3;++i) y+=n(i)*e[a](i); if( std::abs(y-gam)>tol*gam*gam ) g.fail("longitudinal polarisation vector"); } }
        else { T r(1); double s2=std::sqrt(0.5); if( pols[a]==1 ){ r(0)=-s2; r(1)=-lz::I*s2; } else if( pols[a]==-1 ){ r(0)=s2; r(1)=-lz::I*s2; } else r(2)=1; C pr=0; for(int i=0;i<3;++i) pr+=P(i)*r(i); T w(1); for(int i=0;i<3;++i) w(i)=r(i)+P(i)*pr/(m*(k[3]+m)); w(3)=pr/m; same(g,"polarisation vector boosted from rest, state " + std::to_string(pols[a]),e[a],w,tol*gam*gam); } } }
  }
}
int main(int argc, char** argv){
  pbt::Check c("P10","the particle is moving, or the pair of matrices is drawn at random (all pairs are visited)"); c.scale(20);
  c.assume("momenta are on the mass shell of the particle; directions within 3e-6 of -z (by p+pz) are drawn only exactly along -z");
  c.prop("algebra", 600, 2000, algebra); c.prop("external", 12000, 300000, external);
  return c.main(argc,argv);
}
