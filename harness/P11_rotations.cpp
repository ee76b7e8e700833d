// P11: angular momentum algebra (Wigner functions, Clebsch-Gordan and recoupling coefficients), Lorentz
// transformations in their three representations, Wick helicity frames and canonical spin amplitudes.
#include "insitu.h"
#include "lorentz.h"
#include "particle_gen.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/Transform.h"
#include "AmpGen/Wigner.h"
using namespace AmpGen;
using lz::T; using lz::C;
namespace {
  double F(double n){ return std::tgamma(n+1); }
  // textbook small-d function d^j_{m'm}(beta)
  double refd(double j, double mp, double m, double b){ double r=0; for(int s=0;s<60;++s){ if( j+m-s<-0.1 || mp-m+s<-0.1 || j-mp-s<-0.1 ) continue; r += (int(std::lround(mp-m+s))%2?-1:1)*std::sqrt(F(j+mp)*F(j-mp)*F(j+m)*F(j-m))/(F(j+m-s)*F(s)*F(mp-m+s)*F(j-mp-s))*std::pow(std::cos(b/2),2*j+m-mp-2*s)*std::pow(std::sin(b/2),mp-m+2*s); } return r; }
  std::string n2(double x){ std::ostringstream o; o << x; return o.str(); }
  void wigner(pbt::Gen& g){ double j=g.range(0,12)/2., m=-j+g.draw(int(2*j)+1), n=-j+g.draw(int(2*j)+1); double c = g.chance(1,8) ? g.pick({1.,-1.,0.}) : g.uniform(-1,1); double phi=g.uniform(-3.1,3.1); g.desc("d[" + n2(j) + "," + n2(m) + "," + n2(n) + "](cos=" + pbt::str(c) + ") phi=" + pbt::str(phi)); if( j>=1 && std::abs(c)<0.999 ) g.nontrivial(); g.label(std::abs(j-std::floor(j))>0.1?"half-integer":"integer");
    Parameter pc("c"), px("x"), py("y"); std::map<std::string,unsigned> ev={{"c",0},{"x",1},{"y",2}}; Expression cc(pc); insitu::Expr d(wigner_d(cc,j,m,n),ev); d.set("c",c); g.close("d-function",d().real(),refd(j,m,n,std::acos(c)),1e-9,1e-9);
    Expression ph=Expression(px)+Expression(C(0,1))*Expression(py); insitu::Expr D(wigner_D({cc,ph},j,m,n,insitu::db),ev); D.set("c",c); D.set("x",std::cos(phi)); D.set("y",std::sin(phi)); C want=refd(j,m,n,std::acos(c))*std::polar(1.,(n-m)*phi), got=D(); if( std::abs(got-want)>1e-9 ) g.fail("D-function is " + pbt::str(got.real()) + "+" + pbt::str(got.imag()) + "i, expected " + pbt::str(want.real()) + "+" + pbt::str(want.imag()) + "i"); }
  // Clebsch-Gordan coefficients from ladder operators (Condon-Shortley phases), no Racah formula
  const std::vector<double>& table(double j1, double j2, double J, double M){ static std::map<std::array<int,4>,std::vector<double>> cache; std::array<int,4> key={int(2*j1),int(2*j2),int(2*J),int(2*M)}; auto it=cache.find(key); if( it!=cache.end() ) return it->second; int n1=int(2*j1)+1; auto ok=[&](int i, double M){ double m2=M-(-j1+i); return m2>=-j2-0.1 && m2<=j2+0.1; }; std::vector<double> v(n1,0); 
    if( std::abs(M-J)<0.1 ){ // J+ |JJ> = 0, coefficient of m1=j1 positive
      v[n1-1] = ok(n1-1,M) ? 1 : 0; for(int i=n1-2;i>=0;--i){ if( !ok(i,M) ) continue; double m1=-j1+i, m2=M-m1; double up1=std::sqrt(j1*(j1+1)-m1*(m1+1)), up2=std::sqrt(j2*(j2+1)-(m2-1)*m2); v[i] = -v[i+1]*up2/up1; } double n=0; for(double x : v) n+=x*x; for(double& x : v) x/=std::sqrt(n); }
    else { auto& u=table(j1,j2,J,M+1); for(int i=0;i<n1;++i){ if( !ok(i,M) ) continue; double m1=-j1+i, m2=M-m1; if( i+1<n1 && ok(i+1,M+1) ) v[i]+=u[i+1]*std::sqrt(j1*(j1+1)-(m1+1)*m1); if( ok(i,M+1) ) v[i]+=u[i]*std::sqrt(j2*(j2+1)-(m2+1)*m2); v[i]/=std::sqrt(J*(J+1)-(M+1)*M); } }
    return cache[key]=v; }
  double refCG(double j1, double m1, double j2, double m2, double J, double M){ if( std::abs(m1+m2-M)>0.1 || J<std::abs(j1-j2)-0.1 || J>j1+j2+0.1 || std::abs(m1)>j1+0.1 || std::abs(m2)>j2+0.1 || std::abs(M)>J+0.1 ) return 0; return table(j1,j2,J,M)[std::lround(m1+j1)]; }
  void clebsch(pbt::Gen& g){ double j1=g.range(0,8)/2., j2=g.range(0,8)/2.; double J=std::abs(j1-j2)+g.draw(int(2*std::min(j1,j2))+1); if( g.chance(1,10) ) J=std::fmod(j1+j2,1.)+g.draw(9); double m1=-j1+g.draw(int(2*j1)+1), m2=-j2+g.draw(int(2*j2)+1); double M=m1+m2; if( g.chance(1,10) ) M+=g.pick({-1,1}); if( g.chance(1,10) ){ m1+=1; m2-=1; } g.desc("<" + n2(j1) + " " + n2(m1) + " " + n2(j2) + " " + n2(m2) + "|" + n2(J) + " " + n2(M) + ">"); double want=refCG(j1,m1,j2,m2,J,M); if( j1>0 && j2>0 && want!=0 ) g.nontrivial(); g.label(want==0?"zero":"non-zero"); g.close("Clebsch-Gordan coefficient",CG(j1,m1,j2,m2,J,M),want,1e-9,1e-10); }
  void recoupling(pbt::Gen& g){ double j1=g.range(0,5)/2., j2=g.range(0,5)/2., S=std::abs(j1-j2)+g.draw(int(2*std::min(j1,j2))+1); double L=g.range(0,4), J=std::abs(L-S)+g.draw(int(2*std::min(L,S))+1), M=-J+g.draw(int(2*J)+1); g.desc("J=" + n2(J) + " M=" + n2(M) + " L=" + n2(L) + " S=" + n2(S) + " -> " + n2(j1) + " x " + n2(j2)); if( j1>0 && j2>0 ) g.nontrivial(); auto r=calculate_recoupling_constants(J,M,L,S,j1,j2); std::map<std::pair<int,int>,double> got; double norm=0; for(auto& x : r){ g.close("normalisation of the coupling",x.p,std::sqrt((2*L+1)/(2*J+1)),1e-12); g.close("coefficients of the coupling",x.p*x.cg1*x.cg2,x.factor,1e-12,1e-13); g.require(got.emplace(std::make_pair(int(std::lround(2*x.m1)),int(std::lround(2*x.m2))),x.factor).second,"a pair of helicities is listed twice"); norm+=x.factor*x.factor; } size_t n=0; for(double m1=-j1;m1<=j1+0.1;++m1) for(double m2=-j2;m2<=j2+0.1;++m2){ double want=std::sqrt((2*L+1)/(2*J+1))*refCG(L,0,S,m1-m2,J,m1-m2)*refCG(j1,m1,j2,-m2,S,m1-m2); auto it=got.find({int(std::lround(2*m1)),int(std::lround(2*m2))}); g.close("recoupling constant of helicities " + n2(m1) + "," + n2(m2),it==got.end()?0.:it->second,want,1e-9,1e-10); ++n; } g.close("sum of the squared recoupling constants",norm,1,1e-9,1e-9); g.evals(n); }
  struct Step { bool boost; double arg; double k[3]; };
  struct Mat { int n; std::vector<C> v; C& operator()(int i, int j){ return v[i*n+j]; } C operator()(int i, int j) const { return v[i*n+j]; } };
  Mat eye(int n){ Mat m{n,std::vector<C>(n*n)}; for(int i=0;i<n;++i) m(i,i)=1; return m; }
  Mat operator*(const Mat& a, const Mat& b){ Mat r{a.n,std::vector<C>(a.n*a.n)}; for(int i=0;i<a.n;++i) for(int j=0;j<a.n;++j) for(int k=0;k<a.n;++k) r(i,j)+=a(i,k)*b(k,j); return r; }
  const C S[3][2][2]={{{0,1},{1,0}},{{0,C(0,-1)},{C(0,1),0}},{{1,0},{0,-1}}};
  // reference matrices: 0 spinor, 1 bispinor, 2 vector
  Mat ref(const Step& s, int repr){ double h = s.boost ? std::acosh(s.arg) : std::acos(s.arg);
    if( repr==2 ){ Mat m=eye(4); if( !s.boost ) for(int i=0;i<3;++i) for(int j=0;j<3;++j){ double e=0; for(int l=0;l<3;++l) if( i!=j && j!=l && l!=i ) e-=((j-i+3)%3==1?1:-1)*s.k[l]; m(i,j) = (i==j?s.arg:0) + (1-s.arg)*s.k[i]*s.k[j] + std::sin(h)*e; } else { for(int i=0;i<3;++i){ for(int j=0;j<3;++j) m(i,j)=(i==j?1.:0.)+(s.arg-1)*s.k[i]*s.k[j]; m(i,3)=m(3,i)=-std::sinh(h)*s.k[i]; } m(3,3)=s.arg; } return m; }
    Mat sk{2,std::vector<C>(4)}; for(int i=0;i<2;++i) for(int j=0;j<2;++j) for(int l=0;l<3;++l) sk(i,j)+=s.k[l]*S[l][i][j];
    Mat m2=eye(2); for(int i=0;i<2;++i) for(int j=0;j<2;++j) m2(i,j) = s.boost ? (i==j?std::cosh(h/2):0.)+sk(i,j)*std::sinh(h/2) : (i==j?std::cos(h/2):0.)-C(0,1)*sk(i,j)*std::sin(h/2); if( repr==0 ) return m2;
    Mat m{4,std::vector<C>(16)}; for(int i=0;i<2;++i) for(int j=0;j<2;++j){ if( !s.boost ){ m(i,j)=m(i+2,j+2)=m2(i,j); } else { m(i,j)=m(i+2,j+2)=(i==j?std::cosh(h/2):0.); m(i,j+2)=m(i+2,j)=-sk(i,j)*std::sinh(h/2); } } return m; }
  void same(pbt::Gen& g, const std::string& what, const Tensor& t, const Mat& m, double tol=1e-8){ g.require((int)t.size()==m.n*m.n,what + " has " + std::to_string(t.size()) + " components, expected " + std::to_string(m.n*m.n)); for(int i=0;i<m.n*m.n;++i){ C x=t[i](); double sc=1; for(auto& y : m.v) sc=std::max(sc,std::abs(y)); if( !(std::abs(x-m.v[i])<=tol*sc) ) g.fail(what + ": component " + std::to_string(i) + " is " + pbt::str(x.real()) + "+" + pbt::str(x.imag()) + "i, expected " + pbt::str(m.v[i].real()) + "+" + pbt::str(m.v[i].imag()) + "i"); } }
  Step step(pbt::Gen& g){ Step s; s.boost=g.coin(); s.arg = s.boost ? 1+g.uniform(0.001,3) : g.uniform(-0.999,0.999); double n; do { n=0; for(double& x : s.k){ x=g.uniform(-1,1); n+=x*x; } } while( n<1e-3 ); if( g.chance(1,4) ){ int a=g.draw(3); for(int i=0;i<3;++i) s.k[i]=i==a?1:0; n=1; } for(double& x : s.k) x/=std::sqrt(n); return s; }
  Transform make(const Step& s){ return Transform(s.arg,Tensor({s.k[0],s.k[1],s.k[2]},Tensor::dim(3)),s.boost?Transform::Type::Boost:Transform::Type::Rotate); }
  void transforms(pbt::Gen& g){ static const char* names[]={"spinor","bispinor","vector"}; int n=g.range(0,5); std::vector<Step> st; std::string d; for(int i=0;i<n;++i){ st.push_back(step(g)); d += std::string(st.back().boost?" boost":" rotate") + "(" + pbt::str(st.back().arg) + ";" + n2(st.back().k[0]) + "," + n2(st.back().k[1]) + "," + n2(st.back().k[2]) + ")"; } g.desc("sequence of " + std::to_string(n) + d); if( n>=2 ) g.nontrivial(); int build=g.draw(7); TransformSequence seq; if( build==6 ){ for(int i=g.range(1,3);i-->0;) seq.push_back(make(step(g))); seq.clear(); g.require(seq.size()==0,"a cleared sequence has no transformations"); for(int r=0;r<3;++r) same(g,std::string(names[r]) + " of a cleared sequence",seq(Transform::Representation(r)),eye(r==0?2:4)); for(auto& s : st) seq.push_back(make(s)); } else if( build==5 && n>=2 ){ seq=TransformSequence(make(st[0]),make(st[1])); for(int i=2;i<n;++i) seq.push_back(make(st[i])); } else if( build==0 ) for(auto& s : st) seq.push_back(make(s)); else if( build==1 ){ int cut=n?g.draw(n+1):0; TransformSequence a, b; for(int i=0;i<n;++i) (i<cut?a:b).push_back(make(st[i])); seq=TransformSequence(a,b); } else if( build==3 ){ TransformSequence b; for(auto& s : st) b.push_back(make(s)); seq.push_back(b); } else if( build==4 ){ size_t i=0; while( i<st.size() ){ TransformSequence b; int len=g.range(1,3); for(int k=0;k<len && i<st.size();++k) b.push_back(make(st[i++])); seq.push_back(b); } } else { TransformSequence b; for(size_t i=0;i<st.size();++i){ if( i==0 ) seq=TransformSequence(make(st[i])); else b.push_back(make(st[i])); } seq.push_back(b); }
    g.require(seq.size()==(unsigned)n,"the sequence has " + std::to_string(seq.size()) + " transformations"); auto inv=seq.inverse(); T v=lz::real4(g,2);
    for(int r=0;r<3;++r){ auto repr=Transform::Representation(r); Mat m=eye(r==0?2:4); for(auto& s : st){ same(g,std::string(names[r]) + " of one transformation",make(s)(repr),ref(s,r)); same(g,std::string(names[r]) + " of an inverse",make(s).inverse()(repr)*1,ref(Step{s.boost,s.arg,{-s.k[0],-s.k[1],-s.k[2]}},r)); m=ref(s,r)*m; } same(g,std::string(names[r]) + " of the sequence",seq(repr),m); Mat mi=eye(m.n); for(auto it=st.rbegin();it!=st.rend();++it) mi=ref(Step{it->boost,it->arg,{-it->k[0],-it->k[1],-it->k[2]}},r)*mi; same(g,std::string(names[r]) + " of the inverse sequence",inv(repr),mi);
      int k=m.n; Tensor x(Tensor::dim(k)); for(int i=0;i<k;++i) x[i]=v(i); if( n ){ Mat f=ref(st[0],r); auto z=make(st[0])(x,repr); g.require((int)z.size()==k,"size of a transformed vector"); for(int i=0;i<k;++i){ C want=0; double sc=1; for(int j=0;j<k;++j){ want+=f(i,j)*v(j); sc=std::max(sc,std::abs(f(i,j)*v(j))); } if( std::abs(z[i]()-want)>1e-8*sc ) g.fail(std::string(names[r]) + " transformation applied to a vector, component " + std::to_string(i) + " is " + pbt::str(z[i]().real()) + ", expected " + pbt::str(want.real())); } } auto y=seq(x,repr); for(int i=0;i<k;++i){ C want=0; double sc=1; for(int j=0;j<k;++j){ want+=m(i,j)*v(j); sc=std::max(sc,std::abs(m(i,j)*v(j))); } if( std::abs(y[i]()-want)>1e-8*sc ) g.fail(std::string(names[r]) + " sequence applied to a vector, component " + std::to_string(i) + " is " + pbt::str(y[i]().real()) + ", expected " + pbt::str(want.real())); } }
    g.evals(12); }
  void wick(pbt::Gen& g){ static const std::vector<std::string> names={"D0","p+","pi+","gamma0","nu(e)0"}; std::string n=g.pick(names); if( !pg::db().has(n) ) g.discard(); bool massless=pg::db()[n].mass==0; Particle p(n); p.setIndex(0); int ve=g.coin()?1:-1; double k[4], p2=0; int kind=g.weighted({8,1,1,2}); for(int i=0;i<3;++i){ k[i] = kind==1 && i<2 ? 0 : kind==2 && i==2 ? 0 : kind==3 && i<2 ? (g.coin()?1:-1)*g.logreal(1e-6,1e-2) : g.uniform(-2,2); p2+=k[i]*k[i]; } if( p2<1e-4 ) g.discard(); double m = pg::db()[n].mass; k[3]=std::sqrt(p2+m*m); std::string d; for(double x : k) d+=" "+pbt::str(x); g.desc(n + " (" + d + " ) axis " + (ve>0?"+z":"-z")); g.nontrivial(); g.label(massless?"massless":"massive"); g.label(kind==1?"along z":kind==3?"nearly along z":kind==2?"transverse":"general");
    bool unboosted = p.props()->isPhoton() || p.props()->isNeutrino(); if( massless && !unboosted ) g.discard();
    Tensor P=p.P(); auto ev=insitu::eventMap(1); auto seq=wickTransform(P,p,ve); std::vector<double> e(k,k+4); auto num=[&](const Tensor& t){ insitu::Tens x(t,ev); x.event(e); return x(); };
    auto out=num(seq(P)); double pp=std::sqrt(p2); double want[4]={0,0,unboosted?pp:0,unboosted?k[3]:m}; for(int i=0;i<4;++i) if( std::abs(out[i]-want[i])>1e-7*(1+k[3]*k[3]) ) g.fail("momentum in the helicity frame: component " + std::to_string(i) + " is " + pbt::str(out[i].real()) + ", expected " + pbt::str(want[i]));
    // smallest rotation onto the +z (-z) axis, then half a turn about x for -z, then the boost
    double pT=std::hypot(k[0],k[1]), c=k[2]/pp, cphi=pT>0?k[0]/pT:1, sphi=pT>0?k[1]/pT:0; std::vector<Step> st; if( ve>0 ) st.push_back({false,c,{sphi,-cphi,0}}); else { st.push_back({false,-c,{-sphi,cphi,0}}); st.push_back({false,-1,{1,0,0}}); } if( !unboosted ) st.push_back({true,k[3]/m,{0,0,1}}); static const char* rn[]={"spinor","bispinor","vector"}; for(int r=0;r<3;++r){ Mat M=eye(r==0?2:4); for(auto& s : st) M=ref(s,r)*M; auto got=num(seq(Transform::Representation(r))); for(size_t i=0;i<M.v.size();++i) if( std::abs(got[i]-M.v[i])>1e-6*(1+k[3]/(m>0?m:1)) ) g.fail(std::string(rn[r]) + " matrix of the helicity frame: component " + std::to_string(i) + " is " + pbt::str(got[i].real()) + "+" + pbt::str(got[i].imag()) + "i, expected " + pbt::str(M.v[i].real()) + "+" + pbt::str(M.v[i].imag()) + "i"); } }
  // events in the rest frame of the parent: sequence of two-body decays with random angles
  typedef std::array<double,4> P4; typedef std::array<double,3> V3;
  P4 boostBy(const P4& p, const P4& frame){ double m=std::sqrt(frame[3]*frame[3]-frame[0]*frame[0]-frame[1]*frame[1]-frame[2]*frame[2]); double ga=frame[3]/m, bp=0; for(int i=0;i<3;++i) bp+=frame[i]/m*p[i]; P4 r; for(int i=0;i<3;++i) r[i]=p[i]+frame[i]/m*(p[3]+bp/(1+ga)); r[3]=ga*p[3]+bp; return r; }
  P4 inverse(const P4& f){ return P4{-f[0],-f[1],-f[2],f[3]}; }
  V3 direction(pbt::Gen& g){ double c=g.uniform(-0.98,0.98), s=std::sqrt(1-c*c), f=g.uniform(-3.1,3.1); return {s*std::cos(f),s*std::sin(f),c}; }
  double q(double M, double a, double b){ return std::sqrt(std::max(0.,(M*M-(a+b)*(a+b))*(M*M-(a-b)*(a-b))))/(2*M); }
  void two(const P4& frame, double M, double a, double b, const V3& n, P4& x, P4& y){ double k=q(M,a,b); P4 u{k*n[0],k*n[1],k*n[2],std::sqrt(k*k+a*a)}, w{-k*n[0],-k*n[1],-k*n[2],std::sqrt(k*k+b*b)}; x=boostBy(u,frame); y=boostBy(w,frame); }
  V3 unitIn(const P4& p, const P4& frame){ P4 r=boostBy(p,inverse(frame)); double n=std::sqrt(r[0]*r[0]+r[1]*r[1]+r[2]*r[2]); return {r[0]/n,r[1]/n,r[2]/n}; }
  double dot3(const V3& a, const V3& b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
  P4 operator+(const P4& a, const P4& b){ return {a[0]+b[0],a[1]+b[1],a[2]+b[2],a[3]+b[3]}; }
  C amp(const Particle& p, double Mz, const std::vector<P4>& ev){ insitu::Expr e(helicityAmplitude(p,TransformSequence(),Mz,insitu::db),insitu::eventMap(ev.size())); std::vector<double> f; for(auto& k : ev) f.insert(f.end(),k.begin(),k.end()); e.event(f); return e(); }
  double legendre(int l, double x){ return l==0?1:l==1?x:l==2?(3*x*x-1)/2:(5*x*x*x-3*x)/2; }
  void canonical(pbt::Gen& g){ OptionsParser::setArg("helicityAmplitude::MovingParent false"); OptionsParser::setArg("Particle::SpinFormalism Canonical"); int kind=g.range(0,3);
    if( kind==0 ){ // scalar -> R(J) + scalar, R -> two scalars : Legendre polynomials
      static const std::vector<std::pair<std::string,int>> R={{"f(0)(980)0",0},{"rho(770)0",1},{"f(2)(1270)0",2},{"rho(3)(1690)0",3}}; auto r=g.pick(R); if( !pg::db().has(r.first) ) g.discard(); bool flip=g.coin(); std::string d = flip ? "D0{pi0,"+r.first+"{pi+,pi-}}" : "D0{"+r.first+"{pi+,pi-},pi0}"; Particle p(d,std::vector<std::string>{"pi+","pi-","pi0"}); if( p.L()!=(unsigned)r.second ) g.discard(); double M=g.uniform(1.5,3), m=g.uniform(0.4,M-0.3); P4 res, k3, k1, k2; V3 n=direction(g); two({0,0,0,M},M,m,0.135,n,res,k3); V3 h=direction(g); two(res,m,0.139,0.139,h,k1,k2); double c=dot3(unitIn(k1,res),n); g.desc(d + " M=" + pbt::str(M) + " m=" + pbt::str(m) + " cos=" + pbt::str(c)); if( r.second ) g.nontrivial(); g.label("three scalars"); C a=amp(p,0,{k1,k2,k3}); double want=legendre(r.second,c); if( std::abs(std::abs(a)-std::abs(want))>1e-6 || std::abs(a.imag())>1e-6 ) g.fail("spin amplitude " + pbt::str(a.real()) + "+" + pbt::str(a.imag()) + "i, expected +-" + pbt::str(want)); 
      P4 l1,l2; V3 h2=direction(g); two(res,m,0.139,0.139,h2,l1,l2); double c2=dot3(unitIn(l1,res),n); C b=amp(p,0,{l1,l2,k3}); if( std::abs(a*legendre(r.second,c2)-b*legendre(r.second,c))>1e-6 ) g.fail("spin amplitudes at cos = " + pbt::str(c) + ", " + pbt::str(c2) + " are " + pbt::str(a.real()) + ", " + pbt::str(b.real()) + ": not proportional to the Legendre polynomial"); }
    else if( kind==1 ){ // scalar -> V V in S, P, D waves
      int l=g.range(0,2); std::string d = std::string("D0") + (l==1?"[P]":l==2?"[D]":"") + "{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}"; d = std::string("D0") + (l==1?"[P]":l==2?"[D]":"") + "{K*(892)bar0{K-,pi+},rho(770)0{pi0,pi-}}"; Particle p(d,std::vector<std::string>{"K-","pi+","pi0","pi-"}); auto event=[&](double& s, std::vector<P4>& ev){ double M=g.uniform(2,4), m1=g.uniform(0.7,M/2-0.1), m2=g.uniform(0.4,M/2-0.1); P4 v1,v2,a,b,c,e; V3 n=direction(g); two({0,0,0,M},M,m1,m2,n,v1,v2); two(v1,m1,0.494,0.139,direction(g),a,b); two(v2,m2,0.135,0.139,direction(g),c,e); V3 e1=unitIn(a,v1), e2=unitIn(c,v2); V3 x={e1[1]*e2[2]-e1[2]*e2[1],e1[2]*e2[0]-e1[0]*e2[2],e1[0]*e2[1]-e1[1]*e2[0]}; s = l==0 ? dot3(e1,e2)/std::sqrt(3.) : l==1 ? dot3(x,n)/std::sqrt(2.) : (3*dot3(e1,n)*dot3(e2,n)-dot3(e1,e2))/std::sqrt(6.); ev={a,b,c,e}; }; double s1,s2; std::vector<P4> e1,e2; event(s1,e1); event(s2,e2); g.desc(d + " " + pbt::str(s1) + " " + pbt::str(s2)); g.nontrivial(); g.label("two vectors"); C a=amp(p,0,e1), b=amp(p,0,e2); if( std::abs(std::abs(a)-std::abs(s1))>1e-6 ) g.fail("modulus of the spin amplitude " + pbt::str(std::abs(a)) + ", expected " + pbt::str(std::abs(s1))); if( std::abs(a*s2-b*s1)>1e-6 ) g.fail("the spin amplitude is not proportional to the vector expression: " + pbt::str(a.real()) + "+" + pbt::str(a.imag()) + "i for " + pbt::str(s1) + ", " + pbt::str(b.real()) + "+" + pbt::str(b.imag()) + "i for " + pbt::str(s2)); }
    else if( kind==3 ){ // spin-1/2 -> spin-1/2 + vector, in definite orbital angular momentum and total intrinsic spin
      OptionsParser::setArg("Particle::SpinBasis Dirac"); static const std::vector<std::pair<int,int>> ls={{0,1},{1,1},{1,3},{2,3}}; auto w=g.pick(ls); int l=w.first; double s=w.second/2.; std::string d=std::string("Lambda(c)+[") + "SPD"[l] + std::to_string(w.second) + "]{p+,K*(892)bar0{K-,pi+}}"; Particle p(d,std::vector<std::string>{"p+","K-","pi+"}); g.require(p.L()==(unsigned)l,"the orbital angular momentum is " + std::to_string(p.L())); double mp=pg::db()["p+"].mass; g.nontrivial(); g.label("baryon and vector");
      std::vector<C> A, W; std::string dd; for(int k=0;k<2;++k){ double M=g.uniform(2.2,4), m=g.uniform(0.7,M-mp-0.1); P4 k1,v,a,b; V3 n=direction(g); two({0,0,0,M},M,mp,m,n,k1,v); two(v,m,0.494,0.139,direction(g),a,b); V3 e=unitIn(a,v); dd+=" n=" + n2(n[0]) + "," + n2(n[1]) + "," + n2(n[2]) + " e=" + n2(e[0]) + "," + n2(e[1]) + "," + n2(e[2]);
        auto Y=[](int L, int M, const V3& n){ double pt=std::hypot(n[0],n[1]); return refd(L,M,0,std::acos(n[2]))*std::pow(C(n[0]/pt,n[1]/pt),M)*std::sqrt(2*L+1.); };
        for(int i=0;i<2;++i) for(int j=0;j<2;++j){ p.setPolarisationState(std::vector<int>{i?-1:1,j?-1:1,0,0}); double J=i?-0.5:0.5, m1=j?-0.5:0.5; A.push_back(amp(p,J,{k1,a,b})); C x=0; for(int ml=-l;ml<=l;++ml) for(int m2=-1;m2<=1;++m2) if( std::abs(ml+m1+m2-J)<0.1 ) x+=refCG(l,ml,s,m1+m2,0.5,J)*refCG(0.5,m1,1,m2,s,m1+m2)*Y(l,ml,n)*Y(1,m2,e); W.push_back(x); } }
      g.desc(d + dd); double na=0, nw=0; for(size_t i=0;i<A.size();++i){ na+=std::norm(A[i]); nw+=std::norm(W[i]); } if( nw<1e-3 ) g.discard(); g.require(na>1e-8,"the spin amplitudes vanish"); bool ok1=true, ok2=true; for(size_t i=0;i<A.size();++i) for(size_t j=0;j<A.size();++j){ if( std::abs(A[i]*W[j]-A[j]*W[i])>1e-6*std::sqrt(na*nw) ) ok1=false; if( std::abs(A[i]*std::conj(W[j])-A[j]*std::conj(W[i]))>1e-6*std::sqrt(na*nw) ) ok2=false; } if( !ok1 && !ok2 ){ std::string t; for(size_t i=0;i<A.size();++i) t += " (" + n2(A[i].real()) + "," + n2(A[i].imag()) + ")/(" + n2(W[i].real()) + "," + n2(W[i].imag()) + ")"; g.fail("spin amplitudes are not those of the partial wave:" + t); } }
    else { // spin-1/2 -> spin-1/2 + scalar in S and P waves: 1 and sigma.n between states of definite spin
      int l=g.range(0,1); static const std::vector<std::pair<std::string,std::string>> B={{"Lambda(c)+","p+"},{"Lambda0","p+"},{"Lambda(b)0","p+"},{"Lambda(c)-","pbar-"}}; auto b=B[g.draw(3)]; OptionsParser::setArg("Particle::SpinBasis Dirac"); std::string d=b.first + (l?"[P]":"[S]") + "{"+b.second+",pi-}"; Particle p(d,std::vector<std::string>{b.second,"pi-"}); if( p.L()!=(unsigned)l ) g.discard(); double M=g.uniform(1.2,4); P4 k1,k2; V3 n=direction(g); double mp=pg::db()[b.second].mass; two({0,0,0,M},M,mp,0.139,n,k1,k2); g.desc(d + " M=" + pbt::str(M) + " n=" + n2(n[0]) + "," + n2(n[1]) + "," + n2(n[2])); g.nontrivial(); g.label("baryon"); C A[2][2], W[2][2]; for(int i=0;i<2;++i) for(int j=0;j<2;++j){ p.setPolarisationState(std::vector<int>{i?-1:1,j?-1:1,0}); A[i][j]=amp(p,i?-0.5:0.5,{k1,k2}); W[i][j] = l==0 ? C(i==j?1:0) : S[0][j][i]*n[0]+S[1][j][i]*n[1]+S[2][j][i]*n[2]; } double norm=0; for(int i=0;i<4;++i) norm+=std::norm(A[i/2][i%2]); if( norm<1e-12 ) g.fail("the spin amplitude vanishes"); bool ok1=true, ok2=true; for(int i=0;i<4;++i) for(int j=0;j<4;++j){ C a=A[i/2][i%2], c=A[j/2][j%2], w=W[i/2][i%2], v=W[j/2][j%2]; if( std::abs(a*v-c*w)>1e-6*std::sqrt(norm) ) ok1=false; if( std::abs(a*std::conj(v)-c*std::conj(w))>1e-6*std::sqrt(norm) ) ok2=false; } if( !ok1 && !ok2 ){ std::string s; for(int i=0;i<4;++i) s += " (" + pbt::str(A[i/2][i%2].real()) + "," + pbt::str(A[i/2][i%2].imag()) + ")/(" + pbt::str(W[i/2][i%2].real()) + "," + pbt::str(W[i/2][i%2].imag()) + ")"; g.fail("spin amplitudes are not those of the partial wave:" + s); } } }
  // independent numerical helicity recursion: A_M = sum of coupling x D^J_{M,l1-l2} x daughters, in frames reached by Wick transformations
  struct Frame { Mat vec, bi, inv; };
  Frame identityFrame(){ return {eye(4),eye(4),eye(4)}; }
  P4 operator*(const Mat& m, const P4& p){ P4 r{}; for(int i=0;i<4;++i) for(int j=0;j<4;++j) r[i]+=m(i,j).real()*p[j]; return r; }
  Frame wickFrame(const Frame& f, const P4& lab, bool boosted, int ve){ P4 k=f.vec*lab; double p2=k[0]*k[0]+k[1]*k[1]+k[2]*k[2], t2=k[0]*k[0]+k[1]*k[1]; double c=p2>1e-15?k[2]/std::sqrt(p2):1, cp=t2>1e-15?k[0]/std::sqrt(t2):1, sp=t2>1e-15?k[1]/std::sqrt(t2):0; std::vector<Step> st; if( ve>0 ) st.push_back({false,c,{sp,-cp,0}}); else { st.push_back({false,-c,{-sp,cp,0}}); st.push_back({false,-1,{1,0,0}}); }
    if( boosted ){ double m=std::sqrt(lab[3]*lab[3]-lab[0]*lab[0]-lab[1]*lab[1]-lab[2]*lab[2]); st.push_back({true,std::max(1.,k[3]/m),{0,0,1}}); }
    Frame r=f; for(auto& s : st){ Step i{s.boost,s.arg,{-s.k[0],-s.k[1],-s.k[2]}}; r.vec=ref(s,2)*r.vec; r.bi=r.bi*ref(i,1); r.inv=r.inv*ref(i,2); } return r; } // bi, inv: from the frame back to the laboratory
  struct Helicity { const std::vector<P4>& ev; bool moving, align; std::map<std::string,std::vector<std::array<double,3>>> user;
    P4 mom(const Particle& p) const { if( p.isStable() ) return ev[p.index()]; P4 r{}; for(auto& d : p.daughters()) r=r+mom(*d); return r; }
    C operator()(const Particle& p, const Frame& up, double M, int sgn, bool head) const { auto& pr=*p.props(); double J=pr.twoSpin()/2.; bool light=pr.isPhoton() || pr.isNeutrino(); Frame f = head && !moving ? identityFrame() : wickFrame(up,mom(p),!(p.isStable() && light),sgn);
      if( p.isStable() ){ if( pr.twoSpin()==0 ) return M==0; if( pr.twoSpin()==1 && !align ) return 2*M==p.polState(); insitu::Tens pol(p.externalSpinTensor(p.polState()),insitu::eventMap(ev.size())); std::vector<double> e; for(auto& k : ev) e.insert(e.end(),k.begin(),k.end()); pol.event(e); auto w=pol(); C r=0;
        if( pr.twoSpin()==1 ){ int i=(pr.pdgID()>0?0:2)+(M>0?0:1); for(int a=0;a<4;++a) r+=std::conj(f.bi(a,i))*(a<2?1.:-1.)*w[a]; }
        else { C b[4]={0,0,0,0}; double N=1/std::sqrt(2.); if( M==0 ) b[2]=1; else if( M>0 ){ b[0]=-N; b[1]=C(0,-N); } else { b[0]=N; b[1]=C(0,-N); } for(int a=0;a<4;++a){ C x=0; for(int k=0;k<4;++k) x+=f.inv(a,k)*b[k]; r+=lz::metric(a)*std::conj(x)*w[a]; } } return r; }
      auto& d1=*p.daughter(0); auto& d2=*p.daughter(1); double j1=d1.props()->twoSpin()/2., j2=d2.props()->twoSpin()/2.; double L=p.L(), S=p.S()/2.; if( p.S()==0 ){ S=-1; for(double s=std::abs(j1-j2);s<=j1+j2+0.1;++s) if( s>=std::abs(J-L)-0.1 && s<=J+L+0.1 ){ S=s; break; } }
      P4 k=f.vec*mom(d1); double q2=k[0]*k[0]+k[1]*k[1]+k[2]*k[2], t2=k[0]*k[0]+k[1]*k[1]; double beta=std::acos(q2>1e-15?std::max(-1.,std::min(1.,k[2]/std::sqrt(q2))):1), phi=t2>1e-15?std::atan2(k[1],k[0]):0; std::vector<std::array<double,3>> cs; auto key=p.attribute("helAmp"); if( key!=stdx::nullopt ) cs=user.at(*key); else for(double m1=-j1;m1<=j1+0.1;++m1) for(double m2=-j2;m2<=j2+0.1;++m2) cs.push_back({std::sqrt((2*L+1)/(2*J+1))*refCG(L,0,S,m1-m2,J,m1-m2)*refCG(j1,m1,j2,-m2,S,m1-m2),m1,m2});
      C sum=0; for(auto& c : cs){ double dm=c[1]-c[2]; if( c[0]==0 || std::abs(dm)>J+0.1 ) continue; if( (d1.props()->isPhoton() && c[1]==0) || (d2.props()->isPhoton() && c[2]==0) ) continue; sum += c[0]*refd(J,M,dm,beta)*std::polar(1.,(dm-M)*phi)*(*this)(d1,f,c[1],+1,false)*(*this)(d2,f,c[2],-1,false); } return sum; } };
  struct Chain { const char* d; std::vector<std::string> fs; };
  void fill(pbt::Gen& g, const Particle& p, const P4& mom, double M, std::vector<P4>& ev, int collinear){ if( p.isStable() ){ ev[p.index()]=mom; return; } auto& a=*p.daughter(0); auto& b=*p.daughter(1); std::function<double(const Particle&)> low=[&](const Particle& x){ if( x.isStable() || x.isQuasiStable() ) return x.props()->mass(); double s=0; for(auto& y : x.daughters()) s+=low(*y); return s; }; double la=low(a), lb=low(b), free=M-la-lb; double ma=la, mb=lb; double u=g.uniform(0.05,0.6), v=g.uniform(0.05,0.9); if( !a.isStable() && !a.isQuasiStable() ){ ma+=u*free; free-=u*free; } if( !b.isStable() && !b.isQuasiStable() ) mb+=v*0.6*free; V3 n = collinear ? V3{0,0,g.coin()?1.:-1.} : direction(g); if( collinear==3 ){ double th=g.logreal(2e-5,2e-3), ph=g.uniform(-3.1,3.1); n={std::sin(th)*std::cos(ph),std::sin(th)*std::sin(ph),n[2]*std::cos(th)}; } P4 x,y; two(mom,M,ma,mb,n,x,y); fill(g,a,x,ma,ev,collinear==2?2:0); fill(g,b,y,mb,ev,collinear==2?2:0); }
  void helicity(pbt::Gen& g){ static const std::vector<Chain> chains={
      {"Lambda(c)+{Delta(1232)++{p+,pi+},K-}",{"p+","pi+","K-"}}, {"Lambda(c)+{Lambda(1520)0{p+,K-},pi+}",{"p+","K-","pi+"}}, {"Lambda(c)+{p+,K*(892)bar0{K-,pi+}}",{"p+","K-","pi+"}}, {"Lambda(b)0{J/psi0{mu+,mu-},Lambda0{p+,pi-}}",{"mu+","mu-","p+","pi-"}}, {"B0{J/psi0{mu+,mu-},K*(892)0{K+,pi-}}",{"mu+","mu-","K+","pi-"}}, {"D0{a(1)(1260)+{rho(770)0{pi+,pi-},pi+},pi-}",{"pi+","pi-","pi+","pi-"}}, {"D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}",{"K-","pi+","pi+","pi-"}},
      {"J/psi0{rho(770)0{pi+,pi-},pi0}",{"pi+","pi-","pi0"}}, {"J/psi0{p+,pbar-}",{"p+","pbar-"}}, {"Lambda(b)0{Lambda0{p+,pi-},gamma0}",{"p+","pi-","gamma0"}}, {"Lambda(b)0{Lambda(1520)0{p+,K-},gamma0}",{"p+","K-","gamma0"}}, {"B+{K*(892)+{K+,pi0},gamma0}",{"K+","pi0","gamma0"}}, {"B0{K(2)*(1430)0{K+,pi-},J/psi0{mu+,mu-}}",{"K+","pi-","mu+","mu-"}}, {"Lambda(b)0{p+,pi-}",{"p+","pi-"}}, {"B0{J/psi0,phi(1020)0}",{"J/psi0","phi(1020)0"}}, {"Lambda(b)0{J/psi0,Lambda(1520)0{p+,K-}}",{"J/psi0","p+","K-"}}, {"psi(2S)0{J/psi0{mu+,mu-},f(0)(980)0{pi+,pi-}}",{"mu+","mu-","pi+","pi-"}},{"Lambda(b)0{Lambda(c)+{p+,K*(892)bar0{K-,pi+}},pi-}",{"p+","K-","pi+","pi-"}},{"Lambda(b)0{Lambda(c)(2595)+{Lambda(c)+,pi0},pi-}",{"Lambda(c)+","pi0","pi-"}},{"B0{Lambda(c)bar-{pbar-,K0S0},p+}",{"pbar-","K0S0","p+"}}, {"a(1)(1260)+{rho(770)0{pi+,pi-},pi+}",{"pi+","pi-","pi+"}}, {"K(2)*(1430)0{K*(892)0{K+,pi-},pi0}",{"K+","pi-","pi0"}} };
    auto ch=g.pick(chains); std::string d=ch.d; bool moving=g.chance(1,4), align=!g.chance(1,8), userc=false; bool photon=d.find("gamma")!=std::string::npos; bool weyl = photon || g.coin(); OptionsParser::setArg(std::string("helicityAmplitude::MovingParent ") + (moving?"true":"false")); OptionsParser::setArg(std::string("helicityAmplitude::NoSpinAlign ") + (align?"false":"true")); OptionsParser::setArg("Particle::SpinFormalism Canonical"); OptionsParser::setArg(std::string("Particle::SpinBasis ") + (weyl?"Weyl":"Dirac"));
    size_t cut=d.find('{'); std::string head=d.substr(0,cut), rest=d.substr(cut); std::map<std::string,std::vector<std::array<double,3>>> user; Particle plain(d,ch.fs); if( !plain.isStateGood() ) g.discard(); double J=plain.props()->twoSpin()/2., j1=plain.daughter(0)->props()->twoSpin()/2., j2=plain.daughter(1)->props()->twoSpin()/2.; std::string how="lowest L";
    if( J==0 && j1>0 && j1==j2 && g.chance(1,3) ){ userc=true; std::string key="UserHelicity" + std::to_string(g.draw(4)); std::string line=key; int n=g.range(1,3); for(int i=0;i<n;++i){ double m=-j1+g.draw(int(2*j1)+1), c=g.uniform(-1,1); if( std::abs(c)<0.05 ) c=0.5; c=std::round(c*1e4)/1e4; user[key].push_back({c,m,m}); line += " " + pbt::str(c) + " " + pbt::str(m) + " " + pbt::str(m); } OptionsParser::setArg(line); d=head + "[helAmp=" + key + "]" + rest; how=line; }
    else if( g.chance(2,3) ){ auto w=pg::couplings(pg::db()[head],pg::db()[plain.daughter(0)->name()],pg::db()[plain.daughter(1)->name()],false); if( w.size() ){ auto x=g.pick(w); if( x.first<=5 && x.second<=9 ){ how=std::string("[") + "SPDFGH"[x.first] + (x.second && g.coin()?std::to_string(x.second):"") + "]"; d=head+how+rest; } } }
    Particle p(d,ch.fs); auto fsp=p.getFinalStateParticles(); double low=0; std::function<double(const Particle&)> lw=[&](const Particle& x){ if( x.isStable() || (x.isQuasiStable() && !x.isHead()) ) return x.props()->mass(); double s=0; for(auto& y : x.daughters()) s+=lw(*y); return s; }; low=lw(p); double M=low+g.uniform(0.2,1.5); P4 top{0,0,0,M}; if( moving ){ V3 n=direction(g); double b=g.uniform(0.1,2); top={b*n[0],b*n[1],b*n[2],std::sqrt(b*b+M*M)}; } int collinear = moving ? 0 : g.weighted({8,1,1,2}); std::vector<P4> ev(fsp.size()); fill(g,p,top,M,ev,collinear);
    double Mz=-J+g.draw(int(2*J)+1); std::vector<int> pol={J==std::floor(J)?int(Mz):int(2*Mz)}; std::string ps; for(auto& x : fsp){ int t=x->props()->twoSpin(); pol.push_back( t==0?0: t==1?(g.coin()?1:-1) : x->props()->isPhoton() ? (g.coin()?1:-1) : g.range(-1,1) ); ps+=" "+std::to_string(pol.back()); } p.setPolarisationState(pol);
    g.desc(d + " " + how + " M=" + pbt::str(M) + " Jz=" + n2(Mz) + " pol" + ps + (moving?" moving":"") + (align?"":" no spin alignment") + (collinear==3?" nearly collinear":collinear?" collinear":"") + (weyl?" Weyl":" Dirac")); if( J>0 || j1+j2>0 ) g.nontrivial(); if( userc ) g.label("user helicity couplings"); if( collinear ) g.label(collinear==3?"momenta close to z":"momenta along z"); if( moving ) g.label("moving parent"); if( !align ) g.label("no spin alignment");
    C got=amp(p,Mz,ev), want=Helicity{ev,moving,align,user}(p,identityFrame(),Mz,+1,true); if( !(std::abs(got-want)<=2e-6*(1+std::abs(want))) ) g.fail("spin amplitude is " + pbt::str(got.real()) + "+" + pbt::str(got.imag()) + "i, expected " + pbt::str(want.real()) + "+" + pbt::str(want.imag()) + "i");
    OptionsParser::setArg("helicityAmplitude::NoSpinAlign false"); OptionsParser::setArg("helicityAmplitude::MovingParent false"); }
  void hyperbolic(pbt::Gen& g){ double x=g.uniform(-4,4), y=1+g.uniform(0,20), z=g.uniform(-0.99,0.99); g.desc(pbt::str(x) + " " + pbt::str(y) + " " + pbt::str(z)); g.nontrivial(); Expression X(x), Y(y), Z(z); g.close("cosh",AmpGen::cosh(X)().real(),std::cosh(x),1e-11,1e-12); g.close("sinh",AmpGen::sinh(X)().real(),std::sinh(x),1e-11,1e-12); g.close("tanh",AmpGen::tanh(X)().real(),std::tanh(x),1e-11,1e-12); g.close("asinh",AmpGen::asinh(X)().real(),std::asinh(x),1e-9,1e-12); g.close("acosh",AmpGen::acosh(Y)().real(),std::acosh(y),1e-9,1e-7); g.close("atanh",AmpGen::atanh(Z)().real(),std::atanh(z),1e-11,1e-12); }
}
int main(int argc, char** argv){
  pbt::Check c("P11","spin at least one and a general angle, a coupling of two non-zero spins that does not vanish, a sequence of at least two transformations, a partial wave with spin");
  c.assume("spins up to 6 (Wigner functions) and 4 (coupling coefficients)");
  c.prop("wigner", 6000, 100000, insitu::debugged(wigner)); c.prop("clebsch", 20000, 300000, insitu::debugged(clebsch)); c.prop("recoupling", 4000, 50000, insitu::debugged(recoupling)); c.prop("transforms", 3000, 50000, insitu::debugged(transforms)); c.prop("wick", 3000, 50000, insitu::debugged(wick)); c.prop("canonical", 1500, 20000, insitu::debugged(canonical)); c.prop("helicity", 700, 20000, insitu::debugged(helicity));
  c.prop("hyperbolic", 500, 5000, insitu::debugged(hyperbolic));
  return c.main(argc,argv);
}
