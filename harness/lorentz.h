// Plain numerical Lorentz tensors, Dirac matrices and Lorentz transformations, written from the
// definitions (order x,y,z,t; metric -,-,-,+; Dirac representation). Independent of the library.
#ifndef VERIF_LORENTZ_H
#define VERIF_LORENTZ_H 1
#include "pbt.h"
#include <array>
namespace lz {
  typedef std::complex<double> C;
  const C I(0,1);
  inline double metric(int i){ return i==3 ? 1 : -1; }
  struct T { int rank=0; std::vector<C> v; T() : v(1) {} explicit T(int r) : rank(r), v(1u<<(2*r)) {} T(const C& c) : v(1,c) {}
    C& operator()(int a){ return v[a]; } const C& operator()(int a) const { return v[a]; }
    C& operator()(int a,int b){ return v[4*a+b]; } const C& operator()(int a,int b) const { return v[4*a+b]; }
    C& operator()(int a,int b,int c){ return v[16*a+4*b+c]; } const C& operator()(int a,int b,int c) const { return v[16*a+4*b+c]; }
    double norm() const { double s=0; for(auto& x : v) s=std::max(s,std::abs(x)); return s; } };
  inline T operator+(T a, const T& b){ for(size_t i=0;i<a.v.size();++i) a.v[i]+=b.v[i]; return a; }
  inline T operator-(T a, const T& b){ for(size_t i=0;i<a.v.size();++i) a.v[i]-=b.v[i]; return a; }
  inline T operator*(T a, C s){ for(auto& x : a.v) x*=s; return a; }
  inline T operator*(C s, T a){ return a*s; }
  inline T operator*(double s, T a){ return a*C(s); }
  inline T conj(T a){ for(auto& x : a.v) x=std::conj(x); return a; }
  // contraction of two tensors: letters m..z are Lorentz indices (summed with the metric), a..l are
  // spinor indices (plain sum); everything is stored with upper indices
  inline T ein2(const std::string& sa, const T& A, const std::string& sb, const T& B, const std::string& out){
    std::string all; for(char c : sa+sb) if( all.find(c)==std::string::npos ) all+=c; size_t n=all.size(); T r((int)out.size()); std::array<int,16> ix{};
    std::vector<int> pa,pb,po; for(char c : sa) pa.push_back(all.find(c)); for(char c : sb) pb.push_back(all.find(c)); for(char c : out) po.push_back(all.find(c)); std::vector<bool> summed(n); for(size_t k=0;k<n;++k) summed[k] = out.find(all[k])==std::string::npos && all[k]>='m';
    size_t tot = size_t(1)<<(2*n); for(size_t w=0;w<tot;++w){ for(size_t k=0;k<n;++k) ix[k]=(w>>(2*k))&3; size_t ia=0, ib=0, io=0; for(int p : pa) ia=4*ia+ix[p]; if( A.v[ia]==C(0) ) continue; for(int p : pb) ib=4*ib+ix[p]; if( B.v[ib]==C(0) ) continue; for(int p : po) io=4*io+ix[p]; double g=1; for(size_t k=0;k<n;++k) if( summed[k] ) g*=metric(ix[k]); r.v[io] += g*A.v[ia]*B.v[ib]; }
    return r; }
  // "mn,n,a->ma" evaluated left to right
  inline T ein(const std::string& spec, const std::vector<T>& ts){
    std::vector<std::string> in; std::string out, cur; size_t arrow=spec.find("->"); out=spec.substr(arrow+2); for(char c : spec.substr(0,arrow)){ if( c==',' ){ in.push_back(cur); cur.clear(); } else cur+=c; } in.push_back(cur);
    T acc=ts[0]; std::string sa=in[0]; if( ts.size()==1 ) return ein2(sa,acc,"",T(C(1)),out);
    for(size_t k=1;k<ts.size();++k){ std::string later=out; for(size_t j=k+1;j<ts.size();++j) later+=in[j]; std::string keep; for(char c : sa+in[k]) if( later.find(c)!=std::string::npos && keep.find(c)==std::string::npos ) keep+=c; if( k+1==ts.size() ) keep=out; acc=ein2(sa,acc,in[k],ts[k],keep); sa=keep; }
    return acc; }
  inline T dot(const T& a, const T& b){ T r; for(int i=0;i<4;++i) r.v[0]+=metric(i)*a(i)*b(i); return r; }
  inline C d(const T& a, const T& b){ return dot(a,b).v[0]; }
  inline T g(){ T r(2); for(int i=0;i<4;++i) r(i,i)=metric(i); return r; }
  inline T eps(){ T r(4); int p[4]={0,1,2,3}; do { int s=1; for(int i=0;i<4;++i) for(int j=i+1;j<4;++j) if( p[i]>p[j] ) s=-s; r.v[64*p[0]+16*p[1]+4*p[2]+p[3]]=s; } while( std::next_permutation(p,p+4) ); return r; }
  // Dirac representation: gamma(mu,a,b)
  inline T gamma(){ static T G=[]{ T r(3); C s[3][2][2]={{{0,1},{1,0}},{{0,-I},{I,0}},{{1,0},{0,-1}}}; for(int k=0;k<3;++k) for(int i=0;i<2;++i) for(int j=0;j<2;++j){ r(k,i,j+2)=s[k][i][j]; r(k,i+2,j)=-s[k][i][j]; } for(int i=0;i<4;++i) r(3,i,i)= i<2?1:-1; return r; }(); return G; }
  inline T gamma5(){ T r(2); for(int i=0;i<4;++i) r(i,(i+2)%4)=1; return r; }
  inline T one(){ T r(2); for(int i=0;i<4;++i) r(i,i)=1; return r; }
  inline T slash(const T& p){ return ein("mab,m->ab",{gamma(),p}); }
  inline T bar(const T& u){ T r(1); for(int i=0;i<4;++i) r(i)=std::conj(u(i))*(i<2?1.:-1.); return r; }
  inline T mul(const T& a, const T& b){ return b.rank==1 ? ein("ab,b->a",{a,b}) : ein("ab,bc->ac",{a,b}); }
  inline T S1(const T& P){ return g() - ein("m,n->mn",{P,P})*(1./d(P,P)); }
  inline T L1(const T& P, const T& Q){ return Q - P*(d(P,Q)/d(P,P)); }
  inline T L2(const T& P, const T& Q){ T L=L1(P,Q); return ein("m,n->mn",{L,L}) - S1(P)*(d(L,L)/3.); }
  inline T S2(const T& P){ T S=S1(P); return ein("mr,ns->mnrs",{S,S})*0.5 + ein("ms,nr->mnrs",{S,S})*0.5 - ein("mn,rs->mnrs",{S,S})*(1./3.); }
  inline T Sh(const T& P, int sign){ return (one() + slash(P)*(C(sign)/std::sqrt(d(P,P))))*0.5; }
  inline T gt(const T& P){ T G=gamma(); return G - ein("m,ab->mab",{P,slash(P)})*(1./d(P,P)); }
  inline T S3h(const T& P, int sign){ T F=Sh(P,sign), t=gt(P); return ein("mn,ab->mnab",{S1(P),F})*(-1.) + ein("ac,mcd,ndb->mnab",{F,t,t})*(1./3.); }
  // proper orthochronous Lorentz transformation and its spinor representation
  struct Lambda { T vec{2}, spin{2}, spinInv{2}; };
  inline Lambda compose(const Lambda& a, const Lambda& b){ Lambda r; r.vec=T(2); for(int i=0;i<4;++i) for(int j=0;j<4;++j) for(int k=0;k<4;++k) r.vec(i,j)+=a.vec(i,k)*b.vec(k,j); r.spin=mul(a.spin,b.spin); r.spinInv=mul(b.spinInv,a.spinInv); return r; }
  // product of two reflections (both in space-like or both in time-like vectors)
  inline Lambda twoReflections(const T& a, const T& b){ auto ref=[](const T& n){ T r(2); C n2=d(n,n); for(int i=0;i<4;++i) for(int j=0;j<4;++j) r(i,j) = (i==j?1.:0.) - 2.*n(i)*n(j)*metric(j)/n2; return r; }; Lambda l; l.vec=T(2); T A=ref(a), B=ref(b); for(int i=0;i<4;++i) for(int j=0;j<4;++j) for(int k=0;k<4;++k) l.vec(i,j)+=B(i,k)*A(k,j); double n=std::sqrt(std::abs(d(a,a)*d(b,b))); l.spin=mul(slash(b),slash(a))*(1./n); l.spinInv=mul(slash(a),slash(b))*(1./n); C s = d(a,a).real()>0 ? 1. : 1.; (void)s; return l; }
  inline T vec(const std::array<double,4>& x){ T r(1); for(int i=0;i<4;++i) r(i)=x[i]; return r; }
  inline Lambda rotation(pbt::Gen& g){ auto u=[&]{ for(;;){ T r(1); double n=0; for(int i=0;i<3;++i){ double x=g.uniform(-1,1); r(i)=x; n+=x*x; } if( n>0.05 ) return r; } }; return twoReflections(u(),u()); }
  inline Lambda boost(pbt::Gen& g, double maxBeta=0.8){ T t(1); t(3)=1; T b(1); double n=0; for(int i=0;i<3;++i){ double x=g.uniform(-1,1); b(i)=x; n+=x*x; } n=std::sqrt(n)+1e-9; double e=std::sinh(g.uniform(0,std::atanh(maxBeta))/2); for(int i=0;i<3;++i) b(i)*=e/n; b(3)=std::sqrt(1+e*e); return twoReflections(t,b); }
  inline Lambda lorentz(pbt::Gen& g){ return compose(boost(g),rotation(g)); }
  inline T apply(const Lambda& l, const T& v){ T r(1); for(int i=0;i<4;++i) for(int j=0;j<4;++j) r(i)+=l.vec(i,j)*v(j); return r; }
  // one transformation per index: 'v' vector, 's' spinor
  inline T transform(const Lambda& l, const T& t, const std::string& kinds){ T r=t; for(size_t k=0;k<kinds.size();++k){ T n(r.rank); const T& M = kinds[k]=='v' ? l.vec : l.spin; size_t stride=1; for(int j=r.rank-1;j>(int)k;--j) stride*=4; for(size_t w=0;w<r.v.size();++w){ int ik=(w/stride)%4; size_t base=w-ik*stride; for(int j=0;j<4;++j) n.v[w]+=M(ik,j)*r.v[base+j*stride]; } r=n; } return r; }
  inline T real4(pbt::Gen& g, double s=1){ T r(1); for(int i=0;i<4;++i) r(i)=g.uniform(-s,s); return r; }
  inline T cpx(pbt::Gen& g, int rank){ T r(rank); for(auto& x : r.v) x=C(g.uniform(-1,1),g.uniform(-1,1)); return r; }
  inline T timelike(pbt::Gen& g){ T r(1); double p2=0; double s=g.pick({0.3,1.0,3.0}); for(int i=0;i<3;++i){ double x=g.chance(1,10)?0:g.uniform(-s,s); r(i)=x; p2+=x*x; } double m=g.uniform(0.4,2.5); r(3)=std::sqrt(p2+m*m); return r; }
}
#endif
