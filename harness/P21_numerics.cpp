#include <functional>
// P21: numerical helpers and small containers.
#include "pbt.h"
#include "AmpGen/NumericalIntegration.h"
#include "AmpGen/Pade.h"
#include "AmpGen/KahanSum.h"
#include "AmpGen/SmallVector.h"
#include "AmpGen/DynamicContainer.h"
#include "AmpGen/KeyedFunctors.h"
#include "AmpGen/ArgumentPack.h"
#include "AmpGen/Units.h"
#include "AmpGen/enum.h"
#include <gsl/gsl_errno.h>
#include <numeric>
using namespace AmpGen;
namespace {
  void near(pbt::Gen& g, const std::string& what, double got, double want, double tol){ g.requirel(std::fabs(got-want)<=tol,[&]{ return what + " is " + pbt::str(got) + ", expected " + pbt::str(want); }); g.evals(1); }
  // one-dimensional integrals
  void one(pbt::Gen& g){ int n=g.range(0,6); std::vector<double> c(n+1); std::string d; for(auto& x : c){ x=g.real(-3,3); d+=pbt::str(x)+" "; } double a=g.real(-3,3), b=a+g.real(0.1,4); bool flip=g.chance(1,5); if( flip ) std::swap(a,b); double w=g.coin()?g.real(0.5,6):0; g.desc("polynomial "+d+"+sin("+pbt::str(w)+"x) from "+pbt::str(a)+" to "+pbt::str(b)); g.nontrivial();
    auto f=[&](const double& x){ double s=0, p=1; for(double k : c){ s+=k*p; p*=x; } return s+std::sin(w*x); }; auto F=[&](double x){ double s=0, p=x; for(size_t k=0;k<c.size();++k){ s+=c[k]*p/(k+1); p*=x; } return s-(w?std::cos(w*x)/w:0); }; double want=F(b)-F(a), scale=0; for(int i=0;i<=20;++i) scale=std::max(scale,std::fabs(f(a+(b-a)*i/20.))); scale*=std::fabs(b-a); double tol=1e-8*(scale+1); near(g,"integral",integrate_1d(f,a,b),want,tol); gsl_integration_workspace* ws=gsl_integration_workspace_alloc(1000); near(g,"integral with a workspace",integrate_1d(f,a,b,ws),want,tol); near(g,"integral with a used workspace",integrate_1d(f,a,b,ws),want,tol); gsl_integration_workspace_free(ws); near(g,"one-dimensional box",integrate<1>(f,std::array<double,1>{a},std::array<double,1>{b}),want,tol); auto fa=[&](const std::array<double,1>& x){ return f(x[0]); }; near(g,"integral of a function of an array",integrate<1>(fa,std::array<double,1>{a},std::array<double,1>{b}),want,tol); }
  void infinite(pbt::Gen& g){ double m=g.real(-2,2), s=g.real(0.3,2), a=g.real(0.2,3); g.desc("gaussian "+pbt::str(m)+" "+pbt::str(s)); g.nontrivial(); near(g,"integral over all numbers",integrate_1d_inf([&](const double& x){ return a*std::exp(-0.5*(x-m)*(x-m)/(s*s)); }),a*s*std::sqrt(2*M_PI),5e-3*a*s); double w=g.real(0.3,2); near(g,"integral over all numbers",integrate_1d_inf([&](const double& x){ return w/(w*w+(x-m)*(x-m)); }),M_PI,1e-2);
    // principal values of polynomials
    double lo=g.real(-3,0), hi=g.real(1,4), x0=lo+(hi-lo)*g.real(0.1,0.9), c0=g.real(-2,2), c1=g.real(-2,2), c2=g.real(-2,2); auto f=[&](const double& x){ return c0+c1*x+c2*x*x; }; double want=f(x0)*std::log((hi-x0)/(x0-lo))+(c1+c2*x0)*(hi-lo)+c2*0.5*(hi*hi-lo*lo); near(g,"principal value",integrate_1d_cauchy(f,x0,lo,hi),want,1e-6*(1+std::fabs(want)+20)); }
  template <unsigned D> void box(pbt::Gen& g){ // polynomials and plane waves in D dimensions
    struct Term { double c; std::array<int,D> p; }; int n=g.range(1,4); std::vector<Term> ts; std::string d; for(int i=0;i<n;++i){ Term t; t.c=g.real(-2,2); int left=7; for(auto& p : t.p){ p=g.range(0,std::min(left,4)); left-=p; } ts.push_back(t); d+=pbt::str(t.c)+"*"; for(int p : t.p) d+=std::to_string(p); d+=" "; } std::array<double,D> a, b; for(unsigned i=0;i<D;++i){ a[i]=g.real(-2,1); b[i]=a[i]+g.real(0.2,2); d+="["+pbt::str(a[i])+","+pbt::str(b[i])+"]"; } std::array<double,D> k; bool wave=g.coin(); for(auto& x : k) x=wave?g.real(0.2,2):0; g.desc(d+(wave?" wave":"")); g.nontrivial(); g.label(wave?"wave":"polynomial");
    auto poly=[&](auto z){ typedef std::decay_t<decltype(z[0])> T; T s(0.); for(auto& t : ts){ T q(t.c); for(unsigned i=0;i<D;++i) for(int j=0;j<t.p[i];++j) q=q*z[i]; s=s+q; } if( wave ){ T ph(0.); for(unsigned i=0;i<D;++i) ph=ph+k[i]*z[i]; s=s+cos(ph); } return s; };
    double want=0, scale=1; for(auto& t : ts){ double q=t.c; for(unsigned i=0;i<D;++i) q*=(std::pow(b[i],t.p[i]+1)-std::pow(a[i],t.p[i]+1))/(t.p[i]+1); want+=q; double m=std::fabs(t.c); for(unsigned i=0;i<D;++i) m*=std::pow(std::max(std::fabs(a[i]),std::fabs(b[i])),t.p[i])*(b[i]-a[i]); scale+=m; } if( wave ){ std::complex<double> q=1; for(unsigned i=0;i<D;++i) q*=(std::exp(std::complex<double>(0,k[i]*b[i]))-std::exp(std::complex<double>(0,k[i]*a[i])))/std::complex<double>(0,k[i]); want+=q.real(); }
    std::array<double,D> ctr, wth; for(unsigned i=0;i<D;++i){ ctr[i]=0.5*(a[i]+b[i]); wth[i]=0.5*(b[i]-a[i]); } auto fs=[&](const std::array<double,D>& z){ return poly(z); }; auto fv=[&](const std::array<real_v,D>& z){ return poly(z); }; auto [sv,se,si]=integrate_fp_scalar<D>(fs,ctr,wth); auto [vv,ve,vi]=integrate_fp<D>(fv,ctr,wth); near(g,"vectorised rule",vv,sv,1e-11*scale*10); near(g,"error of the vectorised rule",ve,se,1e-11*scale*10); if( se>1e-6*scale ) g.require(si<D && vi<D,"axis to divide"); if( !wave ) near(g,"cubature rule of degree seven",sv,want,1e-11*scale*10); else if( D==2 ) near(g,"cubature rule",sv,want,se*3+1e-3*scale);
    if( D==2 || (D==3 && !wave) ) near(g,"adaptive integral",integrate<D>(fv,a,b),want,2e-9*scale); }
  // peaked integrands need the division of the region
  void peak(pbt::Gen& g){ std::array<double,2> a, b, m, w; std::string d; for(int i=0;i<2;++i){ a[i]=g.real(-2,1); b[i]=a[i]+g.real(0.5,2); m[i]=a[i]+(b[i]-a[i])*g.real(0,1); w[i]=g.logreal(0.02,1); d+=pbt::str(m[i])+" width "+pbt::str(w[i])+"; "; } g.desc(d); g.nontrivial(); auto f=[&](const std::array<real_v,2>& z){ real_v r(1.); for(int i=0;i<2;++i) r=r*(w[i]/((z[i]-m[i])*(z[i]-m[i])+w[i]*w[i])); return r; }; double want=1; for(int i=0;i<2;++i) want*=std::atan((b[i]-m[i])/w[i])-std::atan((a[i]-m[i])/w[i]); near(g,"integral of a peak",integrate<2>(f,a,b),want,1e-5*want); }
  // rational functions are reproduced by Pade approximants
  template <unsigned N> void padeN(pbt::Gen& g){ std::array<double,N+1> p; std::array<double,N> q; for(auto& x : p) x=g.real(0.2,3); for(auto& x : q) x=g.real(0.1,2)/N; double lo=g.real(-3,3), hi=lo+g.real(0.2,5); auto f=[=](const double& s){ double x=(s-lo)/(hi-lo), a=0, b=1, acc=1; for(unsigned i=0;i<=N;++i){ a+=p[i]*acc; acc*=x; } acc=x; for(unsigned i=0;i<N;++i){ b+=q[i]*acc; acc*=x; } return a/b; }; std::vector<double> r; for(auto x : p) r.push_back(x); for(auto x : q) r.push_back(x); Pade<N> direct(r,lo,hi); Strategy st=g.pick<Strategy>({linear,quadratic,cubic}); { std::string d; for(auto x : p) d+=pbt::str(x)+" "; d+="/ "; for(auto x : q) d+=pbt::str(x)+" "; g.desc("order "+std::to_string(N)+" strategy "+std::to_string(int(st))+": "+d); } g.nontrivial(); Pade<N> fit(f,lo,hi,st), shaken([&](const double& s){ return f(s)*(1+1e-9*std::sin(57*(s-lo)/(hi-lo)+1)); },lo,hi,st); for(int i=0;i<8;++i){ double s=g.real(lo,hi); near(g,"approximant of given coefficients",direct(s),f(s),1e-12*f(s)); if( (N<4 || st==linear) && std::fabs(fit(s)-shaken(s))<1e-4*f(s) ) near(g,"approximant of a rational function",fit(s),f(s),(N<3?1e-6:1e-3)*f(s)); } auto ex=[&](const double& s){ return std::exp(s-lo)*std::cos(0.3*(s-lo)); }; double h2=lo+1; Pade<N> fe([&](const double& s){ return ex(s); },lo,h2,st); if( N<3 || st==linear ) for(unsigned i=0;i<2*N+1;++i){ double s=lo+std::pow(i/double(2*N),int(st)+1)*(h2-lo); near(g,"approximant at sampled point "+std::to_string(i),fe(s),ex(s),N<3?1e-6:1e-3); } }
  void pade(pbt::Gen& g){ switch( g.range(1,4) ){ case 1: padeN<1>(g); break; case 2: padeN<2>(g); break; case 3: padeN<3>(g); break; default: padeN<4>(g); } }
  // compensated sums
  // second-order compensation: large numbers that cancel exactly, in any order, among small ones
  void klein(pbt::Gen& g){ int n=g.range(1,25), m=g.range(1,8); double top=g.logreal(1e18,1e30); std::vector<double> x; __float128 exact=0; double mag=0; for(int i=0;i<n;++i){ double v=g.logreal(1e5,top); x.push_back(v); x.push_back(-v); } for(int i=0;i<m;++i){ double v=g.logreal(1e-3,1e3)*(g.coin()?1:-1); x.push_back(v); exact+=v; } g.shuffle(x); for(double v : x) mag+=std::fabs(v); double N=x.size(), w=double(exact); g.desc(std::to_string(2*n)+" cancelling numbers below "+pbt::str(top)+" and "+std::to_string(m)+" small ones"); g.nontrivial(); near(g,"second-order compensated sum",KahanBabushkaKleinSum(x),w,2e-15*std::fabs(w)+2e-47*N*N*N*mag); }
  void sums(pbt::Gen& g){ int n=g.range(0,300); std::vector<double> x(n); __float128 exact=0; double mag=0; for(auto& v : x){ v=g.logreal(1e-10,1e12)*(g.coin()?1:-1); } if( n>4 && g.coin() ) for(int i=0;i<n/2;++i) x[n-1-i]=-x[i]; if( g.coin() ) g.shuffle(x); for(double v : x){ exact+=v; mag+=std::fabs(v); } g.desc(std::to_string(n)+" numbers"); if( n>2 ) g.nontrivial(); double w=double(exact), tol=5e-16*std::fabs(w)+1e-30*mag*n*n; KahanSum<double> k; for(double v : x) k+=v; near(g,"compensated sum",k(),w,tol); near(g,"accumulated compensated sum",std::accumulate(x.begin(),x.end(),KahanSum<double>(),[](const KahanSum<double>& s, const double& v){ return s+v; })(),w,tol); near(g,"second-order compensated sum",KahanBabushkaKleinSum(x),w,tol); KahanSum<float> kf; double mf=0; __float128 ef=0; for(double v : x){ float f=v; kf+=f; mf+=std::fabs(double(f)); ef+=f; } near(g,"single precision sum",kf(),double(ef),3e-7*std::fabs(double(ef))+1e-13*mf*(n+1)); }
  // fixed capacity vector
  void small(pbt::Gen& g){ typedef SmallVector<unsigned,8> V; V v; std::vector<unsigned> m; std::string d; int n=g.range(1,10); for(int i=0;i<n;++i){ if( g.coin() && m.size()<8 ){ unsigned x=g.range(0,3); v.push_back(x); m.push_back(x); d+="push "+std::to_string(x)+" "; } else { std::vector<unsigned> o(g.range(0,3)); for(auto& x : o) x=g.range(0,3); if( m.size()+o.size()>8 ) continue; v.insert(v.end(),o.begin(),o.end()); m.insert(m.end(),o.begin(),o.end()); d+="append "+std::to_string(o.size())+" "; } } g.desc(d); if( m.size()>1 ) g.nontrivial(); g.require(v.size==m.size() && size_t(v.end()-v.begin())==m.size() && std::equal(m.begin(),m.end(),v.begin()),"contents"); for(size_t i=0;i<m.size();++i){ g.require(v[i]==m[i],"element"); } V w; for(auto x : m) w.push_back(x); g.require(w==v,"equal contents compare equal"); if( m.size() ){ size_t i=g.draw(m.size()); V u=w; u[i]+=1; g.require(!(u==v) && w==v,"different contents compare unequal"); V s; for(size_t k=0;k+1<m.size();++k) s.push_back(m[k]); g.require(!(s==v),"vectors of different size compare unequal"); } V il{3,1,2}; g.require(il.size==3 && il[0]==3 && il[2]==2,"initialiser list"); g.evals(1); }
  void containers(pbt::Gen& g){ size_t block=g.range(1,7), total=g.range(1,40); int calls=0; double next=0; DynamicContainer<double> c(total,[&](std::vector<double>& b){ ++calls; for(size_t i=0;i<block;++i) b.push_back(next++); }); g.desc(std::to_string(total)+" in blocks of "+std::to_string(block)); if( total>block ) g.nontrivial(); std::vector<double> seen; g.require(c.size()==total,"size"); for(auto it=c.begin();it!=c.end();++it){ seen.push_back(*it); g.require(*it.operator->()==*it,"element access"); } g.require(seen.size()==total,"number of elements"); for(size_t i=0;i<total;++i) near(g,"element "+std::to_string(i)+" of a dynamic container",seen[i],double(i),0); g.require(calls==int((total+block-1)/block),"the buffer is refreshed only when it is used up");
    { int calls2=0; double n2=0; DynamicContainer<double> d(total,[&](std::vector<double>& b){ ++calls2; for(size_t i=0;i<block;++i) b.push_back(n2++); }); std::function<void(const DynamicContainer<double>::Iterator&,size_t)> walk=[&](const DynamicContainer<double>::Iterator& it, size_t i){ if( !(it!=d.end()) ){ g.require(i==total,"number of elements of a walk over constant iterators"); return; } g.require(i<total,"the walk over constant iterators ends"); near(g,"element "+std::to_string(i)+" of a dynamic container, through constant iterators",*it,double(i),0); walk(++it,i+1); }; walk(d.begin(),0); g.require(calls2==int((total+block-1)/block),"constant iterators refresh the buffer only when it is used up"); }
    KeyedFunctors<double(double,int)> kf; int n=g.range(0,5); for(int i=0;i<n;++i) kf.add([i](double x, int y){ return x*i+y; },"k"+std::to_string(i),"t"+std::to_string(i)); auto r=kf(2.5,7); g.require(int(r.size())==n && int(kf.keys.size())==n,"number of functors"); for(int i=0;i<n;++i){ near(g,"functor",r[i],2.5*i+7,1e-12); g.require(kf.keys[i]=="k"+std::to_string(i) && kf.titles[i]=="t"+std::to_string(i),"key"); } }
  void units(pbt::Gen& g){ struct U { Units u; const char* n; double v; }; static const U us[]={{Units::TeV,"TeV",1e3},{Units::GeV,"GeV",1},{Units::MeV,"MeV",1e-3},{Units::KeV,"KeV",1e-6},{Units::eV,"eV",1e-9},{Units::ms,"ms",1e6},{Units::us,"us",1e3},{Units::ns,"ns",1},{Units::ps,"ps",1e-3},{Units::fs,"fs",1e-6}}; auto& u=us[g.draw(10)]; g.desc(u.n); g.nontrivial(); near(g,std::string("unit ")+u.n,to_double(u.u),u.v,1e-12*u.v); g.require(parse<Units>(u.n)==u.u,"parsed unit"); near(g,"micrometre",AmpGen::um/AmpGen::mm,1e-3,1e-15); near(g,"nanometre",AmpGen::nm/AmpGen::um,1e-3,1e-15); near(g,"energies",(TeV/GeV)*(MeV/GeV),1,1e-12); near(g,"times",(AmpGen::ms/AmpGen::us)*(AmpGen::ps/AmpGen::ns),1,1e-12); g.require(to_string(u.u)==u.n,"name of a unit"); }
  DECLARE_ARGUMENT(ArgA,int); DECLARE_ARGUMENT(ArgB,double); DECLARE_ARGUMENT(ArgC,std::string); DECLARE_ARGUMENT(ArgD,int);
  void arguments(pbt::Gen& g){ int a=g.range(-9,9), d=g.range(-9,9); double b=g.real(-3,3); std::string s="s"+std::to_string(g.range(0,99)); int m=g.range(0,5); g.desc("combination "+std::to_string(m)); g.nontrivial(); auto test=[&](const ArgumentPack& p, bool A, bool B, bool Cc, bool D){ g.require((p.get<ArgA>()!=nullptr)==A && (p.get<ArgB>()!=nullptr)==B && (p.get<ArgC>()!=nullptr)==Cc && (p.get<ArgD>()!=nullptr)==D,"arguments present"); g.require(p.getArg<ArgA>(42).val==(A?a:42),"first argument"); near(g,"second argument",p.getArg<ArgB>(1.5),B?b:1.5,0); g.require(p.getArg<ArgC>(std::string("def")).val==(Cc?s:"def"),"third argument"); g.require(int(p.getArg<ArgD>())==(D?d:0),"argument without a default"); }; switch( m ){ case 0: test(ArgumentPack(),0,0,0,0); break; case 1: test(ArgumentPack(ArgA(a)),1,0,0,0); break; case 2: test(ArgumentPack(ArgD(d),ArgA(a)),1,0,0,1); break; case 3: test(ArgumentPack(ArgC(s),ArgB(b)),0,1,1,0); break; case 4: test(ArgumentPack(ArgB(b),ArgD(d),ArgC(s),ArgA(a)),1,1,1,1); break; default: test(ArgumentPack(ArgD(d)),0,0,0,1); } }
}
int main(int argc, char** argv){ gsl_set_error_handler_off();
  pbt::Check c("P21","integrals, approximants, packs: all cases; containers with more than one element or block"); c.scale(20);
  c.prop("one", 4000, 50000, one); c.prop("infinite", 800, 10000, infinite); c.prop("box2", 1500, 20000, box<2>); c.prop("box3", 1500, 20000, box<3>); c.prop("box4", 800, 10000, box<4>); c.prop("box5", 400, 5000, box<5>); c.prop("box6", 200, 3000, box<6>); c.prop("peak", 300, 5000, peak); c.prop("pade", 6000, 60000, pade); c.prop("klein", 20000, 1000000, klein); c.prop("sums", 6000, 60000, sums); c.prop("small", 20000, 200000, small); c.prop("containers", 10000, 100000, containers); c.prop("arguments", 2000, 20000, arguments);
  c.prop("units", 200, 2000, units);
  return c.main(argc,argv);
}
