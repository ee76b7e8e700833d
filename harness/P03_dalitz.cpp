// P03: Dalitz-plot integrals, adaptive binnings, chi2 and three-body widths.
// HARNESS_NEEDS_ROOT_PART
#include "pbt.h"
#include "AmpGen/DalitzIntegrator.h"
#include "AmpGen/BinDT.h"
#include "AmpGen/FastDT.h"
#include "AmpGen/Chi2Estimator.h"
#include "AmpGen/ThreeBodyCalculators.h"
#include "AmpGen/Projection.h"
#include "AmpGen/EventListSIMD.h"
#include "AmpGen/EventType.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/Particle.h"
#include "AmpGen/CompiledExpression.h"
#include "TGraph.h"
#include <fstream>
#include <sstream>
#include <set>
using namespace AmpGen;
typedef std::complex<double> C;
namespace {
  double lane(const real_v& x, unsigned i){ double b[utils::size<real_v>::value]; for(unsigned k=0;k<utils::size<real_v>::value;++k) b[k]=utils::at(x,k); return b[i]; }
  struct Mass { double s0, s1, s2, s3; double sum() const { return std::sqrt(s1)+std::sqrt(s2)+std::sqrt(s3); } };
  Mass masses(pbt::Gen& g){ Mass m; auto one=[&]{ double x = g.weighted({1,3}) ? g.real(0.05,1.2) : 0.; return x*x; }; m.s1=one(); m.s2=g.chance(1,4)?m.s1:one(); m.s3=g.chance(1,4)?m.s1:one(); double M=m.sum()+g.logreal(0.02,4); m.s0=M*M; g.desc("m0^2="+pbt::str(m.s0)+" m1^2="+pbt::str(m.s1)+" m2^2="+pbt::str(m.s2)+" m3^2="+pbt::str(m.s3)+"; "); return m; }
  double inv(const double* p, std::initializer_list<int> k, double* scale=nullptr){ double q[4]={0,0,0,0}; for(int i : k) for(int j=0;j<4;++j) q[j]+=p[4*i+j]; if( scale ) *scale=q[3]*q[3]+1e-3; return q[3]*q[3]-q[0]*q[0]-q[1]*q[1]-q[2]*q[2]; }
  // nodes and weights of Gauss-Legendre
  const std::vector<std::pair<double,double>>& legendre(){ static std::vector<std::pair<double,double>> r; if( r.empty() ){ int n=160; for(int i=0;i<n;++i){ double x=std::cos(M_PI*(i+0.75)/(n+0.5)), d=1; for(int k=0;k<50;++k){ double a=1,b=x; for(int j=2;j<=n;++j){ double c=((2*j-1)*x*b-(j-1)*a)/j; a=b; b=c; } d=n*(x*b-a)/(x*x-1); x-=b/d; } r.push_back({x,2/((1-x*x)*d*d)}); } } return r; }
  // (1/s) times the integral over the Dalitz plot, from the boundaries of the plot
  template<class F> double direct(const Mass& m, double s, F f){ double m1=std::sqrt(m.s1), m2=std::sqrt(m.s2), m3=std::sqrt(m.s3), lo=m1+m2, hi=std::sqrt(s)-m3, t=0; for(auto& [x,w] : legendre()){ double y=M_PI*(x+1)/2, mab=lo+(hi-lo)*(1-std::cos(y))/2, dm=M_PI/2*(hi-lo)/2*std::sin(y), s12=mab*mab; double e1=(s12+m.s1-m.s2)/(2*mab), e3=(s-s12-m.s3)/(2*mab), p1=std::sqrt(std::max(0.,(s12-lo*lo)*(s12-(m1-m2)*(m1-m2))))/(2*mab), p3=std::sqrt(std::max(0.,(s-(mab+m3)*(mab+m3))*(s-(mab-m3)*(mab-m3))))/(2*mab); double c=m.s1+m.s3+2*e1*e3, h=2*p1*p3; double u=0; for(auto& [z,v] : legendre()) u+=v*f(s12,c+h*z); t+=w*dm*2*mab*h*u; } return t/s; }

  void coordinates(pbt::Gen& g){
    Mass m=masses(g); DalitzIntegrator dp = [&]{ if( g.coin() ) return DalitzIntegrator(m.s0,m.s1,m.s2,m.s3); DalitzIntegrator d(7,1,0.5,0.3); g.label("set"); if( g.coin() ) d.set(m.s0,m.s1,m.s2,m.s3); else { d.set(40,m.s1,m.s2,m.s3); d.setMother(m.s0); } return d; }();
    double s=m.s0; bool other=g.coin(); if( other ){ double M=m.sum()+g.logreal(0.02,4); s=M*M; g.label("other mother"); g.desc("s="+pbt::str(s)+"; "); }
    unsigned N=utils::size<real_v>::value; std::vector<double> x(N), y(N); real_v vx, vy; { alignas(64) double bx[16], by[16]; for(unsigned i=0;i<N;++i){ bx[i]=x[i]=g.real(0.001,0.999); by[i]=y[i]=g.real(0.001,0.999); } vx=real_v(bx); vy=real_v(by); }
    DalitzIntegrator::sqCo co(vx,vy); real_v ev[12]; for(auto& e : ev) e=real_v(0.); if( other ) dp.setEvent(co,ev,s); else dp.setEvent(co,ev); real_v mab=other?dp.getMAB(co,s):dp.getMAB(co), J=other?dp.J(co,s):dp.J(co);
    double lo=std::sqrt(m.s1)+std::sqrt(m.s2), hi=std::sqrt(s)-std::sqrt(m.s3);
    for(unsigned i=0;i<N;++i){ double p[12]; for(int k=0;k<12;++k) p[k]=lane(ev[k],i); double want=lo+(hi-lo)*(std::cos(M_PI*x[i])+1)/2, M=lane(mab,i), sc; g.close("mass of the pair",M,want,1e-12,1e-12*hi); double q; q=inv(p,{0,1},&sc); g.close("squared mass of the first two",q,want*want,1e-9,1e-9*sc); q=inv(p,{0},&sc); g.close("squared mass of particle 1",q,m.s1,0,1e-9*sc); q=inv(p,{1},&sc); g.close("squared mass of particle 2",q,m.s2,0,1e-9*sc); q=inv(p,{2},&sc); g.close("squared mass of particle 3",q,m.s3,0,1e-9*sc); q=inv(p,{0,1,2},&sc); g.close("squared mass of the mother",q,s,0,1e-9*sc);
      for(int k=0;k<3;++k){ g.close("momentum of the pair",p[k]+p[4+k],0,0,1e-9*hi); g.require(p[4*k+3]>=0,"negative energy"); }
      double p1=std::sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2]), p3=std::sqrt(p[8]*p[8]+p[9]*p[9]+p[10]*p[10]); double c=p[0]*p[8]+p[1]*p[9]+p[2]*p[10]; g.close("angle between 1 and 3",c,p1*p3*std::cos(M_PI*y[i]),0,1e-9*p1*p3); g.close("jacobian",lane(J,i),4*want*p1*p3*M_PI/2*(hi-lo)*std::sin(M_PI*x[i])*M_PI*std::sin(M_PI*y[i]),1e-6,1e-12);
      if( !other ){ Event e(12); // boosting and rotating changes nothing
        double b=g.coin()?g.real(-0.8,0.8):0, ga=1/std::sqrt(1-b*b), ph=g.real(0,6.28), th=g.real(0,3.14); for(int k=0;k<3;++k){ double v[4]={p[4*k],p[4*k+1],p[4*k+2],p[4*k+3]}; double z=ga*(v[2]+b*v[3]), E=ga*(v[3]+b*v[2]); double xx=v[0]*std::cos(ph)-v[1]*std::sin(ph), yy=v[0]*std::sin(ph)+v[1]*std::cos(ph); double z2=z*std::cos(th)-xx*std::sin(th), x2=z*std::sin(th)+xx*std::cos(th); e[4*k]=x2; e[4*k+1]=yy; e[4*k+2]=z2; e[4*k+3]=E; }
        double t1=dp.sqDp1(e), t2=dp.sqDp2(e); double d1=(hi-lo)*std::sin(M_PI*x[i])*want; double eps1=1e-12*ga*ga*s/std::max(1e-9,d1)*(1+s/(want*want))+1e-14*s*ga*ga/std::max(p1,1e-8)/((hi-lo)*std::sin(M_PI*x[i])), eps2=1e-10*ga*ga*s*s/std::max(1e-15,p1*p3*want*want*std::sin(M_PI*y[i])); if( eps1<1e-3 ) g.close("first coordinate of an event",t1,x[i],0,eps1+1e-9); if( eps2<1e-3 && p1*p3>1e-4 && p1>0.01 && p3>0.01 ) g.close("second coordinate of an event",t2,y[i],0,1e-4+eps2); } }
    if( hi-lo>0.1 ) g.nontrivial(); g.evals(N); }

  void integrals(pbt::Gen& g){
    Mass m=masses(g); DalitzIntegrator dp(m.s0,m.s1,m.s2,m.s3); double s=m.s0; int how=g.range(0,2); if( how ){ double M=m.sum()+g.logreal(0.05,4); s=M*M; g.desc("s="+pbt::str(s)+"; "); g.label(how==1?"other mother":"setMother"); if( how==2 ) dp.setMother(s); }
    double c0=g.real(0.2,2), c1=g.real(0,2), c2=g.real(0,2), c3=g.real(0,1); bool cx=g.coin(); int e=g.range(0,2); double mr=std::sqrt(m.s1)+std::sqrt(m.s2)+g.real(0.1,0.9)*(std::sqrt(s)-m.sum()), w=g.real(0.3,1); g.desc("f="+pbt::str(c0)+"+"+pbt::str(c1)+" s12+"+pbt::str(c2)+" s13+"+pbt::str(c3)+" s12 s13, "+(e==2?"peak":"smooth"));
    auto fs=[&](auto s12, auto s13){ auto r=c0+c1*s12/s+c2*s13/s+c3*s12*s13/(s*s); if( e==1 ) r=r*r; if( e==2 ){ auto d=(s12-mr*mr)/s; r=r/(d*d+w*w); } return r; };
    auto dot=[](const real_v* p, int i, int j){ return p[4*i+3]*p[4*j+3]-p[4*i]*p[4*j]-p[4*i+1]*p[4*j+1]-p[4*i+2]*p[4*j+2]; };
    auto f=[&](const real_v* p){ real_v s12=m.s1+m.s2+2.*dot(p,0,1), s13=m.s1+m.s3+2.*dot(p,0,2); return fs(s12,s13); };
    auto fc=[&](const real_v* p){ return complex_v(f(p),real_v(3.)); };
    double got = how==1 ? (cx?dp.integrateDP(fc,s):dp.integrateDP(f,s)) : (cx?dp.integrateDP(fc):dp.integrateDP(f)); double want=direct(m,s,fs); g.close("integral over the Dalitz plot",got,want,2e-4); g.nontrivial(); }

  void boundary(pbt::Gen& g){ Mass m=masses(g); g.assume(std::sqrt(m.s0)-m.sum()>0.05); DalitzIntegrator dp(m.s0,m.s1,m.s2,m.s3); Projection x([](const Event& e){ return e.s(0,1); },"a","a",100,0,10), y([](const Event& e){ return e.s(0,2); },"b","b",100,0,10); TGraph* gr=dp.makeBoundaryGraph(Projection2D(x,y)); g.require(gr->GetN()>100,"points of the boundary"); double sum=0; for(int i=0;i<gr->GetN();++i){ double s12=gr->GetX()[i], s13=gr->GetY()[i], s23=m.s0+m.s1+m.s2+m.s3-s12-s13; // the Gram determinant vanishes on the boundary and is positive inside
      double a=m.s0,b=m.s1,c=m.s2,d=m.s3; auto det=[&]{ double p11=b,p22=c,p33=d,p12=(s12-b-c)/2,p13=(s13-b-d)/2,p23=(s23-c-d)/2; return p11*(p22*p33-p23*p23)-p12*(p12*p33-p23*p13)+p13*(p12*p23-p22*p13); }(); g.require(std::fabs(det)<2e-3*a*a*a,"point "+std::to_string(i)+" is not on the boundary: ("+pbt::str(s12)+","+pbt::str(s13)+")"); double lo=std::pow(std::sqrt(b)+std::sqrt(c),2), hi=std::pow(std::sqrt(a)-std::sqrt(d),2); g.require(s12>=lo-1e-6 && s12<=hi+1e-6,"point of the boundary outside of the plot"); int j=(i+1)%gr->GetN(); sum+=s12*gr->GetY()[j]-gr->GetX()[j]*s13; } double area=direct(m,m.s0,[](double,double){ return 1.; })*m.s0; g.close("area within the boundary",std::fabs(sum)/2,area,0.02); g.nontrivial(); delete gr; }

  struct Sample { size_t dim; bool w; std::vector<double> d; std::vector<double*> a; Sample(pbt::Gen& g, size_t n, size_t dim, int lo, int hi, bool w=false):dim(dim),w(w){ size_t st=dim+(w?1:0); d.resize(n*st); int shape=g.range(0,2); uint64_t seed=g.raw(1ull<<32); std::mt19937_64 r(seed); std::uniform_real_distribution<double> u(0,1); std::normal_distribution<double> z; for(size_t i=0;i<n;++i){ double q=z(r); for(size_t k=0;k<dim;++k) d[i*st+k]= shape==0 ? lo+(hi-lo)*u(r) : shape==1 ? (lo+hi)/2.+(hi-lo)*0.2*(z(r)+0.5*q) : lo+(hi-lo)*std::pow(u(r),4); if( w ) d[i*st+dim]=0.3+u(r); } for(size_t i=0;i<n;++i) a.push_back(&d[i*st]); } Sample(const Sample&)=delete; };
  template<class T> std::vector<size_t> fill(const T& t, const std::vector<double*>& a, size_t n, pbt::Gen& g){ std::vector<size_t> c(n,0); for(auto p : a){ long b=t.getBinNumber(p); g.requirel(b>=0 && (size_t)b<n,[&]{ return "bin "+std::to_string(b)+" of "+std::to_string(n); }); c[b]++; } return c; }

  void binning(pbt::Gen& g){
    size_t dim=g.range(1,5), n=g.coin()?g.range(0,60):g.range(60,3000), me=g.chance(1,3)?g.range(1,4):g.range(5,60); int lo=g.range(-3,2); Sample s(g,n,dim,lo,lo+g.range(1,4)); int depth=g.coin()?999:g.range(0,6); int how=g.range(0,2); g.desc(std::to_string(n)+" events, dim "+std::to_string(dim)+", minimum "+std::to_string(me)+", depth "+std::to_string(depth)+"; ");
    auto ptr=std::make_unique<BinDT>( ArgumentPack(MinEvents(me),MaxDepth(size_t(depth)),Dim(dim),Functor([](const Event&){ return std::vector<double>(5,0.); })) );
    if( how==0 ){ ptr=std::make_unique<BinDT>(s.a,MinEvents(me),MaxDepth(size_t(depth)),Dim(dim),Functor([](const Event&){ return std::vector<double>(5,0.); })); }
    else { // a binning read from the serialisation of another one
      BinDT b(s.a,MinEvents(me),MaxDepth(size_t(depth)),Dim(dim),Functor([](const Event&){ return std::vector<double>(5,0.); })); unsigned k=0; for(auto& nd : b.nodes()) nd->setBinNumber(k++*7%13); std::string f=pbt::scratch()+"/binning"; b.serialize(f); if( how==1 ){ std::ifstream in(f); ptr->readFromStream(in); g.label("stream"); } else { ptr=std::make_unique<BinDT>(File(f),Dim(dim),Functor([](const Event&){ return std::vector<double>(5,0.); })); g.label("file"); }
      g.require(ptr->size()==b.size(),"number of bins after reading"); for(size_t i=0;i<200;++i){ std::vector<double> x(dim); if( i<s.a.size() && g.coin() ) x.assign(s.a[i],s.a[i]+dim); else for(auto& v : x) v=g.uniform(lo-1,lo+5); g.require(ptr->getBinNumber(x.data())==b.getBinNumber(x.data()),"bin of a point differs after reading"); g.require(ptr->getBin(x.data())==b.getBin(x.data()),"assigned bin number differs after reading"); } }
    BinDT& b=*ptr; auto c=fill(b,s.a,b.size(),g); std::set<unsigned> vox; for(auto& nd : b.const_nodes()) vox.insert(nd->voxNumber()); g.require(vox.size()==b.size() && *vox.rbegin()==b.size()-1,"numbers of the bins are not 0..n-1"); size_t leaves=0, all=0; b.top()->visit([&](BinDT::INode* p){ all++; if( dynamic_cast<BinDT::EndNode*>(p) ) leaves++; }); g.require(leaves==b.size() && all==2*leaves-1,"nodes visited"); size_t mx=0; for(size_t i=0;i<c.size();++i){ g.requirel(n<me || c[i]>=me,[&]{ return "bin "+std::to_string(i)+" has "+std::to_string(c[i])+" events"; }); mx=std::max(mx,c[i]); } if( depth==999 ) g.require(mx<2*me,"a bin with "+std::to_string(mx)+" events was not divided"); else g.require(b.size()<=size_t(1)<<(depth+1),"too many bins for the depth"); size_t tot=0; for(auto x : c) tot+=x; g.require(tot==n,"events in the bins"); if( b.size()>2 ) g.nontrivial();
    // bins are boxes: a point with each coordinate between those of two points of a bin is in this bin
    for(int k=0;n && k<100;++k){ auto p=s.a[g.draw(n)], q=s.a[g.draw(n)]; unsigned bn=b.getBinNumber(p); if( b.getBinNumber(q)!=bn ) continue; std::vector<double> x(dim); for(size_t i=0;i<dim;++i){ double u=g.unit(); x[i]=p[i]+(q[i]-p[i])*u; } g.require(b.getBinNumber(x.data())==bn,"a bin is not a box"); } g.evals(n); }

  void twosample(pbt::Gen& g){
    size_t dim=g.range(1,4), me=g.range(1,30), n=g.range(2,800), k=g.range(2,800); int lo=g.range(-3,2), hi=lo+g.range(1,4); Sample s(g,n,dim,lo,hi,true), t(g,k,dim,g.coin()?lo:lo-1,hi,true); bool fast=g.coin(); size_t depth=g.coin()?999:g.range(1,6); g.desc(std::to_string(n)+" and "+std::to_string(k)+" events, dim "+std::to_string(dim)+", minimum "+std::to_string(me)+", depth "+std::to_string(depth)+"; "); std::vector<size_t> a, b;
    if( fast ){ FastDT d{MinEvents(me),MaxDepth(depth),Dim(dim)}; bool best=g.coin(); d.m_strategy=best?FastDT::Strategy::best:FastDT::Strategy::random; g.label(best?"fast best":"fast random"); d.makeNodes(s.a,t.a); size_t nb=-d.m_endNodeCounter; if( d.m_nodes.empty() ){ g.require(nb==1,"one bin without divisions"); for(auto p : s.a) g.require(d.getBinNumber(p)==0,"the bin of an undivided sample"); return; } a=fill(d,s.a,nb,g); b=fill(d,t.a,nb,g); std::string f=pbt::scratch()+"/fast"; { std::ofstream o(f); d.serialise(o); o.close(); std::ifstream in(f); FastDT r(in,unsigned(d.m_nodes.size())); g.require(r.m_nodes.size()==d.m_nodes.size(),"number of nodes after reading"); for(auto p : s.a) g.require(r.findNode(p)==d.findNode(p),"bin differs after reading"); } if( depth<999 ) g.require(nb<=size_t(1)<<depth,"too many bins for the depth"); }
    else { BinDT d(ArgumentPack(MinEvents(me),MaxDepth(depth),Dim(dim),Functor([](const Event&){ return std::vector<double>(5,0.); }))); g.label("two samples"); d.makeNodes(s.a,t.a); a=fill(d,s.a,d.size(),g); b=fill(d,t.a,d.size(),g); }
    if( a.size()>1 ) g.nontrivial(); for(size_t i=0;i<a.size();++i) g.requirel((n<me || a[i]>=me) && (k<me || b[i]>=me || a.size()==1),[&]{ return "bin "+std::to_string(i)+" has "+std::to_string(a[i])+" and "+std::to_string(b[i])+" events"; }); g.evals(n+k); }

  void fast(pbt::Gen& g){ size_t dim=g.range(1,5), n=g.coin()?g.range(0,10):g.range(2,1500), me=g.range(1,40); int lo=g.range(-3,2); Sample s(g,n,dim,lo,lo+2); size_t depth=g.coin()?999:g.range(0,6); FastDT d{MinEvents(me),MaxDepth(depth),Dim(dim)}; g.desc(std::to_string(n)+" events, dim "+std::to_string(dim)+", minimum "+std::to_string(me)); auto a=s.a; d.makeNodes(a,{},0); size_t nb=-d.m_endNodeCounter; if( d.m_nodes.empty() ){ g.require(nb==1,"one bin without divisions"); for(auto p : s.a) g.require(d.getBinNumber(p)==0,"the bin of an undivided sample"); return; } auto c=fill(d,s.a,nb,g); size_t mx=0; for(size_t i=0;i<nb;++i){ g.requirel(c[i]>=me,[&]{ return "bin "+std::to_string(i)+" has "+std::to_string(c[i])+" events"; }); mx=std::max(mx,c[i]); } if( depth==999 ) g.require(mx<2*me,"a bin with "+std::to_string(mx)+" events was not divided"); g.require(d.m_nodes.size()==nb-1,"number of divisions"); std::string f=pbt::scratch()+"/fast1"; { std::ofstream o(f); d.serialise(o); } std::ifstream in(f); FastDT r(in,unsigned(d.m_nodes.size())); for(int i=0;i<300;++i){ std::vector<double> x(dim); auto p=s.a[g.draw(n)]; for(size_t k=0;k<dim;++k) x[k]=p[k]+(i%3?0:g.uniform(-0.01,0.01)); g.require(r.getBinNumber(x.data())==d.getBinNumber(x.data()),"bin differs after reading"); } if( nb>2 ) g.nontrivial(); }

  EventType type3(){ return EventType({"D0","K-","pi+","pi0"}); }
  EventType type4(){ return EventType({"D0","K-","pi+","pi+","pi-"}); }
  EventList sample(pbt::Gen& g, const EventType& t, size_t n, bool pdf){ EventList l(t); std::mt19937_64 r(g.raw(1ull<<32)); std::normal_distribution<double> z; std::uniform_real_distribution<double> u(0,1); for(size_t i=0;i<n;++i){ Event e(4*t.size()); for(size_t k=0;k<t.size();++k){ double m=t.mass(k), p2=0; for(int j=0;j<3;++j){ double p=0.4*z(r); e[4*k+j]=p; p2+=p*p; } e[4*k+3]=std::sqrt(m*m+p2); } e.setWeight(0.2+u(r)); e.setGenPdf(pdf?0.3+u(r):1); l.push_back(e); } return l; }
  void chi2(pbt::Gen& g){
    bool four=g.coin(); EventType t=four?type4():type3(); size_t n=g.range(2,400), k=g.range(1,400), me=g.range(1,30); EventList data=sample(g,t,n,false), mc=sample(g,t,k,true); double w0=g.real(0,2); int kind=g.range(0,2); auto f=[w0](const Event& e){ return 1+w0*e.s(0,1); }; auto vars=[four,kind](const Event& e) -> std::vector<double> { if( kind==0 ) return {e.s(0,2), e.s(0,1), e.s(1,2)}; if( four ) return {e.s(1,2,3),e.s(0,1),e.s(0,2),e.s(2,3),e.s(0,1,2)}; return {e.s(0,1),e.s(1,2)}; }; size_t dim=kind==0?3:four?5:2; g.desc(std::to_string(n)+" data, "+std::to_string(k)+" simulated, dim "+std::to_string(dim)+", minimum "+std::to_string(me));
    EventListSIMD vd(data), vm(mc); auto run=[&]{ if( kind==0 ) return Chi2Estimator(vd,vm,f,MinEvents(me),Dim(dim),Functor(vars)); return Chi2Estimator(vd,vm,f,MinEvents(me),Dim(dim)); }; Chi2Estimator c=run(); std::string file=pbt::scratch()+"/chi2"; c.writeBinningToFile(file);
    BinDT b{File(file),Dim(dim),Functor(vars)}; g.require(b.size()==c.nBins(),"number of bins"); std::vector<double> d(b.size(),0), dd=d, m=d, mm=d; std::vector<int> cnt(b.size(),0); double td=0, tm=0; for(auto& e : data){ auto i=b.getBinNumber(e); double w=e.weight(); d[i]+=w; dd[i]+=w*w; td+=w; cnt[i]++; } for(auto& e : mc){ auto i=b.getBinNumber(e); double w=f(e)*e.weight()/e.genPdf(); m[i]+=w; mm[i]+=w*w; tm+=w; } double want=0; for(size_t i=0;i<b.size();++i){ double r=td/tm, x=d[i]-m[i]*r; want+=x*x/(dd[i]+mm[i]*r*r); g.require(n<me || size_t(cnt[i])>=me,"too few events in a bin"); } g.close("chi2",c.chi2(),want,1e-8,1e-12*n); if( b.size()>1 ) g.nontrivial();
    // filled through an event list
    BinDT q(data,MinEvents(me),Dim(dim),Functor(vars)); BinDT q2(data,ArgumentPack(MinEvents(me),Dim(dim),Functor(vars))); for(auto& e : mc){ g.require(q.getBinNumber(e)==q2.getBinNumber(e),"bins of the two constructors differ"); auto v=vars(e); g.require(q.getBinNumber(e)==q.getBinNumber(v.data()),"bin of an event and of its variables differ"); } g.evals(n+k); }

  // three-body widths from amplitudes evaluated one event at a time
  struct Head { const char* name; std::vector<const char*> decays; };
  void width(pbt::Gen& g){
    static const std::vector<Head> heads={{"D0",{"D0{K*(892)bar0{K-,pi+},pi0}","D0{rho(770)+{pi+,pi0},K-}","D0{K*(892)bar-{K-,pi0},pi+}","D0{K(0)*(1430)bar0{K-,pi+},pi0}"}},{"a(1)(1260)+",{"a(1)(1260)+{rho(770)0{pi+,pi-},pi+}","a(1)(1260)+[D]{rho(770)0{pi+,pi-},pi+}","a(1)(1260)+{f(0)(980)0{pi+,pi-},pi+}"}},{"K(1)(1270)+",{"K(1)(1270)+{rho(770)0{pi+,pi-},K+}","K(1)(1270)+{K*(892)0{K+,pi-},pi+}","K(1)(1270)+[D]{K*(892)0{K+,pi-},pi+}"}},{"D+",{"D+{K*(892)bar0{K-,pi+},pi+}","D+{rho(770)0{pi+,pi-},pi+}","D+{K(0)*(1430)bar0{K-,pi+},pi+}"}}};
    auto& h=g.pick(heads); MinuitParameterSet mps; std::vector<std::pair<std::string,C>> used; for(auto d : h.decays) if( g.coin() || (used.empty() && d==h.decays.back()) ){ C c(g.real(-2,2),g.real(-2,2)); used.push_back({d,c}); mps.add(std::string(d)+"_Re",Flag::Free,c.real(),0.1); mps.add(std::string(d)+"_Im",Flag::Free,c.imag(),0.1); g.desc(std::string(d)+" "+pbt::str(c.real())+" "+pbt::str(c.imag())+"; "); }
    ThreeBodyCalculator calc(h.name,mps); calc.prepare(); int twoJ=ParticlePropertiesList::get(h.name)->twoSpin();
    std::map<std::string,std::vector<std::pair<std::string,C>>> states; std::map<std::string,EventType> types; for(auto& [d,c] : used){ Particle p(d); auto t=p.eventType(); auto fs=t.finalStates(); std::sort(fs.begin(),fs.end()); std::string key; for(auto& f : fs) key+=f+" "; states[key].push_back({d,c}); if( !types.count(key) ) types[key]=t; }
    for(int rep=0;rep<2;++rep){ double M=0; for(auto& [k,t] : types){ double x=0; for(size_t i=0;i<3;++i) x+=t.mass(i); M=std::max(M,x); } M+=g.real(0.1,1.2); double s=M*M, want=0; if( rep==1 ){ for(auto& [d,c] : used){ C v(g.real(-2,2),g.real(-2,2)); c=v; mps[d+"_Re"]->setCurrentFitVal(v.real()); mps[d+"_Im"]->setCurrentFitVal(v.imag()); } for(auto& [k,v] : states) for(auto& [d,c] : v) for(auto& [e,x] : used) if( e==d ) c=x; calc.prepare(); g.label("changed couplings"); }
      for(auto& [k,v] : states){ auto& t=types[k]; Mass m{s,t.mass(0)*t.mass(0),t.mass(1)*t.mass(1),t.mass(2)*t.mass(2)}; std::vector<std::vector<CompiledExpression<complex_t(const real_t*,const real_t*)>>> fs; 
        for(auto& [d,c] : v){ fs.emplace_back(); for(int pol=-twoJ;pol<=twoJ;pol+=2){ Particle p(d,t.finalStates()); p.setPolarisationState(pol/ (twoJ%2?1:2)); p.setLineshape("FormFactor"); Particle q(p); fs.back().emplace_back(q.getExpression(),d+std::to_string(pol),t.getEventFormat(),&mps); fs.back().back().compile(); fs.back().back().prepare(); } }
        want+=direct(m,s,[&](double s12, double s13){ double mab=std::sqrt(s12), e1=(s12+m.s1-m.s2)/(2*mab), e2=mab-e1, e3=(s-s12-m.s3)/(2*mab), p1=std::sqrt(std::max(0.,e1*e1-m.s1)), p3=std::sqrt(std::max(0.,e3*e3-m.s3)), ct=p1*p3>0?(m.s1+m.s3+2*e1*e3-s13)/(2*p1*p3):0; ct=std::max(-1.,std::min(1.,ct)); Event e(12); double st=std::sqrt(1-ct*ct); double bz=-p3*ct, by=-p3*st, E=mab+e3; double pb2=p3*p3, b2=pb2/(E*E), ga=1/std::sqrt(1-b2); double vy=p3*st/E, vz=p3*ct/E; (void)by; (void)bz; double P[3][4]={{0,0,p1,e1},{0,0,-p1,e2},{0,p3*st,p3*ct,e3}}; for(int k=0;k<3;++k){ double bp=vy*P[k][1]+vz*P[k][2]; double f=b2>0?(ga-1)*bp/b2-ga*P[k][3]:-P[k][3]; e[4*k]=P[k][0]; e[4*k+1]=P[k][1]+f*vy; e[4*k+2]=P[k][2]+f*vz; e[4*k+3]=ga*(P[k][3]-bp); }
          double r=0; for(size_t pol=0;pol<fs[0].size();++pol){ C a=0; for(size_t i=0;i<v.size();++i) a+=v[i].second*fs[i][pol](e.address()); r+=std::norm(a); } return r; })*Particle(v[0].first,t.finalStates()).identicalDaughterOrderings().size(); } // orderings are summed without a symmetry factor
      g.close("width at s="+pbt::str(s),calc.getWidth(s),want,2e-3); if( rep==0 ){ calc.setAxis(3,s+g.range(0,1),s+2); TGraph* gr=calc.widthGraph(size_t(3),s,s+0.5); g.require(gr->GetN()==3,"points of the graph"); for(int i=0;i<3;++i){ g.close("abscissa of the graph",gr->GetX()[i],s+0.25*i,1e-12); g.close("graph",gr->GetY()[i],calc.getWidth(s+0.25*i),1e-9); } } } g.nontrivial(); }
}
int main(int argc, char** argv){ pbt::Check c("P03","an integral, a boundary or a width of a generated three-body system; a binning of more than two bins (more than one with two samples); coordinates with more than 100 MeV available"); c.assume("values of the variables of the training events are distinct"); c.assume("amplitudes evaluated one event at a time are right (P08)");
  c.prop("coordinates",60000,2000000,coordinates); c.prop("integral",4000,80000,integrals); c.prop("boundary",1500,20000,boundary); c.prop("binning",6000,100000,binning); c.prop("twosample",2500,50000,twosample,60,true); c.prop("fast",6000,100000,fast); c.prop("chi2",5000,80000,chi2); c.prop("width",16,200,width,180); return c.main(argc,argv); }
