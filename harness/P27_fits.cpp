// P27: fits, their results and the propagation of uncertainties.
// HARNESS_NEEDS_ROOT_PART
#include "pbt.h"
#include "AmpGen/ErrorPropagator.h"
#include "AmpGen/FitResult.h"
#include "AmpGen/FitFraction.h"
#include "AmpGen/Minimiser.h"
#include "AmpGen/ExtendLikelihoodBase.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/OptionsParser.h"
#include <fstream>
#include <sstream>
#include <memory>
using namespace AmpGen;
typedef std::vector<std::vector<double>> Mat;
namespace {
  struct Pars { std::unique_ptr<MinuitParameterSet> mps{new MinuitParameterSet()}; std::vector<std::string> names; std::vector<MinuitParameter*> p; size_t n() const { return p.size(); } };
  double six(double x){ return std::round(x*1e6)/1e6; }
  double val(pbt::Gen& g, bool rounded){ double x = g.coin() ? g.real(-3,3) : (g.coin()?1:-1)*g.logreal(1e-2,1e3); return rounded ? six(x) : x; }
  std::string dump(const MinuitParameter* p){ return p->name()+" "+to_string<Flag>(p->flag())+" "+pbt::str(p->mean())+" +- "+pbt::str(p->err())+" ["+pbt::str(p->minInit())+","+pbt::str(p->maxInit())+"]"; }
  Pars pars(pbt::Gen& g, int lo, int hi, bool rounded, bool complexNames, int freeBias=2){
    Pars r; int n=g.range(lo,hi); const char* stems[]={"a","mass_x","D0{K*(892)bar0{K-,pi+},pi0}","rho(770)0_mass","f::Spline::0","Res_Re_x","x_Im_y","p"};
    for(int i=0;i<n;++i){ std::string s = std::string(g.pick({stems[0],stems[1],stems[2],stems[3],stems[4],stems[5],stems[6],stems[7]})); if( i || g.coin() ) s += "#"+std::to_string(i); for(auto& c : s) if(c=='#') c='_';
      auto one=[&](const std::string& nm){ Flag f = g.weighted({freeBias,1,1})==0?Flag::Free:g.coin()?Flag::Fix:g.coin()?Flag::Hide:Flag::CompileTimeConstant; double v=val(g,rounded), e=rounded?six(g.logreal(1e-3,2)):g.logreal(1e-3,2), a=0, b=0; int lim=g.weighted({3,1,1,1}); if(lim==1){ a=-5; b=5000; } else if(lim==2){ a=0; b=six(2000+g.real(0,1)); } else if(lim==3){ a=six(-2000-g.real(0,1)); b=0; }
        if( f!=Flag::Free && g.chance(1,2) ) e = 0;
        auto p=new MinuitParameter(nm,f,v,e,a,b); if( r.mps->find(nm) ){ delete p; return; } if( r.mps->add(p) ){ r.names.push_back(nm); r.p.push_back(p); g.desc(dump(p)+"; "); } };
      if( complexNames && g.chance(1,3) ){ if( g.coin() ){ one(s+"_Re"); one(s+"_Im"); } else { one(s+"_Im"); one(s+"_Re"); } } else one(s); }
    return r; }
  Mat inverse(Mat a){ size_t n=a.size(); Mat b(n,std::vector<double>(n,0)); for(size_t i=0;i<n;++i) b[i][i]=1; for(size_t c=0;c<n;++c){ size_t p=c; for(size_t r=c;r<n;++r) if(std::fabs(a[r][c])>std::fabs(a[p][c])) p=r; std::swap(a[p],a[c]); std::swap(b[p],b[c]); double v=a[c][c]; for(size_t k=0;k<n;++k){ a[c][k]/=v; b[c][k]/=v; } for(size_t r=0;r<n;++r) if(r!=c){ double f=a[r][c]; for(size_t k=0;k<n;++k){ a[r][k]-=f*a[c][k]; b[r][k]-=f*b[c][k]; } } } return b; }
  std::vector<double> solve(const Mat& H, const Mat& V, const std::vector<double>& b){ size_t n=b.size(); std::vector<double> x(n,0); for(int it=0;it<6;++it){ std::vector<double> r(b); for(size_t i=0;i<n;++i){ long double t=b[i]; for(size_t j=0;j<n;++j) t-=(long double)H[i][j]*x[j]; r[i]=t; } for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j) x[i]+=V[i][j]*r[j]; } return x; }
  // a positive-definite matrix with standard deviations of the order of the given ones
  Mat covariance(pbt::Gen& g, const std::vector<double>& sd){ size_t n=sd.size(); Mat a(n,std::vector<double>(n)), c=a; for(auto& r : a) for(auto& x : r) x=g.uniform(-1,1); for(size_t i=0;i<n;++i) a[i][i]+=a[i][i]<0?-0.7:0.7; for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j){ double t=0; for(size_t k=0;k<n;++k) t+=a[i][k]*a[j][k]; c[i][j]=t; }
    auto I=inverse(c); for(auto& r : I) for(auto x : r) g.assume(std::isfinite(x) && std::fabs(x)<1e4); for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j) c[i][j]*=sd[i]*sd[j]; for(size_t i=0;i<n;++i) for(size_t j=0;j<i;++j) c[i][j]=c[j][i]; return c; }
  TMatrixD tm(const Mat& c){ TMatrixD m(c.size(),c.size()); for(size_t i=0;i<c.size();++i) for(size_t j=0;j<c.size();++j) m(i,j)=c[i][j]; return m; }
  // a quadratic function of parameters: central differences are exact
  struct Quad { double c; std::vector<double> b; Mat q; double operator()(const std::vector<double>& x) const { double t=c; for(size_t i=0;i<x.size();++i){ t+=b[i]*x[i]; for(size_t j=0;j<x.size();++j) t+=q[i][j]*x[i]*x[j]; } return t; }
    std::vector<double> grad(const std::vector<double>& x) const { std::vector<double> r(b); for(size_t i=0;i<x.size();++i) for(size_t j=0;j<x.size();++j) r[i]+=(q[i][j]+q[j][i])*x[j]; return r; } };
  Quad quad(pbt::Gen& g, size_t n){ Quad f; f.c=g.real(-2,2); f.b.resize(n); f.q.assign(n,std::vector<double>(n,0)); for(auto& x : f.b) x=g.real(-2,2); if( g.coin() ) for(auto& r : f.q) for(auto& x : r) if(g.coin()) x=g.real(-1,1); return f; }
  std::vector<double> means(const std::vector<MinuitParameter*>& p){ std::vector<double> r; for(auto q : p) r.push_back(q->mean()); return r; }
  double quadForm(const std::vector<double>& a, const Mat& c, const std::vector<double>& b){ double t=0; for(size_t i=0;i<a.size();++i) for(size_t j=0;j<b.size();++j) t+=a[i]*c[i][j]*b[j]; return t; }
  double quadAbs(const std::vector<double>& a, const Mat& c, const std::vector<double>& b){ double t=0; for(size_t i=0;i<a.size();++i) for(size_t j=0;j<b.size();++j) t+=std::fabs(a[i]*c[i][j]*b[j]); return t; }
  // size of the rounding of a central difference
  double noise(const Quad& f, const std::vector<double>& x, const std::vector<double>& sd){ double s=std::fabs(f.c)+1; for(size_t i=0;i<x.size();++i){ double xi=std::fabs(x[i])+sd[i]; s+=std::fabs(f.b[i])*xi; for(size_t j=0;j<x.size();++j) s+=std::fabs(f.q[i][j])*xi*(std::fabs(x[j])+sd[j]); } double m=1e300; for(auto v : sd) m=std::min(m,v); return 1e-13*s/m; }

  void linear(pbt::Gen& g){
    auto P=pars(g,1,6,false,false,4); std::vector<MinuitParameter*> fr; std::vector<double> sd; Mat C; std::unique_ptr<LinearErrorPropagator> ep; int how=g.range(0,2);
    if( how==0 ){ for(auto p : P.p) if( g.coin() || fr.empty() ) fr.push_back(p); for(size_t i=0;i<fr.size();++i) sd.push_back(g.logreal(1e-2,2)); C=covariance(g,sd); ep.reset(new LinearErrorPropagator(tm(C),fr)); g.label("covariance"); }
    else { for(auto p : P.p) if( p->isFree() && p->err()!=0 ) fr.push_back(p); if( how==1 ) ep.reset(new LinearErrorPropagator(*P.mps)); else ep.reset(new LinearErrorPropagator(P.p)); C.assign(fr.size(),std::vector<double>(fr.size(),0)); for(size_t i=0;i<fr.size();++i) C[i][i]=fr[i]->err()*fr[i]->err(); g.label("diagonal"); }
    for(size_t i=0;i<fr.size();++i){ if(sd.size()<=i) sd.push_back(0); sd[i]=std::sqrt(C[i][i]); }
    auto check=[&](LinearErrorPropagator& e, const std::vector<MinuitParameter*>& fr, const Mat& C, const std::string& what){
      std::vector<double> sd; for(size_t i=0;i<fr.size();++i) sd.push_back(std::sqrt(C[i][i]));
      g.require(e.size()==fr.size() && (size_t)e.cov().GetNrows()==fr.size(),what+": number of parameters"); for(size_t i=0;i<fr.size();++i){ g.require(e.params()[i]==fr[i],what+": parameter "+fr[i]->name()+" is not at position "+std::to_string(i)); g.require(e.posMap().at(fr[i]->name())==i,"position of "+fr[i]->name()); for(size_t j=0;j<fr.size();++j) g.close(what+": covariance",e.cov()(i,j),C[i][j],1e-12,1e-300); }
      auto x0=means(fr); size_t M=g.range(1,3); std::vector<Quad> fs; std::vector<std::function<double(void)>> fn; std::vector<std::vector<double>> gr; std::vector<double> eps;
      for(size_t k=0;k<M;++k){ fs.push_back(quad(g,fr.size())); } for(size_t k=0;k<M;++k){ gr.push_back(fs[k].grad(x0)); eps.push_back(fr.empty()?0:noise(fs[k],x0,sd)); auto f=fs[k]; fn.push_back([f,&fr]{ return f(means(fr)); }); }
      auto tol=[&](size_t a, size_t b){ double t=1e-10*quadAbs(gr[a],C,gr[b]); for(size_t i=0;i<fr.size();++i) for(size_t j=0;j<fr.size();++j) t+=std::fabs(C[i][j])*(eps[a]*std::fabs(gr[b][j])+eps[b]*std::fabs(gr[a][i])+eps[a]*eps[b]); return t; };
      for(size_t k=0;k<M;++k){ double want=quadForm(gr[k],C,gr[k]); double e1=e.getError(fn[k]), e2=e(fn[k]); g.close(what+": squared uncertainty of a function",e1*e1,want,0,tol(k,k)); g.close(what+": operator()",e2,e1,1e-9,1e-12); auto now=means(fr); for(size_t i=0;i<fr.size();++i) g.require(now[i]==x0[i],"propagation changed the parameter "+fr[i]->name()); }
      auto ve=e.getVectorError([&]{ std::vector<double> r; for(auto& f : fn) r.push_back(f()); return r; },M); g.require(ve.size()==M,"size of the vector of uncertainties"); for(size_t k=0;k<M;++k) g.close(what+": squared uncertainty in a vector",ve[k]*ve[k],quadForm(gr[k],C,gr[k]),0,tol(k,k));
      auto cm=e.covarianceMatrix(fn); Mat V(M,std::vector<double>(M)); for(size_t a=0;a<M;++a) for(size_t b=0;b<M;++b){ V[a][b]=quadForm(gr[a],C,gr[b]); g.close(what+": covariance of functions",cm(a,b),V[a][b],0,tol(a,b)); }
      bool regular=true; for(size_t a=0;a<M;++a) if( V[a][a] < 1e6*tol(a,a) || V[a][a]<=0 ) regular=false;
      if( regular ){ auto co=e.correlationMatrix(fn); for(size_t a=0;a<M;++a) for(size_t b=0;b<M;++b) g.close(what+": correlation of functions",co(a,b),V[a][b]/std::sqrt(V[a][a]*V[b][b]),0,1e-5);
        if( M<=fr.size() ){ auto I=inverse(V); double cond=0; for(size_t a=0;a<M;++a) for(size_t b=0;b<M;++b) cond=std::max(cond,std::fabs(I[a][b])*std::sqrt(V[a][a]*V[b][b])); double wt=0; std::vector<double> w(M,0); for(size_t a=0;a<M;++a) for(size_t b=0;b<M;++b){ wt+=I[a][b]; w[a]+=I[a][b]; } double big=0; for(auto x : w) big=std::max(big,std::fabs(x/wt)); double tt=0; for(size_t a=0;a<M;++a) tt=std::max(tt,tol(a,a)/V[a][a]);
          if( std::isfinite(cond) && cond<1e4 && big<1e3 && tt*cond*big<1e-7 ){ auto cw=e.combinationWeights(fn); auto cv=e.combinationCovWeighted(fn); double s=0, pr=0, mag=0; for(size_t a=0;a<M;++a){ g.close("weight of a combination",cw[a],w[a]/wt,1e-4,1e-5*big); s+=cw[a]; pr+=w[a]/wt*fn[a](); mag+=std::fabs(w[a]/wt*fn[a]()); } g.close("sum of the weights",s,1,1e-9,1e-9*big); g.close("combined value",cv.first,pr,0,1e-5*(mag+1)*big); g.close("uncertainty of the combination",cv.second*cv.second*wt,1,1e-3); g.label("combination"); g.nontrivial(); } } } g.evals(M*M); };
    if( fr.empty() ){ g.close("uncertainty without free parameters",ep->getError([]{ return 3.; }),0,0,0); return; }
    check(*ep,fr,C,"propagator"); bool offdiag=how==0&&fr.size()>1; if( offdiag ) g.nontrivial();
    if( g.coin() ){ // independent uncertainties of the same and other parameters add up
      auto Q=pars(g,0,3,false,false); std::vector<MinuitParameter*> f2; for(auto p : fr) if(g.coin()) f2.push_back(p); for(auto p : Q.p) if( std::find(P.names.begin(),P.names.end(),p->name())==P.names.end() ) f2.push_back(p); g.shuffle(f2);
      if( !f2.empty() ){ std::vector<double> s2; for(size_t i=0;i<f2.size();++i) s2.push_back(g.logreal(1e-2,2)); auto C2=covariance(g,s2); LinearErrorPropagator b(tm(C2),f2); ep->add(b); auto f3=fr; for(auto p : f2) if( std::find(f3.begin(),f3.end(),p)==f3.end() ) f3.push_back(p); Mat C3(f3.size(),std::vector<double>(f3.size(),0)); auto at=[&](MinuitParameter* p){ return size_t(std::find(f3.begin(),f3.end(),p)-f3.begin()); };
        for(size_t i=0;i<fr.size();++i) for(size_t j=0;j<fr.size();++j) C3[i][j]+=C[i][j]; for(size_t i=0;i<f2.size();++i) for(size_t j=0;j<f2.size();++j) C3[at(f2[i])][at(f2[j])]+=C2[i][j]; check(*ep,f3,C3,"sum of propagators"); g.label("add"); g.nontrivial();
        if( g.coin() ){ ep->reset(); g.close("uncertainty after reset",ep->getError([]{ return 3.; }),0,0,0); ep->add(b); check(*ep,f2,C2,"propagator after reset"); g.label("reset"); } } } }

  void gauss(pbt::Gen& g){
    auto P=pars(g,1,4,false,false); std::vector<double> sd; for(auto p : P.p){ (void)p; sd.push_back(g.logreal(1e-2,2)); } auto C=covariance(g,sd); auto x0=means(P.p); TRandom3 r(g.range(1,1000000)); GaussErrorPropagator ge(tm(C),P.p,&r); size_t n=P.n(), N=4000; std::vector<double> m(n,0); Mat S(n,std::vector<double>(n,0)); double q=0, q2=0; auto I=inverse(C); std::vector<double> d(n);
    for(size_t k=0;k<N;++k){ ge.perturb(); for(size_t i=0;i<n;++i){ d[i]=P.p[i]->mean()-x0[i]; m[i]+=d[i]; } for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j) S[i][j]+=d[i]*d[j]; double c=quadForm(d,I,d); q+=c; q2+=c*c; }
    for(size_t i=0;i<n;++i){ g.close("mean of the perturbed parameter",m[i]/N,0,0,6.5*std::sqrt(C[i][i]/N)); for(size_t j=0;j<n;++j) g.close("covariance of the perturbed parameters",S[i][j]/N,C[i][j],0,7.*std::sqrt((C[i][i]*C[j][j]+C[i][j]*C[i][j])/N)); }
    g.close("mean of chi2 of the perturbed parameters",q/N,n,0,6.5*std::sqrt(2.*n/N)); g.close("mean of chi2 squared",q2/N,n*(n+2.),0,8.*std::sqrt((8.*n*(n+2)*(n+3))/N)+0.3);
    ge.reset(); for(size_t i=0;i<n;++i) g.require(P.p[i]->mean()==x0[i],"reset does not restore the parameters"); if( n>1 ) g.nontrivial(); g.evals(N); }

  void checkResult(pbt::Gen& g, const FitResult& f, const std::vector<MinuitParameter>& want, const Mat& C, double rt, double at, const std::string& what){
    size_t n=want.size(); auto ps=f.parameters(); g.require(ps.size()==n,what+": number of parameters"); int nFree=0;
    for(size_t i=0;i<n;++i){ auto& w=want[i]; auto p=ps[i]; g.require(p->name()==w.name() && p->flag()==w.flag(),what+": parameter "+w.name()+" is "+p->name()+" with flag "+to_string<Flag>(p->flag())); g.close(what+": value of "+w.name(),p->mean(),w.mean(),rt,at); g.close(what+": uncertainty of "+w.name(),p->err(),w.err(),rt,at); g.close(what+": lower uncertainty of "+w.name(),p->errNeg(),w.errNeg(),rt,at); g.close(what+": upper uncertainty of "+w.name(),p->errPos(),w.errPos(),rt,at); g.close(what+": lower limit of "+w.name(),p->minInit(),w.minInit(),rt,at); g.close(what+": upper limit of "+w.name(),p->maxInit(),w.maxInit(),rt,at); if( w.isFree() ) ++nFree; }
    g.require(f.nParam()==nFree,what+": number of free parameters is "+std::to_string(f.nParam())+", expected "+std::to_string(nFree)); g.require(f.cov().GetNrows()==(int)n && f.cov().GetNcols()==(int)n,what+": size of the covariance matrix"); double rc=std::max(rt,1e-12);
    for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j){ g.close(what+": covariance",f.cov(i,j),C[i][j],rc,1e-300); g.close(what+": covariance by name",f.cov(want[i].name(),want[j].name()),C[i][j],rc,1e-300); if( C[i][i]>0 && C[j][j]>0 ) g.close(what+": correlation",f.correlation(want[i].name(),want[j].name()),C[i][j]/std::sqrt(C[i][i]*C[j][j]),rc,1e-6*(rt>0)); }
    for(int ext=0;ext<2;++ext){ std::vector<size_t> id; for(size_t i=0;i<n;++i) if( (want[i].isFree()||ext) && want[i].err()>1e-6 ) id.push_back(i); auto fl=f.floating(ext); auto R=f.getReducedCovariance(ext); g.require(fl.size()==id.size() && R.GetNrows()==(int)id.size(),what+": number of floating parameters"); for(size_t a=0;a<id.size();++a){ g.require(fl[a]==ps[id[a]],what+": floating parameter"); for(size_t b=0;b<id.size();++b) g.close(what+": reduced covariance",R(a,b),C[id[a]][id[b]],rc,1e-300); } auto e=f.getErrorPropagator(ext); g.require(e.size()==id.size(),what+": parameters of the propagator"); for(size_t a=0;a<id.size();++a) g.require(e.params()[a]==fl[a] && e.cov()(a,a)==R(a,a),what+": propagator"); } g.evals(n*n); }

  void result(pbt::Gen& g){
    auto P=pars(g,1,7,true,true); size_t n=P.n(); std::vector<double> sd; for(auto p : P.p){ double e=p->err(); sd.push_back(p->isFree()?std::max(e,1e-3):0); if( p->isFree() && g.coin() ) p->setResult(val(g,true),six(g.logreal(1e-3,2)),-six(g.logreal(1e-3,2)),six(g.logreal(1e-3,2))); else if( p->isFree() ) p->setResult(p->mean(),p->err(),p->err(),p->err()); }
    auto C=covariance(g,sd); for(size_t i=0;i<n;++i) for(size_t j=0;j<i;++j) C[i][j]=C[j][i]; FitResult f(*P.mps,tm(C)); std::vector<MinuitParameter> want; for(auto p : P.p) want.push_back(*p);
    int nb=g.range(2,500); double chi2=g.real(0,900); bool hasChi2=g.coin(); if( hasChi2 ) f.addChi2(chi2,nb); else { chi2=0; nb=0; } std::vector<FitFraction> ff; int nf=g.range(0,4); for(int i=0;i<nf;++i) ff.emplace_back("D0{res"+std::to_string(i)+",pi0}",g.real(-0.3,1),g.logreal(1e-4,0.2)); if( g.coin() ) f.addFractions(ff); else for(auto& x : ff) f.addFraction(x.name(),x.val(),x.err()); std::map<std::string,double> obs; int no=g.range(0,3); for(int i=0;i<no;++i){ std::string k="obs"+std::to_string(g.range(0,3)); double v=(g.coin()?1:-1)*g.logreal(1e-9,1e9); obs[k]=v; f.addObservable(k,v); }
    if( g.chance(1,4) ){ size_t i=g.draw(n), j=g.draw(n); double v=g.real(0.1,1); if( C[i][i]>0 && C[j][j]>0 ){ v*=std::sqrt(C[i][i]*C[j][j]); C[i][j]=v; f.setCov(i,j,v); } }
    auto rest=[&](const FitResult& f, double rt, const std::string& what){ g.close(what+": chi2",f.chi2(),chi2,rt); g.require(f.nBins()==nb,what+": number of bins"); g.close(what+": degrees of freedom",f.dof(),double(nb-f.nParam()-1),1e-12); g.close(what+": -2LL",f.LL(),-999,rt); g.require(f.status()==-1,what+": status"); auto o=f.observables(); g.require(o.size()==obs.size(),what+": number of observables"); for(auto& k : obs) g.close(what+": observable "+k.first,o.count(k.first)?o[k.first]:NAN,k.second,rt); auto fr=f.fitFractions(); g.require(fr.size()==ff.size(),what+": number of fit fractions"); for(size_t i=0;i<ff.size();++i){ g.require(fr[i].name()==ff[i].name(),what+": name of a fraction"); g.close(what+": fraction",fr[i].val(),ff[i].val(),rt,1e-300); g.close(what+": uncertainty of a fraction",fr[i].err(),ff[i].err(),rt); } };
    checkResult(g,f,want,C,0,0,"result"); rest(f,0,"result"); FitResult c(f); checkResult(g,c,want,C,0,0,"copy"); rest(c,0,"copy"); std::string file=pbt::scratch()+"/fit.log"; { FitResult& w = g.coin()?f:c; w.writeToFile(file); }
    FitResult r(file); checkResult(g,r,want,C,6e-8,6e-7,"file read"); rest(r,6e-8,"file read"); if( g.coin() ){ std::string f2=pbt::scratch()+"/fit2.log"; r.writeToFile(f2); FitResult r2(f2); checkResult(g,r2,want,C,2e-7,2e-6,"file read twice"); rest(r2,2e-7,"file read twice"); }
    f.clearFitFractions(); g.require(f.fitFractions().empty(),"fractions after clearing"); if( n>1 ) g.nontrivial(); }

  void options(pbt::Gen& g){
    auto P=pars(g,1,6,true,true); TMatrixD C(P.n(),P.n()); FitResult f(*P.mps,C); for(auto p : P.p) if( p->isFree() && g.coin() ) p->setResult(val(g,true),six(g.logreal(1e-3,2)),0,0); std::vector<MinuitParameter> want; for(auto p : P.p) want.push_back(*p); std::string out=pbt::scratch()+"/out.opt", in; bool input=g.coin(); std::set<std::string> wanted; std::vector<std::string> keep;
    if( input ){ in=pbt::scratch()+"/in.opt"; std::ofstream os(in); std::set<std::string> seen; auto order=P.p; g.shuffle(order);
      for(auto p : order){ std::string nm=p->name(), stem; bool re=nm.size()>3&&nm.substr(nm.size()-3)=="_Re", im=nm.size()>3&&nm.substr(nm.size()-3)=="_Im"; stem=nm.substr(0,nm.size()>3?nm.size()-3:0); bool cx=(re&&P.mps->find(stem+"_Im"))||(im&&P.mps->find(stem+"_Re")); if( g.chance(1,4) ){ std::string k=g.pick({std::string("EventType D0 K- pi+"),std::string("# comment"),std::string("Some::Option 3 4  5"),std::string(""),std::string("Alias = x + 2")}); os<<k<<"\n"; if(!k.empty()) keep.push_back(k); }
        if( cx && !P.mps->find(stem) ){ if( seen.insert(stem).second ){ os<<stem<<" Free 1 0.1 Free 2 0.1\n"; wanted.insert(stem+"_Re"); wanted.insert(stem+"_Im"); } } else { os<<nm<<(g.coin()?"  ":" ")<<"Fix 7.5 0"<<"\n"; wanted.insert(nm); } } }
    else for(auto p : P.p) wanted.insert(p->name());
    if( g.coin() ) f.writeOptions(out,in); else { std::ofstream os(out); f.writeOptions(os,in); }
    MinuitParameterSet q; q.loadFromFile(out); size_t found=0; for(auto& w : want){ if( !wanted.count(w.name()) ) continue; auto p=q.find(w.name()); g.require(p!=nullptr,"the parameter "+w.name()+" is missing from the written options"); ++found; g.require(p->flag()==w.flag(),"flag of "+w.name()+" read back"); g.close("value of "+w.name()+" read back",p->mean(),w.mean(),0,6e-7); g.close("step of "+w.name()+" read back",p->stepInit(),w.err(),0,6e-7); g.close("lower limit of "+w.name()+" read back",p->minInit(),w.minInit(),0,6e-7); g.close("upper limit of "+w.name()+" read back",p->maxInit(),w.maxInit(),0,6e-7); }
    std::ifstream is(out); std::string line; std::vector<std::string> lines; while(std::getline(is,line)) lines.push_back(line); for(auto& k : keep){ auto it=std::find(lines.begin(),lines.end(),k); g.require(it!=lines.end(),"the line '"+k+"' of the input is missing from the output"); lines.erase(it); } g.evals(found); g.label(input?"edited":"plain"); if( found>1 ) g.nontrivial(); }

  void minimise(pbt::Gen& g){
    auto P=pars(g,1,6,false,false,5); std::vector<size_t> id; for(size_t i=0;i<P.n();++i) if( P.p[i]->isFree() ) id.push_back(i); std::vector<double> sd, x0; for(auto i : id){ (void)i; sd.push_back(g.logreal(1e-2,2)); x0.push_back(g.real(-2,2)); }
    auto C=covariance(g,sd); Mat I=id.empty()?Mat():inverse(C); for(size_t a=0;a<I.size();++a) for(size_t b=0;b<a;++b) I[a][b]=I[b][a]=0.5*(I[a][b]+I[b][a]); double off=g.real(-10,10); auto all=means(P.p); size_t calls=0; auto fcn=[&,id](){ ++calls; std::vector<double> d; for(size_t k=0;k<id.size();++k) d.push_back(P.p[id[k]]->mean()-x0[k]); return off+quadForm(d,I,d); };
    for(auto i : id) if( P.p[i]->minInit()!=0 || P.p[i]->maxInit()!=0 ) P.p[i]->setLimits(g.coin()?-100:-400,300); // the optimum is inside
    std::function<double(void)> fn=fcn; Minimiser mini(fn,P.mps.get()); mini.setPrintLevel(PrintLevel::Quiet); g.require(mini.nPars()==id.size(),"number of free parameters of the fit");
    // optional constraints: Gaussian terms on free parameters
    Mat H=I; std::vector<double> rhs(id.size(),0); int nc=id.empty()?0:g.range(0,2); std::vector<std::unique_ptr<GaussianConstraint>> keep; struct Con{ size_t k; double m,s; }; std::vector<Con> cons;
    for(int c=0;c<nc;++c){ size_t k=g.draw(id.size()); double m=g.real(-2,2), s=sd[k]*g.logreal(0.2,5); keep.emplace_back(new GaussianConstraint()); std::ostringstream o; o.precision(17); o<<"GaussianConstraint "<<P.names[id[k]]<<" "<<m<<" "<<s; keep.back()->configure(o.str(),*P.mps); mini.addExtendedTerm(keep.back().get()); H[k][k]+=1/(s*s); rhs[k]+=(m-x0[k])/(s*s); cons.push_back({k,m,s}); g.desc(o.str()+"; "); }
    // the function given to the minimiser: value plus constraints, parameters set as asked
    { std::vector<double> x; for(size_t k=0;k<id.size();++k) x.push_back(g.real(-3,3)); double got=mini(x.data()); std::vector<double> d; for(size_t k=0;k<id.size();++k){ d.push_back(x[k]-x0[k]); g.require(P.p[id[k]]->mean()==x[k],"parameter not set by the minimiser"); } double want=off+quadForm(d,I,d); for(auto& c : cons) want+=(x[c.k]-c.m)*(x[c.k]-c.m)/(c.s*c.s); g.close("function that is minimised",got,want,1e-9,1e-9*(1+quadAbs(d,I,d))); for(size_t k=0;k<id.size();++k) P.p[id[k]]->setCurrentFitVal(all[id[k]]); }
    // central differences of a function whose values differ widely from those at the optimum are imprecise
    { std::vector<double> d; for(size_t k=0;k<id.size();++k) d.push_back(all[id[k]]-x0[k]); g.assume(id.empty()||quadAbs(d,I,d)<1e9); }
    Mat V=id.empty()?Mat():inverse(H); double fOpt=0; auto opt=x0; { auto d=solve(H,V,rhs); for(size_t a=0;a<id.size();++a) opt[a]+=d[a]; } for(auto x : opt) g.assume(std::fabs(x)<90); mini.doFit();
    { std::vector<double> d; for(size_t k=0;k<id.size();++k) d.push_back(opt[k]-x0[k]); fOpt=off+quadForm(d,I,d); }
    auto full=mini.covMatrixFull(); auto red=mini.covMatrix(); g.require((size_t)red.GetNrows()==id.size() && (size_t)full.GetNrows()==P.n(),"sizes of the covariance matrices"); Mat want(P.n(),std::vector<double>(P.n(),0)); double ct=2e-3; for(size_t a=0;a<id.size();++a) for(size_t b=0;b<id.size();++b) want[id[a]][id[b]]=V[a][b];
    auto sc=[&](size_t i, size_t j){ return std::sqrt(want[i][i]*want[j][j]); };
    for(size_t k=0;k<id.size();++k){ auto p=P.p[id[k]]; double s=std::sqrt(V[k][k]); g.close("fitted value of "+p->name(),p->mean(),opt[k],0,ct*s); g.close("uncertainty of "+p->name(),p->err(),s,ct); g.close("lower uncertainty",p->errNeg(),s,ct); g.close("upper uncertainty",p->errPos(),s,ct); for(size_t j=0;j<id.size();++j) g.close("covariance of the fit",red(k,j),V[k][j],0,ct*sc(id[k],id[j])); }
    for(size_t i=0;i<P.n();++i){ if( std::find(id.begin(),id.end(),i)==id.end() ) g.require(P.p[i]->mean()==all[i],"the fit changed the fixed parameter "+P.names[i]); for(size_t j=0;j<P.n();++j) g.close("full covariance of the fit",full(i,j),want[i][j],0,ct*sc(i,j)+1e-300); }
    g.close("value at the minimum",mini.FCN(),fOpt,1e-3,1e-3*(1+std::fabs(fOpt-off))); FitResult fr(mini); std::vector<MinuitParameter> ps; for(auto p : P.p) ps.push_back(*p); Mat got(P.n(),std::vector<double>(P.n())); for(size_t i=0;i<P.n();++i) for(size_t j=0;j<P.n();++j) got[i][j]=full(i,j); checkResult(g,fr,ps,got,0,0,"result of the fit"); g.close("-2LL of the result",fr.LL(),mini.FCN(),1e-12); g.require(fr.status()==mini.status() && fr.status()==0,"status"); 
    auto rf=mini.fitResult(); g.require(rf.NPar()==id.size(),"ROOT result: number of parameters"); for(size_t k=0;k<id.size();++k){ g.require(rf.ParName(k)==P.names[id[k]],"ROOT result: name"); g.close("ROOT result: value",rf.Value(k),P.p[id[k]]->mean(),1e-12); g.close("ROOT result: error",rf.Error(k),P.p[id[k]]->err(),1e-12); for(size_t j=0;j<id.size();++j) g.close("ROOT result: covariance",rf.CovMatrix(k,j),red(k,j),1e-9); }
    if( !id.empty() && g.coin() ){ size_t k=g.draw(id.size()); auto p=P.p[id[k]]; double v=p->mean(), e=p->err(); mini.minos(p); g.require(p->mean()==v && p->err()==e,"minos changed the value"); g.close("lower uncertainty of minos",p->errNeg(),-0.5*e,1e-9); g.close("upper uncertainty of minos",p->errPos(),1.5*e,1e-9); for(size_t j=0;j<id.size();++j) g.close("value after minos",P.p[id[j]]->mean(),rf.Value(j),1e-12); }
    if( !P.p.empty() && g.coin() ){ auto p=g.pick(P.p); double v=p->mean(), lo=g.real(-2,0), hi=lo+g.real(0.5,2), st=g.real(0.1,0.7); auto gr=std::unique_ptr<TGraph>(mini.scan(p,lo,hi,st)); g.require(p->mean()==v,"scan changed the parameter"); int n=0; for(double s=lo;s<hi;s+=st) ++n; g.require(gr->GetN()==n,"number of points of a scan"); g.label("scan"); }
    if( id.size()>1 && g.coin() ){ // fix one and fit again
      size_t k=g.draw(id.size()); double v=P.p[id[k]]->mean()+g.real(-1,1)*std::sqrt(V[k][k]); P.p[id[k]]->setCurrentFitVal(v); P.p[id[k]]->fix(); mini.prepare(); mini.setPrintLevel(PrintLevel::Quiet); g.require(mini.nPars()==id.size()-1,"number of free parameters after fixing one"); mini.doFit(); std::vector<size_t> r; for(size_t a=0;a<id.size();++a) if(a!=k) r.push_back(a); Mat HH(r.size(),std::vector<double>(r.size())); std::vector<double> b(r.size()); for(size_t a=0;a<r.size();++a){ b[a]=rhs[r[a]]-H[r[a]][k]*(v-x0[k]); for(size_t c=0;c<r.size();++c) HH[a][c]=H[r[a]][r[c]]; } auto W=inverse(HH); auto y=solve(HH,W,b); g.require(P.p[id[k]]->mean()==v,"the fit changed a parameter fixed later"); for(size_t a=0;a<r.size();++a){ double o=x0[r[a]]+y[a]; double s=std::sqrt(W[a][a]); g.close("value of the second fit",P.p[id[r[a]]]->mean(),o,0,ct*s); g.close("uncertainty of the second fit",P.p[id[r[a]]]->err(),s,ct); } auto f2=mini.covMatrixFull(); for(size_t i=0;i<P.n();++i) g.require(f2(id[k],i)==0,"covariance of a fixed parameter"); g.label("refit"); }
    if( id.size()>1 ) g.nontrivial(); g.evals(id.size()*id.size()+1); }

  void constraint(pbt::Gen& g){
    MinuitParameterSet mps; static const std::vector<std::string> res{"rho(770)0","K*(892)0","a(1)(1260)+","f(2)(1270)0","K(1)(1270)+","phi(1020)0","Delta(1232)++"}; bool pdg=g.coin(); std::string name; double m, s; GaussianConstraint c; std::ostringstream o; o.precision(17);
    if( pdg ){ auto r=g.pick(res); auto pp=ParticlePropertiesList::get(r); bool mass=g.coin(); name=r+(mass?"_mass":"_width"); m=mass?pp->mass():pp->width(); s=mass?pp->mErrPlus():pp->wErrPlus(); o<<"GaussianConstraint "<<name<<" PDG"; g.assume(s>0); } else { name=g.pick({std::string("x"),std::string("D0{a,b}_Re"),std::string("rho(770)0_mass")}); m=val(g,false); s=g.logreal(1e-3,10); o<<"GaussianConstraint "<<name<<" "<<m<<" "<<s; g.nontrivial(); }
    mps.add("other",Flag::Free,1,0.1,0,0); auto p=mps.add(name,Flag::Free,val(g,false),0.1,0,0); g.desc(o.str()); bool viaFactory=g.coin(); std::unique_ptr<ExtendLikelihoodBase> t(viaFactory?c.create():nullptr); ExtendLikelihoodBase& e = viaFactory?*t:c; e.configure(o.str(),mps); for(int i=0;i<3;++i){ double x=m+g.real(-5,5)*s; p->setCurrentFitVal(x); double d=(p->mean()-m)/s; g.close("log likelihood of the constraint",e(),-0.5*d*d,1e-9,1e-12*(1+std::fabs(m/s))); } g.evals(3); }
}
int main(int argc, char** argv){
  pbt::Check c("P27","several (correlated) free parameters");
  c.assume("ROOT is not installed: matrices and the minimiser are stand-ins, the latter Newton's method with exact second differences of quadratic functions");
  c.assume("no blinded parameters");
  c.prop("linear",6000,100000,linear); c.prop("gauss",300,4000,gauss); c.prop("result",3000,50000,result); c.prop("options",3000,50000,options); c.prop("minimise",3000,50000,minimise); c.prop("constraint",3000,30000,constraint);
  return c.main(argc,argv);
}
