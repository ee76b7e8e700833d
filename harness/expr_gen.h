// Random AmpGen expressions together with an independent reference value (and a running error
// bound) at a set of evaluation points. Expressions are built with the public operators and
// functions only; the reference never looks at the AmpGen object.
#ifndef VERIF_EXPRGEN_H
#define VERIF_EXPRGEN_H 1
#include "pbt.h"
#include "AmpGen/Expression.h"
#include "AmpGen/Array.h"

namespace eg {
  using AmpGen::Expression;
  typedef std::complex<double> cplx;
  constexpr double EPS = 2.3e-16;

  struct Node { Expression e; std::vector<cplx> v; std::vector<double> err; bool cpx=false; bool isConst=false; bool vec=false; std::vector<double> mag; double terms=1; int size=1; std::string txt; };

  struct Options {
    bool avx=false;        // restrict to what the vectorised code generator supports
    bool complexOk=true, ternary=true, cse=true, arrays=false, pow=true, trig=true, lambda=false, fmodOk=false;
    bool comparisonsAsValues=false;
    bool cseOnlyCompound=false;
    int maxSize=25;
  };

  struct Env {
    pbt::Gen& g; Options o; size_t nPoints;
    std::vector<std::string> evNames; std::vector<std::vector<double>> ev;     // [point][var]
    std::vector<std::string> parNames; std::vector<std::vector<double>> par;   // [point][par]
    std::vector<std::function<double()>> lambdas; std::vector<std::vector<double>> lambdaVal; // [point][lambda]
    std::vector<Node> pool; size_t used=0;
    Env(pbt::Gen& g, const Options& o, size_t n) : g(g), o(o), nPoints(n) {}

    Node leafConst(cplx c, bool cpx){ Node n; n.e = cpx ? Expression(cplx(c)) : Expression(c.real()); n.v.assign(nPoints,c); n.err.assign(nPoints, EPS*std::abs(c)); n.cpx = cpx && c.imag()!=0; n.isConst=true; n.txt = cpx ? "(" + pbt::str(c.real()) + "," + pbt::str(c.imag()) + "i)" : pbt::str(c.real()); return n; }
    double constant(){ switch( g.weighted({3,3,3,1,1}) ){ case 0: return g.range(-4,4); case 1: return g.range(-400,400)/100.; case 2: return g.uniform(-3,3); case 3: return g.logreal(1e-4,1e4); default: return g.uniform(-3,3)*1e-2; } }
    Node evVar(size_t i){ Node n; n.vec=true; n.e = AmpGen::Parameter(evNames[i], ev[0][i]); n.txt = evNames[i]; for(size_t p=0;p<nPoints;++p){ n.v.push_back(ev[p][i]); n.err.push_back(EPS*std::fabs(ev[p][i])); } return n; }
    Node parVar(size_t i){ Node n; n.e = AmpGen::Parameter(parNames[i], par[0][i]); n.txt = parNames[i]; for(size_t p=0;p<nPoints;++p){ n.v.push_back(par[p][i]); n.err.push_back(EPS*std::fabs(par[p][i])); } return n; }
    Node leaf(bool wantCpx){
      if( wantCpx && o.complexOk ){
        if( g.coin() && parNames.size() >= 2 ){ size_t i=g.draw(parNames.size()), j=g.draw(parNames.size()); Node n; n.e = AmpGen::ComplexParameter(AmpGen::Parameter(parNames[i],par[0][i]), AmpGen::Parameter(parNames[j],par[0][j])); n.cpx=true; n.txt = "cpx(" + parNames[i] + "," + parNames[j] + ")"; for(size_t p=0;p<nPoints;++p){ cplx c(par[p][i],par[p][j]); n.v.push_back(c); n.err.push_back(EPS*std::abs(c)); } return n; }
        return leafConst(cplx(constant(), g.coin()?constant():1), true);
      }
      switch( g.weighted({4, evNames.empty()?0:5, parNames.empty()?0:4, lambdas.empty()?0:1}) ){
        case 0: return leafConst(constant(), false);
        case 1: return evVar(g.draw(evNames.size()));
        case 2: return parVar(g.draw(parNames.size()));
        default: return lambdaVar(g.draw(lambdas.size()));
      }
    }
    Node lambdaVar(size_t i){ Node n; auto f = lambdas[i]; n.e = AmpGen::LambdaExpression(f); n.txt = "lambda" + std::to_string(i); for(size_t p=0;p<nPoints;++p){ n.v.push_back(lambdaVal[p][i]); n.err.push_back(EPS*std::fabs(lambdaVal[p][i])); } return n; }
    template <class F> bool all(const Node& a, F f){ for(size_t p=0;p<nPoints;++p) if( !f(a.v[p], a.err[p]) ) return false; return true; }
    template <class F, class D> void unary(Node& n, const Node& a, F f, D d){ n.v.clear(); n.err.clear(); n.mag.clear(); std::vector<double> am = a.mag; n.mag = am; for(size_t p=0;p<am.size();++p) n.mag[p] = am[p]*std::abs(d(a.v[p])); for(size_t p=0;p<nPoints;++p){ cplx y = f(a.v[p]); n.v.push_back(y); n.err.push_back( std::abs(d(a.v[p]))*a.err[p] + 2*EPS*std::abs(y) ); } }
    bool sane(const Node& n){ return all(n, [](cplx v, double e){ return std::isfinite(v.real()) && std::isfinite(v.imag()) && std::abs(v) < 1e6 && (std::abs(v) == 0 || std::abs(v) > 1e-7) && e < 1e-9*std::max(1e-3,std::abs(v)); }); }

    Node binary(const Node& a, const Node& b, int op){
      Node n; n.size = a.size + b.size + 1; n.cpx = a.cpx || b.cpx; n.vec = a.vec || b.vec; n.terms = op<2 ? a.terms+b.terms : a.terms*b.terms;
      for(size_t p=0;p<nPoints;++p){ cplx x=a.v[p], y=b.v[p]; double ex=a.err[p], ey=b.err[p]; cplx r; double e;
        switch(op){ case 0: r=x+y; e=ex+ey; break; case 1: r=x-y; e=ex+ey; break; case 2: r=x*y; e=ex*std::abs(y)+ey*std::abs(x); break; default: r=x/y; e=ex/std::abs(y)+ey*std::abs(x)/std::norm(y); }
        n.v.push_back(r); n.err.push_back(e + 2*EPS*std::abs(r));
        double ma = a.mag.empty() ? std::abs(x) : a.mag[p], mb = b.mag.empty() ? std::abs(y) : b.mag[p]; n.mag.push_back( op<2 ? ma+mb : op==2 ? ma*mb : ma*mb/std::norm(y) ); }
      switch(op){ case 0: n.e = a.e + b.e; n.txt = "(" + a.txt + " + " + b.txt + ")"; break; case 1: n.e = a.e - b.e; n.txt = "(" + a.txt + " - " + b.txt + ")"; break; case 2: n.e = a.e * b.e; n.txt = "(" + a.txt + "*" + b.txt + ")"; break; default: n.e = a.e / b.e; n.txt = "(" + a.txt + "/" + b.txt + ")"; }
      return n;
    }
    // vectorised code: comparisons and selections are between per-event quantities
    Node toVec(const Node& a){ if( !o.avx || a.vec ) return a; Node n = binary(a, evVar(g.draw(evNames.size())), 0); return sane(n) ? n : evVar(0); }
    struct Cond { Expression e; std::vector<bool> b; std::string txt; int size; };
    Cond cond(int d){
      Node a = toVec(gen(d-1,false)), b = gen(d-1,false); int k = g.range(0,3);
      for(size_t p=0;p<nPoints;++p) if( std::abs(a.v[p]-b.v[p]) < 1e-6*(std::abs(a.v[p])+std::abs(b.v[p])+1e-3) ) { b = leafConst( a.v[0].real()+1, false ); break; }
      for(size_t p=0;p<nPoints;++p) if( std::abs(a.v[p]-b.v[p]) < 1e-6*(std::abs(a.v[p])+std::abs(b.v[p])+1e-3) ) { a = o.avx ? evVar(0) : leafConst(1,false); b = leafConst(77,false); break; }
      Cond c; c.size=a.size+b.size+1; for(size_t p=0;p<nPoints;++p) c.b.push_back( k%2==0 ? a.v[p].real() < b.v[p].real() : a.v[p].real() > b.v[p].real() );
      switch(k){ case 0: c.e = a.e < b.e; c.txt = a.txt + " < " + b.txt; break; case 1: c.e = a.e > b.e; c.txt = a.txt + " > " + b.txt; break; case 2: c.e = a.e <= b.e; c.txt = a.txt + " <= " + b.txt; break; default: c.e = a.e >= b.e; c.txt = a.txt + " >= " + b.txt; }
      if( d > 1 && g.chance(1,4) ){ Cond r = cond(d-1); c.size += r.size; bool isAnd = g.coin(); c.e = isAnd ? (c.e && r.e) : (c.e || r.e); c.txt = "(" + c.txt + (isAnd?" && ":" || ") + r.txt + ")"; for(size_t p=0;p<nPoints;++p) c.b[p] = isAnd ? (c.b[p] && r.b[p]) : (c.b[p] || r.b[p]); }
      return c;
    }
    Node gen(int d, bool wantCpx){ Node n = gen0(d, wantCpx); if( !sane(n) ) n = leaf(wantCpx); if( n.size > 1 && !n.isConst && pool.size() < 12 ) pool.push_back(n); return n; }
    Node gen0(int d, bool wantCpx){
      ++used;
      if( d <= 0 || (int)used > o.maxSize ) return leaf(wantCpx);
      if( !pool.empty() && g.chance(1,7) ){ const Node& p = pool[g.draw(pool.size())]; if( !p.cpx || wantCpx ) return p; }
      int k = g.weighted({1, 14, 8, o.ternary?2:0, o.cse?4:0, o.arrays && !evNames.empty()?1:0, wantCpx?3:0, o.pow?1:0});
      switch(k){
        case 0: return leaf(wantCpx);
        case 1: { bool lc = wantCpx && g.coin(), rc = wantCpx && (!lc || g.coin()); Node a = gen(d-1,lc), b = gen(d-1,rc); int op=g.range(0,3);
          if( !a.cpx && !b.cpx && g.chance(1,15) && all(b,[](cplx v,double){ return std::abs(v) > 0.1; }) ){ bool ok=true; for(size_t p=0;p<nPoints;++p){ double q=a.v[p].real()/b.v[p].real(); if( std::abs(q)>50 || std::abs(q-std::round(q))<1e-5 ) ok=false; } if( ok && ( !o.avx || (a.vec && b.vec) ) ){ Node n; n.size=a.size+b.size+1; n.vec=a.vec||b.vec; n.terms=a.terms+b.terms; n.e=AmpGen::Fmod(a.e,b.e); n.txt="fmod("+a.txt+","+b.txt+")"; for(size_t p=0;p<nPoints;++p){ double x=a.v[p].real(), y=b.v[p].real(); n.v.push_back(std::fmod(x,y)); n.err.push_back(a.err[p]+std::abs(x/y)*b.err[p]+4*EPS*(std::abs(x)+std::abs(y))); } return n; } }
          if( op==3 && !all(b,[](cplx v,double){ return std::abs(v) > 1e-3; }) ) op = 2;
          Node n = binary(a,b,op); if( !sane(n) ) n = binary(a,b,2); return n; }
        case 2: return unaryFn(d, wantCpx);
        case 3: { Cond c = cond(d-1); Node a = gen(d-1,wantCpx), b = gen(d-1,wantCpx);
          a = toVec(a); b = toVec(b);
          Node n; n.cpx = a.cpx||b.cpx; n.vec=true; n.size=a.size+b.size+c.size; n.terms=std::max(a.terms,b.terms); n.e = AmpGen::Ternary(c.e,a.e,b.e); n.txt = "(" + c.txt + " ? " + a.txt + " : " + b.txt + ")"; for(size_t p=0;p<nPoints;++p){ n.v.push_back(c.b[p]?a.v[p]:b.v[p]); n.err.push_back(c.b[p]?a.err[p]:b.err[p]); } return n; }
        case 4: { Node a = gen(d-1,wantCpx); Node n=a; bool s=g.chance(1,3); n.e = AmpGen::make_cse(a.e,s); n.txt = (s?"cse!(":"cse(") + a.txt + ")"; return n; }
        case 5: { int N = (int)evNames.size(); Node a = gen(d-1,false); Node idx = binary(a, leafConst(g.range(1,3),false), 2);
          if( g.chance(1,3) ){ Cond c = cond(d-1); int k1=g.range(-1,N+1), k2=g.range(-1,N+1); idx=Node(); idx.size=c.size+2; idx.e=AmpGen::Ternary(c.e,AmpGen::Expression(double(k1)),AmpGen::Expression(double(k2))); idx.txt="("+c.txt+" ? "+std::to_string(k1)+" : "+std::to_string(k2)+")"; for(size_t p=0;p<nPoints;++p){ idx.v.push_back(c.b[p]?k1:k2); idx.err.push_back(0); } } 
          else if( !all(idx,[](cplx v,double){ double r=v.real(); return std::fabs(r-std::round(r))>1e-6; }) ) return a;
          Node n; n.e = AmpGen::Array(AmpGen::Parameter(evNames[0],ev[0][0]), N, idx.e); n.vec=true; n.txt = "x[" + idx.txt + "]"; n.size = idx.size+2;
          for(size_t p=0;p<nPoints;++p){ double r=idx.v[p].real(); int i = (r>=0 && r<N) ? (int)r : 0; n.v.push_back(ev[p][i]); n.err.push_back(EPS*std::fabs(ev[p][i])); } return n; }
        case 6: { Node re=gen(d-1,false), im=gen(d-1,false); return binary(re, binary(leafConst(cplx(0,1),true), im, 2), 0); }
        default: { Node a = gen(d-1,false); Node n=a; int m = g.range(0,2); n.size=a.size+1;
          if( m==0 ){ int q = g.chance(1,5) ? g.range(-7,8) : g.range(-3,4); if( std::abs(q)>4 && !all(a,[](cplx v,double){return std::abs(v)>0.2 && std::abs(v)<5;}) ) q/=2; if( q<0 && !all(a,[](cplx v,double){return std::abs(v)>1e-2;}) ) q=-q; n.e = AmpGen::fcn::fpow(a.e,q); if( q==0 ) n.vec=false; n.txt = "fpow(" + a.txt + "," + std::to_string(q) + ")"; unary(n,a,[q](cplx x){ return cplx(std::pow(x.real(),q)); },[q](cplx x){ return cplx(q==0?0:q*std::pow(x.real(),q-1)); }); n.terms = std::pow(a.terms,std::abs(q)); n.mag.clear(); for(size_t p=0;p<nPoints;++p){ n.err[p]+=8*EPS*std::abs(n.v[p]); double ma = a.mag.empty() ? std::abs(a.v[p]) : a.mag[p], av = std::abs(a.v[p]); n.mag.push_back( q>=0 ? std::pow(ma,q) : std::pow(ma/(av*av),-q) ); } n.isConst=false; return n; }
          if( o.avx ) return a;
          double ex = m==1 ? g.range(0,5) : g.range(-25,25)/10.;
          if( !all(a,[](cplx v,double){return v.real()>1e-2;}) ) return a;
          n.isConst=false; n.e = AmpGen::fcn::pow(a.e, Expression(ex)); n.txt = "pow(" + a.txt + "," + pbt::str(ex) + ")"; unary(n,a,[ex](cplx x){ return cplx(std::pow(x.real(),ex)); },[ex](cplx x){ return cplx(ex*std::pow(x.real(),ex-1)); }); for(size_t p=0;p<nPoints;++p) n.err[p]+=16*EPS*std::abs(n.v[p]); return n; }
      }
    }
    int forced=-1; // the operator wanted at the top: 0-7 complex functions, 8-21 real functions
    Node topFn(int d){ forced = g.draw( o.complexOk ? 23 : 15 ); if( !o.complexOk ) forced += 8; if( o.avx && forced > 17 ) forced -= 10; Node n = unaryFn(d,true); forced=-1; return sane(n) ? n : leaf(true); }
    Node unaryFn(int d, bool wantCpx){
      int want=forced; forced=-1;
      bool inner = wantCpx && g.coin();
      if( o.complexOk && ( want>=0 ? want<8 : g.chance(1,5) ) ){ // complex -> real or complex -> complex projections
        Node a = gen(d-1, true); if( a.cpx && !(o.avx && AmpGen::is<AmpGen::Constant>(a.e)) ){ Node n=a; n.size=a.size+1; n.isConst=false; int k = want>=0 ? std::min(want,5) : wantCpx ? g.range(0,5) : g.range(0,3);
          using namespace AmpGen;
          switch(k){
            case 0: n.e = Real(a.e); n.cpx=false; n.txt="real("+a.txt+")"; unary(n,a,[](cplx x){return cplx(x.real());},[](cplx){return cplx(1);}); return n;
            case 1: n.e = Imag(a.e); n.cpx=false; n.txt="imag("+a.txt+")"; unary(n,a,[](cplx x){return cplx(x.imag());},[](cplx){return cplx(1);}); return n;
            case 2: n.e = fcn::norm(a.e); n.cpx=false; n.txt="norm("+a.txt+")"; unary(n,a,[](cplx x){return cplx(std::norm(x));},[](cplx x){return cplx(2*std::abs(x));}); return n;
            case 3: n.e = fcn::abs(a.e); n.cpx=false; n.txt="abs("+a.txt+")"; unary(n,a,[](cplx x){return cplx(std::abs(x));},[](cplx){return cplx(1);}); return n;
            case 4: n.e = fcn::conj(a.e); n.txt="conj("+a.txt+")"; unary(n,a,[](cplx x){return std::conj(x);},[](cplx){return cplx(1);}); return n;
            default: { int f = want>=5 ? want-5 : g.range(0,2);
              if( f==0 && all(a,[](cplx v,double){return std::abs(v.imag())>1e-3*std::abs(v) && std::abs(v)>1e-3;}) ){ n.e = fcn::sqrt(a.e); n.txt="sqrt("+a.txt+")"; unary(n,a,[](cplx x){return std::sqrt(x);},[](cplx x){return 0.5/std::sqrt(x);}); for(size_t p=0;p<nPoints;++p) n.err[p]+=2e-12*std::abs(n.v[p]); return n; }
              if( f==1 && all(a,[](cplx v,double){return v.real()<5 && std::abs(v.imag())<50;}) ){ n.e = fcn::exp(a.e); n.txt="exp("+a.txt+")"; unary(n,a,[](cplx x){return std::exp(x);},[](cplx x){return std::exp(x);}); for(size_t p=0;p<nPoints;++p) n.err[p]+=16*EPS*std::abs(n.v[p]); return n; }
              if( f==2 && all(a,[](cplx v,double){return std::abs(v)>1e-2 && !(v.real()<0 && std::abs(v.imag())<1e-3*std::abs(v)) && std::abs(std::log(v))>1e-2;}) ){ n.e = fcn::log(a.e); n.txt="log("+a.txt+")"; unary(n,a,[](cplx x){return std::log(x);},[](cplx x){return 1./x;}); for(size_t p=0;p<nPoints;++p) n.err[p]+=64*EPS; return n; }
              return a; }
          } }
      }
      Node a = gen(d-1,false); (void)inner; Node n=a; n.size=a.size+1; n.cpx=false; n.isConst=false;
      using namespace AmpGen; auto pos=[&](double m){ return all(a,[m](cplx v,double){return v.real()>m;}); };
      int k = want>=8 ? want-8 : g.range(0, o.avx ? 9 : 14);
      auto done=[&](double extra=4){ for(size_t p=0;p<nPoints;++p) n.err[p]+=extra*EPS*std::abs(n.v[p]); return n; };
      switch(k){
        case 0: n.e = -a.e; n.txt="-"+a.txt; unary(n,a,[](cplx x){return -x;},[](cplx){return cplx(1);}); return n;
        case 1: n.e = fcn::sin(a.e); n.txt="sin("+a.txt+")"; if(!all(a,[](cplx v,double){return std::abs(v)<100;})) return a; unary(n,a,[](cplx x){return cplx(std::sin(x.real()));},[](cplx x){return cplx(1);}); return done(16);
        case 2: n.e = fcn::cos(a.e); n.txt="cos("+a.txt+")"; if(!all(a,[](cplx v,double){return std::abs(v)<100;})) return a; unary(n,a,[](cplx x){return cplx(std::cos(x.real()));},[](cplx x){return cplx(1);}); return done(16);
        case 3: if(!all(a,[](cplx v,double){return v.real()<8;})) return a; n.e = fcn::exp(a.e); n.txt="exp("+a.txt+")"; unary(n,a,[](cplx x){return cplx(std::exp(x.real()));},[](cplx x){return cplx(std::exp(x.real()));}); return done(16);
        case 4: if(!pos(1e-6)) return a; n.e = fcn::sqrt(a.e); n.txt="sqrt("+a.txt+")"; unary(n,a,[](cplx x){return cplx(std::sqrt(x.real()));},[](cplx x){return cplx(0.5/std::sqrt(x.real()));}); return done();
        case 5: n.e = fcn::abs(a.e); n.txt="abs("+a.txt+")"; unary(n,a,[](cplx x){return cplx(std::fabs(x.real()));},[](cplx){return cplx(1);}); return done();
        case 6: if(!pos(1e-3)) return a; n.e = fcn::log(a.e); n.txt="log("+a.txt+")"; unary(n,a,[](cplx x){return cplx(std::log(x.real()));},[](cplx x){return cplx(1./x.real());}); for(auto& e : n.err) e += 16*EPS; return n;
        case 7: if(!pos(1e-3)) return a; n.e = fcn::isqrt(a.e); n.txt="isqrt("+a.txt+")"; unary(n,a,[](cplx x){return cplx(1./std::sqrt(x.real()));},[](cplx x){return cplx(0.5/std::pow(x.real(),1.5));}); return done();
        case 8: if( a.v[0].real() < 0 && AmpGen::is<AmpGen::Constant>(a.e) ) return a;
          if(!all(a,[](cplx v,double e){return std::fabs(v.real())>1e-3;})) return a;
          if( o.complexOk && wantCpx && !o.avx ){ n.e = fcn::complex_sqrt(a.e); n.cpx=true; n.txt="complex_sqrt("+a.txt+")"; unary(n,a,[](cplx x){return x.real()>0?cplx(std::sqrt(x.real())):cplx(0,std::sqrt(-x.real()));},[](cplx x){return cplx(0.5/std::sqrt(std::fabs(x.real())));}); return done(); }
          if( o.avx && !a.vec ) return a; n.e = fcn::safe_sqrt(a.e); n.txt="safe_sqrt("+a.txt+")"; unary(n,a,[](cplx x){return cplx(x.real()>0?std::sqrt(x.real()):0.);},[](cplx x){return cplx(0.5/std::sqrt(std::fabs(x.real())));}); return done();
        case 9: if(!all(a,[](cplx v,double){return std::abs(std::cos(v.real()))>0.05 && std::abs(v)<50;})) return a; n.e = fcn::tan(a.e); n.txt="tan("+a.txt+")"; unary(n,a,[](cplx x){return cplx(std::tan(x.real()));},[](cplx x){double c=std::cos(x.real()); return cplx(1/(c*c));}); return done(64);
        case 10: if(!all(a,[](cplx v,double){return std::fabs(v.real())<0.99;})) return a; n.e = fcn::asin(a.e); n.txt="asin("+a.txt+")"; unary(n,a,[](cplx x){return cplx(std::asin(x.real()));},[](cplx x){return cplx(1/std::sqrt(1-std::norm(x)));}); return done();
        case 11: if(!all(a,[](cplx v,double){return std::fabs(v.real())<0.99;})) return a; n.e = fcn::acos(a.e); n.txt="acos("+a.txt+")"; unary(n,a,[](cplx x){return cplx(std::acos(x.real()));},[](cplx x){return cplx(1/std::sqrt(1-std::norm(x)));}); return done();
        case 12: n.e = fcn::atan(a.e); n.txt="atan("+a.txt+")"; unary(n,a,[](cplx x){return cplx(std::atan(x.real()));},[](cplx x){return cplx(1/(1+std::norm(x)));}); return done();
        case 13: if(!all(a,[](cplx v,double){return v.real()>0.1 && v.real()<20;}) || AmpGen::is<AmpGen::Constant>(a.e)) return a; n.e = LGamma(a.e); n.txt="lgamma("+a.txt+")"; unary(n,a,[](cplx x){return cplx(std::lgamma(x.real()));},[](cplx x){return cplx(1/x.real()+std::log(1+x.real())+1);}); for(auto& e : n.err) e += 64*EPS; return done(16);
        default: { Node b = gen(d-1,false); if( !all(a,[](cplx v,double){return std::abs(v)>1e-2;}) || !all(b,[](cplx v,double){return std::abs(v)>1e-2;}) ) return a; n.size += b.size; n.e = fcn::atan2(a.e,b.e); n.txt="atan2("+a.txt+","+b.txt+")"; n.mag.clear(); n.v.clear(); n.err.clear(); for(size_t p=0;p<nPoints;++p){ double y=a.v[p].real(), x=b.v[p].real(); n.v.push_back(std::atan2(y,x)); n.err.push_back((a.err[p]+b.err[p])/std::hypot(x,y)+8*EPS); } return n; }
      }
    }
  };
}
#endif
