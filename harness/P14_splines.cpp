// P14: splines in compiled functions are the natural cubic splines through the current values of their knots.
#include "jit.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/Spline.h"
#include "AmpGen/simd/avx2d_types.h"
using namespace AmpGen;
typedef std::complex<double> C;
namespace {
  const C I(0,1);
  // natural cubic spline by the textbook tridiagonal system
  struct Nat { double lo, hi; std::vector<double> y, m; void solve(){ int n=y.size(); double h=(hi-lo)/(n-1); m.assign(n,0); std::vector<double> c(n,0), d(n,0); for(int i=1;i<n-1;++i){ double r=6*(y[i+1]-2*y[i]+y[i-1])/(h*h); double w=4-c[i-1]; c[i]=1/w; d[i]=(r-d[i-1])/w; } for(int i=n-2;i>=1;--i) m[i]=d[i]-c[i]*m[i+1]; }
    double operator()(double x) const { int n=y.size(); if( !(x>lo && x<hi) ) return y[n-1]; double h=(hi-lo)/(n-1); int k=std::min(n-2,int((x-lo)/h)); double b=(x-lo-k*h)/h, a=1-b; return a*y[k]+b*y[k+1]+((a*a*a-a)*m[k]+(b*b*b-b)*m[k+1])*h*h/6; }
    double scale() const { double s=0; for(double v : y) s=std::max(s,std::abs(v)); for(double v : m) s=std::max(s,std::abs(v)*(hi-lo)*(hi-lo)/((y.size()-1)*(y.size()-1))); return s; } };
  double q2(double s, double a, double b){ double ma=std::sqrt(a), mb=std::sqrt(b); return (s-(ma+mb)*(ma+mb))*(s-(ma-mb)*(ma-mb))/(4*s); }
  double poly(double z, int L){ switch(L){ case 0: return 1; case 1: return 1+z; case 2: return 9+3*z+z*z; case 3: return 225+45*z+6*z*z+z*z*z; default: return 11025+1575*z+135*z*z+10*z*z*z+z*z*z*z; } }
  double kf(double m, double G){ double g=std::sqrt(m*m*(m*m+G*G)); return std::sqrt(2*std::sqrt(2.)*m*G*g/(M_PI*std::sqrt(m*m+g))); }
  double width(double s, double s1, double s2, double m, double G, double r, int L){ double q=std::max(0.,q2(s,s1,s2)), q0=std::abs(q2(m*m,s1,s2)); return G*(m/std::sqrt(s))*std::sqrt(q/q0)*std::pow(q/q0,L)*poly(q0*r*r,L)/poly(q*r*r,L); }
  struct Fn { std::string name, kind, mod; int L=0; double lo, hi; std::map<std::string,Nat> sp; double m,G,r; };
  const std::vector<std::string> res={"rho(770)0","K*(892)0","f(0)(980)0","a(0)(980)0","K(0)*(1430)0","f(2)(1270)0","phi(1020)0","rho(1450)0"};
  constexpr double S1=0.0196, S2=0.0784;
  C ref(const Fn& f, double s){ auto S=[&](const char* n, double x){ return f.sp.at(n)(x); };
    if( f.kind=="raw" ) return S("Y",s); if( f.kind=="twice" ) return S("Y",s)-2.*S("Y",f.lo+f.hi-s);
    if( f.kind=="DecaySpline" ) return S("FF",q2(s,S1,S2));
    if( f.kind=="MIPWA" ) return f.mod=="Polar" ? S("Re",s)*std::exp(I*S("Im",s)) : S("Re",s)+I*S("Im",s);
    if( f.kind=="InelasticSpline" ) return (S("Eta",s)*std::exp(2.*I*S("Delta",s))-1.)/(2.*I);
    if( f.kind=="FormFactorSpline" ) return S("FF",s)/(f.m*f.m-s-I*f.m*width(s,S1,S2,f.m,f.G,f.r,f.L));
    double z=std::abs(q2(s,S1,S2))*f.r*f.r, F=std::sqrt(poly(0,f.L)/poly(z,f.L)); if( f.mod.find("BL")!=std::string::npos ) F=std::sqrt(std::pow(z,f.L)*poly(1,f.L)/poly(z,f.L)); if( f.mod.find("EFF")!=std::string::npos ) F=std::exp(-z/2);
    double re=f.m*f.m; if( f.mod.find("Dis")!=std::string::npos ) re+=S("dm2",s)-S("dm2",f.m*f.m); return kf(f.m,f.G)*F/(re-s-I*f.m*f.G*S("Gamma",s)/S("Gamma",f.m*f.m)); }
  std::vector<std::string> arrays(const Fn& f){ if( f.kind=="raw" || f.kind=="twice" ) return {"Y"}; if( f.kind=="DecaySpline" || f.kind=="FormFactorSpline" ) return {"FF"}; if( f.kind=="MIPWA" ) return {"Re","Im"}; if( f.kind=="InelasticSpline" ) return {"Eta","Delta"}; return {"Gamma","dm2"}; }
  void values(pbt::Gen& g, Fn& f, MinuitParameterSet& mps, bool first){ for(auto& s : f.sp){ bool pos=s.first=="Gamma"; int mode=g.range(0,3); double c=g.uniform(-2,2); for(size_t i=0;i<s.second.y.size();++i){ double v = pos ? g.uniform(0.5,2) : mode==0 ? c : mode==1 ? c+0.3*i : g.uniform(-3,3); if( first || g.chance(2,3) ) s.second.y[i]=v; std::string n=f.name+"::Spline::"+s.first+"::"+std::to_string(i); if( first ) mps.add(n,g.coin()?Flag::Free:Flag::Fix,s.second.y[i],0.1); else mps[n]->setVal(s.second.y[i]); } s.second.solve(); }
    if( first || g.coin() ){ f.m=g.uniform(0.6,1.8); f.G=g.logreal(0.01,0.5); f.r=g.uniform(0.3,5); } if( first ){ mps.add(f.name+"_mass",Flag::Free,f.m,0.1); mps.add(f.name+"_width",Flag::Free,f.G,0.1); mps.add(f.name+"_radius",Flag::Fix,f.r,0); } else { mps[f.name+"_mass"]->setVal(f.m); mps[f.name+"_width"]->setVal(f.G); mps[f.name+"_radius"]->setVal(f.r); } }
  std::vector<Fn> make(pbt::Gen& g, MinuitParameterSet& mps, bool avx){ int n=g.range(1,8); auto pool=res; g.shuffle(pool); std::vector<Fn> fs; for(int i=0;i<n;++i){ Fn f; f.name=pool[i]; f.kind=g.pick<std::string>({"raw","raw","twice","DecaySpline","GSpline","GSpline","FormFactorSpline","MIPWA","MIPWA","InelasticSpline"}); if( avx && f.kind=="GSpline" ) f.kind="InelasticSpline"; f.L=g.range(0,3); if( f.kind=="GSpline" ) f.mod=g.pick<std::string>({"","EFF","Dis","BL","BL.Dis","EFF.Dis"}); if( f.kind=="MIPWA" ) f.mod=g.pick<std::string>({"","continue","Polar"}); int nk=g.chance(1,5)?3:g.range(3,24); bool round=g.coin(); f.lo=round?0.1*g.range(0,5):g.uniform(0.05,0.5); f.hi=round?f.lo+0.1*(nk-1)*g.range(1,3):f.lo+g.uniform(0.5,4); if( g.chance(1,4) ){ f.lo-=1; if( round ) f.hi=f.lo+0.1*(nk-1)*std::ceil((f.hi-f.lo)/(0.1*(nk-1))); } for(auto& a : arrays(f)) f.sp[a]=Nat{f.lo,f.hi,std::vector<double>(nk),{}};
      if( g.coin() ) OptionsParser::setArg(f.name+"::Spline "+std::to_string(nk)+" "+pbt::str(f.lo)+" "+pbt::str(f.hi)); else { OptionsParser::setArg(f.name+"::Spline"); OptionsParser::setArg(f.name+"::Spline::N "+std::to_string(nk)); OptionsParser::setArg(f.name+"::Spline::Min "+pbt::str(f.lo)); OptionsParser::setArg(f.name+"::Spline::Max "+pbt::str(f.hi)); }
      values(g,f,mps,true); g.desc("\n  " + f.name + " " + f.kind + (f.mod.empty()?"":"."+f.mod) + " L=" + std::to_string(f.L) + " " + std::to_string(nk) + " knots in [" + pbt::str(f.lo) + "," + pbt::str(f.hi) + "]"); g.label(f.kind); fs.push_back(f); } return fs; }
  Expression expr(const Fn& f){ Expression s=Parameter("s"), a=Parameter("s1"), b=Parameter("s2"); if( f.kind=="twice" ) return Spline(f.name+"::Spline::Y",f.sp.at("Y").y.size(),f.lo,f.hi)(s,nullptr) - 2*Spline(f.name+"::Spline::Y",f.sp.at("Y").y.size(),f.lo,f.hi)(f.lo+f.hi-s,nullptr); if( f.kind=="raw" ) return Spline(f.name+"::Spline::Y",f.sp.at("Y").y.size(),f.lo,f.hi)(s,nullptr); return Lineshape::Factory::get(f.kind+(f.mod.empty()?"":"."+f.mod),s,a,b,f.name,f.L,nullptr); }
  std::vector<double> points(pbt::Gen& g, const Fn& f, bool knots){ std::vector<double> r; int nk=f.sp.begin()->second.y.size(); double h=(f.hi-f.lo)/(nk-1); for(int i=0;i<16;++i){ double x; switch(g.range(0,5)){ case 0: x=f.hi+g.uniform(0.01,1); break; case 1: x=f.lo-g.uniform(0.01,0.5); break; case 2: x = knots ? f.lo+h*g.range(1,nk-2) : f.lo+h*(g.draw(nk-1)+g.uniform(0.02,0.98)); break; default: x=f.lo+h*(g.draw(nk-1)+g.uniform(0.02,0.98)); } if( f.kind!="raw" ) x=std::max(x,0.02); r.push_back(x); } return r; }
  void cmp(pbt::Gen& g, const Fn& f, double s, C got, double tol){ C want=ref(f,s); double sc=0; for(auto& p : f.sp) sc=std::max(sc,p.second.scale()); double edge=1e9; for(double x : {s, f.kind=="DecaySpline"?q2(s,S1,S2):s, f.m*f.m}) edge=std::min(edge,std::min(std::abs(x-f.lo),std::abs(x-f.hi))); if( f.kind!="raw" && edge<1e-4 ) return; double t=tol*(1+sc)*(1+std::abs(want))*(1+std::abs(want)); if( !(std::abs(got-want)<=t) ) g.fail(f.kind + (f.mod.empty()?"":"."+f.mod) + " of " + f.name + " at s=" + pbt::str(s) + " is " + pbt::str(got.real()) + "+" + pbt::str(got.imag()) + "i, expected " + pbt::str(want.real()) + "+" + pbt::str(want.imag()) + "i"); g.evals(1); if( s>f.lo && s<f.hi ) g.ntCase(pbt::hashStr(f.name+f.kind+pbt::str(s))); }
  const std::map<std::string,unsigned> evt={{"s",0},{"s1",1},{"s2",2}};
  void scalar(pbt::Gen& g){ MinuitParameterSet mps; auto fs=make(g,mps,false); typedef CompiledExpression<complex_t(const double*, const double*)> CE; std::vector<CE> ce; ce.reserve(fs.size()); for(size_t i=0;i<fs.size();++i) ce.emplace_back(expr(fs[i]),"sp_"+std::to_string(i),evt,&mps); auto so=jit::compileAll(ce);
    for(int round=0;round<4;++round){ if( round ) for(auto& f : fs) values(g,f,mps,false); for(size_t i=0;i<fs.size();++i){ ce[i].prepare(); for(double x : points(g,fs[i],true)){ double ev[3]={x,S1,S2}; cmp(g,fs[i],x,ce[i](ev),1e-9); } } } unlink(so.c_str()); }
  void vectorised(pbt::Gen& g){ typedef AVX2d::real_v RV; typedef AmpGen::Complex<RV> CV; MinuitParameterSet mps; auto fs=make(g,mps,true); typedef CompiledExpression<CV(const double*, const RV*)> CE; std::vector<CE> ce; ce.reserve(fs.size()); for(size_t i=0;i<fs.size();++i) ce.emplace_back(expr(fs[i]),"sp_"+std::to_string(i),evt,&mps); auto so=jit::compileAll(ce,true);
    for(int round=0;round<3;++round){ if( round ) for(auto& f : fs) values(g,f,mps,false); for(size_t i=0;i<fs.size();++i){ ce[i].prepare(); auto x=points(g,fs[i],true); for(size_t k=0;k+4<=x.size();k+=4){ RV ev[3]={RV(x.data()+k),RV(S1),RV(S2)}; CV r=ce[i](ev); for(int l=0;l<4;++l) cmp(g,fs[i],x[k+l],C(r.real().at(l),r.imag().at(l)),1e-8); } } } unlink(so.c_str()); }
}
int main(int argc, char** argv){
  pbt::Check c("P14","the evaluation lies between the first and the last knot");
  c.assume("at least three knots; lineshapes are not evaluated within 1e-4 of the ends of the range");
  c.prop("scalar", 96, 1000, scalar, 180); c.prop("vectorised", 40, 400, vectorised, 180);
  return c.main(argc,argv);
}
