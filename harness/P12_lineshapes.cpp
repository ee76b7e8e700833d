// P12: resonance lineshapes, barrier factors and kinematic helpers against reference formulae.
#include "insitu.h"
#include "particle_gen.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
using namespace AmpGen;
typedef std::complex<double> C;
namespace {
  const C I(0,1);
  double q2(double s, double a, double b){ double ma=std::sqrt(a), mb=std::sqrt(b); return (s-(ma+mb)*(ma+mb))*(s-(ma-mb)*(ma-mb))/(4*s); }
  double poly(double z, int L){ switch(L){ case 0: return 1; case 1: return 1+z; case 2: return 9+3*z+z*z; case 3: return 225+45*z+6*z*z+z*z*z; default: return 11025+1575*z+135*z*z+10*z*z*z+z*z*z*z; } }
  double bwNorm(double z, double z0, int L){ return poly(z0,L)/poly(z,L); }
  double bw(double z, int L){ return std::pow(z,L)*poly(1,L)/poly(z,L); }
  double kf(double m, double G){ double g=std::sqrt(m*m*(m*m+G*G)); return std::sqrt(2*std::sqrt(2.)*m*G*g/(M_PI*std::sqrt(m*m+g))); }
  double gamma(double s, double s1, double s2, double m, double G, double r, int L){ double q=std::max(0.,q2(s,s1,s2)), q0=std::abs(q2(m*m,s1,s2)); return G*(m/std::sqrt(s))*std::sqrt(q/q0)*std::pow(q/q0,L)*bwNorm(q*r*r,q0*r*r,L); }
  C csqrt(double x){ return x>=0 ? C(std::sqrt(x)) : C(0,std::sqrt(-x)); }
  struct X { double s,s1,s2,m,G,r; int L; std::string name, mod; };
  struct Eval { insitu::Expr e; explicit Eval(const Expression& x, std::map<std::string,unsigned> ev={{"s",0},{"s1",1},{"s2",2}}) : e(x,ev) {} Eval& set(const std::string& n, double v){ e.set(n,v); return *this; } C operator()() const { return e(); } };
  void cmp(pbt::Gen& g, const std::string& what, C got, C want, double tol=1e-8){ if( !(std::abs(got-want)<=tol*(std::abs(want)+1e-9)) ) g.fail(what + " is " + pbt::str(got.real()) + "+" + pbt::str(got.imag()) + "i, expected " + pbt::str(want.real()) + "+" + pbt::str(want.imag()) + "i"); }
  std::string show(const X& x){ return x.name + " s=" + pbt::str(x.s) + " s1=" + pbt::str(x.s1) + " s2=" + pbt::str(x.s2) + " m=" + pbt::str(x.m) + " G=" + pbt::str(x.G) + " r=" + pbt::str(x.r) + " L=" + std::to_string(x.L) + (x.mod.empty()?"":" modifier "+x.mod); }
  const std::vector<std::string> resonances={"rho(770)0","K*(892)0","f(0)(980)0","a(0)(980)0","K(0)*(1430)0","f(2)(1270)0","phi(1020)0","rho(1450)0","K(1)(1270)+","Delta(1232)++"};
  X draw(pbt::Gen& g, bool above, int maxL=4){ X x; x.name=g.pick(resonances); const std::vector<double> ms={0.139,0.135,0.494,0.548,0.938,0.0005,0.3}; double a=g.pick(ms), b=g.pick(ms); x.s1=a*a; x.s2=b*b; double thr=(a+b)*(a+b); bool below=!above && g.chance(1,5); x.s = below ? thr*g.uniform(0.3,0.98) : thr*1.001+g.uniform(0.01,4); if( !below && g.chance(1,5) && !above ) x.s=x.s1+x.s2+g.uniform(0.01,4); x.m=std::sqrt(thr)*(above||g.chance(3,4)?1.02:0.7)+g.uniform(0.01,1.5); x.G=g.logreal(0.003,0.6); x.r=g.chance(1,8)?0:g.uniform(0.3,6); x.L=g.range(0,maxL); return x; }
  void fill(pbt::Gen& g, X& x, Eval& e){ e.set("s",x.s).set("s1",x.s1).set("s2",x.s2); auto p=pg::db()[x.name]; (void)g; e.set(x.name+"_mass",x.m).set(x.name+"_width",x.G).set(x.name+"_radius",x.r); }
  void defaults(pbt::Gen& g, X& x){ if( !g.chance(1,5) ) return; auto p=ParticleProperties::get(x.name); x.m=p->mass(); x.G=p->width(); x.r=p->radius(); g.label("default parameters"); }
  Expression S(){ static Expression e=Parameter("s"); return e; } Expression S1(){ static Expression e=Parameter("s1"); return e; } Expression S2(){ static Expression e=Parameter("s2"); return e; }
  Expression shape(const std::string& ls, const X& x){ return Lineshape::Factory::get(x.mod.empty()?ls:ls+"."+x.mod,Parameter("s"),Parameter("s1"),Parameter("s2"),x.name,x.L,insitu::db); }
  void helpers(pbt::Gen& g){ auto x=draw(g,false); x.name="helpers"; g.desc(show(x)); if( x.L>=1 ) g.nontrivial(); double z=g.logreal(1e-3,50), z0=g.logreal(1e-3,50);
    Expression s=Parameter("s"), a=Parameter("s1"), b=Parameter("s2"); auto at=[&](const Expression& e){ Eval v(e,{{"s",0},{"s1",1},{"s2",2},{"z",3},{"z0",4},{"m",5},{"G",6},{"r",7}}); v.set("s",x.s).set("s1",x.s1).set("s2",x.s2).set("z",z).set("z0",z0).set("m",x.m).set("G",x.G).set("r",x.r); return v(); };
    Expression Z=Parameter("z"), Z0=Parameter("z0"), m=Parameter("m"), G=Parameter("G"), r=Parameter("r");
    double q=q2(x.s,x.s1,x.s2), q0=q2(x.m*x.m,x.s1,x.s2); C gq=at(Q2(s,a,b)); if( std::abs(gq-q)>1e-9*(std::abs(q)+x.s+x.s1+x.s2) ) g.fail("Q2 is " + pbt::str(gq.real()) + ", expected " + pbt::str(q));
    cmp(g,"kFactor",at(kFactor(m,G)),kf(x.m,x.G)); cmp(g,"BlattWeisskopf",at(BlattWeisskopf(Z,x.L)),bw(z,x.L)); cmp(g,"BlattWeisskopf_Norm(" + pbt::str(z) + "," + pbt::str(z0) + ")",at(BlattWeisskopf_Norm(Z,Z0,x.L)),bwNorm(z,z0,x.L));
    if( std::abs(q)>1e-4 && std::abs(q0)>1e-4 ){ double rr=x.r+0.1; Eval e(BL(s,m*m,a,b,r,x.L),{{"s",0},{"s1",1},{"s2",2},{"m",3},{"r",4}}); e.set("s",x.s).set("s1",x.s1).set("s2",x.s2).set("m",x.m).set("r",rr); cmp(g,"BL",e(),std::sqrt(bw(std::abs(q)*rr*rr,x.L)/bw(std::abs(q0)*rr*rr,x.L)),1e-7); cmp(g,"width",at(width(s,a,b,m,G,r,x.L,insitu::db)),gamma(x.s,x.s1,x.s2,x.m,x.G,x.r,x.L),1e-7); }
    std::vector<Expression> co; double want=0, pw=1; int n=g.range(0,6); for(int i=0;i<n;++i){ double c=g.uniform(-2,2); co.push_back(c); want+=c*pw; pw*=x.s; } C got=at(pol(s,co)); if( std::abs(got-want)>1e-9*(1+std::pow(1+x.s,n)) ) g.fail("pol is " + pbt::str(got.real()) + ", expected " + pbt::str(want)); g.evals(8); }
  C refBW(const X& x){ double q=std::abs(q2(x.s,x.s1,x.s2)), q0=std::abs(q2(x.m*x.m,x.s1,x.s2)), r2=x.r*x.r; double ff=std::sqrt(bwNorm(q*r2,0,x.L)); if( x.mod=="BL" ) ff=std::sqrt(bw(q*r2,x.L)); if( x.mod=="NFF" ) ff=1; if( x.mod=="BELLE2018" ) ff=std::sqrt(bwNorm(q*r2,q0*r2,x.L)); return (x.mod=="BELLE2018"?1.:kf(x.m,x.G))*ff/(x.m*x.m-x.s-I*x.m*gamma(x.s,x.s1,x.s2,x.m,x.G,x.r,x.L)); }
  void breitwigner(pbt::Gen& g){ auto x=draw(g,false); x.mod=g.pick<std::string>({"","","BL","NFF","BELLE2018"}); defaults(g,x); double q=q2(x.s,x.s1,x.s2), q0=q2(x.m*x.m,x.s1,x.s2); if( std::abs(q)<1e-5 || std::abs(q0)<1e-5 ) g.discard(); g.desc("BW " + show(x)); if( x.L ) g.nontrivial(); g.label("L="+std::to_string(x.L)); g.label("modifier "+x.mod); if( q<0 ) g.label("below threshold"); Eval e(shape("BW",x)); fill(g,x,e); cmp(g,"BW",e(),refBW(x),1e-7);
    X y=x; y.mod=""; Eval f(shape("SBW",y)); fill(g,y,f); cmp(g,"SBW",f(),kf(x.m,x.G)/(x.m*x.m-x.s-I*x.m*x.G)); Eval h(shape("NonRelBW",y)); fill(g,y,h); cmp(g,"NonRelBW",h(),std::sqrt(x.G/2/M_PI)/(std::sqrt(x.s)-x.m-I*x.G/2.)); if( std::abs(x.s-x.m*x.m)>1e-3 ){ Eval k(shape("Photon",y)); fill(g,y,k); cmp(g,"Photon",k(),1/(x.s-x.m*x.m)); } Eval n(shape("None",y)); cmp(g,"None",n(),1); Eval ef(shape("ExpFF",y)); fill(g,y,ef); cmp(g,"ExpFF",ef(),std::exp(-q*x.r*x.r/2));
    if( q>0 ){ X w=x; if( w.mod!="BL" && w.mod!="NFF" && w.mod!="BELLE2018" && g.coin() ) w.mod="L"+std::to_string(g.range(0,3)); int Lp = w.mod.size()==2 && w.mod[0]=='L' ? w.mod[1]-'0' : w.L; double z=q*x.r*x.r, z0=q0*x.r*x.r; if( w.mod=="BELLE2018" && q0<0 ) g.discard(); double ff=std::sqrt(bwNorm(z,0,Lp)); if( w.mod=="BL" ) ff=std::sqrt(bw(z,w.L)); if( w.mod=="NFF" ) ff=1; if( w.mod=="BELLE2018" ) ff=std::sqrt(bwNorm(z,z0,w.L)); Eval e2(shape("FormFactor",w)); fill(g,w,e2); cmp(g,"FormFactor." + w.mod,e2(),ff,1e-7); } g.evals(7); }
  // Gounaris-Sakurai as in Phys. Rev. Lett. 21 (1968) 244
  C refGS(const X& x){ double mpi=ParticleProperties::get("pi+")->mass(); auto k=[&](double s){ return std::sqrt(s/4-mpi*mpi); }; auto h=[&](double s){ return 2/M_PI*k(s)/std::sqrt(s)*std::log((std::sqrt(s)+2*k(s))/(2*mpi)); }; double m2=x.m*x.m, k0=k(m2); double dh=h(m2)*(1/(8*k0*k0)-1/(2*m2))+1/(2*M_PI*m2); double f=x.G*m2/(k0*k0*k0)*(k(x.s)*k(x.s)*(h(x.s)-h(m2))+(m2-x.s)*k0*k0*dh); bool rad=x.mod.find("IncludeRadiusInWidth")!=std::string::npos, bl=x.mod.find("BL")!=std::string::npos; double z=std::abs(q2(x.s,x.s1,x.s2))*x.r*x.r; double ff=std::sqrt(bl?bw(z,x.L):bwNorm(z,0,x.L)); return kf(x.m,x.G)*ff/(m2+f-x.s-I*x.m*gamma(x.s,x.s1,x.s2,x.m,x.G,rad?x.r:0,x.L)); }
  void gs(pbt::Gen& g){ auto x=draw(g,true,3); double mpi=ParticleProperties::get("pi+")->mass(); if( g.coin() ){ x.s1=x.s2=mpi*mpi; x.s=4*mpi*mpi+g.uniform(0.01,3); x.m=2*mpi+g.uniform(0.05,1.5); } if( x.s<4.02*mpi*mpi || x.m<2.01*mpi ) g.discard(); x.mod=g.pick<std::string>({"","BL","IncludeRadiusInWidth","IncludeRadiusInWidth.BL"}); defaults(g,x); if( x.m<2.01*mpi || q2(x.m*x.m,x.s1,x.s2)<1e-5 || q2(x.s,x.s1,x.s2)<1e-5 ) g.discard(); g.desc("GounarisSakurai " + show(x)); g.nontrivial(); Eval e(shape("GounarisSakurai",x)); fill(g,x,e); cmp(g,"GounarisSakurai",e(),refGS(x),1e-6); }
  void lass(pbt::Gen& g){ auto x=draw(g,true,0); x.mod=g.pick<std::string>({"","BW","NR"}); defaults(g,x); double q=q2(x.s,x.s1,x.s2), q0=q2(x.m*x.m,x.s1,x.s2); if( q<1e-4 || q0<1e-4 || std::abs(x.s-x.m*x.m)<1e-6 ) g.discard(); double a=g.uniform(0.3,4), r=g.uniform(0.3,5); bool def=g.chance(1,4); if( def ){ a=2.07; r=3.32; } g.desc("LASS " + show(x) + " a=" + pbt::str(a) + " r=" + pbt::str(r)); g.nontrivial(); double p=std::sqrt(q), rho=p/std::sqrt(x.s), rho0=std::sqrt(q0)/x.m; auto put=[&](Eval& e, const std::string& pre){ fill(g,x,e); if( !def ) e.set(pre+"a",a).set(pre+"r",r); };
    double cotB=1/(a*p)+r*p/2, dB=std::atan2(1.,cotB); C e2=std::polar(1.,2*dB); C bwT=x.m*x.G/rho0/(x.m*x.m-x.s-I*x.m*x.G*rho/rho0)*e2, nr=std::sin(dB)*std::polar(1.,dB)/rho; C want=x.mod=="BW"?bwT:x.mod=="NR"?nr:bwT+nr; Eval e(shape("LASS",x)); put(e,"LASS::"); cmp(g,"LASS",e(),want,1e-7); if( x.mod.empty() ){ C t=e()*rho; if( std::abs(t.imag()-std::norm(t))>1e-7 ) g.fail("the elastic LASS amplitude violates unitarity: Im T = " + pbt::str(t.imag()) + ", |T|^2 = " + pbt::str(std::norm(t))); }
    X y=x; y.mod=""; double phiR=g.uniform(-2,2), phiF=g.uniform(-2,2), R=g.uniform(0.2,2), F=g.uniform(0.2,2); if( def ){ phiR=phiF=0; R=F=1; } std::string pre=x.name+"::GLASS::"; Eval e3(shape("GLASS",y)); put(e3,pre); if( !def ) e3.set(pre+"phiR",phiR).set(pre+"phiF",phiF).set(pre+"R",R).set(pre+"F",F); double dn=std::atan2(a*p,1+0.5*r*a*q); C rbw=x.m*x.m*x.G/std::sqrt(q0)/(x.m*x.m-x.s-I*x.m*x.G*(x.m/std::sqrt(x.s))*std::sqrt(q/q0)); C glass=R*std::polar(1.,phiR+2*phiF)*rbw*std::polar(1.,2*dn)+F*std::polar(1.,phiF)*std::polar(1.,dn)*std::sin(dn+phiF)*std::sqrt(x.s)/p; cmp(g,"GLASS",e3(),glass,1e-7); g.evals(2); }
  void flatte(pbt::Gen& g){ X x; bool f0=g.coin(); x.name=f0?"f(0)(980)0":"a(0)(980)0"; x.s=g.uniform(0.1,3); x.m=g.uniform(0.7,1.3); x.G=0.1; x.r=1; x.L=0; x.s1=x.s2=0.0196; x.mod = f0 && g.chance(1,3) ? "CutKK" : ""; double mK=ParticleProperties::get("K+")->mass(), mK0=ParticleProperties::get("K0")->mass(), mp=ParticleProperties::get("pi+")->mass(), mp0=ParticleProperties::get("pi0")->mass(), me=ParticleProperties::get("eta0")->mass(); auto rho=[&](double m){ return csqrt(1-4*m*m/x.s); }; bool def=g.chance(1,4); double g1=def?(f0?0.165:0.175):g.uniform(0.05,0.5), g2=def?(f0?4.21:1.20):g.uniform(0.5,5); if( !f0 && x.s<(mp+me)*(mp+me)*1.01 ) g.discard(); g.desc("Flatte " + show(x) + " g=" + pbt::str(g1) + " ratio=" + pbt::str(g2)); g.nontrivial(); g.label(f0?"f0":"a0"); auto cut=[&](C c){ return x.mod=="CutKK" ? C(c.real()) : c; }; C w = f0 ? g1*(rho(mp0)/3.+2./3.*rho(mp)+g2*(cut(rho(mK0))+cut(rho(mK)))/2.) : g1*(std::sqrt((1-(mp+me)*(mp+me)/x.s)*(1-(mp-me)*(mp-me)/x.s))+g2*rho(mK)); C want=1./(x.m*x.m-x.s-I*x.m*w); Eval e(shape("Flatte",x)); fill(g,x,e); if( !def ) e.set(f0?"Flatte::gPi":"Flatte::g2pieta",g1).set(f0?"Flatte::gK_by_gPi":"Flatte::g2KK_by_g2pieta",g2); cmp(g,"Flatte",e(),want,1e-7); }
  // J. Phys. G34 (2007) 151
  void bugg(pbt::Gen& g){ X x; x.name="f(0)(500)0"; if( !pg::db().has(x.name) ) x.name="f(0)(980)0"; x.L=0; x.s=g.uniform(0.085,3.5); x.s1=x.s2=0.0196; x.m=x.G=x.r=1; x.mod=g.chance(1,3)?"Az":""; double mp=0.139570, mK=0.493677, me=0.547863; bool def=g.chance(1,3); double M=0.935,b1=1.302,b2=0.340,A=2.426,g4=0.011,gK=0.6,ge=0.2,al=1.3,sAf=0.41,s0=7.082/2.845,lam=2.845; if( !def ){ M=g.uniform(0.8,1.1); b1=g.uniform(1,1.5); b2=g.uniform(0.1,0.6); A=g.uniform(1.5,3.5); g4=g.uniform(0.001,0.1); gK=g.uniform(0.2,1); ge=g.uniform(0.05,0.4); al=g.uniform(0.8,2); sAf=g.uniform(0.2,0.8); s0=g.uniform(2,3); lam=g.uniform(2,4); } g.desc("Bugg s=" + pbt::str(x.s) + (def?" published parameters":" M="+pbt::str(M)) + " " + x.mod); g.nontrivial(); double sA=sAf*mp*mp; auto j1=[&](double s){ double r=s>4*mp*mp?std::sqrt(1-4*mp*mp/s):0; return (2+(r>0?r*std::log((1-r)/(1+r)):0))/M_PI; }; double z=j1(x.s)-j1(M*M), g1=M*(b1+b2*x.s)*std::exp(-(x.s-M*M)/A), adler=(x.s-sA)/(M*M-sA); auto rho=[&](double m){ return csqrt(1-4*m*m/x.s); }; auto r4=[&](double s){ return 1/(1+std::exp(lam*(s0-s))); }; C G=g1*adler*rho(mp)+g1*x.s/(M*M)*(gK*std::exp(-al*std::abs(x.s-4*mK*mK))*rho(mK)+ge*std::exp(-al*std::abs(x.s-4*me*me))*rho(me))+(x.s>16*mp*mp?M*g4*r4(x.s)/r4(M*M):0.); C want=1./(M*M-x.s-g1*adler*z-I*G); if( x.mod=="Az" ) want*=(x.s-sA)*g1; Eval e(shape("Bugg",x)); fill(g,x,e); if( !def ) e.set("Bugg::M",M).set("Bugg::b1",b1).set("Bugg::b2",b2).set("Bugg::A",A).set("Bugg::g_4pi",g4).set("Bugg::g_2K",gK).set("Bugg::g_2eta",ge).set("Bugg::alpha",al).set("Bugg::sA",sAf).set("Bugg::s0_4pi",s0).set("Bugg::lambda_4pi",lam); cmp(g,"Bugg",e(),want,1e-7); }
  void simple(pbt::Gen& g){ int k=g.range(0,5); X x=draw(g,true,0); x.mod="vx"; static std::string names[]={"Gaussian","Poly","Isotensor","PolyNR","EtaDalitz","TD"}; g.label(names[k]); g.nontrivial();
    if( k==0 ){ double mu=g.uniform(0,3), si=g.uniform(0.1,2); g.desc("Gaussian s=" + pbt::str(x.s) + " mu=" + pbt::str(mu) + " sigma=" + pbt::str(si)); Eval e(shape("Gaussian",x)); fill(g,x,e); e.set("vx_mean",mu).set("vx_sigma",si); cmp(g,"Gaussian",e(),std::exp(-(x.s-mu)*(x.s-mu)/(2*si*si))); }
    else if( k==5 ){ std::string h=g.pick<std::string>({"D0","B0","D+","Bbar0","D(s)+","rho(770)0"}); double t=g.logreal(1e-6,1e2); g.desc("TD of " + h + " at t=" + pbt::str(t)); Particle p(h + "[TD]{K-,pi+}",std::vector<std::string>{"K-","pi+"}); Eval e(Lineshape::Factory::get(p.lineshape(),p,insitu::db),{{h+"_decayTime",0}}); e.set(h+"_decayTime",t); cmp(g,"TD",e(),t*pg::db()[h].width/(2*6.582119514e-16),1e-7); }
    else if( k==1 ){ int deg=g.range(0,5); OptionsParser::setArg("vx::Degree " + std::to_string(deg)); Eval e(shape("Poly",x)); fill(g,x,e); double want=0, pw=1, sc=0; std::string d; for(int i=0;i<=deg;++i){ double c=g.uniform(-2,2); d+=" "+pbt::str(c); e.set("vx_c"+std::to_string(i),c); want+=c*pw; sc+=std::abs(c*pw); pw*=x.s; } g.desc("Poly s=" + pbt::str(x.s) + " coefficients" + d); if( std::abs(e()-want)>1e-9*sc ) g.fail("Poly is " + pbt::str(e().real()) + ", expected " + pbt::str(want)); }
    else if( k==2 ){ x.mod=""; double a=55.21,b=0.853,c=-0.959,dd=0.314, mpi=0.139570; x.s=4*mpi*mpi+g.uniform(0.001,2); bool def=g.chance(1,4); if( !def ){ a=g.uniform(30,80); b=g.uniform(0.2,1); c=g.uniform(-1,0); dd=g.uniform(0.1,0.5); } g.desc("Isotensor s=" + pbt::str(x.s) + " a=" + pbt::str(a) + " b=" + pbt::str(b) + " c=" + pbt::str(c) + " d=" + pbt::str(dd)); double p=1+x.s*(b+x.s*(c+x.s*dd)); if( std::abs(p)<1e-3 ) g.discard(); Eval e(shape("Isotensor",x)); fill(g,x,e); if( !def ) e.set("Isotensor::a",a).set("Isotensor::b",b).set("Isotensor::c",c).set("Isotensor::d",dd); double del=-2*(a*M_PI/180)*std::sqrt(x.s/4-mpi*mpi)/p; C want=(std::polar(1.,del)-1.)/(2.*I); cmp(g,"Isotensor",e(),want,1e-7); }
    else { bool eta=k==4; std::vector<std::string> fs = eta ? std::vector<std::string>{"pi+","pi-","pi0"} : std::vector<std::string>{"K+","K-","pi0"}; int deg=g.range(0,2); if( !eta ) OptionsParser::setArg("vx::Degree " + std::to_string(deg)); std::vector<std::string> ord=fs; g.shuffle(ord); int sub=eta ? g.range(0,2) : 0; static const char* subs[]={"",".SBW",".FormFactor.L1"}; std::string d = eta ? std::string("eta0[EtaDalitz") + subs[sub] + "]{pi+,pi-,pi0}" : "D0[PolyNR.vx]{K+,K-,pi0}"; Particle p(d,ord); std::vector<double> ev; std::map<std::string,std::array<double,4>> mom; for(auto& n : ord){ double m=pg::db()[n].mass, p2=0; std::array<double,4> k; for(int i=0;i<3;++i){ k[i]=g.uniform(-0.5,0.5); p2+=k[i]*k[i]; } k[3]=std::sqrt(p2+m*m); mom[n]=k; ev.insert(ev.end(),k.begin(),k.end()); } if( eta ){ // a decay of an eta of its nominal mass, at rest
        double M=ParticleProperties::get("eta0")->mass(); ev.clear(); for(int i=0;i<3;++i) mom[ord[2]][i]=-mom[ord[0]][i]-mom[ord[1]][i]; auto tot=[&](double x){ double E=0; for(auto& n : ord){ auto& k=mom[n]; double m=pg::db()[n].mass; E+=std::sqrt(m*m+x*x*(k[0]*k[0]+k[1]*k[1]+k[2]*k[2])); } return E; }; if( tot(1e3)<M ) g.discard(); double lo=0, hi=1e3; for(int i=0;i<120;++i){ double x=(lo+hi)/2; (tot(x)<M?lo:hi)=x; } for(auto& n : ord){ auto& k=mom[n]; double m=pg::db()[n].mass, p2=0; for(int i=0;i<3;++i){ k[i]*=lo; p2+=k[i]*k[i]; } k[3]=std::sqrt(p2+m*m); ev.insert(ev.end(),k.begin(),k.end()); } }
      auto m2=[&](std::vector<std::string> v){ double t[4]={0,0,0,0}; for(auto& n : v) for(int i=0;i<4;++i) t[i]+=mom[n][i]; return t[3]*t[3]-t[0]*t[0]-t[1]*t[1]-t[2]*t[2]; };
      insitu::Expr e(Lineshape::Factory::get(p.lineshape(),p,insitu::db),insitu::eventMap(3)); e.event(ev); std::string o; for(auto& n : ord) o+=" "+n; double M2=m2(fs);
      if( eta ){ double M=std::sqrt(M2), T[3], Q=0; for(int i=0;i<3;++i){ double t=0; for(auto& n : fs){ auto a=mom[n], b=mom[fs[i]]; t+=a[3]*b[3]-a[0]*b[0]-a[1]*b[1]-a[2]*b[2]; } T[i]=t-M*pg::db()[fs[i]].mass; Q+=T[i]; } double y=3*T[2]/Q-1, z=1-1.07*y; if( std::abs(z)<1e-4 || Q<1e-5 ) g.discard(); g.desc(d + " |" + o + " y=" + pbt::str(y)); C want=z>0?std::sqrt(z):1; if( sub==2 ){ double ra=ParticleProperties::get("eta0")->radius(), a=pg::db()[p.daughter(0)->name()].mass, b=pg::db()[p.daughter(1)->name()].mass; want*=std::sqrt(bwNorm(q2(M2,a*a,b*b)*ra*ra,0,1)); } if( sub==1 ){ auto pr=ParticleProperties::get("eta0"); want*=kf(pr->mass(),pr->width())/(pr->mass()*pr->mass()-M2-I*pr->mass()*pr->width()); } cmp(g,"EtaDalitz",e(),want,1e-4); }
      else { double a=m2({"K+","K-"}), b=m2({"K+","pi0"}), want=0, sc=0; for(int i=0;i<=deg;++i) for(int j=0;j<=deg;++j){ double c=g.uniform(-2,2); e.set("vx_"+std::to_string(i)+"_"+std::to_string(j),c); want+=c*std::pow(a,i)*std::pow(b,j); sc+=std::abs(c*std::pow(a,i)*std::pow(b,j)); } g.desc(d + " |" + o + " degree " + std::to_string(deg)); auto da=p.daughter(0)->name(), db=p.daughter(1)->name(), dc=p.daughter(2)->name(); if( da!="K+" || db!="K-" || dc!="pi0" ) g.label("reordered"); std::vector<std::string> dn={da,db,dc}; double sA=m2({da,db}), sB=m2({da,dc}); (void)sA; (void)sB; if( da!="K+"||db!="K-" ) g.discard(); if( std::abs(e()-want)>1e-8*sc ) g.fail("PolyNR is " + pbt::str(e().real()) + ", expected " + pbt::str(want)); } } }
}
int main(int argc, char** argv){
  pbt::Check c("P12","orbital angular momentum above zero, or a lineshape other than the plain Breit-Wigner"); c.scale(2);
  c.assume("kinematics not within 1e-5 GeV^2 of a threshold, where the expressions are singular; published formulae of the lineshapes as reference");
  c.prop("helpers", 30000, 600000, insitu::debugged(helpers)); c.prop("breitwigner", 40000, 800000, insitu::debugged(breitwigner)); c.prop("gs", 20000, 400000, insitu::debugged(gs)); c.prop("lass", 20000, 400000, insitu::debugged(lass)); c.prop("flatte", 15000, 300000, insitu::debugged(flatte)); c.prop("bugg", 10000, 200000, insitu::debugged(bugg)); c.prop("simple", 15000, 300000, insitu::debugged(simple));
  return c.main(argc,argv);
}
