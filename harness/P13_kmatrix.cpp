// P13: coupled-channel dynamics: phase-space factors, K-matrices, propagators and production amplitudes.
#include "insitu.h"
#include "particle_gen.h"
#include "AmpGen/CoupledChannel.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/kMatrix.h"
using namespace AmpGen;
typedef std::complex<double> C;
namespace {
  const C I(0,1);
  typedef std::vector<std::vector<C>> M;
  C csqrt(double x){ return x>=0 ? C(std::sqrt(x)) : C(0,std::sqrt(-x)); }
  M mat(int n){ return M(n,std::vector<C>(n)); }
  M mul(const M& a, const M& b){ int n=a.size(); M r=mat(n); for(int i=0;i<n;++i) for(int j=0;j<n;++j) for(int k=0;k<n;++k) r[i][j]+=a[i][k]*b[k][j]; return r; }
  M inv(M a){ int n=a.size(); M r=mat(n); for(int i=0;i<n;++i) r[i][i]=1; for(int c=0;c<n;++c){ int p=c; for(int i=c;i<n;++i) if( std::abs(a[i][c])>std::abs(a[p][c]) ) p=i; std::swap(a[c],a[p]); std::swap(r[c],r[p]); C d=a[c][c]; for(int j=0;j<n;++j){ a[c][j]/=d; r[c][j]/=d; } for(int i=0;i<n;++i) if( i!=c ){ C f=a[i][c]; for(int j=0;j<n;++j){ a[i][j]-=f*a[c][j]; r[i][j]-=f*r[c][j]; } } } return r; }
  double norm(const M& a){ double s=0; for(auto& r : a) for(auto& x : r) s+=std::norm(x); return std::sqrt(s); }
  // (1 - i K rho)^-1
  M prop(const M& K, const std::vector<C>& rho, double* cond=nullptr){ int n=K.size(); M a=mat(n); for(int i=0;i<n;++i) for(int j=0;j<n;++j) a[i][j]=(i==j?1.:0.)-I*K[i][j]*rho[j]; M r=inv(a); if( cond ) *cond=norm(a)*norm(r); return r; }
  void cmp(pbt::Gen& g, const std::string& what, C got, C want, double tol, double atol=1e-12){ if( !(std::abs(got-want)<=tol*std::abs(want)+atol) ) g.fail(what + " is " + pbt::str(got.real()) + "+" + pbt::str(got.imag()) + "i, expected " + pbt::str(want.real()) + "+" + pbt::str(want.imag()) + "i"); }
  C at(const Expression& e, double s, const std::map<std::string,double>& par={}){ insitu::Expr x(e,{{"s",0},{"s1",1},{"s2",2}}); x.set("s",s); x.set("s1",0.0196); x.set("s2",0.0196); for(auto& p : par) x.set(p.first,p.second); return x(); }
  double massOf(const std::string& n){ return ParticleProperties::get(n)->mass(); }
  C rho2(double s, double a, double b){ return csqrt(1-(a+b)*(a+b)/s); }
  C rhoF(double s, double a, double b){ return csqrt((1-(a+b)*(a+b)/s)*(1-(a-b)*(a-b)/s)); }
  C rho4(double s){ double m=0.139570; if( s>1 ) return rho2(s,2*m,2*m); return 0.00051+s*(-0.01933+s*(0.13851+s*(-0.20840+s*(-0.29744+s*(0.13655+s*1.07885))))); }
  void algebra(pbt::Gen& g){ int n=g.range(1,5), np=g.chance(1,8)?g.range(5,8):g.range(0,4); double s=g.uniform(0.1,4); Expression S=Parameter("s"); std::vector<poleConfig> poles; std::vector<double> m2; std::vector<std::vector<double>> co; for(int p=0;p<np;++p){ double m; do m=g.uniform(0.3,4); while( std::abs(m-s)<0.02 ); m2.push_back(m); poleConfig pc(m); std::vector<double> c; for(int i=0;i<n;++i){ c.push_back(g.chance(1,8)?0:g.uniform(-1.5,1.5)); pc.add(c.back()); } co.push_back(c); poles.push_back(pc); } g.desc(std::to_string(n) + " channels, " + std::to_string(np) + " poles, s=" + pbt::str(s)); if( n>=2 && np>=1 ) g.nontrivial();
    auto K=constructKMatrix(S,n,poles); M k=mat(n); for(int i=0;i<n;++i) for(int j=0;j<n;++j){ for(int p=0;p<np;++p) k[i][j]+=co[p][i]*co[p][j]/(m2[p]-s); double sc=1e-9; for(int p=0;p<np;++p) sc+=1e-9*std::abs(co[p][i]*co[p][j]/(m2[p]-s)); cmp(g,"K-matrix element",at(K[i*n+j],s),k[i][j],0,sc); }
    bool real=g.coin(); std::vector<Expression> ph; std::vector<C> r; for(int i=0;i<n;++i){ C x = real ? C(g.uniform(0.05,1)) : g.coin() ? C(g.uniform(0.05,1)) : C(0,g.uniform(0.05,1)); r.push_back(x); ph.push_back(x); } double cond; M F=prop(k,r,&cond); if( !(cond<1e6) ) g.discard(); auto P=getPropagator(K,ph); double tol=1e-10*cond*(1+norm(F)); M got=mat(n); for(int i=0;i<n;++i) for(int j=0;j<n;++j){ got[i][j]=at(P[i*n+j],s); cmp(g,"propagator element " + std::to_string(i) + "," + std::to_string(j),got[i][j],F[i][j],1e-9,tol); }
    if( real ){ M T=mul(got,k), Sm=mat(n); for(int i=0;i<n;++i) for(int j=0;j<n;++j) Sm[i][j]=(i==j?1.:0.)+2.*I*std::sqrt(r[i])*T[i][j]*std::sqrt(r[j]); for(int i=0;i<n;++i) for(int j=0;j<n;++j){ C u=0; for(int l=0;l<n;++l) u+=Sm[i][l]*std::conj(Sm[j][l]); cmp(g,"S S^dagger",u,i==j?1.:0.,0,1e-8*cond); } g.label("unitary"); } g.evals(2*n*n); }
  void phasespace(pbt::Gen& g){ double a=g.uniform(0.05,1), b=g.uniform(0.05,1), s=g.logreal(0.01,8); if( std::abs(s-(a+b)*(a+b))<1e-4 || std::abs(s-(a-b)*(a-b))<1e-4 ) g.discard(); Expression S=Parameter("s"); g.desc("s=" + pbt::str(s) + " m=" + pbt::str(a) + "," + pbt::str(b)); if( s>(a+b)*(a+b) ) g.nontrivial(); cmp(g,"phsp_twoBody",at(phsp_twoBody(S,a,b),s),rho2(s,a,b),1e-9); cmp(g,"phsp_FOCUS",at(phsp_FOCUS(S,a,b),s),rhoF(s,a,b),1e-9); cmp(g,"phsp_fourPi",at(phsp_fourPi(S),s),rho4(s),1e-9,1e-9); double G=g.uniform(0.01,1), r=g.uniform(0.1,1); cmp(g,"gFromGamma",gFromGamma(S,Expression(G),Expression(r))().real()*0+at(gFromGamma(S,Expression(G),Expression(r)),s),std::sqrt(s*G/r),1e-10); g.evals(4); }
  double lam(double x, double y, double z){ return x*x+y*y+z*z-2*x*y-2*x*z-2*y*z; }
  double poly(double z, int L){ switch(L){ case 0: return 1; case 1: return 1+z; case 2: return 9+3*z+z*z; case 3: return 225+45*z+6*z*z+z*z*z; default: return 11025+1575*z+135*z*z+10*z*z*z+z*z*z*z; } }
  double bw(double z, int L){ return std::pow(z,L)*poly(1,L)/poly(z,L); }
  // Gauss-Legendre on n panels
  template <class F> double quad(F&& f, double a, double b, int n){ static const double x[]={0.1488743389816312,0.4333953941292472,0.6794095682990244,0.8650633666889845,0.9739065285171717}, w[]={0.2955242247147529,0.2692667193099963,0.2190863625159820,0.1494513491505806,0.0666713443086881}; double r=0; for(int i=0;i<n;++i){ double lo=a+(b-a)*i/n, hi=a+(b-a)*(i+1)/n, c=(lo+hi)/2, h=(hi-lo)/2; for(int k=0;k<5;++k) r+=h*w[k]*(f(c-h*x[k])+f(c+h*x[k])); } return r; }
  const std::vector<std::array<std::string,3>> two={{"rho(770)0","pi+","pi-"},{"K*(892)0","K+","pi-"},{"f(0)(980)0","K+","K-"},{"phi(1020)0","K+","K-"},{"f(0)(980)0","pi0","pi0"},{"a(0)(980)0","eta0","pi0"},{"K(0)*(1430)0","K+","pi-"},{"Delta(1232)++","p+","pi+"}};
  C refPhsp2(double s, double m1, double m2, double r, int l){ double q=lam(s,m1*m1,m2*m2)/(4*s); return csqrt(lam(s,m1*m1,m2*m2))/(16*M_PI*s)*bw(std::max(0.,q)*r*r,l); }
  void twobody(pbt::Gen& g){ auto d=g.pick(two); int mode=g.weighted({4,1,3}); double m1=massOf(d[1]), m2=massOf(d[2]), thr=(m1+m2)*(m1+m2); double s = g.chance(1,3) ? thr*g.uniform(0.1,0.99) : thr*g.uniform(1.01,6); int l = mode==0 ? g.range(0,4) : 0; std::string desc=d[0]+(mode==1?"[phsp=arXiv.0707.3596]":mode==2?"[phsp=CM]":"")+"{"+d[1]+","+d[2]+"}"; Particle p(desc); double r=g.uniform(0.2,6); bool def=g.chance(1,4); if( def ) r=ParticleProperties::get(d[0])->radius(); g.desc(desc + " l=" + std::to_string(l) + " s=" + pbt::str(s) + " r=" + pbt::str(r)); g.nontrivial(); g.label(mode==0?"phase space":mode==1?"phase space without barrier":"Chew-Mandelstam"); if( s<thr ) g.label("below threshold"); std::map<std::string,double> par; if( !def ) par[d[0]+"_radius"]=r; Expression S=Parameter("s"); C got=at(phaseSpace(S,p,l),s,par);
    if( mode==0 ) cmp(g,"phase space",got,refPhsp2(s,m1,m2,r,l),1e-8);
    else if( mode==1 ){ if( std::abs(s-(m1-m2)*(m1-m2))<1e-3 || s<(m1-m2)*(m1-m2) ) g.discard(); cmp(g,"phase space",got,csqrt(lam(s,m1*m1,m2*m2))/s,1e-8); }
    else { if( s<(m1-m2)*(m1-m2)*1.02 ) g.discard(); auto rho=[&](double x){ return std::sqrt(std::max(0.,lam(x,m1*m1,m2*m2)))/(16*M_PI*x); }; cmp(g,"real part of the analytic phase space",got.real(),s>thr?rho(s):0,1e-6,1e-9); if( s<thr ){ // once-subtracted dispersion integral, x = thr/(1-u^2)
        double want=(s-thr)/M_PI*quad([&](double u){ double x=thr/(1-u*u), dx=2*u*thr/((1-u*u)*(1-u*u)); return rho(x)/((x-thr)*(x-s))*dx; },1e-9,1-1e-9,400); cmp(g,"imaginary part of the analytic phase space",got.imag(),-want,2e-3,1e-7); g.label("dispersion integral"); } } }
  void twobodyCM(pbt::Gen& g){ auto d=two[g.draw(4)]; int l=g.range(1,3); double m1=massOf(d[1]), m2=massOf(d[2]), thr=(m1+m2)*(m1+m2), s=thr*g.uniform(1.02,4); std::string desc=d[0]+"[phsp=CM]{"+d[1]+","+d[2]+"}"; Particle p(desc); double r=ParticleProperties::get(d[0])->radius(), q=lam(s,m1*m1,m2*m2)/(4*s); g.desc(desc + " l=" + std::to_string(l) + " s=" + pbt::str(s)); g.nontrivial(); Expression S=Parameter("s"); C got=at(phaseSpace(S,p,l),s); cmp(g,"real part of the analytic phase space",got.real(),bw(q*r*r,l)*2*std::sqrt(q/s),1e-7); }
  void threebody(pbt::Gen& g){ struct D { const char* h; const char* r; const char* a; const char* b; const char* c; }; static const D ds[]={{"a(1)(1260)+","rho(770)0","pi+","pi-","pi+"},{"K(1)(1270)+","K*(892)0","K+","pi-","pi+"},{"K(1)(1270)+","rho(770)0","pi+","pi-","K+"},{"omega(782)0","rho(770)+","pi+","pi0","pi-"},{"pi(1300)+","f(0)(980)0","pi+","pi-","pi+"}}; auto& d=ds[g.draw(5)]; bool flip=g.coin(); std::string iso=std::string(d.r)+"{"+d.a+","+d.b+"}"; std::string desc=std::string(d.h)+"{"+(flip?std::string(d.c)+","+iso:iso+","+d.c)+"}"; Particle p(desc); double ma=massOf(d.a), mb=massOf(d.b), mc=massOf(d.c), m=massOf(d.r), G=ParticleProperties::get(d.r)->width(); double thr=ma+mb+mc; double s=std::pow(thr*g.uniform(1.05,2.5),2); bool below=g.chance(1,8); if( below ) s=thr*thr*g.uniform(0.5,0.98); g.desc(desc + " s=" + pbt::str(s)); if( !below ) g.nontrivial(); double lo=(ma+mb)*(ma+mb), hi=std::pow(std::sqrt(s)-mc,2), want=0; if( !below ) want=quad([&](double t){ double x=m*m+m*G*std::tan(t); return std::sqrt(std::max(0.,lam(s,x,mc*mc))); },std::atan((lo-m*m)/(m*G)),std::atan((hi-m*m)/(m*G)),200)/(16*M_PI*M_PI*s); Expression S=Parameter("s"); C got=at(phaseSpace(S,p,0),s); cmp(g,"three-body phase space",got,want,1e-3,1e-9); }
  void coupled(pbt::Gen& g){ std::string name="f(0)(980)0"; int n=g.range(1,3); std::vector<std::array<std::string,3>> ch; auto pool=two; g.shuffle(pool); std::string opt=name+"_channels"; std::map<std::string,double> par; std::vector<double> co; for(int i=0;i<n;++i){ ch.push_back(pool[i]); double c=g.uniform(0.05,3); co.push_back(c); opt+=" "+pool[i][0]+"{"+pool[i][1]+","+pool[i][2]+"} cpl"+std::to_string(i); par["cpl"+std::to_string(i)]=c; } OptionsParser::setArg(opt); std::string mod=g.pick<std::string>({"","norm","BL"}); int L=g.range(0,3); double s=g.uniform(0.2,4), m=g.uniform(1.9,2.5), G=g.uniform(0.02,0.4), r=g.uniform(0.2,4); bool nearThr=false; for(auto& c : ch){ double t=std::pow(massOf(c[1])+massOf(c[2]),2); if( std::abs(s-t)<1e-4 ) nearThr=true; } if( nearThr || s<0.1 ) g.discard(); par[name+"_mass"]=m; par[name+"_width"]=G; par[name+"_radius"]=r; g.desc(opt + " | " + mod + " L=" + std::to_string(L) + " s=" + pbt::str(s) + " m=" + pbt::str(m) + " G=" + pbt::str(G) + " r=" + pbt::str(r)); if( n>1 ) g.nontrivial(); Expression S=Parameter("s"); C got=at(Lineshape::Factory::get(mod.empty()?"CoupledChannel":"CoupledChannel."+mod,S,Parameter("s1"),Parameter("s2"),name,L,insitu::db),s,par); C W=0, W0=0; for(int i=0;i<n;++i){ Particle p(ch[i][0]+"{"+ch[i][1]+","+ch[i][2]+"}"); double rad=ch[i][0]==name?r:ParticleProperties::get(ch[i][0])->radius(); double a=massOf(ch[i][1]), b=massOf(ch[i][2]); W+=co[i]*refPhsp2(s,a,b,rad,p.L()); W0+=co[i]*refPhsp2(m*m,a,b,rad,p.L()); } double z=std::abs(lam(s,0.0196,0.0196)/(4*s))*r*r, ff=mod=="BL"?std::sqrt(bw(z,L)):std::sqrt(poly(0,L)/poly(z,L)); double gm=m*std::sqrt(m*m+G*G), kf=std::sqrt(2*std::sqrt(2.)/M_PI*m*G*gm/std::sqrt(m*m+gm)); C want=kf*ff/(m*m-s-I*m*W*(mod=="norm"?G/W0:C(1))); cmp(g,"CoupledChannel",got,want,1e-7); }
  void isoscalar(pbt::Gen& g){ static const std::vector<std::string> cn={"pipi","KK","4pi","EtaEta","EtapEta"}; double s=g.uniform(0.1,4); bool fp=g.coin(); OptionsParser::setArg(std::string("kMatrix::fp ") + (fp?"true":"false")); std::map<std::string,double> par; double m[5], c[5][5], f[5]; for(int p=0;p<5;++p){ do m[p]=g.uniform(0.5,2.2); while( std::abs(m[p]*m[p]-s)<0.01 ); std::string st="IS_p"+std::to_string(p+1)+"_"; par[st+"mass"]=m[p]; for(int i=0;i<5;++i){ c[p][i]=g.uniform(-1,1); par[st+cn[i]]=c[p][i]; } } for(int i=0;i<5;++i){ f[i]=g.uniform(-0.5,0.5); par["f_scatt"+std::to_string(i)]=f[i]; } bool def=g.coin(); double sA0=-0.15,sA=1,sp=-0.07,ss=-3.92637; std::string name="f(0)(980)0"; if( !def ){ par["sA0"]=sA0=g.uniform(-0.5,-0.05); par["sA"]=sA=g.uniform(0.5,1.5); par[name+"_s0_prod"]=sp=g.uniform(-0.5,-0.05); par["s0_scatt"]=ss=g.uniform(-5,-1); }
    int kind=g.range(0,4), a=g.draw(5), b=g.draw(5); std::string mod = kind==0 ? "scatt."+std::to_string(a)+"."+std::to_string(b) : kind==1 ? "pole."+std::to_string(a) : kind==2 ? "poleKK."+std::to_string(a) : kind==3 ? "prod."+std::to_string(a) : "prodKK."+std::to_string(a); g.desc("kMatrix." + mod + " s=" + pbt::str(s)); g.nontrivial(); g.label(mod.substr(0,mod.find('.'))); double mpi=0.139570; std::vector<C> rho={rho2(s,mpi,mpi),rho2(s,0.493677,0.493677),rho4(s),rho2(s,0.547862,0.547862),rho2(s,0.547862,0.957780)}; for(double t : {2*mpi,2*0.493677,2*0.547862,0.547862+0.957780}) if( std::abs(s-t*t)<1e-3 ) g.discard(); M K=mat(5); double adler=(1-sA0)*(s-sA*mpi*mpi/2)/(s-sA0); for(int i=0;i<5;++i) for(int j=0;j<5;++j){ for(int p=0;p<5;++p) K[i][j]+=c[p][i]*c[p][j]/(m[p]*m[p]+C(0,fp?1e-6:0)-s); if( i==0 ) K[i][j]+=f[j]*(1-ss)/(s-ss); else if( j==0 ) K[i][j]+=f[i]*(1-ss)/(s-ss); K[i][j]*=adler; } double cond; M F=prop(K,rho,&cond); if( !(cond<1e5) ) g.discard();
    C want=0; int ch = kind==2||kind==4 ? 1 : 0; if( kind==0 ) want=mul(F,K)[b][a]; else if( kind<=2 ){ for(int i=0;i<5;++i) want+=F[ch][i]*c[a][i]; want/=m[a]*m[a]+C(0,fp?1e-6:0)-s; } else want=F[ch][a]*(1-sp)/(s-sp); C got=at(Lineshape::Factory::get("kMatrix."+mod,Parameter("s"),Parameter("s1"),Parameter("s2"),name,0,insitu::db),s,par); cmp(g,"kMatrix." + mod,got,want,1e-4,1e-8*cond); }
  void simple(pbt::Gen& g){ int n=g.range(1,3), np=g.range(1,3); OptionsParser::setArg("kMatrix::nPoles " + std::to_string(np)); OptionsParser::setArg("kMatrix::nChannels " + std::to_string(n)); static const std::vector<std::pair<std::string,std::string>> cs={{"pi+","pi-"},{"K+","K-"},{"eta0","eta0"},{"K+","pi-"}}; auto pool=cs; g.shuffle(pool); std::vector<std::pair<double,double>> ms; double top=0; for(int i=0;i<n;++i){ OptionsParser::setArg("kMatrix::Channel::" + std::to_string(i+1) + " " + pool[i].first + " " + pool[i].second); ms.push_back({massOf(pool[i].first),massOf(pool[i].second)}); top=std::max(top,ms.back().first+ms.back().second); } double s=g.uniform(0.1,4); std::map<std::string,double> par; std::vector<double> m; std::vector<std::vector<double>> c; for(int p=0;p<np;++p){ double x; do x=top+g.uniform(0.05,1.2); while( std::abs(x*x-s)<0.01 ); m.push_back(x); std::string st="kMatrix::pole::"+std::to_string(p+1); par[st+"::mass"]=x; c.push_back({}); for(int i=0;i<n;++i){ double w=g.uniform(0.01,0.4); par[st+"::width::"+std::to_string(i)]=w; c.back().push_back(std::sqrt(x*w/rho2(x*x,ms[i].first,ms[i].second).real())); } } int t=g.draw(np); g.desc("kMatrixSimple." + std::to_string(t) + " " + std::to_string(n) + " channels " + std::to_string(np) + " poles s=" + pbt::str(s)); if( n>1 ) g.nontrivial(); M K=mat(n); std::vector<C> rho; for(int i=0;i<n;++i){ double th=ms[i].first+ms[i].second; if( std::abs(s-th*th)<1e-3 ) g.discard(); rho.push_back(rho2(s,ms[i].first,ms[i].second)); for(int j=0;j<n;++j) for(int p=0;p<np;++p) K[i][j]+=c[p][i]*c[p][j]/(m[p]*m[p]-s); } double cond; M F=prop(K,rho,&cond); if( !(cond<1e5) ) g.discard(); C want=0; for(int i=0;i<n;++i) want+=F[0][i]*c[t][i]; want/=m[t]*m[t]-s; C got=at(Lineshape::Factory::get("kMatrixSimple."+std::to_string(t),Parameter("s"),Parameter("s1"),Parameter("s2"),"f(0)(980)0",0,insitu::db),s,par); cmp(g,"kMatrixSimple",got,want,1e-7,1e-9*cond); }
  double pl(double x, std::vector<double> c){ double r=0, p=1; for(double a : c){ r+=a*p; p*=x; } return r; }
  void kpi(pbt::Gen& g){ bool focus=g.coin(); double s=g.uniform(0.2,4); std::string mod=g.pick<std::string>({"Kpi","KEta","I32"}); double mK=massOf("K+"), mp=massOf("pi+"), me=massOf(focus?"eta'(958)0":"eta0"); if( std::abs(s-std::pow(mK+mp,2))<1e-3 || std::abs(s-std::pow(mK+me,2))<1e-3 || std::abs(s-std::pow(me-mK,2))<1e-3 || std::abs(s-std::pow(mK-mp,2))<1e-3 ) g.discard(); g.desc(std::string(focus?"FOCUS.":"PALANO.") + mod + " s=" + pbt::str(s)); g.nontrivial(); double sn=mK*mK+mp*mp; M K=mat(2); double K32; std::vector<C> rho;
    if( focus ){ double X=s/sn-1; double gg[2]={0.31072,-0.02323}; double c[2][2]={{pl(X,{0.79299,-0.15099,0.00811}),pl(X,{0.15040,-0.038266,0.0022596})},{0,pl(X,{0.17054,-0.0219,0.00085655})}}; c[1][0]=c[0][1]; if( std::abs(s-1.7919)<1e-3 ) g.discard(); for(int i=0;i<2;++i) for(int j=0;j<2;++j) K[i][j]=(s-0.23)/sn*(gg[i]*gg[j]/(1.7919-s)+c[i][j]); K32=(s-0.27)/sn*pl(X,{-0.22147,0.026637,-0.00092057}); rho={rhoF(s,mK,mp),rhoF(s,mK,me)}; }
    else { double X=(2*s-5.832-0.360)/(5.832-0.360); double p1[2]={0.3139,-0.00775}, p2[2]={1.1804,-0.22335}; double c[2][2]={{pl(X,{-0.1553,0.0909,0.8618,0.0629}),pl(X,{0.0738,0.3866,1.2195,0.8390})},{0,pl(X,{-0.0036,0.2590,1.6950,2.2300})}}; c[1][0]=c[0][1]; if( std::abs(s-1.7991)<1e-3 ) g.discard(); for(int i=0;i<2;++i) for(int j=0;j<2;++j) K[i][j]=(s/sn-0.87753)*(p1[i]*p1[j]/(1.7991-s)+p2[i]*p2[j]/(8.3627-s)+c[i][j]); K32=(s/sn-1.0209)*pl(X,{-0.04046,0.08143,-0.08849}); rho={rho2(s,mK,mp),rho2(s,mK,me)}; }
    C want = mod=="I32" ? 1./(1.-I*K32*rho[0]) : mul(prop(K,rho),K)[0][mod=="KEta"?1:0]; C got=at(Lineshape::Factory::get((focus?"FOCUS.":"PALANO.")+mod,Parameter("s"),Parameter("s1"),Parameter("s2"),"K(0)*(1430)0",0,insitu::db),s); cmp(g,(focus?"FOCUS.":"PALANO.")+mod,got,want,1e-7,1e-9); }
  void generic(pbt::Gen& g){ std::string name="f(0)(980)0"; static const std::vector<std::pair<std::string,std::string>> cs={{"pi+","pi-"},{"K+","K-"},{"eta0","eta0"},{"pi0","pi0"}}; auto pool=cs; g.shuffle(pool); int n=g.range(1,3), np=g.range(1,3); std::string pre=name+"::kMatrix::"; OptionsParser::setArg(pre+"nPoles "+std::to_string(np)); std::string co=pre+"channels"; std::vector<std::string> chs; for(int i=0;i<n;++i){ chs.push_back(name+"{"+pool[i].first+","+pool[i].second+"}"); co+=" "+chs.back(); } OptionsParser::setArg(co); int type=g.range(0,2); OptionsParser::setArg(pre+"production_amplitude "+(type==0?"PVec":type==1?"QVec":"ZVec")); int dec=g.draw(n); int term=g.draw(np); bool explicitChannel=g.coin(); int zch = explicitChannel ? g.draw(n) : dec; std::string mod = type==2 ? ".pole."+std::to_string(term+1)+(explicitChannel?"."+std::to_string(zch+1):"") : ""; std::string desc=name+"[GenericKmatrix"+mod+"]{"+pool[dec].first+","+pool[dec].second+"}"; Particle p("D0{"+desc+",pi0}",std::vector<std::string>{pool[dec].first,pool[dec].second,"pi0"}); double s;
    std::vector<double> ev; double k[2][4]; double mm[2]={massOf(pool[dec].first),massOf(pool[dec].second)}; for(int i=0;i<2;++i){ double p2=0; for(int j=0;j<3;++j){ k[i][j]=g.uniform(-0.8,0.8); p2+=k[i][j]*k[i][j]; } k[i][3]=std::sqrt(p2+mm[i]*mm[i]); ev.insert(ev.end(),k[i],k[i]+4); } double t[4]; for(int j=0;j<4;++j) t[j]=k[0][j]+k[1][j]; s=t[3]*t[3]-t[0]*t[0]-t[1]*t[1]-t[2]*t[2]; for(int j=0;j<4;++j) ev.push_back(0.2);
    std::map<std::string,double> par; std::vector<double> m; std::vector<std::vector<double>> c; for(int q=0;q<np;++q){ double x; do x=g.uniform(0.5,2); while( std::abs(x*x-s)<0.02 ); m.push_back(x); std::string st=name+"::pole::"+std::to_string(q+1); par[st+"::mass"]=x; c.push_back({}); for(int i=0;i<n;++i){ c.back().push_back(g.uniform(-3,3)); par[st+"::g::"+std::to_string(i+1)]=c.back().back(); } } M f=mat(n); for(int i=0;i<n;++i) for(int j=i;j<n;++j){ std::string ij=std::to_string(i+1)+"::"+std::to_string(j+1); bool pole=g.chance(1,3); OptionsParser::setArg(name+"::"+ij+"::nrShape "+(pole?"pole":"flat")); double f1=g.chance(1,4)?0:g.uniform(-1,1), f2=g.uniform(-1,1), s0=-g.uniform(0.1,3); par[name+"::f1::"+ij]=f1; par[name+"::f2::"+ij]=f2; par[name+"::s0::"+ij]=s0; f[i][j]=f[j][i]=pole?(f1+f2*std::sqrt(s))/(s-s0):f1; }
    g.desc(desc + " " + co + " poles " + std::to_string(np) + " s=" + pbt::str(s)); if( n>1 ) g.nontrivial(); g.label(type==0?"P-vector":type==1?"Q-vector":"pole term"); std::vector<C> rho; M K=f; double r=ParticleProperties::get(name)->radius(); for(int i=0;i<n;++i){ double a=massOf(pool[i].first), b=massOf(pool[i].second); if( std::abs(s-(a+b)*(a+b))<1e-3 ) g.discard(); rho.push_back(refPhsp2(s,a,b,r,0)); for(int j=0;j<n;++j) for(int q=0;q<np;++q) K[i][j]+=c[q][i]*c[q][j]/(m[q]*m[q]-s); } double cond; M F=prop(K,rho,&cond); if( !(cond<1e5) ) g.discard(); C want=0; double s0=-g.uniform(0.1,3); std::vector<double> a; for(int i=0;i<n;++i){ a.push_back(g.uniform(-1,1)); par[name+"::a::"+std::to_string(i+1)]=a.back(); } par[name+"::s0"]=s0;
    if( type==0 ) for(int i=0;i<n;++i){ C P=0; for(int q=0;q<np;++q){ double beta=0; for(int j=0;j<n;++j) beta+=a[j]*c[q][j]; P+=beta*c[q][i]/(m[q]*m[q]-s); } for(int j=0;j<n;++j) P+=a[j]*f[i][j]*(1+s0)/(s-s0); want+=F[0][i]*P; } else if( type==1 ) want=mul(F,K)[0][0]; else { for(int i=0;i<n;++i) want+=F[zch][i]*c[term][i]; want/=m[term]*m[term]-s; }
    const Particle& q = p.daughter(0)->isStable() ? *p.daughter(1) : *p.daughter(0); insitu::Expr e(Lineshape::Factory::get(q.lineshape(),q,insitu::db),insitu::eventMap(3)); e.event(ev); for(auto& x : par) e.set(x.first,x.second); cmp(g,"GenericKmatrix",e(),want,1e-6,1e-8*cond); }
}
int main(int argc, char** argv){
  pbt::Check c("P13","at least two channels, energies above threshold, a published parameterisation, or a barrier factor"); c.scale(2);
  c.assume("K-matrices with condition number below 1e5, energies away from poles and thresholds");
  c.prop("algebra", 6000, 100000, insitu::debugged(algebra)); c.prop("phasespace", 6000, 100000, insitu::debugged(phasespace)); c.prop("twobody", 6000, 60000, insitu::debugged(twobody)); c.prop("twobodyCM", 48, 300, insitu::debugged(twobodyCM)); c.prop("threebody", 3000, 50000, insitu::debugged(threebody)); c.prop("coupled", 6000, 60000, insitu::debugged(coupled)); c.prop("isoscalar", 3000, 30000, insitu::debugged(isoscalar)); c.prop("simple", 3000, 40000, insitu::debugged(simple)); c.prop("kpi", 4000, 40000, insitu::debugged(kpi)); c.prop("generic", 3000, 40000, insitu::debugged(generic));
  return c.main(argc,argv);
}
