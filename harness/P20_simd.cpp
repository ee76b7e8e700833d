// P20: vector arithmetic: every lane is the scalar result.
#include "pbt.h"
#include "AmpGen/simd/avx2d_types.h"
#undef libmvec_alias
#include "AmpGen/simd/avx2f_types.h"
#include "AmpGen/simd/utils.h"
#include "AmpGen/KahanSum.h"
#include <complex>
#include <algorithm>
#include <numeric>
#include <tuple>
#include "AmpGen/MetaUtils.h"
#include "AmpGen/Utilities.h"
// the helpers once more, as they are in a single precision build
#pragma push_macro("INSTRUCTION_SET")
#undef AMPGEN_SIMD_UTILS_H
#undef INSTRUCTION_SET
#define INSTRUCTION_SET 1
namespace single { namespace AmpGen { using namespace ::AmpGen; }
#include "AmpGen/simd/utils.h"
}
#pragma pop_macro("INSTRUCTION_SET")
namespace {
  template <class V> struct L { typedef typename V::scalar_type S; static constexpr unsigned n=V::size; static double tol(){ return sizeof(S)==8?1e-13:2e-5; } typedef std::array<S,V::size> A; };
  template <class V> typename L<V>::A fill(pbt::Gen& g, int mode){ typename L<V>::A a; for(auto& x : a){ double v=0; switch( mode ){ case 0: v=g.real(-5,5); break; case 1: v=g.real(0.01,20); break; case 2: v=g.chance(1,4)?0:g.logreal(1e-6,1e6)*(g.coin()?1:-1); break; case 3: v=g.range(-4,4); break; case 4: v=g.real(-40,40); break; default: v=g.real(-1,1); } x=typename V::scalar_type(v); if( x==0 ) x=0; } return a; }
  template <class V> V vec(const typename L<V>::A& a){ return V(a.data()); }
  template <class A> std::string show(const A& a){ std::string s="{"; for(auto x : a) s+=pbt::str(double(x))+" "; return s+"}"; }
  void near(pbt::Gen& g, const std::string& what, double got, double want, double tol){ g.requirel((std::isnan(got) && std::isnan(want)) || got==want || std::fabs(got-want)<=tol,[&]{ return what + " is " + pbt::str(got) + ", expected " + pbt::str(want); }); g.evals(1); }
  template <class V> void real(pbt::Gen& g){ typedef L<V> T; typedef typename V::scalar_type S; int mode=g.range(0,5); auto a=fill<V>(g,mode), b=fill<V>(g,mode), c=fill<V>(g,mode); if( g.chance(1,3) ) b[g.draw(T::n)]=a[g.draw(T::n)], b[0]=a[0]; g.desc(show(a)+" "+show(b)+" "+show(c)); g.nontrivial(); V x=vec<V>(a), y=vec<V>(b), z=vec<V>(c); 
    auto each=[&](const char* nm, const V& r, auto f, double rel=1, double abst=0){ auto arr=r.to_array(); for(unsigned i=0;i<T::n;++i){ double w=f(a[i],b[i],c[i]); near(g,std::string(nm)+" of lane "+std::to_string(i)+" ("+pbt::str(a[i])+", "+pbt::str(b[i])+")",arr[i],w,rel*T::tol()*std::fabs(w)+abst*T::tol()); g.require((std::isnan(r.at(i)) && std::isnan(arr[i])) || r.at(i)==arr[i],"lane access"); } };
    each("sum",x+y,[](S p,S q,S){ return p+q; }); each("difference",x-y,[](S p,S q,S){ return p-q; }); each("product",x*y,[](S p,S q,S){ return p*q; }); each("quotient",x/y,[](S p,S q,S){ return p/q; }); each("negative",-x,[](S p,S,S){ return -p; },0); each("abs",abs(x),[](S p,S,S){ return std::fabs(p); },0); each("sqrt",sqrt(abs(x)),[](S p,S,S){ return std::sqrt(std::fabs(p)); }); { auto r=fmadd(x,y,z).to_array(); for(unsigned i=0;i<T::n;++i) near(g,"fmadd of lane "+std::to_string(i),r[i],double(a[i])*b[i]+c[i],T::tol()*(std::fabs(double(a[i])*b[i])+std::fabs(c[i]))); } 
    each("conj",V(x),[](S p,S,S){ return p; }); { V t=x; t+=y; each("+=",t,[](S p,S q,S){ return p+q; }); t=x; t-=y; each("-=",t,[](S p,S q,S){ return p-q; }); t=x; t*=y; each("*=",t,[](S p,S q,S){ return p*q; }); t=x; t/=y; each("/=",t,[](S p,S q,S){ return p/q; }); }
    each("sin",sin(x),[](S p,S,S){ return std::sin(p); },mode==2?1e3:10,mode==2?1e3:10); each("cos",cos(x),[](S p,S,S){ return std::cos(p); },mode==2?1e3:10,mode==2?1e3:10); { auto sc=sincos(x); each("sincos",sc.first,[](S p,S,S){ return std::sin(p); },mode==2?1e3:10,mode==2?1e3:10); each("sincos",sc.second,[](S p,S,S){ return std::cos(p); },mode==2?1e3:10,mode==2?1e3:10); } if( mode!=2 ){ each("exp",exp(x),[](S p,S,S){ return std::exp(p); },10*40); auto t=tan(x).to_array(); for(unsigned i=0;i<T::n;++i) if( std::fabs(std::cos(a[i]))>0.05 ) near(g,"tan",t[i],std::tan(a[i]),T::tol()*1e4); }
    each("log",log(abs(x)),[](S p,S,S){ return std::log(std::fabs(p)); },10,10); each("atan2",atan2(x,y),[](S p,S q,S){ return std::atan2(p,q); },10,10);
    auto sg=sign(x).to_array(); for(unsigned i=0;i<T::n;++i) if( a[i]!=0 ) near(g,"sign",sg[i],a[i]>0?1:-1,0);
    { auto r=fmod(x,y).to_array(); for(unsigned i=0;i<T::n;++i) if( b[i]!=0 && std::fabs(a[i]/b[i])<1e4 ){ double w=std::fmod(double(a[i]),double(b[i])), per=std::fabs(b[i]); double d=std::fabs(r[i]-w); double tl=T::tol()*10*(std::fabs(a[i])+per); if( std::fabs(w)<tl || std::fabs(std::fabs(w)-per)<tl ) d=std::min(d,std::fabs(d-per)); g.requirel(d<=tl,[&]{ return "fmod("+pbt::str(a[i])+","+pbt::str(b[i])+") is "+pbt::str(r[i])+", expected "+pbt::str(w); }); g.evals(1); } }
    // comparisons and selections
    auto pick=[&](const char* nm, const V& m, auto f){ auto r=select(m,V(S(1)),V(S(-1))).to_array(), q=select(!m,z,x).to_array(); for(unsigned i=0;i<T::n;++i){ bool w=f(a[i],b[i],c[i]); near(g,std::string(nm)+" of lane "+std::to_string(i),r[i],w?1:-1,0); near(g,std::string("select by not ")+nm,q[i],w?a[i]:c[i],0); } };
    pick("<",x<y,[](S p,S q,S){ return p<q; }); pick(">",x>y,[](S p,S q,S){ return p>q; }); pick("<=",x<=y,[](S p,S q,S){ return p<=q; }); pick(">=",x>=y,[](S p,S q,S){ return p>=q; }); pick("==",x==y,[](S p,S q,S){ return p==q; }); pick("&&",(x<y)&&(y<z),[](S p,S q,S r){ return p<q && q<r; }); pick("||",(x<y)||(y<z),[](S p,S q,S r){ return p<q || q<r; }); pick("&",(x<y)&(y<z),[](S p,S q,S r){ return p<q && q<r; }); pick("|",(x<y)|(y<z),[](S p,S q,S r){ return p<q || q<r; }); pick("^",(x<y)^(y<z),[](S p,S q,S r){ return (p<q)!=(q<r); });
    bool k=g.coin(); each("scalar select",select(k,x,y),[k](S p,S q,S){ return k?p:q; }); V s1(S(2.5)); for(unsigned i=0;i<T::n;++i) near(g,"broadcast",s1.at(i),2.5,0); typename L<V>::A buf; x.store(buf.data()); for(unsigned i=0;i<T::n;++i) near(g,"stored lane",buf[i],a[i],0);
    // gather
    std::vector<double> table(50); for(auto& t : table) t=g.real(-3,3); typename L<V>::A idx; for(auto& i : idx) i=S(g.range(0,49))+(g.coin()?S(0):S(g.pick<double>({0.25,0.5,0.75}))); for(auto& i : idx) if( i>49 ) i=49; auto ga=gather(table.data(),vec<V>(idx)).to_array(); for(unsigned i=0;i<T::n;++i) near(g,"element "+pbt::str(idx[i])+" of an array",ga[i],S(table[size_t(idx[i])]),0); }
  template <class V> void cplx(pbt::Gen& g){ typedef L<V> T; typedef std::complex<double> C; typedef AmpGen::Complex<V> CV; int mode=g.pick<int>({0,1,3,5}); auto ar=fill<V>(g,mode), ai=fill<V>(g,mode), br=fill<V>(g,mode), bi=fill<V>(g,mode), r=fill<V>(g,mode); if( g.chance(1,3) ) for(auto& q : ai) q=0; g.desc(show(ar)+" "+show(ai)+" "+show(br)+" "+show(bi)); g.nontrivial(); CV x(vec<V>(ar),vec<V>(ai)), y(vec<V>(br),vec<V>(bi)); V z=vec<V>(r);
    auto each=[&](const char* nm, const CV& v, auto f, double k=20){ for(unsigned i=0;i<T::n;++i){ C a(ar[i],ai[i]), b(br[i],bi[i]); C w=f(a,b,double(r[i])); if( !std::isfinite(std::abs(w)) ) continue; std::string t=std::string(nm)+" of lane "+std::to_string(i)+" ("+pbt::str(a.real())+","+pbt::str(a.imag())+") ("+pbt::str(b.real())+","+pbt::str(b.imag())+")"; double tol=k*T::tol()*(std::abs(w)+(std::string(nm).find('*')!=std::string::npos||std::string(nm).size()==1?std::abs(a)+std::abs(b):0)); near(g,"real part of "+t,v.real().at(i),w.real(),tol); near(g,"imaginary part of "+t,v.imag().at(i),w.imag(),tol); } };
    each("+",x+y,[](C a,C b,double){ return a+b; }); each("-",x-y,[](C a,C b,double){ return a-b; }); each("*",x*y,[](C a,C b,double){ return a*b; }); each("/",x/y,[](C a,C b,double){ return b==0.?C(NAN):a/b; }); each("x+r",x+z,[](C a,C,double q){ return a+q; }); each("x-r",x-z,[](C a,C,double q){ return a-q; },100); each("x*r",x*z,[](C a,C,double q){ return a*q; }); each("x/r",x/z,[](C a,C,double q){ return q==0?C(NAN):a/q; }); each("r+x",z+x,[](C a,C,double q){ return q+a; }); each("r-x",z-x,[](C a,C,double q){ return q-a; },100); each("r*x",z*x,[](C a,C,double q){ return q*a; }); each("r/x",z/x,[](C a,C,double q){ return a==0.?C(NAN):q/a; });
    each("negative",-x,[](C a,C,double){ return -a; }); each("conj",conj(x),[](C a,C,double){ return std::conj(a); }); each("exp",exp(x),[](C a,C,double){ return std::exp(a); },100*20); each("log",log(x),[](C a,C,double){ if( std::abs(std::abs(a)-1)<0.05 ) return C(NAN); return a==0.?C(NAN):std::log(a); },100); { CV t=x; t+=y; each("+=",t,[](C a,C b,double){ return a+b; },100); t=x; t*=y; each("*=",t,[](C a,C b,double){ return a*b; },100); t=x; t-=y; each("-=",t,[](C a,C b,double){ return a-b; },100); t=x; t/=y; each("/=",t,[](C a,C b,double){ return b==0.?C(NAN):a/b; },100); }
    // square root: compared by its square, away from cancellations in the components, and by its branch
    auto s=sqrt(x); for(unsigned i=0;i<T::n;++i){ C a(ar[i],ai[i]), w=std::sqrt(a); std::string t="sqrt of ("+pbt::str(a.real())+","+pbt::str(a.imag())+")"; double tol=std::sqrt(T::tol())*std::sqrt(std::abs(a))*(T::n==4?1:1); near(g,"real part of "+t,s.real().at(i),w.real(),tol); near(g,"imaginary part of "+t,s.imag().at(i),w.imag(),tol); }
    for(unsigned i=0;i<T::n;++i){ C a(ar[i],ai[i]); near(g,"abs",abs(x).at(i),std::abs(a),20*T::tol()*std::abs(a)); near(g,"norm",norm(x).at(i),std::norm(a),20*T::tol()*std::norm(a)); near(g,"norm",x.norm().at(i),std::norm(a),20*T::tol()*std::norm(a)); near(g,"real",real(x).at(i),ar[i],0); near(g,"imag",imag(x).at(i),ai[i],0); }
    V m=vec<V>(ar)<vec<V>(br); each("select",select(m,x,y),[](C a,C b,double){ return a.real()<b.real()?a:b; }); each("select real complex",select(m,z,y),[](C a,C b,double q){ return a.real()<b.real()?C(q):b; }); each("select complex real",select(m,x,z),[](C a,C b,double q){ return a.real()<b.real()?a:C(q); }); bool k=g.coin(); each("scalar select",select(k,x,y),[k](C a,C b,double){ return k?a:b; }); CV one(std::complex<double>(1.5,-2)); for(unsigned i=0;i<T::n;++i){ near(g,"broadcast",one.real().at(i),1.5,0); near(g,"broadcast",one.imag().at(i),-2,0); } CV re(z); for(unsigned i=0;i<T::n;++i){ near(g,"complex made from a real number",re.real().at(i),r[i],0); near(g,"complex made from a real number",re.imag().at(i),0,0); } }
  // helpers of the double precision type
  void helpers(pbt::Gen& g){ using namespace AmpGen; typedef real_v V; size_t n=g.range(1,23); std::vector<double> c(n); for(auto& x : c) x=g.real(-9,9); g.desc(std::to_string(n)+" elements"); g.nontrivial(); auto f=[](double x){ return 2*x+1; }; 
    g.require(utils::aligned_size<real_v>(n)%4==0 && utils::aligned_size<real_v>(n)>=n && utils::aligned_size<real_v>(n)<n+4 && utils::aligned_size<double>(n)==n && utils::aligned_size<real_v>(0)==0,"aligned size"); bool given=g.coin(); double df=g.coin()?0.:g.real(0.5,2); for(size_t o=0;o<utils::aligned_size<real_v>(n);o+=4){ V v= given ? utils::gather<real_v>(c,f,o,df) : utils::gather<real_v>(c,f,o); for(int k=0;k<4;++k) near(g,"gathered element",v.at(k),o+k<n?f(c[o+k]):(given?df:f(c[n-1])),0); double s=utils::sum_elements(v); near(g,"sum of elements",s,v.at(0)+v.at(1)+v.at(2)+v.at(3),1e-12); double buf[4]; utils::store(buf,v); for(int k=0;k<4;++k){ near(g,"stored",buf[k],v.at(k),0); near(g,"at",utils::at(v,k),v.at(k),0); } near(g,"get",utils::get<2>(v),v.at(2),0); complex_v z(v,v*2.); auto q=utils::at(z,1); near(g,"at",q.real(),v.at(1),0); near(g,"at",q.imag(),2*v.at(1),0); auto p=utils::get<3>(z); near(g,"get",p.imag(),2*v.at(3),0); near(g,"norm",utils::norm(z).at(0),5*v.at(0)*v.at(0),1e-10); near(g,"norm",utils::norm(std::complex<double>(3,4)),25,1e-12); bool all=true; for(int k=0;k<4;++k) all&=v.at(k)>-10.; g.require(utils::all_of(v>V(-10.))==all,"all_of"); V w=v; g.require(utils::all_of(w,v),"all lanes equal"); int l=g.draw(4); w.to_ptr()[l]+=1; g.require(!utils::all_of(w,v),"not all lanes equal");  }
    KahanSum<real_v> ks; std::array<__float128,4> exact={0,0,0,0}; int m=g.range(1,200); for(int i=0;i<m;++i){ std::array<double,4> x; for(int k=0;k<4;++k){ x[k]=g.logreal(1e-12,1e12)*(g.coin()?1:-1); exact[k]+=x[k]; } ks+=V(x.data()); } (void)exact; double mag[4]; (void)mag; V t=ks(); for(int k=0;k<4;++k) near(g,"compensated sum",t.at(k),double(exact[k]),5e-16*std::fabs(double(exact[k]))+1e-31*1e12*m*m*m); }
}
namespace { void helpersSingle(pbt::Gen& g){ namespace su=single::AmpGen::utils; typedef ::AmpGen::AVX2f::real_v V; typedef ::AmpGen::AVX2f::complex_v CV; size_t n=g.range(1,40); std::vector<float> c(n); for(auto& x : c) x=float(g.real(-3,3)); auto f=[](float x){ return 2*x+1; }; g.desc(std::to_string(n)+" "+pbt::str(c[0])); g.nontrivial();
  g.require(su::aligned_size<V>(n)%8==0 && su::aligned_size<V>(n)>=n && su::aligned_size<V>(n)<n+8,"aligned size"); bool given=g.coin(); float df=g.coin()?0.f:float(g.real(0.5,2)); for(size_t o=0;o<su::aligned_size<V>(n);o+=8){ V v= given ? su::gather<V>(c,f,o,df) : su::gather<V>(c,f,o); double s=0; float buf[8]; su::store(buf,v); for(int k=0;k<8;++k){ near(g,"gathered element",v.at(k),o+k<n?f(c[o+k]):(given?df:f(c[n-1])),0); s+=v.at(k); near(g,"stored",buf[k],v.at(k),0); near(g,"at",su::at(v,k),v.at(k),0); } near(g,"sum of elements",su::sum_elements(v),s,1e-4); near(g,"get",su::get<5>(v),v.at(5),0); CV z(v,v*V(2.f)); auto q=su::at(z,6); near(g,"at",q.real(),v.at(6),0); near(g,"at",q.imag(),2*v.at(6),0); V w=v; g.require(su::all_of(w,v),"all lanes equal"); int l=g.draw(8); w.to_ptr()[l]+=1; g.require(!su::all_of(w,v),"not all lanes equal"); g.require(!su::all_of(w>v),"all_of with one lane set"); g.require(su::all_of(w>=v),"all_of with all lanes set"); } } }
int main(int argc, char** argv){
  pbt::Check c("P20","all cases");
  c.prop("real-double", 40000, 600000, real<AmpGen::AVX2d::real_v>); c.prop("real-float", 20000, 300000, real<AmpGen::AVX2f::real_v>); c.prop("complex-double", 40000, 600000, cplx<AmpGen::AVX2d::real_v>); c.prop("complex-float", 20000, 300000, cplx<AmpGen::AVX2f::real_v>); c.prop("helpers", 8000, 100000, helpers);
  c.prop("helpers-single",3000,50000,helpersSingle); return c.main(argc,argv);
}
