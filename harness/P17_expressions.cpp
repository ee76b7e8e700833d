// P17: textual expressions of parameters evaluate to their mathematical meaning, for the current parameter values.
#include "pbt.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/ExpressionParser.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Tensor.h"
#include "AmpGen/Utilities.h"
#include <complex>
#include <memory>
using namespace AmpGen;
namespace {
  typedef std::complex<double> C;
  struct Env { std::map<std::string,double> v; bool polar=false; double sf=1; double eps=0; };
  typedef std::function<C(const Env&)> F;
  // values too large, too small or too close to a branch cut to be compared are discarded
  C ok(C z){ double a=std::abs(z); return a<1e5 && (a>1e-5 || a==0) ? z : C(NAN,NAN); }
  C cut(C z){ return std::abs(z)<1e-5 || (z.real()<=0 && std::fabs(z.imag())<1e-5*std::abs(z)) ? C(NAN,NAN) : z; }
  typedef std::vector<std::string> T;
  struct X { T t; F f; bool real; };
  struct P { pbt::Gen& g; std::vector<std::string> reals, cplx; std::vector<X> als; int budget=25;
    X atom(bool real){ --budget; if( als.size() && g.chance(1,3) ){ auto a=g.pick(als); if( a.real || !real ) return a; } switch( g.range(0,real?3:5) ){ 
        case 0: { double v=g.coin()?g.real(0.2,3):g.range(1,4); return {{g.chance(1,6)?"-"+pbt::str(v):pbt::str(v)},nullptr,true}; }
        case 1: { auto k=g.pick<std::string>({"PI","pi","M_PI"}); return {{k},[](const Env& e){ return C(M_PI*(1+0.7*e.eps)); },true}; }
        case 2: return {{"e"},[](const Env& e){ return C(std::exp(1.)*(1-1.3*e.eps)); },true};
        case 3: { auto n=g.pick(reals); return {{n},[n](const Env& e){ return C(e.v.at(n)); },true}; }
        case 4: return {{g.pick<std::string>({"I","i"})},[](const Env&){ return C(0,1); },false};
        default: { auto n=g.pick(cplx); return {{n},[n](const Env& e){ double a=e.v.at(n+"_Re"), b=e.v.at(n+"_Im"); return e.polar ? a*std::exp(C(0,b*e.sf)) : C(a,b); },false}; } } }
    static void fixNum(X& x){ if( !x.f ){ double v=strtod(x.t[0].c_str(),nullptr); x.f=[v](const Env& e){ return C(v*(1+e.eps)); }; } }
    static void put(T& a, const T& b){ a.insert(a.end(),b.begin(),b.end()); }
    X bracket(X x){ T t{"("}; put(t,x.t); t.push_back(")"); x.t=t; return x; }
    X operand(bool real, int depth){ X x; if( depth<=0 || budget<=0 || g.chance(2,5) ){ x=atom(real); fixNum(x); return x; }
      switch( g.range(0,5) ){ case 0: case 1: return bracket(sequence(real,depth-1));
        case 5: { X a=sequence(true,depth-1); if( !a.real ) return bracket(a); std::string n=g.pick<std::string>({"acos","asin","atan"}); X o; bool in=n!="atan"; o.t={n,"("}; if( in ){ put(o.t,{"0.9","*","sin"}); put(o.t,bracket(a).t); } else put(o.t,a.t); o.t.push_back(")"); o.real=true; auto f=a.f; if( n=="acos" ) o.f=[f](const Env& e){ return C(std::acos(0.9*std::sin(f(e).real()))); }; else if( n=="asin" ) o.f=[f](const Env& e){ return C(std::asin(0.9*std::sin(f(e).real()))); }; else o.f=[f](const Env& e){ return C(std::atan(f(e).real())); }; return o; }
        case 2: { static const char* fs[]={"sin","cos","tan","sqrt","exp","log","real","imag","abs"}; std::string n=fs[g.draw(9)]; X a=sequence(real&&n!="imag",depth-1); bool r=a.real; X o; o.t={n}; put(o.t,bracket(a).t); o.real=r||n=="real"||n=="imag"||n=="abs"; auto f=a.f; if( n=="sin" ) o.f=[f](const Env& e){ return ok(std::sin(f(e))); }; else if( n=="cos" ) o.f=[f](const Env& e){ return ok(std::cos(f(e))); }; else if( n=="tan" ) o.f=[f](const Env& e){ return ok(std::tan(f(e))); }; else if( n=="sqrt" ) o.f=[f](const Env& e){ return std::sqrt(cut(f(e))); }; else if( n=="exp" ) o.f=[f](const Env& e){ return ok(std::exp(f(e))); }; else if( n=="log" ) o.f=[f](const Env& e){ return std::log(cut(f(e))); }; else if( n=="real" ) o.f=[f](const Env& e){ return C(f(e).real()); }; else if( n=="imag" ) o.f=[f](const Env& e){ return C(f(e).imag()); }; else o.f=[f](const Env& e){ return C(std::abs(f(e))); };
          if( n=="sqrt"||n=="log" ) o.real=false; return o; }
        case 3: { X a=sequence(true,depth-1), b=sequence(true,depth-1); if( !a.real || !b.real ) return bracket(a); X o; o.t={"atan2"}; T in=a.t; in.push_back(","); put(in,b.t); o.t.push_back("("); put(o.t,in); o.t.push_back(")"); auto fa=a.f, fb=b.f; o.f=[fa,fb](const Env& e){ return C(std::atan2(fa(e).real()+e.eps,fb(e).real()-0.7*e.eps)); }; o.real=true; return o; }
        default: { X a=sequence(true,1), b=sequence(true,1), c=sequence(real,depth-1), d=sequence(real,depth-1); bool lt=g.coin(); bool andc=g.chance(1,3); X a2=sequence(true,1); T t{"Ternary","("}; put(t,a.t); t.push_back(lt?"<":">"); put(t,b.t); if( andc ){ t.push_back("&&"); put(t,b.t); t.push_back(lt?"<":">"); put(t,a2.t); } t.push_back(","); put(t,c.t); t.push_back(","); put(t,d.t); t.push_back(")"); auto fa=a.f, fb=b.f, fc=c.f, fd=d.f, f2=a2.f; X o; o.t=t; o.real=c.real&&d.real; o.f=[=](const Env& e){ double x=fa(e).real(), y=fb(e).real(), z=f2(e).real(); auto near=[](double p, double q){ return std::fabs(p-q)<1e-9*(1+std::fabs(p)+std::fabs(q)); }; if( !std::isfinite(x) || !std::isfinite(y) || (andc && !std::isfinite(z)) || near(x,y) || (andc && near(y,z)) ) return C(NAN,NAN); bool cond=lt?x<y:x>y; if( andc ) cond=cond&&(lt?y<z:y>z); C p=fc(e), q=fd(e); if( !std::isfinite(std::abs(p)) || !std::isfinite(std::abs(q)) ) return C(NAN,NAN); return cond?p:q; }; return o; } } }
    // operands joined by arithmetic operators, without brackets
    X sequence(bool real, int depth){ int n=g.chance(1,12)?g.range(5,12):g.range(1,4); std::vector<X> xs; std::vector<std::string> ops; for(int i=0;i<n;++i){ if( i ) ops.push_back(g.pick<std::string>({"+","-","*","/","+","-","*","/","^"})); xs.push_back(operand(real,depth)); }
      // powers only of positive numbers or parameters
      for(size_t i=0;i<ops.size();++i) if( ops[i]=="^" ){ if( i && ops[i-1]=="^" ) ops[i]="*"; else { X b; b.t={pbt::str(double(g.range(1,3)))}; fixNum(b); b.real=true; xs[i+1]=b; } }
      X o; o.real=true; for(auto& x : xs) o.real&=x.real; for(size_t i=0;i<xs.size();++i){ if( i ) o.t.push_back(ops[i-1]); put(o.t,xs[i].t); }
      std::vector<F> fs; for(auto& x : xs) fs.push_back(x.f); o.f=[fs,ops](const Env& e){ std::vector<C> v; for(auto& f : fs) v.push_back(f(e)); auto op=ops; auto red=[&](const std::string& a, const std::string& b, auto fn){ for(size_t i=0;i<op.size();) if( op[i]==a || op[i]==b ){ v[i]=fn(op[i][0],v[i],v[i+1]); v.erase(v.begin()+i+1); op.erase(op.begin()+i); } else ++i; }; red("^","^",[](char, C a, C b){ return ok(std::pow(a,b)); }); red("*","/",[](char c, C a, C b){ if( c=='/' && std::abs(b)<1e-6*(1e-3+std::abs(a)) ) return C(NAN,NAN); return ok(c=='*'?a*b:a/b); }); red("+","-",[](char c, C a, C b){ return ok(c=='+'?a+b:a-b); }); return v[0]; }; return o; }
  };
  std::string join(pbt::Gen& g, const T& t){ std::string s; for(size_t i=0;i<t.size();++i) s+=(i?(g.chance(1,10)?"  ":" "):"")+t[i]; return s; }
  bool fine(C v){ return std::isfinite(v.real()) && std::isfinite(v.imag()) && std::abs(v)<1e6; }
  void compare(pbt::Gen& g, const std::string& what, C got, C want){ double sc=std::max(1.,std::abs(want)); g.requirel(std::abs(got-want)<1e-8*sc,[&]{ return what + " is (" + pbt::str(got.real()) + "," + pbt::str(got.imag()) + "), expected (" + pbt::str(want.real()) + "," + pbt::str(want.imag()) + ")"; }); g.evals(1); }
  void config(pbt::Gen& g, Env& e){ int m=g.range(0,2); e.polar=m>0; e.sf=m==2?M_PI/180:1; OptionsParser::setArg(std::string("CouplingConstant::Coordinates ")+(m?"polar":"cartesian")); OptionsParser::setArg(std::string("CouplingConstant::AngularUnits ")+(m==2?"deg":"rad")); ExpressionParser::gExpressionParser=nullptr; if( m ) g.label(m==2?"polar deg":"polar"); }
  void build(pbt::Gen& g, MinuitParameterSet& s, Env& e, std::vector<std::string>& reals, std::vector<std::string>& cplx){ reals={"a","x::1","D0_mass","sinx"}; cplx={"c","D0{K-,pi+}"}; for(auto& n : reals){ e.v[n]=g.real(0.2,3); s.add(n,Flag::Free,e.v[n],0.1); } for(auto& n : cplx) for(auto q : {"_Re","_Im"}){ e.v[n+q]=g.real(-2,2); s.add(n+q,Flag::Free,e.v[n+q],0.1); } }
  bool condition(const F& f, const Env& e, C want){ // discards values that are unstable under rounding (branch cuts, cancellations)
    Env p=e; int i=0; for(auto& x : p.v) x.second*=1+1e-12*((++i%2)?1:-1.3); for(double eps : {1e-12,-1e-12}){ p.eps=eps; C w=f(p); if( !fine(w) || std::abs(w-want)>=1e-9*std::max(1.,std::abs(want)) ) return false; } return true; } /* */
  void value(pbt::Gen& g){ MinuitParameterSet s; Env e; config(g,e); P p{g}; build(g,s,e,p.reals,p.cplx); X x=p.sequence(g.coin(),3); std::string txt=join(g,x.t); g.desc(txt); C want=x.f(e); g.assume(fine(want) && condition(x.f,e,want)); if( x.t.size()>6 ) g.nontrivial();
    auto ex=ExpressionParser::parse(txt,&s); compare(g,"expression",ex(),want); T line{"name","="}; for(auto& t : x.t) line.push_back(t); MinuitExpression me(line,&s); compare(g,"alias",me.getVal(),want); g.close("alias as a real parameter",me.mean(),want.real(),1e-8,1e-8*std::max(1.,std::abs(want))); for(auto& v : e.v) if( g.coin() ){ v.second=v.second>0.2&&g.coin()?g.real(0.2,3):v.second*1.1; s.find(v.first)->setCurrentFitVal(v.second); } want=x.f(e); if( fine(want) && condition(x.f,e,want) ){ compare(g,"expression after parameters changed",ex(),want); compare(g,"alias after parameters changed",me.getVal(),want); } }
  // aliases that refer to other aliases, real or complex
  void chain(pbt::Gen& g){ MinuitParameterSet s; Env e; config(g,e); P p{g}; build(g,s,e,p.reals,p.cplx); int n=g.range(2,4); std::string d; std::vector<std::pair<MinuitExpression*,F>> as; for(int i=0;i<n;++i){ p.budget=8; X x=p.sequence(g.chance(1,3),2); std::string nm=g.pick<std::string>({"al","zz","f::"})+std::to_string(i); T line{nm,"="}; for(auto& t : x.t) line.push_back(t); d+=join(g,line)+"; "; auto me=new MinuitExpression(line,&s); g.require(s.add(me),"the alias is added"); as.push_back({me,x.f}); p.als.push_back(X{{nm},x.f,x.real}); } g.desc(d); g.nontrivial(); bool any=false; auto check=[&](const std::string& when){ for(auto& a : as){ C w=a.second(e); if( fine(w) && condition(a.second,e,w) ){ any=true; compare(g,"alias "+a.first->name()+when,a.first->getVal(),w); g.require(s.find(a.first->name())==a.first,"aliases are found by name"); } } }; check(""); for(auto& v : e.v) if( g.coin() ){ v.second*=g.pick<double>({1.1,0.9,1.3}); s.find(v.first)->setCurrentFitVal(v.second); } check(" after parameters changed"); if( !any ) g.discard(); }
  void special(pbt::Gen& g){ MinuitParameterSet s; Env e; config(g,e); P p{g}; build(g,s,e,p.reals,p.cplx); g.nontrivial(); if( g.coin() ){ int n=g.range(1,4); std::vector<X> xs; std::string txt="{"; for(int i=0;i<n;++i){ p.budget=6; xs.push_back(p.sequence(true,2)); txt+=(i?" , ":" ")+join(g,xs.back().t); } txt+=" }"; g.desc(txt); auto ex=ExpressionParser::parse(txt,&s); g.require(is<TensorExpression>(ex),"braces give a tensor"); auto t=cast<TensorExpression>(ex).tensor(); g.require(int(t.size())==n,"number of elements"); for(int i=0;i<n;++i){ C w=xs[i].f(e); if( fine(w) && condition(xs[i].f,e,w) ) compare(g,"element "+std::to_string(i),t[i](),w); } }
    else { std::string k; int l=g.range(1,6); for(int i=0;i<l;++i) k+="abcdefXYZ"[g.draw(9)]; k="q"+k; double lo=g.real(-5,5), hi=lo+g.real(0.1,5); std::string txt="Secret ( "+k+" , "+pbt::str(lo)+" , "+pbt::str(hi)+" )"; g.desc(txt); C v=ExpressionParser::parse(txt,&s)(), w=ExpressionParser::parse(txt,&s)(); g.require(v==w && v.imag()==0,"a secret offset depends on its key only"); g.require(v.real()>=lo && v.real()<=hi,"a secret offset lies in its range"); C u=ExpressionParser::parse("Secret ( "+k+"Q , "+pbt::str(lo)+" , "+pbt::str(hi)+" )",&s)(); g.require(u!=v,"secret offsets of different keys differ"); } }
  void unknown(pbt::Gen& g){ MinuitParameterSet s; s.add("known",Flag::Free,1,1); std::string n=g.pick<std::string>({"unknown","knownn","know","known_Re","Known","foo::bar","1.2.3","PIx","ii"}); g.desc(n); g.nontrivial(); auto ex=ExpressionParser::parse(n,&s); g.require(is<Parameter>(ex) && cast<Parameter>(ex).name()==n,"an unknown name stays a named parameter"); auto e2=ExpressionParser::parse("known",&s); g.require(e2()==C(1),"a known name is linked to the parameter"); }
}
int main(int argc, char** argv){
  pbt::Check c("P17","more than six tokens; any tensor, secret offset or unknown name"); c.scale(2);
  c.prop("value", 30000, 600000, value); c.prop("chain", 8000, 150000, chain); c.prop("special", 6000, 60000, special); c.prop("unknown", 200, 2000, unknown);
  return c.main(argc,argv);
}
