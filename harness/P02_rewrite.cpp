// P02: every algebraic rewriting of an expression (constant folding, simplification, grouping,
// common sub-expressions) preserves its value; distinct sub-expressions never share a key.
#include "expr_gen.h"
#include "AmpGen/Simplify.h"
using namespace AmpGen;
typedef std::complex<double> cplx;
namespace {
  void world(pbt::Gen& g, eg::Env& env){
    for(int i=0;i<3;++i){ env.evNames.push_back("e"+std::to_string(i)); env.parNames.push_back("p"+std::to_string(i)); }
    env.ev.push_back({}); env.par.push_back({}); for(int i=0;i<3;++i){ env.ev[0].push_back(g.real(-2,2)); env.par[0].push_back(g.real(-2,2)); }
  }
  std::string vars(eg::Env& env){ std::string t; for(int i=0;i<3;++i) t += " e" + std::to_string(i) + "=" + pbt::str(env.ev[0][i]) + " p" + std::to_string(i) + "=" + pbt::str(env.par[0][i]); return t; }
  double tol(const eg::Node& n){ return 2e4*eg::EPS*(n.mag.empty() ? std::abs(n.v[0]) : n.mag[0]) + 200*n.err[0] + 1e-13; }

  void simplify(pbt::Gen& g){
    eg::Options o; o.maxSize = 14; eg::Env env(g,o,1); world(g,env); auto n = env.gen(g.range(1,6), g.coin());
    g.desc(n.txt + " at" + vars(env)); if( n.size >= 5 ) g.nontrivial();
    g.assume(n.terms <= 300);
    auto mag = tol(n);
    g.close("value of the simplified expression", Simplify(n.e)(), n.v[0], 1e-12, mag);
    g.close("value with sub-trees expanded", Expression(NormalOrderedExpression(n.e,true))(), n.v[0], 1e-12, mag);
    g.close("value simplified twice", Simplify(Simplify(n.e))(), n.v[0], 1e-12, mag*4);
    g.close("value as a common sub-expression", make_cse(n.e, true)(), n.v[0], 1e-12, mag);
  }
  // operators on pre-built expressions of every shape, including all assignment forms and mixed scalar operands
  void folding(pbt::Gen& g){
    eg::Options o; o.maxSize = 8; eg::Env env(g,o,1); world(g,env);
    auto n = env.gen(g.range(0,3), g.coin()); int steps = g.range(1,6); std::string t = n.txt; 
    for(int k=0;k<steps;++k){
      env.used = 0; auto m = env.gen(g.range(0,3), g.coin()); int op = g.range(0,3); if( op==3 && std::abs(m.v[0]) < 1e-2 ) op=0;
      auto ref = env.binary(n,m,op); if( !env.sane(ref) ) continue;
      int form = g.range(0,3);
      if( form==0 ){ Expression e = n.e; switch(op){ case 0: e += m.e; break; case 1: e -= m.e; break; case 2: e *= m.e; break; default: e /= m.e; } ref.e = e; ref.txt = "(" + ref.txt + ")="; }
      else if( form==1 ){ ref = env.binary(n,m,op); }
      else if( form==2 && std::abs(n.v[0]) > 1e-2 ){ op = g.range(0,3); ref = env.binary(m,n,op); if( !env.sane(ref) ) continue; }
      else { double c = env.constant(); auto cn = env.leafConst(c,false); ref = g.coin() ? env.binary(n,cn,op) : env.binary(cn,n,op==3 && std::abs(n.v[0])<1e-2 ? 0 : op); if( !env.sane(ref) ) continue; }
      n = ref;
      g.close("value after " + std::to_string(k+1) + " operations: " + n.txt, n.e(), n.v[0], 1e-12, tol(n));
    }
    g.desc(n.txt + " at" + vars(env)); if( steps >= 2 ) g.nontrivial();
  }
  uint64_t keyOf(const Expression& e){ return is<SubTree>(e) ? cast<SubTree>(e).key() : 0; }
  // sums of products: like terms are collected whatever the order they are written in
  void collect(pbt::Gen& g){
    const char* nm[]={"x","y","z"}; double val[3]={g.real(-2,2),g.real(-2,2),g.real(-2,2)}; std::vector<Expression> X; for(int i=0;i<3;++i) X.push_back(Parameter(nm[i],val[i]));
    struct M { std::array<int,3> p; int c; }; int n=g.range(1,7); std::vector<M> ms; for(int i=0;i<n;++i){ M m; for(int& k : m.p) k=g.range(0,2); if( i && g.coin() ) m.p=ms[g.draw(i)].p; if( m.p[0]+m.p[1]+m.p[2]==0 ) m.p[g.draw(3)]=1; m.c=g.range(-3,3); if( m.c==0 ) m.c=2; ms.push_back(m); }
    auto build=[&](const std::vector<M>& v, std::string& t){ Expression e; bool first=true; double s=0; for(auto& m : v){ std::vector<Expression> f; for(int k=0;k<3;++k) for(int j=0;j<m.p[k];++j) f.push_back(X[k]); std::vector<int> o; for(size_t k=0;k<f.size();++k) o.push_back(k); g.shuffle(o); Expression q=f[o[0]]; for(size_t k=1;k<o.size();++k) q=q*f[o[k]]; q = g.coin() ? Expression(double(m.c))*q : q*double(m.c); t += (first?"":" + ") + std::to_string(m.c) + "*"; for(int k=0;k<3;++k) for(int j=0;j<m.p[k];++j) t+=nm[k]; e = first ? q : g.coin() ? e+q : q+e; first=false; double w=m.c; for(int k=0;k<3;++k) w*=std::pow(val[k],m.p[k]); s+=w; } return std::make_pair(e,s); };
    std::string t1,t2; auto a=build(ms,t1); auto ms2=ms; g.shuffle(ms2); auto b=build(ms2,t2); std::map<std::array<int,3>,int> want; for(auto& m : ms) want[m.p]+=m.c; g.desc(t1 + "  and  " + t2); if( want.size()<ms.size() && ms.size()>2 ) g.nontrivial();
    g.close("value",Simplify(a.first)(),a.second,1e-12,1e-11); g.close("value of the other order",Simplify(b.first)(),a.second,1e-12,1e-11);
    auto sa=Simplify(a.first).to_string(), sb=Simplify(b.first).to_string(); g.require(sa==sb,"the same sum is simplified to " + sa + " and to " + sb);
    g.require(keyOf(make_cse(a.first,true))==keyOf(make_cse(b.first,true)),"the same sum has two simplified sub-expression keys");
    g.require(Simplify(a.first - b.first).to_string()==Simplify(Expression(0.)).to_string(),"difference of equal sums is simplified to " + Simplify(a.first-b.first).to_string()); }
  // distinct expressions get distinct common sub-expression keys
  void keys(pbt::Gen& g){
    eg::Options o; o.maxSize = 10; o.ternary = false; eg::Env env(g,o,1); world(g,env);
    // a family: one skeleton, one hole
    auto ctx = env.gen(g.range(1,4), false);
    auto hole = [&](int k, double c) -> eg::Node { auto x = env.evVar(0); 
      for(auto& v : x.v) v = std::fabs(v.real())+0.5; x.e = fcn::abs(x.e) + 0.5; x.txt = "(|e0|+0.5)"; x.v[0] = std::abs(env.ev[0][0])+0.5; x.err[0]=1e-15;
      eg::Node n = x; n.mag.clear(); double v = x.v[0].real();
      switch(k){ case 0: n.e = fcn::pow(x.e, Expression(c)); n.v[0] = std::pow(v,c); n.txt = "pow(x," + pbt::str(c) + ")"; break;
        case 1: n.e = x.e*c; n.v[0] = v*c; n.txt = "x*" + pbt::str(c); break;
        case 2: n.e = fcn::sin(x.e + c); n.v[0] = std::sin(v+c); n.txt = "sin(x+" + pbt::str(c) + ")"; break;
        case 3: n.e = fcn::atan2(x.e, Expression(c)); n.v[0] = std::atan2(v,c); n.txt = "atan2(x," + pbt::str(c) + ")"; break;
        case 4: n.e = Ternary( x.e < c, Expression(env.parVar(0).e), Expression(env.parVar(1).e) ); n.v[0] = v < c ? env.par[0][0] : env.par[0][1]; n.txt = "x<" + pbt::str(c) + "?p0:p1"; break;
        case 5: n.e = fcn::exp(x.e*c*0.1); n.v[0] = std::exp(v*c*0.1); n.txt = "exp(x*0.1*" + pbt::str(c) + ")"; break;
        default: n.e = x.e/(env.parVar(2).e*env.parVar(2).e + c*c + 0.3); n.v[0] = v/(env.par[0][2]*env.par[0][2]+c*c+0.3); n.txt = "x/(p2^2+" + pbt::str(c) + "^2+.3)"; }
      return n; };
    g.assume(ctx.terms <= 300);
    int k = g.range(0,6); double c1 = g.real(0.5,3), c2;
    switch( g.range(0,2) ){ case 0: c2 = c1*(1+1e-7); break; case 1: c2 = g.real(0.5,3); break; default: c2 = c1 + g.pick({1.,-0.1,1e-9}); }
    int k2 = g.chance(3,4) ? k : g.range(0,6);
    auto h1 = hole(k,c1), h2 = hole(k2,c2); int op = g.range(0,2); auto A = env.binary(ctx,h1,op), B = env.binary(ctx,h2,op);
    g.desc("A = " + A.txt + "   B = " + B.txt + vars(env));
    bool differ = std::abs(h1.v[0]-h2.v[0]) > 1e-12*(std::abs(h1.v[0])+std::abs(h2.v[0])) && (op != 2 || std::abs(ctx.v[0]) > 1e-6);
    g.close("value of A", A.e(), A.v[0], 1e-11, tol(A)); g.close("value of simplified A", Simplify(A.e)(), A.v[0], 1e-11, tol(A));
    if( differ ){ g.nontrivial();
      g.require(keyOf(make_cse(A.e)) != keyOf(make_cse(B.e)) || keyOf(make_cse(A.e)) == 0, "two expressions with different values share a sub-expression key");
      g.require(keyOf(make_cse(A.e,true)) != keyOf(make_cse(B.e,true)) || keyOf(make_cse(A.e,true)) == 0, "two expressions with different values share a simplified sub-expression key"); }
    g.require(keyOf(make_cse(A.e)) == keyOf(make_cse(A.e)), "key is not a function of the expression");
  }
  // the derivative attached to each elementary function is its derivative
  void derivative(pbt::Gen& g){
    int k = g.range(0,9); double lo=-3, hi=3; if( k<3 ) { lo=0.05; hi=10; } if( k==7||k==8 ){ lo=-0.95; hi=0.95; } if( k==6 ){ lo=-1.4; hi=1.4; }
    double x = g.real(lo,hi); 
    auto mk = [&](double v) -> Expression { Expression a = Parameter("x",v); switch(k){ case 0: return Log(a); case 1: return Sqrt(a); case 2: return ISqrt(a); case 3: return Exp(a); case 4: return Sin(a); case 5: return Cos(a); case 6: return Tan(a); case 7: return ASin(a); case 8: return ACos(a); default: return ATan(a); } };
    static const char* names[] = {"log","sqrt","1/sqrt","exp","sin","cos","tan","asin","acos","atan"};
    g.desc(std::string("d/dx ") + names[k] + " at " + pbt::str(x)); g.nontrivial(); g.label(names[k]);
    double h = 1e-3*(k==7||k==8 ? 1-std::fabs(x) : k<3 ? x : std::max(0.1,1.5-std::fabs(x))); auto f = [&](double v){ return mk(v)().real(); };
    double num = (8*(f(x+h)-f(x-h)) - (f(x+2*h)-f(x-2*h)))/(12*h);
    auto e = mk(x); auto* u = dynamic_cast<IUnaryExpression*>(e.get()); g.require(u != nullptr, "elementary function is not a unary expression");
    g.close("derivative", u->d()().real(), num, 1e-6, 1e-6);
  }
  // nodes built directly: pairs of arguments, selections by a plain number, parameters that are already resolved
  void builders(pbt::Gen& g){
    auto num=[&]{ double v = g.chance(1,6) ? double(g.range(-3,3)) : g.logreal(1e-6,1e3)*(g.coin()?1:-1); return v==0 ? 0. : v; };
    double x=num(), y=num(); if( y==0 ) y=1.5; bool rx=g.coin(), ry=g.coin(); Expression a=Parameter("a",x,rx), b=Parameter("b",y,ry); if( g.chance(1,3) ) a=Expression(x);
    g.desc("a=" + pbt::str(x) + (rx?" (resolved)":"") + ", b=" + pbt::str(y) + (ry?" (resolved)":"")); g.nontrivial();
    g.require(a()==cplx(x) && b()==cplx(y),"value of a parameter"); Expression pk=ExpressionPack(a,b);
    auto two=[&](const char* what, const Expression& direct, const Expression& packed, double want){ g.evals(2); g.close(std::string(what)+" of two arguments",direct(),cplx(want),1e-12,1e-300); g.close(std::string(what)+" of a pair",packed(),cplx(want),1e-12,1e-300); };
    two("sum",Sum(a,b),Sum(pk),x+y); two("difference",Sub(a,b),Sub(pk),x-y); two("product",Product(a,b),Product(pk),x*y); two("ratio",Divide(a,b),Divide(pk),x/y); two("atan2",ATan2(a,b),ATan2(pk),std::atan2(x,y));
    two("less than",LessThan(a,b),LessThan(pk),x<y); two("greater than",GreaterThan(a,b),GreaterThan(pk),x>y); two("at most",LessThanEqualTo(a,b),LessThanEqualTo(pk),x<=y); two("at least",GreaterThanEqualTo(a,b),GreaterThanEqualTo(pk),x>=y); two("equality",Equal(a,b),Equal(pk),x==y);
    two("fmod",Fmod(a,b),Fmod(pk),std::fmod(x,y)); if( std::fabs(y)<20 && x>1e-3 && x<100 ) two("power",Pow(a,b),Pow(pk),std::pow(x,y));
    two("and",And(a,b),And(pk),x!=0 && y!=0); two("or",Or(a,b),Or(pk),x!=0 || y!=0);
    g.close("selection by a number",Ternary(a,Expression(2.),Expression(-3.))(),cplx(x!=0?2:-3),1e-14,0); auto s=Simplify(Ternary(a,b,Expression(1.25))); g.close("simplified selection by a number",s(),cplx(x!=0?y:1.25),1e-13,0);
  }
}
int main(int argc, char** argv){
  pbt::Check c("P02", "an expression with at least 5 nodes / at least two chained operations / two members of a family that differ in value / any derivative point");
  c.assume("values are compared at the parameters' default values with a tolerance derived from the propagated rounding error and the magnitude of the expanded terms");
  c.prop("simplify", 100000, 4000000, simplify);
  c.prop("folding", 160000, 6000000, folding);
  c.prop("collect", 20000, 600000, collect);
  c.prop("keys", 100000, 4000000, keys);
  c.prop("derivative", 40000, 1000000, derivative);
  c.prop("builders", 20000, 1000000, builders);
  return c.main(argc,argv);
}
