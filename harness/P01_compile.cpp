// P01: run-time compiled functions compute the expression they were built from.
#include "expr_gen.h"
#include "jit.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/simd/avx2d_types.h"
using namespace AmpGen;
typedef std::complex<double> cplx;
namespace {
  // names of functions: numbered, or of decays that differ in the charges of particles only
  std::string fname(bool decay, size_t i){ if( !decay ) return "f_" + std::to_string(i); auto q=[&](int k){ return std::string((i>>k)&1?"+":"-"); }; return "D0{K"+std::string((i>>4)&1?"*":"1")+"(892)"+q(0)+"{K"+q(1)+",pi"+q(2)+"},rho(770)"+q(3)+"}"; }
  constexpr size_t NP = 6; // evaluation points per bundle
  double TOL = 400;        // multiple of the propagated rounding error that is tolerated (the JIT compiles with -Ofast)

  struct World { // parameters living in a parameter set, defaults, and event variables
    MinuitParameterSet mps; std::map<std::string,unsigned> evt; std::vector<bool> inSet; size_t evtSize; std::vector<unsigned> slot; bool ctc=false;
  };
  void setup(pbt::Gen& g, eg::Env& env, World& w, bool avx){
    int nEv = g.range(1,6), nPar = g.chance(1,4) ? g.range(7,16) : g.range(0,6); w.evtSize = nEv + g.range(0,3); std::vector<Flag> flags; w.ctc = !avx && g.chance(1,4);
    std::vector<unsigned> slots; for(size_t i=0;i<w.evtSize;++i) slots.push_back(i); 
    for(int i=0;i<nEv;++i){ env.evNames.push_back("ev" + std::to_string(i)); w.slot.push_back(slots[i]); w.evt[env.evNames.back()] = slots[i]; }
    for(int i=0;i<nPar;++i){ env.parNames.push_back(g.coin() ? "par::" + std::to_string(i) : "D0{K*(892)0}_" + std::to_string(i)); w.inSet.push_back(g.chance(3,4)); flags.push_back(g.pick({Flag::Free,Flag::Fix,Flag::CompileTimeConstant,Flag::Hide})); }
    OptionsParser::setArg(std::string("ASTResolver::CompileTimeConstants ") + (w.ctc ? "true" : "false"));
    for(size_t p=0;p<NP;++p){
      std::vector<double> e,q; for(int i=0;i<nEv;++i) e.push_back(g.real(-3,3)); 
      if( p%3 ) q = env.par[p-1]; else for(int i=0;i<nPar;++i) q.push_back( p==0 || !w.inSet[i] || (w.ctc && flags[i] == Flag::CompileTimeConstant) ? (p==0 ? g.real(-3,3) : env.par[0][i]) : g.coin() ? env.par[p-1][i] : g.chance(1,4) ? env.par[p-1][i]*(1+g.logreal(1e-12,1e-6)) : g.chance(1,8) ? 1e-10*g.real(-3,3) : g.real(-3,3) );
      env.ev.push_back(e); env.par.push_back(q);
    }
    for(int i=0;i<nPar;++i) if( w.inSet[i] ) w.mps.add(env.parNames[i], flags[i], env.par[0][i], 0.1);
  }
  void setPoint(eg::Env& env, World& w, size_t p){ for(size_t i=0;i<env.parNames.size();++i) if( w.inSet[i] ) w.mps[env.parNames[i]]->setVal(env.par[p][i]); }
  void describe(pbt::Gen& g, eg::Env& env, const std::string& how, const std::vector<eg::Node>& nodes){
    g.desc(how + ": ");
    for(size_t i=0;i<nodes.size();++i) g.desc("\n  f" + std::to_string(i) + " = " + nodes[i].txt);
    g.desc("\n  event[0] = {"); for(double x : env.ev[0]) g.desc(pbt::str(x) + " "); g.desc("} par[0] = {"); for(double x : env.par[0]) g.desc(pbt::str(x) + " "); g.desc("}");
  }
  void cmp(pbt::Gen& g, const std::string& what, cplx got, const eg::Node& n, size_t p, double tol){ g.close(what + " at point " + std::to_string(p), got, n.v[p], 1e-13, tol*n.err[p] + 1e-13); }
  bool nontrivial(const eg::Node& n){ if( n.size < 5 ) return false; for(size_t p=1;p<NP;++p) if( std::abs(n.v[p]-n.v[0]) > 1e-9 ) return true; return false; }

  // every variable, parameter and external function in one expression, parameters from several objects of one name
  eg::Node everything(pbt::Gen& g, eg::Env& env){ std::vector<eg::Node> t; for(size_t i=0;i<env.evNames.size();++i) t.push_back(env.evVar(i)); for(int r=0;r<2;++r) for(size_t i=0;i<env.parNames.size();++i) t.push_back(env.parVar(i)); for(size_t i=0;i<env.lambdas.size();++i) t.push_back(env.lambdaVar(i)); g.shuffle(t); eg::Node s=env.leafConst(1,false); for(size_t i=0;i<t.size();++i) s=env.binary(s, env.binary(env.leafConst(1+0.37*i,false),t[i],2), i%2); return s; }
  void scalar(pbt::Gen& g){
    eg::Options o; o.arrays = true; o.lambda = true; eg::Env env(g,o,NP); World w; setup(g,env,w,false);
    size_t nl=g.range(1,7); std::vector<double> lam(nl); for(size_t k=0;k<nl;++k) env.lambdas.push_back([&lam,k]{ return lam[k]; }); for(size_t p=0;p<NP;++p){ env.lambdaVal.push_back({}); for(size_t k=0;k<nl;++k) env.lambdaVal[p].push_back(g.real(-2,2)); } lam = env.lambdaVal[0];
    if( g.coin() ) env.lambdas.clear(); bool usesLambda = !env.lambdas.empty();
    size_t n = g.range(1,10); std::vector<eg::Node> nodes; for(size_t i=0;i<n;++i){ env.used=0; if( g.chance(2,3) ) env.pool.clear(); nodes.push_back(i%4==3 ? env.topFn(g.range(1,4)) : env.gen(g.range(1,6), i%2)); }
    if( g.chance(1,3) ) nodes.push_back(everything(g,env)); n=nodes.size();
    describe(g, env, "scalar code", nodes);
    typedef CompiledExpression<complex_t(const double*, const double*)> CE; std::vector<CE> ce; ce.reserve(n);
    bool decays = g.coin(); for(size_t i=0;i<n;++i) ce.emplace_back(nodes[i].e, fname(decays,i), w.evt, &w.mps);
    auto so = jit::compileAll(ce);
    std::vector<double> evs(NP*w.evtSize, 0.77); for(size_t p=0;p<NP;++p) for(size_t i=0;i<env.evNames.size();++i) evs[p*w.evtSize + w.slot[i]] = env.ev[p][i];
    bool manyEvents=g.chance(1,4);
    for(size_t p=0;p<NP;++p){
      setPoint(env,w,p); lam = env.lambdaVal[p];
      for(size_t i=0;i<n;++i){ if( p ) ce[i].prepare(); /* the values at construction need no transfer */ cmp(g, "f" + std::to_string(i), ce[i](evs.data()+p*w.evtSize), nodes[i], p, TOL); g.evals(1); }
      // the event loop generated next to the function, over the three events that share these parameter values
      if( p%3==0 ) for(size_t i=0;i<n;++i){
        size_t stride = 1 + i%3, N = manyEvents ? 3000 : 3; std::vector<complex_t> out(N*stride, complex_t(-99,-99)); auto ext = ce[i].externBuffer(); ext.push_back(0);
        std::vector<double> in(N*w.evtSize); for(size_t q=0;q<N;++q) std::copy_n(evs.data()+(p+q%3)*w.evtSize, w.evtSize, in.data()+q*w.evtSize);
        ce[i].batch(N, w.evtSize, stride, out.data(), (const double*)ext.data(), (const double*)in.data());
        if( !usesLambda ) for(size_t q=3;q<N;q+=1+q%7) cmp(g,"event loop, event " + std::to_string(q),out[q*stride],nodes[i],p+q%3,TOL);
        if( p < 3 || !usesLambda ) for(size_t q=0;q<N;++q){ if( q && usesLambda ) break; cmp(g, "event loop of f" + std::to_string(i), out[q*stride], nodes[i], p+q%3, TOL);
          for(size_t k=1;k<stride;++k) g.require(out[q*stride+k]==complex_t(-99,-99), "event loop wrote outside of its slot"); }
      }
    }
    for(auto& nd : nodes) if( nontrivial(nd) ) g.ntCase(pbt::hashStr(nd.txt));
    unlink(so.c_str());
  }
  // interpreted (in-situ) evaluation agrees with the reference
  void insitu(pbt::Gen& g){
    eg::Options o; eg::Env env(g,o,2); 
    for(int i=0;i<4;++i){ env.evNames.push_back("e"+std::to_string(i)); env.parNames.push_back("p"+std::to_string(i)); }
    for(int p=0;p<2;++p){ env.ev.push_back({}); env.par.push_back({}); for(int i=0;i<4;++i){ env.ev[p].push_back( p ? env.ev[0][i] : g.real(-3,3)); env.par[p].push_back(p ? env.par[0][i] : g.real(-3,3)); } }
    auto n = env.gen(g.range(1,7), g.coin()); g.desc(n.txt + " at "); for(int i=0;i<4;++i) g.desc(pbt::str(env.ev[0][i]) + " " + pbt::str(env.par[0][i]) + " ");
    if( n.size >= 4 ) g.nontrivial();
    if( g.chance(1,8) ){ // equality of exactly representable numbers, real and complex
      auto q=[&]{ return 0.25*g.range(-4,4); }; double a=q(), b=g.coin()?0:q(), c=g.coin()?a:q(), d=g.coin()?b:q(); Expression x = AmpGen::Constant(a)+AmpGen::Constant(0,1)*AmpGen::Constant(b), y = AmpGen::Constant(c)+AmpGen::Constant(0,1)*AmpGen::Constant(d); Expression r=Ternary(x==y,n.e,n.e+AmpGen::Constant(1,2));
      g.desc(" "+pbt::str(a)+"+"+pbt::str(b)+"i == "+pbt::str(c)+"+"+pbt::str(d)+"i"); cplx got=r()-n.e(), want = cplx(a,b)==cplx(c,d) ? cplx(0,0) : cplx(1,2); g.close("choice by equality", got, want, 1e-9, 1e-9*std::abs(n.e())); return; }
    cmp(g, "in-situ value", n.e(), n, 0, 64);
  }
  // vectorised code: every lane equals the scalar reference
  void avx(pbt::Gen& g){
    typedef AVX2d::real_v RV; typedef AmpGen::Complex<RV> CV; constexpr size_t L = 4;
    eg::Options o; o.avx = true; o.arrays = false; eg::Env env(g,o,NP); World w; setup(g,env,w,true);
    // parameters are common to all lanes of a call; use NP points as lanes of two vectors with the parameters of point 0
    for(size_t p=1;p<NP;++p) env.par[p] = env.par[0];
    size_t n = g.range(1,8); std::vector<eg::Node> nodes; for(size_t i=0;i<n;++i){ env.used=0; nodes.push_back(i%3==2 ? env.topFn(g.range(1,4)) : env.gen(g.range(1,5), i%2)); }
    describe(g, env, "vectorised code", nodes);
    typedef CompiledExpression<CV(const double*, const RV*)> CE; std::vector<CE> ce; ce.reserve(n);
    bool decays = g.coin(); for(size_t i=0;i<n;++i) ce.emplace_back(nodes[i].e, fname(decays,i), w.evt, &w.mps);
    auto so = jit::compileAll(ce,true);
    std::vector<RV> evs(2*w.evtSize, RV(0.77));
    for(size_t b=0;b<2;++b) for(size_t i=0;i<env.evNames.size();++i){ double buf[L]; for(size_t l=0;l<L;++l) buf[l] = env.ev[(b*L+l)%NP][i]; evs[b*w.evtSize + w.slot[i]] = RV(buf); }
    for(size_t i=0;i<n;++i){
      ce[i].prepare(); std::vector<CV> out(2); auto ext = ce[i].externBuffer(); ext.push_back(0);
      size_t two = 2, one = 1; ce[i].batch(two, w.evtSize, one, out.data(), (const double*)ext.data(), (const RV*)evs.data());
      for(size_t b=0;b<2;++b){ CV r = ce[i](evs.data()+b*w.evtSize);
        for(size_t l=0;l<L;++l){ size_t p=(b*L+l)%NP; cplx z(r.real().at(l), r.imag().at(l)); cmp(g, "lane " + std::to_string(l) + " of f" + std::to_string(i), z, nodes[i], p, 4*TOL+2000);
          g.close("event loop lane", cplx(out[b].real().at(l), out[b].imag().at(l)), z, 1e-13, TOL*nodes[i].err[p]+1e-13); g.evals(1); } }
    }
    for(auto& nd : nodes) if( nontrivial(nd) ) g.ntCase(pbt::hashStr(nd.txt));
    unlink(so.c_str());
  }
  // the debugging symbols of a function: same value as without, and each symbol prints its own value
  void debugging(pbt::Gen& g){
    typedef AVX2d::real_v RV; typedef AmpGen::Complex<RV> CV; constexpr size_t L = 4;
    eg::Options o; o.avx = true; o.arrays = false; eg::Env env(g,o,NP); World w; setup(g,env,w,true);
    for(size_t p=1;p<NP;++p) env.par[p] = env.par[0];
    size_t nf = g.range(1,4); typedef CompiledExpression<CV(const double*, const RV*)> CE; std::vector<CE> ce; ce.reserve(nf); std::vector<eg::Node> nodes; std::vector<std::vector<eg::Node>> dbs(nf); bool decays=g.coin();
    for(size_t k=0;k<nf;++k){ env.used=0; if( g.chance(1,2) ) env.pool.clear(); nodes.push_back(env.gen(g.range(1,5), g.coin())); DebugSymbols db; size_t nd=g.range(1,5); for(size_t i=0;i<nd;++i){ env.used=0; if( g.chance(1,3) ) env.pool.clear(); dbs[k].push_back(g.chance(1,6) ? nodes[k] : env.gen(g.range(0,4), g.coin())); if( g.coin() ){ auto cse=[](eg::Node n){ n.e=make_cse(n.e); n.txt="cse("+n.txt+")"; return n; }; auto in=cse(env.binary(dbs[k][i], env.leaf(false), 0)); dbs[k][i]=cse(env.binary(in, env.leaf(false), 0)); } db.emplace_back("symbol_" + std::to_string(i), dbs[k][i].e); } ce.emplace_back(nodes[k].e, fname(decays,k), w.evt, db, &w.mps); }
    describe(g, env, "code with debugging symbols", nodes); for(auto& v : dbs) for(auto& x : v) g.desc("\n  symbol " + x.txt);
    auto so = jit::compileAll(ce,true);
    std::vector<RV> evs(w.evtSize, RV(0.77)); for(size_t i=0;i<env.evNames.size();++i){ double buf[L]; for(size_t l=0;l<L;++l) buf[l] = env.ev[l%NP][i]; evs[w.slot[i]] = RV(buf); }
    for(size_t k=0;k<nf;++k){ ce[k].prepare(); CV r = ce[k](evs.data()); for(size_t l=0;l<L;++l) cmp(g, "lane " + std::to_string(l) + " of a function with debugging symbols", cplx(r.real().at(l), r.imag().at(l)), nodes[k], l%NP, 4*TOL+2000);
      std::stringstream out; auto old=std::cout.rdbuf(out.rdbuf()); auto pr=std::cout.precision(17); ce[k].debug(evs.data()); std::cout.rdbuf(old); std::cout.precision(pr);
      std::string line; size_t i=0; while( std::getline(out,line) ){ auto q=line.find("symbol_" + std::to_string(i)); if( q==std::string::npos ) continue; g.require(i<dbs[k].size(),"more symbols than were asked for"); auto eq=line.find(" = ",q); g.require(eq!=std::string::npos,"symbol without a value: "+line);
        std::vector<double> v; const char* c=line.c_str()+eq+3; while( *c ){ char* e; double x=std::strtod(c,&e); if( e!=c ){ v.push_back(x); c=e; } else ++c; }
        g.require(v.size()==L || v.size()==2*L,"number of values printed: "+line);
        for(size_t l=0;l<L;++l) cmp(g, "lane " + std::to_string(l) + " of symbol " + std::to_string(i) + " of f" + std::to_string(k), cplx(v[l], v.size()==2*L ? v[L+l] : 0.), dbs[k][i], l%NP, 4*TOL+2000);
        g.evals(L); ++i; }
      g.require(i==dbs[k].size(),"symbols of f" + std::to_string(k) + " printed: " + std::to_string(i) + " of " + std::to_string(dbs[k].size()));
    }
    for(auto& nd : nodes) if( nontrivial(nd) ) g.ntCase(pbt::hashStr(nd.txt));
    unlink(so.c_str());
  }
  // return-through-pointer functions with several outputs scattered through an address table
  void scatter(pbt::Gen& g){
    eg::Options o; eg::Env env(g,o,NP); World w; setup(g,env,w,false);
    size_t n = g.range(1,6); std::vector<eg::Node> nodes; std::vector<Expression> el; for(size_t i=0;i<n;++i){ env.used=0; nodes.push_back(env.gen(g.range(1,4), i%2)); el.push_back(nodes.back().e); }
    describe(g, env, "tensor of outputs", nodes);
    std::vector<unsigned> dim = {(unsigned)n}; if( n%2 == 0 && g.coin() ) dim = {2,(unsigned)n/2}; Tensor T(el, dim);
    typedef CompiledExpression<void(complex_t*, const size_t*, const double*, const double*)> CE; std::vector<CE> ce; ce.emplace_back(TensorExpression(T), "tf", w.evt, &w.mps);
    g.require(ce[0].returnTypeSize() == n*sizeof(complex_t), "size of the outputs");
    auto so = jit::compileAll(ce);
    std::vector<size_t> addr; for(size_t i=0;i<n+3;++i) addr.push_back(i); g.shuffle(addr); size_t outSize = n+3+g.range(0,2);
    std::vector<double> evs(NP*w.evtSize, 0.77); for(size_t p=0;p<NP;++p) for(size_t i=0;i<env.evNames.size();++i) evs[p*w.evtSize + w.slot[i]] = env.ev[p][i];
    for(size_t p=0;p<NP;++p){
      setPoint(env,w,p); auto ext0 = ce[0].externBuffer(); ce[0].resetExternals(); ce[0].prepare(); auto ext = ce[0].externBuffer(); g.require(ce[0].hasExternalsChanged() == (ext != ext0), "a transfer must tell if it changed the parameters"); ext.push_back(0);
      std::vector<complex_t> out(outSize, complex_t(-99,-99)); ce[0](out.data(), (const size_t*)addr.data(), (const double*)ext.data(), (const double*)(evs.data()+p*w.evtSize));
      for(size_t i=0;i<n;++i) cmp(g, "output " + std::to_string(i), out[addr[i]], nodes[i], p, TOL);
      size_t untouched=0; for(auto& c : out) untouched += c == complex_t(-99,-99); g.require(untouched == outSize-n, "wrote outside of the addressed outputs");
    }
    // event loop over the events that share the parameters of the last points
    size_t N = g.chance(1,3) ? 2500 : 3; std::vector<complex_t> out(outSize*N, complex_t(-99,-99)); auto ext = ce[0].externBuffer(); ext.push_back(0);
    std::vector<double> in(N*w.evtSize); for(size_t q=0;q<N;++q) std::copy_n(evs.data()+(3+q%3)*w.evtSize, w.evtSize, in.data()+q*w.evtSize);
    ce[0].batch(N, w.evtSize, outSize, (void*)nullptr, out.data(), (const size_t*)addr.data(), (const double*)ext.data(), (const double*)in.data());
    for(size_t q=0;q<N;q+=1+q%7) for(size_t i=0;i<n;++i) cmp(g, "event loop output " + std::to_string(i) + " of event " + std::to_string(q), out[q*outSize+addr[i]], nodes[i], 3+q%3, TOL);
    for(auto& nd : nodes) if( nontrivial(nd) ) g.ntCase(pbt::hashStr(nd.txt));
    unlink(so.c_str());
  }
  // self-contained functions with the parameter values baked in, and the flat C interface
  void baked(pbt::Gen& g){
    eg::Options o; eg::Env env(g,o,NP); World w; setup(g,env,w,false); 
    size_t n = g.range(1,4); std::vector<eg::Node> nodes; for(size_t i=0;i<n;++i){ env.used=0; nodes.push_back(env.gen(g.range(1,4), i%2)); }
    describe(g, env, "code with parameters included", nodes);
    typedef CompiledExpression<complex_t(const double*, const double*)> CE; std::vector<CE> ce; ce.reserve(2*n);
    size_t at = g.draw(NP); if( at ) for(size_t p=0;p<NP;++p) if( p != at ) { /* the source bakes in the values current at generation time */ }
    for(size_t i=0;i<n;++i){ ce.emplace_back(nodes[i].e, "f_" + std::to_string(i), w.evt, &w.mps, includeParameters(true), includePythonBindings(true)); ce.emplace_back(nodes[i].e, "g_" + std::to_string(i), w.evt, &w.mps, includePythonBindings(true), disableBatch(true)); }
    setPoint(env,w,at); for(auto& c : ce) c.prepare();
    auto so = jit::compileAll(ce); void* h = dlopen(so.c_str(), RTLD_NOW); g.require(h != nullptr, "library does not load");
    std::vector<double> ev(w.evtSize, 0.77); for(size_t i=0;i<env.evNames.size();++i) ev[w.slot[i]] = env.ev[at][i];
    // parameters moved away: the baked functions must not notice
    setPoint(env,w,(at+1)%NP);
    for(size_t i=0;i<n;++i){
      auto name = "f_" + std::to_string(i);
      auto f = (complex_t(*)(const double*))dlsym(h, (name + "_wParams").c_str()); g.require(f != nullptr, "no self-contained function " + name);
      cmp(g, "self-contained f" + std::to_string(i), f(ev.data()), nodes[i], at, TOL);
      auto py = (void(*)(const double*, double*))dlsym(h, (name + "__py").c_str()); g.require(py != nullptr, "no flat binding " + name);
      double r[2]={0,0}; py(ev.data(), r); cmp(g, "flat binding f" + std::to_string(i), cplx(r[0],r[1]), nodes[i], at, TOL);
      auto py2 = (void(*)(const double*, const double*, double*))dlsym(h, ("g_" + std::to_string(i) + "__py").c_str()); g.require(py2 != nullptr, "no flat binding with externals");
      auto ext = ce[2*i+1].externBuffer(); ext.push_back(0); py2(ext.data(), ev.data(), r); cmp(g, "flat binding with externals f" + std::to_string(i), cplx(r[0],r[1]), nodes[i], at, TOL);
      auto nm = (const char*(*)())dlsym(h, (name + "_name").c_str()); g.require(nm && std::string(nm()) == name, "embedded name");
    }
    for(auto& nd : nodes) if( nontrivial(nd) ) g.ntCase(pbt::hashStr(nd.txt));
    dlclose(h); unlink(so.c_str());
  }
  // single-expression path (own file per expression), real return types, common names
  void single(pbt::Gen& g){
    eg::Options o; o.complexOk = g.coin(); eg::Env env(g,o,NP); World w; setup(g,env,w,false);
    auto node = env.gen(g.range(2,6), false); 
    for(int t=0;t<3 && node.cpx;++t) node = env.gen(3,false);
    if( node.cpx ) g.discard();
    describe(g, env, "real-valued function", {node}); if( nontrivial(node) ) g.nontrivial();
    CompiledExpression<double(const double*, const double*)> ce(node.e, g.pick({std::string("D0{K*(892)0{K+,pi-},rho}"), std::string("f"), std::string("1x+y*'z")}), w.evt, &w.mps);
    auto base = jit::fresh(""); ce.compile(base); g.require(ce.isReady(), "not linked");
    for(size_t p=0;p<NP;++p){ setPoint(env,w,p); if( p ) ce.prepare(); std::vector<double> ev(w.evtSize,0.77); for(size_t i=0;i<env.evNames.size();++i) ev[w.slot[i]] = env.ev[p][i];
      cmp(g,"value",ce(ev.data()),node,p,TOL); g.evals(1); }
    std::string stem = base + "_" + std::to_string(ce.hash()); unlink((stem+".cpp").c_str()); unlink((stem+".so").c_str());
  }
}
int main(int argc, char** argv){
  pbt::Check c("P01", "an expression with at least 5 nodes whose value differs between the evaluation points");
  c.assume("reference values are computed in IEEE double by the generator, the tolerance is a multiple of the propagated rounding error; points near branch cuts, poles and comparison boundaries are not generated");
  c.prop("interpreted", 20000, 150000, insitu);
  c.prop("scalar", 128, 900, scalar, 120);
  c.prop("vectorised", 56, 300, avx, 180);
  c.prop("debugging", 40, 300, debugging, 180);
  c.prop("scatter", 32, 240, scatter, 120);
  c.prop("baked", 32, 240, baked, 120);
  c.prop("single", 32, 240, single, 120);
  return c.main(argc,argv);
}
