// P04: symbolic tensors obey tensor algebra. Oracle: a naive dense tensor of complex numbers
// with index labels, evaluated directly from the definitions.
#include "pbt.h"
#include "AmpGen/Tensor.h"
#include "AmpGen/Expression.h"
using namespace AmpGen;
typedef std::complex<double> cplx;
namespace {
  typedef std::vector<unsigned> Dims;
  struct Ref { Dims d; std::vector<cplx> v; 
    size_t size() const { size_t n=1; for(auto x : d) n*=x; return n; }
    static bool next(Dims& c, const Dims& d){ for(int i=(int)d.size()-1;i>=0;--i){ if( ++c[i] < d[i] ) return true; c[i]=0; } return false; }
    size_t at(const Dims& c) const { size_t k=0; for(size_t i=0;i<d.size();++i) k = k*d[i]+c[i]; return k; }
    cplx operator()(const Dims& c) const { return v[at(c)]; }
  };
  struct Pair { Tensor t; Ref r; };
  std::string show(const Dims& d){ std::string s="["; for(auto x : d) s += std::to_string(x) + " "; return s + "]"; }
  int counter=0;
  Expression element(pbt::Gen& g, cplx& v){ // values with few digits so that sums are nearly exact
    double re = g.range(-40,40)/8., im = g.chance(1,3) ? g.range(-16,16)/8. : 0; v = cplx(re,im);
    switch( g.range(0,3) ){ case 0: return im == 0 ? Expression(re) : Expression(v); case 1: case 2: { Expression e = Parameter("x" + std::to_string(counter++), re); if( im != 0 ) e = e + Expression(cplx(0,im)); return e; }
      default: { Expression e = make_cse(Parameter("x" + std::to_string(counter++), re-1) * 1 + Expression(cplx(1,im))); return e; } }
  }
  Pair make(pbt::Gen& g, const Dims& d){ Pair p; p.r.d = d; p.t = Tensor(d); size_t n = p.r.size(); p.r.v.resize(n);
    int style = g.range(0,2);
    if( style == 0 ){ std::vector<Expression> e(n); for(size_t i=0;i<n;++i) e[i] = element(g,p.r.v[i]); p.t = Tensor(e,d); }
    else { Dims c(d.size(),0); size_t i=0; do { p.t[c] = element(g,p.r.v[i]); ++i; } while( Ref::next(c,d) ); }
    return p; }
  void same(pbt::Gen& g, const std::string& what, const Tensor& t, const Ref& r, double scale = 1, bool layout = false){
    g.require( t.dims() == r.d, what + ": dimensions " + show(t.dims()) + ", expected " + show(r.d) );
    g.require( t.size() == r.size() && t.nElements() == r.size() && t.rank() == r.d.size() && t.nDim() == r.d.size(), what + ": number of elements or rank" );
    Dims c(r.d.size(),0); size_t i=0;
    do { cplx want = r(c); cplx got = t[c](); double tol = 1e-10*scale*(1+std::abs(want));
      g.close(what + " at " + show(c), got, want, 1e-10, tol); g.close(what + " at linear index " + std::to_string(i), t[(unsigned)i](), want, 1e-10, tol);
      if( layout ) g.require( t.coords(i) == c && t.index(c) == i, what + ": coordinates of linear index " + std::to_string(i) );
      g.close(what + " get(" + show(c) + ")", t.get(c)(), want, 1e-10, tol); g.close(what + " get(" + std::to_string(i) + ")", t.get((unsigned)i)(), want, 1e-10, tol);
      ++i; } while( Ref::next(c,r.d) );
    g.evals(r.size());
  }
  // a labelled tensor
  struct Lab { Tensor t; Ref r; std::vector<int> lab; std::vector<bool> up; };
  struct Idx { std::vector<Tensor::Index> ix; std::vector<unsigned> dim; };
  std::vector<Tensor::Index> toIdx(const Idx& I, const Lab& a){ std::vector<Tensor::Index> o; for(size_t i=0;i<a.lab.size();++i) o.push_back( a.up[i] ? -I.ix[a.lab[i]] : I.ix[a.lab[i]] ); return o; }
  Lab multiply(const Lab& a, const Lab& b){
    Lab o; std::vector<std::pair<int,int>> con; 
    for(size_t i=0;i<a.lab.size();++i){ auto f = std::find(b.lab.begin(),b.lab.end(),a.lab[i]); if( f==b.lab.end() ){ o.lab.push_back(a.lab[i]); o.up.push_back(a.up[i]); o.r.d.push_back(a.r.d[i]); } else con.push_back({(int)i,(int)(f-b.lab.begin())}); }
    for(size_t j=0;j<b.lab.size();++j) if( std::find(a.lab.begin(),a.lab.end(),b.lab[j]) == a.lab.end() ){ o.lab.push_back(b.lab[j]); o.up.push_back(b.up[j]); o.r.d.push_back(b.r.d[j]); }
    o.r.v.assign(o.r.size(),0); Dims ca(a.r.d.size(),0);
    do { Dims cb(b.r.d.size(),0);
      do { double s=1; bool ok=true; for(auto& k : con){ if( ca[k.first] != cb[k.second] ){ ok=false; break; } if( a.up[k.first] != b.up[k.second] && ca[k.first] != 3 ) s=-s; }
        if( !ok ) continue; Dims co; for(size_t i=0;i<o.lab.size();++i){ auto f = std::find(a.lab.begin(),a.lab.end(),o.lab[i]); if( f != a.lab.end() ) co.push_back(ca[f-a.lab.begin()]); else co.push_back(cb[std::find(b.lab.begin(),b.lab.end(),o.lab[i])-b.lab.begin()]); }
        o.r.v[o.r.at(co)] += s*a.r(ca)*b.r(cb);
      } while( Ref::next(cb,b.r.d) ); } while( Ref::next(ca,a.r.d) );
    return o; }
  Ref permuted(const Ref& r, const std::vector<int>& from, const std::vector<int>& to){ // re-express r (labels from) with label order to
    Ref o; std::vector<size_t> where; for(int l : to){ size_t p = std::find(from.begin(),from.end(),l)-from.begin(); where.push_back(p); o.d.push_back(r.d[p]); }
    o.v.resize(o.size()); Dims c(o.d.size(),0); do { Dims f(r.d.size()); for(size_t i=0;i<where.size();++i) f[where[i]] = c[i]; o.v[o.at(c)] = r(f); } while( Ref::next(c,o.d) ); return o; }
  Idx indexPool(pbt::Gen& g, int n){ Idx I; for(int i=0;i<n;++i){ I.ix.push_back(Tensor::Index(g.coin())); I.dim.push_back( g.chance(1,2) ? 4 : g.range(2,4) ); if( I.ix.back().isUpper() ) I.ix.back() = -I.ix.back(); } return I; }
  Lab random(pbt::Gen& g, const Idx& I, std::vector<int> labs){ Lab a; Dims d; for(int l : labs) d.push_back(I.dim[l]); auto p = make(g,d); a.t=p.t; a.r=p.r; a.lab=labs; for(int l : labs) a.up.push_back( I.dim[l]==4 && g.coin() ); return a; }
  std::string name(const Lab& a){ std::string s="T("; for(size_t i=0;i<a.lab.size();++i) s += (a.up[i] ? "-" : "") + std::string(1,char('a'+a.lab[i])) + ":" + std::to_string(a.r.d[i]) + " "; return s + ")"; }
  void check(pbt::Gen& g, const std::string& what, const TensorProxy& p, const Idx& I, const Lab& r, double sc=1){
    auto ix = p.indices(); g.require(ix.size()==r.lab.size(), what + ": number of indices left"); for(size_t i=0;i<ix.size();++i) g.require(ix[i]==I.ix[r.lab[i]], what + ": index " + std::to_string(i) + " is not " + std::string(1,char('a'+r.lab[i])));
    for(size_t i=0;i<ix.size();++i) g.require(ix[i].isUpper()==r.up[i], what + ": variance of index " + std::to_string(i));
    same(g, what, p, r.r, sc); }
  
  void contract(pbt::Gen& g){
    int nI = g.range(2,6); auto I = indexPool(g,nI); int n = g.range(2,4); std::string d;
    Lab acc; TensorProxy pr(Tensor(Dims{}), {}); bool first=true; std::vector<int> dead; int nc=0; bool scalars=false;
    for(int k=0;k<n;++k){ std::vector<int> av; for(int i=0;i<nI;++i) if( std::find(dead.begin(),dead.end(),i)==dead.end() ) av.push_back(i);
      if( av.empty() ) break; g.shuffle(av); size_t len = std::min<size_t>(av.size(), g.range(1, 3)); std::vector<int> labs(av.begin(), av.begin()+len);
      Lab b = random(g,I,labs); size_t sz = b.r.size(); if( !first ){ size_t m=acc.r.size(); for(size_t i=0;i<b.lab.size();++i) m *= std::find(acc.lab.begin(),acc.lab.end(),b.lab[i])==acc.lab.end() ? b.r.d[i] : 1; if( m > 256 || sz > 64 ) continue; }
      for(size_t i=0;i<b.lab.size();++i){ auto f = std::find(acc.lab.begin(),acc.lab.end(),b.lab[i]); if( !first && f != acc.lab.end() ){ dead.push_back(b.lab[i]); nc++; if( I.dim[b.lab[i]] != 4 ) b.up[i] = acc.up[f-acc.lab.begin()]; } }
      d += (first?"":"*") + name(b); auto bp = b.t(toIdx(I,b));
      if( first ){ acc=b; pr=bp; first=false; } else { if( acc.lab.empty() ) scalars=true; bool left = g.coin(); if( left ){ pr = pr*bp; acc = multiply(acc,b); } else { pr = bp*pr; acc = multiply(b,acc); d += "(reversed)"; } }
      if( g.chance(1,3) ){ switch( g.range(0,4) ){ case 0: pr = pr*2.5; for(auto& x : acc.r.v) x*=2.5; break; case 1: pr = -0.5*pr; for(auto& x : acc.r.v) x*=-0.5; break; case 2: pr = pr/4.; for(auto& x : acc.r.v) x/=4.; break; case 3: pr = Expression(Parameter("s",1.5))*pr; for(auto& x : acc.r.v) x*=1.5; break; default: pr = pr/Expression(Parameter("s",-2.)); for(auto& x : acc.r.v) x/=-2.; } }
    }
    g.desc(d); if( nc > 0 ) g.nontrivial(); if( scalars ) g.label("product with a scalar");
    check(g, "product", pr, I, acc, 1e3);
    if( acc.lab.empty() ){ Expression e = pr; g.close("product converted to an expression", e(), acc.r.v[0], 1e-10, 1e-8); }
  }
  void add(pbt::Gen& g){
    int nI = g.chance(1,10) ? 5 : g.range(1,4); auto I = indexPool(g,nI); std::vector<int> labs(nI); for(int i=0;i<nI;++i) labs[i]=i; g.shuffle(labs);
    Lab a = random(g,I,labs); TensorProxy pr = a.t(toIdx(I,a)); std::string d = name(a); int n = g.range(1,3);
    for(int k=0;k<n;++k){ auto l2 = labs; g.shuffle(l2); Lab b = random(g,I,l2); for(size_t i=0;i<l2.size();++i){ size_t p = std::find(a.lab.begin(),a.lab.end(),l2[i])-a.lab.begin(); b.up[i] = a.up[p]; }
      bool minus=g.coin(); d += (minus?" - ":" + ") + name(b); auto bp = b.t(toIdx(I,b)); auto rp = permuted(b.r, b.lab, a.lab); if( l2 != labs ) g.nontrivial();
      bool sym = false; if( g.chance(1,4) ){ // the accumulated tensor declared symmetric in two equal-sized indices: its elements are then shared
        for(int i=0;i<nI && !sym;++i) for(int j=i+1;j<nI && !sym;++j) if( a.r.d[i]==a.r.d[j] ){ Tensor t = pr; t.imposeSymmetry(i,j); Dims c(a.r.d.size(),0); do { a.r.v[a.r.at(c)] = t[c](); } while( Ref::next(c,a.r.d) ); pr = t(toIdx(I,a)); sym=true; d += "{lhs symmetric}"; g.label("symmetric left operand"); } }
      for(size_t i=0;i<a.r.v.size();++i) a.r.v[i] += minus ? -rp.v[i] : rp.v[i];
      pr = minus ? pr - bp : pr + bp; }
    g.desc(d); check(g, "sum", pr, I, a, 10);
    auto l3 = labs; g.shuffle(l3); std::vector<Tensor::Index> ni; for(int l : l3){ size_t p = std::find(a.lab.begin(),a.lab.end(),l)-a.lab.begin(); ni.push_back( a.up[p] ? -I.ix[l] : I.ix[l] ); }
    Lab c; c.lab = l3; c.r = permuted(a.r,a.lab,l3); for(int l : l3) c.up.push_back(a.up[std::find(a.lab.begin(),a.lab.end(),l)-a.lab.begin()]);
    check(g, "reordered tensor", pr.reorder(ni), I, c, 10);
  }
  void elementwise(pbt::Gen& g){
    int nI=g.chance(1,8)?g.range(5,6):g.range(1,4); Dims d; for(int i=0;i<nI;++i) d.push_back(nI>4?g.range(1,3):nI==1&&g.chance(1,4)?g.range(5,24):g.range(nI==4?1:2,4)); auto a = make(g,d), b = make(g,d); std::string de=show(d); if( nI>1 ) g.nontrivial(); bool symm=false;
    if( nI>1 && g.chance(1,2) ) for(auto* q : {&a,&b}){ int i=g.draw(nI), j=g.draw(nI); if( i!=j && d[i]==d[j] && d[i]>1 ){ q->t.imposeSymmetry(i,j); Dims c(nI,0); do { q->r.v[q->r.at(c)] = q->t[c](); } while( Ref::next(c,d) ); symm=true; de += (q==&a ? " a" : " b"); de += " symmetric in " + std::to_string(i) + std::to_string(j); g.label("symmetric operand"); } } g.desc(de);
    auto op=[&](auto f){ Ref r; r.d=d; for(size_t i=0;i<a.r.v.size();++i) r.v.push_back(f(a.r.v[i],b.r.v[i])); return r; };
    same(g,"a",a.t,a.r,1,!symm); same(g,"a+b",a.t+b.t,op([](cplx x, cplx y){return x+y;})); same(g,"a-b",a.t-b.t,op([](cplx x,cplx y){return x-y;})); same(g,"-a",-a.t,op([](cplx x,cplx){return -x;}));
    Tensor t=a.t; t += b.t; same(g,"a+=b",t,op([](cplx x,cplx y){return x+y;})); t -= b.t; t -= b.t; same(g,"a-=b",t,op([](cplx x,cplx y){return x-y;}));
    double s = g.range(1,9)/4.; Expression e = Parameter("s",s); same(g,"a*e",a.t*e,op([&](cplx x,cplx){return x*s;})); same(g,"e*a",e*a.t,op([&](cplx x,cplx){return x*s;})); same(g,"a/e",a.t/e,op([&](cplx x,cplx){return x/s;}));
    same(g,"a*s",a.t*s,op([&](cplx x,cplx){return x*s;})); same(g,"s*a",s*a.t,op([&](cplx x,cplx){return x*s;})); same(g,"a/s",a.t/s,op([&](cplx x,cplx){return x/s;}));
    same(g,"conjugate",a.t.conjugate(),op([](cplx x,cplx){return std::conj(x);}));
    t=a.t; t.st(g.coin()); same(g,"a as common sub-expressions",t,a.r);
    { g.require(a.t.rankMatches(b.t),"tensors of equal dimensions match"); Dims d2=d; if( g.coin() ) d2[g.draw(d2.size())]+=1; else if( g.coin() ) d2.push_back(1); else std::reverse(d2.begin(),d2.end()); Tensor o(d2); g.require(a.t.rankMatches(o)==(d2==d) && o.rankMatches(a.t)==(d2==d),"dimensions "+show(d)+" against "+show(d2)); g.require(a.t.nDim()==d.size() && a.t.rank()==d.size(),"rank"); 
      std::vector<std::string> names; std::vector<cplx> cv; for(size_t i=0;i<a.r.v.size();++i){ names.push_back("p"+std::to_string(i)); cv.push_back(a.r.v[i]); } Tensor n(names,d); g.require(n.size()==names.size(),"components of a tensor of names"); for(size_t i=0;i<names.size();++i) g.require(is<Parameter>(n[i]) && cast<Parameter>(n[i]).name()==names[i],"component "+std::to_string(i)+" of a tensor of names is "+n[i].to_string()); Tensor c(cv,d); Tensor::Dim dd = nI==1 ? Tensor::Dim(d[0]) : nI==2 ? Tensor::Dim(d[0],d[1]) : nI==3 ? Tensor::Dim(d[0],d[1],d[2]) : Tensor::Dim(d[0],d[1],d[2],d[3]); Tensor z = nI>4 ? Tensor(d) : Tensor(dd); g.require(z.dims()==a.t.dims() && z.size()==a.t.size(),"tensor made from its dimensions"); for(size_t i=0;i<cv.size();++i){ g.require(z[i]()==cplx(0),"tensors start at zero"); g.require(c[i]()==cv[i],"tensor of numbers"); } }
    if( a.r.v.size() > 1 ){ cplx dot=0; Dims c(d.size(),0); do { double sg=1; for(auto x : c) if( x != 3 ) sg=-sg; dot += sg*a.r(c)*b.r(c); } while( Ref::next(c,d) ); bool four=true; for(auto x : d) four &= x==4; if( four ){ g.label("dot"); g.close("dot(a,b)", AmpGen::dot(a.t,b.t)(), dot, 1e-10, 1e-8); } }
  }
  void symmetry(pbt::Gen& g){
    unsigned n = g.range(2,4); int rank = g.range(2, n==4?3:4); Dims d(rank,n); auto a = make(g,d); std::vector<unsigned> ix; for(int i=0;i<rank;++i) ix.push_back(i); g.shuffle(ix); ix.resize(g.range(2,rank)); 
    std::string t; for(auto i : ix) t += std::to_string(i); g.desc("rank " + std::to_string(rank) + " dimension " + std::to_string(n) + " symmetric in " + t); if( rank>2 ) g.nontrivial();
    Tensor s = a.t; if( ix.size()==2 && g.coin() ) s.imposeSymmetry(ix[0],ix[1]); else s.imposeSymmetry(ix);
    std::set<size_t> classes; auto so = ix; std::sort(so.begin(),so.end());
    Dims c(rank,0); do { Dims key=c; std::vector<unsigned> vals; for(auto i : so) vals.push_back(c[i]); std::sort(vals.begin(),vals.end()); for(size_t k=0;k<so.size();++k) key[so[k]]=vals[k]; classes.insert(a.r.at(key));
      // every permutation of the symmetric indices reads the same element
      Dims q=c; do { g.require( s.index(q) == s.index(c), "elements " + show(q) + " and " + show(c) + " differ" ); g.close("element " + show(q), s[q](), s[c](), 1e-12); std::vector<unsigned> v; } while( [&]{ std::vector<unsigned> v; for(auto i : so) v.push_back(q[i]); bool more = std::next_permutation(v.begin(),v.end()); for(size_t k=0;k<so.size();++k) q[so[k]]=v[k]; return more; }() );
      // and it is one of the elements of its class in the original
      bool found=false; Dims f(rank,0); do { bool eq=true; std::vector<unsigned> v1,v2; for(auto i : so){ v1.push_back(f[i]); v2.push_back(c[i]); } std::sort(v1.begin(),v1.end()); std::sort(v2.begin(),v2.end()); eq = v1==v2; for(int i=0;i<rank;++i) if( std::find(so.begin(),so.end(),(unsigned)i)==so.end() && f[i]!=c[i] ) eq=false; if( eq && std::abs(a.r(f)-s[c]()) < 1e-9*(1+std::abs(a.r(f))) ) found=true; } while( !found && Ref::next(f,d) );
      g.require(found, "element " + show(c) + " of the symmetrised tensor is not one of its class"); } while( Ref::next(c,d) );
    g.require( s.uniqueElements().size() == classes.size(), "number of unique elements " + std::to_string(s.uniqueElements().size()) + ", expected " + std::to_string(classes.size()) );
    // writing one element changes exactly its class
    Dims w; for(int i=0;i<rank;++i) w.push_back(g.draw(n)); Tensor s2=s; s2[w] = Expression(1234.5); c.assign(rank,0);
    do { std::vector<unsigned> v1,v2; for(auto i : so){ v1.push_back(w[i]); v2.push_back(c[i]); } std::sort(v1.begin(),v1.end()); std::sort(v2.begin(),v2.end()); bool eq=v1==v2; for(int i=0;i<rank;++i) if( std::find(so.begin(),so.end(),(unsigned)i)==so.end() && w[i]!=c[i] ) eq=false; g.close("after writing " + show(w) + ", element " + show(c), s2[c](), eq ? cplx(1234.5) : s[c](), 1e-12); } while( Ref::next(c,d) );
  }
  void inverse(pbt::Gen& g){
    unsigned n = g.range(1,6); Pair p = make(g,{n,n}); bool sym=g.chance(1,3);
    for(unsigned i=0;i<n;++i){ double row=0; for(unsigned j=0;j<n;++j) if( j!=i ) row += std::max(std::abs(p.r.v[i*n+j]),std::abs(p.r.v[j*n+i])); double v = (row+1+g.unit())*(g.coin()?1:-1); p.r.v[i*n+i] = v; p.t(i,i) = g.coin() ? Expression(v) : Expression(Parameter("d" + std::to_string(i), v)); }
    if( sym ){ p.t.imposeSymmetry(0,1); for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j) p.r.v[i*n+j] = p.t[Dims{i,j}](); g.label("symmetric"); }
    g.desc(std::to_string(n) + "x" + std::to_string(n) + (sym?" symmetric":"")); if( n>1 ) g.nontrivial();
    for(auto& x : p.r.v) g.desc(" " + pbt::str(x));
    auto inv = p.t.Invert(); Tensor::Index a,b,c; Tensor lp = p.t(a,b)*inv(b,c), rp = inv(a,b)*p.t(b,c);
    for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j){ cplx s=0,s2=0; for(unsigned k=0;k<n;++k){ s += p.r.v[i*n+k]*inv(k,j)(); s2 += inv(i,k)()*p.r.v[k*n+j]; }
      g.close("(M M^-1)_" + std::to_string(i) + std::to_string(j), s, i==j, 0, 1e-9); g.close("(M^-1 M)_" + std::to_string(i) + std::to_string(j), s2, i==j, 0, 1e-9); g.close("M*Invert(M)", lp(i,j)(), i==j, 0, 1e-9); g.close("Invert(M)*M", rp(i,j)(), i==j, 0, 1e-9); g.close("Identity", Identity(n)(i,j)(), i==j, 0, 0); }
  }
  void epsilon(pbt::Gen& g){
    unsigned n = g.range(2,5); auto e = LeviCivita(n); g.desc("LeviCivita(" + std::to_string(n) + ")"); g.nontrivial(); Dims d(n,n), c(n,0); g.require(e.dims()==d,"dimensions of the Levi-Civita tensor");
    do { int s=1; for(unsigned i=0;i<n;++i) for(unsigned j=i+1;j<n;++j) s *= c[j]>c[i] ? 1 : c[j]<c[i] ? -1 : 0; g.close("epsilon" + show(c), e[c](), s, 0, 0); } while( Ref::next(c,d) );
    // contraction with n vectors is a determinant (up to the metric); same-variance contraction is the plain determinant
    if( n > 4 ) return; std::vector<Pair> v; for(unsigned i=0;i<n;++i) v.push_back(make(g,{n})); std::vector<Tensor::Index> ix(n); TensorProxy p = e(ix); for(unsigned i=0;i<n;++i) p = p*v[i].t(ix[i]);
    cplx det=0; std::vector<unsigned> perm(n); for(unsigned i=0;i<n;++i) perm[i]=i; do { int s=1; for(unsigned i=0;i<n;++i) for(unsigned j=i+1;j<n;++j) if( perm[j]<perm[i] ) s=-s; cplx t=s; for(unsigned i=0;i<n;++i) t *= v[i].r.v[perm[i]]; det += t; } while( std::next_permutation(perm.begin(),perm.end()) );
    g.close("epsilon contracted with vectors", Expression(p)(), det, 1e-10, 1e-7);
  }
}
int main(int argc, char** argv){
  pbt::Check c("P04","two or more ranks are involved: at least one contraction, a permuted sum, a symmetric tensor of rank above two, or a matrix larger than 1x1"); c.scale(4);
  c.prop("contract", 3000, 60000, contract); c.prop("add", 3000, 60000, add); c.prop("elementwise", 1500, 30000, elementwise); c.prop("symmetry", 1500, 30000, symmetry); c.prop("inverse", 800, 20000, inverse); c.prop("epsilon", 100, 1000, epsilon);
  return c.main(argc,argv);
}
