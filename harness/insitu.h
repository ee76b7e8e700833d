// Evaluate an expression at chosen parameter values without compiling it: the parameter objects are
// found through the public resolver and given their values.
#ifndef VERIF_INSITU_H
#define VERIF_INSITU_H 1
#include "pbt.h"
#include "AmpGen/Expression.h"
#include "AmpGen/ASTResolver.h"
#include "AmpGen/CacheTransfer.h"
#include "AmpGen/Spline.h"
#include "AmpGen/Tensor.h"
#include <cstring>
#include <functional>
#include <set>
#include <memory>
namespace insitu {
  // debugging symbols, requested in a quarter of the cases of a check: asking for them must not change what is computed
  inline AmpGen::DebugSymbols symbols; inline AmpGen::DebugSymbols* db = nullptr;
  inline std::function<void(pbt::Gen&)> debugged(void (*f)(pbt::Gen&)){ return [f](pbt::Gen& g){ symbols.clear(); db = g.chance(1,4) ? &symbols : nullptr; if( db ) g.desc("[with debugging symbols] "); f(g); }; }
  inline std::map<std::string,unsigned> eventMap(unsigned n){ std::map<std::string,unsigned> m; const char* c[]={"_Px","_Py","_Pz","_E"}; for(unsigned i=0;i<n;++i) for(unsigned k=0;k<4;++k) m[std::to_string(i)+c[k]]=4*i+k; return m; }
  inline uint64_t& epoch(){ static uint64_t e=1; return e; }
  // evaluates a shared sub-expression once per evaluation of the whole: without it nested transformations are exponential
  struct Memo : AmpGen::IExpression { AmpGen::Expression x; mutable uint64_t at=0; mutable std::complex<double> v; explicit Memo(const AmpGen::Expression& e) : x(e) {} std::string to_string(const AmpGen::ASTResolver* r=nullptr) const override { return x.to_string(r); } void resolve(AmpGen::ASTResolver& r) const override { x.resolve(r); } operator AmpGen::Expression() const { return x; } std::complex<double> operator()() const override { if( at!=epoch() ){ v=x(); at=epoch(); } return v; } };
  inline void memoise(const AmpGen::Expression& e, std::set<const void*>& seen){ auto p=e.get(); if( !p || !seen.insert(p).second ) return; if( auto b=dynamic_cast<const AmpGen::IBinaryExpression*>(p) ){ memoise(b->l(),seen); memoise(b->r(),seen); } else if( auto u=dynamic_cast<const AmpGen::IUnaryExpression*>(p) ) memoise(u->arg(),seen); else if( auto t=dynamic_cast<const AmpGen::SubTree*>(p) ){ auto in=t->expression(); memoise(in,seen); if( !dynamic_cast<const Memo*>(in.get()) ) const_cast<AmpGen::SubTree*>(t)->m_expression=AmpGen::Expression(std::static_pointer_cast<AmpGen::IExpression>(std::make_shared<Memo>(in))); } }
  struct Expr { AmpGen::Expression e; std::multimap<std::string,AmpGen::Parameter*> par;
    Expr(){} explicit Expr(const AmpGen::Expression& x, const std::map<std::string,unsigned>& evt={}) : e(x) { AmpGen::ASTResolver r(evt); auto subs=r.getOrderedSubExpressions(e); std::set<const void*> seen; memoise(e,seen); for(auto& s : subs) memoise(s.second,seen); for(auto& p : r.parameters()) if( auto q=dynamic_cast<const AmpGen::Parameter*>(p.first) ) par.emplace(q->name(),const_cast<AmpGen::Parameter*>(q)); }
    void set(const std::string& n, double v){ auto r=par.equal_range(n); for(auto i=r.first;i!=r.second;++i) i->second->defaultValue()=v; }
    void event(const std::vector<double>& p){ const char* c[]={"_Px","_Py","_Pz","_E"}; for(size_t i=0;i<p.size();++i) set(std::to_string(i/4)+c[i%4],p[i]); }
    std::complex<double> operator()() const { ++epoch(); return e(); } };
  struct Tens { std::vector<Expr> x; explicit Tens(const AmpGen::Tensor& t, const std::map<std::string,unsigned>& evt={}){ for(size_t i=0;i<t.size();++i) x.emplace_back(t[i],evt); } void event(const std::vector<double>& p){ for(auto& e : x) e.event(p); } std::vector<std::complex<double>> operator()() const { std::vector<std::complex<double>> r; for(auto& e : x) r.push_back(e()); return r; } };
}
#endif
