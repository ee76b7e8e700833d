// Helpers shared by the checks that exercise the run-time code generator.
#ifndef VERIF_JIT_H
#define VERIF_JIT_H 1
#include "pbt.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/CompiledExpressionBase.h"
#include "AmpGen/CompilerWrapper.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/Expression.h"
#include "AmpGen/Tensor.h"
#include <dlfcn.h>
namespace jit {
  inline std::string fresh(const std::string& ext=".cpp"){ static int n=0; return pbt::scratch() + "/jit_" + std::to_string(getpid()) + "_" + std::to_string(n++) + ext; }
  // several expressions in one translation unit; returns the path of the shared object
  inline std::string compileAll(std::vector<AmpGen::CompiledExpressionBase*>& v, bool avx=false){
    AmpGen::CompilerWrapper w; if( avx ) w.addHeader("AmpGen/simd/avx2d_types.h");
    auto f = fresh(); w.compile(v, f); unlink(f.c_str()); return f.substr(0,f.size()-3) + "so";
  }
  template <class T> std::string compileAll(std::vector<T>& v, bool avx=false){ std::vector<AmpGen::CompiledExpressionBase*> p; for(auto& x : v) p.push_back(&x); return compileAll(p, avx); }
}
#endif
