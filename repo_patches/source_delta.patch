From 4585f62e1eaba670328b83c9d84d4b3c904c1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:47 +0000
Subject: [PATCH 01/90] fix: write numerical constants to generated code with
 full precision

Constants were written with six significant digits, so a compiled function
evaluated a different expression than the one it was built from, and two
different sub-expressions could share one key.
---
 AmpGen/Utilities.h |  3 +++
 src/Expression.cpp |  2 +-
 src/Utilities.cpp  | 10 ++++++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/AmpGen/Utilities.h b/AmpGen/Utilities.h
index e34f5c9..e056814 100644
--- a/AmpGen/Utilities.h
+++ b/AmpGen/Utilities.h
@@ -81,6 +81,9 @@ namespace AmpGen {
 
   std::string round( const double& number, const unsigned int& nsf );
 
+  /// Shortest of the %g representations of a number that reads back as exactly this number 
+  std::string to_literal( const double& number );
+
   std::string numberWithError( const double& number, const double& error, const unsigned int& nDigits );
 
   template <typename return_type>
diff --git a/src/Expression.cpp b/src/Expression.cpp
index aa11146..d90226b 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -55,7 +55,7 @@ bool isZero( const complex_t& A ){
 
 std::string Constant::to_string(const ASTResolver* resolver) const {  
   auto rounded_string = [](const double& val ){
-    std::string str = mysprintf("%g", val);
+    std::string str = to_literal(val);
     return  str.find(".") != std::string::npos or str.find("e") != std::string::npos ? str : str + ".";
   };
   std::string complex_type = type_string<complex_t>();
diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 1b1948a..36192b3 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -208,6 +208,16 @@ std::string AmpGen::round( const double& number, const unsigned int& nsf )
   return nsf != 0 ? mysprintf( ( "%." + std::to_string(nsf) + "f" ).c_str(), value ) : std::to_string( (int)value);
 }
 
+std::string AmpGen::to_literal( const double& number )
+{
+  for( const auto& format : {"%g", "%.15g", "%.16g"} )
+  {
+    auto str = mysprintf( format, number );
+    if( std::strtod( str.c_str(), nullptr ) == number ) return str;
+  }
+  return mysprintf( "%.17g", number );
+}
+
 std::string AmpGen::numberWithError( const double& number, const double& error, const unsigned int& nDigits )
 {
   return round( number, nDigits ) + "\\pm" + round( error , nDigits);
-- 
2.43.0


From 0a851767f04f4d25fac22f773ca7af8db2dc73b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:47 +0000
Subject: [PATCH 02/90] fix: give every key of a shared sub-expression its own
 definition

The same expression object wrapped in two common sub-expressions with
different keys only got one of the two definitions, so the generated code
did not compile.
---
 AmpGen/ASTResolver.h | 2 +-
 src/ASTResolver.cpp  | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/AmpGen/ASTResolver.h b/AmpGen/ASTResolver.h
index 668fd1c..37d4a97 100644
--- a/AmpGen/ASTResolver.h
+++ b/AmpGen/ASTResolver.h
@@ -61,7 +61,7 @@ namespace AmpGen {
       std::map<std::string, unsigned>                       m_evtMap;                      /// Event specification 
       std::map<std::string, std::string>                    m_parameterMapping;            /// Mapping of parameters to compile parameters
       const MinuitParameterSet*                             m_mps;                         /// Set of MinuitParameters 
-      std::map<const IExpression*, const SubTree*>          m_tempTrees;                   /// temporary store of sub-trees for performing cse reduction 
+      std::map<std::pair<const IExpression*, uint64_t>, const SubTree*> m_tempTrees;                   /// temporary store of sub-trees for performing cse reduction 
       unsigned int                                          m_nParameters;                 /// Number of parameters
       bool                                                  m_enable_cuda                 {false}; /// flag to generate CUDA code <<experimental>>
       bool                                                  m_enable_compileTimeConstants {false}; /// flag to enable compile time constants <<experimental>> 
diff --git a/src/ASTResolver.cpp b/src/ASTResolver.cpp
index 7dcdfc0..468a19f 100644
--- a/src/ASTResolver.cpp
+++ b/src/ASTResolver.cpp
@@ -36,7 +36,7 @@ std::vector<std::pair<uint64_t,Expression>> ASTResolver::getOrderedSubExpression
     {
       uint64_t key = s->key(); 
       if( subTrees.count( key ) == 0 ) subTrees[ key ] = s->expression();
-      else if( m_check_hashes && t->to_string() != subTrees[key].to_string() )
+      else if( m_check_hashes && t.first->to_string() != subTrees[key].to_string() )
       {
         WARNING("Hash collision between in key = " << key << " other key = " << FNV1a_hash( subTrees[key].to_string() ) );
       }
@@ -67,10 +67,11 @@ std::vector<std::pair<uint64_t,Expression>> ASTResolver::getOrderedSubExpression
 template <> void ASTResolver::resolve<SubTree>( const SubTree& subTree )
 {
   auto ptr = subTree.expression().get();
-  if( m_tempTrees.count(ptr) != 0 ) return;
+  auto id  = std::make_pair( static_cast<const IExpression*>(ptr), subTree.key() );
+  if( m_tempTrees.count(id) != 0 ) return;
   else {
     ptr->resolve( *this );
-    m_tempTrees[ptr] = &subTree;
+    m_tempTrees[id] = &subTree;
   }
 }
 
-- 
2.43.0


From aa0f41fa84f71bdca539a374763b49ab6da72619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:47 +0000
Subject: [PATCH 03/90] fix: initialise the imaginary part of a complex number
 made from a real one

Also allows the conversion from a literal, so that real constants can be
returned from vectorised functions.
---
 AmpGen/Complex.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/AmpGen/Complex.h b/AmpGen/Complex.h
index 6508b8f..ef657c7 100644
--- a/AmpGen/Complex.h
+++ b/AmpGen/Complex.h
@@ -2,6 +2,7 @@
 #define AMPGEN_COMPLEX_H 1 
 
 #include <complex>
+#include <type_traits>
 
 namespace AmpGen {
   template <typename real_t>
@@ -14,7 +15,9 @@ namespace AmpGen {
     // Complex( const float&   re, const float& im) : re(re), im(im) {}
     Complex( const std::complex<double>& f ) : re( f.real() ), im( f.imag() ) {}
     Complex( const std::complex<float>& f  ) : re( f.real() ), im( f.imag() ) {}
-    explicit Complex( const real_t& arg ) : re(arg) {};
+    explicit Complex( const real_t& arg ) : re(arg), im(0.) {};
+    template <typename T, typename = std::enable_if_t<std::is_arithmetic<T>::value && !std::is_same<T, real_t>::value>> 
+    explicit Complex( const T& arg ) : re(arg), im(0.) {};
     Complex(const real_t& re, const double& im  ) : re(re), im(im) {} 
     // explicit Complex( const double& arg ) : re(arg) {};
     inline Complex operator+=(const Complex& rhs ); 
-- 
2.43.0


From 0cd7494f9d4986dfd506583dda5cdd74831e10d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:34 +0000
Subject: [PATCH 04/90] fix: keep the full precision of parameters included in
 generated code

---
 src/CompiledExpressionBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CompiledExpressionBase.cpp b/src/CompiledExpressionBase.cpp
index fd4ed52..e2625ff 100644
--- a/src/CompiledExpressionBase.cpp
+++ b/src/CompiledExpressionBase.cpp
@@ -229,6 +229,6 @@ void CompiledExpressionBase::compileWithParameters( std::ostream& stream ) const
   tl.erase(tl.begin() + ( use_rto() ? 2 : 0 ) ); 
   stream << "extern \"C\" " << returnTypename() << " " << progName() << "_wParams" << "(" << fcnSignature(tl) << " ){" << std::endl;
   auto buf = externBuffer(); 
-  stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return std::to_string(line); }) ) <<"};\n" ;
+  stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return to_literal(line); }) ) <<"};\n" ;
   stream << "  return " << progName() << "( externalParameters, x0 ); \n}\n";
 }
-- 
2.43.0


From 176fd0cae01cfab93420708f597e33d5153a8a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:53 +0000
Subject: [PATCH 05/90] fix: full precision and resolution of compile-time
 constant parameters

Compile-time constants were written with six decimals, and a linked
parameter with this flag was never resolved unless the option to use
compile-time constants was enabled.
---
 AmpGen/Utilities.h       | 2 +-
 src/ASTResolver.cpp      | 5 +++--
 src/Expression.cpp       | 8 ++------
 src/ExpressionParser.cpp | 4 ++--
 src/Utilities.cpp        | 9 +++++----
 5 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/AmpGen/Utilities.h b/AmpGen/Utilities.h
index e056814..aeb3d17 100644
--- a/AmpGen/Utilities.h
+++ b/AmpGen/Utilities.h
@@ -81,7 +81,7 @@ namespace AmpGen {
 
   std::string round( const double& number, const unsigned int& nsf );
 
-  /// Shortest of the %g representations of a number that reads back as exactly this number 
+  /// Shortest floating point literal (of the %g form) that reads back as exactly this number 
   std::string to_literal( const double& number );
 
   std::string numberWithError( const double& number, const double& error, const unsigned int& nDigits );
diff --git a/src/ASTResolver.cpp b/src/ASTResolver.cpp
index 468a19f..53d04be 100644
--- a/src/ASTResolver.cpp
+++ b/src/ASTResolver.cpp
@@ -9,6 +9,7 @@
 #include "AmpGen/MinuitParameter.h"
 #include "AmpGen/MsgService.h"
 #include "AmpGen/MinuitExpression.h"
+#include "AmpGen/Utilities.h"
 
 using namespace AmpGen;
 
@@ -114,7 +115,7 @@ template <> void ASTResolver::resolve<Parameter>( const Parameter& parameter )
     auto it = m_mps->find(parameter.name());
     if( it != nullptr ){
       if( m_enable_compileTimeConstants && it->flag() == Flag::CompileTimeConstant ){
-        addResolvedParameter( &parameter, "("+std::to_string(it->mean()) +")" );
+        addResolvedParameter( &parameter, "("+to_literal(it->mean()) +")" );
       }
       else addResolvedParameter( &parameter, addCacheFunction<ParameterTransfer>( parameter.name(), it )  );
       return;
@@ -122,7 +123,7 @@ template <> void ASTResolver::resolve<Parameter>( const Parameter& parameter )
     DEBUG("Could not find parameter: " << parameter.name() << " amongst the MPS ");
   }
   else if( m_enable_compileTimeConstants ){
-    addResolvedParameter( &parameter, std::to_string( parameter.defaultValue() ) );
+    addResolvedParameter( &parameter, "("+to_literal( parameter.defaultValue() ) +")" );
     return;
   }
   auto address = addCacheFunction<CacheTransfer>( parameter.name(), parameter.defaultValue() );
diff --git a/src/Expression.cpp b/src/Expression.cpp
index d90226b..b68e5ee 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -54,10 +54,6 @@ bool isZero( const complex_t& A ){
 }
 
 std::string Constant::to_string(const ASTResolver* resolver) const {  
-  auto rounded_string = [](const double& val ){
-    std::string str = to_literal(val);
-    return  str.find(".") != std::string::npos or str.find("e") != std::string::npos ? str : str + ".";
-  };
   std::string complex_type = type_string<complex_t>();
   std::string literalSuffix = "";
   if( resolver != nullptr && (resolver->enableCuda() || resolver->enableAVX()) )
@@ -65,8 +61,8 @@ std::string Constant::to_string(const ASTResolver* resolver) const {
   //  literalSuffix = "f";
     complex_type = type_string<complex_v>();
   }
-  return std::imag(m_value) == 0 ? "(" + rounded_string(std::real(m_value)) +literalSuffix + ")" : 
-      complex_type +"("+rounded_string(std::real(m_value))+literalSuffix+","+rounded_string(std::imag(m_value))+literalSuffix+")";
+  return std::imag(m_value) == 0 ? "(" + to_literal(std::real(m_value)) +literalSuffix + ")" : 
+      complex_type +"("+to_literal(std::real(m_value))+literalSuffix+","+to_literal(std::imag(m_value))+literalSuffix+")";
 }
 
 Expression simplify_constant_addition( const Constant& constant, const Expression& expression )
diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 49edf95..60a8e04 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -246,7 +246,7 @@ std::string MinuitParameterLink::to_string(const ASTResolver* resolver) const
 
   if( resolver == nullptr ) return m_parameter->name();
   if( resolver->enableCompileConstants() && m_parameter != nullptr && m_parameter->flag () == Flag::CompileTimeConstant )
-    return std::to_string( m_parameter->mean() ); 
+    return "("+to_literal( m_parameter->mean() )+")"; 
   return resolver->resolvedParameter(this);
 
 }
@@ -259,7 +259,7 @@ void MinuitParameterLink::resolve( ASTResolver& resolver ) const
 {
   auto as_expression = dynamic_cast<const MinuitExpression*>( this->m_parameter );
   if( as_expression != nullptr ) return as_expression->expression().resolve(resolver);
-  if( m_parameter->flag() != Flag::CompileTimeConstant ) resolver.resolve(*this);
+  if( !resolver.enableCompileConstants() || m_parameter->flag() != Flag::CompileTimeConstant ) resolver.resolve(*this);
 }
 
 complex_t MinuitParameterLink::operator()() const 
diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 36192b3..b59c0d7 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -210,12 +210,13 @@ std::string AmpGen::round( const double& number, const unsigned int& nsf )
 
 std::string AmpGen::to_literal( const double& number )
 {
-  for( const auto& format : {"%g", "%.15g", "%.16g"} )
+  std::string str;
+  for( const auto& format : {"%g", "%.15g", "%.16g", "%.17g"} )
   {
-    auto str = mysprintf( format, number );
-    if( std::strtod( str.c_str(), nullptr ) == number ) return str;
+    str = mysprintf( format, number );
+    if( std::strtod( str.c_str(), nullptr ) == number ) break;
   }
-  return mysprintf( "%.17g", number );
+  return str.find_first_of(".e") == std::string::npos ? str + "." : str;
 }
 
 std::string AmpGen::numberWithError( const double& number, const double& error, const unsigned int& nDigits )
-- 
2.43.0


From 10566cca5f2214ca6d2fae5dda1341fc903da17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:54 +0000
Subject: [PATCH 06/90] fix: keep powers and other non-algebraic binary terms
 when simplifying

Terms such as pow(x,y) were dropped from the normal-ordered form, which
changed the value of simplified expressions and made different
sub-expressions share a key.
---
 src/Simplify.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Simplify.cpp b/src/Simplify.cpp
index b39c5b6..4e4b5cc 100644
--- a/src/Simplify.cpp
+++ b/src/Simplify.cpp
@@ -20,12 +20,13 @@ void NormalOrderedExpression::Term::addExpression( const Expression& expression)
       addExpression(l);
       addExpression(r);
     }
-    if( is<Sum>(expression) || is<Sub>(expression) ) 
+    else if( is<Sum>(expression) || is<Sub>(expression) ) 
       ERROR("I never should get here, brackets should be pre-expanded [" << expression << "] " );
-    if( is<Divide>(expression) ){
+    else if( is<Divide>(expression) ){
       addExpression( l );
       m_divisor = m_divisor * r ;  
     }
+    else m_terms.emplace_back( expression, expression.to_string() );
   }
   else if( is<Constant>(expression) ) m_prefactor *= expression();
   else m_terms.emplace_back( expression, expression.to_string() );
-- 
2.43.0


From 2d49312a8f43f31ea3d67e0c4f328c5411259865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:54 +0000
Subject: [PATCH 07/90] fix: signs of the derivatives of asin and acos

---
 src/UnaryExpression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/UnaryExpression.cpp b/src/UnaryExpression.cpp
index 3b09b3a..8fcb37a 100644
--- a/src/UnaryExpression.cpp
+++ b/src/UnaryExpression.cpp
@@ -85,8 +85,8 @@ Expression Sin::d()  const { return   fcn::cos(arg()) ; }
 
 Expression Tan::d()  const { return 1. / ( fcn::cos(arg()) * fcn::cos(arg()) );}
 
-Expression ACos::d() const { return  1 / fcn::sqrt( 1 - arg()*arg() ); }
-Expression ASin::d() const { return -1 / fcn::sqrt( 1 - arg()*arg() ) ; }
+Expression ACos::d() const { return -1 / fcn::sqrt( 1 - arg()*arg() ); }
+Expression ASin::d() const { return  1 / fcn::sqrt( 1 - arg()*arg() ) ; }
 Expression ATan::d() const { return 1 / ( 1 + arg()*arg() ); }
 
 Expression ISqrt::d() const { return -1./ ( 2 * Pow( arg() , 1.5 ) ); }
-- 
2.43.0


From 0c6cde8dd93d097ce237bfc85eb0d1861ccb32ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:54 +0000
Subject: [PATCH 08/90] fix: in-situ evaluation of fmod

---
 src/BinaryExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BinaryExpression.cpp b/src/BinaryExpression.cpp
index 5fee9f1..e41dcf0 100644
--- a/src/BinaryExpression.cpp
+++ b/src/BinaryExpression.cpp
@@ -37,7 +37,7 @@ complex_t LessThan::operator()()    const { return complex_t(std::real(lval()) <
 complex_t GreaterThanEqualTo::operator()() const { return complex_t(std::real(lval()) >= std::real(rval()) ,0); }
 complex_t LessThanEqualTo::operator()()    const { return complex_t(std::real(lval()) <= std::real(rval()) ,0); }
 complex_t Pow::operator()()         const { return pow( lval(), rval() ); }
-complex_t Fmod::operator()()        const { return 0; }
+complex_t Fmod::operator()()        const { return std::fmod( std::real(lval()), std::real(rval()) ); }
 complex_t Equal::operator()()       const { return lval() == rval() ; } 
 complex_t Or::operator()()          const { return std::real(lval()) || std::real(rval()) ; }
 complex_t ATan2::operator()()       const { return atan2( std::real(lval() ), std::real(rval() ) ); }
-- 
2.43.0


From cbd733e41c26455d45b09c8b5d86963c3d7c07d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:13 +0000
Subject: [PATCH 09/90] fix: keep sums that appear in a term after brackets
 have been expanded

Dividing by a fraction moves its denominator back to the numerator, and
a sum that came back this way was dropped from the simplified expression.
---
 src/Simplify.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Simplify.cpp b/src/Simplify.cpp
index 4e4b5cc..8b8ae86 100644
--- a/src/Simplify.cpp
+++ b/src/Simplify.cpp
@@ -20,8 +20,6 @@ void NormalOrderedExpression::Term::addExpression( const Expression& expression)
       addExpression(l);
       addExpression(r);
     }
-    else if( is<Sum>(expression) || is<Sub>(expression) ) 
-      ERROR("I never should get here, brackets should be pre-expanded [" << expression << "] " );
     else if( is<Divide>(expression) ){
       addExpression( l );
       m_divisor = m_divisor * r ;  
-- 
2.43.0


From c10caf44feff0f2068aafcccaa8c3e1c55fb2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:28 +0000
Subject: [PATCH 10/90] fix: products of tensors with a scalar result of a
 contraction

---
 src/Tensor.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index 56690c0..ed0771d 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -418,22 +418,20 @@ TensorProxy AmpGen::operator*( const TensorProxy& t1, const TensorProxy& t2 )
     auto coords = Tensor::index_to_coordinates( elem, finalTensorRank );
     std::vector<unsigned> t1_coords( t1_size, 0 );
     std::vector<unsigned> t2_coords( t2_size, 0 );
-    unsigned i = 0;
     unsigned j = 0;
-    do {
+    for( unsigned i = 0; i < t1_size; ++i ) {
       if( std::none_of( contractions.begin(), contractions.end(), [&i](const auto& a){ return a.i == i ;} )){
         t1_coords[i] = coords[j];
         j++;
       }
-    } while ( ++i < t1_size );
-    i = 0;
+    }
     j = t1_size - contractions.size();
-    do {
+    for( unsigned i = 0; i < t2_size; ++i ) {
       if( std::none_of( contractions.begin(), contractions.end(), [&i](const auto& a){ return a.j == i ;} )){
         t2_coords[i] = coords[j];
         j++;
       }
-    } while ( ++i < t2_size );
+    }
     
     Expression elementExpression = 0;
     for( unsigned m=0; m<nElementsInSum; ++m) {
-- 
2.43.0


From c4929d91ddfe09229f3b9954e7a2223b3e7a7cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:46 +0000
Subject: [PATCH 11/90] fix: reordering of the indices of tensors with unequal
 dimensions

---
 src/Tensor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index ed0771d..7bb2193 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -578,10 +578,12 @@ TensorProxy TensorProxy::reorder( const std::vector<Tensor::Index>& indices )
       if( m_indices[j] == indices[i] ) mapping[j] = i;
     }
   }
-  Tensor reordered( m_tensor.dims() ); 
+  std::vector<unsigned> dims( m_indices.size(), 0 );
+  for(unsigned z = 0 ; z < m_indices.size(); ++z ) dims[mapping[z]] = m_tensor.dims()[z];
+  Tensor reordered( dims ); 
   for(unsigned i = 0 ; i < m_tensor.size(); ++i)
   { 
-    auto coordinates       = Tensor::index_to_coordinates(i,m_tensor.dims() );
+    auto coordinates       = Tensor::index_to_coordinates(i, dims );
     std::vector<unsigned> new_coordinates( m_indices.size() );
     for(unsigned z = 0 ; z < m_indices.size(); ++z )
       new_coordinates[z] = coordinates[mapping[z]];
-- 
2.43.0


From 40aec2cdb84690ee07b901b6a93f96e2cb3d7d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:16 +0000
Subject: [PATCH 12/90] fix: sums of tensors where only the first is symmetric

---
 src/Tensor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index 7bb2193..3827939 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -496,13 +496,13 @@ TensorProxy AmpGen::operator+( const TensorProxy& t1, const TensorProxy& t2 )
     ERROR("Mapping illformed!" << indices_t1.size() << " " << indices_t2.size());
     return TensorProxy( Tensor(), {} );
   }
-  Tensor result( tensor_t1 );
+  Tensor result( tensor_t1.dims() );
 
-  for ( auto& i : tensor_t1.uniqueElements() ) {
+  for ( unsigned int i = 0; i < tensor_t1.nElements(); ++i ) {
     auto t1_coords = tensor_t1.coords( i );
     auto t2_coords = std::vector<unsigned>( t1_coords.size(), 0 );
     for( unsigned int j=0;j<t1_coords.size(); ++j ) t2_coords[ j ] = t1_coords[t1_to_t2_mapping[j]];
-    result[i] = result[i] + tensor_t2[t2_coords];
+    result[i] = tensor_t1[i] + tensor_t2[t2_coords];
   }
   return TensorProxy( result, indices_t1 );
 }
-- 
2.43.0


From 35e21bdb8772df8169c6a6e4ae9bf2f493e29816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:47 +0000
Subject: [PATCH 13/90] fix: inversion of tensors with an imposed symmetry

---
 src/Tensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index 3827939..980860a 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -263,7 +263,8 @@ Tensor Tensor::Invert() const
   int actualsize = m_dim[0];
   if ( rank() != 2 ) ERROR("Inversion only implemented for rank 2 objects");
   
-  Tensor data = *this;
+  Tensor data( m_dim ); /// does not inherit symmetries, elements are filled independently
+  for ( unsigned i = 0; i < nElements(); ++i ) data[i] = Tensor::operator[](i);
 
   for ( int i = 1; i < actualsize; i++ ) data[i] = data[i] / data[0]; // normalize row 0
   for ( int i = 1; i < actualsize; i++ ) {
-- 
2.43.0


From ba41b1a0ae286d9e36db4a2e6616cf4fa667bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:22 +0000
Subject: [PATCH 14/90] fix: keep the orbital angular momentum in the
 descriptor of decays with a named vertex

---
 AmpGen/Particle.h | 1 +
 src/Particle.cpp  | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/AmpGen/Particle.h b/AmpGen/Particle.h
index 494418b..9b5eb2a 100644
--- a/AmpGen/Particle.h
+++ b/AmpGen/Particle.h
@@ -313,6 +313,7 @@ namespace AmpGen
       const Particle*   m_parent             = {nullptr};    ///< Pointer to the parent particle of this particle
       void pdgLookup(bool quiet=false);                      ///< Lookup information from the PDG database (using ParticlePropertiesList)
       bool hasModifier( const std::string& modifier ) const; ///< Check if this particle has a given modifier
+      std::string spinOrbitString() const;                   ///< String that describes the orbital angular momentum and spin configuration, regardless of the vertex
       std::string modifierString() const;                    ///< Re-generate modifier string used to create particle
       void sortDaughters();                                  ///< Recursively order the particle's decay products. 
 
diff --git a/src/Particle.cpp b/src/Particle.cpp
index e6e71b7..8c91dec 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -281,7 +281,11 @@ std::shared_ptr<Particle> Particle::daughter( const std::string& name, const int
 
 std::string Particle::orbitalString() const
 {
-  if( m_vertexName != "" ) return m_vertexName; 
+  return m_vertexName != "" ? m_vertexName : spinOrbitString(); 
+}
+
+std::string Particle::spinOrbitString() const
+{
   constexpr std::array<char, 7> orbitals = {'S','P','D','F','G','H','I'};
   std::string rt = std::string(1, orbitals[m_orbital] ); 
   if( m_spinConfigurationNumber != 0 ){ 
@@ -302,7 +306,7 @@ std::string Particle::modifierString() const
   auto append = [&modString](const std::string& toAppend){ 
     modString += ( modString == "[" ? toAppend : ";" +toAppend );
   };
-  if ( m_orbital != m_minL || m_spinConfigurationNumber != 0 ) append( orbitalString() );
+  if ( m_orbital != m_minL || m_spinConfigurationNumber != 0 ) append( spinOrbitString() );
   if ( !m_usesDefaultLineshape ) append( m_lineshape );
   std::vector<std::string> otherModifiers = {"BgSpin0", "Inco", "NoSym"};
   for ( auto& mod : otherModifiers ) if ( hasModifier( mod ) ) append(mod) ;
-- 
2.43.0


From 16d30c439f2309c12777634743771bde4b472a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:54 +0000
Subject: [PATCH 15/90] fix: write half-integer spins as twice the spin over
 two

---
 src/ParticleProperties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParticleProperties.cpp b/src/ParticleProperties.cpp
index 4558301..d0fd652 100644
--- a/src/ParticleProperties.cpp
+++ b/src/ParticleProperties.cpp
@@ -53,7 +53,7 @@ std::string ParticleProperties::J() const
 {
   if( m_twoSpin == -1 ) return "?";
   if( m_twoSpin % 2 == 0 ) return std::to_string( int(m_twoSpin/2) );
-  if( m_twoSpin % 2 == 1 ) return std::to_string( int(m_twoSpin/2) ) + "/2";
+  if( m_twoSpin % 2 == 1 ) return std::to_string( m_twoSpin ) + "/2";
   return "";
 }
 
-- 
2.43.0


From 3786a1e716b823367beca1e0c65cfbe6cdf5dfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:24 +0000
Subject: [PATCH 16/90] fix: use the spinor of the fermion in the chiral
 fermion-scalar vertices

---
 src/FermionVertices.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index e6b25cf..79b833d 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -84,14 +84,14 @@ DEFINE_VERTEX( f_Vf_SR )
 DEFINE_VERTEX( f_fS_SL )
 { 
   Tensor proj = Spin1hProjector(P);
-  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 
 DEFINE_VERTEX( f_fS_SR )
 { 
   Tensor proj = Spin1hProjector(P);
-  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 DEFINE_VERTEX( f_fS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
@@ -260,14 +260,14 @@ DEFINE_VERTEX( F_VF_SR )
 DEFINE_VERTEX( F_FS_SL )
 { 
   Tensor proj = Spin1hbProjector(P);
-  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 
 DEFINE_VERTEX( F_FS_SR )
 { 
   Tensor proj = Spin1hbProjector(P);
-  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 DEFINE_VERTEX( F_FS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
-- 
2.43.0


From 702d9a08dc9324e6f61f8f6a61b2609f5fd8d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:24 +0000
Subject: [PATCH 17/90] fix: use the antiparticle projector in the F_FS_S1 and
 F_VF_D1 vertices

---
 src/FermionVertices.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index 79b833d..3306625 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -270,7 +270,7 @@ DEFINE_VERTEX( F_FS_SR )
   return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
-DEFINE_VERTEX( F_FS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
+DEFINE_VERTEX( F_FS_S1 ){ return Spin1hbProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
 
 DEFINE_VERTEX( F_FS_P1 )
 {
@@ -304,7 +304,7 @@ DEFINE_VERTEX( F_VF_P3 ) //A5
 
 DEFINE_VERTEX( F_VF_D1 )
 {
-  Tensor proj   = Spin1hProjector(P);
+  Tensor proj   = Spin1hbProjector(P);
   Tensor gt     = gamma_twiddle(P);
   Tensor L      = Orbital_DWave(P,Q)(-mu,-nu) * V1(nu); 
   return proj( a, b ) * gt(mu,b,c) * L(-mu) * V2(c) ;
-- 
2.43.0


From 860d164f04b4ec1b14acf63bb888a17936d393f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:24 +0000
Subject: [PATCH 18/90] fix: include the current of the scalar decay product in
 all vertices

---
 src/FermionVertices.cpp | 12 ++++++------
 src/Vertex.cpp          |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index 3306625..fd08f5c 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -28,7 +28,7 @@ DEFINE_VERTEX( f_fS_P )
   ADD_DEBUG_TENSOR( P, db );
   ADD_DEBUG_TENSOR( Q, db );
   ADD_DEBUG_TENSOR( L, db );
-  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d);
+  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d) * V2[0];
   return t; 
 }
 
@@ -140,7 +140,7 @@ DEFINE_VERTEX( r_fS_P )
   Tensor L = Orbital_PWave(P,Q);
   L.st();
   Tensor F = Spin1hProjector(P);
-  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d); 
+  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d) * V2[0]; 
   V.st();
   return V;
 }
@@ -153,7 +153,7 @@ DEFINE_VERTEX( r_fS_D )
   L.st(true);
   Expression L2 = make_cse(dot(L,L));
   Tensor gt = gamma_twiddle(P);
-  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d); 
+  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d) * V2[0]; 
   rt.st();
   return rt;
 }
@@ -204,7 +204,7 @@ DEFINE_VERTEX( F_FS_P )
   ADD_DEBUG_TENSOR( P, db );
   ADD_DEBUG_TENSOR( Q, db );
   ADD_DEBUG_TENSOR( L, db );
-  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d);
+  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d) * V2[0];
   return t; 
 }
 
@@ -316,7 +316,7 @@ DEFINE_VERTEX( R_FS_P )
   Tensor L = Orbital_PWave(P,Q);
   L.st();
   Tensor F = Spin1hbProjector(P);
-  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d); 
+  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d) * V2[0]; 
   V.st();
   return V;
 }
@@ -329,7 +329,7 @@ DEFINE_VERTEX( R_FS_D )
   L.st(true);
   Expression L2 = make_cse(dot(L,L));
   Tensor gt = gamma_twiddle(P);
-  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d); 
+  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d) * V2[0]; 
   rt.st();
   return rt;
 }
diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index e6ce10f..b1f09a0 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -295,7 +295,7 @@ DEFINE_VERTEX( V_TS_D )
 {
   Tensor L        = ( -1 ) * Orbital_PWave( P, Q );
   Tensor coupling = LeviCivita()( -mu, -nu, -alpha, -beta ) * P( nu ) * Q( alpha );
-  return coupling( -mu, -nu ) * V1( nu, alpha ) * L( -alpha );
+  return ( coupling( -mu, -nu ) * V1( nu, alpha ) * L( -alpha ) ) * V2[0];
 }
 
 DEFINE_VERTEX( S_fF_S ) { return Bar(V2)(a) * V1(a); }
-- 
2.43.0


From c1ecf551fb25b5e15e6c103f94613430abd0c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:39 +0000
Subject: [PATCH 19/90] fix: project the axial vector current of a fermion pair
 onto spin one

---
 src/Vertex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index b1f09a0..3c08009 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -311,7 +311,7 @@ DEFINE_VERTEX( V_fF_S ) {
   return V_fF_S; 
 }
 
-DEFINE_VERTEX( V_fF_S1 ){ return Bar(V2)(a) * Gamma[4](a,b) * Gamma4Vec()(mu,b,c) * V1(c); }
+DEFINE_VERTEX( V_fF_S1 ){ return Bar(V2)(a) * Gamma[4](a,b) * gamma_twiddle(P)(mu,b,c) * V1(c); }
 
 DEFINE_VERTEX( V_fF_PL )
 { 
-- 
2.43.0


From 3e64c5b874f1f5c825726157a329165c8d50c950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:49 +0000
Subject: [PATCH 20/90] fix: helicity states of vectors moving along -z

---
 src/Particle.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 8c91dec..887cbfb 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -556,12 +556,15 @@ Tensor Particle::externalSpinTensor(const int& polState, DebugSymbols* db ) cons
     if( m_spinBasis == spinBasis::Weyl ) 
     {
       Expression N = 1./(sqrt(2)); 
-      Expression invPT2 = make_cse(Ternary( pX*pX + pY*pY > 1e-6, 1./(pX*pX+pY*pY), 0 ));
       Expression invP   = make_cse(Ternary( pP            > 1e-6, 1./pP,0));
       Expression pZoverP = make_cse(Ternary( pP > 1e-6, pZ/pP, 1) );
-      Expression f = (pP-pZ)*invPT2;
-      if(polState ==  1) return N * Tensor({-pZoverP + 1i*z *pY*f*invP, -1i*pZoverP - 1i*z *pX*f*invP, z*invP           , 0.  }); 
-      if(polState == -1) return N * Tensor({ pZoverP + 1i*zb*pY*f*invP, -1i*pZoverP - 1i*zb*pX*f*invP,-zb*invP          , 0.  });
+      Expression d   = make_cse( pP*(pP+pZ) );
+      Expression f   = make_cse(Ternary( d > 1e-12, 1./d, 0 ));
+      Expression fXX = make_cse(Ternary( d > 1e-12, pX*pX*f, -2*pZ*invP )); // has a limit for momenta along -z 
+      Expression fXY = pX*pY*f;
+      Expression fYY = pY*pY*f;
+      if(polState ==  1) return N * Tensor({-pZoverP - fYY + 1i*fXY, -1i*pZoverP - 1i*fXX + fXY, z*invP           , 0.  }); 
+      if(polState == -1) return N * Tensor({ pZoverP + fYY + 1i*fXY, -1i*pZoverP - 1i*fXX - fXY,-zb*invP          , 0.  });
       if(polState ==  0) return     Tensor({pX*pE*invP/m    , pY*pE*invP/m       , pZoverP*pE/m, pP/m}); 
     }
     if( m_spinBasis == spinBasis::Dirac ){
-- 
2.43.0


From 6d7227b376a8a800be783f24a66fcd7f2762ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:00 +0000
Subject: [PATCH 21/90] fix: helicity states of fermions moving along -z

---
 src/Particle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 887cbfb..30d2265 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -581,8 +581,9 @@ Tensor Particle::externalSpinTensor(const int& polState, DebugSymbols* db ) cons
       std::array<Tensor,2> xi;
       Expression aligned = make_cse( fcn::abs(pP + pZ) < 1e-6 ) ;
       Expression n       = 1/fcn::sqrt( 2 * pP*(pP+pZ) );
-      xi[0] = Tensor( { Ternary( aligned, 1, n * ( pP + pZ ) )      , Ternary( aligned, 0, n * ( pX + 1i * pY) ) } );
-      xi[1] = Tensor( { Ternary( aligned, 0, n * ( -pX + 1i * pY )) , Ternary( aligned, 1, n * ( pP + pZ ) ) } );
+      Expression down    = make_cse( Ternary( pP > 1e-6, -pZ/pP, 0 ) ); // if aligned: 1 for momenta along -z, 0 at rest
+      xi[0] = Tensor( { Ternary( aligned, 1 - down, n * ( pP + pZ ) )  , Ternary( aligned, down , n * ( pX + 1i * pY) ) } );
+      xi[1] = Tensor( { Ternary( aligned, -down, n * ( -pX + 1i * pY )), Ternary( aligned, 1 - down, n * ( pP + pZ ) ) } );
       Expression N = make_cse( fcn::sqrt((pE+m)/(2*m) ));
       Expression k = pP * polState / ( pE + m );
       int ind = polState == +1 ? 0 : 1;
-- 
2.43.0


From 612dbf84f42ee67fc4a354ef7a6c23492daa4926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:51 +0000
Subject: [PATCH 22/90] fix: exchange sign of cyclic permutations of identical
 fermions

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index b59c0d7..b3dbc6b 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -519,7 +519,7 @@ std::pair<size_t,int> AmpGen::minSwaps(const std::vector<size_t>& indices, const
       cycle_size++; 
     } 
     if( cycle_size > 0 ){
-      netExchangeParity *= exchangeParities[i]; 
+      if( cycle_size % 2 == 0 ) netExchangeParity *= exchangeParities[i]; 
       ans += (cycle_size - 1); 
     }
   } 
-- 
2.43.0


From 8c3abf5651d0fd4475a3242e0de2cf1801ba4be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:12 +0000
Subject: [PATCH 23/90] fix: exchange the spins of identical particles together
 with their momenta

---
 src/Particle.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 30d2265..3bd7315 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -439,6 +439,12 @@ Expression Particle::getExpression( DebugSymbols* db, const std::vector<int>& st
   std::vector<int> exchangeParities;
   std::transform(fsp.begin(), fsp.end(), std::back_inserter(exchangeParities), 
       [](const auto& p){ return p->props()->isFermion() ? -1 : 1; } );
+  std::vector<int> polStates;
+  std::transform(fsp.begin(), fsp.end(), std::back_inserter(polStates), [](const auto& p){ return p->polState(); } );
+  auto setPolStates = [&fsp, &polStates](const std::vector<size_t>& ordering){ // spins are exchanged together with the momenta
+    for( size_t i = 0 ; i != fsp.size(); ++i )
+      if( fsp[i]->polState() != polStates[ordering[i]] ) fsp[i]->setPolarisationState( polStates[ordering[i]] );
+  };
   std::map< std::vector<size_t>, Expression> props; 
   for( const auto& ordering : orderings ){
     setOrdering( ordering );
@@ -447,6 +453,7 @@ Expression Particle::getExpression( DebugSymbols* db, const std::vector<int>& st
   for(const auto& ordering : orderings){
     auto exchangeParity = minSwaps( ordering, exchangeParities );   
     setOrdering( ordering );
+    setPolStates( ordering );
     Expression spinFactor = 1; 
     if( includeSpin && m_spinFormalism == spinFormalism::Covariant ){
       Tensor st = spinTensor(db);
@@ -486,6 +493,7 @@ Expression Particle::getExpression( DebugSymbols* db, const std::vector<int>& st
     else              total = total + fcn::conj(ls) * ls;
     if(!doSymmetrisation) break;
   }
+  if( !orderings.empty() ) setPolStates( orderings[0] );
   ADD_DEBUG( total, db );
   double nPermutations = doSymmetrisation ? orderings.size() : 1;
   if ( sumAmplitudes )
-- 
2.43.0


From ea803f3ee0cab3a3bb5da433f29eb9b87be20be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:22 +0000
Subject: [PATCH 24/90] fix: spinor representation of an empty sequence of
 transformations

---
 src/Transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Transform.cpp b/src/Transform.cpp
index 812a6be..7149fbd 100644
--- a/src/Transform.cpp
+++ b/src/Transform.cpp
@@ -115,7 +115,7 @@ void TransformSequence::buildCache()
   {
    if( m_transforms.size() == 0 ){
      if( repr == Transform::Representation::Spinor ) m_cache[repr] = Identity(2);
-     m_cache[repr] = Identity(4);
+     else m_cache[repr] = Identity(4);
    }
    else { 
     Tensor::Index a,b,c;
-- 
2.43.0


From 8ba0d59f686afcc9c38d6ef258202c1dfa28a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:19 +0000
Subject: [PATCH 25/90] fix: normalisation of the L=4 Blatt-Weisskopf factor

---
 src/Lineshapes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lineshapes.cpp b/src/Lineshapes.cpp
index 7406c7d..6f99a01 100644
--- a/src/Lineshapes.cpp
+++ b/src/Lineshapes.cpp
@@ -32,7 +32,7 @@ Expression AmpGen::BlattWeisskopf_Norm( const Expression& ze, const Expression&
     case 1: return (1+z0) / (1+z);
     case 2: return (z0*z0 + 3*z0 + 9 ) / (z*z + 3*z + 9);
     case 3: return (z0*fpow(z0-15,2) + 9*fpow( 2*z0 -5,2 ) ) / (z*fpow(z-15,2) + 9*fpow( 2*z -5,2 ) );
-    case 4: return (fpow(z0*z0-45*z0+105, 2)+25*z*fpow(2*z-21,2)) / (fpow(z*z-45*z+105, 2)+25*z*fpow(2*z-21,2) );
+    case 4: return (fpow(z0*z0-45*z0+105, 2)+25*z0*fpow(2*z0-21,2)) / (fpow(z*z-45*z+105, 2)+25*z*fpow(2*z-21,2) );
     default : 
       ERROR("Barrier factors not for implemented for L>4");
       return 0;
-- 
2.43.0


From 28a22aed042d21ad42546394215857e8a821dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:46 +0000
Subject: [PATCH 26/90] fix: D-wave barrier factor of the dispersive phase
 space

---
 src/Lineshapes/CoupledChannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lineshapes/CoupledChannel.cpp b/src/Lineshapes/CoupledChannel.cpp
index a052762..bc63708 100644
--- a/src/Lineshapes/CoupledChannel.cpp
+++ b/src/Lineshapes/CoupledChannel.cpp
@@ -100,7 +100,7 @@ namespace {
   {
     if constexpr( L == 0 )      return expression_type(1);
     else if constexpr( L == 1 ) return expression_type( 2 * z / ( 1 + z )  ); 
-    else if constexpr( L == 2 ) return expression_type( 13 * z * z / ( z*z + 3*z * 9 ) ); 
+    else if constexpr( L == 2 ) return expression_type( 13 * z * z / ( z*z + 3*z + 9 ) ); 
     else if constexpr( L == 3 ) return expression_type( 277  * z * z * z  / (z*(z-15)*(z-15) + 9* ( 2 * z - 5 ) * (2*z-5 ) ) );  
     else {
       std::cout << "error, blatt weisskopf not implemented for L> 3 (if you are trying to calculate dispersive corrections in such a case, good luck to ya" << std::endl; 
-- 
2.43.0


From f936c6d4b26bd604afb3fc4a6aa79ffbedae7cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:02 +0000
Subject: [PATCH 27/90] fix: count the non-resonant production term of the
 K-matrix once

---
 src/Lineshapes/GenericKmatrix.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Lineshapes/GenericKmatrix.cpp b/src/Lineshapes/GenericKmatrix.cpp
index 08f0391..434dce6 100644
--- a/src/Lineshapes/GenericKmatrix.cpp
+++ b/src/Lineshapes/GenericKmatrix.cpp
@@ -130,12 +130,12 @@ DEFINE_GENERIC_SHAPE(GenericKmatrix)
     for(unsigned k = 0 ; k < nChannels; ++k){
       for(unsigned alpha = 0; alpha < nPoles; ++alpha){
         Expression beta = 0;
-        for(unsigned q = 0 ; q < nChannels; ++q){
-          beta += a[q] * poleConfigs[alpha].couplings[q];
-          phi[k] += a[q] * non_resonant[{k,q}];
-        }
-        P[k] += (beta * poleConfigs[alpha].couplings[k])/(poleConfigs[alpha].s - s) + phi[k] * (1.+s_0)/(s-s_0);
+        for(unsigned q = 0 ; q < nChannels; ++q) beta += a[q] * poleConfigs[alpha].couplings[q];
+        P[k] += (beta * poleConfigs[alpha].couplings[k])/(poleConfigs[alpha].s - s);
       }
+      //the non-resonant term enters once, irrespective of the number of poles
+      for(unsigned q = 0 ; q < nChannels; ++q) phi[k] += a[q] * non_resonant[{k,q}];
+      P[k] += phi[k] * (1.+s_0)/(s-s_0);
       F_0 += propagator[{0,k}] * P[k];
     }
     //TODO: implement higher orbital angular momentum
-- 
2.43.0


From 439ecaa8b07d800e61efd7bf1451d387af19bfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:02 +0000
Subject: [PATCH 28/90] fix: mass of the eta' in the isoscalar K-matrix

---
 src/Lineshapes/kMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lineshapes/kMatrix.cpp b/src/Lineshapes/kMatrix.cpp
index 5fb6569..c2d9822 100644
--- a/src/Lineshapes/kMatrix.cpp
+++ b/src/Lineshapes/kMatrix.cpp
@@ -93,7 +93,7 @@ DEFINE_LINESHAPE( kMatrix )
   double mPiPlus = 0.139570;
   double mKPlus  = 0.493677;
   double mEta    = 0.547862;
-  double mEtap   = 0.967780;
+  double mEtap   = 0.957780;
 
   Expression sA0      = Parameter( "sA0", -0.15 );
   Expression sA       = Parameter( "sA", 1.0 );
-- 
2.43.0


From 51848376fc27e0995224755a94eccd7808c7e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:51 +0000
Subject: [PATCH 29/90] fix: value of splines at their knots

---
 src/Spline.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Spline.cpp b/src/Spline.cpp
index f32a739..190356e 100644
--- a/src/Spline.cpp
+++ b/src/Spline.cpp
@@ -64,8 +64,11 @@ Expression Spline::eval(DebugSymbols* db) const
 {
   Expression x   = make_cse(m_x);
   double spacing = ( m_max - m_min ) / ( (double)m_nKnots - 1. );
-  Expression dx  = Fmod( x - m_min, spacing );
-  Expression bin = ( x - m_min ) / spacing;
+  // the index of the knot and the distance to it have to be rounded alike, also when x coincides with a knot 
+  Expression pos = make_cse( ( x - m_min ) / spacing );
+  Expression rem = make_cse( Fmod( pos, 1 ) );
+  Expression bin = make_cse( pos - rem + 0.5 );
+  Expression dx  = spacing * rem;
   Expression continuedValue            = m_points[m_nKnots-1];
 
   Expression returnValue = Ternary( x > m_min && x < m_max,
-- 
2.43.0


From 6d6a53078f3b3fa3765297aff04be067ad9c1893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:33 +0000
Subject: [PATCH 30/90] fix: constant indices of arrays in vectorised code

---
 src/Array.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Array.cpp b/src/Array.cpp
index 8d72b6b..803a348 100644
--- a/src/Array.cpp
+++ b/src/Array.cpp
@@ -20,11 +20,14 @@ Array::Array( const Expression& top,
 std::string Array::to_string(const ASTResolver* resolver) const {
   auto head   = m_top.to_string(resolver);
   std::string offset = "";
-  if( m_size != -1 ) offset = Ternary( m_address >= 0  && m_address < m_size, m_address, 0.).to_string(resolver);
-  else if ( is<Constant>(m_address) ) offset = std::to_string( int( m_address().real() ) );
+  if( is<Constant>(m_address) ){
+    const int address = m_address().real();
+    offset = std::to_string( m_size == -1 || ( address >= 0 && address < m_size ) ? address : 0 );
+  }
+  else if( m_size != -1 ) offset = Ternary( m_address >= 0  && m_address < m_size, m_address, 0.).to_string(resolver);
   else offset = m_address.to_string(resolver) ; 
   
-  if( resolver != nullptr && resolver->enableAVX() ) return " gather( &(" + head + "), " + offset + ")";  
+  if( resolver != nullptr && resolver->enableAVX() && ! is<Constant>(m_address) ) return " gather( &(" + head + "), " + offset + ")";  
   if( head.find("[") == std::string::npos ) return head + "[int("+offset+")]";
   else return " * ( & (" + head + ") + int("+offset+") )";
 }
-- 
2.43.0


From e9cf1cdbe235871173ad017fd9dcbf5567233587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:08 +0000
Subject: [PATCH 31/90] fix: keep the token directly before a comment in option
 files

---
 src/OptionsParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 2bdafe7..168521d 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -137,7 +137,10 @@ std::vector<std::string> OptionsParser::makeParsedStrings( const std::string& li
   std::vector<std::string> fillThisList;
 
   for ( std::string::const_iterator it = s.begin(); it != s.end(); ++it ) {
-    if ( !insideQuotes && *it == '#' ) break; /// indicates a comment, except in speech marks ///
+    if ( !insideQuotes && *it == '#' ) { /// indicates a comment, except in speech marks ///
+      if ( !prevBlank ) fillThisList.emplace_back( prev, it );
+      break;
+    }
     if ( ( ( !insideQuotes ) && std::isblank( *it ) ) || *it == '"' || ignore ) {
       if ( !prevBlank ) {
         std::string tmp_s( prev, it );
-- 
2.43.0


From 42ceb9c48c412fd4a4649fef696a1c5604bd24da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:44 +0000
Subject: [PATCH 32/90] fix: options of enumerated types outside of the file
 that completes the enum

---
 AmpGen/enum.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/AmpGen/enum.h b/AmpGen/enum.h
index b6529ee..9b0cab3 100644
--- a/AmpGen/enum.h
+++ b/AmpGen/enum.h
@@ -8,6 +8,7 @@
 enum class name {__VA_ARGS__, Invalid};                                     \
 template <> name parse(const std::string& word);                   \
 template <> std::string to_string( const name& enumItem );         \
+template <> name lexical_cast(const std::string& word, bool& status);       \
 std::ostream& operator<<( std::ostream& os, const name& np); 
 
 #define complete_enum(name, ...)                 \
-- 
2.43.0


From c7724a0d369860cf471aacb2fffbc3920381adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:21 +0000
Subject: [PATCH 33/90] fix: skip parameters whose name is already in the set

---
 src/MinuitParameterSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 549974f..261f6ec 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -31,11 +31,11 @@ bool MinuitParameterSet::addToEnd( MinuitParameter* parPtr )
 {
   bool success = true;
   if ( nullptr == parPtr ) return false;
-  m_parameters.push_back( parPtr );
   if ( m_keyAccess.find( parPtr->name() ) != m_keyAccess.end() ) {
     WARNING( "Parameter with name " << parPtr->name() << " already exists!, skipping" );
     return false; 
   }
+  m_parameters.push_back( parPtr );
   DEBUG( "Adding: " << parPtr->name() ); 
   m_keyAccess[parPtr->name()] = parPtr;
   return success;
-- 
2.43.0


From b9e8134e2520ac8846c52a3408fc40b24aba69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:21 +0000
Subject: [PATCH 34/90] fix: forget the name of unregistered parameters

---
 src/MinuitParameterSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 261f6ec..7ed75f4 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -57,6 +57,7 @@ bool MinuitParameterSet::unregister( MinuitParameter* parPtr )
     return false;
   }
   m_parameters.erase( remove( m_parameters.begin(), m_parameters.end(), parPtr ), m_parameters.end() );
+  m_keyAccess.erase( parPtr->name() );
   return true;
 }
 
-- 
2.43.0


From 9e40493ae2b2bb8b01249cdee84fc13761dabb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:21 +0000
Subject: [PATCH 35/90] fix: look-up of names that are not in the parameter set

---
 src/MinuitParameterSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 7ed75f4..735552b 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -83,6 +83,7 @@ MinuitParameter* MinuitParameterSet::operator[]( const std::string& key )
   auto it = m_keyAccess.find( key );
   if ( it == m_keyAccess.end() ) {
     WARNING( "Parameter: " << key << " not found" );
+    return nullptr;
   }
   return it->second;
 }
@@ -92,6 +93,7 @@ MinuitParameter* MinuitParameterSet::operator[]( const std::string& key ) const
   auto it = m_keyAccess.find( key );
   if ( it == m_keyAccess.end() ) {
     WARNING( "Parameter: " << key << " not found" );
+    return nullptr;
   }
   return it->second;
 }
-- 
2.43.0


From 5747769fc9463a35aca2254dc661a0ac5d0ddb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:21 +0000
Subject: [PATCH 36/90] fix: values of parameters constructed without a flag

---
 src/MinuitParameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MinuitParameter.cpp b/src/MinuitParameter.cpp
index 0ef9140..c00ff87 100644
--- a/src/MinuitParameter.cpp
+++ b/src/MinuitParameter.cpp
@@ -22,7 +22,7 @@ MinuitParameter::MinuitParameter( const std::string& name, const Flag& fix, cons
 }
 
 MinuitParameter::MinuitParameter( const std::string& name, const double& mean, const double& step, const double& mi, const double& ma )
-  : MinuitParameter(name, Flag::Free, m_meanInit, m_stepInit, m_minInit, m_maxInit ) 
+  : MinuitParameter(name, Flag::Free, mean, step, mi, ma ) 
 {
   DEBUG( "Building parameter : " << name );
   resetToInit();
-- 
2.43.0


From 49bab75f2726239a05d387ec3678928868892e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:31 +0000
Subject: [PATCH 37/90] fix: replace every occurrence of a string, and only of
 the original string

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index b3dbc6b..cd10298 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -117,7 +117,7 @@ std::string AmpGen::replaceAll( const std::string& input, const std::string& toR
     pos = output.find( toReplace, start_pos );
     if ( pos != std::string::npos ) {
       output.replace( pos, toReplace.length(), replaceWith );
-      start_pos = pos + toReplace.length();
+      start_pos = pos + replaceWith.length();
     }
   } while ( pos != std::string::npos );
   return output;
-- 
2.43.0


From 941b8c831309ef88449a2dead9c2fae3f4780e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:31 +0000
Subject: [PATCH 38/90] fix: lines ignored by vectorFromFile

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index cd10298..e38e4fa 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -18,7 +18,7 @@
 std::vector<std::string> AmpGen::vectorFromFile( const std::string& filename, const char ignoreLinesThatBeginWith )
 {
   std::vector<std::string> output;
-  processFile( filename, [&output](const std::string& line) mutable -> void {output.push_back(line);} ); 
+  processFile( filename, [&output](const std::string& line) mutable -> void {output.push_back(line);}, ignoreLinesThatBeginWith ); 
   return output;
 }
 
-- 
2.43.0


From 7d139368f73c3b363933ac66a8f37963dc75a2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:31 +0000
Subject: [PATCH 39/90] fix: keep the character that follows a bracketed
 environment variable

---
 src/Utilities.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index e38e4fa..8a86801 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -354,7 +354,6 @@ std::string AmpGen::expandGlobals( std::string path )
     if ( path[pos + 1] == '{' ) {
       end_pos       = path.find( "}", pos );
       variable_name = path.substr( pos + 2, end_pos - pos - 2 );
-      end_pos       = end_pos + 1;
     } else {
       end_pos       = find_next_of( path, {".", "/"}, pos );
       variable_name = path.substr( pos + 1, end_pos - pos - 1 );
-- 
2.43.0


From 47907787e593c20836c7567aef7d4a302a317e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:31 +0000
Subject: [PATCH 40/90] fix: wildcards match any sequence of characters

---
 src/Utilities.cpp | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 8a86801..3ba3aab 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -228,23 +228,11 @@ bool AmpGen::stringMatchesWildcard( const std::string& input, const std::string&
     const char wildcard_character )
 {
   auto pos = wildcard_string.find( wildcard_character ); /// TEST_foobar -> *_foobar
-  if ( wildcard_string.size() == 1 && wildcard_string[0] == wildcard_character ) {
-    return true;
-  }
-  if ( pos == std::string::npos ) {
-    return input == wildcard_string;
-  }
-  if ( pos == wildcard_string.size() - 1 ) {
-    return input.find( wildcard_string.substr( 0, wildcard_string.size() - 1 ) ) == 0;
-  } else {
-    const std::string pattern1 = wildcard_string.substr( 0, pos + 1 );
-    const std::string pattern2 = wildcard_string.substr( pos + 1 );
-    bool match1 = stringMatchesWildcard( input, pattern1, wildcard_character );
-    if ( !match1 ) return false;
-    auto pos2             = pattern2.find( wildcard_character );
-    auto posInInputString = input.find( pattern2.substr( 0, pos2 ) );
-    if ( posInInputString == std::string::npos ) return false;
-    return stringMatchesWildcard( input.substr( posInInputString ), pattern2, wildcard_character );
+  if ( pos == std::string::npos ) return input == wildcard_string;
+  if ( input.compare( 0, pos, wildcard_string, 0, pos ) != 0 ) return false;
+  const std::string remainder = wildcard_string.substr( pos + 1 );
+  for ( size_t begin = pos; begin <= input.size(); ++begin ) {
+    if ( stringMatchesWildcard( input.substr( begin ), remainder, wildcard_character ) ) return true;
   }
   return false;
 }
-- 
2.43.0


From 09e7d777461c59a842accc2bd8666833792688c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:56 +0000
Subject: [PATCH 41/90] fix: define the coordinates of couplings in the library
 part that reads them

---
 src/AmplitudeRules.cpp   | 6 ++++++
 src/ExpressionParser.cpp | 6 ------
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/AmplitudeRules.cpp b/src/AmplitudeRules.cpp
index ca0bec6..67306de 100644
--- a/src/AmplitudeRules.cpp
+++ b/src/AmplitudeRules.cpp
@@ -18,6 +18,12 @@
 using namespace AmpGen;
 using namespace std::complex_literals; 
 
+namespace AmpGen 
+{
+  complete_enum(coordinateType, cartesian, polar)
+  complete_enum(angType, deg, rad)
+}
+
 Coupling::Coupling(MinuitParameter* re, MinuitParameter* im) :
   m_re(re),
   m_im(im)
diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 60a8e04..472f095 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -22,12 +22,6 @@ using namespace std::complex_literals;
 
 DEFINE_CAST( MinuitParameterLink )
 
-namespace AmpGen 
-{
-  complete_enum(coordinateType, cartesian, polar)
-  complete_enum(angType, deg, rad)
-}
-
 void ExpressionParser::processBinaryOperators( std::vector<std::string>& opCodes, std::vector<Expression>& expressions )
 {
   for ( auto& fcn : m_binaryFunctions ) {
-- 
2.43.0


From ebfdca617b8aa02f0ee513a8815c5f5935ae2a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:51 +0000
Subject: [PATCH 42/90] fix: do not add nameless conjugates of parameters that
 have no conjugate

---
 src/AddCPConjugate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/AddCPConjugate.cpp b/src/AddCPConjugate.cpp
index c6ec1b3..91747c9 100644
--- a/src/AddCPConjugate.cpp
+++ b/src/AddCPConjugate.cpp
@@ -65,6 +65,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
       auto props = AmpGen::ParticlePropertiesList::get(pname, true);
       if( props != 0  ) new_name = props->anti().name() + "_" + tokens[1]; 
     }
+    if( new_name == "" ) continue; 
     tmp.push_back( new MinuitExpression(new_name, sgn * MinuitParameterLink(param) )) ;  
   }
   for( auto& p : tmp ){
-- 
2.43.0


From fb6aa38c25ea851166d6419e3239d84f479ea145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:51 +0000
Subject: [PATCH 43/90] fix: CP conjugates in the presence of prefixed
 couplings and other complex parameters

---
 src/AddCPConjugate.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/AddCPConjugate.cpp b/src/AddCPConjugate.cpp
index 91747c9..bce1bf3 100644
--- a/src/AddCPConjugate.cpp
+++ b/src/AddCPConjugate.cpp
@@ -49,6 +49,9 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
     std::string new_name = ""; 
     int sgn=1;
     if ( reOrIm == "Re" || reOrIm == "Im" ){
+      std::string prefix = tokens.size() == 3 ? tokens[0] + "_" : "";
+      if( tokens.size() == 3 ) pname = tokens[1];
+      if( ! Particle::isValidDecayDescriptor(pname) && ParticlePropertiesList::get(pname, true) == nullptr ) continue;
       auto test_particle = Particle(pname);
       //DEBUG( test_particle.name() << "->" << test_particle ); 
       if( std::count( forbidden.begin(), forbidden.end(), test_particle.name() ) != 0 ){
@@ -59,7 +62,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
       if( ! test.props()->hasDistinctAnti() ) continue; 
       if( cartOrPolar == "polar" )     sgn = reOrIm == "Re" ? test.CP() : 1; 
       if( cartOrPolar == "cartesian" ) sgn = test.CP();
-      new_name = test.uniqueString() +"_"+reOrIm;
+      new_name = prefix + test.uniqueString() +"_"+reOrIm;
     }
     else if( tokens.size() == 2 ) {
       auto props = AmpGen::ParticlePropertiesList::get(pname, true);
-- 
2.43.0


From b2067463751b7eb857c5d86416ea4e4eda833388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:51 +0000
Subject: [PATCH 44/90] fix: couplings given by expressions are not fixed

---
 src/AmplitudeRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AmplitudeRules.cpp b/src/AmplitudeRules.cpp
index 67306de..25549ea 100644
--- a/src/AmplitudeRules.cpp
+++ b/src/AmplitudeRules.cpp
@@ -177,7 +177,7 @@ std::vector<std::pair<Particle, TotalCoupling>> AmplitudeRules::getMatchingRules
 
 bool TotalCoupling::isFixed() const
 {
-  return std::all_of(begin(), end(), [](auto& c){ return c.x()->isFixed() && c.y()->isFixed() ; } );
+  return std::all_of(begin(), end(), [](auto& c){ return c.x() != nullptr && c.x()->isFixed() && c.y()->isFixed() ; } );
 }
 
 bool TotalCoupling::contains( const std::string& label ) const 
-- 
2.43.0


From 1703ff49111ead63c53142c37cf3e9c8e58f0c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:51 +0000
Subject: [PATCH 45/90] fix: imaginary part of expressions referred to by other
 expressions

---
 src/ExpressionParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 472f095..7a496fb 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -259,6 +259,8 @@ void MinuitParameterLink::resolve( ASTResolver& resolver ) const
 complex_t MinuitParameterLink::operator()() const 
 { 
   if( m_parameter == nullptr ) ERROR("Parameter does not have end-point");
+  auto as_expression = dynamic_cast<const MinuitExpression*>( this->m_parameter );
+  if( as_expression != nullptr ) return as_expression->getVal();
   return m_parameter->mean(); 
 }
 
-- 
2.43.0


From 7a91e87b4b3d3f6dac7937cf24304dfc6a2d4d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:20 +0000
Subject: [PATCH 46/90] fix: truncate the indices of arrays in single precision
 vector code

---
 AmpGen/simd/avx2f_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/simd/avx2f_types.h b/AmpGen/simd/avx2f_types.h
index 7202250..6612ac4 100644
--- a/AmpGen/simd/avx2f_types.h
+++ b/AmpGen/simd/avx2f_types.h
@@ -49,7 +49,7 @@ namespace AmpGen {
       inline real_v operator-=(const real_v& rhs ); 
       inline real_v operator*=(const real_v& rhs ); 
       inline real_v operator/=(const real_v& rhs ); 
-      inline __m256i to_int() const { return _mm256_cvtps_epi32(data); }
+      inline __m256i to_int() const { return _mm256_cvttps_epi32(data); }
     };
     
     inline real_v operator+( const real_v& lhs, const real_v& rhs ) { return _mm256_add_ps(lhs, rhs); }
-- 
2.43.0


From 9415960a54b14bcffd9ed14c9e0322371f6ecc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:20 +0000
Subject: [PATCH 47/90] fix: branch of the vectorised square root of negative
 real numbers

---
 AmpGen/Complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Complex.h b/AmpGen/Complex.h
index ef657c7..ed8e159 100644
--- a/AmpGen/Complex.h
+++ b/AmpGen/Complex.h
@@ -75,7 +75,7 @@ namespace AmpGen {
   inline Complex<real_t> sqrt( const Complex<real_t>& v )
   {
     auto r = abs(v);
-    return Complex ( sqrt( 0.5 * (r + v.re) ), sign(v.im) * sqrt( 0.5*( r - v.re ) ) );
+    return Complex ( sqrt( 0.5 * (r + v.re) ), select( v.im < real_t(0.), real_t(-1.), real_t(1.) ) * sqrt( 0.5*( r - v.re ) ) );
   }
   template <typename real_t>
   inline Complex<real_t> log( const Complex<real_t>& v )
-- 
2.43.0


From 814fbca740e4f1b30636459aaf5dc74adbe0f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:24 +0000
Subject: [PATCH 48/90] fix: return one-dimensional integrals of functions of a
 number

---
 AmpGen/NumericalIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/NumericalIntegration.h b/AmpGen/NumericalIntegration.h
index eaf1288..27e2dbc 100644
--- a/AmpGen/NumericalIntegration.h
+++ b/AmpGen/NumericalIntegration.h
@@ -93,7 +93,7 @@ namespace AmpGen {
     //   2.A. van Doren and L. de Ridder, An adaptive algorithm for numerical
     //     integration over an n-dimensional cube, J.Comput. Appl. Math. 2 (1976) 207-217.
     if constexpr( dim == 1 ){
-      if constexpr( is_functor<fcn, double(const double&)>::value ) { integrate_1d(F, xmin[0], xmax[0] ); }
+      if constexpr( is_functor<fcn, double(const double&)>::value ) { return integrate_1d(F, xmin[0], xmax[0] ); }
       else if constexpr( is_functor<fcn, double(const std::array<double, 1>& ) >::value ){
         return integrate_1d( [&F](const double& x){ return F( std::array<double,1>{x} ); }, xmin[0], xmax[0] );
       }
-- 
2.43.0


From e613911907e1863f99f019fe79efc95f8454d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:12 +0000
Subject: [PATCH 49/90] fix: sign of the correction when adding a number to a
 compensated sum

---
 AmpGen/KahanSum.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/AmpGen/KahanSum.h b/AmpGen/KahanSum.h
index 25b5e8b..fc8dd5f 100644
--- a/AmpGen/KahanSum.h
+++ b/AmpGen/KahanSum.h
@@ -34,11 +34,8 @@ namespace AmpGen {
   template <typename T> 
     KahanSum<T> operator+( const KahanSum<T>& l, const T& var )
     {
-      KahanSum<T> rt; 
-      T y = var - l.cor;
-      T t = l.sum + y;
-      rt.cor = (t-l.sum)-y; 
-      rt.sum = t;
+      KahanSum<T> rt = l; 
+      rt += var; 
       return rt;
     }
 
-- 
2.43.0


From f74b6ffda546a206cf85f1c772312a8799ab98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:12 +0000
Subject: [PATCH 50/90] fix: compare the sizes of small vectors

---
 AmpGen/SmallVector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/AmpGen/SmallVector.h b/AmpGen/SmallVector.h
index 18c324d..83e7bc9 100644
--- a/AmpGen/SmallVector.h
+++ b/AmpGen/SmallVector.h
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <array>
 
 namespace AmpGen {
@@ -29,7 +30,7 @@ namespace AmpGen {
       }
       bool operator==( const SmallVector& other ) const
       {
-        return other.store == this->store; 
+        return other.size == this->size && std::equal( begin(), end(), other.begin() ); 
       }
     };
 }
-- 
2.43.0


From 6908352ec076c3d1aaac30879b33badf4ab78b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:15 +0000
Subject: [PATCH 51/90] fix: results of tasks when the thread pool is disabled

---
 AmpGen/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/ThreadPool.h b/AmpGen/ThreadPool.h
index 5b2d1ee..d205d21 100644
--- a/AmpGen/ThreadPool.h
+++ b/AmpGen/ThreadPool.h
@@ -68,7 +68,7 @@ namespace AmpGen
     using return_type = typename std::invoke_result_t<F, Args...>;
     auto task = std::make_shared< std::packaged_task<return_type()> >( f, args... );
     std::future<return_type> res = task->get_future();
-    if(! m_enableThreadPool ) {  f(args...); return res; } 
+    if(! m_enableThreadPool ) {  (*task)(); return res; } 
     else
     {
       {
-- 
2.43.0


From 179777b525a83db7b859355df7612e8fd7b0fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:29 +0000
Subject: [PATCH 52/90] fix: stop the threads of a pool only once

---
 src/ThreadPool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ThreadPool.cpp b/src/ThreadPool.cpp
index b0489cf..6df84ea 100644
--- a/src/ThreadPool.cpp
+++ b/src/ThreadPool.cpp
@@ -37,5 +37,6 @@ void ThreadPool::waitForStoppedThreads()
   }
   m_condition.notify_all();
   for(std::thread &worker: m_workers) worker.join();
+  m_workers.clear();
   m_stop = false;
 }
-- 
2.43.0


From 55280749374f3298fc9a28f2814a904c99ea598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:29 +0000
Subject: [PATCH 53/90] fix: arguments of the tasks of a thread pool

---
 AmpGen/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/ThreadPool.h b/AmpGen/ThreadPool.h
index d205d21..d98c506 100644
--- a/AmpGen/ThreadPool.h
+++ b/AmpGen/ThreadPool.h
@@ -66,7 +66,7 @@ namespace AmpGen
   template<typename F, typename... Args> auto ThreadPool::enqueue(F&& f, Args&&... args) -> std::future<typename std::invoke_result_t<F,Args...>>
   {
     using return_type = typename std::invoke_result_t<F, Args...>;
-    auto task = std::make_shared< std::packaged_task<return_type()> >( f, args... );
+    auto task = std::make_shared< std::packaged_task<return_type()> >( std::bind( std::forward<F>(f), std::forward<Args>(args)... ) );
     std::future<return_type> res = task->get_future();
     if(! m_enableThreadPool ) {  (*task)(); return res; } 
     else
-- 
2.43.0


From c2fedc93e8c70e94d8478ff40ed3ce139d719da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:56 +0000
Subject: [PATCH 54/90] fix: compare the multiplicities and antiparticles when
 ordering events

---
 src/EventType.cpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/EventType.cpp b/src/EventType.cpp
index 8b0e524..4d78c1f 100644
--- a/src/EventType.cpp
+++ b/src/EventType.cpp
@@ -244,34 +244,32 @@ std::function<void( Event& )> EventType::symmetriser() const
 std::function<bool(Event&, const std::vector<int>&)> EventType::automaticOrdering() const 
 {
   std::vector<int> ids;
-  for( unsigned i = 0 ; i != m_particleNames.size(); ++i ) ids.push_back( ParticleProperties::get(m_particleNames[i])->pdgID() );
-  auto matches = [](const auto& c1, const auto& c2 , unsigned sgn = +1)
+  std::vector<int> anti_ids; 
+  for( unsigned i = 0 ; i != m_particleNames.size(); ++i )
   {
-    std::vector<bool> used( c1.size(), false );
-    for(unsigned i = 0; i != c1.size(); ++i )
-    {
-      for( unsigned j = 0; j != c2.size(); ++j )
-      {
-        if( c1[i] == sgn * c2[j] && ! used[j] ) used[j] = true;
-      }
-    }
-    return std::all_of( std::begin(used), std::end(used), [](auto b) { return b; }  ) ;
+    auto props = ParticleProperties::get(m_particleNames[i]); 
+    ids.push_back( props->pdgID() );
+    anti_ids.push_back( props->anti().pdgID() );
+  }
+  auto matches = [](const auto& c1, const auto& c2)
+  {
+    return c1.size() == c2.size() && std::is_permutation( std::begin(c1), std::end(c1), std::begin(c2) );
   };
 
-  return [ids, matches](auto& event, const auto& actual_ids) -> bool {
+  return [ids, anti_ids, matches](auto& event, const auto& actual_ids) -> bool {
     std::vector<unsigned> new_addresses( ids.size(), 999 ); 
-    int sgn = +1; 
-    if( matches(ids, actual_ids ) ) sgn = +1;
-    else if( matches(ids, actual_ids, -1 ) ) sgn = -1;
-    else { ERROR("Ids: " << vectorToString(actual_ids, " ") << " do not match either particle or antiparticle ["<< vectorToString(ids, " ") << "]" );
+    bool is_particle = matches(ids, actual_ids);
+    if( !is_particle && !matches(anti_ids, actual_ids) ){
+      ERROR("Ids: " << vectorToString(actual_ids, " ") << " do not match either particle or antiparticle ["<< vectorToString(ids, " ") << "]" );
       return false; 
     }
+    const auto& expected_ids = is_particle ? ids : anti_ids; 
     
-    for( unsigned i = 0 ; i != ids.size(); ++i )
+    for( unsigned i = 0 ; i != expected_ids.size(); ++i )
     {
       for( unsigned j = 0 ; j != actual_ids.size(); ++j )
       {
-        if( actual_ids[j] ==  sgn * ids[i] && new_addresses[j]==999 ){ new_addresses[j] = i; break ; }
+        if( actual_ids[j] == expected_ids[i] && new_addresses[j]==999 ){ new_addresses[j] = i; break ; }
       }
     }
     event.reorder( new_addresses );
-- 
2.43.0


From 8f7e2c19dc460af194a120ce42a6987fb83a3023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:04 +0000
Subject: [PATCH 55/90] fix: do not truncate the integrated weight of a list of
 events

---
 src/EventList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventList.cpp b/src/EventList.cpp
index 33e9069..8077be4 100644
--- a/src/EventList.cpp
+++ b/src/EventList.cpp
@@ -207,7 +207,7 @@ TH2D* EventList::makeProjection( const Projection2D& projection, const ArgumentP
 
 double EventList::integral() const
 {
-  return std::accumulate( std::begin(*this), std::end(*this), 0, [](double rv, const auto& evt){ return rv + evt.weight(); } );
+  return std::accumulate( std::begin(*this), std::end(*this), 0., [](double rv, const auto& evt){ return rv + evt.weight(); } );
 }
 
 void EventList::add( const EventList& evts )
-- 
2.43.0


From 545c7c11a26e1d6cade6e92aa16f944ff080aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:03 +0000
Subject: [PATCH 56/90] fix: read trees of fewer events than fit in a vector

---
 src/EventListSIMD.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/EventListSIMD.cpp b/src/EventListSIMD.cpp
index 9e07147..49ecc56 100644
--- a/src/EventListSIMD.cpp
+++ b/src/EventListSIMD.cpp
@@ -115,6 +115,7 @@ void EventListSIMD::loadFromTree( TTree* tree, const ArgumentPack& args )
   bool hasEventList    = entryList.size() != 0;
   size_t nEvents       = hasEventList ? entryList.size() : tree->GetEntries();
   std::array<Event, real_v::size> buffer;
+  buffer.fill( temp ); 
   
   resize( nEvents ); 
   auto symmetriser = m_eventType.symmetriser();
-- 
2.43.0


From d6d5fe9b41affb21074dfdb56c4c062e1c65f36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:15 +0000
Subject: [PATCH 57/90] fix: weights of the padding of vectorised lists of
 events

---
 AmpGen/simd/utils.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/AmpGen/simd/utils.h b/AmpGen/simd/utils.h
index ce8498d..90a2d5d 100644
--- a/AmpGen/simd/utils.h
+++ b/AmpGen/simd/utils.h
@@ -3,6 +3,7 @@
 
 #include <array>
 #include <complex>
+#include <optional>
 #include "AmpGen/Complex.h"
 
 #define INSTRUCTION_SET_SCALAR   0 
@@ -63,13 +64,13 @@ namespace AmpGen {
         template <>        struct is_vector_type <AVX::int_v>   : std::true_type {}; 
     #endif
     template <typename simd_type, typename container_type, typename functor_type> simd_type gather(
-        const container_type& container, const functor_type& functor, unsigned offset=0, typename simd_type::scalar_type df =0.)
+        const container_type& container, const functor_type& functor, unsigned offset=0, std::optional<typename simd_type::scalar_type> df = std::nullopt)
     {
       std::array<typename simd_type::scalar_type, simd_type::size> rv; 
-      if( df == 0. )
+      if( !df.has_value() )
       for( unsigned k = 0 ; k != simd_type::size; ++k ) rv[k] = offset + k < container.size() ? functor(container[offset+k]) : functor(container[container.size()-1]); 
       else 
-      for( unsigned k = 0 ; k != simd_type::size; ++k ) rv[k] = offset + k < container.size() ? functor(container[offset+k]) : df; 
+      for( unsigned k = 0 ; k != simd_type::size; ++k ) rv[k] = offset + k < container.size() ? functor(container[offset+k]) : *df; 
       return simd_type( rv.data() );
     } 
 
-- 
2.43.0


From c46ac7e9599a1bfbcd1c1ae3255479c1d19e56a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:02 +0000
Subject: [PATCH 58/90] fix: do not read beyond the end when iterating over
 vectorised lists

---
 AmpGen/simd/iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/simd/iterator.h b/AmpGen/simd/iterator.h
index 3949a0a..8f539e1 100644
--- a/AmpGen/simd/iterator.h
+++ b/AmpGen/simd/iterator.h
@@ -22,7 +22,7 @@ namespace AmpGen {
       if ( m_pos % simd_size == 0 )
       { 
         if constexpr(modifiable == true ) m_store->gather(m_buffer, (m_pos-1) / simd_size); 
-        m_buffer = m_store->scatter( m_pos );
+        if( m_pos < m_store->aligned_size() ) m_buffer = m_store->scatter( m_pos );
       }
       return *this;  
     }
-- 
2.43.0


From 41850245db3dbb3724a444a48537f325e8d161ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:02 +0000
Subject: [PATCH 59/90] fix: do not read beyond the end of the list of entries

---
 AmpGen/TreeReader.h | 2 +-
 src/TreeReader.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/AmpGen/TreeReader.h b/AmpGen/TreeReader.h
index 1e64d1f..d0a783a 100644
--- a/AmpGen/TreeReader.h
+++ b/AmpGen/TreeReader.h
@@ -46,7 +46,7 @@ namespace AmpGen
         Iterator& operator++()
         {
           m_position++;
-          m_parent->getEntry( m_position );
+          if( m_position < m_parent->nEntries() ) m_parent->getEntry( m_position );
           return *this;
         }
         bool operator==( const Iterator& rhs ) const { return m_position == rhs.m_position; }
diff --git a/src/TreeReader.cpp b/src/TreeReader.cpp
index c09aace..ef63376 100644
--- a/src/TreeReader.cpp
+++ b/src/TreeReader.cpp
@@ -43,5 +43,5 @@ TreeReader::~TreeReader()
   for ( auto& branch : m_branches ) delete branch;
 }
 
-TreeReader::Iterator TreeReader::begin() { getEntry(0); return Iterator( 0, this ); }
+TreeReader::Iterator TreeReader::begin() { if( nEntries() != 0 ) getEntry(0); return Iterator( 0, this ); }
 TreeReader::Iterator TreeReader::end()   { return Iterator( nEntries(), this ); }
-- 
2.43.0


From 27a98620bdc3718d0ffa006f18266915d2bffb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:26 +0000
Subject: [PATCH 60/90] fix: compile the generation of events from a pdf with
 vectorised lists

---
 AmpGen/Generator.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/AmpGen/Generator.h b/AmpGen/Generator.h
index b848a86..16b7697 100644
--- a/AmpGen/Generator.h
+++ b/AmpGen/Generator.h
@@ -161,10 +161,8 @@ namespace AmpGen
         template <typename pdf_t, typename = typename std::enable_if<!std::is_integral<pdf_t>::value>::type>
           EventList generate(pdf_t& pdf, const size_t& nEvents )
           {
-            eventlist_t evts( m_eventType );
-            fillEventList( pdf, evts, nEvents );
             EventList output( m_eventType );
-            for( const auto& event : evts ) output.emplace_back( event );
+            fillEventList( pdf, output, nEvents );
             return output; 
           }
         EventList generate(const size_t& nEvents)
-- 
2.43.0


From cc0cd365f50e77b8e725b01566994fcc3ca3b0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:47 +0000
Subject: [PATCH 61/90] fix: use the default random numbers for several decay
 chains

---
 src/TreePhaseSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreePhaseSpace.cpp b/src/TreePhaseSpace.cpp
index 5782997..0b8d514 100644
--- a/src/TreePhaseSpace.cpp
+++ b/src/TreePhaseSpace.cpp
@@ -48,7 +48,7 @@ TreePhaseSpace::TreePhaseSpace(const std::vector<Particle>& decayChains, const E
 //   add_decay_chain( Particle( decayChains[0].quasiStableTree() ) );
   
   initialise_weights(); 
-  setRandom(rndm);
+  setRandom(m_rand);
   DEBUG("w(max) = " << m_wmax << "#chains: " << m_gen.size() );  
 }
 
-- 
2.43.0


From 116a555db1288d02212d5238aa2668f6efbf28a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:15 +0000
Subject: [PATCH 62/90] fix: bound the weights of all decay chains when
 generating events

---
 src/TreePhaseSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreePhaseSpace.cpp b/src/TreePhaseSpace.cpp
index 0b8d514..ea96af3 100644
--- a/src/TreePhaseSpace.cpp
+++ b/src/TreePhaseSpace.cpp
@@ -55,7 +55,7 @@ TreePhaseSpace::TreePhaseSpace(const std::vector<Particle>& decayChains, const E
 void TreePhaseSpace::initialise_weights() 
 {
   auto weights = std::vector<double>( m_gen.size(), 1./m_gen.size() );
-  m_wmax = (*std::max_element( m_gen.begin(), m_gen.end(), [](auto a, auto b){ return a->maxWeight() > b->maxWeight();} )) -> maxWeight(); 
+  m_wmax = (*std::max_element( m_gen.begin(), m_gen.end(), [](auto a, auto b){ return a->maxWeight() < b->maxWeight();} )) -> maxWeight(); 
   m_dice = DiscreteDistribution(weights); 
 }
 
-- 
2.43.0


From 2887a7c628ce95ef0bdf85f94bef8e6c644762d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:21 +0000
Subject: [PATCH 63/90] fix: ownership of the events of amplitude models

---
 AmpGen/CoherentSum.h  | 2 +-
 AmpGen/PolarisedSum.h | 2 +-
 src/CoherentSum.cpp   | 1 +
 src/PolarisedSum.cpp  | 1 +
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/AmpGen/CoherentSum.h b/AmpGen/CoherentSum.h
index d9644bf..b3f1372 100644
--- a/AmpGen/CoherentSum.h
+++ b/AmpGen/CoherentSum.h
@@ -79,7 +79,7 @@ namespace AmpGen
     #if ENABLE_AVX
       void setEvents( const EventList& list) { 
         WARNING("Setting events from a AoS container, will need to make a copy");
-        m_ownEvents = true; setEvents( *(new EventListSIMD(list)) ) ; } 
+        setEvents( *(new EventListSIMD(list)) ) ; m_ownEvents = true; } 
       void setMC    ( const EventList& list) { 
         WARNING("Setting integration events from a AoS container, will need to make a copy");
         setMC( *(new EventListSIMD(list)) ) ; } 
diff --git a/AmpGen/PolarisedSum.h b/AmpGen/PolarisedSum.h
index 61b18b5..5be2144 100644
--- a/AmpGen/PolarisedSum.h
+++ b/AmpGen/PolarisedSum.h
@@ -43,7 +43,7 @@ namespace AmpGen
       void setEvents(EventList_type&);
       void setMC(EventList_type&);
       #if ENABLE_AVX
-        void setEvents(EventList& evts){ m_ownEvents = true; setEvents( *new EventList_type(evts)) ; };
+        void setEvents(EventList& evts){ setEvents( *new EventList_type(evts)) ; m_ownEvents = true; };
         void setMC(EventList& evts){ setMC( *new EventList_type(evts)) ; };
         double operator()(const double*, const unsigned) const; 
       #endif
diff --git a/src/CoherentSum.cpp b/src/CoherentSum.cpp
index a81703c..f8eb6e8 100644
--- a/src/CoherentSum.cpp
+++ b/src/CoherentSum.cpp
@@ -230,6 +230,7 @@ void CoherentSum::setEvents( const EventList_type& list )
   reset();
   for( auto& me : m_matrixElements ){ DEBUG("Registering: " << me.name() ) ; }
   if( m_ownEvents && m_events != nullptr ) delete m_events; 
+  m_ownEvents = false; 
   m_events = &list;
   m_cache.allocate(m_events, m_matrixElements); 
 }
diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index 1d0c18b..a93f4b2 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -212,6 +212,7 @@ void   PolarisedSum::setEvents( PolarisedSum::EventList_type& events )
 { 
   reset();
   if( m_events != nullptr && m_ownEvents ) delete m_events; 
+  m_ownEvents = false; 
   m_events = &events;
   m_cache.allocate( m_events, m_matrixElements); 
   m_pdfCache.allocate(&m_cache, m_probExpression); 
-- 
2.43.0


From a1fc66a346be597e48f8aed2dfc8f3e8002b3d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:21 +0000
Subject: [PATCH 64/90] fix: normalisation of incoherent sums

---
 AmpGen/CoherentSum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/CoherentSum.h b/AmpGen/CoherentSum.h
index b3f1372..517af8c 100644
--- a/AmpGen/CoherentSum.h
+++ b/AmpGen/CoherentSum.h
@@ -60,7 +60,7 @@ namespace AmpGen
     size_t size()                          const { return m_matrixElements.size(); }
     real_t getWeight()                     const { return m_weight; }
     real_t norm( const Bilinears& norms )  const;
-    real_t norm() const;
+    virtual real_t norm() const;
     real_t getNorm( const Bilinears& normalisations );
 
     complex_t norm( const size_t& x, const size_t& y ) const;
-- 
2.43.0


From 4ac3b5bb8ff55ef56c1732d5dcdc7e624490e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:59 +0000
Subject: [PATCH 65/90] fix: transverse polarisation of particles of spin one

---
 src/PolarisedSum.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index a93f4b2..a708c1a 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -151,9 +151,9 @@ std::vector<complex_t> densityMatrix(const unsigned& dim, const std::vector<Minu
     double Txy = pv[5];
     double Txz = pv[6];
     double Tyz = pv[7];
-    return {1 + 1.5*pz + sqrt(1.5)*Tzz                   , sqrt(0.375)*(px+1i*py) + sqrt(3.)*(Txz+1i*Tyz), -sqrt(1.5)*( Tzz + 2.*Tyy - 2.*1i*Txy), 
-          sqrt(0.375)*(px-1i*py) + sqrt(3)*(Txz-1i*Tyz), 1 - sqrt(6.)*Tzz                              , sqrt(0.375)*(px+1i*py) - sqrt(3.)*(Txz+1i*Tyz) ,
-         -sqrt(1.500)*( Tzz + 2.*Tyy + 2.*1i*Txy)      , sqrt(0.375)*(px-1i*py) - sqrt(3)*(Txz-1i*Tyz) , 1. - 1.5*pz + sqrt(1.5)*Tzz }; 
+    return {1 + 1.5*pz + sqrt(1.5)*Tzz                   , sqrt(1.125)*(px+1i*py) + sqrt(3.)*(Txz+1i*Tyz), -sqrt(1.5)*( Tzz + 2.*Tyy - 2.*1i*Txy), 
+          sqrt(1.125)*(px-1i*py) + sqrt(3)*(Txz-1i*Tyz), 1 - sqrt(6.)*Tzz                              , sqrt(1.125)*(px+1i*py) - sqrt(3.)*(Txz+1i*Tyz) ,
+         -sqrt(1.500)*( Tzz + 2.*Tyy + 2.*1i*Txy)      , sqrt(1.125)*(px-1i*py) - sqrt(3)*(Txz-1i*Tyz) , 1. - 1.5*pz + sqrt(1.5)*Tzz }; 
   }
   ERROR("Density matrices not implemented for state with size="<<dim);
   return {1.};
@@ -397,13 +397,13 @@ Expression PolarisedSum::probExpression(const Tensor& T_matrix, const std::vecto
     auto Txz = p[6];
     auto Tyz = p[7];
     rho(0,0) = 1 + 1.5 * pz + std::sqrt(1.5)*Tzz;
-    rho(1,0) = std::sqrt(0.375)*(px+1i*py) + std::sqrt(3.)*(Txz+1i*Tyz);
+    rho(1,0) = std::sqrt(1.125)*(px+1i*py) + std::sqrt(3.)*(Txz+1i*Tyz);
     rho(2,0) = -std::sqrt(1.5)*( Tzz + 2.*Tyy - 2.*1i*Txy); 
-    rho(0,1) = std::sqrt(0.375)*(px-1i*py) + std::sqrt(3.)*(Txz-1i*Tyz);
+    rho(0,1) = std::sqrt(1.125)*(px-1i*py) + std::sqrt(3.)*(Txz-1i*Tyz);
     rho(1,1) = 1 - std::sqrt(6.)*Tzz;
-    rho(2,1) = std::sqrt(0.375)*(px+1i*py) - std::sqrt(3.)*(Txz+1i*Tyz);
+    rho(2,1) = std::sqrt(1.125)*(px+1i*py) - std::sqrt(3.)*(Txz+1i*Tyz);
     rho(0,2) = -std::sqrt(1.5)*( Tzz + 2.*Tyy + 2.*1i*Txy); 
-    rho(1,2) = std::sqrt(0.375)*(px-1i*py) - std::sqrt(3)*(Txz-1i*Tyz);
+    rho(1,2) = std::sqrt(1.125)*(px-1i*py) - std::sqrt(3)*(Txz-1i*Tyz);
     rho(2,2) = 1. - 1.5*pz + std::sqrt(1.5)*Tzz;
   }
   Tensor TT;
-- 
2.43.0


From 2e1bbf15b4cb5361d0d1ccf44f89926bbd5fa5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:26 +0000
Subject: [PATCH 66/90] fix: name of particles constructed from a name and an
 index

---
 src/Particle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 3bd7315..d13b844 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -67,7 +67,8 @@ Particle::Particle(const std::string& name, const std::vector<Particle>& particl
 
 
 Particle::Particle( const std::string& name, const unsigned int& index ) :
-  m_props{ParticlePropertiesList::get( name )}
+  m_name{name}
+  , m_props{ParticlePropertiesList::get( name )}
   , m_index{index}
 {
   pdgLookup();
-- 
2.43.0


From 113f54266abcbad95bf75b81cb8e28383472d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:26 +0000
Subject: [PATCH 67/90] fix: strong decays reported as weak

---
 src/Particle.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index d13b844..aa01cce 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -790,7 +790,11 @@ std::string Particle::topologicalString() const
 
 const ParticleProperties* Particle::props() const { return m_props; }
 bool Particle::isHead() const { return m_parent == nullptr; }
-bool Particle::isWeakDecay() const { return m_name.find("NonRes") == std::string::npos or quarks() != daughterQuarks(); }
+bool Particle::isWeakDecay() const 
+{ 
+  if( abs(m_props->pdgID()) == 24 || abs(m_props->pdgID()) == 23 ) return true;
+  return m_name.find("NonRes") == std::string::npos and quarks() != daughterQuarks(); 
+}
 bool Particle::isStateGood() const { return m_isStateGood; }
 bool Particle::isStable() const { return m_daughters.size() == 0; }
 
-- 
2.43.0


From 826fba109b41d2109f9a7a2c317f73d0565e69f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:26 +0000
Subject: [PATCH 68/90] fix: descriptor and head of expanded decays

---
 src/Particle.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index aa01cce..1e3fd43 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -936,9 +936,17 @@ bool Particle::expand( const Particle& particle )
 {
   for( auto& d : m_daughters ) 
   {
-    if( d->name() == particle.name() && d->isStable() ){ d = std::make_shared<Particle>(particle); return true; }
-    bool worked = d->expand( particle);
-    if( worked ) return true; 
+    bool worked = false;
+    if( d->name() == particle.name() && d->isStable() ){ 
+      d = std::make_shared<Particle>(particle); 
+      d->setParent(this);
+      worked = true; 
+    }
+    else worked = d->expand( particle);
+    if( worked ){ 
+      makeUniqueString();
+      return true; 
+    }
   }
   return false ;
 }
-- 
2.43.0


From 041e5c44a299028b4fec59eccd83927f215ba400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:00 +0000
Subject: [PATCH 69/90] fix: descriptor of decays whose lineshape is set after
 construction

---
 src/Particle.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 1e3fd43..7a77a1e 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -739,6 +739,7 @@ void Particle::addModifier( const std::string& mod )
 {
   m_modifiers.push_back( mod );
   parseModifier( mod );
+  if( Lineshape::Factory::isLineshape(mod) ) m_usesDefaultLineshape = false;
   m_uniqueString = makeUniqueString();
 }
 void Particle::setName(const std::string& name)
@@ -761,6 +762,7 @@ void Particle::setOrbital( const unsigned int& orbital )
 void Particle::setLineshape( const std::string& lineshape )
 {
   m_lineshape    = lineshape;
+  m_usesDefaultLineshape = false;
   m_uniqueString = makeUniqueString();
 }
 
-- 
2.43.0


From 528a567a93a75d0528ce10197ab26226d92e09cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:29 +0000
Subject: [PATCH 70/90] fix: uninitialised antiparticle flag of particles
 defined by the user

---
 AmpGen/ParticleProperties.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AmpGen/ParticleProperties.h b/AmpGen/ParticleProperties.h
index 9e1a9ad..7e4afbd 100644
--- a/AmpGen/ParticleProperties.h
+++ b/AmpGen/ParticleProperties.h
@@ -98,10 +98,10 @@ namespace AmpGen
       std::string m_name{""};            ///< particle name
       std::string m_texName{""};         ///< latex label of particle
       std::string m_chargeString{""};    ///< string for particle charge
-      char m_Aformat;                    ///< anti-particle format character
-      char m_status;                     ///< status (estalished or not etc)
+      char m_Aformat{' '};               ///< anti-particle format character
+      char m_status{' '};                ///< status (estalished or not etc)
       QuarkContent m_quarkContent;       ///< The quark content of the state (uD, uud etc.)
-      bool m_isValid;                    ///< Flag to check whether the ParticleProperties have configured correctly 
+      bool m_isValid{false};             ///< Flag to check whether the ParticleProperties have configured correctly 
       bool m_customName = {false};       ///< Flag to make custom name 
       void antiQuarks();
       void antiCharge();
-- 
2.43.0


From b1e310c1e8d328efdd992e516db39bff401c97c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:29 +0000
Subject: [PATCH 71/90] fix: reading past the end of incomplete particle
 properties

---
 src/ParticlePropertiesList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParticlePropertiesList.cpp b/src/ParticlePropertiesList.cpp
index 78d5c74..af2ec0d 100644
--- a/src/ParticlePropertiesList.cpp
+++ b/src/ParticlePropertiesList.cpp
@@ -207,7 +207,7 @@ void ParticlePropertiesList::addParticle( const std::vector<std::string>& tokens
     pp = new ParticleProperties();
     pp->setProperty("name", name );
   }
-  for( int i = 2; i != tokens.size(); i+=2 )
+  for( size_t i = 2; i + 1 < tokens.size(); i+=2 )
   {
     pp->setProperty( tokens[i], tokens[i+1] );
   } 
-- 
2.43.0


From 278d6d873040beb29ffe646cf3a0b3efebeab486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:50 +0000
Subject: [PATCH 72/90] fix: expansion of decays that contain the same
 resonance twice

---
 src/AmplitudeRules.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/AmplitudeRules.cpp b/src/AmplitudeRules.cpp
index 25549ea..d747350 100644
--- a/src/AmplitudeRules.cpp
+++ b/src/AmplitudeRules.cpp
@@ -204,6 +204,20 @@ const AmplitudeRules* AmplitudeRules::get()
   return gAmplitudeRules; 
 }
 
+/// replaces the first undecayed particle called name in a decay descriptor
+static std::string replaceLeaf( std::string descriptor, const std::string& name, const std::string& replacement )
+{
+  for( auto pos = descriptor.find(name); pos != std::string::npos; pos = descriptor.find(name, pos + 1) )
+  {
+    if( pos != 0 && descriptor[pos-1] != '{' && descriptor[pos-1] != ',' ) continue;
+    auto end = pos + name.size();
+    if( end < descriptor.size() && descriptor[end] == '[' ) end = descriptor.find(']', end) + 1;
+    if( end < descriptor.size() && descriptor[end] != '}' && descriptor[end] != ',' ) continue;
+    return descriptor.replace( pos, name.size(), replacement );
+  }
+  return descriptor;
+}
+
 std::vector<std::pair<Particle, TotalCoupling>> AmplitudeRules::expand( const Coupling& coupling ) const 
 {
   std::vector<std::pair<Particle, TotalCoupling>> rt;
@@ -226,7 +240,7 @@ std::vector<std::pair<Particle, TotalCoupling>> AmplitudeRules::expand( const Co
       auto expandedRules       = rulesForDecay( it->name() );
       for ( auto& subTree : expandedRules )
       {
-        auto expanded_amplitude = replaceAll( nameToExpand, it->name(), subTree.name() );
+        auto expanded_amplitude = replaceLeaf( nameToExpand, it->name(), subTree.name() );
         newTmpParticles.emplace_back( Particle( expanded_amplitude), TotalCoupling( coupling, subTree) );
       }
     }
-- 
2.43.0


From 559f5848c1f8732503d40dc97cb15b45ad6859a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:01 +0000
Subject: [PATCH 73/90] fix: FitResult::readFile read the limits of parameters
 from the wrong columns

The six numbers of a line are mean, error, errNeg, errPos, min and max.
---
 src/FitResult.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 97dd601..45f1ea3 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -83,7 +83,7 @@ bool FitResult::readFile( const std::string& fname )
       return nullptr;
     }
     auto args = to_vector_of_doubles( tokens.begin() + 3, tokens.end() ); 
-    auto p = new MinuitParameter( tokens[1], parse<Flag>(tokens[2]), args[0], args[1], args[5], args[6] );
+    auto p = new MinuitParameter( tokens[1], parse<Flag>(tokens[2]), args[0], args[1], args[4], args[5] );
     p->setResult(args[0], args[1], args[2], args[3]);
     return p;
   }; 
-- 
2.43.0


From 99fc51a284534b999983447fe86cf1145d5ee650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:01 +0000
Subject: [PATCH 74/90] fix: copies of a FitResult keep the mapping of
 parameters in the covariance matrix

---
 src/FitResult.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 45f1ea3..4ae290d 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -34,6 +34,7 @@ FitResult::FitResult( const FitResult& other )
   , m_observables( other.observables() )
   , m_fitFractions( other.fitFractions() )
   , m_covarianceMatrix(other.cov())
+  , m_covMapping( other.m_covMapping )
 {
 }
 
-- 
2.43.0


From 0ebb8c454466eea90f1e6972093c77c0c17c9f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:01 +0000
Subject: [PATCH 75/90] fix: FitResult::writeOptions lost limits at zero, and
 complex parameters with one limited part

Limits were written only if neither is zero, and limits on only one of the
real and imaginary part gave a line that is not read back.
---
 src/FitResult.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 4ae290d..7864fee 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -320,16 +320,17 @@ void FitResult::writeOptions( const std::string& output, const std::string& inpu
 void FitResult::writeOptions( std::ostream& output_stream, const std::string& input)
 {
   std::set<std::string> keys;
-  auto print_param = [&](auto& param) mutable {
+  auto has_limits  = [](const auto& param){ return param->minInit() != 0. || param->maxInit() != 0.; };
+  auto print_param = [&](auto& param, const bool& with_limits) mutable {
     std::string rt= mysprintf( " %-7s %-12lf %-12lf", to_string<Flag>(param->flag()).c_str(), param->mean(), param->err() );
-    if( param->minInit() != 0. && param->maxInit() != 0. ) rt += mysprintf(" %-12lf %-12lf", param->minInit(), param->maxInit()); 
+    if( with_limits ) rt += mysprintf(" %-12lf %-12lf", param->minInit(), param->maxInit()); 
     return rt; 
   };
   auto try_add_real    = [&](const auto& key) mutable
   {
     auto param = this->m_mps->find(key);
     if( param == nullptr ) return false; 
-    output_stream << mysprintf("%-50s", param->name().c_str() ) << print_param(param) << "\n"; 
+    output_stream << mysprintf("%-50s", param->name().c_str() ) << print_param(param, has_limits(param)) << "\n"; 
     keys.insert(key); 
     return true;  
   };
@@ -338,7 +339,8 @@ void FitResult::writeOptions( std::ostream& output_stream, const std::string& in
      auto param_re = this->m_mps->find(key+"_Re");
      auto param_im = this->m_mps->find(key+"_Im");
      if( param_re == nullptr || param_im == nullptr ) return false; 
-     output_stream << mysprintf("%-50s", key.c_str()) << print_param(param_re) << print_param(param_im) << "\n"; 
+     bool with_limits = has_limits(param_re) || has_limits(param_im);
+     output_stream << mysprintf("%-50s", key.c_str()) << print_param(param_re, with_limits) << print_param(param_im, with_limits) << "\n"; 
      keys.insert(key+"_Re"); 
      keys.insert(key+"_Im"); 
      return true; 
-- 
2.43.0


From 81e87823d6facab640b5959958241dd69eaf6055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:01 +0000
Subject: [PATCH 76/90] fix: LinearErrorPropagator::reset kept the size of the
 covariance matrix

Parameters that are no longer there were varied afterwards.
---
 src/ErrorPropagator.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ErrorPropagator.cpp b/src/ErrorPropagator.cpp
index 112c4d9..170dd8b 100644
--- a/src/ErrorPropagator.cpp
+++ b/src/ErrorPropagator.cpp
@@ -150,11 +150,7 @@ std::vector<double> LinearErrorPropagator::getVectorError( const std::function<s
 
 void LinearErrorPropagator::reset()
 {
-  for ( int x = 0; x < m_cov.GetNrows(); ++x ) {
-    for ( int y = 0; y < m_cov.GetNrows(); ++y ) {
-      m_cov( x, y ) = 0;
-    }
-  }
+  m_cov.ResizeTo( 0, 0 );
   m_parameters.clear();
 }
 
-- 
2.43.0


From 716eeb9324067190b16067864d9c7dcc5590cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:31 +0000
Subject: [PATCH 77/90] fix: FitResult::writeOptions lost imaginary parts
 listed before the real part

The name of the complex parameter was formed by removing _Re from the name of the imaginary part.
---
 src/FitResult.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 7864fee..2ea0c3b 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -370,7 +370,7 @@ void FitResult::writeOptions( std::ostream& output_stream, const std::string& in
       if( name.find("_Re") != std::string::npos && m_mps->find( replaceAll( name, "_Re", "_Im") ) ) 
         try_add_complex(replaceAll(name,"_Re","")); 
       else if( name.find("_Im") != std::string::npos && m_mps->find( replaceAll( name, "_Im", "_Re") ) ) 
-        try_add_complex(replaceAll(name,"_Re",""));
+        try_add_complex(replaceAll(name,"_Im",""));
       else try_add_real(name); 
     }
   }
-- 
2.43.0


From a5da1999d7e499f43581ecf1d79dd4c36833b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:39 +0000
Subject: [PATCH 78/90] fix: DalitzIntegrator used the nominal mass of the
 mother for integrals at another mass

---
 src/DalitzIntegrator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/DalitzIntegrator.cpp b/src/DalitzIntegrator.cpp
index 3ea3e61..32a076b 100644
--- a/src/DalitzIntegrator.cpp
+++ b/src/DalitzIntegrator.cpp
@@ -110,8 +110,8 @@ real_v DalitzIntegrator::J( const sqCo& coords, const double& s ) const
   auto mAB         = getMAB( coords, s);
   auto max         = std::sqrt(s)    - std::sqrt(m_s3);
   auto min         = std::sqrt(m_s1) + std::sqrt(m_s2);
-  auto pA          = SQRT( mAB*mAB/4. - (m_s1+m_s2)/2. + (m_s1-m_s2)*(m_s1-m_s2)/(4*mAB*mAB) );
-  auto eC          = ( m_s0 - m_s3 - mAB * mAB ) / (2*mAB);
+  auto pA          = safe_sqrt( mAB*mAB/4. - (m_s1+m_s2)/2. + (m_s1-m_s2)*(m_s1-m_s2)/(4*mAB*mAB) );
+  auto eC          = ( s - m_s3 - mAB * mAB ) / (2*mAB);
   auto pC          = safe_sqrt( eC * eC - m_s3 );
   auto mPrime_     = coords.first;
   auto thetaPrime_ = coords.second;
@@ -131,11 +131,11 @@ real_v DalitzIntegrator::getMAB( const sqCo& coords, const double& s ) const
 void DalitzIntegrator::setEvent(const sqCo& x, real_v* event, const double& s) const
 {
   auto mAB = getMAB( x, s );
-  auto pA  = SQRT( mAB*mAB/4. - (m_s1+m_s2)/2. + (m_s1-m_s2)*(m_s1-m_s2)/(4*mAB*mAB) );
+  auto pA  = safe_sqrt( mAB*mAB/4. - (m_s1+m_s2)/2. + (m_s1-m_s2)*(m_s1-m_s2)/(4*mAB*mAB) );
   auto eA  = SQRT( pA * pA + m_s1 );
   auto eB  = SQRT( pA * pA + m_s2 );
-  auto eC  = ( m_s0 - m_s3 - mAB * mAB ) / ( 2 * mAB );
-  auto pC  = SQRT( eC * eC - m_s3 );
+  auto eC  = ( s - m_s3 - mAB * mAB ) / ( 2 * mAB );
+  auto pC  = safe_sqrt( eC * eC - m_s3 );
   event[2]   = pA;
   event[3]   = eA;
   event[6]   = -pA;
-- 
2.43.0


From 016278cb8765a3ab33404611643aa88c3e8113ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:39 +0000
Subject: [PATCH 79/90] fix: BinDT constructed from an event list and an
 argument pack had no top node

---
 src/BinDT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BinDT.cpp b/src/BinDT.cpp
index 9d60ebb..80c9d34 100644
--- a/src/BinDT.cpp
+++ b/src/BinDT.cpp
@@ -99,7 +99,7 @@ BinDT::BinDT( const ArgumentPack& args )
 
 BinDT::BinDT( const EventList& events, const ArgumentPack& args ) : BinDT(args) 
 {
-  makeNodes( events.begin(), events.end() );
+  m_top = makeNodes( events.begin(), events.end() );
 }
 
 void BinDT::readFromStream( std::istream& stream )
-- 
2.43.0


From 5eeca9646921d6675ff5337cb66c8e148d911f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:39 +0000
Subject: [PATCH 80/90] fix: BinDT divided bins of two samples at zero if no
 division leaves enough events

---
 src/BinDT.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/BinDT.cpp b/src/BinDT.cpp
index 80c9d34..4c317a3 100644
--- a/src/BinDT.cpp
+++ b/src/BinDT.cpp
@@ -12,6 +12,7 @@
 #include "AmpGen/Utilities.h"
 #include "AmpGen/Event.h"
 #include <numeric>
+#include <limits>
 
 using namespace AmpGen;
 
@@ -204,7 +205,7 @@ double bestCut_lineSearch(const std::vector<double*>& source,
   auto w                       = [dim](const double* evt){ return *(evt+dim); };
   auto f                       = [index](const double* evt){ return *(evt+index); };
   double maxChi2               = -9999;
-  double optPos                = 0;
+  double optPos                = std::numeric_limits<double>::quiet_NaN();
   double s_w1      = 0;
   double s_wt      = parallel_accumulate(source.begin(), source.end()              , 0.0, w); //  sum_weights);
   double t_w1      = parallel_accumulate(target.begin(), target.begin() + minEvents, 0.0, w); //  sum_weights);
@@ -284,6 +285,12 @@ std::shared_ptr<BinDT::INode> BinDT::makeNodes( std::vector<double*> source, std
   parallel_sort(source.begin(), source.end(), sorter, std::max(256ul, source.size() / 4) );
   parallel_sort(target.begin(), target.end(), sorter, std::max(256ul, target.size() / 4) );
   double optPos = bestCut_lineSearch(source, target, index, m_dim, m_minEvents);
+  if ( std::isnan( optPos ) ) {
+    DEBUG( "No cut leaves enough events on both sides" );
+    auto node = std::make_shared<EndNode>( m_endNodes.size() );
+    m_endNodes.push_back( node );
+    return node;
+  }
   auto sc = std::lower_bound( source.begin(), source.end(), optPos, [index](const auto& a, const auto& b){return b > *(a+index); } );
   auto tc = std::lower_bound( target.begin(), target.end(), optPos, [index](const auto& a, const auto& b){return b > *(a+index); } );
   std::vector<double*> sourceLeft(source.begin(), sc); 
-- 
2.43.0


From 0b3bccdb07b873671d78b8807481d9005fe9069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:39 +0000
Subject: [PATCH 81/90] fix: FastDT with the strategy best dereferenced the end
 of its queue

---
 src/FastDT.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/FastDT.cpp b/src/FastDT.cpp
index 39986d0..4bf0fdd 100644
--- a/src/FastDT.cpp
+++ b/src/FastDT.cpp
@@ -180,7 +180,7 @@ int FastDT::makeNodes( std::vector<double*> source, std::vector<double*> target,
     return --m_endNodeCounter;
   }
   unsigned bestIndex = 0; 
-  double bestChi2 = 0; 
+  double bestChi2 = -9999; 
   double optPos = 0;
   if( std::all_of( indexQueue.begin(), indexQueue.end(), [](auto& arg){ return arg ==-1 ; } ) ) indexQueue = makeQueue();
   std::vector<double> chi2_v( m_dim ); 
@@ -203,8 +203,9 @@ int FastDT::makeNodes( std::vector<double*> source, std::vector<double*> target,
       } 
       chi2_v[i] = chi2; 
     }
-    bestIndex = *it; 
-    *it = -1;
+    if( bestChi2 == -9999 ) return --m_endNodeCounter; 
+    bestIndex = *bestIt; 
+    *bestIt = -1;
     auto sorter = [bestIndex]( auto& a, auto& b ) { return *( a + bestIndex ) < *( b + bestIndex ); };
     parallel_sort(source.begin(), source.end(), sorter, std::max(256ul, source.size() / 4) );
     parallel_sort(target.begin(), target.end(), sorter, std::max(256ul, target.size() / 4) );
-- 
2.43.0


From bcff9bd5a20bade67dad53ee65efb9f5e71995a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:02 +0000
Subject: [PATCH 82/90] fix: FastDT::serialise rounded the positions of the
 divisions to six digits

---
 src/FastDT.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FastDT.cpp b/src/FastDT.cpp
index 4bf0fdd..0dde67c 100644
--- a/src/FastDT.cpp
+++ b/src/FastDT.cpp
@@ -25,6 +25,7 @@ void FastDT::readFromStream( std::ifstream& stream, const int& n_nodes )
 
 void FastDT::serialise( std::ofstream& stream )
 {
+  stream << std::setprecision(17);
   for( auto& node : m_nodes ) stream << node.index << " " << node.left << " " << node.right << " " << node.cutValue << std::endl; 
 }
 
-- 
2.43.0


From 5896e3dbf589e5705bac84c1ec09fe46362571e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:02 +0000
Subject: [PATCH 83/90] fix: FastDT::findNode read outside of its nodes if the
 sample is not divided

---
 src/FastDT.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FastDT.cpp b/src/FastDT.cpp
index 0dde67c..c7f5bc4 100644
--- a/src/FastDT.cpp
+++ b/src/FastDT.cpp
@@ -40,6 +40,7 @@ FastDT::FastDT( const ArgumentPack& args )
 
 int FastDT::findNode( const double* event ) const
 {
+  if( m_nodes.empty() ) return 0; /// undivided
   int address = m_nodes.size()-1;
   while( m_nodes[address].index != 0 )
   {
-- 
2.43.0


From be528185c1cdc906c1e5c8ab60b3e71a7cfc6f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:02 +0000
Subject: [PATCH 84/90] fix: ThreeBodyCalculator::widthGraph ignored the
 minimum of the range requested

---
 src/ThreeBodyCalculators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThreeBodyCalculators.cpp b/src/ThreeBodyCalculators.cpp
index 15c59fa..5c58b1b 100644
--- a/src/ThreeBodyCalculators.cpp
+++ b/src/ThreeBodyCalculators.cpp
@@ -91,7 +91,7 @@ TGraph* ThreeBodyCalculator::widthGraph( const size_t& steps, const double& min,
   TGraph* g = new TGraph();
   double st = (max-min)/double(steps-1);
   for ( size_t c = 0; c < steps; ++c ) {
-    double s = m_min + double( c ) * st;
+    double s = min + double( c ) * st;
     g->SetPoint( g->GetN(), s, getWidth(s) );
   }
   return g;
-- 
2.43.0


From b732c102f139d6d10046176d2a2e6f6e2c0e4edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:02 +0000
Subject: [PATCH 85/90] fix: ThreeBodyCalculator counted final states once per
 order in which decays list them

---
 src/ThreeBodyCalculators.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ThreeBodyCalculators.cpp b/src/ThreeBodyCalculators.cpp
index 5c58b1b..56dc54f 100644
--- a/src/ThreeBodyCalculators.cpp
+++ b/src/ThreeBodyCalculators.cpp
@@ -186,7 +186,9 @@ ThreeBodyCalculator::ThreeBodyCalculator( const std::string& head, MinuitParamet
     for( const auto& [particle, coupling] : all_decay_paths )
     {
       auto type = particle.eventType();
-      if ( std::find( finalStates.begin(), finalStates.end(), type ) == finalStates.end() ) finalStates.push_back(type);
+      auto names = type.finalStates();
+      auto sameFinalState = [&names](const EventType& other){ auto fs = other.finalStates(); return fs.size() == names.size() && std::is_permutation(fs.begin(), fs.end(), names.begin()); };
+      if ( std::none_of( finalStates.begin(), finalStates.end(), sameFinalState ) ) finalStates.push_back(type);
     }
   }
   if ( finalStates.size() == 0 ) FATAL("Particle: " << head << " has no integrable decay path");
-- 
2.43.0


From 8f63f6be0a53774bb3a7b4a3c243b7bcc97a03f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:02 +0000
Subject: [PATCH 86/90] fix: BinDT and FastDT read outside of samples of fewer
 than two events

---
 src/BinDT.cpp  | 1 +
 src/FastDT.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/BinDT.cpp b/src/BinDT.cpp
index 4c317a3..fd1795d 100644
--- a/src/BinDT.cpp
+++ b/src/BinDT.cpp
@@ -18,6 +18,7 @@ using namespace AmpGen;
 
 double nearestNeighbourVariance( std::vector<double*> evts, const size_t& index)
 {
+  if( evts.size() < 2 ) return 0;
   auto dist  = [&index](const double* x, const double* y){ return fabs( *(x+index) -*(y+index)) ;};
   auto dist2 = [&index](const double* x, const double* y){ return ( *(x+index) -*(y+index))*( *(x+index) - *(y+index) ) ;};
   parallel_sort(evts.begin() 
diff --git a/src/FastDT.cpp b/src/FastDT.cpp
index c7f5bc4..3385907 100644
--- a/src/FastDT.cpp
+++ b/src/FastDT.cpp
@@ -59,6 +59,7 @@ int FastDT::findNode( const double* event ) const
 
 double nnVariance(std::vector<double*>& evts, const unsigned& index)
 {
+  if( evts.size() < 2 ) return 0;
   auto dist  = [&index](const double* x, const double* y){ return fabs( *(x+index) -*(y+index)) ;};
   auto dist2 = [&index](const double* x, const double* y){ return ( *(x+index) -*(y+index))*( *(x+index) - *(y+index) ) ;};
   std::sort( evts.begin(), evts.end(), [index]( const double* evt1, const double* evt2 ) { return *( evt1 + index ) > *( evt2 + index ); } );
-- 
2.43.0


From 2a218ebdcae679ef915cae25eb2495cce14307d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:59 +0000
Subject: [PATCH 87/90] fix: helicity angles of momenta that vanish or lie
 along the z-axis

---
 src/Wigner.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Wigner.cpp b/src/Wigner.cpp
index d041d62..280b1d4 100644
--- a/src/Wigner.cpp
+++ b/src/Wigner.cpp
@@ -131,10 +131,12 @@ TransformSequence AmpGen::wickTransform( const Tensor& P,
 
 std::pair<Expression, Expression> angCoordinates(const Tensor& P, DebugSymbols* db)
 {
-  Expression pz = make_cse( P[2] / sqrt( P[0]*P[0] + P[1] * P[1] + P[2]*P[2] ) );  
+  // same conventions as in wickTransform for momenta that vanish or are along the z-axis 
+  Expression p2  = make_cse( P[0]*P[0] + P[1]*P[1] + P[2]*P[2] );
   Expression pt2 = make_cse( P[0]*P[0] + P[1]*P[1] );
-  Expression px = P[0] / sqrt(pt2);
-  Expression py = P[1] / sqrt(pt2);
+  Expression pz = make_cse( Ternary( p2 > 1e-15, P[2] / sqrt(p2), 1 ) );  
+  Expression px = Ternary( pt2 > 1e-15, P[0] / sqrt(pt2), 1 );
+  Expression py = Ternary( pt2 > 1e-15, P[1] / sqrt(pt2), 0 );
   return {pz, make_cse(px + 1i*py)};
 } 
 
-- 
2.43.0


From d1c9a6805c63cf34db9230aef7baa9ba2f6443ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:41 +0000
Subject: [PATCH 88/90] fix: clearing a Store or EventListSIMD left the number
 of entries

---
 AmpGen/Store.h        | 2 +-
 src/EventListSIMD.cpp | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/AmpGen/Store.h b/AmpGen/Store.h
index 9101f42..d3c6cdc 100644
--- a/AmpGen/Store.h
+++ b/AmpGen/Store.h
@@ -89,7 +89,7 @@ namespace AmpGen {
         m_store.resize(m_nBlocks * m_nFields); 
         m_index.clear();
       }
-      void clear() { m_store.clear(); m_index.clear() ; }
+      void clear() { m_nEntries = 0; m_nBlocks = 0; m_store.clear(); m_index.clear() ; }
       void store( const size_t& event0, const unsigned* index, const stored_type* item, const unsigned N = 1 )
       {
         for( unsigned i = 0 ; i != N; ++i ) (*this)(event0, index[i] ) = item[i]; 
diff --git a/src/EventListSIMD.cpp b/src/EventListSIMD.cpp
index 49ecc56..c7ab348 100644
--- a/src/EventListSIMD.cpp
+++ b/src/EventListSIMD.cpp
@@ -211,6 +211,8 @@ TH2D* EventListSIMD::makeProjection( const Projection2D& projection, const Argum
 void EventListSIMD::clear() 
 { 
   m_data.clear(); 
+  m_weights.clear();
+  m_genPDF.clear();
 }
 
 const Event EventListSIMD::operator[]( const size_t& pos ) const 
-- 
2.43.0


From 880f8cd648ed65037e7a6019b74ee9112ac65bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:22 +0000
Subject: [PATCH 89/90] fix: const increment of DynamicContainer iterators did
 not refresh the buffer

---
 AmpGen/DynamicContainer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/DynamicContainer.h b/AmpGen/DynamicContainer.h
index f43eec9..e63764d 100644
--- a/AmpGen/DynamicContainer.h
+++ b/AmpGen/DynamicContainer.h
@@ -30,7 +30,7 @@ namespace AmpGen
       TYPE operator*() const { return ( *m_container )[m_pos]; }
       Iterator operator++() const
       {
-        if ( m_pos + 1 % m_container->m_buffer.size() == 0 && m_pos + 1 != m_container->m_totalSize ) {
+        if ( ( m_pos + 1 ) % m_container->m_buffer.size() == 0 && m_pos + 1 != m_container->m_totalSize ) {
           m_container->refresh();
         }
         return Iterator( m_pos + 1, m_container );
-- 
2.43.0


From 26f3afd772c9f96369fb4f16cc57039fdc8fcd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:37 +0000
Subject: [PATCH 90/90] fix: CoherentSum::norm(i,j) returned zero below the
 diagonal

Only the integrals with i <= j are calculated; PartialWidthConstraint sums over
all pairs and therefore took half of each interference term.
---
 src/CoherentSum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CoherentSum.cpp b/src/CoherentSum.cpp
index f8eb6e8..2a90b15 100644
--- a/src/CoherentSum.cpp
+++ b/src/CoherentSum.cpp
@@ -262,7 +262,7 @@ real_t CoherentSum::norm(const Bilinears& norms) const
 
 complex_t CoherentSum::norm(const size_t& x, const size_t& y) const
 {
-  return m_normalisations.get(x, y);
+  return x > y ? std::conj(m_normalisations.get(y, x)) : m_normalisations.get(x, y);
 }
 
 void CoherentSum::transferParameters()
-- 
2.43.0

