// P15: options read from files and the command line, and the typed parameters obtained from them.
#include "pbt.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/Particle.h"
#include "AmpGen/Units.h"
#include "AmpGen/Utilities.h"
#include "AmpGen/ExpressionParser.h"
using namespace AmpGen;
typedef std::vector<std::string> Toks;
namespace {
  std::string fresh(){ static int n=0; return "k" + std::to_string(n++) + "_" + std::to_string(getpid()); }
  std::string word(pbt::Gen& g){ switch( g.range(0,6) ){ case 0: return std::to_string(g.range(-50,50)); case 1: return pbt::str(g.real(-1e3,1e3)); case 2: return g.pick<std::string>({"D0{K-,pi+}","D0[D]{rho(770)0[GounarisSakurai]{pi+,pi-},pi0}","B+{D0{K*(892)bar0{K-,pi+},pi0},pi+}"}); case 3: return g.pick<std::string>({"true","false","=","+","*x","K*(892)0","a::b::c","x=y","(",")","/path/to/file.root","-"}); default: { std::string s; const char* al="abcXYZ019_-+.:*()'/=,"; int n=g.range(1,8); for(int i=0;i<n;++i) s+=al[g.draw(strlen(al))]; return s; } } }
  struct Tok { std::string v; bool quoted; };
  Tok token(pbt::Gen& g){ if( g.chance(1,6) ){ std::string s; const char* al="ab 9#{},= \t"; int n=g.range(1,8); for(int i=0;i<n;++i) s+=al[g.draw(strlen(al))]; s+="z"; s=g.coin()?s:"q"+s; return {s,true}; } return {word(g),false}; }
  struct Entry { std::string key; std::vector<Tok> t; Toks tokens() const { Toks r{key}; for(auto& x : t) r.push_back(x.v); return r; } };
  std::string blank(pbt::Gen& g){ return g.pick<std::string>({" "," ","  ","\t"," \t "}); }
  std::string show(const Tok& t){ return t.quoted ? "\"" + t.v + "\"" : t.v; }
  std::string comment(pbt::Gen& g){ return g.pick<std::string>({"# a comment","#","# with { brace","# with \"quote","##x y}"}); }
  void junk(pbt::Gen& g, std::string& out, const std::string& eol){ if( g.chance(1,4) ) out+=g.pick<std::string>({"","# comment","* starred { line","#{"}) + eol; }
  // writes an entry with a random layout
  void write(pbt::Gen& g, const Entry& e, std::string& out, const std::string& eol){ junk(g,out,eol); std::string l = g.chance(1,4) ? blank(g) : ""; l+=e.key; bool block=g.chance(1,4);
    if( block ){ l+=blank(g)+"{"; bool newline=g.chance(2,3); if( newline ){ if( g.chance(1,4) ) l+=" "+comment(g); out+=l+eol; l=""; junk(g,out,eol); } for(size_t i=0;i<e.t.size();++i){ l+=blank(g)+show(e.t[i]); if( g.chance(1,3) ){ if( g.chance(1,4) ) l+=blank(g)+comment(g); out+=l+eol; l=""; junk(g,out,eol); } } l+=blank(g)+"}"; g.label("block"); }
    else for(auto& t : e.t) l+=blank(g)+show(t);
    if( g.chance(1,4) ) l+=blank(g); if( g.chance(1,5) ){ l+=(g.chance(1,3)?"":blank(g))+comment(g); g.label("comment"); } out+=l+eol; }
  std::string file(const std::string& txt){ std::string n=pbt::scratch()+"/"+fresh()+".opt"; std::ofstream(n) << txt; return n; }
  struct Model { std::map<std::string,Toks> v; Toks order; void set(const Toks& t){ if( !v.count(t[0]) ) order.push_back(t[0]); v[t[0]]=t; } };
  std::string str(const Toks& t){ std::string r="["; for(auto& x : t) r+="<"+x+">"; return r+"]"; }
  void compare(pbt::Gen& g, const Model& m, size_t skip){ auto p=OptionsParser::getMe(); for(auto& x : m.v){ auto it=p->find(x.first); g.requirel(it!=p->end(),[&]{ return "option " + x.first + " was not read"; }); g.requirel(it->second==x.second,[&]{ return "option " + x.first + " is " + str(it->second) + ", expected " + str(x.second); }); g.evals(1); }
    auto in=p->getInputOrdered(); Toks keys; std::set<std::string> seen; for(size_t i=skip;i<in.size();++i) if( seen.insert(in[i][0]).second ) keys.push_back(in[i][0]); g.requirel(keys==m.order,[&]{ return "order of the options is " + str(keys) + ", expected " + str(m.order); }); }
  void quiet(){ OptionsParser::getMe()->setQuiet(); }
  std::vector<Entry> entries(pbt::Gen& g, std::vector<std::string>& keys){ std::vector<Entry> es; int n=g.chance(1,10)?g.range(7,40):g.range(1,6); for(int i=0;i<n;++i){ Entry e; if( keys.size() && g.chance(1,4) ) e.key=g.pick(keys); else { e.key=fresh(); if( g.chance(1,3) ) e.key+=g.pick<std::string>({"::x","D0{K-,pi+}","(a)"}); keys.push_back(e.key); } int m=g.range(1,5); for(int j=0;j<m;++j) e.t.push_back(token(g)); es.push_back(e); } return es; }
  void files(pbt::Gen& g){ quiet(); size_t skip=OptionsParser::getMe()->getInputOrdered().size(); Model m; std::vector<std::string> keys; std::string eol=g.chance(1,5)?"\r\n":"\n", out; auto es=entries(g,keys); size_t at=g.draw(es.size()+1); bool nested=g.chance(1,3); std::string inner; std::vector<Entry> in; if( nested ) in=entries(g,keys); for(size_t i=0;i<=es.size();++i){ if( nested && i==at ){ std::string t; for(auto& e : in) write(g,e,t,eol); inner=file(t); if( g.coin() ){ setenv("VERIFDIR",pbt::scratch().c_str(),1); out+="Import $VERIFDIR"+inner.substr(pbt::scratch().size())+eol; } else out+="Import "+inner+eol; for(auto& e : in) m.set(e.tokens()); g.label("import"); } if( i<es.size() ){ write(g,es[i],out,eol); m.set(es[i].tokens()); } } if( g.chance(1,4) && out.size() ) out.resize(out.size()-eol.size()); g.desc(out); if( es.size()>1 ) g.nontrivial(); auto f=file(out); OptionsParser::getMe()->import(f); compare(g,m,skip); unlink(f.c_str()); if( inner.size() ) unlink(inner.c_str()); }
  void commandline(pbt::Gen& g){ quiet(); size_t skip=OptionsParser::getMe()->getInputOrdered().size(); Model m; std::vector<std::string> keys, args={"prog"}; int n=g.chance(1,10)?g.range(7,25):g.range(1,6); std::vector<std::string> rm; for(int i=0;i<n;++i) switch( g.range(0,4) ){
      case 0: { auto es=entries(g,keys); std::string t; for(auto& e : es){ write(g,e,t,"\n"); m.set(e.tokens()); } auto f=file(t); rm.push_back(f); args.push_back(f); g.label("file"); break; }
      case 1: { std::string k=fresh(); keys.push_back(k); args.push_back("--"+k); bool last=i==n-1; if( !last ){ std::string k2=fresh(); m.set({k,"1"}); args.push_back("--"+k2+"=7"); m.set({k2,"7"}); } else m.set({k,"1"}); g.label("flag"); break; }
      case 2: { std::string k=keys.size()&&g.coin()?g.pick(keys):fresh(); keys.push_back(k); std::string v=g.pick<std::string>({"abc","-1.5","3","D0{K-,pi+}","x=y","a/b.root"}); args.push_back("--"+k); args.push_back(v); m.set({k,v}); break; }
      case 3: { std::string k=keys.size()&&g.coin()?g.pick(keys):fresh(); keys.push_back(k); int l=g.range(1,3); std::string v; Toks t{k}; for(int j=0;j<l;++j){ std::string w=g.pick<std::string>({"1","2.5","foo","K*(892)0{K+,pi-}","a=b"}); t.push_back(w); v+=(j?" ":"")+w; } args.push_back("--"+k+"="+v); m.set(t); break; }
      default: { Entry e; e.key=fresh(); keys.push_back(e.key); std::string l=e.key; int k=g.range(1,4); for(int j=0;j<k;++j){ e.t.push_back(token(g)); l+=blank(g)+show(e.t.back()); } if( i==0 ){ OptionsParser::setArg(l); m.set(e.tokens()); } } }
    std::vector<char*> av; for(auto& a : args) av.push_back(&a[0]); for(auto& a : args) g.desc(a + " | "); g.nontrivial(); OptionsParser::setArgs(av.size(),av.data()); compare(g,m,skip); for(auto& f : rm) unlink(f.c_str()); }
  template <class T> std::string show(const T& x){ std::ostringstream s; s.precision(17); s << std::boolalpha << x; return s.str(); }
  template <class T> void typed(pbt::Gen& g, const char* name, std::function<T()> value, std::function<std::string(const T&)> text){ std::string k=fresh(); int n=g.chance(1,10)?g.range(5,40):g.range(0,4); std::vector<T> v; std::string line=k; for(int i=0;i<n;++i){ v.push_back(value()); line+=" "+text(v.back()); } bool given=n>0; if( given || g.coin() ) OptionsParser::setArg(line); g.label(name); g.desc(std::string(name) + ": " + line); if( n>1 ) g.nontrivial(); T def=value(); std::vector<T> dv; int nd=g.range(0,3); for(int i=0;i<nd;++i) dv.push_back(value());
    NamedParameter<T> a(k,def), b(k,dv); std::vector<T> wantA = given ? v : std::vector<T>{def}, wantB = given ? v : dv; auto same=[&](const NamedParameter<T>& p, const std::vector<T>& w, const char* what){ auto got=p.getVector(); g.requirel(got==w && p.size()==w.size(),[&]{ std::string s=std::string("values of ")+what+" are"; for(size_t i=0;i<got.size();++i){ T x=got[i]; s+=" "+show(x); } return s; }); for(size_t i=0;i<w.size();++i){ T x=w[i]; g.require(p.getVal(i)==x,"getVal(i) is the i-th value"); } if( w.size() ){ T x=w[0]; g.require(T(p)==x && p==x && !(p!=x),"conversion gives the first value"); } bool threw=false; try{ p.getVal(w.size()); } catch(std::exception&){ threw=true; } g.require(threw,"reading past the last value is an error"); g.require(p.name()==k,"name"); };
    same(a,wantA,"the parameter"); same(b,wantB,"the parameter with a vector of defaults"); NamedParameter<T> c=a; T nv=value(); c=nv; wantA[0]=nv; same(c,wantA,"the assigned parameter"); c.setVal(nv,wantA.size()); wantA.push_back(nv); same(c,wantA,"the extended parameter"); if( g.coin() ){ size_t far=wantA.size()+g.range(1,3); T fv=value(); c.setVal(fv,int(far)); wantA.resize(far); wantA.push_back(fv); same(c,wantA,"the parameter extended further"); } c=v; same(c,v,"the parameter assigned a vector"); g.evals(5); }
  void named(pbt::Gen& g){ quiet(); switch( g.range(0,7) ){ case 0: typed<double>(g,"double",[&]{ return g.coin()?g.real(-1e6,1e6):g.logreal(1e-300,1e300); },[&](const double& x){ return pbt::str(x); }); break; case 1: typed<int>(g,"int",[&]{ return g.range(-2000000000,2000000000); },[](const int& x){ return std::to_string(x); }); break; case 2: typed<unsigned>(g,"unsigned",[&]{ return unsigned(g.raw(~0ull)); },[](const unsigned& x){ return std::to_string(x); }); break; case 3: typed<size_t>(g,"size_t",[&]{ return size_t(g.raw(~0ull)); },[](const size_t& x){ return std::to_string(x); }); break; case 4: typed<bool>(g,"bool",[&]{ return g.coin(); },[&](const bool& x){ return x ? g.pick<std::string>({"true","1"}) : g.pick<std::string>({"false","0"}); }); break; case 5: typed<std::string>(g,"string",[&]{ return word(g)+"w"; },[](const std::string& x){ return x; }); break; case 6: typed<Flag>(g,"Flag",[&]{ return Flag(g.draw(5)); },[](const Flag& x){ return to_string<Flag>(x); }); break; default: typed<spinFormalism>(g,"spinFormalism",[&]{ return spinFormalism(g.draw(2)); },[](const spinFormalism& x){ return to_string<spinFormalism>(x); }); } }
  void numbered(pbt::Gen& g){ quiet(); std::string k=fresh(); int n=g.chance(1,10)?g.range(6,30):g.range(0,5); Toks v; for(int i=0;i<n;++i){ v.push_back("v"+std::to_string(g.range(0,9))); OptionsParser::setArg(k+std::to_string(i)+" "+v.back()); } int gap=n+1; if( g.coin() ) OptionsParser::setArg(k+std::to_string(gap)+" late"); g.desc(k + " x " + std::to_string(n)); if( n>1 ) g.nontrivial(); auto r=NamedParameter<std::string>::getVectorArgument(k,""); g.requirel(r==v,[&]{ return "numbered arguments are " + str(r) + ", expected " + str(v); }); }
  template <class E> void enumCheck(pbt::Gen& g, const char* type, const Toks& names){ size_t i=g.draw(names.size()); g.desc(std::string(type) + "::" + names[i]); g.require(parse<E>(names[i])==E(i),"the name of an enumerator reads back as that enumerator"); g.require(parse<E>(std::to_string(i))==E(i),"the number of an enumerator reads back as that enumerator"); g.requirel(to_string<E>(E(i))==names[i],[&]{ return "enumerator " + names[i] + " is written as " + to_string<E>(E(i)); }); std::string bad=names[i]; switch( g.range(0,3) ){ case 0: bad+=g.pick<std::string>({"x","1"," "}); break; case 1: bad=bad.substr(0,bad.size()-1); break; case 2: bad="x"+bad; break; default: bad=names[i]+names[g.draw(names.size())]; } bool valid=false; for(auto& n : names) if( n==bad ) valid=true; if( !valid && bad.size() ) g.requirel(parse<E>(bad)==E::Invalid,[&]{ return "'" + bad + "' is not an enumerator but is accepted as one"; }); std::ostringstream s; s << E(i); g.require(s.str()==names[i],"printed enumerator"); g.nontrivial(); }
  void enums(pbt::Gen& g){ switch( g.range(0,5) ){ case 0: enumCheck<Flag>(g,"Flag",{"Free","Hide","Fix","CompileTimeConstant","Blind"}); break; case 1: enumCheck<spinFormalism>(g,"spinFormalism",{"Covariant","Canonical"}); break; case 2: enumCheck<spinBasis>(g,"spinBasis",{"Dirac","Weyl"}); break; case 3: enumCheck<Units>(g,"Units",{"TeV","GeV","MeV","KeV","eV","ms","us","ns","ps","fs"}); break; case 4: enumCheck<coordinateType>(g,"coordinateType",{"cartesian","polar"}); break; default: enumCheck<angType>(g,"angType",{"deg","rad"}); } }
  void casts(pbt::Gen& g){ bool ok=true; g.nontrivial(); auto junk=[&](const std::string& w){ return w+g.pick<std::string>({"x"," ","..","e","-","{"}); }; switch( g.range(0,6) ){
      case 0: { double x=g.coin()?g.real(-1e5,1e5):g.logreal(1e-300,1e300); std::string w=pbt::str(x); g.desc(w); g.require(lexical_cast<double>(w,ok)==x && ok,"a double reads back exactly"); lexical_cast<double>(junk(w),ok); g.require(!ok,"trailing characters are an error"); break; }
      case 1: { int x=g.range(-2147483647,2147483647); g.desc(std::to_string(x)); g.require(lexical_cast<int>(std::to_string(x),ok)==x && ok,"an int reads back"); { std::string z=(x<0?"-":"")+std::string(g.range(1,3),'0')+std::to_string(x).substr(x<0); bool fine=true; g.requirel(lexical_cast<int>(z,fine)==x && fine,[&]{ return "leading zeros do not matter: "+z; }); std::string hx="0x"+std::to_string(x&0xffff); lexical_cast<int>(hx,fine); g.require(!fine,"'"+hx+"' is not a decimal number"); } lexical_cast<int>(junk(std::to_string(x)),ok); g.require(!ok,"trailing characters are an error"); break; }
      case 2: { unsigned x=g.raw(~0ull); g.desc(std::to_string(x)); g.require(lexical_cast<unsigned>(std::to_string(x),ok)==x && ok,"an unsigned reads back"); { std::string z=std::string(g.range(1,3),'0')+std::to_string(x); bool fine=true; g.requirel(lexical_cast<unsigned>(z,fine)==x && fine,[&]{ return "leading zeros do not matter: "+z; }); std::string hx="0x"+std::to_string(x&0xffff); lexical_cast<unsigned>(hx,fine); g.require(!fine,"'"+hx+"' is not a decimal number"); } lexical_cast<unsigned>(junk(std::to_string(x)),ok); g.require(!ok,"trailing characters are an error"); break; }
      case 3: { long x=g.raw(~0ull); g.desc(std::to_string(x)); g.require(lexical_cast<long>(std::to_string(x),ok)==x && ok,"a long reads back"); { std::string z=(x<0?"-":"")+std::string(g.range(1,3),'0')+std::to_string(x).substr(x<0); bool fine=true; g.requirel(lexical_cast<long>(z,fine)==x && fine,[&]{ return "leading zeros do not matter: "+z; }); std::string hx="0x"+std::to_string(x&0xffff); lexical_cast<long>(hx,fine); g.require(!fine,"'"+hx+"' is not a decimal number"); } lexical_cast<long>(junk(std::to_string(x)),ok); g.require(!ok,"trailing characters are an error"); break; }
      case 4: { unsigned long x=g.raw(~0ull); g.desc(std::to_string(x)); g.require(lexical_cast<unsigned long>(std::to_string(x),ok)==x && ok,"an unsigned long reads back"); { std::string z=std::string(g.range(1,3),'0')+std::to_string(x); bool fine=true; g.requirel(lexical_cast<unsigned long>(z,fine)==x && fine,[&]{ return "leading zeros do not matter: "+z; }); std::string hx="0x"+std::to_string(x&0xffff); lexical_cast<unsigned long>(hx,fine); g.require(!fine,"'"+hx+"' is not a decimal number"); } lexical_cast<unsigned long>(junk(std::to_string(x)),ok); g.require(!ok,"trailing characters are an error"); break; }
      case 5: { float x=g.real(-1e5,1e5); std::string w=pbt::str(x); g.desc(w); g.require(lexical_cast<float>(w,ok)==x && ok,"a float reads back"); lexical_cast<float>(junk(w),ok); g.require(!ok,"trailing characters are an error"); break; }
      default: { bool x=g.coin(); std::string w=x?g.pick<std::string>({"1","true"}):g.pick<std::string>({"0","false"}); g.desc(w); g.require(lexical_cast<bool>(w,ok)==x && ok,"a bool reads back"); std::string v=g.pick<std::string>({"True","yes","2","tru","1.0",""}); lexical_cast<bool>(v,ok); g.require(!ok,"'" + v + "' is not a bool"); } }
    ok=false; lexical_cast<double>("1",ok); g.require(!ok,"an earlier error is kept"); }
  // options that act on the particle list: aliases keep everything but the name
  void aliases(pbt::Gen& g){ quiet(); static const std::vector<std::string> src={"K*(892)0","rho(770)+","D0","Lambda(c)+","phi(1020)0","K-","f(2)(1270)0","B0"}; std::string o=g.pick(src), n="Alias"+fresh(); auto was=ParticlePropertiesList::get(o,true); g.require(was!=nullptr,"the particle " + o + " exists"); double m=was->mass(), w=was->width(); int id=was->pdgID(), s2=was->twoSpin(), q=was->charge(), par=was->P(); std::string line="ParticlePropertiesList::Alias" + blank(g) + o + blank(g) + n; bool inFile=g.coin(); g.desc(line + (inFile?" (file)":"")); g.nontrivial(); g.require(ParticlePropertiesList::get(n,true)==nullptr,"the new name is not known yet");
    if( inFile ){ auto f=file(line+"\n"); OptionsParser::getMe()->import(f); unlink(f.c_str()); } else OptionsParser::setArg(line);
    auto p=ParticlePropertiesList::get(n,true), old=ParticlePropertiesList::get(o,true); g.require(p!=nullptr,"the alias is known"); g.require(p->name()==n && p->mass()==m && p->width()==w && p->pdgID()==id && p->twoSpin()==s2 && p->charge()==q && p->P()==par,"the alias has the properties of " + o); g.require(old!=nullptr && old->name()==o && old->mass()==m && old->width()==w && old->pdgID()==id,"the properties of " + o + " itself are unchanged"); }
}
int main(int argc, char** argv){
  pbt::Check c("P15","several options, values, or arguments; any cast or enumerator");
  c.prop("files", 6000, 100000, files); c.prop("commandline", 3000, 50000, commandline); c.prop("named", 6000, 100000, named); c.prop("numbered", 500, 5000, numbered); c.prop("enums", 2000, 20000, enums); c.prop("aliases", 400, 4000, aliases); c.prop("casts", 6000, 60000, casts);
  return c.main(argc,argv);
}
