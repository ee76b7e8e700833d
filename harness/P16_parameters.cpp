// P16: histories of operations on a parameter set, and parameters loaded from options and files.
#include "pbt.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/ExpressionParser.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include <memory>
using namespace AmpGen;
namespace {
  struct M { std::string name; Flag flag; double mean, step, lo, hi, init, err, ep, en; int idx; MinuitParameter* p; void reset(){ mean=init; err=step; ep=en=-9999; } };
  M mk(const std::string& n, Flag f, double mean, double step, double lo, double hi, MinuitParameter* p){ M m{n,f,0,step,lo,hi,mean,0,0,0,-1,p}; m.reset(); return m; }
  Flag flag(pbt::Gen& g){ return Flag(g.draw(5)); }
  double val(pbt::Gen& g){ return g.chance(1,6) ? 0. : g.chance(1,4) ? g.range(-5,5) : g.real(-100,100); }
  bool same(double a, double b){ return a==b || (std::isnan(a)&&std::isnan(b)); }
  void agree(pbt::Gen& g, MinuitParameterSet& s, const std::vector<M>& m, const std::vector<std::string>& pool){
    const MinuitParameterSet& cs=s;
    g.requirel(s.size()==m.size(),[&]{ return "the set has " + std::to_string(s.size()) + " parameters, expected " + std::to_string(m.size()); });
    size_t i=0; for(auto p : cs){ g.requirel(p==m[i].p && p->name()==m[i].name,[&]{ return "parameter " + std::to_string(i) + " is " + p->name() + ", expected " + m[i].name; }); ++i; }
    for(size_t i=0;i<m.size();++i){ auto& x=m[i]; auto p=s.at(i); g.require(p==x.p && s[i]==x.p,"look-up by index"); g.require(s.find(x.name)==x.p && s.at(x.name)==x.p && s[x.name]==x.p && cs[x.name]==x.p,"look-up of " + x.name);
      g.requirel(p->flag()==x.flag && p->isFixed()==(x.flag==Flag::Fix||x.flag==Flag::CompileTimeConstant) && p->isFree()==(x.flag==Flag::Free) && p->isBlind()==(x.flag==Flag::Blind),[&]{ return "flag of " + x.name + " is " + to_string<Flag>(p->flag()) + ", expected " + to_string<Flag>(x.flag); });
      auto eq=[&](const char* w, double a, double b){ g.requirel(same(a,b),[&]{ return std::string(w) + " of " + x.name + " is " + pbt::str(a) + ", expected " + pbt::str(b); }); };
      eq("value",p->mean(),x.mean); eq("value",double(*p),x.mean); eq("value by name",s(x.name),x.mean); eq("value by index",s.getFromMinuitIndex(i),x.mean); eq("value by pointer",*p->vp(),x.mean); eq("initial value",p->meanInit(),x.init); eq("step",p->stepInit(),x.step); eq("lower limit",p->minInit(),x.lo); eq("upper limit",p->maxInit(),x.hi); eq("error",p->err(),x.err); eq("positive error",p->errPos(),x.ep); eq("negative error",p->errNeg(),x.en); g.require(p->index()==x.idx,"minuit index of " + x.name); MinuitProxy pr(p,3); eq("proxy",pr,x.mean); g.evals(1); }
    g.require(s.at(m.size())==nullptr,"index past the end"); for(auto& n : pool){ bool in=false; for(auto& x : m) in|=x.name==n; if( !in ) g.require(s.find(n)==nullptr && s.at(n)==nullptr && s[n]==nullptr && cs[n]==nullptr,"look-up of absent " + n); } }
  void history(pbt::Gen& g){ auto s=std::make_unique<MinuitParameterSet>(); std::vector<M> m; std::vector<std::unique_ptr<MinuitParameter>> mine; std::vector<std::string> pool={"a","b","ab","a_Re","a_Im","D0{K-,pi+}_Re","x::0","x::1","x::10"}; std::vector<double> keep;
    if( g.chance(1,3) ){ auto names=pool; g.shuffle(names); names.resize(g.range(0,5)); std::vector<MinuitParameter*> v; for(auto& k : names){ double a=val(g), st=std::fabs(val(g)); Flag f=flag(g); v.push_back(new MinuitParameter(k,f,a,st,a-st,a+st)); m.push_back(mk(k,f,a,st,a-st,a+st,v.back())); } s.reset(new MinuitParameterSet(v)); g.desc("set of " + std::to_string(v.size()) + ";"); agree(g,*s,m,pool); size_t k=0; for(auto it=s->cbegin();it!=s->cend();++it,++k) g.require(k<m.size() && *it==m[k].p,"constant iterators"); g.require(k==m.size(),"number of parameters"); }
    auto has=[&](const std::string& n)->M*{ for(auto& x : m) if( x.name==n ) return &x; return nullptr; };
    int n=g.chance(1,12)?g.range(26,150):g.range(1,25); for(int i=0;i<n;++i){ int op=g.range(0,19); std::string nm=g.pick(pool); Flag f=flag(g); double a=val(g), st=g.chance(1,4)?0.:std::fabs(val(g)), lo=0, hi=0; if( g.coin() ){ lo=a-st; hi=a+2*st; } std::string d="?"; M* x = m.empty()?nullptr:&m[g.draw(m.size())];
      switch( op ){
        case 0: case 1: case 2: { d="add("+nm+")"; auto e=has(nm); auto p=s->add(nm,f,a,st,lo,hi); g.require(p!=nullptr && p->name()==nm,"add returns the parameter of that name"); if( e ) g.require(p==e->p,"adding an existing name returns the parameter already in the set"); else m.push_back(mk(nm,f,a,st,lo,hi,p)); break; }
        case 3: { d="add(ptr "+nm+")"; auto p=new MinuitParameter(nm,f,a,st,lo,hi); bool r=s->add(p); bool e=has(nm)!=nullptr; g.require(r==!e,"add(ptr) tells whether it was added"); if( e ) delete p; else m.push_back(mk(nm,f,a,st,lo,hi,p)); g.require(!s->add(nullptr),"a null pointer is not added"); break; }
        case 4: { d="add(free ptr "+nm+")"; auto p=new MinuitParameter(nm,a,st,lo,hi); bool r=s->add(p); bool e=has(nm)!=nullptr; g.require(r==!e,"add(ptr) tells whether it was added"); if( e ) delete p; else m.push_back(mk(nm,Flag::Free,a,st,lo,hi,p)); break; }
        case 5: { d="addOrGet("+nm+")"; auto e=has(nm); auto p=s->addOrGet(nm,f,a,st,lo,hi); if( e ) g.require(p==e->p,"addOrGet gets the existing parameter"); else m.push_back(mk(nm,f,a,st,lo,hi,p)); break; }
        case 6: if( x ){ d="unregister("+x->name+")"; g.require(s->unregister(x->p),"unregister"); mine.emplace_back(x->p); m.erase(m.begin()+(x-m.data())); MinuitParameter other("zz",1,1); g.require(!s->unregister(&other),"unregister of a parameter that is not in the set"); g.label("unregister"); } break;
        case 7: if( x ){ std::string old=g.chance(1,4)?nm:x->name; std::string nw=g.pick(pool); d="rename("+old+","+nw+")"; auto e=has(old); bool can=e && old!=nw && !has(nw); bool r=s->rename(old,nw); g.requirel(r==can,[&]{ return d + (r?" succeeded":" failed"); }); if( can ) e->name=nw; g.label("rename"); } break;
        case 8: s->resetToInit(); for(auto& y : m) y.reset(); d="resetToInit"; break;
        case 9: if( x ){ d="setCurrentFitVal("+x->name+")"; x->p->setCurrentFitVal(a); x->mean=a; } break;
        case 10: if( x ){ bool ws=g.coin(); d="setInit("+x->name+")"; if( ws ) x->p->setInit(a,st); else x->p->setInit(a); x->init=x->mean=a; if( ws ) x->step=st; } break;
        case 11: if( x ){ d="setResult("+x->name+")"; x->p->setResult(a,st,lo,hi); x->mean=a; x->err=st; x->en=lo; x->ep=hi; } break;
        case 12: if( x ){ d="setLimits("+x->name+")"; x->p->setLimits(lo,hi); x->lo=lo; x->hi=hi; } break;
        case 13: if( x ){ d="fix("+x->name+")"; x->p->fix(); x->flag=Flag::Fix; } break;
        case 14: if( x ){ d="setFree("+x->name+")"; x->p->setFree(); x->flag=Flag::Free; } break;
        case 15: if( x ){ d="scaleStep("+x->name+")"; x->p->scaleStep(a); x->err*=a; x->step*=a; if( g.coin() ){ x->p->setStepInit(st); x->step=st; } } break;
        case 16: { MinuitParameterSet o; d="set{"; std::map<std::string,double> ov; int k=g.range(0,6); for(int j=0;j<k;++j){ std::string q=g.pick(pool); double v=val(g); if( ov.count(q) ) continue; ov[q]=v; auto p=o.add(q,flag(g),val(g),1); p->setCurrentFitVal(v); d+=q+" "; } d+="}"; s->set(o); for(auto& y : m) if( ov.count(y.name) ) y.mean=ov[y.name]; g.label("set"); break; }
        case 17: { std::vector<unsigned> mp; for(unsigned j=0;j<m.size();++j) if( g.coin() ) mp.push_back(j); g.shuffle(mp); d="mapping of "+std::to_string(mp.size()); s->setMapping(mp); std::vector<double> v; for(size_t j=0;j<mp.size();++j){ v.push_back(val(g)); m[mp[j]].idx=j; } s->setFromMinuit(v.data()); for(size_t j=0;j<mp.size();++j) m[mp[j]].mean=v[j]; if( mp.size() ){ size_t j=g.draw(mp.size()); for(auto& w : v) w=val(g); m[mp[j]].p->setFromMinuitState(v.data()); m[mp[j]].mean=v[j]; } g.label("mapping"); break; }
        case 18: if( x ){ size_t j=x-m.data(); d="setFromMinuitIndex("+std::to_string(j)+")"; s->setFromMinuitIndex(j,a); x->mean=a; } break;
        default: if( x ){ d="setVal("+x->name+")"; x->p->setVal(a); x->mean=a; } }
      g.desc(d+"; "); agree(g,*s,m,pool); }
    if( n>5 && m.size()>1 ) g.nontrivial();
    // what is printed: one line per parameter, and never the value of a blind one
    std::ostringstream o,v; s->print(o); s->printVariable(v); size_t at=0; for(auto& x : m){ size_t q=o.str().find(x.name,at); g.require(q!=std::string::npos,"every parameter is printed, in order"); at=q+1; if( x.flag==Flag::Blind ) g.require(o.str().find("BLIND",q)!=std::string::npos,"blind parameters are marked"); }
    std::string vs=v.str(); size_t lines=0; for(auto& x : m) lines+=x.flag!=Flag::Hide; g.require(size_t(std::count(vs.begin(),vs.end(),'\n'))==lines,"hidden parameters are not printed"); for(auto& x : m) if( x.flag==Flag::Blind ){ std::ostringstream a,b; a << *x.p; x.p->setCurrentFitVal(x.mean+1.2345); b << *x.p; g.require(a.str()==b.str(),"the value of a blind parameter does not affect what is printed"); } else { std::ostringstream a; a << *x.p; std::ostringstream t; t << x.mean; g.require(a.str().find(t.str())!=std::string::npos && a.str().find(to_string<Flag>(x.flag))!=std::string::npos,"value and flag are printed"); } for(auto& x : m){ std::ostringstream a; a << *x.p; bool lim=x.lo!=0 || x.hi!=0; std::string t="["+std::to_string(x.lo)+", "+std::to_string(x.hi)+"]"; g.require((a.str().find(t)!=std::string::npos)==lim,"the limits are printed if there are any"); } }
  // parameters written in options or files
  struct L { std::string text; }; int ncase=0;
  struct Loaded { std::string name; Flag flag; double mean, step, lo, hi; bool alias=false; };
  std::string num(pbt::Gen& g, double v){ (void)g; return pbt::str(v); }
  void load(pbt::Gen& g){ bool stream=g.chance(1,6); g.label(stream?"options":"file"); std::string tag="c"+std::to_string(ncase++)+"_"+std::to_string(getpid())+"::"; std::vector<Loaded> want, aliases; std::vector<std::string> lines; std::set<std::string> used; int n=g.range(1,8); std::vector<std::string> keys;
    auto F=[&](Flag f){ return g.chance(1,4) ? std::to_string(int(f)) : to_string<Flag>(f); };
    auto sep=[&]{ return stream || g.chance(3,4) ? std::string(" ") : std::string("\t"); };
    for(int i=0;i<n;++i){ std::string k=tag+g.pick<std::string>({"a","b","c","d","D0{K-,pi+}","e","f(1270)"})+std::to_string(i); bool dup=!stream && keys.size() && g.chance(1,8); if( dup ) k=g.pick(keys); keys.push_back(k); std::string l=k; std::vector<Loaded> ps; auto one=[&](const std::string& nm, bool lim){ Loaded p{nm,flag(g),val(g),std::fabs(val(g)),0,0}; if( lim ){ p.lo=val(g); p.hi=val(g); } l+=sep()+F(p.flag)+sep()+num(g,p.mean)+sep()+num(g,p.step); if( lim ) l+=sep()+num(g,p.lo)+sep()+num(g,p.hi); ps.push_back(p); };
      bool bad=false; switch( g.range(0,5) ){ case 0: case 1: one(k,false); break; case 2: one(k,true); g.label("limits"); break; case 3: one(k+"_Re",false); one(k+"_Im",false); g.label("complex"); if( !stream && g.chance(1,4) ){ std::string c=l; l=k+g.pick<std::string>({"_Re","_Im"}); auto keep=ps; ps.clear(); one(l,false); lines.push_back(l); if( used.insert(ps[0].name).second ) want.push_back(ps[0]); l=c; ps=keep; g.label("one part of a complex parameter defined before"); } break; case 4: one(k+"_Re",true); one(k+"_Im",true); g.label("complex limits"); break; default: one(k,false); bad=true; if( g.coin() ) l+=sep()+"3"; else { std::string q=k; for(int t=0;t<3;++t) q+=" "+std::string(t==0?g.pick<std::string>({"Free","2","Fixed"}):t==1?g.pick<std::string>({"x","1.0.0","--2"}):"0.1"); l=q; } g.label("not a parameter"); }
      lines.push_back(l); if( !bad ) for(auto& p : ps) if( used.insert(p.name).second ) want.push_back(p); }
    // aliases of what was defined
    int na=g.range(0,3); std::vector<Loaded> base=want; std::vector<std::function<double(const std::map<std::string,double>&)>> fs; for(int i=0;i<na && base.size();++i){ std::string k=tag+"alias"+std::to_string(i); auto& A=g.pick(base); std::string an=A.name; double c=val(g); bool prev=i>0&&g.coin(); std::string pn=tag+"alias"+std::to_string(i-1); lines.push_back(k+sep()+"="+sep()+pbt::str(c)+sep()+"*"+sep()+an+(prev?sep()+"+"+sep()+pn:"")); want.push_back({k,Flag::Hide,0,0,0,0,true}); fs.push_back([=](const std::map<std::string,double>& v){ return c*v.at(an)+(prev?v.at(pn):0); }); g.label("alias"); }
    // CP conjugates of masses, widths and radii
    std::string cpn,cpc; if( stream && g.coin() ){ static const std::vector<std::pair<std::string,std::string>> cps={{"K*(892)0","K*(892)bar0"},{"K(1)(1270)+","K(1)(1270)bar-"},{"K(0)*(1430)bar0","K(0)*(1430)0"},{"rho(770)+","rho(770)-"},{"D(0)*(2300)0","D(0)*(2300)bar0"}}; auto pr=g.pick(cps); std::string q=g.pick<std::string>({"_mass","_width","_radius"}); cpn=pr.first+q; cpc=pr.second+q; g.label("cp"); }
    if( cpn.size() ) g.desc(cpn + " -> " + cpc + "\n"); for(auto& l : lines) g.desc(l+"\n"); if( want.size()>2 ) g.nontrivial();
    MinuitParameterSet s; double cpv=val(g); bool cpDefined=g.coin(); if( stream ){ if( keys.size() && g.coin() ){ OptionsParser::setArg(keys[0]+" Free 99 1"); g.label("overridden"); } for(auto& l : lines) OptionsParser::setArg(l); if( cpn.size() ){ OptionsParser::setArg(cpn+" Fix "+pbt::str(cpv)+" 0"); if( cpDefined ) OptionsParser::setArg(cpc+" Fix 1.25 0"); else OptionsParser::setArg(cpc); } s.loadFromStream(); }
    else { std::string f=pbt::scratch()+"/mps"+std::to_string(ncase)+".txt"; { std::ofstream o(f); if( g.coin() ) o << "# a comment\n"; for(auto& l : lines){ o << l << "\n"; if( g.chance(1,5) ) o << "\n"; } } s.loadFromFile(f); unlink(f.c_str()); g.requirel(s.size()==want.size(),[&]{ return "the set has " + std::to_string(s.size()) + " parameters, expected " + std::to_string(want.size()); }); for(size_t i=0;i<want.size();++i) g.requirel(s.at(i)->name()==want[i].name,[&]{ return "parameter " + std::to_string(i) + " is " + s.at(i)->name() + ", expected " + want[i].name; }); }
    std::map<std::string,int> count; for(auto p : s) count[p->name()]++; for(auto& c : count) g.require(c.second==1,"no two parameters have the same name: " + c.first);
    if( stream ) for(auto p : s) if( p->name().rfind(tag,0)==0 ){ bool in=false; for(auto& w : want) in|=w.name==p->name(); g.require(in,"unexpected parameter " + p->name()); }
    std::map<std::string,double> now; for(auto& w : want){ auto p=s.find(w.name); g.requirel(p!=nullptr,[&]{ return "parameter " + w.name + " is missing"; }); if( w.alias ) continue; g.requirel(p->flag()==w.flag && p->mean()==w.mean && p->meanInit()==w.mean && p->stepInit()==w.step && p->minInit()==w.lo && p->maxInit()==w.hi,[&]{ std::ostringstream o; o << *p; return "parameter read as " + o.str() + " but written as " + to_string<Flag>(w.flag) + " " + pbt::str(w.mean) + " " + pbt::str(w.step) + " " + pbt::str(w.lo) + " " + pbt::str(w.hi); }); now[w.name]=w.mean; g.evals(1); }
    auto aliasCheck=[&](const char* when){ size_t j=0; for(auto& w : want) if( w.alias ){ auto p=s.find(w.name); double v=fs[j++](now); now[w.name]=v; g.close(std::string("alias ")+when,p->mean(),v,1e-12,1e-12); g.close(std::string("alias as a number ")+when,double(*p),v,1e-12,1e-12); g.require(p->flag()==Flag::Hide && !p->isFree(),"aliases are not free parameters"); } }; aliasCheck("as loaded"); for(auto& w : want) if( !w.alias && g.coin() ){ double v=val(g); s.find(w.name)->setCurrentFitVal(v); now[w.name]=v; } aliasCheck("after changing parameters");
    if( cpn.size() ){ auto p=s.find(cpn), q=s.find(cpc); g.require(p!=nullptr && p->mean()==cpv,"the quantity itself"); g.require(q!=nullptr,"the conjugate quantity exists"); if( cpDefined ) g.require(q->mean()==1.25,"a conjugate quantity given by the user is kept"); else { g.require(q->mean()==cpv,"the conjugate quantity has the same value"); p->setCurrentFitVal(cpv+1); g.require(q->mean()==cpv+1,"the conjugate quantity follows"); } } }
}
int main(int argc, char** argv){
  pbt::Check c("P16","more than five operations with at least two parameters left; more than two parameters in a file"); c.scale(3);
  c.prop("history", 60000, 600000, history); c.prop("load", 3000, 20000, load);
  return c.main(argc,argv);
}
