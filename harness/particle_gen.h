// Reference particle data (read from the distributed tables with a parser of its own) and random
// decay trees over it.
#ifndef VERIF_PARTICLEGEN_H
#define VERIF_PARTICLEGEN_H 1
#include "pbt.h"
#include <array>
namespace pg {
  struct Spec { std::string name, anti; double mass=0, width=0; int twoSpin=0, P=0, C=0, charge=0, id=0; bool hasAnti=false; std::vector<std::array<int,6>> quarks; char A=' '; std::string quarkText; };
  inline std::string strip(std::string s){ size_t a=s.find_first_not_of(" \t\r\n"), b=s.find_last_not_of(" \t\r\n"); return a==std::string::npos ? "" : s.substr(a,b-a+1); }
  inline std::vector<std::array<int,6>> parseQuarks(const std::string& t){ std::vector<std::array<int,6>> r; static const std::string fl="duscbt"; if( t.find("non-qQ") == std::string::npos ){
      std::string s=t; size_t p; while( (p=s.find("sqrt"))!=std::string::npos ) s.erase(p,4); std::string cur; auto flush=[&]{ std::array<int,6> q{}; bool any=false; for(char c : cur){ size_t k = fl.find(std::tolower(c)); if( k!=std::string::npos ) q[k] += std::islower(c) ? 1 : -1; } for(int x : q) any |= x!=0; if( any ) r.push_back(q); cur.clear(); };
      for(char c : s){ if( c=='('||c==')'||c=='+'||c=='-' ) flush(); else cur+=c; } flush(); }
    if( r.empty() ) r.push_back({}); return r; }
  struct DB { std::vector<Spec> all; std::map<std::string,int> by; std::set<int> dup;
    DB(){ std::map<std::string,int> count; for(const char* f : {"/repo/options/mass_width.csv","/repo/options/MintDalitzSpecialParticles.csv"}){ std::ifstream in(f); std::string l; while( std::getline(in,l) ){ if( l.empty() || l[0]=='*' || l[0]=='#' ) continue; std::vector<std::string> s; std::string c; for(char ch : l){ if( ch==',' ){ s.push_back(strip(c)); c.clear(); } else c+=ch; } s.push_back(strip(c)); if( s.size()!=18 ) continue;
        auto sign=[](const std::string& x){ return x=="+"?1:x=="-"?-1:x=="++"?2:x=="--"?-2:0; };
        Spec p; p.mass=atof(s[0].c_str())*1e-3; p.width=atof(s[3].c_str())*1e-3; p.P=sign(s[9]); p.C=sign(s[10]); p.charge=sign(s[13]); p.id=atoi(s[12].c_str()); p.A = s[11].size()==1 ? s[11][0] : ' '; p.hasAnti = p.A!=' '; p.quarkText=s[17]; p.quarks=parseQuarks(s[17]); bool okCharge = s[13]=="+"||s[13]=="-"||s[13]=="0"||s[13]=="++"||s[13]=="--";
        if( s[8]=="?"||s[8]=="" ) p.twoSpin=-1; else if( s[8].find('/')!=std::string::npos ) p.twoSpin=atoi(s[8].c_str()); else p.twoSpin=2*atoi(s[8].c_str());
        p.name = s[16] + s[13]; std::string ac=s[13]; for(char& ch : ac) ch = ch=='+'?'-':ch=='-'?'+':ch; p.anti = p.hasAnti ? s[16] + (p.A=='F'?"bar":"") + ac : p.name;
        count[p.name]++; if( p.anti!=p.name ) count[p.anti]++;
        if( p.id==0 || !okCharge || p.twoSpin<0 ) continue;
        all.push_back(p); if( p.hasAnti ){ Spec a=p; a.name=p.anti; a.anti=p.name; a.id=-p.id; a.charge=-p.charge; if( p.twoSpin%2 ) a.P=-p.P; for(auto& q : a.quarks) for(int& x : q) x=-x; if( a.name!=p.name ) all.push_back(a); else all.back().id = 0; } } }
      for(size_t i=0;i<all.size();++i) by[all[i].name]=i; std::map<int,int> ids; for(auto& p : all) ids[p.id]++; for(size_t i=0;i<all.size();++i) if( count[all[i].name]>1 || all[i].id==0 || ids[all[i].id]>1 ) dup.insert(i); }
    const Spec& operator[](const std::string& n) const { return all[by.at(n)]; }
    bool has(const std::string& n) const { return by.count(n) && !dup.count(by.at(n)); }
  };
  inline const DB& db(){ static DB d; return d; }
  inline bool sameFlavour(const std::vector<std::array<int,6>>& a, const std::vector<std::array<int,6>>& b){ for(auto& x : a) for(auto& y : b) if( x==y ) return true; return false; }
  inline std::vector<std::array<int,6>> sum(const std::vector<std::array<int,6>>& a, const std::vector<std::array<int,6>>& b){ std::vector<std::array<int,6>> r; for(auto& x : a) for(auto& y : b){ auto z=x; for(int i=0;i<6;++i) z[i]+=y[i]; r.push_back(z); } return r; }

  struct Node { std::string name; std::vector<Node> d; int L=-1; std::string mods; std::vector<std::string> modList; int spinConf=0; std::string lineshape;
    std::string str() const { std::string s=name; if( !modList.empty() ){ s+="["; for(size_t i=0;i<modList.size();++i) s += (i?";":"") + modList[i]; s+="]"; } if( !d.empty() ){ s+="{"; for(size_t i=0;i<d.size();++i) s += (i?",":"") + d[i].str(); s+="}"; } return s; }
    void leaves(std::vector<std::string>& o) const { if( d.empty() ) o.push_back(name); for(auto& x : d) x.leaves(o); }
    int count() const { int n=1; for(auto& x : d) n+=x.count(); return n; }
  };
  inline bool nonRes(const std::string& n){ return n.find("NonRes")!=std::string::npos; }
  inline std::vector<std::array<int,6>> flavour(const Node& n);
  inline std::vector<std::array<int,6>> daughterFlavour(const Node& n){ std::vector<std::array<int,6>> q(1); q[0]={}; for(auto& x : n.d) q = sum(q, flavour(x)); return q; }
  inline std::vector<std::array<int,6>> flavour(const Node& n){ if( nonRes(n.name) ) return daughterFlavour(n); return db()[n.name].quarks; }
  inline bool strong(const Node& n){ const Spec& h = db()[n.name]; if( std::abs(h.id)==23 || std::abs(h.id)==24 ) return false; return nonRes(n.name) || sameFlavour(h.quarks, daughterFlavour(n)); }
  // allowed (L,2S) couplings by angular momentum, and parity if requested
  inline std::vector<std::pair<int,int>> couplings(const Spec& h, const Spec& a, const Spec& b, bool parity){ std::vector<std::pair<int,int>> r; for(int L=0; L<30; ++L) for(int S=std::abs(a.twoSpin-b.twoSpin); S<=a.twoSpin+b.twoSpin; S+=2){ if( h.twoSpin < std::abs(2*L-S) || h.twoSpin > 2*L+S ) continue; if( (h.twoSpin+S)%2 ) continue; if( parity && h.P != a.P*b.P*(L%2?-1:1) ) continue; r.push_back({L,S}); } return r; }
  inline std::set<int> allowedL(const Node& n){ std::set<int> s; for(auto& c : couplings(db()[n.name],db()[n.d[0].name],db()[n.d[1].name],strong(n))) s.insert(c.first); return s; }

  struct Opts { int maxLeaves=4; bool modifiers=true; bool lineshapes=true; int maxTwoSpin=6; bool multi=true; bool chargeOk=false; bool repeatsOk=true; bool letters=false; };
  inline const std::vector<std::string>& common(){ static std::vector<std::string> v={"pi+","pi-","pi0","K+","K-","K0S0","eta0","rho(770)0","rho(770)+","rho(770)-","omega(782)0","phi(1020)0","K*(892)0","K*(892)bar0","K*(892)+","K*(892)bar-","f(0)(980)0","f(2)(1270)0","a(1)(1260)+","a(1)(1260)-","K(1)(1270)+","K(1)(1270)bar-","K(0)*(1430)bar0","K(0)*(1430)0","K(2)*(1430)0","pi(1300)+","D0","Dbar0","D+","D-","B0","Bbar0","B+","Lambda0","Lambdabar0","p+","pbar-","Lambda(c)+","Delta(1232)++","Lambda(1520)0","gamma0","mu+","mu-","NonResS0","NonResV0","NonResA0","D(s)+","eta'(958)0","a(0)(980)+","rho(1450)0","Sigma+","Xi-","J/psi(1S)0","psi(2S)0","Lambda(b)0"}; static bool once=[]{ std::vector<std::string> k; for(auto& n : v) if( db().has(n) ) k.push_back(n); v=k; return true; }(); (void)once; return v; }
  inline const std::vector<std::string>& names(int maxTwoSpin){ static std::map<int,std::vector<std::string>> cache; auto& v=cache[maxTwoSpin]; if( v.empty() ) for(size_t i=0;i<db().all.size();++i){ auto& p=db().all[i]; if( db().dup.count(i) || p.twoSpin>maxTwoSpin || p.P==0 || (p.twoSpin%2 && nonRes(p.name) && false) ) continue; if( p.name.find_first_of("{}[],;_= ") != std::string::npos ) continue; v.push_back(p.name); } return v; }
  inline std::string pickName(pbt::Gen& g, const Opts& o){ return g.chance(3,4) ? g.pick(common()) : g.pick(names(o.maxTwoSpin)); }
  inline bool okNode(const Node& n, const Opts& o){ if( n.d.size()!=2 ) return true; auto& h=db()[n.name]; int tot=h.twoSpin; for(auto& x : n.d) tot += db()[x.name].twoSpin; if( tot%2 ) return false; if( o.chargeOk ){ int q=0; for(auto& x : n.d) q+=db()[x.name].charge; if( q!=h.charge ) return false; } return !allowedL(n).empty(); }
  inline void modify(pbt::Gen& g, Node& n, const Opts& o){
    n.modList.clear(); n.L=-1; n.spinConf=0; n.lineshape="";
    if( n.d.size()==2 ){ auto Ls = allowedL(n); int mn=*Ls.begin(); n.L=mn; std::vector<int> up; for(int l : Ls) if( l<=6 && l>mn ) up.push_back(l); std::string m; 
      if( !up.empty() && g.chance(1,3) ){ n.L=g.pick(up); m = std::string(1,"SPDFGHI"[n.L]); if( g.chance(1,4) ){ if( o.letters && g.chance(1,3) ){ char c=g.pick({'a','b','s','p','z'}); n.spinConf=10+int(c); m += std::string(1,c); } else { n.spinConf=g.range(1,o.letters?9:5); m += std::to_string(n.spinConf); } } } else if( g.chance(1,12) && mn<=6 && mn>0 ){ m = std::string(1,"SPDFGHI"[mn]); } else if( o.letters && mn<=6 && g.chance(1,10) ){ n.spinConf=g.range(1,9); m = g.coin() ? std::to_string(n.spinConf) : std::string(1,"SPDFGHI"[mn]) + std::to_string(n.spinConf); }
      if( m!="" ) n.modList.push_back(m); }
    if( !n.d.empty() && o.lineshapes && g.chance(1,4) ){ n.lineshape = g.pick({std::string("GounarisSakurai"),std::string("LASS"),std::string("Flatte"),std::string("FormFactor"),std::string("GLASS"),std::string("kMatrix.pole.1"),std::string("BW.BELLE2018"),std::string("NonRelBW"),std::string("Bugg"),std::string("GSpline.EFF"),std::string("TD")}); n.modList.push_back(n.lineshape); }
    if( !n.d.empty() && g.chance(1,8) ) n.modList.push_back(g.pick({std::string("BgSpin0"),std::string("Inco"),std::string("NoSym")}));
    if( g.chance(1,8) ) n.modList.push_back(g.pick({std::string("key=value"),std::string("keys=other"),std::string("ke=short"),std::string("r=1.5"),std::string("type=wide"),std::string("vertex=rp")}));
    g.shuffle(n.modList);
  }
  // random tree: leaves first, then pairs merged under heads that admit them
  inline Node tree(pbt::Gen& g, const Opts& o){
    int n = g.range(2,o.maxLeaves); std::vector<Node> f; for(int i=0;i<n;++i){ Node x; x.name=pickName(g,o); if( nonRes(x.name) ) x.name="pi+"; if( i && o.repeatsOk && g.chance(1,4) ) x.name=f[g.draw(i)].name; f.push_back(x); }
    while( f.size()>1 || g.chance(1,30) ){
      Node h; size_t k = f.size()==1 ? 1 : o.multi && f.size()>=3 && g.chance(1,8) ? (size_t)g.range(3,(int)std::min<size_t>(f.size(),6)) : 2; g.shuffle(f); std::vector<Node> ds(f.end()-k,f.end()); f.resize(f.size()-k); h.d=ds; bool ok=false;
      for(int t=0;t<40 && !ok;++t){ h.name=pickName(g,o); ok=okNode(h,o); if( k!=2 && nonRes(h.name) ) ok=false; } 
      if( !ok ){ for(auto& m : common()){ h.name=m; if( okNode(h,o) && !(k!=2 && nonRes(m)) ){ ok=true; break; } } }
      if( !ok ) g.discard();
      if( o.modifiers ) modify(g,h,o); f.push_back(h); }
    return f[0]; }
  inline void shuffleTree(pbt::Gen& g, Node& n){ g.shuffle(n.d); for(auto& x : n.d) shuffleTree(g,x); }
  inline Node conjTree(const Node& n){ Node r=n; r.name = db()[n.name].anti; r.d.clear(); for(auto& x : n.d) r.d.push_back(conjTree(x)); return r; }
  // two decaying siblings of one species with different sub-decays have no canonical order
  inline bool ambiguous(const Node& n){ for(size_t i=0;i<n.d.size();++i) for(size_t j=i+1;j<n.d.size();++j) if( n.d[i].name==n.d[j].name && n.d[i].str()!=n.d[j].str() ) return true; for(auto& x : n.d) if( ambiguous(x) ) return true; return false; }
}
#endif
