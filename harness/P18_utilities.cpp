// P18: string, file and combinatorial utilities against reference models.
#include "pbt.h"
#include "AmpGen/Utilities.h"
#include "AmpGen/MinuitParameter.h"
#include <numeric>
#include <sys/stat.h>
using namespace AmpGen;
typedef std::vector<std::string> S;
namespace {
  std::string text(pbt::Gen& g, const char* al, int lo, int hi){ std::string s; int n=g.range(lo,hi); for(int i=0;i<n;++i) s+=al[g.draw(strlen(al))]; return s; }
  std::string show(const S& t){ std::string r; for(auto& x : t) r+="<"+x+">"; return "["+r+"]"; }
  std::string q(const std::string& s){ return "'"+s+"'"; }
  void same(pbt::Gen& g, const std::string& what, const S& a, const S& b){ g.requirel(a==b,[&]{ return what + " is " + show(a) + ", expected " + show(b); }); }
  void same(pbt::Gen& g, const std::string& what, const std::string& a, const std::string& b){ g.requirel(a==b,[&]{ return what + " is '" + a + "', expected '" + b + "'"; }); }
  void splits(pbt::Gen& g){ std::string s=text(g,"ab, \t;",0,14); g.desc(q(s)); if( s.size()>3 ) g.nontrivial(); char d=g.pick<char>({',',' ',';'}); S all; std::string cur; for(char c : s) if( c==d ){ all.push_back(cur); cur=""; } else cur+=c; if( cur.size() ) all.push_back(cur); S some; for(auto& x : all) if( x!="" && x!=" " && x!="\t" && x!="\n" ) some.push_back(x); same(g,"split keeping everything",split(s,d,false),all); same(g,"split",split(s,d),some);
    std::vector<char> ds; for(char c : {',',' ',';','\t'}) if( g.coin() ) ds.push_back(c); S w, k; cur=""; auto flush=[&]{ if( cur.size() ){ w.push_back(cur); k.push_back(cur); } cur=""; }; for(char c : s) if( std::count(ds.begin(),ds.end(),c) ){ flush(); k.push_back(std::string(1,c)); } else cur+=c; flush(); same(g,"split at any of several characters",split(s,ds),w); same(g,"split keeping the delimiters",split(s,ds,true),k); std::string back; for(auto& x : split(s,ds,true)) back+=x; same(g,"joined parts",back,s); }
  void replacing(pbt::Gen& g){ std::string s=text(g,"ab_+",0,14), a=text(g,"ab_+",1,3), b=text(g,"ab_+",0,4); g.desc(q(s)+" "+q(a)+" -> "+q(b)); if( s.find(a)!=std::string::npos ) g.nontrivial(); std::string w; for(size_t i=0;i<s.size();) if( a!=b && s.compare(i,a.size(),a)==0 ){ w+=b; i+=a.size(); } else w+=s[i++]; same(g,"replaceAll",replaceAll(s,a,b),w); std::string c=text(g,"ab_+",1,2), d=text(g,"ab_+",0,3); if( c!=d ){ std::string w2; for(size_t i=0;i<w.size();) if( w.compare(i,c.size(),c)==0 ){ w2+=d; i+=c.size(); } else w2+=w[i++]; same(g,"replaceAll with several rules",replaceAll(s,{{a,b},{c,d}}),a==b?replaceAll(s,c,d):w2); }
    std::vector<size_t> pos; for(size_t i=0;i+a.size()<=s.size();++i) if( s.compare(i,a.size(),a)==0 ) pos.push_back(i); g.require(findAll(s,a)==pos,"findAll"); size_t first=s.size(); S pats{a,c}; for(size_t i=0;i<s.size();++i) for(auto& p : pats) if( s.compare(i,p.size(),p)==0 ) first=std::min(first,i); size_t from=g.draw(s.size()+1); size_t nx=std::string::npos; for(size_t i=from;i<s.size();++i) for(auto& p : pats) if( nx==std::string::npos && s.compare(i,p.size(),p)==0 ) nx=i; g.require(find_next_of(s,pats,from)==nx,"find_next_of"); auto vf=vecFindAll(s,{"a","+"}); size_t n=0; for(size_t i=0;i<s.size();++i) if( s[i]=='a'||s[i]=='+' ){ g.require(vf.count(i) && vf[i]==std::string(1,s[i]),"vecFindAll"); ++n; } g.require(vf.size()==n,"vecFindAll");
    std::string sw=s; swapChars(sw,'a','+'); for(size_t i=0;i<s.size();++i) g.require(sw[i]==(s[i]=='a'?'+':s[i]=='+'?'a':s[i]),"swapChars"); }
  bool glob(const char* s, const char* p){ if( !*p ) return !*s; if( *p=='*' ) return glob(s,p+1) || (*s && glob(s+1,p)); return *s==*p && glob(s+1,p+1); }
  void wildcards(pbt::Gen& g){ std::string s=text(g,"ab_",0,9), p=text(g,"ab_**",0,7); if( g.coin() ){ p=s; for(int i=g.range(0,2);i>=0;--i) if( p.size() ){ size_t k=g.draw(p.size()), l=g.range(0,3); p=p.substr(0,k)+"*"+(k+l<p.size()?p.substr(k+l):""); } } g.desc(q(s)+" ~ "+q(p)); bool w=glob(s.c_str(),p.c_str()); if( p.find('*')!=std::string::npos ) g.nontrivial(); if( w ) g.label("match"); g.require(stringMatchesWildcard(s,p)==w,w?"the string matches the pattern":"the string does not match the pattern"); std::string p2=p; for(auto& c : p2) if( c=='*' ) c='?'; g.require(stringMatchesWildcard(s,p2,'?')==w,"another wildcard character"); }
  std::string tree(pbt::Gen& g, int depth, S* items){ std::string name=text(g,"abD0+*()",1,4); if( depth==0 || (depth<3 && g.chance(1,3)) ){ if( items ) items->push_back(name); return name; } int n=g.range(1,3); if( items ) items->push_back(name); std::string s=name+"{"; for(int i=0;i<n;++i){ std::string t=tree(g,depth-1,nullptr); if( items ) items->push_back(t); s+=(i?",":"")+t; } return s+"}"; }
  void items(pbt::Gen& g){ S w; std::string s=tree(g,g.range(0,3),&w); g.desc(s); if( w.size()>2 ) g.nontrivial(); same(g,"items of the tree",getItems(s),w); std::string r=s; for(auto& c : r) c = c=='{'?'[':c=='}'?']':c==','?';':c; S w2=w; for(auto& x : w2) for(auto& c : x) c = c=='{'?'[':c=='}'?']':c==','?';':c; same(g,"items with other brackets",getItems(r,{"[","]"},";"),w2); if( s.find('{')!=std::string::npos ) g.require(getItems(s+(g.coin()?"{":"}")).empty(),"unmatched brackets give no items"); }
  void trims(pbt::Gen& g){ std::string l=text(g," \t\n\r",0,3), m=text(g,"ab \t",0,5), r=text(g," \t\n",0,3); if( m.size() && (m[0]==' '||m[0]=='\t') ) m="x"+m; if( m.size() && (m.back()==' '||m.back()=='\t') ) m+="y"; g.desc(q(l+m+r)); if( (l+r).size() ) g.nontrivial(); same(g,"trim",trim(l+m+r),m); same(g,"rtrim",rtrim(l+m+r),m.size()?l+m:""); same(g,"ltrim",ltrim(l+m+r),m.size()?m+r:""); }
  void numbers(pbt::Gen& g){ g.nontrivial(); if( g.chance(1,10) ){ std::string big(g.range(0,3000),'a'); big+="z"; same(g,"long text",mysprintf("%s|%d",big.c_str(),7),big+"|7"); } double x=g.coin()?g.real(-1e4,1e4):g.logreal(1e-6,1e6)*(g.coin()?1:-1); unsigned n=g.range(0,8); if( g.chance(1,5) ){ n=0; x=g.range(-300,300)+0.5; g.label("half"); } { double y=g.chance(1,4)?g.range(-1000,1000):g.coin()?x:std::ldexp(g.uniform(-1,1),g.range(-300,300)); std::string t=to_literal(y); char* end=nullptr; double back=strtod(t.c_str(),&end); g.requirel(back==y && *end==0 && t.find_first_of(".e")!=std::string::npos,[&]{ return "literal of " + pbt::str(y) + " is " + t; }); } g.requirel(strtod(round(x,n).c_str(),nullptr)==-strtod(round(-x,n).c_str(),nullptr),[&]{ return "rounding of " + pbt::str(x) + " is " + round(x,n) + ", of its opposite " + round(-x,n); }); g.desc(pbt::str(x)+" to "+std::to_string(n)); std::string s=round(x,n); double v=strtod(s.c_str(),nullptr), u=std::pow(10.,-int(n)); g.requirel(std::fabs(v-x)<=u*0.5+1e-9*std::fabs(x)+1e-15,[&]{ return "rounded to " + s; }); auto dot=s.find('.'); g.requirel(n==0 ? dot==std::string::npos : dot!=std::string::npos && s.size()-dot-1==n,[&]{ return "number of digits of " + s; }); double e=std::fabs(g.real(0,10)); same(g,"numberWithError",numberWithError(x,e,n),round(x,n)+"\\pm"+round(e,n)); same(g,"formatted",mysprintf("%d-%s-%.3f",int(n),"x",1.5),std::to_string(n)+"-x-1.500"); }
  unsigned lev(const std::string& a, const std::string& b, size_t i, size_t j, std::map<std::pair<size_t,size_t>,unsigned>& m){ if( i==a.size() ) return b.size()-j; if( j==b.size() ) return a.size()-i; auto k=std::make_pair(i,j); auto it=m.find(k); if( it!=m.end() ) return it->second; unsigned r=std::min({lev(a,b,i+1,j,m)+1,lev(a,b,i,j+1,m)+1,lev(a,b,i+1,j+1,m)+(a[i]!=b[j])}); return m[k]=r; }
  void distances(pbt::Gen& g){ const char* al=g.coin()?"abc":"aAbB1-"; std::string a=text(g,al,0,8), b=text(g,al,0,8); g.desc(q(a)+" "+q(b)); if( a.size()>1 && b.size()>1 ) g.nontrivial(); std::map<std::pair<size_t,size_t>,unsigned> m; unsigned w=lev(a,b,0,0,m); g.requirel(editDistance(a,b)==w,[&]{ return "edit distance is " + std::to_string(editDistance(a,b)) + ", expected " + std::to_string(w); }); uint32_t h=2166136261u; for(char c : a) h=(h^uint32_t(c))*16777619u; g.require(FNV1a_hash(a)==h,"FNV-1a hash"); }
  void combinatorics(pbt::Gen& g){ switch( g.range(0,3) ){
      case 0: { unsigned n=g.range(0,8), r=g.range(0,n); g.desc("nCr "+std::to_string(n)+" "+std::to_string(r)); if( n>1 ) g.nontrivial(); auto c=nCr<unsigned>(n,r); std::set<std::vector<unsigned>> u(c.begin(),c.end()); size_t want=0; for(unsigned m=0;m<(1u<<n);++m) if( unsigned(__builtin_popcount(m))==r ){ std::vector<unsigned> v; for(unsigned i=0;i<n;++i) if( m>>i&1 ) v.push_back(i); ++want; g.require(u.count(v),"every combination is listed, in increasing order"); } g.require(c.size()==want,"number of combinations"); break; }
      case 1: { int k=g.range(1,4); std::vector<std::vector<int>> e; size_t n=1; std::string d; for(int i=0;i<k;++i){ int l=g.range(1,4); std::vector<int> v; for(int j=0;j<l;++j) v.push_back(10*i+j); n*=l; e.push_back(v); d+=std::to_string(l)+" "; } g.desc("product of "+d); if( n>2 ) g.nontrivial(); auto c=all_combinations(e); g.require(c.size()==n,"number of combinations"); std::set<std::vector<int>> u(c.begin(),c.end()); g.require(u.size()==n,"combinations are distinct"); for(auto& v : c){ g.require(int(v.size())==k,"one element of each"); for(int i=0;i<k;++i) g.require(std::count(e[i].begin(),e[i].end(),v[i])==1,"elements belong to their set"); } break; }
      case 2: { size_t n=g.range(0,3000), grain=g.range(2,2000); std::vector<int> v; int m=g.range(1,5000); for(size_t i=0;i<n;++i) v.push_back(g.draw(m)); g.desc("sort "+std::to_string(n)+" / "+std::to_string(grain)); if( n>grain ) g.nontrivial(); grain=std::max<size_t>(grain,n/16+2); auto w=v; std::sort(w.begin(),w.end()); auto a=v; parallel_sort(a.begin(),a.end(),grain); g.require(a==w,"parallel_sort sorts"); auto b=v; auto cmp=[](int x, int y){ return x>y; }; parallel_sort(b.begin(),b.end(),cmp,grain); std::reverse(w.begin(),w.end()); g.require(b==w,"parallel_sort sorts with a comparison"); long tot=7; for(auto x : v) tot+=2*x+1; g.require(parallel_accumulate(v.begin(),v.end(),7L,[](int x){ return 2L*x+1; })==tot,"parallel_accumulate sums"); break; }
      default: { int n=g.range(0,6); std::vector<int> v; std::string w; for(int i=0;i<n;++i){ v.push_back(g.range(-9,99)); w+=(i?", ":"")+std::to_string(v.back()); } g.desc("list "+w); if( n>1 ) g.nontrivial(); same(g,"vectorToString",vectorToString(v,", "),w); std::string w2; for(int i=0;i<n;++i) w2+=(i?"|":"")+std::string("x")+std::to_string(v[i]); same(g,"vectorToString of a function",vectorToString(v.begin(),v.end(),"|",[](int x){ return "x"+std::to_string(x); }),w2); } } }
  int nf=0;
  void globals(pbt::Gen& g){ std::map<std::string,std::string> env; for(auto n : {"VPA","VP_B","VPLONG"}){ env[n]=text(g,"ab/._",0,5); setenv(n,env[n].c_str(),1); } std::string p,w; int n=g.range(0,4); for(int i=0;i<n;++i){ std::string lit=text(g,"xy_-",0,3); switch( g.range(0,2) ){ case 0: p+=lit; w+=lit; break; case 1: { auto k=g.pick<std::string>({"VPA","VP_B","VPLONG"}); p+="${"+k+"}"; w+=env[k]; g.nontrivial(); break; } default: { auto k=g.pick<std::string>({"VPA","VP_B","VPLONG"}); p+="$"+k; w+=env[k]; std::string e=i==n-1&&g.coin()?"":g.pick<std::string>({"/","."})+lit; if( e=="" && i!=n-1 ) e="/"; p+=e; w+=e; g.nontrivial(); } } } g.desc(p); same(g,"expanded path",expandGlobals(p),w); unsetenv("AMPGENROOT"); same(g,"AMPGENROOT has a default",expandGlobals("$AMPGENROOT/x"),std::string(AMPGENROOT)+"/x"); g.require(expandGlobals("$VP_UNDEFINED_Q/x")=="$VP_UNDEFINED_Q/x","unknown variables are kept"); }
  void filesystem(pbt::Gen& g){ std::string base=pbt::scratch()+"/fs"+std::to_string(nf++); mkdir(base.c_str(),0700); std::set<std::string> files; std::map<std::string,std::set<std::string>> dirs; int n=g.range(0,6); for(int i=0;i<n;++i) files.insert(text(g,"ab.",1,3)+"f"); int nd=g.range(0,3); for(int i=0;i<nd;++i){ std::string d="d"+text(g,"ab",0,2); auto& c=dirs[d]; int m=g.range(0,3); for(int j=0;j<m;++j) c.insert("g"+text(g,"ab",0,2)); } for(auto& f : files) std::ofstream(base+"/"+f) << "x"; for(auto& d : dirs){ mkdir((base+"/"+d.first).c_str(),0700); for(auto& f : d.second) std::ofstream(base+"/"+d.first+"/"+f) << "x"; }
    std::string pat=g.pick<std::string>({"","*","a*","*f","*a*","d*","b*f","g*"}); g.desc(std::to_string(files.size())+" files, "+std::to_string(dirs.size())+" directories, "+q(pat)); if( files.size()+dirs.size()>2 ) g.nontrivial(); auto ok=[&](const std::string& s){ return pat=="" || glob(s.c_str(),pat.c_str()); }; std::multiset<std::string> w; for(auto& f : files) if( ok(f) ) w.insert(base+"/"+f); for(auto& d : dirs) if( ok(d.first) ) w.insert(base+"/"+d.first); auto l=getListOfFiles(base,pat); std::multiset<std::string> got(l.begin(),l.end()); bool eq=got==w;
    // a wildcard in the last part of the path: files that match, and matching content of the directories that match
    std::string dp=g.pick<std::string>({"*","d*","a*","*f"}); std::multiset<std::string> w2; for(auto& f : files) if( glob(f.c_str(),dp.c_str()) ) w2.insert(base+"/"+f); for(auto& d : dirs) if( glob(d.first.c_str(),dp.c_str()) ) for(auto& f : d.second) if( ok(f) ) w2.insert(base+"/"+d.first+"/"+f); auto l2=getListOfFiles(base+"/"+dp,pat); std::multiset<std::string> got2(l2.begin(),l2.end()); bool eq2=got2==w2; bool exist=true; for(auto& f : files) exist&=fileExists(base+"/"+f) && !isDir(base+"/"+f); for(auto& d : dirs) exist&=fileExists(base+"/"+d.first) && isDir(base+"/"+d.first); exist&=!fileExists(base+"/zzz") && !isDir(base+"/zzz");
    for(auto& f : files) unlink((base+"/"+f).c_str()); for(auto& d : dirs){ for(auto& f : d.second) unlink((base+"/"+d.first+"/"+f).c_str()); rmdir((base+"/"+d.first).c_str()); } rmdir(base.c_str()); g.require(eq,"files of the directory that match the pattern"); g.require(eq2,"files below a path with a wildcard"); g.require(exist,"existence of files and directories"); }
  void lines(pbt::Gen& g){ std::string f=pbt::scratch()+"/lines"+std::to_string(nf++), out; char ig=g.pick<char>({'#','*','%'}); std::string eol=g.coin()?"\n":"\r\n"; S w; int n=g.range(0,8); for(int i=0;i<n;++i){ std::string l=text(g,"ab #*% ",0,6); if( l.size() && g.chance(1,30) ) l+=std::string(g.range(200,9000),'x'); out+=l+(i==n-1&&g.coin()?"":eol); if( l.size() && l[0]!=ig ) w.push_back(l); } { std::ofstream(f) << out; } g.desc(out); if( n>2 ) g.nontrivial(); S got; processFile(f,[&](const std::string& l){ got.push_back(l); },ig); auto v=vectorFromFile(f,ig); auto v2=vectorFromFile(f); unlink(f.c_str()); same(g,"lines processed",got,w); same(g,"lines of the file",v,w); S w2; { std::stringstream ss(out); std::string l; while( std::getline(ss,l) ){ l.erase(std::remove(l.begin(),l.end(),'\r'),l.end()); if( l.size() && l[0]!='#' ) w2.push_back(l); } } same(g,"lines of the file without comments",v2,w2); }
}
int main(int argc, char** argv){
  pbt::Check c("P18","strings long enough to contain what is looked for (see the checks), more than one combination, wildcard or file"); c.scale(8);
  c.prop("split", 20000, 300000, splits); c.prop("replace", 30000, 400000, replacing); c.prop("wildcard", 40000, 400000, wildcards); c.prop("items", 8000, 80000, items); c.prop("trim", 4000, 40000, trims); c.prop("numbers", 10000, 100000, numbers); c.prop("distance", 6000, 60000, distances); c.prop("combinatorics", 3000, 30000, combinatorics); c.prop("globals", 6000, 60000, globals); c.prop("filesystem", 1500, 15000, filesystem); c.prop("lines", 3000, 30000, lines);
  return c.main(argc,argv);
}
