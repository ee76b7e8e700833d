// P23: events, event types and kinematics.
// HARNESS_NEEDS_ROOT_PART
#include "pbt.h"
#include "lorentz.h"
#include "AmpGen/Event.h"
#include "AmpGen/EventType.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Kinematics.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include <numeric>
using namespace AmpGen;
namespace {
  typedef std::array<double,4> V4; typedef std::array<double,3> V3;
  void near(pbt::Gen& g, const std::string& what, double got, double want, double tol){ g.requirel(std::fabs(got-want)<=tol,[&]{ return what + " is " + pbt::str(got) + ", expected " + pbt::str(want); }); g.evals(1); }
  struct Sample { Event evt; std::vector<V4> p; };
  // n on-shell particles with random three-momenta
  Sample sample(pbt::Gen& g, unsigned n, unsigned extra=0){ Sample s; s.evt=Event(4*n+extra); std::string d; for(unsigned i=0;i<n;++i){ double m=g.chance(1,6)?0:g.real(0.1,2), e=m*m; V4 v; for(int k=0;k<3;++k){ v[k]=g.real(-2,2); e+=v[k]*v[k]; } if( e<1e-4 ){ v[0]+=0.5; e=m*m+v[0]*v[0]+v[1]*v[1]+v[2]*v[2]; } v[3]=std::sqrt(e); s.p.push_back(v); for(int k=0;k<4;++k) s.evt[4*i+k]=v[k]; d+="("+pbt::str(v[0])+","+pbt::str(v[1])+","+pbt::str(v[2])+","+pbt::str(v[3])+") "; } for(unsigned i=0;i<extra;++i) s.evt[4*n+i]=g.real(-3,3); g.desc(d); return s; }
  V4 sum(const std::vector<V4>& p, const std::vector<unsigned>& i){ V4 r{0,0,0,0}; for(auto& x : i) for(int k=0;k<4;++k) r[k]+=p[x][k]; return r; }
  double m2(const V4& a){ return a[3]*a[3]-a[0]*a[0]-a[1]*a[1]-a[2]*a[2]; }
  double dot(const V4& a, const V4& b){ return a[3]*b[3]-a[0]*b[0]-a[1]*b[1]-a[2]*b[2]; }
  V3 cross(const V3& a, const V3& b){ return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; }
  double d3(const V3& a, const V3& b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
  V3 unit(V3 a){ double n=std::sqrt(d3(a,a)); for(auto& x : a) x/=n; return a; }
  V3 rest(const V4& p, const V4& P){ double M=std::sqrt(m2(P)); double pp=p[0]*P[0]+p[1]*P[1]+p[2]*P[2]; V3 r; for(int k=0;k<3;++k) r[k]=p[k]+P[k]*(pp/(M*(P[3]+M))-p[3]/M); return r; }
  std::vector<unsigned> subset(pbt::Gen& g, unsigned n, unsigned min=1){ std::vector<unsigned> r; for(unsigned i=0;i<n;++i) r.push_back(i); g.shuffle(r); r.resize(g.range(min,n)); return r; }
  void event(pbt::Gen& g){ unsigned n=g.range(2,6), extra=g.range(0,2); auto s=sample(g,n,extra); g.nontrivial(); auto& e=s.evt; g.require(e.size()==4*n+extra,"size of the event"); double scale=0; for(auto& p : s.p) scale+=p[3]; scale*=scale;
    auto ix=subset(g,n); std::string l; for(auto& i : ix) l+=std::to_string(i)+" "; double want=m2(sum(s.p,ix)); near(g,"invariant mass squared of "+l,e.s(ix),want,1e-13*scale*8); if( ix.size()==1 ) near(g,"s(i)",e.s(ix[0]),want,1e-13*scale*8); if( ix.size()==2 ) near(g,"s(i,j)",e.s(ix[0],ix[1]),want,1e-13*scale*8); if( ix.size()==3 ) near(g,"s(i,j,k)",e.s(ix[0],ix[1],ix[2]),want,1e-13*scale*8);
    // history of modifications against a model
    std::vector<double> model(e.data()); double w=1, gp=1; unsigned idx=0; auto check=[&](const std::string& op){ g.require(e.size()==model.size(),op+": size"); for(unsigned i=0;i<model.size();++i) g.requirel(e[i]==model[i] && e.data()[i]==model[i] && *e.address(i)==model[i] && ((const real_t*)e)[i]==model[i],[&]{ return op+": element "+std::to_string(i)+" is "+pbt::str(e[i])+", expected "+pbt::str(model[i]); }); g.require(e.weight()==w && *e.pWeight()==w,op+": weight"); g.require(e.genPdf()==gp && *e.pGenPdf()==gp,op+": genPdf"); g.require(e.index()==idx,op+": index"); g.evals(1); };
    int ops=g.range(1,10); for(int k=0;k<ops;++k){ unsigned i=g.range(0,n-1), j=g.range(0,n-1); std::vector<double> v(4); for(auto& x : v) x=g.real(-5,5); switch( g.range(0,9) ){
      case 0: e.set(i,v); std::copy(v.begin(),v.end(),model.begin()+4*i); check("set(i,vector)"); break;
      case 1: e.set(i,v.data()); std::copy(v.begin(),v.end(),model.begin()+4*i); check("set(i,pointer)"); break;
      case 2: { unsigned q=g.range(0,model.size()-1); e.set(q,v[0]); model[q]=v[0]; check("set(i,number)"); break; }
      case 3: { std::vector<double> a(model.size()); for(auto& x : a) x=g.real(-5,5); e.set(a.data()); model=a; check("set(pointer)"); break; }
      case 4: e.swap(i,j); for(int q=0;q<4;++q) std::swap(model[4*i+q],model[4*j+q]); check("swap"); break;
      case 5: { std::vector<unsigned> a(n); std::iota(a.begin(),a.end(),0); g.shuffle(a); auto c=model; for(unsigned q=0;q<n;++q) std::copy(c.begin()+4*q,c.begin()+4*q+4,model.begin()+4*a[q]); e.reorder(a); check("reorder"); break; }
      case 6: e.setWeight(v[0]); w=v[0]; check("setWeight"); break;
      case 7: e.setGenPdf(v[0]); gp=v[0]; check("setGenPdf"); break;
      case 8: idx=g.range(0,1000); e.setIndex(idx); check("setIndex"); break;
      default: e.extendEvent(v[1]); model.push_back(v[1]); check("extendEvent"); } }
    Event c(model.data(),model.size()); for(unsigned i=0;i<model.size();++i) g.require(c[i]==model[i],"event from an array"); g.require(c.weight()==1 && c.genPdf()==1,"weights of a new event"); }
  void transform(pbt::Gen& g){ unsigned n=g.range(1,5); bool extra=g.coin(); auto s=sample(g,n,extra); g.nontrivial(); V3 a; do { for(auto& x : a) x=g.real(-2,2); a[2]+=1e-3; } while( d3(a,a)<1e-2 && (a[0]=1) ); V3 u=unit(a); auto e=s.evt; std::tuple<double,double,double> t{a[0],a[1],a[2]}; double tol=1e-12;
    if( g.coin() ){ double v=g.real(-0.95,0.95), ga=1/std::sqrt(1-v*v); g.label("boost"); boost(e,t,v); for(unsigned i=0;i<n;++i){ auto& p=s.p[i]; double par=p[0]*u[0]+p[1]*u[1]+p[2]*u[2]; double np=ga*(par+v*p[3]); for(int k=0;k<3;++k) near(g,"boosted momentum",e[4*i+k],p[k]+(np-par)*u[k],tol*ga*10); near(g,"boosted energy",e[4*i+3],ga*(p[3]+v*par),tol*ga*10); } }
    else { double v=g.real(-6,6); g.label("rotation"); rotate(e,t,v); for(unsigned i=0;i<n;++i){ auto& p=s.p[i]; V3 q{p[0],p[1],p[2]}; V3 c=cross(u,q); double d=d3(u,q); for(int k=0;k<3;++k) near(g,"rotated momentum",e[4*i+k],q[k]*std::cos(v)+c[k]*std::sin(v)+u[k]*d*(1-std::cos(v)),tol*10); near(g,"energy after a rotation",e[4*i+3],p[3],0); } }
    if( extra ) near(g,"other fields of the event",e[4*n],s.evt[4*n],0);
    // the components along an orthonormal basis given by vectors of any length
    V3 b{g.real(-2,2),g.real(-2,2),g.real(-2,2)}; V3 z=cross(u,b); if( d3(z,z)>1e-2 ){ z=unit(z); V3 y=cross(z,u); auto f=s.evt; double l1=g.real(0.2,3), l2=g.real(0.2,3), l3=g.real(0.2,3); rotateBasis(f,TVector3(l1*u[0],l1*u[1],l1*u[2]),TVector3(l2*y[0],l2*y[1],l2*y[2]),TVector3(l3*z[0],l3*z[1],l3*z[2])); for(unsigned i=0;i<n;++i){ V3 q{s.p[i][0],s.p[i][1],s.p[i][2]}; near(g,"first component",f[4*i],d3(u,q),1e-12); near(g,"second component",f[4*i+1],d3(y,q),1e-12); near(g,"third component",f[4*i+2],d3(z,q),1e-12); near(g,"energy",f[4*i+3],s.p[i][3],0); } } }
  void angles(pbt::Gen& g){ unsigned n=g.range(4,5); auto s=sample(g,n); auto& e=s.evt; std::vector<unsigned> o(n); std::iota(o.begin(),o.end(),0); g.shuffle(o);
    // helicity angle between two systems in the rest frame of a third
    std::vector<unsigned> A{o[0]}, B{o[1]}, R{o[0],o[2]}; if( g.coin() ) A.push_back(o[2]); if( g.coin() ) B.push_back(o[3]); if( g.coin() ) R.push_back(o[3]); V4 pR=sum(s.p,R), pA=sum(s.p,A), pB=sum(s.p,B); g.assume(m2(pR)>1e-2); V3 a=rest(pA,pR), b=rest(pB,pR); bool ok=d3(a,a)>1e-3 && d3(b,b)>1e-3; if( ok ){ double want=d3(a,b)/std::sqrt(d3(a,a)*d3(b,b)); near(g,"helicity cosine",HelicityCosine(A,B,R)(e),want,1e-8/m2(pR)/std::min(d3(a,a),d3(b,b))); std::vector<Event> l{e}; near(g,"helicity cosine of an iterator",HelicityCosine(A,B,R)(l.begin()),HelicityCosine(A,B,R)(e),0); if( A.size()==1 && B.size()==1 ) near(g,"helicity cosine of two particles",HelicityCosine(A[0],B[0],R)(e),want,1e-8/m2(pR)/std::min(d3(a,a),d3(b,b))); g.nontrivial(); TLorentzVector l1(pA[0],pA[1],pA[2],pA[3]), l2(pB[0],pB[1],pB[2],pB[3]), l3(pR[0],pR[1],pR[2],pR[3]); near(g,"dot product in the rest frame",dotProduct(l1,l2,l3),d3(a,b),1e-9/m2(pR)); TLorentzVector q=pFromEvent(e,B), q1=pFromEvent(e,B[0]); V4 w=sum(s.p,B); for(int k=0;k<4;++k){ near(g,"summed momentum",q[k],w[k],1e-12); near(g,"momentum",q1[k],s.p[B[0]][k],0); } }
    // breakup momentum
    std::vector<unsigned> C{o[0]}, D{o[1]}; if( g.coin() ) C.push_back(o[2]); if( g.coin() ) D.push_back(o[3]); auto all=C; all.insert(all.end(),D.begin(),D.end()); V4 P=sum(s.p,all); if( m2(P)>1e-2 ){ V3 k=rest(sum(s.p,C),P); if( d3(k,k)>1e-3 ) near(g,"momentum transfer",MomentumTransfer(C,D)(e),std::sqrt(d3(k,k)),1e-8/m2(P)/std::sqrt(d3(k,k))); }
    // angles between decay planes
    std::vector<unsigned> four{o[0],o[1],o[2],o[3]}; auto plane=[&](const std::vector<unsigned>& f, double& phi, double& chi){ V4 M=sum(s.p,f); if( m2(M)<1e-2 ) return false; V3 q[4]; for(int k=0;k<4;++k) q[k]=rest(s.p[f[k]],M); V3 n1=cross(q[0],q[1]), n2=cross(q[2],q[3]); if( d3(n1,n1)<1e-4 || d3(n2,n2)<1e-4 ) return false; V3 z{q[0][0]+q[1][0],q[0][1]+q[1][1],q[0][2]+q[1][2]}; if( d3(z,z)<1e-3 ) return false; z=unit(z); V3 aa, dd; double az=d3(q[0],z), dz=d3(q[3],z); for(int k=0;k<3;++k){ aa[k]=q[0][k]-az*z[k]; dd[k]=q[3][k]-dz*z[k]; } if( d3(aa,aa)<1e-4 || d3(dd,dd)<1e-4 ) return false; phi=-std::atan2(d3(z,cross(aa,dd)),d3(aa,dd)); chi=d3(unit(n1),unit(n2)); return true; };
    auto same=[&](const std::string& what, double got, double want){ near(g,what,std::remainder(got-want,2*M_PI),0,1e-6); }; double f, c; if( plane(four,f,c) ){ same("angle between the planes",phi(e,four[0],four[1],four[2],four[3]),f); g.label("planes"); } if( plane({0,1,3,2},f,c) ) same("PHI",PHI(e),f); if( n==4 && plane({0,1,2,3},f,c) && std::fabs(c)<0.999 ) near(g,"acoplanarity",acoplanarity(e),std::acos(c),1e-6);
  }
  // ---- event types
  const std::vector<std::string> heads{"D0","D0bar","D+","Ds+","B0","B-","Lambda(b)0","J/psi0","tau+"}, finals{"K+","K-","pi+","pi-","pi0","K0S0","p+","p~-","gamma0","mu+","mu-","e-","nu(mu)0","eta0","D0","omega(782)0"};
  std::vector<std::string> names(pbt::Gen& g){ std::vector<std::string> r{g.pick(heads)}; int n=g.range(2,5); for(int i=0;i<n;++i) r.push_back( i && g.chance(2,5) ? r[g.range(1,i)] : g.pick(finals) ); std::vector<std::string> ok; for(auto& x : r) if( ParticlePropertiesList::get(x,true) ) ok.push_back(x); else ok.push_back("pi+"); if( !ParticlePropertiesList::get(ok[0],true) ) ok[0]="D0"; std::string d; for(auto& x : ok) d+=x+" "; g.desc(d); return ok; }
  std::string pickled(const std::string& s, bool alt=false){ std::string r; for(char c : s){ if( c=='(' || c==')' ) continue; r+= c=='+' ? (alt?'p':'~') : c=='-' ? (alt?'m':'#') : c; } return r; }
  void types(pbt::Gen& g){ auto n=names(g); bool td=g.coin(); auto given=n; if( g.chance(1,3) ){ int k=g.range(1,n.size()-1); given[k]="{"+given[k]+"}"; } EventType t(given,td); unsigned N=n.size()-1; g.nontrivial(); auto mass=[&](const std::string& s){ return ParticlePropertiesList::get(s)->mass(); };
    g.require(t.mother()==n[0] && t.size()==N && t.isTimeDependent()==td,"mother, size or time dependence"); g.require(t.eventSize()==4*N+td,"size of events"); near(g,"mass of the mother",t.motherMass(),mass(n[0]),0); g.require(t.masses().size()==N && t.finalStates().size()==N,"number of masses"); unsigned dm=1; auto D=[&](const std::string& s)->unsigned { return s=="gamma0" ? 2 : ParticlePropertiesList::get(s)->twoSpin()+1; };
    for(unsigned i=0;i<N;++i){ g.require(t[i]==n[i+1] && t.finalStates()[i]==n[i+1] && t.has(n[i+1]),"name of a particle"); near(g,"mass",t.mass(i),mass(n[i+1]),0); near(g,"masses",t.masses()[i],mass(n[i+1]),0); dm*=D(n[i+1]); unsigned before=0, total=0; for(unsigned j=0;j<N;++j) if( n[j+1]==n[i+1] ){ ++total; before+= j<i; } auto c=t.count(i); g.require(c.first==before && c.second==total,"count of identical particles"); }
    for(auto& f : finals) g.require(t.has(f)==(std::find(n.begin()+1,n.end(),f)!=n.end()),"has "+f); g.require(t.dim().first==D(n[0]) && t.dim().second==dm,"dimensions of the spin states"); g.require(python__EventType__dim(t.constructor_string().c_str())==(D(n[0])<<16)+dm,"dimensions for python"); g.require(t.dof()==3*N-7 || N==2,"degrees of freedom");
    std::string desc=n[0]+"{", cs=n[0]; for(unsigned i=1;i<n.size();++i){ desc+=(i>1?",":"")+n[i]; cs+=" "+n[i]; } desc+="}"; g.require(t.decayDescriptor()==desc,"decay descriptor "+t.decayDescriptor()); g.require(t.constructor_string()==cs,"constructor string");
    auto ix=subset(g,N); double lo=0, hi=mass(n[0]); for(unsigned i=0;i<N;++i){ bool in=std::find(ix.begin(),ix.end(),i)!=ix.end(); if( in ) lo+=mass(n[i+1]); else hi-=mass(n[i+1]); } auto mm=t.minmax(ix); near(g,"smallest mass",mm.first,lo,1e-12); near(g,"largest mass",mm.second,hi,1e-12);
    // the format
    if( g.chance(1,4) ){ OptionsParser::setArg("EventType::AlternativeParticleNames true"); EventType u(n,td); OptionsParser::setArg("EventType::AlternativeParticleNames false"); std::map<std::string,unsigned> want; const char* k[4]={"_Px","_Py","_Pz","_E"}; for(unsigned i=0;i<N;++i){ int all=0, before=0; for(unsigned j=0;j<N;++j) if( pickled(n[j+1],true)==pickled(n[i+1],true) ){ ++all; if( j<i ) ++before; } for(int c=0;c<4;++c) want[pickled(n[i+1],true)+(all>1?std::to_string(before):"")+k[c]]=4*i+c; } if( td ) want[n[0]+"_decayTime"]=4*N; auto f=u.getEventFormat(true); g.require(f.size()==want.size(),"number of fields of the format with alternative names"); for(auto& [w,pos] : want) g.requirel(f.count(w) && f[w]==pos,[&]{ return "field "+w+" of the format with alternative names"; }); g.label("alternative names"); }
    std::vector<std::string> ext; int ne=g.range(0,3); for(int i=0;i<ne;++i){ ext.push_back("extra"+std::to_string(g.range(0,99)*10+i)); t.extendEventType(ext.back()); } for(bool out : {false,true}){ std::map<std::string,unsigned> want; const char* k[4]={"_Px","_Py","_Pz","_E"}; for(unsigned i=0;i<N;++i) for(int c=0;c<4;++c) want[(out?"_"+std::to_string(i+1)+"_"+pickled(n[i+1]):std::to_string(i))+k[c]]=4*i+c; if( td ) want[n[0]+"_decayTime"]=4*N; for(int i=0;i<ne;++i) want[ext[i]]=4*N+td+i; auto f=t.getEventFormat(out); g.require(f.size()==want.size(),"number of fields of the format"); for(auto& [w,pos] : want){ g.requirel(f.count(w) && f[w]==pos,[&]{ return "field "+w+" of the format"; }); } g.evals(1); }
    // conjugation
    auto anti=[&](const std::string& s){ return ParticlePropertiesList::get(s)->anti().name(); }; auto c=t.conj(); auto ch=t.conj(true); auto cf=t.conj(false,true); g.require(c.mother()==anti(n[0]) && ch.mother()==anti(n[0]) && cf.mother()==n[0],"mother of the conjugate"); for(unsigned i=0;i<N;++i) g.require(c[i]==anti(n[i+1]) && ch[i]==n[i+1] && cf[i]==anti(n[i+1]),"decay products of the conjugate"); g.require(c.isTimeDependent()==td,"time dependence of the conjugate"); g.require(c.conj()==t,"conjugating twice"); auto m=n; int k=g.range(0,N); m[k]= m[k]=="K+"?"K-":"K+"; if( k==0 ) m[0]= n[0]=="D0"?"D+":"D0"; g.require(!(EventType(m,td)==t),"different types are equal"); g.require(EventType(n,td)==t,"equal types differ"); if( N>2 ){ auto s=n; s.pop_back(); g.require(!(EventType(s,td)==t),"types of different sizes are equal"); }
  }
  // ---- ordering of the particles of an event by their identities
  void ordering(pbt::Gen& g){ auto n=names(g); unsigned N=n.size()-1; EventType t(n); auto order=t.automaticOrdering(); bool conj=g.coin(); std::vector<std::string> actual(n.begin()+1,n.end()); if( conj ) for(auto& x : actual) x=ParticlePropertiesList::get(x)->anti().name(); std::vector<std::string> target=actual; bool changed=g.chance(1,3); if( changed ){ int k=g.range(0,N-1); actual[k]=g.coin()?g.pick(finals):actual[g.range(0,N-1)]; if( !ParticlePropertiesList::get(actual[k],true) ) actual[k]="pi+"; } g.shuffle(actual); auto id=[](const std::string& s){ return ParticlePropertiesList::get(s)->pdgID(); }; std::vector<int> ids; for(auto& x : actual) ids.push_back(id(x)); Event e(4*N); for(unsigned i=0;i<4*N;++i) e[i]=i+1; auto before=e; std::string d; for(auto& x : actual) d+=x+" "; g.desc(d);
    auto same=[&](bool c){ std::vector<int> a=ids, b; for(unsigned i=0;i<N;++i) b.push_back(id(c?ParticlePropertiesList::get(n[i+1])->anti().name():n[i+1])); std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); return a==b; }; bool p=same(false), q=same(true); bool got=order(e,ids); g.require(got==(p||q),got?"the particles do not match, but are accepted":"the particles match, but are refused"); g.nontrivial(); if( !got ){ for(unsigned i=0;i<4*N;++i) g.require(e[i]==before[i],"refused event is changed"); return; } bool c=!p; g.label(c?"conjugate":"same"); std::vector<int> used(N,0); for(unsigned i=0;i<N;++i){ unsigned from=(unsigned(e[4*i])-1)/4; g.require(from<N && !used[from]++,"a particle is lost"); for(int k=0;k<4;++k) g.require(e[4*i+k]==before[4*from+k],"momentum torn apart"); int w=id(c?ParticlePropertiesList::get(n[i+1])->anti().name():n[i+1]); g.requirel(ids[from]==w,[&]{ return "particle "+std::to_string(i)+" has identity "+std::to_string(ids[from])+", expected "+std::to_string(w); }); } }
  void symmetriser(pbt::Gen& g){ auto n=names(g); unsigned N=n.size()-1; EventType t(n); auto s=t.symmetriser(); int trials=600; std::map<std::vector<unsigned>,int> seen; for(int k=0;k<trials;++k){ Event e(4*N); for(unsigned i=0;i<4*N;++i) e[i]=i; s(e); std::vector<unsigned> perm; for(unsigned i=0;i<N;++i){ unsigned from=e[4*i]/4; for(int q=0;q<4;++q) g.require(e[4*i+q]==4*from+q,"momentum torn apart"); g.require(n[from+1]==n[i+1],"different particles are exchanged"); perm.push_back(from); } auto c=perm; std::sort(c.begin(),c.end()); g.require(std::unique(c.begin(),c.end())==c.end(),"a particle is lost"); seen[perm]++; } double total=1; std::map<std::string,int> mult; for(unsigned i=1;i<=N;++i) total*=++mult[n[i]]; if( total>1 ) g.nontrivial(); if( total>24 ) return; g.require(seen.size()==total,"only "+std::to_string(seen.size())+" of "+pbt::str(total)+" permutations occur"); double chi=0; for(auto& x : seen) chi+=std::pow(x.second-trials/total,2)/(trials/total); g.require(chi<total+10*std::sqrt(2*total)+20,"permutations are not uniform, chi2 = "+pbt::str(chi)); g.evals(trials); }
}
int main(int argc, char** argv){ pbt::Check c("P23","every case has at least one particle and an operation; permutations with identical particles only"); c.scale(20); c.prop("event",300,4000,event); c.prop("transform",300,4000,transform); c.prop("angles",400,5000,angles); c.prop("types",200,2500,types); c.prop("ordering",300,4000,ordering); c.prop("symmetriser",60,600,symmetriser); return c.main(argc,argv); }
