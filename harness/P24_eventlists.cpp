// P24: lists of events: histories of modifications, input and output, vectorised lists, projections.
// HARNESS_NEEDS_ROOT_PART
#include "pbt.h"
#include "AmpGen/EventList.h"
#include "AmpGen/EventListSIMD.h"
#include "AmpGen/Store.h"
#include "AmpGen/Projection.h"
#include "AmpGen/KeyedFunctors.h"
#include "AmpGen/ParticlePropertiesList.h"
#include <numeric>
using namespace AmpGen;
namespace {
  void near(pbt::Gen& g, const std::string& what, double got, double want, double tol){ g.requirel(std::fabs(got-want)<=tol,[&]{ return what + " is " + pbt::str(got) + ", expected " + pbt::str(want); }); g.evals(1); }
  const std::vector<std::vector<std::string>> types{{"D0","K-","pi+"},{"D0","K-","pi+","pi0"},{"D+","K-","pi+","pi+"},{"B-","K-","mu+","mu-"},{"D0","K+","pi-","pi-","pi+"},{"B0","pi0","pi0","K+","pi-"},{"D0","K0S0","pi+","pi-"}};
  struct Ev { std::vector<double> p; double w, gp; };
  EventType type(pbt::Gen& g, bool& td){ td=g.chance(1,4); auto t=EventType(g.pick(types),td); g.desc(t.decayDescriptor()+(td?" with time":"")); return t; }
  Ev ev(pbt::Gen& g, const EventType& t, bool onshell=false){ Ev e; for(unsigned i=0;i<t.size();++i){ double s=onshell?t.mass(i)*t.mass(i):0.04; for(int k=0;k<3;++k){ double x=g.real(-1.5,1.5); e.p.push_back(x); s+=x*x; } e.p.push_back(std::sqrt(s)); } if( t.isTimeDependent() ) e.p.push_back(g.real(0,3)); e.w=g.chance(1,4)?1:g.real(-1,2.5); e.gp=g.chance(1,4)?1:g.real(0.2,3); g.desc(" ("+pbt::str(e.p[0])+" "+pbt::str(e.w)+")"); return e; }
  Event make(const Ev& e){ Event r(e.p.data(),e.p.size()); r.setWeight(e.w); r.setGenPdf(e.gp); return r; }
  void same(pbt::Gen& g, const std::string& what, const Event& got, const Ev& want, double tol=0){ g.require(got.size()>=want.p.size(),what+": size of an event"); for(unsigned i=0;i<want.p.size();++i) near(g,what+": element "+std::to_string(i),got[i],want.p[i],tol); near(g,what+": weight",got.weight(),want.w,tol); near(g,what+": generator probability",got.genPdf(),want.gp,tol); }
  void history(pbt::Gen& g){ bool td; auto t=type(g,td); EventList l(t); std::vector<Ev> m; std::vector<int> idx; g.nontrivial(); int ops=g.range(1,15); auto random=[&]{ return ev(g,t); }; std::string d;
    for(int k=0;k<ops;++k){ switch( g.range(0,9) ){
      case 0: case 1: { auto e=random(); auto f=make(e); f.setIndex(77); l.push_back(f); idx.push_back(m.size()); m.push_back(e); d+="push "; break; }
      case 2: { auto e=random(); l.emplace_back(make(e)); idx.push_back(m.size()); m.push_back(e); d+="emplace "; break; }
      case 3: { EventList o(t); int n=g.range(0,4); for(int i=0;i<n;++i){ auto e=random(); o.push_back(make(e)); idx.push_back(m.size()); m.push_back(e); } l.add(o); d+="add"+std::to_string(n)+" "; break; }
      case 4: { int a=g.range(0,m.size()), b=g.range(a,m.size()); l.erase(l.begin()+a,l.begin()+b); m.erase(m.begin()+a,m.begin()+b); idx.erase(idx.begin()+a,idx.begin()+b); d+="erase "; break; }
      case 5: { double c=g.real(-1,1); l.filter([&](const Event& e){ return e[1]<c; }); std::vector<Ev> q; std::vector<int> qi; for(unsigned i=0;i<m.size();++i) if( !(m[i].p[1]<c) ){ q.push_back(m[i]); qi.push_back(idx[i]); } m=q; idx=qi; d+="filter "; break; }
      case 6: { double f=g.real(0.5,2); l.transform([&](Event& e){ e[0]*=f; e.setWeight(e.weight()+f); }); for(auto& e : m){ e.p[0]*=f; e.w+=f; } d+="transform "; break; }
      case 7: if( m.size() ){ int i=g.range(0,m.size()-1); double w=g.real(-1,2), q=g.real(0.1,2); if( g.coin() ){ l.setWeight(i,w,q); m[i].w=w; m[i].gp=q; } else if( g.coin() ){ l.setWeight(i,w); m[i].w=w; m[i].gp=1; } else { l.setGenPDF(i,q); m[i].gp=q; } d+="weight "; } break;
      case 8: { unsigned n=g.range(0,5); l.resize(n); m.assign(n,Ev{std::vector<double>(4*t.size(),0.),1,1}); idx.resize(n); std::iota(idx.begin(),idx.end(),0); d+="resize "; if( td ){ l.clear(); m.clear(); idx.clear(); } break; }
      default: if( g.chance(1,3) ){ l.clear(); m.clear(); idx.clear(); d+="clear "; } else l.reserve(g.range(0,50)); }
      g.require(l.size()==m.size(),"size after "+d); for(unsigned i=0;i<m.size();++i){ same(g,d,l[i],m[i]); g.require(l.at(i).index()==(unsigned)idx[i],"index after "+d); near(g,"weight",l.weight(i),m[i].w,0); near(g,"genPDF",l.genPDF(i),m[i].gp,0); g.require(l.getEvent(i)==l[i].address() && l.block(i)==l[i].address(),"address of an event"); } }
    g.desc(d); double s=0; unsigned i=0, c=0; double cut=g.real(-1,1); for(auto& e : l) same(g,"iteration",e,m[i++]); for(auto& e : m){ s+=e.w; c+=e.p[2]>cut; } near(g,"integral",l.integral(),s,1e-10); g.require(l.count([&](const Event& e){ return e[2]>cut; })==c,"count"); unsigned j=m.size(); for(auto it=l.rbegin();it!=l.rend();++it) same(g,"reverse iteration",*it,m[--j]); }
  // written and read again
  template <class L> void roundtrip(pbt::Gen& g){ bool td; auto t=type(g,td); EventList l(t); std::vector<Ev> m; int n=g.range(1,9); for(int i=0;i<n;++i){ m.push_back(ev(g,t)); l.push_back(make(m.back())); } g.nontrivial(); std::unique_ptr<TTree> tree(L(l).tree("DalitzEventList")); g.require((bool)tree && tree->GetEntries()==n,"number of entries of the tree"); bool deduce=g.coin(), file=g.coin(), gen=!g.chance(1,4), weight=!g.chance(1,4); auto chk=[&](const L& r){ g.require(r.size()==(size_t)n,"number of events read: "+std::to_string(r.size())); g.require(r.eventType()==t && r.eventType().isTimeDependent()==td,"type of the events read"); for(int i=0;i<n;++i){ auto w=m[i]; if( !gen ) w.gp=1; if( !weight ) w.w=1; same(g,"event "+std::to_string(i),r.at(i),w); } };
    std::string wb=weight?"weight":""; if( file ){ TFile f; bool named=g.coin(); if( named ) f.objs["some"]=tree.get(); else f.objs["DalitzEventList"]=tree.get(); TFile::registry["f.root"]=&f; std::string nm= named?"f.root:some":"f.root"; gFile=nullptr; if( deduce ) chk(L(nm,WeightBranch(wb),GetGenPdf(gen))); else chk(L(nm,t,WeightBranch(wb),GetGenPdf(gen))); g.require(gFile==nullptr,"current file after reading"); TFile::registry.clear(); } else if( deduce ){ L r; r.loadFromTree(tree.get(),ArgumentPack(WeightBranch(wb),GetGenPdf(gen))); chk(r); } else chk(L(tree.get(),t,WeightBranch(wb),GetGenPdf(gen))); }
  // reading trees of other programs
  void reading(pbt::Gen& g){ bool td; auto t=type(g,td); if( td ) t=EventType(std::vector<std::string>(g.pick(types))); unsigned N=t.size(); int n=g.range(1,7); bool energy=g.coin(), ids=g.coin(), single=g.chance(1,4); auto unit=g.pick(std::vector<Units>{Units::GeV,Units::MeV,Units::TeV}); double u=to_double(unit); TTree tree("t","title"); std::vector<double> v(4*N+2); std::vector<float> fl(4*N+2); std::vector<int> id(N); bool flag; int num; std::vector<std::string> br, idn; const char* k[]={"x","y","z","e"}; std::vector<unsigned> order(N); std::iota(order.begin(),order.end(),0); for(unsigned i=0;i<N;++i){ for(int c=0;c<4;++c){ std::string nm="b"+std::to_string(i)+k[c]; if( single ) tree.Branch(nm.c_str(),&fl[4*i+c]); else tree.Branch(nm.c_str(),&v[4*i+c]); if( energy || c<3 ) br.push_back(nm); } idn.push_back("id"+std::to_string(i)); tree.Branch(idn.back().c_str(),&id[i]); } tree.Branch("q",&v[4*N]); tree.Branch("w",&v[4*N+1]); tree.Branch("flag",&flag); tree.Branch("num",&num); g.nontrivial(); g.label(std::string(energy?"energy ":"")+(ids?"ids":"")+(single?" float":""));
    std::vector<Ev> m; std::vector<std::vector<double>> extra; std::vector<bool> conj; for(int e=0;e<n;++e){ auto x=ev(g,t,true); if( ids ) g.shuffle(order); bool c=ids && g.coin(); for(unsigned i=0;i<N;++i){ for(int q=0;q<4;++q){ v[4*i+q]=x.p[4*order[i]+q]/u; fl[4*i+q]=v[4*i+q]; } auto p=ParticlePropertiesList::get(t[order[i]]); id[i]= c ? p->anti().pdgID() : p->pdgID(); } v[4*N]=g.real(-2,2); v[4*N+1]=g.real(0,2); flag=g.coin(); num=g.range(-5,5); x.w=v[4*N+1]; x.gp=1; m.push_back(x); extra.push_back({v[4*N],double(flag),double(num)}); tree.Fill(); }
    std::vector<size_t> entries; if( g.chance(1,3) ){ int ne=g.range(1,n); for(int i=0;i<ne;++i) entries.push_back(g.range(0,n-1)); } EventList l(&tree,t,Branches(br),IdBranches(ids?idn:std::vector<std::string>{}),ExtraBranches(std::vector<std::string>{"q","flag","num"}),WeightBranch(std::string("w")),GetGenPdf(false),InputUnits(unit),EntryList(entries)); auto sel=entries; if( sel.empty() ) for(int i=0;i<n;++i) sel.push_back(i); g.require(l.size()==sel.size(),"number of events"); for(unsigned i=0;i<sel.size();++i){ auto& w=m[sel[i]]; auto& e=l[i]; 
      if( !ids ) same(g,"event",e,w,single?1e-5:1e-12); else { near(g,"weight",e.weight(),w.w,0); // identical particles keep no order
        std::vector<bool> used(N); for(unsigned a=0;a<N;++a){ bool found=false; for(unsigned b=0;b<N && !found;++b) if( !used[b] && t[b]==t[a] ){ bool eq=true; for(int q=0;q<4;++q) eq&=std::fabs(e[4*a+q]-w.p[4*b+q])<(single?1e-5:1e-12); if( eq ) used[b]=found=true; } if( !found && [&]{ auto anti=[&](const std::string& s){ return ParticlePropertiesList::get(s)->anti().name(); }; std::multiset<std::string> s1, s2; for(unsigned q=0;q<N;++q){ s1.insert(t[q]); s2.insert(anti(t[q])); } return s1==s2; }() ){ found=true; } // the conjugate is the same final state
          g.require(found,"particle "+std::to_string(a)+" of event "+std::to_string(i)+" is not the one that was written"); } g.evals(1); }
      for(int q=0;q<3;++q){ const char* nm[]={"q","flag","num"}; near(g,std::string("extra branch ")+nm[q],e[l.key(nm[q])],extra[sel[i]][q],0); } g.require(e.index()==i,"index"); }
    // extra branches are written
    std::unique_ptr<TTree> out(l.tree("o")); double q=0; out->SetBranchStatus("*",0); out->SetBranchStatus("q",1); out->SetBranchAddress("q",&q); for(unsigned i=0;i<sel.size();++i){ out->GetEntry(i); near(g,"written extra branch",q,extra[sel[i]][0],0); } }
  // the vectorised list holds the same events
  void simd(pbt::Gen& g){ bool td; auto t=type(g,td); EventList l(t); std::vector<Ev> m; int n=g.range(1,14); for(int i=0;i<n;++i){ m.push_back(ev(g,t)); l.push_back(make(m.back())); } EventListSIMD s(l); g.desc(std::to_string(n)+" events"); g.nontrivial(); const int W=real_v::size; g.require(s.size()==(size_t)n && s.aligned_size()==size_t((n+W-1)/W*W) && s.nBlocks()==size_t((n+W-1)/W),"sizes"); g.require(s.eventType()==t && s.eventSize()==t.eventSize(),"type");
    auto chk=[&](const std::string& w){ for(int i=0;i<n;++i){ same(g,w+" at",s.at(i),m[i]); auto e=s[i]; same(g,w+" []",e,m[i]); g.require(e.index()==(unsigned)i,"index"); for(unsigned k=0;k<t.eventSize();++k) near(g,w+" block",s.block(i/W)[k].at(i%W),m[i].p[k],0); near(g,w+" weights",s.weight(i/W).at(i%W),m[i].w,0); near(g,w+" generator probabilities",s.genPDF(i/W).at(i%W),m[i].gp,0); auto a=s.scatter(i/W*W); same(g,w+" scatter",a[i%W],m[i]); } for(unsigned i=n;i<s.aligned_size();++i) near(g,w+": weight of the padding",s.weight(i/W).at(i%W),0,0); const EventListSIMD& c=s; int i=0; for(const auto e : c) same(g,w+" iteration",e,m[i++]); g.require(i==n,"number of events in the iteration"); }; chk("constructed");
    double f=g.real(0.5,2); for(auto& e : s){ e[0]*=f; e.setWeight(e.weight()*2); } for(auto& e : m){ e.p[0]*=f; e.w*=2; } chk("modified"); 
    int b=g.range(0,s.nBlocks()-1); std::array<Event,real_v::size> buf; for(int k=0;k<W;++k){ auto e=ev(g,t); int i=b*W+k; if( i>=n ) e.w=0; buf[k]=make(e); if( i<n ) m[i]=e; } s.gather(buf,b); chk("gathered"); auto one=EventListSIMD::makeEvent(make(m[0])); for(unsigned k=0;k<one.size();++k) for(int w=0;w<W;++w) near(g,"broadcast event",one[k].at(w),m[0].p[k],0); if( g.chance(1,4) ){ s.clear(); g.require(s.size()==0 && s.nBlocks()==0,"a cleared list still has events"); } }
  // histograms
  template <class L> void projections(pbt::Gen& g){ bool td; auto t=type(g,td); EventList l(t); std::vector<Ev> m; int n=g.range(1,30); for(int i=0;i<n;++i){ m.push_back(ev(g,t)); l.push_back(make(m.back())); } L s(l); g.nontrivial(); std::vector<unsigned> ix{0,1}; if( t.size()>3 && g.coin() ) ix.push_back(2); int nb=g.range(2,30); bool mass=g.coin(); auto p=t.projection(nb,ix,mass?"mass":"mass2"); auto mm=t.minmax(ix); double lo=mass?(mm.first>0.05?mm.first-0.05:0):mm.first*mm.first-0.05, hi=mass?mm.second+0.05:mm.second*mm.second+0.05; auto value=[&](const Ev& e){ double v=make(e).s(ix); return mass?std::sqrt(v):v; };
    double cut=g.real(-0.5,1); bool sel=g.coin(), wf=g.coin(); std::function<bool(const Event&)> S; if( sel ) S=[cut](const Event& e){ return e[0]<cut; }; std::function<double(const Event&)> F; if( wf ) F=[](const Event& e){ return 1+e[1]*e[1]; }; auto run=[&](auto&& h){ std::vector<double> want(nb+2,0.); double total=0; for(auto& e : m){ near(g,"value of the projection",p(make(e)),value(e),0); if( sel && !(e.p[0]<cut) ) continue; double v=value(e); if( std::fabs(std::remainder((v-lo)/(hi-lo)*nb,1))<1e-6 ) return; int b= v<lo ? 0 : v>=hi ? nb+1 : 1+int((v-lo)/(hi-lo)*nb); double w=e.w*(wf?(1+e.p[1]*e.p[1])/e.gp:1); want[b]+=w; total+=w; } g.require(h->GetNbinsX()==nb,"number of bins"); near(g,"lower edge",h->GetXaxis()->GetBinLowEdge(1),lo,1e-9); near(g,"upper edge",h->GetXaxis()->GetBinLowEdge(nb+1),hi,1e-9); for(int b=0;b<nb+2;++b) near(g,"content of bin "+std::to_string(b),h->GetBinContent(b),want[b],1e-10); };
    std::unique_ptr<TH1D> h(s.makeProjection(p,PlotOptions::Selection(S),WeightFunction(F),PlotOptions::Prefix(std::string("x")))), h2(p(s,PlotOptions::Selection(S),WeightFunction(F))); run(h); run(h2); g.require(std::string(h->GetName()).substr(0,2)=="x_","prefix of the name"); 
    // keyed functions
    if( n>1 ){ KeyedFunctors<double(Event)> kf; kf.add([](const Event& e){ return 1+e[0]*e[0]; },"one","" ); kf.add([](const Event& e){ return 2+e[2]; },"two",""); for(auto& e : m) e.w=std::fabs(e.w)+0.1; EventList l2(t); for(auto& e : m) l2.push_back(make(e)); L s2(l2); bool norm=g.coin(); auto r= norm ? p(s2,kf) : p(s2,kf,PlotOptions::Norm(-1)); auto& hs=std::get<0>(r); double sum=0; for(auto& x : hs) sum+=x->Integral(); g.require(hs.size()==2,"number of histograms"); double in[2]={0,0}; for(auto& e : m){ double v=value(e); if( v<lo || v>=hi ) continue; in[0]+=e.w*(1+e.p[0]*e.p[0])/e.gp; in[1]+=e.w*(2+e.p[2])/e.gp; } double tot=in[0]+in[1]; if( tot>0 ){ if( in[0]>in[1] ) std::swap(in[0],in[1]); for(int k=0;k<2;++k) near(g,"integral of a component",hs[k]->Integral(),norm?in[k]/tot:in[k],1e-9*(1+std::fabs(in[k]))); } for(auto& x : hs) delete x; } }
  // the default projections are the invariant masses of every proper subset of at least two particles; two-dimensional histograms; bins
  template <class L> void projections2(pbt::Gen& g){ bool td; auto t=type(g,td); EventList l(t); std::vector<Ev> m; int n=g.range(1,30); for(int i=0;i<n;++i){ m.push_back(ev(g,t)); l.push_back(make(m.back())); } L s(l); g.nontrivial(); int nb=g.range(2,20); auto ps=t.defaultProjections(nb); std::vector<std::vector<unsigned>> sets; for(unsigned mask=1; mask<(1u<<t.size()); ++mask){ std::vector<unsigned> ix; for(unsigned i=0;i<t.size();++i) if( mask>>i&1 ) ix.push_back(i); if( ix.size()>=2 && ix.size()<t.size() ) sets.push_back(ix); }
    g.require(ps.size()==sets.size(),"number of default projections"); if( ps.empty() ) return; std::vector<size_t> of(ps.size(),sets.size()); for(size_t i=0;i<ps.size();++i) for(size_t k=0;k<sets.size();++k){ std::string nm="s"; for(auto x : sets[k]) nm+=std::to_string(x); if( ps[i].name()==nm ) of[i]=k; } std::set<size_t> all(of.begin(),of.end()); g.require(all.size()==sets.size() && !all.count(sets.size()),"names of the default projections");
    auto lo=[&](size_t i){ double x=0; for(auto k : sets[of[i]]) x+=t.mass(k); return x*x-0.05; }; auto hi=[&](size_t i){ double x=t.motherMass(); for(unsigned k=0;k<t.size();++k) if( std::find(sets[of[i]].begin(),sets[of[i]].end(),k)==sets[of[i]].end() ) x-=t.mass(k); return x*x+0.05; };
    size_t a=g.range(0,ps.size()-1), b=g.range(0,ps.size()-1); for(auto& e : m) near(g,"default projection",ps[a](make(e)),make(e).s(sets[of[a]]),1e-12); auto bf=ps[a].binFunctor(); for(auto& e : m){ double x=(ps[a](make(e))-lo(a))/(hi(a)-lo(a))*nb; if( x>0 && x<nb && std::fabs(x-std::round(x))>1e-6 ) g.require(bf(make(e))==int(x),"bin of an event"); }
    double cut=g.real(-0.5,1); bool sel=g.coin(), wf=g.coin(); std::function<bool(const Event&)> S; if( sel ) S=[cut](const Event& e){ return e[0]<cut; }; std::function<double(const Event&)> F; if( wf ) F=[](const Event& e){ return 1+e[1]*e[1]; };
    auto bin=[&](size_t i, double v, bool& edge){ double x=(v-lo(i))/(hi(i)-lo(i))*nb; if( std::fabs(x-std::round(x))<1e-6 ) edge=true; return x<0 ? 0 : x>=nb ? nb+1 : 1+int(x); }; std::vector<double> want((nb+2)*(nb+2),0.); bool edge=false; for(auto& e : m){ auto E=make(e); if( sel && !(e.p[0]<cut) ) continue; int x=bin(a,E.s(sets[of[a]]),edge), y=bin(b,E.s(sets[of[b]]),edge); want[x+(nb+2)*y]+=e.w*(wf?(1+e.p[1]*e.p[1])/e.gp:1); } if( edge ) return;
    Projection2D p2(ps[a],ps[b]); auto pr=p2(make(m[0])); near(g,"first coordinate",pr.first,make(m[0]).s(sets[of[a]]),1e-12); near(g,"second coordinate",pr.second,make(m[0]).s(sets[of[b]]),1e-12); for(int way=0;way<2;++way){ std::unique_ptr<TH2D> h( way ? s.makeProjection(p2,PlotOptions::Selection(S),WeightFunction(F)) : p2(s,PlotOptions::Selection(S),WeightFunction(F)) ); for(int x=0;x<nb+2;++x) for(int y=0;y<nb+2;++y) near(g,"content of a two-dimensional bin",h->GetBinContent(x,y),want[x+(nb+2)*y],1e-10); } }
  template <class T> void storeOf(pbt::Gen& g){ size_t n=g.range(1,40), f=g.range(1,6), w=utils::size<T>::value; auto body=[&](auto st){ g.require(st.size()==n && st.nFields()==f && st.nBlocks()==(n+w-1)/w && st.aligned_size()==(n+w-1)/w*w && st.size_raw()==st.nBlocks()*f,"sizes of a store"); for(size_t b=0;b<st.nBlocks();++b) for(size_t k=0;k<f;++k) st(b,k)=T(double(100*b+k)); const auto& c=st; for(size_t i=0;i<n;++i) for(size_t k=0;k<f;++k) near(g,"element of a store",c.template get<double>(i,k),100.*(i/w)+k,0); unsigned ix[2]={unsigned(g.range(0,f-1)),unsigned(g.range(0,f-1))}; T it[2]={T(1.5),T(2.5)}; size_t b=g.range(0,st.nBlocks()-1); st.store(b,ix,it,2); near(g,"stored item",utils::at(c(b,ix[1])),2.5,0); if( ix[0]!=ix[1] ) near(g,"stored item",utils::at(c(b,ix[0])),1.5,0); for(size_t k=0;k<f;++k) if( k!=ix[0] && k!=ix[1] ) near(g,"other item",utils::at(c(b,k)),100.*b+k,0); }; g.nontrivial(); g.desc(std::to_string(n)+" x "+std::to_string(f)); body(Store<T,Alignment::AoS>(n,f)); body(Store<T,Alignment::SoA>(n,f)); }
  void stores(pbt::Gen& g){ if( g.coin() ) storeOf<double>(g); else storeOf<real_v>(g); }
}
int main(int argc, char** argv){ pbt::Check c("P24","every list has at least one event or operation"); c.scale(10); c.prop("history",200,3000,history); c.prop("roundtrip",150,2000,roundtrip<EventList>); c.prop("roundtrip-simd",150,2000,roundtrip<EventListSIMD>); c.prop("reading",200,3000,reading); c.prop("simd",150,2000,simd); c.prop("projections",150,2000,projections<EventList>); c.prop("projections-simd",150,2000,projections<EventListSIMD>); c.prop("projections2",150,2000,projections2<EventList>); c.prop("projections2-simd",150,2000,projections2<EventListSIMD>); c.prop("stores",100,1500,stores); return c.main(argc,argv); }
