// Reference expressions of all named vertices.
#ifndef VERIF_VERTICES_H
#define VERIF_VERTICES_H 1
#include "lorentz.h"
namespace vx {
  using lz::T; using lz::C; using lz::ein;
  struct V { const char* name; const char* k1; const char* k2; const char* out; int degree; bool transverse; std::function<T(const T&,const T&,const T&,const T&)> f; int dirac=0; bool bar1=false, bar2=false; bool lorentzOk=true; };
  typedef const T& R;
  inline std::vector<V> table(){ using namespace lz; auto E=eps(); auto G5=gamma5(); std::vector<V> t;
    t.push_back({"S_SS_S","","","",0,0,[](R,R,R a,R b){ return a*b.v[0]; }});
    t.push_back({"S_VV_S","v","v","",0,0,[](R,R,R a,R b){ return dot(a,b); }});
    t.push_back({"S_VV_S1","v","v","",0,0,[](R P,R,R a,R b){ return ein("mn,m,n->",{S1(P),a,b}); }});
    t.push_back({"S_VV_P","v","v","",1,0,[E](R P,R Q,R a,R b){ return ein("mnrs,r,s,m,n->",{E,L1(P,Q),P,a,b}); }});
    t.push_back({"S_VV_D","v","v","",2,0,[](R P,R Q,R a,R b){ return ein("mn,m,n->",{L2(P,Q),a,b}); }});
    t.push_back({"S_VS_P","v","","",1,0,[](R P,R Q,R a,R b){ return dot(L1(P,Q),a)*b.v[0]; }});
    t.push_back({"S_TV_P","vv","v","",1,0,[](R P,R Q,R a,R b){ return ein("mn,m,n->",{a,L1(P,Q),b}); }});
    t.push_back({"S_TV_D","vv","v","",2,0,[E](R P,R Q,R a,R b){ return ein("mn,nr,mrst,s,t->",{a,L2(P,Q),E,P,b}); }});
    t.push_back({"S_TS_D","vv","","",2,0,[](R P,R Q,R a,R b){ return ein("mn,mn->",{L2(P,Q),a})*b.v[0]; }});
    t.push_back({"S_TT_S","vv","vv","",0,0,[](R,R,R a,R b){ return ein("mn,mn->",{a,b}); }});
    t.push_back({"V_SS_P","","","v",1,1,[](R P,R Q,R a,R b){ return L1(P,Q)*(a.v[0]*b.v[0]); }});
    t.push_back({"V_VS_P","v","","v",1,1,[E](R P,R Q,R a,R b){ return ein("mnrs,r,s,n->m",{E,L1(P,Q),P,a})*b.v[0]; }});
    t.push_back({"V_VS_S","v","","v",0,1,[](R P,R,R a,R b){ return ein("mn,n->m",{S1(P),a})*b.v[0]; }});
    t.push_back({"V_VS_D","v","","v",2,1,[](R P,R Q,R a,R b){ return ein("mn,n->m",{L2(P,Q),a})*b.v[0]; }});
    t.push_back({"V_TS_P","vv","","v",1,1,[](R P,R Q,R a,R b){ return ein("mn,nr,r->m",{S1(P),a,L1(P,Q)})*b.v[0]; }});
    t.push_back({"V_TS_D","vv","","v",2,1,[E](R P,R Q,R a,R b){ return ein("mnrs,n,r,st,t->m",{E,P,Q,a,L1(P,Q)})*(-b.v[0]); }});
    t.push_back({"V_VV_P","v","v","v",1,1,[](R P,R Q,R a,R b){ return L1(P,Q)*d(a,b); }});
    t.push_back({"V_VV_P1","v","v","v",1,1,[E](R P,R Q,R a,R b){ auto phi=ein("mnrs,n,r,s->m",{E,P,a,b}); phi=ein("mn,n->m",{S1(P),phi}); return ein("mnrs,m,n,r->s",{E,P,L1(P,Q),phi}); }});
    t.push_back({"V_VV_P2","v","v","v",1,1,[](R P,R Q,R a,R b){ return ein("mnrs,m,n,r->s",{S2(P),a,b,L1(P,Q)}); }});
    t.push_back({"V_VV_S","v","v","v",0,1,[E](R P,R,R a,R b){ return ein("mnrs,n,r,s->m",{E,P,a,b}); }});
    t.push_back({"T_VS_D","v","","vv",2,1,[E](R P,R Q,R a,R b){ auto G=ein("mnrs,n,r,s->m",{E,P,Q,a}); auto L=L1(P,Q); return (ein("m,n->mn",{G,L}) + ein("m,n->mn",{L,G}))*(-0.5*b.v[0]); }});
    t.push_back({"T_VS_P","v","","vv",1,1,[](R P,R Q,R a,R b){ auto L=L1(P,Q); auto p=ein("mn,n->m",{S1(P),a}); return ((ein("m,n->mn",{L,p}) + ein("m,n->mn",{p,L}))*0.5 - S1(P)*(d(L,a)/3.))*b.v[0]; }});
    t.push_back({"T_SS_D","","","vv",2,1,[](R P,R Q,R a,R b){ return L2(P,Q)*(a.v[0]*b.v[0]); }});
    t.push_back({"T_TS_S","vv","","vv",0,1,[](R P,R,R a,R b){ auto S=S1(P); auto x=ein("mr,rs,sn->mn",{S,a,S}); C tr=ein("mn,mn->",{S,a}).v[0]; return (x - S*(tr/3.))*b.v[0]; }});
    for(int s : {1,-1}){ auto N=[&](const char* f, const char* F){ return s>0?f:F; };
      t.push_back({N("f_fS_S","F_FS_S"),"s","","s",0,0,[s](R P,R,R a,R b){ return mul(Sh(P,s),a)*b.v[0]; },s});
      t.push_back({N("f_fS_S1","F_FS_S1"),"s","","s",0,0,[s,G5](R P,R,R a,R b){ return mul(Sh(P,s),mul(G5,a))*b.v[0]; },s});
      t.push_back({N("f_fS_P","F_FS_P"),"s","","s",1,0,[s,G5](R P,R Q,R a,R b){ return mul(Sh(P,s),mul(G5,mul(slash(L1(P,Q)),a)))*b.v[0]; },s});
      t.push_back({N("f_fS_P1","F_FS_P1"),"s","","s",1,0,[s](R P,R Q,R a,R b){ return mul(Sh(P,s),mul(slash(L1(P,Q)),a))*b.v[0]; },s});
      t.push_back({N("f_fS_SL","F_FS_SL"),"s","","s",0,0,[s,G5](R P,R,R a,R b){ return mul(Sh(P,s),mul(one()-G5,a))*b.v[0]; },s});
      t.push_back({N("f_fS_SR","F_FS_SR"),"s","","s",0,0,[s,G5](R P,R,R a,R b){ return mul(Sh(P,s),mul(one()+G5,a))*b.v[0]; },s});
      auto gtv=[](R P, R v){ return ein("mab,m->ab",{gt(P),v}); };
      t.push_back({N("f_Vf_S","F_VF_S"),"v","s","s",0,0,[s,G5,gtv](R P,R,R a,R b){ return mul(Sh(P,s),mul(G5,mul(gtv(P,a),b))); },s});
      t.push_back({N("f_Vf_S1","F_VF_S1"),"v","s","s",0,0,[s,gtv](R P,R,R a,R b){ return mul(Sh(P,s),mul(gtv(P,a),b)); },s});
      t.push_back({N("f_Vf_P","F_VF_P"),"v","s","s",1,0,[s](R P,R Q,R a,R b){ return mul(Sh(P,s),b)*d(a,L1(P,Q)); },s});
      t.push_back({N("f_Vf_P1","F_VF_P1"),"v","s","s",1,0,[s,G5,E,gtv](R P,R Q,R a,R b){ auto v=ein("mnrs,n,r,s->m",{E,a,L1(P,Q),P}); return mul(Sh(P,s),mul(G5,mul(gtv(P,v),b))); },s});
      t.push_back({N("f_Vf_P2","F_VF_P2"),"v","s","s",1,0,[s,G5](R P,R Q,R a,R b){ return mul(Sh(P,s),mul(G5,b))*d(a,L1(P,Q)); },s});
      t.push_back({N("f_Vf_P3","F_VF_P3"),"v","s","s",1,0,[s,E,gtv](R P,R Q,R a,R b){ auto v=ein("mnrs,n,r,s->m",{E,L1(P,Q),a,P}); return mul(Sh(P,s),mul(gtv(P,v),b)); },s});
      t.push_back({N("f_Vf_SL","F_VF_SL"),"v","s","s",0,0,[s,G5](R P,R,R a,R b){ return mul(Sh(P,s),mul(slash(a),mul(one()-G5,b))); },s});
      t.push_back({N("f_Vf_SR","F_VF_SR"),"v","s","s",0,0,[s,G5](R P,R,R a,R b){ return mul(Sh(P,s),mul(slash(a),mul(one()+G5,b))); },s});
      t.push_back({N("f_Vf_D","F_VF_D"),"v","s","s",2,0,[s,G5,gtv](R P,R Q,R a,R b){ auto v=ein("mn,n->m",{L2(P,Q),a}); return mul(Sh(P,s),mul(G5,mul(gtv(P,v),b))); },s});
      t.push_back({N("f_Vf_D1","F_VF_D1"),"v","s","s",2,0,[s,gtv](R P,R Q,R a,R b){ auto v=ein("mn,n->m",{L2(P,Q),a}); return mul(Sh(P,s),mul(gtv(P,v),b)); },s});
      t.push_back({N("f_Tf_P","F_TF_P"),"vv","s","s",1,0,[s,gtv](R P,R Q,R a,R b){ auto v=ein("mn,n->m",{a,L1(P,Q)}); return mul(Sh(P,s),mul(gtv(P,v),b)); },s});
      t.push_back({N("f_rS_P","F_RS_P"),"vs","","s",1,0,[s](R P,R Q,R a,R b){ return mul(Sh(P,s),ein("ma,m->a",{a,L1(P,Q)}))*b.v[0]; },s});
      t.push_back({N("f_rS_P1","F_RS_P1"),"vs","","s",1,0,[s,G5](R P,R Q,R a,R b){ return mul(Sh(P,s),mul(G5,ein("ma,m->a",{a,L1(P,Q)})))*b.v[0]; },s});
      t.push_back({N("f_rS_D","F_RS_D"),"vs","","s",2,0,[s,G5](R P,R Q,R a,R b){ return mul(Sh(P,s),mul(G5,ein("mn,mab,nb->a",{L2(P,Q),gt(P),a})))*b.v[0]; },s});
      t.push_back({N("r_fS_P","R_FS_P"),"s","","vs",1,1,[s](R P,R Q,R a,R b){ auto L=L1(P,Q); auto F=Sh(P,s); return (ein("m,a->ma",{L,mul(F,a)})*(-1.) + ein("ab,mbc,c->ma",{F,gt(P),mul(slash(L),a)})*(1./3.))*b.v[0]; },s});
      t.push_back({N("r_fS_D","R_FS_D"),"s","","vs",2,1,[s,G5](R P,R Q,R a,R b){ auto L=L1(P,Q); auto F=Sh(P,s); auto u=mul(G5,a); return (ein("m,a->ma",{L,mul(F,mul(slash(L),u))}) - ein("ab,mbc,c->ma",{F,gt(P),u})*(d(L,L)/3.))*b.v[0]; },s});
    }
    auto rp=[E](R P,R Q,R a,R b,bool p){ (void)E; T P1=(P+Q)*0.5, P2=(P-Q)*0.5; double n=0; for(int i=0;i<3;++i) n+=std::norm(P2(i)); n=std::sqrt(n); T h(1); h(0)=lz::I*(P2(1)*b(2)-P2(2)*b(1))/n; h(1)=lz::I*(P2(2)*b(0)-P2(0)*b(2))/n; h(2)=lz::I*(P2(0)*b(1)-P2(1)*b(0))/n; return std::make_tuple(P1,P2,p?h:b,p?b:h); };
    t.push_back({"S_VV_rp","v","v","",-1,0,[E,rp](R P,R Q,R a,R b){ auto [P1,P2,x,y]=rp(P,Q,a,b,true); return ein("mnrs,m,n,r,s->",{E,x,a,P1,P2})*(-lz::I) + T(d(y,a)*d(P1,P2) - d(y,P1)*d(a,P2)); }}); t.back().lorentzOk=false;
    t.push_back({"S_VV_rm","v","v","",-1,0,[E,rp](R P,R Q,R a,R b){ auto [P1,P2,x,y]=rp(P,Q,a,b,false); return ein("mnrs,m,n,r,s->",{E,x,a,P1,P2})*(-lz::I) + T(d(y,a)*d(P1,P2) - d(y,P1)*d(a,P2)); }}); t.back().lorentzOk=false;
    auto tv=[E](R P1,R P2,R a,R x,R y){ T res=ein("mn,n->m",{a,P1}); return ein("mnrs,m,n,r,s->",{E,x,res,P1,P2})*(-lz::I) + T(ein("m,mn,n->",{y,a,P2}).v[0]*d(P1,P2) - d(y,P1)*d(res,P2)); };
    t.push_back({"S_TV_rp","vv","v","",-1,0,[rp,tv](R P,R Q,R a,R b){ auto [P1,P2,x,y]=rp(P,Q,a,b,false); return tv(P1,P2,a,x,y); }}); t.back().lorentzOk=false;
    t.push_back({"S_TV_rm","vv","v","",-1,0,[rp,tv](R P,R Q,R a,R b){ auto [P1,P2,x,y]=rp(P,Q,a,b,true); return tv(P1,P2,a,x,y); }}); t.back().lorentzOk=false;
    t.push_back({"S_fF_S","s","s","",0,0,[](R,R,R a,R b){ return ein("a,a->",{bar(b),a}); }}); t.back().bar2=true;
    t.push_back({"S_fF_S1","s","s","",0,0,[G5](R,R,R a,R b){ return ein("a,a->",{bar(b),mul(G5,a)}); }}); t.back().bar2=true;
    t.push_back({"V_fF_S","s","s","v",0,1,[](R P,R,R a,R b){ return ein("a,mab,b->m",{bar(b),gt(P),a}); }}); t.back().bar2=true;
    t.push_back({"V_fF_S1","s","s","v",0,1,[G5](R P,R,R a,R b){ return ein("a,ac,mcb,b->m",{bar(b),G5,gt(P),a}); }}); t.back().bar2=true;
    t.push_back({"V_fF_PL","s","s","v",0,1,[G5](R P,R,R a,R b){ return ein("mn,n->m",{S1(P),ein("a,mab,b->m",{bar(a),gamma(),mul(one()-G5,b)})}); }}); t.back().bar1=true;
    t.push_back({"V_fF_PR","s","s","v",0,1,[G5](R P,R,R a,R b){ return ein("mn,n->m",{S1(P),ein("a,mab,b->m",{bar(a),gamma(),mul(one()+G5,b)})}); }}); t.back().bar1=true;
    return t; }
  inline const V* find(const std::string& n){ static auto t=table(); static std::map<std::string,const V*> m=[]{ std::map<std::string,const V*> r; for(auto& v : t) r[v.name]=&v; return r; }(); auto i=m.find(n); return i==m.end() ? nullptr : i->second; }
}
#endif
