// Minimal, functional stand-in for the parts of CERN ROOT that AmpGen's sources use.
// ROOT is not available in this sandbox. Only what AmpGen calls is provided; behaviour
// follows ROOT's documented semantics (Gaus/Uniform/Exp, TLorentzVector, TMatrixD, ...).
#ifndef VERIF_ROOTSTUB_H
#define VERIF_ROOTSTUB_H 1
#include <cmath>
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cassert>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <vector>

typedef double Double_t; typedef float Float_t; typedef bool Bool_t; typedef int Int_t;
typedef unsigned int UInt_t; typedef unsigned long long ULong64_t; typedef long long Long64_t;
typedef char Char_t; typedef short Short_t; typedef unsigned short UShort_t; typedef long Long_t; typedef unsigned long ULong_t;
typedef const char Option_t;
enum EColor { kWhite=0, kBlack=1, kGray=920, kRed=632, kGreen=416, kBlue=600, kYellow=400, kMagenta=616, kCyan=432, kOrange=800 };
constexpr bool kTRUE=true, kFALSE=false;

class TObject { public: virtual ~TObject() = default; virtual int Write(const char* =nullptr,int=0,int=0){return 0;}
  virtual const char* GetName() const { return ""; } };
class TNamed : public TObject { protected: std::string fName, fTitle;
 public: TNamed() = default; TNamed(const char* n,const char* t):fName(n?n:""),fTitle(t?t:""){}
  const char* GetName() const override { return fName.c_str(); } const char* GetTitle() const { return fTitle.c_str(); }
  void SetName(const char* n){ fName=n; } void SetTitle(const char* t){ fTitle=t; } };

class TRandom : public TObject {
 protected: std::mt19937_64 m_e{4357};
 public: TRandom(unsigned seed=4357){ m_e.seed(seed); }
  virtual void SetSeed(unsigned long s=0){ m_e.seed(s); }
  virtual double Rndm(){ double u; do { u = (m_e()>>11) * (1.0/9007199254740992.0); } while(u<=0); return u; }
  double operator()(){ return Rndm(); }
  double Uniform(double x1=1){ return x1*Rndm(); }
  double Uniform(double a,double b){ return a + (b-a)*Rndm(); }
  double Gaus(double m=0,double s=1){ double u=Rndm(), v=Rndm(); return m + s*std::sqrt(-2*std::log(u))*std::cos(2*M_PI*v); }
  double Exp(double tau){ return -tau*std::log(Rndm()); }
  unsigned Integer(unsigned n){ return (unsigned)(n*Rndm()); }
  int Poisson(double mu){ std::poisson_distribution<int> d(mu); return d(m_e); }
  int Binomial(int n,double p){ std::binomial_distribution<int> d(n,p); return d(m_e); }
  double BreitWigner(double m=0,double g=1){ return m + 0.5*g*std::tan((2*Rndm()-1)*M_PI*0.5); }
  void Sphere(double&x,double&y,double&z,double r){ double c=2*Rndm()-1, p=2*M_PI*Rndm(), s=std::sqrt(1-c*c); x=r*s*std::cos(p); y=r*s*std::sin(p); z=r*c; }
  unsigned long GetSeed() const { return 0; }
};
class TRandom3 : public TRandom { public: TRandom3(unsigned seed=4357):TRandom(seed){} };
class TRandom2 : public TRandom { public: TRandom2(unsigned seed=65539):TRandom(seed){} };
inline TRandom3 g_verif_rootstub_random{4357};
inline TRandom* gRandom = &g_verif_rootstub_random;

namespace TMath { inline double ATan2(double y,double x){ return std::atan2(y,x);} inline double Pi(){ return M_PI; }
 inline double Cos(double x){return std::cos(x);} inline double Sin(double x){return std::sin(x);} inline double Sqrt(double x){return std::sqrt(x);}
 inline double Power(double x,double y){return std::pow(x,y);} inline double Abs(double x){return std::fabs(x);} inline double ACos(double x){return std::acos(x);}
 inline double TwoPi(){return 2*M_PI;} inline double Log(double x){return std::log(x);} inline double Exp(double x){return std::exp(x);} inline double Hypot(double x,double y){return std::hypot(x,y);}
 inline double Erf(double x){return std::erf(x);} inline double Floor(double x){return std::floor(x);} }

class TVector3 { double x_,y_,z_; public: TVector3(double x=0,double y=0,double z=0):x_(x),y_(y),z_(z){}
  double x()const{return x_;} double y()const{return y_;} double z()const{return z_;}
  double X()const{return x_;} double Y()const{return y_;} double Z()const{return z_;}
  double Px()const{return x_;} double Py()const{return y_;} double Pz()const{return z_;}
  double operator[](int i)const{ return i==0?x_:i==1?y_:z_; } double operator()(int i)const{ return (*this)[i]; }
  double Mag2()const{return x_*x_+y_*y_+z_*z_;} double Mag()const{return std::sqrt(Mag2());}
  double Dot(const TVector3&o)const{return x_*o.x_+y_*o.y_+z_*o.z_;}
  TVector3 Cross(const TVector3&o)const{ return TVector3(y_*o.z_-o.y_*z_, z_*o.x_-o.z_*x_, x_*o.y_-o.x_*y_);}
  TVector3 Unit()const{ double m=Mag2(); double f= m>0? 1./std::sqrt(m):1.; return TVector3(x_*f,y_*f,z_*f);}
  double Theta()const{ return std::atan2(std::hypot(x_,y_),z_);} double Phi()const{ return std::atan2(y_,x_);} double CosTheta()const{ double m=Mag(); return m==0?1:z_/m; }
  double Angle(const TVector3&o)const{ double d=std::sqrt(Mag2()*o.Mag2()); if(d<=0)return 0; double a=Dot(o)/d; if(a>1)a=1; if(a<-1)a=-1; return std::acos(a);}
  void SetXYZ(double a,double b,double c){x_=a;y_=b;z_=c;} void SetMag(double m){ double s=Mag(); if(s>0){ x_*=m/s;y_*=m/s;z_*=m/s;} }
  TVector3 operator-()const{return TVector3(-x_,-y_,-z_);} TVector3& operator*=(double a){x_*=a;y_*=a;z_*=a;return *this;}
  TVector3& operator+=(const TVector3&o){x_+=o.x_;y_+=o.y_;z_+=o.z_;return *this;} TVector3& operator-=(const TVector3&o){x_-=o.x_;y_-=o.y_;z_-=o.z_;return *this;}
};
inline TVector3 operator+(TVector3 a,const TVector3&b){return a+=b;} inline TVector3 operator-(TVector3 a,const TVector3&b){return a-=b;}
inline TVector3 operator*(double a,TVector3 b){return b*=a;} inline TVector3 operator*(TVector3 b,double a){return b*=a;} inline double operator*(const TVector3&a,const TVector3&b){return a.Dot(b);}

class TLorentzVector { double x_,y_,z_,t_; public: TLorentzVector(double x=0,double y=0,double z=0,double t=0):x_(x),y_(y),z_(z),t_(t){}
  explicit TLorentzVector(const double* p):x_(p[0]),y_(p[1]),z_(p[2]),t_(p[3]){}
  TLorentzVector(const TVector3&v,double t):x_(v.x()),y_(v.y()),z_(v.z()),t_(t){}
  double X()const{return x_;} double Y()const{return y_;} double Z()const{return z_;} double T()const{return t_;}
  double x()const{return x_;} double y()const{return y_;} double z()const{return z_;} double t()const{return t_;}
  double Px()const{return x_;} double Py()const{return y_;} double Pz()const{return z_;} double E()const{return t_;} double Energy()const{return t_;}
  double operator[](int i)const{ return i==0?x_:i==1?y_:i==2?z_:t_; } double operator()(int i)const{ return (*this)[i]; }
  TVector3 Vect()const{return TVector3(x_,y_,z_);} double P()const{return Vect().Mag();} double Rho()const{return P();}
  double Dot(const TLorentzVector&o)const{return t_*o.t_-x_*o.x_-y_*o.y_-z_*o.z_;}
  double Mag2()const{return Dot(*this);} double M2()const{return Mag2();} double Mag()const{ double m=Mag2(); return m<0?-std::sqrt(-m):std::sqrt(m);} double M()const{return Mag();}
  TVector3 BoostVector()const{return TVector3(x_/t_,y_/t_,z_/t_);}
  void Boost(const TVector3&b){Boost(b.x(),b.y(),b.z());}
  void Boost(double bx,double by,double bz){ double b2=bx*bx+by*by+bz*bz; double g=1./std::sqrt(1-b2); double bp=bx*x_+by*y_+bz*z_; double g2=b2>0?(g-1)/b2:0;
    x_+=g2*bp*bx+g*bx*t_; y_+=g2*bp*by+g*by*t_; z_+=g2*bp*bz+g*bz*t_; t_=g*(t_+bp); }
  void SetPxPyPzE(double a,double b,double c,double d){x_=a;y_=b;z_=c;t_=d;} void SetXYZM(double a,double b,double c,double m){x_=a;y_=b;z_=c;t_=std::sqrt(m*m+a*a+b*b+c*c);}
  TLorentzVector operator-()const{return TLorentzVector(-x_,-y_,-z_,-t_);}
  TLorentzVector& operator+=(const TLorentzVector&o){x_+=o.x_;y_+=o.y_;z_+=o.z_;t_+=o.t_;return *this;} TLorentzVector& operator-=(const TLorentzVector&o){x_-=o.x_;y_-=o.y_;z_-=o.z_;t_-=o.t_;return *this;}
  TLorentzVector& operator*=(double a){x_*=a;y_*=a;z_*=a;t_*=a;return *this;} double Theta()const{return Vect().Theta();} double Phi()const{return Vect().Phi();}
  double Angle(const TVector3&v)const{return Vect().Angle(v);}
};
inline TLorentzVector operator+(TLorentzVector a,const TLorentzVector&b){return a+=b;} inline TLorentzVector operator-(TLorentzVector a,const TLorentzVector&b){return a-=b;}
inline TLorentzVector operator*(double a,TLorentzVector b){return b*=a;} inline TLorentzVector operator*(TLorentzVector b,double a){return b*=a;} inline double operator*(const TLorentzVector&a,const TLorentzVector&b){return a.Dot(b);}

template<class T> class TVectorT { std::vector<T> d; public: TVectorT(int n=0):d(n){} 
  T& operator[](int i){return d.at(i);} const T& operator[](int i)const{return d.at(i);} T& operator()(int i){return d.at(i);} const T& operator()(int i)const{return d.at(i);} int GetNrows()const{return (int)d.size();} int GetNoElements()const{return (int)d.size();} };
typedef TVectorT<double> TVectorD;
template<class T> TVectorT<T> operator+(const TVectorT<T>&a,const TVectorT<T>&b){ TVectorT<T> r(a.GetNrows()); for(int i=0;i<r.GetNrows();++i) r[i]=a[i]+b[i]; return r; }
template<class T> TVectorT<T> operator-(const TVectorT<T>&a,const TVectorT<T>&b){ TVectorT<T> r(a.GetNrows()); for(int i=0;i<r.GetNrows();++i) r[i]=a[i]-b[i]; return r; }
template<class T> class TMatrixT { protected: int nr=0,nc=0; std::vector<T> d; public: enum EMatrixCreatorsOp1 { kZero,kUnit,kTransposed,kInverted,kAtA };
  TMatrixT()=default; TMatrixT(int r,int c):nr(r),nc(c),d((size_t)r*c){}
  TMatrixT(EMatrixCreatorsOp1 op,const TMatrixT&o){ if(op==kTransposed){ nr=o.nc;nc=o.nr;d.resize(o.d.size()); for(int i=0;i<nr;++i)for(int j=0;j<nc;++j)(*this)(i,j)=o(j,i);} else if(op==kInverted){ *this=o; Invert(); } else { nr=o.nr;nc=o.nc;d.assign(o.d.size(),T(0)); if(op==kUnit) for(int i=0;i<nr;++i)(*this)(i,i)=1; } }
  TMatrixT(EMatrixCreatorsOp1 op,const TVectorT<T>&v){ nr= op==kTransposed?1:v.GetNrows(); nc= op==kTransposed?v.GetNrows():1; d.resize(v.GetNrows()); for(int i=0;i<v.GetNrows();++i)d[i]=v[i]; }
  T& operator()(int i,int j){return d.at((size_t)i*nc+j);} const T& operator()(int i,int j)const{return d.at((size_t)i*nc+j);}
  struct Row{ TMatrixT*m;int i; T&operator[](int j){return (*m)(i,j);} }; struct CRow{ const TMatrixT*m;int i; const T&operator[](int j)const{return (*m)(i,j);} };
  Row operator[](int i){return {this,i};} CRow operator[](int i)const{return {this,i};}
  int GetNrows()const{return nr;} int GetNcols()const{return nc;} int GetNoElements()const{return nr*nc;}
  TMatrixT& ResizeTo(int r,int c){ TMatrixT o(r,c); for(int i=0;i<std::min(r,nr);++i)for(int j=0;j<std::min(c,nc);++j)o(i,j)=(*this)(i,j); *this=o; return *this; }
  TMatrixT& Invert(double* det=nullptr){ int n=nr; TMatrixT a(*this), b(n,n); for(int i=0;i<n;++i)b(i,i)=1; T dd=1; for(int c=0;c<n;++c){ int p=c; for(int r=c;r<n;++r) if(std::fabs(a(r,c))>std::fabs(a(p,c)))p=r; if(p!=c){ dd=-dd; for(int k=0;k<n;++k){ std::swap(a(p,k),a(c,k)); std::swap(b(p,k),b(c,k)); } } T pv=a(c,c); dd*=pv; for(int k=0;k<n;++k){a(c,k)/=pv;b(c,k)/=pv;} for(int r=0;r<n;++r) if(r!=c){ T f=a(r,c); for(int k=0;k<n;++k){a(r,k)-=f*a(c,k);b(r,k)-=f*b(c,k);} } } if(det)*det=dd; *this=b; return *this; }
  void Print(const char* ="")const{} const T* GetMatrixArray()const{return d.data();}
  TMatrixT& operator+=(const TMatrixT&o){for(size_t i=0;i<d.size();++i)d[i]+=o.d[i];return *this;} TMatrixT& operator*=(T s){for(auto&x:d)x*=s;return *this;} 
};
template<class T> TMatrixT<T> operator*(const TMatrixT<T>&a,const TMatrixT<T>&b){ TMatrixT<T> r(a.GetNrows(),b.GetNcols()); for(int i=0;i<r.GetNrows();++i)for(int j=0;j<r.GetNcols();++j){T s=0;for(int k=0;k<a.GetNcols();++k)s+=a(i,k)*b(k,j);r(i,j)=s;} return r; }
template<class T> TVectorT<T> operator*(const TMatrixT<T>&a,const TVectorT<T>&v){ TVectorT<T> r(a.GetNrows()); for(int i=0;i<a.GetNrows();++i){T s=0;for(int k=0;k<a.GetNcols();++k)s+=a(i,k)*v[k];r[i]=s;} return r; }
typedef TMatrixT<double> TMatrixD;
template<class T> class TMatrixTSym : public TMatrixT<T> { public: TMatrixTSym(int n=0):TMatrixT<T>(n,n){} };
typedef TMatrixTSym<double> TMatrixDSym;
class TDecompChol { TMatrixD m_a,m_u; public: TDecompChol(const TMatrixD&a):m_a(a),m_u(a.GetNrows(),a.GetNrows()){}
  bool Decompose(){ int n=m_a.GetNrows(); for(int j=0;j<n;++j){ double s=m_a(j,j); for(int k=0;k<j;++k)s-=m_u(k,j)*m_u(k,j); if(s<=0)return false; m_u(j,j)=std::sqrt(s); for(int i=j+1;i<n;++i){ double t=m_a(j,i); for(int k=0;k<j;++k)t-=m_u(k,j)*m_u(k,i); m_u(j,i)=t/m_u(j,j);} } return true; }
  const TMatrixD& GetU()const{return m_u;} };

class TAxis : public TNamed { public: int n=0;double lo=0,hi=1; void SetTitleOffset(double){} double GetBinLowEdge(int i)const{return lo+(i-1)*(hi-lo)/n;} double GetBinCenter(int i)const{return lo+(i-0.5)*(hi-lo)/n;} int GetNbins()const{return n;} double GetXmin()const{return lo;} double GetXmax()const{return hi;}
  int FindBin(double x)const{ if(x<lo)return 0; if(!(x<hi))return n+1; return 1+int(n*(x-lo)/(hi-lo)); } void SetRangeUser(double,double){} };
class TH1 : public TNamed { public: using TNamed::TNamed; virtual double Integral()const{return 0;} virtual void Scale(double,const char* =""){} };
class TH1D : public TH1 { std::vector<double> c; double ent=0; TAxis ax,ay; public: TH1D(const char*n,const char*t,int nb,double lo,double hi):TH1(n,t),c(nb+2){ax.n=nb;ax.lo=lo;ax.hi=hi;}
  int Fill(double x,double w=1){ int b=ax.FindBin(x); c[b]+=w; ent++; return b; } double GetBinContent(int i)const{return c.at(i);} void SetBinContent(int i,double v){c.at(i)=v;} double GetEntries()const{return ent;}
  double Integral()const override{ double s=0; for(size_t i=1;i+1<c.size();++i)s+=c[i]; return s; } void Scale(double f,const char* ="")override{ for(auto&x:c)x*=f; }
  TAxis* GetXaxis(){return &ax;} TAxis* GetYaxis(){return &ay;} int GetNbinsX()const{return ax.n;} void SetLineColor(int){} void SetMarkerSize(double){} void SetMinimum(double){} void SetMaximum(double){} void SetFillColor(int){} void SetMarkerColor(int){} double GetBinCenter(int i)const{return ax.GetBinCenter(i);} double GetBinError(int)const{return 0;} void SetBinError(int,double){} void SetDirectory(void*){} };
class TH2 : public TNamed { public: using TNamed::TNamed; };
class TH2D : public TH2 { std::vector<double> c; TAxis ax,ay; double ent=0; public: TH2D(const char*n,const char*t,int nx,double xl,double xh,int ny,double yl,double yh):TH2(n,t),c((nx+2)*(ny+2)){ax.n=nx;ax.lo=xl;ax.hi=xh;ay.n=ny;ay.lo=yl;ay.hi=yh;}
  int Fill(double x,double y,double w=1){ int b=ax.FindBin(x)+(ax.n+2)*ay.FindBin(y); c[b]+=w; ent++; return b; } double GetBinContent(int i,int j)const{return c.at(i+(ax.n+2)*j);} void SetBinContent(int i,int j,double v){c.at(i+(ax.n+2)*j)=v;} double GetEntries()const{return ent;}
  double Integral()const{ double s=0; for(int i=1;i<=ax.n;++i)for(int j=1;j<=ay.n;++j)s+=GetBinContent(i,j); return s; } void Scale(double f){ for(auto&x:c)x*=f; }
  TAxis* GetXaxis(){return &ax;} TAxis* GetYaxis(){return &ay;} void SetLineColor(int){} void SetMarkerSize(double){} void SetMinimum(double){} void SetMaximum(double){} };
class THStack : public TNamed { public: THStack()=default; THStack(const char*n,const char*t):TNamed(n,t){} std::vector<TH1*> h; void Add(TH1*x,const char* =""){h.push_back(x);} };
class TGraph : public TNamed { std::vector<double> x,y; public: TGraph(int n=0):x(n),y(n){} int GetN()const{return (int)x.size();} void SetPoint(int i,double a,double b){ if(i>=(int)x.size()){x.resize(i+1);y.resize(i+1);} x[i]=a;y[i]=b; } const double*GetX()const{return x.data();} const double*GetY()const{return y.data();} double*GetX(){return x.data();} double*GetY(){return y.data();}
  double Eval(double t)const{ if(x.empty())return 0; if(x.size()==1)return y[0]; size_t i=1; while(i+1<x.size()&&x[i]<t)++i; return y[i-1]+(y[i]-y[i-1])*(t-x[i-1])/(x[i]-x[i-1]); } int GetPoint(int i,double&a,double&b)const{a=x[i];b=y[i];return i;} };
class TF1 : public TNamed { public: template<class...A> TF1(A&&...){} }; class TF2 : public TNamed { public: template<class...A> TF2(A&&...){} };
class TDirectory : public TNamed { public: TDirectory()=default; std::map<std::string,TObject*> objs; virtual TObject* Get(const char*n){ auto i=objs.find(n); return i==objs.end()?nullptr:i->second; } virtual TObject* mkdir(const char*){return this;} virtual bool cd(const char* =""){return true;} };
inline TDirectory g_verif_rootstub_dir; inline TDirectory* gDirectory=&g_verif_rootstub_dir;
class TFile : public TDirectory { public: static inline std::map<std::string,TFile*> registry; static TFile* Open(const char*n,const char* =""){ auto i=registry.find(n); return i==registry.end()?nullptr:i->second; } static TFile* Open(const char*n,const char*o,const char*){return Open(n,o);} void Close(const char* =""){} };
inline TFile* gFile=nullptr;
class TROOT : public TDirectory {}; inline TROOT g_verif_rootstub_root; inline TROOT* gROOT=&g_verif_rootstub_root;
class TEventList : public TNamed { public: std::vector<long long> e; int GetN()const{return (int)e.size();} long long GetEntry(int i)const{return e.at(i);} };
namespace rootstub { template<class T> const char* tname(); template<> inline const char* tname<double>(){return "Double_t";} template<> inline const char* tname<float>(){return "Float_t";} template<> inline const char* tname<bool>(){return "Bool_t";} template<> inline const char* tname<int>(){return "Int_t";} template<> inline const char* tname<unsigned>(){return "UInt_t";} template<> inline const char* tname<unsigned long long>(){return "ULong64_t";} template<> inline const char* tname<char>(){return "Char_t";} }
class TLeaf : public TNamed { public: std::string type; const char* GetTypeName()const{return type.c_str();} };
class TBranch : public TNamed { public: TLeaf leaf; size_t sz=8; const void* src=nullptr; void* dst=nullptr; bool on=true; std::vector<char> data; };
class TTree : public TNamed { std::vector<std::unique_ptr<TBranch>> br; std::vector<TObject*> lst; long long n=0; 
  TBranch* find(const std::string&s)const{ for(auto&b:br) if(s==b->GetName()) return b.get(); return nullptr; }
 public: struct ObjArray { std::vector<TObject*>* v; auto begin(){return v->begin();} auto end(){return v->end();} int GetEntries()const{return (int)v->size();} }; ObjArray arr{&lst};
  TTree(const char*n_="",const char*t=""):TNamed(n_,t){}
  template<class T> TBranch* Branch(const char*nm,T*addr,const char* =""){ auto b=std::make_unique<TBranch>(); b->SetName(nm); b->leaf.SetName(nm); b->leaf.type=rootstub::tname<T>(); b->sz=sizeof(T); b->src=addr; lst.push_back(b.get()); br.push_back(std::move(b)); return br.back().get(); }
  int Fill(){ for(auto&b:br){ const char*p=(const char*)b->src; b->data.insert(b->data.end(),p,p+b->sz);} ++n; return 1; }
  ObjArray* GetListOfBranches(){return &arr;} TLeaf* GetLeaf(const char*s){ auto b=find(s); return b?&b->leaf:nullptr; } TBranch* GetBranch(const char*s){return find(s);}
  long long GetEntries()const{return n;} void SetBranchStatus(const char*s,bool on){ if(std::string(s)=="*") for(auto&b:br)b->on=on; else if(auto b=find(s)) b->on=on; }
  int SetBranchAddress(const char*s,void*p){ if(auto b=find(s)) b->dst=p; return 0; }
  int GetEntry(long long i){ if(i<0||i>=n) return 0; for(auto&b:br) if(b->on&&b->dst) std::memcpy(b->dst,b->data.data()+i*b->sz,b->sz); return 1; }
  long long Draw(const char*,const char* ="",const char* =""){return 0;} };

template<class T> T Dot(const TVectorT<T>&a,const TVectorT<T>&b){ T s=0; for(int i=0;i<a.GetNrows();++i)s+=a[i]*b[i]; return s; }
// Stand-in for Minuit2: Newton's method with derivatives by central differences, exact for quadratic functions.
namespace ROOT { namespace Math {
 template<class T> class IGradientFunctionMultiDimTempl { public: virtual ~IGradientFunctionMultiDimTempl()=default; virtual unsigned NDim()const{return 0;} virtual double operator()(const double*)const{return 0;} };
 class Functor { public: std::function<double(const double*)> f; unsigned n=0; Functor()=default; template<class F> Functor(const F& fcn,unsigned dim):f(fcn),n(dim){} };
 class Minimizer { protected: std::function<double(const double*)> m_f; struct V{ std::string n; double v=0,s=0,lo=0,hi=0; bool lim=false; }; std::vector<V> m_v; std::vector<double> m_x,m_e,m_c; int m_status=0; unsigned m_calls=0; double m_edm=0;
  double call(const std::vector<double>&x){ ++m_calls; return m_f(x.data()); }
  std::vector<double> hessian(const std::vector<double>&x0){ int n=m_v.size(); std::vector<double> H(n*n); auto h=[&](int i){ return 0.5+0*i; }; auto x=x0; double f0=call(x0);
   for(int i=0;i<n;++i) for(int j=i;j<n;++j){ x=x0; if(i==j){ x[i]=x0[i]+h(i); double a=call(x); x[i]=x0[i]-h(i); double b=call(x); H[i*n+i]=(a+b-2*f0)/(h(i)*h(i)); } else { double t=0; for(int si:{-1,1}) for(int sj:{-1,1}){ x=x0; x[i]+=si*h(i); x[j]+=sj*h(j); t+=si*sj*call(x); } H[i*n+j]=H[j*n+i]=t/(4*h(i)*h(j)); } } return H; }
  public: virtual ~Minimizer()=default; void SetFunction(const Functor&f){ m_f=f.f; } void SetFunction(const IGradientFunctionMultiDimTempl<double>&f){ m_f=[&f](const double*x){return f(x);}; }
  bool SetVariable(unsigned i,const std::string&n,double v,double s){ if(i>=m_v.size()) m_v.resize(i+1); m_v[i].n=n; m_v[i].v=v; m_v[i].s=s; return true; } bool SetVariableLimits(unsigned i,double lo,double hi){ if(i>=m_v.size()) return false; m_v[i].lo=lo; m_v[i].hi=hi; m_v[i].lim=true; return true; }
  void SetMaxFunctionCalls(unsigned){} void SetMaxIterations(unsigned){} void SetTolerance(double){} void SetPrecision(double){} void SetStrategy(int){} void SetPrintLevel(int){} double ErrorDef()const{return 1;}
  bool Minimize(){ int n=m_v.size(); m_x.assign(n,0); m_e.assign(n,0); m_c.assign(n*n,0); m_calls=0; for(int i=0;i<n;++i) m_x[i]=m_v[i].v; std::vector<char> pin(n,0);
   for(int it=0;it<25&&n;++it){ auto H=hessian(m_x); std::vector<double> gr(n); for(int i=0;i<n;++i){ double h=0.5; auto x=m_x; x[i]=m_x[i]+h; double a=call(x); x[i]=m_x[i]-h; double b=call(x); gr[i]=(a-b)/(2*h); }
    TMatrixD A(n,n); for(int i=0;i<n;++i)for(int j=0;j<n;++j) A(i,j)= pin[i]||pin[j] ? (i==j?1.:0.) : H[i*n+j]; A.Invert(); bool hit=false; double move=0; std::vector<double> nx(n); for(int i=0;i<n;++i){ double d=0; for(int j=0;j<n;++j) if(!pin[j]) d-=A(i,j)*gr[j]; if(pin[i]) d=0; nx[i]=m_x[i]+d; if(m_v[i].lim&&!pin[i]){ if(nx[i]<m_v[i].lo){nx[i]=m_v[i].lo;pin[i]=1;hit=true;} else if(nx[i]>m_v[i].hi){nx[i]=m_v[i].hi;pin[i]=1;hit=true;} } move=std::max(move,std::fabs(nx[i]-m_x[i])/(1e-12+std::fabs(nx[i])+1)); } m_x=nx; if(!hit&&move<1e-10) break; }
   if(n){ auto H=hessian(m_x); TMatrixD A(n,n); for(int i=0;i<n;++i)for(int j=0;j<n;++j)A(i,j)=H[i*n+j]; A.Invert(); for(int i=0;i<n;++i)for(int j=0;j<n;++j)m_c[i*n+j]=A(i,j)+A(j,i); for(int i=0;i<n;++i)m_e[i]=std::sqrt(m_c[i*n+i]); call(m_x); } m_status=0; m_edm=1e-9; return true; }
  const double*X()const{return m_x.data();} const double*Errors()const{return m_e.data();} double CovMatrix(unsigned i,unsigned j)const{return m_c[i*m_v.size()+j];} int Status()const{return m_status;} double Edm()const{return m_edm;} unsigned NCalls()const{return m_calls;} int CovMatrixStatus()const{return 3;}
  bool GetMinosError(unsigned i,double&lo,double&hi,int){ auto x=m_x; double h=m_e[i]; x[i]+=h; call(x); lo=-0.5*h; hi=1.5*h; return true; } };
 } namespace Minuit2 { struct MnVecStub { const double*Data()const{return nullptr;} double operator[](int)const{return 0;} }; struct MnGradStub { MnVecStub Gstep()const{return {};} MnVecStub Vec()const{return {};} }; struct MnErrStub { double Dcovar()const{return 0;} };
 class MinimumState{ public: double Fval()const{return 0;} double Edm()const{return 0;} int NFcn()const{return 0;} bool HasCovariance()const{return false;} MnErrStub Error()const{return {};} MnVecStub Vec()const{return {};} MnGradStub Gradient()const{return {};} };
 class MnTraceObject { public: MnTraceObject(int=0){} virtual ~MnTraceObject()=default; virtual void operator()(int,const MinimumState&){} virtual void Init(const MinimumState&){} };
 class Minuit2Minimizer : public Math::Minimizer { public: Minuit2Minimizer(const char* =""){} void SetTraceObject(MnTraceObject&){} }; }
 namespace Minuit { enum EMinimizerType { kMigrad }; }
 namespace Fit { class FitResult { protected: bool fValid=false; unsigned fNdf=0,fNCalls=0; int fCovStatus=0,fStatus=-1; double fEdm=0,fVal=0; std::vector<double> fCovMatrix,fErrors,fParams; std::vector<std::string> fParNames; std::map<unsigned,std::pair<double,double>> fMinosErrors;
  public: virtual ~FitResult()=default; unsigned NPar()const{return fParams.size();} double Value(unsigned i)const{return fParams.at(i);} double Error(unsigned i)const{return fErrors.at(i);} double CovMatrix(unsigned i,unsigned j)const{ if(i<j)std::swap(i,j); return fCovMatrix.at(j+i*(i+1)/2);} std::string ParName(unsigned i)const{return fParNames.at(i);} double MinFcnValue()const{return fVal;} bool IsValid()const{return fValid;} int Status()const{return fStatus;} double LowerError(unsigned i)const{ auto it=fMinosErrors.find(i); return it==fMinosErrors.end()?fErrors.at(i):it->second.first;} double UpperError(unsigned i)const{ auto it=fMinosErrors.find(i); return it==fMinosErrors.end()?fErrors.at(i):it->second.second;} }; } }
class TMinuitMinimizer : public ROOT::Math::Minimizer { public: TMinuitMinimizer(ROOT::Minuit::EMinimizerType=ROOT::Minuit::kMigrad){} };
#endif
