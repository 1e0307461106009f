// Stand-ins for the few CERN ROOT classes AmpGen's event lists and models mention.  TRandom3 draws from the simulator's
// seeded stream; TTree is a small table in memory; everything that only draws plots does nothing.
#pragma once
#include <cmath>
#include <functional>
#include <memory>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <type_traits>
#include <vector>
typedef double Double_t; typedef int Int_t; typedef long long Long64_t; typedef float Float_t; typedef bool Bool_t; typedef const char* Option_t; typedef unsigned UInt_t; typedef unsigned long long ULong64_t; typedef unsigned char UChar_t; typedef short Short_t; typedef unsigned short UShort_t;
class TObject { public: std::string m_n,m_t; TObject(const std::string& n="",const std::string& t=""):m_n(n),m_t(t){} virtual ~TObject()=default; const char* GetName() const { return m_n.c_str(); } const char* GetTitle() const { return m_t.c_str(); } void SetName(const char* n){ m_n=n; } void SetTitle(const char* n){ m_t=n; } int Write(const char* =nullptr); virtual std::string stub_save() const { return ""; } void Draw(const char* =""){} };
inline std::string stub_num(double x){ char b[40]; snprintf(b,40,"%a",x); return b; } inline std::string stub_word(std::string s){ for(auto& c:s) if(c==' '||c=='\n'||c=='\t') c='~'; return s.empty()?"~":s; }
class TAxis : public TObject { public: void SetTitle(const char*){} void SetTitleOffset(double){} double GetBinLowEdge(int) const { return 0; } double GetBinUpEdge(int) const { return 0; } double GetBinCenter(int) const { return 0; } int FindBin(double) const { return 0; } };
template<class T> class TVectorT { public: std::vector<T> d; TVectorT(int n=0):d(n){} T& operator()(int i){ return d.at(i); } T operator()(int i) const { return d.at(i); } T& operator[](int i){ return d.at(i); } T operator[](int i) const { return d.at(i); } int GetNrows() const { return d.size(); } };
typedef TVectorT<double> TVectorD;
template<class T> inline TVectorT<T> operator+(TVectorT<T> a,const TVectorT<T>& b){ for(int i=0;i<a.GetNrows();i++) a[i]+=b[i]; return a; }
template<class T> inline T Dot(const TVectorT<T>& a,const TVectorT<T>& b){ T s=0; for(int i=0;i<a.GetNrows();i++) s+=a[i]*b[i]; return s; }
[[noreturn]] void stub_matrix_index(int i,int j,int n,int m);   // a wrong index is an error in ROOT too
template<class T> class TMatrixT { public: int n=0,m=0; std::vector<T> d; enum EMatrixCreatorsOp1 { kTransposed }; TMatrixT()=default; TMatrixT(int n,int m):n(n),m(m),d(n*m){} T& at(int i,int j){ if(i<0||j<0||i>=n||j>=m) stub_matrix_index(i,j,n,m); return d[i*m+j]; } T at(int i,int j) const { return const_cast<TMatrixT*>(this)->at(i,j); }
  TMatrixT(EMatrixCreatorsOp1,const TMatrixT& o):n(o.m),m(o.n),d(o.d.size()){ for(int i=0;i<n;i++) for(int j=0;j<m;j++) at(i,j)=o.at(j,i); } TMatrixT(EMatrixCreatorsOp1,const TVectorT<T>& o):n(1),m(o.GetNrows()),d(o.d){}
  T& operator()(int i,int j){ return at(i,j); } T operator()(int i,int j) const { return at(i,j); } int GetNrows() const { return n; } int GetNcols() const { return m; } void ResizeTo(int a,int b){ TMatrixT r(a,b); for(int i=0;i<a&&i<n;i++) for(int j=0;j<b&&j<m;j++) r.at(i,j)=at(i,j); *this=r; }
  struct Row { TMatrixT* t; int i; T& operator[](int j){ return t->at(i,j); } }; struct CRow { const TMatrixT* t; int i; T operator[](int j) const { return t->at(i,j); } }; Row operator[](int i){ return {this,i}; } CRow operator[](int i) const { return {this,i}; } TMatrixT& operator*=(T x){ for(auto& v:d) v*=x; return *this; }
  TMatrixT& Invert(){ TMatrixT a(*this),r(n,n); for(int i=0;i<n;i++) r.at(i,i)=1; for(int k=0;k<n;k++){ int p=k; for(int i=k;i<n;i++) if(std::fabs(a.at(i,k))>std::fabs(a.at(p,k))) p=i; for(int j=0;j<n;j++){ std::swap(a.at(k,j),a.at(p,j)); std::swap(r.at(k,j),r.at(p,j)); } T q=a.at(k,k); for(int j=0;j<n;j++){ a.at(k,j)/=q; r.at(k,j)/=q; } for(int i=0;i<n;i++) if(i!=k){ T f=a.at(i,k); for(int j=0;j<n;j++){ a.at(i,j)-=f*a.at(k,j); r.at(i,j)-=f*r.at(k,j); } } } return *this=r; } };
template<class T> class TMatrixTSym : public TMatrixT<T> { public: TMatrixTSym()=default; explicit TMatrixTSym(int n):TMatrixT<T>(n,n){} };
template<class T> inline TVectorT<T> operator*(const TMatrixT<T>& a,const TVectorT<T>& x){ TVectorT<T> r(a.GetNrows()); for(int i=0;i<a.GetNrows();i++) for(int j=0;j<a.GetNcols();j++) r[i]+=a(i,j)*x[j]; return r; }
typedef TMatrixT<double> TMatrixD;
class TDecompChol { public: TMatrixD a,u; TDecompChol(const TMatrixD& m):a(m),u(m.n,m.m){} bool Decompose(){ int n=a.n; for(int i=0;i<n;i++) for(int j=i;j<n;j++){ double s=a(i,j); for(int k=0;k<i;k++) s-=u(k,i)*u(k,j); if(i==j) u(i,i)=std::sqrt(s); else u(i,j)=s/u(i,i); } return true; } const TMatrixD& GetU() const { return u; } };
class TH1 : public TObject { public: TAxis ax; int nb=0; double lo=0,hi=0; std::vector<double> c; TH1()=default; TH1(const char* n,const char* t,int nb,double lo,double hi):TObject(n,t),nb(nb),lo(lo),hi(hi),c(nb+2){} 
  double n=0; std::string stub_save() const override { std::string o="H "+stub_word(m_n)+" "+stub_num(n)+" "+std::to_string(c.size()); for(double x:c) o+=" "+stub_num(x); return o+"\n"; } double GetEntries() const { return n; } int Fill(double x,double w=1){ n++; int b=x<lo?0:x>=hi?nb+1:1+(int)((x-lo)/(hi-lo)*nb); if(b>nb+1) b=nb+1; c[b]+=w; return b; } TAxis* GetXaxis(){ return &ax; } TAxis* GetYaxis(){ return &ax; } void SetDirectory(void*){} double Integral() const { double s=0; for(int i=1;i+1<(int)c.size();i++) s+=c[i]; return s; } double GetBinContent(int i) const { return c[i]; } void SetBinContent(int i,double v){ c[i]=v; } int GetNbinsX() const { return nb; } double GetBinWidth(int) const { return (hi-lo)/nb; } void Scale(double s){ for(auto& x:c) x*=s; } void SetMinimum(double){} void SetLineColor(int){} void SetMarkerSize(double){} void SetDrawOption(const char*){} void SetFillColor(int){} void SetMarkerColor(int){} void SetLineWidth(int){} void Add(TH1*,double=1){} };
class TH1D : public TH1 { public: using TH1::TH1; };
class TH1F : public TH1 { public: using TH1::TH1; };
class TH2 : public TH1 { public: int nby=0; double loy=0,hiy=0; std::vector<double> c2; TH2()=default; TH2(const char* n,const char* t,int a,double b,double d,int e,double f,double g):TH1(n,t,a,b,d),nby(e),loy(f),hiy(g),c2((a+2)*(e+2)){} int Fill(double x,double y,double w=1){ int i=TH1::Fill(x,w), j=y<loy?0:y>=hiy?nby+1:1+(int)((y-loy)/(hiy-loy)*nby); if(j>nby+1) j=nby+1; i+=(nb+2)*j; c2[i]+=w; return i; } };
class TH2D : public TH2 { public: using TH2::TH2; };
class THStack : public TObject { public: THStack(const char* n="",const char* t=""):TObject(n,t){} std::vector<TH1*> h; void Add(TH1* x,const char* =""){ h.push_back(x); } };
class TGraph : public TObject { public: int N=0; std::vector<std::pair<double,double>> pts; void SetPoint(int i,double x,double y){ if(i>=N){ N=i+1; pts.resize(N); } pts[i]={x,y}; } int GetN() const { return N; } double Eval(double) const { return 0; } };
class TBranch : public TObject { public: using TObject::TObject; };
// a table in memory: columns of doubles or of other numbers, filled from and read into addresses as ROOT does
struct StubColumn : public TObject { std::string type; void* out=nullptr; void* in=nullptr; bool on=true; std::vector<double> v; };
template<class T> inline const char* stub_type(){ return "Double_t"; } template<> inline const char* stub_type<float>(){ return "Float_t"; } template<> inline const char* stub_type<int>(){ return "Int_t"; } template<> inline const char* stub_type<bool>(){ return "Bool_t"; } template<> inline const char* stub_type<unsigned>(){ return "UInt_t"; } template<> inline const char* stub_type<unsigned long long>(){ return "ULong64_t"; }
class TLeaf : public TObject { public: std::string type; TLeaf(const std::string& n,const std::string& t):TObject(n),type(t){} const char* GetTypeName() const { return type.c_str(); } };
class TTree : public TObject { public: std::vector<TObject*> br; Long64_t n=0; std::vector<TLeaf*> leaves; TTree(const char* nm="",const char* t=""):TObject(nm,t){} 
  StubColumn* col(const std::string& k){ for(auto* b:br) if(b->m_n==k) return (StubColumn*)b; return nullptr; }
  template<class T> void Branch(const char* nm,T* a){ auto* c=new StubColumn; c->m_n=nm; c->type=stub_type<std::remove_cv_t<T>>(); c->out=(void*)a; c->v.resize(n); br.push_back(c); } 
  static double get(const std::string& t,const void* a){ return t=="Float_t"?*(float*)a:t=="Int_t"?*(int*)a:t=="Bool_t"?*(bool*)a:t=="UInt_t"?*(unsigned*)a:t=="ULong64_t"?(double)*(unsigned long long*)a:*(double*)a; }
  static void put(const std::string& t,void* a,double v){ if(t=="Float_t") *(float*)a=v; else if(t=="Int_t") *(int*)a=v; else if(t=="Bool_t") *(bool*)a=v; else if(t=="UInt_t") *(unsigned*)a=v; else if(t=="ULong64_t") *(unsigned long long*)a=v; else *(double*)a=v; }
  int Fill(){ for(auto* b:br){ auto* c=(StubColumn*)b; c->v.push_back(get(c->type,c->out)); } n++; return 1; } Long64_t GetEntries() const { return n; } std::vector<TObject*>* GetListOfBranches(){ return &br; } 
  void SetBranchStatus(const char* k,bool on){ std::string w=k; for(auto* b:br) if(w=="*"||b->m_n==w) ((StubColumn*)b)->on=on; } int SetBranchAddress(const char* k,void* a){ auto* c=col(k); if(!c) return -1; c->in=a; return 0; } 
  int GetEntry(Long64_t i){ if(i<0||i>=n) return 0; for(auto* b:br){ auto* c=(StubColumn*)b; if(c->on&&c->in) put(c->type,c->in,c->v[i]); } return 1; } TLeaf* GetLeaf(const char* k){ auto* c=col(k); if(!c) return nullptr; leaves.push_back(new TLeaf(k,c->type)); return leaves.back(); } void Draw(const char*,const char*); void SetDirectory(void*){} void AddFriend(const char*,const char*);
  std::string stub_save() const override { std::string o="T "+stub_word(m_n)+" "+std::to_string(n)+" "+std::to_string(br.size())+"\n"; for(auto* b:br){ auto* c=(StubColumn*)b; o+=stub_word(c->m_n)+" "+c->type; for(double x:c->v) o+=" "+stub_num(x); o+="\n"; } return o; }
  // cuts are comparisons of columns with numbers, all of which have to hold
  bool passes(Long64_t i,std::string cut){ std::string t; for(char c:cut) if(c!=' ') t+=c; size_t at=0; while(at<t.size()){ size_t e=t.find("&&",at); std::string one=t.substr(at,e==std::string::npos?e:e-at); at=e==std::string::npos?t.size():e+2; if(one.empty()||one=="1") continue; size_t k=one.find_first_of("<>"); auto* c=k==std::string::npos?nullptr:col(one.substr(0,k)); if(!c) return false; double v=c->v[i],w=strtod(one.c_str()+k+1,nullptr); if(one[k]=='<'?!(v<w):!(v>w)) return false; } return true; } };
class TEventList : public TObject { public: std::vector<Long64_t> v; int GetN() const { return v.size(); } Long64_t GetEntry(int i) const { return v.at(i); } };
class TDirectory : public TObject { public: std::map<std::string,TObject*> in; virtual TObject* Get(const char* k){ auto i=in.find(k); return i==in.end()?nullptr:i->second; } bool cd(); };
// files: those a check puts into all() are in memory; others are created, opened and closed on the simulated disk
int stub_open(const char* path,bool write); void stub_store(const std::string& path,const std::string& text); std::string stub_load(const std::string& path);
class TFile : public TDirectory { public: static std::map<std::string,TFile*>& all(){ static std::map<std::string,TFile*> m; return m; } int opened=0; bool writable=false; std::string path,text; 
  static TFile* Open(const char* k,const char* mode=""); void Close(){ opened--; if(writable){ writable=false; stub_store(path,text); } stub_leave(this); } int Write(const char* =nullptr){ return 0; } bool IsZombie() const { return false; } static void stub_leave(TFile*); };
class TROOT : public TObject {};
inline TFile* gFile=nullptr; inline TDirectory stub_memory; inline TDirectory* gDirectory=&stub_memory; inline TROOT* gROOT=nullptr;
inline bool TDirectory::cd(){ gDirectory=this; if(auto* f=dynamic_cast<TFile*>(this)) gFile=f; return true; }
inline void TFile::stub_leave(TFile* f){ if(gFile==f) gFile=nullptr; if(gDirectory==f) gDirectory=&stub_memory; }
inline int TObject::Write(const char*){ auto* f=dynamic_cast<TFile*>(gDirectory); if(!f||!f->writable) return 0; f->text+=stub_save(); return 1; }
// columns of a friend are seen like those of the tree
inline void TTree::AddFriend(const char* tree,const char* file){ auto *d=gDirectory; auto* o=gFile; TFile* f=TFile::Open(file,"READ"); TTree* t=f?(TTree*)f->Get(tree):nullptr; gDirectory=d; gFile=o; if(t&&t->n==n) for(auto* b:t->br) if(!col(b->m_n)) br.push_back(b); }
inline void TTree::Draw(const char* to,const char* cut){ std::string t=to; if(t.substr(0,2)!=">>") return; auto* l=new TEventList; l->m_n=t.substr(2); for(Long64_t i=0;i<n;i++) if(passes(i,cut)) l->v.push_back(i); gDirectory->in[l->m_n]=l; }
class TRandom : public TObject { public: unsigned long long s=65539; virtual ~TRandom()=default; TRandom(unsigned seed=65539):s(seed){} virtual void SetSeed(unsigned long x=0){ s=x; } virtual unsigned GetSeed() const { return s; } 
  virtual double Rndm(){ s+=0x9E3779B97F4A7C15ull; unsigned long long z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; z^=z>>31; return ((z>>12)+0.5)/4503599627370496.; }
  double Uniform(double a=1){ return a*Rndm(); } double Uniform(double a,double b){ return a+(b-a)*Rndm(); } double Gaus(double m=0,double sd=1){ double u=Rndm(),v=Rndm(); return m+sd*std::sqrt(-2*std::log(u))*std::cos(6.283185307179586*v); } double Exp(double t){ return -t*std::log(Rndm()); } unsigned Integer(unsigned n){ return (unsigned)(Rndm()*n); } void Sphere(double& x,double& y,double& z,double r){ double a=0,b=0,r2=1; while(r2>0.25){ a=Rndm()-0.5; b=Rndm()-0.5; r2=a*a+b*b; } z=r*(-1+8*r2); double sc=8*r*std::sqrt(0.25-r2); x=a*sc; y=b*sc; } int Poisson(double m){ double L=std::exp(-m),p=1; int k=0; do { k++; p*=Rndm(); } while(p>L); return k-1; } void RndmArray(int n,double* a){ for(int i=0;i<n;i++) a[i]=Rndm(); } };
class TRandom3 : public TRandom { public: using TRandom::TRandom; };
inline TRandom3* gRandom=new TRandom3();
class TVector3 { public: double fx=0,fy=0,fz=0; TVector3(double fx=0,double fy=0,double fz=0):fx(fx),fy(fy),fz(fz){} double x() const { return fx; } double y() const { return fy; } double z() const { return fz; } double X() const { return fx; } double Y() const { return fy; } double Z() const { return fz; } double Dot(const TVector3& o) const { return fx*o.fx+fy*o.fy+fz*o.fz; } double Mag2() const { return Dot(*this); } double Mag() const { return std::sqrt(Mag2()); } TVector3 Cross(const TVector3& o) const { return {fy*o.fz-fz*o.fy,fz*o.fx-fx*o.fz,fx*o.fy-fy*o.fx}; } TVector3 Unit() const { double m=Mag(); return {fx/m,fy/m,fz/m}; } TVector3 operator-() const { return {-fx,-fy,-fz}; } TVector3 operator+(const TVector3& o) const { return {fx+o.fx,fy+o.fy,fz+o.fz}; } TVector3 operator-(const TVector3& o) const { return {fx-o.fx,fy-o.fy,fz-o.fz}; } double Theta() const { return std::acos(fz/Mag()); } double Phi() const { return std::atan2(fy,fx); } double Angle(const TVector3& o) const { return std::acos(Dot(o)/Mag()/o.Mag()); } void Rotate(double,const TVector3&){} void RotateUz(const TVector3&){} };
inline TVector3 operator*(double a,const TVector3& v){ return {a*v.fx,a*v.fy,a*v.fz}; } inline TVector3 operator*(const TVector3& v,double a){ return a*v; }
class TLorentzVector { public: TVector3 p; double e=0; TLorentzVector(const double* v):p(v[0],v[1],v[2]),e(v[3]){} TLorentzVector(double x=0,double y=0,double z=0,double e=0):p(x,y,z),e(e){} double Px() const { return p.fx; } double Py() const { return p.fy; } double Pz() const { return p.fz; } double X() const { return p.fx; } double Y() const { return p.fy; } double Z() const { return p.fz; } double T() const { return e; } double E() const { return e; } double P() const { return p.Mag(); } double Rho() const { return p.Mag(); } double Mag2() const { return e*e-p.Mag2(); } double M2() const { return Mag2(); } double Mag() const { return std::sqrt(Mag2()); } double M() const { return Mag(); } double Dot(const TLorentzVector& o) const { return e*o.e-p.Dot(o.p); } TVector3 Vect() const { return p; } TVector3 BoostVector() const { return (1/e)*p; } TLorentzVector operator+(const TLorentzVector& o) const { TLorentzVector r; r.p=p+o.p; r.e=e+o.e; return r; } TLorentzVector operator-(const TLorentzVector& o) const { TLorentzVector r; r.p=p-o.p; r.e=e-o.e; return r; } TLorentzVector& operator+=(const TLorentzVector& o){ return *this=*this+o; } void SetXYZM(double x,double y,double z,double m){ p={x,y,z}; e=std::sqrt(p.Mag2()+m*m); } void SetPxPyPzE(double x,double y,double z,double t){ p={x,y,z}; e=t; } void SetXYZT(double x,double y,double z,double t){ p={x,y,z}; e=t; } void SetVect(const TVector3& v){ p=v; }
  void Boost(const TVector3& b){ double b2=b.Mag2(); if(b2==0) return; double g=1/std::sqrt(1-b2),bp=b.Dot(p),g2=(g-1)/b2; p=p+(g2*bp+g*e)*b; e=g*(e+bp); } void Boost(double x,double y,double z){ Boost(TVector3(x,y,z)); } void Rotate(double a,const TVector3& v){ p.Rotate(a,v); } double operator[](int i) const { return i==0?p.fx:i==1?p.fy:i==2?p.fz:e; } double Theta() const { return p.Theta(); } double Phi() const { return p.Phi(); } };
enum { kBlack=1, kRed=632, kBlue=600, kGreen=416, kMagenta=616, kWhite=0 };
namespace TMath { inline double ATan2(double y,double x){ return std::atan2(y,x); } inline double Pi(){ return 3.14159265358979323846; } inline double Sqrt(double x){ return std::sqrt(x); } inline double ACos(double x){ return std::acos(x); } inline double Abs(double x){ return std::fabs(x); } }
