// Stand-ins for the interfaces of ROOT's minimisers.  Minimize() is a pattern search of its own, which evaluates the function as
// a minimiser does, ends at a point it evaluated earlier, and states errors and a covariance matrix of its choosing.
#pragma once
#include "root.h"
namespace ROOT {
namespace Math {
  class IBaseFunctionMultiDim { public: virtual ~IBaseFunctionMultiDim()=default; virtual double operator()(const double*) const =0; virtual unsigned NDim() const =0; };
  template<class T> class IGradientFunctionMultiDimTempl : public IBaseFunctionMultiDim { public: virtual void Gradient(const T*,T*) const {} };
  class Functor : public IBaseFunctionMultiDim { std::function<double(const double*)> f; unsigned n; public: template<class G> Functor(const G& g,unsigned n):f(g),n(n){} double operator()(const double* x) const override { return f(x); } unsigned NDim() const override { return n; } };
  class Minimizer { public: struct Var { std::string name; double x=0,step=0,lo=0,hi=0; }; std::vector<Var> vars; const IBaseFunctionMultiDim* fcn=nullptr; std::vector<double> x,err,cov; double val=0; unsigned calls=0,max=100000; int status=0; 
    virtual ~Minimizer()=default; double ErrorDef() const { return 1; } void SetMaxFunctionCalls(unsigned n){ max=n; } void SetMaxIterations(unsigned){} void SetTolerance(double){} void SetPrecision(double){} void SetStrategy(int){} void SetPrintLevel(int){}
    bool SetVariable(unsigned i,const std::string& n,double v,double s){ if(i>=vars.size()) vars.resize(i+1); vars[i]=Var{n,v,s,0,0}; return true; } bool SetVariableLimits(unsigned i,double lo,double hi){ vars.at(i).lo=lo; vars.at(i).hi=hi; return true; } std::shared_ptr<IBaseFunctionMultiDim> copy; void SetFunction(const IBaseFunctionMultiDim& f){ fcn=&f; }
    double eval(const std::vector<double>& p){ calls++; return (*fcn)(p.data()); }
    bool Minimize(){ size_t n=vars.size(); x.clear(); std::vector<double> s; calls=0; for(auto& v:vars){ x.push_back(v.x); s.push_back(v.step>0?v.step:0.1); } val=eval(x); int small=0; for(int it=0;it<400&&small<14&&calls<max;it++){ bool moved=false; for(size_t i=0;i<n;i++) for(int d=-1;d<=1;d+=2){ auto p=x; p[i]+=d*s[i]; if(vars[i].lo!=0||vars[i].hi!=0) if(p[i]<vars[i].lo||p[i]>vars[i].hi) continue; double f=eval(p); if(f<val){ val=f; x=p; moved=true; break; } } if(!moved){ small++; for(auto& v:s) v/=2; } }
      err.clear(); cov.assign(n*n,0); for(size_t i=0;i<n;i++){ err.push_back(0.01*(i+1)); for(size_t j=0;j<n;j++) cov[i*n+j]=1e-4*(i+1)*(j+1)*(i==j?1:0.25/(1+(i>j?i-j:j-i))); } status=calls>=max||small<14?4:0; return status==0; }
    const double* X() const { return x.data(); } const double* Errors() const { return err.data(); } double CovMatrix(unsigned i,unsigned j) const { return cov.at(i*vars.size()+j); } int Status() const { return status; } int CovMatrixStatus() const { return 3; } double Edm() const { return 1e-5; } unsigned NCalls() const { return calls; } double MinValue() const { return val; }
    bool GetMinosError(unsigned i,double& lo,double& hi,int =0){ std::vector<double> p=x; lo=-1.25*err.at(i); hi=1.5*err.at(i); p.at(i)+=hi; eval(p); p.at(i)=x[i]+lo; eval(p); return true; } };
}
namespace Fit { class FitResult { public: virtual ~FitResult()=default; unsigned NPar() const { return fParams.size(); } std::vector<double> fCovMatrix,fErrors,fParams; std::vector<std::string> fParNames; std::map<unsigned,std::pair<double,double>> fMinosErrors; unsigned fNdf=0,fNCalls=0; int fCovStatus=0,fStatus=0; double fEdm=0,fVal=0; bool fValid=false; const std::vector<double>& Parameters() const { return fParams; } const std::vector<double>& Errors() const { return fErrors; } }; }
namespace Minuit2 {
  struct StubVector { std::vector<double> v; const double* Data() const { return v.data(); } double operator[](unsigned i) const { return v.at(i); } };
  struct StubGradient { StubVector g; const StubVector& Vec() const { return g; } const StubVector& Gstep() const { return g; } };
  struct StubError { double Dcovar() const { return 0; } };
  class MinimumState { public: StubVector x; StubGradient g; double Fval() const { return 0; } double Edm() const { return 0; } int NFcn() const { return 0; } bool HasCovariance() const { return true; } StubError Error() const { return {}; } const StubVector& Vec() const { return x; } const StubGradient& Gradient() const { return g; } };
  class MnTraceObject { public: virtual ~MnTraceObject()=default; virtual void operator()(int,const MinimumState&){} };
  class Minuit2Minimizer : public Math::Minimizer { public: Minuit2Minimizer(const char* =""){} void SetTraceObject(MnTraceObject&){} };
}
namespace Minuit { enum EMinimizerType { kMigrad }; }
}
class TMinuitMinimizer : public ROOT::Math::Minimizer { public: TMinuitMinimizer(ROOT::Minuit::EMinimizerType){} };
