// Expressions with an independent reference value, used by the just-in-time compilation checks.
#pragma once
#include "util.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/CompilerWrapper.h"
#include "AmpGen/Expression.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/OptionsParser.h"
#include <complex>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <math.h>
namespace jit {
using namespace AmpGen;
typedef std::complex<double> C;
typedef std::function<C(const double* evt,const double* par,const double* lam)> Ref;
constexpr int NE=4, NP=3, NL=2, NQ=2, NK=5, NPAR=NP+NQ+NK+1;   // event variables, parameters, lambdas, parameters of any magnitude, spline knots (and one constant)
inline uint64_t mix(uint64_t a,uint64_t b){ uint64_t z=a+0x9E3779B97F4A7C15ull*(b+1); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
struct Pair { Expression e; Ref f; bool real; };
struct Gen {
  uint64_t s; const double* lam; std::vector<Pair> evt,par,lmb; bool simd;
  Gen(uint64_t seed,const double* lam,const std::vector<Expression>& lx,bool simd=false):s(mix(seed,99)),lam(lam),simd(simd){
    for(int i=0;i<NE;i++) evt.push_back({Parameter("e"+std::to_string(i)),[i](auto e,auto,auto){ return C(e[i]); },true});
    for(int i=0;i<NP;i++) par.push_back({Parameter("p"+std::to_string(i)),[i](auto,auto p,auto){ return C(p[i]); },true});
    for(int i=0;i<NL;i++){ lmb.push_back({lx[i],[i](auto,auto,auto l){ return C(l[i]); },true}); }
  }
  unsigned r(unsigned n){ s=mix(s,7); return s%n; }
  Pair leaf(){ switch(r(8)){ case 0: case 1: case 2: return evt[r(NE)]; case 3: case 4: return par[r(NP)]; case 5: return lmb[r(NL)];
    case 6: { double v=(int)(r(17)+1)*0.25-2.125; return {Expression(v),[v](auto,auto,auto){ return C(v); },true}; }
    default: { C v((int)r(9)*0.5-2.25,(int)r(9)*0.5-1.75); return {Expression(v),[v](auto,auto,auto){ return v; },false}; } } }
  Pair re(const Pair& a){ if(a.real) return a; Ref f=a.f; return {Expression(Real(a.e)),[f](auto e,auto p,auto l){ return C(std::real(f(e,p,l))); },true}; }
  Pair pos(const Pair& a){ Ref f=a.f; if(simd&&a.real) return {a.e*a.e+1.5,[f](auto e,auto p,auto l){ return C(std::norm(f(e,p,l))+1.5); },true}; return {fcn::norm(a.e)+1.5,[f](auto e,auto p,auto l){ return C(std::norm(f(e,p,l))+1.5); },true}; }
  Pair tree(int d){
    if(d==0) return leaf();
    Pair a=tree(d-1); Ref f=a.f;
    switch(r(simd?9:14)){
      case 0: { Pair b=tree(d-1); Ref g=b.f; return {a.e+b.e,[f,g](auto e,auto p,auto l){ return f(e,p,l)+g(e,p,l); },a.real&&b.real}; }
      case 1: { Pair b=tree(d-1); Ref g=b.f; return {a.e-b.e,[f,g](auto e,auto p,auto l){ return f(e,p,l)-g(e,p,l); },a.real&&b.real}; }
      case 2: case 3: { Pair b=tree(d-1); Ref g=b.f; return {a.e*b.e,[f,g](auto e,auto p,auto l){ return f(e,p,l)*g(e,p,l); },a.real&&b.real}; }
      case 4: { Pair b=pos(tree(d-1)); Ref g=b.f; return {a.e/b.e,[f,g](auto e,auto p,auto l){ return f(e,p,l)/g(e,p,l); },a.real&&b.real}; }
      case 5: { Pair b=pos(a); Ref g=b.f; return {fcn::sqrt(b.e),[g](auto e,auto p,auto l){ return C(std::sqrt(std::real(g(e,p,l)))); },true}; }
      case 6: { Pair b=re(a); Ref g=b.f; return {fcn::cos(b.e),[g](auto e,auto p,auto l){ return C(::cos(std::real(g(e,p,l)))); },true}; }
      case 7: { Expression c=make_cse(a.e); Pair b=tree(d-1); Ref g=b.f; return {c*c+b.e,[f,g](auto e,auto p,auto l){ C v=f(e,p,l); return v*v+g(e,p,l); },a.real&&b.real}; }
      case 8: { Pair b=re(tree(d-1)),c=re(leaf()),x=re(a); Ref g=b.f,h=c.f,k=x.f; return {Expression(Ternary(x.e>b.e,c.e,x.e)),[g,h,k](auto e,auto p,auto l){ return std::real(k(e,p,l))>std::real(g(e,p,l))?h(e,p,l):k(e,p,l); },true}; }
      case 9: { Pair b=re(a); Ref g=b.f; return {fcn::sin(b.e),[g](auto e,auto p,auto l){ return C(::sin(std::real(g(e,p,l)))); },true}; }
      case 10:{ if(a.real) return {-a.e,[f](auto e,auto p,auto l){ return -f(e,p,l); },true}; return {fcn::conj(a.e),[f](auto e,auto p,auto l){ return std::conj(f(e,p,l)); },false}; }
      case 11:{ Pair b=pos(a); Ref g=b.f; return {fcn::log(b.e),[g](auto e,auto p,auto l){ return C(::log(std::real(g(e,p,l)))); },true}; }
      case 12:{ Pair b=pos(a); Ref g=b.f; return {fcn::exp(-1./b.e),[g](auto e,auto p,auto l){ return C(::exp(-1./std::real(g(e,p,l)))); },true}; }
      default:{ Pair b=pos(a); Ref g=b.f; return {fcn::isqrt(b.e),[g](auto e,auto p,auto l){ return C(1./::sqrt(std::real(g(e,p,l)))); },true}; }
    }
  }
  Pair make(int expr){ Pair m=make1(); if(expr%4!=3) return m;   // the same function of two different quantities, each to be computed once
    Pair v=evt[r(NE)]; Expression x=make_cse(lmb[0].e*v.e+1.), y=make_cse(lmb[1].e*v.e+1.); Ref f=m.f,g=v.f; return {m.e+x*y*2.-y,[f,g](auto e,auto p,auto l){ C a=l[0]*g(e,p,l)+1., b=l[1]*g(e,p,l)+1.; return f(e,p,l)+a*b*2.-b; },m.real}; }
  Pair make1(){ Pair a=tree(2), b=leaf(), c=make_pair2(); return {a.e*c.e+b.e,[f=a.f,g=b.f,h=c.f](auto e,auto p,auto l){ return f(e,p,l)*h(e,p,l)+g(e,p,l); },a.real&&b.real&&c.real}; }
  Pair make_pair2(){ Pair b=evt[r(NE)], p=par[r(NP)]; return {b.e+p.e,[f=b.f,g=p.f](auto e,auto q,auto l){ return f(e,q,l)+g(e,q,l); },true}; }
};
inline std::map<std::string,unsigned> evt_map(){ std::map<std::string,unsigned> m; for(int i=0;i<NE;i++) m["e"+std::to_string(i)]=i; return m; }
struct World {                                   // parameters shared by the expressions of one process
  MinuitParameterSet mps; double lam[NL]; std::vector<Expression> lx;
  World(){ for(int i=0;i<NP;i++) mps.add("p"+std::to_string(i),Flag::Free,0.5+0.37*i,0.1,0,0); for(int i=0;i<NQ;i++) mps.add("q"+std::to_string(i),Flag::Free,i?1./3:0.1,0.1,0,0); for(int i=0;i<NK;i++) mps.add("S::"+std::to_string(i),Flag::Free,0.25+0.4*((i*3)%5),0.1,0,0); mps.add("k0",Flag::CompileTimeConstant,0.12345678901234568,0,0,0);
    for(int i=0;i<NL;i++){ lam[i]=0.3-0.2*i; const double* q=lam+i; lx.push_back(LambdaExpression([q]{ return *q; })); } }
};
inline void fill_events(std::vector<double>& ev,int n,uint64_t k){ ev.resize(n*NE); for(int i=0;i<n*NE;i++) ev[i]=(double)((long)(mix(k,i)%4001)-2000)/800.; }
typedef CompiledExpression<C(const double*,const double*)> CE;
struct Unit {                                    // one compiled expression and what it must evaluate to
  World* w; Pair pr; std::string name; std::unique_ptr<CE> e; double par[NP], lam[NL]; bool nobatch=false;
  void variant(int v){ nobatch=v==1; if(v==1) e=std::make_unique<CE>(pr.e,name,evt_map(),&w->mps,disableBatch(true)); else e=std::make_unique<CE>(pr.e,name,evt_map(),&w->mps); snap(); } // the same expression without batches or with them
  Unit(World& w,int expr,const std::string& name):w(&w),pr(Gen(expr,w.lam,w.lx).make(expr)),name(name){ e=std::make_unique<CE>(pr.e,name,evt_map(),&w.mps); snap(); }
  void snap(){ for(int i=0;i<NP;i++) par[i]=w->mps.at(i)->mean(); for(int i=0;i<NL;i++) lam[i]=w->lam[i]; }
  void prepare(){ e->prepare(); snap(); }
  static bool close(C a,C b){ double s=std::abs(b); return std::abs(a-b)<=1e-9*(1+s); }
  void verify(const CE& x,uint64_t k,const char* when) const {
    std::vector<double> ev; int n=1+k%3; fill_events(ev,n,k); size_t N=n, es=NE, cs=1+k%2; std::vector<C> out(n*cs,C(77,77)); 
    for(int i=0;i<n;i++){ C want=pr.f(&ev[i*NE],par,lam), got=x(&ev[i*NE]); if(!close(got,want)) sim::fail("wrong-value","%s: '%s' evaluates to (%.12g,%.12g) instead of (%.12g,%.12g)",when,name.c_str(),got.real(),got.imag(),want.real(),want.imag()); }
    if(nobatch) return;
    std::vector<double> ext=x.externBuffer(); ext.push_back(0);
    x.batch(N,es,cs,out.data(),(const double*)ext.data(),(const double*)ev.data());
    for(int i=0;i<n;i++){ C want=pr.f(&ev[i*NE],par,lam), got=out[i*cs]; if(!close(got,want)) sim::fail("wrong-value","%s: element %d of a batch of %d of '%s' is (%.12g,%.12g) instead of (%.12g,%.12g)",when,i,n,name.c_str(),got.real(),got.imag(),want.real(),want.imag()); if(cs==2&&out[i*cs+1]!=C(77,77)) sim::fail("wrong-value","%s: the batch wrote outside its column",when); }
  }
  void verify(uint64_t k,const char* when) const { verify(*e,k,when); }
};
enum Outcome { OK, REPORTED };
inline Outcome try_compile(CompiledExpressionBase& e,const std::string& prefix){
  try { e.compile(prefix); } 
  catch(const std::runtime_error& x){ sim::note("compile reported failure"); sim::probe("compile_failure_reported"); return REPORTED; }
  if(!e.isReady()) sim::fail("not-ready","compilation of '%s' reported success and the expression cannot be evaluated",e.name().c_str());
  sim::probe("compile_ok"); return OK;
}
// names as AmpGen makes them: decay descriptors with characters no C identifier has
inline std::string nm(int expr,int variant=0){ static const char* f[]={"D0{K*(892)bar0,pi0}_%d","expr%d","K(1)(1270)+%d'","2body[S;%d]","f*g-h_%d"}; char b[80]; snprintf(b,80,f[(expr+variant)%5],expr); return b; }
}
