// Live expressions of several kinds, each with its own snapshot of the parameters it must evaluate with (P08)
#pragma once
#include "jit.h"
#include "AmpGen/Spline.h"
#include "AmpGen/Tensor.h"
#include "AmpGen/Types.h"
#include <dlfcn.h>
namespace jit {
struct Def { int mode; std::vector<Pair> c; bool exact; Expression whole; std::string name; };  // mode 0 complex, 1 real, 2 tensor by output argument, 3 vectorised
// values a parameter may take, some of which differ by very little
inline double wild(int i){ static const double v[]={0,1e-13,-1e-13,1e-11,1e-9,1,1.0000000000000002,0.1,0.10000000000000002,0.1000000001,-1,1e12,1e12+1,123456.789,123456.78901,-0.0625,1./3,7e-5}; return v[i]; }
constexpr int NWILD=18;
// natural cubic spline through equidistant knots on [-2,2], the last knot outside
inline double spline(double x,const double* y){ const int n=NK; double lo=-2,hi=2,h=(hi-lo)/(n-1); if(!(x>lo&&x<hi)) return y[n-1];
  double m[n]={0},c[n],d[n]; c[1]=0.25; d[1]=0; for(int i=1;i<n-1;i++){ double r=6*(y[i+1]-2*y[i]+y[i-1])/(h*h), den=4-(i>1?c[i-1]:0); c[i]=1/den; d[i]=(r-(i>1?d[i-1]:0))/den; } for(int i=n-2;i>=1;i--) m[i]=d[i]-(i<n-2?c[i]*m[i+1]:0);
  int b=(int)((x-lo)/h); double t=x-lo-b*h; return y[b]+((y[b+1]-y[b])/h-(m[b+1]+2*m[b])*h/6)*t+m[b]*t*t/2+t*t*t*(m[b+1]-m[b])/(6*h); }
constexpr int NKIND=22;
inline std::shared_ptr<Def> make_def(World& w,int kind,const std::string& name){
  auto d=std::make_shared<Def>(); d->name=name; d->exact=false; d->mode=0; Gen g(kind,w.lam,w.lx,kind>=16&&kind<18); 
  auto lin=[&](int rot){ Pair q0{Parameter("q0"),[](auto,auto p,auto){ return C(p[NP]); },true}, q1{Parameter("q1"),[](auto,auto p,auto){ return C(p[NP+1]); },true}, k0{Parameter("k0"),[](auto,auto p,auto){ return C(p[NP+NQ+NK]); },true}, df{Parameter("unset",0.7000000000000012),[](auto,auto,auto){ return C(0.7000000000000012); },true}, ct{Expression(0.98765432109876543),[](auto,auto,auto){ return C(0.98765432109876543); },true};
    std::vector<Pair> f={q0,q1,g.par[0],g.lmb[0],k0,df,ct,g.lmb[1]}; Pair r=g.evt[0]; for(int i=0;i<NE;i++){ Pair a=f[(rot*NE+i)%8], e=g.evt[i]; Expression x=a.e*e.e; Ref y=[u=a.f,i](auto ev,auto p,auto l){ return u(ev,p,l)*ev[i]; }; if(i==0) r={x,y,true}; else { Ref z=r.f; r={r.e+x,[z,y](auto ev,auto p,auto l){ return z(ev,p,l)+y(ev,p,l); },true}; } } return r; };
  if(kind<12) d->c={g.make(kind)};
  else if(kind<14){ d->mode=1; d->c={g.re(g.make(kind))}; }
  else if(kind<16){ d->mode=2; d->c={g.make1(),g.leaf(),g.tree(1)}; if(kind==15) d->c.push_back(lin(0)); }
  else if(kind<18){ d->mode=3; d->c={g.make1()}; }
  else if(kind<20){ d->c={lin(kind-18)}; d->exact=true; }
  else { d->mode=kind==20?0:1; Pair x=kind==20?g.evt[1]:g.re(g.evt[2]); Ref f=x.f; Pair a=g.re(g.tree(1)); Expression s=Spline("S",NK,-2,2)(x.e,nullptr); d->c={{s*a.e+g.par[1].e,[f,h=a.f](auto e,auto p,auto l){ return spline(f(e,p,l).real(),p+NP+NQ)*h(e,p,l)+p[1]; },true}}; }
  if(d->mode==2){ std::vector<Expression> v; for(auto& p:d->c) v.push_back(p.e); d->whole=TensorExpression(Tensor(v,Tensor::dim(v.size()))); } else d->whole=d->c[0].e;
  return d;
}
typedef CompiledExpression<double(const double*,const double*)> RE;
typedef CompiledExpression<void(C*,const size_t*,const double*,const double*)> TE;
typedef CompiledExpression<complex_v(const real_t*,const real_v*)> VE;
struct Snap { double par[NPAR], lam[NL]; };
struct Live {
  World* w; std::shared_ptr<Def> d; Snap s; bool ready=false;
  virtual ~Live()=default; virtual CompiledExpressionBase& base()=0; virtual std::unique_ptr<Live> clone()=0; virtual bool assign(Live&,bool move)=0; virtual void shift()=0; virtual bool flag(bool reset)=0;
  virtual C eval(int i,const double* e)=0; virtual void batch(size_t n,size_t cs,const std::vector<double>& ev,std::vector<C>& out)=0;
  Snap now() const { Snap r; for(int i=0;i<NPAR;i++) r.par[i]=w->mps.at(i)->mean(); for(int i=0;i<NL;i++) r.lam[i]=w->lam[i]; return r; }
  void update(){ auto a=base().externBuffer(); bool was=flag(false); base().prepare(); s=now(); auto b=base().externBuffer(); if(a!=b&&!flag(false)) sim::fail("missed-change","an update changed the parameters of '%s' and does not say so",d->name.c_str()); (void)was; }
  void want(C got,C want,const char* when,int i){ bool ok=d->exact?got==want:Unit::close(got,want); if(!ok) sim::fail("wrong-value","%s: component %d of '%s' evaluates to (%.17g,%.17g) instead of (%.17g,%.17g)",when,i,d->name.c_str(),got.real(),got.imag(),want.real(),want.imag()); }
  void verify(uint64_t k,const char* when){
    std::vector<double> ev; int n=d->exact?NE:4; if(d->exact){ ev.assign(NE*NE,0); for(int i=0;i<NE;i++) ev[i*NE+i]=1; } else fill_events(ev,n,k);
    int nc=d->c.size(); if(!base().isReady()) sim::fail("not-ready","%s: '%s' can no longer be evaluated",when,d->name.c_str());
    for(int i=0;i<n;i++) for(int c=0;c<nc;c++) want(eval(c,&ev[i*NE]),d->c[c].f(&ev[i*NE],s.par,s.lam),when,c);
    size_t cs=nc+k%2; std::vector<C> out(n*cs,C(77,77)); batch(n,cs,ev,out);
    for(int i=0;i<n;i++) for(size_t c=0;c<cs;c++){ if((int)c<nc) want(out[i*cs+c],d->c[c].f(&ev[i*NE],s.par,s.lam),when,c); else if(out[i*cs+c]!=C(77,77)) sim::fail("wrong-value","%s: the batch wrote outside its column",when); }
  }
};
template<class X,int M> struct LiveT : Live {
  std::unique_ptr<X> x;
  CompiledExpressionBase& base() override { return *x; }
  std::unique_ptr<Live> clone() override { auto r=std::make_unique<LiveT>(); r->w=w; r->d=d; r->s=s; r->ready=ready; r->x=std::make_unique<X>(*x); return r; }
  bool assign(Live& o,bool move) override { auto q=dynamic_cast<LiveT*>(&o); if(!q) return false; if(move){ X t(*q->x); *x=std::move(t); } else *x=*q->x; d=o.d; s=o.s; ready=o.ready; return true; }
  void shift() override { X t(std::move(*x)); x=std::make_unique<X>(std::move(t)); }
  bool flag(bool reset) override { if(reset) x->resetExternals(); return x->hasExternalsChanged(); }
  std::vector<double> ext(){ auto e=x->externBuffer(); e.push_back(0); return e; }
  C eval(int c,const double* e) override {
    if constexpr(M==0||M==1) return (*x)(e);
    else if constexpr(M==2){ std::vector<double> b=ext(); std::vector<C> o(16,C(5,5)); std::vector<size_t> s; for(size_t j=0;j<d->c.size();j++) s.push_back((j*5+1)%11); C* op=o.data(); const size_t* sp=s.data(); const double* bp=b.data(); (*x)(op,sp,bp,e); return o[s[c]]; }
    else { real_v v[NE]; for(int i=0;i<NE;i++) v[i]=real_v(e[i]); auto r=(*x)(v); C z(r.real().at(0),r.imag().at(0)); for(unsigned l=1;l<real_v::size;l++) if(C(r.real().at(l),r.imag().at(l))!=z) sim::fail("wrong-value","the lanes of '%s' differ for the same event: (%.17g,%.17g) and (%.17g,%.17g)",d->name.c_str(),z.real(),z.imag(),r.real().at(l),r.imag().at(l)); return z; }
  }
  void batch(size_t n,size_t cs,const std::vector<double>& ev,std::vector<C>& out) override {
    std::vector<double> b=ext(); size_t es=NE; const double* bp=b.data(); const double* ep=ev.data();
    if constexpr(M==0) x->batch(n,es,cs,out.data(),bp,ep);
    else if constexpr(M==1){ std::vector<double> o(n*cs,77); x->batch(n,es,cs,o.data(),bp,ep); for(size_t i=0;i<o.size();i++) out[i]=o[i]==77&&i%cs?C(77,77):C(o[i]); }
    else if constexpr(M==2){ std::vector<size_t> s; for(size_t j=0;j<d->c.size();j++) s.push_back(j); const size_t* sp=s.data(); x->batch(n,es,cs,nullptr,out.data(),sp,bp,ep); }
    else { // lanes hold consecutive events
      size_t L=real_v::size, nb=(n+L-1)/L; std::vector<real_v> v(nb*NE); for(size_t b2=0;b2<nb;b2++) for(int i=0;i<NE;i++){ double t[8]={0}; for(size_t l=0;l<L;l++) t[l]=ep[std::min(b2*L+l,n-1)*NE+i]; v[b2*NE+i]=real_v(t); }
      std::vector<complex_v> o(nb*cs,complex_v(real_v(77.),real_v(77.))); x->batch(nb,es,cs,o.data(),bp,(const real_v*)v.data()); for(size_t i=0;i<n;i++) for(size_t c=0;c<cs;c++) out[i*cs+c]=C(o[i/L*cs+c].real().at(i%L),o[i/L*cs+c].imag().at(i%L)); }
  }
};
template<class X,int M> std::unique_ptr<Live> live1(World& w,std::shared_ptr<Def> d,bool wp){ auto r=std::make_unique<LiveT<X,M>>(); r->w=&w; r->d=d; if(wp) r->x=std::make_unique<X>(d->whole,d->name,evt_map(),&w.mps,includeParameters(true)); else r->x=std::make_unique<X>(d->whole,d->name,evt_map(),&w.mps); r->s=r->now(); return r; }
inline std::unique_ptr<Live> make_live(World& w,int kind,const std::string& name,bool wp=false){ auto d=make_def(w,kind,name); switch(d->mode){ case 0: return live1<CE,0>(w,d,wp); case 1: return live1<RE,1>(w,d,wp); case 2: return live1<TE,2>(w,d,wp); default: return live1<VE,3>(w,d,wp); } }
}
