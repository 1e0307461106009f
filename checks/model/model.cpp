// Models: sums of amplitudes, their normalisation and likelihood, on lists of events
#include "model.h"
#include "AmpGen/ErrorPropagator.h"
#include "AmpGen/FitFraction.h"
#include <set>
namespace {
// everything a model tells about the events it has and those it is normalised with
template<class M> void observe(M& m,const Oracle& o,const Truth& t,const EventListSIMD& data,const List& dl,const Values& dv,const EventListSIMD& other,const List& ol,const Values& ov,int k){
  size_t n=o.which.size(); if(m.size()!=n) sim::fail("model-size","the model has %zu amplitudes, should have %zu",m.size(),n);
  std::vector<int> at(n,-1); for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) if(m[i].decayDescriptor()==o.me[j]->decayDescriptor()) at[i]=j;
  for(size_t i=0;i<n;i++) if(at[i]<0) sim::fail("model-amplitude","an amplitude of the model, %s, is not one that was asked for",m[i].decayDescriptor().c_str());
  double sc=0; for(size_t i=0;i<n;i++) sc+=std::norm(t.c[i])*t.norms[i][i].real();
  WANT("norm",m.norm(),t.norm,sc,"the normalisation");
  for(size_t i=0;i<n;i++) for(size_t j=i;j<n;j++){ C got=t.inco?static_cast<const CoherentSum&>(m).norm(i,j):m.CoherentSum::norm(i,j), want=t.norms[at[i]][at[j]]; double s=sqrt(t.norms[at[i]][at[i]].real()*t.norms[at[j]][at[j]].real());
    WANT("integral",got.real(),want.real(),s,"the real part of integral %zu,%zu",i,j); WANT("integral",got.imag(),want.imag(),s,"the imaginary part of integral %zu,%zu",i,j); }
  auto scale=[&](const std::vector<C>& a){ double s=0; for(size_t i=0;i<n;i++) s+=std::norm(t.c[i]*a[i]); return s; };
  for(size_t e=0;e<dl.size();e++){ auto ev=data[e]; double s=scale(dv.a[e]); 
    WANT("probability",m(ev),t.prob(dv.a[e]),t.weight*s/t.norm,"the probability of event %zu of %zu",e,dl.size());
    WANT("probability",m((const real_v*)nullptr,e/4).at(e%4),t.prob(dv.a[e]),t.weight*s/t.norm,"the probability of event %zu of %zu in its block",e,dl.size());
    if constexpr(std::is_same<std::decay_t<decltype(m)>,IncoherentSum>::value) WANT("probability",m((const double*)nullptr,(unsigned)e),t.prob(dv.a[e]),t.weight*s/t.norm,"the probability of event %zu by its number",e);
    if(!t.inco){ C want=0; for(size_t i=0;i<n;i++) want+=t.c[i]*dv.a[e][i]; C g=m.getVal(ev),h=m.getValNoCache(ev); double r=sqrt(s); 
      WANT("amplitude",g.real(),want.real(),r,"the real part of the amplitude of event %zu",e); WANT("amplitude",g.imag(),want.imag(),r,"the imaginary part of the amplitude of event %zu",e);
      WANT("amplitude",h.real(),want.real(),r,"the real part of the amplitude of event %zu, not stored,",e); WANT("amplitude",h.imag(),want.imag(),r,"the imaginary part of the amplitude of event %zu, not stored,",e); } }
  if(F(1,2,"evaluators%d",k)){
    auto f=m.evaluator(&other); for(size_t e=0;e<ol.size();e++) WANT("evaluator",f(other[e]),t.prob(ov.a[e]),t.weight*scale(ov.a[e])/t.norm,"the evaluated probability of event %zu of %zu",e,ol.size());
    if(!t.inco){ auto g=m.amplitudeEvaluator(&other); for(size_t e=0;e<ol.size();e++){ C want=0; for(size_t i=0;i<n;i++) want+=t.c[i]*ov.a[e][i]; C got=g(other[e]); double r=sqrt(scale(ov.a[e])); WANT("amplitude-evaluator",got.real(),want.real(),r,"the real part of the evaluated amplitude of event %zu",e); WANT("amplitude-evaluator",got.imag(),want.imag(),r,"the imaginary part of the evaluated amplitude of event %zu",e); } }
    auto c=m.componentEvaluator(&other); for(size_t e=0;e<ol.size();e++){ double s=0; for(double x:c(other[e])) s+=x; WANT("components",s,t.unnorm(ov.a[e]),scale(ov.a[e]),"the sum of the components of event %zu",e); }
  }
}
// the share of each amplitude, of each pair, and their errors from those of the couplings
template<class M> void fractions(M& m,const Oracle& o,const Truth& t,const std::string& mother){
  size_t n=o.which.size(); auto& mps=o.mps; std::vector<double> before; for(auto* p:mps) before.push_back(p->mean());
  auto got=m.fitFractions(LinearErrorPropagator(mps));
  size_t at=0; for(auto* p:mps) if(p->mean()!=before[at++]) sim::fail("fractions-change","calculating fractions changed '%s' from %g to %g",p->name().c_str(),before[at-1],p->mean());
  auto value=[&](const std::vector<C>& c,size_t i,size_t j){ double norm=0; for(size_t a=0;a<n;a++) for(size_t b=0;b<n;b++) if(!t.inco||a==b) norm+=std::real(c[a]*std::conj(c[b])*t.norms[a][b]); return std::real(c[i]*std::conj(c[j])*t.norms[i][j])/norm; };
  auto couplings=[&]{ std::vector<C> c; for(size_t i=0;i<n;i++) c.push_back(o.coupling(i)); return c; };
  auto error=[&](auto f){ double s=0; for(auto* p:mps){ if(!p->isFree()||p->err()==0) continue; double v=p->mean(); p->setCurrentFitVal(v+p->err()); double a=f(couplings()); p->setCurrentFitVal(v-p->err()); double b=f(couplings()); p->setCurrentFitVal(v); s+=(a-b)*(a-b)/4; } return sqrt(s); };
  std::map<std::string,std::pair<size_t,size_t>> want; for(size_t i=0;i<n;i++){ std::string a=t.inco?o.me[i]->decayDescriptor():o.prefix+o.d.amps[o.which[i]].rules[0]; if(t.inco||n>1) want[a]={i,i}; if(!t.inco) for(size_t j=0;j<n;j++) if(i!=j) want[a+"x"+o.prefix+o.d.amps[o.which[j]].rules[0]]={i,j}; }
  std::set<std::pair<size_t,size_t>> seen; auto name=[&](std::string x){ return x; };
  for(auto& f:got){ auto w=want.find(name(f.name())); if(w==want.end()){ if(f.name()=="Sum_"+mother&&(n>1||t.inco)){ auto all=[&](const std::vector<C>& c){ double s=0; for(size_t i=0;i<n;i++) s+=value(c,i,i); return s; }; WANT("fraction",f.val(),all(t.c),1,"the sum of the fractions of %zu amplitudes",n); WANT("fraction-error",f.err(),error(all),1,"the error of the sum of the fractions of %zu amplitudes",n); } continue; }
    auto [i,j]=w->second; auto one=[&](const std::vector<C>& c){ return value(c,i,j); }; WANT("fraction",f.val(),one(t.c),1,"the fraction %s",f.name().c_str()); WANT("fraction-error",f.err(),error(one),1,"the error of the fraction %s",f.name().c_str()); if(!seen.insert({std::min(i,j),std::max(i,j)}).second) sim::fail("fraction","the fraction %s is there twice",f.name().c_str()); }
  size_t need=t.inco?n:(n>1?n:0)+n*(n-1)/2; if(seen.size()!=need) sim::fail("fraction","%zu fractions of %zu amplitudes and their pairs, should be %zu",seen.size(),n,need); sim::probe("fractions");
}
void setup(MinuitParameterSet& mps,const Def& d,const std::vector<int>& which,const std::string& prefix,int id){
  for(int a:which){ bool head=true; for(auto* r:d.amps[a].rules){ std::string n=(head?prefix:"")+r; head=false; add_coupling(mps,n,id,a,true); } }
}
}
SIM_CHECK(P21){
  sim::incarnation([]{
    common(); coordinates(); int which=P(0,1,"model"); const Def& d=defs()[which]; EventType type(d.type); MinuitParameterSet mps; int kind=P(0,2,"kind");   // coherent, incoherent, sum of both
    auto subset=[&](int id){ std::vector<int> r; for(size_t i=0;i<d.amps.size();i++) if(F(1,2,"amp%d_%d",id,i)) r.push_back(i); if(r.empty()) r.push_back(P(0,3,"amp%d",id)); return r; };
    auto sa=subset(0), sb=subset(1); std::string pb=kind==2?"Inco_":""; setup(mps,d,kind==1?sb:sa,"",0); if(kind==2) setup(mps,d,sb,pb,1);
    int si=0; for(auto& s:d.shape) add_shape(mps,s.first,s.second,si++); mps.add("yield",Flag::Free,0.75,0.01);
    std::unique_ptr<CoherentSum> co; std::unique_ptr<IncoherentSum> in; if(kind!=1) co.reset(new CoherentSum(type,mps)); if(kind!=0) in.reset(new IncoherentSum(type,mps,kind==2?"Inco":""));
    std::unique_ptr<Oracle> oc,oi; if(co) oc.reset(new Oracle(d,type,mps,sa,"")); if(in) oi.reset(new Oracle(d,type,mps,sb,pb));
    std::vector<List> ls; std::vector<EventList> la; std::vector<std::unique_ptr<EventListSIMD>> lv; for(int i=0;i<4;i++){ ls.push_back(draw(type,i,P(1,13,"n%d",i),i<2)); la.push_back(aos(type,ls[i])); } for(int i=0;i<4;i++) lv.emplace_back(new EventListSIMD(la[i]));
    int data=P(0,1,"data"), mc=P(2,3,"mc"); bool w=F(1,2,"yield"); auto each=[&](auto f){ if(co) f(*co); if(in) f(*in); };
    if(w) each([&](auto& m){ m.setWeight(mps["yield"]); });
    bool has=!F(1,8,"no_events"); each([&](auto& m){ if(has) m.setEvents(*lv[data]); m.setMC(*lv[mc]); });
    if(F(1,2,"threads")){ sim::preempt_memory(true); sim::mem_every(P(3,40,"every")); }
    int n=P(1,14,"ops");
    for(int k=0;k<=n;k++){
      int op=k==n?7:P(0,8,"op%d",k);
      switch(op){
        case 0: { auto& s=kind==1||(kind==2&&F(1,2,"of%d",k))?sb:sa; auto& pr=&s==&sb?pb:*new std::string; int a=s[P(0,(int)s.size()-1,"amp_%d",k)]; auto* r=d.amps[a].rules[P(0,(int)d.amps[a].rules.size()-1,"rule%d",k)]; auto* p=part_of(mps,(r==d.amps[a].rules[0]?pr:"")+r,F(1,2,"re_%d",k)); p->setCurrentFitVal(q(P(-8,8,"val%d",k))+0.125); sim::note("%s = %g",p->name().c_str(),p->mean()); break; }
        case 1: { int i=P(0,(int)d.shape.size()-1,"shape%d",k); auto& s=d.shape[i]; set_shape(mps,s.first,s.second*(1+0.01*P(-5,5,"val%d",k)),i); sim::note("%s = %g",s.first,mps[s.first]->mean()); break; }
        case 2: data=P(0,1,"list%d",k); has=true; each([&](auto& m){ m.setEvents(*lv[data]); }); sim::note("events %d",data); break;
        case 3: mc=P(2,3,"list%d",k); each([&](auto& m){ m.setMC(*lv[mc]); }); sim::note("mc %d",mc); break;
        case 4: each([&](auto& m){ m.prepare(); }); sim::note("prepare"); break;
        case 5: mps["yield"]->setCurrentFitVal(0.25+0.05*P(0,20,"val%d",k)); break;
        case 6: if(co) co.reset(new CoherentSum(*co)); if(in) in.reset(new IncoherentSum(*in)); sim::note("copied"); break;
        default: {
          if(oc) oc->prepare(); if(oi) oi->prepare(); double weight=w?mps["yield"]->mean():1; int other=P(0,3,"other%d",k); double want=0; 
          std::vector<Truth> ts; std::vector<Values> dv; 
          auto look=[&](auto& m,Oracle& o,bool inco){ List none; const List& dl=has?ls[data]:none; Values mv=values(o,ls[mc]), v=values(o,dl), ov=values(o,ls[other]); Truth t=truth(o,inco,ls[mc],mv,weight); m.prepare(); observe(m,o,t,*lv[data],dl,v,*lv[other],ls[other],ov,k); if(F(1,3,"fractions%d",k)){ fractions(m,o,t,d.type[0]); observe(m,o,t,*lv[data],dl,v,*lv[other],ls[other],ov,k); } ts.push_back(t); dv.push_back(v); };
          if(co) look(*co,*oc,false); if(in) look(*in,*oi,true); if(!has){ sim::probe("no_events"); break; }
          double s=0; for(size_t e=0;e<ls[data].size();e++){ double p=0; for(size_t i=0;i<ts.size();i++) p+=ts[i].prob(dv[i].a[e]); want-=2*ls[data][e].w*log(p); s+=fabs(2*ls[data][e].w*log(p)); }
          bool plain=F(1,4,"plain%d",k); double got;
          if(plain){ if(kind==0) got=make_likelihood(la[data],*co).getVal(); else if(kind==1) got=make_likelihood(la[data],*in).getVal(); else got=make_likelihood(la[data],*co,*in).getVal(); each([&](auto& m){ m.setEvents(*lv[data]); }); }
          else if(kind==0) got=make_likelihood(*lv[data],*co).getVal(); else if(kind==1) got=make_likelihood(*lv[data],*in).getVal(); else got=make_likelihood(*lv[data],*co,*in).getVal();
          WANT("likelihood",got,want,s+1,"minus twice the log-likelihood of %zu events",ls[data].size()); sim::note("likelihood %.9g",got);
        }
      }
    }
  });
}
