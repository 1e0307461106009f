// Building a model while the machine misbehaves
#include "model.h"
namespace {
// one model of either kind, and what it should tell about its events
struct Build {
  const Def& d; EventType type; MinuitParameterSet mps; std::vector<int> sub; int kind; List data,mc; std::unique_ptr<EventListSIMD> vd,vm; std::unique_ptr<Oracle> o; std::unique_ptr<SpinOracle> so;
  Build(int kind,const Def& d,const std::vector<int>& sub):d(d),type(d.type),sub(sub),kind(kind){
    for(int a:sub) for(auto* r:d.amps[a].rules){ std::string n=r; if(mps.find(n+"_Re")) continue; mps.add(n+"_Re",Flag::Free,q(P(1,8,"re%d",a)),0.1); mps.add(n+"_Im",Flag::Free,q(P(-8,8,"im%d",a)),0.1); }
    for(auto& s:d.shape) mps.add(s.first,Flag::Free,s.second,0.01); if(type.mother()!="D0"){ int k=0; for(const char* p:{"Px","Py","Pz"}) mps.add(p,Flag::Free,0.125*P(-4,4,"pol%d",k++),0.01); }
    data=draw(type,0,P(1,6,"data"),true); mc=draw(type,1,P(1,6,"mc"),false); EventList a=aos(type,data), b=aos(type,mc); vd.reset(new EventListSIMD(a)); vm.reset(new EventListSIMD(b)); }
  template<class M> void use(M& m,const char* when){
    m.setEvents(*vd); m.setMC(*vm); m.prepare(); sim::NoFault nf; 
    if(m.size()!=(kind==2?so->s1*so->s2:1)*sub.size()) sim::fail("model-size","%s the model has %zu amplitudes",when,(size_t)m.size());
    double norm=0,tot=0,sn=0,s; auto prob=[&](const Ev& e){ if(kind==2) return so->prob(e,&s); C t=0; double i=0; for(size_t k=0;k<sub.size();k++){ C x=o->coupling(k)*o->amp(k,e); t+=x; i+=std::norm(x); } s=i; return kind==1?i:std::norm(t); };
    for(auto& e:mc){ norm+=e.w/e.g*prob(e); sn+=e.w/e.g*s; tot+=e.w/e.g; } norm/=tot; sn/=tot; WANT("norm",m.norm(),norm,sn,"%s the normalisation",when);
    for(size_t e=0;e<data.size();e++){ double p=prob(data[e]); WANT("probability",m((*vd)[e]),p/norm,s/norm,"%s the probability of event %zu of %zu",when,e,data.size()); } }
  // true when the model was built and right, false when somebody was told that it was not
  bool go(const char* when){ 
    { sim::NoFault nf; if(kind==2){ if(!so) so.reset(new SpinOracle(d,type,mps,sub,false)); so->prepare(); } else { if(!o) o.reset(new Oracle(d,type,mps,sub,"")); o->prepare(); } }
    try { if(kind==0){ CoherentSum m(type,mps); use(m,when); } else if(kind==1){ IncoherentSum m(type,mps,""); use(m,when); } else { PolarisedSum m(type,mps); use(m,when); } return true; }
    catch(const std::exception& e){ sim::note("%s: %s",when,e.what()); sim::probe("building_reported"); return false; } }
};
}
SIM_CHECK(P23){
  sim::step_limit(4000000);
  int kind=P(0,2,"kind"), which=P(0,1,"model"); bool heavy=kind==2&&which==1; int set=heavy?0:P(0,2,"subset"), rounds=heavy?0:P(0,2,"rounds"); bool cache=kind!=2&&F(1,2,"cache");
  auto process=[&](int r,bool last){ return sim::incarnation([=]{
    common(); if(cache){ sim::raw_write("/simfs/cache/.keep",""); OptionsParser::setArg("CoherentSum::ObjectCache /simfs/cache/lib"); }
    bool faulty=false; std::unique_ptr<Build> b; { sim::NoFault nf; const Def& d=kind==2?spins()[which]:defs()[which]; b.reset(new Build(kind,d,SUBSETS[heavy?1:0][set])); }
    if(!last){ build_benign(); faulty=F(2,3,"faulty%d",r); if(faulty) build_faults(1,1+P(1,15,"rate%d",r)); if(r<rounds&&cache) sim::enable(sim::F_CRASH,1,2+P(1,60,"crash_rate")); }
    int n=heavy?1:P(1,3,"tries%d",r); for(int k=0;k<n;k++) if(!b->go("with faults")&&!faulty) sim::fail("spurious-failure","the model was not built although nothing was wrong");
    sim::NoFault stop; if(!b->go("after the faults")) sim::fail("failure-lasts","the model cannot be built after the faults have stopped");
  }); };
  for(int r=0;r<=rounds;r++) if(process(r,false)==sim::INC_CRASHED) sim::probe("crashed_while_building");
  if(!heavy) process(rounds+1,true);
}
