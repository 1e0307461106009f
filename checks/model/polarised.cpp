// Models of decays of and to particles with spin
#include "model.h"
#include "AmpGen/ErrorPropagator.h"
#include "AmpGen/FitFraction.h"
SIM_CHECK(P22){
  sim::step_limit(4000000);
  sim::incarnation([]{
    common(); coordinates(); static const int KIND[]={0,2,3,0,2,1,4}; int which=KIND[P(0,6,"model")]; bool flavour=which==2; if(which==4) OptionsParser::setArg("Particle::SpinBasis Weyl"); if(flavour) OptionsParser::setArg("PolarisedSum::SpaceType flavour"); const Def& d=spins()[which]; EventType type(d.type); MinuitParameterSet mps; auto& sub=SUBSETS[which][P(0,2,"subset")];
    for(int a:sub) for(auto* r:d.amps[a].rules){ std::string n=r; add_coupling(mps,n,0,a,true); }
    int si=0; for(auto& s:d.shape) add_shape(mps,s.first,s.second,si++); mps.add("yield",Flag::Free,0.75,0.01); 
    std::vector<const char*> pol; if(which&&which<4) pol={"Px","Py","Pz"}; if(which==3) for(const char* p:{"Tyy","Tzz","Txy","Txz","Tyz"}) pol.push_back(p); { int k=0; for(auto* p:pol) mps.add(p,Flag::Free,(k<3?0.125:0.03125)*P(-4,4,"pol%d",k),0.01),k++; } if(which==4&&F(3,4,"fraction")){ pol={"polFrac"}; mps.add("polFrac",Flag::Free,0.125*P(0,8,"pol%d",9),0.01); }
    std::unique_ptr<PolarisedSum> m(new PolarisedSum(type,mps)); SpinOracle o(d,type,mps,sub,flavour);
    std::vector<List> ls; std::vector<EventList> la; std::vector<std::unique_ptr<EventListSIMD>> lv; for(int i=0;i<4;i++){ ls.push_back(draw(type,i,P(1,9,"n%d",i),i<2)); la.push_back(aos(type,ls[i])); } for(int i=0;i<4;i++) lv.emplace_back(new EventListSIMD(la[i]));
    int data=P(0,1,"data"), mc=P(2,3,"mc"); bool w=F(1,2,"yield"); if(w) m->setWeight(mps["yield"]); bool has=!F(1,8,"no_events"); if(has) m->setEvents(*lv[data]); m->setMC(*lv[mc]);
    if(F(1,2,"threads")){ sim::preempt_memory(true); sim::mem_every(P(3,40,"every")); }
    int n=P(1,12,"ops");
    for(int k=0;k<=n;k++) switch(k==n?8:P(0,9,"op%d",k)){
      case 0: case 1: { int a=sub[P(0,(int)sub.size()-1,"amp_%d",k)]; std::string r=d.amps[a].rules[P(0,(int)d.amps[a].rules.size()-1,"rule%d",k)]; auto* p=part_of(mps,r,F(1,2,"re_%d",k)); p->setCurrentFitVal(q(P(-8,8,"val%d",k))+0.125); sim::note("%s = %g",p->name().c_str(),p->mean()); break; }
      case 2: { int i=P(0,(int)d.shape.size()-1,"shape%d",k); auto& s=d.shape[i]; set_shape(mps,s.first,s.second*(1+0.01*P(-5,5,"val%d",k)),i); sim::note("%s = %g",s.first,mps[s.first]->mean()); break; }
      case 3: data=P(0,1,"list%d",k); has=true; m->setEvents(*lv[data]); sim::note("events %d",data); break;
      case 4: mc=P(2,3,"list%d",k); m->setMC(*lv[mc]); sim::note("mc %d",mc); break;
      case 5: m->prepare(); sim::note("prepare"); break;
      case 6: mps["yield"]->setCurrentFitVal(0.25+0.05*P(0,20,"val%d",k)); if(pol.size()){ int i=P(0,(int)pol.size()-1,"p%d",k); double x=P(-4,4,"polval%d",k); mps[pol[i]]->setCurrentFitVal(which==4?0.125*(x+4):i<3?0.125*x:0.03125*x); sim::note("%s = %g",pol[i],mps[pol[i]]->mean()); } break;
      case 7: m.reset(new PolarisedSum(*m)); sim::note("copied"); break;
      default: {
        o.prepare(); double weight=w?mps["yield"]->mean():1, norm=0, tot=0, sn=0; for(auto& e:ls[mc]){ double s; norm+=e.w/e.g*o.prob(e,&s); sn+=e.w/e.g*s; tot+=e.w/e.g; } norm/=tot; sn/=tot;
        m->prepare(); WANT("norm",m->norm(),norm,sn,"the normalisation"); if(!has){ sim::probe("no_events"); break; } double want=0,sw=0;
        for(size_t e=0;e<ls[data].size();e++){ auto ev=(*lv[data])[e]; double s,p=o.prob(ls[data][e],&s), f=weight/norm; 
          WANT("probability",(*m)(ev),f*p,f*s,"the probability of event %zu of %zu",e,ls[data].size()); WANT("probability",(*m)((const real_v*)nullptr,e/4).at(e%4),f*p,f*s,"the probability of event %zu of %zu in its block",e,ls[data].size());
          WANT("probability",m->getValNoCache(ev),p,s,"the probability of event %zu, not stored,",e); WANT("probability",(*m)((const double*)nullptr,(unsigned)e),f*p,f*s,"the probability of event %zu by its number",e); want-=2*ls[data][e].w*log(f*p); sw+=fabs(2*ls[data][e].w*log(f*p)); }
        int other=P(0,3,"other%d",k); if(F(1,2,"evaluators%d",k)){ auto f=m->evaluator(lv[other].get()); auto c=m->componentEvaluator(lv[other].get()); for(size_t e=0;e<ls[other].size();e++){ double s,p=o.prob(ls[other][e],&s); auto ev=(*lv[other])[e]; WANT("evaluator",f(ev),p*weight/norm,s*weight/norm,"the evaluated probability of event %zu",e); double t=0; for(double x:c(ev)) t+=x; WANT("components",t,p,s,"the sum of the components of event %zu",e); } }
        double got; if(F(1,4,"plain%d",k)){ got=make_likelihood(la[data],*m).getVal(); m->setEvents(*lv[data]); } else got=make_likelihood(*lv[data],*m).getVal();
        WANT("likelihood",got,want,sw+1,"minus twice the log-likelihood of %zu events",ls[data].size()); sim::note("likelihood %.9g",got);
        if(!flavour&&F(1,3,"fractions%d",k)){ // the share of each amplitude; calculating their errors moves the parameters and puts them back
          std::vector<double> before; for(auto* p:mps) before.push_back(p->mean()); auto ff=m->fitFractions(LinearErrorPropagator(mps)); size_t at=0,found=0; for(auto* p:mps) if(p->mean()!=before[at++]) sim::fail("fractions-change","calculating fractions changed '%s' from %g to %g",p->name().c_str(),before[at-1],p->mean());
          double all=0; std::vector<double> share; for(size_t i=0;i<sub.size();i++){ double t=0,s; for(auto& e:ls[mc]) t+=e.w/e.g*o.prob(e,&s,i); share.push_back(t/tot/norm); all+=share[i]; }
          for(auto& f:ff){ for(size_t i=0;i<sub.size();i++) if(f.name()==d.amps[sub[i]].rules[0]){ WANT("fraction",f.val(),share[i],sn/norm,"the fraction %s",f.name().c_str()); found++; } if(f.name()==std::string("Sum_")+d.type[0]){ WANT("fraction",f.val(),all,sn/norm,"the sum of the fractions"); } }
          if(found!=(sub.size()>1?sub.size():0)) sim::fail("fraction","%zu fractions of %zu amplitudes",found,sub.size()); sim::probe("fractions");
          for(size_t e=0;e<ls[data].size();e++){ double s,p=o.prob(ls[data][e],&s), f=weight/norm; WANT("probability",(*m)((*lv[data])[e]),f*p,f*s,"the probability of event %zu of %zu after calculating fractions",e,ls[data].size()); } }
      } }
  });
}
