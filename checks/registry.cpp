// Process-wide tables under concurrent use: options, particle table, lineshape and vertex factories, and the building of amplitudes from them
#include "util.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/Expression.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/QuarkContent.h"
#include "AmpGen/Utilities.h"
#include "AmpGen/Vertex.h"
#include "AmpGen/Wigner.h"
#include <fstream>
#include <memory>
#include <sstream>
#include <thread>
#include <stdlib.h>
#include <string.h>
using namespace AmpGen;
namespace {
const char* DECAYS[]={
  "D0{K*(892)bar0{K-,pi+},pi0}", "D0{rho(770)+[GounarisSakurai]{pi+,pi0},K-}", "D0{K-,pi+,pi0}", "D0{K(0)*(1430)bar0[LASS]{K-,pi+},pi0}",
  "D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}", "D0[P]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}", "D0[D]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}", "D0{a(1)(1260)+{rho(770)0{pi+,pi-},pi+},K-}",
  "D0{f(2)(1270)0{pi+,pi-},K0S0}", "D0{rho(770)0{pi+,pi-},K0S0}", "D0{phi(1020)0{K+,K-},pi0}", "D0{NonResS0{K-,pi+},pi0}" };
const int ND=sizeof DECAYS/sizeof *DECAYS;
const char* SHAPES[]={"BW","FormFactor","GounarisSakurai","LASS","NonRelBW","Photon","SBW","Gaussian","Poly","Bugg","Isotensor","TD"};
const int NS=sizeof SHAPES/sizeof *SHAPES;
const char* PARTS[]={"D0","Dbar0","K-","K+","pi+","pi-","pi0","K*(892)bar0","K*(892)0","rho(770)0","rho(770)+","a(1)(1260)+","f(2)(1270)0","K0S0","phi(1020)0","mu+","mu-","B0","K(0)*(1430)bar0"};
const int NP_=sizeof PARTS/sizeof *PARTS;
// the rows of the shipped table for the particles above
void small_table(const std::string& dir){
  std::ifstream in(std::string(AMPGENROOT)+"/options/mass_width.csv"); std::string l,out; static const int ids[]={421,321,211,111,313,113,213,20213,225,310,333,13,511,10311};
  while(std::getline(in,l)){ auto f=split(l,',',false); if(f.size()<12||l[0]=='*') continue; int id=atoi(f[12].c_str()); for(int k:ids) if(k==id||k==-id){ out+=l+"\n"; break; } }
  sim::raw_write(dir+"mass_width.csv",out); 
  std::ifstream s(std::string(AMPGENROOT)+"/options/MintDalitzSpecialParticles.csv"); std::string sp; while(std::getline(s,l)) sp+=l+"\n"; sim::raw_write(dir+"MintDalitzSpecialParticles.csv",sp);
  sim::raw_write(dir+"pdgID_to_latex.dat","421 D^{0} \\bar{D}^{0}\n211 \\pi^{+} \\pi^{-}\n");
}
void calm(){ using namespace sim; preempt_memory(F(1,3,"mem")); mem_every(20); if(F(1,3,"stall")) enable(F_STALL,1,P(5,60,"stall_rate")); if(F(1,2,"short_reads")) enable(F_SHORT_READ,1,P(2,20,"short_rate")); if(F(1,4,"eintr")) enable(F_READ_EINTR,1,8); }
std::string num(double x){ char b[40]; snprintf(b,40,"%.17g",x); return b; }
std::string describe(const ParticleProperties* p){ if(!p) return "none"; std::ostringstream o; o<<p->name()<<" "<<num(p->mass())<<" "<<num(p->width())<<" "<<p->charge()<<" "<<p->twoSpin()<<" "<<p->P()<<" "<<p->pdgID()<<" "<<p->label()<<" "<<p->quarkContent(); return o.str(); }
std::string build_decay(int d,int kind){
  Particle p(DECAYS[d]); 
  switch(kind){
    case 0: return p.uniqueString()+"|"+p.decayDescriptor()+"|"+p.topologicalString()+"|"+p.texLabel(true)+"|"+p.orbitalString()+"|"+std::to_string(p.CP());
    case 1: return p.getExpression().to_string();
    case 2: { Particle c=p.conj(true,true); std::ostringstream o; o<<c.quarks(); return c.uniqueString()+"|"+o.str(); }
    case 3: { std::string r; for(auto& d2:p.daughters()) if(!d2->isStable()) r+=d2->propagator().to_string()+"|"; return r+p.massSq().to_string(); }
    default: { DebugSymbols db; auto e=p.getExpression(&db); CompiledExpression<complex_t(const double*,const double*)> c(e,p.decayDescriptor()); std::ostringstream o; c.to_stream(o); std::string r=o.str(); for(auto& s:db) r+=s.first; return r; }
  }
}
std::string build_shape(int s,int k){ Parameter x("s",0.7+0.1*k),a("s1",0.02),b("s2",0.25); try { auto e=Lineshape::Factory::get(SHAPES[s],x,a,b,"rho(770)0",k%3); return e.to_string()+"|"+num(std::real(e()))+"|"+num(std::imag(e())); } catch(const std::exception& ex){ return std::string("throws ")+typeid(ex).name(); } }
struct Item { int what,a,b; };
struct SharedObj { std::unique_ptr<Particle> p; Expression e, half; };
std::vector<SharedObj> g_shared;              // built by the main thread, read by all
std::string use_shared(int a,int b){
  const SharedObj& o=g_shared[a%g_shared.size()];
  switch(b%5){
    case 0: return o.e.to_string(); 
    case 1: { Expression c=o.e, d=o.half*c+1.; c=make_cse(d); return c.to_string()+"|"+d.to_string(); }
    case 2: { auto v=o.half(); return num(v.real())+"|"+num(v.imag()); }
    case 3: { CompiledExpression<complex_t(const double*,const double*)> c(o.e,"shared"); std::ostringstream s; c.to_stream(s); return s.str(); }
    default: { Particle q=o.p->clone(); q.setIndex(3); return q.uniqueString()+o.p->decayDescriptor()+o.p->texLabel()+std::to_string(o.p->L())+num(o.p->S())+o.p->propagator().to_string()+q.getExpression().to_string(); }
  }
}
std::string make_item(const Item& i){
  switch(i.what){ 
    case 0: return build_decay(i.a%ND,i.b%5); 
    case 1: return build_shape(i.a%NS,i.b);
    case 2: return describe(ParticlePropertiesList::get(PARTS[i.a%NP_],true));
    case 3: return num(CG(i.a%3*0.5,(i.a%3)*0.5,1,0,1.5,0.5))+num(wigner_D(std::pair<Expression,Expression>(Parameter("x",0.3),Parameter("y",0.4)),1,i.b%3-1,i.a%3-1,nullptr)().real());
    case 4: { NamedParameter<double> v("value"+std::to_string(i.a%3),-1.5); NamedParameter<std::string> t("text",std::string("none")); return num(v)+"|"+t.getVal()+"|"+std::to_string(v.size()); }
    case 5: { std::string r; r+=Lineshape::Factory::isLineshape(SHAPES[i.a%NS])?"y":"n"; r+=Lineshape::Factory::isLineshape("NotALineshape")?"y":"n"; r+=Vertex::Factory::isVertex("S_VV_S")?"y":"n"; r+=Vertex::Factory::isVertex("X_YY_Z")?"y":"n"; return r; }
    case 6: return use_shared(i.a,i.b);
    default: { Particle p(DECAYS[i.a%ND]); Particle q(p); q.setPolarisationState(0); auto f=q.getFinalStateParticles(); std::string r; for(auto& x:f) r+=x->name()+num(x->mass())+","; r+=std::to_string(p.matches(q)); return r; }
  }
}
Item some_item(int t,int k){ int w=P(0,10,"w%d_%d",t,k); return Item{w>7?(w==10?1:0):w,(int)P(0,99,"a%d_%d",t,k),(int)P(0,99,"b%d_%d",t,k)}; }
}
void make_shared_objects(){ g_shared.clear(); for(int k=0;k<2;k++){ SharedObj o; o.p=std::make_unique<Particle>(DECAYS[P(0,ND-1,"shared%d",k)]); o.e=o.p->getExpression(); Parameter x("s",0.8); o.half=Lineshape::Factory::get(SHAPES[P(0,2,"shape%d",k)],x,Parameter("s1",0.02),Parameter("s2",0.25),"rho(770)0",1); g_shared.push_back(std::move(o)); } }
// ---- building amplitudes in several threads -----------------------------------------------------------------------------
SIM_CHECK(P18){
  sim::step_limit(4000000);
  int nt=P(2,4,"threads"), ni=P(1,4,"items"); const size_t CAP=1<<20; char* sh=(char*)sim::shared(CAP); small_table("/simfs/ag/");
  auto key=[](int t,int k){ return t*4+k; }; struct Rec { uint64_t h; uint32_t len; }; Rec* rec=(Rec*)sh;
  auto common=[]{ setenv("AMPGENROOT","/simfs/ag",1); sim::NoFault nf; auto* o=OptionsParser::getMe(); o->setQuiet(); o->addArg("value0 0.25"); o->addArg("value1 3 4 5"); o->addArg("text abc"); if(F(1,3,"canonical")) o->addArg("Particle::SpinFormalism Canonical"); };
  auto hash=[](const std::string& s){ uint64_t h=1469598103934665603ull; for(unsigned char c:s){ h^=c; h*=1099511628211ull; } return h; };
  sim::incarnation([&]{ sim::track_memory(false); common(); make_shared_objects(); for(int t=0;t<nt;t++) for(int k=0;k<ni;k++){ std::string s; try { s=make_item(some_item(t,k)); } catch(const std::exception& e){ s=std::string("throws ")+typeid(e).name(); } rec[key(t,k)]={hash(s),(uint32_t)s.size()}; Item i=some_item(t,k); sim::note("item %d (%d,%d): %zu characters %.40s",i.what,i.a,i.b,s.size(),s.c_str()); } });
  sim::incarnation([&]{
    calm(); common(); bool cold=true; for(int t=0;t<nt;t++) for(int k=0;k<ni;k++) cold=cold&&some_item(t,k).what!=6; if(!cold||F(1,2,"warm")){ sim::NoFault nf; if(cold) ParticlePropertiesList::getMe(); else make_shared_objects(); } else sim::probe("first_use_by_several_threads");
    std::vector<std::thread> th; 
    for(int t=0;t<nt;t++) th.emplace_back([&,t]{ for(int k=0;k<ni;k++){ Item it=some_item(t,k); std::string s; try { s=make_item(it); } catch(const std::exception& e){ s=std::string("throws ")+typeid(e).name(); } auto& r=rec[key(t,k)];
      if(r.len!=s.size()||r.h!=hash(s)) sim::fail("differs-from-alone","item %d (%d,%d) built while other threads build theirs differs from the one built alone: %.300s",it.what,it.a,it.b,s.c_str()); } });
    for(auto& x:th) x.join(); sim::probe("built_concurrently");
  });
}

// ---- tables that are made when first used -------------------------------------------------------------------------------
SIM_CHECK(P15){
  struct Sh { uint64_t h[NP_], all; int n; }; Sh* sh=(Sh*)sim::shared(sizeof(Sh)); small_table("/simfs/ag/options/"); 
  auto hash=[](const std::string& s){ uint64_t h=1469598103934665603ull; for(unsigned char c:s){ h^=c; h*=1099511628211ull; } return h; };
  auto whole=[hash]{ std::string r; auto* l=ParticlePropertiesList::getMe(); for(auto& n:l->getParticleNames()) r+=n+"="+describe(ParticlePropertiesList::get(n,true))+";"; for(auto id:l->getParticleIds()) r+=std::to_string(id)+"="+describe(ParticlePropertiesList::get(id,true))+";"; return hash(r); };
  sim::incarnation([&]{ sim::track_memory(false); setenv("AMPGENROOT","/simfs/ag",1); OptionsParser::getMe()->setQuiet(); for(int i=0;i<NP_;i++) sh->h[i]=hash(describe(ParticlePropertiesList::get(PARTS[i],true))); sh->all=whole(); sh->n=ParticlePropertiesList::getMe()->getParticleNames().size(); });
  sim::incarnation([&]{
    calm(); setenv("AMPGENROOT","/simfs/ag",1); bool faulty=F(1,2,"faulty"); if(faulty){ if(F(2,3,"f_read")) sim::enable(sim::F_READ_ERR,1,P(3,60,"rate")); if(F(1,2,"f_open")) sim::enable(sim::F_OPEN_FAIL,1,P(3,40,"rate")); }
    bool optcold=F(1,2,"options_cold"); if(!optcold) OptionsParser::getMe()->setQuiet();
    int nt=P(2,5,"threads"), ni=P(1,4,"uses"); std::vector<const void*> opt(nt,nullptr), tab(nt,nullptr); std::vector<int> failed(nt,0);
    auto use=[&](int t,int k){
      switch(P(0,5,"use%d_%d",t,k)){
        case 0: { auto* o=OptionsParser::getMe(); if(!o) sim::fail("no-table","the options are missing"); if(opt[t]&&opt[t]!=o) sim::fail("second-table","a thread sees two different sets of options"); opt[t]=o; break; }
        case 1: { auto* l=ParticlePropertiesList::getMe(); if(!l) sim::fail("no-table","the particle table is missing"); if(tab[t]&&tab[t]!=l) sim::fail("second-table","a thread sees two particle tables"); tab[t]=l; if((int)l->getParticleNames().size()!=sh->n) sim::fail("incomplete-table","a thread sees %zu of %d particles",l->getParticleNames().size(),sh->n); break; }
        case 2: case 3: { int i=P(0,NP_-1,"part%d_%d",t,k); auto d=describe(ParticlePropertiesList::get(PARTS[i],true)); if(hash(d)!=sh->h[i]) sim::fail("incomplete-table","a thread sees particle '%s' as: %s",PARTS[i],d.c_str()); tab[t]=ParticlePropertiesList::getMe(); break; }
        case 4: { NamedParameter<int> n("Absent",7); if((int)n!=7) sim::fail("incomplete-table","an option that was not given is %d instead of its default",(int)n); opt[t]=OptionsParser::getMe(); break; }
        default: { Particle p(DECAYS[P(0,ND-1,"dec%d_%d",t,k)]); if(!p.props()||p.daughters().size()<2) sim::fail("incomplete-table","a decay could not be built"); tab[t]=ParticlePropertiesList::getMe(); } } };
    std::vector<std::thread> th; for(int t=0;t<nt;t++) th.emplace_back([&,t]{ for(int k=0;k<ni;k++) try { use(t,k); } catch(const std::exception& e){ failed[t]++; sim::probe("read_failure_reported"); if(!faulty) sim::fail("spurious-failure","the first use of a healthy table failed: %s",e.what()); } });
    for(auto& x:th) x.join(); sim::NoFault nf;
    try { if(whole()!=sh->all) sim::fail("incomplete-table","the particle table differs from the one a single thread loads"); } catch(const std::exception& e){ sim::fail("failure-lasts","the particle table cannot be loaded after the faults have stopped: %s",e.what()); }
    const void *o=OptionsParser::getMe(), *l=ParticlePropertiesList::getMe(); for(int t=0;t<nt;t++){ if(opt[t]&&opt[t]!=o) sim::fail("second-table","threads see different sets of options"); if(tab[t]&&tab[t]!=l) sim::fail("second-table","threads see different particle tables"); }
    if(sim::open_fds()) sim::fail("descriptor-leak","files are left open after loading the tables");
  });
}
