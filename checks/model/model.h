// What the model checks share: the decays they are made of, lists of events and what each event should be
#pragma once
#include "util.h"
#include "AmpGen/AmplitudeRules.h"
#include "AmpGen/CoherentSum.h"
#include "AmpGen/CompilerWrapper.h"
#include "AmpGen/EventList.h"
#include "AmpGen/EventListSIMD.h"
#include "AmpGen/EventType.h"
#include "AmpGen/Generator.h"
#include "AmpGen/IncoherentSum.h"
#include "AmpGen/MatrixElement.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/PhaseSpace.h"
#include "AmpGen/PolarisedSum.h"
#include "AmpGen/SumPDF.h"
#include <fstream>
#include <memory>
#include <sstream>
#include <math.h>
#include <stdlib.h>
using namespace AmpGen;
namespace {
typedef std::complex<double> C;
void table(const std::string& dir){
  std::ifstream in(std::string(AMPGENROOT)+"/options/mass_width.csv"); std::string l,out; static const int ids[]={421,321,211,111,313,323,113,213,20213,225,310,333,10311,30313,10211,22,4122,2212,2224,3124,331,10323,511,315,3122};
  while(std::getline(in,l)){ auto f=split(l,',',false); if(f.size()<12||l[0]=='*') continue; int id=atoi(f[12].c_str()); for(int k:ids) if(k==id||k==-id){ out+=l+"\n"; break; } }
  sim::raw_write(dir+"mass_width.csv",out); 
  std::ifstream s(std::string(AMPGENROOT)+"/options/MintDalitzSpecialParticles.csv"); std::string sp; while(std::getline(s,l)) sp+=l+"\n"; sim::raw_write(dir+"MintDalitzSpecialParticles.csv",sp); sim::raw_write(dir+"pdgID_to_latex.dat","421 D^{0} \\bar{D}^{0}\n");
}
// an amplitude: its whole decay, and the rules whose couplings multiply
struct Amp { const char* full; std::vector<const char*> rules; };
struct Def { std::vector<std::string> type; std::vector<Amp> amps; std::vector<std::pair<const char*,double>> shape; };
const std::vector<Def>& defs(){ static const std::vector<Def> d={
  {{"D0","K-","pi+","pi0"},{{"D0{K*(892)bar0{K-,pi+},pi0}",{"D0{K*(892)bar0,pi0}","K*(892)bar0{K-,pi+}"}},{"D0{rho(770)+{pi+,pi0},K-}",{"D0{rho(770)+{pi+,pi0},K-}"}},{"D0{K*(892)bar-{K-,pi0},pi+}",{"D0{K*(892)bar-{K-,pi0},pi+}"}},{"D0{NonResS0{K-,pi+},pi0}",{"D0{NonResS0{K-,pi+},pi0}"}}},{{"K*(892)bar0_mass",0.895},{"rho(770)+_width",0.149},{"K*(892)bar-_mass",0.8917}}},
  {{"D0","K0S0","pi+","pi-"},{{"D0{K0S0,rho(770)0{pi+,pi-}}",{"D0{K0S0,rho(770)0{pi+,pi-}}"}},{"D0{K*(892)+{K0S0,pi+},pi-}",{"D0{K*(892)+{K0S0,pi+},pi-}"}},{"D0{K*(892)bar-{K0S0,pi-},pi+}",{"D0{K*(892)bar-{K0S0,pi-},pi+}"}},{"D0{f(2)(1270)0{pi+,pi-},K0S0}",{"D0{f(2)(1270)0{pi+,pi-},K0S0}"}}},{{"rho(770)0_mass",0.775},{"K*(892)+_mass",0.8917},{"f(2)(1270)0_width",0.185}}} };
  return d; }
double q(long k,double unit=0.25){ return k*unit; }
bool close(double a,double b,double scale){ return fabs(a-b)<=1e-8*(fabs(b)+scale)+1e-280; }
void common(){ setenv("AMPGENROOT","/simfs/ag",1); table("/simfs/ag/"); auto* o=OptionsParser::getMe(); o->setQuiet(); sim::preempt_memory(false); int n=P(1,8,"cores"); sim::cores(n); OptionsParser::setArg("nCores "+std::to_string(n)); }
struct Ev { std::vector<double> x; double w=1,g=1; };
typedef std::vector<Ev> List;
List draw(const EventType& type,int id,int n,bool negative){
  List r; TRandom3 rnd(1000+P(0,200,"phsp%d",id)); PhaseSpace ph(type,&rnd);
  for(int i=0;i<n;i++){ auto e=ph.makeEvent(); Ev v; v.x.assign(e.address(),e.address()+e.size()); long w=P(negative?-3:1,8,"w%d_%d",id,i); v.w=q(w); v.g=q(P(2,8,"g%d_%d",id,i)); r.push_back(v); }
  return r;
}
EventList aos(const EventType& type,const List& l){ EventList r(type); for(auto& v:l){ Event e(v.x.data(),v.x.size()); e.setWeight(v.w); e.setGenPdf(v.g); r.push_back(e); } return r; }
// the value of a coupling: two parameters, or an expression of one that all of these share
bool polar=false; double unit=1;
C two(double a,double b){ return polar?a*std::exp(C(0,unit*b)):C(a,b); }
C coupling_of(MinuitParameterSet& mps,const std::string& n){ if(mps.find(n+"_Re")) return two(mps[n+"_Re"]->mean(),mps[n+"_Im"]->mean()); double t=mps["tie"]->mean(); C z=two(mps["tied_Re"]->mean(),mps["tied_Im"]->mean()); return t*C(0,1)+z*0.5; }
void coordinates(){ if(F(1,4,"polar")){ polar=true; OptionsParser::setArg("CouplingConstant::Coordinates polar"); if(F(1,2,"degrees")){ unit=M_PI/180; OptionsParser::setArg("CouplingConstant::AngularUnits deg"); } } }
void add_coupling(MinuitParameterSet& mps,const std::string& n,int id,int a,bool expressions){
  if(mps.find(n+"_Re")||mps.find(n)) return; if(expressions&&F(1,3,"tied%d_%d",id,a)){ if(!mps.find("tie")){ mps.add("tie",Flag::Free,0.625,0.1); mps.add("tied_Re",Flag::Free,0.75,0.1); mps.add("tied_Im",Flag::Free,-0.5,0.1); } mps.add(new MinuitExpression(split(n+" = tie * I + tied * 0.5",' '),&mps)); return; }
  mps.add(n+"_Re",Flag::Free,q(P(1,8,"re%d_%d",id,a)),0.1); mps.add(n+"_Im",Flag::Free,q(P(-8,8,"im%d_%d",id,a)),0.1); }
void add_shape(MinuitParameterSet& mps,const std::string& n,double v,int id){ if(F(1,4,"tied_shape%d",id)){ std::string b="base"+std::to_string(id); mps.add(b,Flag::Free,v/2,0.01); mps.add(new MinuitExpression(split(n+" = 2 * "+b,' '),&mps)); } else mps.add(n,Flag::Free,v,0.01); }
void set_shape(MinuitParameterSet& mps,const std::string& n,double v,int id){ std::string b="base"+std::to_string(id); if(mps.find(b)) mps[b]->setCurrentFitVal(v/2); else mps[n]->setCurrentFitVal(v); }
MinuitParameter* part_of(MinuitParameterSet& mps,const std::string& n,bool re){ if(mps.find(n+"_Re")) return mps[n+(re?"_Re":"_Im")]; return mps[re?"tie":"tied_Im"]; }
// the amplitudes evaluated one event at a time, by functions of the check's own
struct Oracle {
  const Def& d; const EventType& type; MinuitParameterSet& mps; std::vector<int> which; std::string prefix; std::vector<std::unique_ptr<MatrixElement>> me;
  Oracle(const Def& d,const EventType& type,MinuitParameterSet& mps,const std::vector<int>& which,const std::string& prefix):d(d),type(type),mps(mps),which(which),prefix(prefix){
    for(int a:which){ me.emplace_back(new MatrixElement(Particle(d.amps[a].full,type.finalStates()),TotalCoupling(),mps,type.getEventFormat())); CompilerWrapper().compile(*me.back()); if(!me.back()->isReady()) sim::fail("oracle","%s was not compiled",d.amps[a].full); } }
  void prepare(){ for(auto& m:me) m->prepare(); }
  C amp(int i,const Ev& e) const { Event v(e.x.data(),e.x.size()); auto r=(*me[i])(v); return utils::at(r[0],0); }
  C coupling(int i) const { C c=1; bool head=true; for(auto* r:d.amps[which[i]].rules){ std::string n=(head?prefix:"")+r; head=false; c*=coupling_of(mps,n); } return c; }
};
struct Values { std::vector<std::vector<C>> a; };   // [event][amplitude]
Values values(const Oracle& o,const List& l){ Values v; for(auto& e:l){ std::vector<C> r; for(size_t i=0;i<o.which.size();i++) r.push_back(o.amp(i,e)); v.a.push_back(r); } return v; }
struct Truth { bool inco; std::vector<C> c; std::vector<std::vector<C>> norms; double norm=0,weight=1;
  double unnorm(const std::vector<C>& a) const { if(inco){ double s=0; for(size_t i=0;i<c.size();i++) s+=std::norm(c[i]*a[i]); return s; } C s=0; for(size_t i=0;i<c.size();i++) s+=c[i]*a[i]; return std::norm(s); }
  double prob(const std::vector<C>& a) const { return weight*unnorm(a)/norm; } };
Truth truth(const Oracle& o,bool inco,const List& mc,const Values& v,double weight){
  Truth t; t.inco=inco; t.weight=weight; size_t n=o.which.size(); for(size_t i=0;i<n;i++) t.c.push_back(o.coupling(i)); t.norms.assign(n,std::vector<C>(n)); double tot=0;
  for(size_t k=0;k<mc.size();k++){ double w=mc[k].w/mc[k].g; tot+=w; for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) t.norms[i][j]+=w*v.a[k][i]*std::conj(v.a[k][j]); }
  for(auto& r:t.norms) for(auto& x:r) x/=tot;
  for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) if(!inco||i==j) t.norm+=std::real(t.c[i]*std::conj(t.c[j])*t.norms[i][j]);
  return t;
}
const std::vector<Def>& spins(){ static const std::vector<Def> d={
  {{"D0","K-","pi+","pi0"},defs()[0].amps,defs()[0].shape},
  {{"Lambda(c)+","p+","K-","pi+"},{{"Lambda(c)+{Lambda(1520)0{p+,K-},pi+}",{"Lambda(c)+{Lambda(1520)0{p+,K-},pi+}"}},{"Lambda(c)+{K*(892)bar0{K-,pi+},p+}",{"Lambda(c)+{K*(892)bar0,p+}","K*(892)bar0{K-,pi+}"}},{"Lambda(c)+{Delta(1232)++{p+,pi+},K-}",{"Lambda(c)+{Delta(1232)++{p+,pi+},K-}"}}},{{"Lambda(1520)0_mass",1.5195},{"K*(892)bar0_mass",0.895}}},
  {{"D0","K-","pi+","pi0"},{{"D0{K*(892)bar0{K-,pi+},pi0}",{"D0{K*(892)bar0{K-,pi+},pi0}"}},{"D0{rho(770)+{pi+,pi0},K-}",{"D0{rho(770)+{pi+,pi0},K-}"}},{"Dbar0{K*(892)bar0{K-,pi+},pi0}",{"Dbar0{K*(892)bar0{K-,pi+},pi0}"}},{"Dbar0{K*(892)bar-{K-,pi0},pi+}",{"Dbar0{K*(892)bar-{K-,pi0},pi+}"}}},defs()[0].shape},
  {{"K(1)(1270)+","K+","pi+","pi-"},{{"K(1)(1270)+{K*(892)0{K+,pi-},pi+}",{"K(1)(1270)+{K*(892)0{K+,pi-},pi+}"}},{"K(1)(1270)+{rho(770)0{pi+,pi-},K+}",{"K(1)(1270)+{rho(770)0,K+}","rho(770)0{pi+,pi-}"}},{"K(1)(1270)+[D]{K*(892)0{K+,pi-},pi+}",{"K(1)(1270)+[D]{K*(892)0{K+,pi-},pi+}"}}},{{"K*(892)0_mass",0.895},{"rho(770)0_mass",0.77}}},
  {{"B0","K+","pi-","gamma0"},{{"B0{K*(892)0{K+,pi-},gamma0}",{"B0{K*(892)0{K+,pi-},gamma0}"}},{"B0[P]{K*(892)0{K+,pi-},gamma0}",{"B0[P]{K*(892)0{K+,pi-},gamma0}"}},{"B0{K(2)*(1430)0{K+,pi-},gamma0}",{"B0{K(2)*(1430)0{K+,pi-},gamma0}"}}},{{"K*(892)0_mass",0.895}}} };
  return d; }
const std::vector<std::vector<int>> SUBSETS[5]={{{0},{1,3},{0,1,2,3}},{{0},{1,2},{0,1,2}},{{0,2},{1,3},{0,1,2,3}},{{0},{1,2},{0,1,2}},{{0,1},{2},{0,1,2}}};
typedef CompiledExpression<void(complex_v*,const size_t*,const real_t*,const real_v*)> Fn;
struct SpinOracle {
  const Def& d; MinuitParameterSet& mps; std::vector<int> which; unsigned s1=1,s2=1; std::vector<std::unique_ptr<MatrixElement>> me;
  SpinOracle(const Def& d,const EventType& type,MinuitParameterSet& mps,const std::vector<int>& which,bool flavour):d(d),mps(mps),which(which){
    std::vector<std::vector<int>> fin={{}}; for(size_t i=0;i<type.size();i++){ std::vector<std::vector<int>> n; for(auto& f:fin) for(int p:ParticleProperties::get(type[i])->polarisations()){ auto g=f; g.push_back(p); n.push_back(g); } fin=n; }
    auto mo=ParticleProperties::get(type.mother())->polarisations(); s1=flavour?2:mo.size(); s2=fin.size();
    for(int a:which){ Particle p(d.amps[a].full,type.finalStates()); Tensor t(Tensor::dim(s1*s2)); DebugSymbols db; int k=0; if(flavour){ bool bar=p.name()!=type.mother(); t[0]=bar?Expression(0):make_cse(p.getExpression(&db)); t[1]=bar?make_cse(p.getExpression(&db)):Expression(0); } else for(int m:mo) for(auto& f:fin){ std::vector<int> s={m}; s.insert(s.end(),f.begin(),f.end()); t[k++]=make_cse(p.getExpression(&db,s)); }
      me.emplace_back(new MatrixElement(p,TotalCoupling(),Fn(TensorExpression(t),p.decayDescriptor(),&mps,type.getEventFormat(),DebugSymbols()))); CompilerWrapper().compile(*me.back()); if(!me.back()->isReady()) sim::fail("oracle","%s was not compiled",d.amps[a].full); } }
  C coupling(int i) const { C c=1; for(auto* r:d.amps[which[i]].rules) c*=coupling_of(mps,r); return c; }
  // the sum over the spin density of the mother and the final states
  double prob(const Ev& e,double* scale,int only=-1) const {
    Event v(e.x.data(),e.x.size()); std::vector<C> T(s1*s2); double s=0; for(size_t i=0;i<me.size();i++){ if(only>=0&&(int)i!=only) continue; auto r=(*me[i])(v); C c=coupling(i); for(unsigned k=0;k<s1*s2;k++){ C x=c*C(utils::at(r[k],0)); T[k]+=x; s+=std::norm(x); } }
    C K[3][3]={{1,0,0},{0,1,0},{0,0,1}}; auto v_=[&](const char* n){ return mps[n]->mean(); }; if(s1>1){ double x=v_("Px"),y=v_("Py"),z=v_("Pz"); if(s1==2){ K[0][0]=1+z; K[0][1]=C(x,y); K[1][0]=C(x,-y); K[1][1]=1-z; } else { double zz=v_("Tzz"),yy=v_("Tyy"),a=sqrt(0.375),b=sqrt(3.),c=sqrt(1.5); C p(x,y),t(v_("Txz"),v_("Tyz")); K[0][0]=1+1.5*z+c*zz; K[1][1]=1-2*c*zz; K[2][2]=1-1.5*z+c*zz; K[0][1]=a*p+b*t; K[1][2]=a*p-b*t; K[0][2]=-c*C(zz+2*yy,-2*v_("Txy")); for(int i=0;i<3;i++) for(int k=0;k<i;k++) K[i][k]=std::conj(K[k][i]); } }
    auto* pf=s2==2?mps.find("polFrac"):nullptr; C t=0; for(unsigned a=0;a<s1;a++) for(unsigned b=0;b<s1;b++) for(unsigned f=0;f<s2;f++) t+=K[a][b]*(pf?f==0?pf->mean():1-pf->mean():1)*T[a*s2+f]*std::conj(T[b*s2+f]); *scale=4*s; return t.real(); }
  void prepare(){ for(auto& m:me) m->prepare(); }
};
void build_faults(int num,int den,bool threads=true){ using namespace sim;
  for(FaultKind k : {F_OPEN_FAIL,F_WRITE_ENOSPC,F_WRITE_EIO,F_CLOSE_ERR,F_RENAME_ERR,F_MKSTEMP_ERR,F_FORK_FAIL,F_EXEC_FAIL,F_CC_EXIT_NONZERO,F_CC_KILLED,F_CC_TORN_OUTPUT,F_DLOPEN_FAIL}) if(param(fault_name(k),0,3)==0) enable(k,num,den);
  if(threads&&F(1,4,"no_threads")) enable(F_THREAD_CREATE,1,2); enable(F_CC_LEFTOVER,1,2); }
void build_benign(){ using namespace sim; if(F(1,2,"eintr")){ enable(F_WAIT_EINTR,1,3); enable(F_WRITE_EINTR,1,6); enable(F_SHORT_WRITE,1,3); } if(F(1,3,"slow")) enable(F_CC_SLOW,1,2); if(F(1,4,"stall")) enable(F_STALL,1,30); enable(F_SPURIOUS_WAKE,1,20); }
#define WANT(cls,got,want,scale,...) do{ double g_=(got),w_=(want); if(!close(g_,w_,scale)){ char b_[256]; snprintf(b_,sizeof b_,__VA_ARGS__); sim::fail(cls,"%s is %.12g, should be %.12g",b_,g_,w_); } }while(0)
}
