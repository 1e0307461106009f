// The particle table and parameter sets: ParticlePropertiesList, ParticleProperties, MinuitParameterSet, MinuitParameter
#include "util.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/Units.h"
#include "AmpGen/Utilities.h"
#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <math.h>
#include <stdlib.h>
using namespace AmpGen;
namespace {
struct Rng { uint64_t s; unsigned operator()(unsigned n){ s+=0x9E3779B97F4A7C15ull; uint64_t z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return (unsigned)((z^(z>>31))%n); } };
void read_benign(){ using namespace sim; if(F(1,2,"short_reads")) enable(F_SHORT_READ,1,P(2,20,"short_rate")); if(F(1,3,"eintr")) enable(F_READ_EINTR,1,8); if(F(1,5,"stall")) enable(F_STALL,1,40); sim::preempt_memory(!F(2,3,"nomem")); }
struct Row { double mass,width; int pdg,charge,spin2,parity; char A; std::string base,cs,label; double err[4]={0,0,0,0}; int G=0,C=0; std::string I,quarks; 
  std::string name() const { return base+(pdg<0&&A=='F'?"bar":"")+cs; } };
std::string csv(const Row& r,Rng& g){ char b[300]; const char* par=r.parity>0?"+":r.parity<0?"-":" "; char J[8]; if(r.spin2%2) snprintf(J,8,"%d/2",r.spin2); else snprintf(J,8,"%d",r.spin2/2); const char* sp=g(2)?" ":"";
  snprintf(b,300,"%.17g,%s%.17g,%.17g,%s%.17g,%.17g,%.17g,%s,%s,%s,%s,%s,%c,%s%d,%s%s,0,R,%s%s,%s",r.mass,sp,r.err[0],r.err[1],sp,r.width,r.err[2],r.err[3],r.I.c_str(),r.G>0?"+":r.G<0?"-":" ",J,par,r.C>0?" +":r.C<0?"-":" ",r.A,sp,r.pdg,r.cs.c_str(),sp,r.base.c_str(),g(3)?"   ":"",r.quarks.c_str()); return b; }
Row anti(Row r){ for(auto& c:r.cs) c=c=='+'?'-':c=='-'?'+':c; r.charge*=-1; r.pdg*=-1; if(r.spin2%2) r.parity*=-1; for(auto& c:r.quarks) if(isalpha(c)) c^=32; return r; }
typedef std::map<std::string,Row> Tab;
Row some_row(int f,int i,int space){ 
  Rng g{(uint64_t)P(0,1<<16,"row%d_%d",f,i)}; Row r; r.pdg=100*space+1+(int)g(40); r.base=std::string(1,"KDXN"[g(4)])+(g(2)?"*":"")+"("+std::to_string(r.pdg)+")"; r.mass=100+g(40000)/7.; r.width=g(3)?g(3000)/9.:0; static const char* CS[]={"+","0","-","++"}; static const int CH[]={1,0,-1,2}; int c=g(4); r.cs=CS[c]; r.charge=CH[c]; r.spin2=g(5); r.parity=(int)g(3)-1; r.A=r.charge?(g(5)?'B':' '):(g(2)?'F':' '); for(auto& e:r.err) e=g(900)/64.; r.G=(int)g(3)-1; r.C=(int)g(3)-1; static const char* IS[]={"0","1/2","1","3/2"}; r.I=IS[g(4)]; static const char* Q[]={"uD","uud","cU","udS","dS+bU","sS","uuDc","tB","u(dS)"}; r.quarks=Q[g(9)]; return r; }
struct TFile { std::vector<Row> rows; std::string path; };
TFile make_table(const std::string& path,int f,int nmax,int space){
  TFile t; t.path=path; int n=P(0,nmax,"n%d",f); Rng g{(uint64_t)P(0,999,"fmt%d",f)}; std::string tx=g(2)?"* header, with, commas\n":""; std::set<std::string> seen; std::set<int> ids;
  for(int i=0;i<n;i++){ Row r=some_row(f,i,space); if(!ids.insert(r.pdg).second) continue; t.rows.push_back(r); tx+=csv(r,g)+(g(5)==0?"\r\n":"\n"); if(g(6)==0) tx+=g(2)?"\n":"* 1,2,3\n"; if(g(9)==0) tx+="1,2,3\n"; }
  if(!tx.empty()&&g(3)==0) tx.pop_back(); 
  sim::raw_write(path,tx); return t;
}
void load(Tab& m,std::map<int,std::string>& ids,const TFile& t,const std::map<int,std::pair<std::string,std::string>>& lab){ for(auto r:t.rows){ auto l=lab.find(r.pdg); if(l!=lab.end()) r.label=l->second.first; m[r.name()]=r; ids[r.pdg]=r.name(); if(r.A!=' '){ Row a=anti(r); if(l!=lab.end()) a.label=l->second.second; m[a.name()]=a; ids[a.pdg]=a.name(); } } }
bool same(double a,double b){ return fabs(a-b)<=1e-12*(fabs(a)+fabs(b)); }
void check_one(const ParticleProperties* p,const std::string& n,const Row& r,const char* when){
  if(!p) sim::fail("particle-lost","%s: particle '%s' is not found",when,n.c_str());
  if(p->name()!=n) sim::fail("particle-wrong","%s: looking for '%s' gives '%s'",when,n.c_str(),p->name().c_str());
  if(!same(p->mass(),r.mass*MeV)||!same(p->width(),r.width*MeV)) sim::fail("particle-wrong","%s: mass/width of '%s' is %.9g/%.9g instead of %.9g/%.9g",when,n.c_str(),p->mass(),p->width(),r.mass*MeV,r.width*MeV);
  if(p->charge()!=r.charge||p->twoSpin()!=r.spin2||p->P()!=r.parity||p->pdgID()!=r.pdg) sim::fail("particle-wrong","%s: quantum numbers of '%s' are wrong (charge %d/%d, 2J %d/%d, P %d/%d, id %d/%d)",when,n.c_str(),p->charge(),r.charge,p->twoSpin(),r.spin2,p->P(),r.parity,p->pdgID(),r.pdg);
  if(!same(p->mErrPlus(),r.err[0]*MeV)||!same(p->mErrMinus(),r.err[1]*MeV)||!same(p->wErrPlus(),r.err[2]*MeV)||!same(p->wErrMinus(),r.err[3]*MeV)) sim::fail("particle-wrong","%s: the errors of '%s' are wrong",when,n.c_str());
  if(p->G()!=r.G||p->C()!=r.C||p->I()!=r.I) sim::fail("particle-wrong","%s: quantum numbers of '%s' are wrong (G %d/%d, C %d/%d, I %s/%s)",when,n.c_str(),p->G(),r.G,p->C(),r.C,p->I().c_str(),r.I.c_str());
  { std::vector<std::array<int,6>> q; std::string w; auto put=[&]{ std::array<int,6> t{}; bool some=false; for(char c:w){ size_t i=std::string("duscbt").find(tolower(c)); if(i<6) t[i]+=islower(c)?1:-1; } for(int x:t) some=some||x; if(some) q.push_back(t); w.clear(); }; for(char c:r.quarks) if(isalpha(c)) w+=c; else put(); put(); if(q.empty()) q.push_back({});
    auto& got=p->quarkContent(); bool bad=got.size()!=q.size(); for(size_t i=0;!bad&&i<q.size();i++) for(int k=0;k<6;k++) bad=bad||got[i][k]!=q[i][k]; if(bad) sim::fail("particle-wrong","%s: the quark content of '%s' is not '%s'",when,n.c_str(),r.quarks.c_str()); }
  if(p->label()!=r.label) sim::fail("particle-wrong","%s: the label of '%s' is '%s' instead of '%s'",when,n.c_str(),p->label().c_str(),r.label.c_str());
}
}
// ---- the particle table ---------------------------------------------------------------------------------------------
SIM_CHECK(P16){
  sim::incarnation([]{
    read_benign(); bool faulty=F(1,3,"faulty"); OptionsParser::getMe()->setQuiet(); setenv("AMPGENROOT","/simfs/ag",1); std::string d=F(1,2,"dir")?"/simfs/ag/":"/simfs/ag/options/"; 
    TFile main=make_table(d+"mass_width.csv",0,12,1), spec=make_table((F(1,2,"dir2")?"/simfs/ag/":"/simfs/ag/options/")+std::string("MintDalitzSpecialParticles.csv"),1,4,2); TFile imp[3]={make_table("/simfs/my/a.csv",2,5,3),make_table("/simfs/my/b.csv",3,5,4),make_table("/simfs/my/c.csv",4,3,1)};
    std::map<int,std::pair<std::string,std::string>> lab; std::string tx; for(auto* t:{&main,&spec}) for(auto& r:t->rows) if((r.pdg&1)==0){ lab[r.pdg]={"\\lab{"+std::to_string(r.pdg)+"}","\\bar{"+std::to_string(r.pdg)+"}"}; tx+=std::to_string(r.pdg)+" "+lab[r.pdg].first+" "+lab[r.pdg].second+"\n"; } sim::raw_write(d+"pdgID_to_latex.dat",tx);
    Tab m; std::map<int,std::string> ids; load(m,ids,main,lab); load(m,ids,spec,lab);
    if(faulty){ if(F(2,3,"f_read")) sim::enable(sim::F_READ_ERR,1,P(3,30,"rate")); if(F(1,2,"f_open")) sim::enable(sim::F_OPEN_FAIL,1,P(3,30,"rate")); }
    const ParticlePropertiesList* list=nullptr; 
    for(int k=0;k<3&&!list;k++) try { list=ParticlePropertiesList::getMe(); } catch(const std::exception&){ sim::probe("read_failure_reported"); if(!faulty) sim::fail("spurious-failure","loading a healthy particle table failed"); }
    if(!list){ sim::NoFault nf; try { list=ParticlePropertiesList::getMe(); } catch(const std::exception&){ sim::fail("failure-lasts","the particle table cannot be loaded after the faults have stopped"); } }
    auto all=[&](const char* when){ for(auto& kv:m) check_one(ParticlePropertiesList::get(kv.first,true),kv.first,kv.second,when); for(auto& kv:ids){ auto* p=ParticlePropertiesList::get(kv.first,true); if(!p) sim::fail("particle-lost","%s: id %d is not found",when,kv.first); if(m.count(kv.second)&&p->pdgID()!=kv.first) sim::fail("particle-wrong","%s: looking for id %d gives %d",when,kv.first,p->pdgID()); } };
    all("after loading"); size_t total=0; for(auto it=list->begin();it!=list->end();++it) total++; 
    if(list->getParticleNames().size()!=m.size()||list->getParticleIds().size()!=ids.size()) sim::fail("particle-extra","the table has %zu names and %zu ids instead of %zu and %zu",list->getParticleNames().size(),list->getParticleIds().size(),m.size(),ids.size());
    struct Held { const ParticleProperties* p; std::string name; std::shared_ptr<Row> val; }; std::vector<Held> held; std::map<std::string,std::shared_ptr<Row>> cur; std::set<std::string> maybe;  // cur: the object now known under a name
    for(auto& kv:m) cur[kv.first]=std::make_shared<Row>(kv.second);
    struct Id { std::string name; std::shared_ptr<Row> val; }; std::map<int,Id> byid; for(auto& kv:ids) byid[kv.first]={kv.second,cur[kv.second]};   // the object now known under an id
    auto hold=[&](const std::string& n){ held.push_back({ParticlePropertiesList::get(n,true),n,cur[n]}); };
    auto names=[&]{ std::vector<std::string> v; for(auto& kv:m) v.push_back(kv.first); return v; };
    int steps=P(1,8,"steps"); auto* op=OptionsParser::getMe();
    for(int s=0;s<steps;s++){
      auto nv=names(); if(!nv.empty()&&F(2,3,"hold%d",s)) hold(nv[P(0,1000,"held%d",s)%nv.size()]);
      int k=P(0,3,"op%d",s);
      if(k==0){ auto& t=imp[P(0,2,"imp%d",s)]; bool ok=false; try { op->addArg("ParticlePropertiesList::Import "+t.path); ok=true; } catch(const std::exception&){ sim::probe("import_failure_reported"); if(!faulty) sim::fail("spurious-failure","importing healthy particles failed"); }
        Tab add; std::map<int,std::string> aid; load(add,aid,t,lab); 
        if(!ok){ sim::NoFault nf; op->addArg("ParticlePropertiesList::Import "+t.path); }
        for(auto& kv:add){ m[kv.first]=kv.second; cur[kv.first]=std::make_shared<Row>(kv.second); } for(auto& kv:aid){ ids[kv.first]=kv.second; byid[kv.first]={kv.second,cur[kv.second]}; } }
      else if(k==1&&!nv.empty()){ std::string n=nv[P(0,1000,"of%d",s)%nv.size()], a="alias"+std::to_string(P(0,3,"alias%d",s)); Row r=m[n]; op->addArg("ParticlePropertiesList::Alias "+n+" "+a); r.A=' '; m[a]=r; cur[a]=std::make_shared<Row>(r); }
      else if(k==2){ bool exists=!nv.empty()&&F(2,3,"exists%d",s); std::string n=exists?nv[P(0,1000,"of%d",s)%nv.size()]:"New"+std::to_string(P(0,2,"new%d",s)); if(!m.count(n)){ Row r{}; r.base=n; r.A=' '; r.mass=0; m[n]=r; cur[n]=std::make_shared<Row>(r); auto it=ParticlePropertiesList::get(n,true); if(it) sim::fail("particle-extra","'%s' is in the table and was never added",n.c_str()); }
        Rng g{(uint64_t)P(0,1<<16,"edit%d",s)}; std::string line="ParticleProperties "+n; Row& r=m[n]; char b[60]; int ne=1+g(3); for(int e=0;e<ne;e++) switch(g(6)){ case 5: { static const char* Q[]={"cD","uuD","S"}; r.quarks=Q[g(3)]; line+=" quarks "+r.quarks; break; } case 0: { double v=0.2+g(1000)/333.; snprintf(b,60," mass %.17g",v); line+=b; r.mass=v/MeV; break; } case 1: { double v=g(1000)/3333.; snprintf(b,60," width %.17g",v); line+=b; r.width=v/MeV; break; } case 2: { int v=g(6); if(v%2) snprintf(b,60," spin %d/2",v); else snprintf(b,60," spin %d",v/2); line+=b; r.spin2=v; break; } case 3: { int v=(int)g(2)*2-1; line+=v>0?" parity +":" parity -"; r.parity=v; break; } default: { int v=(int)g(3)-1; line+=v>0?" charge +":v<0?" charge -":" charge 0"; r.charge=v; } }
        if(g(6)==0) line+=" mass"; // an incomplete pair is reported and ignored
        op->addArg(line); *cur[n]=r; }
      else if(ParticlePropertiesList::get("NotThere",true)||ParticlePropertiesList::get(999999,true)) sim::fail("particle-extra","a particle that does not exist was found");
      for(auto& kv:m) check_one(ParticlePropertiesList::get(kv.first,true),kv.first,kv.second,"after a history of changes"); 
      for(auto& kv:byid){ auto* p=ParticlePropertiesList::get(kv.first,true); if(!p) sim::fail("particle-lost","id %d is not found after a history of changes",kv.first); check_one(p,kv.second.name,*kv.second.val,"looked up by id after a history of changes"); }
      for(auto& h:held){ Row r=*h.val; check_one(h.p,h.name,r,"through a pointer taken earlier"); }
    }
    if(F(1,3,"readers")){ std::vector<std::thread> th; for(int t=0;t<3;t++) th.emplace_back([&]{ for(auto& kv:m) check_one(ParticlePropertiesList::get(kv.first,true),kv.first,kv.second,"from several threads"); }); for(auto& t:th) t.join(); }
    if(sim::open_fds()) sim::fail("descriptor-leak","table files are left open");
  });
}
// ---- parameter sets -----------------------------------------------------------------------------------------------------
namespace {
struct MP { std::string name; Flag flag; double init,step,lo,hi,val; int id; };
const Flag FL[]={Flag::Free,Flag::Fix,Flag::Hide,Flag::CompileTimeConstant,Flag::Blind}; const char* FN[]={"Free","Fix","Hide","CompileTimeConstant","Blind"};
std::string pname(int i){ static const char* N[]={"a","b","D0{K-,pi+}","f::g","x_y","p1","p2","q","lambda"}; return N[i]; }
struct Ent { std::string text; std::vector<MP> out; };
Ent some_entry(int f,int i){ // one line of a parameter file
  Ent e; Rng g{(uint64_t)P(0,1<<16,"ent%d_%d",f,i)}; std::string n=pname(P(0,8,"entn%d_%d",f,i)); auto num=[&](double& v){ char b[40]; v=((int)g(40000)-20000)/128.; snprintf(b,40,"%s%.17g",g(2)?" ":"\t",v); return std::string(b); };
  MP a{n,Flag::Free,0,0,0,0,0,0}; int fa=g(5), kind=g(6); a.flag=FL[fa]; std::string t=n+(g(2)?" ":"  ")+FN[fa];
  if(kind<=1){ t+=num(a.init)+num(a.step); if(kind==1) t+=num(a.lo)+num(a.hi); a.val=a.init; e.out={a}; }
  else if(kind<=3){ MP b=a; int fb=g(5); b.flag=FL[fb]; a.name=n+"_Re"; b.name=n+"_Im"; t+=num(a.init)+num(a.step); if(kind==3) t+=num(a.lo)+num(a.hi); t+=std::string(" ")+FN[fb]+num(b.init)+num(b.step); if(kind==3) t+=num(b.lo)+num(b.hi); a.val=a.init; b.val=b.init; e.out={a,b}; }
  else if(kind==4){ double d; t=n+" Nonsense"+num(d)+num(d); } else { t=n+" Free 1.5 zero"; }
  e.text=t; return e;
}
}
SIM_CHECK(P17){
  sim::incarnation([]{
    read_benign(); OptionsParser::getMe()->setQuiet(); setenv("AMPGENROOT","/simfs/ag",1); sim::raw_write("/simfs/ag/mass_width.csv",""); sim::raw_write("/simfs/ag/pdgID_to_latex.dat",""); sim::raw_write("/simfs/ag/MintDalitzSpecialParticles.csv",""); ParticlePropertiesList::getMe();
    bool faulty=F(1,3,"faulty"); if(faulty){ sim::enable(sim::F_READ_ERR,1,P(2,20,"rate")); sim::enable(sim::F_OPEN_FAIL,1,P(2,20,"rate")); }
    auto set=std::make_unique<MinuitParameterSet>(); std::vector<MP> m; std::vector<MinuitParameter*> ptr; std::vector<std::unique_ptr<MinuitParameter>> own; 
    auto idx=[&](const std::string& n){ for(size_t i=0;i<m.size();i++) if(m[i].name==n) return (int)i; return -1; };
    auto check=[&](const char* when){ if(set->size()!=m.size()) sim::fail("parameter-count","%s: the set has %u parameters instead of %zu",when,set->size(),m.size()); size_t k=0;
      for(auto* p:*set){ MP& w=m[k]; if(p!=set->at(k)||p!=(*set)[k]) sim::fail("parameter-order","%s: parameter %zu differs between the ways to reach it",when,k); if(ptr[k]&&p!=ptr[k]) sim::fail("parameter-moved","%s: parameter '%s' is not the object it was",when,w.name.c_str()); ptr[k]=p; if(p->name()!=w.name) sim::fail("parameter-order","%s: parameter %zu is '%s' instead of '%s'",when,k,p->name().c_str(),w.name.c_str());
        if(set->find(w.name)!=p||set->at(w.name)!=p||(*set)[w.name]!=p||((const MinuitParameterSet&)*set)[w.name]!=p) sim::fail("parameter-lookup","%s: looking for '%s' gives another parameter or none",when,w.name.c_str());
        if(p->mean()!=w.val||(double)*p!=w.val||*p->vp()!=w.val||(*set)(w.name)!=w.val||(double)MinuitProxy(p)!=w.val) sim::fail("parameter-value","%s: '%s' is %.9g instead of %.9g",when,w.name.c_str(),p->mean(),w.val);
        if(p->meanInit()!=w.init||p->stepInit()!=w.step||p->minInit()!=w.lo||p->maxInit()!=w.hi) sim::fail("parameter-init","%s: start values of '%s' are %g %g %g %g instead of %g %g %g %g",when,w.name.c_str(),p->meanInit(),p->stepInit(),p->minInit(),p->maxInit(),w.init,w.step,w.lo,w.hi);
        if(p->flag()!=w.flag||p->isFixed()!=(w.flag==Flag::Fix||w.flag==Flag::CompileTimeConstant)||p->isFree()!=(w.flag==Flag::Free)||p->isBlind()!=(w.flag==Flag::Blind)) sim::fail("parameter-flag","%s: the flag of '%s' is wrong",when,w.name.c_str()); k++; }
      if(k!=m.size()) sim::fail("parameter-count","%s: %zu parameters are listed",when,k);
      for(int i=0;i<9;i++) for(const char* suf:{"","_Re","_Im","_new"}){ std::string n=pname(i)+suf; if(idx(n)>=0) continue; if(set->find(n)||set->at(n)||(*set)[n]) sim::fail("parameter-lookup","%s: '%s' is found and is not in the set",when,n.c_str()); bool threw=false; try { (*set)(n); } catch(const std::exception&){ threw=true; } if(!threw) sim::fail("parameter-lookup","%s: the value of '%s', which is not in the set, was returned",when,n.c_str()); if(set->find(n)||set->size()!=m.size()) sim::fail("parameter-lookup","%s: asking for '%s' added it",when,n.c_str()); } 
      if(set->at((size_t)m.size())) sim::fail("parameter-lookup","%s: a parameter past the end was returned",when); };
    auto put=[&](const MP& p){ if(idx(p.name)<0){ m.push_back(p); ptr.push_back(nullptr); } };
    int steps=P(1,14,"steps");
    for(int s=0;s<steps;s++){
      std::string n=pname(P(0,8,"n%d",s)); int f=P(0,4,"f%d",s); double v=P(-400,400,"v%d",s)/16., st=P(0,50,"st%d",s)/32., lo=P(0,2,"lo%d",s)-3., hi=lo+P(0,5,"hi%d",s); int at=m.empty()?-1:P(0,1000,"at%d",s)%(int)m.size();
      switch(P(0,15,"op%d",s)){
        case 0: case 1: { auto* r=set->add(n,FL[f],v,st,lo,hi); put({n,FL[f],v,st,lo,hi,v,0}); if(!r||r!=set->find(n)) sim::fail("parameter-lookup","adding '%s' does not return the parameter of that name",n.c_str()); break; }
        case 2: { auto* r=set->addOrGet(n,FL[f],v,st,lo,hi); put({n,FL[f],v,st,lo,hi,v,0}); if(!r||r!=set->find(n)) sim::fail("parameter-lookup","add-or-get of '%s' returns something else",n.c_str()); break; }
        case 3: { std::unique_ptr<MinuitParameter> p(f?new MinuitParameter(n,FL[f],v,st,lo,hi):new MinuitParameter(n,v,st,lo,hi)); bool dup=idx(n)>=0; bool r=set->add(p.get()); if(r==dup) sim::fail("parameter-count","adding a parameter %s reported %s",dup?"twice":"once",r?"success":"failure"); if(r) p.release(); put({n,FL[f],v,st,lo,hi,v,0}); break; }
        case 4: { std::string nn=pname(P(0,8,"to%d",s))+(F(1,2,"sfx%d",s)?"_new":""); int i=idx(n); bool r=set->rename(n,nn); bool want=i>=0&&n!=nn&&idx(nn)<0; if(r!=want) sim::fail("parameter-rename","renaming '%s' to '%s' reported %d",n.c_str(),nn.c_str(),(int)r); if(want) m[i].name=nn; break; }
        case 5: if(at>=0&&F(1,2,"rm%d",s)){ auto* p=set->at((size_t)at); bool r=set->unregister(p); if(!r) sim::fail("parameter-count","removing '%s' failed",m[at].name.c_str()); own.emplace_back(p); m.erase(m.begin()+at); ptr.erase(ptr.begin()+at); } else { MinuitParameter stray(n,v,st); if(set->unregister(&stray)) sim::fail("parameter-count","a parameter that is not in the set was removed"); } break;
        case 6: if(at>=0){ if(F(1,2,"vp%d",s)) *set->at((size_t)at)->vp()=v; else set->at((size_t)at)->setCurrentFitVal(v); m[at].val=v; } break;
        case 7: if(at>=0){ bool withstep=F(1,2,"ws%d",s); if(withstep) set->at((size_t)at)->setInit(v,st); else set->at((size_t)at)->setInit(v); m[at].init=m[at].val=v; if(withstep) m[at].step=st; } break;
        case 8: set->resetToInit(); for(auto& x:m) x.val=x.init; break;
        case 9: { MinuitParameterSet o; std::vector<std::string> had; int k=P(1,4,"on%d",s); for(int i=0;i<k;i++){ std::string on=pname(P(0,8,"o%d_%d",s,i)); double ov=P(-99,99,"ov%d_%d",s,i)/4.; if(o.find(on)) continue; o.add(on,Flag::Free,ov,0.1); int j=idx(on); if(j>=0) m[j].val=ov; } set->set(o); break; }
        case 10: if(at>=0){ std::vector<unsigned> map; std::vector<double> x; for(size_t i=0;i<m.size();i++) if(F(1,2,"map%d_%d",s,(int)i)) map.push_back(i); if(F(1,2,"rev%d",s)) std::reverse(map.begin(),map.end()); set->setMapping(map); for(size_t i=0;i<map.size();i++){ x.push_back(v+i); m[map[i]].val=v+i; } x.push_back(0); set->setFromMinuit(x.data()); } break;
        case 11: if(at>=0){ auto* p=set->at((size_t)at); if(F(1,2,"fx%d",s)){ p->fix(); m[at].flag=Flag::Fix; } else { p->setFree(); m[at].flag=Flag::Free; } if(F(1,3,"lim%d",s)){ p->setLimits(lo,hi); m[at].lo=lo; m[at].hi=hi; } if(F(1,3,"si%d",s)){ p->setStepInit(st); m[at].step=st; } if(F(1,3,"sc%d",s)){ p->scaleStep(2); m[at].step*=2; } } break;
        case 12: case 13: { int k=P(0,5,"fl%d",s); std::string tx; std::vector<Ent> es; for(int i=0;i<k;i++){ es.push_back(some_entry(s,i)); tx+=es.back().text+(F(1,6,"cm%d_%d",s,i)?"\n# a comment\n\n":"\n"); } if(F(1,3,"nn%d",s)&&!tx.empty()) tx.pop_back(); sim::raw_write("/simfs/p.opt",tx); bool ok=false; try { set->loadFromFile("/simfs/p.opt"); ok=true; } catch(const std::exception&){ sim::probe("read_failure_reported"); if(!faulty) sim::fail("spurious-failure","loading a healthy parameter file failed"); }
          if(!ok){ // what has arrived is a beginning of the file; loading it again completes it
            sim::NoFault nf; set->loadFromFile("/simfs/p.opt"); }
          for(auto& e:es) for(auto& p:e.out) put(p); break; }
        case 14: { auto* op=OptionsParser::getMe(); int k=P(0,4,"st_n%d",s); static std::vector<std::string> order; static std::map<std::string,Ent> said; for(int i=0;i<k;i++){ Ent e=some_entry(100+s,i); op->addArg(e.text); std::string key=e.text.substr(0,e.text.find_first_of(" \t")); if(!said.count(key)) order.push_back(key); said[key]=e; } set->loadFromStream(); for(auto& key:order) for(auto& p:said[key].out) put(p); break; }
        default: if(at>=0){ auto* p=set->at((size_t)at); p->setResult(v,st,-st,st); m[at].val=v; if(p->err()!=st||p->errPos()!=st||p->errNeg()!=-st) sim::fail("parameter-value","the result stored for '%s' differs",m[at].name.c_str()); } 
      }
      check("after a history of changes");
    }
    if(F(1,3,"printed")){ auto lines=[&](bool variable){ std::ostringstream o; if(variable) set->printVariable(o); else set->print(o); std::vector<std::string> l; std::istringstream i(o.str()); std::string x; while(std::getline(i,x)) if(!x.empty()) l.push_back(x); return l; };
      auto all=lines(false), some=lines(true); size_t hidden=0; for(auto& w:m) hidden+=w.flag==Flag::Hide; if(all.size()!=m.size()||some.size()+hidden!=m.size()) sim::fail("parameter-print","%zu and %zu of %zu parameters are printed",all.size(),some.size(),m.size());
      for(size_t k=0;k<m.size();k++){ std::istringstream i(all[k]); std::string n,eq,v; i>>n>>eq>>v; if(n!=m[k].name) sim::fail("parameter-print","line %zu is about '%s', should be about '%s'",k,n.c_str(),m[k].name.c_str()); if(m[k].flag==Flag::Blind){ double old=m[k].val; set->at(k)->setCurrentFitVal(old+1.5); std::string again=lines(false)[k]; set->at(k)->setCurrentFitVal(old); if(again!=all[k]) sim::fail("parameter-print","the print of '%s' tells its value, which is blind",n.c_str()); } else if(!(fabs(atof(v.c_str())-m[k].val)<=1e-5*(1+fabs(m[k].val)))) sim::fail("parameter-print","'%s' is printed as %s, is %g",n.c_str(),v.c_str(),m[k].val); } sim::probe("printed"); }
    if(F(1,4,"readers")){ std::vector<std::thread> th; for(int t=0;t<2;t++) th.emplace_back([&]{ for(auto& w:m){ auto* p=set->find(w.name); if(!p||p->mean()!=w.val) sim::fail("parameter-value","'%s' differs when read from several threads",w.name.c_str()); } }); for(auto& t:th) t.join(); }
    set.reset(); for(auto& p:own) if(p->name().empty()) sim::fail("parameter-value","a removed parameter died with its set"); 
    if(sim::open_fds()) sim::fail("descriptor-leak","parameter files are left open");
  });
}
