// The programs as a whole: their main() runs with options, files and threads of the simulator
#include "model.h"
#include "AmpGen/Chi2Estimator.h"
#include "AmpGen/Projection.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <unistd.h>
extern "C" int app_AmpGen(int,char**); extern "C" int app_DataConverter(int,char**); extern "C" int app_Fitter(int,char**);
// files of ROOT: opening one can fail, what is written is there once it is closed
int stub_open(const char* p,bool w){ return ::open(p,w?O_CREAT|O_TRUNC|O_WRONLY:O_RDONLY,0644); }
void stub_store(const std::string& p,const std::string& t){ sim::raw_write(p,t); }
std::string stub_load(const std::string& p){ return sim::raw_exists(p)?sim::raw_read(p):""; }
TFile* TFile::Open(const char* k,const char* mode){
  auto i=all().find(k); std::string m=mode; bool w=m=="RECREATE"||m=="recreate"; if(i!=all().end()&&!w){ i->second->opened++; i->second->cd(); return i->second; }
  int fd=stub_open(k,w); if(fd<0) return nullptr; ::close(fd); auto* f=new TFile; f->m_n=f->path=k; f->writable=w; f->opened=1; f->cd(); if(w) return f;
  std::istringstream in(stub_load(k)); std::string kind,name; auto num=[&]{ std::string s; in>>s; return strtod(s.c_str(),nullptr); };
  while(in>>kind>>name){ if(kind=="T"){ auto* t=new TTree(name.c_str(),""); size_t nb; in>>t->n>>nb; for(size_t b=0;b<nb;b++){ auto* c=new StubColumn; in>>c->m_n>>c->type; for(Long64_t e=0;e<t->n;e++) c->v.push_back(num()); t->br.push_back(c); } f->in[name]=t; } else { double n=num(); int nb; in>>nb; auto* h=new TH1D(name.c_str(),"",nb-2,0,1); h->n=n; for(int b=0;b<nb;b++) h->c[b]=num(); f->in[name]=h; } }
  return f; }
namespace {
std::string end_of(const std::string& s){ return s.size()>340?s.substr(0,40)+" ... "+s.substr(s.size()-300):s; }
// runs a program; 0 if it succeeded, 1 if it stopped with an error, 2 if it went on after reporting one
int run_app(int (*app)(int,char**),const std::vector<std::string>& args,std::string* said=nullptr){
  std::vector<std::string> a=args; a.insert(a.begin(),"program"); std::vector<char*> v; for(auto& x:a) v.push_back(&x[0]); v.push_back(nullptr); std::ostringstream out; auto *o=std::cout.rdbuf(out.rdbuf()),*e=std::cerr.rdbuf(out.rdbuf()); int rc=1; std::string why;
  try { rc=app(a.size(),v.data()); if(rc) why="status "+std::to_string(rc); } catch(const std::exception& x){ why=x.what(); } std::cout.rdbuf(o); std::cerr.rdbuf(e); std::string t=out.str(); bool error=t.find("ERROR")!=std::string::npos||t.find("FATAL")!=std::string::npos; if(said){ std::string plain; for(size_t i=0;i<t.size();i++){ if(t[i]==27){ while(i<t.size()&&t[i]!='m') i++; continue; } plain+=t[i]; } *said=why+": "+plain; } if(rc) sim::note("the program stopped: %s",why.c_str()); else if(error) sim::note("the program reported an error"); return rc?1:error?2:0; }
std::string number(double x){ char b[40]; snprintf(b,40,"%.17g",x); return b; }
const char* flag_text(int k){ static const char* f[]={"Free","Fix","0","2"}; return f[k]; }
// options for a model, and the parameters they should give
struct Text { std::string o; MinuitParameterSet* mps; void par(const std::string& n,double v,int id){ o+=n+" "+flag_text(P(0,3,"flag%d",id))+" "+number(v)+" 0.1\n"; if(mps&&!mps->find(n)) mps->add(n,Flag::Free,v,0.1); }
  void coupling(const std::string& n,int id){ static thread_local std::map<std::string,int> dummy; if(mps&&mps->find(n+"_Re")) return; double a=q(P(1,8,"re%d",id)),b=q(P(-8,8,"im%d",id)); o+=n+" "+flag_text(P(0,3,"fre%d",id))+" "+number(a)+" 0.1 "+flag_text(P(0,3,"fim%d",id))+" "+number(b)+" 0.1\n"; if(mps){ mps->add(n+"_Re",Flag::Free,a,0.1); mps->add(n+"_Im",Flag::Free,b,0.1); } } };
struct Gen { int status; int n; unsigned long long h; double scale; };
double pick(double a,double b){ return a>b?a:b; }
}
SIM_CHECK(P31){
  sim::step_limit(20000000);
  enum { Coherent, Incoherent, Pseudo, Baryon, Source, SourcePol, Single, Empty, SourceBar }; static const int KIND[]={Coherent,Coherent,Incoherent,Pseudo,Source,SourcePol,Single,Empty,Coherent,Baryon,SourceBar,SourceBar}; int kind=KIND[P(0,11,"kind")]; int rounds=kind==Baryon||kind==SourceBar?0:P(0,2,"rounds"); Gen* g=(Gen*)sim::shared(sizeof(Gen)*5); const std::string dir="/simfs/out/"; sim::raw_write(dir+".keep","");
  bool lib=kind==Source||kind==SourcePol||kind==SourceBar; int esrc=kind==Empty?P(0,2,"empty_source"):0; std::string out=dir+(lib||esrc?"model.cpp":"sample.root"); int N=P(1,25,"events"); bool poisson=!lib&&F(1,6,"poisson"); int phsp=kind==Coherent||kind==Incoherent?P(0,4,"phsp"):0; bool conj=(kind==Coherent||kind==Pseudo)&&F(1,4,"conj"); double safety=q(P(2,9,"safety"),0.5); bool norm=F(3,4,"normalise"); int nNorm=P(20,60,"norm_events"); long seed=P(0,400,"seed");
  auto model=[=](MinuitParameterSet* mps,const Def*& d,std::vector<int>& sub){ d=kind==Baryon||kind==SourceBar?&spins()[1]:kind==Pseudo||kind==SourcePol?&spins()[0]:&defs()[P(0,1,"model")]; sub=SUBSETS[0][kind==Baryon||kind==SourceBar?0:P(0,2,"subset")]; if(kind==Single) sub={P(0,3,"single")}; if(kind==SourcePol) sub={sub[0]}; if(kind==SourceBar) sub={0,1};
    Text t{"",mps}; t.o="EventType"; for(auto& p:d->type) t.o+=" "+p; t.o+="\n"; if(kind!=Single&&kind!=Empty) for(int a:sub){ int k=0; for(auto* r:d->amps[a].rules){ t.coupling((kind==Incoherent&&k==0?"Inco_":"")+std::string(r),10*a+k); k++; } } if(kind==Single&&mps){ std::string n=Particle(d->amps[sub[0]].full).decayDescriptor(); mps->add(n+"_Re",Flag::Fix,1,0); mps->add(n+"_Im",Flag::Fix,0,0); } int si=0; for(auto& s:d->shape) t.par(s.first,s.second*(1+0.01*P(-2,2,"shape%d",si)),100+si),si++; if(mps) for(auto& s:d->shape){ std::string n=s.first; size_t i=n.rfind('_'); auto* pr=ParticlePropertiesList::get(n.substr(0,i),true); if(!pr||!pr->hasDistinctAnti()) continue; std::string c=ParticlePropertiesList::get(-pr->pdgID(),true)->name()+n.substr(i); if(!mps->find(c)) mps->add(c,Flag::Free,mps->at(n)->mean(),0.1); } if(kind==Baryon||kind==SourceBar){ int k=0; for(const char* p:{"Px","Py","Pz"}) t.par(p,0.125*P(-4,4,"pol%d",k),110+k),k++; } return t.o; };
  auto make=[&](int r,bool last){ return sim::incarnation([=]{
    common(); { sim::NoFault nf; MinuitParameterSet dummy; const Def* d; std::vector<int> sub; sim::raw_write("/simfs/model.opt",model(&dummy,d,sub)); }
    int cores=P(1,8,"cores%d",r); sim::cores(cores); std::vector<std::string> a={"/simfs/model.opt","--nEvents",std::to_string(N),"--Seed="+std::to_string(seed),"--Output="+out,"--nCores="+std::to_string(cores),"--nBins",std::to_string(P(1,9,"bins"))}; int block=P(20,90,"block"); a.push_back("--BlockSize="+std::to_string(block)); 
    if(kind==Incoherent) a.push_back("--Type=IncoherentSum"); if(esrc){ a.push_back("--NormEvents=20"); a.push_back("--Normalise="+std::to_string(P(0,1,"empty_norm"))); } if(esrc==2||kind==Pseudo||kind==SourcePol||kind==SourceBar) a.push_back("--Type=PolarisedSum"); if(phsp) a.push_back(std::string("--PhaseSpace=")+(phsp==1?"TreePhaseSpace":phsp==2?"RecursivePhaseSpace":"PhaseSpace")); if(poisson) a.push_back("--PoissonYield"); if(conj) a.push_back("--Conj"); if(kind==Single) a.push_back("--Decay="+std::string(defs()[P(0,1,"model")].amps[P(0,3,"single")].full)); if(lib){ a.push_back("--NormEvents="+std::to_string(nNorm)); a.push_back("--SafetyFactor="+number(safety)); a.push_back("--Normalise="+std::to_string((int)norm)); } if(F(1,4,"no_2d")) a.push_back("--plots_2d=0");
    bool faulty=false; if(!last){ build_benign(); faulty=F(1,2,"faulty%d",r); if(faulty) build_faults(1,1+P(1,20,"rate%d",r)); if(F(1,4,"crash%d",r)) sim::enable(sim::F_CRASH,1,2+P(1,60,"crash_rate%d",r)); } if(F(1,3,"threads%d",r)){ sim::preempt_memory(true); sim::mem_every(P(5,60,"every%d",r)); }
    g[r].status=9; std::string said; int s=run_app(app_AmpGen,a,&said); g[r].status=s; if(s==1) sim::probe("program_stopped"); if(s==1&&!faulty&&kind!=Empty&&!poisson&&said.find("No events generated")==std::string::npos) sim::fail("program-failure","the generator stopped although nothing was wrong: %s",end_of(said).c_str()); if(kind==Empty&&s==0) sim::fail("program-unreported","the generator succeeded with a model without amplitudes");
  }); };
  auto look=[&](int r){ if(g[r].status!=0&&g[r].status!=2) return; if(kind==Empty) return; sim::incarnation([=]{
    common(); sim::NoFault nf; MinuitParameterSet mps; const Def* d; std::vector<int> sub; model(&mps,d,sub); EventType type(d->type); if(kind==Single) type=Particle(d->amps[sub[0]].full).eventType(); std::unique_ptr<Oracle> o; std::unique_ptr<SpinOracle> so; if(kind==Pseudo||kind==SourcePol||kind==Baryon||kind==SourceBar) so.reset(new SpinOracle(*d,type,mps,sub,false)); else o.reset(new Oracle(*d,type,mps,sub,kind==Incoherent?"Inco_":"")); if(o) o->prepare(); else so->prepare();
    auto prob=[&](const Ev& e,double& s){ if(so) return so->prob(e,&s); C t=0; double i=0; for(size_t k=0;k<sub.size();k++){ C c=kind==Single?C(1):o->coupling(k); C x=c*o->amp(k,e); t+=x; i+=std::norm(x); } s=i; return kind==Incoherent?i:std::norm(t); }; double s;
    if(lib){ if(!sim::raw_exists(dir+"model.so")){ if(g[r].status==0) sim::fail("program-output","the generator succeeded, but there is no library"); return; } if(g[r].status!=0) return; void* h=dlopen((dir+"model.so").c_str(),RTLD_NOW); auto f=h?(double(*)(const double*,const int&))dlsym(h,"FCN"):nullptr; if(!f) sim::fail("program-output","the generator succeeded, but its library cannot be used"); int one=1; List l=draw(type,0,60,false); double top=0,c=0; for(auto& e:l){ double p=prob(e,s), v=f(e.x.data(),one); if(!(v>0)||!std::isfinite(v)) sim::fail("program-value","the library gives %g for an event with probability %g",v,p); if(c==0) c=v/p; if(fabs(v-c*p)>1e-7*c*(p+s)) sim::fail("program-value","the library gives %.10g for an event, should be %.10g",v,c*p); top=pick(top,p); }
      if(!norm&&fabs(c-1)>1e-8) sim::fail("program-value","the library divides by %g though it was not to be normalised",1/c); double m=1/(c*safety); if(norm&&(m>30*top||m<top/1000)) sim::fail("program-value","the library is normalised to %g, events have up to %g",m,top); g[r].scale=c; g[r].n=1; dlclose(h); sim::probe("library_made"); return; }
    TFile* f=TFile::Open(out.c_str()); TTree* t=f?(TTree*)f->Get("DalitzEventList"):nullptr; if(!t) sim::fail("program-output","the generator succeeded, but there are no events in its output"); if(g[r].status==2) return;
    int n=t->GetEntries(); if(!poisson&&n!=N) sim::fail("program-number","the output has %d events, %d were asked for",n,N); EventType seen=conj?type.conj():type; auto fmt=seen.getEventFormat(true); auto* gp=t->col("genPdf"); auto* wt=t->col("weight"); if(!gp||!wt) sim::fail("program-output","the output lacks the density of its events"); unsigned long long h=1469598103934665603ull; double c=0;
    for(int e=0;e<n;e++){ Ev v; v.x.resize(4*type.size()); for(auto& k:fmt){ auto* col=t->col(k.first); if(!col) sim::fail("program-output","the output lacks %s",k.first.c_str()); if(k.second<v.x.size()) v.x[k.second]=col->v[e]; }
      double p[4]={0,0,0,0}; for(size_t i=0;i<type.size();i++){ for(int j=0;j<4;j++) p[j]+=v.x[4*i+j]; double m2=v.x[4*i+3]*v.x[4*i+3]-v.x[4*i]*v.x[4*i]-v.x[4*i+1]*v.x[4*i+1]-v.x[4*i+2]*v.x[4*i+2]; if(fabs(m2-type.mass(i)*type.mass(i))>1e-6) sim::fail("program-event","particle %zu of event %d has the wrong mass",i,e); } if(fabs(p[3]-type.motherMass())>1e-6||fabs(p[0])+fabs(p[1])+fabs(p[2])>1e-6) sim::fail("program-event","event %d does not conserve momentum",e);
      double w=prob(v,s), got=gp->v[e]; if(c==0){ c=got/w; if(fabs(c-1)>1e-7) sim::fail("program-density","the density of event 0 is %.10g, should be %.10g",got,w); } if(!(fabs(got-w)<=1e-7*(w+s))) sim::fail("program-density","the density of event %d is %.10g, should be %.10g",e,got,w); if(wt->v[e]!=1) sim::fail("program-event","event %d has weight %g",e,wt->v[e]); for(double x:v.x){ unsigned long long b; memcpy(&b,&x,8); h=(h^b)*1099511628211ull; } }
    int plots=0; for(auto& k:f->in) if(auto* hist=dynamic_cast<TH1*>(k.second)){ plots++; if(hist->n!=n) sim::fail("program-plots","plot %s has %g entries for %d events",k.first.c_str(),hist->n,n); } if(plots<3) sim::fail("program-plots","the output has %d plots",plots);
    g[r].n=n; g[r].h=h; sim::probe("sample_made");
  }); };
  int k=0; for(;k<=rounds;k++){ if(make(k,false)==sim::INC_CRASHED){ sim::probe("program_crashed"); g[k].status=1; } look(k); } if(kind!=Baryon){ make(k,true); look(k); k++; }
  int first=-1; for(int r=0;r<k;r++) if(g[r].status==0&&kind!=Empty){ if(first<0) first=r; else if(g[r].n!=g[first].n||g[r].h!=g[first].h||fabs(g[r].scale-g[first].scale)>1e-9*fabs(g[r].scale)) sim::fail("program-repeat","the same options gave a different output in another run"); }
}

SIM_CHECK(P32){
  sim::step_limit(4000000);
  static const std::vector<std::vector<std::string>> TYPES={{"D0","K-","pi+","pi0"},{"D0","K0S0","pi+","pi-"},{"D0","K-","pi+","pi+","pi-"}};
  int ty=P(0,2,"type"), rows=P(0,24,"rows"), rounds=P(0,2,"rounds"); bool mev=F(1,2,"mev"), energy=F(1,2,"energy"), reject=F(2,3,"reject"), cut=F(2,3,"cut"), mother=F(1,2,"mother"), neg=F(1,2,"neg"), pid=F(1,4,"pid"), ids=F(1,3,"ids"), flt=F(1,4,"float"), fr=F(1,4,"friend"), pdf=ty==0&&F(1,3,"pdf"); int monitors=P(0,2,"monitors"), lost=P(0,19,"lost"); const std::string dir="/simfs/out/", in="/simfs/in/"; sim::raw_write(dir+".keep",""); sim::raw_write(in+".keep","");
  struct Out { int status,n; unsigned long long h; }; Out* g=(Out*)sim::shared(sizeof(Out)*5);
  // the candidates; the order of the particles in the file differs from that of the decay if they have ids
  struct Cand { Ev e; std::vector<int> perm; int ev,run,tot,mother; double a,b; std::vector<double> w; bool anti; };
  auto input=[=]{ EventType type(TYPES[ty]); List l=draw(type,0,rows,false); std::vector<Cand> c(rows); std::map<std::pair<int,int>,int> tot; for(int i=0;i<rows;i++){ c[i].e=l[i]; c[i].ev=P(1,6,"event%d",i); c[i].run=P(1,2,"run%d",i); tot[{c[i].ev,c[i].run}]++; c[i].mother=P(0,1,"anti%d",i)?-421:421; c[i].a=q(P(-8,8,"a%d",i)); c[i].b=q(P(0,8,"b%d",i)); c[i].anti=ids&&ty!=1&&P(0,1,"conj%d",i); for(size_t k=0;k<type.size();k++){ c[i].perm.push_back(k); c[i].w.push_back(q(P(1,8,"pid%d_%zu",i,k))); } if(ids) for(size_t k=type.size()-1;k>0;k--) std::swap(c[i].perm[k],c[i].perm[P(0,k,"perm%d_%zu",i,k)]); if(flt) for(double& x:c[i].e.x) x=(float)(x*(mev?1000:1))*(mev?0.001:1.); } for(auto& x:c) x.tot=tot[{x.ev,x.run}]; return c; };
  auto passes=[=](const Cand& x){ return !cut||(x.a>q(P(-9,6,"cut_a"))&&x.b<q(P(1,9,"cut_b"))); };
  { sim::incarnation([=]{ common(); sim::NoFault nf; EventType type(TYPES[ty]); auto c=input(); TTree t("DecayTree",""); auto add=[&](const std::string& n,const char* ct,std::function<double(const Cand&)> f){ auto* col=new StubColumn; col->m_n=n; col->type=ct; for(auto& x:c) col->v.push_back(f(x)); t.br.push_back(col); t.n=c.size(); };
    double u=mev?1000:1; for(size_t k=0;k<type.size();k++){ std::string n="p"+std::to_string(k); const char* m[]={"_PX","_PY","_PZ","_PE"}; for(int j=0;j<4;j++) add(n+m[j],flt?"Float_t":"Double_t",[=](const Cand& x){ return x.e.x[4*x.perm[k]+j]*u; }); add(n+"_ID","Int_t",[=](const Cand& x){ auto* p=ParticleProperties::get(TYPES[ty][1+x.perm[k]]); int id=p->pdgID(); return x.anti&&p->hasDistinctAnti()?-id:id; }); }
    add("eventNumber","ULong64_t",[](const Cand& x){ return x.ev; }); add("runNumber","UInt_t",[](const Cand& x){ return x.run; }); add("totCandidates","ULong64_t",[](const Cand& x){ return x.tot; }); add("D_ID","Int_t",[](const Cand& x){ return x.mother; }); add("a","Double_t",[](const Cand& x){ return x.a; }); if(!fr) add("b","Float_t",[](const Cand& x){ return x.b; }); else { TTree w("More",""); auto* col=new StubColumn; col->m_n="b"; col->type="Float_t"; for(auto& x:c) col->v.push_back(x.b); w.br.push_back(col); w.n=c.size(); sim::raw_write(in+"more.root",w.stub_save()); }
    if(pdf){ const Def& d=defs()[0]; std::string o="EventType"; for(auto& p:d.type) o+=" "+p; o+="\n"; int a=P(1,2,"pdf_amp"); o+=std::string(d.amps[a].rules[0])+" Fix 0.75 0 Fix 0.25 0\n"; sim::raw_write("/simfs/pdf.opt",o); int rc=run_app(app_AmpGen,{"/simfs/pdf.opt","--Output="+in+"pdf.cpp","--Normalise=0","--nCores=1"},nullptr); if(rc||!sim::raw_exists(in+"pdf.so")) sim::fail("program-failure","the library for the density could not be made"); }
    if(lost!=1) sim::raw_write(in+"data.root",lost==2?"":t.stub_save()); if(pid) for(size_t k=0;k<type.size();k++){ if(lost==3&&k==1) continue; std::string n="p"+std::to_string(k); TTree w("CalibTool_PIDCalibTree",""); auto* col=new StubColumn; col->m_n=n+"_PIDCalibEffWeight"; col->type="Float_t"; for(auto& x:c) col->v.push_back(x.w[k]); w.br.push_back(col); w.n=c.size(); sim::raw_write(in+"pidCalib_"+n+"_repacked.root",w.stub_save()); }
    std::string o="EventType"; for(auto& p:TYPES[ty]) o+=" "+p; o+="\nInput "+in+"data.root\nTree DecayTree\nOutput "+dir+"sample.root\nPlots "+dir+"plots.root\nUnits "+(mev?"MeV":"GeV")+"\nrejectMultipleCandidates "+std::to_string((int)reject)+"\nParticleNames"; for(size_t k=0;k<type.size();k++) o+=" p"+std::to_string(k); o+="\nBranchFormat %s_PX %s_PY %s_PZ"+std::string(energy?" %s_PE":"")+"\n"; if(ids){ o+="IdBranches"; for(size_t k=0;k<type.size();k++) o+=" p"+std::to_string(k)+"_ID"; o+="\n"; } if(cut) o+="Cut a>"+number(q(P(-9,6,"cut_a")))+" && b<"+number(q(P(1,9,"cut_b")))+"\n"; if(monitors) o+=std::string("Monitors a")+(monitors==2?" b":"")+"\n"; if(mother) o+=std::string("MotherIDBranch ")+(neg?"-":"")+"D_ID\n"; if(pid) o+="usePIDCalib 1\n"; if(fr) o+="Friends "+in+"more.root:More\n"; if(pdf) o+="PdfLibrary "+in+"pdf.so\n"; sim::raw_write("/simfs/convert.opt",o); }); }
  auto make=[&](int r,bool last){ return sim::incarnation([=]{ common(); bool faulty=false; if(!last){ faulty=F(1,2,"faulty%d",r); if(faulty) sim::enable(sim::F_OPEN_FAIL,1,1+P(1,12,"rate%d",r)); if(F(1,4,"crash%d",r)) sim::enable(sim::F_CRASH,1,2+P(1,30,"crash_rate%d",r)); } g[r].status=9; std::string said; int s=run_app(app_DataConverter,{"/simfs/convert.opt"},&said); g[r].status=s; int sel=0; { sim::NoFault nf; for(auto& x:input()) sel+=passes(x); } bool wrong=lost==1||lost==2||(lost==3&&pid)||sel==0; if(s==1) sim::probe("program_stopped"); if(s&&!faulty&&!wrong) sim::fail("program-failure","the converter failed although nothing was wrong: %s",end_of(said).c_str()); if(wrong&&s==0) sim::fail("program-unreported","the converter succeeded though %s",sel==0?"no candidate was selected":"its input is missing"); }); };
  auto look=[&](int r){ if(g[r].status!=0) return; sim::incarnation([=]{ common(); sim::NoFault nf; EventType type(TYPES[ty]); auto c=input(); TFile* f=TFile::Open((dir+"sample.root").c_str()); TTree* t=f?(TTree*)f->Get("DalitzEventList"):nullptr; if(!t) sim::fail("program-output","the converter succeeded, but there are no events in its output"); std::map<std::pair<int,int>,int> seen; int want=0; for(auto& x:c) if(passes(x)){ if(!reject||x.tot==1) want++; else if(seen[{x.ev,x.run}]++==0) want++; } int n=t->GetEntries(); if(n!=want) sim::fail("program-number","the converter kept %d candidates, should be %d",n,want); seen.clear();
    auto fmt=type.getEventFormat(true); std::map<std::string,std::vector<double>> col; for(auto& k:fmt){ auto* x=t->col(k.first); if(!x) sim::fail("program-output","the output lacks %s",k.first.c_str()); } auto* wt=t->col("weight"); auto* gp=t->col("genPdf"); int last=-1; unsigned long long h=1469598103934665603ull; double sum=0; const int one=1; double (*lib)(const double*,const int&)=nullptr; if(pdf){ void* dl=dlopen((in+"pdf.so").c_str(),RTLD_NOW); lib=dl?(decltype(lib))dlsym(dl,"FCN"):nullptr; if(!lib) sim::fail("program-failure","the library for the density cannot be loaded"); }
    for(int e=0;e<n;e++){ std::vector<double> x(4*type.size()); for(auto& k:fmt) if(k.second<x.size()) x[k.second]=t->col(k.first)->v[e]; for(double y:x){ unsigned long long b; memcpy(&b,&y,8); h=(h^b)*1099511628211ull; } int hit=-1; for(int i=last+1;i<rows&&hit<0;i++){ if(!passes(c[i])) continue; double s=mother&&(neg?c[i].mother>0:c[i].mother<0)?-1:1; std::vector<bool> used(type.size()); bool all=true; for(size_t a=0;a<type.size()&&all;a++){ bool one=false; for(size_t b=0;b<type.size()&&!one;b++){ if(used[b]||TYPES[ty][1+a]!=TYPES[ty][1+b]) continue; bool same=true; for(int j=0;j<4;j++){ double v=c[i].e.x[4*b+j]*(j<3?s:1); if(!(fabs(v-x[4*a+j])<=(flt?1e-5:1e-9))) same=false; } if(same) used[b]=one=true; } if(!one) all=false; } if(all) hit=i; }
      if(hit<0) sim::fail("program-event","event %d of the output is not a selected candidate in the order of the input",e); last=hit; if(reject&&c[hit].tot!=1&&seen[{c[hit].ev,c[hit].run}]++) sim::fail("program-multiple","two candidates of one event were kept"); double w=1; if(pid) for(double y:c[hit].w) w*=y; if(!wt||fabs(wt->v[e]-w)>1e-6*w) sim::fail("program-weight","event %d has weight %g, should be %g",e,wt?wt->v[e]:0.,w); double dens=lib?lib(x.data(),one):1; if(!gp||!(fabs(gp->v[e]-dens)<=1e-9*fabs(dens))) sim::fail("program-weight","event %d has generated density %g",e,gp?gp->v[e]:0.); sum+=w; if(monitors){ auto* m=t->col("a"); if(!m||m->v[e]!=c[hit].a) sim::fail("program-monitor","monitored quantity of event %d is %g, should be %g",e,m?m->v[e]:0.,c[hit].a); } if(monitors==2){ auto* m=t->col("b"); if(!m||fabs(m->v[e]-c[hit].b)>1e-6) sim::fail("program-monitor","monitored quantity b of event %d is %g, should be %g",e,m?m->v[e]:0.,c[hit].b); } }
    TFile* fp=TFile::Open((dir+"plots.root").c_str()); int plots=0; if(fp) for(auto& k:fp->in) if(auto* hist=dynamic_cast<TH1*>(k.second)){ plots++; double all=0; for(double x:hist->c) all+=x; if(hist->n!=n||fabs(all-sum)>1e-6*sum) sim::fail("program-plots","plot %s has %g entries with sum %g for %d events with %g",k.first.c_str(),hist->n,all,n,sum); } if(plots<(int)(type.size()*(type.size()+1)/2)) sim::fail("program-plots","the output has %d plots",plots); g[r].n=n; g[r].h=h; sim::probe("sample_converted"); }); };
  int k=0; for(;k<=rounds;k++){ if(make(k,false)==sim::INC_CRASHED){ sim::probe("program_crashed"); g[k].status=1; } look(k); } make(k,true); look(k); k++;
  int first=-1; for(int r=0;r<k;r++) if(g[r].status==0){ if(first<0) first=r; else if(g[r].n!=g[first].n||g[r].h!=g[first].h) sim::fail("program-repeat","the same input gave a different output in another run"); }
}
SIM_CHECK(P33){
  sim::step_limit(4000000);
  enum { Signal, Background, Both, MisID }; int mode=P(0,3,"mode"); int which=mode==MisID?2:P(0,1,"model"); int nd=P(24,48,"data"), nm=P(30,60,"mc"), rounds=P(0,1,"rounds"); bool mev=F(1,3,"mev"), cut=F(1,3,"cut"), simcut=F(1,3,"simcut"), release=F(1,3,"release"), plots=F(2,3,"plots"), tied=F(1,2,"tied"), other=F(1,4,"conjugate"), perturb=F(1,4,"perturb")&&!(mode==Both&&tied); double cutAt=q(P(2,5,"cut_at"))+0.01, simAt=q(P(2,5,"sim_at"))+0.01; int lost=P(0,15,"lost"); int nb=F(1,2,"binned")?P(5,150,"bins"):100; const std::string dir="/simfs/out/", in="/simfs/in/"; sim::raw_write(dir+".keep",""); sim::raw_write(in+".keep","");
  struct Out { int status; double ll; }; Out* g=(Out*)sim::shared(sizeof(Out)*4); const Def& d=mode==MisID?spins()[2]:defs()[which]; std::vector<int> sub=mode==MisID?std::vector<int>{0,1}:std::vector<std::vector<int>>{{0},{1,3},{0,1,2}}[P(0,2,"subset")], bsub=mode==Background||mode==Both?std::vector<std::vector<int>>{{0},{1,2}}[P(0,1,"bsubset")]:std::vector<int>{0}, msub={2,3}; if(mode==Background) sub.clear(); if(mode==Signal) bsub.clear(); if(mode!=MisID) msub.clear();
  // options and the parameters they give; names of those that float
  auto model=[=](MinuitParameterSet* mps,std::vector<std::string>& free){ std::string o="EventType"; for(auto& p:d.type) o+=" "+p; o+="\n"; int left=2,id=0; auto par=[&](const std::string& n,double v,bool canFloat,double lo,double hi){ if(mps&&mps->find(n)) return; bool f=canFloat&&left>0&&F(2,3,"float%d",id); if(f){ left--; free.push_back(n); } id++; o+=n+(f?" Free ":" Fix ")+number(v)+" 0.25"+(lo!=hi?" "+number(lo)+" "+number(hi):"")+"\n"; if(mps) mps->add(n,f?Flag::Free:Flag::Fix,v,0.25,lo,hi); };
    auto couple=[&](const std::string& n,bool first){ if(mps&&mps->find(n+"_Re")) return; int k=id; double a=first?1:q(P(1,8,"re%d",k)),b=first?0:q(P(-8,8,"im%d",k)); bool fr=!first&&left>0&&F(1,2,"fre%d",k); if(fr){ left--; free.push_back(n+"_Re"); } bool fi=!first&&left>0&&F(1,2,"fim%d",k); if(fi){ left--; free.push_back(n+"_Im"); } id++; o+=n+(fr?" Free ":" Fix ")+number(a)+" 0.25"+(fi?" Free ":" Fix ")+number(b)+" 0.25\n"; if(mps){ mps->add(n+"_Re",fr?Flag::Free:Flag::Fix,a,0.25); mps->add(n+"_Im",fi?Flag::Free:Flag::Fix,b,0.25); } };
    if(lost!=4) par("fPDF",mode==Signal?1:mode==Background?0:mode==Both?0.125*P(2,7,"fpdf"):0.5,mode==Both&&tied,mode==Both?0.03125:0,mode==Both?0.96875:0); if(mode==Both&&tied&&lost!=4){ o+="fComb = 1.0 - fPDF\n"; if(mps) mps->add(new MinuitExpression(split(std::string("fComb = 1.0 - fPDF"),' '),mps)); } else par("fComb",mode==Signal?0:mode==Background?1:mode==Both?0.25:0.125,false,0,0); par("fMisID",mode==MisID?0.375:0,false,0,0);
    auto all=[&](const std::vector<int>& s,const std::string& prefix){ bool first=true; for(int a:s){ int k=0; for(auto* r:d.amps[a].rules){ couple((k==0?prefix:"")+r,first||k>0); k++; } first=false; } }; all(sub,""); all(bsub,"Inco_"); all(msub,""); int si=0; for(auto& s:d.shape) par(s.first,s.second*(1+0.01*P(-2,2,"shape%d",si)),false,0,0),si++;
    if(mps) for(auto& s:d.shape){ std::string n=s.first; size_t i=n.rfind('_'); auto* pr=ParticlePropertiesList::get(n.substr(0,i),true); if(!pr||!pr->hasDistinctAnti()) continue; std::string c=ParticlePropertiesList::get(-pr->pdgID(),true)->name()+n.substr(i); if(!mps->find(c)) mps->add(c,Flag::Fix,mps->at(n)->mean(),0.1); } return o; };
  auto samples=[=](List& data,List& mc){ EventType type(d.type); data=draw(type,0,nd,false); mc=draw(type,1,nm,false); for(auto* l:{&data,&mc}) for(auto& e:*l) e.w=1; };
  sim::incarnation([=]{ common(); sim::NoFault nf; MinuitParameterSet dummy; std::vector<std::string> free; std::string o=model(&dummy,free); EventType type(d.type); List data,mc; samples(data,mc); auto save=[&](List l,const char* n){ if(mev) for(auto& e:l) for(double& x:e.x) x*=1000; EventList e=aos(other?type.conj():type,l); sim::raw_write(in+n,e.tree("DalitzEventList")->stub_save()); }; if(lost!=1) save(data,"data.root"); if(lost!=2) save(mc,"mc.root"); o+="DataSample "+in+"data.root\nSimSample "+in+"mc.root\nLogFile "+dir+"fit.log\nPlots "+dir+"plots.root\nMinimiser::PrintLevel "+(F(1,2,"quiet")?"Quiet":"Info")+"\n"; if(mev) o+="Units MeV\n"; if(nb!=100) o+="nBins "+std::to_string(nb)+"\n"; if(other) o+="Bar 1\n"; if(cut) o+="Cut genPdf>"+number(cutAt)+"\n"; if(simcut) o+="SimCut genPdf>"+number(simAt)+"\n"; if(!plots) o+="MakePlots 0\n"; if(perturb) o+="Perturb 1\nSeed "+std::to_string(P(1,9,"seed"))+"\n"; if(release){ o+="nIterations 1\nRelease"; for(auto& f:free) o+=" "+f; if(free.empty()) o+=" nothing"; o+="\n"; } sim::raw_write("/simfs/fit.opt",o); });
  auto make=[&](int r,bool last){ return sim::incarnation([=]{ common(); int cores=P(1,4,"cores%d",r); sim::cores(cores); bool faulty=false; if(!last){ build_benign(); faulty=F(1,2,"faulty%d",r); if(faulty) build_faults(1,1+P(1,20,"rate%d",r)); if(F(1,4,"crash%d",r)) sim::enable(sim::F_CRASH,1,2+P(1,60,"crash_rate%d",r)); } g[r].status=9; std::string said; int s=run_app(app_Fitter,{"/simfs/fit.opt","--nCores="+std::to_string(cores)},&said); g[r].status=s; bool wrong=lost==1||lost==2||lost==4; if(s==1) sim::probe("program_stopped"); if(s==1&&!faulty&&!wrong) sim::fail("program-failure","the fitter stopped although nothing was wrong: %s",end_of(said).c_str()); if(wrong&&s==0) sim::fail("program-unreported","the fitter succeeded without its input"); }); };
  auto look=[&](int r){ if(g[r].status!=0) return; sim::incarnation([=]{ common(); sim::NoFault nf; MinuitParameterSet mps; std::vector<std::string> free; model(&mps,free); EventType type(d.type), bar=type.conj(true); List data,mc,c; samples(data,mc); if(cut){ for(auto& e:data) if(e.g>cutAt) c.push_back(e); data=c; c.clear(); } if(simcut){ for(auto& e:mc) if(e.g>simAt) c.push_back(e); mc=c; }
    // the log
    std::istringstream in2(sim::raw_exists(dir+"fit.log")?sim::raw_read(dir+"fit.log"):""); std::string line; std::map<std::string,std::vector<std::string>> pars; std::map<std::string,double> frac; double chi2=-1,bins=-1,ll=0; int npar=-1,status=-1; bool end=false; while(std::getline(in2,line)){ std::istringstream l(line); std::vector<std::string> w; std::string x; while(l>>x) w.push_back(x); if(w.empty()) continue; if(w[0]=="Parameter"&&w.size()>=5) pars[w[1]]=w; if(w[0]=="FitFraction"&&w.size()>=3) frac[w[1]]=atof(w[2].c_str()); if(w[0]=="FitQuality"&&w.size()>=6){ chi2=atof(w[1].c_str()); bins=atof(w[2].c_str()); npar=atoi(w[3].c_str()); ll=atof(w[4].c_str()); status=atoi(w[5].c_str()); } if(w[0]=="End") end=true; }
    if(!end) sim::fail("fit-log","the fitter succeeded, but its log is incomplete"); if(npar!=(int)free.size()) sim::fail("fit-log","%d parameters are said to float, should be %zu",npar,free.size());
    for(auto* p:mps){ if(dynamic_cast<MinuitExpression*>(p)) continue; auto it=pars.find(p->name()); if(it==pars.end()){ if(p->flag()==Flag::Fix&&p->stepInit()==0.1) continue; sim::fail("fit-log","parameter %s is not in the log",p->name().c_str()); } bool f=std::count(free.begin(),free.end(),p->name()); double v=atof(it->second[3].c_str()); if(it->second[2]!=(f?"Free":"Fix")&&!(it->second[2]=="Hide"&&p->stepInit()==0.1)) sim::fail("fit-log","parameter %s is %s in the log, should be %s",p->name().c_str(),it->second[2].c_str(),f?"Free":"Fix"); if(!f&&fabs(v-p->mean())>1e-5) sim::fail("fit-fixed","the fixed parameter %s went from %g to %g",p->name().c_str(),p->mean(),v); if(f) p->setCurrentFitVal(v); }
    std::vector<std::unique_ptr<Oracle>> os; std::vector<bool> inco; std::vector<const char*> wn; auto add=[&](const EventType& t,const std::vector<int>& s,const char* prefix,const char* w){ os.emplace_back(new Oracle(d,t,mps,s,prefix)); os.back()->prepare(); inco.push_back(*prefix); wn.push_back(w); }; if(mode!=Background) add(type,sub,"","fPDF"); if(mode!=Signal) add(type,bsub,"Inco_","fComb"); if(mode==MisID) add(bar,msub,"","fMisID"); std::vector<Values> mv,dv; for(auto& o:os){ mv.push_back(values(*o,mc)); dv.push_back(values(*o,data)); } auto truths=[&]{ std::vector<Truth> t; for(size_t k=0;k<os.size();k++) t.push_back(truth(*os[k],inco[k],mc,mv[k],mps[wn[k]]->mean())); return t; };
    auto like=[&]{ auto t=truths(); double s=0; for(size_t e=0;e<data.size();e++){ double p=0; for(size_t k=0;k<t.size();k++) if(os[k]->which.size()) p+=t[k].prob(dv[k].a[e]); s-=2*log(p); } return s; }; double L=like(); if(!(fabs(L-ll)<1e-3+1e-6*fabs(L))) sim::fail("fit-likelihood","the log has likelihood %.8g, for its parameters it should be %.8g",ll,L);
    if(status==0) for(auto& f:free) for(int s=-1;s<=1;s+=2){ auto* p=mps[f]; double v=p->mean(), h=1e-3*s; if((p->minInit()!=0||p->maxInit()!=0)&&(v+h<p->minInit()||v+h>p->maxInit())) continue; p->setCurrentFitVal(v+h); double l=like(); p->setCurrentFitVal(v); if(l<L-2e-4) sim::fail("fit-minimum","the likelihood is %.8g at the end of the fit, but %.8g if %s is changed from %g by %g",L,l,f.c_str(),v,h); }
    auto t=truths(); std::vector<double> dens(mc.size()); for(size_t k=0;k<t.size();k++) if(os[k]->which.size()) for(size_t e=0;e<mc.size();e++) dens[e]+=t[k].prob(mv[k].a[e]); EventList D=aos(type,data), M=aos(type,mc); EventListSIMD DS(D),MS(M); Chi2Estimator ce(DS,MS,[&](const Event& e){ return dens[e.index()]; },MinEvents(15),Dim(type.dof())); if(fabs(ce.chi2()-chi2)>1e-3*(1+fabs(ce.chi2()))||ce.nBins()!=bins) sim::fail("fit-chi2","the log has chi2 %.8g in %g bins, should be %.8g in %g",chi2,bins,ce.chi2(),ce.nBins());
    if(mode!=Background){ auto& o=*os[0]; size_t n=o.which.size(); if(n>1) for(size_t i=0;i<n;i++){ std::string a=o.d.amps[o.which[i]].rules[0]; double w=std::real(std::norm(t[0].c[i])*t[0].norms[i][i])/t[0].norm; if(!frac.count(a)) sim::fail("fit-fraction","the log lacks the fraction of %s",a.c_str()); if(fabs(frac[a]-w)>1e-5*(1+w)) sim::fail("fit-fraction","the fraction of %s is %.8g, should be %.8g",a.c_str(),frac[a],w); } }
    TFile* f=TFile::Open((dir+"plots.root").c_str()); if(!f) sim::fail("fit-plots","the fitter succeeded, but there are no plots"); auto compare=[&](TH1D* want,const std::string& n,double to){ auto* h=dynamic_cast<TH1*>(f->Get(n.c_str())); if(!h) sim::fail("fit-plots","there is no plot %s",n.c_str()); double sum=0; for(size_t b=1;b+1<want->c.size();b++) sum+=want->c[b]; double s=to<0?1:to/sum; for(size_t b=0;b<want->c.size();b++) if(fabs(h->c.at(b)-s*want->c[b])>1e-4*(fabs(s*want->c[b])+(to<0?0:to*1e-3))) sim::fail("fit-plots","bin %zu of %s is %g, should be %g",b,n.c_str(),h->c[b],s*want->c[b]); };
    for(auto& pr:type.defaultProjections(nb)) compare(D.makeProjection(pr,PlotOptions::Prefix("Data_")),pr.plot("Data_")->GetName(),-1); if(plots) for(size_t k=0;k<t.size();k++){ if(os[k]->which.empty()) continue; std::vector<double> w(mc.size()); for(size_t e=0;e<mc.size();e++) w[e]=t[k].prob(mv[k].a[e]); std::string pre="tMC_Category"+std::to_string(k+1); for(auto& pr:type.defaultProjections(100)) compare(M.makeProjection(pr,WeightFunction([&](const Event& e){ return w[e.index()]; }),PlotOptions::Prefix(pre)),pr.plot(pre)->GetName(),data.size()*t[k].weight); }
    g[r].ll=L; sim::probe("fit_done"); if(free.size()) sim::probe("fit_floating"); if(status) sim::probe("fit_not_converged"); }); };
  int k=0; for(;k<=rounds;k++){ if(make(k,false)==sim::INC_CRASHED){ sim::probe("program_crashed"); g[k].status=1; } look(k); } make(k,true); look(k); k++;
  int first=-1; for(int r=0;r<k;r++) if(g[r].status==0){ if(first<0) first=r; else if(fabs(g[r].ll-g[first].ll)>1e-3) sim::fail("fit-repeat","the same fit ended with likelihood %.8g in one run and %.8g in another",g[first].ll,g[r].ll); }
}
