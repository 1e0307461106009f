// Generating events from a model
#include "model.h"
#include "AmpGen/TreePhaseSpace.h"
#include "AmpGen/RecursivePhaseSpace.h"
namespace {
struct Out { int n; unsigned long long h; int block; };
template<class G,class M> void run(G& g,M& m,EventList& l,size_t N,bool whole){ if(whole){ EventList r=g.generate(m,N); l.add(r); } else g.fillEventList(m,l,N); }
// an independent phase space: masses of the subsystems drawn freely, the momenta as weight
struct Flat { double M; std::vector<double> m; TRandom3& r; 
  static double p(double M,double a,double b){ double x=(M*M-(a+b)*(a+b))*(M*M-(a-b)*(a-b)); return x<=0?0:sqrt(x)/(2*M); }
  static void boost(double* v,const double* to,double m){ double g=to[3]/m, b[3]={to[0]/m,to[1]/m,to[2]/m}, d=b[0]*v[0]+b[1]*v[1]+b[2]*v[2]; double e=g*v[3]+d; for(int i=0;i<3;i++) v[i]+=b[i]*(d/(g+1)+v[3]); v[3]=e; }
  double make(std::vector<double>& x){ size_t n=m.size(); x.assign(4*n,0); std::vector<double> s(n); double sum=0; for(double a:m) sum+=a; for(;;){ double low=m[0]; s[0]=m[0]; s[n-1]=M; bool ok=true; for(size_t i=1;i+1<n;i++){ low+=m[i]; s[i]=low+(M-sum)*r.Rndm(); } for(size_t i=1;i<n;i++) ok=ok&&s[i]>=s[i-1]+m[i]; if(ok) break; } double w=1; std::vector<double> sys={0,0,0,M};
    for(size_t i=n-1;i>0;i--){ double k=p(s[i],s[i-1],m[i]); w*=k; double z=2*r.Rndm()-1, f=2*M_PI*r.Rndm(), t=sqrt(1-z*z); double a[4]={k*t*cos(f),k*t*sin(f),k*z,sqrt(k*k+m[i]*m[i])}, b[4]={-a[0],-a[1],-a[2],sqrt(k*k+s[i-1]*s[i-1])}; boost(a,sys.data(),s[i]); boost(b,sys.data(),s[i]); for(int j=0;j<4;j++) x[4*i+j]=a[j]; sys.assign(b,b+4); } for(int j=0;j<4;j++) x[j]=sys[j]; return w; } };
double inv(const std::vector<double>& x,std::initializer_list<int> k){ double p[4]={0,0,0,0}; for(int i:k) for(int j=0;j<4;j++) p[j]+=x[4*i+j]; return p[3]*p[3]-p[0]*p[0]-p[1]*p[1]-p[2]*p[2]; }
// candidates, weighted by the inverse of their density, follow phase space
void candidates(){
  struct Case { std::vector<std::string> type, chains; }; static const std::vector<Case> cases={
    {{"D0","K-","pi+","pi0"},{"D0{K*(892)bar0{K-,pi+},pi0}","D0{rho(770)+{pi+,pi0},K-}","D0{K*(892)bar-{K-,pi0},pi+}","D0{K-,pi+,pi0}","D0{K(0)*(1430)bar0{K-,pi+},pi0}"}},
    {{"D0","K-","pi+","pi+","pi-"},{"D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}","D0{a(1)(1260)+{rho(770)0{pi+,pi-},pi+},K-}","D0{K-,pi+,pi+,pi-}","D0{K*(892)bar0{K-,pi+},pi+,pi-}","D0{rho(770)0{pi+,pi-},K-,pi+}"}},
    {{"B0","K+","pi-","gamma0"},{"B0{K*(892)0{K+,pi-},gamma0}","B0{K(2)*(1430)0{K+,pi-},gamma0}","B0{K+,pi-,gamma0}"}} };
  static const std::vector<Case> quasi={ {{"Lambda(c)+","p+","pi-","pi+"},{"Lambda(c)+{Lambda0{p+,pi-},pi+}","Lambda(c)+{pi+,Lambda0{pi-,p+}}"}}, {{"Lambda(c)+","pi+","p+","pi-","pi0"},{"Lambda(c)+{Lambda0{p+,pi-},pi+,pi0}","Lambda(c)+{pi0,pi+,Lambda0{p+,pi-}}","Lambda(c)+{pi+,Lambda0{p+,pi-},pi0}"}} };
  int how=P(0,4,"generator"); bool rec=how==3; const Case& c=rec?quasi[P(0,1,"quasi")]:cases[P(0,2,"case")]; EventType type(c.type,how==0&&F(1,2,"time")); TRandom3 rnd(7000+P(0,500,"seed")), ref(99000+P(0,500,"refseed")); size_t n=type.size(), N=std::vector<size_t>{1000,8000,60000}[P(0,2,"size")], R=N>4000?N:4000; const int nch=c.chains.size();
  std::vector<Particle> ch; std::vector<std::string> fs=type.finalStates(); if(how==1||how==2||how==4){ int k=P(1,3,"chains"), at=P(0,nch-1,"chain"), step=P(1,2,"step"); for(int i=0;i<k&&i<nch;i++) ch.emplace_back(c.chains[(at+i*step)%nch],fs); }
  std::unique_ptr<PhaseSpace> ps; std::unique_ptr<TreePhaseSpace> ts; std::unique_ptr<RecursivePhaseSpace> rs; if(how==0) ps.reset(new PhaseSpace(type,&rnd)); else if(rec) rs.reset(new RecursivePhaseSpace(Particle(c.chains[P(0,nch-1,"chain")],fs).quasiStableTree(),type,&rnd)); else if(how==1) ts.reset(new TreePhaseSpace(ch[0],type,&rnd)); else ts.reset(new TreePhaseSpace(ch,type,&rnd)); if(ts) ts->setRandom(&rnd); if(rs) rs->setRandom(&rnd);
  auto next=[&]{ return ps?ps->makeEvent():ts?ts->makeEvent():rs->makeEvent(); };
  if(how==4){ EventList l(type); for(int i=P(20,60,"nweights");i>0;i--) l.push_back(next()); EventListSIMD v(l); ts->recalculate_weights(v); }
  // reference: with a quasi-stable particle, the two steps one after the other
  int lp=-1,lm=-1,o1=-1,o2=-1; if(rec) for(size_t i=0;i<n;i++){ if(fs[i]=="p+") lp=i; else if(fs[i]=="pi-") lm=i; else if(o1<0) o1=i; else o2=i; } double ML=rec?ParticlePropertiesList::get("Lambda0")->mass():0;
  Flat flat{type.motherMass(),type.masses(),ref}; std::vector<double> tmp; if(rec){ flat.m={ML,type.mass(o1)}; if(o2>=0) flat.m.push_back(type.mass(o2)); }
  auto reference=[&](std::vector<double>& x){ if(!rec) return flat.make(x); double w=flat.make(tmp); x.assign(4*n,0); Flat two{ML,{type.mass(lp),type.mass(lm)},ref}; std::vector<double> d; two.make(d); double l[4]={tmp[0],tmp[1],tmp[2],tmp[3]}; Flat::boost(&d[0],l,ML); Flat::boost(&d[4],l,ML); for(int j=0;j<4;j++){ x[4*lp+j]=d[j]; x[4*lm+j]=d[4+j]; x[4*o1+j]=tmp[4+j]; if(o2>=0) x[4*o2+j]=tmp[8+j]; } return w; };
  std::vector<std::function<double(const std::vector<double>&)>> obs; for(size_t i=0;i<n;i++){ for(size_t j=i+1;j<n;j++) obs.push_back([=](const std::vector<double>& x){ return inv(x,{(int)i,(int)j}); }); for(int d=0;d<3;d++) obs.push_back([=](const std::vector<double>& x){ return x[4*i+d]; }); } if(n>3) for(size_t i=0;i<n;i++) obs.push_back([=](const std::vector<double>& x){ return inv(x,{i==0?1:0,i<=1?2:1,i<=2?3:2}); });
  std::vector<std::vector<double>> a(R),b(N); std::vector<double> wa(R),wb(N); for(size_t i=0;i<R;i++) wa[i]=reference(a[i]); double time=0;
  for(size_t i=0;i<N;i++){ Event e=next(); if(e.size()!=4*n+(type.isTimeDependent()?1:0)) sim::fail("candidate","a candidate has %u values",e.size()); b[i].assign(e.address(),e.address()+e.size()); wb[i]=1/e.genPdf(); if(!(wb[i]>0)||!std::isfinite(wb[i])) sim::fail("candidate","candidate %zu has density %g",i,e.genPdf()); if(type.isTimeDependent()){ double t=b[i].back(); if(!(t>=0)) sim::fail("candidate","candidate %zu has decay time %g",i,t); time+=t/N; } double s[4]={0,0,0,0}; for(size_t p=0;p<n;p++){ for(int k=0;k<4;k++) s[k]+=b[i][4*p+k]; double m=type.mass(p); if(fabs(inv(b[i],{(int)p})-m*m)>1e-6) sim::fail("candidate","particle %zu of candidate %zu has the wrong mass",p,i); } if(fabs(s[3]-type.motherMass())>1e-6||fabs(s[0])+fabs(s[1])+fabs(s[2])>1e-6) sim::fail("candidate","candidate %zu does not conserve momentum",i); if(rec&&fabs(sqrt(inv(b[i],{lp,lm}))-ML)>1e-6) sim::fail("candidate","candidate %zu has not the mass of its quasi-stable particle",i); }
  if(type.isTimeDependent()){ double l=ParticlePropertiesList::get(type.mother())->lifetime(); if(fabs(time/l-1)*sqrt(N)>7) sim::fail("candidate-time","the mean decay time of %zu candidates is %g, should be %g",N,time,l); }
  double worst=0,top=0,W=0; for(double w:wb){ W+=w; if(w>top) top=w; } std::vector<double> va(R),vb(N);
  auto part=[](const std::vector<double>& v,const std::vector<double>& w,double cut,double& err){ double in=0,all=0,in2=0,all2=0; const double *x=v.data(),*y=w.data(); for(size_t i=0,n=v.size();i<n;i++){ double t=y[i]; all+=t; all2+=t*t; if(x[i]<cut){ in+=t; in2+=t*t; } } double f=in/all; err=(in2*(1-f)*(1-f)+(all2-in2)*f*f)/(all*all); return f; };
  for(size_t k=0;k<obs.size();k++){ for(size_t i=0;i<R;i++) va[i]=obs[k](a[i]); for(size_t i=0;i<N;i++) vb[i]=obs[k](b[i]); std::vector<double> s(va.begin(),va.begin()+1000); std::sort(s.begin(),s.end()); if(s.back()-s[0]<1e-6) continue; for(int q=1;q<8;q++){ double cut=s[s.size()*q/8],ea,eb,fa=part(va,wa,cut,ea),fb=part(vb,wb,cut,eb); 
    double pull=fabs(fa-fb)/sqrt(ea+eb+4*top*top/W/W); if(pull>worst) worst=pull; if(pull>7) sim::fail("candidate-density","%zu candidates weighted by the inverse of their density have a share of %.3f below %g in quantity %zu, phase space has %.3f",N,fb,cut,k,fa); } }
  { size_t k=P(0,40,"plain"); std::string words; for(auto& p:c.type) words+=(words.empty()?"":" ")+p; std::vector<double> out(4*n*k+8,-77.); python__generate(words.c_str(),out.data(),k); TRandom3 r2(3); Generator<PhaseSpace> g(EventType(c.type)); g.setRandom(&r2); EventList l=g.generate(k); if(l.size()!=k) sim::fail("candidate","%zu events were generated, %zu were asked for",(size_t)l.size(),k); for(size_t i=0;i<8;i++) if(out[4*n*k+i]!=-77.) sim::fail("candidate","generating %zu events wrote behind their end",k);
    for(int w=0;w<2;w++) for(size_t e=0;e<k;e++){ const double* x=w?l[e].address():&out[4*n*e]; double s[4]={0,0,0,0}; for(size_t p=0;p<n;p++){ std::vector<double> v(x+4*p,x+4*p+4); for(int j=0;j<4;j++) s[j]+=v[j]; double m=type.mass(p); if(!(fabs(inv(v,{0})-m*m)<1e-6)) sim::fail("candidate","particle %zu of generated event %zu of %zu has the wrong mass",p,e,k); } if(!(fabs(s[3]-type.motherMass())<1e-6&&fabs(s[0])+fabs(s[1])+fabs(s[2])<1e-6)) sim::fail("candidate","generated event %zu of %zu does not conserve momentum",e,k); if(e&&x[0]==(w?l[e-1].address():&out[4*n*(e-1)])[0]) sim::fail("candidate","generated events %zu and %zu are the same",e-1,e); } }
  sim::note("largest deviation %.1f",worst); sim::probe(rec?"candidates_quasi_stable":ts?"candidates_tree":"candidates_flat");
}
}
SIM_CHECK(P25){
  if(F(1,5,"candidates")){ sim::incarnation([]{ common(); candidates(); }); return; }
  Out* out=(Out*)sim::shared(2*sizeof(Out)); bool twice=F(1,3,"twice");
  for(int turn=0;turn<=(int)twice;turn++) sim::incarnation([=]{
    common(); if(turn){ int c=P(1,8,"cores_again"); sim::cores(c); OptionsParser::setArg("nCores "+std::to_string(c)); }
    static const int KIND[]={0,1,2,0,1,3}; int kind=KIND[P(0,5,"kind")]; int which=kind==2?0:P(0,1,"model"); const Def& d=kind==2?spins()[0]:defs()[which]; EventType type(d.type); MinuitParameterSet mps; auto sub=SUBSETS[0][P(0,2,"subset")];
    for(int a:sub) for(auto* r:d.amps[a].rules){ std::string n=r; if(mps.find(n+"_Re")) continue; mps.add(n+"_Re",Flag::Free,q(P(1,8,"re%d",a)),0.1); mps.add(n+"_Im",Flag::Free,q(P(-8,8,"im%d",a)),0.1); }
    for(auto& s:d.shape) mps.add(s.first,Flag::Free,s.second,0.01); mps.add("yield",Flag::Free,0.75,0.01);
    std::unique_ptr<CoherentSum> co; std::unique_ptr<IncoherentSum> in; std::unique_ptr<PolarisedSum> po; if(kind==0||kind==3) co.reset(new CoherentSum(type,mps)); else if(kind==1) in.reset(new IncoherentSum(type,mps,"")); else po.reset(new PolarisedSum(type,mps));
    Oracle o(d,type,mps,sub,""); o.prepare(); List mcl=draw(type,0,P(1,9,"nmc"),false); EventList mca=aos(type,mcl); EventListSIMD mc(mca); bool norm=F(1,2,"normalised"); bool w=F(1,2,"yield");
    auto each=[&](auto f){ if(co) f(*co); if(in) f(*in); if(po) f(*po); }; each([&](auto& m){ if(norm) m.setMC(mc); if(w) m.setWeight(mps["yield"]); });
    auto unnorm=[&](const Ev& e){ C t=0; double i=0; for(size_t k=0;k<sub.size();k++){ C x=o.coupling(k)*o.amp(k,e); t+=x; i+=std::norm(x); } return kind==1?i:std::norm(t); };
    // a model that was normalised before may keep the factor
    TRandom3 rnd(5000+P(0,300,"seed")), ro(rnd.GetSeed()); std::vector<Particle> chains; if(kind==3) for(int a:sub) chains.emplace_back(d.amps[a].full,type.finalStates());
    Generator<PhaseSpace> g(type); g.setRandom(&rnd); PhaseSpace ph(type,&ro); std::unique_ptr<Generator<TreePhaseSpace>> gt; std::unique_ptr<TreePhaseSpace> pt; if(kind==3){ gt.reset(new Generator<TreePhaseSpace>(chains,type,&rnd)); gt->setRandom(&rnd); pt.reset(new TreePhaseSpace(chains,type,&ro)); pt->setRandom(&ro); ro.SetSeed(rnd.GetSeed()); }
    EventList l(type); List want; if(F(1,2,"filled")){ List old=draw(type,1,P(1,5,"nold"),true); l=aos(type,old); want=old; }
    if(F(1,2,"threads")){ sim::preempt_memory(true); sim::mem_every(P(3,40,"every")); }
    int n=P(1,3,"samples");
    for(int k=0;k<n;k++){
      if(k&&F(1,2,"change%d",k)){ mps[std::string(d.amps[sub[0]].rules[0])+"_Re"]->setCurrentFitVal(q(P(1,12,"val%d",k))); if(F(1,2,"shape%d",k)) mps[d.shape[0].first]->setCurrentFitVal(d.shape[0].second*(1+0.01*P(-5,5,"sval%d",k))); o.prepare(); }
      size_t B=P(1,24,"block%d",k), N=P(0,30,"n%d",k); bool flag=F(3,4,"norm%d",k); flag=flag||norm; double f=w?mps["yield"]->mean():1; size_t first=want.size();
      // what accepting and rejecting the candidates in their order gives
      double top=flag?0:1; size_t got=0; bool stuck=false;
      while(got<N&&!stuck){ std::vector<Ev> c; std::vector<double> p,r; for(size_t i=0;i<B;i++){ Event e=kind==3?pt->makeEvent():ph.makeEvent(); Ev v; v.x.assign(e.address(),e.address()+e.size()); c.push_back(v); p.push_back(f*unnorm(v)); r.push_back(p[i]/e.genPdf()); } if(top==0){ for(double x:r) if(x>top) top=x; top*=1.5; }
        size_t before=got; for(size_t i=0;i<B;i++){ double u=top*ro.Rndm(); if(fabs(r[i]-u)<1e-6*u){ sim::probe("close_decision"); return; } if(r[i]>u){ c[i].g=p[i]; want.push_back(c[i]); got++; } if(got==N) break; } stuck=got==before; }
      if(stuck) sim::probe("block_without_events");
      if(kind==3){ gt->setBlockSize(B); gt->setNormFlag(flag); run(*gt,*co,l,N,F(1,3,"whole%d",k)); } else { g.setBlockSize(B); g.setNormFlag(flag); each([&](auto& m){ run(g,m,l,N,F(1,3,"whole%d",k)); }); }
      sim::note("generated %zu of %zu",got,N);
      if(F(1,3,"norm_after%d",k)){ // the model can be used on: it is normalised, and the sample it was generated with is gone
        double t=0,s=0; for(auto& e:mcl){ s+=e.w/e.g*unnorm(e); t+=e.w/e.g; } each([&](auto& m){ m.setMC(mc); m.prepare(); WANT("norm",m.norm(),s/t,s/t,"the normalisation after generating events"); }); norm=true; }
      if(l.size()!=want.size()) sim::fail("number","a list of %zu events was left after %zu were to be added to %zu, should be %zu",(size_t)l.size(),N,want.size()-got,want.size());
      double c=norm&&got?l[first].genPdf()/want[first].g:1; if(!(c>0)) sim::fail("density","the density of a generated event is not positive"); for(size_t i=first;i<want.size();i++) want[i].g*=c;
      for(size_t i=0;i<want.size();i++){ const Event& e=l[i]; if(e.index()!=i) sim::fail("index","generated event %zu says it is event %u",i,e.index()); if(e.weight()!=want[i].w) sim::fail("weight","event %zu has weight %g, should have %g",i,e.weight(),want[i].w); for(size_t j=0;j<want[i].x.size();j++) if(!close(e[j],want[i].x[j],1e-3)) sim::fail("event","event %zu of %zu is not the candidate that was accepted",i,want.size()); WANT("density",e.genPdf(),want[i].g,c*fabs(f)*1e-3,"the density of generated event %zu of %zu",i,want.size()); }
      for(size_t i=want.size()-got;i<want.size();i++){ double s[4]={0,0,0,0}; for(size_t p=0;p<type.size();p++){ for(int c=0;c<4;c++) s[c]+=l[i][4*p+c]; double m2=l[i][4*p+3]*l[i][4*p+3]-l[i][4*p]*l[i][4*p]-l[i][4*p+1]*l[i][4*p+1]-l[i][4*p+2]*l[i][4*p+2]; if(fabs(m2-type.mass(p)*type.mass(p))>1e-6) sim::fail("kinematics","particle %zu of a generated event has the wrong mass",p); } if(fabs(s[3]-type.motherMass())>1e-6||fabs(s[0])+fabs(s[1])+fabs(s[2])>1e-6) sim::fail("kinematics","a generated event does not conserve momentum"); }
    }
    unsigned long long h=1469598103934665603ull; for(auto& e:l) for(unsigned j=0;j<e.size();j++){ unsigned long long b; double x=e[j]; memcpy(&b,&x,8); h=(h^b)*1099511628211ull; } out[turn].n=l.size(); out[turn].h=h;
    if(turn&&(out[0].n!=out[1].n||out[0].h!=out[1].h)) sim::fail("repeatable","the same sample generated again, with another number of threads, is different");
  });
}
