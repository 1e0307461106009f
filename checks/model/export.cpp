// Models written out as source and library, and the libraries used by later processes
#include "model.h"
#include <string.h>
#include <dlfcn.h>
namespace {
struct Want { bool set; int events,size; double p[3],m[3],ext[3],sp[3],x[3][24],amp[3][2],sa; double a[3][8][2],as[3]; char name[4][100]; int names; char type[100]; double pol[3]; };
const Def& four(){ static const Def d={{"D0","K-","pi+","pi+","pi-"},{{"D0[S]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}",{"D0[S]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}"}},{"D0[P]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}",{"D0[P]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}"}}},{{"K*(892)bar0_mass",0.895}}}; return d; }
bool near(double a,double b,double s){ return fabs(a-b)<=1e-7*(fabs(b)+s)+1e-280; }
// whether a library gives what was wanted; says what is wrong with it otherwise
std::string differs(void* h,const Want& w){
  char b[300]; auto sym=[&](const std::string& n){ return dlsym(h,n.c_str()); };
  auto type=(const char*(*)())sym("EventType"), names=(const char*(*)())sym("MatrixElements"); auto fcn=(double(*)(const double*,const int&))sym("FCN"); auto py=(void(*)(const double*,double*))sym("all_amplitudes__py"); auto fpy=(void(*)(const double*,const int&,double*))sym("FCN__py"); if(!type||!names||!fcn||!py||!fpy) return "lacks a function"; if(std::string(type())!=w.type) return std::string("is for ")+type()+", not for "+w.type;
  std::string all; for(int i=0;i<w.names;i++) all+=(i?"\n":"")+std::string(w.name[i]); if(all!=names()) return std::string("lists ")+names()+", not "+all;
  int plus=1,minus=-1; for(int e=0;e<w.events;e++){ 
    auto is=[&](const char* what,double got,double want,double s){ if(near(got,want,s)) return false; snprintf(b,sizeof b,"gives %s %.10g for event %d, should be %.10g",what,got,e,want); return true; };
    double f; fpy(w.x[e],plus,&f); if(is("the probability",fcn(w.x[e],plus),w.p[e],w.sp[e])||is("the probability of the opposite parity",fcn(w.x[e],minus),w.m[e],w.sp[e])||is("the probability from outside",f,w.p[e],w.sp[e])) return b;
    std::vector<double> r(2*w.size); py(w.x[e],r.data()); for(int i=0;i<w.size;i++) if(is("a real part",r[2*i],w.a[e][i][0],w.as[e])||is("an imaginary part",r[2*i+1],w.a[e][i][1],w.as[e])) return b;
    if(auto amp=(C(*)(const double*,const int&))sym("AMP")){ C z=amp(w.x[e],plus); if(is("the real part of the sum",z.real(),w.amp[e][0],w.sa)||is("the imaginary part of the sum",z.imag(),w.amp[e][1],w.sa)) return b; }
    if(w.pol[0]!=9){ auto ext=(double(*)(const double*,const int&,const double&,const double&,const double&))sym("FCN_extPol"); if(!ext) return "lacks the function with polarisation"; if(is("the probability with polarisation",ext(w.x[e],plus,w.pol[0],w.pol[1],w.pol[2]),w.ext[e],w.sp[e])) return b; }
    int k=w.size/w.names; for(int i=0;i<w.names;i++){ std::string n=programatic_name(std::string(w.name[i])+"_wParams"); if(!sym(n)) return "lacks "+n; if(k==1&&w.pol[0]==9&&sym("AMP")){ C z=((C(*)(const double*))sym(n))(w.x[e]); if(is("a real part",z.real(),w.a[e][i][0],w.as[e])||is("an imaginary part",z.imag(),w.a[e][i][1],w.as[e])) return b; } else { auto v=((std::vector<C>(*)(const double*))sym(n))(w.x[e]); if((int)v.size()!=k) return "gives too few amplitudes"; for(int j=0;j<k;j++) if(is("a real part",v[j].real(),w.a[e][i*k+j][0],w.as[e])||is("an imaginary part",v[j].imag(),w.a[e][i*k+j][1],w.as[e])) return b; } } }
  return "";
}
}
SIM_CHECK(P29){
  sim::step_limit(4000000);
  static const int KIND[]={0,0,1,0,3,0,1,2,4,5}; int kind=KIND[P(0,9,"kind")], rounds=kind==2||kind>3?0:P(0,2,"rounds"); Want* w=(Want*)sim::shared(sizeof(Want)*5); int* state=(int*)sim::shared(64); const std::string path="/simfs/out/model"; sim::raw_write("/simfs/out/.keep","");
  auto make=[&](int r,bool last){ return sim::incarnation([=]{
    common(); std::unique_ptr<CoherentSum> co; std::unique_ptr<PolarisedSum> ps; std::unique_ptr<Oracle> o; std::unique_ptr<SpinOracle> so; MinuitParameterSet mps; Want W; memset(&W,0,sizeof W);
    const Def& d=kind==0?defs()[P(0,1,"model")]:kind==1?spins()[0]:kind==2?spins()[1]:kind>3?spins()[kind-1]:four(); if(kind==5) OptionsParser::setArg("Particle::SpinBasis Weyl"); EventType type(d.type); static const std::vector<int> SUB[6][3]={{{0},{1,3},{0,1,2}},{{0},{1},{0,3}},{{0},{1},{0,1}},{{0,1},{0,1},{1}},{{0},{1},{0,1}},{{0},{1},{0,1}}}; auto& sub=SUB[kind][P(0,2,"subset")]; double norm=q(P(1,3,"norm%d",r),0.75);
    { sim::NoFault nf; coordinates(); for(int a:sub) for(auto* x:d.amps[a].rules) add_coupling(mps,x,0,a,true); int si=0; for(auto& s:d.shape) add_shape(mps,s.first,s.second,si++); bool pol=kind==2||kind==4; if(pol){ int k=0; for(const char* p:{"Px","Py","Pz"}) mps.add(p,Flag::Free,0.125*P(-4,4,"pol%d",k++),0.01); } if(kind==4){ int k=3; for(const char* p:{"Tyy","Tzz","Txy","Txz","Tyz"}) mps.add(p,Flag::Free,0.03125*P(-4,4,"pol%d",k++),0.01); } if(kind==5&&F(3,4,"fraction")) mps.add("polFrac",Flag::Free,0.125*P(0,8,"pol%d",9),0.01);
      if(kind==0||kind==3) co.reset(new CoherentSum(type,mps)); else ps.reset(new PolarisedSum(type,mps)); 
      int n=P(0,4,"changes%d",r); for(int k=0;k<n;k++){ int id=r*10+k; switch(P(0,3,"op%d",id)){ case 0: { int a=sub[P(0,(int)sub.size()-1,"amp_%d",id)]; part_of(mps,d.amps[a].rules[0],F(1,2,"re_%d",id))->setCurrentFitVal(q(P(-4,4,"val%d",id),0.5)+0.125); break; } case 1: { int i=P(0,(int)d.shape.size()-1,"shape%d",id); set_shape(mps,d.shape[i].first,d.shape[i].second*(1+0.02*P(-2,2,"sval%d",id)),i); break; } case 2: if(pol) mps["Py"]->setCurrentFitVal(0.125*P(-4,4,"pval%d",id)); break; default: if(co) co->transferParameters(); else ps->transferParameters(); } }
      if(kind==0||kind==3) o.reset(new Oracle(d,type,mps,sub,"")); else so.reset(new SpinOracle(d,type,mps,sub,false));
      W.events=3; List l=draw(type,0,3,false); W.pol[0]=9; W.names=sub.size(); snprintf(W.type,100,"%s",type.constructor_string().c_str()); W.size=sub.size()*(so?so->s1*so->s2:1); for(size_t i=0;i<sub.size();i++) snprintf(W.name[i],100,"%s",(o?o->me:so->me)[i]->decayDescriptor().c_str());
      for(int e=0;e<3;e++){ for(size_t k=0;k<l[e].x.size();k++) W.x[e][k]=l[e].x[k]; if(o){ C s=0,m=0; double sc=0; for(size_t i=0;i<sub.size();i++){ C a=o->amp(i,l[e]), t=o->coupling(i)*a; s+=t; m+=o->me[i]->decayTree.finalStateParity()==1?t:-t; sc+=std::norm(t); W.a[e][i][0]=a.real(); W.a[e][i][1]=a.imag(); W.as[e]+=std::abs(a); } W.p[e]=std::norm(s)/norm; W.m[e]=std::norm(m)/norm; W.sp[e]=sc/norm; W.amp[e][0]=s.real(); W.amp[e][1]=s.imag(); W.sa+=sqrt(sc); }
        else { double sc; W.p[e]=W.m[e]=so->prob(l[e],&sc)/norm; W.sp[e]=sc/norm; Event v(l[e].x.data(),l[e].x.size()); int k=so->s1*so->s2; for(size_t i=0;i<sub.size();i++){ auto g=(*so->me[i])(v); for(int j=0;j<k;j++){ C a(utils::at(g[j],0)); W.a[e][i*k+j][0]=a.real(); W.a[e][i*k+j][1]=a.imag(); W.as[e]+=std::abs(a); } } 
          if(pol){ const char* N[]={"Px","Py","Pz"}; double keep[3]; for(int i=0;i<3;i++){ keep[i]=mps[N[i]]->mean(); W.pol[i]=0.125*P(-4,4,"outer%d",i); mps[N[i]]->setCurrentFitVal(W.pol[i]); } W.ext[e]=so->prob(l[e],&sc)/norm; for(int i=0;i<3;i++) mps[N[i]]->setCurrentFitVal(keep[i]); } } }
      w[r]=W; }
    bool faulty=false; if(!last){ build_benign(); faulty=F(2,3,"faulty%d",r); if(faulty) build_faults(1,1+P(1,12,"rate%d",r),false); if(F(1,3,"crash%d",r)) sim::enable(sim::F_CRASH,1,2+P(1,40,"crash_rate%d",r)); }
    int tries=last?1:P(1,2,"tries%d",r); for(int t=0;t<tries;t++){ state[r]=1; try { if(co) co->generateSourceCode(path+".cpp",norm); else ps->generateSourceCode(path+".cpp",norm); state[r]=2; } catch(const std::exception& x){ state[r]=3; sim::note("not exported: %s",x.what()); sim::probe("export_reported"); } if(state[r]==3&&!faulty) sim::fail("spurious-failure","the model was not exported although nothing was wrong"); }
  }); };
  auto look=[&](int r){ sim::incarnation([=]{ // a later process
    bool there=sim::raw_exists(path+".so"); if(state[r]==2&&!there) sim::fail("export-missing","the export succeeded, but there is no library"); if(!there) return;
    void* h=dlopen((path+".so").c_str(),RTLD_NOW); if(!h){ sim::fail("export-incomplete","there is a library that cannot be loaded"); }
    std::string why=differs(h,w[r]); bool good=why.empty(); if(state[r]!=2) for(int k=r-1;k>=0&&!good;k--) good=differs(h,w[k]).empty(); if(!good) sim::fail("export-value","after an export that %s the library %s",state[r]==2?"succeeded":state[r]==1?"was interrupted":"failed",why.c_str());
    if(state[r]==2){ std::string s=sim::raw_read(path+".cpp"); if(s.size()<3||s.substr(s.size()-3)!=";}\n"||s.find("MatrixElements")==std::string::npos) sim::fail("export-source","the export succeeded, but its source is incomplete"); }
    dlclose(h); sim::probe("export_used");
  }); };
  for(int r=0;r<=rounds;r++){ if(make(r,false)==sim::INC_CRASHED) sim::probe("crashed_while_exporting"); look(r); }
  if(kind!=2&&kind<4){ make(rounds+1,true); look(rounds+1); }
}
