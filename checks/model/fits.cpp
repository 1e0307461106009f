// Fits: what a fit may change, what it reports, and how it is written down and read again
#include "model.h"
#include "AmpGen/ErrorPropagator.h"
#include "AmpGen/ExtendLikelihoodBase.h"
#include <fstream>
#include <sstream>
#include "AmpGen/FitResult.h"
#include "AmpGen/Minimiser.h"
#include <set>
[[noreturn]] void stub_matrix_index(int i,int j,int n,int m){ sim::fail("matrix-index","element (%d,%d) of a %d x %d matrix is used",i,j,n,m); }
namespace {
struct Rng { uint64_t s; unsigned operator()(unsigned n){ s+=0x9E3779B97F4A7C15ull; uint64_t z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return (unsigned)((z^(z>>31))%n); } double num(){ return ((int)(*this)(40001)-20000)/8192.; } };
struct Par { std::string name; Flag flag; double val,err,lo,hi,en,ep,target; bool fits() const { return flag==Flag::Free||flag==Flag::Blind; } bool limits() const { return lo!=0||hi!=0; } };
typedef std::vector<Par> Pars;
const Flag FLAGS[]={Flag::Free,Flag::Free,Flag::Free,Flag::Fix,Flag::Hide,Flag::CompileTimeConstant,Flag::Blind};
Pars draw_pars(const char* tag,bool blind){ Pars r; int n=P(1,7,"pars"); Rng g{(uint64_t)P(0,1<<16,tag)}; static const char* names[]={"a","b_Re","b_Im","D0{K*(892)bar0{K-,pi+},pi0}_Re","D0{K*(892)bar0{K-,pi+},pi0}_Im","K*(892)bar0_mass","scale_Rest","x::y","c_Im"};
  std::set<int> used; while((int)used.size()<n) used.insert(g(9)); std::vector<int> o(used.begin(),used.end()); if(g(2)) for(int i=n-1;i>0;i--) std::swap(o[i],o[g(i+1)]);
  for(int k:o){ Par p; p.name=names[k]; p.flag=FLAGS[g(blind?7:6)]; p.val=g.num(); p.err=(1+g(60))/64.; p.lo=p.hi=0; p.en=p.ep=-9999; if(g(3)==0){ p.lo=g(3)?p.val-1-g(3):p.val>0?0:p.val-2; p.hi=g(3)?p.val+1+g(3):p.val<0&&p.lo!=0?0:p.val+2; } p.target=p.val+g.num()/4; r.push_back(p); if(p.flag==Flag::Blind){ Par b=p; b.name+="_blind"; b.flag=Flag::Fix; b.val=0.5+g(9)/16.; b.lo=b.hi=0; r.push_back(b); } }
  return r; }
void fill(MinuitParameterSet& s,const Pars& p){ for(auto& x:p) s.add(x.name,x.flag,x.val,x.err,x.lo,x.hi); }
void values(const MinuitParameterSet& s,const Pars& p,const char* what){ for(size_t i=0;i<p.size();i++) if(s.at(i)->mean()!=p[i].val) sim::fail("changed","%s: parameter '%s' is %.17g instead of %.17g",what,p[i].name.c_str(),s.at(i)->mean(),p[i].val); }
}
SIM_CHECK(P27){
  sim::incarnation([]{
    common(); OptionsParser::setArg("Minimiser::PrintLevel Quiet"); if(F(1,4,"minos_all")) OptionsParser::setArg("Minimiser::RunMinos true"); if(F(1,5,"other")) OptionsParser::setArg("Minimiser::Minimiser Minuit"); bool all=(bool)NamedParameter<bool>("Minimiser::RunMinos",false);
    Pars m=draw_pars("draw",true); MinuitParameterSet mps; fill(mps,m); double mix=P(0,4,"mix")/16.; int calls=0;
    std::function<double()> fcn=[&]{ calls++; double s=0,c=0; for(size_t i=0;i<m.size();i++){ double d=mps.at(i)->mean()-m[i].target; s+=(1+i%3)*d*d; c+=d; } return s+mix*c*c; };
    auto want=[&]{ double s=0,c=0; for(auto& p:m){ double d=p.val-p.target; s+=(1+(&p-m.data())%3)*d*d; c+=d; } return s+mix*c*c; };
    std::vector<std::unique_ptr<GaussianConstraint>> terms; Minimiser mini(fcn,&mps); bool fitted=false; std::vector<double> x0; std::vector<int> free; auto who=[&]{ free.clear(); for(size_t i=0;i<m.size();i++) if(m[i].fits()) free.push_back(i); }; who();
    auto cov=[&](size_t i,size_t j){ return 1e-4*(i+1)*(j+1)*(i==j?1:0.25/(1+(i>j?i-j:j-i))); }; auto err=[&](size_t i){ return 0.01*(i+1); };
    std::vector<std::pair<int,double>> constraints; int n=P(1,10,"ops");
    for(int k=0;k<n;k++){
      int op=P(0,12,"op%d",k); size_t at=(size_t)P(0,999,"at%d",k)%m.size(); sim::note("operation %d",op);
      switch(op){
        case 0: case 1: case 2: { double before=want(); auto penalty=[&]{ double t=0; for(auto& c:constraints){ double d=m[c.first].val-c.second; t+=d*d/(0.25*0.25); } return t; }; double start=before+penalty(); mini.doFit(); fitted=true; x0=mini.fitResult().Parameters(); if(x0.size()!=free.size()) sim::fail("result","%zu parameters were fitted, should be %zu",x0.size(),free.size());
          for(size_t i=0;i<m.size();i++){ auto* p=mps.at(i); if(p->name()!=m[i].name||p->flag()!=m[i].flag) sim::fail("changed","a fit changed what parameter '%s' is",m[i].name.c_str()); if(!m[i].fits()&&(p->mean()!=m[i].val||p->err()!=m[i].err)) sim::fail("changed","a fit changed '%s', which is not free, from %g to %g",m[i].name.c_str(),m[i].val,p->mean()); if(m[i].fits()&&m[i].limits()&&(p->mean()<m[i].lo||p->mean()>m[i].hi)&&!(p->mean()==m[i].val)) sim::fail("limits","a fit left '%s' at %g, outside of [%g,%g]",m[i].name.c_str(),p->mean(),m[i].lo,m[i].hi); }
          for(size_t f=0;f<free.size();f++){ auto* p=mps.at(free[f]); Par& r=m[free[f]]; double off=0; for(auto& b:m) if(r.flag==Flag::Blind&&b.name==r.name+"_blind") off=b.val; if(!(fabs(p->mean()+off-x0[f])<=1e-9)) sim::fail("value","after a fit '%s' is %.17g, the minimiser says %.17g",r.name.c_str(),p->mean(),x0[f]-off); x0[f]=p->mean(); if(p->err()!=err(f)) sim::fail("error","after a fit the error of '%s' is %g, the minimiser says %g",r.name.c_str(),p->err(),err(f)); double en=all?-1.25*err(f):err(f), ep=all?1.5*err(f):err(f); if(fabs(p->errNeg()-en)>1e-12||fabs(p->errPos()-ep)>1e-12) sim::fail("error","after a fit the asymmetric errors of '%s' are %g and %g, the minimiser says %g and %g",r.name.c_str(),p->errNeg(),p->errPos(),en,ep); r.val=p->mean(); r.err=p->err(); r.en=p->errNeg(); r.ep=p->errPos(); }
          double now=want(); if(now+penalty()>start+1e-9) sim::fail("worse","a fit went from %g to %g",start,now+penalty()); if(!(fabs(mini.FCN()-now)<=1e-9*(1+now))) sim::fail("fcn","after a fit the function is %g at the parameters it left, it reports %g",now,mini.FCN());
          if(mix==0&&mini.status()==0) for(int i:free){ double w=1+i%3, t=w*m[i].target; for(auto& c:constraints) if(c.first==i){ w+=16; t+=16*c.second; } t/=w; if(m[i].flag==Flag::Blind&&w>3) continue; if(m[i].limits()){ if(t<m[i].lo) t=m[i].lo; if(t>m[i].hi) t=m[i].hi; } if(fabs(m[i].val-t)>0.15) sim::fail("not-minimum","a fit leaves '%s' at %g, the minimum is at %g",m[i].name.c_str(),m[i].val,t); }
          sim::probe("fitted"); break; }
        case 3: { auto c=mini.covMatrix(), full=mini.covMatrixFull(); if(!fitted) break; if(c.GetNrows()!=(int)free.size()||full.GetNrows()!=(int)m.size()) sim::fail("covariance","the covariance matrices have %d and %d rows for %zu of %zu parameters",c.GetNrows(),full.GetNrows(),free.size(),m.size()); std::vector<int> pos(m.size(),-1); for(size_t f=0;f<free.size();f++) pos[free[f]]=f; for(size_t i=0;i<m.size();i++) for(size_t j=0;j<m.size();j++){ double w=pos[i]<0||pos[j]<0?0:cov(pos[i],pos[j]); if(full(i,j)!=w) sim::fail("covariance","the covariance of '%s' and '%s' is %g, the minimiser says %g",m[i].name.c_str(),m[j].name.c_str(),full(i,j),w); if(pos[i]>=0&&pos[j]>=0&&c(pos[i],pos[j])!=w) sim::fail("covariance","the reduced covariance of '%s' and '%s' is %g, the minimiser says %g",m[i].name.c_str(),m[j].name.c_str(),c(pos[i],pos[j]),w); } break; }
        case 4: if(fitted&&free.size()&&(std::string)NamedParameter<std::string>("Minimiser::Minimiser","Minuit2")=="Minuit2"){ int f=at%free.size(); Par& r=m[free[f]]; bool close=r.limits()&&(r.val-r.err<r.lo||r.val+r.err>r.hi); mini.minos(mps.at(free[f])); if(!close){ for(size_t i=0;i<free.size();i++) m[free[i]].val=x0[i]; r.en=-1.25*err(f); r.ep=1.5*err(f); } auto* p=mps.at(free[f]); if(fabs(p->errNeg()-r.en)>1e-12||fabs(p->errPos()-r.ep)>1e-12||p->err()!=r.err) sim::fail("error","the asymmetric errors of '%s' are %g and %g, the minimiser says %g and %g",r.name.c_str(),p->errNeg(),p->errPos(),r.en,r.ep); values(mps,m,"asymmetric errors"); sim::probe("minos"); } break;
        case 5: { double off=0; for(auto& p:m) if(p.name==m[at].name+"_blind") off=p.val; int before=calls; delete mini.scan(mps.at(at),m[at].val+off-1,m[at].val+off+1.01,0.5); if(calls-before!=5) sim::fail("scan","a scan of five points evaluated %d",calls-before); values(mps,m,"a scan"); break; }
        case 6: if(m[at].flag==Flag::Free||m[at].flag==Flag::Fix){ if(m[at].name.find("_blind")!=std::string::npos) break; bool fix=m[at].flag==Flag::Free; if(fix) mps.at(at)->fix(); else mps.at(at)->setFree(); m[at].flag=fix?Flag::Fix:Flag::Free; mini.prepare(); fitted=false; who(); sim::probe("fixed_or_freed"); } break;
        case 11: { static const struct { const char* name; int id; } OF[]={{"rho(770)0",113},{"K*(892)0",313},{"K*(892)+",323},{"K*(892)bar0",313}}; auto& w=OF[P(0,3,"of%d",k)]; bool width=F(1,2,"width%d",k); std::string n=w.name+std::string(width?"_width":"_mass"), l; double v=0,e=0; std::ifstream in(std::string(AMPGENROOT)+"/options/mass_width.csv"); while(std::getline(in,l)){ std::vector<std::string> t; std::stringstream st(l); std::string x; while(std::getline(st,x,',')) t.push_back(x); if(t.size()>12&&l[0]!='*'&&atoi(t[12].c_str())==w.id){ v=atof(t[width?3:0].c_str())/1000; e=atof(t[width?4:1].c_str())/1000; } }
          MinuitParameterSet q; q.add("other",Flag::Free,3,1); auto* p=q.add(n,Flag::Free,v+e*P(-8,8,"from%d",k)/4.,e); GaussianConstraint c; c.configure("GaussianConstraint "+n+" PDG",q); for(int i=0;i<2;i++){ double d=(p->mean()-v)/e; if(fabs(c()+d*d/2)>1e-6) sim::fail("constraint","the constraint of '%s' to its known value is %g, should be %g",n.c_str(),c(),-d*d/2); p->setCurrentFitVal(v+e*P(-8,8,"to%d",k)/4.); } sim::probe("constrained_to_table"); break; }
        case 7: case 10: if(constraints.size()<4&&m[at].flag==Flag::Free){ double constraint_mean=m[at].val+P(-4,4,"mean%d",k)/8.; constraints.push_back({(int)at,constraint_mean}); char b[200]; snprintf(b,200,"GaussianConstraint %s %.17g 0.25",m[at].name.c_str(),constraint_mean); terms.emplace_back(new GaussianConstraint); terms.back()->configure(b,mps); mini.addExtendedTerm(terms.back().get()); double d=m[at].val-constraint_mean; if(fabs((*terms.back())()+d*d/(2*0.25*0.25))>1e-9) sim::fail("constraint","a constraint is %g, should be %g",(*terms.back())(),-d*d/(2*0.25*0.25)); sim::probe("constrained"); } break;
        case 8: if(fitted){ FitResult r(mini); FitResult c(r); for(FitResult* x:{&r,&c}){ if(x->nParam()!=(int)free.size()||x->status()!=mini.status()||!(fabs(x->LL()-want())<=1e-9*(1+want()))||x->Edm()!=mini.Edm()||x->NCalls()!=mini.NCalls()||x->mps()!=&mps) sim::fail("result","the result of a fit does not say what the fit did (%d free parameters of %zu)",x->nParam(),free.size());
            for(size_t f=0;f<free.size();f++) for(size_t g=0;g<free.size();g++){ const std::string &a=m[free[f]].name,&b=m[free[g]].name; double w=cov(f,g); if(x->cov(free[f],free[g])!=w||x->cov(a,b)!=w||fabs(x->correlation(a,b)-w/sqrt(cov(f,f)*cov(g,g)))>1e-12) sim::fail("result","the covariance of '%s' and '%s' in the result is %g, the minimiser says %g",a.c_str(),b.c_str(),x->cov(a,b),w); }
            auto red=x->getReducedCovariance(); auto fl=x->floating(); if(fl.size()!=free.size()||red.GetNrows()!=(int)free.size()) sim::fail("result","%zu parameters float, should be %zu",fl.size(),free.size()); for(size_t f=0;f<free.size();f++){ if(fl[f]!=mps.at(free[f])) sim::fail("result","'%s' does not float",m[free[f]].name.c_str()); for(size_t g=0;g<free.size();g++) if(red(f,g)!=cov(f,g)) sim::fail("result","the reduced covariance is not that of the floating parameters"); } }
          sim::probe("result"); // errors of functions of the parameters
          auto ep=r.getErrorPropagator(); Rng g{(uint64_t)P(0,9999,"slopes%d",k)}; std::vector<std::vector<double>> s(2,std::vector<double>(m.size())); for(auto& v:s) for(auto& y:v) y=g.num(); auto f=[&](int q){ double t=3; for(size_t i=0;i<m.size();i++) t+=s[q][i]*mps.at(i)->mean(); return t; }; auto var=[&](int q,int p){ double t=0; for(size_t i=0;i<free.size();i++) for(size_t j=0;j<free.size();j++) t+=s[q][free[i]]*cov(i,j)*s[p][free[j]]; return t; };
          double e=ep([&]{ return f(0); }); if(fabs(e-sqrt(var(0,0)))>1e-7) sim::fail("propagation","the error of a sum of parameters is %g, should be %g",e,sqrt(var(0,0))); values(mps,m,"error propagation"); auto ve=ep.getVectorError([&]{ return std::vector<double>{f(0),f(1)}; },2); for(int q=0;q<2;q++) if(fabs(ve[q]-sqrt(var(q,q)))>1e-7) sim::fail("propagation","the error of one of two functions is %g, should be %g",ve[q],sqrt(var(q,q))); values(mps,m,"error propagation");
          auto cm=ep.covarianceMatrix({[&]{ return f(0); },[&]{ return f(1); }}); for(int a=0;a<2;a++) for(int b=0;b<2;b++) if(fabs(cm(a,b)-var(a,b))>1e-7) sim::fail("propagation","the covariance of two functions is %g, should be %g",cm(a,b),var(a,b)); values(mps,m,"error propagation");
          if(free.size()){ TRandom3 rnd(5); GaussErrorPropagator gp(r.getReducedCovariance(),r.floating(),&rnd); gp.perturb(); bool moved=false; for(size_t i=0;i<m.size();i++){ if(!m[i].fits()&&mps.at(i)->mean()!=m[i].val) sim::fail("changed","a variation within errors changed '%s', which is not free",m[i].name.c_str()); moved=moved||mps.at(i)->mean()!=m[i].val; } if(!moved) sim::fail("propagation","a variation within errors changed nothing"); gp.reset(); values(mps,m,"variations within errors"); }
          LinearErrorPropagator d(mps); double t=0; for(size_t i=0;i<m.size();i++) if(m[i].flag==Flag::Free) t+=s[0][i]*s[0][i]*m[i].err*m[i].err; if(fabs(d([&]{ return f(0); })-sqrt(t))>1e-7) sim::fail("propagation","the error without correlations is %g, should be %g",d([&]{ return f(0); }),sqrt(t)); values(mps,m,"error propagation");
          { auto some=[&](int part){ std::vector<MinuitParameter*> v; for(size_t i=0;i<m.size();i++) if(F(2,3,"part%d_%d",2*k+part,(int)i)) v.push_back(mps.at(i)); return v; }; std::vector<MinuitParameter*> pa=some(0),pb=some(1); LinearErrorPropagator da(pa),db(pb); double want=0; for(auto* v:{&pa,&pb}) for(auto* x:*v) for(size_t i=0;i<m.size();i++) if(mps.at(i)==x&&m[i].flag==Flag::Free) want+=s[0][i]*s[0][i]*m[i].err*m[i].err; da.add(db); double got=da([&]{ return f(0); }); if(fabs(got-sqrt(want))>1e-7) sim::fail("propagation","the error from two sources is %g, should be %g",got,sqrt(want)); values(mps,m,"error propagation");
            LinearErrorPropagator all(ep); all.add(d); got=all([&]{ return f(0); }); if(fabs(got-sqrt(var(0,0)+t))>1e-7) sim::fail("propagation","the error from a fit and another source is %g, should be %g",got,sqrt(var(0,0)+t)); if(fabs(ep([&]{ return f(0); })-e)>1e-9) sim::fail("propagation","an error changed when its copy was combined with another"); db.reset(); if(db.size()!=0||!db.params().empty()) sim::fail("propagation","errors are left after they were removed"); }
          double V00=var(0,0),V11=var(1,1),V01=var(0,1),det=V00*V11-V01*V01; if(V00>0&&V11>0&&det>1e-4*V00*V11){ auto r2=ep.correlationMatrix({[&]{ return f(0); },[&]{ return f(1); }}); for(int a=0;a<2;a++) for(int b=0;b<2;b++){ double w=a==b?1:V01/sqrt(V00*V11); if(fabs(r2(a,b)-w)>1e-6) sim::fail("propagation","the correlation of two functions is %g, should be %g",r2(a,b),w); } double w0=(V11-V01)/(V00+V11-2*V01), w1=1-w0, mean=w0*f(0)+w1*f(1), err=sqrt(det/(V00+V11-2*V01)); auto cw=ep.combinationWeights({[&]{ return f(0); },[&]{ return f(1); }}); auto cc=ep.combinationCovWeighted({[&]{ return f(0); },[&]{ return f(1); }}); double tol=1e-5*(1+fabs(w0))*(1+fabs(mean)); if(cw.size()!=2||fabs(cw[0]-w0)>tol||fabs(cw[1]-w1)>tol) sim::fail("propagation","the best combination of two functions has the weight %g, should have %g",cw[0],w0); if(fabs(cc.first-mean)>tol*(1+fabs(f(0))+fabs(f(1)))||fabs(cc.second-err)>1e-5*(err+1)) sim::fail("propagation","the best combination of two functions is %g +- %g, should be %g +- %g",cc.first,cc.second,mean,err); values(mps,m,"error propagation"); sim::probe("combined_functions"); }
          if(free.size()&&V00>0){ TRandom3 rnd(11+P(0,200,"gauss%d",k)); GaussErrorPropagator gp(r.getReducedCovariance(),r.floating(),&rnd); const int n=600; double f0=f(0),s1=0,s2=0; for(int i=0;i<n;i++){ gp.perturb(); double x=f(0)-f0; s1+=x/n; s2+=x*x/n; } gp.reset(); values(mps,m,"variations within errors"); if(fabs(s1)>7*sqrt(V00/n)||fabs(s2/V00-1)>7*sqrt(2./n)) sim::fail("propagation","variations within errors have mean %g and variance %g, should have 0 and %g",s1,s2,V00); } } break;
        default: if(m[at].fits()){ m[at].val+=P(-4,4,"move%d",k)/64.; if(m[at].limits()){ if(m[at].val<m[at].lo) m[at].val=m[at].lo; if(m[at].val>m[at].hi) m[at].val=m[at].hi; } mps.at(at)->setCurrentFitVal(m[at].val); } break;
      }
    }
  });
}
namespace {
struct Saved { Pars p; std::vector<std::vector<double>> cov; double chi2=0,bins=0,LL=-999; int nparam=0,status=-1; std::map<std::string,double> obs; std::vector<std::tuple<std::string,double,double>> frac; };
bool near6(double a,double b){ return fabs(a-b)<=0.5000001e-6+1e-12*fabs(b); }
bool near8(double a,double b){ return fabs(a-b)<=0.51e-7*fabs(b)+1e-300; }
// what the file says of a parameter: blind ones are shifted, the shifts themselves are not written
std::vector<std::pair<Par,int>> written(const Saved& s){ std::vector<std::pair<Par,int>> r; for(size_t i=0;i<s.p.size();i++){ Par p=s.p[i]; if(p.name.find("_blind")!=std::string::npos) continue; if(p.flag==Flag::Blind) for(auto& b:s.p) if(b.name==p.name+"_blind") p.val+=b.val; r.push_back({p,(int)i}); } return r; }
void compare(const FitResult& r,const Saved& s,const char* what){
  auto w=written(s); auto ps=r.parameters(); if(ps.size()!=w.size()) sim::fail("parameters","%s has %zu parameters, should have %zu",what,ps.size(),w.size());
  for(size_t i=0;i<w.size();i++){ const Par& p=w[i].first; auto* x=r.mps()->find(p.name); if(!x||x!=ps[i]) sim::fail("parameters","%s: parameter %zu is not '%s'",what,i,p.name.c_str()); if(x->flag()!=p.flag) sim::fail("parameters","%s: '%s' is not what it was (free, fixed ...)",what,p.name.c_str()); if(!near6(x->mean(),p.val)||!near6(x->err(),p.err)||!near6(x->errNeg(),p.en)||!near6(x->errPos(),p.ep)) sim::fail("parameters","%s: '%s' is %g +- %g (%g %g), should be %g +- %g (%g %g)",what,p.name.c_str(),x->mean(),x->err(),x->errNeg(),x->errPos(),p.val,p.err,p.en,p.ep); if(!near6(x->minInit(),p.lo)||!near6(x->maxInit(),p.hi)) sim::fail("limits","%s: the limits of '%s' are %g and %g, should be %g and %g",what,p.name.c_str(),x->minInit(),x->maxInit(),p.lo,p.hi); }
  for(size_t i=0;i<w.size();i++) for(size_t j=0;j<w.size();j++){ double c=s.cov[w[i].second][w[j].second]; const std::string &a=w[i].first.name,&b=w[j].first.name; if(!near8(r.cov(a,b),c)||!near8(r.cov(i,j),c)) sim::fail("covariance","%s: the covariance of '%s' and '%s' is %g, should be %g",what,a.c_str(),b.c_str(),r.cov(a,b),c); }
  std::vector<int> fl; for(size_t i=0;i<w.size();i++) if(w[i].first.fits()&&w[i].first.err>1e-6) fl.push_back(i); auto f=r.floating(); auto red=r.getReducedCovariance(); if(f.size()!=fl.size()||red.GetNrows()!=(int)fl.size()) sim::fail("parameters","%s: %zu parameters float, should be %zu",what,f.size(),fl.size()); for(size_t i=0;i<fl.size();i++) for(size_t j=0;j<fl.size();j++) if(!near8(red(i,j),s.cov[w[fl[i]].second][w[fl[j]].second])) sim::fail("covariance","%s: the covariance of the floating parameters differs",what);
  if(!near8(r.chi2(),s.chi2)||r.nBins()!=(int)s.bins||r.nParam()!=s.nparam||!near8(r.LL(),s.LL)||r.status()!=s.status) sim::fail("quality","%s: chi2 %g of %d bins, %d parameters, LL %g, status %d; should be %g, %g, %d, %g, %d",what,r.chi2(),r.nBins(),r.nParam(),r.LL(),r.status(),s.chi2,s.bins,s.nparam,s.LL,s.status);
  auto o=r.observables(); if(o.size()!=s.obs.size()) sim::fail("observables","%s has %zu observables, should have %zu",what,o.size(),s.obs.size()); for(auto& k:s.obs) if(!o.count(k.first)||!near8(o[k.first],k.second)) sim::fail("observables","%s: observable '%s' differs",what,k.first.c_str());
  auto ff=r.fitFractions(); if(ff.size()!=s.frac.size()) sim::fail("fractions","%s has %zu fractions, should have %zu",what,ff.size(),s.frac.size()); for(size_t i=0;i<ff.size();i++) if(ff[i].name()!=std::get<0>(s.frac[i])||!near8(ff[i].val(),std::get<1>(s.frac[i]))||!near8(ff[i].err(),std::get<2>(s.frac[i]))) sim::fail("fractions","%s: fraction '%s' differs",what,std::get<0>(s.frac[i]).c_str());
}
}
SIM_CHECK(P28){
  struct Sh { int saved,life,step; }; Sh* sh=(Sh*)sim::shared(sizeof(Sh)); bool crashes=F(1,4,"crash");
  auto life=[&]{
    common(); if(F(1,2,"memory")) sim::preempt_memory(true); Saved s; s.p=draw_pars("draw",F(1,2,"blind")); Rng g{(uint64_t)P(0,1<<16,"numbers")}; size_t n=s.p.size();
    for(auto& p:s.p){ p.val=g.num(); if(p.limits()&&g(2)){ p.lo=g(3)?-2-(int)g(3):0; p.hi=p.lo!=0&&g(3)==0?0:3+(int)g(3); } p.en=-(1+(int)g(50))/64.; p.ep=(1+g(50))/64.; if(g(8)==0) p.err=0; }
    s.cov.assign(n,std::vector<double>(n)); for(size_t i=0;i<n;i++) for(size_t j=0;j<=i;j++) s.cov[i][j]=s.cov[j][i]=s.p[i].fits()&&s.p[j].fits()?(i==j?1+g(99):g.num())*pow(10.,-(double)g(9)):0;
    MinuitParameterSet mps; fill(mps,s.p); for(size_t i=0;i<n;i++) mps.at(i)->setResult(s.p[i].val,s.p[i].err,s.p[i].en,s.p[i].ep); TMatrixD c(n,n); for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) c(i,j)=s.cov[i][j];
    FitResult r(mps,c); for(auto& p:s.p) s.nparam+=p.fits(); if(F(3,4,"chi2")){ s.chi2=fabs(g.num())*100; s.bins=1+g(900); r.addChi2(s.chi2,s.bins); } int no=P(0,3,"obs"); for(int i=0;i<no;i++){ std::string k="obs"+std::to_string(g(5)); s.obs[k]=g.num()*pow(10.,(int)g(9)-4); r.addObservable(k,s.obs[k]); } int nf=P(0,3,"fracs"); for(int i=0;i<nf;i++){ std::string k="D0{K*(892)bar0,pi0}_"+std::to_string(i); s.frac.emplace_back(k,fabs(g.num()),fabs(g.num())/50); r.addFraction(k,std::get<1>(s.frac.back()),std::get<2>(s.frac.back())); }
    const std::string path="/simfs/fit.log"; auto read=[&](const char* what){ FitResult x(path); compare(x,s,what); FitResult y(x); compare(y,s,"a copy of a result that was read"); };
    auto change=[&](int q){ Rng h{(uint64_t)P(0,1<<16,"change%d",q)}; for(auto& p:s.p){ size_t i=&p-s.p.data(); if(h(2)){ p.val=h.num(); p.err=(1+h(60))/64.; mps.at(i)->setResult(p.val,p.err,p.en,p.ep); } if(p.fits()&&h(4)==0){ double v=1+h(99); s.cov[i][i]=v; r.setCov(i,i,v); } } };
    if(sh->saved){ for(int q=1;q<=sh->step;q++) change(q); sim::NoFault nof; try { read("the result of an earlier life"); sim::probe("read_after_crash"); } catch(const std::exception&){ if(sh->saved==2) sim::fail("lost","a result that was written cannot be read after a crash"); sim::probe("torn_file_reported"); } }
    if(crashes&&sh->life++==0) sim::enable(sim::F_CRASH,1,P(1,8,"crash_rate"));
    if(F(1,2,"short_reads")) sim::enable(sim::F_SHORT_READ,1,P(2,20,"short_rate")); if(F(1,3,"eintr")) sim::enable(sim::F_READ_EINTR,1,8); if(F(1,3,"short_writes")) sim::enable(sim::F_SHORT_WRITE,1,4); if(F(1,4,"weintr")) sim::enable(sim::F_WRITE_EINTR,1,6);
    bool faulty=F(1,2,"faulty"); if(faulty){ int d=P(1,8,"rate"); if(F(1,2,"f_space")) sim::enable(sim::F_WRITE_ENOSPC,1,d); if(F(1,2,"f_write")) sim::enable(sim::F_WRITE_EIO,1,d); if(F(1,3,"f_close")) sim::enable(sim::F_CLOSE_ERR,1,d); if(F(1,2,"f_open")) sim::enable(sim::F_OPEN_FAIL,1,d); if(F(1,2,"f_read")) sim::enable(sim::F_READ_ERR,1,d); }
    int k=P(1,4,"steps"); for(int q=0;q<k;q++){
      if(q) change(q); bool ok=false; { sim::NoFault nof; sim::raw_write(path,""); } sh->saved=1; sh->step=q; try { r.writeToFile(path); ok=true; } catch(const std::exception&){ sim::probe("write_failure_reported"); if(!faulty) sim::fail("spurious-failure","writing a result to a healthy disk was reported as a failure"); } if(ok) sh->saved=2;
      { sim::NoFault nof; try { read("a result that was written"); sim::probe("read"); } catch(const std::exception&){ if(ok) sim::fail("lost","a result that was written cannot be read"); sim::probe("torn_file_reported"); } }
      if(ok) for(int t=0;t<3;t++) try { read("a result"); break; } catch(const std::exception&){ sim::probe("read_failure_reported"); if(!faulty) sim::fail("spurious-failure","reading a result from a healthy disk was reported as a failure"); }
      if(ok&&F(1,3,"cut%d",q)){ std::string t=sim::raw_read(path); size_t at=P(0,999,"at%d",q)*t.size()/1000; sim::raw_write(path,t.substr(0,at)); sh->saved=1; sim::NoFault nof; try { read("a result from a cut file"); sim::probe("cut_file_complete"); } catch(const std::exception&){ sim::probe("cut_file_reported"); } }
      if(F(1,2,"options%d",q)){ // options from which a fit continues: alone, or in the place of the lines of an options file
        std::string in; if(F(1,2,"input%d",q)){ in="/simfs/in.opt"; std::string t="# a comment\nEventType D0 K- pi+ pi0\n\nalone\n"; std::set<std::string> done; for(auto& p:s.p){ std::string b=p.name.size()>3?p.name.substr(0,p.name.size()-3):""; if(done.count(p.name)) continue; if(p.name.size()>3&&(p.name.substr(p.name.size()-3)=="_Re"||p.name.substr(p.name.size()-3)=="_Im")&&mps.find(b+"_Re")&&mps.find(b+"_Im")){ t+=b+"   Free 1 0.1 Free 2 0.2\n"; done.insert(b+"_Re"); done.insert(b+"_Im"); } else t+=p.name+"\tFree 1 0.1\n"; if(g(3)==0) t+="# "+p.name+"\n"; } if(F(1,3,"bare%d",q)) t+=s.p[0].name+"\n"; t+="last line"; sim::raw_write(in,t); }
        bool wrote=false; try { r.writeOptions(std::string("/simfs/out.opt"),in); wrote=true; } catch(const std::exception&){ sim::probe("options_failure_reported"); if(!faulty) sim::fail("spurious-failure","writing options to a healthy disk was reported as a failure"); }
        if(wrote){ sim::NoFault nof; MinuitParameterSet back; back.loadFromFile("/simfs/out.opt"); if(back.size()!=n) sim::fail("options","the options of a fit have %u parameters, should have %zu",back.size(),n); for(auto& p:s.p){ auto* x=back.find(p.name); if(!x) sim::fail("options","'%s' is missing in the options of a fit",p.name.c_str()); if(!near6(x->mean(),p.val)||!near6(x->stepInit(),p.err)||x->flag()!=p.flag) sim::fail("options","'%s' is %g +- %g in the options of a fit, should be %g +- %g",p.name.c_str(),x->mean(),x->stepInit(),p.val,p.err); if(!near6(x->minInit(),p.lo)||!near6(x->maxInit(),p.hi)) sim::fail("options","the limits of '%s' are %g and %g in the options of a fit, should be %g and %g",p.name.c_str(),x->minInit(),x->maxInit(),p.lo,p.hi); }
          if(in!=""){ std::string t=sim::raw_read("/simfs/out.opt"); for(auto* l:{"# a comment\n","EventType D0 K- pi+ pi0\n","alone\n","last line"}) if(t.find(l)==std::string::npos) sim::fail("options","the options of a fit lost the line '%.20s' of those it was made from",l); } sim::probe("options"); } }
    }
    { sim::NoFault nof; bool threw=false; try { FitResult x(std::string("/simfs/none.log")); } catch(const std::exception&){ threw=true; } if(!threw) sim::fail("missing-file","reading a result from a file that does not exist is not reported"); }
  };
  if(sim::incarnation(life)==sim::INC_CRASHED) sim::incarnation(life);
}
