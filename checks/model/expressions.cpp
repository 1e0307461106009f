// Parameters given by expressions of others, read, changed, compiled and used by several threads
#include "model.h"
#include "AmpGen/AddCPConjugate.h"
#include "AmpGen/ExpressionParser.h"
#include "AmpGen/MinuitExpression.h"
#include <map>
#include <thread>
#include <iostream>
namespace {
struct Env { std::map<std::string,double> v; std::map<std::string,struct Node> alias; };
struct Node { std::string op; std::vector<Node> k; double v=0; };
struct Got { double scale=0; bool fine=true; };
C eval(const Node& n,const Env& e,Got& g){
  auto A=[&](int i){ return eval(n.k[i],e,g); }; C r;
  if(n.op=="num") r=n.v; else if(n.op=="I") r=C(0,1); else if(n.op=="PI") r=M_PI; else if(n.op=="e") r=exp(1.);
  else if(n.op=="+") r=A(0)+A(1); else if(n.op=="-") r=A(0)-A(1); else if(n.op=="*") r=A(0)*A(1); else if(n.op=="/") r=A(0)/A(1); else if(n.op=="^") r=std::pow(A(0),A(1));
  else if(n.op=="sin") r=std::sin(A(0)); else if(n.op=="cos") r=std::cos(A(0)); else if(n.op=="exp") r=std::exp(A(0)); else if(n.op=="sqrt") r=std::sqrt(A(0)); else if(n.op=="log") r=std::log(A(0)); else if(n.op=="tan") r=std::tan(A(0));
  else if(n.op=="abs") r=std::abs(A(0)); else if(n.op=="real") r=A(0).real(); else if(n.op=="imag") r=A(0).imag(); else if(n.op=="atan") r=atan(A(0).real()); else if(n.op=="asin") r=asin(A(0).real()); else if(n.op=="acos") r=acos(A(0).real());
  else if(n.op=="atan2"){ double y=A(0).real(),x=A(1).real(); if(fabs(y)<1e-6||fabs(x)<1e-6) g.fine=false; r=atan2(y,x); }
  else if(n.op==">"||n.op=="<"){ double x=A(0).real(),y=A(1).real(); if(fabs(x-y)<1e-6*(1+fabs(x))) g.fine=false; r=n.op==">"?x>y:x<y; }
  else if(n.op=="&&") r=A(0).real()&&A(1).real();
  else if(n.op=="Ternary"){ C c=A(0),x=A(1),y=A(2); r=c.real()?x:y; }
  else if(n.op=="cx"){ double a=e.v.at(n.k[0].op+"_Re"),b=e.v.at(n.k[0].op+"_Im"); r=polar?a*std::exp(C(0,unit*b)):C(a,b); }
  else if(n.op=="alias"){ r=eval(e.alias.at(n.k[0].op),e,g); }
  else r=e.v.at(n.op);
  if(!(std::abs(r)<1e6)) g.fine=false; else g.scale=std::max(g.scale,std::abs(r)); return r;
}
int level(const std::string& o){ return o=="^"?5:o=="*"||o=="/"?4:o=="+"||o=="-"?3:o=="<"||o==">"?2:o=="&&"?1:9; }
std::string text(const Node& n){
  if(n.op=="num"){ char b[40]; snprintf(b,40,"%.17g",n.v); return b; } if(n.op=="cx"||n.op=="alias") return n.k[0].op; if(n.k.empty()) return n.op;
  int l=level(n.op); if(l<9){ auto side=[&](int i){ int c=level(n.k[i].op); std::string t=text(n.k[i]); return c<l||(c==l&&(i==1||l==5||l==2))||(c==1&&i==1)?"( "+t+" )":t; }; return side(0)+" "+n.op+" "+side(1); }
  std::string r=n.op+" ( "; for(size_t i=0;i<n.k.size();i++) r+=(i?" , ":"")+text(n.k[i]); return r+" )";
}
Node N(const std::string& o,std::vector<Node> k={}){ Node n; n.op=o; n.k=k; return n; }
Node num(double v){ Node n; n.op="num"; n.v=v; return n; }
const char* PLAIN[]={"a","b1","mass_x","s::p"};
// one formula: drawn choice by choice, at most three deep
Node draw_formula(int id,int& c,int depth,const std::vector<std::string>& before){
  auto sub=[&]{ return draw_formula(id,c,depth-1,before); }; int w=P(0,depth>0?19:7,depth>0?"f%d_%d":"l%d_%d",id,c++); static const double NUM[]={2,-1.5,0.25,1e-3,3.14159,-7.3};
  switch(w){
    case 0: return num(NUM[P(0,5,"n%d_%d",id,c++)]);
    case 2: case 3: case 4: return N(PLAIN[P(0,3,"p%d_%d",id,c++)]);
    case 5: return N("cx",{N("z")});
    case 1: case 6: if(!before.empty()) return N("alias",{N(before[before.size()-1-std::min<long>(P(0,5,"b%d_%d",id,c++),before.size()-1)])}); return N("b1");
    case 7: { static const char* K[]={"I","PI","e"}; return N(K[P(0,2,"k%d_%d",id,c++)]); }
    case 8: case 9: return N("+",{sub(),sub()}); case 10: case 11: return N("-",{sub(),sub()}); case 12: case 13: return N("*",{sub(),sub()});
    case 14: { Node d=N("+",{N("abs",{sub()}),num(1)}); return N("/",{sub(),d}); }
    case 15: return N("^",{sub(),num(P(2,3,"w%d_%d",id,c++))});
    case 16: { static const char* K[]={"sin","cos","real","imag","abs"}; return N(K[P(0,4,"u%d_%d",id,c++)],{sub()}); }
    case 17: { static const char* K[]={"sqrt","log"}; return N(K[P(0,1,"u%d_%d",id,c++)],{N("+",{N("abs",{sub()}),num(1)})}); }
    case 18: { int u=P(0,5,"u%d_%d",id,c++); Node r=N("real",{sub()}); if(u==0) return N("atan",{r}); if(u==1) return N("atan2",{r,N("real",{sub()})}); if(u==5) return N("^",{N("+",{N("abs",{sub()}),num(1)}),N("/",{r,num(4)})}); if(u==2) return N("exp",{N("sin",{r})}); Node i=N("/",{r,N("+",{N("abs",{r}),num(1)})}); return N(u==3?"asin":"acos",{i}); }
    default: { Node l=N(P(0,1,"gl%d_%d",id,c++)?">":"<",{N("real",{sub()}),N("real",{sub()})}); if(P(0,2,"gl%d_%d",id,c++)==0) l=N("&&",{l,N("<",{N(PLAIN[0]),num(5)})}); return N("Ternary",{l,sub(),sub()}); }
  }
}
// what can be compiled: few formulas, so that each is compiled once and for all
const std::vector<Node>& pool(){ static const std::vector<Node> p={
  N("+",{N("*",{N("a"),N("alias",{N("y0")})}),N("cx",{N("z")})}),
  N("-",{N("^",{N("alias",{N("y1")}),num(2)}),N("/",{N("k0"),num(3)})}),
  N("Ternary",{N(">",{N("a"),N("b1")}),N("sin",{N("alias",{N("y0")})}),N("*",{N("k0"),N("alias",{N("y1")})})}),
  N("*",{N("k0"),N("*",{N("k0"),N("a")})}), N("-",{N("b1"),N("k0")}), N("*",{N("a"),N("^",{N("k0"),num(2)})}), N("+",{N("a"),N("*",{N("b1"),N("s::p")})}), N("*",{N("exp",{N("*",{N("I"),N("b1")})}),N("alias",{N("y1")})}) }; return p; }
std::vector<std::string> tokens(const std::string& s){ return split(s,' '); }
const char* BAD[]={"a +","* a","( )","( a","a )","sin","a b1","nosuch + 1","atan2 ( a )","atan2 ( a , b1 , a )","- a","a * ( + )","Ternary ( a , b1 )","( ( a )","+","sin ( )"};
void history(int t,bool alone){
  int base=t*100; Env e; MinuitParameterSet mps; std::vector<std::string> names; int how=alone?P(0,2,"how"):2; std::vector<std::string> lines;
  std::map<std::string,double> init; auto put=[&](const std::string& n,double v,const char* flag="Free"){ e.v[n]=v; init[n]=v; char b[120]; snprintf(b,120,"%s %s %.17g 0.1",n.c_str(),flag,v); lines.push_back(b); };
  for(int i=0;i<4;i++) { static const char* FL[]={"Free","Fix","Free","Hide"}; put(PLAIN[i],q(P(-12,12,"v%d",base+i))+0.0625,FL[P(0,3,"flag%d",base+i)]); } static const double K0[]={1.5,1.2345678901234e-5,123456.789012345,-3e-9,-2.5}; put("k0",K0[P(0,4,"const%d",t)],"CompileTimeConstant"); 
  double zr=q(P(1,8,"zre%d",t)),zi=q(P(-8,8,"zim%d",t)); e.v["z_Re"]=init["z_Re"]=zr; e.v["z_Im"]=init["z_Im"]=zi; { char b[120]; snprintf(b,120,"z Free %.17g 0.1 Free %.17g 0.1",zr,zi); lines.push_back(b); }
  e.alias["y0"]=N("+",{N("*",{N("a"),num(2)}),N("b1")}); e.alias["y1"]=N("-",{N("alias",{N("y0")}),N("real",{N("cx",{N("z")})})}); names={"y0","y1"};
  int na=P(0,5,"aliases%d",t); for(int i=0;i<na;i++){ int c=0; std::string n="x"+std::to_string(i); e.alias[n]=draw_formula(base+i,c,P(0,3,"depth%d",base+i),names); names.push_back(n); }
  std::vector<std::string> defs; for(auto& n:names) defs.push_back(n+" = "+text(e.alias[n])); for(auto& d:defs) sim::note("%s",d.c_str());
  auto line=[&](const std::string& l){ auto w=tokens(l); if(w[1]=="=") mps.add(new MinuitExpression(w,&mps)); else if(w.size()==4) mps.add(w[0],parse<Flag>(w[1]),atof(w[2].c_str()),0.1); else { mps.add(w[0]+"_Re",Flag::Free,atof(w[2].c_str()),0.1); mps.add(w[0]+"_Im",Flag::Free,atof(w[5].c_str()),0.1); } };
  std::map<std::string,std::string> conj; if(how==0) for(int i=0;i<4;i++) if(F(1,3,"shape%d",i)){ static const char* S[][2]={{"K*(892)bar0_mass","K*(892)0_mass"},{"K*(892)bar0_radius","K*(892)0_radius"},{"rho(770)+_width","rho(770)-_width"},{"rho(770)0_mass",""}}; std::string n=S[i][0],c=S[i][1]; put(n,0.5+0.125*P(0,8,"s%d",i),i%2?"Fix":"Free"); if(c.empty()) continue; if(F(1,3,"own%d",i)) put(c,2+0.125*P(0,8,"so%d",i)); else if(F(1,3,"tie%d",i)){ e.alias[c]=N("+",{N(n),num(1)}); names.push_back(c); defs.push_back(c+" = "+text(e.alias[c])); } else conj[c]=n; }
  if(how==0){ bool first=F(1,2,"definitions_first"); for(auto& l:first?defs:lines) OptionsParser::setArg(l); for(auto& l:first?lines:defs) OptionsParser::setArg(l); mps.loadFromStream(); }
  else if(how==1){ std::string f; for(auto& l:lines) f+=l+"\n"; for(auto& l:defs) f+=l+"\n"; sim::raw_write("/simfs/pars.txt",f); mps.loadFromFile("/simfs/pars.txt"); }
  else { for(auto& l:lines) line(l); for(auto& l:defs) line(l); }
  size_t count=init.size()+names.size()+conj.size(); std::map<std::string,std::string> renamed;
  typedef CompiledExpression<C(const double*,const double*)> CE; std::unique_ptr<CE> ce,cp; Node form; double dummy[4]={0}; bool ready=false; std::map<std::string,double> at;
  auto same=[&](const char* what,C got,C want,const Got& g,bool cx){ double s=1e-9*(g.scale+1); if(!g.fine) return; if(fabs(got.real()-want.real())>s||(cx&&fabs(got.imag()-want.imag())>s)) sim::fail("expression-value","%s is %.12g%+.12gi, should be %.12g%+.12gi",what,got.real(),got.imag(),want.real(),want.imag()); };
  auto check=[&](int k){
    if(mps.size()!=count) sim::fail("expression-count","the set has %u parameters, should have %zu",mps.size(),count);
    for(auto& p:e.v){ auto* x=mps.find(renamed.count(p.first)?renamed[p.first]:p.first); if(!x) sim::fail("expression-gone","there is no %s",p.first.c_str()); if(x->mean()!=p.second) sim::fail("expression-base","%s is %.17g, should be %.17g",p.first.c_str(),x->mean(),p.second); }
    for(auto& n:names){ auto* x=mps.find(n); if(!x) sim::fail("expression-gone","there is no %s",n.c_str()); Got g; C w=eval(e.alias[n],e,g); std::string d=n+" = "+text(e.alias[n]); same(d.c_str(),x->mean(),w,g,false); same((d+", as a number,").c_str(),double(*x),w,g,false); same((d+", by name,").c_str(),mps(n),w,g,false);
      auto* m=dynamic_cast<MinuitExpression*>(x); if(!m) sim::fail("expression-kind","%s is not an expression",n.c_str()); same((d+", complex,").c_str(),m->getVal(),w,g,true); same((d+", its expression,").c_str(),m->expression()(),w,g,true); }
    for(auto& c:conj){ auto* x=mps.find(c.first); if(!x) sim::fail("expression-conjugate","%s has no conjugate %s",c.second.c_str(),c.first.c_str()); if(x->mean()!=e.v[c.second]) sim::fail("expression-conjugate","%s is %.17g, %s is %.17g",c.first.c_str(),x->mean(),c.second.c_str(),e.v[c.second]); }
    if(ready){ Got g; Env then=e; then.v=at; C w=eval(form,then,g); std::string d="compiled "+text(form); same(d.c_str(),(*ce)(dummy),w,g,true); std::string a=names[P(0,(int)names.size()-1,"which%d",base)]; Got h; C y=eval(e.alias[a],then,h).real()*2+at["a"]; same(("compiled use of "+a).c_str(),(*cp)(dummy),y,h,true); }
  };
  check(-1); int n=P(1,8,"ops%d",t);
  for(int k=0;k<n;k++){ int id=base+k; switch(P(0,12,"op%d",id)){
    case 0: case 1: case 2: case 10: { static const char* W[]={"a","b1","mass_x","s::p","z_Re","z_Im"}; std::string w=W[P(0,5,"set%d",id)]; if(!conj.empty()&&F(1,3,"shaped%d",id)) w=conj.begin()->second; double v=q(P(-12,12,"val%d",id))+0.03125; e.v[w]=v; mps.find(renamed.count(w)?renamed[w]:w)->setCurrentFitVal(v); sim::note("%s = %g",w.c_str(),v); break; }
    case 3: mps.resetToInit(); for(auto& p:init) e.v[p.first]=p.second; sim::note("reset"); break;
    case 4: { MinuitParameterSet o; static const char* W[]={"a","z_Im"}; for(auto* w:W) if(!renamed.count(w)){ double v=q(P(-9,9,"other%d",id))-0.03125; o.add(w,Flag::Free,v,0.1); e.v[w]=v; } o.add("y0",Flag::Free,77,0.1); mps.set(o); sim::note("set from another"); break; }
    case 5: { std::string nm="n"+std::to_string(k); int c=0; Node f=draw_formula(base+50+k,c,P(0,3,"depth%d",base+50+k),renamed.empty()?names:std::vector<std::string>{}); if(!renamed.empty()) break; e.alias[nm]=f; names.push_back(nm); count++; sim::note("%s = %s",nm.c_str(),text(f).c_str()); mps.add(new MinuitExpression(tokens(nm+" = "+text(f)),&mps)); break; }
    case 6: { if(!renamed.empty()) break; std::string b=BAD[P(0,15,"bad%d",id)]; if(b=="nosuch + 1") b="nosuch + 2"; sim::note("malformed: %s",b.c_str()); std::ostringstream out; std::streambuf* old=nullptr; if(alone) old=std::cout.rdbuf(out.rdbuf()); bool thrown=false; try { MinuitExpression x(tokens("bad = "+b),&mps); (void)x.mean(); } catch(const std::exception&){ thrown=true; } if(alone){ std::cout.rdbuf(old); if(!thrown&&out.str().find("ERROR")==std::string::npos&&out.str().find("FATAL")==std::string::npos) sim::fail("expression-unreported","'%s' was accepted without a report",b.c_str()); } break; }
    case 7: case 11: case 12: { if(ce) break; form=pool()[P(0,(int)pool().size()-1,"form%d",t)]; ce.reset(new CE(ExpressionParser::parse(text(form),&mps),"form"+std::to_string(t),&mps)); CompilerWrapper().compile(*ce,""); std::string a=names[P(0,(int)names.size()-1,"which%d",base)]; if(!mps.find("a")){ ce.reset(); break; } cp.reset(new CE(Parameter(a)*2+Parameter("a"),"use"+std::to_string(t),&mps)); CompilerWrapper().compile(*cp,""); ready=true; at=e.v; sim::probe("expression_compiled"); break; }
    case 8: if(ready){ ce->prepare(); cp->prepare(); at=e.v; sim::note("update"); } break;
    case 9: { if(ready||k+1<n) break; static const char* W[]={"b1","s::p"}; std::string w=W[P(0,1,"ren%d",id)]; if(mps.rename(w,w+"_new")) renamed[w]=w+"_new"; sim::note("renamed %s",w.c_str()); break; }
    } check(k); }
  if(ready&&renamed.empty()){ ce->prepare(); cp->prepare(); at=e.v; check(n); }
}
// the conjugates of a set of parameters follow the originals, and nothing else is added
void conjugates(){
  MinuitParameterSet mps; std::vector<std::string> bases; std::map<std::string,std::pair<std::string,double>> tied; std::map<std::string,std::pair<std::string,int>> conj;
  static const char* AMP[]={"D0{K*(892)bar0{K-,pi+},pi0}","D0{rho(770)+{pi+,pi0},K-}","D0{K*(892)bar-{K-,pi0},pi+}","K*(892)bar0{K-,pi+}","D0[P]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}"}; static const char* SHAPE[]={"K*(892)bar0_mass","rho(770)+_width","rho(770)0_mass","K*(892)bar-_radius"}; static const char* PLAINS[]={"yield","scale_x","k_l_m"};
  bool forbid=F(1,3,"forbid"); if(forbid) OptionsParser::setArg("AddCPConjugate::Forbid K*(892)0 K*(892)bar0"); static const Flag FL[]={Flag::Free,Flag::Fix};
  for(int i=0;i<5;i++) if(F(1,2,"amp%d",i)){ std::string n=AMP[i]; Flag fl=FL[P(0,1,"flag%d",i)]; for(const char* c:{"_Re","_Im"}){ mps.add(n+c,fl,q(P(-8,8,"v%d%c",i,c[1])),0.1); bases.push_back(n+c); Particle p=Particle(n).conj(); if(p.props()->hasDistinctAnti()&&!(forbid&&i==3)) tied[p.uniqueString()+c]={n+c,polar&&c[1]=='I'?1:p.CP()}; } }
  for(int i=0;i<4;i++) if(F(1,2,"shape%d",i)){ std::string n=SHAPE[i]; mps.add(n,Flag::Free,0.5+0.125*P(0,8,"s%d",i),0.1); bases.push_back(n); auto t=split(n,'_'); auto* pr=ParticlePropertiesList::get(t[0]); std::string a=pr->anti().name()+"_"+t[1]; if(a!=n) tied[a]={n,1}; }
  if(F(1,3,"spline")) for(int i=0;i<2;i++){ std::string t="::Spline::Gamma::"+std::to_string(i), n="K*(892)bar0"+t; mps.add(n,Flag::Fix,0.25*P(1,8,"knot%d",i),0); bases.push_back(n); tied[ParticlePropertiesList::get("K*(892)bar0")->anti().name()+t]={n,1}; }
  for(int i=0;i<3;i++) if(F(1,2,"plain%d",i)){ mps.add(PLAINS[i],Flag::Free,q(P(-8,8,"p%d",i)),0.1); bases.push_back(PLAINS[i]); }
  if(F(1,2,"complex")){ mps.add("z_Re",Flag::Free,0.5,0.1); mps.add("z_Im",Flag::Free,-0.75,0.1); bases.push_back("z_Re"); bases.push_back("z_Im");
    if(F(2,3,"coupling")){ std::string n="D0{K0S0,rho(770)0{pi+,pi-}}"; mps.add(new MinuitExpression(tokens(n+" = z * I"),&mps)); conj[Particle(n).conj().decayDescriptor()]={n,1}; } }
  if(F(1,3,"both")&&mps.find(std::string(AMP[0])+"_Re")){ std::string c=Particle(AMP[0]).conj().uniqueString()+"_Re"; mps.add(c,Flag::Free,3.5,0.1); tied.erase(c); bases.push_back(c); }
  size_t n=mps.size(); AddCPConjugate(mps); int again=conj.empty()?P(0,1,"again"):0; for(int i=0;i<again;i++) AddCPConjugate(mps);
  for(int k=0;k<=3;k++){
    for(auto& t:tied){ auto* p=mps.find(t.first); if(!p) sim::fail("conjugate-missing","%s has no conjugate %s",t.second.first.c_str(),t.first.c_str()); double w=t.second.second*mps[t.second.first]->mean(); if(p->mean()!=w) sim::fail("conjugate-value","%s is %g, should be %g",t.first.c_str(),p->mean(),w); }
    for(auto& t:conj){ auto* p=dynamic_cast<MinuitExpression*>(mps.find(t.first)); if(!p) sim::fail("conjugate-missing","%s has no conjugate %s",t.second.first.c_str(),t.first.c_str()); double zr=mps["z_Re"]->mean(),zi=mps["z_Im"]->mean(); C z=polar?zr*std::exp(C(0,unit*zi)):C(zr,zi), w=std::conj(z*C(0,1)); if(std::abs(p->getVal()-w)>1e-12*(1+std::abs(w))) sim::fail("conjugate-value","%s is %g%+gi, should be %g%+gi",t.first.c_str(),p->getVal().real(),p->getVal().imag(),w.real(),w.imag()); }
    if(mps.size()!=n+tied.size()+conj.size()) sim::fail("conjugate-count","the set has %u parameters, should have %zu and %zu conjugates",mps.size(),n,tied.size()+conj.size());
    if(!bases.empty()){ auto& b=bases[P(0,(int)bases.size()-1,"base%d",k)]; mps[b]->setCurrentFitVal(q(P(-8,8,"new%d",k))+0.125); } }
  sim::probe("conjugates");
}
}
SIM_CHECK(P30){
  sim::incarnation([]{
    common(); polar=F(1,3,"polar"); bool deg=F(1,3,"degrees"); unit=deg?M_PI/180:1; if(polar) OptionsParser::setArg("CouplingConstant::Coordinates polar"); if(deg) OptionsParser::setArg("CouplingConstant::AngularUnits deg"); if(F(1,3,"constants")) OptionsParser::setArg("ASTResolver::CompileTimeConstants true");
    if(F(1,5,"conjugates")){ conjugates(); return; } int n=F(1,2,"several")?P(2,3,"threads"):1; if(n==1){ history(0,true); return; }
    if(F(1,2,"interleave")){ sim::preempt_memory(true); sim::mem_every(P(1,20,"every")); }
    std::vector<std::thread> ts; for(int i=0;i<n;i++) ts.emplace_back([=]{ history(i,false); }); for(auto& t:ts) t.join();
  });
}
