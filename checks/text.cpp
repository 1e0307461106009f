// Reading files and options: Utilities (processFile, vectorFromFile, getListOfFiles), OptionsParser, NamedParameter, ProfileClock
#include "util.h"
#include "AmpGen/Utilities.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/ProfileClock.h"
#include <algorithm>
#include <map>
#include <set>
#include <thread>
#include <math.h>
#include <stdlib.h>
using namespace AmpGen;
namespace {
struct Rng { uint64_t s; unsigned operator()(unsigned n){ s+=0x9E3779B97F4A7C15ull; uint64_t z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return (unsigned)((z^(z>>31))%n); } };
void read_benign(){ using namespace sim; if(F(1,2,"short_reads")) enable(F_SHORT_READ,1,P(2,40,"short_rate")); if(F(1,3,"eintr")) enable(F_READ_EINTR,1,5); if(F(1,5,"stall")) enable(F_STALL,1,30); sim::preempt_memory(!F(2,3,"nomem")); }
void read_faults(int den){ using namespace sim; if(F(2,3,"f_read")) enable(F_READ_ERR,1,den); if(F(1,2,"f_open")) enable(F_OPEN_FAIL,1,den); }
std::string some_line(int kind,unsigned v){
  Rng r{v*77u+5}; std::string s; static const char A[]="abcXYZ019 {},;:.\t\"'-+*$%&()[]/\\=";
  int n=kind==3?(r(12)==0?60000+r(90000):3000+r(15000)):kind==4?0:kind==5?1+r(3):1+r(60); 
  for(int i=0;i<n;i++) s.push_back(kind==5?' ':A[r(sizeof(A)-1)]);
  if(kind==1) s="#"+s; if(kind==2) s="*"+s; if(kind==6) s=" #"+s; if(kind==7) s="%"+s;
  if(kind==8) s.insert(s.size()/2,1,'\r');
  return s;
}
std::vector<std::string> lines_of(const std::string& text,char ign,bool* tail){
  std::vector<std::string> o; std::string cur; *tail=false; auto put=[&]{ if(ign=='\0'||(!cur.empty()&&cur[0]!=ign)) o.push_back(cur); cur.clear(); };
  for(char c:text){ if(c=='\n') put(); else if(c!='\r') cur.push_back(c); }
  bool ends=text.empty()||text.back()=='\n'; if(!ends) put(); *tail=ends; return o;
}
}
// ---- every line of a file arrives, or the failure is reported -------------------------------------------------
SIM_CHECK(P13){
  sim::incarnation([]{
    OptionsParser::getMe()->setQuiet(); read_benign(); bool faulty=F(1,2,"faulty"); if(faulty) read_faults(P(2,40,"rate")); 
    int nf=P(1,2,"files"); std::vector<std::string> text(nf);
    for(int f=0;f<nf;f++){ int n=P(0,25,"lines%d",f); bool crlf=F(1,4,"crlf%d",f); for(int i=0;i<n;i++){ text[f]+=some_line(P(0,24,"k%d_%d",f,i),P(0,1<<20,"v%d_%d",f,i)); bool last=i==n-1; if(!last||!F(1,3,"no_newline%d",f)) text[f]+=crlf?"\r\n":"\n"; } sim::raw_write("/simfs/t/f"+std::to_string(f),text[f]); if(text[f].size()>30000) sim::preempt_memory(false); }
    int nt=P(1,3,"threads"), fd0=sim::open_fds(); 
    auto job=[&](int t){ for(int k=0;k<2;k++){
      int f=P(0,nf-1,"which%d_%d",t,k); int mode=P(0,4,"mode%d_%d",t,k); std::string name="/simfs/t/f"+std::to_string(f); char ign=mode<=1?'#':mode==2?'*':mode==3?'%':'\0'; std::vector<std::string> got; bool tail; auto want=lines_of(text[f],ign,&tail); bool threw=false, mine=false; int stop=mode==1&&F(1,5,"stop%d_%d",t,k)?P(0,10,"stop_at%d_%d",t,k):-1; 
      try { if(mode==0) got=vectorFromFile(name); else if(mode==2) got=vectorFromFile(name,'*'); else processFile(name,[&](const std::string& l){ if((int)got.size()==stop){ mine=true; throw 42; } got.push_back(l); },ign); }
      catch(const std::exception&){ threw=true; sim::probe("read_failure_reported"); } catch(int){ }
      if(mine||threw){ if(threw&&!faulty) sim::fail("spurious-failure","reading a healthy file was reported as a failure"); 
        for(size_t i=0;i<got.size();i++) if(i>=want.size()||got[i]!=want[i]){ if(ign=='\0'&&i==want.size()&&got[i].empty()) continue; sim::fail("torn-line","line %zu handed over before a failure is not a line of the file",i); } continue; }
      if(ign=='\0'&&tail&&got.size()==want.size()+1&&got.back().empty()) got.pop_back();
      if(got.size()!=want.size()) sim::fail(got.size()<want.size()?"lost-line":"extra-line","%zu lines arrived, the file has %zu, and nothing was reported",got.size(),want.size());
      for(size_t i=0;i<got.size();i++) if(got[i]!=want[i]) sim::fail("wrong-line","line %zu differs from the file (%zu and %zu characters)",i,got[i].size(),want[i].size());
    } };
    if(nt==1) job(0); else { std::vector<std::thread> th; for(int t=0;t<nt;t++) th.emplace_back(job,t); for(auto& t:th) t.join(); }
    if(sim::open_fds()!=fd0) sim::fail("descriptor-leak","%d files are left open after reading",sim::open_fds()-fd0);
    { sim::NoFault nf2; bool called=false; try { if(!vectorFromFile("/simfs/t/none").empty()) called=true; } catch(const std::exception&){} if(called) sim::fail("extra-line","lines were read from a file that does not exist"); }
  });
}
// ---- options: last assignment wins, complete or reported ----------------------------------------------------------
namespace {
typedef std::vector<std::string> Tok;
struct Op { int kind; Tok t; int file; };                       // 0 assign, 1 import
struct Model { std::map<std::string,Tok> last; std::vector<std::string> order; std::map<std::string,std::set<Tok>> ever;
  void set(const Tok& t){ if(!last.count(t[0])) order.push_back(t[0]); last[t[0]]=t; ever[t[0]].insert(t); } };
struct Files { std::vector<std::vector<Op>> ops; std::vector<std::string> text; 
  void apply(int f,Model& m,std::vector<int>& stack) const { for(int s:stack) if(s==f) return; stack.push_back(f); for(auto& o:ops[f]){ if(o.kind==0) m.set(o.t); else if(o.file>=0) apply(o.file,m,stack); } stack.pop_back(); } 
  void apply(int f,Model& m) const { std::vector<int> s; apply(f,m,s); } };
std::string fname(int f){ return "/simfs/opt/file"+std::to_string(f)+".opt"; }
const char* KEYS[]={"alpha","Beta::Gamma","D0{K-,pi+}","nEvents","x_mass","a::b_c","K(1)(1270)+{rho(770)0{pi+,pi-},K+}","Type"};
Tok some_assign(int f,int i){
  Tok t{KEYS[P(0,7,"key%d_%d",f,i)]}; int n=P(1,5,"nval%d_%d",f,i); Rng r{(uint64_t)P(0,1<<16,"val%d_%d",f,i)}; 
  for(int k=0;k<n;k++){ char b[40]; switch(r(6)){ case 0: snprintf(b,40,"%d",(int)r(2000)-1000); break; case 1: snprintf(b,40,"%.3f",((int)r(20000)-10000)/97.); break; case 2: snprintf(b,40,"tok%u",r(50)); break; case 3: snprintf(b,40,"K*(892)bar%u,x=y",r(9)); break; case 4: snprintf(b,40,"%s",r(2)?"true":"Free"); break; default: snprintf(b,40,"q%u w%c{e",r(9),r(2)?'#':'}'); } t.push_back(b); }
  return t;
}
std::string render(const Tok& t,int f,int i){
  Rng r{(uint64_t)P(0,1<<16,"style%d_%d",f,i)}; int style=r(5); static const char* SEP[]={" ","  ","\t"," \t "}; 
  auto q=[&](const std::string& s){ bool need=s.find_first_of(" #{}\"")!=std::string::npos; bool bal=s.find_first_of(" #")==std::string::npos&&std::count(s.begin(),s.end(),'{')==std::count(s.begin(),s.end(),'}'); return (need&&!bal)||r(6)==0?"\""+s+"\"":s; };
  std::string o=std::string(r(3)==0?"  ":"")+q(t[0]);
  if(style==3){ o+=r(2)?" {":" \t{  # opens"; o+="\n"; for(size_t k=1;k<t.size();k++){ if(r(5)==0) o+="# comment } in between\n"; if(r(6)==0) o+="\n"; o+=(r(2)?"  ":"\t")+q(t[k]); if(r(3)!=0||k+1==t.size()) o+="\n"; } o+=r(2)?"}":"  }  # closes"; }
  else for(size_t k=1;k<t.size();k++) o+=SEP[r(4)]+q(t[k]);
  if(style==1) o+=" # and a comment \" { "; if(style==4) o+="   ";
  return o;
}
Files make_files(int nf){
  Files F_; F_.ops.resize(nf); F_.text.resize(nf); 
  for(int f=0;f<nf;f++){ int n=P(0,8,"n%d",f); bool crlf=F(1,6,"crlf%d",f); std::string tx;
    for(int i=0;i<n;i++){ int k=P(0,9,"kind%d_%d",f,i); std::string l;
      if(k<=6||nf==1){ Tok t=some_assign(f,i); l=render(t,f,i); F_.ops[f].push_back({0,t,0}); }
      else if(k==7){ int g=P(0,nf-1,"imp%d_%d",f,i); l="Import "; if(F(1,3,"env%d_%d",f,i)) l+=(F(1,2,"brace%d_%d",f,i)?"${AMPSIM_OPT}/file":"$AMPSIM_OPT/file")+std::to_string(g)+".opt"; else l+=fname(g); F_.ops[f].push_back({1,{},g}); }
      else if(k==8){ static const char* C[]={"# a comment","* another one","","   \t ","#","\"\"","Import /simfs/opt/nothing.opt"}; l=C[P(0,6,"cmt%d_%d",f,i)]; }
      else { Tok t=some_assign(f,i); l="#"+render(t,f,i); l=l.substr(0,l.find('\n')); }
      tx+=l; if(i!=n-1||!F(1,3,"nonl%d",f)) tx+="\n"; }
    if(crlf){ std::string o; for(char c:tx){ if(c=='\n') o+="\r"; o+=c; } tx=o; }
    F_.text[f]=tx; sim::raw_write(fname(f),tx); }
  return F_;
}
void compare(const Model& m,const char* when){
  auto* op=OptionsParser::getMe(); 
  for(auto& kv:m.last){ auto it=op->find(kv.first); if(it==op->end()) sim::fail("option-lost","%s: option '%s' is missing",when,kv.first.c_str()); if(it->second!=kv.second) sim::fail("option-wrong","%s: option '%s' is '%s' instead of '%s'",when,kv.first.c_str(),vectorToString(it->second,"|").c_str(),vectorToString(kv.second,"|").c_str()); }
  size_t n=0; for(auto& kv:*op){ n++; if(!m.last.count(kv.first)) sim::fail("option-extra","%s: option '%s' was never set",when,kv.first.c_str()); } (void)n;
  auto ord=op->getInputOrdered(); std::vector<std::string> keys; for(auto& t:ord) keys.push_back(t.empty()?"":t[0]);
  if(keys!=m.order) sim::fail("option-order","%s: the ordered input lists '%s' instead of '%s'",when,vectorToString(keys,"|").c_str(),vectorToString(m.order,"|").c_str());
  for(auto& t:ord) if(t!=m.last.at(t[0])) sim::fail("option-wrong","%s: the ordered input has an old value of '%s'",when,t[0].c_str());
}
void named(const Model& m){
  for(auto* k:KEYS) if(!m.last.count(k)&&((std::string)NamedParameter<std::string>(k,"default")!="default"||(double)NamedParameter<double>(k,-7.5)!=-7.5)) sim::fail("named-wrong","'%s' was never set and does not have its default",k);
  for(auto& kv:m.last){ const Tok& t=kv.second; NamedParameter<std::string> s(kv.first,"default"); if(t.size()>=2){ Tok v(t.begin()+1,t.end()); if(s.getVector()!=v) sim::fail("named-wrong","the text values of '%s' differ from the option",kv.first.c_str()); bool num=true; std::vector<double> d; for(auto& x:v){ char* e; d.push_back(strtod(x.c_str(),&e)); num=num&&*e==0; } if(num){ NamedParameter<double> p(kv.first,-7); if(p.getVector()!=d) sim::fail("named-wrong","the numbers read for '%s' differ from the option",kv.first.c_str()); } } else if(s.getVal()!="default") sim::fail("named-wrong","'%s' has no value and does not keep its default",kv.first.c_str()); }
  if((double)NamedParameter<double>("never::set",3.25)!=3.25||(int)NamedParameter<int>("never::set",4)!=4||!(bool)NamedParameter<bool>("never::set",true)) sim::fail("named-wrong","an option that was never set does not have its default");
}
}
SIM_CHECK(P14){
  sim::incarnation([]{
    OptionsParser::getMe()->setQuiet(); read_benign(); setenv("AMPSIM_OPT","/simfs/opt",1); int nf=P(1,4,"files"); Files fs=make_files(nf); Model m; 
    bool faulty=F(1,3,"faulty"); if(faulty) read_faults(P(2,30,"rate"));
    Model all; for(int f=0;f<nf;f++) fs.apply(f,all); 
    bool threw=false; int steps=P(1,4,"steps");
    for(int s=0;s<steps&&!threw;s++){
      if(F(1,2,"look%d",s)) named(m);
      try { 
        switch(P(0,3,"step%d",s)){
          case 0: { int f=P(0,nf-1,"root%d",s); Model b=m; fs.apply(f,b); OptionsParser::getMe()->import(fname(f)); m=b; break; }
          case 1: { Tok t=some_assign(90,s); std::string a; for(auto& x:t) a+=(a.empty()?"":" ")+(x.find_first_of(" #")!=std::string::npos?"\""+x+"\"":x); all.set(t); Model b=m; b.set(t); if(F(1,2,"static%d",s)) OptionsParser::setArg(a); else OptionsParser::getMe()->addArg(a); m=b; break; }
          case 2: { OptionsParser::setArg(F(1,2,"empty%d",s)?"":"# nothing"); break; }
          default: { // a command line
            std::vector<std::string> av{"prog"}; Model b=m; int n=P(1,5,"nargs%d",s); 
            for(int i=0;i<n;i++) switch(P(0,3,"arg%d_%d",s,i)){
              case 0: { int f=P(0,nf-1,"argf%d_%d",s,i); if(av.size()>1&&av.back().find("--")==0&&av.back().find('=')==std::string::npos) av.back()+="=1"; av.push_back(fname(f)); fs.apply(f,b); break; }
              case 1: { Tok t=some_assign(91+s,i); t.resize(2); if(t[1].find_first_of(" #")!=std::string::npos) t[1]="v1"; av.push_back("--"+t[0]+"="+t[1]); all.set(t); b.set(t); break; }
              case 2: { Tok t=some_assign(91+s,i); t.resize(2); if(t[1].find_first_of(" #")!=std::string::npos) t[1]="-2.5"; av.push_back("--"+t[0]); av.push_back(t[1]); all.set(t); b.set(t); break; }
              default: { Tok t{KEYS[P(0,7,"argk%d_%d",s,i)],"1"}; av.push_back("--"+t[0]); all.set(t); b.set(t); if(i+1<n&&P(0,3,"arg%d_%d",s,i+1)==0) {} break; }
            }
            std::vector<char*> cv; for(auto& a:av) cv.push_back((char*)a.c_str()); cv.push_back(nullptr); OptionsParser::setArgs((int)av.size(),cv.data()); m=b; }
        }
      } catch(const std::exception&){ threw=true; sim::probe("read_failure_reported"); if(!faulty) sim::fail("spurious-failure","reading healthy options files was reported as a failure"); }
    }
    auto* op=OptionsParser::getMe();
    if(threw){ for(auto& kv:*op) if(!all.ever[kv.first].count(kv.second)) sim::fail("option-torn","after a reported failure option '%s' has a value nobody assigned: '%s'",kv.first.c_str(),vectorToString(kv.second,"|").c_str()); 
      sim::NoFault nf2; int f=P(0,nf-1,"again"); op->import(fname(f)); Model b; fs.apply(f,b); for(auto& kv:b.last){ auto it=op->find(kv.first); if(it==op->end()||it->second!=kv.second) sim::fail("option-lost","importing again after a reported failure leaves '%s' wrong",kv.first.c_str()); } }
    else { compare(m,"after loading"); named(m); 
      if(F(1,3,"readers")){ std::vector<std::thread> th; for(int t=0;t<3;t++) th.emplace_back([&]{ named(m); }); for(auto& t:th) t.join(); } }
    if(sim::open_fds()) sim::fail("descriptor-leak","options files are left open");
  });
}
// ---- timers -----------------------------------------------------------------------------------------------------------
SIM_CHECK(P19){
  sim::incarnation([]{
    sim::preempt_memory(F(1,2,"mem")); int rate=P(1,6,"rate"); if(F(3,4,"back")) sim::enable(sim::F_CLOCK_BACK,1,rate); if(F(3,4,"jump")) sim::enable(sim::F_CLOCK_JUMP,1,rate); if(F(1,3,"stall")) sim::enable(sim::F_STALL,1,10);
    auto job=[](int t){
      int64_t s_before=sim::now_ns(); ProfileClock c; int64_t s_after=sim::now_ns(); int scale=P(0,2,"scale%d",t); int64_t unit=scale==0?1000000:scale==1?1000:1; int n=scale?P(1,40,"segs%d",t):P(1,6,"segs%d",t); double last=0; int64_t lo_run=0,hi_run=0;
      // what a timer reports must lie between the simulated time around its calls, up to rounding of the sum
      auto near=[&](double ms,int64_t lo,int64_t hi,const char* what){ double ns=ms*1e6, tol=1+1e-9*(fabs(ns)+hi); if(!(ms>=0)) sim::fail("negative-duration","%s reports %g ms",what,ms); if(ns<lo-tol||ns>hi+tol) sim::fail("wrong-duration","%s reports %.9g ms, between %.9g and %.9g ms have passed",what,ms,lo*1e-6,hi*1e-6); };
      for(int k=0;k<n;k++){
        sim::sleep_ns((int64_t)P(0,5000,"sleep%d_%d",t,k)*unit); 
        if(k%4==0){ int64_t b=sim::now_ns(); double v=c.count(); int64_t a=sim::now_ns(); near(v,b-s_after,a-s_before,"a running timer"); }
        int64_t b=sim::now_ns(); c.stop(); int64_t a=sim::now_ns(); lo_run+=b-s_after; hi_run+=a-s_before; near((double)c,lo_run,hi_run,"a stopped timer"); 
        if((double)c<last) sim::fail("timer-went-back","the accumulated time fell from %g to %g ms",last,(double)c); last=(double)c;
        sim::sleep_ns((int64_t)P(0,900,"pause%d_%d",t,k)*unit); 
        s_before=sim::now_ns(); c.start(); s_after=sim::now_ns();
        if((double)c!=last) sim::fail("wrong-duration","starting a timer again changed the accumulated time");
      }
      int64_t b=sim::now_ns(); int d=P(0,50,"per%d",t); double p=Profile<3>([&]{ sim::sleep_ns(d*unit); },"sleeping"); int64_t a=sim::now_ns(); near(p,3*d*unit,a-b,"a profile");
      b=sim::now_ns(); p=ProfileWithStat<4>([&]{ sim::sleep_ns(d*unit); },"sleeping"); a=sim::now_ns(); near(4*p,4*d*unit,a-b,"a profile with spread");
    };
    int nt=P(1,3,"threads"); if(nt==1) job(0); else { std::vector<std::thread> th; for(int t=0;t<nt;t++) th.emplace_back(job,t); for(auto& x:th) x.join(); }
  });
}
// ---- directory listings -------------------------------------------------------------------------------------------------
namespace {
bool glob(const char* s,const char* p){ if(!*p) return !*s; if(*p=='*') return glob(s,p+1)||(*s&&glob(s+1,p)); return *s==*p&&glob(s+1,p+1); }
std::string some_name(int i){ Rng r{(uint64_t)P(0,1<<16,"name%d",i)}; static const char* A[]={"a","b","ab","root",".root","_0","data","x","."}; std::string s; int n=1+r(4); for(int k=0;k<n;k++) s+=A[r(9)]; if(s.find_first_not_of('.')==std::string::npos) s+="q"; return s; }
std::string some_pattern(const char* key){ Rng r{(uint64_t)P(0,1<<16,key)}; static const char* A[]={"*","a","b","*",".root","*","root","_0","d"}; std::string s; int n=1+r(4); for(int k=0;k<n;k++) s+=A[r(9)]; return s; }
}
SIM_CHECK(P20){
  sim::incarnation([]{
    sim::preempt_memory(false); setenv("AMPSIM_DIR","/simfs/ls",1); bool faulty=F(1,4,"faulty"); if(faulty) sim::enable(sim::F_OPEN_FAIL,1,P(1,6,"rate")); 
    std::map<std::string,std::set<std::string>> dirs; std::set<std::string> top; int n=P(0,10,"n"); sim::raw_write("/simfs/ls/keepq",""); top.insert("keepq");
    for(int i=0;i<n;i++){ std::string e=some_name(i); if(top.count(e)) continue; top.insert(e); if(F(1,3,"isdir%d",i)){ dirs[e]; int m=P(0,4,"m%d",i); sim::raw_write("/simfs/ls/"+e+"/inner",""); dirs[e].insert("inner"); for(int k=0;k<m;k++){ std::string g=some_name(20+i*5+k); dirs[e].insert(g); sim::raw_write("/simfs/ls/"+e+"/"+g,""); } } else sim::raw_write("/simfs/ls/"+e,""); }
    auto job=[&](int t){ char kb[32]; for(int q=0;q<3;q++){
      int mode=P(0,4,"mode%d_%d",t,q); snprintf(kb,32,"pat%d_%d",t,q); std::string pat=mode==0?"":some_pattern(kb); snprintf(kb,32,"wild%d_%d",t,q); std::string wild=some_pattern(kb); if(wild.find('*')==std::string::npos) wild+="*"; std::string base=F(1,3,"env%d_%d",t,q)?"$AMPSIM_DIR":"/simfs/ls"; std::multiset<std::string> want;
      if(mode<=2){ for(auto& e:top) if(pat==""||glob(e.c_str(),pat.c_str())) want.insert("/simfs/ls/"+e); }
      else { if(mode==3) pat=""; base+="/"+wild; for(auto& e:top) if(glob(e.c_str(),wild.c_str())){ auto d=dirs.find(e); if(d==dirs.end()) want.insert("/simfs/ls/"+e); else for(auto& g:d->second) if(pat==""||glob(g.c_str(),pat.c_str())) want.insert("/simfs/ls/"+e+"/"+g); } }
      sim::failed_dirs().clear(); auto got=getListOfFiles(base,pat); auto lost=sim::failed_dirs(); std::multiset<std::string> g(got.begin(),got.end());
      for(auto& x:g) if(g.count(x)>want.count(x)) sim::fail("extra-entry","'%s' with pattern '%s' lists '%s', which does not match or is listed twice",base.c_str(),pat.c_str(),x.c_str());
      for(auto& x:want) if(!g.count(x)){ bool excused=false; for(auto d:lost){ while(d.size()>1&&d.back()=='/') d.pop_back(); excused|=x.compare(0,d.size()+1,d+"/")==0; } if(excused){ sim::probe("entries_of_closed_directory_missing"); continue; } sim::fail("missing-entry","'%s' with pattern '%s' does not list '%s'",base.c_str(),pat.c_str(),x.c_str()); } } };
    int nt=P(1,2,"threads"); if(nt==1) job(0); else { std::thread a(job,0),b(job,1); a.join(); b.join(); }
    if(sim::open_dirs()) sim::fail("directory-leak","%d directories are left open",sim::open_dirs());
  });
}
