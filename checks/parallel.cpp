// parallel_sort and parallel_accumulate (AmpGen/Utilities.h)
#include "util.h"
#include "AmpGen/Utilities.h"
#include "AmpGen/simd/utils.h"
#include "AmpGen/Complex.h"
#include <algorithm>
#include <deque>
#include <memory>
using namespace AmpGen;
namespace {
struct Item { int key; int id; };
struct CmpError { int n; };
void faults(){
  if(F(1,3,"few_threads")) sim::enable(sim::F_THREAD_CREATE, 1, 1+P(1,4,"ft"));
  if(F(1,4,"stalls")) sim::enable(sim::F_STALL, 1, 60);
  if(F(1,3,"races_off")) sim::detect_races(false);
}
template<class V> void verify(const V& v, const std::vector<Item>& in, bool desc){
  if(v.size()!=in.size()) sim::fail("wrong-size","sorted range has %zu elements, the input had %zu",v.size(),in.size());
  std::vector<char> seen(in.size(),0);
  for(size_t i=0;i<v.size();i++){
    const Item& x=v[i]; if(x.id<0||(size_t)x.id>=in.size()||seen[x.id]||in[x.id].key!=x.key) sim::fail("not-a-permutation","element %zu of the sorted range is not an unused input element",i);
    seen[x.id]=1; if(i && (desc? v[i-1].key<x.key : v[i-1].key>x.key)) sim::fail("not-sorted","elements %zu and %zu are out of order",i-1,i);
  }
}
}
SIM_CHECK(P06){
  sim::incarnation([]{
    faults();
    int n=P(0,1,"big")?P(0,120,"n"):P(0,12,"n_small"); int range=P(1,1+n,"range"); size_t grain=P(0,n+2,"grain"); bool desc=F(1,3,"desc");
    int pre=P(0,3,"pre"); std::vector<Item> in(n); for(int i=0;i<n;i++) in[i]={pre==1?i:pre==2?n-i:(int)P(0,range,"k%d",i),i};
    switch(P(0,3,"mode")){
      case 0: { std::vector<Item> v=in; parallel_sort(v.begin(),v.end(),[desc](const Item& a,const Item& b){ return desc?a.key>b.key:a.key<b.key; },grain); verify(v,in,desc); break; }
      case 1: { std::deque<Item> v(in.begin(),in.end()); parallel_sort(v.begin(),v.end(),[desc](const Item& a,const Item& b){ return desc?a.key>b.key:a.key<b.key; },grain); verify(v,in,desc); break; }
      case 2: { std::vector<std::string> v; for(auto& x:in){ char b[16]; snprintf(b,16,"%05d",x.key); v.push_back(b); } auto ref=v; std::sort(ref.begin(),ref.end()); parallel_sort(v.begin(),v.end(),grain); if(v!=ref) sim::fail("not-sorted","a range of strings sorted with the default order differs from the sequential sort"); break; }
      case 3: { // the comparison fails at some call: the caller must learn about it
        std::vector<Item> v=in; std::atomic<int> calls{0}; int at=P(1,1+2*n,"fail_at"); bool thrown=false, got=false;
        try { parallel_sort(v.begin(),v.end(),[&](const Item& a,const Item& b){ if(++calls==at){ thrown=true; throw CmpError{at}; } return a.key<b.key; },grain); }
        catch(const CmpError&){ got=true; sim::probe("comparison_error_delivered"); }
        if(thrown && !got) sim::fail("error-lost","the comparison threw and the sort reported success");
        if(!thrown) verify(v,in,false);
        break; }
    }
  });
}
namespace {
struct Acc { std::vector<int> visits; std::vector<double> x; };
}
SIM_CHECK(P07){
  sim::incarnation([]{
    faults(); sim::cores(P(1,8,"cores"));
    int n=P(0,60,"n"); Acc a; a.visits.assign(n,0); a.x.resize(n); double ref=0; long iref=0;
    struct E { int i; double x; }; std::vector<E> v(n);
    for(int i=0;i<n;i++){ long k=P(-50,50,"x%d",i); v[i]={i,(double)k}; ref+=k; iref+=k; }
    long init=P(-1000,1000,"init"); auto& vis=a.visits;
    switch(P(0,4,"type")){
      case 0: { double t=parallel_accumulate(v.begin(),v.end(),(double)init,[&vis](const E& e){ vis[e.i]++; return e.x; }); if(t!=ref+init) sim::fail("wrong-sum","sum of %d numbers and %ld is %.1f instead of %.1f",n,init,t,ref+init); break; }
      case 1: { long t=parallel_accumulate(v.begin(),v.end(),init,[&vis](const E& e){ vis[e.i]++; return (long)e.x; }); if(t!=iref+init) sim::fail("wrong-sum","sum of %d integers and %ld is %ld instead of %ld",n,init,t,iref+init); break; }
      case 2: { int t=parallel_accumulate(v.begin(),v.end(),(int)init,[&vis](const E& e){ vis[e.i]++; return (int)e.x; }); if(t!=iref+init) sim::fail("wrong-sum","sum of %d ints is %d instead of %ld",n,t,iref+init); break; }
      case 3: { real_v t=parallel_accumulate(v.begin(),v.end(),real_v((double)init),[&vis](const E& e){ vis[e.i]++; return real_v(e.x); }); for(unsigned k=0;k<real_v::size;k++) if(t.at(k)!=ref+init) sim::fail("wrong-sum","lane %u of the vector sum of %d numbers is %.1f instead of %.1f",k,n,(double)t.at(k),ref+init); break; }
      case 4: { unsigned nt=P(1,9,"omp_n"); (void)nt; float t=parallel_accumulate(v.begin(),v.end(),(float)init,[&vis](const E& e){ vis[e.i]++; sim::yield(); return (float)e.x; }); if(t!=(float)(ref+init)) sim::fail("wrong-sum","sum of %d floats is %.1f instead of %.1f",n,t,ref+init); break; }
    }
    for(int i=0;i<n;i++) if(vis[i]!=1) sim::fail("element-count","element %d of %d was visited %d times",i,n,vis[i]);
  });
}
