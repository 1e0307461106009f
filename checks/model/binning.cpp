// Adaptive binnings: every event has a bin, the bins are filled evenly, and a saved binning is the same when it is loaded
#include "model.h"
#include "AmpGen/BinDT.h"
#include "AmpGen/Chi2Estimator.h"
#include "AmpGen/FastDT.h"
#include <algorithm>
#include <set>
namespace {
struct Rng { uint64_t s; unsigned operator()(unsigned n){ s+=0x9E3779B97F4A7C15ull; uint64_t z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return (unsigned)((z^(z>>31))%n); } };
typedef std::vector<unsigned> Bins;
std::function<std::vector<double>(const Event&)> functor(int dim){ return [dim](const Event& e){ std::vector<double> r; for(int i=0;i<dim;i++) r.push_back(e[i]); return r; }; }
// values that differ from each other in every coordinate, by no round amounts
List sample(int id,int n,size_t nf){ List l; Rng r{(uint64_t)P(0,1<<16,"values%d",id)}; std::vector<std::vector<double>> c; for(size_t j=0;j<nf;j++){ std::vector<double> v; for(int i=0;i<n;i++) v.push_back((i+0.1+0.01*r(80))/(j%2?3e4:7)-1); for(int i=n-1;i>0;i--) std::swap(v[i],v[r(i+1)]); c.push_back(v); }
  for(int i=0;i<n;i++){ Ev v; for(size_t j=0;j<nf;j++) v.x.push_back(c[j][i]); v.w=0.5+0.25*r(7); v.g=0.5+0.25*r(5); l.push_back(v); } return l; }
Event event(const Ev& v){ Event e(v.x.data(),v.x.size()); e.setWeight(v.w); e.setGenPdf(v.g); return e; }
Bins bins(const BinDT& b,const List& l){ Bins r; for(auto& v:l){ r.push_back(b.getBinNumber(event(v))); if(b.getBinNumber(v.x.data())!=r.back()) sim::fail("bin","an event and its coordinates are in different bins"); if(r.back()>=b.size()) sim::fail("bin","an event is in bin %u of %u",r.back(),b.size()); } return r; }
Bins labels(const BinDT& b,const List& l){ Bins r; for(auto& v:l) r.push_back(b.getBin(event(v))); return r; }
void numbered(BinDT& b){ std::set<unsigned> s; for(auto& n:b) s.insert(n->voxNumber()); if(s.size()!=b.size()||(s.size()&&*s.rbegin()+1!=s.size())) sim::fail("numbering","the %u bins are not numbered from 0 each with its own number",b.size()); }
void evenly(const BinDT& b,const List& l,size_t low,bool deep){ std::vector<unsigned> c(b.size()); for(auto k:bins(b,l)) c[k]++; for(size_t k=0;k<c.size();k++){ if(c[k]<low&&c.size()>1) sim::fail("filling","bin %zu of %zu has %u of the events it was made from, should have at least %zu",k,c.size(),c[k],low); if(deep&&c[k]>=2*low) sim::fail("filling","bin %zu of %zu has %u events and was not divided at %zu",k,c.size(),c[k],low); } }
void same(const Bins& a,const Bins& b,const char* cls,const char* what){ for(size_t i=0;i<a.size();i++) if(a[i]!=b[i]) sim::fail(cls,"%s: point %zu is in %u instead of %u",what,i,b[i],a[i]); }
void benign(){ using namespace sim; if(F(1,2,"short_reads")) enable(F_SHORT_READ,1,P(2,20,"short_rate")); if(F(1,3,"eintr")) enable(F_READ_EINTR,1,8); if(F(1,3,"short_writes")) enable(F_SHORT_WRITE,1,4); if(F(1,4,"weintr")) enable(F_WRITE_EINTR,1,6); }
}
SIM_CHECK(P26){
  struct Sh { int saved,life; }; Sh* sh=(Sh*)sim::shared(sizeof(Sh));
  bool crashes=F(1,4,"crash"); int dim=P(1,3,"dim"), low=P(1,9,"low"), n=P(0,9,"size")==0?P(0,3,"few"):F(1,12,"many")?P(300,900,"n_many"):P(2,90,"n"), depth=F(1,4,"shallow")?P(0,4,"depth"):999; bool deep=depth==999;
  auto life=[&]{
    common(); EventType type({"D0","K-","pi+","pi0"}); size_t nf=type.eventSize(); if(F(1,2,"memory")) sim::preempt_memory(n<30);
    List l=sample(0,n,nf), other=sample(1,25,nf); ArgumentPack args{MinEvents(low),MaxDepth(depth),Dim(dim),Functor(functor(dim))};
    EventList el=aos(type,l); std::unique_ptr<BinDT> b; int how=P(0,2,"how");
    if(how==0) b.reset(new BinDT(el,MinEvents(low),MaxDepth(depth),Dim(dim),Functor(functor(dim)))); else if(how==1) b.reset(new BinDT(el,args)); else { EventListSIMD s(el); b.reset(new BinDT(s.begin(),s.end(),args)); }
    numbered(*b); bins(*b,other); if(n>=low) evenly(*b,l,low,deep);
    if(F(1,3,"again")){ BinDT c(el,args); same(bins(*b,other),bins(c,other),"repeat","the same events make another binning"); same(bins(*b,l),bins(c,l),"repeat","the same events make another binning"); }
    Rng r{(uint64_t)P(0,9999,"labels")}; for(auto& e:*b) if(r(3)) e->setBinNumber(r(2000));
    Bins want=bins(*b,other), wl=labels(*b,other), want0=bins(*b,l), wl0=labels(*b,l);
    auto check=[&](BinDT& c,const char* what){ numbered(c); if(c.size()!=b->size()) sim::fail("loaded","%s has %u bins instead of %u",what,c.size(),b->size()); same(want,bins(c,other),"loaded",what); same(want0,bins(c,l),"loaded",what); same(wl,labels(c,other),"label",what); same(wl0,labels(c,l),"label",what); };
    ArgumentPack from{File("/simfs/binning.txt"),MinEvents(low),Dim(dim),Functor(functor(dim))};
    if(sh->saved){ // an earlier life saved it, or was saving it when it ended
      sim::NoFault nf; try { BinDT c(from); check(c,"the binning of an earlier life"); sim::probe("loaded_after_crash"); } catch(const std::exception&){ if(sh->saved==2) sim::fail("lost","a binning that was saved cannot be loaded after a crash"); sim::probe("torn_file_reported"); } }
    if(crashes&&sh->life++==0) sim::enable(sim::F_CRASH,1,P(1,12,"crash_rate")); benign(); bool faulty=F(1,2,"faulty"); if(faulty){ int d=P(1,8,"rate"); if(F(1,2,"f_space")) sim::enable(sim::F_WRITE_ENOSPC,1,d); if(F(1,2,"f_write")) sim::enable(sim::F_WRITE_EIO,1,d); if(F(1,3,"f_close")) sim::enable(sim::F_CLOSE_ERR,1,d); if(F(1,2,"f_open")) sim::enable(sim::F_OPEN_FAIL,1,d); if(F(1,2,"f_read")) sim::enable(sim::F_READ_ERR,1,d); }
    int lives=P(1,3,"saves"); for(int k=0;k<lives;k++){
      bool ok=false; sh->saved=1; try { b->serialize(std::string("/simfs/binning.txt")); ok=true; } catch(const std::exception&){ sim::probe("save_failure_reported"); if(!faulty) sim::fail("spurious-failure","saving a binning to a healthy disk was reported as a failure"); }
      if(ok) sh->saved=2;
      { sim::NoFault nf; try { BinDT c(from); check(c,"a saved binning"); sim::probe("loaded"); } catch(const std::exception&){ if(ok) sim::fail("lost","a binning that was saved cannot be loaded"); sim::probe("torn_file_reported"); } }
      if(ok) for(int t=0;t<3;t++) try { BinDT c(from); check(c,"a binning"); break; } catch(const std::exception&){ sim::probe("load_failure_reported"); if(!faulty) sim::fail("spurious-failure","loading a binning from a healthy disk was reported as a failure"); }
      if(ok&&F(1,3,"cut%d",k)){ // the file loses its end
        std::string s=sim::raw_read("/simfs/binning.txt"); size_t at=P(0,999,"at%d",k)*s.size()/1000; sim::raw_write("/simfs/binning.txt",s.substr(0,at)); sh->saved=1; sim::NoFault nf; try { BinDT c(from); check(c,"a binning from a cut file"); sim::probe("cut_file_complete"); } catch(const std::exception&){ sim::probe("cut_file_reported"); } }
    }
    { sim::NoFault nf; bool threw=false; try { BinDT c{File("/simfs/none.txt"),MinEvents(low),Dim(dim),Functor(functor(dim))}; } catch(const std::exception&){ threw=true; } if(!threw) sim::fail("missing-file","loading a binning from a file that does not exist is not reported"); }
    if(n>=low&&n>1&&low>1&&F(1,2,"chi2")){ // compare two samples in the bins of the first
      sim::NoFault nof; EventListSIMD d(el), mc(aos(type,other)); Chi2Estimator c(d,mc,[](const Event& e){ return 1+e[0]*e[0]; },MinEvents(low),MaxDepth(depth),Dim(dim),Functor(functor(dim))); std::vector<double> x(b->size()),xx(x),y(x),yy(x); double sx=0,sy=0; for(size_t i=0;i<l.size();i++){ x[want0[i]]+=l[i].w; xx[want0[i]]+=l[i].w*l[i].w; sx+=l[i].w; } for(size_t i=0;i<other.size();i++){ double w=(1+other[i].x[0]*other[i].x[0])*other[i].w/other[i].g; y[want[i]]+=w; yy[want[i]]+=w*w; sy+=w; } double chi=0; for(size_t k=0;k<x.size();k++){ double f=sx/sy,del=x[k]-y[k]*f; chi+=del*del/(xx[k]+yy[k]*f*f); } if(c.nBins()!=b->size()||!(fabs(c.chi2()-chi)<=1e-9*(1+chi))) sim::fail("chi2","the chi2 of %u bins is %g, should be %g",b->size(),c.chi2(),chi); sim::probe("chi2"); c.writeBinningToFile("/simfs/chi2.txt"); BinDT back(File("/simfs/chi2.txt"),Dim(dim),Functor(functor(dim))); same(want,bins(back,other),"loaded","the binning of a chi2"); }
    if(low>1&&n>=2*low&&F(1,2,"flat")){ // the flat form of the same trees
      sim::NoFault nof; FastDT f{MinEvents(low),MaxDepth(depth),Dim(dim)}; std::vector<double*> a; for(auto& v:l) a.push_back(v.x.data()); f.makeNodes(a,std::queue<unsigned>(),0); Bins fw,fo; std::map<int,unsigned> c; for(auto& v:l){ c[f.findNode(v.x.data())]++; fw.push_back(f.findNode(v.x.data())); } for(auto& k:c) if(k.second<(unsigned)low) sim::fail("filling","bin %d of a flat binning has %u events, should have at least %d",k.first,k.second,low); for(auto& v:other) fo.push_back(f.findNode(v.x.data()));
      { std::ofstream o("/simfs/flat.txt"); f.serialise(o); } std::ifstream in("/simfs/flat.txt"); FastDT g(in,(unsigned)f.const_nodes().size()); Bins gw,go; for(auto& v:l) gw.push_back(g.findNode(v.x.data())); for(auto& v:other) go.push_back(g.findNode(v.x.data())); same(fw,gw,"loaded","a flat binning"); same(fo,go,"loaded","a flat binning"); sim::probe("flat"); }
    if(low>1&&n<=90&&F(1,2,"two")){ // bins in which one sample is compared with another: both have coordinates, then a weight
      sim::NoFault nof; int m=P(2,90,"m"); List tl=sample(2,m,nf); auto rows=[&](List& x){ std::vector<double*> a; for(auto& v:x){ v.x[dim]=v.w; a.push_back(v.x.data()); } return a; }; List sl=l; auto src=rows(sl),tgt=rows(tl);
      BinDT t{MinEvents(low),MaxDepth(depth),Dim(dim),Functor(functor(dim))}; if(n>1) { t.makeNodes(src,tgt); numbered(t); if(n>=low) evenly(t,sl,low,false); bins(t,tl); sim::probe("two_samples"); if(t.size()>1) sim::probe("two_samples_divided"); }
      if(n>1&&dim==1){ FastDT f{MinEvents(low),MaxDepth(depth),Dim(dim)}; f.m_strategy=F(1,2,"best")?FastDT::best:FastDT::random; f.makeNodes(src,tgt); std::map<int,int> c; for(auto& v:sl) c[f.findNode(v.x.data())]++; if(c.size()>1) for(auto& k:c) if(k.second<low) sim::fail("filling","bin %d of a flat binning of two samples has %d events, should have at least %d",k.first,k.second,low); for(auto& v:tl) f.findNode(v.x.data()); sim::probe("two_samples_flat"); } }
  };
  if(sim::incarnation(life)==sim::INC_CRASHED) sim::incarnation(life);
}
