// Lists of events hold what was put into them
#include "model.h"
#include "AmpGen/Projection.h"
namespace {
bool same(const Event& e,const Ev& v){ if(e.size()!=v.x.size()||e.weight()!=v.w||e.genPdf()!=v.g) return false; for(size_t i=0;i<v.x.size();i++) if(e[i]!=v.x[i]) return false; return true; }
Event event(const Ev& v){ Event e(v.x.data(),v.x.size()); e.setWeight(v.w); e.setGenPdf(v.g); return e; }
double sum(const List& l){ double s=0; for(auto& v:l) s+=v.w; return s; }
template<class L> void look(const L& l,const List& want,const char* what,bool simd){
  if(l.size()!=want.size()) sim::fail("size","%s has %zu events, should have %zu",what,(size_t)l.size(),want.size());
  size_t k=0; for(const auto& e:l){ if(k>=want.size()) sim::fail("iteration","iterating over %s passes more than its %zu events",what,want.size()); if(!same(e,want[k])) sim::fail("event","event %zu of %zu of %s is not the one that was put there",k,want.size(),what); if(e.index()!=k) sim::fail("index","event %zu of %zu of %s says it is event %u",k,want.size(),what,e.index()); k++; }
  if(k!=want.size()) sim::fail("iteration","iterating over %s passes %zu of its %zu events",what,k,want.size());
  for(size_t i=0;i<want.size();i++){ if(!same(l[i],want[i])||!same(l.at(i),want[i])||l[i].index()!=i) sim::fail("event","event %zu of %zu of %s, asked for by its number, is not the one that was put there",i,want.size(),what); }
  size_t w=simd?4:1, nb=(want.size()+w-1)/w; if(l.nBlocks()!=nb||l.aligned_size()!=nb*w) sim::fail("size","%s of %zu events has %zu blocks",what,want.size(),(size_t)l.nBlocks());
}
void look(const EventList& l,const List& want){ look(l,want,"the list",false); for(size_t i=0;i<want.size();i++) if(l.weight(i)!=want[i].w||l.genPDF(i)!=want[i].g) sim::fail("event","the weights of event %zu are not those it was given",i); double s=0; for(auto& v:want) s+=fabs(v.w); WANT("integral",l.integral(),sum(want),s,"the integral of %zu events",want.size()); }
void look(const EventListSIMD& l,const List& want){ look(l,want,"the vectorised list",true);
  for(size_t b=0;b<l.nBlocks();b++) for(int k=0;k<4;k++){ size_t i=4*b+k; if(i>=want.size()){ if(l.weight(b).at(k)!=0) sim::fail("padding","place %zu, beyond the %zu events of a vectorised list, has a weight",i,want.size()); continue; } if(l.weight(b).at(k)!=want[i].w||l.genPDF(b).at(k)!=want[i].g) sim::fail("event","the weights of event %zu are not those it was given",i); for(size_t j=0;j<want[i].x.size();j++) if(l.block(b)[j].at(k)!=want[i].x[j]) sim::fail("event","field %zu of event %zu of %zu in its block is not what it was given",j,i,want.size()); } }
// histograms of a list have each selected event once, with its weight, where it belongs
template<class L> void plots(L& l,const List& m,int k,const char* what){
  using namespace PlotOptions; typedef std::function<double(const Event&)> Fn; int kind=P(0,4,"plot_kind%d",k), nx=P(1,5,"nx%d",k), ny=P(1,4,"ny%d",k); bool sel=F(1,2,"select%d",k), wf=F(1,2,"weight_by%d",k); 
  auto fx=[](double x){ x*=3.7; return x-floor(x); }; auto fy=[](double y){ y*=1.3; return y-floor(y); }; Projection px(Fn([=](const Event& e){ return fx(e[0]); }),"x","x",nx,0.25,0.875), py(Fn([=](const Event& e){ return fy(e[1]); }),"y","y",ny,0.,0.75);
  std::function<bool(const Event&)> s; if(sel) s=[](const Event& e){ return e[2]*8-floor(e[2]*8)<0.25||e.weight()>0.5; }; std::function<double(const Event&)> w; if(wf) w=[](const Event& e){ return 0.5+e[3]*0.125; };
  auto bin=[](double v,int n,double lo,double hi){ return v<lo?0:v>=hi?n+1:1+(int)((v-lo)/(hi-lo)*n); }; std::string pre=F(1,2,"prefix%d",k)?"pre":"";
  auto expect=[&](std::vector<double>& c,double& sc,bool two,const std::function<double(const Event&)>& by){ int n=0; c.assign((nx+2)*(two?ny+2:1),0); sc=0; for(auto& v:m){ Event e=event(v); if(s&&!s(e)) continue; n++; double t=v.w*(by?by(e)/v.g:1); sc+=fabs(t); c[bin(fx(v.x[0]),nx,0.25,0.875)+(two?(nx+2)*bin(fy(v.x[1]),ny,0.,0.75):0)]+=t; } return n; };
  auto compare=[&](const std::vector<double>& g,const std::vector<double>& c,double sc,const char* n){ if(g.size()!=c.size()) sim::fail("plot","a histogram of %s has %zu bins, should have %zu",what,g.size(),c.size()); for(size_t i=0;i<c.size();i++) if(!(fabs(g[i]-c[i])<=1e-12*(1+sc))) sim::fail("plot","bin %zu of %zu of the histogram '%s' of %s (%zu events) has %g, should have %g",i,c.size(),n,what,m.size(),g[i],c[i]); };
  auto named=[&](TObject* h,const std::string& n){ if(h->GetName()!=(pre.empty()?"":pre+"_")+n) sim::fail("plot","a histogram is called '%s', should be '%s'",h->GetName(),((pre.empty()?"":pre+"_")+n).c_str()); };
  std::vector<double> c; double sc; ArgumentPack a{Selection(s),WeightFunction(w),Prefix(pre)};
  if(kind==0||kind==1){ std::vector<TH1D*> h; if(kind) h=l.makeProjections({py,px},Selection(s),WeightFunction(w),Prefix(pre)); else h={nullptr,l.makeProjection(px,a)}; if(h.size()!=2) sim::fail("plot","two projections give %zu histograms",h.size()); int n=expect(c,sc,false,w); compare(h[1]->c,c,sc,"x"); named(h[1],"x"); if(h[1]->GetEntries()!=n) sim::fail("plot","a histogram of %s has %g entries, should have %d",what,h[1]->GetEntries(),n); for(auto* x:h) delete x; }
  else if(kind==2||kind==3){ Projection2D p2(px,py); TH2D* h=kind==2?p2(l,Selection(s),WeightFunction(w),Prefix(pre)):l.makeProjection(p2,a); expect(c,sc,true,w); compare(h->c2,c,sc,"x_vs_y"); named(h,"x_vs_y"); delete h; }
  else { // one histogram for each component, normalised together
    KeyedFunctors<double(Event)> key; std::vector<std::function<double(const Event&)>> fs={[](const Event& e){ return 1+e[3]*0.125; },[](const Event& e){ return 3+e[2]*0.0625; },[](const Event&){ return 0.25; }}; const char* names[]={"one","two","three"}; int n=P(1,3,"components%d",k); for(int i=0;i<n;i++) key.add(fs[i],names[i]); double norm=q(P(-1,6,"norm%d",k),0.75); if(norm<0) norm=-1; auto r=px(l,key,Selection(s),Prefix(pre),PlotOptions::Norm(norm)); auto& hs=std::get<0>(r);
    if((int)hs.size()!=n||(int)std::get<1>(r)->h.size()!=n) sim::fail("plot","%d components give %zu histograms, %zu of them stacked",n,hs.size(),std::get<1>(r)->h.size()); std::vector<std::vector<double>> want(n); double total=0,all=0; for(int i=0;i<n;i++){ expect(want[i],sc,false,fs[i]); all+=sc; for(int b=1;b<=nx;b++) total+=want[i][b]; } if(fabs(total)<=1e-6*all||m.empty()){ sim::probe("plot_of_nothing"); return; }
    for(int i=0;i<n;i++){ TH1D* h=nullptr; for(auto* x:hs) if(x->GetName()==(pre.empty()?"":pre+"_")+names[i]+"_x") h=x; if(!h) sim::fail("plot","there is no histogram of component '%s'",names[i]); double f=norm==-1?1:norm/total; for(auto& x:want[i]) x*=f; compare(h->c,want[i],(all+1)*(1+fabs(f))*1e3,names[i]); } for(auto* x:hs) delete x; delete std::get<1>(r); sim::probe("component_plots"); }
  sim::probe("plots");
}
}
SIM_CHECK(P24){
  sim::incarnation([]{
    common(); bool td=F(1,4,"time"); EventType type({"D0","K-","pi+","pi0"},td); size_t nf=type.eventSize(); int serial=0;
    auto fresh=[&](int k){ Ev v; for(size_t j=0;j<nf;j++) v.x.push_back(++serial*0.0625); v.w=q(P(-3,8,"w%d",serial)); v.g=q(P(1,8,"g%d",serial)); (void)k; return v; };
    EventList l(type); List m; std::unique_ptr<EventListSIMD> s; List ms; int n=P(2,14,"ops");
    auto index=[&](int k,size_t n){ return (size_t)P(0,999,"at%d",k)%n; };
    for(int k=0;k<n;k++){
      int op=P(0,26,"op%d",k); sim::note("operation %d on %zu",op,m.size());
      switch(op){
        case 0: case 1: case 2: { int c=P(1,6,"n%d",k); for(int i=0;i<c;i++){ Ev v=fresh(k); if(op) l.push_back(event(v)); else l.emplace_back(event(v)); m.push_back(v); } break; }
        case 3: { EventList o(type); int c=P(0,5,"n%d",k); List om; for(int i=0;i<c;i++){ Ev v=fresh(k); o.push_back(event(v)); om.push_back(v); } l.add(o); m.insert(m.end(),om.begin(),om.end()); look(o,om); break; }
        case 4: if(m.size()){ size_t a=index(k,m.size()), b=a+P(0,3,"len%d",k); if(b>m.size()) b=m.size(); l.erase(l.begin()+a,l.begin()+b); m.erase(m.begin()+a,m.begin()+b); sim::probe("erased"); } break;
        case 5: { double c=q(P(-2,7,"cut%d",k)); l.filter([c](const Event& e){ return e.weight()<c; }); List r; for(auto& v:m) if(!(v.w<c)) r.push_back(v); m=r; break; }
        case 6: l.transform([](Event& e){ e[0]=e[0]+1; e.setWeight(e.weight()*2); }); for(auto& v:m){ v.x[0]+=1; v.w*=2; } break;
        case 7: if(m.size()){ size_t a=index(k,m.size()); m[a].w=q(P(0,9,"w_%d",k)); m[a].g=q(P(1,9,"g_%d",k)); l.setWeight(a,m[a].w,m[a].g); } break;
        case 8: if(m.size()){ size_t a=index(k,m.size()); m[a].g=q(P(1,9,"g_%d",k)); l.setGenPDF(a,m[a].g); } break;
        case 9: if(F(1,3,"sure%d",k)){ l.clear(); m.clear(); } break;
        case 10: { EventList c(l); look(c,m); c.push_back(event(fresh(k))); look(l,m); if(F(1,2,"swap%d",k)){ List t=m; EventList d; d=l; l=d; look(d,m); } break; }
        case 11: l.reserve(P(0,40,"n%d",k)); break;
        case 12: case 13: s.reset(new EventListSIMD(l)); ms=m; look(*s,ms); break;
        case 14: if(m.size()){ // through a tree, whole or some of its entries
          TTree* t=l.tree("t"); { static const char* part[]={"_Px","_Py","_Pz","_E"}; for(size_t p=0;p<type.size();p++) for(int c=0;c<4;c++){ std::string head="_"+std::to_string(p+1)+"_", tail=part[c]; StubColumn* found=nullptr; for(auto* b:t->br){ const std::string& n=b->m_n; if(n.compare(0,head.size(),head)==0&&n.size()>head.size()+tail.size()&&n.compare(n.size()-tail.size(),tail.size(),tail)==0) found=(StubColumn*)b; } if(!found) sim::fail("tree","a written tree has no column %s...%s",head.c_str(),tail.c_str()); for(size_t e=0;e<m.size();e++) if(!close(found->v.at(e),m[e].x[4*p+c],1e-3)) sim::fail("tree","column %s of a written tree has not the values of particle %zu",found->m_n.c_str(),p); } }
          std::vector<size_t> el; List want; if(F(1,2,"entries%d",k)){ int c=P(1,9,"n%d",k); for(int i=0;i<c;i++){ el.push_back(P(0,999,"entry%d_%d",k,i)%m.size()); want.push_back(m[el.back()]); } } else want=m; std::string cut; if(F(1,3,"filter%d",k)){ double c=q(P(-4,9,"cut%d",k))+0.01; cut="weight>"+std::to_string(c); want.clear(); for(auto& v:m) if(v.w>c) want.push_back(v); sim::probe("tree_filtered"); if(want.empty()) sim::probe("nothing_selected"); }
          bool known=F(1,2,"known%d",k); if(F(1,2,"vector%d",k)){ std::unique_ptr<EventListSIMD> r(known?new EventListSIMD(t,type,WeightBranch("weight"),EntryList(el),Filter(cut)):new EventListSIMD()); if(!known) r->loadFromTree(t,ArgumentPack(WeightBranch("weight"),EntryList(el),Filter(cut))); look(*r,want); s=std::move(r); ms=want; }
          else { std::unique_ptr<EventList> r(known?new EventList(t,type,WeightBranch("weight"),EntryList(el),Filter(cut)):new EventList()); if(!known) r->loadFromTree(t,ArgumentPack(WeightBranch("weight"),EntryList(el),Filter(cut))); if(r->eventType().size()!=3||r->eventType().mother()!="D0"||r->eventType()[1]!="pi+") sim::fail("event-type","the events read back are of another type"); look(*r,want); l=*r; m=want; }
          sim::probe("tree_read_back"); } break;
        case 25: case 26: if(m.size()){ // through files, with the columns in any order; a missing file or tree is reported
          static const char* N[]={"DalitzEventList","EventList","t"}; bool vec=op==25; int w=P(0,2,"name%d",k), lost=F(1,4,"lost%d",k)?P(1,2,"what%d",k):0, files=F(1,2,"several%d",k)?P(2,3,"files%d",k):1; if(files>(int)m.size()) files=1; bool colon=w==2||(w==1&&!vec)||F(1,2,"colon%d",k); std::vector<std::string> from; 
          for(int i=0;i<files;i++){ EventList part(type); for(size_t e=i*m.size()/files;e<(i+1)*m.size()/files;e++) part.push_back(event(m[e])); std::string file="/simfs/l"+std::to_string(i)+".root"; sim::raw_write(file,part.tree(N[w])->stub_save()); if(lost==1&&i==files-1) file="/simfs/none.root"; from.push_back(file+(lost==2&&i==0?":none":colon?std::string(":")+N[w]:"")); }
          std::vector<std::string> col(nf); for(auto& f:type.getEventFormat(true)) col.at(f.second)=f.first; List want=m; bool cols=vec&&F(1,2,"columns%d",k); if(cols&&F(1,2,"swap%d",k)){ std::swap(col[0],col[5]); for(auto& v:want) std::swap(v.x[0],v.x[5]); } if(!cols) col.clear(); 
          try { if(vec){ std::unique_ptr<EventListSIMD> r(files>1?new EventListSIMD(from,type,WeightBranch("weight"),Branches(col)):new EventListSIMD(from[0],type,WeightBranch("weight"),Branches(col))); if(lost) sim::fail("file","events are read although there are none"); look(*r,want); s=std::move(r); ms=want; } else { std::unique_ptr<EventList> r(files>1?new EventList(from,type,WeightBranch("weight")):new EventList(from[0],type,WeightBranch("weight"))); if(lost) sim::fail("file","events are read although there are none"); look(*r,want); l=*r; } sim::probe("file_read_back"); } catch(const std::exception& x){ if(!lost) sim::fail("file","the events of a file cannot be read: %s",x.what()); sim::probe("missing_file_reported"); } } break;
        case 23: plots(l,m,k,"the list"); break;
        case 24: if(s) plots(*s,ms,k,"the vectorised list"); else plots(l,m,k,"the list"); break;
        case 15: if(s){ s->transform([](Event& e){ e[1]=e[1]*2; e.setGenPdf(e.genPdf()+1); }); for(auto& v:ms){ v.x[1]*=2; v.g+=1; } look(*s,ms); } break;
        case 16: if(s&&ms.size()){ size_t b=index(k,(ms.size()+3)/4); double w=q(P(0,9,"w_%d",k)), g=q(P(1,9,"g_%d",k)); real_v vw=s->weight(b), vg(g); for(int i=0;i<4;i++) if(4*b+i<ms.size()){ ms[4*b+i].w=w; ms[4*b+i].g=g; } double a[4]; for(int i=0;i<4;i++) a[i]=4*b+i<ms.size()?w:0; vw=real_v(a); s->setWeight(b,vw,vg); look(*s,ms); } break;
        case 17: if(s&&ms.size()){ TTree* t=s->tree("t"); EventList r(t,type,WeightBranch("weight")); look(r,ms); l=r; m=ms; sim::probe("tree_read_back"); } break;
        case 18: if(s&&F(1,2,"sure%d",k)){ s->clear(); ms.clear(); look(*s,ms); } break;
        case 19: case 20: { // a list made large enough first and filled afterwards
          int c=P(0,9,"n%d",k); if(!s||F(1,2,"new%d",k)) s.reset(new EventListSIMD(type)); s->resize(c); ms.clear(); for(int i=0;i<c;i++){ Ev v=fresh(k); v.w=1; v.g=1; for(size_t j=0;j<nf;j++) reinterpret_cast<double*>(s->block(i/4)+j)[i%4]=v.x[j]; ms.push_back(v); } sim::probe("resized"); look(*s,ms); break; }
        case 21: if(s&&ms.size()){ // change one event through an iterator, then stop
          size_t a=index(k,ms.size()), i=0; for(auto& e:*s) if(i++==a){ e[2]=e[2]+7; e.setGenPdf(0.25); break; } ms[a].x[2]+=7; ms[a].g=0.25; look(*s,ms); } break;
        default: if(s){ EventListSIMD c(*s); look(c,ms); } if(m.size()&&F(1,3,"plot%d",k)){ double lo=0,hi=0; unsigned c=l.count([](const Event& e){ return e.weight()>0.5; }); unsigned want=0; for(auto& v:m) want+=v.w>0.5; if(c!=want) sim::fail("count","%u events are counted, should be %u",c,want); (void)lo;(void)hi; } break;
      }
      look(l,m); if(s) look(*s,ms);
    }
  });
}
