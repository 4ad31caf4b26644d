// The least-recently-used cache: contents, ages and eviction; failing operations.
#include "../engine/pbt.hpp"
#include "../engine/tracked.hpp"
#include <sstream>
#include <string>
#include "string.hpp"
#include "lru_cache.hpp"
#include <algorithm>
#include <list>
#include <map>
#include <memory>

using namespace pbt;
using Helper::LRUCache;

namespace {
template<class L> L label_of(std::size_t i);
template<> int label_of<int>(std::size_t i) { return static_cast<int>(i*7919%131101)-30; }      // distinct, in no order
template<> Helper::String label_of<Helper::String>(std::size_t i) { return (i%3==0?"a long label, longer than a small string holds: ":"l")+std::to_string(i*7919%131101); }

template<class L, class V> struct Model { std::size_t cap; std::vector<std::pair<L,V>> recent;   // most recently used first
    std::size_t find(L const& l) const { for(std::size_t i=0;i!=recent.size();++i) { if(recent[i].first==l) { return i; } } return recent.size(); }
    void touch(std::size_t i) { auto e=recent[i]; recent.erase(recent.begin()+static_cast<long>(i)); recent.insert(recent.begin(),e); }
    void put(L const& l, V const& v) { if(recent.size()==cap) { recent.pop_back(); } recent.insert(recent.begin(),{l,v}); } };

template<class F> bool throws(F f) { try { f(); } catch(std::exception const&) { return true; } return false; }

template<class L, class V> [[gnu::noinline]] void compare(LRUCache<L,V>& c, Model<L,V> const& m, std::size_t labels, std::string const& where, bool values) {
    REQUIRE_EQ(c.current_size(),m.recent.size(),where); REQUIRE_EQ(c.maximum_size(),m.cap,where);
    std::map<L,std::size_t> at; for(std::size_t i=0;i!=m.recent.size();++i) { at.emplace(m.recent[i].first,i); }
    for(std::size_t i=0;i!=labels;++i) { L l=label_of<L>(i); auto f=at.find(l); std::size_t p=f==at.end()?m.recent.size():f->second;
        REQUIRE_EQ(c.has_label(l),p!=m.recent.size(),"label " << l << "; " << where);
        if(p!=m.recent.size()) { std::size_t a=c.age(l); REQUIRE_EQ(a,p,"age of " << l << "; " << where); } }
    if(values) { LRUCache<L,V> copy(c); for(auto& e : m.recent) { REQUIRE(copy.get(e.first)==e.second,"value of " << e.first << "; " << where); }
        for(std::size_t i=0;i!=m.recent.size();++i) { REQUIRE_EQ(c.age(m.recent[i].first),i,"age after reading a copy; " << where); } }
}
}

#ifdef P_C07
RULE(C07,"a cache of capacity 1..70 and 2..60 random operations (store a new label, read one or two labels, copy the cache, assign it to a copy, destroy a copy) on it and up to three copies, against a list ordered by last use for each; after every operation the size, the presence and age of every label in use and, on a copy, every value are compared; caches of up to 1100 and one of 65600 labels are filled beyond their capacity and read throughout; caches whose labels are ordered more coarsely than they are equal, used through equivalent labels; non-trivial: an element was evicted after a read had changed the order")
namespace {
template<class L, class V> void lru_history(Src& s, std::size_t maxcap) {
    std::size_t cap=1+s.len(maxcap-1), labels=cap+1+s.upto(4); std::size_t nops=2+s.upto(cap<8?30:2*cap); bool reordered=false, evicted_after=false;
    typedef LRUCache<L,V> Cache; std::vector<std::unique_ptr<Cache>> caches; std::vector<Model<L,V>> models;        // the first cache and copies of it
    caches.push_back(std::make_unique<Cache>(cap)); models.push_back({cap,{}}); TR("capacity " << cap << ", " << labels << " labels");
    if(s.coin()) { Cache& c=*caches[0]; std::size_t fill=s.upto(cap+2); for(std::size_t i=0;i!=fill && i!=labels;++i) { V v=gen_value<V>(s); c.put(label_of<L>(i),v); models[0].put(label_of<L>(i),v); } TR("filled with " << fill); compare(c,models[0],labels,"after filling",true); }
    for(std::size_t op=0;op!=nops;++op) {
        std::size_t n=caches.size()==1?0:s.index(caches.size()); Cache& c=*caches[n]; Model<L,V>& m=models[n];
        std::size_t i=s.index(labels); L l=label_of<L>(i); std::size_t p=m.find(l); std::string where="op "+std::to_string(op)+" cache "+std::to_string(n)+" label "+show(l);
        switch(s.upto(7)) {
          case 0: case 1: case 2: { if(p!=m.recent.size()) { break; } V v=gen_value<V>(s); where+=": put "+show(v); TR(where); if(m.recent.size()==cap && reordered) { evicted_after=true; } c.put(l,v); m.put(l,v); break; }
          case 3: case 4: case 5: { if(m.recent.empty()) { break; } if(p==m.recent.size()) { p=s.index(m.recent.size()); l=m.recent[p].first; where="op "+std::to_string(op)+" cache "+std::to_string(n)+" label "+show(l); } where+=": get"; TR(where);
              V const& v=c.get(l); REQUIRE(v==m.recent[p].second,"value; " << where); if(p!=0) { reordered=true; } m.touch(p);
              if(s.chance(1,4)) { std::size_t q=s.index(m.recent.size()); V const& w=c.get(m.recent[q].first); REQUIRE(w==m.recent[q].second && v==m.recent[0].second,"two values read one after the other; " << where << " and age " << q); m.touch(q); } break; }
          case 6: { where+=": put the value just read under another label"; if(p!=m.recent.size() || m.recent.empty()) { break; } std::size_t q=s.index(m.recent.size()); TR(where); V v=m.recent[q].second; V const& r=c.get(m.recent[q].first); m.touch(q); c.put(l,r); m.put(l,v); break; }
          default: { std::size_t k=s.upto(3); std::size_t t=s.index(caches.size());
              if(k<=1 && caches.size()<4) { where+=": copy"; TR(where); caches.push_back(std::make_unique<Cache>(c)); models.push_back(Model<L,V>(models[n])); s.label("copied"); }
              else if(k==2) { where+=": assigned to cache "+std::to_string(t); TR(where); *caches[t]=c; Model<L,V> mm=m; models[t]=mm; }
              else if(caches.size()>1) { where+=": destroyed"; TR(where); caches.erase(caches.begin()+static_cast<long>(n)); models.erase(models.begin()+static_cast<long>(n)); } }
        }
        for(std::size_t k=0;k!=caches.size();++k) { compare(*caches[k],models[k],labels,where+" (cache "+std::to_string(k)+")",op%4==0 || op+1==nops); }
        if constexpr(std::is_same_v<V,Tracked>) { Tracked::verify(where.c_str()); }
    }
    if(cap>=16) { s.label("capacity 16 or more"); } if(evicted_after) { s.nontrivial(); s.label("eviction after a reordering read"); }
}
}
namespace {
//! Many elements: filled, read in an order that follows from few choices, then evicted.
template<class L, class F> void lru_large(Src& s, F label_at, std::size_t cap, std::size_t reads, std::size_t puts) {
    u64 seed=s.upto(~u64(0)); std::size_t order=s.upto(3), labels=cap+puts; LRUCache<L,std::size_t> c(cap); std::string what="capacity "+std::to_string(cap);
    TR(what << ", " << reads << " reads in order " << order << ", " << puts << " further labels");
    std::vector<std::size_t> last(labels,0); std::size_t now=0;                                          // the time of the last use, 0 for labels not stored
    auto read=[&](std::size_t i) { std::size_t v=c.get(label_at(i)); REQUIRE_EQ(v,i*3,"value of element " << i << "; " << what); last[i]=++now; };
    for(std::size_t i=0;i!=cap;++i) { c.put(label_at(i),i*3); last[i]=++now; }
    for(std::size_t r=0;r!=reads;++r) { std::size_t k=r%cap; read(order==0?k:order==1?cap-1-k:order==2?static_cast<std::size_t>(Src::mix(seed+r)%cap):(cap/2+r%2)%cap); }
    for(std::size_t p=0;p!=puts;++p) { std::size_t old=0; for(std::size_t i=0;i!=labels;++i) { if(last[i]!=0 && (last[old]==0 || last[i]<last[old])) { old=i; } }
        c.put(label_at(cap+p),(cap+p)*3); last[old]=0; last[cap+p]=++now; if(p%3==2) { std::size_t i=static_cast<std::size_t>(Src::mix(seed^p)%labels); if(last[i]!=0) { read(i); } } }
    REQUIRE_EQ(c.current_size(),cap,what); std::vector<std::pair<std::size_t,std::size_t>> byuse; for(std::size_t i=0;i!=labels;++i) { if(last[i]!=0) { byuse.push_back({now-last[i],i}); } }
    std::sort(byuse.begin(),byuse.end()); std::vector<std::size_t> agev(labels,labels); for(std::size_t a=0;a!=byuse.size();++a) { agev[byuse[a].second]=a; }
    for(std::size_t i=0;i!=labels;++i) { L l=label_at(i); REQUIRE_EQ(c.has_label(l),agev[i]!=labels,"element " << i << "; " << what); if(agev[i]!=labels) { REQUIRE_EQ(c.age(l),agev[i],"age of element " << i << "; " << what); } }
    if(cap>256) { s.label("capacity above 256"); } if(reads!=0 && puts!=0) { s.nontrivial(); }
}
}
PROP(C07,many,1) { std::size_t cap=1+s.bulk(s.chance(1,8)?1100:330); if(s.coin()) { lru_large<int>(s,label_of<int>,cap,s.upto(12),s.upto(8)); } else { lru_large<Helper::String>(s,label_of<Helper::String>,cap<500?cap:500,s.upto(12),s.upto(8)); } }
#ifdef NDEBUG
PROP_ONCE(C07,very_many) { lru_large<int>(s,[](std::size_t i){ return static_cast<int>(i); },65600,6,4); }
#endif
namespace {
//! Labels in an order that is coarser than their equality: labels of one rank stand for one another.
struct Ranked { int rank, name; bool operator<(Ranked const& o) const { return rank<o.rank; } bool operator==(Ranked const& o) const { return rank==o.rank && name==o.name; } friend std::ostream& operator<<(std::ostream& os, Ranked const& r) { return os << r.rank << "/" << r.name; } };
}
PROP(C07,equivalent_labels,1) {
    std::size_t cap=1+s.upto(6); int ranks=static_cast<int>(cap)+2, names=0; LRUCache<Ranked,int> c(cap); std::vector<std::pair<int,int>> recent; std::size_t nops=3+s.upto(20); TR("capacity " << cap);      // rank and value
    for(std::size_t op=0;op!=nops;++op) { int r=s.irange(0,ranks-1); Ranked l{r,++names}; auto at=std::find_if(recent.begin(),recent.end(),[&](auto& e){ return e.first==r; }); std::string where="op "+std::to_string(op)+" label "+show(l); TR(where << (at==recent.end()?": put":": get"));
        if(at==recent.end()) { int v=s.irange(-99,99); c.put(l,v); if(recent.size()==cap) { recent.pop_back(); s.nontrivial(); } recent.insert(recent.begin(),{r,v}); } else { auto e=*at; REQUIRE_EQ(c.get(l),e.second,"value of an equivalent label; " << where); recent.erase(at); recent.insert(recent.begin(),e); }
        REQUIRE_EQ(c.current_size(),recent.size(),where); for(int k=0;k!=ranks;++k) { Ranked q{k,-1-k}; std::size_t a=0; while(a!=recent.size() && recent[a].first!=k) { ++a; } REQUIRE_EQ(c.has_label(q),a!=recent.size(),"presence of the equivalent label " << q << "; " << where); if(a!=recent.size()) { REQUIRE_EQ(c.age(q),a,"age of the equivalent label " << q << "; " << where); REQUIRE(throws([&]{ c.put(q,0); }),"an equivalent label was stored twice; " << where); } } }
}
PROP(C07,string_int,3) { lru_history<Helper::String,int>(s,24); }
PROP(C07,int_string,3) { lru_history<int,std::string>(s,70); }
PROP(C07,int_tracked,2) { Tracked::reset(); lru_history<int,Tracked>(s,12); REQUIRE_EQ(Tracked::live,0L,"objects alive at the end"); Tracked::verify("end"); }
#endif

#ifdef P_C08
RULE(C08,"a cache brought to a random state, then an operation that must fail (reading or asking the age of an absent label, storing a present label, the k-th allocation failing during a store, the k-th copy of the value throwing, capacity 0): it throws and size, labels, ages and values are all as before; non-trivial: the failure happened with at least one element stored")
namespace {
template<class L, class V> void failing(Src& s) {
    std::size_t cap=1+s.len(20), labels=cap+3; LRUCache<L,V> c(cap); Model<L,V> m{cap,{}}; std::size_t fill=s.coin()?cap:s.upto(cap);
    for(std::size_t i=0;i!=fill;++i) { V v=gen_value<V>(s); L l=label_of<L>(i); c.put(l,v); m.put(l,v); if(s.coin()) { std::size_t q=s.index(m.recent.size()); c.get(m.recent[q].first); m.touch(q); } }
    std::size_t tries=1+s.upto(3);
    for(std::size_t t=0;t!=tries;++t) {
        std::size_t kind=s.upto(6); L absent=label_of<L>(fill+s.upto(labels-fill-1)); while(m.find(absent)!=m.recent.size()) { absent=label_of<L>(labels-1); if(m.find(absent)!=m.recent.size()) { return; } } V v=gen_value<V>(s); bool failed=false;
        std::string where="capacity "+std::to_string(cap)+" with "+std::to_string(m.recent.size())+" stored: ";
        switch(kind) {
          case 0: where+="get of an absent label"; TR(where); failed=throws([&]{ c.get(absent); }); REQUIRE(failed,where << " did not throw"); break;
          case 1: where+="age of an absent label"; TR(where); failed=throws([&]{ (void)c.age(absent); }); REQUIRE(failed,where << " did not throw"); break;
          case 2: { if(m.recent.empty()) { break; } std::size_t q=s.index(m.recent.size()); where+="put of the label of age "+std::to_string(q); TR(where); L l=m.recent[q].first; failed=throws([&]{ c.put(l,v); }); REQUIRE(failed,where << " did not throw"); break; }
          case 3: case 4: { long k=1+static_cast<long>(s.upto(6)); where+="put with allocation "+std::to_string(k)+" failing"; TR(where); { AllocFault f(k); try { c.put(absent,v); } catch(std::bad_alloc const&) { failed=true; } alloc_countdown=0; } if(!failed) { m.put(absent,v); } else { s.label("allocation failed"); } break; }
          case 5: if constexpr(std::is_same_v<V,Tracked>) { long k=1+static_cast<long>(s.upto(6)); where+="put with copy "+std::to_string(k)+" of the value throwing"; TR(where); Tracked::throw_in=k; try { c.put(absent,v); } catch(Boom const&) { failed=true; } Tracked::throw_in=0; if(!failed) { m.put(absent,v); } else { s.label("copy threw"); } } break;
          default: { bool z=throws([&]{ LRUCache<L,V> bad(0); }); REQUIRE(z,"a cache of capacity 0 was made"); break; }
        }
        compare(c,m,labels,where,true);
        if(failed && !m.recent.empty()) { s.nontrivial(); }
        if constexpr(std::is_same_v<V,Tracked>) { Tracked::verify(where.c_str()); }
    }
    std::size_t more=s.upto(3); for(std::size_t t=0;t!=more;++t) { L l=label_of<L>(s.index(labels)); if(m.find(l)==m.recent.size()) { V v=gen_value<V>(s); c.put(l,v); m.put(l,v); } compare(c,m,labels,"used after failures",true); }
}
}
PROP(C08,huge_maximum,1) {   // any maximum size but zero is one, and nothing is set aside for it
    static const unsigned shifts[]={8,15,16,31,32,33,40,48,63}; std::size_t cap=s.upto(3)==0?~std::size_t(0)-s.upto(2):(std::size_t(1)<<s.pick(shifts))*(1+s.upto(3)); if(cap==0) { cap=std::size_t(1)<<63; } cap+= s.coin()?0:s.upto(2); if(cap==0) { cap=~std::size_t(0); }
    TR("capacity " << cap); s.nontrivial(); std::unique_ptr<LRUCache<int,std::string>> p; try { p=std::make_unique<LRUCache<int,std::string>>(cap); } catch(std::exception const& e) { FAIL("a cache of capacity " << cap << " was refused: " << e.what()); }
    LRUCache<int,std::string>& c=*p; Model<int,std::string> m{cap,{}}; std::size_t n=s.upto(12); for(std::size_t i=0;i!=n;++i) { std::string v=gen_value<std::string>(s); int l=label_of<int>(i); c.put(l,v); m.put(l,v); REQUIRE(throws([&]{ c.put(l,v); }),"a label was stored twice"); std::size_t q=s.index(m.recent.size()); REQUIRE(c.get(m.recent[q].first)==m.recent[q].second,"value"); m.touch(q); }
    compare(c,m,n+2,"huge maximum",true); REQUIRE(throws([&]{ (void)c.get(label_of<int>(n)); }),"an absent label was read");
}
PROP(C08,string_int,2) { failing<Helper::String,int>(s); }
PROP(C08,int_string,2) { failing<int,std::string>(s); }
PROP(C08,int_tracked,4) { Tracked::reset(); failing<int,Tracked>(s); REQUIRE_EQ(Tracked::live,0L,"objects alive at the end"); Tracked::verify("end"); }
PROP(C08,value_of_the_evicted,1) {   // storing a reference to the value that makes room
    Tracked::reset();
    { std::size_t cap=1+s.upto(5); LRUCache<int,Tracked> c(cap); std::vector<const Tracked*> refs; for(std::size_t i=0;i!=cap;++i) { c.put(static_cast<int>(i),Tracked(static_cast<long>(100+i))); refs.push_back(&c.get(static_cast<int>(i))); }
      std::size_t k=s.index(cap); TR("capacity " << cap << ", stored value of label " << k << " put again"); s.nontrivial(); c.put(1000,*refs[k]); REQUIRE_EQ(c.get(1000).v,static_cast<long>(100+k),"value put from a reference into the cache"); Tracked::verify("aliased put"); }
    REQUIRE_EQ(Tracked::live,0L,"objects alive at the end"); }
#endif
