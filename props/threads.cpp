// Objects used by several threads at once.
// VARIANTS: tsan rel
// ENGINE: -DPBT_NO_ALLOC
#include "../engine/pbt.hpp"
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "array.hpp"
#include "binary_word.hpp"
#include "container.hpp"
#include "handle.hpp"
#include "iterator.hpp"
#include "lazy.hpp"
#include "lru_cache.hpp"
#include "macros.hpp"
#include "range.hpp"
#include "stopwatch.hpp"
#include "string.hpp"
#include "tuple.hpp"
#include "variant.hpp"
#include "variant.inl.hpp"
#include "writable.hpp"

using namespace pbt;

#ifdef P_C37
namespace {
using Helper::Array; using Helper::SharedArray; using Helper::List; using Helper::LinkedList; using Helper::Set; using Helper::Map; using Helper::LRUCache; using Helper::BinaryWord; using Helper::Handle; using Helper::Lazy;
struct Thing { long v; explicit Thing(long x) : v(x) { } Thing(Thing const&) = default; virtual ~Thing() = default; virtual Thing* clone() const { return new Thing(*this); } virtual Thing* _copy() const { return new Thing(*this); } virtual Thing* _move() { return new Thing(*this); } virtual long get() const { return v; } };
struct Special : Thing, Helper::WritableInterface { std::string t; explicit Special(long x) : Thing(x), t(std::to_string(x)) { } Special* clone() const override { return new Special(*this); } Special* _copy() const override { return new Special(*this); } Special* _move() override { return new Special(*this); } long get() const override { return v+static_cast<long>(t.size()); } std::ostream& _write(std::ostream& os) const override { return os << "Special(" << t << ")"; } };
struct ByLong : Helper::WriterInterface<long> { std::ostream& _write(std::ostream& os, long const& x) const override { return os << "<" << x << ">"; } };
enum class Code { one=1, two=2, three=77 };
struct One { static constexpr Code code() { return Code::one; } }; struct Two { static constexpr Code code() { return Code::two; } }; struct Three { static constexpr Code code() { return Code::three; } };
struct Name { std::string operator()(One const&) const { return "one"; } std::string operator()(Two const&) const { return "two"; } std::string operator()(Three const&) const { return "three"; } };
struct Walk : Helper::IteratorFacade<Walk,const long,Helper::RandomAccessTraversalTag> { long const* p; explicit Walk(long const* q=nullptr) : p(q) { } bool equal(Walk const& o) const { return p==o.p; } void increment() { ++p; } void decrement() { --p; } void advance(std::ptrdiff_t n) { p+=n; } std::ptrdiff_t distance_to(Walk const& o) const { return o.p-p; } long const& dereference() const { return *p; } };
//! What all threads may read at the same time.
struct Common { Array<long> array; List<std::string> list; Set<long> set; Map<long,std::string> map; BinaryWord word; LinkedList<long> linked; Handle<Thing> handle; Helper::Writer<long> writer; };
//! A piece of work of one thread: what is done is given by kind and the numbers; everything it uses, except what is common, is its own. Returns all that was observed.
std::string work(std::size_t kind, std::vector<long> const& n, Common const& c, Handle<Thing>& own) {
    std::ostringstream os; using Helper::operator<<; std::size_t k=n.size(); auto mod=[](long x, std::size_t m){ return static_cast<std::size_t>(x<0?-x:x)%m; };
    switch(kind) {
      case 0: { Array<long> a(k,n[0]); for(std::size_t i=0;i!=k;++i) { a[i]=n[i]; } Array<long> b(a); b.resize(k+3,n[0]); Array<std::string> t(k,Helper::to_string(n[0])); t.resize(k/2); Array<long> d(c.array); d=a; os << a << b << t << d << (a==b) << (a==d) << c.array; Array<std::size_t> sel(2); sel[0]=0; sel[1]=2; os << Helper::complement(5+k,sel); try { os << a.at(k+mod(n[0],3)); } catch(std::exception const&) { os << "refused"; } break; }
      case 1: { SharedArray<long> a(k,n[0]), b(a); for(std::size_t i=0;i!=k;++i) { b[i]=n[i]; } SharedArray<long> d(a); a=SharedArray<long>(2,7); for(std::size_t i=0;i!=d.size();++i) { os << d[i] << ","; } os << a[0]; break; }
      case 2: { LRUCache<long,std::string> l(1+k/2); for(long x : n) { if(l.has_label(x)) { os << l.get(x) << l.age(x); } else { l.put(x,Helper::to_string(x)); } } try { l.get(12345678); } catch(std::exception const&) { os << "none"; } os << l.current_size() << "/" << l.maximum_size(); break; }
      case 3: { List<long> l(n), m(n); l.append(m); l=Helper::catenate(l,List<long>(n)); os << l << Helper::apply([](long x){ return x+1; },l) << Helper::unique_elements(l) << Helper::duplicate_elements(l) << c.list << Helper::make_set(l) << Helper::make_array(l); LinkedList<long> q(m); q.append(c.linked); q.concatenate(q); os << q; break; }
      case 4: { Set<long> s(n); Set<long> u=Helper::join(s,c.set), i=Helper::intersection(u,c.set), d=Helper::difference(c.set,s); os << s << u << i << d << Helper::subset(d,c.set) << Helper::disjoint(s,d) << c.set.contains(n[0]) << c.set; s.remove(n[0]).adjoin(c.set); os << s; break; }
      case 5: { Map<long,std::string> m; for(long x : n) { m[x]+=Helper::to_string(x); } Map<long,std::string> j=Helper::join(m,c.map); os << j << Helper::restrict_keys(j,c.set) << j.keys() << j.values() << c.map.has_key(n[0]) << c.map; try { os << c.map.get(n[0]); } catch(std::exception const&) { os << "no key"; } break; }
      case 6: { std::ostringstream w; Helper::write_sequence(w,n.begin(),n.end()); std::istringstream r(w.str()); std::vector<long> back; Helper::read_sequence(r,back); os << w.str() << back; std::istringstream bad("[1,2;3]"); try { std::vector<long> x; Helper::read_sequence(bad,x); os << "accepted"; } catch(std::exception const&) { os << "rejected"; } os << std::make_pair(n[0],std::string("p")) << std::make_tuple(n[0],'c',2.5); break; }
      case 7: { BinaryWord w; for(long x : n) { w.append((x&1)!=0); } BinaryWord v(w); v.append(c.word); os << w << v << w.is_prefix(v) << c.word.is_subword(v) << (w<c.word) << c.word; v.erase_prefix(static_cast<int>(mod(n[0],4))); std::ostringstream t; t << v; std::istringstream r(t.str()); BinaryWord x; r >> x; os << x << BinaryWord("0110"); break; }
      case 8: { Handle<Thing> h(own); os << static_cast<Handle<Thing> const&>(own).reference().get() << ","; for(long x : n) { if(x&1) { own.ref().v=x; } else { h=own; h.reference().v+=x; } os << static_cast<Handle<Thing> const&>(own).ref().get() << "," << static_cast<Handle<Thing> const&>(h).ref().get() << ";"; } Handle<Thing> copy(c.handle); copy.ref().v=n[0]; os << c.handle.reference().get(); break; }
      case 9: { try { Handle<Special> s=Helper::dynamic_handle_cast<Handle<Special>>(c.handle); os << static_cast<Handle<Special> const&>(s).reference(); s.ref().v=3; } catch(std::bad_cast const&) { os << "bad"; } os << Helper::dynamic_handle_extract<Special>(Handle<const Thing>(c.handle)).t; Special mine(n[0]); os << mine << c.writer(n[0]); Helper::Writer<long> w{Handle<Helper::WriterInterface<long>>(ByLong())}; os << w(n[0]); break; }
      case 10: { for(long x : n) { Helper::CodedVariant<Code,One,Two,Three> v(mod(x,3)==0?Code::one:mod(x,3)==1?Code::two:Code::three); os << v.accept(Name()) << static_cast<int>(v.code()); } break; }
      case 11: { Walk b(n.data()), e(n.data()+k); long sum=0; for(Walk i=b;i!=e;++i) { sum+=*i; } os << sum << (e-b) << *(b+static_cast<long>(k-1)) << (b<e); for(auto i : Helper::range(2,2+k)) { os << i; } long x=n[0], y=0; Helper::make_lpair(x,y)=std::make_pair(5l,n[0]); os << x << y << Helper::get_first(std::make_pair(x,y)); break; }
      case 12: { int made=0; Lazy<std::string> z([&]{ ++made; return new std::string(Helper::to_string(n[0])); }); Lazy<std::string> y(z); os << z() << z() << y() << made; break; }
      case 13: { Helper::Stopwatch<Helper::Microseconds> w; w.click(); os << (w.duration().count()>=0) << (w.elapsed_seconds()<100.0); w.restart(); os << w.duration().count(); break; }
      case 14: { for(long x : n) { os << Helper::to_string(x) << Helper::to_str(static_cast<double>(x)/8); std::string t=Helper::to_string(x); os << t.size(); } break; }
      default: { for(long x : n) { try { HELPER_ASSERT_MSG(x>0,"value " << x << " of " << k); HELPER_PRECONDITION(x<3); HELPER_ASSERT_EQUAL(x,1); os << "passed"; } catch(std::exception const& e) { os << e.what(); } } break; }
    }
    return os.str();
}
const std::size_t KINDS=16;
struct Task { std::size_t kind; std::vector<long> n; std::string seen, alone; };
}
RULE(C37,"two to four threads each do 1..4 generated pieces of work at the same time, on their own arrays, shared arrays, caches, lists, sets, maps, words, sequences, variants, iterators, lazy objects, watches, texts, assertions and handles (which may have shared their object at first), and reading and copying common constant containers, words and handles; every thread must observe what the same work gives when it is done alone, and no data race may be reported by ThreadSanitizer; non-trivial: every case")
PROP(C37,work,1) {
    std::size_t nt=2+s.upto(2); std::vector<std::vector<Task>> ts(nt); bool alike=s.chance(2,3); std::size_t kind=s.index(KINDS); s.nontrivial();
    for(std::size_t t=0;t!=nt;++t) { std::size_t k=1+s.upto(3); for(std::size_t i=0;i!=k;++i) { Task q; q.kind=alike&&i==0?kind:s.index(KINDS); std::size_t len=1+s.upto(5); for(std::size_t j=0;j!=len;++j) { q.n.push_back(s.irange(-5,5)); } ts[t].push_back(q); } }
    long v=s.irange(-9,9); std::vector<std::size_t> kinds; for(auto& t : ts) { for(auto& q : t) { kinds.push_back(q.kind); } kinds.push_back(99); } TR("threads and kinds of work (99 ends a thread) " << show(std::vector<int>(kinds.begin(),kinds.end())));
    Common c{Array<long>(3,v),List<std::string>(2u,"common"),Set<long>{-2,0,1,4},Map<long,std::string>(),BinaryWord("0110"),LinkedList<long>(),Handle<Thing>(Special(v)),Helper::Writer<long>(Handle<Helper::WriterInterface<long>>(ByLong()))}; c.map[1]="a"; c.map[-3]="b"; c.linked.append(5l);
    Common const& cc=c; bool common_object=s.coin(); Handle<Thing> first(Special(v+1)); std::vector<Handle<Thing>> own, again; for(std::size_t t=0;t!=nt;++t) { if(common_object) { own.push_back(first); again.push_back(first); } else { own.push_back(Handle<Thing>(Special(v+1))); again.push_back(Handle<Thing>(Special(v+1))); } }
    std::vector<std::thread> threads; for(std::size_t t=0;t!=nt;++t) { threads.emplace_back([&,t]{ for(auto& q : ts[t]) { try { q.seen=work(q.kind,q.n,cc,own[t]); } catch(std::exception const& e) { q.seen=std::string("exception ")+e.what(); } } }); }
    for(auto& t : threads) { t.join(); }
    for(auto& t : ts) { for(auto& q : t) { TR("work " << q.kind << " on " << show(q.n) << ": " << q.seen); if(q.seen.rfind("exception",0)==0) { s.label("work ended by an exception"); } } }
    for(std::size_t t=0;t!=nt;++t) { for(auto& q : ts[t]) { try { q.alone=work(q.kind,q.n,cc,again[t]); } catch(std::exception const& e) { q.alone=std::string("exception ")+e.what(); } if(q.seen!=q.alone) { FAIL("work " << q.kind << " of thread " << t << " gave " << show(q.seen) << ", alone it gives " << show(q.alone)); } } }
    REQUIRE_EQ(static_cast<Handle<Thing> const&>(first).reference().get(),Special(v+1).get(),"the object that was shared at first");
}
#endif
