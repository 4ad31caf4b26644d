// Lists, linked lists, sets, maps and the operations between them.
#include "../engine/pbt.hpp"
#include "../engine/tracked.hpp"
#include <iostream>
#include "container.hpp"
#include <algorithm>
#include <forward_list>
#include <map>
#include <memory>
#include <set>

using namespace pbt;
using Helper::List; using Helper::LinkedList; using Helper::Set; using Helper::Map; using Helper::Array;

namespace {
template<class T> std::vector<T> vec(List<T> const& l) { return std::vector<T>(l.begin(),l.end()); }
template<class C> auto seq(C const& c) { std::vector<typename C::value_type> v; for(auto const& x : c) { v.push_back(x); } return v; }
template<class F> bool throws(F f) { try { f(); } catch(std::exception const&) { return true; } return false; }
struct Wide { long v; Wide(int x) : v(x) { } bool operator==(Wide const& o) const { return v==o.v; } bool operator<(Wide const& o) const { return v<o.v; } };
struct Expl { long v; explicit Expl(int x) : v(x) { } bool operator==(Expl const& o) const { return v==o.v; } bool operator<(Expl const& o) const { return v<o.v; } };
template<class T> [[gnu::noinline]] std::vector<T> few(Src& s, std::size_t cap) { std::size_t n=s.len(cap); std::vector<T> v; std::size_t dom=s.coin()?5:s.upto(2*n+4); for(std::size_t i=0;i!=n;++i) { v.push_back(Make<T>::from(static_cast<long>(s.upto(dom))-3)); } return v; }
template<class T> [[gnu::noinline]] std::set<T> fewset(Src& s, std::size_t cap) { auto v=few<T>(s,cap); return std::set<T>(v.begin(),v.end()); }
}

namespace {
//! A size for contents that follow from few choices; now and then more than 65536.
std::size_t many(Src& s, std::size_t usual, std::size_t most) { std::size_t n=s.bulk(s.chance(1,40)?most:usual); if(n>65536) { s.label("more than 65536 elements"); } else if(n>256) { s.label("more than 256 elements"); } return n; }
template<class A, class B> void same_sequence(A const& got, B const& want, std::string const& what) {
    auto g=got.begin(); auto w=want.begin(); std::size_t i=0; for(;g!=got.end() && w!=want.end();++g,++w,++i) { if(!(*g==*w)) { FAIL(what << ": element " << i << " is " << show(*g) << ", expected " << show(*w)); } } REQUIRE(!(g!=got.end()),what << ": more than " << i << " elements"); REQUIRE(!(w!=want.end()),what << ": only " << i << " elements"); }
//! Runs an operation that may fail: the k-th allocation, or the k-th copy of an element.  True if it failed.
template<class F> bool faulty(Src& s, std::string& where, F f) {
    long k=1+static_cast<long>(s.len(40)); bool failed=false;
    if(s.coin()) { where+=", allocation "+std::to_string(k)+" fails"; AllocFault g(k); try { f(); } catch(std::bad_alloc const&) { failed=true; } alloc_countdown=0; }
    else { where+=", copy "+std::to_string(k)+" throws"; Tracked::throw_in=k; try { f(); } catch(Boom const&) { failed=true; } Tracked::throw_in=0; }
    return failed; }
std::vector<long> values_of(std::vector<Tracked> const& v) { std::vector<long> r; for(auto& x : v) { r.push_back(x.v); } return r; }
template<class C> std::vector<long> longs(C const& c) { std::vector<long> r; for(auto const& x : c) { r.push_back(x.v); } return r; }
}

#ifdef P_C09
RULE(C09,"2..12 random operations on three lists (append an element, an element of the list itself, a list, the list itself; concatenate; catenate; apply; elementwise on one and two lists; conversions to and from lists, arrays and sets) against vectors; lists of up to 70000 elements; and joins during which the k-th allocation or copy fails; non-trivial: two lists or a list and itself were joined, with elements in both")
namespace {
template<class T> void list_history(Src& s, std::size_t cap) {
    List<T> l[3]; std::vector<T> m[3]; std::size_t nops=2+s.upto(10);
    for(std::size_t op=0;op!=nops;++op) {
        std::size_t i=s.index(3), j=s.index(3); std::string where="op "+std::to_string(op)+" l"+std::to_string(i); std::size_t kind=s.upto(13);
        if((kind==3 || kind==4 || kind==5 || kind==6) && m[i].size()+m[j].size()>4000) { continue; }
        switch(kind) {
          case 0: { auto v=few<T>(s,cap); where+=" = "+show(v); TR(where); l[i]=List<T>(v); m[i]=v; break; }
          case 1: { T x=gen_value<T>(s); where+=".append("+show(x)+")"; TR(where); l[i].append(x); m[i].push_back(x); break; }
          case 2: { if(m[i].empty()) { break; } std::size_t p=s.index(m[i].size()); where+=".append(its element "+std::to_string(p)+")"; TR(where); T x=m[i][p]; l[i].append(l[i][p]); m[i].push_back(x); break; }
          case 3: { where+=".append(l"+std::to_string(j)+")"; TR(where); if(!m[i].empty() && !m[j].empty()) { s.nontrivial(); } if(i==j) { s.label("joined to itself"); } l[i].append(l[j]); auto t=m[j]; m[i].insert(m[i].end(),t.begin(),t.end()); break; }
          case 4: { where+=".concatenate(l"+std::to_string(j)+")"; TR(where); if(!m[i].empty() && !m[j].empty()) { s.nontrivial(); } l[i].concatenate(l[j]); auto t=m[j]; m[i].insert(m[i].end(),t.begin(),t.end()); break; }
          case 5: { std::size_t k=s.index(3); where+=" = catenate(l"+std::to_string(j)+",l"+std::to_string(k)+")"; TR(where); if(!m[k].empty() && !m[j].empty()) { s.nontrivial(); } auto t=m[j]; t.insert(t.end(),m[k].begin(),m[k].end()); l[i]=catenate(l[j],l[k]); m[i]=t; break; }
          case 6: { T x=gen_value<T>(s); where+=" = catenate(l"+std::to_string(j)+","+show(x)+")"; TR(where); auto t=m[j]; t.push_back(x); l[i]=catenate(l[j],x); m[i]=t; break; }
          case 7: { where+=" applied"; TR(where); std::vector<T> seen; auto r=Helper::apply([&](T const& x){ seen.push_back(x); return std::make_pair(seen.size(),x); },l[i]); REQUIRE_EQ(seen.size(),m[i].size(),"calls; " << where); REQUIRE_EQ(r.size(),m[i].size(),where); for(std::size_t q=0;q!=r.size();++q) { REQUIRE(r[q].second==m[i][q] && r[q].first==q+1,"element " << q << "; " << where); } break; }
          case 8: { where+=" elementwise"; TR(where); std::size_t calls=0; auto r=Helper::elementwise([&](T const& x){ ++calls; return std::make_pair(x,calls); },l[i]); REQUIRE_EQ(calls,m[i].size(),"calls; " << where); REQUIRE_EQ(r.size(),m[i].size(),where); for(std::size_t q=0;q!=r.size();++q) { REQUIRE(r[q].first==m[i][q] && r[q].second==q+1,"element " << q << "; " << where); } break; }
          case 9: { std::size_t k=std::min(m[i].size(),m[j].size()); List<T> a(m[i].begin(),m[i].begin()+static_cast<long>(k)), b(m[j].begin(),m[j].begin()+static_cast<long>(k)); where+=" elementwise with l"+std::to_string(j); TR(where); std::size_t calls=0; auto r=Helper::elementwise([&](T const& x, T const& y){ ++calls; return std::make_tuple(x,y,calls); },a,b); REQUIRE_EQ(calls,k,"calls; " << where); REQUIRE_EQ(r.size(),k,where); for(std::size_t q=0;q!=k;++q) { REQUIRE(std::get<0>(r[q])==m[i][q] && std::get<1>(r[q])==m[j][q] && std::get<2>(r[q])==q+1,"element " << q << "; " << where); } break; }
          case 10: { where+=" through an array"; TR(where); Array<T> a=Helper::make_array(static_cast<std::vector<T> const&>(l[i])); REQUIRE_EQ(a.size(),m[i].size(),where); for(std::size_t q=0;q!=a.size();++q) { REQUIRE(a[q]==m[i][q],"element " << q << "; " << where); }
                Array<T> b=Helper::make_array(a); REQUIRE(b==a,where); List<T> r=Helper::make_list(a); REQUIRE(vec(r)==m[i],where); r=Helper::make_list(static_cast<std::vector<T> const&>(l[i])); REQUIRE(vec(r)==m[i],where); break; }
          case 11: { where+=" through a set"; TR(where); std::set<T> w(m[i].begin(),m[i].end()); Set<T> st=Helper::make_set(static_cast<std::vector<T> const&>(l[i])); REQUIRE(static_cast<std::set<T> const&>(st)==w,where); List<T> r=Helper::make_list(st); REQUIRE(vec(r)==seq(w),"list of a set; " << where); List<T> q(static_cast<List<T>>(st)); REQUIRE(vec(q)==seq(w),"set converted to a list; " << where); break; }
          case 12: { T x=gen_value<T>(s); where+=" = one element "+show(x); TR(where); List<T> r(x); REQUIRE(r.size()==1 && r[0]==x,"list of one value; " << where); List<T> q=Helper::make_list(x); REQUIRE(q.size()==1 && q[0]==x,"make_list of one value; " << where); Array<T> a=Helper::make_array(x); REQUIRE(a.size()==1 && a[0]==x,"make_array of one value; " << where); l[i]=r; m[i].assign(1,x); break; }
          default: { where+=" = l"+std::to_string(j); TR(where); l[i]=l[j]; auto t=m[j]; m[i]=t; break; }
        }
        for(std::size_t k=0;k!=3;++k) { if(!(vec(l[k])==m[k])) { FAIL("l" << k << " is " << show(vec(l[k])) << ", expected " << show(m[k]) << "; " << where); } }
        if constexpr(std::is_same_v<T,Tracked>) { Tracked::verify(where.c_str()); }
    }
}
}
PROP(C09,int,3) { list_history<int>(s,300); }
PROP(C09,string,2) { list_history<std::string>(s,60); }
PROP(C09,tracked,2) { Tracked::reset(); list_history<Tracked>(s,40); REQUIRE_EQ(Tracked::live,0L,"objects alive at the end"); }
PROP(C09,many,1) {
    std::size_t n=many(s,3000,70000), k=s.coin()?s.upto(10):many(s,3000,70000); u64 seed=s.upto(~u64(0)); auto a=hashed_vector<int>(seed,n), b=hashed_vector<int>(seed+1,k); std::size_t kind=s.upto(6); TR(n << " and " << k << " elements, kind " << kind); if(n>0 && k>0) { s.nontrivial(); }
    std::vector<int> ab(a); ab.insert(ab.end(),b.begin(),b.end()); List<int> A(a), B(b);
    switch(kind) {
      case 0: A.append(B); same_sequence(A,ab,"append"); break;
      case 1: A.concatenate(B); same_sequence(A,ab,"concatenate"); break;
      case 2: { same_sequence(catenate(A,B),ab,"catenate"); ab=a; ab.push_back(7); same_sequence(catenate(A,7),ab,"catenate with an element"); same_sequence(A,a,"operand"); break; }
      case 3: { A.append(A); ab=a; ab.insert(ab.end(),a.begin(),a.end()); same_sequence(A,ab,"append to itself"); break; }
      case 4: { auto f=[](int x){ return static_cast<long>(x)*3-1; }; std::vector<long> w; for(int x : a) { w.push_back(f(x)); } same_sequence(Helper::apply(f,A),w,"apply"); same_sequence(Helper::elementwise(f,A),w,"elementwise"); std::size_t m=n<k?n:k; List<int> C(a.begin(),a.begin()+static_cast<long>(m)), D(b.begin(),b.begin()+static_cast<long>(m)); auto g=[](int x, int y){ return static_cast<long>(x)*1000+y; }; w.clear(); for(std::size_t i=0;i!=m;++i) { w.push_back(g(a[i],b[i])); } same_sequence(Helper::elementwise(g,C,D),w,"elementwise on two lists"); break; }
      case 5: { Array<int> r=Helper::make_array(a); same_sequence(r,a,"make_array"); same_sequence(Helper::make_list(r),a,"make_list of an array"); same_sequence(Helper::make_list(a),a,"make_list"); List<long> w(a); same_sequence(w,a,"converted"); List<Expl> e(a); REQUIRE_EQ(e.size(),n,"converted explicitly"); for(std::size_t i=0;i!=n;++i) { if(e[i].v!=a[i]) { FAIL("element " << i << " converted explicitly"); } } break; }
      default: { std::set<int> w(a.begin(),a.end()); Set<int> st=Helper::make_set(a); same_sequence(st,w,"make_set"); same_sequence(Helper::make_list(st),w,"make_list of a set"); same_sequence(static_cast<List<int>>(st),w,"set as a list"); break; }
    }
}
namespace {
//! Functions that cannot be copied, count their calls, and tell their operands apart.
struct Fn1 { mutable std::size_t calls=0; Fn1() = default; Fn1(Fn1 const&) = delete; std::string operator()(long x) const { return std::to_string(x)+"#"+std::to_string(calls++); } };
struct Fn2 { mutable std::size_t calls=0; Fn2() = default; Fn2(Fn2 const&) = delete; Expl operator()(std::string const& x, int y) const { return Expl(static_cast<int>(x.size())*1000+y*10+static_cast<int>(calls++)); } std::string operator()(int y, std::string const& x) const { ++calls; return std::to_string(y)+x; } };
}
PROP(C09,functions,1) {     // functions that keep something, of operands and with results of other types
    auto a=few<int>(s,12); std::vector<std::string> t; for(std::size_t i=0;i!=a.size();++i) { t.push_back(gen_value<std::string>(s)); } TR(show(a) << " and " << show(t)); if(a.size()>1) { s.nontrivial(); } List<int> A(a); List<std::string> B(t); std::size_t before=s.upto(2); Fn1 f, h; Fn2 g; f.calls=before; h.calls=before; g.calls=before;
    List<std::string> r=Helper::elementwise(f,A), q=Helper::apply(h,A); REQUIRE(f.calls==before+a.size() && h.calls==before+a.size(),"calls of the caller's function: " << f.calls << " and " << h.calls); REQUIRE(r.size()==a.size() && q.size()==a.size(),"size"); for(std::size_t i=0;i!=a.size();++i) { std::string w=std::to_string(a[i])+"#"+std::to_string(before+i); REQUIRE(r[i]==w && q[i]==w,"result " << i << ": " << r[i] << " and " << q[i] << ", expected " << w); }
    List<Expl> e=Helper::elementwise(g,B,A); REQUIRE_EQ(g.calls,before+a.size(),"calls of the caller's function"); REQUIRE_EQ(e.size(),a.size(),"size"); for(std::size_t i=0;i!=a.size();++i) { REQUIRE_EQ(e[i].v,static_cast<long>(static_cast<int>(t[i].size())*1000+a[i]*10+static_cast<int>(before+i)),"result " << i); } List<std::string> u=Helper::elementwise(g,A,B); REQUIRE_EQ(u.size(),a.size(),"size"); for(std::size_t i=0;i!=a.size();++i) { REQUIRE_EQ(u[i],std::to_string(a[i])+t[i],"result " << i); }
    List<double> d=Helper::elementwise([](int x){ return x/4.0; },A); for(std::size_t i=0;i!=a.size();++i) { REQUIRE_EQ(d[i],a[i]/4.0,"result " << i); } REQUIRE(vec(A)==a && vec(B)==t,"operands");
    { std::vector<int> c; for(int x : a) { c.push_back(x%2); } List<int> C(c); int n=0; auto f2=[&n](int x, int y){ return x*1000+y*100+n++; }; auto f1=[&n](int x){ return x*1000+n++; };      // lists with equal neighbours, a list and itself, results of the type of the elements
      List<int> p=Helper::elementwise(f2,C,C); REQUIRE_EQ(n,static_cast<int>(c.size()),"calls on a list and itself"); n=0; List<int> u=Helper::elementwise(f1,C); REQUIRE_EQ(n,static_cast<int>(c.size()),"calls"); n=0; List<int> v=Helper::apply(f1,C); REQUIRE_EQ(n,static_cast<int>(c.size()),"calls"); REQUIRE(p.size()==c.size() && u.size()==c.size() && v.size()==c.size(),"size");
      for(std::size_t i=0;i!=c.size();++i) { REQUIRE_EQ(p[i],c[i]*1100+static_cast<int>(i),"result " << i << " of a list and itself"); REQUIRE_EQ(u[i],c[i]*1000+static_cast<int>(i),"result " << i); REQUIRE_EQ(v[i],c[i]*1000+static_cast<int>(i),"result " << i); } }
}
PROP(C09,failing,1) {      // a join that fails keeps what was there, in order, and adds only a first part of the other operand
    Tracked::reset();
    { auto a=few<Tracked>(s,40), b=few<Tracked>(s,40); List<Tracked> l(a), r(b), c; auto va=values_of(a), vb=values_of(b); std::size_t kind=s.upto(4); std::string where="kind "+std::to_string(kind)+" on "+show(a)+" and "+show(b); bool failed=false, self=false;
      switch(kind) { case 0: failed=faulty(s,where,[&]{ l.append(r); }); break; case 1: failed=faulty(s,where,[&]{ l.concatenate(r); }); break; case 2: failed=faulty(s,where,[&]{ c=catenate(l,r); }); break; case 3: self=true; failed=faulty(s,where,[&]{ l.append(l); }); break;
        default: { std::size_t calls=0, stop=s.upto(20); try { auto q=Helper::apply([&](Tracked const& x){ if(calls++==stop) { throw Boom(); } return x.v; },l); REQUIRE_EQ(q.size(),va.size(),"results; " << where); } catch(Boom const&) { failed=true; } REQUIRE_EQ(failed,stop<va.size(),"the function throws at call " << stop << "; " << where); break; } }
      TR(where); if(failed) { s.nontrivial(); s.label("failed"); } auto got=longs(l); std::vector<long> full(va); auto& other=self?va:vb; if(kind<2 || self) { full.insert(full.end(),other.begin(),other.end()); }
      REQUIRE(got.size()>=va.size() && got.size()<=full.size() && std::equal(got.begin(),got.end(),full.begin()),"list is " << show(got) << ", before " << show(va) << "; " << where); if(!failed) { REQUIRE_EQ(got,full,where); } REQUIRE_EQ(longs(r),vb,"other operand; " << where);
      if(kind==2 && !failed) { full.insert(full.end(),vb.begin(),vb.end()); REQUIRE_EQ(longs(c),full,where); } Tracked::verify(where.c_str()); }
    REQUIRE_EQ(Tracked::live,0L,"objects alive at the end");
}
namespace {
template<class B, class A> void list_to(List<A> const& a) { List<B> b(a); REQUIRE_EQ(b.size(),a.size(),"converted"); for(std::size_t i=0;i!=a.size();++i) { REQUIRE(b[i]==static_cast<B>(a[i]),"converted element " << i << " is " << b[i]); } LinkedList<B> l(a); REQUIRE(std::vector<B>(l.begin(),l.end())==vec(b),"converted to a linked list"); Set<B> t(static_cast<std::vector<A> const&>(a)); REQUIRE(static_cast<std::set<B> const&>(t)==std::set<B>(b.begin(),b.end()),"converted to a set"); auto m=Helper::apply([](A x){ return static_cast<B>(x); },a); static_assert(std::is_same_v<decltype(m),List<B>>); REQUIRE(m==b,"mapped"); auto e=Helper::elementwise([](A x){ return static_cast<B>(x); },a); REQUIRE(e==b,"mapped elementwise"); }
template<class A> void list_from(Src& s, std::size_t n) { List<A> a; for(std::size_t i=0;i!=n;++i) { i64 x=s.range(0,120); TR(x); if constexpr(std::is_floating_point_v<A>) { a.append(static_cast<A>(x)/static_cast<A>(s.coin()?1:8)); } else { a.append(static_cast<A>(x)); } } list_to<short>(a); list_to<int>(a); list_to<long>(a); list_to<float>(a); list_to<double>(a); }
}
PROP(C09,arithmetic,1) {     // conversions between arithmetic types of the same and of other sizes
    std::size_t n=s.len(20); if(n>=1) { s.nontrivial(); } switch(s.upto(3)) { case 0: list_from<unsigned short>(s,n); break; case 1: list_from<int>(s,n); break; case 2: list_from<float>(s,n); break; default: list_from<double>(s,n); break; }
}
PROP(C09,conversion,1) {
    auto v=few<int>(s,200); TR(show(v)); if(v.size()>=2) { s.nontrivial(); } List<int> l(v);
    { List<double> d=l; REQUIRE_EQ(d.size(),v.size(),"to double"); for(std::size_t i=0;i!=v.size();++i) { REQUIRE_EQ(d[i],static_cast<double>(v[i]),"to double"); } }
    { List<Wide> d=l; REQUIRE_EQ(d.size(),v.size(),"implicit"); for(std::size_t i=0;i!=v.size();++i) { REQUIRE_EQ(d[i].v,static_cast<long>(v[i]),"implicit"); } }
    { List<Expl> d(l); REQUIRE_EQ(d.size(),v.size(),"explicit"); for(std::size_t i=0;i!=v.size();++i) { REQUIRE_EQ(d[i].v,static_cast<long>(v[i]),"explicit"); } }
    REQUIRE(vec(l)==v,"the source of the conversions");
}
#endif

#ifdef P_C10
RULE(C10,"2..16 random operations on three linked lists (construct with a size, a size and a value, iterators, a standard list, a list or linked list of other elements; append an element, a list or itself; concatenate) against standard lists, with iterators into a list kept across joins; lists of up to 70000 elements; and joins during which the k-th allocation or copy fails; non-trivial: two lists or a list and itself were joined, with elements in both")
namespace {
template<class T, class O> void linked_history(Src& s, std::size_t cap) {
    LinkedList<T> l[3]; std::list<T> m[3]; std::size_t nops=2+s.upto(14);
    for(std::size_t op=0;op!=nops;++op) {
        std::size_t i=s.index(3), j=s.index(3); std::string where="op "+std::to_string(op)+" l"+std::to_string(i); std::size_t kind=s.upto(9);
        if((kind==1 || kind==2) && m[i].size()+m[j].size()>2000) { continue; }
        switch(kind) {
          case 0: { T x=gen_value<T>(s); where+=".append("+show(x)+")"; TR(where); l[i].append(x); m[i].push_back(x); break; }
          case 1: case 2: { bool app=(kind==1); where+=std::string(app?".append":".concatenate")+"(l"+std::to_string(j)+")"; TR(where); if(!m[i].empty() && !m[j].empty()) { s.nontrivial(); } if(i==j) { s.label("joined to itself"); }
                bool had=!l[i].empty(); auto it=l[i].begin(); auto mt=had?m[i].front():T(); LinkedList<T> const& arg=l[j]; if(app) { l[i].append(arg); } else { l[i].concatenate(arg); } auto t=m[j]; m[i].insert(m[i].end(),t.begin(),t.end());
                if(had) { REQUIRE(*it==mt && it==l[i].begin(),"an iterator to the first element no longer refers to it; " << where); } break; }
          case 3: { unsigned n=static_cast<unsigned>(s.len(cap)); T x=gen_value<T>(s); where+=" = LinkedList("+std::to_string(n)+","+show(x)+")"; TR(where); l[i]=LinkedList<T>(n,x); m[i]=std::list<T>(n,x); break; }
          case 4: { unsigned n=static_cast<unsigned>(s.len(cap)); where+=" = LinkedList("+std::to_string(n)+")"; TR(where); l[i]=LinkedList<T>(n); m[i]=std::list<T>(n); break; }
          case 5: { auto v=few<T>(s,cap); where+=" = iterators of "+show(v); TR(where); l[i]=LinkedList<T>(v.begin(),v.end()); m[i].assign(v.begin(),v.end()); break; }
          case 6: { auto v=few<T>(s,cap); std::list<T> q(v.begin(),v.end()); where+=" = std::list "+show(v); TR(where); l[i]=LinkedList<T>(q); m[i]=q; break; }
          case 7: { auto v=few<O>(s,cap); where+=" = list of other elements "+show(v); TR(where); if(s.coin()) { l[i]=LinkedList<T>(List<O>(v)); } else { l[i]=LinkedList<T>(LinkedList<O>(v.begin(),v.end())); } m[i].assign(v.begin(),v.end()); break; }
          case 8: { where+=" = l"+std::to_string(j); TR(where); LinkedList<T> c(l[j]); l[i]=c; auto t=m[j]; m[i]=t; break; }
          default: { if(m[i].empty()) { break; } std::size_t q=s.upto(2), at=q==0?0:q==1?m[i].size()-1:s.index(m[i].size()); where+=".append(its element "+std::to_string(at)+")"; TR(where); T x=*std::next(m[i].begin(),static_cast<long>(at)); std::vector<T const*> was; for(T const& y : l[i]) { was.push_back(&y); } l[i].append(*was[at]); m[i].push_back(x); std::size_t p=0; for(T const& y : l[i]) { if(p<was.size() && &y!=was[p]) { FAIL("element " << p << " is another object than before; " << where); } ++p; } break; }
        }
        for(std::size_t k=0;k!=3;++k) { if(!(static_cast<std::list<T> const&>(l[k])==m[k]) || l[k].size()!=m[k].size()) { FAIL("l" << k << " is " << show(seq(l[k])) << ", expected " << show(seq(m[k])) << "; " << where); } }
        if constexpr(std::is_same_v<T,Tracked>) { Tracked::verify(where.c_str()); }
    }
}
}
PROP(C10,many,1) {
    std::size_t n=many(s,3000,70000), k=s.coin()?s.upto(10):many(s,3000,70000); u64 seed=s.upto(~u64(0)); auto a=hashed_vector<int>(seed,n), b=hashed_vector<int>(seed+1,k); std::size_t kind=s.upto(4); TR(n << " and " << k << " elements, kind " << kind); if(n>0 && k>0) { s.nontrivial(); }
    std::vector<int> ab(a); LinkedList<int> A(a.begin(),a.end()), B(b.begin(),b.end());
    switch(kind) {
      case 0: case 1: if(kind==0) { A.append(B); } else { A.concatenate(B); } ab.insert(ab.end(),b.begin(),b.end()); same_sequence(A,ab,"joined"); same_sequence(B,b,"operand"); break;
      case 2: if(s.coin()) { A.append(A); } else { A.concatenate(A); } ab.insert(ab.end(),a.begin(),a.end()); same_sequence(A,ab,"joined to itself"); break;
      case 3: { LinkedList<int> C(static_cast<unsigned>(n),-5); ab.assign(n,-5); same_sequence(C,ab,"a size and a value"); LinkedList<int> D(static_cast<unsigned>(k)); ab.assign(k,0); same_sequence(D,ab,"a size"); break; }
      default: { LinkedList<long> C(A); same_sequence(C,a,"of a linked list of other elements"); LinkedList<long> D{List<int>(b)}; same_sequence(D,b,"of a list of other elements"); for(int x : b) { A.append(x); } ab.insert(ab.end(),b.begin(),b.end()); same_sequence(A,ab,"appended one by one"); break; }
    }
    REQUIRE_EQ(A.size(),static_cast<std::size_t>(std::distance(A.begin(),A.end())),"size");
}
PROP(C10,size_and_value,1) {      // the size and the value may be of any integral types
    int n=s.irange(0,20), x=s.irange(-9,9); TR(n << " times " << x); if(n>1) { s.nontrivial(); } std::vector<long> w(static_cast<std::size_t>(n),x);
    same_sequence(LinkedList<long>(n,x),w,"int, int"); same_sequence(LinkedList<int>(n,x),w,"int, int"); same_sequence(LinkedList<long>(static_cast<unsigned>(n),static_cast<long>(x)),w,"unsigned, long"); same_sequence(LinkedList<long>(static_cast<std::size_t>(n),static_cast<long>(x)),w,"size_t, long"); same_sequence(LinkedList<double>(static_cast<unsigned>(n),x*0.5),std::vector<double>(static_cast<std::size_t>(n),x*0.5),"unsigned, double");
    LinkedList<std::size_t> u(static_cast<unsigned>(n),std::size_t(7)); same_sequence(u,std::vector<std::size_t>(static_cast<std::size_t>(n),7u),"unsigned, size_t"); LinkedList<unsigned> v(static_cast<unsigned>(n),3u); same_sequence(v,std::vector<unsigned>(static_cast<std::size_t>(n),3u),"unsigned, unsigned");
}
PROP(C10,single_pass,1) {         // from sequences that can be passed only once
    auto v=few<long>(s,60); std::string t; for(long x : v) { t+=std::to_string(x)+" "; } TR(t); if(v.size()>=2) { s.nontrivial(); } std::istringstream is(t); LinkedList<long> l{std::istream_iterator<long>(is),std::istream_iterator<long>()}; same_sequence(l,v,"numbers read from a stream"); std::istringstream cs(t); LinkedList<char> c{std::istreambuf_iterator<char>(cs),std::istreambuf_iterator<char>()}; same_sequence(c,t,"characters of a stream"); std::istringstream js(t); LinkedList<int> i{std::istream_iterator<short>(js),std::istream_iterator<short>()}; same_sequence(i,v,"converted numbers read from a stream");
}
PROP(C10,failing,1) {
    Tracked::reset();
    { auto a=few<Tracked>(s,40), b=few<Tracked>(s,40); LinkedList<Tracked> l(a.begin(),a.end()), r(b.begin(),b.end()); auto va=values_of(a), vb=values_of(b); std::size_t kind=s.upto(3); std::string where="kind "+std::to_string(kind)+" on "+show(a)+" and "+show(b); bool failed=false; LinkedList<Tracked> const& arg=kind==2?l:r; auto first=l.begin();
      switch(kind) { case 0: case 2: failed=faulty(s,where,[&]{ l.append(arg); }); break; case 1: failed=faulty(s,where,[&]{ l.concatenate(arg); }); break; default: failed=faulty(s,where,[&]{ LinkedList<Tracked> c(static_cast<unsigned>(vb.size()),Tracked(3)); l.append(c); }); vb.assign(vb.size(),3); break; }
      TR(where); if(failed) { s.nontrivial(); s.label("failed"); } auto got=longs(l), full=va; auto& other=kind==2?va:vb; full.insert(full.end(),other.begin(),other.end());
      REQUIRE(got.size()>=va.size() && got.size()<=full.size() && std::equal(got.begin(),got.end(),full.begin()),"list is " << show(got) << ", before " << show(va) << "; " << where); if(!failed) { REQUIRE_EQ(got,full,where); } if(!va.empty()) { REQUIRE(first==l.begin() && first->v==va[0],"iterator to the first element; " << where); } if(kind<2) { REQUIRE_EQ(longs(r),vb,"other operand; " << where); } Tracked::verify(where.c_str()); }
    REQUIRE_EQ(Tracked::live,0L,"objects alive at the end");
}
PROP(C10,int,2) { linked_history<long,int>(s,200); }
PROP(C10,string,2) { linked_history<std::string,std::string>(s,60); }
PROP(C10,tracked,2) { Tracked::reset(); linked_history<Tracked,long>(s,40); REQUIRE_EQ(Tracked::live,0L,"objects alive at the end"); }
#endif

#ifdef P_C11
RULE(C11,"two or three random sets of int or string, drawn to overlap, contain each other, be equal, disjoint or empty; every member and free set operation, on distinct arguments and on a set and itself, is compared with its definition over std::set, and arguments passed by const reference must be unchanged; sets of up to 70000 elements; sets of elements whose equivalence is coarser than their equality, or that can only be ordered; and operations during which the k-th allocation or copy fails; also elements whose std::less is not their operator; non-trivial: the sets overlap and neither contains the other")
namespace {
template<class T> void sets(Src& s, std::size_t cap) {
    std::set<T> a=fewset<T>(s,cap), b; std::size_t rel=s.upto(6);
    if(rel<3) { b=fewset<T>(s,cap); } else if(rel==3) { b=a; if(s.coin()) { b.insert(gen_value<T>(s)); } } else if(rel==4) { for(auto& x : a) { if(s.coin()) { b.insert(x); } } } else if(rel==5) { for(auto& x : a) { if(s.coin()) { b.insert(x); } } for(auto& x : fewset<T>(s,cap)) { b.insert(x); } } else { b=a; }
    T x = !a.empty() && s.coin() ? *std::next(a.begin(),static_cast<long>(s.index(a.size()))) : gen_value<T>(s);
    TR("a=" << show(seq(a)) << " b=" << show(seq(b)) << " x=" << show(x));
    std::set<T> uni(a), inter, diff; uni.insert(b.begin(),b.end()); for(auto& e : a) { if(b.count(e)) { inter.insert(e); } else { diff.insert(e); } }
    bool a_in_b=(inter.size()==a.size()), b_in_a=(inter.size()==b.size()), dis=inter.empty(); if(!dis && !a_in_b && !b_in_a) { s.nontrivial(); }
    if(dis && !a.empty() && !b.empty()) { s.label("disjoint"); } if(a_in_b && !b_in_a) { s.label("proper subset"); } if(a.empty()||b.empty()) { s.label("an empty set"); }
    Set<T> A(a), B(b); auto is=[&](std::set<T> const& got, std::set<T> const& want, const char* what) { if(!(got==want)) { FAIL(what << " is " << show(seq(got)) << ", expected " << show(seq(want))); } };
    is(A,a,"copy from a standard set");
    REQUIRE_EQ(A.contains(x),a.count(x)!=0,"contains"); REQUIRE_EQ(Helper::contains(a,x),a.count(x)!=0,"contains");
    REQUIRE_EQ(Helper::subset(a,b),a_in_b,"subset(a,b)"); REQUIRE_EQ(Helper::subset(b,a),b_in_a,"subset(b,a)"); REQUIRE_EQ(A.subset(b),b_in_a,"a.subset(b): b contained in a"); REQUIRE_EQ(A.subset(a),true,"a.subset(a)"); REQUIRE_EQ(Helper::subset(a,a),true,"subset(a,a)");
    REQUIRE_EQ(Helper::disjoint(a,b),dis,"disjoint(a,b)"); REQUIRE_EQ(A.disjoint(b),dis,"a.disjoint(b)"); REQUIRE_EQ(A.disjoint(a),a.empty(),"a.disjoint(a)"); REQUIRE_EQ(Helper::disjoint(a,a),a.empty(),"disjoint(a,a)");
    is(Helper::intersection(a,b),inter,"intersection(a,b)"); is(Helper::intersection(b,a),inter,"intersection(b,a)"); is(Helper::intersection(a,a),a,"intersection(a,a)");
    is(Helper::difference(a,b),diff,"difference(a,b)"); is(Helper::difference(a,a),std::set<T>(),"difference(a,a)"); is(Helper::intersection(A,B),inter,"intersection(A,B)"); is(Helper::difference(A,B),diff,"difference(A,B)");
    is(Helper::join(A,B),uni,"join(a,b)"); is(Helper::join(B,A),uni,"join(b,a)"); is(Helper::join(A,A),a,"join(a,a)");
    { std::set<T> c(a); std::set<T>& r=Helper::remove(c,b); REQUIRE(&r==&c,"remove returns its argument"); is(c,diff,"remove(a,b)"); }
    { std::set<T> c(a); std::set<T>& r=Helper::restrict(c,b); REQUIRE(&r==&c,"restrict returns its argument"); is(c,inter,"restrict(a,b)"); }
    { std::set<T> c(a); Helper::remove(c,c); is(c,std::set<T>(),"remove(c,c)"); } { std::set<T> c(a); Helper::restrict(c,c); is(c,a,"restrict(c,c)"); }
    { Set<T> c(A); Set<T>& r=c.adjoin(b); REQUIRE(&r==&c,"adjoin returns the set"); is(c,uni,"a.adjoin(b)"); c.adjoin(c); is(c,uni,"c.adjoin(c)"); }
    { Set<T> c(A); Set<T>& r=c.remove(b); REQUIRE(&r==&c,"remove returns the set"); is(c,diff,"a.remove(b)"); } { Set<T> c(A); c.remove(c); is(c,std::set<T>(),"c.remove(c)"); }
    { Set<T> c(A); Set<T>& r=c.restrict(b); REQUIRE(&r==&c,"restrict returns the set"); is(c,inter,"a.restrict(b)"); } { Set<T> c(A); c.restrict(c); is(c,a,"c.restrict(c)"); }
    { Set<T> c(A); std::set<T> w(a); w.erase(x); c.remove(x); is(c,w,"a.remove(x)"); if(!c.empty()) { w.erase(*c.begin()); c.remove(*c.begin()); is(c,w,"c.remove(its first element)"); } }
    { auto r=Helper::apply([](T const& e){ return std::make_pair(e,1); },A); REQUIRE_EQ(r.size(),a.size(),"apply, one to one"); auto it=r.begin(); for(auto& e : a) { REQUIRE(it->first==e,"apply"); ++it; } auto c=Helper::apply([&](T const& e){ return b.count(e)!=0; },A); std::set<bool> w; for(auto& e : a) { w.insert(b.count(e)!=0); } REQUIRE(static_cast<std::set<bool> const&>(c)==w,"apply, many to one"); }
    { List<T> l(static_cast<List<T>>(A)); REQUIRE(vec(l)==seq(a),"set as a list"); }
    is(A,a,"a, afterwards"); is(B,b,"b, afterwards");
}
}
PROP(C11,many,1) {
    std::size_t n=many(s,2000,70000), k=s.coin()?s.upto(10):many(s,2000,70000); u64 seed=s.upto(~u64(0)); unsigned rel=static_cast<unsigned>(s.upto(3)); std::set<int> a, b; for(std::size_t i=0;i!=n;++i) { a.insert(static_cast<int>(rel==3?2*i:hashed<int>(seed,i))); } for(std::size_t i=0;i!=k;++i) { b.insert(static_cast<int>(rel==3?3*i:rel==2?2*i+1:hashed<int>(seed+(rel==1&&i%4!=0?0:1),i))); } TR(a.size() << " and " << b.size() << " elements, relation " << rel);
    std::set<int> uni(a), inter, diff; uni.insert(b.begin(),b.end()); for(int x : a) { (b.count(x)?inter:diff).insert(x); } if(!inter.empty() && !diff.empty() && uni.size()!=a.size()) { s.nontrivial(); } Set<int> A(a), B(b);
    REQUIRE_EQ(Helper::subset(a,b),diff.empty(),"subset"); REQUIRE_EQ(B.subset(a),diff.empty(),"subset"); REQUIRE_EQ(Helper::disjoint(a,b),inter.empty(),"disjoint"); REQUIRE_EQ(A.disjoint(b),inter.empty(),"disjoint"); REQUIRE(Helper::subset(inter,a) && Helper::subset(inter,b) && Helper::disjoint(diff,b),"inclusion of the parts");
    same_sequence(Helper::intersection(a,b),inter,"intersection"); same_sequence(Helper::difference(a,b),diff,"difference"); same_sequence(join(A,B),uni,"join"); { Set<int> c(A); c.adjoin(b); same_sequence(c,uni,"adjoin"); c.remove(b); same_sequence(c,diff,"remove"); } { Set<int> c(A); c.restrict(b); same_sequence(c,inter,"restrict"); }
    { std::set<int> c(a); Helper::remove(c,b); same_sequence(c,diff,"remove"); c=a; Helper::restrict(c,b); same_sequence(c,inter,"restrict"); }
    auto f=[](int x){ return x/3; }; std::set<int> w; for(int x : a) { w.insert(f(x)); } same_sequence(Helper::apply(f,A),w,"apply"); same_sequence(A,a,"operand"); same_sequence(B,b,"operand");
}
PROP(C11,failing,1) {      // what fails keeps the elements, adds none but the other operand's and leaves the other operand alone
    Tracked::reset();
    { auto va=few<Tracked>(s,30), vb=few<Tracked>(s,30); std::set<Tracked> a(va.begin(),va.end()), b(vb.begin(),vb.end()); Set<Tracked> A(a), B(b), r; std::size_t kind=s.upto(5); std::string where="kind "+std::to_string(kind)+" on "+show(seq(a))+" and "+show(seq(b)); bool failed=false; std::set<long> la, lb, w; for(auto& x : a) { la.insert(x.v); } for(auto& x : b) { lb.insert(x.v); }
      switch(kind) {
        case 0: failed=faulty(s,where,[&]{ A.adjoin(b); }); for(auto& x : A) { REQUIRE(la.count(x.v) || lb.count(x.v),"element " << x << " of neither; " << where); } for(auto& x : a) { REQUIRE(A.count(x),"element " << x << " lost; " << where); } w=la; w.insert(lb.begin(),lb.end()); REQUIRE(failed || A.size()==w.size(),"adjoined; " << where); break;
        case 1: failed=faulty(s,where,[&]{ r=Helper::intersection(a,b); }); break;
        case 2: failed=faulty(s,where,[&]{ r=Helper::difference(a,b); }); break;
        case 3: failed=faulty(s,where,[&]{ r=join(A,B); }); break;
        case 4: failed=faulty(s,where,[&]{ r=Helper::intersection(a,vb); }); break;
        default: { std::size_t calls=0, stop=s.upto(20); try { auto q=Helper::apply([&](Tracked const& x){ if(calls++==stop) { throw Boom(); } return x.v; },A); REQUIRE_EQ(q.size(),la.size(),"results; " << where); } catch(Boom const&) { failed=true; } REQUIRE_EQ(failed,stop<la.size(),"the function throws at call " << stop << "; " << where); break; }
      }
      TR(where); if(failed) { s.nontrivial(); s.label("failed"); } if(failed && kind<5) { REQUIRE_EQ(r.size(),std::size_t(0),"result of what failed; " << where); } if(kind>0) { REQUIRE_EQ(longs(A),std::vector<long>(la.begin(),la.end()),"first operand; " << where); } REQUIRE_EQ(longs(a),std::vector<long>(la.begin(),la.end()),"first operand; " << where); REQUIRE_EQ(longs(b),std::vector<long>(lb.begin(),lb.end()),"second operand; " << where); REQUIRE_EQ(longs(B),std::vector<long>(lb.begin(),lb.end()),"second operand; " << where); Tracked::verify(where.c_str()); }
    REQUIRE_EQ(Tracked::live,0L,"objects alive at the end");
}
namespace {
struct Coarse { int k, v; bool operator<(Coarse const& o) const { return k<o.k; } bool operator==(Coarse const& o) const { return k==o.k && v==o.v; } };      // equivalent elements need not be equal
struct Bare { int k, v; bool operator<(Bare const& o) const { return k<o.k; } };                                                                           // elements that can only be ordered
template<class T> void equivalents(Src& s) {
    std::vector<T> va, vb; std::size_t n=s.len(30), m=s.len(30); int dom=s.irange(0,20); for(std::size_t i=0;i!=n;++i) { va.push_back(T{s.irange(0,dom),static_cast<int>(i)}); } for(std::size_t i=0;i!=m;++i) { vb.push_back(s.chance(1,3)&&!va.empty()?va[s.index(va.size())]:T{s.irange(0,dom),-static_cast<int>(i)-1}); }
    auto keys=[](auto const& c) { std::vector<int> r; for(auto& x : c) { r.push_back(x.k); } return r; }; auto sorted=[&](std::vector<T> const& v) { std::set<int> r; for(auto& x : v) { r.insert(x.k); } return r; }; std::set<int> ka=sorted(va), kb=sorted(vb), ku(ka), ki, kd; ku.insert(kb.begin(),kb.end()); for(int x : ka) { (kb.count(x)?ki:kd).insert(x); } TR("keys " << show(seq(ka)) << " and " << show(seq(kb))); if(!ki.empty()) { s.nontrivial(); }
    std::set<T> a(va.begin(),va.end()), b(vb.begin(),vb.end()); Set<T> A(a), B(b); auto is=[&](std::set<T> const& got, std::set<int> const& want, const char* what) { if(keys(got)!=seq(want)) { FAIL(what << " has the keys " << show(keys(got)) << ", expected " << show(seq(want))); } };
    REQUIRE_EQ(Helper::subset(a,b),kd.empty(),"subset(a,b)"); REQUIRE_EQ(Helper::subset(b,a),ki.size()==kb.size(),"subset(b,a)"); REQUIRE_EQ(A.subset(b),ki.size()==kb.size(),"a.subset(b)"); REQUIRE_EQ(B.subset(a),kd.empty(),"b.subset(a)"); REQUIRE_EQ(Helper::disjoint(a,b),ki.empty(),"disjoint"); REQUIRE_EQ(A.disjoint(b),ki.empty(),"a.disjoint(b)"); REQUIRE_EQ(A.disjoint(vb),ki.empty(),"a.disjoint(list)"); REQUIRE_EQ(Helper::disjoint(a,vb),ki.empty(),"disjoint(set,list)"); T x{s.irange(0,dom),12345}; REQUIRE_EQ(A.contains(x),ka.count(x.k)!=0,"contains"); REQUIRE_EQ(Helper::contains(a,x),ka.count(x.k)!=0,"contains");
    is(Helper::intersection(a,b),ki,"intersection"); is(Helper::intersection(a,vb),ki,"intersection of a set and a list"); is(Helper::difference(a,b),kd,"difference"); is(join(A,B),ku,"join"); { Set<T> c(A); c.adjoin(b); is(c,ku,"adjoin"); } { Set<T> c(A); c.restrict(b); is(c,ki,"restrict"); } { Set<T> c(A); c.remove(b); is(c,kd,"remove"); } { Set<T> c(A); c.remove(vb); is(c,kd,"remove a list"); } { Set<T> c(A); c.remove(x); std::set<int> w(ka); w.erase(x.k); is(c,w,"remove an element"); } { std::set<T> c(a); Helper::remove(c,b); is(c,kd,"remove(a,b)"); c=a; Helper::restrict(c,b); is(c,ki,"restrict(a,b)"); } is(A,ka,"a, afterwards"); is(B,kb,"b, afterwards"); is(Set<T>(va),ka,"from a list");
}
}
namespace { struct Backward { int k; bool operator<(Backward const& o) const { return k<o.k; } bool operator==(Backward const&) const = default; }; }
namespace std { template<> struct less<Backward> { bool operator()(Backward const& a, Backward const& b) const { return b.k<a.k; } }; }     // sets have another order than the operator's
PROP(C11,specialised_order,1) {
    std::size_t n=s.len(20), m=s.len(20); int dom=s.irange(1,20); std::set<int> ka, kb; for(std::size_t i=0;i!=n;++i) { ka.insert(s.irange(0,dom)); } for(std::size_t i=0;i!=m;++i) { kb.insert(s.irange(0,dom)); } std::set<Backward> a, b; for(int x : ka) { a.insert(Backward{x}); } for(int x : kb) { b.insert(Backward{x}); } Set<Backward> A(a), B(b); std::vector<Backward> vb(b.begin(),b.end()); TR(show(seq(ka)) << " and " << show(seq(kb))); if(ka.size()>=2) { s.nontrivial(); }
    std::set<int> ku(ka), ki, kd; ku.insert(kb.begin(),kb.end()); for(int x : ka) { (kb.count(x)?ki:kd).insert(x); } auto is=[&](std::set<Backward> const& got, std::set<int> const& want, const char* what) { std::vector<int> g, w(want.rbegin(),want.rend()); for(auto& x : got) { g.push_back(x.k); } if(g!=w) { FAIL(what << " has " << show(g) << ", expected " << show(w)); } };
    for(int x=-1;x<=dom+1;++x) { REQUIRE_EQ(A.contains(Backward{x}),ka.count(x)!=0,"contains " << x); REQUIRE_EQ(Helper::contains(a,Backward{x}),ka.count(x)!=0,"contains " << x); }
    REQUIRE_EQ(Helper::subset(a,b),kd.empty(),"subset"); REQUIRE_EQ(B.subset(a),kd.empty(),"b.subset(a)"); REQUIRE_EQ(Helper::disjoint(a,b),ki.empty(),"disjoint"); REQUIRE_EQ(A.disjoint(b),ki.empty(),"a.disjoint(b)"); REQUIRE_EQ(A.disjoint(vb),ki.empty(),"a.disjoint(list)");
    is(Helper::intersection(a,b),ki,"intersection"); is(Helper::difference(a,b),kd,"difference"); is(join(A,B),ku,"join"); { Set<Backward> c(A); c.adjoin(b); is(c,ku,"adjoin"); } { Set<Backward> c(A); c.restrict(b); is(c,ki,"restrict"); } { Set<Backward> c(A); c.remove(b); is(c,kd,"remove"); }
}
PROP(C11,equivalent,1) { if(s.coin()) { equivalents<Coarse>(s); } else { equivalents<Bare>(s); } }
PROP(C11,int,4) { sets<int>(s,200); }
PROP(C11,string,2) { sets<std::string>(s,40); }
PROP(C11,conversion,1) {
    auto v=few<int>(s,100); std::set<int> a(v.begin(),v.end()); TR(show(v)); if(a.size()>=2) { s.nontrivial(); }
    { Set<int> t(v); REQUIRE(static_cast<std::set<int> const&>(t)==a,"from a vector"); Set<int> u=Helper::make_set(v); REQUIRE(static_cast<std::set<int> const&>(u)==a,"make_set"); }
    { Set<long> t(v); REQUIRE(seq(t)==std::vector<long>(a.begin(),a.end()),"from a vector of convertible elements"); Set<long> u(a); REQUIRE(seq(u)==std::vector<long>(a.begin(),a.end()),"from a set of convertible elements"); }
    { Set<Wide> t(a); REQUIRE_EQ(t.size(),a.size(),"implicit"); auto i=t.begin(); for(int x : a) { REQUIRE_EQ(i->v,static_cast<long>(x),"implicit"); ++i; } }
    { Set<Expl> t(a); REQUIRE_EQ(t.size(),a.size(),"explicit"); auto i=t.begin(); for(int x : a) { REQUIRE_EQ(i->v,static_cast<long>(x),"explicit"); ++i; } }
    if(v.size()>=3) { Set<int> t={v[0],v[1],v[2]}; std::set<int> w{v[0],v[1],v[2]}; REQUIRE(static_cast<std::set<int> const&>(t)==w,"from a list of values"); }
    if(v.size()>=3) { std::set<int> w{v[0],v[1],v[2]}; std::vector<long> e(w.begin(),w.end()); Set<long> t={v[0],v[1],v[2]}; REQUIRE(seq(t)==e,"from a list of convertible values"); std::initializer_list<int> il={v[0],v[1],v[2]}; Set<long> u(il); REQUIRE(seq(u)==e,"from an initializer list of convertible values"); Set<Wide> x={v[0],v[1],v[2]}; REQUIRE_EQ(x.size(),e.size(),"from a list of convertible values"); std::size_t i=0; for(auto& y : x) { REQUIRE_EQ(y.v,e[i],"from a list of convertible values"); ++i; } Set<int> one={v[0]}; REQUIRE(one.size()==1 && *one.begin()==v[0],"from one value"); }
}
#endif

#ifdef P_C12
RULE(C12,"a random list of int, string or elements that are ordered without being told apart by it, with and without repetitions, and a random set; whether its elements are unique, which occur more than once, and set/list intersection, disjointness and removal are compared with counting; lists of up to 70000 elements with few repetitions anywhere; non-trivial: some element is repeated and some element of the list is in the set")
namespace {
template<class T> void counts(Src& s, std::size_t cap) {
    std::vector<T> l=few<T>(s,cap); if(s.coin()) { std::set<T> t(l.begin(),l.end()); l.assign(t.begin(),t.end()); for(std::size_t i=l.size();i>1;--i) { std::swap(l[i-1],l[s.index(i)]); } if(!l.empty() && s.coin()) { l.push_back(l[s.index(l.size())]); } }
    std::set<T> a=fewset<T>(s,cap); TR("list " << show(l) << " set " << show(seq(a)));
    std::map<T,int> n; for(auto& x : l) { ++n[x]; } std::set<T> dup, inter, rest(a); for(auto& e : n) { if(e.second>1) { dup.insert(e.first); } if(a.count(e.first)) { inter.insert(e.first); rest.erase(e.first); } }
    if(!dup.empty() && !inter.empty()) { s.nontrivial(); } if(dup.empty()) { s.label("no repetition"); }
    REQUIRE_EQ(Helper::unique_elements(l),dup.empty(),"unique_elements"); REQUIRE(static_cast<std::set<T> const&>(Helper::duplicate_elements(l))==dup,"duplicate_elements is " << show(seq(Helper::duplicate_elements(l))) << ", expected " << show(seq(dup)));
    List<T> L(l); REQUIRE_EQ(Helper::unique_elements(L),dup.empty(),"unique_elements of a List");
    REQUIRE(static_cast<std::set<T> const&>(Helper::intersection(a,l))==inter,"intersection of a set and a list is " << show(seq(Helper::intersection(a,l))) << ", expected " << show(seq(inter)));
    REQUIRE_EQ(Helper::disjoint(a,l),inter.empty(),"disjoint(set,list)"); Set<T> A(a); REQUIRE_EQ(A.disjoint(l),inter.empty(),"set.disjoint(list)");
    { Set<T> c(A); Set<T>& r=c.remove(l); REQUIRE(&r==&c,"remove returns the set"); REQUIRE(static_cast<std::set<T> const&>(c)==rest,"set.remove(list) is " << show(seq(c)) << ", expected " << show(seq(rest))); }
}
}
PROP(C12,many,1) {       // repetitions and shared elements anywhere in a long list
    std::size_t n=many(s,2000,70000); u64 seed=s.upto(~u64(0)); std::vector<long> l; for(std::size_t i=0;i!=n;++i) { l.push_back(static_cast<long>((i*7919u)%131101u)); }       // all different, in no order
    if(s.coin()) { for(std::size_t i=0;i!=n;++i) { l[i]=static_cast<long>(i); } } std::size_t reps=s.upto(2); for(std::size_t q=0;q!=reps && n>1;++q) { std::size_t from=s.index(n), to=s.chance(1,3)?n-1:s.index(n); l[to]=l[from]; }
    std::set<long> a; std::size_t shared=s.upto(2), own=s.bulk(500); for(std::size_t q=0;q!=shared && n>0;++q) { a.insert(s.chance(1,3)?l.back():l[s.index(n)]); } for(std::size_t q=0;q!=own;++q) { a.insert(-1-static_cast<long>(Src::mix(seed+q)%1000003u)); } TR(n << " elements, " << reps << " changed, set of " << a.size());
    std::map<long,int> c; for(long x : l) { ++c[x]; } std::set<long> dup, inter, rest(a); for(auto& e : c) { if(e.second>1) { dup.insert(e.first); } if(a.count(e.first)) { inter.insert(e.first); rest.erase(e.first); } } if(!dup.empty() && !inter.empty()) { s.nontrivial(); }
    REQUIRE_EQ(Helper::unique_elements(l),dup.empty(),"unique_elements"); same_sequence(Helper::duplicate_elements(l),dup,"duplicate_elements"); same_sequence(Helper::intersection(a,l),inter,"intersection"); REQUIRE_EQ(Helper::disjoint(a,l),inter.empty(),"disjoint"); Set<long> A(a); REQUIRE_EQ(A.disjoint(l),inter.empty(),"disjoint"); A.remove(l); same_sequence(A,rest,"set.remove(list)");
}
PROP(C12,bytes,1) {      // types with few values: a list may hold all of them
    static const std::size_t counts[]={256,255,257,128,254,2,0}; std::size_t n=counts[s.upto(6)]; u64 seed=s.upto(~u64(0)); bool repeat=s.coin(); std::vector<unsigned char> l; for(std::size_t i=0;i!=256;++i) { l.push_back(static_cast<unsigned char>(i)); } for(std::size_t i=255;i>0;--i) { std::swap(l[i],l[Src::mix(seed+i)%(i+1)]); } while(l.size()<n) { l.push_back(l[Src::mix(seed)%256]); repeat=true; } l.resize(n); if(n<2) { repeat=false; } std::set<unsigned char> dup; std::map<unsigned char,int> c; if(repeat && n<=256) { l[s.index(n)]=l[s.index(n)]; }
    for(auto x : l) { if(++c[x]==2) { dup.insert(x); } } TR(n << " of the values of a byte, " << dup.size() << " of them repeated"); if(n>=254) { s.nontrivial(); if(dup.empty()) { s.label("all values of a type, without repetition"); } }
    REQUIRE_EQ(Helper::unique_elements(l),dup.empty(),"unique_elements"); same_sequence(Helper::duplicate_elements(l),dup,"duplicate_elements"); std::vector<signed char> sl(l.begin(),l.end()); REQUIRE_EQ(Helper::unique_elements(sl),dup.empty(),"unique_elements of signed bytes"); Set<unsigned char> a; std::set<unsigned char> inter, rest; for(std::size_t i=0;i!=300;++i) { auto x=static_cast<unsigned char>(Src::mix(seed+1000+i)); a.insert(x); } for(auto x : a) { (c.count(x)?inter:rest).insert(x); } same_sequence(Helper::intersection(a,l),inter,"intersection"); REQUIRE_EQ(a.disjoint(l),inter.empty(),"disjoint"); a.remove(l); same_sequence(a,rest,"remove");
}
namespace {
struct Fine { int k, v; bool operator<(Fine const& o) const { return k<o.k; } bool operator==(Fine const& o) const { return k==o.k && v==o.v; } };      // elements are the same if they are equivalent in the order, also if they are not equal
struct Ordered { int k, v; bool operator<(Ordered const& o) const { return k<o.k; } };
template<class T> void equivalent_counts(Src& s) {
    std::vector<T> l; std::map<int,int> n; std::size_t size=s.len(40); int keys=1+static_cast<int>(s.upto(60)); for(std::size_t i=0;i!=size;++i) { int k=static_cast<int>(s.upto(static_cast<u64>(keys))); l.push_back(T{k,static_cast<int>(i)}); ++n[k]; TR("element " << k); }
    std::set<T> a; std::size_t m=s.len(20); for(std::size_t i=0;i!=m;++i) { int k=static_cast<int>(s.upto(static_cast<u64>(keys))); a.insert(T{k,-1}); TR("in the set " << k); }
    std::set<int> dup, inter; for(auto& e : n) { if(e.second>1) { dup.insert(e.first); } if(a.count(T{e.first,0})) { inter.insert(e.first); } } if(!dup.empty()) { s.nontrivial(); }
    auto keys_of=[](std::set<T> const& x) { std::set<int> r; for(auto& e : x) { r.insert(e.k); } return r; };
    REQUIRE_EQ(Helper::unique_elements(l),dup.empty(),"unique_elements of a list of equivalent elements"); auto d=Helper::duplicate_elements(l); REQUIRE(keys_of(d)==dup && d.size()==dup.size(),"duplicate_elements of a list of equivalent elements");
    REQUIRE(keys_of(Helper::intersection(a,l))==inter,"intersection with a list of equivalent elements"); REQUIRE_EQ(Helper::disjoint(a,l),inter.empty(),"disjoint from a list of equivalent elements"); Set<T> A(a); REQUIRE_EQ(A.disjoint(l),inter.empty(),"set disjoint from a list of equivalent elements");
    REQUIRE_EQ(Helper::make_set(l).size(),n.size(),"the set of a list of equivalent elements"); A.remove(l); REQUIRE_EQ(A.size(),a.size()-inter.size(),"a list of equivalent elements removed"); for(auto& e : A) { REQUIRE(!n.count(e.k),"a removed element is left"); }
}
}
PROP(C12,equivalent,1) { if(s.coin()) { equivalent_counts<Fine>(s); } else { equivalent_counts<Ordered>(s); } }
PROP(C12,int,3) { counts<int>(s,300); }
PROP(C12,string,2) { counts<std::string>(s,60); }
#endif

#ifdef P_C13
RULE(C13,"2..24 random operations on two maps from int or string keys (insert a pair, a key and a value, through the free function and through [], adjoin, join, remove keys, restrict to keys, look up present and absent keys in every way) against std::map; keys, values and every lookup are compared after every operation; maps of up to 70000 entries; the identity of looked-up entries; and operations during which the k-th allocation or copy fails; non-trivial: an insertion, adjoin or join met a key already present with another value")
namespace {
template<class K, class V> void map_history(Src& s, std::size_t cap) {
    typedef std::map<K,V> SM;
    Map<K,V> a[2]; std::map<K,V> m[2]; std::size_t nops=2+s.upto(22); long dom=static_cast<long>(s.upto(cap)); auto key=[&]{ return Make<K>::from(static_cast<long>(s.upto(static_cast<u64>(dom)))-2); };
    auto clash=[&](std::map<K,V> const& x, K const& k, V const& v) { auto i=x.find(k); if(i!=x.end() && !(i->second==v)) { s.nontrivial(); } };
    for(std::size_t op=0;op!=nops;++op) {
        std::size_t i=s.index(2), j=1-i; K k=key(); V v=gen_value<V>(s); Map<K,V> const& c=a[i]; std::string where="op "+std::to_string(op)+" m"+std::to_string(i);
        switch(s.upto(11)) {
          case 0: where+=".insert("+show(k)+","+show(v)+")"; TR(where); clash(m[i],k,v); a[i].insert(k,v); m[i].insert({k,v}); break;
          case 1: where+=".insert(pair "+show(k)+","+show(v)+")"; TR(where); clash(m[i],k,v); { std::pair<K,V> p(k,v); std::pair<K,V> const& cp=p; std::pair<K const,V> q(k,v); switch(s.upto(3)) { case 0: a[i].insert(p); break; case 1: a[i].insert(cp); break; case 2: a[i].insert(q); break; default: a[i].insert(std::pair<K,V>(k,v)); break; } REQUIRE(p.first==k && p.second==v && q.second==v,"inserted pair; " << where); } m[i].insert({k,v}); break;
          case 2: { where+=": insert(m,"+show(k)+","+show(v)+")"; TR(where); clash(m[i],k,v); V& r=Helper::insert(a[i],k,v); m[i].insert({k,v}); REQUIRE(r==m[i].at(k),"value returned; " << where); REQUIRE(&r==&a[i].at(k),"the reference returned is to the stored value; " << where); break; }
          case 3: where+="["+show(k)+"] = "+show(v); TR(where); a[i][k]=v; m[i][k]=v; break;
          case 4: { where+="["+show(k)+"]"; TR(where); V x=a[i][k]; REQUIRE(x==m[i][k],where); break; }
          case 5: { where+=".adjoin(m"+std::to_string(j)+")"; TR(where); for(auto& e : m[j]) { clash(m[i],e.first,e.second); } a[i].adjoin(a[j]); for(auto& e : m[j]) { m[i].insert(e); } break; }
          case 6: { where+=" = join(m"+std::to_string(i)+",m"+std::to_string(j)+")"; TR(where); for(auto& e : m[j]) { clash(m[i],e.first,e.second); } auto before=seq(a[j]); Map<K,V> r=join(a[i],a[j]); std::map<K,V> w(m[i]); for(auto& e : m[j]) { w.insert(e); } REQUIRE(static_cast<SM const&>(r)==w,where); REQUIRE(seq(a[j])==before,"argument; " << where); if(s.coin()) { a[i]=r; m[i]=w; } break; }
          case 7: { auto ks=fewset<K>(s,8); where+=".remove_keys("+show(seq(ks))+")"; TR(where); a[i].remove_keys(Set<K>(ks)); for(auto& x : ks) { m[i].erase(x); } break; }
          case 8: { std::set<K> ks; for(auto& e : m[i]) { if(s.coin()) { ks.insert(e.first); } } if(s.coin()) { ks.insert(k); } where+=" restricted to keys "+show(seq(ks)); TR(where); Map<K,V> r=restrict_keys(a[i],Set<K>(ks)); std::map<K,V> w; for(auto& e : m[i]) { if(ks.count(e.first)) { w.insert(e); } } REQUIRE(static_cast<SM const&>(r)==w,where); if(s.chance(1,4)) { a[i]=r; m[i]=w; } break; }
          case 9: { auto p=m[i].find(k); where+=" value of "+show(k); TR(where); if(p!=m[i].end()) { a[i].value(k)=v; p->second=v; } else { REQUIRE(throws([&]{ a[i].value(k); }),"looking up an absent key does not throw; " << where); } break; }
          case 10: { where+=".adjoin(itself)"; TR(where); a[i].adjoin(a[i]); Map<K,V> r=join(a[i],a[i]); REQUIRE(static_cast<SM const&>(r)==m[i],where); break; }
          default: { where+=" = copy of m"+std::to_string(j); TR(where); a[i]=a[j]; m[i]=m[j]; break; }
        }
        for(std::size_t q=0;q!=2;++q) { if(!(static_cast<SM const&>(a[q])==m[q])) { FAIL("m" << q << " does not hold what it should; " << where); } }
        std::vector<K> ks; std::vector<V> vs; for(auto& e : m[i]) { ks.push_back(e.first); vs.push_back(e.second); }
        REQUIRE(seq(c.keys())==ks,"keys; " << where); REQUIRE(vec(c.values())==vs,"values in the order of the keys; " << where);
        K q=key(); auto p=m[i].find(q); bool has=(p!=m[i].end()); REQUIRE_EQ(c.has_key(q),has,"has_key(" << show(q) << "); " << where);
        if(has) { V const* at=&static_cast<SM const&>(a[i]).at(q); REQUIRE(c.get(q)==p->second && &c.get(q)==at && &c.value(q)==at && &c[q]==at && &a[i].value(q)==at && &a[i][q]==at,"lookup of " << show(q) << "; " << where); }
        else { s.label("absent key looked up"); REQUIRE(throws([&]{ (void)c.get(q); }) && throws([&]{ (void)c.value(q); }) && throws([&]{ (void)c[q]; }) && throws([&]{ (void)a[i].value(q); }),"looking up the absent key " << show(q) << " does not throw; " << where); }
        REQUIRE_EQ(a[i].size(),m[i].size(),"looking keys up changed the map; " << where);
    }
}
}
PROP(C13,many,1) {
    std::size_t n=many(s,2000,70000), k=s.coin()?s.upto(10):many(s,2000,70000); u64 seed=s.upto(~u64(0)); std::map<int,long> m, q; std::set<int> ks; for(std::size_t i=0;i!=n;++i) { m.insert({hashed<int>(seed,i),static_cast<long>(i)}); } for(std::size_t i=0;i!=k;++i) { int x=hashed<int>(seed+(i%3?0:1),i); q.insert({x,-static_cast<long>(i)-1}); if(i%2) { ks.insert(x); } } bool overlap=false; for(auto& e : q) { if(m.count(e.first)) { overlap=true; } } if(overlap) { s.nontrivial(); } TR(m.size() << " and " << q.size() << " entries");
    Map<int,long> A(m), B(q); std::map<int,long> w(m); for(auto& e : q) { w.insert(e); } same_sequence(join(A,B),w,"join"); Map<int,long> C(A); C.adjoin(B); same_sequence(C,w,"adjoin"); C.remove_keys(Set<int>(ks)); for(int x : ks) { w.erase(x); } same_sequence(C,w,"remove_keys"); std::map<int,long> v; for(auto& e : m) { if(ks.count(e.first)) { v.insert(e); } } same_sequence(Helper::restrict_keys(m,ks),v,"restrict_keys of standard containers"); same_sequence(restrict_keys(A,Set<int>(ks)),v,"restrict_keys");
    std::vector<int> wk; std::vector<long> wv; for(auto& e : m) { wk.push_back(e.first); wv.push_back(e.second); } same_sequence(A.keys(),wk,"keys"); same_sequence(A.values(),wv,"values"); same_sequence(A,m,"operand"); same_sequence(B,q,"operand");
    Map<int,long> const& c=A; for(std::size_t t=0;t!=4;++t) { int x=t%2 || m.empty() ? s.irange(-10,1000000) : hashed<int>(seed,s.index(n)); auto p=m.find(x); REQUIRE_EQ(c.has_key(x),p!=m.end(),"has_key " << x); if(p!=m.end()) { long const* at=&static_cast<std::map<int,long> const&>(A).at(x); REQUIRE(&c.get(x)==at && &c.value(x)==at && &c[x]==at && &A.value(x)==at && &A[x]==at,"lookup of " << x << " gives another entry"); } else { REQUIRE(throws([&]{ (void)c.get(x); }) && throws([&]{ (void)c[x]; }),"absent key " << x); } }
}
PROP(C13,failing,1) {
    Tracked::reset();
    { auto va=few<long>(s,30), vb=few<long>(s,30); std::map<long,Tracked> a, b; for(long x : va) { a.insert({x,Tracked(x*2)}); } for(long x : vb) { b.insert({x,Tracked(x*2+1)}); } Map<long,Tracked> A(a), B(b), r; std::size_t kind=s.upto(5); long key=s.irange(-5,40); std::string where="kind "+std::to_string(kind)+" on keys "+show(seq(A.keys()))+" and "+show(seq(B.keys()))+" key "+std::to_string(key); bool failed=false; auto keys=B.keys(); typedef std::map<long,Tracked> SM; Tracked x(99);
      switch(kind) { case 0: failed=faulty(s,where,[&]{ A.adjoin(b); }); break; case 1: failed=faulty(s,where,[&]{ r=join(A,B); }); break; case 2: failed=faulty(s,where,[&]{ r=restrict_keys(A,keys); }); break; case 3: failed=faulty(s,where,[&]{ A.insert(key,x); }); break; case 4: failed=faulty(s,where,[&]{ A[key]=x; }); break; default: failed=faulty(s,where,[&]{ auto l=A.values(); auto q=A.keys(); REQUIRE(l.size()==q.size(),"sizes"); }); break; }
      TR(where); if(failed) { s.nontrivial(); s.label("failed"); }
      for(auto& e : a) { REQUIRE(A.has_key(e.first),"key " << e.first << " lost; " << where); bool written=kind==4 && !failed && e.first==key; REQUIRE_EQ(A.get(e.first).v,(written?99L:e.second.v),"value of key " << e.first << "; " << where); }
      for(auto& e : A) { REQUIRE(a.count(e.first) || (kind==0 && b.count(e.first)) || ((kind==3?!failed:kind==4) && e.first==key),"key " << e.first << " of neither; " << where); } if(kind==3 && !failed) { REQUIRE_EQ(A.get(key).v,(a.count(key)?a.at(key).v:99L),"value inserted; " << where); } REQUIRE(static_cast<SM const&>(B)==b,"other operand; " << where); if(failed) { REQUIRE_EQ(r.size(),std::size_t(0),"result of what failed; " << where); } else if(kind==0 || kind==1) { auto& g=kind==0?A:r; for(auto& e : b) { REQUIRE_EQ(g.get(e.first).v,(a.count(e.first)?a.at(e.first).v:e.second.v),"value of key " << e.first << "; " << where); } }
      Tracked::verify(where.c_str()); }
    REQUIRE_EQ(Tracked::live,0L,"objects alive at the end");
}
PROP(C13,int_string,3) { map_history<int,std::string>(s,24); }
PROP(C13,string_int,2) { map_history<std::string,int>(s,12); }
PROP(C13,conversion,1) {
    std::map<int,int> m; std::size_t n=s.len(60); for(std::size_t i=0;i!=n;++i) { int k=s.irange(-40,40); m[k]=s.irange(-99,99); } TR(n << " entries"); if(m.size()>=2) { s.nontrivial(); }
    Map<int,double> d(m); REQUIRE_EQ(d.size(),m.size(),"conversion"); for(auto& e : m) { REQUIRE_EQ(d.get(e.first),static_cast<double>(e.second),"key " << e.first); }
    Map<int,Wide> w(m); REQUIRE_EQ(w.size(),m.size(),"conversion"); for(auto& e : m) { REQUIRE_EQ(w.get(e.first).v,static_cast<long>(e.second),"key " << e.first); }
}
#endif
