// Iterator support, index ranges, tuples.
#include "../engine/pbt.hpp"
#include "../engine/tracked.hpp"
#include <algorithm>
#include <iostream>
#include <iterator>
#include <list>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "iterator.hpp"
#include "range.hpp"
#include "tuple.hpp"

using namespace pbt;

#ifdef P_C24
RULE(C24,"2..30 random operations on three iterators made with the random-access facade (over elements, constant elements, computed values up to 2^58 of them, every second element, backwards) against positions in a model, or on iterators made with the forward facade over a linked list, or on pairs of iterators; after every operation position, order, difference, element identity and the standard traits are compared; elements reached through several iterators to constant elements are kept at once; non-trivial: two iterators at different positions")
namespace {
struct Elem { long v; long twice() const { return 2*v; } bool operator==(Elem const&) const = default; };
//! Over a buffer: position p of n is at address base + p*stride.
template<class E, class Val> class Walk : public Helper::IteratorFacade<Walk<E,Val>,Val,Helper::RandomAccessTraversalTag> {
    friend class Helper::IteratorCoreAccess;
    E* _base; std::ptrdiff_t _at, _stride;
    bool equal(Walk const& o) const { return _base==o._base && _at==o._at; }
    std::ptrdiff_t distance_to(Walk const& o) const { return (o._at-_at)/_stride; }
    void advance(std::ptrdiff_t n) { _at+=n*_stride; }
    E& dereference() const { return _base[_at]; }
  public:
    Walk(E* b, std::ptrdiff_t at, std::ptrdiff_t stride) : _base(b), _at(at), _stride(stride) { }
    std::ptrdiff_t where() const { return _at; }
};
//! Computed values: no storage behind them.
class Count : public Helper::IteratorFacade<Count,const long,Helper::RandomAccessTraversalTag,long> {
    friend class Helper::IteratorCoreAccess; long _i;
    bool equal(Count const& o) const { return _i==o._i; } std::ptrdiff_t distance_to(Count const& o) const { return o._i-_i; } void advance(std::ptrdiff_t n) { _i+=n; } long dereference() const { return 3*_i+1; }
  public: explicit Count(long i) : _i(i) { }
};
struct Node { Elem e; Node* next; };
template<class Val> class Step : public Helper::IteratorFacade<Step<Val>,Val,Helper::ForwardTraversalTag> {
    friend class Helper::IteratorCoreAccess; Node* _n;
    bool equal(Step const& o) const { return _n==o._n; } void increment() { _n=_n->next; } Val& dereference() const { return _n->e; }
  public: explicit Step(Node* n) : _n(n) { } Node* node() const { return _n; }
};
//! Random access; at(it) gives the position in the model.
template<class I, class MakeIt, class Check> void random_access(Src& s, std::ptrdiff_t n, MakeIt make, Check check) {
    std::ptrdiff_t p[3]; for(auto& x : p) { x=s.range(0,n); }
    I it[3]={make(p[0]),make(p[1]),make(p[2])};
    std::size_t nops=2+s.upto(28);
    for(std::size_t op=0;op!=nops;++op) {
        std::size_t i=s.index(3), j=s.index(3); std::size_t kind=s.upto(10); std::ptrdiff_t d=s.range(0,n)-p[i]; std::string where="op "+std::to_string(op)+" kind "+std::to_string(kind)+" iterator "+std::to_string(i)+" at "+std::to_string(p[i])+" by "+std::to_string(d); TR(where);
        switch(kind) {
          case 0: if(p[i]<n) { I& r=++it[i]; ++p[i]; REQUIRE(&r==&it[i],"++ does not return its operand; " << where); } break;
          case 1: if(p[i]>0) { I& r=--it[i]; --p[i]; REQUIRE(&r==&it[i],"-- does not return its operand; " << where); } break;
          case 2: { I& r=(it[i]+=d); p[i]+=d; REQUIRE(&r==&it[i],"+= does not return its operand; " << where); break; }
          case 3: { I& r=(it[i]-=-d); p[i]+=d; REQUIRE(&r==&it[i],"-= does not return its operand; " << where); break; }
          case 4: { I const& c=it[i]; I r=c+d; REQUIRE(c==make(p[i]),"+ changed its operand; " << where); it[j]=r; p[j]=p[i]+d; break; }
          case 5: { I const& c=it[i]; I r=c-(-d); REQUIRE(c==make(p[i]),"- changed its operand; " << where); it[j]=r; p[j]=p[i]+d; break; }
          case 6: it[i]=it[j]; p[i]=p[j]; break;
          case 7: { std::swap(it[i],it[j]); std::swap(p[i],p[j]); break; }
          case 8: { std::advance(it[i],d); p[i]+=d; break; }
          case 9: { it[i]=std::next(it[j],n-p[j]); p[i]=n; break; }
          default: { I t(it[i]); t+=d; break; }
        }
        for(std::size_t a=0;a!=3;++a) { for(std::size_t b=0;b!=3;++b) { I const& x=it[a]; I const& y=it[b]; std::ptrdiff_t u=p[a], v=p[b]; if(u!=v) { s.nontrivial(); }
            if((x==y)!=(u==v) || (x!=y)!=(u!=v) || (x<y)!=(u<v) || (x<=y)!=(u<=v) || (x>y)!=(u>v) || (x>=y)!=(u>=v)) { FAIL("comparison of iterators at " << u << " and " << v << ": == " << (x==y) << " != " << (x!=y) << " < " << (x<y) << " <= " << (x<=y) << " > " << (x>y) << " >= " << (x>=y) << "; " << where); }
            if(x-y!=u-v) { FAIL("difference of iterators at " << u << " and " << v << " is " << (x-y) << "; " << where); }
            if(std::distance(x,y)!=v-u) { FAIL("std::distance; " << where); }
            if(!(y+(x-y)==x) || !(x-(x-y)==y)) { FAIL("difference does not lead from one iterator to the other; " << where); } }
          if(p[a]>=0 && p[a]<n) { check(it[a],p[a],where); } if(!(it[a]==make(p[a]))) { FAIL("iterator " << a << " is not at position " << p[a] << "; " << where); } }
    }
}
template<class E, class Val> void over_elements(Src& s) {
    std::ptrdiff_t n=s.range(0,12), stride=s.coin()?1:2; bool back=s.coin(); std::vector<Elem> buf(static_cast<std::size_t>(2*stride*(n+1)+1)); for(std::size_t i=0;i!=buf.size();++i) { buf[i].v=static_cast<long>(i)*7-20; }
    std::ptrdiff_t zero=back?stride*(n+1):0, st=back?-stride:stride; TR(n << " elements, stride " << st);
    E* b=buf.data(); auto make=[=](std::ptrdiff_t p){ return Walk<E,Val>(b,zero+p*st,st); };
    using I=Walk<E,Val>; static_assert(std::is_same_v<typename std::iterator_traits<I>::value_type,Elem> && std::is_same_v<typename std::iterator_traits<I>::reference,Val&> && std::is_same_v<typename std::iterator_traits<I>::iterator_category,std::random_access_iterator_tag> && std::is_same_v<typename std::iterator_traits<I>::difference_type,std::ptrdiff_t> && std::is_same_v<typename std::iterator_traits<I>::pointer,Val*>);
    random_access<I>(s,n,make,[&](I const& it, std::ptrdiff_t p, std::string const& where){ Elem& e=buf[static_cast<std::size_t>(zero+p*st)]; static_assert(std::is_same_v<decltype(*it),Val&> && std::is_same_v<decltype(it.operator->()),Val*>);
        if(&*it!=&e || it.operator->()!=&e || it->twice()!=2*e.v) { FAIL("dereferencing at position " << p << " gives another element; " << where); }
        if constexpr(!std::is_const_v<Val>) { (*it).v+=1; it->v+=1; } });
    std::vector<Elem> got; for(auto it=make(0);it!=make(n);++it) { got.push_back(*it); } REQUIRE_EQ(got.size(),static_cast<std::size_t>(n),"elements passed by a loop"); for(std::size_t i=0;i!=got.size();++i) { REQUIRE_EQ(got[i].v,buf[static_cast<std::size_t>(zero+static_cast<std::ptrdiff_t>(i)*st)].v,"element " << i << " of a loop"); }
    std::vector<Elem> rev; for(std::reverse_iterator<I> it(make(n));it!=std::reverse_iterator<I>(make(0));++it) { rev.push_back(*it); } std::reverse(rev.begin(),rev.end()); REQUIRE(rev==got,"elements passed by a reverse loop");
}
}
PROP(C24,mutable_elements,2) { over_elements<Elem,Elem>(s); }
PROP(C24,constant_elements,1) { over_elements<const Elem,const Elem>(s); }
PROP(C24,computed,1) {
    long base=s.range(-1000,1000); std::ptrdiff_t n=s.range(0,30); TR("counting from " << base << ", " << n << " values");
    static_assert(std::is_same_v<std::iterator_traits<Count>::value_type,long> && std::is_same_v<std::iterator_traits<Count>::reference,long>);
    random_access<Count>(s,n,[=](std::ptrdiff_t p){ return Count(base+p); },[&](Count const& it, std::ptrdiff_t p, std::string const& where){ if(*it!=3*(base+p)+1) { FAIL("value " << *it << " at position " << p << "; " << where); } });
    long want=base+static_cast<long>(n); long key=3*s.range(base,want)+1; Count lo=std::lower_bound(Count(base),Count(want),key); REQUIRE(lo==Count((key-1)/3),"binary search");
}
PROP(C24,far_apart,1) {      // positions further apart than any container in memory
    std::ptrdiff_t n=s.num(1,std::ptrdiff_t(1)<<58); long base=s.num(-(1L<<58),1L<<58); TR("counting from " << base << ", " << n << " values"); if(n>0x7fffffff) { s.label("more than 2^31 values"); }
    random_access<Count>(s,n,[=](std::ptrdiff_t p){ return Count(base+p); },[&](Count const& it, std::ptrdiff_t p, std::string const& where){ if(*it!=3*(base+p)+1) { FAIL("value " << *it << " at position " << p << "; " << where); } });
    long at=s.range(base,base+n); REQUIRE(std::lower_bound(Count(base),Count(base+n),3*at+1)==Count(at),"binary search"); REQUIRE(std::lower_bound(std::reverse_iterator<Count>(Count(base+n)),std::reverse_iterator<Count>(Count(base)),3*at+1,[](long a, long b){ return a>b; }).base()==Count(at+1<base+n?at+1:base+n),"binary search backwards");
}
PROP(C24,constant_forward,1) {    // through an iterator to constant elements one sees the elements themselves, also several at once
    std::size_t n=2+s.upto(10); std::vector<Node> nodes(n); for(std::size_t i=0;i!=n;++i) { nodes[i].e.v=s.irange(-50,50); nodes[i].next=i+1<n?&nodes[i+1]:nullptr; } TR(n << " nodes"); std::vector<Step<const Elem>> it; Step<const Elem> j(&nodes[0]); std::vector<const Elem*> p; s.nontrivial();
    for(std::size_t i=0;i!=n;++i) { it.push_back(j); p.push_back(j.operator->()); if(s.coin()) { ++j; } else { j++; } } std::size_t k=s.index(n); nodes[k].e.v=1000;
    for(std::size_t i=0;i!=n;++i) { REQUIRE(p[i]==&nodes[i].e && it[i].operator->()==&nodes[i].e && &*it[i]==&nodes[i].e,"element " << i << " is not where it is stored"); REQUIRE_EQ(it[i]->v,nodes[i].e.v,"element " << i); REQUIRE_EQ(it[i]->v+it[k]->v,nodes[i].e.v+1000,"two elements"); REQUIRE_EQ(it[k]->twice(),2000L,"changed element"); }
}
PROP(C24,forward,2) {
    std::size_t n=1+s.upto(12); std::vector<Node> nodes(n); for(std::size_t i=0;i!=n;++i) { nodes[i].e.v=s.irange(-50,50); nodes[i].next=i+1<n?&nodes[i+1]:nullptr; } TR(n << " nodes");
    std::size_t p[3]; for(auto& x : p) { x=s.index(n); } auto node=[&](std::size_t k){ return k<n?&nodes[k]:nullptr; };
    Step<Elem> it[3]={Step<Elem>(node(p[0])),Step<Elem>(node(p[1])),Step<Elem>(node(p[2]))}; std::size_t nops=2+s.upto(20);
    static_assert(std::is_same_v<std::iterator_traits<Step<const Elem>>::value_type,Elem> && std::is_same_v<std::iterator_traits<Step<Elem>>::reference,Elem&> && std::is_same_v<std::iterator_traits<Step<Elem>>::iterator_category,std::forward_iterator_tag>);
    for(std::size_t op=0;op!=nops;++op) {
        std::size_t i=s.index(3), j=s.index(3), kind=s.upto(5); std::string where="op "+std::to_string(op)+" kind "+std::to_string(kind)+" iterator "+std::to_string(i)+" at "+std::to_string(p[i]); TR(where);
        switch(kind) {
          case 0: case 1: if(p[i]<n) { Step<Elem>& r=++it[i]; ++p[i]; REQUIRE(&r==&it[i],"++ does not return its operand; " << where); } break;
          case 2: case 3: if(p[i]<n) { auto r=it[i]++; static_assert(std::is_same_v<decltype(r),Step<Elem>>); REQUIRE(r.node()==node(p[i]),"postfix ++ does not return the former position; " << where); ++p[i]; break; } break;
          case 4: it[i]=it[j]; p[i]=p[j]; break;
          default: p[i]=s.index(n); it[i]=Step<Elem>(node(p[i])); break;
        }
        for(std::size_t a=0;a!=3;++a) { REQUIRE(it[a].node()==node(p[a]),"iterator " << a << " is not at position " << p[a] << "; " << where); for(std::size_t b=0;b!=3;++b) { if(p[a]!=p[b]) { s.nontrivial(); } REQUIRE((it[a]==it[b])==(p[a]==p[b]) && (it[a]!=it[b])==(p[a]!=p[b]),"comparison at " << p[a] << " and " << p[b] << "; " << where); }
            if(p[a]<n) { Elem& e=nodes[p[a]].e; REQUIRE(&*it[a]==&e && it[a]->twice()==2*e.v,"dereferencing at position " << p[a] << "; " << where); it[a]->v+=1; } }
    }
    long sum=0, want=0; for(Step<const Elem> c(node(0));c!=Step<const Elem>(nullptr);c++) { sum+=c->v; } for(auto& x : nodes) { want+=x.e.v; } REQUIRE_EQ(sum,want,"sum over a loop");
    std::vector<Elem> got; std::copy(Step<const Elem>(node(0)),Step<const Elem>(nullptr),std::back_inserter(got)); REQUIRE_EQ(got.size(),n,"elements copied"); for(std::size_t i=0;i!=n;++i) { REQUIRE_EQ(got[i].v,nodes[i].e.v,"element copied"); }
}
namespace { struct Pos { long p; Pos& operator+=(std::ptrdiff_t k) { p+=k; return *this; } bool operator==(Pos const&) const = default; friend std::ostream& operator<<(std::ostream& os, Pos const& x) { return os << "#" << x.p; } };
struct ConstPos { long p; ConstPos(Pos x) : p(x.p) { } ConstPos& operator+=(std::ptrdiff_t k) { p+=k; return *this; } friend bool operator==(ConstPos const& a, ConstPos const& b) { return a.p==b.p; } friend bool operator==(ConstPos const& a, Pos const& b) { return a.p==b.p; } friend bool operator==(Pos const& a, ConstPos const& b) { return a.p==b.p; } }; }
PROP(C24,pairs,1) {
    long a=s.irange(-9,9), b=s.irange(-9,9), c=s.irange(-9,9), d=s.irange(-9,9); std::ptrdiff_t k=s.irange(-20,20); TR("(" << a << "," << b << ") (" << c << "," << d << ") by " << k);
    using P=Helper::PairIterator<Pos,Pos>; P x(Pos{a},Pos{b}); P y(Pos{c},Pos{d}); bool same=a==c && b==d; if(!same) { s.nontrivial(); }
    REQUIRE_EQ(x.equal(y),same,"equality of pairs of iterators"); REQUIRE(x.equal(P(x)),"a copy is equal");
    std::ostringstream os; os << x; REQUIRE_EQ(os.str(),"{#"+std::to_string(a)+",#"+std::to_string(b)+"}","printed");
    P z(x); z.advance(k); REQUIRE(z._iter1.p==a+k && z._iter2.p==b+k,"advanced by " << k << " to " << z._iter1.p << "," << z._iter2.p); REQUIRE(x._iter1.p==a && x._iter2.p==b,"advancing a copy moved the original"); REQUIRE(z.equal(x)==(k==0),"equality after advancing"); z.advance(-k); REQUIRE(z.equal(x),"there and back");
    Helper::PairIterator<ConstPos,ConstPos> q(x); REQUIRE(q._iter1.p==a && q._iter2.p==b,"converted"); REQUIRE_EQ(q.equal(y),same,"equality of pairs of different types"); REQUIRE_EQ(y.equal(q),same,"equality of pairs of different types");
}
#endif

#ifdef P_C25
RULE(C25,"ranges given by a stop, or by a start and a stop not below it, anywhere in the values of size_t including its two ends; their bounds, size, entries, and the values and the number of values passed by a loop (whole, left early, nested, over a temporary range) are compared with arithmetic; non-trivial: more than one value")
PROP(C25,range,1) {
    std::size_t start=s.unum(), n; bool zero=s.coin(); if(zero) { start=0; } std::size_t room=~std::size_t(0)-start; n=s.chance(1,8) ? (s.coin()?room:s.unum(room)) : s.upto(room<40?room:40); std::size_t stop=start+n; if(n>1) { s.nontrivial(); } TR("range " << start << ".." << stop);
    Helper::Range r=zero && s.coin() ? Helper::range(stop) : s.coin() ? Helper::range(start,stop) : Helper::Range(start,stop); Helper::Range const c=r;
    REQUIRE_EQ(c.start(),start,"start"); REQUIRE_EQ(c.stop(),stop,"stop"); REQUIRE_EQ(c.size(),n,"size"); REQUIRE_EQ(c.stride(),std::size_t(1),"stride");
    if(n>0) { std::size_t i=s.unum(n-1); REQUIRE_EQ(c[i],start+i,"entry " << i); REQUIRE_EQ(c[0],start,"first entry"); REQUIRE_EQ(c[n-1],stop-1,"last entry"); }
    if(n<=1000) {
        std::size_t k=0; for(std::size_t i : c) { if(i!=start+k) { FAIL("value " << i << " is number " << k << " of a loop"); } ++k; if(k>n) { FAIL("the loop passes more than " << n << " values"); } } REQUIRE_EQ(k,n,"values passed by a loop");
        k=0; for(auto i : Helper::Range(start,stop)) { if(k==n/2) { REQUIRE_EQ(i,start+n/2,"value on leaving a loop early"); break; } ++k; } REQUIRE_EQ(k,n/2,"values before leaving early");
        if(n<=40) { std::size_t total=0; for(auto i : c) { std::size_t before=total; for(auto j : c) { total+=(j>=start && j<stop); } REQUIRE_EQ(total-before,n,"values passed by an inner loop"); (void)i; } REQUIRE_EQ(total,n*n,"values passed by nested loops"); }
        auto it=begin(c), e=end(c); auto it0=it; for(std::size_t j=0;j!=n;++j) { REQUIRE(it!=e,"at the end after " << j << " of " << n << " steps"); REQUIRE_EQ(*it,start+j,"value after " << j << " steps"); auto& x=++it; REQUIRE(&x==&it,"++ does not return its operand"); } REQUIRE(!(it!=e),"not at the end after " << n << " steps"); if(n>0) { REQUIRE_EQ(*it0,start,"a copied iterator moved"); REQUIRE(it0!=it,"iterators at the ends are not different"); }
    } else { auto it=begin(c); REQUIRE_EQ(*it,start,"first value"); ++it; REQUIRE_EQ(*it,start+1,"second value"); REQUIRE(it!=end(c),"end of a large range"); REQUIRE_EQ(*end(c),stop,"end value"); }
}
#endif

#ifdef P_C26
RULE(C26,"pairs and tuples of references are made from 1..6 variables of different types and assigned from values, from results and from each other's variables, also elements of arrays at places in any order; each variable must get its own value and no copies beyond the assignment may be made; the accessors must return the very component, with the constness and value category of the tuple; non-trivial: every case")
namespace { struct Two { std::pair<long,std::string> operator()(long a, std::string b) const { return {a,b}; } }; }
PROP(C26,assign,1) {
    s.nontrivial(); long a=s.irange(-99,99), b=s.irange(-99,99), c=s.irange(-99,99); std::string t=s.str(6), u=s.str(6); TR(a << " " << b << " " << c << " " << t << " " << u);
    long x=0, y=0, z=0; std::string p="old", q="old";
    { auto l=Helper::make_lpair(x,p); static_assert(std::is_same_v<decltype(l),std::pair<long&,std::string&>>); REQUIRE(&l.first==&x && &l.second==&p,"a pair of references refers to other variables"); }
    Helper::make_lpair(x,p)=Helper::make_pair(a,t); REQUIRE(x==a && p==t,"assigned pair: " << x << " " << p);
    Helper::make_lpair(y,q)=Two()(b,u); REQUIRE(y==b && q==u,"assigned pair: " << y << " " << q); REQUIRE(x==a && p==t,"other variables changed");
    { long m=a, n=b; Helper::make_lpair(m,n)=std::pair<long,long>(n,m); REQUIRE(m==b && n==a,"exchanged by assigning a pair"); }
    { auto l=Helper::make_ltuple(x,p,y,q,z); static_assert(std::is_same_v<decltype(l),std::tuple<long&,std::string&,long&,std::string&,long&>>); REQUIRE(&std::get<0>(l)==&x && &std::get<1>(l)==&p && &std::get<2>(l)==&y && &std::get<3>(l)==&q && &std::get<4>(l)==&z,"a tuple of references refers to other variables"); }
    Helper::make_ltuple(x,p,y,q,z)=Helper::make_tuple(c,u,a,t,b); REQUIRE(x==c && p==u && y==a && q==t && z==b,"assigned tuple: " << x << " " << p << " " << y << " " << q << " " << z);
    { double d=0; int i=0; Helper::make_ltuple(i,d)=std::make_pair(3,2.5); REQUIRE(i==3 && d==2.5,"tuple assigned from a pair"); Helper::make_ltuple(i)=std::make_tuple(7); REQUIRE_EQ(i,7,"tuple of one"); const long k=a; auto l=Helper::make_ltuple(k,i); static_assert(std::is_same_v<decltype(l),std::tuple<const long&,int&>>); REQUIRE(&std::get<0>(l)==&k,"constant variable"); }
    Tracked::reset(); { Tracked v(a), w(b); long live=Tracked::live; auto l=Helper::make_lpair(v,w); auto m=Helper::make_ltuple(v,w); REQUIRE_EQ(Tracked::live,live,"making tuples of references copied the variables"); REQUIRE(&l.first==&v && &l.second==&w && &std::get<0>(m)==&v && &std::get<1>(m)==&w,"references"); } Tracked::verify("tuples of references"); REQUIRE_EQ(Tracked::live,0L,"objects left");
}
PROP(C26,places,1) {     // variables of one type, at places in any order, also the same one more than once
    s.nontrivial(); long a[6]; std::string t[6]; for(int i=0;i!=6;++i) { a[i]=s.irange(-99,99); t[i]=s.str(20); } std::size_t p[5]; bool again=s.chance(1,4); for(int i=0;i!=5;++i) { p[i]=s.index(6); for(int j=0;!again && j<i;) { if(p[j]==p[i]) { p[i]=(p[i]+1)%6; j=0; } else { ++j; } } } TR("places " << p[0] << p[1] << p[2] << p[3] << p[4]); s.label(again?"places may repeat":"places differ");
    auto l=Helper::make_lpair(a[p[0]],a[p[1]]); REQUIRE(&l.first==&a[p[0]] && &l.second==&a[p[1]],"pair of references"); auto m=Helper::make_lpair(t[p[0]],t[p[1]]); REQUIRE(&m.first==&t[p[0]] && &m.second==&t[p[1]],"pair of references"); const long* c=a; auto k=Helper::make_lpair(c[p[0]],c[p[1]]); REQUIRE(&k.first==&c[p[0]] && &k.second==&c[p[1]],"pair of constant references"); auto mixed=Helper::make_lpair(a[p[0]],c[p[1]]); REQUIRE(&mixed.first==&a[p[0]] && &mixed.second==&c[p[1]],"pair of references");
    auto u=Helper::make_ltuple(a[p[0]],a[p[1]],a[p[2]],a[p[3]],a[p[4]]); REQUIRE(&std::get<0>(u)==&a[p[0]] && &std::get<1>(u)==&a[p[1]] && &std::get<2>(u)==&a[p[2]] && &std::get<3>(u)==&a[p[3]] && &std::get<4>(u)==&a[p[4]],"tuple of references");
    auto w=Helper::make_ltuple(t[p[0]],a[p[1]],t[p[2]],c[p[3]],t[p[4]]); REQUIRE(&std::get<0>(w)==&t[p[0]] && &std::get<1>(w)==&a[p[1]] && &std::get<2>(w)==&t[p[2]] && &std::get<3>(w)==&c[p[3]] && &std::get<4>(w)==&t[p[4]],"tuple of references");
    REQUIRE(&Helper::get_first(u)==&a[p[0]] && &Helper::get_second(u)==&a[p[1]] && &Helper::get_third(u)==&a[p[2]] && &Helper::get_fourth(u)==&a[p[3]] && &Helper::get_fifth(u)==&a[p[4]],"component");
    long want[6]; std::copy(a,a+6,want); for(int i=0;i!=5;++i) { want[p[i]]=1000+i; } u=Helper::make_tuple(1000L,1001L,1002L,1003L,1004L); for(int i=0;i!=6;++i) { REQUIRE_EQ(a[i],want[i],"variable " << i << " after assigning the tuple"); } l=Helper::make_pair(5L,6L); want[p[0]]=5; want[p[1]]=6; for(int i=0;i!=6;++i) { REQUIRE_EQ(a[i],want[i],"variable " << i << " after assigning the pair"); } std::string kept[6]; std::copy(t,t+6,kept); m=Helper::make_pair(std::string("first"),std::string("second")); kept[p[0]]="first"; kept[p[1]]="second"; for(int i=0;i!=6;++i) { REQUIRE_EQ(t[i],kept[i],"text " << i << " after assigning the pair"); }
}
namespace {
template<class T, class U> void places_of(Src& s) {
    T a[7]; T was[7]; U b[7]; U bwas[7]; for(int i=0;i!=7;++i) { was[i]=a[i]=static_cast<T>(s.upto(1)); bwas[i]=b[i]=static_cast<U>(s.upto(1)); } std::size_t p[4]; for(auto& x : p) { x=s.index(7); } TR("types of " << sizeof(T) << " and " << sizeof(U) << " bytes, places " << p[0] << p[1] << p[2] << p[3]); const T* c=a; volatile T* w=a;
    auto l=Helper::make_lpair(a[p[0]],a[p[1]]); static_assert(std::is_same_v<decltype(l),std::pair<T&,T&>>); REQUIRE(&l.first==a+p[0] && &l.second==a+p[1],"pair of references"); auto m=Helper::make_lpair(a[p[0]],b[p[1]]); REQUIRE(&m.first==a+p[0] && &m.second==b+p[1],"pair of references to two types"); auto k=Helper::make_lpair(c[p[0]],w[p[1]]); REQUIRE(&k.first==a+p[0] && &k.second==w+p[1],"pair of constant and volatile references");
    auto t=Helper::make_ltuple(a[p[0]],a[p[1]],a[p[2]],a[p[3]]); REQUIRE(&std::get<0>(t)==a+p[0] && &std::get<1>(t)==a+p[1] && &std::get<2>(t)==a+p[2] && &std::get<3>(t)==a+p[3],"tuple of references"); auto u=Helper::make_ltuple(a[p[0]],b[p[1]],c[p[2]]); REQUIRE(&std::get<0>(u)==a+p[0] && &std::get<1>(u)==b+p[1] && &std::get<2>(u)==c+p[2],"tuple of references to two types"); auto e=Helper::make_ltuple(a[p[0]],a[p[1]]); REQUIRE(&std::get<0>(e)==a+p[0] && &std::get<1>(e)==a+p[1],"tuple of two references");
    T x=static_cast<T>(s.upto(1)), y=static_cast<T>(s.upto(1)); U z=static_cast<U>(s.upto(1)); Helper::make_lpair(a[p[0]],a[p[1]])=Helper::make_pair(x,y); was[p[0]]=x; was[p[1]]=y; for(int i=0;i!=7;++i) { REQUIRE(a[i]==was[i] && b[i]==bwas[i],"variable " << i << " after assigning the pair"); } Helper::make_ltuple(a[p[2]],b[p[3]])=Helper::make_tuple(y,z); was[p[2]]=y; bwas[p[3]]=z; for(int i=0;i!=7;++i) { REQUIRE(a[i]==was[i] && b[i]==bwas[i],"variable " << i << " after assigning the tuple"); }
    REQUIRE(&Helper::get_first(t)==a+p[0] && &Helper::get_second(t)==a+p[1] && &Helper::get_third(t)==a+p[2] && &Helper::get_fourth(t)==a+p[3] && &Helper::get_first(l)==a+p[0] && &Helper::get_second(l)==a+p[1],"component");
}
enum class Small : unsigned char { zero, one };
}
PROP(C26,types,1) {     // variables of small and of wide types at places next to each other
    s.nontrivial(); switch(s.upto(9)) { case 0: places_of<char,char>(s); break; case 1: places_of<bool,bool>(s); break; case 2: places_of<short,char>(s); break; case 3: places_of<signed char,bool>(s); break; case 4: places_of<float,int>(s); break; case 5: places_of<unsigned,float>(s); break; case 6: places_of<long double,unsigned char>(s); break; case 7: places_of<Small,unsigned char>(s); break; case 8: places_of<unsigned long,double>(s); break; default: places_of<double,long long>(s); break; }
}
PROP(C26,access,1) {
    s.nontrivial(); long a=s.irange(-99,99); std::string t=s.str(6); double d=s.irange(-9,9)/4.0; char c=s.coin()?'x':'y'; TR(a << " " << t << " " << d << " " << c);
    using T=Helper::Tuple<long,std::string,double,char,std::unique_ptr<long>>; T x(a,t,d,c,std::make_unique<long>(a+1)); T const& k=x;
    REQUIRE(&Helper::get_first(x)==&std::get<0>(x) && &Helper::get_second(x)==&std::get<1>(x) && &Helper::get_third(x)==&std::get<2>(x) && &Helper::get_fourth(x)==&std::get<3>(x) && &Helper::get_fifth(x)==&std::get<4>(x),"component of a tuple");
    REQUIRE(&Helper::get_first(k)==&std::get<0>(x) && &Helper::get_second(k)==&std::get<1>(x) && &Helper::get_third(k)==&std::get<2>(x) && &Helper::get_fourth(k)==&std::get<3>(x) && &Helper::get_fifth(k)==&std::get<4>(x),"component of a constant tuple");
    static_assert(std::is_same_v<decltype(Helper::get_first(x)),long&> && std::is_same_v<decltype(Helper::get_second(k)),std::string const&> && std::is_same_v<decltype(Helper::get_third(std::move(x))),double&&> && std::is_same_v<decltype(Helper::get_fourth(std::move(k))),char const&&> && std::is_same_v<decltype(Helper::get_fifth(std::move(x))),std::unique_ptr<long>&&>);
    Helper::get_first(x)=a+5; Helper::get_second(x)+="!"; Helper::get_third(x)=1.5; Helper::get_fourth(x)='z'; REQUIRE(std::get<0>(x)==a+5 && std::get<1>(x)==t+"!" && std::get<2>(x)==1.5 && std::get<3>(x)=='z',"components changed through the accessors");
    std::unique_ptr<long> m=Helper::get_fifth(std::move(x)); REQUIRE(m && *m==a+1 && !std::get<4>(x),"component moved out of a tuple"); std::string w=Helper::get_second(std::move(x)); REQUIRE_EQ(w,t+"!","component moved out");
    Helper::Pair<long,std::string> p(a,t); REQUIRE(&Helper::get_first(p)==&p.first && &Helper::get_second(p)==&p.second,"component of a pair"); static_assert(std::is_same_v<decltype(Helper::get_second(std::move(p))),std::string&&>);
    long u=0; std::string v; auto l=Helper::make_ltuple(u,v); REQUIRE(&Helper::get_first(l)==&u && &Helper::get_second(std::move(l))==&v,"component of a tuple of references"); Helper::get_first(Helper::make_ltuple(u,v))=a; REQUIRE_EQ(u,a,"assigned through a tuple of references");
    std::string z=Helper::get_second(Two()(a,t)); REQUIRE_EQ(z,t,"component of a result");
}
#endif
