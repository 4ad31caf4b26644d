// Arrays: value semantics, element lifetime, construction and conversion, failures; shared arrays; complement.
#include "../engine/pbt.hpp"
#include "../engine/tracked.hpp"
#include "array.hpp"
#include <cmath>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <deque>
#include <limits>
#include <memory>
#include <set>
#include <sstream>

using namespace pbt;
using Helper::Array; using Helper::SharedArray;

namespace {

template<class T> [[gnu::noinline]] std::vector<T> contents(Array<T> const& a) { std::vector<T> v; v.reserve(a.size()); for(std::size_t i=0;i!=a.size();++i) { v.push_back(a[i]); } return v; }

template<class T> [[gnu::noinline]] void same(Array<T>& a, std::vector<T> const& m, std::string const& where) {
    Array<T> const& c=a;
    REQUIRE_EQ(a.size(),m.size(),where);
    REQUIRE_EQ(a.empty(),m.empty(),where);
    REQUIRE_EQ(static_cast<std::size_t>(a.end()-a.begin()),m.size(),where);
    REQUIRE_EQ(static_cast<std::size_t>(c.end()-c.begin()),m.size(),where);
    if(m.size()!=0) {
        bool eq=true; for(std::size_t i=0;i!=m.size();++i) { eq = eq && c[i]==m[i]; }
        if(!eq) { FAIL("contents are " << show(contents(a)) << ", expected " << show(m) << "; " << where); }
        REQUIRE(&a[0]==a.begin() && &c[0]==c.begin() && &a[0]==&c[0],where);
        REQUIRE(&a.front()==a.begin() && &c.front()==c.begin() && &a.back()==a.end()-1 && &c.back()==c.end()-1,where);
    }
}

//! Random histories over a few arrays, each against a vector.
template<class T> void history(Src& s, std::size_t cap, bool lifetimes) {
    static const std::size_t K=3;
    std::vector<Array<T>> a; std::vector<std::vector<T>> m(K); a.reserve(K);
    for(std::size_t k=0;k!=K;++k) { a.emplace_back(); }
    std::size_t nops=2+s.upto(14); bool shrunk=false, grown=false, crossed=false;
    for(std::size_t op=0;op!=nops;++op) {
        std::size_t i=s.index(K), j=s.index(K); std::string where;
        std::size_t kind=s.upto(19);
        auto say=[&](std::string const& t){ where="op "+std::to_string(op)+": "+t; TR(where); };
        std::string ai="a"+std::to_string(i), aj="a"+std::to_string(j);
        switch(kind) {
          case 0: { auto v=gen_vector<T>(s,cap); say(ai+" = Array(range "+show(v)+")"); a[i]=Array<T>(v.begin(),v.end()); m[i]=v; break; }
          case 1: { std::size_t n=s.len(cap); T x=gen_value<T>(s); say(ai+".resize("+std::to_string(n)+","+show(x)+")"); (n<m[i].size()?shrunk:grown)=true; a[i].resize(n,x); m[i].resize(n,x); break; }
          case 2: { std::size_t n=s.len(cap); say(ai+".resize("+std::to_string(n)+")"); (n<m[i].size()?shrunk:grown)=true; a[i].resize(n); m[i].resize(n,T()); break; }
          case 3: { if(m[i].empty()) { break; } std::size_t n=s.len(cap), p=s.index(m[i].size()); say(ai+".resize("+std::to_string(n)+","+ai+"["+std::to_string(p)+"])"); T x=m[i][p]; a[i].resize(n,a[i][p]); m[i].resize(n,x); break; }
          case 4: { say(ai+" = "+aj); crossed = crossed || i!=j; a[i]=a[j]; auto t=m[j]; m[i]=t; break; }
          case 5: { say(ai+" = move("+aj+")"); a[i]=std::move(a[j]); if(i!=j) { m[i]=m[j]; a[j]=Array<T>(); m[j].clear(); crossed=true; } break; }
          case 6: { say("swap "+ai+","+aj); a[i].swap(a[j]); std::swap(m[i],m[j]); break; }
          case 7: { std::size_t n=s.len(cap); say(ai+".reallocate("+std::to_string(n)+")"); bool other=(n!=m[i].size()); a[i].reallocate(n); REQUIRE_EQ(a[i].size(),n,where); if(other) { m[i]=std::vector<T>(n,T()); } else { m[i]=contents(a[i]); } break; }
          case 8: { T x=gen_value<T>(s); say(ai+".fill("+show(x)+")"); a[i].fill(x); std::fill(m[i].begin(),m[i].end(),x); break; }
          case 9: { auto v=gen_vector<T>(s,cap); v.resize(m[i].size()+s.upto(2),T()); say(ai+".fill(begin of "+show(v)+")"); a[i].fill(v.begin()); v.resize(m[i].size(),T()); m[i]=v; break; }
          case 10: { auto v=gen_vector<T>(s,cap); say(ai+".assign("+show(v)+")"); if(s.coin()) { std::forward_list<T> l(v.begin(),v.end()); a[i].assign(l.begin(),l.end()); } else { a[i].assign(v.begin(),v.end()); } m[i]=v; break; }
          case 11: case 12: { if(m[i].empty()) { break; } std::size_t p=s.index(m[i].size()); T x=gen_value<T>(s); say(ai+"["+std::to_string(p)+"] = "+show(x));
                switch(s.upto(4)) { case 0: a[i][p]=x; break; case 1: a[i].at(p)=x; break; case 2: *(a[i].begin()+static_cast<long>(p))=x; break;
                    case 3: p=0; a[i].front()=x; break; default: p=m[i].size()-1; a[i].back()=x; break; } m[i][p]=x; break; }
          case 13: { Array<T> const& c=a[i]; std::size_t p=m[i].size()+s.unum(40)%(~std::size_t(0)-m[i].size()); if(s.chance(1,4)) { p=~std::size_t(0)-s.upto(2); if(p<m[i].size()) { break; } }
                say(ai+".at("+std::to_string(p)+")"); bool t1=false,t2=false; try { (void)a[i].at(p); } catch(std::out_of_range const&) { t1=true; } try { (void)c.at(p); } catch(std::out_of_range const&) { t2=true; }
                REQUIRE(t1 && t2,"checked access outside the array does not throw out_of_range; " << where);
                if(!m[i].empty()) { std::size_t q=s.index(m[i].size()); REQUIRE(&a[i].at(q)==&a[i][q] && &c.at(q)==&c[q],where); } break; }
          case 14: { say("compare "+ai+","+aj); bool eq=(m[i]==m[j]); REQUIRE((a[i]==a[j])==eq,"equality; " << where); REQUIRE((a[i]!=a[j])==!eq,"inequality; " << where);
                Array<T> c(a[i]); REQUIRE(c==a[i] && !(c!=a[i]),where);
                if(c.size()!=0) { std::size_t p=s.index(c.size()); T x=gen_value<T>(s); bool e=(x==c[p]); c[p]=x; REQUIRE((c==a[i])==e && (c!=a[i])==!e,"one element differs; " << where); } break; }
          case 15: { say("copy of "+ai+" is independent"); Array<T> c(a[i]); T x=gen_value<T>(s); same(c,m[i],where); c.fill(x); c.resize(c.size()+1,x); break; }
          case 16: { say("move of "+ai); Array<T> c(std::move(a[i])); same(c,m[i],where); a[i]=std::move(c); break; }
          case 17: { if(m[i].empty()) { break; } std::size_t p=s.index(m[i].size()); say(ai+".fill("+ai+"["+std::to_string(p)+"])"); T x=m[i][p]; a[i].fill(a[i][p]); std::fill(m[i].begin(),m[i].end(),x); break; }
          case 18: { std::size_t n=s.len(cap); T x=gen_value<T>(s); say(ai+" = Array("+std::to_string(n)+","+show(x)+")"); a[i]=Array<T>(n,x); m[i]=std::vector<T>(n,x); break; }
          case 19: { std::size_t n=s.len(cap); say(ai+" = Array("+std::to_string(n)+")"); a[i]=Array<T>(n); m[i]=std::vector<T>(n,T()); break; }
        }
        for(std::size_t k=0;k!=K;++k) { same(a[k],m[k],where+" (a"+std::to_string(k)+")"); }
        if constexpr(std::is_same_v<T,Tracked>) { Tracked::verify(where.c_str());
            if(lifetimes) { long want=0; for(std::size_t k=0;k!=K;++k) { want+=2*static_cast<long>(m[k].size()); } REQUIRE_EQ(Tracked::live,want,"objects alive (arrays and their models); " << where); } }
    }
    if(grown) { s.label("resize to more"); } if(shrunk) { s.label("resize to fewer"); } if(crossed) { s.label("assigned from another array"); }
    std::size_t big=0; for(auto& v : m) { big=std::max(big,v.size()); } if(big>=64) { s.label("64 elements or more"); }
    if(nops>=4 && (grown||shrunk||crossed)) { s.nontrivial(); }
}

//! A few operations on two arrays of up to cap elements that follow from few choices.
template<class T> void bulk_history(Src& s, std::size_t cap) {
    Array<T> a[2]; std::vector<T> m[2]; std::size_t nops=1+s.upto(5), most=0;
    for(std::size_t op=0;op!=nops;++op) {
        std::size_t i=s.index(2), j=1-i, n=s.bulk(cap), kind=s.upto(12); u64 seed=s.upto(255); std::string where="op "+std::to_string(op)+": a"+std::to_string(i)+" kind "+std::to_string(kind)+" n="+std::to_string(n)+" seed "+std::to_string(seed); TR(where);
        switch(kind) {
          case 0: case 1: case 2: { auto v=hashed_vector<T>(seed,n); a[i]=Array<T>(v.begin(),v.end()); m[i]=v; break; }
          case 3: { T x=hashed<T>(seed,1); a[i].resize(n,x); m[i].resize(n,x); break; }
          case 4: { a[i].resize(n); m[i].resize(n,T()); break; }
          case 5: { if(m[i].empty()) { break; } std::size_t p=seed%m[i].size(); T x=m[i][p]; a[i].resize(n,a[i][p]); m[i].resize(n,x); break; }
          case 6: { a[i]=a[j]; m[i]=m[j]; break; }
          case 7: { a[i]=std::move(a[j]); m[i]=m[j]; a[j]=Array<T>(); m[j].clear(); break; }
          case 8: { a[i]=Array<T>(n,[&](std::size_t k){ return hashed<T>(seed,k); }); m[i]=hashed_vector<T>(seed,n); break; }
          case 9: { T x=hashed<T>(seed,1); a[i]=Array<T>(n,x); m[i].assign(n,x); if(s.coin()) { T y=hashed<T>(seed,2); a[i].fill(y); m[i].assign(n,y); } break; }
          case 10: { auto v=hashed_vector<T>(seed,n); a[i].assign(v.begin(),v.end()); m[i]=v; break; }
          case 11: { Array<T> c(a[i]); same(c,m[i],where); REQUIRE(c==a[i] && !(c!=a[i]),where); if(c.size()!=0) { std::size_t p=s.upto(2)==0?c.size()-1:static_cast<std::size_t>(seed*257)%c.size(); T x=hashed<T>(seed,3); bool e=(x==c[p]); m[j]=m[i]; c[p]=x; m[j][p]=x; REQUIRE((c==a[i])==e && (c!=a[i])==!e,"element " << p << " of " << c.size() << " differs; " << where); } else { m[j].clear(); } a[j]=std::move(c); break; }
          default: { if(s.coin()) { a[i].swap(a[j]); std::swap(m[i],m[j]); } else { a[i]=Array<T>(n); m[i].assign(n,T()); } break; }
        }
        for(std::size_t k=0;k!=2;++k) { same(a[k],m[k],where+" (a"+std::to_string(k)+")"); most=std::max(most,m[k].size()); bool t=false; try { (void)a[k].at(m[k].size()+(seed>128?65536u*(seed%3):0u)); } catch(std::out_of_range const&) { t=true; } REQUIRE(t,"checked access behind the end; " << where); if(!m[k].empty()) { REQUIRE(&a[k].at(m[k].size()-1)==&a[k].back(),where); } }
        if constexpr(std::is_same_v<T,Tracked>) { Tracked::verify(where.c_str()); REQUIRE_EQ(Tracked::live,static_cast<long>(2*(m[0].size()+m[1].size())),"objects alive (arrays and their models); " << where); }
    }
    if(most>256) { s.label("more than 256 elements"); s.nontrivial(); } if(most>65536) { s.label("more than 65536 elements"); }
}

void handing_over(Src& s) {    // moving and swapping hand over the elements, and cannot fail
    Tracked::reset(); { std::size_t n=s.len(60), k=s.len(60); TR(n << " and " << k << " elements"); if(n>=1) { s.nontrivial(); } std::vector<Tracked> v=hashed_vector<Tracked>(s.upto(99),n), w=hashed_vector<Tracked>(s.upto(99),k); Array<Tracked> a(v.begin(),v.end()), b(w.begin(),w.end()); Tracked const* pa=a.begin(); Tracked const* pb=b.begin(); long copies=Tracked::copies, live=Tracked::live;
      Tracked::throw_in=1; alloc_fault_fired=false; alloc_countdown=1; bool threw=false;
      try { a.swap(b); Array<Tracked> c(std::move(a)); a=std::move(b); b=std::move(c); } catch(...) { threw=true; } alloc_countdown=0; Tracked::throw_in=0;
      REQUIRE(!threw,"moving or swapping arrays threw"); REQUIRE(Tracked::copies==copies && Tracked::live==live,"moving or swapping copied elements"); same(a,v,"after swapping twice by moves"); same(b,w,"after swapping twice by moves"); if(n) { REQUIRE(a.begin()==pa,"the elements were not handed over"); } if(k) { REQUIRE(b.begin()==pb,"the elements were not handed over"); } }
    REQUIRE_EQ(Tracked::live,0L,"objects alive after the arrays are gone"); Tracked::verify("destruction"); }
//! An array of nodes that hold arrays of nodes.
struct Node { Tracked t; Array<Node> ch; Node() : t(0), ch() { } explicit Node(long x) : t(x), ch() { } };
struct MNode { long v=0; std::vector<MNode> ch; };
std::size_t count(std::vector<MNode> const& m) { std::size_t n=m.size(); for(auto& x : m) { n+=count(x.ch); } return n; }
void same_tree(Array<Node> const& a, std::vector<MNode> const& m, std::string const& where) { REQUIRE_EQ(a.size(),m.size(),where); for(std::size_t i=0;i!=m.size();++i) { REQUIRE_EQ(a[i].t.v,m[i].v,where); same_tree(a[i].ch,m[i].ch,where+" in "+std::to_string(i)); } }
//! An array may be moved from an array that one of its own elements holds, and copied from one unless it has the same
//! size: then the elements are assigned in place, which changes the source on the way.
void trees(Src& s) {
    Array<Node> a; std::vector<MNode> m; std::size_t nops=2+s.upto(12); bool inner=false;
    for(std::size_t op=0;op!=nops;++op) {
        std::string where="op "+std::to_string(op)+": "; Array<Node>* r=&a; std::vector<MNode>* q=&m; std::string name="a"; for(std::size_t d=s.upto(3);d>0 && !q->empty();--d) { std::size_t i=s.index(q->size()); r=&(*r)[i].ch; q=&(*q)[i].ch; name+="["+std::to_string(i)+"].ch"; }
        std::size_t kind=s.upto(8), i=q->empty()?0:s.index(q->size());
        switch(kind) {
          case 0: case 1: case 2: { std::size_t n=1+s.upto(3); where+=name+" = "+std::to_string(n)+" new nodes"; TR(where); if(count(m)>150) { break; } Array<Node> b(n); std::vector<MNode> w(n); for(std::size_t k=0;k!=n;++k) { long x=static_cast<long>(s.upto(99)); b[k].t=Tracked(x); w[k].v=x; if(s.coin()) { b[k].ch=Array<Node>(1,Node(x+1)); w[k].ch.resize(1); w[k].ch[0].v=x+1; } } *r=std::move(b); *q=w; break; }
          case 3: { if(q->empty()) { break; } where+=name+" = move("+name+"["+std::to_string(i)+"].ch)"; TR(where); inner=true; *r=std::move((*r)[i].ch); auto w=std::move((*q)[i].ch); *q=w; break; }
          case 4: { if(q->empty() || (*q)[i].ch.size()==q->size()) { break; } where+=name+" = "+name+"["+std::to_string(i)+"].ch"; TR(where); inner=true; *r=(*r)[i].ch; auto w=(*q)[i].ch; *q=w; break; }
          case 5: { if(q->empty()) { break; } std::size_t j=s.index(q->size()); where+=name+"["+std::to_string(i)+"] = "+name+"["+std::to_string(j)+"]"; TR(where); (*r)[i]=(*r)[j]; auto w=(*q)[j]; (*q)[i]=w; break; }
          case 6: { if(q->empty() || count(m)>60) { break; } std::size_t n=s.upto(4); where+=name+".resize("+std::to_string(n)+","+name+"["+std::to_string(i)+"])"; TR(where); r->resize(n,(*r)[i]); auto w=(*q)[i]; q->resize(n,w); break; }
          case 7: { if(q->empty()) { break; } std::size_t j=s.index(q->size()); where+="swap "+name+"["+std::to_string(i)+"].ch,"+name+"["+std::to_string(j)+"].ch"; TR(where); (*r)[i].ch.swap((*r)[j].ch); std::swap((*q)[i].ch,(*q)[j].ch); break; }
          default: { if(q->empty() || count(m)>60) { break; } where+=name+".fill("+name+"["+std::to_string(i)+"])"; TR(where); r->fill((*r)[i]); auto w=(*q)[i]; std::fill(q->begin(),q->end(),w); break; }
        }
        Tracked::verify(where.c_str()); same_tree(a,m,where); REQUIRE_EQ(Tracked::live,static_cast<long>(count(m)),"nodes alive; " << where);
    }
    if(inner) { s.nontrivial(); s.label("assigned from an array in an own element"); }
}
} // namespace

#ifdef P_C01 // ----------------------------------------------------------------
RULE(C01,"2..16 random operations on three arrays (range, fill, copy, move, resize with and without a value taken from the array itself, reallocate, assign, element writes, checked access, comparison) of int, bool, unsigned char, string or an instrumented type, and on arrays of nodes that hold arrays of nodes (assigned from and moved out of their own elements), each mirrored on a std::vector and compared in full after every operation; non-trivial: at least 4 operations with a resize or an assignment between different arrays")
PROP(C01,int,4) { history<int>(s,3000,false); }
PROP(C01,bytes,1) { history<unsigned char>(s,3000,false); }
PROP(C01,string,3) { history<std::string>(s,300,false); }
PROP(C01,tracked,3) { Tracked::reset(); history<Tracked>(s,200,false); }
PROP(C01,bulk,2) { switch(s.upto(4)) { case 0: case 1: bulk_history<int>(s,70000); break; case 2: bulk_history<unsigned char>(s,70000); break; case 3: bulk_history<std::string>(s,5000); break; default: Tracked::reset(); bulk_history<Tracked>(s,5000); break; } }
namespace {
struct Padded { char c; long v; Padded() : c(0), v(0) { } Padded(char cc, long vv, unsigned char junk) { std::memset(static_cast<void*>(this),junk,sizeof(*this)); c=cc; v=vv; } bool operator==(Padded const& o) const { return c==o.c && v==o.v; } };
struct Folded { std::string t; bool operator==(Folded const& o) const { if(t.size()!=o.t.size()) { return false; } for(std::size_t i=0;i!=t.size();++i) { if((t[i]|32)!=(o.t[i]|32)) { return false; } } return true; } };
struct Never { int v=0; bool operator==(Never const&) const { return false; } };
struct Held { std::shared_ptr<int> p; bool operator==(Held const& o) const { return *p==*o.p; } };
struct Wrapped { int v=0; int operator&() const = delete; bool operator==(Wrapped const& o) const { return v==o.v; } };
double odd_double(Src& s) { static const double d[]={0.0,-0.0,1.0,-1.0,std::numeric_limits<double>::quiet_NaN(),-std::numeric_limits<double>::quiet_NaN(),std::numeric_limits<double>::infinity(),5e-324,0.1,-5e-324}; return d[s.index(10)]; }
float odd_float(Src& s) { return static_cast<float>(odd_double(s)); }
template<class T, class G> void equality(Src& s, G gen) {
    std::size_t n=s.len(20); std::vector<T> u, v; for(std::size_t i=0;i!=n;++i) { u.push_back(gen()); } switch(s.upto(3)) { case 0: v=u; break; case 1: v=u; if(n!=0) { v[s.index(n)]=gen(); } break; case 2: for(std::size_t i=0;i!=n;++i) { v.push_back(s.chance(1,4)?gen():u[i]); } break; default: v=u; if(s.coin()) { v.push_back(gen()); } else if(n!=0) { v.pop_back(); } break; }
    Array<T> a(u.begin(),u.end()), b(v.begin(),v.end()); bool eq=(u.size()==v.size()); for(std::size_t i=0;eq && i!=u.size();++i) { eq = (u[i]==v[i]); } TR(u.size() << " and " << v.size() << " elements, " << (eq?"equal":"different")); if(n>=1) { s.nontrivial(); } if(eq) { s.label("equal arrays"); }
    REQUIRE_EQ((a==b),eq,"equality of two arrays"); REQUIRE_EQ((a!=b),!eq,"inequality of two arrays"); REQUIRE_EQ((b==a),eq,"equality of two arrays");
    bool self=true; for(auto& x : u) { self = self && x==x; } REQUIRE_EQ((a==a),self,"equality of an array with itself"); Array<T> c(a); REQUIRE_EQ((c==a),self,"equality with a copy");
}
}
PROP(C01,trees,1) { Tracked::reset(); trees(s); }
PROP(C01,equality,2) {    // elements whose equality is not that of their bytes
    switch(s.upto(7)) {
      case 0: equality<double>(s,[&]{ return odd_double(s); }); break;
      case 1: equality<float>(s,[&]{ return odd_float(s); }); break;
      case 2: equality<Padded>(s,[&]{ return Padded(static_cast<char>('a'+s.upto(1)),static_cast<long>(s.upto(1)),static_cast<unsigned char>(s.upto(255))); }); break;
      case 3: equality<Folded>(s,[&]{ return Folded{s.str(3,"aAbB")}; }); break;
      case 4: equality<Never>(s,[&]{ return Never{static_cast<int>(s.upto(1))}; }); break;
      case 5: equality<Held>(s,[&]{ return Held{std::make_shared<int>(static_cast<int>(s.upto(1)))}; }); break;
      case 6: equality<int>(s,[&]{ return static_cast<int>(s.num(std::numeric_limits<int>::min(),std::numeric_limits<int>::max())); }); break;
      default: equality<std::vector<double>>(s,[&]{ std::vector<double> v; for(std::size_t i=s.upto(2);i>0;--i) { v.push_back(odd_double(s)); } return v; }); break;
    }
}
PROP(C01,exact_values,2) {    // values come through unchanged, whatever they compare equal to
    std::size_t n=s.len(30); std::vector<double> v; for(std::size_t i=0;i!=n;++i) { v.push_back(s.coin()?odd_double(s):s.real()); } if(n>=1) { s.nontrivial(); } TR(show(v));
    auto bits=[](Array<double> const& a, std::vector<double> const& w, const char* what) { REQUIRE_EQ(a.size(),w.size(),what); if(w.size()!=0) { REQUIRE(std::memcmp(a.begin(),w.data(),w.size()*sizeof(double))==0,what << ": the bits of some element changed"); } };
    Array<double> a(v.begin(),v.end()); bits(a,v,"made from a range"); Array<double> b(a); bits(b,v,"copied"); double x=odd_double(s); std::size_t k=s.len(30); auto w=v; w.resize(k,x); b.resize(k,x); bits(b,w,"resized with a value"); Array<double> c; c=a; bits(c,v,"assigned"); w=v; w.resize(k); c.resize(k); bits(c,w,"resized");
    Array<double> d(n,x); bits(d,std::vector<double>(n,x),"filled on construction"); d=a; bits(d,v,"assigned to an array of the same size"); d.fill(x); bits(d,std::vector<double>(n,x),"filled"); d.fill(v.begin()); bits(d,v,"filled from a sequence"); d.assign(w.begin(),w.end()); bits(d,w,"assigned a sequence"); Array<double> e(std::move(d)); bits(e,w,"moved"); e.swap(a); bits(e,v,"swapped"); bits(a,w,"swapped");
    Array<Wrapped> o(n); for(std::size_t i=0;i!=n;++i) { o[i].v=static_cast<int>(i); } Array<Wrapped> p(o); p.resize(n+1); REQUIRE_EQ(p.size(),n+1,"resized"); for(std::size_t i=0;i!=n;++i) { REQUIRE_EQ(p[i].v,static_cast<int>(i),"element without an address operator"); } REQUIRE_EQ(p[n].v,0,"new element");
}
#endif

#ifdef P_C02 // ----------------------------------------------------------------
RULE(C02,"the histories of C01 on elements that own heap memory and record construction, copying and destruction; after every operation the objects alive are exactly the elements of the arrays, and at the end none is left and no memory is held; also elements without data that only count themselves; non-trivial: as C01")
PROP(C02,tracked,5) {
    Tracked::reset(); history<Tracked>(s,300,true);
    REQUIRE_EQ(Tracked::live,0L,"objects alive after the arrays are gone"); Tracked::verify("destruction"); }
PROP(C02,bulk,1) {
    Tracked::reset(); bulk_history<Tracked>(s,5000); REQUIRE_EQ(Tracked::live,0L,"objects alive after the arrays are gone"); Tracked::verify("destruction"); }
PROP(C02,uninitialised,1) {    // the elements of an uninitialised array are constructed by its user and destroyed by the array
    Tracked::reset(); { std::size_t n=s.len(100); TR("uninitialised array of " << n); if(n>=2) { s.nontrivial(); } Array<Tracked> a(n,Helper::Uninitialised()); REQUIRE_EQ(Tracked::live,0L,"objects made by an uninitialised array"); REQUIRE_EQ(a.size(),n,"size"); for(std::size_t i=0;i!=n;++i) { new (a.begin()+i) Tracked(static_cast<long>(i)); }
      Tracked::verify("placement"); REQUIRE_EQ(Tracked::live,static_cast<long>(n),"objects alive"); for(std::size_t i=0;i!=n;++i) { REQUIRE_EQ(a[i].v,static_cast<long>(i),"element"); } Array<Tracked> b(a); a.resize(s.len(100)); Tracked::verify("use"); REQUIRE_EQ(Tracked::live,static_cast<long>(n+a.size()),"objects alive"); }
    REQUIRE_EQ(Tracked::live,0L,"objects alive after the arrays are gone"); Tracked::verify("destruction"); }
//! An element without data that counts its objects; it cannot fail.
namespace { struct Blank { static inline long live=0, made=0; Blank() { ++live; ++made; } Blank(Blank const&) { ++live; ++made; } Blank(Blank&&) noexcept { ++live; ++made; } Blank& operator=(Blank const&) { return *this; } bool operator==(Blank const&) const { return true; } ~Blank() { --live; } };
//! A few numbers of which the constructor and the destructor are not trivial, though copying is.
struct Half { static inline long live=0; long a=0; Half() { ++live; } Half(Half const& o) : a(o.a) { ++live; } Half& operator=(Half const&) = default; bool operator==(Half const& o) const { return a==o.a; } ~Half() { --live; } };
template<class E> void blank_history(Src& s) {
    long before=E::live; { Array<E> a[3]; std::size_t nops=2+s.upto(12);
        for(std::size_t op=0;op!=nops;++op) { std::size_t i=s.index(3), j=s.index(3), n=s.len(40), kind=s.upto(10); std::string where="op "+std::to_string(op)+" kind "+std::to_string(kind)+" of "+std::to_string(i)+" and "+std::to_string(j)+" with "+std::to_string(n); TR(where);
            switch(kind) { case 0: a[i]=Array<E>(n); break; case 1: { Array<E> b(n,E()); a[i]=std::move(b); break; } case 2: a[i].resize(n); break; case 3: a[i].resize(n,E()); break; case 4: a[i].reallocate(n); break; case 5: a[i]=a[j]; n=a[j].size(); break; case 6: { Array<E> b(a[j]); b.swap(a[i]); n=a[i].size(); break; }
                case 7: { std::list<E> l(n); a[i]=Array<E>(l.begin(),l.end()); break; } case 8: { std::vector<E> v(n); a[i].assign(v.begin(),v.end()); break; } case 9: a[i]=Array<E>(n,[](std::size_t){ return E(); }); break; default: a[i].fill(E()); n=a[i].size(); }
            REQUIRE_EQ(a[i].size(),n,"size; " << where); REQUIRE_EQ(E::live-before,static_cast<long>(a[0].size()+a[1].size()+a[2].size()),"objects alive; " << where); if(n>=2) { s.nontrivial(); } }
    } REQUIRE_EQ(E::live,before,"objects alive after the arrays are gone"); }
}
PROP(C02,blank,1) { if(s.coin()) { blank_history<Blank>(s); } else { blank_history<Half>(s); } }
PROP(C02,handing_over,1) { handing_over(s); }
PROP(C02,trees,1) { Tracked::reset(); trees(s); REQUIRE_EQ(Tracked::live,0L,"objects alive after the arrays are gone"); Tracked::verify("destruction"); }
PROP(C02,nested,2) {    // arrays of arrays
    Tracked::reset();
    {
        Array<Array<Tracked>> a; std::vector<std::vector<long>> m; std::size_t nops=2+s.upto(8); bool multi=false;
        for(std::size_t op=0;op!=nops;++op) {
            switch(s.upto(4)) {
              case 0: { std::size_t n=s.upto(8); TR("resize " << n); a.resize(n); m.resize(n); break; }
              case 1: { if(m.empty()) { break; } std::size_t i=s.index(m.size()), n=s.upto(6); long x=static_cast<long>(s.upto(9)); TR("a[" << i << "]=Array(" << n << "," << x << ")"); a[i]=Array<Tracked>(n,Tracked(x)); m[i].assign(n,x); break; }
              case 2: { if(m.empty()) { break; } std::size_t i=s.index(m.size()), j=s.index(m.size()); TR("a[" << i << "]=a[" << j << "]"); a[i]=a[j]; auto t=m[j]; m[i]=t; break; }
              case 3: { if(m.empty()) { break; } std::size_t n=s.upto(8), j=s.index(m.size()); TR("resize " << n << " with a[" << j << "]"); auto t=m[j]; a.resize(n,a[j]); m.resize(n,t); break; }
              default: { TR("copy and back"); Array<Array<Tracked>> b(a); a=Array<Array<Tracked>>(); a=b; break; }
            }
            Tracked::verify("nested"); long want=0; REQUIRE_EQ(a.size(),m.size(),"op " << op);
            for(std::size_t i=0;i!=m.size();++i) { REQUIRE_EQ(a[i].size(),m[i].size(),"op " << op << " row " << i); want+=static_cast<long>(m[i].size()); for(std::size_t k=0;k!=m[i].size();++k) { REQUIRE_EQ(a[i][k].v,m[i][k],"op " << op); } }
            REQUIRE_EQ(Tracked::live,want,"objects alive; op " << op); if(want>3 && m.size()>1) { multi=true; }
        }
        if(multi) { s.nontrivial(); }
    }
    REQUIRE_EQ(Tracked::live,0L,"objects alive after the arrays are gone"); Tracked::verify("destruction"); }
#endif

#ifdef P_C03 // ----------------------------------------------------------------
RULE(C03,"an array is built in one of the supported ways (list of values, generator, pointer, list, forward-list, vector, deque (in several blocks), reversed and truth-value ranges, subrange, fill of every integral kind, implicit, explicit and parameterised conversions, also between all kinds of numbers) and compared element by element with what was asked for; non-trivial: two or more elements")
namespace {
struct Prec { double x; int pr; Prec(double xx, int p) : x(xx), pr(p) { } };
struct FromInt { int v; FromInt(int x) : v(x) { } };
struct ExplicitFromInt { int v; explicit ExplicitFromInt(int x) : v(x+1) { } };
struct FromIntPrec { int v; int pr; FromIntPrec(int x, int p) : v(x), pr(p) { } };
//! Made from a number and a text that it keeps, or consumes if it may.
struct Noted { double x; std::string t; Noted(double xx, std::string const& n) : x(xx), t(n) { } Noted(double xx, std::string&& n) : x(xx), t(std::move(n)) { } };
//! Made from a number and a tracked object; counts how often.
struct Counted { static inline long made=0; double x; long pr; Counted(double xx, Tracked const& p) : x(xx), pr(p.v) { p.check("parameter"); ++made; } Counted(Counted const& c) : x(c.x), pr(c.pr) { ++made; } };
static_assert(std::is_convertible_v<Array<int>,Array<FromInt>>,"an array of implicitly convertible elements converts implicitly");
}
PROP(C03,ranges,3) {
    auto v=gen_vector<int>(s,400); std::size_t i=v.empty()?0:s.index(v.size()+1), j=v.empty()?0:s.index(v.size()+1); if(i>j) { std::swap(i,j); }
    std::vector<int> w(v.begin()+static_cast<long>(i),v.begin()+static_cast<long>(j)); TR("range " << show(w)); if(w.size()>=2) { s.nontrivial(); }
    switch(s.upto(7)) {
      case 5: { std::deque<int> d; std::size_t front=s.upto(200); for(std::size_t k=0;k!=front;++k) { d.push_back(-1); } for(int x : w) { d.push_back(x); } std::size_t many=s.coin()?0:s.upto(700); std::vector<int> u(w); for(std::size_t k=0;k!=many;++k) { d.push_back(static_cast<int>(k)); u.push_back(static_cast<int>(k)); } Array<int> a(d.begin()+static_cast<long>(front),d.end()); same(a,u,"deque iterators"); Array<int> b; b.assign(d.begin()+static_cast<long>(front),d.end()); same(b,u,"assigned from deque iterators"); Array<int> c(u.size()); c.fill(d.begin()+static_cast<long>(front)); same(c,u,"filled from deque iterators"); break; }
      case 6: { Array<int> a(w.rbegin(),w.rend()); std::vector<int> u(w.rbegin(),w.rend()); same(a,u,"reversed iterators"); Array<int> c(w.size()); c.fill(w.rbegin()); same(c,u,"filled from reversed iterators"); break; }
      case 7: { std::vector<bool> q; std::vector<int> u; for(int x : w) { q.push_back(x%2!=0); u.push_back(x%2!=0); } Array<int> a(q.begin(),q.end()); same(a,u,"iterators over truth values"); break; }
      case 0: { Array<int> a(v.begin()+static_cast<long>(i),v.begin()+static_cast<long>(j)); same(a,w,"vector iterators"); break; }
      case 1: { std::list<int> l(w.begin(),w.end()); Array<int> a(l.begin(),l.end()); same(a,w,"list iterators"); break; }
      case 2: { std::forward_list<int> l(w.begin(),w.end()); Array<int> a(l.begin(),l.end()); same(a,w,"forward list iterators"); break; }
      case 3: { const int* p=v.data(); Array<int> a(p+i,p+j); same(a,w,"pointers"); break; }
      default: { Array<double> a(w.begin(),w.end()); std::vector<double> d(w.begin(),w.end()); same(a,d,"converting range"); break; }
    }
    { std::string text; for(int x : w) { text+=std::to_string(x)+" "; } std::istringstream is(text); Array<int> a(w.size(),-77); a.fill(std::istream_iterator<int>(is)); same(a,w,"filled from a single-pass sequence"); }
}
namespace { long twice(std::size_t i) { return 2*static_cast<long>(i); }
template<class F> void same_size_and(Array<long> const& a, std::size_t n, F f, const char* what) { REQUIRE_EQ(a.size(),n,what); for(std::size_t i=0;i!=n;++i) { REQUIRE_EQ(a[i],f(i),what << ", element " << i); } } }
PROP(C03,generator,2) {
    std::size_t n=s.len(400); i64 k=s.range(-5,5), c=s.range(-9,9); std::vector<unsigned> calls(n+1,0); TR("n=" << n << " i*" << k << "+" << c); if(n>=2) { s.nontrivial(); }
    std::vector<long> want; for(std::size_t i=0;i!=n;++i) { want.push_back(static_cast<long>(i)*k+c); }
    Array<long> a(n,[&](std::size_t i)->long { if(i<n) { ++calls[i]; } else { ++calls[n]; } return static_cast<long>(i)*k+c; });
    same(a,want,"generated"); for(std::size_t i=0;i!=n;++i) { REQUIRE_EQ(calls[i],1u,"calls of the generator for index " << i); } REQUIRE_EQ(calls[n],0u,"calls outside the array");
    { Array<long> f(n,twice); same_size_and(f,n,[](std::size_t i){ return 2*static_cast<long>(i); },"function"); Array<long> p(n,&twice); same_size_and(p,n,[](std::size_t i){ return 2*static_cast<long>(i); },"pointer to a function"); std::function<long(std::size_t)> o=[=](std::size_t i){ return static_cast<long>(i)*k; }; Array<long> q(n,o); same_size_and(q,n,[=](std::size_t i){ return static_cast<long>(i)*k; },"function object"); long at=c; Array<long> m(n,[at](std::size_t) mutable { return at++; }); same_size_and(m,n,[=](std::size_t i){ return c+static_cast<long>(i); },"changing function object"); auto changing=[at](std::size_t i) mutable { at+=static_cast<long>(i); return at; }; Array<long> m1(n,changing), m2(n,changing); REQUIRE(m1==m2,"the caller's function object was changed"); Array<double> d(n,twice); REQUIRE_EQ(d.size(),n,"converted"); for(std::size_t i=0;i!=n;++i) { REQUIRE_EQ(d[i],2.0*static_cast<double>(i),"converted " << i); } }
    Array<std::string> b(n,[&](std::size_t i) { return std::to_string(want[i]); }); for(std::size_t i=0;i!=n;++i) { REQUIRE_EQ(b[i],std::to_string(want[i]),"generated string " << i); }
}
PROP(C03,bulk,1) {
    std::size_t n=s.bulk(70000); u64 seed=s.upto(255); TR("n=" << n << " seed " << seed); if(n>=2) { s.nontrivial(); } if(n>65536) { s.label("more than 65536 elements"); } auto v=hashed_vector<int>(seed,n);
    switch(s.upto(6)) { case 0: { std::forward_list<int> l(v.begin(),v.end()); Array<int> a(l.begin(),l.end()); same(a,v,"forward list"); break; } case 1: { Array<int> a(v.data(),v.data()+n); same(a,v,"pointers"); break; }
      case 2: { std::size_t calls=0; bool order=true; Array<int> a(n,[&](std::size_t i){ order=order && i==calls; ++calls; return hashed<int>(seed,i); }); same(a,v,"generated"); REQUIRE(calls==n && order,"calls of the generator: " << calls); break; }
      case 3: { Array<int> a(v.begin(),v.end()); Array<double> d(a); std::vector<double> w(v.begin(),v.end()); same(d,w,"converted"); break; } case 4: { Array<int> a(v.begin(),v.end()); Array<ExplicitFromInt> d(a); REQUIRE_EQ(d.size(),n,"explicit"); for(std::size_t i=0;i!=n;++i) { REQUIRE(d[i].v==v[i]+1,"explicit " << i); } break; }
      case 5: { Array<int> a(v.begin(),v.end()); Array<FromIntPrec> d(a,7); REQUIRE_EQ(d.size(),n,"with parameter"); for(std::size_t i=0;i!=n;++i) { REQUIRE(d[i].v==v[i] && d[i].pr==7,"with parameter " << i); } break; }
      default: { std::vector<short> w(n,static_cast<short>(seed)); Array<short> a(n,static_cast<short>(seed)); same(a,w,"filled"); Array<short> b(static_cast<unsigned>(n),static_cast<short>(seed)); same(b,w,"filled"); break; } }
}
PROP(C03,limits,1) {      // values at the limits of their types, and elements of other categories
    std::size_t n=s.len(20); TR("n=" << n); if(n>=2) { s.nontrivial(); } std::vector<long> v; for(std::size_t i=0;i!=n;++i) { v.push_back(s.num(std::numeric_limits<long>::min(),std::numeric_limits<long>::max())); }
    { Array<long> a(n,[&](std::size_t i){ return v[i]; }); same(a,v,"generated"); Array<unsigned long> u(a); for(std::size_t i=0;i!=n;++i) { REQUIRE_EQ(u[i],static_cast<unsigned long>(v[i]),"to unsigned"); } Array<short> h(a.begin(),a.end()); for(std::size_t i=0;i!=n;++i) { REQUIRE_EQ(h[i],static_cast<short>(v[i]),"to short"); } Array<bool> t(a.begin(),a.end()); for(std::size_t i=0;i!=n;++i) { REQUIRE_EQ(t[i],v[i]!=0,"to bool"); } }
    { long x=s.num(std::numeric_limits<long>::min(),std::numeric_limits<long>::max()); Array<long> a(n,x); std::vector<long> m(n,x); same(a,m,"filled"); Array<std::size_t> b(n,static_cast<std::size_t>(x)); for(auto y : b) { REQUIRE_EQ(y,static_cast<std::size_t>(x),"filled with a size"); } Array<double> d(n,x); for(auto y : d) { REQUIRE_EQ(y,static_cast<double>(x),"filled with a converted value"); } Array<long> e(n); e.fill(x); same(e,m,"fill"); }
    { Array<std::string> a(n,"text"); for(auto& y : a) { REQUIRE_EQ(y,std::string("text"),"filled with a literal"); } }
}
namespace {
//! An array of one arithmetic type made from, filled from and assigned from one of another: each element is converted as a value.
template<class B, class A> void arithmetic_pair(Array<A> const& a) {
    auto same_values=[&](Array<B> const& b, const char* what) { REQUIRE_EQ(b.size(),a.size(),what << " of elements of " << sizeof(A) << " bytes to " << sizeof(B)); for(std::size_t i=0;i!=a.size();++i) { REQUIRE(b[i]==static_cast<B>(a[i]),what << ", element " << i << " is " << +b[i] << " instead of " << +static_cast<B>(a[i])); } };
    { Array<B> b(a); same_values(b,"converted"); } { Array<B> b=a; same_values(b,"implicitly converted"); } { Array<B> b(a.begin(),a.end()); same_values(b,"from a range"); }
    { Array<B> b(a.size()); b.fill(a.begin()); same_values(b,"filled"); } { Array<B> b(a.size()/2); b.assign(a.begin(),a.end()); same_values(b,"assigned"); }
    { Array<B> b(a.size(),[&](std::size_t i){ return a[i]; }); same_values(b,"generated"); } if(a.size()!=0) { Array<B> b(a.size(),a[0]); for(auto x : b) { REQUIRE(x==static_cast<B>(a[0]),"filled with one value"); } }
}
template<class A> void arithmetic_from(Src& s, std::size_t n) {
    Array<A> a(n); for(std::size_t i=0;i!=n;++i) { i64 x=s.range(0,120); if constexpr(std::is_floating_point_v<A>) { a[i]=static_cast<A>(x)/static_cast<A>(s.coin()?1:8); } else { a[i]=static_cast<A>(x); } }
    arithmetic_pair<bool>(a); arithmetic_pair<signed char>(a); arithmetic_pair<short>(a); arithmetic_pair<int>(a); arithmetic_pair<unsigned>(a); arithmetic_pair<long>(a); arithmetic_pair<float>(a); arithmetic_pair<double>(a);
}
}
PROP(C03,arithmetic,1) {     // conversions between all pairs of arithmetic types, of the same and of other sizes
    std::size_t n=s.len(20); std::size_t k=s.upto(5); TR("type " << k << " n=" << n); if(n>=1) { s.nontrivial(); }
    switch(k) { case 0: arithmetic_from<unsigned char>(s,n); break; case 1: arithmetic_from<unsigned short>(s,n); break; case 2: arithmetic_from<int>(s,n); break; case 3: arithmetic_from<long>(s,n); break; case 4: arithmetic_from<float>(s,n); break; default: arithmetic_from<double>(s,n); break; }
}
namespace {
template<class T> T odd_value(Src& s) { if constexpr(std::is_floating_point_v<T>) { static const T d[]={T(0),-T(0),std::numeric_limits<T>::quiet_NaN(),-std::numeric_limits<T>::quiet_NaN(),std::numeric_limits<T>::infinity(),-std::numeric_limits<T>::infinity(),std::numeric_limits<T>::denorm_min(),std::numeric_limits<T>::max(),std::numeric_limits<T>::lowest(),T(1)/T(3)}; return s.pick(d); }
    else { static const T d[]={T(0),T(1),std::numeric_limits<T>::min(),std::numeric_limits<T>::max(),static_cast<T>(std::numeric_limits<T>::max()/2),static_cast<T>(' '),static_cast<T>('0')}; return s.pick(d); } }
//! The same value, including the sign of zero and of what is not a number.
template<class T> bool identical(T x, T y) { if constexpr(std::is_floating_point_v<T>) { return std::signbit(x)==std::signbit(y) && (std::isnan(x)?std::isnan(y):x==y); } else { return x==y; } }
template<class T> void exactly(Src& s) {
    std::vector<T> v; for(std::size_t i=0;i!=6;++i) { v.push_back(odd_value<T>(s)); } std::size_t k=s.upto(6); T x=odd_value<T>(s); { std::string t; for(T y : v) { std::ostringstream o; o << +y; t+=o.str()+" "; } TR("elements of " << sizeof(T) << " bytes: " << t); }
    auto check=[&](Array<T> const& a, std::vector<T> const& w, const char* what) { REQUIRE_EQ(a.size(),w.size(),what); for(std::size_t i=0;i!=w.size();++i) { REQUIRE(identical(a[i],w[i]),what << ": element " << i << " is " << +a[i] << " instead of " << +w[i]); } };
    auto lists=[&](Array<T> const& a, std::size_t n, const char* what) { check(a,std::vector<T>(v.begin(),v.begin()+static_cast<long>(n)),what); };
    switch(k) { case 0: lists(Array<T>({v[0],v[1]}),2,"list of two"); break; case 1: { Array<T> a{v[0],v[1],v[2]}; lists(a,3,"list of three"); break; } case 2: { Array<T> a={v[0],v[1],v[2],v[3]}; lists(a,4,"list of four"); break; } case 3: { Array<T> a={v[0],v[1],v[2],v[3],v[4],v[5]}; lists(a,6,"list of six"); break; } case 4: { std::initializer_list<T> l={v[0],v[1],v[2],v[3],v[4]}; Array<T> a(l); lists(a,5,"list"); break; } case 5: { Array<T> a{v[0],v[1]}; a={v[0],v[1],v[2],v[3],v[4]}; lists(a,5,"assigned list"); break; } default: { Array<T> a={v[0]}; lists(a,1,"list of one"); break; } }
    std::size_t n=s.upto(6); std::vector<T> w(v.begin(),v.begin()+static_cast<long>(n)); { Array<T> a(w.begin(),w.end()); check(a,w,"range"); } { std::list<T> l(w.begin(),w.end()); Array<T> a(l.begin(),l.end()); check(a,w,"range of a list"); } if constexpr(!std::is_same_v<T,bool>) { Array<T> a(w.data(),w.data()+n); check(a,w,"pointers"); } { Array<T> a(n,[&](std::size_t i){ return w[i]; }); check(a,w,"generated"); } { std::vector<T> f(n,x); Array<T> a(n,x); check(a,f,"filled on construction"); Array<T> b(n); b.fill(x); check(b,f,"filled"); b.fill(w.begin()); check(b,w,"filled from a sequence"); }
    if constexpr(std::is_same_v<T,float>) { Array<float> a(w.begin(),w.end()); Array<double> d(a); REQUIRE_EQ(d.size(),n,"converted"); for(std::size_t i=0;i!=n;++i) { REQUIRE(identical(d[i],static_cast<double>(w[i])),"converted element " << i << " is " << d[i] << " instead of " << w[i]); } }
}
}
PROP(C03,exact,2) {      // every value comes through as it is, whatever it compares equal to
    s.nontrivial(); switch(s.upto(9)) { case 0: exactly<float>(s); break; case 1: case 2: exactly<double>(s); break; case 3: exactly<long double>(s); break; case 4: exactly<char>(s); break; case 5: exactly<bool>(s); break; case 6: exactly<short>(s); break; case 7: exactly<unsigned char>(s); break; case 8: exactly<int>(s); break; default: exactly<unsigned long>(s); break; }
}
PROP(C03,lists,1) {
    int x=s.irange(-50,50), y=s.irange(-50,50), z=s.irange(-50,50); s.nontrivial(); TR(x << "," << y << "," << z);
    { Array<int> a({}); std::vector<int> m; Array<int> e; same(e,m,"empty"); (void)a; }
    { Array<int> a{x}; std::vector<int> m{x}; same(a,m,"one"); }
    { Array<int> a={x,y}; std::vector<int> m{x,y}; same(a,m,"two"); }
    { Array<int> a({x,y,z,x}); std::vector<int> m{x,y,z,x}; same(a,m,"four"); }
    { std::string p=Make<std::string>::from(x), q=Make<std::string>::from(y); Array<std::string> a({p,q,p}); std::vector<std::string> m{p,q,p}; same(a,m,"strings"); }
    { int pr=s.irange(0,99); Array<Prec> a({0.5*x,0.25*y},pr); REQUIRE(a.size()==2u && a[0].x==0.5*x && a[1].x==0.25*y && a[0].pr==pr && a[1].pr==pr,"list with a precision"); }
    { std::string note=s.coin()?"a note that is longer than a small string can hold "+std::to_string(x):"n"+std::to_string(x), kept=note; auto check=[&](Array<Noted> const& a, std::vector<double> const& m, const char* what){ REQUIRE_EQ(a.size(),m.size(),what); for(std::size_t i=0;i!=m.size();++i) { REQUIRE(a[i].x==m[i] && a[i].t==kept,what << ", element " << i << ": " << a[i].x << " " << a[i].t); } REQUIRE_EQ(note,kept,"the parameter"); };
      { Array<Noted> a({},note); check(a,{},"empty list with a text"); } { Array<Noted> a({0.5*x},note); check(a,{0.5*x},"list of one with a text"); } { Array<Noted> a({0.5*x,1.5*y,1.0*z},note); check(a,{0.5*x,1.5*y,1.0*z},"list of three with a text"); } { Array<Noted> a({1.0*x,0.5*x,1.5*y,1.0*z,-1.0*x,7.0,8.0},note); check(a,{1.0*x,0.5*x,1.5*y,1.0*z,-1.0*x,7.0,8.0},"list of seven with a text"); } { Array<Noted> a({1.0*x,2.0*y,3.0*z},std::string(kept)); check(a,{1.0*x,2.0*y,3.0*z},"list of three with a temporary text"); }
      Tracked::reset(); { Tracked p(x); Counted::made=0; Array<Counted> a({0.5*x,1.5*y,1.0*z,-1.0*y},p); REQUIRE_EQ(Counted::made,4L,"constructions of the elements"); REQUIRE(a[0].x==0.5*x && a[1].x==1.5*y && a[2].x==1.0*z && a[3].x==-1.0*y,"list with a parameter"); for(auto const& c : a) { REQUIRE_EQ(c.pr,static_cast<long>(x),"parameter"); } } Tracked::verify("list with a parameter"); REQUIRE_EQ(Tracked::live,0L,"parameters left"); }
}
PROP(C03,integral_fill,2) {
    std::size_t n=s.len(300); i64 x=s.range(-100,100); TR("n=" << n << " x=" << x); if(n>=2) { s.nontrivial(); }
    auto t=[&]<class T,class N>(T v, N k) { Array<T> a(k,v); std::vector<T> m(static_cast<std::size_t>(k),v); same(a,m,"fill constructor"); Array<T> b(static_cast<std::size_t>(k)); b.fill(v); same(b,m,"fill"); };
    t(static_cast<int>(x),n); t(static_cast<int>(x),static_cast<int>(n)); t(static_cast<std::size_t>(x+100),n); t(static_cast<long>(x),static_cast<long>(n)); t(static_cast<unsigned>(x+100),static_cast<unsigned>(n));
    t(static_cast<char>(x),n); t(x%2==0,n); t(static_cast<double>(x)/8,n); t(static_cast<short>(x),static_cast<int>(n));
}
PROP(C03,conversion,3) {
    auto v=gen_vector<int>(s,200); int pr=s.irange(-9,9); TR(show(v)); if(v.size()>=2) { s.nontrivial(); }
    Array<int> a(v.begin(),v.end());
    { Array<double> d=a; std::vector<double> m(v.begin(),v.end()); same(d,m,"implicit to double"); }
    { Array<FromInt> d=a; REQUIRE_EQ(d.size(),v.size(),"implicit"); for(std::size_t i=0;i!=v.size();++i) { REQUIRE_EQ(d[i].v,v[i],"implicit " << i); } }
    { Array<ExplicitFromInt> d(a); REQUIRE_EQ(d.size(),v.size(),"explicit"); for(std::size_t i=0;i!=v.size();++i) { REQUIRE_EQ(d[i].v,v[i]+1,"explicit " << i); } }
    { Array<FromIntPrec> d(a,pr); REQUIRE_EQ(d.size(),v.size(),"with parameter"); for(std::size_t i=0;i!=v.size();++i) { REQUIRE_EQ(d[i].v,v[i],"with parameter " << i); REQUIRE_EQ(d[i].pr,pr,"parameter " << i); } }
    { std::string note=s.coin()?"a note that is longer than a small string can hold":"n", kept=note; Array<Noted> d(a,note); REQUIRE_EQ(d.size(),v.size(),"with text"); for(std::size_t i=0;i!=v.size();++i) { REQUIRE(d[i].x==v[i] && d[i].t==kept,"with text, element " << i); } REQUIRE_EQ(note,kept,"the parameter"); Array<Noted> e(a,std::string(kept)); REQUIRE_EQ(e.size(),v.size(),"with text"); for(std::size_t i=0;i!=v.size();++i) { REQUIRE(e[i].x==v[i] && e[i].t==kept,"with temporary text, element " << i); } }
    same(a,v,"the source of the conversions");
}
#endif

#ifdef P_C04 // ----------------------------------------------------------------
RULE(C04,"an operation that needs new storage or new elements is made to fail (the k-th allocation fails, the k-th element construction or copy throws, or the size is too large for memory or for size_t), after which every array must hold what it held before the operation (a same-size assignment: its size), no object and no memory may be lost, and the arrays must still work; non-trivial: the failure happened")
namespace {
std::size_t huge(Src& s, std::size_t elem) {
    std::size_t M=~std::size_t(0);
    switch(s.upto(4)) { case 0: return M/elem-s.upto(3); case 1: return M/elem+1+s.upto(40); case 2: return M-s.upto(3); case 3: return (std::size_t(1)<<(48+s.upto(15)))+s.upto(40); default: return M/2+s.upto(40); }
}
template<class T> std::vector<T> named(std::size_t n, long base) { std::vector<T> v; for(std::size_t i=0;i!=n;++i) { v.push_back(Make<T>::from(base+static_cast<long>(i%50))); } return v; }
}
PROP(C04,tracked,6) {
    Tracked::reset(); long base_blocks=live_blocks;
    {
        std::size_t n=s.upto(s.coin()?6:40), k=s.upto(s.coin()?6:40), at=s.upto(n+k+3)+1; bool alloc=s.coin(); std::size_t kind=s.upto(13);
        auto va=named<Tracked>(n,100), vb=named<Tracked>(k,200);
        Array<Tracked> a(va.begin(),va.end()), b(vb.begin(),vb.end()); Tracked x(7); bool failed=false, same_size=false, in_part=false;
        TR("a has " << n << " b has " << k << "; " << (alloc?"allocation ":"construction ") << at << " fails; operation " << kind);
        long live=Tracked::live; long blocks=live_blocks; std::initializer_list<Tracked> il={x,x,x}; long live_il=Tracked::live-live;
        long blocks_il=live_blocks-blocks;
        {
            Array<Tracked>* made=nullptr; alignas(Array<Tracked>) unsigned char room[sizeof(Array<Tracked>)];
            if(alloc) { alloc_fault_fired=false; alloc_countdown=static_cast<long>(at); } else { Tracked::throw_in=static_cast<long>(at); }
            try { switch(kind) {
                case 0: a.resize(k); break;                case 1: a.resize(k,x); break;      case 2: same_size=(n==k); a.reallocate(k); break;
                case 3: same_size=(n==k); a=b; break;      case 4: made=new(room) Array<Tracked>(b); break;
                case 5: made=new(room) Array<Tracked>(k); break; case 6: made=new(room) Array<Tracked>(k,x); break;
                case 7: made=new(room) Array<Tracked>(vb.begin(),vb.end()); break;
                case 8: made=new(room) Array<Tracked>(k,[&](std::size_t i){ return Tracked(static_cast<long>(i)); }); break;
                case 9: made=new(room) Array<Tracked>(il); break;
                case 10: if(n!=0) { a.resize(k,a[0]); } break;
                case 11: in_part=true; a.assign(vb.begin(),vb.end()); break;
                case 12: { if(n==0) { break; } in_part=true; std::size_t from=k%n; a.fill(a[from]); break; }
                default: in_part=true; a.fill(x); break; } }
            catch(std::bad_alloc const&) { failed=true; } catch(Boom const&) { failed=true; }
            alloc_countdown=0; Tracked::throw_in=0;
            Tracked::verify("failing operation");
            if(failed) {
                s.nontrivial(); s.label(alloc?"allocation failed":"construction failed");
                REQUIRE(made==nullptr,"made");
                long resized=a.size()!=n ? static_cast<long>(a.size())-static_cast<long>(n) : 0; REQUIRE_EQ(Tracked::live,live+live_il+resized,"objects alive after the failure");
                if(resized==0) { REQUIRE_EQ(live_blocks,blocks+blocks_il,"memory blocks held after the failure"); }
                if(in_part) { // each element is the old one or the new one, a failed allocation changed nothing
                    if(kind!=11) { REQUIRE_EQ(a.size(),n,"size after a failed fill"); } else if(a.size()!=n) { REQUIRE_EQ(a.size(),k,"size after a failed assignment"); REQUIRE(!alloc,"size after a failed allocation"); }
                    for(std::size_t i=0;i!=a.size();++i) { long y=a[i].v; REQUIRE((i<n && y==va[i].v) || (kind==11?i<k && y==vb[i].v:kind==12?y==va[k%n].v:y==x.v) || (kind==11 && i>=n && y==0),"element " << i << " after a failed assignment in place is " << y); } }
                else if(same_size) { REQUIRE_EQ(a.size(),n,"size after a failed assignment of the same size"); } else { same(a,va,"array after the failed operation"); }
                same(b,vb,"argument after the failed operation");
            } else if(made) { made->~Array<Tracked>(); }
        }
        a=b; same(a,vb,"assigned afterwards"); a.resize(n,x); REQUIRE_EQ(a.size(),n,"resized afterwards"); Tracked::verify("afterwards");
    }
    REQUIRE_EQ(Tracked::live,0L,"objects alive at the end"); REQUIRE_EQ(live_blocks,base_blocks,"memory held at the end"); Tracked::verify("end");
}
namespace {
//! Made from a long, or from a long and a tracked object; fails like a tracked object.
struct Later : Tracked { explicit Later(long x) : Tracked(x) { } Later(double x, Tracked const& t) : Tracked(static_cast<long>(x)+t.v) { } };
}
PROP(C04,handing_over,1) { handing_over(s); }
PROP(C04,conversions,2) {     // arrays made from other arrays and from lists with a parameter
    Tracked::reset(); long base_blocks=live_blocks;
    {
        std::size_t n=s.upto(s.coin()?6:40), at=s.upto(n+3)+1, kind=s.upto(5); bool alloc=s.coin(), failed=false; std::vector<long> v; for(std::size_t i=0;i!=n;++i) { v.push_back(static_cast<long>(i)*3-7); } Array<long> a(v.begin(),v.end()); Tracked p(5); std::string where="kind "+std::to_string(kind)+" from "+std::to_string(n)+" elements, "+(alloc?"allocation ":"construction ")+std::to_string(at)+" fails"; TR(where);
        long live=Tracked::live, blocks=live_blocks; if(alloc) { alloc_fault_fired=false; alloc_countdown=static_cast<long>(at); } else { Tracked::throw_in=static_cast<long>(at); }
        auto made=[&](Array<Later> const& b, std::size_t size, std::size_t from, long plus){ alloc_countdown=0; Tracked::throw_in=0; REQUIRE_EQ(b.size(),size,where); for(std::size_t i=0;i!=size;++i) { REQUIRE_EQ(b[i].v,(from?static_cast<long>(i+1):v[i])+plus,"element " << i << "; " << where); } };
        try { switch(kind) { case 0: { Array<Later> b(a); made(b,n,0,0); break; } case 1: { Array<Later> b(a,p); made(b,n,0,5); break; } case 2: { Array<Later> b({1.0,2.0,3.0,4.0},p); made(b,4,1,5); break; }
              case 3: { Array<Later> b(n,[p](std::size_t i){ return Later(1.0+static_cast<double>(i),p); }); made(b,n,1,5); break; } case 4: { std::string note(40,'x'); Array<std::size_t> b(n,[note](std::size_t i){ return note.size()+i; }); alloc_countdown=0; Tracked::throw_in=0; REQUIRE_EQ(b.size(),n,where); for(std::size_t i=0;i!=n;++i) { REQUIRE_EQ(b[i],40+i,where); } break; } default: { Array<Later> b(v.begin(),v.end()); made(b,n,0,0); break; } } }
        catch(std::bad_alloc const&) { failed=true; } catch(Boom const&) { failed=true; } alloc_countdown=0; Tracked::throw_in=0; if(failed) { s.nontrivial(); s.label(alloc?"allocation failed":"construction failed"); }
        REQUIRE_EQ(Tracked::live,live,"objects alive after the " << (failed?"failure":"conversion")); REQUIRE_EQ(live_blocks,blocks,"memory held after the " << (failed?"failure":"conversion")); same(a,v,"the source"); Tracked::verify("conversion");
    }
    REQUIRE_EQ(Tracked::live,0L,"objects alive at the end"); REQUIRE_EQ(live_blocks,base_blocks,"memory held at the end"); Tracked::verify("end");
}
PROP(C04,sizes,3) {
    auto t=[&]<class T>(T x) {
        auto v=named<T>(s.upto(20),3); Array<T> a(v.begin(),v.end()); std::size_t n=huge(s,sizeof(T)), kind=s.upto(4); if(n<(std::size_t(1)<<40)) { return; } bool failed=false;
        TR("element size " << sizeof(T) << ", array of " << v.size() << ", operation " << kind << " with n=" << n); s.nontrivial();
        try { switch(kind) { case 0: a.resize(n); break; case 1: a.resize(n,x); break; case 2: a.reallocate(n); break; case 3: { Array<T> b(n); break; } default: { Array<T> b(n,x); break; } } }
        catch(std::exception const&) { failed=true; }
        REQUIRE(failed,"an array of " << n << " elements of " << sizeof(T) << " bytes was made without an exception");
        same(a,v,"array after the failed operation"); a.resize(v.size()+1,x); REQUIRE(a[v.size()]==x,"resized afterwards"); };
    switch(s.upto(2)) { case 0: t(long(5)); break; case 1: t(std::string("five")); break; default: t(Tracked(5)); break; }
}
#endif

#ifdef P_C05 // ----------------------------------------------------------------
RULE(C05,"4..24 random operations on four shared-array handles (construct with size, fill or list, copy, assign, self-assign, write through a handle, destroy) against a model in which handles share a vector; after every operation every handle is compared in full, and the objects alive are exactly the elements of the arrays still referred to; non-trivial: a write through one of two handles that share")
namespace {
template<class T> void shared_history(Src& s, bool lifetimes) {
    struct H { SharedArray<T>* p=nullptr; std::vector<T>* m=nullptr; };
    std::vector<std::vector<T>*> blocks; std::vector<H> h(4); std::size_t nops=4+s.upto(20); bool shared_write=false;
    struct Cleanup { std::vector<H>& h; std::vector<std::vector<T>*>& b; ~Cleanup() { for(auto& x : h) { delete x.p; } for(auto p : b) { delete p; } } } cleanup{h,blocks};
    auto used=[&](std::vector<T>* m){ std::size_t c=0; for(auto& x : h) { if(x.m==m) { ++c; } } return c; };
    auto drop=[&](std::vector<T>* m){ if(m && used(m)==0) { for(std::size_t i=0;i!=blocks.size();++i) { if(blocks[i]==m) { blocks.erase(blocks.begin()+static_cast<long>(i)); break; } } delete m; } };
    for(std::size_t op=0;op!=nops;++op) {
        std::size_t i=s.index(4), j=s.index(4); std::string where="op "+std::to_string(op)+" h"+std::to_string(i);
        std::size_t kind=s.upto(10);
        if(kind>=7) { for(std::size_t q=1;q<4;++q) { if(h[(i+q)%4].p) { j=(i+q)%4; } } kind = kind==10 ? 4 : h[i].p ? 3 : 2; }    // share with another handle
        switch(kind) {
          case 0: { std::size_t n=s.len(100); T x=gen_value<T>(s); where+=" = new array of "+std::to_string(n)+" filled with "+show(x); TR(where);
                delete h[i].p; h[i].p=nullptr; auto o=h[i].m; h[i].m=nullptr; drop(o); h[i].p=new SharedArray<T>(n,x); h[i].m=new std::vector<T>(n,x); blocks.push_back(h[i].m); break; }
          case 1: { T x=gen_value<T>(s), y=gen_value<T>(s); where+=" = new array from a list"; TR(where); delete h[i].p; h[i].p=nullptr; auto o=h[i].m; h[i].m=nullptr; drop(o);
                if(s.coin()) { h[i].p=new SharedArray<T>({x,y,x}); h[i].m=new std::vector<T>{x,y,x}; } else { h[i].p=new SharedArray<T>(std::initializer_list<T>{}); h[i].m=new std::vector<T>(); } blocks.push_back(h[i].m); break; }
          case 2: { if(!h[j].p || i==j) { break; } where+=" copied from h"+std::to_string(j); TR(where); delete h[i].p; h[i].p=nullptr; auto o=h[i].m; h[i].m=nullptr; if(o!=h[j].m) { drop(o); } h[i].p=new SharedArray<T>(*h[j].p); h[i].m=h[j].m; break; }
          case 3: { if(!h[j].p || !h[i].p) { break; } where+=" assigned h"+std::to_string(j); TR(where); auto o=h[i].m; SharedArray<T>& r=(*h[i].p=*h[j].p); REQUIRE(&r==h[i].p,where); h[i].m=h[j].m; if(o!=h[i].m) { drop(o); } break; }
          case 4: { if(!h[i].p) { break; } where+=" destroyed"; TR(where); if(used(h[i].m)>1) { s.label("released while shared"); } delete h[i].p; h[i].p=nullptr; auto o=h[i].m; h[i].m=nullptr; drop(o); break; }
          default: { if(!h[i].p || h[i].m->empty()) { break; } std::size_t k=s.index(h[i].m->size()); T x=gen_value<T>(s); where+="["+std::to_string(k)+"] = "+show(x); TR(where); if(used(h[i].m)>1) { shared_write=true; }
                if(s.coin()) { (*h[i].p)[k]=x; } else { *(h[i].p->begin()+static_cast<long>(k))=x; } (*h[i].m)[k]=x; break; }
        }
        for(std::size_t k=0;k!=4;++k) if(h[k].p) {
            SharedArray<T>& a=*h[k].p; SharedArray<T> const& c=a; auto& m=*h[k].m; REQUIRE_EQ(a.size(),m.size(),where << " (h" << k << ")");
            REQUIRE(static_cast<std::size_t>(a.end()-a.begin())==m.size() && static_cast<std::size_t>(c.end()-c.begin())==m.size(),where);
            for(std::size_t q=0;q!=m.size();++q) { if(!(a[q]==m[q] && c[q]==m[q] && *(c.begin()+static_cast<long>(q))==m[q])) { FAIL("h" << k << "[" << q << "] is " << show(a[q]) << ", expected " << show(m[q]) << "; " << where); } } }
        if constexpr(std::is_same_v<T,Tracked>) { Tracked::verify(where.c_str()); if(lifetimes) { long want=0; for(auto b : blocks) { want+=2*static_cast<long>(b->size()); } REQUIRE_EQ(Tracked::live,want,"objects alive; " << where); } }
    }
    if(shared_write) { s.label("write through a shared handle"); s.nontrivial(); }
}
}
namespace {
struct SNode { Tracked t; SharedArray<SNode> ch; SNode() : t(0), ch(0) { } };
std::size_t plant(Src& s, SharedArray<SNode>& a, std::size_t depth) { std::size_t n=a.size(); for(std::size_t i=0;i!=a.size();++i) { a[i].t=Tracked(static_cast<long>(s.upto(99))); if(depth>0 && s.chance(2,3)) { SharedArray<SNode> b(1+s.upto(1)); n+=plant(s,b,depth-1); a[i].ch=b; } } return n; }
void values(SharedArray<SNode> const& a, std::vector<long>& v) { v.push_back(-static_cast<long>(a.size())-1); for(std::size_t i=0;i!=a.size();++i) { v.push_back(a[i].t.v); values(a[i].ch,v); } }
std::size_t nodes(SharedArray<SNode> const& a) { std::size_t n=a.size(); for(std::size_t i=0;i!=a.size();++i) { n+=nodes(a[i].ch); } return n; }
}
PROP(C05,trees,1) {     // a handle assigned from one that its own elements hold
    Tracked::reset(); { SharedArray<SNode> a(1+s.upto(2)); plant(s,a,5); bool keep=s.coin(); SharedArray<SNode> other=keep?a:SharedArray<SNode>(0); std::vector<long> all; values(a,all); std::size_t total=nodes(a); TR("tree " << show(all) << (keep?", shared":"")); std::size_t steps=0;
      while(a.size()!=0) { std::size_t i=s.index(a.size()); TR("a = a[" << i << "].ch"); std::vector<long> want, got; values(a[i].ch,want); std::size_t left=nodes(a[i].ch); if(a[i].ch.size()!=0) { ++steps; } SharedArray<SNode>& r=(a=a[i].ch); REQUIRE(&r==&a,"result of the assignment"); Tracked::verify("a=a[i].ch"); values(a,got); REQUIRE(got==want,"contents are " << show(got) << ", expected " << show(want) << " after " << steps << " assignments"); REQUIRE_EQ(Tracked::live,static_cast<long>(keep?total:left),"nodes alive"); }
      if(steps>=2) { s.nontrivial(); s.label("assigned from an own element"); } if(keep) { std::vector<long> got; values(other,got); REQUIRE(got==all,"the other handle changed"); } }
    REQUIRE_EQ(Tracked::live,0L,"objects alive at the end"); }
PROP(C05,many,1) {     // many handles to one array
    Tracked::reset(); { std::size_t n=1+s.bulk(s.chance(1,8)?70000:2000), size=s.upto(3); long x=static_cast<long>(s.upto(9)); TR(n << " handles to " << size << " elements"); if(n>256) { s.label("more than 256 handles"); s.nontrivial(); } if(n>65536) { s.label("more than 65536 handles"); }
      std::vector<SharedArray<Tracked>> h; h.reserve(n+1); { SharedArray<Tracked> a(size,Tracked(x)); h.push_back(a); } bool by_assignment=s.coin(); SharedArray<Tracked> other(1,Tracked(-1));
      for(std::size_t i=1;i<n;++i) { if(by_assignment) { h.push_back(other); h.back()=h[i/2]; } else { h.push_back(h[i/2]); } }
      REQUIRE_EQ(Tracked::live,static_cast<long>(size+1),"objects alive with " << n << " handles"); Tracked::verify("sharing"); if(size) { h[n/2][size-1]=Tracked(x+1); REQUIRE_EQ(h.front()[size-1].v,x+1,"written through another handle"); REQUIRE_EQ(h.back()[size-1].v,x+1,"written through another handle"); }
      std::size_t keep=1+s.upto(n-1); bool assign_away=s.coin(); if(assign_away) { for(std::size_t i=keep;i<n;++i) { h[i]=other; } } else { h.erase(h.begin()+static_cast<long>(keep),h.end()); } REQUIRE_EQ(Tracked::live,static_cast<long>(size+1),"objects alive with " << keep << " of " << n << " handles left"); for(std::size_t i : {std::size_t(0),keep-1}) { REQUIRE_EQ(h[i].size(),size,"size"); if(size) { REQUIRE_EQ(h[i][size-1].v,x+1,"element"); } } REQUIRE_EQ(other[0].v,-1L,"unrelated array");
      h.clear(); REQUIRE_EQ(Tracked::live,1L,"objects alive when the last handle is gone"); Tracked::verify("release"); }
    REQUIRE_EQ(Tracked::live,0L,"objects alive at the end"); }
PROP(C05,failing,1) {     // a shared array that cannot be made leaves nothing behind
    Tracked::reset(); long blocks=live_blocks; { std::size_t n=s.len(20), at=1+s.upto(2*n+3), kind=s.upto(2); bool alloc=s.coin(), failed=false; Tracked x(7); std::initializer_list<Tracked> il={x,x,x}; SharedArray<Tracked> keep(2,x); long live=Tracked::live, b=live_blocks; TR("size " << n << ", " << (alloc?"allocation ":"construction ") << at << " fails, way " << kind);
      if(alloc) { alloc_fault_fired=false; alloc_countdown=static_cast<long>(at); } else { Tracked::throw_in=static_cast<long>(at); }
      try { if(kind==0) { SharedArray<Tracked> a(n); } else if(kind==1) { SharedArray<Tracked> a(n,x); } else { SharedArray<Tracked> a(il); } } catch(std::bad_alloc const&) { failed=true; } catch(Boom const&) { failed=true; } alloc_countdown=0; Tracked::throw_in=0;
      if(failed) { s.nontrivial(); s.label("the failure happened"); } REQUIRE_EQ(Tracked::live,live,"objects alive after " << (failed?"the failure":"use")); REQUIRE_EQ(live_blocks,b,"memory held after " << (failed?"the failure":"use")); REQUIRE(keep[0].v==7 && keep[1].v==7,"another array"); Tracked::verify("failure"); }
    REQUIRE_EQ(Tracked::live,0L,"objects alive at the end"); REQUIRE_EQ(live_blocks,blocks,"memory held at the end"); }
PROP(C05,int,1) { shared_history<int>(s,false); }
PROP(C05,string,1) { shared_history<std::string>(s,false); }
PROP(C05,tracked,2) { Tracked::reset(); shared_history<Tracked>(s,true); REQUIRE_EQ(Tracked::live,0L,"objects alive at the end"); Tracked::verify("end"); }
#endif

#ifdef P_C06 // ----------------------------------------------------------------
RULE(C06,"a size and an increasing selection of indices below it; the complement must be the increasing list of the other indices; non-trivial: some but not all indices selected")
PROP(C06,random,1) {
    std::size_t n=s.len(400); std::vector<std::size_t> in, out; unsigned d=static_cast<unsigned>(s.upto(4));
    for(std::size_t i=0;i!=n;++i) { bool b = d==0 ? s.coin() : d==1 ? s.chance(1,8) : d==2 ? s.chance(7,8) : d==3 ? false : true; (b?in:out).push_back(i); }
    TR("n=" << n << " " << show(in)); if(!in.empty() && !out.empty()) { s.nontrivial(); }
    Array<std::size_t> vars(in.begin(),in.end()); Array<std::size_t> c=Helper::complement(n,vars); same(c,out,"complement"); same(vars,in,"argument");
    Array<std::size_t> cc=Helper::complement(n,c); same(cc,in,"complement of the complement");
}
PROP(C06,bulk,1) {
    std::size_t n=s.bulk(70000); u64 seed=s.upto(255), per=s.upto(4); static const u64 of[]={2,16,1000,3,65536}; bool invert=s.coin(); std::vector<std::size_t> in, out; for(std::size_t i=0;i!=n;++i) { bool b=(Src::mix(seed+i*977)%of[per]==0)!=invert; (b?in:out).push_back(i); } TR("n=" << n << ", one in " << of[per] << (invert?" not":"") << " selected, seed " << seed); if(!in.empty() && !out.empty()) { s.nontrivial(); } if(n>65536) { s.label("more than 65536 indices"); }
    Array<std::size_t> vars(in.begin(),in.end()); Array<std::size_t> c=Helper::complement(n,vars); same(c,out,"complement");
}
PROP(C06,small,1) {   // every selection of up to 10 indices
    std::size_t n=s.upto(10), bits=s.upto((std::size_t(1)<<n)-1); std::vector<std::size_t> in, out; for(std::size_t i=0;i!=n;++i) { ((bits>>i)&1?in:out).push_back(i); }
    TR("n=" << n << " " << show(in)); if(!in.empty() && !out.empty()) { s.nontrivial(); }
    Array<std::size_t> vars(in.begin(),in.end()); Array<std::size_t> c=Helper::complement(n,vars); same(c,out,"complement");
}
#endif
