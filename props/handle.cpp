// Handles: value semantics of shared polymorphic objects; casts; writing.
#include "../engine/pbt.hpp"
#include <iomanip>
#include <iostream>
#include <cstdlib>
#include <map>
#include <typeinfo>
#include "handle.hpp"
#include "writable.hpp"
#include <sstream>

using namespace pbt;
using Helper::Handle;

namespace {
//! Polymorphic objects that count themselves.
struct Base {
    static inline long live=0, copies=0; static inline const char* error=nullptr;
    unsigned magic=0x600DF00Du;
    Base() { ++live; } Base(Base const& b) { b.check(); ++live; ++copies; }
    Base& operator=(Base const&) = default;
    virtual ~Base() { check(); magic=0; --live; }
    void check() const { if(magic!=0x600DF00Du) { error="an object that does not exist was used"; } }
    virtual Base* clone() const = 0; virtual Base* _copy() const = 0; virtual Base* _move() = 0;
    virtual int kind() const = 0; virtual long get() const = 0; virtual void set(long) = 0;
    static void reset() { live=0; copies=0; error=nullptr; }
};
struct Other { virtual ~Other() = default; virtual long twice() const = 0; };
struct A : Base { long v; explicit A(long x) : v(x) { } A(long x, long y) : v(x+y) { }
    A* clone() const override { return new A(*this); } A* _copy() const override { return new A(*this); } A* _move() override { return new A(std::move(*this)); }
    int kind() const override { return 0; } long get() const override { check(); return v; } void set(long x) override { check(); v=x; } };
struct B : Base, Other { std::string t; explicit B(long x) : t(std::to_string(x)) { }
    B* clone() const override { return new B(*this); } B* _copy() const override { return new B(*this); } B* _move() override { return new B(*this); }
    int kind() const override { return 1; } long get() const override { check(); return std::stol(t); } void set(long x) override { check(); t=std::to_string(x); } long twice() const override { return 2*get(); } };
struct AA : A { explicit AA(long x) : A(x) { } AA* clone() const override { return new AA(*this); } AA* _copy() const override { return new AA(*this); } AA* _move() override { return new AA(*this); } int kind() const override { return 2; } };
}

#ifdef P_C20
RULE(C20,"2..20 random operations on four handles to objects of three classes (constructed in every supported way, copied, moved, assigned, converted to a handle of a base class, changed through each accessor) and on shared pointers kept outside, against a model in which every handle has its own value; after every operation every handle's class and value are compared, copying and reading must not copy objects, and at the end none is left; up to 70000 handles to one object; non-trivial: a handle was changed while another referred to the same object")
PROP(C20,history,1) {
    Base::reset();
    {
        struct M { bool has=false; int kind=0; long v=0; int obj=-1; }; std::unique_ptr<Handle<Base>> h[4]; M m[4]; std::vector<std::pair<std::shared_ptr<const Base>,std::pair<int,long>>> kept; int next=0; std::size_t nops=2+s.upto(18);
        auto made=[&](int k, long v){ M r; r.has=true; r.kind=k; r.v=v; r.obj=next++; return r; };
        for(std::size_t op=0;op!=nops;++op) {
            std::size_t i=s.index(4), j=s.index(4); long v=s.irange(-99,99); std::string where="op "+std::to_string(op)+" h"+std::to_string(i);
            long copies=Base::copies; bool no_copies=false; std::size_t kind=s.upto(19);
            if(kind<=8) { where+=" = new object, way "+std::to_string(kind)+", value "+std::to_string(v); TR(where); }
            switch(kind) {
              case 0: h[i].reset(new Handle<Base>(A(v))); m[i]=made(0,v); break;
              case 1: { A a(v); h[i].reset(new Handle<Base>(static_cast<A const&>(a))); a.v=777; m[i]=made(0,v); break; }
              case 2: h[i].reset(new Handle<Base>(static_cast<Base*>(new B(v)))); m[i]=made(1,v); break;
              case 3: { std::shared_ptr<Base> p(new AA(v)); h[i].reset(new Handle<Base>(p)); m[i]=made(2,v); if(kept.size()<6) { kept.push_back({p,{2,v}}); } break; }
              case 4: { AA a(v); Base const& r=a; h[i].reset(new Handle<Base>(r)); a.v=777; m[i]=made(2,v); break; }
              case 5: { B b(v); Base& r=b; h[i].reset(new Handle<Base>(std::move(r))); m[i]=made(1,v); break; }
              case 6: { Handle<A> a=Helper::make_handle<A>(v-1,1); h[i].reset(new Handle<Base>(a)); m[i]=made(0,v); if(s.coin()) { a.ref().set(888); } break; }
              case 7: { Handle<AA> a{AA(v)}; Handle<A> b(a); h[i].reset(new Handle<Base>(b)); m[i]=made(2,v); break; }
              case 8: { B b(v); h[i].reset(new Handle<Base>(static_cast<B const&>(b))); b.set(777); m[i]=made(1,v); break; }
              case 9: case 10: { if(!m[j].has || i==j) { break; } where+=" copied from h"+std::to_string(j); TR(where); no_copies=true; h[i].reset(new Handle<Base>(*h[j])); m[i]=m[j]; break; }
              case 11: { if(!m[j].has || !m[i].has) { break; } where+=" assigned h"+std::to_string(j); TR(where); no_copies=true; *h[i]=*h[j]; m[i]=m[j]; break; }
              case 12: { if(!m[j].has || !m[i].has || i==j) { break; } where+=" move-assigned h"+std::to_string(j); TR(where); no_copies=true; *h[i]=std::move(*h[j]); m[i]=m[j]; h[j].reset(); m[j]=M(); break; }
              case 13: { if(!m[i].has) { break; } where+=" dropped"; TR(where); no_copies=true; h[i].reset(); m[i]=M(); break; }
              case 14: { if(!m[i].has || kept.size()>=6) { break; } where+=" shared pointer kept"; TR(where); no_copies=true; Handle<Base> const& c=*h[i]; kept.push_back({c.managed_const_pointer(),{m[i].kind,m[i].v}}); if(s.coin()) { kept.back().first=c.managed_pointer(); } break; }
              default: { if(!m[i].has) { break; } std::size_t way=s.upto(5); where+=" changed to "+std::to_string(v)+" through accessor "+std::to_string(way); TR(where);
                    for(std::size_t k=0;k!=4;++k) { if(k!=i && m[k].has && m[k].obj==m[i].obj) { s.nontrivial(); s.label("changed while shared"); } }
                    switch(way) { case 0: h[i]->reference().set(v); break; case 1: h[i]->pointer()->set(v); break; case 2: h[i]->raw_pointer()->set(v); break; case 3: h[i]->ref().set(v); break; case 4: h[i]->ptr()->set(v); break; default: h[i]->managed_pointer()->set(v); break; }
                    m[i].v=v; m[i].obj=next++; break; }
            }
            if(no_copies) { REQUIRE_EQ(Base::copies,copies,"objects copied; " << where); }
            copies=Base::copies;
            for(std::size_t k=0;k!=4;++k) if(m[k].has) { Handle<Base> const& c=*h[k]; Base const& r=c; std::string w=where+" (h"+std::to_string(k)+")";
                REQUIRE_EQ(r.kind(),m[k].kind,"class; " << w); REQUIRE_EQ(r.get(),m[k].v,"value; " << w);
                REQUIRE(&c.const_reference()==&r && &c.reference()==&r && c.const_pointer()==&r && c.pointer()==&r && c.raw_const_pointer()==&r && c.raw_pointer()==&r && &c.ref()==&r && c.ptr()==&r && c.managed_pointer().get()==&r && c.managed_const_pointer().get()==&r,"accessors of a constant handle disagree; " << w); }
            REQUIRE_EQ(Base::copies,copies,"objects copied by reading; " << where);
            for(auto& k : kept) { REQUIRE(k.first->kind()==k.second.first && k.first->get()==k.second.second,"an object reached by a shared pointer kept outside changed to " << k.first->get() << ", was " << k.second.second << "; " << where); }
            if(Base::error) { FAIL(Base::error << "; " << where); }
        }
    }
    REQUIRE_EQ(Base::live,0L,"objects left at the end"); if(Base::error) { FAIL(Base::error); }
}
PROP(C20,many,1) {      // many handles to one object, some of which are changed
    Base::reset();
    { std::size_t n=1+s.bulk(s.chance(1,40)?70000:1500); long v=s.irange(-99,99); Handle<Base> first{A(v)}; std::vector<Handle<Base>> h(n,first); std::map<std::size_t,long> changed; std::size_t k=s.upto(5); if(n>65535) { s.label("more than 65535 handles"); } else if(n>255) { s.label("more than 255 handles"); } TR(n << " handles to " << v << ", " << k << " changed"); REQUIRE_EQ(Base::live,1L,"objects"); if(k>0) { s.nontrivial(); }
      for(std::size_t c=0;c!=k;++c) { std::size_t i=s.index(n); long w=s.irange(100,199); h[i].ref().set(w); changed[i]=w; } REQUIRE_EQ(Base::live,static_cast<long>(1+changed.size()),"objects after changes");
      if(s.coin()) { std::size_t keep=s.upto(n-1); h.erase(h.begin()+static_cast<long>(keep),h.end()); }
      for(std::size_t i=0;i!=h.size();++i) { Handle<Base> const& c=h[i]; auto p=changed.find(i); long want=p==changed.end()?v:p->second; if(c.ref().get()!=want) { FAIL("handle " << i << " of " << n << " has " << c.ref().get() << ", expected " << want); } } REQUIRE_EQ(static_cast<Handle<Base> const&>(first).ref().get(),v,"the first handle");
    }
    REQUIRE_EQ(Base::live,0L,"objects left at the end"); if(Base::error) { FAIL(Base::error); }
}
PROP(C20,concrete,1) {   // handles to a class that can itself be copied keep the class of the object
    Base::reset(); { long v=s.irange(-99,99), w=s.irange(100,199); bool derived=s.chance(3,4), shared=s.coin(); std::size_t made=s.upto(3), way=s.upto(5); s.nontrivial(); TR("Handle<A> of " << (derived?"AA":"A") << " made in way " << made << ", " << (shared?"shared":"alone") << ", changed through accessor " << way);
      auto make=[&]{ switch(made) { case 0: return derived ? Handle<A>(static_cast<A*>(new AA(v))) : Handle<A>(new A(v)); case 1: return derived ? Handle<A>(std::shared_ptr<A>(new AA(v))) : Handle<A>(std::make_shared<A>(v)); case 2: { if(derived) { AA a(v); A const& r=a; return Handle<A>(r._copy()); } A a(v); return Handle<A>(a); } default: { if(derived) { return Handle<A>(AA(v)); } return Handle<A>(A(v)); } } };
      Handle<A> h=make(), g=shared?h:make(); Handle<A> const& c=h; Handle<A> const& d=g; int kind=derived?2:0; REQUIRE_EQ(c.ref().kind(),kind,"class before");
      switch(way) { case 0: h.reference().set(w); break; case 1: h.pointer()->set(w); break; case 2: h.raw_pointer()->set(w); break; case 3: h.ref().set(w); break; case 4: h.ptr()->set(w); break; default: h.managed_pointer()->set(w); break; }
      REQUIRE_EQ(c.ref().kind(),kind,"class after the change"); REQUIRE_EQ(c.ref().get(),w,"value after the change"); REQUIRE_EQ(d.ref().kind(),kind,"class in the other handle"); REQUIRE_EQ(d.ref().get(),v,"value in the other handle"); REQUIRE_EQ(Base::live,2L,"objects alive"); }
    REQUIRE_EQ(Base::live,0L,"objects left at the end"); if(Base::error) { FAIL(Base::error); }
}
PROP(C20,constant,1) {   // handles to constant objects share them and never copy
    Base::reset(); { long v=s.irange(-99,99); s.nontrivial(); TR("Handle<const Base> of " << v); Handle<const Base> a(std::shared_ptr<const Base>(new B(v))); Handle<const Base> b(a); REQUIRE(&a.ref()==&b.ref() && a.ptr()==b.ptr() && a.managed_pointer().get()==b.raw_pointer(),"a handle to a constant object was detached"); REQUIRE_EQ(b.reference().get(),v,"value"); REQUIRE_EQ(Base::copies,0L,"objects copied"); Handle<Base> h{A(v)}; Handle<const Base> c(static_cast<Handle<Base> const&>(h)); h.ref().set(v+1); REQUIRE_EQ(c.ref().get(),v,"a handle to a constant object sees changes"); REQUIRE_EQ(h.reference().get(),v+1,"value"); }
    REQUIRE_EQ(Base::live,0L,"objects left at the end"); if(Base::error) { FAIL(Base::error); }
}
#endif

#ifdef P_C21
RULE(C21,"a handle (plain, constant, to an interface or to a class, alone or sharing its object) to an object of one of seven classes (with the parts sought at different places) is cast to a handle of, or asked for, each class and interface; when the object is of that class the result is that object's value and class (for an extracted constant reference, that very object), otherwise std::bad_cast is thrown and the handle is unchanged; pointers likewise give null; objects have up to 70000 owners; what was extracted is used when its source is gone; non-trivial: every case, both outcomes counted")
namespace {
struct Plain { long v; explicit Plain(long x) : v(x) { } virtual ~Plain() = default; };
struct Wrapped : Helper::Wrapper<Plain,Base> { explicit Wrapped(long x) : Helper::Wrapper<Plain,Base>(Plain(x)) { } Wrapped(Wrapped const& w) : Base(w), Helper::Wrapper<Plain,Base>(static_cast<Plain const&>(w)) { }
    Wrapped* clone() const override { return new Wrapped(*this); } Wrapped* _copy() const override { return new Wrapped(*this); } Wrapped* _move() override { return new Wrapped(*this); } int kind() const override { return 3; } long get() const override { return v; } void set(long x) override { v=x; } };
struct Told : A, Helper::WritableInterface { explicit Told(long x) : A(x) { } Told* clone() const override { return new Told(*this); } Told* _copy() const override { return new Told(*this); } Told* _move() override { return new Told(*this); } int kind() const override { return 4; } std::ostream& _write(std::ostream& os) const override { return os << "Told(" << v << ")"; } };
struct Pad { long pad[3]={-1,-2,-3}; virtual ~Pad() = default; };
struct Far : Pad, A, Other { explicit Far(long x) : A(x) { } Far* clone() const override { return new Far(*this); } Far* _copy() const override { return new Far(*this); } Far* _move() override { return new Far(*this); } int kind() const override { return 5; } long twice() const override { return 2*v; } };
struct FarWrapped : Pad, Helper::Wrapper<Plain,Base>, Other { explicit FarWrapped(long x) : Helper::Wrapper<Plain,Base>(Plain(x)) { } FarWrapped(FarWrapped const& w) : Base(w), Pad(w), Helper::Wrapper<Plain,Base>(static_cast<Plain const&>(w)), Other(w) { }
    FarWrapped* clone() const override { return new FarWrapped(*this); } FarWrapped* _copy() const override { return new FarWrapped(*this); } FarWrapped* _move() override { return new FarWrapped(*this); } int kind() const override { return 6; } long get() const override { return v; } void set(long x) override { v=x; } long twice() const override { return 2*v; } };
Base* make(std::size_t k, long v) { switch(k) { case 0: return new A(v); case 1: return new B(v); case 2: return new AA(v); case 3: return new Wrapped(v); case 4: return new Told(v); case 5: return new Far(v); default: return new FarWrapped(v); } }
bool is_a(std::size_t k, std::size_t target) {   // targets: A B AA Other Plain Base Wrapped
    switch(target) { case 0: return k==0 || k==2 || k==4 || k==5; case 1: return k==1; case 2: return k==2; case 3: return k==1 || k==5 || k==6; case 4: return k==3 || k==6; case 5: return true; default: return k==3; } }
template<class D, class H> void cast(Src& s, H const& h, std::size_t k, std::size_t target, long v) {
    bool ok=false, bad=false; Capture err(std::cerr); long copies=Base::copies; (void)copies;
    try { Handle<D> d=Helper::dynamic_handle_cast<Handle<D>>(h); ok=true; Handle<D> const& c=d; auto p=dynamic_cast<const Base*>(c.const_pointer()); REQUIRE(p!=nullptr,"the cast handle refers to another object"); REQUIRE_EQ(p->get(),v,"value of the cast handle"); REQUIRE_EQ(p->kind(),static_cast<int>(k),"class of the object of the cast handle"); }
    catch(std::bad_cast const&) { bad=true; }
    REQUIRE(ok!=bad,"outcome"); REQUIRE_EQ(ok,is_a(k,target),"cast of class " << k << " to target " << target); s.label(ok?"cast succeeds":"cast refused"); }
template<class T, class H> void extract(Src& s, H& h, std::size_t k, std::size_t target) {
    bool ok=false, bad=false; Capture err(std::cerr); const Base* b=h.raw_const_pointer();
    try { T const& t=Helper::dynamic_handle_extract<T>(h); ok=true; REQUIRE(&t==dynamic_cast<const T*>(b),"what was extracted is not the object of the handle"); }
    catch(std::bad_cast const&) { bad=true; }
    REQUIRE(ok!=bad,"outcome"); REQUIRE_EQ(ok,is_a(k,target),"extraction of target " << target << " from class " << k); s.label(ok?"extraction succeeds":"extraction refused"); }
}
PROP(C21,many_owners,1) {    // an object with many owners is cast and extracted as the same object, unchanged
    Base::reset();
    { std::size_t n=s.bulk(s.chance(1,8)?70000:300), k=s.upto(6), target=s.index(6); if(target==5) { target=6; } long v=s.irange(-99,99); TR(n << " further owners, class " << k << " value " << v << " target " << target); s.nontrivial(); if(n>256) { s.label("more than 256 owners"); } Capture err(std::cerr);
      std::shared_ptr<const Base> p(make(k,v)); Handle<const Base> h{p}; std::vector<Handle<const Base>> hs; std::vector<std::shared_ptr<const Base>> ps; if(s.coin()) { hs.assign(n,h); } else { ps.assign(n,p); } long live=Base::live;
      auto run=[&]<class T>(T const*) { std::shared_ptr<const T> q=Helper::dynamic_pointer_extract<T>(p); REQUIRE_EQ(q!=nullptr,is_a(k,target),"pointer extraction"); if(q) { REQUIRE(q.get()==dynamic_cast<const T*>(p.get()),"another object was extracted"); std::shared_ptr<const T> again=Helper::dynamic_pointer_extract<T>(p); REQUIRE(again==q,"another object was extracted the second time"); }
          bool ok=false; try { T const& t=Helper::dynamic_handle_extract<T>(static_cast<Handle<const Base> const&>(h)); ok=true; REQUIRE(&t==dynamic_cast<const T*>(p.get()),"what was extracted is not the object of the handle"); } catch(std::bad_cast const&) { } REQUIRE_EQ(ok,is_a(k,target),"extraction"); };
      switch(target) { case 0: run(static_cast<A*>(nullptr)); break; case 1: run(static_cast<B*>(nullptr)); break; case 2: run(static_cast<AA*>(nullptr)); break; case 3: run(static_cast<Other*>(nullptr)); break; case 4: run(static_cast<Plain*>(nullptr)); break; default: run(static_cast<Wrapped*>(nullptr)); break; }
      REQUIRE_EQ(Base::live,live,"objects alive after the extraction"); REQUIRE(h.ref().get()==v && h.ref().kind()==static_cast<int>(k),"the handle changed"); }
    REQUIRE_EQ(Base::live,0L,"objects left at the end"); if(Base::error) { FAIL(Base::error); }
}
PROP(C21,no_object,1) {     // there is nothing to extract from a pointer to no object; nothing of the class is in an object without owner
    s.nontrivial(); std::size_t target=s.index(6), form=s.upto(2); TR("target " << target << " form " << form); std::shared_ptr<const Base> p; if(form==1) { p=std::make_shared<A>(3); p.reset(); } else if(form==2) { auto q=std::make_shared<A>(3); p=std::shared_ptr<const Base>(q,nullptr); }
    auto run=[&]<class T>(T const*) { std::shared_ptr<const T> q=Helper::dynamic_pointer_extract<T>(p); REQUIRE(q==nullptr,"extracted from a pointer to no object"); }; Capture err(std::cerr);
    switch(target) { case 0: run(static_cast<A*>(nullptr)); break; case 1: run(static_cast<B*>(nullptr)); break; case 2: run(static_cast<AA*>(nullptr)); break; case 3: run(static_cast<Other*>(nullptr)); break; case 4: run(static_cast<Plain*>(nullptr)); break; default: run(static_cast<Wrapped*>(nullptr)); break; }
}
PROP(C21,outlives,1) {     // what was extracted or cast lives on when its source is gone
    Base::reset();
    { std::size_t k=s.upto(6), target=s.index(6); if(target==5) { target=6; } long v=s.irange(-99,99); bool from_handle=s.coin(); s.nontrivial(); TR("class " << k << " value " << v << " target " << target << (from_handle?" by way of a handle":"")); Capture err(std::cerr); std::shared_ptr<const Base> p; long twice=2*v; (void)twice;
      auto run=[&]<class T>(T const*, auto value) { std::shared_ptr<const T> q; { std::shared_ptr<const Base> src; if(from_handle) { Handle<Base> h(make(k,v)); src=h.managed_const_pointer(); } else { src.reset(make(k,v)); } q=Helper::dynamic_pointer_extract<T>(src); REQUIRE_EQ(q!=nullptr,is_a(k,target),"pointer extraction"); }
          if(q) { REQUIRE_EQ(Base::live,1L,"objects alive when the source is gone"); REQUIRE_EQ(value(*q),v,"value when the source is gone"); std::shared_ptr<const T> r(q); q.reset(); REQUIRE_EQ(value(*r),v,"value in a copy of the pointer"); } };
      auto get=[](auto const& x) { return x.get(); };
      switch(target) { case 0: run(static_cast<A*>(nullptr),get); break; case 1: run(static_cast<B*>(nullptr),get); break; case 2: run(static_cast<AA*>(nullptr),get); break; case 3: run(static_cast<Other*>(nullptr),[](Other const& o){ return dynamic_cast<Base const&>(o).get(); }); break; case 4: run(static_cast<Plain*>(nullptr),[](Plain const& o){ return o.v; }); break; default: run(static_cast<Wrapped*>(nullptr),get); break; }
    }
    REQUIRE_EQ(Base::live,0L,"objects left at the end"); if(Base::error) { FAIL(Base::error); }
}
PROP(C21,casts,1) {
    Base::reset();
    { std::size_t k=s.upto(6), target=s.upto(6), form=s.upto(2); long v=s.irange(-99,99); s.nontrivial(); TR("class " << k << " value " << v << " target " << target << " form " << form); bool shared=s.coin();
      auto run=[&](auto const& h) { switch(target) { case 0: cast<A>(s,h,k,target,v); break; case 1: cast<B>(s,h,k,target,v); break; case 2: cast<AA>(s,h,k,target,v); break; case 3: break; case 4: break; case 5: cast<Base>(s,h,k,target,v); break; default: cast<Wrapped>(s,h,k,target,v); break; } };
      auto runc=[&](auto const& h) { switch(target) { case 0: cast<const A>(s,h,k,target,v); break; case 1: cast<const B>(s,h,k,target,v); break; case 2: cast<const AA>(s,h,k,target,v); break; case 3: cast<const Other>(s,h,k,target,v); break; case 4: cast<const Plain>(s,h,k,target,v); break; case 5: cast<const Base>(s,h,k,target,v); break; default: cast<const Wrapped>(s,h,k,target,v); break; } };
      if(form==0) { Handle<Base> h(make(k,v)); Handle<Base> g(h); if(!shared) { g=Handle<Base>(A(0)); } run(h); Handle<Base> const& c=h; REQUIRE(c.ref().get()==v && c.ref().kind()==static_cast<int>(k),"the handle changed"); if(shared) { REQUIRE_EQ(static_cast<Handle<Base> const&>(g).ref().get(),v,"the other handle changed"); } }
      else { Handle<const Base> h{std::shared_ptr<const Base>(make(k,v))}; Handle<const Base> g(h); runc(h); REQUIRE(h.ref().get()==v && h.ref().kind()==static_cast<int>(k) && g.ref().get()==v,"the handle changed"); }
    }
    REQUIRE_EQ(Base::live,0L,"objects left at the end"); if(Base::error) { FAIL(Base::error); }
}
PROP(C21,mutable_result,1) {     // changing what a cast handle refers to does not change the original
    Base::reset();
    { long v=s.irange(-99,99), w=s.irange(100,199); static const std::size_t ks[]={0,2,4,5}; std::size_t k=s.pick(ks); s.nontrivial(); TR("class " << k << " " << v << " to " << w); Handle<Base> h(make(k,v)); Handle<Base> const& ch=h; Handle<A> d=Helper::dynamic_handle_cast<Handle<A>>(h); d.ref().set(w); REQUIRE_EQ(ch.ref().get(),v,"the original after changing the cast handle"); REQUIRE_EQ(static_cast<Handle<A> const&>(d).ref().get(),w,"the cast handle"); Handle<A> e=Helper::dynamic_handle_cast<Handle<A>>(ch); h.ref().set(w+1); REQUIRE_EQ(static_cast<Handle<A> const&>(e).ref().get(),v,"the cast handle after changing the original"); }
    REQUIRE_EQ(Base::live,0L,"objects left at the end"); if(Base::error) { FAIL(Base::error); }
}
PROP(C21,extraction,2) {
    Base::reset();
    { std::size_t k=s.upto(6), target=s.upto(6), form=s.upto(2); if(target==5) { target=0; } long v=s.irange(-99,99); s.nontrivial(); TR("class " << k << " value " << v << " target " << target << " form " << form);
      auto run=[&](auto& h) { switch(target) { case 0: extract<A>(s,h,k,target); break; case 1: extract<B>(s,h,k,target); break; case 2: extract<AA>(s,h,k,target); break; case 3: extract<Other>(s,h,k,target); break; case 4: extract<Plain>(s,h,k,target); break; default: extract<Wrapped>(s,h,k,target); break; } };
      Handle<const Base> q{std::shared_ptr<const Base>(make(k,v))};
      if(form==0) { Handle<const Base> const& cq=q; run(cq); REQUIRE_EQ(q.ref().get(),v,"value afterwards"); } else { Handle<Base> h(make(k,v)); Handle<Base> const& c=h; if(form==1) { run(c); } else { run(h); } REQUIRE_EQ(c.ref().get(),v,"value afterwards"); }
      std::shared_ptr<const Base> p=q.managed_pointer(); if(target==0) { auto r=Helper::dynamic_pointer_extract<A>(p); REQUIRE_EQ(r!=nullptr,is_a(k,0),"pointer extraction"); if(r) { REQUIRE(r.get()==dynamic_cast<const A*>(p.get()),"pointer extracted"); } } else if(target==4) { auto r=Helper::dynamic_pointer_extract<Plain>(p); REQUIRE_EQ(r!=nullptr,is_a(k,4),"pointer extraction"); if(r) { REQUIRE_EQ(r->v,v,"pointer extracted"); } } else if(target==1) { auto r=Helper::dynamic_pointer_extract<B>(p); REQUIRE_EQ(r!=nullptr,is_a(k,1),"pointer extraction"); }
    }
    REQUIRE_EQ(Base::live,0L,"objects left at the end"); if(Base::error) { FAIL(Base::error); }
}
#endif

#ifdef P_C22
namespace ext {   // types of a user, outside the library's namespace
struct Own { long v; std::ostream& _write(std::ostream& os) const { return os << "Own<" << v << ">"; } };
struct Not { long v; };
struct NotConst { std::ostream& _write(std::ostream& os) { return os; } };
}
RULE(C22,"objects with a write member, objects of writable interfaces seen as any of their classes, and values written through writers (held directly or in handles, copied, temporary) go to a stream among other text; each contributes exactly what its own write function produces, once, and the stream is the one returned; settings of the stream reach the write functions of a tree of objects, and an exception or a failure of the stream in one of them reaches the caller; whether a type counts as writable is decided for a list of types; write functions throw objects of eight kinds; non-trivial: every case but trees of one object")
namespace {
struct W1 : Helper::WritableInterface { static inline long calls=0; long v; explicit W1(long x) : v(x) { } std::ostream& _write(std::ostream& os) const override { ++calls; return os << "W1(" << v << ")"; } };
struct W2 : W1 { explicit W2(long x) : W1(x) { } std::ostream& _write(std::ostream& os) const override { ++calls; return os << "W2(" << v << ")"; } };
//! Returns another stream than the one it writes to.
struct Astray : Helper::WritableInterface { long v; std::ostream* other; mutable long calls=0; Astray(long x, std::ostream* o) : v(x), other(o) { } std::ostream& _write(std::ostream& os) const override { ++calls; os << "Astray(" << v << ")"; return other ? *other : os; } };
struct Brief : Helper::WriterInterface<long> { static inline long calls=0, live=0; std::string t; explicit Brief(std::string u) : t(u) { ++live; } Brief(Brief const& b) : Helper::WriterInterface<long>(b), t(b.t) { ++live; } ~Brief() { --live; }
    std::ostream& _write(std::ostream& os, long const& x) const override { ++calls; return os << t << x; } };
static_assert(Helper::IsWritable<ext::Own>::value && Helper::IsWritable<W1>::value && Helper::IsWritable<Helper::WritableInterface>::value);
static_assert(not Helper::IsWritable<ext::Not>::value && not Helper::IsWritable<int>::value && not Helper::IsWritable<std::string>::value && not Helper::IsWritable<ext::NotConst>::value);
}
PROP(C22,writable,1) {
    long v=s.num(-1000000,1000000); s.nontrivial(); std::ostringstream os; using Helper::operator<<; std::size_t k=s.upto(6); TR("kind " << k << " value " << v); std::string V=std::to_string(v), want; W1::calls=0; long calls=1; std::ostream* r=nullptr; os << "<";
    switch(k) { case 0: { W1 w(v); r=&(os << w); want="W1("+V+")"; break; } case 1: { W2 w(v); W1 const& b=w; r=&(os << b); want="W2("+V+")"; break; } case 2: { W2 w(v); Helper::WritableInterface const& b=w; r=&(os << b); want="W2("+V+")"; break; } case 3: { W1 w(v); r=&w.write(os); want="W1("+V+")"; break; }
        case 4: { W2 w(v); Helper::WritableInterface const& b=w; r=&b.write(os); want="W2("+V+")"; break; } case 5: { ext::Own o{v}; r=&(os << o); want="Own<"+V+">"; calls=0; break; } default: { W2 w(v); W1 u(v+1); r=&(os << w << ";" << u << ";" << ext::Own{v}); want="W2("+V+");W1("+std::to_string(v+1)+");Own<"+V+">"; calls=2; break; } }
    os << ">"; REQUIRE(r==&os,"stream returned"); REQUIRE_EQ(os.str(),"<"+want+">","written"); REQUIRE_EQ(W1::calls,calls,"calls of the write functions");
}
namespace {
//! Written as the very object it is: counts on the object, says where it is, cannot be moved, loses its text when copied.
struct InPlace { std::string t; mutable int calls=0; explicit InPlace(std::string u) : t(std::move(u)) { } InPlace(InPlace const&) : t("copy") { } std::ostream& _write(std::ostream& os) const { ++calls; return os << static_cast<void const*>(this) << t; } };
struct Fixed : InPlace { using InPlace::InPlace; Fixed(Fixed const&) = delete; Fixed& operator=(Fixed const&) = delete; };
struct Below : Fixed { using Fixed::Fixed; std::ostream& _write(std::ostream& os) const { ++calls; return os << "below " << t; } };
}
namespace {
struct Mine { int n; };
//! A write function that throws something of the kind told, after some text.
void raise(int how, int n) { switch(how) { case 0: throw std::ios_base::failure("failed"); case 1: throw std::bad_alloc(); case 2: throw std::runtime_error("error "+std::to_string(n)); case 3: throw Mine{n}; case 4: throw n; case 5: throw std::bad_cast(); case 6: throw std::out_of_range("range "+std::to_string(n)); case 7: throw "text"; default: break; } }
struct Raises : Helper::WritableInterface { int how, n; Raises(int h, int k) : how(h), n(k) { } std::ostream& _write(std::ostream& os) const override { os << "before" << n; raise(how,n); return os << "after"; } };
struct RaisesOwn { int how, n; std::ostream& _write(std::ostream& os) const { os << "before" << n; raise(how,n); return os << "after"; } };
struct RaisesWriter : Helper::WriterInterface<int> { int how; explicit RaisesWriter(int h) : how(h) { } std::ostream& _write(std::ostream& os, int const& n) const override { os << "before" << n; raise(how,n); return os << "after"; } };
template<class F> std::string caught(F f) { try { f(); } catch(std::ios_base::failure const&) { return "failure"; } catch(std::bad_alloc const&) { return "bad_alloc"; } catch(std::bad_cast const&) { return "bad_cast"; } catch(std::exception const& e) { return e.what(); } catch(Mine const& m) { return "mine "+std::to_string(m.n); } catch(int i) { return "int "+std::to_string(i); } catch(const char* t) { return t; } return "nothing"; }
}
PROP(C22,raises,1) {   // whatever a write function throws reaches the caller, and the stream is as it was left
    int how=s.irange(0,8), n=s.irange(-99,99); std::size_t way=s.upto(5); s.nontrivial(); TR("throws kind " << how << " number " << n << " way " << way); std::ostringstream os; using Helper::operator<<; std::string want=caught([&]{ raise(how,n); });
    std::string got=caught([&]{ switch(way) { case 0: os << Raises(how,n); break; case 1: { Raises r(how,n); Helper::WritableInterface const& b=r; os << b; break; } case 2: Raises(how,n).write(os); break; case 3: os << RaisesOwn{how,n}; break; case 4: { RaisesWriter w(how); Helper::WriterInterface<int> const& b=w; os << b(n); break; } default: { Helper::Writer<int> w{Handle<Helper::WriterInterface<int>>(RaisesWriter(how))}; os << w(n); } } });
    REQUIRE_EQ(got,want,"exception"); REQUIRE(os.good(),"the state of the stream changed"); REQUIRE_EQ(os.str(),"before"+std::to_string(n)+(how==8?"after":""),"written");
}
PROP(C22,in_place,1) {   // what is written is the object itself, not a copy
    std::string t=s.str(20); s.nontrivial(); std::size_t k=s.upto(3); TR("kind " << k << " " << show(t)); std::ostringstream os, w; using Helper::operator<<; int calls=0;
    switch(k) { case 0: { InPlace x(t); os << x; w << static_cast<void const*>(&x) << t; calls=x.calls; break; } case 1: { Fixed x(t); os << x; w << static_cast<void const*>(static_cast<InPlace const*>(&x)) << t; calls=x.calls; break; } case 2: { Below x(t); Fixed const& f=x; os << f; w << static_cast<void const*>(static_cast<InPlace const*>(&x)) << t; calls=x.calls; break; } default: { Below const x(t); os << x; w << "below " << t; calls=x.calls; break; } }
    REQUIRE_EQ(os.str(),w.str(),"written"); REQUIRE_EQ(calls,1,"calls of the write function of the object"); }
PROP(C22,outstanding,1) {   // several things to be written are at hand before the first is written
    std::size_t n=2+s.upto(10); s.nontrivial(); std::vector<long> v; for(std::size_t i=0;i!=n;++i) { v.push_back(s.num(-1000,1000)); } TR(show(v)); std::ostringstream os; std::string want; struct Ints : Helper::WriterInterface<int> { std::ostream& _write(std::ostream& o, int const& x) const override { return o << "<" << x; } }; struct Strs : Helper::WriterInterface<std::string> { std::ostream& _write(std::ostream& o, std::string const& x) const override { return o << "'" << x; } };
    std::vector<int> a(v.begin(),v.end()); std::vector<std::string> b; for(long x : v) { b.push_back(std::to_string(x)+" and text that takes some room"); } Helper::Writer<int> wi{Handle<Helper::WriterInterface<int>>(Ints())}; Helper::Writer<std::string> ws{Handle<Helper::WriterInterface<std::string>>(Strs())}; Ints di; Helper::WriterInterface<int> const& dr=di; { using TI=decltype(wi(a[0])); using TS=decltype(ws(b[0])); using TD=decltype(dr(a[0])); std::vector<std::unique_ptr<TI>> p; std::vector<std::unique_ptr<TS>> q; std::vector<std::unique_ptr<TD>> r; for(std::size_t i=0;i!=n;++i) { p.emplace_back(new TI(wi(a[i]))); q.emplace_back(new TS(ws(b[i]))); r.emplace_back(new TD(dr(a[i]))); }
      bool back=s.coin(); for(std::size_t j=0;j!=n;++j) { std::size_t i=back?n-1-j:j; os << *p[i] << *q[i] << *r[i]; want+="<"+std::to_string(a[i])+"'"+b[i]+"<"+std::to_string(a[i]); } } REQUIRE_EQ(os.str(),want,"written");
}
PROP(C22,astray,1) {   // through the interface, the stream given is the one written to and returned
    long v=s.num(-1000,1000); std::ostringstream os, other; bool a=s.coin(), bad=s.coin(); if(bad) { other.setstate(std::ios::badbit); } Astray w(v,a?&other:nullptr); Helper::WritableInterface const& b=w; s.nontrivial(); TR("value " << v << (a?" returns another stream":"")); std::ostream& r=(os << b); REQUIRE(&r==&os,"stream returned"); os << "!"; REQUIRE_EQ(os.str(),"Astray("+std::to_string(v)+")!","written"); REQUIRE_EQ(other.str(),std::string(),"written to another stream"); REQUIRE_EQ(w.calls,1L,"calls of the write function"); }
PROP(C22,writer,1) {
    Brief::calls=0; Brief::live=0;
    { long v=s.num(-1000000,1000000); std::string t=s.str(8,"ab:-"); s.nontrivial(); std::ostringstream os; std::size_t k=s.upto(3); TR("kind " << k << " " << t << v); std::string V=t+std::to_string(v); std::ostream* r=nullptr;
      if(k==0) { Brief b(t); Helper::WriterInterface<long> const& w=b; r=&(os << w(v)); }
      else if(k==1) { Helper::Writer<long> w{Handle<Helper::WriterInterface<long>>(Brief(t))}; r=&(os << w(v)); }
      else if(k==2) { Helper::Writer<long> w{Handle<Helper::WriterInterface<long>>(std::shared_ptr<Helper::WriterInterface<long>>(new Brief(t)))}; Helper::Writer<long> c(w); w=Helper::Writer<long>(Handle<Helper::WriterInterface<long>>(Brief("z"))); r=&(os << c(v)); }
      else { Helper::Writer<long> w{Handle<Helper::WriterInterface<long>>(Brief(t))}; r=&(os << w(v) << "," << w(v+1)); V+=","+t+std::to_string(v+1); }
      REQUIRE(r==&os,"stream returned"); REQUIRE_EQ(os.str(),V,"written"); REQUIRE_EQ(Brief::calls,k==3?2L:1L,"calls of the writer"); }
    REQUIRE_EQ(Brief::live,0L,"writers left at the end");
}
namespace {
//! A tree of writables: writes itself with the stream's own settings; the marked node throws or makes the stream fail.
struct Tree : Helper::WritableInterface { long v; int mark=0; std::vector<Tree> below; explicit Tree(long x) : v(x) { }
    std::ostream& _write(std::ostream& os) const override { os << v; if(mark==1) { throw v; } if(mark==2) { os.setstate(std::ios::failbit); } if(!below.empty()) { os << '('; for(Tree const& t : below) { os << t; } os << ')'; } return os; } };
void plain(std::ostream& os, Tree const& t) { os << t.v; if(t.mark==1) { throw t.v; } if(t.mark==2) { os.setstate(std::ios::failbit); } if(!t.below.empty()) { os << '('; for(Tree const& b : t.below) { plain(os,b); } os << ')'; } }
Tree grow(Src& s, int depth) { Tree t(s.num(-1000000,1000000)); if(depth>0) { std::size_t n=s.upto(3); for(std::size_t i=0;i!=n;++i) { t.below.push_back(grow(s,depth-1)); } } return t; }
Tree& some(Src& s, Tree& t) { return t.below.empty() || s.chance(1,3) ? t : some(s,t.below[s.index(t.below.size())]); }
struct Spell : Helper::WriterInterface<Tree> { std::string t; explicit Spell(std::string u) : t(u) { } std::ostream& _write(std::ostream& os, Tree const& x) const override { os << t; x.write(os); return os << t; } };
struct Own2 { Tree const& t; std::ostream& _write(std::ostream& os) const { return os << t; } };
}
PROP(C22,state,2) {     // settings of the stream reach the write functions; what they throw and a stream that fails reach the caller
    Tree t=grow(s,3); std::size_t how=s.upto(5); if(s.chance(1,4)) { some(s,t).mark=s.coin()?1:2; } if(!t.below.empty()) { s.nontrivial(); } using Helper::operator<<;
    std::ostringstream os, want; for(std::ostream* o : {static_cast<std::ostream*>(&os),static_cast<std::ostream*>(&want)}) { o->fill('*'); } std::size_t set=s.upto(5), w=s.upto(12); TR("way " << how << " setting " << set << " width " << w);
    auto prepare=[&](std::ostream& o){ switch(set) { case 0: o << std::hex << std::showbase; break; case 1: o << std::oct; break; case 2: o << std::showpos; break; case 3: o << std::left; break; case 4: o << std::internal << std::uppercase << std::hex; break; default: break; } o << std::setw(static_cast<int>(w)); };
    prepare(os); prepare(want); long thrown=0, expected=0; bool threw=false, throws=false; std::ostream* r=nullptr; std::string tag=s.str(3,"ab");
    try { if(how>=4) { want << tag; plain(want,t); want << tag; } else { plain(want,t); } } catch(long e) { throws=true; expected=e; }
    try { switch(how) { case 0: r=&(os << t); break; case 1: { Helper::WritableInterface const& b=t; r=&(os << b); break; } case 2: r=&t.write(os); break; case 3: { Own2 o{t}; r=&(os << o); break; } case 4: { Spell sp(tag); Helper::WriterInterface<Tree> const& wi=sp; r=&(os << wi(t)); break; } default: { Helper::Writer<Tree> wr{Handle<Helper::WriterInterface<Tree>>(Spell(tag))}; Helper::Writer<Tree> const c(wr); r=&(os << c(t)); break; } } } catch(long e) { threw=true; thrown=e; }
    REQUIRE_EQ(threw,throws,"exception of a write function"); REQUIRE_EQ(thrown,expected,"exception of a write function"); REQUIRE_EQ(os.str(),want.str(),"written"); REQUIRE(os.rdstate()==want.rdstate(),"state of the stream"); REQUIRE(os.flags()==want.flags() && os.width()==want.width(),"settings of the stream afterwards"); if(!threw) { REQUIRE(r==&os,"stream returned"); }
}
#endif
