// Objects that are retrieved when they are first used.
#include "../engine/pbt.hpp"
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "lazy.hpp"

using namespace pbt;
using Helper::Lazy;

#ifdef P_C27
RULE(C27,"2..24 random operations on five places for lazy objects (made from functions that succeed, fail the first few times or use an earlier lazy object, copied and assigned before or after first use, used, dropped) against a model that predicts, for each, how often its function has run, which object it must refer to and which objects must be alive; up to 70000 lazy objects sharing an object; non-trivial: some object was used at least twice, or used through a copy, or its function failed")
namespace {
struct Failure { int which; };
struct Thing {
    static inline long live=0; static inline std::vector<char>* dead=nullptr; long id; std::string text; Thing(long i) : id(i), text("thing number "+std::to_string(i)+" with some text to keep") { ++live; } Thing(Thing const&) = delete; ~Thing() { --live; if(dead) { if((*dead)[static_cast<std::size_t>(id)]) { std::abort(); } (*dead)[static_cast<std::size_t>(id)]=1; } id=-1; }
};
struct Maker {  // counts its runs outside, so copies of the function share the count
    struct State { long runs=0; long fail=0; std::vector<char>* dead; long* next; std::shared_ptr<Lazy<Thing>> other; std::string token; };
    std::shared_ptr<State> st;
    Thing* operator()() const { ++st->runs; if(st->fail>0) { --st->fail; throw Failure{static_cast<int>(st->runs)}; } if(st->other) { Thing const& t=(*st->other)(); if(t.id<0) { std::abort(); } } st->dead->push_back(0); return new Thing((*st->next)++); }
};
}
PROP(C27,history,3) {
    Thing::live=0; std::vector<char> dead; Thing::dead=&dead; long next=0;
    {
        // A place holds a lazy object with a function (fn) and, once used, an object (obj).
        struct M { int fn=-1; long obj=-1; const Thing* at=nullptr; }; std::shared_ptr<Lazy<Thing>> l[5]; M m[5]; std::vector<std::shared_ptr<Maker::State>> fns; std::vector<long> runs; std::size_t nops=2+s.upto(22);
        for(std::size_t op=0;op!=nops;++op) {
            std::size_t i=s.index(5), j=s.index(5), kind=s.upto(11); std::string where="op "+std::to_string(op)+" place "+std::to_string(i);
            if(kind<=2) {
                auto st=std::make_shared<Maker::State>(); st->dead=&dead; st->next=&next; if(kind==1) { st->fail=1+static_cast<long>(s.upto(2)); } 
                int dep=-1; if(kind==2 && l[j] && i!=j && m[j].obj>=0) { st->other=l[j]; dep=static_cast<int>(j); } std::size_t way=s.upto(2);
                where+=" new, fails "+std::to_string(st->fail)+(dep<0?"":" uses place "+std::to_string(dep))+" way "+std::to_string(way); TR(where);
                if(way==0) { l[i]=std::make_shared<Lazy<Thing>>(Maker{st}); } else if(way==1) { std::function<Thing*()> f=Maker{st}; l[i]=std::make_shared<Lazy<Thing>>(f); } else { l[i]=std::make_shared<Lazy<Thing>>([mk=Maker{st}]{ return mk(); }); }
                m[i]=M(); m[i].fn=static_cast<int>(fns.size()); fns.push_back(st); runs.push_back(0);
            } else if(kind==3) { if(!l[j] || i==j) { continue; } where+=" copy of place "+std::to_string(j); TR(where); l[i]=std::make_shared<Lazy<Thing>>(static_cast<Lazy<Thing> const&>(*l[j])); m[i]=m[j]; }
            else if(kind==4) { if(!l[j] || !l[i]) { continue; } bool cyclic=false; for(auto& f : fns) { if(f->other==l[i]) { cyclic=true; } } if(cyclic) { continue; } where+=" assigned place "+std::to_string(j); TR(where); Lazy<Thing> const& c=*l[j]; *l[i]=c; m[i]=m[j]; }
            else if(kind==5) { where+=" dropped"; TR(where); l[i].reset(); m[i]=M(); }
            else { if(!l[i]) { continue; } where+=" used"; TR(where); Lazy<Thing> const& c=*l[i]; auto& st=*fns[static_cast<std::size_t>(m[i].fn)]; long& want=runs[static_cast<std::size_t>(m[i].fn)];
                bool first=m[i].obj<0, must_fail=first && st.fail>0; if(!first || must_fail) { s.nontrivial(); } long made=next; int caught=-1; const Thing* t=nullptr;
                try { Thing const& r=c(); static_assert(std::is_same_v<decltype(c()),Thing const&>); t=&r; } catch(Failure const& f) { caught=f.which; }
                if(first) { ++want; }
                REQUIRE_EQ(st.runs,want,"runs of the function; " << where);
                if(must_fail) { s.label("the function failed"); REQUIRE(t==nullptr && caught==static_cast<int>(want),"the exception of the function does not arrive; " << where); REQUIRE_EQ(next,made,"objects made by a function that failed"); }
                else { REQUIRE(t!=nullptr,"an exception arrives although the function succeeds; " << where);
                    if(first) { REQUIRE_EQ(next,made+1,"objects made on first use; " << where); m[i].obj=made; m[i].at=t; } else { REQUIRE_EQ(next,made,"objects made on a later use; " << where); }
                    REQUIRE(t==m[i].at && t->id==m[i].obj,"refers to another object than before; " << where); REQUIRE_EQ(t->text,"thing number "+std::to_string(m[i].obj)+" with some text to keep","the object"); }
            }
            for(std::size_t k=0;k!=fns.size();++k) { REQUIRE_EQ(fns[k]->runs,runs[k],"runs of function " << k << "; " << where); }
            // an object is alive if a place refers to it (or a function may still do so through the lazy object it uses)
            std::vector<char> held(dead.size(),0); for(auto& x : m) { if(x.obj>=0) { held[static_cast<std::size_t>(x.obj)]=1; } } bool dependent=false; for(auto& f : fns) { dependent=dependent || f->other; }
            for(std::size_t k=0;k!=dead.size();++k) { if(held[k] && dead[k]) { FAIL("object " << k << " was deleted while a lazy object refers to it; " << where); } if(!held[k] && !dead[k] && !dependent) { FAIL("object " << k << " was not deleted although no lazy object refers to it; " << where); } }
            bool two=false; for(std::size_t a=0;a!=5;++a) { for(std::size_t b=a+1;b!=5;++b) { two=two || (m[a].obj>=0 && m[a].obj==m[b].obj); } } if(two) { s.nontrivial(); s.label("two lazy objects share an object"); }
        }
        for(auto& f : fns) { f->other.reset(); }
        for(auto& f : fns) { std::weak_ptr<Maker::State> w=f; (void)w; }
        for(auto& x : l) { x.reset(); } for(auto& f : fns) { REQUIRE_EQ(f.use_count(),1L,"the functions of dropped lazy objects are still held"); }
    }
    Thing::dead=nullptr; REQUIRE_EQ(Thing::live,0L,"objects left at the end");
}
PROP(C27,many,1) {      // one object shared by many copies, used many times
    Thing::live=0; Thing::dead=nullptr; long runs=0; std::size_t n=1+s.bulk(s.chance(1,40)?70000:1500), fails=s.upto(3), late=s.upto(3); TR(n << " copies, fails " << fails << " times"); s.nontrivial(); if(n>255) { s.label("more than 255 copies"); }
    { Lazy<Thing> first([&]{ if(static_cast<std::size_t>(++runs)<=fails) { throw Failure{1}; } return new Thing(runs); });
      for(std::size_t k=0;k!=fails;++k) { bool caught=false; try { first(); } catch(Failure const&) { caught=true; } REQUIRE(caught,"the exception of the function does not arrive"); }
      Thing const& t=first(); std::vector<Lazy<Thing>> copies(n,first); while(late--) { copies.push_back(copies[copies.size()/2]); } for(std::size_t i=0;i!=copies.size();++i) { if(&copies[i]()!=&t) { FAIL("copy " << i << " of " << n << " has another object"); } } REQUIRE_EQ(runs,static_cast<long>(fails)+1,"runs of the function"); REQUIRE_EQ(Thing::live,1L,"objects");
      copies.resize(s.coin()?0:copies.size()/2,first); REQUIRE_EQ(Thing::live,1L,"objects after copies were dropped"); for(std::size_t k=0;k!=300;++k) { if(&first()!=&t) { FAIL("use " << k << " gives another object"); } } REQUIRE_EQ(runs,static_cast<long>(fails)+1,"runs of the function"); REQUIRE_EQ(t.text,"thing number "+std::to_string(fails+1)+" with some text to keep","the object"); }
    REQUIRE_EQ(Thing::live,0L,"objects left at the end");
}
PROP(C27,exceptions,1) {      // whatever the function throws arrives, once per attempt, and the next use tries again
    std::size_t n=1+s.upto(4); std::vector<std::size_t> kinds; for(std::size_t i=0;i!=n;++i) { kinds.push_back(s.upto(7)); } s.nontrivial(); TR(show(kinds)); std::size_t runs=0; Thing::live=0; Thing::dead=nullptr;
    { std::function<Thing*()> f=[&]() -> Thing* { std::size_t r=runs++; if(r<n) { switch(kinds[r]) { case 0: throw std::bad_alloc(); case 1: throw std::bad_function_call(); case 2: throw std::runtime_error("r"); case 3: throw std::logic_error("l"); case 4: throw 7; case 5: throw "text"; case 6: throw std::exception(); default: throw std::bad_array_new_length(); } } return new Thing(5); };
      Lazy<Thing> l(f), c(l); for(std::size_t k=0;k!=n;++k) { std::size_t got=99; try { l(); } catch(std::bad_array_new_length const&) { got=7; } catch(std::bad_alloc const&) { got=0; } catch(std::bad_function_call const&) { got=1; } catch(std::runtime_error const&) { got=2; } catch(std::logic_error const&) { got=3; } catch(int i) { got=i==7?4:98; } catch(const char* t) { got=t==std::string("text")?5:98; } catch(std::exception const&) { got=6; } REQUIRE_EQ(got,kinds[k],"exception of attempt " << k); REQUIRE_EQ(runs,k+1,"runs after attempt " << k); REQUIRE_EQ(Thing::live,0L,"objects"); if(s.chance(1,4)) { Lazy<Thing> d(l); l=d; } }
      Thing const& t=l(); REQUIRE(t.id==5 && runs==n+1 && &l()==&t,"the object after the function failed"); REQUIRE_EQ(runs,n+1,"runs"); Thing const& u=c(); REQUIRE(u.id==5,"the object of a copy"); }
    REQUIRE_EQ(Thing::live,0L,"objects left at the end");
}
PROP(C27,types,1) {
    s.nontrivial(); int n=s.irange(-99,99); std::string t=s.str(30); TR(n << " " << t); int runs=0; std::size_t uses=1+s.upto(3);
    Lazy<int> a([&]{ ++runs; return new int(n); }); REQUIRE_EQ(runs,0,"runs before first use"); for(std::size_t k=0;k!=uses;++k) { REQUIRE_EQ(a(),n,"value"); REQUIRE_EQ(runs,1,"runs"); }
    runs=0; Lazy<const std::string> b([&]{ ++runs; return new std::string(t); }); Lazy<const std::string> c(b); REQUIRE_EQ(runs,0,"runs before first use"); REQUIRE_EQ(b(),t,"value"); REQUIRE_EQ(c(),t,"value of a copy"); REQUIRE(runs<=2,"runs of two lazy objects"); int r=runs; REQUIRE_EQ(b()+c(),t+t,"values"); REQUIRE_EQ(runs,r,"runs after both were used");
    runs=0; struct Base { virtual ~Base() = default; virtual int get() const { return 0; } }; struct Der : Base { int v; int* out; Der(int x, int* o) : v(x), out(o) { } ~Der() { *out=v; } int get() const override { return v; } }; int gone=1000;
    { Lazy<Base> d([&]{ return new Der(n,&gone); }); if(s.coin()) { REQUIRE_EQ(d().get(),n,"value of a derived object"); REQUIRE_EQ(gone,1000,"the object is alive"); } else { gone=n; } } REQUIRE_EQ(gone,n,"the derived object is deleted at the end");
    bool used=s.coin(); runs=0; { Lazy<int> e([&]{ ++runs; return new int(1); }); Lazy<int> f([&]{ ++runs; return new int(2); }); if(used) { e(); } e=f; REQUIRE_EQ(runs,used?1:0,"runs"); REQUIRE_EQ(e(),2,"value after assigning"); } 
}
#endif
