// Coded variants: a visitor is called with the alternative that the code stands for.
#include "../engine/pbt.hpp"
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <climits>
#include <utility>
#include <string>
#include <vector>
#include "variant.hpp"
#include "variant.inl.hpp"

using namespace pbt;
using Helper::CodedVariant; using Helper::holds_alternative;

#ifdef P_C23
RULE(C23,"a coded variant of 1..16 alternatives with scattered codes of one of five code types (enumerations, char, int, unsigned long) is made from each alternative or from a code, copied and assigned, and accepts visitors (constant, with state, overloaded, returning values, references or nothing, throwing, with different results per alternative); the visitor must be called once with the alternative of the code, as itself, its result or exception must come back, and a code of no alternative must call nothing and not return; non-trivial: more than one alternative, or a code of none")
namespace {
enum class En : short { lowest=SHRT_MIN, minus=-7, zero=0, seven=7, highest=SHRT_MAX };
enum Plain { P_A=3, P_B=1, P_C=4 };
constexpr int table_int[16]={0,-1,INT_MIN,INT_MAX,7,100000,-100000,1,255,256,65535,65536,-256,2,42,1<<30};
constexpr short table_en[16]={0,7,-7,SHRT_MIN,SHRT_MAX,1,256,-256,255,-1,2,3,4,1000,-1000,12};
constexpr signed char table_char[16]={'x','a',0,127,-128,'Z',1,-1,'0','9',' ','~',2,3,64,-64};
constexpr unsigned long table_ul[16]={0ul,ULONG_MAX,1ul<<32,(1ul<<32)+1,1ul<<63,1ul,2ul,1ul<<16,0xFFFFFFFFul,3ul,10ul,11ul,12ul,1ul<<40,1ul<<41,99ul};
constexpr unsigned table_plain[16]={3,1,4,0,5,7,6,2,8,15,14,13,12,11,10,9};

template<class C> constexpr C code_of(int i);
template<> constexpr int code_of<int>(int i) { return table_int[i]; }
template<> constexpr En code_of<En>(int i) { return static_cast<En>(table_en[i]); }
template<> constexpr signed char code_of<signed char>(int i) { return table_char[i]; }
template<> constexpr unsigned long code_of<unsigned long>(int i) { return table_ul[i]; }
enum Flat : unsigned { };
template<> constexpr Flat code_of<Flat>(int i) { return static_cast<Flat>(table_plain[i]); }

template<class C, int I> struct Alt { static constexpr C code() { return code_of<C>(I); } static constexpr int index=I; };

struct Ident { int i; int calls; bool operator==(Ident const&) const = default; };
std::ostream& operator<<(std::ostream& os, Ident const& x) { return os << "alternative " << x.i << ", call " << x.calls; }
//! Counts its calls in itself; it must not be copied.
struct ByValue { int calls=0; std::vector<int> seen; ByValue() = default; ByValue(ByValue const&) = delete;
    template<class T> Ident operator()(T const&) { ++calls; seen.push_back(T::index); return Ident{T::index,calls}; } };
struct ByReference { mutable int slots[16]={}; mutable int calls=0; ByReference() = default; ByReference(ByReference const&) = delete;
    template<class T> int& operator()(T const&) const { ++calls; return slots[T::index]; } };
struct Nothing { mutable int calls=0, last=-1; Nothing() = default; Nothing(Nothing const&) = delete;
    template<class T> void operator()(T) const { ++calls; last=T::index; } };
struct MoveOnly { int i; explicit MoveOnly(int x) : i(x) { } MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
//! The kind of value each alternative arrives as.
struct Category { mutable int kind=-1; template<class T> void operator()(T&&) const { kind=(std::is_lvalue_reference_v<T>?1:0)+(std::is_const_v<std::remove_reference_t<T>>?2:0); } };
struct Mover { mutable int calls=0; template<class T> MoveOnly operator()(T&&) const { ++calls; return MoveOnly(std::decay_t<T>::index); } };
struct Thrower { mutable int calls=0; template<class T> int operator()(T const&) const { ++calls; throw 1000+T::index; } };
//! One overload for the first alternative, one for the rest.
template<class F> struct Overloaded { mutable int calls=0; std::string operator()(F const&) const { ++calls; return "first"; } template<class T> std::string operator()(T const&) const { ++calls; return "other "+std::to_string(T::index); } };

[[noreturn]] __attribute__((noinline)) void wrong(Ident i, int k, int n) { FAIL("the visitor saw " << i << " instead of alternative " << k << " of " << n); }
__attribute__((noinline)) void check_holds(bool const* holds, int k) { for(int i=0;i!=16;++i) { if(holds[i]!=(i==k)) { FAIL("a variant of alternative " << k << (holds[i]?" holds ":" does not hold ") << "alternative " << i); } } }
sigjmp_buf jump_buf; volatile int unexpected_calls;
void on_abort(int) { siglongjmp(jump_buf,1); }
struct UnexpectedVoid { template<class T> void operator()(T const&) const { unexpected_calls=unexpected_calls+1; } };
struct UnexpectedValue { template<class T> int operator()(T const&) { unexpected_calls=unexpected_calls+1; return T::index; } };
template<class Var> __attribute__((noinline)) int attempt(Var const& c, bool val) { try { if(val) { c.accept(UnexpectedValue()); } else { c.accept(UnexpectedVoid()); } return 2; } catch(...) { return 1; } }
//! 0: aborted; 1: threw; 2: returned
template<class Var> __attribute__((noinline)) int outcome(Var const& c, bool val) {
    static struct sigaction sa, old; std::memset(&sa,0,sizeof sa); sa.sa_handler=on_abort; sigaction(SIGABRT,&sa,&old); static volatile int how; how=0; unexpected_calls=0;
    if(sigsetjmp(jump_buf,1)==0) { how=attempt(c,val); }
    sigaction(SIGABRT,&old,nullptr); return how; }

template<class C, int N, class IS> struct Maker;
template<class C, int N, int... IS> struct Maker<C,N,std::integer_sequence<int,IS...>> { using Var=CodedVariant<C,Alt<C,IS>...>; };

template<class C, int N> void run(Src& s) {
    using Var=typename Maker<C,N,std::make_integer_sequence<int,N>>::Var;
    int k=s.irange(0,N-1); std::size_t made=s.upto(2); bool unknown=N<16 && s.chance(1,12);
    if(N>1 || unknown) { s.nontrivial(); }
    if(unknown) { k=s.irange(N,15); }
    TR(N << " alternatives, alternative " << k << ", made " << made);
    auto from_alt=[&](int a) -> Var { Var* p=nullptr; Var first{Alt<C,0>()}; [&]<int... I>(std::integer_sequence<int,I...>) { ((I==a ? (first=Var(Alt<C,I>()),void()) : void()),...); }(std::make_integer_sequence<int,N>()); (void)p; return first; };
    Var v(code_of<C>(k));
    if(!unknown) { if(made==1) { v=from_alt(k); } else if(made==2) { Var w=from_alt(s.irange(0,N-1)); Var u(v); w=u; v=w; } }
    Var const& c=v;
    REQUIRE(c.code()==code_of<C>(k),"code of alternative " << k << " of " << N);
    bool holds[16]; [&]<int... I>(std::integer_sequence<int,I...>) { ((holds[I]=holds_alternative<Alt<C,I>>(c)),...); }(std::make_integer_sequence<int,16>()); check_holds(holds,k);
    if(unknown) {
        s.label("code of no alternative"); TR("no alternative has this code");
        int how=outcome(c,s.coin());
        if(unexpected_calls!=0) { FAIL("the visitor was called for the code of alternative " << k << ", which is not one of the " << N << " of the variant"); }
        if(how==2) { FAIL("accept returned for a code of no alternative"); }
        return;
    }
    std::size_t reps=1+s.upto(2);
    { ByValue x; for(std::size_t r=0;r!=reps;++r) { Ident i=c.accept(x); if(!(i==Ident{k,static_cast<int>(r)+1})) { wrong(i,k,N); } } REQUIRE_EQ(x.calls,static_cast<int>(reps),"calls of the visitor"); static_assert(std::is_same_v<decltype(c.accept(x)),Ident>); }
    if constexpr(std::is_same_v<C,En> || N==3 || N==10) switch(s.upto(6)) {
      case 5: { Category x, first; c.accept(x); Var(Alt<C,0>()).accept(first); REQUIRE_EQ(x.kind,first.kind,"kind of value (reference, constant) of alternative " << k << " of " << N << " and of the first"); break; }
      case 0: { ByReference x; static_assert(std::is_same_v<decltype(c.accept(x)),int&>); int& r=c.accept(x); REQUIRE(&r==&x.slots[k] && x.calls==1,"reference returned by the visitor of alternative " << k << " of " << N); break; }
      case 1: { Nothing x; static_assert(std::is_void_v<decltype(c.accept(x))>); c.accept(x); REQUIRE(x.calls==1 && x.last==k,"visitor called " << x.calls << " times, with " << x.last << " instead of " << k << " of " << N); break; }
      case 2: { Mover x; MoveOnly m=c.accept(x); REQUIRE(m.i==k && x.calls==1,"result " << m.i << " instead of " << k << " of " << N); break; }
      case 3: { Thrower x; int caught=-1; try { c.accept(x); } catch(int e) { caught=e; } REQUIRE(caught==1000+k && x.calls==1,"exception " << caught << " for " << k << " of " << N); break; }
      case 4: { Overloaded<Alt<C,0>> x; std::string r=c.accept(x); REQUIRE_EQ(r,(k==0?std::string("first"):"other "+std::to_string(k)),"overload, " << N << " alternatives"); break; }
      default: { int calls=0; auto r=c.accept([&calls]<class T>(T const&) { ++calls; return T::code(); }); REQUIRE(r==code_of<C>(k) && calls==1,"code seen by a function called for alternative " << k << " of " << N); break; }
    }
}
template<class C> void any(Src& s) {
    static void (*const f[16])(Src&) = { run<C,1>, run<C,2>, run<C,3>, run<C,4>, run<C,5>, run<C,6>, run<C,7>, run<C,8>, run<C,9>, run<C,10>, run<C,11>, run<C,12>, run<C,13>, run<C,14>, run<C,15>, run<C,16> };
    f[s.upto(15)](s);
}
}
PROP(C23,enumeration,1) { any<En>(s); }
PROP(C23,flat,1) { any<Flat>(s); }
PROP(C23,integer,1) { any<int>(s); }
PROP(C23,character,1) { any<signed char>(s); }
PROP(C23,wide,1) { any<unsigned long>(s); }
#endif
