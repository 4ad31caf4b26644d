// Compile-time predicates on types, against tables computed from the numbers of the types.
#include "../engine/pbt.hpp"
#include <array>
#include <concepts>
#include <functional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "metaprogramming.hpp"

using namespace pbt;

#ifdef P_C34
RULE(C34,"all 341 lists of at most four types out of four are tabulated at compile time; for a generated list and type, whether all are the same, whether the type is one of them, its index, and the first and second must be as for a list of numbers; for generated pairs of 20 types, each predicate on them must agree with the language's own; result types of calls and operators must be those of the expression; non-trivial: a list of two or more types, or two different types")
namespace {
template<std::size_t I> struct Ty; struct S0 { }; template<> struct Ty<0> { using T=int; }; template<> struct Ty<1> { using T=const int; }; template<> struct Ty<2> { using T=S0; }; template<> struct Ty<3> { using T=int&; };
template<class T> constexpr int number() { if constexpr(std::is_same_v<T,int>) { return 0; } else if constexpr(std::is_same_v<T,const int>) { return 1; } else if constexpr(std::is_same_v<T,S0>) { return 2; } else if constexpr(std::is_same_v<T,int&>) { return 3; } else { return -1; } }
struct Row { bool all_same; bool all_same_concept; bool one_of[4]; bool one_of_concept[4]; int index[4]; int first, second; };
template<class T, class... TS> constexpr int index_of() { if constexpr((std::is_same_v<T,TS> || ...)) { return static_cast<int>(Helper::IndexOf<T,TS...>::N); } else { return -1; } }
template<class... TS> constexpr Row row() {
    Row r{}; r.all_same=Helper::AreAllSame<TS...>::value; r.all_same_concept=Helper::AllSame<TS...>;
    auto each=[&]<std::size_t I>(std::integral_constant<std::size_t,I>) { using T=typename Ty<I>::T; r.one_of[I]=Helper::IsOneOf<T,TS...>::value; r.one_of_concept[I]=Helper::OneOf<T,TS...>; r.index[I]=index_of<T,TS...>(); };
    [&]<std::size_t... I>(std::index_sequence<I...>) { (each(std::integral_constant<std::size_t,I>()),...); }(std::make_index_sequence<4>());
    r.first=-1; r.second=-1; if constexpr(sizeof...(TS)>=1) { r.first=number<Helper::FirstType<TS...>>(); } if constexpr(sizeof...(TS)>=2) { r.second=number<Helper::SecondType<TS...>>(); }
    return r; }
template<std::size_t L, std::size_t C, std::size_t... K> constexpr Row coded(std::index_sequence<K...>) { return row<typename Ty<((C>>(2*K))&3)>::T...>(); }
template<std::size_t L, std::size_t... C> std::vector<Row> table(std::index_sequence<C...>) { return { coded<L,C>(std::make_index_sequence<L>())... }; }
template<std::size_t L> std::vector<Row> const& rows() { static const std::vector<Row> t=table<L>(std::make_index_sequence<(std::size_t(1)<<(2*L))>()); return t; }

struct Base { Base() { } }; struct Derived : Base { Derived() { } }; struct Private : private Base { Private() { } }; struct FromInt { FromInt(int) { } }; struct ExplicitInt { explicit ExplicitInt(int) { } FromInt operator=(int) { return 0; } }; struct ToInt { operator int() const { return 1; } }; struct NoCopy { NoCopy(NoCopy const&) = delete; NoCopy() = default; }; struct NoDefault { NoDefault(int,int) { } }; enum class Scoped { a }; enum Plain { plain };
using Fn=int(*)(long);
template<std::size_t I> struct Po; template<> struct Po<0> { using T=int; }; template<> struct Po<1> { using T=double; }; template<> struct Po<2> { using T=Base; }; template<> struct Po<3> { using T=Derived; }; template<> struct Po<4> { using T=Private; }; template<> struct Po<5> { using T=FromInt; }; template<> struct Po<6> { using T=ExplicitInt; }; template<> struct Po<7> { using T=ToInt; }; template<> struct Po<8> { using T=NoCopy; }; template<> struct Po<9> { using T=NoDefault; }; template<> struct Po<10> { using T=Scoped; }; template<> struct Po<11> { using T=Plain; }; template<> struct Po<12> { using T=int&; }; template<> struct Po<13> { using T=const unsigned char; };
template<> struct Po<14> { using T=bool; }; template<> struct Po<15> { using T=const Base&; }; template<> struct Po<16> { using T=int&&; }; template<> struct Po<17> { using T=const long double; }; template<> struct Po<18> { using T=Derived*; }; template<> struct Po<19> { using T=volatile unsigned; };
struct OnlyEqual { friend bool operator==(OnlyEqual const&, OnlyEqual const&) { return true; } OnlyEqual operator+(int) const { return *this; } }; struct OnlyTimes { OnlyTimes operator*(OnlyTimes const&) const { return *this; } bool operator<=(OnlyTimes const&) const { return true; } bool operator!=(OnlyTimes const&) const { return true; } int operator-(OnlyEqual) const { return 0; } }; struct OnlyOver { OnlyOver operator/(OnlyTimes&) const { return *this; } bool operator==(int&) const { return true; } void operator+(OnlyOver) && { } };
template<> struct Po<20> { using T=OnlyEqual; }; template<> struct Po<21> { using T=OnlyTimes; }; template<> struct Po<22> { using T=OnlyOver; };
struct ExplicitCopy { ExplicitCopy() = default; explicit ExplicitCopy(ExplicitCopy const&) { } }; struct MutableCopy { MutableCopy() = default; MutableCopy(MutableCopy&) { } }; struct Final final { Final& operator=(Final const&) = delete; };
template<> struct Po<23> { using T=ExplicitCopy; }; template<> struct Po<24> { using T=MutableCopy; }; template<> struct Po<25> { using T=const Final; };
const std::size_t N=26;
const char* const names[]={"SameAs","Same","SameAsOrConvertibleTo","Convertible","ConvertibleTo","ExplicitlyConvertible","ExplicitlyConvertibleTo","Constructible","ConstructibleFrom","Assignable","AssignableFrom","AssignableTo","DerivedFrom","BaseOf","DefaultInitializable","DefaultConstructible","CopyConstructible","BuiltinArithmetic","BuiltinIntegral","BuiltinFloatingPoint","BuiltinUnsignedIntegral","BuiltinSignedIntegral","HasEquality","CanAdd","CanSubtract","CanMultiply","CanDivide","Constructible from two"};
struct Pred { bool got[28], want[28]; };
template<class A, class B> concept Plus = requires(A a, B b) { a+b; }; template<class A, class B> concept Minus = requires(A a, B b) { a-b; }; template<class A, class B> concept Times = requires(A a, B b) { a*b; }; template<class A, class B> concept Over = requires(A a, B b) { a/b; }; template<class A, class B> concept Equal = requires(A a, B b) { a==b; };
template<class A, class B> Pred pred() {
    constexpr bool conv=std::is_convertible_v<A,B>, cons=std::is_constructible_v<B,A>;
    return { { Helper::SameAs<A,B>, Helper::Same<A,B>, Helper::SameAsOrConvertibleTo<A,B>, Helper::Convertible<A,B>, Helper::ConvertibleTo<A,B>, Helper::ExplicitlyConvertible<A,B>, Helper::ExplicitlyConvertibleTo<A,B>, Helper::Constructible<A,B>, Helper::ConstructibleFrom<A,B>, Helper::Assignable<A,B>, Helper::AssignableFrom<A,B>, Helper::AssignableTo<A,B>, Helper::DerivedFrom<A,B>, Helper::BaseOf<A,B>, Helper::DefaultInitializable<A>, Helper::DefaultConstructible<A>, Helper::CopyConstructible<A>, Helper::BuiltinArithmetic<A>, Helper::BuiltinIntegral<A>, Helper::BuiltinFloatingPoint<A>, Helper::BuiltinUnsignedIntegral<A>, Helper::BuiltinSignedIntegral<A>, Helper::HasEquality<A,B>, Helper::CanAdd<A,B>, Helper::CanSubtract<A,B>, Helper::CanMultiply<A,B>, Helper::CanDivide<A,B>, Helper::Constructible<A,B,B> },
             { std::is_same_v<A,B>, std::is_same_v<A,B>, std::is_same_v<A,B> || conv, conv, conv, cons && !conv, cons && !conv, std::is_constructible_v<A,B>, std::is_constructible_v<A,B>, std::is_assignable_v<A,B>, std::is_assignable_v<A,B>, std::is_assignable_v<B,A>, std::is_base_of_v<B,A> && std::is_convertible_v<const volatile std::remove_reference_t<A>*,const volatile std::remove_reference_t<B>*>, std::is_base_of_v<A,B> && std::is_convertible_v<const volatile std::remove_reference_t<B>*,const volatile std::remove_reference_t<A>*>, std::is_default_constructible_v<A>, std::is_default_constructible_v<A>, std::is_copy_constructible_v<A>, std::is_arithmetic_v<A>, std::is_integral_v<A>, std::is_floating_point_v<A>, std::is_integral_v<A> && std::is_unsigned_v<A>, std::is_integral_v<A> && std::is_signed_v<A>, Equal<A,B>, Plus<A,B>, Minus<A,B>, Times<A,B>, Over<A,B>, std::is_constructible_v<A,B,B> } }; }
template<std::size_t... K> std::vector<Pred> all(std::index_sequence<K...>) { return { pred<typename Po<K/N>::T,typename Po<K%N>::T>()... }; }
struct Call { double operator()(int) const { return 0; } void operator()(std::string const&) { } Base operator()(int,int) { return {}; } };
struct Meter { long v; friend Meter operator+(Meter a, Meter b) { return {a.v+b.v}; } friend long operator*(Meter a, double b) { return static_cast<long>(static_cast<double>(a.v)*b); } friend double operator/(Meter, Meter) { return 1; } Meter& operator+=(int) { return *this; } long operator-=(int) { return 0; } Meter const& operator/=(int) { return *this; } Base operator==(int) const { return {}; } short operator!=(int) const { return 0; } float operator&&(int) const { return 0; } int operator||(int) const { return 0; } friend char operator<(Meter,Meter) { return 'x'; } friend short mag(Meter) { return 0; } int operator-() const { return 0; } };
template<class A, class B> constexpr bool same=std::is_same_v<A,B>;
// functions called with each type: what the library says against what the language allows
struct Picky { int operator()(int&) const { return 0; } }; struct Rvalue { Derived operator()(Derived&&) { return {}; } }; struct OnlyConst { void operator()(Base const&) const { } }; struct Anything { template<class T> T const& operator()(T const& t) const { return t; } }; struct OfDouble { unsigned char operator()(double, int=0) const { return 0; } };
template<std::size_t I> struct Fu; template<> struct Fu<0> { using T=Picky; }; template<> struct Fu<1> { using T=Rvalue; }; template<> struct Fu<2> { using T=const Rvalue; }; template<> struct Fu<3> { using T=OnlyConst const&; }; template<> struct Fu<4> { using T=Anything; }; template<> struct Fu<5> { using T=OfDouble; }; template<> struct Fu<6> { using T=Call; }; template<> struct Fu<7> { using T=Fn; }; template<> struct Fu<8> { using T=int; }; template<> struct Fu<9> { using T=ToInt&(&)(Base const*); };
struct Member { long v; Base f(int) const { return {}; } void g() { } };
const std::size_t NF=10;
struct Inv { bool one, concept_one, two, none, to_int, to_base, ret_int, ret_base, ret_self, ret_void; bool w_one, w_two, w_none, w_to_int, w_to_base, w_ret_int, w_ret_base, w_ret_self, w_ret_void; };
template<class F, class A, class... R> constexpr bool returns() { if constexpr(std::is_invocable_v<F,A>) { return (std::is_convertible_v<std::invoke_result_t<F,A>,R> && ...); } else { return false; } }
template<class F, class A, class R> constexpr bool assigns() { return requires(F(*f)(), A(*a)(), R(*r)()) { std::declval<R>()=std::declval<F>()(std::declval<A>()); }; }
template<class F, class A> Inv inv() { return { Helper::IsInvocable<F,A>::value, Helper::Invocable<F,A>, Helper::Invocable<F,A,A>, Helper::Invocable<F>, Helper::IsInvocableReturning<int&,F,A>::value, Helper::IsInvocableReturning<Base&,F,A>::value, Helper::InvocableReturning<int,F,A>, Helper::InvocableReturning<Base,F,A>, Helper::InvocableReturning<std::remove_cvref_t<A>,F,A>, Helper::InvocableReturning<void,F,A>,
    std::is_invocable_v<F,A>, std::is_invocable_v<F,A,A>, std::is_invocable_v<F>, assigns<F,A,int&>(), assigns<F,A,Base&>(), returns<F,A,int>(), returns<F,A,Base>(), returns<F,A,std::remove_cvref_t<A>>(), returns<F,A,void>() }; }
template<std::size_t... K> std::vector<Inv> invs(std::index_sequence<K...>) { return { inv<typename Fu<K/N>::T,typename Po<K%N>::T>()... }; }
}
PROP(C34,lists,3) {
    std::size_t len=s.upto(4), code=0; std::vector<int> t; for(std::size_t i=0;i!=len;++i) { std::size_t k=s.upto(3); t.push_back(static_cast<int>(k)); code|=k<<(2*i); } if(len>1) { s.nontrivial(); } TR("types " << show(t));
    Row const& r = len==0?rows<0>()[code]:len==1?rows<1>()[code]:len==2?rows<2>()[code]:len==3?rows<3>()[code]:rows<4>()[code]; bool all_same=true; for(int x : t) { all_same=all_same && x==t[0]; }
    REQUIRE(r.all_same==all_same && r.all_same_concept==all_same,"all the same: " << r.all_same << " " << r.all_same_concept << " for types " << show(t));
    for(int k=0;k!=4;++k) { int at=-1; for(std::size_t i=t.size();i-->0;) { if(t[i]==k) { at=static_cast<int>(i); } } REQUIRE(r.one_of[k]==(at>=0) && r.one_of_concept[k]==(at>=0),"type " << k << " one of " << show(t) << ": " << r.one_of[k]); REQUIRE_EQ(r.index[k],at,"index of type " << k << " in " << show(t)); }
    REQUIRE_EQ(r.first,(len>=1?t[0]:-1),"first of " << show(t)); REQUIRE_EQ(r.second,(len>=2?t[1]:-1),"second of " << show(t));
}
PROP(C34,predicates,3) {
    static const std::vector<Pred> t=all(std::make_index_sequence<N*N>()); std::size_t a=s.index(N), b=s.index(N); if(a!=b) { s.nontrivial(); } TR("types " << a << " and " << b); Pred const& p=t[a*N+b]; for(std::size_t i=0;i!=28;++i) { if(p.got[i]!=p.want[i]) { FAIL("predicate " << names[i] << " on types " << a << " and " << b << " is " << p.got[i]); } }
}
PROP(C34,calls,2) {
    static const std::vector<Inv> t=invs(std::make_index_sequence<NF*N>()); std::size_t f=s.index(NF), a=s.index(N); s.nontrivial(); TR("function " << f << " called with type " << a); Inv const& x=t[f*N+a];
    REQUIRE_EQ(x.one,x.w_one,"IsInvocable, function " << f << " type " << a); REQUIRE_EQ(x.concept_one,x.w_one,"Invocable, function " << f << " type " << a); REQUIRE_EQ(x.two,x.w_two,"Invocable with two arguments, function " << f << " type " << a); REQUIRE_EQ(x.none,x.w_none,"Invocable without arguments, function " << f);
    REQUIRE_EQ(x.to_int,x.w_to_int,"IsInvocableReturning int&, function " << f << " type " << a); REQUIRE_EQ(x.to_base,x.w_to_base,"IsInvocableReturning Base&, function " << f << " type " << a); REQUIRE_EQ(x.ret_int,x.w_ret_int,"InvocableReturning int, function " << f << " type " << a); REQUIRE_EQ(x.ret_base,x.w_ret_base,"InvocableReturning Base, function " << f << " type " << a); REQUIRE_EQ(x.ret_self,x.w_ret_self,"InvocableReturning its argument, function " << f << " type " << a); REQUIRE_EQ(x.ret_void,x.w_ret_void,"InvocableReturning void, function " << f << " type " << a);
}
PROP(C34,results,1) {
    s.nontrivial(); std::size_t k=s.upto(36); TR("result " << k); using M=Meter;
    static const bool ok[37]={ same<Helper::InvokeResult<Call const,int>,double>, same<Helper::InvokeResult<Call&,std::string>,void>, same<Helper::ResultOf<Call(int,int)>,Base>, same<Helper::InvokeResult<Fn,int>,int>, same<Helper::SumType<M>,M>, same<Helper::ProductType<M,double>,long>, same<Helper::QuotientType<M>,double>, same<Helper::SumType<int,double>,double>, same<Helper::DifferenceType<char,char>,int> && same<Helper::DifferenceType<char*>,std::ptrdiff_t> && same<Helper::DifferenceType<OnlyTimes,OnlyEqual>,int> && same<Helper::SumType<char const*,int>,char const*> && same<Helper::QuotientType<OnlyOver,OnlyTimes&>,OnlyOver> && same<Helper::ProductType<OnlyTimes>,OnlyTimes> && same<Helper::SumType<OnlyOver>,void> && same<Helper::EqualsType<OnlyEqual>,bool> && same<Helper::LessType<double,int>,bool>, same<Helper::LessType<M>,char>, same<Helper::EqualsType<int,long>,bool>, same<Helper::NegationType<M>,int>, same<Helper::MagType<M>,short>, same<Helper::InplaceSumType<M,int>,M>, same<Helper::InplaceProductType<double,int>,double>, same<Helper::ArithmeticType<float,double>,double>, same<Helper::RemoveConst<const int>,int>, same<Helper::RemoveReference<int&&>,int>, same<Helper::SelfType<Base>,Base>, same<Helper::LogicalNegationType<int>,bool>, 
        Helper::IsInvocable<Call,int>::value && !Helper::IsInvocable<Call,Base>::value && Helper::IsInvocable<Fn,ToInt>::value && !Helper::IsInvocable<int,int>::value, Helper::IsInvocableReturning<int&,Call,int>::value && !Helper::IsInvocableReturning<Base&,Call,int>::value && !Helper::IsInvocableReturning<int&,Call,Base>::value,
        Helper::Invocable<Call,int> && Helper::Invocable<Call,int,int> && !Helper::Invocable<Call> && !Helper::Invocable<Call const,int,int> && !Helper::Invocable<Call,Base>, Helper::InvocableReturning<int,Call,int> && Helper::InvocableReturning<Base,Call,int,int> && !Helper::InvocableReturning<Derived,Call,int,int> && !Helper::InvocableReturning<int,Call,Base> && !Helper::InvocableReturning<FromInt,Call,int,int>, same<Helper::ReturnType<Helper::Return<M>>,M>,
        same<Helper::ComparisonType<M>,char>, same<Helper::EqualityType<M,int>,Base>, same<Helper::InequalityType<M,int>,short>, same<Helper::EqualsType<M,int>,Base>, same<Helper::InplaceDifferenceType<M,int>,long>, same<Helper::InplaceQuotientType<M,int>,const M>, same<Helper::LogicalConjunctionType<M,int>,float>, same<Helper::LogicalDisjunctionType<M,int>,int>, same<Helper::ResultOfTrait<Call&(std::string)>::Type,void>, same<Helper::ArithmeticType<M,double>,long>, same<Helper::IntegralConstant<char,'x'>,std::integral_constant<char,'x'>> && Helper::True::value && !Helper::False::value, Helper::Convertible<M,Helper::DontCare> && Helper::Convertible<Base*,Helper::DontCare> && !Helper::Convertible<Helper::Fallback,M> };
    using F=Base(Member::*)(int) const; using G=void(Member::*)(); using V=long Member::*;
    static const bool members[14]={ Helper::Invocable<F,Member&,int>, Helper::Invocable<F,Member const*,char>, Helper::Invocable<F,Member,int>, !Helper::Invocable<F,Member>, !Helper::Invocable<F,Base,int>, Helper::Invocable<G,Member&>, !Helper::Invocable<G,Member const&>, Helper::Invocable<V,Member const&>, !Helper::Invocable<V>, same<Helper::InvokeResult<F,Member&,int>,Base>, same<Helper::InvokeResult<V,Member&>,long&>, same<Helper::InvokeResult<V,Member const*>,long const&>, Helper::InvocableReturning<Base,F,Member,int> && !Helper::InvocableReturning<Derived,F,Member,int>, Helper::InvocableReturning<double,V,Member> && !Helper::InvocableReturning<Base,V,Member> };
    for(std::size_t i=0;i!=14;++i) { REQUIRE(members[i],"a pointer to a member as a function, number " << i); }
    REQUIRE(ok[k],"result type number " << k << " is wrong");
}
#endif
