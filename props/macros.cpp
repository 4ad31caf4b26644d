// Assertions and the unit-test macros.
#include "../engine/pbt.hpp"
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <iomanip>
#include <limits>
#include <string>
#include <vector>
#include "macros.hpp"

using namespace pbt;

namespace {
//! Convertible to a truth value only explicitly, and counting its conversions.
struct Truth { bool b; int* n; explicit operator bool() const { ++*n; return b; } };
bool has(std::string const& text, std::string const& part) { return text.find(part)!=std::string::npos; }
}

#ifdef P_C32
RULE(C32,"each assertion macro is used with generated values, in conditions with side effects, with operators of any precedence, with objects that convert to a truth value, and with variables of any name; it must throw the stated exception exactly if the condition is false, with a message that names the file, the line, the condition and the caller's text, evaluating the condition once and the text only on failure; the debug macros must do so only in a build without NDEBUG; notices must go to the error stream, the once-only ones once; non-trivial: a failing assertion, or one that is not compiled in");
namespace {
#ifdef NDEBUG
const bool DEBUG=false;
#else
const bool DEBUG=true;
#endif
struct Out { bool thrown=false; bool other=false; std::string what; };
template<class F> Out run(F f) { Out o; try { f(); } catch(std::runtime_error const& e) { o.thrown=true; o.what=e.what(); if(typeid(e)!=typeid(std::runtime_error)) { o.other=true; } } return o; }
//! The outcome of an assertion on a condition that was ok, evaluated evals times; the text was evaluated texts times (<0: there was none).
void judge(Src& s, Out const& o, bool compiled, bool ok, int evals, int line, const char* kind, const char* expr, const char* msg, int texts) {
    TR(kind << " of " << expr << (ok?" (true)":" (false)"));
    if(!ok || !compiled) { s.nontrivial(); }
    REQUIRE(o.thrown==(compiled && !ok),"thrown: " << o.thrown << " for condition `" << expr << "' which is " << ok); REQUIRE(!o.other,"another exception than std::runtime_error");
    if(evals>=0) { REQUIRE_EQ(evals,(compiled?1:0),"evaluations of the condition `" << expr << "'"); }
    if(texts>=0) { REQUIRE_EQ(texts,(compiled && !ok?1:0),"evaluations of the message for condition `" << expr << "'"); }
    if(o.thrown) { std::string at=std::string(__FILE__)+":"+std::to_string(line); for(std::string const& part : {at,std::string(kind),std::string(expr),std::string(msg)}) { if(!has(o.what,part)) { FAIL("the message " << show(o.what) << " does not contain " << show(part)); } } }
}
struct Odd { long v; friend std::ostream& operator<<(std::ostream& os, Odd const& o) { return os << "Odd#" << o.v; } bool operator==(Odd const&) const = default; };
struct Custom { std::string text; explicit Custom(std::string t) : text(std::move(t)) { } };
void warn_a(long x) { HELPER_WARN_ONCE("once a " << x) } void warn_b(long x) { HELPER_WARN_ONCE("once b " << x) }
void old() { HELPER_DEPRECATED(old,use new) }
//! Two once-only notices in one function, about a variable of any name, under conditions without braces.
void twice(long first_time, bool second) { HELPER_WARN_ONCE("one of " << first_time) if(second) HELPER_WARN_ONCE("two of " << first_time) for(int k=0;k!=3;++k) HELPER_WARN_ONCE("three of " << k) HELPER_DEPRECATED(twice,use once) }
int not_yet(long x) { if(x>0) { return 1; } HELPER_NOT_IMPLEMENTED }
}
PROP(C32,conditions,6) {
    long x=s.irange(-3,3), y=s.irange(-3,3); int n=0, line=0, m=0; std::string note=s.str(10); bool compiled=true; Out o; auto text=[&]{ ++m; return note; };
    switch(s.upto(19)) {
      case 0: o=run([&]{ line=__LINE__; HELPER_ASSERT((++n,x<y)); }); judge(s,o,true,x<y,n,line,"Assertion","++n,x<y","",-1); break;
      case 1: o=run([&]{ line=__LINE__; HELPER_ASSERT((Truth{x!=y,&n})); }); judge(s,o,true,x!=y,n,line,"Assertion","Truth{x!=y,&n}","",-1); break;
      case 2: o=run([&]{ line=__LINE__; HELPER_ASSERT(n++==0 && x==y); }); judge(s,o,true,x==y,n,line,"Assertion","n++==0 && x==y","",-1); break;
      case 3: o=run([&]{ line=__LINE__; HELPER_ASSERT(x<y ? (++n,y>2) : (++n,x>2)); }); judge(s,o,true,x<y?y>2:x>2,n,line,"Assertion","x<y ? (++n,y>2) : (++n,x>2)","",-1); break;
      case 4: o=run([&]{ line=__LINE__; HELPER_PRECONDITION(n++==0 && x<=y); }); judge(s,o,true,x<=y,n,line,"Precondition","n++==0 && x<=y","",-1); break;
      case 5: o=run([&]{ line=__LINE__; HELPER_PRECONDITION((Truth{(x&1)!=0,&n})); }); judge(s,o,true,(x&1)!=0,n,line,"Precondition","Truth{(x&1)!=0,&n}","",-1); break;
      case 6: o=run([&]{ line=__LINE__; HELPER_PRECONDITION_MSG(++n && x>y,"<" << text() << "> " << x << "," << y); }); judge(s,o,true,x>y,n,line,"Precondition","++n && x>y",("<"+note+"> "+std::to_string(x)+","+std::to_string(y)).c_str(),m); break;
      case 7: o=run([&]{ line=__LINE__; HELPER_ASSERT_MSG(++n && x>=y,"<" << text() << "> " << x << "," << y); }); judge(s,o,true,x>=y,n,line,"Assertion","++n && x>=y",("<"+note+"> "+std::to_string(x)+","+std::to_string(y)).c_str(),m); break;
      case 8: o=run([&]{ line=__LINE__; HELPER_ASSERT_EQUAL(x,y); }); judge(s,o,true,x==y,-1,line,"Assertion","x==y",(std::to_string(x)+" != "+std::to_string(y)).c_str(),-1); break;
      case 9: { Odd a{x}, b{y}; o=run([&]{ line=__LINE__; HELPER_ASSERT_EQUAL(a,b); }); judge(s,o,true,x==y,-1,line,"Assertion","a==b",("Odd#"+std::to_string(x)+" != Odd#"+std::to_string(y)).c_str(),-1); break; }
      case 10: { long u=x+3, v=y+3; o=run([&]{ line=__LINE__; HELPER_ASSERT_EQUAL(u&3,v|1); }); judge(s,o,true,(u&3)==(v|1),-1,line,"Assertion","u&3==v|1",(std::to_string(u&3)+" != "+std::to_string(v|1)).c_str(),-1); break; }
      case 11: { o=run([&]{ line=__LINE__; HELPER_ASSERT_EQUAL(x<y,y>0 ? 1 : 0); }); judge(s,o,true,(x<y)==(y>0),-1,line,"Assertion","x<y==y>0 ? 1 : 0",(std::to_string(x<y)+" != "+std::to_string(y>0)).c_str(),-1); break; }
      case 12: compiled=DEBUG; o=run([&]{ line=__LINE__; HELPER_DEBUG_ASSERT(++n && x<y); }); judge(s,o,compiled,x<y,n,line,"Assertion","++n && x<y","",-1); break;
      case 13: compiled=DEBUG; o=run([&]{ line=__LINE__; HELPER_DEBUG_ASSERT_MSG(++n && x<y,"<" << text() << ">" << x); }); judge(s,o,compiled,x<y,n,line,"Assertion","++n && x<y",("<"+note+">"+std::to_string(x)).c_str(),m); break;
      case 14: compiled=DEBUG; o=run([&]{ line=__LINE__; HELPER_DEBUG_PRECONDITION(++n && x!=y); }); judge(s,o,compiled,x!=y,n,line,"Precondition","++n && x!=y","",-1); break;
      case 15: { compiled=DEBUG; [[maybe_unused]] bool result=x<y; o=run([&]{ line=__LINE__; HELPER_DEBUG_PRECONDITION(result); }); judge(s,o,compiled,x<y,-1,line,"Precondition","result","",-1); break; }
      case 16: { bool result=x<y; o=run([&]{ line=__LINE__; HELPER_PRECONDITION(result); }); judge(s,o,true,x<y,-1,line,"Precondition","result","",-1); [[maybe_unused]] bool ok=x>y, error=x==y; o=run([&]{ line=__LINE__; HELPER_ASSERT(ok || error); }); judge(s,o,true,x>=y,-1,line,"Assertion","ok || error","",-1); o=run([&]{ line=__LINE__; HELPER_DEBUG_ASSERT(result || error); }); judge(s,o,DEBUG,x<=y,-1,line,"Assertion","result || error","",-1); { [[maybe_unused]] bool assertion_result=x<y, helper_result=x>y, result_=x==y; o=run([&]{ line=__LINE__; HELPER_ASSERT(assertion_result || helper_result); }); judge(s,o,true,x!=y,-1,line,"Assertion","assertion_result || helper_result","",-1); o=run([&]{ line=__LINE__; HELPER_PRECONDITION(assertion_result); }); judge(s,o,true,x<y,-1,line,"Precondition","assertion_result","",-1); o=run([&]{ line=__LINE__; HELPER_ASSERT_MSG(!assertion_result,assertion_result << "!"); }); judge(s,o,true,x>=y,-1,line,"Assertion","!assertion_result","1!",-1); o=run([&]{ line=__LINE__; HELPER_ASSERT_EQUAL(assertion_result,result_); }); judge(s,o,true,(x<y)==(x==y),-1,line,"Assertion","assertion_result==result_",(x<y?"1 != 0":"0 != 1"),-1); o=run([&]{ line=__LINE__; HELPER_DEBUG_PRECONDITION(assertion_result); }); judge(s,o,DEBUG,x<y,-1,line,"Precondition","assertion_result","",-1); o=run([&]{ line=__LINE__; HELPER_DEBUG_ASSERT_MSG(assertion_result,"m"); }); judge(s,o,DEBUG,x<y,-1,line,"Assertion","assertion_result","m",-1); } break; }
      case 17: { std::size_t k=s.upto(4); std::size_t sum=0; o=run([&]{ for(std::size_t i=0;i!=4;++i) { line=__LINE__; HELPER_ASSERT_MSG(i!=k,"entry " << i); sum+=i; } }); judge(s,o,true,k==4,-1,line,"Assertion","i!=k",("entry "+std::to_string(k)).c_str(),-1); REQUIRE_EQ(sum,(k==4?std::size_t(6):k*(k-1)/2),"passes of the loop before the assertion failed"); break; }
      case 18: { bool caught=false; try { HELPER_ASSERT((x<y ? throw Odd{x} : true)); } catch(Odd const& e) { caught=true; REQUIRE_EQ(e.v,x,"exception of the condition"); } if(x<y) { s.nontrivial(); } REQUIRE_EQ(caught,x<y,"an exception of the condition itself"); break; }
      default: { void* p=x<0?nullptr:&x; o=run([&]{ line=__LINE__; HELPER_ASSERT(p); }); judge(s,o,true,x>=0,-1,line,"Assertion","p","",-1); double d=static_cast<double>(y)/4; o=run([&]{ line=__LINE__; HELPER_PRECONDITION(d); }); judge(s,o,true,y!=0,-1,line,"Precondition","d","",-1); }
    }
}
PROP(C32,failures,2) {
    s.nontrivial(); long x=s.irange(-9,9); std::string note=s.str(10); TR(x << " " << note);
    { int line=0; Out o=run([&]{ line=__LINE__; HELPER_FAIL_MSG("because " << x << note); }); judge(s,o,true,false,-1,line,"","",("because "+std::to_string(x)+note).c_str(),-1); }
    { std::string got; try { HELPER_THROW(std::out_of_range,"somewhere","index " << x << " of " << note) } catch(std::out_of_range const& e) { got=e.what(); } for(std::string const& part : {std::string("std::out_of_range"),std::string("somewhere"),"index "+std::to_string(x)+" of "+note}) { REQUIRE(has(got,part),"the message " << show(got) << " does not contain " << show(part)); } }
    { std::string got; try { HELPER_THROW(Custom,"f" << 1,x) } catch(Custom const& e) { got=e.text; } REQUIRE(has(got,"Custom") && has(got,"f1") && has(got,std::to_string(x)),"message " << show(got)); }
    { bool t=false; std::string got; try { REQUIRE_EQ(not_yet(x),1,"result"); } catch(std::runtime_error const& e) { t=true; got=e.what(); } REQUIRE_EQ(t,!(x>0),"thrown"); if(t) { REQUIRE(has(got,"not_yet"),"the message " << show(got) << " does not name the function"); } }
    { bool t=false; try { if(x>0) HELPER_FAIL_MSG("positive") } catch(std::runtime_error const&) { t=true; } REQUIRE_EQ(t,x>0,"a failure under a condition"); }
}
PROP(C32,texts,2) {        // the text is what the caller's expressions would write to a new stream, whatever their types and names
    s.nontrivial(); bool flag=s.coin(); double d=s.real(); long x=s.num(-1000000,1000000); std::string ss=s.str(8); void* p=&x; int line=0, way=static_cast<int>(s.upto(7)); std::ostringstream w; Out o; TR("way " << way << ": " << flag << " " << d << " " << x << " " << ss);
    switch(way) {
      case 0: w << ss << flag << "," << !flag << "," << d; o=run([&]{ line=__LINE__; HELPER_ASSERT_MSG(x!=x,ss << flag << "," << !flag << "," << d); }); break;
      case 1: w << flag << d << ss; o=run([&]{ line=__LINE__; HELPER_PRECONDITION_MSG(ss!=ss,flag << d << ss); }); break;
      case 2: w << "x=" << x << std::hex << " " << x << p; o=run([&]{ line=__LINE__; HELPER_ASSERT_MSG(false,"x=" << x << std::hex << " " << x << p); }); break;
      case 3: w << std::boolalpha << flag << std::setprecision(3) << d; o=run([&]{ line=__LINE__; HELPER_PRECONDITION_MSG(false,std::boolalpha << flag << std::setprecision(3) << d); }); break;
      case 4: w << flag << x << ss; o=run([&]{ line=__LINE__; HELPER_FAIL_MSG(flag << x << ss); }); break;
      case 5: { std::ostringstream expected; std::string got; try { HELPER_THROW(std::runtime_error,ss << flag,d << ss << flag) } catch(std::runtime_error const& e) { got=e.what(); } w << ss << flag; REQUIRE(has(got,w.str()),"message " << show(got) << " without " << show(w.str())); w.str(""); w << d << ss << flag; REQUIRE(has(got,w.str()),"message " << show(got) << " without " << show(w.str())); return; }
      case 6: { std::string sss=ss+"#"; w << ss << " != " << sss; o=run([&]{ line=__LINE__; HELPER_ASSERT_EQUAL(ss,sss); }); REQUIRE(has(o.what,"ss==sss"),"message " << show(o.what)); break; }
      default: { bool a=flag, b=!flag; w << a << " != " << b; o=run([&]{ line=__LINE__; HELPER_ASSERT_EQUAL(a,b); }); break; } }
    REQUIRE(o.thrown && !o.other,"exception"); std::string at=std::string(__FILE__)+":"+std::to_string(line); REQUIRE(has(o.what,w.str()) && has(o.what,at),"the message " << show(o.what) << " does not contain " << show(w.str()));
    { std::size_t end=o.what.rfind(w.str())+w.str().size(); REQUIRE(o.what.find_first_not_of(" \n.",end)==std::string::npos,"the message " << show(o.what) << " goes on behind " << show(w.str())); }
}
namespace { struct Unwinding { std::string t; std::string* got; void old_way() const { HELPER_DEPRECATED(old_way,t) } ~Unwinding() { Capture out(std::cout); { Capture err(std::cerr); HELPER_WARN(t << 1) HELPER_NOTIFY(t << 2) HELPER_ERROR(t << 3) static int round=0; ++round; if(round==1) { old_way(); HELPER_WARN_ONCE("while unwinding") } *got=err.text(); if(round==1 && !(has(*got,"old_way") && has(*got,"while unwinding"))) { *got="once-only notices are missing: "+*got; } } *got+=out.text().empty()?"":"; on the output stream: "+out.text(); } }; }
PROP(C32,unwinding,1) {    // notices, and failures that are caught, while an exception is on its way
    std::string t=s.str(6,"abc"), got; long x=s.irange(-9,9); s.nontrivial(); TR(t << x); long e=-100; try { Unwinding u{t,&got}; throw x; } catch(long y) { e=y; } REQUIRE_EQ(e,x,"the exception on its way"); for(int k=1;k!=4;++k) { REQUIRE(has(got,t+std::to_string(k)),"notices given while an exception is on its way: " << show(got)); } REQUIRE(!has(got,"missing") && !has(got,"on the output"),show(got));
    struct Inner { std::string* w; ~Inner() { try { HELPER_ASSERT_MSG(w==nullptr,"inside") } catch(std::runtime_error const& r) { *w=r.what(); } } }; std::string w; try { Inner i{&w}; HELPER_FAIL_MSG("outside " << x) } catch(std::runtime_error const& r) { got=r.what(); } REQUIRE(has(w,"inside") && !has(w,"outside") && has(got,"outside "+std::to_string(x)) && !has(got,"inside"),"messages " << show(w) << " and " << show(got));
}
namespace { int told=0; std::string nested_text(long x); void tell_once(long x) { HELPER_WARN_ONCE("told " << x << nested_text(x)) ++told; } int depth=0; std::string nested_text(long x) { if(depth>3) { return "!"; } ++depth; tell_once(x); --depth; return "."; } }
PROP(C32,notices,1) {
    s.nontrivial(); long x=s.irange(-9,9); std::string note=s.str(10); TR(x << " " << note); std::string want=note+std::to_string(x);
    { Capture out(std::cout); { Capture err(std::cerr); HELPER_WARN(note << x); REQUIRE(has(err.text(),want) && err.text().back()=='\n',"warning " << show(err.text())); } { Capture err(std::cerr); HELPER_NOTIFY(note << x); REQUIRE(has(err.text(),want) && err.text().back()=='\n',"notification " << show(err.text())); } { Capture err(std::cerr); HELPER_ERROR(note << x); REQUIRE(has(err.text(),want) && err.text().back()=='\n',"error " << show(err.text())); } REQUIRE_EQ(out.text(),std::string(),"on the output stream"); }
    { static bool a_seen=false, b_seen=false, old_seen=false; Capture err(std::cerr); std::string before; std::size_t ops=1+s.upto(5); for(std::size_t i=0;i!=ops;++i) { std::size_t k=s.upto(2); before=err.text(); if(k==0) { warn_a(x); } else if(k==1) { warn_b(x); } else { old(); } bool& seen=k==0?a_seen:k==1?b_seen:old_seen; std::string got=err.text().substr(before.size()); REQUIRE_EQ(got.empty(),seen,"a warning that is given once, wrote " << show(got)); if(!seen) { REQUIRE(k==2?has(got,"old"):has(got,(k==0?"once a ":"once b ")+std::to_string(x)),"text " << show(got)); } seen=true; } }
    { static bool one=false, two=false; bool second=s.coin(); Capture err(std::cerr); twice(x,second); std::string got=err.text(), X=std::to_string(x); REQUIRE_EQ(has(got,"one of "+X),!one,"first notice of a function"); REQUIRE_EQ(has(got,"three of 0"),!one,"notice in a loop"); REQUIRE(!has(got,"three of 1") && !has(got,"three of 2"),"a notice in a loop is given again"); REQUIRE_EQ(has(got,"two of "+X),second && !two,"notice under a condition"); REQUIRE_EQ(has(got,"DEPRECATED"),!one,"deprecation after other notices"); one=true; two=two || second; }
    { static bool told_once=false; Capture err(std::cerr); tell_once(x); std::string got=err.text(); std::size_t times=0; for(std::size_t p=got.find("WARNING");p!=std::string::npos;p=got.find("WARNING",p+1)) { ++times; } REQUIRE_EQ(times,(told_once?0u:1u),"warnings given by one that is given once and whose text passes it again: " << show(got)); told_once=true; }
}
#endif

#ifdef P_C33
#include "test.hpp"
#include "string.hpp"
#include "metaprogramming.hpp"
RULE(C33,"1..12 uses of the unit-test macros with generated values, thrown exceptions and skipped calls; after each the counts of failures and skipped tests must have gone up by one exactly if it should, with a line naming the place on the error stream exactly then; checks that pass evaluate their arguments once; nothing may stop the tests after a failure; reals next to the bounds of a tolerance, operands of differing types, and objects made by the constructing macros; non-trivial: some use failed and some passed")
namespace {
using Helper::Same; using Helper::First; using Helper::String; using Helper::class_name;
struct Val { long v; bool operator==(Val const&) const = default; friend std::ostream& operator<<(std::ostream& os, Val const& a) { return os << "v" << a.v; } };
bool same(Val const& a, Val const& b) { return a==b; }
struct Weird { int k; };
long toss(long x, int how) { if(how==1) { throw std::exception(); } if(how==2) { throw std::runtime_error(""); } if(how==3) { throw std::bad_alloc(); } if(how==4) { throw std::make_error_code(std::errc::timed_out).value()>0 ? std::system_error(std::make_error_code(std::errc::timed_out),"late") : std::system_error(std::error_code()); } return x; }
long give(long x, int how) { if(how==1) { throw std::out_of_range("out"); } if(how==2) { throw Weird{3}; } return x; }
bool is_small(long x) { return x<2; } bool less(long x, long y) { return x<y; }
struct Maybe { long v=0; Maybe() { if(refuse) { throw std::runtime_error("refused"); } } Maybe(long x) : v(x) { } static inline bool refuse=false; static Maybe named(long x) { return Maybe(x); } friend std::ostream& operator<<(std::ostream& os, Maybe const& m) { return os << m.v; } };
struct Suite { long x; void test() const; };
void Suite::test() const { HELPER_TEST_EQUAL(x,0L); HELPER_TEST_CALL(give(x,1)); }
int evals=0; long once(long x) { ++evals; return x; }
bool inside(double e, double x, double t) { return std::fabs(e-x)<=t; }
//! Two types that compare in one direction only, cannot be copied, and say which comparison was made.
struct Right; struct Left { long v; explicit Left(long x) : v(x) { } Left(Left const&)=delete; friend std::ostream& operator<<(std::ostream& os, Left const& a) { return os << "L" << a.v; } };
struct Right { long v; explicit Right(long x) : v(x) { } Right(Right const&)=delete; friend std::ostream& operator<<(std::ostream& os, Right const& a) { return os << "R" << a.v; } };
struct Cmp { static inline std::string log; };
#define COMPARISON(op) bool operator op(Left const& a, Right const& b) { Cmp::log+=#op; return a.v*2 op b.v; }
COMPARISON(==) COMPARISON(<) COMPARISON(<=) COMPARISON(>) COMPARISON(>=) bool operator!=(Left const& a, Right const& b) { Cmp::log+="!="; return a.v*2+1 != b.v; }      // not the opposite of ==
#undef COMPARISON
bool same(Left const& a, Right const& b) { Cmp::log+="same"; return a.v+1==b.v; } bool related(Left const& a, Right const& b) { return a.v-1==b.v; } bool odd(Left const& a) { return a.v%2!=0; }
//! Runs one macro; returns how many failures it should count.
struct Use { int failures=0, skipped=0; bool passes_once=false; int want_evals=1; const char* name=""; bool throws_out=false; };
}
PROP(C33,counting,1) {
    std::size_t nops=1+s.upto(11); bool passed=false, failed=false;
    for(std::size_t op=0;op!=nops;++op) {
        long x=s.irange(-2,3), y=s.irange(-2,3); int how=static_cast<int>(s.upto(3)); if(how==3) { how=0; } Val a{x}, b{y}; std::size_t kind=s.upto(34); int f0=HELPER_TEST_FAILURES, k0=HELPER_TEST_SKIPPED, first_line=__LINE__, last_line; Use u; evals=0; std::string err, out; long w=0; bool left=false; bool check_err=true;
        { Capture co(std::cout); Capture ce(std::cerr);
          try { switch(kind) {
            case 0: u.name="ASSERT"; u.failures=!(x<y); u.passes_once=true; HELPER_TEST_ASSERT(once(x)<y) break;
            case 1: u.name="CHECK"; u.failures=x!=y; u.passes_once=true; HELPER_TEST_CHECK(once(x),y) break;
            case 2: u.name="CHECK_WARN"; u.passes_once=x==y; check_err=x==y; HELPER_TEST_CHECK_WARN(once(x),y) break;
            case 3: u.name="SAME"; u.failures=x!=y; HELPER_TEST_SAME(a,b) break;
            case 4: u.name="SAME_AS"; u.failures=x!=y; HELPER_TEST_SAME_AS(a,b) break;
            case 5: u.name="EQUAL"; u.failures=x!=y; u.passes_once=true; HELPER_TEST_EQUAL(once(x),y) break;
            case 6: u.name="EQUAL of conditions"; u.failures=(x<0)!=(y<0); HELPER_TEST_EQUAL(x<0,y<0) break;
            case 7: u.name="NOT_EQUAL"; u.failures=x==y; u.passes_once=true; HELPER_TEST_NOT_EQUAL(once(x),y) break;
            case 8: u.name="EQUALS"; u.failures=x!=y; u.passes_once=true; HELPER_TEST_EQUALS(once(x),y) break;
            case 9: { long t=s.irange(0,3); u.name="WITHIN of integers"; u.failures=std::labs(x-y)>t; int p=static_cast<int>(x), q=static_cast<int>(y), r=static_cast<int>(t); HELPER_TEST_WITHIN(p,q,r) break; }
            case 10: u.name="LESS"; u.failures=!(x<y); u.passes_once=true; HELPER_TEST_LESS(once(x),y) break;
            case 11: u.name="UNARY_PREDICATE"; u.failures=!is_small(x); HELPER_TEST_UNARY_PREDICATE(is_small,x) break;
            case 12: u.name="BINARY_PREDICATE"; u.failures=!less(x,y); HELPER_TEST_BINARY_PREDICATE(less,x,y) break;
            case 13: u.name="COMPARE"; u.failures=!(x>=y); HELPER_TEST_COMPARE(x,>=,y) break;
            case 14: u.name="RESULT_COMPARE"; u.failures=!(x<=y); u.passes_once=true; HELPER_TEST_RESULT_COMPARE(long,once(x),<=,y) break;
            case 15: u.name="TRY"; u.failures=how!=0; HELPER_TEST_TRY(w=give(x,how)) if(how==0) { REQUIRE_EQ(w,x,"the statement was executed"); } break;
            case 16: u.name="EVALUATE"; u.failures=how!=0; HELPER_TEST_EVALUATE(give(x,how)) break;
            case 17: u.name="ASSIGN"; u.failures=how!=0; HELPER_TEST_ASSIGN(w,give(x,how)) if(how==0) { REQUIRE_EQ(w,x,"the variable was assigned"); } break;
            case 18: u.name="CALL"; if(how==2) { how=1; } u.failures=how!=0; HELPER_TEST_CALL(w=give(x,how)) break;
            case 19: u.name="SKIP"; u.skipped=1; HELPER_TEST_SKIP(w=1) REQUIRE_EQ(w,0L,"a skipped call was made"); break;
            case 20: u.name="EXECUTE"; u.throws_out=how!=0; HELPER_TEST_EXECUTE(w=give(x,how)) REQUIRE_EQ(w,x,"the statement was executed"); break;
            case 21: u.name="PRINT"; HELPER_TEST_PRINT(a) break;
            case 22: u.name="THROWS"; if(how==2) { how=0; } u.failures=how!=1; HELPER_TEST_THROWS(give(x,how),std::out_of_range) break;
            case 23: u.name="THROWS, base class"; if(how==2) { how=1; } u.failures=how!=1; HELPER_TEST_THROWS(give(x,how),std::exception) break;
            case 31: { int h=static_cast<int>(s.upto(4)); u.name="THROWS, of many classes"; u.failures=h!=2 && h!=4; HELPER_TEST_THROWS(toss(x,h),std::runtime_error) break; }
            case 32: { int h=static_cast<int>(s.upto(4)); u.name="THROWS, the most basic class"; u.failures=h==0; HELPER_TEST_THROWS(toss(x,h),std::exception) break; }
            case 33: { int h=static_cast<int>(s.upto(4)); u.name="CALL, exceptions of many classes"; u.failures=h!=0; HELPER_TEST_CALL(toss(x,h)) break; }
            case 34: { int h=static_cast<int>(s.upto(4)); u.name="FAIL, exceptions of many classes"; u.failures=h==0; HELPER_TEST_FAIL(toss(x,h)) break; }
            case 24: u.name="THROWS, other class"; if(how==2) { how=1; } u.failures=1; HELPER_TEST_THROWS(give(x,how),std::bad_alloc) break;
            case 25: u.name="FAIL"; u.failures=how==0; HELPER_TEST_FAIL(give(x,how)) break;
            case 26: { u.name="STATIC_ASSERT"; if(s.coin()) { using L=std::is_same<int,int>; HELPER_TEST_STATIC_ASSERT(L) HELPER_TEST_CONCEPT(Same<int,int>) HELPER_TEST_SAME_TYPE(String,String) } else { u.failures=3; HELPER_TEST_STATIC_ASSERT(std::is_same<int,long>) HELPER_TEST_CONCEPT(Same<int,long>) HELPER_TEST_SAME_TYPE(String,int) } break; }
            case 27: { u.name="CLASS"; u.failures=1+(x!=0); Suite suite{x}; HELPER_TEST_CLASS(Suite,suite) REQUIRE_EQ(HELPER_CURRENT_TESTING_CLASS,std::string("Suite"),"class under test"); break; }
            case 28: { u.name="CONSTRUCT"; Maybe::refuse=false; HELPER_TEST_CONSTRUCT(Maybe,m,(x)) REQUIRE_EQ(m.v,x,"constructed"); HELPER_TEST_NAMED_CONSTRUCT(Maybe,n,named(x)) REQUIRE_EQ(n.v,x,"constructed"); HELPER_TEST_ASSIGN_CONSTRUCT(Maybe,p,x+1) REQUIRE_EQ(p.v,x+1,"constructed"); HELPER_TEST_DEFAULT_CONSTRUCT(Maybe,q) REQUIRE_EQ(q.v,0L,"constructed"); break; }
            case 29: { u.name="WITHIN of reals"; double p=static_cast<double>(s.irange(-20,20))/8, q=s.coin()?p+static_cast<double>(s.irange(-8,8))/8:static_cast<double>(s.irange(-20,20))/8, r=static_cast<double>(s.irange(0,9))/8; if(s.chance(1,8)) { p=std::nan(""); } u.failures=!inside(p,q,r); switch(s.upto(2)) { case 0: HELPER_TEST_WITHIN(p,q,r) break; case 1: { double h=q/2; HELPER_TEST_WITHIN(p,h+h,r) break; } default: { float e=static_cast<float>(p), f=static_cast<float>(q), g=static_cast<float>(r); HELPER_TEST_WITHIN(e,f,g) } } break; }
            default: { u.name="titles"; check_err=false; HELPER_PRINT_TEST_CASE_TITLE("case " << x) HELPER_PRINT_TEST_COMMENT("note " << x) HELPER_TEST_NOTIFY("notice " << x) HELPER_TEST_WARN("warning " << x) REQUIRE(has(co.text(),"case "+std::to_string(x)) && has(co.text(),"note "+std::to_string(x)) && has(co.text(),"warning "+std::to_string(x)) && has(ce.text(),"warning "+std::to_string(x)) && has(ce.text(),"notice "+std::to_string(x)),"titles and notices"); break; }
          } } catch(std::out_of_range const&) { left=true; } catch(Weird const&) { left=true; }
          err=ce.text(); out=co.text(); }
        last_line=__LINE__; std::string where=std::string(u.name)+" with "+std::to_string(x)+", "+std::to_string(y)+", "+std::to_string(how); TR(where);
        REQUIRE_EQ(HELPER_TEST_FAILURES-f0,u.failures,"failures counted by " << where); REQUIRE_EQ(HELPER_TEST_SKIPPED-k0,u.skipped,"skipped counted by " << where); REQUIRE_EQ(left,u.throws_out,"an exception leaves " << where);
        if(u.failures==0 && u.passes_once) { REQUIRE_EQ(evals,1,"evaluations by " << where); }
        if(check_err) { REQUIRE_EQ(err.empty(),u.failures==0,"text on the error stream of " << where << ": " << show(err)); }
        if(u.failures>0) { REQUIRE(has(err,"ERROR") && has(out,kind==15||kind==16||kind==17?"exception":"ERROR"),"no error is shown by " << where << ": " << show(err) << show(out)); std::string at=std::string(__FILE__)+":"; std::size_t p=err.find(at); REQUIRE(p!=std::string::npos,"the error of " << where << " does not name the file: " << show(err)); if(kind!=27) { int line=std::atoi(err.c_str()+p+at.size()); REQUIRE(line>first_line && line<last_line,"the error of " << where << " names line " << line); } }
        if(u.failures==0 && !left && !((kind>=22 && kind<=25) || (kind>=30 && kind<=34))) { REQUIRE(!has(out,"false") && !has(out,"ERROR") && !has(out,"exception"),"the output of " << where << " speaks of failure: " << show(out)); } else if(u.failures==1 && !(kind>=26 && kind<=28)) { REQUIRE(!has(out,"true") && !has(out,"(ok)"),"the output of " << where << " speaks of success: " << show(out)); }
        if(u.failures>0) { failed=true; s.label("failing use"); } else if(!left) { passed=true; }
    }
    if(passed && failed) { s.nontrivial(); }
}
namespace {
struct Seen { int failures; std::string out, err; };
template<class F> Seen use(F f) { int f0=HELPER_TEST_FAILURES; Seen r; { Capture co(std::cout); Capture ce(std::cerr); f(); r.out=co.text(); r.err=ce.text(); } r.failures=HELPER_TEST_FAILURES-f0; return r; }
//! The words written on the output do not say the opposite.
void consistent(std::string const& out, bool failed, std::string const& where) { if(failed) { REQUIRE(!has(out,"true") && !has(out,"(ok)"),"the output of " << where << " speaks of success: " << show(out)); } else { REQUIRE(!has(out,"false") && !has(out,"ERROR") && !has(out,"exception"),"the output of " << where << " speaks of failure: " << show(out)); } }
void judge(Src& s, Seen const& r, bool ok, bool& some_failed, bool& some_passed, std::string const& where) { TR(where); (ok?some_passed:some_failed)=true; REQUIRE_EQ(r.failures,(ok?0:1),"failures counted by " << where); REQUIRE_EQ(r.err.empty(),ok,"text on the error stream of " << where << ": " << show(r.err)); if(!ok) { REQUIRE(has(r.out,"ERROR") && has(r.err,"ERROR") && has(r.err,__FILE__),"no error shown by " << where); } consistent(r.out,!ok,where); }
}
PROP(C33,reals,1) {      // comparisons of reals, some of which are unordered or of different signs of zero
    static const double special[]={0.0,-0.0,std::numeric_limits<double>::quiet_NaN(),std::numeric_limits<double>::infinity(),-std::numeric_limits<double>::infinity(),1.0,-1.0,5e-324,1e308,0.1};
    std::size_t nops=1+s.upto(5); bool failed=false, passed=false;
    for(std::size_t op=0;op!=nops;++op) {
        double x=s.chance(3,4)?s.pick(special):s.real(), y=s.chance(1,3)?x:s.chance(3,4)?s.pick(special):s.real(); std::string w=" of "+show(x)+" and "+show(y);
        switch(s.upto(13)) {
          case 0: judge(s,use([&]{ HELPER_TEST_CHECK(x,y) }),x==y,failed,passed,"CHECK"+w); break;
          case 1: judge(s,use([&]{ HELPER_TEST_EQUAL(x,y) }),x==y,failed,passed,"EQUAL"+w); break;
          case 2: judge(s,use([&]{ HELPER_TEST_NOT_EQUAL(x,y) }),x!=y,failed,passed,"NOT_EQUAL"+w); break;
          case 3: judge(s,use([&]{ HELPER_TEST_EQUALS(x,y) }),x==y,failed,passed,"EQUALS"+w); break;
          case 4: judge(s,use([&]{ HELPER_TEST_LESS(x,y) }),x<y,failed,passed,"LESS"+w); break;
          case 5: switch(s.upto(5)) { case 0: judge(s,use([&]{ HELPER_TEST_COMPARE(x,<,y) }),x<y,failed,passed,"COMPARE <"+w); break; case 1: judge(s,use([&]{ HELPER_TEST_COMPARE(x,<=,y) }),x<=y,failed,passed,"COMPARE <="+w); break; case 2: judge(s,use([&]{ HELPER_TEST_COMPARE(x,>,y) }),x>y,failed,passed,"COMPARE >"+w); break; case 3: judge(s,use([&]{ HELPER_TEST_COMPARE(x,>=,y) }),x>=y,failed,passed,"COMPARE >="+w); break; case 4: judge(s,use([&]{ HELPER_TEST_COMPARE(x,==,y) }),x==y,failed,passed,"COMPARE =="+w); break; default: judge(s,use([&]{ HELPER_TEST_COMPARE(x,!=,y) }),x!=y,failed,passed,"COMPARE !="+w); } break;
          case 6: switch(s.upto(5)) { case 0: judge(s,use([&]{ HELPER_TEST_RESULT_COMPARE(double,x,<,y) }),x<y,failed,passed,"RESULT_COMPARE <"+w); break; case 1: judge(s,use([&]{ HELPER_TEST_RESULT_COMPARE(double,x,<=,y) }),x<=y,failed,passed,"RESULT_COMPARE <="+w); break; case 2: judge(s,use([&]{ HELPER_TEST_RESULT_COMPARE(double,x,>,y) }),x>y,failed,passed,"RESULT_COMPARE >"+w); break; case 3: judge(s,use([&]{ HELPER_TEST_RESULT_COMPARE(double,x,>=,y) }),x>=y,failed,passed,"RESULT_COMPARE >="+w); break; case 4: judge(s,use([&]{ HELPER_TEST_RESULT_COMPARE(double,x,==,y) }),x==y,failed,passed,"RESULT_COMPARE =="+w); break; default: judge(s,use([&]{ HELPER_TEST_RESULT_COMPARE(double,x,!=,y) }),x!=y,failed,passed,"RESULT_COMPARE !="+w); } break;
          case 7: judge(s,use([&]{ HELPER_TEST_ASSERT(x<=y) }),x<=y,failed,passed,"ASSERT <="+w); break;
          case 8: judge(s,use([&]{ HELPER_TEST_ASSERT(!(x<=y)) }),!(x<=y),failed,passed,"ASSERT not <="+w); break;
          case 9: { double t=s.pick(special); judge(s,use([&]{ HELPER_TEST_WITHIN(x,y,t) }),std::fabs(x-y)<=t,failed,passed,"WITHIN "+show(t)+w); break; }
          case 10: { float f=static_cast<float>(x); judge(s,use([&]{ HELPER_TEST_RESULT_COMPARE(float,x,==,f) }),f==f,failed,passed,"RESULT_COMPARE after conversion"+w); break; }
          case 11: judge(s,use([&]{ HELPER_TEST_UNARY_PREDICATE(std::isnan,x) }),std::isnan(x),failed,passed,"UNARY_PREDICATE"+w); break;
          case 12: judge(s,use([&]{ HELPER_TEST_BINARY_PREDICATE(std::isunordered,x,y) }),std::isunordered(x,y),failed,passed,"BINARY_PREDICATE"+w); break;
          default: { Seen r=use([&]{ HELPER_TEST_CHECK_WARN(x,y) }); REQUIRE_EQ(r.failures,0,"failures counted by CHECK_WARN" << w); REQUIRE_EQ(has(r.err,"WARNING"),!(x==y),"warning of CHECK_WARN" << w << ": " << show(r.err)); break; }
        }
    }
    if(passed && failed) { s.nontrivial(); }
}
namespace {
//! Comparisons of operands of two types are those of the language, also where the operands are written alike.
template<class A, class B> void compared(Src& s, A x, B y, bool& failed, bool& passed) {
    std::ostringstream t; t << " of " << +x << " (" << sizeof(A) << " bytes) and " << +y << " (" << sizeof(B) << " bytes)"; std::string w=t.str();
    switch(s.upto(13)) {
      case 0: judge(s,use([&]{ HELPER_TEST_CHECK(x,y) }),x==y,failed,passed,"CHECK"+w); break; case 1: judge(s,use([&]{ HELPER_TEST_EQUAL(x,y) }),x==y,failed,passed,"EQUAL"+w); break; case 2: judge(s,use([&]{ HELPER_TEST_NOT_EQUAL(x,y) }),x!=y,failed,passed,"NOT_EQUAL"+w); break; case 3: judge(s,use([&]{ HELPER_TEST_EQUALS(x,y) }),x==y,failed,passed,"EQUALS"+w); break; case 4: judge(s,use([&]{ HELPER_TEST_LESS(x,y) }),x<y,failed,passed,"LESS"+w); break;
      case 5: judge(s,use([&]{ HELPER_TEST_COMPARE(x,<,y) }),x<y,failed,passed,"COMPARE <"+w); break; case 6: judge(s,use([&]{ HELPER_TEST_COMPARE(x,<=,y) }),x<=y,failed,passed,"COMPARE <="+w); break; case 7: judge(s,use([&]{ HELPER_TEST_COMPARE(x,>,y) }),x>y,failed,passed,"COMPARE >"+w); break; case 8: judge(s,use([&]{ HELPER_TEST_COMPARE(x,>=,y) }),x>=y,failed,passed,"COMPARE >="+w); break; case 9: judge(s,use([&]{ HELPER_TEST_COMPARE(x,==,y) }),x==y,failed,passed,"COMPARE =="+w); break; case 10: judge(s,use([&]{ HELPER_TEST_COMPARE(x,!=,y) }),x!=y,failed,passed,"COMPARE !="+w); break;
      case 11: judge(s,use([&]{ HELPER_TEST_RESULT_COMPARE(A,x,==,y) }),x==y,failed,passed,"RESULT_COMPARE =="+w); break; case 12: judge(s,use([&]{ HELPER_TEST_RESULT_COMPARE(A,x,!=,y) }),x!=y,failed,passed,"RESULT_COMPARE !="+w); break; default: judge(s,use([&]{ HELPER_TEST_ASSERT(x==y) }),x==y,failed,passed,"ASSERT"+w); break; }
}
}
PROP(C33,mixed,1) {     // operands of different types, many of which are written alike
    std::size_t nops=1+s.upto(5); bool failed=false, passed=false; static const double ds[]={0.1,1.0/3,2.0,1e15,1234567.0,0.5,3.0000001,100.0,0.0};
    for(std::size_t op=0;op!=nops;++op) {
        double d=s.pick(ds); if(s.coin()) { d=-d; } double near=s.coin()?d:std::nextafter(d,s.coin()?1e300:-1e300); long i=static_cast<long>(d);
        switch(s.upto(9)) { case 0: compared(s,d,static_cast<float>(near),failed,passed); break; case 1: compared(s,static_cast<float>(d),near,failed,passed); break; case 2: compared(s,d,near,failed,passed); break; case 3: compared(s,i,near,failed,passed); break; case 4: compared(s,near,i,failed,passed); break; case 5: compared(s,static_cast<long double>(near),d,failed,passed); break; case 6: compared(s,d,static_cast<int>(i%1000),failed,passed); break; case 7: compared(s,s.coin(),s.irange(0,2),failed,passed); break; case 8: compared(s,static_cast<char>('0'+s.upto(3)),s.coin()?s.irange(0,3):s.irange('0','3'),failed,passed); break; default: compared(s,static_cast<unsigned char>(s.upto(3)),static_cast<long>(s.irange(0,3)),failed,passed); break; }
    }
    if(passed && failed) { s.nontrivial(); }
}
PROP(C33,operands,1) {   // the comparison that is named is made, of the left with the right operand
    std::size_t nops=1+s.upto(5); bool failed=false, passed=false;
    for(std::size_t op=0;op!=nops;++op) {
        long x=s.irange(-3,3), y=s.coin()?2*x:s.coin()?2*x+1:s.irange(-4,4); Left a(x); Right b(y); Cmp::log.clear(); std::string w=" of L"+std::to_string(x)+" and R"+std::to_string(y), want; Seen r; bool ok;
        switch(s.upto(15)) {
          case 0: r=use([&]{ HELPER_TEST_CHECK(a,b) }); ok=2*x==y; want="=="; break;
          case 1: r=use([&]{ HELPER_TEST_EQUAL(a,b) }); ok=2*x==y; want="=="; break;
          case 2: r=use([&]{ HELPER_TEST_EQUALS(a,b) }); ok=2*x==y; want="=="; break;
          case 3: r=use([&]{ HELPER_TEST_LESS(a,b) }); ok=2*x<y; want="<"; break;
          case 4: r=use([&]{ HELPER_TEST_COMPARE(a,<,b) }); ok=2*x<y; want="<"; break;
          case 5: r=use([&]{ HELPER_TEST_COMPARE(a,<=,b) }); ok=2*x<=y; want="<="; break;
          case 6: r=use([&]{ HELPER_TEST_COMPARE(a,>,b) }); ok=2*x>y; want=">"; break;
          case 7: r=use([&]{ HELPER_TEST_COMPARE(a,>=,b) }); ok=2*x>=y; want=">="; break;
          case 8: r=use([&]{ HELPER_TEST_COMPARE(a,!=,b) }); ok=2*x+1!=y; want="!="; break;
          case 9: r=use([&]{ HELPER_TEST_RESULT_COMPARE(Left,Left(x),!=,b) }); ok=2*x+1!=y; want="!="; break;
          case 10: r=use([&]{ HELPER_TEST_RESULT_COMPARE(Left,Left(x),>=,b) }); ok=2*x>=y; want=">="; break;
          case 11: r=use([&]{ HELPER_TEST_SAME(a,b) }); ok=x+1==y; want="same"; break;
          case 12: r=use([&]{ HELPER_TEST_SAME_AS(a,b) }); ok=x+1==y; want="same"; break;
          case 13: r=use([&]{ HELPER_TEST_BINARY_PREDICATE(related,a,b) }); ok=x-1==y; break;
          case 14: r=use([&]{ HELPER_TEST_UNARY_PREDICATE(odd,a) }); ok=x%2!=0; break;
          default: { long p=x+4, q=y+9; r=use([&]{ HELPER_TEST_EQUAL(p&q,q|p) }); ok=(p&q)==(q|p); w=" of operands with operators"; break; }
        }
        judge(s,r,ok,failed,passed,"comparison '"+want+"'"+w); REQUIRE_EQ(Cmp::log,want,"comparisons made" << w);
    }
    if(passed && failed) { s.nontrivial(); }
}
namespace { struct Kind { }; }
template<> inline Helper::String Helper::class_name<Kind>() { return "Kind"; }
PROP(C33,names,1) {        // operands of any name
    static const long none=0; bool failed=false, passed=false; long ok=s.irange(-2,2), result=s.irange(-2,2), error=s.irange(0,2), e=s.irange(-2,2), expected=s.irange(-2,2); (void)none; std::string w=" of variables "+std::to_string(ok)+" "+std::to_string(result)+" "+std::to_string(error)+" "+std::to_string(e)+" "+std::to_string(expected);
    std::size_t nops=1+s.upto(4); for(std::size_t op=0;op!=nops;++op) switch(s.upto(17)) {
      case 0: judge(s,use([&]{ HELPER_TEST_EQUAL(ok,result) }),ok==result,failed,passed,"EQUAL"+w); break;
      case 1: judge(s,use([&]{ HELPER_TEST_EQUAL(e,ok) }),ok==e,failed,passed,"EQUAL"+w); break;
      case 2: judge(s,use([&]{ HELPER_TEST_NOT_EQUAL(ok,expected) }),ok!=expected,failed,passed,"NOT_EQUAL"+w); break;
      case 3: judge(s,use([&]{ HELPER_TEST_EQUALS(result,ok) }),ok==result,failed,passed,"EQUALS"+w); break;
      case 4: judge(s,use([&]{ HELPER_TEST_LESS(ok,error) }),ok<error,failed,passed,"LESS"+w); break;
      case 5: judge(s,use([&]{ HELPER_TEST_WITHIN(ok,result,error) }),std::labs(ok-result)<=error,failed,passed,"WITHIN"+w); break;
      case 6: judge(s,use([&]{ HELPER_TEST_WITHIN(error,e,ok) }),std::labs(error-e)<=ok,failed,passed,"WITHIN"+w); break;
      case 7: judge(s,use([&]{ HELPER_TEST_CHECK(ok,expected) }),ok==expected,failed,passed,"CHECK"+w); break;
      case 8: judge(s,use([&]{ HELPER_TEST_ASSERT(result==ok) }),ok==result,failed,passed,"ASSERT"+w); break;
      case 9: judge(s,use([&]{ HELPER_TEST_ASSERT(ok>0 || error>1) }),ok>0 || error>1,failed,passed,"ASSERT"+w); break;
      case 10: judge(s,use([&]{ HELPER_TEST_COMPARE(ok,<=,result) }),ok<=result,failed,passed,"COMPARE"+w); break;
      case 11: judge(s,use([&]{ HELPER_TEST_RESULT_COMPARE(long,result,>=,ok) }),result>=ok,failed,passed,"RESULT_COMPARE"+w); break;
      case 12: judge(s,use([&]{ HELPER_TEST_BINARY_PREDICATE(less,ok,result) }),ok<result,failed,passed,"BINARY_PREDICATE"+w); break;
      case 13: judge(s,use([&]{ HELPER_TEST_UNARY_PREDICATE(is_small,result) }),result<2,failed,passed,"UNARY_PREDICATE"+w); break;
      case 14: { long got=99; Seen r=use([&]{ HELPER_TEST_ASSIGN(got,ok+result) }); REQUIRE(r.failures==0 && got==ok+result,"ASSIGN" << w); break; }
      case 16: { Kind result; bool ok=true; (void)result; (void)ok; Seen r=use([&]{ HELPER_TEST_SAME_TYPE(decltype(result),Kind) HELPER_TEST_STATIC_ASSERT(std::is_same<decltype(result),Kind>) HELPER_TEST_CONCEPT(Same<decltype(result),Kind>) HELPER_TEST_SAME_TYPE(Kind,decltype(result)) }); REQUIRE_EQ(r.failures,0,"failures counted by checks of the type of a variable called result"); r=use([&]{ HELPER_TEST_SAME_TYPE(decltype(result),bool) HELPER_TEST_STATIC_ASSERT(std::is_same<decltype(result),bool>) HELPER_TEST_CONCEPT(Same<decltype(result),bool>) }); REQUIRE_EQ(r.failures,3,"failures counted by checks of the type of a variable called result"); break; }
      case 17: { std::size_t n=1+s.upto(4), full=0; std::vector<std::vector<long*>> vs(n); std::size_t i=s.index(n); for(std::size_t k=0;k!=n;++k) { std::size_t q=s.upto(5); while(q--) { vs[k].push_back(new long(2)); } } full=vs[i].size(); long before=live_blocks; HELPER_CLEAN_TEST_VECTOR(vs[i]) REQUIRE_EQ(before-live_blocks,static_cast<long>(full),"objects deleted from a vector found by an index called i"); for(std::size_t k=0;k!=n;++k) { for(long*& x : vs[k]) { REQUIRE_EQ(x==nullptr,k==i,"pointers left in vector " << k << ", vector " << i << " was cleaned"); delete x; x=nullptr; } } break; }
      default: { Seen r=use([&]{ HELPER_TEST_EVALUATE(result) HELPER_TEST_PRINT(error) HELPER_TEST_CHECK_WARN(result,ok) }); REQUIRE_EQ(r.failures,0,"failures counted by EVALUATE" << w); REQUIRE_EQ(has(r.err,"WARNING"),ok!=result,"CHECK_WARN" << w); break; }
    }
    if(passed && failed) { s.nontrivial(); }
}
PROP(C33,constructors,1) {
    Maybe::refuse=s.coin(); s.nontrivial(); TR((Maybe::refuse?"refused":"made")); int f0=HELPER_TEST_FAILURES; bool left=false; std::string err;
    { Capture co(std::cout); Capture ce(std::cerr); try { HELPER_TEST_DECLARE(Maybe,m) m.v=3; } catch(std::runtime_error const&) { left=true; } err=ce.text(); }
    REQUIRE_EQ(HELPER_TEST_FAILURES-f0,(Maybe::refuse?1:0),"failures counted by DECLARE"); REQUIRE_EQ(left,Maybe::refuse,"an exception leaves DECLARE"); REQUIRE_EQ(has(err,"refused"),Maybe::refuse,"the error of DECLARE: " << show(err)); Maybe::refuse=false;
    std::size_t n=s.upto(6), full=0; std::vector<long*> v; for(std::size_t i=0;i!=n;++i) { v.push_back(s.coin()?new long(1):nullptr); full+=v.back()!=nullptr; } long before=live_blocks; HELPER_CLEAN_TEST_VECTOR(v) REQUIRE_EQ(before-live_blocks,static_cast<long>(full),"objects deleted"); for(long* p : v) { REQUIRE(p==nullptr,"a pointer is left"); }
}
#endif
