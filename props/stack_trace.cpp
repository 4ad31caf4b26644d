// FLAGS: -DENABLE_STACK_TRACE -fno-optimize-sibling-calls -fno-omit-frame-pointer
// SOURCES: src/stack_trace.cpp
// LDFLAGS: -rdynamic -ldl
#include "../engine/pbt.hpp"
#include <algorithm>
#include <iostream>
#include <malloc.h>
#include <string>
#include <vector>
#include "stack_trace.hpp"

using namespace pbt;

#ifdef P_C35
#ifdef __clang__
#define KEPT __attribute__((noinline))
#else
#define KEPT __attribute__((noipa))
#endif
namespace chain {
struct Path { std::vector<unsigned char> const* steps; volatile long sum=0; };
#define NEXT(k) { go(p,i+1); p.sum=p.sum+k; }
KEPT void go(Path& p, std::size_t i);
KEPT void alpha(Path& p, std::size_t i) NEXT(1)
KEPT void beta(Path& p, std::size_t i) NEXT(2)
KEPT void over(Path& p, std::size_t i, int) NEXT(3)
KEPT void over(Path& p, std::size_t i, std::string const&) NEXT(4)
template<class T> struct Box { KEPT void member(Path& p, std::size_t i) const NEXT(5) KEPT void operator()(Path& p, std::size_t i) NEXT(6) };
//! Calls itself, from one place, for a run of equal steps.
KEPT void again(Path& p, std::size_t i) { if(i+1<p.steps->size() && (*p.steps)[i+1]==7) { again(p,i+1); } else { go(p,i+1); } p.sum=p.sum+8; }
template struct Box<int>; template struct Box<Path>;
//! Functions with names of hundreds and of thousands of characters.
template<class A, class B> struct An_argument_whose_name_is_long_enough_to_add_up { };
template<int N> struct Deep { using T=An_argument_whose_name_is_long_enough_to_add_up<typename Deep<N-1>::T,Box<char[N]>>; }; template<> struct Deep<0> { using T=int; };
template<class T> struct Long { static KEPT void named(Path& p, std::size_t i) NEXT(9) };
template struct Long<Deep<4>::T>; template struct Long<Deep<10>::T>; template struct Long<Deep<25>::T>;
}
extern "C" KEPT void chain_plain_c(chain::Path* q, std::size_t i) { chain::Path& p=*q; using namespace chain; NEXT(7) }
//! Functions outside of any namespace, with names that begin in every way; constructors, destructors, conversions and lambdas.
#define NAMED(name) KEPT void name##_chain(chain::Path& p, std::size_t i) { using namespace chain; NEXT(12) }
NAMED(a) NAMED(b) NAMED(main) NAMED(c) NAMED(d) NAMED(e) NAMED(f) NAMED(g) NAMED(h) NAMED(i) NAMED(j) NAMED(k) NAMED(l) NAMED(m) NAMED(n) NAMED(o) NAMED(p) NAMED(q) NAMED(r) NAMED(s) NAMED(t) NAMED(u) NAMED(v) NAMED(w) NAMED(x) NAMED(y) NAMED(z) NAMED(_under) NAMED(A) NAMED(Main) NAMED(Z) NAMED(start_main) NAMED(operator_) NAMED(stack_trace) NAMED(backtrace) NAMED(std_) NAMED(Helper_) NAMED(from_here_) 
struct chain_Life { chain::Path& p; std::size_t i; int when; KEPT chain_Life(chain::Path& pp, std::size_t ii, int w) : p(pp), i(ii), when(w) { using namespace chain; if(when==0) { go(p,i+1); } p.sum=p.sum+1; } KEPT ~chain_Life() { using namespace chain; if(when==1) { go(p,i+1); } p.sum=p.sum+1; } KEPT explicit operator bool() const { using namespace chain; go(p,i+1); p.sum=p.sum+1; return true; } KEPT chain_Life& operator<<(int) { using namespace chain; go(p,i+1); p.sum=p.sum+1; return *this; } };
namespace Helper { KEPT void inner_chain(chain::Path& p, std::size_t i) { using namespace chain; NEXT(13) } }
namespace chain {
const char* const line[]={"chain::alpha(chain::Path&, unsigned long)","chain::beta(chain::Path&, unsigned long)","chain::over(chain::Path&, unsigned long, int)","chain::over(chain::Path&, unsigned long, std::","chain::Box<int>::member(chain::Path&, unsigned long) const","chain::Box<chain::Path>::operator()(chain::Path&, unsigned long)","chain_plain_c","chain::again(chain::Path&, unsigned long)","Box<char [4]> > >::named(chain::Path&, unsigned long)","Box<char [10]> > >::named(chain::Path&, unsigned long)","Box<char [25]> > >::named(chain::Path&, unsigned long)","a_chain(chain::Path&, unsigned long)","b_chain(chain::Path&, unsigned long)","main_chain(chain::Path&, unsigned long)","c_chain(chain::Path&, unsigned long)","d_chain(chain::Path&, unsigned long)","e_chain(chain::Path&, unsigned long)","f_chain(chain::Path&, unsigned long)","g_chain(chain::Path&, unsigned long)","h_chain(chain::Path&, unsigned long)","i_chain(chain::Path&, unsigned long)","j_chain(chain::Path&, unsigned long)","k_chain(chain::Path&, unsigned long)","l_chain(chain::Path&, unsigned long)","m_chain(chain::Path&, unsigned long)","n_chain(chain::Path&, unsigned long)","o_chain(chain::Path&, unsigned long)","p_chain(chain::Path&, unsigned long)","q_chain(chain::Path&, unsigned long)","r_chain(chain::Path&, unsigned long)","s_chain(chain::Path&, unsigned long)","t_chain(chain::Path&, unsigned long)","u_chain(chain::Path&, unsigned long)","v_chain(chain::Path&, unsigned long)","w_chain(chain::Path&, unsigned long)","x_chain(chain::Path&, unsigned long)","y_chain(chain::Path&, unsigned long)","z_chain(chain::Path&, unsigned long)","_under_chain(chain::Path&, unsigned long)","A_chain(chain::Path&, unsigned long)","Main_chain(chain::Path&, unsigned long)","Z_chain(chain::Path&, unsigned long)","start_main_chain(chain::Path&, unsigned long)","operator__chain(chain::Path&, unsigned long)","stack_trace_chain(chain::Path&, unsigned long)","backtrace_chain(chain::Path&, unsigned long)","std__chain(chain::Path&, unsigned long)","Helper__chain(chain::Path&, unsigned long)","from_here__chain(chain::Path&, unsigned long)","chain_Life::chain_Life(chain::Path&, unsigned long, int)","chain_Life::~chain_Life()","chain_Life::operator bool() const","chain_Life::operator<<(int)","Helper::inner_chain(chain::Path&, unsigned long)"};
const unsigned KINDS=54;
void go(Path& p, std::size_t i) {
    if(i==p.steps->size()) { Helper::stack_trace(); p.sum=p.sum+1; return; }
    static const std::string text="t"; switch((*p.steps)[i]) { case 0: alpha(p,i); break; case 1: beta(p,i); break; case 2: over(p,i,3); break; case 3: over(p,i,text); break; case 4: Box<int>().member(p,i); break; case 5: { Box<Path> b; b(p,i); break; } case 6: chain_plain_c(&p,i); break; case 8: Long<Deep<4>::T>::named(p,i); break; case 9: Long<Deep<10>::T>::named(p,i); break; case 10: Long<Deep<25>::T>::named(p,i); break; case 11: a_chain(p,i); break; case 12: b_chain(p,i); break; case 13: main_chain(p,i); break; case 14: c_chain(p,i); break; case 15: d_chain(p,i); break; case 16: e_chain(p,i); break; case 17: f_chain(p,i); break; case 18: g_chain(p,i); break; case 19: h_chain(p,i); break; case 20: i_chain(p,i); break; case 21: j_chain(p,i); break; case 22: k_chain(p,i); break; case 23: l_chain(p,i); break; case 24: m_chain(p,i); break; case 25: n_chain(p,i); break; case 26: o_chain(p,i); break; case 27: p_chain(p,i); break; case 28: q_chain(p,i); break; case 29: r_chain(p,i); break; case 30: s_chain(p,i); break; case 31: t_chain(p,i); break; case 32: u_chain(p,i); break; case 33: v_chain(p,i); break; case 34: w_chain(p,i); break; case 35: x_chain(p,i); break; case 36: y_chain(p,i); break; case 37: z_chain(p,i); break; case 38: _under_chain(p,i); break; case 39: A_chain(p,i); break; case 40: Main_chain(p,i); break; case 41: Z_chain(p,i); break; case 42: start_main_chain(p,i); break; case 43: operator__chain(p,i); break; case 44: stack_trace_chain(p,i); break; case 45: backtrace_chain(p,i); break; case 46: std__chain(p,i); break; case 47: Helper__chain(p,i); break; case 48: from_here__chain(p,i); break; case 49: { chain_Life l(p,i,0); break; } case 50: { chain_Life l(p,i,1); break; } case 51: { chain_Life l(p,i,2); if(l) { p.sum=p.sum+1; } break; } case 52: { chain_Life l(p,i,3); l << 1; break; } case 53: Helper::inner_chain(p,i); break; default: again(p,i); break; }
    p.sum=p.sum+1;
}
}
namespace { struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
KEPT void from_here(std::vector<unsigned char> const& v) { chain::Path p; p.steps=&v; chain::go(p,0); p.sum=p.sum+1; } }
RULE(C35,"a generated chain of 1..230 calls of some 50 kinds (functions in and outside of namespaces with names of many beginnings, overloads, members and operators of class templates, constructors, destructors and conversions, functions with names of hundreds to thousands of characters, a C function, runs of a function that calls itself) ends in a stack trace; the error stream must name the functions of the chain, demangled, innermost first, completely if they fit the limit of 128 frames and otherwise from the innermost on; the stream must remain usable, and nothing allocated may remain; non-trivial: two or more functions")
PROP(C35,chain,1) {
    std::size_t n=1+(s.chance(1,8)?s.upto(119):s.upto(20)); std::vector<unsigned char> v; for(std::size_t i=0;i!=n;++i) { v.push_back(static_cast<unsigned char>(s.index(chain::KINDS))); }
    if(s.chance(1,3)) { std::size_t from=s.index(n), k=s.upto(110); v.insert(v.begin()+static_cast<long>(from),k,7); n=v.size(); s.label("run of recursive calls"); } if(n>1) { s.nontrivial(); } TR("chain " << show(std::vector<int>(v.begin(),v.end())));
    std::string text; bool good; { Capture err(std::cerr); Capture out(std::cout); from_here(v); good=std::cerr.good(); text=err.text(); REQUIRE_EQ(out.text(),std::string(),"on the output stream"); } REQUIRE(good,"the error stream is not usable afterwards");
    REQUIRE(text.size()>0 && text.back()=='\n',"the trace does not end with a whole line: " << show(text));
    std::vector<std::string> lines; { std::istringstream is(text); std::string l; while(std::getline(is,l)) { if(l.find("chain")!=std::string::npos && l.find("chain::go(")==std::string::npos) { lines.push_back(l); } } }
    std::size_t at=0; for(auto const& l : lines) { REQUIRE(at<n,"a function not in the chain: " << l); const char* want=chain::line[v[n-1-at]]; if(l.find(want)==std::string::npos) { FAIL("frame " << at << " from the innermost is " << l << ", expected " << want); } ++at; }
    std::size_t expect=0; for(std::size_t frame=2;expect!=n && frame<112;++expect) { frame+= v[n-1-expect]==7 && expect+1!=n && v[n-2-expect]==7 ? 1 : 2; }     // the frames of stack_trace() and go() come first
    if(expect<n) { s.label("chain beyond the limit"); } REQUIRE(at>=expect,"only " << at << " of " << n << " functions of the chain are named");
#ifdef NDEBUG
    if(s.chance(1,8)) { NullBuf nb; std::streambuf* old=std::cerr.rdbuf(&nb); from_here(v); std::size_t left=~std::size_t(0); for(int r=0;r!=4;++r) { auto before=mallinfo2().uordblks; for(int i=0;i!=4;++i) { from_here(v); } auto after=mallinfo2().uordblks; left=std::min(left,after>before?after-before:std::size_t(0)); }    // the allocator itself may keep something the first times
        std::cerr.rdbuf(old); REQUIRE(left<64,"four traces leave " << left << " bytes allocated"); }
#endif
}
#endif
