// Stopwatches, against a clock under the harness's control; strings.
#include "../engine/pbt.hpp"
#include <locale>
#include <chrono>
#include <cmath>
#include <ctime>
#include <iomanip>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include "stopwatch.hpp"
#include "string.hpp"

using namespace pbt;

#ifdef P_C30
// The standard clocks, replaced by ones that give the harness's time while it says so.
namespace { bool fake_on=false; long long fake_ns=0; long fake_reads=0; const long long STEADY=123456789012345LL;
long long real_ns(clockid_t c) { timespec t; clock_gettime(c,&t); return static_cast<long long>(t.tv_sec)*1000000000LL+t.tv_nsec; } }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { if(fake_on) { ++fake_reads; } return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(fake_on?fake_ns:real_ns(CLOCK_REALTIME)))); }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { if(fake_on) { ++fake_reads; } return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(fake_on?fake_ns-STEADY:real_ns(CLOCK_MONOTONIC)))); }

RULE(C30,"2..30 random operations (click, restart, reading the duration and the seconds, copying, waiting from nothing to years) on three stopwatches of one of eight units, with the standard clocks replaced by a generated timeline; after every operation each stopwatch must report the time from its last start to its last click, cut to its unit, and reading must not change it; non-trivial: some reported duration was not zero")
namespace {
struct On { On() { fake_on=true; } ~On() { fake_on=false; } };     // only around each operation: the fuzzer reads the clock too
template<class D> void history(Src& s) {
    using SW=Helper::Stopwatch<D>; long long tick=std::chrono::duration_cast<std::chrono::nanoseconds>(D(1)).count(); if(tick<1) { tick=1; }
    fake_ns=static_cast<long long>(s.range(0,2000000000))*1000000000LL+static_cast<long long>(s.upto(999999999)); struct M { long long start, click; }; M m[3]; std::vector<SW> w; w.reserve(3);
    { On on; fake_reads=0; SW probe; probe.restart(); probe.click(); if(fake_reads==0) { s.label("clock not seen"); return; } }
    for(std::size_t i=0;i!=3;++i) { { On on; w.emplace_back(); } m[i]={fake_ns,fake_ns}; if(s.coin()) { fake_ns+=static_cast<long long>(s.upto(3))*tick; } }
    TR("start at " << fake_ns << " ns"); std::size_t nops=2+s.upto(28); long long waited=0;    // at most thirty years: seven times the nanoseconds must fit a long
    for(std::size_t op=0;op!=nops;++op) {
        std::size_t i=s.index(3), j=s.index(3), kind=s.upto(8); std::string where="op "+std::to_string(op)+" at "+std::to_string(fake_ns)+" watch "+std::to_string(i);
        switch(kind) {
          case 0: case 1: { where+=" click"; TR(where); On on; SW& r=w[i].click(); m[i].click=fake_ns; REQUIRE(&r==&w[i],"click does not return the stopwatch; " << where); break; }
          case 2: { where+=" restart"; TR(where); On on; SW& r=w[i].restart(); m[i]={fake_ns,fake_ns}; REQUIRE(&r==&w[i],"restart does not return the stopwatch; " << where); break; }
          case 3: { where+=" copied from "+std::to_string(j); TR(where); On on; SW c(w[j]); w[i]=c; m[i]=m[j]; break; }
          case 4: { where+=" new"; TR(where); On on; w[i]=SW(); m[i]={fake_ns,fake_ns}; break; }
          case 5: { where+=" restart, wait, click"; TR(where); On on; w[i].restart(); m[i].start=fake_ns; fake_ns+=static_cast<long long>(s.upto(100))*tick; w[i].click(); m[i].click=fake_ns; break; }
          default: { long long d; switch(s.upto(6)) { case 0: d=s.range(0,3); break; case 1: d=static_cast<long long>(s.range(0,20))*tick+s.range(-1,1); break; case 2: d=s.range(0,2000000000LL); break; case 3: d=static_cast<long long>(s.range(0,100))*86400000000000LL; break; case 4: d=static_cast<long long>(s.range(0,3))*31536000000000000LL; break; default: d=tick/2+s.range(0,2); break; } if(d<0 || waited+d>30*31536000000000000LL) { d=0; } waited+=d; fake_ns+=d; TR("op " << op << " wait " << d << " ns"); break; }
        }
        for(std::size_t k=0;k!=3;++k) { SW const& c=w[k]; long long e=m[k].click-m[k].start; for(int twice=0;twice!=2;++twice) {
            On on; D got=c.duration(); D want=std::chrono::duration_cast<D>(std::chrono::nanoseconds(e)); if(want.count()!=0) { s.nontrivial(); }
            if(got!=want) { FAIL("duration of watch " << k << " is " << got.count() << " units of " << tick << " ns, expected " << want.count() << " (" << e << " ns); " << where); }
            double sec=c.elapsed_seconds(); double exact=static_cast<double>(e)*1e-9; if(!(std::fabs(sec-exact)<=static_cast<double>(tick+1)*1e-9+std::fabs(exact)*1e-12)) { FAIL("elapsed seconds of watch " << k << " are " << sec << ", expected " << exact << " within " << tick << " ns; " << where); } } }
    }
}
// With whatever clock the stopwatch really uses: reported durations lie between what was waited for at least and at most.
template<class D> void real_case(Src& s) {
    auto t=[]{ return real_ns(CLOCK_MONOTONIC); }; const long long slack=50000000;     // the clocks may be adjusted while this runs
    long long b0=t(), b1, c0, c1; Helper::Stopwatch<D> w; long long tick=std::chrono::duration_cast<std::chrono::nanoseconds>(D(1)).count(); if(tick<1) { tick=1; } std::size_t nops=1+s.upto(6); if(s.coin()) { b0=t(); w.restart(); } b1=t(); c0=b0; c1=b1; REQUIRE(w.duration()==D(0) && w.elapsed_seconds()==0,"duration just after a start");
    for(std::size_t op=0;op!=nops;++op) {
        switch(s.upto(3)) { case 0: b0=t(); w.restart(); b1=t(); c0=b0; c1=b1; REQUIRE(w.duration()==D(0),"duration just after a start"); break; case 1: { long long until=t()+s.range(0,20000); while(t()<until) { } break; } default: c0=t(); w.click(); c1=t(); break; }
        long long lo=c0-b1, hi=c1-b0; long long got=std::chrono::duration_cast<std::chrono::nanoseconds>(w.duration()).count(); s.nontrivial(); REQUIRE(got>=lo-tick-slack && got<=hi+tick+slack,"duration " << got << " ns, between click and start passed " << lo << " to " << hi << " ns");
        double sec=w.elapsed_seconds(); REQUIRE(std::fabs(sec-static_cast<double>(got)*1e-9)<=static_cast<double>(tick)*1e-9+1e-9,"elapsed seconds " << sec << ", duration " << got << " ns");
    }
}
}
namespace {
//! Judged only if the clocks were not adjusted meanwhile.
template<class D> void real(Src& s) {
    auto offset=[]{ return real_ns(CLOCK_REALTIME)-real_ns(CLOCK_MONOTONIC); }; long long before=offset();
    try { real_case<D>(s); } catch(Fail const&) { for(int i=0;i!=3;++i) { if(std::llabs(offset()-before)<1000000) { throw; } } s.label("clock adjusted"); }
}
}
PROP(C30,seconds,1) { history<Helper::Seconds>(s); }
PROP(C30,milliseconds,1) { history<Helper::Milliseconds>(s); }
PROP(C30,microseconds,1) { history<Helper::Microseconds>(s); }
PROP(C30,other,2) { switch(s.upto(4)) { case 0: history<std::chrono::nanoseconds>(s); break; case 1: history<std::chrono::minutes>(s); break; case 2: history<std::chrono::hours>(s); break; case 3: history<std::chrono::duration<long,std::centi>>(s); break; default: history<std::chrono::duration<long,std::ratio<3,7>>>(s); break; } }
PROP(C30,real_time,1) { if(s.coin()) { real<Helper::Microseconds>(s); } else { real<Helper::Milliseconds>(s); } }
#endif

#ifdef P_C31
namespace ext { struct P { long a; friend std::ostream& operator<<(std::ostream& os, P const& p) { return os << "P(" << p.a << ")"; } };
//! Leaves the settings of the stream changed.
struct Messy { long a; unsigned how; friend std::ostream& operator<<(std::ostream& os, Messy const& m) { switch(m.how) { case 0: return os << std::hex << std::showbase << m.a; case 1: return os << std::setprecision(3) << std::fixed << static_cast<double>(m.a)/8; case 2: return os << std::setfill('*') << std::left << std::setw(9) << m.a << std::setw(5); case 3: return os << std::boolalpha << std::showpos << std::uppercase << (m.a>0) << m.a; case 4: os << m.a; os.setstate(std::ios::failbit); return os; case 5: os << m.a; os.setstate(std::ios::badbit); return os; case 6: os << "gone"; os.seekp(0); return os << m.a; default: os << m.a; os.exceptions(std::ios::badbit|std::ios::failbit); os << std::unitbuf << std::scientific; return os; } } };
struct Throwing { friend std::ostream& operator<<(std::ostream& os, Throwing const&) { os << "half" << std::oct; throw 7L; } };
//! Makes other texts while it is being written.
struct Inner { long a; friend std::ostream& operator<<(std::ostream& os, Inner const& x) { if(x.a<=0) { return os << "."; } return os << std::hex << x.a << Helper::to_string(Inner{x.a-1}) << x.a << Helper::to_str(x.a*100); } };
}
RULE(C31,"values of built-in and user types are turned into strings and compared with what a fresh stream writes; strings made in each supported way, with any characters including zero bytes, are compared, joined, changed, written and read as standard strings, up to 100000 characters; values whose operators leave a stream changed, failed or throwing do not affect the texts of others; non-trivial: every case")
namespace { template<class T> void same_text(T const& x, const char* what) { std::ostringstream os; os << x; Helper::String a=Helper::to_string(x), b=Helper::to_str(x); static_assert(std::is_same_v<decltype(Helper::to_string(x)),Helper::String>); if(a!=os.str() || b!=os.str()) { FAIL("text of " << what << " is " << show(std::string(a)) << " and " << show(std::string(b)) << ", expected " << show(os.str())); } } }
PROP(C31,text,2) {
    s.nontrivial(); switch(s.upto(8)) {
      case 0: { long x=s.num(std::numeric_limits<long>::min(),std::numeric_limits<long>::max()); TR(x); same_text(x,"an integer"); same_text(static_cast<int>(x),"an integer"); break; }
      case 1: { u64 x=s.unum(); TR(x); same_text(x,"an unsigned integer"); break; } case 2: { double x=s.real(); TR(x); same_text(x,"a real"); same_text(static_cast<float>(x),"a real"); break; }
      case 3: { bool x=s.coin(); TR(x); same_text(x,"a truth value"); void const* p=x?&s:nullptr; same_text(p,"a pointer"); same_text(nullptr,"a null pointer"); same_text(static_cast<short>(s.irange(-300,300)),"a short"); same_text(static_cast<unsigned short>(s.upto(65535)),"an unsigned short"); same_text(static_cast<long double>(s.real()),"a long real"); enum E { e0, e1=70 }; same_text(x?e1:e0,"an enumerator"); same_text(&p,"a pointer to a pointer"); break; } case 4: { char x=static_cast<char>(s.upto(255)); TR(int(x)); same_text(x,"a character"); same_text(static_cast<signed char>(x),"a signed character"); same_text(static_cast<unsigned char>(x),"an unsigned character"); break; }
      case 5: { std::string x=s.str(300,"ab \n\t\"\\0"); TR(show(x)); same_text(x,"a string"); same_text(Helper::String(x),"a string"); same_text(x.c_str(),"a C string"); break; }
      case 6: { ext::P x{s.irange(-99,99)}; TR(x); same_text(x,"an object"); break; }
      default: { std::size_t n=s.upto(300); std::string x; for(std::size_t i=0;i!=n;++i) { x.push_back(static_cast<char>(s.upto(255))); } TR(show(x)); same_text(x,"a string of any characters"); break; } }
}
PROP(C31,any_stream_state,2) {   // the text is that of a fresh stream, whatever was written before it
    std::size_t n=1+s.upto(6); s.nontrivial(); for(std::size_t i=0;i!=n;++i) { long x=s.num(-100000,100000); std::size_t k=s.upto(11); TR("value " << x << " in way " << k);
        if(k<8) { ext::Messy m{x,static_cast<unsigned>(k)}; same_text(m,"an object that changes the settings of the stream"); } else if(k==8) { for(int r=0;r!=2;++r) { long e=0; try { if(r==0) { Helper::to_string(ext::Throwing()); } else { Helper::to_str(ext::Throwing()); } } catch(long y) { e=y; } REQUIRE_EQ(e,7L,"what the operator threw"); } } else if(k==9) { same_text(ext::Inner{x%9},"an object that makes other texts"); } else if(k==10) { same_text(x,"an integer"); same_text(x%2==0,"a truth value"); } else { same_text(static_cast<double>(x)/16,"a real"); same_text("text","a literal"); } }
}
namespace { struct Punct : std::numpunct<char> { char point, sep; std::string groups, yes; Punct(char p, char t, std::string g, std::string y) : point(p), sep(t), groups(g), yes(y) { } char do_decimal_point() const override { return point; } char do_thousands_sep() const override { return sep; } std::string do_grouping() const override { return groups; } std::string do_truename() const override { return yes; } std::string do_falsename() const override { return "no"+yes; } };
struct Spelled { bool b; friend std::ostream& operator<<(std::ostream& os, Spelled const& x) { return os << std::boolalpha << x.b; } }; }
PROP(C31,locale,1) {      // numbers are written as a new stream writes them in the locale of the program
    static const char* groups[]={"","\3","\1\2"}; std::size_t g=s.upto(2); s.nontrivial(); long x=s.num(-100000000,100000000); double d=s.real(); bool b=s.coin(); TR("grouping " << g << ": " << x << " " << d); struct Restore { std::locale old; ~Restore() { std::locale::global(old); } } restore{std::locale::global(std::locale(std::locale::classic(),new Punct(s.coin()?',':'.',s.coin()?'.':'\'',groups[g],"yes")))};
    same_text(x,"an integer"); same_text(static_cast<int>(x),"an integer"); same_text(static_cast<short>(x),"an integer"); same_text(static_cast<unsigned long>(x),"an unsigned integer"); same_text(d,"a real"); same_text(static_cast<float>(d),"a real"); same_text(b,"a truth value"); same_text(Spelled{b},"a spelled truth value"); same_text(ext::P{x},"an object"); same_text("1234567","a literal"); same_text('7',"a character"); same_text(std::string("7654321"),"a string");
}
PROP(C31,string,1) {
    s.nontrivial(); std::size_t n=s.len(100); std::string x; for(std::size_t i=0;i!=n;++i) { x.push_back(static_cast<char>(s.coin()?s.upto(255):'a'+s.upto(3))); } std::string y=s.str(10); TR(show(x) << " " << show(y));
    Helper::String a(x), b=x, c(x.data(),x.size()), d(x.begin(),x.end()), e; Helper::String f(a); e=a; for(Helper::String* p : {&a,&b,&c,&d,&e,&f}) { if(*p!=x || p->size()!=n) { FAIL("string " << show(std::string(*p)) << " instead of " << show(x)); } }
    Helper::String empty; REQUIRE(empty.empty() && empty=="" && Helper::String("")==empty,"empty string"); Helper::String k(y.c_str()); REQUIRE(k==y && Helper::String(3,'x')=="xxx" && Helper::String(k,y.size()/2)==y.substr(y.size()/2),"strings from characters") ;
    const char* z=Helper::c_str(a); REQUIRE(z==a.c_str() && std::memcmp(z,x.data(),n)==0 && z[n]==0,"characters of a string"); REQUIRE((a<k)==(x<y) && (a==k)==(x==y) && (k<a)==(y<x),"order of strings"); REQUIRE(a+k==x+y,"joined strings"); Helper::String g(std::string(x)+"!"); REQUIRE(g==x+"!","joined string"); a+=y; REQUIRE(a==x+y && b==x,"string with another appended"); std::ostringstream os; os << b; REQUIRE(os.str()==x,"written string"); Helper::String h=std::move(b); REQUIRE(h==x,"moved string"); std::string back=h; REQUIRE(back==x,"converted back"); REQUIRE(Helper::class_name<Helper::String>()=="String","name of the class");
}
PROP(C31,long_text,1) {   // long strings, as text and as values
    std::size_t n=s.bulk(100000); s.nontrivial(); std::string x; x.reserve(n); u64 seed=s.unum(); for(std::size_t i=0;i!=n;++i) { seed=seed*6364136223846793005ULL+1442695040888963407ULL; x.push_back(static_cast<char>(seed>>56)); } TR(n << " characters");
    Helper::String a(x), b; b=a; Helper::String t=Helper::to_string(x); if(t!=x || Helper::to_str(a)!=x || b!=x || std::strlen(Helper::c_str(b))!=std::strlen(x.c_str())) { FAIL("a string of " << n << " characters became " << t.size() << " and " << b.size()); }
    b=x.c_str(); REQUIRE(b==x.c_str(),"string assigned from a C string"); b=std::string("s"); REQUIRE(b=="s" && a==x,"string assigned from another"); std::size_t k=n?seed%n:0; Helper::String sub(x,k,n-k); REQUIRE(sub==x.substr(k),"part of a string"); std::swap(a,sub); REQUIRE(sub==x && a==x.substr(k),"swapped strings"); std::istringstream is(x); Helper::String word; std::string w; is >> word; std::istringstream js(x); js >> w; REQUIRE(word==w,"word read"); Helper::String line; std::istringstream ks(x); std::getline(ks,line); REQUIRE(line==x.substr(0,x.find('\n')),"line read");
}
#endif
