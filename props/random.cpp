// Random numbers: bounds and distribution.
#include "../engine/pbt.hpp"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <ctime>
#include <cstdint>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include "randomiser.hpp"

using namespace pbt;
using Helper::RANDOM_GENERATOR; using Helper::UniformIntRandomiser; using Helper::UniformRealRandomiser; using Helper::RandomiserInterface;

namespace {
template<class T> std::string txt(T x) { std::ostringstream os; os.precision(20); if constexpr(sizeof(T)==1) { os << int(x); } else { os << x; } return os.str(); }
template<class T> T some_int(Src& s) { if constexpr(std::is_signed_v<T>) { return static_cast<T>(s.num(std::numeric_limits<T>::min(),std::numeric_limits<T>::max())); } else { return static_cast<T>(s.unum(std::numeric_limits<T>::max())); } }
template<class T> T some_real(Src& s) {
    static const long double big=std::numeric_limits<T>::max()/4, tiny=std::numeric_limits<T>::denorm_min(), norm=std::numeric_limits<T>::min();
    switch(s.upto(9)) { case 0: return static_cast<T>(big*(s.coin()?-1:1)); case 1: return static_cast<T>(tiny*static_cast<long double>(s.range(-5,5))); case 2: return static_cast<T>(norm*static_cast<long double>(s.range(-2,2))); case 3: return static_cast<T>(1e15L+static_cast<long double>(s.range(0,1000))/8); case 4: return static_cast<T>(s.range(-1000000,1000000))/static_cast<T>(1000); default: return static_cast<T>(s.range(-100,100))/static_cast<T>(1+s.upto(9)); } }
}

#ifdef P_C28
RULE(C28,"for each integer and floating point type, a randomiser for generated bounds (equal, adjacent, the limits of the type, powers of two, tiny, huge and negative reals) draws 1..40 values after the generator was given a generated seed, directly, through the interface, copied, and interleaved with another; every value must lie within the bounds; and hundreds of randomisers used in turn; non-trivial: bounds that differ");
namespace {
template<class T> void ints(Src& s) {
    T a=some_int<T>(s), b=some_int<T>(s); if(s.chance(1,6)) { b=a; } if(s.chance(1,10)) { a=std::numeric_limits<T>::min(); } if(s.chance(1,10)) { b=std::numeric_limits<T>::max(); } if(s.chance(1,6) && a<std::numeric_limits<T>::max()) { b=static_cast<T>(a+1); } if(b<a) { std::swap(a,b); }
    if(a!=b) { s.nontrivial(); } unsigned seed=static_cast<unsigned>(s.upto(0xFFFFFFFFu)); RANDOM_GENERATOR.engine().seed(seed); std::size_t n=1+s.upto(39); TR("bounds " << txt(a) << ".." << txt(b) << ", " << n << " values, seed " << seed);
    UniformIntRandomiser<T> r(a,b); UniformIntRandomiser<T> q(r); RandomiserInterface<T>& i=q; T c=some_int<T>(s); UniformIntRandomiser<T> other(c<a?c:a,c<a?a:c);
    for(std::size_t k=0;k!=n;++k) { T x=(k&1)?i.get():r.get(); if(x<a || x>b) { FAIL("value " << txt(x) << " outside " << txt(a) << ".." << txt(b)); } if(k%5==4) { T y=other.get(); T lo=c<a?c:a, hi=c<a?a:c; if(y<lo || y>hi) { FAIL("value " << txt(y) << " outside " << txt(lo) << ".." << txt(hi)); } } }
}
template<class T> void reals(Src& s) {
    T a=some_real<T>(s), b=some_real<T>(s); if(s.chance(1,8)) { b=a; } if(s.chance(1,8)) { b=std::nextafter(a,std::numeric_limits<T>::max()); } if(b<a) { std::swap(a,b); }
    if(a!=b) { s.nontrivial(); } unsigned seed=static_cast<unsigned>(s.upto(0xFFFFFFFFu)); RANDOM_GENERATOR.engine().seed(seed); std::size_t n=1+s.upto(39); TR("bounds " << txt(a) << ".." << txt(b) << ", " << n << " values, seed " << seed);
    // The standard library's scaling may round past a bound by a unit in the last place.
    T m=std::max(std::fabs(a),std::fabs(b)), ulp=std::nextafter(m,std::numeric_limits<T>::infinity())-m; T lo=a-2*ulp, hi=b+2*ulp;
    UniformRealRandomiser<T> r(a,b); UniformRealRandomiser<T> q(r); RandomiserInterface<T>& i=q;
    for(std::size_t k=0;k!=n;++k) { T x=(k&1)?i.get():r.get(); if(!(x>=lo && x<=hi)) { FAIL("value " << txt(x) << " outside " << txt(a) << ".." << txt(b)); } }
}
}
PROP(C28,signed_integers,2) { switch(s.upto(3)) { case 0: ints<short>(s); break; case 1: ints<int>(s); break; case 2: ints<long>(s); break; default: ints<long long>(s); break; } }
PROP(C28,unsigned_integers,2) { switch(s.upto(3)) { case 0: ints<unsigned short>(s); break; case 1: ints<unsigned int>(s); break; case 2: ints<unsigned long>(s); break; default: ints<unsigned long long>(s); break; } }
PROP(C28,many,1) {   // many randomisers in use at once, for long
    std::size_t n=s.bulk(300), draws=s.bulk(20000); unsigned seed=static_cast<unsigned>(s.upto(0xFFFFFFFFu)); s.nontrivial(); TR(n << " randomisers, " << draws << " values, seed " << seed); RANDOM_GENERATOR.engine().seed(seed); struct R { UniformIntRandomiser<int> r; int a, b; }; std::vector<R> v; long base=s.num(-1000000000,1000000000); for(std::size_t i=0;i!=n;++i) { int a=static_cast<int>(base)+static_cast<int>(i)*37, b=a+static_cast<int>(i*i%101); v.push_back(R{UniformIntRandomiser<int>(a,b),a,b}); }
    std::vector<R> c(v); c=v; for(std::size_t k=0;k<draws && n>0;++k) { R& x=(k%7==3?c:v)[k*k%n]; int y=x.r.get(); if(y<x.a || y>x.b) { FAIL("value " << y << " outside " << x.a << ".." << x.b); } }
}
PROP(C28,real,2) { switch(s.upto(2)) { case 0: reals<float>(s); break; case 1: reals<double>(s); break; default: reals<long double>(s); break; } }
#endif

#ifdef P_C29
// The standard clocks, which stand still while the harness says so.
namespace { bool clock_frozen=false; long long now_ns(clockid_t c) { timespec t; clock_gettime(c,&t); return static_cast<long long>(t.tv_sec)*1000000000LL+t.tv_nsec; } }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(clock_frozen?1700000000123456789LL:now_ns(CLOCK_REALTIME)))); }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(clock_frozen?123456789012345LL:now_ns(CLOCK_MONOTONIC)))); }
RULE(C29,"after a generated seed, 4000 values of a randomiser with generated bounds are sorted into 2..10 cells of equal probability, singly and in pairs of successive values (of the same randomiser, or of two used in turn); every count must be as near its expectation as all but one in 10^14 runs would be (Bernstein's bound); values of a range of more than 2^52 must not come back; new generators must not repeat each other, even if made at the same moment; non-trivial: more than one cell")
namespace {
const int DRAWS=4000;
void counts(std::vector<int> const& n, int total, const char* what) {
    double p=1.0/static_cast<double>(n.size()), mean=total*p, var=total*p*(1-p), L=38; double t=L/3+std::sqrt(L*L/9+2*L*var)+1;
    for(std::size_t i=0;i!=n.size();++i) { if(std::fabs(n[i]-mean)>t) { FAIL(what << ": cell " << i << " of " << n.size() << " has " << n[i] << " of " << total << " values, expected " << mean << " +- " << t); } } }
template<class F> void distribution(std::size_t cells, F draw) {
    std::vector<int> one(cells,0), pair(cells*cells,0), skip(cells*cells,0); std::size_t prev=0, prev2=0; 
    for(int k=0;k!=DRAWS;++k) { std::size_t c=draw(); REQUIRE(c<cells,"value outside the bounds"); ++one[c]; if(k>0) { ++pair[prev*cells+c]; } if(k>1) { ++skip[prev2*cells+c]; } prev2=prev; prev=c; }
    counts(one,DRAWS,"values");
    // Successive pairs overlap: count the ones at even and odd places apart would halve the power; bound each half instead.
    if(cells<=4) { double p=1.0/static_cast<double>(cells*cells), h=DRAWS/2.0, L=38, t=2*(L/3+std::sqrt(L*L/9+2*L*h*p*(1-p))+1); for(std::size_t i=0;i!=pair.size();++i) { if(std::fabs(pair[i]-DRAWS*p)>t+2) { FAIL("successive values in cells " << i/cells << "," << i%cells << " of " << cells << ": " << pair[i] << " of " << DRAWS << ", expected " << DRAWS*p << " +- " << t); } if(std::fabs(skip[i]-DRAWS*p)>t+4) { FAIL("values two apart in cells " << i/cells << "," << i%cells << " of " << cells << ": " << skip[i] << " of " << DRAWS << ", expected " << DRAWS*p << " +- " << t); } } }
}
template<class T> void cells_int(Src& s) {
    std::size_t k=2+s.upto(8); u64 width; { u64 w=s.upto(3); width = w==0 ? 1 : w==1 ? 2+s.upto(8) : w==2 ? u64(1)<<s.upto(sizeof(T)*8-6) : 1+s.upto((u64(std::numeric_limits<T>::max())/20)); } u64 span=width*k; u64 room=static_cast<u64>(std::numeric_limits<T>::max())-static_cast<u64>(std::numeric_limits<T>::min())-(span-1);
    u64 off=s.coin()?(s.coin()?0:room):s.unum(room); T a=static_cast<T>(static_cast<u64>(std::numeric_limits<T>::min())+off), b=static_cast<T>(static_cast<u64>(a)+span-1); unsigned seed=static_cast<unsigned>(s.upto(0xFFFFFFFFu)); s.nontrivial(); TR(txt(a) << ".." << txt(b) << " in " << k << " cells, seed " << seed);
    bool low=s.chance(1,3); if(low) { TR("by remainder"); } RANDOM_GENERATOR.engine().seed(seed); UniformIntRandomiser<T> r(a,b), q(a,b); std::size_t turn=s.upto(3); RandomiserInterface<T>* v[2]={&r,turn>=2?&q:&r}; std::size_t n=0; bool fresh=turn==3;
    distribution(k,[&]{ T x; if(fresh) { UniformIntRandomiser<T> f(a,b); x=f.get(); } else { x=v[n++&1]->get(); } u64 z=static_cast<u64>(x)-static_cast<u64>(a); return static_cast<std::size_t>(low?(z<span?z%k:k):z/width); });
}
template<class T> void cells_real(Src& s) {
    std::size_t k=2+s.upto(8); T a=static_cast<T>(s.range(-1000,1000))/8, w=static_cast<T>(1+s.upto(4000))/16; if(s.chance(1,4)) { w*=static_cast<T>(1e6); a*=static_cast<T>(1e6); } T b=a+w; bool low=s.chance(1,3); if(low) { a=w*static_cast<T>(s.range(-8,8))/8; b=a+w; } unsigned seed=static_cast<unsigned>(s.upto(0xFFFFFFFFu)); s.nontrivial(); TR(txt(a) << ".." << txt(b) << " in " << k << " cells" << (low?" by remainder":"") << ", seed " << seed);
    RANDOM_GENERATOR.engine().seed(seed); UniformRealRandomiser<T> r(a,b), q(a,b); std::size_t turn=s.upto(3); RandomiserInterface<T>* v[2]={&r,turn>=2?&q:&r}; std::size_t n=0; bool fresh=turn==3;
    distribution(k,[&]{ T x; if(fresh) { UniformRealRandomiser<T> f(a,b); x=f.get(); } else { x=v[n++&1]->get(); } if(low) { return static_cast<std::size_t>((x-a)/w*static_cast<T>(64*k))%k; } std::size_t c=static_cast<std::size_t>((x-a)/w*static_cast<T>(k)); return c==k?k-1:c; });
}
}
PROP(C29,integer,2) { switch(s.upto(3)) { case 0: cells_int<short>(s); break; case 1: cells_int<int>(s); break; case 2: cells_int<unsigned>(s); break; default: cells_int<long>(s); break; } }
PROP(C29,real,2) { switch(s.upto(2)) { case 0: cells_real<float>(s); break; case 1: cells_real<double>(s); break; default: cells_real<long double>(s); break; } }
PROP(C29,fresh_values,1) {   // values of a wide range do not come back
    std::size_t n=200+s.upto(3000); unsigned seed=static_cast<unsigned>(s.upto(0xFFFFFFFFu)); s.nontrivial(); std::size_t kind=s.upto(2); TR(n << " values of kind " << kind << ", seed " << seed); RANDOM_GENERATOR.engine().seed(seed); long b=s.num(1L<<60,std::numeric_limits<long>::max()); std::vector<long> v; v.reserve(n);
    if(kind==0) { UniformIntRandomiser<long> r(-b,b); for(std::size_t i=0;i!=n;++i) { v.push_back(r.get()); } } else if(kind==1) { UniformRealRandomiser<double> r(0,1); for(std::size_t i=0;i!=n;++i) { v.push_back(static_cast<long>(r.get()*0x1p53)); } } else { for(std::size_t i=0;i!=n;++i) { UniformIntRandomiser<long> r(0,b); v.push_back(r.get()); } }
    std::sort(v.begin(),v.end()); std::size_t again=0; for(std::size_t i=1;i!=n;++i) { again+=v[i]==v[i-1]; } if(again>2) { FAIL(again << " of " << n << " values of a range of more than 2^52 were drawn before"); }
}
PROP(C29,ends,1) {  // both ends of an integer range are drawn
    int a=s.irange(-1000000,1000000), k=s.irange(1,12); unsigned seed=static_cast<unsigned>(s.upto(0xFFFFFFFFu)); s.nontrivial(); TR(a << ".." << a+k-1 << " seed " << seed); RANDOM_GENERATOR.engine().seed(seed); UniformIntRandomiser<int> r(a,a+k-1); std::vector<int> n(static_cast<std::size_t>(k),0); for(int i=0;i!=DRAWS;++i) { int x=r.get(); REQUIRE(x>=a && x<a+k,"value " << x); ++n[static_cast<std::size_t>(x-a)]; } for(int i=0;i!=k;++i) { if(n[static_cast<std::size_t>(i)]==0) { FAIL("value " << a+i << " of " << a << ".." << a+k-1 << " was not drawn in " << DRAWS); } } if(k>1) { counts(n,DRAWS,"values"); }
}
PROP(C29,generators,1) {    // generators made now, without a seed, give different sequences; the same seed gives the same values again
    s.nontrivial(); std::size_t n=2+s.upto(4); TR(n << " generators"); std::vector<Helper::RandomGenerator> g(n); auto first=[](Helper::RandomGenerator& x){ std::vector<std::uint32_t> v; for(int i=0;i!=4;++i) { v.push_back(static_cast<std::uint32_t>(x.engine()())); } return v; };
    // one pair in 2^32 may start from the same seed by chance: only several such pairs are a failure
    int same=0; std::vector<std::vector<std::uint32_t>> v; for(auto& x : g) { v.push_back(first(x)); } for(std::size_t i=1;i<n;++i) { if(v[i]==v[0]) { ++same; } } if(same>0) { int again=0; for(int i=0;i!=4;++i) { Helper::RandomGenerator x, y; if(first(x)==first(y)) { ++again; } } if(again>=2) { FAIL("generators made one after the other give the same sequence"); } }
    Helper::RandomGenerator& x=g[0]; auto a=first(x), b=first(x); REQUIRE(a!=b,"the engine does not go on"); unsigned seed=static_cast<unsigned>(s.upto(0xFFFFFFFFu)); RANDOM_GENERATOR.engine().seed(seed); UniformIntRandomiser<int> r(0,1000000); std::vector<int> p, q; for(int i=0;i!=6;++i) { p.push_back(r.get()); } RANDOM_GENERATOR.engine().seed(seed); UniformIntRandomiser<int> u(0,1000000); for(int i=0;i!=6;++i) { q.push_back(u.get()); } REQUIRE(p==q,"the same seed gives other values"); bool moving=false; for(int i=1;i!=6;++i) { moving=moving || p[static_cast<std::size_t>(i)]!=p[0]; } REQUIRE(moving,"the same value is drawn six times of a million");
}
PROP_ONCE(C29,seeds) {   // many generators made at the same moment are different
    s.nontrivial(); const std::size_t n=3000; bool frozen=true; TR(n << " generators"); std::vector<std::uint64_t> v; for(std::size_t i=0;i!=n;++i) { if(i==n/2) { frozen=false; } clock_frozen=frozen; std::unique_ptr<Helper::RandomGenerator> g(new Helper::RandomGenerator); clock_frozen=false; std::uint64_t x=g->engine()(); v.push_back(x<<32 | g->engine()()); }
    std::sort(v.begin(),v.end()); std::size_t again=0; for(std::size_t i=1;i!=n;++i) { again+=v[i]==v[i-1]; } if(again>4) { FAIL(again << " of " << n << " new generators start like another one"); }
}
#endif
