// A small property-based testing engine.
//
// A property is a function of a choice source (pbt::Src).  Every random decision is one bounded choice drawn from the
// source, so a case is completely determined by its list of choices.  The same property can be driven by
//   - a seeded pseudo-random source (quick and thorough campaigns),
//   - a byte string (libFuzzer, coverage guided),
//   - a recorded list of choices (replay and shrinking).
// Failures are shrunk on the list of choices (deleting, zeroing and lowering them).
#ifndef PBT_HPP
#define PBT_HPP

#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt {

using u64 = std::uint64_t;
using i64 = std::int64_t;

// ---------------------------------------------------------------- allocation accounting (see pbt_main.hpp)
extern long live_blocks;        // blocks obtained from operator new and not yet released
extern long live_bytes;
extern long alloc_countdown;    // >0: the countdown-th allocation from now throws std::bad_alloc; <=0: off
extern bool alloc_fault_fired;

struct AllocFault {             // the k-th allocation (k>=1) in the guard's scope fails
    explicit AllocFault(long k) { alloc_fault_fired=false; alloc_countdown=k; }
    ~AllocFault() { alloc_countdown=0; }
    bool fired() const { return alloc_fault_fired; }
};

// ---------------------------------------------------------------- failures
struct Fail { std::string msg; };
struct Overrun { };             // the case drew too many choices: discarded and counted

// ---------------------------------------------------------------- shared state of one run
static const std::size_t MAX_CHOICES = 1u<<17;
static const std::size_t MAX_LABELS = 96;
struct Label { char name[40]; u64 count; };
struct Slot {
    volatile int state;             // 0 running, 1 failed, 2 done, 3 ran out of CPU time
    u64 case_index, resume; int prop_index;
    u64 evals, nontrivial, overruns;
    u64 nchoices;
    u64 choices[MAX_CHOICES];
    char msg[4096];
    Label labels[MAX_LABELS];
};

// ---------------------------------------------------------------- the choice source
class Src {
  public:
    enum class Mode { RANDOM, REPLAY, BYTES };
    Mode mode = Mode::RANDOM;
    u64 rng[2] = {1,2};
    const u64* rep = nullptr; std::size_t nrep = 0;
    const std::uint8_t* bytes = nullptr; std::size_t nbytes = 0;
    std::size_t pos = 0;
    Slot* slot = nullptr;
    std::ostringstream* tr = nullptr;       // verbose trace, when wanted
    std::string* encode = nullptr;          // byte encoding of the choices, when wanted
    bool nontriv = false;
    u64 hash = 0x9E3779B97F4A7C15ull;

    void seed(u64 s) { rng[0]=mix(s); rng[1]=mix(rng[0]^0xD1B54A32D192ED03ull)|1u; for(int i=0;i<4;++i) next(); }
    static u64 mix(u64 z) { z+=0x9E3779B97F4A7C15ull; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }

    //! A choice in 0..max (inclusive); 0 is the simplest.
    u64 upto(u64 max) {
        u64 v=0;
        if(max!=0) {
            switch(mode) {
                case Mode::RANDOM: v = max==~u64(0) ? next() : reduce(next(),max+1); break;
                case Mode::REPLAY: v = pos<nrep ? rep[pos++] : 0; if(v>max) { v = max==~u64(0) ? v : v%(max+1); } break;
                case Mode::BYTES: { int k=width(max); for(int i=0;i<k;++i) { u64 b = pos<nbytes ? bytes[pos++] : 0; v |= b<<(8*i); }
                    if(v>max) { v%=(max+1); } break; }
            }
            if(slot) { if(slot->nchoices>=MAX_CHOICES) { throw Overrun(); } slot->choices[slot->nchoices++]=v; }
            if(encode) { int k=width(max); for(int i=0;i<k;++i) { encode->push_back(static_cast<char>(v>>(8*i))); } }
            hash=(hash^v)*0x100000001B3ull; hash^=hash>>29;
        }
        return v;
    }
    //! An integer in lo..hi; lo is the simplest.
    i64 range(i64 lo, i64 hi) { return static_cast<i64>(static_cast<u64>(lo)+upto(static_cast<u64>(hi)-static_cast<u64>(lo))); }
    int irange(int lo, int hi) { return static_cast<int>(range(lo,hi)); }
    std::size_t index(std::size_t n) { return static_cast<std::size_t>(upto(n-1)); }      // n>=1
    //! True with probability num/den; false is the simplest.
    bool chance(unsigned num, unsigned den) { return upto(den-1) >= den-num; }
    bool coin() { return upto(1)!=0; }
    template<class T> T const& pick(std::vector<T> const& v) { return v[index(v.size())]; }
    template<class T, std::size_t N> T const& pick(const T (&v)[N]) { return v[index(N)]; }

    //! A size in 0..cap: mostly small, with powers of two and their neighbours and with large sizes now and then.
    std::size_t len(std::size_t cap) {
        auto clip=[cap](std::size_t n){ return n<cap?n:cap; };
        u64 kind=upto(15);
        if(kind<8) { return upto(clip(6)); }
        if(kind<12) { return upto(clip(20)); }
        if(kind<14) { std::size_t top=0; while((std::size_t(2)<<top)<=cap) { ++top; }
            std::size_t p=std::size_t(1)<<upto(top); p+=upto(2); return clip(p-1); }
        if(kind==14) { return upto(clip(300)); }
        return upto(cap);
    }
    //! An integer in lo..hi, biased to 0, small values, the limits and powers of two.
    i64 num(i64 lo, i64 hi) {
        u64 kind=upto(7); i64 v=0;
        if(kind<4) { u64 z=upto(20); v = (z&1) ? -static_cast<i64>((z+1)/2) : static_cast<i64>(z/2); }
        else if(kind==4) { u64 d=upto(3); v = d<2 ? static_cast<i64>(static_cast<u64>(hi)-d) : static_cast<i64>(static_cast<u64>(lo)+(d-2)); }
        else if(kind==5) { v=static_cast<i64>((u64(1)<<upto(63))+upto(2)-1); if(coin()) { v=static_cast<i64>(0-static_cast<u64>(v)); } }
        else { return range(lo,hi); }
        if(v<lo || v>hi) { u64 span=static_cast<u64>(hi)-static_cast<u64>(lo); u64 m=static_cast<u64>(v); if(span!=~u64(0)) { m%=(span+1); } v=static_cast<i64>(static_cast<u64>(lo)+m); }
        return v;
    }
    u64 unum(u64 hi=~u64(0)) {
        u64 kind=upto(7); u64 v;
        if(kind<4) { v=upto(20); } else if(kind==4) { v=hi-upto(2); }
        else if(kind==5) { v=(u64(1)<<upto(63))+upto(2)-1; } else { return upto(hi); }
        return hi==~u64(0) ? v : v%(hi+1);
    }
    //! A finite double.
    double real() {
        u64 kind=upto(7);
        if(kind<3) { return static_cast<double>(num(-20,20)); }
        if(kind<5) { return static_cast<double>(range(-1000,1000))/static_cast<double>(1+upto(63)); }
        if(kind==5) { static const double sp[]={0.0,-0.0,1e-310,5e-324,2.2250738585072014e-308,1.7976931348623157e308,-1.7976931348623157e308,0.1,1e21,1e-7,123456789.125}; return pick(sp); }
        u64 b=upto(~u64(0)); double d; std::memcpy(&d,&b,8);
        if(!(d-d==0.0)) { d=static_cast<double>(static_cast<i64>(b)); }
        return d;
    }
    //! A size in 0..cap for cases whose contents follow from few choices: small, around every power of two, or anything.
    std::size_t bulk(std::size_t cap) {
        auto clip=[cap](std::size_t n){ return n<cap?n:cap; };
        u64 kind=upto(15);
        if(kind<6) { return upto(clip(40)); }
        if(kind<10) { return upto(clip(1200)); }
        if(kind<14) { std::size_t lo=4, top=4; while((std::size_t(2)<<top)<=cap) { ++top; } std::size_t p=std::size_t(1)<<(lo+upto(top-lo)); p+=upto(3); return clip(p-1); }
        return upto(cap);
    }
    //! A string over an alphabet.
    std::string str(std::size_t cap, const char* alphabet="abcxyz019 _") {
        std::size_t n=len(cap), k=std::strlen(alphabet); std::string s; for(std::size_t i=0;i!=n;++i) { s.push_back(alphabet[index(k)]); } return s;
    }

    void nontrivial() { nontriv=true; }
    void label(const char* name) {
        if(!slot) { return; }
        for(std::size_t i=0;i!=MAX_LABELS;++i) {
            Label& l=slot->labels[i];
            if(l.name[0]==0) { std::strncpy(l.name,name,sizeof(l.name)-1); }
            if(std::strncmp(l.name,name,sizeof(l.name)-1)==0) { ++l.count; return; }
        }
    }
  private:
    u64 next() { u64 a=rng[0], b=rng[1]; rng[0]=b; a^=a<<23; rng[1]=a^b^(a>>18)^(b>>5); return rng[1]+b; }
    static u64 reduce(u64 x, u64 n) { return static_cast<u64>((static_cast<unsigned __int128>(x)*n)>>64); }
    static int width(u64 max) { int k=1; while(k<8 && (max>>(8*k))!=0) { ++k; } return k; }
};

// ---------------------------------------------------------------- registration
typedef void (*PropFn)(Src&);
struct Prop { const char* id; const char* name; unsigned weight; PropFn fn; };
std::vector<Prop>& props();
struct Register { Register(const char* id, const char* name, unsigned weight, PropFn fn) { props().push_back({id,name,weight,fn}); } };

// Descriptions for the evidence file: what makes a case non-trivial.
struct Rule { const char* id; const char* text; };
std::vector<Rule>& rules();
struct RegisterRule { RegisterRule(const char* id, const char* text) { rules().push_back({id,text}); } };

// Confirmed defects that were recorded instead of repaired: each reports whether it still fails.
struct Known { const char* id; const char* key; bool (*fails)(); };
std::vector<Known>& knowns();
struct RegisterKnown { RegisterKnown(const char* id, const char* key, bool (*f)()) { knowns().push_back({id,key,f}); } };

// ---------------------------------------------------------------- redirect the standard streams for a scope
class Capture {
    std::ostringstream _buf; std::ostream& _os; std::streambuf* _old; std::ios_base::fmtflags _flags; std::ios_base::iostate _state;
  public:
    explicit Capture(std::ostream& os) : _os(os), _old(os.rdbuf(_buf.rdbuf())), _flags(os.flags()), _state(os.rdstate()) { }
    ~Capture() { _os.rdbuf(_old); _os.flags(_flags); _os.clear(_state); }
    std::string text() const { return _buf.str(); }
    Capture(const Capture&) = delete;
};

template<class A> std::string show(A const& a) {
    if constexpr (requires(std::ostream& os) { os << a; }) { std::ostringstream os; os << a; return os.str(); } else { return "?"; }
}
template<class A> std::string show(std::vector<A> const& v) {
    std::ostringstream os; os << '['; std::size_t n=0; for(auto const& x : v) { if(n++) { os << ' '; } if(n>200) { os << "...(" << v.size() << ")"; break; } os << show(x); } os << ']'; return os.str();
}
template<> inline std::string show(std::string const& s) { return "\""+s+"\""; }

} // namespace pbt

#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
//! Define a (sub)property; cases are shared among a property's subproperties in proportion to their weights.
#define PROP(id,name,weight) \
    static void prop_##id##_##name(pbt::Src& s); \
    static pbt::Register PBT_CAT(reg_,__LINE__)(#id,#name,weight,&prop_##id##_##name); \
    static void prop_##id##_##name([[maybe_unused]] pbt::Src& s)
//! A large deterministic or nearly deterministic case that is run once in a campaign.
#define PROP_ONCE(id,name) PROP(id,name,0)
#define RULE(id,text) static pbt::RegisterRule PBT_CAT(rule_,__LINE__)(#id,text);
#define KNOWN(id,key) \
    static bool PBT_CAT(known_,__LINE__)(); \
    static pbt::RegisterKnown PBT_CAT(regk_,__LINE__)(#id,key,&PBT_CAT(known_,__LINE__)); \
    static bool PBT_CAT(known_,__LINE__)()

#define TR(x) do { if(s.tr) { *s.tr << x << "\n"; } } while(false)
#define FAIL(x) do { std::ostringstream pbt_os; pbt_os << x; throw pbt::Fail{pbt_os.str()}; } while(false)
#define REQUIRE(c,x) do { if(!(c)) { FAIL("[" #c "] " << x); } } while(false)
#define REQUIRE_EQ(got,want,x) do { auto const& pbt_g=(got); auto const& pbt_w=(want); \
    if(!(pbt_g==pbt_w)) { FAIL(#got " is " << pbt::show(pbt_g) << ", expected " << pbt::show(pbt_w) << "; " << x); } } while(false)

#endif
