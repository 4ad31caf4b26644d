// An element type that notices every mistake in managing its lifetime.
#ifndef TRACKED_HPP
#define TRACKED_HPP
#include "pbt.hpp"
#include <ostream>

namespace pbt {

struct Boom : std::exception { const char* what() const noexcept override { return "Boom"; } };

struct Tracked {
    static inline long live = 0;            // objects alive
    static inline const char* error = nullptr;
    static inline long throw_in = 0;        // >0: the throw_in-th construction or copy from now throws
    static inline long copies = 0;
    long v; const Tracked* self; unsigned magic; char* heap;
    static constexpr unsigned LIVE=0x4C495645u, DEAD=0xDEADDEADu;

    static void tick() { if(throw_in>0 && --throw_in==0) { throw Boom(); } }
    void birth(long x) { tick(); heap=new char('t'); v=x; self=this; magic=LIVE; ++live; }
    void check(const char* what) const { if(magic!=LIVE || self!=this) { error=what; } }
    Tracked() { birth(0); }
    Tracked(long x) { birth(x); }
    Tracked(Tracked const& t) { t.check("copied from an object that is not alive"); ++copies; birth(t.v); }
    Tracked& operator=(Tracked const& t) { check("assigned to an object that is not alive"); t.check("assigned from an object that is not alive"); tick(); ++copies; v=t.v; return *this; }
    ~Tracked() { check("destroyed an object that is not alive"); if(magic==LIVE) { delete heap; --live; } magic=DEAD; self=nullptr; }
    bool operator==(Tracked const& t) const { check("compared an object that is not alive"); t.check("compared an object that is not alive"); return v==t.v; }
    bool operator!=(Tracked const& t) const { return !(*this==t); }
    bool operator<(Tracked const& t) const { check("compared an object that is not alive"); t.check("compared an object that is not alive"); return v<t.v; }
    friend std::ostream& operator<<(std::ostream& os, Tracked const& t) { return os << 'T' << t.v; }
    //! Called at the start of a case.
    static void reset() { live=0; error=nullptr; throw_in=0; copies=0; }
    static void verify(const char* where) { if(error) { const char* e=error; error=nullptr; throw Fail{std::string(e)+" ("+where+")"}; } }
};

template<class T> struct Make;
template<> struct Make<int> { static int from(long x) { return static_cast<int>(x); } };
template<> struct Make<long> { static long from(long x) { return x; } };
template<> struct Make<unsigned char> { static unsigned char from(long x) { return static_cast<unsigned char>(x); } };
template<> struct Make<bool> { static bool from(long x) { return (x&1)!=0; } };
template<> struct Make<std::size_t> { static std::size_t from(long x) { return static_cast<std::size_t>(x); } };
template<> struct Make<double> { static double from(long x) { return static_cast<double>(x)/4; } };
template<> struct Make<std::string> { static std::string from(long x) { return (x&3)==3 ? "a rather long string that is kept on the heap #"+std::to_string(x) : std::to_string(x); } };
template<> struct Make<Tracked> { static Tracked from(long x) { return Tracked(x); } };
template<class T> [[gnu::noinline]] T gen_value(Src& s) { return Make<T>::from(static_cast<long>(s.upto(40))-8); }
template<class T> [[gnu::noinline]] std::vector<T> gen_vector(Src& s, std::size_t cap) { std::size_t n=s.len(cap); std::vector<T> v; v.reserve(n); for(std::size_t i=0;i!=n;++i) { v.push_back(gen_value<T>(s)); } return v; }

//! The i-th of a sequence of values that follows from one number.
template<class T> T hashed(u64 seed, std::size_t i) { u64 m=Src::mix(seed+i*0x9E3779B97F4A7C15ull); return Make<T>::from(static_cast<long>(m%(std::is_integral_v<T> && sizeof(T)>=4?1000003u:41u))-8); }
template<class T> std::vector<T> hashed_vector(u64 seed, std::size_t n) { std::vector<T> v; v.reserve(n); for(std::size_t i=0;i!=n;++i) { v.push_back(hashed<T>(seed,i)); } return v; }

} // namespace pbt
#endif
