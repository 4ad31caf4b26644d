// Writing containers, tuples and sequences; reading sequences.
#include "../engine/pbt.hpp"
#include "../engine/tracked.hpp"
#include <iostream>
#include "container.hpp"
#include <deque>
#include <iomanip>
#include <iterator>
#include <memory>

using namespace pbt;
using Helper::List; using Helper::LinkedList; using Helper::Set; using Helper::Map; using Helper::Array; using Helper::SharedArray;

#ifdef P_C14
RULE(C14,"containers of integers, doubles, strings, pairs, tuples and other containers, of 0 to 300 elements, are written to a stream with random base and precision, and iterator ranges (including single-pass ones) are written with random delimiters; the text must be the documented one, assembled independently, and the stream returned must be the one given; containers of truth values are written as words or digits; non-trivial: two or more elements, or a tuple of two or more");
namespace {
// what a value should look like in a stream with the flags of `proto`
template<class T> std::string fmt(std::ios& proto, T const& x) { std::ostringstream os; os.copyfmt(proto); os << x; return os.str(); }
std::string wrap(std::vector<std::string> const& v, std::string open, std::string sep, std::string close) { std::string r=open; for(std::size_t i=0;i!=v.size();++i) { if(i) { r+=sep; } r+=v[i]; } return r+close; }
void flags(Src& s, std::ostream& os) { switch(s.upto(5)) { case 1: os << std::hex << std::showbase; break; case 2: os << std::setprecision(static_cast<int>(s.upto(17))); break; case 3: os << std::showpos << std::scientific; if(s.coin()) { os << std::setprecision(static_cast<int>(s.upto(2))); } break; case 4: os << std::uppercase << std::oct; break; default: break; } }
template<class T> struct Gen { static T make(Src& s) { return gen_value<T>(s); } };
template<> struct Gen<double> { static double make(Src& s) { return s.real(); } };
template<> struct Gen<long> { static long make(Src& s) { return s.num(-1000000,1000000); } };
struct Coef { int i; double c; int index() const { return i; } double coefficient() const { return c; } };
template<class T> [[gnu::noinline]] std::vector<T> values(Src& s, std::size_t cap) { std::size_t n=s.len(cap); std::vector<T> v; for(std::size_t i=0;i!=n;++i) { v.push_back(Gen<T>::make(s)); } return v; }
template<class X> [[gnu::noinline]] void expect(Src& s, std::ostringstream& os, X const& x, std::string const& want, const char* what) {
    using Helper::operator<<; std::ostream& r=(os << x); TR(what << " " << want); REQUIRE(&r==&os,"the stream returned by writing " << what); REQUIRE_EQ(os.str(),want,what); REQUIRE(os.good(),what); os.str(""); }
template<class T> void write_all(Src& s, std::size_t cap) {
    using Helper::operator<<;
    auto v=values<T>(s,cap); if(v.size()>=2) { s.nontrivial(); } if(v.empty()) { s.label("empty"); } std::ostringstream os; flags(s,os);
    std::vector<std::string> f; for(auto const& x : v) { f.push_back(fmt(os,x)); }
    std::string sq=wrap(f,"[",",","]");
    switch(s.upto(8)) {
      case 0: expect(s,os,v,sq,"a vector"); break;
      case 1: expect(s,os,List<T>(v),sq,"a List"); break;
      case 2: expect(s,os,Array<T>(v.begin(),v.end()),sq,"an Array"); break;
      case 3: { SharedArray<T> a(v.size()); for(std::size_t i=0;i!=v.size();++i) { a[i]=v[i]; } expect(s,os,a,sq,"a SharedArray"); break; }
      case 4: { std::list<T> l(v.begin(),v.end()); expect(s,os,l,sq,"a list"); expect(s,os,LinkedList<T>(l),sq,"a LinkedList"); break; }
      case 5: { std::set<T> t(v.begin(),v.end()); std::vector<std::string> g; for(auto const& x : t) { g.push_back(fmt(os,x)); } expect(s,os,t,wrap(g,"{",",","}"),"a set"); expect(s,os,Set<T>(t),wrap(g,"{",",","}"),"a Set"); break; }
      case 6: { std::map<T,int> m; std::vector<std::string> g; for(auto const& x : v) { m[x]=s.irange(-9,9); } for(auto const& e : m) { g.push_back(fmt(os,e.first)+":"+fmt(os,e.second)); } std::string w = g.empty() ? std::string("{ }") : wrap(g,"{ ",", "," }"); expect(s,os,m,w,"a map"); expect(s,os,Map<T,int>(m),w,"a Map"); break; }
      case 7: { std::vector<std::string> g; for(std::size_t i=0;i+1<f.size();i+=2) { g.push_back("("+f[i]+","+f[i+1]+")"); } List<std::pair<T,T>> l; for(std::size_t i=0;i+1<v.size();i+=2) { l.push_back({v[i],v[i+1]}); } expect(s,os,l,wrap(g,"[",",","]"),"a List of pairs"); break; }
      default: { List<List<T>> l; std::vector<std::string> g; for(std::size_t i=0;i<v.size();) { std::size_t k=std::min<std::size_t>(s.upto(4),v.size()-i); l.push_back(List<T>(v.begin()+static_cast<long>(i),v.begin()+static_cast<long>(i+k))); g.push_back(wrap(std::vector<std::string>(f.begin()+static_cast<long>(i),f.begin()+static_cast<long>(i+k)),"[",",","]")); i+=k?k:1; }
            expect(s,os,l,wrap(g,"[",",","]"),"a List of Lists"); Array<List<T>> a(l.begin(),l.end()); expect(s,os,a,wrap(g,"[",",","]"),"an Array of Lists"); Map<int,List<T>> m; std::vector<std::string> h; for(std::size_t i=0;i!=g.size();++i) { m.insert(static_cast<int>(i),l[i]); h.push_back(fmt(os,static_cast<int>(i))+":"+g[i]); } expect(s,os,m,h.empty()?std::string("{ }"):wrap(h,"{ ",", "," }"),"a Map to Lists"); break; }
    }
}
}
PROP(C14,int,2) { write_all<int>(s,300); }
PROP(C14,string,2) { write_all<std::string>(s,60); }
PROP(C14,double,1) { write_all<double>(s,60); }
PROP(C14,tuple,2) {
    std::ostringstream os; flags(s,os); int a=s.irange(-99,99); double b=s.real(); std::string c=Gen<std::string>::make(s); long d=Gen<long>::make(s); char e='q'; s.nontrivial();
    auto A=fmt(os,a), B=fmt(os,b), C=fmt(os,c), D=fmt(os,d), E=fmt(os,e);
    switch(s.upto(10)) {
      case 8: expect(s,os,std::make_tuple(a,b,c,d,e,a,b,c,d),"("+A+","+B+","+C+","+D+","+E+","+A+","+B+","+C+","+D+")","a tuple of 9"); break;
      case 9: expect(s,os,std::make_tuple(a,b,c,d,e,a,b,c,d,e,e,d),"("+A+","+B+","+C+","+D+","+E+","+A+","+B+","+C+","+D+","+E+","+E+","+D+")","a tuple of 12"); break;
      case 10: { using std::make_tuple; std::string w="("; [&]<std::size_t... I>(std::index_sequence<I...>) { ((w+=fmt(os,a+static_cast<int>(I))+","),...); expect(s,os,make_tuple(a+static_cast<int>(I)...,c),w+C+")","a tuple of 35"); }(std::make_index_sequence<34>()); break; }
      case 0: expect(s,os,std::tuple<int>(a),"("+A+")","a tuple of 1"); break;
      case 1: expect(s,os,std::make_tuple(a,b),"("+A+","+B+")","a tuple of 2"); break;
      case 2: expect(s,os,std::make_tuple(c,b,a),"("+C+","+B+","+A+")","a tuple of 3"); break;
      case 3: expect(s,os,std::make_tuple(a,b,c,d),"("+A+","+B+","+C+","+D+")","a tuple of 4"); break;
      case 4: expect(s,os,std::make_tuple(e,d,c,b,a,e),"("+E+","+D+","+C+","+B+","+A+","+E+")","a tuple of 6"); break;
      case 5: expect(s,os,std::make_pair(c,d),"("+C+","+D+")","a pair"); break;
      case 6: expect(s,os,std::make_pair(std::make_pair(a,b),c),"(("+A+","+B+"),"+C+")","a nested pair"); break;
      default: expect(s,os,std::make_tuple(std::make_tuple(a,c),std::make_pair(b,d),d),"(("+A+","+C+"),("+B+","+D+"),"+D+")","a nested tuple"); break;
    }
}
namespace {
//! Passes once over a range: all copies share the position, as those of a stream's iterators do.
template<class I> class Once {
    struct State { I at, end; }; std::shared_ptr<State> _s;
    bool done() const { return !_s || _s->at==_s->end; }
  public:
    using value_type=typename std::iterator_traits<I>::value_type; using reference=typename std::iterator_traits<I>::reference; using pointer=typename std::iterator_traits<I>::pointer; using difference_type=std::ptrdiff_t; using iterator_category=std::input_iterator_tag;
    Once() = default; Once(I b, I e) : _s(new State{b,e}) { }
    reference operator*() const { REQUIRE(!done(),"the end of a sequence is dereferenced"); return *_s->at; } pointer operator->() const { return &**this; }
    Once& operator++() { REQUIRE(!done(),"the end of a sequence is passed"); ++_s->at; return *this; } Once operator++(int) { Once r(*this); ++*this; return r; }
    friend bool operator==(Once const& a, Once const& b) { return a.done()==b.done(); } friend bool operator!=(Once const& a, Once const& b) { return !(a==b); }
};
}
PROP(C14,characters,1) {     // the characters of a stream, which can be passed only once
    std::string t=s.str(40,"abc,[] \n"); TR(show(t)); if(t.size()>=2) { s.nontrivial(); } std::istringstream is(t); std::ostringstream os; std::vector<std::string> f; for(char c : t) { f.push_back(std::string(1,c)); }
    if(s.coin()) { Helper::write_sequence(os,std::istreambuf_iterator<char>(is),std::istreambuf_iterator<char>()); REQUIRE_EQ(os.str(),wrap(f,"[",",","]"),"characters of a stream"); }
    else { is >> std::noskipws; Helper::write_sequence(os,std::istream_iterator<char>(is),std::istream_iterator<char>(),'<','>','|'); REQUIRE_EQ(os.str(),wrap(f,"<","|",">"),"characters read from a stream"); }
}
PROP(C14,many,1) {           // more elements than a small counter holds, of a form that follows from few choices
    std::size_t n=s.bulk(s.chance(1,30)?70000:3000); u64 seed=s.upto(~u64(0)); std::size_t kind=s.upto(7); std::ostringstream os; flags(s,os); std::vector<int> v; for(std::size_t i=0;i!=n;++i) { v.push_back(static_cast<int>(Src::mix(seed+i)>>40)-8000000); } if(n>=2) { s.nontrivial(); } if(n>65535) { s.label("more than 65535 elements"); } TR(n << " elements, kind " << kind);
    std::ostringstream w; w.copyfmt(os); char sep=','; auto all=[&](auto const& c, const char* o, const char* e){ w << o; bool first=true; for(auto const& x : c) { if(!first) { w << sep; } first=false; w << x; } w << e; }; using Helper::operator<<;
    switch(kind) {
      case 0: os << v; all(v,"[","]"); break;
      case 1: os << List<int>(v); all(v,"[","]"); break;
      case 2: os << Array<int>(v.begin(),v.end()); all(v,"[","]"); break;
      case 3: { Set<int> t; for(int x : v) { t.insert(x); } os << t; all(std::set<int>(v.begin(),v.end()),"{","}"); break; }
      case 4: { Map<int,std::size_t> m; std::map<int,std::size_t> r; for(std::size_t i=0;i!=n;++i) { m[v[i]]=i; r[v[i]]=i; } os << m; w << (r.empty()?"{ ":"{ "); bool first=true; for(auto& e : r) { if(!first) { w << ", "; } first=false; w << e.first << ":" << e.second; } w << (r.empty()?"}":" }"); break; }
      case 5: Helper::write_sequence(os,Once(v.begin(),v.end()),Once<std::vector<int>::iterator>(),'(',')',';'); sep=';'; all(v,"(",")"); break;
      case 6: { std::vector<const int*> q; for(auto& x : v) { q.push_back(&x); } Helper::write_pointer_sequence(os,q.begin(),q.end()); all(v,"[","]"); break; }
      default: { LinkedList<int> l; for(int x : v) { l.push_back(x); } os << l; all(v,"[","]"); break; }
    }
    std::string got=os.str(), want=w.str(); if(got!=want) { std::size_t p=0; while(p<got.size() && p<want.size() && got[p]==want[p]) { ++p; } FAIL("text of " << n << " elements (kind " << kind << ") differs from character " << p << ": " << show(got.substr(p,40)) << ", expected " << show(want.substr(p,40))); }
}
namespace {
//! Writing one changes the settings of the stream.
struct Leaves { int v; int how; bool operator<(Leaves const& o) const { return v<o.v; } friend std::ostream& operator<<(std::ostream& os, Leaves const& x) { os << x.v; switch(x.how) { case 1: os << std::hex; break; case 2: os << std::dec << std::noshowpos; break; case 3: os << std::showpos; break; case 4: os << std::showbase << std::oct; break; case 5: os << std::setfill('*') << std::setprecision(3); break; default: break; } return os; } };
}
PROP(C14,settings,1) {    // what elements do to the settings of the stream stays as they leave it
    std::size_t n=s.len(20), kind=s.upto(6); std::vector<Leaves> v; for(std::size_t i=0;i!=n;++i) { v.push_back({s.irange(-99,99),s.irange(0,kind==4||kind==3?4:5)}); } std::ostringstream os, w; if(n>=2) { s.nontrivial(); } using Helper::operator<<; TR(n << " elements that change settings, kind " << kind);
    auto all=[&](auto const& c){ w << '['; bool first=true; for(auto const& x : c) { if(!first) { w << ','; } first=false; w << x; } w << ']'; };
    switch(kind) {
      case 0: os << v; all(v); break; case 1: os << List<Leaves>(v); all(v); break; case 2: { Array<Leaves> a(v.begin(),v.end()); os << a; all(v); break; }
      case 3: { std::map<Leaves,Leaves> m; for(std::size_t i=0;i+1<n;i+=2) { m.insert({v[i],v[i+1]}); } if(s.coin()) { os << m; } else { os << Map<Leaves,Leaves>(m); } bool first=true; for(auto& e : m) { w << (first?"{ ":", ") << e.first << ":" << e.second; first=false; } w << (first?"{ }":" }"); break; }
      case 4: { if(n<3) { break; } os << std::make_tuple(v[0],v[1],v[2],7) << std::make_pair(v[1],v[0]); w << "(" << v[0] << "," << v[1] << "," << v[2] << "," << 7 << ")" << "(" << v[1] << "," << v[0] << ")"; break; }
      case 5: { LinkedList<Leaves> l; for(auto& x : v) { l.push_back(x); } os << l; all(v); break; }
      default: { Helper::write_sequence(os,v.begin(),v.end()); all(v); break; } }
    os << 1000; w << 1000; REQUIRE_EQ(os.str(),w.str(),"kind " << kind); REQUIRE(os.flags()==w.flags() && os.fill()==w.fill() && os.precision()==w.precision(),"settings of the stream afterwards, kind " << kind);
}
namespace {
//! Keys and values of any two types, with any settings, written by all of the functions.
template<class K, class T> void typed(Src& s, std::ostringstream& os, K (*key)(Src&), T (*value)(Src&)) {
    std::size_t n=s.len(12); std::vector<K> ks; std::vector<T> vs; for(std::size_t i=0;i!=n;++i) { ks.push_back(key(s)); vs.push_back(value(s)); } if(n>=1) { s.nontrivial(); } std::vector<std::pair<K,T>> e; std::vector<std::pair<K,const T*>> ep; std::vector<const T*> p; struct C { K k; T t; K index() const { return k; } T coefficient() const { return t; } }; std::vector<C> c; std::vector<std::string> f, g; std::list<T> keep;
    for(std::size_t i=0;i!=n;++i) { keep.push_back(static_cast<T>(vs[i])); e.push_back({ks[i],static_cast<T>(vs[i])}); ep.push_back({ks[i],&keep.back()}); p.push_back(&keep.back()); c.push_back({ks[i],static_cast<T>(vs[i])}); f.push_back(fmt(os,static_cast<T>(vs[i]))); g.push_back(fmt(os,ks[i])+"="+fmt(os,static_cast<T>(vs[i]))); }
    std::size_t kind=s.upto(9); std::string want; auto before=os.flags(); using Helper::operator<<; std::map<K,T> m; for(auto const& x : e) { m.insert(x); } std::vector<std::string> h; for(auto const& x : m) { h.push_back(fmt(os,x.first)+":"+fmt(os,x.second)); }
    switch(kind) { case 0: Helper::write_map_sequence(os,e.begin(),e.end(),'<','>','|','='); want=wrap(g,"<","|",">"); break; case 1: Helper::write_map_pointer_sequence(os,ep.begin(),ep.end(),'<','>','|','='); want=wrap(g,"<","|",">"); break; case 2: Helper::write_coefficient_map_sequence(os,c.begin(),c.end(),'<','>','|','='); want=wrap(g,"<","|",">"); break; case 3: Helper::write_pointer_sequence(os,p.begin(),p.end(),'<','>','|'); want=wrap(f,"<","|",">"); break; case 4: Helper::write_sequence(os,keep.begin(),keep.end(),'<','>','|'); want=wrap(f,"<","|",">"); break; case 5: os << m; want=h.empty()?"{ }":wrap(h,"{ ",", "," }"); break; case 6: os << keep; want=wrap(f,"[",",","]"); break; case 7: if(n!=0) { os << e[0]; want="("+fmt(os,e[0].first)+","+fmt(os,e[0].second)+")"; } break; case 8: if(n!=0) { os << std::make_tuple(ks[0],static_cast<T>(vs[0]),ks[0]); want="("+fmt(os,ks[0])+","+f[0]+","+fmt(os,ks[0])+")"; } break; default: { Array<T> a(keep.begin(),keep.end()); os << a; want=wrap(f,"[",",","]"); break; } }
    TR("kind " << kind << ": " << show(want)); REQUIRE_EQ(os.str(),want,"kind " << kind << ", keys of " << sizeof(K) << " and values of " << sizeof(T) << " bytes"); REQUIRE(os.flags()==before,"the settings of the stream changed, kind " << kind);
}
bool a_bool(Src& s) { return s.coin(); } char a_char(Src& s) { return "x ,:[}0\n"[s.index(8)]; } int an_int(Src& s) { return s.irange(-300,300); } double a_double(Src& s) { static const double d[]={0.0,-0.0,1.0,-1.5,0.1,1e10,123456789.0,std::numeric_limits<double>::infinity()}; return s.pick(d); } short a_short(Src& s) { return static_cast<short>(s.irange(-300,300)); } unsigned char a_byte(Src& s) { return static_cast<unsigned char>('a'+s.upto(20)); } float a_float(Src& s) { return static_cast<float>(a_double(s)); } const char* a_text(Src& s) { static const char* const t[]={"","a","two words",", "}; return s.pick(t); } std::string a_string(Src& s) { return a_text(s); }
}
PROP(C14,truths,1) {     // containers of truth values, as words or digits
    std::size_t n=s.len(40), kind=s.upto(6); std::vector<bool> v; for(std::size_t i=0;i!=n;++i) { v.push_back(s.coin()); } std::ostringstream os; bool words=s.chance(3,4); if(words) { os << std::boolalpha; } if(n>=1 && words) { s.nontrivial(); } std::vector<std::string> f; for(bool x : v) { f.push_back(words?(x?"true":"false"):(x?"1":"0")); } std::string want=wrap(f,"[",",","]"); using Helper::operator<<; TR("kind " << kind << " " << want);
    switch(kind) { case 0: os << v; break; case 1: { List<bool> l; for(bool x : v) { l.push_back(x); } os << l; break; } case 2: os << Array<bool>(v.begin(),v.end()); break; case 3: os << std::list<bool>(v.begin(),v.end()); break; case 4: os << LinkedList<bool>(std::list<bool>(v.begin(),v.end())); break; case 5: { std::vector<std::vector<bool>> w(2,v); os << w; want="["+want+","+want+"]"; break; } default: { SharedArray<bool> a(n); for(std::size_t i=0;i!=n;++i) { a[i]=v[i]; } os << a; } }
    REQUIRE_EQ(os.str(),want,"kind " << kind);
}
PROP(C14,types,2) {      // truth values, characters, reals, and texts as keys and as values, under settings that matter to each
    std::ostringstream os; flags(s,os); if(s.coin()) { os << std::boolalpha; } if(s.chance(1,4)) { os << std::uppercase; } if(s.chance(1,4)) { os << std::scientific; }
    switch(s.upto(9)) { case 0: typed(s,os,a_bool,a_bool); break; case 1: typed(s,os,an_int,a_bool); break; case 2: typed(s,os,a_bool,a_double); break; case 3: typed(s,os,a_char,an_int); break; case 4: typed(s,os,a_string,a_char); break; case 5: typed(s,os,a_double,a_short); break; case 6: typed(s,os,a_byte,a_byte); break; case 7: typed(s,os,a_short,a_string); break; case 8: typed(s,os,an_int,a_float); break; default: typed(s,os,a_char,a_text); break; }
}
PROP(C14,sequences,3) {
    auto v=values<int>(s,200); if(v.size()>=2) { s.nontrivial(); } std::ostringstream os; flags(s,os); std::vector<std::string> f; for(auto const& x : v) { f.push_back(fmt(os,x)); }
    static const char delims[]="[]{}()<>|;: ,/x\0\xff\n"; char o=delims[s.index(18)], c=delims[s.index(18)], p=delims[s.index(18)], d=delims[s.index(18)]; std::string O(1,o), C(1,c), P(1,p), D(1,d);
    unsigned defaults=static_cast<unsigned>(s.upto(4)); std::ostream* r=nullptr; std::string want; std::size_t kind=s.upto(5); bool once=s.coin();
    std::map<int,int> m; std::map<int,std::shared_ptr<int>> mp; std::vector<std::string> g; for(auto x : v) { m[x]=s.irange(-9,9); } for(auto& e : m) { mp[e.first]=std::make_shared<int>(e.second); g.push_back(fmt(os,e.first)+"\1"+fmt(os,e.second)); }
    std::vector<Coef> cf; for(auto& e : m) { cf.push_back({e.first,e.second*0.5}); }
    auto fix=[&](std::string t, std::string dd){ std::string q; for(char ch : t) { if(ch=='\1') { q+=dd; } else { q.push_back(ch); } } return q; };
    auto seqcall=[&](auto b, auto e) {
        switch(defaults) { case 0: r=&Helper::write_sequence(os,b,e); want=wrap(f,"[",",","]"); break; case 1: r=&Helper::write_sequence(os,b,e,o); want=wrap(f,O,",","]"); break; case 2: r=&Helper::write_sequence(os,b,e,o,c); want=wrap(f,O,",",C); break; default: r=&Helper::write_sequence(os,b,e,o,c,p); want=wrap(f,O,P,C); break; } };
    auto both=[&](auto& x, auto go) { if(once) { using I=decltype(x.begin()); go(Once<I>(x.begin(),x.end()),Once<I>()); } else { go(x.begin(),x.end()); } };
    switch(kind) {
      case 0: if(once) { seqcall(Once(v.begin(),v.end()),Once<std::vector<int>::iterator>()); } else { seqcall(v.begin(),v.end()); } break;
      case 1: { std::string t; for(int x : v) { t+=std::to_string(x)+" "; } std::istringstream is(t); seqcall(std::istream_iterator<int>(is),std::istream_iterator<int>()); break; }
      case 2: { std::vector<const int*> q; for(auto& x : v) { q.push_back(&x); } auto go=[&](auto b, auto e) { if(defaults<2) { r=&Helper::write_pointer_sequence(os,b,e); want=wrap(f,"[",",","]"); } else { r=&Helper::write_pointer_sequence(os,b,e,o,c,p); want=wrap(f,O,P,C); } }; both(q,go); break; }
      case 3: { both(m,[&](auto b, auto e) { if(defaults<2) { r=&Helper::write_map_sequence(os,b,e); want=fix(wrap(g,"{",",","}"),":"); } else if(defaults==2) { r=&Helper::write_map_sequence(os,b,e,o,c,p); want=fix(wrap(g,O,P,C),":"); } else { r=&Helper::write_map_sequence(os,b,e,o,c,p,d); want=fix(wrap(g,O,P,C),D); } }); break; }
      case 4: { both(mp,[&](auto b, auto e) { if(defaults<2) { r=&Helper::write_map_pointer_sequence(os,b,e); want=fix(wrap(g,"{",",","}"),":"); } else { r=&Helper::write_map_pointer_sequence(os,b,e,o,c,p,d); want=fix(wrap(g,O,P,C),D); } }); break; }
      default: { std::vector<std::string> h; for(auto& e : cf) { h.push_back(fmt(os,e.i)+"\1"+fmt(os,e.c)); } both(cf,[&](auto b, auto e) { if(defaults<2) { r=&Helper::write_coefficient_map_sequence(os,b,e); want=fix(wrap(h,"{",",","}"),":"); } else { r=&Helper::write_coefficient_map_sequence(os,b,e,o,c,p,d); want=fix(wrap(h,O,P,C),D); } }); break; }
    }
    TR("kind " << kind << ": " << want); REQUIRE(r==&os,"stream returned"); REQUIRE_EQ(os.str(),want,"kind " << kind << " defaults " << defaults);
}
#endif

#if defined(P_C15) || defined(P_C16)
namespace {
//! Delimiters that no number contains.
struct Delims { char o, c, p; };
Delims gen_delims(Src& s, bool distinct) { if(s.coin()) { return {'[',']',','}; } static const char d[]="[](){}<>|;:,/"; Delims r; r.o=d[s.index(13)]; r.c=d[s.index(13)]; r.p=d[s.index(13)]; while(r.p==r.c || r.p==r.o) { r.p = r.p==',' ? ';' : r.p==';' ? ':' : ','; } if(distinct && r.o==r.c) { r.o = r.c=='[' ? '(' : '['; if(r.p==r.o) { r.p='&'; } } return r; }
std::string blanks(Src& s) { static const char* const b[]={"",""," ","\n","\t  ","  ","\r\n","\r","\f"," \v"}; return b[s.index(s.chance(1,3)?10:6)]; }
}
#endif

#ifdef P_C15
RULE(C15,"a sequence of integers, doubles or sequences is written (by the library, or by the harness with random white space) with the default or random delimiters and read back into a vector, list, deque or List that held something else; the elements must be the same, nothing beyond the closing delimiter may be consumed and the stream must stay good, also for several sequences in a row; sequences of up to 70000 elements; non-trivial: two or more elements in all");
namespace {
template<class T> struct Num { static T make(Src& s) { return static_cast<T>(s.num(static_cast<i64>(std::numeric_limits<T>::min()),static_cast<i64>(std::numeric_limits<T>::max()))); } };
template<> struct Num<unsigned long> { static unsigned long make(Src& s) { return s.unum(); } };
template<> struct Num<double> { static double make(Src& s) { double d=s.real(); return d!=0.0 && d<1e-300 && d>-1e-300 ? 0.25 : d; } };     // subnormal numbers cannot be read by the standard library
template<> struct Num<bool> { static bool make(Src& s) { return s.coin(); } };
template<class T, class C> void round_trip(Src& s, std::size_t cap) {
    using Helper::operator<<; using std::operator>>;
    std::size_t nseq=1+s.upto(2); std::vector<std::vector<T>> want(nseq); Delims d=gen_delims(s,false); bool dflt=s.coin(); if(dflt) { d={'[',']',','}; } std::ostringstream os; os << std::setprecision(17); std::size_t total=0;
    for(auto& v : want) { std::size_t n=s.len(cap); for(std::size_t i=0;i!=n;++i) { v.push_back(Num<T>::make(s)); } total+=n;
        os << blanks(s);
        if(s.coin()) { if(dflt) { os << v; } else { Helper::write_sequence(os,v.begin(),v.end(),d.o,d.c,d.p); } }
        else { os << d.o; for(std::size_t i=0;i!=v.size();++i) { if(i) { os << blanks(s) << d.p; } os << blanks(s) << v[i]; } os << blanks(s) << d.c; } }
    std::string tail = s.coin() ? "" : " tail "; os << tail; TR("text " << os.str().substr(0,400)); if(total>=2) { s.nontrivial(); } if(nseq>1) { s.label("several sequences"); }
    std::istringstream is(os.str()); C c; for(std::size_t i=0;i!=s.upto(4);++i) { c.push_back(Num<T>::make(s)); }
    for(auto& v : want) {
        std::istream* r=nullptr; if constexpr(std::is_same_v<C,std::vector<T>>) { if(dflt && s.coin()) { r=&(is >> c); } } if(!r) { r = dflt ? &Helper::read_sequence(is,c) : &Helper::read_sequence(is,c,d.o,d.c,d.p); }
        REQUIRE(r==&is,"the stream returned"); REQUIRE(is.good(),"the stream after reading"); std::vector<T> got(c.begin(),c.end()); REQUIRE_EQ(got.size(),v.size(),"elements read"); for(std::size_t i=0;i!=v.size();++i) { REQUIRE(got[i]==v[i],"element " << i << " read is " << got[i] << ", written was " << v[i]); } }
    std::string rest; std::getline(is,rest); REQUIRE_EQ(rest,tail,"text after the sequence");
}
}
PROP(C15,int_vector,3) { round_trip<int,std::vector<int>>(s,300); }
PROP(C15,long_list,1) { round_trip<long,std::list<long>>(s,100); }
PROP(C15,ulong_deque,1) { round_trip<unsigned long,std::deque<unsigned long>>(s,100); }
PROP(C15,double_List,2) { round_trip<double,List<double>>(s,100); }
PROP(C15,short_linked,1) { round_trip<short,LinkedList<short>>(s,100); }
PROP(C15,bool_vector,1) { round_trip<bool,std::vector<bool>>(s,100); }
PROP(C15,many,1) {
    std::size_t n=s.bulk(s.chance(1,30)?70000:3000); u64 seed=s.upto(~u64(0)); Delims d=gen_delims(s,false); if(n>=2) { s.nontrivial(); } if(n>65535) { s.label("more than 65535 elements"); } TR(n << " elements between " << d.o << d.c << " separated by " << d.p);
    std::vector<long> v, w(s.upto(3)); for(std::size_t i=0;i!=n;++i) { u64 h=Src::mix(seed+i); v.push_back(static_cast<long>(h)>>(h&63)); } std::ostringstream os; Helper::write_sequence(os,v.begin(),v.end(),d.o,d.c,d.p); os << "~";
    std::istringstream is(os.str()); Helper::read_sequence(is,w,d.o,d.c,d.p); REQUIRE(is.good(),"the stream after reading"); REQUIRE_EQ(w.size(),n,"elements read"); for(std::size_t i=0;i!=n;++i) { if(w[i]!=v[i]) { FAIL("element " << i << " of " << n << " read is " << w[i] << ", written was " << v[i]); } } REQUIRE_EQ(is.get(),static_cast<int>('~'),"next character");
}
PROP(C15,nested,2) {
    using Helper::operator<<; using std::operator>>;
    std::vector<std::vector<int>> v(s.len(30)); std::size_t total=0; for(auto& r : v) { r.resize(s.upto(6)); for(auto& x : r) { x=Num<int>::make(s); ++total; } } std::ostringstream os; os << v; TR(os.str()); if(total>=2 && v.size()>=2) { s.nontrivial(); }
    std::istringstream is(os.str()); std::vector<std::vector<int>> w(s.upto(3),std::vector<int>{1,2}); is >> w; REQUIRE(is.good(),"the stream after reading"); REQUIRE(w==v,"rows read differ from rows written: " << os.str());
}
#endif

#ifdef P_C16
RULE(C16,"texts derived from a well-formed sequence by up to four insertions, deletions, replacements, duplications and truncations, or random over the characters of sequences, are read as sequences of int or double (also with stream exceptions enabled); a recursive recogniser decides whether the text is well formed: if so the elements are the recogniser's, otherwise std::ios_base::failure is thrown; non-trivial: the text is malformed and begins with the opening delimiter, or it is well formed with two or more elements");
namespace {
//! The reference: open (close | item (sep item)* close), white space allowed before every token; items are what the standard library reads.
template<class T> bool recognise(std::istream& is, Delims d, std::vector<T>& out) {
    auto tok=[&](char& c)->bool { while(true) { int k=is.rdbuf()->sgetc(); if(k==EOF) { return false; } c=static_cast<char>(k); if(std::isspace(static_cast<unsigned char>(c))) { is.rdbuf()->sbumpc(); continue; } return true; } };
    char c; if(!tok(c) || c!=d.o) { return false; } is.rdbuf()->sbumpc();
    if(!tok(c)) { return false; } if(c==d.c) { is.rdbuf()->sbumpc(); return true; }
    while(true) { T x; if(!(is >> x)) { return false; } out.push_back(x); if(is.eof() || !tok(c)) { return false; } is.rdbuf()->sbumpc(); if(c==d.c) { return true; } if(c!=d.p) { return false; } }
}
template<class T> void malformed(Src& s) {
    Delims d=gen_delims(s,true); std::string text; const char* digits = std::is_same_v<T,int> ? "0123456789-+ " : "0123456789-+ .e"; std::size_t nd=std::strlen(digits);
    auto chr=[&]()->char { std::size_t k=s.upto(5); if(k==0) { return d.o; } if(k==1) { return d.c; } if(k==2) { return d.p; } if(k==3) { static const char other[]="x[]\n\t,;\"#"; return other[s.index(9)]; } return digits[s.index(nd)]; };
    if(s.chance(1,6)) { std::size_t n=s.upto(16); if(s.coin()) { text.push_back(d.o); } for(std::size_t i=0;i!=n;++i) { text.push_back(chr()); } }
    else { std::ostringstream os; std::size_t n=s.len(12); os << blanks(s) << d.o; for(std::size_t i=0;i!=n;++i) { if(i) { os << blanks(s) << d.p; } os << blanks(s); if constexpr(std::is_same_v<T,int>) { os << s.num(-99999999999,99999999999); } else { os << s.irange(-99999,99999)*0.125; } if(s.chance(1,40)) { static const char* const after[]={".0",".","e0",".00","u","L","f","'000","x0","0x","%"}; os << after[s.index(11)]; } } os << blanks(s) << d.c; if(s.coin()) { os << " 7"; } text=os.str();
        std::size_t edits=s.upto(4); for(std::size_t e=0;e!=edits && !text.empty();++e) { std::size_t p=s.index(text.size()); switch(s.upto(4)) { case 0: text.erase(p,1); break; case 1: text.insert(p,1,chr()); break; case 2: text[p]=chr(); break; case 3: text.resize(p); break; default: text.insert(p,text.substr(p,1+s.upto(3))); break; } } }
    std::vector<T> want, got(s.upto(2)); std::istringstream ref(text); bool ok=recognise(ref,d,want); bool strict=s.chance(1,4); TR("delimiters " << d.o << d.c << d.p << (strict?" with exceptions":"") << ", " << (ok?"well formed":"malformed") << ", text: " << text);
    s.label(ok?"well formed":"malformed"); if(ok ? want.size()>=2 : text.find_first_not_of(" \n\t")!=std::string::npos && text[text.find_first_not_of(" \n\t")]==d.o) { s.nontrivial(); }
    std::istringstream is(text); if(strict) { is.exceptions(std::ios::failbit|std::ios::badbit); } bool failed=false;
    try { Helper::read_sequence(is,got,d.o,d.c,d.p); } catch(std::ios_base::failure const&) { failed=true; } catch(std::exception const& e) { FAIL("malformed input raised another exception: " << e.what() << "; text: " << text); }
    if(ok) { REQUIRE(!failed,"a well-formed sequence was rejected: " << text); REQUIRE(got==want,"elements read " << show(got) << ", expected " << show(want) << "; text: " << text); }
    else { REQUIRE(failed,"a malformed sequence was accepted as " << show(got) << "; text: " << text); }
}
}
PROP(C16,int,3) { malformed<int>(s); }
PROP(C16,double,1) { malformed<double>(s); }
PROP(C16,nested,1) {
    std::string text="[[1,2],[],[-3]]"; std::size_t edits=1+s.upto(3); static const char cs[]="[],1 -x"; for(std::size_t e=0;e!=edits && !text.empty();++e) { std::size_t p=s.index(text.size()); switch(s.upto(3)) { case 0: text.erase(p,1); break; case 1: text.insert(p,1,cs[s.index(7)]); break; case 2: text[p]=cs[s.index(7)]; break; default: text.resize(p); break; } }
    // reference on nested sequences
    std::vector<std::vector<int>> want; bool ok=false; { std::istringstream ref(text); char c; if(ref >> c && c=='[' && ref >> c) { if(c==']') { ok=true; } else { ref.putback(c); while(true) { std::vector<int> row; if(!recognise(ref,Delims{'[',']',','},row)) { break; } want.push_back(row); if(!(ref >> c)) { break; } if(c==']') { ok=true; break; } if(c!=',') { break; } } } } }
    TR(text << (ok?" well formed":" malformed")); s.nontrivial(); s.label(ok?"nested well formed":"nested malformed"); std::istringstream is(text); std::vector<std::vector<int>> got; bool failed=false; using std::operator>>;
    try { is >> got; } catch(std::ios_base::failure const&) { failed=true; }
    REQUIRE_EQ(failed,!ok,"text: " << text); if(ok) { REQUIRE(got==want,"text: " << text); }
}
#endif
