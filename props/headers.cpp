// Programs made of several files that include the library's headers in any order.
#include "../engine/pbt.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;

#ifdef P_C36
RULE(C36,"programs of one to four files, each of which includes up to ten of the library's headers in a generated order (some twice, with standard headers before or between them or not) and uses what each of them provides, are compiled with g++ and clang++, with and without debugging, linked and run; the uses must give the results known in advance and counts kept by a header must be common to the files; once, every header alone is compiled with both compilers; non-trivial: two or more files or headers");
namespace {
//! A header, what is put at namespace level to use it, the statements that use it (they add to r), and what they must add.
struct Use { const char* header; const char* decl; const char* body; long sum; const char* also=""; };
const Use uses[]={
 {"array.hpp","", "Helper::Array<int> a={3,4,5}; Helper::Array<int> b(a); b.resize(5,7); r+=static_cast<long>(b.size())*100+b[1]*10+b[4]; Helper::Array<std::size_t> c=Helper::complement(4,Helper::Array<std::size_t>{1,2}); r+=static_cast<long>(c.size())*1000+static_cast<long>(c[1])*10000; Helper::SharedArray<int> s(3,9); Helper::SharedArray<int> t(s); s[1]=4; r+=t[1]*100000;", 500+40+7+2000+30000+400000},
 {"binary_word.hpp","","Helper::BinaryWord w=Helper::make_binary_word(\"0110\"); Helper::BinaryWord v(\"011\"); r+=static_cast<long>(w.size())+(v.is_prefix(w)?10:0)+(v<w?100:0); w.append(true); r+=w.back()?1000:0;", 4+10+100+1000},
 {"container.hpp","","Helper::List<int> l; l.append(4); l.append(5); Helper::Set<int> s; s.insert(4); s.insert(9); Helper::Map<int,long> m; m.insert(4,40L); r+=static_cast<long>(l.size())+(s.contains(4)?10:0)+m.get(4)*100; Helper::List<int> k=Helper::make_list(s); r+=k[1]*10000; Helper::LinkedList<int> q; q.append(1); r+=static_cast<long>(q.size())*100000;", 2+10+4000+90000+100000},
 {"handle.hpp","struct B { virtual ~B() = default; virtual B* clone() const { return new B(*this); } virtual long f() const { return 1; } }; struct D : B { long v=2; D* clone() const override { return new D(*this); } long f() const override { return v; } };","Helper::Handle<B> h{D()}; Helper::Handle<B> g(h); Helper::Handle<D> d=Helper::dynamic_handle_cast<Helper::Handle<D>>(h); d.ref().v=30; Helper::Handle<B> const& cg=g; Helper::Handle<D> const& cd=d; r+=cg.ref().f()+cd.ref().f(); Helper::Handle<B> e=Helper::make_handle<B>(); Helper::Handle<B> const& ce=e; r+=ce.ref().f()*100;", 2+30+100},
 {"iterator.hpp","struct It : Helper::IteratorFacade<It,const long,Helper::RandomAccessTraversalTag> { const long* p; explicit It(const long* q) : p(q) { } bool equal(It const& o) const { return p==o.p; } std::ptrdiff_t distance_to(It const& o) const { return o.p-p; } void advance(std::ptrdiff_t n) { p+=n; } const long& dereference() const { return *p; } };","const long v[4]={1,20,300,4000}; It i(v); ++i; r+=*i; i+=2; r+=*i; r+=(i-It(v))*100000; r+=(It(v)<i)?1000000:0; Helper::PairIterator<const long*,const long*> q(v,v); q.advance(1); r+=*q._iter1;", 20+4000+300000+1000000+20},
 {"lazy.hpp","","int calls=0; Helper::Lazy<long> z([&]{ ++calls; return new long(6); }); r+=z()+z()+calls*100;", 12+100},
 {"lru_cache.hpp","","Helper::LRUCache<int,long> c(2); c.put(1,10); c.put(2,20); r+=c.get(1); c.put(3,30); r+=c.has_label(2)?1000:0; r+=c.has_label(1)?2000:0; r+=static_cast<long>(c.current_size())*10000;", 10+2000+20000},
 {"macros.hpp","","long x=3; HELPER_ASSERT(x==3); HELPER_PRECONDITION(x>2); HELPER_ASSERT_MSG(x==3,\"x=\"<<x); HELPER_ASSERT_EQUAL(x,3); HELPER_DEBUG_ASSERT(x==3); HELPER_DEBUG_ASSERT_MSG(x==3,\"x=\"<<x); HELPER_DEBUG_PRECONDITION(x==3); HELPER_PRECONDITION_MSG(x==3,\"x=\"<<x); HELPER_DEPRECATED(use,\"old\"); HELPER_NOTIFY(\"x=\"<<x); HELPER_WARN(\"x=\"<<x); HELPER_WARN_ONCE(\"x=\"<<x); HELPER_ERROR(\"x=\"<<x); try { if(x==3) { HELPER_NOT_IMPLEMENTED; } } catch(std::runtime_error const&) { r+=5000; } try { HELPER_THROW(std::logic_error,\"f\",\"x=\"<<x); } catch(std::logic_error const&) { r+=50000; } try { HELPER_ASSERT_MSG(x==4,\"x=\"<<x); } catch(std::runtime_error const&) { r+=50; } try { HELPER_FAIL_MSG(\"y\"); } catch(std::runtime_error const&) { r+=500; } r+=x;", 3+50+500+5000+50000},
 {"metaprogramming.hpp","","r+=static_cast<long>(Helper::IndexOf<char,int,long,char>::N)+(Helper::IsOneOf<int,char,int>::value?10:0)+(Helper::AreAllSame<int,int>::value?100:0)+(Helper::Convertible<int,double>?1000:0);", 2+10+100+1000},
 {"randomiser.hpp","","Helper::UniformIntRandomiser<int> u(3,5); Helper::UniformRealRandomiser<double> q(1.0,2.0); for(int i=0;i!=20;++i) { int x=u.get(); double y=q.get(); if(x>=3 && x<=5 && y>=1.0 && y<=2.0) { r+=1; } } Helper::RANDOM_GENERATOR.engine().seed(3u);", 20},
 {"range.hpp","","for(auto i : Helper::range(2,6)) { r+=static_cast<long>(i); } r+=static_cast<long>(Helper::range(7).size())*100; Helper::Range q(1,4); r+=static_cast<long>(q[2])*1000;", 14+700+3000},
 {"stack_trace.hpp","","Helper::stack_trace(); r+=8;", 8},
 {"stdlib.hpp","","std::vector<int> v(3,2); std::map<int,std::string> m; m[1]=\"ab\"; std::list<int> l(v.begin(),v.end()); std::ostringstream o; o << std::setw(4) << m[1].size(); r+=static_cast<long>(v.size()+l.size()*10+o.str().size()*100);", 3+30+400},
 {"stlio.hpp","","using namespace Helper; std::vector<int> v={1,2}; std::ostringstream o; Helper::write_sequence(o,v.begin(),v.end()); std::istringstream i(o.str()); std::vector<int> w; i >> w; std::tuple<int,int> t(3,4); o << t; o << std::make_pair(8,9); r+=static_cast<long>(o.str().size())+w[1]*100;", 5+5+5+200,"#include <sstream>\n"},
 {"stopwatch.hpp","","Helper::Stopwatch<Helper::Milliseconds> w; w.click(); r+=w.elapsed_seconds()<3600?5:0; w.restart(); r+=w.duration()==Helper::Milliseconds(0)?60:0;", 65},
 {"string.hpp","","Helper::String s(\"abc\"); r+=static_cast<long>(s.size())+static_cast<long>(Helper::to_string(1234).size())*10+static_cast<long>(Helper::class_name<Helper::String>().size())*100+Helper::to_str(s)[0]*1000; r+=Helper::c_str(s)[1];", 3+40+600+97000+98},
 {"test.hpp","","HELPER_TEST_ASSERT(r>=0); HELPER_TEST_EQUAL(1+1,2); HELPER_TEST_EQUAL(1+1,3); r+=7;", 7},
 {"tuple.hpp","","int a=1; char b='x'; long c=2; Helper::make_ltuple(a,b,c)=Helper::make_tuple(5,'y',70L); Helper::make_lpair(a,c)=Helper::make_pair(a+1,c+1); r+=a+c+(b=='y'?1000:0)+Helper::get_first(Helper::make_pair(100,2));", 6+71+1000+100},
 {"variant.hpp","enum class K { a, b }; struct A { static constexpr K code() { return K::a; } }; struct C { static constexpr K code() { return K::b; } };","Helper::CodedVariant<K,A,C> v{C()}; r+=v.code()==K::b?4:0; r+=Helper::holds_alternative<C>(v)?50:0; Helper::Variant<int,char> w(3); r+=static_cast<long>(w.index())+std::get<int>(w)*100;", 4+50+300},
 {"variant.inl.hpp","enum class KI { a, b }; struct AI { static constexpr KI code() { return KI::a; } }; struct CI { static constexpr KI code() { return KI::b; } }; struct V { long operator()(AI const&) const { return 1; } long operator()(CI const&) const { return 20; } };","Helper::CodedVariant<KI,AI,CI> v{CI()}; r+=v.accept(V())+Helper::CodedVariant<KI,AI,CI>(KI::a).accept(V());", 21},
 {"writable.hpp","struct Wr : Helper::WritableInterface { std::ostream& _write(std::ostream& os) const override { return os.write(\"wr\",2); } };","r+=Helper::IsWritable<Wr>::value?5:0; r+=Helper::IsWritable<int>::value?100:0; std::ostream* o=nullptr; Wr w; if(o!=nullptr) { Helper::operator<<(*o,w); }", 5},
};
const std::size_t NU=sizeof(uses)/sizeof(uses[0]);
const char* const standard[]={"iostream","vector","map","string","memory","cstdlib","algorithm","random","chrono","variant","tuple","valarray","functional","list"};

std::string repo() { const char* e=std::getenv("VERIF_REPO"); return e && *e ? e : "/repo"; }
struct Dir { std::string path; Dir() { char t[]="/tmp/headers.XXXXXX"; if(mkdtemp(t)) { path=t; } } ~Dir() { if(path.rfind("/tmp/headers.",0)==0) { std::string c="rm -rf '"+path+"'"; if(std::system(c.c_str())!=0) { } } } };
//! Runs a command; its output, and how it ended.
struct Ran { int status; std::string out; bool broken; };
Ran run(std::string const& cmd) {
    for(int attempt=0;;++attempt) { Ran r{-1,"",false}; std::FILE* p=popen(("timeout 200 "+cmd+" 2>&1").c_str(),"r"); if(!p) { r.broken=true; return r; } char buf[4096]; std::size_t n; while((n=std::fread(buf,1,sizeof buf,p))>0) { if(r.out.size()<200000) { r.out.append(buf,n); } } int st=pclose(p); r.status=WIFEXITED(st)?WEXITSTATUS(st):128;
        r.broken=r.status!=0 && (r.status>=124 || r.out.find("Killed")!=std::string::npos || r.out.find("internal compiler error")!=std::string::npos || r.out.find("No space left")!=std::string::npos || r.out.find("cannot allocate")!=std::string::npos); if(!r.broken || attempt==1) { return r; } }
}
std::string first_lines(std::string const& t, std::size_t n) { std::string o; std::size_t k=0; for(char c : t) { o.push_back(c); if(c=='\n' && ++k==n) { break; } } return o; }
std::string errors(std::string const& t) { std::string o; std::size_t a=0, k=0; while(a<t.size() && k<4) { std::size_t b=t.find('\n',a); if(b==std::string::npos) { b=t.size(); } std::string l=t.substr(a,b-a); if(l.find("error")!=std::string::npos || l.find("multiple definition")!=std::string::npos || l.find("undefined")!=std::string::npos) { o+=l+" | "; ++k; } a=b+1; } return o.empty()?first_lines(t,6):o; }
struct File { std::vector<std::size_t> headers; std::string text, flags; const char* compiler; };
}
PROP(C36,programs,1) {
    std::size_t nf=1+s.upto(3); std::vector<File> files(nf); bool debug=s.coin(); bool mixed=s.coin(); const char* all=s.coin()?"clang++":"g++"; std::size_t headers=0; long failures=0; bool tests=false; std::string summary;
    for(std::size_t f=0;f!=nf;++f) {
        File& x=files[f]; x.compiler=mixed && s.coin() ? (all[0]=='g'?"clang++":"g++") : all; std::size_t n=1+s.upto(9); std::string id=std::to_string(f), includes, decls, body;
        for(std::size_t k=0;k!=n;++k) { std::size_t h=s.index(NU); if(s.chance(1,6)) { includes+="#include <"+std::string(s.pick(standard))+">\n"; } includes+="#include \""+std::string(uses[h].header)+"\"\n"+uses[h].also; if(std::find(x.headers.begin(),x.headers.end(),h)==x.headers.end()) { x.headers.push_back(h); } }
        std::vector<std::size_t> order(x.headers); if(s.coin()) { std::reverse(order.begin(),order.end()); } bool has_test=false;
        for(std::size_t h : order) { std::string hn=std::to_string(h); decls+="namespace file"+id+"_"+hn+" {\n"+uses[h].decl+"\nstatic long use() { long r=0; { "+uses[h].body+" } return r; }\n}\n"; body+="    check("+hn+",file"+id+"_"+hn+"::use());\n"; if(std::string(uses[h].header)=="test.hpp") { has_test=true; ++failures; } }
        x.text=includes+"void check(int,long);\n"+decls+"void part"+id+"() {\n"+body+"}\n"; if(has_test) { tests=true; x.text+="int failures"+id+"() { return HELPER_TEST_FAILURES; }\n"; }
        headers+=x.headers.size(); summary+=(f?"; ":"")+std::string(x.compiler)+":"; for(std::size_t h : x.headers) { summary+=" "+std::string(uses[h].header); } TR("file " << f << " with " << x.compiler << (debug?"":" -DNDEBUG") << "\n" << x.text);
    }
    if(nf>1 || headers>1) { s.nontrivial(); } Dir d; if(d.path.empty()) { s.label("no scratch directory"); return; } std::string inc="-I '"+repo()+"/include'", flags=std::string(" -std=gnu++20 -O0 -w ")+(debug?"":"-DNDEBUG ")+inc+" ", objs;
    auto put=[&](std::string const& name, std::string const& text){ std::ofstream(d.path+"/"+name) << text; };
    std::string main="#include <cstdio>\nvoid check(int h, long r) { std::printf(\"USE %d %ld\\n\",h,r); }\n"; for(std::size_t f=0;f!=nf;++f) { main+="void part"+std::to_string(f)+"();\n"; if(files[f].text.find("int failures")!=std::string::npos) { main+="int failures"+std::to_string(f)+"();\n"; } } main+="int main() {\n"; for(std::size_t f=0;f!=nf;++f) { main+="    part"+std::to_string(f)+"();\n"; } for(std::size_t f=0;f!=nf;++f) { if(files[f].text.find("int failures")!=std::string::npos) { main+="    std::printf(\"FAILURES %d\\n\",failures"+std::to_string(f)+"());\n"; } } main+="}\n"; put("main.cpp",main);
    for(std::size_t f=0;f!=nf;++f) { std::string n="file"+std::to_string(f); put(n+".cpp",files[f].text); Ran r=run(files[f].compiler+flags+"-c '"+d.path+"/"+n+".cpp' -o '"+d.path+"/"+n+".o'"); if(r.broken) { s.label("compiler failed"); return; } if(r.status!=0) { FAIL("a file that uses the headers in this order does not compile (" << summary << "): " << errors(r.out)); } objs+="'"+d.path+"/"+n+".o' "; }
    Ran l=run(std::string(all)+flags+objs+"'"+d.path+"/main.cpp' '"+repo()+"/src/stack_trace.cpp' -o '"+d.path+"/prog'"); if(l.broken) { s.label("compiler failed"); return; } if(l.status!=0) { FAIL("the files cannot be made into a program (" << summary << "): " << errors(l.out)); }
    Ran p=run("'"+d.path+"/prog' </dev/null"); if(p.status!=0) { FAIL("the program ends with status " << p.status << " (" << summary << "): " << first_lines(p.out,6)); }
    std::map<std::size_t,long> seen; std::size_t a=0, n=0, counts=0; while(a<p.out.size()) { std::size_t b=p.out.find('\n',a); if(b==std::string::npos) { b=p.out.size(); } std::string line=p.out.substr(a,b-a); int h; long v; if(std::sscanf(line.c_str(),"USE %d %ld",&h,&v)==2) { ++n; if(h<0 || static_cast<std::size_t>(h)>=NU || v!=uses[h].sum) { FAIL("using " << (h<0 || static_cast<std::size_t>(h)>=NU?"?":uses[h].header) << " gives " << v << ", expected " << (static_cast<std::size_t>(h)<NU?uses[h].sum:0) << " (" << summary << ")"); } } else if(std::sscanf(line.c_str(),"FAILURES %ld",&v)==1) { ++counts; if(v!=failures) { FAIL("a file sees " << v << " failed tests of " << failures << " (" << summary << ")"); } } a=b+1; }
    REQUIRE_EQ(n,headers,"uses that were made (" << summary << ")"); REQUIRE(!tests || counts>0,"failures were not reported");
}
PROP_ONCE(C36,alone) {
    s.nontrivial(); Dir d; if(d.path.empty()) { s.label("no scratch directory"); return; } TR("every header alone"); std::string list;
    for(const char* c : {"g++","clang++"}) { for(auto const& u : uses) { std::string n=d.path+"/"+c+"."+u.header+".cpp"; std::ofstream(n) << "#include \"" << u.header << "\"\nint main() { }\n"; list+=std::string(c)+" -std=gnu++20 -fsyntax-only -I '"+repo()+"/include' '"+n+"' >'"+n+".log' 2>&1 || echo \"$?\" >>'"+n+".log'; touch '"+n+".done'\n"; } }
    std::ofstream(d.path+"/all") << list; Ran r=run("sh -c \"tr '\\n' '\\0' <'"+d.path+"/all' | xargs -0 -P 8 -I CMD sh -c CMD\"");
    for(const char* c : {"g++","clang++"}) { for(auto const& u : uses) { std::string n=d.path+"/"+c+"."+u.header+".cpp"; std::ifstream done(n+".done"), is(n+".log"); if(!done) { s.label("compiler failed"); continue; } std::string t((std::istreambuf_iterator<char>(is)),std::istreambuf_iterator<char>()); if(t.find(" error: ")!=std::string::npos) { Ran again=run(std::string(c)+" -std=gnu++20 -fsyntax-only -I '"+repo()+"/include' '"+n+"'"); if(!again.broken && again.status!=0) { FAIL("a file that includes only " << u.header << " does not compile with " << c << ": " << errors(again.out)); } } } }
}
#endif
