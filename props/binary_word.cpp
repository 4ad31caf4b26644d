// Binary words: order and containment, editing, text.
#include "../engine/pbt.hpp"
#include <iostream>
#include "binary_word.hpp"
#include <iomanip>
#include <sstream>

using namespace pbt;
using Helper::BinaryWord;

namespace {
[[gnu::noinline]] std::string gen_bits(Src& s, std::size_t cap) { std::size_t n=s.len(cap); std::string t; unsigned kind=static_cast<unsigned>(s.upto(3)); for(std::size_t i=0;i!=n;++i) { bool b = kind==0 ? s.coin() : kind==1 ? s.chance(1,10) : kind==2 ? s.chance(9,10) : (i%2==0)!=s.chance(1,8); t.push_back(b?'1':'0'); } return t; }
[[gnu::noinline]] BinaryWord word(std::string const& t) { BinaryWord w; for(char c : t) { w.push_back(c=='1'); } return w; }
[[gnu::noinline]] std::string bits(std::vector<bool> const& w) { std::string t; for(std::size_t i=0;i!=w.size();++i) { t.push_back(w[i]?'1':'0'); } return t; }
//! A word related to another one.
[[gnu::noinline]] std::string related(Src& s, std::string const& a, std::size_t cap) {
    std::string b=a; switch(s.upto(7)) { case 0: b=gen_bits(s,cap); break; case 1: break; case 2: b.resize(s.upto(a.size())); break; case 3: b+=gen_bits(s,20); break;
        case 4: if(!b.empty()) { std::size_t p=s.index(b.size()); b[p]=static_cast<char>('0'+'1'-b[p]); } break; case 5: { std::size_t i=s.upto(a.size()), n=s.upto(a.size()-i); b=a.substr(i,n); break; }
        case 6: { b=gen_bits(s,12)+a+gen_bits(s,12); break; } default: { std::size_t i=s.upto(a.size()), n=s.upto(a.size()-i); b=a.substr(i,n); if(!b.empty()) { std::size_t p=s.index(b.size()); b[p]=static_cast<char>('0'+'1'-b[p]); } break; } }
    return b; }
}

namespace {
//! Bits that follow from a number; random, mostly alike, or periodic.
std::string hashed_bits(u64 seed, std::size_t n, unsigned form) { std::string t(n,'0'); for(std::size_t i=0;i!=n;++i) { u64 h=Src::mix(seed+i); if(form==0 ? (h&1)!=0 : form==1 ? h%50==0 : form==2 ? (h%50)!=0 : i%3==0) { t[i]='1'; } } return t; }
std::size_t many(Src& s, std::size_t usual, std::size_t most) { std::size_t n=s.bulk(s.chance(1,40)?most:usual); if(n>65536) { s.label("more than 65536 bits"); } else if(n>256) { s.label("more than 256 bits"); } return n; }
std::string brief(std::string const& t) { return t.size()<=80 ? t : t.substr(0,60)+"... ("+std::to_string(t.size())+" bits)"; }
[[gnu::noinline]] void same_bits(std::vector<bool> const& w, std::string const& want, std::string const& what) { REQUIRE_EQ(w.size(),want.size(),"length; " << what); for(std::size_t i=0;i!=want.size();++i) { if(w[i]!=(want[i]=='1')) { FAIL("bit " << i << " of " << want.size() << " is " << w[i] << "; " << what); } } }
}

#ifdef P_C17
RULE(C17,"two or three binary words of 0 to 300 bits, the others derived from the first (equal, prefix, extension, infix, one bit changed, padded, unrelated); the order, equality, prefix and subword relations in both directions are compared with the same relations on strings, and a sorted list with the sorted strings; words of up to 70000 bits; words that differ from part of another at one place; non-trivial: the words differ and the longer has at least two bits")
PROP(C17,pairs,3) {
    std::string a=gen_bits(s,300), b=related(s,a,300); if(s.coin()) { std::swap(a,b); } BinaryWord u=word(a), v=word(b); TR(a << " " << b); if(a!=b && std::max(a.size(),b.size())>=2) { s.nontrivial(); }
    REQUIRE_EQ(u<v,a<b,a << " < " << b); REQUIRE_EQ(v<u,b<a,b << " < " << a); REQUIRE_EQ(u<u,false,a << " < itself"); REQUIRE_EQ(u==v,a==b,a << " == " << b); REQUIRE_EQ(u!=v,a!=b,a << " != " << b);
    bool p=b.compare(0,a.size(),a)==0 && a.size()<=b.size(), q=a.compare(0,b.size(),b)==0 && b.size()<=a.size(); if(p!=q) { s.label("proper prefix"); }
    REQUIRE_EQ(u.is_prefix(v),p,a << " is a prefix of " << b); REQUIRE_EQ(v.is_prefix(u),q,b << " is a prefix of " << a); REQUIRE_EQ(u.is_prefix(u),true,"prefix of itself");
    bool f=b.find(a)!=std::string::npos, g=a.find(b)!=std::string::npos; if(f && !p) { s.label("subword, not prefix"); }
    REQUIRE_EQ(u.is_subword(v),f,a << " is a subword of " << b); REQUIRE_EQ(v.is_subword(u),g,b << " is a subword of " << a); REQUIRE_EQ(u.is_subword(u),true,"subword of itself");
    REQUIRE_EQ(bits(u),a,"word afterwards"); REQUIRE_EQ(bits(v),b,"word afterwards");
}
PROP(C17,many,1) {
    std::size_t n=many(s,2500,70000); std::string a=hashed_bits(s.upto(~u64(0)),n,n>3000?static_cast<unsigned>(s.upto(2)):static_cast<unsigned>(s.upto(3))), b=a; std::size_t form=s.upto(5), at=0; if(n>0) { at = s.coin() ? s.index(n) : n-1-s.upto(n<4?n-1:3); }
    switch(form) { case 0: if(n>0) { b[at]=static_cast<char>('0'+'1'-b[at]); } break; case 1: b.resize(at); break; case 2: b+=s.coin()?"0":"1"; break; case 3: b.erase(0,at); break; case 4: b="0"+a+"1"; break; default: if(n>0) { b=a.substr(at/2,at-at/2); } }
    if(s.coin()) { std::swap(a,b); } BinaryWord u=word(a), v=word(b); std::string what=brief(a)+" and "+brief(b)+" (form "+std::to_string(form)+" at "+std::to_string(at)+")"; TR(what); if(a!=b && std::max(a.size(),b.size())>=2) { s.nontrivial(); }
    REQUIRE_EQ(u<v,a<b,"order of " << what); REQUIRE_EQ(v<u,b<a,"order of " << what); REQUIRE_EQ(u==v,a==b,"equality of " << what); REQUIRE_EQ(u.is_prefix(v),b.compare(0,a.size(),a)==0 && a.size()<=b.size(),"prefix; " << what); REQUIRE_EQ(v.is_prefix(u),a.compare(0,b.size(),b)==0 && b.size()<=a.size(),"prefix; " << what);
    REQUIRE_EQ(u.is_subword(v),b.find(a)!=std::string::npos,"subword; " << what); REQUIRE_EQ(v.is_subword(u),a.find(b)!=std::string::npos,"subword; " << what);
}
PROP(C17,near_misses,1) {    // long parts that agree but for a few bits, which may be as many ones as in the true word
    std::size_t n=1+s.bulk(400), lead=s.upto(200), tail=s.upto(20); std::string a=hashed_bits(s.upto(~u64(0)),n,static_cast<unsigned>(s.upto(3))), part=a; std::size_t kind=s.upto(3), i=s.coin()?s.index(n):n-1-s.upto(std::min<std::size_t>(n-1,12)), j=s.coin()?s.index(n):n-1-s.upto(std::min<std::size_t>(n-1,12));
    switch(kind) { case 0: std::swap(part[i],part[j]); break; case 1: part[i]=part[i]=='0'?'1':'0'; break; case 2: std::reverse(part.begin()+static_cast<std::ptrdiff_t>(std::min(i,j)),part.end()); break; default: std::rotate(part.begin()+static_cast<std::ptrdiff_t>(std::min(i,j)),part.begin()+static_cast<std::ptrdiff_t>(std::max(i,j)),part.end()); }
    std::string before=hashed_bits(n+lead,lead,static_cast<unsigned>(s.upto(3))), b=before+part+(s.coin()?hashed_bits(lead,tail,0):a.substr(0,std::min(n,tail))); BinaryWord u=word(a), v=word(b), w=word(part); std::string what=brief(a)+" with kind "+std::to_string(kind)+" at "+std::to_string(i)+" and "+std::to_string(j)+" in "+brief(b); TR(what); if(a!=part) { s.nontrivial(); }
    REQUIRE_EQ(u.is_subword(v),b.find(a)!=std::string::npos,"subword; " << what); REQUIRE_EQ(u.is_subword(w),a==part,"subword of one as long; " << what); REQUIRE_EQ(u.is_prefix(w),a==part,"prefix of one as long; " << what); REQUIRE_EQ(u.is_prefix(v),b.compare(0,n,a)==0,"prefix; " << what); REQUIRE_EQ(u<w,a<part,"order; " << what); REQUIRE_EQ(w<u,part<a,"order; " << what); REQUIRE_EQ(u==w,a==part,"equality; " << what);
    REQUIRE_EQ(w.is_subword(v),true,"the part itself; " << what); REQUIRE_EQ(v<w,b<part,"order; " << what);
}
PROP(C17,sorting,1) {
    std::vector<std::string> t; std::string a=gen_bits(s,40); std::size_t n=2+s.upto(8); t.push_back(a); for(std::size_t i=1;i<n;++i) { t.push_back(related(s,s.pick(t),40)); } std::vector<BinaryWord> w; for(auto& x : t) { w.push_back(word(x)); } TR(show(t)); s.nontrivial();
    std::sort(w.begin(),w.end()); std::sort(t.begin(),t.end()); for(std::size_t i=0;i!=n;++i) { REQUIRE_EQ(bits(w[i]),t[i],"position " << i << " of the sorted words"); }
}
#endif

#ifdef P_C18
RULE(C18,"2..20 random operations on three binary words of up to 400 bits (append a bit, a bit of the word, a word, itself; erase a prefix of any length, also longer than the word, zero or negative; change the last bit; copy) against strings, comparing contents, length and number of bytes after every operation; words of up to 70000 bits; non-trivial: a word of two bits or more was appended or part of a word erased")
PROP(C18,many,1) {
    std::size_t n=many(s,2500,70000), k=s.coin()?s.upto(10):many(s,2500,70000); u64 seed=s.upto(~u64(0)); std::string a=hashed_bits(seed,n,0), b=hashed_bits(seed+1,k,0), what; BinaryWord u=word(a), v=word(b); std::size_t kind=s.upto(4); if(n>=2 && k>=2) { s.nontrivial(); }
    what=brief(a)+" and "+brief(b)+", kind "+std::to_string(kind); TR(what);
    switch(kind) { case 0: u.append(v); a+=b; break; case 1: u.append(u); a+=a; break; case 2: for(char c : b) { u.append(c=='1'); } a+=b; break; case 3: if(n>0) { bool x=s.coin(); u.set_back(x); a.back()=x?'1':'0'; } break;
        default: { std::size_t e=n>3000?s.upto(30):s.upto(n+2); if(s.chance(1,150)) { n=2500+s.upto(3500); a=hashed_bits(seed,n,0); u=word(a); e=n/3+s.upto(n-n/3); s.label("a long prefix of a longer word"); } what+=", prefix of "+std::to_string(e); u.erase_prefix(static_cast<int>(e)); a.erase(0,std::min(e,a.size())); } }
    same_bits(u,a,what); same_bits(v,b,what); REQUIRE_EQ(u.bytes(),(a.size()+7)/8,"bytes; " << what);
}
#ifdef NDEBUG
PROP_ONCE(C18,long_prefix) { std::string a=hashed_bits(1,66000,0); s.nontrivial(); BinaryWord u=word(a); int k=65540+static_cast<int>(s.upto(9)); TR("prefix of " << k << " of 66000 bits"); u.erase_prefix(k); a.erase(0,static_cast<std::size_t>(k)); same_bits(u,a,"a long prefix erased"); }
#endif
PROP(C18,history,1) {
    BinaryWord w[3]; std::string m[3]; std::size_t nops=2+s.upto(18);
    for(std::size_t op=0;op!=nops;++op) {
        std::size_t i=s.index(3), j=s.index(3); std::string where="op "+std::to_string(op)+" w"+std::to_string(i);
        switch(s.upto(7)) {
          case 0: { bool b=s.coin(); where+=".append("+std::to_string(b)+")"; TR(where); w[i].append(b); m[i].push_back(b?'1':'0'); break; }
          case 1: { std::string t=gen_bits(s,120); where+=".append("+t+")"; TR(where); w[i].append(word(t)); m[i]+=t; if(t.size()>=2) { s.nontrivial(); } break; }
          case 2: { if(m[i].size()+m[j].size()>3000) { break; } where+=".append(w"+std::to_string(j)+")"; TR(where); w[i].append(w[j]); if(m[j].size()>=2) { s.nontrivial(); } std::string t=m[j]; m[i]+=t; break; }
          case 3: case 4: { long n=static_cast<long>(m[i].size()); int k=static_cast<int>(s.chance(1,6) ? s.num(std::numeric_limits<int>::min(),std::numeric_limits<int>::max()) : s.range(-1,n+2)); where+=".erase_prefix("+std::to_string(k)+")"; TR(where); if(k>0 && k<n) { s.nontrivial(); s.label("part erased"); } w[i].erase_prefix(k); m[i].erase(0,static_cast<std::size_t>(std::clamp<long>(k,0,n))); break; }
          case 5: { if(m[i].empty()) { break; } bool b=s.coin(); where+=".set_back("+std::to_string(b)+")"; TR(where); w[i].set_back(b); m[i].back()=b?'1':'0'; break; }
          case 6: { where+=" = w"+std::to_string(j); TR(where); w[i]=w[j]; m[i]=m[j]; break; }
          default: { if(m[i].empty()) { break; } std::size_t p=s.index(m[i].size()); bool b=w[i][p]; where+=".append(its bit "+std::to_string(p)+")"; TR(where); w[i].append(b); m[i].push_back(m[i][p]); break; }
        }
        for(std::size_t k=0;k!=3;++k) { REQUIRE_EQ(bits(w[k]),m[k],where << " (w" << k << ")"); REQUIRE_EQ(w[k].size(),m[k].size(),where); REQUIRE_EQ(w[k].empty(),m[k].empty(),where); REQUIRE_EQ(w[k].bytes(),(m[k].size()+7)/8,"bytes; " << where); }
    }
}
#endif

#ifdef P_C19
RULE(C19,"a word of 0 to 300 bits is written with random stream settings and read back from a string or a stream, in the form 0101 or [0,1,0,1], alone or followed by other text, with white space before it, several in a row, into a word that held something; the bits must be the same, the text that follows must remain, the stream must not fail, and writing must leave the stream's settings alone; malformed bracketed text is rejected; words of up to 70000 bits; streams with exceptions enabled; non-trivial: two or more bits")
namespace {
void settings(Src& s, std::ios& os) { switch(s.upto(6)) { case 1: os.setf(std::ios::boolalpha); break; case 2: os.setf(std::ios::hex,std::ios::basefield); os.setf(std::ios::showbase); break; case 3: os.setf(std::ios::showpos); break; case 4: os.setf(std::ios::oct,std::ios::basefield); os.setf(std::ios::showbase|std::ios::showpos|std::ios::uppercase|std::ios::boolalpha); break; case 5: os.precision(3); os.fill('*'); break; default: break; } }
std::string bracket(Src& s, std::string const& t) { std::string r="["; for(std::size_t i=0;i!=t.size();++i) { if(i) { r+=","; } if(s.chance(1,10)) { r+=" "; } r.push_back(t[i]); } return r+"]"; }
}
PROP(C19,write,2) {
    std::string t=gen_bits(s,300); std::ostringstream os; settings(s,os); os << "<"; auto f=os.flags(); auto p=os.precision(); auto fill=os.fill(); TR(t << " flags " << static_cast<long>(f)); if(t.size()>=2) { s.nontrivial(); }
    std::ostream& r=(os << word(t)); REQUIRE(&r==&os,"stream returned"); REQUIRE_EQ(os.str(),"<"+(t.empty()?std::string("e"):t),"written with flags " << static_cast<long>(f)); REQUIRE(os.flags()==f && os.precision()==p && os.fill()==fill,"the settings of the stream changed from " << static_cast<long>(f) << " to " << static_cast<long>(os.flags()));
    std::string back=os.str().substr(1); REQUIRE_EQ(bits(BinaryWord(back)),t,"constructed from what was written: " << back); REQUIRE_EQ(bits(Helper::make_binary_word(back)),t,"made from what was written: " << back);
}
PROP(C19,many,1) {
    std::size_t n=many(s,3000,70000); std::string t=hashed_bits(s.upto(~u64(0)),n,static_cast<unsigned>(s.upto(3))), text; bool br=n==0 || s.coin(); TR(brief(t) << (br?" in brackets":"")); if(n>=2) { s.nontrivial(); }
    if(br) { text="["; for(std::size_t i=0;i!=n;++i) { if(i) { text+=','; } text+=t[i]; } text+="]"; } else { std::ostringstream os; os << word(t); text=os.str(); same_bits(BinaryWord(text),t,"constructed from what was written"); if(text!=t) { FAIL("written differently, " << text.size() << " characters"); } }
    std::istringstream is(text+" 1x"); BinaryWord w=word(hashed_bits(3,s.coin()?s.upto(20):s.upto(2*n+2),0)), x; is >> w; same_bits(w,t,"read"); REQUIRE(!is.fail(),"reading failed"); is >> x; same_bits(x,"1","the word that follows"); REQUIRE_EQ(is.get(),static_cast<int>('x'),"text that follows"); same_bits(Helper::make_binary_word(text),t,"made from text");
}
PROP(C19,read,3) {
    std::size_t n=1+s.upto(3); std::vector<std::string> want; std::string text; bool brackets_last=false; if(s.coin()) { text+=" "; }
    for(std::size_t i=0;i!=n;++i) { std::string t=gen_bits(s,i==0?300:30); bool br=s.coin(); if(!br && t.empty()) { t="1"; } if(i) { static const char* const seps[]={" ","\n","  \t"}; text+=s.pick(seps); } text+=br?bracket(s,t):t; want.push_back(t); brackets_last=br; }
    static const char* const tails[]={"",""," ","x1","]0",",1","2"," tail","e","e1","e0e"," e","[","O","l0","b1",".0","-1","+1","(1","\xb1","\xb0" "1","\x91 0","/",":","P","Q1","\x10","\x11" "0"}; std::string tail=s.chance(1,3)?"":s.pick(tails); text+=tail; TR(text); if(want[0].size()>=2) { s.nontrivial(); } if(tail.empty() && !brackets_last) { s.label("ended by the end of the text"); }
    std::istringstream is(text); bool strict=s.coin(); if(strict) { is.exceptions(std::ios::failbit|std::ios::badbit); s.label("stream with exceptions enabled"); } BinaryWord w=word(gen_bits(s,s.coin()?10:300));
    for(std::size_t i=0;i!=n;++i) { std::istream& r=(is >> w); REQUIRE(&r==&is,"stream returned"); REQUIRE(!is.fail(),"reading word " << i << " of '" << text << "' failed"); REQUIRE_EQ(bits(w),want[i],"word " << i << " of '" << text << "'"); }
    is.exceptions(std::ios::goodbit); if(!is.eof()) { std::string rest; std::getline(is,rest,'\0'); REQUIRE_EQ(rest,tail,"text after the words of '" << text << "'"); } else { REQUIRE_EQ(tail,std::string(),"text after the words of '" << text << "'"); }
    REQUIRE_EQ(bits(BinaryWord(want[0].empty()?"[]":want[0])),want[0],"constructed from text"); REQUIRE_EQ(bits(Helper::make_binary_word(bracket(s,want[0]))),want[0],"made from bracketed text");
}
PROP(C19,malformed,1) {
    std::string t=gen_bits(s,12), text=bracket(s,t); std::size_t p=s.index(text.size()); static const char bad[]="2x,[]"; switch(s.upto(2)) { case 0: text.erase(p); break; case 1: text[p]=bad[s.index(5)]; break; default: text.insert(p,1,bad[s.index(5)]); break; } if(text.empty() || text[0]!='[') { text="["+text; }
    std::vector<bool> want; std::istringstream ref(text); bool ok=false; { char c; ref >> c; bool b; if(ref >> c) { if(c==']') { ok=true; } else { ref.putback(c); while(ref >> b) { want.push_back(b); if(!(ref >> c)) { break; } if(c==']') { ok=true; break; } if(c!=',') { break; } } } } }
    TR(text << (ok?" well formed":" malformed")); s.nontrivial(); bool failed=false; std::istringstream is(text); BinaryWord w; try { is >> w; } catch(std::ios_base::failure const&) { failed=true; }
    REQUIRE_EQ(failed,!ok,"text " << text); if(ok) { REQUIRE_EQ(bits(w),bits(want),"text " << text); }
}
PROP(C19,nothing_to_read,1) {     // a stream that is exhausted or holds only blanks: nothing is read, and the failure is reported
    std::string text; std::size_t n=s.upto(4); for(std::size_t i=0;i!=n;++i) { text+=" "; } std::istringstream is(text); BinaryWord w=word(gen_bits(s,20)); TR("blanks " << n); s.nontrivial(); is >> w; REQUIRE(w.empty(),"a word was read from nothing"); REQUIRE(is.fail(),"reading from nothing is reported as a success");
}
#endif
