// Driver of the property-testing engine (linked with each harness; does not depend on the code under test).

#include "pbt.hpp"

#include <atomic>
#include <algorithm>
#include <chrono>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#ifndef PBT_VARIANT
#define PBT_VARIANT "plain"
#endif

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:allocator_may_return_null=1:exitcode=77:max_allocation_size_mb=2048:detect_stack_use_after_return=1:malloc_context_size=12"; }
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:exitcode=77"; }

// ---------------------------------------------------------------- allocation accounting
namespace pbt {
long live_blocks=0; long live_bytes=0; long alloc_countdown=0; bool alloc_fault_fired=false;
static const long LIVE_LIMIT = 1500l<<20;
[[maybe_unused]] static void* allocate(std::size_t n) {
    if(alloc_countdown>0 && --alloc_countdown==0) { alloc_fault_fired=true; return nullptr; }
    if(n>static_cast<std::size_t>(LIVE_LIMIT) || live_bytes+static_cast<long>(n)>LIVE_LIMIT) { return nullptr; }
    void* p=std::malloc(n?n:1);
    if(p) { ++live_blocks; live_bytes+=static_cast<long>(malloc_usable_size(p)); }
    return p;
}
[[maybe_unused]] static void release(void* p) noexcept { if(p) { --live_blocks; live_bytes-=static_cast<long>(malloc_usable_size(p)); std::free(p); } }
}
#ifndef PBT_NO_ALLOC
// Sanitizers do not see through replaced operators, so the pairing new/delete[] is not checked; reads, writes and frees are.
void* operator new(std::size_t n) { void* p=pbt::allocate(n); if(!p) { throw std::bad_alloc(); } return p; }
void* operator new[](std::size_t n) { void* p=pbt::allocate(n); if(!p) { throw std::bad_alloc(); } return p; }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return pbt::allocate(n); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return pbt::allocate(n); }
void operator delete(void* p) noexcept { pbt::release(p); }
void operator delete[](void* p) noexcept { pbt::release(p); }
void operator delete(void* p, std::size_t) noexcept { pbt::release(p); }
void operator delete[](void* p, std::size_t) noexcept { pbt::release(p); }
#endif

namespace pbt {

std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
std::vector<Rule>& rules() { static std::vector<Rule> v; return v; }
std::vector<Known>& knowns() { static std::vector<Known> v; return v; }

static const int CPU_LIMIT_S = 20;      // CPU time (not wall-clock time) of a single case; cases normally take milliseconds
static const int CPU_LIMIT_ONCE_S = 90; // of a case that is run once
static Slot* cur_slot = nullptr;
static void on_cpu(int) { if(cur_slot) { cur_slot->state=3; } _exit(78); }
static void arm(int s=CPU_LIMIT_S) { struct itimerval t{}; t.it_value.tv_sec=s; setitimer(ITIMER_PROF,&t,nullptr); }

static u64 str_hash(const char* p) { u64 h=1469598103934665603ull; for(;*p;++p) { h=(h^static_cast<unsigned char>(*p))*1099511628211ull; } return h; }

struct Outcome { bool failed=false; bool overrun=false; std::string msg; };

//! Run one case in this process.
static Outcome run_once(Prop const& p, Src& s, bool leak_check, long* leaked) {
    Outcome o; long before=live_blocks; bool completed=false;
    try { p.fn(s); completed=true; }
    catch(Fail const& f) { o.failed=true; o.msg=f.msg; }
    catch(Overrun const&) { o.overrun=true; }
    catch(std::exception const& e) { o.failed=true; o.msg=std::string("unexpected exception: ")+e.what(); }
    catch(...) { o.failed=true; o.msg="unexpected exception"; }
    alloc_countdown=0;
    if(leaked) { *leaked = (completed && leak_check) ? live_blocks-before : 0; }
    return o;
}
//! Run one case; memory that is not released is confirmed by running the same case twice more.
static Outcome run_case(Prop const& p, Src& s) {
    long leaked=0; Outcome o=run_once(p,s,s.tr==nullptr,&leaked);
    if(leaked!=0 && s.slot) {
        std::vector<u64> ch(s.slot->choices,s.slot->choices+s.slot->nchoices); long l[2];
        for(int k=0;k<2;++k) { Src r; r.mode=Src::Mode::REPLAY; r.rep=ch.data(); r.nrep=ch.size(); run_once(p,r,true,&l[k]); }
        if(l[0]!=0 && l[1]!=0) { o.failed=true; std::ostringstream os; os << "memory: " << l[1] << " allocated block(s) are not released (negative: released too often)"; o.msg=os.str(); }
    }
    return o;
}

static void* shared(std::size_t n) {
    void* p=mmap(nullptr,n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if(p==MAP_FAILED) { std::perror("mmap"); _exit(3); } return p; }

struct Distinct {
    static const std::size_t N=std::size_t(1)<<22; std::atomic<u64>* tab; std::atomic<u64>* count;
    Distinct() : tab(static_cast<std::atomic<u64>*>(shared(N*8))), count(static_cast<std::atomic<u64>*>(shared(8))) { }
    void add(u64 h) { if(h==0) { h=1; } for(std::size_t k=0,i=h&(N-1);k<64;++k,i=(i+1)&(N-1)) {
        u64 e=tab[i].load(); if(e==h) { return; } if(e==0) { if(tab[i].compare_exchange_strong(e,h)) { ++*count; return; } if(e==h) { return; } } } }
};

static void child_setup(Slot* slot, const char* errfile) {
    cur_slot=slot; std::signal(SIGPROF,on_cpu);
    int fd=open(errfile?errfile:"/dev/null",O_WRONLY|O_CREAT|O_TRUNC,0644); if(fd>=0) { dup2(fd,2); close(fd); }
    int nul=open("/dev/null",O_WRONLY); if(nul>=0) { dup2(nul,1); close(nul); }
}

static std::string status_text(int st, Slot const& slot) {
    std::ostringstream os;
    if(slot.state==3) { os << "the case used up its CPU time of " << CPU_LIMIT_S << " s or more (cases take milliseconds): it does not terminate"; }
    else if(WIFSIGNALED(st)) { os << "crashed with signal " << WTERMSIG(st); }
    else if(WIFEXITED(st)) { os << "ended by a sanitizer or exit, status " << WEXITSTATUS(st); }
    return os.str();
}

struct Result { bool failed=false; bool killed=false; std::string msg; std::vector<u64> used; std::string trace; std::string err; };

//! One case of a sequence: a property with recorded choices, or with the seed they are drawn from.
struct Item { Prop const* p; bool random=false; u64 seed=0; std::vector<u64> ch; };

//! Writes a trace as it grows, so that it survives a crash.
struct Sink : std::streambuf { int fd; char b[8192]; int n=0; explicit Sink(const char* f) : fd(open(f,O_WRONLY|O_CREAT|O_TRUNC,0644)) { }
    void put() { ssize_t w=write(fd,b,static_cast<std::size_t>(n)); (void)w; n=0; }
    int overflow(int c) override { b[n++]=static_cast<char>(c); if(c=='\n' || n==8192) { put(); } return c; } };

//! Run cases, one after the other, in one forked child; ends with the first that fails. The choices of the last one run are in the result,
//! those of all in recorded if that is given (and they fit).
static Result run_sequence(std::vector<Item> const& items, bool verbose, std::size_t* failed_at=nullptr, std::vector<std::vector<u64>>* recorded=nullptr, const char* bytes_from=nullptr, std::size_t nbytes=0) {
    static Slot* slot=static_cast<Slot*>(shared(sizeof(Slot))); static const std::size_t RECORD=std::size_t(1)<<24; static u64* record=static_cast<u64*>(shared(RECORD*sizeof(u64)));
    char tfile[64], efile[64]; std::snprintf(tfile,sizeof tfile,"/tmp/pbt.%d.trace",getpid()); std::snprintf(efile,sizeof efile,"/tmp/pbt.%d.err",getpid());
    Result r;
    for(int attempt=0;attempt<5;++attempt) {
        slot->state=0; slot->nchoices=0; slot->msg[0]=0; slot->case_index=0; record[0]=0;
        std::fflush(nullptr);
        pid_t pid=fork();
        if(pid<0) { usleep(200000); continue; }
        if(pid==0) {
            child_setup(slot,verbose?efile:nullptr); std::size_t at=1; std::ostringstream tr; Sink* sink=nullptr; std::streambuf* old=nullptr;
            if(verbose) { sink=new Sink(tfile); old=static_cast<std::ostream&>(tr).rdbuf(sink); }
            for(std::size_t i=0;i!=items.size();++i) { Item const& it=items[i]; slot->case_index=i; slot->nchoices=0; arm(it.p->weight?CPU_LIMIT_S:CPU_LIMIT_ONCE_S);
                Src s; s.slot=slot;
                if(bytes_from) { s.mode=Src::Mode::BYTES; s.bytes=reinterpret_cast<const std::uint8_t*>(bytes_from); s.nbytes=nbytes; }
                else if(it.random) { s.seed(it.seed); }
                else { s.mode=Src::Mode::REPLAY; s.rep=it.ch.data(); s.nrep=it.ch.size(); }
                if(verbose) { s.tr=&tr; if(items.size()>1) { tr << "--- " << it.p->name << "\n"; } }
                Outcome o=run_case(*it.p,s);
                if(recorded && at+1+slot->nchoices<=RECORD) { record[at++]=slot->nchoices; for(u64 k=0;k!=slot->nchoices;++k) { record[at++]=slot->choices[k]; } ++record[0]; }
                if(o.failed) { std::snprintf(slot->msg,sizeof slot->msg,"%s",o.msg.c_str()); slot->state=1; break; }
            }
            if(sink) { sink->put(); static_cast<std::ostream&>(tr).rdbuf(old); }
            if(slot->state==0) { slot->state=2; }
            _exit(0);
        }
        int st=0; while(waitpid(pid,&st,0)<0 && errno==EINTR) { }
        if(WIFSIGNALED(st) && WTERMSIG(st)==SIGKILL) { r.killed=true; usleep(300000); continue; }
        r.killed=false;
        r.used.assign(slot->choices,slot->choices+slot->nchoices); if(failed_at) { *failed_at=slot->case_index; }
        if(recorded) { recorded->clear(); std::size_t at=1; for(u64 k=0;k!=record[0];++k) { std::size_t n=record[at++]; recorded->push_back(std::vector<u64>(record+at,record+at+n)); at+=n; } if(recorded->size()==slot->case_index) { recorded->push_back(r.used); } }
        if(slot->state==2) { r.failed=false; }
        else if(slot->state==1) { r.failed=true; r.msg=slot->msg; }
        else { r.failed=true; r.msg=status_text(st,*slot); }
        break;
    }
    if(verbose) {
        auto slurp=[](const char* f,std::size_t cap){ std::ifstream is(f); std::ostringstream os; os << is.rdbuf(); std::string t=os.str(); if(t.size()>cap) { t=t.substr(0,cap)+"..."; } return t; };
        r.trace=slurp(tfile,20000); r.err=slurp(efile,6000); unlink(tfile); unlink(efile);
    }
    return r;
}

//! Run recorded choices in a forked child.
static Result run_choices(Prop const& p, std::vector<u64> const& ch, bool verbose, const char* bytes_from=nullptr, std::size_t nbytes=0) {
    return run_sequence({Item{&p,false,0,ch}},verbose,nullptr,nullptr,bytes_from,nbytes); }

static double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

//! Shrink a failing list of choices.
static std::vector<u64> shrink(std::function<Result(std::vector<u64> const&)> const& run, std::vector<u64> best, double budget_s, int max_runs, int& runs) {
    double t0=now_s(); runs=0;
    auto out=[&]{ return runs>=max_runs || now_s()-t0>budget_s; };
    auto attempt=[&](std::vector<u64> const& c) {
        if(out()) { return false; }
        ++runs; Result r=run(c);
        if(r.failed) {
            std::vector<u64> u=r.used; if(u.size()>c.size()) { u.resize(c.size()); }
            while(!u.empty() && u.back()==0) { u.pop_back(); }
            std::size_t su=u.size(), sb=best.size();
            if(su<sb || (su==sb && u<best)) { best=u; return true; }
        }
        return false; };
    while(!best.empty() && best.back()==0) { best.pop_back(); }
    bool better=true;
    while(better && !out()) {
        better=false;
        for(std::size_t k=std::size_t(1)<<14;k>0;k/=2) {
            if(k>best.size()) { continue; }
            for(std::size_t i=best.size()>=k?best.size()-k+1:0;i-->0 && !out();) {
                if(i+k>best.size()) { continue; }
                std::vector<u64> c(best); c.erase(c.begin()+static_cast<long>(i),c.begin()+static_cast<long>(i+k));
                if(attempt(c)) { better=true; }
                if(k>8 && i>=k/2) { i-=k/2; }
            }
        }
        for(std::size_t k=16;k>1;k/=2) {
            for(std::size_t i=0;i+k<=best.size() && !out();i+=k/2) {
                std::vector<u64> c(best); bool any=false; for(std::size_t j=0;j<k;++j) { any=any||c[i+j]; c[i+j]=0; }
                if(any && attempt(c)) { better=true; }
            }
        }
        for(std::size_t i=0;i<best.size() && !out();++i) {
            if(best[i]==0) { continue; }
            { std::vector<u64> c(best); c[i]=0; if(attempt(c)) { better=true; continue; } }
            u64 lo=0; // best[i]=lo is known to pass
            while(i<best.size() && best[i]>lo+1 && !out()) {
                u64 mid=lo+(best[i]-lo)/2; std::vector<u64> c(best); c[i]=mid;
                if(attempt(c)) { better=true; } else { lo=mid; }
            }
        }
        for(std::size_t i=0;i+1<best.size() && !out();++i) {   // lower a length and delete one element after it
            if(best[i]==0) { continue; }
            for(std::size_t k=1;k<=4 && i+k<best.size();++k) {
                std::vector<u64> c(best); --c[i]; c.erase(c.begin()+static_cast<long>(i+1),c.begin()+static_cast<long>(i+1+k));
                if(attempt(c)) { better=true; break; }
            }
        }
    }
    return best;
}

static std::string json_str(std::string const& t) {
    std::string o="\""; char b[8];
    for(unsigned char c : t) { switch(c) { case '"': o+="\\\""; break; case '\\': o+="\\\\"; break; case '\n': o+="\\n"; break; case '\t': o+="\\t"; break;
        default: if(c<32 || c>126) { std::snprintf(b,sizeof b,"\\u%04x",c); o+=b; } else { o.push_back(static_cast<char>(c)); } } }
    return o+"\"";
}

struct Args { std::string prop, out, replay, replay_out, bytes, corpus; u64 seed=1; u64 cases=1000; int jobs=1; double time=1e9; double shrink_s=60; bool known=false; int ncorpus=0; };

static std::string write_replay(Args const& a, Prop const& p, std::vector<u64> const& ch, Result const& r, std::string const& how, std::vector<Item> const& before={}) {
    std::ofstream os(a.replay_out);
    os << "property=" << p.id << "\nsub=" << p.name << "\nvariant=" << PBT_VARIANT << "\nfound=" << how << "\n";
    for(Item const& b : before) { os << "before=" << b.p->name; for(u64 c : b.ch) { os << ' ' << c; } os << "\n"; }
    os << "choices=";
    for(u64 c : ch) { os << ' ' << c; }
    os << "\nmessage=" << r.msg << "\n\n--- case\n" << r.trace << "\n--- failure\n" << r.msg << "\n";
    if(!r.err.empty()) { os << "\n--- standard error\n" << r.err << "\n"; }
    return a.replay_out;
}

//! Confirm, shrink and record a failure. Returns: 1 recorded, 0 not reproducible.
static int report_failure(Args const& a, Prop const& p, std::vector<u64> const& found, std::string const& how, std::string& msg, std::string& note) {
    int runs=0;
    Result first=run_choices(p,found,false);
    std::vector<u64> ch=found;
    if(first.failed) { ch=shrink([&](std::vector<u64> const& c){ return run_choices(p,c,false); },found,a.shrink_s,4000,runs); }
    auto count=[&](std::vector<u64> const& c,int n){ int k=0; for(int i=0;i<n;++i) { if(run_choices(p,c,false).failed) { ++k; } } return k; };
    int k=count(ch,3);
    if(k<3) { ch=found; k=count(ch,10); if(k<3) { std::ostringstream os; os << "a failure of " << p.name << " (" << how << ") did not reproduce (" << k << " of 10)"; note=os.str(); return 0; }
        std::ostringstream os; os << "reproduces " << k << " times of 10"; note=os.str(); }
    Result r=run_choices(p,ch,true); if(!r.failed) { r.msg=first.msg; }
    msg=r.msg; write_replay(a,p,ch,r,how);
    return 1;
}

//! A failure that needs earlier cases in the same process: find which, make them few and small, and record the sequence.
static int report_history(Args const& a, std::vector<Item> items, std::string const& how, std::string& sub, std::string& msg, std::string& note) {
    double t0=now_s(), budget=a.shrink_s*1.5; std::size_t at=0; auto out=[&]{ return now_s()-t0>budget; };
    auto fails=[&](std::vector<Item> const& s){ return run_sequence(s,false,&at).failed; };
    if(!fails(items)) { return 0; }
    items.resize(at+1);
    for(std::size_t k=1;k<items.size() && !out();k*=2) { std::vector<Item> s(items.end()-static_cast<long>(k+1),items.end()); if(fails(s)) { s.resize(at+1); items=s; break; } }
    for(std::size_t k=items.size()/2;k>0 && !out();k/=2) { for(std::size_t i=0;i+k<items.size() && !out();) {
        std::vector<Item> s(items); s.erase(s.begin()+static_cast<long>(i),s.begin()+static_cast<long>(i+k)); if(fails(s)) { s.resize(at+1); items=s; } else { i+=k; } } }
    std::vector<std::vector<u64>> rec; Result r=run_sequence(items,false,&at,&rec); if(!r.failed || at+1>items.size() || rec.size()!=at+1) { note="a failure that needs earlier cases could not be recorded"; return 0; }
    items.resize(at+1); for(std::size_t i=0;i!=items.size();++i) { items[i].random=false; items[i].ch=rec[i]; }
    for(std::size_t i=items.size();i-->0 && !out();) { int runs=0; std::vector<Item> s(items);
        items[i].ch=shrink([&](std::vector<u64> const& c){ s[i].ch=c; std::vector<std::vector<u64>> u; Result q=run_sequence(s,false,&at,&u); q.failed = q.failed && at+1==s.size(); if(i<u.size()) { q.used=u[i]; } return q; },items[i].ch,budget/static_cast<double>(items.size())/2,1500,runs); }
    for(int k=0;k!=3;++k) { if(!fails(items)) { note="a failure that needs earlier cases reproduces only at times"; return 0; } }
    r=run_sequence(items,true,&at); Prop const& p=*items.back().p; sub=p.name; msg=r.msg; std::vector<Item> before(items.begin(),items.end()-1);
    std::ostringstream os; os << "needs " << before.size() << " earlier case(s) in the same process"; note=os.str(); write_replay(a,p,items.back().ch,r,how,before);
    return 1;
}

static int explore(Args const& a) {
    std::vector<Prop> ps; for(auto& p : props()) { if(a.prop==p.id) { ps.push_back(p); } }
    if(ps.empty()) { std::cerr << "no property " << a.prop << "\n"; return 2; }
    std::vector<unsigned> wheel; for(unsigned i=0;i<ps.size();++i) { for(unsigned w=0;w<ps[i].weight;++w) { wheel.push_back(i); } }
    std::size_t J=static_cast<std::size_t>(a.jobs);
    Slot* slots=static_cast<Slot*>(shared(J*sizeof(Slot))); Distinct distinct; volatile int* stop=static_cast<volatile int*>(shared(64));
    u64 base=a.seed^str_hash(a.prop.c_str()); double t0=now_s();
    struct Worker { pid_t pid=-1; u64 next=0; int kills=0; bool once=true; }; std::vector<Worker> ws(J);
    auto prop_of=[&](u64 i){ return wheel[static_cast<std::size_t>(Src::mix(i/wheel.size())%wheel.size()+i)%wheel.size()]; };
    auto case_seed=[&](u64 i, unsigned pi){ return Src::mix(base+i*0x9E3779B97F4A7C15ull)^str_hash(ps[pi].name); };
    auto once_seed=[&](unsigned pi){ return Src::mix(base)^str_hash(ps[pi].name); };
    auto start=[&](std::size_t w) {
        std::fflush(nullptr); Slot* slot=slots+w; slot->state=0; slot->resume=ws[w].next;
        pid_t pid=fork(); if(pid<0) { std::perror("fork"); _exit(3); }
        if(pid==0) {
            child_setup(slot,nullptr);
            if(ws[w].once) { for(unsigned pi=0;pi<ps.size();++pi) { if(ps[pi].weight!=0 || pi%J!=w || *stop) { continue; }
                slot->case_index=0; slot->prop_index=static_cast<int>(pi); slot->nchoices=0; arm(CPU_LIMIT_ONCE_S);
                Src s; s.slot=slot; s.seed(once_seed(pi)); Outcome o=run_case(ps[pi],s); ++slot->evals;
                if(o.failed) { std::snprintf(slot->msg,sizeof slot->msg,"%s",o.msg.c_str()); slot->state=1; _exit(10); }
                if(s.nontriv && !o.overrun) { ++slot->nontrivial; distinct.add(s.hash^Src::mix(pi)); } } }
            for(u64 i=ws[w].next;i<a.cases;i+=J) {
                if(*stop || ((i/J)%16==0 && now_s()-t0>a.time)) { break; }
                unsigned pi=prop_of(i);
                slot->case_index=i; slot->resume=i+J; slot->prop_index=static_cast<int>(pi); slot->nchoices=0; arm();
                Src s; s.slot=slot; s.seed(case_seed(i,pi));
                Outcome o=run_case(ps[pi],s);
                ++slot->evals; if(o.overrun) { ++slot->overruns; }
                if(o.failed) { std::snprintf(slot->msg,sizeof slot->msg,"%s",o.msg.c_str()); slot->state=1; _exit(10); }
                if(s.nontriv && !o.overrun) { ++slot->nontrivial; distinct.add(s.hash^Src::mix(pi)); }
            }
            slot->state=2; _exit(0);
        }
        ws[w].pid=pid; };
    for(std::size_t w=0;w<J;++w) { ws[w].next=w; }
    u64 infra=0; std::string fmsg,note,sub; int failed=0;
    for(int round=0;round<4;++round) {      // goes on after a failure that does not reproduce
    *stop=0; for(std::size_t w=0;w<J;++w) { start(w); }
    std::size_t live=J; int failed_worker=-1;
    while(live>0) {
        int st=0; pid_t pid=waitpid(-1,&st,0); if(pid<0) { if(errno==EINTR) { continue; } break; }
        for(std::size_t w=0;w<J;++w) if(ws[w].pid==pid) {
            ws[w].pid=-1;
            if(slots[w].state==2) { --live; break; }
            if(WIFSIGNALED(st) && WTERMSIG(st)==SIGKILL) { if(++ws[w].kills<=3) { ws[w].next=slots[w].resume; ws[w].once=false; ++infra; usleep(300000); start(w); } else { --live; } break; }
            --live; *stop=1;
            std::string m = slots[w].state==1 ? std::string(slots[w].msg) : status_text(st,slots[w]);
            if(failed_worker<0 || slots[w].case_index<slots[static_cast<std::size_t>(failed_worker)].case_index) { failed_worker=static_cast<int>(w); fmsg=m; }
        }
    }
    if(failed_worker<0) { break; }
    Slot& s=slots[failed_worker]; std::vector<u64> ch(s.choices,s.choices+s.nchoices); Prop const& p=ps[static_cast<std::size_t>(s.prop_index)]; sub=p.name;
    std::ostringstream how; how << "random case " << s.case_index << " of seed " << a.seed << ": " << fmsg; std::string more;
    failed=report_failure(a,p,ch,how.str(),fmsg,more);
    if(!failed) {   // perhaps because of what earlier cases left behind
        std::vector<Item> items; std::size_t w=static_cast<std::size_t>(failed_worker); bool once=p.weight==0;
        if(ws[w].once) { for(unsigned pi=0;pi<ps.size();++pi) { if(ps[pi].weight==0 && pi%J==w) { items.push_back(Item{&ps[pi],true,once_seed(pi),{}}); if(once && pi==static_cast<unsigned>(s.prop_index)) { break; } } } }
        if(!once) { for(u64 i=ws[w].next;i<=s.case_index;i+=J) { unsigned pi=prop_of(i); items.push_back(Item{&ps[pi],true,case_seed(i,pi),{}}); } }
        std::string n; failed=report_history(a,items,how.str(),sub,fmsg,n); if(failed) { more=n; } else if(!n.empty()) { more+="; "+n; } }
    note+=(note.empty()?"":"; ")+more;
    if(failed || now_s()-t0>a.time) { break; }
    for(std::size_t w=0;w<J;++w) { ws[w].next=slots[w].resume; ws[w].once=false; }
    fmsg.clear(); sub.clear();
    }
    u64 evals=0,nontriv=0,over=0; std::vector<std::pair<std::string,u64>> labels;
    for(std::size_t w=0;w<J;++w) { evals+=slots[w].evals; nontriv+=slots[w].nontrivial; over+=slots[w].overruns;
        for(auto& l : slots[w].labels) if(l.name[0]) { auto it=std::find_if(labels.begin(),labels.end(),[&](auto& q){ return q.first==l.name; }); if(it==labels.end()) { labels.push_back({l.name,l.count}); } else { it->second+=l.count; } } }
    std::sort(labels.begin(),labels.end());
    // samples
    std::vector<std::string> samples; std::vector<unsigned> per(ps.size(),0);
    for(u64 i=0;i<std::min<u64>(a.cases,400) && samples.size()<6 && !failed;++i) {
        unsigned pi=prop_of(i); if(per[pi]>=(ps.size()>3?1u:2u)) { continue; }
        static Slot* sl=static_cast<Slot*>(shared(sizeof(Slot))); sl->nchoices=0; sl->state=0; sl->msg[0]=0;
        pid_t pid=fork(); if(pid==0) { child_setup(sl,nullptr); arm(); Src s; s.slot=sl; s.seed(case_seed(i,pi)); run_case(ps[pi],s); if(s.nontriv) { sl->state=2; } _exit(0); }
        int st=0; while(waitpid(pid,&st,0)<0 && errno==EINTR) { }
        if(sl->state==2 && sl->nchoices<400) { std::vector<u64> ch(sl->choices,sl->choices+sl->nchoices); Result r=run_choices(ps[pi],ch,true); std::string t=r.trace; if(t.size()>1200) { t=t.substr(0,1200)+"..."; } if(!t.empty()) { samples.push_back(std::string(ps[pi].name)+": "+t); ++per[pi]; } }
    }
    std::ofstream os(a.out);
    os << "{\"variant\":" << json_str(PBT_VARIANT) << ",\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << distinct.count->load()
       << ",\"overruns\":" << over << ",\"workers_killed\":" << infra << ",\"wall_s\":" << now_s()-t0 << ",\"failed\":" << failed << ",\"sub\":" << json_str(sub) << ",\"message\":" << json_str(fmsg) << ",\"note\":" << json_str(note) << ",\"labels\":{";
    bool c=false; for(auto& l : labels) { os << (c?",":"") << json_str(l.first) << ":" << l.second; c=true; }
    os << "},\"rule\":"; std::string rule; for(auto& r : rules()) { if(a.prop==r.id) { rule=r.text; } } os << json_str(rule) << ",\"subproperties\":[";
    for(std::size_t i=0;i<ps.size();++i) { os << (i?",":"") << json_str(ps[i].name); }
    os << "],\"samples\":["; for(std::size_t i=0;i<samples.size();++i) { os << (i?",":"") << json_str(samples[i]); } os << "]}\n";
    return failed?1:0;
}

static std::vector<u64> read_choices(std::string const& file, std::string& prop, std::string& sub, std::vector<std::string>& before) {
    std::ifstream is(file); std::string line; std::vector<u64> ch;
    while(std::getline(is,line)) {
        if(line.rfind("property=",0)==0) { prop=line.substr(9); } else if(line.rfind("sub=",0)==0) { sub=line.substr(4); }
        else if(line.rfind("before=",0)==0) { before.push_back(line.substr(7)); }
        else if(line.rfind("choices=",0)==0) { std::istringstream ls(line.substr(8)); u64 v; while(ls >> v) { ch.push_back(v); } break; } }
    return ch;
}

static Prop const* select_bytes(std::string const& id, const std::uint8_t* d, std::size_t n) {
    std::vector<Prop const*> ps; for(auto& p : props()) { if(id==p.id && p.weight) { ps.push_back(&p); } }
    return ps.empty() ? nullptr : ps[n ? d[0]%ps.size() : 0];
}

static int driver(int argc, char** argv) {
    Args a; auto val=[&](int& i){ return std::string(i+1<argc?argv[++i]:""); };
    for(int i=1;i<argc;++i) { std::string o=argv[i];
        if(o=="--prop") { a.prop=val(i); } else if(o=="--seed") { a.seed=std::strtoull(val(i).c_str(),nullptr,10); } else if(o=="--cases") { a.cases=std::strtoull(val(i).c_str(),nullptr,10); }
        else if(o=="--jobs") { a.jobs=std::atoi(val(i).c_str()); } else if(o=="--out") { a.out=val(i); } else if(o=="--replay") { a.replay=val(i); } else if(o=="--replay-out") { a.replay_out=val(i); }
        else if(o=="--bytes") { a.bytes=val(i); } else if(o=="--time") { a.time=std::atof(val(i).c_str()); } else if(o=="--shrink-time") { a.shrink_s=std::atof(val(i).c_str()); } else if(o=="--known") { a.known=true; }
        else if(o=="--corpus") { a.corpus=val(i); a.ncorpus=std::atoi(val(i).c_str()); }
        else { std::cerr << "unknown option " << o << "\n"; return 2; } }
    if(a.known) { for(auto& k : knowns()) { if(a.prop==k.id) { std::cout << (k.fails()?"FAILS ":"HOLDS ") << k.key << "\n"; } } return 0; }
    if(!a.replay.empty()) {
        std::string id,sub; std::vector<std::string> before; std::vector<u64> ch=read_choices(a.replay,id,sub,before); std::vector<Item> items;
        auto find=[&](std::string const& name)->Prop const* { for(auto& p : props()) { if(id==p.id && name==p.name) { return &p; } } return nullptr; };
        for(auto& b : before) { std::istringstream ls(b); std::string name; ls >> name; Item it; it.p=find(name); u64 v; while(ls >> v) { it.ch.push_back(v); } if(it.p) { items.push_back(it); } }
        if(Prop const* p=find(sub)) { items.push_back(Item{p,false,0,ch}); Result r=run_sequence(items,true); std::cout << r.trace << (r.failed?"FAILS: "+r.msg:std::string("passes")) << "\n" << r.err; return r.failed?1:0; }
        std::cerr << "no such property\n"; return 2; }
    if(!a.bytes.empty()) {
        std::ifstream is(a.bytes,std::ios::binary); std::ostringstream b; b << is.rdbuf(); std::string t=b.str();
        Prop const* p=select_bytes(a.prop,reinterpret_cast<const std::uint8_t*>(t.data()),t.size()); if(!p) { return 2; }
        const char* rest=t.size()?t.data()+1:t.data();
        Result r=run_choices(*p,{},false,rest,t.size()?t.size()-1:0);
        std::string msg,note; int f=0; if(r.failed) { f=report_failure(a,*p,r.used,"libFuzzer input: "+r.msg,msg,note); }
        std::cout << (f?"FAILS ":"passes ") << p->name << " " << msg << " " << note << "\n"; return f?1:0; }
    if(!a.corpus.empty()) {     // byte encodings of random cases: starting points for libFuzzer
        std::vector<Prop const*> ps; for(auto& p : props()) { if(a.prop==p.id && p.weight) { ps.push_back(&p); } }
        for(int i=0;i<a.ncorpus;++i) {
            std::size_t pi=static_cast<std::size_t>(i)%ps.size(); std::string enc(1,static_cast<char>(pi)); std::string f=a.corpus+"/"+std::to_string(i);
            std::fflush(nullptr); pid_t pid=fork();
            if(pid==0) { static Slot* sl=static_cast<Slot*>(shared(sizeof(Slot))); child_setup(sl,nullptr); arm(); Src s; s.slot=sl; s.encode=&enc; s.seed(Src::mix(a.seed*1000003u+static_cast<u64>(i))); run_once(*ps[pi],s,false,nullptr);
                if(enc.size()<6000) { std::ofstream os(f,std::ios::binary); os << enc; os.close(); } _exit(0); }
            int st=0; while(waitpid(pid,&st,0)<0 && errno==EINTR) { } }
        return 0; }
    return explore(a);
}

} // namespace pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
    using namespace pbt;
    static Slot* slot=nullptr; static std::string id; static u64 evals=0,nontriv=0;
    if(!slot) { slot=static_cast<Slot*>(shared(sizeof(Slot))); const char* e=std::getenv("PBT_PROP"); id=e?e:""; 
        static std::ofstream nul("/dev/null"); std::cout.rdbuf(nul.rdbuf()); 
        std::atexit([]{ const char* f=std::getenv("PBT_STATS"); if(f) { std::ofstream os(f); os << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << "}\n"; } }); }
    Prop const* p=select_bytes(id,data,size); if(!p) { std::fprintf(stderr,"no property %s\n",id.c_str()); _exit(2); }
    slot->nchoices=0; Src s; s.slot=slot; s.mode=Src::Mode::BYTES; if(size) { s.bytes=data+1; s.nbytes=size-1; }
    Outcome o=run_case(*p,s); ++evals; if(s.nontriv) { ++nontriv; }
    if(o.failed) { std::fprintf(stderr,"PBT-FAIL %s %s: %s\n",p->id,p->name,o.msg.c_str()); __builtin_trap(); }
    return 0;
}
#else
int main(int argc, char** argv) { return pbt::driver(argc,argv); }
#endif
