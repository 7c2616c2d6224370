// See threads.h. This file is compiled without instrumentation and provides the whole runtime the
// instrumented code calls: __tsan_*, pthread locks, operator new/delete, __cxa_guard_*.
#include "threads.h"

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <link.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
#include <unordered_set>

extern "C" char __executable_start;

namespace {

using u8 = unsigned char; using u32 = uint32_t; using u64 = uint64_t;
constexpr int T = sched::MaxThreads;
constexpr size_t BootSize = 4u << 20, HeapSize = 48u << 20, StackSize = 2u << 20;
constexpr size_t ResMax = 1 << 16, MaxOps = 24;

struct VC { u32 c[T]; };
struct Cell { u32 w[T], r[T]; };                     // one per byte: last write / read of every thread

struct Lock { void* addr; int kind; int owner, depth; int readers[T]; int nreaders; VC w, r; };
struct Sync { void* addr; VC v; };
struct Guard { void* addr; int owner; bool done; VC v; };
struct Cond { void* addr; u32 waiters; };

enum class St : u8 { Ready, OnMutex, OnRead, OnWrite, OnGuard, OnCond, OnOnce, OnJoin, Done };

struct Fiber {
    void* sp; u8* stack; St st; void* on;
    u8 eh[16]; void* onceCallable; void (*onceCall)();
    u8* tls; VC vc; u32 spin;
    void* (*start)(void*); void* arg; bool joined;     // threads the program starts itself
};

struct Choice { u8 n, taken; u8 opt[T]; bool curEnabled; };

constexpr size_t NSync = 1 << 14, NLock = 1 << 12;

struct State {
    bool booted, exec, conc, aborted, counters;
    u8 *boot, *bootTop, *heap, *heapTop, *stacks;
    Cell *cBoot, *cHeap, *cGlob, *cStack;
    u32* freed;                      // per 16 heap bytes: number of the execution that freed it
    u8 *g0, *g1;                     // writable globals of the executable
    u8* gSnap; u8* bootSnap; size_t bootLen;
    u8* tls; size_t tlsLen; u8* tlsSnap;
    u32 execNo, clockMax;
    int cur, nthreads; bool spawned;
    Fiber f[T + 1];
    Lock locks[NLock]; u32 lockIdx[NLock]; u32 nLocks;
    Sync syncs[NSync]; u32 syncIdx[NSync]; u32 nSyncs;
    Guard guards[256]; u32 nGuards;
    VC fence;
    // schedule
    Choice* path; size_t pathLen, pos, pathCap;
    int preempt, bound;
    u64 points, time;
    char msg[2048];
    // calls
    std::vector<std::function<std::string()>> const* prog[T + 1];
    int opBase[T + 1]; u32 opStart[MaxOps], opEnd[MaxOps]; char* res[MaxOps]; size_t resLen[MaxOps];
};
State* G;

inline u8* B(void const* p) { return (u8*)p; }

[[gnu::noinline]] void violate(char const* fmt, ...)
{
    if (G->aborted) return;
    G->aborted = true;
    va_list ap; va_start(ap, fmt); vsnprintf(G->msg, sizeof G->msg, fmt, ap); va_end(ap);
}

// ---- fibers --------------------------------------------------------------------------------
asm(R"(
.text
.globl verif_switch
.type verif_switch,@function
verif_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size verif_switch,.-verif_switch
)");
extern "C" void verif_switch(void** save, void* to);

void saveCtx(Fiber& f)
{
    memcpy(f.eh, (void*)abi::__cxa_get_globals(), 16);
    f.onceCallable = std::__once_callable; f.onceCall = std::__once_call;
    if (G->tlsLen) memcpy(f.tls, G->tls, G->tlsLen);
}
void loadCtx(Fiber& f)
{
    memcpy((void*)abi::__cxa_get_globals(), f.eh, 16);
    std::__once_callable = f.onceCallable; std::__once_call = f.onceCall;
    if (G->tlsLen) memcpy(G->tls, f.tls, G->tlsLen);
}
void switchTo(int t)
{
    int from = G->cur;
    if (from == t) return;
    saveCtx(G->f[from]);
    G->cur = t;
    loadCtx(G->f[t]);
    verif_switch(&G->f[from].sp, G->f[t].sp);
}

// ---- vector clocks --------------------------------------------------------------------------
void join(VC& a, VC const& b) { for (int i = 0; i < T; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
VC& me() { return G->f[G->cur].vc; }
void tick() { auto& v = me(); if (++v.c[G->cur] > G->clockMax) G->clockMax = v.c[G->cur]; }

u64 hashAddr(void* a) { u64 h = (u64)a * 0x9e3779b97f4a7c15ull; return h ^ (h >> 29); }

Lock& lockOf(void* a)
{
    for (u64 i = hashAddr(a);; ++i) {
        u32& x = G->lockIdx[i & (NLock - 1)];
        if (!x) {
            if (G->nLocks + 2 >= NLock / 2) { fprintf(stderr, "too many locks\n"); abort(); }
            x = ++G->nLocks;
            Lock& l = G->locks[x]; memset(&l, 0, sizeof l); l.addr = a; l.owner = -1; return l;
        }
        if (G->locks[x].addr == a) return G->locks[x];
    }
}
Sync& syncOf(void* a)
{
    for (u64 i = hashAddr(a);; ++i) {
        u32& x = G->syncIdx[i & (NSync - 1)];
        if (!x) {
            if (G->nSyncs + 2 >= NSync / 2) { fprintf(stderr, "too many atomics\n"); abort(); }
            x = ++G->nSyncs;
            Sync& l = G->syncs[x]; memset(&l, 0, sizeof l); l.addr = a; return l;
        }
        if (G->syncs[x].addr == a) return G->syncs[x];
    }
}

// ---- scheduling -----------------------------------------------------------------------------
bool enabled(int t)
{
    Fiber& f = G->f[t];
    switch (f.st) {
    case St::Ready: return true;
    case St::OnMutex: return lockOf(f.on).owner < 0;
    case St::OnRead: return lockOf(f.on).owner < 0;
    case St::OnWrite: { auto& l = lockOf(f.on); return l.owner < 0 && l.nreaders == 0; }
    case St::OnGuard: for (u32 i = 0; i < G->nGuards; ++i) if (G->guards[i].addr == f.on) return G->guards[i].owner < 0; return true;
    case St::OnJoin: return G->f[(size_t)f.on].st == St::Done;
    case St::OnOnce: case St::OnCond: case St::Done: return false;
    }
    return false;
}

// Decides who runs next. `yield`: the current thread asked to let others run.
void schedule(bool yield = false)
{
    if (G->aborted) { switchTo(0); return; }
    int cur = G->cur;
    u8 opt[T]; int n = 0;
    bool curEn = cur > 0 && enabled(cur);
    auto& f = G->f[cur];
    if (curEn && !yield && ++f.spin > 3000) { yield = true; f.spin = 0; }
    ++G->points; ++G->time;
    if (G->points > 60000) { violate("the threads do not come to an end (livelock)"); switchTo(0); return; }
    if (curEn && !yield) opt[n++] = (u8)cur;
    for (int i = 1; i <= G->nthreads; ++i) { int t = (cur + i - 1) % G->nthreads + 1; if (t != cur && enabled(t)) opt[n++] = (u8)t; }
    if (n == 0 && curEn) opt[n++] = (u8)cur;
    if (n == 0) {
        bool all = true;
        for (int t = 1; t <= G->nthreads; ++t) all = all && G->f[t].st == St::Done;
        if (!all) violate("deadlock: every unfinished thread waits for a lock");
        switchTo(0);
        return;
    }
    if (yield) n = 1;
    bool costs = curEn && !yield;
    if (costs && G->preempt >= G->bound) n = 1;
    int pick = opt[0];
    if (n > 1) {
        if (G->pos < G->pathLen) {
            auto& c = G->path[G->pos];
            if (c.n != n || memcmp(c.opt, opt, n)) { fprintf(stderr, "schedule is not deterministic\n"); abort(); }
            pick = c.opt[c.taken];
        } else {
            if (G->pathLen == G->pathCap) { fprintf(stderr, "path too long\n"); abort(); }
            auto& c = G->path[G->pathLen++];
            c.n = (u8)n; c.taken = 0; memcpy(c.opt, opt, n); c.curEnabled = costs;
        }
        ++G->pos;
    }
    if (costs && pick != cur) ++G->preempt;
    if (pick != cur) { G->f[pick].spin = 0; switchTo(pick); }
}

inline bool ctl() { return G && G->conc && G->cur > 0; }
// A synchronisation object on the thread's own stack is private to it: no other thread needs to run before.
bool ownStack(void* a) { if (G->spawned) return false; auto& f = G->f[G->cur]; return G->cur && B(a) >= f.stack && B(a) < f.stack + StackSize; }
void point();
void point(void* a) { if (G && G->conc && ownStack(a)) return; point(); }
void point() { if (ctl()) schedule(); if (G && G->aborted && G->conc && G->cur > 0) switchTo(0); }
void yieldPoint() { if (ctl()) schedule(true); }
void block(St st, void* on)
{
    auto& f = G->f[G->cur];
    f.st = st; f.on = on;
    schedule();
    f.st = St::Ready;
}

// ---- memory ---------------------------------------------------------------------------------
Cell* cellOf(u8* p)
{
    if (p >= G->heap && p < G->heap + HeapSize) return G->cHeap + (p - G->heap);
    if (p >= G->g0 && p < G->g1) return G->cGlob + (p - G->g0);
    if (p >= G->boot && p < G->boot + BootSize) return G->cBoot + (p - G->boot);
    // stacks are shared once the program has started threads of its own
    if (G->spawned && p >= G->stacks + StackSize && p < G->stacks + StackSize * (T + 1)) return G->cStack + (p - G->stacks);
    return nullptr;
}

[[gnu::noinline]] void raceAt(u8* p, bool w, int other, bool otherW, void* pc)
{
    violate("data race: %s by thread %d and %s by thread %d of the same memory (%s, exe+0x%zx)", w ? "write" : "read", G->cur,
            otherW ? "write" : "read", other, p >= G->g0 && p < G->g1 ? "global" : p >= G->stacks && p < G->stacks + StackSize * (T + 1) ? "stack" : "heap",
            (size_t)(B(pc) - B(&__executable_start)));
}


void accessImpl(u8* p, size_t n, bool w, void* pc, bool record)
{
    if (p >= G->heap && p < G->heap + HeapSize)
        for (u8* q = p; q < p + n; q += 16)
            if (G->freed[(q - G->heap) / 16] == G->execNo) { violate("use of freed memory by thread %d (exe+0x%zx)", G->cur, (size_t)(B(pc) - B(&__executable_start))); break; }
    if (G->cur == 0) return;
    Cell* c = cellOf(p);
    if (!c) return;
    auto& v = me();
    int t = G->cur;
    for (size_t i = 0; i < n; ++i, ++c) {
        for (int u = 1; u <= G->nthreads; ++u) {
            if (u == t) continue;
            if (c->w[u] > v.c[u]) { raceAt(p + i, w, u, true, pc); return; }
            if (w && c->r[u] > v.c[u]) { raceAt(p + i, w, u, false, pc); return; }
        }
        if (record) (w ? c->w : c->r)[t] = v.c[t];
    }
}
inline void acc(void* a, size_t n, bool w, void* pc, bool record = true)
{
    if (!G || !G->conc || G->aborted) return;
    accessImpl(B(a), n, w, pc, record);
}

void* heapAlloc(size_t n, size_t al)
{
    u8*& top = G->exec ? G->heapTop : G->bootTop;
    u8* end = G->exec ? G->heap + HeapSize : G->boot + BootSize;
    u8* p = (u8*)(((u64)top + 16 + al - 1) & ~(u64)(al - 1));
    if (p + n + 16 > end) { if (G->exec) { return nullptr; } fprintf(stderr, "boot heap exhausted\n"); abort(); }
    top = (u8*)(((u64)p + n + 15) & ~15ull);
    if (!n) top += 16;
    ((u64*)p)[-1] = n; ((u64*)p)[-2] = 0x5eedb10c5eedb10cull;
    memset(p, 0xb7, n < 512 ? n : 512);
    return p;
}
bool managed(void* p) { return G && ((B(p) >= G->heap && B(p) < G->heap + HeapSize) || (B(p) >= G->boot && B(p) < G->boot + BootSize)); }

int globalsCb(dl_phdr_info* i, size_t, void*)
{
    // the first object is the executable itself
    u64 r0 = 0, r1 = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { r0 = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; r1 = (r0 + i->dlpi_phdr[k].p_memsz) & ~4095ull; }
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        auto& h = i->dlpi_phdr[k];
        if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) {
            u64 a = i->dlpi_addr + h.p_vaddr, b = a + h.p_memsz;
            if (r0 >= (a & ~4095ull) && r1 <= b) a = r1;
            G->g0 = (u8*)a; G->g1 = (u8*)b;
        }
        if (h.p_type == PT_TLS && i->dlpi_tls_data) { G->tls = (u8*)i->dlpi_tls_data; G->tlsLen = h.p_memsz; }
    }
    return 1;
}

void* big(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); abort(); }
    return p;
}

void initState()
{
    if (G) return;
    auto g = (State*)big(sizeof(State));
    g->boot = (u8*)big(BootSize); g->bootTop = g->boot;
    g->heap = (u8*)big(HeapSize); g->heapTop = g->heap;
    g->stacks = (u8*)big(StackSize * (T + 1));
    g->cBoot = (Cell*)big(BootSize * sizeof(Cell));
    g->cHeap = (Cell*)big(HeapSize * sizeof(Cell));
    g->cStack = (Cell*)big(StackSize * (T + 1) * sizeof(Cell));
    g->freed = (u32*)big(HeapSize / 16 * 4);
    g->pathCap = 1 << 17;
    g->path = (Choice*)big(sizeof(Choice) * g->pathCap);
    for (int i = 0; i <= T; ++i) g->f[i].stack = g->stacks + i * StackSize;
    G = g;
}

void fiberMain()
{
    int t = G->cur;
    if (G->f[t].start) {
        try { G->f[t].start(G->f[t].arg); } catch (...) { violate("an exception leaves a thread"); }
        G->f[t].st = St::Done;
        schedule();
        abort();
    }
    for (size_t i = 0; i < G->prog[t]->size(); ++i) {
        int id = G->opBase[t] + (int)i;
        G->opStart[id] = (u32)++G->time;
        {
            std::string s;
            try { s = (*G->prog[t])[i](); } catch (...) { s = "unexpected exception"; }
            G->resLen[id] = std::min(s.size(), ResMax);
            memcpy(G->res[id], s.data(), G->resLen[id]);
        }
        G->opEnd[id] = (u32)++G->time;
    }
    G->f[t].st = St::Done;
    schedule();
    abort();
}
extern "C" void verif_fiber_entry() { fiberMain(); }

void prepareFiber(int t)
{
    auto& f = G->f[t];
    u64* sp = (u64*)(f.stack + StackSize);
    *--sp = 0;                            // keeps the stack aligned as after a call
    *--sp = (u64)&verif_fiber_entry;      // return address of verif_switch
    for (int i = 0; i < 6; ++i) *--sp = 0;
    f.sp = sp; f.st = St::Ready; f.on = nullptr; f.spin = 0; f.start = nullptr; f.arg = nullptr; f.joined = false;
    memset(f.eh, 0, 16); f.onceCallable = nullptr; f.onceCall = nullptr;
    if (G->tlsLen) memcpy(f.tls, G->tlsSnap, G->tlsLen);
}

void takeSnapshot()
{
    size_t n = G->g1 - G->g0;
    if (!G->gSnap) { G->gSnap = (u8*)big(n); G->bootSnap = (u8*)big(BootSize); if (G->tlsLen) { G->tlsSnap = (u8*)big(G->tlsLen); for (auto& f : G->f) f.tls = (u8*)big(G->tlsLen); } }
    memcpy(G->gSnap, G->g0, n);
    G->bootLen = G->bootTop - G->boot;
    memcpy(G->bootSnap, G->boot, G->bootLen);
    if (G->tlsLen) memcpy(G->tlsSnap, G->tls, G->tlsLen);
}
void restore()
{
    memcpy(G->g0, G->gSnap, G->g1 - G->g0);
    memcpy(G->boot, G->bootSnap, G->bootLen);
    if (G->tlsLen) memcpy(G->tls, G->tlsSnap, G->tlsLen);
    G->heapTop = G->heap;
    ++G->execNo;
    if (G->nLocks) { memset(G->lockIdx, 0, sizeof G->lockIdx); G->nLocks = 0; }
    if (G->nSyncs) { memset(G->syncIdx, 0, sizeof G->syncIdx); G->nSyncs = 0; }
    G->nGuards = 0; memset(&G->fence, 0, sizeof G->fence);
    G->spawned = false;
    G->aborted = false; G->conc = false; G->cur = 0; G->points = 0; G->time = 0; G->preempt = 0; G->pos = 0;
    G->msg[0] = 0;
    u32 m = G->clockMax + 1;
    G->clockMax = m + 1;
    for (auto& f : G->f) for (auto& c : f.vc.c) c = m;
    for (int t = 0; t < T; ++t) G->f[t].vc.c[t] = m + 1;
}

}  // namespace

// ---- instrumentation ------------------------------------------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* a) { acc(a, n, false, PC); } \
    void __tsan_write##n(void* a) { acc(a, n, true, PC); } \
    void __tsan_unaligned_read##n(void* a) { acc(a, n, false, PC); } \
    void __tsan_unaligned_write##n(void* a) { acc(a, n, true, PC); } \
    void __tsan_volatile_read##n(void* a) { acc(a, n, false, PC); } \
    void __tsan_volatile_write##n(void* a) { acc(a, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* a) { acc(a, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void* a) { acc(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { acc(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { acc(a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) acc(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { acc(a, 8, false, PC); }

// interposed memory functions (link with --wrap)
void* __real_memcpy(void*, void const*, size_t); void* __real_memmove(void*, void const*, size_t); void* __real_memset(void*, int, size_t);
int __real_memcmp(void const*, void const*, size_t);
void* __wrap_memcpy(void* d, void const* s, size_t n) { if (n) { acc((void*)s, n, false, PC); acc(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, void const* s, size_t n) { if (n) { acc((void*)s, n, false, PC); acc(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) acc(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(void const* a, void const* b, size_t n) { if (n) { acc((void*)a, n, false, PC); acc((void*)b, n, false, PC); } return __real_memcmp(a, b, n); }

// red-black tree rebalancing lives in libstdc++.so, which is not instrumented
struct RbBase { int color; RbBase *parent, *left, *right; };
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, RbBase*, RbBase*, RbBase*);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, RbBase* x, RbBase* p, RbBase* h)
{
    acc(x, sizeof *x, true, PC); acc(p, sizeof *p, true, PC); acc(h, sizeof *h, true, PC);
    __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}

// atomics
static inline bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void atomPre(void* a, size_t n, bool w, void* pc) { point(a); acc(a, n, w, pc, false); }
static void atomCount(void* a, size_t n, bool one, void* pc) { if (!one || !G || G->counters) point(a); acc(a, n, true, pc, false); }
static void atomPost(void* a, bool load, bool store, int mo)
{
    if (!ctl()) return;
    auto& s = syncOf(a);
    if (load && isAcq(mo)) join(me(), s.v);
    if (store) {
        if (isRel(mo)) { if (load) join(s.v, me()); else s.v = me(); tick(); }
        else if (!load) memset(&s.v, 0, sizeof s.v);   // a relaxed store ends the release sequence
    }
}
#define ATOM(bits, TY) \
    TY __tsan_atomic##bits##_load(TY const volatile* a, int mo) { atomPre((void*)a, sizeof *a, false, PC); TY v = __atomic_load_n(a, 5); atomPost((void*)a, true, false, mo); return v; } \
    void __tsan_atomic##bits##_store(TY volatile* a, TY v, int mo) { atomPre((void*)a, sizeof *a, true, PC); __atomic_store_n(a, v, 5); atomPost((void*)a, false, true, mo); } \
    TY __tsan_atomic##bits##_exchange(TY volatile* a, TY v, int mo) { atomPre((void*)a, sizeof *a, true, PC); TY r = __atomic_exchange_n(a, v, 5); atomPost((void*)a, true, true, mo); return r; } \
    TY __tsan_atomic##bits##_fetch_add(TY volatile* a, TY v, int mo) { atomCount((void*)a, sizeof *a, v == (TY)1 || v == (TY)-1, PC); TY r = __atomic_fetch_add(a, v, 5); atomPost((void*)a, true, true, mo); return r; } \
    TY __tsan_atomic##bits##_fetch_sub(TY volatile* a, TY v, int mo) { atomCount((void*)a, sizeof *a, v == (TY)1 || v == (TY)-1, PC); TY r = __atomic_fetch_sub(a, v, 5); atomPost((void*)a, true, true, mo); return r; } \
    TY __tsan_atomic##bits##_fetch_and(TY volatile* a, TY v, int mo) { atomPre((void*)a, sizeof *a, true, PC); TY r = __atomic_fetch_and(a, v, 5); atomPost((void*)a, true, true, mo); return r; } \
    TY __tsan_atomic##bits##_fetch_or(TY volatile* a, TY v, int mo) { atomPre((void*)a, sizeof *a, true, PC); TY r = __atomic_fetch_or(a, v, 5); atomPost((void*)a, true, true, mo); return r; } \
    TY __tsan_atomic##bits##_fetch_xor(TY volatile* a, TY v, int mo) { atomPre((void*)a, sizeof *a, true, PC); TY r = __atomic_fetch_xor(a, v, 5); atomPost((void*)a, true, true, mo); return r; } \
    TY __tsan_atomic##bits##_fetch_nand(TY volatile* a, TY v, int mo) { atomPre((void*)a, sizeof *a, true, PC); TY r = __atomic_fetch_nand(a, v, 5); atomPost((void*)a, true, true, mo); return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(TY volatile* a, TY* e, TY v, int mo, int fmo) { atomPre((void*)a, sizeof *a, true, PC); int ok = __atomic_compare_exchange_n(a, e, v, 0, 5, 5); atomPost((void*)a, true, ok, ok ? mo : fmo); return ok; } \
    int __tsan_atomic##bits##_compare_exchange_weak(TY volatile* a, TY* e, TY v, int mo, int fmo) { atomPre((void*)a, sizeof *a, true, PC); int ok = __atomic_compare_exchange_n(a, e, v, 0, 5, 5); atomPost((void*)a, true, ok, ok ? mo : fmo); return ok; } \
    TY __tsan_atomic##bits##_compare_exchange_val(TY volatile* a, TY e, TY v, int mo, int fmo) { atomPre((void*)a, sizeof *a, true, PC); int ok = __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); atomPost((void*)a, true, ok, ok ? mo : fmo); return e; }
ATOM(8, u8) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int mo)
{
    if (!ctl()) return;
    point();
    if (isAcq(mo)) join(me(), G->fence);
    if (isRel(mo)) { join(G->fence, me()); tick(); }
}
void __tsan_atomic_signal_fence(int) {}

// locks
static int lockMutex(void* m, bool recursive, bool tryOnly)
{
    if (!G || !G->exec) return 0;
    point(m);
    auto* l = &lockOf(m);
    if (l->owner == G->cur) {
        if (recursive) { ++l->depth; return 0; }
        if (tryOnly) return EBUSY;
        violate("deadlock: thread %d locks a mutex it already holds", G->cur);
        if (G->cur) switchTo(0);
        return 0;
    }
    if (tryOnly && l->owner >= 0) return EBUSY;
    while (l->owner >= 0) {
        if (G->cur == 0) { violate("a lock is still held after every thread has finished"); return 0; }
        block(St::OnMutex, m);
    }
    l->owner = G->cur; l->depth = 1;
    join(me(), l->w);
    return 0;
}
static bool isRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t* m) { return lockMutex(m, isRecursive(m), false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return lockMutex(m, isRecursive(m), true); }
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!G || !G->exec) return 0;
    point(m);
    auto& l = lockOf(m);
    if (l.owner != G->cur) { violate("thread %d unlocks a mutex it does not hold", G->cur); return 0; }
    if (--l.depth > 0) return 0;
    l.w = me(); tick();
    l.owner = -1;
    return 0;
}
static int rdlock(void* m, bool tryOnly)
{
    if (!G || !G->exec) return 0;
    point(m);
    auto& l = lockOf(m);
    if (l.owner == G->cur || l.readers[G->cur]) {
        if (tryOnly && l.owner >= 0) return EBUSY;
        violate("thread %d takes a shared lock it already holds (undefined, can deadlock)", G->cur);
        if (G->cur) switchTo(0);
        return 0;
    }
    if (tryOnly && l.owner >= 0) return EBUSY;
    while (l.owner >= 0) {
        if (G->cur == 0) { violate("a lock is still held after every thread has finished"); return 0; }
        block(St::OnRead, m);
    }
    ++l.readers[G->cur]; ++l.nreaders;
    join(me(), l.w);
    return 0;
}
static int wrlock(void* m, bool tryOnly)
{
    if (!G || !G->exec) return 0;
    point(m);
    auto& l = lockOf(m);
    if (l.owner == G->cur || l.readers[G->cur]) {
        if (tryOnly) return EBUSY;
        violate("deadlock: thread %d locks exclusively what it already holds", G->cur);
        if (G->cur) switchTo(0);
        return 0;
    }
    if (tryOnly && (l.owner >= 0 || l.nreaders)) return EBUSY;
    while (l.owner >= 0 || l.nreaders) {
        if (G->cur == 0) { violate("a lock is still held after every thread has finished"); return 0; }
        block(St::OnWrite, m);
    }
    l.owner = G->cur; l.depth = 1;
    join(me(), l.w); join(me(), l.r);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rdlock(m, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return rdlock(m, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return wrlock(m, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return wrlock(m, true); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t, timespec const*) { return rdlock(m, true) ? ETIMEDOUT : 0; }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t, timespec const*) { return wrlock(m, true) ? ETIMEDOUT : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!G || !G->exec) return 0;
    point(m);
    auto& l = lockOf(m);
    if (l.owner == G->cur) { l.w = me(); tick(); l.owner = -1; memset(&l.r, 0, sizeof l.r); return 0; }
    if (!l.readers[G->cur]) { violate("thread %d unlocks a lock it does not hold", G->cur); return 0; }
    join(l.r, me()); tick();
    --l.readers[G->cur]; --l.nreaders;
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* m, pthread_rwlockattr_t const*) { memset(m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* m)
{
    if (G && G->exec) { auto& l = lockOf(m); if (l.owner >= 0 || l.nreaders) violate("a lock is destroyed while held"); }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (G && G->exec) { auto& l = lockOf(m); if (l.owner >= 0) violate("a lock is destroyed while held"); }
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!ctl()) return 0;
    pthread_mutex_unlock(m);
    if (!G->aborted) block(St::OnCond, c);
    return pthread_mutex_lock(m);
}
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, timespec const*) { if (ctl()) { pthread_mutex_unlock(m); yieldPoint(); pthread_mutex_lock(m); } return ETIMEDOUT; }
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, timespec const*) { if (ctl()) { pthread_mutex_unlock(m); yieldPoint(); pthread_mutex_lock(m); } return ETIMEDOUT; }
int pthread_cond_signal(pthread_cond_t* c) { if (ctl()) { point(); for (int t = 1; t <= G->nthreads; ++t) if (G->f[t].st == St::OnCond && G->f[t].on == c) { G->f[t].st = St::Ready; break; } } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (ctl()) { point(); for (int t = 1; t <= G->nthreads; ++t) if (G->f[t].st == St::OnCond && G->f[t].on == c) G->f[t].st = St::Ready; } return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int sched_yield() { yieldPoint(); return 0; }
int nanosleep(timespec const*, timespec*) { yieldPoint(); return 0; }
int clock_nanosleep(clockid_t, int, timespec const*, timespec*) { yieldPoint(); return 0; }

// static initialisation of function-local variables, and std::call_once
static Guard& guardOf(void* a)
{
    for (u32 i = 0; i < G->nGuards; ++i) if (G->guards[i].addr == a) return G->guards[i];
    if (G->nGuards == 256) { fprintf(stderr, "too many guards\n"); abort(); }
    Guard& g = G->guards[G->nGuards++]; memset(&g, 0, sizeof g); g.addr = a; g.owner = -1; return g;
}
int __cxa_guard_acquire(u8* p)
{
    if (*p) { if (ctl()) join(me(), guardOf(p).v); return 0; }
    if (!G || !G->exec) return 1;
    point();
    Guard* g = &guardOf(p);
    if (g->owner == G->cur) { violate("recursive initialisation of a static variable"); return 1; }
    while (g->owner >= 0) block(St::OnGuard, p);
    if (*p) { join(me(), g->v); return 0; }
    g->owner = G->cur;
    return 1;
}
void __cxa_guard_release(u8* p)
{
    if (G && G->exec) { auto& g = guardOf(p); g.owner = -1; g.v = me(); tick(); syncOf(p).v = g.v; }
    *p = 1;
}
void __cxa_guard_abort(u8* p) { if (G && G->exec) guardOf(p).owner = -1; }
int pthread_once(pthread_once_t* o, void (*fn)())
{
    if (*o == 2) { if (ctl()) join(me(), guardOf(o).v); return 0; }
    if (G && G->exec) {
        point();
        Guard* g = &guardOf(o);
        while (g->owner >= 0 && g->owner != G->cur) block(St::OnGuard, o);
        if (*o == 2) { join(me(), g->v); return 0; }
        g->owner = G->cur;
        try { fn(); } catch (...) { guardOf(o).owner = -1; throw; }
        g = &guardOf(o); g->owner = -1; g->v = me(); tick();
        *o = 2;
        return 0;
    }
    fn(); *o = 2;
    return 0;
}
// threads the program starts itself; outside of an exploration they run to their end at once
int pthread_create(pthread_t* id, pthread_attr_t const*, void* (*start)(void*), void* arg)
{
    if (!ctl()) { *id = (pthread_t)(0x1000); start(arg); return 0; }
    point();
    int t = 0;
    for (int i = 1; i <= G->nthreads && !t; ++i) if (G->f[i].joined) t = i;       // take the place of one that has ended
    if (!t && G->nthreads + 1 >= T) { violate("more threads than processors are started"); switchTo(0); }
    if (!t) t = ++G->nthreads;
    prepareFiber(t);
    auto& f = G->f[t];
    f.start = start; f.arg = arg;
    join(f.vc, me()); tick();
    if (++f.vc.c[t] > G->clockMax) G->clockMax = f.vc.c[t];
    G->spawned = true;
    *id = (pthread_t)(0x1000 + t);
    point();
    return 0;
}
int pthread_join(pthread_t id, void** ret)
{
    if (ret) *ret = nullptr;
    if (!ctl()) return 0;
    size_t t = (size_t)id - 0x1000;
    if (t == 0 || t > (size_t)G->nthreads || !G->f[t].start || G->f[t].joined) { violate("a thread is joined that does not exist"); return EINVAL; }
    point();
    while (G->f[t].st != St::Done) block(St::OnJoin, (void*)t);
    G->f[t].joined = true;
    join(me(), G->f[t].vc);
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self() { return (pthread_t)(0x1000 + (G ? G->cur : 0)); }
int clock_gettime(clockid_t c, timespec* t)
{
    if (G && G->exec) { t->tv_sec = 1; t->tv_nsec = 0; return 0; }      // the same in every execution
    return (int)syscall(SYS_clock_gettime, c, t);
}
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
unsigned _ZNSt6thread20hardware_concurrencyEv() { return sched::Processors; }
}  // extern "C"

// ---- allocation -----------------------------------------------------------------------------
static void* allocate(size_t n, size_t al)
{
    initState();
    void* p = (G->exec || !G->booted) ? heapAlloc(n, al) : (al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1));
    if (!p) throw std::bad_alloc();
    return p;
}
static void release(void* p) noexcept
{
    if (!p) return;
    if (!managed(p)) { free(p); return; }
    if (((u64*)p)[-2] != 0x5eedb10c5eedb10cull) { violate("release of memory that was not allocated"); return; }
    u64 n = ((u64*)p)[-1];
    if (G->exec && B(p) >= G->heap && B(p) < G->heap + HeapSize) {
        size_t i = (B(p) - G->heap) / 16, e = i + (n + 15) / 16 + (n ? 0 : 1);
        if (G->freed[i] == G->execNo) { violate("memory released twice by thread %d", G->cur); return; }
        if (n) acc(p, n, true, __builtin_return_address(0));
        for (; i < e; ++i) G->freed[i] = G->execNo;
    }
}
void* operator new(size_t n) { return allocate(n, 16); }
void* operator new[](size_t n) { return allocate(n, 16); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { try { return allocate(n, 16); } catch (...) { return nullptr; } }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { try { return allocate(n, 16); } catch (...) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a) { return allocate(n, std::max<size_t>(16, (size_t)a)); }
void* operator new[](size_t n, std::align_val_t a) { return allocate(n, std::max<size_t>(16, (size_t)a)); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { release(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { release(p); }

// ---- exploration ----------------------------------------------------------------------------
namespace sched {

void fail(std::string const& what) { violate("%s", what.c_str()); }

void boot()
{
    initState();
    dl_iterate_phdr(globalsCb, nullptr);
    G->cGlob = (Cell*)big((G->g1 - G->g0) * sizeof(Cell));
    for (auto& r : G->res) r = (char*)big(ResMax);
    __libc_single_threaded = 0;     // shared_ptr must count atomically
    G->booted = true;
}

namespace {
std::string result(int id) { return std::string(G->res[id], G->resLen[id]); }

uint64_t fnv(std::string const& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct Order { std::vector<int> pos; uint64_t outcome; };    // pos[op]: place in the sequential order

// One sequential execution: the calls in `order` on thread 0.
std::string sequential(Program const& p, std::vector<std::pair<int, int>> const& order, std::vector<int> const& base, int nops)
{
    restore();
    G->exec = true;
    try { p.setup(); } catch (...) { G->exec = false; throw; }
    std::string out;
    for (auto [t, i] : order) {
        int id = base[t] + i;
        std::string s;
        try { s = p.threads[t][i](); } catch (...) { s = "unexpected exception"; }
        G->resLen[id] = std::min(s.size(), ResMax);
        memcpy(G->res[id], s.data(), G->resLen[id]);
    }
    size_t finLen;
    char* finBuf = (char*)G->stacks;                 // a scratch area the snapshot does not cover
    { std::string s = p.final(); finLen = std::min(s.size(), ResMax); memcpy(finBuf, s.data(), finLen); }
    G->exec = false;
    for (int i = 0; i < nops; ++i) { out += result(i); out += '\x1f'; }
    out.append(finBuf, finLen);
    return out;
}
}  // namespace

Result explore(Program const& p, Options const& o)
{
    Result R;
    int n = (int)p.threads.size();
    if (n > T - 1) { fprintf(stderr, "too many threads\n"); abort(); }
    takeSnapshot();
    std::vector<int> base; int nops = 0;
    for (auto& t : p.threads) { base.push_back(nops); nops += (int)t.size(); }
    if (nops > (int)MaxOps) { fprintf(stderr, "too many calls\n"); abort(); }

    // every sequential order
    std::vector<Order> orders;
    std::vector<std::string> texts;
    std::vector<size_t> at(n, 0);
    std::vector<std::pair<int, int>> cur;
    std::string seqViolation;
    std::function<void()> rec = [&] {
        if ((int)cur.size() == nops) {
            auto s = sequential(p, cur, base, nops);
            if (G->aborted && seqViolation.empty()) seqViolation = std::string("even one call after the other: ") + G->msg;
            Order ord; ord.pos.resize(nops);
            for (int k = 0; k < nops; ++k) ord.pos[base[cur[k].first] + cur[k].second] = k;
            ord.outcome = fnv(s);
            orders.push_back(ord);
            if (texts.size() < 3) texts.push_back(s);
            return;
        }
        for (int t = 0; t < n; ++t) if (at[t] < p.threads[t].size()) {
            cur.push_back({t, (int)at[t]}); ++at[t];
            rec();
            --at[t]; cur.pop_back();
        }
    };
    rec();
    R.orders = orders.size();
    if (!seqViolation.empty()) { restore(); R.violation = seqViolation; return R; }

    std::unordered_set<uint64_t> seen;
    G->pathLen = 0;
    for (;;) {
        restore();
        G->exec = true;
        try { p.setup(); } catch (...) { G->exec = false; throw; }
        G->nthreads = n; G->bound = o.preemptions; G->counters = o.counters;
        for (int t = 1; t <= n; ++t) { G->prog[t] = &p.threads[t - 1]; G->opBase[t] = base[t - 1]; prepareFiber(t); }
        G->conc = true;
        schedule();                 // returns when every thread is done or something is wrong
        bool bad = G->aborted;
        G->conc = false;
        std::string out, violation;
        size_t finLen = 0;
        char* finBuf = (char*)G->stacks;
        if (!bad) {
            std::string s = p.final();
            finLen = std::min(s.size(), ResMax);
            memcpy(finBuf, s.data(), finLen);
            bad = G->aborted;
        }
        G->exec = false;
        ++R.executions; R.points += G->points; R.maxPoints = std::max(R.maxPoints, G->points);
        std::string msg;
        if (bad)
            msg = G->msg;
        else {
            for (int i = 0; i < nops; ++i) { out += result(i); out += '\x1f'; }
            out.append(finBuf, finLen);
            auto h = fnv(out);
            seen.insert(h);
            bool ok = false;
            for (auto& ord : orders) {
                if (ord.outcome != h) continue;
                bool fits = true;
                if (p.linearize)
                    for (int a = 0; a < nops && fits; ++a)
                        for (int b = 0; b < nops; ++b)
                            if (G->opEnd[a] < G->opStart[b] && ord.pos[a] > ord.pos[b]) { fits = false; break; }
                if (fits) { ok = true; break; }
            }
            if (!ok) {
                msg = "no sequential order of the calls gives these results: ";
                for (auto& c : out) msg += c == '\x1f' ? '|' : c;
                if (!texts.empty()) { msg += "   one order gives: "; for (auto& c : texts[0]) msg += c == '\x1f' ? '|' : c; }
            }
        }
        if (!msg.empty()) {
            std::string s = "schedule";
            for (size_t i = 0; i < G->pathLen && i < 60; ++i) s += (i ? "," : " ") + std::to_string(G->path[i].opt[G->path[i].taken]);
            R.violation = msg + " [" + s + "]";
            restore();
            return R;
        }
        if (G->pos < G->pathLen) { fprintf(stderr, "schedule is not deterministic (short)\n"); abort(); }
        // next schedule
        bool more = false;
        while (G->pathLen > 0) {
            auto& c = G->path[G->pathLen - 1];
            if (c.taken + 1 < c.n) { ++c.taken; more = true; break; }
            --G->pathLen;
        }
        if (!more) break;
        if (R.executions >= o.maxExecutions) { R.complete = false; break; }
    }
    restore();
    R.outcomes.assign(seen.begin(), seen.end());
    return R;
}

}  // namespace sched
