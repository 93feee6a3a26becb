// Stateless model-checking runtime. Compiled WITHOUT instrumentation; the code under test is compiled with
// -fsanitize=thread (only for the instrumentation calls) and linked against this file instead of libtsan.
// All mutable runtime state lives in mmap'ed memory, so that the program's .data/.bss can be restored
// before each execution.
#include "mc.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <immintrin.h>
#include <linux/futex.h>
#include <link.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <random>
#include <new>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

#define NOINL __attribute__((noinline))
#define RA() ((u32)(uintptr_t)__builtin_return_address(0))

// ------------------------------------------------------------------------------------------------ limits
constexpr int MAXT = 24;                 // threads per execution
constexpr int SIGAGE = 100;                // an armed signal comes at the latest at its thread's hundredth opportunity
constexpr int MAXKEY = 8; constexpr unsigned KEY0 = 100000;
constexpr int SPIN = 200;                // clock reads in a row (without changing anything) after which a thread is taken to wait for time to pass
constexpr size_t ARENA = 8 << 20;        // heap per thread
constexpr size_t STACK = 192 << 10;
constexpr size_t SLOT = ARENA + STACK;
constexpr size_t WORLD = SLOT * MAXT;
constexpr int MAXCH = 8192;              // choice points per execution
constexpr int MAXALT = 40;
constexpr int MAXEV = 4096;
constexpr int MAXOBJ = 1 << 15;          // sync objects per execution (open addressing)
constexpr int MAXLEARN = 1 << 14;
constexpr size_t PHEAP = 1024ul << 20;
constexpr u64 OPCAP = 30000000;          // plain accesses per execution before it is called non-terminating
constexpr int NSLOT = 5;

enum Kind : u8 { K_NONE, K_START, K_LOCK, K_TRYLOCK, K_UNLOCK, K_CVWAIT, K_CVWAKE, K_SIGNAL, K_BCAST, K_CVDESTROY, K_ALOAD, K_ASTORE,
    K_ARMW, K_FENCE, K_FWAIT, K_FWAKE, K_JOIN, K_CREATE, K_END, K_SLEEP, K_YIELD, K_ONCE, K_GUARD, K_LOG, K_CHOOSE, K_CLOCK,
    K_AWAIT, K_SET, K_RDLOCK, K_WRLOCK, K_RWUNLOCK, K_ADVANCE, K_SPURIOUS, K_TIMEOUT, K_DETACH, K_SIGNAL_IN, K_N };
static const char* const KN[] = { "none","start","lock","trylock","unlock","cv-wait","cv-woken","notify-one","notify-all","cv-destroy","load","store",
    "rmw","fence","futex-wait","futex-wake","join","create","end","sleep","yield","once","guard","log","choose","clock",
    "await","set","rdlock","wrlock","rwunlock","advance-time","spurious-wake","timeout","detach","signal-handler" };

enum TState : u8 { T_FREE, T_READY, T_BLOCKED, T_DONE };
enum BlockOn : u8 { B_NONE, B_LOCK, B_CV, B_FUTEX, B_JOIN, B_SLEEP, B_ONCE, B_FLAG, B_RD, B_WR };
static const char* const BN[] = { "-","mutex","condition variable","futex/atomic wait","thread join","sleep","once/static init","harness flag","rdlock","wrlock" };

struct VC { u32 c[MAXT]; };

struct Obj {                      // a synchronisation object, keyed by address
    u64 addr; u32 gen;
    int16_t owner;                // mutex owner / writer, -1 none
    int16_t readers;              // rwlock readers
    u16 toucher;                  // first thread + 1
    u8 nwait;                     // waiters (cv / futex) in arrival order
    u8 once;                      // 0 fresh 1 running 2 done
    u8 waiters[MAXT];
    u64 wh, rs;                   // hashes: last write event, sum of reads since
    VC vc; bool has_vc;
};

struct Thread {
    void* sp; u64 fs; u8* tls_lo;
    u8 state, block, tflag; bool timed, timed_out, woken, detached, joined;
    int id; u64 deadline; Obj* on; int join_target; int flag;
    int lastk; u64 lastload; u64 lastwh; int loadrep; u64 lastrmw, lastrmwh; int rmwrep; int yields; int idle; int spins; u64 spin0; u64 stuck; // spins: clock reads since it last did anything else
   
    u64 chain; VC vc; VC acq; VC rel; bool has_acq, has_rel;
    void* (*fn)(void*); void* arg; void* ret;
    size_t abrk; 
    int ndt; struct { void (*f)(void*); void* a; } dt[32]; void* keyv[MAXKEY];
    u8 kind; u64 kobj;
    Obj tobj;                     // thread object (join)
    u8 npend, pend[4]; u8 sigage; u64 sigmask; bool intr; u8 intrsig; // signals that may still interrupt this thread; those being handled; one interrupts its blocking call
};

struct Slot { u32 clk; u32 pc; u8 tid, mask, fl, pad; };       // fl: 1 write, 2 atomic
struct Cell { u32 gen; Slot s[NSLOT]; };
static_assert(sizeof(Cell) == 64, "cell");

struct Ch { u8 n, chosen; u8 p, t, s; u8 cost[MAXALT]; };       // p,t,s: budget used before this point

struct Result {                   // shared with the parent
    int status;                   // 0 running, 1 complete, 2 capped, 3 violation, 4 internal error, 5 replay finished without violation
    char kind[64]; char msg[6000];
    int nch; u8 ch[MAXCH];        // schedule in progress
    u64 execs, points, states, transitions, pruned, restarts, maxsteps, race_checks, maxmem, maxch;
    int bound_done; int maxthreads; u64 outcomes; u64 wall_us; int capped; int bounds_used[3];
    u64 first_execs; char sample[1500]; char sample2[1500];
    int nlrn, trypoints; u64 lrn[MAXLEARN / 2];   // learned shared sync addresses
};

struct G {
    bool ready, in_exec, in_rt; int fsgs;
    u8* world; Cell* wcell; u8* astate; // astate: addressability per 8-byte granule of each arena
    u8* data_lo; u8* data_hi; u8* snap; Cell* dcell;
    u32 gen;
    Thread th[MAXT]; int nth; int cur;
    void* expl_sp; u64 expl_fs;
    u8* tls_img; size_t tls_size;
    Obj objs[MAXOBJ]; int nobj; int nkeys; void (*keyd[MAXKEY])(void*);
    u64 learn[MAXLEARN]; int nlearn; bool grew, quiet; u64 pend[1024]; int npend; bool trypend;
    Obj logobj, timeobj, flagobj[64]; bool flags[64];
    int fault_tid, fault_alloc, fault_thread; // the fault_alloc-th allocation and the fault_thread-th thread creation of this thread fail (0: none)
    u64 now; u64 total; u64 steps; u64 progress; // progress: writes and clock advances so far
     u64 plain; u64 out;
    Ch ch[MAXCH]; int nch, prefix; bool replay; bool stop_exec; int endreason;
    int bp, bt, bs;
    int up, ut, us; u64 lkey, ltotal, lnow, lsteps;
    mc::Scenario* sc; mc::Bounds b;
    mc::Event ev[MAXEV]; int nev;
    u64* vkey; u8* vval; u64 vcap, vn;
    u64* okey; u64 ocap, on;
    void (*sig[65])(int);
    Result* R; bool trace; FILE* tf; bool deadlock_ok;
    uint32_t (*rnd)();
    bool thorough; bool trypoints; void (*endfn)(void*); void* endarg;
    u8* ph; size_t phbrk; void* fl[64];
    mc::Scenario* scs; int nscs, capscs;
    u64 t0; u64 wd_exec; int wd_n;
    char comment[256];
};

static G* g = nullptr;
static void boot();

// ------------------------------------------------------------------------------------------------ raw helpers
static inline long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f; long r;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static inline u64 get_fs() { u64 v; asm volatile("mov %%fs:0, %0" : "=r"(v)); return v; }
static inline void set_fs(u64 v) {
    if (g->fsgs) asm volatile("wrfsbase %0" ::"r"(v) : "memory");
    else rsys(SYS_arch_prctl, 0x1002, (long)v);
}
static u64 rnow_us() { struct timespec ts; rsys(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts); return ts.tv_sec * 1000000ull + ts.tv_nsec / 1000; }
static inline u64 mix(u64 a, u64 b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; a ^= a >> 32; a *= 0xc4ceb9fe1a85ec53ull; a ^= a >> 29; return a; }

extern "C" void mc_switch(void** save, void* load);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  push %rbp
  push %rbx
  push %r12
  push %r13
  push %r14
  push %r15
  sub $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  mov %rsp,(%rdi)
  mov %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  add $8,%rsp
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbx
  pop %rbp
  ret
)");

// ------------------------------------------------------------------------------------------------ persistent heap
static int cls(size_t n) { int c = 4; while ((1ul << c) < n) c++; return c; }
static void* pmalloc(size_t n, size_t al = 16) {
    boot();
    if (al < 16) al = 16;
    if (al == 16) {
        int c = cls(n + 16);
        if (g->fl[c]) { void* p = g->fl[c]; g->fl[c] = *(void**)p; ((u64*)p)[-2] = n; return p; }
        u8* b = g->ph + g->phbrk; g->phbrk += (1ul << c);
        if (g->phbrk > PHEAP) { rsys(SYS_write, 2, (long)"mc: persistent heap exhausted\n", 30); _exit(9); }
        ((u64*)b)[0] = n; ((u64*)b)[1] = c; return b + 16;
    }
    uintptr_t p = (uintptr_t)(g->ph + g->phbrk) + 16; p = (p + al - 1) & ~(al - 1); g->phbrk = (u8*)p - g->ph + ((n + 15) & ~15ul);
    ((u64*)p)[-2] = n; ((u64*)p)[-1] = 0; return (void*)p;
}
static void pfree(void* p) { u64 c = ((u64*)p)[-1]; if (!c) return; *(void**)p = g->fl[c]; g->fl[c] = p; }
static bool in_pheap(void* p) { return (u8*)p >= g->ph && (u8*)p < g->ph + PHEAP; }

// ------------------------------------------------------------------------------------------------ violations
static void dump_end(const char* kind, const char* msg, int status) {
    Result* R = g->R;
    snprintf(R->kind, sizeof R->kind, "%s", kind);
    snprintf(R->msg, sizeof R->msg, "%s", msg);
    R->status = status;
    if (g->tf) { fprintf(g->tf, "=> %s: %s\n", kind, msg); fflush(g->tf); }
    rsys(SYS_exit_group, 3);
    __builtin_unreachable();
}
static void record_progress() { Result* R = g->R; R->nch = g->nch; for (int i = 0; i < g->nch; i++) R->ch[i] = g->ch[i].chosen; }
static void describe_threads(char* buf, size_t n) {
    size_t o = 0; buf[0] = 0;
    for (int i = 0; i < g->nth && o + 120 < n; i++) {
        Thread& t = g->th[i];
        if (t.state == T_DONE) continue;
        o += snprintf(buf + o, n - o, "%sT%d %s%s%s", o ? ", " : "", i, t.state == T_BLOCKED ? "blocked on " : "at ", t.state == T_BLOCKED ? BN[t.block] : KN[t.kind], t.timed ? " (timed)" : "");
    }
}
[[noreturn]] NOINL static void violation(const char* kind, const char* fmt, ...) {
    char buf[5000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    g->in_exec = false;
    record_progress();
    dump_end(kind, buf, 3);
    __builtin_unreachable();
}
[[noreturn]] NOINL static void internal(const char* fmt, ...) {
    char buf[2000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    g->in_exec = false; record_progress();
    dump_end("internal", buf, 4);
    __builtin_unreachable();
}

// ------------------------------------------------------------------------------------------------ arena
static inline size_t ast_index(size_t off) { return (off / SLOT) * (ARENA / 8) + (off % SLOT) / 8; }
static void* amalloc(size_t n, size_t al = 16) {
    Thread& t = g->th[g->cur];
    size_t b = t.abrk + 32; b = (b + al - 1) & ~(al - 1);
    if (b + n + 32 > ARENA) violation("no termination", "thread T%d has allocated more than %zu bytes", g->cur, ARENA);
    u8* p = g->world + SLOT * g->cur + b;
    ((u64*)p)[-2] = n; ((u64*)p)[-1] = 0xA110C;
    size_t i0 = ast_index(p - g->world), k = n / 8;
    for (size_t i = 0; i < k; i++) g->astate[i0 + i] = 8;
    if (n % 8) g->astate[i0 + k] = n % 8;
    memset(p, 0xCD, n);
    t.abrk = b + ((n + 7) & ~7ul);
    return p;
}
static inline bool in_arena(const void* p) { size_t o = (u8*)p - g->world; return o < WORLD && o % SLOT < ARENA; }
static void access(u64 addr, size_t size, int fl, u32 pc);
static void afree(void* p, bool race, u32 pc) {
    u64* h = (u64*)p;
    if (h[-1] == 0xDEAD) violation("double free", "block of %lu bytes freed twice (pc=0x%x)", h[-2], pc);
    if (h[-1] != 0xA110C) violation("bad free", "free of a pointer that was not allocated (pc=0x%x)", pc);
    size_t n = h[-2];
    if (race && n) for (size_t i = 0; i < n; i += 8) access((u64)p + i, n - i >= 8 ? 8 : n - i, 1, pc);
    h[-1] = 0xDEAD;
    size_t i0 = ast_index((u8*)p - g->world);
    for (size_t i = 0; i < (n + 7) / 8; i++) g->astate[i0 + i] = 0x80;
}
static void* gmalloc(size_t n, size_t al = 16) { if (g && g->in_exec && !g->in_rt) return amalloc(n, al); return pmalloc(n, al); }
static void gfree(void* p, bool race, u32 pc) {
    if (!p) return;
    if (in_pheap(p)) { if (!g->in_exec) pfree(p); return; }
    if (in_arena(p)) { if (g->in_exec) afree(p, race, pc); return; }
    if (g->in_exec) violation("bad free", "free of a pointer outside any heap (pc=0x%x)", pc);
}
static size_t msize(void* p) { return ((u64*)p)[-2]; }

extern "C" {
void* malloc(size_t n) { return gmalloc(n); }
void free(void* p) { gfree(p, false, RA()); }
void* calloc(size_t a, size_t b) { void* p = gmalloc(a * b); memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) { if (!p) return gmalloc(n); void* q = gmalloc(n); size_t o = msize(p); memcpy(q, p, o < n ? o : n); gfree(p, false, RA()); return q; }
void* memalign(size_t al, size_t n) { return gmalloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return gmalloc(n, al); }
int posix_memalign(void** r, size_t al, size_t n) { *r = gmalloc(n, al); return 0; }
size_t malloc_usable_size(void* p) { return p ? msize(p) : 0; }
}
static bool fault(int& left) { return g && g->in_exec && !g->in_rt && g->cur == g->fault_tid && left > 0 && --left == 0; }
void* operator new(size_t n) { if (g && fault(g->fault_alloc)) throw std::bad_alloc(); return gmalloc(n); }
void* operator new[](size_t n) { if (g && fault(g->fault_alloc)) throw std::bad_alloc(); return gmalloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return gmalloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return gmalloc(n); }
void* operator new(size_t n, std::align_val_t a) { return gmalloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return gmalloc(n, (size_t)a); }
void operator delete(void* p) noexcept { gfree(p, true, RA()); }
void operator delete[](void* p) noexcept { gfree(p, true, RA()); }
void operator delete(void* p, size_t) noexcept { gfree(p, true, RA()); }
void operator delete[](void* p, size_t) noexcept { gfree(p, true, RA()); }
void operator delete(void* p, std::align_val_t) noexcept { gfree(p, true, RA()); }
void operator delete[](void* p, std::align_val_t) noexcept { gfree(p, true, RA()); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { gfree(p, true, RA()); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { gfree(p, true, RA()); }
void operator delete(void* p, const std::nothrow_t&) noexcept { gfree(p, true, RA()); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { gfree(p, true, RA()); }

// ------------------------------------------------------------------------------------------------ plain accesses: races and addressability
static inline Cell* cell_of(u64 a) {
    size_t o = a - (u64)g->world;
    if (o < WORLD) return &g->wcell[o / 8];
    o = a - ((u64)g->data_lo & ~7ull);
    if (a >= (u64)g->data_lo && a < (u64)g->data_hi) return &g->dcell[o / 8];
    return nullptr;
}
[[noreturn]] NOINL static void report_race(u64 a, const Slot& s, int fl, u32 pc) {
    violation("data race", "%s%s by T%d (pc=0x%x) and earlier %s%s by T%d (pc=0x%x) are unordered, address offset %s", fl & 2 ? "atomic " : "", fl & 1 ? "write" : "read", g->cur, pc,
              s.fl & 2 ? "atomic " : "", s.fl & 1 ? "write" : "read", s.tid, s.pc, (a - (u64)g->world) < WORLD ? ((a - (u64)g->world) % SLOT < ARENA ? "heap" : "stack") : "static");
}
[[noreturn]] NOINL static void report_bad(u64 a, u8 st, int fl, u32 pc) {
    violation(st & 0x80 ? "use after free" : "out-of-bounds access", "%s at pc=0x%x by T%d of %s memory", fl & 1 ? "write" : "read", pc, g->cur, st & 0x80 ? "freed" : "unallocated");
}
static inline void access1(u64 a, u8 mask, int fl, u32 pc) {
    Cell* c = cell_of(a);
    if (!c) return;
    Thread& t = g->th[g->cur];
    if (c->gen != g->gen) { c->gen = g->gen; memset(c->s, 0, sizeof c->s); }
    int hit = -1, freeslot = -1, old = -1;
    u32 clk = t.vc.c[g->cur];
    for (int i = 0; i < NSLOT; i++) {
        Slot& s = c->s[i];
        if (!s.mask) { if (freeslot < 0) freeslot = i; continue; }
        bool hb = s.tid == g->cur || s.clk <= t.vc.c[s.tid];
        if (!hb) {
            if ((s.mask & mask) && ((s.fl | fl) & 1) && !((s.fl & fl) & 2)) report_race(a, s, fl, pc);
            continue;
        }
        if (s.tid == g->cur && s.mask == mask && s.fl == fl) { hit = i; }
        else if ((s.mask & ~mask) == 0 && ((fl & 1) || !(s.fl & 1)) && (!(fl & 2) || (s.fl & 2))) { old = i; } // dominated by this access
    }
    int w = hit >= 0 ? hit : old >= 0 ? old : freeslot;
    if (w < 0) { // evict one that happened before us, else any
        for (int i = 0; i < NSLOT; i++) { Slot& s = c->s[i]; if (s.tid == g->cur || s.clk <= t.vc.c[s.tid]) { w = i; break; } }
        if (w < 0) w = pc % NSLOT;
    }
    c->s[w] = Slot{clk, pc, (u8)g->cur, mask, (u8)fl, 0};
}
static void access(u64 a, size_t size, int fl, u32 pc) {
    if (!g->in_exec) return;
    if (++g->plain > OPCAP) violation("no termination", "more than %lu memory accesses in one execution: a loop does not end (pc=0x%x)", OPCAP, pc);
    size_t o = a - (u64)g->world;
    if (o < WORLD && o % SLOT < ARENA) {
        size_t i0 = ast_index(o); u8 st = g->astate[i0]; size_t e = (a & 7) + size;
        if (st & 0x80 || (e <= 8 ? e > st : st != 8)) report_bad(a, st, fl, pc);
        if (e > 8) { u8 s2 = g->astate[i0 + (e - 1) / 8]; if (s2 & 0x80 || ((e - 1) & 7) + 1 > s2) report_bad(a, s2, fl, pc); }
    }
    while (size) {
        size_t in = a & 7, n = 8 - in < size ? 8 - in : size;
        access1(a, (u8)(((1u << n) - 1) << in), fl, pc);
        a += n; size -= n;
    }
}
static inline void chk_addr(const void* p, const char* what, u32 pc) {
    size_t o = (u8*)p - g->world;
    if (o < WORLD && o % SLOT < ARENA) { u8 st = g->astate[ast_index(o)]; if (st & 0x80 || !st) violation("use after free", "%s on %s memory by T%d (pc=0x%x)", what, st ? "freed" : "unallocated", g->cur, pc); }
}

#define RW(sz) \
    extern "C" void __tsan_read##sz(void* p) { access((u64)p, sz, 0, RA()); } \
    extern "C" void __tsan_write##sz(void* p) { access((u64)p, sz, 1, RA()); } \
    extern "C" void __tsan_unaligned_read##sz(void* p) { access((u64)p, sz, 0, RA()); } \
    extern "C" void __tsan_unaligned_write##sz(void* p) { access((u64)p, sz, 1, RA()); } \
    extern "C" void __tsan_volatile_read##sz(void* p) { access((u64)p, sz, 0, RA()); } \
    extern "C" void __tsan_volatile_write##sz(void* p) { access((u64)p, sz, 1, RA()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read_range(void* p, unsigned long n) { if (n) access((u64)p, n, 0, RA()); }
void __tsan_write_range(void* p, unsigned long n) { if (n) access((u64)p, n, 1, RA()); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((u64)p, 8, 1, RA()); }
void __tsan_vptr_read(void** p) { access((u64)p, 8, 0, RA()); }
}

// ------------------------------------------------------------------------------------------------ objects, hashing
static void obj_reset(Obj* o, u64 addr) {
    o->addr = addr; o->gen = g->gen; o->owner = -1; o->readers = 0; o->toucher = 0; o->nwait = 0; o->once = 0; o->wh = mix(0x51ed, addr); o->rs = 0; o->has_vc = false; memset(&o->vc, 0, sizeof o->vc);
}
static Obj* obj(u64 addr) {
    u32 h = (u32)(mix(addr, 1) & (MAXOBJ - 1));
    for (;;) {
        Obj* o = &g->objs[h];
        if (o->gen != g->gen) { if (++g->nobj > MAXOBJ * 3 / 4) internal("too many sync objects"); obj_reset(o, addr); return o; }
        if (o->addr == addr) return o;
        h = (h + 1) & (MAXOBJ - 1);
    }
}
static bool learned(u64 addr) {
    u32 h = (u32)(mix(addr, 7) & (MAXLEARN - 1));
    for (;;) { if (!g->learn[h]) return false; if (g->learn[h] == addr) return true; h = (h + 1) & (MAXLEARN - 1); }
}
static void learn_now(u64 addr) {
    u32 h = (u32)(mix(addr, 7) & (MAXLEARN - 1));
    for (;;) { if (!g->learn[h]) break; if (g->learn[h] == addr) return; h = (h + 1) & (MAXLEARN - 1); }
    if (++g->nlearn > MAXLEARN / 2) internal("too many shared sync addresses");
    g->learn[h] = addr; if (g->R) g->R->lrn[g->R->nlrn++] = addr;
}
// A newly shared address takes effect only when the exploration restarts, so that one execution has one set.
static void learn(u64 addr) { if (!g->sc->seq && !learned(addr) && g->npend < 1024) { g->pend[g->npend++] = addr; g->grew = true; } }
static void merge_learned() { for (int i = 0; i < g->npend; i++) learn_now(g->pend[i]); g->npend = 0; if (g->trypend) { g->trypoints = true; g->R->trypoints = 1; } }
static void touch(Obj* o) {
    u16 me = g->cur + 1;
    if (!o->toucher) o->toucher = me;
    else if (o->toucher != me && o->toucher != 0xffff) { o->toucher = 0xffff; learn(o->addr); }
}
static void trace_op(int tid, Kind k, u64 addr, i64 v) {
    if (!g->tf) return;
    fprintf(g->tf, "%5lu T%-2d t=%-10lu %-13s", g->steps, tid, g->now, KN[k]);
    if (addr) { size_t o = addr - (u64)g->world; if (o < WORLD) fprintf(g->tf, " T%zu:%s+0x%zx", o / SLOT, o % SLOT < ARENA ? "heap" : "stack", o % SLOT < ARENA ? o % SLOT : o % SLOT - ARENA); else if (addr > 64) fprintf(g->tf, " static:0x%lx", addr); }
    if (v) fprintf(g->tf, " %ld", v);
    fprintf(g->tf, "\n");
}
// Commits an event of the current thread on object o (mode 0 read, 1 write) into the happens-before hash.
static void to_explorer();
static void commit(Kind k, Obj* o, bool write, i64 v = 0) {
    Thread& t = g->th[g->cur];
    u64 e = mix(mix(t.chain, k), (u64)v);
    if (o) { e = mix(e, o->addr); e = mix(e, write ? mix(o->wh, o->rs) : o->wh); if (write) { o->wh = e; o->rs = 0; } else o->rs += e; }
    t.chain = e; g->total += e; g->steps++;
    if (k != K_YIELD && k != K_ALOAD) t.yields = 0;
    if (k != K_YIELD && k != K_ALOAD && k != K_CLOCK) t.idle = 0;
    if (write) { t.spins = 0; t.spin0 = 0; g->progress++; }
    if (g->tf) trace_op(g->cur, k, o ? o->addr : 0, v);
    if (g->deadlock_ok && g->steps > 5000) { g->endreason = 3; to_explorer(); } // (waiting for ever by polling)
    if (g->steps > (u64)g->sc->step_limit) { char b[1500]; describe_threads(b, sizeof b); violation("no termination", "execution exceeds %ld synchronisation steps at virtual time %lu ns: %s", (long)g->sc->step_limit, g->now, b); }
}

// ------------------------------------------------------------------------------------------------ scheduler
static inline bool enabled(Thread& t) {
    if (t.state == T_READY) return true;
    if (t.state != T_BLOCKED) return false;
    if (t.intr) return true;
    switch (t.block) {
    case B_LOCK: return t.on->owner < 0;
    case B_RD: return t.on->owner < 0 || (t.timed && g->now >= t.deadline);
    case B_WR: return (t.on->owner < 0 && t.on->readers == 0) || (t.timed && g->now >= t.deadline);
    case B_JOIN: return g->th[t.join_target].state == T_DONE;
    case B_SLEEP: return g->now >= t.deadline;
    case B_ONCE: return t.on->once != 1;
    case B_FLAG: return g->flags[t.flag];
    case B_CV: case B_FUTEX: return t.woken || (t.timed && g->now >= t.deadline);
    }
    return false;
}
static bool budget_ok(int cost, int p, int tt, int s) { return cost == 0 || (cost == 1 && p < g->bp) || (cost == 2 && tt < g->bt) || (cost == 3 && s < g->bs); }

// returns true if the state was already explored with at least this budget
static bool visit(u64 key, int rem) {
    if (g->vn * 10 > g->vcap * 7) {
        u64 nc = g->vcap * 2; u64* nk = (u64*)mmap(0, nc * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); u8* nv = (u8*)mmap(0, nc, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        for (u64 i = 0; i < g->vcap; i++) if (g->vkey[i]) { u64 h = g->vkey[i] & (nc - 1); while (nk[h]) h = (h + 1) & (nc - 1); nk[h] = g->vkey[i]; nv[h] = g->vval[i]; }
        munmap(g->vkey, g->vcap * 8); munmap(g->vval, g->vcap); g->vkey = nk; g->vval = nv; g->vcap = nc;
    }
    if (!key) key = 1;
    u64 h = key & (g->vcap - 1);
    while (g->vkey[h]) { if (g->vkey[h] == key) { if (g->vval[h] >= rem) return true; g->vval[h] = rem; return false; } h = (h + 1) & (g->vcap - 1); }
    g->vkey[h] = key; g->vval[h] = rem; g->vn++; return false;
}
static void seen_outcome(u64 key) {
    if (!key) key = 1;
    if (g->on * 2 > g->ocap) return;
    u64 h = key & (g->ocap - 1);
    while (g->okey[h]) { if (g->okey[h] == key) return; h = (h + 1) & (g->ocap - 1); }
    g->okey[h] = key; g->on++;
}
static void to_explorer() {
    void* dummy; g->in_exec = false;
    set_fs(g->expl_fs);
    mc_switch(&dummy, g->expl_sp);
    __builtin_unreachable();
}
// Records a choice among n alternatives with given costs; returns the chosen index.
static int decide(int n, const u8* cost, u64 key) {
    if (n <= 0) internal("empty choice");
    bool real = false; // is any alternative other than the first affordable?
    for (int i = 1; i < n; i++) if (budget_ok(cost[i], g->up, g->ut, g->us)) { real = true; break; }
    if (!real && !budget_ok(cost[0], g->up, g->ut, g->us)) internal("unaffordable default");
    if (!real || g->quiet) return 0;
    // a second point with nothing in between is the same point: the thread has just been chosen to continue
    if (key == g->lkey && g->total == g->ltotal && g->now == g->lnow && g->steps == g->lsteps) return 0;
    g->lkey = key; g->ltotal = g->total; g->lnow = g->now; g->lsteps = g->steps;
    if (g->nch >= MAXCH) violation("no termination", "more than %d scheduling decisions", MAXCH);
    Ch& c = g->ch[g->nch];
    if (g->nch < g->prefix) {
        if (!g->replay && (c.n != n || memcmp(c.cost, cost, n))) internal("divergence while replaying a prefix at choice %d: %d alternatives, expected %d", g->nch, n, c.n);
        if (g->replay) { if (c.chosen >= n) internal("replay choice out of range"); }
        c.n = n; memcpy(c.cost, cost, n); c.p = g->up; c.t = g->ut; c.s = g->us;
    } else {
        if (!g->replay) {
            int rem = g->bp - g->up;
            u64 k = mix(mix(mix(key, g->total), (u64)(g->bt - g->ut) * 16 + (g->bs - g->us)), g->now);
            if (visit(k, rem + 1)) { g->R->pruned++; g->endreason = 2; to_explorer(); }
        }
        c.n = n; c.chosen = 0; memcpy(c.cost, cost, n); c.p = g->up; c.t = g->ut; c.s = g->us;
        g->R->points++;
    }
    g->R->ch[g->nch] = c.chosen; g->R->nch = g->nch + 1;
    g->nch++;
    int ct = cost[c.chosen];
    if (ct == 1) g->up++; else if (ct == 2) g->ut++; else if (ct == 3) g->us++;
    return c.chosen;
}
static u64 next_deadline() {
    u64 d = ~0ull;
    for (int i = 0; i < g->nth; i++) { Thread& t = g->th[i]; if (t.state == T_BLOCKED && t.timed && !t.woken && t.deadline > g->now && t.deadline < d) d = t.deadline; }
    return d;
}
static void advance(u64 to) {
    if (to > (1ull << 61)) violation("no termination", "virtual time ran away");
    g->progress++; g->now = to; g->timeobj.wh = mix(mix(g->timeobj.wh, g->timeobj.rs), to); g->timeobj.rs = 0; g->total += g->timeobj.wh;
    if (g->tf) fprintf(g->tf, "%5lu     time advances to %lu\n", g->steps, to);
}
// Time passes from `from` to `to` while nothing that becomes due in between gets to run.
static void jump(u64 from, u64 to) {
    g->timeobj.wh = mix(mix(g->timeobj.wh, 0x1a7e), from); advance(to);
    if (g->nev < MAXEV) g->ev[g->nev++] = mc::Event{-1, mc::LATE, (i64)g->now, (i64)from, (i64)to, 0};
}
static void switch_to(int n) {
    if (n == g->cur) return;
    int me = g->cur; g->cur = n;
    set_fs(g->th[n].fs);
    mc_switch(&g->th[me].sp, g->th[n].sp);
}
// ---- asynchronous signals: an armed signal may interrupt its thread at any scheduling point and in any blocking call
static void run_handler(int s) {
    Thread& t = g->th[g->cur]; Thread save = t; commit(K_SIGNAL_IN, &g->flagobj[62], false, s); if (g->tf) fprintf(g->tf, "%5lu     signal %d interrupts T%d\n", g->steps, s, g->cur);
    t.sigmask |= 1ull << s; t.state = T_READY; t.block = B_NONE; t.timed = false; t.lastk = 0; t.loadrep = 0; t.on = nullptr;
    void (*h)(int) = g->sig[s]; int e = errno; if (h && h != SIG_IGN) h(s); else if (!h) violation("unhandled signal", "signal %d is delivered with the default action: the process dies", s);
    errno = e; commit(K_SIGNAL_IN, nullptr, true, 99); t.sigmask &= ~(1ull << s); t.block = save.block; t.state = save.state; t.on = save.on; t.timed = save.timed; t.deadline = save.deadline; t.flag = save.flag; t.join_target = save.join_target; t.kind = save.kind; t.kobj = save.kobj; t.lastk = 0; t.loadrep = 0; t.timed_out = save.timed_out;
}
static int take_pending(Thread& t, int i) { t.sigage = 0; int s = t.pend[i]; memmove(t.pend + i, t.pend + i + 1, t.npend - i - 1); t.npend--; return s; }
static int pending_at(Thread& t) { for (int i = 0; i < t.npend; i++) if (!(t.sigmask >> t.pend[i] & 1)) return i; return -1; }
static bool maybe_interrupt() { // a running thread is about to do something: does the signal come now?
    Thread& t = g->th[g->cur]; if (!t.npend || t.state != T_READY || g->quiet) return false;
    int i = pending_at(t); if (i < 0) return false;
    u8 cost[MAXALT] = {}; if (t.sigage < SIGAGE && !decide(2, cost, 0x519a0 + g->cur)) { t.sigage++; return false; }
    run_handler(take_pending(t, i)); return true;
}
// Chooses who runs next. Called on the current fiber, whose state/block fields describe what it waits for.
static void schedule_(bool forced_yield);
static void schedule(bool forced_yield = false) { do schedule_(forced_yield); while (maybe_interrupt()); }
static void schedule_(bool forced_yield) {
    for (;;) {
        int alt[MAXALT]; u8 cost[MAXALT]; u8 what[MAXALT]; int n = 0;
        Thread& me = g->th[g->cur];
        bool self = enabled(me);
        bool others = false;
        if (self && !forced_yield) { alt[n] = g->cur; cost[n] = 0; what[n] = 0; n++; }
        for (int k = 1; k < g->nth; k++) { int i = (g->cur + k) % g->nth; if (enabled(g->th[i]) && !(forced_yield && g->th[i].stuck == g->progress)) { alt[n] = i; cost[n] = (self && !forced_yield) || (g->sc->delay && n > 0) ? 1 : 0; what[n] = 0; n++; others = true; } }
        if (forced_yield && !others && self) { alt[n] = g->cur; cost[n] = 0; what[n] = 0; n++; }
        bool runnable = n > 0;
        for (int i = 0; i < g->nth && n < MAXALT; i++) { Thread& t = g->th[i]; if (t.npend && t.state == T_BLOCKED && !t.intr && !enabled(t) && pending_at(t) >= 0) { alt[n] = i; cost[n] = 0; what[n] = 4; n++; } }
        if (!runnable && n > 0 && g->th[alt[0]].sigage >= SIGAGE) { n = 1; int only = alt[0]; Thread& t = g->th[only]; t.intr = true; t.intrsig = take_pending(t, pending_at(t)); t.chain = mix(t.chain, K_SIGNAL_IN); g->total += t.chain; continue; } // (it comes in the end)
        u64 d = next_deadline();
        if (!runnable) {
            if (n == 0 && d == ~0ull) {
                if (g->deadlock_ok) { g->endreason = 3; to_explorer(); }
                char b[2500]; describe_threads(b, sizeof b);
                violation("deadlock", "no thread can continue: %s", b);
            }
            if (d != ~0ull && n < MAXALT) { alt[n] = -1; cost[n] = 0; what[n] = 1; n++;
            for (size_t k = 0; k < g->sc->late.size() && n < MAXALT; k++) { alt[n] = (int)k; cost[n] = 2; what[n] = 2; n++; } }
        } else if (d != ~0ull && g->bt > 0 && !g->sc->idle_time && n < MAXALT) { alt[n] = -1; cost[n] = 2; what[n] = 1; n++; }
        if (g->bs > 0) for (int i = 0; i < g->nth && n < MAXALT; i++) { Thread& t = g->th[i]; if (t.state == T_BLOCKED && t.block == B_CV && !t.woken) { alt[n] = i; cost[n] = 3; what[n] = 3; n++; } }
        int c = n == 1 ? 0 : decide(n, cost, self && !forced_yield ? g->cur + 1 : 0);
        if (what[c] == 1) { for (int i = 0; i < n; i++) if (what[i] == 4) g->th[alt[i]].sigage++; advance(d); continue; }
        if (what[c] == 4) { Thread& t = g->th[alt[c]]; t.intr = true; t.intrsig = take_pending(t, pending_at(t)); t.chain = mix(t.chain, K_SIGNAL_IN); g->total += t.chain; continue; }
        if (what[c] == 2) { jump(d, d + g->sc->late[alt[c]]); continue; }
        if (what[c] == 3) { Thread& t = g->th[alt[c]]; // spurious wake-up
            Obj* o = t.on; for (int i = 0; i < o->nwait; i++) if (o->waiters[i] == alt[c]) { memmove(o->waiters + i, o->waiters + i + 1, o->nwait - i - 1); o->nwait--; break; }
            t.woken = true; t.timed_out = false; t.chain = mix(t.chain, K_SPURIOUS); g->total += t.chain; o->wh = mix(o->wh, t.chain);
            if (g->tf) fprintf(g->tf, "%5lu     spurious wake-up of T%d\n", g->steps, alt[c]);
            continue; }
        if (forced_yield && alt[c] != g->cur) me.yields = 0;
        switch_to(alt[c]);
        return;
    }
}
// Scheduling point before an operation of kind k on object o.
static void point(Kind k, Obj* o) {
    Thread& t = g->th[g->cur];
    t.kind = k;
    if (o && o->addr > 64 && !learned(o->addr)) { while (maybe_interrupt()) {} return; }
    schedule();
}
static void block(BlockOn b, Obj* o, bool timed = false, u64 deadline = 0) {
    Thread& t = g->th[g->cur];
    t.state = T_BLOCKED; t.block = b; t.on = o; t.timed = timed; t.deadline = deadline; t.spins = 0; t.spin0 = 0;
    for (;;) {
        schedule_(false);
        if (!t.intr) break;
        t.intr = false; // a signal handler runs in the middle of the blocking call
        if ((b == B_FUTEX || b == B_CV) && !t.woken) { for (int i = 0; i < o->nwait; i++) if (o->waiters[i] == g->cur) { memmove(o->waiters + i, o->waiters + i + 1, o->nwait - i - 1); o->nwait--; break; } run_handler(t.intrsig); t.woken = true; t.timed_out = false; break; } // (the call returns: EINTR or a spurious wake-up)
        bool w = t.woken; run_handler(t.intrsig); t.woken = w; if (enabled(t)) break;
    }
    t.state = T_READY; t.block = B_NONE; t.timed = false;
    while (maybe_interrupt()) {}
}

// ------------------------------------------------------------------------------------------------ vector clocks
static inline void vjoin(VC& a, const VC& b) { for (int i = 0; i < g->nth; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static inline void tick() { g->th[g->cur].vc.c[g->cur]++; }
static inline void acquire(Obj* o) { if (o->has_vc) vjoin(g->th[g->cur].vc, o->vc); }
static inline void release_set(Obj* o) { o->vc = g->th[g->cur].vc; o->has_vc = true; tick(); }
static inline void release_join(Obj* o) { if (!o->has_vc) { release_set(o); return; } vjoin(o->vc, g->th[g->cur].vc); tick(); }

// A thread that does nothing but look at atomics (loads, failed or useless read-modify-writes) waits for somebody: the others go first, and time passes if nobody else can.
static const int IDLE = 64;
extern "C" { static void spin(); }

// ------------------------------------------------------------------------------------------------ atomics
static inline bool is_acq(int m) { m &= 0xff; return m == __ATOMIC_ACQUIRE || m == __ATOMIC_CONSUME || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int m) { m &= 0xff; return m == __ATOMIC_RELEASE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static Obj* a_pre(Kind k, const volatile void* p, u32 pc) {
    chk_addr((const void*)p, "atomic operation", pc);
    Obj* o = obj((u64)p); Thread& t = g->th[g->cur];
    if (t.idle > IDLE && (t.idle & 15) == 0) { spin(); }
    if (k == K_ALOAD) {
        if (t.lastk == K_ALOAD && t.lastload == (u64)p && t.lastwh == o->wh) { if (++t.loadrep > 3) { touch(o); return o; } }
        else t.loadrep = 0;
        point(k, o);
        t.lastk = k; t.lastload = (u64)p; t.lastwh = o->wh;
    } else { point(k, o); t.lastk = k; }
    touch(o);
    return o;
}
static void a_load_done(Obj* o, int mo) {
    Thread& t = g->th[g->cur]; t.idle++;
    if (t.loadrep <= 3) commit(K_ALOAD, o, false);
    if (is_acq(mo)) acquire(o); else if (o->has_vc) { if (!t.has_acq) memset(&t.acq, 0, sizeof t.acq); vjoin(t.acq, o->vc); t.has_acq = true; }
}
static void a_store_done(Obj* o, int mo) {
    Thread& t = g->th[g->cur];
    commit(K_ASTORE, o, true);
    if (is_rel(mo)) release_set(o); else if (t.has_rel) { o->vc = t.rel; o->has_vc = true; } else o->has_vc = false;
}
static void a_rmw_done(Obj* o, int mo, bool useless) {
    Thread& t = g->th[g->cur];
    if (useless) { // an exchange that changes nothing (a spin lock that is taken): repeated, with nobody else writing, it is the same event
        int idle = t.idle + 1, spins = t.spins; u64 spin0 = t.spin0, progress = g->progress; bool same = t.lastrmw == o->addr && t.lastrmwh == o->wh;
        if (same) t.rmwrep++; else t.rmwrep = 0;
        if (t.rmwrep <= 3) commit(K_ARMW, o, true);
        g->progress = progress; t.idle = idle; t.spins = spins; t.spin0 = spin0; t.lastrmw = o->addr; t.lastrmwh = o->wh;
    } else commit(K_ARMW, o, true);
    if (is_acq(mo)) acquire(o); else if (o->has_vc) { if (!t.has_acq) memset(&t.acq, 0, sizeof t.acq); vjoin(t.acq, o->vc); t.has_acq = true; }
    if (is_rel(mo)) release_join(o); else if (t.has_rel) { if (!o->has_vc) { memset(&o->vc, 0, sizeof o->vc); o->has_vc = true; } vjoin(o->vc, t.rel); }
}
#define ATOMICS(N, T) \
extern "C" T __tsan_atomic##N##_load(const volatile T* p, int mo) { if (!g->in_exec) return *p; Obj* o = a_pre(K_ALOAD, p, RA()); access((u64)p, N / 8, 2, RA()); T v = *p; a_load_done(o, mo); return v; } \
extern "C" void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { if (!g->in_exec) { *p = v; return; } Obj* o = a_pre(K_ASTORE, p, RA()); access((u64)p, N / 8, 3, RA()); *p = v; a_store_done(o, mo); } \
static T rmw##N(volatile T* p, T (*f)(T, T), T x, int mo, u32 pc) { if (!g->in_exec) { T o = *p; *p = f(o, x); return o; } Obj* o = a_pre(K_ARMW, p, pc); access((u64)p, N / 8, 3, pc); T v = *p, w = f(v, x); *p = w; a_rmw_done(o, mo, v == w); return v; } \
extern "C" T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return rmw##N(p, [](T, T b) -> T { return b; }, v, mo, RA()); } \
extern "C" T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return rmw##N(p, [](T a, T b) -> T { return a + b; }, v, mo, RA()); } \
extern "C" T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return rmw##N(p, [](T a, T b) -> T { return a - b; }, v, mo, RA()); } \
extern "C" T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return rmw##N(p, [](T a, T b) -> T { return a & b; }, v, mo, RA()); } \
extern "C" T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return rmw##N(p, [](T a, T b) -> T { return a | b; }, v, mo, RA()); } \
extern "C" T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return rmw##N(p, [](T a, T b) -> T { return a ^ b; }, v, mo, RA()); } \
extern "C" T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return rmw##N(p, [](T a, T b) -> T { return ~(a & b); }, v, mo, RA()); } \
static int cas##N(volatile T* p, T* e, T d, int mo, int fmo, u32 pc) { \
    if (!g->in_exec) { if (*p == *e) { *p = d; return 1; } *e = *p; return 0; } \
    Obj* o = a_pre(K_ARMW, p, pc); access((u64)p, N / 8, *p == *e ? 3 : 2, pc); T v = *p; \
    if (v == *e) { *p = d; a_rmw_done(o, mo, v == d); return 1; } Thread& t = g->th[g->cur]; if (t.lastrmw == o->addr && t.lastrmwh == o->wh) t.rmwrep++; else t.rmwrep = 0; t.lastrmw = o->addr; t.lastrmwh = o->wh; t.loadrep = t.rmwrep > 3 ? 4 : 0; *e = v; a_load_done(o, fmo); t.loadrep = 0; return 0; } \
extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { return cas##N(p, e, d, mo, fmo, RA()); } \
extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { return cas##N(p, e, d, mo, fmo, RA()); } \
extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { cas##N(p, &e, d, mo, fmo, RA()); return e; }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)
typedef unsigned __int128 u128;
ATOMICS(128, u128)
extern "C" void __tsan_atomic_thread_fence(int mo) {
    if (!g->in_exec) return;
    Thread& t = g->th[g->cur];
    if (is_acq(mo) && t.has_acq) { vjoin(t.vc, t.acq); t.has_acq = false; }
    if (is_rel(mo)) { t.rel = t.vc; t.has_rel = true; tick(); }
}
extern "C" void __tsan_atomic_signal_fence(int) {}
// std::atomic<std::shared_ptr> tells about the lock bit it keeps in its pointer: it unlocks with relaxed order, so the happens-before edges come from here.
extern "C" {
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void* m, unsigned fl, int) { if (g->in_exec && !(fl & 0x20 /* try lock failed */)) acquire(obj((u64)m | 1ull << 63)); }
int __tsan_mutex_pre_unlock(void* m, unsigned) { if (g->in_exec) release_join(obj((u64)m | 1ull << 63)); return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
}

// ------------------------------------------------------------------------------------------------ mutexes
static void mlock(Obj* o) {
    touch(o);
    if (o->owner >= 0) {
        if (o->owner == g->cur) violation("deadlock", "T%d locks a mutex it already holds", g->cur);
        block(B_LOCK, o);
    }
    if (o->owner >= 0) internal("lock granted while owned");
    o->owner = g->cur; commit(K_LOCK, o, true); acquire(o);
}
static void munlock(Obj* o, u32 pc) {
    if (o->owner != g->cur) violation("mutex misuse", "T%d unlocks a mutex it does not hold (pc=0x%x)", g->cur, pc);
    touch(o);
    o->owner = -1; commit(K_UNLOCK, o, true); release_set(o);
}
// A failed attempt: repeated, with nobody else changing the object, it is the same event; again and again, it is waiting.
static void look(Kind k, Obj* o) {
    Thread& t = g->th[g->cur]; int idle = t.idle + 1, yields = t.yields; bool same = t.lastrmw == o->addr && t.lastrmwh == o->wh;
    if (same) t.rmwrep++; else t.rmwrep = 0;
    t.lastrmw = o->addr; t.lastrmwh = o->wh; if (t.rmwrep <= 3) commit(k, o, false, 1);
    t.idle = idle; t.yields = yields; if (idle > IDLE && (idle & 15) == 0) { spin(); }
}
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
#define RT(expr_if_not) if (!g || !g->in_exec) { expr_if_not; }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { RT(return 0) chk_addr(m, "mutex lock", RA()); Obj* o = obj((u64)m); g->th[g->cur].lastk = 0; point(K_LOCK, o); if (o->owner == g->cur && recursive(m)) { o->readers++; commit(K_LOCK, o, true, 2); return 0; } mlock(o); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { RT(return 0) chk_addr(m, "mutex trylock", RA()); if (!g->trypoints) { g->trypend = true; g->grew = true; } Obj* o = obj((u64)m); g->th[g->cur].lastk = 0; point(K_TRYLOCK, o); touch(o);
    if (o->owner == g->cur && recursive(m)) { o->readers++; commit(K_TRYLOCK, o, true, 2); return 0; } if (o->owner >= 0) { look(K_TRYLOCK, o); return EBUSY; } o->owner = g->cur; commit(K_TRYLOCK, o, true); acquire(o); return 0; }
static u64 abs_deadline(clockid_t c, const struct timespec* ts);
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { RT(return 0) chk_addr(m, "mutex lock", RA()); Obj* o = obj((u64)m); g->th[g->cur].lastk = 0; point(K_LOCK, o); touch(o); if (o->owner == g->cur && recursive(m)) { o->readers++; commit(K_LOCK, o, true, 2); return 0; }
    if (o->owner >= 0) { Thread& t = g->th[g->cur]; u64 d = abs_deadline(c, ts);
        while (o->owner >= 0 && g->now < d) { /* timed lock: wait until free or deadline */ t.state = T_BLOCKED; t.block = B_SLEEP; t.timed = true; t.deadline = d; t.on = o; commit(K_LOCK, o, false, 1); schedule(); t.state = T_READY; t.timed = false; }
        if (o->owner >= 0) return ETIMEDOUT; }
    o->owner = g->cur; commit(K_LOCK, o, true); acquire(o); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts); }
int pthread_mutex_unlock(pthread_mutex_t* m) { RT(return 0) chk_addr(m, "mutex unlock", RA()); Obj* o = obj((u64)m); if (g->trypoints) point(K_UNLOCK, o); g->th[g->cur].lastk = 0; if (o->owner == g->cur && o->readers > 0) { o->readers--; commit(K_UNLOCK, o, true, 2); return 0; } munlock(o, RA()); return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); int kind = 0; if (a) pthread_mutexattr_gettype(a, &kind); m->__data.__kind = kind; if (g && g->in_exec) { Obj* o = obj((u64)m); o->owner = -1; o->readers = 0; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { RT(return 0) Obj* o = obj((u64)m); if (o->owner >= 0) violation("mutex misuse", "mutex destroyed while held by T%d", o->owner); return 0; }

// rwlocks
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { RT(return 0) chk_addr(m, "rwlock", RA()); Obj* o = obj((u64)m); point(K_RDLOCK, o); touch(o); if (o->owner == g->cur) return EDEADLK; if (o->owner >= 0) block(B_RD, o); o->readers++; commit(K_RDLOCK, o, true); acquire(o); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { RT(return 0) chk_addr(m, "rwlock", RA()); Obj* o = obj((u64)m); point(K_WRLOCK, o); touch(o); if (o->owner == g->cur) return EDEADLK; if (o->owner >= 0 || o->readers) block(B_WR, o); o->owner = g->cur; commit(K_WRLOCK, o, true); acquire(o); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { RT(return 0) Obj* o = obj((u64)m); point(K_RDLOCK, o); touch(o); if (o->owner >= 0) { look(K_RDLOCK, o); return EBUSY; } o->readers++; commit(K_RDLOCK, o, true); acquire(o); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { RT(return 0) Obj* o = obj((u64)m); point(K_WRLOCK, o); touch(o); if (o->owner >= 0 || o->readers) { look(K_WRLOCK, o); return EBUSY; } o->owner = g->cur; commit(K_WRLOCK, o, true); acquire(o); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { RT(return 0) Obj* o = obj((u64)m); point(K_RWUNLOCK, o); touch(o); if (o->owner == g->cur) { o->owner = -1; commit(K_RWUNLOCK, o, true); release_set(o); } else { if (o->readers <= 0) violation("mutex misuse", "rwlock unlock without lock"); o->readers--; commit(K_RWUNLOCK, o, true); release_join(o); } return 0; }
static int rw_timed(pthread_rwlock_t* m, bool wr, u64 d, u32 pc) {
    chk_addr(m, "rwlock", pc); Obj* o = obj((u64)m); Thread& t = g->th[g->cur]; t.lastk = 0; point(wr ? K_WRLOCK : K_RDLOCK, o); touch(o); if (o->owner == g->cur) return EDEADLK;
    while ((o->owner >= 0 || (wr && o->readers)) && g->now < d) { commit(wr ? K_WRLOCK : K_RDLOCK, o, false, 1); t.deadline = d; t.timed = true; block(wr ? B_WR : B_RD, o, true, d); }
    if (o->owner >= 0 || (wr && o->readers)) { commit(K_TIMEOUT, o, false, 1); commit(K_CLOCK, &g->timeobj, false); return ETIMEDOUT; }
    if (wr) o->owner = g->cur; else o->readers++;
    commit(wr ? K_WRLOCK : K_RDLOCK, o, true); acquire(o); return 0;
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* ts) { RT(return 0) return rw_timed(m, false, abs_deadline(c, ts), RA()); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* ts) { RT(return 0) return rw_timed(m, true, abs_deadline(c, ts), RA()); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec* ts) { RT(return 0) return rw_timed(m, false, abs_deadline(CLOCK_REALTIME, ts), RA()); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* ts) { RT(return 0) return rw_timed(m, true, abs_deadline(CLOCK_REALTIME, ts), RA()); }
int pthread_rwlock_init(pthread_rwlock_t*, const pthread_rwlockattr_t*) { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }

// ------------------------------------------------------------------------------------------------ condition variables
static int cv_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, u64 deadline, u32 pc) {
    chk_addr(c, "condition wait", pc); chk_addr(m, "condition wait mutex", pc);
    Obj* co = obj((u64)c); Obj* mo = obj((u64)m); Thread& t = g->th[g->cur]; t.lastk = 0;
    point(K_CVWAIT, co);
    if (mo->owner != g->cur) violation("mutex misuse", "T%d waits on a condition variable without holding the mutex (pc=0x%x)", g->cur, pc);
    touch(co); touch(mo);
    commit(K_CVWAIT, co, true, timed ? (i64)deadline : 0);
    mo->owner = -1; commit(K_UNLOCK, mo, true); release_set(mo);
    co->waiters[co->nwait++] = g->cur; t.woken = false; t.timed_out = false;
    block(B_CV, co, timed, deadline);
    int r = 0;
    if (!t.woken) { // timed out
        for (int i = 0; i < co->nwait; i++) if (co->waiters[i] == g->cur) { memmove(co->waiters + i, co->waiters + i + 1, co->nwait - i - 1); co->nwait--; break; }
        commit(K_TIMEOUT, co, true); commit(K_CLOCK, &g->timeobj, false); r = ETIMEDOUT;
    } else { t.woken = false; }
    if (mo->owner >= 0) block(B_LOCK, mo); else point(K_LOCK, mo);
    if (mo->owner >= 0) block(B_LOCK, mo);
    mo->owner = g->cur; commit(K_LOCK, mo, true); acquire(mo);
    return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { RT(return 0) return cv_wait(c, m, false, 0, RA()); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { RT(return 0) return cv_wait(c, m, true, abs_deadline(CLOCK_REALTIME, ts), RA()); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { RT(return 0) return cv_wait(c, m, true, abs_deadline(k, ts), RA()); }
static void wake(Obj* o, int idx) {
    int w = o->waiters[idx]; memmove(o->waiters + idx, o->waiters + idx + 1, o->nwait - idx - 1); o->nwait--;
    Thread& t = g->th[w]; t.woken = true; t.chain = mix(t.chain, mix(o->wh, K_CVWAKE));
}
static int pick_waiter(Obj* o) { // any waiter may be the one woken
    if (o->nwait <= 1) return 0;
    u8 cost[MAXALT]; memset(cost, g->sc->delay ? 1 : 0, sizeof cost); cost[0] = 0;
    return decide(o->nwait, cost, 0x7a0 + g->cur);
}
int pthread_cond_signal(pthread_cond_t* c) { RT(return 0) chk_addr(c, "notify", RA()); Obj* o = obj((u64)c); g->th[g->cur].lastk = 0; point(K_SIGNAL, o); touch(o); int i = pick_waiter(o); commit(K_SIGNAL, o, true, o->nwait ? o->waiters[i] + 1 : 0); if (o->nwait) wake(o, i); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { RT(return 0) chk_addr(c, "notify", RA()); Obj* o = obj((u64)c); g->th[g->cur].lastk = 0; point(K_BCAST, o); touch(o); commit(K_BCAST, o, true, o->nwait); while (o->nwait) wake(o, 0); return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { RT(return 0) Obj* o = obj((u64)c); if (o->nwait) violation("condition variable misuse", "condition variable destroyed while %d thread(s) wait on it", o->nwait); return 0; }

// ------------------------------------------------------------------------------------------------ time
static const u64 MONO0 = 1000ull * 1000000000ull, REAL0 = 1700000000ull * 1000000000ull;
static inline u64 clock_base(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL0 : MONO0; }
static u64 abs_deadline(clockid_t c, const struct timespec* ts) {
    if (ts->tv_sec < 0) return 0;
    if (ts->tv_sec > 4000000000ll) return 1ull << 60;
    u64 a = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec, b = clock_base(c); return a > b ? a - b : 0;
}
// A thread that reads the clock over and over without blocking waits for a time to come: time passes, though no faster than anyone else allows.
static void spin() {
    Thread& t = g->th[g->cur];
    t.stuck = g->progress; // (nothing to see for it until something changes)
    schedule(true); if (g->progress != t.stuck) return;
    for (int i = 0; i < g->nth; i++) if (i != g->cur && enabled(g->th[i]) && g->th[i].stuck != g->progress) return;
    if (!t.spin0) t.spin0 = g->now;
    u64 to = g->now + std::max<u64>(1000, (g->now - t.spin0) / 8); jump(g->now, std::min(to, next_deadline()));
}
static u64 read_clock() {
    Thread& t = g->th[g->cur]; t.lastk = 0; if (++t.spins > SPIN && g->sc->tick == 0) spin();
    if (g->sc->tick > 0) { schedule(); advance(g->now + g->sc->tick); }
    else if (!g->sc->jumps.empty() && g->bt > g->ut) {
        t.kind = K_CLOCK; u8 cost[MAXALT]; memset(cost, 2, sizeof cost); cost[0] = 0; int c = decide(1 + (int)g->sc->jumps.size(), cost, 0x9c10c + g->cur);
        if (c) jump(g->now, g->now + g->sc->jumps[c - 1]);
    }
    commit(K_CLOCK, &g->timeobj, false);
    return g->now;
}
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
    if (!g || !g->in_exec) return (int)rsys(SYS_clock_gettime, c, (long)ts);
    u64 v = read_clock() + clock_base(c); ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull; return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* p) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
static void vsleep(u64 deadline) {
    Thread& t = g->th[g->cur]; t.lastk = 0; t.kind = K_SLEEP;
    commit(K_SLEEP, &g->timeobj, false, (i64)deadline);
    if (g->now >= deadline) { schedule(); return; }
    block(B_SLEEP, nullptr, true, deadline);
    commit(K_CLOCK, &g->timeobj, false);
}
int nanosleep(const struct timespec* ts, struct timespec*) { if (!g || !g->in_exec) return (int)rsys(SYS_nanosleep, (long)ts, 0); vsleep(g->now + std::max<u64>(1, (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec)); return 0; } // (even sleeping for nothing takes time)
int clock_nanosleep(clockid_t c, int fl, const struct timespec* ts, struct timespec* rem) {
    if (!g || !g->in_exec) return (int)-rsys(SYS_clock_nanosleep, c, fl, (long)ts, (long)rem);
    vsleep(fl & TIMER_ABSTIME ? abs_deadline(c, ts) : g->now + std::max<u64>(1, (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec)); return 0;
}
int usleep(useconds_t us) { struct timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&ts, nullptr); }
int poll(struct pollfd* f, nfds_t n, int ms) { if (!g || !g->in_exec) return (int)rsys(SYS_poll, (long)f, n, ms); if (n || ms < 0) internal("poll of files"); vsleep(g->now + std::max<u64>(1, ms * 1000000ull)); return 0; }
unsigned sleep(unsigned s) { struct timespec ts{(time_t)s, 0}; nanosleep(&ts, nullptr); return 0; }
static int do_yield() {
    Thread& t = g->th[g->cur]; t.kind = K_YIELD;
    if (++t.yields > 12) { t.lastk = 0; spin(); }
    return 0;
}
int sched_yield(void) noexcept { if (!g || !g->in_exec) return 0; return do_yield(); }

// ------------------------------------------------------------------------------------------------ futex
long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
    if (n != SYS_futex || !g || !g->in_exec) { long r = rsys(n, a[0], a[1], a[2], a[3], a[4], a[5]); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
    int op = (int)a[1] & FUTEX_CMD_MASK; u32* p = (u32*)a[0]; Thread& t = g->th[g->cur]; t.lastk = 0;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        chk_addr(p, "futex wait", RA());
        Obj* o = obj((u64)p); point(K_FWAIT, o); touch(o);
        if (*p != (u32)a[2]) { commit(K_FWAIT, o, false, 1); errno = EAGAIN; return -1; }
        const struct timespec* ts = (const struct timespec*)a[3]; u64 d = 0;
        if (ts) d = op == FUTEX_WAIT ? g->now + (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec : abs_deadline((int)a[1] & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
        commit(K_FWAIT, o, true, 2 + (i64)d);
        o->waiters[o->nwait++] = g->cur; t.woken = false;
        block(B_FUTEX, o, ts != nullptr, d);
        if (!t.woken) {
            for (int i = 0; i < o->nwait; i++) if (o->waiters[i] == g->cur) { memmove(o->waiters + i, o->waiters + i + 1, o->nwait - i - 1); o->nwait--; break; }
            commit(K_TIMEOUT, o, true); errno = ETIMEDOUT; return -1;
        }
        t.woken = false; commit(K_CVWAKE, nullptr, true);
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        Obj* o = obj((u64)p); point(K_FWAKE, o); touch(o); long k = 0, want = (int)a[2];
        commit(K_FWAKE, o, true, o->nwait);
        while (o->nwait && k < want) { wake(o, k + 1 < want && o->nwait <= want - k ? 0 : pick_waiter(o)); k++; }
        return k;
    }
    internal("unsupported futex operation %d", op);
}
// semaphores, spin locks and barriers of POSIX: the value lives in the object's own memory
int sem_init(sem_t* s, int, unsigned v) noexcept { memset(s, 0, sizeof *s); *(u32*)s = v; return 0; }
int sem_destroy(sem_t* s) noexcept { RT(return 0) Obj* o = obj((u64)s); if (o->nwait) violation("semaphore misuse", "semaphore destroyed while %d thread(s) wait on it", o->nwait); return 0; }
static int sem_take(sem_t* s, bool timed, u64 d, u32 pc) {
    chk_addr(s, "semaphore wait", pc); Obj* o = obj((u64)s); Thread& t = g->th[g->cur]; t.lastk = 0; point(K_FWAIT, o); touch(o);
    while (*(u32*)s == 0) {
        if (timed && g->now >= d) { commit(K_TIMEOUT, o, true); commit(K_CLOCK, &g->timeobj, false); errno = ETIMEDOUT; return -1; }
        commit(K_FWAIT, o, true, timed ? 2 + (i64)d : 0); o->waiters[o->nwait++] = g->cur; t.woken = false; block(B_FUTEX, o, timed, d);
        if (!t.woken) for (int i = 0; i < o->nwait; i++) if (o->waiters[i] == g->cur) { memmove(o->waiters + i, o->waiters + i + 1, o->nwait - i - 1); o->nwait--; break; }
        t.woken = false;
    }
    --*(u32*)s; commit(K_FWAIT, o, true, 1); acquire(o); return 0;
}
int sem_wait(sem_t* s) { RT(return 0) return sem_take(s, false, 0, RA()); }
int sem_timedwait(sem_t* s, const struct timespec* ts) { RT(return 0) return sem_take(s, true, abs_deadline(CLOCK_REALTIME, ts), RA()); }
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts) { RT(return 0) return sem_take(s, true, abs_deadline(c, ts), RA()); }
int sem_trywait(sem_t* s) noexcept { RT(return 0) chk_addr(s, "semaphore wait", RA()); Obj* o = obj((u64)s); g->th[g->cur].lastk = 0; point(K_FWAIT, o); touch(o); if (!*(u32*)s) { look(K_FWAIT, o); errno = EAGAIN; return -1; } --*(u32*)s; commit(K_FWAIT, o, true, 1); acquire(o); return 0; }
int sem_post(sem_t* s) noexcept { RT(++*(u32*)s; return 0) chk_addr(s, "semaphore post", RA()); Obj* o = obj((u64)s); g->th[g->cur].lastk = 0; point(K_FWAKE, o); touch(o); ++*(u32*)s; int i = pick_waiter(o); commit(K_FWAKE, o, true, o->nwait ? o->waiters[i] + 1 : 0); release_join(o); if (o->nwait) wake(o, i); return 0; }
int sem_getvalue(sem_t* s, int* v) noexcept { RT(*v = *(int*)s; return 0) Obj* o = obj((u64)s); g->th[g->cur].lastk = 0; point(K_FWAIT, o); touch(o); *v = *(int*)s; commit(K_FWAIT, o, false, 4); return 0; }
int pthread_spin_init(pthread_spinlock_t* m, int) noexcept { *m = 0; if (g && g->in_exec) obj((u64)m)->owner = -1; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) noexcept { return 0; }
int pthread_spin_lock(pthread_spinlock_t* m) noexcept { RT(return 0) chk_addr((const void*)m, "spin lock", RA()); Obj* o = obj((u64)m); g->th[g->cur].lastk = 0; point(K_LOCK, o); mlock(o); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* m) noexcept { RT(return 0) chk_addr((const void*)m, "spin lock", RA()); Obj* o = obj((u64)m); g->th[g->cur].lastk = 0; point(K_WRLOCK, o); touch(o); if (o->owner >= 0) { look(K_WRLOCK, o); return EBUSY; } o->owner = g->cur; commit(K_WRLOCK, o, true); acquire(o); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* m) noexcept { RT(return 0) Obj* o = obj((u64)m); point(K_RWUNLOCK, o); g->th[g->cur].lastk = 0; munlock(o, RA()); return 0; }
int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) noexcept { memset(b, 0, sizeof *b); ((u32*)b)[0] = n; return n ? 0 : EINVAL; }
int pthread_barrier_destroy(pthread_barrier_t*) noexcept { return 0; }
int pthread_barrier_wait(pthread_barrier_t* b) noexcept {
    RT(return 0) chk_addr(b, "barrier wait", RA()); u32* w = (u32*)b; Obj* o = obj((u64)b); Thread& t = g->th[g->cur]; t.lastk = 0; point(K_FWAIT, o); touch(o); commit(K_FWAIT, o, true, 5); release_join(o);
    if (++w[1] == w[0]) { w[1] = 0; w[2]++; acquire(o); while (o->nwait) wake(o, 0); return PTHREAD_BARRIER_SERIAL_THREAD; }
    u32 round = w[2]; while (w[2] == round) { o->waiters[o->nwait++] = g->cur; t.woken = false; block(B_FUTEX, o); if (!t.woken) internal("barrier"); t.woken = false; }
    commit(K_CVWAKE, nullptr, true); acquire(o); return 0;
}

// ------------------------------------------------------------------------------------------------ threads
static void fiber_main() {
    Thread& t = g->th[g->cur];
    t.state = T_READY; commit(K_START, &t.tobj, true); acquire(&t.tobj);
    t.ret = t.fn(t.arg);
    while (t.npend) run_handler(take_pending(t, 0));
    while (t.ndt) { t.ndt--; t.dt[t.ndt].f(t.dt[t.ndt].a); }
    for (int round = 0, more = 1; more && round < 4; round++) { more = 0; for (int k = 0; k < g->nkeys; k++) if (void* v = t.keyv[k]) { t.keyv[k] = nullptr; if (g->keyd[k]) { g->keyd[k](v); more = 1; } } }
    if (g->cur == 0) { g->endreason = 1; to_explorer(); }
    t.state = T_DONE; t.kind = K_END; release_join(&t.tobj); commit(K_END, &t.tobj, true);
    schedule();
    internal("finished thread resumed");
}
static void fiber_entry() {
    fiber_main();
}
static int new_thread(void* (*fn)(void*), void* arg) {
    if (g->nth >= MAXT) violation("no termination", "more than %d threads are started", MAXT);
    int id = g->nth++; Thread& t = g->th[id]; u64 fs = t.fs; u8* lo = t.tls_lo;
    memset(&t, 0, sizeof t); t.fs = fs; t.tls_lo = lo; t.id = id; t.fn = fn; t.arg = arg; t.state = T_READY; t.kind = K_START; t.abrk = 64;
    memcpy(lo, g->tls_img, g->tls_size);
    obj_reset(&t.tobj, 0x20 + 0); t.tobj.addr = 0x1000 + id; t.tobj.wh = mix(0x7b, id);
    u8* top = g->world + SLOT * id + SLOT; u64* s = (u64*)top; s -= 3; *s = 0; *--s = (u64)&fiber_entry; // aligned so that rsp%16==8 at entry
    s -= 6; memset(s, 0, 48); s -= 1; ((u32*)s)[0] = 0x1f80; ((u16*)s)[2] = 0x37f; t.sp = s;
    t.vc.c[id] = 1;
    return id;
}
int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept {
    if (!g || !g->in_exec) { auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create"); return real(out, a, fn, arg); }
    g->th[g->cur].lastk = 0;
    if (fault(g->fault_thread)) return EAGAIN;
    int id = new_thread(fn, arg); Thread& t = g->th[id]; Thread& me = g->th[g->cur];
    commit(K_CREATE, &t.tobj, true, id);
    // thread ids are handed out in creation order: creations are ordered against each other
    commit(K_CREATE, &g->flagobj[63], true, id);
    t.chain = mix(me.chain, 0x5ec0de + id);
    vjoin(t.vc, me.vc); tick();
    *out = (pthread_t)t.fs;
    schedule();       // the new thread may run at once
    return 0;
}
static int by_handle(pthread_t p) { for (int i = 0; i < g->nth; i++) if (g->th[i].fs == (u64)p) return i; return -1; }
int pthread_join(pthread_t p, void** ret) {
    if (!g || !g->in_exec) { auto real = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join"); return real(p, ret); }
    g->th[g->cur].lastk = 0;
    int id = by_handle(p); if (id < 0) violation("thread misuse", "join of an unknown thread");
    if (id == g->cur) return EDEADLK;
    Thread& t = g->th[id]; Thread& me = g->th[g->cur];
    if (t.joined || t.detached) violation("thread misuse", "thread joined twice or after detach");
    if (t.state != T_DONE) { me.join_target = id; block(B_JOIN, nullptr); }
    t.joined = true; commit(K_JOIN, &t.tobj, true); acquire(&t.tobj);
    if (ret) *ret = t.ret;
    return 0;
}
int pthread_detach(pthread_t p) noexcept {
    if (!g || !g->in_exec) { auto real = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach"); return real(p); }
    int id = by_handle(p); if (id >= 0) { g->th[id].detached = true; commit(K_DETACH, &g->th[id].tobj, true); } return 0;
}
// thread-specific data: keys made in an execution live as long as it
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) noexcept { if (!g || !g->in_exec) { auto real = (int (*)(pthread_key_t*, void (*)(void*)))dlsym(RTLD_NEXT, "pthread_key_create"); return real(k, d); } if (g->nkeys >= MAXKEY) internal("too many thread-specific keys"); g->keyd[g->nkeys] = d; *k = KEY0 + g->nkeys++; commit(K_SET, &g->flagobj[60], true, g->nkeys); return 0; }
int pthread_key_delete(pthread_key_t k) noexcept { if (k < KEY0) { auto real = (int (*)(pthread_key_t))dlsym(RTLD_NEXT, "pthread_key_delete"); return real(k); } g->keyd[k - KEY0] = nullptr; return 0; }
int pthread_setspecific(pthread_key_t k, const void* v) noexcept { if (k < KEY0) { auto real = (int (*)(pthread_key_t, const void*))dlsym(RTLD_NEXT, "pthread_setspecific"); return real(k, v); } g->th[g->cur].keyv[k - KEY0] = (void*)v; return 0; }
void* pthread_getspecific(pthread_key_t k) noexcept { if (k < KEY0) { auto real = (void* (*)(pthread_key_t))dlsym(RTLD_NEXT, "pthread_getspecific"); return real(k); } return g->th[g->cur].keyv[k - KEY0]; }
int pthread_setname_np(pthread_t, const char*) noexcept { return 0; }
int get_nprocs(void) noexcept { return g && g->sc ? g->sc->nprocs : 2; }

// ------------------------------------------------------------------------------------------------ once, guards, exit hooks
int pthread_once(pthread_once_t* c, void (*fn)(void)) {
    if (!g || !g->in_exec) { if (!*c) { *c = 2; fn(); } return 0; }
    chk_addr(c, "once", RA());
    Obj* o = obj((u64)c); g->th[g->cur].lastk = 0;
    if (*c == 2 && o->once == 0) o->once = 2;
    point(K_ONCE, o); touch(o);
    while (o->once == 1) block(B_ONCE, o);
    if (o->once == 2) { commit(K_ONCE, o, false); acquire(o); return 0; }
    o->once = 1; commit(K_ONCE, o, true, 1); acquire(o);
    try { fn(); } catch (...) { o->once = 0; commit(K_ONCE, o, true, 2); release_set(o); throw; }
    o->once = 2; *c = 2; commit(K_ONCE, o, true, 3); release_set(o);
    return 0;
}
int __cxa_guard_acquire(u64* gd) {
    if (!g || !g->in_exec) { return !*(u8*)gd; }
    Obj* o = obj((u64)gd); g->th[g->cur].lastk = 0;
    point(K_GUARD, o); touch(o);
    if (*(u8*)gd) { commit(K_GUARD, o, false, 1); acquire(o); return 0; }
    while (o->once == 1) { if (o->owner == g->cur) violation("deadlock", "recursive static initialisation"); block(B_ONCE, o); }
    if (*(u8*)gd) { commit(K_GUARD, o, false, 2); acquire(o); return 0; }
    o->once = 1; o->owner = g->cur; commit(K_GUARD, o, true, 3); acquire(o); return 1;
}
void __cxa_guard_release(u64* gd) { if (!g || !g->in_exec) { *(u8*)gd = 1; return; } Obj* o = obj((u64)gd); point(K_GUARD, o); o->once = 2; o->owner = -1; *(u8*)gd = 1; commit(K_GUARD, o, true, 4); release_set(o); }
void __cxa_guard_abort(u64* gd) { if (!g || !g->in_exec) return; Obj* o = obj((u64)gd); point(K_GUARD, o); o->once = 0; o->owner = -1; commit(K_GUARD, o, true, 5); release_set(o); }
int __cxa_atexit(void (*f)(void*), void* a, void* d) noexcept {
    if (g && g->in_exec) return 0; // objects with static storage created in an execution vanish with it
    auto real = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_atexit"); return real(f, a, d);
}
int __cxa_thread_atexit(void (*f)(void*), void* a, void*) noexcept {
    if (g && g->in_exec) { Thread& t = g->th[g->cur]; if (t.ndt < 32) { t.dt[t.ndt].f = f; t.dt[t.ndt].a = a; t.ndt++; } } return 0;
}
int __cxa_thread_atexit_impl(void (*f)(void*), void* a, void* d) noexcept { if (!g || !g->in_exec) { auto real = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl"); return real(f, a, d); } return __cxa_thread_atexit(f, a, d); }
[[noreturn]] void abort(void) noexcept { if (g && g->in_exec) violation("abort", "the process aborts (std::terminate or abort) in T%d", g->cur); rsys(SYS_kill, rsys(SYS_getpid), 6); for (;;) rsys(SYS_exit_group, 134); }
[[noreturn]] void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept { if (g && g->in_exec) violation("assertion", "%s (%s:%u)", e, f, l); abort(); }

// ------------------------------------------------------------------------------------------------ signals
typedef void (*sigh)(int);
sigh signal(int s, sigh h) noexcept { if (!g || !g->in_exec) { struct sigaction sa{}, old{}; sa.sa_handler = h; auto real = (int (*)(int, const struct sigaction*, struct sigaction*))dlsym(RTLD_NEXT, "sigaction"); real(s, &sa, &old); return old.sa_handler; }
    commit(K_SET, &g->flagobj[62], true, s); sigh o = g->sig[s]; g->sig[s] = h; return o; }
int raise(int s) noexcept { if (!g || !g->in_exec) return (int)rsys(SYS_tgkill, rsys(SYS_getpid), rsys(SYS_gettid), s); mc::deliver_signal(s); return 0; }
} // extern "C"
extern "C" int sigaction(int s, const struct sigaction* a, struct sigaction* o) noexcept {
    if (!g || !g->in_exec) { auto real = (int (*)(int, const struct sigaction*, struct sigaction*))dlsym(RTLD_NEXT, "sigaction"); return real(s, a, o); }
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = g->sig[s]; }
    if (a) { commit(K_SET, &g->flagobj[62], true, s); g->sig[s] = a->sa_handler; }
    return 0;
}
// std::random_device reads from a deterministic, harness-controlled source
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return g->rnd ? g->rnd() : 0x12345678u; }
random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); }
double random_device::_M_getentropy() const noexcept { return 32; }
}

// ------------------------------------------------------------------------------------------------ harness API
namespace mc {
int choose(int n, const char*) { u8 cost[MAXALT]; memset(cost, 0, sizeof cost); if (n > MAXALT) internal("choose > %d", MAXALT); bool q = g->quiet; g->quiet = false; int c = n <= 1 ? 0 : decide(n, cost, 0xc400 + g->cur); g->quiet = q; commit(K_CHOOSE, nullptr, true, c); return c; }
static void put(int tag, i64 a, i64 b, i64 c) { if (g->nev >= MAXEV) violation("no-termination", "more than %d events in one execution", MAXEV); g->ev[g->nev++] = Event{g->cur, tag, (i64)g->now, a, b, c}; if (g->tf) fprintf(g->tf, "%5lu T%-2d t=%-10lu EVENT tag=%d %ld %ld %ld\n", g->steps, g->cur, g->now, tag, a, b, c); }
void log(int tag, i64 a, i64 b, i64 c) { Thread& t = g->th[g->cur]; t.lastk = 0; t.kind = K_LOG; schedule(); commit(K_CLOCK, &g->timeobj, false); commit(K_LOG, &g->logobj, true, (i64)mix(mix(tag, a), mix(b, c))); put(tag, a, b, c); }
void note(int tag, i64 a, i64 b, i64 c) { g->th[g->cur].lastk = 0; commit(K_CLOCK, &g->timeobj, false); commit(K_LOG, &g->logobj, true, (i64)mix(mix(tag, a), mix(b, c))); put(tag, a, b, c); }
bool late_jump(i64 from, i64 to) { i64 cur = from; for (int i = 0; i < g->nev && cur < to; i++) if (g->ev[i].tag == LATE && g->ev[i].a <= cur && g->ev[i].b > cur) { cur = g->ev[i].b; if (cur == to) return true; } return false; }
size_t nevents() { return g->nev; }
const Event& event(size_t i) { return g->ev[i]; }
i64 now() { g->th[g->cur].spins = 0; g->th[g->cur].spin0 = 0; commit(K_CLOCK, &g->timeobj, false); return g->now; }
int tid() { return g->cur; }
void set(int f) { g->th[g->cur].lastk = 0; g->th[g->cur].kind = K_SET; schedule(); g->flags[f] = true; commit(K_SET, &g->flagobj[f], true); release_join(&g->flagobj[f]); }
bool is_set(int f) { commit(K_AWAIT, &g->flagobj[f], false); return g->flags[f]; }
void await(int f) { Thread& t = g->th[g->cur]; t.lastk = 0; t.kind = K_AWAIT; if (!g->flags[f]) { t.flag = f; block(B_FLAG, nullptr); } commit(K_AWAIT, &g->flagobj[f], false); acquire(&g->flagobj[f]); }
void fail(const char* fmt, ...) { char buf[3000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); violation("property", "%s", buf); }
void outcome(u64 v) { g->out = mix(g->out, v); }
void step_comment(const char* fmt, ...) { if (!g->tf) return; char buf[500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); fprintf(g->tf, "      # %s\n", buf); }
int thread_count() { return g->nth; }
int live_threads() { int n = 0; for (int i = 0; i < g->nth; i++) n += g->th[i].state != T_DONE; return n; }
void deliver_signal(int s) { commit(K_SET, &g->flagobj[62], false, s); sigh h = g->sig[s]; if (h && h != SIG_IGN) h(s); else if (!h) violation("unhandled signal", "signal %d is delivered with the default action: the process dies", s); }
int fault_alloc(int n) { int left = g->fault_alloc; g->fault_tid = g->cur; g->fault_alloc = n; return left; }
int fault_thread(int n) { int left = g->fault_thread; g->fault_tid = g->cur; g->fault_thread = n; return left; }
void arm_signal(int s) { Thread& t = g->th[g->cur]; if (t.npend >= 4) internal("too many signals"); commit(K_SET, &g->flagobj[61], true, s); t.pend[t.npend++] = (u8)s; }
void deliver_armed() { Thread& t = g->th[g->cur]; while (t.npend) run_handler(take_pending(t, 0)); }
bool signal_installed(int s) { return g->sig[s] != nullptr; }
void quiet(bool on) { g->quiet = on || g->sc->seq; commit(K_CHOOSE, nullptr, true, on); }
void expect_deadlock() { g->deadlock_ok = true; }
void at_end(void (*f)(void*), void* a) { g->endfn = f; g->endarg = a; }
void set_random(uint32_t (*f)()) { g->rnd = f; }
bool thorough() { return g->thorough; }
void add(Scenario s) { boot(); if (g->nscs == g->capscs) { int nc = g->capscs ? g->capscs * 2 : 64; auto* ns = (Scenario*)pmalloc(nc * sizeof(Scenario)); for (int i = 0; i < g->nscs; i++) { new (&ns[i]) Scenario(g->scs[i]); } g->scs = ns; g->capscs = nc; } new (&g->scs[g->nscs++]) Scenario(std::move(s)); }
}

// ------------------------------------------------------------------------------------------------ explorer
static void* scenario_thread(void*) { g->sc->fn(); return nullptr; }

static void* parked(void* arg) { // lends its TLS block to one fiber
    u64* slot = (u64*)arg; __atomic_store_n(slot, get_fs(), __ATOMIC_RELEASE);
    static u32 never = 0; for (;;) rsys(SYS_futex, (long)&never, FUTEX_WAIT, 0, 0);
    return nullptr;
}
extern "C" char __data_start, _end;
static void prepare_process() {
    g->fsgs = (getauxval(AT_HWCAP2) & 2) != 0;
    g->expl_fs = get_fs();
    static struct { size_t memsz, align; } tls;
    dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) -> int { if (i->dlpi_name && i->dlpi_name[0]) return 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { tls.memsz = i->dlpi_phdr[k].p_memsz; tls.align = i->dlpi_phdr[k].p_align; } return 1; }, nullptr);
    size_t al = tls.align ? tls.align : 1; g->tls_size = (tls.memsz + al - 1) & ~(al - 1);
    for (int i = 0; i < MAXT; i++) {
        pthread_t p; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 64 << 10);
        u64* slot = (u64*)pmalloc(8); *slot = 0;
        if (pthread_create(&p, &a, parked, slot)) internal("pthread_create");
        while (!__atomic_load_n(slot, __ATOMIC_ACQUIRE)) rsys(SYS_sched_yield);
        g->th[i].fs = *slot; g->th[i].tls_lo = (u8*)*slot - g->tls_size;
    }
    g->tls_img = (u8*)pmalloc(g->tls_size + 16); memcpy(g->tls_img, g->th[0].tls_lo, g->tls_size);
    g->world = (u8*)mmap((void*)0x200000000000ull, WORLD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    g->wcell = (Cell*)mmap(0, WORLD / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g->astate = (u8*)mmap(0, MAXT * ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g->data_lo = (u8*)&__data_start; g->data_hi = (u8*)&_end;
    g->dcell = (Cell*)mmap(0, ((g->data_hi - g->data_lo) / 8 + 16) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g->snap = (u8*)mmap(0, g->data_hi - g->data_lo + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g->vcap = 1 << 16; g->vkey = (u64*)mmap(0, g->vcap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); g->vval = (u8*)mmap(0, g->vcap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g->ocap = 1 << 18; g->okey = (u64*)mmap(0, g->ocap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void run_once() {
    // reset program state
    for (int i = 0; i < g->nth; i++) { size_t u = g->th[i].abrk; memset(g->astate + i * (ARENA / 8), 0, u / 8 + 8); }
    memcpy(g->data_lo, g->snap, g->data_hi - g->data_lo);
    g->gen++; if (g->gen == 0) internal("generation wrap");
    g->nobj = 0; g->nkeys = 0; g->progress = 1; g->nth = 0; g->nch = 0; g->up = g->ut = g->us = 0; g->now = 0; g->total = 0x1234; g->steps = 0; g->plain = 0; g->out = 0; g->nev = 0; g->endreason = 0; g->deadlock_ok = false; g->endfn = nullptr; g->lkey = ~0ull; g->quiet = g->sc->seq;
    obj_reset(&g->logobj, 1); obj_reset(&g->timeobj, 2); for (int i = 0; i < 64; i++) { obj_reset(&g->flagobj[i], 0x800 + i); g->flags[i] = false; }
    g->fault_alloc = g->fault_thread = 0;
    memset(g->sig, 0, sizeof g->sig); g->rnd = nullptr;
    g->cur = 0; new_thread(scenario_thread, nullptr); g->th[0].chain = 0x99; 
    g->in_exec = true;
    set_fs(g->th[0].fs);
    mc_switch(&g->expl_sp, g->th[0].sp);
    if (getenv("MC_DBG")) { fprintf(stderr, "run end=%d nch=%d steps=%lu total=%lx bp=%d:", g->endreason, g->nch, g->steps, g->total, g->bp); for (int i = 0; i < g->nch; i++) fprintf(stderr, " %d/%d%s", g->ch[i].chosen, g->ch[i].n, g->ch[i].cost[1] ? "p" : ""); fprintf(stderr, "\n"); }
    // back (fs restored by to_explorer)
    g->in_exec = false;
    if ((g->endreason == 1 || g->endreason == 3) && g->endfn) g->endfn(g->endarg);
    Result* R = g->R;
    R->execs++; R->transitions += g->steps; if (g->steps > R->maxsteps) R->maxsteps = g->steps; for (int i = 0; i < g->nth; i++) if (g->th[i].abrk > R->maxmem) R->maxmem = g->th[i].abrk; if ((u64)g->nch > R->maxch) R->maxch = g->nch; if (g->nth > R->maxthreads) R->maxthreads = g->nth;
    if (g->endreason == 1 || g->endreason == 3) {
        u64 o = g->out; for (int i = 0; i < g->nev; i++) { auto& e = g->ev[i]; o = mix(o, mix(mix(e.tid, e.tag), mix(mix(e.a, e.b), mix(e.c, e.t)))); }
        if (g->endreason == 3) o = mix(o, 3);
        seen_outcome(o);
        char* s = R->sample[0] ? R->sample2 : R->sample; if (s == R->sample || (R->execs & (R->execs - 1)) == 0) {
            size_t k = snprintf(s, 200, "choices=["); for (int i = 0; i < g->nch && k < 400; i++) k += snprintf(s + k, 20, "%d", g->ch[i].chosen); k += snprintf(s + k, 40, "] steps=%lu events(thread:tag(a,b,c)@ns):", g->steps);
            for (int i = 0; i < g->nev && k < 1400; i++) { auto& e = g->ev[i]; k += snprintf(s + k, 100, " T%d:%d(%ld,%ld,%ld)@%ld", e.tid, e.tag, e.a, e.b, e.c, e.t); }
        }
    }
}
static bool backtrack() {
    while (g->nch > 0) {
        Ch& c = g->ch[g->nch - 1];
        for (int a = c.chosen + 1; a < c.n; a++) if (budget_ok(c.cost[a], c.p, c.t, c.s)) { c.chosen = a; g->prefix = g->nch; return true; }
        g->nch--;
    }
    return false;
}
static void clear_visited() { memset(g->vkey, 0, g->vcap * 8); g->vn = 0; }
static void crash_handler(int s, siginfo_t* si, void* uc) {
    u64 pc = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    if (g->in_exec) violation("crash", "signal %d at address %p (pc=0x%lx) in T%d", s, si->si_addr, pc, g->cur);
    internal("crash in the runtime: signal %d addr %p pc 0x%lx", s, si->si_addr, pc);
}
static void prof_handler(int) { // CPU-time watchdog: one execution running for very long
    if (!g->in_exec) return;
    if (g->wd_exec == g->R->execs) { if (++g->wd_n >= 6) violation("no termination", "one execution has used more than 30 s of CPU time"); } else { g->wd_exec = g->R->execs; g->wd_n = 0; }
}
static void explore(mc::Scenario* sc, Result* R, const u8* replay, int nreplay, const char* tracefile, const int* rb, const Result* from = nullptr) {
    g->R = nullptr; if (from) { for (int i = 0; i < from->nlrn; i++) learn_now(from->lrn[i]); g->trypoints = from->trypoints; }
    g->R = R; g->sc = sc; g->b = g->thorough ? sc->thorough : sc->quick;
    prepare_process();
    auto realsa = (int (*)(int, const struct sigaction*, struct sigaction*))dlsym(RTLD_NEXT, "sigaction");
    stack_t ss{}; ss.ss_sp = mmap(0, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 1 << 16; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE}) realsa(s, &sa, nullptr);
    struct sigaction sp{}; sp.sa_handler = prof_handler; sp.sa_flags = SA_ONSTACK | SA_RESTART; realsa(SIGPROF, &sp, nullptr);
    struct itimerval it{{5, 0}, {5, 0}}; setitimer(ITIMER_PROF, &it, nullptr);
    memcpy(g->snap, g->data_lo, g->data_hi - g->data_lo);
    g->t0 = rnow_us();
    if (replay) {
        g->replay = true; g->bp = rb[0]; g->bt = rb[1]; g->bs = rb[2];
        if (tracefile && *tracefile) g->tf = fopen(tracefile, "w"), setvbuf(g->tf, (char*)pmalloc(1 << 16), _IOFBF, 1 << 16);
        for (int i = 0; i < nreplay; i++) { g->ch[i].chosen = replay[i]; g->ch[i].n = 0; }
        g->prefix = nreplay;
        run_once();
        R->status = 5; if (g->tf) fflush(g->tf);
        rsys(SYS_exit_group, 0);
    }
    bool capped = false;
    R->bound_done = -1;
    for (int b = 0; b <= g->b.preempt && !capped; b++) {
        g->bp = b; g->bt = b == 0 && g->b.preempt > 0 ? 0 : g->b.tdev; g->bs = b == 0 && g->b.preempt > 0 ? 0 : g->b.sdev;
        R->bounds_used[0] = g->bp; R->bounds_used[1] = g->bt; R->bounds_used[2] = g->bs;
    restart:
        clear_visited(); g->prefix = 0; g->nch = 0;
        for (;;) {
            g->grew = false;
            run_once();
            if (g->grew) { R->restarts++; merge_learned(); goto restart; }
            if (!backtrack()) break;
            if ((R->execs & 63) == 0 && (double)(rnow_us() - g->t0) > g->b.seconds * 1e6) { capped = true; break; }
        }
        if (!capped) R->bound_done = b;
        if (g->vn > R->states) R->states = g->vn;
        R->outcomes = g->on; R->wall_us = rnow_us() - g->t0;
    }
    R->capped = capped; R->wall_us = rnow_us() - g->t0; R->status = capped ? 2 : 1; R->outcomes = g->on;
    rsys(SYS_exit_group, 0);
}
static void boot() {
    if (g) return;
    G* n = (G*)mmap(0, sizeof(G), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    n->ph = (u8*)mmap((void*)0x300000000000ull, PHEAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    n->phbrk = 64; g = n;
}
__attribute__((constructor(101))) static void boot_early() { boot(); } // instrumented static initialisers come later

// ------------------------------------------------------------------------------------------------ parent process
static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') { fputc('\\', f); fputc(*s, f); } else if ((u8)*s < 32) fprintf(f, "\\u%04x", *s); else fputc(*s, f); } fputc('"', f); }
static int run_child(mc::Scenario* sc, Result* R, const u8* rep, int nrep, const char* tf, const int* rb, const Result* from) {
    pid_t p = fork();
    if (p == 0) { explore(sc, R, rep, nrep, tf, rb, from); _exit(0); }
    return p;
}
static Result* new_result() { return (Result*)mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

static void sched_path(char* path, size_t n, const char* viol, const char* name) { snprintf(path, n, "%s-%s.sched", viol, name); for (char* q = path + strlen(viol); *q; q++) if (*q == '/' || *q == ' ') *q = '_'; }

int main(int argc, char** argv) {
    boot();
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1 && !getenv("MC_REEXEC")) { setenv("MC_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
    const char* out = nullptr; const char* viol = "violation"; const char* only = nullptr; const char* rfile = nullptr; int jobs = 8; bool list = false; double scale = 1;
    for (int i = 1; i < argc; i++) { std::string a = argv[i];
        if (a == "--thorough") g->thorough = true; else if (a == "--out") out = argv[++i]; else if (a == "--viol") viol = argv[++i]; else if (a == "--only") only = argv[++i]; else if (a == "--replay") rfile = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--list") list = true; else if (a == "--scale") scale = atof(argv[++i]); }
    register_scenarios();
    if (list) { for (int i = 0; i < g->nscs; i++) printf("%s\n", g->scs[i].name.c_str()); return 0; }
    if (rfile) { // replay <file>: scenario, bounds and choices; trace to stdout
        FILE* f = fopen(rfile, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", rfile); return 2; }
        char name[300]; int b[3], n, th, nl, tp; if (fscanf(f, "scenario %299s bounds %d %d %d thorough %d choices %d", name, b, b + 1, b + 2, &th, &n) != 6) return 2; g->thorough = th;
        u8* c = (u8*)pmalloc(n + 1); for (int i = 0; i < n; i++) { int v; if (fscanf(f, "%d", &v) != 1) return 2; c[i] = v; }
        Result* L = new_result(); if (fscanf(f, " trypoints %d shared %d", &tp, &nl) != 2) return 2; L->trypoints = tp; L->nlrn = nl; for (int i = 0; i < nl; i++) if (fscanf(f, "%lx", &L->lrn[i]) != 1) return 2;
        fclose(f);
        for (int i = 0; i < g->nscs; i++) if (g->scs[i].name == name) { Result* R = new_result(); int st; waitpid(run_child(&g->scs[i], R, c, n, "/dev/stdout", b, L), &st, 0); printf("replay: status %d %s %s\n", R->status, R->kind, R->msg); return R->status == 3 ? 1 : R->status == 5 ? 0 : 2; }
        fprintf(stderr, "unknown scenario %s\n", name); return 2;
    }
    int n = g->nscs; Result** R = (Result**)pmalloc(n * sizeof(void*)); pid_t* pid = (pid_t*)pmalloc(n * sizeof(pid_t)); int* st = (int*)pmalloc(n * sizeof(int));
    int running = 0, next = 0, bad = 0, fin = 0;
    for (int i = 0; i < n; i++) pid[i] = 0;
    auto skip = [&](int i) { return only && g->scs[i].name.find(only) == std::string::npos; };
    while (fin < n) {
        while (running < jobs && next < n) { if (skip(next)) { R[next] = nullptr; next++; fin++; continue; } R[next] = new_result(); g->scs[next].quick.seconds *= scale; g->scs[next].thorough.seconds *= scale;
            pid_t p = fork(); if (p == 0) { explore(&g->scs[next], R[next], nullptr, 0, nullptr, nullptr); _exit(0); }
            pid[next] = p; next++; running++; }
        if (!running) break;
        int s; pid_t p = waitpid(-1, &s, 0); if (p < 0) break;
        for (int i = 0; i < next; i++) if (pid[i] == p) { pid[i] = 0; st[i] = s; running--; fin++;
            if (R[i]->status == 0) { R[i]->status = 4; snprintf(R[i]->kind, 64, "internal"); snprintf(R[i]->msg, 500, "worker ended unexpectedly (wait status 0x%x)", s); }
        }
    }
    // confirm violations by replaying the schedule twice in fresh processes
    for (int i = 0; i < n; i++) if (R[i] && R[i]->status == 3) {
        char path[600]; sched_path(path, sizeof path, viol, g->scs[i].name.c_str());
        char tr[620]; snprintf(tr, sizeof tr, "%s.trace", path); int ok = 0; 
        for (int k = 0; k < 2; k++) { Result* q = new_result(); int s; waitpid(run_child(&g->scs[i], q, R[i]->ch, R[i]->nch, k == 0 ? tr : "", R[i]->bounds_used, R[i]), &s, 0); if (q->status == 3 && !strcmp(q->kind, R[i]->kind)) ok++; }
        FILE* f = fopen(path, "w"); if (f) { fprintf(f, "scenario %s bounds %d %d %d thorough %d choices %d\n", g->scs[i].name.c_str(), R[i]->bounds_used[0], R[i]->bounds_used[1], R[i]->bounds_used[2], (int)g->thorough, R[i]->nch); for (int k = 0; k < R[i]->nch; k++) fprintf(f, "%d ", R[i]->ch[k]); fprintf(f, "\ntrypoints %d shared %d\n", R[i]->trypoints, R[i]->nlrn); for (int k = 0; k < R[i]->nlrn; k++) fprintf(f, "%lx ", R[i]->lrn[k]); fprintf(f, "\n%s: %s\n", R[i]->kind, R[i]->msg); fclose(f); }
        if (ok != 2) { R[i]->status = 6; }
        bad++;
        printf("%s scenario=%s %s: %s [replayed %d/2] replay=%s\n", ok == 2 ? "FOUND" : "UNREPRODUCED", g->scs[i].name.c_str(), R[i]->kind, R[i]->msg, ok, path);
    } else if (R[i] && R[i]->status == 4) { bad++; printf("INTERNAL scenario=%s %s\n", g->scs[i].name.c_str(), R[i]->msg); }
    FILE* f = out ? fopen(out, "w") : nullptr;
    if (f) {
        fprintf(f, "{\"scenarios\":[\n"); bool first = true;
        for (int i = 0; i < n; i++) if (R[i]) { Result* r = R[i]; fprintf(f, "%s{\"name\":", first ? "" : ",\n"); first = false; jstr(f, g->scs[i].name.c_str());
            fprintf(f, ",\"status\":%d,\"execs\":%lu,\"points\":%lu,\"states\":%lu,\"transitions\":%lu,\"pruned\":%lu,\"restarts\":%lu,\"outcomes\":%lu,\"bound_done\":%d,\"bound\":%d,\"tdev\":%d,\"sdev\":%d,\"capped\":%d,\"maxsteps\":%lu,\"maxthreads\":%d,\"wall_us\":%lu,\"kind\":", r->status, r->execs, r->points, r->states, r->transitions, r->pruned, r->restarts, r->outcomes, r->bound_done, g->thorough ? g->scs[i].thorough.preempt : g->scs[i].quick.preempt, g->thorough ? g->scs[i].thorough.tdev : g->scs[i].quick.tdev, g->thorough ? g->scs[i].thorough.sdev : g->scs[i].quick.sdev, r->capped, r->maxsteps, r->maxthreads, r->wall_us);
            jstr(f, r->kind); fprintf(f, ",\"msg\":"); jstr(f, r->msg); if (r->status == 3) { fprintf(f, ",\"replay\":"); char path[600]; sched_path(path, sizeof path, viol, g->scs[i].name.c_str()); jstr(f, path); } fprintf(f, ",\"sample\":"); jstr(f, r->sample); fprintf(f, ",\"sample2\":"); jstr(f, r->sample2); fprintf(f, "}"); }
        fprintf(f, "\n]}\n"); fclose(f);
    } 
    for (int i = 0; i < n; i++) if (R[i]) { Result* r = R[i]; fprintf(stderr, "%-44s st=%d b=%d ex=%lu states=%lu out=%lu pruned=%lu rst=%lu steps<=%lu thr=%d mem=%luk ch=%lu %.2fs%s\n", g->scs[i].name.c_str(), r->status, r->bound_done, r->execs, r->states, r->outcomes, r->pruned, r->restarts, r->maxsteps, r->maxthreads, r->maxmem / 1024, r->maxch, r->wall_us / 1e6, r->capped ? " CAPPED" : ""); }
    return bad ? 1 : 0;
}
