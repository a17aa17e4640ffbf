#include "core.h"
#include <atomic>
#include <new>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <climits>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <pthread.h>
#include <sched.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <NTL/tools.h>
#include <NTL/ZZ.h>
#include <NTL/lzz_p.h>
#include <NTL/lzz_pX.h>
#include <NTL/vec_lzz_p.h>

namespace sim {

RunResult * R = nullptr;

// =============================== heap ==========================================
static const uintptr_t ARENA = 0x200000000000ULL;
static const size_t ARENA_SZ = 48ULL << 30;
static const u64 MAGIC_LIVE = 0x5a11fe0b10c0ULL, MAGIC_FREE = 0xf4eeb10c0000ULL, MAGIC_ALIGN = 0xa119ed0000ULL;
static const u64 CANARY = 0xc0ffee5eed5afe77ULL;
struct Hdr { u64 size; u64 cap; u64 magic; Hdr * next; };   // 32 bytes
static_assert(sizeof(Hdr) == 32, "hdr");
static uintptr_t bump = 0;
static uintptr_t child_base = 0;            // blocks below it belong to the parent: never recycled in a run
static const size_t CHILD_OFF = 16ULL << 30, CHILD_CAP = 3ULL << 30;
static bool mem_capped = false;
static const int NCLS = 256;
static Hdr * freelist[NCLS], * freetail[NCLS];
static std::atomic_flag heap_lock = ATOMIC_FLAG_INIT;
static int h_fill = 1, h_policy = 0;
static u64 h_seed = 1, h_ctr = 0;
static char heap_msg[160];
static int heap_bad_flag = 0;

struct HL { HL() { while (heap_lock.test_and_set(std::memory_order_acquire)) ; } ~HL() { heap_lock.clear(std::memory_order_release); } };

static void heap_init()
{
    void * p = mmap((void *) ARENA, ARENA_SZ, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *) ARENA) { static const char m[] = "pmlsim: cannot map arena\n"; (void)!write(2, m, sizeof m - 1); _exit(99); }
    bump = ARENA;
}

static inline int cls_of(size_t n, size_t & cap)
{
    if (n <= 1024) { size_t k = (n + 15) / 16; if (k == 0) k = 1; cap = k * 16; return (int) k; }     // 1..64
    int e = 63 - __builtin_clzl(n - 1);        // n-1 in [2^e, 2^(e+1))
    size_t q = (size_t) 1 << (e - 2);
    size_t k = (n - 1 - ((size_t) 1 << e)) / q;   // 0..3
    cap = ((size_t) 1 << e) + (k + 1) * q;
    return 64 + (e - 10) * 4 + (int) k + 1;
}

static inline u64 fill_word(int mode, u64 & st)
{
    switch (mode) {
    case 0: return 0;
    case 1: return 0xcdcdcdcdcdcdcdcdULL;
    case 2: return ~0ULL;
    case 3: st = st * 6364136223846793005ULL + 1442695040888963407ULL; return st ^ (st >> 29);
    case 4: st = st * 6364136223846793005ULL + 1442695040888963407ULL; return 1 + ((st >> 33) % 9);
    default: st = st * 6364136223846793005ULL + 1442695040888963407ULL; return ARENA + ((st >> 20) & 0xffff8);
    }
}

static void fill_mem(void * p, size_t n, int mode, u64 seed)
{
    if (mode <= 2) { memset(p, mode == 0 ? 0 : mode == 1 ? 0xcd : 0xff, n); return; }
    u64 st = seed; u64 * w = (u64 *) p; size_t k = n / 8;
    for (size_t i = 0; i < k; i++) w[i] = fill_word(mode, st);
    for (size_t i = k * 8; i < n; i++) ((unsigned char *) p)[i] = (unsigned char) (seed >> 3);
}

extern "C" __attribute__((noinline, used)) void pmlsim_heap_bad(void * blk, unsigned long size) { asm volatile("" : : "r"(blk), "r"(size) : "memory"); }   // breakpoint target
static void heap_complain(const char * what, Hdr * h)
{
    pmlsim_heap_bad(h + 1, h->size);
    if (!heap_bad_flag) snprintf(heap_msg, sizeof heap_msg, "%s (block of %lu bytes)", what, (unsigned long) h->size);
    heap_bad_flag = 1;
}

static inline void set_canary(Hdr * h)
{
    char * e = (char *) (h + 1) + h->size;
    u64 c = CANARY; memcpy(e, &c, 8); memcpy(e + 8, &c, 8);
}
static inline bool canary_ok(Hdr * h)
{
    char * e = (char *) (h + 1) + h->size;
    u64 a, b; memcpy(&a, e, 8); memcpy(&b, e + 8, 8);
    return a == CANARY && b == CANARY;
}

static void * heap_alloc(size_t n, bool zero)
{
    if (n > (8ULL << 30)) return nullptr;
    HL l;
    if (!bump) heap_init();
    size_t cap; int c = cls_of(n + 16, cap);
    Hdr * h = nullptr;
    if (freelist[c] && h_policy != 2) {
        h = freelist[c];
        freelist[c] = h->next;
        if (!freelist[c]) freetail[c] = nullptr;
        if (h->magic != MAGIC_FREE) heap_complain("heap header of a freed block overwritten", h);
    } else {
        if (bump + sizeof(Hdr) + cap > ARENA + ARENA_SZ) return nullptr;
        if (child_base && bump + cap > child_base + CHILD_CAP) { mem_capped = true; return nullptr; }
        h = (Hdr *) bump; bump += sizeof(Hdr) + cap;
        h->cap = cap;
    }
    h->size = n; h->magic = MAGIC_LIVE; h->next = nullptr;
    if (zero) memset(h + 1, 0, n);
    else fill_mem(h + 1, n, h_fill, h_seed + 0x1234567 * (++h_ctr));
    set_canary(h);
    return h + 1;
}

static Hdr * hdr_of(void * p)
{
    Hdr * h = (Hdr *) p - 1;
    if (h->magic == MAGIC_ALIGN) h = h->next;
    return h;
}

static void heap_free(void * p)
{
    if (!p) return;
    HL l;
    if (child_base && (uintptr_t) p < child_base) return;
    Hdr * h = hdr_of(p);
    if (h->magic == MAGIC_FREE) { heap_complain("double free", h); return; }
    if (h->magic != MAGIC_LIVE) { heap_complain("free of a corrupted or foreign block", h); return; }
    if (!canary_ok(h)) heap_complain("write past the end of a heap block", h);
    size_t cap; int c = cls_of(h->size + 16, cap);
    fill_mem(h + 1, h->size, h_fill == 0 ? 1 : h_fill, h_seed ^ (0x777 * (++h_ctr)));
    h->magic = MAGIC_FREE; h->next = nullptr;
    if (h_policy == 2) return;
    if (h_policy == 0) { h->next = freelist[c]; freelist[c] = h; if (!freetail[c]) freetail[c] = h; }
    else { if (freetail[c]) freetail[c]->next = h; else freelist[c] = h; freetail[c] = h; }
}

bool heap_check_all()
{
    HL l;
    uintptr_t a = child_base ? child_base : ARENA;
    while (a < bump) {
        Hdr * h = (Hdr *) a;
        if (h->magic != MAGIC_LIVE && h->magic != MAGIC_FREE) { heap_complain("heap header overwritten", h); return false; }
        if (h->magic == MAGIC_LIVE && !canary_ok(h)) { heap_complain("write past the end of a heap block", h); return false; }
        a += sizeof(Hdr) + h->cap;
    }
    return !heap_bad_flag;
}

static const uintptr_t STK = 0x300000000000ULL;
static const size_t STK_SZ = 8UL << 20, STK_STRIDE = 32UL << 20;
static const uintptr_t STK_LO = STK - (1UL << 20), STK_HI = STK + MAXTHR * STK_STRIDE;

// =============================== threads =========================================
enum { T_UNUSED = 0, T_RUN, T_BLOCKED, T_DONE };
struct SimThread {
    int id;
    std::atomic<int> go;
    int state;
    const void * waiting;       // address blocked on
    long steps, grant, next_dec, nblocks, since_switch;
    int prio;
    bool daemon;
    void (*fn)(void *);
    void * arg;
    void * (*pfn)(void *);
    void * pret;
    pthread_t pt;
    long cps[8]; int ncps;      // pct change points, sorted
    // op accounting
    int opslot;
    long op_steps0, op_draws0, op_news0, op_mallocs0;
    long draws, news, mallocs;
    bool armed;
    long last_draw;
    bool fired;
    int clk;
};
static SimThread T[MAXTHR];
static int NT = 0;
static std::atomic<int> main_go;
static bool active = false;
static long step_cap = LONG_MAX, total_steps = 0;
static Env E;
static Sched S;
static Rng srng(1);
static int low_prio = 0;
static long armed_allocs = 0;
static double clk = 1e9; static long clk_n = 0;
// Tuning values of the run, resolved before it starts into plain memory: nothing here may go through
// a template of the standard library, since the linker may keep the copy that has yield points.
struct KnobVal { char name[96]; long idx, val; };       // idx -1: a scalar
struct KnobArr { const char * name; long v[64]; };
enum { MAXKV = 2048, MAXKA = 64, MAXKN = 64 };
static KnobVal knob_vals[MAXKV]; static long n_knob_vals; static KnobArr knob_arrs[MAXKA]; static long n_knob_arrs;

static __thread SimThread * me __attribute__((tls_model("initial-exec"))) = nullptr;
static __thread long budget __attribute__((tls_model("initial-exec"))) = 0;

const Env & env() { return E; }
int self_id() { return me ? me->id : -1; }
void probe(int id) { if (R && id >= 0 && id < 64) R->probes[id]++; }
long cur_steps() { return me ? me->steps + (me->grant - budget) : 0; }
long draws_so_far() { return me ? me->draws : 0; }

static void fwait(std::atomic<int> & w)
{
    while (w.load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, (int *) &w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    w.store(0, std::memory_order_release);
}
static void fwake(std::atomic<int> & w)
{
    w.store(1, std::memory_order_release);
    syscall(SYS_futex, (int *) &w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void finish(int end, const char * msg)
{
    if (R && R->end == END_RUNNING) {
        R->end_thread = me ? me->id : -1;
        R->end_op = me ? me->opslot : -1;
        if (msg) { strncpy(R->msg, msg, sizeof R->msg - 1); }
        if (heap_bad_flag) { R->heap_bad = 1; if (!msg) strncpy(R->msg, heap_msg, sizeof R->msg - 1); }
        R->total_steps = total_steps;
        R->end = end;
    }
    _exit(0);
}

static void on_signal(int sig, siginfo_t *, void *)
{
    if (mem_capped && R && R->end == END_RUNNING) finish(END_STEPS, "memory cap reached");
    if (R && R->end == END_RUNNING) {
        R->end_thread = me ? me->id : -1;
        R->end_op = me ? me->opslot : -1;
        R->sig = sig;
        R->heap_bad = heap_bad_flag;
        R->total_steps = total_steps;
        R->end = sig == SIGABRT ? END_ABORT : END_SIGNAL;
    }
    _exit(0);
}

static void ntl_err_msg(const char * s)
{
    if (R && R->end == END_RUNNING) strncpy(R->msg, s ? s : "", sizeof R->msg - 1);
}
static __thread bool refusal_expected __attribute__((tls_model("initial-exec"))) = false;
void expect_refusal(bool on) { refusal_expected = on; }
static void ntl_err()
{
    if (refusal_expected && R && R->end == END_RUNNING && !mem_capped && !heap_bad_flag) { refusal_expected = false; R->msg[0] = 0; throw Refused(); }
    if (mem_capped && R && R->end == END_RUNNING) finish(END_STEPS, "memory cap reached");
    if (R && R->end == END_RUNNING) {
        R->end_thread = me ? me->id : -1;
        R->end_op = me ? me->opslot : -1;
        R->total_steps = total_steps;
        R->heap_bad = heap_bad_flag;
        R->end = END_NTLERR;
    }
    _exit(0);
}

static void set_next_dec(SimThread * t)
{
    long s = t->steps;
    switch (S.policy) {
    case 1: {   // geometric-ish interval
        double u = ((srng.next() >> 11) + 1) * (1.0 / 9007199254740993.0);
        long g = 1 + (long) (-__builtin_log(u) * (S.mean - 1));
        t->next_dec = s + g; break; }
    case 2: {
        t->next_dec = LONG_MAX;
        for (int i = 0; i < t->ncps; i++) if (t->cps[i] > s) { t->next_dec = t->cps[i]; break; }
        break; }
    case 3: t->next_dec = s + 1; break;
    case 4: {
        double u = ((srng.next() >> 11) + 1) * (1.0 / 9007199254740993.0);
        t->next_dec = s + 1 + (long) (-__builtin_log(u) * (S.mean - 1)); break; }
    default: {
        t->next_dec = LONG_MAX;
        for (auto & p : S.pre) if (p.t == t->id && p.step > s && p.step < t->next_dec) t->next_dec = p.step;
        break; }
    }
}

static void regrant(SimThread * t)
{
    long g = t->next_dec == LONG_MAX ? (1L << 20) : t->next_dec - t->steps;
    if (g > (1L << 20)) g = 1L << 20;
    if (g < 1) g = 1;
    t->grant = g; budget = g;
}

// memory-access shadow (policy 4): who touched which 8-byte granule
struct Shadow { uintptr_t g; unsigned rd, wr; };
static const size_t SHN = 1u << 17;
static Shadow * shadow = nullptr;
static bool mem_mode = false;
static __thread bool after_write __attribute__((tls_model("initial-exec"))) = false;
extern "C" char __data_start, _end;

static int runnable_count() { int c = 0; for (int i = 0; i < NT; i++) if (T[i].state == T_RUN) c++; return c; }
static int pick_nth(int k) { for (int i = 0; i < NT; i++) if (T[i].state == T_RUN && k-- == 0) return i; return -1; }
static int pick_prio() { int b = -1; for (int i = 0; i < NT; i++) if (T[i].state == T_RUN && (b < 0 || T[i].prio > T[b].prio)) b = i; return b; }

static void note_switch(int from, long step, int to, bool pre)
{
    R->switches++;
    u64 h = R->sched_hash;
    u64 w[3] = { (u64) from, (u64) step * 2 + (pre ? 1 : 0), (u64) to };
    R->sched_hash = hash_bytes(w, sizeof w, h);
}

static void handoff(SimThread * self, int next)    // give the token to next; park self
{
    T[next].since_switch = 0;
    fwake(T[next].go);
    fwait(self->go);
    regrant(self);
}

__attribute__((noinline)) static void slow_yield(void * pc)
{
    SimThread * t = me;
    if (!t || !active) { budget = LONG_MAX / 2; return; }
    t->steps += t->grant; total_steps += t->grant; t->since_switch += t->grant;
    t->grant = 0; budget = 0;
    if (total_steps > step_cap) finish(END_STEPS, "step cap reached");
    bool fair = false;
    if (t->steps < t->next_dec) {
        if (t->since_switch > (8L << 20) && runnable_count() > 1) fair = true;
        else { regrant(t); return; }
    }
    int nr = runnable_count(), next = t->id;
    if (nr > 1) {
        if (fair) { int k = 0; for (int i = 1; i <= NT; i++) { int j = (t->id + i) % NT; if (T[j].state == T_RUN) { k = j; break; } } next = k; t->prio = --low_prio; }
        else switch (S.policy) {
        case 1: case 4: next = pick_nth((int) srng.below(nr)); break;
        case 2: t->prio = --low_prio; next = pick_prio(); break;
        case 3: if ((mix64((u64) pc ^ S.seed) & (u64) (S.mean - 1)) == 0) next = pick_nth((int) srng.below(nr)); break;
        default: for (auto & p : S.pre) if (p.t == t->id && p.step == t->steps) { if (p.next < NT && T[p.next].state == T_RUN) next = p.next; break; }
        }
    }
    if (next != t->id && S.policy != 0) {
        if (R->npre < MAXTRACE) { Preempt p = { t->id, t->steps, next }; R->pre[R->npre++] = p; }
        else { next = t->id; S.policy = 0; S.pre.clear(); }
    }
    t->since_switch = 0;
    set_next_dec(t);
    if (next != t->id) { note_switch(t->id, t->steps, next, true); handoff(t, next); }
    else regrant(t);
}

// policy 4: preempt at accesses that conflict with another thread, or that write global data
__attribute__((noinline)) static void mem_yield(SimThread * t)
{
    int nr = runnable_count();
    if (nr < 2) return;
    u64 r = srng.next();
    if ((r & 3) == 0) return;
    int next = pick_nth((int) ((r >> 8) % nr));
    if (next == t->id || R->npre >= MAXTRACE) return;
    long used = t->grant - budget;
    t->steps += used; total_steps += used;
    t->grant = 0; budget = 0;
    Preempt p = { t->id, t->steps, next }; R->pre[R->npre++] = p;
    R->conflicts++;
    t->since_switch = 0;
    set_next_dec(t);
    note_switch(t->id, t->steps, next, true);
    handoff(t, next);
}
static void mem_access(const void * a, bool wr)
{
    SimThread * t = me;
    if (!t || !active) return;
    uintptr_t x = (uintptr_t) a;
    if (x >= STK_LO && x < STK_HI) return;
    bool hot = after_write; after_write = false;
    uintptr_t g = x >> 3;
    Shadow & s = shadow[(g * 0x9E3779B97F4A7C15ULL) >> 47];
    if (s.g != g) { s.g = g; s.rd = s.wr = 0; }
    unsigned bit = 1u << t->id;
    if ((s.wr & ~bit) || (wr && (s.rd & ~bit))) hot = true;
    if (wr && !(s.wr & ~bit) && x >= (uintptr_t) &__data_start && x < (uintptr_t) &_end) { hot = true; after_write = true; }
    else if (hot && wr) after_write = true;
    if (wr) s.wr |= bit; else s.rd |= bit;
    if (hot) mem_yield(t);
}

// current thread cannot continue (blocked or done): choose who goes on
static int choose_after_block(SimThread * t)
{
    int nr = runnable_count();
    if (nr == 0) return -1;
    long nth = t->nblocks++;
    int next = pick_nth(0);
    if (nr > 1) {
        switch (S.policy) {
        case 1: case 3: case 4: next = pick_nth((int) srng.below(nr)); break;
        case 2: next = pick_prio(); break;
        default: for (auto & c : S.cho) if (c.t == t->id && c.nth == nth) { if (c.next < NT && T[c.next].state == T_RUN) next = c.next; break; }
        }
        if (S.policy != 0 && R->ncho < MAXTRACE) { Choice c = { t->id, nth, next }; R->cho[R->ncho++] = c; }
    }
    note_switch(t->id, t->steps, next, false);
    return next;
}

static void sync_steps(SimThread * t)
{
    long used = t->grant - budget;
    t->steps += used; total_steps += used; t->since_switch += used;
    t->grant = 0; budget = 0;
}

static bool user_threads_done() { for (int i = 0; i < NT; i++) if (!T[i].daemon && T[i].state != T_DONE) return false; return true; }

static void block_on(const void * addr)     // caller marks the condition; returns once made runnable and scheduled
{
    SimThread * t = me;
    sync_steps(t);
    t->state = T_BLOCKED; t->waiting = addr;
    int next = choose_after_block(t);
    if (next < 0) finish(END_DEADLOCK, "all simulated threads blocked");
    handoff(t, next);
}
static int wake_addr(const void * addr, int maxn)
{
    int n = 0;
    for (int i = 0; i < NT && n < maxn; i++)
        if (T[i].state == T_BLOCKED && T[i].waiting == addr) { T[i].state = T_RUN; T[i].waiting = nullptr; n++; }
    return n;
}
static void yield_point()
{
    if (!me || !active) return;
    if (budget > 1) { budget--; return; }
    budget = 0; slow_yield(__builtin_return_address(0));
}

static void paint_below(char * sp, size_t n)
{
    fill_mem(sp - n, n & ~(size_t) 15, E.stack_fill, E.garbage_seed * 77 + 5);
}
__attribute__((noinline)) void repaint_stack()
{
    char * sp = (char *) __builtin_frame_address(0);
    if (!me) return;
    // stay clear of our own frame and its callees
    char * hi = sp - 4096;
    paint_below((char *) ((uintptr_t) hi & ~(uintptr_t) 63), 96 * 1024);
}


static void thread_exit_path(SimThread * t)
{
    sync_steps(t);
    t->state = T_DONE;
    wake_addr(t, MAXTHR);
    if (user_threads_done()) { fwake(main_go); for (;;) fwait(t->go); }
    int next = choose_after_block(t);
    if (next < 0) finish(END_DEADLOCK, "remaining simulated threads are blocked");
    T[next].since_switch = 0;
    fwake(T[next].go);
    for (;;) fwait(t->go);      // parked for good; the run ends with _exit
}

static void * trampoline(void * a)
{
    SimThread * t = (SimThread *) a;
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = (char *) (STK + (uintptr_t) t->id * STK_STRIDE) - 65536 - 4096; ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
    me = t; budget = LONG_MAX / 2;
    NTL::ErrorMsgCallback = ntl_err_msg;
    NTL::ErrorCallback = ntl_err;
    fwait(t->go);
    set_next_dec(t);
    regrant(t);
    if (t->pfn) t->pret = t->pfn(t->arg); else t->fn(t->arg);
    thread_exit_path(t);
    return nullptr;
}

typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
static pc_t real_pthread_create;
typedef int (*m_t)(pthread_mutex_t *);
static m_t real_trylock, real_lock, real_unlock;

static int start_thread(SimThread * t)
{
    char * base = (char *) (STK + (uintptr_t) t->id * STK_STRIDE);
    void * p = mmap(base - 65536 - 8192, STK_SZ + 65536 + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) return EAGAIN;
    mprotect(base - 4096, 4096, PROT_NONE);
    fill_mem(base + STK_SZ - 192 * 1024, 192 * 1024, E.stack_fill, E.garbage_seed * 31 + t->id);
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, base, STK_SZ);
    return real_pthread_create(&t->pt, &at, trampoline, t);
}

static SimThread * new_thread()
{
    if (NT >= MAXTHR) return nullptr;
    SimThread * t = &T[NT];
    t->id = NT; t->go.store(0); t->state = T_RUN; t->waiting = nullptr; t->steps = 0; t->grant = 0; t->nblocks = 0;
    t->next_dec = LONG_MAX; t->daemon = false; t->fn = nullptr; t->pfn = nullptr; t->opslot = -1; t->draws = t->news = t->mallocs = 0;
    t->armed = false; t->ncps = 0; t->last_draw = 0; t->fired = false; t->since_switch = 0;
    t->prio = (int) srng.below(1000000) + 10;
    if (S.policy == 2) {
        long est = t->id < (int) S.est.size() ? S.est[t->id] : 1000;
        int ne = S.est.empty() ? 2 : (int) S.est.size();
        for (int i = 0; i < S.depth && t->ncps < 8; i++) if ((int) srng.below(ne) == t->id % ne || i == 0) {
            long c = 1 + (long) srng.below(est > 1 ? est : 1); int k = t->ncps++;
            while (k > 0 && t->cps[k - 1] > c) { t->cps[k] = t->cps[k - 1]; k--; }
            t->cps[k] = c;
        }
    }
    NT++;
    return t;
}

int spawn(void (*fn)(void *), void * arg)
{
    SimThread * t = new_thread();
    if (!t) return -1;
    t->fn = fn; t->arg = arg;
    if (start_thread(t)) finish(END_BADEXIT, "cannot start a simulated thread");
    return t->id;
}

void run_all(long cap)
{
    step_cap = cap;
    if (NT == 0) return;
    active = true;
    int first = 0;
    if (S.policy == 1 || S.policy >= 3) first = (int) srng.below(NT);
    else if (S.policy == 2) first = pick_prio();
    else for (auto & c : S.cho) if (c.t == -1 && c.next < NT) first = c.next;
    if (S.policy != 0 && NT > 1) { Choice c = { -1, 0, first }; R->cho[R->ncho++] = c; }
    fwake(T[first].go);
    fwait(main_go);
    active = false;
    R->total_steps = total_steps;
}

void child_setup(const Env & e, const Sched & s)
{
    E = e; S = s; srng = Rng(s.seed);
    h_fill = e.heap_fill; h_policy = e.heap_policy; h_seed = e.garbage_seed; h_ctr = 0;
    main_go.store(0);
    child_base = ARENA + CHILD_OFF; bump = child_base;
    memset(freelist, 0, sizeof freelist); memset(freetail, 0, sizeof freetail);
    mem_mode = s.policy == 4;
    if (mem_mode && !shadow) shadow = (Shadow *) mmap(nullptr, SHN * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    NT = 0; total_steps = 0; armed_allocs = 0; clk = 1e9; clk_n = 0; low_prio = 0;
    n_knob_vals = n_knob_arrs = 0;
    for (auto & kv : E.knobs) {
        KnobVal & k = knob_vals[n_knob_vals]; size_t b = kv.first.find('['), l = b == std::string::npos ? kv.first.size() : b;
        if (l >= sizeof k.name || n_knob_vals + 1 >= MAXKV) continue;
        memcpy(k.name, kv.first.c_str(), l); k.name[l] = 0; k.idx = b == std::string::npos ? -1 : atol(kv.first.c_str() + b + 1); k.val = kv.second; n_knob_vals++;
    }
    NTL::ErrorMsgCallback = ntl_err_msg;
    NTL::ErrorCallback = ntl_err;
}

void core_init_process()
{
    real_pthread_create = (pc_t) dlsym(RTLD_NEXT, "pthread_create");
    real_trylock = (m_t) dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    real_lock = (m_t) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    real_unlock = (m_t) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    (void) sa;
}

static void child_signals()
{
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT };
    for (int s : sg) sigaction(s, &sa, nullptr);
}

static double now_real() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }

int run_forked(void (*body)(void *), void * arg, double timeout_s)
{
    memset((void *) R, 0, offsetof(RunResult, ops));
    memset((void *) R->ops, 0, sizeof R->ops);
    R->npre = R->ncho = 0; R->sched_hash = 0x1234; R->switches = R->total_steps = R->conflicts = 0;
    R->f_new = R->f_malloc = R->f_draw = R->f_sink = R->f_clock = 0;
    memset(R->probes, 0, sizeof R->probes);
    R->heap_bad = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(99); }
    if (pid == 0) {
        child_signals();
        alarm((unsigned) (timeout_s + 1));
        body(arg);
        finish(END_DONE, nullptr);
    }
    int st = 0;
    double t0 = now_real();
    (void) t0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    if (R->end == END_RUNNING) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) R->end = END_TIMEOUT;
        else { R->end = END_BADEXIT; snprintf(R->msg, sizeof R->msg, "wait status %d", st); }
    }
    return R->end;
}

// =============================== op accounting ====================================
void op_begin(int slot)
{
    SimThread * t = me; if (!t) return;
    t->opslot = slot; t->op_steps0 = cur_steps(); t->draws = 0; t->last_draw = 0;
    t->op_news0 = t->news; t->op_mallocs0 = t->mallocs; t->fired = false;
    if (slot >= 0 && slot < MAXOPS) R->ops[slot].status = ST_RUNNING;
}
void op_end()
{
    SimThread * t = me; if (!t) return;
    if (t->opslot >= 0 && t->opslot < MAXOPS) {
        OpResult & r = R->ops[t->opslot];
        r.steps = cur_steps() - t->op_steps0; r.draws = t->draws;
        r.news = t->news - t->op_news0; r.mallocs = t->mallocs - t->op_mallocs0;
        r.fresh_exc = t->fired;
        r.heap_bad = heap_bad_flag;
    }
    t->opslot = -1;
}
void arm(bool on) { if (me) me->armed = on; }

static bool alloc_should_fail(int kind)
{
    SimThread * t = me;
    if (!t || !active || !t->armed) return false;
    if (kind == 0) t->news++; else t->mallocs++;
    if (E.alloc_fail < 0 || E.alloc_kind != kind) return false;
    if (armed_allocs++ == E.alloc_fail) {
        t->fired = true;
        if (kind == 0) R->f_new++; else R->f_malloc++;
        return true;
    }
    return false;
}

double sim_clock()
{
    clk_n++;
    switch (E.clock_mode) {
    case 1: clk -= 3.5; break;
    case 2: clk += (clk_n % 3 == 0) ? -1e6 : (clk_n % 3 == 1) ? 4e5 : 1e-7; break;
    case 3: break;
    default: clk += 1e-4; break;
    }
    if (E.clock_mode && R) R->f_clock++;
    return clk;
}

// =============================== random draws =====================================
static long tamper(long v, long n)
{
    SimThread * t = me;
    if (!t || !active || !t->armed) return v;
    long idx = t->draws++;
    int kind = -1; long val = 0;
    if (E.draw_mode == 2 && idx < E.draw_until) { kind = E.draw_kind; val = E.draw_val; }
    else if (E.draw_mode == 1) for (auto & d : E.draws) if (d.idx == idx) { kind = d.kind; val = d.val; break; }
    if (kind >= 0 && n > 0) {
        long w = v;
        switch (kind) {
        case DF_ZERO: w = 0; break;
        case DF_ONE: w = 1 % n; break;
        case DF_MINUS1: w = n - 1; break;
        case DF_REPEAT: w = t->last_draw % n; break;
        case DF_CONST: w = val % n; if (w < 0) w += n; break;
        case DF_TWO: w = 2 % n; break;
        }
        R->f_draw++; t->fired = true;
        v = w;
    }
    t->last_draw = v;
    return v;
}

} // namespace sim

using namespace sim;

// =============================== interposed symbols ================================
extern "C" {

void __sanitizer_cov_trace_pc(void)
{
    if (__builtin_expect(--budget > 0, 1)) return;
    slow_yield(__builtin_return_address(0));
}

// memory-access yield points (compiled with -fsanitize=thread, these are our own hooks)
#define ACC(name, w) void name(void * a) { if (__builtin_expect(--budget <= 0, 0)) slow_yield(__builtin_return_address(0)); if (__builtin_expect(mem_mode, 0)) mem_access(a, w); }
ACC(__tsan_read1, false) ACC(__tsan_read2, false) ACC(__tsan_read4, false) ACC(__tsan_read8, false) ACC(__tsan_read16, false)
ACC(__tsan_write1, true) ACC(__tsan_write2, true) ACC(__tsan_write4, true) ACC(__tsan_write8, true) ACC(__tsan_write16, true)
ACC(__tsan_unaligned_read2, false) ACC(__tsan_unaligned_read4, false) ACC(__tsan_unaligned_read8, false) ACC(__tsan_unaligned_read16, false)
ACC(__tsan_unaligned_write2, true) ACC(__tsan_unaligned_write4, true) ACC(__tsan_unaligned_write8, true) ACC(__tsan_unaligned_write16, true)
ACC(__tsan_vptr_read, false)
ACC(__tsan_volatile_read1, false) ACC(__tsan_volatile_read2, false) ACC(__tsan_volatile_read4, false) ACC(__tsan_volatile_read8, false)
ACC(__tsan_volatile_write1, true) ACC(__tsan_volatile_write2, true) ACC(__tsan_volatile_write4, true) ACC(__tsan_volatile_write8, true)
void __tsan_vptr_update(void ** a, void *) { __tsan_write8(a); }
void __tsan_read_range(void * a, unsigned long) { __tsan_read8(a); }
void __tsan_write_range(void * a, unsigned long) { __tsan_write8(a); }
void __tsan_init(void) { }
void __tsan_func_entry(void *) { }
void __tsan_func_exit(void) { }
#define ATOMICS(N, TY) \
TY __tsan_atomic##N##_load(const volatile TY * a, int) { yield_point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile TY * a, TY v, int) { yield_point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_exchange(volatile TY * a, TY v, int) { yield_point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_add(volatile TY * a, TY v, int) { yield_point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_sub(volatile TY * a, TY v, int) { yield_point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_and(volatile TY * a, TY v, int) { yield_point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_or(volatile TY * a, TY v, int) { yield_point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_xor(volatile TY * a, TY v, int) { yield_point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile TY * a, TY * e, TY v, int, int) { yield_point(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile TY * a, TY * e, TY v, int, int) { yield_point(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_compare_exchange_val(volatile TY * a, TY e, TY v, int, int) { yield_point(); __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) { }

void * malloc(size_t n) { if (__builtin_expect(alloc_should_fail(1), 0)) { errno = ENOMEM; return nullptr; } return heap_alloc(n, false); }
void free(void * p) { heap_free(p); }
void * calloc(size_t a, size_t b)
{
    if (a && b > SIZE_MAX / a) return nullptr;
    if (__builtin_expect(alloc_should_fail(1), 0)) { errno = ENOMEM; return nullptr; }
    return heap_alloc(a * b, true);
}
void * realloc(void * p, size_t n)
{
    if (__builtin_expect(alloc_should_fail(1), 0)) { errno = ENOMEM; return nullptr; }
    if (!p) return heap_alloc(n, false);
    if (n == 0) { heap_free(p); return nullptr; }
    size_t old = hdr_of(p)->size;
    void * q = heap_alloc(n, false);
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    heap_free(p);
    return q;
}
void * memalign(size_t al, size_t n)
{
    if (al <= 16) return malloc(n);
    char * raw = (char *) malloc(n + al + 64);
    if (!raw) return nullptr;
    Hdr * parent = (Hdr *) raw - 1;
    char * u = (char *) (((uintptr_t) raw + 32 + al - 1) / al * al);
    Hdr * f = (Hdr *) u - 1;
    f->size = n; f->cap = 0; f->magic = MAGIC_ALIGN; f->next = parent;
    return u;
}
void * aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void ** r, size_t al, size_t n) { void * p = memalign(al, n); if (!p) return ENOMEM; *r = p; return 0; }
void * valloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void * p)
{
    if (!p) return 0;
    Hdr * h = (Hdr *) p - 1;
    return h->size;
}

// --- threads
int pthread_create(pthread_t * out, const pthread_attr_t * at, void * (*fn)(void *), void * arg)
{
    if (!real_pthread_create) real_pthread_create = (pc_t) dlsym(RTLD_NEXT, "pthread_create");
    if (!me || !active) return real_pthread_create(out, at, fn, arg);
    SimThread * t = new_thread();
    if (!t) return EAGAIN;
    t->daemon = true; t->pfn = fn; t->arg = arg;
    bool a = me->armed; me->armed = false;
    int r = start_thread(t);
    me->armed = a;
    if (r) { NT--; return r; }
    *out = t->pt;
    yield_point();
    return 0;
}
int pthread_join(pthread_t th, void ** ret)
{
    if (me && active) {
        for (int i = 0; i < NT; i++) if (pthread_equal(T[i].pt, th)) {
            while (T[i].state != T_DONE) block_on(&T[i]);
            if (ret) *ret = T[i].pret;
            return 0;
        }
    }
    static int (*rj)(pthread_t, void **) = (int (*)(pthread_t, void **)) dlsym(RTLD_NEXT, "pthread_join");
    return rj(th, ret);
}
int pthread_mutex_lock(pthread_mutex_t * m)
{
    if (!me || !active) {
        if (!real_lock) real_lock = (m_t) dlsym(RTLD_NEXT, "pthread_mutex_lock");
        return real_lock(m);
    }
    yield_point();
    for (;;) {
        int r = real_trylock(m);
        if (r != EBUSY) return r;
        block_on(m);
    }
}
int pthread_mutex_unlock(pthread_mutex_t * m)
{
    if (!real_unlock) real_unlock = (m_t) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real_unlock(m);
    if (me && active) { wake_addr(m, MAXTHR); yield_point(); }
    return r;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
    if (me && active) {
        real_unlock(m); wake_addr(m, MAXTHR);
        block_on(c);
        for (;;) { int r = real_trylock(m); if (r != EBUSY) return r; block_on(m); }
    }
    static int (*rw)(pthread_cond_t *, pthread_mutex_t *) = (int (*)(pthread_cond_t *, pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_cond_wait");
    return rw(c, m);
}
int pthread_cond_signal(pthread_cond_t * c)
{
    if (me && active) {
        int w[MAXTHR], n = 0;
        for (int i = 0; i < NT; i++) if (T[i].state == T_BLOCKED && T[i].waiting == c) w[n++] = i;
        if (n) { int k = w[0]; T[k].state = T_RUN; T[k].waiting = nullptr; }
        yield_point();
        return 0;
    }
    static int (*rs)(pthread_cond_t *) = (int (*)(pthread_cond_t *)) dlsym(RTLD_NEXT, "pthread_cond_signal");
    return rs(c);
}
int pthread_cond_broadcast(pthread_cond_t * c)
{
    if (me && active) { wake_addr(c, MAXTHR); yield_point(); return 0; }
    static int (*rs)(pthread_cond_t *) = (int (*)(pthread_cond_t *)) dlsym(RTLD_NEXT, "pthread_cond_broadcast");
    return rs(c);
}
int pthread_once(pthread_once_t * o, void (*fn)(void))
{
    int * w = (int *) o;
    for (;;) {
        if (*w == 2) return 0;
        if (*w == 0) { *w = 1; fn(); *w = 2; if (me && active) { wake_addr(o, MAXTHR); } return 0; }
        if (!me || !active) { static int (*ro)(pthread_once_t *, void (*)(void)) = (int (*)(pthread_once_t *, void (*)(void))) dlsym(RTLD_NEXT, "pthread_once"); return ro(o, fn); }
        block_on(o);
    }
}
// --- function-local statics
int __cxa_guard_acquire(long long int * g)
{
    unsigned char * b = (unsigned char *) g;
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (!me || !active) { sched_yield(); continue; }
        block_on(g);
    }
}
void __cxa_guard_release(long long int * g) { unsigned char * b = (unsigned char *) g; b[1] = 0; b[0] = 1; if (me && active) { wake_addr(g, MAXTHR); yield_point(); } }
void __cxa_guard_abort(long long int * g) { unsigned char * b = (unsigned char *) g; b[1] = 0; if (me && active) wake_addr(g, MAXTHR); }

// --- clocks read by library code inside the simulation
time_t time(time_t * o)
{
    time_t v;
    if (me && active) v = (time_t) sim_clock();
    else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (o) *o = v;
    return v;
}
int gettimeofday(struct timeval * tv, void *)
{
    if (me && active) { double c = sim_clock(); tv->tv_sec = (long) c; tv->tv_usec = (long) ((c - (long) c) * 1e6); return 0; }
    struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
int clock_gettime(clockid_t id, struct timespec * ts)
{
    if (me && active) { double c = sim_clock(); ts->tv_sec = (long) c; ts->tv_nsec = (long) ((c - (long) c) * 1e9); if (ts->tv_nsec < 0) ts->tv_nsec = 0; return 0; }
    return (int) syscall(SYS_clock_gettime, id, ts);
}
clock_t clock(void)
{
    if (me && active) return (clock_t) (sim_clock() * 1e3);
    struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}

// --- tuning knobs
long pml_sim_knob(const char * name, long dflt)
{
    for (long k = 0; k < n_knob_vals; k++) if (knob_vals[k].idx < 0 && strcmp(knob_vals[k].name, name) == 0) return knob_vals[k].val;
    return dflt;
}
long * pml_sim_knob_arr(const char * name, long * dflt, long n)
{
    if (n_knob_vals == 0 || n > MAXKN) return dflt;
    for (long k = 0; k < n_knob_arrs; k++) if (strcmp(knob_arrs[k].name, name) == 0) return knob_arrs[k].v;
    bool any = false; for (long k = 0; k < n_knob_vals && !any; k++) any = knob_vals[k].idx >= 0 && strcmp(knob_vals[k].name, name) == 0;
    if (!any || n_knob_arrs >= MAXKA) return dflt;
    KnobArr & a = knob_arrs[n_knob_arrs]; a.name = name;
    for (long i = 0; i < n; i++) a.v[i] = dflt[i];
    for (long k = 0; k < n_knob_vals; k++) if (knob_vals[k].idx >= 0 && knob_vals[k].idx < n && strcmp(knob_vals[k].name, name) == 0) a.v[knob_vals[k].idx] = knob_vals[k].val;
    n_knob_arrs++; return a.v;
}

// --- NTL seams (via -Wl,--wrap)
long __real__ZN3NTL9RandomBndEl(long n);
long __wrap__ZN3NTL9RandomBndEl(long n) { return tamper(__real__ZN3NTL9RandomBndEl(n), n); }
void __real__ZN3NTL6randomERNS_3VecINS_4zz_pEEEl(NTL::Vec<NTL::zz_p> & x, long n);
void __wrap__ZN3NTL6randomERNS_3VecINS_4zz_pEEEl(NTL::Vec<NTL::zz_p> & x, long n)
{
    __real__ZN3NTL6randomERNS_3VecINS_4zz_pEEEl(x, n);
    for (long i = 0; i < x.length(); i++) x[i].LoopHole() = tamper(NTL::rep(x[i]), NTL::zz_p::modulus());
}
void __real__ZN3NTL6randomERNS_5zz_pXEl(NTL::zz_pX & x, long n);
void __wrap__ZN3NTL6randomERNS_5zz_pXEl(NTL::zz_pX & x, long n)
{
    __real__ZN3NTL6randomERNS_5zz_pXEl(x, n);
    if (n < 0) n = 0;
    long l = x.rep.length();
    x.rep.SetLength(n);
    for (long i = l; i < n; i++) x.rep[i].LoopHole() = 0;
    for (long i = 0; i < n; i++) x.rep[i].LoopHole() = tamper(NTL::rep(x.rep[i]), NTL::zz_p::modulus());
    x.normalize();
}
double __wrap__Z12_ntl_GetTimev() { return sim_clock(); }
double __wrap__Z16_ntl_GetWallTimev() { return sim_clock(); }
} // extern "C"

void * operator new(size_t n) { if (__builtin_expect(alloc_should_fail(0), 0)) throw std::bad_alloc(); void * p = heap_alloc(n, false); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { if (__builtin_expect(alloc_should_fail(0), 0)) throw std::bad_alloc(); void * p = heap_alloc(n, false); if (!p) throw std::bad_alloc(); return p; }
void * operator new(size_t n, const std::nothrow_t &) noexcept { if (alloc_should_fail(1)) return nullptr; return heap_alloc(n, false); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { if (alloc_should_fail(1)) return nullptr; return heap_alloc(n, false); }
void operator delete(void * p) noexcept { heap_free(p); }
void operator delete[](void * p) noexcept { heap_free(p); }
void operator delete(void * p, size_t) noexcept { heap_free(p); }
void operator delete[](void * p, size_t) noexcept { heap_free(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { heap_free(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { heap_free(p); }
