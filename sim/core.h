// Deterministic simulator core: seeded scheduler over parked real threads,
// simulated heap, simulated clock, controlled random draws, fault injection.
#ifndef PMLSIM_CORE_H
#define PMLSIM_CORE_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>

namespace sim {

typedef uint64_t u64;

static inline u64 mix64(u64 z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix64(seed)) { }
    u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    long range(long lo, long hi) { return hi < lo ? lo : lo + (long) below((u64) (hi - lo + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};

static inline u64 hash_bytes(const void * d, size_t n, u64 h)
{
    const unsigned char * p = (const unsigned char *) d;
    while (n >= 8) { u64 w; __builtin_memcpy(&w, p, 8); h = (h ^ w) * 0x9fb21c651e98df25ULL; h ^= h >> 29; p += 8; n -= 8; }
    u64 w = 0; if (n) __builtin_memcpy(&w, p, n);
    h = (h ^ w ^ (n << 56)) * 0x9fb21c651e98df25ULL; h ^= h >> 31;
    return h;
}

// ---- what a plan says about the environment ---------------------------------
struct DrawFault { long idx; int kind; long val; };    // at the idx-th draw of an op
enum { DF_ZERO = 0, DF_ONE, DF_MINUS1, DF_REPEAT, DF_CONST, DF_TWO, DF_NKINDS };

struct Env {
    int  heap_fill = 1;         // 0 zero, 1 0xCD, 2 0xFF, 3 seeded words, 4 small ints, 5 address-like
    int  heap_policy = 0;       // 0 LIFO reuse, 1 FIFO reuse, 2 never reuse
    int  stack_fill = 1;
    u64  garbage_seed = 1;
    int  clock_mode = 0;        // 0 steady, 1 backwards, 2 jumps, 3 frozen
    int  pool = 0;              // NTL thread pool size for the op threads (0: none)
    long alloc_fail = -1;       // fail the k-th allocation made inside armed ops
    int  alloc_kind = 0;        // 0: throwing operator new only; 1: malloc family + nothrow new
    int  draw_mode = 0;         // 0: fair; 1: explicit list; 2: every draw until idx 'draw_until'
    int  draw_kind = 0;
    long draw_until = 0;
    long draw_val = 0;
    std::vector<DrawFault> draws;
    std::map<std::string, long> knobs;   // "NAME" or "NAME[i]"
    long sink_fail = -1;        // output sink accepts this many bytes, then fails
    int  sink_mode = 0;         // 0: eof/short write, 1: throws
};

// ---- schedules ---------------------------------------------------------------
struct Preempt { int t; long step; int next; };
struct Choice  { int t; long nth; int next; };
struct Sched {
    int  policy = 0;            // 0 replay lists/default, 1 random, 2 pct, 3 sites
    u64  seed = 1;
    long mean = 100;            // random: mean steps between decisions
    int  depth = 2;             // pct: number of change points
    std::vector<long> est;      // estimated steps per thread
    std::vector<Preempt> pre;
    std::vector<Choice> cho;
};

// ---- results -------------------------------------------------------------------
enum { ST_NONE = 0, ST_OK, ST_EXC, ST_RUNNING };
struct OpResult {
    int status;
    int inputs_ok;              // 1 ok, 0 changed
    int oracle;                 // 0 none, 1 ok, 2 violated
    int heap_bad;
    u64 dout, dmod, drng;
    long steps, draws, news, mallocs;
    long fresh_exc;             // fault fired within this op
    char msg[160];
};
enum { MAXOPS = 128, MAXTRACE = 16384, MAXTHR = 24 };
struct Refused { };             // thrown instead of ending the process when a call stops with an error that the operation expects
void expect_refusal(bool on);
enum { END_RUNNING = 0, END_DONE, END_NTLERR, END_SIGNAL, END_ABORT, END_STEPS, END_DEADLOCK, END_TIMEOUT, END_BADEXIT };
struct RunResult {
    int end;
    int end_thread, end_op;
    int sig;
    char msg[200];
    int nops;
    OpResult ops[MAXOPS];
    long npre, ncho;
    Preempt pre[MAXTRACE];
    Choice cho[MAXTRACE];
    u64 sched_hash;
    long switches, total_steps, conflicts;
    long f_new, f_malloc, f_draw, f_sink, f_clock;    // faults actually fired
    long probes[64];
    int heap_bad;
};

extern RunResult * R;       // shared with the parent

// ---- core API (child side) -----------------------------------------------------
void core_init_process();                       // zygote
void child_setup(const Env & e, const Sched & s);
int  spawn(void (*fn)(void *), void * arg);     // register a simulated thread (parked)
void run_all(long step_cap);                    // run until every simulated thread is done
void finish(int end, const char * msg) __attribute__((noreturn));

// per-thread op accounting
void op_begin(int opslot);
void op_end();
void arm(bool on);                              // allocation faults count only while armed
int  self_id();
long cur_steps();
bool heap_check_all();                          // verify canaries of all live blocks
void repaint_stack();
double sim_clock();
long draws_so_far();
void probe(int id);
const Env & env();

struct DrawState { long n; long last; };

// wall/cpu guard in parent
int  run_forked(void (*body)(void *), void * arg, double timeout_s);

} // namespace sim

extern "C" long pml_sim_knob(const char * name, long dflt);
extern "C" long * pml_sim_knob_arr(const char * name, long * dflt, long n);
#endif
