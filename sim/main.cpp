// Drivers: plan generation from (property, seed, index), execution, judgement,
// gating, minimisation, replay.
#include "ops.h"
#include "knobs_gen.h"
#include <algorithm>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <set>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <NTL/BasicThreadPool.h>

using namespace sim;
using std::string; using std::vector;

static double now() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }

struct Plan {
    string prop; u64 seed = 1; long idx = 0; int kind = 0;
    Env env; Sched sched;
    vector<vector<Inst>> thr;
    int shared = -1; Inst shin;       // C02: shared object and how it is made
    int reps = 1;
};
struct Verdict { bool bad = false, skip = false; string cls, msg, op; u64 hash = 0; };

struct Stats {
    long runs = 0, execs = 0, ops = 0, skips = 0, switches = 0, steps = 0, conflicts = 0, nontrivial = 0, aborts_ok = 0;
    long f_new = 0, f_malloc = 0, f_draw = 0, f_sink = 0, f_clock = 0, f_pre = 0, f_knob = 0, f_heap = 0, f_stack = 0, f_pool = 0, f_alias = 0, f_soil = 0;
    std::set<u64> scheds, distinct;
    std::map<string, long> opn, opskip, ends;
    vector<string> samples;
    long probes[64] = { 0 };
} ST;

// ---------------------------------------------------------------- execution
struct Body { const Plan * p; };
struct ThrArg { const Plan * p; int t; int slot0; void * obj; };
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };

static void run_one(const Inst & in, int slot, void * obj, void (*use)(Ctx &, void *))
{
    OpResult * r = slot < MAXOPS ? &R->ops[slot] : nullptr;
    static OpResult dummy; if (!r) r = &dummy;
    op_begin(slot);
    install_prime(in.pk);
    Ctx c(in, r);
    r->inputs_ok = 1; r->dmod = 0; r->oracle = 0;
    int st = ST_OK;
    try {
        if (use) use(c, obj); else (*g_ops)[in.op].fn(c);
    } catch (const std::exception & e) { st = ST_EXC; arm(false); if (!r->msg[0]) strncpy(r->msg, e.what(), sizeof r->msg - 1); }
    catch (...) { st = ST_EXC; arm(false); }
    r->dout = c.h;
    op_end();
    r->status = st;
}
static void thread_fn(void * a)
{
    ThrArg * t = (ThrArg *) a;
    if (t->p->env.pool > 0) NTL::SetNumThreads(t->p->env.pool);
    int slot = t->slot0;
    void (*use)(Ctx &, void *) = t->p->shared >= 0 ? (*g_shared)[t->p->shared].use : nullptr;
    const vector<Inst> & l = t->p->thr[t->t];
    if (t->p->kind == 11 && t->p->env.pool > 0 && l.size() > 1) {      // the calls themselves are made by pool workers
        long n = (long) l.size();
        NTL_EXEC_INDEX(n, index)
            run_one(l[index], slot + (int) index, nullptr, nullptr);
        NTL_EXEC_INDEX_END
        return;
    }
    for (const Inst & in : l) run_one(in, slot++, t->obj, use);
}
static void body(void * a)
{
    const Plan & p = *((Body *) a)->p;
    child_setup(p.env, p.sched);
    static NullBuf nb, nb2; std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb2);
    std::shared_ptr<void> obj;
    if (p.shared >= 0) { install_prime(p.shin.pk); OpResult tmp; memset(&tmp, 0, sizeof tmp); Ctx c(p.shin, &tmp); c.begin_call(); obj = (*g_shared)[p.shared].make(c); c.end_call(false); }
    int slot = 0; static ThrArg args[MAXTHR];
    for (size_t t = 0; t < p.thr.size() && t < MAXTHR / 2; t++) {
        args[t] = { &p, (int) t, slot, obj.get() }; slot += (int) p.thr[t].size();
        spawn(thread_fn, &args[t]);
    }
    R->nops = slot;
    run_all(p.prop == "C06" ? 400000000L : 4000000000L);
    if (!heap_check_all()) R->heap_bad = 1;
}
static u64 run_hash()
{
    u64 h = 0x99; auto add = [&](u64 v) { h = hash_bytes(&v, 8, h); };
    add(R->end); add(R->end_op); add(R->sched_hash); add(R->nops); add(R->heap_bad); add(R->total_steps);
    for (int i = 0; i < R->nops && i < MAXOPS; i++) { OpResult & o = R->ops[i]; add(o.status); add(o.dout); add(o.dmod); add(o.inputs_ok); add(o.oracle); add(o.steps); add(o.draws); add(o.news); add(o.mallocs); }
    return h;
}
static RunResult & exec_plan(const Plan & p)
{
    Body b = { &p };
    run_forked(body, &b, 60);
    ST.execs++; ST.switches += R->switches; ST.steps += R->total_steps; ST.conflicts += R->conflicts;
    ST.f_new += R->f_new; ST.f_malloc += R->f_malloc; ST.f_draw += R->f_draw; ST.f_sink += R->f_sink; ST.f_clock += R->f_clock; ST.f_pre += R->npre;
    for (int i = 0; i < 64; i++) ST.probes[i] += R->probes[i];
    return *R;
}
struct Solo { bool ok; OpResult r; int end; string msg; };
static bool memo_on = false, memo_have = false; static Inst memo_i; static Solo memo_s;      // C09 makes the same call alone three times: once is enough, an execution is a function of its plan
static Solo solo(const Inst & in0, const Env & e, int shared = -1, const Inst * shin = nullptr)
{
    if (memo_on && memo_have && memo_i == in0) return memo_s;
    Plan q; q.prop = "solo"; q.env = e; q.thr.push_back({ in0 }); q.shared = shared; if (shin) q.shin = *shin;
    RunResult & r = exec_plan(q);
    Solo s; s.ok = r.end == END_DONE && r.ops[0].status == ST_OK; s.r = r.ops[0]; s.end = r.end; s.msg = r.msg;
    if (memo_on && !memo_have) { memo_i = in0; memo_s = s; memo_have = true; }
    return s;
}

// ---------------------------------------------------------------- plan text
static string sf(const char * f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static string inst_text(const Inst & i, bool shared = false, int sh = -1)
{ return sf("%s %s %llu %d %u %ld %llu", shared ? (*g_shared)[sh].name : (*g_ops)[i.op].name, pk_names[i.pk], (unsigned long long) i.seed, i.size, i.flags, i.nsteps, (unsigned long long) i.skip); }
static string plan_text(const Plan & p)
{
    string s = "pmlsim-replay 1\n";
    s += sf("prop %s\nseed %llu\nidx %ld\nkind %d\n", p.prop.c_str(), (unsigned long long) p.seed, p.idx, p.kind);
    const Env & e = p.env;
    s += sf("env %d %d %d %llu %d %d %ld %d %d %d %ld %ld %ld %d\n", e.heap_fill, e.heap_policy, e.stack_fill, (unsigned long long) e.garbage_seed, e.clock_mode, e.pool, e.alloc_fail, e.alloc_kind, e.draw_mode, e.draw_kind, e.draw_until, e.draw_val, e.sink_fail, e.sink_mode);
    for (auto & d : e.draws) s += sf("draw %ld %d %ld\n", d.idx, d.kind, d.val);
    for (auto & k : e.knobs) s += sf("knob %s %ld\n", k.first.c_str(), k.second);
    s += sf("sched %d %llu %ld %d", p.sched.policy, (unsigned long long) p.sched.seed, p.sched.mean, p.sched.depth); for (long x : p.sched.est) s += sf(" %ld", x); s += "\n";
    for (auto & x : p.sched.pre) s += sf("pre %d %ld %d\n", x.t, x.step, x.next);
    for (auto & x : p.sched.cho) s += sf("cho %d %ld %d\n", x.t, x.nth, x.next);
    if (p.shared >= 0) s += "shared " + inst_text(p.shin, true, p.shared) + "\n";
    for (auto & t : p.thr) { s += "thread\n"; for (auto & i : t) s += "op " + inst_text(i, p.shared >= 0, p.shared) + "\n"; }
    return s;
}
static int find_pk(const string & n) { for (int i = 0; i < PK_COUNT; i++) if (n == pk_names[i]) return i; return -1; }
static int find_shared(const string & n) { for (size_t i = 0; i < g_shared->size(); i++) if (n == (*g_shared)[i].name) return (int) i; return -1; }
static bool parse_plan(const string & text, Plan & p, string & ecls)
{
    std::istringstream in(text); string line; p = Plan(); bool ok = false;
    auto rd = [&](std::istringstream & l, Inst & i, bool sh) -> bool { string n, pk; if (!(l >> n >> pk >> i.seed >> i.size >> i.flags >> i.nsteps >> i.skip)) return false; i.pk = find_pk(pk); if (sh) { p.shared = find_shared(n); i.op = 0; return i.pk >= 0 && p.shared >= 0; } i.op = p.shared >= 0 ? 0 : find_op(n); return i.op >= 0 && i.pk >= 0; };
    while (std::getline(in, line)) {
        std::istringstream l(line); string k; l >> k;
        if (k == "pmlsim-replay") ok = true;
        else if (k == "prop") l >> p.prop; else if (k == "seed") l >> p.seed; else if (k == "idx") l >> p.idx; else if (k == "kind") l >> p.kind;
        else if (k == "env") { Env & e = p.env; l >> e.heap_fill >> e.heap_policy >> e.stack_fill >> e.garbage_seed >> e.clock_mode >> e.pool >> e.alloc_fail >> e.alloc_kind >> e.draw_mode >> e.draw_kind >> e.draw_until >> e.draw_val >> e.sink_fail >> e.sink_mode; }
        else if (k == "draw") { DrawFault d; l >> d.idx >> d.kind >> d.val; p.env.draws.push_back(d); }
        else if (k == "knob") { string n; long v; l >> n >> v; p.env.knobs[n] = v; }
        else if (k == "sched") { l >> p.sched.policy >> p.sched.seed >> p.sched.mean >> p.sched.depth; long x; while (l >> x) p.sched.est.push_back(x); }
        else if (k == "pre") { Preempt x; l >> x.t >> x.step >> x.next; p.sched.pre.push_back(x); }
        else if (k == "cho") { Choice x; l >> x.t >> x.nth >> x.next; p.sched.cho.push_back(x); }
        else if (k == "shared") { if (!rd(l, p.shin, true)) return false; }
        else if (k == "thread") p.thr.emplace_back();
        else if (k == "op") { Inst i; if (!rd(l, i, false)) { string rest; return false; } p.thr.back().push_back(i); }
        else if (k == "class") { std::getline(l, ecls); if (!ecls.empty() && ecls[0] == ' ') ecls.erase(0, 1); }
    }
    return ok;
}

// ---------------------------------------------------------------- plan generation
static const char * opname(const Inst & i) { return (*g_ops)[i.op].name; }
static unsigned tags(const Inst & i) { return (*g_ops)[i.op].tags; }
static vector<int> ops_with(unsigned any, unsigned none)
{ vector<int> v; for (size_t i = 0; i < g_ops->size(); i++) { unsigned t = (*g_ops)[i].tags; if ((any == 0 || (t & any)) && !(t & none)) v.push_back((int) i); } return v; }
static int pick_pk(Rng & g, unsigned mask) { int v[PK_COUNT], n = 0; for (int i = 0; i < PK_COUNT; i++) if (mask >> i & 1) v[n++] = i; return n ? v[g.below(n)] : 0; }
static Inst mk(Rng & g, int op, int maxsize, unsigned pkmask = ~0u)
{
    Inst i; i.op = op; unsigned m = (*g_ops)[op].primes & pkmask; if (!m) m = (*g_ops)[op].primes;
    i.pk = pick_pk(g, m); i.seed = g.next() >> 1;
    int r = (int) g.below(100); i.size = r < 45 ? 0 : r < 80 ? 1 : r < 95 ? 2 : 3; if (i.size > maxsize) i.size = maxsize;
    if ((*g_ops)[op].tags & TG_HEAVY) i.size = std::min(i.size, 1);
    if ((*g_ops)[op].tags & TG_OBJ) i.nsteps = g.range(3, 14);
    return i;
}
static string only_op;
static int pick_rr(const vector<int> & v, long idx, Rng & g)
{
    if (!only_op.empty()) { int o = find_op(only_op); if (o >= 0) return o; }
    return v[(size_t) idx % v.size()];
}
static void rand_sched(Rng & g, Sched & s, bool tsan)
{
    s.seed = g.next() >> 1;
    int k = (int) g.below(10);
    if (tsan && k < 6) { s.policy = 4; static const long ms[] = { 200, 1000, 5000, 40000 }; s.mean = ms[g.below(4)]; }
    else if (k < 8) { s.policy = 1; static const long ms[] = { 3, 10, 30, 100, 400, 2000, 10000 }; s.mean = ms[g.below(7)]; }
    else if (k < 9) { s.policy = 2; s.depth = (int) g.range(1, 4); }
    else { s.policy = 3; s.mean = 1L << g.range(3, 9); }
}
static void rand_env(Rng & g, Env & e)
{
    e.heap_fill = (int) g.below(6); e.heap_policy = (int) g.below(3); e.stack_fill = (int) g.below(6); e.garbage_seed = g.next() >> 1; e.clock_mode = (int) g.below(4);
}
static bool g_tsan = false;
static long knob_value(Rng & g, const KnobDef & k)
{
    string n = k.name;
    if (n.find("INV_TRUNC") != string::npos || n.find("SOLVE_LOW") != string::npos) return 1L << g.range(0, 7);
    if (k.n > 0) { long c = (long) g.below(5); return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? LONG_MAX : g.range(1, 40); }
    if (n.compare(0, 4, "MIN_") == 0) return g.range(1, 30);
    if (n.find("TRANSFORM") != string::npos) return g.range(0, 9);
    return g.chance(0.3) ? g.range(0, 4) : g.chance(0.3) ? 1000000 : g.range(1, 200);
}
static void rand_knobs(Rng & g, Env & e)
{
    double rate = g.chance(0.5) ? 0.9 : 0.35;
    for (const KnobDef * k = knob_defs; k->name; k++) if (g.chance(rate)) {
        if (k->n == 0) e.knobs[k->name] = knob_value(g, *k);
        else { bool all = g.chance(0.5); long v = knob_value(g, *k); for (long i = 0; i < k->n; i++) e.knobs[sf("%s[%ld]", k->name, i)] = all ? v : knob_value(g, *k); }
    }
}
static void rand_draws(Rng & g, Env & e, long nd)
{
    if (g.chance(0.5)) { e.draw_mode = 2; e.draw_kind = (int) g.below(DF_NKINDS); e.draw_until = g.chance(0.3) ? g.range(1, 3) : g.range(1, nd < 2 ? 2 : std::min<long>(nd + 4, 60)); e.draw_val = (long) (g.next() >> 1); }
    else {
        e.draw_mode = 1; long n = g.range(1, 6); std::set<long> seen;
        for (long i = 0; i < n; i++) { DrawFault d; d.idx = (long) g.below(nd < 1 ? 1 : nd); if (!seen.insert(d.idx).second) continue; d.kind = (int) g.below(DF_NKINDS); d.val = (long) (g.next() >> 1); e.draws.push_back(d); }
    }
}

static Plan gen(const string & prop, u64 seed, long idx)
{
    Plan p; p.prop = prop; p.seed = seed; p.idx = idx;
    Rng g(mix64(seed) ^ mix64((u64) idx * 0x9e3779b1 + 17) ^ hash_bytes(prop.data(), prop.size(), 5));
    if (prop == "C01") {
        auto v = ops_with(0, TG_OBJ | TG_OUT | TG_REFUSE); int nt = (int) g.range(2, 4); int main_op = pick_rr(v, idx, g); int mode = (int) g.below(3);
        Inst a = mk(g, main_op, 1); bool same = g.chance(0.45), twin = g.chance(0.6);        // twin: the same arguments too, so the same branches
        if (same) { mode = 0; a.size = (int) g.below(3); if (tags(a) & TG_HEAVY) a.size = std::min(a.size, 1); }     // every thread the same call at one size: the shared code paths meet
        for (int t = 0; t < nt; t++) {
            p.thr.emplace_back(); int n = (int) g.range(1, 2);
            for (int k = 0; k < n; k++) {
                Inst i = (mode < 2 && k == 0) || t == 0 ? mk(g, main_op, 1) : mk(g, v[g.below(v.size())], 1);
                if (mode == 0 && k == 0) { i.pk = a.pk; }
                if (same && k == 0) { i.size = a.size; if (twin) { i.seed = a.seed; if (t && g.chance(0.2)) i.pk = mk(g, main_op, 1).pk; } } else if (tags(i) & TG_HEAVY) i.size = 0;
                p.thr.back().push_back(i); if (same && a.size == 2) break;
            }
        }
        if (g.chance(0.3)) rand_knobs(g, p.env);
        rand_sched(g, p.sched, g_tsan); if (p.sched.policy == 4) p.env.heap_policy = 2;
    } else if (prop == "C02") {
        p.shared = (int) (idx % (long) g_shared->size()); Inst i; i.pk = pick_pk(g, (*g_shared)[p.shared].primes); i.seed = g.next() >> 1; i.size = (int) g.below(2); p.shin = i;
        int nt = (int) g.range(2, 4); bool twin = g.chance(0.4); u64 ts = g.next() >> 1;
        for (int t = 0; t < nt; t++) { p.thr.emplace_back(); int n = (int) g.range(1, 2); for (int k = 0; k < n; k++) { Inst u; u.pk = i.pk; u.seed = twin && k == 0 ? ts : g.next() >> 1; u.size = i.size; p.thr.back().push_back(u); } }
        if (g.chance(0.3)) rand_knobs(g, p.env);
        rand_sched(g, p.sched, g_tsan); if (p.sched.policy == 4) p.env.heap_policy = 2;
    } else if (prop == "C03") {
        auto v = ops_with(0, TG_OUT); vector<Inst> t; int n = (int) g.range(1, 3);
        for (int k = 0; k < n; k++) { Inst i = mk(g, k == 0 ? pick_rr(v, idx, g) : v[g.below(v.size())], 2); t.push_back(i); }
        p.thr.push_back(t);
        if (g.chance(0.35)) { p.kind = 1; p.env.alloc_fail = (long) g.below(1000000); p.env.alloc_kind = 0; }   // scaled to the op later
        else if (g.chance(0.4)) rand_knobs(g, p.env);
    } else if (prop == "C04") {
        auto v = ops_with(TG_VERIFY | TG_SOUND, 0); Inst i = mk(g, pick_rr(v, idx, g), 2); i.flags |= FL_ORACLE;
        if (!(tags(i) & TG_SOUND) && g.chance(0.75)) { i.flags |= FL_TAMPERED; p.kind = 1; }
        p.thr.push_back({ i });
    } else if (prop == "C05") {
        auto v = ops_with(TG_LV | TG_MC, TG_POINTS); Inst i = mk(g, pick_rr(v, idx, g), 2); i.flags |= FL_ORACLE;
        if (!(tags(i) & TG_MC) && g.chance(0.7)) { i.flags |= FL_TAMPERED; p.kind = 1; }
        p.thr.push_back({ i });
    } else if (prop == "C06") {
        auto v = ops_with(TG_POINTS, 0); Inst i = mk(g, pick_rr(v, idx, g), 2); i.flags |= FL_ORACLE;
        if ((tags(i) & TG_RANDOM) && g.chance(0.7)) { i.flags |= FL_TAMPERED; p.kind = 1; }
        p.thr.push_back({ i });
    } else if (prop == "C07") {
        auto v = ops_with(TG_VARIANT | TG_KNOB, 0); Inst i = mk(g, pick_rr(v, idx, g), 3); i.flags |= FL_ORACLE; p.thr.push_back({ i });
        if (g.chance(0.8)) rand_knobs(g, p.env);
    } else if (prop == "C08") {
        auto v = ops_with(0, TG_OUT | TG_REFUSE); Inst i = mk(g, pick_rr(v, idx, g), 2); i.flags |= FL_ORACLE; p.thr.push_back({ i }); rand_env(g, p.env);
    } else if (prop == "C09") {
        auto v = ops_with(0, TG_OUT); Inst i = mk(g, pick_rr(v, idx, g), 1); Inst j = mk(g, v[g.below(v.size())], 0);
        if ((tags(i) & TG_REFUSE) || g.chance(0.3)) i.flags |= FL_ORACLE; if ((tags(j) & TG_REFUSE) || g.chance(0.3)) j.flags |= FL_ORACLE;
        p.thr.push_back({ i, i, j });
        p.env.alloc_kind = g.chance(0.6) ? 0 : 1; p.env.alloc_fail = (long) g.below(1000000); p.kind = 1;
    } else if (prop == "C10") {
        auto v = ops_with(TG_OUT, 0); Inst i = mk(g, pick_rr(v, idx, g), 2); i.flags |= FL_ORACLE; p.thr.push_back({ i });
        if (g.chance(0.7)) { p.env.sink_fail = (long) g.below(g.chance(0.5) ? 40 : 2000); p.env.sink_mode = (int) g.below(3); }
    } else if (prop == "C11") {
        auto v = ops_with(0, TG_OBJ | TG_OUT | TG_REFUSE); p.kind = 10 + (int) g.below(2); p.env.pool = (int) g.range(2, 4);
        Inst i = mk(g, pick_rr(v, idx, g), 3); p.thr.push_back({ i });
        if (p.kind == 11) { i = mk(g, i.op, 1); p.thr[0] = { i }; while ((int) p.thr[0].size() < p.env.pool) p.thr[0].push_back(mk(g, g.chance(0.5) ? i.op : v[g.below(v.size())], 1)); }
        else if (g.chance(0.3)) { Inst j = mk(g, v[g.below(v.size())], 1); p.thr.push_back({ j }); }
        if (g.chance(0.25)) rand_knobs(g, p.env);
        rand_sched(g, p.sched, g_tsan); if (p.sched.policy == 4) p.env.heap_policy = 2;
    } else if (prop == "C12") {
        auto v = ops_with(TG_OBJ, 0); Inst i = mk(g, pick_rr(v, idx, g), 2); i.flags |= FL_ORACLE; i.nsteps = g.range(3, 24); p.thr.push_back({ i });
        if (g.chance(0.4)) rand_knobs(g, p.env);
        if (g.chance(0.5)) rand_env(g, p.env);
    } else if (prop == "C13") {
        auto v = ops_with(0, TG_OBJ | TG_OUT | TG_REFUSE); vector<Inst> t; bool lean = g.chance(0.5); int n = (int) (lean ? g.range(3, 12) : g.range(1, 5)); int main_op = pick_rr(v, idx, g); if (lean) p.kind = 20;   // lean: longer, judged by the references first
        bool twin = n > 1 && g.chance(0.3); u64 ts = g.next() >> 1; int tz = (int) g.below(3);       // twin: calls of one shape (one seed), over various rings
        for (int k = 0; k < n; k++) {
            Inst i = mk(g, (k == n - 1 || twin || g.chance(0.3)) ? main_op : v[g.below(v.size())], 1); i.flags |= FL_ORACLE;
            if (twin) { if (g.chance(0.8)) i.seed = ts; i.size = tags(i) & TG_HEAVY ? std::min(tz, 1) : tz; }
            else
            if (k == n - 1) { int r = (int) g.below(100); i.size = r < 40 ? 0 : r < 80 ? 1 : 2; if (tags(i) & TG_HEAVY) i.size = std::min(i.size, 1); }
            if (!(tags(i) & TG_NOSOIL) && g.chance(0.7)) i.flags |= FL_SOIL;
            if ((tags(i) & TG_ALIAS) && g.chance(0.6)) { i.flags |= FL_ALIAS; i.flags &= ~FL_SOIL; }
            t.push_back(i);
        }
        p.thr.push_back(t); if (g.chance(0.3)) rand_knobs(g, p.env);
    }
    return p;
}

// ---------------------------------------------------------------- judgement
static Verdict bad(const string & cls, const string & op, const string & msg) { Verdict v; v.bad = true; v.cls = cls; v.op = op; v.msg = msg; return v; }
static const char * end_name(int e) { static const char * n[] = { "running", "done", "ntl-error", "signal", "abort", "step-cap", "deadlock", "timeout", "bad-exit" }; return n[e]; }
static string nameof(const Plan & p, const Inst & i) { return p.shared >= 0 ? string((*g_shared)[p.shared].name) : string(opname(i)); }
static const Inst * inst_at(const Plan & p, int slot) { int k = 0; for (auto & t : p.thr) for (auto & i : t) if (k++ == slot) return &i; return nullptr; }

static void scale_faults(Plan & p)      // resolve the fault position against a fault-free probe of the op
{
    if (p.kind != 1) return;
    Inst i = p.thr[0][0]; Env e;
    if (p.prop == "C03" || p.prop == "C09") {
        i.flags &= ~FL_TAMPERED; Solo s = solo(i, e); long n = p.env.alloc_kind == 0 ? s.r.news : s.r.mallocs;
        if (n <= 0) { p.env.alloc_fail = -1; p.kind = 2; } else { p.env.alloc_fail = p.env.alloc_fail % n; p.kind = 2; }
    } else {
        i.flags &= ~FL_TAMPERED; Solo s = solo(i, e); Rng g(mix64(p.seed * 31 + p.idx)); rand_draws(g, p.env, s.r.draws); p.kind = 2;
    }
}

static Verdict judge(Plan & p)
{
    Verdict v; const string & P = p.prop;
    memo_on = P == "C09"; memo_have = false;
    scale_faults(p);
    int total = 0; for (auto & t : p.thr) total += (int) t.size();
    if (total == 0 || total > MAXOPS) { v.skip = true; return v; }
    if (p.kind == 20 && P == "C13") {       // references first; the same calls alone are made only when something looks wrong
        RunResult & r = exec_plan(p); bool fine = r.end == END_DONE && !r.heap_bad; int k = 0;
        for (auto & t : p.thr) for (size_t j = 0; j < t.size(); j++, k++) { OpResult & o = r.ops[k]; if (o.status != ST_OK || o.dmod || !o.inputs_ok || o.oracle == 2) fine = false; }
        if (fine) { v.hash = run_hash(); ST.ends[end_name(r.end)]++; k = 0; for (auto & t : p.thr) for (auto & i : t) { ST.ops++; ST.opn[nameof(p, i)]++; k++; } return v; }
    }
    vector<Solo> base;
    bool need_base = P == "C01" || P == "C02" || P == "C08" || P == "C09" || P == "C11" || P == "C13" || P == "C07";
    if (need_base) {
        for (auto & t : p.thr) for (size_t k = 0; k < t.size();) {
            Inst i = t[k]; i.flags &= ~(FL_SOIL | FL_ALIAS); Env e; if (P != "C07" && P != "C08") e.knobs = p.env.knobs;
            Solo s = solo(i, e, p.shared, p.shared >= 0 ? &p.shin : nullptr);
            bool drop = !s.ok;
            if (drop && (P == "C08" || P == "C07")) return bad(string("solo-") + end_name(s.end), nameof(p, i), s.end == END_DONE ? string("throws: ") + s.r.msg : s.msg);
            if ((P == "C09") && s.r.status == ST_EXC && s.end == END_DONE) drop = false;     // refused calls
            if (P == "C09" && (tags(i) & TG_REFUSE) && (drop || s.r.oracle == 2)) return bad(drop ? string("solo-") + end_name(s.end) : string("not-refused"), nameof(p, i), drop ? s.msg : s.r.msg);
            if (drop) { ST.opskip[nameof(p, i)]++; t.erase(t.begin() + k); continue; }
            if (s.r.oracle == 2 && P == "C08") return bad("oracle", nameof(p, i), s.r.msg);
            base.push_back(s); k++;
        }
        total = 0; for (auto & t : p.thr) total += (int) t.size();
        if (total == 0) { v.skip = true; return v; }
        if (p.sched.policy == 2 && p.sched.est.empty()) { size_t b = 0; for (auto & t : p.thr) { long s = 1; for (size_t k = 0; k < t.size(); k++) s += base[b++].r.steps; p.sched.est.push_back(s); } }
    }
    RunResult & r = exec_plan(p);
    v.hash = run_hash(); ST.ends[end_name(r.end)]++;
    string eop = r.end_op >= 0 && inst_at(p, r.end_op) ? nameof(p, *inst_at(p, r.end_op)) : "";
    if (r.end == END_TIMEOUT || r.end == END_BADEXIT || (r.end == END_STEPS && P != "C06")) { v.skip = true; v.msg = r.msg; return v; }
    if (r.heap_bad && r.end != END_SIGNAL) return bad("heap-corruption", eop, r.msg);
    bool faulted = p.kind == 2 && (p.env.alloc_fail >= 0);
    if (r.end != END_DONE) {
        Verdict b = bad(string("end-") + end_name(r.end), eop, sf("%s signal=%d %s", end_name(r.end), r.sig, r.msg)); b.hash = v.hash;
        if (P == "C09" || P == "C03") {
            if (faulted && p.env.alloc_kind == 1 && r.f_malloc > 0) { ST.aborts_ok++; return v; }       // loud end of the process: allowed
            if (faulted && r.f_new > 0 && r.end == END_NTLERR) { ST.aborts_ok++; return v; }                 // NTL's own guards turn bad_alloc into a loud end
            if (P == "C03") { v.skip = true; ST.opskip[eop]++; return v; }
            if (!faulted) { v.skip = true; return v; }
            return b;
        }
        if ((P == "C05" || P == "C04" || P == "C06") && r.end == END_NTLERR && r.f_draw > 0 && (P != "C04")) { ST.aborts_ok++; return v; }
        if (P == "C10") return b;
        return b;
    }
    // per-op verdicts
    int slot = 0;
    for (auto & t : p.thr) for (auto & i : t) {
        OpResult & o = r.ops[slot]; string nm = nameof(p, i); ST.ops++; ST.opn[nm]++;
        Verdict b; 
        if (o.status != ST_OK && o.status != ST_EXC) b = bad("op-did-not-finish", nm, "");
        else if (o.dmod) b = bad("modulus-changed", nm, "a call returned with another modulus or FFT mode installed");
        else if (!o.inputs_ok) b = bad("input-changed", nm, "a call modified an object it only reads");
        else if (need_base) {
            Solo & s = base[slot];
            bool fired = o.fresh_exc && faulted;
            if (o.status == ST_EXC) {
                if (fired || (s.r.status == ST_EXC)) ; // reported failure
                else b = bad("unexpected-exception", nm, o.msg);
            } else if (s.r.status == ST_EXC && !fired) b = bad("refusal-lost", nm, "a call that must be refused returned normally");
            else if (o.oracle == 2) b = bad("oracle", nm, o.msg);
            else if (P == "C07" && (tags(i) & TG_RANDOM)) ;
            else if (P == "C13" && (i.flags & FL_ALIAS)) ;      // aliasing may constrain the shapes: the oracle decides
            else if (o.dout != s.r.dout && s.r.status != ST_EXC) b = bad("result-differs", nm, "result differs from the same call made alone");
        } else {
            bool refuse = (tags(i) & TG_REFUSE);
            if (o.status == ST_EXC && !(faulted && o.fresh_exc) && !refuse && P != "C03") b = bad("unexpected-exception", nm, o.msg);
            else if (o.oracle == 2 && P != "C03") b = bad("oracle", nm, o.msg);
        }
        if (b.bad) { b.hash = v.hash; return b; }
        slot++;
    }
    return v;
}

// ---------------------------------------------------------------- minimisation
static double min_deadline;
static bool still(const Plan & q, const Verdict & v0) { if (now() > min_deadline) return false; Plan c = q; Verdict v = judge(c); return v.bad && v.cls == v0.cls && v.op == v0.op; }
static void freeze_schedule(Plan & p)
{
    // the last exec of judge() was the run itself
    p.sched.policy = 0; p.sched.pre.assign(R->pre, R->pre + R->npre); p.sched.cho.assign(R->cho, R->cho + R->ncho); p.sched.est.clear();
}
template <class T> static void ddmin(Plan & p, vector<T> & list, const Verdict & v0)
{
    size_t chunk = list.size();
    while (chunk >= 1 && !list.empty() && now() < min_deadline) {
        bool any = false;
        for (size_t a = 0; a < list.size() && now() < min_deadline;) {
            vector<T> keep = list; size_t e = std::min(list.size(), a + chunk);
            list.erase(list.begin() + a, list.begin() + e);
            if (still(p, v0)) any = true; else { list = keep; a += chunk; }
        }
        if (chunk == 1 && !any) break;
        chunk = chunk > 1 ? chunk / 2 : 1;
        if (chunk == 1 && !any && list.size() <= 1) break;
    }
}
static Plan minimise(Plan p, const Verdict & v0, double budget)
{
    min_deadline = now() + budget;
    for (size_t t = 0; t < p.thr.size(); t++) { auto keep = p.thr[t]; if (keep.empty()) continue; p.thr[t].clear(); if (!still(p, v0)) p.thr[t] = keep; }
    for (size_t t = 0; t < p.thr.size(); t++) for (size_t k = 0; k < p.thr[t].size();) { auto keep = p.thr[t]; p.thr[t].erase(p.thr[t].begin() + k); if (still(p, v0)) continue; p.thr[t] = keep; k++; }
    ddmin(p, p.sched.pre, v0);
    { auto keep = p.sched.cho; p.sched.cho.clear(); if (!still(p, v0)) { p.sched.cho = keep; ddmin(p, p.sched.cho, v0); } }
    if (!p.env.knobs.empty()) { vector<std::pair<string, long>> kv(p.env.knobs.begin(), p.env.knobs.end()), keep;
        size_t chunk = kv.size();
        while (chunk >= 1 && !kv.empty() && now() < min_deadline) { for (size_t a = 0; a < kv.size();) { auto k2 = kv; kv.erase(kv.begin() + a, kv.begin() + std::min(kv.size(), a + chunk)); p.env.knobs.clear(); for (auto & x : kv) p.env.knobs[x.first] = x.second; if (!still(p, v0)) { kv = k2; a += chunk; } } if (chunk == 1) break; chunk /= 2; }
        p.env.knobs.clear(); for (auto & x : kv) p.env.knobs[x.first] = x.second; }
    ddmin(p, p.env.draws, v0);
    if (p.env.draw_mode == 2) { while (p.env.draw_until > 1) { Plan q = p; q.env.draw_until /= 2; if (still(q, v0)) p = q; else break; } }
    Env d; Plan q;
#define TRY(f) q = p; q.env.f = d.f; if (!(q.env.f == p.env.f) && still(q, v0)) p = q;
    TRY(heap_fill) TRY(heap_policy) TRY(stack_fill) TRY(garbage_seed) TRY(clock_mode) TRY(pool)
    for (size_t t = 0; t < p.thr.size(); t++) for (size_t k = 0; k < p.thr[t].size(); k++) {
        while (p.thr[t][k].size > 0) { q = p; q.thr[t][k].size--; if (still(q, v0)) p = q; else break; }
        for (unsigned f : { FL_SOIL, FL_ALIAS }) if (p.thr[t][k].flags & f) { q = p; q.thr[t][k].flags &= ~f; if (still(q, v0)) p = q; }
        if (tags(p.thr[t][k]) & TG_OBJ) {
            while (p.thr[t][k].nsteps > 1) { q = p; q.thr[t][k].nsteps--; if (still(q, v0)) p = q; else break; }
            for (long s = 0; s < p.thr[t][k].nsteps && s < 64; s++) { q = p; q.thr[t][k].skip |= 1ULL << s; if (still(q, v0)) p = q; }
        }
    }
    return p;
}

// ---------------------------------------------------------------- reporting
static string jesc(const string & s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char) c < 32) o += ' '; else o += c; } return o; }
static u64 plan_key(const Plan & p) { u64 h = 3; string s; for (auto & t : p.thr) for (auto & i : t) { s = sf("%s %d %d %u", nameof(p, i).c_str(), i.pk, i.size, i.flags); h = hash_bytes(s.data(), s.size(), h); } return h; }
static void write_stats(const string & path)
{
    std::ofstream o(path + ".tmp");
    o << "{\"runs\":" << ST.runs << ",\"execs\":" << ST.execs << ",\"ops\":" << ST.ops << ",\"skips\":" << ST.skips << ",\"nontrivial\":" << ST.nontrivial << ",\"switches\":" << ST.switches << ",\"steps\":" << ST.steps << ",\"conflicts\":" << ST.conflicts
      << ",\"aborts_ok\":" << ST.aborts_ok << ",\"faults\":{\"new\":" << ST.f_new << ",\"malloc\":" << ST.f_malloc << ",\"draw\":" << ST.f_draw << ",\"sink\":" << ST.f_sink << ",\"clock\":" << ST.f_clock << ",\"preempt\":" << ST.f_pre << ",\"knob\":" << ST.f_knob << ",\"heap\":" << ST.f_heap << ",\"stack\":" << ST.f_stack << ",\"pool\":" << ST.f_pool << ",\"alias\":" << ST.f_alias << ",\"soil\":" << ST.f_soil << "}";
    auto mp = [&](const char * n, std::map<string, long> & m) { o << ",\"" << n << "\":{"; bool f = true; for (auto & x : m) { o << (f ? "" : ",") << "\"" << x.first << "\":" << x.second; f = false; } o << "}"; };
    mp("opn", ST.opn); mp("opskip", ST.opskip); mp("ends", ST.ends);
    auto stt = [&](const char * n, std::set<u64> & m) { o << ",\"" << n << "\":["; bool f = true; for (u64 x : m) { o << (f ? "" : ",") << "\"" << std::hex << (x & 0xffffffffffffULL) << std::dec << "\""; f = false; } o << "]"; };
    stt("scheds", ST.scheds); stt("distinct", ST.distinct);
    o << ",\"samples\":["; for (size_t i = 0; i < ST.samples.size(); i++) o << (i ? "," : "") << "\"" << jesc(ST.samples[i]) << "\""; o << "]}\n"; o.close();
    rename((path + ".tmp").c_str(), path.c_str());
}

int main(int argc, char ** argv)
{
    string mode = argc > 1 ? argv[1] : "", prop, out, file; u64 seed = 1; long start = 0, stride = 1, count = LONG_MAX, minb = 60; double tlim = 20; bool hashes = false;
    for (int i = 2; i + 1 < argc + 1 && i < argc; i++) {
        string a = argv[i]; auto nx = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--start") start = atol(nx().c_str()); else if (a == "--stride") stride = atol(nx().c_str());
        else if (a == "--count") count = atol(nx().c_str()); else if (a == "--time") tlim = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--file") file = nx(); else if (a == "--tsan") g_tsan = true; else if (a == "--hashes") hashes = true; else if (a == "--op") only_op = nx(); else if (a == "--minimise") minb = atol(nx().c_str());
    }
    R = (RunResult *) mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    core_init_process(); primes_init();
    if (mode == "list") { for (auto & o : *g_ops) printf("%s %x %x\n", o.name, o.primes, o.tags); for (auto & s : *g_shared) printf("shared:%s\n", s.name); for (const KnobDef * k = knob_defs; k->name; k++) printf("knob:%s %s %ld\n", k->file, k->name, k->n); return 0; }
    if (mode == "solo") {   // run every op alone, many seeds: harness self-check
        long nb = 0;
        for (size_t o = 0; o < g_ops->size(); o++) {
            if (!only_op.empty() && only_op != (*g_ops)[o].name) continue;
            long okc = 0, ex = 0, en = 0, orc = 0, tm = 0; string msg; double t0 = now(); long st = 0;
            for (long k = 0; k < count && k < 100000; k++) { Rng g(mix64(seed * 1000 + k)); Inst i = mk(g, (int) o, 3); if (!((*g_ops)[o].tags & TG_OBJ)) i.flags |= FL_ORACLE; if (start) i.size = (int) start - 1; Env e; Solo s = solo(i, e); st += s.r.steps;
                if (s.end == END_TIMEOUT) tm++;
                if (s.end != END_DONE || R->heap_bad) { en++; if (msg.empty()) msg = sf("[%s sig%d heap%d %s] %s", end_name(s.end), R->sig, R->heap_bad, s.msg.c_str(), inst_text(i).c_str()); } else if (s.r.status == ST_EXC) { ex++; if (msg.empty() && !((*g_ops)[o].tags & TG_REFUSE)) msg = string("[exc] ") + s.r.msg + " " + inst_text(i); } else okc++;
                if (s.r.oracle == 2 || s.r.dmod || !s.r.inputs_ok) { orc++; msg = sf("[oracle dmod=%d inputs=%d %s] %s", (int) s.r.dmod, s.r.inputs_ok, s.r.msg, inst_text(i).c_str()); } }
            printf("%-28s ok %ld exc %ld end %ld oracle-bad %ld  %.2f ms  steps %ld %s\n", (*g_ops)[o].name, okc, ex, en, orc, 1000 * (now() - t0) / std::max<long>(1, std::min<long>(count, 100000)), st / std::max<long>(1, std::min<long>(count, 100000)), msg.c_str()); fflush(stdout); nb += en + orc;
        }
        return nb ? 1 : 0;
    }
    if (mode == "replay") {
        std::ifstream f(file); std::stringstream ss; ss << f.rdbuf(); Plan p; string ecls;
        if (!parse_plan(ss.str(), p, ecls)) { printf("REPLAY-ERROR cannot parse %s\n", file.c_str()); return 2; }
        if (p.sched.policy == 4 ) g_tsan = true;
        Plan q = p; Verdict v = judge(p); Verdict w = judge(q);
        string got = v.bad ? v.cls + " " + v.op : "none";
        printf("%s class=%s msg=%s hash=%016llx\n", v.bad ? "REPRODUCED" : "NOT-REPRODUCED", got.c_str(), v.msg.c_str(), (unsigned long long) v.hash);
        if (v.bad != w.bad || v.hash != w.hash || v.cls != w.cls) { printf("REPLAY-ERROR two executions differ\n"); return 2; }
        if (v.bad && !ecls.empty() && got != ecls) { printf("REPLAY-ERROR expected %s\n", ecls.c_str()); return 2; }
        return v.bad ? 1 : 0;
    }
    if (mode == "run") {
        double t0 = now(), last = t0; 
        for (long k = 0, idx = start; k < count && now() - t0 < tlim; k++, idx += stride) {
            Plan p = gen(prop, seed, idx); Plan p0 = p; Verdict v = judge(p); ST.runs++;
            if (hashes) printf("H %ld %016llx %d\n", idx, (unsigned long long) v.hash, (int) v.bad);
            if (v.skip) { ST.skips++; continue; }
            ST.scheds.insert(R->sched_hash);
            if (ST.distinct.insert(v.hash).second) ST.nontrivial++;
            if (!p.env.knobs.empty()) ST.f_knob += (long) p.env.knobs.size();
            if (p.env.heap_fill != 1 || p.env.heap_policy) ST.f_heap++; if (p.env.stack_fill != 1) ST.f_stack++; if (p.env.pool) ST.f_pool++;
            for (auto & t : p.thr) for (auto & i : t) { if (i.flags & FL_SOIL) ST.f_soil++; if (i.flags & FL_ALIAS) ST.f_alias++; }
            if (ST.samples.size() < 3 && (k % 37) == 5) ST.samples.push_back(plan_text(p).substr(0, 1500));
            if (!out.empty() && now() - last > 5) { write_stats(out); last = now(); }
            if (v.bad && !hashes) {
                // gate: same seed again must give the same execution and verdict
                freeze_schedule(p);
                Plan p1 = p0; Verdict v1 = judge(p1); bool det = v1.bad && v1.cls == v.cls && v1.op == v.op && (v1.hash == v.hash);
                Plan pf = p; if (pf.sched.policy == 0) { Plan c = pf; Verdict vf = judge(c); if (!(vf.bad && vf.cls == v.cls && vf.op == v.op)) { pf = p0; scale_faults(pf); } }
                Plan m = minimise(pf, v, (double) minb); Plan mc = m; Verdict vm = judge(mc);
                bool same = vm.bad && vm.cls == v.cls && vm.op == v.op;
                if (!same) { m = pf; }
                string path = out + sf(".viol%ld", idx);
                std::ofstream o(path); o << plan_text(m) << "class " << v.cls << " " << v.op << "\n# " << v.msg << "\n"; o.close();
                printf("V idx=%ld det=%d min=%d class=%s op=%s msg=%s replay=%s\n", idx, (int) det, (int) same, v.cls.c_str(), v.op.c_str(), v.msg.c_str(), path.c_str()); fflush(stdout);
                if (only_op.empty()) break;
            }
        }
        if (!out.empty()) write_stats(out);
        printf("DONE runs=%ld execs=%ld skips=%ld\n", ST.runs, ST.execs, ST.skips);
        return 0;
    }
    fprintf(stderr, "usage: pmlsim list|solo|run|replay\n"); return 2;
}
