// Operation registry: each operation draws its inputs from its own seeded
// generator, performs calls into the library under test inside call(...), feeds
// outputs into a digest and, when asked, checks them against a reference.
#ifndef PMLSIM_OPS_H
#define PMLSIM_OPS_H
#include "core.h"
#include <NTL/lzz_p.h>
#include <NTL/lzz_pX.h>
#include <NTL/vec_lzz_p.h>
#include <NTL/mat_lzz_p.h>
#include <NTL/matrix.h>
#include <NTL/vector.h>
#include <NTL/ZZX.h>
#include <functional>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <sstream>
#include "util.h"
#include "lzz_p_extra.h"
#include "vec_lzz_p_extra.h"
#include "lzz_pX_extra.h"
#include "lzz_pX_middle_product.h"
#include "lzz_pX_CRT.h"
#include "mat_lzz_p_extra.h"
#include "structured_lzz_p.h"
#include "mat_lzz_pX_utils.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_arith.h"
#include "mat_lzz_pX_forms.h"
#include "mat_lzz_pX_multiply.h"
#include "mat_lzz_pX_linearization.h"
#include "mat_lzz_pX_inverse.h"
#include "mat_lzz_pX_linsolve.h"
#include "mat_lzz_pX_approximant.h"
#include "mat_lzz_pX_interpolant.h"
#include "mat_lzz_pX_kernel.h"
#include "mat_lzz_pX_determinant.h"
#include "mat_lzz_pX_sequence.h"
#include "lzz_pXY.h"
#include "structured_lzz_pX.h"
#include "lzz_pX_seq.h"
#include "magma_output.h"
#include "sage_output.h"

NTL_CLIENT
PML_CLIENT

namespace sim {

// ---- prime kinds --------------------------------------------------------------
enum { PK_FFT60 = 0, PK_FFT60B, PK_UFFT30, PK_UFFT20, PK_LARGE60, PK_MID30, PK_SMALL20, PK_TINY, PK_UFFT17, PK_P27, PK_COMP60, PK_COMP20, PK_COUNT };
enum : unsigned {
    PM_FFT   = (1u << PK_FFT60) | (1u << PK_FFT60B) | (1u << PK_UFFT30) | (1u << PK_UFFT20),
    PM_NOFFT = (1u << PK_LARGE60) | (1u << PK_MID30) | (1u << PK_SMALL20) | (1u << PK_P27),
    PM_BIG   = (1u << PK_FFT60) | (1u << PK_FFT60B) | (1u << PK_UFFT30) | (1u << PK_LARGE60) | (1u << PK_MID30) | (1u << PK_P27),
    PM_ALL   = PM_FFT | PM_NOFFT,
    PM_ANY   = PM_ALL | (1u << PK_TINY) | (1u << PK_UFFT17),
    PM_COMP  = (1u << PK_COMP60) | (1u << PK_COMP20),        // odd composite moduli, for what is documented not to need a prime
    PM_60    = (1u << PK_FFT60) | (1u << PK_FFT60B) | (1u << PK_LARGE60),
};
extern const char * pk_names[PK_COUNT];
void primes_init();
void install_prime(int pk);
long prime_of(int pk);

// ---- flags of an op instance ------------------------------------------------------
enum : unsigned { FL_SOIL = 1, FL_ALIAS = 2, FL_ORACLE = 4, FL_RETRY = 8, FL_TAMPERED = 16 };

struct Inst {           // one op instance, fully determined
    int op = 0; int pk = 0; u64 seed = 1; int size = 0; unsigned flags = 0; long nsteps = 4; u64 skip = 0;
    bool operator==(const Inst & o) const { return op == o.op && pk == o.pk && seed == o.seed && size == o.size && flags == o.flags && nsteps == o.nsteps && skip == o.skip; }
};

struct ModSig { long p, fft, cnt, maxroot; };
ModSig mod_sig();

struct Ctx {
    Inst in;
    Rng g, s;           // inputs; soil / alias choices
    OpResult * r;
    u64 h;
    bool oracle;
    ModSig sig0;
    int calls;
    bool quiet_steps;

    Ctx(const Inst & i, OpResult * rr);

    // generators
    long below(long n) { return (long) g.below((u64) n); }
    long range(long a, long b) { return g.range(a, b); }
    bool coin(double p = 0.5) { return g.chance(p); }
    long dim(long a0, long a1, long a2, long a3) { long m[4] = { a0, a1, a2, a3 }; long k = in.size < 0 ? 0 : in.size > 3 ? 3 : in.size; return range(1, m[k]); }
    long len(long a0, long a1, long a2, long a3) { return dim(a0, a1, a2, a3); }
    long edge(long v) { long d = below(4); return d == 0 ? v : d == 1 ? v + 1 : d == 2 ? (v > 1 ? v - 1 : v) : range(1, v); }   // around v
    zz_p el(int style = 0);
    zz_p nz();
    int style() { int k = (int) below(12); return k < 6 ? 0 : k < 8 ? 1 : k < 10 ? 2 : k == 10 ? 3 : 4; }
    zz_pX poly(long n, int st = -1);            // degree < n
    zz_pX poly_exact(long d);                   // degree exactly d
    Vec<zz_p> vec(long n, int st = -1);
    Vec<zz_p> distinct(long n);
    Mat<zz_p> cmat(long m, long n, int st = -1);
    Vec<zz_pX> pvec(long n, long len, int st = -1);
    Mat<zz_pX> pmat(long m, long n, long len, int st = -1);
    Mat<zz_pX> pmat_generic(long m, long n, long len);    // dense uniform
    VecLong shift(long n, long amp);
    zz_pXY xy(long dx, long dy);

    // destination soiling (only with FL_SOIL)
    bool soiled() const { return in.flags & FL_SOIL; }
    void soil(zz_p & x); void soil(zz_pX & x); void soil(Vec<zz_p> & x); void soil(Mat<zz_p> & x);
    void soil(Vec<zz_pX> & x); void soil(Mat<zz_pX> & x); void soil(VecLong & x); void soil(Vec<Mat<zz_p>> & x);
    void soil(Vec<Vec<zz_p>> & x); void soil(zz_pXY & x); void soil(Mat<long> & x); void soil(Vec<Vec<zz_pX>> & x);
    void soil(Vec<zz_pXY> & x);
    int alias(int n) { return (in.flags & FL_ALIAS) ? 1 + (int) s.below(n) : 0; }    // 0: no aliasing

    // digests
    void out(long x) { h = hash_bytes(&x, 8, h); }
    void out(const zz_p & x) { out((long) rep(x)); }
    void out(const zz_pX & x); void out(const Vec<zz_p> & x); void out(const Mat<zz_p> & x);
    void out(const Vec<zz_pX> & x); void out(const Mat<zz_pX> & x); void out(const VecLong & x); void out(const Mat<long> & x);
    void out(const Vec<Mat<zz_p>> & x); void out(const Vec<Vec<zz_p>> & x); void out(const zz_pXY & x); void out(const Vec<long> & x);
    void out(const Vec<Vec<zz_pX>> & x); void out(const Vec<zz_pXY> & x); void out(const std::string & x);
    template <class T> u64 dig(const T & x) { u64 k = h; h = 0x51; out(x); u64 r2 = h; h = k; return r2; }

    // inputs that must not change
    std::vector<std::function<bool()>> pins;
    template <class T> void pin(const T & x) { u64 d = dig(x); const T * p = &x; Ctx * c = this; pins.push_back([=]() { return c->dig(*p) == d; }); }
    void check_pins();

    // call into the library
    template <class F> void call(F f) { begin_call(); try { f(); } catch (...) { end_call(true); throw; } end_call(false); }
    void begin_call();
    void end_call(bool exc);
    template <class F> bool call_caught(F f)    // true: returned; false: threw
    { try { call(f); return true; } catch (const std::exception &) { return false; } }
    template <class F> bool refused(F f)        // true: the call stopped with an error (library error or exception) instead of returning
    { bool r = false; expect_refusal(true); try { call(f); } catch (const Refused &) { r = true; } catch (const std::bad_alloc &) { expect_refusal(false); throw; } catch (const std::exception &) { r = true; } expect_refusal(false); return r; }

    // oracle verdicts
    void check(bool ok, const char * what);
    void note(const char * what);
};

inline u64 stepseed(Ctx & c, long i) { return mix64(c.in.seed * 1000003 + i); }
inline bool skipped(Ctx & c, long i) { return (c.in.skip >> (i & 63)) & 1; }
#define STEPS(c) for (long st_ = 0; st_ < (c).in.nsteps; st_++) if (!sim::skipped(c, st_)) if (((c).g = Rng(sim::stepseed(c, st_))), true)
void foreign_work(Ctx & c);     // other work under another modulus

struct PinScope { Ctx & c; size_t n; PinScope(Ctx & cc) : c(cc), n(cc.pins.size()) { } ~PinScope() { c.pins.resize(n); } };

enum : unsigned {
    TG_RANDOM = 1,      // consumes random draws
    TG_LV = 2,          // its own success report must be trusted under any draws
    TG_MC = 4,          // Monte Carlo: judged under fair draws and 60-bit fields only
    TG_ALIAS = 8,       // has alias modes
    TG_VERIFY = 16,     // a verifier accepting a valid claim (check inside)
    TG_POINTS = 32,     // evaluation point selection
    TG_OBJ = 64,        // object history
    TG_OUT = 128,       // output writers
    TG_VARIANT = 256,   // algorithm variants against a reference
    TG_SWITCH = 512,    // internally switches modulus
    TG_REFUSE = 1024,   // call that must be refused by an exception
    TG_HEAVY = 2048,
    TG_NOSOIL = 4096,
    TG_SOUND = 8192,    // a verifier rejecting a wrong claim (fair draws, large field)
    TG_SHARED = 16384,  // op on a shared object (C02)
    TG_KNOB = 32768     // dispatches on tuning thresholds
};

struct OpDef { const char * name; unsigned primes; unsigned tags; void (*fn)(Ctx &); };
extern std::vector<OpDef> * g_ops;
struct Reg { Reg(const char * n, unsigned pm, unsigned tg, void (*f)(Ctx &)); };
#define OP(name, primes, tags) static void op_##name(Ctx & c); static sim::Reg reg_##name(#name, primes, tags, op_##name); static void op_##name(Ctx & c)

struct SharedDef { const char * name; unsigned primes; std::shared_ptr<void> (*make)(Ctx &); void (*use)(Ctx &, void *); };
extern std::vector<SharedDef> * g_shared;
struct RegS { RegS(const char * n, unsigned pm, std::shared_ptr<void> (*m)(Ctx &), void (*u)(Ctx &, void *)); };

int find_op(const std::string & n);

// references
void ref_mul(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b);
Mat<zz_pX> ref_mulm(const Mat<zz_pX> & a, const Mat<zz_pX> & b);
Mat<zz_pX> ref_trunc(const Mat<zz_pX> & a, long d);
zz_pX ref_det(const Mat<zz_pX> & a);
zz_p ref_cdet(const Mat<zz_p> & a);
Mat<zz_p> ref_eval(const Mat<zz_pX> & a, const zz_p & x);
Mat<zz_pX> ref_ident(long n);
bool ref_iszero(const Mat<zz_pX> & a);
long ref_deg(const Mat<zz_pX> & a);
Mat<zz_pX> ref_transpose(const Mat<zz_pX> & a);
void ref_leading(Mat<zz_p> & L, VecLong & piv, VecLong & rd, const Mat<zz_pX> & a, const VecLong & s);
long ref_rank(const Mat<zz_p> & a);
int ref_form(const Mat<zz_pX> & a, const VecLong & s);
bool canon(const zz_pX & f);
bool canon(const Mat<zz_pX> & f);
bool canon(const Vec<zz_pX> & f);
void ref_powers(Vec<zz_p> & v, const zz_p & x, long n);

// output capture (C10)
struct SimSink : std::streambuf {
    std::string got; long limit; int mode; bool tripped;
    SimSink() : limit(-1), mode(0), tripped(false) { }
    int overflow(int ch) override;
    std::streamsize xsputn(const char * s, std::streamsize n) override;
    int sync() override;
};

} // namespace sim
#endif
