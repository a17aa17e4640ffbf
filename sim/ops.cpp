#include "ops.h"
#include <cstring>

namespace sim {

std::vector<OpDef> * g_ops = nullptr;
std::vector<SharedDef> * g_shared = nullptr;
Reg::Reg(const char * n, unsigned pm, unsigned tg, void (*f)(Ctx &))
{ if (!g_ops) g_ops = new std::vector<OpDef>(); OpDef d = { n, pm, tg, f }; g_ops->push_back(d); }
RegS::RegS(const char * n, unsigned pm, std::shared_ptr<void> (*m)(Ctx &), void (*u)(Ctx &, void *))
{ if (!g_shared) g_shared = new std::vector<SharedDef>(); SharedDef d = { n, pm, m, u }; g_shared->push_back(d); }
int find_op(const std::string & n) { for (size_t i = 0; i < g_ops->size(); i++) if (n == (*g_ops)[i].name) return (int) i; return -1; }

const char * pk_names[PK_COUNT] = { "fft60", "fft60b", "ufft30", "ufft20", "large60", "mid30", "small20", "tiny", "ufft17", "p27", "comp60", "comp20" };
static zz_pContext * pctx[PK_COUNT];

void primes_init()
{
    // make every FFT prime the library may ask for exist before any run, so that
    // NTL's own lazily built tables never depend on the history of a run
    for (long i = 0; i < 12; i++) zz_p::FFTInit(i);
    pctx[PK_FFT60] = new zz_pContext(INIT_FFT, 0);
    pctx[PK_FFT60B] = new zz_pContext(INIT_FFT, 3);
    pctx[PK_UFFT30] = new zz_pContext(INIT_USER_FFT, 998244353);
    pctx[PK_UFFT20] = new zz_pContext(INIT_USER_FFT, 786433);
    pctx[PK_LARGE60] = new zz_pContext(1152921504606846883L);
    pctx[PK_MID30] = new zz_pContext(1073741789L);
    pctx[PK_SMALL20] = new zz_pContext(1048573L);
    pctx[PK_TINY] = new zz_pContext(101L);
    pctx[PK_UFFT17] = new zz_pContext(INIT_USER_FFT, 65537);
    pctx[PK_P27] = new zz_pContext(189812507L);
    pctx[PK_COMP60] = new zz_pContext(1073741789L * 1073741783L);
    pctx[PK_COMP20] = new zz_pContext(255255L);
    for (int i = 0; i < PK_COUNT; i++) {
        pctx[i]->restore();
        zz_pX a, b, cc; a.SetLength(600); b.SetLength(600);
        for (long k = 0; k < 600; k++) { a[k] = k + 1; b[k] = 3 * k + 2; }
        a.normalize(); b.normalize(); mul(cc, a, b);
    }
    pctx[0]->restore();
}
void install_prime(int pk) { pctx[pk]->restore(); }
long prime_of(int pk) { zz_pPush push(*pctx[pk]); return zz_p::modulus(); }

ModSig mod_sig()
{
    ModSig m;
    m.p = zz_p::modulus(); m.fft = zz_pInfo->p_info != NULL; m.cnt = zz_pInfo->PrimeCnt; m.maxroot = zz_pInfo->MaxRoot;
    return m;
}

Ctx::Ctx(const Inst & i, OpResult * rr) : in(i), g(mix64(i.seed) ^ 0xabcdef), s(mix64(i.seed * 3 + 7)), r(rr), h(0x1357), oracle(i.flags & FL_ORACLE), calls(0), quiet_steps(false)
{ sig0 = mod_sig(); }

zz_p Ctx::el(int st)
{
    long p = zz_p::modulus(); zz_p x; long v;
    switch (st) {
    case 1: v = p - 1; break;
    case 2: v = g.chance(0.6) ? 0 : (long) g.below(p); break;
    case 3: v = g.chance(0.5) ? 1 : p - 1; break;
    case 4: v = 0; break;
    default: v = (long) g.below(p);
    }
    x.LoopHole() = v; return x;
}
zz_p Ctx::nz() { zz_p x; do x = el(0); while (x == 0); return x; }
zz_pX Ctx::poly(long n, int st)
{
    if (st < 0) st = style();
    zz_pX f;
    if (n <= 0) return f;
    f.rep.SetLength(n);
    for (long i = 0; i < n; i++) f.rep[i] = el(st);
    if (st == 2 && g.chance(0.5)) { long m = range(0, n); for (long i = m; i < n; i++) f.rep[i] = 0; }
    f.normalize();
    return f;
}
zz_pX Ctx::poly_exact(long d) { zz_pX f = poly(d + 1, 0); if (d >= 0) NTL::SetCoeff(f, d, nz()); return f; }
Vec<zz_p> Ctx::vec(long n, int st) { if (st < 0) st = style(); Vec<zz_p> v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = el(st); return v; }
Vec<zz_p> Ctx::distinct(long n)
{
    Vec<zz_p> v; v.SetLength(n); long p = zz_p::modulus();
    long a = 1 + (long) g.below(p - 1), b = (long) g.below(p);     // affine images of 0..n-1
    for (long i = 0; i < n; i++) { v[i] = to_zz_p(i); v[i] = v[i] * to_zz_p(a) + to_zz_p(b); }
    return v;
}
Mat<zz_p> Ctx::cmat(long m, long n, int st) { if (st < 0) st = style(); Mat<zz_p> a; a.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = el(st); return a; }
Vec<zz_pX> Ctx::pvec(long n, long l, int st) { if (st < 0) st = style(); Vec<zz_pX> v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = poly(st == 2 ? range(0, l) : l, st); return v; }
Mat<zz_pX> Ctx::pmat(long m, long n, long l, int st)
{
    bool any = st < 0; if (any) st = style();
    Mat<zz_pX> a; a.SetDims(m, n);
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = poly(st == 2 ? range(0, l) : l, st);
    if (any && m > 0 && n > 0 && coin(0.12))      // degenerate shapes: zero matrix, row or column; repeated rows; common factor x^k; constant
    {
        long r = below(m), q = below(n), k = l > 1 ? range(1, l - 1) : 0;
        switch (below(6))
        {
        case 0: for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) clear(a[i][j]); break;
        case 1: for (long j = 0; j < n; j++) clear(a[r][j]); break;
        case 2: for (long i = 0; i < m; i++) clear(a[i][q]); break;
        case 3: a[r] = a[below(m)]; break;
        case 4: for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = NTL::LeftShift(NTL::RightShift(a[i][j], k), k); break;
        default: for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) NTL::trunc(a[i][j], a[i][j], 1); break;
        }
    }
    return a;
}
Mat<zz_pX> Ctx::pmat_generic(long m, long n, long l) { return pmat(m, n, l, 0); }
VecLong Ctx::shift(long n, long amp)
{
    VecLong v(n, 0); int k = (int) below(4);
    for (long i = 0; i < n; i++) v[i] = k == 0 ? 0 : k == 1 ? range(0, amp) : k == 2 ? i * amp / (n ? n : 1) : (i % 2) * amp;
    return v;
}
zz_pXY Ctx::xy(long dx, long dy) { zz_pXY f; f.rep.SetLength(dy + 1); for (long i = 0; i <= dy; i++) f.rep[i] = poly(dx + 1, 0); if (dy >= 0) f.rep[dy] = poly_exact(dx); f.normalize(); return f; }

// ---- soil -------------------------------------------------------------------------
static zz_p sel(Rng & s) { zz_p x; x.LoopHole() = (long) s.below(zz_p::modulus()); return x; }
static zz_pX spoly(Rng & s) { zz_pX f; long n = (long) s.below(9); f.rep.SetLength(n); for (long i = 0; i < n; i++) f.rep[i] = sel(s); f.normalize(); return f; }
static long sdim(Rng & s) { return s.range(1, 7); }
void Ctx::soil(zz_p & x) { if (soiled()) x = sel(s); }
void Ctx::soil(zz_pX & x) { if (soiled()) { long n = (long) s.below(s.chance(0.3) ? 300 : 20); x.rep.SetLength(n); for (long i = 0; i < n; i++) x.rep[i] = sel(s); x.normalize(); } }
void Ctx::soil(Vec<zz_p> & x) { if (soiled()) { x.SetLength(sdim(s)); for (long i = 0; i < x.length(); i++) x[i] = sel(s); if (s.chance(0.2)) { x.SetLength(200); for (long i = 0; i < 200; i++) x[i] = sel(s); } } }
void Ctx::soil(Mat<zz_p> & x) { if (soiled()) { x.SetDims(sdim(s), sdim(s)); for (long i = 0; i < x.NumRows(); i++) for (long j = 0; j < x.NumCols(); j++) x[i][j] = sel(s); } }
void Ctx::soil(Vec<zz_pX> & x) { if (soiled()) { x.SetLength(sdim(s) + (s.chance(0.3) ? 20 : 0)); for (long i = 0; i < x.length(); i++) x[i] = spoly(s); } }
void Ctx::soil(Mat<zz_pX> & x) { if (soiled()) { x.SetDims(sdim(s), sdim(s)); for (long i = 0; i < x.NumRows(); i++) for (long j = 0; j < x.NumCols(); j++) x[i][j] = spoly(s); } }
void Ctx::soil(VecLong & x) { if (soiled()) { x.assign(sdim(s) + 3, 0); for (auto & v : x) v = s.range(-3, 50); } }
void Ctx::soil(Vec<Mat<zz_p>> & x) { if (soiled()) { x.SetLength(sdim(s)); for (long i = 0; i < x.length(); i++) soil(x[i]); } }
void Ctx::soil(Vec<Vec<zz_p>> & x) { if (soiled()) { x.SetLength(sdim(s)); for (long i = 0; i < x.length(); i++) soil(x[i]); } }
void Ctx::soil(Vec<Vec<zz_pX>> & x) { if (soiled()) { x.SetLength(sdim(s)); for (long i = 0; i < x.length(); i++) soil(x[i]); } }
void Ctx::soil(zz_pXY & x) { if (soiled()) { soil(x.rep); x.normalize(); } }
void Ctx::soil(Vec<zz_pXY> & x) { if (soiled()) { x.SetLength(sdim(s)); for (long i = 0; i < x.length(); i++) soil(x[i]); } }
void Ctx::soil(Mat<long> & x) { if (soiled()) { x.SetDims(sdim(s), sdim(s)); for (long i = 0; i < x.NumRows(); i++) for (long j = 0; j < x.NumCols(); j++) x[i][j] = s.range(-2, 40); } }

// ---- digests -------------------------------------------------------------------------
void Ctx::out(const zz_pX & x) { out((long) x.rep.length()); if (x.rep.length()) h = hash_bytes(x.rep.elts(), 8 * x.rep.length(), h); }
void Ctx::out(const Vec<zz_p> & x) { out((long) x.length()); if (x.length()) h = hash_bytes(x.elts(), 8 * x.length(), h); }
void Ctx::out(const Mat<zz_p> & x) { out((long) x.NumRows()); out((long) x.NumCols()); for (long i = 0; i < x.NumRows(); i++) out(x[i]); }
void Ctx::out(const Vec<zz_pX> & x) { out((long) x.length()); for (long i = 0; i < x.length(); i++) out(x[i]); }
void Ctx::out(const Mat<zz_pX> & x) { out((long) x.NumRows()); out((long) x.NumCols()); for (long i = 0; i < x.NumRows(); i++) out(x[i]); }
void Ctx::out(const VecLong & x) { out((long) x.size()); for (long v : x) out(v); }
void Ctx::out(const Vec<long> & x) { out((long) x.length()); for (long i = 0; i < x.length(); i++) out(x[i]); }
void Ctx::out(const Mat<long> & x) { out((long) x.NumRows()); out((long) x.NumCols()); for (long i = 0; i < x.NumRows(); i++) for (long j = 0; j < x.NumCols(); j++) out(x[i][j]); }
void Ctx::out(const Vec<Mat<zz_p>> & x) { out((long) x.length()); for (long i = 0; i < x.length(); i++) out(x[i]); }
void Ctx::out(const Vec<Vec<zz_p>> & x) { out((long) x.length()); for (long i = 0; i < x.length(); i++) out(x[i]); }
void Ctx::out(const Vec<Vec<zz_pX>> & x) { out((long) x.length()); for (long i = 0; i < x.length(); i++) out(x[i]); }
void Ctx::out(const zz_pXY & x) { out(x.rep); }
void Ctx::out(const Vec<zz_pXY> & x) { out((long) x.length()); for (long i = 0; i < x.length(); i++) out(x[i]); }
void Ctx::out(const std::string & x) { out((long) x.size()); h = hash_bytes(x.data(), x.size(), h); }

void Ctx::check_pins()
{
    for (auto & f : pins) if (!f()) { if (r->inputs_ok) { r->inputs_ok = 0; } }
}

void Ctx::begin_call()
{
    if (calls == 0) { NTL::ZZ z; z = (long) (mix64(in.seed) >> 2); NTL::SetSeed(z); }
    calls++;
    repaint_stack();
    arm(true);
}
void Ctx::end_call(bool)
{
    arm(false);
    check_pins();
    ModSig m = mod_sig();
    if (m.p != sig0.p || m.fft != sig0.fft || m.cnt != sig0.cnt || m.maxroot != sig0.maxroot) {
        r->dmod = 1;
        install_prime(in.pk);     // keep the rest of the op meaningful
    }
}
void Ctx::check(bool ok, const char * what)
{
    if (r->oracle == 2) return;
    if (ok) r->oracle = 1;
    else { r->oracle = 2; strncpy(r->msg, what, sizeof r->msg - 1); }
}
void Ctx::note(const char * what) { if (!r->msg[0]) strncpy(r->msg, what, sizeof r->msg - 1); }

// ---- references --------------------------------------------------------------------------
void ref_mul(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
{
    Mat<zz_pX> t; t.SetDims(a.NumRows(), b.NumCols());
    zz_pX x;
    for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < b.NumCols(); j++) {
        NTL::clear(t[i][j]);
        for (long k = 0; k < a.NumCols(); k++) { NTL::mul(x, a[i][k], b[k][j]); NTL::add(t[i][j], t[i][j], x); }
    }
    c = t;
}
Mat<zz_pX> ref_mulm(const Mat<zz_pX> & a, const Mat<zz_pX> & b) { Mat<zz_pX> c; ref_mul(c, a, b); return c; }
Mat<zz_pX> ref_trunc(const Mat<zz_pX> & a, long d) { Mat<zz_pX> c = a; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) NTL::trunc(c[i][j], a[i][j], d); return c; }
zz_p ref_cdet(const Mat<zz_p> & a) { zz_p d; NTL::determinant(d, a); return d; }
Mat<zz_p> ref_eval(const Mat<zz_pX> & a, const zz_p & x)
{ Mat<zz_p> m; m.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) NTL::eval(m[i][j], a[i][j], x); return m; }
Mat<zz_pX> ref_ident(long n) { Mat<zz_pX> m; m.SetDims(n, n); for (long i = 0; i < n; i++) NTL::set(m[i][i]); return m; }
bool ref_iszero(const Mat<zz_pX> & a) { for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (a[i][j].rep.length()) return false; return true; }
long ref_deg(const Mat<zz_pX> & a) { long d = -1; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (NTL::deg(a[i][j]) > d) d = NTL::deg(a[i][j]); return d; }
// fraction-free elimination over K[x] (Bareiss)
zz_pX ref_det(const Mat<zz_pX> & a0)
{
    Mat<zz_pX> a = a0; long n = a.NumRows(); zz_pX prev, t, u; NTL::set(prev); bool neg = false;
    for (long k = 0; k + 1 < n; k++) {
        if (IsZero(a[k][k])) {
            long q = -1; for (long i = k + 1; i < n; i++) if (!IsZero(a[i][k])) { q = i; break; }
            if (q < 0) { zz_pX z; return z; }
            for (long j = 0; j < n; j++) { t = a[k][j]; a[k][j] = a[q][j]; a[q][j] = t; }
            neg = !neg;
        }
        for (long i = k + 1; i < n; i++) for (long j = k + 1; j < n; j++) {
            NTL::mul(t, a[i][j], a[k][k]); NTL::mul(u, a[i][k], a[k][j]); NTL::sub(t, t, u);
            NTL::div(a[i][j], t, prev);
        }
        prev = a[k][k];
    }
    if (n == 0) { zz_pX one; NTL::set(one); return one; }
    zz_pX d = a[n - 1][n - 1]; if (neg) NTL::negate(d, d); return d;
}
bool canon(const zz_pX & f)
{
    long p = zz_p::modulus();
    for (long i = 0; i < f.rep.length(); i++) { long v = rep(f.rep[i]); if (v < 0 || v >= p) return false; }
    return f.rep.length() == 0 || rep(f.rep[f.rep.length() - 1]) != 0;
}
bool canon(const Mat<zz_pX> & f) { for (long i = 0; i < f.NumRows(); i++) for (long j = 0; j < f.NumCols(); j++) if (!canon(f[i][j])) return false; return true; }
bool canon(const Vec<zz_pX> & f) { for (long i = 0; i < f.length(); i++) if (!canon(f[i])) return false; return true; }
void ref_powers(Vec<zz_p> & v, const zz_p & x, long n) { v.SetLength(n); zz_p t; t = 1; for (long i = 0; i < n; i++) { v[i] = t; t *= x; } }

int SimSink::overflow(int ch)
{
    if (ch == EOF) return 0;
    if (limit >= 0 && (long) got.size() >= limit) { if (!tripped) { tripped = true; if (R) R->f_sink++; } if (mode == 1) throw std::runtime_error("sink"); return EOF; }
    got.push_back((char) ch); return ch;
}
int SimSink::sync()       // mode 2: flushing fails near the end of what the sink accepts
{
    if (mode == 2 && limit >= 0 && (long) got.size() + 16 >= limit) { if (!tripped) { tripped = true; if (R) R->f_sink++; } return -1; }
    return 0;
}
std::streamsize SimSink::xsputn(const char * s, std::streamsize n)
{
    std::streamsize k = 0;
    for (; k < n; k++) if (overflow((unsigned char) s[k]) == EOF) break;
    return k;
}

// another modulus used in between must not disturb an object built earlier
void foreign_work(Ctx & c)
{
    int pk2 = (int) c.below(PK_COUNT); zz_pPush push; install_prime(pk2);
    zz_pX a, b, d; a.SetLength(40); b.SetLength(40); for (long i = 0; i < 40; i++) { a[i] = i + 1; b[i] = i * i + 3; } a.normalize(); b.normalize();
    middle_product(d, a, b, 12, 20); c.out(d);
}

} // namespace sim
