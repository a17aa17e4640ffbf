// approximant, interpolant and kernel bases; matrix fraction reconstruction
#include "ops.h"
#include <numeric>
#include <algorithm>
using namespace sim;

typedef Mat<zz_pX> PM;
typedef Mat<zz_p> CM;

// ---------------------------------------------------------------- references
// iterative: one linear condition at a time; also gives the degree of the determinant of any basis
static PM ref_appbas(const PM & F, const VecLong & ord, VecLong & s, long & delta)
{
    long m = F.NumRows(), n = F.NumCols(); PM P = ref_ident(m), Q = F; delta = 0;
    for (long j = 0; j < n; j++) for (long k = 0; k < ord[j]; k++) {
        long pv = -1; for (long i = 0; i < m; i++) if (coeff(Q[i][j], k) != 0 && (pv < 0 || s[i] < s[pv])) pv = i;
        if (pv < 0) continue;
        zz_p iv = inv(coeff(Q[pv][j], k)); delta++;
        for (long i = 0; i < m; i++) if (i != pv && coeff(Q[i][j], k) != 0) { zz_p f = coeff(Q[i][j], k) * iv; for (long t = 0; t < m; t++) P[i][t] -= f * P[pv][t]; for (long t = 0; t < n; t++) Q[i][t] -= f * Q[pv][t]; }
        for (long t = 0; t < m; t++) P[pv][t] = LeftShift(P[pv][t], 1);
        for (long t = 0; t < n; t++) Q[pv][t] = LeftShift(Q[pv][t], 1);
        s[pv]++;
    }
    return P;
}
static long ref_intdelta(const Vec<CM> & E) { long d = 0; for (long k = 0; k < E.length(); k++) d += ref_rank(E[k]); return d; }    // distinct points
static PM col2(const zz_pX & a, const zz_pX & b) { PM m; m.SetDims(2, 1); m[0][0] = a; m[1][0] = b; return m; }

static bool basis_ok(Ctx & c, const PM & P, const VecLong & s, const VecLong & rd, long delta, bool popov, const char *& why)
{
    long m = (long) s.size(); CM L; VecLong piv, rdeg;
    if (P.NumRows() != m || P.NumCols() != m) { why = "basis: wrong dimensions"; return false; }
    if (!canon(P)) { why = "basis: entries not normalized"; return false; }
    ref_leading(L, piv, rdeg, P, s); int f = ref_form(P, s);
    if (f < 3) { why = "basis: not in ordered weak Popov form"; return false; }
    if (popov && f < 4) { why = "basis: not in Popov form"; return false; }
    long d = 0; for (long i = 0; i < m; i++) d += rdeg[i] - s[i];
    if (d != delta) { why = "basis: determinant degree is not that of a basis"; return false; }
    if (!rd.empty() && rd != rdeg) { why = "basis: reported shifted row degree is wrong"; return false; }
    return true;
}
static void app_check(Ctx & c, const PM & P, const PM & F, const VecLong & ord, const VecLong & s, const VecLong & rd, bool popov)
{
    if (!c.oracle) return;
    VecLong t = s; long delta; ref_appbas(F, ord, t, delta); const char * why = "approximant basis: wrong";
    bool ok = basis_ok(c, P, s, rd, delta, popov, why);
    if (ok) { PM r = ref_mulm(P, F); for (long i = 0; ok && i < r.NumRows(); i++) for (long j = 0; ok && j < r.NumCols(); j++) if (!IsZero(NTL::trunc(r[i][j], ord[j]))) { ok = false; why = "approximant basis: a row is not an approximant"; } }
    c.check(ok, why);
}
static VecLong mixed_shift(Ctx & c, long m, long amp) { VecLong s = c.shift(m, amp); if (c.coin(0.3)) for (auto & x : s) x -= amp / 2; if (c.coin(0.2)) for (auto & x : s) x = c.range(-amp, amp); return s; }
static PM app_input(Ctx & c, long m, long n, long l)
{
    PM f = c.pmat(m, n, l); int k = (int) c.below(6);
    if (c.coin(0.04)) { clear(f); return f; }
    if (k == 0 && m > 1) for (long j = 0; j < n; j++) f[m - 1][j] = f[0][j] * c.poly(2, 0);                 // dependent rows
    if (k == 1) for (long i = 0; i < m; i++) { long v = c.range(0, l); f[i][0] = LeftShift(f[i][0], v); }    // valuation
    if (k == 2) for (long j = 0; j < n; j++) clear(f[c.below(m)][j]);
    return f;
}

// ---------------------------------------------------------------- approximant bases
template <class F> static void app_op(Ctx & c, F f, bool popov, long l3 = 90)
{
    long m = c.coin(0.06) ? 1 : c.dim(2, 4, 5, 7), n = c.coin(0.8) ? c.range(1, m) : c.range(1, m + 2), l = c.len(4, 14, 56, l3); long order = c.coin(0.3) ? l : c.range(1, l);
    PM a = app_input(c, m, n, c.coin() ? order : c.range(1, 2 * l)); VecLong s0 = mixed_shift(c, m, c.coin() ? 3 : order), s = s0; PM P; c.soil(P); c.pin(a);
    c.call([&] { f(P, a, order, s); });
    c.out(P); c.out(s);
    app_check(c, P, a, VecLong(n, order), s0, s, popov);
}
#define APP(nm, tags, call_, popov, l3) OP(nm, PM_ALL | (1u << PK_TINY), TG_VARIANT | tags) { app_op(c, [](PM & P, const PM & a, long o, VecLong & s) { call_(P, a, o, s); }, popov, l3); }
APP(app_mbasis_plain, 0, mbasis_plain, false, 60)
APP(app_mbasis_rescomp, 0, mbasis_rescomp, false, 60)
APP(app_mbasis_resupdate, 0, mbasis_resupdate, false, 60)
APP(app_mbasis, 0, mbasis, false, 60)
APP(app_popov_mbasis, 0, popov_mbasis, true, 60)
APP(app_pmbasis, TG_KNOB, pmbasis, false, 140)
APP(app_popov_pmbasis, TG_KNOB, popov_pmbasis, true, 140)

template <class F> static void appv_op(Ctx & c, F f, bool popov)     // one order per column
{
    long m = c.coin(0.06) ? 1 : c.dim(2, 4, 5, 6), n = c.range(1, m + 1), l = c.len(4, 8, 20, 40); VecLong ord(n); bool u = c.coin(0.3); for (auto & x : ord) x = c.range(1, l); if (u) for (auto & x : ord) x = ord[0];
    PM a = app_input(c, m, n, c.range(1, 2 * l)); VecLong s0 = mixed_shift(c, m, c.coin() ? 3 : l), s = s0; PM P; c.soil(P); c.pin(a); c.pin(ord); bool w = c.coin();
    c.call([&] { f(P, a, ord, s, w); });
    c.out(P); c.out(s);
    app_check(c, P, a, ord, s0, s, popov);
}
OP(app_iterative, PM_ANY, TG_VARIANT) { appv_op(c, [](PM & P, const PM & a, const VecLong & o, VecLong & s, bool w) { appbas_iterative(P, a, o, s, w); }, false); }
OP(app_popov_iterative, PM_ANY, TG_VARIANT) { appv_op(c, [](PM & P, const PM & a, const VecLong & o, VecLong & s, bool w) { popov_appbas_iterative(P, a, o, s, w); }, true); }
OP(app_interface, PM_ALL | (1u << PK_TINY), TG_VARIANT | TG_KNOB)
{
    long m = c.coin(0.06) ? 1 : c.dim(2, 4, 5, 6), n = c.range(1, m + 1), l = c.len(4, 10, 30, 50); VecLong ord(n); bool u = c.coin(0.4); for (auto & x : ord) x = c.range(1, l); if (u) for (auto & x : ord) x = ord[0];
    PM a = app_input(c, m, n, c.range(1, 2 * l)), P; VecLong s = mixed_shift(c, m, l), rd; if (c.coin(0.2)) s.clear(); int form = (int) c.below(5); c.soil(P); c.soil(rd); c.pin(a); c.pin(ord); c.pin(s);
    PolMatForm fm = form == 0 ? NONE : form == 1 ? REDUCED : form == 2 ? WEAK_POPOV : form == 3 ? ORD_WEAK_POPOV : POPOV; bool lo = u && c.coin();
    c.call([&] { if (lo) approximant_basis(P, rd, a, ord[0], s, fm); else approximant_basis(P, rd, a, ord, s, fm); });
    c.out(P); c.out(rd);
    if (s.empty()) s.assign(m, 0);
    app_check(c, P, a, ord, s, rd, fm == POPOV);
}
template <class F> static void app21_op(Ctx & c, F f)
{
    long o = c.len(5, 20, 80, 200), l = c.coin() ? o : c.range(1, 2 * o); zz_pX f0 = c.poly(l), f1 = c.poly(l), p[4]; long amp = c.coin() ? 2 : o, t0 = c.range(-amp, amp), t1 = c.range(-amp, amp), s0 = t0, s1 = t1; if (c.coin(0.2)) clear(c.coin() ? f0 : f1); if (c.coin(0.03)) { clear(f0); clear(f1); }
    for (int k = 0; k < 4; k++) c.soil(p[k]); c.pin(f0); c.pin(f1);
    c.call([&] { f(p[0], p[1], p[2], p[3], f0, f1, o, s0, s1); });
    for (int k = 0; k < 4; k++) c.out(p[k]); c.out(s0); c.out(s1);
    PM P; P.SetDims(2, 2); for (int k = 0; k < 4; k++) P[k / 2][k % 2] = p[k];
    app_check(c, P, col2(f0, f1), VecLong(1, o), VecLong{ t0, t1 }, VecLong{ s0, s1 }, false);
}
OP(app_iterative_2x1, PM_ANY, TG_VARIANT) { app21_op(c, [](zz_pX & a, zz_pX & b, zz_pX & d, zz_pX & e, const zz_pX & f0, const zz_pX & f1, long o, long & s0, long & s1) { appbas_iterative_2x1(a, b, d, e, f0, f1, o, s0, s1); }); }
OP(app_pmbasis_2x1, PM_ANY, TG_VARIANT | TG_KNOB) { long th = c.coin() ? 32 : c.range(1, 40); app21_op(c, [=](zz_pX & a, zz_pX & b, zz_pX & d, zz_pX & e, const zz_pX & f0, const zz_pX & f1, long o, long & s0, long & s1) { pmbasis_2x1(a, b, d, e, f0, f1, o, s0, s1, th); }); }
OP(app_mbasis1, PM_ANY, TG_VARIANT)
{
    long m = c.dim(3, 5, 8, 14), n = c.range(1, m + 2); CM a = c.cmat(m, n), k; int z = (int) c.below(4); bool po = c.coin();
    if (z == 0 && m > 1) for (long j = 0; j < n; j++) a[m - 1][j] = a[0][j] * 3; if (z == 1) { clear(a); } if (z == 2 && m > 2) for (long j = 0; j < n; j++) a[1][j] = a[0][j] + a[2][j];
    VecLong s = mixed_shift(c, m, 5), pv; c.soil(k); c.pin(a); c.pin(s);
    c.call([&] { pv = po ? popov_mbasis1(k, a, s) : mbasis1(k, a, s); });
    c.out(pv); c.out(k);
    if (c.oracle) {     // complete with x times coordinate vectors and judge as an approximant basis
        std::vector<long> row(m, -1); long nk = 0; bool ok = (long) pv.size() == m; for (long i = 0; ok && i < m; i++) { if (pv[i] == 0) row[i] = nk++; else ok = pv[i] == 1; }
        ok = ok && k.NumRows() == nk && (nk == 0 || k.NumCols() == m);
        PM P, F; P.SetDims(m, m); F.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) if (a[i][j] != 0) NTL::SetCoeff(F[i][j], 0, a[i][j]);
        if (ok) { for (long i = 0; i < m; i++) if (row[i] < 0) SetX(P[i][i]); else for (long j = 0; j < m; j++) conv(P[i][j], k[row[i]][j]); app_check(c, P, F, VecLong(n, 1), s, VecLong(), po); }
        else c.check(false, "order-one basis: pivot degrees inconsistent with the kernel");
    }
}

// generic input only: 2n x n uniform over a 60-bit field
template <class F> static void appg_op(Ctx & c, F f)
{
    long n = c.dim(1, 3, 4, 6), o = c.range(2, c.len(5, 16, 60, 130) + 2); PM a = c.pmat_generic(2 * n, n, o), P; c.soil(P); c.pin(a);
    c.call([&] { f(P, a, o); });
    c.out(P);
    if (c.oracle) {
        VecLong z(2 * n, 0); const char * why = "generic approximant basis: wrong"; bool ok = basis_ok(c, P, z, VecLong(), n * o, false, why);
        if (ok) { PM r = ref_trunc(ref_mulm(P, a), o); ok = ref_iszero(r); if (!ok) why = "generic approximant basis: a row is not an approximant"; }
        c.check(ok, why);
    }
}
OP(app_generic_rescomp, PM_60, TG_VARIANT) { appg_op(c, [](PM & P, const PM & a, long o) { mbasis_generic_2n_n_rescomp(P, a, o); }); }
OP(app_generic_resupdate, PM_60, TG_VARIANT) { appg_op(c, [](PM & P, const PM & a, long o) { mbasis_generic_2n_n_resupdate(P, a, o); }); }
OP(app_generic_pmbasis, PM_60, TG_VARIANT | TG_KNOB) { appg_op(c, [](PM & P, const PM & a, long o) { pmbasis_generic_2n_n(P, a, o); }); }
OP(app_generic_top_rows, PM_60, TG_VARIANT | TG_KNOB)
{
    long n = c.dim(1, 3, 4, 6), o = c.range(2, c.len(5, 16, 60, 130) + 2); PM a = c.pmat_generic(2 * n, n, o), P; c.soil(P); c.pin(a);
    c.call([&] { pmbasis_generic_2n_n_top_rows(P, a, o); });
    bool ok = P.NumRows() >= n && P.NumCols() == 2 * n; PM T; T.SetDims(n, 2 * n); if (ok) for (long i = 0; i < n; i++) for (long j = 0; j < 2 * n; j++) T[i][j] = P[i][j];
    c.out(T);
    if (c.oracle) { VecLong z(2 * n, 0), pv, rd; CM L; if (ok) { ref_leading(L, pv, rd, T, z); ok = canon(T) && ref_rank(L) == n; for (long i = 0; ok && i < n; i++) ok = rd[i] == (o + 1) / 2; ok = ok && ref_iszero(ref_trunc(ref_mulm(T, a), o)); } c.check(ok, "generic approximant basis: wrong leading rows"); }
}
static void pade_check(Ctx & c, const PM & den, const PM & a, long o)
{
    if (!c.oracle) return;
    long n = a.NumCols(), h = (o + 1) / 2; bool ok = den.NumRows() == n && den.NumCols() == n && canon(den) && ref_deg(den) == h;
    if (ok) for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) ok = ok && coeff(den[i][j], h) == (i == j ? 1 : 0);
    if (ok) { PM r = ref_trunc(ref_mulm(den, a), o); ok = ref_deg(r) < h; }
    c.check(ok, "matrix fraction reconstruction: denominator does not satisfy its equation");
}
template <class F> static void pade_op(Ctx & c, F f, bool both)
{
    long n = c.dim(1, 3, 4, 6), o = c.range(2, c.len(5, 16, 60, 130) + 2); PM a = c.pmat_generic(n, n, o), d, e; c.soil(d); c.soil(e); c.pin(a);
    c.call([&] { f(d, e, a, o); });
    if (both && d.NumRows() == 2 * n) { PM t; t.SetDims(n, n); if (d.NumCols() == n) for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) t[i][j] = d[i][j]; d = t; }
    c.out(d);
    pade_check(c, d, a, o);
}
OP(pade_generic, PM_60, TG_VARIANT | TG_KNOB) { pade_op(c, [](PM & d, PM &, const PM & a, long o) { matrix_pade_generic(d, a, o); }, false); }
OP(pade_generic_iterative, PM_60, TG_VARIANT) { pade_op(c, [](PM & d, PM & e, const PM & a, long o) { matrix_pade_generic_iterative(d, e, a, o); }, false); }
OP(pade_generic_recursion, PM_60, TG_VARIANT | TG_KNOB) { pade_op(c, [](PM & d, PM &, const PM & a, long o) { matrix_pade_generic_recursion(d, a, o); }, true); }
OP(recon_approximation, PM_60, TG_VARIANT)
{
    long n = c.dim(1, 3, 4, 5), o = c.range(2, c.len(5, 12, 40, 80) + 2); PM a = c.pmat_generic(n, n, o), d; Vec<CM> seq; seq.SetLength(o); for (long k = 0; k < o; k++) { seq[k].SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) seq[k][i][j] = coeff(a[i][j], k); } c.soil(d); c.pin(seq);
    c.call([&] { matrix_recon_approximation(d, seq); });
    c.out(d); pade_check(c, d, a, o);
}

// ---------------------------------------------------------------- interpolant bases
static Vec<CM> evs(const PM & F, const Vec<zz_p> & pts) { Vec<CM> e; e.SetLength(pts.length()); for (long k = 0; k < pts.length(); k++) e[k] = ref_eval(F, pts[k]); return e; }
static void int_check(Ctx & c, const PM & P, const Vec<CM> & E, const Vec<zz_p> & pts, const VecLong & s, const VecLong & rd, bool popov)
{
    if (!c.oracle) return;
    const char * why = "interpolant basis: wrong"; bool ok = basis_ok(c, P, s, rd, ref_intdelta(E), popov, why);
    for (long k = 0; ok && k < pts.length(); k++) { CM r = ref_eval(P, pts[k]) * E[k]; if (!IsZero(r)) { ok = false; why = "interpolant basis: a row is not an interpolant"; } }
    c.check(ok, why);
}
static Vec<zz_p> sub(const Vec<zz_p> & v, long a, long n) { Vec<zz_p> w; w.SetLength(n); for (long i = 0; i < n; i++) w[i] = v[a + i]; return w; }
static Vec<CM> sub(const Vec<CM> & v, long a, long n) { Vec<CM> w; w.SetLength(n); for (long i = 0; i < n; i++) w[i] = v[a + i]; return w; }
template <class F> static void int_op(Ctx & c, F f, bool popov, bool off, long l3 = 60)
{
    long m = c.coin(0.06) ? 1 : c.dim(2, 4, 5, 7), n = c.coin(0.8) ? c.range(1, m) : c.range(1, m + 2), o = c.coin(0.05) ? 1 : c.len(4, 12, 40, l3), o1 = off ? c.range(0, 3) : 0, tot = o + o1 + (off ? c.range(0, 3) : 0);
    Vec<zz_p> pts = c.distinct(tot); Vec<CM> E; E.SetLength(tot); int st = (int) c.below(3); bool az = c.coin(0.03); for (long k = 0; k < tot; k++) { E[k] = c.cmat(m, n, st == 0 ? 0 : -1); if (az || (st == 1 && c.coin(0.2))) clear(E[k]); if (st == 2 && m > 1 && c.coin(0.3)) for (long j = 0; j < n; j++) E[k][m - 1][j] = E[k][0][j]; }
    Vec<CM> E0 = E; VecLong s0 = mixed_shift(c, m, c.coin() ? 3 : o), s = s0; PM P; c.soil(P); c.pin(pts);
    c.call([&] { f(P, E, pts, s, o1, o); });
    c.out(P); c.out(s);
    int_check(c, P, sub(E0, o1, o), sub(pts, o1, o), s0, s, popov);
}
OP(int_mbasis_rescomp, PM_ALL, TG_VARIANT) { int_op(c, [](PM & P, Vec<CM> & E, const Vec<zz_p> & x, VecLong & s, long a, long o) { mbasis_rescomp(P, E, x, s, a, o); }, false, true); }
OP(int_mbasis_resupdate, PM_ALL, TG_VARIANT) { int_op(c, [](PM & P, Vec<CM> & E, const Vec<zz_p> & x, VecLong & s, long a, long o) { mbasis_resupdate(P, E, x, s, a, o); }, false, true); }
OP(int_mbasis, PM_ALL, TG_VARIANT) { int_op(c, [](PM & P, Vec<CM> & E, const Vec<zz_p> & x, VecLong & s, long a, long o) { mbasis(P, E, x, s, a, o); }, false, true); }
OP(int_mbasis_all, PM_ALL, TG_VARIANT) { int_op(c, [](PM & P, Vec<CM> & E, const Vec<zz_p> & x, VecLong & s, long, long) { mbasis(P, E, x, s); }, false, false); }
OP(int_popov_mbasis, PM_ALL, TG_VARIANT) { int_op(c, [](PM & P, Vec<CM> & E, const Vec<zz_p> & x, VecLong & s, long, long) { popov_mbasis(P, E, x, s); }, true, false); }
OP(int_pmbasis_evals, PM_ALL, TG_VARIANT | TG_KNOB) { int_op(c, [](PM & P, Vec<CM> & E, const Vec<zz_p> & x, VecLong & s, long a, long o) { pmbasis(P, E, x, s, a, o); }, false, true, 130); }
template <class F> static void intp_op(Ctx & c, F f, bool popov)
{
    long m = c.coin(0.06) ? 1 : c.dim(2, 4, 5, 6), n = c.coin(0.8) ? c.range(1, m) : c.range(1, m + 2), o = c.coin(0.05) ? 1 : c.len(4, 12, 50, 130); Vec<zz_p> pts = c.distinct(o); PM a = app_input(c, m, n, o); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = NTL::trunc(a[i][j], o);
    VecLong s0 = mixed_shift(c, m, c.coin() ? 3 : o), s = s0; PM P; c.soil(P); c.pin(a); c.pin(pts);
    c.call([&] { f(P, a, pts, s); });
    c.out(P); c.out(s);
    int_check(c, P, evs(a, pts), pts, s0, s, popov);
}
OP(int_pmbasis, PM_ALL, TG_VARIANT | TG_KNOB) { intp_op(c, [](PM & P, const PM & a, const Vec<zz_p> & x, VecLong & s) { pmbasis(P, a, x, s); }, false); }
OP(int_popov_pmbasis, PM_ALL, TG_VARIANT | TG_KNOB) { intp_op(c, [](PM & P, const PM & a, const Vec<zz_p> & x, VecLong & s) { popov_pmbasis(P, a, x, s); }, true); }
static bool geo_base(Ctx & c, zz_p & r, long o)      // r^2 with o distinct powers
{
    for (int t = 0; t < 50; t++) { r = c.nz(); zz_p q = r * r, x = q; long k = 1; while (k < o && x != 1) { x *= q; k++; } if (k >= o) return true; }
    return false;
}
OP(int_pmbasis_geometric, PM_ALL, TG_VARIANT | TG_KNOB)
{
    long m = c.coin(0.06) ? 1 : c.dim(2, 4, 5, 6), n = c.coin(0.8) ? c.range(1, m) : c.range(1, m + 2), o = c.coin(0.05) ? 1 : c.len(4, 12, 50, 130) + 1; zz_p r; if (!geo_base(c, r, o)) return; PM a = app_input(c, m, n, o), P; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = NTL::trunc(a[i][j], o); VecLong s0 = mixed_shift(c, m, c.coin() ? 3 : o), s = s0; Vec<zz_p> pts; c.soil(P); c.soil(pts); c.pin(a);
    c.call([&] { pmbasis_geometric(P, a, r, o, s, pts); });
    c.out(P); c.out(s); c.out(pts);
    if (c.oracle) { bool ok = pts.length() == o; zz_p q = r * r, x = to_zz_p(1); for (long i = 0; ok && i < o; i++) { ok = pts[i] == x; x *= q; } c.check(ok, "interpolant basis: points are not the announced geometric progression"); }
    int_check(c, P, evs(a, pts), pts, s0, s, false);
}
OP(int_pmbasis_geometric_evals, PM_ALL, TG_VARIANT | TG_KNOB)
{
    long m = c.coin(0.06) ? 1 : c.dim(2, 4, 5, 6), n = c.coin(0.8) ? c.range(1, m) : c.range(1, m + 2), o = c.coin(0.05) ? 1 : c.len(4, 12, 50, 130) + 1; zz_p r; if (!geo_base(c, r, 2 * o + 2)) return; Vec<zz_p> pts; pts.SetLength(o); zz_p q = r * r, x = c.coin() ? to_zz_p(1) : c.nz(); for (long i = 0; i < o; i++) { pts[i] = x; x *= q; }
    Vec<CM> E; E.SetLength(o); bool az = c.coin(0.03), sz = c.coin(0.2); for (long k = 0; k < o; k++) { E[k] = c.cmat(m, n); if (az || (sz && c.coin(0.2))) clear(E[k]); } Vec<CM> E0 = E; VecLong s0 = mixed_shift(c, m, c.coin() ? 3 : o), s = s0; PM P; c.soil(P); c.pin(pts);
    c.call([&] { pmbasis_geometric(P, E, pts, r, s, 0, o); });
    c.out(P); c.out(s);
    int_check(c, P, E0, pts, s0, s, false);
}
template <class F> static void recon_op(Ctx & c, F f, bool geo)
{
    long n = c.dim(1, 3, 4, 5), o = 2 * c.range(1, c.len(3, 8, 24, 50)) + 1; zz_p r; Vec<zz_p> pts; if (geo) { if (!geo_base(c, r, 2 * o + 2)) return; pts.SetLength(o); zz_p q = r * r, x = to_zz_p(1); for (long i = 0; i < o; i++) { pts[i] = x; x *= q; } } else pts = c.distinct(o);
    Vec<CM> E; E.SetLength(o); for (long k = 0; k < o; k++) E[k] = c.cmat(n, n, 0); Vec<CM> E0 = E; PM d; c.soil(d); c.pin(pts);
    c.call([&] { f(d, pts, r, E); });
    c.out(d);
    if (c.oracle) {      // d*E interpolates a matrix of degree <= deg d: unknown, but d is the left half of rows of an interpolant basis of [E; I]
        long h = (o + 1) / 2; bool ok = d.NumRows() == n && d.NumCols() == n && canon(d) && ref_deg(d) <= h && ref_deg(d) >= 0;
        // the other half is -(d*E) interpolated: degree must be at most h as well
        if (ok) for (long i = 0; ok && i < n; i++) for (long j = 0; ok && j < n; j++) { Vec<zz_p> v; v.SetLength(o); for (long k = 0; k < o; k++) { CM t = ref_eval(d, pts[k]) * E0[k]; v[k] = t[i][j]; } zz_pX q; NTL::interpolate(q, pts, v); ok = deg(q) <= h; }
        c.check(ok, "matrix fraction reconstruction from values: denominator does not satisfy its equation");
    }
}
OP(recon_interpolation, PM_60, TG_VARIANT) { recon_op(c, [](PM & d, const Vec<zz_p> & x, const zz_p &, Vec<CM> & E) { matrix_recon_interpolation(d, x, E); }, false); }
OP(recon_interpolation_geometric, PM_60, TG_VARIANT) { recon_op(c, [](PM & d, const Vec<zz_p> & x, const zz_p & r, Vec<CM> & E) { matrix_recon_interpolation_geometric(d, x, r, E); }, true); }

// ---------------------------------------------------------------- verifiers
static PM damage(Ctx & c, const PM & P)      // changes one coefficient, or multiplies a row
{
    PM q = P; long m = q.NumRows(); int k = (int) c.below(3);
    if (m == 0) return q;
    if (k == 0) { long i = c.below(m), j = c.below(q.NumCols()); zz_pX t; NTL::SetCoeff(t, c.range(0, std::max(0L, deg(q[i][j]))), c.nz()); q[i][j] = q[i][j] + t; }
    else if (k == 1) { long i = c.below(m); zz_pX g = c.poly_exact(1); for (long j = 0; j < q.NumCols(); j++) q[i][j] = q[i][j] * g; }
    else { long i = c.below(m); for (long j = 0; j < q.NumCols(); j++) clear(q[i][j]); }
    return q;
}
static PM row_mix(Ctx & c, const PM & P, const VecLong & s)       // another ordered weak Popov basis of the same module
{
    PM q = P; if (c.coin(0.4)) return q; CM L; VecLong pv, rd; ref_leading(L, pv, rd, q, s); long m = q.NumRows();
    for (long i = 0; i < m; i++) for (long k = 0; k < m; k++) if (k != i && rd[k] <= rd[i] && c.coin(0.4)) { if (rd[k] == rd[i] && pv[k] >= pv[i]) continue; zz_pX g = c.poly(std::min(3L, rd[i] - rd[k] + (pv[k] < pv[i] ? 1 : 0)), 0); for (long j = 0; j < q.NumCols(); j++) q[i][j] += g * P[k][j]; }
    for (long i = 0; i < m; i++) if (c.coin(0.3)) { zz_p z = c.nz(); for (long j = 0; j < q.NumCols(); j++) q[i][j] *= z; }
    return q;
}
static void app_claim(Ctx & c, PM & P, PM & a, VecLong & ord, VecLong & s)
{
    long m = c.coin(0.06) ? 1 : c.dim(2, 3, 4, 5), n = c.coin(0.8) ? c.range(1, m) : c.range(1, m + 2), l = c.len(3, 8, 16, 24); ord.assign(n, 0); bool u = c.coin(0.5); for (auto & x : ord) x = c.range(1, l); if (u) for (auto & x : ord) x = ord[0];
    a = app_input(c, m, n, c.range(1, l + 2)); s = mixed_shift(c, m, 4); VecLong t = s; long dl;
    // the reference gives a minimal basis; order its rows by pivot through the Popov variant of the library's reference form
    P = ref_appbas(a, ord, t, dl);
    if (ref_form(P, s) < 3) {       // normalise to ordered weak Popov: sort rows by pivot when pivots are distinct
        CM L; VecLong pv, rd; ref_leading(L, pv, rd, P, s); std::vector<long> ix(m); std::iota(ix.begin(), ix.end(), 0); std::sort(ix.begin(), ix.end(), [&](long x, long y) { return pv[x] < pv[y]; }); PM q; q.SetDims(m, m); for (long i = 0; i < m; i++) q[i] = P[ix[i]]; P = q;
    }
}
OP(verify_app_accepts, PM_ANY, TG_VERIFY | TG_RANDOM)
{
    PM P, a; VecLong ord, s; app_claim(c, P, a, ord, s); int f = ref_form(P, s); if (f >= 3) { P = row_mix(c, P, s); f = std::min(f, ref_form(P, s)); } if (f < 1) return;
    PolMatForm fm = f >= 4 && c.coin() ? POPOV : f >= 3 && c.coin() ? ORD_WEAK_POPOV : f >= 2 && c.coin() ? WEAK_POPOV : REDUCED; c.pin(P); c.pin(a); c.pin(ord); c.pin(s); bool ok = false, lo = true; for (long x : ord) lo = lo && x == ord[0]; lo = lo && c.coin();
    c.call([&] { ok = lo ? is_approximant_basis(P, a, ord[0], s, fm, true) : is_approximant_basis(P, a, ord, s, fm, true); });
    c.out((long) ok);
    if (c.oracle) c.check(ok, "approximant basis verification rejected a basis");
}
OP(verify_app_rejects, PM_60, TG_SOUND | TG_RANDOM)
{
    PM P, a; VecLong ord, s; app_claim(c, P, a, ord, s); int f0 = ref_form(P, s); if (f0 < 1) return;
    if (c.coin(0.6)) P = damage(c, P); else { long j = c.below(a.NumCols()), i = c.below(a.NumRows()); zz_pX x; NTL::SetCoeff(x, c.coin() ? ord[j] - 1 : c.below(ord[j]), c.nz()); a[i][j] += x; }      // wrong basis, or the basis of an input that differs in one coefficient
    VecLong t = s; long dl; ref_appbas(a, ord, t, dl);
    // truly wrong?
    bool still = ref_form(P, s) >= 1; if (still) { PM r = ref_mulm(P, a); for (long i = 0; i < r.NumRows(); i++) for (long j = 0; j < r.NumCols(); j++) if (!IsZero(NTL::trunc(r[i][j], ord[j]))) still = false; }
    if (still) { CM L; VecLong pv, rd; ref_leading(L, pv, rd, P, s); long d = 0; for (size_t i = 0; i < s.size(); i++) d += rd[i] - s[i]; still = d == dl; }
    if (still) { c.out(1L); return; }
    c.pin(P); c.pin(a); bool ok = true;
    c.call([&] { ok = is_approximant_basis(P, a, ord, s, REDUCED, true); });
    c.out((long) ok);
    if (c.oracle) c.check(!ok, "approximant basis verification accepted a matrix that is not a basis");
}
OP(verify_interpolant, PM_ALL, TG_VARIANT | TG_VERIFY)
{
    long m = c.coin(0.06) ? 1 : c.dim(2, 3, 4, 5), n = c.coin(0.8) ? c.range(1, m) : c.range(1, m + 2), o = c.coin(0.05) ? 1 : c.len(3, 8, 20, 40); bool geo = c.coin(); zz_p r; Vec<zz_p> pts; if (geo) { if (!geo_base(c, r, 2 * o + 40)) return; pts.SetLength(o); zz_p q = r * r, x = to_zz_p(1); for (long i = 0; i < o; i++) { pts[i] = x; x *= q; } } else pts = c.distinct(o);
    PM a = c.pmat(m, n, o); if (c.coin(0.03)) clear(a); if (o > 1 && c.coin(0.3)) { long z = c.range(1, std::min(3L, o - 1)); zz_pX g; set(g); for (long k = 0; k < z; k++) { zz_pX lin; SetX(lin); g *= lin - pts[c.below(o)]; } for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = trunc(a[i][j], o - z) * g; }
    Vec<CM> E = evs(a, pts), E1 = E, E0 = E; VecLong s = mixed_shift(c, m, 3), t = s; bool near = c.coin(0.2); if (near) { long k = c.below(o); if (!IsZero(E[k])) E[k] = c.cmat(m, n, 0); }      // a basis for an input that differs at one point only
    PM P = ref_ident(m);
    for (long k = 0; k < o; k++) { for (long j = 0; j < n; j++) { CM v = ref_eval(P, pts[k]) * E[k]; long pv = -1; for (long i = 0; i < m; i++) if (v[i][j] != 0 && (pv < 0 || t[i] < t[pv])) pv = i; if (pv < 0) continue; zz_p iv = inv(v[pv][j]); for (long i = 0; i < m; i++) if (i != pv && v[i][j] != 0) { zz_p f = v[i][j] * iv; for (long q = 0; q < m; q++) P[i][q] -= f * P[pv][q]; } zz_pX lin; SetX(lin); lin = lin - pts[k]; for (long q = 0; q < m; q++) P[pv][q] *= lin; t[pv]++; } }
    int f = ref_form(P, s); if (f < 1) return; bool dm = !near && c.coin(0.4); E = E0; if (dm) P = damage(c, P); else if (f >= 3) { P = row_mix(c, P, s); f = std::min(f, ref_form(P, s)); }
    PolMatForm fm = f >= 3 && c.coin() ? ORD_WEAK_POPOV : f >= 2 && c.coin() ? WEAK_POPOV : REDUCED; int need = fm == ORD_WEAK_POPOV ? 3 : fm == WEAK_POPOV ? 2 : 1;
    if (geo && ref_deg(P) > o) return;
    bool ok = false, ok2 = false; c.pin(P); c.pin(a); c.pin(pts); c.pin(s); c.pin(E1);
    c.call([&] { ok = geo ? is_interpolant_basis_geometric(P, a, r, o, s, fm) : is_interpolant_basis(P, a, pts, s, fm); ok2 = geo ? is_interpolant_basis_geometric(P, E1, r, o, s, fm) : is_interpolant_basis(P, E1, pts, s, fm); });
    c.out((long) ok); c.out((long) ok2);
    if (c.oracle) {
        bool truth = ref_form(P, s) >= need; for (long k = 0; truth && k < o; k++) truth = IsZero(ref_eval(P, pts[k]) * E[k]);
        if (truth) { CM L; VecLong pv, rd; ref_leading(L, pv, rd, P, s); long d = 0; for (long i = 0; i < m; i++) d += rd[i] - s[i]; truth = d == ref_intdelta(E); }
        c.check(ok == truth && ok2 == truth, truth ? "interpolant basis verification rejected a basis" : "interpolant basis verification accepted a matrix that is not a basis");
    }
}
static PM ref_kernel(const PM & a, const VecLong & s)       // rows of a minimal basis at high order that vanish exactly
{
    long m = a.NumRows(), n = a.NumCols(), d = std::max(0L, ref_deg(a)), amp = *std::max_element(s.begin(), s.end()) - *std::min_element(s.begin(), s.end()); VecLong ord(n, (n + 1) * d + amp + 2), t = s; long dl;
    PM P = ref_appbas(a, ord, t, dl), r = ref_mulm(P, a), K; std::vector<long> rows; for (long i = 0; i < m; i++) { bool z = true; for (long j = 0; j < n; j++) z = z && IsZero(r[i][j]); if (z) rows.push_back(i); }
    K.SetDims((long) rows.size(), m); for (size_t i = 0; i < rows.size(); i++) for (long j = 0; j < m; j++) K[(long) i][j] = P[rows[i]][j]; return K;
}
static PM ker_input(Ctx & c, long m, long n, long l)
{
    PM a = c.pmat(m, n, l); int k = (int) c.below(6);
    if (k == 0 && m > 1) for (long j = 0; j < n; j++) a[m - 1][j] = a[0][j] * c.poly(2, 0);
    if (k == 1 && n > 1) for (long i = 0; i < m; i++) a[i][n - 1] = a[i][0] * c.poly(2, 4);
    if (k == 2) { PM u = c.pmat(m, 1, std::max(1L, l / 2), 0), v = c.pmat(1, n, std::max(1L, l / 2), 0); a = ref_mulm(u, v); }
    if (k == 3) for (long j = 0; j < n; j++) clear(a[c.below(m)][j]);
    if (k == 4 && c.coin(0.2)) clear(a);
    if (k == 5 && c.coin(0.2)) for (long i = 0; i < m; i++) clear(a[i][c.below(n)]);
    if (k == 5 && c.coin(0.1)) { long j = c.below(n); for (long i = 0; i < m; i++) clear(a[i][j]); }
    return a;
}
static void ker_check(Ctx & c, const PM & K, const PM & a, const VecLong & s, const VecLong * rd, const VecLong * pivind)
{
    if (!c.oracle) return;
    long m = a.NumRows(); PM R0 = ref_kernel(a, s); VecLong piv, rdeg, p0, r0; CM L; const char * why = "kernel basis: wrong"; bool ok = true;
    if (K.NumRows() != R0.NumRows() || (K.NumRows() && K.NumCols() != m)) { c.check(false, "kernel basis: wrong number of rows"); return; }
    if (K.NumRows() == 0) { c.check(!rd || rd->empty(), "kernel basis: reported shifted row degree is wrong"); return; }
    if (!canon(K)) { ok = false; why = "kernel basis: entries not normalized"; }
    if (ok && !ref_iszero(ref_mulm(K, a))) { ok = false; why = "kernel basis: a row is not in the kernel"; }
    if (ok && ref_form(K, s) < 3) { ok = false; why = "kernel basis: not in ordered weak Popov form"; }
    if (ok) { ref_leading(L, piv, rdeg, K, s); ref_leading(L, p0, r0, R0, s); if (rd && *rd != rdeg) { ok = false; why = "kernel basis: reported shifted row degree is wrong"; } if (pivind && *pivind != piv) { ok = false; why = "kernel basis: reported pivot indices are wrong"; } std::sort(rdeg.begin(), rdeg.end()); std::sort(r0.begin(), r0.end()); if (ok && rdeg != r0) { ok = false; why = "kernel basis: rows do not generate the kernel minimally"; } }
    c.check(ok, why);
}
OP(ker_basis, PM_ALL, TG_VARIANT | TG_KNOB)
{
    long m = c.coin(0.06) ? 1 : c.dim(2, 3, 4, 6), n = c.range(1, m + (c.coin(0.2) ? 2 : 0)), l = c.len(2, 4, 6, 8); if (c.coin(0.5)) n = std::max(1L, m / 2); PM a = ker_input(c, m, n, l), K; VecLong s = mixed_shift(c, m, 3); c.soil(K); c.pin(a); c.pin(s);
    c.call([&] { kernel_basis(K, a, s); });
    c.out(K); ker_check(c, K, a, s, nullptr, nullptr);
}
template <class F> static void ker_op(Ctx & c, F f)
{
    long m = c.coin(0.06) ? 1 : c.dim(2, 3, 4, 6), n = c.range(1, m + (c.coin(0.2) ? 2 : 0)), l = c.len(2, 4, 6, 8); if (c.coin(0.5)) n = std::max(1L, m / 2); PM a = ker_input(c, m, n, l), K; VecLong s0 = mixed_shift(c, m, 3), s = s0, pv; c.soil(K); c.soil(pv); c.pin(a);
    c.call([&] { f(K, pv, a, s); });
    c.out(K); c.out(s); c.out(pv); ker_check(c, K, a, s0, &s, &pv);
}
OP(ker_via_approximation, PM_ALL, TG_VARIANT | TG_KNOB) { ker_op(c, [](PM & K, VecLong & pv, const PM & a, VecLong & s) { kernel_basis_via_approximation(K, pv, a, s); }); }
OP(ker_via_interpolation, PM_ALL, TG_VARIANT | TG_KNOB | TG_RANDOM | TG_LV) { ker_op(c, [](PM & K, VecLong & pv, const PM & a, VecLong & s) { kernel_basis_via_interpolation(K, pv, a, s); }); }
template <class F> static void zls_op(Ctx & c, F f)
{
    long m = c.coin(0.06) ? 1 : c.dim(2, 3, 4, 6), n = c.range(1, m + (c.coin(0.2) ? 2 : 0)), l = c.len(2, 4, 6, 8); if (c.coin(0.5)) n = std::max(1L, m / 2); PM a = ker_input(c, m, n, l), a0 = a, K; VecLong s0 = mixed_shift(c, m, 3), s = s0; c.soil(K);
    c.call([&] { f(K, a, s); });
    c.out(K); c.out(s); ker_check(c, K, a0, s0, &s, nullptr);
}
OP(ker_zls_approximation, PM_ALL, TG_VARIANT | TG_KNOB) { zls_op(c, [](PM & K, PM & a, VecLong & s) { kernel_basis_zls_via_approximation(K, a, s); }); }
OP(ker_zls_interpolation, PM_ALL, TG_VARIANT | TG_KNOB | TG_RANDOM | TG_LV) { zls_op(c, [](PM & K, PM & a, VecLong & s) { kernel_basis_zls_via_interpolation(K, a, s); }); }
OP(verify_ker_accepts, PM_ANY, TG_VERIFY | TG_RANDOM)
{
    long m = c.dim(2, 3, 4, 5), n = c.range(1, std::max(1L, m - 1)), l = c.len(2, 3, 4, 5); PM a = ker_input(c, m, n, l); VecLong s = mixed_shift(c, m, 3); PM K = ref_kernel(a, s); if (K.NumRows() == 0) return; int f = ref_form(K, s); if (f < 1) return; bool rnd = c.coin(0.7), ok = false;
    PolMatForm fm = f >= 3 && c.coin() ? ORD_WEAK_POPOV : f >= 2 && c.coin() ? WEAK_POPOV : REDUCED; c.pin(K); c.pin(a); c.pin(s);
    c.call([&] { ok = is_kernel_basis(K, a, s, fm, rnd); });
    c.out((long) ok);
    if (c.oracle) c.check(ok, "kernel basis verification rejected a kernel basis");
}
OP(verify_ker_rejects, PM_60, TG_SOUND | TG_RANDOM)
{
    long m = c.dim(2, 3, 4, 5), n = c.range(1, std::max(1L, m - 1)), l = c.len(2, 3, 4, 5); PM a = ker_input(c, m, n, l); VecLong s = mixed_shift(c, m, 3); PM K = ref_kernel(a, s); if (K.NumRows() == 0) return; int k = (int) c.below(3); bool rnd = c.coin(0.7), ok = true;
    if (k == 0 && K.NumRows() > 1) K[1] = K[0]; else { long i = c.below(K.NumRows()), j = c.below(m); zz_pX t; NTL::SetCoeff(t, c.range(0, std::max(0L, deg(K[i][j]))), c.nz()); K[i][j] += t; }
    if (ref_form(K, s) >= 1 && ref_iszero(ref_mulm(K, a))) { c.out(1L); return; }
    c.pin(K); c.pin(a);
    c.call([&] { ok = is_kernel_basis(K, a, s, REDUCED, rnd); });
    c.out((long) ok);
    if (c.oracle) c.check(!ok, "kernel basis verification accepted rows outside the kernel or not reduced");
}
