// inverses, linear systems, determinants, division, reduction over polynomial matrices
#include "ops.h"
using namespace sim;

typedef Mat<zz_pX> PM;
typedef Mat<zz_p> CM;

static CM inv_const(Ctx & c, long n)        // invertible constant matrix
{
    CM m;
    int k = (int) c.below(3);
    if (k == 0) { ident(m, n); return m; }
    for (;;) { m = c.cmat(n, n, 0); if (ref_cdet(m) != 0) return m; }
}
static PM ref_series_inv(const PM & a, long prec)      // series inverse by the recurrence
{
    long n = a.NumRows(), d = ref_deg(a); PM full; full.SetDims(n, n); CM iv; NTL::inv(iv, ref_eval(a, to_zz_p(0))); Vec<CM> S, A; S.SetLength(prec); A.SetLength(d + 1); CM t;
    for (long q = 0; q <= d; q++) { A[q].SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) A[q][i][j] = coeff(a[i][j], q); }
    for (long k = 0; k < prec; k++) { t.SetDims(n, n); clear(t); if (k == 0) ident(t, n); for (long q = 1; q <= d && q <= k; q++) t -= A[q] * S[k - q]; S[k] = iv * t; }
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { full[i][j].rep.SetLength(prec); for (long k = 0; k < prec; k++) full[i][j].rep[k] = S[k][i][j]; full[i][j].normalize(); }
    return full;
}
static PM inv0(Ctx & c, long n, long len, int st = -1)      // invertible at 0, degree < len
{
    long e = len > 2 && c.coin(0.15) ? c.range(1, std::min(len - 1, 3L)) : 0;      // sometimes the truncated inverse of a matrix of lower degree
    PM a = c.pmat(n, n, e ? e : len, st); CM m = inv_const(c, n);
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) NTL::SetCoeff(a[i][j], 0, m[i][j]);
    return e ? ref_series_inv(a, len) : a;
}
static PM colmat(const Vec<zz_pX> & v) { PM m; m.SetDims(v.length(), 1); for (long i = 0; i < v.length(); i++) m[i][0] = v[i]; return m; }
static bool ident_mod(const PM & a, const PM & i, long d) { return ref_trunc(ref_mulm(a, i), d) == ref_ident(a.NumRows()); }

// ---------------------------------------------------------------- truncated inverse
template <class F> static void inv_op(Ctx & c, F f, const char * what, long n1 = 4, long n2 = 7)
{
    long n = c.dim(2, 4, n1, n2), l = c.len(3, 10, 30, 80), d = c.coin() ? c.edge(2 * l) : c.range(1, 3 * l);
    PM a = inv0(c, n, c.range(1, l)), a0 = a, r; c.soil(r);
    if (c.alias(1)) { c.call([&] { f(a, a, d); }); r = a; } else { c.pin(a); c.call([&] { f(r, a, d); }); }
    c.out(r);
    if (c.oracle) c.check(r.NumRows() == n && r.NumCols() == n && ref_deg(r) < d && canon(r) && ident_mod(a0, r, d), what);
}
OP(inv_trunc, PM_ALL, TG_ALIAS | TG_VARIANT | TG_KNOB) { inv_op(c, [](PM & r, const PM & a, long d) { inv_trunc(r, a, d); }, "truncated inverse: product is not the identity"); }
OP(inv_trunc_plain, PM_ANY, TG_ALIAS | TG_VARIANT) { inv_op(c, [](PM & r, const PM & a, long d) { plain_inv_trunc(r, a, d); }, "plain truncated inverse: product is not the identity"); }
OP(inv_trunc_newton_FFT, PM_FFT, TG_ALIAS | TG_VARIANT | TG_KNOB) { long th = c.coin() ? -1 : 1L << c.below(6); inv_op(c, [=](PM & r, const PM & a, long d) { newton_inv_trunc_FFT(r, a, d, th); }, "Newton truncated inverse (FFT): product is not the identity"); }
OP(inv_trunc_newton_mp, PM_ALL, TG_ALIAS | TG_VARIANT | TG_KNOB) { long th = c.coin() ? -1 : 1L << c.below(6); inv_op(c, [=](PM & r, const PM & a, long d) { newton_inv_trunc_middle_product(r, a, d, th); }, "Newton truncated inverse (middle product): product is not the identity"); }
OP(inv_trunc_newton_geom, PM_ALL, TG_ALIAS | TG_VARIANT | TG_KNOB | TG_RANDOM) { long th = c.coin() ? -1 : 1L << c.below(6); inv_op(c, [=](PM & r, const PM & a, long d) { newton_inv_trunc_geometric(r, a, d, th); }, "Newton truncated inverse (geometric): product is not the identity"); }

OP(high_order_lift, PM_ALL, TG_ALIAS | TG_VARIANT | TG_KNOB)
{
    long n = c.dim(2, 3, 4, 6), d = c.range(1, c.len(2, 6, 12, 20)); PM a = inv0(c, n, d + 1); if (ref_deg(a) < d) NTL::SetCoeff(a[0][0], d, c.nz());
    long i0 = 2 * d + c.range(0, d);        // slice: degrees i0-(2d-1) .. i0-1
    long i1 = 2 * i0 - d;
    PM full = ref_series_inv(a, i1);
    PM src, iv = ref_trunc(full, d), exp, nx; src.SetDims(n, n); exp.SetDims(n, n);
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { src[i][j] = RightShift(NTL::trunc(full[i][j], i0), i0 - (2 * d - 1)); exp[i][j] = RightShift(full[i][j], i1 - (2 * d - 1)); }
    c.soil(nx); int al = c.alias(1); c.pin(a); c.pin(iv); if (!al) c.pin(src);
    c.call([&] { auto ma = get_lmultiplier(a, d - 1); auto mi = get_lmultiplier(iv, d - 1); if (al) high_order_lift_inverse_odd(src, src, ma, mi, d); else high_order_lift_inverse_odd(nx, src, ma, mi, d); });
    if (al) nx = src;
    c.out(nx);
    if (c.oracle) c.check(nx == exp && canon(nx), "high-order lifting: not the expected slice of the inverse");
}

// ---------------------------------------------------------------- power series systems
template <class F> static void series_op(Ctx & c, F f, const char * what, bool hol = false)
{
    long n = c.dim(2, 4, 5, 8), l = c.len(3, 8, 25, 60), w = c.dim(1, 2, 3, 5); int al = c.alias(hol ? 2 : 2); if (al == 1) w = n;
    PM a = inv0(c, n, c.range(hol ? 2 : 1, l + 1)); if (hol && ref_deg(a) < 1) NTL::SetCoeff(a[0][0], 1, c.nz());
    long dA = ref_deg(a), prec = c.coin(0.25) ? 4 * std::max(1L, dA) + c.range(1, 2 * dA + 4) : c.coin() ? c.range(1, 2 * l) : c.range(1, 6 * l);
    PM b = c.pmat(n, w, hol ? c.range(0, dA) : c.range(0, 2 * l)), a0 = a, b0 = b, u; c.soil(u);
    if (al == 1) { c.pin(b); c.call([&] { f(a, a, b, prec); }); u = a; }
    else if (al == 2) { c.pin(a); c.call([&] { f(b, a, b, prec); }); u = b; }
    else { c.pin(a); c.pin(b); c.call([&] { f(u, a, b, prec); }); }
    c.out(u);
    if (c.oracle) c.check(u.NumRows() == n && u.NumCols() == w && ref_deg(u) < prec && canon(u) && ref_trunc(ref_mulm(a0, u), prec) == ref_trunc(b0, prec), what);
}
OP(solve_series, PM_ALL, TG_ALIAS | TG_VARIANT | TG_KNOB) { series_op(c, [](PM & u, const PM & a, const PM & b, long p) { solve_series(u, a, b, p); }, "series system: A*u != b modulo x^prec"); }
OP(solve_series_low, PM_ALL, TG_ALIAS | TG_VARIANT | TG_KNOB) { long th = c.coin() ? -1 : c.range(1, 20); series_op(c, [=](PM & u, const PM & a, const PM & b, long p) { solve_series_low_precision(u, a, b, p, th); }, "series system (low precision): A*u != b modulo x^prec"); }
OP(solve_series_high, PM_ALL, TG_ALIAS | TG_VARIANT | TG_KNOB) { series_op(c, [](PM & u, const PM & a, const PM & b, long p) { solve_series_high_precision(u, a, b, p); }, "series system (high precision): A*u != b modulo x^prec"); }
OP(solve_series_hol, PM_ALL, TG_ALIAS | TG_VARIANT | TG_KNOB) { series_op(c, [](PM & u, const PM & a, const PM & b, long p) { solve_series_high_order_lifting(u, a, b, p); }, "series system (high-order lifting): A*u != b modulo x^prec", true); }
OP(solve_series_vec, PM_ALL, TG_ALIAS | TG_VARIANT)
{
    long n = c.dim(2, 4, 5, 8), l = c.len(3, 8, 25, 60), prec = c.range(1, 6 * l); PM a = inv0(c, n, c.range(1, l + 1)); Vec<zz_pX> b = c.pvec(n, c.range(0, 2 * l)), b0 = b, u; c.soil(u); c.pin(a);
    if (c.alias(1)) { c.call([&] { solve_series(b, a, b, prec); }); u = b; } else { c.pin(b); c.call([&] { solve_series(u, a, b, prec); }); }
    c.out(u);
    if (c.oracle) { PM U = colmat(u), B = colmat(b0); c.check(u.length() == n && ref_deg(U) < prec && canon(U) && ref_trunc(ref_mulm(a, U), prec) == ref_trunc(B, prec), "series system (vector): A*u != b modulo x^prec"); }
}

// ---------------------------------------------------------------- rational systems
static bool sol_ok(const PM & A, const Vec<zz_pX> & u, const zz_pX & den, const Vec<zz_pX> & b)
{
    if (IsZero(den) || u.length() != A.NumCols() || !canon(u) || !canon(den)) return false;
    PM l = ref_mulm(A, colmat(u)); for (long i = 0; i < b.length(); i++) if (l[i][0] != den * b[i]) return false; return true;
}
OP(linsolve_series, PM_60, TG_ALIAS | TG_RANDOM | TG_MC)
{
    long n = c.dim(2, 3, 5, 6), l = c.len(2, 5, 8, 12), cst = c.below(5) == 0; PM a = inv0(c, n, cst ? 1 : c.range(2, l + 1), 0); Vec<zz_pX> b = c.pvec(n, c.range(1, l + 1), 0), b0, u; if (c.coin(0.2)) clear(b[0]); if (c.coin(0.1)) { b.kill(); b.SetLength(n); } b0 = b;
    zz_pX den; c.soil(u); c.soil(den); c.pin(a);
    if (c.alias(1)) { c.call([&] { linsolve_via_series(b, den, a, b); }); u = b; } else { c.pin(b); c.call([&] { linsolve_via_series(u, den, a, b); }); }
    c.out(u); c.out(den);
    if (c.oracle) c.check(sol_ok(a, u, den, b0), "linear system via series: A*u != den*b");
}
OP(linsolve_kernel, PM_ALL, TG_VARIANT)
{
    long m = c.dim(2, 3, 4, 5), n = c.coin(0.7) ? m : c.dim(2, 3, 4, 5), l = c.len(2, 4, 6, 8); int k = (int) c.below(4); PM a = c.pmat(m, n, l, k == 3 ? -1 : 0); Vec<zz_pX> b = c.pvec(m, l, 0), u; zz_pX den;
    if (k == 1) { Vec<zz_pX> x = c.pvec(n, 2, 0); PM t = ref_mulm(a, colmat(x)); for (long i = 0; i < m; i++) b[i] = t[i][0]; }        // polynomial solution
    if (k == 2 && m > 1) for (long j = 0; j < n; j++) a[m - 1][j] = a[0][j] * c.poly(2, 0);
    if (c.coin(0.03)) a.kill(), a.SetDims(m, n); if (c.coin(0.04)) { b.kill(); b.SetLength(m); }
    c.soil(u); c.soil(den); c.pin(a); c.pin(b); long st = 0;
    c.call([&] { st = linsolve_via_kernel(u, den, a, b); });
    c.out(st); if (st) { c.out(u); c.out(den); }
    if (c.oracle) {
        if (st) c.check(sol_ok(a, u, den, b), "linear system via kernel: reported solution does not satisfy A*u = den*b");
        else {      // compare ranks over K(x), evaluated at a point generic enough for the field
            PM ab; ab.SetDims(m, n + 1); for (long i = 0; i < m; i++) { for (long j = 0; j < n; j++) ab[i][j] = a[i][j]; ab[i][n] = b[i]; }
            long ra = 0, rb = 0; for (int t = 0; t < 4; t++) { zz_p x = c.el(0); ra = std::max(ra, ref_rank(ref_eval(a, x))); rb = std::max(rb, ref_rank(ref_eval(ab, x))); }
            c.check(ra < rb, "linear system via kernel: reported no solution although one exists");
        }
    }
}

// ---------------------------------------------------------------- determinants
template <class F> static void det_op(Ctx & c, F f, const char * what, long n0, long n1, long n2, long n3)
{
    long n = c.coin(0.08) ? 1 : c.dim(n0, n1, n2, n3), l = c.len(2, 6, 15, 30); PM a = c.pmat(n, n, c.range(1, l)); if (c.coin(0.03)) { a.kill(); a.SetDims(n, n); } zz_pX d; c.soil(d); c.pin(a);
    c.call([&] { f(d, a); });
    c.out(d);
    if (c.oracle) c.check(canon(d) && d == ref_det(a), what);
}
OP(det_eval_general, PM_ALL, TG_VARIANT | TG_RANDOM) { det_op(c, [](zz_pX & d, const PM & a) { determinant_via_evaluation_general(d, a); }, "determinant by evaluation (general points): wrong", 2, 4, 5, 6); }
OP(det_eval_geometric, PM_ALL, TG_VARIANT | TG_RANDOM) { det_op(c, [](zz_pX & d, const PM & a) { determinant_via_evaluation_geometric(d, a); }, "determinant by evaluation (geometric points): wrong", 2, 4, 5, 6); }
OP(det_eval_FFT, PM_FFT, TG_VARIANT) { det_op(c, [](zz_pX & d, const PM & a) { determinant_via_evaluation_FFT(d, a); }, "determinant by evaluation (FFT points): wrong", 2, 4, 5, 6); }
OP(det_minors, PM_ANY, TG_VARIANT) { det_op(c, [](zz_pX & d, const PM & a) { determinant_expansion_by_minors(d, a); }, "determinant by minors: wrong", 3, 4, 4, 4); }
OP(det_minors_rec, PM_ANY, TG_VARIANT) { det_op(c, [](zz_pX & d, const PM & a) { determinant_expansion_by_minors_rec(d, a); }, "determinant by minors (recursive): wrong", 3, 4, 5, 5); }
static bool up_to_const(const zz_pX & a, const zz_pX & b) { if (IsZero(a) || IsZero(b)) return IsZero(a) && IsZero(b); return a * LeadCoeff(b) == b * LeadCoeff(a); }
OP(det_generic_degree, PM_60, TG_LV)
{
    long n = c.dim(4, 6, 8, 9), l = c.range(1, c.len(2, 4, 6, 8)); PM a = c.pmat_generic(n, n, l + 1); zz_pX d; bool ok = false; c.soil(d); c.pin(a);
    bool wrong = c.coin(0.2); zz_pX D = ref_det(a); long dg = deg(D) + (wrong ? c.range(1, 3) : 0);
    c.call([&] { ok = determinant_generic_knowing_degree(d, a, dg); });
    c.out((long) ok); if (ok) c.out(d);
    if (c.oracle) { if (wrong) c.check(!ok, "determinant knowing its degree: success reported for a degree that is not that of the determinant"); else c.check(ok && canon(d) && up_to_const(d, D), ok ? "determinant knowing its degree: reported success with a wrong determinant" : "determinant knowing its degree: failure on a generic matrix"); }
}
OP(det_structured_degree, PM_ALL, TG_LV)     // not generic: failure may be reported, success must be right
{
    long n = c.dim(4, 6, 7, 8), l = c.range(1, c.len(2, 3, 4, 5)); PM a = c.pmat(n, n, l + 1, 0); int k = (int) c.below(4);
    if (c.coin(0.1)) { for (long j = 0; j < n; j++) a[n-1][j] = a[0][j]; }
    else if (k == 0) { for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) clear(a[i][j]); }
    else if (k == 1) { for (long i = 0; i < n; i++) for (long j = i + 1; j < n; j++) clear(a[i][j]); }
    else if (k == 2) { zz_pX g = c.poly_exact(1); for (long i = 0; i < n; i++) a[i][0] = a[i][0] * g; }
    else for (long j = 0; j < n; j++) { zz_pX g = c.poly(2, 0); a[n - 1][j] = a[n - 1][j] * g; }
    zz_pX D = ref_det(a), d; c.soil(d); c.pin(a); bool ok = false;
    c.call([&] { ok = determinant_generic_knowing_degree(d, a, deg(D)); });
    c.out((long) ok); if (ok) c.out(d);
    if (c.oracle && ok) c.check(canon(d) && up_to_const(d, D), "determinant knowing its degree: reported success with a wrong determinant");
}
OP(det_linsolve, PM_60, TG_RANDOM | TG_MC)
{
    long n = c.dim(2, 3, 4, 5), l = c.len(1, 3, 5, 8); PM a = inv0(c, n, l + 1, 0); if (ref_deg(a) < 1) NTL::SetCoeff(a[0][0], 1, c.nz()); zz_pX d; c.soil(d); c.pin(a);
    // the denominator is the largest invariant factor: generic matrices only
    PM g = c.pmat_generic(n, n, l + 1); CM g0 = ref_eval(g, to_zz_p(0)); if (ref_cdet(g0) == 0) return; a = g; c.pins.clear(); c.pin(a);
    c.call([&] { determinant_via_linsolve(d, a); });
    c.out(d);
    if (c.oracle) { zz_pX D = ref_det(a); c.check(canon(d) && up_to_const(d, D), "determinant via linear system: wrong"); }
}
OP(verify_det_accepts, PM_ANY, TG_VERIFY | TG_RANDOM)
{
    long n = c.dim(2, 4, 5, 6), l = c.len(2, 5, 8, 12); PM a = c.pmat(n, n, l); zz_pX D = ref_det(a); bool up = c.coin(); if (up) D = D * c.nz(); c.pin(a); c.pin(D); bool ok = false;
    c.call([&] { ok = verify_determinant(D, a, up, true); });
    c.out((long) ok);
    if (c.oracle) c.check(ok, "determinant verification rejected the determinant");
}
OP(verify_det_rejects, PM_60, TG_SOUND | TG_RANDOM)
{
    long n = c.dim(2, 4, 5, 6), l = c.len(2, 5, 8, 12); PM a = c.pmat(n, n, l); zz_pX D = ref_det(a); bool up = c.coin(); zz_pX e;
    if (c.coin(0.1)) { for (long j = 0; j < n; j++) a[n - 1][j] = n > 1 ? a[0][j] : zz_pX(); D = ref_det(a); }       // singular
    int k = (int) c.below(5); if (k == 4) D = IsZero(D) ? c.poly_exact(c.range(0, 3)) : zz_pX(); else
    if (k == 0) { e = c.poly(c.range(1, 6)); if (IsZero(e)) e = c.nz(); D = D + e; } else if (k == 1) { zz_pX t; NTL::SetCoeff(t, c.range(0, std::max(1L, deg(D))), c.nz()); D = D + t; } else if (k == 2) D = D * c.poly_exact(1); else { zz_p w; do w = c.nz(); while (w == 1); D = D * w; if (up) { zz_pX t; NTL::SetCoeff(t, 0, c.nz()); D = D + t; } }
    zz_pX D0 = ref_det(a); if (D == D0 || (up && up_to_const(D, D0))) { c.out(1L); return; }
    c.pin(a); c.pin(D); bool ok = true;
    c.call([&] { ok = verify_determinant(D, a, up, true); });
    c.out((long) ok);
    if (c.oracle) c.check(!ok, "determinant verification accepted a wrong determinant");
}

// ---------------------------------------------------------------- division, reduction
OP(quo_rem, PM_ALL, TG_VARIANT | TG_KNOB)
{
    long m = c.dim(2, 3, 4, 6), n = c.dim(2, 3, 4, 6), l = c.len(2, 6, 15, 30); PM B = c.pmat(m, m, 1, 4), A, Q, R; VecLong rd(m);
    CM L = inv_const(c, m);
    for (long i = 0; i < m; i++) { rd[i] = c.range(0, l); for (long j = 0; j < m; j++) { B[i][j] = c.poly(rd[i], 0); NTL::SetCoeff(B[i][j], rd[i], L[i][j]); } }
    A.SetDims(m, n); for (long i = 0; i < m; i++) { long la = c.coin(0.2) ? c.range(0, rd[i]) : c.range(0, 3 * l); for (long j = 0; j < n; j++) A[i][j] = c.poly(la); }
    c.soil(Q); c.soil(R); c.pin(A); c.pin(B);
    c.call([&] { quo_rem(Q, R, A, B); });
    c.out(Q); c.out(R);
    if (c.oracle) {
        bool ok = Q.NumRows() == m && Q.NumCols() == n && R.NumRows() == m && R.NumCols() == n && canon(Q) && canon(R);
        if (ok) { PM t = ref_mulm(B, Q); for (long i = 0; ok && i < m; i++) for (long j = 0; ok && j < n; j++) ok = t[i][j] + R[i][j] == A[i][j] && deg(R[i][j]) < rd[i]; }
        c.check(ok, "division with remainder: A != B*Q+R or the remainder is too large");
    }
}
OP(reduced_form_gjv, PM_60, TG_LV)
{
    long n = c.dim(2, 3, 4, 5), l = c.range(1, c.len(2, 3, 4, 5)); PM a; bool sing = c.coin(0.15);
    for (;;) { a = c.pmat_generic(n, n, l + 1); if (ref_cdet(ref_eval(a, to_zz_p(0))) != 0) break; }
    if (c.coin(0.4) && n > 1) { zz_pX q = c.poly(2, 0); for (long j = 0; j < n; j++) a[0][j] = a[0][j] + q * a[n - 1][j]; if (ref_cdet(ref_eval(a, to_zz_p(0))) == 0) return; }
    if (sing) for (long j = 0; j < n; j++) NTL::SetCoeff(a[0][j], 0, 0);
    PM r; long st = -1; c.soil(r); c.pin(a);
    c.call([&] { st = reduced_form_gjv(r, a); });
    c.out(st); if (st) c.out(r);
    if (c.oracle) {
        if (sing) { c.check(st == 0, "reduction: success reported although the constant coefficient is singular"); return; }
        VecLong s(n, 0); bool ok = st == 1 && r.NumRows() == n && r.NumCols() == n && canon(r) && ref_form(r, s) >= 1;
        zz_pX D = ref_det(a); ok = ok && up_to_const(ref_det(r), D);
        if (ok) {       // same row space: r * a^{-1} is polynomial, i.e. r * adj(a) is divisible by det(a)
            PM adj; adj.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { PM mnr; if (n == 1) { set(adj[0][0]); continue; } mnr.SetDims(n - 1, n - 1); for (long x = 0, xi = 0; x < n; x++) { if (x == j) continue; for (long y = 0, yi = 0; y < n; y++) { if (y == i) continue; mnr[xi][yi] = a[x][y]; yi++; } xi++; } zz_pX dd = ref_det(mnr); adj[i][j] = ((i + j) & 1) ? -dd : dd; }
            PM q = ref_mulm(r, adj); for (long i = 0; ok && i < n; i++) for (long j = 0; ok && j < n; j++) ok = divide(q[i][j], D);
        }
        c.check(ok, "row reduction: result is not a reduced basis of the same row space");
    }
}

// ---------------------------------------------------------------- sequences and reconstruction
OP(gen_pows, PM_ALL, TG_VARIANT)
{
    long n = c.len(6, 20, 100, 500) + 2, l = c.range(1, 5), s = c.range(1, 4); zz_pX g = c.poly_exact(n), a = c.poly(n, 0), t = c.poly(n, 0); Vec<zz_pX> p, up; c.soil(p); c.soil(up); c.pin(g); c.pin(a); c.pin(t);
    c.call([&] { gen_pows(p, up, t, a, s, g, l, false); });
    c.out(p);
    if (c.oracle) { bool ok = p.length() == l && canon(p); zz_pX as, e = t % g; set(as); for (long k = 0; k < s; k++) as = (as * a) % g; for (long k = 0; ok && k < l; k++) { ok = p[k] == e; e = (e * as) % g; } c.check(ok, "power sequence: wrong power"); }
}
// reference for the sequence: entry (i,j) of matrix k is coefficient j of x^i a^(d-1-k) mod g
OP(gen_sequence, PM_FFT, TG_HEAVY | TG_VARIANT)
{
    long n = 500 + c.below(60), m = c.range(8, 20); zz_pX g = c.poly_exact(n), a = c.poly(n, 0); NTL::SetCoeff(g, 0, c.nz()); NTL::SetCoeff(g, n, 1); NTL::SetCoeff(a, n - 1, c.nz()); Vec<CM> M; c.soil(M); c.pin(g); c.pin(a);
    c.call([&] { gen_sequence(M, a, g, m); });
    c.out(M);
    if (c.oracle) {
        long d = 2 * ((n + m - 1) / m) + 1; bool ok = M.length() == d; zz_pX e; set(e);
        for (long pw = 0; ok && pw < d; pw++) { zz_pX f = e; for (long i = 0; ok && i < m; i++) { for (long j = 0; ok && j < m; j++) ok = M[d - 1 - pw][i][j] == coeff(f, j); f = LeftShift(f, 1) % g; } e = (e * a) % g; }
        c.check(ok, "block sequence: wrong coefficient");
    }
}
