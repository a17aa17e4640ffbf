// polynomial matrices: arithmetic, utilities, forms, products, middle products, multipliers, linearization
#include "ops.h"
using namespace sim;

typedef Mat<zz_pX> PM;
typedef Mat<zz_p> CM;

// ---------------------------------------------------------------- arithmetic
static bool eqm(const PM & a, const PM & b) { return a == b; }
#define EACH(R, m, n, expr) do { R.SetDims(m, n); for (long i = 0; i < (m); i++) for (long j = 0; j < (n); j++) R[i][j] = (expr); } while (0)

OP(mat_add_sub, PM_ANY, TG_ALIAS)
{
    long m = c.dim(2, 4, 8, 12), n = c.dim(2, 4, 8, 12), d = c.len(3, 8, 20, 40);
    PM a = c.pmat(m, n, c.range(0, d)), b = c.pmat(m, n, c.range(0, d)), a0 = a, b0 = b, r, s; c.soil(r); c.soil(s);
    if (c.coin(0.2)) { b = a; b0 = a; }
    int al = c.alias(2);
    if (al == 1) { c.pin(b); PM a2 = a; c.call([&] { add(a, a, b); sub(a2, a2, b); }); r = a; s = a2; }
    else if (al == 2) { c.pin(a); PM b2 = b; c.call([&] { add(b, a, b); sub(b2, a, b2); }); r = b; s = b2; }
    else { c.pin(a); c.pin(b); c.call([&] { add(r, a, b); sub(s, a, b); }); }
    c.out(r); c.out(s);
    if (c.oracle) { PM t, u; EACH(t, m, n, a0[i][j] + b0[i][j]); EACH(u, m, n, a0[i][j] - b0[i][j]); c.check(eqm(r, t) && eqm(s, u) && canon(r) && canon(s), "matrix add/sub: wrong sum or difference"); }
}
OP(mat_add_const, PM_ANY, TG_ALIAS)
{
    long m = c.dim(2, 4, 8, 12), n = c.dim(2, 4, 8, 12), d = c.len(3, 8, 20, 40);
    PM a = c.pmat(m, n, c.range(0, d)), a0 = a, r, s, t; CM b = c.cmat(m, n); if (c.coin(0.3)) for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) b[i][j] = -coeff(a[i][j], 0);
    c.soil(r); c.soil(s); c.soil(t); c.pin(b);
    if (c.alias(1)) { PM a1 = a, a2 = a, a3 = a; c.call([&] { add(a1, a1, b); sub(a2, a2, b); sub(a3, b, a3); }); r = a1; s = a2; t = a3; }
    else { c.pin(a); c.call([&] { add(r, a, b); sub(s, a, b); sub(t, b, a); }); }
    c.out(r); c.out(s); c.out(t);
    if (c.oracle) { PM u, v, w; EACH(u, m, n, a0[i][j] + b[i][j]); EACH(v, m, n, a0[i][j] - b[i][j]); EACH(w, m, n, b[i][j] - a0[i][j]); c.check(r == u && s == v && t == w && canon(r) && canon(s) && canon(t), "matrix plus/minus constant matrix: wrong result"); }
}
OP(mat_neg_scale, PM_ANY, TG_ALIAS)
{
    long m = c.dim(2, 4, 8, 12), n = c.dim(2, 4, 8, 12), d = c.len(3, 8, 20, 40);
    PM a = c.pmat(m, n, c.range(0, d)), a0 = a, r, s, t; zz_p e = c.coin(0.15) ? to_zz_p(0) : c.el(0); zz_pX f = c.poly(c.range(0, d)); c.soil(r); c.soil(s); c.soil(t); c.pin(f);
    if (c.alias(1)) { PM a1 = a, a2 = a, a3 = a; c.call([&] { PML::negate(a1, a1); mul(a2, a2, e); mul(a3, a3, f); }); r = a1; s = a2; t = a3; }
    else { c.pin(a); c.call([&] { PML::negate(r, a); mul(s, a, e); mul(t, a, f); }); }
    c.out(r); c.out(s); c.out(t);
    if (c.oracle) { PM u, v, w; EACH(u, m, n, -a0[i][j]); EACH(v, m, n, a0[i][j] * e); EACH(w, m, n, a0[i][j] * f); c.check(r == u && s == v && t == w && canon(r) && canon(s) && canon(t), "matrix negate/scale: wrong result"); }
}
OP(vec_arith, PM_ANY, TG_ALIAS)
{
    long n = c.dim(3, 6, 12, 30), d = c.len(3, 8, 20, 40);
    Vec<zz_pX> a = c.pvec(n, d), b = c.pvec(n, d), a0 = a, b0 = b, r, s, t, u, v, w; Vec<zz_p> k = c.vec(n); zz_p e = c.el(0); zz_pX f = c.poly(d); c.pin(k); c.pin(f);
    c.soil(r); c.soil(s); c.soil(t); c.soil(u); c.soil(v); c.soil(w);
    if (c.alias(1)) { c.pin(b); Vec<zz_pX> a1 = a, a2 = a, a3 = a, a4 = a, a5 = a, a6 = a; c.call([&] { add(a1, a1, b); sub(a2, a2, b); PML::negate(a3, a3); mul(a4, a4, e); mul(a5, a5, f); add(a6, a6, k); }); r = a1; s = a2; t = a3; u = a4; v = a5; w = a6; }
    else { c.pin(a); c.pin(b); c.call([&] { add(r, a, b); sub(s, a, b); PML::negate(t, a); mul(u, a, e); mul(v, a, f); add(w, a, k); }); }
    c.out(r); c.out(s); c.out(t); c.out(u); c.out(v); c.out(w);
    if (c.oracle) { bool ok = r.length() == n && s.length() == n && t.length() == n && u.length() == n && v.length() == n && w.length() == n; for (long i = 0; ok && i < n; i++) ok = r[i] == a0[i] + b0[i] && s[i] == a0[i] - b0[i] && t[i] == -a0[i] && u[i] == a0[i] * e && v[i] == a0[i] * f && w[i] == a0[i] + k[i];
        c.check(ok && canon(r) && canon(s) && canon(t) && canon(u) && canon(v) && canon(w), "vector arithmetic: wrong result"); }
}
OP(vec_sub_const, PM_ANY, TG_ALIAS)
{
    long n = c.dim(3, 6, 12, 30), d = c.len(3, 8, 20, 40);
    Vec<zz_pX> a = c.pvec(n, d), a0 = a, r, s; Vec<zz_p> k = c.vec(n); c.pin(k); c.soil(r); c.soil(s);
    if (c.alias(1)) { Vec<zz_pX> a1 = a, a2 = a; c.call([&] { sub(a1, a1, k); sub(a2, k, a2); }); r = a1; s = a2; }
    else { c.pin(a); c.call([&] { sub(r, a, k); sub(s, k, a); }); }
    c.out(r); c.out(s);
    if (c.oracle) { bool ok = r.length() == n && s.length() == n; for (long i = 0; ok && i < n; i++) ok = r[i] == a0[i] - k[i] && s[i] == k[i] - a0[i]; c.check(ok && canon(r) && canon(s), "vector minus constants: wrong result"); }
}
OP(mat_mul_const, PM_ALL, TG_ALIAS | TG_VARIANT)
{
    long m = c.dim(2, 5, 10, 20), n = c.dim(2, 5, 10, 20), k = c.dim(2, 5, 10, 20), d = c.len(3, 8, 20, 40);
    int al = c.alias(1); if (al) n = k = m;
    PM a = c.pmat(m, n, d), r, s, b = c.pmat(n, k, d); CM x = c.cmat(n, k), y = c.cmat(m, n); PM a0 = a, b0 = b; c.pin(x); c.pin(y); c.soil(r); c.soil(s);
    if (al) { c.call([&] { mul(a, a, x); mul(b, y, b); }); r = a; s = b; }
    else { c.pin(a); c.pin(b); c.call([&] { mul(r, a, x); mul(s, y, b); }); }
    c.out(r); c.out(s);
    if (c.oracle) { PM X, Y; EACH(X, n, k, to_zz_pX(x[i][j])); EACH(Y, m, n, to_zz_pX(y[i][j])); c.check(r == ref_mulm(a0, X) && s == ref_mulm(Y, b0) && canon(r) && canon(s), "product with a constant matrix: wrong result"); }
}
OP(mat_add_LeftShift, PM_ANY, TG_ALIAS)
{
    long m = c.dim(2, 4, 6, 10), n = c.dim(2, 4, 6, 10), d = c.len(3, 10, 30, 60), k = c.range(0, d + 2);
    PM a = c.pmat(m, n, d), b = c.pmat(m, n, d), a0 = a, r; c.soil(r); c.pin(b);
    if (c.alias(1)) { c.call([&] { add_LeftShift(a, a, b, k); }); r = a; } else { c.pin(a); c.call([&] { add_LeftShift(r, a, b, k); }); }
    Vec<zz_pX> va = c.pvec(n, d), vb = c.pvec(n, d), vr; c.soil(vr); c.pin(va); c.pin(vb);
    c.call([&] { add_LeftShift(vr, va, vb, k); });
    c.out(r); c.out(vr);
    if (c.oracle) { PM t; EACH(t, m, n, a0[i][j] + LeftShift(b[i][j], k)); bool ok = r == t && canon(r) && vr.length() == n && canon(vr); for (long i = 0; ok && i < n; i++) ok = vr[i] == va[i] + LeftShift(vb[i], k); c.check(ok, "add_LeftShift on matrices: wrong result"); }
}

// ---------------------------------------------------------------- utilities
OP(mat_trunc_shift, PM_ANY, TG_ALIAS)
{
    long m = c.dim(2, 4, 6, 10), n = c.dim(2, 4, 6, 10), d = c.len(4, 12, 40, 80), k = c.range(0, d + 2);
    PM a = c.pmat(m, n, d), a0 = a, t, l, r, v; c.soil(t); c.soil(l); c.soil(r); c.soil(v);
    if (c.alias(1)) { PM a1 = a, a2 = a, a3 = a, a4 = a; c.call([&] { trunc(a1, a1, k); LeftShift(a2, a2, k); RightShift(a3, a3, k); reverse(a4, a4, k); }); t = a1; l = a2; r = a3; v = a4; }
    else { c.pin(a); c.call([&] { trunc(t, a, k); LeftShift(l, a, k); RightShift(r, a, k); reverse(v, a, k); }); }
    c.out(t); c.out(l); c.out(r); c.out(v);
    if (c.oracle) { PM T, L, RR, V; EACH(T, m, n, NTL::trunc(a0[i][j], k)); EACH(L, m, n, NTL::LeftShift(a0[i][j], k)); EACH(RR, m, n, NTL::RightShift(a0[i][j], k)); EACH(V, m, n, NTL::reverse(a0[i][j], k));
        c.check(t == T && l == L && r == RR && v == V && canon(t) && canon(l) && canon(r) && canon(v), "trunc/shift/reverse of a matrix: wrong result"); }
}
OP(mat_rowcol_shift, PM_ANY, TG_ALIAS)
{
    long m = c.dim(2, 4, 6, 10), n = c.dim(2, 4, 6, 10), d = c.len(4, 12, 40, 80), k = c.range(0, d + 2), ri = c.below(m), ci = c.below(n); int which = (int) c.below(6);
    PM a = c.pmat(m, n, d), a0 = a, r; c.soil(r);
    auto f = [&](PM & o, const PM & x) { switch (which) { case 0: truncRow(o, x, ri, k); break; case 1: truncCol(o, x, ci, k); break; case 2: LeftShiftRow(o, x, ri, k); break; case 3: RightShiftRow(o, x, ri, k); break; case 4: LeftShiftCol(o, x, ci, k); break; default: RightShiftCol(o, x, ci, k); } };
    if (c.alias(1)) { c.call([&] { f(a, a); }); r = a; } else { c.pin(a); c.call([&] { f(r, a); }); }
    c.out(r);
    if (c.oracle) { PM t; EACH(t, m, n, ((which == 0 || which == 2 || which == 3) ? i != ri : j != ci) ? a0[i][j] : which < 2 ? NTL::trunc(a0[i][j], k) : (which == 2 || which == 4) ? NTL::LeftShift(a0[i][j], k) : NTL::RightShift(a0[i][j], k)); c.check(r == t && canon(r), "row/column trunc or shift: wrong result"); }
}
OP(mat_coeff, PM_ANY, 0)
{
    long m = c.dim(2, 4, 6, 10), n = c.dim(2, 4, 6, 10), d = c.len(4, 12, 40, 80), k = c.range(0, d + 1);
    PM a = c.pmat(m, n, d), b, t; CM x, y = c.cmat(m, n), e; c.soil(x); c.soil(e); c.soil(t); c.pin(y); zz_p pt = c.el(0); b = a; PM a0 = a;
    c.pin(a);
    c.call([&] { GetCoeff(x, a, k); SetCoeff(b, k, y); eval(e, a, pt); transpose(t, a); });
    c.out(x); c.out(b); c.out(e); c.out(t);
    if (c.oracle) {
        bool ok = x.NumRows() == m && x.NumCols() == n && e == ref_eval(a0, pt) && t.NumRows() == n && t.NumCols() == m && canon(b);
        for (long i = 0; ok && i < m; i++) for (long j = 0; ok && j < n; j++) { zz_pX f = a0[i][j]; NTL::SetCoeff(f, k, y[i][j]); ok = x[i][j] == coeff(a0[i][j], k) && b[i][j] == f && t[j][i] == a0[i][j]; }
        c.check(ok, "matrix coefficient access/evaluation/transpose: wrong result");
    }
}
OP(mat_transpose_alias, PM_ANY, TG_ALIAS)
{
    long m = c.dim(2, 4, 6, 10), n = c.coin() ? m : c.dim(2, 4, 6, 10), d = c.len(3, 6, 10, 20); PM a = c.pmat(m, n, d), a0 = a, t; c.soil(t);
    if (c.alias(1)) { c.call([&] { transpose(a, a); }); t = a; } else { c.pin(a); c.call([&] { transpose(t, a); }); }
    c.out(t);
    if (c.oracle) { PM u; EACH(u, n, m, a0[j][i]); c.check(t == u, "transpose: wrong result"); }
}
OP(mat_rowcol_reverse, PM_ANY, TG_ALIAS)
{
    long m = c.dim(2, 4, 6, 10), n = c.dim(2, 4, 6, 10), d = c.len(4, 12, 40, 60); PM a = c.pmat(m, n, d), a0 = a, r, s; c.soil(r); c.soil(s);
    VecLong hr(m), hc(n); for (auto & x : hr) x = c.range(0, d + 1); for (auto & x : hc) x = c.range(0, d + 1); c.pin(hr); c.pin(hc);
    if (c.alias(1)) { PM a1 = a, a2 = a; c.call([&] { row_reverse(a1, a1, hr); col_reverse(a2, a2, hc); }); r = a1; s = a2; } else { c.pin(a); c.call([&] { row_reverse(r, a, hr); col_reverse(s, a, hc); }); }
    c.out(r); c.out(s);
    if (c.oracle) { PM u, v; EACH(u, m, n, NTL::reverse(a0[i][j], hr[i])); EACH(v, m, n, NTL::reverse(a0[i][j], hc[j])); c.check(r == u && s == v && canon(r) && canon(s), "row/column reversal: wrong result"); }
}
OP(mat_conv, PM_ANY, 0)
{
    long m = c.dim(2, 4, 6, 10), n = c.dim(2, 4, 6, 10), d = c.len(4, 12, 40, 60), o = c.range(1, d + 3); PM a = c.pmat(m, n, d), b, b2, b3; Vec<CM> v, w; CM k = c.cmat(m, n); if (ref_deg(a) < 0) a[0][0] = c.nz();
    c.soil(b); c.soil(b2); c.soil(v); c.soil(w); c.soil(b3); c.pin(a); c.pin(k); long dd = ref_deg(a);
    zz_p pt = c.el(0); CM e; c.soil(e);
    c.call([&] { conv(v, a); conv(b, v); conv(w, a, o); conv(b2, w, o); conv(b3, k); eval(e, v, pt); });
    c.out(v); c.out(b); c.out(w); c.out(b2); c.out(b3); c.out(e);
    if (c.oracle) {
        bool ok = b == a && v.length() == dd + 1 && w.length() <= o && b2 == ref_trunc(a, o) && canon(b) && canon(b2) && canon(b3) && e == ref_eval(a, pt);
        for (long q = 0; ok && q < v.length(); q++) for (long i = 0; ok && i < m; i++) for (long j = 0; ok && j < n; j++) ok = v[q][i][j] == coeff(a[i][j], q);
        for (long i = 0; ok && i < m; i++) for (long j = 0; ok && j < n; j++) ok = b3[i][j] == to_zz_pX(k[i][j]);
        c.check(ok, "conversion between matrix polynomials and polynomial matrices: wrong result");
    }
}
OP(mat_predicates, PM_ANY, TG_NOSOIL)
{
    long m = c.dim(2, 4, 6, 8), n = c.coin() ? m : c.dim(2, 4, 6, 8), d = c.len(2, 3, 6, 6); int k = (int) c.below(5); PM a;
    if (k == 0) a = ref_ident(m); else if (k == 1) a.SetDims(m, n); else if (k == 2) { a = ref_ident(m); a[c.below(m)][c.below(m)] = c.poly(2); } else a = c.pmat(m, n, k == 3 ? 1 : d);
    n = a.NumCols(); c.pin(a); bool z = false, id = false, ct = false, idn = false; long dg = 0; PM I, Z = a; long r0 = c.below(m), c0 = c.below(n), nr = c.range(0, m - r0), nc = c.range(0, n - c0); PM W = a;
    c.call([&] { z = IsZero(a); id = IsIdent(a); ct = IsConstant(a); dg = deg(a); idn = IsIdent(a, m); ident(I, m); clear(Z); clear(W, r0, c0, nr, nc); });
    c.out((long) z); c.out((long) id); c.out((long) ct); c.out(dg); c.out((long) idn); c.out(I); c.out(Z); c.out(W);
    if (c.oracle) {
        bool ez = ref_iszero(a), eid = m == n && a == ref_ident(m), ect = ref_deg(a) <= 0; bool ok = z == ez && id == eid && ct == ect && dg == ref_deg(a) && idn == eid && I == ref_ident(m) && ref_iszero(Z) && Z.NumRows() == m && Z.NumCols() == n;
        for (long i = 0; ok && i < m; i++) for (long j = 0; ok && j < n; j++) { bool in = i >= r0 && i < r0 + nr && j >= c0 && j < c0 + nc; ok = in ? IsZero(W[i][j]) : W[i][j] == a[i][j]; }
        c.check(ok, "matrix predicates (zero, identity, constant, degree) or clear: wrong answer");
    }
}
OP(vec_utils, PM_ANY, TG_ALIAS)
{
    long n = c.dim(3, 6, 12, 30), d = c.len(4, 12, 40, 60), k = c.range(0, d + 2); Vec<zz_pX> a = c.pvec(n, d), a0 = a, mi, t, l, r; c.soil(mi); c.soil(t); c.soil(l); c.soil(r); bool z = false; long dg = 0;
    if (c.alias(1)) { Vec<zz_pX> a1 = a, a2 = a, a3 = a, a4 = a; c.call([&] { mirror(a1, a1); trunc(a2, a2, k); LeftShift(a3, a3, k); RightShift(a4, a4, k); z = IsZero(a); dg = deg(a); }); mi = a1; t = a2; l = a3; r = a4; }
    else { c.pin(a); c.call([&] { mirror(mi, a); trunc(t, a, k); LeftShift(l, a, k); RightShift(r, a, k); z = IsZero(a); dg = deg(a); }); }
    c.out(mi); c.out(t); c.out(l); c.out(r); c.out((long) z); c.out(dg);
    if (c.oracle) { bool ok = mi.length() == n && t.length() == n && l.length() == n && r.length() == n; long D = -1; for (long i = 0; ok && i < n; i++) { D = std::max(D, deg(a0[i])); ok = mi[i] == a0[n - 1 - i] && t[i] == NTL::trunc(a0[i], k) && l[i] == NTL::LeftShift(a0[i], k) && r[i] == NTL::RightShift(a0[i], k); } c.check(ok && z == (D < 0) && dg == D, "vector utilities: wrong result"); }
}
OP(mat_random, PM_ALL, TG_RANDOM)
{
    long m = c.dim(2, 4, 6, 8), n = c.dim(2, 4, 6, 8), d = c.len(3, 8, 20, 30); PM a, b, e, f; Vec<zz_pX> v; Vec<CM> w; c.soil(a); c.soil(b); c.soil(e); c.soil(f); c.soil(v); c.soil(w);
    VecLong rd(m), cd(n); for (auto & x : rd) x = c.range(0, d); for (auto & x : cd) x = c.range(0, d); Mat<long> dm; dm.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) dm[i][j] = c.range(0, d);
    c.call([&] { random(a, m, n, d); random_mat_zz_pX_rdeg(b, m, n, rd); random_mat_zz_pX_cdeg(e, m, n, cd); random(f, dm); random(v, n, d); random(w, m, n, d); });
    c.out(a); c.out(b); c.out(e); c.out(f); c.out(v); c.out(w);
    if (c.oracle) {
        bool ok = a.NumRows() == m && a.NumCols() == n && ref_deg(a) < d && canon(a) && canon(b) && canon(e) && canon(f) && canon(v) && v.length() == n && w.length() == d && b.NumRows() == m && b.NumCols() == n && e.NumRows() == m && e.NumCols() == n && f.NumRows() == m && f.NumCols() == n;
        for (long i = 0; ok && i < m; i++) for (long j = 0; ok && j < n; j++) ok = deg(b[i][j]) < rd[i] && deg(e[i][j]) < cd[j] && deg(f[i][j]) < dm[i][j];
        c.check(ok, "random matrix: wrong shape or degree");
    }
}

// ---------------------------------------------------------------- shifted degrees and forms
static long sdeg(const zz_pX & f, long s, long mn) { return IsZero(f) ? mn - 1 : deg(f) + s; }
static void ref_rowdeg(VecLong & rd, const PM & a, const VecLong & s) { long mn = *std::min_element(s.begin(), s.end()); rd.assign(a.NumRows(), mn - 1); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) rd[i] = std::max(rd[i], sdeg(a[i][j], s[j], mn)); }
namespace sim {
// the row-wise leading matrix, pivots and strongest form, straight from the definitions
void ref_leading(CM & L, VecLong & piv, VecLong & rd, const PM & a, const VecLong & s)
{
    ref_rowdeg(rd, a, s); L.SetDims(a.NumRows(), a.NumCols()); piv.assign(a.NumRows(), -1);
    for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) { if (!IsZero(a[i][j]) && deg(a[i][j]) + s[j] == rd[i]) { L[i][j] = LeadCoeff(a[i][j]); piv[i] = j; } else L[i][j] = 0; }
}
long ref_rank(const CM & a) { CM b = a; return gauss(b); }
int ref_form(const PM & a, const VecLong & s)
{
    CM L; VecLong piv, rd; ref_leading(L, piv, rd, a, s); long m = a.NumRows();
    if (ref_rank(L) < m) return 0;
    int f = 1; bool wp = true, ow = true;
    for (long i = 0; i < m; i++) { if (piv[i] < 0) wp = false; for (long k = 0; k < i; k++) { if (piv[k] == piv[i]) wp = false; if (piv[k] >= piv[i]) ow = false; } }
    if (wp) f = 2; if (wp && ow) f = 3;
    if (f == 3) { bool po = true; for (long i = 0; i < m && po; i++) { const zz_pX & pv = a[i][piv[i]]; if (LeadCoeff(pv) != 1) po = false; for (long k = 0; k < m && po; k++) if (k != i && deg(a[k][piv[i]]) >= deg(pv)) po = false; } if (po) f = 4; }
    return f;
}
PM ref_transpose(const PM & a) { PM t; EACH(t, a.NumCols(), a.NumRows(), a[j][i]); return t; }
}
static PM form_sample(Ctx & c, long m, long n, long d, const VecLong & s)     // often a matrix in one of the forms
{
    int k = (int) c.below(6); PM a;
    if (k < 2 || n < m) return c.pmat(m, n, d);
    // weak Popov by construction: distinct pivots, degrees below elsewhere
    a.SetDims(m, n); std::vector<long> cols; for (long j = 0; j < n; j++) cols.push_back(j);
    for (long j = n - 1; j > 0; j--) std::swap(cols[j], cols[c.below(j + 1)]);
    std::vector<long> pv(cols.begin(), cols.begin() + m); if (k >= 3) std::sort(pv.begin(), pv.end());
    VecLong pd(m); for (long i = 0; i < m; i++) pd[i] = c.range(0, d - 1);
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) {
        long t = pd[i] + s[pv[i]];
        if (j == pv[i]) { a[i][j] = c.poly_exact(pd[i]); if (k >= 4) NTL::SetCoeff(a[i][j], pd[i], to_zz_p(1)); }
        else { long lim = t - s[j] - (j > pv[i] ? 1 : 0); if (k >= 4) for (long q = 0; q < m; q++) if (q != i && pv[q] == j) lim = std::min(lim, pd[q] - 1); if (lim >= 0) a[i][j] = c.poly(std::min(lim, 3 * d) + 1); }
    }
    if (k == 5) { for (long i = m - 1; i > 0; i--) { long q = c.below(i + 1); if (q != i && c.coin(0.3)) NTL::swap(a[i], a[q]); } if (c.coin(0.3)) a[c.below(m)][c.below(n)] = c.poly(d + 2); }
    return a;
}
OP(forms_degrees, PM_ANY, 0)
{
    long m = c.dim(2, 4, 6, 10), n = c.dim(2, 4, 6, 10), d = c.len(3, 8, 20, 30); VecLong s = c.shift(n, 2 * d), ss = c.shift(m, 2 * d); if (c.coin(0.3)) for (auto & x : s) x -= d;
    PM a = form_sample(c, m, n, d, s); c.pin(a); c.pin(s); c.pin(ss); VecLong r0, r1, c0, c1, pi, pd, qi, qd, ui, ud, vi, vd; CM l0, l1, k0, k1; Mat<long> d0, d1, d2;
    c.soil(r0); c.soil(r1); c.soil(c0); c.soil(c1); c.soil(pi); c.soil(pd); c.soil(qi); c.soil(qd); c.soil(l0); c.soil(l1); c.soil(k0); c.soil(k1); c.soil(d0); c.soil(d1); c.soil(d2); c.soil(ui); c.soil(ud); c.soil(vi); c.soil(vd);
    c.call([&] { row_degree(r0, a); row_degree(r1, a, s); col_degree(c0, a); col_degree(c1, a, ss); row_pivots(pi, pd, a); row_pivots(qi, qd, a, s); col_pivots(ui, ud, a); col_pivots(vi, vd, a, ss); row_leading_matrix(l0, a); row_leading_matrix(l1, a, s); col_leading_matrix(k0, a); col_leading_matrix(k1, a, ss); degree_matrix(d0, a); degree_matrix_rowshifted(d1, a, s); degree_matrix_colshifted(d2, a, ss); });
    c.out(r0); c.out(r1); c.out(c0); c.out(c1); c.out(pi); c.out(pd); c.out(qi); c.out(qd); c.out(l0); c.out(l1); c.out(k0); c.out(k1); c.out(d0); c.out(d1); c.out(d2); c.out(ui); c.out(ud); c.out(vi); c.out(vd);
    if (c.oracle) {
        VecLong z(n, 0), zz(m, 0), rd, pv; CM L; PM at = ref_transpose(a); bool ok = true;
        auto chk = [&](const PM & x, const VecLong & sh, const VecLong & deg1, const VecLong & pin, const VecLong & pdg, const CM & lm, bool tr) {
            ref_leading(L, pv, rd, x, sh); ok = ok && deg1 == rd && pin == pv; for (long i = 0; ok && i < x.NumRows(); i++) ok = pdg[i] == (pv[i] < 0 ? -1 : deg(x[i][pv[i]]));
            CM lt = lm; if (tr) transpose(lt, lm); ok = ok && lt == L; };
        chk(a, z, r0, pi, pd, l0, false); chk(a, s, r1, qi, qd, l1, false); chk(at, zz, c0, ui, ud, k0, true); chk(at, ss, c1, vi, vd, k1, true);
        long ms = *std::min_element(s.begin(), s.end()), mt = *std::min_element(ss.begin(), ss.end());
        for (long i = 0; ok && i < m; i++) for (long j = 0; ok && j < n; j++) ok = d0[i][j] == deg(a[i][j]) && d1[i][j] == sdeg(a[i][j], s[j], ms) && d2[i][j] == sdeg(a[i][j], ss[i], mt);
        c.check(ok, "shifted degrees, pivots, leading or degree matrices: wrong value");
    }
}
OP(forms_predicates, PM_ALL, TG_NOSOIL)
{
    long m = c.dim(2, 4, 6, 8), n = m + c.below(3), d = c.len(3, 6, 12, 20); VecLong s = c.shift(n, 2 * d); bool tr = c.coin(0.3), uni = c.coin(0.3); if (uni) s.assign(n, 0);
    PM a = form_sample(c, m, n, d, s); if (tr) a = ref_transpose(a); c.pin(a); c.pin(s); bool b1 = false, b2 = false, b3 = false, b4 = false, q[5] = { 0, 0, 0, 0, 0 }; PolMatForm f = NONE;
    c.call([&] { if (!tr) { if (uni) { b1 = is_row_reduced(a); b2 = is_row_weak_popov(a); b3 = is_row_ordered_weak_popov(a); b4 = is_row_popov(a); f = get_row_polmatform(a); for (int k = 0; k < 5; k++) q[k] = is_row_polmatform((PolMatForm) k, a); } else { b1 = is_row_reduced(a, s); b2 = is_row_weak_popov(a, s); b3 = is_row_ordered_weak_popov(a, s); b4 = is_row_popov(a, s); f = get_row_polmatform(a, s); for (int k = 0; k < 5; k++) q[k] = is_row_polmatform((PolMatForm) k, a, s); } }
                 else { if (uni) { b1 = is_col_reduced(a); b2 = is_col_weak_popov(a); b3 = is_col_ordered_weak_popov(a); b4 = is_col_popov(a); f = get_col_polmatform(a); for (int k = 0; k < 5; k++) q[k] = is_col_polmatform((PolMatForm) k, a); } else { b1 = is_col_reduced(a, s); b2 = is_col_weak_popov(a, s); b3 = is_col_ordered_weak_popov(a, s); b4 = is_col_popov(a, s); f = get_col_polmatform(a, s); for (int k = 0; k < 5; k++) q[k] = is_col_polmatform((PolMatForm) k, a, s); } } });
    c.out((long) b1); c.out((long) b2); c.out((long) b3); c.out((long) b4); c.out((long) f);
    if (c.oracle) { int e = ref_form(tr ? ref_transpose(a) : a, s); bool ok = b1 == (e >= 1) && b2 == (e >= 2) && b3 == (e >= 3) && b4 == (e >= 4) && (int) f == e; for (int k = 0; k < 5; k++) ok = ok && q[k] == (e >= k); c.check(ok, "form predicate: wrong answer"); }
}

// ---------------------------------------------------------------- products
struct Sh { long m, n, k, dA, dB; };
static Sh mul_shape(Ctx & c, long dmaxs = -1)
{
    Sh s; s.m = c.dim(3, 6, 12, 26); s.n = c.dim(3, 6, 12, 26); s.k = c.dim(3, 6, 12, 26);
    long d = c.len(4, 20, 60, 110); if (s.m * s.n * s.k > 1500) d = std::min<long>(d, 40); s.dA = c.range(0, d); s.dB = c.coin(0.6) ? c.edge(s.dA + 1) : c.range(0, d);
    if (c.in.size >= 2 && c.coin(0.15)) { s.m = s.n = s.k = c.range(1, 3); s.dA = c.range(50, 300); s.dB = c.range(1, 300); }
    if (c.in.size == 3 && c.coin(0.15)) { s.m = c.range(24, 45); s.n = c.range(24, 45); s.k = c.range(24, 40); s.dA = c.range(1, 8); s.dB = c.range(1, 8); }
    if (c.in.size >= 1 && !(c.in.flags & FL_ALIAS) && c.coin(0.11)) {      // long inner dimension: accumulations are reduced in slices, thresholds depend on the volume
        s.m = c.range(1, 2); s.k = c.range(1, 2); static const long ns[] = { 254, 255, 256, 257, 509, 510, 511, 512, 766 }; s.n = c.coin() ? ns[c.below(9)] : c.range(200, c.in.size >= 2 ? 4500 : 700); s.dA = c.range(0, 4); s.dB = c.range(0, 4);
        if (c.in.size >= 2 && s.n < 800 && c.coin(0.3)) { s.dA = c.range(20, 60); s.dB = c.range(20, 60); } }
    if (dmaxs >= 0) { s.dA = c.range(0, dmaxs); s.dB = c.range(0, dmaxs); }
    return s;
}
static PM nzmat(Ctx & c, long m, long n, long len) { PM a = c.pmat(m, n, len); if (c.coin(0.1)) { PM b; b.SetDims(m, n); long i = c.below(m), j = c.below(n); b[i][j] = a[i][j]; a = b; } if (ref_deg(a) < 0) a[c.below(m)][c.below(n)] = c.poly_exact(c.below(len)); return a; }
typedef void (*mulfn)(PM &, const PM &, const PM &);
static void mul_op(Ctx & c, mulfn f, const char * what, long dmaxs = -1, bool zero_ok = false, bool odd_char = false)
{
    Sh s = mul_shape(c, dmaxs);
    int al = c.alias(2); if (al == 1) s.k = s.n; else if (al == 2) s.n = s.m;
    PM a = nzmat(c, s.m, s.n, s.dA + 1), b = nzmat(c, s.n, s.k, s.dB + 1), r; c.soil(r);
    bool za = c.coin(0.04), zb = c.coin(0.04); if (za) { PM z; z.SetDims(s.m, s.n); a = z; } if (zb) { PM z; z.SetDims(s.n, s.k); b = z; }
    PM a0 = a, b0 = b;
    if (al == 1) { c.pin(b); c.call([&] { f(a, a, b); }); r = a; }
    else if (al == 2) { c.pin(a); c.call([&] { f(b, a, b); }); r = b; }
    else { c.pin(a); c.pin(b); c.call([&] { f(r, a, b); }); }
    c.out(r);
    if (c.oracle) { PM t; ref_mul(t, a0, b0); c.check(r == t && canon(r), what); }
}
#define MULOP(NAME, MASK, EXTRA, ...) OP(NAME, MASK, TG_ALIAS | TG_VARIANT | EXTRA) { mul_op(c, __VA_ARGS__); }
static void f_mul(PM & x, const PM & a, const PM & b) { multiply(x, a, b); }
static void f_mul0(PM & x, const PM & a, const PM & b) { multiply(x, a, b, 0); }
static void f_star(PM & x, const PM & a, const PM & b) { x = a * b; }
MULOP(multiply, PM_ANY, TG_KNOB | TG_SWITCH, f_mul, "multiply: wrong product", -1, true)
MULOP(multiply_notprime, PM_ANY | PM_COMP, TG_KNOB | TG_SWITCH, f_mul0, "multiply (not known prime): wrong product", -1, true)
MULOP(multiply_operator, PM_ALL, TG_KNOB, f_star, "operator*: wrong product", -1, true)
MULOP(multiply_naive, PM_ANY | PM_COMP, 0, multiply_naive, "multiply_naive: wrong product")
MULOP(multiply_waksman, PM_ALL | PM_COMP, 0, multiply_waksman, "multiply_waksman: wrong product")
MULOP(multiply_transform_naive, PM_ANY | PM_COMP, 0, multiply_transform_naive, "multiply_transform_naive: wrong product", 7)
MULOP(multiply_transform_karatsuba, PM_ANY | PM_COMP, 0, multiply_transform_karatsuba, "multiply_transform_karatsuba: wrong product", 1)
MULOP(multiply_transform_montgomery3, PM_ANY | PM_COMP, 0, multiply_transform_montgomery3, "multiply_transform_montgomery3: wrong product", 2)
MULOP(multiply_transform_karatsuba4, PM_ANY | PM_COMP, 0, multiply_transform_karatsuba4, "multiply_transform_karatsuba4: wrong product", 3)
static void f_trs(PM & x, const PM & a, const PM & b) { multiply_transform(x, a, b); }
MULOP(multiply_transform, PM_ANY | PM_COMP, 0, f_trs, "multiply_transform: wrong product", 6)
MULOP(multiply_evaluate_dense, PM_ALL, 0, multiply_evaluate_dense, "multiply_evaluate_dense: wrong product")
MULOP(multiply_evaluate_dense2, PM_ALL, 0, multiply_evaluate_dense2, "multiply_evaluate_dense2: wrong product")
MULOP(multiply_evaluate_FFT, PM_FFT, TG_KNOB, multiply_evaluate_FFT, "multiply_evaluate_FFT: wrong product")
MULOP(multiply_evaluate_FFT_matmul1, PM_FFT, 0, multiply_evaluate_FFT_matmul1, "multiply_evaluate_FFT_matmul1: wrong product")
MULOP(multiply_evaluate_FFT_matmul2, PM_FFT, 0, multiply_evaluate_FFT_matmul2, "multiply_evaluate_FFT_matmul2: wrong product")
MULOP(multiply_evaluate_FFT_matmul3, PM_FFT, 0, multiply_evaluate_FFT_matmul3, "multiply_evaluate_FFT_matmul3: wrong product")
MULOP(multiply_evaluate_FFT_direct_ll, PM_FFT, 0, multiply_evaluate_FFT_direct_ll_type, "multiply_evaluate_FFT_direct_ll_type: wrong product")
MULOP(multiply_evaluate_FFT_direct, PM_FFT, 0, multiply_evaluate_FFT_direct, "multiply_evaluate_FFT_direct: wrong product")
MULOP(multiply_3_primes, PM_ANY | PM_COMP, TG_SWITCH, multiply_3_primes, "multiply_3_primes: wrong product")
MULOP(multiply_evaluate_geometric, PM_ALL, TG_RANDOM | TG_KNOB, multiply_evaluate_geometric, "multiply_evaluate_geometric: wrong product")
static void f_parlin(PM & x, const PM & a, const PM & b) { right_parlin_multiply(x, a, b); }
OP(vec_multiply, PM_ANY | PM_COMP, TG_ALIAS | TG_VARIANT | TG_KNOB)
{
    Sh s = mul_shape(c); PM a = c.pmat(s.m, s.n, s.dA + 1); bool left = c.coin(); long ip = c.coin(); if (PM_COMP >> c.in.pk & 1) ip = 0; Vec<zz_pX> b = c.pvec(left ? s.m : s.n, s.dB + 1), b0 = b, r; c.soil(r); c.pin(a);
    if (c.alias(1)) { c.call([&] { if (left) multiply(b, b, a, ip); else multiply(b, a, b, ip); }); r = b; } else { c.pin(b); c.call([&] { if (left) multiply(r, b, a, ip); else multiply(r, a, b, ip); }); }
    c.out(r);
    if (c.oracle) { PM B; if (left) { B.SetDims(1, s.m); B[0] = b0; B = ref_mulm(B, a); } else { B.SetDims(s.n, 1); for (long i = 0; i < s.n; i++) B[i][0] = b0[i]; B = ref_mulm(a, B); B = ref_transpose(B); } c.check(r == B[0] && canon(r), "matrix-vector product: wrong result"); }
}
OP(mul_trunc, PM_ALL | PM_COMP, TG_ALIAS | TG_VARIANT | TG_KNOB)
{
    Sh s = mul_shape(c); int al = c.alias(2); if (al == 1) s.k = s.n; else if (al == 2) s.n = s.m; long d = c.range(0, s.dA + s.dB + 2), ip = PM_COMP >> c.in.pk & 1 ? 0 : c.coin(0.7); PM a = c.pmat(s.m, s.n, s.dA + 1), b = c.pmat(s.n, s.k, s.dB + 1), a0 = a, b0 = b, r; c.soil(r);
    if (al == 1) { c.call([&] { mul_trunc(a, a, b, d, ip); }); r = a; } else if (al == 2) { c.call([&] { mul_trunc(b, a, b, d, ip); }); r = b; } else { c.pin(a); c.pin(b); c.call([&] { mul_trunc(r, a, b, d, ip); }); }
    c.out(r);
    if (c.oracle) c.check(r == ref_trunc(ref_mulm(a0, b0), d) && canon(r), "mul_trunc: wrong truncated product");
}

// ---------------------------------------------------------------- middle products
static PM ref_mid(const PM & a, const PM & x, long dA, long dB) { PM t = ref_mulm(a, x); for (long i = 0; i < t.NumRows(); i++) for (long j = 0; j < t.NumCols(); j++) { NTL::RightShift(t[i][j], t[i][j], dA); NTL::trunc(t[i][j], t[i][j], dB + 1); } return t; }
typedef void (*midfn)(PM &, const PM &, const PM &, long, long);
static void mid_op(Ctx & c, midfn f, const char * what, bool rev, bool zero_ok = true)
{
    Sh s = mul_shape(c); int al = c.alias(2); if (al == 1) s.k = s.n; else if (al == 2) s.n = s.m;
    long la = c.coin(0.6) ? s.dA + 1 : c.range(1, s.dA + 1), lc = c.coin(0.6) ? s.dA + s.dB + 1 : c.range(1, s.dA + s.dB + 1);
    PM a = nzmat(c, s.m, s.n, la), x = nzmat(c, s.n, s.k, lc), r; c.soil(r);
    if (zero_ok && c.coin(0.05)) { PM z; z.SetDims(s.m, s.n); a = z; } if (zero_ok && c.coin(0.05)) { PM z; z.SetDims(s.n, s.k); x = z; }
    PM a0 = a, x0 = x;
    if (al == 1) { c.pin(x); c.call([&] { f(a, a, x, s.dA, s.dB); }); r = a; }
    else if (al == 2) { c.pin(a); c.call([&] { f(x, a, x, s.dA, s.dB); }); r = x; }
    else { c.pin(a); c.pin(x); c.call([&] { f(r, a, x, s.dA, s.dB); }); }
    c.out(r);
    if (c.oracle) { if (rev) for (long i = 0; i < s.m; i++) for (long j = 0; j < s.n; j++) { zz_pX t; NTL::reverse(t, a0[i][j], s.dA); a0[i][j] = t; } PM t = ref_mid(a0, x0, s.dA, s.dB); c.check(r == t && canon(r), what); }
}
#define MIDOP(NAME, MASK, EXTRA, ...) OP(NAME, MASK, TG_ALIAS | TG_VARIANT | EXTRA) { mid_op(c, __VA_ARGS__); }
static void f_mid(PM & b, const PM & a, const PM & x, long dA, long dB) { middle_product(b, a, x, dA, dB); }
static void f_mid0(PM & b, const PM & a, const PM & x, long dA, long dB) { middle_product(b, a, x, dA, dB, 0); }
MIDOP(mat_middle_product, PM_ALL, TG_KNOB | TG_SWITCH, f_mid, "matrix middle product: wrong coefficients", false)
MIDOP(mat_middle_product_notprime, PM_ALL | PM_COMP, TG_KNOB | TG_SWITCH, f_mid0, "matrix middle product (not known prime): wrong coefficients", false)
MIDOP(middle_product_naive, PM_ALL | PM_COMP, 0, middle_product_naive, "middle_product_naive: wrong coefficients", false)
MIDOP(middle_product_3_primes, PM_ALL | PM_COMP, TG_SWITCH, middle_product_3_primes, "middle_product_3_primes: wrong coefficients", false)
MIDOP(middle_product_FFT_direct_ll, PM_FFT, 0, middle_product_evaluate_FFT_direct_ll_type, "middle_product_evaluate_FFT_direct_ll_type: wrong coefficients", false)
MIDOP(middle_product_FFT_direct, PM_FFT, 0, middle_product_evaluate_FFT_direct, "middle_product_evaluate_FFT_direct: wrong coefficients", false)
MIDOP(middle_product_FFT_matmul, PM_FFT, 0, middle_product_evaluate_FFT_matmul, "middle_product_evaluate_FFT_matmul: wrong coefficients", false)
MIDOP(middle_product_FFT_matmul1, PM_FFT, 0, middle_product_evaluate_FFT_matmul1, "middle_product_evaluate_FFT_matmul1: wrong coefficients", false)
MIDOP(middle_product_FFT_matmul2, PM_FFT, 0, middle_product_evaluate_FFT_matmul2, "middle_product_evaluate_FFT_matmul2: wrong coefficients", false)
MIDOP(middle_product_FFT_matmul3, PM_FFT, 0, middle_product_evaluate_FFT_matmul3, "middle_product_evaluate_FFT_matmul3: wrong coefficients", false)
MIDOP(middle_product_FFT, PM_FFT, TG_KNOB, middle_product_evaluate_FFT, "middle_product_evaluate_FFT: wrong coefficients", false)
MIDOP(middle_product_FFT_new, PM_FFT, TG_KNOB, middle_product_evaluate_FFT_new, "middle_product_evaluate_FFT_new: wrong coefficients", false)
MIDOP(middle_product_dense, PM_ALL, 0, middle_product_evaluate_dense, "middle_product_evaluate_dense: wrong coefficients", false)
MIDOP(t_multiply_geometric, PM_ALL, TG_RANDOM, t_multiply_evaluate_geometric, "t_multiply_evaluate_geometric: wrong coefficients", true)

// ---------------------------------------------------------------- left multipliers
static std::unique_ptr<mat_lzz_pX_lmultiplier> mk_lm(int k, const PM & a, long dB)
{
    typedef std::unique_ptr<mat_lzz_pX_lmultiplier> P;
    switch (k) { case 0: return P(new mat_lzz_pX_lmultiplier_FFT_direct(a, dB)); case 1: return P(new mat_lzz_pX_lmultiplier_FFT_matmul(a, dB)); case 2: return P(new mat_lzz_pX_lmultiplier_geometric(a, dB)); case 3: return P(new mat_lzz_pX_lmultiplier_dense(a, dB)); case 4: return P(new mat_lzz_pX_lmultiplier_3_primes(a, dB)); default: return get_lmultiplier(a, dB); }
}
static void lm_op(Ctx & c, int k, const char * what)
{
    Sh s = mul_shape(c);
    if (k == 5 && c.in.size >= 1 && c.coin(0.25)) {        // the sizes at which another multiplier is chosen
        s.n = c.range(1, 3); s.k = c.range(1, 2); s.dB = c.range(0, 8);
        if (c.coin()) { s.m = c.range(1, 3); s.dA = c.range(140, 165); } else { static const long ms[] = { 20, 21, 40, 41, 100, 101, 200, 201, 230 }; s.m = ms[c.below(9)]; s.dA = s.m > 90 && c.coin() ? c.range(148, 154) : c.range(0, 8); if (s.m < 50 && c.coin()) s.dA = c.range(28, 33) + (c.coin() ? 60 : 0); if (s.dA > 100) { s.n = 1; s.k = 1; } } }
    PM a = nzmat(c, s.m, s.n, s.dA + 1), b = nzmat(c, s.n, s.k, s.dB + 1), b2 = nzmat(c, s.n, c.range(1, 5), c.range(1, s.dB + 1)), r, r2; if (c.coin(0.04)) { PM z; z.SetDims(s.m, s.n); a = z; } if (c.coin(0.04)) { PM z; z.SetDims(s.n, s.k); b = z; } c.soil(r); c.soil(r2); c.pin(a); c.pin(b); c.pin(b2); std::unique_ptr<mat_lzz_pX_lmultiplier> M;
    c.call([&] { M = mk_lm(k, a, s.dB); M->multiply(r, b); M->multiply(r2, b2); });
    c.out(r); c.out(r2);
    if (c.oracle) { PM t = ref_mulm(a, b), u = ref_mulm(a, b2); c.check(r == t && r2 == u && canon(r) && canon(r2) && M->NumRows() == s.m && M->NumCols() == s.n && M->degB() == s.dB && M->degA() == ref_deg(a), what); }
}
OP(lmul_FFT_direct, PM_FFT, TG_VARIANT) { lm_op(c, 0, "left multiplier (FFT direct): wrong product"); }
OP(lmul_FFT_matmul, PM_FFT, TG_VARIANT) { lm_op(c, 1, "left multiplier (FFT matmul): wrong product"); }
OP(lmul_geometric, PM_ALL, TG_VARIANT | TG_RANDOM) { lm_op(c, 2, "left multiplier (geometric): wrong product"); }
OP(lmul_dense, PM_ALL, TG_VARIANT) { lm_op(c, 3, "left multiplier (dense): wrong product"); }
OP(lmul_3_primes, PM_ALL, TG_VARIANT | TG_SWITCH) { lm_op(c, 4, "left multiplier (3 primes): wrong product"); }
OP(lmul_get, PM_ALL, TG_VARIANT | TG_SWITCH) { lm_op(c, 5, "get_lmultiplier: wrong product"); }
// history of one or two multipliers, interleaved with other calls and other moduli
OP(obj_lmultiplier, PM_ALL, TG_OBJ | TG_SWITCH)
{
    long ns = c.in.nsteps; std::vector<std::unique_ptr<mat_lzz_pX_lmultiplier>> M; std::vector<PM> A; std::vector<long> D; std::vector<int> P, K;
    for (long k = 0; k < ns; k++) {
        int act = (int) c.below(6); long m = c.range(1, 5), n = c.range(1, 5), dA = c.range(0, 12), dB = c.range(0, 12); int kind = (int) c.below(6); int pk = c.coin(0.7) ? c.in.pk : (int) c.below(8); if (kind < 2) { pk = (int) c.below(4); }
        PM a; size_t q = M.empty() ? 0 : (size_t) c.below((long) M.size()); u64 bs = c.g.next();
        if (c.in.skip >> k & 1) continue;
        Rng keep = c.g; c.g = Rng(bs);
        if (act < 2 || M.empty()) { install_prime(pk); c.sig0 = mod_sig(); a = nzmat(c, m, n, dA + 1); M.emplace_back(); c.call([&] { M.back() = mk_lm(kind, a, dB); }); A.push_back(a); D.push_back(dB); P.push_back(pk); K.push_back(kind); }
        else {
            install_prime(P[q]); c.sig0 = mod_sig(); PM b = act == 5 ? nzmat(c, A[q].NumCols(), c.range(1, 4), D[q] + 1) : c.pmat(A[q].NumCols(), c.range(1, 4), c.range(1, D[q] + 1)), r; if (ref_deg(b) < 0) b[0][0] = c.nz(); if (c.coin()) { r = c.pmat(c.range(1, 5), c.range(1, 5), 5); }
            c.call([&] { M[q]->multiply(r, b); }); c.out(r); if (c.oracle) c.check(r == ref_mulm(A[q], b) && canon(r), "left multiplier: wrong product after a history of uses");
        }
        c.g = keep;
    }
    install_prime(c.in.pk);
}
// one multiplier shared by several threads: multiply does not modify the object
struct ShLM { std::unique_ptr<mat_lzz_pX_lmultiplier> M; PM a; long dB; };
static std::shared_ptr<void> mk_shlm(Ctx & c, int k)
{ auto s = std::make_shared<ShLM>(); s->dB = c.range(0, c.len(4, 10, 30, 60)); long n = c.coin(0.3) ? c.range(1, 20) : c.range(1, 6); s->a = nzmat(c, n, c.range(1, 6), c.range(1, c.len(4, 10, 30, 60))); s->M = mk_lm(k, s->a, s->dB); return s; }
static void use_shlm(Ctx & c, void * o)
{ ShLM & s = *(ShLM *) o; PM b = nzmat(c, s.a.NumCols(), c.range(1, 6), c.coin() ? s.dB + 1 : c.range(1, s.dB + 1)), r; if (c.coin()) c.call([&] { s.M->multiply(r, b); }); else c.call([&] { r = s.M->multiply(b); }); c.out(r); c.out(s.M->NumRows()); c.out(s.M->degA()); }
#define SHLM(nm, k, mask) static sim::RegS rsl_##nm("lmul_" #nm, mask, [](Ctx & c) { return mk_shlm(c, k); }, use_shlm);
SHLM(FFT_direct, 0, PM_FFT) SHLM(FFT_matmul, 1, PM_FFT) SHLM(geometric, 2, PM_ALL) SHLM(dense, 3, PM_ALL) SHLM(3_primes, 4, PM_ALL) SHLM(get, 5, PM_ALL)
// ---------------------------------------------------------------- joining / collapsing / linearization
OP(mat_join_collapse, PM_ANY, TG_ALIAS)
{
    long m = c.dim(2, 4, 6, 8), s = c.range(1, 4), t = c.range(1, 3), d = c.range(1, 6), n2 = c.range(1, 4); PM a = c.pmat(m, s * t, d), b = c.pmat(m, n2, d), a0 = a, j, u, v; c.soil(j); c.soil(u); c.soil(v); c.pin(b);
    if (c.alias(1)) { PM a1 = a, a2 = a, a3 = a; c.call([&] { horizontal_join(a1, a1, b); collapse_consecutive_columns(a2, a2, d, s); collapse_nonconsecutive_columns(a3, a3, d, s); }); j = a1; u = a2; v = a3; }
    else { c.pin(a); c.call([&] { horizontal_join(j, a, b); collapse_consecutive_columns(u, a, d, s); collapse_nonconsecutive_columns(v, a, d, s); }); }
    c.out(j); c.out(u); c.out(v);
    if (c.oracle) {
        PM J, U, V; EACH(J, m, s * t + n2, j < s * t ? a0[i][j] : b[i][j - s * t]); U.SetDims(m, t); V.SetDims(m, s);
        for (long i = 0; i < m; i++) { for (long x = 0; x < t; x++) for (long k = 0; k < s; k++) U[i][x] += LeftShift(a0[i][x * s + k], k * d); for (long x = 0; x < s; x++) for (long k = 0; k < t; k++) V[i][x] += LeftShift(a0[i][x + k * s], k * d); }
        c.check(j == J && u == U && v == V && canon(u) && canon(v), "joining or collapsing columns: wrong result");
    }
}
static PM uneven(Ctx & c, long n, long k, long dB, VecLong & cd)      // columns of various degrees, with entries of lower degree or zero
{
    PM b; b.SetDims(n, k); int style = (int) c.below(3); cd.assign(k, 0);
    for (long j = 0; j < k; j++) { long dj = c.range(0, dB); for (long i = 0; i < n; i++) b[i][j] = style == 0 ? c.poly_exact(dj) : c.coin(0.2) ? zz_pX() : c.poly(dj + 1); }
    if (c.coin(0.05)) { PM z; z.SetDims(n, k); b = z; }
    for (long j = 0; j < k; j++) { cd[j] = -1; for (long i = 0; i < n; i++) cd[j] = std::max(cd[j], (long) deg(b[i][j])); }
    return b;
}
OP(right_parlin_multiply, PM_ALL, TG_VARIANT)
{
    long m = c.dim(2, 4, 6, 8), n = c.dim(2, 4, 6, 8), k = c.dim(2, 4, 6, 8), dA = c.len(3, 8, 20, 30), dB = c.len(4, 12, 40, 60); VecLong cd; PM a = c.pmat(m, n, c.coin(0.05) ? 0 : dA), b = uneven(c, n, k, dB, cd);
    long pd = c.range(0, dB + 1); int w = (int) c.below(4); PM r; c.soil(r); c.pin(a); c.pin(b); long top = *std::max_element(cd.begin(), cd.end()) + c.below(4); for (auto & x : cd) x += c.coin(0.3) ? c.below(5) : 0;
    c.call([&] { if (w == 0) right_parlin_multiply(r, a, b, pd); else if (w == 1) right_parlin_multiply(r, a, b, pd, cd); else if (w == 2) right_parlin_multiply(r, a, b, pd, top); else right_parlin_multiply(r, a, b); });
    c.out(r);
    if (c.oracle) c.check(r == ref_mulm(a, b) && canon(r), "right_parlin_multiply: wrong product");
}
OP(right_parlin_middle_product, PM_ALL, TG_VARIANT)
{
    long m = c.dim(2, 4, 6, 8), n = c.dim(2, 4, 6, 8), k = c.dim(2, 4, 6, 8), dA = c.len(3, 8, 20, 30), dB = c.len(4, 12, 40, 60); VecLong cd; PM a = c.pmat(m, n, c.coin(0.05) ? 0 : c.coin() ? dA + 1 : c.range(1, dA + 1)), b = uneven(c, n, k, dA + dB, cd);
    long pd = c.range(0, dB + 1); bool u = c.coin(); PM r; c.soil(r); c.pin(a); c.pin(b); long top = *std::max_element(cd.begin(), cd.end()) + c.below(4); for (auto & x : cd) x += c.coin(0.3) ? c.below(5) : 0;
    c.call([&] { if (u) right_parlin_middle_product(r, a, b, pd, top, dA, dB); else right_parlin_middle_product(r, a, b, pd, cd, dA, dB); });
    c.out(r);
    if (c.oracle) c.check(r == ref_mid(a, b, dA, dB) && canon(r), "right_parlin_middle_product: wrong coefficients");
}
OP(column_parlin, PM_ANY, 0)
{
    long n = c.dim(2, 4, 6, 8), k = c.dim(2, 4, 6, 8), dB = c.len(4, 12, 40, 60), dinf = c.coin() ? 0 : c.below(6); VecLong cd; PM b = uneven(c, n, k, dB, cd), P; c.soil(P); c.pin(b); VecLong tg = cd, pd, cols; bool ex = c.coin(); for (auto & x : tg) x += c.coin(0.3) ? c.below(5) : 0; long u = c.range(0, dB + 1); int w = (int) c.below(6);
    for (long j = 0; j < k; j++) pd.push_back(w >= 2 ? u : c.range(0, dB + 1));
    if (w >= 4) { const VecLong & q = w == 4 ? tg : cd; long sum = 0; for (long x : q) sum += x; pd.assign(k, 1 + sum / k); }      // the documented default: about the average degree
    c.call([&] { if (w == 4) cols = column_partial_linearization(P, b, tg); else if (w == 5) cols = column_partial_linearization_cdeg(P, b); else if (w == 0) cols = column_partial_linearization(P, b, pd, tg); else if (w == 1) cols = column_partial_linearization(P, b, pd, tg, dinf); else if (w == 2) cols = column_partial_linearization(P, b, u, tg); else cols = column_partial_linearization_cdeg(P, b, u); });
    if (w != 1) dinf = 0; c.out(P); c.out(cols);
    if (c.oracle) {
        bool ok = (long) cols.size() == k + 1 && cols[0] == 0 && cols[k] == P.NumCols() && P.NumRows() == n && canon(P);
        for (long j = 0; j < k && ok; j++) for (long i = 0; i < n && ok; i++) { zz_pX t; for (long q = cols[j]; q < cols[j + 1]; q++) { t += LeftShift(P[i][q], (q - cols[j]) * (pd[j] + 1)); if (q + 1 < cols[j + 1]) ok = ok && deg(P[i][q]) <= pd[j]; } ok = ok && t == RightShift(b[i][j], dinf); }
        c.check(ok, "column partial linearization: columns do not recombine to the matrix");
    }
}
