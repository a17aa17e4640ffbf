// scalars, vectors, univariate polynomials, middle products, evaluation/interpolation, CRT
#include "ops.h"
using namespace sim;

// ---------------------------------------------------------------- scalars
OP(order, (1u << PK_TINY) | (1u << PK_COMP20), TG_NOSOIL)
{
    zz_p a = c.el(0); long o = 0;
    c.call([&] { o = order(a); });
    c.out(o);
    if (c.oracle) {
        zz_p t; t = 1; long k = 0; bool found = false;
        if (a != 0) for (k = 1; k < zz_p::modulus(); k++) { t *= a; if (t == 1) { found = true; break; } }
        c.check(o == (found ? k : -1), "order: wrong multiplicative order");
    }
}
static void chk_order(Ctx & c, const zz_p & a, long ord, bool strong = false)
{
    // a has order at least ord: a^i != 1 for 0 < i < ord
    zz_p t; t = 1; bool ok = a != 0;
    for (long i = 1; i < ord && ok; i++) { t *= a; if (t == 1 || (strong && GCD(rep(t - 1), zz_p::modulus()) != 1)) ok = false; }
    c.check(ok, "element_of_order: order of the returned element is too small");
}
OP(element_of_order, PM_ANY | PM_COMP, TG_RANDOM | TG_LV | TG_POINTS)
{
    long p = zz_p::modulus();
    long ord = c.range(1, std::min<long>(p - 1, c.in.size == 0 ? 6 : c.in.size == 1 ? 40 : 400));
    if (p < 200 && c.coin(0.3)) ord = p - 1 - c.below(3);
    zz_p a; c.soil(a);
    long trials = c.coin(0.5) ? 100 : c.range(1, 30);
    c.call([&] { element_of_order(a, ord, trials); });
    c.out(a);
    c.out((long) (a == 0));
    if (c.oracle) { if (a != 0) chk_order(c, a, ord, true); else if (!(c.in.flags & FL_TAMPERED) && trials == 100 && p > 100000 && !(PM_COMP >> c.in.pk & 1)) c.check(false, "element_of_order: no element found with fair draws in 100 trials"); else c.check(true, ""); }
}
OP(element_of_order_weak, PM_ANY | PM_COMP, TG_RANDOM | TG_LV | TG_POINTS)
{
    long p = zz_p::modulus();
    long ord = c.range(2, std::min<long>(p - 1, c.in.size == 0 ? 6 : 60));
    zz_p a; c.soil(a);
    c.call([&] { element_of_order(a, ord, 50, false); });
    c.out(a);
    if (c.oracle) { if (a != 0) chk_order(c, a, ord); else c.check(true, ""); }
}
OP(vec_inv, PM_ANY, TG_ALIAS)
{
    long n = c.len(3, 10, 40, 200); Vec<zz_p> A; A.SetLength(n); for (long i = 0; i < n; i++) A[i] = c.nz();
    if (c.coin(0.05)) A.SetLength(0);
    Vec<zz_p> A0 = A, R; c.soil(R);
    if (c.alias(1)) { c.call([&] { inv(A, A); }); R = A; }
    else { c.pin(A); c.call([&] { inv(R, A); }); }
    c.out(R);
    if (c.oracle) { bool ok = R.length() == A0.length(); for (long i = 0; ok && i < A0.length(); i++) ok = R[i] * A0[i] == 1; c.check(ok, "inv: entry is not the inverse"); }
}
OP(vec_inv_naive, PM_ANY, TG_ALIAS)
{
    long n = c.len(3, 10, 40, 100); Vec<zz_p> A; A.SetLength(n); for (long i = 0; i < n; i++) A[i] = c.nz();
    Vec<zz_p> A0 = A, R; c.soil(R);
    if (c.alias(1)) { c.call([&] { inv_naive(A, A); }); R = A; }
    else { c.pin(A); c.call([&] { inv_naive(R, A); }); }
    c.out(R);
    if (c.oracle) { bool ok = true; for (long i = 0; ok && i < n; i++) ok = R[i] * A0[i] == 1; c.check(ok, "inv_naive: entry is not the inverse"); }
}
OP(vec_precomp, PM_ANY, 0)
{
    Vec<zz_p> A = c.vec(c.len(3, 10, 40, 100)); c.pin(A);
    Vec<mulmod_precon_t> P;
    if (c.soiled()) { P.SetLength(3); for (long i = 0; i < 3; i++) P[i] = i; }
    c.call([&] { precomp(P, A); });
    zz_p b = c.el(0); long p = zz_p::modulus();
    bool ok = P.length() == A.length();
    for (long i = 0; i < P.length() && ok; i++) { long v = MulModPrecon(rep(b), rep(A[i]), p, P[i]); c.out(v); ok = v == rep(b * A[i]); }
    if (c.oracle) c.check(ok, "precomp: wrong preconditioned product");
}
OP(mat_helpers, PM_ANY, TG_NOSOIL)
{
    long n = c.dim(2, 4, 8, 12); zz_p x = c.el(0); Vec<zz_p> d = c.vec(n); c.pin(d);
    Mat<zz_p> Z, J, D, M = c.cmat(n, n + 2, 0);
    long r0 = c.below(n), c0 = c.below(n + 2), nr = c.range(0, n - r0), nc = c.range(0, n + 2 - c0); Mat<zz_p> M0 = M;
    c.call([&] { Z = Z_lzz_p(n, x); J = J_lzz_p(n); D = diagonal_matrix(d); PML::clear(M, r0, c0, nr, nc); });
    c.out(Z); c.out(J); c.out(D); c.out(M);
    if (c.oracle) {
        bool ok = true;
        for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) {
            zz_p z; z = 0; if (i == j + 1) z = 1; if (i == 0 && j == n - 1) z = (n == 1) ? x : x;
            ok = ok && Z[i][j] == z && (J[i][j] == (i + j == n - 1 ? 1 : 0)) && D[i][j] == (i == j ? d[i] : to_zz_p(0));
        }
        for (long i = 0; i < n; i++) for (long j = 0; j < n + 2; j++) { bool in = i >= r0 && i < r0 + nr && j >= c0 && j < c0 + nc; ok = ok && M[i][j] == (in ? to_zz_p(0) : M0[i][j]); }
        c.check(ok, "matrix helper: wrong entry");
    }
}

// ---------------------------------------------------------------- univariate polynomials
OP(InvTruncMul, PM_ALL, TG_ALIAS | TG_VARIANT)
{
    long d = c.coin(0.3) ? c.len(4, 120, 300, 700) : c.len(4, 20, 80, 400);      // below and above NTL's Newton crossover
    bool low = c.coin(0.25);      // operands shorter than half the precision: a separate last Newton step
    zz_pX a = c.poly(low ? c.range(1, d / 2 + 1) : c.edge(d)), b = c.poly(low ? c.range(1, d / 2 + 1) : c.edge(d)); NTL::SetCoeff(a, 0, c.nz()); zz_pX a0 = a, b0 = b, f; c.soil(f);
    int al = c.alias(2);
    if (al == 1) { c.pin(a); c.call([&] { InvTruncMul(b, b, a, d); }); f = b; }
    else if (al == 2) { c.pin(b); c.call([&] { InvTruncMul(a, b, a, d); }); f = a; }
    else { c.pin(a); c.pin(b); c.call([&] { InvTruncMul(f, b, a, d); }); }
    c.out(f);
    if (c.oracle) { zz_pX t; MulTrunc(t, f, a0, d); c.check(t == trunc(b0, d) && deg(f) < d && canon(f), "InvTruncMul: f*a != b mod x^d"); }
}
static zz_pX ref_shift(const zz_pX & f, const zz_p & x)
{ zz_pX g, l; NTL::SetCoeff(l, 1, 1); NTL::SetCoeff(l, 0, x); for (long i = deg(f); i >= 0; i--) { g = g * l; g = g + coeff(f, i); } return g; }
OP(poly_shift, PM_BIG, TG_ALIAS | TG_VARIANT)
{
    long n = c.len(4, 20, 60, 150); zz_pX f = c.poly(n), f0 = f, g; zz_p x = c.coin(0.1) ? to_zz_p(0) : c.el(0); c.soil(g);
    if (c.alias(1)) { c.call([&] { shift(f, f, x); }); g = f; } else { c.pin(f); c.call([&] { shift(g, f, x); }); }
    c.out(g);
    if (c.oracle) c.check(g == ref_shift(f0, x), "shift: g(x) != f(x+c)");
}
OP(poly_shift_small_p, (1u << PK_TINY) | (1u << PK_SMALL20), TG_VARIANT)
{
    long n = c.len(4, 20, 120, 200); zz_pX f = c.poly(n), g; zz_p x = c.el(0); c.soil(g); c.pin(f);
    c.call([&] { shift(g, f, x); });
    c.out(g);
    if (c.oracle) c.check(g == ref_shift(f, x), "shift: g(x) != f(x+c)");
}
OP(shift_DAC, PM_ALL, TG_VARIANT)
{
    long d = c.len(4, 20, 60, 150); zz_p x = c.el(0); zz_pX f = c.poly(c.coin() ? d + 1 : c.range(1, d + 1)), g; c.soil(g); c.pin(f);
    c.call([&] { zz_pX_shift_DAC s(d, x); s.shift(g, f); });
    c.out(g);
    if (c.oracle) c.check(g == ref_shift(f, x), "shift (divide and conquer): g(x) != f(x+c)");
}
OP(shift_large_char, PM_BIG | (1u << PK_COMP60), TG_VARIANT)
{
    long d = c.len(4, 20, 60, 150); zz_p x = c.el(0); zz_pX f = c.poly(c.coin() ? d + 1 : c.range(1, d + 1)), g; c.soil(g); c.pin(f);
    c.call([&] { zz_pX_shift_large_characteristic s(d, x); s.shift(g, f); });
    c.out(g);
    if (c.oracle) c.check(g == ref_shift(f, x), "shift (large characteristic): g(x) != f(x+c)");
}
OP(add_LeftShift, PM_ALL, TG_ALIAS)
{
    long n = c.len(3, 10, 40, 100), k = c.range(0, n + 3);
    zz_pX a = c.poly(c.edge(n)), b = c.poly(c.edge(n)), a0 = a, b0 = b, r; c.soil(r);
    int al = c.alias(1);
    if (al == 1) { c.pin(b); c.call([&] { add_LeftShift(a, a, b, k); }); r = a; }
    else { c.pin(a); c.pin(b); c.call([&] { add_LeftShift(r, a, b, k); }); }
    c.out(r);
    if (c.oracle) c.check(r == a0 + LeftShift(b0, k), "add_LeftShift: c != a + x^k b");
}
static zz_pX ref_middle(const zz_pX & a, const zz_pX & cc, long dA, long dB) { zz_pX t = trunc(a, dA + 1) * cc; t = RightShift(t, dA); return trunc(t, dB + 1); }
OP(middle_product, PM_ALL | PM_COMP, TG_ALIAS | TG_VARIANT)
{
    long dA = c.len(4, 30, 120, 400), dB = c.len(4, 30, 120, 400);
    if (c.in.size >= 1 && c.coin(0.25)) { dA = c.range(200, 900); dB = c.range(0, 40); }
    else if (c.in.size >= 1 && c.coin(0.25)) { dB = c.range(200, 600); dA = c.range(0, 40); }
    int st = c.style();
    zz_pX a = c.poly(c.coin() ? dA + 1 : c.range(0, dA + 1), st), b = c.poly(c.coin(0.7) ? dA + dB + 1 : c.range(0, dA + dB + 4), st), a0 = a, b0 = b, r; c.soil(r);
    int al = c.alias(2);
    if (al == 1) { c.pin(b); c.call([&] { middle_product(a, a, b, dA, dB); }); r = a; }
    else if (al == 2) { c.pin(a); c.call([&] { middle_product(b, a, b, dA, dB); }); r = b; }
    else { c.pin(a); c.pin(b); c.call([&] { middle_product(r, a, b, dA, dB); }); }
    c.out(r);
    if (c.oracle) c.check(r == ref_middle(a0, b0, dA, dB) && canon(r), "middle_product: wrong middle coefficients");
}
OP(middle_FFT, PM_ALL, TG_ALIAS | TG_VARIANT)
{
    long dA = c.len(4, 30, 120, 400), dB = c.len(4, 30, 120, 400);
    zz_pX a = c.poly(c.coin() ? dA + 1 : c.range(0, dA + 1)), b = c.poly(c.coin(0.7) ? dA + dB + 1 : c.range(0, dA + dB + 1)), a0 = a, b0 = b, r; c.soil(r);
    int al = c.alias(2);
    if (al == 1) { c.pin(b); c.call([&] { middle_FFT(a, a, b, dA, dB); }); r = a; }
    else if (al == 2) { c.pin(a); c.call([&] { middle_FFT(b, a, b, dA, dB); }); r = b; }
    else { c.pin(a); c.pin(b); c.call([&] { middle_FFT(r, a, b, dA, dB); }); }
    c.out(r);
    if (c.oracle) c.check(r == ref_middle(a0, b0, dA, dB) && canon(r), "middle_FFT: wrong middle coefficients");
}

// ---------------------------------------------------------------- multipoint evaluation
static zz_p geo_root(Ctx & c, long n)       // order >= 2n, chosen by the harness
{
    for (;;) {
        zz_p r = c.nz(); zz_p t = r; bool ok = true;
        for (long i = 1; i < 2 * n && ok; i++) { if (t == 1) ok = false; t *= r; }
        if (ok) return r;
    }
}
static void mp_stateless(Ctx & c, zz_pX_Multipoint & ev, const Vec<zz_p> & pts, const char * what, bool tev_any)
{
    PinScope ps(c);
    long n = ev.length();
    zz_pX P = c.poly(c.coin() ? n : c.range(0, n)), Q; Vec<zz_p> v, w = c.vec(n), u; c.soil(v); c.soil(Q); c.soil(u); c.pin(P); c.pin(w);
    zz_pX T; c.soil(T); long os = tev_any ? (c.coin() ? -1 : c.range(1, n)) : -1;
    zz_pX P2 = c.poly(c.coin() ? n : c.range(0, n)); c.pin(P2);
    c.call([&] { ev.evaluate(v, P); ev.interpolate(Q, w); ev.t_evaluate(T, w, os); ev.t_interpolate(u, P2); });
    c.out(v); c.out(Q); c.out(T); c.out(u);
    if (c.oracle) {
        bool ok = v.length() == n; for (long i = 0; i < n && ok; i++) ok = v[i] == eval(P, pts[i]);
        c.check(ok, what);
        ok = deg(Q) < n && canon(Q); for (long i = 0; i < n && ok; i++) ok = eval(Q, pts[i]) == w[i];
        c.check(ok, what);
        long m = os < 0 ? n : os; ok = deg(T) < m && canon(T);
        Vec<zz_p> pw; pw.SetLength(n); for (long i = 0; i < n; i++) pw[i] = w[i];
        for (long k = 0; k < m && ok; k++) { zz_p s; s = 0; for (long i = 0; i < n; i++) { s += pw[i]; pw[i] *= pts[i]; } ok = coeff(T, k) == s; }
        c.check(ok, what);
        ok = u.length() == n; pw = u;
        for (long k = 0; k < n && ok; k++) { zz_p s; s = 0; for (long i = 0; i < n; i++) { s += pw[i]; pw[i] *= pts[i]; } ok = coeff(P2, k) == s; }
        c.check(ok, what);
    }
}
static void mp_bulk(Ctx & c, zz_pX_Multipoint & ev, const Vec<zz_p> & pts, const char * what)
{
    PinScope ps(c);
    long n = ev.length(), s = c.range(1, 3), t = c.range(1, 3);
    Mat<zz_pX> A = c.pmat(s, t, n), B; Vec<zz_pX> F = c.pvec(s, n), G; Vec<Mat<zz_p>> va; Vec<Vec<zz_p>> vf; Mat<zz_pX> TA; Vec<zz_pX> TF; Vec<Mat<zz_p>> ua; Vec<Vec<zz_p>> uf;
    c.pin(A); c.pin(F);
    c.soil(B); c.soil(G); c.soil(va); c.soil(vf); c.soil(TA); c.soil(TF); c.soil(ua); c.soil(uf);
    c.call([&] { ev.evaluate_matrix(va, A); ev.interpolate_matrix(B, va); ev.evaluate_vector(vf, F); ev.interpolate_vector(G, vf);
                 ev.t_interpolate_matrix(ua, A); ev.t_evaluate_matrix(TA, ua); ev.t_interpolate_vector(uf, F); ev.t_evaluate_vector(TF, uf); });
    c.out(va); c.out(B); c.out(vf); c.out(G); c.out(TA); c.out(TF); c.out(ua); c.out(uf);
    if (c.oracle) {
        bool ok = va.length() == n && B == A && G == F && TA == A && TF == F && vf.length() == n;
        for (long i = 0; i < n && ok; i++) { ok = va[i] == ref_eval(A, pts[i]) && vf[i].length() == s; for (long j = 0; j < s && ok; j++) ok = vf[i][j] == eval(F[j], pts[i]); }
        c.check(ok, what);
    }
}
OP(mp_general, PM_ALL, TG_VARIANT)
{
    long n = c.len(4, 20, 60, 140); Vec<zz_p> q = c.distinct(n);
    std::unique_ptr<zz_pX_Multipoint_General> ev; c.pin(q);
    c.call([&] { ev.reset(new zz_pX_Multipoint_General(q)); });
    mp_stateless(c, *ev, q, "general multipoint evaluation/interpolation is wrong", false);
    mp_bulk(c, *ev, q, "general multipoint: bulk evaluation/interpolation is wrong");
}
OP(mp_general_offset, PM_ALL, TG_VARIANT)
{
    long n = c.len(4, 15, 40, 100), o = c.range(0, 5); Vec<zz_p> q = c.distinct(n + o + 3), pts; c.pin(q);
    pts.SetLength(n); for (long i = 0; i < n; i++) pts[i] = q[o + i];
    std::unique_ptr<zz_pX_Multipoint_General> ev;
    c.call([&] { ev.reset(new zz_pX_Multipoint_General(q, o, n)); });
    mp_stateless(c, *ev, pts, "general multipoint (range of points) is wrong", false);
}
OP(mp_geometric, PM_ALL, TG_VARIANT | TG_KNOB)
{
    long n = c.coin(0.04) ? 1 : c.len(4, 20, 60, 140) + 1; zz_p r = geo_root(c, n), s = c.coin() ? to_zz_p(1) : c.nz();
    Vec<zz_p> pts; ref_powers(pts, r * r, n); for (long i = 0; i < n; i++) pts[i] *= s;
    std::unique_ptr<zz_pX_Multipoint_Geometric> ev;
    int fe = (int) c.below(3), fi = (int) c.below(3); bool prep = c.coin(); long pd = c.range(0, n - 1);
    c.call([&] { ev.reset(new zz_pX_Multipoint_Geometric(r, s, n));
                 if (fe == 1) ev->set_FFT_evaluate(); else if (fe == 2) ev->unset_FFT_evaluate();
                 if (fi == 1) ev->set_FFT_interpolate(); else if (fi == 2) ev->unset_FFT_interpolate();
                 if (prep) ev->prepare_degree(pd); });
    mp_stateless(c, *ev, pts, "geometric multipoint evaluation/interpolation is wrong", true);
    mp_bulk(c, *ev, pts, "geometric multipoint: bulk evaluation/interpolation is wrong");
    Vec<zz_p> a = c.vec(n), b1, b2, b3, b4; c.soil(b1); c.soil(b2); c.soil(b3); c.soil(b4); c.pin(a);
    zz_pX P = c.poly(n); long nb = c.range(1, n); Vec<zz_p> e; c.soil(e);
    c.call([&] { ev->mul_right(b1, a); ev->inv_mul_right(b2, b1); ev->mul_left(b3, a); ev->inv_mul_left(b4, b3); ev->evaluate(e, P, nb); });
    c.out(b1); c.out(b2); c.out(b3); c.out(b4); c.out(e);
    if (c.oracle) {
        zz_pX A; A.rep = a; A.normalize();
        bool ok = b2 == a && b4 == a && b1.length() == n && e.length() == nb; for (long i = 0; i < n && ok; i++) ok = b1[i] == eval(A, pts[i]);
        for (long i = 0; i < nb && ok; i++) ok = e[i] == eval(P, pts[i]);
        c.check(ok, "geometric multipoint: vector operations are wrong");
        c.check((n == 1 || ev->get_q() == r * r) && ev->get_s() == s, "geometric multipoint: wrong parameters reported");
    }
}
OP(mp_fft, PM_FFT, TG_VARIANT)
{
    long n = 1L << c.range(0, 2 + 2 * c.in.size);
    std::unique_ptr<zz_pX_Multipoint_FFT> ev; Vec<zz_p> pts; c.soil(pts);
    c.call([&] { ev.reset(new zz_pX_Multipoint_FFT(n)); if (n > 1) ev->get_points(pts); else { pts.SetLength(1); pts[0] = 1; } });
    c.out(pts);
    if (c.oracle) { bool ok = pts.length() == n; for (long i = 0; i < n && ok; i++) { ok = power(pts[i], n) == 1; for (long j = 0; j < i && ok && n <= 64; j++) ok = pts[i] != pts[j]; } c.check(ok, "FFT points are not distinct n-th roots of unity"); }
    mp_stateless(c, *ev, pts, "FFT multipoint evaluation/interpolation is wrong", true);
    mp_bulk(c, *ev, pts, "FFT multipoint: bulk evaluation/interpolation is wrong");
}
OP(get_general_points, PM_ANY, TG_POINTS | TG_VARIANT)
{
    long n = c.len(4, 20, 60, 100); Vec<zz_p> pts; c.soil(pts);
    std::unique_ptr<zz_pX_Multipoint_General> ev;
    c.call([&] { ev.reset(new zz_pX_Multipoint_General(get_general_points(n))); ev->get_points(pts); });
    c.out(pts);
    if (c.oracle) { bool ok = pts.length() == n && ev->length() == n; for (long i = 0; i < n && ok; i++) for (long j = 0; j < i && ok; j++) ok = pts[i] != pts[j]; c.check(ok, "general points are not distinct"); }
    mp_stateless(c, *ev, pts, "points chosen by the library: evaluation/interpolation is wrong", false);
}
OP(get_geometric_points, PM_ANY, TG_RANDOM | TG_LV | TG_POINTS | TG_VARIANT)
{
    long n = c.len(4, 20, 48, 100) + 1; Vec<zz_p> pts; c.soil(pts);
    if (zz_p::modulus() < 1000 && n > 24) n = c.range(2, 24);
    std::unique_ptr<zz_pX_Multipoint_Geometric> ev;
    c.call([&] { ev.reset(new zz_pX_Multipoint_Geometric(get_geometric_points(n))); ev->get_points(pts); });
    c.out(pts);
    if (c.oracle) { bool ok = pts.length() == n && ev->length() == n; for (long i = 0; i < n && ok; i++) for (long j = 0; j < i && ok; j++) ok = pts[i] != pts[j]; c.check(ok, "geometric points are not distinct"); }
    mp_stateless(c, *ev, pts, "points chosen by the library: evaluation/interpolation is wrong", true);
}
OP(get_FFT_points, PM_FFT, TG_POINTS | TG_VARIANT)
{
    long n = 1L << c.range(0, 2 + 2 * c.in.size); Vec<zz_p> pts; c.soil(pts);
    std::unique_ptr<zz_pX_Multipoint_FFT> ev;
    c.call([&] { ev.reset(new zz_pX_Multipoint_FFT(get_FFT_points(n))); if (n > 1) ev->get_points(pts); else { pts.SetLength(1); pts[0] = 1; } });
    c.out(pts);
    if (c.oracle) { bool ok = pts.length() == n; for (long i = 0; i < n && ok; i++) { ok = power(pts[i], n) == 1; for (long j = 0; j < i && ok && n <= 128; j++) ok = pts[i] != pts[j]; } c.check(ok, "FFT points are not distinct n-th roots of unity"); }
    mp_stateless(c, *ev, pts, "points chosen by the library: evaluation/interpolation is wrong", true);
}
OP(mp_to_dense, PM_FFT, 0)
{
    long n = c.len(3, 8, 16, 20) + 1; zz_p r = geo_root(c, n); Mat<zz_p> M1, M2, M3; c.soil(M1); c.soil(M2); c.soil(M3); Vec<zz_p> q = c.distinct(n), p1; zz_p pt;
    long i0 = c.below(n);
    c.call([&] { zz_pX_Multipoint_General g(q); zz_pX_Multipoint_Geometric e(r, n); g.to_dense(M1); e.to_dense(M2); e.get_point(pt, i0); g.get_points(p1); });
    c.out(M1); c.out(M2); c.out(pt); c.out(p1);
    if (c.oracle) {
        bool ok = p1 == q && pt == power(r, 2 * i0) && M1.NumRows() == n && M2.NumRows() == n; Vec<zz_p> w;
        for (long i = 0; i < n && ok; i++) { ref_powers(w, q[i], n); ok = ok && M1[i] == w; ref_powers(w, power(r, 2 * i), n); ok = ok && M2[i] == w; }
        c.check(ok, "dense evaluation matrix is wrong");
    }
}

// ---------------------------------------------------------------- transforms
static void transform_check(Ctx & c, const zz_pX_Transform & tr, const char * what)
{
    long m = tr.input_length(), n = tr.transform_length();
    zz_pX a = c.poly(m), b = c.poly(m), r; Vec<zz_p> va, vb, vc; c.pin(a); c.pin(b); c.soil(r); c.soil(va); c.soil(vb);
    Mat<zz_pX> A = c.pmat(2, 3, m), B = c.pmat(3, 2, m), C; Vec<Mat<zz_p>> ma, mb, mc; c.soil(C); c.soil(ma); c.soil(mb);
    vc.SetLength(n); mc.SetLength(n);
    c.call([&] { tr.forward_left(va, a); tr.forward_right(vb, b); for (long i = 0; i < n; i++) vc[i] = va[i] * vb[i]; tr.backward(r, vc);
                 tr.forward_left_matrix(ma, A); tr.forward_right_matrix(mb, B); for (long i = 0; i < n; i++) mul(mc[i], ma[i], mb[i]); tr.backward_matrix(C, mc); });
    c.out(r); c.out(C); c.out(va); c.out(vb);
    long s = c.range(0, 4); Vec<zz_pX> fa = c.pvec(s, m), fb = c.pvec(s, m), fc; Vec<Vec<zz_p>> xa, xb, xc; c.soil(xa); c.soil(xb); c.soil(fc); c.pin(fa); c.pin(fb);
    c.call([&] { tr.forward_left_vector(xa, fa); tr.forward_right_vector(xb, fb); xc.SetLength(n); for (long i = 0; i < n; i++) { xc[i].SetLength(s); for (long k = 0; k < s; k++) xc[i][k] = xa[i][k] * xb[i][k]; } tr.backward_vector(fc, xc); });
    c.out(fc);
    if (c.oracle) { c.check(r == a * b && canon(r), what); c.check(C == ref_mulm(A, B), what); bool ok = fc.length() == s && canon(fc); for (long k = 0; k < s && ok; k++) ok = fc[k] == fa[k] * fb[k]; c.check(ok, what); }
}
OP(transform_naive, PM_ALL, TG_VARIANT) { long d = c.dim(3, 6, 10, 14); zz_pX_Transform_naive t(d); transform_check(c, t, "naive transform does not multiply"); }
OP(transform_karatsuba, PM_ALL, TG_VARIANT) { zz_pX_Transform_karatsuba t; transform_check(c, t, "Karatsuba transform does not multiply"); }
OP(transform_montgomery3, PM_ALL, TG_VARIANT) { zz_pX_Transform_montgomery3 t; transform_check(c, t, "3-term transform does not multiply"); }
OP(transform_karatsuba4, PM_ALL, TG_VARIANT) { zz_pX_Transform_karatsuba4 t; transform_check(c, t, "4-term transform does not multiply"); }

// ---------------------------------------------------------------- CRT
static Vec<zz_pX> coprime_moduli(Ctx & c, long n)
{
    Vec<zz_pX> q; q.SetLength(n); zz_pX all; set(all);
    for (long i = 0; i < n; i++) {
        for (;;) { zz_pX m = c.poly_exact(c.range(1, 4)); if (deg(GCD(m, all)) == 0) { MakeMonic(m); if (c.coin(0.3)) m = m * c.nz(); q[i] = m; all = all * m; break; } }
    }
    return q;
}
OP(crt, PM_BIG, TG_VARIANT)
{
    long n = c.len(3, 8, 20, 40); Vec<zz_pX> q = coprime_moduli(c, n); c.pin(q); zz_pX all; set(all); for (long i = 0; i < n; i++) all = all * q[i];
    zz_pX f = c.poly(c.coin() ? deg(all) : c.range(0, deg(all))), g, M, m0; Vec<zz_pX> v, w; c.pin(f); c.soil(v); c.soil(g); c.soil(M); c.soil(m0);
    w.SetLength(n); for (long i = 0; i < n; i++) w[i] = c.poly(deg(q[i])); c.pin(w); long k = c.below(n), L = 0;
    c.call([&] { zz_pX_CRT crt(q); crt.multimod(v, f); crt.combine(g, w); crt.master(M); crt.moduli(m0, k); L = crt.length(); });
    c.out(v); c.out(g); c.out(M); c.out(m0); c.out(L);
    if (c.oracle) {
        bool ok = v.length() == n && L == n && m0 == q[k] && M == all && deg(g) < deg(all) && canon(g);
        for (long i = 0; i < n && ok; i++) ok = v[i] == f % q[i] && g % q[i] == w[i];
        c.check(ok, "Chinese remaindering is wrong");
    }
}
OP(subproduct_tree, PM_ALL, 0)
{
    long n = c.len(3, 8, 20, 40); Vec<zz_pX> q; q.SetLength(n); zz_pX all; set(all); for (long i = 0; i < n; i++) { q[i] = c.poly_exact(c.range(0, 3)); all = all * q[i]; } c.pin(q);
    Vec<Vec<zz_pX>> t; c.soil(t);
    c.call([&] { build_subproduct_tree(t, q); });
    c.out(t);
    if (c.oracle) c.check(t.length() > 0 && t[t.length() - 1].length() == 1 && t[t.length() - 1][0] == all && t[0] == q, "subproduct tree root is not the product");
}

// ================================================================= object histories

// multipoint objects: interleaved evaluations, interpolations, transposes, setting
// changes, preparation and copies; every answer is compared with the definition
template <class EV, class TWEAK>
static void mp_history(Ctx & c, EV & ev0, const Vec<zz_p> & pts0, EV & ev1, const Vec<zz_p> & pts1, bool tev_any, TWEAK tweak)
{
    Vec<zz_p> pts = pts0; c.oracle = true; int which = 0;
    std::unique_ptr<EV> cur; c.call([&] { cur.reset(new EV(ev0)); });
    STEPS(c) {
        if (c.coin(0.06)) { which ^= 1; pts = which ? pts1 : pts0; c.call([&] { *cur = which ? ev1 : ev0; }); }       // overwritten by an object for other points
        long n = pts.length();
        EV & ev = *cur; int k = (int) c.below(12);
        zz_pX P = c.poly(c.coin() ? n : c.range(0, n)), T; Vec<zz_p> w = c.vec(n), v;
        switch (k) {
        case 0: case 1: case 2: {
            c.call([&] { ev.evaluate(v, P); }); c.out(v);
            bool ok = v.length() == n; for (long i = 0; i < n && ok; i++) ok = v[i] == eval(P, pts[i]);
            c.check(ok, "evaluate: wrong value after this history"); break; }
        case 3: case 4: {
            c.call([&] { ev.interpolate(T, w); }); c.out(T);
            bool ok = deg(T) < n && canon(T); for (long i = 0; i < n && ok; i++) ok = eval(T, pts[i]) == w[i];
            c.check(ok, "interpolate: wrong polynomial after this history"); break; }
        case 5: case 6: {
            long os = c.coin() || !tev_any ? -1 : c.range(1, n); long m = os < 0 ? n : os;
            c.call([&] { ev.t_evaluate(T, w, os); }); c.out(T);
            bool ok = deg(T) < m && canon(T); Vec<zz_p> pw = w;
            for (long kk = 0; kk < m && ok; kk++) { zz_p s; s = 0; for (long i = 0; i < n; i++) { s += pw[i]; pw[i] *= pts[i]; } ok = coeff(T, kk) == s; }
            c.check(ok, "transposed evaluate: wrong result after this history"); break; }
        case 7: {
            c.call([&] { ev.t_interpolate(v, P); }); c.out(v);
            bool ok = v.length() == n; Vec<zz_p> pw = v;
            for (long kk = 0; kk < n && ok; kk++) { zz_p s; s = 0; for (long i = 0; i < n; i++) { s += pw[i]; pw[i] *= pts[i]; } ok = coeff(P, kk) == s; }
            c.check(ok, "transposed interpolate: wrong result after this history"); break; }
        case 8: { Vec<zz_p> q; c.call([&] { if (n > 1) ev.get_points(q); else q = pts; }); c.out(q); c.check(q == pts, "reported points differ from the definition"); break; }
        case 9: { std::unique_ptr<EV> o; c.call([&] { o.reset(new EV(ev)); }); if (c.coin()) { cur.swap(o); } else { c.call([&] { *cur = *o; }); } break; }
        case 10: { Mat<zz_pX> A = c.pmat(2, 2, n), B; Vec<Mat<zz_p>> va; c.call([&] { ev.evaluate_matrix(va, A); ev.interpolate_matrix(B, va); }); c.out(B); c.check(B == A, "evaluate/interpolate of a matrix is not the identity"); break; }
        default: tweak(ev, c); break;
        }
    }
}
OP(obj_mp_general, PM_ALL, TG_OBJ | TG_NOSOIL)
{
    long n = c.len(4, 12, 30, 60); Vec<zz_p> q = c.distinct(n);
    std::unique_ptr<zz_pX_Multipoint_General> ev; c.call([&] { ev.reset(new zz_pX_Multipoint_General(q)); });
    long n2 = c.len(4, 12, 30, 60); Vec<zz_p> q2 = c.distinct(n2); std::unique_ptr<zz_pX_Multipoint_General> ev2; c.call([&] { ev2.reset(new zz_pX_Multipoint_General(q2)); });
    mp_history(c, *ev, q, *ev2, q2, false, [](zz_pX_Multipoint_General &, Ctx & cc) { foreign_work(cc); });
}
OP(obj_mp_geometric, PM_ALL, TG_OBJ | TG_NOSOIL | TG_KNOB)
{
    long n = c.len(4, 16, 40, 100) + 1; zz_p r = geo_root(c, n), s = c.coin() ? to_zz_p(1) : c.nz();
    Vec<zz_p> pts; ref_powers(pts, r * r, n); for (long i = 0; i < n; i++) pts[i] *= s;
    std::unique_ptr<zz_pX_Multipoint_Geometric> ev; c.call([&] { ev.reset(new zz_pX_Multipoint_Geometric(r, s, n)); });
    long n2 = c.coin(0.05) ? 1 : c.len(4, 16, 40, 100) + 1; zz_p r2 = geo_root(c, n2), s2 = c.coin() ? to_zz_p(1) : c.nz(); Vec<zz_p> pts2; ref_powers(pts2, r2 * r2, n2); for (long i = 0; i < n2; i++) pts2[i] *= s2;
    std::unique_ptr<zz_pX_Multipoint_Geometric> ev2; bool pr = c.coin(); c.call([&] { ev2.reset(new zz_pX_Multipoint_Geometric(r2, s2, n2)); if (pr) ev2->prepare_degree(n2 - 1); });
    mp_history(c, *ev, pts, *ev2, pts2, true, [](zz_pX_Multipoint_Geometric & e, Ctx & cc) {
        long n = e.length();
        int k = (int) cc.below(11); long d = cc.range(0, n - 1); u64 bs = cc.g.next(); zz_pX P = cc.poly(n); Vec<zz_p> a = cc.vec(n), b1, b2, b3, b4;
        switch (k) {
        case 0: cc.call([&] { e.set_FFT_evaluate(); }); break;
        case 1: cc.call([&] { e.unset_FFT_evaluate(); }); break;
        case 2: cc.call([&] { e.set_FFT_interpolate(); }); break;
        case 3: cc.call([&] { e.unset_FFT_interpolate(); }); break;
        case 4: cc.call([&] { e.decide_FFT(); }); break;
        case 5: foreign_work(cc); break;
        case 6: cc.call([&] { e.mul_right(b1, a); e.inv_mul_right(b2, b1); e.mul_left(b3, a); e.inv_mul_left(b4, b3); }); cc.out(b1); cc.out(b3); cc.check(b2 == a && b4 == a, "vector operations are not mutually inverse after this history"); break;
        case 7: cc.call([&] { e.prepare_degree(d); }); break;
        default: {      // prepared for many degrees, then used at all of them and at the degrees in between
            Rng keep = cc.g; cc.g = Rng(bs); int cnt = (int) cc.range(2, 15); VecLong ds; for (int q = 0; q < cnt; q++) ds.push_back(cc.range(0, n - 1)); cc.call([&] { for (long x : ds) e.prepare_degree(x); });
            for (int q = 0; q < 4; q++) { zz_pX F = cc.poly(q == 0 ? n : 1 + std::min(n - 1, ds[(size_t) cc.below(cnt)] + cc.below(2))); Vec<zz_p> v; cc.call([&] { e.evaluate(v, F); }); cc.out(v); Vec<zz_p> w; cc.call([&] { e.get_points(w); }); bool ok = v.length() == n; for (long i = 0; ok && i < n; i++) ok = v[i] == eval(F, w[i]); cc.check(ok, "evaluation is wrong after preparing many degrees"); }
            cc.g = keep; }
        } });
}
OP(obj_mp_fft, PM_FFT, TG_OBJ | TG_NOSOIL)
{
    long n = 1L << c.range(1, 2 + c.in.size); std::unique_ptr<zz_pX_Multipoint_FFT> ev; Vec<zz_p> pts;
    c.call([&] { ev.reset(new zz_pX_Multipoint_FFT(n)); zz_pX X; NTL::SetCoeff(X, 1, 1); ev->evaluate(pts, X); });
    long n2 = 1L << c.range(1, 2 + c.in.size); std::unique_ptr<zz_pX_Multipoint_FFT> ev2; Vec<zz_p> pts2; c.call([&] { ev2.reset(new zz_pX_Multipoint_FFT(n2)); zz_pX X; NTL::SetCoeff(X, 1, 1); ev2->evaluate(pts2, X); });
    mp_history(c, *ev, pts, *ev2, pts2, true, [](zz_pX_Multipoint_FFT &, Ctx & cc) { foreign_work(cc); });
}
OP(obj_crt, PM_BIG, TG_OBJ | TG_NOSOIL)
{
    c.oracle = true;
    long n = c.len(3, 6, 12, 20); Vec<zz_pX> q = coprime_moduli(c, n); zz_pX all; set(all); for (long i = 0; i < n; i++) all = all * q[i];
    std::unique_ptr<zz_pX_CRT> cur; c.call([&] { cur.reset(new zz_pX_CRT(q)); });
    STEPS(c) {
        Vec<zz_pX> v, w; zz_pX f, g;
        switch ((int) c.below(5)) {
        case 0: case 1: { f = c.poly(c.range(0, deg(all))); c.call([&] { cur->multimod(v, f); }); c.out(v); bool ok = v.length() == n; for (long i = 0; i < n && ok; i++) ok = v[i] == f % q[i]; c.check(ok, "multimod: wrong remainder after this history"); break; }
        case 2: { w.SetLength(n); for (long i = 0; i < n; i++) w[i] = c.poly(deg(q[i])); c.call([&] { cur->combine(g, w); }); c.out(g); bool ok = deg(g) < deg(all); for (long i = 0; i < n && ok; i++) ok = g % q[i] == w[i]; c.check(ok, "combine: wrong polynomial after this history"); break; }
        case 3: { std::unique_ptr<zz_pX_CRT> o; c.call([&] { o.reset(new zz_pX_CRT(*cur)); }); cur.swap(o); break; }
        default: { foreign_work(c); c.call([&] { cur->master(g); }); c.check(g == all, "master polynomial changed"); }
        }
    }
}
OP(obj_shift, PM_BIG, TG_OBJ | TG_NOSOIL)
{
    c.oracle = true;
    long d = c.len(4, 16, 40, 80); zz_p x = c.el(0);
    std::unique_ptr<zz_pX_shift_DAC> a; std::unique_ptr<zz_pX_shift_large_characteristic> b; std::unique_ptr<zz_pX_shift> g;
    c.call([&] { a.reset(new zz_pX_shift_DAC(d, x)); b.reset(new zz_pX_shift_large_characteristic(d, x)); g = get_shift(d, x); });
    STEPS(c) {
        zz_pX f = c.poly(c.coin() ? d + 1 : c.range(0, d + 1)), r1, r2, r3, e = ref_shift(f, x);
        switch ((int) c.below(5)) {
        case 0: { std::unique_ptr<zz_pX_shift_DAC> o; c.call([&] { o.reset(new zz_pX_shift_DAC(*a)); }); a.swap(o); break; }
        case 1: { std::unique_ptr<zz_pX_shift_large_characteristic> o; c.call([&] { o.reset(new zz_pX_shift_large_characteristic(*b)); }); b.swap(o); break; }
        case 2: foreign_work(c); break;
        default: { if (c.coin(0.3)) { r1 = f; r2 = f; r3 = f; c.call([&] { a->shift(r1, r1); b->shift(r2, r2); g->shift(r3, r3); }); } else c.call([&] { a->shift(r1, f); b->shift(r2, f); g->shift(r3, f); });
            c.out(r1); c.out(r2); c.out(r3); c.check(r1 == e && r2 == e && r3 == e, "shift object: g(x) != f(x+c) after this history"); }
        }
    }
}

// ================================================================= shared read-only objects
struct ShMP { std::unique_ptr<zz_pX_Multipoint> ev; zz_pX_Multipoint_Geometric * geo = nullptr; Vec<zz_p> pts; };
static void use_mp(Ctx & c, void * o)
{
    ShMP & s = *(ShMP *) o; const zz_pX_Multipoint & ev = *s.ev; long n = s.pts.length();
    zz_pX P = c.poly(c.range(0, n)), T; Vec<zz_p> v, w = c.vec(n); Mat<zz_pX> A = c.pmat(2, 2, n), TA; Vec<Mat<zz_p>> va; Vec<zz_p> x, y; long os = c.coin() ? -1 : c.range(1, n);
    const zz_pX_Multipoint_Geometric * g = s.geo;
    switch ((int) c.below(4)) {
    case 0: c.call([&] { ev.evaluate(v, P); }); break;
    case 1: c.call([&] { ev.t_evaluate(T, w, os); }); break;
    case 2: c.call([&] { ev.evaluate_matrix(va, A); ev.t_evaluate_matrix(TA, va); }); break;
    default: if (g) c.call([&] { g->mul_right(x, w); g->mul_left(y, w); g->evaluate(v, P, n); c.out(g->get_q()); c.out(g->get_s()); }); else c.call([&] { ev.evaluate(v, P); ev.t_evaluate(T, w); });
    }
    c.out(v); c.out(T); c.out(va); c.out(TA); c.out(x); c.out(y);
}
static std::shared_ptr<void> mk_general(Ctx & c) { auto s = std::make_shared<ShMP>(); s->pts = c.distinct(c.len(4, 12, 24, 40)); s->ev.reset(new zz_pX_Multipoint_General(s->pts)); return s; }
static std::shared_ptr<void> mk_geometric(Ctx & c)
{
    auto s = std::make_shared<ShMP>(); long n = c.len(4, 16, 40, 70) + 1; zz_p r = geo_root(c, n), q = c.nz(); auto * e = new zz_pX_Multipoint_Geometric(r, q, n);
    s->pts.SetLength(n); s->ev.reset(e); s->geo = e;
    if (c.coin()) e->set_FFT_evaluate(); else if (c.coin()) e->unset_FFT_evaluate();
    if (c.coin()) e->prepare_degree(c.below(n));
    return s;
}
static std::shared_ptr<void> mk_fftmp(Ctx & c) { auto s = std::make_shared<ShMP>(); long n = 1L << c.range(1, 2 + c.in.size); s->pts.SetLength(n); s->ev.reset(new zz_pX_Multipoint_FFT(n)); return s; }
static sim::RegS rs1("mp_general", PM_ALL, mk_general, use_mp);
static sim::RegS rs2("mp_geometric", PM_ALL, mk_geometric, use_mp);
static sim::RegS rs3("mp_fft", PM_FFT, mk_fftmp, use_mp);

struct ShCRT { std::unique_ptr<zz_pX_CRT> crt; Vec<zz_pX> q; long d; };
static std::shared_ptr<void> mk_crt(Ctx & c) { auto s = std::make_shared<ShCRT>(); s->q = coprime_moduli(c, c.len(3, 6, 10, 16)); s->d = 0; for (long i = 0; i < s->q.length(); i++) s->d += deg(s->q[i]); s->crt.reset(new zz_pX_CRT(s->q)); return s; }
static void use_crt(Ctx & c, void * o)
{
    ShCRT & s = *(ShCRT *) o; const zz_pX_CRT & crt = *s.crt; zz_pX f = c.poly(s.d), g, m; Vec<zz_pX> v, w; w.SetLength(s.q.length()); for (long i = 0; i < w.length(); i++) w[i] = c.poly(deg(s.q[i])); long k = c.below(w.length());
    if (c.coin()) c.call([&] { crt.multimod(v, f); }); else c.call([&] { crt.combine(g, w); crt.master(f); crt.moduli(m, k); });
    c.out(v); c.out(g); c.out(f); c.out(m); c.out(crt.length());
}
static sim::RegS rs4("crt", PM_BIG, mk_crt, use_crt);

struct ShShift { std::unique_ptr<zz_pX_shift_DAC> a; std::unique_ptr<zz_pX_shift_large_characteristic> b; std::unique_ptr<zz_pX_shift> g; long d; };
static std::shared_ptr<void> mk_shift(Ctx & c) { auto s = std::make_shared<ShShift>(); s->d = c.len(4, 16, 30, 60); zz_p x = c.el(0); s->a.reset(new zz_pX_shift_DAC(s->d, x)); s->b.reset(new zz_pX_shift_large_characteristic(s->d, x)); s->g = get_shift(s->d, x); return s; }
static void use_shift(Ctx & c, void * o)
{
    const ShShift & s = *(ShShift *) o; zz_pX f = c.poly(c.range(0, s.d + 1)), r; int k = (int) c.below(3);
    c.call([&] { if (k == 0) s.a->shift(r, f); else if (k == 1) s.b->shift(r, f); else s.g->shift(r, f); });
    c.out(r);
}
static sim::RegS rs5("shift", PM_BIG, mk_shift, use_shift);

struct ShTr { zz_pX_Transform_naive n; zz_pX_Transform_karatsuba k; zz_pX_Transform_montgomery3 m; zz_pX_Transform_karatsuba4 k4; ShTr(long d) : n(d) { } };
static std::shared_ptr<void> mk_tr(Ctx & c) { return std::make_shared<ShTr>(c.range(1, 7)); }
static void use_tr(Ctx & c, void * o)
{
    ShTr & s = *(ShTr *) o; int k = (int) c.below(4); const zz_pX_Transform & t = k == 0 ? (zz_pX_Transform &) s.n : k == 1 ? (zz_pX_Transform &) s.k : k == 2 ? (zz_pX_Transform &) s.m : (zz_pX_Transform &) s.k4;
    Mat<zz_pX> A = c.pmat(2, 2, t.input_length()), B = c.pmat(2, 2, t.input_length()), C; Vec<Mat<zz_p>> a, b, m; m.SetLength(t.transform_length());
    c.call([&] { t.forward_left_matrix(a, A); t.forward_right_matrix(b, B); for (long i = 0; i < m.length(); i++) mul(m[i], a[i], b[i]); t.backward_matrix(C, m); });
    c.out(C);
}
static sim::RegS rs6("transforms", PM_ALL, mk_tr, use_tr);
