// calls that are refused by an exception because of their arguments; afterwards the same
// objects are used for the call that the user meant
#include "ops.h"
using namespace sim;
typedef Mat<zz_pX> PM;

static VecLong wrong_shift(Ctx & c, long good) { long n; do n = c.range(0, good + 3); while (n == good || n == 0); VecLong s(n); for (auto & x : s) x = c.range(-3, 5); return s; }

OP(refuse_shift_length, PM_ANY, TG_REFUSE)
{
    long m = c.dim(2, 4, 6, 8), n = c.dim(2, 4, 6, 8), d = c.range(1, 8); PM a = c.pmat(m, n, d); c.pin(a); bool row = c.coin(); long need = row ? n : m;
    VecLong bad = wrong_shift(c, need), good(need); for (auto & x : good) x = c.range(-3, 5); c.pin(bad); c.pin(good);
    VecLong v, w; c.soil(v); c.soil(w); Mat<long> D; c.soil(D); Mat<zz_p> L; c.soil(L); int k = (int) c.below(4);
    auto f = [&](const VecLong & s) {
        switch (k) {
        case 0: v.resize(row ? m : n); if (row) row_degree(v, a, s); else col_degree(v, a, s); break;
        case 1: v.resize(row ? m : n); w.resize(row ? m : n); if (row) row_pivots(w, v, a, s); else col_pivots(w, v, a, s); break;
        case 2: if (row) degree_matrix_rowshifted(D, a, s); else degree_matrix_colshifted(D, a, s); break;
        default: if (row) row_leading_matrix(L, a, s); else col_leading_matrix(L, a, s); } };
    bool ret = c.call_caught([&] { f(bad); });
    c.check(!ret, "a shift of the wrong length was accepted");
    c.call([&] { f(good); });
    if (k == 0) c.out(v); else if (k == 1) { c.out(v); c.out(w); } else if (k == 2) c.out(D); else c.out(L);
}
OP(refuse_not_implemented, PM_ALL, TG_REFUSE | TG_RANDOM)
{
    long m = c.range(2, 4), n = c.range(1, m - 1), ord = c.range(1, 8); PM F = c.pmat(m, n, ord), P; VecLong s = c.shift(m, 3); c.pin(F); int k = (int) c.below(4); Vec<zz_pX> dg; zz_pX det = c.poly(3); Vec<zz_p> pts = c.distinct(ord); bool b = false;
    c.call_caught([&] {
        switch (k) {
        case 0: { VecLong orders(n, ord); VecLong rd; approximant_basis(P, rd, F, orders, s, (PolMatForm) 5, true, false); break; }
        case 1: { VecLong orders(n, ord); b = is_approximant_basis(F, F, orders, s, POPOV, false); break; }
        case 2: b = verify_determinant(det, c.pmat(2, 2, 2), true, false); break;
        default: { PM A = c.pmat(m, m, 3); diagonal_of_hermite(dg, A); } } });
    // the same thread goes on with ordinary work
    PM A = c.pmat(2, 3, 5), B = c.pmat(3, 2, 5), R; c.pin(A); c.pin(B);
    c.call([&] { multiply(R, A, B); });
    c.out(R); c.check(R == ref_mulm(A, B), "wrong product after a refused call");
}

// ---------------------------------------------------------------- calls whose operands do not fit: they stop with an error, without a result and without touching foreign memory
OP(refuse_dimensions, PM_ANY, TG_REFUSE)
{
    long m = c.dim(2, 4, 6, 8), n = c.dim(2, 4, 6, 8), d = c.range(1, 8), m2 = m, n2 = n; if (c.coin()) m2 += c.coin() || m == 1 ? c.range(1, 3) : -1; else n2 += c.coin() || n == 1 ? c.range(1, 3) : -1;
    PM a = c.pmat(m, n, d), b = c.pmat(m2, n2, d), r; Mat<zz_p> k = c.cmat(m2, n2), k0 = c.cmat(m, n); Vec<zz_pX> u = c.pvec(m, d), v = c.pvec(m + (c.coin() || m == 1 ? 1 : -1), d), w; c.soil(r); c.soil(w); int op = (int) c.below(14); long s = c.range(0, 4); bool al = c.coin(0.3);
    if (op == 8 || op == 9) { k = c.cmat(n + (c.coin() || n == 1 ? 1 : -1), m2); k0 = c.cmat(n2, m + (c.coin() || m == 1 ? 1 : -1)); }
    if (op == 11 && m2 == m) b = c.pmat(m + 1, n2, d);
    c.pin(a); c.pin(b); c.pin(u); c.pin(v); c.pin(k); c.pin(k0);
    PM x = a; Vec<zz_pX> y = u;
    bool ref = c.refused([&] { switch (op) {
        case 0: if (al) add(x, x, b); else add(r, a, b); break; case 1: if (al) sub(x, x, b); else sub(r, a, b); break; case 2: add(r, a, k); break; case 3: sub(r, a, k); break; case 4: sub(r, k, a); break;
        case 5: if (al) add(y, y, v); else add(w, u, v); break; case 6: if (al) sub(y, y, v); else sub(w, u, v); break; case 7: add_LeftShift(r, a, b, s); break;
        case 8: mul(r, a, k); break; case 9: mul(r, k0, a); break; case 10: SetCoeff(x, s, k); break; case 11: horizontal_join(r, a, b); break; case 12: add_LeftShift(w, u, v, s); break;
        default: { long q = n + c.range(1, 3); if (al) collapse_consecutive_columns(r, a, d, q); else collapse_nonconsecutive_columns(r, a, d, q); } } });
    c.check(ref, "operands of incompatible dimensions were accepted");
    // what the caller meant, with the same objects
    PM b2 = c.pmat(m, n, d), r2; c.call([&] { add(r2, a, b2); }); c.out(r2);
    bool ok = r2.NumRows() == m && r2.NumCols() == n; for (long i = 0; ok && i < m; i++) for (long j = 0; ok && j < n; j++) ok = r2[i][j] == a[i][j] + b2[i][j]; c.check(ok, "wrong sum after a refused call");
}
OP(refuse_inverse, PM_ALL, TG_REFUSE | TG_RANDOM)
{
    long m = c.dim(2, 3, 5, 6), n = m, d = c.range(1, 8), pr = c.range(1, 24); int w = (int) c.below(3), k = (int) c.below(6); if (w == 0) n += c.coin() || m == 1 ? 1 : -1;
    PM a = c.pmat(m, n, d), r; if (w == 1) for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) NTL::SetCoeff(a[i][j], 0, i == 0 ? to_zz_p(0) : coeff(a[i][j], 0)); if (w == 2) clear(a); c.soil(r); c.pin(a);
    bool ref = c.refused([&] { switch (k) { case 0: plain_inv_trunc(r, a, pr); break; case 1: newton_inv_trunc_FFT(r, a, pr); break; case 2: newton_inv_trunc_middle_product(r, a, pr); break; case 3: newton_inv_trunc_geometric(r, a, pr); break; default: inv_trunc(r, a, pr); } });
    c.check(ref, "truncated inverse of a matrix that is not invertible at zero (or not square) was returned");
    PM b = c.pmat(m, m, d); { Mat<zz_p> b0; do b0 = c.cmat(m, m, 0); while (ref_rank(b0) < m); for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) NTL::SetCoeff(b[i][j], 0, b0[i][j]); }
    c.call([&] { inv_trunc(r, b, pr); }); c.out(r); c.check(ref_trunc(ref_mulm(r, b), pr) == ref_ident(m), "wrong truncated inverse after a refused call");
}
OP(refuse_degree, PM_ALL, TG_REFUSE | TG_RANDOM)
{
    int w = (int) c.below(5); long d = c.len(3, 10, 30, 60); bool ref = true;
    if (w == 0) { Vec<zz_p> v; zz_pX f = c.poly_exact(d + c.range(1, 6)), g = c.poly(d + 1), h; zz_pX_shift_DAC s(d, c.el(0)); ref = c.refused([&] { s.shift(h, f); }); c.call([&] { s.shift(h, g); }); c.out(h); }
    else if (w == 1) { std::unique_ptr<zz_pX_Multipoint_Geometric> e; c.call([&] { e.reset(new zz_pX_Multipoint_Geometric(get_geometric_points(d + 1))); }); zz_pX f = c.poly_exact(d + c.range(1, 6)), g = c.poly(d + 1); Vec<zz_p> v, q; long n = d + 1; bool pr = c.coin(); ref = c.refused([&] { if (pr) e->prepare_degree(n + 1); else e->evaluate(v, f); }); c.call([&] { e->evaluate(v, g); e->get_points(q); }); c.out(v); bool ok = v.length() == n; for (long i = 0; ok && i < n; i++) ok = v[i] == eval(g, q[i]); c.check(ok, "wrong evaluation after a refused call"); }
    else if (w == 2) { long m = c.range(1, 3), dA = c.range(1, 6); PM A = c.pmat(m, m, dA + 1), b = c.pmat(m, 1, dA + 4), u; for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) NTL::SetCoeff(A[i][j], 0, i == j ? to_zz_p(1) : to_zz_p(0)); NTL::SetCoeff(b[0][0], dA + 3, c.nz()); ref = c.refused([&] { solve_series_high_order_lifting(u, A, b, 20); }); }
    else if (w == 3) { Vec<zz_pX> a = c.pvec(3, 4), b = c.pvec(2, 4); if (c.coin()) clear(a[2]); else clear(b[1]); ref = c.refused([&] { sylvester_lzz_pX s(a, b); }); }
    else { zz_pX a = c.poly_exact(3), b = c.poly_exact(2); sylvester_lzz_p s(a, b); Mat<zz_p> X; ref = c.refused([&] { s.top_right_block_inverse(X, 6); }); }
    c.check(ref, "an argument of too large degree or size was accepted");
    PM A = c.pmat(2, 3, 5), B = c.pmat(3, 2, 5), R; c.pin(A); c.pin(B); c.call([&] { multiply(R, A, B); }); c.out(R); c.check(R == ref_mulm(A, B), "wrong product after a refused call");
}
OP(refuse_lmul_degree, PM_ALL, TG_REFUSE | TG_RANDOM)
{
    int k = (int) c.below(5); if (k < 2 && !(PM_FFT >> c.in.pk & 1)) k = 2 + (int) c.below(3);
    long m = c.dim(2, 3, 5, 8), n = c.dim(2, 3, 5, 8), p = c.dim(2, 3, 5, 8), dA = c.range(0, c.len(3, 8, 16, 30)), dB = c.range(0, c.len(3, 8, 16, 30)); PM A = c.pmat(m, n, dA + 1), B = c.pmat(n, p, dB + 1), X = c.pmat(n, p, dB + 2), R; NTL::SetCoeff(X[c.below(n)][c.below(p)], dB + 1 + (c.coin() ? 0 : c.range(0, 20)), c.nz()); c.soil(R); c.pin(A); c.pin(B); c.pin(X);
    std::unique_ptr<mat_lzz_pX_lmultiplier> mul;
    c.call([&] { switch (k) { case 0: mul.reset(new mat_lzz_pX_lmultiplier_FFT_direct(A, dB)); break; case 1: mul.reset(new mat_lzz_pX_lmultiplier_FFT_matmul(A, dB)); break; case 2: mul.reset(new mat_lzz_pX_lmultiplier_geometric(A, dB)); break; case 3: mul.reset(new mat_lzz_pX_lmultiplier_dense(A, dB)); break; default: mul.reset(new mat_lzz_pX_lmultiplier_3_primes(A, dB)); } });
    bool ref = c.refused([&] { mul->multiply(R, X); });
    c.check(ref, "a left multiplier accepted an operand of larger degree than it was made for");
    c.call([&] { mul->multiply(R, B); }); c.out(R); c.check(R == ref_mulm(A, B), "a left multiplier gives a wrong product after a refused call");
}
