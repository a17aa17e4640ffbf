// Bivariate polynomials, resultants, and linearly recurrent sequences over zz_p[x]/x^d.
#include "ops.h"
using namespace sim;

namespace {
typedef std::vector<std::vector<long>> Grid;        // Grid[y][x]: coefficients
Grid grid(const zz_pXY & f) { Grid g; for (long i = 0; i < f.rep.length(); i++) { std::vector<long> r; for (long j = 0; j <= deg(f.rep[i]); j++) r.push_back(rep(coeff(f.rep[i], j))); g.push_back(r); } return g; }
zz_pXY ungrid(const Grid & g) { Vec<zz_pX> v; v.SetLength(g.size()); for (size_t i = 0; i < g.size(); i++) for (size_t j = 0; j < g[i].size(); j++) NTL::SetCoeff(v[i], j, to_zz_p(g[i][j])); long n = v.length(); while (n > 0 && IsZero(v[n - 1])) n--; v.SetLength(n); zz_pXY f; f.rep = v; return f; }
long at(const Grid & g, size_t i, size_t j) { return i < g.size() && j < g[i].size() ? g[i][j] : 0; }
bool canon_xy(const zz_pXY & f) { return canon(f.rep) && (f.rep.length() == 0 || !IsZero(f.rep[f.rep.length() - 1])); }
bool same(const zz_pXY & f, const zz_pXY & g) { return canon_xy(f) && f.rep == g.rep; }
zz_pXY rand_xy(Ctx & c, long dx, long dy)
{
    zz_pXY f; int k = (int) c.below(10);
    if (k == 0) return f;                                     // zero
    f.rep = c.pvec(dy, dx); if (k == 1) for (long i = 0; i + 1 < dy; i++) clear(f.rep[i]);
    if (k == 2) for (long i = 0; i < dy; i++) f.rep[i] = coeff(f.rep[i], 0);
    long n = f.rep.length(); while (n > 0 && IsZero(f.rep[n - 1])) n--; f.rep.SetLength(n); return f;
}
zz_pXY nz_xy(Ctx & c, long dx, long dy) { zz_pXY f = rand_xy(c, dx, dy); if (f.rep.length() == 0) { f.rep.SetLength(dy); f.rep[dy - 1] = c.poly(dx); if (IsZero(f.rep[dy - 1])) f.rep[dy - 1] = c.nz(); } return f; }
zz_pXY ref_mulxy(const zz_pXY & a, const zz_pXY & b)
{ zz_pXY r; if (!a.rep.length() || !b.rep.length()) return r; r.rep.SetLength(a.rep.length() + b.rep.length() - 1); for (long i = 0; i < a.rep.length(); i++) for (long j = 0; j < b.rep.length(); j++) r.rep[i + j] += a.rep[i] * b.rep[j]; return r; }
}

static void bin_op(Ctx & c, int what)     // 0 add, 1 sub, 2 naive, 3 kronecker, 4 mul, 5 operator forms
{
    long n = c.len(3, 6, 14, 40), m = c.len(3, 5, 10, 20);
    zz_pXY a = rand_xy(c, c.range(1, n), c.range(1, m)), b = rand_xy(c, c.range(1, n), c.range(1, m)), r; int al = c.alias(3); if (al == 3) b = a;
    if ((what < 2) && c.coin(0.25) && a.rep.length()) { b = a; if (what == 0) for (long i = 0; i < b.rep.length(); i++) b.rep[i] = -b.rep[i]; if (c.coin()) b.rep[0] += to_zz_p(1); long k = b.rep.length(); while (k > 0 && IsZero(b.rep[k - 1])) k--; b.rep.SetLength(k); if (al == 3) al = 1; }   // cancellation
    zz_pXY a0 = a, b0 = b; int form = what == 5 ? (int) c.below(3) : 0; c.soil(r);
    auto f = [&](zz_pXY & x, const zz_pXY & y, const zz_pXY & z) {
        switch (what) { case 0: add(x, y, z); break; case 1: sub(x, y, z); break; case 2: mul_naive(x, y, z); break; case 3: mul_kronecker(x, y, z); break; case 4: mul(x, y, z); break;
        default: if (form == 0) x = y + z; else if (form == 1) x = y - z; else x = y * z; } };
    if (al == 1) { c.pin(b); c.call([&] { f(a, a, b); }); r = a; } else if (al == 2) { c.pin(a); c.call([&] { f(b, a, b); }); r = b; } else if (al == 3) { c.call([&] { f(a, a, a); }); r = a; } else { c.pin(a); c.pin(b); c.call([&] { f(r, a, b); }); }
    c.out(r);
    if (c.oracle) {
        int k = what == 5 ? (form == 2 ? 2 : form) : what; zz_pXY e;
        if (k >= 2) e = ref_mulxy(a0, b0);
        else { Grid A = grid(a0), B = grid(b0), G; long ny = std::max(A.size(), B.size()); G.resize(ny); for (long i = 0; i < ny; i++) { long nx = std::max(i < (long) A.size() ? A[i].size() : 0, i < (long) B.size() ? B[i].size() : 0); for (long j = 0; j < nx; j++) { zz_p t = to_zz_p(at(A, i, j)); if (k == 0) t += to_zz_p(at(B, i, j)); else t -= to_zz_p(at(B, i, j)); G[i].push_back(rep(t)); } } e = ungrid(G); }
        c.check(same(r, e), k == 0 ? "bivariate sum: wrong" : k == 1 ? "bivariate difference: wrong" : "bivariate product: wrong");
    }
}
OP(xy_add, PM_ANY, TG_ALIAS) { bin_op(c, 0); }
OP(xy_sub, PM_ANY, TG_ALIAS) { bin_op(c, 1); }
OP(xy_mul_naive, PM_ANY, TG_ALIAS | TG_VARIANT) { bin_op(c, 2); }
OP(xy_mul_kronecker, PM_ALL, TG_ALIAS | TG_VARIANT) { bin_op(c, 3); }
OP(xy_mul, PM_ALL, TG_ALIAS | TG_VARIANT) { bin_op(c, 4); }
OP(xy_operators, PM_ALL, TG_ALIAS) { bin_op(c, 5); }
OP(xy_mul_scalar, PM_ANY, TG_ALIAS)
{
    zz_pXY a = rand_xy(c, c.len(3, 6, 14, 40), c.len(3, 5, 10, 20)), a0 = a, r; zz_p s = c.el(c.style()); c.soil(r);
    if (c.alias(1)) { c.call([&] { mul(a, a, s); }); r = a; } else { c.pin(a); c.call([&] { mul(r, a, s); }); }
    c.out(r);
    if (c.oracle) { Grid G = grid(a0); for (auto & v : G) for (auto & x : v) x = rep(to_zz_p(x) * s); c.check(same(r, ungrid(G)), "bivariate scalar product: wrong"); }
}
OP(xy_shift_trunc, PM_ANY, TG_ALIAS)
{
    long n = c.len(3, 6, 14, 40), m = c.len(3, 5, 10, 20); zz_pXY a = rand_xy(c, n, m), a0 = a, r; int w = (int) c.below(4);
    long i = w < 2 ? c.range(-(w == 0 ? n : m) - 2, (w == 0 ? n : m) + 2) : c.range(0, (w == 2 ? n : m) + 2); c.soil(r);
    auto f = [&](zz_pXY & x, const zz_pXY & y) { switch (w) { case 0: shift_x(x, y, i); break; case 1: shift_y(x, y, i); break; case 2: trunc_x(x, y, i); break; default: trunc_y(x, y, i); } };
    if (c.alias(1)) { c.call([&] { f(a, a); }); r = a; } else { c.pin(a); c.call([&] { f(r, a); }); }
    c.out(r);
    if (c.oracle) {
        Grid A = grid(a0), G; long sx = w == 0 ? i : 0, sy = w == 1 ? i : 0;
        for (long y = 0; y < (long) A.size(); y++) for (long x = 0; x < (long) A[y].size(); x++) { if ((w == 2 && x >= i) || (w == 3 && y >= i)) continue; long Y = y + sy, X = x + sx; if (X < 0 || Y < 0) continue; if ((long) G.size() <= Y) G.resize(Y + 1); if ((long) G[Y].size() <= X) G[Y].resize(X + 1, 0); G[Y][X] = A[y][x]; }
        c.check(same(r, ungrid(G)), w == 0 ? "shift_x: wrong" : w == 1 ? "shift_y: wrong" : w == 2 ? "trunc_x: wrong" : "trunc_y: wrong");
    }
}
OP(xy_access, PM_ANY, 0)
{
    long n = c.len(3, 6, 14, 40), m = c.len(3, 5, 10, 20); zz_pXY a = rand_xy(c, n, m), a0 = a, b; Vec<zz_pX> v = a.rep; long pad = c.range(0, 3); v.SetLength(v.length() + pad); for (long i = v.length() - pad; i < v.length(); i++) clear(v[i]);
    long k = c.range(0, m + 2), td = 0, dx = 0, dy = 0, z = 0, eq = 0, ne = 0; zz_pX cf = c.coin(0.3) ? zz_pX() : c.poly(n), ev, c1; zz_p pt = c.el(0); c.soil(ev); c.pin(v); c.pin(cf); zz_pXY s, t;
    c.call([&] { zz_pXY w(v); td = w.tdeg(); dx = w.degX(); dy = w.degY(); z = w.is_zero(); evaluate(ev, w, pt); eq = w == a; ne = w != a; b = w; SetCoeff(b, k, cf); s = zz_pXY(cf); t = w; t.zero(); });
    c.out(td); c.out(dx); c.out(dy); c.out(z); c.out(ev); c.out(eq); c.out(ne); c.out(b); c.out(s); c.out(t);
    if (c.oracle) {
        Grid A = grid(a0); long rtd = -1, rdx = -1; zz_pX e; for (size_t y = 0; y < A.size(); y++) { zz_p q, pw; q = 0; pw = 1; for (size_t x = 0; x < A[y].size(); x++) { if (A[y][x]) { rtd = std::max(rtd, (long) (x + y)); rdx = std::max(rdx, (long) x); } q += to_zz_p(A[y][x]) * pw; pw *= pt; } NTL::SetCoeff(e, y, q); }
        Grid B = A; if ((long) B.size() <= k) B.resize(k + 1); B[k].clear(); for (long j = 0; j <= deg(cf); j++) B[k].push_back(rep(coeff(cf, j)));
        c.check(td == rtd && dx == rdx && dy == (long) A.size() - 1 && (z != 0) == A.empty() && eq && !ne && ev == e && canon(ev) && same(b, ungrid(B)) && t.rep.length() == 0, "bivariate access: wrong");
        c.check(s.rep.length() == (IsZero(cf) ? 0 : 1) && (IsZero(cf) || s.rep[0] == cf), "bivariate constructor from a univariate polynomial: wrong");
    }
}
OP(xy_kronecker, PM_ANY, 0)
{
    long n = c.len(3, 6, 14, 40), m = c.len(3, 5, 10, 20), st = n - 1 + c.range(0, 3); zz_pXY a = rand_xy(c, n, m), b; zz_pX k, k2; Vec<zz_pX> v; bool asvec = c.coin(); c.soil(k); c.soil(v); c.soil(b); c.pin(a);
    c.call([&] { if (asvec) { to_kronecker(k, a.rep, st); from_kronecker(v, k, st); } else { to_kronecker(k, a, st); from_kronecker(b, k, st); } });
    c.out(k); if (asvec) c.out(v); else c.out(b);
    if (c.oracle) { zz_pX e; for (long i = 0; i < a.rep.length(); i++) e += LeftShift(a.rep[i], i * (st + 1)); if (asvec) { b = zz_pXY(); b.rep = v; } c.check(k == e && canon(k) && same(b, a), "kronecker substitution: wrong or not undone"); }
}
OP(xy_random, PM_ANY, TG_RANDOM | TG_LV)
{
    long dx = c.range(1, c.len(3, 6, 14, 40)), dy = c.range(1, c.len(3, 5, 10, 20)); zz_pXY a; c.soil(a);
    c.call([&] { random_zz_pXY(a, dx, dy); });
    c.out(a);
    if (c.oracle) { bool ok = a.rep.length() <= dy; for (long i = 0; i < a.rep.length(); i++) ok = ok && deg(a.rep[i]) < dx; c.check(ok && canon_xy(a), "random bivariate polynomial: degree too large or leading zero coefficient"); }
}
static zz_pX ref_res(const zz_pXY & f, const zz_pXY & g)
{
    long a = f.rep.length() - 1, b = g.rep.length() - 1, n = a + b; Mat<zz_pX> S; if (n == 0) { zz_pX o; o = 1; return o; } S.SetDims(n, n);
    for (long i = 0; i < b; i++) for (long j = 0; j <= a; j++) S[i][i + a - j] = f.rep[j];
    for (long i = 0; i < a; i++) for (long j = 0; j <= b; j++) S[b + i][i + b - j] = g.rep[j];
    return ref_det(S);
}
OP(xy_resultant, PM_BIG, TG_RANDOM | TG_LV)
{
    long n = c.len(2, 3, 5, 8), m = c.len(2, 3, 4, 5); zz_pXY f = nz_xy(c, c.range(1, n), 1 + c.range(0, m)), g = nz_xy(c, c.range(1, n), 1 + c.range(0, m)); zz_pX r; long s = 0;
    if (c.coin(0.25)) { zz_pX u = c.poly_exact(c.range(0, 1)); long z = c.range(1, 3); for (long k = 0; k < z; k++) { zz_pX lin; SetX(lin); u *= lin - to_zz_p(c.below(5)); } zz_pXY & h = c.coin() ? f : g; h.rep[h.rep.length() - 1] = u; f.normalize(); g.normalize(); } if (c.coin(0.06)) (c.coin() ? f : g).rep.SetLength(0);      // leading coefficient with small roots
    c.soil(r); c.pin(f); c.pin(g);
    c.call([&] { s = resultant(r, f, g); });
    c.out(s); if (s) c.out(r);
    if (c.oracle) c.check(!s || (canon(r) && r == (f.rep.length() && g.rep.length() ? ref_res(f, g) : zz_pX())), "resultant: reported success with a wrong resultant");
}
static bool scalar_multiple(const zz_pX & a, const zz_pX & b) { if (IsZero(a) || IsZero(b)) return IsZero(a) && IsZero(b); return deg(a) == deg(b) && a * LeadCoeff(b) == b * LeadCoeff(a); }
static void villard(Ctx & c, bool td)
{
    long m = c.len(2, 4, 8, 12), d = td ? m : c.range(1, c.len(2, 3, 4, 5));      // (the tdeg variant is for polynomials dense up to their total degree)
    zz_pXY f, g; f.rep = c.pvec(m + 1, d + 1, 0); g.rep = c.pvec(m + 1, d + 1, 0);
    if (td) for (long i = 0; i <= m; i++) { f.rep[i] = trunc(f.rep[i], m + 1 - i); g.rep[i] = trunc(g.rep[i], m + 1 - i); }
    if (IsZero(f.rep[m])) f.rep[m] = c.nz(); if (IsZero(g.rep[m])) g.rep[m] = c.nz();
    zz_pX r; long s = 0; c.soil(r); c.pin(f); c.pin(g);
    c.call([&] { s = td ? resultant_villard_tdeg(r, f, g) : resultant_villard(r, f, g); });
    c.out(s); if (s) c.out(r);
    if (c.oracle) c.check(!s || (canon(r) && scalar_multiple(r, ref_res(f, g))), "resultant (Villard): reported success, but not a multiple of the resultant by a constant");
}
OP(xy_resultant_villard, PM_60, TG_RANDOM | TG_MC) { villard(c, false); }
OP(xy_resultant_villard_tdeg, PM_60, TG_RANDOM | TG_MC) { villard(c, true); }

// ---------------------------------------------------------------- sequences over zz_p[x] / x^d
namespace {
typedef Vec<Vec<zz_pX>> MSeq;
zz_pX tr(const zz_pX & a, long d) { return d < 0 ? a : trunc(a, d); }
Vec<zz_pX> ref_seqmul(const Vec<zz_pX> & S, const zz_pXY & f, long d)      // (f . S)_i = sum_t f_t S_{i+t}
{ Vec<zz_pX> r; long dy = f.rep.length() - 1; if (dy < 0) { r.SetLength(S.length()); return r; } r.SetLength(std::max(0L, S.length() - dy)); for (long i = 0; i < r.length(); i++) { for (long t = 0; t <= dy; t++) r[i] += f.rep[t] * S[i + t]; r[i] = tr(r[i], d); } return r; }
bool all0(const Vec<zz_pX> & S) { for (long i = 0; i < S.length(); i++) if (!IsZero(S[i])) return false; return true; }
Vec<zz_pX> comp(const MSeq & S, long j) { Vec<zz_pX> v; v.SetLength(S.length()); for (long i = 0; i < S.length(); i++) v[i] = S[i][j]; return v; }
bool cancels(const MSeq & S, const zz_pXY & f, long d) { if (!S.length()) return true; for (long j = 0; j < S[0].length(); j++) if (!all0(ref_seqmul(comp(S, j), f, d))) return false; return true; }
// sequence of length len whose terms obey a linear recurrence of order o modulo x^d
MSeq recurrent(Ctx & c, long len, long tau, long o, long d, zz_pXY & rec)
{
    rec.rep.SetLength(o + 1); for (long i = 0; i < o; i++) rec.rep[i] = c.poly(d); rec.rep[o] = 1;
    MSeq S; S.SetLength(len); int st = (int) c.below(4);
    for (long i = 0; i < len; i++) { S[i].SetLength(tau); for (long j = 0; j < tau; j++) { zz_pX t; if (i < o) { t = st == 0 ? LeftShift(c.poly(d), c.range(0, d - 1)) : c.poly(d); } else for (long q = 0; q < o; q++) t -= rec.rep[q] * S[i - o + q][j]; S[i][j] = trunc(t, d); } }
    if (c.coin(0.06)) { long j = c.range(-1, tau - 1); for (long i = 0; i < len; i++) for (long q = 0; q < tau; q++) if (j < 0 || q == j) clear(S[i][q]); }
    return S;
}
}
OP(seq_products, PM_ANY, 0)
{
    long n = c.len(3, 6, 10, 20), L = c.len(4, 8, 14, 24), tau = c.range(1, 3), d = c.range(1, n + 1); MSeq S; S.SetLength(L); for (long i = 0; i < L; i++) S[i] = c.pvec(tau, n); Vec<zz_pX> V = comp(S, 0), T = c.pvec(c.range(1, L + 2), n), r1, r2; MSeq q1, q2, Tm; Tm.SetLength(c.range(1, L + 2)); for (long i = 0; i < Tm.length(); i++) Tm[i] = c.pvec(tau, n);
    zz_pXY f = nz_xy(c, n, c.range(1, L + 2)); zz_pX a = c.poly(n); int w = (int) c.below(5); long ix = 0; bool z = false; if (c.coin(0.2)) for (long i = 0; i < L; i++) clear(V[i]); c.pin(S); c.pin(V); c.pin(f); c.pin(a);
    c.call([&] { switch (w) { case 0: r1 = mul(V, a); q1 = mul(S, a); break; case 1: r1 = mul(V, f); q1 = mul(S, f); break; case 2: r1 = mulTrunc(V, a, d); q1 = mulTrunc(S, a, d); break; case 3: r1 = mulTrunc(V, f, d); q1 = mulTrunc(S, f, d); break; default: r1 = add(V, T); q1 = add(S, Tm); ix = index_non_zero(V); z = is_zero_seq(V); } });
    c.out(r1); c.out(q1); c.out(ix); c.out(z);
    if (c.oracle) {
        bool ok = true;
        for (long j = -1; j < tau && ok; j++) {
            Vec<zz_pX> s = j < 0 ? V : comp(S, j), e, got = j < 0 ? r1 : Vec<zz_pX>(); if (j >= 0) { for (long i = 0; i < q1.length(); i++) if (q1[i].length() != tau) ok = false; if (!ok) break; got = comp(q1, j); }
            if (w == 0 || w == 2) { e.SetLength(L); for (long i = 0; i < L; i++) e[i] = tr(s[i] * a, w == 2 ? d : -1); }
            else if (w == 1 || w == 3) e = ref_seqmul(s, f, w == 3 ? d : -1);
            else { const Vec<zz_pX> t = j < 0 ? T : comp(Tm, j); e.SetLength(std::min(s.length(), t.length())); for (long i = 0; i < e.length(); i++) e[i] = s[i] + t[i]; }
            ok = got == e;
        }
        if (w == 4) { long k = 0; while (k < L && IsZero(V[k])) k++; ok = ok && ix == k && z == (k == L); }
        c.check(ok, w == 4 ? "sequence sum or index of the first non-zero term: wrong" : "product of a sequence by a polynomial: wrong");
    }
}
OP(seq_check_cancel, PM_ALL, TG_VERIFY)
{
    long d = c.len(2, 4, 6, 10), o = c.len(1, 2, 4, 6), L = 2 * o + c.range(1, 4), tau = c.range(1, 3), k = c.range(1, 3); zz_pXY rec; MSeq S = recurrent(c, L, tau, o, d, rec); Vec<zz_pX> V = comp(S, 0); Vec<zz_pXY> gens; bool a = false, b = false, bad = c.coin(), full = c.coin(0.3);
    for (long i = 0; i < k; i++) { zz_pXY t = rec; zz_pX m = c.poly(d); if (IsZero(m)) m = 1; for (long j = 0; j < t.rep.length(); j++) t.rep[j] = trunc(t.rep[j] * m, d); long q = t.rep.length(); while (q > 0 && IsZero(t.rep[q - 1])) q--; t.rep.SetLength(q); gens.append(t); }
    if (bad) { long i = c.below(k); if (gens[i].rep.length() == 0) gens[i].rep.SetLength(1); gens[i].rep[c.below(gens[i].rep.length())] += LeftShift(zz_pX(1), c.below(d)) * c.nz(); long q = gens[i].rep.length(); while (q > 0 && IsZero(gens[i].rep[q - 1])) q--; gens[i].rep.SetLength(q); }
    long dd = full ? -1 : d; c.pin(S); c.pin(V); c.pin(gens);
    c.call([&] { a = full ? check_cancel(V, gens) : check_cancel(V, gens, d); b = full ? check_cancel(S, gens) : check_cancel(S, gens, d); });
    c.out(a); c.out(b);
    if (c.oracle) { bool ea = true, eb = true; for (long i = 0; i < k; i++) { ea = ea && all0(ref_seqmul(V, gens[i], dd)); eb = eb && cancels(S, gens[i], dd); } c.check(a == ea, "check_cancel: wrong answer for a sequence"); c.check(b == eb, "check_cancel: wrong answer for a sequence of vectors"); }
}
// smallest s such that some x^t y^s + (lower degree in y) cancels S modulo x^d
static long min_degree(const MSeq & S, long t, long d)
{
    long L = S.length(), tau = S[0].length();
    for (long s = 0; s < L; s++) {
        long eq = (L - s) * tau * d, un = s * d; Mat<zz_p> M, E; M.SetDims(eq, un); E.SetDims(eq, un + 1); long r = 0; bool zero = true;
        for (long i = 0; i < L - s; i++) for (long j = 0; j < tau; j++) for (long e = 0; e < d; e++, r++) {
            for (long q = 0; q < s; q++) for (long a = 0; a <= e; a++) { M[r][q * d + a] = coeff(S[i + q][j], e - a); E[r][q * d + a] = M[r][q * d + a]; }
            E[r][un] = e >= t ? coeff(S[i + s][j], e - t) : to_zz_p(0); zero = zero && E[r][un] == 0;
        }
        if (zero || (un > 0 && ref_rank(M) == ref_rank(E))) return s;
    }
    return L;
}
static void ann(Ctx & c, int what, const char * msg)    // 0 kurakin 1 modified 2 pmbasis 3 hnf
{
    long d = c.len(2, 4, 6, 8), o = c.len(1, 2, 3, 4), L = 2 * o + c.range(0, 3) , tau = c.range(1, 3); if (L < 2) L = 2; zz_pXY rec; MSeq S = recurrent(c, L, tau, o, d, rec); bool vec = what != 3 && c.coin(); if (what < 2 && !vec && tau > 1) tau = tau; Vec<zz_pX> V = comp(S, 0); Vec<zz_pXY> g; c.soil(g);
    c.pin(S); c.pin(V);
    c.call([&] { switch (what) { case 0: if (vec) kurakin(d, V, g); else kurakin(d, S, g); break; case 1: if (vec) modified_kurakin(d, V, g); else modified_kurakin(d, S, g); fill_in(d, g); break; case 2: if (vec) berlekamp_massey_pmbasis(d, V, g); else berlekamp_massey_pmbasis(d, S, g); break; default: berlekamp_massey_pmbasis_hnf(d, S, g); } });
    c.out(g);
    if (c.oracle) {
        bool ok = g.length() == (what < 2 ? d : L / 2 + 1);
        // the matrix approaches only look at the first L/2 shifts of the sequence
        MSeq S2 = S; if (vec) for (long i = 0; i < L; i++) S2[i].SetLength(1);
        for (long i = 0; ok && i < g.length(); i++) {
            ok = canon_xy(g[i]);
            if (!ok) break;
            if (what < 2) ok = cancels(S2, g[i], d) && g[i].rep.length() > 0 && g[i].rep[g[i].rep.length() - 1] == LeftShift(zz_pX(1), i);
            else { long e = L / 2; for (long j = 0; ok && j < S2[0].length(); j++) for (long q = 0; ok && q < e; q++) { zz_pX t; for (long k = 0; k < g[i].rep.length(); k++) t += g[i].rep[k] * S2[q + k][j]; ok = IsZero(trunc(t, d)); } }
        }
        c.check(ok, msg);
        if (ok && what == 0 && c.in.size <= 2 && d * L < 60) { long t = c.below(d); c.check(g[t].rep.length() - 1 == min_degree(S2, t, d), "kurakin: a generator is not of minimal degree"); }
    }
}
OP(seq_kurakin, PM_ALL, TG_VARIANT) { ann(c, 0, "kurakin: a generator does not cancel the sequence"); }
OP(seq_modified_kurakin, PM_ALL, TG_VARIANT) { ann(c, 1, "modified_kurakin: a generator does not cancel the sequence"); }
OP(seq_bm_pmbasis, PM_ALL, TG_VARIANT) { ann(c, 2, "berlekamp_massey_pmbasis: a generator does not cancel the sequence"); }
OP(seq_bm_hnf, PM_ALL, TG_VARIANT) { ann(c, 3, "berlekamp_massey_pmbasis_hnf: a generator does not cancel the sequence"); }
OP(seq_minpoly_nondegenerate, PM_ALL, TG_VARIANT)
{
    long d = c.len(1, 4, 8, 12), n = c.len(1, 2, 4, 8); Vec<zz_pX> S; Mat<zz_p> H; bool ok = false;
    for (long tries = 0; tries < 8 && !ok; tries++) {
        S.SetLength(2 * n); for (long i = 0; i < 2 * n; i++) S[i] = c.poly(c.range(0, d));
        H.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) H[i][j] = coeff(S[i + j], 0);
        ok = ref_rank(H) == n;
    }
    if (!ok) { S.SetLength(2); n = 1; S[0] = zz_pX(1); S[1] = c.poly(d); }
    zz_pXY P; c.soil(P); c.pin(S);
    c.call([&] { minpoly_nondegenerate(d, S, P); });
    c.out(P);
    if (c.oracle) {
        bool good = canon_xy(P) && P.rep.length() == n + 1 && IsOne(P.rep[n]);
        for (long i = 0; good && i < n; i++) { zz_pX t; for (long j = 0; j <= n; j++) t += P.rep[j] * S[i + j]; good = deg(P.rep[i]) < d && IsZero(trunc(t, d)); }
        c.check(good, "minpoly_nondegenerate: the polynomial does not cancel the sequence");
    }
}
OP(seq_bm_compressed, PM_60, TG_RANDOM | TG_MC)
{
    long d = c.len(2, 4, 6, 8), o = c.len(1, 2, 3, 4), L = 2 * o + 2 * c.range(0, 1), tau = c.range(1, 3); zz_pXY rec; MSeq S = recurrent(c, L, tau, o, d, rec); Vec<zz_pXY> g; c.soil(g); c.pin(S);
    c.call([&] { berlekamp_massey_pmbasis_compressed(d, S, g); });
    c.out(g);
    if (c.oracle) { bool ok = g.length() == L / 2 + 1; for (long i = 0; ok && i < g.length(); i++) { ok = canon_xy(g[i]); long e = L / 2; for (long j = 0; ok && j < tau; j++) for (long q = 0; ok && q < e; q++) { zz_pX t; for (long k = 0; k < g[i].rep.length(); k++) t += g[i].rep[k] * S[q + k][j]; ok = IsZero(trunc(t, d)); } } c.check(ok, "compressed berlekamp_massey: a generator does not cancel the sequence"); }
}
