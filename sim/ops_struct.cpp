// structured matrices over zz_p and zz_pX against dense matrices built from the definitions
#include "ops.h"
using namespace sim;

namespace {

enum : unsigned { RV = 1, RM = 2, LV = 4, LM = 8, DN = 16, ALLCAP = 31 };

Mat<zz_p> dmul(const Mat<zz_p> & a, const Mat<zz_p> & b)
{
    Mat<zz_p> r; r.SetDims(a.NumRows(), b.NumCols());
    for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < b.NumCols(); j++) { zz_p t; t = 0; for (long k = 0; k < b.NumRows(); k++) t += a[i][k] * b[k][j]; r[i][j] = t; }
    return r;
}
Vec<zz_p> dmv(const Mat<zz_p> & a, const Vec<zz_p> & v) { Vec<zz_p> r; r.SetLength(a.NumRows()); for (long i = 0; i < a.NumRows(); i++) { zz_p t; t = 0; for (long k = 0; k < v.length(); k++) t += a[i][k] * v[k]; r[i] = t; } return r; }
Vec<zz_p> dvm(const Mat<zz_p> & a, const Vec<zz_p> & v) { Vec<zz_p> r; r.SetLength(a.NumCols()); for (long j = 0; j < a.NumCols(); j++) { zz_p t; t = 0; for (long k = 0; k < v.length(); k++) t += a[k][j] * v[k]; r[j] = t; } return r; }
Mat<zz_p> dtr(const Mat<zz_p> & a) { Mat<zz_p> r; r.SetDims(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) r[j][i] = a[i][j]; return r; }
bool is_id(const Mat<zz_p> & a) { for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (a[i][j] != (i == j ? 1 : 0)) return false; return a.NumRows() == a.NumCols(); }

void rcdims(Ctx & c, long & r, long & k)
{
    r = c.dim(3, 12, 40, 90); k = c.dim(3, 12, 40, 90);
    int d = (int) c.below(6); if (d < 2) k = r; else if (d == 2) k = std::max<long>(1, r * c.range(2, 4) + c.range(-1, 1)); else if (d == 3) r = std::max<long>(1, k * c.range(2, 4) + c.range(-1, 1));
    if (c.coin(0.06)) r = 1; if (c.coin(0.06)) k = 1;
    if (c.in.size >= 1 && c.coin(0.05)) { r = c.range(70, 180); k = c.coin() ? r : c.range(60, 240); }       // beyond the Karatsuba range of the polynomial products
}

// makers: object plus its dense matrix from the documented definition
template <class T> struct Mk;
template <> struct Mk<hankel_lzz_p> { static const unsigned caps = ALLCAP;
    static hankel_lzz_p dims(Ctx & c, Mat<zz_p> & D, long r, long k) { Vec<zz_p> v = c.vec(r + k - 1); D.SetDims(r, k); for (long i = 0; i < r; i++) for (long j = 0; j < k; j++) D[i][j] = v[r + k - 2 - i - j]; hankel_lzz_p h; c.call([&] { h = hankel_lzz_p(v, r, k); }); return h; }
    static hankel_lzz_p make(Ctx & c, Mat<zz_p> & D) { long r, k; rcdims(c, r, k); return dims(c, D, r, k); } };
template <> struct Mk<toeplitz_lzz_p> { static const unsigned caps = ALLCAP;
    static toeplitz_lzz_p dims(Ctx & c, Mat<zz_p> & D, long r, long k) { Vec<zz_p> v = c.vec(r + k - 1); D.SetDims(r, k); for (long i = 0; i < r; i++) for (long j = 0; j < k; j++) D[i][j] = v[k - 1 + i - j]; toeplitz_lzz_p h; c.call([&] { h = toeplitz_lzz_p(v, r, k); }); return h; }
    static toeplitz_lzz_p make(Ctx & c, Mat<zz_p> & D) { long r, k; rcdims(c, r, k); return dims(c, D, r, k); } };
template <> struct Mk<lower_triangular_toeplitz_lzz_p> { static const unsigned caps = ALLCAP;
    static lower_triangular_toeplitz_lzz_p make(Ctx & c, Mat<zz_p> & D) { long r, k; rcdims(c, r, k); Vec<zz_p> v = c.vec(r); D.SetDims(r, r); for (long i = 0; i < r; i++) for (long j = 0; j < r; j++) if (i >= j) D[i][j] = v[i - j]; lower_triangular_toeplitz_lzz_p h; c.call([&] { h = lower_triangular_toeplitz_lzz_p(v); }); return h; } };
template <> struct Mk<circulant_row_lzz_p> { static const unsigned caps = ALLCAP;
    static circulant_row_lzz_p make(Ctx & c, Mat<zz_p> & D) { long r, k; rcdims(c, r, k); Vec<zz_p> v = c.vec(k); D.SetDims(r, k); for (long i = 0; i < r; i++) for (long j = 0; j < k; j++) D[i][j] = v[((i - j - 1) % k + k) % k]; circulant_row_lzz_p h; c.call([&] { h = circulant_row_lzz_p(v, r); }); return h; } };
template <> struct Mk<circulant_column_lzz_p> { static const unsigned caps = ALLCAP;
    static circulant_column_lzz_p make(Ctx & c, Mat<zz_p> & D) { long r, k; rcdims(c, r, k); Vec<zz_p> v = c.vec(r); D.SetDims(r, k); for (long i = 0; i < r; i++) for (long j = 0; j < k; j++) D[i][j] = v[((i - j) % r + r) % r]; circulant_column_lzz_p h; c.call([&] { h = circulant_column_lzz_p(v, k); }); return h; } };
void gens(Ctx & c, Mat<zz_p> & G, Mat<zz_p> & H, Mat<zz_p> & P, long & r, long & k) { rcdims(c, r, k); long al = c.range(1, 4); G = c.cmat(r, al); H = c.cmat(k, al); if (c.coin(0.04)) clear(c.coin() ? G : H); P = dmul(G, dtr(H)); }
template <> struct Mk<toeplitz_like_plus_lzz_p> { static const unsigned caps = ALLCAP;
    static toeplitz_like_plus_lzz_p make(Ctx & c, Mat<zz_p> & D) {   // Z1 M - M Z0 = G H^t
        Mat<zz_p> G, H, P; long r, k; gens(c, G, H, P, r, k); D.SetDims(r, k);
        for (long j = k - 1; j >= 0; j--) for (long i = 0; i < r; i++) D[(i - 1 + r) % r][j] = P[i][j] + (j + 1 < k ? D[i][j + 1] : to_zz_p(0));
        toeplitz_like_plus_lzz_p h; c.call([&] { h = toeplitz_like_plus_lzz_p(G, H); }); return h; } };
template <> struct Mk<toeplitz_like_minus_lzz_p> { static const unsigned caps = ALLCAP;
    static toeplitz_like_minus_lzz_p make(Ctx & c, Mat<zz_p> & D) {  // Z0 M - M Z1 = G H^t
        Mat<zz_p> G, H, P; long r, k; gens(c, G, H, P, r, k); D.SetDims(r, k);
        for (long i = 0; i < r; i++) for (long j = 0; j < k; j++) D[i][(j + 1) % k] = (i > 0 ? D[i - 1][j] : to_zz_p(0)) - P[i][j];
        toeplitz_like_minus_lzz_p h; c.call([&] { h = toeplitz_like_minus_lzz_p(G, H); }); return h; } };
template <> struct Mk<hankel_like_plus_lzz_p> { static const unsigned caps = ALLCAP;
    static hankel_like_plus_lzz_p make(Ctx & c, Mat<zz_p> & D) {     // Z1 M - M Z0^t = G H^t
        Mat<zz_p> G, H, P; long r, k; gens(c, G, H, P, r, k); D.SetDims(r, k);
        for (long j = 0; j < k; j++) for (long i = 0; i < r; i++) D[(i - 1 + r) % r][j] = P[i][j] + (j > 0 ? D[i][j - 1] : to_zz_p(0));
        hankel_like_plus_lzz_p h; c.call([&] { h = hankel_like_plus_lzz_p(G, H); }); return h; } };
template <> struct Mk<hankel_like_minus_lzz_p> { static const unsigned caps = ALLCAP;
    static hankel_like_minus_lzz_p make(Ctx & c, Mat<zz_p> & D) {    // Z0^t M - M Z1 = G H^t
        Mat<zz_p> G, H, P; long r, k; gens(c, G, H, P, r, k); D.SetDims(r, k);
        for (long i = r - 1; i >= 0; i--) for (long j = 0; j < k; j++) D[i][(j + 1) % k] = (i + 1 < r ? D[i + 1][j] : to_zz_p(0)) - P[i][j];
        hankel_like_minus_lzz_p h; c.call([&] { h = hankel_like_minus_lzz_p(G, H); }); return h; } };
zz_p square_root_of_order(Ctx & c, long n)       // order >= n of its square, chosen by the harness
{ for (;;) { zz_p r = c.nz(), q = r * r, t = q; bool ok = true; for (long i = 1; i < n && ok; i++) { if (t == 1) ok = false; t *= q; } if (ok) return r; } }
void cauchy_params(Ctx & c, zz_p & u, zz_p & v, zz_p & rho, long r, long k)
{
    zz_p a = square_root_of_order(c, 2 * (r + k) + 2); rho = a * a; u = c.coin() ? to_zz_p(1) : c.nz();
    for (;;) { v = c.nz(); zz_p x = u, y = v; bool ok = true; for (long i = 0; i < r + k && ok; i++) { ok = x != v && y != u; x *= rho; y *= rho; } if (ok) return; }
}
Mat<zz_p> cauchy_dense(const zz_p & u, const zz_p & v, const zz_p & rho, long r, long k)
{ Mat<zz_p> D; D.SetDims(r, k); zz_p x = u; for (long i = 0; i < r; i++) { zz_p y = v; for (long j = 0; j < k; j++) { D[i][j] = 1 / (x - y); y *= rho; } x *= rho; } return D; }
template <> struct Mk<cauchy_geometric_lzz_p> { static const unsigned caps = ALLCAP;
    static cauchy_geometric_lzz_p make(Ctx & c, Mat<zz_p> & D) { long r, k; rcdims(c, r, k); zz_p u, v, q; cauchy_params(c, u, v, q, r, k); D = cauchy_dense(u, v, q, r, k); cauchy_geometric_lzz_p h; c.call([&] { h = cauchy_geometric_lzz_p(u, v, q, r, k); }); return h; } };
template <> struct Mk<cauchy_like_geometric_lzz_p> { static const unsigned caps = ALLCAP;
    static cauchy_like_geometric_lzz_p dims(Ctx & c, Mat<zz_p> & D, long r, long k, long al, int st) {
        zz_p u, v, q; cauchy_params(c, u, v, q, r, k); D = cauchy_dense(u, v, q, r, k); Mat<zz_p> U = c.cmat(r, al, st), V = c.cmat(k, al, st), P; if (c.coin(0.02)) clear(c.coin() ? U : V); P = dmul(U, dtr(V));
        for (long i = 0; i < r; i++) for (long j = 0; j < k; j++) D[i][j] *= P[i][j];
        cauchy_like_geometric_lzz_p h; c.call([&] { h = cauchy_like_geometric_lzz_p(U, V, u, v, q); }); return h; }
    static cauchy_like_geometric_lzz_p make(Ctx & c, Mat<zz_p> & D) { long r, k; rcdims(c, r, k); return dims(c, D, r, k, c.range(1, 4), -1); } };
template <class M, class B> M mosaic(Ctx & c, Mat<zz_p> & D, long nb, long mb, const VecLong & rs, const VecLong & cs)
{
    Vec<Vec<B>> data; data.SetLength(nb); long R = 0, K = 0; for (long x : rs) R += x; for (long x : cs) K += x; D.SetDims(R, K);
    long r0 = 0; for (long i = 0; i < nb; i++) { data[i].SetLength(mb); long c0 = 0; for (long j = 0; j < mb; j++) { Mat<zz_p> d; data[i][j] = Mk<B>::dims(c, d, rs[i], cs[j]); for (long a = 0; a < rs[i]; a++) for (long b = 0; b < cs[j]; b++) D[r0 + a][c0 + b] = d[a][b]; c0 += cs[j]; } r0 += rs[i]; }
    M h; c.call([&] { h = M(data); }); return h;
}
template <class M, class B> M mosaic_any(Ctx & c, Mat<zz_p> & D, bool square)
{
    long nb = c.range(1, 3), mb = c.range(1, 3), R = 0, K = 0; VecLong rs, cs; for (long i = 0; i < nb; i++) { rs.push_back(c.dim(2, 6, 16, 36)); R += rs.back(); } for (long i = 0; i < mb; i++) { cs.push_back(c.dim(2, 6, 16, 36)); K += cs.back(); }
    if (square) { if (R > K) cs.back() += R - K; else rs.back() += K - R; }
    return mosaic<M, B>(c, D, nb, mb, rs, cs);
}
template <> struct Mk<mosaic_hankel_lzz_p> { static const unsigned caps = ALLCAP; static mosaic_hankel_lzz_p make(Ctx & c, Mat<zz_p> & D) { return mosaic_any<mosaic_hankel_lzz_p, hankel_lzz_p>(c, D, c.coin(0.3)); } };
template <> struct Mk<mosaic_toeplitz_lzz_p> { static const unsigned caps = ALLCAP; static mosaic_toeplitz_lzz_p make(Ctx & c, Mat<zz_p> & D) { return mosaic_any<mosaic_toeplitz_lzz_p, toeplitz_lzz_p>(c, D, c.coin(0.3)); } };
sylvester_lzz_p mk_sylv(Ctx & c, Mat<zz_p> & D, zz_pX & a, zz_pX & b)
{
    long da = c.dim(3, 8, 24, 50), db = c.dim(3, 8, 24, 50); if (c.coin(0.2)) db = da; a = c.poly_exact(da); b = c.poly_exact(db);
    if (c.coin(0.15)) { zz_pX g = c.poly_exact(1); a = c.poly_exact(da) * g; b = c.poly_exact(db) * g; }
    if (c.coin(0.15)) NTL::SetCoeff(a, 0, to_zz_p(0)); da = deg(a); db = deg(b);
    long n = da + db; D.SetDims(n, n);
    for (long i = 0; i < db; i++) for (long j = 0; j <= da; j++) D[i + j][i] = coeff(a, j);
    for (long i = 0; i < da; i++) for (long j = 0; j <= db; j++) D[i + j][db + i] = coeff(b, j);
    sylvester_lzz_p h; c.call([&] { h = sylvester_lzz_p(a, b); }); return h;
}
template <> struct Mk<sylvester_lzz_p> { static const unsigned caps = ALLCAP; static sylvester_lzz_p make(Ctx & c, Mat<zz_p> & D) { zz_pX a, b; return mk_sylv(c, D, a, b); } };

template <class T> void use_s(Ctx & c, const T & h, const Mat<zz_p> & D, bool chk, bool soil)
{
    long r = D.NumRows(), k = D.NumCols(); unsigned cap = Mk<T>::caps; int w; do w = (int) c.below(5); while (!(cap >> w & 1));
    Vec<zz_p> x, y; Mat<zz_p> A, B; bool dims = h.NumRows() == r && h.NumCols() == k; int al = c.alias(1); bool byval = c.coin(0.15);
    long p = c.coin(0.25) ? std::max<long>(1, std::min(r, k) / 4) : c.coin(0.2) ? std::max<long>(1, std::min(r, k) / 4 - 1) : c.range(0, 5); if (c.coin(0.1)) p = std::min<long>(30, std::max(r, k));
    if (soil) { c.soil(y); c.soil(B); }
    switch (w) {
    case 0: x = c.vec(k); if (al) { y = x; c.call([&] { h.mul_right(y, y); }); } else { PinScope ps(c); c.pin(x); if (byval) c.call([&] { y = h.mul_right(x); }); else c.call([&] { h.mul_right(y, x); }); } c.out(y); if (chk) c.check(dims && y == dmv(D, x), "mul_right: not the product of the dense matrix and the vector"); break;
    case 1: A = c.cmat(k, p); if (al) { B = A; c.call([&] { h.mul_right(B, B); }); } else { PinScope ps(c); c.pin(A); c.call([&] { h.mul_right(B, A); }); } c.out(B); if (chk) c.check(B == dmul(D, A), "mul_right: not the product of the dense matrix and the matrix"); break;
    case 2: x = c.vec(r); if (al) { y = x; c.call([&] { h.mul_left(y, y); }); } else { PinScope ps(c); c.pin(x); if (byval) c.call([&] { y = h.mul_left(x); }); else c.call([&] { h.mul_left(y, x); }); } c.out(y); if (chk) c.check(dims && y == dvm(D, x), "mul_left: not the product of the vector and the dense matrix"); break;
    case 3: A = c.cmat(p, r); if (al) { B = A; c.call([&] { h.mul_left(B, B); }); } else { PinScope ps(c); c.pin(A); c.call([&] { h.mul_left(B, A); }); } c.out(B); if (chk) c.check(B == dmul(A, D), "mul_left: not the product of the matrix and the dense matrix"); break;
    default: if (byval) c.call([&] { B = h.to_dense(); }); else c.call([&] { h.to_dense(B); }); c.out(B); if (chk) c.check(B == D, "to_dense: not the matrix of the definition");
    }
}
template <class T> void one_s(Ctx & c) { Mat<zz_p> D; T h = Mk<T>::make(c, D); use_s(c, h, D, c.oracle, true); if (c.coin(0.3)) use_s(c, h, D, c.oracle, true); }
template <class T> void hist_s(Ctx & c)
{
    c.oracle = true; const int NS = 3; std::unique_ptr<T> o[NS]; Mat<zz_p> D[NS];
    o[0].reset(new T(Mk<T>::make(c, D[0])));
    STEPS(c) {
        int i = (int) c.below(NS), j = (int) c.below(NS); if (!o[i]) i = 0;
        switch ((int) c.below(8)) {
        case 0: { Mat<zz_p> d; T h = Mk<T>::make(c, d); if (!o[j]) o[j].reset(new T); c.call([&] { *o[j] = h; }); D[j] = d; break; }
        case 1: if (!o[j]) c.call([&] { o[j].reset(new T(*o[i])); }); else c.call([&] { *o[j] = *o[i]; }); D[j] = D[i]; break;
        case 2: if (i) o[i].reset(); break;
        case 3: foreign_work(c); break;
        default: use_s(c, *o[i], D[i], true, false);
        }
    }
}
template <class T> struct ShS { T h; Mat<zz_p> D; };
template <class T> std::shared_ptr<void> mk_sh(Ctx & c) { auto s = std::make_shared<ShS<T>>(); s->h = Mk<T>::make(c, s->D); return s; }
template <class T> void use_sh(Ctx & c, void * o) { ShS<T> & s = *(ShS<T> *) o; use_s(c, s.h, s.D, false, false); }
} // namespace

#define STRUCT(nm, T) OP(st_##nm, PM_ALL, TG_VARIANT | TG_ALIAS) { one_s<T>(c); } OP(obj_##nm, PM_ALL, TG_OBJ | TG_NOSOIL) { hist_s<T>(c); } static sim::RegS rsx_##nm("s_" #nm, PM_ALL, mk_sh<T>, use_sh<T>);
STRUCT(hankel, hankel_lzz_p)
STRUCT(toeplitz, toeplitz_lzz_p)
STRUCT(lower_toeplitz, lower_triangular_toeplitz_lzz_p)
STRUCT(circulant_row, circulant_row_lzz_p)
STRUCT(circulant_column, circulant_column_lzz_p)
STRUCT(toeplitz_like_plus, toeplitz_like_plus_lzz_p)
STRUCT(toeplitz_like_minus, toeplitz_like_minus_lzz_p)
STRUCT(hankel_like_plus, hankel_like_plus_lzz_p)
STRUCT(hankel_like_minus, hankel_like_minus_lzz_p)
STRUCT(cauchy, cauchy_geometric_lzz_p)
STRUCT(cauchy_like, cauchy_like_geometric_lzz_p)
STRUCT(mosaic_hankel, mosaic_hankel_lzz_p)
STRUCT(mosaic_toeplitz, mosaic_toeplitz_lzz_p)
STRUCT(sylvester, sylvester_lzz_p)

OP(st_displacement, PM_ALL, TG_ALIAS)
{
    long r, k; rcdims(c, r, k); r = std::min<long>(r, 40); k = std::min<long>(k, 40); Mat<zz_p> A = c.cmat(r, k), A0 = A, B; int w = (int) c.below(4); c.soil(B);
    auto f = [&](Mat<zz_p> & o, const Mat<zz_p> & i) { if (w == 0) toeplitz_lzz_p_phi_plus(o, i); else if (w == 1) toeplitz_lzz_p_phi_minus(o, i); else if (w == 2) hankel_lzz_p_phi_plus(o, i); else hankel_lzz_p_phi_minus(o, i); };
    if (c.alias(1)) { c.call([&] { f(A, A); }); B = A; } else { c.pin(A); c.call([&] { f(B, A); }); }
    c.out(B);
    if (c.oracle) {
        bool ok = B.NumRows() == r && B.NumCols() == k; auto at = [&](long i, long j) { return i >= 0 && i < r && j >= 0 && j < k ? A0[i][j] : to_zz_p(0); };
        for (long i = 0; i < r && ok; i++) for (long j = 0; j < k && ok; j++) {
            zz_p l = w == 0 || w == 2 ? at((i - 1 + r) % r, j) : w == 1 ? at(i - 1, j) : at(i + 1, j);
            zz_p q = w == 0 ? at(i, j + 1) : w == 2 ? at(i, j - 1) : at(i, (j + 1) % k);
            ok = B[i][j] == l - q; }
        c.check(ok, "displacement: wrong entry");
    }
}
OP(st_cauchy_simple, PM_ALL, TG_ALIAS)      // products without the diagonal: M = diag(rho^-i) T
{
    Mat<zz_p> D; cauchy_geometric_lzz_p h = Mk<cauchy_geometric_lzz_p>::make(c, D); long r = D.NumRows(), k = D.NumCols(); zz_p s; s = 1; for (long i = 0; i < r; i++) { for (long j = 0; j < k; j++) D[i][j] *= s; s *= h.rho; }
    Vec<zz_p> x, y; Mat<zz_p> A, B; int al = c.alias(1), w = (int) c.below(4); if (w < 2) c.soil(y); else c.soil(B);
    if (w == 0) { x = c.vec(k); if (al) { y = x; c.call([&] { h.mul_right_simple(y, y); }); } else c.call([&] { h.mul_right_simple(y, x); }); }
    else if (w == 1) { x = c.vec(r); if (al) { y = x; c.call([&] { h.mul_left_simple(y, y); }); } else c.call([&] { h.mul_left_simple(y, x); }); }
    else if (w == 2) { A = c.cmat(k, c.range(1, 4)); if (al) { B = A; c.call([&] { h.mul_right_simple(B, B); }); } else c.call([&] { h.mul_right_simple(B, A); }); }
    else { A = c.cmat(c.range(1, 4), r); if (al) { B = A; c.call([&] { h.mul_left_simple(B, B); }); } else c.call([&] { h.mul_left_simple(B, A); }); }
    c.out(y); c.out(B);
    if (c.oracle) c.check(w == 0 ? y == dmv(D, x) : w == 1 ? y == dvm(D, x) : w == 2 ? B == dmul(D, A) : B == dmul(A, D), "cauchy product without diagonal: wrong result");
}
OP(st_generators, PM_ALL, 0)               // G H^t is the displacement of the matrix
{
    Mat<zz_p> D, G, H; int w = (int) c.below(3); c.soil(G); c.soil(H); std::string what;
    if (w == 0) { mosaic_hankel_lzz_p h = Mk<mosaic_hankel_lzz_p>::make(c, D); c.call([&] { h.phi_plus_generators(G, H); }); }
    else if (w == 1) { mosaic_toeplitz_lzz_p h = Mk<mosaic_toeplitz_lzz_p>::make(c, D); c.call([&] { h.phi_plus_generators(G, H); }); }
    else { sylvester_lzz_p h = Mk<sylvester_lzz_p>::make(c, D); c.call([&] { h.phi_plus_generators(G, H); }); }
    c.out(G); c.out(H);
    if (c.oracle) {
        long r = D.NumRows(), k = D.NumCols(); Mat<zz_p> P; bool ok = G.NumRows() == r && H.NumRows() == k && G.NumCols() == H.NumCols(); if (ok) P = dmul(G, dtr(H));
        for (long i = 0; i < r && ok; i++) for (long j = 0; j < k && ok; j++) { zz_p q; q = 0; if (w == 0) { if (j > 0) q = D[i][j - 1]; } else if (j + 1 < k) q = D[i][j + 1]; ok = P[i][j] == D[(i - 1 + r) % r][j] - q; }
        c.check(ok, "phi_plus_generators: G*H^t is not the displacement of the matrix");
    }
}
OP(st_mosaic_access, PM_ALL, 0)
{
    Mat<zz_p> D; bool hk = c.coin(); mosaic_hankel_lzz_p h; mosaic_toeplitz_lzz_p t; if (hk) h = Mk<mosaic_hankel_lzz_p>::make(c, D); else t = Mk<mosaic_toeplitz_lzz_p>::make(c, D);
    long nb = hk ? h.NumBlockRows() : t.NumBlockRows(), mb = hk ? h.NumBlockCols() : t.NumBlockCols(), bi = c.below(nb), bj = c.below(mb), i = c.below(D.NumRows()), j = c.below(D.NumCols()), rn = 0, cn = 0; Vec<zz_p> fc, lc, fr, lr; c.soil(fc); c.soil(lc); c.soil(fr); c.soil(lr); zz_p v;
    long r0 = 0, c0 = 0;
    c.call([&] { for (long a = 0; a < bi; a++) r0 += hk ? h.NumRows_of_block(a) : t.NumRows_of_block(a); for (long a = 0; a < bj; a++) c0 += hk ? h.NumCols_of_block(a) : t.NumCols_of_block(a);
        if (hk) { rn = h.NumRows_of_block(bi); cn = h.NumCols_of_block(bj); h.first_column_of_block(fc, bj); h.last_column_of_block(lc, bj); h.first_row_of_block(fr, bi); h.last_row_of_block(lr, bi); v = h(i, j); }
        else { rn = t.NumRows_of_block(bi); cn = t.NumCols_of_block(bj); t.first_column_of_block(fc, bj); t.last_column_of_block(lc, bj); t.first_row_of_block(fr, bi); t.last_row_of_block(lr, bi); v = t(i, j); } });
    c.out(fc); c.out(lc); c.out(fr); c.out(lr); c.out(v);
    if (c.oracle) {
        bool ok = v == D[i][j] && fc.length() == D.NumRows() && lc.length() == D.NumRows() && fr.length() == D.NumCols() && lr.length() == D.NumCols();
        for (long a = 0; ok && a < D.NumRows(); a++) ok = fc[a] == D[a][c0] && lc[a] == D[a][c0 + cn - 1];
        for (long a = 0; ok && a < D.NumCols(); a++) ok = fr[a] == D[r0][a] && lr[a] == D[r0 + rn - 1][a];
        c.check(ok, "mosaic access: wrong entry");
    }
}
static bool solvable(const Mat<zz_p> & D, const Vec<zz_p> & b)
{ Mat<zz_p> E; E.SetDims(D.NumRows(), D.NumCols() + 1); for (long i = 0; i < D.NumRows(); i++) { for (long j = 0; j < D.NumCols(); j++) E[i][j] = D[i][j]; E[i][D.NumCols()] = b[i]; } return ref_rank(E) == ref_rank(D); }
static void chk_solution(Ctx & c, const Mat<zz_p> & D, const Vec<zz_p> & b, const Vec<zz_p> & x, long r, const char * what)
{
    if (r == 0) { c.check(true, ""); return; }
    if (x.length() == 0) c.check(!solvable(D, b), what); else c.check(x.length() == D.NumCols() && dmv(D, x) == b, what);
}
static Vec<zz_p> rhs(Ctx & c, const Mat<zz_p> & D) { if (c.coin(0.04)) { Vec<zz_p> z; z.SetLength(D.NumRows()); return z; } return c.coin(0.6) ? dmv(D, c.vec(D.NumCols())) : c.vec(D.NumRows()); }
template <class M, class B> static void mosaic_solve(Ctx & c, const char * what)
{
    Mat<zz_p> D; M h = mosaic_any<M, B>(c, D, c.coin(0.6)); Vec<zz_p> b = rhs(c, D), x; c.pin(b); c.soil(x); long r = 0, ta = c.coin(0.4) ? c.range(1, 20) : -1;
    c.call([&] { r = h.solve(x, b, -1, ta); });
    c.out(r); if (r == 1) c.out(x);
    if (c.oracle) chk_solution(c, D, b, x, r, what);
}
OP(st_mosaic_hankel_solve, PM_ALL, TG_RANDOM | TG_LV | TG_KNOB) { mosaic_solve<mosaic_hankel_lzz_p, hankel_lzz_p>(c, "mosaic_hankel solve reported success with a wrong answer"); }
OP(st_mosaic_toeplitz_solve, PM_ALL, TG_RANDOM | TG_LV | TG_KNOB) { mosaic_solve<mosaic_toeplitz_lzz_p, toeplitz_lzz_p>(c, "mosaic_toeplitz solve reported success with a wrong answer"); }
OP(st_mosaic_hankel_inv, PM_ALL, TG_RANDOM | TG_LV | TG_KNOB)
{
    Mat<zz_p> D; mosaic_hankel_lzz_p h = mosaic_any<mosaic_hankel_lzz_p, hankel_lzz_p>(c, D, true); hankel_like_minus_lzz_p iv; long r = 0, ta = c.coin(0.4) ? c.range(1, 20) : -1; if (c.soiled()) { Mat<zz_p> d; iv = Mk<hankel_like_minus_lzz_p>::make(c, d); } Mat<zz_p> I;
    c.call([&] { r = h.inv(iv, -1, ta); if (r == 1) I = iv.to_dense(); });
    c.out(r); c.out(I);
    if (c.oracle) c.check(r == 0 || is_id(dmul(D, I)), "mosaic_hankel inv reported success with a wrong inverse");
}
OP(st_mosaic_toeplitz_inv, PM_ALL, TG_RANDOM | TG_LV | TG_KNOB)
{
    Mat<zz_p> D; mosaic_toeplitz_lzz_p h = mosaic_any<mosaic_toeplitz_lzz_p, toeplitz_lzz_p>(c, D, true); toeplitz_like_minus_lzz_p iv; long r = 0, ta = c.coin(0.4) ? c.range(1, 20) : -1; if (c.soiled()) { Mat<zz_p> d; iv = Mk<toeplitz_like_minus_lzz_p>::make(c, d); } Mat<zz_p> I;
    c.call([&] { r = h.inv(iv, -1, ta); if (r == 1) I = iv.to_dense(); });
    c.out(r); c.out(I);
    if (c.oracle) c.check(r == 0 || is_id(dmul(D, I)), "mosaic_toeplitz inv reported success with a wrong inverse");
}
static bool grp(const Mat<zz_p> & D, long & rk)      // generic rank profile
{
    rk = ref_rank(D); for (long k = 1; k <= rk; k++) { Mat<zz_p> S; S.SetDims(k, k); for (long i = 0; i < k; i++) for (long j = 0; j < k; j++) S[i][j] = D[i][j]; if (ref_rank(S) < k) return false; }
    return true;
}
OP(st_cauchy_like_inv, PM_ALL, TG_RANDOM | TG_LV | TG_KNOB | TG_VARIANT)
{
    long r = c.dim(3, 12, 30, 60), k = c.dim(3, 12, 30, 60); if (c.coin(0.6)) k = r; long al = c.coin(0.2) ? c.range(1, std::max<long>(1, std::min(r, k))) : c.range(1, 4);
    Mat<zz_p> D; cauchy_like_geometric_lzz_p h = Mk<cauchy_like_geometric_lzz_p>::dims(c, D, r, k, std::min<long>(al, 24), c.coin(0.7) ? 0 : -1), iv; long s = 0, ta = c.coin(0.5) ? c.range(1, 20) : -1; Mat<zz_p> I;
    bool self = c.alias(3) == 1; cauchy_like_geometric_lzz_p h2 = h;
    c.call([&] { s = self ? h2.invert_leading_principal_minor_grp(h2, -1, ta) : h.invert_leading_principal_minor_grp(iv, -1, ta); if (self) iv = h2; if (s == 1) I = iv.to_dense(); });
    c.out(s); c.out(I);
    if (c.oracle) {
        if (s == 1) { long q = I.NumRows(); Mat<zz_p> S; S.SetDims(q, q); bool ok = I.NumCols() == q && q <= std::min(r, k); for (long i = 0; ok && i < q; i++) for (long j = 0; j < q; j++) S[i][j] = D[i][j]; c.check(ok && is_id(dmul(S, I)) && q == ref_rank(D), "invert_leading_principal_minor_grp: not the inverse of the maximal leading minor"); }
        else { long rk; if (r <= 20) c.check(!grp(D, rk), "invert_leading_principal_minor_grp: refused a matrix of generic rank profile"); else c.check(true, ""); }
    }
}
OP(st_cauchy_like_inv_large, PM_ALL, TG_RANDOM | TG_LV | TG_KNOB | TG_HEAVY)   // recursive path
{
    long n = 200 + c.below(8); Mat<zz_p> D; cauchy_like_geometric_lzz_p h = Mk<cauchy_like_geometric_lzz_p>::dims(c, D, n, n + c.below(3), c.range(1, 2), 0), iv; long s = 0, ta = c.coin(0.5) ? c.range(1, 20) : -1; Vec<zz_p> b = c.vec(n), y, z;
    c.call([&] { s = h.invert_leading_principal_minor_grp(iv, -1, ta); if (s == 1 && iv.NumRows() == n) iv.mul_right(y, b); });
    c.out(s); c.out(y);
    if (c.oracle) { if (s == 1 && y.length() == n) { z.SetLength(n); for (long i = 0; i < n; i++) { zz_p t; t = 0; for (long j = 0; j < n; j++) t += D[i][j] * y[j]; z[i] = t; } c.check(z == b, "invert_leading_principal_minor_grp: wrong inverse on the recursive path"); } else c.check(true, ""); }
}
OP(st_cauchy_like_solve, PM_ALL, TG_RANDOM | TG_LV | TG_KNOB | TG_ALIAS)
{
    long r = c.dim(3, 12, 30, 60), k = c.dim(3, 12, 30, 60); if (c.coin(0.5)) k = r; Mat<zz_p> D; cauchy_like_geometric_lzz_p h = Mk<cauchy_like_geometric_lzz_p>::dims(c, D, r, k, c.range(1, 5), c.coin(0.7) ? 0 : -1); Vec<zz_p> b = rhs(c, D), b0 = b, x; c.soil(x); long s = 0, ta = c.coin(0.5) ? c.range(1, 20) : -1;
    if (c.alias(1)) { c.call([&] { s = h.solve_grp(b, b, -1, ta); }); x = b; } else { c.pin(b); c.call([&] { s = h.solve_grp(x, b, -1, ta); }); }
    c.out(s); if (s == 1) c.out(x);
    if (c.oracle) chk_solution(c, D, b0, x, s, "solve_grp reported success with a wrong answer");
}
static void sylv_solves(Ctx & c, sylvester_lzz_p & h, const Mat<zz_p> & D, bool sing, bool chk)
{
    long n = D.NumRows(), r = 0, p = c.range(1, 3), m = c.range(1, n); Vec<zz_p> b = c.vec(n), b0 = b, x; Mat<zz_p> B, B0, X; int al = c.alias(1);
    int w = (int) c.below(7); if (w < 2) c.soil(x); else c.soil(X);
    auto st = [&](bool ok, const char * what) { c.out(r); if (r) { c.out(x); c.out(X); } if (chk) { if (r == 0) c.check(sing, "sylvester: reported singular, but the matrix is invertible"); else c.check(ok, what); } };
    switch (w) {
    case 0: if (al) { c.call([&] { r = h.solve(b, b); }); x = b; } else c.call([&] { r = h.solve(x, b); }); st(!sing && (r == 0 || dmv(D, x) == b0), "sylvester solve: wrong solution"); break;
    case 1: if (al) { c.call([&] { r = h.solve_transpose(b, b); }); x = b; } else c.call([&] { r = h.solve_transpose(x, b); }); st(!sing && (r == 0 || dvm(D, x) == b0), "sylvester solve_transpose: wrong solution"); break;
    case 2: B = c.cmat(n, p); B0 = B; if (al) { c.call([&] { r = h.solve(B, B); }); X = B; } else c.call([&] { r = h.solve(X, B); }); st(!sing && (r == 0 || dmul(D, X) == B0), "sylvester solve: wrong matrix solution"); break;
    case 3: B = c.cmat(p, n); B0 = B; if (al) { c.call([&] { r = h.solve_transpose(B, B); }); X = B; } else c.call([&] { r = h.solve_transpose(X, B); }); st(!sing && (r == 0 || dmul(X, D) == B0), "sylvester solve_transpose: wrong matrix solution"); break;
    case 4: { toeplitz_like_minus_lzz_p iv; X.kill(); c.call([&] { r = h.inv(iv); if (r) X = iv.to_dense(); }); st(!sing && (r == 0 || is_id(dmul(D, X))), "sylvester inv: wrong inverse"); break; }
    case 5: { c.call([&] { r = h.top_right_block_inverse(X, m); });
        bool ok = true; if (r && chk) { Mat<zz_p> E; E.SetDims(n, m); for (long j = 0; j < m; j++) E[n - m + j][j] = 0;
            // columns n-m..n-1 of the inverse, first m rows
            Mat<zz_p> A = D, I; zz_p d; inv(d, I, A); ok = d != 0 && X.NumRows() == m && X.NumCols() == m; for (long i = 0; ok && i < m; i++) for (long j = 0; j < m; j++) ok = ok && X[i][j] == I[i][n - m + j]; }
        st(!sing && ok, "sylvester top_right_block_inverse: wrong block"); break; }
    default: c.call([&] { h.prepare_inverse(); }); r = 0; c.out(0);
    }
}
OP(st_sylvester_solve, PM_ALL, TG_ALIAS | TG_VARIANT)
{
    Mat<zz_p> D; zz_pX a, b; sylvester_lzz_p h = mk_sylv(c, D, a, b); bool sing = deg(GCD(a, b)) > 0; bool prep = c.coin(); if (prep) c.call([&] { h.prepare_inverse(); });
    if (c.oracle) c.check(true, "");
    sylv_solves(c, h, D, sing, c.oracle);
}
OP(obj_sylvester_solve, PM_ALL, TG_OBJ | TG_NOSOIL)
{
    c.oracle = true; Mat<zz_p> D; zz_pX a, b; sylvester_lzz_p h = mk_sylv(c, D, a, b); bool sing = deg(GCD(a, b)) > 0; c.check(true, "");
    STEPS(c) {
        switch ((int) c.below(8)) {
        case 0: { sylvester_lzz_p k; c.call([&] { k = h; }); c.call([&] { h = k; }); break; }
        case 1: { Mat<zz_p> E; zz_pX a2, b2; sylvester_lzz_p k = mk_sylv(c, E, a2, b2); c.call([&] { h = k; }); D = E; sing = deg(GCD(a2, b2)) > 0; break; }
        case 2: foreign_work(c); break;
        default: sylv_solves(c, h, D, sing, true);
        }
    }
}
struct ShSy { sylvester_lzz_p h; long n; };
static std::shared_ptr<void> mk_shsy(Ctx & c) { auto s = std::make_shared<ShSy>(); Mat<zz_p> D; zz_pX a, b; s->h = mk_sylv(c, D, a, b); s->n = D.NumRows(); if (c.coin(0.7)) s->h.prepare_inverse(); return s; }
static void use_shsy(Ctx & c, void * o)
{
    const ShSy & s = *(ShSy *) o; Vec<zz_p> b = c.vec(s.n), x; long r = 0; Mat<zz_p> B = c.cmat(s.n, 2), X;
    switch ((int) c.below(3)) { case 0: c.call([&] { r = s.h.solve(x, b); }); break; case 1: c.call([&] { r = s.h.solve_transpose(x, b); }); break; default: c.call([&] { r = s.h.solve(X, B); }); }
    c.out(r); c.out(x); c.out(X);
}
static sim::RegS rsx_sysolve("s_sylvester_solve", PM_ALL, mk_shsy, use_shsy);

// ================================================================= over zz_pX
namespace {
Vec<zz_pX> pmv(const Mat<zz_pX> & a, const Vec<zz_pX> & v) { Vec<zz_pX> r; r.SetLength(a.NumRows()); for (long i = 0; i < a.NumRows(); i++) { zz_pX t; for (long k = 0; k < v.length(); k++) t += a[i][k] * v[k]; r[i] = t; } return r; }
Vec<zz_pX> pvm(const Mat<zz_pX> & a, const Vec<zz_pX> & v) { Vec<zz_pX> r; r.SetLength(a.NumCols()); for (long j = 0; j < a.NumCols(); j++) { zz_pX t; for (long k = 0; k < v.length(); k++) t += a[k][j] * v[k]; r[j] = t; } return r; }
Vec<zz_pX> vtr(Vec<zz_pX> v, long s) { for (long i = 0; i < v.length(); i++) trunc(v[i], v[i], s); return v; }

template <class T> struct MkX;
void pdims(Ctx & c, long & r, long & k, long & d) { r = c.dim(2, 4, 9, 16); k = c.dim(2, 4, 9, 16); d = c.dim(3, 6, 16, 30); if (c.coin(0.4)) k = r; if (c.coin(0.1)) d = 1; if (c.coin(0.15)) r = k * c.range(1, 3) + c.below(2); }
template <> struct MkX<lower_triangular_toeplitz_lzz_pX> {
    static lower_triangular_toeplitz_lzz_pX make(Ctx & c, Mat<zz_pX> & D) { long r, k, d; pdims(c, r, k, d); Vec<zz_pX> v = c.pvec(r, d); D.SetDims(r, r); for (long i = 0; i < r; i++) for (long j = 0; j < r; j++) if (i >= j) D[i][j] = v[i - j]; lower_triangular_toeplitz_lzz_pX h; c.call([&] { h = lower_triangular_toeplitz_lzz_pX(v); }); return h; } };
template <> struct MkX<circulant_row_lzz_pX> {
    static circulant_row_lzz_pX make(Ctx & c, Mat<zz_pX> & D) { long r, k, d; pdims(c, r, k, d); Vec<zz_pX> v = c.pvec(k, d); D.SetDims(r, k); for (long i = 0; i < r; i++) for (long j = 0; j < k; j++) D[i][j] = v[((i - j - 1) % k + k) % k]; circulant_row_lzz_pX h; c.call([&] { h = circulant_row_lzz_pX(v, r); }); return h; } };
template <> struct MkX<toeplitz_like_minus_lzz_pX> {
    static toeplitz_like_minus_lzz_pX make(Ctx & c, Mat<zz_pX> & D) {
        long r, k, d, al = c.range(1, 3); pdims(c, r, k, d); Mat<zz_pX> G = c.pmat(r, al, d), H = c.pmat(k, al, d); if (c.coin(0.04)) clear(c.coin() ? G : H); Mat<zz_pX> P = ref_mulm(G, ref_transpose(H)); D.SetDims(r, k);
        for (long i = 0; i < r; i++) for (long j = 0; j < k; j++) { zz_pX t; if (i > 0) t = D[i - 1][j]; D[i][(j + 1) % k] = t - P[i][j]; }
        toeplitz_like_minus_lzz_pX h; c.call([&] { h = toeplitz_like_minus_lzz_pX(G, H); }); return h; } };
sylvester_lzz_pX mk_sylvX(Ctx & c, Mat<zz_pX> & D, bool inv0)
{
    long da = c.dim(2, 3, 7, 12), db = c.dim(2, 3, 7, 12), dx = c.dim(2, 4, 10, 20), dz = c.coin(0.7) ? dx : c.dim(2, 4, 10, 20); Vec<zz_pX> a, b;
    for (;;) {
        a = c.pvec(da + 1, dx, inv0 ? 0 : -1); b = c.pvec(db + 1, dz, inv0 ? 0 : -1);
        if (inv0) { NTL::SetCoeff(a[da], 0, c.nz()); NTL::SetCoeff(b[db], 0, c.nz()); zz_pX a0, b0; for (long i = 0; i <= da; i++) NTL::SetCoeff(a0, i, coeff(a[i], 0)); for (long i = 0; i <= db; i++) NTL::SetCoeff(b0, i, coeff(b[i], 0)); if (deg(GCD(a0, b0)) > 0) continue; }
        if (IsZero(a[da])) a[da] = c.poly_exact(c.below(dx)); if (IsZero(b[db])) b[db] = c.poly_exact(c.below(dz)); break;
    }
    long n = da + db; D.SetDims(n, n);
    for (long i = 0; i < db; i++) for (long j = 0; j <= da; j++) D[i + j][i] = a[j];
    for (long i = 0; i < da; i++) for (long j = 0; j <= db; j++) D[i + j][db + i] = b[j];
    sylvester_lzz_pX h; c.call([&] { h = sylvester_lzz_pX(a, b); }); return h;
}
template <> struct MkX<sylvester_lzz_pX> { static sylvester_lzz_pX make(Ctx & c, Mat<zz_pX> & D) { return mk_sylvX(c, D, false); } };

void use_x(Ctx & c, const structured_lzz_pX & h, const Mat<zz_pX> & D, bool chk, bool soil, bool halves = false)
{
    long r = D.NumRows(), k = D.NumCols(), d = c.dim(3, 6, 16, 30), s = c.range(1, d + 4), p = c.range(1, 3); int al = c.alias(1), w = (int) c.below(9);
    Vec<zz_pX> x, y; Mat<zz_pX> A, B; if (soil) { c.soil(y); c.soil(B); } bool dims = h.NumRows() == r && h.NumCols() == k;
    auto vin = [&](long n) { Vec<zz_pX> v = c.pvec(n, d); int z = (int) c.below(8); if (z == 0) for (long i = 0; i < n; i++) clear(v[i]); else if (z == 1) for (long i = 0; i < n / 2; i++) clear(v[i]); else if (z == 2) for (long i = n / 2; i < n; i++) clear(v[i]); else if (z == 3) { long q = c.below(n); for (long i = 0; i < n; i++) if (i != q) clear(v[i]); } return v; };
    switch (w) {
    case 0: case 1: { x = vin(k); auto f = [&](Vec<zz_pX> & o, const Vec<zz_pX> & i) { if (w == 0) h.mul_right(o, i); else h.mul_right_trunc(o, i, s); }; if (al) { y = x; c.call([&] { f(y, y); }); } else { PinScope ps(c); c.pin(x); c.call([&] { f(y, x); }); } c.out(y); if (chk) { Vec<zz_pX> e = pmv(D, x); if (w == 1) e = vtr(e, s); c.check(dims && y == e && canon(y), w ? "mul_right_trunc: not the truncated product" : "mul_right: not the product of the dense matrix and the vector"); } break; }
    case 2: case 3: { x = vin(r); auto f = [&](Vec<zz_pX> & o, const Vec<zz_pX> & i) { if (w == 2) h.mul_left(o, i); else h.mul_left_trunc(o, i, s); }; if (al) { y = x; c.call([&] { f(y, y); }); } else { PinScope ps(c); c.pin(x); c.call([&] { f(y, x); }); } c.out(y); if (chk) { Vec<zz_pX> e = pvm(D, x); if (w == 3) e = vtr(e, s); c.check(dims && y == e && canon(y), w == 3 ? "mul_left_trunc: not the truncated product" : "mul_left: not the product of the vector and the dense matrix"); } break; }
    case 4: case 5: { A = c.pmat(k, p, d); auto f = [&](Mat<zz_pX> & o, const Mat<zz_pX> & i) { if (w == 4) h.mul_right(o, i); else h.mul_right_trunc(o, i, s); }; if (al) { B = A; c.call([&] { f(B, B); }); } else { PinScope ps(c); c.pin(A); c.call([&] { f(B, A); }); } c.out(B); if (chk) { Mat<zz_pX> e = ref_mulm(D, A); if (w == 5) e = ref_trunc(e, s); c.check(B == e && canon(B), "structured matrix product: wrong result"); } break; }
    case 6: case 7: { A = c.pmat(p, r, d); auto f = [&](Mat<zz_pX> & o, const Mat<zz_pX> & i) { if (w == 6) h.mul_left(o, i); else h.mul_left_trunc(o, i, s); }; if (al) { B = A; c.call([&] { f(B, B); }); } else { PinScope ps(c); c.pin(A); c.call([&] { f(B, A); }); } c.out(B); if (chk) { Mat<zz_pX> e = ref_mulm(A, D); if (w == 7) e = ref_trunc(e, s); c.check(B == e && canon(B), "structured matrix left product: wrong result"); } break; }
    default: c.call([&] { h.to_dense(B); }); c.out(B); if (chk) c.check(B == D, "to_dense: not the matrix of the definition");
    }
}
template <class T> void prep(Ctx &, T &) { }
template <> void prep(Ctx & c, lower_triangular_toeplitz_lzz_pX & h) { long d = c.range(0, 30); c.call([&] { h.prepare_degree(d); }); }
template <> void prep(Ctx & c, circulant_row_lzz_pX & h) { long d = c.range(0, 30); c.call([&] { h.prepare_degree(d); }); }
template <class T> void one_x(Ctx & c) { Mat<zz_pX> D; T h = MkX<T>::make(c, D); long np = c.coin(0.5) ? 0 : c.range(1, 3); while (np--) prep(c, h); use_x(c, h, D, c.oracle, true); }
template <class T> void hist_x(Ctx & c)
{
    c.oracle = true; const int NS = 2; std::unique_ptr<T> o[NS]; Mat<zz_pX> D[NS];
    o[0].reset(new T(MkX<T>::make(c, D[0])));
    STEPS(c) {
        int i = (int) c.below(NS), j = (int) c.below(NS); if (!o[i]) i = 0;
        switch ((int) c.below(9)) {
        case 0: { Mat<zz_pX> d; T h = MkX<T>::make(c, d); if (!o[j]) o[j].reset(new T); c.call([&] { *o[j] = h; }); D[j] = d; break; }
        case 1: if (!o[j]) c.call([&] { o[j].reset(new T(*o[i])); }); else c.call([&] { *o[j] = *o[i]; }); D[j] = D[i]; break;
        case 2: foreign_work(c); break;
        case 3: case 4: prep(c, *o[i]); break;
        default: use_x(c, *o[i], D[i], true, false);
        }
    }
}
template <class T> struct ShX { T h; Mat<zz_pX> D; };
template <class T> std::shared_ptr<void> mk_shx(Ctx & c) { auto s = std::make_shared<ShX<T>>(); s->h = MkX<T>::make(c, s->D); if (c.coin(0.6)) prep(c, s->h); return s; }
template <class T> void use_shx(Ctx & c, void * o) { ShX<T> & s = *(ShX<T> *) o; use_x(c, s.h, s.D, false, false); }
} // namespace
#define STRUCTX(nm, T) OP(sx_##nm, PM_ALL, TG_VARIANT | TG_ALIAS) { one_x<T>(c); } OP(objx_##nm, PM_ALL, TG_OBJ | TG_NOSOIL) { hist_x<T>(c); } static sim::RegS rsy_##nm("sx_" #nm, PM_ALL, mk_shx<T>, use_shx<T>);
STRUCTX(lower_toeplitz, lower_triangular_toeplitz_lzz_pX)
STRUCTX(circulant_row, circulant_row_lzz_pX)
STRUCTX(toeplitz_like_minus, toeplitz_like_minus_lzz_pX)
STRUCTX(sylvester, sylvester_lzz_pX)

OP(sx_displacement, PM_ALL, TG_ALIAS)
{
    long r, k, d; pdims(c, r, k, d); Mat<zz_pX> A = c.pmat(r, k, d), A0 = A, B; int w = (int) c.below(2); c.soil(B);
    auto f = [&](Mat<zz_pX> & o, const Mat<zz_pX> & i) { if (w == 0) toeplitz_lzz_pX_phi_plus(o, i); else toeplitz_lzz_pX_phi_minus(o, i); };
    if (c.alias(1)) { c.call([&] { f(A, A); }); B = A; } else { c.pin(A); c.call([&] { f(B, A); }); }
    c.out(B);
    if (c.oracle) {
        bool ok = B.NumRows() == r && B.NumCols() == k; auto at = [&](long i, long j) { zz_pX z; return i >= 0 && i < r && j >= 0 && j < k ? A0[i][j] : z; };
        for (long i = 0; i < r && ok; i++) for (long j = 0; j < k && ok; j++) ok = B[i][j] == (w == 0 ? at((i - 1 + r) % r, j) - at(i, j + 1) : at(i - 1, j) - at(i, (j + 1) % k));
        c.check(ok, "displacement: wrong entry");
    }
}
OP(sx_sylvester_gens, PM_ALL, 0)
{
    Mat<zz_pX> D, G, H; c.soil(G); c.soil(H); sylvester_lzz_pX h = mk_sylvX(c, D, false); c.call([&] { h.phi_plus_generators(G, H); });
    c.out(G); c.out(H);
    if (c.oracle) { long n = D.NumRows(); Mat<zz_pX> P = ref_mulm(G, ref_transpose(H)); bool ok = P.NumRows() == n && P.NumCols() == n; for (long i = 0; i < n && ok; i++) for (long j = 0; j < n && ok; j++) { zz_pX q; if (j + 1 < n) q = D[i][j + 1]; ok = P[i][j] == D[(i - 1 + n) % n][j] - q; } c.check(ok, "phi_plus_generators: G*H^t is not the displacement of the matrix"); }
}
OP(sx_sylvester_inv, PM_ALL, TG_VARIANT)
{
    Mat<zz_pX> D, I; sylvester_lzz_pX h = mk_sylvX(c, D, true); long m = c.dim(4, 12, 30, 60); toeplitz_like_minus_lzz_pX iv; int w = (int) c.below(2);
    if (c.soiled()) { Mat<zz_pX> d; iv = MkX<toeplitz_like_minus_lzz_pX>::make(c, d); }
    c.call([&] { if (w == 0) h.newton_inv_trunc(iv, m); else h.high_precision_inv_trunc(iv, m); I = iv.to_dense(); });
    c.out(ref_trunc(I, m));
    if (c.oracle) c.check(ref_trunc(ref_mulm(D, ref_trunc(I, m)), m) == ref_ident(D.NumRows()), "sylvester inverse modulo x^m: product with the matrix is not the identity");
}

// ---------------------------------------------------------------- operands of the wrong size are refused
template <class T> static void ref_s(Ctx & c)
{
    Mat<zz_p> D; T h = Mk<T>::make(c, D); long r = D.NumRows(), k = D.NumCols(); Vec<zz_p> y; Mat<zz_p> B; int w = (int) c.below(4); long g = w % 2 == 0 || true ? (w < 2 ? k : r) : 0; do g = std::max(0L, (w < 2 ? k : r) + c.range(-3, 3)); while (g == (w < 2 ? k : r));
    Vec<zz_p> x = c.vec(g); Mat<zz_p> A = w == 1 ? c.cmat(g, c.range(1, 3)) : c.cmat(c.range(1, 3), g); bool al = c.coin(0.3); if (al) { y = x; B = A; } else { c.pin(x); c.pin(A); }
    bool ref = c.refused([&] { switch (w) { case 0: h.mul_right(y, al ? y : x); break; case 1: h.mul_right(B, al ? B : A); break; case 2: h.mul_left(y, al ? y : x); break; default: h.mul_left(B, al ? B : A); } });
    c.check(ref, "a structured matrix accepted an operand of the wrong size");
    use_s(c, h, D, true, false);
}
template <class T> static void ref_x(Ctx & c)
{
    Mat<zz_pX> D; T h = MkX<T>::make(c, D); long r = D.NumRows(), k = D.NumCols(); Vec<zz_pX> y; Mat<zz_pX> B; int w = (int) c.below(8); bool right = w % 4 < 2; long n = right ? k : r, g; do g = std::max(1L, n + c.range(-3, 3)); while (g == n); long d = c.range(1, 8), s = c.range(1, 8);
    Vec<zz_pX> x = c.pvec(g, d); Mat<zz_pX> A = right ? c.pmat(g, c.range(1, 3), d) : c.pmat(c.range(1, 3), g, d); bool al = c.coin(0.3); if (al) { y = x; B = A; } else { c.pin(x); c.pin(A); }
    const structured_lzz_pX & H = h; const Vec<zz_pX> & xi = al ? y : x; const Mat<zz_pX> & Ai = al ? B : A;
    bool ref = c.refused([&] { switch (w) { case 0: H.mul_right(y, xi); break; case 1: H.mul_right(B, Ai); break; case 2: H.mul_left(y, xi); break; case 3: H.mul_left(B, Ai); break; case 4: H.mul_right_trunc(y, xi, s); break; case 5: H.mul_right_trunc(B, Ai, s); break; case 6: H.mul_left_trunc(y, xi, s); break; default: H.mul_left_trunc(B, Ai, s); } });
    c.check(ref, "a structured matrix accepted an operand of the wrong size");
    use_x(c, h, D, true, false);
}
OP(refuse_s_hankel, PM_ALL, TG_REFUSE) { ref_s<hankel_lzz_p>(c); }
OP(refuse_s_toeplitz, PM_ALL, TG_REFUSE) { ref_s<toeplitz_lzz_p>(c); }
OP(refuse_s_lower_toeplitz, PM_ALL, TG_REFUSE) { ref_s<lower_triangular_toeplitz_lzz_p>(c); }
OP(refuse_s_circulant_row, PM_ALL, TG_REFUSE) { ref_s<circulant_row_lzz_p>(c); }
OP(refuse_s_circulant_column, PM_ALL, TG_REFUSE) { ref_s<circulant_column_lzz_p>(c); }
OP(refuse_s_toeplitz_like_plus, PM_ALL, TG_REFUSE) { ref_s<toeplitz_like_plus_lzz_p>(c); }
OP(refuse_s_toeplitz_like_minus, PM_ALL, TG_REFUSE) { ref_s<toeplitz_like_minus_lzz_p>(c); }
OP(refuse_s_mosaic_hankel, PM_ALL, TG_REFUSE) { ref_s<mosaic_hankel_lzz_p>(c); }
OP(refuse_s_mosaic_toeplitz, PM_ALL, TG_REFUSE) { ref_s<mosaic_toeplitz_lzz_p>(c); }
OP(refuse_s_sylvester, PM_ALL, TG_REFUSE) { ref_s<sylvester_lzz_p>(c); }
OP(refuse_x_lower_toeplitz, PM_ALL, TG_REFUSE) { ref_x<lower_triangular_toeplitz_lzz_pX>(c); }
OP(refuse_x_circulant_row, PM_ALL, TG_REFUSE) { ref_x<circulant_row_lzz_pX>(c); }
OP(refuse_x_toeplitz_like_minus, PM_ALL, TG_REFUSE) { ref_x<toeplitz_like_minus_lzz_pX>(c); }
OP(refuse_x_sylvester, PM_ALL, TG_REFUSE) { ref_x<sylvester_lzz_pX>(c); }
OP(refuse_mosaic, PM_ALL, TG_REFUSE | TG_RANDOM)
{
    Mat<zz_p> D; bool hk = c.coin(); mosaic_hankel_lzz_p h; mosaic_toeplitz_lzz_p t; if (hk) h = Mk<mosaic_hankel_lzz_p>::make(c, D); else t = Mk<mosaic_toeplitz_lzz_p>::make(c, D); long r = D.NumRows(), k = D.NumCols(); int w = r == k ? 0 : (int) c.below(2); bool ref; zz_p v; long s = 0;
    if (w == 0) { bool row = c.coin(); long i = row ? r + c.below(3) : c.below(r), j = row ? c.below(k) : k + c.below(3); ref = c.refused([&] { v = hk ? h(i, j) : t(i, j); }); }
    else { hankel_like_minus_lzz_p ih; toeplitz_like_minus_lzz_p it; ref = c.refused([&] { s = hk ? h.inv(ih) : t.inv(it); }); }
    c.out(s); c.check(ref, w ? "a mosaic matrix that is not square was inverted" : "an entry outside a mosaic matrix was returned");
    if (hk) use_s(c, h, D, true, false); else use_s(c, t, D, true, false);
}
