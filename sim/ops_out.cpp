// writers for computer algebra systems: a session of statements is written to a
// simulated sink, read back by a small reader, and written again to a failing sink
#include "ops.h"
#include <cstring>
#include <map>
#include <set>
using namespace sim;
using std::string;

namespace {
typedef Mat<zz_pX> PM;
typedef Mat<zz_p> CM;

// ------------------------------------------------------------ reader
struct Val { int kind = 0; ZZX f; std::vector<Val> l; string ring; long gf = -1; bool cst = true; };     // kind 0 polynomial / number, 1 list, 2 matrix
struct Bad { string why; };
struct Reader {
    bool magma; string t; size_t i = 0;
    std::map<string, string> rings;             // ring name -> its coefficient ring ("Z" or the name of a field)
    std::map<string, string> gens;              // generator -> ring
    std::map<string, long> fields;              // field name -> characteristic
    std::map<string, Val> vars;
    void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\t')) i++; }
    void wsn() { while (i < t.size() && isspace((unsigned char) t[i])) i++; }
    bool is(const char * s) { ws(); return t.compare(i, strlen(s), s) == 0; }
    bool eat(const char * s) { if (is(s)) { i += strlen(s); return true; } return false; }
    void need(const char * s) { if (!eat(s)) throw Bad{ string("expected '") + s + "' near '" + t.substr(i, 20) + "'" }; }
    bool alpha() { ws(); return i < t.size() && (isalpha((unsigned char) t[i]) || t[i] == '_'); }
    string ident() { if (!alpha()) throw Bad{ "expected a name near '" + t.substr(i, 20) + "'" }; size_t a = i; while (i < t.size() && (isalnum((unsigned char) t[i]) || t[i] == '_')) i++; return t.substr(a, i - a); }
    ZZ num() { ws(); size_t a = i; while (i < t.size() && isdigit((unsigned char) t[i])) i++; if (a == i) throw Bad{ "expected a number near '" + t.substr(i, 20) + "'" }; ZZ z; z = 0; for (size_t k = a; k < i; k++) { z *= 10; z += (t[k] - '0'); } return z; }
    string join(const string & a, const string & b) { if (a.empty()) return b; if (b.empty() || a == b) return a; throw Bad{ "mixes rings " + a + " and " + b }; }
    Val expr()
    {
        bool neg = false; ws(); if (eat("-")) neg = true; else eat("+");
        Val v = term(); if (neg) { if (v.kind) throw Bad{ "sign on a list" }; v.f = -v.f; }
        for (;;) { bool m; if (eat("+")) m = false; else if (eat("-")) m = true; else break; Val w = term(); if (v.kind || w.kind) throw Bad{ "sum of lists" }; v.f = m ? v.f - w.f : v.f + w.f; v.ring = join(v.ring, w.ring); }
        return v;
    }
    Val term() { Val v = factor(); while (eat("*")) { Val w = factor(); if (v.kind || w.kind) throw Bad{ "product of lists" }; v.f = v.f * w.f; v.ring = join(v.ring, w.ring); } return v; }
    Val factor()
    {
        Val v = atom();
        if (eat("^")) { if (v.kind) throw Bad{ "power of a list" }; ZZ e = num(); if (e > 100000) throw Bad{ "huge exponent" }; long n = conv<long>(e); if (deg(v.f) == 1 && v.f == ZZX(INIT_MONO, 1, 1)) { ZZX m; SetCoeff(m, n, 1); v.f = m; } else { ZZX m; m = 1; for (long k = 0; k < n; k++) m *= v.f; v.f = m; } }
        return v;
    }
    Val list() { need("["); Val v; v.kind = 1; wsn(); if (eat("]")) return v; for (;;) { wsn(); v.l.push_back(expr()); wsn(); if (eat("]")) return v; need(","); } }
    Val cast(const string & ring, Val v)
    {
        Val r; r.ring = ring;
        if (v.kind == 1) { for (size_t k = 0; k < v.l.size(); k++) { if (v.l[k].kind || deg(v.l[k].f) > 0 || !v.l[k].ring.empty()) throw Bad{ "coefficient list with non-constants" }; SetCoeff(r.f, (long) k, coeff(v.l[k].f, 0)); } return r; }
        if (v.kind == 2) throw Bad{ "cast of a matrix" };
        if (!v.ring.empty() && v.ring != ring) throw Bad{ "cast from " + v.ring + " to " + ring };
        r.f = v.f; return r;
    }
    Val atom()
    {
        wsn();
        if (is("(")) { need("("); wsn(); Val v = expr(); wsn(); need(")"); return v; }
        if (is("[")) return list();
        if (i < t.size() && isdigit((unsigned char) t[i])) { Val v; SetCoeff(v.f, 0, num()); return v; }
        if (is("-")) { need("-"); Val v = atom(); v.f = -v.f; return v; }
        string n = ident();
        if (n == "Matrix" || n == "matrix") {
            need("("); Val v; v.kind = 2; wsn();
            if (!is("[")) { string f = ident(); if (f == "GF") { need("("); v.gf = conv<long>(num()); need(")"); } else { if (!fields.count(f)) throw Bad{ "unknown field " + f }; v.gf = fields[f]; } need(","); wsn(); }
            Val l = list(); wsn(); need(")");
            size_t w = 0; for (size_t k = 0; k < l.l.size(); k++) { if (l.l[k].kind != 1) throw Bad{ "matrix row is not a list" }; if (k == 0) w = l.l[k].l.size(); else if (l.l[k].l.size() != w) throw Bad{ "ragged matrix" }; for (auto & e : l.l[k].l) v.ring = join(v.ring, e.ring); }
            v.l = l.l; return v;
        }
        if (n == "Parent" && magma) { need("("); string g = ident(); need(")"); need("!"); need("("); Val v = expr(); need(")"); if (!gens.count(g)) throw Bad{ "undeclared name " + g }; return cast(gens[g], v); }
        if (!magma && is(".parent")) { need(".parent"); need("("); need(")"); need("("); Val v = expr(); need(")"); if (!gens.count(n)) throw Bad{ "undeclared name " + n }; return cast(gens[n], v); }
        if (magma ? is("!") : is("(")) { if (magma) need("!"); if (!rings.count(n)) throw Bad{ "undeclared ring " + n }; Val v = atom(); return cast(n, v); }
        if (gens.count(n)) { Val v; SetCoeff(v.f, 1, 1); v.ring = gens[n]; return v; }
        if (vars.count(n)) return vars[n];
        throw Bad{ "undeclared name " + n };
    }
    void statement()
    {
        string n = ident(), g; bool dot = false;
        if (!magma && eat(".")) dot = true;
        if (dot || (magma && is("<"))) { need("<"); g = ident(); need(">"); }
        need(magma ? ":=" : "="); wsn();
        size_t back = i;
        if (alpha()) {
            string f = ident();
            if (f == "GF" && g.empty()) { need("("); long p = conv<long>(num()); need(")"); fields[n] = p; end(); return; }
            if (f == "PolynomialRing") { if (g.empty()) throw Bad{ "polynomial ring without generator" }; need("("); string k = ident(); if (k == "Integers") { need("("); need(")"); k = "Z"; } else if (!fields.count(k)) throw Bad{ "unknown field " + k }; need(")");
                for (auto x = gens.begin(); x != gens.end();) if (x->second == n) x = gens.erase(x); else ++x;      // the name of the ring is bound again
                rings[n] = k; gens[g] = n; end(); return; }
            i = back;
        }
        if (!g.empty()) throw Bad{ "generator of something that is not a ring" };
        vars[n] = expr(); end();
    }
    void end() { if (magma) { wsn(); need(";"); } ws(); if (!magma) { if (i < t.size() && t[i] != '\n') throw Bad{ "trailing text '" + t.substr(i, 20) + "'" }; } wsn(); }
};

// ------------------------------------------------------------ capturing
struct Capture {
    SimSink sink; std::streambuf * old; std::ios::fmtflags fl; std::ios::iostate st;
    Capture(long limit, int mode) { sink.limit = limit; sink.mode = mode; st = std::cout.rdstate(); std::cout.clear(); old = std::cout.rdbuf(&sink); fl = std::cout.flags(); }
    ~Capture() { std::cout.exceptions(std::ios::goodbit); std::cout.clear(); std::cout.rdbuf(old); std::cout.clear(); std::cout.flags(fl); }
};

typedef std::function<void()> Stm;
struct Item { Stm write; std::function<string(Reader &)> read; };      // read: empty string when what was read is the object

string same_poly(const Val & v, const zz_pX & f, const Reader & r, const string & ring, bool ringed)
{
    if (v.kind) return "not a polynomial";
    if (ringed) { if (v.ring != ring) return "read in ring '" + v.ring + "' instead of '" + ring + "'"; auto q = r.rings.find(ring); if (q == r.rings.end()) return "ring not declared"; auto k = r.fields.find(q->second); if (k == r.fields.end() || k->second != zz_p::modulus()) return "polynomial not over the current field"; }
    zz_pX g = conv<zz_pX>(v.f); for (long i = 0; i <= deg(v.f); i++) if (coeff(v.f, i) < 0 || coeff(v.f, i) >= zz_p::modulus()) return "coefficient out of range";
    return g == f ? "" : "polynomial differs";
}
string same_vec(const Val & v, const Vec<zz_p> & a)
{ if (v.kind != 1 || (long) v.l.size() != a.length()) return "wrong length"; for (long i = 0; i < a.length(); i++) { const Val & e = v.l[i]; if (e.kind || deg(e.f) > 0 || coeff(e.f, 0) != rep(a[i])) return "entry differs"; } return ""; }
template <class T> string same_ints(const Val & v, const Vec<T> & a)
{ if (v.kind != 1 || (long) v.l.size() != a.length()) return "wrong length"; for (long i = 0; i < a.length(); i++) { const Val & e = v.l[i]; if (e.kind || deg(e.f) > 0 || coeff(e.f, 0) != conv<ZZ>(a[i])) return "entry differs"; } return ""; }
string same_cmat(const Val & v, const CM & a)
{
    if (v.kind != 2) return "not a matrix"; if (v.gf != zz_p::modulus()) return "wrong field";
    if (a.NumRows() == 0) return (v.l.empty() || (v.l.size() == 1 && v.l[0].l.empty())) ? "" : "wrong shape";
    if ((long) v.l.size() != a.NumRows()) return "wrong shape"; for (long i = 0; i < a.NumRows(); i++) { string s = same_vec(v.l[i], a[i]); if (!s.empty()) return s; } return "";
}
string same_pvec(const Val & v, const Vec<zz_pX> & a, const Reader & r, const string & ring)
{ if (v.kind != 1 || (long) v.l.size() != a.length()) return "wrong length"; for (long i = 0; i < a.length(); i++) { string s = same_poly(v.l[i], a[i], r, ring, true); if (!s.empty()) return s; } return ""; }
string same_pmat(const Val & v, const PM & a, const Reader & r, const string & ring)
{ if (v.kind != 2 || (long) v.l.size() != a.NumRows()) return "wrong shape"; for (long i = 0; i < a.NumRows(); i++) { string s = same_pvec(v.l[i], a[i], r, ring); if (!s.empty()) return s; } return ""; }
string same_zzx(const Val & v, const ZZX & f, const Reader & r, const string & ring)
{ if (v.kind) return "not a polynomial"; if (v.ring != ring) return "read in ring '" + v.ring + "' instead of '" + ring + "'"; auto q = r.rings.find(ring); if (q == r.rings.end() || q->second != "Z") return "ring not declared over the integers"; return v.f == f ? "" : "polynomial differs"; }

// ------------------------------------------------------------ sessions
struct W {      // the two dialects behind one interface
    bool magma;
#define PML_W(T) void out(const T & v) const { if (magma) magma_output(v); else sage_output(v); } void assign(const T & v, const string & n) const { if (magma) magma_assign(v, n); else sage_assign(v, n); }
    PML_W(Vec<ZZ>) PML_W(Vec<long>) PML_W(Vec<unsigned long>) PML_W(Vec<zz_p>) PML_W(CM) PML_W(ZZX) PML_W(zz_pX) PML_W(Vec<zz_pX>) PML_W(PM)
#define PML_WV(T) void outv(const T & v, const string & x) const { if (magma) magma_output(v, x); else sage_output(v, x); } void assignv(const T & v, const string & x, const string & n) const { if (magma) magma_assign(v, x, n); else sage_assign(v, x, n); }
    PML_WV(ZZX) PML_WV(zz_pX) PML_WV(Vec<zz_pX>) PML_WV(PM)
    void init() const { if (magma) magma_init(); else sage_init(); }
    void initX() const { if (magma) magma_init_X(); else sage_init_X(); }
    void initZ() const { if (magma) magma_init_ZZX(); else sage_init_ZZX(); }
};
ZZ big(Ctx & c) { ZZ z; z = 0; long n = c.range(1, 5); for (long i = 0; i < n; i++) { z <<= 60; z += (long) (c.g.next() >> 4); } if (c.below(4) == 0) z = c.range(-2, 2); return c.coin() ? z : -z; }

void session(Ctx & c, bool magma)
{
    W w = { magma }; std::vector<std::shared_ptr<void>> keep; std::vector<Item> items;
    int order = (int) c.below(2);       // which ring is declared first
    const string U = "U", UZ = "UZ";
    string gv = c.coin() ? "y" : "T_1", gz = "Zt";     // generators declared by the user's own program
    long n = c.range(1, 2 + 3 * (c.in.size + 1)); const string asg = magma ? " := " : " = ", fin = magma ? ";\n" : "\n";
    for (long k = 0; k < n; k++) {
        string nm = "v" + std::to_string(k); Item it; int m = (int) c.below(3);       // 0: assign (default name); 1: assign with variable; 2: the user writes "name := <output>"
        long d = c.len(3, 8, 30, 60);
#define OBJ(T, e) auto h = std::make_shared<T>(e); keep.push_back(h); const T & o = *h; c.pin(o)
#define PLAIN(same) it.write = m == 2 ? Stm([=, &o] { std::cout << nm << asg; w.out(o); std::cout << fin; }) : Stm([=, &o] { w.assign(o, nm); }); it.read = [=, &o](Reader & r) { return same; }
        switch (c.below(10)) {
        case 0: { auto h = std::make_shared<Vec<ZZ>>(); keep.push_back(h); h->SetLength(c.range(0, d)); for (long q = 0; q < h->length(); q++) (*h)[q] = big(c); const Vec<ZZ> & o = *h; PLAIN(same_ints(r.vars[nm], o)); break; }
        case 1: { auto h = std::make_shared<Vec<long>>(); keep.push_back(h); h->SetLength(c.range(0, d)); for (long q = 0; q < h->length(); q++) (*h)[q] = c.below(3) ? (long) c.g.next() : c.range(-2, 2); const Vec<long> & o = *h; PLAIN(same_ints(r.vars[nm], o)); break; }
        case 2: { auto h = std::make_shared<Vec<unsigned long>>(); keep.push_back(h); h->SetLength(c.range(0, d)); for (long q = 0; q < h->length(); q++) (*h)[q] = c.below(3) ? (unsigned long) c.g.next() : c.below(3); const Vec<unsigned long> & o = *h; PLAIN(same_ints(r.vars[nm], o)); break; }
        case 3: { OBJ(Vec<zz_p>, c.vec(c.range(0, d))); PLAIN(same_vec(r.vars[nm], o)); break; }
        case 4: { OBJ(CM, c.cmat(c.range(0, 4), c.range(0, 4))); PLAIN(same_cmat(r.vars[nm], o)); break; }
        case 5: case 6: { OBJ(zz_pX, c.poly(c.range(0, d))); if (m == 1 || c.coin(0.3)) { if (m == 2) it.write = [=, &o] { std::cout << nm << asg; w.outv(o, gv); std::cout << fin; }; else it.write = [=, &o] { w.assignv(o, gv, nm); }; it.read = [=, &o](Reader & r) { return same_poly(r.vars[nm], o, r, "R", true); }; } else { PLAIN(same_poly(r.vars[nm], o, r, U, true)); } break; }
        case 7: { OBJ(Vec<zz_pX>, c.pvec(c.range(0, 5), c.range(0, d))); if (m == 1 || c.coin(0.3)) { if (m == 2) it.write = [=, &o] { std::cout << nm << asg; w.outv(o, gv); std::cout << fin; }; else it.write = [=, &o] { w.assignv(o, gv, nm); }; it.read = [=, &o](Reader & r) { return same_pvec(r.vars[nm], o, r, "R"); }; } else { PLAIN(same_pvec(r.vars[nm], o, r, U)); } break; }
        case 8: { OBJ(PM, c.pmat(c.range(0, 3), c.range(0, 3), c.range(0, d))); if (m == 1 || c.coin(0.3)) { if (m == 2) it.write = [=, &o] { std::cout << nm << asg; w.outv(o, gv); std::cout << fin; }; else it.write = [=, &o] { w.assignv(o, gv, nm); }; it.read = [=, &o](Reader & r) { return same_pmat(r.vars[nm], o, r, "R"); }; } else { PLAIN(same_pmat(r.vars[nm], o, r, U)); } break; }
        default: { auto h = std::make_shared<ZZX>(); keep.push_back(h); long dg = c.range(-1, d); for (long q = 0; q <= dg; q++) if (c.below(3)) SetCoeff(*h, q, big(c)); const ZZX & o = *h; if (m == 1 || c.coin(0.3)) { if (m == 2) it.write = [=, &o] { std::cout << nm << asg; w.outv(o, gz); std::cout << fin; }; else it.write = [=, &o] { w.assignv(o, gz, nm); }; it.read = [=, &o](Reader & r) { return same_zzx(r.vars[nm], o, r, "RZ"); }; } else { PLAIN(same_zzx(r.vars[nm], o, r, UZ)); } break; }
        }
        items.push_back(it);
    }
    std::vector<string> text; string full;
    auto head = [&] { w.init(); if (order) { w.initX(); w.initZ(); } else { w.initZ(); w.initX(); } };
    {   // fault-free session
        Capture cap(-1, 0);
        c.call([&] { head(); }); text.push_back(cap.sink.got);
        for (auto & it : items) { cap.sink.got.clear(); c.call([&] { it.write(); }); text.push_back(cap.sink.got); }
        c.check((bool) std::cout, "writer left the stream in a failed state");
    }
    for (auto & s : text) full += s;
    c.out(full);
    {
        Reader r; r.magma = magma; r.t = full; string why; size_t done = 0;
        try {
            size_t upto = text[0].size();
            while (r.i < upto) r.statement();
            // the rings the user declared for the generators passed as names
            if (!r.fields.count("k")) throw Bad{ "no field declared" };
            r.rings["R"] = "k"; r.gens[gv] = "R"; r.rings["RZ"] = "Z"; r.gens[gz] = "RZ";
            if (r.fields["k"] != zz_p::modulus()) throw Bad{ "field of the wrong characteristic" };
            for (; done < items.size(); done++) { upto += text[done + 1].size(); r.statement(); if (r.i != upto) throw Bad{ "more or less than one statement" }; why = items[done].read(r); if (!why.empty()) break; }
        } catch (const Bad & b) { why = b.why; }
        if (!why.empty()) { static thread_local char buf[140]; snprintf(buf, sizeof buf, "text does not read back (%s): %.50s", why.c_str(), done + 1 < text.size() ? text[done + 1].c_str() : ""); c.check(false, buf); return; }
        c.check(true, "reads back");
    }
    if (env().sink_fail >= 0) {     // the same session into a sink that fails at some byte, then recovers
        long lim = env().sink_fail % ((long) full.size() + 1); size_t st = 0, pos = text[0].size();
        Capture cap(lim, env().sink_mode);
        bool loud = c.coin(); if (loud) std::cout.exceptions(std::ios::badbit | std::ios::failbit);      // the user asked the stream to throw when it fails
        bool threw = false; auto guard = [&](const std::function<void()> & f) { try { f(); } catch (...) { if (!loud) throw; threw = true; } };
        c.call([&] { guard(head); });
        while ((long) pos <= lim && st < items.size() && !threw) { c.call([&] { guard(items[st].write); }); st++; pos += text[st].size(); }
        std::cout.exceptions(std::ios::goodbit);
        size_t g = cap.sink.got.size();
        c.check(full.compare(0, g, cap.sink.got) == 0, "text accepted by a failing sink is not a prefix of the text");
        if (env().sink_mode != 2) c.check((long) g >= std::min<long>(lim, (long) std::min(pos, full.size())), "text was given up before the sink failed");
        // once the sink works again and the user clears the stream, statements appear whole
        cap.sink.limit = -1; cap.sink.tripped = false; cap.sink.mode = 0; std::cout.clear(); cap.sink.got.clear();
        string rest; size_t from = items.empty() ? 0 : (size_t) c.below((long) items.size()); bool again = (from & 1) || items.empty() || lim < (long) text[0].size();
        if (again) { c.call([&] { head(); }); rest += text[0]; }      // a user whose first lines were lost writes them again
        for (size_t q = from; q < items.size(); q++) { c.call([&] { items[q].write(); }); rest += text[q + 1]; }
        c.check(cap.sink.got == rest, "text differs after the sink recovered");
    }
}
} // namespace

OP(out_magma, PM_ANY, TG_OUT) { session(c, true); }
OP(out_sage, PM_ANY, TG_OUT) { session(c, false); }
