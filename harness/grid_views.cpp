// Array arithmetic (P06), sub-grids (P07), transformed grids (P08), fields (P09), boundary geometry (P10).
#include "storage_common.hpp"
#include "grid/boundary.hpp"
#include <cmath>
long Tracked::live = 0;
template<class T, size_t R> using GC = Grid<T, R>;
template<class T, size_t R> using GF = Grid<T, R, GridNoArgCheck, SingleArrayGridStorageFortran>;
template<class T, size_t R> using GL = Grid<T, R, GridNoArgCheck, LazyArrayGridStorage>;
template<size_t R> std::pair<Idx<R>, Idx<R>> chooseBox(const std::vector<int> &los, int maxExt, int minExt = 1) {
  Idx<R> lo, hi; for (size_t d = 0; d < R; ++d) { lo[d] = mc::pick(los); hi[d] = lo[d] + mc::range(minExt, maxExt) - 1; } return {lo, hi};
}

// ---- P06 -----------------------------------------------------------------------------------------
template<class T, size_t L, template<size_t> class PA, template<size_t> class PB> void addArray(const std::string &n, std::vector<T> dom) {
  mc::add("P06." + n, [dom] {
    Array<T, L, PA> a, c; Array<T, L, PB> b; T s = mc::pick(dom);
    for (size_t i = 0; i < L; ++i) { a[i] = mc::pick(dom); b[i] = mc::pick(dom); }
    const T *none = nullptr; (void)none; T A[L], B[L]; for (size_t i = 0; i < L; ++i) { A[i] = a[i]; B[i] = b[i]; }
    { std::ostringstream o; o << "a="; for (auto x : A) o << x << " "; o << "b="; for (auto x : B) o << x << " "; o << "s=" << s; mc::op(o.str()); mc::sample(o.str()); mc::state(mc::hashStr(o.str())); }
#define CHK(expr, ref) do { c = expr; for (size_t i = 0; i < L; ++i) { T x = A[i], y = B[i]; T want = (ref); MC_REQUIRE(c[i] == want, "expr", #expr " element " << i << " = " << c[i] << " expected " << want); } \
    Array<T, L> viaCtor(expr); for (size_t i = 0; i < L; ++i) MC_REQUIRE(viaCtor[i] == c[i] && (expr)[i] == c[i], "expr", #expr " constructed value differs"); } while (0)
    bool bz = false, abz = false, sz = s == T(0); for (size_t i = 0; i < L; ++i) { bz |= B[i] == T(0); abz |= A[i] + B[i] == T(0); }
    CHK(a + b, x + y); CHK(a - b, x - y); CHK(a * b, x * y); if (!bz) CHK(a / b, x / y);
    CHK(a + s, x + s); CHK(s + a, s + x); CHK(a - s, x - s); CHK(s - a, s - x); CHK(a * s, x * s); CHK(s * b, s * y); if (!sz) CHK(a / s, x / s); if (!bz) CHK(s / b, s / y);
    CHK((a + b) + a, (x + y) + x); CHK(a + (b - a), x + (y - x)); CHK((a + b) * (a - b), (x + y) * (x - y)); CHK((a * b) - s, x * y - s); CHK(s - (a * b), s - x * y); CHK((a - b) * s, (x - y) * s); CHK(s * (a - b), s * (x - y)); CHK(s + (a + b), s + (x + y)); CHK((a + b) + s, x + y + s);
    CHK(a - (b - a), x - (y - x)); CHK((a - b) - (b - a), (x - y) - (y - x)); if (!abz) { CHK(a / (a + b), x / (x + y)); CHK((a * b) / (a + b), (x * y) / (x + y)); CHK(s / (a + b), s / (x + y)); } if (!sz) CHK((a + b) / s, (x + y) / s); if (!bz) CHK((a - b) / b, (x - y) / y);
    CHK(-a, -x); CHK(+a, x); CHK(-(a + b), -(x + y)); CHK(+(a - b), x - y); CHK((-a) * b, -x * y); CHK(a - (-b), x + y);
#define ASG(op, rhs, ref) do { c = a; auto &r = (c op rhs); for (size_t i = 0; i < L; ++i) { T x = A[i], y = B[i]; T want = (ref); MC_REQUIRE(c[i] == want && &r == &c, "assign", "c " #op " " #rhs " element " << i << " = " << c[i] << " expected " << want); } } while (0)
    ASG(=, b, y); ASG(+=, b, x + y); ASG(-=, b, x - y); ASG(*=, b, x * y); if (!bz) ASG(/=, b, x / y);
    ASG(+=, s, x + s); ASG(-=, s, x - s); ASG(*=, s, x * s); if (!sz) ASG(/=, s, x / s);
    ASG(+=, (a * b), x + x * y); ASG(-=, (a * b), x - x * y); ASG(*=, (a + b), x * (x + y)); if (!abz) ASG(/=, (a + b), x / (x + y));
    ASG(=, (c - b), x - y); ASG(=, (b - c), y - x); ASG(+=, (c * b), x + x * y); ASG(=, (c + c * b), x + x * y);
    bool eq = true, lt = true, le = true; T sum = 0, prod = 1, sq = 0; for (size_t i = 0; i < L; ++i) { eq &= A[i] == B[i]; lt &= A[i] < B[i]; le &= A[i] <= B[i]; sum += A[i]; prod *= A[i]; sq += A[i] * A[i]; }
    MC_REQUIRE((a == b) == eq && (a != b) == !eq, "compare", "equality"); MC_REQUIRE((a < b) == lt && (a <= b) == le, "compare", "ordering of every component");
    MC_REQUIRE(a.sum() == sum && a.product() == prod && a.sqr() == sq, "reduce", "sum/product/sqr = " << a.sum() << "/" << a.product() << "/" << a.sqr());
    Array<T, L, PB> conv(a); Array<T, L, PA> z = Array<T, L, PA>::Zero(), on = Array<T, L, PA>::Ones(), f(s); for (size_t i = 0; i < L; ++i) MC_REQUIRE(conv[i] == A[i] && z[i] == T(0) && on[i] == T(1) && f[i] == s, "construct", "copy/Zero/Ones/fill constructor");
    c = a; c.fill(s); for (size_t i = 0; i < L; ++i) MC_REQUIRE(c[i] == s, "construct", "fill"); c.clear(); for (size_t i = 0; i < L; ++i) MC_REQUIRE(c[i] == T(0), "construct", "clear");
    Array<double, L> dbl; dbl = a; for (size_t i = 0; i < L; ++i) MC_REQUIRE(dbl[i] == double(A[i]), "convert", "assignment to another element type");
    if constexpr (L > 1) { auto p = a.template project<L - 1>(); for (size_t i = 0; i + 1 < L; ++i) MC_REQUIRE(p[i] == A[i], "project", "project"); for (size_t k = 0; k < L; ++k) { auto q = a.projectDim(k); for (size_t i = 0; i + 1 < L; ++i) MC_REQUIRE(q[i] == A[i < k ? i : i + 1], "project", "projectDim(" << k << ")"); } }
    for (size_t i = 0; i < L; ++i) MC_REQUIRE(a[i] == A[i] && b[i] == B[i], "operand", "operand changed");
  });
}

// operands of different element types: the operator is applied in their common type, as for the elements themselves
template<class T, class U, size_t L, class E> __attribute__((noinline)) void mixed(const E &e, const double *w, const char *text) {
  Array<double, L> d, v(e); Array<T, L> ct; Array<U, L> cu; d = e; ct = e; cu = e;
  for (size_t i = 0; i < L; ++i) MC_REQUIRE(d[i] == w[i] && v[i] == w[i] && double(e[i]) == w[i] && (std::abs(w[i]) > 2e9 || (ct[i] == T(w[i]) && cu[i] == U(w[i]))), "mixed", text << " element " << i << " = " << d[i] << ", in the type of its operands " << ct[i] << "/" << cu[i] << ", expected " << w[i]);
}
// expressions that outlive the objects they were built from
template<class T, size_t L> __attribute__((noinline)) auto keep1(const Array<T, L> &a, T s) { T f = s + T(1); Array<T, L> local(a); return local + f; }
template<class T, size_t L> __attribute__((noinline)) auto keep2(const Array<T, L> &a, T s) { T f = s - T(1); Array<T, L> local(a); return f - (local + local); }
template<class T, class U, size_t L> __attribute__((noinline)) auto keep3(const Array<T, L> &a, const Array<U, L> &b) { Array<T, L> x(a); Array<U, L> y(b); auto sum = x + x; return sum * -y; }
__attribute__((noinline)) static void scribble() { volatile unsigned char z[512]; for (auto &c : z) c = 0xA5; }
template<class T, class U, size_t L> void addMixed(const std::string &n, std::vector<T> dt, std::vector<U> du) {
  mc::add("P06.mixed-" + n, [dt, du] {
    Array<T, L> a; Array<U, L> b; T s = mc::pick(dt); U u = mc::pick(du); T A[L]; U B[L];
    for (size_t i = 0; i < L; ++i) { a[i] = A[i] = mc::pick(dt); b[i] = B[i] = mc::pick(du); }
    { std::ostringstream o; o << "a="; for (auto x : A) o << x << " "; o << "b="; for (auto x : B) o << x << " "; o << "s=" << s << " u=" << u; mc::op(o.str()); mc::state(mc::hashStr(o.str())); }
    auto ok = [](double v) { return v != 0; };
#define MIX(expr, ref, cond) do { bool go = true; double w[L]; for (size_t i = 0; i < L; ++i) { T x = A[i]; U y = B[i]; (void)x; (void)y; go &= ok(cond); if (go) w[i] = (ref); } if (go) mixed<T, U, L>(expr, w, #expr); } while (0)
#define OPS(X, RX, Y, RY) MIX(X + Y, RX + RY, 1); MIX(X - Y, RX - RY, 1); MIX(X * Y, RX * RY, 1); MIX(X / Y, RX / RY, RY)
    OPS((a + a), (x + x), (b + b), (y + y)); OPS((b + b), (y + y), (a + a), (x + x)); OPS((a + a), (x + x), b, y); OPS((b + b), (y + y), a, x); OPS(a, x, (b + b), (y + y)); OPS(b, y, (a + a), (x + x));
    OPS(s, s, (b + b), (y + y)); OPS((b + b), (y + y), s, s); OPS(u, u, (a + a), (x + x)); OPS((a + a), (x + x), u, u);
    OPS((+a), x, (-b), (-y)); OPS((-b), (-y), (+a), x); OPS(((a + a) * (b + b)), ((x + x) * (y + y)), (a + a), (x + x)); OPS((a + a), (x + x), ((a + a) - (b + b)), ((x + x) - (y + y)));
#undef OPS
#undef MIX
    // compound assignment of arrays, scalars and expressions of the other type, as for the elements themselves
#define COMP1(W, X, C0, op, rhs, ref, cond) do { bool go = true; for (size_t i = 0; i < L; ++i) { T x = A[i]; U y = B[i]; (void)x; (void)y; go &= ok(cond); } if (go) { Array<W, L> c; c = X; auto &r = (c op rhs); for (size_t i = 0; i < L; ++i) { T x = A[i]; U y = B[i]; (void)x; (void)y; W w = C0; w op (ref); MC_REQUIRE(c[i] == w && &r == &c, "mixed", "c " #op " " #rhs " of another type, element " << i << " = " << c[i] << ", expected " << w); } } } while (0)
#define COMP(W, X, C0, rhs, ref) COMP1(W, X, C0, +=, rhs, ref, 1); COMP1(W, X, C0, -=, rhs, ref, 1); COMP1(W, X, C0, *=, rhs, ref, std::abs(double(C0) * double(ref)) < 9e18); COMP1(W, X, C0, /=, rhs, ref, ref)
    COMP(U, b, y, a, x); COMP(U, b, y, s, s); COMP(U, b, y, (a + a), (x + x)); COMP(U, b, y, (-a), (-x)); COMP(U, b, y, ((+a) * (+b)), (x * y)); COMP1(U, b, y, +=, ((+c) - a), (w - x), 1); COMP1(U, b, y, *=, ((+c) - a), (w - x), std::abs(double(y) * (double(y) - double(x))) < 9e18);
    COMP(T, a, x, b, y); COMP(T, a, x, u, u); COMP(T, a, x, (b + b), (y + y)); COMP(T, a, x, (-b), (-y)); COMP(T, a, x, ((+a) + (+b)), (x + y));
#undef COMP
#undef COMP1
    { auto e1 = keep1(a, s), e2 = keep2(b, u), e3 = keep3(a, b); scribble(); Array<double, L> d1, d2, d3; d1 = e1; d2 = e2; d3 = e3; for (size_t i = 0; i < L; ++i) MC_REQUIRE(d1[i] == double(A[i] + (s + T(1))) && d2[i] == double((u - U(1)) - (B[i] + B[i])) && d3[i] == double((A[i] + A[i]) * -B[i]), "stored", "an expression evaluated after the operands it was built from have gone"); }
    { bool eq = true, lt = true, le = true; for (size_t i = 0; i < L; ++i) { eq &= A[i] == B[i]; lt &= A[i] < B[i]; le &= A[i] <= B[i]; } MC_REQUIRE((a == b) == eq && (a != b) == !eq && (a < b) == lt && (a <= b) == le, "compare", "comparison of different element types"); }
    for (size_t i = 0; i < L; ++i) MC_REQUIRE(a[i] == A[i] && b[i] == B[i], "operand", "operand changed");
  });
}

// ---- P07 -----------------------------------------------------------------------------------------
template<class G, size_t R> void addSub(const std::string &n) {
  mc::add("P07." + n, [] {
    auto b = chooseBox<R>({-1, 2}, R == 1 ? 6 : R == 2 ? 4 : 2); Idx<R> lo = b.first, hi = b.second, sl, sh;
    for (size_t d = 0; d < R; ++d) { sl[d] = mc::range(lo[d], hi[d]); sh[d] = mc::range(sl[d], hi[d]); }
    G g(lo, hi); int k = 1; std::map<std::string, int> ref; forBox<R>(lo, hi, [&](const Idx<R> &p) { ref[str<R>(p)] = k; g[p] = k++; });
    int how = mc::choose(4); typedef SubGrid<G> S; std::unique_ptr<S> sp; G other(lo, hi); other = -1;
    mc::op("grid " + str<R>(lo) + ".." + str<R>(hi) + " window " + str<R>(sl) + ".." + str<R>(sh) + " built " + std::to_string(how));
    bool zero = true; for (size_t d = 0; d < R; ++d) zero &= sl[d] == 0;
    Idx<R> size; for (size_t d = 0; d < R; ++d) size[d] = sh[d] - sl[d] + 1;
    if (how == 0) sp.reset(new S(sl, sh, g)); else if (how == 1) sp.reset(new S(Range<int, R>(sl, sh), g)); else if (how == 2) { sp.reset(new S(lo, lo, other)); sp->resize(sl, sh); sp->setBaseGrid(g); } else if (zero) sp.reset(new S(size, g)); else { sp.reset(new S(lo, hi, g)); sp->resize(Range<int, R>(sl, sh)); }
    S &s = *sp; const S &c = s;
    auto all = [&](const char *when) {
      forBox<R>(lo, hi, [&](const Idx<R> &p) { MC_REQUIRE(g[p] == ref[str<R>(p)], "base", when << ": base grid at " << str<R>(p) << " holds " << g[p] << ", expected " << ref[str<R>(p)]); });
      forBox<R>(sl, sh, [&](const Idx<R> &p) { MC_REQUIRE(c[p] == ref[str<R>(p)] && s[p] == ref[str<R>(p)], "view", when << ": window at " << str<R>(p) << " shows " << c[p]); });
    };
    for (size_t d = 0; d < R; ++d) MC_REQUIRE(c.getLo(d) == sl[d] && c.getHi(d) == sh[d] && c.getDims(d) == size[d] && c.getLo()[d] == sl[d] && c.getHi()[d] == sh[d] && c.getDims()[d] == size[d], "bounds", "window bounds in dimension " << d);
    all("initially");
    forBox<R>(sl, sh, [&](const Idx<R> &p) { s[p] = ref[str<R>(p)] = k++; }); all("after writing the window");
    forBox<R>(lo, hi, [&](const Idx<R> &p) { g[p] = ref[str<R>(p)] = k++; }); all("after writing the base");
    { long cnt = 0; auto q = Range<int, R>(sl, sh); auto it2 = q.begin(); for (auto it = s.begin(); it != s.end(); ++it) { MC_REQUIRE(cnt < volume<R>(sl, sh), "iter", "window iterator runs past the end"); MC_REQUIRE(*it == ref[str<R>(*it2)], "iter", "window iterator order"); *it = ref[str<R>(*it2)] = k++; { auto same = s.begin(); for (long z = 0; z < cnt; ++z) ++same; MC_REQUIRE(it == same && !(it != same) && !(it == s.end()), "iter", "comparison of window iterators"); } ++it2; ++cnt; } MC_REQUIRE(cnt == volume<R>(sl, sh), "iter", "window iterator visits " << cnt); }
    { long cnt = 0; auto q = Range<int, R>(sl, sh); auto it2 = q.begin(); for (auto it = c.cbegin(); it != c.cend(); ++it) { MC_REQUIRE(cnt < volume<R>(sl, sh) && *it == ref[str<R>(*it2)], "iter", "const window iterator"); { auto same = c.cbegin(); for (long z = 0; z < cnt; ++z) ++same; MC_REQUIRE(it == same && !(it != same) && !(it == c.cend()), "iter", "comparison of const window iterators"); } ++it2; ++cnt; } MC_REQUIRE(cnt == volume<R>(sl, sh), "iter", "const window iterator visits " << cnt); }
    all("after writing through iterators");
    // combining window and grids touches exactly the window
    G add(sl, sh); forBox<R>(sl, sh, [&](const Idx<R> &p) { add[p] = k++; });
    s += add; forBox<R>(sl, sh, [&](const Idx<R> &p) { ref[str<R>(p)] += add[p]; }); all("after window += grid");
    s -= add; forBox<R>(sl, sh, [&](const Idx<R> &p) { ref[str<R>(p)] -= add[p]; }); all("after window -= grid");
    std::map<std::string, int> before; forBox<R>(sl, sh, [&](const Idx<R> &p) { before[str<R>(p)] = add[p]; }); add += s; forBox<R>(sl, sh, [&](const Idx<R> &p) { MC_REQUIRE(add[p] == before[str<R>(p)] + ref[str<R>(p)], "combine", "grid += window at " << str<R>(p)); });
    S s2(s); forBox<R>(sl, sh, [&](const Idx<R> &p) { s2[p] = ref[str<R>(p)] = k++; }); all("after writing a copied window");
    // windows of windows
    { SubGrid<S> ss(sl, sl, s); ss[sl] = ref[str<R>(sl)] = k++; } all("after writing a window of the window");
    mc::state(mc::hashStr(str<R>(lo) + str<R>(hi) + str<R>(sl) + str<R>(sh)) + how);
  });
}

// windows and transformed views of checked grids: an index outside the window (the box) is never followed
template<class V, class I, size_t... K> auto callAt(V &v, const I &p, std::index_sequence<K...>) -> decltype(v(p[K]...)) { return v(p[K]...); }
template<template<size_t> class BaseCheck, template<size_t> class OwnCheck, bool ownOnly, size_t R> void addSubChecked(const std::string &n) {
  mc::add("P07.checked-" + n, [] {
    Idx<R> lo, hi, sl, sh, p; for (size_t d = 0; d < R; ++d) { lo[d] = R > 1 && !mc::thorough() ? -1 + (int)d : mc::pick(std::vector<int>{-1, 1}); hi[d] = lo[d] + (R == 1 ? 4 : 2); sl[d] = mc::range(lo[d], hi[d]); sh[d] = mc::range(sl[d], hi[d]); p[d] = mc::range(lo[d] - 1, hi[d] + 1); }
    bool in = true; for (size_t d = 0; d < R; ++d) in &= p[d] >= sl[d] && p[d] <= sh[d]; int form = mc::choose(ownOnly ? 4 : 6);
    mc::op("checked window " + str<R>(sl) + ".." + str<R>(sh) + " of " + str<R>(lo) + ".." + str<R>(hi) + " access " + str<R>(p) + " form " + std::to_string(form));
    typedef Grid<int, R, BaseCheck> G; typedef SubGrid<G, OwnCheck> S; typedef std::make_index_sequence<R> Seq;
    auto access = [&]() -> int { G g(lo, hi); int k = 1; forBox<R>(lo, hi, [&](const Idx<R> &q) { g[q] = k++; }); S s(sl, sh, g); const S &c = s; typename S::IndexType q; for (size_t d = 0; d < R; ++d) q[d] = p[d];
      switch (form) { case 0: return s[q]; case 1: return c[q]; case 2: return callAt(s, q, Seq()); case 3: return callAt(c, q, Seq()); case 4: return s.get(q); default: return c.get(q); } };
    int want = 1, k = 1; forBox<R>(lo, hi, [&](const Idx<R> &q) { if (str<R>(q) == str<R>(p)) want = k; ++k; });
    if (in) { int v = access(); MC_REQUIRE(v == want, "checked", "in-window checked access returned " << v << " expected " << want); }
    else { auto r = mc::inChild([&](std::ostream &o) { o << access(); }); MC_REQUIRE(!r.exited && r.sig == 6, "outside", "access outside the window was not stopped (result " << r.out << ")"); }
    mc::state(mc::hashStr(str<R>(lo) + str<R>(sl) + str<R>(sh) + str<R>(p)) + form);
  });
}
template<size_t R> void addSubClamped(const std::string &n) {
  mc::add("P07.clamped-" + n, [] {
    Idx<R> lo, hi, sl, sh, p, q; for (size_t d = 0; d < R; ++d) { lo[d] = R > 1 && !mc::thorough() ? -1 + (int)d : mc::pick(std::vector<int>{-1, 1}); hi[d] = lo[d] + (R == 1 ? 4 : 2); sl[d] = mc::range(lo[d], hi[d]); sh[d] = mc::range(sl[d], hi[d]); p[d] = mc::range(lo[d] - 1, hi[d] + 1); q[d] = std::min(sh[d], std::max(sl[d], p[d])); }
    mc::op("debug-checked window " + str<R>(sl) + ".." + str<R>(sh) + " of " + str<R>(lo) + ".." + str<R>(hi) + " access " + str<R>(p));
    typedef Grid<int, R, GridDebugCheck> G; G g(lo, hi); std::map<std::string, int> ref; int k = 1; forBox<R>(lo, hi, [&](const Idx<R> &x) { ref[str<R>(x)] = k; g[x] = k++; }); SubGrid<G> s(sl, sh, g); const SubGrid<G> &c = s;
    MC_REQUIRE(s[p] == ref[str<R>(q)] && c[p] == ref[str<R>(q)], "clamp", "access at " << str<R>(p) << " reached " << s[p] << " (const " << c[p] << "), nearest cell of the window holds " << ref[str<R>(q)]);
    s[p] = ref[str<R>(q)] = 999; forBox<R>(lo, hi, [&](const Idx<R> &x) { MC_REQUIRE(g[x] == ref[str<R>(x)], "stray", "write through " << str<R>(p) << " changed cell " << str<R>(x)); });
    mc::state(mc::hashStr(str<R>(lo) + str<R>(sl) + str<R>(sh) + str<R>(p)));
  });
}

// ---- P08 -----------------------------------------------------------------------------------------
struct Affine { typedef double value_type; double a, b; Affine(double a_ = 1, double b_ = 0) : a(a_), b(b_) {} double operator()(int x) const { return a * x + b; } };
struct NonConst { typedef long value_type; long operator()(int x) { return long(x) * x * 1000000007L; } };
template<class G, size_t R> void addTransform(const std::string &n) {
  mc::add("P08." + n, [] {
    auto b = chooseBox<R>({-1, 2}, R <= 2 ? 4 : 2); Idx<R> lo = b.first, hi = b.second; G g0(lo, hi); int k = 3; forBox<R>(lo, hi, [&](const Idx<R> &p) { g0[p] = k; k += 2; });
    mc::op("grid " + str<R>(lo) + ".." + str<R>(hi)); Idx<R> lo2, hi2; for (size_t d = 0; d < R; ++d) { lo2[d] = lo[d] + 1; hi2[d] = hi[d] + 2; } G g1(lo2, hi2); forBox<R>(lo2, hi2, [&](const Idx<R> &p) { g1[p] = k++; }); G *g = &g0;
    typedef GridTransform<G, Affine> V; V t(*g); const V &c = t; GridTransform<G, NonConst> q(*g);
    double A = 1, B = 0; typedef decltype(t.begin()) It; typedef decltype(c.cbegin()) CIt; std::vector<It> its; std::vector<CIt> cits;   // iterators that stay in use while things change
    auto grab = [&] { its.clear(); cits.clear(); for (auto it = t.begin(); it != t.end() && (long)its.size() < volume<R>(lo, hi); ++it) its.push_back(it); for (auto it = c.cbegin(); it != c.cend() && (long)cits.size() < volume<R>(lo, hi); ++it) cits.push_back(it); };
    auto all = [&](const char *when) {
      for (size_t d = 0; d < R; ++d) MC_REQUIRE(c.getLo(d) == lo[d] && c.getHi(d) == hi[d] && c.getDims(d) == hi[d] - lo[d] + 1 && c.getLo()[d] == lo[d] && c.getHi()[d] == hi[d] && c.getDims()[d] == hi[d] - lo[d] + 1, "bounds", when << ": transformed grid bounds");
      forBox<R>(lo, hi, [&](const Idx<R> &p) { double want = A * (*g)[p] + B; double x = t[p], y = c[p]; MC_REQUIRE(x == want && y == want, "value", when << ": at " << str<R>(p) << " read " << x << "/" << y << " expected " << want); long qq = q[p]; MC_REQUIRE(qq == long((*g)[p]) * (*g)[p] * 1000000007L, "value", "second transformation"); });
      forBox<R>(lo, hi, [&](const Idx<R> &p) { for (const Idx<R> &o : {lo, hi}) {   // several reads in use at the same time
        const double &x = t[p], &y = t[o], &u = c[p], &v = c[o]; MC_REQUIRE(x == A * (*g)[p] + B && y == A * (*g)[o] + B && u == x && v == y, "together", when << ": read together, " << str<R>(p) << " gives " << x << " and " << str<R>(o) << " gives " << y);
        MC_REQUIRE(std::max(t[p], t[o]) == std::max(A * (*g)[p] + B, A * (*g)[o] + B) && std::min(t[o], t[p]) == std::min(A * (*g)[p] + B, A * (*g)[o] + B), "together", when << ": larger/smaller of the values at " << str<R>(p) << " and " << str<R>(o));
        if constexpr (R == 1) { const double &a = t(p[0]), &b = t(o[0]); MC_REQUIRE(a == x && b == y, "together", when << ": read together by index list"); } if constexpr (R == 2) { const double &a = t(p[0], p[1]), &b = t(o[0], o[1]); MC_REQUIRE(a == x && b == y, "together", when << ": read together by index list"); } } });
      long cnt = 0; auto src = g->begin(); for (auto it = t.begin(); it != t.end(); ++it, ++src) { double x = *it; MC_REQUIRE(x == A * *src + B, "iter", when << ": iterator"); auto same = t.begin(); for (long q = 0; q < cnt; ++q) ++same; MC_REQUIRE(it == same && !(it != same) && !(it == t.end()), "iter", when << ": comparison of iterators at position " << cnt); ++cnt; } MC_REQUIRE(cnt || t.begin() == t.end(), "iter", "empty range"); MC_REQUIRE(cnt == volume<R>(lo, hi), "iter", "iterator count");
      auto s2 = g->cbegin(); cnt = 0; for (auto it = c.cbegin(); it != c.cend(); ++it, ++s2) { double x = *it; MC_REQUIRE(x == A * *s2 + B, "iter", when << ": const iterator"); auto same = c.cbegin(); for (long q = 0; q < cnt; ++q) ++same; MC_REQUIRE(it == same && !(it != same) && !(it == c.cend()), "iter", when << ": comparison of const iterators at position " << cnt); ++cnt; } MC_REQUIRE(cnt == volume<R>(lo, hi), "iter", "const iterator count");
      auto s3 = g->begin(); for (auto &it : its) { double x = *it; MC_REQUIRE(x == A * *s3 + B, "iter", when << ": an iterator obtained before reads " << x << " expected " << A * *s3 + B); ++s3; } s3 = g->begin(); for (auto &it : cits) { double x = *it; MC_REQUIRE(x == A * *s3 + B, "iter", when << ": a const iterator obtained before reads " << x); ++s3; }
    };
    grab(); all("initially");
    for (int step = 0; step < 3; ++step) switch (mc::choose(R == 1 || mc::thorough() ? 6 : 5)) {
      case 0: A += 1.5; B -= 2; t.setTransformation(Affine(A, B)); mc::op("setTransformation"); all("after changing the transformation"); MC_REQUIRE(t.getTransformation().a == A && t.getTransformation().b == B, "get", "getTransformation"); break;
      case 1: forBox<R>(lo, hi, [&](const Idx<R> &p) { (*g)[p] = k++; }); mc::op("write base"); all("after writing the base"); break;
      case 2: { Grid<double, R> d(lo, hi); d = 1.0; d += t; forBox<R>(lo, hi, [&](const Idx<R> &p) { MC_REQUIRE(d[p] == 1.0 + A * (*g)[p] + B, "sum", "grid += transformed grid"); }); d -= t; forBox<R>(lo, hi, [&](const Idx<R> &p) { MC_REQUIRE(std::abs(d[p] - 1.0) < 1e-9, "sum", "grid -= transformed grid"); }); mc::op("combine"); all("after combining"); break; }
      case 3: { mc::op("resize base"); for (size_t d = 0; d < R; ++d) { --lo[d]; hi[d] += step == 1; } g->resize(lo, hi); forBox<R>(lo, hi, [&](const Idx<R> &p) { (*g)[p] = k++; }); its.clear(); cits.clear(); all("after resizing the base"); grab(); break; }
      case 4: { mc::op("other base"); g = g == &g0 ? &g1 : &g0; lo = g->getLo(); hi = g->getHi(); t.setBaseGrid(*g); q.setBaseGrid(*g); its.clear(); cits.clear(); all("after choosing another base grid"); grab(); break; }
      case 5: { mc::op("copy"); V u(t); const V &cu = u; double A2 = A, B2 = B; if (mc::flip()) u.setTransformation(Affine(A2 = 4, B2 = -1)); forBox<R>(lo, hi, [&](const Idx<R> &p) { (*g)[p] = k++; }); forBox<R>(lo, hi, [&](const Idx<R> &p) { double x = u[p], y = cu[p]; MC_REQUIRE(x == A2 * (*g)[p] + B2 && y == x, "copy", "copied transformed grid reads " << x); }); auto s4 = g->begin(); for (auto it = cu.cbegin(); it != cu.cend(); ++it, ++s4) MC_REQUIRE(double(*it) == A2 * *s4 + B2, "copy", "iterator of a copied transformed grid"); all("after copying the transformed grid"); }
    }
    mc::state(mc::hashStr(str<R>(lo) + str<R>(hi)));
  });
}

template<size_t R> void addTransformChecked(const std::string &n) {
  mc::add("P08.checked-" + n, [] {
    Idx<R> lo, hi, p; for (size_t d = 0; d < R; ++d) { lo[d] = mc::pick(std::vector<int>{-1, 1}); hi[d] = lo[d] + mc::choose(3); p[d] = mc::range(lo[d] - 1, hi[d] + 1); } bool in = true; for (size_t d = 0; d < R; ++d) in &= p[d] >= lo[d] && p[d] <= hi[d]; int form = mc::choose(4);
    mc::op("checked transformed grid " + str<R>(lo) + ".." + str<R>(hi) + " access " + str<R>(p) + " form " + std::to_string(form)); typedef GridTransform<GC<int, R>, Affine, GridAssertCheck> V; typedef std::make_index_sequence<R> Seq;
    auto access = [&]() -> double { GC<int, R> g(lo, hi); int k = 1; forBox<R>(lo, hi, [&](const Idx<R> &q) { g[q] = k++; }); V v(g); v.setTransformation(Affine(2, .5)); const V &c = v; typename V::IndexType q; for (size_t d = 0; d < R; ++d) q[d] = p[d];
      switch (form) { case 0: return v[q]; case 1: return c[q]; case 2: return callAt(v, q, Seq()); default: return callAt(c, q, Seq()); } };
    int want = 1, k = 1; forBox<R>(lo, hi, [&](const Idx<R> &q) { if (str<R>(q) == str<R>(p)) want = k; ++k; });
    if (in) { double v = access(); MC_REQUIRE(v == want * 2 + .5, "checked", "checked access returned " << v); } else { auto r = mc::inChild([&](std::ostream &o) { o << access(); }); MC_REQUIRE(!r.exited && r.sig == 6, "outside", "access outside the transformed grid was not stopped (result " << r.out << ")"); }
    mc::state(mc::hashStr(str<R>(lo) + str<R>(hi) + str<R>(p)) + form);
  });
}

// ---- P09 -----------------------------------------------------------------------------------------
template<template<typename, size_t> class St, size_t R> void addField(const std::string &n) {
  mc::add("P09." + n, [] {
    typedef Field<double, R, GridNoArgCheck, St> F;
    Idx<R> lo, hi; Array<double, R> dl, dh; Array<bool, R> st; int gc = mc::range(0, R == 3 ? 2 : 3);
    const double doms[3][2] = {{0, 1}, {-3, 5}, {0.25, 10.75}};
    for (size_t d = 0; d < R; ++d) { lo[d] = mc::pick(std::vector<int>{-2, 0, 3}); hi[d] = lo[d] + mc::range(1, R == 1 ? 6 : R == 2 ? 4 : 2) - 1; int k = R == 3 ? 1 : mc::choose(R == 1 ? 3 : 2); dl[d] = doms[k][0]; dh[d] = doms[k][1]; st[d] = mc::flip(); }
    Range<double, R> dom(dl, dh); Idx<R> size; bool zero = true; for (size_t d = 0; d < R; ++d) { size[d] = hi[d] - lo[d] + 1; zero &= lo[d] == 0; }
    mc::op("inner " + str<R>(lo) + ".." + str<R>(hi) + " ghosts " + std::to_string(gc));
    int how = mc::choose(zero ? 6 : 4); std::unique_ptr<F> fp;
    switch (how) { case 0: fp.reset(new F(lo, hi, dom, st, gc)); break; case 1: fp.reset(new F(Range<int, R>(lo, hi), dom, st, gc)); break; case 2: fp.reset(new F()); fp->resize(lo, hi, dom, st, gc); break; case 3: fp.reset(new F(Idx<R>(2), Range<double, R>(Array<double, R>(0.0), Array<double, R>(9.0)), Array<bool, R>(true), 1)); fp->resize(Range<int, R>(lo, hi), dom, st, gc); break; case 4: fp.reset(new F(size, dom, st, gc)); break; case 5: fp.reset(new F()); fp->resize(size, dom, st, gc); }
    F &orig = *fp; orig = 1.0; F copy(orig), asg; asg = orig;
    for (F *f : {&orig, &copy, &asg}) {
      for (size_t d = 0; d < R; ++d) {
        MC_REQUIRE(f->getLo(d) == lo[d] - gc && f->getHi(d) == hi[d] + gc, "extent", "storage extends " << f->getLo(d) << ".." << f->getHi(d));
        MC_REQUIRE(f->getInnerLo()[d] == lo[d] && f->getInnerHi()[d] == hi[d] && f->getInnerRange().getLo(d) == lo[d] && f->getInnerRange().getHi(d) == hi[d], "inner", "inner range");
        MC_REQUIRE(f->getStagger(d) == st[d] && f->getStagger()[d] == st[d] && f->getDomain().getLo()[d] == dl[d] && f->getDomain().getHi()[d] == dh[d], "meta", "stagger/domain");
        double h = (dh[d] - dl[d]) / size[d];
        for (int i = lo[d] - gc; i <= hi[d] + gc; ++i) {
          double want = dl[d] + (i - lo[d] + (st[d] ? 0.5 : 0.0)) * h, got = f->indexToPosition(d, i);
          MC_REQUIRE(std::abs(got - want) < 1e-12 * (1 + std::abs(want)), "position", "index " << i << " at " << got << " expected " << want);
          for (double fr : {0.0, 0.25, 0.5, 0.9375}) {
            double x = want + fr * h; int ix; double off; f->positionToIndex(d, x, ix, off); int ix2 = f->positionToIndex(d, x);
            MC_REQUIRE(off >= 0.0 && off <= 1.0, "offset", "offset " << off);
            MC_REQUIRE(std::abs((ix + off) - (i + fr)) < 1e-9, "locate", "position " << x << " located at " << ix << "+" << off << " expected " << i << "+" << fr);
            if (fr != 0.0) MC_REQUIRE(ix == i && ix2 == i, "floor", "position " << x << " has index " << ix << "/" << ix2 << " expected " << i);
            else { MC_REQUIRE(ix == ix2, "floor", "the two lookups disagree at " << x); MC_REQUIRE(ix == i || (ix == i - 1 && off > 1 - 1e-9), "floor", "grid point " << i << " located at " << ix); double ex = (dh[d] - dl[d]) / size[d]; int e; if (std::frexp(ex, &e) == 0.5) MC_REQUIRE(ix == i, "floor", "exactly representable grid point " << i << " located at " << ix << "+" << off); }
          }
        }
      }
    }
    // storage really covers inner and ghost cells and is shared between copies
    int k = 1; forBox<R>(orig.getLo(), orig.getHi(), [&](const Idx<R> &p) { orig[p] = k++; }); k = 1; forBox<R>(orig.getLo(), orig.getHi(), [&](const Idx<R> &p) { MC_REQUIRE(copy[p] == k && asg[p] == k, "share", "copies of a field see its data at " << str<R>(p)); ++k; });
    copy = 7.0; forBox<R>(orig.getLo(), orig.getHi(), [&](const Idx<R> &p) { MC_REQUIRE(orig[p] == 7.0, "fill", "filling covers ghost and inner cells"); });
    mc::state(mc::hashStr(str<R>(lo) + str<R>(hi)) + gc + 1000 * how);
  });
}

// ---- P10 -----------------------------------------------------------------------------------------
template<size_t R> void addBoundary(const std::string &n) {
  mc::add("P10." + n, [] {
    int delta = mc::range(0, 3); Idx<R> lo, hi;
    for (size_t d = 0; d < R; ++d) { lo[d] = mc::pick(std::vector<int>{-3, 0, 4}); hi[d] = lo[d] + 2 * delta + mc::range(delta ? delta : 1, (delta ? delta : 1) + (R == 1 ? 6 : R == 2 ? 3 : 1)) - 1; }
    mc::op("domain " + str<R>(lo) + ".." + str<R>(hi) + " delta " + std::to_string(delta));
    typedef Boundary<R> B; Range<int, R> dom(lo, hi); B b1(lo, hi, delta), b2(dom, delta);
    for (B *b : {&b1, &b2}) {
      MC_REQUIRE(b->getDelta() == delta, "delta", "delta");
      auto in = b->getInnerDomain(); for (size_t d = 0; d < R; ++d) MC_REQUIRE(b->getDomain().getLo(d) == lo[d] && b->getDomain().getHi(d) == hi[d] && in.getLo(d) == lo[d] + delta && in.getHi(d) == hi[d] - delta, "inner", "inner domain in dimension " << d);
      for (size_t d = 0; d < R; ++d) for (int side = 0; side < 2; ++side) {
        auto bd = side ? B::Max : B::Min; auto gh = b->getGhostDomain(d, bd), src = b->getGhostSourceDomain(d, bd);
        for (size_t e = 0; e < R; ++e) if (e != d) MC_REQUIRE(gh.getLo(e) == lo[e] && gh.getHi(e) == hi[e] && src.getLo(e) == lo[e] && src.getHi(e) == hi[e], "span", "ghost and source regions span the other dimensions");
        int wl = side ? hi[d] - delta + 1 : lo[d], sl = side ? hi[d] - 2 * delta + 1 : lo[d] + delta;
        MC_REQUIRE(gh.getLo(d) == wl && gh.getHi(d) == wl + delta - 1, "ghost", "ghost region " << gh.getLo(d) << ".." << gh.getHi(d));
        MC_REQUIRE(src.getLo(d) == sl && src.getHi(d) == sl + delta - 1, "source", "source region " << src.getLo(d) << ".." << src.getHi(d));
        for (int stg = 0; stg < 2; ++stg) { auto bo = b->getBoundaryDomain(d, bd, stg); int bl = wl, bh = wl + delta - 1 - ((!side && stg) ? 1 : 0); MC_REQUIRE(bo.getLo(d) == bl && bo.getHi(d) == bh, "staggered", "boundary region " << bo.getLo(d) << ".." << bo.getHi(d)); for (size_t e = 0; e < R; ++e) if (e != d) MC_REQUIRE(bo.getLo(e) == lo[e] && bo.getHi(e) == hi[e], "span", "boundary region"); }
      }
      // the ghost regions and the inner domain cover the domain; ghost regions of opposite sides and the inner domain are disjoint
      long covered = 0; forBox<R>(lo, hi, [&](const Idx<R> &p) { bool inner = in.inside(p), gho = false; for (size_t d = 0; d < R; ++d) { bool a = b->getGhostDomain(d, B::Min).inside(p), c = b->getGhostDomain(d, B::Max).inside(p); MC_REQUIRE(!(a && c), "overlap", "lower and upper ghost overlap"); gho |= a || c; } MC_REQUIRE(inner != gho, "cover", "cell " << str<R>(p) << " inner=" << inner << " ghost=" << gho); ++covered; });
      Grid<int, R> g(lo, hi); int k = 1; forBox<R>(lo, hi, [&](const Idx<R> &p) { g[p] = k++; });
      Array<bool, R> st; for (size_t d = 0; d < R; ++d) st[d] = d % 2 == 0; Array<double, R> z(0.0), o(1.0);
      Field<int, R> f(in, Range<double, R>(z, o), st, delta); k = 1; forBox<R>(lo, hi, [&](const Idx<R> &p) { f[p] = 1000 + k++; });
      if (delta > 0) for (size_t d = 0; d < R; ++d) for (int side = 0; side < 2; ++side) {
        auto bd = side ? B::Max : B::Min; auto gh = b->getGhostDomain(d, bd); auto s = b->getGhostBoundary(d, bd, g);
        for (size_t e = 0; e < R; ++e) MC_REQUIRE(s.getLo(e) == gh.getLo(e) && s.getHi(e) == gh.getHi(e), "subgrid", "ghost sub-grid extent");
        forBox<R>(gh.getLo(), gh.getHi(), [&](const Idx<R> &p) { MC_REQUIRE(s[p] == g[p], "subgrid", "ghost sub-grid value"); });
        auto bo = b->getBoundaryDomain(d, bd, st[d]); auto sf = b->getGhostBoundary(d, bd, f);
        for (size_t e = 0; e < R; ++e) MC_REQUIRE(sf.getLo(e) == bo.getLo(e) && sf.getHi(e) == bo.getHi(e), "subfield", "boundary sub-grid of a field");
        forBox<R>(bo.getLo(), bo.getHi(), [&](const Idx<R> &p) { MC_REQUIRE(sf[p] == f[p], "subfield", "boundary sub-grid value"); });
      }
    }
    mc::state(mc::hashStr(str<R>(lo) + str<R>(hi)) + delta);
  });
}

#ifndef VP
#define VP 0
#endif
#define ON(n) (VP == 0 || VP == n)
void mc_register() {
#if ON(6)
  addArray<int, 1, ArrayNoArgCheck, ArrayNoArgCheck>("int1", {-3, -1, 0, 2, 5, 7}); addArray<int, 2, ArrayNoArgCheck, ArrayAssertArgCheck>("int2", {-3, -1, 0, 2, 5}); addArray<int, 3, ArrayAssertArgCheck, ArrayNoArgCheck>("int3", mc::thorough() ? std::vector<int>{-3, 0, 2, 5} : std::vector<int>{-3, 0, 2}); addArray<double, 2, ArrayNoArgCheck, ArrayNoArgCheck>("double2", {-0.5, 0, 0.25, 3}); addArray<long, 4, ArrayNoArgCheck, ArrayNoArgCheck>("long4", {-7, 5000000000L});
  addMixed<int, double, 2>("int-double2", {-3, 0, 2, 5}, {-2.5, 0, 0.5, 1.75}); addMixed<float, double, 1>("float-double1", {-3.5f, 0.25f, 2}, {-0.1, 0, 1.3}); addMixed<int, long, 2>("int-long2", {-3, 1000000000}, {-7, 5000000000L});
#endif
#if ON(7)
  addSub<GC<int, 1>, 1>("c1"); addSub<GC<int, 2>, 2>("c2"); addSub<GF<int, 2>, 2>("f2"); addSub<GL<int, 2>, 2>("lazy2"); addSub<GC<int, 3>, 3>("c3");
  addSubChecked<GridAssertCheck, GridNoArgCheck, false, 1>("base1"); addSubChecked<GridAssertCheck, GridNoArgCheck, false, 2>("base2"); addSubChecked<GridNoArgCheck, GridAssertCheck, true, 1>("own1"); addSubChecked<GridNoArgCheck, GridAssertCheck, true, 2>("own2"); addSubClamped<1>("1"); addSubClamped<2>("2");
#endif
#if ON(8)
  addTransformChecked<1>("1"); addTransformChecked<2>("2"); addTransform<GC<int, 1>, 1>("c1"); addTransform<GC<int, 2>, 2>("c2"); addTransform<GF<int, 2>, 2>("f2"); addTransform<GC<int, 3>, 3>("c3");
#endif
#if ON(9)
  addField<SingleArrayGridStorage, 1>("c1"); addField<SingleArrayGridStorage, 2>("c2"); addField<SingleArrayGridStorageFortran, 2>("f2"); addField<SingleArrayGridStorage, 3>("c3");
#endif
#if ON(10)
  addBoundary<1>("d1"); addBoundary<2>("d2"); addBoundary<3>("d3");
#endif
}
