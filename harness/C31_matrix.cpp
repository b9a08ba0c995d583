// C31: vector and matrix algebra over small integers against plain loops over arrays
#include "mc.hpp"
#include <array>
#include <cmath>
#include <vector>
#include <sstream>
#include <locale>
#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/math/vector.hpp>
#include <archon/math/matrix.hpp>

using namespace archon;
template<int M, int N> using A = std::array<std::array<double, N>, M>;

template<int M, int N, class T = double> math::Matrix<M, N, T> mk(const A<M, N>& a) { math::Matrix<M, N, T> m; for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) m[i][j] = T(a[i][j]); return m; }
template<int N, class T = double> math::Vector<N, T> mkv(const std::array<double, N>& a) { math::Vector<N, T> v; for (int i = 0; i < N; ++i) v[i] = T(a[i]); return v; }
template<int M, int N> std::string show(const A<M, N>& a) { std::string s = "["; for (auto& r : a) { s += "["; for (double d : r) s += mc::str(d) + " "; s += "]"; } return s + "]"; }
template<int N> std::string showv(const std::array<double, N>& a) { std::string s = "["; for (double d : a) s += mc::str(d) + " "; return s + "]"; }
template<class MT, class AT> bool same(const MT& m, const AT& a) { for (int i = 0; i < int(a.size()); ++i) for (int j = 0; j < int(a[0].size()); ++j) if (!(m[i][j] == a[i][j])) return false; return true; }
template<int N, class T> bool samev(const math::Vector<N, T>& m, const std::array<double, N>& a) { for (int i = 0; i < N; ++i) if (!(m[i] == a[i])) return false; return true; }

template<int M, int N> A<M, N> any(mc::Ctx& x, const std::vector<double>& vals, bool shard = false)
{
    A<M, N> a; int k = 0;
    for (auto& r : a) for (double& d : r) { d = vals[x.choose(int(vals.size()))]; if (shard && k++ == 0) x.shard_point(); }
    return a;
}
template<int M, int N, int P> A<M, P> mul(const A<M, N>& a, const A<N, P>& b) { A<M, P> c{}; for (int i = 0; i < M; ++i) for (int j = 0; j < P; ++j) for (int k = 0; k < N; ++k) c[i][j] += a[i][k] * b[k][j]; return c; }
// determinant by expansion over all permutations, exact for small integers
template<int N> double det_ref(const A<N, N>& a)
{
    std::array<int, N> p; for (int i = 0; i < N; ++i) p[i] = i;
    double s = 0;
    do {
        int inv = 0; for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j) inv += p[i] > p[j];
        double t = inv % 2 ? -1 : 1; for (int i = 0; i < N; ++i) t *= a[i][p[i]];
        s += t;
    } while (std::next_permutation(p.begin(), p.end()));
    return s;
}

// ---------------------------------------------------------------- square matrices: determinant, inverse, decomposition
template<int N, class T = double> void square(mc::Ctx& x, const A<N, N>& a, bool exact)
{
    const double tol = std::is_same_v<T, float> ? 1e-3 : 1e-11;
    auto m = mk<N, N, T>(a);
    x.eval();
    double d = det_ref<N>(a);
    double t = 0; for (int i = 0; i < N; ++i) t += a[i][i];
    MC_CHECK(x, math::tr(m) == t, "trace of ", show<N, N>(a), " is ", math::tr(m));
    MC_CHECK(x, exact ? math::det(m) == d : std::fabs(math::det(m) - d) < tol, "determinant of ", show<N, N>(a), " is ", math::det(m), " instead of ", d);
    auto v = m;
    bool r = math::try_inv(v);
    if (d != 0) MC_CHECK(x, r, "regular matrix ", show<N, N>(a), " reported as singular");
    else if (exact) MC_CHECK(x, !r, "singular matrix ", show<N, N>(a), " not reported");
    auto w = math::inv(m);
    if (!r) MC_CHECK(x, same(w, A<N, N>{}), "inverse of singular matrix ", show<N, N>(a), " is not the zero matrix");
    else {
        MC_CHECK(x, v == w, "inv() and try_inv() disagree on ", show<N, N>(a));
        if (d != 0) {
            for (int s = 0; s < 2; ++s) {
                auto e = s ? m * w : w * m;
                for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
                    double g = e[i][j], h = i == j;
                    MC_CHECK(x, exact ? g == h : std::fabs(g - h) < tol, "inverse of ", show<N, N>(a), " is not its inverse, product has ", g, " at ", i, ",", j);
                }
            }
            auto q = T(2) / m; auto q2 = m / m;
            for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
                MC_CHECK(x, q[i][j] == T(2) * w[i][j], "scalar divided by matrix");
                MC_CHECK(x, std::fabs(q2[i][j] - (i == j)) < tol, "matrix divided by itself");
            }
        }
    }
    x.outcome(mc::hash_str(r ? "regular" : "singular"));
    x.state(mc::hash_str(show<N, N>(a)));
}

template<int M, int N> void lu(mc::Ctx& x, const A<M, N>& a)
{
    constexpr int K = std::min(M, N);
    auto m = mk<M, N>(a);
    x.eval();
    std::array<int, K> piv = math::decompose(m);
    // permuted matrix equals product of unit lower and upper triangular factors
    A<M, N> p = a;
    for (int j = 0; j < K; ++j) { MC_CHECK(x, piv[j] >= j && piv[j] < M, "pivot ", piv[j], " in column ", j, " of ", show<M, N>(a)); std::swap(p[j], p[piv[j]]); }
    for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) {
        double s = 0;
        for (int k = 0; k < K; ++k) { double l = k < i ? m[i][k] : k == i ? 1 : 0, u = k <= j ? m[k][j] : 0; s += l * u; }
        MC_CHECK(x, std::fabs(s - p[i][j]) < 1e-12, "product of factors of ", show<M, N>(a), " has ", s, " at ", i, ",", j, " instead of ", p[i][j]);
        if (j < i && j < K) MC_CHECK(x, std::fabs(m[i][j]) <= 1, "multiplier ", m[i][j], " larger than one: pivoting of ", show<M, N>(a));
    }
}

static mc::Scenario q1("inversion-1x1", 1, [](mc::Ctx& x) { auto a = any<1, 1>(x, {-4, -2, -1, 0, 1, 2, 4}); square<1>(x, a, true); lu<1, 1>(x, a); });
static mc::Scenario q2("inversion-2x2", 1, [](mc::Ctx& x) { auto a = any<2, 2>(x, {-4, -3, -2, -1, 0, 1, 2, 3, 4}); square<2>(x, a, false); square<2, float>(x, a, false); lu<2, 2>(x, a); });
static mc::Scenario q3("inversion-3x3", 3, [](mc::Ctx& x) { auto a = any<3, 3>(x, {-1, 0, 1}, true); square<3>(x, a, false); square<3, float>(x, a, false); lu<3, 3>(x, a); });
static mc::Scenario q3b("inversion-3x3-more-values", 8, [](mc::Ctx& x) { auto a = any<3, 3>(x, x.thorough ? std::vector<double>{-3, -1, 0, 1, 2} : std::vector<double>{-1, 0, 1, 3}, true); square<3>(x, a, false); lu<3, 3>(x, a); });
static mc::Scenario q4("inversion-4x4", 8, [](mc::Ctx& x) {
    A<4, 4> a; int n = 0;
    for (auto& r : a) for (double& d : r) { d = x.choose(2); if (++n == 4) x.shard_point(); }
    square<4>(x, a, false); lu<4, 4>(x, a);
    if (x.thorough) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { auto b = a; b[i][j] = -2; square<4>(x, b, false); lu<4, 4>(x, b); }
});
static mc::Scenario q5("permutations-and-scalings-5x5", 1, [](mc::Ctx& x) {
    A<5, 5> a{}; std::vector<int> left{0, 1, 2, 3, 4};
    for (int i = 0; i < 5; ++i) { int k = x.choose(int(left.size())); a[i][left[k]] = i == 2 ? -2 : 1; left.erase(left.begin() + k); }
    int i = x.choose(5), j = x.choose(5); if (a[i][j] == 0) a[i][j] = 4;
    square<5>(x, a, true); lu<5, 5>(x, a);
});
template<int M, int N> void lu_all(mc::Ctx& x) { lu<M, N>(x, any<M, N>(x, {-1, 0, 2})); }
static mc::Scenario q6("decomposition-of-other-shapes", 8, [](mc::Ctx& x) {
    int k = x.choose(8); x.shard_point();
    switch (k) { case 0: lu_all<1, 2>(x); break; case 1: lu_all<2, 1>(x); break; case 2: lu_all<2, 3>(x); break; case 3: lu_all<3, 2>(x); break; case 4: lu_all<1, 4>(x); break; case 5: lu_all<4, 1>(x); break; case 6: lu_all<2, 4>(x); break; case 7: lu_all<4, 2>(x); break; }
});

// ---------------------------------------------------------------- triangular inversion
template<bool U, bool UNI, int N> void tri(mc::Ctx& x)
{
    A<N, N> a;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
        bool part = U ? j >= i : j <= i;
        if (!part) a[i][j] = 77;              // must be neither read nor changed
        else if (i == j) a[i][j] = UNI ? 55 : std::array{-2.0, 0.0, 1.0, 4.0}[x.choose(4)];
        else a[i][j] = std::array{-1.0, 0.0, 2.0}[x.choose(3)];
    }
    auto m = mk<N, N>(a);
    x.eval();
    bool r; if constexpr (U) r = math::try_upper_tri_inv<UNI>(m); else r = math::try_lower_tri_inv<UNI>(m);
    bool sing = false; if (!UNI) for (int i = 0; i < N; ++i) if (a[i][i] == 0) sing = true;
    MC_CHECK(x, r == !sing, "triangular ", show<N, N>(a), " reported as ", r ? "regular" : "singular");
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
        bool part = U ? j >= i : j <= i;
        if (!part) MC_CHECK(x, m[i][j] == 77, "other triangle changed at ", i, ",", j);
        if (UNI && i == j) MC_CHECK(x, m[i][j] == 55, "diagonal changed");
    }
    if (!r) return;
    auto clean = [](auto get) { A<N, N> c{}; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { bool part = U ? j >= i : j <= i; c[i][j] = !part ? 0 : UNI && i == j ? 1 : get(i, j); } return c; };
    auto p = mul<N, N, N>(clean([&](int i, int j) { return a[i][j]; }), clean([&](int i, int j) { return m[i][j]; }));
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) MC_CHECK(x, p[i][j] == (i == j), "inverse of triangular ", show<N, N>(a), " is wrong");
}
static mc::Scenario t1("triangular-inversion", 8, [](mc::Ctx& x) {
    int k = x.choose(14); x.shard_point();
    switch (k) {
        case 0: tri<true, false, 1>(x); break; case 1: tri<true, true, 1>(x); break; case 2: tri<false, false, 1>(x); break; case 3: tri<false, true, 1>(x); break;
        case 4: tri<true, false, 2>(x); break; case 5: tri<true, true, 2>(x); break; case 6: tri<false, false, 2>(x); break; case 7: tri<false, true, 2>(x); break;
        case 8: tri<true, false, 3>(x); break; case 9: tri<true, true, 3>(x); break; case 10: tri<false, false, 3>(x); break; case 11: tri<false, true, 3>(x); break;
        case 12: if (x.thorough) tri<true, false, 4>(x); else tri<true, true, 4>(x); break; case 13: if (x.thorough) tri<false, false, 4>(x); else tri<false, true, 4>(x); break;
    }
});

// ---------------------------------------------------------------- products and sums
template<int M, int N, int P, class T, class U> void products(mc::Ctx& x, const std::vector<double>& vals)
{
    auto a = any<M, N>(x, vals, true); auto b = any<N, P>(x, vals);
    auto ma = mk<M, N, T>(a); auto mb = mk<N, P, U>(b);
    x.eval();
    auto c = ma * mb;
    static_assert(std::is_same_v<typename decltype(c)::comp_type, decltype(T() * U())>);
    auto ref = mul<M, N, P>(a, b);
    MC_CHECK(x, same(c, ref) && math::inner(ma, mb) == c, "product of ", show<M, N>(a), " and ", show<N, P>(b));
    // transposition reverses products
    MC_CHECK(x, math::transpose(c) == math::transpose(mb) * math::transpose(ma), "transposed product");
    auto t = math::transpose(ma);
    for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) MC_CHECK(x, t[j][i] == a[i][j], "transposition of ", show<M, N>(a));
    // matrix times column, row times matrix
    auto v = mb.get_col(0); auto mv = ma * v; auto row = ma[0]; auto rm = row * mb;
    for (int i = 0; i < M; ++i) MC_CHECK(x, mv[i] == ref[i][0], "matrix times vector");
    for (int j = 0; j < P; ++j) MC_CHECK(x, rm[j] == ref[0][j], "vector times matrix");
    MC_CHECK(x, math::inner(ma, v) == mv && math::inner(row, mb) == rm, "inner products");
    // outer product of column and row
    auto o = math::outer(ma.get_col(0), mb[0]);
    for (int i = 0; i < M; ++i) for (int j = 0; j < P; ++j) MC_CHECK(x, o[i][j] == a[i][0] * b[0][j], "outer product");
}
static mc::Scenario p1("products", 8, [](mc::Ctx& x) {
    switch (x.choose(6)) {
        case 0: products<2, 2, 2, double, double>(x, {-1, 0, 2}); break;
        case 1: products<2, 3, 1, double, float>(x, {-1, 0, 2}); break;
        case 2: products<3, 1, 2, float, double>(x, {-2, -1, 0, 3}); break;
        case 3: products<1, 4, 2, double, double>(x, {-1, 0, 2}); break;
        case 4: products<1, 1, 1, float, float>(x, {-3, -1, 0, 1, 2, 5}); break;
        case 5: if (x.thorough) products<2, 3, 2, double, double>(x, {-1, 0, 2}); else products<3, 2, 3, double, double>(x, {0, 1}); break;
    }
});

template<int M, int N> void sums(mc::Ctx& x, const std::vector<double>& vals)
{
    auto a = any<M, N>(x, vals, true), b = any<M, N>(x, vals);
    double s = x.pick({-2.0, 0.5, 4.0});
    auto ma = mk<M, N>(a); auto mb = mk<M, N>(b); auto mf = mk<M, N, float>(b);
    x.eval();
    auto each = [&](auto m, auto f, const char* what) { for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) MC_CHECK(x, m[i][j] == f(a[i][j], b[i][j]), what, " of ", show<M, N>(a), " and ", show<M, N>(b), " factor ", s); };
    each(ma + mb, [](double p, double q) { return p + q; }, "sum"); each(ma + mf, [](double p, double q) { return p + q; }, "sum");
    each(ma - mb, [](double p, double q) { return p - q; }, "difference");
    each(-ma, [](double p, double) { return -p; }, "negation");
    each(ma * s, [&](double p, double) { return p * s; }, "scaling"); each(s * ma, [&](double p, double) { return p * s; }, "scaling");
    each(ma / s, [&](double p, double) { return p / s; }, "division"); each(math::outer(ma, s), [&](double p, double) { return p * s; }, "outer product with scalar"); each(math::outer(s, ma), [&](double p, double) { return p * s; }, "outer product with scalar");
    auto c = ma; c += mb; each(c, [](double p, double q) { return p + q; }, "compound sum"); c = ma; c -= mb; each(c, [](double p, double q) { return p - q; }, "compound difference");
    c = ma; c *= s; each(c, [&](double p, double) { return p * s; }, "compound scaling"); c = ma; c /= s; each(c, [&](double p, double) { return p / s; }, "compound division");
    MC_CHECK(x, (ma == mb) == (a == b) && (ma != mb) == (a != b) && (ma < mb) == (a < b) && (ma <= mb) == (a <= b) && (ma > mb) == (a > b) && (ma >= mb) == (a >= b), "comparison of ", show<M, N>(a), " and ", show<M, N>(b));
    // access
    for (int j = 0; j < N; ++j) { auto d = ma; d.set_col(j, mb.get_col(j)); for (int i = 0; i < M; ++i) for (int k = 0; k < N; ++k) MC_CHECK(x, d[i][k] == (k == j ? b : a)[i][k], "column ", j, " replaced"); }
    auto d = ma; d.set_diag(mb.get_diag()); for (int i = 0; i < M; ++i) for (int k = 0; k < N; ++k) MC_CHECK(x, d[i][k] == (k == i ? b : a)[i][k], "diagonal replaced");
    auto e = math::Matrix<M, N>::identity(); for (int i = 0; i < M; ++i) for (int k = 0; k < N; ++k) MC_CHECK(x, e[i][k] == (i == k), "identity");
    auto g = math::Matrix<M, N>::generate([&](int i, int j) { return a[i][j]; }); MC_CHECK(x, g == ma, "generated matrix");
    // submatrices at every position
    for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) {
        auto h = ma.template get_submatrix<1, 1>(i, j); MC_CHECK(x, h[0][0] == a[i][j], "submatrix");
        auto big = math::extend<M + 1, N + 2>(h, i, j); for (int k = 0; k < M + 1; ++k) for (int l = 0; l < N + 2; ++l) MC_CHECK(x, big[k][l] == (k == i && l == j ? a[i][j] : 0), "extension");
    }
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) {
        auto big = math::extend<M + 1, N + 2>(ma, i, j);
        for (int k = 0; k < M + 1; ++k) for (int l = 0; l < N + 2; ++l) { bool in = k >= i && k < i + M && l >= j && l < j + N; MC_CHECK(x, big[k][l] == (in ? a[k - i][l - j] : 0), "extension at ", i, ",", j); }
        MC_CHECK(x, (big.template get_submatrix<M, N>(i, j)) == ma, "extension and submatrix");
    }
    x.state(mc::hash_str(show<M, N>(a) + show<M, N>(b)));
}
static mc::Scenario p2("sums-and-access", 8, [](mc::Ctx& x) {
    switch (x.choose(5)) { case 0: sums<2, 2>(x, {-1, 0, 2}); break; case 1: sums<1, 3>(x, {-1, 0, 2}); break; case 2: sums<3, 1>(x, {-1, 0, 2}); break; case 3: sums<2, 3>(x, {0, 1}); break; case 4: sums<3, 2>(x, {0, 1}); break; }
});

// ---------------------------------------------------------------- vectors
template<int N> void vectors(mc::Ctx& x, const std::vector<double>& vals)
{
    auto a = any<1, N>(x, vals, true)[0], b = any<1, N>(x, vals)[0];
    double s = x.pick({-2.0, 0.5, 4.0});
    auto va = mkv<N>(a), vb = mkv<N>(b); auto vf = mkv<N, float>(b);
    x.eval();
    auto each = [&](auto m, auto f, const char* what) { for (int i = 0; i < N; ++i) MC_CHECK(x, m[i] == f(a[i], b[i]), what, " of ", showv<N>(a), " and ", showv<N>(b), " factor ", s); };
    each(va + vb, [](double p, double q) { return p + q; }, "sum"); each(vf + va, [](double p, double q) { return p + q; }, "sum"); each(va - vb, [](double p, double q) { return p - q; }, "difference"); each(-va, [](double p, double) { return -p; }, "negation");
    each(va * s, [&](double p, double) { return p * s; }, "scaling"); each(s * va, [&](double p, double) { return p * s; }, "scaling"); each(va / s, [&](double p, double) { return p / s; }, "division");
    auto c = va; c += vb; each(c, [](double p, double q) { return p + q; }, "compound sum"); c = va; c -= vb; each(c, [](double p, double q) { return p - q; }, "compound difference"); c = va; c *= s; each(c, [&](double p, double) { return p * s; }, "compound scaling"); c = va; c /= s; each(c, [&](double p, double) { return p / s; }, "compound division");
    double dot = 0, sum = 0, sq = 0, sqb = 0; for (int i = 0; i < N; ++i) { dot += a[i] * b[i]; sum += a[i]; sq += a[i] * a[i]; sqb += b[i] * b[i]; }
    MC_CHECK(x, math::dot(va, vb) == dot && math::inner(va, vb) == dot && math::dot(va, vf) == dot, "inner product of ", showv<N>(a), " and ", showv<N>(b));
    MC_CHECK(x, math::sum(va) == sum && math::sq_sum(va) == sq && math::len(va) == std::sqrt(sq), "sums of components of ", showv<N>(a));
    if (sqb != 0) { auto p = math::proj(va, vb); for (int i = 0; i < N; ++i) MC_CHECK(x, std::fabs(p[i] - dot / sqb * b[i]) < 1e-14, "projection of ", showv<N>(a), " on ", showv<N>(b)); }
    MC_CHECK(x, (va == vb) == (a == b) && (va != vb) == (a != b) && (va < vb) == (a < b) && (va <= vb) == (a <= b) && (va > vb) == (a > b) && (va >= vb) == (a >= b), "comparison");
    if constexpr (N == 2) { auto p = math::perp(va); MC_CHECK(x, p[0] == -a[1] && p[1] == a[0], "perpendicular vector of ", showv<N>(a)); }
    if constexpr (N == 3) {
        auto p = math::cross(va, vb);
        MC_CHECK(x, p[0] == a[1] * b[2] - a[2] * b[1] && p[1] == a[2] * b[0] - a[0] * b[2] && p[2] == a[0] * b[1] - a[1] * b[0] && va * vb == p, "cross product of ", showv<N>(a), " and ", showv<N>(b));
    }
    // conversion and text
    math::Vector<N, float> f(va); math::Vector<N, double> back = f; MC_CHECK(x, back == va, "conversion to float and back");
    std::ostringstream o; o.imbue(std::locale::classic()); o << va; std::string t = "["; for (int i = 0; i < N; ++i) t += (i ? ", " : "") + mc::str(a[i]); t += "]";
    MC_CHECK(x, o.str() == t, "text form ", o.str(), " instead of ", t);
    std::ostringstream o2; o2.imbue(std::locale::classic()); math::Matrix<2, N> m(va, vb); o2 << m; std::ostringstream o3; o3.imbue(std::locale::classic()); o3 << vb;
    MC_CHECK(x, o2.str() == "[" + t + ", " + o3.str() + "]", "text form of matrix ", o2.str());
}
static mc::Scenario v1("vectors", 8, [](mc::Ctx& x) {
    switch (x.choose(4)) { case 0: vectors<1>(x, {-3, -1, 0, 1, 2, 5}); break; case 1: vectors<2>(x, {-3, -1, 0, 1, 2}); break; case 2: vectors<3>(x, {-2, -1, 0, 1}); break; case 3: vectors<4>(x, {-1, 0, 2}); break; }
});

struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
static mc::Scenario v2("text-in-other-locale", 1, [](mc::Ctx& x) {
    double a = x.pick({1.5, 12345.0, -0.25}), b = x.pick({1.5, 12345.0, -0.25});
    std::ostringstream o; o.imbue(std::locale(std::locale::classic(), new Punct)); o << math::Vector<2>(a, b) << "|" << math::Matrix<2>(math::Vector<2>(a, b), math::Vector<2>(b, a));
    auto s = [](double v) { return mc::str(v); };
    x.eval();
    std::string e = "[" + s(a) + ", " + s(b) + "]|[[" + s(a) + ", " + s(b) + "], [" + s(b) + ", " + s(a) + "]]";
    MC_CHECK(x, o.str() == e, "text ", o.str(), " instead of ", e);
});
