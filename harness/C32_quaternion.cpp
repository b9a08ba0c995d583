// C32: quaternions and rotations: algebra on small integers, agreement of all forms of rotations
#include "mc.hpp"
#include <array>
#include <cmath>
#include <vector>
#include <sstream>
#include <locale>
#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/math/vector.hpp>
#include <archon/math/matrix.hpp>
#include <archon/math/quaternion.hpp>
#include <archon/math/rotation.hpp>

using namespace archon;
using Q = math::Quaternion;
using V = math::Vector3;
using R4 = std::array<double, 4>;
using R3 = std::array<double, 3>;

Q mk(const R4& a) { return Q(a[0], a[1], a[2], a[3]); }
R4 un(const Q& q) { return {q.w, q.v[0], q.v[1], q.v[2]}; }
std::string show(const R4& a) { return mc::str(a[0]) + ";" + mc::str(a[1]) + "," + mc::str(a[2]) + "," + mc::str(a[3]); }
// Product by the multiplication table of the units
R4 hamilton(const R4& a, const R4& b)
{
    static const int unit[4][4] = {{0, 1, 2, 3}, {1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 1, 0}};
    static const int sign[4][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}, {1, -1, -1, 1}, {1, 1, -1, -1}};
    R4 c{};
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) c[unit[i][j]] += sign[i][j] * a[i] * b[j];
    return c;
}
double norm(const R4& a) { return a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]; }
bool close(const R4& a, const R4& b, double t = 1e-13) { for (int i = 0; i < 4; ++i) if (!(std::fabs(a[i] - b[i]) <= t)) return false; return true; }
R4 any(mc::Ctx& x, const std::vector<double>& v) { R4 a; for (double& d : a) d = v[x.choose(int(v.size()))]; return a; }

static mc::Scenario s1("algebra", 8, [](mc::Ctx& x) {
    R4 a = any(x, {-2, -1, 0, 1, 3}); x.shard_point();
    R4 b = any(x, x.thorough ? std::vector<double>{-3, -2, -1, 0, 1, 2} : std::vector<double>{-2, 0, 1});
    Q p = mk(a), q = mk(b);
    x.eval();
    R4 pr = hamilton(a, b);
    auto w = [&] { return show(a) + " and " + show(b); };
    MC_CHECK(x, un(p * q) == pr, "product of ", w(), " is ", show(un(p * q)), " instead of ", show(pr));
    R4 su, di; for (int i = 0; i < 4; ++i) { su[i] = a[i] + b[i]; di[i] = a[i] - b[i]; }
    MC_CHECK(x, un(p + q) == su && un(p - q) == di && un(-p) == R4({-a[0], -a[1], -a[2], -a[3]}), "sum, difference or negation of ", w());
    Q c = p; c += q; MC_CHECK(x, un(c) == su, "compound sum of ", w()); c = p; c -= q; MC_CHECK(x, un(c) == di, "compound difference of ", w()); c = p; c *= q; MC_CHECK(x, un(c) == pr, "compound product of ", w());
    R4 cb{b[0], -b[1], -b[2], -b[3]};
    MC_CHECK(x, un(math::conj(q)) == cb, "conjugate of ", show(b));
    R4 cj = hamilton(hamilton(b, a), cb);
    MC_CHECK(x, un(math::conj(p, q)) == cj, "conjugate by: ", w(), " is ", show(un(math::conj(p, q))), " instead of ", show(cj));
    V v(a[1], a[2], a[3]); R4 av{0, a[1], a[2], a[3]}; R4 cv = hamilton(hamilton(b, av), cb); V r = math::conj(v, q);
    MC_CHECK(x, r[0] == cv[1] && r[1] == cv[2] && r[2] == cv[3], "conjugate of vector by: ", w());
    double nb = norm(b);
    MC_CHECK(x, math::sq_sum(q) == nb && math::len(q) == std::sqrt(nb), "magnitude of ", show(b));
    if (nb != 0) {
        R4 iv{cb[0] / nb, cb[1] / nb, cb[2] / nb, cb[3] / nb};
        MC_CHECK(x, close(un(math::inv(q)), iv, 1e-15), "inverse of ", show(b));
        R4 qu = hamilton(a, iv);
        MC_CHECK(x, close(un(p / q), qu), "quotient of ", w()); c = p; c /= q; MC_CHECK(x, close(un(c), qu), "compound quotient of ", w());
        R4 n; for (int i = 0; i < 4; ++i) n[i] = b[i] / std::sqrt(nb);
        MC_CHECK(x, close(un(math::normalize(q)), n), "normalization of ", show(b));
        // rotation matrix of the normalization has the same effect as conjugation by it
        auto m = q.to_rotation_matrix(); V mv = m * v;
        MC_CHECK(x, std::fabs(mv[0] - cv[1] / nb) < 1e-13 && std::fabs(mv[1] - cv[2] / nb) < 1e-13 && std::fabs(mv[2] - cv[3] / nb) < 1e-13, "rotation matrix of ", show(b), " applied to ", show(av));
        // axis and angle
        V ax(9, 9, 9); double an = 99; q.to_axis_angle(ax, an);
        MC_CHECK(x, std::fabs(math::len(ax) - 1) < 1e-14, "axis of ", show(b), " is not a unit vector");
        Q k = Q::from_axis_angle(ax, an); R4 kk = un(k), neg{-kk[0], -kk[1], -kk[2], -kk[3]};
        MC_CHECK(x, close(kk, n) || close(neg, n), "axis and angle of ", show(b), " represent ", show(kk));
        auto rot = math::Rotation::from_versor(q); MC_CHECK(x, rot.axis == ax && rot.angle == an, "rotation of versor");
    }
    MC_CHECK(x, (p == q) == (a == b) && (p != q) == (a != b) && (p < q) == (a < b) && (p <= q) == (a <= b) && (p > q) == (a > b) && (p >= q) == (a >= b), "comparison of ", w());
    x.state(mc::hash_str(w()));
});

// ---------------------------------------------------------------- rotations
const double pi = std::acos(-1.0);
std::vector<V> axes(bool thorough)
{
    std::vector<V> v; int n = thorough ? 2 : 1;
    for (int i = -n; i <= n; ++i) for (int j = -n; j <= n; ++j) for (int k = -n; k <= n; ++k) if (i || j || k) { V a(i, j, k); v.push_back(a / math::len(a)); }
    v.push_back(V(0.6, 0.8, 0)); v.push_back(V(0, -0.28, 0.96));
    return v;
}
std::vector<double> angles() { std::vector<double> v; for (int i = -24; i <= 24; ++i) v.push_back(i * pi / 6); v.push_back(1e-9); v.push_back(-1e-9); v.push_back(pi - 1e-7); v.push_back(1); return v; }
R3 rodrigues(const V& a, double t, const R3& p)
{
    double c = std::cos(t), s = std::sin(t), d = a[0] * p[0] + a[1] * p[1] + a[2] * p[2];
    R3 cr{a[1] * p[2] - a[2] * p[1], a[2] * p[0] - a[0] * p[2], a[0] * p[1] - a[1] * p[0]}, r;
    for (int i = 0; i < 3; ++i) r[i] = p[i] * c + cr[i] * s + a[i] * d * (1 - c);
    return r;
}
R3 turn(const Q& q, const R3& p) { V v = math::conj(V(p[0], p[1], p[2]), q); return {v[0], v[1], v[2]}; }
bool close3(const R3& a, const R3& b, double t = 1e-12) { for (int i = 0; i < 3; ++i) if (!(std::fabs(a[i] - b[i]) <= t)) return false; return true; }
const R3 base[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
std::string show(const V& a) { return "(" + mc::str(a[0]) + "," + mc::str(a[1]) + "," + mc::str(a[2]) + ")"; }

static mc::Scenario s2("axis-and-angle", 1, [](mc::Ctx& x) {
    auto ax = axes(x.thorough); auto an = angles();
    V a = ax[x.choose(int(ax.size()))]; double t = an[x.choose(int(an.size()))];
    math::Rotation rot(a, t);
    Q q = Q::from_axis_angle(a, t);
    x.eval();
    MC_CHECK(x, rot.to_versor() == q, "versor of rotation");
    MC_CHECK(x, std::fabs(math::len(q) - 1) < 1e-14, "versor of ", show(a), " ", t, " is not a unit quaternion");
    auto m = q.to_rotation_matrix();
    for (auto& p : base) {
        R3 e = rodrigues(a, t, p);
        MC_CHECK(x, close3(turn(q, p), e), "effect of versor of ", show(a), " ", t);
        V mv = m * V(p[0], p[1], p[2]); MC_CHECK(x, close3({mv[0], mv[1], mv[2]}, e), "effect of matrix of ", show(a), " ", t);
        auto r2 = math::Rotation::from_versor(q); MC_CHECK(x, close3(rodrigues(r2.axis, r2.angle, p), e, 1e-7), "effect of rotation made from versor of ", show(a), " ", t);
        MC_CHECK(x, close3(turn((-rot).to_versor(), p), rodrigues(a, -t, p)), "inverse rotation of ", show(a), " ", t);
        MC_CHECK(x, close3(turn((rot * 2).to_versor(), p), rodrigues(a, 2 * t, p)) && close3(turn((3 * rot).to_versor(), p), rodrigues(a, 3 * t, p)) && close3(turn((rot / 2).to_versor(), p), rodrigues(a, t / 2, p)), "scaled rotation of ", show(a), " ", t);
        auto c = rot; c *= 2; MC_CHECK(x, c == rot * 2, "compound scaling"); c = rot; c /= 2; MC_CHECK(x, c == rot / 2, "compound division");
        // cosine determines angle between 0 and pi
        if (t >= 0 && t <= pi) MC_CHECK(x, close3(turn(Q::from_axis_cos_angle(a, std::cos(t)), p), e, 1e-7), "effect of versor from ", show(a), " and cosine of ", t);
    }
    for (double c : {-1.0, 1.0, 0.0, 0.5}) MC_CHECK(x, close(un(Q::from_axis_cos_angle(a, c)), un(Q::from_axis_angle(a, std::acos(c))), 1e-12), "versor from cosine ", c);
    MC_CHECK(x, math::Rotation() == math::Rotation(V(1, 0, 0), 0), "default rotation");
    x.state(mc::hash_str(show(a) + mc::str(t)));
});

static mc::Scenario s3("composition", 8, [](mc::Ctx& x) {
    auto ax = axes(false); auto an = angles();
    V a = ax[x.choose(int(ax.size()))]; x.shard_point();
    V b = ax[x.choose(int(ax.size()))];
    int step = x.thorough ? 1 : 5;
    double t = an[x.choose(int(an.size()) / step) * step];
    for (std::size_t k = 0; k < an.size(); k += step) {
        double u = an[k];
        math::Rotation p(a, t), q(b, u);
        x.eval();
        auto s = p + q; auto d = p - q;
        MC_CHECK(x, std::fabs(math::len(s.axis) - 1) < 1e-12, "axis of combined rotation is not a unit vector");
        auto c = p; c += q; MC_CHECK(x, c == s, "compound combination"); c = p; c -= q; MC_CHECK(x, c == d, "compound combination with inverse");
        for (auto& e : base) {
            // first p, then q
            MC_CHECK(x, close3(rodrigues(s.axis, s.angle, e), rodrigues(b, u, rodrigues(a, t, e)), 1e-7), "combination of ", show(a), " ", t, " and ", show(b), " ", u);
            MC_CHECK(x, close3(rodrigues(d.axis, d.angle, e), rodrigues(b, -u, rodrigues(a, t, e)), 1e-7), "combination of ", show(a), " ", t, " and inverse of ", show(b), " ", u);
        }
        std::array<double, 4> ka{a[0], a[1], a[2], t}, kb{b[0], b[1], b[2], u};
        MC_CHECK(x, (p == q) == (ka == kb) && (p != q) == (ka != kb) && (p < q) == (ka < kb) && (p <= q) == (ka <= kb) && (p > q) == (ka > kb) && (p >= q) == (ka >= kb), "comparison of rotations");
    }
});

static mc::Scenario s4("euler-angles", 1, [](mc::Ctx& x) {
    std::vector<double> an; for (int i = -8; i <= 8; ++i) an.push_back(i * pi / 4 + (i == 3 ? 0.1 : 0));
    double a = an[x.choose(int(an.size()))], b = an[x.choose(int(an.size()))], g = an[x.choose(int(an.size()))];
    x.eval();
    Q q = Q::from_proper_euler_angles(a, b, g);
    MC_CHECK(x, std::fabs(math::len(q) - 1) < 1e-14, "versor of Euler angles is not a unit quaternion");
    for (auto& p : base) {
        // rotations around rotated axes are applied in opposite order around the fixed axes
        R3 e = rodrigues(V(0, 0, 1), a, rodrigues(V(1, 0, 0), b, rodrigues(V(0, 0, 1), g, p)));
        MC_CHECK(x, close3(turn(q, p), e), "effect of Euler angles ", a, " ", b, " ", g);
    }
});

struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
static mc::Scenario s5("text", 1, [](mc::Ctx& x) {
    std::vector<double> v{1.5, 12345, -0.25, 0};
    R4 a = any(x, v);
    for (int k = 0; k < 2; ++k) {
        std::ostringstream o; o.imbue(k ? std::locale(std::locale::classic(), new Punct) : std::locale::classic());
        o << mk(a) << math::Rotation(V(a[1], a[2], a[3]), a[0]);
        auto s = [](double d) { return mc::str(d); };
        x.eval();
        std::string e = "[" + s(a[0]) + "; " + s(a[1]) + ", " + s(a[2]) + ", " + s(a[3]) + "][" + s(a[1]) + ", " + s(a[2]) + ", " + s(a[3]) + "; " + s(a[0]) + "]";
        MC_CHECK(x, o.str() == e, "text ", o.str(), " instead of ", e);
    }
});
