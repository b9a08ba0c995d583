// C50: virtual trackball against a reference in terms of rotation matrices
#include "../mc/mc.hpp"
#include <array>
#include <chrono>
#include <cmath>
#include <iosfwd>
#include <optional>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/integer.hpp>
#include <archon/render/virt_trackball.hpp>
using namespace archon;
using Clock = std::chrono::steady_clock;

namespace {

using Vec = std::array<double, 3>;
struct Mat { double m[3][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }; };

Mat mul(const Mat& a, const Mat& b)
{
    Mat r;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; }
    return r;
}

Mat rot(Vec u, double t)
{
    double l = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
    if (l == 0) return {};
    for (double& v : u) v /= l;
    double c = std::cos(t), s = std::sin(t), d = 1 - c;
    return { { { c + u[0] * u[0] * d, u[0] * u[1] * d - u[2] * s, u[0] * u[2] * d + u[1] * s },
               { u[1] * u[0] * d + u[2] * s, c + u[1] * u[1] * d, u[1] * u[2] * d - u[0] * s },
               { u[2] * u[0] * d - u[1] * s, u[2] * u[1] * d + u[0] * s, c + u[2] * u[2] * d } } };
}

Vec cross(Vec a, Vec b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
double dot(Vec a, Vec b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
double len(Vec a) { return std::sqrt(dot(a, a)); }

struct Pt { double x, y; };

struct View {
    int w = 2, h = 2;
    double ratio = 1;
    Vec ball(Pt p) const
    {
        double rx = std::min(w / 2.0, h / 2.0 / ratio), ry = rx * ratio;
        double a = (p.x - w / 2.0) / rx, b = (h / 2.0 - p.y) / ry;
        double s = std::hypot(a, b);
        if (s > 1) return { a / s, b / s, 0 };
        return { a, b, std::sqrt(std::max(0.0, 1 - a * a - b * b)) };
    }
};

// Turn of ball from one point to another. Nothing is known about the axis if they are opposite points.
struct Turn { Vec axis { 1, 0, 0 }; double angle = 0; bool known = true; };
Turn turn(Vec a, Vec b)
{
    Turn t;
    t.axis = cross(a, b);
    t.angle = std::atan2(len(t.axis), dot(a, b));
    if (len(t.axis) < 1e-7 && dot(a, b) < 0) t.known = false;
    if (len(t.axis) < 1e-12) t.axis = { 1, 0, 0 };
    return t;
}

double diff(const Mat& a, const Mat& b)
{
    double d = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) d = std::max(d, std::abs(a.m[i][j] - b.m[i][j]));
    return d;
}

bool proper(const math::Rotation& r)
{
    for (int i = 0; i < 3; ++i) if (!std::isfinite(r.axis[i])) return false;
    if (!std::isfinite(r.angle)) return false;
    double l = std::sqrt(r.axis[0] * r.axis[0] + r.axis[1] * r.axis[1] + r.axis[2] * r.axis[2]);
    return (r.angle == 0 || std::abs(l - 1) < 1e-9);
}
Mat mat(const math::Rotation& r) { return rot({ r.axis[0], r.axis[1], r.axis[2] }, r.angle); }

struct World {
    mc::Ctx& x;
    render::VirtualTrackball ball;
    View view;
    Clock::time_point now { std::chrono::seconds(1000) };
    bool acquired = false;
    Mat base;
    Vec axis { 1, 0, 0 };
    double speed = 0;           // radians per second
    Clock::time_point released;
    bool known = true;          // whether orientation is determined
    bool speed_known = true;    // whether spin is determined
    struct Sample { Pt p; Vec at; long t; };
    std::vector<Sample> track_;
    long origin = 0;
    long t = 0;                 // event time
    bool linear = false;        // pointer moves at constant velocity, so limited resolution of memory makes no difference

    explicit World(mc::Ctx& x_) : x(x_) {}
    Mat expected(Clock::time_point at, bool& k) const
    {
        k = known;
        if (acquired) {
            if (track_.empty()) return base;
            Turn u = turn(track_.front().at, track_.back().at);
            k = k && u.known;
            return mul(rot(u.axis, u.angle), base);
        }
        k = k && speed_known;
        if (at == released && known) k = true;
        return mul(rot(axis, speed * std::chrono::duration<double>(at - released).count()), base);
    }
    void check()
    {
        for (int ms : { 0, 100, 1300 }) {
            auto at = now + std::chrono::milliseconds(ms);
            auto r = ball.get_orientation(at);
            MC_CHECK(x, proper(r), "not a proper rotation: axis ", r.axis[0], " ", r.axis[1], " ", r.axis[2], ", angle ", r.angle, " after ", ms, " ms");
            bool k; Mat want = expected(at, k);
            if (k) MC_CHECK(x, diff(mat(r), want) < 1e-6, "wrong orientation after ", ms, " ms: axis ", r.axis[0], " ", r.axis[1], " ", r.axis[2], ", angle ", r.angle, ", deviation ", diff(mat(r), want));
            x.eval(1);
        }
    }
    void acquire()
    {
        MC_TRACE(x, "acquire");
        ball.acquire(now);
        if (acquired) return;
        bool k; base = expected(now, k); known = k;
        acquired = true;
        track_.clear();
    }
    void track(Pt p, long dt)
    {
        MC_TRACE(x, "track ", p.x, ",", p.y, " after ", dt, " ms");
        t += dt; now += std::chrono::milliseconds(dt);
        ball.track({ int(p.x), int(p.y) }, std::chrono::milliseconds(origin + t));
        if (acquired) track_.push_back({ p, view.ball(p), t });
    }
    void release()
    {
        MC_TRACE(x, "release");
        ball.release(now);
        if (!acquired) return;
        bool k; base = expected(now, k); known = k;
        acquired = false;
        released = now;
        speed = 0; speed_known = true;
        if (track_.empty()) return;
        const Sample& a = track_.front(), & b = track_.back();
        long dur = b.t - a.t;
        if (dur < 200 && std::hypot(a.p.x - b.p.x, a.p.y - b.p.y) < 4) return;
        // Position of pointer up to 100 milliseconds ago
        long from = std::max(a.t, b.t - 100);
        Pt p = a.p;
        for (std::size_t i = 0; i < track_.size(); ++i) {
            auto& s = track_[i];
            if (i > 0 && track_[i - 1].t <= from && from <= s.t && s.t > track_[i - 1].t) {
                auto& q = track_[i - 1];
                double f = double(from - q.t) / (s.t - q.t);
                p = { q.p.x + f * (s.p.x - q.p.x), q.p.y + f * (s.p.y - q.p.y) };
                if (from < s.t) break;
            }
        }
        // Positions closer in time than the resolution of the memory are not all remembered
        std::size_t bs = 0;
        for (std::size_t i = 0; i < track_.size(); ++i) if (track_[i].t <= from) bs = i;
        for (std::size_t i = std::max<std::size_t>(bs, 1); i < track_.size(); ++i) if (track_[i].t - track_[i - 1].t < 7 && !linear) speed_known = false;
        if (b.t == from) return;
        Turn u = turn(view.ball(p), b.at);
        if (!u.known) speed_known = false;
        axis = u.axis;
        speed = u.angle * 1000.0 / double(b.t - from);
    }
    void set_orientation(Vec a, double angle)
    {
        MC_TRACE(x, "set orientation ", angle);
        ball.set_orientation(math::Rotation(math::Vector3(a[0], a[1], a[2]), angle));
        base = rot(a, angle); known = true; speed = 0; speed_known = true; acquired = false; released = now;
    }
    void set_spin(Vec a, double s)
    {
        MC_TRACE(x, "set spin ", s);
        ball.set_spin(math::Rotation(math::Vector3(a[0], a[1], a[2]), s), now);
        bool k; base = expected(now, k); known = k;
        axis = a; speed = s; speed_known = true; acquired = false; released = now;
    }
    void set_view(int w, int h, double ratio)
    {
        if (acquired) return;
        MC_TRACE(x, "viewport ", w, "x", h, " ratio ", ratio);
        ball.set_viewport_size({ w, h });
        if (ratio != view.ratio) ball.set_pixel_aspect_ratio(ratio);
        view = { w, h, ratio };
    }
};

mc::Scenario s1("histories", 16, [](mc::Ctx& x) {
    World w(x);
    w.origin = x.pick({ 0L, -100000L, 4000000000000L });
    w.set_view(40, 30, 1);
    int depth = x.thorough ? 6 : 5;
    for (int i = 0; i < depth; ++i) {
        int op = x.choose(15);
        if (i == 0) x.shard_point();
        x.step();
        switch (op) {
            case 0: w.acquire(); break;
            case 1: w.acquire(); w.track({ 20, 15 }, 0); break;
            case 2: w.release(); break;
            case 3: w.track({ 23, 15 }, 150); break;
            case 4: w.track({ 30, 10 }, 50); break;
            case 5: w.track({ 30, 28 }, 10); break;
            case 6: w.track({ 3, 15 }, 0); break;
            case 7: w.track({ 100, -80 }, 30); break;
            case 8: w.track({ 12, 3 }, 100); break;
            case 9: w.set_orientation({ 0, 1, 0 }, 2); break;
            case 10: w.set_spin({ 0, 0, 1 }, 0.7); break;
            case 11: w.set_view(20, 60, 2); break;
            case 12: w.set_view(40, 30, 0.8); break;
            case 13: w.now += std::chrono::milliseconds(400); break;
            case 14: w.set_spin({ 0.6, 0.8, 0 }, -0.0); break;
        }
        w.check();
    }
    x.outcome(mc::mix(w.acquired, w.speed != 0));
});

mc::Scenario s2("spin-after-long-drag", 8, [](mc::Ctx& x) {
    // Memory of pointer movement is bounded, so drags are longer than that memory
    World w(x);
    w.set_view(200, 200, 1);
    w.origin = x.pick({ 0L, 12345L });
    int n = x.range(0, x.thorough ? 60 : 45);
    x.shard_point();
    int step = x.pick({ 7, 8, 9, 13, 14, 15, 33, 101 });
    int start = x.choose(3);
    if (start == 1) { w.acquire(); w.track({ 50, 50 }, 0); for (int i = 0; i < 20; ++i) w.track({ 50.0 + i, 60 }, 9); w.release(); w.check(); }
    if (start == 2) w.now += std::chrono::milliseconds(33), w.set_spin({ 0, 1, 0 }, 1);
    w.acquire();
    w.track({ 60, 100 }, 0);
    for (int i = 0; i < n; ++i) { w.track({ double(60 + (i * i) % 71), double(100 + (i * 13) % 40) }, i % 3 == 2 ? step + 2 : step); w.check(); }
    w.release();
    w.check();
    w.acquire(); w.release();   // touching brings it to rest
    w.check();
    x.outcome(n);
});

mc::Scenario s4("spin-after-steady-drag", 8, [](mc::Ctx& x) {
    World w(x);
    w.set_view(2000, 2000, 1);
    w.linear = true;
    int step = x.range(1, x.thorough ? 16 : 10);
    x.shard_point();
    int n = x.range(1, x.thorough ? 250 : 150);
    int dx = x.range(1, 3);
    w.acquire();
    w.track({ 700, 900 }, 0);
    for (int i = 1; i <= n; ++i) w.track({ 700.0 + i * dx, 900.0 + i * 2 }, step);
    w.release();
    w.check();
    x.outcome(n);
});

mc::Scenario s3("all-pairs-of-positions", 16, [](mc::Ctx& x) {
    int vw = x.range(1, x.thorough ? 40 : 24), vh = x.range(1, x.thorough ? 14 : 9);
    x.shard_point();
    double ratio = x.pick({ 1.0, 0.7, 1.5 });
    View v { vw, vh, ratio };
    int step = vw * vh > 100 ? 2 : 1;
    for (int ax = -2; ax <= vw + 2; ax += step) for (int ay = -2; ay <= vh + 2; ay += step)
        for (int bx = -2; bx <= vw + 2; bx += step) for (int by = -2; by <= vh + 2; by += step) {
            render::VirtualTrackball ball;
            ball.set_viewport_size({ vw, vh });
            ball.set_pixel_aspect_ratio(ratio);
            ball.acquire(Clock::time_point());
            ball.track({ ax, ay }, std::chrono::milliseconds(0));
            ball.track({ bx, by }, std::chrono::milliseconds(50));
            auto r = ball.get_orientation(Clock::time_point());
            if (!proper(r)) MC_CHECK(x, false, "improper rotation for ", vw, "x", vh, " ratio ", ratio, " from ", ax, ",", ay, " to ", bx, ",", by);
            Turn u = turn(v.ball({ double(ax), double(ay) }), v.ball({ double(bx), double(by) }));
            if (u.known && !(diff(mat(r), rot(u.axis, u.angle)) < 1e-6)) MC_CHECK(x, false, "wrong rotation for ", vw, "x", vh, " ratio ", ratio, " from ", ax, ",", ay, " to ", bx, ",", by);
            x.eval(1);
        }
});

} // namespace
