// C49: the render engine's reactions to events: redrawing, ticking, view state, frame rate and quitting
#include "render_stub.hpp"
#include <set>
using namespace archon;
using rstub::code;
using rstub::gl;
using display::Key;
using Clock = std::chrono::steady_clock;

namespace {

struct Model {
    display::Size size { 64, 48 };
    display::Pos pos { 0, 0 };
    double zoom = 1, interest = 2;
    double base_zoom = 1, base_interest = 2;
    bool headlight = true, wireframe = false, fullscreen = false;
    bool headlight_feature = true, wireframe_feature = true;
    display::Resolution resolution = 96 / 2.54;
    double rate = 60;
    bool track_res = true, track_rate = true;
    util::Color bg = util::colors::black;
    bool dirty = true;
    bool turned = false;        // orientation changed by way of mouse since last tick
    bool quit = false;
    bool rate_changed = false;
};

struct Scene final : render::Engine::Scene {
    std::function<void()> on_init, on_render;
    std::function<bool(Clock::time_point)> on_tick;
    void init() override { on_init(); }
    void render() override { on_render(); }
    bool tick(Clock::time_point t) override { return on_tick(t); }
};

bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * std::max({ 1.0, std::abs(a), std::abs(b) }); }

struct World {
    mc::Ctx& x;
    rstub::Conn conn;
    Scene scene;
    render::Engine engine;
    Model m;
    int renders = 0, ticks = 0, inits = 0;
    int renders_seen = 0, ticks_seen = 0;
    bool tick_due = false;
    bool tick_result = false;
    bool first = true;
    Clock::time_point last_deadline {};
    Clock::time_point entered {};       // time of previous return from event processing
    bool last_expired = false;
    int done = 0;
    long now = 1000;
    std::size_t fullscreen_calls = 0;

    explicit World(mc::Ctx& x_) : x(x_) { gl = {}; }

    void init(render::Engine::Config config)
    {
        config.logger = &log::Logger::get_null();
        std::string error;
        MC_CHECK(x, engine.try_create(scene, conn, "x", m.size, std::locale::classic(), config, error), error);
        scene.on_init = [this] { ++inits; MC_CHECK(x, renders == 0 && conn.win->shown == 1 && conn.win->current == 1, "scene initialized at the wrong time"); };
        scene.on_render = [this] { ++renders; check_frame(); };
        scene.on_tick = [this](Clock::time_point) { ++ticks; if (tick_result) m.dirty = true; return tick_result; };
    }
    void check_frame()
    {
        MC_CHECK(x, inits == 1, "rendered before initialization");
        MC_CHECK(x, gl.cleared, "frame was not cleared before rendering");
        gl.cleared = false;
        MC_CHECK(x, gl.light0 == (m.headlight && m.headlight_feature), "headlight is ", gl.light0, " but mode is ", m.headlight);
        MC_CHECK(x, (gl.polygon_mode == GL_LINE) == (m.wireframe && m.wireframe_feature), "wireframe mode is not ", m.wireframe);
        MC_CHECK(x, (gl.viewport[0] == 0 && gl.viewport[1] == 0 && gl.viewport[2] == m.size.width && gl.viewport[3] == m.size.height), "OpenGL viewport is ", gl.viewport[2], "x", gl.viewport[3], " but window is ", m.size.width, "x", m.size.height);
        util::PerspectiveProjection p;
        p.set_resol_dpcm(m.resolution.horz_ppcm, m.resolution.vert_ppcm);
        p.zoom_factor = m.zoom;
        p.set_viewport_size_pixels(m.size.width, m.size.height);
        p.auto_dist(m.interest, p.get_min_field_factor());
        MC_CHECK(x, (near(gl.frustum[1], p.get_near_clip_width() / 2) && near(gl.frustum[0], -gl.frustum[1]) && near(gl.frustum[3], p.get_near_clip_height() / 2) && near(gl.frustum[2], -gl.frustum[3]) &&
                     near(gl.frustum[4], p.get_near_clip_dist()) && near(gl.frustum[5], p.get_far_clip_dist())),
                 "wrong frustum: width ", gl.frustum[1] * 2, " instead of ", p.get_near_clip_width(), ", distance ", gl.frustum[4], " instead of ", p.get_near_clip_dist());
        MC_CHECK(x, near(gl.translate[2], -p.camera_dist), "wrong camera distance");
        math::Vector<4, float> c; m.bg.to_vec(c);
        for (int i = 0; i < 4; ++i) MC_CHECK(x, std::abs(gl.clear_color[i] - c[i]) < 1e-6, "wrong background color");
        m.dirty = false;
    }
    Clock::duration period() const { return std::chrono::duration_cast<Clock::duration>(std::chrono::nanoseconds(long(std::floor(1e9 / m.rate)))); }

    std::vector<display::Viewport> viewports;   // as last fetched
    void fetch() { viewports = conn.viewports; }
    void track()
    {
        display::Box win { m.pos, m.size };
        std::optional<display::Resolution> res; std::optional<double> rate;
        if (conn.have_screen_conf)
            for (auto& v : viewports) {
                bool meet = v.bounds.pos.x < win.pos.x + win.size.width && win.pos.x < v.bounds.pos.x + v.bounds.size.width && v.bounds.pos.y < win.pos.y + win.size.height && win.pos.y < v.bounds.pos.y + v.bounds.size.height;
                if (!meet) continue;
                res = v.resolution; rate = v.refresh_rate;
                break;
            }
        if (m.track_res) { auto r = res.value_or(display::Resolution(96 / 2.54)); if (r != m.resolution) { m.resolution = r; m.dirty = true; } }
        if (m.track_rate) { double r = rate.value_or(60); if (r != m.rate) { m.rate = r; m.rate_changed = true; } }
    }

    // Called on entry to event processing
    void on_entry(Clock::time_point deadline)
    {
        auto t = Clock::now();
        MC_CHECK(x, !m.dirty, "the scene was not redrawn although it had to be");
        MC_CHECK(x, renders == renders_seen, "the scene was redrawn without reason");
        MC_CHECK(x, conn.win->swaps == renders, renders, " frames were rendered, but ", conn.win->swaps, " were presented");
        MC_CHECK(x, ticks == ticks_seen, ticks, " ticks instead of ", ticks_seen);
        MC_CHECK(x, conn.win->fullscreen_calls.size() == fullscreen_calls, "wrong number of fullscreen requests");
        MC_CHECK(x, !m.quit, "engine continues after having been told to quit");
        if (first) { MC_CHECK(x, (deadline <= t + period()), "first deadline is too late"); }
        else if (m.rate_changed) {
            MC_CHECK(x, (deadline >= entered + period() && deadline <= t + period()), "next frame is not scheduled according to the new frame rate ", m.rate);
        }
        else if (!last_expired) MC_CHECK(x, deadline == last_deadline, "deadline changed without tick");
        else {
            auto want = last_deadline + period();
            MC_CHECK(x, (deadline == want || (want < t && deadline >= want && deadline <= t)), "next frame is not scheduled one period after the previous one");
        }
        first = false;
        m.rate_changed = false;
        last_deadline = deadline;
    }
    // To be called before returning from event processing
    bool leave(bool expired)
    {
        if (m.quit) MC_CHECK(x, !expired, "bad script");
        last_expired = expired;
        if ((expired || m.rate_changed) && !m.quit) { ++ticks_seen; if (tick_result || m.turned) m.dirty = true; m.turned = false; }
        // A frame is expected unless quitting
        if (m.dirty && !m.quit) ++renders_seen;
        entered = Clock::now();
        return expired;
    }
    void key(Key k, bool down, bool interrupts)
    {
        display::KeyEvent ev {};
        ev.timestamp = std::chrono::milliseconds(now += 300);
        ev.key_code = code(k);
        bool r = down ? conn.weh->on_keydown(ev) : conn.weh->on_keyup(ev);
        MC_CHECK(x, r == !interrupts, "event processing ", r ? "not interrupted" : "interrupted", " by key event");
    }
};

// One event or call of the engine's interface; returns true if event processing was interrupted
bool event(World& w, int op)
{
    mc::Ctx& x = w.x;
    Model& m = w.m;
    auto mod_zoom = [&](double z) { m.zoom = std::min(32.0, std::max(1 / 8.0, z)); m.dirty = true; };
    switch (op) {
        case 0: MC_TRACE(x, "headlight"); w.key(Key::small_l, true, false); w.key(Key::small_l, false, false); if (m.headlight_feature) { m.headlight = !m.headlight; m.dirty = true; } return false;
        case 1: MC_TRACE(x, "wireframe"); w.key(Key::small_w, true, false); w.key(Key::small_w, false, false); if (m.wireframe_feature) { m.wireframe = !m.wireframe; m.dirty = true; } return false;
        case 2: MC_TRACE(x, "reset view"); w.key(Key::space, true, false); w.key(Key::space, false, false); m.zoom = m.base_zoom; m.interest = m.base_interest; m.turned = false; m.dirty = true; return false;
        case 3: case 4: {
            double a = op == 3 ? 3 : -40;
            MC_TRACE(x, "scroll ", a);
            display::ScrollEvent ev {}; ev.timestamp = std::chrono::milliseconds(w.now); ev.amount = { 0, float(a) };
            MC_CHECK(x, w.conn.weh->on_scroll(ev), "interrupted");
            m.interest *= std::pow(2, -a / 8); m.dirty = true;
            return false;
        }
        case 5: case 6: {
            double a = op == 5 ? 8 : -40;
            MC_TRACE(x, "scroll with shift ", a);
            w.key(Key::shift_left, true, false);
            display::ScrollEvent ev {}; ev.timestamp = std::chrono::milliseconds(w.now); ev.amount = { 0, float(a) };
            MC_CHECK(x, w.conn.weh->on_scroll(ev), "interrupted");
            w.key(Key::shift_left, false, false);
            mod_zoom(m.zoom * std::pow(2, a / 8));
            return false;
        }
        case 7: {
            MC_TRACE(x, "expose");
            MC_CHECK(x, w.conn.weh->on_expose({}), "interrupted");
            m.dirty = true;
            MC_CHECK(x, !w.conn.ceh->before_sleep(), "engine agrees to sleep although the window must be redrawn");
            return true;
        }
        case 8: case 9: {
            MC_TRACE(x, "resize ", op);
            display::WindowSizeEvent ev {}; ev.size = op == 8 ? display::Size(100, 20) : display::Size(64, 48);
            bool r = w.conn.weh->on_resize(ev);
            m.size = ev.size; m.dirty = true;
            w.track();
            MC_CHECK(x, r, "interrupted");
            return false;
        }
        case 10: {
            display::WindowPosEvent ev {}; ev.pos = m.pos.x == 0 ? display::Pos(150, 0) : m.pos.x == 150 ? display::Pos(500, 0) : display::Pos(0, 0);
            MC_TRACE(x, "reposition ", ev.pos.x);
            bool r = w.conn.weh->on_reposition(ev);
            m.pos = ev.pos;
            w.track();
            MC_CHECK(x, r, "interrupted");
            return false;
        }
        case 11: {
            MC_TRACE(x, "screen change");
            if (w.conn.viewports.empty()) return false;
            w.conn.viewports[0].refresh_rate = w.conn.viewports[0].refresh_rate == 100 ? 25 : 100;
            w.conn.viewports[0].resolution = display::Resolution(20 + *w.conn.viewports[0].refresh_rate, 60);
            bool r = w.conn.ceh->on_screen_change(0);
            w.fetch();
            w.track();
            MC_CHECK(x, r, "interrupted");
            return false;
        }
        case 12: MC_TRACE(x, "set zoom"); w.engine.set_zoom_factor(100); mod_zoom(100); return false;
        case 13: MC_TRACE(x, "set frame rate"); w.engine.set_frame_rate(m.rate == 200 ? 50 : 200); m.rate = m.rate == 200 ? 50 : 200; m.rate_changed = true; m.track_rate = false; return false;
        case 14: MC_TRACE(x, "set resolution"); w.engine.set_resolution({ 30, 50 }); m.resolution = { 30, 50 }; m.track_res = false; m.dirty = true; return false;
        case 15: MC_TRACE(x, "set background"); w.engine.set_background_color(util::colors::red); m.bg = util::colors::red; m.dirty = true; return false;
        case 16: MC_TRACE(x, "inc frame rate"); w.key(Key::keypad_add, true, false); w.key(Key::keypad_add, false, false); m.rate *= 2; m.rate_changed = true; m.track_rate = false; return false;
        case 17: MC_TRACE(x, "toggle fullscreen"); w.key(Key::small_f, true, false); w.key(Key::small_f, false, false);
            m.fullscreen = !m.fullscreen; ++w.fullscreen_calls;
            MC_CHECK(x, w.conn.win->fullscreen_calls.size() == w.fullscreen_calls && w.conn.win->fullscreen_calls.back() == m.fullscreen, "wrong fullscreen request");
            return false;
        case 18: MC_TRACE(x, "base zoom"); w.engine.set_base_zoom_factor(m.base_zoom = m.base_zoom == 2 ? 3 : 2); mod_zoom(m.base_zoom); return false;
        case 25: MC_TRACE(x, "base interest size"); w.engine.set_base_interest_size(m.base_interest = m.base_interest == 5 ? 6 : 5); m.interest = m.base_interest; m.dirty = true; return false;
        case 26: {
            MC_TRACE(x, "other screen changes");
            if (w.conn.viewports.empty()) return false;
            w.conn.viewports[0].refresh_rate = w.conn.viewports[0].refresh_rate == 100 ? 20 : 100;
            w.conn.viewports[1].refresh_rate = {};
            MC_CHECK(x, w.conn.ceh->on_screen_change(1), "interrupted");    // does not concern the engine
            return false;
        }
        case 19: {
            MC_TRACE(x, "blur, focus, unbound keys");
            MC_CHECK(x, w.conn.weh->on_blur({}) && w.conn.weh->on_focus({}), "interrupted");
            w.key(Key::small_z, true, false); w.key(Key::small_z, false, false);
            display::KeyEvent ev {}; ev.key_code = code(Key::small_l);
            MC_CHECK(x, w.conn.weh->on_keyrepeat(ev), "interrupted");
            return false;
        }
        case 20: {
            MC_TRACE(x, "mouse");
            display::MouseButtonEvent ev {}; ev.timestamp = std::chrono::milliseconds(++w.now); ev.button = display::MouseButton::left; ev.pos = { 5, 5 };
            MC_CHECK(x, w.conn.weh->on_mousedown(ev), "interrupted");
            for (int t : { 1, 150, 300 }) {
                display::MouseEvent ev2 {}; ev2.timestamp = std::chrono::milliseconds(w.now + t); ev2.pos = { 7, 5 };
                MC_CHECK(x, w.conn.weh->on_mousemove(ev2), "interrupted");
            }
            // Released while at rest, so there will be no spin
            ev.timestamp = std::chrono::milliseconds(w.now += 310); ev.pos = { 7, 5 };
            MC_CHECK(x, w.conn.weh->on_mouseup(ev), "interrupted");
            m.turned = true;
            m.dirty = true;
            return false;
        }
        case 21: MC_TRACE(x, "q"); w.key(Key::small_q, true, true); m.quit = true; return true;
        case 22: MC_TRACE(x, "release q"); w.key(Key::escape, true, true); m.quit = true; return true;
        case 23: MC_TRACE(x, "close"); MC_CHECK(x, !w.conn.weh->on_close({}), "not interrupted"); m.quit = true; return true;
        case 24: MC_TRACE(x, "quit"); MC_CHECK(x, !w.conn.ceh->on_quit(), "not interrupted"); m.quit = true; return true;
    }
    return false;
}
constexpr int n_events = 27;

void run(World& w, int depth, std::function<int(mc::Ctx&)> next)
{
    mc::Ctx& x = w.x;
    w.conn.script = [&](Clock::time_point deadline) {
        w.on_entry(deadline);
        if (w.done >= depth) { w.conn.ceh->on_quit(); w.m.quit = true; return false; }
        for (;;) {
            if (w.done >= depth) return w.leave(true);
            ++w.done;
            int op = next(x);
            x.step();
            if (op < n_events) {
                if (event(w, op)) return w.leave(false);
                if (w.m.rate_changed && w.conn.ceh->before_sleep()) x.fail("engine agrees to sleep although the frame rate changed");
                if (w.m.rate_changed) return w.leave(false);
                continue;
            }
            if (op == n_events) { MC_TRACE(x, "tick"); w.tick_result = false; MC_CHECK(x, w.conn.ceh->before_sleep(), "engine refuses to sleep without reason"); return w.leave(true); }
            MC_TRACE(x, "tick with change"); w.tick_result = true;
            bool r = w.leave(true);
            return r;
        }
    };
    // Initial state of the model
    w.fetch();
    w.track();
    w.m.rate_changed = false;
    w.m.dirty = true;
    ++w.renders_seen;
    w.engine.run();
    MC_CHECK(x, w.m.quit, "engine stopped without having been told to");
    MC_CHECK(x, w.renders == w.renders_seen && w.ticks == w.ticks_seen, "renders or ticks after the end");
    x.outcome(mc::mix(mc::mix(w.renders, w.ticks), mc::mix(w.m.headlight, w.m.wireframe)));
}

void screens(World& w, int k)
{
    if (k == 0) return;
    w.conn.have_screen_conf = true;
    if (k == 1) return;
    display::Viewport a, b;
    a.bounds = { { 0, 0 }, { 100, 100 } }; a.refresh_rate = 100; a.resolution = display::Resolution(50);
    b.bounds = { { 100, 0 }, { 100, 100 } }; b.refresh_rate = 30;
    w.conn.viewports = { a, b };
}

mc::Scenario s1("event-histories", 16, [](mc::Ctx& x) {
    World w(x);
    int sc = x.choose(3);
    screens(w, sc);
    render::Engine::Config config;
    config.screen = 0;
    config.allow_window_resize = true;
    w.init(config);
    int n = 0;
    run(w, x.thorough ? 4 : 3, [&](mc::Ctx& y) { int k = y.choose(n_events + 2); if (++n == 1) y.shard_point(); return k; });
});

mc::Scenario s2("interplay-of-view-settings", 16, [](mc::Ctx& x) {
    World w(x);
    screens(w, 2);
    render::Engine::Config config;
    config.screen = 0;
    w.init(config);
    int n = 0;
    static const int ops[] = { 0, 1, 2, 3, 5, 6, 8, 12, 18, 25, n_events, n_events + 1 };
    run(w, x.thorough ? 6 : 5, [&](mc::Ctx& y) { int k = ops[y.choose(12)]; if (++n == 1) y.shard_point(); return k; });
});

mc::Scenario s3("interplay-of-rates-and-screens", 16, [](mc::Ctx& x) {
    World w(x);
    screens(w, 2);
    render::Engine::Config config;
    config.screen = 0;
    w.m.track_rate = !(config.disable_frame_rate_tracking = x.choose(2));
    w.m.track_res = !(config.disable_resolution_tracking = x.choose(2));
    w.init(config);
    int n = 0;
    static const int ops[] = { 7, 8, 10, 11, 13, 14, 16, 26, n_events };
    run(w, x.thorough ? 6 : 5, [&](mc::Ctx& y) { int k = ops[y.choose(9)]; if (++n == 1) y.shard_point(); return k; });
});

mc::Scenario s4("configurations", 16, [](mc::Ctx& x) {
    World w(x);
    render::Engine::Config config;
    config.screen = 0;
    w.m.headlight_feature = !(config.disable_headlight_feature = x.choose(2));
    w.m.wireframe_feature = !(config.disable_wireframe_feature = x.choose(2));
    w.m.headlight = config.headlight_mode = x.choose(2);
    w.m.wireframe = config.wireframe_mode = x.choose(2);
    x.shard_point();
    config.allow_window_resize = x.choose(2);
    config.disable_frame_rate_control = x.choose(2);
    config.fullscreen_mode = w.m.fullscreen = x.choose(2);
    double z = x.pick({ 1.0, 4.0, 0.01 });
    config.zoom_factor = z;
    w.m.base_zoom = w.m.zoom = z < 1 / 8.0 ? 1 / 8.0 : z;
    config.interest_size = w.m.base_interest = w.m.interest = x.choose(2) ? 7 : 2;
    w.init(config);
    MC_CHECK(x, (w.conn.win_config.resizable == config.allow_window_resize && w.conn.win_config.fullscreen == config.fullscreen_mode && w.conn.win_config.enable_opengl_rendering && w.conn.win_config.screen == 0), "wrong window configuration");
    run(w, 2, [&](mc::Ctx& y) {
        int k = y.pick({ 0, 1, 2, 16, 17, n_events });
        if ((k == 16 && config.disable_frame_rate_control) || (k == 17 && !config.allow_window_resize)) {
            w.key(k == 16 ? Key::keypad_add : Key::small_f, true, false);       // must have no effect
            w.key(k == 16 ? Key::keypad_add : Key::small_f, false, false);
            k = n_events;
        }
        return k;
    });
});

mc::Scenario s5("failure-to-create", 1, [](mc::Ctx& x) {
    rstub::Conn conn;
    Scene scene;
    render::Engine engine;
    render::Engine::Config config;
    config.logger = &log::Logger::get_null();
    conn.fail_window = true;
    std::string error;
    if (x.choose(2)) {
        MC_CHECK(x, !engine.try_create(scene, conn, "x", { 5, 5 }, std::locale::classic(), config, error), "succeeded without window");
        MC_CHECK(x, error.find("no window today") != std::string::npos, "reason not reported: ", error);
        conn.fail_window = false;
        MC_CHECK(x, engine.try_create(scene, conn, "x", { 5, 5 }, std::locale::classic(), config, error), "cannot be created after failure");
    }
    else {
        bool threw = false;
        try { engine.create(scene, conn, "x", { 5, 5 }, std::locale::classic(), config); } catch (std::runtime_error&) { threw = true; }
        MC_CHECK(x, threw, "failure not reported");
    }
    x.eval(1);
});

} // namespace
