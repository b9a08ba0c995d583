// C45: key and modifier events delivered to a render engine
#include "render_stub.hpp"
#include <set>
using namespace archon;
using rstub::code;
using display::Key;

namespace {

struct Scene final : render::Engine::Scene {};

// Physical modifier keys and their modes
const std::vector<std::pair<Key, unsigned>> modifiers = { { Key::shift_left, 1 }, { Key::shift_right, 1 }, { Key::ctrl_left, 2 }, { Key::alt_right, 4 }, { Key::meta_left, 8 } };

mc::Scenario s1("engine-modifier-modes", 16, [](mc::Ctx& x) {
    rstub::gl = {};
    rstub::Conn conn;
    Scene scene;
    render::Engine::Config config;
    config.logger = &log::Logger::get_null();
    render::Engine engine;
    std::string error;
    MC_CHECK(x, engine.try_create(scene, conn, "x", { 64, 64 }, std::locale::classic(), config, error), error);
    std::vector<int> calls;                 // mode that a handler of key X is bound to, negative for release
    for (unsigned mode = 0; mode < 16; ++mode)
        engine.bind_key(Key::small_x, { mode }, render::single_tap, "X", [&calls, mode](bool down) { calls.push_back(down ? int(mode) : -1 - int(mode)); });
    engine.bind_key(display::MouseButton::right, render::modif_shift | render::modif_ctrl, render::double_click, "R", [&calls](bool down) { calls.push_back(down ? 100 : -101); });
    int depth = x.thorough ? 7 : 6;
    std::set<int> held;                     // indexes into modifiers, 10 is X, 11 is mouse button
    int x_mode = -1;
    int presses = 0; unsigned press_mode = 0; bool right_told = false;
    int done = 0;
    long now = 1000;
    auto mode = [&] { unsigned m = 0; for (int i : held) if (i < 5) m |= modifiers[i].second; return m; };
    conn.script = [&](auto) {
        if (done >= depth) { conn.ceh->on_quit(); return false; }
        ++done;
        if (done == 3) x.shard_point();
        int k = x.choose(8);
        calls.clear();
        now += 20;
        std::vector<int> expect;
        bool proceed = true;
        if (k < 7) {
            int key = k < 5 ? k : k + 5;
            bool down = !held.count(key);
            MC_TRACE(x, down ? "press " : "release ", key);
            if (key == 11) {
                display::MouseButtonEvent ev {};
                ev.timestamp = std::chrono::milliseconds(now);
                ev.button = display::MouseButton::right;
                if (down) {
                    presses = presses == 1 && press_mode == mode() ? 2 : 1;
                    press_mode = mode();
                    right_told = presses == 2 && mode() == 3;
                    if (right_told) expect = { 100 };
                }
                else if (right_told) expect = { -101 };
                proceed = down ? conn.weh->on_mousedown(ev) : conn.weh->on_mouseup(ev);
            }
            else {
                display::KeyEvent ev {};
                ev.timestamp = std::chrono::milliseconds(now);
                ev.key_code = code(key == 10 ? Key::small_x : modifiers[key].first);
                if (key == 10) {
                    if (down) { x_mode = int(mode()); expect = { x_mode }; }
                    else expect = { -1 - x_mode };
                }
                proceed = down ? conn.weh->on_keydown(ev) : conn.weh->on_keyup(ev);
            }
            if (down) held.insert(key); else held.erase(key);
        }
        else {
            MC_TRACE(x, "blur");
            if (held.count(10)) expect.push_back(-1 - x_mode);
            if (held.count(11) && right_told) expect.push_back(-101);
            held.clear();
            presses = 0;
            proceed = conn.weh->on_blur({});
        }
        MC_CHECK(x, proceed, "event processing was interrupted");
        MC_CHECK(x, std::multiset<int>(calls.begin(), calls.end()) == std::multiset<int>(expect.begin(), expect.end()), "modifier keys held give mode ", mode(), ": ", calls.size(), " calls, first ", calls.empty() ? -1000 : calls[0],
                 ", but expected ", expect.size(), " calls, first ", expect.empty() ? -1000 : expect[0]);
        x.step();
        return false;
    };
    engine.run();
    x.outcome(mc::mix(mode(), x_mode));
});

} // namespace
