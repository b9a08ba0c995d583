// C45: dispatching of key events to handlers (KeyBindings)
#include "mc.hpp"
#include <chrono>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/pair.hpp>
#include <archon/core/flat_map.hpp>
#include <archon/display/key_code.hpp>
#include <archon/display/mouse_button.hpp>
#include <archon/render/key_binding_support.hpp>
#include <archon/render/impl/key_bindings.hpp>
using namespace archon;
using render::impl::KeyBindings;
using Ms = std::chrono::milliseconds;

namespace {

// Reference
struct Model {
    struct Key {
        std::map<std::pair<unsigned, int>, int> bound;   // (modifier mode, multiplicity) -> handler
        bool pressed = false;
        int count = 0;          // length of current series of presses
        long time = 0;
        unsigned mode = 0;      // modifier mode of last press
        int active = -1;        // handler that was told about the press
    };
    std::map<int, Key> keys;
    unsigned mode = 0;

    // Returns the handler that must be called, or -1
    int down(int k, long t)
    {
        auto i = keys.find(k);
        if (i == keys.end() || i->second.pressed) return -1;
        Key& s = i->second;
        int most = 0;
        for (auto& e : s.bound) most = std::max(most, e.first.second);
        bool series = s.count > 0 && s.mode == mode && t - s.time <= 250 && s.count < most;
        s.count = series ? s.count + 1 : 1;
        s.pressed = true; s.time = t; s.mode = mode;
        auto j = s.bound.find({ mode, s.count });
        s.active = j == s.bound.end() ? -1 : j->second;
        return s.active;
    }
    int up(int k)
    {
        auto i = keys.find(k);
        if (i == keys.end() || !i->second.pressed) return -1;
        i->second.pressed = false;
        return i->second.active;
    }
};

KeyBindings::KeyIdent ident(int k)
{
    switch (k) {
        case 0: return KeyBindings::KeyIdent(display::KeyCode { 7 });
        case 1: return KeyBindings::KeyIdent(display::MouseButton::right);
        case 2: return KeyBindings::KeyIdent(display::KeyCode { 1000000 });
        case 3: return KeyBindings::KeyIdent(display::MouseButton::middle);
        default: return KeyBindings::KeyIdent(display::KeyCode { 10 - k });
    }
}

struct Handler_error {};

// Behaviours of handlers
enum Act { proceed, interrupt, shift_on_off, bind_other, register_many, fail_down, fail_up, rebind_self, n_acts };

struct World {
    mc::Ctx& x;
    KeyBindings kb;
    Model m;
    std::vector<int> acts;
    struct Call { int handler; bool down; };
    std::vector<Call> calls;
    struct Self { World* w; int h; };
    std::vector<std::unique_ptr<Self>> selves;
    std::vector<render::KeyHandlerIdent> ids;
    long now = 0;
    bool blurring = false;
    std::multiset<int> to_release;     // during blur: handlers still to be told about release

    explicit World(mc::Ctx& x_) : x(x_) {}

    void add(int act)
    {
        int h = int(acts.size());
        acts.push_back(act);
        // The function object is small and trivial, and therefore lives directly inside the registry
        auto self = std::make_unique<Self>(Self { this, h });
        ids.push_back(kb.register_handler("handler", [p = self.get()](bool down) {
            p->w->act(p->h, down);
            return p->w->returns(p->h);
        }));
        selves.push_back(std::move(self));
    }
    void act(int h, bool down)
    {
        calls.push_back({ h, down });
        switch (acts[h]) {
            case shift_on_off: {
                auto md = kb.get_modifier_mode();
                kb.set_modifier_mode(down ? (md | render::modif_shift) : (md & ~render::modif_shift));
                break;
            }
            case bind_other: if (!down) { for (int k = 3; k < 9; ++k) { bind(k, 0, 1, 0); bind(k, 1, 2, h); } } break;
            case register_many: for (int i = 0; i < 5; ++i) kb.register_handler("x", [](bool) { return true; }); break;
            case rebind_self: bind(0, 0, 1, h); break;
            case fail_down: if (down) throw Handler_error(); break;
            case fail_up: if (!down) throw Handler_error(); break;
        }
    }
    void bind(int k, unsigned mode, int mult, int h)
    {
        kb.bind_key(ident(k), { mode }, { mult }, ids[h]);
        m.keys[k].bound[{ mode, mult }] = h;
        m.keys[k].count = 0;    // reconfiguration ends any series of presses
    }
    void model_effect(int h, bool down)
    {
        if (acts[h] == shift_on_off) m.mode = down ? (m.mode | 1) : (m.mode & ~1u);
    }
    bool returns(int h) const { return acts[h] != interrupt; }
    bool throws(int h, bool down) const { return (acts[h] == fail_down && down) || (acts[h] == fail_up && !down); }

    void expect(const char* what, int h, bool down, std::function<bool()> f)
    {
        calls.clear();
        bool ret = true, thrown = false;
        try { ret = f(); }
        catch (Handler_error&) { thrown = true; }
        if (h < 0) {
            MC_CHECK(x, calls.empty(), what, ": handler ", calls.empty() ? -1 : calls[0].handler, " was called, but none should");
            MC_CHECK(x, ret && !thrown, what, ": event processing interrupted");
            return;
        }
        MC_CHECK(x, (calls.size() == 1 && calls[0].handler == h && calls[0].down == down), what, ": expected one call of handler ", h, ", got ", calls.size(), " calls, first of ", calls.empty() ? -1 : calls[0].handler);
        MC_CHECK(x, thrown == throws(h, down), what, ": exception lost or invented");
        if (!thrown) MC_CHECK(x, ret == returns(h), what, ": returned ", ret);
        model_effect(h, down);
        check_mode(what);
    }
    void check_mode(const char* what) { MC_CHECK(x, kb.get_modifier_mode().value == m.mode, what, ": modifier mode is ", kb.get_modifier_mode().value, " instead of ", m.mode); }

    void down(int k, long dt)
    {
        now += dt;
        MC_TRACE(x, "down ", k, " at ", now);
        int h = m.down(k, now);
        expect("key press", h, true, [&] { return kb.on_keydown(ident(k), Ms(now)); });
    }
    void up(int k)
    {
        MC_TRACE(x, "up ", k);
        int h = m.up(k);
        expect("key release", h, false, [&] { return kb.on_keyup(ident(k), Ms(now)); });
    }
    // One step of blur processing
    void blur_step(bool first)
    {
        MC_TRACE(x, first ? "blur" : "resume");
        if (first) {
            to_release.clear();
            for (auto& e : m.keys) {
                if (e.second.pressed && e.second.active >= 0) to_release.insert(e.second.active);
                e.second.pressed = false;
                e.second.count = 0;
            }
            blurring = true;
        }
        calls.clear();
        bool ret = true, thrown = false;
        try { ret = first ? kb.on_blur() : kb.resume_incomplete_on_blur_if_any(); }
        catch (Handler_error&) { thrown = true; }
        if (!first && !blurring) {
            MC_CHECK(x, (calls.empty() && ret && !thrown), "resumption with nothing to resume has effects");
            return;
        }
        for (std::size_t i = 0; i < calls.size(); ++i) {
            auto& c = calls[i];
            auto j = to_release.find(c.handler);
            MC_CHECK(x, (!c.down && j != to_release.end()), "handler ", c.handler, " was called with ", c.down, " on loss of focus");
            to_release.erase(j);
            bool last = i + 1 == calls.size();
            bool stops = !returns(c.handler) || throws(c.handler, false);
            MC_CHECK(x, (!stops || last), "processing was not interrupted by handler ", c.handler);
            if (last && stops) MC_CHECK(x, (thrown == throws(c.handler, false) && (thrown || !ret)), "interruption or exception lost");
            model_effect(c.handler, false);
        }
        bool stopped = !calls.empty() && (!returns(calls.back().handler) || throws(calls.back().handler, false));
        if (!stopped) {
            MC_CHECK(x, (ret && !thrown), "event processing interrupted without reason");
            MC_CHECK(x, to_release.empty(), "handler ", *to_release.begin(), " was not told about release on loss of focus");
            blurring = false;
        }
        check_mode("loss of focus");
    }
    std::uint64_t digest() const
    {
        std::uint64_t d = m.mode;
        for (auto& e : m.keys) {
            d = mc::mix(d, e.first);
            for (auto& b : e.second.bound) d = mc::mix(mc::mix(mc::mix(d, b.first.first), b.first.second), b.second);
            d = mc::mix(mc::mix(mc::mix(d, e.second.pressed), e.second.count), mc::mix(e.second.mode, e.second.active));
            d = mc::mix(d, std::min(now - e.second.time, 251l));
        }
        d = mc::mix(d, blurring);
        for (int h : to_release) d = mc::mix(d, h);
        return d;
    }
};

void choose_bindings(World& w, mc::Ctx& x, int num_handlers)
{
    // Sets of bindings of keys 0 and 1
    switch (x.choose(8)) {
        case 0: w.bind(0, 0, 1, 0); break;
        case 1: w.bind(0, 0, 1, 0); w.bind(0, 0, 2, 1 % num_handlers); break;
        case 2: w.bind(0, 0, 2, 0); break;
        case 3: w.bind(0, 0, 1, 0); w.bind(0, 0, 3, 1 % num_handlers); w.bind(1, 0, 1, 0); break;
        case 4: w.bind(0, 0, 1, 0); w.bind(0, 1, 1, 1 % num_handlers); w.bind(1, 0, 1, 1 % num_handlers); w.bind(1, 1, 2, 0); break;
        case 5: w.bind(0, 1, 2, 0); w.bind(0, 0, 1, 1 % num_handlers); w.bind(1, 0, 2, 1 % num_handlers); break;
        case 6: w.bind(0, 0, 1, 0); w.bind(0, 0, 1, 1 % num_handlers); w.bind(1, 0, 1, 0); w.bind(1, 0, 2, 0); break;
        case 7: w.bind(0, 3, 1, 0); w.bind(0, 1, 1, 1 % num_handlers); w.bind(1, 2, 1, 0); w.bind(1, 1, 1, 1 % num_handlers); w.bind(1, 0, 1, 0); break;
    }
}

void run(mc::Ctx& x, int depth, std::vector<int> first, std::vector<int> second)
{
    World w(x);
    w.add(first[x.choose(int(first.size()))]);
    w.add(second[x.choose(int(second.size()))]);
    choose_bindings(w, x, 2);
    x.shard_point();
    for (int i = 0; i < depth; ++i) {
        int op = x.choose(13);
        if (w.blurring && op != 9 && op != 11) return x.prune();    // not allowed in this state
        switch (op) {
            case 0: w.down(0, 10); break;
            case 1: w.down(0, 250); break;
            case 2: w.down(0, 251); break;
            case 3: w.up(0); break;
            case 4: w.down(1, 10); break;
            case 5: w.down(1, 240); break;
            case 6: w.up(1); break;
            case 7: w.down(2, 1); w.up(2); break;       // a key with no bindings
            case 8: if (w.blurring) return x.prune(); w.blur_step(true); break;
            case 9: w.blur_step(false); break;
            case 10: { unsigned md = (w.m.mode + 1) % 4; w.m.mode = md; w.kb.set_modifier_mode({ md }); MC_TRACE(x, "mode ", md); break; }
            case 11: MC_TRACE(x, "bind"); w.bind(0, 1, 1, 1); break;
            case 12: MC_TRACE(x, "bind"); w.bind(1, 0, 3, 0); break;
        }
        x.step();
        x.state(w.digest());
    }
    x.outcome(w.digest());
}

mc::Scenario s1("histories", 16, [](mc::Ctx& x) { run(x, x.thorough ? 6 : 5, { proceed }, { proceed, shift_on_off, interrupt }); });
mc::Scenario s2("handlers-with-effects", 16, [](mc::Ctx& x) {
    run(x, x.thorough ? 5 : 4, { shift_on_off, interrupt, bind_other, register_many, fail_down, fail_up, rebind_self }, { proceed, interrupt, bind_other, register_many, shift_on_off, fail_up, rebind_self });
});

// Long series of presses of one key
mc::Scenario s3("series-of-presses", 8, [](mc::Ctx& x) {
    World w(x);
    for (int i = 0; i < 4; ++i) w.add(proceed);
    int set = x.range(1, 31);           // which multiplicities are bound without and with modifier
    for (int i = 0; i < 3; ++i) if (set >> i & 1) w.bind(0, 0, i + 1, i);
    if (set >> 3 & 1) w.bind(0, 1, 1, 3);
    if (set >> 4 & 1) w.bind(0, 1, 4, 2);
    x.shard_point();
    int n = x.thorough ? 9 : 7;
    for (int i = 0; i < n; ++i) {
        int k = x.choose(4);
        if (k == 3) { w.m.mode ^= 1; w.kb.set_modifier_mode({ w.m.mode }); }
        w.down(0, k == 0 ? 0 : k == 1 ? 250 : k == 2 ? 251 : 100);
        w.down(0, 0);       // repeated event
        w.up(0);
        w.up(0);
        x.step();
        x.state(w.digest());
    }
    x.outcome(w.digest());
});

// Invalid handler identifiers
mc::Scenario s4("invalid-handlers", 1, [](mc::Ctx& x) {
    KeyBindings kb;
    int n = x.choose(3);
    int calls = 0;
    for (int i = 0; i < n; ++i) {
        auto id = kb.register_handler("h", [&](bool) { ++calls; return true; });
        MC_CHECK(x, id.value == i, "unexpected identifier");
    }
    int v = x.pick({ -1, 0, 1, 2, 3, std::numeric_limits<int>::min(), std::numeric_limits<int>::max() });
    bool threw = false;
    try { kb.bind_key(ident(0), {}, { 1 }, { v }); } catch (std::invalid_argument&) { threw = true; }
    MC_CHECK(x, threw == (v < 0 || v >= n), "handler identifier ", v, " of ", n);
    kb.on_keydown(ident(0), Ms(0));
    MC_CHECK(x, calls == !threw, "binding that failed has effect");
    x.eval(1);
});

} // namespace
