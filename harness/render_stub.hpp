// A display back end without a display, and recording stand-ins for the OpenGL functions, for the render engine
#pragma once
#include "mc.hpp"
#include <chrono>
#include <cmath>
#include <functional>
#include <locale>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/span.hpp>
#include <archon/core/flat_map.hpp>
#include <archon/math/vector.hpp>
#include <archon/math/rotation.hpp>
#include <archon/log/logger.hpp>
#include <archon/util/color.hpp>
#include <archon/util/colors.hpp>
#include <archon/util/perspect_proj.hpp>
#include <archon/display/geometry.hpp>
#include <archon/display/key.hpp>
#include <archon/display/key_code.hpp>
#include <archon/display/mouse_button.hpp>
#include <archon/display/event.hpp>
#include <archon/display/event_handler.hpp>
#include <archon/display/resolution.hpp>
#include <archon/display/viewport.hpp>
#include <archon/display/texture.hpp>
#include <archon/display/window.hpp>
#include <archon/display/implementation.hpp>
#include <archon/display/connection.hpp>
#include <archon/render/engine.hpp>
#include <archon/render/opengl.hpp>

namespace rstub {
using namespace archon;

struct Gl {
    bool light0 = false;
    unsigned polygon_mode = GL_FILL;
    float clear_color[4] = {};
    double frustum[6] = {};
    int viewport[4] = {};
    double translate[3] = {};
    double rotate[4] = {};
    bool cleared = false;
    unsigned matrix_mode = 0;
};
inline Gl gl;

struct Win;
struct Conn final : display::Connection {
    display::ConnectionEventHandler* ceh = nullptr;
    display::WindowEventHandler* weh = nullptr;
    Win* win = nullptr;
    display::Window::Config win_config;
    std::vector<display::Viewport> viewports;
    bool have_screen_conf = false;
    bool fail_window = false;
    std::function<bool(time_point_type)> script;

    bool try_map_key_to_key_code(display::Key key, display::KeyCode& code) const override
    {
        if (key == display::Key::meta_right) return false;      // a key that the platform does not have
        code.code = 1000u + unsigned(key);
        return true;
    }
    bool try_map_key_code_to_key(display::KeyCode, display::Key&) const override { return false; }
    bool try_get_key_name(display::KeyCode, std::string_view&) const override { return false; }
    bool try_new_window(std::string_view, display::Size, const display::Window::Config&, std::unique_ptr<display::Window>&, std::string&) override;
    void set_event_handler(display::ConnectionEventHandler& h) override { ceh = &h; }
    void process_events() override {}
    bool process_events_a(time_point_type deadline) override { return script(deadline); }
    int get_num_screens() const override { return 2; }
    int get_default_screen() const override { return 0; }
    bool try_get_screen_conf(int, core::Buffer<display::Viewport>& buf, core::Buffer<char>&, std::size_t& n) const override
    {
        if (!have_screen_conf) return false;
        buf.reserve(viewports.size(), 0);
        std::copy(viewports.begin(), viewports.end(), buf.data());
        n = viewports.size();
        return true;
    }
    auto get_implementation() const noexcept -> const display::Implementation& override { std::abort(); }
};

struct Win final : display::Window {
    Conn& conn;
    int shown = 0, current = 0, swaps = 0;
    std::vector<bool> fullscreen_calls;
    std::vector<std::string> titles;
    std::vector<display::Size> sizes;
    explicit Win(Conn& c) : conn(c) { c.win = this; }
    ~Win() noexcept override { conn.win = nullptr; }
    void set_event_handler(display::WindowEventHandler& h) override { conn.weh = &h; }
    void show() override { ++shown; }
    void hide() override {}
    void set_title(std::string_view t) override { titles.emplace_back(t); }
    void set_size(display::Size s) override { sizes.push_back(s); }
    void set_fullscreen_mode(bool on) override { fullscreen_calls.push_back(on); }
    void fill(util::Color) override {}
    void fill(util::Color, const display::Box&) override {}
    auto new_texture(display::Size) -> std::unique_ptr<display::Texture> override { return {}; }
    void put_texture(const display::Texture&, const display::Pos&) override {}
    void put_texture(const display::Texture&, const display::Box&, const display::Pos&) override {}
    void present() override {}
    void opengl_make_current() override { ++current; }
    void opengl_swap_buffers() override { ++swaps; }
};

inline bool Conn::try_new_window(std::string_view, display::Size, const display::Window::Config& c, std::unique_ptr<display::Window>& w, std::string& error)
{
    if (fail_window) { error = "no window today"; return false; }
    win_config = c;
    w = std::make_unique<Win>(*this);
    return true;
}

inline display::KeyCode code(display::Key k) { return { 1000u + unsigned(k) }; }

} // namespace rstub

extern "C" {
void glLightfv(GLenum, GLenum, const GLfloat*) {}
void glEnable(GLenum what) { if (what == GL_LIGHT0) rstub::gl.light0 = true; }
void glDisable(GLenum what) { if (what == GL_LIGHT0) rstub::gl.light0 = false; }
void glPolygonMode(GLenum, GLenum mode) { rstub::gl.polygon_mode = mode; }
void glMatrixMode(GLenum m) { rstub::gl.matrix_mode = m; }
void glLoadIdentity() {}
void glTranslated(GLdouble a, GLdouble b, GLdouble c) { rstub::gl.translate[0] = a; rstub::gl.translate[1] = b; rstub::gl.translate[2] = c; }
void glRotated(GLdouble a, GLdouble b, GLdouble c, GLdouble d) { double v[] = { a, b, c, d }; std::copy(v, v + 4, rstub::gl.rotate); }
void glClear(GLbitfield) { rstub::gl.cleared = true; }
void glClearColor(GLclampf a, GLclampf b, GLclampf c, GLclampf d) { float v[] = { a, b, c, d }; std::copy(v, v + 4, rstub::gl.clear_color); }
void glFrustum(GLdouble a, GLdouble b, GLdouble c, GLdouble d, GLdouble e, GLdouble f) { double v[] = { a, b, c, d, e, f }; std::copy(v, v + 6, rstub::gl.frustum); }
void glViewport(GLint a, GLint b, GLsizei c, GLsizei d) { int v[] = { a, b, c, d }; std::copy(v, v + 4, rstub::gl.viewport); }
GLenum glGetError() { return GL_NO_ERROR; }
}
