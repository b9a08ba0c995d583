// Shared parts of the C27 harness: registry of pattern function signatures, and reference model of pattern matching.
#pragma once
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <variant>
#include <vector>
#include <memory>
#include <array>
#include <thread>
#include <locale>

#include <archon/core/assert.hpp>
#include <archon/core/features.h>
#include <archon/cli.hpp>

namespace c27 {

namespace cli = archon::cli;
namespace core = archon::core;

// ---- rendering of what pattern functions receive ----

inline void render(std::string& o, const std::string& s)
{
    o += '<';
    o += s;
    o += '>';
}
inline void render(std::string& o, const std::wstring& s)
{
    o += '<';
    for (wchar_t c : s)
        o += char(c);
    o += '>';
}
template<class... U> void render(std::string& o, const std::tuple<U...>&);
template<class U> void render(std::string& o, const std::optional<U>&);
template<class U> void render(std::string& o, const std::vector<U>&);
template<class... U> void render(std::string& o, const std::variant<U...>&);
template<class... U> void render(std::string& o, const std::tuple<U...>& t)
{
    std::apply([&](const auto&... e) { (render(o, e), ...); }, t);
}
template<class U> void render(std::string& o, const std::optional<U>& v)
{
    o += '[';
    if (v) {
        o += '+';
        render(o, *v);
    }
    o += ']';
}
template<class U> void render(std::string& o, const std::vector<U>& v)
{
    o += '{';
    for (const auto& e : v) {
        render(o, e);
        o += ';';
    }
    o += '}';
}
template<class... U> void render(std::string& o, const std::variant<U...>& v)
{
    o += '(';
    o += char('0' + v.index());
    o += ':';
    std::visit([&](const auto& e) { render(o, e); }, v);
    o += ')';
}

// ---- registry of signatures ----

using Adder = void (*)(cli::Spec&, const std::string& pattern, int attr, int ret, std::function<void(std::string)> sink);
std::map<std::string, Adder, std::less<>>& registry();

template<class... P> void adder(cli::Spec& spec, const std::string& pattern, int attr, int ret, std::function<void(std::string)> sink)
{
    pat(pattern, attr, spec, "Lorem ipsum.", [sink, ret](P... p) -> int {
        std::string s;
        (render(s, p), ...);
        sink(std::move(s));
        return ret;
    });
}

using V = std::string;
template<class... U> using S = std::tuple<U...>;
template<class... U> using O = std::optional<std::tuple<U...>>;
template<class... U> using R = std::vector<std::tuple<U...>>;
template<class... U> using A = std::variant<U...>;

template<class... P> void reg(const char* key)
{
    registry()[key] = &adder<P...>;
}

void reg_0();
void reg_1();
void reg_2();
void reg_3();

} // namespace c27
