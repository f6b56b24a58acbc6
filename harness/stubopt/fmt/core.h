// Formatting of characters and texts, exactly; anything else yields no text.
#pragma once
#include <string>
#include <string_view>
#include <type_traits>
#include <cstdint>
#include <cstdio>
#include <memory>
#include <span>
namespace fmt {
using string_view = std::string_view;
template <typename T, typename C = char> struct formatter {
    template <typename Ctx> constexpr auto parse(Ctx& c) { return c.begin(); }
    template <typename V, typename Ctx> auto format(const V&, Ctx& c) const { return c.out(); }
};
struct vp_ctx { std::string* o; std::string* out() const { return o; } };
template <> struct formatter<string_view, char> {
    template <typename Ctx> constexpr auto parse(Ctx& c) { return c.begin(); }
    template <typename Ctx> auto format(string_view v, Ctx& c) const { c.out()->append(v.data(), v.size()); return c.out(); }
};
template <class A> inline void vp_put(std::string& o, const A& a) {
    if constexpr (std::is_same_v<A, char>) o.push_back(a);
    else if constexpr (std::is_convertible_v<const A&, std::string_view>) { std::string_view v(a); o.append(v.data(), v.size()); }
    else if constexpr (std::is_enum_v<A>) { vp_ctx c{&o}; formatter<A>().format(a, c); }
}
inline const char* vp_until(std::string& o, const char* f) { const char* e = f; while (*e != 0 && *e != '{') ++e; o.append(f, static_cast<std::size_t>(e - f)); return *e != 0 ? e + 2 : e; }
template <typename... A> inline std::string format(const char* f, const A&... a) { std::string o; ((f = vp_until(o, f), vp_put(o, a)), ...); vp_until(o, f); return o; }
inline std::string vp_printed;
template <typename... A> inline void print(const char* f, const A&... a) { vp_printed = format(f, a...); }
}
