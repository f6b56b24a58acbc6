// Messages are not analysed: formatting yields some text.
#pragma once
#include <string>
#include <string_view>
#include <type_traits>
#include <cstdint>
// told every number that is printed, if set
inline void (*vp_fmt_hook)(std::uint64_t) = nullptr;
template <class A> inline void vp_fmt_tell(const A& a) { if constexpr (std::is_convertible_v<const A&, std::uint64_t>) vp_fmt_hook(static_cast<std::uint64_t>(a)); }
namespace fmt {
using string_view = std::string_view;
template <typename T, typename C = char> struct formatter {
    template <typename Ctx> constexpr auto parse(Ctx& c) { return c.begin(); }
    template <typename V, typename Ctx> auto format(const V&, Ctx& c) const { return c.out(); }
};
template <typename... A> inline std::string format(std::string_view, const A&... a) { if (vp_fmt_hook) (vp_fmt_tell(a), ...); return std::string(); }
template <typename... A> inline void print(std::string_view, const A&...) {}
template <typename... A> inline void print(std::FILE*, std::string_view, const A&...) {}
}
