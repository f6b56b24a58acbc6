// String cases, part 3: conversions between stdb::memory::string and std::string, views and output streams.
// Compiled with -D_GLIBCXX_EXTERN_TEMPLATE=0 so that the code of std::string is analysed, too.
#include "str.hpp"
#include <ostream>
#include <string>
extern "C" void vp_out_same(std::size_t n, int slot, std::size_t off, const char* msg);
using stdb::memory::toStdString;
#define STD(t, m, slot, from, what) vp_check(t.size() == (m), what); vp_same(t.data(), m, slot, from, what);
MX_(i_to_string, , 0, std::string t(std::to_string(cs)); STD(t, n, 0, 0, "to_string() keeps the text"))
MX_(i_toStdString, , 0, std::string t(toStdString(cs)); STD(t, n, 0, 0, "toStdString() keeps the text"))
MX_(i_toStdString_m, , 0, std::string t(cs.toStdString()); STD(t, n, 0, 0, "toStdString() keeps the text"))
MX_(i_view, , 0, std::string_view t(cs); STD(t, n, 0, 0, "the view covers the text"))
MX_(i_out, , 0, std::ostream& os = *reinterpret_cast<std::ostream*>(vp_wbytes(4096, "os")); os << cs; vp_out_same(n, 0, 0, "operator<< writes the text"))
MOD(i_from_std, M, m, std::string t(a + n, m); s = t; STD(t, m, 0, n, "the argument is left alone"), IS(m, n, "assignment from std::string"))
MOD(i_ctor_std, M, m, std::string t(a + n, m); string u(t); inv(u, m); vp_same(u.c_str(), m, 0, n, "construction from std::string"), IS(n, 0, "unaffected"))
#define MXS(name, stmt) MX_(i_##name, M, m, std::string t(a + n, m); stmt)
MXS(eq, bool e = n == m && std::memcmp(a, a + n, n) == 0; vp_check((cs == t) == e && (t == cs) == e && (cs != t) == !e && (t != cs) == !e, "equality with std::string"))
MXS(less, int r = cmp3(a, n, a + n, m); vp_check((cs < t) == (r < 0) && (cs > t) == (r > 0) && (cs <= t) == (r <= 0) && (cs >= t) == (r >= 0), "ordering with std::string"))
MXS(lessl, int r = cmp3(a, n, a + n, m); vp_check((t < cs) == (r > 0) && (t > cs) == (r < 0) && (t <= cs) == (r >= 0) && (t >= cs) == (r <= 0), "ordering with std::string"))
MXS(ship, int r = cmp3(a, n, a + n, m); auto o = cs <=> t; vp_check((o < 0) == (r < 0) && (o > 0) == (r > 0), "operator<=> with std::string"))
