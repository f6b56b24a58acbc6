// Strings of two arenas: whatever passes between them, the text of a string lies in the arena its allocator names.
#define VP_ARENA
#include "vp.hpp"
#include <stdexcept>
#include <string_view>
#include <utility>
#include "astr.hpp"
#undef world
static constexpr std::size_t MX = 1ull << 30;
#ifndef VP_CMIN
#define VP_CMIN 0
#define VP_CMAX MX
#define VP_DMIN 0
#define VP_DMAX MX
#endif
static Res *RA, *RB;
// the arena of x keeps its memory, the other one gives everything back: x still has its text
static void keeps(const arena_string& x, const char* msg) {
    auto* r = x.get_allocator().resource();
    vp_check(r == RA || r == RB, msg);
    (r == RA ? RB : RA)->release();
}
#define HOME "the text of a string lies in the arena of its allocator"
// s holds in[0, n) and belongs to arena A, t holds in[n, n + m) and belongs to arena B
#define TWO(name, pre, stmt, outs, outt)                                                                                \
    CASE(two_##name) {                                                                                                   \
        std::size_t c = vp_size(VP_CMIN, VP_CMAX, "cap"), n = vp_size(0, c, "n"), d = vp_size(VP_DMIN, VP_DMAX, "cap2"), m = vp_size(0, d, "m"); pre \
        const char* a = vp_bytes(n + m, "in"); vp_snap(0, a, n + m);                                                     \
        Res ra, rb; ra.many = rb.many = true; RA = &ra; RB = &rb; R = &ra;                                               \
        {                                                                                                                \
            string s(&ra), t(&rb);                                                                                       \
            if (c > 0) s.reserve(c); if (n > 0) s.append(a, n); if (d > 0) t.reserve(d); if (m > 0) t.append(a + n, m);  \
            stmt;                                                                                                        \
            if (vp_bool()) { keeps(s, HOME); outs } else { keeps(t, HOME); outt }                                        \
        }                                                                                                                \
        ra.release(); rb.release(); vp_reach("end");                                                                     \
    }
static void whole(const arena_string& x, std::size_t k, std::size_t from, const char* msg) { vp_check(x.size() == k && x.c_str()[k] == 0, msg); vp_same(x.c_str(), k, 0, from, msg); }
#define S_OLD whole(s, n, 0, HOME);
#define T_OLD whole(t, m, n, HOME);
#define S_T whole(s, m, n, HOME);
#define T_S whole(t, n, 0, HOME);
#define ANY(x) vp_check(x.size() <= x.capacity() && x.c_str()[x.size()] == 0, HOME);
#define T_TS vp_check(t.size() == m + n && t.c_str()[m + n] == 0, HOME); vp_same(t.c_str(), m, 0, n, HOME); vp_same(t.c_str() + m, n, 0, 0, HOME);
#define T_ST whole(t, m + n, 0, HOME);
TWO(copy_assign, , t = s, S_OLD, T_S)
TWO(move_assign, , t = std::move(s), ANY(s), T_S)
TWO(swap, , t.swap(s), S_T, T_S)
TWO(swap_free, , swap(static_cast<arena_string&>(t), static_cast<arena_string&>(s)), S_T, T_S)
TWO(assign, , t.assign(s), S_OLD, T_S)
TWO(assign_ptr, , t.assign(s.c_str(), n), S_OLD, T_S)
TWO(assign_rv, , t.assign(std::move(s)), ANY(s), T_S)
TWO(append, , t.append(s), S_OLD, T_TS)
TWO(plus_eq, , t += s, S_OLD, T_TS)
TWO(insert, , t.insert(0, s), S_OLD, T_ST)
TWO(plus, , arena_string u(s + t); s = u, whole(s, n + m, 0, HOME);, T_OLD)
TWO(plus_t, , arena_string u(s + t); t = u, S_OLD, T_ST)
TWO(plus_rv, , arena_string u(std::move(s) + std::move(t)); t = std::move(u), ANY(s), T_ST)
TWO(plus_rv1, , arena_string u(std::move(s) + t); s = u, whole(s, n + m, 0, HOME);, T_OLD)
TWO(plus_rv2, , arena_string u(s + std::move(t)); s = u, whole(s, n + m, 0, HOME);, ANY(t))
TWO(copy, , arena_string u(s); t.swap(u), S_OLD, T_S)
TWO(move, , arena_string u(std::move(s)); t.swap(u), ANY(s), T_S)
TWO(substr, , arena_string u = s.substr(0, n); t = std::move(u), S_OLD, T_S)
TWO(sub_alloc, , arena_string u(s, 0, n, string::A(RB)); t.swap(u), S_OLD, T_S; vp_check(t.get_allocator().resource() == RB, "a string uses the allocator it is given");)
TWO(ptr_alloc, , arena_string u(s.c_str(), n, string::A(RB)); t.swap(u), S_OLD, T_S; vp_check(t.get_allocator().resource() == RB, "a string uses the allocator it is given");)
TWO(replace, , t.replace(0, m, s), S_OLD, T_S)
TWO(keep, , arena_string u(s); t = u; u += 'x'; s.clear(), vp_check(s.size() == 0, HOME);, T_S)
