// Searches in short texts of arbitrary characters: the loops run to their end, and every position the search skipped is asked about.
#include "vp.hpp"
#include <cstring>
#include "string/string.hpp"
using namespace stdb::memory;
// the text and what is searched, characters arbitrary
template <int H, int N> struct Texts {
    char h[H + 1], n[N + 1]; string s;
    static char* fill(char* p, int k) { for (int i = 0; i < k; ++i) { p[i] = vp_char(); if (H > 5) vp_assume(p[i] == 'a' || p[i] == 'b'); } p[k] = 0; return p; }
    Texts() : s((vp_unroll(24), fill(h, H)), H) { fill(n, N); }
    bool at(int i) const { for (int j = 0; j < N; ++j) if (h[i + j] != n[j]) return false; return true; }
    bool in(int i) const { for (int j = 0; j < N; ++j) if (h[i] == n[j]) return true; return false; }
};
static const char* FIRST = "the search finds the first place";
static const char* LAST = "the search finds the last place";
template <int H, int N, int P> static void f_find() { Texts<H, N> t; std::size_t r = t.s.find(t.n, P, N); int e = -1; for (int i = P; i + N <= H; ++i) if (t.at(i)) { e = i; break; } vp_check(r == static_cast<std::size_t>(e), FIRST); vp_reach("end"); }
template <int H, int N, int P> static void f_rfind() { Texts<H, N> t; std::size_t r = t.s.rfind(t.n, P, N); int e = -1; for (int i = P < H - N ? P : H - N; i >= 0; --i) if (t.at(i)) { e = i; break; } vp_check(r == static_cast<std::size_t>(e), LAST); vp_reach("end"); }
template <int H, int N, int P> static void f_first_of() { Texts<H, N> t; std::size_t r = t.s.find_first_of(t.n, P, N); int e = -1; for (int i = P; i < H; ++i) if (t.in(i)) { e = i; break; } vp_check(r == static_cast<std::size_t>(e), FIRST); vp_reach("end"); }
template <int H, int N, int P> static void f_first_not() { Texts<H, N> t; std::size_t r = t.s.find_first_not_of(t.n, P, N); int e = -1; for (int i = P; i < H; ++i) if (!t.in(i)) { e = i; break; } vp_check(r == static_cast<std::size_t>(e), FIRST); vp_reach("end"); }
template <int H, int N, int P> static void f_last_of() { Texts<H, N> t; std::size_t r = t.s.find_last_of(t.n, P, N); int e = -1; for (int i = P < H - 1 ? P : H - 1; i >= 0; --i) if (t.in(i)) { e = i; break; } vp_check(r == static_cast<std::size_t>(e), LAST); vp_reach("end"); }
template <int H, int N, int P> static void f_last_not() { Texts<H, N> t; std::size_t r = t.s.find_last_not_of(t.n, P, N); int e = -1; for (int i = P < H - 1 ? P : H - 1; i >= 0; --i) if (!t.in(i)) { e = i; break; } vp_check(r == static_cast<std::size_t>(e), LAST); vp_reach("end"); }
#define F(NAME, H, N, P) CASE(NAME##_##H##_##N##_##P) { NAME<H, N, P>(); }
F(f_find, 3, 1, 0) F(f_find, 4, 2, 0) F(f_find, 4, 2, 1) F(f_find, 5, 3, 0) F(f_find, 5, 3, 1) F(f_find, 6, 3, 0) F(f_find, 6, 4, 0) F(f_find, 7, 4, 0) F(f_find, 7, 5, 0) F(f_find, 2, 2, 0) F(f_find, 2, 1, 1) F(f_find, 2, 1, 2) F(f_find, 2, 0, 2) F(f_find, 2, 3, 0)
F(f_rfind, 4, 2, 9) F(f_rfind, 4, 2, 1) F(f_rfind, 5, 3, 9) F(f_rfind, 2, 0, 9) F(f_rfind, 2, 3, 9) F(f_rfind, 2, 1, 0) F(f_rfind, 2, 2, 9)
F(f_first_of, 4, 2, 0) F(f_first_of, 4, 2, 1)
F(f_first_not, 4, 2, 0) F(f_first_not, 4, 2, 1)
F(f_last_of, 4, 2, 9) F(f_last_of, 4, 2, 2)
F(f_last_not, 4, 2, 9) F(f_last_not, 4, 2, 2)
F(f_first_of, 3, 1, 0) F(f_first_of, 2, 0, 1) F(f_first_of, 0, 1, 0) F(f_first_of, 3, 3, 1)
F(f_first_not, 3, 1, 0) F(f_first_not, 2, 0, 1) F(f_first_not, 0, 1, 0) F(f_first_not, 3, 3, 1)
F(f_last_of, 3, 1, 0) F(f_last_of, 2, 0, 1) F(f_last_of, 0, 1, 0) F(f_last_of, 3, 3, 1)
F(f_last_not, 3, 1, 0) F(f_last_not, 2, 0, 1) F(f_last_not, 0, 1, 0) F(f_last_not, 3, 3, 1)
template <int H, int N> static void f_contains() { Texts<H, N> t; bool e = false; for (int i = 0; i + N <= H; ++i) if (t.at(i)) { e = true; break; } vp_check(t.s.contains(std::string_view(t.n, N)) == e, "contains() tells whether the text occurs"); vp_reach("end"); }
template <int H, int N> static void f_starts() { Texts<H, N> t; vp_check(t.s.starts_with(std::string_view(t.n, N)) == (N <= H && t.at(0)) && t.s.ends_with(std::string_view(t.n, N)) == (N <= H && t.at(H - N)), "starts_with() and ends_with() compare that part of the text"); vp_reach("end"); }
template <int H> static void f_char() { Texts<H, 1> t; int e = -1, l = -1; for (int i = 0; i < H; ++i) if (t.at(i)) { if (e < 0) e = i; l = i; }
    vp_check(t.s.find(t.n[0]) == static_cast<std::size_t>(e) && t.s.find_first_of(t.n[0]) == static_cast<std::size_t>(e), FIRST); vp_check(t.s.rfind(t.n[0]) == static_cast<std::size_t>(l) && t.s.find_last_of(t.n[0]) == static_cast<std::size_t>(l), LAST); vp_reach("end"); }
CASE(f_contains_4_2) { f_contains<4, 2>(); } CASE(f_contains_2_3) { f_contains<2, 3>(); } CASE(f_contains_3_1) { f_contains<3, 1>(); } CASE(f_starts_4_2) { f_starts<4, 2>(); } CASE(f_starts_2_2) { f_starts<2, 2>(); } CASE(f_char_3) { f_char<3>(); }
