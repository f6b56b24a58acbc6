// Vector cases, part 2: variants without capacity check (Safety::Unsafe, called within their precondition), rvalue and
// initializer_list overloads, filters, ordering, the free functions of namespace std, and short histories.
#include "vec.hpp"
#include <utility>
using stdb::container::Safety;
#define U Safety::Unsafe
// room for m more elements
#define ROOM(m) vp_assume(v.capacity() - n >= (m));
// --- Safety::Unsafe
#define W_PUSH(T) CASE(w_push_##T) { SETUP(T, 1) ROOM(1) const T* d = v.data(); v.template push_back<U>(a[n]); inv(v, n + 1); vp_same(v.data(), B<T>(n + 1), 0, 0, "push_back<Unsafe> appends the value"); \
    vp_check(v.data() == d, "push_back<Unsafe> does not reallocate"); vp_reach("end"); }
ALL(W_PUSH)
#define W_EMPB(T) CASE(w_emplace_back_##T) { SETUP(T, 1) ROOM(1) auto it = v.template emplace_back<U>(a[n]); inv(v, n + 1); vp_same(v.data(), B<T>(n + 1), 0, 0, "emplace_back<Unsafe> appends the value"); \
    vp_check(&*it == v.data() + n, "emplace_back returns the new element"); vp_reach("end"); }
ALL(W_EMPB)
#define W_INS(T) CASE(w_insert_##T) { SETUP(T, 1) ROOM(1) POS auto it = v.template insert<U>(CAT(p), a[n]); INSERTED(T, 1, "insert<Unsafe>") \
    vp_same(v.data() + p, B<T>(1), 0, B<T>(n), "insert<Unsafe> stores the value at the position"); vp_check(&*it == v.data() + p, "insert returns the position of the new element"); vp_reach("end"); }
ALL(W_INS)
#define W_EMP(T) CASE(w_emplace_##T) { SETUP(T, 1) ROOM(1) POS auto it = v.template emplace<U>(AT(p), a[n]); INSERTED(T, 1, "emplace<Unsafe>") \
    vp_same(v.data() + p, B<T>(1), 0, B<T>(n), "emplace<Unsafe> stores the value"); vp_check(&*it == v.data() + p, "emplace returns the position of the new element"); vp_reach("end"); }
ALL(W_EMP)
#define W_EMPI(T) CASE(w_emplace_index_##T) { SETUP(T, 1) ROOM(1) POS auto it = v.template emplace<U>(p, a[n]); INSERTED(T, 1, "emplace<Unsafe>") \
    vp_same(v.data() + p, B<T>(1), 0, B<T>(n), "emplace<Unsafe> stores the value"); vp_check(&*it == v.data() + p, "emplace returns the position of the new element"); vp_reach("end"); }
ALL(W_EMPI)
#define W_INSC(T) CASE(w_insert_count_##T) { SETUP(T, 1) POS std::size_t m = vp_size(1, MX, "m"); ROOM(m) auto it = v.template insert<U>(CAT(p), m, a[n]); INSERTED(T, m, "insert<Unsafe>(count)") \
    vp_same_obj(v.data() + p, B<T>(m), a + n, sizeof(T), "insert<Unsafe>(count) stores count copies"); vp_check(&*it == v.data() + p, "insert returns the first new element"); vp_reach("end"); }
ALL(W_INSC)
#define W_INSR(T) CASE(w_insert_range_##T) { std::size_t m = vp_size(0, MX, "m"); SETUP(T, m) ROOM(m) POS auto it = v.template insert<U>(CAT(p), a + n, a + n + m); INSERTED(T, m, "insert<Unsafe>(range)") \
    vp_same(v.data() + p, B<T>(m), 0, B<T>(n), "insert<Unsafe>(range) stores the range"); vp_check(&*it == v.data() + p, "insert returns the first new element"); vp_reach("end"); }
ALL(W_INSR)
#define W_RSD(T) CASE(w_resize_down_##T) { SETUP(T, 0) std::size_t m = vp_size(0, n, "m"); v.template resize<U>(m); inv(v, m); vp_same(v.data(), B<T>(m), 0, 0, "resize<Unsafe> keeps the prefix"); vp_reach("end"); }
ALL(W_RSD)
#define W_RSU(T) CASE(w_resize_up_##T) { SETUP(T, 0) std::size_t m = vp_size(0, MX, "m"); v.template resize<U>(n + m); inv(v, n + m); vp_same(v.data(), B<T>(n), 0, 0, "resize<Unsafe> keeps the elements"); \
    for (std::size_t i = 0; i < m; ++i) new (static_cast<void*>(v.data() + n + i)) T(); vp_reach("end"); }
W_RSU(int) W_RSU(char)
CASE(w_writebuffer_int) { SETUP(int, 0) std::size_t m = vp_size(0, MX, "m"); ROOM(m) auto s = v.get_writebuffer<U>(m); vp_check(s.size() == m, "the write buffer has the requested size");
    inv(v, n + m); vp_same(v.data(), B<int>(n), 0, 0, "get_writebuffer keeps the elements"); vp_check(s.data() == v.data() + n, "the write buffer starts behind the old elements");
    if (m > 0) { s[m - 1] = 7; vp_check(v[n + m - 1] == 7, "writes through the buffer are visible"); } vp_reach("end"); }
static std::size_t g_fill;
CASE(w_fill_int) { SETUP(int, 0) g_fill = vp_size(0, MX, "m"); std::size_t m = g_fill; ROOM(m)
    v.fill<U>([](int* p) -> std::size_t { if (g_fill > 0) { p[0] = 5; p[g_fill - 1] = 5; } return g_fill; });
    inv(v, n + m); vp_same(v.data(), B<int>(n), 0, 0, "fill keeps the elements"); if (m > 0) vp_check(v[n + m - 1] == 5 && v[n] == 5, "fill appends"); vp_reach("end"); }
static const VpObj* g_src; static std::size_t g_n;
CASE(w_fill_VpObj) { SETUP(VpObj, 1) g_src = a; g_n = n;
    v.fill([](VpObj* p) -> std::size_t { if (p != nullptr) new (p) VpObj(g_src[g_n]); return 1; });
    inv(v, n + 1); vp_same(v.data(), B<VpObj>(n + 1), 0, 0, "fill keeps the elements and appends"); vp_reach("end"); }
CASE(w_writebuffer_VpObj) { SETUP(VpObj, 2) auto s = v.get_writebuffer(2); new (&s[0]) VpObj(a[n]); new (&s[1]) VpObj(a[n + 1]);
    inv(v, n + 2); vp_same(v.data(), B<VpObj>(n + 2), 0, 0, "get_writebuffer keeps the elements"); vp_reach("end"); }
// --- rvalue overloads
#define X_PUSH(T) CASE(w_push_rv_##T) { SETUP(T, 1) { T x(a[n]); v.push_back(std::move(x)); } inv(v, n + 1); vp_same(v.data(), B<T>(n + 1), 0, 0, "push_back(&&) appends the value"); vp_reach("end"); }
X_PUSH(int) X_PUSH(VpObj) X_PUSH(VpBig)
#define X_PUSHU(T) CASE(w_push_rvu_##T) { SETUP(T, 1) ROOM(1) { T x(a[n]); v.template push_back<U>(std::move(x)); } inv(v, n + 1); vp_same(v.data(), B<T>(n + 1), 0, 0, "push_back<Unsafe>(&&) appends the value"); vp_reach("end"); }
X_PUSHU(int) X_PUSHU(VpObj) X_PUSHU(VpBig)
#define X_INS(T) CASE(w_insert_rv_##T) { SETUP(T, 1) POS T x(a[n]); auto it = v.insert(CAT(p), std::move(x)); INSERTED(T, 1, "insert(&&)") \
    vp_same(v.data() + p, B<T>(1), 0, B<T>(n), "insert(&&) stores the value"); vp_check(&*it == v.data() + p, "insert returns the new element"); vp_reach("end"); }
X_INS(int) X_INS(VpObj) X_INS(VpBig)
#define X_INSU(T) CASE(w_insert_rvu_##T) { SETUP(T, 1) ROOM(1) POS T x(a[n]); auto it = v.template insert<U>(CAT(p), std::move(x)); INSERTED(T, 1, "insert<Unsafe>(&&)") \
    vp_same(v.data() + p, B<T>(1), 0, B<T>(n), "insert<Unsafe>(&&) stores the value"); vp_check(&*it == v.data() + p, "insert returns the new element"); vp_reach("end"); }
X_INSU(int) X_INSU(VpObj)
CASE(w_mo_push_unsafe) { SETUPM(VpMov, 1) ROOM(1) v.push_back<U>(std::move(a[n])); inv(v, n + 1); vp_same(v.data(), B<VpMov>(n + 1), 0, 0, "push_back(&&) appends the value"); vp_reach("end"); }
CASE(w_mo_emplace_back) { SETUPM(VpMov, 1) v.emplace_back(std::move(a[n])); inv(v, n + 1); vp_same(v.data(), B<VpMov>(n + 1), 0, 0, "emplace_back appends the value"); vp_reach("end"); }
CASE(w_mo_emplace_index) { SETUPM(VpMov, 1) POS v.emplace(p, std::move(a[n])); INSERTED(VpMov, 1, "emplace(&&)") vp_same(v.data() + p, B<VpMov>(1), 0, B<VpMov>(n), "emplace(&&) stores the value"); vp_reach("end"); }
CASE(w_mo_erase_range) { SETUPM(VpMov, 0) std::size_t p = vp_size(0, n, "pos"); std::size_t m = vp_size(0, n - p, "m"); v.erase(AT(p), AT(p + m)); ERASED(VpMov, m, "erase(range)") vp_reach("end"); }
CASE(w_mo_move_assign) { std::size_t m = vp_size(0, MX, "m"); SETUPM(VpMov, m) stdb_vector<VpMov> w; for (std::size_t i = 0; i < m; ++i) w.push_back(std::move(a[n + i]));
    w = std::move(v); inv(w, n); inv(v, 0); vp_same(w.data(), B<VpMov>(n), 0, 0, "move takes the elements"); vp_reach("end"); }
CASE(w_mo_swap) { SETUPM(VpMov, 0) stdb_vector<VpMov> w; w.swap(v); inv(w, n); inv(v, 0); vp_same(w.data(), B<VpMov>(n), 0, 0, "swap takes the elements"); vp_reach("end"); }
CASE(w_mo_shrink) { SETUPM(VpMov, 0) v.shrink_to_fit(); inv(v, n); vp_same(v.data(), B<VpMov>(n), 0, 0, "shrink_to_fit keeps the elements"); vp_reach("end"); }
CASE(w_mo_pop_clear) { SETUPM(VpMov, 0) vp_assume(n > 0); v.pop_back(); inv(v, n - 1); vp_same(v.data(), B<VpMov>(n - 1), 0, 0, "pop_back"); v.clear(); inv(v, 0); vp_reach("end"); }
// --- initializer lists
#define IL(T) {a[n], a[n + 1], a[n + 2]}
#define L_CTOR(T) CASE(w_ilist_ctor_##T) { SETUP(T, 3) { stdb_vector<T> w IL(T); inv(w, 3); vp_same(w.data(), B<T>(3), 0, B<T>(n), "construction from a list"); } inv(v, n); vp_reach("end"); }
L_CTOR(int) L_CTOR(VpObj)
#define L_ASG(T) CASE(w_ilist_assign_##T) { SETUP(T, 3) v.assign(IL(T)); inv(v, 3); vp_same(v.data(), B<T>(3), 0, B<T>(n), "assignment from a list"); vp_reach("end"); }
L_ASG(int) L_ASG(VpObj)
#define L_INS(T) CASE(w_ilist_insert_##T) { SETUP(T, 3) POS auto it = v.insert(CAT(p), IL(T)); INSERTED(T, 3, "insert(list)") vp_same(v.data() + p, B<T>(3), 0, B<T>(n), "insert(list) stores the list"); \
    vp_check(&*it == v.data() + p, "insert returns the first new element"); vp_reach("end"); }
L_INS(int) L_INS(VpObj)
CASE(w_ilist_empty) { SETUP(int, 0) v.assign(std::initializer_list<int>{}); inv(v, 0); stdb_vector<int> w(a, a); inv(w, 0); v.insert(v.cbegin(), std::initializer_list<int>{}); inv(v, 0); vp_reach("end"); }
// --- filters: exactly the matching elements go, the others keep their order
#define F_RANGE(T) CASE(w_erase_if_range_##T) { SETUP(T, 0) std::size_t p = vp_size(0, n, "pos"); std::size_t m = vp_size(0, n - p, "m"); std::size_t i = 0; \
    std::size_t k = v.erase_if([&](const T&) { std::size_t j = i++; return j >= p && j < p + m; }); vp_check(k == m, "erase_if counts the removed elements"); ERASED(T, m, "erase_if") vp_reach("end"); }
ALL(F_RANGE)
#define F_KEEP(T) CASE(w_erase_if_keep_##T) { SETUP(T, 0) std::size_t p = vp_size(0, n, "pos"); std::size_t m = vp_size(0, n - p, "m"); std::size_t i = 0; \
    std::size_t k = std::erase_if(v, [&](const T&) { std::size_t j = i++; return j < p || j >= p + m; }); vp_check(k == n - m, "erase_if counts the removed elements"); \
    inv(v, m); vp_same(v.data(), B<T>(m), 0, B<T>(p), "erase_if keeps the elements that do not match"); vp_reach("end"); }
ALL(F_KEEP)
#define F_STDERASE(T) CASE(w_std_erase_##T) { SETUP(T, 1) std::size_t k = std::erase(v, a[n]); vp_check(k <= n, "erase(value) never removes more than size()"); inv(v, n - k); vp_reach("end"); }
F_STDERASE(int) F_STDERASE(VpObj)
#define F_VALUE1(T) CASE(w_erase_value1_##T) { const T* a = Src<T>::objs(3); vp_snap(0, a, B<T>(3)); stdb_vector<T> v(a, a + 2); bool e0 = a[0] == a[2], e1 = a[1] == a[2]; std::size_t k = v.erase(a[2]); \
    inv(v, !e0 + !e1); vp_check(k == std::size_t(e0) + std::size_t(e1), "erase(value) counts the elements removed"); \
    if (!e0) vp_check(v[0] == a[0], "erase(value) keeps the other elements in order"); if (!e1) vp_check(v[!e0] == a[1], "erase(value) keeps the other elements in order"); vp_reach("end"); }
F_VALUE1(int) F_VALUE1(char)
// --- namespace std
#define N_SWAP(T) CASE(w_std_swap_##T) { std::size_t m = vp_size(0, MX, "m"); SETUP(T, m) stdb_vector<T> w; mk<T>(w, a + n, m); const T *d = v.data(), *e = w.data(); \
    std::swap(v, w); inv(w, n); inv(v, m); vp_same(w.data(), B<T>(n), 0, 0, "std::swap exchanges the contents"); vp_same(v.data(), B<T>(m), 0, B<T>(n), "std::swap exchanges the contents"); \
    vp_check(v.data() == e && w.data() == d, "std::swap exchanges the buffers"); vp_reach("end"); }
N_SWAP(int) N_SWAP(VpObj)
// --- ordering: the first difference decides, then the length
CASE(w_order_int) { std::size_t k = vp_size(0, MX, "prefix"); const int* a = Src<int>::objs(k + 1);
    stdb_vector<int> v(a, a + k + 1), w(a, a + k); int y = vp_i32(); w.push_back(y); int x = a[k]; vp_assume(x != y);
    auto r = v <=> w; vp_check((r < 0) == (x < y) && (r > 0) == (x > y), "the first different element decides the order"); vp_check(!(v == w), "vectors with a different element differ"); vp_reach("end"); }
CASE(w_order_len_int) { std::size_t k = vp_size(0, MX, "prefix"), t = vp_size(0, MX, "tail"); const int* a = Src<int>::objs(k + t); stdb_vector<int> v(a, a + k + t), w(a, a + k); auto r = v <=> w;
    vp_check((r > 0) == (t > 0) && (r == 0) == (t == 0), "a proper prefix is smaller"); vp_check((v == w) == (t == 0), "equality needs equal sizes"); vp_reach("end"); }
CASE(w_order2_int) { int x0 = vp_i32(), x1 = vp_i32(), y0 = vp_i32(), y1 = vp_i32(); stdb_vector<int> v{x0, x1}, w{y0, y1}; auto r = v <=> w; int s = x0 != y0 ? (x0 < y0 ? -1 : 1) : x1 != y1 ? (x1 < y1 ? -1 : 1) : 0;
    vp_check((r < 0) == (s < 0) && (r > 0) == (s > 0), "lexicographic order"); vp_check((v == w) == (s == 0) && (v != w) == (s != 0), "equality is element-wise"); vp_check((v < w) == (s < 0) && (v <= w) == (s <= 0) && (v > w) == (s > 0) && (v >= w) == (s >= 0), "relational operators follow the order"); vp_reach("end"); }
// --- iterators
CASE(w_iter_int) { SETUP(int, 0) vp_assume(n > 0); std::size_t i = vp_size(0, n - 1, "i"); const stdb_vector<int>& c = v; auto it = AT(i); auto ci = c.begin() + static_cast<std::ptrdiff_t>(i);
    vp_check(it - v.begin() == static_cast<std::ptrdiff_t>(i) && v.end() - it == static_cast<std::ptrdiff_t>(n - i), "iterator difference"); vp_check(&*it == &v[i] && &*ci == &v[i] && it.operator->() == &v[i], "iterator access");
    auto j = it; ++j; vp_check(j - it == 1 && j > it && it < j && j != it, "++ moves to the next element"); auto old = j++; vp_check(j - old == 1, "post-increment returns the old position"); --j; --j; vp_check(j == it, "-- moves back"); auto o2 = j--; vp_check(o2 == it && it - j == 1, "post-decrement");
    j = it; j += 2; vp_check(j - it == 2, "+="); j -= 3; vp_check(it - j == 1, "-="); vp_check((1 + it) - it == 1 && (it - 1) - it == -1, "n + it, it - n"); stdb_vector<int>::const_iterator k = it; vp_check(&*k == &*it, "conversion to const_iterator");
    vp_check(v.rend() - v.rbegin() == static_cast<std::ptrdiff_t>(n) && &*(v.rbegin() + static_cast<std::ptrdiff_t>(i)) == &v[n - 1 - i], "reverse iteration"); vp_check(c.rend() - c.rbegin() == static_cast<std::ptrdiff_t>(n) && &*c.crbegin() == &v[n - 1], "reverse iteration"); vp_reach("end"); }
CASE(w_empty) { stdb_vector<VpObj> v; inv(v, 0); vp_check(v.begin() == v.end() && v.rbegin() == v.rend(), "an empty vector has nothing to iterate"); stdb_vector<VpObj> w(v); inv(w, 0); w = v; v = std::move(w); v.swap(w); v.clear(); v.shrink_to_fit(); v.reserve(0); v.resize(0); inv(v, 0);
    vp_check(v == w, "empty vectors are equal"); vp_check(v.erase_if([](const VpObj&) { return true; }) == 0, "nothing to erase"); vp_reach("end"); }
// --- short histories
#define H_1(T) CASE(w_hist_push_pop_##T) { SETUP(T, 2) v.push_back(a[n]); v.push_back(a[n + 1]); v.pop_back(); inv(v, n + 1); vp_same(v.data(), B<T>(n + 1), 0, 0, "push, push, pop"); v.pop_back(); inv(v, n); vp_same(v.data(), B<T>(n), 0, 0, "pop"); vp_reach("end"); }
H_1(int) H_1(VpObj) H_1(VpCpy)
#define H_2(T) CASE(w_hist_moved_##T) { SETUP(T, 1) stdb_vector<T> w(std::move(v)); v.push_back(a[n]); inv(v, 1); vp_same(v.data(), B<T>(1), 0, B<T>(n), "a moved-from vector can be used"); w.push_back(a[n]); inv(w, n + 1); vp_same(w.data(), B<T>(n + 1), 0, 0, "the new owner can be used"); \
    v = std::move(w); inv(v, n + 1); vp_same(v.data(), B<T>(n + 1), 0, 0, "moved back"); inv(w, 0); w.resize(1); inv(w, 1); vp_reach("end"); }
H_2(int) H_2(VpObj)
#define H_3(T) CASE(w_hist_shrink_##T) { SETUP(T, 1) v.shrink_to_fit(); v.push_back(a[n]); inv(v, n + 1); vp_same(v.data(), B<T>(n + 1), 0, 0, "push after shrink"); v.clear(); v.shrink_to_fit(); inv(v, 0); v.push_back(a[n]); inv(v, 1); vp_same(v.data(), B<T>(1), 0, B<T>(n), "push after shrinking to nothing"); vp_reach("end"); }
H_3(int) H_3(VpObj)
#define H_4(T) CASE(w_hist_copy_##T) { SETUP(T, 1) stdb_vector<T> w(v); w.push_back(a[n]); inv(v, n); vp_same(v.data(), B<T>(n), 0, 0, "the source does not change with the copy"); inv(w, n + 1); vp_same(w.data(), B<T>(n + 1), 0, 0, "the copy grows alone"); v.clear(); inv(w, n + 1); \
    vp_same(w.data(), B<T>(n + 1), 0, 0, "the copy outlives the content of the source"); w = v; inv(w, 0); vp_reach("end"); }
H_4(int) H_4(VpObj)
#define H_5(T) CASE(w_hist_insert_erase_##T) { SETUP(T, 1) POS v.insert(CAT(p), a[n]); v.erase(AT(p)); inv(v, n); vp_same(v.data(), B<T>(n), 0, 0, "insert and erase cancel out"); vp_reach("end"); }
H_5(int) H_5(VpObj) H_5(VpCpy)
