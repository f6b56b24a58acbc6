// Vector cases, part 1: see vec.hpp
#include "vec.hpp"
// ---- construction / assignment -------------------------------------------------------------------------------
#define C_BUILD(T) CASE(v_build_##T) { SETUP(T, 0) inv(v, n); vp_same(v.data(), B<T>(n), 0, 0, "assign keeps the source order and values"); vp_reach("end"); }
ALL(C_BUILD)
#define C_RANGE(T) CASE(v_ctor_range_##T) { std::size_t n = vp_size(0, MX, "n"); const T* a = Src<T>::objs(n); vp_snap(0, a, B<T>(n)); \
    stdb_vector<T> v(a, a + n); inv(v, n); vp_same(v.data(), B<T>(n), 0, 0, "range construction copies the range"); vp_reach("end"); }
ALL(C_RANGE)
#define C_FILLC(T) CASE(v_ctor_fill_##T) { std::size_t n = vp_size(0, MX, "n"); const T* x = Src<T>::objs(1); \
    stdb_vector<T> v(n, *x); inv(v, n); vp_same_obj(v.data(), B<T>(n), x, sizeof(T), "n copies of the value"); vp_reach("end"); }
ALL(C_FILLC)
#define C_SIZED(T) CASE(v_ctor_size_##T) { std::size_t n = vp_size(0, MX, "n"); stdb_vector<T> v(n); inv(v, n); T z{}; \
    vp_same_obj(v.data(), B<T>(n), &z, sizeof(T), "n value-initialised elements"); vp_reach("end"); }
ALL(C_SIZED)
#define C_ASSIGNR(T) CASE(v_assign_range_##T) { std::size_t m = vp_size(0, MX, "m"); SETUP(T, m) v.assign(a + n, a + n + m); inv(v, m); \
    vp_same(v.data(), B<T>(m), 0, B<T>(n), "assign replaces the content by the range"); vp_reach("end"); }
ALL(C_ASSIGNR)
#define C_ASSIGNF(T) CASE(v_assign_fill_##T) { std::size_t m = vp_size(0, MX, "m"); SETUP(T, 1) v.assign(m, a[n]); inv(v, m); \
    vp_same_obj(v.data(), B<T>(m), a + n, sizeof(T), "assign replaces the content by copies of the value"); vp_reach("end"); }
ALL(C_ASSIGNF)
#define C_COPY(T) CASE(v_copy_##T) { SETUP(T, 0) { stdb_vector<T> w(v); inv(w, n); \
    vp_same(w.data(), B<T>(n), 0, 0, "the copy holds the same elements"); vp_check(n == 0 || w.data() != v.data(), "the copy has its own buffer"); } \
    inv(v, n); vp_same(v.data(), B<T>(n), 0, 0, "the source is untouched"); vp_reach("end"); }
ALL(C_COPY)
#define C_COPYA(T) CASE(v_copy_assign_##T) { std::size_t m = vp_size(0, MX, "m"); SETUP(T, m) stdb_vector<T> w; mk<T>(w, a + n, m); \
    w = v; inv(w, n); inv(v, n); vp_same(w.data(), B<T>(n), 0, 0, "copy assignment takes over the elements"); \
    vp_same(v.data(), B<T>(n), 0, 0, "the source is untouched"); vp_check(n == 0 || w.data() != v.data(), "own buffer"); vp_reach("end"); }
ALL(C_COPYA)
#define C_SELFA(T) CASE(v_self_assign_##T) { SETUP(T, 0) stdb_vector<T>& r = v; v = r; inv(v, n); \
    vp_same(v.data(), B<T>(n), 0, 0, "self assignment changes nothing"); v = static_cast<stdb_vector<T>&&>(r); inv(v, n); \
    vp_same(v.data(), B<T>(n), 0, 0, "self move assignment changes nothing"); vp_reach("end"); }
ALL(C_SELFA)
#define C_MOVE(T) CASE(v_move_##T) { SETUP(T, 0) stdb_vector<T> w(static_cast<stdb_vector<T>&&>(v)); inv(w, n); \
    vp_same(w.data(), B<T>(n), 0, 0, "move construction takes over the elements"); vp_check(v.size() == 0, "moved-from vector is empty"); vp_reach("end"); }
ALL(C_MOVE)
#define C_MOVEA(T) CASE(v_move_assign_##T) { std::size_t m = vp_size(0, MX, "m"); SETUP(T, m) stdb_vector<T> w; mk<T>(w, a + n, m); \
    w = static_cast<stdb_vector<T>&&>(v); inv(w, n); vp_same(w.data(), B<T>(n), 0, 0, "move assignment takes over the elements"); \
    vp_check(v.size() == 0, "moved-from vector is empty"); vp_reach("end"); }
ALL(C_MOVEA)
#define C_SWAP(T) CASE(v_swap_##T) { std::size_t m = vp_size(0, MX, "m"); SETUP(T, m) stdb_vector<T> w; mk<T>(w, a + n, m); \
    v.swap(w); inv(w, n); inv(v, m); vp_same(w.data(), B<T>(n), 0, 0, "swap exchanges the contents"); \
    vp_same(v.data(), B<T>(m), 0, B<T>(n), "swap exchanges the contents"); vp_reach("end"); }
ALL(C_SWAP)
// ---- capacity -------------------------------------------------------------------------------------------------
#define C_RES(T) CASE(v_reserve_##T) { SETUP(T, 0) std::size_t c = vp_size(0, MX, "c"); std::size_t old = v.capacity(); v.reserve(c); inv(v, n); \
    vp_check(v.capacity() >= c, "reserve(c) provides capacity c"); vp_check(v.capacity() >= old, "reserve never shrinks"); \
    vp_same(v.data(), B<T>(n), 0, 0, "reserve keeps the elements"); vp_reach("end"); }
ALL(C_RES)
#define C_SHR(T) CASE(v_shrink_##T) { SETUP(T, 0) std::size_t old = v.capacity(); v.shrink_to_fit(); inv(v, n); vp_check(v.capacity() <= old, "shrink_to_fit does not grow"); \
    vp_check(v.capacity() == n, "shrink_to_fit drops the spare capacity"); vp_same(v.data(), B<T>(n), 0, 0, "shrink_to_fit keeps the elements"); vp_reach("end"); }
ALL(C_SHR)
#define C_RSZ(T) CASE(v_resize_##T) { SETUP(T, 0) std::size_t m = vp_size(0, MX, "m"); v.resize(m); inv(v, m); T z{}; \
    std::size_t k = m < n ? m : n; vp_same(v.data(), B<T>(k), 0, 0, "resize keeps the common prefix"); \
    vp_same_obj(v.data() + k, B<T>(m - k), &z, sizeof(T), "resize value-initialises the new elements"); vp_reach("end"); }
ALL(C_RSZ)
#define C_RSZV(T) CASE(v_resize_value_##T) { SETUP(T, 1) std::size_t m = vp_size(0, MX, "m"); v.resize(m, a[n]); inv(v, m); \
    std::size_t k = m < n ? m : n; vp_same(v.data(), B<T>(k), 0, 0, "resize keeps the common prefix"); \
    vp_same_obj(v.data() + k, B<T>(m - k), a + n, sizeof(T), "resize fills with copies of the value"); vp_reach("end"); }
ALL(C_RSZV)
#define C_CLR(T) CASE(v_clear_##T) { SETUP(T, 1) std::size_t old = v.capacity(); v.clear(); inv(v, 0); vp_check(v.capacity() == old, "clear keeps the capacity"); \
    v.push_back(a[n]); inv(v, 1); vp_same(v.data(), B<T>(1), 0, B<T>(n), "usable after clear"); vp_reach("end"); }
ALL(C_CLR)
// ---- single element modifiers -----------------------------------------------------------------------------------
#define C_PUSH(T) CASE(v_push_##T) { SETUP(T, 1) v.push_back(a[n]); inv(v, n + 1); vp_same(v.data(), B<T>(n + 1), 0, 0, "push_back appends the value"); vp_reach("end"); }
ALL(C_PUSH)
#define C_EMPB(T) CASE(v_emplace_back_##T) { SETUP(T, 1) auto it = v.emplace_back(a[n]); inv(v, n + 1); vp_same(v.data(), B<T>(n + 1), 0, 0, "emplace_back appends the value"); \
    vp_check(&*it == v.data() + n, "emplace_back returns the new element"); vp_reach("end"); }
ALL(C_EMPB)
#define C_POP(T) CASE(v_pop_##T) { SETUP(T, 0) vp_assume(n > 0); v.pop_back(); inv(v, n - 1); vp_same(v.data(), B<T>(n - 1), 0, 0, "pop_back removes the last element"); vp_reach("end"); }
ALL(C_POP)
#define C_ACC(T) CASE(v_access_##T) { SETUP(T, 0) vp_assume(n > 0); std::size_t i = vp_size(0, n - 1, "i"); const stdb_vector<T>& c = v; \
    vp_check(&v[i] == v.data() + i && &c[i] == v.data() + i, "operator[] denotes element i"); vp_check(&v.at(i) == v.data() + i && &c.at(i) == v.data() + i, "at() denotes element i"); \
    vp_check(&v.front() == v.data() && &c.front() == v.data(), "front()"); vp_check(&v.back() == v.data() + (n - 1) && &c.back() == v.data() + (n - 1), "back()"); \
    vp_check(&*(v.begin() + static_cast<std::ptrdiff_t>(i)) == v.data() + i, "begin()+i denotes element i"); vp_check(&*(v.end() - static_cast<std::ptrdiff_t>(i + 1)) == v.data() + (n - 1 - i), "end()-i"); \
    vp_check(&v.begin()[i] == v.data() + i, "iterator indexing"); vp_check(&*v.rbegin() == v.data() + (n - 1), "rbegin() is the last element"); \
    vp_check(v.cend() - v.cbegin() == static_cast<std::ptrdiff_t>(n), "cbegin()..cend()"); vp_reach("end"); }
ALL(C_ACC)
#define C_INS(T) CASE(v_insert_##T) { SETUP(T, 1) POS auto it = v.insert(CAT(p), a[n]); INSERTED(T, 1, "insert") \
    vp_same(v.data() + p, B<T>(1), 0, B<T>(n), "insert stores the value at the position"); vp_check(&*it == v.data() + p, "insert returns the position of the new element"); vp_reach("end"); }
ALL(C_INS)
#define C_EMP(T) CASE(v_emplace_##T) { SETUP(T, 1) POS auto it = v.emplace(AT(p), a[n]); INSERTED(T, 1, "emplace") \
    vp_same(v.data() + p, B<T>(1), 0, B<T>(n), "emplace stores the value at the position"); vp_check(&*it == v.data() + p, "emplace returns the position of the new element"); vp_reach("end"); }
ALL(C_EMP)
#define C_EMPI(T) CASE(v_emplace_index_##T) { SETUP(T, 1) POS auto it = v.emplace(p, a[n]); INSERTED(T, 1, "emplace") \
    vp_same(v.data() + p, B<T>(1), 0, B<T>(n), "emplace stores the value at the index"); vp_check(&*it == v.data() + p, "emplace returns the position of the new element"); vp_reach("end"); }
ALL(C_EMPI)
#define C_INSC(T) CASE(v_insert_count_##T) { SETUP(T, 1) POS std::size_t m = vp_size(1, MX, "m"); auto it = v.insert(CAT(p), m, a[n]); INSERTED(T, m, "insert(count)") \
    vp_same_obj(v.data() + p, B<T>(m), a + n, sizeof(T), "insert(count) stores count copies at the position"); vp_check(&*it == v.data() + p, "insert returns the first new element"); vp_reach("end"); }
ALL(C_INSC)
#define C_INSR(T) CASE(v_insert_range_##T) { std::size_t m = vp_size(0, MX, "m"); SETUP(T, m) POS auto it = v.insert(CAT(p), a + n, a + n + m); INSERTED(T, m, "insert(range)") \
    vp_same(v.data() + p, B<T>(m), 0, B<T>(n), "insert(range) stores the range at the position"); vp_check(&*it == v.data() + p, "insert returns the first new element"); vp_reach("end"); }
ALL(C_INSR)
#define C_ERA(T) CASE(v_erase_##T) { SETUP(T, 0) vp_assume(n > 0); std::size_t p = vp_size(0, n - 1, "pos"); auto it = v.erase(AT(p)); ERASED(T, 1, "erase") vp_check(&*it == v.data() + p, "erase returns the following element"); vp_reach("end"); }
ALL(C_ERA)
#define C_ERAC(T) CASE(v_erase_const_##T) { SETUP(T, 0) vp_assume(n > 0); std::size_t p = vp_size(0, n - 1, "pos"); auto it = v.erase(CAT(p)); ERASED(T, 1, "erase") vp_check(&*it == v.data() + p, "erase returns the following element"); vp_reach("end"); }
ALL(C_ERAC)
#define C_ERAR(T) CASE(v_erase_range_##T) { SETUP(T, 0) std::size_t p = vp_size(0, n, "pos"); std::size_t m = vp_size(0, n - p, "m"); v.erase(AT(p), AT(p + m)); ERASED(T, m, "erase(range)") vp_reach("end"); }
ALL(C_ERAR)
#define C_ERARC(T) CASE(v_erase_crange_##T) { SETUP(T, 0) std::size_t p = vp_size(0, n, "pos"); std::size_t m = vp_size(0, n - p, "m"); v.erase(CAT(p), CAT(p + m)); ERASED(T, m, "erase(range)") vp_reach("end"); }
ALL(C_ERARC)
// ---- filters ------------------------------------------------------------------------------------------------------
#define C_ERAV(T) CASE(v_erase_value_##T) { SETUP(T, 1) std::size_t k = v.erase(a[n]); vp_check(k <= n, "erase(value) never removes more than size()"); inv(v, n - k); vp_reach("end"); }
ALL(C_ERAV)
#define C_ERAI(T) CASE(v_erase_if_##T) { SETUP(T, 0) std::size_t k = v.erase_if([](const T&) { return vp_bool(); }); vp_check(k <= n, "erase_if never removes more than size()"); inv(v, n - k); vp_reach("end"); }
ALL(C_ERAI)
#define C_ERANO(T) CASE(v_erase_if_none_##T) { SETUP(T, 0) std::size_t k = v.erase_if([](const T&) { return false; }); vp_check(k == 0, "erase_if that matches nothing removes nothing"); inv(v, n); vp_same(v.data(), B<T>(n), 0, 0, "erase_if that matches nothing keeps the content"); vp_reach("end"); }
ALL(C_ERANO)
#define C_ERAAL(T) CASE(v_erase_if_all_##T) { SETUP(T, 0) std::size_t k = v.erase_if([](const T&) { return true; }); vp_check(k == n, "erase_if that matches everything removes everything"); inv(v, 0); vp_reach("end"); }
ALL(C_ERAAL)
#define C_ERAPT(T) CASE(v_erase_if_at_##T) { SETUP(T, 0) vp_assume(n > 0); std::size_t p = vp_size(0, n - 1, "hit"); std::size_t i = 0; \
    std::size_t k = v.erase_if([&](const T&) { return i++ == p; }); vp_check(k == 1, "erase_if removes exactly the matching element"); ERASED(T, 1, "erase_if") vp_reach("end"); }
ALL(C_ERAPT)
// ---- write buffers --------------------------------------------------------------------------------------------------
CASE(v_writebuffer_int) { SETUP(int, 0) std::size_t m = vp_size(0, MX, "m"); auto s = v.get_writebuffer(m); vp_check(s.size() == m, "the write buffer has the requested size");
    inv(v, n + m); vp_same(v.data(), B<int>(n), 0, 0, "get_writebuffer keeps the elements"); vp_check(s.data() == v.data() + n, "the write buffer starts behind the old elements");
    if (m > 0) { s[m - 1] = 7; vp_check(v[n + m - 1] == 7, "writes through the buffer are visible"); } vp_reach("end"); }
static std::size_t g_fill;
CASE(v_fill_int) { SETUP(int, 0) g_fill = vp_size(0, MX, "m"); std::size_t m = g_fill;
    v.fill([](int* p) -> std::size_t { if (p != nullptr && g_fill > 0) { p[0] = 5; p[g_fill - 1] = 5; } return g_fill; });
    inv(v, n + m); vp_same(v.data(), B<int>(n), 0, 0, "fill keeps the elements"); if (m > 0) vp_check(v[n + m - 1] == 5 && v[n] == 5, "fill appends"); vp_reach("end"); }
// ---- comparison ---------------------------------------------------------------------------------------------------------
#define C_EQ(T) CASE(v_equal_##T) { SETUP(T, 0) stdb_vector<T> w(v); vp_check(v == w, "a vector equals its copy"); vp_check(!(v != w), "a vector does not differ from its copy"); w.push_back(T{}); vp_check(!(v == w), "vectors of different size differ"); vp_reach("end"); }
C_EQ(int) C_EQ(VpObj)
CASE(v_equal_elem_int) { SETUP(int, 0) vp_assume(n > 0); stdb_vector<int> w(v); std::size_t i = vp_size(0, n - 1, "i"); int x = vp_i32(); vp_assume(x != v[i]); w[i] = x; vp_check(!(v == w), "vectors with a different element differ"); vp_reach("end"); }
CASE(v_compare_int) { std::size_t m = vp_size(0, MX, "m"); SETUP(int, 0) stdb_vector<int> w(v); vp_assume((v <=> w) == 0); w.push_back(vp_i32()); vp_check((v <=> w) < 0 && (w <=> v) > 0, "a proper prefix is smaller"); vp_reach("end"); }
// ---- move only elements -----------------------------------------------------------------------------------------------------
CASE(v_mo_push) { SETUPM(VpMov, 1) v.push_back(static_cast<VpMov&&>(a[n])); inv(v, n + 1); vp_same(v.data(), B<VpMov>(n + 1), 0, 0, "push_back(&&) appends the value"); vp_reach("end"); }
CASE(v_mo_insert) { SETUPM(VpMov, 1) POS auto it = v.insert(CAT(p), static_cast<VpMov&&>(a[n])); INSERTED(VpMov, 1, "insert(&&)") vp_same(v.data() + p, B<VpMov>(1), 0, B<VpMov>(n), "insert(&&) stores the value"); vp_check(&*it == v.data() + p, "insert returns the new element"); vp_reach("end"); }
CASE(v_mo_emplace) { SETUPM(VpMov, 1) POS auto it = v.emplace(AT(p), static_cast<VpMov&&>(a[n])); INSERTED(VpMov, 1, "emplace(&&)") vp_same(v.data() + p, B<VpMov>(1), 0, B<VpMov>(n), "emplace(&&) stores the value"); vp_check(&*it == v.data() + p, "emplace returns the new element"); vp_reach("end"); }
CASE(v_mo_erase) { SETUPM(VpMov, 0) vp_assume(n > 0); std::size_t p = vp_size(0, n - 1, "pos"); v.erase(AT(p)); ERASED(VpMov, 1, "erase") vp_reach("end"); }
CASE(v_mo_reserve) { SETUPM(VpMov, 0) std::size_t c = vp_size(0, MX, "c"); v.reserve(c); inv(v, n); vp_same(v.data(), B<VpMov>(n), 0, 0, "reserve keeps the elements"); vp_reach("end"); }
CASE(v_mo_move) { SETUPM(VpMov, 0) stdb_vector<VpMov> w(static_cast<stdb_vector<VpMov>&&>(v)); inv(w, n); inv(v, 0); vp_same(w.data(), B<VpMov>(n), 0, 0, "move takes the elements"); vp_reach("end"); }

// ---- a reference to an own element as the argument ---------------------------------------------------------------------------
#define A_PUSH(T) CASE(va_push_##T) { SETUP(T, 0) vp_assume(n > 0); OWN v.push_back(v[q]); inv(v, n + 1); vp_same(v.data(), B<T>(n), 0, 0, "push_back(v[i]) keeps the elements"); \
    vp_same(v.data() + n, B<T>(1), 0, B<T>(q), "push_back(v[i]) appends the old value of v[i]"); vp_reach("end"); }
ALL(A_PUSH)
#define A_EMPB(T) CASE(va_emplace_back_##T) { SETUP(T, 0) vp_assume(n > 0); OWN v.emplace_back(v[q]); inv(v, n + 1); vp_same(v.data(), B<T>(n), 0, 0, "emplace_back(v[i]) keeps the elements"); \
    vp_same(v.data() + n, B<T>(1), 0, B<T>(q), "emplace_back(v[i]) appends the old value of v[i]"); vp_reach("end"); }
ALL(A_EMPB)
#define A_INS(T) CASE(va_insert_##T) { SETUP(T, 0) vp_assume(n > 0); OWN POS v.insert(CAT(p), v[q]); INSERTED(T, 1, "insert(v[i])") \
    vp_same(v.data() + p, B<T>(1), 0, B<T>(q), "insert(v[i]) stores the old value of v[i]"); vp_reach("end"); }
ALL(A_INS)
#define A_EMP(T) CASE(va_emplace_##T) { SETUP(T, 0) vp_assume(n > 0); OWN POS v.emplace(AT(p), v[q]); INSERTED(T, 1, "emplace(v[i])") \
    vp_same(v.data() + p, B<T>(1), 0, B<T>(q), "emplace(v[i]) stores the old value of v[i]"); vp_reach("end"); }
ALL(A_EMP)
#define A_EMPI(T) CASE(va_emplace_index_##T) { SETUP(T, 0) vp_assume(n > 0); OWN POS v.emplace(p, v[q]); INSERTED(T, 1, "emplace(v[i])") \
    vp_same(v.data() + p, B<T>(1), 0, B<T>(q), "emplace(v[i]) stores the old value of v[i]"); vp_reach("end"); }
ALL(A_EMPI)
#define A_INSC(T) CASE(va_insert_count_##T) { SETUP(T, 1) vp_assume(n > 0); OWN POS std::size_t m = vp_size(1, MX, "m"); v.insert(CAT(p), m, v[q]); INSERTED(T, m, "insert(count, v[i])") \
    vp_same_obj(v.data() + p, B<T>(m), a + q, sizeof(T), "insert(count, v[i]) stores copies of the old value of v[i]"); vp_reach("end"); }
ALL(A_INSC)
#define A_RSZ(T) CASE(va_resize_value_##T) { SETUP(T, 1) vp_assume(n > 0); OWN std::size_t m = vp_size(0, MX, "m"); v.resize(m, v[q]); inv(v, m); \
    std::size_t k = m < n ? m : n; vp_same(v.data(), B<T>(k), 0, 0, "resize keeps the common prefix"); \
    vp_same_obj(v.data() + k, B<T>(m - k), a + q, sizeof(T), "resize fills with the old value of v[i]"); vp_reach("end"); }
ALL(A_RSZ)
// ---- allocation failure ---------------------------------------------------------------------------------------------------------
// strong: the vector is as before the call; valid: it can be used and destroyed
#define O_CASE(T, N, X, stmt, onfail) CASE(vo_##N##_##T) { std::size_t m = vp_size(0, MX, "m"); SETUP(T, X + 1) FAILING(stmt, onfail(T)) AFTER(T) }
#define O_PUSH(T) O_CASE(T, push, 0, v.push_back(a[n]), STRONG)
#define O_EMPB(T) O_CASE(T, emplace_back, 0, v.emplace_back(a[n]), STRONG)
#define O_INS(T) O_CASE(T, insert, 0, v.insert(CAT(n), a[n]), STRONG)
#define O_INS0(T) O_CASE(T, insert_front, 0, v.insert(CAT(0), a[n]), STRONG)
#define O_INSC(T) O_CASE(T, insert_count, 0, v.insert(CAT(0), m + 1, a[n]), STRONG)
#define O_INSR(T) O_CASE(T, insert_range, m, v.insert(CAT(0), a + n, a + n + m), STRONG)
#define O_EMP(T) O_CASE(T, emplace, 0, v.emplace(AT(0), a[n]), STRONG)
#define O_EMPI(T) O_CASE(T, emplace_index, 0, v.emplace(std::size_t(0), a[n]), STRONG)
#define O_RES(T) O_CASE(T, reserve, 0, v.reserve(m), STRONG)
#define O_SHR(T) O_CASE(T, shrink, 0, v.shrink_to_fit(), STRONG)
#define O_RSZ(T) O_CASE(T, resize, 0, v.resize(m), STRONG)
#define O_RSZV(T) O_CASE(T, resize_value, 0, v.resize(m, a[n]), STRONG)
#define O_ASF(T) O_CASE(T, assign_fill, 0, v.assign(m, a[n]), VALID)
#define O_ASR(T) O_CASE(T, assign_range, m, v.assign(a + n, a + n + m), VALID)
#define O_CPA(T) CASE(vo_copy_assign_##T) { std::size_t m = vp_size(0, MX, "m"); SETUP(T, m + 1) stdb_vector<T> w; mk<T>(w, a + n, m); FAILING(v = w, VALID(T)) \
    inv(w, m); vp_same(w.data(), B<T>(m), 0, B<T>(n), "the source is untouched"); AFTER(T) }
#define O_CPC(T) CASE(vo_copy_##T) { SETUP(T, 1) FAILING(stdb_vector<T> w(v), STRONG(T)) AFTER(T) }
#define O_CTS(T) CASE(vo_ctor_size_##T) { std::size_t m = vp_size(0, MX, "m"); SETUP(T, 1) FAILING(stdb_vector<T> w(m), STRONG(T)) AFTER(T) }
#define O_CTF(T) CASE(vo_ctor_fill_##T) { std::size_t m = vp_size(0, MX, "m"); SETUP(T, 1) FAILING((stdb_vector<T>(m, a[n])), STRONG(T)) AFTER(T) }
#define O_CTR(T) CASE(vo_ctor_range_##T) { std::size_t m = vp_size(0, MX, "m"); SETUP(T, m + 1) FAILING((stdb_vector<T>(a + n, a + n + m)), STRONG(T)) AFTER(T) }
#define O_HUGE(T) CASE(vo_reserve_huge_##T) { SETUP(T, 1) std::size_t c = vp_size(0, std::size_t(1) << 62, "c"); FAILING(v.reserve(c); vp_check(v.capacity() >= c, "reserve(c) provides capacity c or throws"), STRONG(T)) AFTER(T) }
#define OT(M) M(int) M(VpObj) M(VpCpy)
OT(O_PUSH) OT(O_EMPB) OT(O_INS) OT(O_INS0) OT(O_INSC) OT(O_INSR) OT(O_EMP) OT(O_EMPI) OT(O_RES) OT(O_SHR) OT(O_RSZ) OT(O_RSZV) OT(O_ASF) OT(O_ASR) OT(O_CPA) OT(O_CPC) OT(O_CTS) OT(O_CTF) OT(O_CTR) OT(O_HUGE)
