#pragma once
// Vector harness: every case builds an arbitrary valid vector through the public API, applies one operation with
// arbitrary arguments and states what must hold afterwards.  Interpreted by engine/interp.py, never executed.
#include "vp.hpp"
#include "container/stdb_vector.hpp"
using stdb::container::stdb_vector;
static constexpr std::size_t MX = 1ull << 30;

template <class T> struct Ctx {
    const T* src;      // caller's elements: [0, n) initial content, [n, ...) operands
    std::size_t n;     // initial size
};
// Every vector state reachable by assign + reserve: n elements, capacity n + spare (or no buffer at all).
template <class T> static void mk(stdb_vector<T>& v, const T* a, std::size_t n) {
    if (n > 0) v.assign(a, a + n);
    std::size_t spare = vp_size(0, MX, "spare");
    if (spare > 0) v.reserve(n + spare);
}
template <class T> static std::size_t B(std::size_t k) { return k * sizeof(T); }
#define SETUP(T, extra)                                        \
    std::size_t n = vp_size(0, MX, "n");                       \
    const T* a = Src<T>::objs(n + (extra));                    \
    vp_snap(0, a, B<T>(n + (extra)));                          \
    stdb_vector<T> v;                                          \
    mk<T>(v, a, n);
#define SETUPM(T, extra)                                       \
    std::size_t n = vp_size(0, MX, "n");                       \
    T* a = const_cast<T*>(Src<T>::objs(n + (extra)));          \
    vp_snap(0, a, B<T>(n + (extra)));                          \
    stdb_vector<T> v;                                          \
    mkm<T>(v, a, n);
// move-only elements are brought in one by one
template <class T> static void mkm(stdb_vector<T>& v, T* a, std::size_t n) {
    std::size_t spare = vp_size(0, MX, "spare");
    if (n + spare > 0) v.reserve(n + spare);
    for (std::size_t i = 0; i < n; ++i) v.push_back(static_cast<T&&>(a[i]));
}
template <class T> static void inv(const stdb_vector<T>& v, std::size_t n) {
    vp_check(v.size() == n, "size() after the operation");
    vp_check(v.capacity() >= n, "capacity() is at least size()");
    vp_check(v.empty() == (n == 0), "empty() agrees with size()");
    vp_check(static_cast<std::size_t>(v.end() - v.begin()) == n, "begin()..end() spans size() elements");
}
#define ALL(M) M(int) M(VpObj) M(VpCpy) M(VpBig) M(char)
#define OBJ(M) M(VpObj) M(VpCpy)

#define POS std::size_t p = vp_size(0, n, "pos");
#define AT(k) (v.begin() + static_cast<std::ptrdiff_t>(k))
#define CAT(k) (v.cbegin() + static_cast<std::ptrdiff_t>(k))
#define INSERTED(T, m, what) inv(v, n + (m)); vp_same(v.data(), B<T>(p), 0, 0, what " keeps the elements before the position"); \
    vp_same(v.data() + p + (m), B<T>(n - p), 0, B<T>(p), what " shifts the elements after the position");
#define ERASED(T, m, what) inv(v, n - (m)); vp_same(v.data(), B<T>(p), 0, 0, what " keeps the elements before the position"); \
    vp_same(v.data() + p, B<T>(n - p - (m)), 0, B<T>(p + (m)), what " closes the gap in order");
#define OWN std::size_t q = vp_size(0, n - 1, "own");
#define FAILING(stmt, onfail) vp_oom(true); try { stmt; } catch (const std::bad_alloc&) { vp_oom(false); onfail vp_reach("failed"); } vp_oom(false);
#define STRONG(T) inv(v, n); vp_same(v.data(), B<T>(n), 0, 0, "a failed operation leaves the content alone");
#define VALID(T) vp_check(v.size() <= v.capacity(), "size() stays within capacity() after a failure");
#define AFTER(T) v.clear(); v.push_back(*a); inv(v, 1); vp_same(v.data(), B<T>(1), 0, 0, "usable after a failure"); vp_reach("end");
