// Filters and order of vectors with few elements, decided for every content: the loops are unrolled exactly.
#include "vec.hpp"
#include <vector>
#define U vp_unroll(24);
template <class T, int N> static void x_erase_value() { U const T* a = Src<T>::objs(N + 1); vp_snap(0, a, B<T>(N + 1)); stdb_vector<T> v(a, a + N); std::size_t k = v.erase(a[N]);
    std::size_t j = 0; for (std::size_t i = 0; i < N; ++i) if (!(a[i] == a[N])) { vp_check(j < v.size(), "erase(value) keeps the other elements"); vp_same(v.data() + j, B<T>(1), 0, B<T>(i), "erase(value) keeps the other elements in order"); ++j; }
    inv(v, j); vp_check(k == N - j, "erase(value) counts the elements removed"); vp_reach("end"); }
template <class T, int N> static void x_erase_if() { U const T* a = Src<T>::objs(N + 1); vp_snap(0, a, B<T>(N + 1)); stdb_vector<T> v(a, a + N); char m[N + 1]; for (int i = 0; i < N; ++i) { m[i] = vp_char(); vp_assume(m[i] == 0 || m[i] == 1); }
    std::size_t c = 0; std::size_t k = v.erase_if([&](const T&) { return m[c++] != 0; });
    vp_check(c == N, "erase_if asks once for each element");
    std::size_t j = 0; for (std::size_t i = 0; i < N; ++i) if (m[i] == 0) { vp_check(j < v.size(), "erase_if keeps the other elements"); vp_same(v.data() + j, B<T>(1), 0, B<T>(i), "erase_if keeps the elements that do not match, in order"); ++j; }
    inv(v, j); vp_check(k == N - j, "erase_if counts the removed elements");
    v.push_back(a[N]); inv(v, j + 1); vp_same(v.data() + j, B<T>(1), 0, B<T>(N), "push after erase_if"); vp_reach("end"); }
template <class T, int N, int M> static void x_order() { U T a[N + 1], b[M + 1]; for (int i = 0; i < N; ++i) a[i] = static_cast<T>(vp_i32()); for (int i = 0; i < M; ++i) b[i] = static_cast<T>(vp_i32());
    stdb_vector<T> v(a, a + N), w(b, b + M); int s = 0; for (int i = 0; s == 0 && i < N && i < M; ++i) if (a[i] != b[i]) s = a[i] < b[i] ? -1 : 1; if (s == 0) s = N < M ? -1 : N > M ? 1 : 0;
    auto r = v <=> w; vp_check((r < 0) == (s < 0) && (r > 0) == (s > 0), "vectors are ordered lexicographically"); vp_check((v == w) == (s == 0), "equality is element-wise"); vp_reach("end"); }
template <class T, int N, int K> static void x_iter() { U const T* a = Src<T>::objs(N + 1); vp_snap(0, a, B<T>(N + 1)); stdb_vector<T> v; v.reserve(K); for (int i = 0; i < N; ++i) v.push_back(a[i]);
    std::size_t i = 0; for (const T& x : v) { vp_check(&x == v.data() + i, "iteration visits the elements in order"); vp_same(&x, B<T>(1), 0, B<T>(i), "iteration visits the elements in order"); ++i; } vp_check(i == N, "iteration visits each element");
    for (auto it = v.rbegin(); it != v.rend(); ++it) { --i; vp_check(&*it == v.data() + i, "reverse iteration visits the elements in reverse order"); } vp_check(i == 0, "reverse iteration visits each element");
    while (!v.empty()) { v.erase(v.cbegin()); ++i; inv(v, N - i); vp_same(v.data(), B<T>(N - i), 0, B<T>(i), "erasing the first element keeps the others"); } vp_check(i == N, "each element was erased"); vp_reach("end"); }
#define C1(F, T, N) CASE(F##_##T##_##N) { F<T, N>(); }
#define C2(F, T, N, M) CASE(F##_##T##_##N##_##M) { F<T, N, M>(); }
#define CN(F, T) C1(F, T, 0) C1(F, T, 1) C1(F, T, 2) C1(F, T, 3) C1(F, T, 4)
CN(x_erase_value, int) CN(x_erase_value, char) CN(x_erase_value, VpObj)
CN(x_erase_if, int) CN(x_erase_if, VpObj) CN(x_erase_if, VpCpy) CN(x_erase_if, VpBig) CN(x_erase_if, char)
#define CO(T) C2(x_order, T, 0, 0) C2(x_order, T, 0, 1) C2(x_order, T, 1, 0) C2(x_order, T, 1, 1) C2(x_order, T, 1, 2) C2(x_order, T, 2, 1) C2(x_order, T, 2, 2) C2(x_order, T, 3, 2) C2(x_order, T, 3, 3)
CO(int) CO(char)
C2(x_iter, int, 0, 0) C2(x_iter, int, 3, 0) C2(x_iter, int, 3, 5) C2(x_iter, VpObj, 3, 0) C2(x_iter, VpObj, 2, 4) C2(x_iter, VpCpy, 3, 0) C2(x_iter, VpBig, 2, 0) C2(x_iter, char, 5, 0)
// every operation on few elements, for every position, count and spare capacity up to the bounds
template <class T> static void is(const stdb_vector<T>& v, std::size_t k, std::size_t at, std::size_t from, std::size_t m) { for (std::size_t i = 0; i < m; ++i) { vp_check(at + i < v.size() && v.size() == k, "the size is as specified"); vp_same(v.data() + at + i, B<T>(1), 0, B<T>(from + i), "each element is as specified"); } }
#define BEGIN U const T* a = Src<T>::objs(N + 4); vp_snap(0, a, B<T>(N + 4));
#define MAKE stdb_vector<T> v; if (N + S > 0) v.reserve(N + S); if (N > 0) v.assign(a, a + N);
#define MAKE2 stdb_vector<T> w; if (N + S > 0) w.reserve(N + S); if (N > 0) w.assign(a, a + N);
#define ALLP for (std::size_t p = 0; p <= N; ++p)
#define ALLM(K) for (std::size_t m = 0; m <= K; ++m)
#define INS(m, from) inv(v, N + (m)); is(v, N + (m), 0, 0, p); is(v, N + (m), p, from, m); is(v, N + (m), p + (m), p, N - p);
#define SAMEV(m) inv(v, N + (m)); is(v, N + (m), 0, 0, p); for (std::size_t i = 0; i < (m); ++i) is(v, N + (m), p + i, N, 1); is(v, N + (m), p + (m), p, N - p);
template <class T, int N, int S> static void y_insert1() { BEGIN ALLP { MAKE auto it = v.insert(CAT(p), a[N]); INS(1, N) vp_check(it == AT(p), "insert returns the new element"); } vp_reach("end"); }
template <class T, int N, int S> static void y_insertown() { BEGIN ALLP for (std::size_t q = 0; q < N; ++q) { MAKE v.insert(CAT(p), v[q]); INS(1, q) } vp_reach("end"); }
template <class T, int N, int S> static void y_insertm() { BEGIN ALLP for (std::size_t m = 1; m <= 3; ++m) { MAKE v.insert(CAT(p), m, a[N]); SAMEV(m) } vp_reach("end"); }
template <class T, int N, int S> static void y_insertr() { BEGIN ALLP ALLM(3) { MAKE v.insert(CAT(p), a + N, a + N + m); INS(m, N) } vp_reach("end"); }
template <class T, int N, int S> static void y_emplace() { BEGIN ALLP { MAKE auto it = v.emplace(AT(p), a[N]); INS(1, N) vp_check(it == AT(p), "emplace returns the new element"); } vp_reach("end"); }
template <class T, int N, int S> static void y_erase() { BEGIN ALLP for (std::size_t q = p; q <= N; ++q) { MAKE v.erase(CAT(p), CAT(q)); std::size_t k = N - (q - p); inv(v, k); is(v, k, 0, 0, p); is(v, k, p, q, N - q); } vp_reach("end"); }
template <class T, int N, int S> static void y_erase1() { BEGIN for (std::size_t p = 0; p < N; ++p) { MAKE v.erase(AT(p)); inv(v, N - 1); is(v, N - 1, 0, 0, p); is(v, N - 1, p, p + 1, N - p - 1); } vp_reach("end"); }
template <class T, int N, int S> static void y_resize() { BEGIN for (std::size_t k = 0; k <= N + 3; ++k) { MAKE v.resize(k, a[N]); std::size_t c = k < N ? k : N; inv(v, k); is(v, k, 0, 0, c); for (std::size_t i = c; i < k; ++i) is(v, k, i, N, 1); } vp_reach("end"); }
template <class T, int N, int S> static void y_assign() { BEGIN ALLM(4) { MAKE v.assign(a + N, a + N + m); inv(v, m); is(v, m, 0, N, m); MAKE2 w.assign(m, a[N]); inv(w, m); for (std::size_t i = 0; i < m; ++i) is(w, m, i, N, 1); } vp_reach("end"); }
template <class T, int N, int S> static void y_push() { BEGIN { MAKE for (std::size_t i = 0; i < 4; ++i) { v.push_back(a[N + i]); inv(v, N + i + 1); is(v, N + i + 1, 0, 0, N + i + 1); } for (std::size_t i = 4; i > 0; --i) { v.pop_back(); inv(v, N + i - 1); is(v, N + i - 1, 0, 0, N + i - 1); } } vp_reach("end"); }
template <class T, int N, int S> static void y_pushown() { BEGIN for (std::size_t q = 0; q < N; ++q) { MAKE v.push_back(v[q]); inv(v, N + 1); is(v, N + 1, 0, 0, N); is(v, N + 1, N, q, 1); v.emplace_back(v[q]); is(v, N + 2, 0, 0, N); is(v, N + 2, N + 1, q, 1); } vp_reach("end"); }
template <class T, int N, int S> static void y_whole() { BEGIN { MAKE stdb_vector<T> c(v); inv(c, N); is(c, N, 0, 0, N); v.shrink_to_fit(); inv(v, N); is(v, N, 0, 0, N); stdb_vector<T> d(std::move(v)); inv(d, N); is(d, N, 0, 0, N); inv(v, 0); stdb_vector<T> e; e = c; inv(e, N); is(e, N, 0, 0, N); e.push_back(a[N]); e = std::move(c); inv(e, N); is(e, N, 0, 0, N); v.push_back(a[N]); v.swap(e); inv(v, N); is(v, N, 0, 0, N); inv(e, 1); is(e, 1, 0, N, 1); v.clear(); inv(v, 0); v.assign(2, a[N]); inv(v, 2); is(v, 2, 0, N, 1); is(v, 2, 1, N, 1); } vp_reach("end"); }
#define C3(F, T) C2(F, T, 0, 0) C2(F, T, 1, 0) C2(F, T, 1, 1) C2(F, T, 2, 2) C2(F, T, 3, 0) C2(F, T, 3, 1)
#define CT(F) C3(F, int) C3(F, VpObj) C3(F, VpCpy)
CT(y_insert1) CT(y_insertown) CT(y_insertm) CT(y_insertr) CT(y_emplace) CT(y_erase) CT(y_erase1) CT(y_resize) CT(y_assign) CT(y_push) CT(y_pushown) CT(y_whole)
