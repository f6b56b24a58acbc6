// String cases, part 2: C string arguments, iterator ranges, std::string interoperation, completeness of searches.
#include "str.hpp"
#include <iterator>
#include <string>
// --- arguments given as C strings: z[0, m), terminated
#define MC(name, decl, stmt, checks) MOD(c_##name, M decl, 0, const char* z = vp_cstr(m, "z"); vp_snap(1, z, m); stmt, checks)
#define ISZ(what) inv(s, m); vp_same(s.c_str(), m, 1, 0, what);
#define IS3Z(z_, x, p0, y, p2, what) inv(s, z_); vp_same(s.c_str(), x, 0, p0, what); \
    vp_same(s.c_str() + (x), (y) - (x), 1, 0, what); vp_same(s.c_str() + (y), (z_) - (y), 0, p2, what);
MC(assign, , s.assign(z), ISZ("assign(s) replaces the text"))
MC(op_assign, , s = z, ISZ("assignment from a C string replaces the text"))
MC(append, , s.append(z), IS3Z(n + m, n, 0, n + m, 0, "append(s) appends the text"))
MC(plus, , s += z, IS3Z(n + m, n, 0, n + m, 0, "+= appends the text"))
MC(insert, P, vp_assume(p <= n); s.insert(p, z), IS3Z(n + m, p, 0, p + m, p, "insert(pos, s)"))
MC(replace, P K, vp_assume(p <= n); s.replace(p, k, z); std::size_t r = k < n - p ? k : n - p, IS3Z(n - r + m, p, 0, p + m, p + r, "replace(pos, n, s)"))
MC(replace_it, P K, vp_assume(p <= k && k <= n); auto b = s.begin(); s.replace(b + p, b + k, z), IS3Z(n - (k - p) + m, p, 0, p + m, k, "replace(first, last, s)"))
MC(replace_itn, P K SZ(u, m);, vp_assume(p <= k && k <= n); auto b = s.begin(); s.replace(b + p, b + k, z, u), IS3Z(n - (k - p) + u, p, 0, p + u, k, "replace(first, last, s, n)"))
MC(ctor, , string t(z); inv(t, m); vp_same(t.c_str(), m, 1, 0, "construction from a C string"), IS(n, 0, "unaffected"))
MC(concat, , string t(static_cast<const string&>(s) + z); inv(t, n + m); vp_same(t.c_str(), n, 0, 0, "operator+ concatenates"); vp_same(t.c_str() + n, m, 1, 0, "operator+ concatenates"),
    IS(n, 0, "operator+ leaves its operands alone"))
MC(concatl, , string t(z + static_cast<const string&>(s)); inv(t, n + m); vp_same(t.c_str(), m, 1, 0, "operator+ concatenates"); vp_same(t.c_str() + m, n, 0, 0, "operator+ concatenates"),
    IS(n, 0, "operator+ leaves its operands alone"))
MC(concat_rv, , string t(std::move(s) + z); inv(t, n + m); vp_same(t.c_str(), n, 0, 0, "operator+ concatenates"); vp_same(t.c_str() + n, m, 1, 0, "operator+ concatenates"), inv(s, s.size());)
MC(concatl_rv, , string t(z + std::move(s)); inv(t, n + m); vp_same(t.c_str(), m, 1, 0, "operator+ concatenates"); vp_same(t.c_str() + m, n, 0, 0, "operator+ concatenates"), inv(s, s.size());)
// --- replacements addressed by iterators
MOD(replace_itstr, M P K, m, vp_assume(p <= k && k <= n); string t(a + n, m); auto b = s.begin(); s.replace(b + p, b + k, t); inv(t, m), IS3(n - (k - p) + m, p, 0, p + m, n, k, "replace(first, last, str)"))
MOD(replace_itfill, M P K char x = vp_char();, 0, vp_assume(p <= k && k <= n); auto b = s.begin(); s.replace(b + p, b + k, m, x), ISF(n - (k - p) + m, p, p + m, x, k, "replace(first, last, n, c)"))
MOD(insert_itfill, M P char x = vp_char();, 0, vp_assume(p <= n); auto it = s.insert(s.cbegin() + p, m, x); vp_check(it == s.c_str() + p, "insert returns the position of the first new character"),
    ISF(n + m, p, p + m, x, p, "insert(it, n, c)"))
MOD(append_il, , 0, s.append({'x', 'x', 'x'}), ISF(n + 3, n, n + 3, 'x', 0, "append(initializer list)"))
MOD(assign_il, , 0, s.assign({'x', 'x', 'x'}), inv(s, 3); vp_same_fill(s.c_str(), 3, 'x', "assign(initializer list)");)
MOD(opassign_il, , 0, (s = {'x', 'x', 'x'}), inv(s, 3); vp_same_fill(s.c_str(), 3, 'x', "assignment of an initializer list");)
MOD(plus_il, , 0, (s += {'x', 'x', 'x'}), ISF(n + 3, n, n + 3, 'x', 0, "+= initializer list"))
MOD(insert_il, P, 0, vp_assume(p <= n); s.insert(s.cbegin() + p, {'x', 'x', 'x'}), ISF(n + 3, p, p + 3, 'x', p, "insert(it, initializer list)"))
MOD(ctor_il, , 0, string t({'x', 'x', 'x'}); inv(t, 3); vp_same_fill(t.c_str(), 3, 'x', "construction from an initializer list"), IS(n, 0, "unaffected"))
MOD(ctor_fill, M char x = vp_char();, 0, string t(m, x); inv(t, m); vp_same_fill(t.c_str(), m, x, "construction of a run"), IS(n, 0, "unaffected"))
MOD(ctor_sub, P K, 0, vp_assume(p <= n); string t(s, p, k); std::size_t r = k < n - p ? k : n - p; inv(t, r); vp_same(t.c_str(), r, 0, p, "construction from a substring"), IS(n, 0, "unaffected"))
MOD(resize_zero, M, 0, vp_assume(m >= n); s.resize(m), ISF(m, n, m, '\0', 0, "resize fills with null characters"))
// --- ranges given by iterators that are not pointers
template <class Tag> struct It {
    using iterator_category = Tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = const char&;
    const char* p;
    const char& operator*() const { return *p; }
    It& operator++() { ++p; return *this; }
    It operator++(int) { It r = *this; ++p; return r; }
    It& operator--() { --p; return *this; }
    bool operator==(const It& o) const { return p == o.p; }
    bool operator!=(const It& o) const { return p != o.p; }
};
using Fwd = It<std::forward_iterator_tag>; using Inp = It<std::input_iterator_tag>;
#define MR(name, I, decl, stmt, checks) MOD(name, M decl, m, I f{a + n}; I l{a + n + m}; stmt, checks)
MR(fwd_ctor, Fwd, , string t(f, l); inv(t, m); vp_same(t.c_str(), m, 0, n, "construction from a range"), IS(n, 0, "unaffected"))
MR(fwd_assign, Fwd, , s.assign(f, l), IS(m, n, "assign(first, last)"))
MR(fwd_append, Fwd, , s.append(f, l), IS(n + m, 0, "append(first, last)"))
MR(fwd_insert, Fwd, P, vp_assume(p <= n); s.insert(s.begin() + p, f, l), IS3(n + m, p, 0, p + m, n, p, "insert(it, first, last)"))
MR(fwd_replace, Fwd, P K, vp_assume(p <= k && k <= n); auto b = s.begin(); s.replace(b + p, b + k, f, l), IS3(n - (k - p) + m, p, 0, p + m, n, k, "replace(first, last, first2, last2)"))
MR(inp_ctor, Inp, , string t(f, l); inv(t, m); vp_same(t.c_str(), m, 0, n, "construction from a range"), IS(n, 0, "unaffected"))
MR(inp_assign, Inp, , s.assign(f, l), IS(m, n, "assign(first, last)"))
MR(inp_append, Inp, , s.append(f, l), IS(n + m, 0, "append(first, last)"))
MR(inp_insert, Inp, P, vp_assume(p <= n); s.insert(s.begin() + p, f, l), IS3(n + m, p, 0, p + m, n, p, "insert(it, first, last)"))
MR(inp_replace, Inp, P K, vp_assume(p <= k && k <= n); auto b = s.begin(); s.replace(b + p, b + k, f, l), IS3(n - (k - p) + m, p, 0, p + m, n, k, "replace(first, last, first2, last2)"))
// --- observers with C strings
#define MXC(name, decl, stmt) MX_(c_##name, M decl, 0, const char* z = vp_cstr(m, "z"); stmt)
MXC(compare, , vp_check(sgn(cs.compare(z)) == cmp3(a, n, z, m), "compare(s) orders by content, then length"))
MXC(compare_sub, P K, vp_assume(p <= n); std::size_t r = k < n - p ? k : n - p; vp_check(sgn(cs.compare(p, k, z)) == cmp3(a + p, r, z, m), "compare(pos, n, s)"))
MXC(equal, , bool e = n == m && std::memcmp(a, z, n) == 0; vp_check((cs == z) == e && (z == cs) == e && (cs != z) == !e && (z != cs) == !e, "equality with a C string"))
MXC(less, , int r = cmp3(a, n, z, m); vp_check((cs < z) == (r < 0) && (cs > z) == (r > 0) && (cs <= z) == (r <= 0) && (cs >= z) == (r >= 0), "ordering with a C string"))
MXC(lessl, , int r = cmp3(a, n, z, m); vp_check((z < cs) == (r > 0) && (z > cs) == (r < 0) && (z <= cs) == (r >= 0) && (z >= cs) == (r <= 0), "ordering with a C string"))
MXC(starts, , vp_check(cs.starts_with(z) == (m <= n && std::memcmp(a, z, m) == 0), "starts_with(s)"))
MXC(ends, , vp_check(cs.ends_with(z) == (m <= n && std::memcmp(a + (n - m), z, m) == 0), "ends_with(s)"))
MX_(sv_starts, M, m, std::string_view v(a + n, m); vp_check(cs.starts_with(v) == (m <= n && std::memcmp(a, a + n, m) == 0), "starts_with(view)"))
MX_(sv_ends, M, m, std::string_view v(a + n, m); vp_check(cs.ends_with(v) == (m <= n && std::memcmp(a + (n - m), a + n, m) == 0), "ends_with(view)"))
MX_(starts_char, , 1, vp_check(cs.starts_with(a[n]) == (n > 0 && a[0] == a[n]), "starts_with(c)"))
MX_(ends_char, , 1, vp_check(cs.ends_with(a[n]) == (n > 0 && a[n - 1] == a[n]), "ends_with(c)"))
MX_(max_size, , 0, vp_check(cs.max_size() >= n, "max_size()"))
// --- searches: every position at which the text matches is found (w is such a position)
#define W(lo, hi) vp_assume(w < n && w >= (lo) && w <= (hi)); vp_witness(a, w);
#define IN(c) (std::memchr(a + n, c, m) != nullptr)
MX_(cfind_char, P SZ(w, MX);, 1, W(p, n) vp_assume(a[w] == a[n]); std::size_t r = cs.find(a[n], p); vp_check(r >= p && r <= w && a[r] == a[n], "find() reports the first match"))
MX_(contains_char, SZ(w, MX);, 1, W(0, n) vp_assume(a[w] == a[n]); vp_check(cs.contains(a[n]), "contains() finds a match"))
MX_(crfind_char, P SZ(w, MX);, 1, W(0, p) vp_assume(a[w] == a[n]); std::size_t r = cs.rfind(a[n], p); vp_check(r >= w && r <= p && r < n, "rfind() reports the last match"))
MX_(crfind, P M SZ(w, MX);, m, vp_assume(m > 0 && m <= n && w <= n - m && w <= p); vp_witness(a, w); vp_assume(std::memcmp(a + w, a + n, m) == 0); std::size_t r = cs.rfind(a + n, p, m);
    vp_check(r >= w && r <= p && r <= n - m, "rfind() reports the last match"))
MX_(cfind_first_of, P M SZ(w, MX);, m, W(p, n) vp_assume(IN(a[w])); std::size_t r = cs.find_first_of(a + n, p, m); vp_check(r >= p && r <= w, "find_first_of() reports the first member"))
MX_(cfind_last_of, P M SZ(w, MX);, m, W(0, p) vp_assume(IN(a[w])); std::size_t r = cs.find_last_of(a + n, p, m); vp_check(r >= w && r <= p && r < n, "find_last_of() reports the last member"))
MX_(cfind_first_not_of, P M SZ(w, MX);, m, W(p, n) vp_assume(!IN(a[w])); std::size_t r = cs.find_first_not_of(a + n, p, m); vp_check(r >= p && r <= w, "find_first_not_of() reports the first non-member"))
MX_(cfind_last_not_of, P M SZ(w, MX);, m, W(0, p) vp_assume(!IN(a[w])); std::size_t r = cs.find_last_not_of(a + n, p, m); vp_check(r >= w && r <= p && r < n, "find_last_not_of() reports the last non-member"))
MX_(cfind_last_of_char, P SZ(w, MX);, 1, W(0, p) vp_assume(a[w] == a[n]); std::size_t r = cs.find_last_of(a[n], p); vp_check(r >= w && r <= p && r < n, "find_last_of(c) reports the last match"))
MX_(cfind_first_of_char, P SZ(w, MX);, 1, W(p, n) vp_assume(a[w] == a[n]); std::size_t r = cs.find_first_of(a[n], p); vp_check(r >= p && r <= w, "find_first_of(c) reports the first match"))
MX_(cfind_last_not_of_char, P SZ(w, MX);, 1, W(0, p) vp_assume(a[w] != a[n]); std::size_t r = cs.find_last_not_of(a[n], p); vp_check(r >= w && r <= p && r < n, "find_last_not_of(c) reports the last other character"))
MX_(cfind_first_not_of_char, P SZ(w, MX);, 1, W(p, n) vp_assume(a[w] != a[n]); std::size_t r = cs.find_first_not_of(a[n], p); vp_check(r >= p && r <= w, "find_first_not_of(c) reports the first other character"))
MX_(find_none, P K M, m, vp_assume(p > n); vp_check(cs.find(a + n, p, m) == string::npos && cs.find_first_of(a + n, p, m) == string::npos && cs.find_first_not_of(a + n, p, m) == string::npos,
    "a search that starts behind the text finds nothing"))
MX_(find_empty, P, 0, vp_assume(p <= n); vp_check(cs.find(a, p, 0) == p && cs.rfind(a, p, 0) == p && cs.find_first_of(a, p, 0) == string::npos && cs.find_last_of(a, p, 0) == string::npos,
    "searches for nothing"))
MX_(contains_sv, M, m, std::string_view v(a + n, m); vp_assume(m > n); vp_check(!cs.contains(v), "contains(view) looks for the whole view"))
