// String cases, part 1: see str.hpp
#include "str.hpp"
MOD(build, , 0, , IS(n, 0, "the string holds the assigned text"))
// --- assignment
MOD(assign, M, m, s.assign(a + n, m), IS(m, n, "assign replaces the text"))
MOD(assign_str, M, m, string t(a + n, m); s.assign(t); inv(t, m), IS(m, n, "assign(str) replaces the text"))
MOD(assign_sub, M SZ(p, m); SZ(k, MX);, m, string t(a + n, m); s.assign(t, p, k); std::size_t r = k < m - p ? k : m - p,
    IS(r, n + p, "assign(str, pos, n) takes the substring"))
MOD(copy_assign, M, m, string t(a + n, m); s = t; inv(t, m), IS(m, n, "copy assignment replaces the text"))
MOD(move_assign, M, m, string t(a + n, m); s = std::move(t), IS(m, n, "move assignment takes over the text"))
MOD(move_assign2, M, m, string t(a + n, m); s.assign(std::move(t)); inv(t, t.size()); t.assign(a, n); inv(t, n),
    IS(m, n, "move assignment takes over the text"))
MOD(sv_assign, M, m, s = std::string_view(a + n, m), IS(m, n, "assignment from a view replaces the text"))
MOD(char_assign, char x = vp_char();, 0, s = x, inv(s, 1); vp_check(s.c_str()[0] == x, "assigning a character");)
MOD(assign_fill, M char x = vp_char();, 0, s.assign(m, x), inv(s, m); vp_same_fill(s.c_str(), m, x, "assign(n, c) fills");)
MOD(assign_range, M, m, s.assign(a + n, a + n + m), IS(m, n, "assign(first, last) replaces the text"))
MOD(self_assign, , 0, { string& r = s; s = r; }, IS(n, 0, "self assignment keeps the text"))
MOD(self_move, , 0, { string& r = s; s = std::move(r); }, IS(n, 0, "self move assignment keeps the text"))
// --- append
MOD(push_back, , 1, s.push_back(a[n]), IS(n + 1, 0, "push_back appends the character"))
MOD(plus_char, , 1, s += a[n], IS(n + 1, 0, "+= appends the character"))
MOD(append, M, m, s.append(a + n, m), IS(n + m, 0, "append appends the text"))
MOD(append_str, M, m, string t(a + n, m); s.append(t); inv(t, m), IS(n + m, 0, "append(str) appends the text"))
MOD(plus_str, M, m, string t(a + n, m); s += t; inv(t, m), IS(n + m, 0, "+= appends the text"))
MOD(plus_sv, M, m, s += std::string_view(a + n, m), IS(n + m, 0, "+= appends the view"))
MOD(append_sub, M SZ(p, m); SZ(k, MX);, m, string t(a + n, m); s.append(t, p, k); std::size_t r = k < m - p ? k : m - p,
    IS3(n + r, n, 0, n + r, n + p, 0, "append(str, pos, n) appends the substring"))
MOD(append_fill, M char x = vp_char();, 0, s.append(m, x), ISF(n + m, n, n + m, x, 0, "append(n, c) appends a run"))
MOD(append_range, M, m, s.append(a + n, a + n + m), IS(n + m, 0, "append(first, last) appends the text"))
// --- size and capacity
MOD(pop_back, , 0, vp_assume(n > 0); s.pop_back(), IS(n - 1, 0, "pop_back removes the last character"))
MOD(resize_down, SZ(m, MX);, 0, vp_assume(m <= n); s.resize(m), IS(m, 0, "resize keeps a prefix"))
MOD(resize_up, SZ(m, MX); char x = vp_char();, 0, vp_assume(m >= n); s.resize(m, x), ISF(m, n, m, x, 0, "resize fills with the character"))
MOD(clear, , 0, s.clear(), inv(s, 0);)
MOD(reserve, M, 0, s.reserve(m); vp_check(s.capacity() >= m, "reserve provides the capacity"), IS(n, 0, "reserve keeps the text"))
MOD(shrink_to_fit, , 0, s.shrink_to_fit(), IS(n, 0, "shrink_to_fit keeps the text"))
// --- insert
MOD(insert, SZ(m, MX); SZ(p, MX);, m, vp_assume(p <= n); s.insert(p, a + n, m), IS3(n + m, p, 0, p + m, n, p, "insert(pos, s, n)"))
MOD(insert_str, SZ(m, MX); SZ(p, MX);, m, vp_assume(p <= n); string t(a + n, m); s.insert(p, t); inv(t, m), IS3(n + m, p, 0, p + m, n, p, "insert(pos, str)"))
MOD(insert_sub, M SZ(q, m); SZ(k, MX); SZ(p, MX);, m, vp_assume(p <= n); string t(a + n, m); s.insert(p, t, q, k); std::size_t r = k < m - q ? k : m - q,
    IS3(n + r, p, 0, p + r, n + q, p, "insert(pos, str, pos2, n)"))
MOD(insert_fill, SZ(m, MX); SZ(p, MX); char x = vp_char();, 0, vp_assume(p <= n); s.insert(p, m, x), ISF(n + m, p, p + m, x, p, "insert(pos, n, c)"))
MOD(insert_char, SZ(p, MX); char x = vp_char();, 0, vp_assume(p <= n); auto it = s.insert(s.cbegin() + p, x);
    vp_check(it == s.c_str() + p, "insert returns the position of the new character"), ISF(n + 1, p, p + 1, x, p, "insert(it, c)"))
MOD(insert_range, SZ(m, MX); SZ(p, MX);, m, vp_assume(p <= n); auto it = s.insert(s.begin() + p, a + n, a + n + m);
    vp_check(it == s.c_str() + p, "insert returns the position of the first new character"), IS3(n + m, p, 0, p + m, n, p, "insert(it, first, last)"))
// --- erase
MOD(erase, SZ(p, MX); SZ(k, MX);, 0, vp_assume(p <= n); s.erase(p, k); std::size_t r = k < n - p ? k : n - p,
    IS3(n - r, p, 0, n - r, p + r, 0, "erase(pos, n) removes the characters"))
MOD(erase_all, , 0, s.erase(), inv(s, 0);)
MOD(erase_it, SZ(p, MX);, 0, vp_assume(p < n); auto it = s.erase(s.begin() + p); vp_check(it == s.c_str() + p, "erase returns the position"),
    IS3(n - 1, p, 0, n - 1, p + 1, 0, "erase(it) removes the character"))
MOD(erase_range, SZ(p, MX); SZ(q, MX);, 0, vp_assume(p <= q && q <= n); auto b = s.begin(); auto it = s.erase(b + p, b + q);
    vp_check(it == s.c_str() + p, "erase returns the position"), IS3(n - (q - p), p, 0, n - (q - p), q, 0, "erase(first, last) removes the characters"))
// --- replace
MOD(replace, SZ(m, MX); SZ(p, MX); SZ(k, MX);, m, vp_assume(p <= n); s.replace(p, k, a + n, m); std::size_t r = k < n - p ? k : n - p,
    IS3(n - r + m, p, 0, p + m, n, p + r, "replace(pos, n1, s, n2)"))
MOD(replace_str, SZ(m, MX); SZ(p, MX); SZ(k, MX);, m, vp_assume(p <= n); string t(a + n, m); s.replace(p, k, t); std::size_t r = k < n - p ? k : n - p,
    IS3(n - r + m, p, 0, p + m, n, p + r, "replace(pos, n1, str)"))
MOD(replace_sub, SZ(m, MX); SZ(p, MX); SZ(k, MX); SZ(q, m); SZ(k2, MX);, m, vp_assume(p <= n); string t(a + n, m); s.replace(p, k, t, q, k2);
    std::size_t r = k < n - p ? k : n - p; std::size_t u = k2 < m - q ? k2 : m - q,
    IS3(n - r + u, p, 0, p + u, n + q, p + r, "replace(pos, n1, str, pos2, n2)"))
MOD(replace_fill, SZ(m, MX); SZ(p, MX); SZ(k, MX); char x = vp_char();, 0, vp_assume(p <= n); s.replace(p, k, m, x); std::size_t r = k < n - p ? k : n - p,
    ISF(n - r + m, p, p + m, x, p + r, "replace(pos, n1, n2, c)"))
MOD(replace_it, SZ(m, MX); SZ(p, MX); SZ(q, MX);, m, vp_assume(p <= q && q <= n); auto b = s.begin(); s.replace(b + p, b + q, a + n, a + n + m),
    IS3(n - (q - p) + m, p, 0, p + m, n, q, "replace(first, last, first2, last2)"))
// --- element access through mutable references
MOD(index_write, SZ(p, MX); char x = vp_char();, 0, vp_assume(p < n); s[p] = x, ISF(n, p, p + 1, x, p + 1, "operator[] writes one character"))
MOD(at_write, SZ(p, MX); char x = vp_char();, 0, vp_assume(p < n); s.at(p) = x, ISF(n, p, p + 1, x, p + 1, "at() writes one character"))
MOD(front_write, char x = vp_char();, 0, vp_assume(n > 0); s.front() = x, ISF(n, 0, 1, x, 1, "front() writes one character"))
MOD(back_write, char x = vp_char();, 0, vp_assume(n > 0); s.back() = x, ISF(n, n - 1, n, x, n, "back() writes one character"))
MOD(begin_write, SZ(p, MX); char x = vp_char();, 0, vp_assume(p < n); *(s.begin() + p) = x, ISF(n, p, p + 1, x, p + 1, "begin() writes one character"))
MOD(end_write, char x = vp_char();, 0, vp_assume(n > 0); *(s.end() - 1) = x, ISF(n, n - 1, n, x, n, "end() writes one character"))
MOD(data_write, SZ(p, MX); char x = vp_char();, 0, vp_assume(p < n); s.data()[p] = x, ISF(n, p, p + 1, x, p + 1, "data() writes one character"))
// --- whole strings
MOD(swap, M, m, string t(a + n, m); s.swap(t); inv(t, n); vp_same(t.c_str(), n, 0, 0, "swap exchanges the texts"), IS(m, n, "swap exchanges the texts"))
MOD(swap_copy, , 0, string t(s); s.swap(t); inv(t, n); vp_same(t.c_str(), n, 0, 0, "swap exchanges the texts"), IS(n, 0, "swap exchanges the texts"))
MOD(swap_free, M, m, string t(a + n, m); swap(s, t); inv(t, n); vp_same(t.c_str(), n, 0, 0, "swap exchanges the texts"), IS(m, n, "swap exchanges the texts"))
MOD(move_ctor, , 0, string t(std::move(s)); inv(t, n); vp_same(t.c_str(), n, 0, 0, "a move takes over the text"); vp_check(s.empty(), "the moved-from string is empty"), inv(s, 0);)
MOD(move_reuse, M, m, string t(std::move(s)); inv(t, n); vp_same(t.c_str(), n, 0, 0, "a move takes over the text"); s.append(a + n, m), IS(m, n, "a moved-from string can be reused"))
MOD(copy_ctor, M, m, string t(s); s.append(a + n, m); inv(t, n); vp_same(t.c_str(), n, 0, 0, "the copy does not change with the original"), IS(n + m, 0, "append appends the text"))
MOD(copy_write, , 0, { string t(s); t.append(3, 'x'); t.clear(); }, IS(n, 0, "the original does not change with the copy"))
MOD(copy_chain, M, m, { string t(s); string u(t); t.append(a + n, m); u = t; inv(u, n + m); vp_same(u.c_str(), n + m, 0, 0, "the assigned copy holds the text"); }, IS(n, 0, "the original does not change with its copies"))
MOD(clone, , 0, string t(s.clone()); inv(t, n); vp_same(t.c_str(), n, 0, 0, "clone() holds the text"), IS(n, 0, "clone() leaves the text alone"))
MOD(substr, SZ(p, MX); SZ(k, MX);, 0, vp_assume(p <= n); string t(static_cast<const string&>(s).substr(p, k)); std::size_t r = k < n - p ? k : n - p; inv(t, r);
    vp_same(t.c_str(), r, 0, p, "substr() holds the substring"), IS(n, 0, "substr() leaves the text alone"))
MOD(substr_move, SZ(p, MX); SZ(k, MX);, 0, vp_assume(p <= n); string t(std::move(s).substr(p, k)); std::size_t r = k < n - p ? k : n - p; inv(t, r);
    vp_same(t.c_str(), r, 0, p, "substr() holds the substring"), inv(s, s.size());)
MOD(concat, M, m, string u(a + n, m); string t(static_cast<const string&>(s) + static_cast<const string&>(u)); inv(t, n + m);
    vp_same(t.c_str(), n + m, 0, 0, "operator+ concatenates"); inv(u, m), IS(n, 0, "operator+ leaves its operands alone"))
MOD(concat_rv, M, m, string u(a + n, m); string t(std::move(s) + static_cast<const string&>(u)); inv(t, n + m);
    vp_same(t.c_str(), n + m, 0, 0, "operator+ concatenates"); inv(u, m), inv(s, s.size());)
MOD(concat_rv2, M, m, string u(a + n, m); string t(static_cast<const string&>(s) + std::move(u)); inv(t, n + m);
    vp_same(t.c_str(), n + m, 0, 0, "operator+ concatenates"); inv(u, u.size()), IS(n, 0, "operator+ leaves its operands alone"))
MOD(concat_rv3, M, m, string u(a + n, m); string t(std::move(s) + std::move(u)); inv(t, n + m);
    vp_same(t.c_str(), n + m, 0, 0, "operator+ concatenates"); inv(u, u.size()), inv(s, s.size());)
MOD(concat_char, , 1, string t(static_cast<const string&>(s) + a[n]); inv(t, n + 1);
    vp_same(t.c_str(), n + 1, 0, 0, "operator+ concatenates"), IS(n, 0, "operator+ leaves its operands alone"))
MOD(concat_charl, , 1, string t(a[n] + static_cast<const string&>(s)); inv(t, n + 1); vp_same(t.c_str(), 1, 0, n, "operator+ concatenates");
    vp_same(t.c_str() + 1, n, 0, 0, "operator+ concatenates"), IS(n, 0, "operator+ leaves its operands alone"))
MOD(concat_charl_rv, , 1, string t(a[n] + std::move(s)); inv(t, n + 1); vp_same(t.c_str(), 1, 0, n, "operator+ concatenates");
    vp_same(t.c_str() + 1, n, 0, 0, "operator+ concatenates"), inv(s, s.size());)
MOD(copy_out, SZ(p, MX); SZ(k, MX);, 0, vp_assume(p <= n); std::size_t r = k < n - p ? k : n - p; char* w = vp_wbytes(r, "out");
    vp_check(s.copy(w, k, p) == r, "copy() returns the number of characters"); vp_same(w, r, 0, p, "copy() copies the characters"), IS(n, 0, "copy() leaves the text alone"))
// --- arguments that refer to the string itself: [q, q + m) of its own text
MA(assign, , s.assign(OWN, m), IS(m, q, "assign of an own substring"))
MA(assign_sub, , s.assign(s, q, m), IS(m, q, "assign of an own substring"))
MA(assign_range, , const char* b = OWN; s.assign(b, b + m), IS(m, q, "assign of an own range"))
MA(sv_assign, , s = std::string_view(OWN, m), IS(m, q, "assignment from a view of the string"))
MA(append, , s.append(OWN, m), IS3(n + m, n, 0, n + m, q, 0, "append of an own substring"))
MA(append_str, , s.append(s), IS3(n + n, n, 0, n + n, 0, 0, "append of the string to itself"))
MA(plus, , s += s, IS3(n + n, n, 0, n + n, 0, 0, "append of the string to itself"))
MA(append_sub, , s.append(s, q, m), IS3(n + m, n, 0, n + m, q, 0, "append of an own substring"))
MA(append_range, , const char* b = OWN; s.append(b, b + m), IS3(n + m, n, 0, n + m, q, 0, "append of an own range"))
MA(push_back, , vp_assume(q < n); s.push_back(static_cast<const string&>(s)[q]), IS3(n + 1, n, 0, n + 1, q, 0, "push_back of an own character"))
MA(insert, P, vp_assume(p <= n); s.insert(p, OWN, m), IS3(n + m, p, 0, p + m, q, p, "insert of an own substring"))
MA(insert_str, P, vp_assume(p <= n); s.insert(p, s), IS3(n + n, p, 0, p + n, 0, p, "insert of the string into itself"))
MA(insert_sub, P, vp_assume(p <= n); s.insert(p, s, q, m), IS3(n + m, p, 0, p + m, q, p, "insert of an own substring"))
MA(insert_range, P, vp_assume(p <= n); const char* b = OWN; s.insert(s.begin() + p, b, b + m), IS3(n + m, p, 0, p + m, q, p, "insert of an own range"))
MA(insert_begin, P, vp_assume(p <= n); auto b = s.begin(); s.insert(b + p, b + q, b + q + m), IS3(n + m, p, 0, p + m, q, p, "insert of an own range"))
MA(replace, P K, vp_assume(p <= n && k <= n - p); s.replace(p, k, OWN, m), IS3(n - k + m, p, 0, p + m, q, p + k, "replace by an own substring"))
MA(replace_str, P K, vp_assume(p <= n && k <= n - p); s.replace(p, k, s), IS3(n - k + n, p, 0, p + n, 0, p + k, "replace by the string itself"))
MA(replace_it, P K, vp_assume(p <= n && k <= n - p); auto b = s.begin(); s.replace(b + p, b + p + k, b + q, b + q + m), IS3(n - k + m, p, 0, p + m, q, p + k, "replace by an own range"))
MA(swap, , s.swap(s), IS(n, 0, "swap with itself"))
MA(concat, , string t(s + s); inv(t, n + n); vp_same(t.c_str(), n, 0, 0, "s + s"); vp_same(t.c_str() + n, n, 0, 0, "s + s"), IS(n, 0, "operator+ leaves its operands alone"))
MA(substr_assign, , s = static_cast<const string&>(s).substr(q, m), IS(m, q, "assignment of an own substring"))
// --- positions out of range: std::out_of_range, and the string is left alone
#define MT(name, decl, X, stmt)                                                                                      \
    CASE(st_##name) { decl SETUP(X) bool thrown = false; { string keep(s); try { stmt; } catch (const std::out_of_range&) { thrown = true; } \
        IS(n, 0, "the string is left alone") inv(keep, n); } vp_check(thrown, "an out of range position throws std::out_of_range"); vp_reach("end"); }
MT(at, P, 0, vp_assume(p >= n); s.at(p) = 'x')
MT(at_const, P, 0, vp_assume(p >= n); vp_check(static_cast<const string&>(s).at(p) == 'x', "unreachable"))
MT(insert, P M, m, vp_assume(p > n); s.insert(p, a + n, m))
MT(insert_str, P M, m, vp_assume(p > n); string t(a + n, m); s.insert(p, t))
MT(insert_sub, P M SZ(q, MX); K, m, vp_assume(q > m); string t(a + n, m); s.insert(p, t, q, k))
MT(insert_fill, P M, 0, vp_assume(p > n); s.insert(p, m, 'x'))
MT(erase, P K, 0, vp_assume(p > n); s.erase(p, k))
MT(replace, P K M, m, vp_assume(p > n); s.replace(p, k, a + n, m))
MT(replace_fill, P K M, 0, vp_assume(p > n); s.replace(p, k, m, 'x'))
MT(replace_sub, P K M SZ(q, MX); SZ(k2, MX);, m, vp_assume(p <= n && q > m); string t(a + n, m); s.replace(p, k, t, q, k2))
MT(assign_sub, M SZ(q, MX); K, m, vp_assume(q > m); string t(a + n, m); s.assign(t, q, k))
MT(append_sub, M SZ(q, MX); K, m, vp_assume(q > m); string t(a + n, m); s.append(t, q, k))
MT(substr, P K, 0, vp_assume(p > n); string t(static_cast<const string&>(s).substr(p, k)))
MT(substr_move, P K, 0, vp_assume(p > n); string t(std::move(s).substr(p, k)))
MT(copy_out, P K, 0, vp_assume(p > n); char w[1]; s.copy(w, k, p))
MT(compare, P K M, m, vp_assume(p > n); vp_check(s.compare(p, k, a + n, m) == 0, "unreachable"))
MT(compare_sub, P K M SZ(q, MX); SZ(k2, MX);, m, vp_assume(q > m); string t(a + n, m); vp_check(s.compare(p, k, t, q, k2) == 0, "unreachable"))
MT(ctor_sub, P K, 0, vp_assume(p > n); string t(s, p, k))
// --- allocation failure: std::bad_alloc (or success); the string stays valid, copies are unaffected, nothing leaks
#define MO(name, decl, X, stmt)                                                                                      \
    CASE(so_##name) { decl SETUP(X) bool thrown = false; { string keep(s); vp_oom(true); try { stmt; } catch (const std::bad_alloc&) { thrown = true; } \
        vp_oom(false); inv(s, s.size()); if (thrown) { inv(s, s.size()); } IS2(keep, n) } vp_reach(thrown ? "failed" : "done"); } \
    CASE(soa_##name) { decl SETUP(X) bool thrown = false; { vp_oom(true); try { stmt; } catch (const std::bad_alloc&) { thrown = true; } \
        vp_oom(false); inv(s, s.size()); s.clear(); inv(s, 0); } vp_reach(thrown ? "failed" : "done"); }
#define IS2(t, m) inv(t, m); vp_same(t.c_str(), m, 0, 0, "the copy keeps its content");
MO(assign, M, m, s.assign(a + n, m))
MO(copy, , 0, string t(s); inv(t, n))
MO(copy_assign, M, m, string t(a + n, m); s = t)
MO(fill_ctor, M, 0, string t(m, 'x'); inv(t, m))
MO(ctor, M, m, string t(a + n, m); inv(t, m))
MO(char_assign, , 0, s = 'x')
MO(push_back, , 0, s.push_back('x'))
MO(append, M, m, s.append(a + n, m))
MO(append_self, , 0, s.append(s))
MO(append_fill, M, 0, s.append(m, 'x'))
MO(pop_back, , 0, vp_assume(n > 0); s.pop_back())
MO(resize, M, 0, s.resize(m, 'x'))
MO(clear, , 0, s.clear())
MO(reserve, M, 0, s.reserve(m))
MO(shrink_to_fit, , 0, s.shrink_to_fit())
MO(clone, , 0, string t(s.clone()); inv(t, n))
MO(substr, P K, 0, vp_assume(p <= n); string t(static_cast<const string&>(s).substr(p, k)); inv(t, t.size()))
MO(concat, M, m, string u(a + n, m); string t(static_cast<const string&>(s) + static_cast<const string&>(u)); inv(t, n + m))
MO(insert, P M, m, vp_assume(p <= n); s.insert(p, a + n, m))
MO(insert_fill, P M, 0, vp_assume(p <= n); s.insert(p, m, 'x'))
MO(erase, P K, 0, vp_assume(p <= n); s.erase(p, k))
MO(replace, P K M, m, vp_assume(p <= n); s.replace(p, k, a + n, m))
MO(replace_self, P K, 0, vp_assume(p <= n); s.replace(p, k, s))
MO(index_write, P, 0, vp_assume(p < n); s[p] = 'x')
// --- sizes that cannot be represented or allocated
#define MH(name, X, stmt) CASE(soh_##name) { std::size_t h = vp_size(0, ~static_cast<std::size_t>(0), "h"); SETUP(X) bool thrown = false; \
        { string keep(s); vp_oom(true); try { stmt; } catch (const std::bad_alloc&) { thrown = true; } catch (const std::length_error&) { thrown = true; } \
        vp_oom(false); inv(s, s.size()); vp_check(thrown || h <= (1ull << 62), "an impossible size is refused"); IS2(keep, n) } vp_reach(thrown ? "failed" : "done"); }
MH(reserve, 0, s.reserve(h))
MH(resize, 0, s.resize(h, 'x'))
MH(append_fill, 0, s.append(h, 'x'))
MH(insert_fill, 0, s.insert(static_cast<std::size_t>(0), h, 'x'))
MH(fill_ctor, 0, string t(h, 'x'); inv(t, h))
MH(assign_fill, 0, s.assign(h, 'x'))
MH(replace_fill, 0, s.replace(0, 1, h, 'x'))
// --- observers
MX_(index, P, 0, vp_assume(p < n); vp_check(cs[p] == a[p] && cs.at(p) == a[p] && *(cs.begin() + p) == a[p] && *(cs.cbegin() + p) == a[p], "element access"))
MX_(frontback, , 0, vp_assume(n > 0); vp_check(cs.front() == a[0] && cs.back() == a[n - 1] && *(cs.end() - 1) == a[n - 1], "front() and back()"))
MX_(reverse, , 0, vp_assume(n > 0); vp_check(*cs.rbegin() == a[n - 1] && *(cs.rend() - 1) == a[0] && *cs.crbegin() == a[n - 1], "reverse iterators"))
MX_(view, , 0, std::string_view v = cs; vp_check(v.data() == cs.data() && v.size() == n, "conversion to a view"))
MX_(compare, M, m, string t(a + n, m); vp_check(sgn(cs.compare(t)) == cmp3(a, n, a + n, m), "compare(str) orders by content, then length"))
MX_(compare_sub, M P K, m, vp_assume(p <= n); string t(a + n, m); std::size_t r = k < n - p ? k : n - p;
    vp_check(sgn(cs.compare(p, k, t)) == cmp3(a + p, r, a + n, m), "compare(pos, n, str)"))
MX_(compare_sub2, M P K SZ(q, MX); SZ(k2, MX);, m, vp_assume(p <= n && q <= m); string t(a + n, m); std::size_t r = k < n - p ? k : n - p; std::size_t u = k2 < m - q ? k2 : m - q;
    vp_check(sgn(cs.compare(p, k, t, q, k2)) == cmp3(a + p, r, a + n + q, u), "compare(pos, n, str, pos2, n2)"))
MX_(compare_ptr, M P K, m, vp_assume(p <= n); std::size_t r = k < n - p ? k : n - p;
    vp_check(sgn(cs.compare(p, k, a + n, m)) == cmp3(a + p, r, a + n, m), "compare(pos, n, s, n2)"))
MX_(equal, M, m, string t(a + n, m); bool e = n == m && std::memcmp(a, a + n, n) == 0; vp_check((cs == t) == e && (cs != t) == !e, "equality means equal length and equal text"))
MX_(equal_copy, , 0, string t(cs); vp_check(cs == t && !(cs != t) && !(cs < t) && !(cs > t) && cs <= t && cs >= t && cs.compare(t) == 0, "a string equals its copy"))
MX_(equal_std, M, m, string t(a + n, m); vp_check(cs.compare(0, n, a + n, m) == cs.compare(t), "comparison with a buffer agrees with comparison with a string"))
MX_(less, M, m, string t(a + n, m); int r = cmp3(a, n, a + n, m); vp_check((cs < t) == (r < 0) && (cs > t) == (r > 0) && (cs <= t) == (r <= 0) && (cs >= t) == (r >= 0), "ordering operators"))
MX_(spaceship, M, m, string t(a + n, m); int r = cmp3(a, n, a + n, m); auto o = cs <=> t; vp_check((o < 0) == (r < 0) && (o > 0) == (r > 0) && (o == 0) == (r == 0), "operator<=>"))
MX_(starts, M, m, string t(a + n, m); vp_check(cs.starts_with(t) == (m <= n && std::memcmp(a, a + n, m) == 0), "starts_with"))
MX_(ends, M, m, string t(a + n, m); vp_check(cs.ends_with(t) == (m <= n && std::memcmp(a + (n - m), a + n, m) == 0), "ends_with"))
MX_(find, M P, m, std::size_t r = cs.find(a + n, p, m); vp_check(r == string::npos || (r >= p && r <= n && m <= n - r), "find() reports a position inside the text"))
MX_(find_str, M P, m, string t(a + n, m); std::size_t r = cs.find(t, p); vp_check(r == string::npos || (r >= p && r <= n && m <= n - r), "find() reports a position inside the text"))
MX_(find_char, P, 1, std::size_t r = cs.find(a[n], p); vp_check(r == string::npos || (r >= p && r < n && cs[r] == a[n]), "find() reports a position inside the text"))
MX_(rfind, M P, m, std::size_t r = cs.rfind(a + n, p, m); vp_check(r == string::npos || (r <= p && r <= n && m <= n - r && std::memcmp(a + r, a + n, m) == 0), "rfind() reports a match at or before the position"))
MX_(rfind_char, P, 1, std::size_t r = cs.rfind(a[n], p); vp_check(r == string::npos || (r <= p && r < n && cs[r] == a[n]), "rfind() reports a match"))
MX_(find_first_of, M P, m, std::size_t r = cs.find_first_of(a + n, p, m); vp_check(r == string::npos || (r >= p && r < n && std::memchr(a + n, a[r], m) != nullptr), "find_first_of() reports a member"))
MX_(find_last_of, M P, m, std::size_t r = cs.find_last_of(a + n, p, m); vp_check(r == string::npos || (r <= p && r < n && std::memchr(a + n, a[r], m) != nullptr), "find_last_of() reports a member"))
MX_(find_first_not_of, M P, m, std::size_t r = cs.find_first_not_of(a + n, p, m); vp_check(r == string::npos || (r >= p && r < n && std::memchr(a + n, a[r], m) == nullptr), "find_first_not_of() reports a non-member"))
MX_(find_last_not_of, M P, m, std::size_t r = cs.find_last_not_of(a + n, p, m); vp_check(r == string::npos || (r <= p && r < n && std::memchr(a + n, a[r], m) == nullptr), "find_last_not_of() reports a non-member"))
MX_(hash, , 0, string t(a, n); vp_check(std::hash<string>()(cs) == std::hash<string>()(t), "the hash depends on the text only"))
MX_(ctors, M, m, string t(std::string_view(a + n, m)); inv(t, m); vp_same(t.c_str(), m, 0, n, "construction from a view"); string u(a + n, a + n + m); inv(u, m); vp_check(t == u, "construction from a range");
    string v(cs, 0, m); inv(v, n < m ? n : m))
