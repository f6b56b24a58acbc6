#pragma once
// String harness (see vec.cpp for the conventions).  s_*: the string is alone; sc_*: a copy of it (sharing the buffer
// when large) is alive during the operation and must not notice anything; sa_*: the argument refers to the string
// itself; st_*: positions out of range; so_*: allocations may fail; sx_*: observers.
#include "vp.hpp"
#include <stdexcept>
#include <string_view>
#include <utility>
#include "string/string.hpp"
#ifdef VP_ARENA
#include "astr.hpp"
#else
using stdb::memory::string;
static void world() {}
static bool home(const string&) { return true; }
#endif
static constexpr std::size_t MX = 1ull << 30;
// arena strings keep short texts inside the object: the two kinds are analysed apart
#ifndef VP_CMIN
#define VP_CMIN 0
#define VP_CMAX MX
#endif
#ifndef VP_NMIN
#define VP_NMIN 0
#endif
#ifdef VP_CONC
// every size from VP_BASE (capacity, size) or zero (operands) up to three more is tried, and all loops run to their end
static std::size_t pick(std::size_t lo, std::size_t hi) { vp_unroll(300); std::size_t x = lo; while (x < hi && x < lo + VP_CONC && vp_bool()) ++x; return x; }
#define VP_C(what) pick(VP_BASE, MX)
#define VP_N(c) pick(VP_BASE, c)
#define SZ(x, hi) std::size_t x = pick(0, hi)
#else
#define VP_C(what) vp_size(VP_CMIN, VP_CMAX, what)
#define VP_N(c) vp_size(VP_NMIN, c, "n")
#define SZ(x, hi) std::size_t x = vp_size(0, hi, #x)
#endif

// an arbitrary string: every combination of representation, capacity and size
static void mk(string& s, const char* a, std::size_t n, std::size_t c) {
    if (c > 0) s.reserve(c);
    if (n > 0) s.append(a, n);
}
// the string holds a[0, n); a[n, n + extra) are further input bytes
#define SETUP(extra)                            \
    std::size_t c = VP_C("cap"); \
    std::size_t n = VP_N(c); \
    const char* a = vp_bytes(n + (extra), "in"); \
    vp_snap(0, a, n + (extra));                 \
    world();                                    \
    string s;                                   \
    mk(s, a, n, c);
static void inv(const string& s, std::size_t n) {
    vp_check(home(s), "the string belongs to its own arena");
    vp_check(s.size() == n && s.length() == n, "size() after the operation");
    vp_check(s.capacity() >= n, "capacity() is at least size()");
    vp_check(s.empty() == (n == 0), "empty() agrees with size()");
    vp_check(static_cast<std::size_t>(s.end() - s.begin()) == n, "begin()..end() spans size() characters");
    vp_check(s.data() == s.c_str(), "data() and c_str() agree");
    vp_check(s.c_str()[n] == '\0', "the text is terminated by a null character");
}
#define IS(m, from, what) inv(s, m); vp_same(s.c_str(), m, 0, from, what);
// three pieces: [0,x) from p0, [x,y) from p1, [y,z) from p2
#define IS3(z, x, p0, y, p1, p2, what) inv(s, z); vp_same(s.c_str(), x, 0, p0, what); \
    vp_same(s.c_str() + (x), (y) - (x), 0, p1, what); vp_same(s.c_str() + (y), (z) - (y), 0, p2, what);
#define ISF(z, x, y, ch, p2, what) inv(s, z); vp_same(s.c_str(), x, 0, 0, what); \
    vp_same_fill(s.c_str() + (x), (y) - (x), ch, what); vp_same(s.c_str() + (y), (z) - (y), 0, p2, what);
// MOD(name, declarations, extra input bytes, statement, checks): one modifier, alone and with a live copy
#define MOD(name, decl, X, stmt, checks)                                                                            \
    CASE(s_##name) { decl SETUP(X) stmt; checks vp_reach("end"); }                                                  \
    CASE(sc_##name) { decl SETUP(X) { string keep(s); stmt; inv(keep, n);                                           \
        vp_same(keep.c_str(), n, 0, 0, "the copy keeps its content"); checks } vp_reach("end"); }
#define M SZ(m, MX);
// arguments that refer to the string itself
#define MA(name, decl, stmt, checks)                                                                                 \
    CASE(sa_##name) { decl SZ(q, MX); SZ(m, MX); SETUP(0) vp_assume(q <= n && m <= n - q); stmt; checks vp_reach("end"); } \
    CASE(sac_##name) { decl SZ(q, MX); SZ(m, MX); SETUP(0) vp_assume(q <= n && m <= n - q); { string keep(s); stmt; inv(keep, n); \
        vp_same(keep.c_str(), n, 0, 0, "the copy keeps its content"); checks } vp_reach("end"); }
#define OWN (static_cast<const string&>(s).data() + q)
#define P SZ(p, MX);
#define K SZ(k, MX);
// observers
#include <cstring>
#include <functional>
#define MX_(name, decl, X, stmt) CASE(sx_##name) { decl SETUP(X) { string keep(s); const string& cs = s; stmt; IS(n, 0, "observers leave the text alone") inv(keep, n); } vp_reach("end"); } \
    CASE(sxa_##name) { decl SETUP(X) { const string& cs = s; stmt; IS(n, 0, "observers leave the text alone") } vp_reach("end"); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int cmp3(const char* x, std::size_t n, const char* y, std::size_t m) {
    int r = std::memcmp(x, y, n < m ? n : m);
    return r != 0 ? sgn(r) : n < m ? -1 : n > m ? 1 : 0;
}
