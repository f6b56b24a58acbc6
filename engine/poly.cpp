// Exact integer-tightened Fourier-Motzkin elimination: the decision procedure of the polyhedral domain.
// Returns 0 = empty, 1 = rationally non-empty (no integer point found), 2 = integer point found, 3 = gave up.
#include <cstdint>
#include <cstring>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <string>
typedef __int128 i128;
static bool g_over;
static const i128 LIM = ((i128)1) << 120;
static inline i128 mulc(i128 a, i128 b) { i128 r; if (__builtin_mul_overflow(a, b, &r) || r > LIM || r < -LIM) { g_over = true; return 0; } return r; }
static inline i128 addc(i128 a, i128 b) { i128 r; if (__builtin_add_overflow(a, b, &r) || r > LIM || r < -LIM) { g_over = true; return 0; } return r; }
static i128 gcd(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) --q; return q; }
static i128 cdiv(i128 a, i128 b) { return -fdiv(-a, b); }
struct Row { std::vector<i128> a; i128 c; };  // a.x + c >= 0
struct Set {
  int n; std::vector<Row> rows; std::unordered_map<std::string, int> idx; bool empty = false;
  void add(Row r) {
    if (empty) return;
    i128 g = 0; for (auto x : r.a) if (x) g = gcd(g, x);
    if (g == 0) { if (r.c < 0) empty = true; return; }
    if (g > 1) { for (auto& x : r.a) x /= g; r.c = fdiv(r.c, g); }
    std::string k((const char*)r.a.data(), r.a.size() * sizeof(i128));
    auto it = idx.find(k);
    if (it != idx.end()) { if (r.c < rows[it->second].c) rows[it->second].c = r.c; }
    else { idx.emplace(std::move(k), (int)rows.size()); rows.push_back(std::move(r)); }
    // opposite row: detect direct contradiction
    // a.x + c >= 0 and -a.x + d >= 0  ->  c + d >= 0
  }
  bool contradict() {
    if (empty) return true;
    std::vector<i128> neg;
    for (auto& r : rows) {
      neg.assign(r.a.begin(), r.a.end()); for (auto& x : neg) x = -x;
      std::string k((const char*)neg.data(), neg.size() * sizeof(i128));
      auto it = idx.find(k); if (it != idx.end() && r.c + rows[it->second].c < 0) return true;
    }
    return false;
  }
};
struct Elim { int v; std::vector<Row> rows; bool eq; Row e; };
extern "C" int poly_check(int n, int m, const int32_t* ptr, const int32_t* col, const int64_t* cf, const int64_t* cs, int want, int64_t* model, int maxrows) {
  g_over = false;
  Set S; S.n = n;
  for (int i = 0; i < m; ++i) {
    Row r; r.a.assign(n, 0);
    for (int j = ptr[i]; j < ptr[i + 1]; ++j) r.a[col[j]] += (((i128)cf[2 * j + 1]) << 64) | (unsigned __int128)(uint64_t)cf[2 * j];
    r.c = (((i128)cs[2 * i + 1]) << 64) | (unsigned __int128)(uint64_t)cs[2 * i];
    S.add(std::move(r)); if (S.empty) return 0;
  }
  std::vector<Elim> order; std::vector<char> done(n, 0); bool gave = false;
  for (;;) {
    if (S.contradict()) return 0;
    // equalities with a unit coefficient
    bool sub = false;
    {
      std::vector<i128> neg;
      for (size_t i = 0; i < S.rows.size() && !sub; ++i) {
        auto& r = S.rows[i];
        neg.assign(r.a.begin(), r.a.end()); for (auto& x : neg) x = -x;
        std::string k((const char*)neg.data(), neg.size() * sizeof(i128));
        auto it = S.idx.find(k); if (it == S.idx.end() || S.rows[it->second].c != -r.c) continue;
        int v = -1; for (int j = 0; j < n; ++j) if (r.a[j] == 1 || r.a[j] == -1) { v = j; break; }
        if (v < 0) { continue; }
        Row e = r; if (e.a[v] == 1) { for (auto& x : e.a) x = -x; e.c = -e.c; }  // -v + rest = 0 -> v = rest
        e.a[v] = 0;
        Set T; T.n = n;
        for (auto& q : S.rows) { Row w = q; i128 f = w.a[v]; if (f) { w.a[v] = 0; for (int j = 0; j < n; ++j) if (e.a[j]) w.a[j] = addc(w.a[j], mulc(f, e.a[j])); w.c = addc(w.c, mulc(f, e.c)); if (g_over) { g_over = false; gave = true; continue; } } T.add(std::move(w)); if (T.empty) return 0; }
        Elim el; el.v = v; el.eq = true; el.e = e; order.push_back(std::move(el)); done[v] = 1; S = std::move(T); sub = true;
      }
    }
    if (sub) continue;
    // choose a variable
    int best = -1; long bc = 0; bool bestunit = false;
    for (int v = 0; v < n; ++v) {
      if (done[v]) continue; long p = 0, q = 0; bool unit = true;
      for (auto& r : S.rows) { if (r.a[v] > 0) { ++p; if (r.a[v] != 1) unit = false; } else if (r.a[v] < 0) { ++q; if (r.a[v] != -1) unit = false; } }
      if (!p && !q) { continue; }
      long c = p * q - p - q; if (unit) c -= 1;
      if (best < 0 || c < bc) { best = v; bc = c; bestunit = unit; }
    }
    (void)bestunit;
    if (best < 0) break;
    Elim el; el.v = best; el.eq = false; Set T; T.n = n; std::vector<Row> P, N;
    for (auto& r : S.rows) { if (r.a[best] > 0) P.push_back(r); else if (r.a[best] < 0) N.push_back(r); else { T.add(r); if (T.empty) return 0; } }
    if ((long)P.size() * (long)N.size() + (long)T.rows.size() > maxrows) return 3;
    for (auto& p : P) for (auto& q : N) {
      i128 a = p.a[best], b = -q.a[best], g = gcd(a, b); i128 fp = b / g, fq = a / g; Row w; w.a.resize(n);
      for (int j = 0; j < n; ++j) w.a[j] = addc(mulc(p.a[j], fp), mulc(q.a[j], fq)); w.c = addc(mulc(p.c, fp), mulc(q.c, fq));
      if (g_over) { g_over = false; gave = true; continue; }
      T.add(std::move(w)); if (T.empty) return 0;
    }
    el.rows = P; el.rows.insert(el.rows.end(), N.begin(), N.end()); order.push_back(std::move(el)); done[best] = 1; S = std::move(T);
  }
  if (!want) return gave ? 3 : 1;
  std::vector<i128> x(n, 0); uint64_t rng = 88172645463325252ULL;
  for (int attempt = 0; attempt < 60; ++attempt) {
    bool ok = true; for (auto& v : x) v = 0;
    for (int i = (int)order.size() - 1; i >= 0 && ok; --i) {
      auto& el = order[i]; auto ev = [&](const Row& r) { i128 s = r.c; for (int j = 0; j < n; ++j) if (r.a[j] && j != el.v) s = addc(s, mulc(r.a[j], x[j])); return s; };
      if (el.eq) { x[el.v] = ev(el.e); }
      else { i128 lo = -LIM, hi = LIM; for (auto& r : el.rows) { i128 s = ev(r), a = r.a[el.v]; if (a > 0) { i128 b = cdiv(-s, a); if (b > lo) lo = b; } else { i128 b = fdiv(s, -a); if (b < hi) hi = b; } }
        if (lo > hi) { ok = false; break; }
        i128 pick; if (attempt == 0) pick = (lo <= 0 && hi >= 0) ? 0 : (lo > 0 ? lo : hi);
        else if (attempt == 1) pick = lo > -LIM ? lo : (hi < LIM ? hi : 0);
        else if (attempt == 2) pick = hi < LIM ? hi : (lo > -LIM ? lo : 0);
        else { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; i128 base = lo > -LIM ? lo : (hi < LIM ? hi - 100 : -50); i128 top = hi < LIM ? hi : base + 200; i128 span = top - base + 1; if (span > 64 && (rng & 3)) span = 64; pick = base + (i128)(rng >> 8) % (span > 0 ? span : 1); if (pick < lo) pick = lo; if (pick > hi) pick = hi; }
        x[el.v] = pick; }
      if (g_over) { g_over = false; ok = false; }
    }
    if (!ok) continue;
    bool sat = true;
    for (int i = 0; i < m && sat; ++i) { i128 s = (((i128)cs[2 * i + 1]) << 64) | (unsigned __int128)(uint64_t)cs[2 * i];
      for (int j = ptr[i]; j < ptr[i + 1]; ++j) { i128 f = (((i128)cf[2 * j + 1]) << 64) | (unsigned __int128)(uint64_t)cf[2 * j]; s = addc(s, mulc(f, x[col[j]])); }
      if (g_over) { g_over = false; sat = false; } if (s < 0) sat = false; }
    if (sat) { for (int j = 0; j < n; ++j) { model[2 * j] = (int64_t)(uint64_t)x[j]; model[2 * j + 1] = (int64_t)(x[j] >> 64); } return 2; }
  }
  return 1;
}
