// Metrics harness: counters start with arbitrary values, every probe is called once with arbitrary arguments.
#include "vp.hpp"
#include <cstring>
#include <unordered_map>
#include "arena/metrics.cc"
using namespace stdb::memory;
using u64 = std::uint64_t;
static constexpr std::size_t MX = 1ull << 40;
extern "C" { bool vp_locked(); std::uint64_t vp_lastnow(); void vp_shared(const void*, std::size_t); }
static constexpr boost::source_location L1("f.cc", 7, "f"), L2("g.cc", 12, "g");
static LocalArenaMetrics& L() { return local_arena_metrics; }
static GlobalArenaMetrics& G() { return global_arena_metrics; }
static constexpr int NF = 9, NB = 8;
static u64 LocalArenaMetrics::* const LF[NF] = {&LocalArenaMetrics::init_count, &LocalArenaMetrics::destruct_count, &LocalArenaMetrics::alloc_count, &LocalArenaMetrics::newblock_count, &LocalArenaMetrics::reset_count,
    &LocalArenaMetrics::space_allocated, &LocalArenaMetrics::space_resettled, &LocalArenaMetrics::space_used, &LocalArenaMetrics::space_wasted};
static std::atomic<u64> GlobalArenaMetrics::* const GF[NF] = {&GlobalArenaMetrics::init_count, &GlobalArenaMetrics::destruct_count, &GlobalArenaMetrics::alloc_count, &GlobalArenaMetrics::newblock_count, &GlobalArenaMetrics::reset_count,
    &GlobalArenaMetrics::space_allocated, &GlobalArenaMetrics::space_resettled, &GlobalArenaMetrics::space_used, &GlobalArenaMetrics::space_wasted};
enum { INIT, END, ALLOC, BLOCK, RESET, SALLOC, SRESET, SUSED, SWASTE };
// what the counters should be
struct Want { u64 f[NF]; u64 size[NB], life[NB]; u64 at1, at2; };
static u64 any() { return vp_size(0, MX, "count"); }
static Want l_any() {
    Want w;
    for (int i = 0; i < NF; ++i) L().*LF[i] = w.f[i] = any();
    for (int i = 0; i < NB; ++i) { L().alloc_size_bucket_counter[i] = w.size[i] = any(); L().destruct_lifetime_bucket_counter[i] = w.life[i] = any(); }
    w.at1 = w.at2 = 0;
    return w;
}
static Want g_any() {
    Want w;
    for (int i = 0; i < NF; ++i) (G().*GF[i]).store(w.f[i] = any());
    for (int i = 0; i < NB; ++i) { G().alloc_size_bucket_counter[i].store(w.size[i] = any()); G().destruct_lifetime_bucket_counter[i].store(w.life[i] = any()); }
    w.at1 = w.at2 = 0;
    return w;
}
static void l_is(const Want& w, const char* msg) {
    for (int i = 0; i < NF; ++i) vp_check(L().*LF[i] == w.f[i], msg);
    for (int i = 0; i < NB; ++i) { vp_check(L().alloc_size_bucket_counter[i] == w.size[i], msg); vp_check(L().destruct_lifetime_bucket_counter[i] == w.life[i], msg); }
    auto& m = L().arena_alloc_counter; u64 s = (w.at1 != 0) + (w.at2 != 0);
    vp_check(m.size() <= 2, "one entry per place an arena is created");
    for (auto& [k, v] : m) vp_check(v == (k == "f.cc:7" ? w.at1 : k == "g.cc:12" ? w.at2 : ~u64(0)), "bytes are counted for the place where the arena was created");
    u64 t = 0; for (auto& [k, v] : m) t += v;
    vp_check(t == w.at1 + w.at2, "bytes are counted for the place where the arena was created");
}
static void g_is(const Want& w, const char* msg) {
    for (int i = 0; i < NF; ++i) vp_check((G().*GF[i]).load() == w.f[i], msg);
    for (int i = 0; i < NB; ++i) { vp_check(G().alloc_size_bucket_counter[i].load() == w.size[i], msg); vp_check(G().destruct_lifetime_bucket_counter[i].load() == w.life[i], msg); }
    auto& m = G().arena_alloc_counter; u64 t = 0;
    for (auto& [k, v] : m) { vp_check(v.load() == (k == "f.cc:7" ? w.at1 : k == "g.cc:12" ? w.at2 : ~u64(0)), "bytes are handed over for the place where the arena was created"); t += v.load(); }
    vp_check(t == w.at1 + w.at2, "bytes are handed over for the place where the arena was created");
}
static constexpr u64 SB[NB] = {64, 128, 256, 512, 1024, 2048, 4096, 1ull << 20};
static constexpr long long LB[NB] = {1, 5, 10, 50, 100, 200, 500, 1000};
static u64 lost;        // allocations larger than the largest class
static void add_size(Want& w, u64 n) { for (int i = 0; i < NB; ++i) if (n <= SB[i]) { ++w.size[i]; return; } ++lost; }
static void start() {
    new (&L()) LocalArenaMetrics(); new (&G()) GlobalArenaMetrics(); lost = 0;
}
static void stop() { vp_map_hook = nullptr; L().~LocalArenaMetrics(); G().~GlobalArenaMetrics(); vp_reach("end"); }
CASE(m_init) { start(); Want w = l_any(); void* c = metrics_probe_on_arena_init(nullptr, L1); ++w.f[INIT]; l_is(w, "creating an arena counts once");
    vp_check(static_cast<ArenaMetricsCookie*>(c)->init_location.line() == 7, "the cookie keeps the place"); void* r = metrics_probe_on_arena_destruction(nullptr, c, 0, 0); vp_check(r == nullptr, "no cookie is left"); stop(); }
CASE(m_alloc) { start(); Want w = l_any(); ArenaMetricsCookie c(std::chrono::steady_clock::now(), L1); u64 n = vp_size(0, MX, "size"); metrics_probe_on_arena_allocation(nullptr, n, &c);
    ++w.f[ALLOC]; w.f[SALLOC] += n; add_size(w, n); w.at1 = n; l_is(w, "an allocation counts once, with its size and size class"); stop(); }
CASE(m_alloc2) { start(); Want w = l_any(); ArenaMetricsCookie c(std::chrono::steady_clock::now(), L1), d(std::chrono::steady_clock::now(), L2); u64 n = vp_size(1, 64, "size"), k = vp_size(65, 128, "size"), j = vp_size(4097, 1 << 20, "size");
    metrics_probe_on_arena_allocation(nullptr, n, &c); metrics_probe_on_arena_allocation(nullptr, k, &d); metrics_probe_on_arena_allocation(nullptr, j, &c);
    w.f[ALLOC] += 3; w.f[SALLOC] += n + k + j; ++w.size[0]; ++w.size[1]; ++w.size[7]; w.at1 = n + j; w.at2 = k; l_is(w, "every allocation counts once, with its size and size class"); stop(); }
CASE(m_block) { start(); Want w = l_any(); metrics_probe_on_arena_newblock(vp_size(0, MX, "num"), vp_size(0, MX, "size"), nullptr); ++w.f[BLOCK]; l_is(w, "a new block counts once"); stop(); }
CASE(m_reset) { start(); Want w = l_any(); u64 a = any(), b = any(); metrics_probe_on_arena_reset(nullptr, nullptr, a, b); ++w.f[RESET]; w.f[SRESET] += a; w.f[SWASTE] += b; l_is(w, "a reset counts once, with the space used and wasted"); stop(); }
CASE(m_end) { start(); Want w = l_any(); u64 a = any(), b = any(); auto t0 = std::chrono::steady_clock::now(); auto* c = new ArenaMetricsCookie(t0, L1);
    void* r = metrics_probe_on_arena_destruction(nullptr, c, a, b); ++w.f[END]; w.f[SUSED] += a; w.f[SWASTE] += b; vp_check(r == nullptr, "no cookie is left");
    u64 ms = (vp_lastnow() - static_cast<u64>(t0.time_since_epoch().count())) / 1000000; for (int i = 0; i < NB; ++i) if (ms <= static_cast<u64>(LB[i])) { ++w.life[i]; break; }
    l_is(w, "a destruction counts once, with the space used and wasted"); stop(); }
CASE(m_life) { start(); Want w = l_any(); long long ms = static_cast<long long>(vp_size(0, 1 << 20, "ms")); L().increase_destruct_lifetime_counter(std::chrono::milliseconds(ms));
    for (int i = 0; i < NB; ++i) if (ms <= LB[i]) { ++w.life[i]; break; } l_is(w, "a life time counts in its class"); stop(); }
CASE(m_reset_local) { start(); Want w = l_any(); L().increase_arena_alloc_counter(L1, 5); L().reset(); w = Want{}; l_is(w, "reset() clears every counter"); vp_check(L().arena_alloc_counter.empty(), "reset() forgets the places"); stop(); }
CASE(m_reset_global) { start(); Want w = g_any(); G().arena_alloc_counter["f.cc:7"] = any(); G().reset(); w = Want{}; g_is(w, "reset() clears every counter"); stop(); }
static void held(const void* m) { if (m == &G().arena_alloc_counter) vp_check(vp_locked(), "the table shared by all threads is used under its lock only"); }
CASE(m_report) { start(); Want g = g_any(), w = l_any(); u64 a = vp_size(1, MX, "bytes"), b = vp_size(1, MX, "bytes"), c = vp_size(1, MX, "bytes"); G().arena_alloc_counter["f.cc:7"] = c;
    L().increase_arena_alloc_counter(L1, a); L().increase_arena_alloc_counter(L2, b); vp_map_hook = held; L().report_to_global_metrics(); vp_map_hook = nullptr; vp_check(!vp_locked(), "no lock is left behind");
    for (int i = 0; i < NF; ++i) g.f[i] += w.f[i]; for (int i = 0; i < NB; ++i) { g.size[i] += w.size[i]; g.life[i] += w.life[i]; } g.at1 = a + c; g.at2 = b; g_is(g, "reporting adds every counter to the global one");
    w = Want{}; l_is(w, "what has been reported is not reported again"); vp_check(L().arena_alloc_counter.empty(), "what has been reported is not reported again"); stop(); }
CASE(m_report2) { start(); Want g = g_any(); vp_shared(&G(), offsetof(GlobalArenaMetrics, arena_alloc_counter)); L().increase_arena_alloc_counter(L1, 3); Want w = l_any(); L().report_to_global_metrics(); metrics_probe_on_arena_newblock(0, 0, nullptr); L().report_to_global_metrics(); L().report_to_global_metrics(); vp_shared(&G(), 0);
    for (int i = 0; i < NF; ++i) g.f[i] += w.f[i]; for (int i = 0; i < NB; ++i) { g.size[i] += w.size[i]; g.life[i] += w.life[i]; } g.at1 = 3; ++g.f[BLOCK]; g_is(g, "every event is reported once"); stop(); }
CASE(m_shared) { start(); g_any(); G().arena_alloc_counter["f.cc:7"] = any(); vp_map_hook = held; (void)G().string(); vp_check(!vp_locked(), "no lock is left behind"); G().reset(); vp_check(!vp_locked(), "no lock is left behind");
    L().increase_arena_alloc_counter(L1, 5); L().report_to_global_metrics(); vp_check(!vp_locked(), "no lock is left behind"); stop(); }
CASE(m_string) { start(); Want g = g_any(); (void)G().string(); g_is(g, "printing changes nothing"); stop(); }
CASE(m_string0) { start(); (void)G().string(); G().init_count = any(); G().alloc_count = any(); (void)G().string(); stop(); }
// what is printed: the numbers, in the order of the text
static u64 printed[64]; static unsigned nprinted;
static void note(u64 v) { if (nprinted < 64) printed[nprinted] = v; ++nprinted; }
CASE(m_print) { start(); Want g = g_any(); G().alloc_count = g.f[ALLOC] = 100; G().destruct_count = g.f[END] = 100; nprinted = 0; vp_fmt_hook = note; (void)G().string(); vp_fmt_hook = nullptr;
    static constexpr int order[NF] = {INIT, RESET, END, ALLOC, BLOCK, SALLOC, SUSED, SWASTE, SRESET};
    vp_check(nprinted == 9 + 2 * NB + 2 * NB, "every counter and every class is printed");
    for (int i = 0; i < NF; ++i) vp_check(printed[i] == g.f[order[i]], "the counters are printed in their places");
    u64 c = 0, d = 0;
    for (int i = 0; i < NB; ++i) { c += g.size[i]; d += g.life[i];
        vp_check(printed[9 + 2 * i] == SB[i], "classes are printed by their limit"); vp_check(printed[10 + 2 * i] == c, "a size class is printed with the share of the allocations up to its limit");
        vp_check(printed[9 + 2 * NB + 2 * i] == static_cast<u64>(LB[i]), "classes are printed by their limit"); vp_check(printed[10 + 2 * NB + 2 * i] == d, "a life time class is printed with the share of the arenas up to its limit"); }
    stop(); }
