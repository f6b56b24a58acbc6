// Arena harness: an arena with symbolic block sizes runs a history of allocations of symbolic sizes; what was given out is
// filled and compared afterwards.  Interpreted by engine/interp.py, never executed.
#include "vp.hpp"
#include <cstdlib>
#include <cstring>
#include "arena/arena.cc"
extern "C" {
std::size_t vp_off(const void*);      // byte offset of a pointer inside its memory block
std::size_t vp_rsize(const void*);    // size of the memory block a pointer points into
long vp_rid(const void*);             // identity of that memory block
}
using stdb::memory::Arena;
static constexpr std::size_t MX = 1ull << 30;
using u64 = std::uint64_t;
// --- what the surroundings of the arena see
struct World {
    void* mem[8]; u64 size[8]; bool freed[8]; unsigned n; unsigned nfreed;
    unsigned inits, allocs, blocks, resets, ends, logs; u64 asked, used, wasted; const std::type_info* type; void* cookie; Arena* who;
    unsigned bad;      // calls with unexpected arguments
};
static World W;
static int theCookie;
static void* b_alloc(std::size_t n) {
    void* p = std::malloc(n);
    if (p != nullptr) { W.mem[W.n] = p; W.size[W.n] = n; W.freed[W.n] = false; ++W.n; }
    return p;
}
static void b_free(void* p) {
    for (unsigned i = 0; i < W.n; ++i)
        if (W.mem[i] == p) { if (W.freed[i]) ++W.bad; W.freed[i] = true; }
    ++W.nfreed;
    std::free(p);
}
static void h_log(const std::string&) { ++W.logs; }
static void* h_init(Arena* a, const boost::source_location&) { ++W.inits; W.who = a; return &theCookie; }
static void h_reset(Arena* a, void* c, u64 used, u64 wasted) { ++W.resets; W.who = a; W.used = used; W.wasted = wasted; if (c != &theCookie) ++W.bad; }
static void h_alloc(const std::type_info* t, u64 n, void* c) { ++W.allocs; W.type = t; W.asked = n; if (c != &theCookie) ++W.bad; }
static void h_block(u64 num, u64 n, void* c) { if (num != W.n - 1 - W.nfreed || n != W.size[W.n - 1]) ++W.bad; ++W.blocks; if (c != &theCookie) ++W.bad; }
static void* h_end(Arena* a, void* c, u64 used, u64 wasted) { ++W.ends; W.who = a; W.used = used; W.wasted = wasted; if (c != &theCookie) ++W.bad; return nullptr; }
// block sizes: page-like multiples, the first block of any size (in units of 64 bytes)
template <bool HOOKS> static Arena::Options opts() {
    Arena::Options o = Arena::Options::GetDefaultOptions();
    o.block_alloc = &b_alloc; o.block_dealloc = &b_free; o.logger_func = &h_log;
    o.suggested_init_block_size = 64 * vp_size(1, 1 << 20, "init/64");
    if (HOOKS) { o.on_arena_init = &h_init; o.on_arena_reset = &h_reset; o.on_arena_allocation = &h_alloc; o.on_arena_newblock = &h_block; o.on_arena_destruction = &h_end; }
    return o;
}
static u64 live_bytes() { u64 t = 0; for (unsigned i = 0; i < W.n; ++i) if (!W.freed[i]) t += W.size[i]; return t; }
static bool all_freed() { for (unsigned i = 0; i < W.n; ++i) if (!W.freed[i]) return false; return W.nfreed == W.n; }
// the piece [p, p + n) lies in a living block, behind its header, and is aligned
static void piece(const char* p, u64 n, u64 al) {
    vp_check(p != nullptr, "an allocation succeeds while blocks can be had");
    bool in = false;
    for (unsigned i = 0; i < W.n; ++i) in = in || (!W.freed[i] && vp_rid(W.mem[i]) == vp_rid(p));
    vp_check(in, "an allocation lies in a block of the arena");
    vp_check(vp_off(p) >= sizeof(Arena::Block) && vp_off(p) + n <= vp_rsize(p), "an allocation lies inside its block, behind the header");
    vp_check(reinterpret_cast<std::uintptr_t>(p) % al == 0, "an allocation has the requested alignment");
}
struct Tr { int runs; };
static void cl(void* e) { ++static_cast<Tr*>(e)->runs; }
struct Mark { char* p; u64 n; char c; int runs; };
static Mark marks[4];
// cleanup of a piece of arena memory: its content is still there
template <int I> static void cl_piece(void* e) {
    ++marks[I].runs;
    vp_check(e == marks[I].p, "a cleanup gets the registered address");
    vp_same_fill(marks[I].p, marks[I].n, marks[I].c, "memory is intact when its cleanup runs");
}
struct Plain { u64 a; int b; };
struct Tagged { ArenaManagedCreateOnlyTag; u64 v[3]; };
// --- operations of a history.  Each returns the piece and its size.
struct R { char* p; u64 n; };
#define OPS(X) X(A8) X(A16) X(A32) X(AC) X(AR) X(PM) X(PL)
struct A8 { static R run(Arena& a, Tr&) { u64 n = vp_size(0, MX, "n"); char* p = a.AllocateAligned(n); piece(p, n, 8); return {p, n}; } };
struct A16 { static R run(Arena& a, Tr&) { u64 n = vp_size(0, MX, "n"); char* p = a.AllocateAligned(n, 16); piece(p, n, 16); return {p, n}; } };
struct A32 { static R run(Arena& a, Tr&) { u64 n = vp_size(0, MX, "n"); char* p = a.AllocateAligned(n, 32); piece(p, n, 32); return {p, n}; } };
struct AC { static constexpr bool cleans = true; static R run(Arena& a, Tr& t) { u64 n = vp_size(0, MX, "n"); char* p = a.AllocateAlignedAndAddCleanup(n, &cl, &t); piece(p, n, 8); return {p, n}; } };
struct AR { static R run(Arena& a, Tr&) { u64 n = vp_size(0, MX, "n"); char* p = reinterpret_cast<char*>(a.CreateArray<u64>(n)); piece(p, n * 8, 8); vp_same_fill(p, n * 8, 0, "array elements are initialised"); return {p, n * 8}; } };
struct PM { static R run(Arena& a, Tr&) { u64 n = vp_size(1, MX, "n"); char* p = static_cast<char*>(a.get_memory_resource()->allocate(n, 16)); piece(p, n, 16); return {p, n}; } };
struct PL { static R run(Arena& a, Tr&) { Plain* p = a.Create<Plain>(); piece(reinterpret_cast<char*>(p), sizeof(Plain), alignof(Plain)); return {reinterpret_cast<char*>(p), sizeof(Plain)}; } };
template <class T> constexpr int cleans() { if constexpr (requires { T::cleans; }) return 1; else return 0; }
#define FILL(r, c) std::memset((r).p, c, (r).n)
#define KEPT(r, c) vp_same_fill((r).p, (r).n, c, "an allocation keeps its content while others are made")
// two and three allocations, then the end of the arena
template <class X, class Y> static void two() {
    Tr t1{0}, t2{0};
    {
        Arena a(opts<false>());
        R x = X::run(a, t1); FILL(x, 'x');
        R y = Y::run(a, t2); FILL(y, 'y');
        KEPT(x, 'x'); KEPT(y, 'y');
        vp_check(a.SpaceAllocated() == live_bytes(), "SpaceAllocated() is the size of the blocks held");
        vp_check(t1.runs == 0 && t2.runs == 0, "no cleanup runs before the end");
    }
    vp_check(all_freed(), "every block is given back once, through block_dealloc");
    vp_check(t1.runs == cleans<X>() && t2.runs == cleans<Y>(), "every cleanup runs exactly once");
    vp_reach("end");
}
#define TWO(X, Y) CASE(a_two_##X##_##Y) { two<X, Y>(); }
#define TWOX(X) TWO(X, A8) TWO(X, A16) TWO(X, A32) TWO(X, AC) TWO(X, AR) TWO(X, PM) TWO(X, PL)
OPS(TWOX)
// three allocations; the hooks are told about each event once
template <class X, class Y, class Z> static void three() {
    Tr t{0}; W.inits = 0;
    u64 space, waste;
    {
        Arena a(opts<true>());
        vp_check(W.inits == 1 && W.who == &a, "the init hook is called once for the arena");
        R x = X::run(a, t); FILL(x, 'x');
        vp_check(W.allocs == 1, "the allocation hook is called once per allocation");
        R y = Y::run(a, t); FILL(y, 'y');
        vp_check(W.allocs == 2, "the allocation hook is called once per allocation");
        R z = Z::run(a, t); FILL(z, 'z');
        vp_check(W.allocs == 3 && W.asked == z.n, "the allocation hook is told the size asked for");
        KEPT(x, 'x'); KEPT(y, 'y'); KEPT(z, 'z');
        vp_check(W.blocks == W.n, "the new block hook is called once per block");
        vp_check(a.SpaceAllocated() == live_bytes(), "SpaceAllocated() is the size of the blocks held");
        vp_check(W.resets == 0 && W.ends == 0, "neither reset nor destruction is reported early");
        vp_check(a.cleanups() == static_cast<u64>(cleans<X>() + cleans<Y>() + cleans<Z>()), "cleanups() counts the registered cleanups");
        space = a.SpaceAllocated();
    }
    vp_check(W.ends == 1 && W.used == space, "the destruction hook is called once with the space held");
    vp_check(W.wasted <= space, "wasted space is part of the space held");
    vp_check(all_freed(), "every block is given back once, through block_dealloc");
    vp_check(t.runs == cleans<X>() + cleans<Y>() + cleans<Z>(), "every cleanup runs exactly once");
    vp_check(W.bad == 0, "the hooks get the cookie, the block number and the block size");
    vp_reach("end");
}
struct ACH : AC {};
#define THREE(X, Y, Z) CASE(h_three_##X##_##Y##_##Z) { three<X, Y, Z>(); }
THREE(A8, A8, A8) THREE(AC, A8, AC) THREE(A8, AC, A32) THREE(A32, A16, A8) THREE(AR, PL, AC) THREE(PL, PL, AR) THREE(AC, AC, AC)
CASE(h_types) {
    Tr t{0};
    Arena a(opts<true>());
    Plain* p = a.Create<Plain>(); vp_check(W.type == &typeid(Plain) && W.asked == sizeof(Plain), "the allocation hook is told the type created"); (void)p;
    u64 n = vp_size(0, MX, "n");
    int* q = a.CreateArray<int>(n); vp_check(W.type == &typeid(int) && W.asked == n * 4, "the allocation hook is told the element type and the size"); (void)q;
    char* r = a.AllocateAligned(n); vp_check(W.type == nullptr && W.asked == n, "untyped allocations have no type"); (void)r;
    vp_reach("end");
}
// --- reset: only the first block is kept, and can be used again
template <class X, class Y, class Z> static void reset() {
    Tr t{0}, t2{0};
    {
        Arena a(opts<true>());
        R x = X::run(a, t); FILL(x, 'x');
        R y = Y::run(a, t); FILL(y, 'y');
        u64 held = a.SpaceAllocated();
        vp_check(held == live_bytes(), "SpaceAllocated() is the size of the blocks held");
        u64 r = a.Reset();
        vp_check(r == held && W.resets == 1 && W.used == held && W.wasted <= held, "Reset() reports the space held before");
        vp_check(t.runs == cleans<X>() + cleans<Y>(), "Reset() runs every cleanup once");
        vp_check(!W.freed[0] && W.nfreed == W.n - 1, "Reset() gives back every block but the first");
        vp_check(a.SpaceAllocated() == W.size[0] && a.SpaceAllocated() == live_bytes(), "after Reset() only the first block counts");
        vp_check(a.cleanups() == 0, "Reset() forgets the cleanups");
        u64 rem = a.SpaceRemains();
        vp_check(rem == W.size[0] - sizeof(Arena::Block), "after Reset() the first block is empty");
        unsigned blocks = W.n;
        R z = Z::run(a, t2); FILL(z, 'z'); KEPT(z, 'z');
        if (std::is_same_v<Z, A8>) vp_check(z.n + 8 > rem || W.n == blocks, "the first block is used again after Reset()");
        vp_check(a.SpaceAllocated() == live_bytes(), "SpaceAllocated() is the size of the blocks held");
    }
    vp_check(t.runs == cleans<X>() + cleans<Y>() && t2.runs == cleans<Z>(), "every cleanup runs exactly once");
    vp_check(all_freed() && W.bad == 0 && W.ends == 1 && W.resets == 1, "blocks and hooks after reset and destruction");
    vp_reach("end");
}
#define RESET(X, Y, Z) CASE(r_reset_##X##_##Y##_##Z) { reset<X, Y, Z>(); }
RESET(A8, A8, A8) RESET(AC, AC, A8) RESET(AC, A8, AC) RESET(A8, AC, A32) RESET(PL, AR, PM)
CASE(r_reset_empty) {
    { Arena a(opts<true>()); u64 r = a.Reset(); vp_check(r == 0 && a.SpaceAllocated() == 0 && a.SpaceRemains() == 0 && W.n == 0, "Reset() of an unused arena"); Tr t{0};
      R z = A8::run(a, t); FILL(z, 'z'); KEPT(z, 'z'); }
    vp_check(all_freed(), "every block is given back once, through block_dealloc"); vp_reach("end");
}
CASE(r_reset_twice) {
    Tr t{0};
    { Arena a(opts<true>()); R x = AC::run(a, t); FILL(x, 'x'); a.Reset(); a.Reset(); vp_check(t.runs == 1 && W.resets == 2 && W.n - W.nfreed == 1, "a second Reset() does nothing new");
      R z = A8::run(a, t); FILL(z, 'z'); KEPT(z, 'z'); }
    vp_check(all_freed() && t.runs == 1, "blocks and cleanups after two resets"); vp_reach("end");
}
// --- cleanups see intact memory
template <bool RS> static void cleanup_mem() {
    marks[0].runs = marks[1].runs = 0;
    {
        Arena a(opts<false>());
        u64 n = vp_size(1, MX, "n"), m = vp_size(0, MX, "m"), k = vp_size(1, MX, "k");
        char* p = a.AllocateAlignedAndAddCleanup(n, &cl_piece<0>); piece(p, n, 8);
        marks[0] = {p, n, 'p', 0}; std::memset(p, 'p', n);
        char* q = a.AllocateAligned(m); std::memset(q, 'q', m);
        char* r = a.AllocateAlignedAndAddCleanup(k, &cl_piece<1>); piece(r, k, 8);
        marks[1] = {r, k, 'r', 0}; std::memset(r, 'r', k);
        if (RS) { a.Reset(); vp_check(marks[0].runs == 1 && marks[1].runs == 1, "Reset() runs every cleanup once"); }
    }
    vp_check(marks[0].runs == 1 && marks[1].runs == 1, "every cleanup runs exactly once");
    vp_reach("end");
}
CASE(c_intact) { cleanup_mem<false>(); }
CASE(c_intact_reset) { cleanup_mem<true>(); }
// --- objects created in the arena are destroyed exactly once, owned objects are deleted
struct HasDtor { ArenaFullManagedTag; HasDtor(Tr* t, u64 x) : t(t), x(x) {} ~HasDtor() { ++t->runs; vp_check(x == 77, "the object is intact when it is destroyed"); } Tr* t; u64 x; };
struct NoTag { explicit NoTag(Tr* t) : t(t) {} ~NoTag() { ++t->runs; } Tr* t; };
template <bool RS> static void objects() {
    Tr t{0}, o{0};
    {
        Arena a(opts<false>());
        u64 m = vp_size(0, MX, "m"), k = vp_size(0, MX, "k");
        char* p = a.AllocateAligned(m); std::memset(p, 'p', m);
        HasDtor* h = a.Create<HasDtor>(&t, 77); piece(reinterpret_cast<char*>(h), sizeof(HasDtor), 8);
        NoTag* own = new NoTag(&o);
        vp_check(a.Own(own), "Own() succeeds while blocks can be had");
        char* q = a.AllocateAligned(k); std::memset(q, 'q', k);
        HasDtor* g = a.Create<HasDtor>(&t, 77); vp_check(g != h, "each object has its own place");
        vp_check(h->x == 77 && h->t == &t && own->t == &o && t.runs == 0 && o.runs == 0, "objects live until the end of the arena");
        Tagged* tg = a.Create<Tagged>(); piece(reinterpret_cast<char*>(tg), sizeof(Tagged), 8);
        if (RS) { a.Reset(); vp_check(t.runs == 2 && o.runs == 1, "Reset() destroys the objects"); }
    }
    vp_check(t.runs == 2, "created objects are destroyed exactly once"); vp_check(o.runs == 1, "owned objects are deleted exactly once");
    vp_check(all_freed(), "every block is given back once, through block_dealloc");
    vp_reach("end");
}
CASE(c_objects) { objects<false>(); }
CASE(c_objects_reset) { objects<true>(); }
// --- every allocation of a block may fail
template <class X> static void failing() {
    Tr t{0}; u64 n = vp_size(0, MX, "n"), m = vp_size(0, MX, "m");
    int made = 0;
    {
        Arena a(opts<true>());
        vp_oom(true);
        char* p = a.AllocateAligned(n); if (p) std::memset(p, 'p', n);
        u64 held = a.SpaceAllocated(); unsigned allocs = W.allocs, blocks = W.blocks;
        vp_check(allocs == (p ? 1u : 0u) && held == live_bytes() && blocks == W.n, "a failed allocation is not counted");
        made = X::attempt(a, m, t) ? 1 : 0;
        vp_check(a.SpaceAllocated() == live_bytes() && W.blocks == W.n, "a failed block is not counted");
        vp_oom(false);
        if (p) vp_same_fill(p, n, 'p', "a failed allocation leaves earlier ones alone");
        u64 k = vp_size(0, MX, "k");
        char* q = a.AllocateAligned(k); piece(q, k, 8); std::memset(q, 'q', k);
        if (p) vp_same_fill(p, n, 'p', "the arena is usable after a failed allocation");
    }
    vp_check(all_freed() && W.ends == 1 && W.bad == 0, "every block is given back once, through block_dealloc");
    X::after(t, made);
    vp_reach("end");
}
struct FA { static bool attempt(Arena& a, u64 n, Tr&) { char* p = a.AllocateAligned(n, 32); if (p) { piece(p, n, 32); std::memset(p, 'f', n); } return p; } static void after(Tr&, int) {} };
struct FC { static bool attempt(Arena& a, u64 n, Tr& t) { unsigned k = W.allocs; char* p = a.AllocateAlignedAndAddCleanup(n, &cl, &t); if (p) std::memset(p, 'f', n); vp_check(W.allocs == k + (p ? 1 : 0), "hook only for successful allocations"); return p; }
    static void after(Tr& t, int made) { vp_check(t.runs == made, "a cleanup runs once if, and only if, the allocation succeeded"); } };
struct FO { static bool attempt(Arena& a, u64, Tr& t) { unsigned k = W.allocs; HasDtor* p = a.Create<HasDtor>(&t, 77); vp_check(W.allocs == k + (p ? 1 : 0), "hook only for successful allocations");
        vp_check(p || t.runs <= 1, "a refused object is gone"); if (!p) { marks[3].runs = t.runs; } return p; }
    static void after(Tr& t, int made) { vp_check(made ? t.runs == 1 : t.runs == marks[3].runs, "objects are destroyed exactly once"); } };
struct FW { static bool attempt(Arena& a, u64, Tr& t) { NoTag* o = new (std::nothrow) NoTag(&t); if (!o) return false; bool ok = a.Own(o); if (!ok) { vp_check(t.runs == 0, "a refused object is not deleted"); delete o; t.runs = 0; } return ok; }
    static void after(Tr& t, int made) { vp_check(t.runs == made, "owned objects are deleted exactly once"); } };
struct FR { static bool attempt(Arena& a, u64 n, Tr&) { u64* p = a.CreateArray<u64>(n); if (p) vp_same_fill(p, n * 8, 0, "array elements are initialised"); return p; } static void after(Tr&, int) {} };
#define FAILING(X) CASE(f_fail_##X) { failing<X>(); }
FAILING(FA) FAILING(FC) FAILING(FO) FAILING(FW) FAILING(FR)
// a memory resource reports failure by exception, never by null
CASE(f_fail_resource) {
    { Arena a(opts<true>()); u64 n = vp_size(1, MX, "n"); auto* r = a.get_memory_resource(); bool thrown = false; char* p = nullptr;
      vp_oom(true); try { p = static_cast<char*>(r->allocate(n, 16)); } catch (const std::bad_alloc&) { thrown = true; } vp_oom(false);
      vp_check(thrown == (p == nullptr), "a memory resource throws if, and only if, it has no memory"); vp_check(a.SpaceAllocated() == live_bytes() && W.blocks == W.n, "a failed block is not counted");
      if (p) { piece(p, n, 16); std::memset(p, 'p', n); }
      u64 k = vp_size(0, MX, "k"); char* q = a.AllocateAligned(k); piece(q, k, 8); std::memset(q, 'q', k); if (p) vp_same_fill(p, n, 'p', "the arena is usable after a failed allocation"); }
    vp_check(all_freed(), "every block is given back once, through block_dealloc"); vp_reach("end");
}
// --- impossible sizes are refused
static constexpr u64 HUGE_LO = 1ull << 47, TOP = ~0ull;
#define REFUSE(name, expr) CASE(f_huge_##name) { Tr t{0}; { Arena a(opts<true>()); u64 n = vp_size(0, MX, "n"); char* p = a.AllocateAligned(n); piece(p, n, 8); std::memset(p, 'p', n); \
    u64 m = vp_size(HUGE_LO, TOP, "m"), held = a.SpaceAllocated(); vp_check((expr) == nullptr, "an impossible size is refused"); \
    vp_check(a.SpaceAllocated() == held && W.blocks == W.n && W.allocs == 1 && held == live_bytes(), "a refused allocation changes nothing"); \
    u64 k = vp_size(0, MX, "k"); char* q = a.AllocateAligned(k); piece(q, k, 8); std::memset(q, 'q', k); vp_same_fill(p, n, 'p', "a refused allocation leaves earlier ones alone"); } \
    vp_check(all_freed() && t.runs == 0, "blocks after a refused allocation"); vp_reach("end"); }
REFUSE(a8, a.AllocateAligned(m))
REFUSE(a16, a.AllocateAligned(m, 16))
REFUSE(a32, a.AllocateAligned(m, 32))
REFUSE(ac, a.AllocateAlignedAndAddCleanup(m, &cl, &t))
REFUSE(arr1, a.CreateArray<char>(m))
REFUSE(arr8, a.CreateArray<u64>(m))
REFUSE(arr24, a.CreateArray<Tagged>(m))
CASE(f_huge_first) { { Arena a(opts<true>()); u64 m = vp_size(HUGE_LO, TOP, "m"); vp_check(a.AllocateAligned(m) == nullptr && a.SpaceAllocated() == 0 && W.n == 0 && W.allocs == 0, "an impossible size is refused"); } vp_reach("end"); }
// --- moving an arena
template <class X, class Y> static void moved() {
    Tr t{0};
    {
        Arena a(opts<true>());
        R x = X::run(a, t); FILL(x, 'x');
        u64 held = a.SpaceAllocated();
        auto* res = a.get_memory_resource();
        {
            Arena b(std::move(a));
            vp_check(b.SpaceAllocated() == held && a.SpaceAllocated() == 0, "a move takes the blocks along");
            vp_check(b.get_memory_resource()->get_arena() == &b, "the memory resource serves the arena that owns it");
            vp_check(b.get_memory_resource() == res, "containers keep their memory resource across a move");
            R y = Y::run(b, t); FILL(y, 'y'); KEPT(x, 'x'); KEPT(y, 'y');
            R z = PM::run(b, t); FILL(z, 'z'); KEPT(x, 'x'); KEPT(y, 'y');
            vp_check(b.SpaceAllocated() == live_bytes() && a.SpaceAllocated() == 0, "after a move, blocks go to the new arena");
        }
        vp_check(all_freed() && W.ends == 1 && t.runs == cleans<X>() + cleans<Y>(), "the new arena releases everything");
    }
    vp_check(all_freed() && W.ends == 1 && W.inits == 1 && W.bad == 0, "the old arena has nothing left to release or to report");
    vp_check(t.runs == cleans<X>() + cleans<Y>(), "every cleanup runs exactly once");
    vp_reach("end");
}
#define MOVED(X, Y) CASE(m_move_##X##_##Y) { moved<X, Y>(); }
MOVED(A8, A8) MOVED(AC, AC) MOVED(AR, PL)
CASE(m_move_empty) { { Arena a(opts<true>()); Arena b(std::move(a)); Tr t{0}; R y = A8::run(b, t); FILL(y, 'y'); KEPT(y, 'y'); } vp_check(all_freed() && W.ends == 1, "blocks after moving an unused arena"); vp_reach("end"); }
// --- memory resource
CASE(p_resource) {
    Tr t{0};
    {
        Arena a(opts<false>()); Arena b(opts<false>());
        u64 n = vp_size(1, MX, "n"), m = vp_size(1, MX, "m"); 
        auto* r = a.get_memory_resource(); auto* r2 = b.get_memory_resource();
        vp_check(r->get_arena() == &a && r2->get_arena() == &b, "each arena has its own memory resource");
        char* p = static_cast<char*>(r->allocate(n, 1)); piece(p, n, 8); std::memset(p, 'p', n);
        char* q = static_cast<char*>(r->allocate(m, 32)); piece(q, m, 32); std::memset(q, 'q', m);
        r->deallocate(p, n, 1); vp_same_fill(p, n, 'p', "the memory resource never takes memory back");
        vp_check(a.SpaceAllocated() == live_bytes() && b.SpaceAllocated() == 0, "memory comes from the arena of the resource");
        vp_check(r->is_equal(*r) && !r->is_equal(*r2), "resources are equal if they serve the same arena");
        vp_same_fill(q, m, 'q', "an allocation keeps its content while others are made");
    }
    vp_check(all_freed(), "every block is given back once, through block_dealloc"); vp_reach("end");
}
struct WithArena { ArenaFullManagedTag; explicit WithArena(Arena& a, int x) : a(&a), x(x) {} Arena* a; int x; };
struct WithAlloc { ArenaFullManagedTag; using allocator_type = pmr::polymorphic_allocator<WithAlloc>; WithAlloc(int x, allocator_type al) : r(al.resource()), x(x) {} pmr::memory_resource* r; int x; };
CASE(p_inject) {
    Arena a(opts<false>());
    WithArena* w = a.Create<WithArena>(5); vp_check(w->a == &a && w->x == 5, "Create() passes the arena to constructors that take it");
    WithAlloc* v = a.Create<WithAlloc>(6); vp_check(v->r == a.get_memory_resource() && v->x == 6, "Create() passes the memory resource to constructors that take an allocator");
    Plain* p = a.Create<Plain>(Plain{7, 8}); vp_check(p->a == 7 && p->b == 8, "Create() passes its arguments on");
    vp_reach("end");
}
// --- classification of addresses
struct K2 { static void run(char* m, u64 pos, u64 lim, u64 size, Arena& a, u64 j) {
    using S = stdb::memory::ArenaContainStatus;
    vp_assume(j < size);
    S want = j < sizeof(Arena::Block) ? S::BlockHeader : j < pos ? S::BlockUsed : j < lim ? S::BlockUnUsed : S::BlockCleanup;
    vp_check(a.check(m + j) == want, "check() tells the part of the block an address lies in");
} };
CASE(k_check_one) {
    Tr t{0};
    Arena a(opts<false>());
    R x = AC::run(a, t); vp_assume(W.n == 1);
    u64 j = vp_size(0, MX * 2, "j"), end = vp_off(x.p) + (x.n + 7) / 8 * 8;
    K2::run(static_cast<char*>(W.mem[0]), end, W.size[0] - 16, W.size[0], a, j);
    vp_reach("end");
}
CASE(k_check_two) {
    Tr t{0};
    Arena a(opts<false>());
    R x = A8::run(a, t); R y = A8::run(a, t); vp_assume(W.n == 2);
    u64 j = vp_size(0, MX * 2, "j");
    if (vp_bool()) K2::run(static_cast<char*>(W.mem[0]), vp_off(x.p) + (x.n + 7) / 8 * 8, W.size[0], W.size[0], a, j);
    else K2::run(static_cast<char*>(W.mem[1]), vp_off(y.p) + (y.n + 7) / 8 * 8, W.size[1], W.size[1], a, j);
    vp_reach("end");
}
CASE(k_check_foreign) {
    Tr t{0};
    Arena a(opts<false>());
    A8::run(a, t); A8::run(a, t);
    char* o = vp_wbytes(8, "other");
    vp_check(a.check(o) == stdb::memory::ArenaContainStatus::NotContain, "foreign memory is not contained");
    vp_reach("end");
}
static u64 up8(u64 n) { return (n + 7) / 8 * 8; }
CASE(s_remains_cleanup) {
    Arena a(opts<false>()); Tr t{0};
    R x = AC::run(a, t); vp_assume(W.n == 1);
    vp_check(a.SpaceRemains() == W.size[0] - sizeof(Arena::Block) - up8(x.n) - 16, "SpaceRemains() is what is left between allocations and cleanups");
    R y = A8::run(a, t); vp_assume(W.n == 1);
    vp_check(a.SpaceRemains() == W.size[0] - sizeof(Arena::Block) - up8(x.n) - up8(y.n) - 16, "SpaceRemains() is what is left between allocations and cleanups");
    vp_reach("end");
}
template <bool RS> static void wasted() {
    Tr t{0}; u64 w = 0;
    {
        Arena a(opts<true>());
        R x = AC::run(a, t); u64 used = 32 + up8(x.n) + 16; vp_assume(W.n == 1);
        R y = A8::run(a, t); used += up8(y.n) + 32 * (W.n - 1);
        w = live_bytes() - used;
        if (RS) { a.Reset(); vp_check(W.wasted == w, "Reset() reports the unused bytes"); w = W.size[0] - 32; }
    }
    vp_check(W.wasted == w, "the destruction hook is told the unused bytes");
    vp_reach("end");
}
CASE(h_wasted) { wasted<false>(); }
CASE(h_wasted_reset) { wasted<true>(); }
template <class F> static void six(F f) { f(0); f(1); f(2); f(3); f(4); f(5); }
template <bool RS> static void many() {
    Tr t[6] = {};
    {
        Arena a(opts<false>());
        R x[6]; u64 n = vp_size(0, 64, "n");
        six([&](int i) { x[i].n = n; x[i].p = a.AllocateAlignedAndAddCleanup(n, &cl, &t[i]); piece(x[i].p, n, 8); FILL(x[i], 'a' + i); });
        six([&](int i) { KEPT(x[i], 'a' + i); });
        vp_check(a.cleanups() == 6, "cleanups() counts the registered cleanups");
        if (RS) a.Reset();
        if (RS) six([&](int i) { vp_check(t[i].runs == 1, "Reset() runs every cleanup once"); });
    }
    six([&](int i) { vp_check(t[i].runs == 1, "every cleanup runs exactly once"); });
    vp_check(all_freed(), "every block is given back once, through block_dealloc");
    vp_reach("end");
}
CASE(c_many) { many<false>(); }
CASE(c_many_reset) { many<true>(); }
CASE(s_remains) {
    Arena a(opts<false>()); Tr t{0};
    u64 n = vp_size(0, MX, "n"); char* p = a.AllocateAligned(n); (void)p;
    u64 rem = a.SpaceRemains(); vp_check(rem <= W.size[0] - sizeof(Arena::Block) - n, "what is allocated does not remain");
    u64 m = vp_size(0, MX, "m"); char* q = a.AllocateAligned(m); (void)q;
    if (W.n == 1) vp_check(a.SpaceRemains() <= rem - m, "what is allocated does not remain");
    else vp_check(m > rem || rem - m < 8, "a new block is made only when the last one is too small");
    vp_reach("end");
}
