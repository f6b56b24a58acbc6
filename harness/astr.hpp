// Strings of an arena take the place of stdb::memory::string in the string cases (VP_ARENA).  The arena is a memory
// resource as std::pmr demands it (throws when it has nothing left) whose memory is only given back as a whole.
#pragma once
#include <cstdlib>
#include "string/arena_string.hpp"
struct Res final : std::pmr::memory_resource {
    void* mem[6] = {};
    unsigned n = 0;
    bool many = false;
    void* do_allocate(std::size_t bytes, std::size_t) override {
        void* p = std::malloc(bytes);
        if (p == nullptr) throw std::bad_alloc();
        if (many) { vp_check(n < 6, "the harness keeps enough blocks"); mem[n++] = p; } else vp_leakok();
        return p;
    }
    void do_deallocate(void*, std::size_t, std::size_t) override { vp_check(false, "arena memory is never given back piecewise"); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
    void release() { for (unsigned i = 0; i < n; ++i) std::free(mem[i]); n = 0; }
};
static Res* R;
using stdb::memory::arena_string;
struct string : arena_string {
    using A = std::pmr::polymorphic_allocator<char>;
    using arena_string::operator=;
    string() : arena_string(A(R)) {}
    explicit string(Res* r) : arena_string(A(r)) {}
    string(const string&) = default;
    string(string&&) = default;
    string& operator=(const string&) = default;
    string& operator=(string&&) = default;
    string(const arena_string& o) : arena_string(o) {}
    string(arena_string&& o) noexcept : arena_string(std::move(o)) {}
    template <class... X> explicit string(X... x) requires(requires { arena_string(x..., A(R)); }) : arena_string(x..., A(R)) {}
    string(const arena_string& o, std::size_t p) : arena_string(o, p, npos, A(R)) {}
    string(const arena_string& o, std::size_t p, std::size_t k) : arena_string(o, p, k, A(R)) {}
    string(std::initializer_list<char> l) : arena_string(l, A(R)) {}
};
namespace std { template <> struct hash<::string> { size_t operator()(const ::string& s) const { return hash<arena_string>()(s); } }; }
#define world() Res res_; R = &res_
static bool home(const arena_string& s) { return s.get_allocator().resource() == R; }
