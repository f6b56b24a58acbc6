// Declarations shared by the analysis harnesses.  Nothing here is ever executed: the vp_* functions are given a
// meaning by the abstract interpreter (engine/models.py) and the tracked element classes have no bodies.
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>
extern "C" {
std::size_t vp_size(std::size_t lo, std::size_t hi, const char* name);
char vp_char();
void vp_unroll(std::size_t iterations);
int vp_i32();
bool vp_bool();
void vp_assume(bool);
void vp_check(bool, const char*);
void vp_sat_mono(bool, const char*);
const char* vp_bytes(std::size_t n, const char* name);
char* vp_wbytes(std::size_t n, const char* name);
const char* vp_cstr(std::size_t n, const char* name);
void vp_snap(int slot, const void* p, std::size_t n);
void vp_same(const void* p, std::size_t n, int slot, std::size_t off, const char* msg);
void vp_same_fill(const void* p, std::size_t n, char c, const char* msg);
void vp_same_obj(const void* p, std::size_t bytes, const void* one, std::size_t elem, const char* msg);
void vp_oom(bool);
void vp_throwing(bool);
void vp_reach(const char*);
std::size_t vp_heap_live();
void vp_dump();
void vp_leakok();
}
#define VP_CLASS(N, SZ, COPY, MOVE)                                  \
    struct N {                                                       \
        std::uint64_t w[SZ / 8];                                     \
        N();                                                         \
        explicit N(int);                                             \
        COPY(N)                                                      \
        MOVE(N)                                                      \
        ~N();                                                        \
    };                                                               \
    bool operator==(const N&, const N&);                             \
    extern "C" N* vp_objs_##N(std::size_t n);
#define VP_HASCOPY(N) N(const N&); N& operator=(const N&);
#define VP_NOCOPY(N) N(const N&) = delete; N& operator=(const N&) = delete;
#define VP_HASMOVE(N) N(N&&) noexcept; N& operator=(N&&) noexcept;
#define VP_NOMOVE(N) N(N&&) = delete; N& operator=(N&&) = delete;
VP_CLASS(VpObj, 24, VP_HASCOPY, VP_HASMOVE)
VP_CLASS(VpCpy, 24, VP_HASCOPY, VP_NOMOVE)
VP_CLASS(VpMov, 24, VP_NOCOPY, VP_HASMOVE)
VP_CLASS(VpBig, 80, VP_HASCOPY, VP_HASMOVE)
template <class T> struct Src;
#define VP_SRC(N) template <> struct Src<N> { static N* objs(std::size_t n) { return vp_objs_##N(n); } };
VP_SRC(VpObj) VP_SRC(VpCpy) VP_SRC(VpMov) VP_SRC(VpBig)
template <class T> struct Src { static const T* objs(std::size_t n) { return reinterpret_cast<const T*>(vp_bytes(n * sizeof(T), "in")); } };
#define CASE(name) extern "C" void vp_case_##name()
extern "C" void vp_witness(const void* base, std::size_t at);
