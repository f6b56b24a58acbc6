// Option parser harness: command lines of every shape up to a few arguments, with arbitrary texts.
#include "vp.hpp"
#include <cstring>
#include "optparse/optparse.cc"
using namespace stdb::optparse;
#ifndef VP_LMIN
#define VP_LMIN 0
#define VP_LMAX 15
#endif
static constexpr std::size_t MX = 1ull << 30;
extern "C" { int vp_i32(); }
// the environment: one variable, set or not
static const char *env_name, *env_text;
extern "C" char* getenv(const char* n) noexcept { return env_name != nullptr && std::string(n) == env_name ? const_cast<char*>(env_text) : nullptr; }
// the conversion of texts to numbers: told here, the result is open
template <class T> struct Conv { static inline std::string text; static inline T value; static inline int calls; };
template <class T> T any_value();
template <> bool any_value<bool>() { return vp_bool(); }
template <> int any_value<int>() { return vp_i32(); }
template <> std::int64_t any_value<std::int64_t>() { return static_cast<std::int64_t>(vp_size(0, MX, "number")); }
template <> float any_value<float>() { return 2.5f; }
template <> double any_value<double>() { return 3.5; }
template <class T> static T conv(const std::string& s) { Conv<T>::text = s; ++Conv<T>::calls; return Conv<T>::value = any_value<T>(); }
template <class T> static void hook() { std::vp_parsed<T>::hook = conv<T>; Conv<T>::calls = 0; Conv<T>::text.clear(); }
template <class T> static void unhook() { std::string().swap(Conv<T>::text); }
static void start() { hook<bool>(); hook<int>(); hook<std::int64_t>(); hook<float>(); hook<double>(); env_name = env_text = nullptr; }
static void stop() { unhook<bool>(); unhook<int>(); unhook<std::int64_t>(); unhook<float>(); unhook<double>(); vp_reach("end"); }
static const char* text(std::size_t lo = VP_LMIN) { return vp_cstr(vp_size(lo, VP_LMAX, "len"), "text"); }
// an argument that is no option
static const char* word(char prefix = '-', std::size_t lo = VP_LMIN) { const char* t = text(lo); vp_assume(t[0] != prefix); return t; }
static bool has(const char* t, char c) { return std::memchr(t, c, std::strlen(t)) != nullptr; }
static const char* joined(const char* a, const char* b) {
    std::size_t n = std::strlen(a), m = std::strlen(b);
    char* r = vp_wbytes(n + m + 1, "joined"); std::memcpy(r, a, n); std::memcpy(r + n, b, m); r[n + m] = 0; return r;
}
static bool is(const std::optional<std::string>& v, const char* t) { return v.has_value() && *v == std::string(t); }
static void given_back(OptionParser& p, const char* const* argv, const char* const* inv, int n) {
    auto v = p.invalid_args();
    vp_check(v.size() == static_cast<std::size_t>(n), "exactly the arguments that were not used are handed back");
    for (int i = 0; i < n; ++i) vp_check(v[i] == inv[i], "arguments that were not used are handed back in their order");
    vp_check(p.get_raw_argc() == n + 1, "the raw argument count is that of the program and the arguments not used");
    auto r = p.get_raw_argv();
    vp_check(r[0] == argv[0], "the raw arguments start with the program");
    for (int i = 0; i < n; ++i) vp_check(r[i + 1] == inv[i], "the raw arguments are those that were not used, in their order");
}
// ---- command lines of every shape
enum Kind { WORD, SHORT, LIST, FLAG, EQUALS, EMPTY, UNKNOWN, KINDS };
static const char* token(std::size_t k, const char*& txt) {
    txt = nullptr;
    switch (k) {
        case WORD: { txt = word(); vp_assume(!has(txt, ',')); return txt; }
        case SHORT: return "-s";
        case LIST: return "--list";
        case FLAG: return "-f";
        case EQUALS: txt = text(1); return joined("--str=", txt);
        case EMPTY: return "--str=";
        default: return "-x";
    }
}
template <int N> static void lines(std::size_t first, std::size_t second) {
    start();
    OptionParser p;
    p.add_option("-s", "--str").action(Action::Store).type(Type::String).dest("S");
    p.add_option("-l", "--list").action(Action::Append).type(Type::String).dest("L");
    p.add_option("-f", "--flag").action(Action::StoreTrue).type(Type::Bool).dest("F");
    const char *argv[N + 2], *txt[N]; std::size_t kind[N];
    argv[0] = "prog"; argv[N + 1] = nullptr;
    for (int i = 0; i < N; ++i) { kind[i] = i == 0 ? first : i == 1 && second < KINDS ? second : vp_size(0, KINDS - 1, "kind"); argv[i + 1] = token(kind[i], txt[i]); }
    // what has to come out
    const char *inv[N], *str = nullptr, *list[N]; int ninv = 0, nlist = 0, convs = 0; bool flag = false, flag_open = false, refused = false; const char* flag_text = nullptr;
    for (int i = 0; i < N && !refused;) {
        std::size_t k = kind[i];
        int at = i++;
        if (k == WORD || k == UNKNOWN) { inv[ninv++] = argv[at + 1]; continue; }
        const char* val = nullptr;
        if (k == EQUALS) val = txt[at];
        else if (k == EMPTY) { if (i == N) { inv[ninv++] = argv[at + 1]; continue; } val = argv[1 + i++]; }
        else if (i < N && kind[i] == WORD) val = argv[1 + i++];
        else if (k == FLAG) { flag = true; flag_open = false; continue; }
        else { refused = true; break; }
        if (k == FLAG) { flag = true; flag_open = val[0] != 0; if (flag_open) { ++convs; flag_text = val; } }
        else if (k == LIST) list[nlist++] = val;
        else str = val;
        while (i < N && kind[i] == WORD) { if (k == LIST) list[nlist++] = argv[1 + i]; else inv[ninv++] = argv[1 + i]; ++i; }
    }
    bool threw = false;
    try {
        ValueStore s = p.parse_args(N + 1, argv);
        vp_check(!refused, "an option without its value is refused");
        if (!refused) {
            auto sv = s.get<std::string>("S"); auto fv = s.get<bool>("F"); auto lv = s.get_list<std::string>("L");
            vp_check(str != nullptr ? is(sv, str) : !sv.has_value(), "the option has the value given last");
            vp_check(fv.has_value() == flag, "the flag is stored when it was given");
            if (flag && !flag_open) vp_check(*fv, "the flag is true when it was given");
            if (flag_open) { vp_check(Conv<bool>::text == flag_text, "the text given is converted for the flag"); vp_check(*fv == Conv<bool>::value, "the flag has the value given"); }
            vp_check(Conv<bool>::calls == convs, "the flag has the values given");
            vp_check(lv.has_value() == (nlist > 0) && (nlist == 0 || lv->size() == static_cast<std::size_t>(nlist)), "the list holds every value given");
            if (lv.has_value() && lv->size() == static_cast<std::size_t>(nlist)) for (int i = 0; i < nlist; ++i) vp_check((*lv)[i] == list[i], "the list holds the values in their order");
            given_back(p, argv, inv, ninv);
        }
    } catch (const std::logic_error&) { threw = true; }
    vp_check(threw == refused, "a complete command line is accepted");
    stop();
}
#define LINES3(A, B) CASE(o_lines3_##A##_##B) { lines<3>(A, B); }
#define LINES(A) CASE(o_lines_##A##_1) { lines<1>(A, KINDS); } CASE(o_lines_##A##_2) { lines<2>(A, KINDS); } \
    LINES3(A, WORD) LINES3(A, SHORT) LINES3(A, LIST) LINES3(A, FLAG) LINES3(A, EQUALS) LINES3(A, EMPTY) LINES3(A, UNKNOWN)
LINES(WORD) LINES(SHORT) LINES(LIST) LINES(FLAG) LINES(EQUALS) LINES(EMPTY) LINES(UNKNOWN)
// ---- names
static const char PREFIXES[] = {'-', '+', '#', '$', '&', '%'};
static const char* pre(char c, const char* name, int n) {
    std::size_t m = std::strlen(name);
    char* r = vp_wbytes(m + static_cast<std::size_t>(n) + 1, "name");
    for (int i = 0; i < n; ++i) r[i] = c;
    std::memcpy(r + n, name, m); r[m + static_cast<std::size_t>(n)] = 0; return r;
}
static void str_opt(OptionParser& p, const char* a, const char* b, const char* dest) { p.add_option(a, b).action(Action::Store).type(Type::String).dest(dest); }
template <class... A> static void prefixed(int which, A... handler) {
    start();
    char c = PREFIXES[which], other = which == 0 ? '+' : '-';
    OptionParser p(c, handler...);
    str_opt(p, pre(c, "s", 1), pre(c, "str", 2), "S");
    p.add_option(pre(c, "file", 2)).action(Action::Store);
    const char *w = word(c, 1), *x = word(c, 1), *f = pre(other, "s", 1);
    const char* argv[] = {"prog", vp_bool() ? pre(c, "s", 1) : pre(c, "str", 2), w, f, pre(c, "file", 2), x, nullptr};
    ValueStore s = p.parse_args(6, argv);
    vp_check(is(s.get<std::string>("S"), w), "an option is found by its names");
    vp_check(is(s.get<std::string>("file"), x), "an option without destination is stored under its long name");
    given_back(p, argv, &f, 1);
    stop();
}
#define PREFIXED(N) CASE(n_prefix_##N) { prefixed(N); } CASE(n_prefix_handler_##N) { prefixed(N, ConflictHandler::Replace); } CASE(n_prefix_error_##N) { prefixed(N, ConflictHandler::Error); }
PREFIXED(0) PREFIXED(1) PREFIXED(2) PREFIXED(3) PREFIXED(4) PREFIXED(5)
CASE(n_prefix_none) { start(); char c = vp_char(); vp_assume(c != PREFIXES[0] && c != PREFIXES[1] && c != PREFIXES[2] && c != PREFIXES[3] && c != PREFIXES[4] && c != PREFIXES[5]); bool threw = false;
    try { OptionParser p(c); } catch (const std::logic_error&) { threw = true; } vp_check(threw, "other prefixes are refused");
    threw = false; try { OptionParser p(c, ConflictHandler::Replace); } catch (const std::logic_error&) { threw = true; } vp_check(threw, "other prefixes are refused"); stop(); }
static void three(OptionParser& p) {
    str_opt(p, "-a", "--alpha", "A");
    p.add_option({"-b", "--beta", "-bb", "--bet"}).action(Action::Store).type(Type::String).dest("B");
    str_opt(p, "-al", "--alp", "C");
}
static void three_is(ValueStore& s, int which, const char* w) {
    vp_check(which == 0 ? is(s.get<std::string>("A"), w) : !s.get<std::string>("A").has_value(), "an option is found by its names, and by no other");
    vp_check(which == 1 ? is(s.get<std::string>("B"), w) : !s.get<std::string>("B").has_value(), "an option is found by its names, and by no other");
    vp_check(which == 2 ? is(s.get<std::string>("C"), w) : !s.get<std::string>("C").has_value(), "an option is found by its names, and by no other");
}
static void named(const char* name, int which) { start(); OptionParser p; three(p); const char* w = text(1); bool eq = vp_bool(); if (!eq) vp_assume(w[0] != '-');
    const char* t = eq ? pre('=', w, 1) : w; const char* argv[] = {"prog", eq ? joined(name, t) : name, w, nullptr}; ValueStore s = p.parse_args(eq ? 2 : 3, argv);
    three_is(s, which, w); given_back(p, argv, nullptr, 0); stop(); }
CASE(n_name_a) { named("-a", 0); } CASE(n_name_alpha) { named("--alpha", 0); } CASE(n_name_b) { named("-b", 1); } CASE(n_name_beta) { named("--beta", 1); } CASE(n_name_bb) { named("-bb", 1); }
CASE(n_name_one) { start(); OptionParser p; three(p); p.add_option({"--x", "-xy"}).action(Action::Store); bool lng = vp_bool(); const char* w = word('-', 1); const char* argv[] = {"prog", lng ? "--x" : "-xy", w, "-x", nullptr}; ValueStore s = p.parse_args(4, argv); three_is(s, 3, w);
    vp_check(is(s.get<std::string>("x"), w), "an option without destination is stored under its long name"); given_back(p, argv, argv + 3, 1); stop(); }
CASE(n_name_dest) { start(); OptionParser p; p.add_option({"-n", "--first", "--second"}).action(Action::Store); p.add_option({"-m", "--second-m"}).action(Action::Store).dest("own"); const char *w = word('-', 1), *x = word('-', 1); const char* argv[] = {"prog", "--second", w, "--second-m", x, nullptr}; ValueStore s = p.parse_args(5, argv);
    vp_check(is(s.get<std::string>("first"), w) && is(s.get<std::string>("own"), x) && !s.get<std::string>("second").has_value() && !s.get<std::string>("second-m").has_value(), "an option without destination is stored under its first long name"); given_back(p, argv, nullptr, 0); stop(); }
CASE(n_name_bet) { named("--bet", 1); } CASE(n_name_al) { named("-al", 2); } CASE(n_name_alp) { named("--alp", 2); }
static bool same(const char* a, const char* b) { return std::string_view(a) == std::string_view(b); }
// a name without blanks at its ends
static const char* tight(std::size_t lo) { const char* t = text(lo); vp_assume(!has(t, '='));
    std::string_view ws(" \t\n\r\f\v"); std::size_t n = std::strlen(t); if (n > 0) vp_assume(std::memchr(ws.data(), t[n - 1], ws.size()) == nullptr); return t; }
CASE(n_unknown_short) { start(); OptionParser p; three(p); const char* t = tight(0); vp_assume(t[0] != '-' && !same(t, "a") && !same(t, "b") && !same(t, "bb") && !same(t, "al") && !same(t, "h") && !same(t, "u") && !same(t, "v"));
    const char* argv[] = {"prog", joined("-", t), nullptr}; ValueStore s = p.parse_args(2, argv); three_is(s, 3, t); given_back(p, argv, argv + 1, 1); stop(); }
CASE(n_unknown_long) { start(); OptionParser p; three(p); const char* t = tight(0); vp_assume(!same(t, "alpha") && !same(t, "beta") && !same(t, "bet") && !same(t, "alp") && !same(t, "help") && !same(t, "usage") && !same(t, "version"));
    const char* argv[] = {"prog", joined("--", t), nullptr}; ValueStore s = p.parse_args(2, argv); three_is(s, 3, t); given_back(p, argv, argv + 1, 1); stop(); }
CASE(n_unknown_value) { start(); OptionParser p; three(p); const char* t = text(0); const char* argv[] = {"prog", joined("--other=", t), joined("-x=", t), nullptr}; ValueStore s = p.parse_args(3, argv); three_is(s, 3, t); given_back(p, argv, argv + 1, 2); stop(); }
static void clash(const char* a, const char* b) { start(); OptionParser p; three(p); bool threw = false; try { p.add_option(a, b).action(Action::Store).dest("X"); } catch (const std::logic_error&) { threw = true; }
    vp_check(threw, "a name that is taken is refused"); const char* w = word('-', 1); const char* argv[] = {"prog", "-bb", w, nullptr}; ValueStore s = p.parse_args(3, argv); three_is(s, 1, w); given_back(p, argv, nullptr, 0); stop(); }
CASE(n_clash_short) { clash("-al", "--other"); } CASE(n_clash_long) { clash("-o", "--bet"); } CASE(n_clash_name) { clash("-o", "other"); } CASE(n_clash_none) { clash("-o", ""); }
static void replaced(const char* a, const char* b, const char* use, int which) { start(); OptionParser p(ConflictHandler::Replace); three(p); str_opt(p, a, b, "X"); const char* w = word('-', 1); const char* argv[] = {"prog", use, w, nullptr};
    ValueStore s = p.parse_args(3, argv); three_is(s, which, w); vp_check(which == 3 ? is(s.get<std::string>("X"), w) : !s.get<std::string>("X").has_value(), "a name that was given again belongs to the later option"); given_back(p, argv, nullptr, 0); stop(); }
CASE(n_replace_short) { replaced("-al", "--other", "-al", 3); } CASE(n_replace_long) { replaced("-o", "--alpha", "--alpha", 3); } CASE(n_replace_other) { replaced("-al", "--other", "--other", 3); }
CASE(n_replace_keep) { replaced("-al", "--other", "--alp", 2); } CASE(n_replace_keep2) { replaced("-o", "--alpha", "-a", 0); }
static void builtin(char c, const char* name, int n, const char* dest) { start(); OptionParser p(c); str_opt(p, pre(c, "s", 1), pre(c, "str", 2), "S"); const char* argv[] = {"prog", pre(c, name, n), nullptr}; ValueStore s = p.parse_args(2, argv);
    for (const char* d : {"help", "usage", "version"}) { auto v = s.get<bool>(d); vp_check(same(d, dest) ? v.has_value() && *v : !v.has_value(), "help, usage and version can always be asked for"); } given_back(p, argv, nullptr, 0); stop(); }
CASE(n_help) { builtin('-', "help", 2, "help"); } CASE(n_h) { builtin('-', "h", 1, "help"); } CASE(n_usage) { builtin('-', "usage", 2, "usage"); } CASE(n_u) { builtin('+', "u", 1, "usage"); }
CASE(n_version) { builtin('#', "version", 2, "version"); } CASE(n_v) { builtin('-', "v", 1, "version"); }
CASE(n_taken) { start(); OptionParser p; p.add_option("-h", "--host").action(Action::Store).dest("H"); p.add_option("-v", "--version").action(Action::StoreTrue).type(Type::Bool).dest("V"); const char* w = word('-', 1);
    const char* argv[] = {"prog", "-h", w, "--version", nullptr}; ValueStore s = p.parse_args(4, argv); vp_check(is(s.get<std::string>("H"), w), "the user's option keeps its name"); auto v = s.get<bool>("V");
    vp_check(v.has_value() && *v, "the user's option keeps its name"); vp_check(!s.get<bool>("help").has_value() && !s.get<bool>("version").has_value(), "the user's option keeps its name"); stop(); }
static void incomplete(int how) { start(); OptionParser p; three(p); auto& o = p.add_option("-o"); if (how != 0) o.action(Action::Store); if (how != 1) o.dest("O"); if (how == 2) o.choices({"x"}).type(Type::String);
    bool threw = false; const char* argv[] = {"prog", nullptr}; try { p.parse_args(1, argv); } catch (const std::logic_error&) { threw = true; } vp_check(threw, "an incomplete option is refused"); stop(); }
CASE(n_incomplete_action) { incomplete(0); } CASE(n_incomplete_dest) { incomplete(1); } CASE(n_incomplete_choice) { incomplete(2); }
// ---- values
template <class T> static void typed(Type ty, bool word_form) {
    start(); OptionParser p; p.add_option("-n", "--num").action(Action::Store).type(ty).dest("N");
    const char* t = word_form ? word('-', 1) : text(1); const char* argv[] = {"prog", word_form ? "-n" : joined("--num=", t), t, nullptr};
    ValueStore s = p.parse_args(word_form ? 3 : 2, argv); auto v = s.get<T>("N");
    vp_check(Conv<T>::calls == 1 && Conv<T>::text == t, "the text given is converted"); vp_check(v.has_value(), "the value is stored"); if (v.has_value()) vp_check(std::memcmp(&*v, &Conv<T>::value, sizeof(T)) == 0, "the value is stored as converted"); given_back(p, argv, nullptr, 0); stop();
}
#define TYPED(N, T, TY) CASE(w_##N) { typed<T>(TY, true); } CASE(w_##N##_eq) { typed<T>(TY, false); }
TYPED(bool, bool, Type::Bool) TYPED(int, int, Type::Int) TYPED(long, std::int64_t, Type::Long) TYPED(float, float, Type::Float) TYPED(double, double, Type::Double)
CASE(w_choice) { start(); OptionParser p; p.add_option("-m", "--mode").action(Action::Store).type(Type::Choice).choices({"work", "wait", "x"}).dest("M"); bool eq = vp_bool(); const char* t = eq ? text(1) : word('-');
    const char* argv[] = {"prog", eq ? joined("--mode=", t) : "-m", t, nullptr}; ValueStore s = p.parse_args(eq ? 2 : 3, argv); auto v = s.get<std::string>("M");
    bool in = same(t, "work") || same(t, "wait") || same(t, "x"); vp_check(in ? is(v, t) : !v.has_value(), "only listed choices are accepted"); given_back(p, argv, nullptr, 0); stop(); }
CASE(w_choice_long) { start(); OptionParser p; p.add_option("-m", "--mode").action(Action::Store).choices({"a choice of 24 characters", "a choice"}).dest("M"); const char* t = text(1);
    const char* argv[] = {"prog", joined("--mode=", t), nullptr}; ValueStore s = p.parse_args(2, argv); auto v = s.get<std::string>("M"); bool in = same(t, "a choice of 24 characters") || same(t, "a choice"); vp_check(in ? is(v, t) : !v.has_value(), "only listed choices are accepted"); stop(); }
CASE(w_choice_range) { start(); OptionParser p; const std::string cs[] = {"on", "off"}; p.add_option("--mode").action(Action::Append).choices(cs, cs + 2).dest("M"); const char* t = text(1); vp_assume(!has(t, ','));
    const char* argv[] = {"prog", "--mode=on", joined("--mode=", t), "--mode=off", nullptr}; ValueStore s = p.parse_args(4, argv); auto v = s.get_list<std::string>("M"); bool in = same(t, "on") || same(t, "off");
    vp_check(v.has_value() && v->size() == (in ? 3u : 2u) && (*v)[0] == "on" && v->back() == "off", "only listed choices are accepted"); stop(); }
template <bool ON> static void flag() { start(); OptionParser p; p.add_option("-f", "--flag").action(ON ? Action::StoreTrue : Action::StoreFalse).type(Type::Bool).dest("F"); int how = static_cast<int>(vp_size(0, 3, "how")); const char* t = text(1); if (how == 1) vp_assume(t[0] != '-');
    const char* argv[] = {"prog", how == 2 ? joined("-f=", t) : "-f", how == 1 ? t : "-x", nullptr}; ValueStore s = p.parse_args(how == 0 || how == 2 ? 2 : 3, argv); auto v = s.get<bool>("F"); vp_check(v.has_value(), "the flag is stored");
    if (v.has_value()) vp_check(how == 1 || how == 2 ? Conv<bool>::calls == 1 && Conv<bool>::text == t && *v == Conv<bool>::value : *v == ON, "the flag has the value of its action, or the one given"); given_back(p, argv, argv + 2, how == 3); stop(); }
CASE(w_true) { flag<true>(); } CASE(w_false) { flag<false>(); }
CASE(w_flag_store) { start(); OptionParser p; p.add_option("-f", "--flag").action(Action::Store).type(Type::Bool).dest("F"); const char* argv[] = {"prog", "--flag", nullptr}; ValueStore s = p.parse_args(2, argv); auto v = s.get<bool>("F");
    vp_check(v.has_value(), "the flag is stored"); if (v.has_value()) vp_check(!*v, "a flag that is stored without a value is false"); stop(); }
CASE(w_blank) { start(); OptionParser p; p.add_option("-n").action(Action::Store).type(Type::Int).dest("N"); const char* argv[] = {"prog", "-n", "", nullptr}; ValueStore s = p.parse_args(3, argv); auto v = s.get<int>("N");
    vp_check(v.has_value(), "the value is stored"); if (v.has_value()) vp_check(*v == 0, "an empty number is zero"); stop(); }
CASE(w_count) { start(); OptionParser p; p.add_option("-c", "--count").action(Action::Count).type(Type::Bool).dest("C"); p.add_option("-s").action(Action::Store).dest("S"); std::size_t n = vp_size(0, 3, "n"); const char* w = word('-', 1);
    const char* argv[] = {"prog", n > 0 ? "-c" : "-x", n > 1 ? "--count" : "-x", "-s", w, n > 2 ? "-c" : "-x", nullptr}; ValueStore s = p.parse_args(6, argv); auto v = s.get<int>("C");
    vp_check(v.has_value() == (n > 0), "the count is that of the occurrences"); if (v.has_value()) vp_check(*v == static_cast<int>(n), "the count is that of the occurrences"); vp_check(is(s.get<std::string>("S"), w), "the other option is not disturbed"); stop(); }
CASE(w_list_int) { start(); OptionParser p; p.add_option("-l").action(Action::Append).type(Type::Int).dest("L"); const char *a = text(1), *b = word('-', 1); vp_assume(!has(a, ',') && !has(b, ','));
    const char* argv[] = {"prog", joined("-l=", a), b, nullptr}; ValueStore s = p.parse_args(3, argv); auto v = s.get_list<int>("L"); vp_check(v.has_value() && v->size() == 2, "the list holds every value given");
    vp_check(Conv<int>::calls == 2 && Conv<int>::text == b, "the texts given are converted"); if (v.has_value() && v->size() == 2) vp_check((*v)[1] == Conv<int>::value, "the list holds the values in their order"); given_back(p, argv, nullptr, 0); stop(); }
static const char* item(std::size_t lo = 1) { const char* t = text(lo); std::size_t n = std::strlen(t); vp_assume(!has(t, ',')); std::string_view ws(" \t\n\r\f\v");
    vp_assume(std::memchr(ws.data(), t[0], ws.size()) == nullptr && std::memchr(ws.data(), t[n - 1], ws.size()) == nullptr); return t; }
static void commas(const char* a, const char* sep, const char* b) { OptionParser p; p.add_option("-l").action(Action::Append).dest("L"); const char* argv[] = {"prog", joined(joined(joined("-l=", a), sep), b), nullptr}; ValueStore s = p.parse_args(2, argv);
    auto v = s.get_list<std::string>("L"); vp_check(v.has_value() && v->size() == 2, "a list is split at its commas"); if (v.has_value() && v->size() == 2) vp_check((*v)[0] == a && (*v)[1] == b, "a list is split at its commas"); given_back(p, argv, nullptr, 0); }
CASE(w_comma) { start(); commas(item(), ",", item()); stop(); } CASE(w_comma_blank) { start(); commas(item(), " , ", item()); stop(); }
#define BLANK(N, T) CASE(w_comma_blank_##N) { start(); commas(item(), T "," T, item()); stop(); }
BLANK(tab, "\t") BLANK(nl, "\n") BLANK(cr, "\r") BLANK(ff, "\f") BLANK(vt, "\v") BLANK(two, " \t")
CASE(w_comma_last) { start(); const char *a = item(), *b = item(); OptionParser p; p.add_option("-l").action(Action::Append).dest("L"); bool front = vp_bool(); const char* argv[] = {"prog", front ? joined("-l=,", a) : joined(joined("-l=", a), ","), b, nullptr}; ValueStore s = p.parse_args(2, argv);
    auto v = s.get_list<std::string>("L"); vp_check(v.has_value() && v->size() == 1, "a list is split at its commas"); if (v.has_value() && v->size() == 1) vp_check((*v)[0] == a, "a list is split at its commas"); given_back(p, argv, nullptr, 0); stop(); }
CASE(w_comma_empty) { start(); commas(item(), ",,", item()); stop(); }
CASE(w_missing) { start(); OptionParser p; three(p); const char* argv[] = {"prog", nullptr}; ValueStore s = p.parse_args(1, argv); three_is(s, 3, ""); vp_check(!s.get_list("A").has_value() && !s.get_list<std::string>("A").has_value(), "an option that was not given has no value"); given_back(p, argv, nullptr, 0); stop(); }
CASE(w_store) { start(); ValueStore s; int a = vp_i32(), b = vp_i32(); s.set("k", a); s.set("j", std::string("t")); s.set("k", b); s.append("l", a); s.append("l", {b, a}); s.append("m", {a}); s.increment("c"); s.increment("c");
    vp_check(*s.get<int>("k") == b && *s.get<std::string>("j") == "t" && *s.get<int>("c") == 2, "the store returns what was stored last"); auto l = s.get_list<int>("l"); vp_check(l.has_value() && l->size() == 3, "the store returns the whole list");
    if (l.has_value() && l->size() == 3) vp_check((*l)[0] == a && (*l)[1] == b && (*l)[2] == a, "the store returns the whole list"); vp_check(s.get_list<int>("m")->size() == 1 && !s.get_list("k").has_value() && !s.get<int>("l").has_value(), "the store returns nothing for other keys");
    vp_check(s.user_set("k") && s.user_set("l") && s.user_set("m") && s.user_set("c") && !s.user_set("x"), "the store knows which keys were set"); stop(); }
// ---- defaults, environment, histories
static void defaults(bool given, bool other) { start(); OptionParser p; const char *d = text(1), *w = word('-', 1); p.add_option("-s", "--str").action(Action::Store).dest("S").default_value(d); p.add_option("-t").action(Action::Store).dest("T");
    const char* argv[] = {"prog", given ? "-s" : "-t", w, other ? "-t" : nullptr, w, nullptr}; ValueStore s = p.parse_args(other ? 5 : 3, argv); vp_check(is(s.get<std::string>("S"), given ? w : d), "the default is used exactly when the option was not given");
    vp_check(given && !other ? !s.get<std::string>("T").has_value() : is(s.get<std::string>("T"), w), "the default concerns its own option only"); stop(); }
CASE(d_default) { defaults(false, false); } CASE(d_given) { defaults(true, false); } CASE(d_given_other) { defaults(true, true); }
CASE(d_default_none) { start(); OptionParser p; three(p); p.add_option("-d").action(Action::Store).dest("D").default_value(""); const char* argv[] = {"prog", nullptr}; ValueStore s = p.parse_args(1, argv); vp_check(!s.get<std::string>("D").has_value(), "an empty default is none"); three_is(s, 3, ""); stop(); }
CASE(d_default_int) { start(); OptionParser p; bool given = vp_bool(); p.add_option("-n").action(Action::Store).type(Type::Int).dest("N").default_value(7); const char* argv[] = {"prog", "-n=12", nullptr}; ValueStore s = p.parse_args(given ? 2 : 1, argv); auto v = s.get<int>("N");
    vp_check(v.has_value() && *v == Conv<int>::value && Conv<int>::calls == 1 && Conv<int>::text == (given ? "12" : "7"), "the default is used exactly when the option was not given"); stop(); }
CASE(d_default_flag) { start(); OptionParser p; bool given = vp_bool(); p.add_option("-f").action(Action::StoreTrue).type(Type::Bool).dest("F").default_value("0"); const char* argv[] = {"prog", "-f", nullptr}; ValueStore s = p.parse_args(given ? 2 : 1, argv); auto v = s.get<bool>("F");
    vp_check(v.has_value() && (given ? *v && Conv<bool>::calls == 0 : *v == Conv<bool>::value && Conv<bool>::text == "0"), "the default is used exactly when the option was not given"); stop(); }
CASE(d_default_list) { start(); OptionParser p; bool given = vp_bool(); const char *d = text(1), *w = text(1); vp_assume(!has(d, ',') && !has(w, ',')); p.add_option("-l").action(Action::Append).dest("L").default_value(d); const char* argv[] = {"prog", joined("-l=", w), nullptr};
    ValueStore s = p.parse_args(given ? 2 : 1, argv); auto v = s.get_list<std::string>("L"); vp_check(v.has_value() && v->size() == 1 && (*v)[0] == (given ? w : d), "the default is used exactly when the option was not given"); stop(); }
CASE(d_default_choice) { start(); OptionParser p; const char* d = text(1); p.add_option("-m").action(Action::Store).choices({"a", "bc"}).dest("M").default_value(d); const char* argv[] = {"prog", nullptr}; ValueStore s = p.parse_args(1, argv); auto v = s.get<std::string>("M");
    vp_check(same(d, "a") || same(d, "bc") ? is(v, d) : !v.has_value(), "only listed choices are accepted"); stop(); }
CASE(d_default_count) { start(); OptionParser p; p.add_option("-c").action(Action::Count).type(Type::Bool).dest("C").default_value("0"); const char* argv[] = {"prog", "-c", "-c", nullptr}; ValueStore s = p.parse_args(3, argv); auto v = s.get<int>("C");
    vp_check(v.has_value() && *v == 2, "the default is used exactly when the option was not given"); stop(); }
CASE(d_env_rest) { start(); OptionParser p; const char *e = text(1), *w = word('-', 1); env_name = "VAR"; env_text = e; p.add_option("-s", "--str").action(Action::Store).dest("S").env("VAR"); p.add_option("-t").action(Action::Store).dest("T").default_value("d").env("UNSET");
    const char* argv[] = {"prog", w, "-x", nullptr}; ValueStore s = p.parse_args(3, argv); vp_check(is(s.get<std::string>("S"), e), "the environment is used exactly when the option was not given"); vp_check(is(s.get<std::string>("T"), "d"), "the default is used exactly when the option was not given"); given_back(p, argv, argv + 1, 2); stop(); }
static void environment(bool given) { start(); OptionParser p; const char *e = text(1), *w = word('-', 1); bool set = vp_bool(); env_name = set ? "VAR" : "OTHER"; env_text = e; p.add_option("-s", "--str").action(Action::Store).dest("S").env("VAR"); p.add_option("-t").action(Action::Store).dest("T");
    const char* argv[] = {"prog", given ? "-s" : "-t", w, nullptr}; ValueStore s = p.parse_args(3, argv); auto v = s.get<std::string>("S"); vp_check(given ? is(v, w) : set ? is(v, e) : !v.has_value(), "the environment is used exactly when the option was not given");
    vp_check(given ? !s.get<std::string>("T").has_value() : is(s.get<std::string>("T"), w), "the environment concerns its own option only"); stop(); }
CASE(d_env) { environment(false); } CASE(d_env_given) { environment(true); }
CASE(d_env_int) { start(); OptionParser p; const char* e = text(1); env_name = "N"; env_text = e; p.add_option("-n").action(Action::Store).type(Type::Int).dest("N").env("N"); const char* argv[] = {"prog", nullptr}; ValueStore s = p.parse_args(1, argv); auto v = s.get<int>("N");
    vp_check(v.has_value() && Conv<int>::calls == 1 && Conv<int>::text == e && *v == Conv<int>::value, "the environment is used exactly when the option was not given"); stop(); }
CASE(h_again) { start(); OptionParser p; three(p); const char *w = word('-', 1), *x = word('-', 1); const char *argv[] = {"prog", x, "-a", w, nullptr}, *argv2[] = {"prog2", "--beta", x, "-y", nullptr};
    { ValueStore s = p.parse_args(4, argv); three_is(s, 0, w); given_back(p, argv, &x, 1); } { ValueStore s = p.parse_args(4, argv2); three_is(s, 1, x); const char* y = argv2[3]; given_back(p, argv2, &y, 1); } stop(); }
CASE(h_moved) { start(); alignas(OptionParser) unsigned char m[sizeof(OptionParser)]; auto* q = new (m) OptionParser('+'); q->add_option("+s", "++str").action(Action::Store); OptionParser p(std::move(*q)); q->~OptionParser(); std::memset(m, 0x55, sizeof m);
    const char* w = word('+', 1); const char* argv[] = {"prog", "+s", w, nullptr}; ValueStore s = p.parse_args(3, argv); vp_check(is(s.get<std::string>("str"), w), "a parser that was moved works as before"); given_back(p, argv, nullptr, 0); stop(); }
CASE(h_copied) { start(); alignas(OptionParser) unsigned char m[sizeof(OptionParser)]; auto* q = new (m) OptionParser('+'); q->add_option("+s", "++str").action(Action::Store); OptionParser p(*q); q->~OptionParser(); std::memset(m, 0x55, sizeof m);
    const char* w = word('+', 1); const char* argv[] = {"prog", "+s", w, nullptr}; ValueStore s = p.parse_args(3, argv); vp_check(is(s.get<std::string>("str"), w), "a copy of a parser works as the parser"); given_back(p, argv, nullptr, 0); stop(); }
CASE(h_program) { start(); OptionParser p; three(p); bool set = vp_bool(); const char *n = text(1), *a = text(1); if (set) p.program(n); bool more = vp_bool(); const char* argv[] = {a, "-x", nullptr}; { ValueStore s = p.parse_args(more ? 2 : 1, argv); } vp_check(p.program() == (set ? n : a), "the program is named by the caller, or by the command line"); stop(); }
CASE(h_version) { start(); OptionParser p; three(p); const char *v = text(1); bool twice = vp_bool(); if (twice) p.add_version_option(v); else p.version(v); p.program("prog").usage(v); const char* argv[] = {"other", nullptr}; { ValueStore s = p.parse_args(1, argv); }
    vp_check(p.version() == v && p.usage() == v && p.program() == "prog", "texts that were set are kept by parsing"); stop(); }
CASE(h_noargs) { start(); OptionParser p; three(p); const char* argv[] = {nullptr}; bool threw = false; try { p.parse_args(0, argv); } catch (const std::logic_error&) { threw = true; } vp_check(threw, "a command line without program is refused"); stop(); }

// ---- texts for the user
extern "C" int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static const char* note() { return text(0); }
static void shown(OptionParser& p) { p.add_option("-s", "--str").action(Action::Store).type(Type::String).dest("S"); p.add_option("--flag").action(Action::StoreTrue).type(Type::Bool).dest("flag"); p.add_option({"-n", "-nn", "--num"}).action(Action::Store).type(Type::Int); }
static void ends() { std::string().swap(fmt::vp_printed); stop(); }
CASE(u_usage) { start(); OptionParser p; const char* n = text(1); p.program(n); shown(p); std::string u = p.format_usage(); vp_check(u == joined(joined("usage: ", n), " [-s] [--flag FLAG] [-n]\n"), "the usage names the program and every option"); vp_check(p.format_usage() == u, "the usage stays the same"); ends(); }
CASE(u_usage_parsed) { start(); OptionParser p; const char* n = text(1); shown(p); const char* argv[] = {n, nullptr}; ValueStore s = p.parse_args(1, argv); vp_check(p.format_usage() == joined(joined("usage: ", n), " [-s] [--flag FLAG] [-n] [-u USAGE] [-h HELP] [-v VERSION]\n"), "the usage names the program and every option"); ends(); }
CASE(u_usage_set) { start(); OptionParser p; const char* n = text(1); p.usage(n); shown(p); vp_check(p.format_usage() == n && p.usage() == n, "a usage that was set is shown"); p.print_usage(); vp_check(fmt::vp_printed == n, "what is printed is the text"); ends(); }
CASE(u_version) { start(); OptionParser p; const char *n = text(1), *v = text(1); bool set = vp_bool(); p.program(n); if (set) p.version(v); vp_check(p.format_verison() == (set ? v : joined(n, " : 0.0.0")), "the version that was set is shown"); p.print_version(); vp_check(fmt::vp_printed == (set ? v : joined(n, " : 0.0.0")), "what is printed is the text"); ends(); }
CASE(u_help) { start(); OptionParser p; const char *a = note(), *b = note(); p.usage("U"); p.add_option("-s", "--str").action(Action::Store).type(Type::String).dest("S").help(a); p.add_option("--flag").action(Action::StoreTrue).type(Type::Bool).help(b);
    std::string h = p.format_help(); vp_check(h == joined(joined("U \n options: \n  -s, --str=<string> ", a), joined(joined("\n  --flag=<bool>      ", b), "\n")), "the help shows names, type and text of every option"); ends(); }
CASE(u_help_long) { start(); OptionParser p; const char* a = note(); p.usage("U"); p.add_option("-i").action(Action::Store).type(Type::Int).dest("I"); p.add_option({"-d", "-dd", "--double", "--dbl"}).action(Action::Store).type(Type::Double).help(a); p.add_option("-m").choices({"x", "y"}).action(Action::Store).dest("M");
    std::string h = p.format_help(); vp_check(h == joined(joined("U \n options: \n  -i=<int>                          \n  -d, -dd, --double, --dbl=<double> ", a), "\n  -m=<choice>                       \n"), "the help shows names, type and text of every option"); ends(); }
CASE(u_help_types) { start(); OptionParser p; const char* a = note(); p.usage("U"); p.add_option("-l").action(Action::Store).type(Type::Long).dest("L"); p.add_option("-f").action(Action::Store).type(Type::Float).dest("F").help(a);
    p.print_help(); vp_check(fmt::vp_printed == joined(joined("U \n options: \n  -l=<long>  \n  -f=<float> ", a), "\n"), "the help shows names, type and text of every option"); ends(); }
CASE(u_help_parsed) { start(); OptionParser p; const char *n = text(1), *a = note(); bool own = vp_bool(); p.usage("U"); if (own) p.add_help_option(a); const char* argv[] = {n, nullptr}; ValueStore s = p.parse_args(1, argv); std::string h = p.format_help();
    const char *us = joined(joined("\n  -u, --usage=<bool>   show usage of the ", n), ""), *vs = joined(joined("\n  -v, --version=<bool> show version of the ", n), "\n");
    const char* hs = own && a[0] != 0 ? a : own ? "show the help of the " : joined("show the help of the ", n);
    vp_check(own ? h == joined(joined("U \n options: \n  -h, --help=<bool>    ", hs), joined(us, vs)) : h == joined(joined("U \n options: ", us), joined(joined("\n  -h, --help=<bool>    ", hs), vs)), "the help shows names, type and text of every option"); ends(); }
CASE(u_help_none) { start(); OptionParser p; const char* n = text(1); p.usage(n); vp_check(p.format_help() == joined(n, " \n options: \n"), "the help of a parser without options shows the usage"); ends(); }
