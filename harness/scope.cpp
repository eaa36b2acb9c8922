// K03: a sentry runs its function once at scope exit; throw_ex throws once, with the streamed text
#include "tracked.hpp"
#include <itlib/sentry.hpp>
#include <itlib/sentry.hpp>
#include <itlib/throw_ex.hpp>
#include <itlib/throw_ex.hpp>
using namespace mc;
#if __cplusplus >= 201700
#define CTAD 1
#else
#define CTAD 0
#endif
// ---------------------------------------------------------------- sentry: all scope programs up to a depth and size
static std::array<int, 64> lg; static int nlog; static void note(int v) { if (nlog == 64) fail("harness error: log"); lg[size_t(nlog++)] = v; }
static int fp_id; static void free_fn() { note(fp_id); }
struct Fn : Tracked { using Tracked::Tracked; void operator()() { note(get()); } };
struct CFn : TrackedBase<8, 50> { using TrackedBase<8, 50>::TrackedBase; void operator()() const { note(get()); } };
struct MFn : MoveOnly { using MoveOnly::MoveOnly; MFn(MFn&&) = default; int operator()() { note(get()); return 3; } };
struct Stop { int at; };
static int budget, serial, maxdepth; 
enum { FALL, RETURN, THROW, BREAK, CONTINUE, GOTO, NEST, NEST_CAUGHT, NKINDS };
static int scope(int depth);
// events: 1000+id entered, id: sentry ran, 2000+id: after the scope
#define SCOPE_BODY(DECL) \
    for (int round = 0; round < 2; ++round) { \
        if (round == 1) break; \
        { DECL; note(1000 + id); \
          if (kind == RETURN) return 7; if (kind == THROW) throw Stop{id}; if (kind == BREAK) break; if (kind == CONTINUE) continue; if (kind == GOTO) goto out; \
          if (kind == NEST) { int r = scope(depth + 1); if (r) return r; } \
          if (kind == NEST_CAUGHT) { try { scope(depth + 1); } catch (Stop&) { note(5000 + id); } } \
        } \
        note(2000 + id); \
    } \
    break
static int scope(int depth) {
    int id = ++serial; --budget; int how = choose(CTAD ? 10 : 7), kind = choose(depth < maxdepth && budget > 0 ? NKINDS : NEST);
    switch (how) {
    case 0: SCOPE_BODY(auto s = itlib::make_sentry([id] { note(id); }));
    case 1: SCOPE_BODY(Fn f(id); auto s = itlib::make_sentry(f));
    case 2: SCOPE_BODY(auto s = itlib::make_sentry(MFn(id)));
    case 3: SCOPE_BODY(fp_id = id; auto s = itlib::make_sentry(free_fn); auto t = itlib::make_sentry([id] { fp_id = id; }));
    case 4: SCOPE_BODY(const CFn f(id); auto s = itlib::make_sentry(f));
    case 5: SCOPE_BODY(itlib::sentry<std::function<void()>> s([id] { note(id); }));
    case 6: SCOPE_BODY(auto h = std::unique_ptr<itlib::sentry<Fn>>(new itlib::sentry<Fn>(Fn(id))));
#if CTAD
    case 7: SCOPE_BODY(itlib::sentry s([id] { note(id); }));
    case 8: SCOPE_BODY(itlib::sentry s{CFn(id)});
    case 9: SCOPE_BODY(std::optional<itlib::sentry<MFn>> s; s.emplace(MFn(id)));
#endif
    }
    note(3000 + id);
out:
    note(4000 + id);
    return 0;
}
// the same program over a reference stack: what must be logged
struct Ref {
    std::vector<Op> trail; size_t pos = 0; int serial = 0, budget, maxdepth; std::vector<int> log;
    int next() { return trail[pos++].code; }
    // result: 0 fell through, 7 returned, -id threw
    int scope(int depth) {
        int id = ++serial; --budget; next(); int kind = next(); log.push_back(1000 + id); int r = 0; bool out = false, after = false;
        switch (kind) {
        case FALL: after = true; break; case RETURN: r = 7; break; case THROW: r = -id; break; case BREAK: case CONTINUE: break; case GOTO: out = true; break;
        case NEST: r = scope(depth + 1); after = r == 0; break;
        case NEST_CAUGHT: r = scope(depth + 1); if (r < 0) log.push_back(5000 + id); r = 0; after = true; break;
        }
        log.push_back(id); if (r) return r; if (after) log.push_back(2000 + id); if (!out) log.push_back(3000 + id); log.push_back(4000 + id); return 0;
    }
};
static void sentries() {
    reg.clear(); throw_in = 0; nlog = 0; serial = 0; budget = maxdepth; int result; try { result = scope(1); } catch (Stop& s) { result = -s.at; }
    Quiet q; Ref r; r.trail = cur_choice->trail; r.budget = r.maxdepth = maxdepth; int e = r.scope(1); if (e != result) fail("the program ended with %d, expected %d", result, e);
    for (int i = 0; i < std::max(nlog, int(r.log.size())); ++i) if (i >= nlog || i >= int(r.log.size()) || lg[size_t(i)] != r.log[size_t(i)]) fail("event %d is %d, expected %d", i, i < nlog ? lg[size_t(i)] : -1, i < int(r.log.size()) ? r.log[size_t(i)] : -1);
    if (reg.live) fail("%zu functions are still alive", reg.live); outcome(nlog * 10 + result);
}
// several sentries in one scope run in reverse order of creation, each function object is called while alive and then destroyed
static void several() {
    reg.clear(); nlog = 0; int n = choose(5), exit_at = choose(n + 1), how = choose(3); 
    try { auto run = [&]() -> int {
        if (exit_at == 0) { if (how == 1) return 1; if (how == 2) throw Stop{0}; }  auto a = itlib::make_sentry(Fn(1)); if (exit_at == 1) { if (how == 1) return 1; if (how == 2) throw Stop{1}; } 
        auto b = itlib::make_sentry(MFn(2)); if (exit_at == 2) { if (how == 1) return 1; if (how == 2) throw Stop{2}; } auto c = itlib::make_sentry([t = Fn(3)]() mutable { t(); }); if (exit_at == 3) { if (how == 1) return 1; if (how == 2) throw Stop{3}; } Fn four(4); itlib::sentry<Fn&> d(four); if (exit_at == 4) { if (how == 1) return 1; if (how == 2) throw Stop{4}; } note(99); return 0; }; run(); } catch (Stop&) {}
    int k = how == 0 ? 4 : exit_at, i = 0; if (how == 0) { if (nlog < 1 || lg[0] != 99) fail("a sentry ran before the end of its scope"); i = 1; } for (; k > 0; --k, ++i) if (i >= nlog || lg[size_t(i)] != k) fail("sentry %d did not run in its turn", k); if (i != nlog) fail("a sentry ran twice or without being created"); if (reg.live) fail("%zu functions are still alive", reg.live); outcome(n * 100 + exit_at * 10 + how);
}
#if !CTAD
// moving transfers the duty
static void moved() {
    reg.clear(); nlog = 0; typedef itlib::sentry<Fn> S; int live = 0; 
    { std::unique_ptr<S> p[3]; bool duty[3] = {true, false, false}; p[0].reset(new S(Fn(1))); int steps = choose(thorough ? 8 : 5); for (int i = 0; i < steps; ++i) { int op = choose(9), a = op % 3; if (op < 6) { int b = (a + 1 + op / 3) % 3; if (p[a]) { auto* s = new S(std::move(*p[a])); bool had = duty[a], ran = duty[b]; duty[a] = false; int before = nlog; p[b].reset(s); if (nlog != before + (p[b] && ran ? 1 : 0)) fail("the replaced sentry ran %d times", nlog - before); duty[b] = had; } } else { int before = nlog; bool d = duty[a]; duty[a] = false; p[a].reset(); if (nlog != before + d) fail("destroying a sentry ran %d functions, expected %d", nlog - before, int(d)); } } live = duty[0] || duty[1] || duty[2]; int before = nlog; for (auto& x : p) x.reset(); if (nlog != before + live) fail("%d functions ran, expected %d", nlog - before, live); }
    if (nlog != 1 || lg[0] != 1) fail("the function ran %d times", nlog); if (reg.live) fail("functions leaked"); outcome(live);
}
static void factories() { nlog = 0; int n = choose(4); { std::vector<itlib::sentry<std::function<void()>>> v; { Quiet q; v.reserve(0); } for (int i = 0; i < n; ++i) { v.push_back(itlib::make_sentry(std::function<void()>([i] { note(i); }))); if (nlog) fail("growing a vector of sentries ran one"); } } std::vector<int> s(lg.begin(), lg.begin() + nlog); std::sort(s.begin(), s.end()); for (int i = 0; i < n; ++i) if (i >= int(s.size()) || s[size_t(i)] != i) fail("sentry %d", i); if (int(s.size()) != n) fail("too many calls"); outcome(n); }
#endif
// ---------------------------------------------------------------- throw_ex
struct Plain { std::string s; int copies = 0; explicit Plain(std::string x) : s(std::move(x)) {} };
struct Conv : std::exception { std::string s; Conv(const std::string& x) : s(x) {} const char* what() const noexcept override { return s.c_str(); } };
struct User { int v; friend std::ostream& operator<<(std::ostream& o, const User& u) { return o << "<" << std::setw(3) << u.v << ">"; } };
enum Color { RED, GREEN };
template <class O> static void item(O& o, int k) {
    static const char* const lit = "lit"; static char arr[] = "arr"; const std::string z("a\0b", 3); const User u{7};
    switch (k) {
    case 0: o << "x"; break; case 1: o << 42; break; case 2: o << -7L; break; case 3: o << 2.5; break; case 4: o << z; break; case 5: o << 'c'; break; case 6: o << std::hex; break; case 7: o << std::setw(6); break; case 8: o << std::setfill('*'); break; case 9: o << true; break; case 10: o << std::boolalpha; break;
    case 11: o << u; break; case 12: o << std::string(); break; case 13: o << lit; break; case 14: o << arr; break; case 15: o << static_cast<const void*>(nullptr); break; case 16: o << '\0'; break; case 17: o << GREEN; break; case 18: o << std::setprecision(2); break; case 19: o << std::string(300, 'y'); break; case 20: o << ""; break; case 21: o << std::left; break; case 22: o << static_cast<unsigned char>('u'); break; case 23: o << std::showbase; break; case 24: o << (unsigned long long)(-1); break;
    }
}
enum { NITEMS = 25 };
template <class E> static const std::string& msg(const E& e) { return e.s; }
static std::string msg(const std::runtime_error& e) { return e.what(); }
static std::string msg(const std::logic_error& e) { return e.what(); }
static std::string cut(const Plain&, const std::string& s) { return s; } static std::string cut(const Conv&, const std::string& s) { return s; } static std::string cut(const std::exception&, const std::string& s) { return std::string(s.c_str()); }
static int items[6], nitems; static bool after_throw;
template <class E> static void thrower(int form) {
    if (form == 0) { itlib::throw_ex<E> t; for (int i = 0; i < nitems; ++i) item(t, items[i]); return; }
    if (nitems == 0) { itlib::throw_ex<E>(); after_throw = true; return; }
    (itlib::throw_ex<E>() << "" << std::string()) << [] { return ""; }(); after_throw = true;
}
template <class E> static void once(int form) {
    std::ostringstream ref; if (form == 0) for (int i = 0; i < nitems; ++i) item(ref, items[i]); const std::string want = ref.str(); int caught = 0; after_throw = false;
    try { thrower<E>(form); } catch (const E& e) { ++caught; static_assert(std::is_class<E>::value, ""); if (typeid(e) != typeid(E)) fail("another type was thrown"); if (msg(e) != cut(e, want)) fail("the message is \"%s\", expected \"%s\"", std::string(msg(e)).c_str(), want.c_str()); } catch (...) { fail("another type was thrown"); }
    if (caught != 1) fail("%d exceptions were caught", caught); if (after_throw) fail("the statement after throw_ex was reached"); 
}
template <class E> static void in_context(int ctx, int form) {
    switch (ctx) {
    case 0: once<E>(form); break;
    case 1: try { throw 5; } catch (int) { once<E>(form); } break;           // while handling another
    case 2: { struct D { int form; ~D() { once<E>(form); } }; try { D d{form}; throw 5; } catch (int) {} break; }      // while another is unwinding
    case 3: { struct D { int form; ~D() { once<E>(form); } }; try { throw 5; } catch (int) { try { D d{form}; throw std::string("x"); } catch (std::string&) {} } break; }
    case 4: { struct D { int form; ~D() { struct F { int form; ~F() { once<E>(form); } }; try { F f{form}; once<E>(form); throw 6; } catch (int) {} } }; try { D d{form}; throw 5; } catch (int) {} break; }     // two unwindings
    }
    if (std::current_exception()) fail("an exception is still being handled");
}
static void throws() {
    nitems = choose(thorough ? 6 : 4); for (int i = 0; i < nitems; ++i) items[i] = choose(NITEMS); int form = nitems == 0 ? choose(2) : 0;
    switch (choose(3)) { case 0: once<Plain>(form); break; case 1: once<std::runtime_error>(form); break; case 2: once<Conv>(form); break; } outcome(nitems);
}
static void contexts() { nitems = choose(3); for (int i = 0; i < nitems; ++i) items[i] = choose(NITEMS); int ctx = choose(5), form = choose(nitems ? 1 : 2); switch (choose(3)) { case 0: in_context<Plain>(ctx, form); break; case 1: in_context<std::logic_error>(ctx, form); break; case 2: in_context<Conv>(ctx, form); break; } outcome(ctx * 10 + form); }
// the single-expression form, with temporaries which must outlive the streaming and be gone when the exception arrives
static void expressions() {
    reg.clear(); int k = choose(8); std::string want, got; struct Guard { int* p; ~Guard() { ++*p; } }; int gone = 0; auto val = [&](int v) { Guard g{&gone}; return std::to_string(v); };
    try { switch (k) { 
        case 0: want = "a1b"; itlib::throw_ex<Plain>() << "a" << 1 << "b"; case 1: want = "5"; itlib::throw_ex<Plain>() << val(5); case 2: want = "x0x1f"; { auto h = std::string("x"); itlib::throw_ex<Plain>() << h << std::hex << std::showbase << 31; }
        case 3: want = ""; itlib::throw_ex<Plain>{}; case 4: want = "q"; { bool c = choose(2); if (c) itlib::throw_ex<Plain>() << "q"; else itlib::throw_ex<Plain>() << 'q'; }
        case 5: want = "nested inner"; itlib::throw_ex<Plain>() << "nested " << [] { try { itlib::throw_ex<Conv>() << "inner"; } catch (Conv& e) { return e.s; } return std::string("lost"); }();
        case 6: want = "t"; { Tracked t(1); itlib::throw_ex<Plain>() << "t"; } case 7: want = "s"; { auto s = itlib::make_sentry([&] { gone += 10; try { itlib::throw_ex<Conv>() << "in sentry"; } catch (Conv& e) { if (e.s != "in sentry") fail("message"); gone += 100; } }); itlib::throw_ex<Plain>() << "s"; } } fail("nothing was thrown"); }
    catch (Plain& p) { got = p.s; }
    if (got != want) fail("the message is \"%s\", expected \"%s\"", got.c_str(), want.c_str()); if (reg.live) fail("leak"); if (k == 1 && gone != 1) fail("temporary"); if (k == 7 && gone != 110) fail("the sentry of the scope did not finish"); outcome(k);
}
void mc_setup() {
    add("sentry_programs", [] { maxdepth = CTAD ? 3 : 4; if (thorough) ++maxdepth; explore_choices(sentries); }); add("several", [] { explore_choices(several); });
#if !CTAD
    add("moved", [] { explore_choices(moved); }); add("factories", [] { explore_choices(factories); });
#endif
    add("throw_ex", [] { explore_choices(throws); }); add("throw_ex_contexts", [] { explore_choices(contexts); }); add("throw_ex_expressions", [] { explore_choices(expressions); });
}
