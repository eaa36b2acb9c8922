from common import s,C
s('any-oom','A02',[('any.hpp','''        if (!ret) throw std::bad_alloc{};
''','''        if (!ret && n == 0) throw std::bad_alloc{};
''')],'#include <itlib/any.hpp>\n#include <sys/resource.h>\n#include <cstdio>\n#include <unistd.h>\n#include <new>\n'+C+'''
struct Big { char pad[size_t(256) << 20]; Big() {} };
int main() {
    itlib::any<> a(5);
    rlimit l; getrlimit(RLIMIT_AS, &l); l.rlim_cur = rlim_t(128) << 20; setrlimit(RLIMIT_AS, &l);
    bool threw = false; try { a.emplace<Big>(); } catch (std::bad_alloc&) { threw = true; }
    CHECK(threw); a = 6; CHECK(itlib::any_cast<int>(a) == 6);
}''','the process runs out of memory (default allocator)','the value is constructed at a null pointer',flags='-fno-sanitize=all')
