import sys; sys.path.insert(0,'/tmp/seeds')
from common import *
T='#include <thread>\n#include <atomic>\n'
A='#include <itlib/atomic_shared_ptr_storage.hpp>\n'+C+T
s('asps-exchange-two-steps','C01',[('atomic_shared_ptr_storage.hpp','''        {
            asps_spinlock::lock_guard _l(m_spinlock);
            m_ptr.swap(ptr);
        }
#if''','''        auto cur = load();
        {
            asps_spinlock::lock_guard _l(m_spinlock);
            m_ptr = std::move(ptr);
        }
        ptr = std::move(cur);
#if''')],A+'''
int main() {
    const int N = 200000; static std::vector<std::atomic<int>> seen(2 * N);
    itlib::atomic_shared_ptr_storage<int> st;
    auto work = [&](int t) { for (int i = 0; i < N; ++i) { auto p = st.exchange(std::make_shared<int>(t * N + i)); if (p) ++seen[*p]; } };
    std::thread a(work, 0), b(work, 1); a.join(); b.join();
    if (auto p = st.load()) ++seen[*p];
    for (auto& s : seen) CHECK(s == 1);
}''','two threads exchange at the same time','one of the stored pointers is returned to nobody and another one to both threads',flags='-O2 -pthread')
s('asps-store-release-locked','C01',[('atomic_shared_ptr_storage.hpp','''        asps_spinlock::lock_guard _l(m_spinlock);
        m_ptr.swap(ptr);
    }

    sptr exchange''','''        asps_spinlock::lock_guard _l(m_spinlock);
        m_ptr = std::move(ptr);
    }

    sptr exchange''')],A+'''
int main() {
    itlib::atomic_shared_ptr_storage<int> st;
    st.store(std::shared_ptr<int>(new int(1), [&](int* p) { delete p; CHECK(*st.load() == 2); }));
    st.store(std::make_shared<int>(2));
}''','the deleter of a replaced object uses the same storage','store deadlocks, because the old object is destroyed under the spin lock',timeout=10,flags='-pthread')
s('asps-unlock-relaxed','C02',[('atomic_shared_ptr_storage.hpp','flag.clear(std::memory_order_release)','flag.clear(std::memory_order_relaxed)')],A+'''
int main() {
    itlib::atomic_shared_ptr_storage<int> st; 
    std::thread a([&] { for (int i = 0; i < 20000; ++i) { auto p = std::make_shared<int>(); *p = i; st.store(p); } });
    std::thread b([&] { for (int i = 0; i < 20000; ++i) { auto p = st.load(); if (p) CHECK(*p >= 0); } });
    a.join(); b.join();
}''','one thread stores and another one loads','nothing orders the accesses of the two threads',flags='-fsanitize=thread -pthread',cxx='clang++')
s('asps-lock-relaxed','C02',[('atomic_shared_ptr_storage.hpp','flag.test_and_set(std::memory_order_acquire)','flag.test_and_set(std::memory_order_relaxed)')],A+'''
int main() {
    itlib::atomic_shared_ptr_storage<int> st; 
    std::thread a([&] { for (int i = 0; i < 20000; ++i) { auto p = std::make_shared<int>(); *p = i; st.store(p); } });
    std::thread b([&] { for (int i = 0; i < 20000; ++i) { auto p = st.load(); if (p) CHECK(*p >= 0); } });
    a.join(); b.join();
}''','one thread stores and another one loads','nothing orders the accesses of the two threads',flags='-fsanitize=thread -pthread',cxx='clang++')
M='#include <itlib/mutex.hpp>\n'+C+T
s('mutex-inner-try','C03',[('mutex.hpp','''        std::lock_guard<std::mutex> l(m_mutex);
        auto tid''','''        std::unique_lock<std::mutex> l(m_mutex, std::try_to_lock);
        if (!l.owns_lock()) return false;
        auto tid''')],M+'''
int main() {
    itlib::strong_try_rec_mutex m; std::atomic<bool> go{false}, stop{false}; CHECK(m.try_lock());
    std::thread b([&] { go = true; while (!stop) CHECK(!m.try_lock()); });
    while (!go);
    bool ok = true; for (int i = 0; i < 3000000 && ok; ++i) { ok = m.try_lock(); if (ok) m.unlock(); }
    stop = true; b.join(); CHECK(ok);
}''','the owner locks recursively while another thread is just trying','try_lock of the owner fails spuriously',flags='-O2 -pthread')
s('mutex-fast-path','C03',[('mutex.hpp','''        std::lock_guard<std::mutex> l(m_mutex);
        auto tid = std::this_thread::get_id();
        if (m_owner''','''        auto tid = std::this_thread::get_id();
        if (m_owner == tid)
        {
            ++m_depth;
            return true;
        }
        std::lock_guard<std::mutex> l(m_mutex);
        if (m_owner''')],M+'''
int main() {
    itlib::strong_try_rec_mutex m; int n = 0;
    auto w = [&] { for (int i = 0; i < 20000; ++i) if (m.try_lock()) { CHECK(m.try_lock()); ++n; m.unlock(); m.unlock(); } };
    std::thread a(w), b(w); a.join(); b.join();
}''','a thread checks for ownership while another one takes or releases the mutex','the owner is read without synchronization (a data race)',flags='-fsanitize=thread -pthread',cxx='clang++')
s('mutex-depth-wraps','C03',[('mutex.hpp','''        --m_depth;
        if (m_depth == 0)''','''        m_depth -= m_depth > 2 ? 2 : 1;
        if (m_depth == 0)''')],M+'''
int main() {
    itlib::strong_try_rec_mutex m; for (int i = 0; i < 4; ++i) CHECK(m.try_lock());
    m.unlock(); m.unlock(); m.unlock();
    std::thread([&] { CHECK(!m.try_lock()); }).join();
    m.unlock();
    std::thread([&] { CHECK(m.try_lock()); m.unlock(); }).join();
}''','four nested locks','the mutex becomes free one unlock too early',flags='-pthread')
D='#include <itlib/data_mutex.hpp>\n'+C+T+'''
#include <shared_mutex>
struct Mx { int x = 0, s = 0; void lock() { CHECK(!x && !s); x = 1; } bool try_lock() { if (x || s) return false; x = 1; return true; } void unlock() { CHECK(x); x = 0; } void lock_shared() { CHECK(!x); ++s; } bool try_lock_shared() { if (x) return false; ++s; return true; } void unlock_shared() { CHECK(s); --s; } };
'''
s('dm-shared-unlock','C04',[('data_mutex.hpp','this->m_mutex.unlock_shared();','this->m_mutex.unlock();')],D+'''
int main() { itlib::data_mutex<int, Mx> d(5); { auto l = d.shared_lock(); CHECK(*l == 5); auto m = d.try_shared_lock(); CHECK(!!m); } { auto u = d.unique_lock(); *u = 3; } }''','a mutex type for which unlock and unlock_shared are not the same','shared locks are released as unique ones')
s('dm-move-keeps','C04',[('data_mutex.hpp','''        lock_base_t(lock_base_t&& o) noexcept : m_mutex(o.m_mutex), m_data(o.m_data) {
            o.m_data = nullptr;
        }''','''        lock_base_t(lock_base_t&& o) noexcept = default;''')],D+'''
int main() { itlib::data_mutex<int, Mx> d(5); auto l = d.unique_lock(); { auto m = std::move(l); CHECK(*m == 5); } { auto u = d.try_unique_lock(); CHECK(!!u); auto w = std::move(u); } }''','a lock which is moved explicitly','the moved-from lock unlocks once more')
s('dm-const-unique-shared','C04',[('data_mutex.hpp','''            if (this->m_mutex.try_lock()) this->m_data = &dm.m_data;
            else this->m_data = nullptr;
        }
        explicit operator bool() const noexcept { return !!this->m_data; }
    };

    class shared_lock_base_t''','''            while (!this->m_mutex.try_lock()) {
                if (!this->m_mutex.try_lock_shared()) return;
                this->m_mutex.unlock_shared();
            }
            this->m_data = &dm.m_data;
        }
        explicit operator bool() const noexcept { return !!this->m_data; }
    };

    class shared_lock_base_t''')],D+'''
int main() { itlib::data_mutex<int, Mx> d(5); auto l = d.shared_lock(); const auto& c = d; auto t = c.try_unique_lock(); CHECK(!t); }''','try_unique_lock on a const data_mutex which is locked shared','it waits for the shared owners instead of failing',timeout=10)
N='#include <itlib/atomic.hpp>\n'+C+T
s('counter-preinc-reload','C05',[('atomic.hpp','I operator++() noexcept { return a.fetch_add(1, rel) + 1; }','I operator++() noexcept { a.fetch_add(1, rel); return load(); }')],N+'''
int main() {
    const int N = 1000000; itlib::atomic_relaxed_counter<int> c(0); static std::vector<char> seen(2 * N + 1);
    std::vector<int> r[2]; auto w = [&](int t) { for (int i = 0; i < N; ++i) r[t].push_back(++c); };
    std::thread a(w, 0), b(w, 1); a.join(); b.join();
    for (auto& v : r) for (int x : v) { CHECK(!seen[x]); seen[x] = 1; }
}''','another thread changes the counter between the update and the read','the value returned is not that of the own update',flags='-O2 -pthread')
s('counter-sub-split','C05',[('atomic.hpp','I operator-=(I i) noexcept { return a.fetch_sub(i, rel) - i; }','I operator-=(I i) noexcept { I n = I(load() - i); store(n); return n; }')],N+'''
int main() {
    const int N = 1000000; itlib::atomic_relaxed_counter<int> c(0);
    auto w = [&] { for (int i = 0; i < N; ++i) c -= 2; };
    std::thread a(w), b(w); a.join(); b.join(); CHECK(c == -4 * N);
}''','two threads subtract at the same time','an update is lost',flags='-O2 -pthread')
