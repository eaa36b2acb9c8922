exec(open('/tmp/ref/base.py').read())
A='atomic_shared_ptr_storage.hpp'; C=['C01','C02']
r('asps-backoff',C,(A,'''        while (flag.test_and_set(std::memory_order_acquire)) /* spin */;''','''        for (;;) {
            if (!flag.test_and_set(std::memory_order_acquire)) return;
        }'''))
r('asps-bool',C,(A,'std::atomic_flag flag = ATOMIC_FLAG_INIT;','std::atomic<bool> flag{false};'),(A,'while (flag.test_and_set(std::memory_order_acquire)) /* spin */;','while (flag.exchange(true, std::memory_order_acquire)) { while (flag.load(std::memory_order_relaxed)) /* spin */; }'),(A,'flag.clear(std::memory_order_release);','flag.store(false, std::memory_order_release);'))
r('asps-cas',C,(A,'std::atomic_flag flag = ATOMIC_FLAG_INIT;','std::atomic<int> flag{0};'),(A,'while (flag.test_and_set(std::memory_order_acquire)) /* spin */;','int e = 0; while (!flag.compare_exchange_weak(e, 1, std::memory_order_acquire, std::memory_order_relaxed)) e = 0;'),(A,'flag.clear(std::memory_order_release);','flag.store(0, std::memory_order_release);'))
r('asps-seqcst',C,(A,'std::memory_order_acquire','std::memory_order_seq_cst'),(A,'std::memory_order_release','std::memory_order_seq_cst'))
r('asps-mutex',C,(A,'#include <atomic>','#include <atomic>\n#include <mutex>'),(A,'''    std::atomic_flag flag = ATOMIC_FLAG_INIT;
    void lock() noexcept {
        while (flag.test_and_set(std::memory_order_acquire)) /* spin */;
    }
    void unlock() noexcept {
        flag.clear(std::memory_order_release);
    }''','''    std::mutex m;
    void lock() noexcept { m.lock(); }
    void unlock() noexcept { m.unlock(); }'''))
r('asps-load-copy',C,(A,'''        asps_spinlock::lock_guard _l(m_spinlock);
        return m_ptr;''','''        sptr ret;
        {
            asps_spinlock::lock_guard _l(m_spinlock);
            ret = m_ptr;
        }
        return ret;'''))
r('asps-store-exchange',C,(A,'''        asps_spinlock::lock_guard _l(m_spinlock);
        m_ptr.swap(ptr);
    }

    sptr exchange''','''        exchange(std::move(ptr));
    }

    sptr exchange'''))
r('asps-ces-get',C,(A,'''            if (m_ptr == expect) {''','''            if (m_ptr.get() == expect.get()) {'''))
r('asps-ces-old',C,(A,'''            cur = m_ptr;
        }''','''            cur = m_ptr;
        }
        expect.swap(cur);
        if (true) return false;'''))
D='data_mutex.hpp'
r('dm-ternary',['C04'],(D,'''            if (this->m_mutex.try_lock()) this->m_data = &dm.m_data;
            else this->m_data = nullptr;''','''            this->m_data = this->m_mutex.try_lock() ? &dm.m_data : nullptr;'''),(D,'''            if (this->m_mutex.try_lock_shared()) this->m_data = &dm.m_data;
            else this->m_data = nullptr;''','''            if (!this->m_mutex.try_lock_shared()) return;
            this->m_data = &dm.m_data;'''))
r('dm-ptr',['C04'],(D,'        Mutex& m_mutex;\n','        Mutex* m_mutexp;\n'),(D,'lock_base_t(Mutex& mutex) : m_mutex(mutex), m_data(nullptr) {}','lock_base_t(Mutex& mutex) : m_mutexp(&mutex), m_data(nullptr) {}'),(D,': m_mutex(o.m_mutex), m_data(o.m_data)',': m_mutexp(o.m_mutexp), m_data(o.m_data)'),(D,'this->m_mutex.','this->m_mutexp->'))
r('dm-factory',['C04'],(D,'''        unique_lock_t x(*this);
        return x;''','''        return unique_lock_t(*this);'''))
r('dm-const',['C04'],(D,'''        return const_unique_lock_t(*this);''','''        const_unique_lock_t ret(*this);
        return ret;'''))
