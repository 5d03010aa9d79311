// a mutex and a condition variable given by the user of the container
#pragma once
#include <condition_variable>
#include <mutex>
struct GivenMutex {
    std::mutex m;
    void lock() { m.lock(); }
    bool try_lock() { return m.try_lock(); }
    void unlock() { m.unlock(); }
};
struct GivenCondition {
    std::condition_variable c;
    struct Held {
        std::unique_lock<std::mutex> l;
        explicit Held(std::unique_lock<GivenMutex>& g) : l(g.mutex()->m, std::adopt_lock) {}
        ~Held() { l.release(); }
    };
    void notify_one() { c.notify_one(); }
    void notify_all() { c.notify_all(); }
    void wait(std::unique_lock<GivenMutex>& g)
    {
        Held h(g);
        c.wait(h.l);
    }
    template<class P> void wait(std::unique_lock<GivenMutex>& g, P p)
    {
        Held h(g);
        c.wait(h.l, p);
    }
    template<class D> std::cv_status wait_for(std::unique_lock<GivenMutex>& g, const D& d)
    {
        Held h(g);
        return c.wait_for(h.l, d);
    }
    template<class D, class P> bool wait_for(std::unique_lock<GivenMutex>& g, const D& d, P p)
    {
        Held h(g);
        return c.wait_for(h.l, d, p);
    }
    template<class D> std::cv_status wait_until(std::unique_lock<GivenMutex>& g, const D& d)
    {
        Held h(g);
        return c.wait_until(h.l, d);
    }
    template<class D, class P> bool wait_until(std::unique_lock<GivenMutex>& g, const D& d, P p)
    {
        Held h(g);
        return c.wait_until(h.l, d, p);
    }
};
