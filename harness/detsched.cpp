#include "detsched.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <map>
#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/timerfd.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <algorithm>

namespace ds
{
std::function<void()> on_deadlock;
std::function<int(const std::vector<int>&, int)> choose;
std::function<int(int)> pick_waiter;
int spurious_budget = 0;
int io_wait_ms = 0;
int nprocs = 0;
int64_t time_limit = INT64_MAX - 1;
static int pick(std::vector<int>& c);
int64_t now_ns = 1700000000LL * 1000000000LL;
bool virtual_time = false;
uint32_t random_value = 12345;
uint64_t steps = 0;

struct Thr
{
    St st = St::ready;
    std::atomic<int> go{0};
    const void* obj = nullptr; // what it waits for
    bool timed = false, timedout = false;
    pthread_t real{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    int join_target = -1;
    int epfd = -1;            // St::poll
    int64_t until = 0;        // St::poll, St::sleep: virtual time
};
static bool on = false;
static std::deque<Thr*> thrs;
static thread_local int me = -1;
struct Mtx
{
    int owner = -1, depth = 0;
};
static std::map<const void*, Mtx> mtxs;
struct Rw
{
    int writer = -1;
    std::map<int, int> readers;
};
static std::map<const void*, Rw> rws;
static std::map<const void*, std::deque<int>> conds;

static void fwait(Thr* t)
{
    while (t->go.load() == 0)
        syscall(SYS_futex, reinterpret_cast<int*>(&t->go), FUTEX_WAIT, 0, nullptr, nullptr, 0);
    t->go.store(0);
}
static void fwake(Thr* t)
{
    t->go.store(1);
    syscall(SYS_futex, reinterpret_cast<int*>(&t->go), FUTEX_WAKE, 1, nullptr, nullptr, 0);
}
static void switch_to(int t)
{
    if (t == me)
        return;
    int self_ = me;
    fwake(thrs[t]);
    fwait(thrs[self_]);
}
bool enabled() { return on; }
int self() { return me; }
int thread_count() { return (int)thrs.size(); }
St state(int t) { return thrs[t]->st; }
bool waiting_cond(int t) { return thrs[t]->st == St::cond; }

static bool mtx_free(const void* m)
{
    auto it = mtxs.find(m);
    return it == mtxs.end() || it->second.owner < 0;
}
static bool rw_free(const void* m, bool wr, int who)
{
    auto it = rws.find(m);
    if (it == rws.end())
        return true;
    if (it->second.writer >= 0)
        return false;
    (void)who;
    return !wr || it->second.readers.empty();
}
static std::map<int, std::pair<const void*, int>> rwwait; // tid -> (lock, 1 write/0 read)
static bool io_ready(int fd, int ms)
{
    pollfd p{fd, POLLIN, 0};
    return ::poll(&p, 1, ms) > 0;
}
bool runnable(int t)
{
    Thr* x = thrs[t];
    switch (x->st)
    {
        case St::ready:
            return true;
        case St::mutex:
        {
            auto it = rwwait.find(t);
            if (it != rwwait.end())
                return rw_free(it->second.first, it->second.second != 0, t);
            return mtx_free(x->obj);
        }
        case St::join:
            return thrs[x->join_target]->st == St::done;
        case St::poll:
            return now_ns >= x->until || io_ready(x->epfd, 0);
        case St::sleep:
            return now_ns >= x->until;
        default:
            return false;
    }
}
static void deadlock()
{
    // timed waits time out when nothing else can happen
    for (auto* t : thrs)
        if (t->st == St::cond && t->timed)
        {
            t->timedout = true;
            t->st = St::ready;
            for (auto& c : conds)
                for (auto it = c.second.begin(); it != c.second.end();)
                    it = (thrs[*it] == t) ? c.second.erase(it) : it + 1;
            return;
        }
    // what the kernel still works on, then the next moment something is due
    int64_t next = INT64_MAX;
    bool polls = false;
    for (auto* t : thrs)
        if (t->st == St::poll || t->st == St::sleep)
        {
            if (t->st == St::poll)
            {
                polls = true;
                if (io_wait_ms > 0 && io_ready(t->epfd, io_wait_ms))
                    return;
            }
            next = std::min(next, t->until);
        }
    if (next != INT64_MAX && next <= time_limit)
    {
        now_ns = std::max(now_ns, next);
        return;
    }
    if (on_deadlock)
        on_deadlock();
    fprintf(stderr, "detsched: deadlock\n");
    _exit(97);
}
// the next thread to run; threads that wait on a condition variable may be offered for a spurious wake-up
static int pick(std::vector<int>& c)
{
    if (spurious_budget > 0)
        for (int i = 0; i < (int)thrs.size(); ++i)
            if (thrs[i]->st == St::cond && !runnable(i))
                c.push_back(i);
    int t = c.size() == 1 ? c[0] : choose(c, me);
    if (!runnable(t))
    {
        --spurious_budget;
        spurious(t);
    }
    return t;
}
// current thread cannot go on until runnable(me): give control away
static void block_here()
{
    while (!runnable(me))
    {
        if (choose)
        {
            std::vector<int> c;
            for (int i = 0; i < (int)thrs.size(); ++i)
                if (runnable(i))
                    c.push_back(i);
            if (c.empty())
            {
                deadlock();
                continue;
            }
            ++steps;
            switch_to(pick(c));
        }
        else if (me != 0)
        {
            switch_to(0);
        }
        else
        {
            int n = -1;
            for (int i = 1; i < (int)thrs.size(); ++i)
                if (runnable(i))
                {
                    n = i;
                    break;
                }
            if (n < 0)
            {
                deadlock();
                continue;
            }
            ++steps;
            switch_to(n);
        }
    }
    thrs[me]->st = St::ready;
}
void point()
{
    if (!on || me < 0 || !choose)
        return;
    std::vector<int> c;
    for (int i = 0; i < (int)thrs.size(); ++i)
        if (runnable(i))
            c.push_back(i);
    ++steps;
    switch_to(pick(c));
}
bool run(int t)
{
    if (!runnable(t) || t == me)
        return false;
    ++steps;
    switch_to(t);
    return true;
}
void yield_back()
{
    if (me > 0 && !choose)
        switch_to(0);
}
void park_self()
{
    thrs[me]->st = St::parked;
    for (;;)
    {
        if (choose)
            block_here();
        else
            switch_to(0);
    }
}
void sleep_ns(int64_t n)
{
    thrs[me]->until = now_ns + n;
    thrs[me]->st = St::sleep;
    block_here();
}
void park(int t) { thrs[t]->st = St::parked; }
bool spurious(int t)
{
    Thr* x = thrs[t];
    if (x->st != St::cond)
        return false;
    auto& q = conds[x->obj];
    for (auto it = q.begin(); it != q.end(); ++it)
        if (*it == t)
        {
            q.erase(it);
            break;
        }
    x->st = St::ready;
    return true;
}
void enable()
{
    on = true;
    me = 0;
    thrs.push_back(new Thr);
    thrs[0]->real = pthread_self();
}

template <typename F>
static F real(const char* n)
{
    void* p = dlsym(RTLD_NEXT, n);
    if (!p)
    {
        fprintf(stderr, "detsched: no %s\n", n);
        abort();
    }
    return reinterpret_cast<F>(p);
}
static inline bool mine() { return on && me >= 0; }

static int lock_m(pthread_mutex_t* m, bool tryl)
{
    point();
    bool rec = m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP;
    Mtx& x = mtxs[m];
    if (x.owner == me && rec)
    {
        x.depth++;
        return 0;
    }
    if (tryl && x.owner >= 0)
        return EBUSY;
    if (x.owner >= 0)
    {
        do
        {
            thrs[me]->st = St::mutex;
            thrs[me]->obj = m;
            block_here();
        } while (mtxs[m].owner >= 0);
    }
    Mtx& y = mtxs[m];
    y.owner = me;
    y.depth = 1;
    return 0;
}
static bool unlock_m(pthread_mutex_t* m)
{
    auto it = mtxs.find(m);
    if (it == mtxs.end() || it->second.owner < 0)
        return false; // was locked before we took over
    if (--it->second.depth == 0)
        mtxs.erase(it);
    return true;
}
static int lock_rw(pthread_rwlock_t* l, bool wr, bool tryl)
{
    point();
    while (!rw_free(l, wr, me))
    {
        if (tryl)
            return EBUSY;
        rwwait[me] = {l, wr ? 1 : 0};
        thrs[me]->st = St::mutex;
        thrs[me]->obj = l;
        block_here();
        rwwait.erase(me);
    }
    if (wr)
        rws[l].writer = me;
    else
        rws[l].readers[me]++;
    return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    point();
    Mtx sv = mtxs[m];
    mtxs.erase(m);
    conds[c].push_back(me);
    thrs[me]->st = St::cond;
    thrs[me]->obj = c;
    thrs[me]->timed = timed;
    thrs[me]->timedout = false;
    block_here();
    bool to = thrs[me]->timedout;
    thrs[me]->timed = false;
    while (!mtx_free(m))
    {
        thrs[me]->st = St::mutex;
        thrs[me]->obj = m;
        block_here();
    }
    mtxs[m] = sv;
    mtxs[m].owner = me;
    return to ? ETIMEDOUT : 0;
}
static void cond_wake(pthread_cond_t* c, bool all)
{
    point();
    auto it = conds.find(c);
    if (it == conds.end())
        return;
    while (!it->second.empty())
    {
        int k = 0;
        if (!all && pick_waiter && it->second.size() > 1)
            k = pick_waiter((int)it->second.size());
        int t = it->second[k];
        it->second.erase(it->second.begin() + k);
        if (thrs[t]->st == St::cond)
            thrs[t]->st = St::ready;
        if (!all)
            break;
    }
}
static void* tramp(void* a)
{
    int id = (int)(intptr_t)a;
    me = id;
    fwait(thrs[id]);
    void* r = thrs[id]->fn(thrs[id]->arg);
    thrs[id]->st = St::done;
    // hand control on without waiting for it again
    int self_ = id;
    me = -1;
    if (choose)
    {
        for (;;)
        {
            std::vector<int> c;
            for (int i = 0; i < (int)thrs.size(); ++i)
                if (runnable(i))
                    c.push_back(i);
            if (c.empty())
            {
                me = self_;
                deadlock(); // or time goes on
                me = -1;
                continue;
            }
            fwake(thrs[c.size() == 1 ? c[0] : choose(c, self_)]);
            break;
        }
    }
    else
        fwake(thrs[0]);
    return r;
}
} // namespace ds

using namespace ds;
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    return mine() ? lock_m(m, false) : r(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    return mine() ? lock_m(m, true) : r(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (mine() && unlock_m(m))
    {
        point();
        return 0;
    }
    return r(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
    if (mine())
        mtxs.erase(m);
    return r(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
    return mine() ? lock_rw(l, false, false) : r(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
    return mine() ? lock_rw(l, true, false) : r(l);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
    return mine() ? lock_rw(l, false, true) : r(l);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
    return mine() ? lock_rw(l, true, true) : r(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
    if (!mine())
        return r(l);
    auto it = rws.find(l);
    if (it == rws.end())
        return r(l);
    if (it->second.writer == me)
        it->second.writer = -1;
    else
    {
        auto k = it->second.readers.find(me);
        if (k != it->second.readers.end() && --k->second == 0)
            it->second.readers.erase(k);
    }
    if (it->second.writer < 0 && it->second.readers.empty())
        rws.erase(it);
    point();
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    return mine() ? cond_wait(c, m, false) : r(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
    return mine() ? cond_wait(c, m, true) : r(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    static auto r =
        real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
    return mine() ? cond_wait(c, m, true) : r(c, m, k, ts);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
    if (!mine())
        return r(c);
    cond_wake(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    if (!mine())
        return r(c);
    cond_wake(c, true);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
    if (mine())
    {
        conds.erase(c);
        return 0;
    }
    return r(c);
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!mine())
        return r(t, a, fn, arg);
    Thr* x = new Thr;
    int id = (int)thrs.size();
    x->fn = fn;
    x->arg = arg;
    thrs.push_back(x);
    int rc = r(t, a, tramp, (void*)(intptr_t)id);
    x->real = *t;
    point();
    return rc;
}
int pthread_join(pthread_t t, void** ret)
{
    static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
    if (mine())
    {
        for (int i = (int)thrs.size() - 1; i >= 0; --i)
            if (pthread_equal(thrs[i]->real, t) && i != me && thrs[i]->fn)
            {
                if (thrs[i]->st != St::done)
                {
                    thrs[me]->st = St::join;
                    thrs[me]->join_target = i;
                    block_here();
                }
                break;
            }
    }
    return r(t, ret);
}
int timerfd_create(int clk, int fl) noexcept
{
    static auto r = real<int (*)(int, int)>("timerfd_create");
    if (on && virtual_time)
    {
        errno = ENOSYS;
        return -1;
    }
    return r(clk, fl);
}
int epoll_wait(int ep, struct epoll_event* ev, int n, int timeout)
{
    static auto r = real<int (*)(int, struct epoll_event*, int, int)>("epoll_wait");
    if (!mine() || !virtual_time || !choose)
        return r(ep, ev, n, timeout);
    point();
    int k = r(ep, ev, n, 0);
    if (k != 0 || timeout == 0)
        return k;
    thrs[me]->epfd = ep;
    thrs[me]->until = timeout < 0 ? INT64_MAX : now_ns + (int64_t)timeout * 1000000;
    thrs[me]->st = St::poll;
    block_here();
    return r(ep, ev, n, 0);
}
int get_nprocs()
{
    static auto r = real<int (*)()>("get_nprocs");
    return nprocs > 0 ? nprocs : r();
}
} // extern C

// ---- time and entropy
std::chrono::system_clock::time_point vsysnow() asm("_ZNSt6chrono3_V212system_clock3nowEv");
std::chrono::system_clock::time_point vsysnow()
{
    if (ds::virtual_time)
        return std::chrono::system_clock::time_point(std::chrono::nanoseconds(ds::now_ns));
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return std::chrono::system_clock::time_point(
        std::chrono::nanoseconds((int64_t)ts.tv_sec * 1000000000LL + ts.tv_nsec));
}
std::chrono::steady_clock::time_point vstdnow() asm("_ZNSt6chrono3_V212steady_clock3nowEv");
std::chrono::steady_clock::time_point vstdnow()
{
    if (ds::virtual_time)
        return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(ds::now_ns));
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return std::chrono::steady_clock::time_point(
        std::chrono::nanoseconds((int64_t)ts.tv_sec * 1000000000LL + ts.tv_nsec));
}
unsigned vrand(void*) asm("_ZNSt13random_device9_M_getvalEv");
unsigned vrand(void*)
{
    if (ds::virtual_time)
    {
        ds::random_value = ds::random_value * 1664525u + 1013904223u;
        return ds::random_value;
    }
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (unsigned)(ts.tv_nsec * 2654435761u) ^ (unsigned)getpid();
}
