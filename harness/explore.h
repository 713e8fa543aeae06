// Explores the thread schedules of a small scenario: every execution runs in a forked process under the controlled
// scheduler; the parent walks through all schedules with a bounded number of preemptions and spurious wake-ups
// (depth first), or samples them at random, and writes every distinct trace once.
#pragma once
#include "detsched.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
namespace ex
{
struct Shared
{
    int prefix_len, prefix[20000];
    int len, choice[20000], width[20000];
    int tlen, skip;
    char trace[1 << 20];
};
inline Shared* sh = nullptr;
// one event of the trace (JSON object)
inline void ev(const std::string& s)
{
    if (sh->tlen + (int)s.size() + 2 > (int)sizeof sh->trace) return;
    if (sh->tlen) sh->trace[sh->tlen++] = ',';
    memcpy(sh->trace + sh->tlen, s.data(), s.size());
    sh->tlen += (int)s.size();
}
// the environment got in the way (a port was taken): this execution does not count
[[noreturn]] inline void not_run()
{
    sh->tlen = 0;
    sh->skip = 1;
    _exit(0);
}
inline const void *watch_lo = nullptr, *watch_hi = nullptr;
inline const void *gone_lo = nullptr, *gone_hi = nullptr;
// memory accesses to the watched range are scheduling points; accesses to the range of an object that is gone are recorded
inline void access(const void* p)
{
    if (p >= gone_lo && p < gone_hi)
    {
        gone_lo = gone_hi = nullptr;
        ev("{\"e\":\"touch\"}");
    }
    if (p >= watch_lo && p < watch_hi) ds::point();
}
template <typename T>
inline void watch(const T& o)
{
    watch_lo = &o;
    watch_hi = (const char*)&o + sizeof(T);
}
struct Options
{
    long max = 20000;
    int preempt = 2, spurious = 0;
    bool random = false;
    unsigned seed = 1;
    double seconds = 60;
};
struct Result
{
    long executions = 0, distinct = 0;
    bool complete = false;
};
inline double now()
{
    timeval t;
    gettimeofday(&t, nullptr);
    return t.tv_sec + t.tv_usec * 1e-6;
}
template <typename Body>
Result explore(FILE* out, const std::string& head, const Options& o, Body body)
{
    if (!sh) sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Result r;
    std::unordered_set<std::string> seen;
    sh->prefix_len = 0;
    double t0 = now();
    for (;;)
    {
        sh->len = 0;
        sh->tlen = 0;
        sh->skip = 0;
        pid_t p = fork();
        if (p == 0)
        {
            alarm(20);
            ds::enable();
            ds::spurious_budget = o.spurious;
            int left = o.preempt;
            std::mt19937 rng(o.seed * 1000003u + (unsigned)r.executions);
            int period = 1 + rng() % 12;
            ds::choose = [&](const std::vector<int>& c, int cur) -> int {
                // the current thread first: going on with it costs nothing
                std::vector<int> v;
                bool here = false;
                for (int x : c)
                    if (x == cur && ds::runnable(x)) here = true;
                if (here) v.push_back(cur);
                for (int x : c)
                    if (!(here && x == cur)) v.push_back(x);
                if (o.random)
                {
                    if (here && rng() % period) return cur;
                    return v[rng() % v.size()];
                }
                if (here && left == 0) return cur;
                int k = 0;
                if (sh->len < sh->prefix_len) k = sh->prefix[sh->len];
                if (k >= (int)v.size()) k = 0;
                if (sh->len < 20000)
                {
                    sh->choice[sh->len] = k;
                    sh->width[sh->len] = (int)v.size();
                    sh->len++;
                }
                if (here && k > 0) --left;
                return v[k];
            };
            ds::on_deadlock = []() {
                ev("{\"e\":\"stuck\"}");
                _exit(0);
            };
            body();
            ev("{\"e\":\"end\"}");
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) ev("{\"e\":\"crash\"}");
        ++r.executions;
        std::string t(sh->trace, sh->tlen);
        if (!sh->skip && seen.insert(t).second)
            fprintf(out, "{%s,\"ev\":[%s]}\n", head.c_str(), t.c_str());
        if (r.executions >= o.max || now() - t0 > o.seconds) break;
        if (o.random) continue;
        // next schedule in depth-first order
        int n = sh->len;
        while (n > 0 && sh->choice[n - 1] + 1 >= sh->width[n - 1]) --n;
        if (n == 0)
        {
            r.complete = true;
            break;
        }
        memcpy(sh->prefix, sh->choice, sizeof(int) * n);
        sh->prefix[n - 1]++;
        sh->prefix_len = n;
    }
    r.distinct = (long)seen.size();
    fflush(out);
    return r;
}
} // namespace ex
