// Random programs of schedule / cancel / sleep on the real asio_service under explored schedules and virtual time.
// usage: timers OUT SEED RUNS SECONDS
#include "cornerstone.hxx"
#include "explore.h"
#include <thread>
using namespace cornerstone;
static const int64_t MS = 1000000;
static int64_t t0;
static std::string at() { return ",\"now\":" + std::to_string((ds::now_ns - t0) / 1000); } // microseconds
static std::string q(const char* e, int t, const std::string& more = "")
{
    return std::string("{\"e\":\"") + e + "\",\"t\":" + std::to_string(t) + at() + more + "}";
}
struct World
{
    std::unique_ptr<asio_service> svc;
    std::mutex lock; // as a server does, all calls for a task happen under a lock
    std::vector<ptr<delayed_task>> tasks;
    std::mt19937 rng;
    void sched(int t, int ms)
    {
        ex::ev(q("sched", t, ",\"d\":" + std::to_string(ms)));
        svc->schedule(tasks[t], ms);
        ex::ev(q("schedd", t));
    }
    void cancel(int t)
    {
        ex::ev(q("cancel", t));
        svc->cancel(tasks[t]);
        ex::ev(q("canceld", t));
    }
};
static World* w;
struct Task : delayed_task
{
    int id, again;
    Task(int i, int a) : id(i), again(a) {}
    void exec() override
    {
        ex::ev(q("run", id));
        if (again > 0 && w->rng() % 2)
        {
            std::lock_guard<std::mutex> g(w->lock);
            --again;
            w->sched(id, (int)(w->rng() % 30));
        }
        else if (again > 0 && w->rng() % 3 == 0 && w->tasks.size() > 1)
        {
            std::lock_guard<std::mutex> g(w->lock);
            --again;
            int o = (int)(w->rng() % w->tasks.size());
            if (w->rng() % 2) w->cancel(o);
            else w->sched(o, (int)(w->rng() % 30));
        }
    }
};
int main(int c, char** a)
{
    FILE* out = fopen(a[1], "w");
    unsigned seed = atoi(a[2]);
    long runs = atol(a[3]);
    double secs = atof(a[4]), start = ex::now();
    long n = 0, d = 0;
    for (long r = 0; r < runs && ex::now() - start < secs; ++r)
    {
        ex::Options o;
        o.random = true;
        o.max = 4;
        o.seed = seed * 7919 + (unsigned)r;
        std::mt19937 prog(seed * 100003u + (unsigned)r);
        auto res = ex::explore(out, "\"sc\":" + std::to_string(r), o, [&]() {
            ds::virtual_time = true;
            ds::nprocs = 2 + prog() % 2;
            ds::time_limit = ds::now_ns + 4000LL * 1000 * MS;
            t0 = ds::now_ns;
            World world;
            w = &world;
            world.rng.seed(prog());
            world.svc.reset(new asio_service());
            int nt = 1 + prog() % 3;
            for (int i = 0; i < nt; ++i) world.tasks.push_back(cs_new<Task>(i, (int)(prog() % 4)));
            bool wide = prog() % 3 == 0;
            int steps = 3 + prog() % 10;
            static const int delays[] = {0, 1, 5, 5, 10, 10, 20, 40, 100, 3000, 70000};
            for (int s = 0; s < steps; ++s)
            {
                int t = prog() % nt, k = prog() % 10;
                int dl = delays[prog() % (wide ? 11 : 8)];
                if (k < 4)
                {
                    std::lock_guard<std::mutex> g(world.lock);
                    world.sched(t, dl);
                }
                else if (k < 6)
                {
                    std::lock_guard<std::mutex> g(world.lock);
                    world.cancel(t);
                }
                else if (k < 7)
                {
                    std::lock_guard<std::mutex> g(world.lock);
                    world.cancel(t);
                    world.sched(t, dl);
                }
                else ds::sleep_ns((int64_t)delays[prog() % (wide ? 11 : 8)] * MS + (prog() % 3 == 0 ? 500000 : 0));
            }
            ds::sleep_ns(150000 * MS);
        });
        n += res.executions;
        d += res.distinct;
    }
    printf("executions %ld distinct %ld complete 0\n", n, d);
}
