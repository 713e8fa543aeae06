// The real asio_service is stopped with timers, calls and listeners in flight, under explored schedules and virtual time.
// usage: stopsvc OUT DIR SEED RUNS SECONDS
#include "cornerstone.hxx"
#include "ports.h"
#include <thread>
using namespace cornerstone;
static const int64_t MS = 1000000;
static std::mt19937* srv_rng;
namespace cornerstone
{
ptr<resp_msg> raft_server::process_req(req_msg& r)
{
    if ((*srv_rng)() % 2) ds::sleep_ns((int64_t)((*srv_rng)() % 30) * MS);
    if ((*srv_rng)() % 4 == 0) throw std::runtime_error("as told");
    return cs_new<resp_msg>(r.get_term(), r.get_type(), 1, 2);
}
}
struct Quiet : logger
{
    void debug(const std::string&) override {}
    void info(const std::string&) override {}
    void warn(const std::string&) override {}
    void err(const std::string&) override {}
};
struct Task : delayed_task
{
    int ms;
    explicit Task(int m) : ms(m) {}
    void exec() override { if (ms) ds::sleep_ns((int64_t)ms * MS); }
};
int main(int c, char** a)
{
    signal(SIGPIPE, SIG_IGN);
    take_ports();
    FILE* out = fopen(a[1], "w");
    std::string file = std::string(a[2]) + "/log.txt";
    unsigned seed = atoi(a[3]);
    long runs = atol(a[4]);
    double secs = atof(a[5]), start = ex::now();
    long n = 0, d = 0;
    for (long r = 0; r < runs && ex::now() - start < secs; ++r)
    {
        ex::Options o;
        o.random = true;
        o.max = 3;
        o.seed = seed * 7919 + (unsigned)r;
        o.spurious = 1;
        std::mt19937 prog(seed * 100003u + (unsigned)r);
        int what = prog() % 16; // 1: logger, 2: timers, 4: listener and clients, 8: stop() by two threads
        auto res = ex::explore(out, "\"what\":" + std::to_string(what), o, [&]() {
            ds::virtual_time = true;
            ds::nprocs = 1 + prog() % 3;
            ds::io_wait_ms = what & 4 ? 2 : 0;
            ds::time_limit = ds::now_ns + 40000LL * 1000 * MS;
            std::mt19937 sr(prog());
            srv_rng = &sr;
            unlink(file.c_str());
            std::unique_ptr<asio_service> svc(new asio_service());
            ptr<logger> l = what & 1 ? svc->create_logger(asio_service::debug, file) : ptr<logger>(cs_new<Quiet>());
            ptr<logger> quiet = cs_new<Quiet>();
            std::vector<ptr<delayed_task>> ts;
            if (what & 2)
                for (int i = 0, k = 1 + prog() % 4; i < k; ++i)
                {
                    ts.push_back(cs_new<Task>((int)(prog() % 30)));
                    static const int dl[] = {0, 1, 10, 50, 1000, 600000};
                    svc->schedule(ts.back(), dl[prog() % 6]);
                    if (prog() % 4 == 0) svc->cancel(ts.back());
                }
            ptr<rpc_listener> lis;
            std::vector<ptr<rpc_client>> cli;
            if (what & 4)
            {
                int port = 0;
                close(bound_socket(port, n));
                try { lis = svc->create_rpc_listener((ushort)port, quiet); }
                catch (std::exception&) { ex::not_run(); }
                static char room[sizeof(raft_server)] __attribute__((aligned(64)));
                ptr<msg_handler> h((raft_server*)room, [](raft_server*) {});
                lis->listen(h);
                for (int i = 0, k = 1 + prog() % 2; i < k; ++i)
                {
                    cli.push_back(svc->create_client("tcp://127.0.0.1:" + std::to_string(port)));
                    for (int j = 0, m = 1 + prog() % 3; j < m; ++j)
                    {
                        ptr<req_msg> q(cs_new<req_msg>((ulong)1, msg_type::append_entries_request, 2, 1, (ulong)0, (ulong)0, (ulong)0));
                        rpc_handler done = [](ptr<resp_msg>&, const ptr<rpc_exception>&) {};
                        cli.back()->send(q, done);
                    }
                }
            }
            if (prog() % 3) ds::sleep_ns((int64_t)(prog() % 60) * MS);
            if (what & 1) l->info("a line");
            if (prog() % 4 == 0) ds::sleep_ns((int64_t)(prog() % 1500) * MS);
            ex::watch_lo = nullptr;
            std::thread other;
            if (what & 8)
                other = std::thread([&]() {
                    ex::ev("{\"e\":\"stop\"}");
                    svc->stop();
                    ex::ev("{\"e\":\"stopped\"}");
                });
            ex::ev("{\"e\":\"stop\"}");
            svc->stop();
            ex::ev("{\"e\":\"stopped\"}");
            if (other.joinable()) other.join();
            if (prog() % 3 == 0)
            {
                ex::ev("{\"e\":\"stop\"}");
                svc->stop();
                ex::ev("{\"e\":\"stopped\"}");
            }
            if (prog() % 2) ds::sleep_ns((int64_t)(prog() % 60) * MS);
            if (lis) lis->stop();
            lis.reset();
            cli.clear();
            if (prog() % 2)
                for (auto& t : ts) svc->cancel(t);
            if (prog() % 2) l.reset();
            // asio resolves names in a thread of its own, which ends with the service object
            bool keep = !(what & 4) && prog() % 2;
            if (!keep)
            {
                ts.clear();
                svc.reset();
            }
            ex::ev("{\"e\":\"drop\"}");
            ds::sleep_ns(1000LL * 1000 * MS);
            int alive = 0;
            for (int tries = 0; tries < 100; ++tries)
            {
                alive = 0;
                for (int i = 1; i < ds::thread_count(); ++i) alive += ds::state(i) != ds::St::done;
                if (alive == 0) break;
                // the kernel may need some real time
                timeval tv{0, 20000};
                select(0, nullptr, nullptr, nullptr, &tv);
                ds::sleep_ns(MS);
            }
            ex::ev("{\"e\":\"workers\",\"n\":" + std::to_string(alive) + "}");
            ts.clear();
            l.reset();
            svc.reset();
        });
        n += res.executions;
        d += res.distinct;
    }
    unlink(file.c_str());
    printf("executions %ld distinct %ld complete 0\n", n, d);
}
