// A real raft_server is given log entries and destroyed while its background thread applies them, under explored schedules.
// usage: stopsrv OUT MODE SEED RUNS SECONDS      MODE: dfs (all schedules of the short scenarios, SEED = scenario), random
#include "../demokit/kit.hxx"
#include "explore.h"
struct slow_sm : sm
{
    explicit slow_sm(disk& d) : sm(d) {}
    bool sleeps = false;
    ulong throws_at = 0;
    void commit(const ulong i, buffer& b, const uptr<log_entry_cookie>& c) override
    {
        ds::point();
        if (sleeps) ds::sleep_ns(1000000);
        ex::ev("{\"e\":\"apply\",\"i\":" + std::to_string(i) + "}");
        sm::commit(i, b, c);
        ds::point();
    }
};
static const int64_t MS = 1000000;
int main(int c, char** a)
{
    FILE* out = fopen(a[1], "w");
    std::string mode = a[2];
    unsigned seed = atoi(a[3]);
    long runs = atol(a[4]);
    double secs = atof(a[5]), start = ex::now();
    long n = 0, d = 0, complete = 0;
    for (long r = 0; r < runs && ex::now() - start < secs; ++r)
    {
        ex::Options o;
        std::mt19937 prog(seed * 100003u + (unsigned)r);
        bool dfs = mode == "dfs";
        o.random = !dfs;
        o.preempt = 2;
        o.spurious = 1;
        o.max = dfs ? 1000000 : 4;
        o.seconds = secs;
        o.seed = seed * 7919 + (unsigned)r;
        bool leader = dfs ? seed % 2 : prog() % 2;
        int rounds = dfs ? seed / 2 % 3 : prog() % 4;
        bool settle = dfs ? seed >= 6 : prog() % 2;
        bool sleeps = dfs ? false : prog() % 3 == 0;
        int snap = dfs ? 0 : (prog() % 3 == 0 ? 1 + prog() % 3 : 0);
        bool confs = dfs ? false : prog() % 2;
        int last = -1;
        auto res = ex::explore(out, "\"leader\":" + std::to_string(leader), o, [&]() {
            ds::virtual_time = true;
            ds::time_limit = ds::now_ns + 400LL * 1000 * MS;
            ds::pick_waiter = nullptr;
            disk dk;
            net nt;
            cluster_config cc;
            for (int i = 1; i <= (leader ? 1 : 3); ++i) cc.get_servers().push_back(cs_new<srv_config>(i, "n" + std::to_string(i)));
            bufptr cb = cc.serialize();
            dk.cfg = str(*cb);
            raft_params* p = new raft_params;
            p->election_timeout_lower_bound_ = 400;
            p->election_timeout_upper_bound_ = 800;
            const int p_hb = 77;
            p->heart_beat_interval_ = p_hb;
            p->rpc_failure_backoff_ = 11;
            p->snapshot_distance_ = snap;
            p->prevote_enabled_ = false;
            p->max_append_size_ = 100;
            ptr<sched> sc = cs_new<sched>();
            ptr<rpc_listener> none;
            ptr<raft_event_listener> nol;
            ptr<slow_sm> m = cs_new<slow_sm, disk&>(dk);
            m->sleeps = sleeps;
            context* cx = new context(cs_new<mgr, disk&, int>(dk, 1), m, none, cs_new<quiet, int>(1), cs_new<fac, net&, int>(nt, 1), sc, nol, p);
            static char room[sizeof(raft_server)] __attribute__((aligned(64)));
            raft_server* s = new (room) raft_server(cx);
            ex::watch(*s);
            ulong idx = 0, told = 0;
            if (leader)
            {
                // the only server of the cluster: the election timeout makes it the leader
                ptr<delayed_task> t = sc->ts.empty() ? ptr<delayed_task>() : sc->ts[0].first;
                if (t) t->execute();
            }
            for (int k = 0; k < rounds; ++k)
            {
                if (leader)
                {
                    bufptr b = buf("v" + std::to_string(k));
                    bool ok = s->replicate_log(b, nilptr, 0);
                    if (ok) told = dk.start + dk.log.size() - 1;
                }
                else
                {
                    // the leader's requests; what is committed runs behind by up to two entries
                    int cnt = dfs ? 1 : prog() % 3;
                    ulong commit = idx + cnt > 0 ? (dfs ? idx + cnt : idx + cnt - prog() % (cnt + 1)) : 0;
                    req_msg q(1, msg_type::append_entries_request, 2, 1, idx ? 1 : 0, idx, commit);
                    std::vector<bool> app;
                    for (int e = 0; e < cnt; ++e)
                    {
                        bool conf = confs && prog() % 4 == 0;
                        if (conf)
                        {
                            cluster_config nc(idx + 1 + e, 0);
                            for (int i = 1; i <= 3 + (int)(prog() % 2); ++i) nc.get_servers().push_back(cs_new<srv_config>(i, "n" + std::to_string(i)));
                            q.log_entries().push_back(cs_new<log_entry>((ulong)1, nc.serialize(), log_val_type::conf));
                        }
                        else
                            q.log_entries().push_back(cs_new<log_entry>((ulong)1, buf("e" + std::to_string(idx + 1 + e)), log_val_type::app_log));
                    }
                    ptr<resp_msg> rsp = s->process_req(q);
                    if (rsp && rsp->get_accepted())
                    {
                        idx += cnt;
                        for (ulong i = told + 1; i <= commit; ++i)
                        {
                            std::lock_guard<std::mutex> l(dk.m);
                            if (i < dk.start || dk.log[i - dk.start]->get_val_type() == log_val_type::app_log) told = i;
                        }
                    }
                }
                if (!dfs && prog() % 4 == 0) ds::sleep_ns(MS / 2);
            }
            if (settle)
            {
                ds::sleep_ns(100 * MS);
                if (!snap || true) ex::ev("{\"e\":\"settled\",\"i\":" + std::to_string(told) + "}");
            }
            ex::ev("{\"e\":\"destroy\"}");
            s->~raft_server();
            ex::watch_lo = ex::watch_hi = nullptr;
            ex::gone_lo = room;
            ex::gone_hi = room + sizeof room;
            ex::ev("{\"e\":\"destroyed\"}");
            {
                // election and heartbeat timers; shorter delays are retries
                long left = 0;
                for (auto& t : sc->ts) left += t.second >= p_hb;
                ex::ev("{\"e\":\"timers\",\"n\":" + std::to_string(left) + "}");
            }
            ds::sleep_ns(1000 * MS);
            ex::gone_lo = ex::gone_hi = nullptr;
            int alive = 0;
            for (int i = 1; i < ds::thread_count(); ++i) alive += ds::state(i) != ds::St::done;
            ex::ev("{\"e\":\"threads\",\"n\":" + std::to_string(alive) + "}");
        });
        n += res.executions;
        d += res.distinct;
        complete = res.complete;
        if (dfs) break;
    }
    printf("executions %ld distinct %ld complete %ld\n", n, d, complete);
}
