#include <dirent.h>
#include <sys/stat.h>
// Schedules for the cluster harness: seeded random faults ("chaos") and scripted schedules.
#include "cluster.h"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace h;

static Params pick_params(const std::string& prof, Rng& r)
{
    Params p;
    auto size = [&]() {
        int x = r.below(100);
        p.n = x < 62 ? 3 : x < 78 ? 5 : x < 88 ? 4 : x < 97 ? 2 : 1;
    };
    size();
    static const int ma[] = {1, 2, 3, 5, 100};
    p.max_append = ma[r.below(5)];
    if (prof == "crash")
        p.max_append = ma[r.range(1, 4)];
    bool snap = prof == "snap" || (prof != "core" && prof != "prevote" && r.pct(40));
    if (snap)
    {
        p.snap = r.range(1, 5);
        static const int rs[] = {0, 0, 1, 2, 3, 5};
        p.reserved = rs[r.below(6)];
        static const int bs[] = {1, 7, 16, 20, 64, 0};
        p.block = bs[r.range(1, 5)];
        if (r.pct(10))
            p.block = 3;
    }
    if (prof == "prevote" || (prof == "all" && r.pct(30)) || (prof == "member" && r.pct(20)) || (prof == "snap" && r.pct(20)))
    {
        p.prevote = true;
        p.defensive = r.pct(60);
    }
    if (prof == "member")
    {
        int x = r.below(100);
        p.n = x < 30 ? 1 : x < 50 ? 2 : x < 85 ? 3 : 4;
        p.extra = r.range(1, 2);
        static const int g[] = {1, 1, 2, 3, 10};
        p.gap = g[r.below(5)];
        static const int b[] = {1, 2, 3, 1000};
        p.batch = b[r.below(4)];
    }
    p.dup = prof != "member" && r.pct(40);
    return p;
}

struct Chaos
{
    Cluster& c;
    Rng& r;
    std::string prof;
    bool member;
    int mode = 0, left = 0;
    int crash_ops = 0;
    bool calm_start = true;
    explicit Chaos(Cluster& c_, const std::string& p) : c(c_), r(c_.rng), prof(p), member(p == "member") {}

    void gc()
    {
        for (size_t i = 0; i < c.rpcs.size();)
            if (c.rpcs[i]->st == 2)
            {
                delete c.rpcs[i];
                c.rpcs.erase(c.rpcs.begin() + i);
            }
            else
                ++i;
        // forget very old duplicates
        size_t gh = 0;
        for (auto* x : c.rpcs)
            gh += x->ghost;
        while (gh > 12)
        {
            for (size_t i = 0; i < c.rpcs.size(); ++i)
                if (c.rpcs[i]->ghost)
                {
                    delete c.rpcs[i];
                    c.rpcs.erase(c.rpcs.begin() + i);
                    --gh;
                    break;
                }
        }
    }
    int up_members()
    {
        int k = 0;
        for (auto* n : c.nodes)
            k += n->up;
        return k;
    }
    void prompt(Node& n)
    {
        if (member)
            c.drain_bg(n);
    }
    void new_mode()
    {
        mode = r.below(9);
        if (prof == "crash" && r.pct(50))
            mode = 7;
        left = r.range(10, 50);
        c.cut.clear();
        if (mode == 2 || mode == 3)
        {
            // partition: one side is a random subset
            std::set<int> a;
            for (auto* n : c.nodes)
                if (r.pct(40))
                    a.insert(n->id);
            bool oneway = r.pct(25);
            for (auto* x : c.nodes)
                for (auto* y : c.nodes)
                    if (a.count(x->id) != a.count(y->id) && (!oneway || a.count(x->id)))
                        c.cut.insert({x->id, y->id});
        }
        if (mode == 4)
        {
            // isolate the leader
            int l = c.current_leader();
            if (l)
                for (auto* y : c.nodes)
                    if (y->id != l)
                    {
                        c.cut.insert({l, y->id});
                        if (!r.pct(30))
                            c.cut.insert({y->id, l});
                    }
        }
    }
    void one()
    {
        if (left-- <= 0)
            new_mode();
        gc();
        int wD = 60, wE = 2, wH = 12, wC = 8, wB = 30, wF = 2, wX = 1, wG = 3, wS = 10, wM = 4, wI = 2;
        switch (mode)
        {
            case 0: case 1: break;
            case 2: case 3: wE = 6; wF = 20; break;
            case 4: wE = 12; wF = 10; wC = 15; break;
            case 5: wE = 25; wD = 40; break;              // election storm
            case 6: wD = 12; wC = 20; wE = 6; wG = 15; break; // slow network, old messages pile up
            case 7: wX = 12; wF = 8; wE = 6; break;       // crashes
            case 8: wB = 3; wS = 2; wC = 20; break;       // slow application
        }
        if (!c.current_leader())
            wE += 10;
        struct A
        {
            int w;
            std::function<void()> f;
        };
        std::vector<A> as;
        std::vector<Rpc*> live, ghosts;
        for (auto* x : c.rpcs)
            (x->ghost ? ghosts : live).push_back(x);
        if (!live.empty())
        {
            as.push_back({wD, [&]() {
                              Rpc* x = r.pct(50) ? live[0] : live[r.below((int)live.size())];
                              c.advance(r.below(3));
                              bool cutd = x->st == 1 ? !c.linked(x->dst, x->src) : !c.linked(x->src, x->dst);
                              if (x->st == 3 || (x->st == 0 && !c.node(x->dst).up))
                                  c.fail(x, false);
                              else if (cutd)
                              {
                                  if (r.pct(35))
                                      c.fail(x, r.pct(30));
                              }
                              else if (x->st == 0)
                              {
                                  Node& d = c.node(x->dst);
                                  if (wX > 5 && r.pct(12) && c.is_member(d))
                                  {
                                      prompt(d);
                                      d.crash_at = r.below(8);
                                  }
                                  c.deliver_req(x, r.pct(6));
                              }
                              else
                              {
                                  Node& d = c.node(x->src);
                                  if (wX > 5 && d.up && r.pct(6) && c.is_member(d))
                                  {
                                      prompt(d);
                                      d.crash_at = r.below(8);
                                  }
                                  c.deliver_resp(x);
                              }
                          }});
            as.push_back({wF, [&]() { c.fail(live[r.below((int)live.size())], r.pct(40)); }});
        }
        if (!ghosts.empty())
            as.push_back({wG, [&]() {
                              Rpc* x = ghosts[r.below((int)ghosts.size())];
                              if (x->st != 0 || !c.node(x->dst).up)
                                  x->st = 2;
                              else
                                  c.deliver_req(x, r.pct(15));
                          }});
        for (auto* n : c.nodes)
        {
            if (!n->up)
            {
                if (!n->exited)
                    as.push_back({6, [&, n]() {
                                      c.restart(n->id, r.pct(30) ? (ulong)r.below((int)n->last_commit + 1) : n->last_commit);
                                  }});
                continue;
            }
            Timer* e = c.timer_of(*n, 'e');
            if (e && (n->member0 || n->invited))
                as.push_back({wE, [&, n, e]() {
                                  prompt(*n);
                                  if (!n->up)
                                      return;
                                  Timer* e2 = c.timer_of(*n, 'e');
                                  if (!e2)
                                      return;
                                  if (wX > 5 && r.pct(15) && c.is_member(*n))
                                      n->crash_at = r.below(8);
                                  c.fire(*n, e2->task.get());
                              }});
            for (auto& t : n->timers)
                if (t.second.active && t.second.kind != 'e')
                {
                    delayed_task* dt = t.first;
                    as.push_back({t.second.kind == 'h' ? wH / 2 : 8, [&, n, dt]() { c.fire(*n, dt); }});
                }
            if (c.bg_ready(*n))
                as.push_back({wB, [&, n]() {
                                  n->yield_apply = !member && r.pct(60);
                                  if (wX > 5 && !member && r.pct(8))
                                      n->crash_at = r.below(6);
                                  c.bg(*n);
                              }});
            if (!n->pend.empty())
                as.push_back({wS, [&, n]() {
                                  int x = r.below(100);
                                  c.snap_done(*n, x < 80 ? 0 : x < 90 ? 1 : 2);
                              }});
            as.push_back({wX, [&, n]() {
                              prompt(*n);
                              if (n->up && c.is_member(*n))
                                  c.crash(n->id);
                          }});
            if (n->leader_ev)
            {
                as.push_back({wC, [&, n]() {
                                  if (c.val_seq < 60)
                                      c.client(*n, r.range(1, 3), r.pct(60) ? 0 : r.pct(50) ? 1 : 2);
                              }});
                as.push_back({wI, [&, n]() {
                                  if (r.pct(30))
                                      c.advance(r.range(100, 900));
                                  c.isleader(*n);
                              }});
            }
            else
                as.push_back({1, [&, n]() { c.client(*n, r.range(1, 2), r.below(3)); }});
            if (!n->leader_ev)
                as.push_back({1, [&, n]() { c.isleader(*n); }});
            if (member)
            {
                as.push_back({n->leader_ev ? wM : 1, [&, n]() {
                                  // a server that was removed needs an empty store to come back
                                  int id = r.range(1, c.total());
                                  auto m = c.members_of(*n);
                                  bool in = std::find(m.begin(), m.end(), id) != m.end();
                                  if (in || (c.node(id).up && !c.is_member(c.node(id))))
                                      c.add_srv(*n, id, r.pct(30));
                              }});
                as.push_back({n->leader_ev ? wM / 2 : 1, [&, n]() {
                                  int id = r.range(1, c.total());
                                  if (c.may_remove(*n, id))
                                      c.rm_srv(*n, id, r.pct(30));
                              }});
            }
        }
        int tot = 0;
        for (auto& a : as)
            tot += a.w;
        int x = r.below(tot);
        for (auto& a : as)
        {
            x -= a.w;
            if (x < 0)
            {
                a.f();
                break;
            }
        }
        if (r.pct(5))
            c.advance(r.below(40));
        if (member)
            for (auto* n : c.nodes)
                c.drain_bg(*n);
    }
};

static bool all_applied(Cluster& c, long v)
{
    int l = c.current_leader();
    if (!l)
        return false;
    for (int m : c.members_of(c.node(l)))
    {
        Node& x = c.node(m);
        if (!x.up)
            continue;
        bool has = false;
        for (auto& a : x.applied)
            has = has || a.v == v;
        if (!has)
            return false;
    }
    return true;
}

void settle(Cluster& c, bool restart_all)
{
    c.cut.clear();
    for (auto* n : c.nodes)
        if (!n->up && !n->exited && restart_all)
            c.restart(n->id, n->last_commit);
    for (auto* n : c.nodes)
        n->yield_apply = false;
    for (int k = 0; k < 2 && c.P.extra > 0; ++k)
    {
        // changes of the membership that were interrupted come to their end first: a server that only some of the others
        // know as a member may interfere until then
        c.fair_run(6000, [&]() { return c.stable_leader(); }, 500);
        int w = c.current_leader();
        if (!w)
            continue;
        c.client(c.node(w), 1, 0);
        long v = c.val_seq;
        c.fair_run(2500, [&]() { return all_applied(c, v) && c.converged(); }, 100);
    }
    c.final_line("FairStart", "");
    bool ok = c.fair_run(12000, [&]() { return c.stable_leader(); }, 500);
    int l = c.current_leader();
    c.final_line("Converged", std::string("\"ok\":") + (ok ? "true" : "false") + ",\"l\":" + std::to_string(l));
    if (!l)
        return;
    c.client(c.node(l), 2, 0);
    long v = c.val_seq;
    ok = c.fair_run(3000, [&]() { return all_applied(c, v) && c.converged(); }, 100);
    c.final_line("Applied", std::string("\"ok\":") + (ok ? "true" : "false") + ",\"l\":" + std::to_string(l) + ",\"v\":" + std::to_string(v));
    c.fair_run(900, {}, 0);
    c.final_line("End", "\"l\":" + std::to_string(l));
    if (c.P.extra == 0)
        return;
    // membership changes complete
    auto find = [&](bool in) {
        auto m = c.members_of(c.node(l));
        for (auto* n : c.nodes)
            if (n->id != l && n->up && (std::find(m.begin(), m.end(), n->id) != m.end()) == in && (in || !c.is_member(*n)))
                return n->id;
        return 0;
    };
    int j = find(false);
    if (j && c.node(l).up && c.current_leader() == l)
    {
        c.add_srv(c.node(l), j, false);
        c.fair_run(4000, [&]() { return c.is_member(c.node(j)) && c.converged(); }, 600);
        if (!c.is_member(c.node(j)))
            c.hint('J');
        c.final_line("Joined", "\"l\":" + std::to_string(l) + ",\"s\":" + std::to_string(j));
    }
    int x = find(true);
    if (x && c.node(l).up && c.current_leader() == l && c.may_remove(c.node(l), x) && c.rng.pct(60))
    {
        c.rm_srv(c.node(l), x, false);
        c.fair_run(4000, [&]() { return !c.node(x).up; }, 600);
        if (c.node(x).up)
            c.hint('J');
        c.final_line("Left", "\"l\":" + std::to_string(l) + ",\"s\":" + std::to_string(x));
    }
}

static std::string g_index;
static int g_run = 0;
static void write_index(Cluster& c)
{
    if (g_index.empty())
        return;
    std::string s = "r " + std::to_string(g_run) + " " + std::to_string(c.lineno) + " !";
    for (char f : c.flags)
        s += f;
    for (uint32_t f : c.feats)
        s += " " + std::to_string(f);
    s += "\n";
    int fd = open(g_index.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (write(fd, s.data(), s.size()) < 0)
        perror("index");
    close(fd);
}
static int settle_pct = 100;

// removes what a run left in its own scratch folder: DIR/n<k>/<file>
static void drop_stores(const std::string& dir)
{
    for (int i = 1; i <= 16; ++i)
    {
        std::string d = dir + "/n" + std::to_string(i);
        DIR* h = opendir(d.c_str());
        if (!h)
            continue;
        while (struct dirent* e = readdir(h))
            if (e->d_name[0] != '.')
                unlink((d + "/" + e->d_name).c_str());
        closedir(h);
        rmdir(d.c_str());
    }
    rmdir(dir.c_str());
}
static std::string g_fsdir; // scratch folder for runs over the file log store
static void run_chaos(const std::string& prof0, uint64_t seed, FILE* out, int steps)
{
    Rng pr(seed ^ 0x5555);
    std::string prof = prof0;
    if (prof0 == "fs")
    {
        static const char* of[] = {"crash", "snap", "crash", "member", "core"};
        prof = of[pr.below(5)];
    }
    Params p = pick_params(prof, pr);
    if (prof0 == "fs")
    {
        p.fs = true;
        static const int fb[] = {1, 2, 3, 5, 100, 0};
        p.fs_buf = fb[pr.below(5)];
        p.dir = g_fsdir;
        mkdir(p.dir.c_str(), 0700);
        for (int i = 1; i <= p.n + p.extra; ++i)
            mkdir((p.dir + "/n" + std::to_string(i)).c_str(), 0700);
    }
    Cluster c(p, seed, out);
    ds::random_value = (uint32_t)(seed * 2654435761u + 17);
    c.init_line();
    for (auto* n : c.nodes)
        if (n->member0)
            c.restart(n->id, 0);
    Chaos ch(c, prof);
    if (pr.pct(70))
        c.fair_run(1500, [&]() { return c.converged(); }, 20);
    for (auto* n : c.nodes)
        if (!n->member0)
            c.restart(n->id, 0);
    int k = steps / 2 + pr.below(steps);
    for (int i = 0; i < k; ++i)
        ch.one();
    bool all = pr.pct(85) || p.n <= 2;
    if (pr.below(100) < settle_pct)
        settle(c, all);
    write_index(c);
}

// ---------------------------------------------------------------- scripted schedules
// one command per line; commands that do not apply are skipped, so that schedules derived from the specification
// (whose steps are more abstract) can be replayed loosely
static Rpc* find_rpc(Cluster& c, int src, int dst, const std::string& ty, int st, bool ghost, bool newest)
{
    Rpc* best = nullptr;
    for (auto* x : c.rpcs)
        if (x->src == src && x->dst == dst && x->st == st && x->ghost == ghost && (ty == "*" || ty == ty_name(x->type)))
        {
            if (!newest)
                return x;
            best = x;
        }
    return best;
}
// steps of the specification (Raft.tla), carried out with whatever messages the real servers have sent
static int srv_no(std::istringstream& is)
{
    std::string t;
    is >> t;
    return t.size() > 1 && t[0] == 's' ? atoi(t.c_str() + 1) : atoi(t.c_str());
}
static void purge(Cluster& c)
{
    for (size_t i = 0; i < c.rpcs.size();)
        if (c.rpcs[i]->st == 2)
        {
            delete c.rpcs[i];
            c.rpcs.erase(c.rpcs.begin() + i);
        }
        else
            ++i;
}
static int g_lagging = 0; // this server's background thread is slow
static void drain_all(Cluster& c)
{
    for (auto* n : c.nodes)
        if (n->up && n->id != g_lagging)
            c.drain_bg(*n);
}
static bool replies(Cluster& c, int i, int from, msg_type ty)
{
    bool any = false;
    for (int round = 0; round < 40; ++round)
    {
        Rpc* q = nullptr;
        for (auto* x : c.rpcs)
            if (x->src == i && x->st == 1 && !x->ghost && x->type == ty && (from == 0 || x->dst == from))
            {
                q = x;
                break;
            }
        if (!q || !c.node(i).up)
            break;
        c.deliver_resp(q);
        purge(c);
        any = true;
    }
    return any;
}
static void heartbeats(Cluster& c, int i)
{
    std::vector<delayed_task*> v;
    for (auto& t : c.node(i).timers)
        if (t.second.active && t.second.kind == 'h')
            v.push_back(t.first);
    for (auto* t : v)
        if (c.node(i).up)
            c.fire(c.node(i), t);
}
static bool model_step(Cluster& c, const std::string& l)
{
    std::istringstream is(l);
    std::string a;
    is >> a;
    auto ok = [&](int i) { return i >= 1 && i <= c.total(); };
    auto up = [&](int i) { return ok(i) && c.node(i).up; };
    bool done = false;
    if (a == "mvr") // src dst term: the request of that term, the first or a later copy
    {
        int x = srv_no(is), y = srv_no(is);
        unsigned long t;
        is >> t;
        for (int gh = 0; gh < 2 && !done; ++gh)
            for (auto* q : c.rpcs)
                if (q->src == x && q->dst == y && q->st == 0 && q->ghost == (gh == 1) && q->type == msg_type::vote_request && q->term == t && up(y))
                {
                    c.deliver_req(q, true);
                    done = true;
                    break;
                }
    }
    else if (a == "mlead") // the replies to the candidate arrive
    {
        int x = srv_no(is);
        done = ok(x) && replies(c, x, 0, msg_type::vote_request);
    }
    else if (a == "mcommit" || a == "macks")
    {
        int x = srv_no(is);
        done = ok(x) && (replies(c, x, 0, msg_type::append_entries_request) | replies(c, x, 0, msg_type::install_snapshot_request));
        drain_all(c);
    }
    else if (a == "mae") // src dst term lli n ci
    {
        int x = srv_no(is), y = srv_no(is);
        unsigned long t, lli, n, ci;
        is >> t >> lli >> n >> ci;
        // up to a few exchanges until the leader sends (at least) these entries
        for (int round = 0; round < 6 && !done && up(y); ++round)
        {
            Rpc *best = nullptr, *any = nullptr;
            for (auto* q : c.rpcs)
                if (q->src == x && q->dst == y && q->st == 0 && q->type == msg_type::append_entries_request && q->term == t)
                {
                    if (q->lli == lli && q->es.size() == n && q->ci == ci)
                        best = q;
                    if (!q->ghost && q->lli <= lli && q->lli + q->es.size() >= lli + n)
                        any = q;
                }
            if (best || any)
            {
                c.deliver_req(best ? best : any, true);
                done = true;
                break;
            }
            if (!up(x))
                break;
            Rpc* pend = nullptr;
            for (auto* q : c.rpcs)
                if (q->src == x && q->dst == y && !q->ghost && q->type == msg_type::append_entries_request)
                    pend = q;
            Node& ld = c.node(x);
            if (ld.obs_start + ld.obs.size() <= lli + n)
                c.client(ld, 1, 0); // the model's leader may have one entry more than the real one
            else if (pend && pend->st == 0)
                c.deliver_req(pend, true);
            else if (pend)
                c.deliver_resp(pend);
            else
                heartbeats(c, x);
            purge(c);
        }
        drain_all(c);
    }
    else if (a == "mlose") // everything in flight is lost (copies stay)
    {
        std::vector<Rpc*> v(c.rpcs);
        for (auto* q : v)
            if (!q->ghost && q->st < 2 && up(q->src))
                c.fail(q, true);
        done = true;
    }
    else if (a == "mcompact")
    {
        int x = srv_no(is);
        if (up(x))
        {
            c.drain_bg(c.node(x));
            done = c.snap_done(c.node(x), 0);
        }
    }
    else if (a == "mis") // src dst term: the whole transfer
    {
        int x = srv_no(is), y = srv_no(is);
        for (int round = 0; round < 30 && up(x) && up(y); ++round)
        {
            Rpc* pend = nullptr;
            for (auto* q : c.rpcs)
                if (q->src == x && q->dst == y && !q->ghost && (q->type == msg_type::install_snapshot_request || q->type == msg_type::append_entries_request))
                    pend = q;
            bool last = pend && pend->type == msg_type::install_snapshot_request;
            if (pend && pend->st == 0)
                c.deliver_req(pend, last);
            else if (pend)
                c.deliver_resp(pend);
            else if (done)
                break;
            else
                heartbeats(c, x);
            done = done || last;
            purge(c);
        }
        drain_all(c);
    }
    else if (a == "mput") // leader follower n: n commands, only this follower hears of them
    {
        int x = srv_no(is), y = srv_no(is), n = 0;
        is >> n;
        for (int k = 0; k < n && up(x) && up(y); ++k)
        {
            c.client(c.node(x), 1, 0);
            done = true;
            bool beat = false;
            for (int round = 0; round < 20 && up(x) && up(y); ++round)
            {
                Rpc* pend = nullptr;
                for (auto* q : c.rpcs)
                    if (q->src == x && q->dst == y && !q->ghost && q->st < 2)
                        pend = q;
                if (pend && pend->st == 0)
                    c.deliver_req(pend, false);
                else if (pend)
                    c.deliver_resp(pend);
                else if (!beat)
                {
                    heartbeats(c, x);
                    beat = true;
                }
                else
                    break;
                purge(c);
            }
            drain_all(c);
        }
    }
    else if (a == "mpart") // leader follower n: n blocks of a transfer arrive, with their answers
    {
        int x = srv_no(is), y = srv_no(is), n = 0;
        is >> n;
        for (int round = 0; round < 60 && n > 0 && up(x) && up(y); ++round)
        {
            Rpc* pend = nullptr;
            for (auto* q : c.rpcs)
                if (q->src == x && q->dst == y && !q->ghost && q->st < 2)
                    pend = q;
            if (pend && pend->st == 0)
                c.deliver_req(pend, false);
            else if (pend)
            {
                if (pend->type == msg_type::install_snapshot_request)
                {
                    --n;
                    done = true;
                }
                c.deliver_resp(pend);
            }
            else
                heartbeats(c, x);
            purge(c);
        }
        drain_all(c);
    }
    else if (a == "mconf" || a == "madd" || a == "mrm") // mconf i {set}; madd/mrm i x
    {
        int x = srv_no(is);
        if (up(x))
        {
            std::vector<int> cur = c.members_of(c.node(x)), want;
            if (a == "mconf")
            {
                std::string t;
                std::getline(is, t);
                for (size_t k = 0; k < t.size(); ++k)
                    if (isdigit(t[k]))
                        want.push_back(t[k] - '0');
            }
            else
            {
                int z = srv_no(is);
                want = cur;
                if (a == "madd")
                    want.push_back(z);
                else
                    want.erase(std::remove(want.begin(), want.end(), z), want.end());
            }
            for (int z : want)
                if (ok(z) && std::find(cur.begin(), cur.end(), z) == cur.end() && !done)
                {
                    done = true;
                    if (!c.node(z).up && !c.node(z).exited)
                        c.restart(z, c.node(z).last_commit);
                    c.add_srv(c.node(x), z, false);
                    // the exchange with the joining server, until the configuration is in the log
                    for (int round = 0; round < 60 && up(x) && up(z); ++round)
                    {
                        Rpc* pend = nullptr;
                        for (auto* q : c.rpcs)
                            if (q->src == x && q->dst == z && !q->ghost && q->type != msg_type::append_entries_request)
                                pend = q;
                        if (!pend)
                            break;
                        if (pend->st == 0)
                            c.deliver_req(pend, false);
                        else
                            c.deliver_resp(pend);
                        purge(c);
                        drain_all(c);
                    }
                }
            for (int z : cur)
                if (ok(z) && z != x && std::find(want.begin(), want.end(), z) == want.end() && !done && c.may_remove(c.node(x), z))
                {
                    done = true;
                    c.rm_srv(c.node(x), z, false);
                    for (int round = 0; round < 6 && up(x) && up(z); ++round)
                    {
                        Rpc* pend = nullptr;
                        for (auto* q : c.rpcs)
                            if (q->src == x && q->dst == z && !q->ghost && q->type == msg_type::leave_cluster_request)
                                pend = q;
                        if (!pend)
                            break;
                        if (pend->st == 0)
                            c.deliver_req(pend, false);
                        else
                            c.deliver_resp(pend);
                        purge(c);
                    }
                }
        }
    }
    else if (a == "msync")
        done = true;
    else if (a == "mlag")
    {
        g_lagging = srv_no(is);
        done = true;
    }
    return done;
}
static void run_script(const std::string& file, uint64_t seed, FILE* out)
{
    std::ifstream in(file);
    std::string line;
    Params p;
    std::vector<std::string> cmds;
    while (std::getline(in, line))
    {
        if (line.empty() || line[0] == '#')
            continue;
        std::istringstream is(line);
        std::string a;
        is >> a;
        if (a == "param")
        {
            std::string k;
            int v;
            is >> k >> v;
            if (k == "n") p.n = v;
            if (k == "extra") p.extra = v;
            if (k == "snap") p.snap = v;
            if (k == "reserved") p.reserved = v;
            if (k == "block") p.block = v;
            if (k == "max_append") p.max_append = v;
            if (k == "prevote") p.prevote = v;
            if (k == "defensive") p.defensive = v;
            if (k == "gap") p.gap = v;
            if (k == "batch") p.batch = v;
            continue;
        }
        cmds.push_back(line);
    }
    g_lagging = 0;
    Cluster c(p, seed, out);
    ds::random_value = (uint32_t)(seed * 2654435761u + 17);
    c.init_line();
    for (auto* n : c.nodes)
        if (n->member0)
            c.restart(n->id, 0);
    bool skipped_note = getenv("HDEBUG") != nullptr;
    for (auto& l : cmds)
    {
        std::istringstream is(l);
        std::string a;
        is >> a;
        int x = 0, y = 0, z = 0;
        std::string s;
        bool done = true;
        auto up = [&](int i) { return i >= 1 && i <= c.total() && c.node(i).up; };
        if (a == "timeout") // election timer
        {
            is >> x >> y; // y: crash at operation y-1 (0: no crash)
            Timer* t = up(x) ? c.timer_of(c.node(x), 'e') : nullptr;
            if (t)
            {
                if (y > 0)
                    c.node(x).crash_at = y - 1;
                c.fire(c.node(x), t->task.get());
            }
            else
                done = false;
        }
        else if (a == "hb") // all heartbeat timers of a node, once
        {
            is >> x;
            if (up(x))
            {
                std::vector<delayed_task*> v;
                for (auto& t : c.node(x).timers)
                    if (t.second.active && t.second.kind == 'h')
                        v.push_back(t.first);
                for (auto* t : v)
                    c.fire(c.node(x), t);
            }
        }
        else if (a == "retry")
        {
            is >> x;
            Timer* t = up(x) ? c.timer_of(c.node(x), 'r') : nullptr;
            if (t)
                c.fire(c.node(x), t->task.get());
            else
                done = false;
        }
        else if (a == "req" || a == "reqkeep" || a == "reqnew")
        {
            is >> x >> y >> s >> z;
            Rpc* q = find_rpc(c, x, y, s, 0, false, a == "reqnew");
            if (q && up(y))
            {
                if (z > 0)
                    c.node(y).crash_at = z - 1;
                c.deliver_req(q, a == "reqkeep");
            }
            else
                done = false;
        }
        else if (a == "ghost" || a == "ghostkeep")
        {
            is >> x >> y >> s;
            Rpc* q = find_rpc(c, x, y, s, 0, true, false);
            if (q && up(y))
                c.deliver_req(q, a == "ghostkeep");
            else
                done = false;
        }
        else if (a == "resp")
        {
            is >> x >> y >> s >> z; // x: caller, y: callee
            Rpc* q = find_rpc(c, x, y, s, 1, false, false);
            if (q && up(x))
            {
                if (z > 0)
                    c.node(x).crash_at = z - 1;
                c.deliver_resp(q);
            }
            else
                done = false;
        }
        else if (a == "rt") // round trip
        {
            is >> x >> y >> s;
            Rpc* q = find_rpc(c, x, y, s, 0, false, false);
            if (q && up(y))
            {
                c.deliver_req(q, false);
                c.deliver_resp(q);
            }
            else
                done = false;
        }
        else if (a == "fail" || a == "failkeep")
        {
            is >> x >> y >> s;
            Rpc* q = find_rpc(c, x, y, s, 0, false, false);
            if (!q)
                q = find_rpc(c, x, y, s, 1, false, false);
            if (q && up(x))
                c.fail(q, a == "failkeep");
            else
                done = false;
        }
        else if (a == "client")
        {
            is >> x >> y >> z;
            if (up(x))
                c.client(c.node(x), y, z);
        }
        else if (a == "bg")
        {
            is >> x;
            if (x == 0)
                for (auto* n : c.nodes)
                    c.drain_bg(*n);
            else if (up(x))
                c.drain_bg(c.node(x));
        }
        else if (a == "bg1")
        {
            is >> x;
            if (up(x))
            {
                c.node(x).yield_apply = true;
                c.bg(c.node(x));
            }
        }
        else if (a == "snapdone")
        {
            is >> x >> y;
            if (up(x))
                c.snap_done(c.node(x), y);
        }
        else if (a == "crash")
        {
            is >> x;
            c.crash(x);
        }
        else if (a == "restart")
        {
            is >> x;
            if (x >= 1 && x <= c.total() && !c.node(x).up)
                c.restart(x, c.node(x).last_commit);
        }
        else if (a == "add")
        {
            is >> x >> y;
            if (up(x))
                c.add_srv(c.node(x), y, false);
        }
        else if (a == "rm")
        {
            is >> x >> y;
            if (up(x))
                c.rm_srv(c.node(x), y, false);
        }
        else if (a == "isleader")
        {
            is >> x;
            if (up(x))
                c.isleader(c.node(x));
        }
        else if (a == "advance")
        {
            is >> x;
            c.advance(x);
        }
        else if (a == "fair") // run fairly for x ms
        {
            is >> x;
            for (auto* n : c.nodes)
                n->yield_apply = false;
            c.fair_run(x, {}, 0);
        }
        else if (a == "cut")
        {
            is >> x >> y;
            c.cut.insert({x, y});
            c.cut.insert({y, x});
        }
        else if (a == "heal")
            c.cut.clear();
        else if (a == "settle")
            settle(c, true);
        else if (a[0] == 'm')
            done = model_step(c, l);
        if (!done && skipped_note)
            fprintf(stderr, "skipped: %s\n", l.c_str());
        // finished calls
        for (size_t i = 0; i < c.rpcs.size();)
            if (c.rpcs[i]->st == 2)
            {
                delete c.rpcs[i];
                c.rpcs.erase(c.rpcs.begin() + i);
            }
            else
                ++i;
    }
    write_index(c);
}

int main(int argc, char** argv)
{
    std::string mode = argc > 1 ? argv[1] : "";
    auto opt = [&](const char* k, const char* d) {
        for (int i = 2; i + 1 < argc; ++i)
            if (!strcmp(argv[i], k))
                return std::string(argv[i + 1]);
        return std::string(d);
    };
    uint64_t seed = strtoull(opt("--seed", "1").c_str(), nullptr, 10);
    int runs = atoi(opt("--runs", "1").c_str());
    int steps = atoi(opt("--steps", "160").c_str());
    std::string outf = opt("--out", "/dev/stdout"), prof = opt("--profile", "core"), script = opt("--script", "");
    std::vector<std::string> scripts;
    if (mode == "scripts")
    {
        std::ifstream in(script);
        std::string l;
        while (std::getline(in, l))
            if (!l.empty())
                scripts.push_back(l);
        runs = (int)scripts.size();
    }
    g_index = opt("--index", "");
    settle_pct = atoi(opt("--settle", "100").c_str());
    int first = atoi(opt("--first", "0").c_str());
    if (outf != "/dev/stdout")
        unlink(outf.c_str());
    g_fsdir = outf + ".stores";
    int hangs = 0; // every hang costs its full time limit
    for (int k = first; k < first + runs && hangs < 2; ++k)
    {
        fflush(stdout);
        struct stat sb;
        long off = stat(outf.c_str(), &sb) == 0 ? (long)sb.st_size : 0;
        g_run = k;
        pid_t pid = fork();
        if (pid == 0)
        {
            FILE* out = fopen(outf.c_str(), "a");
            static char vb[1 << 16];
            setvbuf(out, vb, _IOFBF, sizeof vb);
            alarm(20);
            ds::enable();
            ds::virtual_time = true;
            ds::on_deadlock = [&]() {
                fprintf(out, "{\"ev\":\"Hang\",\"n\":0}\n");
                fflush(out);
                _exit(0);
            };
            static FILE* gout = out;
            for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE})
                signal(sg, [](int s) {
                    signal(s, SIG_DFL);
                    fprintf(gout, "{\"ev\":\"Died\",\"n\":0,\"sig\":%d}\n", s);
                    fflush(gout);
                    _exit(3);
                });
            atexit([]() {
                fprintf(gout, "{\"ev\":\"Died\",\"n\":0,\"sig\":0}\n");
                fflush(gout);
                _exit(3);
            });
            if (mode == "chaos")
                run_chaos(prof, seed * 1000003ULL + k, out, steps);
            else if (mode == "script")
                run_script(script, seed + k, out);
            else if (mode == "scripts")
                run_script(scripts[k], seed, out);
            fflush(out);
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (prof == "fs")
            drop_stores(g_fsdir);
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3))
        {
            FILE* out = fopen(outf.c_str(), "a");
            // a partially written last line is completed by the reader dropping it
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
            {
                fprintf(out, "\n{\"ev\":\"Hang\",\"n\":0}\n");
                ++hangs;
            }
            else
                fprintf(out, "\n{\"ev\":\"Died\",\"n\":0,\"sig\":%d}\n", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st));
            fclose(out);
        }
        if (!g_index.empty())
        {
            long end = stat(outf.c_str(), &sb) == 0 ? (long)sb.st_size : 0;
            FILE* ix = fopen(g_index.c_str(), "a");
            fprintf(ix, "o %d %ld %ld\n", k, off, end - off);
            fclose(ix);
        }
    }
    return 0;
}
