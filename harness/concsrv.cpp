// Several threads call into one real raft_server at once, under explored schedules. What comes out is written next to what
// comes out when the same calls are made one after the other, in every order.
// usage: concsrv OUT MODE SEED RUNS SECONDS      MODE: dfs (all schedules with PREEMPT preemptions), random
#include "../demokit/kit.hxx"
#include "explore.h"
#include <set>
static const int64_t MS = 1000000;
struct rec_mgr : mgr
{
    std::string saves, cfgs;
    rec_mgr(disk& x, int i) : mgr(x, i) {}
    void save_state(const srv_state& s) override
    {
        ds::point();
        mgr::save_state(s);
        saves += std::to_string(d.term) + "/" + std::to_string(d.vote) + " ";
        ds::point();
    }
    void save_config(const cluster_config& c) override
    {
        mgr::save_config(c);
        cfgs += std::to_string(c.get_log_idx()) + "/" + std::to_string(const_cast<cluster_config&>(c).get_servers().size()) + " ";
    }
};
struct rec_sm : sm
{
    std::vector<std::function<void()>> done;
    explicit rec_sm(disk& x) : sm(x) {}
    void commit(const ulong i, buffer& b, const uptr<log_entry_cookie>& c) override
    {
        ds::point();
        sm::commit(i, b, c);
    }
    void pre_commit(const ulong i, buffer& b, const uptr<log_entry_cookie>& c) override
    {
        ds::point();
        std::lock_guard<std::mutex> l(d.m);
        d.pre.push_back({i, "+" + str(b)});
    }
    void rollback(const ulong i, buffer& b, const uptr<log_entry_cookie>& c) override
    {
        ds::point();
        std::lock_guard<std::mutex> l(d.m);
        d.pre.push_back({i, "-" + str(b)});
    }
    void create_snapshot(snapshot& s, async_result<bool>::handler_type& h) override
    {
        ulong idx = s.get_last_log_idx(), t = s.get_last_log_term();
        ptr<cluster_config> cf = s.get_last_config();
        done.push_back([this, idx, t, cf, h]() mutable {
            d.snap_data = image(d, idx);
            d.snap = cs_new<snapshot>(idx, t, cf, (ulong)d.snap_data.size());
            ptr<std::exception> none;
            bool ok = true;
            h(ok, none);
        });
    }
};
struct listener : raft_event_listener
{
    std::string seen;
    void on_event(raft_event e) override { 
        if (e == raft_event::become_leader) seen += "L";
        else if (e == raft_event::become_follower) seen += "F";
    }
};
// checks what is sent while it is sent: the content of an append request is the sender's log, and terms are durable
struct rec_cli : rpc_client
{
    net& n;
    disk& d;
    std::string& bad;
    int from, to;
    rec_cli(net& x, disk& dk, std::string& b, int f, int t) : n(x), d(dk), bad(b), from(f), to(t) {}
    void send(ptr<req_msg>& r, rpc_handler& h) override
    {
        ds::point();
        {
            std::lock_guard<std::mutex> l(d.m);
            auto ty = r->get_type();
            if (r->get_term() > d.term) bad += "term ";
            if (ty == msg_type::vote_request && (d.vote != from || d.term != r->get_term())) bad += "vote ";
            if (ty == msg_type::append_entries_request)
            {
                ulong p = r->get_last_log_idx();
                auto at = [&](ulong i) { return i >= d.start && i < d.start + d.log.size() ? d.log[i - d.start] : ptr<log_entry>(); };
                if (p >= d.start && (!at(p) || at(p)->get_term() != r->get_last_log_term())) bad += "prev ";
                for (auto& e : r->log_entries())
                {
                    ++p;
                    if (!at(p) || at(p)->get_term() != e->get_term() || at(p)->get_val_type() != e->get_val_type() ||
                        str(at(p)->get_buf()) != str(e->get_buf()))
                        bad += "entry ";
                }
            }
        }
        std::lock_guard<std::mutex> l(n.m);
        n.out.push_back({++n.seq, from, to, r, h, r->get_type()});
    }
};
struct rec_fac : rpc_client_factory
{
    net& n;
    disk& d;
    std::string& bad;
    rec_fac(net& x, disk& dk, std::string& b) : n(x), d(dk), bad(b) {}
    ptr<rpc_client> create_client(const std::string& e) override { return cs_new<rec_cli, net&, disk&, std::string&, int, int>(n, d, bad, 1, atoi(e.c_str() + 1)); }
};

struct World
{
    disk dk;
    net nt;
    std::string bad;
    ptr<sched> sc;
    ptr<rec_mgr> mg;
    ptr<rec_sm> m;
    ptr<listener> ls;
    raft_server* s;
    char room[sizeof(raft_server)] __attribute__((aligned(64)));
    std::vector<std::string> res;
    struct Plan { int members, log, role, commit, snap; bool prevote; int conf; };
    static ptr<log_entry> app(ulong t, const std::string& v) { return cs_new<log_entry>(t, buf(v), log_val_type::app_log); }
    static ptr<log_entry> conf(ulong t, ulong idx, ulong prev, const std::vector<int>& v)
    {
        cluster_config c(idx, prev);
        for (int i : v) c.get_servers().push_back(cs_new<srv_config>(i, "n" + std::to_string(i)));
        return cs_new<log_entry>(t, c.serialize(), log_val_type::conf);
    }
    void elect()
    {
        ptr<delayed_task> t;
        for (auto& x : sc->ts)
            if (x.second >= 400) t = x.first;
        if (t)
        {
            sc->drop(t);
            t->execute();
        }
    }
    bool take(wire& w, int to, msg_type ty)
    {
        for (size_t k = 0; k < nt.out.size(); ++k)
            if (nt.out[k].to == to && nt.out[k].ty == ty)
            {
                w = nt.out[k];
                nt.out.erase(nt.out.begin() + k);
                return true;
            }
        return false;
    }
    void answer(wire& w, ulong term, bool ok, ulong nx)
    {
        msg_type ty = w.ty == msg_type::vote_request ? msg_type::vote_response
            : w.ty == msg_type::prevote_request      ? msg_type::prevote_response
            : w.ty == msg_type::leave_cluster_request ? msg_type::leave_cluster_response
            : w.ty == msg_type::join_cluster_request ? msg_type::join_cluster_response
            : w.ty == msg_type::sync_log_request     ? msg_type::sync_log_response
            : w.ty == msg_type::install_snapshot_request ? msg_type::install_snapshot_response
                                                     : msg_type::append_entries_response;
        ptr<resp_msg> r = cs_new<resp_msg>(term, ty, w.to, w.from, nx, ok);
        ptr<rpc_exception> none;
        w.h(r, none);
    }
    void lose(wire& w)
    {
        ptr<resp_msg> none;
        ptr<rpc_exception> e = cs_new<rpc_exception>(std::string("lost"), w.req);
        w.h(none, e);
    }
    World(const Plan& p)
    {
        std::vector<int> mem;
        for (int i = 1; i <= p.members; ++i) mem.push_back(i);
        ptr<log_entry> c = conf(1, 1, 0, mem);
        dk.log.push_back(c);
        dk.cfg = str(c->get_buf());
        for (int i = 0; i < p.log; ++i) dk.log.push_back(app(1, "e" + std::to_string(i + 2)));
        if (p.conf) // a membership change that is not committed yet
        {
            dk.log.push_back(conf(1, dk.log.size() + 1, 1, p.conf == 1 ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 2}));
            if (p.role == 0) dk.log.push_back(app(1, "f"));
        }
        dk.term = 1;
        dk.vote = 2;
        dk.has_state = true;
        dk.committed = 1;
        raft_params* q = new raft_params;
        q->election_timeout_lower_bound_ = 400;
        q->election_timeout_upper_bound_ = 800;
        q->heart_beat_interval_ = 77;
        q->rpc_failure_backoff_ = 11;
        q->snapshot_distance_ = p.snap;
        q->reserved_log_items_ = 0;
        q->log_sync_stop_gap_ = 2;
        q->log_sync_batch_size_ = 2;
        q->prevote_enabled_ = p.prevote;
        q->defensive_prevote_ = false;
        q->max_append_size_ = 100;
        sc = cs_new<sched>();
        mg = cs_new<rec_mgr, disk&, int>(dk, 1);
        m = cs_new<rec_sm, disk&>(dk);
        ls = cs_new<listener>();
        ptr<rpc_listener> none;
        ptr<raft_event_listener> lp(ls);
        context* cx = new context(mg, m, none, cs_new<quiet, int>(1), cs_new<rec_fac, net&, disk&, std::string&>(nt, dk, bad), sc, lp, q);
        s = new (room) raft_server(cx);
        // the state from which the calls are made
        if (p.role == 0) // follower that hears from server 2
        {
            req_msg a(1, msg_type::append_entries_request, 2, 1, 1, dk.log.size(), p.commit);
            s->process_req(a);
        }
        if (p.role >= 1) elect(); // candidate, or asking for pre-votes
        if (p.role == 2)
        {
            wire w;
            for (int i = 2; i <= p.members; ++i)
                if (take(w, i, msg_type::prevote_request)) answer(w, dk.term, true, 0);
            for (int i = 2; i <= p.members; ++i)
                if (take(w, i, msg_type::vote_request)) answer(w, dk.term, true, 0);
            req_msg cl(0, msg_type::client_request, 0, 1, 0, 0, 0);
            cl.log_entries().push_back(app(0, "c0"));
            s->process_req(cl);
        }
        ds::sleep_ns(2 * MS);
    }
    ulong next() { return dk.start + dk.log.size(); }
};
// ---- the calls; each returns what the caller sees
struct Op
{
    std::string name;
    std::function<std::string(World&)> prepare_and_run;
};
typedef std::function<std::function<std::string()>(World&)> Maker;
static std::string show(const ptr<resp_msg>& r)
{
    return r ? std::string(r->get_accepted() ? "ok" : "no") + " t" + std::to_string(r->get_term()) + " n" + std::to_string(r->get_next_idx()) + " d" + std::to_string(r->get_dst()) : "none";
}
static std::function<std::string()> req(World& w, ptr<req_msg> q)
{
    return [&w, q]() { return show(w.s->process_req(*q)); };
}
struct Menu
{
    std::vector<std::pair<std::string, Maker>> v;
    void add(const std::string& n, Maker m) { v.push_back({n, m}); }
};
static Menu menu()
{
    Menu m;
    // requests of other servers; terms are relative to the server's
    for (int dt = 0; dt <= 2; ++dt)
        for (int from = 2; from <= 3; ++from)
        {
            m.add("vr" + std::to_string(from) + "+" + std::to_string(dt), [=](World& w) {
                return req(w, cs_new<req_msg>(w.dk.term + dt, msg_type::vote_request, from, 1, w.dk.term, w.next() + 3, (ulong)0));
            });
            if (dt)
                m.add("ae" + std::to_string(from) + "+" + std::to_string(dt), [=](World& w) {
                    // replaces the last entry and adds one
                    ulong p = w.next() - 2;
                    auto q = cs_new<req_msg>(w.dk.term + dt, msg_type::append_entries_request, from, 1, w.dk.log[p - w.dk.start]->get_term(), p, p);
                    q->log_entries().push_back(World::app(w.dk.term + dt, "x" + std::to_string(from)));
                    q->log_entries().push_back(World::app(w.dk.term + dt, "y" + std::to_string(from)));
                    return req(w, q);
                });
        }
    m.add("aeall", [](World& w) {
        // everything is committed
        ulong p = w.next() - 1;
        auto q = cs_new<req_msg>(w.dk.term + 1, msg_type::append_entries_request, 2, 1, w.dk.log.back()->get_term(), p, p + 1);
        q->log_entries().push_back(World::app(w.dk.term + 1, "z"));
        return req(w, q);
    });
    m.add("pv2", [](World& w) { return req(w, cs_new<req_msg>(w.dk.term + 1, msg_type::prevote_request, 2, 1, w.dk.term, w.next() + 3, (ulong)0)); });
    for (int k = 0; k < 2; ++k)
        m.add("cl" + std::to_string(k), [=](World& w) {
            auto q = cs_new<req_msg>((ulong)0, msg_type::client_request, 0, 1, (ulong)0, (ulong)0, (ulong)0);
            q->log_entries().push_back(World::app(0, "p" + std::to_string(k)));
            q->log_entries().push_back(World::app(0, "q" + std::to_string(k)));
            return req(w, q);
        });
    m.add("rep", [](World& w) {
        return [&w]() {
            bufptr b = buf("r");
            return std::string(w.s->replicate_log(b, nilptr, 0) ? "yes" : "no");
        };
    });
    m.add("isl", [](World& w) { return [&w]() { w.s->is_leader(); return std::string("-"); }; });
    m.add("add", [](World& w) {
        auto q = cs_new<req_msg>((ulong)0, msg_type::add_server_request, 0, 1, (ulong)0, (ulong)0, (ulong)0);
        srv_config sc(9, "n9");
        q->log_entries().push_back(cs_new<log_entry>((ulong)0, sc.serialize(), log_val_type::cluster_server));
        return req(w, q);
    });
    m.add("rm", [](World& w) {
        auto q = cs_new<req_msg>((ulong)0, msg_type::remove_server_request, 0, 1, (ulong)0, (ulong)0, (ulong)0);
        bufptr b = buffer::alloc(sz_int);
        b->put((int32)3);
        b->pos(0);
        q->log_entries().push_back(cs_new<log_entry>((ulong)0, std::move(b), log_val_type::cluster_server));
        return req(w, q);
    });
    // timers
    m.add("etime", [](World& w) {
        ptr<delayed_task> t;
        for (auto& x : w.sc->ts)
            if (x.second >= 400) t = x.first;
        if (t) w.sc->drop(t);
        return [&w, t]() { if (t) t->execute(); return std::string("-"); };
    });
    for (int k = 0; k < 2; ++k)
        m.add("hb" + std::to_string(k), [=](World& w) {
            ptr<delayed_task> t;
            int c = k;
            for (auto& x : w.sc->ts)
                if (x.second < 400 && c-- == 0) t = x.first;
            if (t) w.sc->drop(t);
            return [&w, t]() { if (t) t->execute(); return std::string("-"); };
        });
    // answers of other servers to whatever was asked first
    for (int from = 2; from <= 3; ++from)
        for (int how = 0; how < 4; ++how)
            m.add("ans" + std::to_string(from) + (how == 0 ? "ok" : how == 1 ? "no" : how == 2 ? "newterm" : "lost"), [=](World& w) -> std::function<std::string()> {
                wire x;
                for (size_t i = 0; i < w.nt.out.size(); ++i)
                    if (w.nt.out[i].to == from)
                    {
                        x = w.nt.out[i];
                        w.nt.out.erase(w.nt.out.begin() + i);
                        ulong t = w.dk.term + (how == 2 ? 1 : 0), nx = how == 0 ? w.next() : how == 1 ? 2 : 0;
                        return [&w, x, t, nx, how]() mutable {
                            if (how == 3) w.lose(x);
                            else w.answer(x, t, how == 0, nx);
                            return std::string("-");
                        };
                    }
                return []() { return std::string("nothing"); };
            });
    m.add("snapdone", [](World& w) -> std::function<std::string()> {
        if (w.m->done.empty()) return []() { return std::string("nothing"); };
        auto f = w.m->done[0];
        return [f]() { f(); return std::string("-"); };
    });
    return m;
}
static std::string outcome(World& w)
{
    ds::sleep_ns(20 * MS);
    ex::watch_lo = ex::watch_hi = nullptr;
    std::string o;
    auto add = [&](const std::string& k, const std::string& v) { o += (o.empty() ? "" : ",") + ("\"" + k + "\":\"") + v + "\""; };
    std::string r;
    for (auto& x : w.res) r += x + "; ";
    add("res", r);
    add("saves", w.mg->saves);
    add("state", std::to_string(w.dk.term) + "/" + std::to_string(w.dk.vote));
    std::string lg = std::to_string(w.dk.start) + ": ", ap, pr;
    for (auto& e : w.dk.log) lg += std::to_string(e->get_term()) + (e->get_val_type() == log_val_type::app_log ? str(e->get_buf()) : "C") + " ";
    for (auto& a : w.dk.applied) ap += std::to_string(a.first) + a.second + " ";
    for (auto& a : w.dk.pre) pr += std::to_string(a.first) + a.second + " ";
    add("log", lg);
    add("applied", ap);
    add("told", pr);
    add("cfgs", w.mg->cfgs);
    add("roles", w.ls->seen);
    add("exits", std::to_string(w.dk.exits));
    // requests other than replication, which may be merged
    std::vector<std::string> ms;
    for (auto& x : w.nt.out)
        if (x.ty != msg_type::append_entries_request && x.ty != msg_type::install_snapshot_request)
            ms.push_back(std::to_string(x.to) + ":" + std::to_string((int)x.ty) + "t" + std::to_string(x.req->get_term()) + "l" + std::to_string(x.req->get_last_log_idx()));
    std::sort(ms.begin(), ms.end());
    std::string mm;
    for (auto& x : ms) mm += x + " ";
    add("sent", mm);
    int el = 0, hb = 0;
    for (auto& x : w.sc->ts) (x.second >= 400 ? el : hb)++;
    add("timers", std::to_string(el) + "+" + std::to_string(hb));
    req_msg probe(0, msg_type::client_request, 0, 1, 0, 0, 0);
    add("probe", show(w.s->process_req(probe)));
    add("snap", w.dk.snap ? std::to_string(w.dk.snap->get_last_log_idx()) : "-");
    add("bad", w.bad);
    return "{" + o + "}";
}
int main(int c, char** a)
{
    FILE* out = fopen(a[1], "w");
    bool dfs = std::string(a[2]) == "dfs";
    unsigned seed = atoi(a[3]);
    long runs = atol(a[4]);
    double secs = atof(a[5]), start = ex::now();
    long n = 0, d = 0, complete = 0;
    Menu mn = menu();
    for (long r = 0; r < runs && ex::now() - start < secs; ++r)
    {
        std::mt19937 prog(seed * 100003u + (unsigned)r);
        World::Plan p;
        p.members = 3;
        p.log = 1 + prog() % 3;
        p.role = prog() % 3;
        p.commit = 1 + prog() % (p.log + 1);
        p.snap = prog() % 3 == 0 ? 2 : 0;
        p.prevote = prog() % 3 == 0;
        p.conf = prog() % 4 == 0 ? 1 + prog() % 2 : 0;
        int k = dfs ? 2 : 2 + prog() % 2;
        std::vector<std::string> want;
        if (const char* w = getenv("OPS"))
        {
            std::string x;
            for (const char* q = w;; ++q)
                if (*q == ',' || !*q) { want.push_back(x); x.clear(); if (!*q) break; }
                else x += *q;
            k = (int)want.size();
            if (getenv("ROLE")) p.role = atoi(getenv("ROLE"));
        }
        std::vector<int> ops;
        for (int i = 0; i < k; ++i)
        {
            int x = prog() % mn.v.size();
            // mostly what such a server is likely to be doing
            static const std::vector<std::vector<std::string>> likely = {
                {"aeall", "aeall", "etime", "vr2+1", "vr3+2", "snapdone", "ae2+1", "ae3+2", "pv2", "cl0"},
                {"ans2ok", "ans3ok", "ans2newterm", "etime", "vr2+1", "ae2+1", "ae3+2", "aeall"},
                {"ans2ok", "ans2ok", "ans3ok", "ans2no", "ans3newterm", "ans2lost", "hb0", "hb1", "cl0", "rep", "add", "rm", "ae2+1", "aeall", "vr3+1", "isl"}};
            if (prog() % 3)
            {
                auto& lk = likely[p.role];
                const std::string& y = lk[prog() % lk.size()];
                for (int t = 0; t < (int)mn.v.size(); ++t)
                    if (mn.v[t].first == y) x = t;
            }
            for (int t = 0; t < (int)mn.v.size() && !want.empty(); ++t)
                if (mn.v[t].first == want[i]) x = t;
            ops.push_back(x);
        }
        {
            // only what other servers that follow the protocol may send: nothing that may be committed is replaced, and a
            // term has one leader
            bool replaces = false, commits = false;
            std::set<std::string> lead1, lead2;
            for (int x : ops)
            {
                const std::string& t = mn.v[x].first;
                if (t == "aeall" || (!t.compare(0, 3, "ans") && t.find("ok") != std::string::npos)) commits = true;
                else if (!t.compare(0, 2, "ae")) replaces = true;
                if (t == "aeall") lead1.insert("2");
                else if (!t.compare(0, 2, "ae")) (t[4] == '1' ? lead1 : lead2).insert(t.substr(2, 1));
            }
            if ((replaces && commits) || lead1.size() > 1 || lead2.size() > 1) continue;
        }
        std::string names;
        for (int x : ops) names += (names.empty() ? "" : " ") + mn.v[x].first;
        // one after the other: every order, with the background thread catching up at once or late
        std::vector<int> perm(k);
        for (int i = 0; i < k; ++i) perm[i] = i;
        std::set<std::string> serial;
        do
            for (int drains = 0; drains < (1 << (k - 1)); ++drains)
            for (int skip = 0; skip < (1 << k); ++skip)
            {
                // a timer that is cancelled while it is about to fire may or may not fire
                bool timers = true;
                for (int i = 0; i < k; ++i)
                    if ((skip >> i & 1) && mn.v[ops[i]].first != "etime" && mn.v[ops[i]].first.compare(0, 2, "hb")) timers = false;
                if (!timers || skip == (1 << k) - 1) continue;
                ex::Options o;
                o.max = 1;
                o.preempt = 0;
                char* bp = nullptr;
                size_t bn = 0;
                FILE* mem = open_memstream(&bp, &bn);
                ex::explore(mem, "\"x\":0", o, [&]() {
                    ds::virtual_time = true;
                    ds::time_limit = ds::now_ns + 400LL * 1000 * MS;
                    World w(p);
                    std::vector<std::function<std::string()>> f;
                    for (int x : ops) f.push_back(mn.v[x].second(w));
                    w.res.resize(k);
                    for (int i = 0; i < k; ++i)
                    {
                        w.res[perm[i]] = (skip >> perm[i] & 1) ? std::string("-") : f[perm[i]]();
                        if (i + 1 < k && (drains >> i & 1)) ds::sleep_ns(5 * MS);
                    }
                    ex::ev("{\"e\":\"out\",\"o\":" + outcome(w) + "}");
                });
                fclose(mem);
                std::string t(bp, bn);
                free(bp);
                size_t x = t.find("{\"e\":\"out\",\"o\":");
                size_t y = t.rfind("},{\"e\":\"end\"}");
                if (x != std::string::npos && y != std::string::npos) serial.insert(t.substr(x + 15, y - x - 15));
                else serial.insert("{\"res\":\"failed\"}");
            }
        while (std::next_permutation(perm.begin(), perm.end()));
        std::string sl;
        for (auto& x : serial) sl += (sl.empty() ? "" : ",") + x;
        ex::Options o;
        o.random = !dfs;
        o.preempt = c > 6 ? atoi(a[6]) : 1;
        o.spurious = 0;
        o.max = dfs ? 100000 : 24;
        o.seconds = std::max(0.2, secs - (ex::now() - start));
        o.seed = seed * 7919 + (unsigned)r;
        auto res = ex::explore(out, "\"ops\":\"" + names + "\",\"role\":" + std::to_string(p.role) + ",\"run\":" + std::to_string(r) + ",\"serial\":[" + sl + "]", o, [&]() {
            ds::virtual_time = true;
            ds::time_limit = ds::now_ns + 400LL * 1000 * MS;
            ds::pick_waiter = nullptr;
            auto ch = ds::choose;
            ds::choose = [](const std::vector<int>& v, int cur) { for (int x : v) if (x == cur) return x; return v[0]; };
            World w(p);
            std::vector<std::function<std::string()>> f;
            for (int x : ops) f.push_back(mn.v[x].second(w));
            w.res.resize(k);
            ds::choose = ch;
            ex::watch(*w.s);
            std::vector<std::thread> th;
            for (int i = 0; i < k; ++i) th.emplace_back([&, i]() { w.res[i] = f[i](); });
            for (auto& t : th) t.join();
            ex::ev("{\"e\":\"out\",\"o\":" + outcome(w) + "}");
        });
        n += res.executions;
        d += res.distinct;
        complete += res.complete;
    }
    printf("executions %ld distinct %ld complete %ld\n", n, d, complete);
}
