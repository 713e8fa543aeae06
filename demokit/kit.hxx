// A few real raft_server instances on one in-memory network, driven by hand.
#pragma once
#include "cornerstone.hxx"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
using namespace cornerstone;

struct disk // survives a restart
{
    std::mutex m;
    std::vector<ptr<log_entry>> log;
    ulong start = 1;
    ulong term = 0;
    int vote = -1;
    bool has_state = false;
    std::string cfg;
    ulong committed = 0;
    std::vector<std::pair<ulong, std::string>> applied, pre, rolled;
    ptr<snapshot> snap;
    std::string snap_data;
    int exits = 0;
    bool hold = false; // snapshots complete when finish is called
    std::function<void()> finish;
    int state_saves = 0;
};

inline std::string str(buffer& b)
{
    b.pos(0);
    std::string s((const char*)b.data(), b.size());
    return s;
}
inline bufptr buf(const std::string& s)
{
    bufptr b = buffer::alloc(s.size());
    memcpy(b->data(), s.data(), s.size());
    b->pos(0);
    return b;
}
inline ptr<log_entry> clone(const ptr<log_entry>& e)
{
    bufptr b = buffer::copy(e->get_buf());
    b->pos(0);
    return cs_new<log_entry>(e->get_term(), std::move(b), e->get_val_type());
}

struct mem_log : log_store
{
    disk& d;
    explicit mem_log(disk& x) : d(x) {}
    typedef std::lock_guard<std::mutex> lg;
    ulong next_slot() const override { lg l(d.m); return d.start + d.log.size(); }
    ulong start_index() const override { lg l(d.m); return d.start; }
    ptr<log_entry> last_entry() const override
    {
        lg l(d.m);
        if (d.log.empty())
            return cs_new<log_entry>((ulong)0, buf("-"), log_val_type::app_log);
        return clone(d.log.back());
    }
    ulong append(ptr<log_entry>& e) override { lg l(d.m); d.log.push_back(clone(e)); return d.start + d.log.size() - 1; }
    void write_at(ulong i, ptr<log_entry>& e) override { lg l(d.m); d.log.resize(i - d.start); d.log.push_back(clone(e)); }
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong a, ulong b) override
    {
        lg l(d.m);
        if (a < d.start || b > d.start + d.log.size())
            return ptr<std::vector<ptr<log_entry>>>();
        ptr<std::vector<ptr<log_entry>>> r = cs_new<std::vector<ptr<log_entry>>>();
        for (; a < b; ++a)
            r->push_back(clone(d.log[a - d.start]));
        return r;
    }
    ptr<log_entry> entry_at(ulong i) override
    {
        lg l(d.m);
        if (i < d.start || i >= d.start + d.log.size())
            return ptr<log_entry>();
        return clone(d.log[i - d.start]);
    }
    ulong term_at(ulong i) override { lg l(d.m); return i < d.start || i >= d.start + d.log.size() ? 0 : d.log[i - d.start]->get_term(); }
    bufptr pack(ulong i, int32 n) override
    {
        std::string s;
        for (int k = 0; k < n; ++k)
        {
            ptr<log_entry> e = entry_at(i + k);
            if (!e)
                break;
            bufptr b = e->serialize();
            b->pos(0);
            std::string x = str(*b);
            uint32_t z = (uint32_t)x.size();
            s.append((char*)&z, 4);
            s += x;
        }
        return buf(s);
    }
    void apply_pack(ulong i, buffer& p) override
    {
        std::string s = str(p);
        lg l(d.m);
        if (i < d.start || i > d.start + d.log.size())
        {
            d.start = i;
            d.log.clear();
        }
        d.log.resize(i - d.start);
        for (size_t at = 0; at + 4 <= s.size();)
        {
            uint32_t z;
            memcpy(&z, s.data() + at, 4);
            bufptr b = buf(s.substr(at + 4, z));
            d.log.push_back(log_entry::deserialize(*b));
            at += 4 + z;
        }
    }
    bool compact(ulong i) override
    {
        lg l(d.m);
        ulong next = d.start + d.log.size();
        if (i + 1 >= next)
            d.log.clear();
        else if (i >= d.start)
            d.log.erase(d.log.begin(), d.log.begin() + (i + 1 - d.start));
        d.start = std::max(d.start, i + 1);
        return true;
    }
};

struct mgr : state_mgr
{
    disk& d;
    int id;
    mgr(disk& x, int i) : d(x), id(i) {}
    ptr<cluster_config> load_config() override { bufptr b = buf(d.cfg); return cluster_config::deserialize(*b); }
    void save_config(const cluster_config& c) override { bufptr b = const_cast<cluster_config&>(c).serialize(); d.cfg = str(*b); }
    void save_state(const srv_state& s) override { d.term = s.get_term(); d.vote = s.get_voted_for(); d.has_state = true; ++d.state_saves; }
    ptr<srv_state> read_state() override
    {
        ptr<srv_state> s = cs_new<srv_state>();
        if (d.has_state)
        {
            s->set_term(d.term);
            s->set_voted_for(d.vote);
        }
        return s;
    }
    ptr<log_store> load_log_store() override { return cs_new<mem_log, disk&>(d); }
    int32 server_id() override { return id; }
    void system_exit(const int) override { ++d.exits; }
};

struct sm : state_machine
{
    disk& d;
    async_result<bool>::handler_type pending;
    explicit sm(disk& x) : d(x) {}
    static std::string image(disk& d, ulong upto)
    {
        std::string s;
        for (auto& a : d.applied)
            if (a.first <= upto)
                s += std::to_string(a.first) + "=" + a.second + ";";
        return s;
    }
    void commit(const ulong i, buffer& b, const uptr<log_entry_cookie>&) override
    {
        std::string v = str(b);
        std::lock_guard<std::mutex> l(d.m);
        d.applied.push_back({i, v});
        d.committed = i;
    }
    void pre_commit(const ulong i, buffer& b, const uptr<log_entry_cookie>&) override { d.pre.push_back({i, str(b)}); }
    void rollback(const ulong i, buffer& b, const uptr<log_entry_cookie>&) override { d.rolled.push_back({i, str(b)}); }
    void save_snapshot_data(snapshot&, const ulong o, buffer& b) override
    {
        std::string s = str(b);
        if (d.snap_data.size() < o + s.size())
            d.snap_data.resize(o + s.size());
        d.snap_data.replace(o, s.size(), s);
    }
    static ptr<snapshot> dup(snapshot& s, ulong size)
    {
        return cs_new<snapshot>(s.get_last_log_idx(), s.get_last_log_term(), s.get_last_config(), size);
    }
    bool apply_snapshot(snapshot& s) override
    {
        std::lock_guard<std::mutex> l(d.m);
        d.applied.clear();
        for (size_t a = 0; a < d.snap_data.size();)
        {
            size_t e = d.snap_data.find(';', a), q = d.snap_data.find('=', a);
            if (e == std::string::npos)
                break;
            d.applied.push_back({std::stoul(d.snap_data.substr(a, q - a)), d.snap_data.substr(q + 1, e - q - 1)});
            a = e + 1;
        }
        d.committed = s.get_last_log_idx();
        d.snap = dup(s, d.snap_data.size());
        return true;
    }
    int read_snapshot_data(snapshot&, const ulong o, buffer& b) override
    {
        size_t n = std::min((size_t)b.size(), d.snap_data.size() - (size_t)o);
        memcpy(b.data(), d.snap_data.data() + o, n);
        return (int)n;
    }
    ptr<snapshot> last_snapshot() override { return d.snap; }
    ulong last_commit_index() override { return d.committed; }
    void create_snapshot(snapshot& s, async_result<bool>::handler_type& done) override
    {
        if (d.hold)
        {
            std::lock_guard<std::mutex> l(d.m);
            ptr<snapshot> t = dup(s, 1);
            d.finish = [this, t, done]() mutable {
                {
                    std::lock_guard<std::mutex> g(d.m);
                    d.snap_data = image(d, t->get_last_log_idx());
                    d.snap = dup(*t, d.snap_data.size());
                }
                ptr<std::exception> none;
                bool ok = true;
                done(ok, none);
            };
            return;
        }
        d.snap_data = image(d, s.get_last_log_idx());
        d.snap = dup(s, d.snap_data.size());
        ptr<std::exception> none;
        bool ok = true;
        done(ok, none);
    }
};

struct quiet : logger
{
    void debug(const std::string& s) override { p("D", s); }
    void info(const std::string& s) override { p("I", s); }
    void warn(const std::string& s) override { p("W", s); }
    void err(const std::string& s) override { p("E", s); }
    int id;
    explicit quiet(int i) : id(i) {}
    void p(const char* l, const std::string& s)
    {
        if (getenv("KIT_LOG"))
            fprintf(stderr, "%d %s %s\n", id, l, s.c_str());
    }
};

struct wire
{
    int id, from, to;
    ptr<req_msg> req;
    rpc_handler h;
    msg_type ty;
};

struct net
{
    std::mutex m;
    std::vector<wire> out;
    int seq = 0;
};

struct cli : rpc_client
{
    net& n;
    int from, to;
    cli(net& x, int f, int t) : n(x), from(f), to(t) {}
    void send(ptr<req_msg>& r, rpc_handler& h) override
    {
        std::lock_guard<std::mutex> l(n.m);
        n.out.push_back({++n.seq, from, to, r, h, r->get_type()});
    }
};
struct fac : rpc_client_factory
{
    net& n;
    int from;
    fac(net& x, int f) : n(x), from(f) {}
    ptr<rpc_client> create_client(const std::string& e) override { return cs_new<cli, net&, int, int>(n, int(from), atoi(e.c_str() + 1)); }
};
struct sched : delayed_task_scheduler
{
    std::mutex m;
    std::vector<std::pair<ptr<delayed_task>, int>> ts;
    void schedule(ptr<delayed_task>& t, int32 ms) override
    {
        std::lock_guard<std::mutex> l(m);
        t->reset();
        drop(t);
        ts.push_back({t, ms});
    }
    void drop(ptr<delayed_task>& t)
    {
        for (size_t i = 0; i < ts.size();)
            if (ts[i].first == t)
                ts.erase(ts.begin() + i);
            else
                ++i;
    }
    void cancel_impl(ptr<delayed_task>& t) override { std::lock_guard<std::mutex> l(m); drop(t); }
};

struct hears : raft_event_listener
{
    int id;
    std::function<void(int, raft_event)> f;
    hears(int i, std::function<void(int, raft_event)> g) : id(i), f(g) {}
    void on_event(raft_event e) override { f(id, e); }
};

struct kit
{
    std::function<void(int, raft_event)> told; // to be set before boot
    static const int HB = 77;
    net n;
    std::map<int, std::unique_ptr<disk>> disks;
    std::map<int, ptr<sched>> scheds;
    std::map<int, std::unique_ptr<raft_server>> srv;
    std::function<void(raft_params&)> tune;
    static void pause(int ms = 30) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }

    void boot(std::vector<int> ids, std::vector<int> others = {})
    {
        auto conf = [](std::vector<int> v) {
            cluster_config c;
            for (int i : v)
                c.get_servers().push_back(cs_new<srv_config>(i, "n" + std::to_string(i)));
            bufptr b = c.serialize();
            return str(*b);
        };
        for (int i : ids)
        {
            disks[i].reset(new disk);
            disks[i]->cfg = conf(ids);
        }
        for (int i : others)
        {
            disks[i].reset(new disk);
            disks[i]->cfg = conf({i});
        }
        for (auto& d : disks)
            start(d.first);
    }
    void start(int i)
    {
        raft_params* p = new raft_params;
        p->election_timeout_lower_bound_ = 400;
        p->election_timeout_upper_bound_ = 800;
        p->heart_beat_interval_ = HB;
        p->rpc_failure_backoff_ = 11;
        p->snapshot_distance_ = 0;
        p->prevote_enabled_ = false;
        p->max_append_size_ = 100;
        if (tune)
            tune(*p);
        scheds[i] = cs_new<sched>();
        ptr<rpc_listener> none;
        ptr<raft_event_listener> nol;
        if (told)
            nol = cs_new<hears>(i, told);
        context* c = new context(
            cs_new<mgr, disk&, int>(*disks[i], int(i)), cs_new<sm, disk&>(*disks[i]), none, cs_new<quiet, int>(int(i)),
            cs_new<fac, net&, int>(n, int(i)), scheds[i], nol, p);
        srv[i].reset(new raft_server(c));
    }
    void stop(int i) // a crash: requests on their way from it are gone
    {
        srv[i].reset();
        std::lock_guard<std::mutex> l(n.m);
        for (size_t k = 0; k < n.out.size();)
            if (n.out[k].from == i)
                n.out.erase(n.out.begin() + k);
            else
                ++k;
    }
    disk& d(int i) { return *disks[i]; }
    static ptr<req_msg> copy(req_msg& r)
    {
        ptr<req_msg> q = cs_new<req_msg>(
            r.get_term(), r.get_type(), r.get_src(), r.get_dst(), r.get_last_log_term(), r.get_last_log_idx(), r.get_commit_idx());
        for (auto& e : r.log_entries())
            q->log_entries().push_back(clone(e));
        return q;
    }
    // oldest message on the wire that fits; 0: any
    bool take(wire& w, int from, int to, int ty = 0)
    {
        std::lock_guard<std::mutex> l(n.m);
        for (size_t k = 0; k < n.out.size(); ++k)
            if ((!from || n.out[k].from == from) && (!to || n.out[k].to == to) && (!ty || n.out[k].ty == (msg_type)ty))
            {
                w = n.out[k];
                n.out.erase(n.out.begin() + k);
                return true;
            }
        return false;
    }
    int count(int from, int to, int ty = 0)
    {
        std::lock_guard<std::mutex> l(n.m);
        int c = 0;
        for (auto& w : n.out)
            c += (!from || w.from == from) && (!to || w.to == to) && (!ty || w.ty == (msg_type)ty);
        return c;
    }
    ptr<resp_msg> request(wire& w) { ptr<req_msg> q = copy(*w.req); return srv[w.to]->process_req(*q); }
    void respond(wire& w, ptr<resp_msg> r)
    {
        ptr<rpc_exception> none;
        if (srv[w.from])
            w.h(r, none);
    }
    void fail(wire& w)
    {
        ptr<resp_msg> none;
        ptr<rpc_exception> e = cs_new<rpc_exception>(std::string("lost"), w.req);
        if (srv[w.from])
            w.h(none, e);
    }
    bool deliver(int from, int to, int ty = 0)
    {
        wire w;
        if (!take(w, from, to, ty))
            return false;
        if (!srv[w.to])
        {
            fail(w);
            return true;
        }
        ptr<resp_msg> r = request(w);
        if (r)
            respond(w, r);
        else
            fail(w);
        return true;
    }
    bool lose(int from, int to, int ty = 0)
    {
        wire w;
        if (!take(w, from, to, ty))
            return false;
        fail(w);
        return true;
    }
    // delivers everything between the given servers, fails the rest
    void flow(std::vector<int> in, int max = 400)
    {
        auto has = [&](int x) { return std::find(in.begin(), in.end(), x) != in.end(); };
        for (int k = 0; k < max; ++k)
        {
            wire w;
            if (!take(w, 0, 0))
            {
                pause(5);
                if (!take(w, 0, 0))
                    return;
            }
            if (has(w.from) && has(w.to) && srv[w.to])
            {
                ptr<resp_msg> r = request(w);
                if (r)
                    respond(w, r);
                else
                    fail(w);
            }
            else
                fail(w);
        }
    }
    bool timer(int i, bool election, int nth = 0)
    {
        ptr<delayed_task> t;
        {
            std::lock_guard<std::mutex> l(scheds[i]->m);
            auto& v = scheds[i]->ts;
            for (size_t k = 0; k < v.size(); ++k)
                if ((v[k].second >= 400) == election && nth-- == 0)
                {
                    t = v[k].first;
                    v.erase(v.begin() + k);
                    break;
                }
        }
        if (!t)
            return false;
        t->execute();
        return true;
    }
    bool elect(int i) { return timer(i, true); }
    void beat(int i)
    {
        size_t k = scheds[i]->ts.size();
        for (size_t a = 0; a < k; ++a)
            timer(i, false);
    }
    // i becomes the leader with the help of the servers in q
    void lead(int i, std::vector<int> q)
    {
        q.push_back(i);
        elect(i);
        flow(q);
    }
    ptr<resp_msg> put(int i, const std::string& v)
    {
        ptr<req_msg> r = cs_new<req_msg>((ulong)0, msg_type::client_request, 0, 0, (ulong)0, (ulong)0, (ulong)0);
        r->log_entries().push_back(cs_new<log_entry>((ulong)0, buf(v), log_val_type::app_log));
        return srv[i]->process_req(*r);
    }
    bool waits(std::function<bool()> f, int ms = 3000)
    {
        for (int k = 0; k < ms / 5; ++k)
        {
            if (f())
                return true;
            pause(5);
        }
        return f();
    }
    std::string applied(int i)
    {
        std::lock_guard<std::mutex> l(d(i).m);
        std::string s;
        for (auto& a : d(i).applied)
            s += a.second + " ";
        return s;
    }
    std::string logs(int i)
    {
        std::lock_guard<std::mutex> l(d(i).m);
        std::string s = std::to_string(d(i).start) + ":";
        for (auto& e : d(i).log)
            s += std::to_string(e->get_term()) + (e->get_val_type() == log_val_type::app_log ? "(" + str(e->get_buf()) + ")" : "C") + " ";
        return s;
    }
};

#define EXPECT(c)                                                         \
    do                                                                    \
    {                                                                     \
        if (!(c))                                                         \
        {                                                                 \
            fprintf(stderr, "%s:%d: %s does not hold\n", __FILE__, __LINE__, #c); \
            _exit(1);                                                     \
        }                                                                 \
    } while (0)
