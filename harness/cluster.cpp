#include "cluster.h"
#include <algorithm>
#include <cstring>
#include <unistd.h>

namespace h
{
static const char* kTy[] = {"unk", "vr", "vr", "ae", "ae", "cr", "as", "as", "rs", "rs", "sl", "sl", "jc", "jc", "lc", "lc", "is", "is", "pv", "pv"};
const char* ty_name(int t) { return t >= 0 && t <= 19 ? kTy[t] : "unk"; }

std::string buf_bytes(buffer& b)
{
    size_t p = b.pos();
    b.pos(0);
    std::string r(reinterpret_cast<char*>(b.data()), b.size());
    b.pos(p);
    return r;
}
static bufptr to_buf(const std::string& s)
{
    bufptr b = buffer::alloc(s.size());
    memcpy(b->data(), s.data(), s.size());
    b->pos(0);
    return b;
}
bufptr make_payload(long id)
{
    int fill = (int)((id * 7) % 23);
    bufptr b = buffer::alloc(4 + fill);
    b->put((int32)id);
    for (int i = 0; i < fill; ++i)
        b->put((byte)((id * 31 + i) & 0xff));
    b->pos(0);
    return b;
}
long decode_payload(const std::string& s)
{
    auto bad = [&]() {
        unsigned hsh = 7;
        for (unsigned char ch : s)
            hsh = hsh * 131 + ch;
        return -(long)(1 + hsh % 1000000);
    };
    if (s.size() < 4)
        return bad();
    int32 id = 0;
    for (int i = 0; i < 4; ++i)
        id |= ((int32)(unsigned char)s[i]) << (8 * i);
    if (id <= 0 || s.size() != 4 + (size_t)((id * 7L) % 23))
        return bad();
    for (size_t i = 0; i + 4 < s.size(); ++i)
        if ((unsigned char)s[4 + i] != (((long)id * 31 + (long)i) & 0xff))
            return bad();
    return id;
}
std::string ints_json(const std::vector<int>& v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? "," : "") + std::to_string(v[i]);
    return r + "]";
}
std::string ent_json(const Ent& e)
{
    char b[160];
    snprintf(b, sizeof b, "{\"t\":%lu,\"k\":%d,\"v\":%ld,\"i\":%lu,\"p\":%lu,\"s\":", (unsigned long)e.t, e.k, e.v,
             (unsigned long)e.i, (unsigned long)e.p);
    return std::string(b) + ints_json(e.s) + "}";
}
std::string ents_json(const std::vector<Ent>& v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? "," : "") + ent_json(v[i]);
    return r + "]";
}
static bool parse_cfg(const std::string& ser, Ent& e)
{
    try
    {
        bufptr b = to_buf(ser);
        ptr<cluster_config> c = cluster_config::deserialize(*b);
        e.i = c->get_log_idx();
        e.p = c->get_prev_log_idx();
        for (auto& s : c->get_servers())
        {
            if (s->get_endpoint() != "n" + std::to_string(s->get_id()))
                e.v -= 1;
            e.s.push_back(s->get_id());
        }
        return true;
    }
    catch (...)
    {
        e.v = -999;
        return false;
    }
}
std::string cfg_ser(const cluster_config& c)
{
    bufptr b = const_cast<cluster_config&>(c).serialize();
    return buf_bytes(*b);
}
std::string cfg_json(const std::string& ser)
{
    Ent e;
    parse_cfg(ser, e);
    return "{\"i\":" + std::to_string(e.i) + ",\"p\":" + std::to_string(e.p) + ",\"s\":" + ints_json(e.s) + "}";
}
static Ent decode_bytes(ulong term, int kind, const std::string& body)
{
    Ent r;
    r.t = term;
    r.k = kind;
    if (kind == log_val_type::conf)
        parse_cfg(body, r);
    else
        r.v = decode_payload(body);
    return r;
}
Ent decode_entry(log_entry& e)
{
    std::string b;
    try
    {
        b = buf_bytes(e.get_buf());
    }
    catch (...)
    {
    }
    return decode_bytes(e.get_term(), e.get_val_type(), b);
}
static std::string ser_entry(log_entry& e)
{
    std::string r(9, 0);
    ulong t = e.get_term();
    memcpy(&r[0], &t, 8);
    r[8] = (char)e.get_val_type();
    std::string b;
    try
    {
        b = buf_bytes(e.get_buf());
    }
    catch (...)
    {
    }
    return r + b;
}
static ptr<log_entry> deser_entry(const std::string& s)
{
    ulong t;
    memcpy(&t, &s[0], 8);
    return cs_new<log_entry>(t, to_buf(s.substr(9)), (log_val_type)(unsigned char)s[8]);
}

// ---------------------------------------------------------------- storage
class MemLog : public log_store
{
public:
    Node& n;
    std::vector<ptr<log_entry>> e;
    ulong start;
    explicit MemLog(Node& n_) : n(n_), start(n_.dstart)
    {
        for (auto& s : n.dlog)
            e.push_back(deser_entry(s));
    }
    ulong next_slot() const override { return start + e.size(); }
    ulong start_index() const override { return start; }
    ptr<log_entry> last_entry() const override
    {
        return e.empty() ? cs_new<log_entry>((ulong)0, buffer::alloc(1)) : e.back();
    }
    ulong append(ptr<log_entry>& x) override
    {
        e.push_back(x);
        n.dlog.push_back(ser_entry(*x));
        return next_slot() - 1;
    }
    void write_at(ulong i, ptr<log_entry>& x) override
    {
        if (i < start || i > next_slot())
            throw std::range_error("index out of range");
        e.resize(i - start);
        n.dlog.resize(i - start);
        append(x);
    }
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong s, ulong t) override
    {
        if (s < start)
            throw std::range_error("index out of range");
        if (s >= t || s >= next_slot())
            return nullptr;
        auto r = cs_new<std::vector<ptr<log_entry>>>();
        for (ulong i = s; i < t && i < next_slot(); ++i)
            r->push_back(e[i - start]);
        return r;
    }
    ptr<log_entry> entry_at(ulong i) override
    {
        if (i < start)
            throw std::range_error("index out of range");
        return i >= next_slot() ? nullptr : e[i - start];
    }
    ulong term_at(ulong i) override
    {
        if (i < start)
            return 0;
        if (i >= next_slot())
            throw std::range_error("index out of range");
        return e[i - start]->get_term();
    }
    bufptr pack(ulong i, int32 cnt) override
    {
        if (i < start)
            throw std::range_error("index out of range");
        std::string s;
        for (ulong k = i; k < i + (ulong)cnt && k < next_slot(); ++k)
        {
            uint32_t z = (uint32_t)n.dlog[k - start].size();
            s.append((char*)&z, 4);
            s += n.dlog[k - start];
        }
        return to_buf(s);
    }
    void apply_pack(ulong i, buffer& p) override
    {
        std::string s = buf_bytes(p);
        if (i > next_slot())
            throw std::range_error("index out of range");
        if (i < start)
        {
            start = i;
            n.dstart = i;
            e.clear();
            n.dlog.clear();
        }
        e.resize(i - start);
        n.dlog.resize(i - start);
        for (size_t o = 0; o + 4 <= s.size();)
        {
            uint32_t z;
            memcpy(&z, &s[o], 4);
            o += 4;
            ptr<log_entry> x = deser_entry(s.substr(o, z));
            o += z;
            append(x);
        }
    }
    bool compact(ulong i) override
    {
        if (i < start)
            throw std::range_error("index out of range");
        if (i >= next_slot())
        {
            e.clear();
            n.dlog.clear();
        }
        else
        {
            e.erase(e.begin(), e.begin() + (i - start + 1));
            n.dlog.erase(n.dlog.begin(), n.dlog.begin() + (i - start + 1));
        }
        start = n.dstart = i + 1;
        return true;
    }
};

// counts storage operations (crash points) and notes changes
class RecLog : public log_store
{
public:
    Node& n;
    ptr<log_store> b;
    RecLog(Node& n_, ptr<log_store> b_) : n(n_), b(b_) {}
    ulong next_slot() const override { return b->next_slot(); }
    ulong start_index() const override { return b->start_index(); }
    ptr<log_entry> last_entry() const override { return b->last_entry(); }
    ulong append(ptr<log_entry>& x) override
    {
        n.c->op(n);
        n.log_dirty = true;
        ulong r = b->append(x);
        n.c->op(n);
        return r;
    }
    void write_at(ulong i, ptr<log_entry>& x) override
    {
        n.c->op(n);
        n.log_dirty = true;
        b->write_at(i, x);
        n.c->op(n);
    }
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong s, ulong t) override { return b->log_entries(s, t); }
    ptr<log_entry> entry_at(ulong i) override { return b->entry_at(i); }
    ulong term_at(ulong i) override { return b->term_at(i); }
    bufptr pack(ulong i, int32 c) override { return b->pack(i, c); }
    void apply_pack(ulong i, buffer& p) override
    {
        n.c->op(n);
        n.log_dirty = true;
        b->apply_pack(i, p);
        n.c->op(n);
    }
    bool compact(ulong i) override
    {
        n.c->op(n);
        n.log_dirty = true;
        n.c->j_sm.push_back("{\"o\":\"compact\",\"i\":" + std::to_string(i) + "}");
        bool r = b->compact(i);
        n.c->op(n);
        return r;
    }
};

class Mgr : public state_mgr
{
public:
    Node& n;
    explicit Mgr(Node& n_) : n(n_) {}
    ptr<cluster_config> load_config() override
    {
        bufptr b = to_buf(n.cfg);
        return cluster_config::deserialize(*b);
    }
    void save_config(const cluster_config& c) override
    {
        n.c->op(n);
        Ent was, is;
        parse_cfg(n.cfg, was);
        n.cfg = cfg_ser(c);
        parse_cfg(n.cfg, is);
        // a member that has stored that it was removed does not come back after a crash
        auto has = [this](const std::vector<int>& v) { return std::find(v.begin(), v.end(), n.id) != v.end(); };
        n.left = n.left || (was.s.size() > 1 && has(was.s) && !has(is.s));
        n.c->j_cfg.push_back(cfg_json(n.cfg));
        n.c->j_sm.push_back("{\"o\":\"cfg\",\"c\":" + cfg_json(n.cfg) + "}");
        n.c->op(n);
    }
    void save_state(const srv_state& s) override
    {
        n.c->op(n);
        if (n.has_state && (s.get_term() < n.term || (s.get_term() == n.term && n.vote != -1 && s.get_voted_for() != n.vote)))
            n.c->hint('V');
        n.has_state = true;
        n.term = s.get_term();
        n.vote = s.get_voted_for();
        n.c->j_sm.push_back("{\"o\":\"st\",\"t\":" + std::to_string(n.term) + ",\"v\":" + std::to_string(n.vote) + "}");
        n.c->op(n);
    }
    ptr<srv_state> read_state() override
    {
        if (!n.has_state)
            return nullptr;
        auto s = cs_new<srv_state>();
        s->set_term(n.term);
        s->set_voted_for(n.vote);
        return s;
    }
    ptr<log_store> load_log_store() override { return n.ls; }
    int32 server_id() override { return n.id; }
    void system_exit(const int code) override
    {
        if (n.in_step_crash)
        {
            if (ds::self() == 0)
                throw CrashEx();
            ds::park_self();
        }
        n.in_step_exit = true;
        n.exit_code = code;
        if (ds::self() == 0)
            throw ExitEx{code};
        ds::park_self();
    }
};

static std::string snap_data(const std::vector<ApplyRec>& a, ulong upto)
{
    std::string s("SNAP");
    for (auto& r : a)
        if (r.idx <= upto)
        {
            uint64_t x = r.idx;
            int64_t v = r.v;
            s.append((char*)&x, 8);
            s.append((char*)&v, 8);
        }
    s.append(16 * ((upto * 5) % 7), '\0'); // a later snapshot may be smaller
    return s;
}
static std::string apply_list_json(const std::vector<ApplyRec>& a)
{
    std::string r = "[";
    for (size_t i = 0; i < a.size(); ++i)
        r += (i ? ",[" : "[") + std::to_string(a[i].idx) + "," + std::to_string(a[i].v) + "]";
    return r + "]";
}

class Sm : public state_machine
{
public:
    Node& n;
    explicit Sm(Node& n_) : n(n_) {}
    static std::string rec(const char* o, ulong i, buffer& d, const uptr<log_entry_cookie>& ck)
    {
        long v = decode_payload(buf_bytes(d));
        // the position must be at the start for the reader
        if (d.pos() != 0)
            v = v; // position is the reader's business
        long c = ck ? *std::static_pointer_cast<long>(ck->value()) : 0;
        return std::string("{\"o\":\"") + o + "\",\"i\":" + std::to_string(i) + ",\"v\":" + std::to_string(v) +
               ",\"ck\":" + std::to_string(c) + "}";
    }
    void commit(const ulong i, buffer& d, const uptr<log_entry_cookie>& ck) override
    {
        n.c->j_sm.push_back(rec("commit", i, d, ck));
        {
            long v = decode_payload(buf_bytes(d));
            auto it = n.c->h_val.find(i);
            if (it == n.c->h_val.end())
                n.c->h_val[i] = v;
            else if (it->second != v)
                n.c->hint('A');
            if (i <= n.last_commit)
                n.c->hint('A');
            auto& h = n.c->h_pre[n.id];
            auto ip = h.find(i);
            if (ip != h.end() && ip->second != v)
                n.c->hint('P');
            h.erase(i);
        }
        n.applied.push_back({i, decode_payload(buf_bytes(d))});
        n.last_commit = i;
        if (n.yield_apply && n.c->allow_yield)
            ds::yield_back();
    }
    void pre_commit(const ulong i, buffer& d, const uptr<log_entry_cookie>& ck) override
    {
        n.c->j_sm.push_back(rec("pre", i, d, ck));
        auto& h = n.c->h_pre[n.id];
        if (h.count(i))
            n.c->hint('P');
        h[i] = decode_payload(buf_bytes(d));
    }
    void rollback(const ulong i, buffer& d, const uptr<log_entry_cookie>& ck) override
    {
        n.c->j_sm.push_back(rec("rb", i, d, ck));
        auto& h = n.c->h_pre[n.id];
        auto it = h.find(i);
        if (it != h.end() && it->second != decode_payload(buf_bytes(d)))
            n.c->hint('P');
        h.erase(i);
        if (i <= n.last_commit)
            n.c->hint('P');
    }
    void save_snapshot_data(snapshot& s, const ulong off, buffer& d) override
    {
        n.c->op(n);
        auto& in = n.incoming[s.get_last_log_idx()];
        std::string bytes(reinterpret_cast<char*>(d.data()), d.size() - d.pos());
        if (in.first.size() < off + bytes.size())
        {
            in.first.resize(off + bytes.size());
            in.second.resize(off + bytes.size());
        }
        for (size_t k = 0; k < bytes.size(); ++k)
        {
            in.first[off + k] = bytes[k];
            in.second[off + k] = true;
        }
        n.c->op(n);
    }
    bool apply_snapshot(snapshot& s) override
    {
        n.c->op(n);
        auto it = n.incoming.find(s.get_last_log_idx());
        bool ok = it != n.incoming.end() && it->second.first.size() == s.size();
        if (ok)
            for (bool b : it->second.second)
                ok = ok && b;
        std::vector<ApplyRec> a;
        if (ok)
        {
            const std::string& d = it->second.first;
            ok = d.size() >= 4 && d.substr(0, 4) == "SNAP" && (d.size() - 4) % 16 == 0;
            for (size_t o = 4; ok && o + 16 <= d.size(); o += 16)
            {
                uint64_t x;
                int64_t v;
                memcpy(&x, &d[o], 8);
                memcpy(&v, &d[o + 8], 8);
                if (x > 0)
                    a.push_back({x, (long)v});
            }
        }
        std::string cs = cfg_ser(*s.get_last_config());
        n.c->j_sm.push_back(
            "{\"o\":\"apply\",\"i\":" + std::to_string(s.get_last_log_idx()) + ",\"t\":" +
            std::to_string(s.get_last_log_term()) + ",\"ok\":" + (ok ? "true" : "false") +
            ",\"sz\":" + std::to_string(s.size()) + ",\"c\":" + cfg_json(cs) + ",\"d\":" + apply_list_json(a) + "}");
        if (!ok || s.get_last_log_idx() <= n.last_commit)
            n.c->hint('S');
        for (auto& x : a)
            if (n.c->h_val.count(x.idx) && n.c->h_val[x.idx] != x.v)
                n.c->hint('S');
        if (!ok)
        {
            n.c->op(n);
            return true; // an incomplete snapshot is noticed by the checker, not by the state machine
        }
        n.applied = a;
        n.last_commit = s.get_last_log_idx();
        n.snaps.push_back({s.get_last_log_idx(), s.get_last_log_term(), cs, it->second.first});
        n.c->op(n);
        return true;
    }
    int read_snapshot_data(snapshot& s, const ulong off, buffer& d) override
    {
        for (auto& r : n.snaps)
            if (r.idx == s.get_last_log_idx())
            {
                size_t z = d.size() - d.pos();
                if (off > r.data.size())
                    return 0;
                z = std::min(z, r.data.size() - (size_t)off);
                memcpy(d.data(), r.data.data() + off, z);
                return (int)z;
            }
        return 0;
    }
    ptr<snapshot> last_snapshot() override
    {
        if (n.snaps.empty())
            return nullptr;
        SnapRec& r = n.snaps.back();
        bufptr b = to_buf(r.cfg);
        return cs_new<snapshot>(r.idx, r.term, cluster_config::deserialize(*b), (ulong)r.data.size());
    }
    ulong last_commit_index() override { return n.last_commit; }
    void create_snapshot(snapshot& s, async_result<bool>::handler_type& done) override
    {
        Node::Pending p;
        p.idx = s.get_last_log_idx();
        p.term = s.get_last_log_term();
        p.cfg = cfg_ser(*s.get_last_config());
        p.data = snap_data(n.applied, p.idx);
        p.done = done;
        n.c->j_sm.push_back(
            "{\"o\":\"create\",\"i\":" + std::to_string(p.idx) + ",\"t\":" + std::to_string(p.term) +
            ",\"c\":" + cfg_json(p.cfg) + "}");
        n.pend.push_back(p);
    }
};

class Sched : public delayed_task_scheduler
{
public:
    Node& n;
    explicit Sched(Node& n_) : n(n_) {}
    void schedule(ptr<delayed_task>& t, int32 ms) override
    {
        t->reset();
        Timer& x = n.timers[t.get()];
        x.task = t;
        x.ms = ms;
        x.due = ds::now_ns + (int64_t)ms * 1000000LL;
        x.active = true;
        x.seq = ++n.c->timer_seq;
        x.kind = dynamic_cast<timer_task<peer&>*>(t.get()) ? 'h' : (ms >= n.c->P.lower ? 'e' : 'r');
    }

private:
    void cancel_impl(ptr<delayed_task>& t) override
    {
        auto it = n.timers.find(t.get());
        if (it != n.timers.end())
            it->second.active = false;
    }
};

class Cli : public rpc_client
{
public:
    Node& n;
    int dst;
    Cli(Node& n_, int d) : n(n_), dst(d) {}
    void send(ptr<req_msg>& q, rpc_handler& hnd) override;
};
class CliFac : public rpc_client_factory
{
public:
    Node& n;
    explicit CliFac(Node& n_) : n(n_) {}
    ptr<rpc_client> create_client(const std::string& ep) override
    {
        return cs_new<Cli, Node&, int>(n, atoi(ep.c_str() + 1));
    }
};
class NoLog : public logger
{
public:
    FILE* f = nullptr;
    int id = 0;
    void w(const std::string& s)
    {
        if (f)
            fprintf(f, "    [%d] %s\n", id, s.c_str());
    }
    void debug(const std::string& s) override { w(s); }
    void info(const std::string& s) override { w(s); }
    void warn(const std::string& s) override { w(s); }
    void err(const std::string& s) override { w(s); }
};
class Lis : public raft_event_listener
{
public:
    Node& n;
    explicit Lis(Node& n_) : n(n_) {}
    void on_event(raft_event e) override
    {
        if (e == raft_event::become_leader)
        {
            n.leader_ev = true;
            auto it = n.c->h_leader.find(n.term);
            if (it != n.c->h_leader.end() && it->second != n.id)
                n.c->hint('L');
            n.c->h_leader[n.term] = n.id;
            n.c->j_role.push_back("\"lead\"");
            n.c->j_sm.push_back("{\"o\":\"lead\"}");
        }
        else if (e == raft_event::become_follower)
        {
            n.leader_ev = false;
            n.c->j_role.push_back("\"foll\"");
            n.c->j_sm.push_back("{\"o\":\"foll\"}");
        }
        else if (e == raft_event::logs_catch_up)
            n.c->j_sm.push_back("{\"o\":\"up\"}");
    }
};

static std::string snapreq_json(const std::string& entry_ser)
{
    try
    {
        bufptr b = to_buf(entry_ser.substr(9));
        ptr<snapshot_sync_req> r = snapshot_sync_req::deserialize(*b);
        snapshot& s = r->get_snapshot();
        return "{\"i\":" + std::to_string(s.get_last_log_idx()) + ",\"t\":" + std::to_string(s.get_last_log_term()) +
               ",\"sz\":" + std::to_string(s.size()) + ",\"off\":" + std::to_string(r->get_offset()) +
               ",\"len\":" + std::to_string(r->get_data().size()) + ",\"done\":" + (r->is_done() ? "true" : "false") +
               ",\"c\":" + cfg_json(cfg_ser(*s.get_last_config())) + "}";
    }
    catch (...)
    {
        return "{\"i\":0,\"t\":0,\"sz\":0,\"off\":0,\"len\":0,\"done\":false,\"c\":{\"i\":0,\"p\":0,\"s\":[]}}";
    }
}
static std::string req_json(const Rpc& r)
{
    std::string s = std::string("{\"ty\":\"") + ty_name(r.type) + "\",\"id\":" + std::to_string(r.id) +
                    ",\"from\":" + std::to_string(r.msrc) + ",\"to\":" + std::to_string(r.mdst) +
                    ",\"term\":" + std::to_string(r.term) + ",\"llt\":" + std::to_string(r.llt) +
                    ",\"lli\":" + std::to_string(r.lli) + ",\"ci\":" + std::to_string(r.ci);
    std::vector<Ent> es;
    if (r.type == msg_type::append_entries_request || r.type == msg_type::client_request ||
        r.type == msg_type::join_cluster_request)
        for (auto& e : r.es)
        {
            ulong t;
            memcpy(&t, &e[0], 8);
            es.push_back(decode_bytes(t, (unsigned char)e[8], e.substr(9)));
        }
    s += ",\"es\":" + ents_json(es);
    if (r.type == msg_type::install_snapshot_request && r.es.size() == 1)
        s += ",\"snap\":" + snapreq_json(r.es[0]);
    return s;
}
static std::string resp_json(resp_msg& r)
{
    return std::string("{\"ty\":\"") + ty_name(r.get_type()) + "\",\"from\":" + std::to_string(r.get_src()) +
           ",\"to\":" + std::to_string(r.get_dst()) + ",\"term\":" + std::to_string(r.get_term()) +
           ",\"nx\":" + std::to_string(r.get_next_idx()) + ",\"ok\":" + (r.get_accepted() ? "true" : "false") + "}";
}

void Cli::send(ptr<req_msg>& q, rpc_handler& hnd)
{
    Cluster& c = *n.c;
    c.op(n);
    Rpc* r = new Rpc;
    r->id = ++c.rpc_seq;
    r->src = n.id;
    r->src_inc = n.inc;
    r->dst = dst;
    r->orig = q;
    r->term = q->get_term();
    r->type = q->get_type();
    r->msrc = q->get_src();
    r->mdst = q->get_dst();
    r->llt = q->get_last_log_term();
    r->lli = q->get_last_log_idx();
    r->ci = q->get_commit_idx();
    for (auto& e : q->log_entries())
        r->es.push_back(ser_entry(*e));
    r->handler = hnd;
    r->born = ds::now_ns;
    if (r->type == msg_type::append_entries_request)
        c.hint_commit(n, r->ci);
    if (r->term > n.term && r->type != msg_type::client_request)
        c.hint('V');
    c.rpcs.push_back(r);
    c.j_out.push_back(req_json(*r) + ",\"dst\":" + std::to_string(dst) + ",\"dt\":" + std::to_string(n.term) +
                      ",\"dv\":" + std::to_string(n.vote) + "}");
    c.op(n);
}

// ---------------------------------------------------------------- cluster
Cluster::Cluster(const Params& p, uint64_t sd, FILE* o) : P(p), rng(sd), out(o), seed(sd)
{
    cluster_config c(0, 0);
    for (int i = 1; i <= p.n; ++i)
        c.get_servers().push_back(cs_new<srv_config>(i, "n" + std::to_string(i)));
    std::string base = cfg_ser(c);
    for (int i = 1; i <= p.n + p.extra; ++i)
    {
        Node* n = new Node;
        n->c = this;
        n->id = i;
        if (i <= p.n)
        {
            n->cfg = base;
            n->member0 = true;
        }
        else
        {
            cluster_config s(0, 0);
            s.get_servers().push_back(cs_new<srv_config>(i, "n" + std::to_string(i)));
            n->cfg = cfg_ser(s);
        }
        nodes.push_back(n);
    }
}
void Cluster::op(Node& n)
{
    ++n.op;
    if (n.crash_at >= 0 && n.op > n.crash_at && !n.in_step_exit)
    {
        n.crash_at = -1;
        n.in_step_crash = true;
        if (ds::self() == 0)
            throw CrashEx();
        ds::park_self();
    }
    if (n.in_step_crash && ds::self() == 0)
        throw CrashEx();
}
void Cluster::init_line()
{
    std::vector<int> all, mem;
    for (auto* n : nodes)
    {
        all.push_back(n->id);
        if (n->member0)
            mem.push_back(n->id);
    }
    fprintf(
        out,
        "{\"ev\":\"Init\",\"n\":0,\"all\":%s,\"mem\":%s,\"prevote\":%s,\"def\":%s,\"snap\":%d,\"reserved\":%d,\"maxapp\":%d,"
        "\"upper\":%d,\"seed\":%lu,\"block\":%d,\"gap\":%d,\"batch\":%d}\n",
        ints_json(all).c_str(), ints_json(mem).c_str(), P.prevote ? "true" : "false", P.defensive ? "true" : "false",
        P.snap, P.reserved, P.max_append, P.upper, (unsigned long)seed, P.block, P.gap, P.batch);
    ++lineno;
}
std::string Cluster::post_json(Node& n)
{
    std::string s = "\"term\":" + std::to_string(n.term) + ",\"vote\":" + std::to_string(n.vote);
    if (n.ls && n.log_dirty)
    {
        n.log_dirty = false;
        ulong ns = n.ls->start_index(), nx = n.ls->next_slot();
        std::vector<Ent> v;
        for (ulong i = ns; i < nx; ++i)
        {
            ptr<log_entry> e = n.ls->entry_at(i);
            if (e)
                v.push_back(decode_entry(*e));
            else
                v.push_back(Ent());
        }
        ulong onx = n.obs_start + n.obs.size();
        ulong f = ns;
        if (ns >= n.obs_start)
            while (f < nx && f < onx && v[f - ns] == n.obs[f - n.obs_start])
                ++f;
        bool changed = !(f == nx && f == onx && ns >= n.obs_start);
        if (ns > onx)
            changed = true;
        s += ",\"start\":" + std::to_string(ns) + ",\"next\":" + std::to_string(nx);
        if (changed)
            s += ",\"f\":" + std::to_string(f) + ",\"tail\":" +
                 ents_json(std::vector<Ent>(v.begin() + (f - ns), v.end()));
        n.obs = v;
        n.obs_start = ns;
        hint_log(n);
    }
    return s;
}
void Cluster::hint_log(Node& n)
{
    for (auto* o : nodes)
    {
        if (o == &n)
            continue;
        ulong lo = std::max(o->obs_start, n.obs_start), hi = std::min(o->obs_start + o->obs.size(), n.obs_start + n.obs.size());
        bool same = false;
        for (ulong i = hi; i > lo; --i)
        {
            const Ent &a = o->obs[i - 1 - o->obs_start], &b = n.obs[i - 1 - n.obs_start];
            if (a.t == b.t)
                same = true;
            if (same && a != b)
                hint('M');
        }
    }
}
void Cluster::hint_commit(Node& n, ulong ci)
{
    if (!n.ls || ci < n.ls->start_index() || ci >= n.ls->next_slot())
        return;
    ulong t = n.ls->term_at(ci);
    int have = 0, all = 0;
    for (int m : members_of(n))
    {
        ++all;
        Node& x = node(m);
        if (ci < x.obs_start || m == n.id || (ci < x.obs_start + x.obs.size() && x.obs[ci - x.obs_start].t == t))
            ++have;
    }
    if (have * 2 <= all && all > 2)
        hint('Q');
}
void Cluster::feature(Node& n, const std::string& ev, const std::string& head, const std::string& line)
{
    std::string k = ev;
    auto grab = [&](const std::string& s, const char* key) {
        size_t p = s.find(key);
        return p == std::string::npos ? std::string() : s.substr(p + strlen(key), 3);
    };
    k += grab(head, "\"ty\":\"") + (n.leader_ev ? "L" : "F") + (head.find("\"es\":[]") == std::string::npos ? "e" : "");
    if (head.find("\"done\":true") != std::string::npos)
        k += "d";
    if (line.find("\"ok\":true") != std::string::npos)
        k += "+";
    std::string last;
    for (auto& o : j_sm)
    {
        std::string t = grab(o, "\"o\":\"");
        if (t != last)
            k += "," + t;
        last = t;
    }
    last.clear();
    k += "|";
    for (auto& o : j_out)
    {
        std::string t = grab(o, "\"ty\":\"") + (o.find("\"es\":[]") == std::string::npos ? "e" : "");
        if (t != last)
            k += "," + t;
        last = t;
    }
    if (line.find("\"crash\"") != std::string::npos)
        k += "C";
    if (line.find("\"exit\"") != std::string::npos)
        k += "X";
    size_t pt = line.find("\"tail\":[");
    if (pt != std::string::npos)
        k += line[pt + 8] == ']' ? "T0" : "T1";
    uint32_t h = 2166136261u;
    for (char ch : k)
        h = (h ^ (unsigned char)ch) * 16777619u;
    feats.insert(h);
    uint32_t& pv = prev_feat[n.id];
    uint32_t b = (h ^ (pv * 2654435761u)) * 16777619u;
    feats.insert(b);
    pv = h;
}
static std::string join(const std::vector<std::string>& v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? "," : "") + v[i];
    return r + "]";
}
static std::string esc(const std::string& s)
{
    std::string r;
    for (char ch : s)
        if (ch >= 32 && ch != '"' && ch != '\\')
            r += ch;
    return r;
}
void Cluster::node_down(Node& n)
{
    n.up = false;
    n.leader_ev = false;
    for (int t : n.tids)
        if (ds::state(t) != ds::St::done)
            ds::park(t);
    n.tids.clear();
    n.timers.clear();
    n.pend.clear();
    n.srv = nullptr; // leaked on purpose: a crashed process runs no destructors
    for (auto* r : rpcs)
        if (r->src == n.id && r->src_inc == n.inc)
        {
            r->ghost = true;
            if (r->st == 1)
                r->st = 2;
        }
}
void Cluster::step(Node& n, const std::string& ev, const std::string& head, const std::function<void()>& body,
                   const std::function<std::string()>& tail)
{
    cur = &n;
    j_sm.clear();
    j_out.clear();
    j_cfg.clear();
    j_role.clear();
    j_async.clear();
    n.op = 0;
    n.in_step_exit = n.in_step_crash = false;
    std::string exc;
    try
    {
        body();
    }
    catch (ExitEx&)
    {
    }
    catch (CrashEx&)
    {
        n.in_step_crash = true;
    }
    catch (std::exception& e)
    {
        exc = std::string("exception ") + e.what();
    }
    catch (const ptr<std::exception>& e)
    {
        exc = "exception pointer";
    }
    n.crash_at = -1;
    std::string s = "{\"ev\":\"" + ev + "\",\"n\":" + std::to_string(n.id) + ",\"ms\":" +
                    std::to_string((ds::now_ns - 1700000000LL * 1000000000LL) / 1000000LL);
    if (!head.empty())
        s += "," + head;
    if (tail && !n.in_step_crash && !n.in_step_exit && exc.empty())
    {
        std::string t = tail();
        if (!t.empty())
            s += "," + t;
    }
    bool wasdown = !n.up;
    if (n.in_step_crash || n.in_step_exit)
    {
        node_down(n);
        if (n.in_step_exit || n.left)
            n.exited = true;
    }
    (void)wasdown;
    s += "," + post_json(n);
    if (!j_sm.empty())
        s += ",\"sm\":" + join(j_sm);
    if (!j_out.empty())
        s += ",\"out\":" + join(j_out);
    if (!j_async.empty())
        s += ",\"async\":" + join(j_async);
    if (n.in_step_crash)
        s += ",\"crash\":true";
    if (n.in_step_exit)
        s += ",\"exit\":" + std::to_string(n.exit_code);
    if (!exc.empty())
        s += ",\"exc\":\"" + esc(exc) + "\"";
    s += "}";
    fprintf(out, "%s\n", s.c_str());
    ++lineno;
    if (!fair || ev == "Start")
        feature(n, ev, head, s);
    if (!exc.empty() || (n.in_step_exit && P.extra == 0))
        hint('X');
    cur = nullptr;
    n.in_step_crash = n.in_step_exit = false;
}
static FILE* g_dbg = nullptr;
void Cluster::start(Node& n)
{
    if (getenv("HDEBUG"))
        g_dbg = stderr;
    ++n.inc;
    if (P.fs)
    {
        std::string d = P.dir + "/n" + std::to_string(n.id);
        n.ls = cs_new<RecLog, Node&, ptr<log_store>>(n, cs_new<fs_log_store>(d, P.fs_buf));
    }
    else
        n.ls = cs_new<RecLog, Node&, ptr<log_store>>(n, cs_new<MemLog, Node&>(n));
    n.log_dirty = true;
    raft_params* p = new raft_params;
    (*p).with_election_timeout_upper(P.upper)
        .with_election_timeout_lower(P.lower)
        .with_hb_interval(P.hb)
        .with_rpc_failure_backoff(P.backoff)
        .with_max_append_size(P.max_append)
        .with_log_sync_batch_size(P.batch)
        .with_log_sync_stopping_gap(P.gap)
        .with_snapshot_enabled(P.snap)
        .with_snapshot_sync_block_size(P.block)
        .with_reserved_log_items(P.reserved)
        .with_prevote_enabled(P.prevote)
        .with_defensive_prevote(P.defensive);
    ptr<NoLog> lg = cs_new<NoLog>();
    lg->f = g_dbg;
    lg->id = n.id;
    ptr<raft_event_listener> lis;
    if (P.listener)
        lis = cs_new<Lis, Node&>(n);
    context* ctx = new context(
        cs_new<Mgr, Node&>(n), cs_new<Sm, Node&>(n), nullptr, lg, cs_new<CliFac, Node&>(n), cs_new<Sched, Node&>(n),
        lis, p);
    int t0 = ds::thread_count();
    n.up = true;
    n.exited = n.left = false;
    n.srv = new raft_server(ctx);
    for (int t = t0; t < ds::thread_count(); ++t)
        n.tids.push_back(t);
}
void Cluster::restart(int id, ulong keep)
{
    Node& n = node(id);
    if (n.up)
        return;
    if (keep < n.last_commit)
    {
        ulong lo = n.snaps.empty() ? 0 : n.snaps.back().idx;
        keep = std::max(keep, lo);
        std::vector<ApplyRec> a;
        ulong lc = lo;
        for (auto& r : n.applied)
            if (r.idx <= keep)
            {
                a.push_back(r);
                lc = std::max(lc, r.idx);
            }
        n.applied = a;
        n.last_commit = lc;
    }
    step(
        n, "Start", "\"lc\":" + std::to_string(n.last_commit) + ",\"cfg\":" + cfg_json(n.cfg) + ",\"snapi\":" +
                        std::to_string(n.snaps.empty() ? 0 : n.snaps.back().idx),
        [&]() { start(n); });
}
void Cluster::crash(int id)
{
    Node& n = node(id);
    if (!n.up)
        return;
    step(n, "Crash", "", [&]() { throw CrashEx(); });
}
bool Cluster::fire(Node& n, delayed_task* t)
{
    auto it = n.timers.find(t);
    if (it == n.timers.end() || !it->second.active || !n.up)
        return false;
    Timer x = it->second;
    if (x.due > ds::now_ns)
        ds::now_ns = x.due;
    it->second.active = false;
    step(n, "Timer", std::string("\"k\":\"") + x.kind + "\"", [&]() { x.task->execute(); });
    return true;
}
bool Cluster::deliver_req(Rpc* r, bool keep)
{
    if (r->st != 0)
        return false;
    Node& n = node(r->dst);
    if (!n.up)
        return false;
    ptr<req_msg> q = cs_new<req_msg>(r->term, r->type, r->msrc, r->mdst, r->llt, r->lli, r->ci);
    for (auto& e : r->es)
        q->log_entries().push_back(deser_entry(e));
    ptr<resp_msg> resp;
    std::string head = "\"m\":" + req_json(*r) + "}";
    int inc = n.inc;
    step(
        n, "Req", head,
        [&]() { resp = n.srv->process_req(*q); },
        [&]() { return resp ? "\"r\":" + resp_json(*resp) : std::string(); });
    bool alive = n.up && n.inc == inc && resp;
    if (alive && r->type == msg_type::join_cluster_request && resp->get_accepted())
        n.invited = true;
    if (r->ghost)
    {
        if (!keep)
            r->st = 2;
        return true;
    }
    if (keep)
    {
        Rpc* g = new Rpc(*r);
        g->ghost = true;
        g->handler = nullptr;
        rpcs.push_back(g);
    }
    if (alive)
    {
        // copy, the caller may still hold the original
        r->resp = cs_new<resp_msg>(
            resp->get_term(), resp->get_type(), resp->get_src(), resp->get_dst(), resp->get_next_idx(),
            resp->get_accepted());
        r->st = 1;
        r->at = 0;
    }
    else
    {
        r->st = 3; // connection broke: the caller will see an error
        r->at = 0;
    }
    return true;
}
bool Cluster::deliver_resp(Rpc* r)
{
    if (r->st != 1 || r->ghost)
        return false;
    Node& n = node(r->src);
    if (!n.up || n.inc != r->src_inc)
    {
        r->st = 2;
        return false;
    }
    r->st = 2;
    ptr<resp_msg> resp = r->resp;
    step(
        n, "Resp", "\"m\":" + resp_json(*resp) + ",\"q\":" + req_json(*r) + "}",
        [&]() {
            ptr<rpc_exception> none;
            r->handler(resp, none);
        });
    if (P.dup && (r->type == msg_type::vote_request || r->type == msg_type::prevote_request) && rng.pct(15))
    {
        Rpc* g = new Rpc(*r);
        g->st = 1;
        g->at = 0;
        g->resp = cs_new<resp_msg>(
            resp->get_term(), resp->get_type(), resp->get_src(), resp->get_dst(), resp->get_next_idx(), resp->get_accepted());
        rpcs.push_back(g);
    }
    return true;
}
bool Cluster::fail(Rpc* r, bool keep)
{
    if (r->st == 2 || r->ghost)
        return false;
    Node& n = node(r->src);
    if (!n.up || n.inc != r->src_inc)
    {
        r->st = 2;
        return false;
    }
    if (r->st == 0 && keep)
    {
        Rpc* g = new Rpc(*r);
        g->ghost = true;
        g->handler = nullptr;
        rpcs.push_back(g);
    }
    r->st = 2;
    step(
        n, "Fail", "\"q\":" + req_json(*r) + "}",
        [&]() {
            ptr<resp_msg> none;
            ptr<rpc_exception> e = cs_new<rpc_exception>("connection failed", r->orig);
            r->handler(none, e);
        });
    return true;
}
void Cluster::drop(Rpc* r)
{
    if (r->ghost)
        r->st = 2;
}
bool Cluster::bg_ready(Node& n)
{
    if (!n.up)
        return false;
    for (int t : n.tids)
        if (ds::runnable(t))
            return true;
    return false;
}
bool Cluster::bg(Node& n)
{
    if (!bg_ready(n))
        return false;
    for (int t : n.tids)
        if (ds::runnable(t))
        {
            step(
                n, "Bg", "", [&]() { ds::run(t); },
                [&]() { return std::string(bg_ready(n) ? "" : "\"idle\":true"); }); // idle: it sleeps now
            return true;
        }
    return false;
}
void Cluster::drain_bg(Node& n)
{
    for (int i = 0; i < 200 && bg_ready(n); ++i)
        bg(n);
}
void Cluster::client(Node& n, int cnt, int how)
{
    if (!n.up)
        return;
    std::vector<int> ids;
    for (int i = 0; i < cnt; ++i)
        ids.push_back((int)++val_seq);
    if (how == 0)
    {
        ptr<req_msg> q = cs_new<req_msg>((ulong)0, msg_type::client_request, 0, n.id, (ulong)0, (ulong)0, (ulong)0);
        for (int v : ids)
            q->log_entries().push_back(cs_new<log_entry>((ulong)0, make_payload(v), log_val_type::app_log));
        ptr<resp_msg> resp;
        step(
            n, "Client", "\"how\":0,\"vs\":" + ints_json(ids), [&]() { resp = n.srv->process_req(*q); },
            [&]() { return resp ? "\"r\":" + resp_json(*resp) : std::string(); });
    }
    else if (how == 1)
    {
        std::vector<bufptr> v;
        for (int x : ids)
            v.push_back(make_payload(x));
        long f = ++fwd_seq;
        ptr<async_result<bool>> res;
        step(n, "Client", "\"how\":1,\"fid\":" + std::to_string(f) + ",\"vs\":" + ints_json(ids), [&]() {
            size_t before = rpcs.size();
            res = n.srv->append_entries(v);
            Cluster* c = this;
            for (size_t k = before; k < rpcs.size(); ++k)
                if (rpcs[k]->type == msg_type::client_request)
                    rpcs[k]->fwd = f;
            res->when_ready([c, f](bool& ok, const ptr<std::exception>& e) {
                c->j_async.push_back(
                    "{\"f\":" + std::to_string(f) + ",\"ok\":" + (ok ? "true" : "false") + ",\"err\":" +
                    (e ? "true" : "false") + "}");
            });
        });
    }
    else
    {
        bufptr b = make_payload(ids[0]);
        bool res = false;
        ptr<void> ck = std::make_shared<long>(ids[0]);
        step(
            n, "Client", "\"how\":2,\"vs\":" + ints_json({ids[0]}),
            [&]() { res = n.srv->replicate_log(b, ck, 7); },
            [&]() { return std::string("\"res\":") + (res ? "true" : "false"); });
    }
}
bool Cluster::snap_done(Node& n, int how)
{
    if (!n.up || n.pend.empty())
        return false;
    Node::Pending p = n.pend.front();
    n.pend.erase(n.pend.begin());
    step(n, "SnapDone", "\"i\":" + std::to_string(p.idx) + ",\"how\":" + std::to_string(how), [&]() {
        ptr<std::exception> none;
        bool ok = how == 0;
        if (how == 0)
        {
            // a snapshot that is older than one installed in the meantime is of no use, but it was created
            bool newer = n.snaps.empty() || n.snaps.back().idx < p.idx;
            if (newer)
                n.snaps.push_back({p.idx, p.term, p.cfg, p.data});
            else
                n.snaps.insert(n.snaps.begin(), {p.idx, p.term, p.cfg, p.data});
        }
        if (how == 2)
            none = std::make_shared<std::runtime_error>("disk full");
        p.done(ok, none);
    });
    return true;
}
void Cluster::add_srv(Node& n, int id, bool api)
{
    srv_config sc(id, "n" + std::to_string(id));
    if (api)
    {
        ptr<async_result<bool>> res;
        long f = ++fwd_seq;
        step(n, "Add", "\"api\":true,\"s\":" + std::to_string(id) + ",\"fid\":" + std::to_string(f), [&]() {
            res = n.srv->add_srv(sc);
            Cluster* c = this;
            res->when_ready([c, f](bool& ok, const ptr<std::exception>& e) {
                c->j_async.push_back(
                    "{\"f\":" + std::to_string(f) + ",\"ok\":" + (ok ? "true" : "false") + ",\"err\":" +
                    (e ? "true" : "false") + "}");
            });
        });
        return;
    }
    ptr<req_msg> q = cs_new<req_msg>((ulong)0, msg_type::add_server_request, 0, n.id, (ulong)0, (ulong)0, (ulong)0);
    q->log_entries().push_back(cs_new<log_entry>((ulong)0, sc.serialize(), log_val_type::cluster_server));
    ptr<resp_msg> resp;
    step(
        n, "Add", "\"api\":false,\"s\":" + std::to_string(id), [&]() { resp = n.srv->process_req(*q); },
        [&]() { return resp ? "\"r\":" + resp_json(*resp) : std::string(); });
}
bool Cluster::may_remove(Node& n, int id)
{
    int left = 0;
    for (int m : members_of(n))
        if (m != id && !removing.count(m))
            ++left;
    return left >= 2;
}
void Cluster::rm_srv(Node& n, int id, bool api)
{
    removing.insert(id);
    if (api)
    {
        ptr<async_result<bool>> res;
        long f = ++fwd_seq;
        step(n, "Rm", "\"api\":true,\"s\":" + std::to_string(id) + ",\"fid\":" + std::to_string(f), [&]() {
            res = n.srv->remove_srv(id);
            Cluster* c = this;
            res->when_ready([c, f](bool& ok, const ptr<std::exception>& e) {
                c->j_async.push_back(
                    "{\"f\":" + std::to_string(f) + ",\"ok\":" + (ok ? "true" : "false") + ",\"err\":" +
                    (e ? "true" : "false") + "}");
            });
        });
        return;
    }
    bufptr b = buffer::alloc(sz_int);
    b->put((int32)id);
    b->pos(0);
    ptr<req_msg> q = cs_new<req_msg>((ulong)0, msg_type::remove_server_request, 0, n.id, (ulong)0, (ulong)0, (ulong)0);
    q->log_entries().push_back(cs_new<log_entry>((ulong)0, std::move(b), log_val_type::cluster_server));
    ptr<resp_msg> resp;
    step(
        n, "Rm", "\"api\":false,\"s\":" + std::to_string(id), [&]() { resp = n.srv->process_req(*q); },
        [&]() { return resp ? "\"r\":" + resp_json(*resp) : std::string(); });
}
void Cluster::isleader(Node& n)
{
    bool r = false;
    step(
        n, "IsLeader", "", [&]() { r = n.srv->is_leader(); },
        [&]() { return std::string("\"res\":") + (r ? "true" : "false"); });
}
std::vector<int> Cluster::members_of(Node& n)
{
    Ent e;
    parse_cfg(n.cfg, e);
    return e.s;
}
bool Cluster::is_member(Node& n)
{
    if (n.member0)
        return true;
    Ent e;
    parse_cfg(n.cfg, e);
    return e.i > 0 && std::find(e.s.begin(), e.s.end(), n.id) != e.s.end();
}
void Cluster::final_line(const std::string& what, const std::string& extra)
{
    std::vector<int> up;
    for (auto* n : nodes)
        if (n->up)
            up.push_back(n->id);
    fprintf(out, "{\"ev\":\"%s\",\"n\":0,\"up\":%s%s%s}\n", what.c_str(), ints_json(up).c_str(),
            extra.empty() ? "" : ",", extra.c_str());
    ++lineno;
    if (extra.find("\"ok\":false") != std::string::npos && 2 * (int)up.size() > total())
        hint('F');
}
void Cluster::advance(int64_t ms) { ds::now_ns += ms * 1000000LL; }
Timer* Cluster::timer_of(Node& n, char k)
{
    Timer* best = nullptr;
    for (auto& t : n.timers)
        if (t.second.active && t.second.kind == k && (!best || t.second.due < best->due))
            best = &t.second;
    return best;
}
int Cluster::current_leader()
{
    int best = 0;
    ulong bt = 0;
    for (auto* n : nodes)
        if (n->up && n->leader_ev && n->term >= bt && n->has_state)
        {
            best = n->id;
            bt = n->term;
        }
    return best;
}
// timely execution: messages take 1-3 ms, timers fire on time, background threads run at once
bool Cluster::fair_run(int64_t ms, const std::function<bool()>& stop, int64_t stop_delay)
{
    int64_t end = ds::now_ns + ms * 1000000LL;
    int64_t ok_since = -1;
    fair = true;
    for (;;)
    {
        for (auto* n : nodes)
            while (bg_ready(*n))
                bg(*n);
        if (stop && stop())
        {
            if (ok_since < 0)
                ok_since = ds::now_ns;
            if (ds::now_ns - ok_since >= stop_delay * 1000000LL)
            {
                fair = false;
                return true;
            }
        }
        else
            ok_since = -1;
        // forget finished
        for (size_t i = 0; i < rpcs.size();)
            if (rpcs[i]->st == 2)
            {
                delete rpcs[i];
                rpcs.erase(rpcs.begin() + i);
            }
            else
                ++i;
        int64_t best = INT64_MAX;
        Rpc* br = nullptr;
        Node* bn = nullptr;
        delayed_task* bt = nullptr;
        Node* bs = nullptr;
        for (auto* r : rpcs)
        {
            if (r->at == 0 || r->at < ds::now_ns - 10000000000LL)
                r->at = ds::now_ns + rng.range(1, 3) * 1000000LL;
            if (r->at < best)
            {
                best = r->at;
                br = r;
            }
        }
        long bseq = 0;
        for (auto* n : nodes)
            if (n->up)
            {
                for (auto& t : n->timers)
                    if (t.second.active && (t.second.kind != 'e' || n->member0 || n->invited))
                    {
                        int64_t d = std::max(t.second.due, ds::now_ns);
                        if (d < best || (d == best && bt && t.second.seq < bseq))
                        {
                            best = d;
                            br = nullptr;
                            bn = n;
                            bt = t.first;
                            bseq = t.second.seq;
                        }
                    }
                if (!n->pend.empty() && ds::now_ns < best)
                {
                    best = ds::now_ns;
                    bs = n;
                }
            }
        if (ok_since >= 0 && (best == INT64_MAX || best > (int64_t)(ok_since + stop_delay * 1000000LL)) &&
            (int64_t)(ok_since + stop_delay * 1000000LL) <= end)
        {
            ds::now_ns = std::max(ds::now_ns, (int64_t)(ok_since + stop_delay * 1000000LL));
            continue;
        }
        if (best == INT64_MAX || best > end)
        {
            ds::now_ns = end;
            break;
        }
        ds::now_ns = std::max(ds::now_ns, best);
        if (bs)
            snap_done(*bs, 0);
        else if (br)
        {
            br->at = 0;
            if (br->ghost && br->st != 0)
                br->st = 2;
            else if (br->st == 0)
            {
                if (!linked(br->src, br->dst) || !node(br->dst).up)
                {
                    if (br->ghost)
                        br->st = 2;
                    else
                        fail(br, false);
                }
                else
                {
                    bool g = br->ghost;
                    deliver_req(br, false);
                    (void)g;
                }
            }
            else if (br->st == 1)
            {
                if (!linked(br->dst, br->src))
                    fail(br, false);
                else
                    deliver_resp(br);
            }
            else if (br->st == 3)
                fail(br, false);
            else
                br->st = 2;
        }
        else if (bt)
            fire(*bn, bt);
    }
    fair = false;
    return false;
}
// somebody leads and no running member is ahead of its term
bool Cluster::stable_leader()
{
    int l = current_leader();
    if (!l)
        return false;
    for (int m : members_of(node(l)))
        if (m >= 1 && m <= total() && node(m).up && node(m).term > node(l).term)
            return false;
    return true;
}
bool Cluster::converged(std::string* why)
{
    int l = current_leader();
    if (!l)
    {
        if (why)
            *why = "no leader";
        return false;
    }
    Node& L = node(l);
    std::vector<int> mem = members_of(L);
    ulong nx = L.ls->next_slot();
    int up = 0;
    for (int m : mem)
    {
        if (m < 1 || m > total())
            continue;
        Node& x = node(m);
        if (!x.up)
            continue;
        ++up;
        if (x.ls->next_slot() != nx)
        {
            if (why)
                *why = "log of " + std::to_string(m) + " differs in length";
            return false;
        }
    }
    return up > 0;
}
} // namespace h
