// Cluster harness: real raft_server objects under full control of network, timers, clock, storage, background
// threads and crashes; every step is recorded as one JSON line.
#pragma once
#include <cornerstone.hxx>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "detsched.h"

namespace h
{
using namespace cornerstone;

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0xD1B54A32D192ED03ULL) { next(); next(); }
    uint64_t next()
    {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s * 0x2545F4914F6CDD1DULL;
    }
    int below(int n) { return n <= 0 ? 0 : (int)((next() >> 33) % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool pct(int p) { return below(100) < p; }
};

struct Ent
{
    ulong t = 0;
    int k = 0; // log_val_type
    long v = 0;
    std::vector<int> s;
    ulong i = 0, p = 0;
    bool operator==(const Ent& o) const { return t == o.t && k == o.k && v == o.v && s == o.s && i == o.i && p == o.p; }
    bool operator!=(const Ent& o) const { return !(*this == o); }
};
std::string ent_json(const Ent& e);
std::string ents_json(const std::vector<Ent>& v);
std::string ints_json(const std::vector<int>& v);
Ent decode_entry(log_entry& e);
bufptr make_payload(long id);
long decode_payload(const std::string& bytes);
std::string buf_bytes(buffer& b);

struct ExitEx
{
    int code;
};
struct CrashEx
{
};

struct Params
{
    int n = 3;          // initial servers
    int extra = 0;      // further servers that may be added
    int lower = 150, upper = 300, hb = 75, backoff = 25;
    int batch = 1000, gap = 10, snap = 0, block = 0, max_append = 100, reserved = 10000;
    bool prevote = false, defensive = true;
    bool fs = false;
    int fs_buf = 10;
    std::string dir; // scratch folder for fs stores
    bool listener = true;
    bool dup = false;   // answers to votes and pre-votes may arrive twice
};

struct Cluster;
struct Node;

struct SnapRec
{
    ulong idx, term;
    std::string cfg; // serialized
    std::string data;
};
struct ApplyRec
{
    ulong idx;
    long v;
};

struct Rpc
{
    long id;
    int src, src_inc, dst;
    ptr<req_msg> orig;
    ulong term;
    msg_type type;
    int msrc, mdst;
    ulong llt, lli, ci;
    std::vector<std::string> es; // serialized entries
    std::vector<std::pair<uint, ptr<void>>> ck;
    rpc_handler handler;
    int st = 0; // 0 request in flight, 1 response in flight, 2 finished
    bool ghost = false; // nobody waits for the answer any more
    ptr<resp_msg> resp;
    int64_t at = 0;     // fair mode: time of the next hop
    int64_t born = 0;
    long fwd = 0;
};

struct Timer
{
    ptr<delayed_task> task;
    int64_t due;
    int ms;
    char kind; // 'e' election, 'h' heartbeat, 'r' retry
    int peer = 0;
    bool active = false;
    long seq = 0;
};

// in order of creation, so that schedules do not depend on addresses
struct TimerMap
{
    typedef std::vector<std::pair<delayed_task*, Timer>> V;
    V v;
    V::iterator begin() { return v.begin(); }
    V::iterator end() { return v.end(); }
    V::iterator find(delayed_task* t)
    {
        auto it = v.begin();
        while (it != v.end() && it->first != t)
            ++it;
        return it;
    }
    Timer& operator[](delayed_task* t)
    {
        auto it = find(t);
        if (it != v.end())
            return it->second;
        v.push_back({t, Timer()});
        return v.back().second;
    }
    void clear() { v.clear(); }
};

struct Node
{
    Cluster* c = nullptr;
    int id = 0;
    bool up = false, exited = false, left = false, member0 = false;
    int exit_code = 0;
    int inc = 0;
    bool in_step_exit = false, in_step_crash = false;
    // durable
    bool has_state = false;
    ulong term = 0;
    int vote = -1;
    std::string cfg;
    std::vector<std::string> dlog; // serialized entries from dstart (mem store)
    ulong dstart = 1;
    std::vector<ApplyRec> applied; // state machine content
    ulong last_commit = 0;
    std::vector<SnapRec> snaps; // completed snapshots (own or installed)
    // volatile
    raft_server* srv = nullptr;
    ptr<log_store> ls;      // recording wrapper
    std::vector<int> tids;  // library threads
    TimerMap timers;
    std::map<ulong, std::pair<std::string, std::vector<bool>>> incoming; // snapshot being received
    struct Pending
    {
        ulong idx, term;
        std::string cfg, data;
        async_result<bool>::handler_type done;
    };
    std::vector<Pending> pend;
    // observation
    std::vector<Ent> obs; // entries [obs_start, ...)
    ulong obs_start = 1;
    bool log_dirty = true;
    long op = 0, crash_at = -1;
    bool yield_apply = false;
    bool leader_ev = false;
    bool invited = false; // accepted an invitation to join
    int64_t last_leader_contact = 0;
};

struct Cluster
{
    Params P;
    Rng rng;
    FILE* out;
    std::vector<Node*> nodes; // index = id-1
    std::vector<Rpc*> rpcs;
    long rpc_seq = 0, timer_seq = 0;
    long val_seq = 0, lineno = 0, fwd_seq = 0;
    std::map<long, long> fwds;
    // current step
    Node* cur = nullptr;
    std::vector<std::string> j_sm, j_out, j_cfg, j_role, j_async;
    int j_saves = 0;
    long j_lost_writes = 0;
    std::set<std::pair<int, int>> cut; // broken links (src,dst)
    bool fair = false;
    uint64_t seed;
    bool allow_yield = true;
    // Cheap hints about a run, only used to decide which runs are validated first; the specification judges.
    std::set<uint32_t> feats;
    std::set<char> flags;
    std::map<int, uint32_t> prev_feat;
    std::map<ulong, int> h_leader;
    std::map<ulong, long> h_val;
    std::map<int, std::map<ulong, long>> h_pre;
    void hint(char f) { flags.insert(f); }
    void feature(Node& n, const std::string& ev, const std::string& head, const std::string& line);
    void hint_log(Node& n);
    void hint_commit(Node& n, ulong ci);

    Cluster(const Params& p, uint64_t seed, FILE* out);
    Node& node(int id) { return *nodes[id - 1]; }
    int total() const { return (int)nodes.size(); }

    void init_line();
    void start(Node& n); // constructor
    void restart(int id, ulong keep_applied);
    void crash(int id);

    // actions; each writes one trace line
    bool fire(Node& n, delayed_task* t);
    bool deliver_req(Rpc* r, bool keep_ghost);
    bool deliver_resp(Rpc* r);
    bool fail(Rpc* r, bool keep_ghost);
    void drop(Rpc* r);
    bool bg(Node& n);
    bool bg_ready(Node& n);
    void client(Node& n, int cnt, int how); // 0 process_req, 1 append_entries, 2 replicate_log
    bool snap_done(Node& n, int how);       // 0 ok, 1 rejected, 2 error
    void add_srv(Node& n, int id, bool api);
    void rm_srv(Node& n, int id, bool api);
    std::set<int> removing; // servers somebody asked to remove
    // at least two servers remain (removing one of two is a scenario of its own)
    bool may_remove(Node& n, int id);
    void isleader(Node& n);
    void final_line(const std::string& what, const std::string& extra);

    // helpers
    bool linked(int a, int b) const { return !cut.count({a, b}); }
    void drain_bg(Node& n);
    void advance(int64_t ms);
    Timer* timer_of(Node& n, char kind);
    int current_leader(); // up node that announced leadership last and has the highest term
    bool fair_run(int64_t ms, const std::function<bool()>& stop, int64_t stop_delay_ms = 0);
    bool converged(std::string* why = nullptr);
    bool stable_leader();
    std::vector<int> members_of(Node& n);
    bool is_member(Node& n); // knows a committed configuration with itself in it

    void step(Node& n, const std::string& ev, const std::string& head, const std::function<void()>& body,
              const std::function<std::string()>& tail = {});
    std::string post_json(Node& n);
    void op(Node& n);
    void node_down(Node& n);
};

std::string cfg_json(const std::string& ser);
std::string cfg_ser(const cluster_config& c);
const char* ty_name(int t);
} // namespace h
