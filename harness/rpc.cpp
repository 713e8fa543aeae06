// Calls through the real asio RPC client and listener under explored schedules; faults: no listener, a handler that
// throws or gives no response, a peer that accepts and breaks the connection at some byte of the response.
// usage: rpc OUT SEED RUNS SECONDS
#include "cornerstone.hxx"
#include "ports.h"
#include <fcntl.h>
#include <map>
#include <thread>
using namespace cornerstone;
static const int64_t MS = 1000000;
static std::mt19937* srv_rng;
static std::map<ulong, int> mode_of; // what the handler does with a call: 0 respond, 1 no response, 2 throw
static std::mutex mode_lock;

static std::string hash_of(buffer& b)
{
    size_t p = b.pos();
    b.pos(0);
    uint64_t h = 1469598103934665603ull;
    const byte* d = b.data();
    for (size_t i = 0; i < b.size(); ++i) { h ^= d[i]; h *= 1099511628211ull; }
    b.pos(p);
    return std::to_string(b.size()) + "." + std::to_string(h % 100000000);
}
static std::string desc(req_msg& r)
{
    std::string s = std::to_string((int)r.get_type()) + " " + std::to_string(r.get_src()) + " " + std::to_string(r.get_dst()) + " " + std::to_string(r.get_term()) + " " +
        std::to_string(r.get_last_log_term()) + " " + std::to_string(r.get_last_log_idx()) + " " + std::to_string(r.get_commit_idx());
    for (auto& e : r.log_entries())
        s += " [" + std::to_string(e->get_term()) + " " + std::to_string((int)e->get_val_type()) + " " + hash_of(e->get_buf()) + "]";
    return s;
}
static std::string desc(resp_msg& r)
{
    return std::to_string((int)r.get_type()) + " " + std::to_string(r.get_src()) + " " + std::to_string(r.get_dst()) + " " + std::to_string(r.get_term()) + " " +
        std::to_string(r.get_next_idx()) + " " + (r.get_accepted() ? "1" : "0");
}
static std::string q(const char* e, ulong id, const std::string& d, int client = -1)
{
    return std::string("{\"e\":\"") + e + "\",\"id\":" + std::to_string(id) + (client >= 0 ? ",\"c\":" + std::to_string(client) : "") + ",\"d\":\"" + d + "\"}";
}
static ulong big(std::mt19937& g)
{
    static const ulong v[] = {0, 1, 255, 256, 0x7fffffffull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0xffffffffffffffffull};
    return g() % 2 ? v[g() % 9] : ((ulong)g() << 32 | g());
}
static int32 small(std::mt19937& g)
{
    static const int32 v[] = {0, 1, -1, 255, 256, 65536, 0x7fffffff, (int32)0x80000000};
    return g() % 2 ? v[g() % 8] : (int32)g();
}
// the message handler: calls are told apart by the commit index
namespace cornerstone
{
ptr<resp_msg> raft_server::process_req(req_msg& r)
{
    ulong id = r.get_commit_idx() & 0xffff;
    ex::ev(q("handle", id, desc(r)));
    int m;
    {
        std::lock_guard<std::mutex> l(mode_lock);
        auto it = mode_of.find(id);
        m = it == mode_of.end() ? 0 : it->second;
    }
    std::mt19937& g = *srv_rng;
    if (g() % 4 == 0) ds::sleep_ns((int64_t)(g() % 20) * MS);
    if (m == 1) { ex::ev(q("nores", id, "")); return ptr<resp_msg>(); }
    if (m == 2) { ex::ev(q("nores", id, "")); throw std::runtime_error("as told"); }
    ptr<resp_msg> resp(cs_new<resp_msg>(big(g), (msg_type)(1 + g() % 16), small(g), small(g), big(g), g() % 2 == 0));
    ex::ev(q("respond", id, desc(*resp)));
    return resp;
}
}
struct Quiet : logger
{
    void debug(const std::string&) override {}
    void info(const std::string&) override {}
    void warn(const std::string&) override {}
    void err(const std::string&) override {}
};
static int nonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); return fd; }
// a peer that breaks: accepts connections, reads a request, sends the first `bytes` of a response and closes
static void bad_peer(int lfd, int bytes, bool& stop)
{
    std::vector<std::pair<int, size_t>> cs;
    while (!stop)
    {
        int f = accept(lfd, nullptr, nullptr);
        if (f >= 0) cs.push_back({nonblock(f), 0});
        for (auto& c : cs)
        {
            char b[4096];
            ssize_t k = c.first < 0 ? 0 : recv(c.first, b, sizeof b, 0);
            if (k > 0) c.second += (size_t)k;
            if (c.first >= 0 && (k == 0 || c.second >= 45))
            {
                std::string part(bytes, '\0');
                if (k != 0) send(c.first, part.data(), part.size(), MSG_NOSIGNAL);
                close(c.first);
                c.first = -1;
            }
        }
        ds::sleep_ns(1 * MS);
    }
    for (auto& c : cs) if (c.first >= 0) close(c.first);
    close(lfd);
}
int main(int c, char** a)
{
    signal(SIGPIPE, SIG_IGN);
    take_ports();
    FILE* out = fopen(a[1], "w");
    unsigned seed = atoi(a[2]);
    long runs = atol(a[3]);
    double secs = atof(a[4]), start = ex::now();
    long n = 0, d = 0;
    for (long r = 0; r < runs && ex::now() - start < secs; ++r)
    {
        ex::Options o;
        o.random = true;
        o.max = 2;
        o.seed = seed * 7919 + (unsigned)r;
        std::mt19937 prog(seed * 100003u + (unsigned)r);
        int scen = prog() % 6; // 0-2: good server, 3: handler faults, 4: nobody listens, 5: peer breaks the connection
        bool faults = scen >= 3;
        auto res = ex::explore(out, "\"sc\":" + std::to_string(scen) + ",\"faults\":" + (faults ? "1" : "0"), o, [&]() {
            ds::virtual_time = true;
            ds::nprocs = 2 + prog() % 2;
            ds::io_wait_ms = 2;
            ds::time_limit = ds::now_ns + 400LL * 1000 * MS;
            std::mt19937 sr(prog());
            srv_rng = &sr;
            std::unique_ptr<asio_service> svc(new asio_service());
            ptr<logger> l = cs_new<Quiet>();
            int port = 0, probe = bound_socket(port, n);
            ptr<rpc_listener> lis;
            bool stop_bad = false;
            std::thread bad;
            if (scen == 5)
            {
                listen(probe, 16);
                nonblock(probe);
                int bytes = prog() % 27;
                if (bytes >= 26) bytes = 25;
                bad = std::thread([&, bytes]() { bad_peer(probe, bytes, stop_bad); });
            }
            auto serve = [&]() {
                try { lis = svc->create_rpc_listener((ushort)port, l); }
                catch (std::exception&) { ex::not_run(); }
                // only process_req is ever called on the handler, and this program defines it
                static char room[sizeof(raft_server)] __attribute__((aligned(64)));
                ptr<msg_handler> h((raft_server*)room, [](raft_server*) {});
                lis->listen(h);
            };
            if (scen <= 3)
            {
                close(probe);
                serve();
            }
            std::string ep = "tcp://127.0.0.1:" + std::to_string(port);
            int ncli = 1 + prog() % 2, nth = 1 + prog() % 2;
            std::vector<ptr<rpc_client>> cli;
            for (int i = 0; i < ncli; ++i) cli.push_back(svc->create_client(ep));
            std::atomic<int> open{0};
            std::vector<std::thread> ts;
            static const size_t sizes[] = {0, 1, 7, 100, 5000, 32760, 32768, 70000, 400000};
            auto call = [&](std::mt19937& g, ulong id, int who) {
                ptr<req_msg> req(cs_new<req_msg>(big(g), (msg_type)(1 + g() % 16), small(g), small(g), big(g), big(g), (big(g) & ~0xffffull) | id));
                int es = g() % 3 ? g() % 5 : 0;
                for (int e = 0; e < es; ++e)
                {
                    size_t sz = sizes[g() % (g() % 8 == 0 ? 9 : 5)];
                    bufptr b = buffer::alloc(sz);
                    unsigned x = g();
                    for (size_t i = 0; i < sz; ++i) b->put((byte)(x + i * 13 + i / 251));
                    b->pos(g() % 3 == 0 ? sz : 0);
                    req->log_entries().push_back(cs_new<log_entry>(big(g), std::move(b), (log_val_type)(1 + g() % 5)));
                }
                ex::ev(q("call", id, desc(*req), who));
                ++open;
                rpc_handler done = [&, id](ptr<resp_msg>& rsp, const ptr<rpc_exception>& x) {
                    if (rsp && !x) ex::ev(q("done", id, desc(*rsp)));
                    else if (x && !rsp) ex::ev(q("fail", id, x->req() && (x->req()->get_commit_idx() & 0xffff) == id ? "" : "other request in the error"));
                    else ex::ev(q("fail", id, "both or neither"));
                    --open;
                };
                cli[who]->send(req, done);
            };
            for (int t = 0; t < nth; ++t)
            {
                unsigned s = prog();
                ts.emplace_back([&, t, s]() {
                    std::mt19937 g(s);
                    int calls = 1 + g() % 4;
                    for (int k = 0; k < calls; ++k)
                    {
                        ulong id = (ulong)(1 + t * 10 + k);
                        if (scen == 3)
                        {
                            std::lock_guard<std::mutex> l(mode_lock);
                            mode_of[id] = g() % 3;
                        }
                        call(g, id, g() % cli.size());
                        if (g() % 3 == 0) ds::sleep_ns((int64_t)(g() % 15) * MS);
                    }
                });
            }
            auto settle = [&]() { for (int k = 0; k < 200 && open > 0; ++k) ds::sleep_ns(50 * MS); };
            for (auto& t : ts) t.join();
            settle();
            ds::sleep_ns(100 * MS); // a second completion would come by now
            stop_bad = true;
            if (bad.joinable()) bad.join();
            if (faults)
            {
                // the peer serves again: the first call of a client may still find the broken connection, the second does not
                if (scen == 4) close(probe);
                if (scen >= 4) serve();
                ex::ev("{\"e\":\"heal\"}");
                std::mt19937 g(prog());
                for (int k = 0; k < 2; ++k)
                    for (int i = 0; i < ncli; ++i)
                    {
                        call(g, (ulong)(100 + 10 * k + i), i);
                        settle();
                    }
                ds::sleep_ns(100 * MS);
            }
        });
        n += res.executions;
        d += res.distinct;
    }
    printf("executions %ld distinct %ld complete 0\n", n, d);
}
