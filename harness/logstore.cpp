// Runs histories of log store operations on the real fs_log_store and records what every step did.
// usage: logstore DIR OUT hist FILE MODE BUF0,BUF1       every line of FILE is a history "op;op;..."
//        logstore DIR OUT rand SEED RUNS LEN
//        logstore DIR OUT conc SEED RUNS
// A record is {"pre":[store,store],"ops":[...],"post":[store,store]}; equal records are written once.
#include "cornerstone.hxx"
#include "detsched.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>
using namespace cornerstone;

// ---- fault injection: the n-th remove/truncate during a compaction fails
static int fail_at = 0, calls_seen = 0;
static bool inject()
{
    if (!fail_at) return false;
    return ++calls_seen == fail_at;
}
extern "C" int remove(const char* p) noexcept
{
    static auto real = (int (*)(const char*))dlsym(RTLD_NEXT, "remove");
    if (!strstr(p, ".bak") && inject()) { errno = EIO; return -1; }
    return real(p);
}
extern "C" int truncate64(const char* p, __off64_t n) noexcept
{
    static auto real = (int (*)(const char*, __off64_t))dlsym(RTLD_NEXT, "truncate64");
    if (inject()) { errno = EIO; return -1; }
    return real(p, n);
}

static std::string dir;
static FILE* out;
static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    for (size_t i = 0; i < n; ++i) { h ^= ((const unsigned char*)p)[i]; h *= 1099511628211ull; }
    return h;
}
static std::string id_of(log_entry& e)
{
    char s[80];
    buffer& b = e.get_buf();
    size_t p = b.pos();
    b.pos(0);
    uint64_t h = fnv(b.data(), b.size());
    b.pos(p);
    snprintf(s, sizeof s, "%d.%zu.%06x", (int)e.get_val_type(), b.size(), (unsigned)(h & 0xffffff));
    return s;
}
static std::string jent(log_entry& e)
{
    return "[" + std::to_string(e.get_term()) + ",\"" + id_of(e) + "\"]";
}
static const size_t sizes[] = {0, 1, 5, 300, 32750, 40000};
static ptr<log_entry> make(int n, int k)
{
    size_t sz = sizes[k % 6];
    bufptr b = buffer::alloc(sz);
    for (size_t i = 0; i < sz; ++i) b->put((byte)(n * 31 + i * 7 + k));
    b->pos(0);
    static const log_val_type ty[] = {log_val_type::app_log, log_val_type::conf, log_val_type::cluster_server, log_val_type::app_log};
    // terms beyond 32 bits exercise the whole width of the stored field
    ulong term = (ulong)(1 + n / 3);
    if (n % 7 == 6) term += 1000;
    return cs_new<log_entry>(term, std::move(b), ty[n % 4]);
}

struct Store
{
    std::string folder;
    int buf = -1;
    std::unique_ptr<fs_log_store> s;
    void wipe()
    {
        s.reset();
        for (const char* f : {"store.idx", "store.dat", "store.sti", "store.idx.bak", "store.dat.bak", "store.sti.bak"})
            unlink((folder + "/" + f).c_str());
    }
    void open() { s = std::make_unique<fs_log_store>(folder, buf); }
};
static void copy_file(const std::string& a, const std::string& b)
{
    std::ifstream i(a, std::ios::binary);
    std::ofstream o(b, std::ios::binary | std::ios::trunc);
    char t[65536];
    while (i.read(t, sizeof t) || i.gcount() > 0) o.write(t, i.gcount());
}

static const char* gone = "{\"start\":0,\"next\":0,\"last\":[0,\"gone\"],\"e\":[],\"t\":[],\"r\":[],\"x\":[]}";
static std::string obs(Store& store, unsigned order, std::mt19937* sample)
{
    if (!store.s) return gone;
    fs_log_store& s = *store.s;
    std::string parts[3];
    ulong st = s.start_index(), nx = s.next_slot();
    auto idx = [](ulong v) { return std::to_string((long long)v); };
    if (nx < st || nx - st > 100000)
        return "{\"start\":" + idx(st) + ",\"next\":" + idx(nx) + ",\"last\":[0,\"?\"],\"e\":[],\"t\":[],\"r\":[],\"x\":[]}";
    for (unsigned q = 0; q < 3; ++q)
    {
        std::string r;
        switch ((q + order) % 3)
        {
        case 0: // entries
            for (ulong k = 0; k < nx - st; ++k)
            {
                ulong i = (order & 4) ? nx - 1 - k : st + k;
                std::string one;
                try
                {
                    ptr<log_entry> e = s.entry_at(i);
                    one = e ? jent(*e) : "[0,\"null\"]";
                }
                catch (std::exception&) { one = "[0,\"throw\"]"; }
                if (order & 4) r = one + (r.empty() ? "" : ",") + r;
                else r += (r.empty() ? "" : ",") + one;
            }
            parts[0] = "\"e\":[" + r + "]";
            break;
        case 1: // terms
            for (ulong k = 0; k < nx - st; ++k)
            {
                ulong i = (order & 8) ? nx - 1 - k : st + k;
                std::string one;
                try { one = idx(s.term_at(i)); }
                catch (std::exception&) { one = "-1"; }
                if (order & 8) r = one + (r.empty() ? "" : ",") + r;
                else r += (r.empty() ? "" : ",") + one;
            }
            parts[1] = "\"t\":[" + r + "]";
            break;
        case 2: // ranges
        {
            auto range = [&](ulong a, ulong b) {
                std::string v;
                try
                {
                    auto es = s.log_entries(a, b);
                    if (!es) v = "";
                    else
                        for (auto& e : *es) v += (v.empty() ? "" : ",") + (e ? jent(*e) : std::string("[0,\"null\"]"));
                }
                catch (std::exception&) { v = "[0,\"throw\"]"; }
                r += (r.empty() ? "" : ",") + ("[" + idx(a) + "," + idx(b) + ",[" + v + "]]");
            };
            if (!sample)
            {
                for (ulong a = st; a <= nx; ++a)
                    for (ulong b = a; b <= nx + 1; ++b) range(a, b);
            }
            else
                for (int k = 0; k < 4; ++k)
                {
                    ulong a = st + (*sample)() % (nx - st + 1);
                    range(a, a + (*sample)() % (nx - a + 2));
                }
            parts[2] = "\"r\":[" + r + "]";
            break;
        }
        }
    }
    // reads outside the log
    std::string x;
    try { ptr<log_entry> e = s.entry_at(nx); x += e ? "\"entry\"" : "\"null\""; } catch (std::exception&) { x += "\"throw\""; }
    try { ptr<log_entry> e = s.entry_at(st - 1); x += e ? ",\"entry\"" : ",\"null\""; } catch (std::exception&) { x += ",\"throw\""; }
    try { s.term_at(st - 1); x += ",\"ok\""; } catch (std::exception&) { x += ",\"throw\""; }
    try { auto e = s.log_entries(st - 1, nx); x += ",\"ok\""; } catch (std::exception&) { x += ",\"throw\""; }
    try { auto e = s.pack(st - 1, 1); x += ",\"ok\""; } catch (std::exception&) { x += ",\"throw\""; }
    std::string l;
    try { ptr<log_entry> e = s.last_entry(); l = e ? jent(*e) : "[0,\"null\"]"; } catch (std::exception&) { l = "[0,\"throw\"]"; }
    return "{\"start\":" + idx(st) + ",\"next\":" + idx(nx) + ",\"last\":" + l + "," + parts[0] + "," + parts[1] + "," + parts[2] +
        ",\"x\":[" + x + "]}";
}

static std::unordered_set<std::string> seen;
static long nops = 0, nunits = 0;
static void emit(const std::string& rec)
{
    ++nunits;
    if (!seen.insert(rec).second) return;
    fputs(rec.c_str(), out);
    fputc('\n', out);
}

struct Run
{
    Store st[2];
    int n = 0;
    bool dead = false;
    // executes one operation; returns its record
    std::string exec(const std::string& op)
    {
        ++nops;
        std::istringstream is(op);
        std::string c;
        is >> c;
        int w = c[1] - '0';
        Store& s = st[w];
        std::string head = "{\"o\":\"" + std::string(1, c[0]) + "\",\"s\":" + std::to_string(w + 1);
        std::string res = "\"ok\"", args;
        try
        {
            switch (c[0])
            {
            case 'A':
            {
                int k; is >> k;
                auto e = make(n++, k);
                args = ",\"e\":" + jent(*e);
                ulong i = s.s->append(e);
                res = std::to_string((long long)i);
                args += ",\"i\":" + res; res = "\"ok\"";
                break;
            }
            case 'W':
            {
                long long i; int k; is >> i >> k;
                auto e = make(n++, k);
                args = ",\"e\":" + jent(*e) + ",\"i\":" + std::to_string(i);
                s.s->write_at((ulong)i, e);
                break;
            }
            case 'C':
            {
                long long i; is >> i;
                args = ",\"i\":" + std::to_string(i);
                res = s.s->compact((ulong)i) ? "\"ok\"" : "\"false\"";
                break;
            }
            case 'F': // compaction with a failing file operation
            {
                long long i; int k; is >> i >> k;
                args = ",\"i\":" + std::to_string(i);
                fail_at = k; calls_seen = 0;
                try { res = s.s->compact((ulong)i) ? "\"ok\"" : "\"false\""; }
                catch (...) { fail_at = 0; throw; }
                fail_at = 0;
                break;
            }
            case 'O': // close and open
                is >> s.buf;
                s.s.reset();
                s.open();
                break;
            case 'K': // abandon: the files as they are now, opened elsewhere
            {
                is >> s.buf;
                std::string to = s.folder.back() == 'x' ? s.folder.substr(0, s.folder.size() - 1) : s.folder + "x";
                for (const char* f : {"store.idx", "store.dat", "store.sti"}) copy_file(s.folder + "/" + f, to + "/" + f);
                s.wipe();
                s.folder = to;
                s.open();
                break;
            }
            case 'P': // pack here, apply there
            {
                long long i; int cnt; is >> i >> cnt;
                Store& d = st[1 - w];
                args = ",\"i\":" + std::to_string(i) + ",\"n\":" + std::to_string(cnt);
                bufptr p = s.s->pack((ulong)i, cnt);
                if (p->size() == 0) { res = "\"empty\""; break; }
                if ((ulong)i < d.s->start_index() || (ulong)i > d.s->next_slot()) { res = "\"skip\""; break; }
                d.s->apply_pack((ulong)i, *p);
                break;
            }
            }
        }
        catch (std::exception& x)
        {
            res = "\"throw\"";
        }
        if (!s.s) dead = true;
        return head + args + ",\"res\":" + res + "}";
    }
    // dense: observe after every operation; otherwise only at the end
    void history(const std::vector<std::string>& ops, size_t skip, bool dense, unsigned order, std::mt19937* sample)
    {
        n = 0;
        auto both = [&]() {
            std::string a = obs(st[0], order, sample);
            return "[" + a + "," + obs(st[1], order / 2, sample) + "]";
        };
        std::string pre, acc;
        pre = dense || sample ? both() : "[]";
        for (size_t i = 0; i < ops.size(); ++i)
        {
            acc += (acc.empty() ? "" : ",") + exec(ops[i]);
            bool look = dead || i + 1 == ops.size() || (dense && i + 1 >= skip) || (sample && !dense && (*sample)() % 3 == 0);
            if (!look) continue;
            std::string post = both();
            emit("{\"pre\":" + pre + ",\"ops\":[" + acc + "],\"post\":" + post + "}");
            pre = post;
            acc.clear();
            if (dead) break;
        }
    }
};

static std::vector<std::string> split(const std::string& l)
{
    std::vector<std::string> v;
    std::string t;
    std::istringstream is(l);
    while (std::getline(is, t, ';'))
        if (!t.empty()) v.push_back(t);
    return v;
}

// ---- concurrent reader
static void conc(unsigned seed, int runs)
{
    for (int r = 0; r < runs; ++r)
    {
        std::mt19937 rng(seed * 1000003u + r);
        Store s;
        s.folder = dir + "/0";
        s.buf = (int[]){1, 2, 3, -1}[rng() % 4];
        s.wipe();
        s.open();
        int pre = 2 + rng() % 4;
        std::vector<std::string> ids;
        std::vector<ulong> terms;
        int n = 0;
        auto add = [&]() {
            auto e = make(n, 1 + n % 3);
            ++n;
            ids.push_back(jent(*e));
            terms.push_back(e->get_term());
            return e;
        };
        for (int i = 0; i < pre; ++i) { auto e = add(); s.s->append(e); }
        if (rng() % 3 == 0) { s.s->compact(1); }
        ulong lo = s.s->start_index(), hi = s.s->next_slot();
        int extra = 1 + rng() % 3;
        std::vector<ptr<log_entry>> more;
        for (int i = 0; i < extra; ++i) more.push_back(add());
        std::vector<std::string> reads;
        ds::choose = [&](const std::vector<int>& c, int cur) -> int { return c[rng() % c.size()]; };
        bool rewrite = rng() % 3 == 0;
        std::thread w([&]() {
            for (auto& e : more)
            {
                if (rewrite) s.s->write_at(s.s->next_slot(), e);
                else s.s->append(e);
            }
        });
        std::mt19937 rr(seed * 7 + r);
        std::thread rd([&]() {
            for (int k = 0; k < 4; ++k)
            {
                ulong i = lo + rr() % (hi - lo);
                ulong j = i + 1 + rr() % (hi - i);
                int kind = rr() % 3;
                std::string v;
                try
                {
                    if (kind == 0) { auto e = s.s->entry_at(i); v = "[" + (e ? jent(*e) : std::string("[0,\"null\"]")) + "]"; j = i + 1; }
                    else if (kind == 1) { v = std::to_string((long long)s.s->term_at(i)); }
                    else
                    {
                        auto es = s.s->log_entries(i, j);
                        if (es) for (auto& e : *es) v += (v.empty() ? "" : ",") + (e ? jent(*e) : std::string("[0,\"null\"]"));
                        v = "[" + v + "]";
                    }
                }
                catch (std::exception&) { v = kind == 1 ? "-1" : "[[0,\"throw\"]]"; }
                reads.push_back(std::string(kind == 1 ? "{\"k\":\"t\",\"i\":" : "{\"k\":\"e\",\"i\":") + std::to_string((long long)(i - lo + 1)) + ",\"j\":" +
                    std::to_string((long long)(j - lo + 1)) + ",\"v\":" + v + "}");
            }
        });
        w.join();
        rd.join();
        ds::choose = nullptr;
        std::string log;
        for (size_t i = lo - 1; i < ids.size(); ++i) log += (log.empty() ? "" : ",") + ids[i];
        for (auto& x : reads) emit("{\"conc\":[" + log + "],\"read\":" + x + "}");
        std::string o = obs(s, 0, nullptr);
        emit("{\"conc\":[" + log + "],\"fin\":" + o + ",\"lo\":" + std::to_string((long long)lo) + "}");
    }
}

int main(int c, char** v)
{
    dir = v[1];
    out = fopen(v[2], "w");
    for (const char* f : {"/0", "/1", "/0x", "/1x"}) mkdir((dir + f).c_str(), 0700);
    std::string mode = v[3];
    if (mode == "conc")
    {
        ds::enable();
        conc(atoi(v[4]), atoi(v[5]));
        fclose(out);
        printf("ops %ld units %ld\n", nops, nunits);
        fflush(stdout);
        _exit(0);
    }
    Run run;
    auto fresh = [&](int b0, int b1) {
        run.dead = false;
        for (int i = 0; i < 2; ++i)
        {
            run.st[i].wipe();
            run.st[i].folder = dir + "/" + char('0' + i);
            run.st[i].wipe();
            run.st[i].buf = i ? b1 : b0;
            run.st[i].open();
        }
    };
    if (mode == "hist")
    {
        std::ifstream in(v[4]);
        bool dense = v[5][0] == 'd';
        int b0 = atoi(v[6]), b1 = atoi(strchr(v[6], ',') + 1);
        unsigned order = atoi(v[7]);
        std::string l;
        while (std::getline(in, l))
        {
            fresh(b0, b1);
            run.history(split(l), 0, dense, order++, nullptr);
        }
    }
    else
    {
        unsigned seed = atoi(v[4]);
        int runs = atoi(v[5]), len = atoi(v[6]);
        for (int r = 0; r < runs; ++r)
        {
            std::mt19937 g(seed * 1000003u + r);
            static const int bs[] = {1, 2, 3, 5, 8, 13, -1, -1};
            fresh(bs[g() % 8], bs[g() % 8]);
            run.n = 0;
            int prof = g() % 4;
            bool dense = g() % 2;
            std::string pre, acc;
            auto both = [&](unsigned o) {
                std::string a = obs(run.st[0], o, &g);
                return "[" + a + "," + obs(run.st[1], o / 2, &g) + "]";
            };
            pre = both(g());
            for (int k = 0; k < len; ++k)
            {
                int w = g() % 4 == 0;
                auto& s = *run.st[w].s;
                ulong a = s.start_index(), b = s.next_slot();
                int p = g() % 100;
                std::string op;
                char z = '0' + w;
                int kk = (g() % 40 == 0) ? 4 + g() % 2 : g() % 4;
                if (p < (prof == 1 ? 60 : 40)) op = std::string("A") + z + " " + std::to_string(kk);
                else if (p < 58) op = std::string("W") + z + " " + std::to_string(a + g() % (b - a + 1)) + " " + std::to_string(kk);
                else if (p < 61) op = std::string("W") + z + " " + std::to_string(g() % 2 ? b + 1 : a - 1) + " 1";
                else if (p < 67) op = std::string(g() % 3 ? "C" : "F") + z + " " + std::to_string(a + g() % (prof == 2 ? (b - a + 1) : (b - a) / 2 + 1)) + " " + std::to_string(1 + g() % 2);
                else if (p < 69) op = std::string("C") + z + " " + std::to_string(g() % 2 ? b + g() % 3 : a - 1);
                else if (p < 76) op = std::string("O") + z + " " + std::to_string(bs[g() % 8]);
                else if (p < 84) op = std::string("K") + z + " " + std::to_string(bs[g() % 8]);
                else
                {
                    auto& d = *run.st[1 - w].s;
                    ulong x = std::max(a, d.start_index()), y = std::min(b, d.next_slot());
                    ulong i = y >= x ? x + g() % (y - x + 1) : a + g() % (b - a + 1);
                    op = std::string("P") + z + " " + std::to_string(i) + " " + std::to_string(1 + g() % 6);
                }
                acc += (acc.empty() ? "" : ",") + run.exec(op);
                if (!run.dead && k + 1 < len && !(dense || g() % 4 == 0)) continue;
                std::string post = both(g());
                emit("{\"pre\":" + pre + ",\"ops\":[" + acc + "],\"post\":" + post + "}");
                pre = post;
                acc.clear();
                if (run.dead) break;
            }
        }
    }
    for (auto& s : run.st) s.wipe();
    fclose(out);
    printf("ops %ld units %ld unique %zu\n", nops, nunits, seen.size());
}
