// Programs of operations on two real buffers, and serialized objects read back.
// usage: buffers OUT MODE SEED COUNT SECONDS    MODE: small (all short programs on small buffers, SEED = shard of COUNT),
//        random (programs over all size classes), objects (serialization)
#include "cornerstone.hxx"
#include <chrono>
#include <random>
#include <set>
#include <sstream>
using namespace cornerstone;
static FILE* out;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::set<std::string> seen;
static void rec(const std::string& s)
{
    if (seen.insert(s).second) fprintf(out, "%s\n", s.c_str());
}
static std::string runs(const byte* d, size_t n)
{
    std::string r = "[";
    for (size_t i = 0; i < n;)
    {
        size_t j = i + 1;
        while (j < n && d[j] == (byte)(d[j - 1] + 1)) ++j;
        r += (r.size() > 1 ? ",[" : "[") + std::to_string(d[i]) + "," + std::to_string(j - i) + "]";
        i = j;
    }
    return r + "]";
}
static std::string bytes_of(ulong v, int n)
{
    std::string r = "[";
    for (int i = 0; i < n; ++i) r += (i ? "," : "") + std::to_string((v >> (8 * i)) & 0xff);
    return r + "]";
}
static std::string str_of(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return "{\"n\":" + std::to_string(s.size()) + ",\"h\":\"" + std::to_string(h) + "\"}";
}
struct Prog
{
    bufptr b[2];
    std::string ev;
    Prog(size_t z0, size_t z1) : b{buffer::alloc(z0), buffer::alloc(z1)} {}
    void done(const char* op, int i, bool ok, const std::string& more)
    {
        ev += (ev.empty() ? "{\"op\":\"" : ",{\"op\":\"") + std::string(op) + "\",\"i\":" + std::to_string(i + 1) + more + ",\"r\":" + (ok ? "1" : "0") +
            ",\"p\":[" + std::to_string(b[0]->pos()) + "," + std::to_string(b[1]->pos()) + "],\"z\":[" + std::to_string(b[0]->size()) + "," + std::to_string(b[1]->size()) + "]}";
    }
    template <class F> bool tried(F&& f)
    {
        try { f(); return true; }
        catch (std::exception&) { return false; }
    }
    void put_byte(int i, byte v) { bool k = tried([&]() { b[i]->put(v); }); done("put", i, k, ",\"k\":\"byte\",\"v\":" + std::to_string(v)); }
    void put_int(int i, int32 v) { bool k = tried([&]() { b[i]->put(v); }); done("put", i, k, ",\"k\":\"int\",\"v\":" + bytes_of((ulong)(uint)v, 4)); }
    void put_ulong(int i, ulong v) { bool k = tried([&]() { b[i]->put(v); }); done("put", i, k, ",\"k\":\"ulong\",\"v\":" + bytes_of(v, 8)); }
    void put_str(int i, const std::string& v) { bool k = tried([&]() { b[i]->put(v); }); done("put", i, k, ",\"k\":\"str\",\"v\":" + str_of(v)); }
    void get_byte(int i) { byte v = 0; bool k = tried([&]() { v = b[i]->get_byte(); }); done("get", i, k, ",\"k\":\"byte\",\"v\":" + std::to_string(v)); }
    void get_int(int i) { int32 v = 0; bool k = tried([&]() { v = b[i]->get_int(); }); done("get", i, k, ",\"k\":\"int\",\"v\":" + bytes_of((ulong)(uint)v, 4)); }
    void get_ulong(int i) { ulong v = 0; bool k = tried([&]() { v = b[i]->get_ulong(); }); done("get", i, k, ",\"k\":\"ulong\",\"v\":" + bytes_of(v, 8)); }
    void get_str(int i) { const char* v = b[i]->get_str(); done("getstr", i, v != nullptr, ",\"v\":" + str_of(v ? v : "")); }
    void put_raw(int i, size_t n, byte first)
    {
        bufptr t = buffer::alloc(n);
        for (size_t k = 0; k < n; ++k) t->data()[k] = (byte)(first + k);
        bool k = tried([&]() { b[i]->put(*t); });
        done("putraw", i, k, ",\"v\":" + runs(t->data(), n));
    }
    void get_raw(int i, size_t n)
    {
        bufptr t = buffer::alloc(n);
        memset(t->data(), 0, n);
        bool k = tried([&]() { b[i]->get(t); });
        done("getraw", i, k, ",\"n\":" + std::to_string(n) + ",\"v\":" + runs(t->data(), k ? n : 0));
    }
    void put_buf(int i) { bool k = tried([&]() { b[i]->put(*b[1 - i]); }); done("putbuf", i, k, ""); }
    void get_buf(int i) { bool k = tried([&]() { b[i]->get(b[1 - i]); }); done("getbuf", i, k, ""); }
    void copy(int i) { bool k = tried([&]() { b[1 - i] = buffer::copy(*b[i]); }); done("copy", i, k, ""); }
    void pos(int i, size_t p) { b[i]->pos(p); done("pos", i, true, ",\"n\":" + std::to_string(p > 1000000 ? 1000000 : p)); }
    void realloc(int i, size_t n) { b[i] = buffer::alloc(n); done("alloc", i, true, ",\"n\":" + std::to_string(n)); }
    void stream_out(int i)
    {
        std::ostringstream o;
        bool k = tried([&]() { o << *b[i]; });
        std::string s = o.str();
        done("streamout", i, k, ",\"v\":" + runs((const byte*)s.data(), s.size()));
    }
    void stream_in(int i, byte first)
    {
        size_t n = b[i]->size() - b[i]->pos();
        std::string s(n, 0);
        for (size_t k = 0; k < n; ++k) s[k] = (char)(byte)(first + k);
        std::istringstream in(s);
        bool k = tried([&]() { in >> *b[i]; });
        done("streamin", i, k, ",\"v\":" + runs((const byte*)s.data(), n));
    }
};
static ulong big(std::mt19937& g)
{
    static const ulong v[] = {0, 1, 127, 128, 255, 256, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull};
    return g() % 2 ? v[g() % 13] : ((ulong)g() << 32 | g());
}
static std::string word(std::mt19937& g, size_t n)
{
    std::string s;
    unsigned first = g();
    for (size_t i = 0; i < n; ++i) s += (char)(1 + (n > 20 ? first + i : g()) % 255);
    return s;
}
// every program of `depth` operations from this list
static const int OPS = 22;
static void op(Prog& p, int o)
{
    switch (o)
    {
    case 0: p.put_byte(0, 0x80); break;
    case 1: p.put_int(0, (int32)0x80fe017f); break;
    case 2: p.put_ulong(0, 0x8182fffe017f00ffull); break;
    case 3: p.put_str(0, "\xffy"); break;
    case 4: p.put_str(0, ""); break;
    case 5: p.get_byte(0); break;
    case 6: p.get_int(0); break;
    case 7: p.get_ulong(0); break;
    case 8: p.get_str(0); break;
    case 9: p.put_raw(0, 3, 254); break;
    case 10: p.get_raw(0, 2); break;
    case 11: p.put_buf(0); break;
    case 12: p.get_buf(0); break;
    case 13: p.copy(0); break;
    case 14: p.copy(1); break;
    case 15: p.pos(0, 0); break;
    case 16: p.pos(0, 1); break;
    case 17: p.pos(0, p.b[0]->size() >= 2 ? p.b[0]->size() - 2 : 5); break;
    case 18: p.pos(0, (size_t)-1); break;
    case 19: p.pos(1, 1); break;
    case 20: p.stream_out(0); break;
    case 21: p.stream_in(0, 77); break;
    }
}
static std::string conf_text(cluster_config& c)
{
    std::string s = std::to_string(c.get_log_idx()) + " " + std::to_string(c.get_prev_log_idx());
    for (auto& e : c.get_servers()) s += " " + std::to_string(e->get_id()) + ":" + str_of(e->get_endpoint());
    return s;
}
static std::string buf_text(buffer& b)
{
    size_t p = b.pos();
    b.pos(0);
    std::string s((const char*)b.data(), b.size());
    b.pos(p);
    return str_of(s);
}
static std::string q(std::string s)
{
    std::string r;
    for (char c : s) { if (c == '"') r += '\''; else r += c; }
    return "\"" + r + "\"";
}
static void trip(const char* what, const std::string& in, const std::string& o, size_t left)
{
    rec(std::string("{\"o\":\"") + what + "\",\"in\":" + q(in) + ",\"out\":" + q(o) + ",\"left\":" + std::to_string(left) + "}");
}
static ptr<cluster_config> rnd_conf(std::mt19937& g)
{
    static const size_t lens[] = {1, 2, 21, 100, 127, 128, 255, 256, 32760, 40000};
    ptr<cluster_config> c(cs_new<cluster_config>(big(g), big(g)));
    int n = g() % 6 == 0 ? (g() % 4 == 0 ? 300 : 20) : g() % 5;
    for (int i = 0; i < n; ++i) c->get_servers().push_back(cs_new<srv_config>((int32)big(g), word(g, lens[g() % (g() % 20 == 0 ? 10 : 5)])));
    return c;
}
static void objects(std::mt19937& g)
{
    static const size_t sizes[] = {0, 1, 7, 100, 255, 256, 32700, 32758, 32759, 32760, 32767, 32768, 32769, 70000};
    switch (g() % 5)
    {
    case 0: {
        srv_config c((int32)big(g), word(g, sizes[1 + g() % 13]));
        bufptr b = c.serialize();
        ptr<srv_config> d = srv_config::deserialize(*b);
        trip("server", std::to_string(c.get_id()) + str_of(c.get_endpoint()), std::to_string(d->get_id()) + str_of(d->get_endpoint()), b->size() - b->pos());
        break;
    }
    case 1: {
        ptr<cluster_config> c = rnd_conf(g);
        bufptr b = c->serialize();
        ptr<cluster_config> d = cluster_config::deserialize(*b);
        trip("config", conf_text(*c), conf_text(*d), b->size() - b->pos());
        break;
    }
    case 2: {
        size_t n = sizes[g() % 14];
        std::string w = word(g, n);
        bufptr b = buffer::alloc(n);
        memcpy(b->data(), w.data(), n);
        ulong t = big(g);
        log_val_type vt = (log_val_type)(1 + g() % 5);
        b->pos(g() % 3 == 0 ? g() % (n + 1) : 0);
        log_entry e(t, std::move(b), vt);
        bufptr s = e.serialize();
        bufptr s2 = e.serialize(); // serializing leaves the entry as it was
        ptr<log_entry> d = log_entry::deserialize(*s);
        ptr<log_entry> d2 = log_entry::deserialize(*s2);
        std::string in = std::to_string(t) + " " + std::to_string((int)vt) + str_of(w);
        trip("entry", in, std::to_string(d->get_term()) + " " + std::to_string((int)d->get_val_type()) + buf_text(d->get_buf()), d->get_buf().pos());
        trip("entry", in, std::to_string(d2->get_term()) + " " + std::to_string((int)d2->get_val_type()) + buf_text(d2->get_buf()), 0);
        break;
    }
    case 3: {
        ptr<cluster_config> c = rnd_conf(g);
        ulong i = big(g), t = big(g), z = big(g);
        snapshot s(i, t, c, z);
        bufptr b = s.serialize();
        ptr<snapshot> d = snapshot::deserialize(*b);
        trip("snapshot", std::to_string(i) + " " + std::to_string(t) + " " + std::to_string(z) + " " + conf_text(*c),
            std::to_string(d->get_last_log_idx()) + " " + std::to_string(d->get_last_log_term()) + " " + std::to_string(d->size()) + " " + conf_text(*d->get_last_config()), b->size() - b->pos());
        break;
    }
    case 4: {
        ptr<cluster_config> c = rnd_conf(g);
        ptr<snapshot> s(cs_new<snapshot>(big(g), big(g), c, big(g)));
        size_t n = sizes[g() % 14];
        std::string w = word(g, n);
        bufptr data = buffer::alloc(n);
        memcpy(data->data(), w.data(), n);
        size_t from = g() % 4 == 0 ? g() % (n + 1) : 0; // what is in front of the position is not part of the chunk
        data->pos(from);
        ulong o = big(g);
        bool last = g() % 2;
        snapshot_sync_req r(s, o, std::move(data), last);
        bufptr b = r.serialize();
        ptr<snapshot_sync_req> d = snapshot_sync_req::deserialize(*b);
        std::string in = std::to_string(s->get_last_log_idx()) + " " + std::to_string(s->get_last_log_term()) + " " + conf_text(*c) + " " + std::to_string(o) + (last ? "L" : "-") + str_of(w.substr(from));
        snapshot& e = d->get_snapshot();
        std::string got = std::to_string(e.get_last_log_idx()) + " " + std::to_string(e.get_last_log_term()) + " " + conf_text(*e.get_last_config()) + " " + std::to_string(d->get_offset()) + (d->is_done() ? "L" : "-") + buf_text(d->get_data());
        trip("chunk", in, got, d->get_data().pos());
        break;
    }
    }
}
int main(int c, char** a)
{
    out = fopen(a[1], "w");
    std::string mode = a[2];
    unsigned seed = (unsigned)atoi(a[3]);
    long count = atol(a[4]), n = 0;
    double secs = atof(a[5]), start = now();
    if (mode == "small")
    {
        static const size_t sz[][2] = {{0, 0}, {1, 1}, {2, 3}, {4, 2}, {5, 5}, {8, 1}, {9, 12}, {13, 4}, {0x7fff, 3}, {0x8000, 3}, {3, 0x8000}};
        int depth = atoi(a[6]);
        long total = 1;
        for (int k = 0; k < depth; ++k) total *= OPS;
        int sparse = atoi(a[7]); // 0: every program on every pair of sizes; 1: each on one of them
        for (long j = seed; j < total * (sparse ? 1 : 11); j += count)
        {
            if (now() - start > secs) break;
            long i = sparse ? j : j / 11;
            auto& z = sz[sparse ? (j / count) % 11 : j % 11];
            Prog p(z[0], z[1]);
            long x = i;
            p.stream_in(0, 200);
            p.stream_in(1, 9);
            for (int k = 0; k < depth; ++k) { op(p, (int)(x % OPS)); x /= OPS; }
            rec("{\"z\":[" + std::to_string(z[0]) + "," + std::to_string(z[1]) + "],\"ev\":[" + p.ev + "]}");
            ++n;
        }
    }
    else
        for (long r = 0; r < count && now() - start < secs; ++r)
        {
            std::mt19937 g(seed * 1000003u + (unsigned)r);
            ++n;
            if (mode == "objects") { objects(g); continue; }
            static const size_t sizes[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 17, 40, 100, 255, 256, 257, 300, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000};
            size_t z0 = sizes[g() % 27], z1 = sizes[g() % 27];
            Prog p(z0, z1);
            p.stream_in(0, (byte)g());
            p.stream_in(1, (byte)g());
            int steps = 5 + g() % 25;
            std::vector<std::pair<int, std::pair<size_t, int>>> marks; // where what kind of value was put
            for (int k = 0; k < steps; ++k)
            {
                int i = g() % 3 == 0, o = g() % 20;
                size_t at = p.b[i]->pos(), rest = p.b[i]->size() - at;
                size_t len[] = {0, 1, 2, rest / 2, rest, rest + 1, rest > 0 ? rest - 1 : 0};
                size_t l = len[g() % 7];
                switch (o)
                {
                case 0: marks.push_back({i, {at, 0}}); p.put_byte(i, (byte)g()); break;
                case 1: case 2: marks.push_back({i, {at, 1}}); p.put_int(i, (int32)big(g)); break;
                case 3: case 4: marks.push_back({i, {at, 2}}); p.put_ulong(i, big(g)); break;
                case 5: case 6: marks.push_back({i, {at, 3}}); p.put_str(i, word(g, g() % 2 ? (l > 0 ? l - 1 : 0) : g() % 9)); break;
                case 7: p.put_raw(i, l, (byte)g()); break;
                case 8: p.get_raw(i, l); break;
                case 9: p.get_byte(i); break;
                case 10: p.get_int(i); break;
                case 11: p.get_ulong(i); break;
                case 12: p.get_str(i); break;
                case 13: p.put_buf(i); break;
                case 14: p.get_buf(i); break;
                case 15: if (g() % 3 == 0) p.copy(i); else p.stream_out(i); break;
                case 16: if (g() % 4 == 0) { p.realloc(i, sizes[g() % 27]); p.stream_in(i, (byte)g()); } else p.stream_in(i, (byte)g()); break;
                case 17: p.pos(i, g() % 2 ? l : (g() % 4 ? g() % (p.b[i]->size() + 1) : (size_t)-1)); break;
                case 18: case 19:
                    if (!marks.empty())
                    {
                        auto& m = marks[g() % marks.size()];
                        p.pos(m.first, m.second.first);
                        if (m.second.second == 0) p.get_byte(m.first);
                        else if (m.second.second == 1) p.get_int(m.first);
                        else if (m.second.second == 2) p.get_ulong(m.first);
                        else p.get_str(m.first);
                    }
                    break;
                }
            }
            for (auto& m : marks)
            {
                p.pos(m.first, m.second.first);
                if (m.second.second == 0) p.get_byte(m.first);
                else if (m.second.second == 1) p.get_int(m.first);
                else if (m.second.second == 2) p.get_ulong(m.first);
                else p.get_str(m.first);
            }
            for (int i = 0; i < 2; ++i)
            {
                p.pos(i, 0);
                p.stream_out(i);
            }
            rec("{\"z\":[" + std::to_string(z0) + "," + std::to_string(z1) + "],\"ev\":[" + p.ev + "]}");
        }
    fclose(out);
    printf("executions %ld distinct %ld complete %d\n", n, (long)seen.size(), mode == "small" && now() - start < secs);
}
