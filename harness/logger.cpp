// Threads log through the real file logger while the service flushes and stops; the file is read back at the end.
// usage: logger OUT DIR SEED RUNS SECONDS
#include "cornerstone.hxx"
#include "explore.h"
#include <fstream>
#include <thread>
using namespace cornerstone;
static const int64_t MS = 1000000;
static const char* names[] = {"dbug", "info", "warn", "errr"};
static std::string esc(const std::string& s)
{
    std::string r;
    for (char c : s)
    {
        if (c == '"' || c == '\\') r += '\\';
        if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else if ((unsigned char)c > 126) r += '?';
        else r += c;
    }
    return r;
}
static std::string text_of(const std::string& s)
{
    if (s.size() <= 60) return esc(s);
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return esc(s.substr(0, 10)) + "#" + std::to_string(s.size()) + "#" + std::to_string(h % 1000000);
}
// the lines of the file as [level, text] without time and thread
static std::string read_back(const std::string& file)
{
    std::ifstream f(file);
    std::string line, all;
    while (std::getline(f, line))
    {
        size_t p = line.find("]\t");
        std::string lv, tx = line;
        if (p != std::string::npos && line.size() >= p + 7 && line[p + 6] == '\t')
        {
            lv = line.substr(p + 2, 4);
            tx = line.substr(p + 7);
        }
        all += (all.empty() ? "[\"" : ",[\"") + esc(lv) + "\",\"" + text_of(tx) + "\"]";
    }
    return all;
}
int main(int c, char** a)
{
    FILE* out = fopen(a[1], "w");
    std::string files[2] = {std::string(a[2]) + "/log.txt", std::string(a[2]) + "/log2.txt"};
    unsigned seed = atoi(a[3]);
    long runs = atol(a[4]);
    double secs = atof(a[5]), start = ex::now();
    long n = 0, d = 0;
    for (long r = 0; r < runs && ex::now() - start < secs; ++r)
    {
        ex::Options o;
        o.random = true;
        o.max = 3;
        o.spurious = 1;
        o.seed = seed * 7919 + (unsigned)r;
        std::mt19937 prog(seed * 100003u + (unsigned)r);
        int nlog = prog() % 4 ? 1 : 2;
        int level[2] = {(int)(prog() % 4), (int)(prog() % 4)};
        int nthreads = 1 + prog() % 3;
        int how = prog() % 4; // 0: stop() after all logged; 1: stop() with threads still logging, lines until then count; 2: only drop everything; 3: like 0 after waiting for a timed flush
        auto res = ex::explore(out, "\"level\":[" + std::to_string(level[0]) + "," + std::to_string(level[1]) + "]" + ",\"how\":" + std::to_string(how), o, [&]() {
            ds::virtual_time = true;
            ds::nprocs = 2;
            ds::time_limit = ds::now_ns + 4000LL * 1000 * MS;
            for (auto& f : files) unlink(f.c_str());
            std::unique_ptr<asio_service> svc(new asio_service());
            std::vector<ptr<logger>> ls;
            for (int i = 0; i < nlog; ++i) ls.push_back(svc->create_logger((asio_service::log_level)level[i], files[i]));
            auto files_now = [&](int fin) {
                for (int i = 0; i < nlog; ++i)
                    ex::ev("{\"e\":\"file\",\"f\":" + std::to_string(i) + ",\"lines\":[" + read_back(files[i]) + "],\"final\":" + std::to_string(fin) + "}");
            };
            // scheduling points at the accesses to the logger itself
            ex::watch_lo = ls[0].get();
            ex::watch_hi = (const char*)ls[0].get() + 900;
            std::vector<std::thread> ts;
            bool stopped = false;
            for (int t = 0; t < nthreads; ++t)
            {
                unsigned s = prog();
                ts.emplace_back([&, t, s]() {
                    std::mt19937 g(s);
                    int cnt = 1 + g() % 5;
                    for (int i = 0; i < cnt; ++i)
                    {
                        int lv = g() % 4, f = g() % nlog;
                        logger* l = ls[f].get();
                        std::string text = "t" + std::to_string(t) + "." + std::to_string(i);
                        switch (g() % 6)
                        {
                        case 0: text += std::string(g() % 300, 'x'); break;
                        case 1: text += " 100%d %s \\ \" "; break;
                        case 2: text += std::string(1 + g() % 5000, 'y'); break;
                        case 3: if (i == 0) text = t == 0 ? "" : std::string(t, g() % 2 ? ' ' : '\t'); break;
                        default: break;
                        }
                        // the line counts if the logger took it before the service was told to stop
                        ex::ev("{\"e\":\"log\",\"t\":" + std::to_string(t) + ",\"f\":" + std::to_string(f) + ",\"l\":" + std::to_string(lv) + ",\"late\":" + (stopped ? "1" : "0") + ",\"s\":\"" + text_of(text) + "\"}");
                        if (lv == 0) l->debug(text);
                        else if (lv == 1) l->info(text);
                        else if (lv == 2) l->warn(text);
                        else l->err(text);
                        ex::ev("{\"e\":\"logd\",\"t\":" + std::to_string(t) + ",\"late\":" + (stopped ? "1" : "0") + "}");
                        if (g() % 4 == 0) ds::sleep_ns((int64_t)(g() % 1500) * MS);
                    }
                });
            }
            if (how != 1)
                for (auto& t : ts) t.join();
            if (how == 3) ds::sleep_ns(1600 * MS);
            stopped = true;
            ex::ev("{\"e\":\"stop\"}");
            if (how != 2) svc->stop();
            ex::ev("{\"e\":\"stopd\"}");
            if (how == 1)
            {
                // what was logged before stop() must be in the file now
                files_now(0);
                for (auto& t : ts) t.join();
            }
            ex::watch_lo = ex::watch_hi = nullptr;
            ls.clear();
            if (how == 2) svc->stop();
            svc.reset();
            ds::sleep_ns(100 * MS);
            files_now(1);
        });
        n += res.executions;
        d += res.distinct;
    }
    for (auto& f : files) unlink(f.c_str());
    printf("executions %ld distinct %ld complete 0\n", n, d);
}
