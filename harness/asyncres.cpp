// Schedules of one async_result: a setter, a thread that registers a handler, and waiters.
// usage: asyncres OUT SCENARIO PREEMPT SPURIOUS MAX RANDOM SEED SECONDS
//   SCENARIO: letters of the threads (s set value, x set error, r register, g get), in creation order;
//             a leading R registers the handler at construction, a leading V constructs the result with its value
#include "cornerstone.hxx"
#include "explore.h"
#include <thread>
using namespace cornerstone;
typedef async_result<std::string> res_t;

static std::string q(const char* e, int t, const std::string& more = "")
{
    return std::string("{\"e\":\"") + e + "\",\"t\":" + std::to_string(t) + more + "}";
}
static std::string val(const std::string& v, const ptr<std::exception>& err)
{
    return ",\"v\":\"" + v + "\",\"x\":" + (err ? "1" : "0");
}
int main(int c, char** a)
{
    FILE* out = fopen(a[1], "w");
    std::string sc = a[2];
    ex::Options o;
    o.preempt = atoi(a[3]);
    o.spurious = atoi(a[4]);
    o.max = atol(a[5]);
    o.random = atoi(a[6]);
    o.seed = atoi(a[7]);
    o.seconds = atof(a[8]);
    auto r = ex::explore(out, "\"sc\":\"" + sc + "\"", o, [&]() {
        auto handler = [](int t) {
            return [t](std::string& v, const ptr<std::exception>& e) { ex::ev(q("run", t, val(v, e))); };
        };
        size_t at = 0;
        std::unique_ptr<res_t> p;
        if (sc[0] == 'R')
        {
            res_t::handler_type h = handler(9);
            p.reset(new res_t(h));
            ex::ev(q("reg", 9));
            ex::ev(q("regd", 9));
            at = 1;
        }
        else if (sc[0] == 'V')
        {
            std::string v = "w";
            p.reset(new res_t(v));
            ex::ev(q("set", 9, ",\"v\":\"w\",\"x\":0"));
            ex::ev(q("setd", 9));
            at = 1;
        }
        else
            p.reset(new res_t());
        ex::watch(*p);
        std::vector<std::thread> ts;
        for (size_t i = at; i < sc.size(); ++i)
        {
            int t = (int)i;
            switch (sc[i])
            {
            case 's':
            case 'x':
                ts.emplace_back([&, t]() {
                    bool err = sc[t] == 'x';
                    std::string v = err ? "" : "v" + std::to_string(t);
                    ptr<std::exception> e;
                    if (err) e = cs_new<std::exception>();
                    ex::ev(q("set", t, val(v, e)));
                    p->set_result(v, e);
                    ex::ev(q("setd", t));
                });
                break;
            case 'r':
                ts.emplace_back([&, t]() {
                    ex::ev(q("reg", t));
                    p->when_ready(handler(t));
                    ex::ev(q("regd", t));
                });
                break;
            case 'g':
                ts.emplace_back([&, t]() {
                    ex::ev(q("get", t));
                    std::string v;
                    ptr<std::exception> e;
                    try { v = p->get(); }
                    catch (ptr<std::exception>& x) { e = x; if (!e) v = "null error thrown"; }
                    ex::ev(q("getd", t, val(v, e)));
                });
                break;
            }
        }
        for (auto& t : ts) t.join();
        ex::watch_lo = ex::watch_hi = nullptr;
    });
    printf("executions %ld distinct %ld complete %d\n", r.executions, r.distinct, (int)r.complete);
}
