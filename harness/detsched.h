// Deterministic scheduler for multi-threaded code: interposes the pthread primitives, so that exactly one
// registered thread runs at a time and every switch happens at a point chosen by the harness.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
namespace ds
{
enum class St { ready, mutex, cond, join, done, parked, poll, sleep };
// takes control; the calling thread becomes thread 0 ("main")
void enable();
bool enabled();
int self();
int thread_count();
St state(int tid);
bool waiting_cond(int tid);
bool runnable(int tid);
// ---- driver mode (default): main decides; other threads return control when they block, yield or end
// runs tid until it blocks, yields or ends; false if it was not runnable
bool run(int tid);
// called from a non-main thread: stay runnable but hand control back to main
void yield_back();
// called from a non-main thread: never run again
[[noreturn]] void park_self();
void park(int tid);
// called when every thread is blocked
extern std::function<void()> on_deadlock;
// ---- explore mode: at every synchronisation point `choose` picks the next thread among the candidates
extern std::function<int(const std::vector<int>&, int cur)> choose;
// explicit scheduling point (explore mode only)
void point();
// wake a thread that waits on a condition variable although nobody signalled it
bool spurious(int tid);
// explore mode: how many spurious wake-ups may still be chosen
extern int spurious_budget;
// waiters are woken in FIFO order unless this picks another position
extern std::function<int(int n)> pick_waiter;
// a wait in epoll_wait ends when its descriptor is ready or its virtual time is up
void sleep_ns(int64_t n);        // virtual time
extern int io_wait_ms;           // real time to wait for the kernel before virtual time goes on
extern int64_t time_limit;       // beyond this virtual time, waiting threads count as stuck
extern int nprocs;               // what std::thread::hardware_concurrency returns (0: the real number)
// time
extern int64_t now_ns;           // virtual time of std::chrono::system_clock/steady_clock while enabled
extern bool virtual_time;
extern uint32_t random_value;    // returned by std::random_device while virtual_time
extern uint64_t steps;
} // namespace ds
