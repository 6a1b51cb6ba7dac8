// C20: every sequence of stopwatch operations and clock movements up to a depth; the clocks are ours.
#include "mc.hpp"
#include <chrono>
#include <sys/time.h>
#include <time.h>
static long long g_mono = 0, g_wall = 0; // nanoseconds
static const long long BASE_MONO = 5000000000LL, BASE_WALL = 1700000000000000000LL;
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point(duration(BASE_MONO + g_mono)); }
std::chrono::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept { return time_point(duration(BASE_WALL + g_wall)); }
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
    bool wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
    long long n = wall ? BASE_WALL + g_wall : BASE_MONO + g_mono;
    if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) n = 0; // CPU time does not pass here
    t->tv_sec = n / 1000000000LL; t->tv_nsec = n % 1000000000LL; return 0;
}
extern "C" int gettimeofday(struct timeval* t, void*) noexcept { long long n = BASE_WALL + g_wall; t->tv_sec = n / 1000000000LL; t->tv_usec = n / 1000 % 1000000; return 0; }
#include <factorama/stopwatch.hpp>

struct Model { bool run = false; long long from = 0, acc = 0; double e() const { return (acc + (run ? g_mono - from : 0)) * 1e-9; } };
static void body()
{
    g_mono = g_wall = 0;
    static const long long unit[3][2] = {{1000000000, 250000}, {41, 3}, {8640000000000000LL, 1000003}}; // 1 s and 0.25 ms; nanoseconds; 100 days
    const long long* U = unit[mc::choose(3, "time scale")];
    int N = 1 + mc::choose(2, "watches");
    int depth = N == 1 ? (mc::tier ? 8 : 7) : (mc::tier ? 6 : 5);
    factorama::Stopwatch w[2]; Model m[2]; double last[2] = {0, 0};
    auto check = [&](int i) {
        double got = w[i].elapsed(), want = m[i].e(); mc::matched();
        if (!(got >= 0) || std::fabs(got - want) > 1e-13 * (g_mono * 1e-9)) mc::fail("watch %d reports %.12g s, %.12g s ran", i, got, want);
        if (got < last[i] - 1e-13 * (g_mono * 1e-9)) mc::fail("elapsed time of watch %d went down from %.12g to %.12g", i, last[i], got);
        last[i] = got;
    };
    for (int d = 0; d < depth; ++d) {
        int op = mc::choose(4 * N + 5, "op"); mc::step();
        if (op == 0) { mc::log("end"); break; }
        op--;
        if (op < 4 * N) {
            int i = op / 4; Model& x = m[i];
            switch (op % 4) {
            case 0: mc::log("start %d", i); w[i].start(); if (!x.run) { x.run = true; x.from = g_mono; } break;
            case 1: mc::log("stop %d", i); w[i].stop(); if (x.run) { x.run = false; x.acc += g_mono - x.from; } break;
            case 2: mc::log("reset %d", i); w[i].reset(); x = Model(); last[i] = 0; break;
            case 3: mc::log("elapsed %d", i); check(i); break;
            }
        } else switch (op - 4 * N) {
            case 0: mc::log("%lld ns pass", U[0]); g_mono += U[0]; g_wall += U[0]; break;
            case 1: mc::log("%lld ns pass", U[1]); g_mono += U[1]; g_wall += U[1]; break;
            case 2: mc::log("wall clock set back"); g_wall -= 3600000000000LL; break;
            case 3: mc::log("wall clock set forward, %lld ns pass", 2 * U[0]); g_wall += 3600000000000LL; g_mono += 2 * U[0]; break;
        }
        mc::state(mc::Hash().i(N).i(m[0].run).i(m[0].acc).i(m[0].from).i(m[1].run).i(m[1].acc).i(m[1].from).i(g_mono).i(g_wall));
    }
    for (int i = 0; i < N; ++i) check(i);
    mc::outcome(mc::Hash().d(last[0]).d(last[1]));
}
int main(int a, char** v) { return mc::main(a, v, body); }
