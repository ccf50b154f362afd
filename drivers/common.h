// Shared by the drivers: random choices, reporting of failing inputs, time limit.
#ifndef VERIF_DRIVER_COMMON_H
#define VERIF_DRIVER_COMMON_H
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
extern "C" void __sanitizer_set_death_callback(void (*)(void));

static std::string g_case;      // what is being tried
static unsigned long g_cases = 0;
static int g_fails = 0;
static std::chrono::steady_clock::time_point g_end;
static std::string g_prop;

static uint64_t g_rng;
static uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng * 0x2545F4914F6CDD1DULL; }
static uint64_t rnd(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }
static bool coin() { return rnd(2); }
static uint16_t rnd16()
{
    static const uint16_t e[] = {0, 1, 2, 7, 8, 9, 15, 16, 0x7D, 0x7E, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF, 0xFF01, 0x00FF};
    return rnd(3) ? (uint16_t)rnd() : e[rnd(sizeof e / sizeof *e)];
}

static bool time_left() { return std::chrono::steady_clock::now() < g_end; }

static void fail(const std::string& what)
{
    if(g_fails++ < 20) { printf("FAIL %s: %s\n", g_case.c_str(), what.c_str()); fflush(stdout); }
    if(g_fails > 50) { printf("CASES %lu\n", g_cases); fflush(stdout); _exit(1); }
}
#define CHECK(c, what) do { if(!(c)) { std::ostringstream o_; o_ << what; fail(o_.str()); } } while(0)

static void died() { printf("FAIL %s: the program crashes (sanitizer report)\n", g_case.c_str()); fflush(stdout); }
static void on_signal(int s) { printf("FAIL %s: %s\n", g_case.c_str(), s == SIGALRM ? "does not terminate" : "the program is ended by a signal"); fflush(stdout); _exit(1); }
static void watchdog(unsigned s) { alarm(s); }

static std::string hex(const uint8_t* p, size_t n)
{
    std::ostringstream o;
    for(size_t i = 0; i < n && i < 300; ++i) o << std::hex << std::setw(2) << std::setfill('0') << (int)p[i];
    return o.str();
}
static std::string hex(const std::vector<uint8_t>& v) { return hex(v.data(), v.size()); }

void run();
int main(int argc, char** argv)
{
    g_prop = argc > 1 ? argv[1] : "";
    g_rng = 0x9E3779B97F4A7C15ULL ^ (argc > 2 ? strtoull(argv[2], 0, 10) * 0xD1342543DE82EF95ULL : 1);
    g_end = std::chrono::steady_clock::now() + std::chrono::milliseconds((long)(1000 * (argc > 3 ? atof(argv[3]) : 10)));
    __sanitizer_set_death_callback(died);
    signal(SIGALRM, on_signal); signal(SIGABRT, on_signal);
    std::set_terminate([]() { printf("FAIL %s: std::terminate\n", g_case.c_str()); fflush(stdout); _exit(1); });
    run();
    printf("CASES %lu\n", g_cases);
    fflush(stdout);
    _exit(g_fails ? 1 : 0);
}
#endif
