// Stateless explicit-state explorer: exhaustively enumerates every sequence of choices a body makes,
// re-executing the real implementation from scratch along each one.
//
//   int main(int c, char** v) { return mc::main(c, v, body); }
//
// body() calls mc::choose(n) wherever the driver or the environment may continue in n ways.  Worker w of W
// executes the executions whose first `shard_depth` choices hash to w, so the workers partition the space.
#pragma once
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc
{
    struct Violation { std::string msg; };
    struct Prune {};          // execution belongs to another worker
    struct Stop {};           // execution ends here, quietly (e.g. after a known finding)

    // ---- state of the explorer (header-only: one harness = one translation unit) ----
    inline int tier = 0;      // 0 quick, 1 thorough
    inline int shard = 0, shards = 1;
    inline int shard_depth = 3;
    inline bool replaying = false;
    inline std::vector<int> path, width;   // current choice sequence and the number of alternatives at each
    inline size_t depth = 0;
    inline uint64_t path_hash = 0;
    inline std::vector<std::string> trace; // human readable, only while replaying
    inline uint64_t executions = 0, transitions = 0, max_depth = 0, validated = 0;
    inline std::unordered_set<uint64_t> state_set;
    inline std::unordered_set<uint64_t> outcome_set;
    inline bool state_cap = false;
    inline std::map<std::string, std::pair<std::string, uint64_t>> known_hits;
    inline std::map<std::string, uint64_t> counters;
    inline std::vector<std::string> eigen_asserts;
    inline bool pruned = false;            // set with Prune / Violation: code under test may catch (...) them
    inline std::string pending;
    inline int* shared = nullptr;          // [0]=length, [1..]=choices, visible to the parent after a crash
    inline std::function<void()> reset_hook;

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 33;
        return h;
    }
    struct Hash
    {
        uint64_t h = 1469598103934665603ull;
        Hash& i(long long v) { h = mix(h, (uint64_t)v); return *this; }
        Hash& d(double v)
        {
            if (v != v) return i(0x7ff8dead);
            return i((long long)std::llround(std::max(-9e15, std::min(9e15, v * 1e9))));
        }
        Hash& s(const std::string& t) { for (char c : t) i((unsigned char)c); return i(-1); }
    };
    inline void state(uint64_t h)
    {
        if (state_set.size() < 500000) state_set.insert(h); else state_cap = true;
    }
    inline void state(const Hash& h) { state(h.h); }
    inline void outcome(const Hash& h) { if (outcome_set.size() < 1000000) outcome_set.insert(h.h); }
    inline void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
    inline void step(int n = 1) { transitions += n; }
    // one comparison of the implementation with the reference model
    inline void matched(int n = 1) { validated += n; }

    inline std::string fmt(const char* f, ...)
    {
        char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
    }
    inline void log(const char* f, ...)
    {
        if (!replaying) return;
        char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        trace.push_back(b);
        fprintf(stderr, "  %s\n", b);
    }
    [[noreturn]] inline void fail(const char* f, ...)
    {
        char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        if (pending.empty()) pending = b;
        throw Violation{b};
    }
    // A listed known finding: counted, and the execution goes on (the caller decides).
    inline void known(const std::string& key, const std::string& msg)
    {
        auto& e = known_hits[key]; if (!e.second) e.first = msg; e.second++;
    }

    // a thread of the program under test: choices follow a fixed pattern instead of being enumerated
    inline thread_local bool scripted = false;
    inline thread_local unsigned script_seed = 0, script_pos = 0;
    inline int choose(int n, const char* what = "")
    {
        if (scripted) return (int)(script_seed == 0 ? 0 : (script_seed * (2 * script_pos++ + 1)) % (unsigned)n);
        if (n <= 0) { fprintf(stderr, "choose(%d) %s\n", n, what); _exit(3); }
        if (pruned) throw Prune{};
        size_t d = depth++;
        if (d >= path.size()) {
            if (replaying) { path.push_back(0); width.push_back(n); }
            else { path.push_back(0); width.push_back(n); }
        } else if (d < width.size() && width[d] != n) {
            fprintf(stderr, "nondeterministic driver: choice %zu (%s) had %d alternatives, now %d\n", d, what, width[d], n);
            _exit(3);
        }
        if (d >= width.size()) width.push_back(n);
        if (path[d] >= n) { fprintf(stderr, "replay: choice %zu (%s) out of range\n", d, what); _exit(3); }
        if (shared && d + 1 < 4000) { shared[d + 1] = path[d]; shared[0] = (int)depth; }
        if ((int)d < shard_depth) path_hash = mix(path_hash, path[d] + 1);
        if ((int)depth == shard_depth && !replaying && (int)(path_hash % shards) != shard) { pruned = true; throw Prune{}; }
        return path[d];
    }
    inline bool flip(const char* what = "") { return choose(2, what) == 1; }
    template <class T> const T& pick(const std::vector<T>& v, const char* what = "") { return v[choose((int)v.size(), what)]; }

    inline std::string esc(const std::string& s)
    {
        std::string o;
        for (char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += '?';
            else o += c;
        }
        return o;
    }
    inline std::string path_str()
    {
        std::string s; for (size_t i = 0; i < depth && i < path.size(); ++i) s += (i ? "," : "") + std::to_string(path[i]); return s;
    }

    inline bool run_one(const std::function<void()>& body, std::string& msg, bool& mine)
    {
        depth = 0; path_hash = 0x1234; mine = true; eigen_asserts.clear(); pruned = false; pending.clear();
        if (shared) shared[0] = 0;
        bool ok = true;
        try {
            body();
        } catch (const Violation& v) {
            msg = v.msg; ok = false;
        } catch (const Prune&) {
            mine = false; return true;
        } catch (const Stop&) {
        } catch (const std::exception& e) {
            msg = std::string("unexpected exception: ") + e.what(); ok = false;
        } catch (...) {
            msg = "unexpected exception of unknown type"; ok = false;
        }
        if (pruned) { mine = false; return true; }
        if (ok && !pending.empty()) { ok = false; msg = pending; }
        if (ok && !eigen_asserts.empty()) { ok = false; msg = "out-of-range matrix access: " + eigen_asserts[0]; }
        if ((int)depth < shard_depth && !replaying && (int)(path_hash % shards) != shard) { mine = false; return true; }
        return ok;
    }

    inline int main(int argc, char** argv, const std::function<void()>& body)
    {
        std::string out = "/dev/null", replay, shmf, hashf; double deadline = 1e9; bool have_replay = false;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto next = [&]() { return std::string(argv[++i]); };
            if (a == "--tier") tier = next() == "thorough";
            else if (a == "--shard") { std::string s = next(); sscanf(s.c_str(), "%d/%d", &shard, &shards); }
            else if (a == "--out") out = next();
            else if (a == "--hashes") hashf = next();
            else if (a == "--shm") shmf = next();
            else if (a == "--deadline") deadline = atof(next().c_str());
            else if (a == "--replay") { replay = next(); have_replay = true; }
        }
        if (!shmf.empty()) {
            int fd = open(shmf.c_str(), O_RDWR | O_CREAT, 0600);
            if (ftruncate(fd, 4096 * sizeof(int)) == 0)
                shared = (int*)mmap(nullptr, 4096 * sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            close(fd);
        }
        if (!have_replay || getenv("MC_QUIET")) { // the library prints a lot
            int n = open("/dev/null", O_WRONLY); dup2(n, 1);
            if (!have_replay && !getenv("MC_STDERR")) dup2(n, 2);
        }
        std::string msg, vpath; bool violated = false, exhaustive = true, mine = true;
        std::vector<std::string> samples;
        double t0 = (double)time(nullptr);
        if (have_replay) {
            replaying = true;
            std::stringstream ss(replay); std::string t;
            while (std::getline(ss, t, ',')) if (!t.empty()) path.push_back(atoi(t.c_str()));
            bool ok = run_one(body, msg, mine);
            executions = 1; violated = !ok; vpath = path_str();
            fprintf(stderr, "%s %s\n", ok ? "HELD" : "VIOLATED:", msg.c_str());
        } else {
            uint64_t stamp = 0;
            while (true) {
                if ((++stamp & 15) == 0 && time(nullptr) - t0 > deadline) { exhaustive = false; break; }
                if (shared) shared[4001] = (int)stamp;
                bool ok = run_one(body, msg, mine);
                if (mine) {
                    executions++; max_depth = std::max<uint64_t>(max_depth, depth);
                    if (!ok) { violated = true; vpath = path_str(); break; }
                    if (samples.size() < 2 || (samples.size() < 4 && executions % 1009 == 0)) samples.push_back(path_str());
                }
                // next sequence, depth first
                path.resize(std::min(path.size(), depth)); width.resize(path.size());
                while (!path.empty() && path.back() + 1 >= width.back()) { path.pop_back(); width.pop_back(); }
                if (path.empty()) break;
                path.back()++;
            }
        }
        if (!hashf.empty()) {
            std::ofstream h(hashf, std::ios::binary);
            for (uint64_t v : state_set) h.write((const char*)&v, 8);
        }
        std::ofstream o(out);
        o << "{\"executions\":" << executions << ",\"transitions\":" << transitions << ",\"states\":" << state_set.size()
          << ",\"outcomes\":" << outcome_set.size() << ",\"validated\":" << validated << ",\"max_depth\":" << max_depth
          << ",\"exhaustive\":" << (exhaustive && !violated ? "true" : "false") << ",\"state_cap\":" << (state_cap ? "true" : "false")
          << ",\"violated\":" << (violated ? "true" : "false") << ",\"path\":\"" << vpath << "\",\"message\":\"" << esc(msg) << "\"";
        o << ",\"samples\":["; for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << "\"" << samples[i] << "\""; o << "]";
        o << ",\"trace\":["; for (size_t i = 0; i < trace.size(); ++i) o << (i ? "," : "") << "\"" << esc(trace[i]) << "\""; o << "]";
        o << ",\"counters\":{"; bool f = true; for (auto& k : counters) { o << (f ? "" : ",") << "\"" << esc(k.first) << "\":" << k.second; f = false; } o << "}";
        o << ",\"known\":{"; f = true;
        for (auto& k : known_hits) { o << (f ? "" : ",") << "\"" << esc(k.first) << "\":[\"" << esc(k.second.first) << "\"," << k.second.second << "]"; f = false; }
        o << "}}\n";
        o.close();
        // leave without running static destructors twice over sanitizer teardown
        fflush(nullptr);
        _exit(violated ? 1 : 0);
    }
} // namespace mc

extern "C" inline void mc_eigen_assert_impl(const char* expr, const char* file, int line)
{
    const char* b = strrchr(file, '/');
    mc::eigen_asserts.push_back(mc::fmt("%s (%s:%d)", expr, b ? b + 1 : file, line));
    throw std::runtime_error(std::string("eigen_assert: ") + expr);
}
extern "C" void mc_eigen_assert(const char* expr, const char* file, int line) { mc_eigen_assert_impl(expr, file, line); }
