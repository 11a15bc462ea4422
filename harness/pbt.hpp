// A small property-based testing engine.
//
// * Every random decision of a case is one bounded draw recorded on a "tape"
//   of integers, so a case *is* its tape: replaying the tape replays the case,
//   and shrinking means making the tape shorter and its numbers smaller (0 is
//   always the simplest choice).
// * The cases of a law run in a forked worker; the tape lives in shared memory,
//   so a case that crashes, trips a sanitizer or never returns still leaves its
//   tape behind and is shrunk and reported like any other failure.
// * A failure counts only if its shrunk (or else its original) tape fails again
//   on each of three fresh replays; laws about schedules may opt out.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

namespace pbt {

constexpr std::size_t TAPE_MAX = 1 << 16;

struct shared_t {
    std::uint64_t tape[TAPE_MAX];
    std::atomic<std::uint64_t> length;
    std::atomic<std::uint64_t> started;     // cases begun (progress, for the watchdog)
    std::atomic<std::uint64_t> finished;    // cases completed
    std::atomic<int> verdict;               // 0 running/ok, 1 failed
    char message[8192];
    char described[65536];
    std::atomic<std::uint64_t> slowest_us;
};

struct discard_t {};
struct failure_t { std::string message; };

[[noreturn]] inline void fail(const std::string& m) { throw failure_t{m}; }
[[noreturn]] inline void discard() { throw discard_t{}; }

template<typename T> std::string show(const T& x)
{
    std::ostringstream s; s.precision(17); s << x; return s.str();
}
template<typename A, typename B> std::string show(const std::pair<A, B>& p);
template<typename T> std::string show(const std::vector<T>& v)
{
    std::string s = "["; for (std::size_t i = 0; i < v.size(); ++i) { if (i) s += ", "; s += show(v[i]); } return s + "]";
}
inline std::string show(bool x) { return x ? "true" : "false"; }
template<typename A, typename B> std::string show(const std::pair<A, B>& p) { return "(" + show(p.first) + ", " + show(p.second) + ")"; }

struct rng_t {
    std::uint64_t s;
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull; auto z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

// ---------------------------------------------------------------- the source
class src {
public:
    src(shared_t* sh, std::uint64_t seed) : sh(sh), rng{seed}, replaying(false) { sh->length = 0; }
    src(shared_t* sh, const std::vector<std::uint64_t>& t) : sh(sh), rng{0}, replaying(true), given(t) { sh->length = 0; }

    // a number in [0, bound)
    std::uint64_t draw(std::uint64_t bound)
    {
        if (bound == 0) bound = 1;
        std::uint64_t v;
        if (replaying) { v = pos < given.size() ? given[pos] : 0; if (v >= bound) v = bound - 1; }
        else v = bound == 1 ? 0 : rng.next() % bound;
        if (pos >= TAPE_MAX) throw discard_t{};
        sh->tape[pos++] = v;
        sh->length = pos;
        return v;
    }
    // integers in [lo, hi], lo being the simplest
    long integer(long lo, long hi) { return lo + long(draw(std::uint64_t(hi - lo) + 1)); }
    std::size_t size(std::size_t lo, std::size_t hi) { return std::size_t(integer(long(lo), long(hi))); }
    // integers in [lo, hi] with 0 (if inside) the simplest and small magnitudes favoured
    long signed_integer(long lo, long hi)
    {
        auto neg = draw(2); long m = neg ? -lo : hi; if (m < 0) m = 0;
        long k = long(draw(std::uint64_t(m) + 1)); return neg ? -k : k;
    }
    bool coin() { return draw(2) == 1; }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }  // false is simplest
    // real in [lo, hi]
    double real(double lo, double hi)
    {
        auto kind = draw(4);
        double u;
        if      (kind == 0) u = double(draw(17)) / 16;                       // a coarse grid incl. end points
        else                u = double(draw(1ull << 53)) / double((1ull << 53) - 1);
        auto x = lo + (hi - lo) * u;
        return std::min(std::max(x, lo), hi);
    }
    // real in [-m, m], 0 simplest
    double symmetric(double m) { auto neg = draw(2); auto x = real(0, m); return neg ? -x : x; }
    // log-uniform in [lo, hi], lo > 0
    double logreal(double lo, double hi) { return std::min(hi, std::max(lo, std::exp(real(std::log(lo), std::log(hi))))); }
    template<typename T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    template<typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }

    // bookkeeping
    template<typename T> void note(const std::string& k, const T& v)
    {
        if (! described.empty()) described += "; ";
        described += k + "=" + show(v);
        if (described.size() < sizeof(sh->described)) { std::memcpy(sh->described, described.c_str(), described.size() + 1); }
    }
    void cls(const std::string& c, bool yes=true) { if (yes) classes.insert(c); }
    void nontrivial(bool yes=true) { is_nontrivial = is_nontrivial || yes; }

    shared_t* sh; rng_t rng; bool replaying; std::vector<std::uint64_t> given; std::size_t pos = 0;
    std::string described; std::set<std::string> classes; bool is_nontrivial = false;
};

// ---------------------------------------------------------------- laws
struct law_t {
    std::string name;
    long quick;                          // cases at the quick tier
    std::function<void(src&)> body;
    std::string rule;                    // what makes a case non-trivial
    double hang_s = 60;
    bool flaky_ok = false;               // schedule-dependent: one reproduction in many replays is enough
    bool quiet_stderr = true;
};
inline std::vector<law_t>& laws() { static std::vector<law_t> l; return l; }
struct reg { reg(law_t l) { laws().push_back(std::move(l)); } };
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define LAW(name, quick, rule, ...) static pbt::reg PBT_CAT(reg_, __COUNTER__)({name, quick, __VA_ARGS__, rule})
#define LAW_OPT(name, quick, rule, hang, flaky, ...) static pbt::reg PBT_CAT(reg_, __COUNTER__)({name, quick, __VA_ARGS__, rule, hang, flaky})

#define REQUIRE_THAT(cond, msg) do { if (! (cond)) pbt::fail(std::string(#cond) + " is false: " + (msg)); } while (0)

inline bool close(double a, double b, double rel, double abs=0.0)
{
    if (std::isnan(a) || std::isnan(b)) return false;
    if (a == b) return true;
    if (! std::isfinite(a) || ! std::isfinite(b)) return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
inline void expect_close(const std::string& what, double a, double b, double rel, double abs=0.0)
{
    if (! close(a, b, rel, abs)) fail(what + ": got " + show(a) + ", want " + show(b) + " (rel " + show(rel) + ", abs " + show(abs) + ")");
}
template<typename A, typename B> void expect_eq(const std::string& what, const A& a, const B& b)
{
    if (! (a == b)) fail(what + ": got " + show(a) + ", want " + show(b));
}
// Runs fn; true if it threw a std::exception (anything derived from it).
template<typename F> bool throws(F&& fn) { try { fn(); return false; } catch (const std::exception&) { return true; } }
template<typename E, typename F> bool throws_a(F&& fn) { try { fn(); return false; } catch (const E&) { return true; } catch (const std::exception&) { return false; } }

// one case: 0 passed, 1 failed, 2 discarded
inline int run_case(const law_t& law, src& s, std::string& message)
{
    try { law.body(s); return 0; }
    catch (const discard_t&) { return 2; }
    catch (const failure_t& f) { message = f.message; return 1; }
    catch (const std::exception& e) { message = std::string("unexpected exception: ") + e.what(); return 1; }
    catch (...) { message = "unexpected exception of unknown type"; return 1; }
}

inline std::string json(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += char(c);
    return r + "\"";
}

inline void quiet(bool err)
{
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1); if (err && ! std::getenv("PBT_VERBOSE")) dup2(fd, 2);
    ::close(fd);
}

inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// Waits for a child; kills it when the progress counter stands still for hang_s.
// Returns 0 clean exit, 1 exit status != 0, 2 signal, 3 hang
inline int supervise(pid_t pid, shared_t* sh, double hang_s, std::string& how)
{
    auto last = sh->started.load(); auto since = now();
    for (;;)
    {
        int st; auto r = waitpid(pid, &st, WNOHANG);
        if (r == pid)
        {
            kill(-pid, SIGKILL);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
            if (WIFEXITED(st)) { how = "process exited with status " + show(WEXITSTATUS(st)) + " (sanitizer report or abort)"; return 1; }
            how = "process died of signal " + show(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")"; return 2;
        }
        if (auto cur = sh->started.load(); cur != last) { last = cur; since = now(); }
        if (now() - since > hang_s)
        {
            kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0);
            how = "case did not terminate within " + show(hang_s) + " s"; return 3;
        }
        usleep(now() - since < 0.05 ? 200 : 2000);
    }
}

// Runs one tape in a fresh process. 0 pass/discard, 1 fail
inline int run_isolated(const law_t& law, shared_t* sh, const std::vector<std::uint64_t>& tape, std::string& message, double hang_s)
{
    sh->verdict = 0; sh->message[0] = 0; sh->described[0] = 0; sh->started++;
    auto pid = fork();
    if (pid == 0)
    {
        setpgid(0, 0); quiet(law.quiet_stderr);
        src s(sh, tape); std::string m; auto v = run_case(law, s, m);
        if (v == 1) { std::snprintf(sh->message, sizeof(sh->message), "%s", m.c_str()); sh->verdict = 1; }
        _exit(0);
    }
    setpgid(pid, pid);
    std::string how; auto r = supervise(pid, sh, hang_s, how);
    if (r != 0) { message = how; return 1; }
    if (sh->verdict == 1) { message = sh->message; return 1; }
    return 0;
}

inline std::vector<std::uint64_t> used_tape(shared_t* sh) { return {sh->tape, sh->tape + std::min<std::uint64_t>(sh->length, TAPE_MAX)}; }

inline std::vector<std::uint64_t> shrink(const law_t& law, shared_t* sh, std::vector<std::uint64_t> best, std::string& message, double budget_s, long& attempts)
{
    auto t0 = now(); std::string m;
    auto out_of_time = [&] { return now() - t0 > budget_s; };
    auto attempt = [&] (const std::vector<std::uint64_t>& cand)
    {
        if (out_of_time()) return false;
        if (cand == best) return false;
        attempts++;
        if (run_isolated(law, sh, cand, m, 5.0) == 1)
        {
            auto used = used_tape(sh);
            // keep the candidate as actually consumed, if that is no longer than the candidate
            best = used.size() <= cand.size() && ! used.empty() ? used : cand;
            message = m; return true;
        }
        return false;
    };
    for (bool progress = true; progress && ! out_of_time();)
    {
        progress = false;
        for (std::size_t len = std::max<std::size_t>(1, best.size() / 2); len >= 1; len /= 2)
        {
            for (std::size_t i = 0; i + len <= best.size() && ! out_of_time();)
            {
                auto c = best; c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) progress = true;
                else
                {
                    auto z = best; bool any = false;
                    for (std::size_t k = i; k < i + len; ++k) { any |= z[k] != 0; z[k] = 0; }
                    if (any && attempt(z)) progress = true;
                    i += len;
                }
            }
            if (len == 1) break;
        }
        for (std::size_t i = 0; i < best.size() && ! out_of_time(); ++i)
        {
            std::uint64_t lo = 0;       // lo never fails (or was not tried), best[i] fails
            while (i < best.size() && best[i] > lo)
            {
                auto c = best; auto mid = lo + (best[i] - lo) / 2; c[i] = mid;
                if (out_of_time()) break;
                if (attempt(c)) progress = true; else { if (lo == mid) break; lo = mid; if (best.size() <= i || best[i] - lo <= 1) break; }
            }
        }
    }
    return best;
}

struct options_t { std::string law, out, replay_out, property; std::uint64_t seed = 1; double scale = 1, max_s = 1e9; long cases = -1; };

inline shared_t* make_shared_region()
{
    auto p = mmap(nullptr, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return new (p) shared_t();
}

inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) { rng_t r{a * 0x9E3779B97F4A7C15ull ^ b}; r.next(); return r.next(); }
inline std::uint64_t hash_string(const std::string& s) { std::uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

inline int run_law(const law_t& law, const options_t& opt)
{
    auto sh = make_shared_region();
    auto cases = opt.cases >= 0 ? opt.cases : std::max<long>(1, long(law.quick * opt.scale));
    auto t0 = now();
    auto stats = opt.out + ".stats";
    unlink(stats.c_str());
    auto pid = fork();
    if (pid == 0)
    {
        setpgid(0, 0); quiet(law.quiet_stderr);
        std::ofstream f(stats);      // opened first: a law may give up its privileges
        std::map<std::string, long> classes; std::unordered_set<std::uint64_t> distinct;
        std::vector<std::string> samples; long discards = 0, nontriv = 0, done = 0; std::map<std::string, int> sampled;
        for (long n = 0; n < cases; ++n)
        {
            if (now() - t0 > opt.max_s) break;
            sh->described[0] = 0;
            sh->started++;
            auto c0 = now();
            src s(sh, mix(mix(opt.seed, hash_string(law.name)), n));
            std::string m; auto v = run_case(law, s, m);
            sh->finished++;
            auto us = std::uint64_t((now() - c0) * 1e6); if (us > sh->slowest_us) sh->slowest_us = us;
            if (v == 1) { std::snprintf(sh->message, sizeof(sh->message), "%s", m.c_str()); sh->verdict = 1; _exit(0); }
            if (v == 2) { discards++; continue; }
            done++;
            for (auto& c : s.classes) classes[c]++;
            if (s.is_nontrivial)
            {
                nontriv++;
                std::uint64_t h = 7; for (std::size_t i = 0; i < s.pos; ++i) h = mix(h, sh->tape[i]);
                distinct.insert(h);
                std::string key; for (auto& c : s.classes) key += c + ",";
                if (samples.size() < 4 && sampled[key]++ == 0 && ! s.described.empty()) samples.push_back(s.described.substr(0, 700));
            }
        }
        f << "\"evaluations\": " << done << ", \"discards\": " << discards << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << distinct.size() << ", \"classes\": {";
        bool first = true; for (auto& c : classes) { f << (first ? "" : ", ") << json(c.first) << ": " << c.second; first = false; }
        f << "}, \"samples\": ["; first = true; for (auto& x : samples) { f << (first ? "" : ", ") << json(x); first = false; }
        f << "]"; f.close();
        _exit(0);
    }
    setpgid(pid, pid);
    std::string how, message; auto r = supervise(pid, sh, law.hang_s, how);
    bool failed = r != 0 || sh->verdict == 1;
    message = r != 0 ? how : std::string(sh->message);
    std::string note; long attempts = 0;
    std::vector<std::uint64_t> tape; std::string described = sh->described;
    auto ncases = sh->finished.load();
    if (failed)
    {
        auto original = used_tape(sh);
        auto orig_message = message;
        std::string m; int again = 0; int tries = law.flaky_ok ? 60 : 3;
        auto t1 = now(); for (int i = 0, most = tries; i < most; ++i) { if (i > 0 && now() - t1 > 30) { tries = i; break; } again += run_isolated(law, sh, original, m, law.hang_s); }   // failures that take long (deadlocks) are replayed less often
        if (again == 0 || (! law.flaky_ok && again < tries))
        {
            if (! law.flaky_ok) { note = "a failure did not replay " + show(again) + "/" + show(tries) + ": " + orig_message; failed = false; }
            else { tape = original; note = "seen once; did not recur in " + show(tries) + " replays"; }
        }
        else if (r == 3 || (now() - t1) / tries > 5 || (law.flaky_ok && again < tries)) { tape = original; }
        else
        {
            tape = shrink(law, sh, original, message, std::getenv("PBT_SHRINK_S") ? std::atof(std::getenv("PBT_SHRINK_S")) : 40, attempts);
            int ok = 0; for (int i = 0; i < 3; ++i) ok += run_isolated(law, sh, tape, m, law.hang_s);
            if (ok < 3) { tape = original; message = orig_message; } else { message = m; described = sh->described; }
        }
    }
    std::ofstream f(opt.out);
    f << "{\"law\": " << json(law.name) << ", \"rule\": " << json(law.rule) << ", \"seed\": " << opt.seed << ", \"requested\": " << cases << ", \"wall_s\": " << now() - t0
      << ", \"slowest_case_ms\": " << sh->slowest_us / 1e3 << ", \"failed\": " << (failed ? "true" : "false");
    if (! note.empty()) f << ", \"note\": " << json(note);
    std::ifstream st(stats); std::string body((std::istreambuf_iterator<char>(st)), {}); st.close(); unlink(stats.c_str());
    if (body.empty()) body = "\"evaluations\": " + show(ncases) + ", \"discards\": 0, \"nontrivial\": 0, \"distinct_nontrivial\": 0, \"classes\": {}, \"samples\": []";
    f << ", " << body;
    if (failed)
    {
        f << ", \"message\": " << json(message) << ", \"case\": " << json(described) << ", \"shrink_attempts\": " << attempts << ", \"tape\": [";
        for (std::size_t i = 0; i < tape.size(); ++i) f << (i ? ", " : "") << tape[i];
        f << "]";
        if (! opt.replay_out.empty())
        {
            std::ofstream g(opt.replay_out);
            g << "# replay: <harness binary> --replay THIS_FILE\n";
            g << "property " << opt.property << "\nlaw " << law.name << "\nseed " << opt.seed << "\ntape";
            for (auto x : tape) g << ' ' << x;
            g << "\n# case: " << json(described) << "\n# message: " << json(message) << "\n";
        }
    }
    f << "}\n";
    return failed ? 1 : 0;
}

inline int replay(const std::string& file)
{
    std::ifstream f(file); std::string line, lname; std::vector<std::uint64_t> tape;
    while (std::getline(f, line))
    {
        std::istringstream s(line); std::string k; s >> k;
        if (k == "law") { s >> std::ws; std::getline(s, lname); }
        if (k == "tape") { std::uint64_t x; while (s >> x) tape.push_back(x); }
    }
    auto sh = make_shared_region();
    for (auto& law : laws()) if (law.name == lname)
    {
        std::string m; auto r = run_isolated(law, sh, tape, m, law.hang_s);
        std::cout << (r ? "FAILED " : "passed ") << lname << "\ncase: " << sh->described << "\nmessage: " << m << "\n";
        return r;
    }
    std::cerr << "no such law: " << lname << "\n"; return 2;
}

inline int main(int argc, char** argv)
{
    options_t o; std::string rp; bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i]; auto next = [&] { return std::string(argv[++i]); };
        if (a == "--list") list = true;
        else if (a == "--law") o.law = next();
        else if (a == "--out") o.out = next();
        else if (a == "--seed") o.seed = std::stoull(next());
        else if (a == "--scale") o.scale = std::stod(next());
        else if (a == "--cases") o.cases = std::stol(next());
        else if (a == "--max-s") o.max_s = std::stod(next());
        else if (a == "--property") o.property = next();
        else if (a == "--replay-out") o.replay_out = next();
        else if (a == "--replay") rp = next();
    }
    if (! rp.empty()) return replay(rp);
    if (list) { for (auto& l : laws()) std::cout << l.name << "\n"; return 0; }
    int rc = 0;
    for (auto& l : laws()) if (l.name == o.law) rc |= run_law(l, o);
    return rc;
}
}

#define PBT_MAIN int main(int argc, char** argv) { return pbt::main(argc, argv); }
