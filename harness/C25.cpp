// C25: what a run writes does not depend on the number of threads or on how they are scheduled
#include "programs.hpp"
using namespace pbt; using namespace cli; using namespace prog;
static std::set<std::string> skip() { std::set<std::string> r; for (auto k : {"threaded", "outdir"}) for (auto g : {"config/", "run_config/"}) r.insert(std::string(g) + k); return r; }
static void compare(const std::string& a, const std::string& b) { auto names = files(a); expect_eq("files", files(b), names); for (auto& f : names) same_file(f, read_h5(a + "/" + f), read_h5(b + "/" + f), skip()); }
struct jitter { jitter(src& s) { auto rate = s.pick(std::vector<int>{0, 0, 2, 5, 20}); s.cls("delayed threads", rate > 0); s.note("delays", rate); setenv("JITTER_RATE", std::to_string(rate).c_str(), 1); setenv("JITTER_SEED", std::to_string(s.draw(1 << 20) + 1).c_str(), 1); if (rate) setenv("LD_PRELOAD", std::getenv("JITTER_SO"), 1); } ~jitter() { unsetenv("JITTER_RATE"); unsetenv("LD_PRELOAD"); } };
static result go(const program& p, const std::string& dir, const std::string& sub, const std::map<std::string, std::string>& with, bool jit, src& s) { if (! jit) return run(p, dir, sub, with); jitter j(s); return run(p, dir, sub, with); }
LAW("binary: the same files with any number of threads", 110, "two or more threads, a mesh of two or more blocks, several steps", [] (src& s)
{
    auto p = binary(s, 3, 5); scratch dir; p.o.set("threaded", 1); auto dt = first_step(p, dir.path); auto steps = s.integer(0, 8); std::map<std::string, std::string> with{{"tfinal", num(dt * (steps - 0.5))}, {"cpi", "0"}, {"dfi", num(dt * s.pick({0.0, 2.5}))}, {"tsi", "0"}}; s.note("options", p.o.str()); s.note("steps", steps);
    auto r = run(p, dir.path, "one", with); if (r.timed_out) fail("mara does not finish"); if (r.code) discard(); auto k = s.chance(1, 8) ? 1 : int(s.integer(2, s.chance(1, 3) ? 32 : 8)); s.note("threads", k); s.nontrivial(k > 1 && steps > 1 && p.o.i("depth") > 0); s.cls("one thread again", k == 1);
    p.o.set("threaded", k); ok(go(p, dir.path, "many", with, true, s)); compare(dir / "one", dir / "many");
});
LAW("binary: restarted with another number of threads", 60, "several steps after the restart", [] (src& s)
{
    auto p = binary(s, 3, 5); scratch dir; p.o.set("threaded", 1); auto dt = first_step(p, dir.path); auto steps = s.integer(1, 8); std::map<std::string, std::string> with{{"tfinal", num(dt * (steps - 0.5))}, {"cpi", "0"}, {"dfi", "0"}, {"tsi", "0"}}; s.note("options", p.o.str()); auto r = run(p, dir.path, "one", with); if (r.timed_out) fail("mara does not finish"); if (r.code) discard();
    auto at = s.size(0, steps - 1); char f[40]; std::snprintf(f, 40, "one/chkpt.%04d.h5", int(at)); auto k = int(s.integer(2, 8)); s.note("threads", k); s.nontrivial(at + 2 < std::size_t(steps)); { jitter j(s); ok(resume(p, dir.path, "rest", f, {{"tfinal", with["tfinal"]}, {"threaded", std::to_string(k)}})); }
    auto names = files(dir / "rest"); if (names.empty()) fail("nothing was written"); auto sk = skip(); sk.insert("run_config/restart"); sk.insert("config/restart"); for (auto& n : names) same_file(n, read_h5(dir / "one/" + n), read_h5(dir / "rest/" + n), sk);
});
LAW("cloud: the same files every time", 50, "several steps", [] (src& s)
{
    auto p = cloud(s); scratch dir; auto dt = first_step(p, dir.path); auto steps = s.integer(0, 6); std::map<std::string, std::string> with{{"tfinal", num(dt * (steps - 0.5))}, {"cpi", "0"}, {"dfi", "0"}}; s.note("options", p.o.str()); s.note("steps", steps); s.nontrivial(steps > 1); auto r = run(p, dir.path, "one", with); if (r.timed_out) fail("mara does not finish"); if (r.code) discard(); ok(go(p, dir.path, "two", with, true, s)); compare(dir / "one", dir / "two");
});
LAW("sedov and boilerplate: the same files every time", 30, "several steps", [] (src& s)
{
    auto p = s.coin() ? sedov(s) : boilerplate(s); scratch dir; auto dt = first_step(p, dir.path); auto steps = s.integer(0, 10); std::map<std::string, std::string> with{{"tfinal", num(dt * (steps - 0.5))}, {"cpi", "0"}}; if (p.diagnostics) with["dfi"] = with["tsi"] = "0"; s.nontrivial(steps > 1); auto r = run(p, dir.path, "one", with); if (r.timed_out) fail("mara does not finish"); if (r.code) discard(); ok(go(p, dir.path, "two", with, true, s)); compare(dir / "one", dir / "two");
});
LAW("no data races between the threads of a run", 24, "two or more threads, several steps", [] (src& s)
{
    bool bin = s.chance(2, 3); auto p = bin ? binary(s, 2, 3) : cloud(s); scratch dir; p.o.set("cfl_number", 0.3); if (! bin) p.o.set("nr", int(s.integer(3, 5))); if (bin) p.o.set("threaded", 1); auto dt = first_step(p, dir.path); auto steps = s.integer(1, 3); auto k = int(s.integer(2, 8)); if (bin) p.o.set("threaded", k); s.note("program", p.name); s.note("options", p.o.str()); s.nontrivial(steps > 1); s.cls(p.name);
    auto a = p.args({{"tfinal", num(dt * (steps - 0.5))}, {"cpi", "0"}, {"dfi", "0"}, {"outdir", "out"}}); a.insert(a.begin(), std::getenv("MARA_TSAN")); setenv("TSAN_OPTIONS", "exitcode=66 halt_on_error=1 report_thread_leaks=0 history_size=4", 1); auto r = exec(a, dir.path, 100); if (r.timed_out) fail("mara does not finish");
    auto w = r.out.find("WARNING: ThreadSanitizer: data race"); if (r.code == 66 && w != std::string::npos) fail("data race: " + r.out.substr(w, 1500)); if (r.code) discard();
});
PBT_MAIN
