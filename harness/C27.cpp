// C27: what a run writes, when, and that writing does not change the solution
#include "programs.hpp"
using namespace pbt; using namespace cli; using namespace prog;
// the states (by step number) at which a task is performed: at the start, and after each step that begins at least one interval after the last time
struct cadence { std::vector<int> at; std::vector<double> last; };
static cadence model(const std::vector<double>& t, double interval, double tol)
{
    cadence c{{0}, {0.0}}; double last = 0; for (std::size_t n = 0; n + 1 < t.size(); ++n) { if (interval > 0 && std::fabs(t[n] - last - interval) < tol && ! (last == 0 && t[n] == interval)) discard(); if (t[n] - last >= interval) { last += interval; c.at.push_back(int(n) + 1); c.last.push_back(last); } } return c;
}
static void same_group(const std::string& what, const h5dump& a, const h5dump& b, const std::string& g) { auto pick = [&] (const h5dump& d) { h5dump r; for (auto& k : d.under(g)) r.sets[k] = d.at(g + "/" + k); return r; }; if (pick(a).sets.empty()) fail(what + ": there is no " + g); same_file(what, pick(a), pick(b)); }
static std::set<std::string> settings(const h5dump& d) { std::set<std::string> r; for (auto g : {"config", "run_config"}) for (auto& k : d.under(g)) r.insert(std::string(g) + "/" + k); return r; }
static double time_of(const std::string& dir, int n) { auto all = files(dir, "chkpt"); return read_h5(dir + "/" + all[std::min<std::size_t>(n, all.size() - 1)]).real("solution/time"); }
static void cadence_law(src& s, program p, bool checkpoints=true)
{
    scratch dir; double dt; if (checkpoints) dt = first_step(p, dir.path); else dt = 2.0 / (p.o.i("block_size") + 1) / (1 << p.o.i("depth"));
    auto steps = int(s.integer(0, 25)); std::map<std::string, std::string> every{{"tfinal", s.chance(1, 6) ? "0" : num(dt * (steps - 0.5))}}, with = every; bool dyadic = p.name == "amrsand" && p.o.i("depth") == 0 && p.o.i("block_size") % 4 == 3; if (dyadic && s.coin()) every["tfinal"] = with["tfinal"] = num(dt * steps); std::map<std::string, double> iv;
    for (auto k : {"cpi", "dfi", "tsi"}) { if ((k == std::string("cpi") && ! checkpoints) || (k != std::string("cpi") && ! p.diagnostics) || (k == std::string("tsi") && ! checkpoints)) continue; iv[k] = s.chance(1, 8) ? 0.0 : s.chance(1, 8) ? 1e6 : dyadic ? dt * s.integer(1, 10) : dt * s.logreal(0.2, 12); every[k] = "0"; with[k] = num(iv[k]); s.note(k, iv[k] / dt); iv[k] *= p.unit; }
    s.note("program", p.name); s.note("options", p.o.str()); s.note("steps", steps); s.cls(p.name);
    auto e = run(p, dir.path, "every", every); if (e.timed_out) fail("mara does not finish"); if (e.code) discard(); if (p.unit == 1 && checkpoints) for (auto& x : iv) if (s.chance(1, 4)) { x.second = time_of(dir / "every", s.integer(0, steps)); with[x.first] = num(x.second); s.note(x.first, "exactly a step"); } ok(run(p, dir.path, "some", with));
    std::string prod = checkpoints ? "chkpt" : "diagnostics"; auto all = files(dir / "every", prod); std::vector<double> t; std::vector<std::string> want; for (std::size_t n = 0; n < all.size(); ++n) { want.push_back(numbered(prod, n)); } expect_eq("files of the run that writes every step", all, want);
    for (auto& f : all) t.push_back(read_h5(dir / "every/" + f).real(checkpoints ? "solution/time" : "time")); expect_eq("the time of the first state", t[0], 0.0); for (std::size_t n = 1; n < t.size(); ++n) if (! (t[n] > t[n - 1])) fail("time does not advance: " + show(t[n - 1]) + " to " + show(t[n]));
    // the run goes on until the stop time is reached, then takes one more step
    auto T = std::stod(every["tfinal"]) * p.unit; std::size_t n = 0; while (n < t.size() && t[n] < T) { if (! dyadic && std::fabs(t[n] - T) < 1e-9 * dt) discard(); ++n; } expect_eq("number of steps taken until time " + show(T) + " (in units of the first step " + show(T / dt / p.unit) + ")", t.size() - 1, n + 1);
    auto tol = dyadic ? 0.0 : 1e-9 * dt * p.unit; std::vector<std::string> names; cadence c, d, ts; if (checkpoints) { c = model(t, iv["cpi"], tol); for (std::size_t k = 0; k < c.at.size(); ++k) names.push_back(numbered("chkpt", k)); } if (p.diagnostics) { d = model(t, iv["dfi"], tol); for (std::size_t k = 0; k < d.at.size(); ++k) names.push_back(numbered("diagnostics", k)); } if (p.diagnostics && checkpoints) ts = model(t, iv["tsi"], tol);
    auto got = files(dir / "some"); got.erase(std::remove(got.begin(), got.end(), "time_series.h5"), got.end()); std::sort(names.begin(), names.end()); s.note("files", names.size()); s.nontrivial(names.size() > 2 && names.size() < 2 * t.size()); expect_eq("files written", got, names);
    for (std::size_t k = 0; k < d.at.size(); ++k) { auto a = read_h5(dir / "every/" + numbered("diagnostics", d.at[k])), b = read_h5(dir / "some/" + numbered("diagnostics", k)); same_file("diagnostics number " + show(k) + " is of state " + show(d.at[k]), a, b, settings(a)); }
    for (std::size_t k = 0; k < c.at.size(); ++k)
    {
        auto a = read_h5(dir / "every/" + numbered("chkpt", c.at[k])), b = read_h5(dir / "some/" + numbered("chkpt", k)); auto what = "checkpoint number " + show(k) + " is of state " + show(c.at[k]); same_group(what, a, b, "solution");
        auto rec = [&] (const std::string& task, const cadence& q) { auto m = std::size_t(std::upper_bound(q.at.begin(), q.at.end(), c.at[k]) - q.at.begin()); expect_eq(what + ": times " + task + " was done", std::size_t(b.integer("schedule/" + task + "/num_times_performed")), m); expect_close(what + ": last " + task, b.real("schedule/" + task + "/last_performed"), q.last[m - 1], 1e-12, tol); return m; };
        rec("write_checkpoint", c); if (! p.diagnostics) continue; rec("write_diagnostics", d);
        if (p.name == "binary") { auto m = rec("record_time_series", ts); auto x = read_table(dir / "some/" + numbered("chkpt", k), "time_series", b), y = read_table(dir / "every/" + numbered("chkpt", c.at[k]), "time_series", a); expect_eq("samples in the time series", x.rows(), m); for (std::size_t i = 0; i < m; ++i) if (x.data.bytes.compare(i * x.data.tsize, x.data.tsize, y.data.bytes, ts.at[i] * y.data.tsize, y.data.tsize)) fail("sample " + show(i) + " of the time series is not of state " + show(ts.at[i])); }
    }
    if (p.series) { auto a = read_h5(dir / "every/time_series.h5"), b = read_h5(dir / "some/time_series.h5"); for (auto& x : a.sets) { if (settings(a).count(x.first)) continue; auto u = a.doubles(x.first), v = b.doubles(x.first); expect_eq("rows of " + x.first + " when written every step", u.size(), t.size()); expect_eq("rows of " + x.first, v.size(), ts.at.size()); for (std::size_t i = 0; i < v.size(); ++i) if (std::memcmp(&u[ts.at[i]], &v[i], 8)) fail("row " + show(i) + " of " + x.first + " is " + show(v[i]) + ", want that of state " + show(ts.at[i]) + ", " + show(u[ts.at[i]])); if (x.first == "time" && std::memcmp(u.data(), t.data(), 8 * t.size())) fail("the times of the time series are not those of the checkpoints"); } }
}
static program amrsand(src& s) { program p{"amrsand", true, true, false, 1, {}}; p.o.set("depth", int(s.integer(0, 3))); p.o.set("block_size", 2 * int(s.integer(1, 3))); if (s.chance(1, 3)) { p.o.set("depth", 0); p.o.set("block_size", s.coin() ? 3 : 7); } return p; }
// a stop time that is exactly the time of a state has been reached
static void stop_law(src& s, program p)
{
    scratch dir; auto dt = first_step(p, dir.path); auto steps = int(s.integer(0, 6)); s.note("program", p.name); s.note("options", p.o.str()); s.note("steps", steps); s.cls(p.name); s.nontrivial(steps > 0); auto e = run(p, dir.path, "a", {{"tfinal", num(dt * (steps - 0.5))}, {"cpi", "0"}}); if (e.timed_out) fail("mara does not finish"); if (e.code) discard(); auto all = files(dir / "a", "chkpt");
    auto k = s.integer(0, long(all.size()) - 2); auto T = time_of(dir / "a", int(k)); s.note("stop time", T); ok(run(p, dir.path, "b", {{"tfinal", num(T)}, {"cpi", "0"}})); expect_eq("states of a run until the exact time of state " + show(k), files(dir / "b", "chkpt").size(), std::size_t(k) + 2);
}
LAW("a stop time that falls on a state is reached there", 90, "more than one step", [] (src& s) { switch (s.integer(0, 2)) { case 0: stop_law(s, sedov(s)); break; case 1: stop_law(s, cloud(s)); break; default: stop_law(s, boilerplate(s)); } });
LAW("binary: files and samples appear at their intervals", 110, "some but not all states are written", [] (src& s) { cadence_law(s, binary(s, 3, 4)); });
LAW("sedov: files and samples appear at their intervals", 100, "some but not all states are written", [] (src& s) { cadence_law(s, sedov(s)); });
LAW("cloud: files appear at their intervals", 80, "some but not all states are written", [] (src& s) { cadence_law(s, cloud(s)); });
LAW("boilerplate: files appear at their intervals", 30, "some but not all states are written", [] (src& s) { cadence_law(s, boilerplate(s)); });
LAW("amrsand: files appear at their intervals", 60, "some but not all states are written", [] (src& s) { cadence_law(s, amrsand(s), false); });
PBT_MAIN
