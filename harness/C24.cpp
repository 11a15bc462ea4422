// C24: a run that is stopped and restarted from a checkpoint goes on as if it had not been stopped
#include "programs.hpp"
using namespace pbt; using namespace cli; using namespace prog;
static void draw_intervals(src& s, std::map<std::string, std::string>& with, const program& p, double dt)
{
    with["cpi"] = num(s.chance(1, 4) ? 0.0 : dt * s.real(0.3, 5)); if (p.diagnostics) { with["dfi"] = num(s.chance(1, 4) ? 0.0 : dt * s.real(0.3, 5)); with["tsi"] = num(s.chance(1, 4) ? 0.0 : dt * s.real(0.3, 5)); }
}
static void compare(const program& p, const std::string& a, const std::string& b, const std::vector<std::string>& which)
{
    for (auto& f : which) same_file(f, read_h5(a + "/" + f), read_h5(b + "/" + f), places(p));
}
static void history(src& s, program p)
{
    scratch dir; auto dt = first_step(p, dir.path); std::map<std::string, std::string> with; draw_intervals(s, with, p, dt); auto steps = s.integer(1, 14); auto T = dt * (steps - 0.5); with["tfinal"] = num(T);
    auto full = run(p, dir.path, "full", with); if (full.timed_out) fail("mara does not finish"); if (full.code) discard();
    // every run takes one more step after the stop time is reached: a checkpoint of that last state is the start of a longer run, not of this one
    auto w0 = with; w0["cpi"] = "0"; if (p.diagnostics) w0["dfi"] = w0["tsi"] = "1e9"; ok(run(p, dir.path, "each", w0)); auto last = int(files(dir / "each", "chkpt").size()) - 2; if (last < 0) fail("a run writes fewer than two checkpoints");
    auto usable = [&] (const std::string& sub) { std::vector<std::string> r; for (auto& f : files(dir / sub, "chkpt")) if (iteration(dir / sub + "/" + f) <= last) r.push_back(f); return r; };
    auto names = files(dir / "full"); auto chkpts = files(dir / "full", "chkpt"); s.note("program", p.name); s.note("options", p.o.str()); s.note("steps", steps); s.note("cpi", with["cpi"]); s.note("checkpoints", chkpts.size()); s.cls(p.name);
    if (s.coin())
    {
        // go on from a checkpoint of the complete run, in a directory of its own (sedov goes on with the time series file it finds there)
        auto from = usable("full"); auto k = s.size(0, from.size() - 1); s.note("restarted from", chkpts[k]); s.cls("from a checkpoint of the full run"); s.nontrivial(k > 0 && k + 1 < chkpts.size()); mkdir((dir / "rest").c_str(), 0755); if (p.series) copy_file(dir / "full/time_series.h5", dir / "rest/time_series.h5");
        ok(resume(p, dir.path, "rest", (p.outdir ? "full/" : "../full/") + chkpts[k], {{"tfinal", num(T)}}));
        auto c = read_h5(dir / "full" + ("/" + chkpts[k])); std::vector<std::string> want; for (auto& f : names) { std::string kind = f.substr(0, f.find('.')); if (kind == "chkpt" || kind == "diagnostics") { if (std::stoi(index_of(f)) >= c.integer("schedule/write_" + std::string(kind == "chkpt" ? "checkpoint" : kind) + "/num_times_performed")) want.push_back(f); } else if (p.series) want.push_back(f); }
        expect_eq("files written after the restart", files(dir / "rest"), want); compare(p, dir / "full", dir / "rest", want);
        return;
    }
    // the same run in several pieces in one directory, each started from the last checkpoint of the one before or an earlier one
    auto pieces = s.integer(1, 3); double t = 0; s.cls("in pieces"); bool restarted = false;
    for (int i = 0; i <= pieces; ++i)
    {
        t = i == pieces ? T : s.real(t / dt, std::max(t / dt, double(steps))) * dt; t = std::min(t, T); auto end = num(t); auto have = i ? usable("part") : std::vector<std::string>();
        if (! i) { auto w = with; w["tfinal"] = end; ok(run(p, dir.path, "part", w)); continue; }
        auto k = s.chance(2, 3) ? have.size() - 1 : s.size(0, have.size() - 1); s.note("piece " + std::to_string(i) + " from", have[k]); restarted = restarted || k > 0; ok(resume(p, dir.path, "part", (p.outdir ? "part/" : "") + have[k], {{"tfinal", end}}));
    }
    s.nontrivial(restarted && chkpts.size() > 2); expect_eq("files of the restarted run", files(dir / "part"), names); compare(p, dir / "full", dir / "part", names);
}
LAW("binary: restarted runs write what the uninterrupted run writes", 150, "restarted from a checkpoint other than the first, and with later ones to compare", [] (src& s) { history(s, binary(s, 3, 5)); });
LAW("sedov: restarted runs write what the uninterrupted run writes", 120, "restarted from a checkpoint other than the first, and with later ones to compare", [] (src& s) { history(s, sedov(s)); });
LAW("cloud: restarted runs write what the uninterrupted run writes", 120, "restarted from a checkpoint other than the first, and with later ones to compare", [] (src& s) { history(s, cloud(s)); });
LAW("boilerplate: restarted runs write what the uninterrupted run writes", 40, "restarted from a checkpoint other than the first, and with later ones to compare", [] (src& s) { history(s, boilerplate(s)); });
// killed at any moment: every checkpoint but the newest is complete, and the run goes on from it
LAW_OPT("a killed run goes on from its last complete checkpoint", 40, "killed after at least two checkpoints and before the end", 60, true, [] (src& s)
{
    auto p = s.coin() ? binary(s, 3, 6) : cloud(s); scratch dir; auto dt = first_step(p, dir.path); std::map<std::string, std::string> with; draw_intervals(s, with, p, dt); with["cpi"] = num(dt * s.real(0, 2)); auto T = dt * s.integer(10, 40); with["tfinal"] = num(T); auto t0 = now();
    auto full = run(p, dir.path, "full", with); if (full.timed_out) fail("mara does not finish"); if (full.code) discard(); auto took = now() - t0; auto w = with; w["outdir"] = "part"; auto r = run_mara(p.args(w), dir.path, s.real(0, 1) * took);
    auto have = files(dir / "part", "chkpt"); s.note("program", p.name); s.note("checkpoints when killed", have.size()); s.cls("killed", r.timed_out); if (! r.timed_out && r.code) fail("mara exits with code " + std::to_string(r.code)); if (! r.timed_out || have.size() < 2) return; s.nontrivial();
    have.pop_back(); for (auto& f : have) same_file(f, read_h5(dir / "full/" + f), read_h5(dir / "part/" + f), places(p)); ok(resume(p, dir.path, "part", "part/" + have.back(), {{"tfinal", num(T)}})); auto names = files(dir / "full"); expect_eq("files", files(dir / "part"), names); compare(p, dir / "full", dir / "part", names);
});
PBT_MAIN
