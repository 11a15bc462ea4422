// C23: the binary disk program, step by step, against the reference in binary_ref.hpp
#include "binary_ref.hpp"
using namespace bref;

struct run { scratch dir; stepper st; explicit run(const options& o) : st(o) {} };
static bool sane(const stepper& st) { bool ok = true; st.m.each([&] (blk b, long i, long j, int) { if (! (st.d.vp2(std::hypot(st.m.xc(b.l, i), st.m.xc(b.l, j))) > 1e-3)) ok = false; }); return ok; }
static options draw_options(src& s, int depth=3, int block=6) { auto o = gen_options(s, depth, block); stepper st(o); if (st.m.tie || ! sane(st)) discard(); return o; }
static state load(const run& r, const std::string& f) { return read_state(r.dir / f, r.st, read_h5(r.dir / f)); }
// the state at the start of a run (the program also takes a step, which may legitimately fail)
static state begin(run& r) { auto res = run_mara(r.st.o.args(), r.dir.path); if (res.timed_out) fail("mara does not finish"); if (files(r.dir / "data", "chkpt.0000").empty()) fail("no checkpoint was written: " + tail(res.out)); return load(r, "data/chkpt.0000.h5"); }
// put a state in a copy of the first checkpoint and let the program take one step from it
static result go(run& r, const state& s)
{
    auto in = r.dir / "in.h5"; copy_file(r.dir / "data/chkpt.0000.h5", in); write_state(in, r.st, read_h5(in), s); return run_mara({"binary", "restart=in.h5", "outdir=out"}, r.dir.path);
}
static void perturb(src& s, const stepper& st, state& t, double amp, bool smooth)
{
    auto kx = s.integer(1, 3), ky = s.integer(1, 3); auto ph = s.real(0, 6.28); auto D = st.m.D; rng_t g{s.draw(1ull << 40) + 1}; auto N = [&] { double x = 0; for (int i = 0; i < 6; ++i) x += double(g.next() >> 11) / 9007199254740992.0; return (x - 3) * 1.414; };
    st.m.each([&] (blk b, long i, long j, int k) { auto x = st.m.xc(b.l, i), y = st.m.xc(b.l, j); auto p = st.to_prim(t.u[b][k], x, y); auto z = [&] { return smooth ? std::sin(kx * M_PI * x / D + ph) * std::cos(ky * M_PI * y / D + ph) : N(); }; p[0] *= std::exp(amp * z()); p[1] += amp * z(); p[2] += amp * z(); t.u[b][k] = st.to_cons(p, x, y); });
}
static void history(src& s, state& t)
{
    t.time = s.chance(1, 4) ? 0.0 : s.real(0, 40); for (auto p = reinterpret_cast<double*>(&t.T); p != reinterpret_cast<double*>(&t.T + 1); ++p) *p = s.coin() ? 0.0 : s.symmetric(1e-3);
    for (int k = 0; k < 10; ++k) { t.acc[k] = s.coin() ? 0.0 : s.symmetric(1e-3); t.grav[k] = s.coin() ? 0.0 : s.symmetric(1e-3); }
    if (s.coin()) { t.orb[0] = s.symmetric(3); t.orb[1] = s.real(-5, t.time + 3); t.orb[2] = s.symmetric(0.2); t.orb[3] = s.symmetric(0.2); t.orb[4] = s.symmetric(0.1); t.orb[5] = s.symmetric(0.1); t.orb[6] *= s.real(0.8, 1.2); t.orb[7] *= s.real(0.9, 1.1); t.orb[8] *= s.real(0.8, 1); if (t.orb[9] > 0) t.orb[9] *= s.real(0.5, 1); }
}
static bool levels(const stepper& st) { return st.m.leaves.begin()->l != st.m.top(); }
static void classify(src& s, const stepper& st)
{
    s.note("options", st.o.str());
    auto& o = st.o; s.cls(st.lin ? "linear momentum form" : "angular momentum form"); s.cls("rk" + o.kv.at("rk_order")); s.cls(o.kv.at("reconstruct_method")); s.cls("several levels", levels(st)); s.cls("fixed time step", o.is("fixed_dt")); s.cls("live binary", o.r("begin_live_binary") < 0);
}
static void compare_step(src& s, run& r, const state& t)
{
    auto want = r.st.step(t); if (want.tie) discard(); auto res = go(r, t); if (res.timed_out) fail("mara does not finish");
    if (want.failed) { s.cls("both attempts fail"); if (res.code == 0) fail("the step leads to negative density even when retried, but the program succeeds"); for (auto& f : files(r.dir / "out", "chkpt")) fail("a state with negative density was written: " + f); return; }
    s.cls("retried with a shorter step", want.retried); if (res.code) fail("mara exits with code " + std::to_string(res.code) + ": " + tail(res.out));
    expect_state(want.retried ? "retried step" : "step", r.st, load(r, "out/chkpt.0001.h5"), want.next, t);
}

LAW("one step from any state is the reference step", 480, "several refinement levels, or a state perturbed by at least 10%", [] (src& s)
{
    auto o = draw_options(s); run r(o); auto t = begin(r); auto amp = s.pick({0., 1e-2, 0.1, 0.5}); bool smooth = s.coin(); perturb(s, r.st, t, amp, smooth); history(s, t);
    s.note("amplitude", amp); classify(s, r.st); s.nontrivial(levels(r.st) || amp >= 0.1); compare_step(s, r, t);
});
LAW("a step that would make the density negative is retried, and never written", 240, "the first attempt fails", [] (src& s)
{
    auto o = draw_options(s, 3, 5); o.set("cfl_number", s.real(0.4, 1.5)); if (s.coin()) o.set("sink_rate", s.logreal(10, 1000)); run r(o);
    auto t = begin(r); auto amp = s.pick({0.5, 1., 1.5, 2.}); perturb(s, r.st, t, amp, false); s.note("amplitude", amp); classify(s, r.st); s.nontrivial(r.st.step(t).retried); compare_step(s, r, t);
});
LAW("a run starts from the documented disk and orbit", 200, "several refinement levels", [] (src& s)
{
    auto o = draw_options(s, 4, 6); run r(o); auto got = begin(r), want = r.st.initial(); classify(s, r.st); s.nontrivial(levels(r.st)); expect_eq("time", got.time, 0.0); expect_eq("iteration", got.iteration, 0.0);
    r.st.m.each([&] (blk b, long i, long j, int k) { auto x = r.st.m.xc(b.l, i), y = r.st.m.xc(b.l, j); auto p = r.st.d.prim(x, y); double sc[3] = {p[0], p[0] * std::hypot(p[1], p[2]), p[0] * std::hypot(p[1], p[2])}; if (! r.st.lin) for (int c = 1; c < 3; ++c) sc[c] *= std::hypot(x, y); for (int c = 0; c < 3; ++c) if (! near(got.u[b][k][c], want.u[b][k][c], 1e-11 * sc[c])) fail("component " + show(c) + " at (" + show(x) + ", " + show(y) + ") is " + show(got.u[b][k][c]) + ", want " + show(want.u[b][k][c])); });
    for (int k = 0; k < 10; ++k) { expect_eq("orbital " + element_names()[k], got.orb[k], want.orb[k]); expect_eq("accretion change of " + element_names()[k], got.acc[k], 0.0); expect_eq("gravity change of " + element_names()[k], got.grav[k], 0.0); }
    for (auto p = reinterpret_cast<double*>(&got.T); p != reinterpret_cast<double*>(&got.T + 1); ++p) expect_eq("a budget", *p, 0.0);
});
LAW("mass and angular momentum budgets close over a run", 200, "several levels and at least four steps", [] (src& s)
{
    auto o = draw_options(s, 3, 5); o.set("axisymmetric_cs2", 1); o.set("density_floor", 0.0); o.set("cfl_number", s.real(0.1, 0.4)); run r(o); auto t = begin(r); perturb(s, r.st, t, s.pick({0.0, 0.1, 0.3}), s.coin()); history(s, t); classify(s, r.st); auto in = r.dir / "in.h5"; copy_file(r.dir / "data/chkpt.0000.h5", in); write_state(in, r.st, read_h5(in), t);
    auto steps = s.integer(1, 8); auto fin = t.time + steps * r.st.dt(t); auto res = run_mara({"binary", "restart=in.h5", "outdir=out", opt("tfinal", fin / 2 / M_PI), "dfi=1e9"}, r.dir.path); if (res.timed_out) fail("mara does not finish"); auto out = files(r.dir / "out", "chkpt"); if (res.code && out.empty()) discard(); s.nontrivial(levels(r.st) && out.size() >= 4);
    auto T = [] (const state& x) { return x.T; }; (void) T; auto m0 = r.st.total(t, false) + t.T.mass[0] + t.T.mass[1] + t.T.mass_ej, l0 = r.st.total(t, true) + t.T.lz[0] + t.T.lz[1] + t.T.torque[0] + t.T.torque[1] + t.T.lz_ej; auto ms = r.st.total_mag(t, false), ls = r.st.total_mag(t, true);
    for (auto& f : out)
    {
        auto x = load(r, "out/" + f); ms += std::fabs(x.T.mass[0]) + std::fabs(x.T.mass[1]) + std::fabs(x.T.mass_ej); ls += r.st.total_mag(x, true) + std::fabs(x.T.lz[0]) + std::fabs(x.T.lz[1]) + std::fabs(x.T.torque[0]) + std::fabs(x.T.torque[1]) + std::fabs(x.T.lz_ej);
        auto m1 = r.st.total(x, false) + x.T.mass[0] + x.T.mass[1] + x.T.mass_ej; if (! near(m1, m0, 1e-12 * ms)) fail("disk mass plus accreted plus ejected mass goes from " + show(m0) + " to " + show(m1) + " in " + f);
        if (! r.st.lin) { auto l1 = r.st.total(x, true) + x.T.lz[0] + x.T.lz[1] + x.T.torque[0] + x.T.torque[1] + x.T.lz_ej; if (! near(l1, l0, 1e-11 * ls)) fail("disk angular momentum plus accreted, ejected and torque goes from " + show(l0) + " to " + show(l1) + " in " + f); }
        r.st.m.each([&] (blk b, long, long, int k) { if (! (x.u.at(b)[k][0] >= 0)) fail("negative density in " + f); });
    }
});
LAW("diagnostics and time series describe the state in the checkpoint", 200, "several refinement levels", [] (src& s)
{
    auto o = draw_options(s, 3, 6); run r(o); auto t = begin(r); perturb(s, r.st, t, s.pick({0.0, 0.1, 0.3}), s.coin()); history(s, t); classify(s, r.st); s.nontrivial(levels(r.st)); auto res = go(r, t); if (res.code) discard();
    auto cf = r.dir / "out/chkpt.0001.h5", df = r.dir / "out/diagnostics.0001.h5"; auto c = read_h5(cf), d = read_h5(df); auto x = read_state(cf, r.st, c); auto& m = r.st.m; auto P = r.st.prims(x); auto B = mara::compute_two_body_state(to_mara(x.orb), x.time); expect_eq("diagnostics time", d.real("time"), x.time);
    std::map<blk, std::string> where[4]; const char* names[4] = {"sigma", "radial_velocity", "phi_velocity", "vertices"}; for (int q = 0; q < 4; ++q) { where[q] = blocks_of(d, names[q]); expect_leaves(names[q], where[q], m.leaves); }
    std::map<blk, std::vector<double>> val[4]; for (int q = 0; q < 4; ++q) for (auto& b : where[q]) { val[q][b.first] = d.doubles(b.second); if (val[q][b.first].size() != std::size_t(q < 3 ? m.n * m.n : 2 * (m.n + 1) * (m.n + 1))) fail(std::string(names[q]) + " has the wrong size"); }
    m.each([&] (blk b, long i, long j, int k) { auto X = m.xc(b.l, i), Y = m.xc(b.l, j), R = std::hypot(X, Y); auto p = P[b][k]; auto v = std::hypot(p[1], p[2]); double w[3] = {p[0], (X * p[1] + Y * p[2]) / R, (X * p[2] - Y * p[1]) / R}, tol[3] = {1e-12 * p[0], 1e-11 * v, 1e-11 * v}; for (int q = 0; q < 3; ++q) if (! near(val[q][b][k], w[q], tol[q])) fail(std::string(names[q]) + " at (" + show(X) + ", " + show(Y) + ") is " + show(val[q][b][k]) + ", want " + show(w[q])); });
    for (auto& b : m.leaves) for (int i = 0; i <= m.n; ++i) for (int j = 0; j <= m.n; ++j) { auto* p = &val[3][b][2 * (i * (m.n + 1) + j)]; if (! near(p[0], m.xf(b.l, b.i * m.n + i), 1e-12 * m.D) || ! near(p[1], m.xf(b.l, b.j * m.n + j), 1e-12 * m.D)) fail("vertex (" + show(i) + ", " + show(j) + ") of block " + show(b) + " is at (" + show(p[0]) + ", " + show(p[1]) + ")"); }
    auto pos = [&] (const std::string& what, const std::vector<double>& g, const mara::point_mass_t& w) { if (g.size() != 2 || ! near(g[0], w.position_x, 1e-9) || ! near(g[1], w.position_y, 1e-9)) fail(what); }; pos("position of mass 1", d.doubles("position_of_mass1"), B.body1); pos("position of mass 2", d.doubles("position_of_mass2"), B.body2);
    auto ts = read_table(cf, "time_series", c); auto before = read_table(r.dir / "in.h5", "time_series", read_h5(r.dir / "in.h5")); expect_eq("number of time series samples", ts.rows(), before.rows() + 1); auto n = ts.rows() - 1;
    auto same = [&] (const std::string& k, double w, std::size_t e=0) { auto g = ts.get(n, k, e); if (std::memcmp(&g, &w, 8)) fail("time series " + k + " is " + show(g) + ", the checkpoint has " + show(w)); };
    same("time", x.time); same("mass_ejected", x.T.mass_ej); same("angular_momentum_ejected", x.T.lz_ej); for (int q = 0; q < 2; ++q) { same("mass_accreted_on", x.T.mass[q], q); same("angular_momentum_accreted_on", x.T.lz[q], q); same("integrated_torque_on", x.T.torque[q], q); same("work_done_on", x.T.work[q], q); }
    for (int k = 0; k < 10; ++k) { same("orbital_elements." + element_names()[k], x.orb[k]); same("orbital_elements_acc." + element_names()[k], x.acc[k]); same("orbital_elements_grav." + element_names()[k], x.grav[k]); }
    auto close = [&] (const std::string& k, double w, double tol, std::size_t e=0) { auto g = ts.get(n, k, e); if (! near(g, w, tol)) fail("time series " + k + " is " + show(g) + ", want " + show(w)); };
    close("disk_mass", r.st.total(x, false), 1e-12 * r.st.total_mag(x, false)); close("disk_angular_momentum", r.st.total(x, true), 1e-11 * r.st.total_mag(x, true)); close("position_of_mass1", B.body1.position_x, 1e-9); close("position_of_mass1", B.body1.position_y, 1e-9, 1); close("position_of_mass2", B.body2.position_x, 1e-9); close("position_of_mass2", B.body2.position_y, 1e-9, 1);
    for (auto& k : o.kv) { auto& ds = c.at("run_config/" + k.first); if (k.first == "reconstruct_method") { expect_eq("recorded reconstruct_method", std::string(ds.bytes.c_str()).substr(0, 3), k.second); continue; } double v; if (ds.tsize == 4) { int q; std::memcpy(&q, ds.bytes.data(), 4); v = q; } else std::memcpy(&v, ds.bytes.data(), 8); if (v != std::stod(k.second)) fail("recorded setting " + k.first + " is " + show(v) + ", given " + k.second); }
});
LAW("a single body (separation zero) is an ordinary point mass", 80, "several refinement levels", [] (src& s)
{
    auto o = draw_options(s, 3, 5); o.set("separation", 0.0); o.set("eccentricity", 0.0); o.set("begin_live_binary", 1e6); run r(o); auto t = begin(r); perturb(s, r.st, t, s.pick({0.0, 0.1}), s.coin()); t.time = s.real(0, 5); classify(s, r.st); s.nontrivial(levels(r.st)); compare_step(s, r, t);
});
LAW("settings the program cannot honour are refused", 40, "always", [] (src& s)
{
    auto o = draw_options(s, 1, 4); scratch dir; s.nontrivial();
    switch (s.integer(0, 2)) { case 0: o.set("threaded", -int(s.integer(0, 3))); break; case 1: o.set("reconstruct_method", s.pick(std::vector<std::string>{"ppm", "PLM", "plm2", "x", ""})); break; case 2: o.set("rk_order", s.pick(std::vector<int>{0, 3, 4, -1})); break; }
    auto r = run_mara(o.args(), dir.path); if (r.timed_out) fail("mara does not finish"); if (r.code == 0) fail("the program accepts" + o.str()); if (! files(dir / "data", "chkpt.0001").empty()) fail("a step was taken");
});
PBT_MAIN
