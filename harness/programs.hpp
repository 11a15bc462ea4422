// The simulation programs as black boxes: generated settings, what they write and where.
#pragma once
#include "binary_ref.hpp"
namespace prog {
using namespace pbt; using namespace cli;
struct program
{
    std::string name; bool outdir, diagnostics, series; double unit;   // unit: of tfinal and the intervals, in terms of the recorded time
    bref::options o;
    std::vector<std::string> args(const std::map<std::string, std::string>& with) const { std::vector<std::string> a{name}; auto kv = o.kv; for (auto& x : with) kv[x.first] = x.second; for (auto& x : kv) a.push_back(x.first + "=" + x.second); return a; }
};
inline program binary(src& s, int depth=2, int block=5)
{
    program p{"binary", true, true, false, 2 * M_PI, bref::gen_options(s, depth, block)}; p.o.set("cfl_number", s.real(0.05, 0.4));
    bref::stepper st(p.o); if (st.m.tie) discard(); st.m.each([&] (blk b, long i, long j, int) { if (! (st.d.vp2(std::hypot(st.m.xc(b.l, i), st.m.xc(b.l, j))) > 1e-3)) discard(); }); return p;
}
inline program sedov(src& s)
{
    program p{"sedov", true, true, true, 1, {}}; auto& o = p.o;
    o.set("nr", int(s.integer(6, 40))); o.set("outer_radius", s.logreal(10, 200)); o.set("explosion_pressure", s.logreal(1e-3, 100)); o.set("explosion_density", s.logreal(0.1, 10)); o.set("density_index", s.coin() ? 0.0 : s.real(0, 2.5)); o.set("newtonian", s.coin() ? 1 : 0); return p;
}
inline program cloud(src& s)
{
    program p{"cloud", true, true, false, 1, {}}; auto& o = p.o;
    o.set("nr", int(s.integer(3, 10))); o.set("num_decades", s.real(0.7, 2)); o.set("inner_radius", s.logreal(1e8, 1e9)); o.set("cloud_cutoff", s.logreal(5e9, 1e11)); o.set("cloud_mass", s.logreal(1e-3, 1e-1)); o.set("density_index", s.real(1, 2.5)); o.set("density_index2", s.real(4, 7));
    o.set("jet_delay_time", s.real(0.5, 2)); o.set("jet_total_energy", s.logreal(1e48, 1e51)); o.set("jet_duration", s.logreal(0.1, 3)); o.set("jet_gamma_beta", s.real(1, 20)); o.set("jet_opening_angle", s.real(0.05, 0.6)); o.set("jet_structure_exp", s.real(1, 4)); o.set("cfl_number", s.real(0.1, 0.4)); o.set("rk_order", int(s.integer(1, 2))); o.set("reconstruct_method", int(s.integer(1, 2))); o.set("plm_theta", s.real(1, 2)); o.set("temperature_floor", s.coin() ? 1e-8 : s.logreal(1e-9, 1e-5)); return p;
}
inline program boilerplate(src& s) { program p{"boilerplate", false, false, false, 1, {}}; p.o.set("N", int(s.integer(1, 40))); return p; }
inline program any(src& s) { switch (s.integer(0, 7)) { case 0: case 1: case 2: return binary(s); case 3: case 4: return sedov(s); case 5: case 6: return cloud(s); default: return boilerplate(s); } }

// run in dir; outputs are in dir/sub (for a program without outdir, dir/sub is also where it runs)
inline result run(const program& p, const std::string& dir, const std::string& sub, std::map<std::string, std::string> with)
{
    if (p.outdir) { with["outdir"] = sub; return run_mara(p.args(with), dir); } mkdir((dir + "/" + sub).c_str(), 0755); return run_mara(p.args(with), dir + "/" + sub);
}
inline result resume(const program& p, const std::string& dir, const std::string& sub, const std::string& from, std::map<std::string, std::string> with)
{
    std::vector<std::string> a{p.name, "restart=" + from}; if (p.outdir) with["outdir"] = sub; else mkdir((dir + "/" + sub).c_str(), 0755); for (auto& x : with) a.push_back(x.first + "=" + x.second); return run_mara(a, p.outdir ? dir : dir + "/" + sub);
}
inline void ok(const result& r) { if (r.timed_out) fail("mara does not finish"); if (r.code) fail("mara exits with code " + std::to_string(r.code) + ": " + tail(r.out)); }
// the settings that a restarted run has differently
inline std::set<std::string> places(const program& p) { std::set<std::string> r; for (auto k : {"restart", "outdir", "tfinal"}) for (auto g : {"config/", "run_config/"}) r.insert(std::string(g) + k); return r; }
inline int iteration(const std::string& file) { return read_h5(file).ints("solution/iteration").at(0); }
// the first time step, in the program's unit, from a run of one step
inline double first_step(const program& p, const std::string& dir, bool any=false) { auto r = run(p, dir, "first", {{"tfinal", "0"}, {"cpi", "0"}}); if (r.timed_out) fail("mara does not finish"); if (r.code) discard(); auto dt = read_h5(dir + "/first/chkpt.0001.h5").real("solution/time"); if (any && ! (dt > 0)) discard(); if (! (dt > 0)) fail("the first time step is " + show(dt)); return dt / p.unit; }
inline std::string index_of(const std::string& f) { auto a = f.find('.'); return f.substr(a + 1, f.rfind('.') - a - 1); }
}
