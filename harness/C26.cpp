// C26: the blast wave, jet and advection programs, step by step, against plain-loop references
#include "programs.hpp"
#include "hydro_ref.hpp"
#include "model_atmosphere.hpp"
#include "model_jet_nozzle.hpp"
using namespace pbt; using namespace cli; using namespace prog; using namespace href;
static std::vector<A5> fives(const std::vector<double>& v) { std::vector<A5> r(v.size() / 5); for (std::size_t i = 0; i < r.size(); ++i) for (int k = 0; k < 5; ++k) r[i][k] = v[5 * i + k]; return r; }
static std::string packed(const std::vector<A5>& u) { std::vector<double> v; for (auto& x : u) for (auto c : x) v.push_back(double(c)); return pack(v); }
static bool near_l(L a, L b, L tol) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol; }
static void expect_cells(const std::string& what, const std::vector<A5>& got, const cells& want, L rel)
{
    expect_eq("number of cells", got.size(), want.u.size()); for (std::size_t i = 0; i < got.size(); ++i) for (int k = 0; k < 5; ++k) if (! near_l(got[i][k], want.u[i][k], rel * want.scale[i][k])) fail(what + ": component " + show(k) + " of cell " + show(i) + " is " + num(double(got[i][k])) + ", want " + num(double(want.u[i][k])));
}
static void expect_all(const std::string& what, const std::vector<double>& got, const std::vector<L>& want, L rel, L abs=0) { expect_eq("size of " + what, got.size(), want.size()); for (std::size_t i = 0; i < got.size(); ++i) if (! near_l(got[i], want[i], rel * std::fabs(want[i]) + abs)) fail(what + "[" + show(i) + "] is " + num(got[i]) + ", want " + num(double(want[i]))); }
struct noise { rng_t g; double next() { double x = 0; for (int i = 0; i < 6; ++i) x += double(g.next() >> 11) / 9007199254740992.0; return (x - 3) * 1.414; } };

// where things are along a radial profile; sure is false when rounding could decide
struct shock { std::size_t at = 0, behind = 0, ahead = 0; bool sure = true; };
static std::size_t behind(const std::vector<L>& y, std::size_t i, bool& sure) { while (true) { if (i == 0) return 0; if (std::fabs(y[i - 1] - y[i]) < 1e-7L * (std::fabs(y[i]) + std::fabs(y[i - 1]))) sure = false; if (! (y[i - 1] > y[i])) return i; --i; } }
static shock locate(const std::vector<gas>& w, L g)
{
    shock r; auto n = w.size(); std::vector<L> s, p; for (auto& x : w) { s.push_back(std::log(x.p / std::pow(x.d, g))); p.push_back(x.p); } std::vector<L> ds; for (std::size_t i = 0; i + 1 < n; ++i) ds.push_back(s[i + 1] - s[i]);
    r.at = std::min_element(ds.begin(), ds.end()) - ds.begin(); for (std::size_t i = 0; i < ds.size(); ++i) if (i != r.at && ds[i] < ds[r.at] + 1e-6L) r.sure = false; r.behind = behind(p, r.at, r.sure);
    // the first zone, going outward, where the logarithmic drop is at most half that of the zone before
    auto dl = [&] (std::size_t i) { return std::log(p[i + 1]) - std::log(p[i]); }; auto i = r.at; while (true) { if (i < 2 || i > n - 1) { r.ahead = 0; break; } if (std::fabs(dl(i - 1) - dl(i - 2) / 2) < 1e-6L) r.sure = false; if (! (dl(i - 1) < dl(i - 2) / 2)) { r.ahead = i; break; } ++i; }
    return r;
}
//----------------------------------------------------------------------------- sedov
static L entropy_of(const gas& w, L g) { return std::log(w.p / std::pow(w.d, g)); }
template<class Sys> static std::vector<gas> prims(const Sys& y, const std::vector<double>& v, const std::vector<A5>& u) { std::vector<gas> w; bool ok = true; for (std::size_t i = 0; i < u.size(); ++i) { L a = v[i], b = v[i + 1]; w.push_back(y.recover(u[i] * (3 / (b * b * b - a * a * a)), 0, ok)); } if (! ok) discard(); return w; }
template<class Sys> static void sedov_diagnostics(const Sys& y, const h5dump& c, const h5dump& d, const h5dump& ts, bool newtonian)
{
    auto v = c.doubles("solution/vertices"); auto u = fives(c.doubles("solution/conserved")); auto w = prims(y, v, u); auto n = u.size(); std::vector<L> rc, rho, p, s, gb; for (std::size_t i = 0; i < n; ++i) { rc.push_back((L(v[i]) + v[i + 1]) / 2); rho.push_back(w[i].d); p.push_back(w[i].p); s.push_back(entropy_of(w[i], y.g)); gb.push_back(w[i].u1); }
    // the pressure of a cold flow is the difference of nearly equal numbers
    std::vector<L> tp, tl; L umax = 0; for (std::size_t i = 0; i < n; ++i) { L a = v[i], b = v[i + 1]; auto U = u[i] * (3 / (b * b * b - a * a * a)); tp.push_back(1e-12L * (std::fabs(U[0]) + std::fabs(U[1]) + std::fabs(U[4]) * (1 + w[i].u1 * w[i].u1))); tl.push_back(10 * tp[i] / w[i].p); umax = std::max(umax, std::fabs(w[i].u1)); }
    auto each = [&] (const std::string& name, const std::vector<L>& want, auto tol) { auto g = d.doubles(name); expect_eq("size of " + name, g.size(), n); for (std::size_t i = 0; i < n; ++i) if (! near_l(g[i], want[i], tol(i))) fail(name + "[" + show(i) + "] is " + num(g[i]) + ", want " + num(double(want[i]))); };
    each("radial_coordinates", rc, [&] (auto i) { return 1e-14L * rc[i]; }); each("mass_density", rho, [&] (auto i) { return 1e-9L * rho[i] * (1 + gb[i] * gb[i]); }); each("gas_pressure", p, [&] (auto i) { return 1e-9L * p[i] + 10 * tp[i]; }); each("specific_entropy", s, [&] (auto i) { return 1e-9L * (1 + std::fabs(s[i])) + tl[i]; }); each("radial_gamma_beta", gb, [&] (auto i) { return 1e-9L * (std::fabs(gb[i]) * (1 + gb[i] * gb[i]) + 1e-3L * umax) + (newtonian ? 0 : 1e-11L); });
    L worst = 0; for (auto t : tl) worst = std::max(worst, t); auto k = locate(w, y.g); bool sure = k.sure && worst < 1e-7L; auto row = ts.doubles("time").size() - 1;
    for (auto nm : {"time", "shock_radius", "shock_radius_upstream", "shock_radius_downstream", "shock_radius_interpolated", "shock_velocity"}) { double a = d.real(nm), b = ts.doubles(nm).at(row); if (std::memcmp(&a, &b, 8)) fail(std::string("time series and diagnostics have a different ") + nm); }
    expect_eq("time", d.real("time"), c.real("solution/time")); if (! sure) return;
    auto want = [&] (const std::string& nm, L x, L tol) { if (! near_l(d.real(nm), x, tol)) fail(nm + " is " + num(d.real(nm)) + ", want " + num(double(x))); };
    want("shock_radius", v[k.at], 1e-14L * v[k.at]); want("shock_radius_upstream", rc[k.ahead], 1e-14L * rc[k.ahead]); want("shock_radius_downstream", rc[k.behind], 1e-14L * rc[k.behind]);
    if (k.ahead != k.behind) { auto &a = w[k.ahead], &b = w[k.behind]; L Wa = newtonian ? 1 : std::sqrt(1 + a.u1 * a.u1), Wb = newtonian ? 1 : std::sqrt(1 + b.u1 * b.u1); L num = b.d * b.u1 - a.d * a.u1, den = b.d * Wb - a.d * Wa; if (std::fabs(den) > 1e-3L * (a.d * Wa + b.d * Wb)) want("shock_velocity", num / den, 1e-6L * (std::fabs(num / den) + (b.d * std::fabs(b.u1) + a.d * std::fabs(a.u1)) / std::fabs(den))); }
    if (k.behind == 0) want("shock_radius_interpolated", rc[0], 1e-14L * rc[0]);
    else { auto i = k.behind; L x0 = rc[i - 1], x1 = rc[i], x2 = rc[i + 1], y0 = gb[i - 1], y1 = gb[i], y2 = gb[i + 1]; L s1 = (y1 - y0) / (x1 - x0), s2 = (y2 - y1) / (x2 - x1), curv = (s2 - s1) / (x2 - x0); if (std::fabs(curv) * (x2 - x0) > 1e-2L * (std::fabs(s1) + std::fabs(s2)) && std::fabs(y0) + std::fabs(y1) + std::fabs(y2) > 1e-2L) { auto xv = (x0 + x1) / 2 - s1 / (2 * curv); want("shock_radius_interpolated", xv, 1e-6L * (std::fabs(xv) + x2)); } }
}
template<class Sys> static void sedov_law(src& s, const Sys& y, bool newtonian)
{
    program p = sedov(s); p.o.set("newtonian", newtonian ? 1 : 0); scratch dir; s.note("options", p.o.str()); auto r = run(p, dir.path, "out", {{"tfinal", "0"}, {"cpi", "0"}, {"dfi", "0"}, {"tsi", "0"}}); if (r.timed_out) fail("mara does not finish"); if (r.code && files(dir / "out", "chkpt").empty()) fail("mara exits with code " + std::to_string(r.code) + ": " + tail(r.out));
    auto c = read_h5(dir / "out/chkpt.0000.h5"); auto v = c.doubles("solution/vertices"); auto R = p.o.r("outer_radius"); auto nr = p.o.i("nr"); auto n = int(std::log10(R) * nr);
    // the run starts from the documented blast
    expect_eq("number of radial vertices", int(v.size()), n + 1); for (int i = 0; i <= n; ++i) expect_close("vertex", v[i], std::pow(10.0, -0.5 + (std::log10(R) + 0.5) * i / n), 1e-12, 0); expect_eq("initial time", c.real("solution/time"), 0.0); auto u = fives(c.doubles("solution/conserved")); expect_eq("number of cells", int(u.size()), n);
    for (int i = 0; i < n; ++i) { L a = v[i], b = v[i + 1], rc = (a + b) / 2; if (std::fabs(rc - 1) < 1e-9L) continue; gas w; L amb = std::pow(rc, -L(p.o.r("density_index"))); w.d = rc < 1 ? L(p.o.r("explosion_density")) : amb; w.p = rc < 1 ? L(p.o.r("explosion_pressure")) : amb * 1e-6L; auto U = y.U(w) * ((b * b * b - a * a * a) / 3); for (int k = 0; k < 5; ++k) if (! near_l(u[i][k], U[k], 1e-12L * (std::fabs(U[k]) + U[0]))) fail("initially component " + show(k) + " of cell " + show(i) + " is " + num(double(u[i][k])) + ", want " + num(double(U[k]))); }
    // one step from a state with any profile, moving both ways
    auto amp = s.pick({0.0, 0.1, 0.5, 1.0}); auto umax = newtonian ? s.logreal(0.01, 3) : s.logreal(0.01, 8); noise z{{s.draw(1ull << 40) + 1}}; auto T = s.logreal(1e-2, 10); auto t0 = s.coin() ? 0.0 : s.real(0, 50); s.note("amplitude", amp); s.nontrivial(amp > 0); s.cls(newtonian ? "newtonian" : "relativistic");
    auto in = dir / "in.h5"; copy_file(dir / "out/chkpt.0000.h5", in); if (amp > 0) { for (int i = 0; i < n; ++i) { gas w; w.d = std::exp(amp * z.next()) * std::pow(v[i], -p.o.r("density_index")); w.p = w.d * T * std::exp(amp * z.next()); w.u1 = umax * amp * std::tanh(z.next()); L a = v[i], b = v[i + 1]; u[i] = y.U(w) * ((b * b * b - a * a * a) / 3); for (auto& q : u[i]) q = double(q); } }
    write_h5(in, {{"solution/conserved", packed(u)}, {"solution/time", pack({t0})}}); cells want = sedov_step(y, v, u, 0.4L * (L(v[1]) - v[0])); if (! want.ok) discard(); { bool fine = true; for (int i = 0; i < n; ++i) { L a = v[i], b = v[i + 1]; y.recover(want.u[i] * (3 / (b * b * b - a * a * a)), 0, fine); } if (! fine) discard(); }
    auto res = resume(p, dir.path, "out", "in.h5", {{"tfinal", "0"}}); if (res.timed_out) fail("mara does not finish"); if (res.code) fail("mara exits with code " + std::to_string(res.code) + ": " + tail(res.out)); auto c1 = read_h5(dir / "out/chkpt.0001.h5"); expect_close("time after the step", c1.real("solution/time"), t0 + 0.4 * (v[1] - v[0]), 1e-13, 0); expect_eq("iteration", c1.ints("solution/iteration")[0], 1); expect_eq("vertices", c1.doubles("solution/vertices"), v);
    expect_cells("step", fives(c1.doubles("solution/conserved")), want, 1e-8L); sedov_diagnostics(y, c1, read_h5(dir / "out/diagnostics.0001.h5"), read_h5(dir / "out/time_series.h5"), newtonian);
}
LAW("sedov: relativistic start, step and diagnostics", 130, "a state with noise in all variables", [] (src& s) { sedov_law(s, srhd{4.0L / 3}, false); });
LAW("sedov: newtonian start, step and diagnostics", 130, "a state with noise in all variables", [] (src& s) { sedov_law(s, href::euler{4.0L / 3}, true); });
LAW("sedov: mass and energy stay in the blast", 60, "ten or more steps", [] (src& s)
{
    // the time step is that of waves at the speed of light
    auto p = sedov(s); bool newt = p.o.i("newtonian"); if (newt) p.o.set("explosion_pressure", std::min(p.o.r("explosion_pressure"), 0.3 * std::min(1.0, p.o.r("explosion_density")))); scratch dir; auto dt = first_step(p, dir.path); auto steps = s.integer(1, 60); s.note("options", p.o.str()); s.note("steps", steps); s.nontrivial(steps >= 10); auto r = run(p, dir.path, "out", {{"tfinal", num(dt * (steps - 0.5))}, {"cpi", num(dt * 7)}, {"dfi", "1e9"}, {"tsi", "1e9"}}); if (r.timed_out) fail("mara does not finish"); if (r.code) discard();
    std::vector<A5> tot; for (auto& f : files(dir / "out", "chkpt")) { auto c = read_h5(dir / "out/" + f); auto u = fives(c.doubles("solution/conserved")); if (u.back()[1] != 0 || u[u.size() - 2][1] != 0) { L m = std::fabs(u.back()[1]) / u.back()[0]; if (m > 1e-13L) break; } A5 t{}; for (auto& x : u) t = t + x; if (newt && ! (std::fabs(t[0]) + std::fabs(t[4]) < 1e300L)) discard(); tot.push_back(t); for (int k : {0, 4}) if (! near_l(t[k], tot[0][k], 1e-12L * (std::fabs(tot[0][k]) + (k == 4 ? 0 : 0)))) fail(std::string(k ? "energy" : "mass") + " goes from " + num(double(tot[0][k])) + " to " + num(double(t[k])) + " in " + f); }
});
//----------------------------------------------------------------------------- cloud
struct cloud_ref
{
    const bref::options& o; std::vector<double> r, q; srhd y{4.0L / 3}; std::size_t nr, nq;
    cloud_ref(const bref::options& o, std::vector<double> r, std::vector<double> q) : o(o), r(r), q(q), nr(r.size() - 1), nq(q.size() - 1) {}
    L mu(std::size_t j) const { return std::cos(L(q[j])) - std::cos(L(q[j + 1])); }
    L vol(std::size_t i, std::size_t j) const { L a = r[i], b = r[i + 1]; return (b * b * b - a * a * a) * mu(j) * 2 * M_PIl / 3; }
    L Ar(std::size_t i, std::size_t j) const { return L(r[i]) * r[i] * mu(j) * 2 * M_PIl; }
    L Aq(std::size_t i, std::size_t j) const { L a = r[i], b = r[i + 1]; return (a + b) / 2 * (b - a) * std::sin(L(q[j])) * 2 * M_PIl; }
    L rc(std::size_t i) const { return (L(r[i]) + r[i + 1]) / 2; }
    L qc(std::size_t j) const { return (L(q[j]) + q[j + 1]) / 2; }
    L length() const { return o.r("inner_radius"); } L mass() const { return o.r("cloud_mass") * 1.989e33L; } L time() const { return length() / 2.998e10L; } L density() const { return mass() / std::pow(length(), 3); }
    gas nozzle(std::size_t j, L t) const { L G = o.r("jet_gamma_beta"), qj = o.r("jet_opening_angle"), as = o.r("jet_structure_exp"), tj = o.r("jet_duration"), E = o.r("jet_total_energy"); auto gb = [&] (L x) { return G * std::exp(-std::pow(x / qj, as) / 2) * std::exp(-t * time() / tj / 2); }; gas w; w.u1 = gb(qc(j)) + gb(M_PIl - qc(j)); w.d = E / (2 * M_PIl * std::pow(G * length() * qj, 2) * tj * std::pow(L(mara::jet_nozzle_model::light_speed_cgs), 3)) / density(); return w; }
    cells advance(const std::vector<A5>& u, L t, L dt) const
    {
        cells out; bool plm = o.i("reconstruct_method") == 2; L th = o.r("plm_theta"), floor = o.r("temperature_floor"); auto at = [&] (std::size_t i, std::size_t j) { return i * nq + j; }; std::vector<gas> w(nr * nq); for (std::size_t i = 0; i < nr; ++i) for (std::size_t j = 0; j < nq; ++j) w[at(i, j)] = y.recover(u[at(i, j)] * (1 / vol(i, j)), floor, out.ok); if (! out.ok) return out;
        std::vector<A5> d(nr * nq), sc(nr * nq);
        // fluxes along a line of cells, with slopes in all but its first and last cell
        auto fluxes = [&] (const std::vector<gas>& line, int ax) { auto n = line.size(); std::vector<gas> g(n); if (plm) for (std::size_t i = 1; i + 1 < n; ++i) for (int k = 0; k < 5; ++k) g[i][k] = minmod(th, line[i - 1][k], line[i][k], line[i + 1][k]); std::vector<A5> f; for (std::size_t i = 0; i + 1 < n; ++i) { gas a, b; for (int k = 0; k < 5; ++k) { a[k] = line[i][k] + g[i][k] / 2; b[k] = line[i + 1][k] - g[i + 1][k] / 2; } f.push_back(hlle(y, a, b, ax)); } return f; };
        auto add = [&] (std::size_t c, const A5& f) { d[c] = d[c] + f; sc[c] = sc[c] + mag(f); };
        for (std::size_t j = 0; j < nq; ++j) { std::vector<gas> line{nozzle(j, t)}; for (std::size_t i = 0; i < nr; ++i) line.push_back(w[at(i, j)]); line.push_back(line.back()); auto f = fluxes(line, 0); for (std::size_t i = 0; i < nr; ++i) { add(at(i, j), f[i] * Ar(i, j)); add(at(i, j), f[i + 1] * -Ar(i + 1, j)); } }
        for (std::size_t i = 0; i < nr; ++i) { std::vector<gas> line; for (std::size_t j = 0; j < nq; ++j) line.push_back(w[at(i, j)]); auto f = fluxes(line, 1); for (std::size_t j = 0; j + 1 < nq; ++j) { add(at(i, j), f[j] * -Aq(i, j + 1)); add(at(i, j + 1), f[j] * Aq(i, j + 1)); } }
        for (std::size_t i = 0; i < nr; ++i) for (std::size_t j = 0; j < nq; ++j) { auto c = at(i, j); add(c, y.S(w[c], rc(i), std::tan(M_PIl / 2 - qc(j))) * vol(i, j)); out.u.push_back(u[c] + d[c] * dt); A5 m = mag(u[c]) + sc[c] * dt; L k = m[0] + m[1] + m[2] + m[4]; out.scale.push_back({k, k, k, k, k}); }
        return out;
    }
    cells step(const std::vector<A5>& u, L t, L dt) const { auto a = advance(u, t, dt); if (! a.ok || o.i("rk_order") == 1) return a; auto b = advance(a.u, t, dt); if (! b.ok) return b; for (std::size_t i = 0; i < u.size(); ++i) { b.u[i] = (u[i] + b.u[i]) * 0.5L; b.scale[i] = b.scale[i] + a.scale[i]; } return b; }
};
static void cloud_diagnostics(const cloud_ref& m, const h5dump& c, const h5dump& d)
{
    auto u = fives(c.doubles("solution/conserved")); auto at = [&] (std::size_t i, std::size_t j) { return i * m.nq + j; }; bool ok = true; L floor = m.o.r("temperature_floor"); std::vector<gas> w(u.size()); for (std::size_t i = 0; i < m.nr; ++i) for (std::size_t j = 0; j < m.nq; ++j) w[at(i, j)] = m.y.recover(u[at(i, j)] * (1 / m.vol(i, j)), floor, ok); if (! ok) discard();
    L c2 = 2.998e10L * 2.998e10L, eden = m.density() * c2, power = m.mass() * c2 / m.time(); std::vector<L> tp(u.size()); L fmax = 0, worst = 0; for (std::size_t k = 0; k < u.size(); ++k) { auto U = m.y.U(w[k]); tp[k] = 1e-12L * (U[0] + std::fabs(U[1]) + std::fabs(U[2]) + std::fabs(U[4])) * (1 + srhd::u2(w[k])); worst = std::max(worst, tp[k] / w[k].p); fmax = std::max(fmax, std::fabs(m.y.F(w[k], 0)[4]) + U[0] + std::fabs(U[4])); }
    expect_close("time", d.real("time"), double(c.real("solution/time") * m.time()), 1e-12, 0); { std::vector<L> x; for (auto v : m.r) x.push_back(v * m.length()); expect_all("radial_vertices", d.doubles("radial_vertices"), x, 1e-13L); } expect_eq("polar_vertices", d.doubles("polar_vertices"), m.q);
    auto field = [&] (const std::string& n, auto val, auto tol) { auto g = d.doubles(n); expect_eq("size of " + n, g.size(), u.size()); for (std::size_t i = 0; i < m.nr; ++i) for (std::size_t j = 0; j < m.nq; ++j) { auto x = val(i, j); if (! near_l(g[at(i, j)], x, tol(at(i, j), x))) fail(n + "(" + show(i) + ", " + show(j) + ") is " + num(g[at(i, j)]) + ", want " + num(double(x))); } };
    field("mass_density", [&] (auto i, auto j) { return w[at(i, j)].d * m.density(); }, [&] (auto, L x) { return 1e-9L * x; }); field("gas_pressure", [&] (auto i, auto j) { return w[at(i, j)].p * eden; }, [&] (auto k, L x) { return 1e-8L * x + 10 * tp[k] * eden; }); field("radial_gamma_beta", [&] (auto i, auto j) { return w[at(i, j)].u1; }, [&] (auto k, L) { return 1e-9L * (1 + srhd::u2(w[k])); }); field("specific_entropy", [&] (auto i, auto j) { return entropy_of(w[at(i, j)], m.y.g); }, [&] (auto k, L x) { return 1e-8L * (1 + std::fabs(x)) + 10 * tp[k] / w[k].p; });
    auto flow = [&] (std::size_t i, std::size_t j, L A) { return m.y.F(w[at(i, j)], 0)[4] * A * power; }; field("radial_energy_flow", [&] (auto i, auto j) { return flow(i, j, m.Ar(i, j)); }, [&] (auto k, L x) { return 1e-8L * std::fabs(x) + 10 * tp[k] * m.Ar(k / m.nq, k % m.nq) * power; });
    auto one = [&] (const std::string& n, std::size_t j, L x, L tol) { auto g = d.doubles(n); expect_eq("size of " + n, g.size(), m.nq); if (! near_l(g[j], x, tol)) fail(n + "[" + show(j) + "] is " + num(g[j]) + ", want " + num(double(x))); };
    for (std::size_t j = 0; j < m.nq; ++j)
    {
        one("solid_angle_at_theta", j, m.mu(j) * 2 * M_PIl, 1e-11L); L e = 0, em = 0; for (std::size_t i = 0; i < m.nr; ++i) { e += u[at(i, j)][4]; em += std::fabs(u[at(i, j)][4]); } one("total_energy_at_theta", j, e * m.mass() * c2, 1e-11L * em * m.mass() * c2);
        std::vector<gas> line; std::vector<L> P; L pm = 0; for (std::size_t i = 0; i < m.nr; ++i) { line.push_back(w[at(i, j)]); P.push_back(flow(i, j, (m.Ar(i, j) + m.Ar(i + 1, j)) / 2)); pm = std::max(pm, (std::fabs(m.y.F(line[i], 0)[4]) + 1e3L * tp[at(i, j)]) * m.Ar(i + 1, j) * power); } auto k = locate(line, m.y.g); if (! k.sure || worst > 1e-7L) continue; bool sure = true; auto lum = behind(P, k.at, sure);
        auto rad = [&] (const std::string& n, std::size_t i) { one(n, j, m.rc(i) * m.length(), 1e-12L * m.rc(i) * m.length()); }; rad("shock_midpoint_radius", k.at); rad("shock_upstream_radius", k.ahead); rad("shock_pressure_radius", k.behind); one("postshock_flow_gamma", j, srhd::W(line[k.behind]), 1e-8L * srhd::W(line[k.behind])); one("postshock_flow_power", j, P[k.behind], 1e-7L * pm);
        for (std::size_t back : {2, 4, 8, 16, 32, 64}) { char b[40]; std::snprintf(b, 40, "postshock_flow_power%02d", int(back)); one(b, j, P[k.at > back ? k.at - back : 0], 1e-7L * pm); } if (sure) { rad("shock_luminosity_radius", lum); one("postshock_flow_power_max", j, P[lum], 1e-7L * pm); }
    }
}
LAW("cloud: start, step and diagnostics", 130, "a state with noise in all variables", [] (src& s)
{
    auto p = cloud(s); scratch dir; bool wide = s.chance(1, 8); if (wide) { p.o.set("nr", int(s.integer(34, 40))); p.o.set("num_decades", s.real(1.98, 2.2)); } s.cls("more than 64 radial cells", wide); s.note("options", p.o.str()); auto res = run(p, dir.path, "out", {{"tfinal", "0"}, {"cpi", "0"}, {"dfi", "0"}}); if (res.timed_out) fail("mara does not finish"); if (res.code && files(dir / "out", "chkpt").empty()) fail("mara exits with code " + std::to_string(res.code) + ": " + tail(res.out));
    auto c = read_h5(dir / "out/chkpt.0000.h5"); auto r = c.doubles("solution/radial_vertices"), q = c.doubles("solution/polar_vertices"); auto dec = p.o.r("num_decades"); auto nq = p.o.i("nr"); auto nr = int(dec * nq); expect_eq("radial vertices", int(r.size()), nr + 1); expect_eq("polar vertices", int(q.size()), nq + 1); for (int i = 0; i <= nr; ++i) expect_close("radial vertex", r[i], std::pow(10.0, dec * i / nr), 1e-12, 0); for (int j = 0; j <= nq; ++j) expect_close("polar vertex", q[j], M_PI * j / nq, 1e-12, 1e-15);
    cloud_ref m(p.o, r, q); auto u = fives(c.doubles("solution/conserved")); expect_eq("number of cells", u.size(), std::size_t(nr) * nq); expect_eq("initial time", c.real("solution/time"), 0.0); auto model = mara::cloud_and_envelop_model().with_inner_radius(p.o.r("inner_radius")).with_cloud_index(p.o.r("density_index"));
    for (int i = 0; i < nr; ++i) { auto x = double(m.rc(i) * m.length()), t = p.o.r("jet_delay_time"); gas w; w.d = model.density_at(x, t) / m.density(); w.p = w.d * 1e-6L; w.u1 = model.gamma_beta_at(x, t); if (std::fabs(x / model.cloud_outer_boundary(t) - 1) < 1e-9) continue; for (int j = 0; j < nq; ++j) { auto U = m.y.U(w) * m.vol(i, j); L sc = U[0] + std::fabs(U[1]) + std::fabs(U[4]); for (int k = 0; k < 5; ++k) if (! near_l(u[i * nq + j][k], U[k], 1e-9L * sc)) fail("initially component " + show(k) + " of cell (" + show(i) + ", " + show(j) + ") is " + num(double(u[i * nq + j][k])) + ", want " + num(double(U[k]))); } }
    auto amp = s.pick({0.0, 0.1, 0.5, 1.0}); auto umax = s.logreal(0.01, 8), T = s.logreal(1e-2, 10), swirl = s.coin() ? 0.0 : 0.3; noise z{{s.draw(1ull << 40) + 1}}; auto t0 = s.coin() ? 0.0 : s.real(0, 50); s.note("amplitude", amp); s.nontrivial(amp > 0); s.cls("rk" + p.o.kv["rk_order"]); s.cls(p.o.kv["reconstruct_method"] == "2" ? "plm" : "pcm"); s.cls("swirling", swirl > 0 && amp > 0);
    int front = nr < 3 || s.coin() ? -1 : int(wide && nr > 65 ? s.integer(62, nr - 2) : s.integer(0, nr - 2)); s.cls("a front", front >= 0 && amp > 0); auto in = dir / "in.h5"; copy_file(dir / "out/chkpt.0000.h5", in); if (amp > 0) for (int i = 0; i < nr; ++i) for (int j = 0; j < nq; ++j) { gas w; w.d = std::exp(amp * z.next()) * std::pow(r[i], -p.o.r("density_index")); w.p = w.d * T * std::exp(amp * z.next()) * (i <= front ? 30.0 : 1.0); w.u1 = umax * amp * std::tanh(z.next()); w.u2 = umax * amp * std::tanh(z.next()) / 2; w.u3 = swirl * umax * amp * std::tanh(z.next()); auto& x = u[i * nq + j]; x = m.y.U(w) * m.vol(i, j); for (auto& k : x) k = double(k); }
    write_h5(in, {{"solution/conserved", packed(u)}, {"solution/time", pack({t0})}}); L dt = L(p.o.r("cfl_number")) * (L(r[1]) - r[0]); auto want = m.step(u, t0, dt); if (! want.ok) discard(); { bool fine = true; for (int i = 0; i < nr; ++i) for (int j = 0; j < nq; ++j) m.y.recover(want.u[i * nq + j] * (1 / m.vol(i, j)), p.o.r("temperature_floor"), fine); if (! fine) discard(); }
    auto rr = resume(p, dir.path, "out", "in.h5", {{"tfinal", "0"}}); if (rr.timed_out) fail("mara does not finish"); if (rr.code && rr.out.find("recover_primitive failure") != std::string::npos) for (auto& x : want.u) { L S = std::sqrt(x[1] * x[1] + x[2] * x[2] + x[3] * x[3]), E = x[0] + x[4]; if (E - S < 0.05L * E) discard(); } if (rr.code) fail("mara exits with code " + std::to_string(rr.code) + ": " + tail(rr.out)); auto c1 = read_h5(dir / "out/chkpt.0001.h5"); expect_close("time after the step", c1.real("solution/time"), double(t0 + dt), 1e-13, 0); { auto it = c1.ints("solution/iteration"); expect_eq("iteration", it[0], it.size() > 1 ? it[1] : 1); }
    expect_eq("radial vertices after the step", c1.doubles("solution/radial_vertices"), r); expect_eq("polar vertices after the step", c1.doubles("solution/polar_vertices"), q); expect_cells("step", fives(c1.doubles("solution/conserved")), want, 1e-8L); cloud_diagnostics(m, c1, read_h5(dir / "out/diagnostics.0001.h5"));
});
LAW("cloud: settings the program cannot honour are refused", 20, "always", [] (src& s)
{
    auto p = cloud(s); scratch dir; s.nontrivial(); if (s.coin()) p.o.set("rk_order", s.pick(std::vector<int>{0, 3, -1, 4})); else p.o.set("reconstruct_method", s.pick(std::vector<int>{0, 3, -1})); auto r = run(p, dir.path, "out", {{"tfinal", "0"}, {"cpi", "0"}}); if (r.timed_out) fail("mara does not finish"); if (r.code == 0) fail("the program accepts" + p.o.str()); if (! files(dir / "out", "chkpt.0001").empty()) fail("a step was taken");
});
//----------------------------------------------------------------------------- advection programs
LAW("boilerplate: upwind steps of a sine wave on a ring", 50, "several steps", [] (src& s)
{
    auto p = boilerplate(s); scratch dir; auto N = p.o.i("N"); auto steps = s.integer(0, 12); s.note("N", N); s.note("steps", steps); s.nontrivial(steps > 1 && N > 2); double dt = 0.25 / (N + 1); ok(run(p, dir.path, "out", {{"tfinal", num(dt * (steps - 0.5))}, {"cpi", "0"}})); auto fs = files(dir / "out", "chkpt"); expect_eq("number of states", fs.size(), std::size_t(steps) + 2); std::vector<double> u;
    for (std::size_t k = 0; k < fs.size(); ++k) { auto c = read_h5(dir / "out/" + fs[k]); auto x = c.doubles("solution/vertices"), v = c.doubles("solution/solution"); expect_eq("vertices", int(x.size()), N + 1); for (int i = 0; i <= N; ++i) expect_close("vertex", x[i], double(i) / N, 1e-13, 1e-15); std::vector<L> w(N); if (k == 0) for (int i = 0; i < N; ++i) w[i] = std::sin(2 * M_PIl * (i + 0.5L) / N); else for (int i = 0; i < N; ++i) w[i] = u[i] - L(dt) * N * (L(u[i]) - u[(i + N - 1) % N]); expect_all("state " + show(k), v, w, 1e-12L, 1e-13L); expect_close("time", c.real("solution/time"), dt * k, 1e-12, 0); expect_eq("iteration", c.integer("solution/iteration"), int(k)); u = v; }
});
LAW("amrsand: upwind steps of a bump on a refined mesh", 70, "several refinement levels", [] (src& s)
{
    program p{"amrsand", true, true, false, 1, {}}; auto depth = int(s.integer(0, 4)), n = int(depth == 4 ? s.integer(1, 2) : s.integer(1, 4)) * 2; p.o.set("depth", depth); p.o.set("block_size", n); scratch dir; auto steps = s.integer(0, 5); s.note("options", p.o.str()); s.note("steps", steps);
    bref::options mo; mo.set("block_size", n); mo.set("domain_radius", 1.0); mo.set("depth", depth); mo.set("focus_factor", 1.0); mo.set("focus_index", 1.0); bref::mesh m(mo); if (m.tie) discard(); s.nontrivial(m.leaves.begin()->l != m.top()); s.cls("several levels", m.leaves.begin()->l != m.top()); double dt = 2.0 / (n + 1) / (1 << m.top());
    ok(run(p, dir.path, "out", {{"tfinal", num(dt * (steps - 0.5))}, {"dfi", "0"}})); auto fs = files(dir / "out", "diagnostics"); expect_eq("number of states", fs.size(), std::size_t(steps) + 2); bref::field u;
    for (std::size_t k = 0; k < fs.size(); ++k)
    {
        auto d = read_h5(dir / "out/" + fs[k]); expect_close("time", d.real("time"), dt * k, 1e-12, 0); auto bc = bref::blocks_of(d, "conserved"), bv = bref::blocks_of(d, "vertices"); bref::expect_leaves("conserved", bc, m.leaves); bref::expect_leaves("vertices", bv, m.leaves); bref::field v; for (auto& b : bc) { auto x = d.doubles(b.second); if (int(x.size()) != n * n) fail("block of the wrong size"); for (auto y : x) v[b.first].push_back({y, 0, 0}); }
        for (auto& b : bv) { auto x = d.doubles(b.second); if (int(x.size()) != 2 * (n + 1) * (n + 1)) fail("vertex block of the wrong size"); for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) if (! near_l(x[2 * (i * (n + 1) + j)], m.xf(b.first.l, b.first.i * n + i), 1e-13L) || ! near_l(x[2 * (i * (n + 1) + j) + 1], m.xf(b.first.l, b.first.j * n + j), 1e-13L)) fail("vertex out of place in block " + show(b.first)); }
        m.each([&] (blk b, long i, long j, int q) { auto x = m.xc(b.l, i), y = m.xc(b.l, j); double w = k == 0 ? std::exp(-(x * x + y * y) / 0.025) : u[b][q][0] - 0.5 * dt / m.h(b.l) * (2 * u[b][q][0] - m.at(u, b.l, i - 1, j)[0] - m.at(u, b.l, i, j - 1)[0]); if (! near_l(v[b][q][0], w, 1e-12L)) fail("state " + show(k) + " at (" + show(x) + ", " + show(y) + ") is " + num(v[b][q][0]) + ", want " + num(w)); }); u = v;
    }
});
LAW("partdom: the first block is written to its place in the file", 60, "several blocks", [] (src& s)
{
    auto procs = int(s.integer(1, 12)), N = int(s.integer(1, 8)); scratch dir; s.note("procs", procs); s.note("N", N); auto r = run_mara({"partdom", opt("procs", procs), opt("N", N)}, dir.path); if (r.timed_out) fail("mara does not finish"); if (r.code) { int big = 1; for (int f = 2, q = procs; q > 1; ++f) while (q % f == 0) { q /= f; big = std::max(big, f); } if (procs <= N) fail("refuses " + show(procs) + " blocks of " + show(N) + "^3 zones: " + tail(r.out)); discard(); }
    s.nontrivial(procs > 1); auto d = read_h5(dir / "test.h5"); auto v = d.doubles("data"); expect_eq("size of the file", int(v.size()), N * N * N); int a[3] = {0, 0, 0}; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k) if (v[(i * N + j) * N + k] != 0) { a[0] = std::max(a[0], i + 1); a[1] = std::max(a[1], j + 1); a[2] = std::max(a[2], k + 1); } for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k) { auto w = i < a[0] && j < a[1] && k < a[2] ? i + 0.5 : 0.0; if (v[(i * N + j) * N + k] != w) fail("zone (" + show(i) + ", " + show(j) + ", " + show(k) + ") is " + show(v[(i * N + j) * N + k]) + ", want " + show(w)); }
    bool fits = false; for (int x = 1; x <= procs; ++x) for (int y = 1; y <= procs; ++y) if (procs % (x * y) == 0) { int z = procs / x / y; auto in = [&] (int n, int b) { return n >= N / b && n <= (N + b - 1) / b; }; if (in(a[0], x) && in(a[1], y) && in(a[2], z)) fits = true; } if (! fits) fail("the first block has " + show(a[0]) + " x " + show(a[1]) + " x " + show(a[2]) + " zones");
});
PBT_MAIN
