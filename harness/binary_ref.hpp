// An independent reference of the binary disk program: plain loops over cells addressed by (level, i, j), no trees.
#pragma once
#include "cli.hpp"
#include "mesh_model.hpp"
#include "model_two_body.hpp"
namespace bref {
using namespace pbt; using namespace cli;
using V3 = std::array<double, 3>;
inline V3 operator+(V3 a, const V3& b) { for (int k = 0; k < 3; ++k) a[k] += b[k]; return a; }
inline V3 operator-(V3 a, const V3& b) { for (int k = 0; k < 3; ++k) a[k] -= b[k]; return a; }
inline V3 operator*(V3 a, double x) { for (auto& v : a) v *= x; return a; }
inline V3 mag(V3 a) { for (auto& v : a) v = std::fabs(v); return a; }

struct options
{
    std::map<std::string, std::string> kv;
    double r(const std::string& k) const { return std::stod(kv.at(k)); }
    int i(const std::string& k) const { return std::stoi(kv.at(k)); }
    bool is(const std::string& k) const { return i(k) != 0; }
    void set(const std::string& k, double x) { kv[k] = num(x); }
    void set(const std::string& k, int x) { kv[k] = std::to_string(x); }
    void set(const std::string& k, const std::string& x) { kv[k] = x; }
    std::vector<std::string> args() const { std::vector<std::string> a{"binary"}; for (auto& x : kv) a.push_back(x.first + "=" + x.second); return a; }
    std::string str() const { std::string t; for (auto& x : kv) t += " " + x.first + "=" + x.second; return t; }
};
// every option of the program with a generated value (outputs at every step)
inline options gen_options(src& s, int max_depth=3, int max_block=6)
{
    options o; auto some = [&] (int num, int den) { return s.chance(num, den); };
    o.set("cpi", 0.0); o.set("dfi", 0.0); o.set("tsi", 0.0); o.set("tfinal", 0.0);
    int depth = int(s.integer(0, max_depth)), n = int(s.integer(2, max_block)); if (depth == 0) n += n & 1;
    o.set("depth", depth); o.set("block_size", n);
    auto f = s.real(0.3, 2.5), p = s.real(0.3, 2.5);
    // blocks of the second level lie at radii 0.35, 0.79 and 1.06: refining some of them gives a mesh of several levels
    if (max_depth >= 3 && s.chance(2, 3)) { depth = int(s.integer(3, max_depth)); n = int(s.integer(2, std::min(max_block, 4))); f = s.real(0.75, 2.5); p = std::max(0.05, std::log2(f / s.real(0.36, 1.05))); o.set("depth", depth); o.set("block_size", n); }
    o.set("focus_factor", f); o.set("focus_index", p);
    o.set("domain_radius", s.real(1.5, 12));
    o.set("cfl_number", s.real(0.05, 0.4)); o.set("fixed_dt", some(1, 4) ? 1 : 0);
    o.set("begin_live_binary", s.coin() ? 1e6 : s.coin() ? -1.0 : s.real(0, 3));
    o.set("conserve_linear_p", s.coin() ? 1 : 0); o.set("threaded", int(s.integer(1, 4)));
    o.set("rk_order", int(s.integer(1, 2))); o.set("reconstruct_method", some(1, 4) ? std::string("pcm") : std::string("plm")); o.set("plm_theta", s.real(1, 2));
    o.set("source_term_softening", some(1, 2) ? 1.0 : s.real(0.2, 3));
    o.set("softening_radius", s.real(0.02, 0.3)); o.set("sink_radius", s.real(0.05, 0.6)); o.set("sink_rate", some(1, 5) ? 0.0 : s.logreal(0.1, 20));
    o.set("buffer_damping_rate", some(1, 5) ? 0.0 : s.real(0.1, 20));
    o.set("disk_radius", s.real(0.5, 4)); o.set("disk_mass", s.logreal(1e-4, 1e-1)); o.set("ambient_density", s.logreal(1e-4, 0.5)); o.set("density_floor", some(3, 4) ? 0.0 : s.logreal(1e-5, 2e-2));
    o.set("separation", s.coin() ? 1.0 : s.real(0.3, 2)); o.set("mass_ratio", some(1, 3) ? 1.0 : s.real(0.05, 1)); o.set("eccentricity", s.coin() ? 0.0 : s.real(0.02, 0.8));
    o.set("counter_rotate", some(1, 4) ? 1 : 0); o.set("mach_number", s.real(1.5, 20)); o.set("axisymmetric_cs2", s.coin() ? 1 : 0); o.set("no_accretion_force", some(1, 3) ? 1 : 0);
    o.set("alpha_cutoff_radius", some(2, 3) ? 0.0 : s.real(0.1, 3)); o.set("alpha", some(1, 4) ? 0.0 : s.real(0.01, 0.5)); o.set("nu", some(2, 3) ? 0.0 : s.real(1e-4, 1e-2)); o.set("mdot", some(2, 3) ? 0.0 : s.logreal(1e-6, 1e-3));
    return o;
}
struct disk { double s0, s1, rc, Ma, rs, mdot; bool counter;
    explicit disk(const options& o) : rc(o.r("disk_radius")), Ma(o.r("mach_number")), rs(o.r("softening_radius")), mdot(o.r("mdot")), counter(o.is("counter_rotate")) { s0 = o.r("disk_mass") / (17.0618 * rc * rc); s1 = o.r("ambient_density") * s0; }
    double sigma(double r) const { auto x = r / rc; return s0 * std::exp(-0.5 * (x - 1) * (x - 1)) + s1; }
    // the square of the orbital velocity: softened gravity and the pressure gradient
    double vp2(double r) const { auto x = r / rc; return 1 / (r + rs) + 1 / (Ma * Ma * (r + rs)) * (x * (1 - x) * (1 - s1 / sigma(r)) - 1); }
    V3 prim(double x, double y) const { double r = std::hypot(x, y), vp = std::sqrt(vp2(r)) * (counter ? -1 : 1), vr = r > 2 ? -mdot / (sigma(r) * 2 * M_PI * r) : 0.0; return {sigma(r), (vr * x - vp * y) / r, (vr * y + vp * x) / r}; } };

using field = std::map<blk, std::vector<V3>>;
struct mesh
{
    int n; double D; leafset leaves; bool tie = false;
    explicit mesh(const options& o) : n(o.i("block_size")), D(o.r("domain_radius")), leaves{{0, 0, 0}}
    {
        auto f = o.r("focus_factor"), p = o.r("focus_index");
        for (int l = 0; l < o.i("depth"); ++l) for (auto b : leafset(leaves)) if (b.l == l) { auto w = 2.0 / (1 << l), x = -1 + (b.i + 0.5) * w, y = -1 + (b.j + 0.5) * w, r = std::hypot(x, y), lim = l == 0 ? INFINITY : f / std::pow(l, p); if (std::fabs(r - lim) < 1e-9) tie = true; if (r < lim) split(leaves, b); }
        leaves = balance(leaves);
    }
    double h(long l) const { return 2 * D / (double(n) * (1l << l)); }
    long N(long l) const { return n * (1l << l); }
    double xc(long l, long i) const { return -D + (i + 0.5) * h(l); }
    double xf(long l, long i) const { return -D + i * h(l); }
    long top() const { long t = 0; for (auto& b : leaves) t = std::max(t, b.l); return t; }
    blk block(long l, long i, long j) const { return {l, i / n, j / n}; }
    // is the cell (l, i, j) covered by finer blocks?
    bool finer(long l, long i, long j) const { for (auto b = block(l, i, j);; b = {b.l - 1, b.i / 2, b.j / 2}) { if (leaves.count(b)) return false; if (b.l == 0) return true; } }
    // the field on the cell (l, i, j), from the covering coarse cell or the average of the fine ones
    V3 at(const field& f, long l, long i, long j) const
    {
        auto M = N(l); i = (i + M) % M; j = (j + M) % M; auto it = f.find(block(l, i, j)); if (it != f.end()) return it->second[(i % n) * n + j % n];
        if (! finer(l, i, j)) return at(f, l - 1, i / 2, j / 2);
        return (at(f, l + 1, 2 * i, 2 * j) + at(f, l + 1, 2 * i + 1, 2 * j) + at(f, l + 1, 2 * i, 2 * j + 1) + at(f, l + 1, 2 * i + 1, 2 * j + 1)) * 0.25;
    }
    template<class F> void each(F f) const { for (auto& b : leaves) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) f(b, b.i * n + i, b.j * n + j, i * n + j); }
    template<class F> field make(F f) const { field r; for (auto& b : leaves) r[b].resize(n * n); each([&] (blk b, long i, long j, int k) { r[b][k] = f(b, i, j, k); }); return r; }
};
using elements = std::array<double, 10>;  // pomega tau cmx cmy cvx cvy separation mass ratio eccentricity
inline const std::vector<std::string>& element_names() { static std::vector<std::string> v{"pomega", "tau", "cm_position_x", "cm_position_y", "cm_velocity_x", "cm_velocity_y", "elements.separation", "elements.total_mass", "elements.mass_ratio", "elements.eccentricity"}; return v; }
inline mara::full_orbital_elements_t to_mara(const elements& e) { mara::full_orbital_elements_t r; r.pomega = e[0]; r.tau = e[1]; r.cm_position_x = e[2]; r.cm_position_y = e[3]; r.cm_velocity_x = e[4]; r.cm_velocity_y = e[5]; r.elements.separation = e[6]; r.elements.total_mass = e[7]; r.elements.mass_ratio = e[8]; r.elements.eccentricity = e[9]; return r; }
inline elements from_mara(const mara::full_orbital_elements_t& r) { return {r.pomega, r.tau, r.cm_position_x, r.cm_position_y, r.cm_velocity_x, r.cm_velocity_y, r.elements.separation, r.elements.total_mass, r.elements.mass_ratio, r.elements.eccentricity}; }

struct totals { double mass[2]{}, lz[2]{}, torque[2]{}, work[2]{}, mass_ej = 0, lz_ej = 0; };
struct state
{
    double time = 0; double iteration = 0; field u; totals T; elements acc{}, grav{}, orb{};
    // magnitude of the terms that were added up, for the tolerance
    field scale; totals S;
};
struct stage_info { bool negative = false, tie = false; };

struct stepper
{
    options o; mesh m; disk d; bool lin; double sp_min;
    explicit stepper(const options& o) : o(o), m(o), d(o), lin(o.is("conserve_linear_p")) { sp_min = m.h(m.top()); }
    V3 to_cons(const V3& p, double x, double y) const { return lin ? V3{p[0], p[0] * p[1], p[0] * p[2]} : V3{p[0], p[0] * (x * p[1] + y * p[2]), p[0] * (x * p[2] - y * p[1])}; }
    V3 to_prim(const V3& u, double x, double y) const { if (lin) return {u[0], u[1] / u[0], u[2] / u[0]}; auto r2 = x * x + y * y; return {u[0], (u[1] * x - u[2] * y) / r2 / u[0], (u[1] * y + u[2] * x) / r2 / u[0]}; }
    double lz(const V3& u, double x, double y) const { return lin ? x * u[2] - y * u[1] : u[2]; }
    // px, py
    std::array<double, 2> p2(const V3& u, double x, double y) const { if (lin) return {u[1], u[2]}; auto r2 = x * x + y * y; return {(u[1] * x - u[2] * y) / r2, (u[1] * y + u[2] * x) / r2}; }
    double cs2(double x, double y, const mara::two_body_state_t& B) const
    {
        auto M = o.r("mach_number"), e2 = std::pow(o.r("softening_radius"), 2); if (o.is("axisymmetric_cs2")) return 1 / std::hypot(x, y) / M / M; double phi = 0;
        for (auto& b : {B.body1, B.body2}) phi -= b.mass / std::sqrt(std::pow(x - b.position_x, 2) + std::pow(y - b.position_y, 2) + e2); return -phi / M / M;
    }
    double nu(double x, double y, double c2) const { auto r = std::hypot(x, y), rc = o.r("alpha_cutoff_radius"), w = rc > 0 ? 0.5 * (1 + std::tanh(3 * (r - rc))) : 1.0; return w * (o.r("nu") > 0 ? o.r("nu") : o.r("alpha") * std::sqrt(c2) * r / o.r("mach_number")); }
    static double plm(double l, double c, double r, double th) { double a = th * (c - l), b = 0.5 * (r - l), e = th * (r - c); if (a > 0 && b > 0 && e > 0) return std::min(a, std::min(b, e)); if (a < 0 && b < 0 && e < 0) return std::max(a, std::max(b, e)); return 0; }
    field prims(const state& s) const { return m.make([&] (blk b, long i, long j, int k) { return to_prim(s.u.at(b)[k], m.xc(b.l, i), m.xc(b.l, j)); }); }
    double max_dt(const state& s) const
    {
        auto B = mara::compute_two_body_state(to_mara(s.orb), s.time); auto P = prims(s); double dt = INFINITY;
        m.each([&] (blk b, long i, long j, int k) { auto& p = P.at(b)[k]; dt = std::min(dt, m.h(b.l) / (std::max(std::fabs(p[1]), std::fabs(p[2])) + std::sqrt(cs2(m.xc(b.l, i), m.xc(b.l, j), B)))); }); return dt;
    }
    double dt(const state& s) const
    {
        if (! o.is("fixed_dt")) return o.r("cfl_number") * max_dt(s); double v = 1; m.each([&] (blk b, long i, long j, int) { auto p = d.prim(m.xc(b.l, i), m.xc(b.l, j)); v = std::max(v, std::hypot(p[1], p[2])); }); return sp_min / v * o.r("cfl_number");
    }
    state initial() const
    {
        state s; s.u = m.make([&] (blk b, long i, long j, int) { auto x = m.xc(b.l, i), y = m.xc(b.l, j); return to_cons(d.prim(x, y), x, y); }); s.orb = {0, 0, 0, 0, 0, 0, o.r("separation"), 1, o.r("mass_ratio"), o.r("eccentricity")}; return s;
    }
    state advance(const state& s, double dt, bool safe, stage_info& info) const
    {
        auto th = safe ? 0.0 : o.r("plm_theta"); bool pcm = o.kv.at("reconstruct_method") == "pcm"; auto P = prims(s); auto B = mara::compute_two_body_state(to_mara(s.orb), s.time);
        field G[2]; for (int a = 0; a < 2; ++a) G[a] = m.make([&] (blk b, long i, long j, int k) { auto l = m.at(P, b.l, i - (a == 0), j - (a == 1)), c = P.at(b)[k], r = m.at(P, b.l, i + (a == 0), j + (a == 1)); V3 g; for (int q = 0; q < 3; ++q) g[q] = plm(l[q], c[q], r[q], th) / m.h(b.l); return g; });
        // flux times face length through the low or high face of the cell (l, i, j) along axis a
        std::function<V3(long, long, long, int, int)> face = [&] (long l, long i, long j, int a, int hi) -> V3
        {
            long N = m.N(l), ni = (i + (a == 0 ? (hi ? 1 : N - 1) : 0)) % N, nj = (j + (a == 1 ? (hi ? 1 : N - 1) : 0)) % N;
            if (m.finer(l, ni, nj)) { V3 t{}; for (int c = 0; c < 2; ++c) t = t + face(l + 1, a == 0 ? 2 * ni + (hi ? 0 : 1) : 2 * ni + c, a == 1 ? 2 * nj + (hi ? 0 : 1) : 2 * nj + c, a, ! hi); return t; }
            auto h = m.h(l); double x = a == 0 ? m.xf(l, i + hi) : m.xc(l, i), y = a == 1 ? m.xf(l, j + hi) : m.xc(l, j);
            long li = hi ? i : ni, lj = hi ? j : nj, ri = hi ? ni : i, rj = hi ? nj : j;
            auto pl = m.at(P, l, li, lj), pr = m.at(P, l, ri, rj), gl = m.at(G[a], l, li, lj), gr = m.at(G[a], l, ri, rj), tl = m.at(G[1 - a], l, li, lj), tr = m.at(G[1 - a], l, ri, rj);
            auto ql = pcm ? pl : pl + gl * (0.5 * h), qr = pcm ? pr : pr - gr * (0.5 * h);
            auto c2 = cs2(x, y, B), c = std::sqrt(c2), mu = 0.5 * nu(x, y, c2) * (ql[0] + qr[0]);
            auto U = [] (const V3& p) { return V3{p[0], p[0] * p[1], p[0] * p[2]}; };
            auto F = [&] (const V3& p) { auto v = p[1 + a]; V3 f{p[0] * v, p[0] * v * p[1], p[0] * v * p[2]}; f[1 + a] += p[0] * c2; return f; };
            auto ap = std::max(0.0, std::max(ql[1 + a], qr[1 + a]) + c), am = std::min(0.0, std::min(ql[1 + a], qr[1 + a]) - c);
            auto f = (F(ql) * ap - F(qr) * am + (U(qr) - U(ql)) * (ap * am)) * (1 / (ap - am));
            // tau_ab = mu (d_a u_b + d_b u_a - delta_ab div u), gradients averaged over the two sides
            auto along = (gl + gr) * 0.5, across = (tl + tr) * 0.5; auto dux = a == 0 ? along : across, duy = a == 0 ? across : along;
            if (a == 0) { f[1] -= mu * (dux[1] - duy[2]); f[2] -= mu * (dux[2] + duy[1]); } else { f[1] -= mu * (dux[2] + duy[1]); f[2] -= mu * (duy[2] - dux[1]); }
            if (! lin) { bool edge = a == 0 ? (i + hi == 0 || i + hi == N) : (j + hi == 0 || j + hi == N); f = {f[0], x * f[1] + y * f[2], edge ? 0.0 : x * f[2] - y * f[1]}; }
            return f * h;
        };
        double e2 = std::pow(o.r("softening_radius"), 2), s2 = std::pow(o.r("sink_radius"), 2), floor = o.r("density_floor") * o.r("disk_mass"), sup2 = std::pow(o.r("source_term_softening") * sp_min, 2);
        state R; R.time = s.time + dt; R.iteration = s.iteration + 1; R.T = s.T; R.scale = m.make([] (blk, long, long, int) { return V3{}; });
        double dM[2]{}, dpx[2]{}, dpy[2]{}, fx[2]{}, fy[2]{}; mara::point_mass_t body[2] = {B.body1, B.body2};
        std::map<blk, std::array<V3, 2>> blockacc; double pabs[2]{};
        R.u = m.make([&] (blk b, long i, long j, int k)
        {
            auto x = m.xc(b.l, i), y = m.xc(b.l, j), h = m.h(b.l), dA = h * h, r = std::hypot(x, y); auto u0 = s.u.at(b)[k], u = u0, sc = mag(u0);
            auto add = [&] (const V3& t) { u = u + t; sc = sc + mag(t); };
            for (int a = 0; a < 2; ++a) { add(face(b.l, i, j, a, 0) * (dt / dA)); add(face(b.l, i, j, a, 1) * (-dt / dA)); }
            for (int q = 0; q < 2; ++q)
            {
                auto dx = x - body[q].position_x, dy = y - body[q].position_y, g = -body[q].mass * u0[0] / std::pow(dx * dx + dy * dy + e2, 1.5); V3 f = lin ? V3{0, g * dx, g * dy} : V3{0, x * g * dx + y * g * dy, x * g * dy - y * g * dx}; f = f * dt; add(f);
                R.T.torque[q] -= lz(f, x, y) * dA; R.S.torque[q] += (std::fabs(x * dy * g) + std::fabs(y * dx * g)) * dt * dA; fx[q] -= g * dx * dt * dA; fy[q] -= g * dy * dt * dA;
                auto w = o.r("sink_rate") * std::exp(-(dx * dx + dy * dy) / s2 / 2) * dt; V3 k = u0 * -w; add(k); auto p = p2(k, x, y);
                dM[q] -= k[0] * dA; dpx[q] -= p[0] * dA; dpy[q] -= p[1] * dA; R.T.mass[q] -= k[0] * dA; R.T.lz[q] -= lz(k, x, y) * dA; R.S.mass[q] += std::fabs(k[0]) * dA; R.S.lz[q] += (std::fabs(x * p[1]) + std::fabs(y * p[0])) * dA;
                auto& acc = blockacc[b][q]; acc = acc - k * dA; pabs[q] += (std::fabs(p[0]) + std::fabs(p[1])) * dA;
            }
            auto ub = to_cons(d.prim(x, y), x, y); auto br = o.r("buffer_damping_rate") * (1 + std::tanh(3 * (r - m.D))) * dt; auto bf = (ub - u0) * br; add(bf); sc = sc + mag(ub) * br; R.T.mass_ej -= bf[0] * dA; R.T.lz_ej -= lz(bf, x, y) * dA;
            R.S.mass_ej += (ub[0] + u0[0]) * br * dA; for (auto& w : {ub, u0}) R.S.lz_ej += (lin ? std::fabs(x * w[2]) + std::fabs(y * w[1]) : std::fabs(w[2])) * br * dA;
            if (lin) { if (std::fabs(u0[0] - floor) < 1e-8 * floor) info.tie = true; if (u0[0] < floor) add(u0 * 0.01); }
            else { auto p = to_prim(u0, x, y); add({0, 2 * (0.5 * p[0] * (p[1] * p[1] + p[2] * p[2]) + p[0] * cs2(x, y, B)) * (1 - std::exp(-r * r / sup2)) * dt, 0}); }
            R.scale[b][k] = sc; if (u[0] < 0) info.negative = true; if (std::fabs(u[0]) < 1e-7 * sc[0]) info.tie = true; return u;
        });
        if (lin) for (auto& x : blockacc) for (int q = 0; q < 2; ++q) { auto& k = x.second[q]; auto& b = body[q]; double px = b.mass * b.velocity_x, py = b.mass * b.velocity_y; auto E = [] (double px, double py, double M) { return 0.5 * (px * px + py * py) / M; }; R.T.work[q] += E(px + k[1], py + k[2], b.mass + k[0]) - E(px, py, b.mass); R.S.work[q] += (std::pow(std::hypot(px, py) + pabs[q], 2)) / b.mass; }
        // orbital elements: the changes due to accretion and to gravity, applied once the binary is live
        auto kick = [&] (bool acc) { mara::point_mass_t c[2]; for (int q = 0; q < 2; ++q) { c[q] = body[q]; if (acc) { c[q].mass = body[q].mass + dM[q]; if (! o.is("no_accretion_force")) { c[q].velocity_x = (body[q].mass * body[q].velocity_x + dpx[q]) / c[q].mass; c[q].velocity_y = (body[q].mass * body[q].velocity_y + dpy[q]) / c[q].mass; } } else { c[q].velocity_x += fx[q] / body[q].mass; c[q].velocity_y += fy[q] / body[q].mass; } } return mara::compute_orbital_elements({c[0], c[1]}, s.time); };
        auto E0 = to_mara(s.orb); elements da{}, dg{}; if (s.orb[6] != 0.0) try { da = from_mara(mara::diff(E0, kick(true))); dg = from_mara(mara::diff(E0, kick(false))); } catch (const std::exception&) { info.negative = true; return R; } // the orbit is unbound bool live = s.time > o.r("begin_live_binary") * 2 * M_PI;
        bool live = s.time > o.r("begin_live_binary") * 2 * M_PI;
        for (int k = 0; k < 10; ++k) { R.acc[k] = s.acc[k] + da[k]; R.grav[k] = s.grav[k] + dg[k]; R.orb[k] = s.orb[k] + (live ? da[k] + dg[k] : 0.0); }
        if (live) { R.orb[2] += s.orb[4] * dt; R.orb[3] += s.orb[5] * dt; }
        return R;
    }
    static totals combine(const totals& a, const totals& b, double w) { totals r; auto p = reinterpret_cast<const double*>(&a), q = reinterpret_cast<const double*>(&b); auto t = reinterpret_cast<double*>(&r); for (std::size_t i = 0; i < sizeof(totals) / 8; ++i) t[i] = p[i] * w + q[i] * (1 - w); return r; }
    static totals plus(const totals& a, const totals& b) { totals r; auto p = reinterpret_cast<const double*>(&a), q = reinterpret_cast<const double*>(&b); auto t = reinterpret_cast<double*>(&r); for (std::size_t i = 0; i < sizeof(totals) / 8; ++i) t[i] = std::fabs(p[i]) + std::fabs(q[i]); return r; }
    state attempt(const state& s, double dt, bool safe, stage_info& info) const
    {
        auto a = advance(s, dt, safe, info); a.S = plus(a.S, s.T); if (o.i("rk_order") == 1 || info.negative) return a;
        auto b = advance(a, dt, safe, info); if (info.negative) return b; state r; r.time = 0.5 * s.time + 0.5 * b.time; r.iteration = 0.5 * s.iteration + 0.5 * b.iteration; r.T = combine(s.T, b.T, 0.5); r.S = plus(a.S, plus(b.S, a.T));
        r.u = m.make([&] (blk q, long, long, int k) { return s.u.at(q)[k] * 0.5 + b.u.at(q)[k] * 0.5; }); r.scale = m.make([&] (blk q, long, long, int k) { return a.scale.at(q)[k] + b.scale.at(q)[k]; });
        for (int k = 0; k < 10; ++k) { r.acc[k] = 0.5 * (s.acc[k] + b.acc[k]); r.grav[k] = 0.5 * (s.grav[k] + b.grav[k]); r.orb[k] = 0.5 * (s.orb[k] + b.orb[k]); } return r;
    }
    struct outcome { state next; bool retried = false, failed = false, tie = false; };
    // what the program does with a state: a step, or a step a tenth as long without reconstruction, or failure
    outcome step(const state& s) const
    {
        outcome r; stage_info a; auto t = dt(s); r.next = attempt(s, t, false, a); r.tie = a.tie; if (! a.negative) return r;
        r.retried = true; stage_info b; r.next = attempt(s, 0.1 * t, true, b); r.tie = r.tie || b.tie; r.failed = b.negative; return r;
    }
    double total(const state& s, bool angular) const { double t = 0; m.each([&] (blk b, long i, long j, int k) { t += (angular ? lz(s.u.at(b)[k], m.xc(b.l, i), m.xc(b.l, j)) : s.u.at(b)[k][0]) * m.h(b.l) * m.h(b.l); }); return t; }
    double total_mag(const state& s, bool angular) const { double t = 0; m.each([&] (blk b, long i, long j, int k) { auto& u = s.u.at(b)[k]; auto x = m.xc(b.l, i), y = m.xc(b.l, j); t += (angular ? (lin ? std::fabs(x * u[2]) + std::fabs(y * u[1]) : std::fabs(u[2])) : u[0]) * m.h(b.l) * m.h(b.l); }); return t; }
};
inline std::string leaf_name(blk b, const leafset& m) { return std::to_string(b.l) + ":" + std::to_string(b.i) + "-" + std::to_string(b.j); }
// read a checkpoint; the block names are parsed, so that any zero padding is accepted
inline std::map<blk, std::string> blocks_of(const h5dump& d, const std::string& group)
{
    std::map<blk, std::string> r; for (auto& n : d.under(group)) { long l, i, j; char c; if (std::sscanf(n.c_str(), "%ld:%ld-%ld%c", &l, &i, &j, &c) != 3) fail("the file has a block named " + n); r[{l, i, j}] = group + "/" + n; } return r;
}
inline void expect_leaves(const std::string& what, const std::map<blk, std::string>& got, const leafset& want) { for (auto& b : want) if (! got.count(b)) fail(what + ": there is no block " + show(b)); if (got.size() != want.size()) fail(what + ": there are " + show(got.size()) + " blocks, want " + show(want.size())); }
inline elements read_elements(const std::string& path, const h5dump& d, const std::string& name) { auto t = read_table(path, name, d); elements e; for (int k = 0; k < 10; ++k) e[k] = t.get(0, element_names()[k]); return e; }
inline state read_state(const std::string& path, const stepper& st, const h5dump& d)
{
    state s; s.time = d.real("solution/time"); auto it = d.ints("solution/iteration"); s.iteration = double(it.at(0)) / it.at(1);
    auto g = std::string("solution/conserved_") + (st.lin ? "u" : "q"); auto blocks = blocks_of(d, g); expect_leaves("checkpoint", blocks, st.m.leaves);
    for (auto& b : blocks) { auto v = d.doubles(b.second); auto& ds = d.at(b.second); if (ds.dims != std::vector<hsize_t>{hsize_t(st.m.n), hsize_t(st.m.n)} || v.size() != std::size_t(3 * st.m.n * st.m.n)) fail("block " + b.second + " has the wrong shape"); auto& f = s.u[b.first]; f.resize(st.m.n * st.m.n); for (std::size_t k = 0; k < f.size(); ++k) f[k] = {v[3 * k + 2], v[3 * k + 1], v[3 * k]}; } // std::tuple keeps its components in reverse order
    auto two = [&] (const char* n, double* r) { auto v = d.doubles(std::string("solution/") + n); if (v.size() != 2) fail(std::string(n) + " is not a pair"); r[0] = v[0]; r[1] = v[1]; };
    two("mass_accreted_on", s.T.mass); two("angular_momentum_accreted_on", s.T.lz); two("integrated_torque_on", s.T.torque); two("work_done_on", s.T.work); s.T.mass_ej = d.real("solution/mass_ejected"); s.T.lz_ej = d.real("solution/angular_momentum_ejected");
    s.orb = read_elements(path, d, "solution/orbital_elements"); s.acc = read_elements(path, d, "solution/orbital_elements_acc"); s.grav = read_elements(path, d, "solution/orbital_elements_grav"); return s;
}
// overwrite the state in a checkpoint
inline void write_state(const std::string& path, const stepper& st, const h5dump& d, const state& s)
{
    std::map<std::string, std::string> w; w["solution/time"] = pack({s.time}); auto g = std::string("solution/conserved_") + (st.lin ? "u" : "q");
    for (auto& b : blocks_of(d, g)) { std::vector<double> v; for (auto& x : s.u.at(b.first)) v.insert(v.end(), x.rbegin(), x.rend()); w[b.second] = pack(v); }
    w["solution/mass_accreted_on"] = pack({s.T.mass[0], s.T.mass[1]}); w["solution/angular_momentum_accreted_on"] = pack({s.T.lz[0], s.T.lz[1]}); w["solution/integrated_torque_on"] = pack({s.T.torque[0], s.T.torque[1]}); w["solution/work_done_on"] = pack({s.T.work[0], s.T.work[1]}); w["solution/mass_ejected"] = pack({s.T.mass_ej}); w["solution/angular_momentum_ejected"] = pack({s.T.lz_ej});
    auto el = [&] (const std::string& n, const elements& e) { auto t = read_table(path, n, d); for (int k = 0; k < 10; ++k) t.set(0, element_names()[k], e[k]); w[n] = t.data.bytes; }; el("solution/orbital_elements", s.orb); el("solution/orbital_elements_acc", s.acc); el("solution/orbital_elements_grav", s.grav);
    write_h5(path, w);
}
inline bool near(double a, double b, double tol) { return std::isfinite(a) && std::fabs(a - b) <= tol; }
inline void expect_elements(const std::string& what, const elements& got, const elements& want, const elements& before, bool poor=false)
{
    // the orientation and phase of a nearly circular orbit are ill determined
    double e = std::max(1e-9, std::min(std::fabs(want[9]), std::fabs(before[9])));
    for (int k = 0; k < 10; ++k) { double tol = 1e-9 * (1 + std::fabs(want[k])); if (k == 9) tol += 1e-13 / e; if (k < 2) { if (e < 1e-5 || poor) continue; tol += 1e-12 / e; } if (! near(got[k], want[k], tol)) fail(what + " " + element_names()[k] + ": got " + show(got[k]) + ", want " + show(want[k])); }
}
inline void expect_state(const std::string& what, const stepper& st, const state& got, const state& want, const state& before, double rel=1e-9)
{
    if (! near(got.time, want.time, 1e-10 * std::max(1e-3, want.time - before.time) + 1e-14 * std::fabs(want.time))) fail(what + ": the time is " + show(got.time) + ", want " + show(want.time) + " (from " + show(before.time) + ")");
    expect_eq(what + ": iteration", got.iteration, want.iteration);
    V3 top{}; for (auto& b : want.scale) for (auto& x : b.second) for (int c = 0; c < 3; ++c) top[c] = std::max(top[c], x[c]);
    st.m.each([&] (blk b, long i, long j, int k) { for (int c = 0; c < 3; ++c) { auto tol = rel * (want.scale.at(b)[k][c] + 1e-3 * top[c]); auto g = got.u.at(b)[k][c], w = want.u.at(b)[k][c]; if (! near(g, w, tol)) fail(what + ": component " + show(c) + " of the zone (" + show(i - b.i * st.m.n) + ", " + show(j - b.j * st.m.n) + ") of block " + show(b) + " is " + show(g) + ", want " + show(w) + " (allowed " + show(tol) + ", before " + show(before.u.at(b)[k][c]) + ")"); } });
    auto one = [&] (const char* n, double g, double w, double s) { if (! near(g, w, 1e-9 * s + 1e-300)) fail(what + ": " + n + " is " + show(g) + ", want " + show(w) + " (allowed " + show(1e-9 * s) + ")"); };
    for (int q = 0; q < 2; ++q) { auto t = q ? std::string(" on body 2") : std::string(" on body 1"); one(("mass accreted" + t).c_str(), got.T.mass[q], want.T.mass[q], want.S.mass[q]); one(("angular momentum accreted" + t).c_str(), got.T.lz[q], want.T.lz[q], want.S.lz[q]); one(("torque" + t).c_str(), got.T.torque[q], want.T.torque[q], want.S.torque[q]); if (st.lin) one(("work" + t).c_str(), got.T.work[q], want.T.work[q], want.S.work[q] * 1e-3); }
    one("mass ejected", got.T.mass_ej, want.T.mass_ej, want.S.mass_ej); one("angular momentum ejected", got.T.lz_ej, want.T.lz_ej, want.S.lz_ej);
    expect_elements(what + ": accretion change of", got.acc, want.acc, before.orb); expect_elements(what + ": gravity change of", got.grav, want.grav, before.orb); expect_elements(what + ":", got.orb, want.orb, before.orb);
}
}
