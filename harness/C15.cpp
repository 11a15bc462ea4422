// C15: the Euler equations: states, fluxes, eigensystem, geometric source terms.
#include "phys.hpp"
#include "physics_euler.hpp"
using P5 = mara::euler::primitive_t;
static P5 make(double d, double u, double v, double w, double p) { return P5().with_mass_density(d).with_velocity_1(u).with_velocity_2(v).with_velocity_3(w).with_gas_pressure(p); }
static P5 gen(src& s, double mach=20)
{
    auto d = s.logreal(1e-4, 1e4), p = s.logreal(1e-5, 1e5), c = std::sqrt(p / d); return make(d, s.symmetric(mach) * c, s.symmetric(mach) * c, s.symmetric(mach) * c, p);
}
static std::string str(const P5& p) { std::string r = "("; for (int i = 0; i < 5; ++i) r += show(p[i]) + " "; return r + ")"; }
struct ref { L d, u, v, w, p, g; L v2() const { return u * u + v * v + w * w; } L E() const { return d * v2() / 2 + p / (g - 1); } std::array<L, 5> U() const { return {d, d * u, d * v, d * w, E()}; } L vn(const std::array<L, 3>& n) const { return u * n[0] + v * n[1] + w * n[2]; } L cs() const { return std::sqrt(g * p / d); }
    std::array<L, 5> F(const std::array<L, 3>& n) const { auto q = vn(n); return {d * q, d * u * q + p * n[0], d * v * q + p * n[1], d * w * q + p * n[2], (E() + p) * q}; }
    std::array<L, 5> Fscale() const { auto V = std::sqrt(v2()) + cs(); return {d * V, d * V * V + p, d * V * V + p, d * V * V + p, (E() + p) * V}; } std::array<L, 5> Uscale() const { auto V = std::sqrt(v2()) + cs(); return {d, d * V, d * V, d * V, E()}; } };
static ref to_ref(const P5& p, double g) { return {p.mass_density(), p.velocity_1(), p.velocity_2(), p.velocity_3(), p.gas_pressure(), g}; }
static mara::euler::conserved_density_t dens(const std::array<L, 5>& U) { mara::euler::conserved_density_t r; for (int i = 0; i < 5; ++i) r[i] = double(U[i]); return r; }

LAW("states_and_fluxes", 400000, "a moving state", [] (src& s)
{
    auto P = gen(s); auto g = gen_gamma(s); auto n = gen_nhat(s); auto R = to_ref(P, g); s.note("P", str(P)); s.note("gamma", g); auto N = lv(n);
    expect_eq("components", std::vector<double>{P[0], P[1], P[2], P[3], P[4]}, std::vector<double>{P.mass_density(), P.velocity_1(), P.velocity_2(), P.velocity_3(), P.gas_pressure()});
    auto U = P.to_conserved_density(g); near5("conserved density", five(U), R.U(), R.Uscale(), 1e-13);
    auto F = P.flux(n, g); near5("flux", five(F), R.F(N), R.Fscale(), 1e-13); near5("flux from conserved", five(P.flux(n, U)), R.F(N), R.Fscale(), 1e-13);
    auto Q = mara::euler::recover_primitive(U, g, 0.0); auto V = double(std::sqrt(R.v2()) + R.cs()); expect_close("density", Q[0], P[0], 1e-14); for (int i = 1; i < 4; ++i) expect_close("velocity", Q[i], P[i], 1e-13, 1e-14 * V); expect_close("pressure", Q[4], P[4], 1e-12, double(1e-14 * R.E() * (g - 1)) * 8);
    expect_close("sound speed", P.sound_speed_squared(g), double(R.cs() * R.cs()), 1e-13); expect_close("enthalpy density", P.enthalpy_density(g), double(R.p + R.p / (R.g - 1)), 1e-12); expect_close("specific enthalpy", P.specific_enthalpy(g), double((R.p + R.p / (R.g - 1)) / R.d), 1e-12); expect_close("entropy", P.specific_entropy(g), double(std::log(R.p) - R.g * std::log(R.d)), 1e-12, 1e-11); expect_close("speed squared", P.velocity_squared(), double(R.v2()), 1e-13, 0); expect_close("normal velocity", P.velocity_along(n), double(R.vn(N)), 1e-12, 1e-14 * V);
    auto A = P.wavespeeds(n, g); expect_close("slow wave", A.m.value, double(R.vn(N) - R.cs()), 1e-12, 1e-14 * V); expect_close("fast wave", A.p.value, double(R.vn(N) + R.cs()), 1e-12, 1e-14 * V); if (! (A.m < A.p)) fail("wave speeds are not ordered");
    // the temperature floor
    auto T = s.logreal(1e-3, 10) * P.gas_pressure() / P.mass_density(); auto X = mara::euler::recover_primitive(U, g, T); expect_close("floored pressure", X[4], std::max(Q[4], T * P.mass_density()), 1e-12); for (int i = 0; i < 4; ++i) expect_eq("the floor changes only the pressure", X[i], Q[i]);
    auto C = R.U(); C[4] -= R.p / (R.g - 1) * (1 + s.real(0, 2)); auto Y = mara::euler::recover_primitive(dens(C), g, T); expect_close("floor of a negative pressure", Y[4], T * P.mass_density(), 1e-12, double(1e-14 * R.E()) * 8);
    // rotating the frame rotates the flux
    auto M = gen_rotation(s); auto v = M(P[1], P[2], P[3]); auto RP = make(P[0], v[0], v[1], v[2], P[4]); auto RF = five(RP.flux(M(n), g)); auto f = five(F); auto w = M(double(f[1]), double(f[2]), double(f[3])); near5("flux in a rotated frame", RF, {f[0], w[0], w[1], w[2], f[4]}, R.Fscale(), 1e-12);
    s.nontrivial(R.v2() > 0); s.cls("supersonic", std::fabs(R.vn(N)) > R.cs());
});

LAW("eigensystem", 150000, "a moving state", [] (src& s)
{
    auto P = gen(s, 5); auto g = gen_gamma(s); s.note("P", str(P)); s.note("gamma", g); auto R = to_ref(P, g); auto [lam, r, l] = P.eigensystem(g); auto A = P.flux_jacobian(g); auto r1 = P.right_eigenvectors(g); auto l1 = P.left_eigenvectors(g); auto e1 = P.eigenvalues(g);
    L c = R.cs(), V = std::sqrt(R.v2()) + c; L sc[5] = {1, V, V, V, V * V / (R.g - 1) * 2};   // units of each component per unit mass
    L ev[5] = {R.u - c, R.u, R.u, R.u, R.u + c}; for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) { if (i != j) expect_eq("off-diagonal eigenvalue", lam(i, j).value, 0.0); else expect_close("eigenvalue", lam(i, i).value, double(ev[i]), 1e-12, double(1e-14 * V)); expect_eq("right", r1(i, j).value, r(i, j).value); expect_eq("left", l1(i, j).value, l(i, j).value); expect_eq("values", e1(i, j).value, lam(i, j).value); }
    // columns of r may be scaled differently: compare with the largest entries
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j)
    {
        L ar = 0, sum = 0, arsc = 0; for (int k = 0; k < 5; ++k) { ar += L(A(i, k).value) * r(k, j).value; arsc += std::fabs(L(A(i, k).value) * r(k, j).value); } if (std::fabs(ar - ev[j] * r(i, j).value) > 1e-11 * (arsc + V * sc[i])) fail("A r != lambda r at " + show(i) + "," + show(j) + ": " + show(double(ar)) + " vs " + show(double(ev[j] * r(i, j).value)));
        L lr = 0, lrsc = 0; for (int k = 0; k < 5; ++k) { lr += L(l(i, k).value) * r(k, j).value; lrsc += std::fabs(L(l(i, k).value) * r(k, j).value); } if (std::fabs(lr - (i == j)) > 1e-11 * (1 + lrsc)) fail("left and right eigenvectors are not dual at " + show(i) + "," + show(j) + ": " + show(double(lr)));
        L rl = 0, rlsc = 0; for (int k = 0; k < 5; ++k) { rl += ev[k] * r(i, k).value * l(k, j).value; rlsc += std::fabs(ev[k] * r(i, k).value * l(k, j).value); } if (std::fabs(rl - A(i, j).value) > 1e-10 * (rlsc + V * sc[i] / sc[j] + std::fabs(A(i, j).value))) fail("the Jacobian is not R Lambda L at " + show(i) + "," + show(j));
    }
    // the Jacobian is the derivative of the flux
    for (int j = 0; j < 5; ++j)
    {
        auto flux = [&] (std::array<L, 5> U) { ref q{U[0], U[1] / U[0], U[2] / U[0], U[3] / U[0], 0, g}; q.p = (q.g - 1) * (U[4] - q.d * q.v2() / 2); return q.F({1, 0, 0}); };
        L h = 1e-5L * R.d * sc[j] * (j == 4 ? c * c / (V * V) : c / V) ; auto U = R.U(), W = U; U[j] += h; W[j] -= h; auto fa = flux(U), fb = flux(W); for (int i = 0; i < 5; ++i) { L want = (fa[i] - fb[i]) / (2 * h); if (std::fabs(want - A(i, j).value) > 1e-6 * (V * sc[i] / sc[j] + std::fabs(want))) fail("Jacobian entry " + show(i) + "," + show(j) + ": got " + show(A(i, j).value) + ", the derivative is " + show(double(want))); }
    }
    s.nontrivial(R.v2() > 0);
});

LAW("roe_average", 200000, "different states", [] (src& s)
{
    auto a = gen(s), b = gen(s); s.note("a", str(a)); s.note("b", str(b)); auto q = mara::euler::roe_average(a, b), q2 = mara::euler::roe_average(b, a), qq = mara::euler::roe_average(a, a); L ka = std::sqrt(L(a[0])), kb = std::sqrt(L(b[0]));
    for (int i = 0; i < 5; ++i) { auto m = std::max(std::fabs(a[i]), std::fabs(b[i])); expect_close("symmetry", q[i], q2[i], 1e-13, 1e-14 * m); expect_close("average", q[i], double((ka * a[i] + kb * b[i]) / (ka + kb)), 1e-12, 1e-14 * m); expect_close("idempotence", qq[i], a[i], 1e-13); if (q[i] < std::min(a[i], b[i]) - 1e-12 * m || q[i] > std::max(a[i], b[i]) + 1e-12 * m) fail("the average is outside its arguments"); } s.nontrivial(str(a) != str(b));
});

LAW("spherical_sources", 150000, "motion in all three directions", [] (src& s)
{
    auto d = s.logreal(1e-2, 1e2), p = s.logreal(1e-2, 1e2), c = std::sqrt(p / d), r = s.logreal(1e-2, 1e2), th = s.real(0.2, M_PI - 0.2), ph = s.real(0, 2 * M_PI), g = gen_gamma(s); auto P = make(d, s.symmetric(3) * c, s.symmetric(3) * c, s.symmetric(3) * c, p); s.note("P", str(P)); s.note("r", r); s.note("theta", th);
    // the Cartesian stress of the uniform flow with this velocity here
    std::array<std::array<L, 3>, 3> e{{{sinl(th) * cosl(ph), sinl(th) * sinl(ph), cosl(th)}, {cosl(th) * cosl(ph), cosl(th) * sinl(ph), -sinl(th)}, {-sinl(ph), cosl(ph), 0}}}; std::array<L, 3> v{0, 0, 0}; for (int a = 0; a < 3; ++a) for (int i = 0; i < 3; ++i) v[a] += e[i][a] * L(P[1 + i]); std::array<std::array<L, 3>, 3> T; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) T[a][b] = d * v[a] * v[b] + (a == b ? p : 0);
    auto want = spherical_source(T, r, th, ph); auto S = P.spherical_geometry_source_terms(r, th, g); double sc = double((d * dot(v, v) + p) / r) * (1 + 1 / std::sin(th)); for (int i = 0; i < 3; ++i) expect_close("source of momentum " + show(i), S[1 + i].value, double(want[i]), 0, 1e-8 * sc); expect_eq("source of mass", S[0].value, 0.0); expect_eq("source of energy", S[4].value, 0.0);
    auto Q = make(d, P[1], 0, 0, p); auto S1 = Q.spherical_geometry_source_terms_radial(r, g), S2 = Q.spherical_geometry_source_terms(r, M_PI_2, g); for (int i = 0; i < 5; ++i) expect_close("radial flow", S1[i].value, S2[i].value, 1e-13, 1e-13 * p / r); auto Z = make(d, P[1], P[2], 0, p); expect_close("radial source with polar motion", Z.spherical_geometry_source_terms_radial(r, g)[1].value, Z.spherical_geometry_source_terms(r, th, g)[1].value, 1e-13); s.nontrivial(P[1] != 0 && P[2] != 0 && P[3] != 0);
});
PBT_MAIN
