// C17: special relativistic hydrodynamics: states, fluxes, wave speeds, recovery of primitives, source terms.
#include "app_config.hpp"
#include "app_serialize.hpp"
#include "phys.hpp"
#include "physics_srhd.hpp"
#include "srhd_ref.hpp"
static double floor_of(src& s) { return s.coin() ? 0.0 : s.logreal(1e-12, 1e-9); }

LAW("states_and_fluxes", 200000, "a moving state", [] (src& s)
{
    auto P = gen_srhd(s); auto g = gen_gamma(s); auto n = gen_nhat(s); auto R = to_ref(P, g); auto N = lv(n); s.note("P", str(P)); s.note("gamma", g); s.note("n", show(n.get_n1()) + " " + show(n.get_n2()) + " " + show(n.get_n3()));
    expect_eq("components", std::vector<double>{P[0], P[1], P[2], P[3], P[4]}, std::vector<double>{P.mass_density(), P.gamma_beta_1(), P.gamma_beta_2(), P.gamma_beta_3(), P.gas_pressure()});
    auto U = P.to_conserved_density(g); near5("conserved density", five(U), R.U(), R.Uscale(), 1e-13); near5("flux", five(P.flux(n, g)), R.F(N), R.Fscale(), 1e-13); near5("flux from conserved", five(P.flux(n, U)), R.F(N), R.Fscale(), 1e-13);
    expect_close("Lorentz factor", P.lorentz_factor(), double(R.W()), 1e-13); expect_close("speed", P.gamma_beta_squared(), double(R.u2()), 1e-13, 0); expect_close("normal velocity", P.beta_along(n), double(R.vn(N)), 1e-12, 1e-14); expect_close("enthalpy density", P.enthalpy_density(g), double(R.d * R.h()), 1e-12); expect_close("specific enthalpy", P.specific_enthalpy(g), double(R.h()), 1e-12); expect_close("sound speed", P.sound_speed_squared(g), double(R.c2()), 1e-12); expect_close("entropy", P.specific_entropy(g), double(std::log(R.p) - R.g * std::log(R.d)), 1e-12, 1e-10);
    // wave speeds solve the characteristic equation: sound waves move at c_s in the frame of the fluid
    auto A = P.wavespeeds(n, g); L W2 = 1 + R.u2(), v = R.vn(N), c2 = R.c2(); for (L lam : {L(A.m.value), L(A.p.value)}) { if (! (std::fabs(lam) < 1 + 1e-13)) fail("a wave travels at " + show(double(lam))); L lhs = W2 * (lam - v) * (lam - v) * (1 - c2), rhs = c2 * (1 - lam * lam); if (std::fabs(lhs - rhs) > 1e-13 * W2 * W2 * 10) fail("the wave speed " + show(double(lam)) + " does not solve the characteristic equation: " + show(double(lhs)) + " != " + show(double(rhs))); }
    auto ex = R.waves(N); expect_close("slow wave", A.m.value, double(ex[0]), 0, 1e-13 * double(W2)); expect_close("fast wave", A.p.value, double(ex[1]), 0, 1e-13 * double(W2)); if (! (A.m.value <= double(v) + 1e-12 && double(v) <= A.p.value + 1e-12)) fail("the wave speeds do not enclose the fluid velocity");
    auto M = gen_rotation(s); auto w = M(P[1], P[2], P[3]); auto RP = make_srhd(P[0], w[0], w[1], w[2], P[4]); auto f = five(P.flux(n, g)); auto rf = M(double(f[1]), double(f[2]), double(f[3])); near5("flux in a rotated frame", five(RP.flux(M(n), g)), {f[0], rf[0], rf[1], rf[2], f[4]}, R.Fscale(), 1e-11);
    s.nontrivial(R.u2() > 0); s.cls("relativistic", R.u2() > 1); s.cls("hot", R.p > R.d);
});

LAW("recovery", 200000, "a moving state", [] (src& s)
{
    auto P = gen_srhd(s); auto g = gen_gamma(s); auto R = to_ref(P, g); s.note("P", str(P)); s.note("gamma", g); auto U = P.to_conserved_density(g); mara::srhd::primitive_t Q; try { Q = mara::srhd::recover_primitive(U, g, 0.0); } catch (std::exception& e) { fail(std::string("a physical state is refused: ") + e.what()); }
    double u = std::sqrt(double(R.u2())), perr = double(1e-13L * R.d * R.h() * (1 + R.u2()) + 1e-7L * R.p); expect_close("density", Q[0], P[0], 1e-6); for (int i = 1; i < 4; ++i) expect_close("velocity " + show(i), Q[i], P[i], 0, 1e-6 * u); expect_close("pressure", Q[4], P[4], 0, perr);
    auto T0 = P.gas_pressure() / P.mass_density(); auto low = s.real(0, 0.9) * (T0 - perr / P[0]); if (low > 0) { auto X = mara::srhd::recover_primitive(U, g, low); for (int i = 0; i < 5; ++i) expect_eq("a floor below the temperature does nothing", X[i], Q[i]); }
    auto T = T0 * s.logreal(1.0, 1e3) + 2 * perr / P[0]; auto Y = mara::srhd::recover_primitive(U, g, T); expect_eq("density at the floor", Y[0], Q[0]); for (int i = 1; i < 4; ++i) expect_close("velocity at the floor", Y[i], Q[i], 1e-13); expect_close("pressure at the floor", Y[4], T * Q[0], 1e-13);
    s.nontrivial(R.u2() > 0); s.cls("relativistic", R.u2() > 1); s.cls("hot", R.p > R.d); s.cls("dilute", R.d < 1e-6);
});

// A floor is what makes matter too cold for its energy to tell (the root finder may then find a slightly negative pressure) usable.
LAW("cold_matter_with_floor", 100000, "a moving state", [] (src& s)
{
    auto P = gen_srhd(s); auto d = P[0]; for (int i = 1; i < 4; ++i) P[i] = P[i] * 0.3; P[4] = d * s.logreal(1e-30, 1e-7); auto g = gen_gamma(s); auto T = s.logreal(1e-5, 10); s.note("P", str(P)); s.note("gamma", g); s.note("floor", T);
    auto R = to_ref(P, g); auto U = P.to_conserved_density(g); if (s.coin()) U[4] = U[4].value - double(R.d) * s.logreal(1e-14, 1e-11); mara::srhd::primitive_t Q; try { Q = mara::srhd::recover_primitive(U, g, T); } catch (std::exception& e) { fail(std::string("cold matter is refused in spite of the floor: ") + e.what()); }
    double u = std::sqrt(double(R.u2())); expect_close("density", Q[0], d, 1e-6); for (int i = 1; i < 4; ++i) expect_close("velocity " + show(i), Q[i], P[i], 0, 1e-6 * u); expect_close("pressure at the floor", Q[4], T * Q[0], 1e-13);
    s.nontrivial(R.u2() > 0); s.cls("relativistic", R.u2() > 1);
});

LAW("unphysical_states", 100000, "a state that cannot be recovered", [] (src& s)
{
    auto P = gen_srhd(s); auto g = gen_gamma(s); auto R = to_ref(P, g); auto U = P.to_conserved_density(g); auto T = s.coin() ? 0.0 : s.logreal(1e-10, 1); auto kind = s.draw(6); double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity(); bool must = false; s.note("P", str(P)); s.note("gamma", g); s.note("kind", kind); s.note("floor", T);
    L Eb = std::sqrt(R.U()[0] * R.U()[0] + R.u2() * R.d * R.d * R.W() * R.W() * R.h() * R.h());      // the energy of cold matter with this mass and momentum
    if (kind == 0) { U[0] = s.coin() ? 0.0 : -U[0].value * s.real(0.1, 3); must = true; } else if (kind == 1) { U[s.draw(5)] = s.pick({nan, inf, -inf}); must = true; } else if (kind == 2) { U[4] = double(Eb - R.U()[0]) - s.logreal(1e-3, 10) * double(Eb); must = T == 0; } else if (kind == 3) { for (int i = 1; i < 4; ++i) U[i] = U[i].value * s.logreal(1, 1e3); } else if (kind == 4) { U[4] = -s.logreal(1e-3, 1e3) * U[4].value; } else { for (int i = 0; i < 5; ++i) U[i] = s.symmetric(1) * s.logreal(1e-6, 1e6); }
    bool threw = false; mara::srhd::primitive_t Q; try { Q = mara::srhd::recover_primitive(U, g, T); } catch (std::invalid_argument&) { threw = true; }
    if (must && ! threw) fail("recovered " + str(Q) + " from an impossible state");
    if (! threw) { for (int i = 0; i < 5; ++i) if (! std::isfinite(Q[i])) fail("recovered " + str(Q)); if (! (Q[0] > 0) || ! (Q[4] > 0)) fail("recovered " + str(Q)); if (T > 0 && Q[4] < T * Q[0] * (1 - 1e-12)) fail("colder than the floor: " + str(Q)); }
    if (! threw && T == 0) near5("the recovered state has the given conserved quantities", five(Q.to_conserved_density(g)), five(U), to_ref(Q, g).Uscale(), 1e-5);
    s.nontrivial(threw); s.cls("kind=" + show(kind) + (threw ? " refused" : " recovered"), true);
});

LAW("spherical_sources", 150000, "motion in all three directions", [] (src& s)
{
    auto d = s.logreal(1e-2, 1e2), p = s.logreal(1e-2, 1e2), r = s.logreal(1e-2, 1e2), th = s.real(0.2, M_PI - 0.2), ph = s.real(0, 2 * M_PI), g = gen_gamma(s); auto P = make_srhd(d, s.symmetric(3), s.symmetric(3), s.symmetric(3), p); s.note("P", str(P)); s.note("r", r); s.note("theta", th); auto R = to_ref(P, g); L H = R.d * R.h();
    std::array<std::array<L, 3>, 3> e{{{sinl(th) * cosl(ph), sinl(th) * sinl(ph), cosl(th)}, {cosl(th) * cosl(ph), cosl(th) * sinl(ph), -sinl(th)}, {-sinl(ph), cosl(ph), 0}}}; std::array<L, 3> v{0, 0, 0}; for (int a = 0; a < 3; ++a) for (int i = 0; i < 3; ++i) v[a] += e[i][a] * L(P[1 + i]); std::array<std::array<L, 3>, 3> T; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) T[a][b] = H * v[a] * v[b] + (a == b ? L(p) : L(0));
    auto want = spherical_source(T, r, th, ph); auto S = P.spherical_geometry_source_terms(r, th, g); double sc = double((H * dot(v, v) + p) / r) * (1 + 1 / std::sin(th)); for (int i = 0; i < 3; ++i) expect_close("source of momentum " + show(i), S[1 + i].value, double(want[i]), 0, 1e-8 * sc); expect_eq("source of mass", S[0].value, 0.0); expect_eq("source of energy", S[4].value, 0.0);
    auto Q = make_srhd(d, P[1], 0, 0, p); auto S1 = Q.spherical_geometry_source_terms_radial(r, g), S2 = Q.spherical_geometry_source_terms(r, M_PI_2, g); for (int i = 0; i < 5; ++i) expect_close("radial flow", S1[i].value, S2[i].value, 1e-13, 1e-13 * p / r); auto Z = make_srhd(d, P[1], P[2], 0, p); expect_close("radial source with polar motion", Z.spherical_geometry_source_terms_radial(r, g)[1].value, Z.spherical_geometry_source_terms(r, th, g)[1].value, 1e-13); s.nontrivial(P[1] != 0 && P[2] != 0 && P[3] != 0);
});
PBT_MAIN
