// C18: the two-dimensional isothermal equations: states, fluxes, and their angular-momentum form.
#include "phys.hpp"
#include "physics_iso2d.hpp"
#include "iso2d_ref.hpp"
static P3 gen(src& s, double& c2) { c2 = s.logreal(1e-6, 1e4); auto c = std::sqrt(c2); auto m = s.coin() ? 2.0 : 30.0; return make_iso(s.logreal(1e-10, 1e6), s.symmetric(m) * c, s.symmetric(m) * c); }
static mara::iso2d::location_2d_t place(src& s) { auto r = s.logreal(1e-3, 1e3), a = s.coin() ? s.pick({0., 0.25, 0.5, 0.75, 1.}) * 2 * M_PI : s.real(0, 2 * M_PI); return {{mara::make_length(r * std::cos(a)), mara::make_length(r * std::sin(a))}}; }

LAW("states_and_fluxes", 300000, "a moving state", [] (src& s)
{
    double c2; auto P = gen(s, c2); auto R = to_ref(P, c2); auto n = gen_nhat(s, true); auto N = lv(n); s.note("P", str(P)); s.note("c2", c2); s.note("n", show(n.get_n1()) + " " + show(n.get_n2())); double V = double(R.v() + R.c());
    expect_eq("components", std::vector<double>{P[0], P[1], P[2]}, std::vector<double>{P.sigma(), P.velocity_x(), P.velocity_y()}); auto U = P.to_conserved_per_area(); near3("conserved", three(U), R.U(), R.Uscale(), 1e-14); auto F = P.flux(n, c2); near3("flux", three(F), R.F(N), R.Fscale(), 1e-13);
    auto Q = mara::iso2d::recover_primitive(U); expect_eq("density", Q[0], P[0]); expect_close("vx", Q[1], P[1], 1e-14); expect_close("vy", Q[2], P[2], 1e-14);
    expect_close("pressure", P.gas_pressure(c2), double(R.p()), 1e-14); expect_close("speed squared", P.velocity_squared(), double(R.v() * R.v()), 1e-13, 0); expect_close("speed", P.velocity_magnitude().value, double(R.v()), 1e-13, 0); expect_close("normal velocity", P.velocity_along(n), double(R.vn(N)), 0, 1e-14 * V); auto v3 = P.velocity(); expect_eq("velocity", std::vector<double>{v3[0], v3[1], v3[2]}, std::vector<double>{P[1], P[2], 0.0});
    auto A = P.wavespeeds(n, c2); expect_close("slow wave", A.m.value, double(R.vn(N) - R.c()), 0, 1e-14 * V); expect_close("fast wave", A.p.value, double(R.vn(N) + R.c()), 0, 1e-14 * V); expect_close("largest wave speed", P.max_wavespeed(c2), double(std::max(std::fabs(R.x), std::fabs(R.y)) + R.c()), 1e-13);
    auto M = gen_rotation(s, true); auto w = M(P[1], P[2], 0); auto f = three(F); auto rf = M(double(f[1]), double(f[2]), 0); near3("flux in a rotated frame", three(make_iso(P[0], w[0], w[1]).flux(M(n), c2)), {f[0], rf[0], rf[1]}, R.Fscale(), 1e-12);
    { auto neg = mara::iso2d::conserved_per_area_t{{-mara::get<0>(U).value * s.logreal(1e-3, 10), mara::get<1>(U).value, mara::get<2>(U).value}}; if (s.chance(1, 20)) { if (! throws_a<std::invalid_argument>([&] { (void) mara::iso2d::recover_primitive(neg); })) fail("a negative density is accepted"); } }
    s.nontrivial(R.v() > 0); s.cls("supersonic", std::fabs(R.vn(N)) > R.c());
});

LAW("angular_momentum_form", 300000, "a moving state off the axes", [] (src& s)
{
    double c2; auto P = gen(s, c2); auto R = to_ref(P, c2); auto X = place(s); L x = X[0].value, y = X[1].value, r = std::sqrt(x * x + y * y); s.note("P", str(P)); s.note("x", double(x)); s.note("y", double(y)); double V = double(R.v() + R.c());
    auto Q = P.to_conserved_angmom_per_area(X); L sr = R.s * (x * R.x + y * R.y), lz = R.s * (x * R.y - y * R.x); L k = R.s * r * (R.v() + R.c()); near3("mass, radial and angular momentum", three(Q), {R.s, sr, lz}, {R.s, k, k}, 1e-13);
    auto B = mara::iso2d::recover_primitive(Q, X); expect_eq("density", B[0], P[0]); expect_close("vx", B[1], P[1], 0, 1e-13 * V); expect_close("vy", B[2], P[2], 0, 1e-13 * V); auto U = mara::iso2d::to_conserved_per_area(Q, X); near3("back to linear momentum", three(U), R.U(), R.Uscale(), 1e-13);
    auto Ul = P.to_conserved_per_area(); expect_close("angular momentum", mara::iso2d::angular_momentum(Ul, X).value, double(lz), 0, double(1e-13 * k)); auto mv = mara::iso2d::momentum_vector(Ul); expect_close("px", mv[0].value, double(R.s * R.x), 1e-13); expect_close("py", mv[1].value, double(R.s * R.y), 1e-13);
    auto n = gen_nhat(s, true); auto N = lv(n); auto G = mara::iso2d::to_conserved_angmom_flux(P.flux(n, c2), X); auto F = R.F(N); auto fs = R.Fscale(); near3("flux of angular momentum", three(G), {F[0], x * F[1] + y * F[2], x * F[2] - y * F[1]}, {fs[0], r * fs[1], r * fs[1]}, 1e-13);
    // the source terms make a uniform flow steady: they are the divergence of the uniform flow's fluxes
    auto Fx = R.F({1, 0, 0}), Fy = R.F({0, 1, 0}); auto S = P.source_terms_conserved_angmom(c2); near3("source terms", three(S), {0, Fx[1] + Fy[2], Fx[2] - Fy[1]}, {fs[0], fs[1], fs[1]}, 1e-13);
    if (s.chance(1, 20)) { auto neg = mara::iso2d::conserved_angmom_per_area_t{{-mara::get<0>(Q).value, mara::get<1>(Q).value, mara::get<2>(Q).value}}; if (! throws_a<std::invalid_argument>([&] { (void) mara::iso2d::recover_primitive(neg, X); })) fail("a negative density is accepted"); }
    s.nontrivial(R.v() > 0 && x != 0 && y != 0);
});

LAW("roe_average", 200000, "different states", [] (src& s)
{
    double c2; auto a = gen(s, c2), b = gen(s, c2); s.note("a", str(a)); s.note("b", str(b)); auto q = mara::iso2d::roe_average(a, b), q2 = mara::iso2d::roe_average(b, a), qq = mara::iso2d::roe_average(a, a); L ka = std::sqrt(L(a[0])), kb = std::sqrt(L(b[0]));
    for (int i = 0; i < 3; ++i) { auto m = std::max(std::fabs(a[i]), std::fabs(b[i])); expect_close("symmetry", q[i], q2[i], 1e-13, 1e-14 * m); expect_close("average", q[i], double((ka * a[i] + kb * b[i]) / (ka + kb)), 1e-12, 1e-14 * m); expect_close("idempotence", qq[i], a[i], 1e-13); } s.nontrivial(str(a) != str(b));
});
PBT_MAIN
