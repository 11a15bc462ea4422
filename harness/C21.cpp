// C21: the atmosphere, cloud-and-envelop and jet models.
#include "phys.hpp"
#include "model_atmosphere.hpp"
#include "model_jet_nozzle.hpp"
static const L PI = 3.14159265358979323846264338327950288L;
template<typename F> static L quad(F f, L a, L b, int n=400) { L h = (b - a) / n, s = f(a) + f(b); for (int i = 1; i < n; ++i) s += f(a + h * i) * (i % 2 ? 4 : 2); return s * h / 3; }   // Simpson

LAW("power_law_atmosphere", 10000, "both indexes differ from the defaults", [] (src& s)
{
    mara::power_law_atmosphere_model m; double f0 = s.logreal(1e-3, 1e3), r0 = s.logreal(1e-2, 1e2), rc = r0 * s.logreal(1.1, 1e3), n1 = s.chance(1, 4) ? 3.0 : s.coin() ? double(s.integer(0, 5)) : s.real(-1, 5), n2 = s.coin() ? double(s.integer(4, 8)) : s.real(3.2, 8); if (n1 != 3 && std::fabs(n1 - 3) < 1e-3) discard(); auto M = m.with_coefficient(f0).with_inner_radius(r0).with_cutoff_radius(rc).with_inner_index(n1).with_outer_index(n2); s.note("f0", f0); s.note("r0", r0); s.note("rc", rc); s.note("n1", n1); s.note("n2", n2);
    auto rho = [&] (L r) { return r <= rc ? f0 * std::pow(r / r0, -L(n1)) : f0 * std::pow(L(rc) / r0, -L(n1)) * std::pow(r / rc, -L(n2)); }; for (int i = 0; i < 4; ++i) { auto r = r0 * s.logreal(0.1, 1e5); expect_close("density", M.density_at(r), double(rho(r)), 1e-11); } expect_close("density at the inner radius", M.density_at(r0), f0, 1e-13); expect_close("continuity at the cutoff", M.density_at(rc * (1 + 1e-10)), M.density_at(rc), 1e-8);
    L in = quad([&] (L x) { L r = std::exp(x); return 4 * PI * r * r * r * rho(r); }, std::log(L(r0)), std::log(L(rc))), out = quad([&] (L x) { L r = std::exp(x); return 4 * PI * r * r * r * rho(std::max(r, rc * (1 + 1e-15L))); }, std::log(L(rc)), std::log(L(rc)) + 45 / (L(n2) - 3), 800); double k = 1e-6 + 1e-12 / std::fabs(n1 == 3 ? 1 : n1 - 3);
    expect_close("mass within the cutoff", M.mass_within_cutoff(), double(in), k); expect_close("mass beyond the cutoff", M.mass_beyond_cutoff(), double(out), 1e-6); expect_close("total mass", M.total_mass(), double(in + out), k);
    auto want = s.logreal(1e-5, 1e5); auto W = M.with_total_mass(want); expect_close("the requested total mass", W.total_mass(), want, 1e-10); auto r = r0 * s.logreal(0.5, 100); expect_close("the profile keeps its shape", W.density_at(r) / M.density_at(r), W.density_at(r0) / M.density_at(r0), 1e-11); expect_eq("inner radius", W.r0, r0); expect_eq("cutoff", W.rc, rc);
    auto flat = M.with_outer_index(s.real(0, 3)); if (! throws_a<std::invalid_argument>([&] { (void) flat.mass_beyond_cutoff(); }) || ! throws_a<std::invalid_argument>([&] { (void) flat.total_mass(); })) fail("an infinite mass is computed"); expect_eq("the original is unchanged", M.n2, n2); s.nontrivial(n1 != 2 && n2 != 6); s.cls("n1=3", n1 == 3);
});

LAW_OPT("cloud_and_envelop", 20000, "not the default envelop", 5, false, [] (src& s)
{
    mara::cloud_and_envelop_model m; m.u1 = s.coin() ? 4.0 : s.real(1, 20); m.psi = s.coin() ? 0.25 : s.real(0.1, 0.5); m.envelop_mass = s.coin() ? m.envelop_mass : m.m1 * s.logreal(10, 1e6); m.inner_radius = s.logreal(1e7, 1e9); m.cloud_index = s.chance(1, 4) ? 3.0 : s.chance(1, 3) ? s.real(3.1, 6) : s.real(0, 2.9); m = m.with_inner_radius(m.inner_radius).with_cloud_index(m.cloud_index); double c = m.light_speed, t = s.logreal(0.1, 100), x = s.real(0, 1), mm = m.m1 * std::pow(m.envelop_mass / m.m1, x); s.note("u1", m.u1); s.note("psi", m.psi); s.note("envelop/m1", m.envelop_mass / m.m1); s.note("m/m1", mm / m.m1); s.note("t", t); s.note("n", m.cloud_index);
    L u = m.u1 * std::pow(L(mm) / m.m1, -L(m.psi)), b = u / std::sqrt(1 + u * u); expect_close("four-velocity", m.gamma_beta(mm), double(u), 1e-11); expect_close("velocity", m.velocity(mm), double(b * c), 1e-11); expect_close("slope", m.dudm(mm), double(-m.psi * u / mm), 1e-11); expect_close("radius", m.radius(mm, t), double(b * c * t), 1e-11); if (! (m.velocity(mm) < c)) fail("superluminal");
    expect_close("cloud four-velocity", m.cloud_gamma_beta(), m.gamma_beta(m.envelop_mass), 1e-8); expect_close("cloud velocity", m.cloud_velocity(), m.velocity(m.envelop_mass), 1e-13); expect_close("cloud boundary", m.cloud_outer_boundary(t), m.radius(m.envelop_mass, t), 1e-13); expect_close("envelop boundary", m.envelop_outer_boundary(t), m.radius(m.m1, t), 1e-13);
    double rc = m.cloud_outer_boundary(t), r1 = m.envelop_outer_boundary(t), r = m.radius(mm, t); if (r > rc * (1 + 1e-9) && r < r1 * (1 - 1e-9)) { expect_close("mass coordinate", m.mass_coordinate(r, t), mm, 1e-6); expect_close("density in the envelop", m.density_at(r, t), m.density(mm, t), 1e-6); expect_close("four-velocity in the envelop", m.gamma_beta_at(r, t), double(u), 1e-7); expect_close("velocity in the envelop", m.velocity_at(r, t), double(b * c), 1e-7); }
    // the mass between two shells is what the density says it is
    { double ma = m.m1 * std::pow(m.envelop_mass / m.m1, x * 0.5), mb = m.m1 * std::pow(m.envelop_mass / m.m1, 0.5 + x * 0.5); if (mb > ma * 1.5) { L mass = quad([&] (L y) { double q = double(std::exp(y)); L uu = m.u1 * std::pow(L(q) / m.m1, -L(m.psi)), g = std::sqrt(1 + uu * uu), R = uu / g * c * t, dr = c * t / (g * g * g) * m.psi * uu / q; return 4 * PI * R * R * g * m.density(q, t) * dr * q; }, std::log(L(ma)), std::log(L(mb))); expect_close("mass between two shells", double(mass), mb - ma, 1e-6); } }
    double ri = rc * s.real(0.05, 0.999); expect_close("cloud profile", m.density_at(ri, t), m.density_at(rc * (1 + 1e-12), t) * std::pow(ri / rc, -m.cloud_index), 1e-5); expect_close("cloud moves as one", m.gamma_beta_at(ri, t), m.cloud_gamma_beta(), 1e-12); expect_close("power law cloud", m.power_law_cloud(ri, t), m.density_at(ri, t), 1e-12); double ro = r1 * s.real(1.001, 10); expect_close("wind beyond the envelop", m.density_at(ro, t) * ro * ro, m.density(m.m1, t) * r1 * r1, 1e-6); expect_close("velocity beyond the envelop", m.gamma_beta_at(ro, t), m.u1, 1e-7);
    if (m.inner_radius < rc) { L n = m.cloud_index, d = m.density(m.envelop_mass, t); L mc = 4 * PI * quad([&] (L y) { L R = std::exp(y); return R * R * R * d * std::pow(R / rc, -n); }, std::log(L(m.inner_radius)), std::log(L(rc))); expect_close("cloud mass", m.cloud_mass(t), double(mc), 1e-5 + 1e-10 / std::fabs(n == 3 ? 1 : n - 3)); expect_close("total mass", m.total_mass(t), double(mc + m.envelop_mass), 1e-5 + 1e-10 / std::fabs(n == 3 ? double(1) : double(n - 3))); } s.nontrivial(m.u1 != 4 || m.psi != 0.25); s.cls("n=3", m.cloud_index == 3);
});

LAW("jet_nozzle", 20000, "off axis and late", [] (src& s)
{
    double E = s.logreal(1e48, 1e53), G = s.real(2, 100), tj = s.logreal(0.01, 100), qj = s.real(0.01, 0.15), as = s.coin() ? 2.0 : s.coin() ? s.real(1, 6) : s.real(0.3, 1), r0 = s.logreal(1e7, 1e10), q = s.coin() ? s.real(0, M_PI) : s.real(0, 1) * std::min(3.0, std::pow(100.0, 1 / as)) * qj, t = s.chance(1, 4) ? s.logreal(5, 500) * tj : s.real(0, 5) * tj; bool tail = std::pow(q / qj, as) + t / tj > 500; auto J = mara::jet_nozzle_model().with_total_energy(E).with_lorentz_factor(G).with_jet_duration(tj).with_opening_angle(qj).with_structure_exponent(as).with_inner_radius(r0); s.note("G", G); s.note("tj", tj); s.note("qj", qj); s.note("as", as); s.note("q/qj", q / qj); s.note("t/tj", t / tj); L c = J.light_speed_cgs; double amp = 1 + std::pow(q / qj, as) + t / tj;
    auto prof = [&] (L q, L t) { return std::exp(-std::pow(q / qj, L(as))) * std::exp(-t / tj); }; L d = J.density_at_base(); expect_close("luminosity", J.luminosity_per_steradian(q, t), double(d * G * G * r0 * r0 * c * c * c * prof(q, t)), 1e-11 * amp, tail ? 1e-150 : 0); expect_close("four-velocity", J.gamma_beta(q, t), double(G * std::sqrt(prof(q, t))), 1e-11 * amp, tail ? 1e-100 : 0); if (! tail) expect_close("energy flux goes with the four-velocity squared", J.luminosity_per_steradian(q, t) / J.luminosity_per_steradian(0, 0), std::pow(J.gamma_beta(q, t) / J.gamma_beta(0, 0), 2), 1e-10 * amp); expect_close("four-velocity on axis", J.gamma_beta(0, 0), G, 1e-13);
    if (as == 2.0) { L lum = quad([&] (L q) { return 2 * PI * std::sin(q) * L(J.luminosity_per_steradian(double(q), 0)); }, 0, 8 * L(qj)); expect_close("energy of both jets", double(2 * lum * tj), E, 0.01); } s.nontrivial(q > 0 && t > 0);
});
PBT_MAIN
