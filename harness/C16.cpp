// C16: Riemann solvers of the three systems of equations.
#include "app_config.hpp"
#include "app_serialize.hpp"
#include "phys.hpp"
#include "physics_euler.hpp"
#include "physics_srhd.hpp"
#include "physics_iso2d.hpp"
#include "srhd_ref.hpp"
#include "iso2d_ref.hpp"
struct euler_ref { L d, u, v, w, p, g; L v2() const { return u * u + v * v + w * w; } L E() const { return d * v2() / 2 + p / (g - 1); } std::array<L, 5> U() const { return {d, d * u, d * v, d * w, E()}; } L vn(const std::array<L, 3>& n) const { return u * n[0] + v * n[1] + w * n[2]; } L cs() const { return std::sqrt(g * p / d); }
    std::array<L, 5> F(const std::array<L, 3>& n) const { auto q = vn(n); return {d * q, d * u * q + p * n[0], d * v * q + p * n[1], d * w * q + p * n[2], (E() + p) * q}; } std::array<L, 2> waves(const std::array<L, 3>& n) const { return {vn(n) - cs(), vn(n) + cs()}; }
    std::array<L, 5> Fscale() const { auto V = std::sqrt(v2()) + cs(); return {d * V, d * V * V + p, d * V * V + p, d * V * V + p, (E() + p) * V}; } std::array<L, 5> Uscale() const { auto V = std::sqrt(v2()) + cs(); return {d, d * V, d * V, d * V, E()}; } L vmax() const { return std::sqrt(v2()) + cs(); } };
using PE = mara::euler::primitive_t;
static PE make_euler(double d, double u, double v, double w, double p) { return PE().with_mass_density(d).with_velocity_1(u).with_velocity_2(v).with_velocity_3(w).with_gas_pressure(p); }
static std::string str(const PE& p) { std::string r = "("; for (int i = 0; i < 5; ++i) r += show(p[i]) + " "; return r + ")"; }

// What the two 5-component systems have in common
struct Euler { using P = PE; static P gen(src& s) { auto d = s.logreal(1e-3, 1e3), p = s.logreal(1e-3, 1e3), c = std::sqrt(p / d); return make_euler(d, s.symmetric(4) * c, s.symmetric(4) * c, s.symmetric(4) * c, p); } static P make(double d, double u, double v, double w, double p) { return make_euler(d, u, v, w, p); }
    static euler_ref ref(const P& p, double g) { return {p[0], p[1], p[2], p[3], p[4], g}; } static auto flux(const P& a, const P& b, const mara::unit_vector_t& n, double g) { return five(mara::euler::riemann_hlle(a, b, n, g)); } static L vmax(const P& p, double g) { return ref(p, g).vmax(); }
    static P boost(const P& p, const mara::unit_vector_t& n, double sgn, double g) { auto R = ref(p, g); double k = sgn * double(R.cs() * 1.5L + std::sqrt(R.v2())); return make(p[0], p[1] + k * n.get_n1(), p[2] + k * n.get_n2(), p[3] + k * n.get_n3(), p[4]); }
    static void physical(const std::array<L, 5>& U, double g) { L e = U[4] - (U[1] * U[1] + U[2] * U[2] + U[3] * U[3]) / U[0] / 2; if (! (U[0] > 0) || ! (e > -1e-12L * U[4])) fail("the intermediate state has density " + show(double(U[0])) + " and internal energy " + show(double(e))); } };
struct Srhd { using P = P5r; static P gen(src& s) { auto d = s.logreal(1e-3, 1e3), p = d * s.logreal(1e-3, 1e2), u = s.logreal(1e-3, 8.0); auto M = gen_rotation(s); auto w = M(u, 0, 0); return make_srhd(d, w[0], w[1], w[2], p); } static P make(double d, double u, double v, double w, double p) { return make_srhd(d, u, v, w, p); }
    static srhd_ref ref(const P& p, double g) { return to_ref(p, g); } static auto flux(const P& a, const P& b, const mara::unit_vector_t& n, double g) { return five(mara::srhd::riemann_hlle(a, b, n, g)); } static L vmax(const P&, double) { return 1; }
    static P boost(const P& p, const mara::unit_vector_t& n, double sgn, double g) { double k = sgn * 12; return make(p[0], k * n.get_n1(), k * n.get_n2(), k * n.get_n3(), p[4]); }
    static void physical(const std::array<L, 5>& U, double g) { L E = U[4] + U[0], S2 = U[1] * U[1] + U[2] * U[2] + U[3] * U[3]; if (! (U[0] > 0) || ! (E * E * (1 + 1e-12L) > U[0] * U[0] + S2)) fail("the intermediate state has density " + show(double(U[0])) + ", energy " + show(double(E)) + " and momentum " + show(double(std::sqrt(S2)))); } };
template<class S> std::array<L, 5> add(const S& a, L x, const S& b, L y) { S r; for (std::size_t i = 0; i < r.size(); ++i) r[i] = a[i] * x + b[i] * y; return r; }

template<class Sys> void hlle_law(src& s)
{
    auto g = gen_gamma(s); auto a = Sys::gen(s), b = s.chance(1, 8) ? a : Sys::gen(s); auto n = gen_nhat(s); auto N = lv(n); if (s.chance(1, 6)) { auto sg = s.coin() ? 1.0 : -1.0; a = Sys::boost(a, n, sg, g); b = Sys::boost(b, n, sg, g); } s.note("left", str(a)); s.note("right", str(b)); s.note("n", show(n.get_n1()) + " " + show(n.get_n2()) + " " + show(n.get_n3())); s.note("gamma", g);
    auto A = Sys::ref(a, g), B = Sys::ref(b, g); auto wa = A.waves(N), wb = B.waves(N); L ap = std::max({L(0), wa[1], wb[1]}), am = std::min({L(0), wa[0], wb[0]}); auto Fa = A.F(N), Fb = B.F(N), Ua = A.U(), Ub = B.U(); std::array<L, 5> want, sc; L vm = std::max(Sys::vmax(a, g), Sys::vmax(b, g)); for (int i = 0; i < 5; ++i) { want[i] = (ap * Fa[i] - am * Fb[i] + ap * am * (Ub[i] - Ua[i])) / (ap - am); sc[i] = A.Fscale()[i] + B.Fscale()[i] + vm * (A.Uscale()[i] + B.Uscale()[i]); } L loss = vm / (ap - am); if (loss > 1e3) discard();
    auto F = Sys::flux(a, b, n, g); near5("flux", F, want, sc, double(1e-12L * (1 + loss)));
    near5("flux between equal states", Sys::flux(a, a, n, g), Fa, sc, double(1e-12L * (1 + loss))); auto rev = Sys::flux(b, a, opposite(n), g); for (auto& x : rev) x = -x; near5("flux seen from the other side", rev, F, sc, double(1e-12L * (1 + loss)));
    if (wa[0] > 0 && wb[0] > 0) { near5("supersonic flow to the right", F, Fa, sc, 1e-12); s.cls("supersonic"); } if (wa[1] < 0 && wb[1] < 0) { near5("supersonic flow to the left", F, Fb, sc, 1e-12); s.cls("supersonic"); }
    if (ap > 0 && am < 0) { std::array<L, 5> m; for (int i = 0; i < 5; ++i) m[i] = (ap * Ub[i] - am * Ua[i] - (Fb[i] - Fa[i])) / (ap - am); Sys::physical(m, g); for (int i = 0; i < 5; ++i) { L l = Fa[i] + am * (m[i] - Ua[i]), r = Fb[i] + ap * (m[i] - Ub[i]); if (std::fabs(l - F[i]) > 1e-11L * (1 + loss) * sc[i] || std::fabs(r - F[i]) > 1e-11L * (1 + loss) * sc[i]) fail("the flux does not satisfy the jump conditions"); } }
    auto M = gen_rotation(s); auto ra = M(a[1], a[2], a[3]), rb = M(b[1], b[2], b[3]); auto RF = Sys::flux(Sys::make(a[0], ra[0], ra[1], ra[2], a[4]), Sys::make(b[0], rb[0], rb[1], rb[2], b[4]), M(n), g); auto w = M(double(F[1]), double(F[2]), double(F[3])); near5("flux in a rotated frame", RF, {F[0], w[0], w[1], w[2], F[4]}, sc, double(1e-11L * (1 + loss))); s.nontrivial(str(a) != str(b));
}
LAW("euler_hlle", 300000, "two different states", [] (src& s) { hlle_law<Euler>(s); });
LAW("srhd_hlle", 300000, "two different states", [] (src& s) { hlle_law<Srhd>(s); });

using F3 = std::array<L, 3>;
struct pair { P3 a, b; double ca, cb; mara::unit_vector_t n; iso_ref A, B; F3 sc; L vm; };
static pair gen_pair(src& s, double mach, double ratio)
{
    pair p; p.ca = s.logreal(0.01, 10); p.cb = s.coin() ? p.ca : p.ca * s.logreal(1 / ratio, ratio); auto c = std::sqrt(std::max(p.ca, p.cb)); auto d = s.logreal(1e-3, 1e3); p.a = make_iso(d, s.symmetric(mach) * c, s.symmetric(mach) * c); p.b = make_iso(d * s.logreal(1 / ratio, ratio), s.symmetric(mach) * c, s.symmetric(mach) * c); p.n = gen_nhat(s, true);
    if (s.chance(1, 6)) { auto k = (s.coin() ? 1 : -1) * (mach * 2 + 2) * c; for (auto q : {&p.a, &p.b}) *q = make_iso((*q)[0], (*q)[1] + k * p.n.get_n1(), (*q)[2] + k * p.n.get_n2()); }
    if (s.chance(1, 8)) { p.b = p.a; p.cb = p.ca; } p.A = to_ref(p.a, p.ca); p.B = to_ref(p.b, p.cb); p.vm = std::max(p.A.v() + p.A.c(), p.B.v() + p.B.c()); for (int i = 0; i < 3; ++i) p.sc[i] = p.A.Fscale()[i] + p.B.Fscale()[i] + p.vm * (p.A.Uscale()[i] + p.B.Uscale()[i]); s.note("left", str(p.a)); s.note("right", str(p.b)); s.note("c2", show(p.ca) + " " + show(p.cb)); s.note("n", show(p.n.get_n1()) + " " + show(p.n.get_n2())); return p;
}
template<typename Fn> void common(src& s, const pair& p, F3 F, Fn flux, double tol, bool slow_upwind)
{
    auto N = lv(p.n); near3("flux between equal states", flux(p.a, p.a, p.ca, p.ca, p.n), p.A.F(N), p.sc, tol); auto rev = flux(p.b, p.a, p.cb, p.ca, opposite(p.n)); for (auto& x : rev) x = -x; near3("flux seen from the other side", rev, F, p.sc, tol);
    auto M = gen_rotation(s, true); auto ra = M(p.a[1], p.a[2], 0), rb = M(p.b[1], p.b[2], 0); auto R = flux(make_iso(p.a[0], ra[0], ra[1]), make_iso(p.b[0], rb[0], rb[1]), p.ca, p.cb, M(p.n)); auto w = M(double(F[1]), double(F[2]), 0); near3("flux in a rotated frame", R, {F[0], w[0], w[1]}, p.sc, tol * 10); if (slow_upwind) s.cls("supersonic");
}
LAW("iso2d_hlle", 300000, "two different states", [] (src& s)
{
    auto p = gen_pair(s, 4, 100); auto N = lv(p.n); L ap = std::max({L(0), p.A.vn(N) + p.A.c(), p.B.vn(N) + p.B.c()}), am = std::min({L(0), p.A.vn(N) - p.A.c(), p.B.vn(N) - p.B.c()}); if (p.vm > 1e3 * (ap - am)) discard(); F3 want; for (int i = 0; i < 3; ++i) want[i] = (ap * p.A.F(N)[i] - am * p.B.F(N)[i] + ap * am * (p.B.U()[i] - p.A.U()[i])) / (ap - am);
    auto flux = [] (P3 a, P3 b, double ca, double cb, mara::unit_vector_t n) { return three(mara::iso2d::riemann_hlle(a, b, ca, cb, n)); }; auto F = flux(p.a, p.b, p.ca, p.cb, p.n); near3("flux", F, want, p.sc, 1e-9); if (am == 0) near3("supersonic flow to the right", F, p.A.F(N), p.sc, 1e-9); if (ap == 0) near3("supersonic flow to the left", F, p.B.F(N), p.sc, 1e-9); common(s, p, F, flux, 1e-9, am == 0 || ap == 0); s.nontrivial(str(p.a) != str(p.b));
});

// Toro, section 10.6, with the adaptive wave speeds of isothermal flow
struct toro { L sl, sr, ss; F3 Uls, Urs, Fl, Fr; };
static toro solve(const pair& p)
{
    auto N = lv(p.n); L ul = p.A.vn(N), ur = p.B.vn(N), al = p.A.c(), ar = p.B.c(), pl = p.A.p(), pr = p.B.p(); L ps = std::max(L(0), (pl + pr) / 2 - (ur - ul) / 2 * (p.A.s + p.B.s) / 2 * (al + ar) / 2); L ql = ps > pl ? std::sqrt(ps / pl) : L(1), qr = ps > pr ? std::sqrt(ps / pr) : L(1); toro t; t.sl = ul - al * ql; t.sr = ur + ar * qr; L ml = p.A.s * (t.sl - ul), mr = p.B.s * (t.sr - ur); t.ss = (pr - pl + ul * ml - ur * mr) / (ml - mr);
    auto star = [&] (const iso_ref& q, L u, L sk) { L k = q.s * (sk - u) / (sk - t.ss); L px = q.x - u * N[0], py = q.y - u * N[1]; return F3{k, k * (t.ss * N[0] + px), k * (t.ss * N[1] + py)}; }; t.Uls = star(p.A, ul, t.sl); t.Urs = star(p.B, ur, t.sr); t.Fl = p.A.F(N); t.Fr = p.B.F(N); return t;
}
LAW("iso2d_hllc", 300000, "two different states", [] (src& s)
{
    auto p = gen_pair(s, 3, 10); auto t = solve(p); auto Ul = p.A.U(), Ur = p.B.U(); L small = 1e-3L * p.vm; if (t.ss - t.sl < small || t.sr - t.ss < small) discard();
    F3 want, U; for (int i = 0; i < 3; ++i) { want[i] = t.sl >= 0 ? t.Fl[i] : t.ss >= 0 ? t.Fl[i] + t.sl * (t.Uls[i] - Ul[i]) : t.sr >= 0 ? t.Fr[i] + t.sr * (t.Urs[i] - Ur[i]) : t.Fr[i]; U[i] = t.sl >= 0 ? Ul[i] : t.ss >= 0 ? t.Uls[i] : t.sr >= 0 ? t.Urs[i] : Ur[i]; }
    auto flux = [] (P3 a, P3 b, double ca, double cb, mara::unit_vector_t n) { return three(mara::iso2d::riemann_hllc(a, b, ca, cb, n)); }; auto F = flux(p.a, p.b, p.ca, p.cb, p.n); near3("flux", F, want, p.sc, 1e-9); auto v = mara::iso2d::compute_hllc_variables(p.a, p.b, p.ca, p.cb, p.n); expect_close("contact speed", v.contact_speed(), double(t.ss), 0, double(1e-10 * p.vm)); near3("flux of the variables", three(v.interface_flux()), F, p.sc, 1e-13);
    if (std::min({std::fabs(t.sl), std::fabs(t.ss), std::fabs(t.sr)}) > 1e-6L * p.vm) { F3 us; for (int i = 0; i < 3; ++i) us[i] = p.A.Uscale()[i] + p.B.Uscale()[i] + std::fabs(U[i]); near3("state at the interface", three(v.interface_conserved_state()), U, us, 1e-9); }
    if (! (U[0] > 0)) fail("negative density at the interface"); if (! (mara::get<0>(v.interface_conserved_state()).value > 0)) fail("negative density at the interface");
    // the three waves carry all the difference between the two fluxes
    { auto ls = three(v.Ul_star()), rs = three(v.Ur_star()); for (int i = 0; i < 3; ++i) { L a = t.Fl[i] + t.sl * (ls[i] - Ul[i]), b = t.Fr[i] + t.sr * (rs[i] - Ur[i]); if (std::fabs(a + t.ss * (rs[i] - ls[i]) - b) > 1e-8L * p.sc[i] * (1 + p.vm / std::min(t.ss - t.sl, t.sr - t.ss))) fail("the star states do not satisfy the jump condition at the contact"); } }
    common(s, p, F, flux, 1e-9, t.sl >= 0 || t.sr <= 0); s.cls("contact to the left", t.ss < 0); s.nontrivial(str(p.a) != str(p.b));
});
LAW("iso2d_contacts", 200000, "the density or the shear jumps", [] (src& s)
{
    auto n = gen_nhat(s, true); auto c2 = s.logreal(0.01, 10), d = s.logreal(1e-3, 1e3), k = s.logreal(0.05, 20), c = std::sqrt(c2), u = s.symmetric(0.9) * c * std::min(1.0, std::sqrt(1 / k)); double ta = s.symmetric(3) * c, tb = s.coin() ? ta : s.symmetric(3) * c; double n1 = n.get_n1(), n2 = n.get_n2(); auto a = make_iso(d, u * n1 - ta * n2, u * n2 + ta * n1), b = make_iso(d * k, u * n1 - tb * n2, u * n2 + tb * n1); double cb = c2 / k; s.note("left", str(a)); s.note("right", str(b)); s.note("c2", show(c2) + " " + show(cb));
    auto A = to_ref(a, c2), B = to_ref(b, cb); auto N = lv(n); auto F = three(mara::iso2d::riemann_hllc(a, b, c2, cb, n)); F3 sc; for (int i = 0; i < 3; ++i) sc[i] = A.Fscale()[i] + B.Fscale()[i]; if (std::fabs(u) < 1e-9 * c) { near3("a contact at rest exchanges only pressure", F, {0, A.p() * N[0], A.p() * N[1]}, sc, 1e-8); } else near3("a moving contact", F, u > 0 ? A.F(N) : B.F(N), sc, 1e-9); s.nontrivial(k != 1 || ta != tb); s.cls("at rest", u == 0);
});
PBT_MAIN
