// C20: two bodies on a Kepler orbit.
#include "phys.hpp"
#include "model_two_body.hpp"
using namespace mara;
static orbital_elements_t gen(src& s, double emax=0.95) { orbital_elements_t p; p.separation = s.coin() ? 1.0 : s.logreal(1e-2, 1e2); p.total_mass = s.coin() ? 1.0 : s.logreal(1e-2, 1e2); p.mass_ratio = s.coin() ? 1.0 : s.logreal(1e-2, 1e2); p.eccentricity = s.chance(1, 4) ? 0.0 : s.chance(1, 6) ? s.logreal(1e-12, 0.02) : s.real(0.02, emax); s.note("a", p.separation); s.note("M", p.total_mass); s.note("q", p.mass_ratio); s.note("e", p.eccentricity); return p; }
struct rel { L x, y, vx, vy, r; };
static rel relative(const two_body_state_t& s) { rel r{L(s.body1.position_x) - s.body2.position_x, L(s.body1.position_y) - s.body2.position_y, L(s.body1.velocity_x) - s.body2.velocity_x, L(s.body1.velocity_y) - s.body2.velocity_y, 0}; r.r = std::sqrt(r.x * r.x + r.y * r.y); return r; }
static const L PI = 3.14159265358979323846264338327950288L;
static L period(const orbital_elements_t& p) { return 2 * PI * std::sqrt(L(p.separation) * p.separation * p.separation / p.total_mass); }
static L kepler(L M, L e) { M = std::fmod(M, 2 * PI); if (M < 0) M += 2 * PI; L lo = 0, hi = 2 * PI; for (int i = 0; i < 200; ++i) { L m = (lo + hi) / 2; (m - e * std::sin(m) < M ? lo : hi) = m; } return (lo + hi) / 2; }
static void same(const std::string& what, const two_body_state_t& a, const two_body_state_t& b, double x, double v, double tol) { auto one = [&] (const point_mass_t& a, const point_mass_t& b) { expect_close(what + ": mass", a.mass, b.mass, std::max(tol, 1e-12)); expect_close(what + ": x", a.position_x, b.position_x, 0, tol * x); expect_close(what + ": y", a.position_y, b.position_y, 0, tol * x); expect_close(what + ": vx", a.velocity_x, b.velocity_x, 0, tol * v); expect_close(what + ": vy", a.velocity_y, b.velocity_y, 0, tol * v); }; one(a.body1, b.body1); one(a.body2, b.body2); }
static double angle(double x, double P=2 * M_PI) { x = std::fmod(x, P); if (x > P / 2) x -= P; if (x < -P / 2) x += P; return x; }

LAW_OPT("orbit", 60000, "an eccentric orbit, not at periapse", 5, false, [] (src& s)
{
    auto p = gen(s, 0.99); L P = period(p), a = p.separation, M = p.total_mass, q = p.mass_ratio, e = p.eccentricity, w = 2 * PI / P; L ph = s.coin() ? s.real(0, 1) : s.chance(1, 8) ? s.symmetric(2000) : s.symmetric(5); double t = double(ph * P); s.note("t/P", double(ph)); ph = t / P; auto S = compute_two_body_state(p, t); auto r = relative(S); L E = kepler(2 * PI * ph, e), vs = w * a / (1 - e); L tol = 1e-9L / (1 - e) / (1 - e) + 1e-14L * std::fabs(ph) / (1 - e) / (1 - e);
    expect_close("mass", S.body1.mass + S.body2.mass, p.total_mass, 1e-13); expect_close("mass ratio", S.body2.mass / S.body1.mass, p.mass_ratio, 1e-12); L m1 = S.body1.mass, m2 = S.body2.mass;
    for (L z : {(m1 * S.body1.position_x + m2 * S.body2.position_x) / M / a, (m1 * S.body1.position_y + m2 * S.body2.position_y) / M / a, (m1 * S.body1.velocity_x + m2 * S.body2.velocity_x) / M / vs, (m1 * S.body1.velocity_y + m2 * S.body2.velocity_y) / M / vs}) if (std::fabs(z) > 1e-12) fail("the centre of mass is not at rest at the origin");
    L b = std::sqrt(1 - e * e), c = std::cos(E), sn = std::sin(E); auto near = [&] (const char* what, L got, L want, L sc) { if (std::fabs(got - want) > tol * sc) fail(std::string(what) + ": got " + show(double(got)) + ", want " + show(double(want))); };
    near("x", r.x, a * (c - e), a); near("y", r.y, a * b * sn, a); near("vx", r.vx, -a * w * sn / (1 - e * c), vs / (1 - e)); near("vy", r.vy, a * w * b * c / (1 - e * c), vs / (1 - e)); if (r.r < a * (1 - e) * (1 - 1e-9L) || r.r > a * (1 + e) * (1 + 1e-9L)) fail("outside the apsides");
    L mu = m1 * m2 / M, En = mu * (r.vx * r.vx + r.vy * r.vy) / 2 - m1 * m2 / r.r, J = mu * (r.x * r.vy - r.y * r.vx); L amp = 1e-10L / (1 - e) / (1 - e); if (std::fabs(En / (-m1 * m2 / 2 / a) - 1) > amp) fail("energy " + show(double(En))); if (std::fabs(J / (mu * std::sqrt(M * a * (1 - e * e))) - 1) > amp) fail("angular momentum " + show(double(J)));
    expect_close("orbital energy", orbital_energy(p), double(-m1 * m2 / 2 / a), 1e-12); expect_close("orbital period", orbital_period(p), double(P), 1e-12); expect_close("orbital angular momentum", orbital_angular_momentum(p), double(mu * std::sqrt(M * a * (1 - e * e))), 1e-9 / double(1 - e)); expect_close("total energy", total_energy(S), double(En), 1e-9 / double(1 - e) / double(1 - e)); expect_close("total mass", total_mass(S), p.total_mass, 1e-13); expect_close("separation", separation(S), double(r.r), 1e-12 / double(1 - e));
    auto R = compute_two_body_state(p, -t); auto rr = relative(R); near("time reversal", rr.x, r.x, a); near("time reversal", rr.y, -r.y, a); near("time reversal", rr.vx, -r.vx, vs / (1 - e)); near("time reversal", rr.vy, r.vy, vs / (1 - e));
    s.nontrivial(e > 0 && ph != 0); s.cls("circular", e == 0); s.cls("very eccentric", e > 0.8); (void) q;
});

static full_orbital_elements_t gen_full(src& s, double emax) { full_orbital_elements_t f; f.elements = gen(s, emax); double P = double(period(f.elements)), a = f.elements.separation, v = a / P; f.pomega = s.coin() ? 0.0 : s.symmetric(M_PI); f.tau = s.coin() ? 0.0 : s.symmetric(1.5) * P; f.cm_position_x = s.coin() ? 0.0 : s.symmetric(3) * a; f.cm_position_y = s.coin() ? 0.0 : s.symmetric(3) * a; f.cm_velocity_x = s.coin() ? 0.0 : s.symmetric(3) * v; f.cm_velocity_y = s.coin() ? 0.0 : s.symmetric(3) * v; s.note("pomega", f.pomega); s.note("tau", f.tau); return f; }
static void add(std::vector<double>& r, const full_orbital_elements_t& f) { r = {f.pomega, f.tau, f.cm_position_x, f.cm_position_y, f.cm_velocity_x, f.cm_velocity_y, f.elements.separation, f.elements.total_mass, f.elements.mass_ratio, f.elements.eccentricity}; }
static std::vector<double> list(const full_orbital_elements_t& f) { std::vector<double> r; add(r, f); return r; }

LAW_OPT("elements", 60000, "an eccentric, moving, tilted orbit", 5, false, [] (src& s)
{
    auto f = gen_full(s, 0.9); auto p = f.elements; double P = double(period(p)), a = p.separation, t = s.symmetric(2) * P, e = p.eccentricity, v = 2 * M_PI * a / P / (1 - e), amp = std::max(p.mass_ratio, 1 / p.mass_ratio); s.note("t", t); auto S = compute_two_body_state(f, t);
    // the orbit in its own frame, rotated by the argument of periapse and carried along with the centre of mass
    auto O = compute_two_body_state(p, t - f.tau); double c = std::cos(f.pomega), n = std::sin(f.pomega); auto place = [&] (point_mass_t b) { return point_mass_t{b.mass, c * b.position_x - n * b.position_y + f.cm_position_x, n * b.position_x + c * b.position_y + f.cm_position_y, c * b.velocity_x - n * b.velocity_y + f.cm_velocity_x, n * b.velocity_x + c * b.velocity_y + f.cm_velocity_y}; }; same("placed orbit", S, {place(O.body1), place(O.body2)}, a, v, 1e-8 / (1 - e) / (1 - e));
    auto g = compute_orbital_elements(S, t); auto d = g.elements; double k = 1e-7 * amp; expect_close("separation", d.separation, a, k); expect_close("mass", d.total_mass, p.total_mass, 1e-11); expect_close("mass ratio", d.mass_ratio, p.mass_ratio, 1e-11); expect_close("eccentricity", d.eccentricity, e, 0, e < 0.02 ? 1e-3 * std::sqrt(amp) : 1e-5 * amp); expect_close("cm x", g.cm_position_x, f.cm_position_x, 0, 1e-9 * a); expect_close("cm y", g.cm_position_y, f.cm_position_y, 0, 1e-9 * a); expect_close("cm vx", g.cm_velocity_x, f.cm_velocity_x, 0, 1e-9 * v); expect_close("cm vy", g.cm_velocity_y, f.cm_velocity_y, 0, 1e-9 * v);
    if (e > 0) { expect_close("argument of periapse", angle(g.pomega - f.pomega), 0.0, 0, 1e-4 * amp / e); expect_close("time of periapse", angle(g.tau - f.tau, P), 0.0, 0, 1e-4 * amp * P / e); }
    // the recovered elements describe the same orbit, at the time it was seen and later
    same("recovered orbit", compute_two_body_state(g, t), S, a, v, 1e-4 * amp / (1 - e)); auto t2 = t + s.real(0, 1) * P; same("recovered orbit, later", compute_two_body_state(g, t2), compute_two_body_state(f, t2), a, v, 1e-3 * amp / (1 - e));
    // many periods later, or when the periapse passage is many periods ahead
    { auto n = double(s.integer(10, 5000)), F = t + n * P; auto M = mean_anomaly(f, F); expect_close("mean anomaly, much later", angle(M - 2 * M_PI * (F - f.tau) / P), 0.0, 0, 1e-8); auto h = f; h.tau += n * P; expect_close("mean anomaly, long before", angle(mean_anomaly(h, t) - 2 * M_PI * (t - f.tau) / P), 0.0, 0, 1e-8); same("many periods later", compute_two_body_state(f, F), compute_two_body_state(f, t), a + v * n * P, v, 1e-7 / (1 - e) / (1 - e) / (1 - e)); }
    { auto M = mean_anomaly(f, t); expect_close("mean anomaly", angle(M - 2 * M_PI * (t - f.tau) / P), 0.0, 0, 1e-9); }
    auto z = f; z.cm_position_x -= f.cm_position_x; z.cm_position_y -= f.cm_position_y; s.nontrivial(e > 0 && f.pomega != 0 && f.tau != 0); s.cls("circular", e == 0);
});

LAW("perturbations", 60000, "an eccentric orbit", [] (src& s)
{
    auto f = gen_full(s, 0.7), h = gen_full(s, 0.7); auto A = list(f), B = list(h); double k = s.symmetric(3); auto sum = list(f + h), dif = list(f - h), pro = list(f * k); for (int i = 0; i < 10; ++i) { expect_eq("sum", sum[i], A[i] + B[i]); expect_eq("difference", dif[i], A[i] - B[i]); expect_eq("multiple", pro[i], A[i] * k); }
    auto D = list(diff(f, h)); double P = double(period(h.elements)); for (int i = 2; i < 10; ++i) expect_eq("change", D[i], B[i] - A[i]); expect_close("change of pomega", angle(D[0] - (B[0] - A[0])), 0.0, 0, 1e-12); if (std::fabs(B[0] - A[0]) <= 1.45 * 2 * M_PI && std::fabs(D[0]) > M_PI + 1e-9) fail("the change of pomega is not the smallest rotation"); expect_close("change of tau", angle(D[1] - (B[1] - A[1]), P), 0.0, 0, 1e-12 * (std::fabs(A[1]) + std::fabs(B[1]) + P)); if (std::fabs(B[1] - A[1]) <= 1.45 * P && std::fabs(D[1]) > P / 2 * (1 + 1e-9)) fail("the change of tau is not the smallest one");
    auto dt = s.symmetric(3); auto C = list(diff_cm(f, dt)); for (int i = 0; i < 10; ++i) expect_eq("drift", C[i], i == 2 ? f.cm_velocity_x * dt : i == 3 ? f.cm_velocity_y * dt : 0.0); auto Z = list(make_full_orbital_elements_with_zeros()); for (auto x : Z) expect_eq("zeros", x, 0.0); expect_eq("full", list(make_full_orbital_elements(f.elements)), [&] { full_orbital_elements_t q; q.elements = f.elements; return list(q); }());
    // the linear response of the semi-major axis to small changes of masses and velocities
    auto p = f.elements; double a = p.separation, v = 2 * M_PI * a / double(period(p)), eps = 1e-6; auto S = compute_two_body_state(p, s.real(0, 1) * double(period(p))), T = S; for (auto b : {&T.body1, &T.body2}) { b->mass *= 1 + eps * s.symmetric(1); b->velocity_x += eps * v * s.symmetric(1); b->velocity_y += eps * v * s.symmetric(1); } double got = delta_a_over_a(T, S), want = compute_orbital_elements(T, 0).elements.separation / compute_orbital_elements(S, 0).elements.separation - 1; double amp = std::max(p.mass_ratio, 1 / p.mass_ratio) / std::pow(1 - p.eccentricity, 2); expect_close("change of the semi-major axis", got, want, 0, 1e-9 * amp * amp);
    // unbound bodies have no elements
    auto U = S; auto esc = std::sqrt(2 * p.total_mass / separation(S)) * s.real(1.01, 5); auto an = s.real(0, 2 * M_PI); U.body1.velocity_x = U.body2.velocity_x + esc * std::cos(an); U.body1.velocity_y = U.body2.velocity_y + esc * std::sin(an); if (! throws_a<std::invalid_argument>([&] { (void) compute_orbital_elements(U, 0); })) fail("an unbound pair has orbital elements");
    // exactly marginal: every number is a power of two
    { double h = std::ldexp(1.0, int(s.signed_integer(-6, 6))), w = std::ldexp(1.0, int(s.signed_integer(-6, 6))), m = 2 * h * w * w; two_body_state_t M; M.body1.mass = M.body2.mass = m; bool up = s.coin(), along = s.coin(); auto sg = s.coin() ? 1.0 : -1.0; (up ? M.body1.position_y : M.body1.position_x) = h; (up ? M.body2.position_y : M.body2.position_x) = -h; (up != along ? M.body1.velocity_y : M.body1.velocity_x) = sg * w; (up != along ? M.body2.velocity_y : M.body2.velocity_x) = -sg * w; if (! throws_a<std::invalid_argument>([&] { (void) compute_orbital_elements(M, 0); })) fail("a marginally unbound pair has orbital elements"); }
    s.nontrivial(p.eccentricity > 0);
});
PBT_MAIN
