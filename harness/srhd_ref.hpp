// Long-double reference for special relativistic hydrodynamics.
#pragma once
using P5r = mara::srhd::primitive_t;
inline P5r make_srhd(double d, double u, double v, double w, double p) { return P5r().with_mass_density(d).with_gamma_beta_1(u).with_gamma_beta_2(v).with_gamma_beta_3(w).with_gas_pressure(p); }
inline P5r gen_srhd(src& s, double umax=30, double T=1e6)
{
    auto d = s.coin() ? s.logreal(1e-12, 1e12) : s.logreal(0.01, 100), t = s.coin() ? s.logreal(1 / T, T) : s.logreal(0.01, 10), u = s.coin() ? s.real(0, 2) : s.logreal(1e-4, umax); double x = s.symmetric(1), y = s.symmetric(1), z = s.symmetric(1), n = std::sqrt(x * x + y * y + z * z); if (n < 0.1) { x = 1; y = z = 0; n = 1; } return make_srhd(d, u * x / n, u * y / n, u * z / n, d * t);
}
inline std::string str(const P5r& p) { std::string r = "("; for (int i = 0; i < 5; ++i) r += show(p[i]) + " "; return r + ")"; }
struct srhd_ref
{
    L d, a, b, c, p, g;
    L u2() const { return a * a + b * b + c * c; }
    L W() const { return std::sqrt(1 + u2()); }
    L h() const { return 1 + g / (g - 1) * p / d; }
    L c2() const { return g * p / (d * h()); }
    L vn(const std::array<L, 3>& n) const { return (a * n[0] + b * n[1] + c * n[2]) / W(); }
    std::array<L, 5> U() const { L D = d * W(), k = D * h(); return {D, k * a, k * b, k * c, d * u2() * (1 + (h() - 1)) + p / (g - 1) + (d - D)}; }   // E - D with E = d h W^2 - p = d h u^2 + d + p/(g-1)
    std::array<L, 5> Uscale() const { L D = d * W(), k = D * h() * (W() + std::sqrt(u2())); return {D, k, k, k, k}; }
    std::array<L, 5> F(const std::array<L, 3>& n) const { auto u = U(); auto v = vn(n); return {u[0] * v, u[1] * v + p * n[0], u[2] * v + p * n[1], u[3] * v + p * n[2], (u[4] + p) * v}; }
    std::array<L, 5> Fscale() const { auto r = Uscale(); for (int i = 1; i < 5; ++i) r[i] += p; return r; }
    // relativistic addition of the sound speed in the direction of n
    std::array<L, 2> waves(const std::array<L, 3>& n) const { L v2 = u2() / (1 + u2()), v = vn(n), k = c2(); L disc = k / (1 + u2()) * (1 - v * v - k * (v2 - v * v)), q = 1 - v2 * k; return {(v * (1 - k) - std::sqrt(disc)) / q, (v * (1 - k) + std::sqrt(disc)) / q}; }
};
inline srhd_ref to_ref(const P5r& p, double g) { return {p[0], p[1], p[2], p[3], p[4], g}; }
