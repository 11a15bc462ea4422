// Long-double references of the Euler and relativistic equations and of the one-step schemes of sedov and cloud.
#pragma once
#include <array>
#include <cmath>
#include <vector>
namespace href {
using L = long double; using A5 = std::array<L, 5>;
struct gas { L d = 0, u1 = 0, u2 = 0, u3 = 0, p = 0; L& operator[](int k) { return *(k == 0 ? &d : k == 1 ? &u1 : k == 2 ? &u2 : k == 3 ? &u3 : &p); } L operator[](int k) const { return const_cast<gas&>(*this)[k]; } };
inline A5 operator+(A5 a, const A5& b) { for (int k = 0; k < 5; ++k) a[k] += b[k]; return a; }
inline A5 operator-(A5 a, const A5& b) { for (int k = 0; k < 5; ++k) a[k] -= b[k]; return a; }
inline A5 operator*(A5 a, L x) { for (auto& v : a) v *= x; return a; }
inline A5 mag(A5 a) { for (auto& v : a) v = std::fabs(v); return a; }
struct euler
{
    L g; L rad_gb(const gas& w) const { return w.u1; }
    A5 U(const gas& w) const { return {w.d, w.d * w.u1, w.d * w.u2, w.d * w.u3, w.p / (g - 1) + w.d * (w.u1 * w.u1 + w.u2 * w.u2 + w.u3 * w.u3) / 2}; }
    A5 F(const gas& w, int ax) const { auto u = U(w); auto v = w[1 + ax]; auto f = u * v; f[1 + ax] += w.p; f[4] += w.p * v; return f; }
    std::array<L, 2> waves(const gas& w, int ax) const { auto c = std::sqrt(g * w.p / w.d); return {w[1 + ax] - c, w[1 + ax] + c}; }
    A5 S(const gas& w, L r, L cot) const { return {0, (2 * w.p + w.d * (w.u2 * w.u2 + w.u3 * w.u3)) / r, (cot * w.p + w.d * (w.u3 * w.u3 * cot - w.u1 * w.u2)) / r, -w.d * w.u3 * (w.u1 + w.u2 * cot) / r, 0}; }
    gas recover(const A5& u, L floor, bool& ok) const { gas w{u[0], u[1] / u[0], u[2] / u[0], u[3] / u[0], 0}; w.p = (g - 1) * (u[4] - (u[1] * u[1] + u[2] * u[2] + u[3] * u[3]) / u[0] / 2); if (! (w.d > 0)) ok = false; if (floor > 0) w.p = std::max(w.p, floor * w.d); if (! (w.p > 0)) ok = false; return w; }
};
struct srhd
{
    L g; L rad_gb(const gas& w) const { return w.u1; }
    static L u2(const gas& w) { return w.u1 * w.u1 + w.u2 * w.u2 + w.u3 * w.u3; }
    static L W(const gas& w) { return std::sqrt(1 + u2(w)); }
    L H(const gas& w) const { return w.d + g / (g - 1) * w.p; }
    A5 U(const gas& w) const { auto D = w.d * W(w), k = H(w) * W(w); return {D, k * w.u1, k * w.u2, k * w.u3, H(w) * u2(w) + w.p / (g - 1) + (w.d - D)}; }
    A5 F(const gas& w, int ax) const { auto u = U(w); auto v = w[1 + ax] / W(w); auto f = u * v; f[1 + ax] += w.p; f[4] += w.p * v; return f; }
    std::array<L, 2> waves(const gas& w, int ax) const { L q2 = u2(w), v2 = q2 / (1 + q2), v = w[1 + ax] / W(w), k = g * w.p / H(w); L disc = k / (1 + q2) * (1 - v * v - k * (v2 - v * v)), q = 1 - v2 * k; return {(v * (1 - k) - std::sqrt(disc)) / q, (v * (1 - k) + std::sqrt(disc)) / q}; }
    A5 S(const gas& w, L r, L cot) const { auto h = H(w); return {0, (2 * w.p + h * (w.u2 * w.u2 + w.u3 * w.u3)) / r, (cot * w.p + h * (w.u3 * w.u3 * cot - w.u1 * w.u2)) / r, -w.u3 * h * (w.u1 + w.u2 * cot) / r, 0}; }
    gas recover(const A5& u, L floor, bool& ok) const
    {
        auto D = u[0], E = u[4] + D, s2 = u[1] * u[1] + u[2] * u[2] + u[3] * u[3], s = std::sqrt(s2); if (! (D > 0)) { ok = false; return {}; }
        auto f = [&] (L p, L& w) { auto v2 = s2 / ((E + p) * (E + p)); w = 1 / std::sqrt(1 - v2); auto d = D / w, e = (u[4] + D * (1 - w) + p * (1 - w * w)) / (D * w); return d * e * (g - 1) - p; };
        L lo = std::max(L(0), s - E) , hi = std::max(L(1e-30), 2 * (g - 1) * (std::fabs(u[4]) + D) + 2 * std::max(L(0), s - E)), w; if (lo > 0) lo *= 1 + 1e-15L; while (f(hi, w) > 0) hi *= 2; if (! (f(lo, w) > 0)) { if (floor > 0 && lo == 0) { hi = 0; lo = -1e-16L * E; while (lo > s - E && ! (f(lo, w) > 0)) lo *= 4; if (lo <= s - E) { ok = false; return {}; } } else { ok = false; return {}; } }
        for (int i = 0; i < 200 && hi > lo; ++i) { auto m = (lo + hi) / 2; if (m == lo || m == hi) break; (f(m, w) > 0 ? lo : hi) = m; } auto p = (lo + hi) / 2; f(p, w); auto k = w / (E + p); if (floor > 0) p = std::max(p, floor * D / w);
        if (! (p > 0)) ok = false; return {D / w, k * u[1], k * u[2], k * u[3], p};
    }
};
template<class Sys> A5 hlle(const Sys& y, const gas& a, const gas& b, int ax) { auto x = y.waves(a, ax), z = y.waves(b, ax); L am = std::min({L(0), x[0], z[0]}), ap = std::max({L(0), x[1], z[1]}); return (y.F(a, ax) * ap - y.F(b, ax) * am + (y.U(b) - y.U(a)) * (ap * am)) * (1 / (ap - am)); }
inline L minmod(L th, L a, L b, L c) { auto x = th * (b - a), y = (c - a) / 2, z = th * (c - b); if (x > 0 && y > 0 && z > 0) return std::min({x, y, z}); if (x < 0 && y < 0 && z < 0) return std::max({x, y, z}); return 0; }
// dimensions of a result that the sum of the magnitudes of the terms gives an error estimate for
struct cells { std::vector<A5> u, scale; bool ok = true; };
// one sedov step: reflecting at the inner boundary, zero gradient at the outer
template<class Sys> cells sedov_step(const Sys& y, const std::vector<double>& v, const std::vector<A5>& u, L dt)
{
    auto n = u.size(); std::vector<gas> w(n + 2); cells r; auto vol = [&] (std::size_t i) { L a = v[i], b = v[i + 1]; return (b * b * b - a * a * a) / 3; };
    for (std::size_t i = 0; i < n; ++i) w[i + 1] = y.recover(u[i] * (1 / vol(i)), 0, r.ok); if (! r.ok) return r; w[0] = w[1]; w[0].u1 = -w[0].u1; w[n + 1] = w[n];
    std::vector<A5> f(n + 1); for (std::size_t i = 0; i <= n; ++i) f[i] = hlle(y, w[i], w[i + 1], 0) * (L(v[i]) * v[i]);
    for (std::size_t i = 0; i < n; ++i) { auto c = w[i + 1]; L rc = (L(v[i]) + v[i + 1]) / 2; A5 s{0, 2 * c.p / rc, 0, 0, 0}; auto src = s * vol(i); r.u.push_back(u[i] + (f[i] - f[i + 1] + src) * dt); A5 sc = mag(u[i]) + (mag(f[i]) + mag(f[i + 1]) + mag(src)) * dt; L m = sc[0] + sc[1] + sc[4]; r.scale.push_back({m, m, m, m, m}); }
    return r;
}
}
