// C19: slope limiting and polynomial roots.
#include "phys.hpp"
#include "math_interpolation.hpp"
#include "math_polynomial.hpp"
#include "core_dimensional.hpp"
#include "core_tuple.hpp"
static L minmod(L a, L b, L c) { if (a > 0 && b > 0 && c > 0) return std::min({a, b, c}); if (a < 0 && b < 0 && c < 0) return std::max({a, b, c}); return 0; }
static double value(src& s) { switch (s.draw(6)) { case 0: return double(s.signed_integer(-3, 3)); case 1: return s.symmetric(1); case 2: return s.symmetric(1) * s.logreal(1e-12, 1e12); case 3: return 1 + s.symmetric(1) * 1e-9; case 4: return 0.0; default: return s.symmetric(10); } }
LAW("plm_gradient", 400000, "the three values are distinct", [] (src& s)
{
    double yl[3], y0[3], yr[3], t = s.coin() ? s.pick({1.0, 1.5, 2.0}) : s.real(1, 2); for (int i = 0; i < 3; ++i) { yl[i] = value(s); y0[i] = s.chance(1, 6) ? yl[i] : value(s); yr[i] = s.chance(1, 6) ? y0[i] : value(s); } s.note("yl", yl[0]); s.note("y0", y0[0]); s.note("yr", yr[0]); s.note("theta", t); double g[3];
    for (int i = 0; i < 3; ++i)
    {
        auto m = std::max({std::fabs(yl[i]), std::fabs(y0[i]), std::fabs(yr[i])}); g[i] = mara::plm_gradient(yl[i], y0[i], yr[i], t); L a = (L(y0[i]) - yl[i]) * t, b = (L(yr[i]) - yl[i]) / 2, c = (L(yr[i]) - y0[i]) * t; expect_close("gradient", g[i], double(minmod(a, b, c)), 1e-13, 1e-15 * m);
        if ((y0[i] - yl[i]) * (yr[i] - y0[i]) <= 0) { if (std::fabs(g[i]) != 0) fail("a slope of " + show(g[i]) + " at an extremum"); }
        else { auto lo = std::min(yl[i], yr[i]), hi = std::max(yl[i], yr[i]); auto p = y0[i] + g[i] / 2, q = y0[i] - g[i] / 2; if (p < lo - 1e-12 * m || p > hi + 1e-12 * m || q < lo - 1e-12 * m || q > hi + 1e-12 * m) fail("the reconstructed faces " + show(q) + ", " + show(p) + " leave the data"); }
        expect_close("mirror image", mara::plm_gradient(yr[i], y0[i], yl[i], t), -g[i], 1e-15); expect_close("sign", mara::plm_gradient(-yl[i], -y0[i], -yr[i], t), -g[i], 1e-15); expect_close("doubling", mara::plm_gradient(2 * yl[i], 2 * y0[i], 2 * yr[i], t), 2 * g[i], 1e-15);
    }
    { auto d = value(s), x = value(s); auto m = std::max(std::fabs(x), std::fabs(d)); expect_close("slope of a line", mara::plm_gradient(x - d, x, x + d, t), d, 1e-12, 1e-14 * m); }
    // every kind of value is limited component by component
    using D = mara::dimensional_value_t<1, 2, -1, double>; auto d = mara::plm_gradient(D{yl[0]}, D{y0[0]}, D{yr[0]}, t); static_assert(std::is_same<decltype(d), D>::value); expect_eq("dimensional", d.value, g[0]);
    auto q = mara::plm_gradient(mara::make_sequence(yl[0], yl[1], yl[2]), mara::make_sequence(y0[0], y0[1], y0[2]), mara::make_sequence(yr[0], yr[1], yr[2]), t); for (int i = 0; i < 3; ++i) expect_eq("sequence", q[i], g[i]);
    auto T = [] (double* y) { return mara::make_arithmetic_tuple(y[0], D{y[1]}, mara::make_length(y[2])); }; auto u = mara::plm_gradient(T(yl), T(y0), T(yr), t); expect_eq("tuple 0", mara::get<0>(u), g[0]); expect_eq("tuple 1", mara::get<1>(u).value, g[1]); expect_eq("tuple 2", mara::get<2>(u).value, g[2]);
    struct seq : mara::derivable_sequence_t<double, 3, seq> {}; auto S = [] (double* y) { seq r; for (int i = 0; i < 3; ++i) r[i] = y[i]; return r; }; seq v = mara::plm_gradient(S(yl), S(y0), S(yr), t); for (int i = 0; i < 3; ++i) expect_eq("derived sequence", v[i], g[i]);
    s.nontrivial(yl[0] != y0[0] && y0[0] != yr[0]); s.cls("monotonic", (y0[0] - yl[0]) * (yr[0] - y0[0]) > 0);
});

static double coord(src& s, double k) { return (s.coin() ? double(s.signed_integer(-20, 20)) / 4 : s.symmetric(5)) * k; }
static double lead(src& s) { return s.coin() ? 1.0 : (s.coin() ? -1 : 1) * s.logreal(1e-3, 1e3); }
static double scale(src& s) { return s.coin() ? 1.0 : s.logreal(1e-3, 1e3); }
LAW("cubic_roots", 300000, "no root is zero", [] (src& s)
{
    auto k = scale(s), c3 = lead(s); std::vector<double> r; bool three = s.coin(); for (int i = 0; i < (three ? 3 : 1); ++i) r.push_back(coord(s, k)); std::sort(r.begin(), r.end()); L re = 0, im = 0; L b, c;   // (x - r0)(x^2 + b x + c)
    if (three) { if (r[1] - r[0] < 0.1 * k || r[2] - r[1] < 0.1 * k) discard(); b = -(L(r[1]) + r[2]); c = L(r[1]) * r[2]; } else { re = coord(s, k); im = s.real(0.1, 5) * k; b = -2 * re; c = re * re + im * im; }
    L a = r[0]; double c2 = double(c3 * (b - a)), c1 = double(c3 * (c - a * b)), c0 = double(-c3 * a * c); s.note("coefficients", show(c3) + " " + show(c2) + " " + show(c1) + " " + show(c0)); auto q = mara::cubic_roots(c3, c2, c1, c0); expect_eq("number of real roots", q.num_roots, three ? 3 : 1);
    std::vector<double> got{q.x1}; if (three) { got.push_back(q.x2); got.push_back(q.x3); } std::sort(got.begin(), got.end()); for (std::size_t i = 0; i < r.size(); ++i) expect_close("root", got[i], r[i], 0, (three ? 1e-9 : 2e-4) * 5 * k); s.nontrivial(r[0] != 0); s.cls("three", three);
});

// Integer coefficients for which the discriminant is exactly zero: roots m + u, m + u, m - 2 u.
LAW("cubic_double_roots", 100000, "a double root that is not triple", [] (src& s)
{
    auto k = std::ldexp(1.0, int(s.signed_integer(-8, 8))); double m = double(s.signed_integer(-30, 30)), u = double(s.signed_integer(-30, 30)), p = m + u, q = m - 2 * u, c3 = s.coin() ? 1.0 : std::ldexp(s.coin() ? 1.0 : -1.0, int(s.signed_integer(-8, 8)));
    double c2 = -(2 * p + q) * k * c3, c1 = (p * p + 2 * p * q) * k * k * c3, c0 = -p * p * q * k * k * k * c3; s.note("coefficients", show(c3) + " " + show(c2) + " " + show(c1) + " " + show(c0)); auto g = mara::cubic_roots(c3, c2, c1, c0); expect_eq("number of real roots", g.num_roots, 3);
    std::vector<double> got{g.x1, g.x2, g.x3}, want{p * k, p * k, q * k}; std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); for (int i = 0; i < 3; ++i) expect_close("root", got[i], want[i], 0, 1e-10 * k * (1 + std::fabs(m) + std::fabs(u))); s.nontrivial(u != 0); s.cls("triple", u == 0); s.cls("double root below", u < 0);
});

LAW("quartic_roots", 300000, "no root is zero", [] (src& s)
{
    auto k = scale(s), d4 = lead(s); auto kind = s.draw(3); L B[2], C[2]; std::vector<double> r;   // (x^2 + B0 x + C0)(x^2 + B1 x + C1)
    for (int i = 0; i < int(kind); ++i) { r.push_back(coord(s, k)); r.push_back(coord(s, k)); } std::sort(r.begin(), r.end()); for (std::size_t i = 1; i < r.size(); ++i) if (r[i] - r[i - 1] < 0.4 * k) discard();
    bool sym = s.chance(1, 4); double first = 0; for (int i = 0; i < 2; ++i) if (i < int(kind)) { B[i] = -(L(r[2 * i]) + r[2 * i + 1]); C[i] = L(r[2 * i]) * r[2 * i + 1]; } else { L re = sym && kind == 1 ? (r[0] + r[1]) / 2 : sym && i == 1 ? first : coord(s, k), im = s.real(0.4, 5) * k; first = double(re); B[i] = -2 * re; C[i] = re * re + im * im; if (kind == 0 && i == 1 && std::fabs(C[0] - C[1]) < 0.2 * k * k && std::fabs(B[0] - B[1]) < 0.2 * k) discard(); }
    double d3 = double(d4 * (B[0] + B[1])), d2 = double(d4 * (C[0] + C[1] + B[0] * B[1])), d1 = double(d4 * (B[0] * C[1] + B[1] * C[0])), d0 = double(d4 * C[0] * C[1]); s.note("coefficients", show(d4) + " " + show(d3) + " " + show(d2) + " " + show(d1) + " " + show(d0)); auto q = mara::quartic_roots(d4, d3, d2, d1, d0); std::vector<double> got; if (q.pair_1_is_real) { got.push_back(q.x1); got.push_back(q.x2); } if (q.pair_2_is_real) { got.push_back(q.x3); got.push_back(q.x4); } std::sort(got.begin(), got.end());
    expect_eq("number of real roots", got.size(), r.size()); for (std::size_t i = 0; i < r.size(); ++i) expect_close("root " + show(i), got[i], r[i], 0, 5e-3 * k); s.nontrivial(! r.empty()); s.cls("symmetric", sym); s.cls("pairs=" + show(kind), true);
});

LAW("parabola_vertex", 200000, "three distinct abscissas", [] (src& s)
{
    auto k = scale(s), h = scale(s); double x[3]; for (auto& v : x) v = coord(s, k); if (std::min({std::fabs(x[0] - x[1]), std::fabs(x[0] - x[2]), std::fabs(x[1] - x[2])}) < 0.05 * k) discard(); L xv = coord(s, k), yv = coord(s, h), A = (s.coin() ? 1 : -1) * s.real(0.05, 5) * h / k / k; double y[3]; for (int i = 0; i < 3; ++i) y[i] = double(yv + A * (x[i] - xv) * (x[i] - xv)); s.note("x", show(x[0]) + " " + show(x[1]) + " " + show(x[2])); s.note("vertex", show(double(xv)) + " " + show(double(yv)));
    auto [gx, gy] = mara::parabola_vertex(x[0], x[1], x[2], y[0], y[1], y[2]); expect_close("vertex x", gx, double(xv), 1e-8, 1e-8 * k); expect_close("vertex y", gy, double(yv), 1e-7, 1e-7 * h); s.nontrivial(true); s.cls("unsorted", ! (x[0] < x[1] && x[1] < x[2]));
});
PBT_MAIN
