// Generators and long-double references shared by the physics harnesses.
#pragma once
#include "pbt.hpp"
#include <stdexcept>
#include "core_geometric.hpp"
using namespace pbt;
using L = long double;
using vec3 = std::array<double, 3>;
inline L dot(const std::array<L, 3>& a, const std::array<L, 3>& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline mara::unit_vector_t gen_nhat(src& s, bool planar=false)
{
    if (s.coin()) { auto k = s.draw(planar ? 2 : 3); auto sg = s.coin() ? -1.0 : 1.0; return mara::unit_vector_t(k == 0 ? sg : 0, k == 1 ? sg : 0, k == 2 ? sg : 0); }
    double x, y, z; do { x = s.symmetric(1); y = s.symmetric(1); z = planar ? 0 : s.symmetric(1); if (x * x + y * y + z * z < 0.01) { x = 1; } } while (x * x + y * y + z * z < 0.01); auto r = std::sqrt(x * x + y * y + z * z); return mara::unit_vector_t(x / r, y / r, z / r);
}
inline std::array<L, 3> lv(const mara::unit_vector_t& n) { return {n.get_n1(), n.get_n2(), n.get_n3()}; }
inline mara::unit_vector_t opposite(const mara::unit_vector_t& n) { return mara::unit_vector_t(-n.get_n1(), -n.get_n2(), -n.get_n3()); }
struct rotation
{
    double m[3][3];
    vec3 operator()(double x, double y, double z) const { return {m[0][0] * x + m[0][1] * y + m[0][2] * z, m[1][0] * x + m[1][1] * y + m[1][2] * z, m[2][0] * x + m[2][1] * y + m[2][2] * z}; }
    mara::unit_vector_t operator()(const mara::unit_vector_t& n) const { auto r = (*this)(n.get_n1(), n.get_n2(), n.get_n3()); return mara::unit_vector_t(r[0], r[1], r[2]); }
};
inline rotation gen_rotation(src& s, bool planar=false)
{
    double a = s.symmetric(1), b = planar ? 0 : s.symmetric(1), c = planar ? 0 : s.symmetric(1), d = s.symmetric(1); auto n = std::sqrt(a * a + b * b + c * c + d * d); if (n < 0.05) { a = 1; b = c = d = 0; n = 1; } a /= n; b /= n; c /= n; d /= n;
    return {{{a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)}, {2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)}, {2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d}}};
}
inline double gen_gamma(src& s) { return s.coin() ? s.pick({5. / 3, 4. / 3, 1.4, 2.0}) : s.real(1.1, 2.0); }
inline std::string show5(const std::array<L, 5>& a) { std::string r; for (auto x : a) r += show(double(x)) + " "; return r; }
template<typename A> std::array<L, 5> five(const A& a) { std::array<L, 5> r; for (int i = 0; i < 5; ++i) r[i] = a[i].value; return r; }
// components agree to rel * scale (each component with its own scale)
inline void near5(const std::string& what, const std::array<L, 5>& got, const std::array<L, 5>& want, const std::array<L, 5>& scale, double rel)
{
    for (int i = 0; i < 5; ++i) if (! (std::fabs(got[i] - want[i]) <= rel * scale[i])) fail(what + " component " + show(i) + ": got " + show(double(got[i])) + ", want " + show(double(want[i])) + " (allowed " + show(double(rel * scale[i])) + ") in [" + show5(got) + "] vs [" + show5(want) + "]");
}
// Divergence, in spherical coordinates and by central differences, of a uniform symmetric stress tensor T (Cartesian):
// the geometric source terms are what makes a uniform flow steady.
inline std::array<L, 3> spherical_source(const std::array<std::array<L, 3>, 3>& T, L r, L th, L ph)
{
    auto basis = [] (L th, L ph) { using std::sin; using std::cos; return std::array<std::array<L, 3>, 3>{{{sin(th) * cos(ph), sin(th) * sin(ph), cos(th)}, {cos(th) * cos(ph), cos(th) * sin(ph), -sin(th)}, {-sin(ph), cos(ph), 0}}}; };
    auto comp = [&] (int i, int j, L th, L ph) { auto e = basis(th, ph); L t = 0; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) t += e[i][a] * T[a][b] * e[j][b]; return t; };
    L h = 1e-6L; std::array<L, 3> S;
    for (int i = 0; i < 3; ++i)
        S[i] = 2 * comp(i, 0, th, ph) / r
             + (std::sin(th + h) * comp(i, 1, th + h, ph) - std::sin(th - h) * comp(i, 1, th - h, ph)) / (2 * h) / (r * std::sin(th))
             + (comp(i, 2, th, ph + h) - comp(i, 2, th, ph - h)) / (2 * h) / (r * std::sin(th));
    return S;
}
