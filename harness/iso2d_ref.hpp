// Long-double reference for the two-dimensional isothermal equations.
#pragma once
using P3 = mara::iso2d::primitive_t;
inline P3 make_iso(double s, double x, double y) { return P3().with_sigma(s).with_velocity_x(x).with_velocity_y(y); }
inline std::string str(const P3& p) { return "(" + show(p[0]) + " " + show(p[1]) + " " + show(p[2]) + ")"; }
template<typename T> std::array<L, 3> three(const T& t) { return {mara::get<0>(t).value, mara::get<1>(t).value, mara::get<2>(t).value}; }
inline void near3(const std::string& what, const std::array<L, 3>& got, const std::array<L, 3>& want, const std::array<L, 3>& scale, double rel)
{
    for (int i = 0; i < 3; ++i) if (! (std::fabs(got[i] - want[i]) <= rel * scale[i])) fail(what + " component " + show(i) + ": got " + show(double(got[i])) + ", want " + show(double(want[i])) + " (allowed " + show(double(rel * scale[i])) + ")");
}
struct iso_ref
{
    L s, x, y, c2;
    L v() const { return std::sqrt(x * x + y * y); }
    L c() const { return std::sqrt(c2); }
    L p() const { return s * c2; }
    L vn(const std::array<L, 3>& n) const { return x * n[0] + y * n[1]; }
    std::array<L, 3> U() const { return {s, s * x, s * y}; }
    std::array<L, 3> Uscale() const { L V = v() + c(); return {s, s * V, s * V}; }
    std::array<L, 3> F(const std::array<L, 3>& n) const { L q = vn(n); return {s * q, s * q * x + p() * n[0], s * q * y + p() * n[1]}; }
    std::array<L, 3> Fscale() const { L V = v() + c(); return {s * V, s * V * V, s * V * V}; }
};
inline iso_ref to_ref(const P3& p, double c2) { return {p[0], p[1], p[2], c2}; }
