// C22: locating shocks in radial profiles.
#include "phys.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "physics_euler.hpp"
#include "post_shock_locator.hpp"
using P5 = mara::euler::primitive_t;
static nd::shared_array<P5, 1> profile(src& s, std::vector<double>& p, std::vector<double>& d)
{
    auto n = s.size(2, 40); bool flat = s.chance(1, 4); double lp = 0, ld = 0; for (std::size_t i = 0; i < n; ++i) { switch (s.draw(5)) { case 0: break; case 1: lp += s.symmetric(0.1); break; case 2: lp -= s.real(0, 0.5); break; case 3: lp -= s.real(0, 4); break; default: lp += s.real(0, 3); } ld += s.symmetric(flat ? 0.0 : 1.0); if (s.chance(1, 6) && i) lp = std::log(p[i - 1]); p.push_back(std::exp(lp)); d.push_back(std::exp(ld)); }
    return nd::make_array([p, d] (auto i) { return P5().with_mass_density(d[i[0]]).with_gas_pressure(p[i[0]]); }, nd::make_shape(n)) | nd::to_shared();
}
LAW("shock_index", 100000, "the smallest entropy step is unique", [] (src& s)
{
    std::vector<double> p, d; auto A = profile(s, p, d); auto g = gen_gamma(s); std::size_t n = p.size(); std::vector<double> S; for (std::size_t i = 0; i < n; ++i) S.push_back(A(i).specific_entropy(g)); std::size_t best = 0; int ties = 0; for (std::size_t i = 0; i + 1 < n; ++i) { auto x = S[i + 1] - S[i], y = S[best + 1] - S[best]; if (x < y) { best = i; ties = 0; } else if (x == y && i != best) ++ties; } s.note("n", n); s.note("best", best);
    auto got = mara::find_shock_index(A, g); expect_eq("shock", std::size_t(got[0]), best); s.nontrivial(ties == 0 && n > 3); s.cls("ties", ties > 0);
});
LAW("pressure_scans", 150000, "the scan moves", [] (src& s)
{
    std::vector<double> p, d; auto A = profile(s, p, d); std::size_t n = p.size(), k = s.size(0, n + 1); s.note("p", p); s.note("from", k);
    std::size_t want = 0; if (k < n) { want = k; while (want > 0 && p[want - 1] > p[want]) --want; } auto got = mara::find_index_of_maximum_pressure_behind(A, k); expect_eq("maximum behind", std::size_t(got), want); auto Q = nd::make_array([p] (auto i) { return p[i[0]]; }, nd::make_shape(n)); expect_eq("maximum of plain values behind", std::size_t(mara::find_index_of_maximum_behind(Q, k)), want);
    std::size_t j = k, ahead = 0; auto dl = [&] (std::size_t i) { return std::log(p[i + 1]) - std::log(p[i]); }; while (true) { if (j < 2 || j > n - 1) { ahead = 0; break; } if (dl(j - 1) < 0.5 * dl(j - 2)) { ++j; continue; } ahead = j; break; } expect_eq("plateau ahead", std::size_t(mara::find_index_of_pressure_plateau_ahead(A, k)), ahead); s.nontrivial(want != k || ahead != k); s.cls("plateau found", ahead != 0);
});
PBT_MAIN
