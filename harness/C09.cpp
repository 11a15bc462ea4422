// C09: rational numbers are exact fractions in canonical form. Oracle: cross multiplication in 64 bits (operands have 32), wherever the exact result is representable.
#include "pbt.hpp"
#include <stdexcept>
#include <cstdlib>
#include <numeric>
#include "core_rational.hpp"
using namespace pbt;
using mara::make_rational; using Q = mara::rational_number_t;
static long gen_int(src& s) { switch (s.draw(6)) { case 4: { long k = 1l << s.draw(32); k += s.signed_integer(-2, 2); return s.coin() ? std::max(-k, -2147483648l) : std::min(k, 2147483647l); } case 5: return s.signed_integer(-2147483648l, 2147483647l); case 0: return s.signed_integer(-6, 6); case 1: return s.signed_integer(-60, 60); case 2: { long k = 1l << s.draw(15); return s.coin() ? -k : k; } default: return s.signed_integer(-30000, 30000); } }
struct frac { long n, d; };
static bool fits(long n, long d) { long g = std::gcd(n, d); if (g == 0) g = 1; n /= g; d /= g; if (d < 0) { n = -n; d = -d; } return n >= -2147483648l && n <= 2147483647l && d <= 2147483647l; }
// compares only what is representable; the operation is not evaluated otherwise
template<typename F> static bool when(const std::string& what, F&& op, long n, long d);
static frac gen(src& s) { long n = gen_int(s), d; do { d = gen_int(s); } while (d == 0 && s.pos < 1000); if (d == 0) discard(); return {n, d}; }
static std::string str(frac f) { return std::to_string(f.n) + "/" + std::to_string(f.d); }
static void same(const std::string& what, const Q& q, long n, long d)
{
    long g = std::gcd(n, d); if (g == 0) g = 1; n /= g; d /= g; if (d < 0) { n = -n; d = -d; } if (n == 0) d = 1;
    if (q.get_numerator() != n || q.get_denominator() != d) fail(what + ": got " + mara::to_string(q) + ", want " + str({n, d}));
}
template<typename F> static bool when(const std::string& what, F&& op, long n, long d) { if (! fits(n, d)) return false; same(what, op(), n, d); return true; }
LAW("canonical", 1500000, "the fraction is reducible, negative or zero", [] (src& s)
{
    auto f = gen(s); s.note("f", str(f)); if (! fits(f.n, f.d)) discard(); Q q = make_rational(f.n, f.d); same("reduced", q, f.n, f.d);
    expect_close("as_double", q.as_double(), double(f.n) / double(f.d), 1e-15);
    bool integral = f.n % f.d == 0; expect_eq("is_integral", q.is_integral(), integral);
    if (integral) expect_eq("as_integral", long(q.as_integral()), f.n / f.d);
    else if (! throws([&] { q.as_integral(); })) fail("as_integral of a proper fraction did not throw");
    if (! throws([&] { make_rational(f.n, 0); })) fail("zero denominator accepted");
    same("from integer", make_rational(f.n), f.n, 1); same("default", Q(), 0, 1);
    same("unary +", +q, f.n, f.d); when("unary -", [&] { return -q; }, -f.n, f.d);
    std::size_t slash; auto t = mara::to_string(q); if ((slash = t.find('/')) == std::string::npos) fail("text " + t);
    if (std::stol(t) != q.get_numerator() || std::stol(t.substr(slash + 1)) != q.get_denominator()) fail("text " + t);
    s.nontrivial(std::gcd(f.n, f.d) > 1 || f.n <= 0 || f.d < 0); s.cls("zero", f.n == 0); s.cls("integral", integral); s.cls("negative denominator", f.d < 0);
});
LAW("arithmetic", 1500000, "neither operand is an integer", [] (src& s)
{
    auto a = gen(s), b = gen(s); s.note("a", str(a)); s.note("b", str(b)); if (s.chance(1, 8)) { b.d = a.d; s.note("common denominator", b.d); } if (! fits(a.n, a.d) || ! fits(b.n, b.d)) discard(); Q p = make_rational(a.n, a.d), q = make_rational(b.n, b.d); int done = 0;
    long pn = p.get_numerator(), pd = p.get_denominator(), qn = q.get_numerator(), qd = q.get_denominator();
    bool sum = when("a+b", [&] { return p + q; }, pn * qd + qn * pd, pd * qd), dif = when("a-b", [&] { return p - q; }, pn * qd - qn * pd, pd * qd), pro = when("a*b", [&] { return p * q; }, pn * qn, pd * qd); done += sum + dif + pro;
    if (qn != 0) done += when("a/b", [&] { return p / q; }, pn * qd, pd * qn); else if (! throws([&] { p / q; })) fail("division by zero accepted");
    long l = pn * qd, r = qn * pd;
    if ((p < q) != (l < r) || (p > q) != (l > r) || (p <= q) != (l <= r) || (p >= q) != (l >= r) || (p == q) != (l == r) || (p != q) != (l != r)) fail("comparison");
    if ((sum && ! (p + q == q + p)) || (pro && ! (p * q == q * p)) || (dif && fits(qn * pd - pn * qd, pd * qd) && ! ((p - q) == -(q - p)))) fail("algebra");
    if (! (p - p == 0) || p - p != 0 || ! (p - p == q - q)) fail("zero is not unique");
    int k = s.chance(1, 3) ? int(gen_int(s)) : int(s.signed_integer(-200, 200)); s.note("k", k);
    when("a+k", [&] { return p + k; }, pn + k * pd, pd); when("k+a", [&] { return k + p; }, pn + k * pd, pd); when("a-k", [&] { return p - k; }, pn - k * pd, pd); when("k-a", [&] { return k - p; }, k * pd - pn, pd);
    when("a*k", [&] { return p * k; }, pn * k, pd);
    if (k) when("a/k", [&] { return p / k; }, pn, pd * k);
    if (fits(pn + k * pd, pd)) { Q t = p; t += k; same("+=", t, pn + k * pd, pd); t -= k; same("-=", t, pn, pd); }
    if ((p < k) != (pn < k * pd) || (p > k) != (pn > k * pd) || (p == k) != (pn == k * pd) || (p != k) != (pn != k * pd) || (p <= k) != (pn <= k * pd) || (p >= k) != (pn >= k * pd)) fail("comparison with an integer");
    double x = s.real(-3, 3), v = double(pn) / pd;
    expect_close("a+x", p + x, v + x, 1e-12, 1e-12); expect_close("a-x", p - x, v - x, 1e-12, 1e-12); expect_close("a*x", p * x, v * x, 1e-12, 1e-12); if (x != 0) expect_close("a/x", p / x, v / x, 1e-12);
    s.nontrivial(pd > 1 && qd > 1 && done > 0); s.cls("products beyond 32 bits", pd * qd > 2147483647l && done > 0); s.cls("equal", l == r); s.cls("zero operand", pn == 0 || qn == 0);
});
// A running sum of n steps of p/q is exactly n*p/q: iteration counters made of fractional steps stay exact.
LAW("running_sum", 200000, "at least 4 steps of a proper fraction", [] (src& s)
{
    long p = s.signed_integer(-12, 12), q = s.coin() ? s.integer(1, 24) : s.integer(1, 100000), n = s.integer(0, 60); s.note("step", str({p, q})); s.note("n", n);
    Q t(0); long first = s.coin() ? 0 : s.signed_integer(-2000000000l / q / 2, 2000000000l / q / 2); s.note("first", first); t = t + int(first); for (long k = 0; k < n; ++k) t = t + make_rational(p, q); same("sum", t, n * p + first * q, q); s.nontrivial(n >= 4 && p % q);
});
PBT_MAIN
