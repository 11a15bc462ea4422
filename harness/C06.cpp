// C06: lazy n-d array programs against plain nested loops.
#include "nd_model.hpp"
#ifndef PART
#define PART 0
#endif
using namespace pbt;
using V = long;
template<std::size_t R> using L = lazy<V, R>;
template<std::size_t R> using M = model<V, R>;

template<std::size_t R> ix<R> gen_shape(src& s)
{
    ix<R> r; auto hi = s.chance(1, 40) ? (R == 1 ? 300 : R == 2 ? 40 : 11) : (R == 1 ? 9 : R == 2 ? 5 : 4); for (auto& n : r) n = s.chance(1, 25) ? 0 : s.size(1, hi); return r;
}
static V val(src& s) { return s.signed_integer(-9, 9); }

template<std::size_t R> struct pair_t { L<R> a; M<R> m; };

template<std::size_t R> pair_t<R> gen_leaf(src& s, const ix<R>& sh, std::string& log)
{
    auto m = M<R>::make(sh, [&] (auto) { return val(s); });
    switch (s.draw(5))
    {
        case 0: { log += "mapping "; auto v = m; return {erased<V>(nd::make_array([v] (auto i) { ix<R> k; for (std::size_t n = 0; n < R; ++n) k[n] = i[n]; return v(k); }, to_shape<R>(sh))), m}; }
        case 1: { log += "unique "; auto u = nd::make_unique_array<V>(to_shape<R>(sh)); for_each<R>(sh, [&] (auto i) { if (u(to_index<R>(i)) != 0) fail("a new array is not zero"); u(to_index<R>(i)) = m(i); });
                  // copies out of a mutable array do not follow later writes
                  auto copy = u.shared(); auto copy2 = u.unique(); for_each<R>(sh, [&] (auto i) { u(to_index<R>(i)) += 1000; });
                  expect_array("unique().unique()", copy2, m);
                  return {erased<V>(copy), m}; }
        case 2: { log += "moved "; auto u = nd::make_unique_array<V>(to_shape<R>(sh)); for_each<R>(sh, [&] (auto i) { u(to_index<R>(i)) = m(i); }); return {erased<V>(std::move(u).shared()), m}; }
        case 3: { auto c = val(s); log += "promote(" + show(c) + ") "; return {erased<V>(nd::promote(c, to_shape<R>(sh))), M<R>::make(sh, [&] (auto) { return c; })}; }
        default: { log += "from-flat "; auto flat = nd::make_array_from(m.v); auto r = flat | nd::reshape(to_shape<R>(sh)); expect_array("reshape of a flat array", r, m);
                   for (std::size_t k = 0; k < m.v.size(); ++k) if (r.data()[k] != m.v[k]) fail("row-major storage order");
                   return {erased<V>(r), m}; }
    }
}
template<std::size_t R> void check(const std::string& what, const pair_t<R>& p) { expect_array(what, p.a, p.m); }

template<std::size_t R> pair_t<R> step(src& s, pair_t<R> x, std::string& log, int& hard)
{
    auto sh = x.m.shape; auto op = s.draw(16);
    auto um = [&] (auto f) { M<R> m = x.m; for (auto& v : m.v) v = f(v); return m; };
    auto bm = [&] (const M<R>& y, auto f) { M<R> m = x.m; for (std::size_t k = 0; k < m.v.size(); ++k) m.v[k] = f(m.v[k], y.v[k]); return m; };
    switch (op)
    {
        case 0: { log += "map "; return {erased<V>(x.a | nd::map([] (V v) { return 3 * v + 1; })), um([] (V v) { return 3 * v + 1; })}; }
        case 1: case 2: {
            auto which = s.draw(15); log += "op" + show(which) + " ";
            auto y = gen_leaf<R>(s, sh, log); bool scalar = s.chance(1, 3); V c = val(s); if (scalar) y.m = M<R>::make(sh, [&] (auto) { return c; });
            hard++;
            #define BIN(n, o) if (which == n) { auto m = bm(y.m, [] (V a, V b) { return V(a o b); }); if (scalar) return {erased<V>(x.a o c), m}; return {erased<V>(x.a o y.a), m}; }
            BIN(0, +) BIN(1, -) BIN(2, *) BIN(3, ==) BIN(4, !=) BIN(5, <=) BIN(6, >=) BIN(7, <) BIN(8, >) BIN(9, &&) BIN(10, ||)
            if (which == 11)
            {
                auto d = y.m; for (auto& v : d.v) if (v == 0) v = 7; if (c == 0) c = 7; auto m = bm(d, [] (V a, V b) { return a / b; });
                if (scalar) return {erased<V>(x.a / c), m};
                return {erased<V>(x.a / (y.a | nd::map([] (V v) { return v == 0 ? V(7) : v; }))), m};
            }
            if (which == 12) return {erased<V>(-x.a), um([] (V v) { return -v; })};
            if (which == 13) return {erased<V>(! x.a), um([] (V v) { return V(! v); })};
            return {erased<V>(nd::binary_op([] (V a, V b) { return 5 * a - b; })(x.a, y.a)), scalar ? bm(M<R>::make(sh, [&] (auto i) { return V(y.a(to_index<R>(i))); }), [] (V a, V b) { return 5 * a - b; }) : bm(y.m, [] (V a, V b) { return 5 * a - b; })};
        }
        case 3: { log += "zip/apply "; auto y = gen_leaf<R>(s, sh, log), z = gen_leaf<R>(s, sh, log); hard++;
                  M<R> m = x.m; for (std::size_t k = 0; k < m.v.size(); ++k) m.v[k] = x.m.v[k] + 10 * y.m.v[k] + 100 * z.m.v[k];
                  return {erased<V>(nd::zip(x.a, y.a, z.a) | nd::apply([] (V a, V b, V c) { return a + 10 * b + 100 * c; })), m}; }
        case 4: { log += "zip/unzip "; auto y = gen_leaf<R>(s, sh, log); hard++;
                  auto z = nd::zip(x.a, y.a); auto [p, q] = nd::unzip(z); expect_array("unzip first", p, x.m); expect_array("unzip second", q, y.m); expect_array("get<1>", nd::get<1>(z), y.m); expect_array("get<0>", nd::get<0>(z), x.m);
                  return {erased<V>(q), y.m}; }
        case 5: { auto ax = s.draw(R); auto sh2 = sh; sh2[ax] = s.size(0, 4); log += "concat(" + show(ax) + ") "; auto y = gen_leaf<R>(s, sh2, log); hard++;
                  auto sh3 = sh; sh3[ax] += sh2[ax]; if (volume(sh3) > 4000) discard();
                  auto joined = ax == 0 && s.coin() ? erased<V>(x.a | nd::concat(y.a)) : erased<V>(x.a | nd::concat(y.a).on_axis(ax));
                  return {joined, M<R>::make(sh3, [&] (auto i) { if (i[ax] < sh[ax]) return x.m(i); auto j = i; j[ax] -= sh[ax]; return y.m(j); })}; }
        case 6: { log += "replace "; hard++; ix<R> st, fi, ju, cnt; for (std::size_t n = 0; n < R; ++n) { st[n] = s.draw(sh[n] + 1); fi[n] = st[n] + s.draw(sh[n] - st[n] + 1); ju[n] = s.size(1, 3); cnt[n] = (fi[n] - st[n] + ju[n] - 1) / ju[n]; }
                  auto y = gen_leaf<R>(s, cnt, log); nd::jumps_t<R> j; for (std::size_t n = 0; n < R; ++n) j[n] = ju[n];
                  auto want = x.m; for_each<R>(cnt, [&] (auto i) { ix<R> k; for (std::size_t n = 0; n < R; ++n) k[n] = st[n] + i[n] * ju[n]; want(k) = y.m(i); });
                  if (s.coin()) return {erased<V>(x.a | nd::replace_from(to_index<R>(st)).to(to_index<R>(fi)).jumping(j).with(y.a)), want};
                  return {erased<V>(x.a | nd::replace(nd::make_access_pattern(to_shape<R>(sh)).with_start(to_index<R>(st)).with_final(to_index<R>(fi)).with_jumps(j), y.a)), want}; }
        case 7: { log += "where/read "; hard++; auto t = val(s); auto w = nd::where(x.a > t); std::vector<ix<R>> hits; for_each<R>(sh, [&] (auto i) { if (x.m(i) > t) hits.push_back(i); });
                  expect_eq("number of true elements", w.size(), hits.size()); for (std::size_t k = 0; k < hits.size(); ++k) if (! (w(k) == to_index<R>(hits[k]))) fail("where: element " + show(k) + " is " + nd::to_string(w(k)) + ", want " + str<R>(hits[k]));
                  auto y = gen_leaf<R>(s, sh, log); auto r = y.a | nd::read_indexes(w); M<1> m; m.shape = {hits.size()}; for (auto& h : hits) m.v.push_back(y.m(h)); expect_array("read_indexes", r, m); if (! hits.empty()) expect_eq("read_index", V(y.a | nd::read_index(w(0))), m.v[0]); return y; }
        case 8: { log += "to_shared "; auto r = x.a | nd::to_shared(); auto r2 = r; expect_iteration("shared", r, x.m); if (r2.data() != r.data()) fail("copies of a shared array have their own storage"); for (std::size_t k = 0; k < x.m.v.size(); ++k) if (r.data()[k] != x.m.v[k]) fail("row-major storage of to_shared"); return {erased<V>(r), x.m}; }
        case 9: { log += "to_unique "; auto u = x.a | nd::to_unique(); expect_array("to_unique", u, x.m); auto fl = M<1>{{x.m.v.size()}, x.m.v}; expect_array("reshape to 1d", u | nd::reshape(nd::make_shape(x.m.v.size())), fl); return {erased<V>(u | nd::to_shared()), x.m}; }
        case 10: { log += "bounds_check "; hard++; auto b = x.a | nd::bounds_check(); auto i = ix<R>{}; for (std::size_t n = 0; n < R; ++n) i[n] = s.draw(sh[n] + 2); bool in = true; for (std::size_t n = 0; n < R; ++n) in = in && i[n] < sh[n];
                   if (in) expect_eq("bounds-checked read", V(b(to_index<R>(i))), x.m(i)); else if (! throws_a<std::out_of_range>([&] { (void) V(b(to_index<R>(i))); })) fail("bounds_check lets " + str<R>(i) + " pass in " + str<R>(sh));
                   return {erased<V>(b), x.m}; }
        case 11: { hard++; // shapes that do not match are refused
                   auto ax = s.draw(R); auto bad = sh; bad[ax] += s.size(1, 3); log += "mismatch "; auto y = gen_leaf<R>(s, bad, log);
                   auto refused = [&] (const std::string& w, auto f) { if (! throws_a<std::logic_error>(f)) fail(w + " of mismatched shapes is accepted"); };
                   refused("sum", [&] { x.a + y.a; }); refused("comparison", [&] { y.a < x.a; }); refused("zip", [&] { nd::zip(x.a, x.a, y.a); }); refused("zip", [&] { nd::zip(y.a, x.a); }); refused("zip", [&] { nd::zip(x.a, y.a, x.a); });
                   refused("binary_op", [&] { nd::binary_op(std::plus<>())(x.a, y.a); });
                   if (volume(bad) != volume(sh)) refused("reshape", [&] { (x.a | nd::to_shared()) | nd::reshape(to_shape<R>(bad)); });
                   refused("replace", [&] { y.a | nd::replace(nd::make_access_pattern(to_shape<R>(sh)), y.a); });
                   if constexpr (R > 1) { auto other = (ax + 1) % R; refused("concat", [&] { x.a | nd::concat(y.a).on_axis(other); }); (void) V(0); if (volume(bad) < 300) { auto c = x.a | nd::concat(y.a).on_axis(ax); expect_eq("concat shape", c.shape(ax), sh[ax] + bad[ax]); } }
                   refused("concat on a missing axis", [&] { x.a | nd::concat(x.a).on_axis(R); });
                   return x; }
        case 12: { log += "reduce "; hard++; auto ax = s.draw(R);
                   if constexpr (R > 1)
                   {
                       ix<R - 1> rs; for (std::size_t n = 0, k = 0; n < R; ++n) if (n != ax) rs[k++] = sh[n];
                       auto full = [&] (const ix<R - 1>& i, std::size_t q) { ix<R> f; for (std::size_t n = 0, k = 0; n < R; ++n) f[n] = n == ax ? q : i[k++]; return f; };
                       auto which = s.draw(3); auto red = M<R - 1>::make(rs, [&] (auto i) { V r = 0; for (std::size_t q = 0; q < sh[ax]; ++q) { auto v = x.m(full(i, q)); r = which == 0 ? r + v : q == 0 ? v : which == 1 ? std::min(r, v) : std::max(r, v); } return r; });
                       if (which == 0) expect_array("collect(sum)", x.a | nd::collect(nd::sum()).along_axis(ax), red);
                       if (which == 1) expect_array("collect(min)", x.a | nd::collect(nd::min()).along_axis(ax), red);
                       if (which == 2) expect_array("collect(max)", x.a | nd::collect(nd::max()).along_axis(ax), red);
                       if (sh[ax]) { auto q = s.draw(sh[ax]); expect_array("freeze_axis", x.a | nd::freeze_axis(ax).at_index(q), M<R - 1>::make(rs, [&] (auto i) { return x.m(full(i, q)); })); }
                       if (! throws_a<std::logic_error>([&] { x.a | nd::freeze_axis(R).at_index(0); })) fail("freezing a missing axis is accepted");
                       if (! throws_a<std::logic_error>([&] { x.a | nd::collect(nd::sum()).along_axis(R); })) fail("reducing a missing axis is accepted");
                   }
                   return x; }
        case 13: { log += "shift "; hard++; auto ax = s.draw(R); auto d = s.draw(sh[ax] + 2);
                   if (d >= sh[ax]) { if (! throws_a<std::logic_error>([&] { x.a | nd::shift_by(-int(d)).along_axis(ax); })) fail("shifting by the whole length is accepted"); return x; }
                   auto sh2 = sh; sh2[ax] -= d; return {erased<V>(x.a | nd::shift_by(-int(d)).along_axis(ax)), M<R>::make(sh2, [&] (auto i) { i[ax] += d; return x.m(i); })}; }
        case 14: { log += "indexes "; auto ia = nd::index_array(to_shape<R>(sh)); for_each<R>(sh, [&] (auto i) { if (! (ia(to_index<R>(i)) == to_index<R>(i))) fail("index_array"); }); auto w = V(s.draw(5));
                   return {erased<V>(ia | nd::map([w] (auto i) { V r = 0; for (auto k : i) r = r * 10 + V(k); return r + w; })), M<R>::make(sh, [&] (auto i) { V r = 0; for (auto k : i) r = r * 10 + V(k); return r + w; })}; }
        default: { // permuted reshape of the same volume
                   log += "reshape "; hard++; ix<R> sh2; for (std::size_t n = 0; n < R; ++n) sh2[n] = sh[R - 1 - n]; auto m = x.m; m.shape = sh2; return {erased<V>((x.a | nd::to_shared()) | nd::reshape(to_shape<R>(sh2))), m}; }
    }
}

template<std::size_t R> void program(src& s)
{
    auto sh = gen_shape<R>(s); std::string log = "shape " + str<R>(sh) + ": "; int hard = 0;
    auto x = gen_leaf<R>(s, sh, log); auto steps = s.size(1, 5);
    auto publish = [&] { std::memcpy(s.sh->described, log.c_str(), std::min<std::size_t>(log.size() + 1, 60000)); s.described = log; };
    check("leaf", x);
    for (std::size_t k = 0; k < steps; ++k) { auto before = x; publish(); x = step<R>(s, x, log, hard); publish(); check("after step " + show(k), x); check("the operand of step " + show(k), before); }
    // reductions
    V sum = 0; bool all = true, any = false; for (auto v : x.m.v) { sum += v; all = all && v; any = any || v; }
    expect_eq("sum", V(x.a | nd::sum()), sum); expect_eq("all", bool(x.a | nd::all()), all); expect_eq("any", bool(x.a | nd::any()), any);
    if (! x.m.v.empty()) { expect_eq("min", V(x.a | nd::min()), *std::min_element(x.m.v.begin(), x.m.v.end())); expect_eq("max", V(x.a | nd::max()), *std::max_element(x.m.v.begin(), x.m.v.end())); expect_eq("nd::max(a)", V(nd::max(x.a)), *std::max_element(x.m.v.begin(), x.m.v.end())); }
    V cnt = 0; for (auto v : x.m.v) cnt += v > 0; expect_eq("count of true", V((x.a > V(0)) | nd::sum()), cnt);
    expect_iteration("iteration", x.a, x.m);
    s.nontrivial(hard >= 1 && ! x.m.v.empty() && x.m.v.size() > 1); s.cls("empty array", x.m.v.empty()); s.cls("steps>=3", steps >= 3);
}
#define RULE "at least one operation beyond map/copy, and the result has more than one element"
#if PART == 1
LAW("program_rank1", 25000, RULE, program<1>);
#elif PART == 2
LAW("program_rank2", 25000, RULE, program<2>);
#elif PART == 3
LAW("program_rank3", 20000, RULE, program<3>);
#else
LAW("factories", 60000, "at least one non-empty axis longer than 1", [] (src& s)
{
    auto na = s.size(0, 6), nb = s.size(0, 5), nc = s.size(0, 4); s.note("na", na); s.note("nb", nb); s.note("nc", nc);
    auto A = M<1>::make({na}, [&] (auto) { return val(s); }), B = M<1>::make({nb}, [&] (auto) { return val(s); }), C = M<1>::make({nc}, [&] (auto) { return val(s); });
    auto a = nd::make_array_from(A.v); auto b = nd::make_array_from(B.v); auto c = nd::make_array_from(C.v);
    auto cp = nd::cartesian_product(a, b, c); auto [x, y, z] = nd::meshgrid(a, b, c); ix<3> sh{na, nb, nc};
    expect_array("meshgrid x", x, M<3>::make(sh, [&] (auto i) { return A.v[i[0]]; })); expect_array("meshgrid y", y, M<3>::make(sh, [&] (auto i) { return B.v[i[1]]; })); expect_array("meshgrid z", z, M<3>::make(sh, [&] (auto i) { return C.v[i[2]]; }));
    expect_array("cartesian_product", cp | nd::apply([] (V p, V q, V r) { return p + 100 * q + 10000 * r; }), M<3>::make(sh, [&] (auto i) { return A.v[i[0]] + 100 * B.v[i[1]] + 10000 * C.v[i[2]]; }));
    auto cp2 = nd::cartesian_product(b, a); expect_array("2d product", cp2 | nd::apply([] (V p, V q) { return p + 100 * q; }), M<2>::make({nb, na}, [&] (auto i) { return B.v[i[0]] + 100 * A.v[i[1]]; }));
    expect_array("zeros", nd::zeros<V>(na, nb), M<2>::make({na, nb}, [] (auto) { return 0; })); expect_array("ones", nd::ones<V>(nc, nb), M<2>::make({nc, nb}, [] (auto) { return 1; }));
    // arange
    auto n = s.size(0, 12); expect_array("arange(n)", nd::arange(int(n)), M<1>::make({n}, [] (auto i) { return V(i[0]); }));
    int start = int(s.signed_integer(-20, 20)), fin = int(s.signed_integer(-20, 20)), step = int(s.signed_integer(-7, 7)); s.note("arange", show(start) + "," + show(fin) + "," + show(step));
    std::vector<V> want; bool bad = step == 0 || (step > 0 ? fin < start : fin > start);
    if (bad) { if (! throws_a<std::invalid_argument>([&] { nd::arange(start, fin, step); })) fail("an impossible range is accepted"); }
    else { for (int v = start; step > 0 ? v < fin : v > fin; v += step) want.push_back(v); expect_array("arange(start, final, step)", nd::arange(start, fin, step), M<1>{{want.size()}, want}); }
    // linspace
    auto k = s.size(2, 40); double p = s.symmetric(100), q = s.symmetric(100); auto ls = nd::linspace(p, q, k); expect_eq("linspace size", ls.size(), k);
    for (std::size_t i = 0; i < k; ++i) expect_close("linspace", ls(i), p + (q - p) * double(i) / double(k - 1), 1e-13, 1e-12); expect_close("linspace start", ls(std::size_t(0)), p, 0); expect_close("linspace end", ls(k - 1), q, 1e-15, 1e-13);
    // volumes beyond 32 bits
    std::size_t big = s.size(1, 3000000), big2 = s.size(1, 3000000); expect_eq("volume", nd::make_shape(big, big2).volume(), big * big2);
    auto inb = s.size(0, 7), jnb = s.size(0, 6); expect_eq("shape contains", to_shape<2>({na, nb}).contains(inb, jnb), inb < na && jnb < nb);
    s.nontrivial(na > 1 || nb > 1 || nc > 1);
});
// sizes far beyond those of the programs above: every operation at its first, last and a few other places
LAW("large_arrays", 150, "more than 65536 elements", [] (src& s)
{
    std::size_t n = s.coin() ? s.size(300, 3000) : s.size(60000, 140000), m = s.size(1, 9); s.note("n", n); s.note("m", m); long mul = s.signed_integer(1, 1000) * 2 + 1, off = s.signed_integer(-1000, 1000); auto f = [mul, off] (std::size_t i) { return (long(i) * mul + off) % 1000003; }; std::vector<V> v(n); for (std::size_t i = 0; i < n; ++i) v[i] = f(i);
    auto lazy = nd::make_array([f] (auto i) { return f(i[0]); }, nd::make_shape(n)); auto a = lazy | nd::to_shared(); auto b = nd::make_array_from(v); std::vector<std::size_t> at{0, 1, n / 2, n - 2, n - 1}; for (int i = 0; i < 20; ++i) at.push_back(s.size(0, n - 1));
    expect_eq("size", a.size(), n); for (auto i : at) { expect_eq("stored", a(i), v[i]); expect_eq("from a container", b(i), v[i]); } V sum = 0, lo = v[0], hi = v[0]; for (auto x : v) { sum += x; lo = std::min(lo, x); hi = std::max(hi, x); } expect_eq("sum", V(a | nd::sum()), sum); expect_eq("min", V(a | nd::min()), lo); expect_eq("max", V(a | nd::max()), hi);
    auto k = at[s.size(0, at.size() - 1)]; auto hit = nd::index_array(n) | nd::map([k] (auto i) { return i[0] == k; }); expect_eq("any", bool(hit | nd::any()), true); expect_eq("all", bool(! hit | nd::all()), false); expect_eq("all after the exception", bool(((! hit) || hit) | nd::all()), true); auto w = nd::where(hit); expect_eq("number of hits", w.size(), std::size_t(1)); expect_eq("place of the hit", w(std::size_t(0))[0], k);
    std::size_t even = 0; for (auto x : v) even += x % 2 == 0; expect_eq("count of true", std::size_t((a | nd::map([] (V x) { return x % 2 == 0; })) | nd::sum()), even); expect_eq("number found", nd::where(a | nd::map([] (V x) { return x % 2 == 0; })).size(), even);
    auto c = a | nd::concat(b); expect_eq("concatenated", c.size(), 2 * n); for (auto i : at) { expect_eq("first part", c(i), v[i]); expect_eq("second part", c(n + i), v[i]); } auto z = nd::zip(a, b) | nd::apply([] (V x, V y) { return x + 3 * y; }) | nd::to_shared(); for (auto i : at) expect_eq("zipped", z(i), 4 * v[i]); std::size_t seen = 0; for (auto x : z) { if (x != 4 * v[seen]) fail("iteration goes wrong at " + show(seen)); ++seen; } expect_eq("elements iterated", seen, n);
    auto g = nd::index_array(n, m) | nd::map([m, f] (auto i) { return f(i[0]) * 16 + long(i[1]); }) | nd::to_shared(); for (auto i : at) { auto j = s.size(0, m - 1); expect_eq("2d", g(i, j), v[i] * 16 + long(j)); expect_eq("2d order", (g | nd::reshape(n * m))(i * m + j), v[i] * 16 + long(j)); expect_eq("2d reshaped", (g | nd::reshape(m, n))((i * m + j) / n, (i * m + j) % n), v[i] * 16 + long(j)); } auto h = nd::index_array(m, n) | nd::map([f] (auto i) { return f(i[1]) * 16 + long(i[0]); }) | nd::to_shared(); for (auto i : at) { auto j = s.size(0, m - 1); expect_eq("2d, long rows", h(j, i), v[i] * 16 + long(j)); expect_eq("frozen", (h | nd::freeze_axis(0).at_index(j))(i), v[i] * 16 + long(j)); } auto r = h | nd::collect(nd::sum()).along_axis(0); for (auto i : at) expect_eq("reduced", V(r(i)), long(m) * v[i] * 16 + long(m * (m - 1) / 2));
    // factories whose elements are not stored
    int N = int(s.integer(100000, 2000000000)); auto ar = nd::arange(N); expect_eq("arange size", ar.size(), std::size_t(N)); for (int i = 0; i < 8; ++i) { auto q = s.size(0, N - 1); expect_eq("arange", std::size_t(ar(q)), q); }
    int start = int(s.signed_integer(-400000000, 400000000)), count = int(s.integer(1, 400000)), step = int(s.integer(1, 1000)) * (s.coin() ? 1 : -1); auto as = nd::arange(start, start + count * step, step); expect_eq("arange(start, final, step) size", as.size(), std::size_t(count)); for (int i = 0; i < 8; ++i) { auto q = s.size(0, count - 1); expect_eq("arange(start, final, step)", int(as(q)), start + int(q) * step); } expect_eq("arange(start, final, step) last", int(as(std::size_t(count - 1))), start + (count - 1) * step);
    auto K = s.size(2, 3000000000ul); double p = s.symmetric(100), q = s.symmetric(100); auto ls = nd::linspace(p, q, K); expect_eq("linspace size", ls.size(), K); for (int i = 0; i < 8; ++i) { auto j = s.size(0, K - 1); expect_close("linspace", ls(j), double(p + (q - (long double) p) * j / (K - 1)), 1e-13, 1e-12); } expect_close("linspace end", ls(K - 1), q, 1e-15, 1e-13);
    s.nontrivial(n > 65536);
});
// multi-component values, constness of shared data
LAW("values_of_any_type", 12000, "more than one element", [] (src& s)
{
    auto n = s.size(0, 6), m = s.size(1, 4); model<std::string, 2> ref; ref = model<std::string, 2>::make({n, m}, [&] (auto) { return std::string(s.draw(30), char('a' + s.draw(26))); });
    auto a = nd::make_array([ref] (auto i) { return ref({i[0], i[1]}); }, nd::make_shape(n, m)); expect_array("strings", a | nd::to_shared(), ref);
    auto up = a | nd::map([] (auto x) { return x + "!"; }) | nd::to_shared(); auto want = ref; for (auto& x : want.v) x += "!"; expect_array("mapped strings", up, want);
    std::string sum; for (auto& x : ref.v) sum += x; expect_eq("sum in order", a | nd::sum(), sum);
    auto u = nd::make_unique_array<std::string>(n, m); for (auto i : a.indexes()) u(i) = a(i); auto v = std::move(u); expect_array("moved", v, ref); auto w = nd::make_unique_array<std::string>(1, 1); w = std::move(v); expect_array("move-assigned", w, ref); auto sh = std::move(w).shared(); expect_array("shared", sh, ref);
    auto sh2 = sh; sh = up; expect_array("the old array through another handle", sh2, ref); expect_array("rebound", sh, want);
    s.note("n", n); s.note("m", m); s.nontrivial(n * m > 1);
});
// elements that are neither whole numbers nor booleans
LAW("arrays_of_reals", 20000, "more than one element, some of them between -1 and 1", [] (src& s)
{
    auto n = s.size(0, 7), m = s.size(1, 5); bool small = false; model<double, 2> ref = model<double, 2>::make({n, m}, [&] (auto) { double x = s.chance(1, 4) ? 0.0 : s.coin() ? s.symmetric(1) * std::pow(10.0, -double(s.size(0, 12))) : s.symmetric(1e6); small = small || (x != 0 && std::abs(x) < 1); return x; });
    auto a = nd::make_array([ref] (auto i) { return ref({i[0], i[1]}); }, nd::make_shape(n, m)) | nd::to_shared(); expect_array("stored", a, ref); std::vector<ix<2>> hits; bool all = true, any = false; double sum = 0, mag = 0; for_each<2>(ref.shape, [&] (auto i) { double x = ref(i); if (x != 0) hits.push_back(i); all = all && x != 0; any = any || x != 0; sum += x; mag += std::abs(x); });
    auto w = nd::where(a); expect_eq("number of non-zero elements", w.size(), hits.size()); for (std::size_t k = 0; k < hits.size(); ++k) if (! (w(k) == to_index<2>(hits[k]))) fail("where: element " + show(k) + " is wrong"); expect_eq("all", bool(a | nd::all()), all); expect_eq("any", bool(a | nd::any()), any); expect_close("sum", a | nd::sum(), sum, 1e-300 + 1e-13 * mag, 0);
    if (n) { expect_eq("min", a | nd::min(), *std::min_element(ref.v.begin(), ref.v.end())); expect_eq("max", a | nd::max(), *std::max_element(ref.v.begin(), ref.v.end())); }
    double t = s.coin() && n ? ref.v[s.size(0, ref.v.size() - 1)] : s.symmetric(1); auto want = [&] (auto f) { return model<double, 2>::make(ref.shape, [&] (auto i) { return double(f(ref(i))); }); }; auto d = nd::map([] (auto x) { return double(x); });
    expect_array("a > t", (a > t) | d, want([t] (double x) { return x > t; })); expect_array("a < t", (a < t) | d, want([t] (double x) { return x < t; })); expect_array("a >= t", (a >= t) | d, want([t] (double x) { return x >= t; })); expect_array("a <= t", (a <= t) | d, want([t] (double x) { return x <= t; })); expect_array("a == t", (a == t) | d, want([t] (double x) { return x == t; })); expect_array("a != t", (a != t) | d, want([t] (double x) { return x != t; }));
    expect_array("a * t + t", a * t + t, want([t] (double x) { double y = x * t; return y + t; })); expect_array("a - a / 3", a - a / 3.0, want([] (double x) { double y = x / 3; return x - y; })); expect_array("-a", -a, want([] (double x) { return -x; })); expect_array("!a", (! a) | d, want([] (double x) { return ! x; }));
    nd::buffer_t<double> b(ref.v.begin(), ref.v.end()); const auto& c = b; expect_eq("buffer size", c.size(), ref.v.size()); expect_eq("buffer empty", c.empty(), ref.v.empty()); for (std::size_t i = 0; i < ref.v.size(); ++i) if (b.at(i) != ref.v[i] || c.at(i) != ref.v[i] || b[i] != ref.v[i] || c[i] != ref.v[i] || c.data()[i] != ref.v[i]) fail("an element of a buffer differs"); expect_eq("elements walked", std::size_t(c.end() - c.begin()), ref.v.size()); auto past = ref.v.size() + s.size(0, 3); if (! throws_a<std::out_of_range>([&] { b.at(past); }) || ! throws_a<std::out_of_range>([&] { c.at(past); })) fail("a buffer can be read past its end");
    s.note("n", n); s.note("m", m); s.nontrivial(n * m > 1 && small);
});
#endif
PBT_MAIN
