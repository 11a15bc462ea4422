// C07: index regions, selections, stencils, guard zones and domain partitions against enumeration.
#include "nd_model.hpp"
#include "app_parallel.hpp"
#ifndef PART
#define PART 0
#endif
using namespace pbt;
using V = long;
template<std::size_t R> using M = model<V, R>;
template<std::size_t R> ix<R> gen_shape(src& s, std::size_t lo=1) { ix<R> r; auto hi = s.chance(1, 40) ? (R == 1 ? 300 : R == 2 ? 40 : 11) : (R == 1 ? 12 : R == 2 ? 7 : 4); for (auto& n : r) n = s.size(lo, hi); return r; }
template<std::size_t R> auto gen_array(src& s, const ix<R>& sh, M<R>& m)
{
    m = M<R>::make(sh, [&] (auto) { return V(s.signed_integer(-99, 99)); });
    auto v = m; return nd::make_array([v] (auto i) { ix<R> k; for (std::size_t n = 0; n < R; ++n) k[n] = i[n]; return v(k); }, to_shape<R>(sh)) | nd::to_shared();
}
template<std::size_t R> std::vector<ix<R>> enumerate(const ix<R>& st, const ix<R>& fi, const ix<R>& ju)
{
    ix<R> cnt; for (std::size_t n = 0; n < R; ++n) cnt[n] = fi[n] > st[n] ? (fi[n] - st[n] + ju[n] - 1) / ju[n] : 0;
    std::vector<ix<R>> r; for_each<R>(cnt, [&] (auto i) { for (std::size_t n = 0; n < R; ++n) i[n] = st[n] + ju[n] * i[n]; r.push_back(i); }); return r;
}

// regions: iteration, membership, index maps, bounds
template<std::size_t R> void regions(src& s)
{
    ix<R> st, fi, ju; for (std::size_t n = 0; n < R; ++n) { st[n] = s.draw(6); fi[n] = s.chance(1, 8) ? s.draw(7) : st[n] + 1 + s.draw(R == 3 ? 4 : 7); ju[n] = s.size(1, 4); }
    s.note("start", str<R>(st)); s.note("final", str<R>(fi)); s.note("jumps", str<R>(ju));
    nd::jumps_t<R> j; for (std::size_t n = 0; n < R; ++n) j[n] = ju[n];
    auto p = nd::access_pattern_t<R>().with_start(to_index<R>(st)).with_final(to_index<R>(fi)).with_jumps(j);
    auto want = enumerate<R>(st, fi, ju); expect_eq("size", p.size(), want.size()); expect_eq("empty", p.empty(), want.empty());
    std::size_t k = 0; for (auto i : p) { if (k >= want.size()) fail("iterates past the end"); if (! (i == to_index<R>(want[k]))) fail("element " + show(k) + " is " + nd::to_string(i) + ", want " + str<R>(want[k])); ++k; } expect_eq("elements visited", k, want.size());
    k = 0; for (auto i : nd::make_access_pattern(p.shape())) { if (! (p.map_index(i) == to_index<R>(want.at(k)))) fail("map_index"); if (! (p.inverse_map_index(p.map_index(i)) == i)) fail("inverse_map_index"); if (! p.contains(i)) fail("contains"); ++k; } expect_eq("mapped indexes", k, want.size());
    std::set<ix<R>> in(want.begin(), want.end()); ix<R> box; for (auto& b : box) b = R == 3 ? 8 : 14;
    for_each<R>(box, [&] (auto i) { bool g = p.generates(to_index<R>(i)); if (g != (in.count(i) > 0)) fail("generates " + str<R>(i) + " says " + show(g)); bool c = true; for (std::size_t n = 0; n < R; ++n) c = c && i[n] < p.shape()[n]; if (p.contains(to_index<R>(i)) != c) fail("contains " + str<R>(i)); });
    // a region fits in a shape if and only if all it generates does; selecting outside is refused
    ix<R> sh; for (std::size_t n = 0; n < R; ++n) sh[n] = s.size(0, s.chance(1, 30) ? (R == 1 ? 400 : 30) : R == 3 ? 6 : 13); s.note("shape", str<R>(sh));
    bool fits = true; for (auto& i : want) for (std::size_t n = 0; n < R; ++n) fits = fits && i[n] < sh[n];
    if (! want.empty())
    {
        expect_eq("within", p.within(to_shape<R>(sh)), fits);
        M<R> m; auto a = gen_array<R>(s, sh, m);
        if (! fits) { if (! throws_a<std::logic_error>([&] { a | nd::select(p); })) fail("an out-of-bounds selection is accepted"); if (! throws_a<std::logic_error>([&] { a | nd::select_from(to_index<R>(st)).to(to_index<R>(fi)).jumping(j); })) fail("an out-of-bounds select_from is accepted"); }
        else
        {
            ix<R> cnt; for (std::size_t n = 0; n < R; ++n) cnt[n] = (fi[n] - st[n] + ju[n] - 1) / ju[n]; std::size_t q = 0; auto sel = M<R>::make(cnt, [&] (auto) { return m(want[q++]); });
            expect_array("select", a | nd::select(p), sel); expect_array("select_from.to.jumping", a | nd::select_from(to_index<R>(st)).to(to_index<R>(fi)).jumping(j), sel);
            if (s.coin()) expect_array("select of select", a | nd::select(p) | nd::select(nd::make_access_pattern(to_shape<R>(cnt))), sel);
        }
    }
    else
    {
        // a region without elements fits where it starts no further than the end of the shape
        bool in = true; for (std::size_t n = 0; n < R; ++n) in = in && st[n] <= sh[n]; expect_eq("within (no elements)", p.within(to_shape<R>(sh)), in); M<R> m; auto a = gen_array<R>(s, sh, m);
        if (in) expect_eq("size of an empty selection", (a | nd::select(p)).size(), std::size_t(0)); else if (! throws_a<std::logic_error>([&] { a | nd::select(p); })) fail("an out-of-bounds selection without elements is accepted");
    }
    s.nontrivial(want.size() > 1); s.cls("empty", want.empty()); s.cls(fits ? "fits" : "out of bounds");
}

template<std::size_t R> void stencils(src& s)
{
    auto sh = gen_shape<R>(s); auto ax = s.draw(R); s.note("shape", str<R>(sh)); s.note("axis", ax); M<R> m; auto a = gen_array<R>(s, sh, m); auto N = sh[ax];
    auto along = [&] (std::size_t n, auto f) { auto t = sh; t[ax] = n; return M<R>::make(t, [&] (auto i) { auto at = [&] (std::size_t k) { auto j = i; j[ax] = k; return m(j); }; return V(f(at, i[ax])); }); };
    // one-axis selections
    auto from = s.draw(N + 1), to = from + s.draw(N - from + 1), jump = s.size(1, 4); auto cnt = (to - from + jump - 1) / jump; s.note("from", from); s.note("to", to); s.note("jump", jump);
    auto sel = along(cnt, [&] (auto at, auto i) { return at(from + jump * i); });
    expect_array("select_axis", a | nd::select_axis(ax).from(from).to(to).jumping(jump), sel); expect_array("select_axis, other orders", a | nd::select_axis(ax).to(to).from(from).jumping(jump), sel); expect_array("select_axis, other orders", a | nd::select_axis(ax).jumping(jump).to(to).from(from), sel); expect_array("select_axis, other orders", a | nd::select_axis(ax).to(N - to).from_the_end().jumping(jump).from(from), sel); expect_array("select_axis from the end", a | nd::select_axis(ax).from(from).to(N - to).from_the_end().jumping(jump), sel);
    if (! throws_a<std::logic_error>([&] { a | nd::select_axis(R).from(0).to(1); })) fail("selecting a missing axis is accepted");
    auto c = s.draw(N + 1); expect_array("select_first", a | nd::select_first(c, ax), along(c, [&] (auto at, auto i) { return at(i); })); expect_array("select_final", a | nd::select_final(c, ax), along(c, [&] (auto at, auto i) { return at(N - c + i); }));
    expect_array("take_first", a | nd::take_first_on_axis(ax), along(1, [&] (auto at, auto) { return at(0); })); expect_array("take_final", a | nd::take_final_on_axis(ax), along(1, [&] (auto at, auto) { return at(N - 1); }));
    expect_array("drop_first", a | nd::drop_first_on_axis(ax), along(N - 1, [&] (auto at, auto i) { return at(i + 1); })); expect_array("drop_final", a | nd::drop_final_on_axis(ax), along(N - 1, [&] (auto at, auto i) { return at(i); }));
    // stencils
    auto half = a | nd::midpoint_on_axis(ax) | nd::map([] (double x) { if (2 * x != std::round(2 * x)) fail("a midpoint is not a half-integer"); return V(std::lround(2 * x)); });
    expect_array("twice the midpoint", half, along(N - 1, [&] (auto at, auto i) { return at(i) + at(i + 1); }));
    expect_array("difference", a | nd::difference_on_axis(ax), along(N - 1, [&] (auto at, auto i) { return at(i + 1) - at(i); }));
    expect_array("adjacent pairs", a | nd::zip_adjacent2_on_axis(ax) | nd::apply([] (V p, V q) { return p + 1000 * q; }), along(N - 1, [&] (auto at, auto i) { return at(i) + 1000 * at(i + 1); }));
    if (N >= 2) expect_array("adjacent triples", a | nd::zip_adjacent3_on_axis(ax) | nd::apply([] (V p, V q, V r) { return p + 1000 * q + 1000000 * r; }), along(N - 2, [&] (auto at, auto i) { return at(i) + 1000 * at(i + 1) + 1000000 * at(i + 2); }));
    // guard zones
    auto g = s.size(0, N); expect_array("periodic guard zones", a | nd::extend_periodic_on_axis(ax, g), along(N + 2 * g, [&] (auto at, auto i) { return at((i + N - g) % N); })); expect_array("periodic, one zone", a | nd::extend_periodic_on_axis(ax), along(N + 2, [&] (auto at, auto i) { return at((i + N - 1) % N); }));
    expect_array("zero-gradient guard zones", a | nd::extend_zero_gradient(ax), along(N + 2, [&] (auto at, auto i) { return at(i == 0 ? 0 : i == N + 1 ? N - 1 : i - 1); }));
    expect_array("zero guard zones", a | nd::extend_zeros(ax), along(N + 2, [&] (auto at, auto i) { return i == 0 || i == N + 1 ? 0 : at(i - 1); }));
    // fluxes through periodic guard zones telescope: the differences sum to zero along the axis
    auto d = a | nd::extend_periodic_on_axis(ax, 1) | nd::zip_adjacent2_on_axis(ax) | nd::apply([] (V p, V q) { return 2 * p - 3 * q; }) | nd::difference_on_axis(ax);
    expect_eq("cells of the update", d.shape(ax), N); expect_eq("total of the update", V(d | nd::sum()), V(0));
    auto k = V(s.signed_integer(-5, 5)); expect_array("multiply", a | nd::multiply(k), along(N, [&] (auto at, auto i) { return at(i) * k; })); if (k) expect_array("divide", a | nd::divide(k), along(N, [&] (auto at, auto i) { return at(i) / k; }));
    s.nontrivial(N >= 3 && m.v.size() > 3); s.cls("jump>1", jump > 1); s.cls("wide guard", g > 1);
}

// groups and partitions: disjoint, complete, equitable
template<std::size_t N, std::size_t R> void one_partition(const ix<R>& sh)
{
    auto parts = nd::partition_shape<N>(to_shape<R>(sh)); std::vector<ix<R>> all; std::size_t lo = std::size_t(-1), hi = 0;
    for (std::size_t n = 0; n < N; ++n) { for (auto i : parts[n]) { ix<R> k; for (std::size_t q = 0; q < R; ++q) k[q] = i[q]; all.push_back(k); } lo = std::min(lo, parts[n].shape()[0]); hi = std::max(hi, parts[n].shape()[0]); }
    std::vector<ix<R>> want; for_each<R>(sh, [&] (auto i) { want.push_back(i); });
    if (! (all == want)) fail(show(N) + " partitions of " + str<R>(sh) + " do not cover it once, in order"); if (hi > lo + 1) fail(show(N) + " partitions of " + str<R>(sh) + " have unequal sizes");
}
template<std::size_t R> void partitions(src& s)
{
    auto sh = gen_shape<R>(s, s.chance(4, 5) ? 1 : 0); if (s.coin()) sh[0] = s.size(0, 40); s.note("shape", str<R>(sh));
    one_partition<1, R>(sh); one_partition<2, R>(sh); one_partition<3, R>(sh); one_partition<4, R>(sh); one_partition<7, R>(sh); one_partition<8, R>(sh); one_partition<12, R>(sh);
    // block decomposition
    ix<R> nb; for (std::size_t n = 0; n < R; ++n) nb[n] = s.chance(4, 5) ? s.size(1, std::max<std::size_t>(1, std::min<std::size_t>(5, sh[n]))) : s.size(1, 5); s.note("blocks", str<R>(nb)); bool possible = true; for (std::size_t n = 0; n < R; ++n) possible = possible && nb[n] <= sh[n];
    if (! possible) { if (! throws_a<std::logic_error>([&] { mara::create_access_pattern_array(to_shape<R>(sh), to_shape<R>(nb)); })) fail("more blocks than zones are accepted"); }
    else
    {
        auto b = mara::create_access_pattern_array(to_shape<R>(sh), to_shape<R>(nb)); auto cover = M<R>::make(sh, [] (auto) { return 0; }); std::vector<std::map<std::size_t, std::pair<std::size_t, std::size_t>>> edges(R);
        for_each<R>(nb, [&] (auto q) { auto p = b(to_index<R>(q)); if (p.empty()) fail("an empty block"); for (auto i : p) { ix<R> k; for (std::size_t n = 0; n < R; ++n) k[n] = i[n]; cover(k)++; }
            for (std::size_t n = 0; n < R; ++n) { auto e = std::make_pair(p.start[n], p.final[n]); if (edges[n].count(q[n]) && edges[n][q[n]] != e) fail("blocks of one row differ in extent"); edges[n][q[n]] = e; if (p.jumps[n] != 1) fail("a strided block"); } });
        for (auto v : cover.v) if (v != 1) fail("a zone is in " + show(v) + " blocks");
        for (std::size_t n = 0; n < R; ++n) { std::size_t at = 0, lo = 1u << 30, hi = 0; for (std::size_t q = 0; q < nb[n]; ++q) { if (edges[n][q].first != at) fail("blocks are not in order"); at = edges[n][q].second; auto w = edges[n][q].second - edges[n][q].first; lo = std::min(lo, w); hi = std::max(hi, w); } if (hi > lo + 1) fail("blocks of unequal size"); }
        ix<R> out = nb; if (! throws_a<std::out_of_range>([&] { b(to_index<R>(out)); })) fail("a block outside the decomposition");
    }
    std::size_t n = s.size(1, s.coin() ? 64 : 5000); s.note("ranks", n); auto bs = mara::propose_block_decomposition<R>(n); std::size_t v = 1; for (auto d : bs) { v *= d; } expect_eq("number of blocks", v, n);
    s.nontrivial(possible && volume(nb) > 1); s.cls("too many blocks", ! possible);
}
// indexes, shapes and patterns compare and step component by component
template<std::size_t R> void index_algebra(src& s)
{
    ix<R> a, b; for (std::size_t n = 0; n < R; ++n) { a[n] = s.draw(5); b[n] = s.chance(1, 2) ? a[n] : s.draw(5); } s.note("a", str<R>(a)); s.note("b", str<R>(b));
    auto i = to_index<R>(a), j = to_index<R>(b); auto sa = to_shape<R>(a), sb = to_shape<R>(b); auto all = [&] (auto f) { for (std::size_t n = 0; n < R; ++n) if (! f(a[n], b[n])) return false; return true; };
    bool same = a == b; expect_eq("index ==", i == j, same); expect_eq("index !=", i != j, ! same); expect_eq("shape ==", sa == sb, same); expect_eq("shape !=", sa != sb, ! same);
    expect_eq("index <", i < j, all(std::less<>())); expect_eq("index >", i > j, all(std::greater<>())); expect_eq("index <=", i <= j, all(std::less_equal<>())); expect_eq("index >=", i >= j, all(std::greater_equal<>()));
    expect_eq("shape contains", sa.contains(j), all([] (auto x, auto y) { return y < x; })); expect_eq("volume", sa.volume(), volume(a)); if (! (sa.last_index() == i)) fail("last_index"); if (! (i.transform([] (auto x) { return x * 2 + 1; }) == [&] { auto c = a; for (auto& x : c) x = 2 * x + 1; return to_index<R>(c); }())) fail("transform");
    for (std::size_t ax = 0; ax <= R; ++ax)
    {
        if (ax == R) { if (! throws_a<std::invalid_argument>([&] { i.next_on(ax); }) || ! throws_a<std::invalid_argument>([&] { i.prev_on(ax); })) fail("stepping on a missing axis"); break; }
        auto up = a; up[ax]++; if (! (i.next_on(ax) == to_index<R>(up))) fail("next_on axis " + show(ax)); if (! (to_index<R>(up).prev_on(ax) == i)) fail("prev_on axis " + show(ax));
    }
    if (! (nd::index_t<R>::from_range(std::vector<std::size_t>(a.begin(), a.end())) == i)) fail("from_range"); if (! throws_a<std::logic_error>([&] { nd::index_t<R>::from_range(std::vector<std::size_t>(R + 1, 0)); })) fail("from_range of the wrong size");
    { auto u = nd::index_t<R>::uniform(a[0]), r = nd::index_t<R>::range(); for (std::size_t n = 0; n < R; ++n) { expect_eq("uniform", u[n], a[0]); expect_eq("range", r[n], n); } expect_eq("size", i.size(), R); std::vector<std::size_t> v(i.begin(), i.end()), w(a.begin(), a.end()); expect_eq("iteration", v, w); }
    // a pattern is its start, its end and its steps
    ix<R> c, d, e, f; for (std::size_t n = 0; n < R; ++n) { c[n] = a[n] + 1 + s.draw(3); d[n] = s.chance(1, 2) ? c[n] : c[n] + s.draw(2); e[n] = s.size(1, 2); f[n] = s.chance(1, 2) ? e[n] : s.size(1, 3); } auto jmp = [] (const ix<R>& x) { nd::jumps_t<R> r; for (std::size_t n = 0; n < R; ++n) r[n] = x[n]; return r; };
    auto p = nd::access_pattern_t<R>().with_start(i).with_final(to_index<R>(c)).with_jumps(jmp(e)), q = nd::access_pattern_t<R>().with_start(j).with_final(to_index<R>(d)).with_jumps(jmp(f)); s.note("final", str<R>(c) + str<R>(d)); bool eq = a == b && c == d && e == f; expect_eq("pattern ==", p == q, eq); expect_eq("pattern !=", p != q, ! eq); if (! (p == p) || p != p) fail("a pattern is not itself");
    auto want = enumerate<R>(a, c, e); std::size_t k = 0; auto at = i; while (true) { ++k; bool more = p.advance(at); expect_eq("advance", more, k < want.size()); if (! more) break; if (! (at == to_index<R>(want.at(k)))) fail("advance leads to " + nd::to_string(at)); } expect_eq("steps", k, want.size());
    // the memory of arrays
    auto n = s.draw(6); nd::buffer_t<V> x(n, 7); expect_eq("buffer size", x.size(), n); expect_eq("buffer empty", x.empty(), n == 0); for (std::size_t l = 0; l < n; ++l) { expect_eq("filled", x.at(l), V(7)); x[l] = V(l); } if (! throws_a<std::out_of_range>([&] { x.at(n); })) fail("buffer index"); 
    std::vector<V> from; for (std::size_t l = 0; l < n; ++l) from.push_back(V(l)); nd::buffer_t<V> y(from.begin(), from.end()); expect_eq("buffer of a range", std::vector<V>(y.begin(), y.end()), from); auto z = std::move(x); expect_eq("moved", std::vector<V>(z.begin(), z.end()), from); if (! x.empty() || x.size()) fail("moved-from buffer"); x = std::move(z); expect_eq("moved back", std::vector<V>(x.begin(), x.end()), from);
    s.nontrivial(! same && want.size() > 1); s.cls("equal", same);
}
#if PART == 0
LAW("index_algebra_rank1", 60000, "two different indexes and a pattern of several", index_algebra<1>);
LAW("index_algebra_rank2", 60000, "two different indexes and a pattern of several", index_algebra<2>);
LAW("index_algebra_rank3", 60000, "two different indexes and a pattern of several", index_algebra<3>);
LAW("groups", 20000, "more elements than groups, and at least two groups", [] (src& s)
{
    auto n = s.size(0, s.coin() ? 60 : 3000), g = s.size(1, s.coin() ? 24 : 200); s.note("n", n); s.note("groups", g); auto a = nd::arange(int(n)) | nd::map([] (auto i) { return V(i) * 7; }); auto d = a | nd::divvy(g); expect_eq("number of groups", d.size(), g);
    std::vector<V> all; std::size_t lo = n + 1, hi = 0; for (auto grp : d) { for (auto x : grp) all.push_back(x); lo = std::min<std::size_t>(lo, grp.size()); hi = std::max<std::size_t>(hi, grp.size()); }
    std::vector<V> want; for (std::size_t i = 0; i < n; ++i) want.push_back(V(i) * 7); expect_eq("union of the groups", all, want); if (hi > lo + 1) fail("groups of " + show(lo) + " and " + show(hi));
    s.nontrivial(n > g && g > 1);
});
LAW("regions_rank1", 80000, "the region has more than one index", regions<1>);
LAW("regions_rank2", 30000, "the region has more than one index", regions<2>);
#elif PART == 1
LAW("regions_rank3", 15000, "the region has more than one index", regions<3>);
LAW("partitions_rank1", 30000, "a possible decomposition into several blocks", partitions<1>);
LAW("partitions_rank2", 15000, "a possible decomposition into several blocks", partitions<2>);
LAW("partitions_rank3", 8000, "a possible decomposition into several blocks", partitions<3>);
#elif PART == 2
LAW("stencils_rank1", 30000, "at least three zones along the axis", stencils<1>);
LAW("stencils_rank2", 15000, "at least three zones along the axis", stencils<2>);
#else
LAW("stencils_rank3", 4000, "at least three zones along the axis", stencils<3>);
#endif
PBT_MAIN
