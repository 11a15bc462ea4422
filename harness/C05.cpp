// C05: moving block data between levels is exact and conservative; a fetched block is the mesh's own field seen at the asked-for level.
#include "mesh_model.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "mesh_tree_operators.hpp"
using namespace pbt;
using idx = mara::tree_index_t<2>;
template<std::size_t R> using arr = nd::shared_array<double, R>;
template<std::size_t R> using ix = nd::index_t<R>;

template<std::size_t R> arr<R> gen_array(src& s, nd::shape_t<R> sh)
{
    auto A = nd::make_unique_array<double>(sh); bool ints = s.coin();
    for (auto i : nd::make_access_pattern(sh)) A(i) = ints ? double(s.signed_integer(-8, 8)) : s.symmetric(10);
    return std::move(A).shared();
}
template<std::size_t R> nd::shape_t<R> gen_shape(src& s, std::size_t lo, std::size_t hi) { nd::shape_t<R> sh; if (s.chance(1, 40)) hi *= R == 1 ? 40 : R == 2 ? 6 : 3; for (std::size_t a = 0; a < R; ++a) sh[a] = s.size(lo, hi); return sh; }
template<typename A, typename B> void same(const std::string& what, const A& a, const B& b)
{
    if (a.shape() != b.shape()) fail(what + ": shape " + nd::to_string(a.shape()) + ", want " + nd::to_string(b.shape()));
    for (auto i : nd::make_access_pattern(a.shape())) expect_close(what + " at " + nd::to_string(i), a(i), b(i), 1e-13, 1e-12);
}
template<typename A> double total(const A& a) { double t = 0; for (auto i : nd::make_access_pattern(a.shape())) t += a(i); return t; }

// one axis at a time
template<std::size_t R> void axis_ops(src& s)
{
    auto sh = gen_shape<R>(s, 1, 5); auto a = s.draw(R); auto C = gen_array<R>(s, sh); s.note("shape", nd::to_string(sh)); s.note("axis", a);
    auto P = C | mara::prolong_cells(a) | nd::to_shared(); auto psh = sh; psh[a] *= 2;
    if (P.shape() != psh) fail("prolong_cells shape");
    for (auto i : nd::make_access_pattern(psh)) { auto j = i; j[a] /= 2; expect_close("prolonged cell", P(i), C(j), 0); }
    same("restriction undoes prolongation", P | mara::restrict_cells(a) | nd::to_shared(), C);
    auto F = gen_array<R>(s, psh);
    auto Rc = F | mara::restrict_cells(a) | nd::to_shared(), Re = F | mara::restrict_extrinsic(a) | nd::to_shared();
    if (Rc.shape() != sh || Re.shape() != sh) fail("restrict shape");
    for (auto i : nd::make_access_pattern(sh)) { auto j = i, k = i; j[a] = 2 * i[a]; k[a] = 2 * i[a] + 1; expect_close("mean of two cells", Rc(i), 0.5 * (F(j) + F(k)), 1e-13, 1e-12); expect_close("total of two cells", Re(i), F(j) + F(k), 1e-13, 1e-12); }
    expect_close("extensive total", total(Re), total(F), 1e-12, 1e-10); expect_close("mean", total(Rc) * 2, total(F), 1e-12, 1e-10);
    auto lo = F | mara::bisect_cells_lower(a) | nd::to_shared(), hi = F | mara::bisect_cells_upper(a) | nd::to_shared();
    if (lo.shape() != sh || hi.shape() != sh) fail("bisect_cells shape");
    for (auto i : nd::make_access_pattern(sh)) { auto j = i; j[a] += sh[a]; expect_close("lower half", lo(i), F(i), 0); expect_close("upper half", hi(i), F(j), 0); }
    if (sh[a] % 2 && ! throws([&] { C | mara::bisect_cells(a); })) fail("an odd number of cells was bisected");
    // vertices: one more than cells
    auto vsh = sh; vsh[a] += 1; auto V = gen_array<R>(s, vsh); auto Q = V | mara::prolong_verts(a) | nd::to_shared(); auto qsh = vsh; qsh[a] = 2 * vsh[a] - 1;
    if (Q.shape() != qsh) fail("prolong_verts shape");
    for (auto i : nd::make_access_pattern(qsh)) { auto j = i, k = i; j[a] = i[a] / 2; k[a] = (i[a] + 1) / 2; expect_close("prolonged vertex", Q(i), 0.5 * (V(j) + V(k)), 1e-13, 1e-12); }
    same("vertex restriction undoes prolongation", Q | mara::restrict_verts(a) | nd::to_shared(), V);
    auto vl = Q | mara::bisect_verts_lower(a) | nd::to_shared(), vu = Q | mara::bisect_verts_upper(a) | nd::to_shared();
    if (vl.shape() != vsh || vu.shape() != vsh) fail("bisect_verts shape");
    for (auto i : nd::make_access_pattern(vsh)) { auto j = i; j[a] += sh[a]; expect_close("lower vertices", vl(i), Q(i), 0); expect_close("upper vertices", vu(i), Q(j), 0); }
    if (vsh[a] % 2 == 0 && ! throws([&] { V | mara::bisect_verts(a); })) fail("an even number of vertices was bisected");
    s.nontrivial(sh.volume() > 1); s.cls("odd", sh[a] % 2);
}
LAW("axis_rank1", 60000, "more than one cell", axis_ops<1>);
LAW("axis_rank2", 60000, "more than one cell", axis_ops<2>);
LAW("axis_rank3", 30000, "more than one cell", axis_ops<3>);

// whole blocks: 2^R children and back
template<std::size_t R> void block_ops(src& s)
{
    auto sh = gen_shape<R>(s, 1, 4); auto C = gen_array<R>(s, sh); s.note("shape", nd::to_string(sh));
    auto ch = (C | mara::refine_cells<R>()).map(nd::to_shared()); double sum = 0;
    for (std::size_t k = 0; k < (1 << R); ++k)
    {
        if (ch[k].shape() != sh) fail("child shape"); sum += total(ch[k]);
        for (auto i : nd::make_access_pattern(sh)) { auto j = i; for (std::size_t a = 0; a < R; ++a) j[a] = (i[a] + ((k >> a) & 1) * sh[a]) / 2; expect_close("cell of child " + show(k), ch[k](i), C(j), 0); }
    }
    expect_close("conservation under refinement", sum, total(C) * (1 << R), 1e-12, 1e-10);
    auto big = mara::combine_cells(ch) | nd::to_shared(); same("refine, combine, coarsen", big | mara::coarsen_cells<R>() | nd::to_shared(), C);
    // arbitrary child data: combining places each child in its orthant, coarsening averages 2^R cells
    auto D = mara::iota<(1 << R)>().map([&] (auto) { return gen_array<R>(s, sh); }); auto comb = mara::combine_cells(D) | nd::to_shared(); auto bsh = sh; for (std::size_t a = 0; a < R; ++a) bsh[a] *= 2;
    if (comb.shape() != bsh) fail("combined shape");
    for (auto i : nd::make_access_pattern(bsh)) { std::size_t k = 0; auto j = i; for (std::size_t a = 0; a < R; ++a) if (i[a] >= sh[a]) { k |= 1 << a; j[a] -= sh[a]; } expect_close("combined cell", comb(i), D[k](j), 0); }
    auto co = comb | mara::coarsen_cells<R>() | nd::to_shared(); if (co.shape() != sh) fail("coarse shape");
    expect_close("conservation under coarsening", total(co) * (1 << R), total(comb), 1e-12, 1e-10);
    for (auto i : nd::make_access_pattern(sh)) { double m = 0; for (std::size_t k = 0; k < (1 << R); ++k) { auto j = i; for (std::size_t a = 0; a < R; ++a) j[a] = 2 * i[a] + ((k >> a) & 1); m += comb(j); } expect_close("coarse cell", co(i), m / (1 << R), 1e-13, 1e-12); }
    // vertices carry multilinear interpolation
    auto vsh = sh; for (std::size_t a = 0; a < R; ++a) vsh[a] += 1; auto V = gen_array<R>(s, vsh); auto vc = (V | mara::refine_verts<R>()).map(nd::to_shared());
    for (std::size_t k = 0; k < (1 << R); ++k)
    {
        if (vc[k].shape() != vsh) fail("child vertex shape");
        for (auto i : nd::make_access_pattern(vsh))
        {
            double want = 0; ix<R> f; for (std::size_t a = 0; a < R; ++a) f[a] = i[a] + ((k >> a) & 1) * sh[a];
            for (std::size_t c = 0; c < (1 << R); ++c) { ix<R> j; for (std::size_t a = 0; a < R; ++a) j[a] = ((c >> a) & 1) ? (f[a] + 1) / 2 : f[a] / 2; want += V(j); }
            expect_close("vertex of child " + show(k), vc[k](i), want / (1 << R), 1e-13, 1e-12);
        }
    }
    if constexpr (R < 3) { auto vb = mara::combine_verts(vc) | nd::to_shared(); auto qsh = vsh; for (std::size_t a = 0; a < R; ++a) qsh[a] = 2 * vsh[a] - 1; if (vb.shape() != qsh) fail("combined vertex shape"); same("refine, combine, coarsen vertices", vb | mara::coarsen_verts<R>() | nd::to_shared(), V); }
    s.nontrivial(sh.volume() > 1);
}
LAW("block_rank1", 60000, "more than one cell", block_ops<1>);
LAW("block_rank2", 30000, "more than one cell", block_ops<2>);
LAW("block_rank3", 8000, "more than one cell", block_ops<3>);

// Fetching a block at any address: the mean of the mesh's field over each cell of that block.
static mara::arithmetic_binary_tree_t<arr<2>, 2> grow(const leafset& m, std::function<arr<2>(blk)> data)
{
    auto t = mara::tree_of<2>(arr<2>()); 
    std::vector<blk> v(m.begin(), m.end());
    for (auto b : v) t = t.insert(idx{std::size_t(b.l), {std::size_t(b.i), std::size_t(b.j)}}, data(b));
    return t;
}
LAW("get_cell_block", 5000, "the block had to be made by refining or coarsening", [] (src& s)
{
    auto m = gen_leaves(s, 8, 4); nd::shape_t<2> sh = gen_shape<2>(s, 1, 4); std::map<blk, arr<2>> D; for (auto b : m) D[b] = gen_array<2>(s, sh);
    auto t = grow(m, [&] (blk b) { return D[b]; }); s.note("leaves", std::vector<blk>(m.begin(), m.end())); s.note("shape", nd::to_string(sh));
    // the field on cells of level L: value of the leaf cell containing it
    long L = 6; auto fine = [&] (long x, long y) -> double
    {
        for (long l = 0; l <= 4; ++l)
        {
            long up = L - l; long cx = x >> up, cy = y >> up; blk b{l, cx / long(sh[0]), cy / long(sh[1])};
            auto it = D.find(b); if (it != D.end()) return it->second(cx % sh[0], cy % sh[1]);
        }
        fail("harness: no leaf");
    };
    for (int q = 0; q < 4; ++q)
    {
        blk b; { auto it = m.begin(); std::advance(it, s.draw(m.size())); b = *it; }
        switch (s.draw(5)) { case 0: { auto n = neighbours(b); b = n[s.draw(4)]; break; } case 1: b = {b.l + 1, 2 * b.i + long(s.draw(2)), 2 * b.j + long(s.draw(2))}; break; case 2: if (b.l > 1) b = {b.l - 1, b.i / 2, b.j / 2}; break; case 3: b = {b.l + 2, 4 * b.i + long(s.draw(4)), 4 * b.j + long(s.draw(4))}; break; default: break; }
        if (b.l == 0 && ! m.count(b)) continue;
        idx i{std::size_t(b.l), {std::size_t(b.i), std::size_t(b.j)}};
        bool exists = depth_below(m, b) >= 0, under_leaf = b.l > 0 && m.count({b.l - 1, b.i / 2, b.j / 2});
        if (! exists && ! under_leaf)
        {
            if (! throws([&] { mara::get_cell_block(t, i); })) fail("no throw for block " + show(b) + ", more than one level below a leaf"); s.cls("too fine"); continue;
        }
        auto B = mara::get_cell_block(t, i);
        if (B.shape() != sh) fail("shape of a fetched block");
        long up = L - b.l, n = 1l << up;
        for (std::size_t x = 0; x < sh[0]; ++x) for (std::size_t y = 0; y < sh[1]; ++y)
        {
            double w = 0; for (long u = 0; u < n; ++u) for (long v = 0; v < n; ++v) w += fine(((b.i * sh[0] + x) << up) + u, ((b.j * sh[1] + y) << up) + v);
            expect_close("cell (" + show(x) + "," + show(y) + ") of block " + show(b), B(x, y), w / double(n * n), 1e-11, 1e-11);
        }
        // a selection applied on the fly sees the same block
        auto a = s.draw(2); auto sel = [a] (auto arr) { return arr | nd::select_first(1, a) | nd::to_shared(); }; auto S = mara::get_cell_block(t, i, sel);
        same("selected part", S, B | nd::select_first(1, a) | nd::to_shared());
        s.cls(m.count(b) ? "leaf" : exists ? "coarsened" : "refined"); s.nontrivial(! m.count(b));
    }
});
LAW("get_vertex_block", 30000, "the block had to be made by refining or coarsening", [] (src& s)
{
    auto m = gen_leaves(s, 8, 4); std::size_t nx = s.size(1, 4), ny = s.size(1, 4); s.note("leaves", std::vector<blk>(m.begin(), m.end()));
    double ax = s.symmetric(2), ay = s.symmetric(2), c = s.symmetric(2);      // a linear function of position is reproduced exactly at any level
    auto vert = [&] (blk b, std::size_t x, std::size_t y) { double h = 1.0 / double(1l << b.l); return c + ax * h * (b.i + double(x) / nx) + ay * h * (b.j + double(y) / ny); };
    auto t = grow(m, [&] (blk b) { auto A = nd::make_unique_array<double>(nd::make_shape(nx + 1, ny + 1)); for (auto i : A.indexes()) A(i) = vert(b, i[0], i[1]); return std::move(A).shared(); });
    for (int q = 0; q < 4; ++q)
    {
        blk b; { auto it = m.begin(); std::advance(it, s.draw(m.size())); b = *it; }
        switch (s.draw(4)) { case 0: { auto n = neighbours(b); b = n[s.draw(4)]; break; } case 1: b = {b.l + 1, 2 * b.i + long(s.draw(2)), 2 * b.j + long(s.draw(2))}; break; case 2: if (b.l > 1) b = {b.l - 1, b.i / 2, b.j / 2}; break; default: b = {b.l + 2, 4 * b.i + long(s.draw(4)), 4 * b.j + long(s.draw(4))}; break; }
        if (b.l == 0 && ! m.count(b)) continue;
        idx i{std::size_t(b.l), {std::size_t(b.i), std::size_t(b.j)}};
        bool exists = depth_below(m, b) >= 0, under_leaf = b.l > 0 && m.count({b.l - 1, b.i / 2, b.j / 2});
        if (! exists && ! under_leaf) { if (! throws([&] { mara::get_vertex_block(t, i); })) fail("no throw for block " + show(b)); s.cls("too fine"); continue; }
        auto B = mara::get_vertex_block(t, i);
        if (B.shape() != nd::make_shape(nx + 1, ny + 1)) fail("shape of a fetched vertex block");
        for (auto k : B.indexes()) expect_close("vertex " + nd::to_string(k) + " of block " + show(b), B(k), vert(b, k[0], k[1]), 1e-12, 1e-12);
        s.cls(m.count(b) ? "leaf" : exists ? "coarsened" : "refined"); s.nontrivial(! m.count(b));
    }
});
PBT_MAIN
