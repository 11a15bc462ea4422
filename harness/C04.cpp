// C04: refined meshes are 2:1 balanced (periodically), contain every block asked for and no unnecessary one, and tile the domain.
#include "mesh_model.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "mesh_tree_operators.hpp"
using namespace pbt;
using vtree = mara::amr_types::vertex_2d_tree_t;
using idx = mara::tree_index_t<2>;

static leafset leaves_of(const vtree& t) { leafset m; t.indexes().sink([&] (auto&& i) { m.insert({long(i.level), long(i.coordinates[0]), long(i.coordinates[1])}); }); return m; }
static std::vector<blk> vec(const leafset& m) { return {m.begin(), m.end()}; }

// every leaf's vertices are where its address says, to rounding
static void check_geometry(const vtree& t, std::size_t nx, std::size_t ny)
{
    double area = 0;
    t.pair_indexes().sink([&] (auto&& p)
    {
        auto& i = p.first; auto& v = p.second; double w = 2.0 / double(1l << i.level);
        if (v.shape(0) != nx + 1 || v.shape(1) != ny + 1) fail("a block has the wrong number of vertices");
        for (std::size_t a = 0; a <= nx; ++a) for (std::size_t b = 0; b <= ny; ++b)
        {
            expect_close("x of a vertex", v(a, b)[0].value, -1 + w * (double(i.coordinates[0]) + double(a) / nx), 1e-12, 1e-12);
            expect_close("y of a vertex", v(a, b)[1].value, -1 + w * (double(i.coordinates[1]) + double(b) / ny), 1e-12, 1e-12);
        }
        area += (v(nx, ny)[0].value - v(0, 0)[0].value) * (v(nx, ny)[1].value - v(0, 0)[1].value);
    });
    expect_close("total area", area, 4.0, 1e-10);
}
static void check_balanced(const leafset& m)
{
    for (auto& b : m) if (over_refined(m, b)) fail("block " + show(b) + " has an over-refined neighbour");
    // and, independently of that definition: blocks sharing a face, also across the periodic boundary, differ by at most one level
    for (auto& a : m) for (auto& b : m) if (b.l > a.l + 1)
        for (auto x : neighbours(b))
            if ((x.i >> (b.l - a.l)) == a.i && (x.j >> (b.l - a.l)) == a.j) fail("blocks " + show(a) + " and " + show(b) + " share a face");
}
// a vertex tree with exactly the given leaves
static vtree build(const leafset& want, std::size_t nx, std::size_t ny)
{
    auto verts = nd::cartesian_product(nd::linspace(-1, 1, nx + 1), nd::linspace(-1, 1, ny + 1)) | nd::apply([] (auto x, auto y) { return mara::amr_types::vertex_2d_t{x, y}; }) | nd::to_shared();
    auto t = mara::tree_of<2>(std::make_pair(idx{}, verts));
    for (int l = 0; l < 12; ++l)
        t = t.bifurcate_if(
            [&] (auto&& p) { return ! want.count({long(p.first.level), long(p.first.coordinates[0]), long(p.first.coordinates[1])}); },
            [&] (auto&& p) { auto ch = p.first.child_indexes(); auto vs = (p.second | mara::refine_verts<2>()).map(nd::to_shared());
                             return mara::iota<4>().map([ch, vs] (auto k) { return std::make_pair(ch[k], vs[k]); }); });
    return t.map([] (auto&& p) { return p.second; });
}

LAW("balance_any_tree", 12000, "the given tree is not balanced", [] (src& s)
{
    auto m = gen_leaves(s, 12, 6); std::size_t nx = s.size(1, 3), ny = s.size(1, 3); s.note("leaves", vec(m)); s.note("nx", nx); s.note("ny", ny);
    auto t = build(m, nx, ny); if (! (leaves_of(t) == m)) fail("harness: tree construction");
    auto flags = mara::over_refined_neighbors(t); 
    flags.pair_indexes().sink([&] (auto&& p) { blk b{long(p.first.level), long(p.first.coordinates[0]), long(p.first.coordinates[1])}; expect_eq("over-refined flag of " + show(b), p.second, over_refined(m, b)); });
    auto r = mara::ensure_valid_quadtree(t); auto got = leaves_of(r), want = balance(m);
    check_balanced(got);
    if (! (got == want)) fail("leaves " + show(vec(got)) + ", the least balanced refinement has " + show(vec(want)));
    if (mara::over_refined_neighbors(r).any()) fail("flags remain after balancing");
    check_geometry(r, nx, ny);
    // balancing a balanced tree changes nothing
    if (! (leaves_of(mara::ensure_valid_quadtree(r)) == got)) fail("balancing is not idempotent");
    s.nontrivial(! (want == m)); s.cls("blocks added " + std::string(want.size() - m.size() > 6 ? ">6" : want == m ? "0" : "1-6"));
});

LAW("create_mesh", 12000, "refined beyond the first level, not uniformly", [] (src& s)
{
    std::size_t nx = s.size(1, 6), ny = s.coin() ? nx : s.size(1, 6), depth = s.size(0, 5); if (depth < 3 && s.chance(1, 8)) { nx = s.size(1, 40); ny = s.size(1, 40); }
    double r0 = s.real(0, 1.5) + 3.1e-7, w = s.real(0, 0.9) + 1.7e-7; auto kind = s.draw(4); std::size_t cap = s.size(1, 5), base = s.size(0, 2);
    s.note("zones", show(nx) + "x" + show(ny)); s.note("depth", depth); s.note("kind", kind); s.note("r0", r0); s.note("w", w); s.note("cap", cap); s.note("base", base);
    auto pred = [=] (std::size_t level, double r) -> bool
    {
        if (level < base) return true;
        switch (kind)
        {
            case 0: return r < r0 / double(level + 1);              // nested disks, as the disk problems ask for
            case 1: return std::fabs(r - r0) < w / double(1l << level);   // a ring
            case 2: return r > r0;                                  // the corners
            default: return level < cap && r < r0;
        }
    };
    leafset m{{0, 0, 0}};
    for (std::size_t l = 0; l < depth; ++l) for (auto b : leafset(m))
    {
        double h = 2.0 / double(1l << b.l), x = -1 + h * (b.i + 0.5), y = -1 + h * (b.j + 0.5);
        if (pred(l, std::sqrt(x * x + y * y))) split(m, b);
    }
    if (m.size() > 600) discard();
    auto t = nx == ny && s.coin() ? mara::create_vertex_quadtree(pred, nx, depth) : mara::create_vertex_quadtree(pred, nx, ny, depth);
    auto got = leaves_of(t); check_balanced(got);
    for (auto& b : m) if (depth_below(got, b) < 0) fail("the mesh lacks the requested block " + show(b));
    auto want = balance(m); if (! (got == want)) fail("leaves " + show(vec(got)) + " want " + show(vec(want)));
    check_geometry(t, nx, ny);
    long lo = 99, hi = 0; for (auto& b : got) { lo = std::min(lo, b.l); hi = std::max(hi, b.l); }
    s.nontrivial(hi >= 2 && lo < hi); s.cls("balancing needed", ! (got == m)); s.cls("rectangular zones", nx != ny);
});
PBT_MAIN
