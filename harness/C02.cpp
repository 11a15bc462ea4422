// C02: block addresses - arithmetic, text form and Hilbert ordering - against explicit integer geometry.
#include "pbt.hpp"
#include "core_tree.hpp"
#include "app_serialize_tree.hpp"
using namespace pbt;
template<std::size_t R> using index_t = mara::tree_index_t<R>;
template<std::size_t R> std::string str(const index_t<R>& i) { std::string s = std::to_string(i.level) + ":"; for (std::size_t a = 0; a < R; ++a) s += std::to_string(i.coordinates[a]) + ","; return s; }

template<std::size_t R> index_t<R> gen(src& s, std::size_t lo, std::size_t hi)
{
    index_t<R> i; i.level = s.size(lo, hi); auto n = std::size_t(1) << i.level;
    for (std::size_t a = 0; a < R; ++a)
        switch (s.draw(4))
        {
            case 0: i.coordinates[a] = s.draw(n); break;
            case 1: i.coordinates[a] = 0; break;
            case 2: i.coordinates[a] = n - 1; break;
            case 3: i.coordinates[a] = n / 2 - (n > 1 ? s.draw(2) : 0); break;
        }
    return i;
}

template<std::size_t R> void arithmetic(src& s)
{
    auto i = gen<R>(s, 0, s.chance(2, 3) ? 20 : 60); s.note("index", str(i)); auto n = std::size_t(1) << i.level;
    if (! i.valid()) fail("a valid index is called invalid");
    auto bad = i; bad.coordinates[s.draw(R)] = n + s.draw(n + 2);
    if (bad.valid()) fail("an out-of-range index is called valid: " + str(bad));
    if (! (i == i) || i != i || i == bad || ! (i != bad)) fail("equality");
    if (i == i.with_level(i.level + 1) || i.with_level(i.level + 1).level != i.level + 1) fail("with_level");

    // the children tile the parent, bit a of the child number giving the half on axis a, and each knows its parent
    auto ch = i.child_indexes(); std::set<std::string> seen;
    for (std::size_t k = 0; k < (1 << R); ++k)
    {
        auto c = ch[k]; expect_eq("child level", c.level, i.level + 1);
        for (std::size_t a = 0; a < R; ++a) expect_eq("child coordinate", c.coordinates[a], 2 * i.coordinates[a] + ((k >> a) & 1));
        if (c.parent_index() != i) fail("parent of child " + str(c) + " is " + str(c.parent_index()));
        auto rel = c.relative_to_parent(); expect_eq("relative level", rel.level, std::size_t(1));
        for (std::size_t a = 0; a < R; ++a) expect_eq("relative coordinate", rel.coordinates[a], (k >> a) & 1);
        expect_eq("number of the child from its orthant in the parent", mara::to_integral(rel.orthant()), k);
        seen.insert(str(c));
    }
    expect_eq("distinct children", seen.size(), std::size_t(1 << R));
    // neighbours wrap around, and next and prev undo each other
    for (std::size_t a = 0; a < R; ++a)
    {
        auto u = i.next_on(a), d = i.prev_on(a);
        for (std::size_t b = 0; b < R; ++b)
        {
            expect_eq("next_on", u.coordinates[b], b == a ? (i.coordinates[b] + 1) % n : i.coordinates[b]);
            expect_eq("prev_on", d.coordinates[b], b == a ? (i.coordinates[b] + n - 1) % n : i.coordinates[b]);
        }
        if (u.level != i.level || d.level != i.level || ! u.valid() || ! d.valid()) fail("neighbour level or validity");
        if (u.prev_on(a) != i || d.next_on(a) != i) fail("next and prev are not inverse");
    }
    // descending by orthants spells the coordinates in binary
    if (i.level >= 1)
    {
        auto j = i; std::vector<std::size_t> c(R, 0);
        while (j.level > 0)
        {
            auto o = j.orthant(); for (std::size_t a = 0; a < R; ++a) c[a] = 2 * c[a] + (o[a] ? 1 : 0);
            auto l = j.level; j = j.advance_level(); expect_eq("advance_level", j.level, l - 1);
            if (! j.valid()) fail("advance_level made an invalid index");
        }
        for (std::size_t a = 0; a < R; ++a) { expect_eq("path", c[a], i.coordinates[a]); expect_eq("path end", j.coordinates[a], std::size_t(0)); }
    }
    s.nontrivial(i.level >= 2); s.cls("level>=10", i.level >= 10); s.cls("level>=31", i.level >= 31);
}
LAW("arithmetic_rank1", 600000, "level at least 2", arithmetic<1>);
LAW("arithmetic_rank2", 600000, "level at least 2", arithmetic<2>);
LAW("arithmetic_rank3", 400000, "level at least 2", arithmetic<3>);

template<std::size_t R> void text_form(src& s)
{
    auto i = gen<R>(s, 0, s.chance(2, 3) ? 20 : 60), j = s.coin() ? gen<R>(s, 0, s.chance(2, 3) ? 20 : 60) : gen<R>(s, i.level, i.level); s.note("index", str(i)); s.note("other", str(j));
    auto f = mara::format_tree_index(i);
    if (mara::read_tree_index<R>(f) != i) fail("parsed back as " + str(mara::read_tree_index<R>(f)) + " from " + f);
    if ((mara::format_tree_index(j) == f) != (i == j)) fail("two addresses share the text " + f);
    // the documented form "level:i-j-k"
    auto p = f.find(':'); if (p == std::string::npos) fail("no colon in " + f);
    expect_eq("level field", std::size_t(std::stoul(f.substr(0, p))), i.level);
    std::istringstream ss(f.substr(p + 1)); std::string part; std::size_t a = 0;
    while (std::getline(ss, part, '-')) { if (a >= R) fail("too many fields in " + f); expect_eq("coordinate field of " + f, std::size_t(std::stoul(part)), i.coordinates[a]); ++a; }
    expect_eq("fields", a, R);
    if (! throws([&] { mara::read_tree_index<R + 1>(f); })) fail("text of rank " + show(R) + " was accepted for a higher rank: " + f);
    if constexpr (R > 1) if (! throws([&] { mara::read_tree_index<R - 1>(f); })) fail("text of rank " + show(R) + " was accepted for a lower rank: " + f);
    s.nontrivial(i.level >= 2); s.cls("multi-digit", i.level >= 4);
}
LAW("text_rank1", 300000, "level at least 2", text_form<1>);
LAW("text_rank2", 300000, "level at least 2", text_form<2>);
LAW("text_rank3", 300000, "level at least 2", text_form<3>);

template<std::size_t B> void bits(src& s)
{
    auto v = s.draw(1ull << B); auto b = mara::binary_repr<B>(v);
    for (std::size_t k = 0; k < B; ++k) expect_eq("bit", bool(b[k]), bool((v >> k) & 1));
    expect_eq("to_integral", mara::to_integral(b), std::size_t(v)); s.nontrivial(v > 1); s.note("v", v);
}
LAW("bits_4", 2000, "value above 1", bits<4>);
LAW("bits_13", 10000, "value above 1", bits<13>);

// The Hilbert number of the blocks of a level is a bijection onto 0..4^level-1 whose consecutive blocks share an edge.
LAW("hilbert_whole_level", 80, "level at least 2", [] (src& s)
{
    std::size_t level = s.size(0, 8), n = std::size_t(1) << level; s.note("level", level);
    std::vector<std::pair<long, long>> at(n * n, {-1, -1});
    for (std::size_t x = 0; x < n; ++x) for (std::size_t y = 0; y < n; ++y)
    {
        auto d = mara::hilbert_index(index_t<2>{level, {x, y}});
        if (d >= n * n) fail("number " + show(d) + " of (" + show(x) + "," + show(y) + ") is out of range");
        if (at[d].first >= 0) fail("number " + show(d) + " is given twice");
        at[d] = {long(x), long(y)};
    }
    for (std::size_t d = 1; d < n * n; ++d)
        if (std::labs(at[d].first - at[d-1].first) + std::labs(at[d].second - at[d-1].second) != 1) fail("blocks number " + show(d - 1) + " and " + show(d) + " are not adjacent");
    s.nontrivial(level >= 2);
});
// ... and the four children of a block are numbered consecutively, whatever the level (locality across levels).
LAW("hilbert_children_contiguous", 400000, "level at least 2", [] (src& s)
{
    auto i = gen<2>(s, 0, s.coin() ? 13 : 29); s.note("index", str(i));
    std::set<std::size_t> d; auto ch = i.child_indexes(); for (std::size_t k = 0; k < 4; ++k) d.insert(mara::hilbert_index(ch[k]));
    expect_eq("distinct numbers", d.size(), std::size_t(4)); expect_eq("span", *d.rbegin() - *d.begin(), std::size_t(3)); expect_eq("aligned", *d.begin() % 4, std::size_t(0));
    s.nontrivial(i.level >= 2);
});
// ... and the block numbered just before and just after any block are face neighbours of it, on levels too deep to be listed whole.
LAW("hilbert_local_steps", 400000, "level at least 2", [] (src& s)
{
    auto i = gen<2>(s, 1, s.coin() ? 13 : 30); s.note("index", str(i)); auto n = std::size_t(1) << i.level;
    auto d = mara::hilbert_index(i); if (d >= n * n) fail("number " + show(d) + " is out of range");
    std::size_t before = 0, after = 0;
    for (std::size_t a = 0; a < 2; ++a) for (int side : {-1, 1})
    {
        if (side < 0 ? i.coordinates[a] == 0 : i.coordinates[a] + 1 == n) continue;
        auto j = i; j.coordinates[a] += side; auto e = mara::hilbert_index(j);
        if (e == d) fail("a neighbour has the same number " + show(d)); before += e + 1 == d; after += e == d + 1;
    }
    expect_eq("face neighbours numbered one less", before, std::size_t(d > 0));
    expect_eq("face neighbours numbered one more", after, std::size_t(d + 1 < n * n));
    s.nontrivial(i.level >= 2); s.cls("level>=16", i.level >= 16);
});
PBT_MAIN
