// A naive model of a quadtree mesh: the set of leaves (level, i, j).
#pragma once
#include "pbt.hpp"
#include <tuple>
struct blk { long l, i, j; bool operator<(const blk& o) const { return std::tie(l, i, j) < std::tie(o.l, o.i, o.j); } bool operator==(const blk& o) const { return l == o.l && i == o.i && j == o.j; } };
inline std::ostream& operator<<(std::ostream& s, const blk& b) { return s << b.l << ":" << b.i << "-" << b.j; }
using leafset = std::set<blk>;
inline bool is_leaf(const leafset& m, blk b) { return m.count(b); }
// depth below b of the deepest leaf under it, -1 if b is not a node of the tree
inline long depth_below(const leafset& m, blk b)
{
    long d = -1;
    for (auto& x : m) if (x.l >= b.l && (x.i >> (x.l - b.l)) == b.i && (x.j >> (x.l - b.l)) == b.j) d = std::max(d, x.l - b.l);
    return d;
}
inline std::vector<blk> neighbours(blk b)
{
    long n = 1l << b.l;
    return {{b.l, (b.i + 1) % n, b.j}, {b.l, (b.i + n - 1) % n, b.j}, {b.l, b.i, (b.j + 1) % n}, {b.l, b.i, (b.j + n - 1) % n}};
}
inline bool over_refined(const leafset& m, blk b) { for (auto x : neighbours(b)) if (depth_below(m, x) > 1) return true; return false; }
inline void split(leafset& m, blk b) { m.erase(b); for (long k = 0; k < 4; ++k) m.insert({b.l + 1, 2 * b.i + (k & 1), 2 * b.j + (k >> 1)}); }
// the least refinement of m without over-refined neighbours
inline leafset balance(leafset m)
{
    for (bool again = true; again;)
    {
        again = false;
        for (auto b : leafset(m)) if (m.count(b) && over_refined(m, b)) { split(m, b); again = true; }
    }
    return m;
}
inline leafset gen_leaves(pbt::src& s, std::size_t max_splits, long max_level)
{
    leafset m{{0, 0, 0}}; auto n = s.size(0, max_splits); bool deep = s.coin();
    for (std::size_t k = 0; k < n; ++k)
    {
        std::vector<blk> c; long top = 0; for (auto& b : m) top = std::max(top, b.l);
        for (auto& b : m) if (b.l < max_level && (! deep || b.l == std::min(top, max_level - 1))) c.push_back(b);
        if (c.empty()) break;
        split(m, c[s.draw(c.size())]);
    }
    return m;
}
