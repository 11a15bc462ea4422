// C01: the adaptive-mesh tree is a persistent finite map from leaf addresses to values.
// Oracle: a naive explicit tree of nodes with vectors of children.
#include "pbt.hpp"
#include "core_tree.hpp"
using namespace pbt;

template<std::size_t R> using index_t = mara::tree_index_t<R>;
template<typename V, std::size_t R> using tree_t = mara::arithmetic_binary_tree_t<V, R>;

static std::string show_index(std::size_t level, const std::vector<std::size_t>& c) { return std::to_string(level) + ":" + show(c); }
template<std::size_t R> std::vector<std::size_t> coords(const index_t<R>& i) { std::vector<std::size_t> c; for (std::size_t a = 0; a < R; ++a) c.push_back(i.coordinates[a]); return c; }
template<std::size_t R> std::string show_index(const index_t<R>& i) { return show_index(i.level, coords(i)); }

template<typename V> struct node
{
    V v{};
    std::vector<node> ch;
    bool leaf() const { return ch.empty(); }
};

// which child lies in the direction of the given index: bit n of the child number is the n-th coordinate's half
template<std::size_t R> std::size_t step(const index_t<R>& i, std::size_t depth)
{
    std::size_t o = 0;
    for (std::size_t a = 0; a < R; ++a) o |= ((i.coordinates[a] >> (i.level - 1 - depth)) & 1) << a;
    return o;
}
template<std::size_t R> bool in_range(const index_t<R>& i) { for (std::size_t a = 0; a < R; ++a) if (i.coordinates[a] >= (std::size_t(1) << i.level)) return false; return true; }

template<typename V, std::size_t R> const node<V>* lookup(const node<V>& n, const index_t<R>& i)
{
    if (! in_range(i)) return nullptr;
    const node<V>* p = &n;
    for (std::size_t d = 0; d < i.level; ++d) { if (p->leaf()) return nullptr; p = &p->ch[step(i, d)]; }
    return p;
}
template<typename V, typename F> void each_leaf(const node<V>& n, F&& f) { if (n.leaf()) f(n.v); else for (auto& c : n.ch) each_leaf(c, f); }
template<typename V, typename F> void each_leaf_mut(node<V>& n, F&& f) { if (n.leaf()) f(n.v); else for (auto& c : n.ch) each_leaf_mut(c, f); }
template<std::size_t R, typename V, typename F> void each_index(const node<V>& n, std::size_t level, std::vector<std::size_t> c, F&& f)
{
    if (n.leaf()) { f(level, c, n.v); return; }
    for (std::size_t k = 0; k < n.ch.size(); ++k)
    {
        auto d = c; for (std::size_t a = 0; a < R; ++a) d[a] = 2 * c[a] + ((k >> a) & 1);
        each_index<R>(n.ch[k], level + 1, d, f);
    }
}
template<typename V> std::size_t count(const node<V>& n) { std::size_t k = 0; each_leaf(n, [&] (auto&) { ++k; }); return k; }
template<typename V> std::size_t depth(const node<V>& n) { std::size_t m = 0; if (n.leaf()) return 0; for (auto& c : n.ch) m = std::max(m, 1 + depth(c)); return m; }
template<typename A, typename B> bool same_shape(const node<A>& a, const node<B>& b)
{
    if (a.leaf() != b.leaf()) return false;
    for (std::size_t k = 0; k < a.ch.size(); ++k) if (! same_shape(a.ch[k], b.ch[k])) return false;
    return true;
}
template<typename V> std::string text(const node<V>& n) { if (n.leaf()) return show(n.v); std::string s = "("; for (auto& c : n.ch) s += text(c) + " "; s.back() = ')'; return s; }
template<typename V, std::size_t R> std::string text(const tree_t<V, R>& t)
{
    if (t.has_value()) return show(t.value());
    std::string s = "("; for (std::size_t k = 0; k < (1 << R); ++k) s += text(t.children()[k]) + " "; s.back() = ')'; return s;
}
template<typename V, std::size_t R> void same(const std::string& what, const tree_t<V, R>& t, const node<V>& n) { expect_eq(what, text(t), text(n)); }

template<std::size_t R> index_t<R> any_index(src& s, std::size_t max_level)
{
    index_t<R> i; i.level = s.size(0, max_level);
    bool wild = s.chance(1, 12);
    for (std::size_t a = 0; a < R; ++a) i.coordinates[a] = s.draw((std::size_t(1) << i.level) * (wild ? 2 : 1));
    return i;
}
// the index of some node of the tree (leaf or internal), or of a descendant a leaf does not have
template<typename V, std::size_t R> index_t<R> node_index(src& s, const node<V>& n)
{
    index_t<R> i; const node<V>* p = &n;
    while (! p->leaf() && ! s.chance(1, 8))
    {
        auto k = s.draw(p->ch.size()); p = &p->ch[k]; i.level++;
        for (std::size_t a = 0; a < R; ++a) i.coordinates[a] = 2 * i.coordinates[a] + ((k >> a) & 1);
    }
    return i;
}
template<std::size_t R> index_t<R> child_of(src& s, index_t<R> i)
{
    i.level++; for (std::size_t a = 0; a < R; ++a) i.coordinates[a] = 2 * i.coordinates[a] + s.draw(2);
    return i;
}
template<typename V, std::size_t R> index_t<R> some_index(src& s, const node<V>& n)
{
    switch (s.draw(4))
    {
        case 0: return node_index<V, R>(s, n);
        case 1: return any_index<R>(s, 4);
        case 2: { auto i = node_index<V, R>(s, n); auto m = s.size(1, 2); while (m--) i = child_of(s, i); return i; }
        default:
        {
            auto i = node_index<V, R>(s, n); auto a = s.draw(R);
            i.coordinates[a] += s.coin() ? 1 : (i.coordinates[a] > 0 ? -1 : 0); return i;
        }
    }
}

template<std::size_t R> void check_observers(src& s, const tree_t<long, R>& t, const node<long>& n)
{
    same("contents", t, n);
    std::vector<long> leaves; each_leaf(n, [&] (long v) { leaves.push_back(v); });
    std::vector<long> sunk; t.sink([&] (auto&& v) { sunk.push_back(v); });
    expect_eq("sink order", sunk, leaves);
    expect_eq("size", t.size(), leaves.size());
    expect_eq("depth", t.depth(), depth(n));
    expect_eq("front", t.front(), leaves.front());
    expect_eq("sum", t.sum(), std::accumulate(leaves.begin(), leaves.end(), 0l));
    expect_eq("min", t.min(), *std::min_element(leaves.begin(), leaves.end()));
    expect_eq("max", t.max(), *std::max_element(leaves.begin(), leaves.end()));
    expect_eq("any", t.any(), std::any_of(leaves.begin(), leaves.end(), [] (long x) { return x != 0; }));
    expect_eq("all", t.all(), std::all_of(leaves.begin(), leaves.end(), [] (long x) { return x != 0; }));

    std::vector<std::string> want, got, paired;
    each_index<R>(n, 0, std::vector<std::size_t>(R, 0), [&] (std::size_t l, auto& c, long v)
    {
        want.push_back(show_index(l, c) + "=" + show(v));
        index_t<R> i; i.level = l; for (std::size_t a = 0; a < R; ++a) i.coordinates[a] = c[a];
        if (t.at(i) != v) fail("at(" + show_index(i) + ") is " + show(t.at(i)) + ", want " + show(v));
    });
    t.indexes().sink([&] (auto&& i) { got.push_back(show_index(i) + "=" + show(t.at(i))); });
    t.pair_indexes().sink([&] (auto&& p) { paired.push_back(show_index(p.first) + "=" + show(p.second)); });
    expect_eq("indexes", got, want);
    expect_eq("pair_indexes", paired, want);

    for (int k = 0; k < 6; ++k)
    {
        auto i = some_index<long, R>(s, n); auto m = lookup(n, i); auto w = "index " + show_index(i) + " of " + text(n);
        bool is_leaf = m && m->leaf();
        expect_eq("contains_node, " + w, t.contains_node(i), m != nullptr);
        expect_eq("contains, " + w, t.contains(i), is_leaf);
        auto f = t.find(i);
        expect_eq("find succeeds, " + w, f.has_value(), is_leaf);
        if (is_leaf) { expect_eq("find, " + w, *f, m->v); expect_eq("at, " + w, t.at(i), m->v); }
        else if (! throws_a<std::out_of_range>([&] { t.at(i); })) fail("at should throw out_of_range, " + w);
        if (m) same("node_at, " + w, t.node_at(i), *m);
        else if (! throws_a<std::out_of_range>([&] { t.node_at(i); })) fail("node_at should throw out_of_range, " + w);
        s.cls(! m ? "absent index" : is_leaf ? "leaf index" : "internal index");
    }
    // navigation by orthant
    const tree_t<long, R>* p = &t; const node<long>* q = &n;
    while (! q->leaf())
    {
        auto k = s.draw(1 << R); mara::arithmetic_sequence_t<bool, R> o; for (std::size_t a = 0; a < R; ++a) o[a] = (k >> a) & 1;
        p = &p->child_at(o); q = &q->ch[k]; same("child_at", *p, *q);
    }
    if (! throws_a<std::out_of_range>([&] { p->children(); })) fail("children() of a leaf should throw out_of_range");
    if (! n.leaf() && ! throws_a<std::out_of_range>([&] { t.value(); })) fail("value() of an internal node should throw out_of_range");
}

template<std::size_t R> struct version { tree_t<long, R> t; node<long> n; };

static long fn1(long v) { return v * 3 + 1; }

template<std::size_t R> bool mismatch_check(src& s, const version<R>& a, const version<R>& b)
{
    auto plus = [] (long x, long y) { return x * 2 + y; };
    if (same_shape(a.n, b.n)) return false;
    if (! throws([&] { a.t.binary_op(b.t, plus); })) fail("combining trees of different shapes did not throw: " + text(a.n) + " with " + text(b.n));
    if (! throws([&] { a.t.pair(b.t); })) fail("pairing trees of different shapes did not throw");
    if (! throws([&] { a.t + b.t; })) fail("adding trees of different shapes did not throw");
    return true;
}

template<std::size_t R> void history(src& s)
{
    std::vector<version<R>> vs;
    auto v0 = s.signed_integer(-9, 9);
    vs.push_back({mara::tree_of<R>(v0), node<long>{v0, {}}});
    auto steps = s.size(1, R == 3 ? 8 : 16); std::string log; std::size_t big = 0; bool threw = false, shrunk = false;
    const std::size_t limit = R == 1 ? 60 : R == 2 ? 160 : 300;
    for (std::size_t k = 0; k < steps; ++k)
    {
        auto which = s.chance(1, 3) ? s.draw(vs.size()) : vs.size() - 1;
        auto t = vs[which].t; auto n = vs[which].n;
        auto op = s.draw(9);
        log += "v" + std::to_string(which) + ".";
        if (op == 0 || op == 1)
        {
            auto i = some_index<long, R>(s, n); auto v = s.signed_integer(-99, 99);
            if (i.level > 6) discard();
            log += "insert(" + show_index(i) + "," + show(v) + ") "; s.note("history", ""); s.described = log;
            auto m = lookup(n, i);
            bool ok = in_range(i) && (! m || m->leaf());
            if (! ok)
            {
                threw = true;
                if (! throws([&] { t.insert(i, v); })) fail("insert at " + show_index(i) + " into " + text(n) + " should throw");
                same("receiver of a rejected insert", t, n);
                continue;
            }
            t = t.insert(i, v);
            auto p = &n;
            for (std::size_t d = 0; d < i.level; ++d) { if (p->leaf()) { p->ch.assign(1 << R, node<long>{}); p->v = 0; } p = &p->ch[step(i, d)]; }
            p->v = v;
        }
        else if (op == 2)
        {
            auto i = node_index<long, R>(s, n); log += "update(" + show_index(i) + ") ";
            if (s.chance(1, 5))
            {
                auto p = &n; for (std::size_t d = 0; d < i.level; ++d) p = &p->ch[step(i, d)];
                auto down = [] (auto i, std::size_t k) { return i.child_indexes()[k]; };
                auto j = i; while (! p->leaf()) { auto k = s.draw(1 << R); j = down(j, k); p = &p->ch[k]; }
                j = down(j, s.draw(1 << R)); if (s.coin()) j = down(j, s.draw(1 << R));
                if (! throws([&] { t.update(j, fn1); })) fail("update at " + show_index(j) + ", below a leaf of " + text(n) + " should throw");
                same("receiver of a rejected update", t, n); continue;
            }
            t = t.update(i, fn1);
            auto p = &n; for (std::size_t d = 0; d < i.level; ++d) p = &p->ch[step(i, d)];
            each_leaf_mut(*p, [] (long& v) { v = fn1(v); });
        }
        else if (op == 3)
        {
            auto m = s.integer(2, 5), r = s.integer(0, 1); log += "bifurcate_if(%" + show(m) + "==" + show(r) + ") ";
            auto pred = [=] (long v) { return ((v % m) + m) % m == r; };
            std::size_t hits = 0; each_leaf(n, [&] (long v) { hits += pred(v); });
            if (count(n) + hits * ((1 << R) - 1) > limit) continue;
            t = t.bifurcate_if(pred, [] (long v) { return mara::iota<(1 << R)>().map([v] (std::size_t k) { return v + long(k) * 7; }); });
            std::function<void(node<long>&)> go = [&] (node<long>& x)
            {
                if (! x.leaf()) { for (auto& c : x.ch) go(c); return; }
                if (pred(x.v)) { for (long k = 0; k < (1 << R); ++k) x.ch.push_back({x.v + k * 7, {}}); x.v = 0; }
            };
            go(n);
        }
        else if (op == 4)
        {
            if (count(n) * (1 << R) > limit) continue;
            log += "bifurcate_all ";
            t = t.bifurcate_all([] (long v) { return mara::iota<(1 << R)>().map([v] (std::size_t k) { return v - long(k) * 5; }); });
            std::function<void(node<long>&)> go = [&] (node<long>& x)
            {
                if (! x.leaf()) { for (auto& c : x.ch) go(c); return; }
                for (long k = 0; k < (1 << R); ++k) x.ch.push_back({x.v - k * 5, {}}); x.v = 0;
            };
            go(n);
        }
        else if (op == 5)
        {
            log += "map ";
            long calls = 0;
            t = t.map([&calls] (long v) { ++calls; return 11 - v; });
            expect_eq("calls of the mapped function", std::size_t(calls), count(n));
            each_leaf_mut(n, [] (long& v) { v = 11 - v; });
        }
        else if (op == 6)
        {
            auto c = s.signed_integer(-5, 5); auto kind = s.draw(6); log += "scalar" + show(kind) + "(" + show(c) + ") ";
            switch (kind)
            {
                case 0: t = t + c; each_leaf_mut(n, [c] (long& v) { v += c; }); break;
                case 1: t = t - c; each_leaf_mut(n, [c] (long& v) { v -= c; }); break;
                case 2: t = -t; each_leaf_mut(n, [c] (long& v) { v = -v; }); break;
                case 3: t = (t < c).map([] (bool b) { return long(b); }); each_leaf_mut(n, [c] (long& v) { v = v < c; }); break;
                case 4: t = (t >= c).map([] (bool b) { return long(b); }); each_leaf_mut(n, [c] (long& v) { v = v >= c; }); break;
                case 5: t = (t * c) / 3l; each_leaf_mut(n, [c] (long& v) { v = v * c / 3; }); break;
            }
        }
        else
        {
            auto o = s.draw(vs.size()); auto& w = vs[o]; log += "combine(v" + std::to_string(o) + ") ";
            if (mismatch_check(s, vs[which], w) || mismatch_check(s, w, vs[which])) { threw = true; continue; }
            std::vector<long> b; each_leaf(w.n, [&] (long v) { b.push_back(v); }); std::size_t k = 0;
            switch (s.draw(7))
            {
                case 0: t = t + w.t; each_leaf_mut(n, [&] (long& v) { v += b[k++]; }); break;
                case 1: t = t - w.t; each_leaf_mut(n, [&] (long& v) { v -= b[k++]; }); break;
                case 2: t = t.pair(w.t).apply([] (long x, long y) { return 3 * x - y; }); each_leaf_mut(n, [&] (long& v) { v = 3 * v - b[k++]; }); break;
                case 3: t = t.map([] (long x) { return [x] (long y) { return x - 4 * y; }; }).apply_to(w.t); each_leaf_mut(n, [&] (long& v) { v = v - 4 * b[k++]; }); break;
                case 4: t = t.binary_op(w.t, [] (long x, long y) { return std::max(x, y); }); each_leaf_mut(n, [&] (long& v) { v = std::max(v, b[k++]); }); break;
                case 5: t = (t <= w.t).map([] (bool b) { return long(b); }); each_leaf_mut(n, [&] (long& v) { v = v <= b[k++]; }); break;
                case 6: t = (t == w.t).map([] (bool b) { return long(b); }); each_leaf_mut(n, [&] (long& v) { v = v == b[k++]; }); break;
            }
            s.cls("combined");
        }
        each_leaf_mut(n, [] (long& v) { v %= 100003; }); t = t.map([] (long v) { return v % 100003; });   // keep the numbers small
        if (count(n) > limit) discard();
        s.described = log; std::memcpy(s.sh->described, log.c_str(), std::min<std::size_t>(log.size() + 1, 60000));
        vs.push_back({t, n});
        big = std::max(big, depth(n));
        check_observers<R>(s, t, n);
        // every older version is as it was
        for (auto& v : vs) same("an older version, after " + log, v.t, v.n);
    }
    s.nontrivial(big >= 2 && vs.size() >= 3);
    s.cls("depth " + std::to_string(std::min<std::size_t>(big, 4))); s.cls("rejected operation", threw);
}

#define RULE "the history reaches a tree at least two levels deep through at least two successful operations"
#if PART > 0
LAW("history_rank" + std::to_string(PART), PART == 3 ? 1200 : 2500, RULE, history<PART>);
#else
// Values of a type with real lifetime: sharing between versions must never dangle.
LAW("owning_values", 1500, "at least one bifurcation and one insert", [] (src& s)
{
    using T = tree_t<std::string, 2>;
    auto t = mara::tree_of<2>(std::string(40, 'r')); std::map<std::string, std::string> m{{"0:[0, 0]", std::string(40, 'r')}};
    std::vector<std::pair<T, std::map<std::string, std::string>>> keep;
    auto steps = s.size(1, 12); int ins = 0, bif = 0;
    for (std::size_t k = 0; k < steps; ++k)
    {
        std::vector<index_t<2>> leaves; t.indexes().sink([&] (auto&& i) { leaves.push_back(i); });
        auto i = leaves[s.draw(leaves.size())];
        if (s.coin() && leaves.size() < 100)
        {
            auto name = t.at(i);
            t = t.bifurcate_if([&] (auto&& v) { return v == name; }, [] (auto&& v) { return mara::iota<4>().map([v] (auto n) { return v + std::to_string(n) + std::string(20, '.'); }); });
            std::map<std::string, std::string> m2;
            for (auto j : leaves)
                if (m[show_index(j)] != name) m2[show_index(j)] = m[show_index(j)];
                else for (int c = 0; c < 4; ++c) m2[show_index(j.level + 1, {2 * j.coordinates[0] + (c & 1), 2 * j.coordinates[1] + (c >> 1)})] = name + std::to_string(c) + std::string(20, '.');
            m = m2; bif++;
        }
        else
        {
            auto v = std::string(30 + s.draw(10), char('a' + s.draw(26)));
            t = t.insert(i, v); m[show_index(i)] = v; ins++;
        }
        if (keep.size() < 5) keep.push_back({t, m}); else keep[s.draw(5)] = {t, m};
        std::map<std::string, std::string> got; t.pair_indexes().sink([&] (auto&& p) { got[show_index(p.first)] = p.second; });
        if (got != m) fail("contents differ after step " + show(k));
    }
    for (auto& p : keep)
    {
        std::map<std::string, std::string> got; p.first.pair_indexes().sink([&] (auto&& q) { got[show_index(q.first)] = q.second; });
        if (got != p.second) fail("a kept version changed");
    }
    s.note("steps", steps); s.note("leaves", t.size());
    s.nontrivial(ins > 0 && bif > 0);
});

// Every arithmetic, comparison and logical operator acts leaf by leaf, with a scalar and with a tree of the same shape.
LAW("operators", 6000, "the tree has more than one leaf", [] (src& s)
{
    auto t = mara::tree_of<2>(3l);
    auto d = s.size(0, 3);
    for (std::size_t k = 0; k < d; ++k)
    {
        auto r = long(s.draw(3));
        t = t.bifurcate_if([r] (long v) { return v % 3 == r; }, [] (long v) { return mara::make_sequence(v + 1, v + 2, v + 4, v + 5); });
    }
    std::vector<long> a, b; t.sink([&] (long) { a.push_back(s.signed_integer(-4, 4)); b.push_back(s.signed_integer(-4, 4)); });
    std::size_t i = 0, j = 0; auto A = t.map([&] (long) { return a[i++]; }), B = t.map([&] (long) { return b[j++] * 2 + 1; });
    a.clear(); b.clear(); A.sink([&] (long v) { a.push_back(v); }); B.sink([&] (long v) { b.push_back(v); });
    auto c = s.signed_integer(-4, 4) * 2 + 1; auto op = s.draw(14);
    s.note("a", a); s.note("b", b); s.note("c", c); s.note("op", op);
    auto got = [] (auto&& tr) { std::vector<long> r; tr.sink([&] (auto&& v) { r.push_back(long(v)); }); return r; };
    std::vector<long> gt, gs, wt, ws;
#define OP(n, o) case n: gt = got(A o B); gs = got(A o c); for (std::size_t k = 0; k < a.size(); ++k) { wt.push_back(long(a[k] o b[k])); ws.push_back(long(a[k] o c)); } break;
    switch (op)
    {
        OP(0, +) OP(1, -) OP(2, *) OP(3, /) OP(4, &&) OP(5, ||) OP(6, ==) OP(7, !=) OP(8, <=) OP(9, >=) OP(10, <) OP(11, >)
        case 12: gt = got(-A); gs = got(+A); for (auto x : a) { wt.push_back(-x); ws.push_back(x); } break;
        case 13:
        {
            // logical operators with a zero scalar and boolean reductions
            gt = got(A && 0l); gs = got(A || 0l); for (auto x : a) { wt.push_back(0); ws.push_back(x != 0); }
            bool any = false, all = true; for (auto x : a) { any = any || x > c; all = all && x > c; }
            expect_eq("any of a comparison", (A > c).any(), any); expect_eq("all of a comparison", (A > c).all(), all);
            break;
        }
    }
    expect_eq("tree with tree", gt, wt); expect_eq("tree with scalar", gs, ws);
    s.cls("op " + std::to_string(op)); s.nontrivial(a.size() > 1);
});
#endif
PBT_MAIN
