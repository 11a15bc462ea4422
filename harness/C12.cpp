// C12: trees, run configurations and schedules survive being written to a checkpoint and read back.
#include "io_model.hpp"
#include "app_serialize_tree.hpp"

template<std::size_t R> using coords = std::array<std::size_t, R>;
template<std::size_t R> using leaves = std::vector<std::pair<std::size_t, coords<R>>>;      // in traversal order

// a random tree as a list of its leaves, and the same thing as a tree of ints (positions in that list)
template<std::size_t R> leaves<R> gen_leaves(src& s, std::size_t max_level)
{
    leaves<R> m{{0, {}}}; auto n = s.size(0, R == 1 ? 14 : R == 2 ? 10 : 5); bool deep = s.coin();
    for (std::size_t k = 0; k < n; ++k)
    {
        std::size_t at = deep ? 0 : s.draw(m.size()); if (deep) { for (std::size_t i = 0; i < m.size(); ++i) if (m[i].first >= m[at].first) at = i; at = at >= s.draw(1 << R) ? at : at; }
        auto b = m[at]; if (b.first >= max_level) continue; m.erase(m.begin() + at);
        for (std::size_t c = 0; c < (1 << R); ++c) { coords<R> x; for (std::size_t a = 0; a < R; ++a) x[a] = 2 * b.second[a] + ((c >> a) & 1); m.insert(m.begin() + at + c, {b.first + 1, x}); }
    }
    return m;
}
template<std::size_t R> std::string leaf_text(std::size_t l, const coords<R>& c) { std::string r = show(l) + ":"; for (auto x : c) r += show(x) + ","; return r; }
template<typename V, std::size_t R, typename G> mara::arithmetic_binary_tree_t<V, R> build(const leaves<R>& m, G value)
{
    // refine towards the leaves
    mara::arithmetic_binary_tree_t<int, R> t{0}; std::set<std::string> want; std::size_t deepest = 0; for (auto& b : m) deepest = std::max(deepest, b.first);
    std::set<std::string> internal; for (auto b : m) while (b.first > 0) { b.first--; for (auto& x : b.second) x /= 2; internal.insert(leaf_text<R>(b.first, b.second)); }
    for (std::size_t l = 0; l < deepest; ++l) t = t.indexes().bifurcate_if([&] (auto i) { coords<R> c; for (std::size_t a = 0; a < R; ++a) c[a] = i.coordinates[a]; return internal.count(leaf_text<R>(i.level, c)) > 0; }, [] (auto i) { return i.child_indexes(); }).map([] (auto) { return 0; });
    return t.indexes().map([&] (auto i) { coords<R> c; for (std::size_t a = 0; a < R; ++a) c[a] = i.coordinates[a]; return value(leaf_text<R>(i.level, c)); });
}
template<typename V, std::size_t R> std::vector<std::string> contents(const mara::arithmetic_binary_tree_t<V, R>& t)
{
    std::vector<std::string> r; t.indexes().pair(t).sink([&] (auto iv) { coords<R> c; for (std::size_t a = 0; a < R; ++a) c[a] = iv.first.coordinates[a]; r.push_back(leaf_text<R>(iv.first.level, c) + " " + bits(iv.second)); }); return r;
}
template<typename V, std::size_t R, typename G> void tree(src& s, std::size_t max_level, G gen)
{
    auto fn = scratch("tree"); auto m = gen_leaves<R>(s, max_level); std::map<std::string, V> val; std::vector<std::string> want; std::size_t deep = 0;
    for (auto& b : m) { auto k = leaf_text<R>(b.first, b.second); val.emplace(k, gen(s)); want.push_back(k + " " + bits(val.at(k))); deep = std::max(deep, b.first); } s.note("leaves", want);
    auto t = build<V, R>(m, [&] (const std::string& k) { return val.at(k); }); expect_eq("harness: tree", contents<V, R>(t), want);
    bool named = s.coin();
    { h5::File f(fn, "w"); auto g = f.require_group("state"); if (named) mara::write(g, "data", t); else mara::write_tree(g.require_group("data"), t); g.write("other", 1); }
    { h5::File f(fn, "r"); auto g = f.open_group("state"); mara::arithmetic_binary_tree_t<V, R> u; if (named) mara::read(g, "data", u); else mara::read_tree(g.open_group("data"), u); expect_eq("leaves read back", contents<V, R>(u), want); expect_eq("size", u.size(), m.size()); expect_eq("depth", u.depth(), deep); expect_eq("datasets", g.open_group("data").size(), m.size()); }
    no_handles("after reading a tree"); unlink(fn.c_str()); s.nontrivial(m.size() > 1 && deep > 1); s.cls("level 10 or deeper", deep >= 10); s.cls("single leaf", m.size() == 1);
}
template<std::size_t N> nd::shared_array<double, N> garr(src& s) { ix<N> sh; for (auto& n : sh) n = s.size(1, s.chance(1, 40) ? 24 : 3); auto u = nd::make_unique_array<double>(to_shape<N>(sh)); for_each<N>(sh, [&] (auto i) { u(to_index<N>(i)) = gd(s); }); return std::move(u).shared(); }
LAW("tree_rank1", 1600, "at least two levels", [] (src& s) { if (s.coin()) tree<double, 1>(s, 14, gd); else tree<int, 1>(s, 14, gi); });
LAW("tree_rank2", 1600, "at least two levels", [] (src& s) { if (s.coin()) tree<double, 2>(s, 12, gd); else tree<nd::shared_array<double, 2>, 2>(s, 12, garr<2>); });
LAW("tree_rank3", 1200, "at least two levels", [] (src& s) { if (s.coin()) tree<int, 3>(s, 6, gi); else tree<nd::shared_array<double, 1>, 3>(s, 6, garr<1>); });

static mara::config_parameter_t gp(src& s, std::size_t kind) { if (kind == 0) return gi(s); if (kind == 1) return gd(s); return gs(s); }
LAW("configuration", 3000, "at least one item of each type, one changed from its default", [] (src& s)
{
    auto fn = scratch("config"); auto tmpl = mara::make_config_template(); std::map<std::string, mara::config_parameter_t> m; auto n = s.size(0, s.chance(1, 20) ? 80 : 12); std::set<std::size_t> kinds; bool changed = false;
    for (std::size_t k = 0; k < n; ++k) { auto name = "item_" + show(k) + s.pick({"", "x", "-y", ".z"}); auto kind = s.draw(3); kinds.insert(kind); auto v = gp(s, kind); m[name] = v; std::visit([&] (auto x) { tmpl = std::move(tmpl).item(name.c_str(), x); }, v); }
    auto c = tmpl.create(); for (auto& i : m) if (s.coin()) { auto v = gp(s, i.second.index()); if (bits(v) != bits(i.second)) changed = true; i.second = v; c = c.set(i.first, v); }
    auto text = [] (auto&& items) { std::vector<std::string> r; for (auto x : items) r.push_back(x.first + "=" + bits(x.second)); return r; }; s.note("items", text(m)); expect_eq("configuration", text(c), text(m));
    bool named = s.coin();
    { h5::File f(fn, "w"); auto g = f.require_group("top"); if (named) mara::write(g, "config", c); else mara::write_config(f.require_group("config"), c); }
    { h5::File f(fn, "r"); auto r = named ? mara::read_config(f.open_group("top").open_group("config")) : mara::read_config(f.open_group("config")); expect_eq("configuration read back", text(r), text(m)); expect_eq("applied to the template", text(tmpl.create().update(r)), text(m)); }
    // a second write over the same file
    { h5::File f(fn, "r+"); auto g = f.require_group("top"); if (named) mara::write(g, "config", c); else mara::write_config(f.require_group("config"), c); }
    { h5::File f(fn, "r"); auto r = named ? mara::read_config(f.open_group("top").open_group("config")) : mara::read_config(f.open_group("config")); expect_eq("configuration written twice", text(r), text(m)); }
    no_handles("after a configuration"); unlink(fn.c_str()); s.nontrivial(kinds.size() == 3 && changed);
});

LAW("schedule", 3000, "at least two tasks, performed at least once in all", [] (src& s)
{
    auto fn = scratch("sched"); mara::schedule_t t; auto n = s.size(0, 6); std::map<std::string, std::pair<int, double>> m; int total = 0;
    for (std::size_t k = 0; k < n; ++k)
    {
        std::string name = "task_" + show(k); mara::schedule_t::task_t x; x.name = name; x.num_times_performed = s.coin() ? int(s.draw(20)) : int(s.draw(2000000000)); x.last_performed = gd(s); x.is_due = s.coin(); total += x.num_times_performed != 0;
        if (s.chance(1, 4)) { t.create(name); m[name] = {0, 0.0}; auto d = s.real(0, 2); auto j = s.draw(4); for (std::size_t i = 0; i < j; ++i) { t.mark_as_due(name, d); t.mark_as_completed(name); m[name].first++; m[name].second += d; } }
        else { t.insert(x); m[name] = {x.num_times_performed, x.last_performed}; }
    }
    bool named = s.coin(); s.note("tasks", n);
    for (int round = 0; round < 2; ++round)
    {
        { h5::File f(fn, round ? "r+" : "w"); auto g = f.require_group("top"); if (named) mara::write(g, "schedule", t); else mara::write_schedule(g.require_group("schedule"), t); }
        h5::File f(fn, "r"); mara::schedule_t u; auto g = f.open_group("top"); if (named) mara::read(g, "schedule", u); else u = mara::read_schedule(g.open_group("schedule"));
        expect_eq("number of tasks", u.size(), m.size()); for (auto& x : m) { if (! u.count(x.first)) fail("task " + x.first + " is lost"); expect_eq("name", u.at(x.first).name, x.first); expect_eq("times performed", u.num_times_performed(x.first), x.second.first); expect_eq("last performed", bits(u.last_performed(x.first)), bits(x.second.second)); if (u.is_due(x.first)) fail("a task read from a file is due"); }
    }
    no_handles("after a schedule"); unlink(fn.c_str()); s.nontrivial(m.size() > 1 && total > 0);
});

LAW("numbered_filenames", 20000, "a count of more than one digit", [] (src& s)
{
    auto pre = s.pick({std::string("chkpt"), std::string("diagnostics"), std::string("a"), std::string("run/x.y")}), ext = s.pick({std::string("h5"), std::string("txt")}); auto a = int(s.coin() ? s.draw(10000) : s.draw(2000000000)), b = int(s.draw(10000)); s.note("count", a); s.note("other", b);
    auto want = [&] (int n) { auto d = std::to_string(n); while (d.size() < 4) d = "0" + d; return pre + "." + d + "." + ext; };
    auto fa = mara::create_numbered_filename(pre, a, ext), fb = mara::create_numbered_filename(pre, b, ext); expect_eq("name", fa, want(a)); expect_eq("name", fb, want(b)); expect_eq("distinct", fa == fb, a == b); if (a < 10000) expect_eq("names sort as counts do", fa < fb, a < b); s.nontrivial(a > 9);
});
PBT_MAIN
