// C11: what is written to an HDF5 file is read back, bit for bit; mismatches are refused and harmless.
#include "io_model.hpp"

struct compound_t { int a; double b; double c[3]; unsigned long d; };
template<> struct h5::hdf5_type_info<compound_t>
{
    using native_type = compound_t;
    static auto make_datatype_for(const native_type&) { return h5::Datatype::compound<compound_t>({{"a", offsetof(compound_t, a), Datatype::native_int()}, {"b", offsetof(compound_t, b), Datatype::native_double()}, {"c", offsetof(compound_t, c), Datatype::native_double().as_array(3)}, {"d", offsetof(compound_t, d), Datatype::native_ulong()}}); }
    static auto make_dataspace_for(const native_type&) { return Dataspace::scalar(); }
    static auto convert_to_writable(const native_type& value) { return value; }
    static auto prepare(const Datatype&, const Dataspace&) { return native_type(); }
    static auto finalize(native_type&& value) { return std::move(value); }
    static auto get_address(const native_type& value) { return &value; }
    static auto get_address(native_type& value) { return &value; }
};

static std::string bits(const compound_t& x) { return bits(x.a) + bits(x.b) + bits(x.c[0]) + bits(x.c[1]) + bits(x.c[2]) + bits(x.d); }
struct stored { std::string type, space, shown; std::function<std::string(h5::Group&, const std::string&)> read; };
struct value { stored st; std::function<void(h5::Group&, const std::string&)> write; bool adapts = false; /* reads whatever type it finds */ };
template<typename T> value make_value(std::string type, std::string space, T v)
{
    return {{type, space, bits(v), [] (h5::Group& g, const std::string& n) { if (n.size() % 2) { T r = g.read<T>(n); return bits(r); } T r; g.read(n, r); return bits(r); }}, [v] (h5::Group& g, const std::string& n) { g.write(n, v); }};
}
template<typename T, std::size_t R, typename G> nd::shared_array<T, R> gen_array(src& s, G g, std::string& space)
{
    ix<R> sh; space = "["; for (auto& n : sh) { n = s.chance(1, 12) ? 0 : s.size(1, s.chance(1, 40) ? (R == 1 ? 6000 : 60) : R == 1 ? 12 : 4); space += show(n) + ","; }
    auto u = nd::make_unique_array<T>(to_shape<R>(sh)); for_each<R>(sh, [&] (auto i) { u(to_index<R>(i)) = g(s); }); return std::move(u).shared();
}
static value gen_value(src& s)
{
    std::string sp;
    switch (s.draw(16))
    {
        case 0: return make_value<int>("int", "", gi(s));
        case 1: return make_value<unsigned long>("ulong", "", s.coin() ? s.draw(~0ull) : s.draw(100));
        case 2: return make_value<double>("double", "", gd(s));
        case 3: { auto t = gs(s); return make_value<std::string>("str" + show(std::max<std::size_t>(1, t.size())), "", t); }
        case 4: { std::vector<int> v(s.draw(9)); for (auto& x : v) x = gi(s); return make_value("int", "[" + show(v.size()) + ",", v); }
        case 5: { std::vector<double> v(s.draw(9)); for (auto& x : v) x = gd(s); return make_value("double", "[" + show(v.size()) + ",", v); }
        case 6: { auto a = gen_array<double, 1>(s, gd, sp); return make_value("double", sp, a); }
        case 7: { auto a = gen_array<double, 2>(s, gd, sp); return make_value("double", sp, a); }
        case 8: { auto a = gen_array<double, 3>(s, gd, sp); return make_value("double", sp, a); }
        case 9: { auto a = gen_array<int, 2>(s, gi, sp); return make_value("int", sp, a); }
        case 10: { auto a = gen_array<mara::arithmetic_sequence_t<double, 2>, 2>(s, [] (src& s) { mara::arithmetic_sequence_t<double, 2> q; q[0] = gd(s); q[1] = gd(s); return q; }, sp); return make_value("double2", sp, a); }
        case 11: { auto a = gen_array<mara::unit_length<double>, 1>(s, [] (src& s) { return mara::make_length(gd(s)); }, sp); return make_value("double", sp, a); }
        case 12: { auto r = mara::rational_number_t(); r = mara::make_rational(int(s.signed_integer(-1000, 1000)), int(s.integer(1, 1000))); return make_value("int2", "", r); }
        case 13: { mara::linked_list_t<double> l; std::size_t n = s.draw(7); for (std::size_t i = 0; i < n; ++i) l = l.prepend(gd(s)); return make_value("double", "[" + show(n) + ",", l); }
        case 14: { compound_t c{gi(s), gd(s), {gd(s), gd(s), gd(s)}, s.draw(~0ull)}; return make_value("compound", "", c); }
        default: { auto k = s.draw(3); mara::config_parameter_t p; std::string t; if (k == 0) { p = gi(s); t = "int"; } if (k == 1) { p = gd(s); t = "double"; } if (k == 2) { auto x = gs(s); t = "str" + show(std::max<std::size_t>(1, x.size())); p = x; } auto v = make_value(t, "", p); v.adapts = true; return v; }
    }
}

LAW("file_history", 3500, "at least 3 stored values survive a reopen and one write was refused", [] (src& s)
{
    auto fn = scratch("hist"); std::map<std::string, std::map<std::string, stored>> model; std::string log; int refused = 0, reopens = 0; std::size_t most = 0;
    auto say = [&] (const std::string& t) { log += t + "; "; std::memcpy(s.sh->described, log.c_str(), std::min<std::size_t>(log.size() + 1, 60000)); s.described = log; };
    const std::vector<std::string> groups{"alpha", "beta", "gamma"}, names{"x", "y", "density", "w-1"};
    {
        h5::File f(fn, "w"); bool writable = true; auto steps = s.size(2, 24);
        for (std::size_t k = 0; k < steps; ++k)
        {
            auto g = s.pick(groups), n = s.pick(names);
            switch (s.draw(8))
            {
                case 0: case 1: case 2: {
                    auto v = gen_value(s); say("write " + g + "/" + n + " " + v.st.type + v.st.space);
                    if (! writable) { if (! throws([&] { auto grp = f.require_group(g); v.write(grp, n); })) fail("writing to a file open for reading succeeds"); refused++; break; }
                    auto grp = s.coin() ? f.require_group(g) : f[g]; auto& m = model[g]; auto it = m.find(n);
                    bool clash = it != m.end() && (it->second.type != v.st.type || it->second.space != v.st.space);
                    if (clash) { if (! throws_a<std::invalid_argument>([&] { v.write(grp, n); })) fail("a dataset " + it->second.type + it->second.space + " was overwritten by " + v.st.type + v.st.space); refused++; }
                    else { v.write(grp, n); m[n] = v.st; }
                    break; }
                case 3: { // reading with a different type is refused
                    if (! model.count(g) || ! model[g].count(n)) { say("missing " + g + "/" + n); if (! throws([&] { auto grp = f.open_group(g); grp.read<double>(n); })) fail("a missing dataset was read"); break; }
                    auto v = gen_value(s); auto& m = model[g][n]; if (v.adapts || v.st.type == m.type || v.st.type.substr(0, 3) == "str") break; say("misread " + g + "/" + n + " as " + v.st.type);
                    auto grp = f.open_group(g); if (! throws([&] { v.st.read(grp, n); })) fail("a " + m.type + m.space + " was read as a " + v.st.type); refused++; break; }
                case 4: { say("reopen r+"); f.close(); f = h5::File(fn, "r+"); writable = true; reopens++; break; }
                case 5: { say("reopen r"); f.close(); no_handles("after close"); f = h5::File(fn); writable = false; reopens++; if (f.intent() != h5::Intent::rdonly) fail("intent"); break; }
                case 6: { say("replace handle"); h5::File other(std::move(f)); if (f.is_open()) fail("a moved-from file is open"); f = std::move(other); if (! f.is_open()) fail("lost the file"); break; }
                default: { if (! s.chance(1, 6)) break; say("truncate"); f.close(); f = h5::File(fn, "w"); model.clear(); writable = true; break; }
            }
            std::size_t total = 0; for (auto& m : model) total += m.second.size(); most = std::max(most, total);
            // the whole file agrees with the model
            std::vector<std::string> have, want; for (auto x : f) have.push_back(x); for (auto& m : model) want.push_back(m.first); std::sort(have.begin(), have.end()); expect_eq("groups", have, want); expect_eq("number of groups", f.size(), want.size());
            for (auto& m : model)
            {
                auto grp = f.open_group(m.first); have.clear(); want.clear(); for (auto x : grp) have.push_back(x); std::sort(have.begin(), have.end()); for (auto& d : m.second) want.push_back(d.first); expect_eq("datasets", have, want);
                for (auto& d : m.second) { auto got = d.second.read(grp, d.first); if (got != d.second.shown) fail(m.first + "/" + d.first + " (" + d.second.type + d.second.space + ") reads " + got + ", was written " + d.second.shown); }
            }
        }
        if (! h5::File::exists(fn)) fail("the file does not exist");
    }
    no_handles("after the file went out of scope"); unlink(fn.c_str()); if (h5::File::exists(fn)) fail("exists() after removal"); if (! throws([&] { h5::File(fn, "r"); })) fail("opening a missing file succeeds"); if (! throws_a<std::invalid_argument>([&] { h5::File(fn, "a"); })) fail("an unknown mode is accepted");
    s.nontrivial(most >= 3 && reopens > 0 && refused > 0); s.cls("refused", refused > 0); s.cls("reopened", reopens > 0); s.cls("nothing stored", most == 0);
});

template<std::size_t R> void region(src& s)
{
    auto fn = scratch("region"); ix<R> sh; for (auto& n : sh) n = s.size(1, s.chance(1, 40) ? (R == 1 ? 3000 : R == 2 ? 60 : 15) : R == 1 ? 16 : R == 2 ? 7 : 4); s.note("shape", str<R>(sh)); auto m = model<double, R>::make(sh, [&] (auto) { return 0.0; });
    {
        h5::File f(fn, "w"); auto space = h5::Dataspace::simple(to_shape<R>(sh)); auto d = f.require_dataset("data", h5::Datatype::native_double(), space);
        expect_eq("rank", d.get_space().rank(), R); expect_eq("size", d.get_space().size(), volume(sh));
        auto all = nd::make_unique_array<double>(to_shape<R>(sh)); for_each<R>(sh, [&] (auto i) { m(i) = gd(s); all(to_index<R>(i)) = m(i); }); d.write(std::move(all).shared());
        auto writes = s.size(1, 4);
        for (std::size_t w = 0; w < writes; ++w)
        {
            ix<R> st, fi, ju, cnt; for (std::size_t n = 0; n < R; ++n) { st[n] = s.draw(sh[n]); fi[n] = st[n] + 1 + s.draw(sh[n] - st[n]); ju[n] = s.size(1, 3); cnt[n] = (fi[n] - st[n] + ju[n] - 1) / ju[n]; }
            nd::jumps_t<R> j; for (std::size_t n = 0; n < R; ++n) j[n] = ju[n]; auto p = nd::access_pattern_t<R>().with_start(to_index<R>(st)).with_final(to_index<R>(fi)).with_jumps(j);
            s.note("region", str<R>(st) + ".." + str<R>(fi) + "/" + str<R>(ju));
            auto fspace = d.get_space(); fspace.select(mara::make_hdf5_hyperslab(p)); expect_eq("selection size", fspace.selection_size(), volume(cnt)); auto lo = fspace.selection_lower(); for (std::size_t n = 0; n < R; ++n) expect_eq("selection start", lo[n], st[n]);
            // read the region as a vector before and after writing it
            std::vector<double> want; for_each<R>(cnt, [&] (auto i) { ix<R> k; for (std::size_t n = 0; n < R; ++n) k[n] = st[n] + ju[n] * i[n]; want.push_back(m(k)); });
            auto got = d.template read<std::vector<double>>(fspace); expect_eq("region read", bits(got), bits(want));
            auto patch = nd::make_unique_array<double>(to_shape<R>(cnt)); for_each<R>(cnt, [&] (auto i) { ix<R> k; for (std::size_t n = 0; n < R; ++n) k[n] = st[n] + ju[n] * i[n]; patch(to_index<R>(i)) = m(k) = gd(s); });
            d.write(std::move(patch).shared(), fspace);
            // a buffer of another size does not fit the region
            std::vector<double> bad(want.size() + 1 + s.draw(3)); if (! throws([&] { d.write(bad, fspace); })) fail("a buffer of the wrong size was written");
        }
    }
    { h5::File f(fn, "r"); auto a = f.read<nd::shared_array<double, R>>("data"); for_each<R>(sh, [&] (auto i) { if (bits(a(to_index<R>(i))) != bits(m(i))) fail("at " + str<R>(i) + " the file has " + show(a(to_index<R>(i))) + ", want " + show(m(i))); }); auto u = f.read<nd::unique_array<double, R>>("data"); expect_eq("as a unique array", bits(u), bits(a)); if (! throws([&] { f.read<nd::shared_array<double, R + 1>>("data"); })) fail("read with another rank"); }
    no_handles("after a region write"); unlink(fn.c_str()); s.nontrivial(volume(sh) > 1);
}
// Any names, of any length, many in one group and in groups within groups, are listed and found again - and nothing else is.
LAW("many_names", 1500, "more than 8 names in one group", [] (src& s)
{
    auto fn = scratch("names"); struct dir { std::map<std::string, int> data; std::map<std::string, dir> sub; }; dir root; std::size_t most = 0, longest = 0;
    auto name = [&] { std::size_t n = s.chance(1, 12) ? s.size(100, 1024) : s.size(1, 12); std::string r; static const std::string ch = "abcxyzABC019_-:+ #=,()[]"; for (std::size_t i = 0; i < n; ++i) r += ch[s.draw(ch.size())]; longest = std::max(longest, n); return r; };
    std::string shown; int value = 0;
    std::function<void(h5::Group&, dir&, int)> fill = [&] (h5::Group& g, dir& d, int depth)
    {
        auto n = s.size(0, s.chance(1, 15) ? 120 : 14);
        for (std::size_t i = 0; i < n; ++i)
        {
            auto k = name(); shown += k.substr(0, 12) + " "; bool is_data = d.data.count(k), is_group = d.sub.count(k); 
            if (is_group) { if (! throws([&] { g.write(k, ++value); })) fail("a value replaced the group " + k); if (! throws([&] { g.open_dataset(k); })) fail("a group was opened as a dataset"); continue; }
            if (is_data && s.coin()) { if (! throws([&] { g.require_group(k); }) || ! throws([&] { g.open_group(k); })) fail("a dataset was opened as a group"); continue; }
            if (! is_data && depth < 3 && s.chance(1, 5)) { auto inner = s.coin() ? g.require_group(k) : g[k]; fill(inner, d.sub[k], depth + 1); }
            else { g.write(k, ++value); d.data[k] = value; }
        }
        most = std::max(most, d.data.size() + d.sub.size());
    };
    std::function<void(h5::Group&, const dir&)> check = [&] (h5::Group& g, const dir& d)
    {
        std::vector<std::string> have, want; for (auto x : g) have.push_back(x); std::sort(have.begin(), have.end()); for (auto& x : d.data) want.push_back(x.first); for (auto& x : d.sub) want.push_back(x.first); std::sort(want.begin(), want.end());
        expect_eq("number of names", g.size(), want.size()); expect_eq("names", have, want);
        for (auto& x : d.data) expect_eq("value of " + x.first, g.read<int>(x.first), x.second);
        for (auto& x : d.sub) { auto inner = g.open_group(x.first); check(inner, x.second); }
    };
    { h5::File f(fn, "w"); auto g = f.require_group("top"); fill(g, root, 0); check(g, root); if (s.coin()) { g.close(); f.close(); f = h5::File(fn, "r+"); g = f.open_group("top"); fill(g, root, 1); } }
    { h5::File f(fn, "r"); auto g = f.open_group("top"); check(g, root); auto top = f.open_group("/"); expect_eq("names at the top", top.size(), std::size_t(1)); }
    no_handles("after the file of names"); unlink(fn.c_str()); s.note("names", shown); s.nontrivial(most > 8); s.cls("more than 100 names", most > 100); s.cls("a long name", longest > 100);
});
LAW("region_rank1", 6000, "more than one element", region<1>);
LAW("region_rank2", 5000, "more than one element", region<2>);
LAW("region_rank3", 4000, "more than one element", region<3>);

LAW("growing_dataset", 1200, "at least 3 appends", [] (src& s)
{
    auto fn = scratch("grow"); std::vector<double> m; auto n = s.size(0, s.chance(1, 20) ? 400 : 20); auto chunk = s.size(1, 40); s.note("appends", n); s.note("chunk", chunk);
    { h5::File f(fn, "w"); auto pl = h5::PropertyList::dataset_create().set_chunk(chunk); auto d = f.require_dataset("series", h5::Datatype::native_double(), h5::Dataspace::unlimited(0), pl); expect_eq("initial size", d.get_space().size(), std::size_t(0)); }
    for (std::size_t k = 0; k < n; ++k)
    {
        h5::File f(fn, "r+"); auto d = f.open_dataset("series"); auto x = gd(s); auto at = d.get_space().size(); expect_eq("size before append", at, m.size()); d.set_extent(at + 1);
        d.write(x, d.get_space().select(h5::hyperslab_t{{at}, {1}, {1}, {1}})); m.push_back(x);
        if (s.chance(1, 4)) expect_eq("series", bits(d.read<std::vector<double>>()), bits(m));
        if (s.chance(1, 8) && ! throws_a<std::invalid_argument>([&] { d.set_extent(std::vector<hsize_t>{at + 1, 2}); })) fail("set_extent with another rank is accepted");
    }
    { h5::File f(fn); expect_eq("series", bits(f.read<std::vector<double>>("series")), bits(m)); } no_handles("after appending"); unlink(fn.c_str()); s.nontrivial(n >= 3);
});
PBT_MAIN
