// C13: run configurations: typed, persistent, refusing what they do not know; command line parsing.
#include "pbt.hpp"
#include <stdexcept>
#include <iostream>
#include "app_config.hpp"
using namespace pbt;
using P = mara::config_parameter_t;
static std::string text(const P& p) { return show(p.index()) + ":" + std::visit([] (auto& v) { return show(v); }, p); }
template<typename M> std::vector<std::string> text_of(const M& m) { std::vector<std::string> r; for (auto x : m) r.push_back(x.first + "=" + text(x.second)); return r; }
static std::string gs(src& s) { std::string r; auto n = s.draw(12); for (std::size_t i = 0; i < n; ++i) r += char(33 + s.draw(94)); return r; }
static P gp(src& s, std::size_t k) { if (k == 0) return int(s.signed_integer(-1000000, 1000000)); if (k == 1) return s.coin() ? s.symmetric(1e6) : s.symmetric(1) * std::pow(10.0, double(s.signed_integer(-200, 200))); return gs(s); }
static const std::vector<std::string> names{"tfinal", "N", "outdir", "cfl", "a", "aa", "N2", "verbose", ""};

// text that is not, as a whole, a number of the option's type
static std::string malformed(src& s, std::size_t kind, std::string good)
{
    if (s.coin()) return s.pick({std::string("abc"), std::string(""), std::string("=1"), std::string("x1"), std::string("-"), std::string("1e999999")});
    if (s.coin()) return good + s.pick({std::string("x"), std::string("e"), std::string(",5"), std::string(" 1"), std::string("-"), std::string(".2.3"), std::string("=")});
    return kind == 0 ? good + s.pick({std::string("e3"), std::string(".7"), std::string(".0"), std::string("99999999999")}) : good + "." + good + ".1";
}
static std::string show_value(const P& p) { return std::visit([] (auto& x) { return show(x); }, p); }
LAW("configuration_history", 40000, "at least one successful and one refused change", [] (src& s)
{
    auto tmpl = mara::make_config_template(); std::map<std::string, P> defaults; auto n = s.size(0, s.chance(1, 20) ? 60 : 7);
    for (std::size_t k = 0; k < n; ++k) { auto name = s.pick(names); auto v = gp(s, s.draw(3)); defaults[name] = v; std::visit([&] (auto x) { if (s.coin()) tmpl = tmpl.item(name.c_str(), x); else tmpl = std::move(tmpl).item(name.c_str(), x); }, v); }
    s.note("template", text_of(defaults));
    struct held { mara::config_t c; std::map<std::string, P> m; }; std::vector<held> pool{{tmpl.create(), defaults}}; std::string log; int ok = 0, refused = 0;
    auto check = [&] (const held& h)
    {
        expect_eq("items", text_of(h.c), text_of(h.m));
        for (auto& name : names)
        {
            if (! h.m.count(name)) { if (! s.chance(1, 4)) continue; if (! throws_a<std::invalid_argument>([&] { h.c.get_int(name); }) || ! throws_a<std::invalid_argument>([&] { h.c.get_double(name); }) || ! throws_a<std::invalid_argument>([&] { h.c.get_string(name); })) fail("reading unknown option '" + name + "' is not refused"); continue; }
            auto& p = h.m.at(name);
            if (p.index() == 0) { expect_eq(name, h.c.get_int(name), std::get<int>(p)); expect_eq(name, h.c.get<int>(name), std::get<int>(p)); } else if (s.chance(1, 4) && ! throws([&] { h.c.get_int(name); })) fail(name + " was read as an int");
            if (p.index() == 1) { expect_eq(name, h.c.get_double(name), std::get<double>(p)); expect_eq(name, h.c.get<double>(name), std::get<double>(p)); } else if (s.chance(1, 4) && ! throws([&] { h.c.get_double(name); })) fail(name + " was read as a double");
            if (p.index() == 2) { expect_eq(name, h.c.get_string(name), std::get<std::string>(p)); expect_eq(name, h.c.get<std::string>(name), std::get<std::string>(p)); } else if (s.chance(1, 4) && ! throws([&] { h.c.get_string(name); })) fail(name + " was read as a string");
        }
    };
    auto steps = s.size(1, 12);
    for (std::size_t k = 0; k < steps; ++k)
    {
        held h = pool[s.draw(pool.size())]; auto before = pool.size(); 
        switch (s.draw(5))
        {
            case 0: { // typed set
                auto name = s.pick(names); auto v = gp(s, s.draw(3)); log += "set " + name + " " + text(v) + "; "; s.described = log; bool fits = h.m.count(name) && h.m.at(name).index() == v.index();
                if (! fits) { if (! throws_a<std::invalid_argument>([&] { h.c.set(name, v); })) fail("set " + name + "=" + text(v) + " is accepted"); refused++; }
                else { auto c = s.coin() ? h.c.set(name, v) : mara::config_t(h.c).set(name, v); check(h); h.c = c; h.m[name] = v; ok++; }
                break; }
            case 1: { // set from text
                auto name = s.pick(names); auto kind = h.m.count(name) ? h.m.at(name).index() : s.draw(3); auto v = gp(s, kind); auto t = std::visit([] (auto& x) { return show(x); }, v); bool bad = kind != 2 && s.chance(1, 5); if (bad) t = malformed(s, kind, t); log += "set " + name + " text " + t + "; "; s.described = log;
                if (! h.m.count(name) || bad) { if (! throws_a<std::invalid_argument>([&] { h.c.set(name, t); })) fail("set " + name + "=" + t + " is accepted"); refused++; }
                else { auto c = s.coin() ? h.c.set(name, t) : mara::config_t(h.c).set(name, t); check(h); h.c = c; h.m[name] = v; ok++; }
                break; }
            case 2: { // update from a map of text
                mara::config_string_map_t u; bool bad = false; auto m = h.m; auto q = s.draw(4); for (std::size_t i = 0; i < q; ++i) { auto name = s.pick(names); auto kind = h.m.count(name) ? h.m.at(name).index() : 0; auto v = gp(s, kind); u[name] = std::visit([] (auto& x) { return show(x); }, v); if (! h.m.count(name)) bad = true; else if (kind != 2 && s.chance(1, 6)) u[name] = malformed(s, kind, u[name]); else m[name] = v; }
                for (auto& x : u) if (h.m.count(x.first) && h.m.at(x.first).index() != 2 && x.second != show_value(m.at(x.first))) bad = true;
                log += "update " + show(u.size()) + "; "; s.described = log; if (bad) { if (! throws_a<std::invalid_argument>([&] { h.c.update(u); })) fail("an update with an unknown option is accepted"); refused++; check(h); } else { auto c = s.coin() ? h.c.update(u) : mara::config_t(h.c).update(u); check(h); h.c = c; h.m = m; ok += ! u.empty(); }
                break; }
            case 3: { // update from a map of typed values
                mara::config_parameter_map_t u; bool bad = false; auto m = h.m; auto q = s.draw(4); for (std::size_t i = 0; i < q; ++i) { auto name = s.pick(names); auto kind = h.m.count(name) && ! s.chance(1, 6) ? h.m.at(name).index() : s.draw(3); u[name] = gp(s, kind); } for (auto& x : u) { if (! h.m.count(x.first) || h.m.at(x.first).index() != x.second.index()) bad = true; else m[x.first] = x.second; }
                log += "update typed " + show(u.size()) + "; "; s.described = log; if (bad) { if (! throws_a<std::invalid_argument>([&] { h.c.update(u); })) fail("an update that does not fit is accepted"); refused++; check(h); } else { auto c = s.coin() ? h.c.update(u) : mara::config_t(h.c).update(u); check(h); h.c = c; h.m = m; ok += ! u.empty(); }
                break; }
            default: { auto c = tmpl.create(); log += "create; "; h.c = c; h.m = defaults; }
        }
        pool.push_back(h);
    }
    for (auto& h : pool) check(h); auto fresh = held{tmpl.create(), defaults}; check(fresh);
    s.nontrivial(ok > 0 && refused > 0); s.cls("refused", refused > 0); s.cls("changed", ok > 0);
});

LAW("command_line", 60000, "at least two key=value arguments", [] (src& s)
{
    auto n = s.size(0, s.chance(1, 10) ? 40 : 6); std::vector<std::string> args; std::map<std::string, std::string> want; bool dup = false; auto word = [&] { std::string r; auto k = s.draw(4); for (std::size_t i = 0; i < k; ++i) r += s.pick({'a', 'b', '-', '.', '0', '/', ' '}); return r; };
    for (std::size_t k = 0; k < n; ++k)
    {
        if (s.chance(1, 4)) { args.push_back(word()); continue; }
        auto key = s.chance(1, 5) && ! want.empty() ? want.begin()->first : word(), val = word(); if (s.chance(1, 4)) val += "=" + word(); args.push_back(key + "=" + val); if (want.count(key)) dup = true; want[key] = val;
    }
    s.note("argv", args); std::vector<const char*> argv; for (auto& a : args) argv.push_back(a.c_str()); argv.push_back("zz=past the end");
    if (dup) { if (! throws_a<std::invalid_argument>([&] { mara::argv_to_string_map(int(n), argv.data()); })) fail("a repeated option is accepted"); }
    else { auto got = mara::argv_to_string_map(int(n), argv.data()); std::vector<std::string> a, b; for (auto& x : got) a.push_back(x.first + "=" + x.second); for (auto& x : want) b.push_back(x.first + "=" + x.second); expect_eq("options", a, b); }
    s.nontrivial(want.size() >= 2); s.cls("repeated", dup);
});

LAW("printing", 8000, "at least two items", [] (src& s)
{
    std::map<std::string, P> m; auto n = s.chance(1, 20) ? s.draw(60) : s.draw(6); for (std::size_t i = 0; i < n; ++i) m["k" + show(i) + std::string(s.draw(30), 'k')] = gp(s, s.draw(3)); std::ostringstream os; os.precision(int(s.integer(3, 15))); auto prec = os.precision(); auto flags = os.flags(); mara::pretty_print(os, "title", m);
    auto t = os.str(); if (t.find("title") == std::string::npos) fail("no title"); std::size_t at = 0; for (auto& x : m) { std::ostringstream v; v.precision(prec); std::visit([&] (auto& y) { v << y; }, x.second); auto p = t.find(x.first, at); if (p == std::string::npos) fail("no item " + x.first); auto e = t.find('\n', p); auto line = t.substr(p, e - p); if (line.size() < v.str().size() || line.substr(line.size() - v.str().size()) != v.str()) fail("item " + x.first + " is printed as " + line); at = e; }
    if (os.precision() != prec || os.flags() != flags || os.fill() != ' ') fail("the stream's format is changed"); s.nontrivial(n > 1);
});
PBT_MAIN
