// C30: settings from the command line: used, recorded, kept across restarts, or refused
#include "programs.hpp"
using namespace pbt; using namespace cli; using namespace prog;
static std::string group(const program& p) { return p.name == "binary" || p.name == "boilerplate" ? "run_config" : "config"; }
// a recorded setting as it would be written on the command line
static std::string text(const h5dump& c, const std::string& k) { auto& d = c.at(k); if (d.cls == H5T_INTEGER) return std::to_string(c.integer(k)); if (d.cls == H5T_FLOAT) return num(c.real(k)); return d.bytes.empty() ? "" : c.str(k); }
static std::map<std::string, std::string> settings(const program& p, const h5dump& c) { std::map<std::string, std::string> r; for (auto& k : c.under(group(p))) r[k] = text(c, group(p) + "/" + k); return r; }
static program some(src& s) { switch (s.integer(0, 6)) { case 0: case 1: case 2: return binary(s, 2, 4); case 3: return sedov(s); case 4: case 5: return cloud(s); default: return boilerplate(s); } }
static std::set<std::string> size_of(const program& p) { if (p.name == "binary") return {"depth", "block_size", "domain_radius", "focus_factor", "focus_index"}; if (p.name == "boilerplate") return {"N"}; return {"nr", "num_decades"}; }
static bool same_setting(const h5dump& c, const std::string& k, const std::string& want) { auto& d = c.at(k); if (d.cls == H5T_INTEGER) return c.integer(k) == std::stoi(want); if (d.cls == H5T_FLOAT) { double x = std::strtod(want.c_str(), nullptr), y = c.real(k); return std::memcmp(&x, &y, 8) == 0; } return text(c, k) == want; }
static const char* step_options(const program& p) { if (p.name == "binary") return "cfl_number plm_theta reconstruct_method rk_order sink_rate sink_radius nu alpha no_accretion_force buffer_damping_rate"; if (p.name == "cloud") return "cfl_number plm_theta reconstruct_method rk_order temperature_floor jet_total_energy jet_duration jet_gamma_beta jet_opening_angle jet_structure_exp"; return ""; }
// leave out some of the settings, and put the rest in any order
static std::map<std::string, std::string> drop(src& s, program& p) { auto keep = size_of(p); std::map<std::string, std::string> out; for (auto it = p.o.kv.begin(); it != p.o.kv.end();) { if (! keep.count(it->first) && s.chance(1, 3)) { out.insert(*it); it = p.o.kv.erase(it); } else ++it; } return out; }
static std::vector<std::string> shuffled(src& s, std::vector<std::string> a) { for (std::size_t i = a.size() - 1; i > 1; --i) std::swap(a[i], a[1 + s.size(0, i - 1)]); return a; }
static std::string where(const program& p, const scratch& d, const std::string& sub) { return d / sub; }
static result go(src& s, const program& p, const scratch& d, const std::string& sub, std::map<std::string, std::string> with) { if (p.outdir) { with["outdir"] = sub; return run_mara(shuffled(s, p.args(with)), d.path); } mkdir((d / sub).c_str(), 0755); return run_mara(shuffled(s, p.args(with)), d / sub); }

LAW("settings that are given are recorded, the others have their default, whatever else is given", 260, "settings given and left out", [] (src& s)
{
    auto p = some(s); auto left = drop(s, p); scratch d; s.note("program", p.name); s.note("options", p.o.str()); s.cls(p.name); s.nontrivial(! left.empty() && p.o.kv.size() > 2); std::map<std::string, std::string> with{{"tfinal", "0"}, {"cpi", num(s.pick({0.0, 0.5, 3.25}))}}; if (p.diagnostics) with["dfi"] = num(s.real(0, 2)); if (p.diagnostics && s.coin()) with["tsi"] = num(s.real(0, 2));
    auto r = go(s, p, d, "out", with); if (r.timed_out) fail("mara does not finish"); if (r.code && files(where(p, d, "out"), "chkpt").empty()) discard(); auto c = read_h5(d / "out/chkpt.0000.h5"); for (auto& x : p.o.kv) if (! with.count(x.first) && ! same_setting(c, group(p) + "/" + x.first, x.second)) fail("setting " + x.first + "=" + x.second + " is recorded as " + text(c, group(p) + "/" + x.first)); for (auto& x : with) if (! same_setting(c, group(p) + "/" + x.first, x.second)) fail("setting " + x.first + "=" + x.second + " is recorded as " + text(c, group(p) + "/" + x.first));
    // the defaults, from a run that is given nothing but the size of the mesh
    program q = p; q.o.kv.clear(); for (auto& k : size_of(p)) if (p.o.kv.count(k)) q.o.kv[k] = p.o.kv[k]; auto r2 = run(q, d.path, "plain", {{"tfinal", "0"}}); if (r2.timed_out) fail("mara does not finish"); if (files(where(p, d, "plain"), "chkpt").empty()) fail("no checkpoint with the default settings: " + tail(r2.out)); auto e = read_h5(d / "plain/chkpt.0000.h5"); for (auto& x : settings(q, e)) if (! p.o.kv.count(x.first) && ! with.count(x.first) && x.first != "outdir") { if (! c.has(group(p) + "/" + x.first)) fail("setting " + x.first + " is not recorded"); if (text(c, group(p) + "/" + x.first) != x.second) fail("setting " + x.first + ", which is not given, is " + text(c, group(p) + "/" + x.first) + ", not the default " + x.second); }
    expect_eq("recorded settings", c.under(group(p)), e.under(group(p)));
});
LAW("giving every setting as it was recorded gives the same files", 120, "settings left out", [] (src& s)
{
    auto p = some(s); auto left = drop(s, p); scratch d; s.note("program", p.name); s.note("options", p.o.str()); s.nontrivial(! left.empty()); double dt; { auto r = run(p, d.path, "first", {{"tfinal", "0"}, {"cpi", "0"}}); if (r.timed_out) fail("mara does not finish"); if (r.code) discard(); dt = read_h5(d / "first/chkpt.0001.h5").real("solution/time") / p.unit; } auto r = go(s, p, d, "one", {{"tfinal", num(dt * 1.5)}, {"cpi", "0"}}); if (r.timed_out) fail("mara does not finish"); if (r.code) discard();
    auto c = read_h5(d / "one/chkpt.0000.h5"); program q = p; q.o.kv = settings(p, c); for (auto k : {"outdir", "restart"}) q.o.kv.erase(k); ok(go(s, q, d, "two", {})); auto names = files(d / "one"); expect_eq("files", files(d / "two"), names); for (auto& f : names) same_file(f, read_h5(d / "one/" + f), read_h5(d / "two/" + f), {"config/outdir", "config/restart", "run_config/outdir", "run_config/restart"});
});
LAW("a run that is given something it does not know or cannot read does not start", 240, "always", [] (src& s)
{
    auto p = some(s); drop(s, p); scratch d; s.nontrivial(); s.cls(p.name); auto a = p.args({{"tfinal", "0"}}); if (p.outdir) a.push_back("outdir=out"); std::string bad; auto keys = std::vector<std::string>(); for (auto& x : p.o.kv) keys.push_back(x.first);
    switch (s.integer(0, 4))
    {
    case 0: { auto k = s.pick(keys); bad = s.pick(std::vector<std::string>{k + "x", k.substr(0, k.size() - 1), "x" + k, "no_such_option", k + " ", ""}) + "=1"; bool known = p.o.kv.count(bad.substr(0, bad.find('='))); if (known || bad == "N=1" || bad == "nr=1") discard(); s.cls("unknown"); break; }
    case 1: { auto k = s.pick(keys); bad = k + "=" + p.o.kv.at(k); s.cls("twice"); break; }
    case 2: { auto k = s.pick(keys); if (k == "reconstruct_method" && p.name == "binary") { bad = ""; discard(); } p.o.kv.erase(k); a = p.args({{"tfinal", "0"}}); if (p.outdir) a.push_back("outdir=out"); bad = k + "=" + s.pick(std::vector<std::string>{"", "abc", "yes", "--", "x1", "1x", "1.5.2", "0,5"}); s.cls("not a number"); break; }
    case 3: bad = "restart=" + s.pick(std::vector<std::string>{"missing.h5", "no/such/dir/chkpt.0000.h5", "empty.h5", "notes.txt"}); { std::ofstream(d / "empty.h5"); std::ofstream(d / "notes.txt") << "not a checkpoint"; } s.cls("not a checkpoint"); break;
    default: if (p.name == "binary") { if (p.o.kv.count("reconstruct_method")) { p.o.kv["reconstruct_method"] = s.pick(std::vector<std::string>{"ppm", "PLM", "plm2", "weno"}); a = p.args({{"tfinal", "0"}, {"outdir", "out"}}); bad = a.back(); a.pop_back(); } else bad = "reconstruct_method=ppm"; } else discard(); s.cls("no such method");
    }
    a.insert(a.begin() + 1 + s.size(0, a.size() - 1), bad); s.note("program", p.name); s.note("given", bad); auto r = run_mara(a, d.path); if (r.timed_out) fail("mara does not finish"); if (r.code == 0) fail("mara " + p.name + " accepts " + bad); for (auto sub : {".", "out"}) for (auto k : {"chkpt", "diagnostics"}) if (! files(d / sub, k).empty()) fail(std::string("a run that was refused writes a ") + k + " file");
});
LAW("settings given at a restart act as if they had been given from the start, the others stay", 180, "a setting of the scheme is changed", [] (src& s)
{
    auto p = s.coin() ? binary(s, 2, 4) : cloud(s); auto other = p.name == "binary" ? binary(s, 1, 2) : cloud(s); scratch d; std::map<std::string, std::string> change; std::istringstream names(step_options(p)); std::string k; while (names >> k) if (s.chance(1, 3) && p.o.kv.count(k) && other.o.kv.count(k) && p.o.kv[k] != other.o.kv[k]) change[k] = other.o.kv[k]; if (p.name == "binary" && p.o.kv.count("fixed_dt") == 0) p.o.set("fixed_dt", 0);
    s.note("program", p.name); s.note("options", p.o.str()); std::string ch; for (auto& x : change) ch += " " + x.first + "=" + x.second; s.note("changed", ch); s.nontrivial(! change.empty()); s.cls(p.name); auto q = p; for (auto& x : change) q.o.kv[x.first] = x.second; auto a = run(p, d.path, "a", {{"tfinal", "0"}, {"cpi", "0"}}); if (a.timed_out) fail("mara does not finish"); if (files(d / "a", "chkpt").empty()) discard(); auto b = run(q, d.path, "b", {{"tfinal", "0"}, {"cpi", "0"}}); if (b.timed_out) fail("mara does not finish"); if (b.code) discard();
    auto c = read_h5(d / "a/chkpt.0000.h5"); mkdir((d / "r").c_str(), 0755); copy_file(d / "a/chkpt.0000.h5", d / "start.h5"); std::map<std::string, std::string> with = change; with["tfinal"] = "0"; ok(resume(p, d.path, "r", "start.h5", with)); std::set<std::string> skip{"config/outdir", "config/restart", "run_config/outdir", "run_config/restart"};
    auto last = files(d / "r", "chkpt"); if (last.empty()) fail("the restarted run writes nothing"); for (auto& f : last) { auto x = read_h5(d / "b/" + f), y = read_h5(d / "r/" + f); same_file(f, x, y, skip); } expect_eq("last checkpoint", last.back(), files(d / "b", "chkpt").back());
});
LAW("intervals and the stop time may be changed at a restart, and everything not given is kept", 120, "something changed, something kept", [] (src& s)
{
    auto p = some(s); drop(s, p); scratch d; auto dt = first_step(p, d.path, true); s.note("program", p.name); s.note("options", p.o.str()); s.cls(p.name); std::vector<std::string> keys{"cpi", "tfinal"}; if (p.diagnostics) { keys.push_back("dfi"); keys.push_back("tsi"); }
    std::map<std::string, std::string> a, change; for (auto& k : keys) { a[k] = k == "tfinal" ? "0" : num(dt * s.real(1.3, 6)); if (s.chance(2, 3)) change[k] = k == "tfinal" ? num(dt * (s.integer(0, 7) + 0.5)) : num(dt * s.real(0.3, 5)); } auto b = a; std::string ch; for (auto& x : change) { b[x.first] = x.second; ch += " " + x.first + "=" + x.second; } s.note("changed", ch); s.nontrivial(! change.empty() && change.size() < keys.size());
    ok(run(p, d.path, "a", a)); auto r = run(p, d.path, "b", b); if (r.timed_out) fail("mara does not finish"); if (r.code) discard(); bool there = p.outdir && s.coin(); std::string sub = "a";
    if (there) { s.cls("directory kept"); std::vector<std::string> args{p.name, "restart=a/chkpt.0000.h5"}; for (auto& x : change) args.push_back(x.first + "=" + x.second); ok(run_mara(shuffled(s, args), d.path)); }
    else { sub = "r"; mkdir((d / "r").c_str(), 0755); for (auto& f : files(d / "a")) copy_file(d / "a/" + f, d / "r/" + f); copy_file(d / "a/chkpt.0000.h5", d / "start.h5"); ok(resume(p, d.path, "r", p.outdir ? "start.h5" : "../start.h5", change)); }
    auto names = files(d / "b"); expect_eq("files", files(d / sub), names); std::set<std::string> skip{"config/outdir", "config/restart", "run_config/outdir", "run_config/restart"};
    for (auto& f : names) { auto x = read_h5(d / "b/" + f), y = read_h5(d / sub + "/" + f); auto leave = skip; if (f == "time_series.h5" || f == "chkpt.0000.h5" || f == "diagnostics.0000.h5") for (auto& k : keys) for (auto g : {"config/", "run_config/"}) leave.insert(g + k); same_file(f, x, y, leave); }
    if (there) { auto last = files(d / "a", "chkpt"); if (last.size() > 1) { auto c = read_h5(d / "a/" + last.back()); expect_eq("the directory kept at the restart", text(c, group(p) + "/outdir"), std::string("a")); } }
});
LAW("mara lists its programs, and starts only those", 12, "always", [] (src& s)
{
    scratch d; s.nontrivial(); auto r = run_mara({}, d.path); if (r.code) fail("mara exits with code " + std::to_string(r.code)); for (auto n : {"amrsand", "binary", "boilerplate", "cloud", "partdom", "sedov"}) if (r.out.find(std::string("mara ") + n) == std::string::npos) fail(std::string("mara does not list ") + n);
    auto bad = s.pick(std::vector<std::string>{"binar", "Binary", "binary2", "sed", "nothing", "--help", "tfinal=0", "cloud "}); auto q = run_mara({bad, "tfinal=0"}, d.path); if (q.out.find("invalid sub-program") == std::string::npos) fail("mara does not say that " + bad + " is not a program"); if (! files(d.path).empty()) fail("files are written for a program that does not exist");
});
PBT_MAIN
