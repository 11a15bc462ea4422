// C14: schedules: tasks fall due once per interval and run exactly when due.
#include "pbt.hpp"
#include <stdexcept>
#include "app_schedule.hpp"
using namespace pbt;
struct state { mara::schedule_t schedule; double time = 0; std::vector<std::string> ran; state with(mara::schedule_t s) const { auto r = *this; r.schedule = s; return r; } };
using task_fn = std::function<state(const state&)>;
struct mtask { int count = 0; double last = 0; bool due = false; };

static void check(const mara::schedule_t& t, const std::map<std::string, mtask>& m, const std::vector<std::string>& names)
{
    expect_eq("number of tasks", t.size(), m.size());
    for (auto& n : names)
    {
        expect_eq("count of " + n, std::size_t(t.count(n)), std::size_t(m.count(n)));
        if (! m.count(n)) { if (! throws_a<std::out_of_range>([&] { t.is_due(n); }) || ! throws_a<std::out_of_range>([&] { t.num_times_performed(n); }) || ! throws_a<std::out_of_range>([&] { t.last_performed(n); }) || ! throws_a<std::out_of_range>([&] { t.at(n); })) fail("asking about unknown task " + n + " is not refused"); continue; }
        auto& x = m.at(n); expect_eq(n + " is due", t.is_due(n), x.due); expect_eq(n + " performed", t.num_times_performed(n), x.count); expect_eq(n + " last performed", t.last_performed(n), x.last); expect_eq("name", t.at(n).name, n);
    }
    std::vector<std::string> a, b; for (auto x : t) a.push_back(x.first); for (auto& x : m) b.push_back(x.first); expect_eq("tasks", a, b);
}

LAW("schedule_history", 40000, "a task became due and was run", [] (src& s)
{
    const std::vector<std::string> names{"write_checkpoint", "write_diagnostics", "record", "x"}; std::map<std::string, mtask> m; state st; std::string log; int ran = 0; auto steps = s.size(2, s.chance(1, 20) ? 300 : 30); std::vector<std::pair<mara::schedule_t, std::map<std::string, mtask>>> kept; 
    for (std::size_t k = 0; k < steps; ++k)
    {
        auto n = s.pick(names); auto old = st; bool known = m.count(n); auto say = [&] (std::string t) { log += t + "; "; s.described = log; };
        switch (s.draw(8))
        {
            case 0: say("create " + n); st.schedule.create(n); m[n] = {}; break;
            case 1: say("create due " + n); st.schedule.create_and_mark_as_due(n); m[n] = {0, 0, true}; break;
            case 2: { auto d = s.coin() ? 0.0 : s.real(0, 2); say("due " + n + " " + show(d)); if (! known) { if (! throws_a<std::out_of_range>([&] { st.schedule.mark_as_due(n, d); })) fail("marking an unknown task"); } else if (d == 0) { st.schedule.mark_as_due(n); m[n].due = true; } else { st.schedule.mark_as_due(n, d); m[n].due = true; m[n].last += d; } break; }
            case 3: { say("complete " + n); if (! known) { if (! throws_a<std::out_of_range>([&] { mara::complete_task_in(st, n); })) fail("completing an unknown task"); } else { auto next = mara::complete_task_in(st, n); check(st.schedule, m, names); st = next; m[n].due = false; m[n].count++; } break; }
            case 4: { mara::schedule_t::task_t t; t.name = n; t.num_times_performed = int(s.draw(50)); t.last_performed = s.symmetric(3); t.is_due = s.coin(); say("insert " + n); st.schedule.insert(t); m[n] = {t.num_times_performed, t.last_performed, t.is_due}; break; }
            case 5: { // time passes and tasks are marked
                std::vector<std::pair<std::string, double>> iv; bool unknown = false; for (auto& x : names) if (s.coin()) { iv.push_back({x, s.pick({0.25, 0.5, 1.0, 0.1})}); unknown = unknown || ! m.count(x); } auto t = s.coin() ? double(s.draw(40)) / 8 : s.real(0, 5); say("mark at " + show(t) + " " + show(iv));
                if (unknown) { if (! throws_a<std::out_of_range>([&] { mara::mark_tasks_in(st, t, iv); })) fail("marking an unknown task"); break; }
                auto next = mara::mark_tasks_in(st, t, iv); check(st.schedule, m, names); st.schedule = next; for (auto& x : iv) { auto& y = m[x.first]; if (t - y.last >= x.second) { y.due = true; y.last += x.second; } } break; }
            default: { // run what is due, in the order given
                std::vector<std::pair<std::string, task_fn>> tasks; std::vector<std::string> order; bool unknown = false; auto l = names; for (std::size_t i = 0; i < l.size(); ++i) std::swap(l[i], l[i + s.draw(l.size() - i)]); for (auto& x : l) if (s.chance(2, 3)) { order.push_back(x); unknown = unknown || ! m.count(x); }
                // a task may complete itself, and may mark or complete another one: what runs is what was due when the dispatch began
                struct act { std::string name; bool completes; int other; std::string which; }; std::vector<act> acts;
                for (auto& x : order) { act c{x, s.chance(3, 4), int(s.draw(6)), s.pick(names)}; if (c.other < 4 || ! m.count(c.which)) c.other = 0; acts.push_back(c); tasks.push_back({x, [c] (const state& q) { auto r = c.completes ? mara::complete_task_in(q, c.name) : q; if (c.other == 4) r.schedule.mark_as_due(c.which); if (c.other == 5) r = mara::complete_task_in(r, c.which); r.ran.push_back(c.name); return r; }}); } say("run " + show(order));
                if (unknown) { if (! throws_a<std::out_of_range>([&] { mara::run_scheduled_tasks<state>(st, tasks); })) fail("running an unknown task"); break; }
                auto before = st; auto next = mara::run_scheduled_tasks<state>(st, tasks); expect_eq("the old state is untouched", st.ran, before.ran); check(st.schedule, m, names); std::vector<std::string> want; auto began = m;
                for (auto& c : acts) if (began[c.name].due) { want.push_back(c.name); auto complete = [&] (std::string n) { m[n].due = false; m[n].count++; }; if (c.completes) complete(c.name); if (c.other == 4) m[c.which].due = true; if (c.other == 5) complete(c.which); ran++; }
                std::vector<std::string> got(next.ran.begin() + before.ran.size(), next.ran.end()); expect_eq("tasks run", got, want); st = next; }
        }
        if (s.chance(1, 5)) kept.push_back({st.schedule, m});
        check(st.schedule, m, names);
    }
    for (auto& x : kept) check(x.first, x.second, names); s.nontrivial(ran > 0);
});

// the main-loop idiom: mark, run, advance
LAW("cadence", 20000, "a task runs at least three times and the steps are uneven", [] (src& s)
{
    struct spec { std::string name; double interval; }; std::vector<spec> sp{{"a", s.pick({0.5, 1.0, 0.25, 0.3, 0.1})}, {"b", s.pick({0.5, 1.0, 0.75, 0.07})}, {"c", s.real(0.05, 2)}}; for (auto& x : sp) s.note(x.name, x.interval);
    double shortest = 1e9; for (auto& x : sp) shortest = std::min(shortest, x.interval); state st; bool initially = s.coin(); s.note("due at start", initially); for (auto& x : sp) { if (initially) st.schedule.create_and_mark_as_due(x.name); else st.schedule.create(x.name); }
    std::vector<std::pair<std::string, double>> iv; for (auto& x : sp) iv.push_back({x.name, x.interval}); std::vector<std::vector<double>> times(sp.size()); auto n = s.size(1, s.chance(1, 20) ? 2000 : 80); bool uneven = false; double last_dt = 0;
    std::vector<std::pair<std::string, task_fn>> tasks; for (std::size_t q = 0; q < sp.size(); ++q) tasks.push_back({sp[q].name, [&, q] (const state& x) { times[q].push_back(x.time); return mara::complete_task_in(x, sp[q].name); }});
    for (std::size_t k = 0; k <= n; ++k)
    {
        if (k) { auto dt = s.coin() ? shortest / 4 : s.real(0.01, 1) * shortest; uneven = uneven || (k > 1 && dt != last_dt); last_dt = dt; st.time += dt; st = st.with(mara::mark_tasks_in(st, st.time, iv)); }
        st = mara::run_scheduled_tasks<state>(st, tasks);
        for (std::size_t q = 0; q < sp.size(); ++q)
        {
            // one run per interval elapsed (steps are shorter than the intervals), up to rounding of the sum of intervals
            double e = 1e-9; long lo = long(std::floor(st.time / sp[q].interval - e)) + initially, hi = long(std::floor(st.time / sp[q].interval + e)) + initially, got = long(times[q].size());
            if (got < lo || got > hi) fail("after time " + show(st.time) + " task with interval " + show(sp[q].interval) + " ran " + show(got) + " times"); expect_eq("count", st.schedule.num_times_performed(sp[q].name), int(got)); if (st.schedule.is_due(sp[q].name)) fail("still due after running");
        }
    }
    std::size_t most = 0; for (auto& t : times) most = std::max(most, t.size()); s.nontrivial(most >= 3 && uneven);
});
PBT_MAIN
