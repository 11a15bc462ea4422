// C03: work done on several threads gives what the same work gives on one, each piece done exactly once,
// whatever the number of workers, the task durations and the order of completion. Run plain and under ThreadSanitizer.
#include "pbt.hpp"
#include <thread>
#include <future>
#include <condition_variable>
#include <memory>
#include "core_thread_pool.hpp"
#include "core_tree.hpp"
#include "core_ndarray.hpp"
#include "app_parallel.hpp"
using namespace pbt;
#ifndef SCALE
#define SCALE 1
#endif
template<typename V, std::size_t R> using tree_t = mara::arithmetic_binary_tree_t<V, R>;

static void spend(long d)       // 0: nothing, then yielding, spinning, sleeping
{
    if (d == 0) return;
    if (d < 4) { for (long k = 0; k < d; ++k) std::this_thread::yield(); return; }
    if (d < 8) { volatile double x = 1; for (long k = 0; k < d * 400; ++k) x = x * 1.0000001; return; }
    std::this_thread::sleep_for(std::chrono::microseconds(d * 10));
}
// The exception object's reference count lives in the uninstrumented C++ runtime: ThreadSanitizer cannot see it and reports a
// race between reading and releasing any exception passed through a future. Throwing tasks are left to the plain build.
#ifdef __SANITIZE_THREAD__
static const bool can_throw = false;
#else
static const bool can_throw = true;
#endif
struct cell { long id; long delay; };
static tree_t<cell, 2> gen_tree(src& s, std::size_t max_splits)
{
    auto t = mara::tree_of<2>(cell{0, 0}); auto n = s.size(0, max_splits);
    for (std::size_t k = 0; k < n; ++k)
    {
        std::vector<mara::tree_index_t<2>> ix; t.indexes().sink([&] (auto&& i) { ix.push_back(i); });
        auto i = ix[s.draw(ix.size())];
        t = t.insert(i.child_indexes()[0], cell{0, 0});
    }
    long id = 0; bool busy = s.coin();
    return t.map([&] (cell) { return cell{id++, busy ? long(s.draw(14)) : 0}; });
}
template<typename F> auto got_in_time(F& fut) { if (fut.wait_for(std::chrono::seconds(30)) != std::future_status::ready) fail("a task's result was never delivered"); return fut.get(); }
template<typename T> std::vector<long> flat(const T& t) { std::vector<long> v; t.sink([&] (auto&& x) { v.push_back(x); }); return v; }

LAW_OPT("pool_map_tree", 4000 / SCALE, "several leaves on at least two workers", 60, true, [] (src& s)
{
    auto t = gen_tree(s, 16); int workers = int(s.integer(1, 16)); auto n = t.size(); s.note("leaves", n); s.note("workers", workers);
    mara::thread_pool_t pool(workers); auto rounds = s.size(1, 3);
    for (std::size_t r = 0; r < rounds; ++r)
    {
        auto runs = std::make_shared<std::vector<std::atomic<int>>>(n);
        auto fn = [runs, r] (cell c) { spend(c.delay); (*runs)[c.id]++; return c.id * 10 + long(r); };
        auto want = flat(t.map([r] (cell c) { return c.id * 10 + long(r); }));
        expect_eq("map on the pool", flat(t.map(fn, pool)), want);
        for (auto& k : *runs) if (k != 1) fail("a leaf was visited " + show(k.load()) + " times");
        auto u = t.pair(t.map([] (cell c) { return c.id * c.id; }));
        expect_eq("apply on the pool", flat(u.apply([] (cell c, long q) { spend(c.delay); return c.id - q; }, pool)), flat(u.apply([] (cell c, long q) { return c.id - q; })));
        if (s.chance(1, 3)) pool.restart(workers = int(s.integer(1, 12)));
    }
    s.nontrivial(n >= 4 && workers >= 2); s.cls("more workers than leaves", std::size_t(workers) > n);
});

LAW_OPT("async_map_tree", 1500 / SCALE, "several leaves, evaluated on separate threads", 60, true, [] (src& s)
{
    auto t = gen_tree(s, 6); auto n = t.size(); bool deferred = s.chance(1, 4); auto mode = deferred ? std::launch::deferred : std::launch::async; s.note("leaves", n);
    auto runs = std::make_shared<std::vector<std::atomic<int>>>(n);
    expect_eq("async map", flat(t.map([runs] (cell c) { spend(c.delay); (*runs)[c.id]++; return c.id + 5; }, mode)), flat(t.map([] (cell c) { return c.id + 5; })));
    for (auto& k : *runs) if (k != 1) fail("a leaf was visited " + show(k.load()) + " times");
    auto u = t.pair(t.map([] (cell c) { return c.id * 3; }));
    expect_eq("async apply", flat(u.apply([] (cell c, long q) { return c.id - q; }, mode)), flat(u.apply([] (cell c, long q) { return c.id - q; })));
    s.nontrivial(n >= 4 && ! deferred);
});

// Histories of submissions (also from several threads at once), restarts and shutdowns.
LAW_OPT("pool_history", 8000 / SCALE, "tasks are still pending when the pool is restarted or destroyed, or several threads submit", 60, true, [] (src& s)
{
    struct entry { std::future<long> f; long id; bool throws; };
    std::mutex m; std::vector<entry> out; auto runs = std::make_shared<std::vector<std::atomic<int>>>(600); std::atomic<long> next{0};
    std::string log; bool interesting = false; auto steps = s.size(1, 6); int workers = int(s.integer(1, 8)); log = "workers " + show(workers) + "; ";
    auto pool = std::make_unique<mara::thread_pool_t>(workers);
    auto collect = [&] { for (auto& e : out) {
        if (e.throws) { bool ok = false; try { got_in_time(e.f); } catch (const std::range_error& x) { ok = e.id % 3 && std::string(x.what()) == "task " + std::to_string(e.id); } catch (long id) { ok = e.id % 3 == 0 && id == e.id; } if (! ok) fail("task " + show(e.id) + "'s exception was not delivered"); }
        else expect_eq("result of a task", got_in_time(e.f), e.id * 7 + 1);
    } out.clear(); };
    for (std::size_t k = 0; k < steps; ++k)
        switch (s.draw(4))
        {
            case 0: case 1:
            {
                auto producers = s.size(1, 3), n = s.size(1, 12); std::vector<std::vector<long>> plan(producers); bool may_throw = can_throw && s.chance(1, 4);
                for (auto& p : plan) for (std::size_t j = 0; j < n; ++j) p.push_back(long(s.draw(14)) + (may_throw && s.coin() ? 100 : 0));
                auto submit = [&] (const std::vector<long>& p) { for (auto d : p) {
                    auto id = next++; bool th = d >= 100;
                    auto f = pool->enqueue([runs, id, th] (long delay) -> long { spend(delay); (*runs)[id]++; if (th && id % 3 == 0) throw long(id); if (th) throw std::range_error("task " + std::to_string(id)); return id * 7 + 1; }, d % 100);
                    std::lock_guard<std::mutex> l(m); out.push_back({std::move(f), id, th}); } };
                if (producers == 1) submit(plan[0]);
                else { std::vector<std::thread> ts; for (auto& p : plan) ts.emplace_back([&] { submit(p); }); for (auto& t : ts) t.join(); interesting = true; }
                log += show(producers) + "x" + show(n) + (may_throw ? " tasks, some throwing; " : " tasks; "); s.cls("throwing tasks", may_throw); break;
            }
            case 2: if (! out.empty()) { interesting = true; s.cls("restart with tasks outstanding"); } workers = int(s.integer(1, 8)); pool->restart(workers); log += "restart(" + show(workers) + "); "; break;
            case 3: collect(); log += "collect; "; break;
        }
    if (s.coin()) { if (! out.empty()) { interesting = true; s.cls("destroyed with tasks outstanding"); } pool.reset(); log += "destroy; "; }
    s.note("history", log);
    collect(); pool.reset();
    for (long i = 0; i < next; ++i) if ((*runs)[i] != 1) fail("task " + show(i) + " ran " + show((*runs)[i].load()) + " times");
    s.nontrivial(interesting);
});

// Workers wait for tasks independently of one another: as many tasks as there are workers can depend on each other's progress.
LAW_OPT("pool_concurrency", 1500 / SCALE, "at least three tasks that wait for one another", 60, true, [] (src& s)
{
    int workers = int(s.integer(1, 8)); mara::thread_pool_t pool(workers); s.note("workers", workers); auto rounds = s.size(1, 6); bool interesting = false;
    for (std::size_t r = 0; r < rounds; ++r)
    {
        auto n = s.size(1, workers); auto begun = std::make_shared<std::atomic<std::size_t>>(0); std::vector<std::future<bool>> f; interesting |= n >= 3;
        for (std::size_t i = 0; i < n; ++i)
        {
            if (s.coin()) spend(long(s.draw(14)));
            f.push_back(pool.enqueue([begun, n] { (*begun)++; auto end = std::chrono::steady_clock::now() + std::chrono::seconds(10); while (*begun < n) { if (std::chrono::steady_clock::now() > end) return false; std::this_thread::yield(); } return true; }));
        }
        bool met = true; for (auto& x : f) met &= got_in_time(x); if (! met) fail(show(n) + " tasks that wait for one another did not all start on " + show(workers) + " workers");
        if (s.chance(1, 4)) pool.restart(workers = int(s.integer(1, 8)));
    }
    s.nontrivial(interesting);
});

// A leaf whose function throws makes the parallel map throw what the serial one does, and the pool is as good as before.
LAW_OPT("throwing_leaf", 2000 / SCALE, "several leaves on at least two workers", 60, true, [] (src& s)
{
    if (! can_throw) discard();
    auto t = gen_tree(s, 8); int workers = int(s.integer(1, 8)); auto n = long(t.size()); mara::thread_pool_t pool(workers); s.note("leaves", n); s.note("workers", workers); long at = long(s.draw(n)); bool odd = s.coin(), launch = s.chance(1, 3);
    auto fn = [at, odd] (cell c) -> long { spend(c.delay); if (c.id == at && odd) throw at; if (c.id == at) throw std::range_error("leaf " + std::to_string(at)); return c.id + 3; };
    bool ok = false; try { launch ? t.map(fn, std::launch::async) : t.map(fn, pool); } catch (const std::range_error& x) { ok = ! odd && std::string(x.what()) == "leaf " + std::to_string(at); } catch (long x) { ok = odd && x == at; }
    if (! ok) fail("the exception of leaf " + show(at) + " did not reach the caller");
    auto good = [] (cell c) { return c.id + 3; }; expect_eq("map after an exception", flat(t.map(good, pool)), flat(t.map(good)));
    s.nontrivial(n >= 4 && workers >= 2);
});

// A parallel array evaluation fills every element exactly once, also with fewer rows than threads or no elements.
template<std::size_t N, std::size_t R> void evaluate(src& s)
{
    nd::shape_t<R> shape; for (std::size_t a = 0; a < R; ++a) shape[a] = a == 0 ? s.size(0, 20) : s.size(0, R == 1 ? 20 : 6);
    auto vol = shape.volume(); auto runs = std::make_shared<std::vector<std::atomic<int>>>(vol + 1); auto strides = nd::make_strides_row_major(shape); long k = s.signed_integer(-9, 9);
    auto A = nd::make_array([runs, strides, k] (auto i) { auto o = strides.compute_offset(i); runs->at(o)++; return long(o) * 3 + k; }, shape);
    auto B = A | mara::evaluate_on<N>();
    if (B.shape() != shape) fail("shape changed");
    for (std::size_t o = 0; o < vol; ++o) { if ((*runs)[o] != 1) fail("element " + show(o) + " of " + nd::to_string(shape) + " was computed " + show((*runs)[o].load()) + " times on " + show(N) + " threads"); if (B.data()[o] != long(o) * 3 + k) fail("element value"); }
    s.note("shape", nd::to_string(shape)); s.note("threads", N); s.cls("fewer rows than threads", shape[0] < N); s.cls("empty", vol == 0); s.nontrivial(vol > N);
}
LAW_OPT("evaluate_on", 12000 / SCALE, "more elements than threads", 60, true, [] (src& s)
{
    switch (s.draw(8)) { case 0: evaluate<1, 1>(s); break; case 1: evaluate<3, 1>(s); break; case 2: evaluate<8, 1>(s); break; case 3: evaluate<2, 2>(s); break; case 4: evaluate<5, 2>(s); break; case 5: evaluate<12, 2>(s); break; case 6: evaluate<4, 3>(s); break; default: evaluate<7, 3>(s); break; }
});
PBT_MAIN
