// C10: the immutable list behaves like a value-semantics vector; no operation changes an existing list.
#include "pbt.hpp"
#include <stdexcept>
#include <iterator>
#include "core_linked_list.hpp"
using namespace pbt;
template<typename T> using L = mara::linked_list_t<T>;
template<typename T> std::vector<T> items(const L<T>& l) { std::vector<T> v; for (const auto& x : l) v.push_back(x); return v; }

template<typename T, typename Gen> void history(src& s, Gen gen)
{
    std::vector<L<T>> ls(1); std::vector<std::vector<T>> ms(1);
    auto steps = s.size(1, 30); std::string log; std::size_t longest = 0;
    for (std::size_t k = 0; k < steps; ++k)
    {
        auto i = s.draw(ls.size()), j = s.draw(ls.size()); if (s.coin()) i = ls.size() - 1;
        L<T> l; std::vector<T> m; auto op = s.draw(9);
        switch (op)
        {
            case 0: case 1: { auto v = gen(s); l = ls[i].prepend(v); m = ms[i]; m.insert(m.begin(), v); break; }
            case 2: { auto v = gen(s); l = ls[i].append(v); m = ms[i]; m.push_back(v); break; }
            case 3: l = ls[i].concat(ls[j]); m = ms[i]; m.insert(m.end(), ms[j].begin(), ms[j].end()); break;
            case 4: l = ls[i].reverse(); m.assign(ms[i].rbegin(), ms[i].rend()); break;
            case 5:
                if (ms[i].empty()) { if (! throws_a<std::out_of_range>([&] { ls[i].tail(); })) fail("tail of an empty list"); if (! throws_a<std::out_of_range>([&] { ls[i].head(); })) fail("head of an empty list"); continue; }
                l = ls[i].tail(); m.assign(ms[i].begin() + 1, ms[i].end()); break;
            case 6: { auto n = s.size(0, 6); for (std::size_t q = 0; q < n; ++q) m.push_back(gen(s)); l = L<T>(m.begin(), m.end()); break; }
            case 7: { auto a = gen(s), b = gen(s), c = gen(s); l = L<T>{a, b, c}; m = {a, b, c}; break; }
            case 8: { ls[i] = ls[j]; ms[i] = ms[j]; l = ls[i]; m = ms[i]; break; }      // rebinding a variable, and letting the old list go
        }
        log += show(op) + ":" + show(i) + "," + show(j) + " ";
        if (m.size() > 400) discard();
        longest = std::max(longest, m.size());
        ls.push_back(l); ms.push_back(m);
        std::memcpy(s.sh->described, log.c_str(), log.size() + 1); s.described = log;
        expect_eq("items", items(l), m); expect_eq("size", l.size(), m.size()); expect_eq("empty", l.empty(), m.empty());
        if (! m.empty()) expect_eq("head", l.head(), m.front());
        { std::size_t k = 0; auto it = l.begin(), e = l.end(); auto from = it; while (! (it == e)) { if (k >= m.size()) fail("the iterator passes the end"); expect_eq("item under the iterator", *it, m[k]); auto here = it; if (! (here == it) || here != it) fail("an iterator and its copy differ"); ++it; ++k; if (here == it) fail("an iterator equals its successor"); } expect_eq("items walked", k, m.size()); if (! (from == l.begin())) fail("begin() has moved"); }
        auto q = s.draw(ls.size());
        expect_eq("==", l == ls[q], m == ms[q]); expect_eq("!=", l != ls[q], m != ms[q]);
        if (ls.size() > 8) { auto d = s.draw(ls.size()); ls.erase(ls.begin() + d); ms.erase(ms.begin() + d); }
        for (std::size_t z = 0; z < ls.size(); ++z) expect_eq("an older list", items(ls[z]), ms[z]);
    }
    s.nontrivial(longest >= 3); s.cls("long", longest > 20);
}
LAW("history_int", 12000, "some list reaches three items", [] (src& s) { history<int>(s, [] (src& s) { return int(s.signed_integer(-3, 3)); }); });
LAW("history_string", 12000, "some list reaches three items", [] (src& s) { history<std::string>(s, [] (src& s) { return std::string(s.draw(40), char('a' + s.draw(4))); }); });
// Documented care of the destructor: very long lists are built, walked, reversed and released without exhausting the stack.
LAW("long_lists", 40, "more than 50000 items", [] (src& s)
{
    auto n = s.size(0, 300000); s.note("n", n); L<int> l, kept; auto share = s.draw(n + 1);
    for (std::size_t k = 0; k < n; ++k) { l = l.prepend(int(k)); if (k == share) kept = l; }
    auto r = l.reverse(); l = L<int>(); std::size_t k = 0;
    for (auto x : r) { if (x != int(k)) fail("item " + show(k)); ++k; }
    expect_eq("size", k, n); r = L<int>(); if (share < n) expect_eq("shared tail", kept.size(), share + 1);
    s.nontrivial(n > 50000);
});
PBT_MAIN
