// A naive model of an n-dimensional array: a shape and a row-major vector.
#pragma once
#include "pbt.hpp"
#include <array>
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
using pbt::src; using pbt::fail; using pbt::show; using pbt::expect_eq; using pbt::throws_a;
template<std::size_t R> using ix = std::array<std::size_t, R>;
template<std::size_t R> std::string str(const ix<R>& i) { std::string s = "("; for (std::size_t n = 0; n < R; ++n) s += (n ? "," : "") + std::to_string(i[n]); return s + ")"; }
template<std::size_t R> nd::index_t<R> to_index(const ix<R>& i) { nd::index_t<R> r; for (std::size_t n = 0; n < R; ++n) r[n] = i[n]; return r; }
template<std::size_t R> nd::shape_t<R> to_shape(const ix<R>& i) { nd::shape_t<R> r; for (std::size_t n = 0; n < R; ++n) r[n] = i[n]; return r; }
template<std::size_t R> std::size_t volume(const ix<R>& s) { std::size_t v = 1; for (auto n : s) v *= n; return v; }
// calls fn for every index of the box [0, shape), the last axis fastest
template<std::size_t R, typename F> void for_each(const ix<R>& shape, F fn)
{
    auto v = volume(shape);
    for (std::size_t k = 0; k < v; ++k) { ix<R> i; auto q = k; for (std::size_t n = R; n-- > 0;) { i[n] = q % shape[n]; q /= shape[n]; } fn(i); }
}
template<typename T, std::size_t R> struct model
{
    ix<R> shape{}; std::vector<T> v;
    std::size_t offset(const ix<R>& i) const { std::size_t o = 0; for (std::size_t n = 0; n < R; ++n) { if (i[n] >= shape[n]) fail("harness: model index " + str<R>(i) + " outside " + str<R>(shape)); o = o * shape[n] + i[n]; } return o; }
    const T& operator()(const ix<R>& i) const { return v[offset(i)]; }
    T& operator()(const ix<R>& i) { return v[offset(i)]; }
    template<typename F> static model make(const ix<R>& shape, F fn) { model m; m.shape = shape; for_each<R>(shape, [&] (auto i) { m.v.push_back(fn(i)); }); return m; }
};
// compares an array with the model through every way of reading it
template<typename A, typename T, std::size_t R> void expect_array(const std::string& what, const A& a, const model<T, R>& m)
{
    static_assert(A::array_rank == R);
    auto sh = a.shape(); for (std::size_t n = 0; n < R; ++n) { if (sh[n] != m.shape[n]) fail(what + ": shape on axis " + show(n) + " is " + show(sh[n]) + ", want " + show(m.shape[n])); expect_eq(what + ": shape(axis)", a.shape(n), m.shape[n]); }
    expect_eq(what + ": size", a.size(), m.v.size());
    for_each<R>(m.shape, [&] (auto i) { T x = a(to_index<R>(i)); if (! (x == m(i))) fail(what + ": at " + str<R>(i) + " got " + show(x) + ", want " + show(m(i))); });
    std::size_t k = 0; for (auto i : a.indexes()) { if (k >= m.v.size()) fail(what + ": too many indexes"); T x = a(i); if (! (x == m.v[k])) fail(what + ": in index order, element " + show(k) + " got " + show(x) + ", want " + show(m.v[k])); ++k; }
    expect_eq(what + ": number of indexes", k, m.v.size());
}
template<typename A, typename T, std::size_t R> void expect_iteration(const std::string& what, const A& a, const model<T, R>& m)
{
    std::size_t k = 0; for (auto&& x : a) { if (k >= m.v.size()) fail(what + ": iterates too far"); if (! (T(x) == m.v[k])) fail(what + ": iterating, element " + show(k) + " got " + show(x) + ", want " + show(m.v[k])); ++k; }
    expect_eq(what + ": number of elements iterated", k, m.v.size());
}
// a type-erased lazy array, so that generated programs can chain any number of lazy operations
template<typename T, std::size_t R> auto erase(std::function<T(nd::index_t<R>)> f, nd::shape_t<R> s)
{
    return nd::make_array(std::move(f), s);
}
template<typename T, std::size_t R> using lazy = decltype(erase<T, R>(std::function<T(nd::index_t<R>)>(), nd::shape_t<R>()));
template<typename T, typename A> auto erased(A a) { constexpr auto R = A::array_rank; auto s = a.shape(); return erase<T, R>([a] (nd::index_t<R> i) -> T { return T(a(i)); }, s); }
