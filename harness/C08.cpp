// C08: fixed-size sequences, tuples, matrices, dimensional values and directions against plain loops.
#include "pbt.hpp"
#include <tuple>
#include <stdexcept>
#include "core_sequence.hpp"
#include "core_tuple.hpp"
#include "core_matrix.hpp"
#include "core_dimensional.hpp"
#include "core_geometric.hpp"
using namespace pbt;
using V = long;
template<typename T, std::size_t N> using S = mara::arithmetic_sequence_t<T, N>;
static V val(src& s) { return s.signed_integer(-9, 9); }
template<typename T, std::size_t N> std::vector<T> vec(const S<T, N>& a) { std::vector<T> r; for (std::size_t i = 0; i < N; ++i) r.push_back(a[i]); return r; }
template<std::size_t N> S<V, N> gen(src& s) { S<V, N> a; for (std::size_t i = 0; i < N; ++i) a[i] = val(s); return a; }
template<typename F> std::vector<V> pw(const std::vector<V>& a, const std::vector<V>& b, F f) { std::vector<V> r; for (std::size_t i = 0; i < a.size(); ++i) r.push_back(V(f(a[i], b[i]))); return r; }
template<typename T, std::size_t N> std::vector<V> lv(const S<T, N>& a) { std::vector<V> r; for (auto x : a) r.push_back(V(x)); return r; }

template<std::size_t N> struct dseq : mara::derivable_sequence_t<V, N, dseq<N>> {};

template<std::size_t N> void sequences(src& s)
{
    auto a = gen<N>(s), b = gen<N>(s); auto A = vec(a), B = vec(b); V c = val(s); std::vector<V> C(N, c); s.note("a", A); s.note("b", B); s.note("c", c);
    #define OP(name, o) expect_eq("a " name " b", lv(a o b), pw(A, B, [] (V x, V y) { return x o y; })); expect_eq("a " name " c", lv(a o c), pw(A, C, [] (V x, V y) { return x o y; }));
    OP("+", +) OP("-", -) OP("*", *) OP("==", ==) OP("!=", !=) OP("<", <) OP(">", >) OP("<=", <=) OP(">=", >=) OP("&&", &&) OP("||", ||)
    auto d = b; for (auto& x : d) if (x == 0) x = 7; expect_eq("a / b", lv(a / d), pw(A, vec(d), [] (V x, V y) { return x / y; })); if (c) expect_eq("a / c", lv(a / c), pw(A, C, [] (V x, V y) { return x / y; }));
    expect_eq("-a", lv(-a), pw(A, A, [] (V x, V) { return -x; })); expect_eq("+a", lv(+a), A);
    V sum = 0; bool all = true, any = false; for (auto x : A) { sum += x; all = all && x; any = any || x; }
    expect_eq("sum", a.sum(), sum); expect_eq("all", a.all(), all); expect_eq("any", a.any(), any); expect_eq("min", a.min(), *std::min_element(A.begin(), A.end())); expect_eq("max", a.max(), *std::max_element(A.begin(), A.end()));
    expect_eq("map", lv(a.map([] (V x) { return double(x) * 0.5; }) * 2.0), A); auto r = A; std::reverse(r.begin(), r.end()); expect_eq("reverse", vec(a.reverse()), r);
    auto k = s.draw(N + 2); auto w = A; if (k < N) w[k] = c; expect_eq("set", vec(a.set(k, c)), w); w = A; if (k < N) w[k] = 3 * w[k] + 1; expect_eq("update", vec(a.update(k, [] (V x) { return 3 * x + 1; })), w);
    if (k >= N) { if (! throws_a<std::out_of_range>([&] { a.at(k); })) fail("at() outside is accepted"); } else expect_eq("at", a.at(k), A[k]);
    const auto ca = a; if (k >= N) { if (! throws_a<std::out_of_range>([&] { ca.at(k); })) fail("at() outside a constant sequence is accepted"); } else { expect_eq("at of a constant", ca.at(k), A[k]); expect_eq("element of a constant", ca[k], A[k]); }
    expect_eq("size", a.size(), N); expect_eq("elements of a constant", std::vector<V>(ca.begin(), ca.end()), A); expect_eq("data of a constant", std::vector<V>(ca.data(), ca.data() + N), A);
    expect_eq("head", a.head(), A.front()); expect_eq("last", a.last(), A.back());
    if constexpr (N > 1) { expect_eq("init", vec(a.init()), std::vector<V>(A.begin(), A.end() - 1)); expect_eq("tail", vec(a.tail()), std::vector<V>(A.begin() + 1, A.end())); }
    auto cat = A; cat.insert(cat.end(), B.begin(), B.end()); expect_eq("concat", vec(a.concat(b)), cat); auto o = gen<3>(s); cat = A; for (auto x : o) cat.push_back(x); expect_eq("concat of another length", vec(a.concat(o)), cat);
    w = A; w.push_back(c); expect_eq("append", vec(a.append(c)), w); w = A; w.insert(w.begin(), c); expect_eq("prepend", vec(a.prepend(c)), w);
    auto fs = a.map([] (V x) { return std::function<V(V)>([x] (V y) { return 10 * x + y; }); }); expect_eq("apply_to", lv(fs.apply_to(b)), pw(A, B, [] (V x, V y) { return 10 * x + y; }));
    S<S<V, 3>, N> m; for (std::size_t i = 0; i < N; ++i) m[i] = gen<3>(s); auto t = m.transpose(); for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < 3; ++j) expect_eq("transpose", t[j][i], m[i][j]);
    auto io = mara::iota<N>(); for (std::size_t i = 0; i < N; ++i) expect_eq("iota", io[i], i);
    auto lifted = mara::lift([] (V x, V y) { return x * 100 + y; }); expect_eq("lift", vec(lifted(a, b)), pw(A, B, [] (V x, V y) { return x * 100 + y; }));
    std::string text = "( "; for (auto x : A) text += std::to_string(x) + " "; expect_eq("to_string", mara::to_string(a), text + ")");
    expect_eq("the operands are unchanged", vec(a), A); expect_eq("the operands are unchanged", vec(b), B);
    // sequences of a derived type compare as a whole
    dseq<N> p, q; p.__impl = a; q.__impl = s.chance(1, 3) ? a : b; auto Q = vec(q.__impl); expect_eq("derived ==", p == q, A == Q); const auto cp = p; expect_eq("derived elements", std::vector<V>(cp.begin(), cp.end()), A); expect_eq("derived elements", std::vector<V>(p.begin(), p.end()), A); expect_eq("derived data", std::vector<V>(cp.data(), cp.data() + cp.size()), A); if (k < N) { expect_eq("derived []", cp[k], A[k]); expect_eq("derived at", cp.at(k), A[k]); expect_eq("derived at", p.at(k), A[k]); auto p2 = p; p2[k] = c; auto w2 = A; w2[k] = c; expect_eq("derived []", vec(p2.__impl), w2); } else if (! throws_a<std::out_of_range>([&] { cp.at(k); }) || ! throws_a<std::out_of_range>([&] { p.at(k); })) fail("at() outside a derived sequence is accepted"); expect_eq("derived !=", p != q, A != Q);
    expect_eq("derived +", vec((p + q).__impl), pw(A, Q, std::plus<>())); expect_eq("derived -", vec((p - q).__impl), pw(A, Q, std::minus<>())); expect_eq("derived *", vec((p * c).__impl), pw(A, C, std::multiplies<>())); if (c) expect_eq("derived /", vec((p / c).__impl), pw(A, C, std::divides<>())); expect_eq("derived unary -", vec((-p).__impl), pw(A, A, [] (V x, V) { return -x; }));
    s.nontrivial(A != B && (N == 1 || A != r)); 
}
LAW("sequence_1", 200000, "the operands differ", sequences<1>);
LAW("sequence_2", 300000, "the operands differ, a is no palindrome", sequences<2>);
LAW("sequence_3", 300000, "the operands differ, a is no palindrome", sequences<3>);
LAW("sequence_5", 300000, "the operands differ, a is no palindrome", sequences<5>);

struct dtup : mara::derivable_tuple_t<dtup, V, double, V> {};
LAW("tuples", 400000, "the operands differ", [] (src& s)
{
    V a0 = val(s), a2 = val(s), b0 = val(s), b2 = val(s), c = val(s); double a1 = double(val(s)) / 4, b1 = double(val(s)) / 4; if (s.chance(1, 4)) { b0 = a0; if (s.coin()) b1 = a1; if (s.coin()) b2 = a2; }
    s.note("a", show(a0) + "," + show(a1) + "," + show(a2)); s.note("b", show(b0) + "," + show(b1) + "," + show(b2)); s.note("c", c);
    auto a = mara::make_arithmetic_tuple(a0, a1, a2), b = mara::make_arithmetic_tuple(b0, b1, b2);
    auto is = [&] (const char* w, auto t, auto x, auto y, auto z) { expect_eq(w, mara::get<0>(t), x); expect_eq(w, mara::get<1>(t), y); expect_eq(w, mara::get<2>(t), z); };
    #define TOP(name, o) is("a " name " b", a o b, a0 o b0, a1 o b1, a2 o b2); is("a " name " c", a o c, a0 o c, a1 o c, a2 o c);
    TOP("+", +) TOP("-", -) TOP("*", *) TOP("==", ==) TOP("!=", !=) TOP("<", <) TOP(">", >) TOP("<=", <=) TOP(">=", >=) TOP("&&", &&) TOP("||", ||)
    if (b0 && b2 && b1 != 0) is("a / b", a / b, a0 / b0, a1 / b1, a2 / b2); if (c) is("a / c", a / c, a0 / c, a1 / c, a2 / c);
    is("-a", -a, -a0, -a1, -a2); is("+a", +a, a0, a1, a2); is("map", a.map([] (auto x) { return x * 3; }), a0 * 3, a1 * 3, a2 * 3); is("set", a.set<1>(7.5), a0, 7.5, a2); is("set", a.set<2>(c), a0, a1, c); is("unchanged", a, a0, a1, a2);
    auto q = a.to_sequence(); expect_eq("to_sequence", std::vector<double>(q.begin(), q.end()), std::vector<double>{double(a0), a1, double(a2)});
    dtup p, r; p.__impl = a; r.__impl = b; bool eq = a0 == b0 && a1 == b1 && a2 == b2; expect_eq("derived ==", p == r, eq); expect_eq("derived !=", p != r, ! eq); is("derived +", (p + r).__impl, a0 + b0, a1 + b1, a2 + b2); is("derived -", (p - r).__impl, a0 - b0, a1 - b1, a2 - b2); is("derived *", (p * c).__impl, a0 * c, a1 * c, a2 * c); is("derived unary -", (-p).__impl, -a0, -a1, -a2);
    s.nontrivial(! eq);
});

template<std::size_t N, std::size_t M> mara::matrix_t<V, N, M> genm(src& s) { mara::matrix_t<V, N, M> a; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < M; ++j) a(i, j) = val(s); return a; }
template<std::size_t N, std::size_t M, typename T> std::string txt(const mara::matrix_t<T, N, M>& a) { std::string r; for (std::size_t i = 0; i < N; ++i) { for (std::size_t j = 0; j < M; ++j) r += show(a(i, j)) + " "; r += "; "; } return r; }
template<std::size_t N, std::size_t K, std::size_t M> void matrices(src& s)
{
    auto a = genm<N, K>(s), a2 = genm<N, K>(s); auto b = genm<K, M>(s); auto d = genm<M, 2>(s); V c = val(s); s.note("a", txt(a)); s.note("b", txt(b)); s.note("c", c); if (s.chance(1, 3)) { a2 = a; if (s.coin()) a2(s.draw(N), s.draw(K)) += 1; }
    auto p = a * b; bool same = true; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < M; ++j) { V e = 0; for (std::size_t k = 0; k < K; ++k) e += a(i, k) * b(k, j); expect_eq("product", p(i, j), e); }
    auto sum = a + a2; auto dif = a - a2; auto sc = a * c; for (std::size_t i = 0; i < N; ++i) for (std::size_t k = 0; k < K; ++k) { expect_eq("sum", sum(i, k), a(i, k) + a2(i, k)); expect_eq("difference", dif(i, k), a(i, k) - a2(i, k)); expect_eq("scaled", sc(i, k), a(i, k) * c); if (c) expect_eq("divided", (a / c)(i, k), a(i, k) / c); same = same && a(i, k) == a2(i, k); }
    expect_eq("==", a == a2, same); expect_eq("!=", a != a2, ! same);
    if (((a * b) * d) != (a * (b * d))) fail("the product is not associative"); if (((a + a2) * b) != (a * b + a2 * b)) fail("the product does not distribute");
    if ((mara::identity_matrix<V, N>() * a) != a || (a * mara::identity_matrix<V, K>()) != a) fail("identity"); if ((a * mara::zero_matrix<V, K, 2>()) != (mara::zero_matrix<V, N, 2>())) fail("zero");
    V x = val(s), y = val(s), z = val(s); auto dg = mara::diagonal_matrix<V>(x, y, z); V ds[] = {x, y, z}; for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) expect_eq("diagonal", dg(i, j), i == j ? ds[i] : V(0));
    std::array<V, K> v; for (auto& e : v) e = val(s); auto cv = mara::column_vector(v); auto rv = mara::row_vector(v); auto av = a * cv; for (std::size_t i = 0; i < N; ++i) { V e = 0; for (std::size_t k = 0; k < K; ++k) e += a(i, k) * v[k]; expect_eq("matrix times column", av(i, 0), e); }
    auto rb = rv * b; for (std::size_t j = 0; j < M; ++j) { V e = 0; for (std::size_t k = 0; k < K; ++k) e += v[k] * b(k, j); expect_eq("row times matrix", rb(0, j), e); } V nn = 0; for (auto e : v) nn += e * e; expect_eq("row times column", (rv * cv)(0, 0), nn);
    s.nontrivial(N * K * M > 1);
}
LAW("matrix_2x3x4", 200000, "always", matrices<2, 3, 4>);
LAW("matrix_3x3x3", 200000, "always", matrices<3, 3, 3>);
LAW("matrix_1x4x2", 200000, "always", matrices<1, 4, 2>);
LAW("matrix_5x5x5", 100000, "always", matrices<5, 5, 5>);

LAW("dimensional", 400000, "both values non-zero", [] (src& s)
{
    double x = s.symmetric(1e3), y = s.symmetric(1e3), c = s.symmetric(10); s.note("x", x); s.note("y", y); s.note("c", c);
    auto l = mara::make_length(x), l2 = mara::make_length(y); auto t = mara::make_time(y); auto m = mara::make_mass(c);
    auto dims = [] (const char* w, auto q, int C, int G, int S) { if (q.dimensions() != std::make_tuple(C, G, S)) fail(std::string("dimensions of ") + w); };
    expect_eq("sum", (l + l2).value, x + y); expect_eq("difference", (l - l2).value, x - y); expect_eq("scaled", (l * c).value, x * c); expect_eq("negated", (-l).value, -x); dims("length", l, 1, 0, 0); dims("sum", l + l2, 1, 0, 0); dims("scaled", l * c, 1, 0, 0); dims("negated", -l, 1, 0, 0);
    auto a = l * l2; dims("area", a, 2, 0, 0); expect_eq("product", a.value, x * y); dims("m l / t t", m * l / t / t, 1, 1, -2); dims("force", mara::make_force(c), 1, 1, -2); if (y != 0) { auto f = m * l / t / t + mara::make_force(1.0); expect_close("force", f.value, c * x / y / y + 1.0, 1e-12, 1e-12); expect_eq("scaled down", (l / y).value, x / y); double ratio = l / l2; expect_eq("ratio", ratio, x / y); }
    dims("energy", mara::make_force(1.0) * l, 2, 1, -2); dims("rate", mara::make_scalar(1.0) / mara::make_time(2.0), 0, 0, -1); dims("velocity", mara::make_velocity(1.0), 1, 0, -1); dims("flux", mara::make_flux(1.0), -2, 1, -1); dims("angmom", mara::make_angmom(1.0), 2, 1, -1); dims("momentum", mara::make_momentum(1.0), 1, 1, -1); dims("volume", mara::make_volume(1.0), 3, 0, 0); dims("density", mara::make_mass_density(1.0), -3, 1, 0); dims("flow", mara::make_flow(1.0), 0, 1, -1); dims("flow density", mara::make_flow_density(1.0), -3, 1, -1); dims("torque", mara::make_torque(1.0), 2, 1, -2); dims("mass", m, 0, 1, 0); dims("time", t, 0, 0, 1); dims("make rate", mara::make_rate(1.0), 0, 0, -1); dims("make area", mara::make_area(1.0), 2, 0, 0); dims("make energy", mara::make_energy(1.0), 2, 1, -2);
    dims("square", l.pow<2>(), 2, 0, 0); expect_close("square", l.pow<2>().value, x * x, 1e-14); dims("cube", l.pow<3>(), 3, 0, 0); expect_close("cube", l.pow<3>().value, x * x * x, 1e-14); auto ar = mara::make_area(std::fabs(x)); dims("root", (ar.pow<1, 2>()), 1, 0, 0); expect_close("root", ar.pow<1, 2>().value, std::sqrt(std::fabs(x)), 1e-14); auto en = mara::make_dimensional<2, 4, -6>(std::fabs(y)); dims("3/2 power", (en.pow<3, 2>()), 3, 6, -9); expect_close("3/2 power", en.pow<3, 2>().value, std::pow(std::fabs(y), 1.5), 1e-13);
    expect_eq("==", l == l2, x == y); expect_eq("!=", l != l2, x != y); expect_eq("<", l < l2, x < y); expect_eq(">", l > l2, x > y); expect_eq("<=", l <= l2, x <= y); expect_eq(">=", l >= l2, x >= y); expect_eq("l == l", l == l, true); expect_eq("l <= l", l <= l, true); expect_eq("l < l", l < l, false); expect_eq("scalar", mara::make_scalar(x).scalar(), x);
    auto u = l; u += l2; expect_eq("+=", u.value, x + y); u = l; u -= l2; expect_eq("-=", u.value, x - y); expect_eq("default", mara::unit_length<double>().value, 0.0);
    s.nontrivial(x != 0 && y != 0);
});

LAW("directions", 800000, "not along an axis", [] (src& s)
{
    double sc = std::pow(10.0, double(s.signed_integer(-6, 6))), x = s.symmetric(1) * sc, y = s.symmetric(1) * sc, z = s.symmetric(1) * sc; if (std::sqrt(x * x + y * y + z * z) < 1e-9 * sc) discard(); s.note("x", x); s.note("y", y); s.note("z", z);
    mara::unit_vector_t n(x, y, z); double l = std::sqrt(x * x + y * y + z * z);
    expect_close("squared length", n.get_n1() * n.get_n1() + n.get_n2() * n.get_n2() + n.get_n3() * n.get_n3(), 1.0, 1e-12); expect_close("n1", n.get_n1(), x / l, 1e-12, 1e-14); expect_close("n2", n.get_n2(), y / l, 1e-12, 1e-14); expect_close("n3", n.get_n3(), z / l, 1e-12, 1e-14);
    expect_eq("[0]", n[0], n.get_n1()); expect_eq("[1]", n[1], n.get_n2()); expect_eq("[2]", n[2], n.get_n3()); auto k = s.draw(6);
    if (k > 2) { if (! throws_a<std::invalid_argument>([&] { n[k]; })) fail("component out of range"); if (! throws_a<std::invalid_argument>([&] { mara::unit_vector_t::on_axis(k); })) fail("axis out of range"); } else { auto e = mara::unit_vector_t::on_axis(k); for (std::size_t i = 0; i < 3; ++i) expect_eq("axis vector", e[i], i == k ? 1.0 : 0.0); expect_close("projection on an axis", e.project(x, y, z), k == 0 ? x : k == 1 ? y : z, 1e-14); }
    double a = s.symmetric(5), b = s.symmetric(5), c = s.symmetric(5); double pr = n.project(a, b, c); expect_close("projection", pr, (a * x + b * y + c * z) / l, 1e-11, 1e-12); auto v = n * a; for (std::size_t i = 0; i < 3; ++i) expect_close("scaled direction", v[i], a * n[i], 1e-14);
    auto sp = mara::make_spatial_coordinate(a, b, c); auto ae = mara::make_area_element(a, b, c); expect_eq("coordinate", std::vector<double>{sp[0].value, sp[1].value, sp[2].value}, std::vector<double>{a, b, c}); expect_eq("area element", std::vector<double>{ae[0].value, ae[1].value, ae[2].value}, std::vector<double>{a, b, c});
    s.nontrivial((x != 0) + (y != 0) + (z != 0) > 1);
});
PBT_MAIN
