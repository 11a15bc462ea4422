// Generators and bit-exact text of the values that go through HDF5.
#pragma once
#include "nd_model.hpp"
#include "core_sequence.hpp"
#include "core_dimensional.hpp"
#include "app_serialize.hpp"
#include "core_hdf5.hpp"
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;
// ---- generators
static double gd(src& s)
{
    switch (s.draw(8))
    {
        case 0: return double(s.signed_integer(-5, 5));
        case 1: { std::uint64_t b = s.draw(~0ull); double x; std::memcpy(&x, &b, 8); return x; }     // any bit pattern, NaNs included
        case 2: return s.pick({0.0, -0.0, 1e308, -1e308, 4.9e-324, 1.0 / 3, 0.1});
        case 3: return s.coin() ? INFINITY : -INFINITY;
        default: return s.symmetric(1e6);
    }
}
static int gi(src& s) { switch (s.draw(4)) { case 0: return s.pick({0, 1, -1, 2147483647, -2147483647 - 1}); default: return int(s.signed_integer(-100000, 100000)); } }
// text: any bytes (a single null character is how empty text is stored, so that one text is left out)
static std::string gs(src& s) { auto n = s.draw(4) == 0 ? s.draw(3) : s.draw(60); bool raw = s.chance(1, 4); std::string r; for (std::size_t i = 0; i < n; ++i) r += raw ? char(s.draw(3) ? s.draw(256) : 0) : char(32 + s.draw(95)); return r == std::string(1, 0) ? std::string("?") : r; }
// ---- comparison, bit for bit
static std::string bits(double x) { std::uint64_t b; std::memcpy(&b, &x, 8); char t[24]; std::snprintf(t, 24, "d%016lx", (unsigned long) b); return t; }
static std::string bits(int x) { return "i" + show(x); }
static std::string bits(unsigned long x) { return "u" + show(x); }
static std::string bits(const std::string& x) { return "s" + show(x.size()) + ":" + x; }
template<int C, int G, int S, typename T> std::string bits(const mara::dimensional_value_t<C, G, S, T>& x) { return bits(x.value); }
template<typename T, std::size_t N> std::string bits(const mara::arithmetic_sequence_t<T, N>& x) { std::string r = "("; for (auto& e : x) r += bits(e) + " "; return r + ")"; }
static std::string bits(const mara::rational_number_t& x) { return "r" + std::string(mara::to_string(x)); }
template<typename T> std::string bits(const std::vector<T>& x) { std::string r = "["; for (auto& e : x) r += bits(e) + " "; return r + "]"; }
template<typename T> std::string bits(const mara::linked_list_t<T>& x) { std::string r = "["; for (auto& e : x) r += bits(e) + " "; return r + "]"; }
template<typename T, std::size_t R> std::string bits(const nd::shared_array<T, R>& x) { std::string r = nd::to_string(x.shape()); for (auto i : x.indexes()) r += bits(x(i)) + " "; return r; }
template<typename T, std::size_t R> std::string bits(const nd::unique_array<T, R>& x) { std::string r = nd::to_string(x.shape()); for (auto i : x.indexes()) r += bits(x(i)) + " "; return r; }
static std::string bits(const mara::config_parameter_t& x) { return show(x.index()) + std::visit([] (auto& v) { return bits(v); }, x); }

static std::string scratch(const std::string& n) { auto d = std::getenv("PBT_SCRATCH"); if (! d) fail("harness: no scratch directory"); return std::string(d) + "/" + n + "." + show(getpid()) + ".h5"; }
static void no_handles(const std::string& when) { auto n = H5Fget_obj_count(hid_t(H5F_OBJ_ALL), H5F_OBJ_ALL); if (n != 0) fail(show(n) + " HDF5 handles are still open " + when); }
