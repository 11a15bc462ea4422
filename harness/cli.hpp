// Running the mara executable and reading/writing its HDF5 files with the plain C library (not the code under test).
#pragma once
#include <sys/prctl.h>
#include "pbt.hpp"
#include <hdf5.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <set>
#include <cmath>
#include <cstring>
namespace cli {
using namespace pbt;

// a directory of its own for each case, removed afterwards
struct scratch
{
    std::string path;
    scratch() { static int n = 0; auto root = std::getenv("PBT_SCRATCH"); if (! root) throw std::runtime_error("PBT_SCRATCH is not set"); path = std::string(root) + "/case" + std::to_string(getpid()) + "_" + std::to_string(n++); mkdir(path.c_str(), 0755); }
    ~scratch() { if (! std::getenv("CLI_KEEP")) remove(path); }
    static void remove(const std::string& p) { if (auto d = opendir(p.c_str())) { while (auto e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; auto q = p + "/" + n; struct stat st; if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) remove(q); else unlink(q.c_str()); } closedir(d); } rmdir(p.c_str()); }
    std::string operator/(const std::string& f) const { return path + "/" + f; }
};
inline std::vector<std::string> files(const std::string& p) { std::set<std::string> r; if (auto d = opendir(p.c_str())) { while (auto e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") r.insert(n); } closedir(d); } return {r.begin(), r.end()}; }
inline std::vector<std::string> files(const std::string& p, const std::string& prefix) { std::vector<std::string> r; for (auto& f : files(p)) if (f.compare(0, prefix.size(), prefix) == 0) r.push_back(f); return r; }
inline void copy_file(const std::string& a, const std::string& b) { std::ifstream i(a, std::ios::binary); std::ofstream o(b, std::ios::binary); o << i.rdbuf(); }
inline void copy_dir(const std::string& a, const std::string& b) { mkdir(b.c_str(), 0755); for (auto& f : files(a)) copy_file(a + "/" + f, b + "/" + f); }

struct result { int code = 0; bool timed_out = false; std::string out; };
inline result exec(const std::vector<std::string>& argv, const std::string& cwd, double limit=60)
{
    auto log = cwd + "/.out"; auto pid = fork();
    if (pid == 0)
    {
        setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); if (chdir(cwd.c_str())) _exit(126); int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 1); dup2(fd, 2); int in = open("/dev/null", O_RDONLY); dup2(in, 0);
        std::vector<char*> a; for (auto& x : argv) a.push_back(const_cast<char*>(x.c_str())); a.push_back(nullptr); execvp(a[0], a.data()); _exit(127);
    }
    result r; int st = 0; auto t0 = std::chrono::steady_clock::now(); useconds_t nap = 300;
    while (waitpid(pid, &st, WNOHANG) == 0) { if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) { kill(-pid, SIGKILL); waitpid(pid, &st, 0); r.timed_out = true; break; } usleep(nap); if (nap < 5000) nap *= 2; }
    r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); std::ifstream i(log); std::ostringstream o; o << i.rdbuf(); r.out = o.str(); unlink(log.c_str()); return r;
}
inline std::string num(double x) { char b[40]; std::snprintf(b, 40, "%.17g", x); return b; }
inline std::string opt(const std::string& k, double x) { return k + "=" + num(x); }
inline std::string opt(const std::string& k, int x) { return k + "=" + std::to_string(x); }
inline std::string opt(const std::string& k, const std::string& x) { return k + "=" + x; }
inline result run_mara(std::vector<std::string> args, const std::string& cwd, double limit=60) { args.insert(args.begin(), std::getenv("MARA_BIN")); return exec(args, cwd, limit); }
inline std::string tail(const std::string& t) { return t.size() > 400 ? "..." + t.substr(t.size() - 400) : t; }
inline result mara_ok(std::vector<std::string> args, const std::string& cwd, double limit=60) { auto r = run_mara(args, cwd, limit); if (r.timed_out) fail("mara does not finish"); if (r.code) fail("mara exits with code " + std::to_string(r.code) + ": " + tail(r.out)); return r; }

// the contents of an HDF5 file: every dataset, in its own file type
struct dset { std::vector<hsize_t> dims; int cls = 0; std::size_t tsize = 0, count = 0; std::string bytes; };
inline bool operator==(const dset& a, const dset& b) { return a.dims == b.dims && a.cls == b.cls && a.tsize == b.tsize && a.bytes == b.bytes; }
struct h5dump
{
    std::map<std::string, dset> sets; std::set<std::string> groups;
    bool has(const std::string& n) const { return sets.count(n); }
    const dset& at(const std::string& n) const { if (! sets.count(n)) fail("the file has no " + n); return sets.at(n); }
    std::vector<double> doubles(const std::string& n) const { auto& d = at(n); std::vector<double> r(d.bytes.size() / 8); std::memcpy(r.data(), d.bytes.data(), r.size() * 8); return r; }
    double real(const std::string& n) const { auto v = doubles(n); if (v.size() != 1) fail(n + " is not one number"); return v[0]; }
    std::vector<int> ints(const std::string& n) const { auto& d = at(n); std::vector<int> r(d.bytes.size() / 4); std::memcpy(r.data(), d.bytes.data(), r.size() * 4); return r; }
    int integer(const std::string& n) const { return ints(n).at(0); }
    std::string str(const std::string& n) const { return at(n).bytes.c_str(); }
    std::vector<std::string> under(const std::string& g) const { std::vector<std::string> r; for (auto& x : sets) if (x.first.compare(0, g.size() + 1, g + "/") == 0) r.push_back(x.first.substr(g.size() + 1)); return r; }
};
namespace detail {
    inline herr_t visit(hid_t loc, const char* name, const H5O_info_t* info, void* op)
    {
        auto& d = *static_cast<h5dump*>(op); if (std::string(name) == ".") return 0;
        if (info->type == H5O_TYPE_GROUP) d.groups.insert(name);
        if (info->type == H5O_TYPE_DATASET) { auto s = H5Dopen(loc, name, H5P_DEFAULT), t = H5Dget_type(s), sp = H5Dget_space(s); dset x; auto nd = H5Sget_simple_extent_ndims(sp); x.dims.resize(nd); if (nd) H5Sget_simple_extent_dims(sp, x.dims.data(), nullptr); x.cls = H5Tget_class(t); x.tsize = H5Tget_size(t); x.count = H5Sget_simple_extent_npoints(sp); x.bytes.resize(x.count * x.tsize); if (! x.bytes.empty()) H5Dread(s, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, &x.bytes[0]); H5Sclose(sp); H5Tclose(t); H5Dclose(s); d.sets[name] = x; }
        return 0;
    }
}
inline h5dump read_h5(const std::string& path)
{
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); h5dump d; auto f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) fail("there is no HDF5 file " + path.substr(path.rfind('/') + 1)); H5Ovisit(f, H5_INDEX_NAME, H5_ITER_NATIVE, detail::visit, &d); H5Fclose(f); return d;
}
// overwrite the data of an existing dataset (same type and shape)
inline void write_h5(const std::string& path, const std::map<std::string, std::string>& data)
{
    auto f = H5Fopen(path.c_str(), H5F_ACC_RDWR, H5P_DEFAULT); if (f < 0) throw std::runtime_error("cannot modify " + path); for (auto& x : data) { auto s = H5Dopen(f, x.first.c_str(), H5P_DEFAULT), t = H5Dget_type(s); if (H5Dwrite(s, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, x.second.data()) < 0) throw std::runtime_error("cannot write " + x.first); H5Tclose(t); H5Dclose(s); } H5Fclose(f);
}
// the numbers inside a compound type, by dotted member name: offset of the first and how many
inline void number_offsets(hid_t t, const std::string& name, std::size_t at, std::map<std::string, std::pair<std::size_t, std::size_t>>& r)
{
    switch (H5Tget_class(t))
    {
        case H5T_COMPOUND: for (int i = 0; i < H5Tget_nmembers(t); ++i) { auto n = H5Tget_member_name(t, i); auto m = H5Tget_member_type(t, i); number_offsets(m, name.empty() ? n : name + "." + n, at + H5Tget_member_offset(t, i), r); H5Tclose(m); H5free_memory(n); } break;
        case H5T_ARRAY: { auto b = H5Tget_super(t); r[name] = {at, H5Tget_size(t) / H5Tget_size(b)}; H5Tclose(b); break; }
        default: r[name] = {at, 1};
    }
}
struct table { std::map<std::string, std::pair<std::size_t, std::size_t>> where; dset data;
    std::size_t rows() const { return data.count; }
    double get(std::size_t row, const std::string& m, std::size_t k=0) const { if (! where.count(m)) fail("there is no member " + m); double x; std::memcpy(&x, &data.bytes.at(row * data.tsize + where.at(m).first + 8 * k), 8); return x; }
    void set(std::size_t row, const std::string& m, double x, std::size_t k=0) { std::memcpy(&data.bytes.at(row * data.tsize + where.at(m).first + 8 * k), &x, 8); } };
inline table read_table(const std::string& path, const std::string& name, const h5dump& d)
{
    table r; r.data = d.at(name); auto f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT), s = H5Dopen(f, name.c_str(), H5P_DEFAULT), t = H5Dget_type(s); number_offsets(t, "", 0, r.where); H5Tclose(t); H5Dclose(s); H5Fclose(f); return r;
}
inline std::string pack(const std::vector<double>& v) { return std::string(reinterpret_cast<const char*>(v.data()), v.size() * 8); }
// compare two files bit for bit, ignoring the named datasets
inline void same_file(const std::string& what, const h5dump& a, const h5dump& b, const std::set<std::string>& ignore={})
{
    for (auto& x : a.sets) { if (ignore.count(x.first)) continue; if (! b.has(x.first)) fail(what + ": " + x.first + " is missing"); if (! (x.second == b.at(x.first))) { std::string why; auto& p = x.second; auto& q = b.at(x.first); if (p.dims != q.dims || p.tsize != q.tsize) why = "shape or type"; else for (std::size_t i = 0; i + 8 <= p.bytes.size(); i += 8) if (std::memcmp(&p.bytes[i], &q.bytes[i], 8)) { double u, v; std::memcpy(&u, &p.bytes[i], 8); std::memcpy(&v, &q.bytes[i], 8); why = num(u) + " and " + num(v) + " at number " + std::to_string(i / 8); break; } fail(what + ": " + x.first + " differs: " + why); } }
    for (auto& x : b.sets) if (! ignore.count(x.first) && ! a.has(x.first)) fail(what + ": there is an additional " + x.first);
}
inline std::string numbered(const std::string& prefix, int n) { char b[64]; std::snprintf(b, 64, "%s.%04d.h5", prefix.c_str(), n); return b; }
}
