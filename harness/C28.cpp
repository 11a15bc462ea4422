// C28: the file-system helpers. Each case works as an unprivileged user in a scratch directory of its own, so that
// nothing the helpers remove can be anything but the case's own files.
#include "pbt.hpp"
#include <stdexcept>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
#include "app_filesystem.hpp"
using namespace pbt;
namespace fs = mara::filesystem;

static std::string home()
{
    static std::string dir;
    if (dir.empty())
    {
        auto base = std::getenv("PBT_SCRATCH"); if (! base) fail("harness: no scratch directory");
        dir = std::string(base) + "/u" + show(getpid()); ::mkdir(dir.c_str(), 0755);
        if (chown(dir.c_str(), 65534, 65534) || chdir(dir.c_str()) || setgroups(0, nullptr) || setgid(65534) || setuid(65534) || getuid() != 65534) { std::fprintf(stderr, "cannot give up privileges\n"); _exit(3); }
    }
    return dir;
}
static std::string kind(const std::string& p) { struct stat s; if (lstat(p.c_str(), &s)) return "none"; if (S_ISDIR(s.st_mode)) return "dir"; if (S_ISREG(s.st_mode)) return "file"; if (S_ISLNK(s.st_mode)) return "link"; return "other"; }
static void wipe(const std::string& p) { if (kind(p) == "dir") { if (auto d = opendir(p.c_str())) { std::vector<std::string> n; while (auto e = readdir(d)) n.push_back(e->d_name); closedir(d); for (auto& x : n) if (x != "." && x != "..") wipe(p + "/" + x); } ::rmdir(p.c_str()); } else if (kind(p) != "none") ::unlink(p.c_str()); }
static std::vector<std::string> scan(const std::string& p)
{
    std::vector<std::string> r; auto k = kind(p); r.push_back(p + ":" + k); if (k == "dir") { std::vector<std::string> n; if (auto d = opendir(p.c_str())) { while (auto e = readdir(d)) n.push_back(e->d_name); closedir(d); } std::sort(n.begin(), n.end()); for (auto& x : n) if (x != "." && x != "..") for (auto& y : scan(p + "/" + x)) r.push_back(y); } return r;
}
static void touch(const std::string& p) { int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0644); if (fd < 0) fail("harness: cannot create " + p); (void) ! write(fd, "x", 1); ::close(fd); }

struct made { std::string path, kind; };
static void grow(src& s, const std::string& at, int depth, std::vector<made>& all)
{
    if (depth == 0 && s.chance(1, 20)) // a long chain of directories
    {
        auto p = at; auto m = s.draw(25); for (std::size_t i = 0; i < m; ++i) { p += "/" + std::string(1, char('p' + i % 5)); if (! ::mkdir(p.c_str(), 0755)) all.push_back({p, "dir"}); if (s.chance(1, 4)) { touch(p + "/f"); all.push_back({p + "/f", "file"}); } }
    }
    auto n = s.chance(1, 40) ? s.draw(60) : s.draw(4);
    for (std::size_t i = 0; i < n; ++i)
    {
        auto p = at + "/" + s.pick({std::string("a"), std::string("b"), std::string("data.h5"), std::string(".hidden"), std::string("chkpt.0001.h5"), std::string("with space"), std::string("..b"), std::string("back~"), std::string("\xc3\xa9t\xc3\xa9"), std::string("*"), std::string("-rf"), std::string(s.size(1, 150), 'n')}) + show(i);
        switch (s.draw(8))
        {
            case 0: case 1: case 2: touch(p); all.push_back({p, "file"}); break;
            case 3: case 4: if (! ::mkdir(p.c_str(), 0755)) { all.push_back({p, "dir"}); if (depth < 4) grow(s, p, depth + 1, all); } break;
            case 5: { auto k = s.draw(4); auto target = home() + (k == 0 ? "/outside" : k == 1 ? "/outside/keep" : k == 2 ? "/nowhere" : "/outside/sub"); if (s.chance(1, 6)) { k = 0; target = s.coin() ? ".." : "."; // both still inside this case's own directory
               } if (! symlink(target.c_str(), p.c_str())) all.push_back({p, k == 0 || k == 3 ? "link to dir" : k == 1 ? "link to file" : "dangling"}); break; }
            case 6: if (! mkfifo(p.c_str(), 0644)) all.push_back({p, "other"}); break;
            default: { int fd = socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un a{}; a.sun_family = AF_UNIX; auto rel = p.substr(home().size() + 1); if (fd >= 0 && rel.size() < sizeof(a.sun_path)) { std::strcpy(a.sun_path, rel.c_str()); if (! bind(fd, (sockaddr*) &a, sizeof(a))) all.push_back({p, "other"}); } if (fd >= 0) ::close(fd); }
        }
    }
}

LAW("directory_trees", 20000, "a directory inside a directory, or a link", [] (src& s)
{
    auto h = home(); if (chdir(h.c_str())) fail("harness: scratch is gone"); wipe(h + "/tree"); wipe(h + "/outside"); ::mkdir((h + "/outside").c_str(), 0755); ::mkdir((h + "/outside/sub").c_str(), 0755); touch(h + "/outside/keep"); touch(h + "/outside/sub/keep"); touch(h + "/beside");
    auto root = h + "/tree"; ::mkdir(root.c_str(), 0755); std::vector<made> all{{root, "dir"}}; grow(s, root, 0, all); std::vector<std::string> shown; bool nested = false, links = false; for (auto& m : all) { shown.push_back(m.path.substr(h.size() + 1) + " (" + m.kind + ")"); nested = nested || (m.kind == "dir" && std::count(m.path.begin() + root.size(), m.path.end(), '/') > 1); links = links || m.kind.find("link") == 0; } s.note("tree", shown);
    bool rel = s.coin(); auto name = [&] (const std::string& p) { return rel ? p.substr(h.size() + 1) : p; };
    for (auto& m : all)
    {
        expect_eq(m.path + " is a directory", fs::isdir(name(m.path)), m.kind == "dir" || m.kind == "link to dir"); expect_eq(m.path + " is a file", fs::isfile(name(m.path)), m.kind == "file" || m.kind == "link to file");
        if (m.kind == "dir") { std::vector<std::string> want, got = fs::listdir(name(m.path)); for (auto& x : all) if (x.path.size() > m.path.size() && x.path.substr(0, m.path.size() + 1) == m.path + "/" && x.path.find('/', m.path.size() + 1) == std::string::npos && x.path[m.path.size() + 1] != '.') want.push_back(x.path.substr(m.path.size() + 1)); std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); expect_eq("list of " + m.path, got, want); }
        else if (m.kind == "file") { if (! throws_a<std::invalid_argument>([&] { fs::listdir(name(m.path)); })) fail("listing a file"); }
    }
    if (! throws_a<std::invalid_argument>([&] { fs::listdir(name(root + "/missing")); })) fail("listing a missing directory"); if (fs::isdir(name(root + "/missing")) || fs::isfile(name(root + "/missing"))) fail("a missing path exists");
    auto before = scan(h + "/outside");
    // remove one file, then a whole directory
    std::vector<std::string> files; for (auto& m : all) if (m.kind == "file") files.push_back(m.path); std::vector<std::string> gone;
    if (! files.empty() && s.coin()) { auto f = s.pick(files); auto was = scan(root); if (fs::remove_file(name(f)) != 0) fail("remove_file fails on " + f); std::vector<std::string> want; for (auto& x : was) if (x != f + ":file") want.push_back(x); expect_eq("after removing " + f, scan(root), want); if (fs::remove_file(name(f)) == 0) fail("removing a missing file succeeds"); }
    std::vector<std::string> dirs; for (auto& m : all) if (m.kind == "dir") dirs.push_back(m.path); auto d = s.pick(dirs); auto was = scan(root);
    int rc = fs::remove_recurse(name(d)); std::vector<std::string> want; for (auto& x : was) if (x != d + ":dir" && x.substr(0, d.size() + 1) != d + "/") want.push_back(x); if (want.empty()) want.push_back(root + ":none"); expect_eq("after removing directory " + d, scan(root), want); expect_eq("remove_recurse", rc, 0);
    expect_eq("outside the removed directory", scan(h + "/outside"), before); if (kind(h + "/beside") != "file") fail("a file beside the directory was removed");
    if (fs::remove_recurse(name(d)) == 0) fail("removing a missing directory succeeds"); s.nontrivial(nested || links); s.cls("links", links); s.cls("nested", nested);
});

LAW("require_dir", 20000, "more than one level to create", [] (src& s)
{
    auto h = home(); if (chdir(h.c_str())) fail("harness: scratch is gone"); wipe(h + "/r"); ::mkdir((h + "/r").c_str(), 0755); auto n = s.size(1, s.chance(1, 20) ? 30 : 5); std::string p = "r"; for (std::size_t i = 0; i < n; ++i) p += "/" + s.pick({std::string("a"), std::string("b.c"), std::string("data"), std::string(" x"), std::string("..y"), std::string(".z"), std::string(s.size(1, 60), 'm')}); bool abs = s.coin(); auto pre = s.draw(n + 1); { std::string q = "r"; std::size_t at = 1; for (std::size_t i = 0; i < pre; ++i) { at = p.find('/', at + 1); q = p.substr(0, at); ::mkdir((h + "/" + q).c_str(), 0755); } }
    auto arg = (abs ? h + "/" : s.coin() ? std::string("./") : std::string()) + p + (s.chance(1, 4) ? "/" : ""); s.note("path", abs ? "<scratch>/" + p : arg); s.note("existing levels", pre); bool kept = pre > 0; if (kept) touch(h + "/" + p.substr(0, p.find('/', 2)) + "/keep"); auto top = h + "/" + p.substr(0, p.find('/', 2));
    for (int round = 0; round < 2; ++round)
    {
        fs::require_dir(arg); auto all = scan(h + "/r"); std::vector<std::string> want{h + "/r:dir"};
        for (std::size_t e = p.find('/', 2);; e = p.find('/', e + 1)) { want.push_back(h + "/" + p.substr(0, e) + ":dir"); if (e == std::string::npos) break; }
        if (kept) want.push_back(top + "/keep:file"); std::sort(want.begin(), want.end()); std::sort(all.begin(), all.end()); expect_eq("directories", all, want);
        auto here = scan("."); for (auto& x : here) if (x.substr(0, 4) != "./r:" && x.substr(0, 4) != "./r/" && x != ".:dir" && x.find("./tree") != 0 && x.find("./outside") != 0 && x.find("./beside") != 0) fail("created " + x);
        if (! fs::isdir(arg)) fail("require_dir did not make " + arg);
    }
    // the directory can be used
    touch(h + "/" + p + "/file"); if (! fs::isfile(fs::join(h, p, std::string("file")))) fail("a file in the new directory"); s.nontrivial(n - pre > 1);
});

LAW("paths", 60000, "at least two components", [] (src& s)
{
    auto n = s.size(1, s.chance(1, 20) ? 40 : 6); std::vector<std::string> parts; for (std::size_t i = 0; i < n; ++i) { std::string w; auto k = s.draw(5); for (std::size_t j = 0; j < k; ++j) w += s.pick({'a', '.', '-', ' ', '0', 'Z'}); parts.push_back(w); } s.note("parts", parts);
    std::string joined = parts[0]; for (std::size_t i = 1; i < n; ++i) joined += "/" + parts[i]; expect_eq("join", fs::join(parts), joined); expect_eq("split", fs::split(joined), parts); expect_eq("join of split", fs::join(fs::split(joined)), joined); expect_eq("join of nothing", fs::join(std::vector<std::string>()), std::string()); expect_eq("join of two", fs::join(parts[0], joined), parts[0] + "/" + joined);
    if (n > 1) { std::vector<std::string> up(parts.begin(), parts.end() - 1); expect_eq("parent", fs::parent(joined), fs::join(up)); expect_eq("parent of a child", fs::parent(fs::join(joined, std::string("x"))), joined); }
    auto stem = joined, ext = s.pick({std::string(".h5"), std::string(".txt"), std::string("."), std::string(".a")}); expect_eq("extension", fs::extension(stem + ext), ext); std::string plain; for (auto c : joined) if (c != '.') plain += c; expect_eq("no extension", fs::extension(plain), std::string()); s.nontrivial(n > 1);
});
PBT_MAIN
