// C29: messages and collectives of the MPI wrapper, on 1 to 6 real processes, with MPI's freedoms exercised
//
// The law draws a script; this same executable, started by mpirun, plays it on every rank and compares what it receives
// with what the script says was sent. MPI calls are interposed (PMPI): a non-blocking operation touches its buffer as
// late as MPI allows (at the rank's next MPI call), a wildcard matches any of the messages it may match, calls are delayed.
#include "cli.hpp"
#include "core_mpi.hpp"
using namespace pbt; using namespace cli;
//----------------------------------------------------------------------------- interposed MPI
static std::uint64_t jseed = 1; static std::uint64_t jnext() { jseed ^= jseed << 13; jseed ^= jseed >> 7; jseed ^= jseed << 17; return (jseed * 0x2545F4914F6CDD1Dull) >> 24; }
struct late_t { MPI_Request req; bool recv, started; void* buf; int n, peer, tag; MPI_Datatype type; MPI_Comm comm; };
static std::vector<late_t> late; static bool meddle = false;
static void pick(int& peer, int tag, MPI_Comm c) { if (peer != MPI_ANY_SOURCE || ! meddle) return; int k = 0; PMPI_Comm_size(c, &k); std::vector<int> can; for (int i = 0; i < k; ++i) { int f = 0; MPI_Status st; PMPI_Iprobe(i, tag, c, &f, &st); if (f) can.push_back(i); } if (! can.empty()) peer = can[jnext() % can.size()]; }
static void flush() { for (auto& l : late) if (! l.started) { l.started = true; PMPI_Start(&l.req); } }
static void here() { if (! meddle) return; if (jnext() % 6 == 0) usleep(jnext() % 800); flush(); if (jnext() % 12 == 0) usleep(jnext() % 800); }
static void done(MPI_Request* r, MPI_Request was) { for (std::size_t i = 0; i < late.size(); ++i) if (late[i].req == was) { if (*r != MPI_REQUEST_NULL) PMPI_Request_free(r); late.erase(late.begin() + i); *r = MPI_REQUEST_NULL; return; } }
extern "C" {
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { if (! meddle || jnext() % 3 == 0) { flush(); return PMPI_Isend(b, n, t, d, tag, c, r); } flush(); int e = PMPI_Send_init(b, n, t, d, tag, c, r); late.push_back({*r, false, false, nullptr, n, d, tag, t, c}); return e; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) { here(); pick(s, tag, c); if (! meddle || jnext() % 3 == 0) return PMPI_Irecv(b, n, t, s, tag, c, r); int e = PMPI_Recv_init(b, n, t, s, tag, c, r); late.push_back({*r, true, false, b, n, s, tag, t, c}); return e; }
int MPI_Wait(MPI_Request* r, MPI_Status* s) { here(); auto was = *r; int e = PMPI_Wait(r, s); done(r, was); return e; }
int MPI_Test(MPI_Request* r, int* f, MPI_Status* s) { here(); auto was = *r; int e = PMPI_Test(r, f, s); if (*f) done(r, was); return e; }
int MPI_Waitall(int n, MPI_Request r[], MPI_Status s[]) { here(); std::vector<MPI_Request> was(r, r + n); int e = PMPI_Waitall(n, r, s); for (int i = 0; i < n; ++i) done(&r[i], was[i]); return e; }
int MPI_Request_get_status(MPI_Request r, int* f, MPI_Status* s) { here(); return PMPI_Request_get_status(r, f, s); }
int MPI_Cancel(MPI_Request* r) { here(); return PMPI_Cancel(r); }
int MPI_Request_free(MPI_Request* r) { here(); auto was = *r; for (auto& l : late) if (l.req == was) { done(r, was); return MPI_SUCCESS; } return PMPI_Request_free(r); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) { here(); pick(s, tag, c); return PMPI_Recv(b, n, t, s, tag, c, st); }
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { here(); return PMPI_Send(b, n, t, d, tag, c); }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status* st) { here(); pick(s, tag, c); return PMPI_Probe(s, tag, c, st); }
int MPI_Iprobe(int s, int tag, MPI_Comm c, int* f, MPI_Status* st) { here(); pick(s, tag, c); return PMPI_Iprobe(s, tag, c, f, st); }
int MPI_Mprobe(int s, int tag, MPI_Comm c, MPI_Message* m, MPI_Status* st) { here(); pick(s, tag, c); return PMPI_Mprobe(s, tag, c, m, st); }
int MPI_Improbe(int s, int tag, MPI_Comm c, int* f, MPI_Message* m, MPI_Status* st) { here(); pick(s, tag, c); return PMPI_Improbe(s, tag, c, f, m, st); }
int MPI_Barrier(MPI_Comm c) { here(); return PMPI_Barrier(c); }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { here(); return PMPI_Bcast(b, n, t, root, c); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) { here(); return PMPI_Comm_dup(c, n); }
int MPI_Comm_free(MPI_Comm* c) { here(); return PMPI_Comm_free(c); }
int MPI_Finalize() { flush(); return PMPI_Finalize(); }
}
//----------------------------------------------------------------------------- the script, played by every rank
static std::uint64_t hash4(std::uint64_t a, std::uint64_t b=0, std::uint64_t c=0, std::uint64_t d=0) { std::uint64_t h = 0x9E3779B97F4A7C15ull; for (auto x : {a, b, c, d}) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; } return h; }
static std::string bytes(std::size_t n, std::uint64_t key) { std::string s(n, 0); rng_t g{key | 1}; for (auto& c : s) c = char(g.next() >> 17); return s; }
struct msg { int src, dst, tag, len, kind; std::string body; };
struct s3 { double x, y, z; }; struct big { char c[5000]; }; struct odd { char c[7]; };
template<class T> static T value(std::uint64_t key) { T v; auto b = bytes(sizeof(T), key); std::memcpy(&v, b.data(), sizeof(T)); return v; }
template<class T> static bool same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template<class F> static void with_type(int t, F f) { switch (t % 6) { case 0: return f(char()); case 1: return f(int()); case 2: return f(double()); case 3: return f(s3()); case 4: return f(odd()); default: return f(big()); } }
static int size_of(int t) { int n = 0; with_type(t, [&] (auto v) { n = sizeof(v); }); return n; }
static void need(bool ok, const std::string& what) { if (! ok) throw std::runtime_error(what); }
template<class T> static std::vector<T> list(std::size_t n, std::uint64_t key) { std::vector<T> v; for (std::size_t i = 0; i < n; ++i) v.push_back(value<T>(hash4(key, i, 77))); return v; }
template<class T> static void same_list(const std::vector<T>& a, const std::vector<T>& b, const std::string& what) { need(a.size() == b.size(), what + " has " + show(a.size()) + " elements, want " + show(b.size())); for (std::size_t i = 0; i < a.size(); ++i) need(same(a[i], b[i]), what + ": element " + show(i) + " is wrong"); }
static std::size_t extent(std::uint64_t key) { switch (key % 5) { case 0: return 0; case 1: return 1; case 2: return 3; case 3: return key / 5 % 40; default: return key / 5 % 700; } }

static void collective(const mpi::Communicator& c, int op, int type, int root, std::uint64_t key)
{
    int me = c.rank(), K = c.size(); std::string on = " on rank " + show(me);
    with_type(type, [&] (auto dummy)
    {
        using T = decltype(dummy);
        switch (op)
        {
        case 0: { auto v = value<T>(hash4(key, me)); c.bcast(root, v); need(same(v, value<T>(hash4(key, root))), "bcast gives the wrong value" + on); break; }
        case 1: { std::vector<T> v; if (me == root) for (int i = 0; i < K; ++i) v.push_back(value<T>(hash4(key, i))); else v = list<T>(extent(hash4(key, me, 5)) % 4, key); need(same(c.scatter(root, v), value<T>(hash4(key, me))), "scatter gives the wrong value" + on); break; }
        case 2: { std::vector<std::vector<T>> v; if (me == root) for (int i = 0; i < K; ++i) v.push_back(list<T>(extent(hash4(key, i, 9)), hash4(key, i))); same_list(c.scatter(root, v), list<T>(extent(hash4(key, me, 9)), hash4(key, me)), "scattered list" + on); break; }
        case 3: { std::vector<T> v, want; for (int i = 0; i < K; ++i) { v.push_back(value<T>(hash4(key, me, i))); want.push_back(value<T>(hash4(key, i, me))); } same_list(c.all_to_all(v), want, "all_to_all" + on); break; }
        case 4: { std::vector<T> want; for (int i = 0; i < K; ++i) want.push_back(value<T>(hash4(key, i))); same_list(c.all_gather(value<T>(hash4(key, me))), want, "all_gather" + on); break; }
        case 5: { auto got = c.all_gather(list<T>(extent(hash4(key, me, 9)), hash4(key, me))); need(int(got.size()) == K, "all_gather of lists has the wrong length" + on); for (int i = 0; i < K; ++i) same_list(got[i], list<T>(extent(hash4(key, i, 9)), hash4(key, i)), "list of rank " + show(i) + on); break; }
        default: c.barrier();
        }
    });
}
static void refuse(const mpi::Communicator& c, int op, int root, std::uint64_t key)
{
    int K = c.size(), me = c.rank(); int n = int(key % 8); if (n == K) n = K + 1; if (me != root) return;
    auto must = [&] (const char* what, auto f) { try { f(); } catch (const std::invalid_argument&) { return; } need(false, std::string(what) + " accepts " + show(n) + " values on " + show(K) + " ranks"); };
    if (op == 0) must("scatter", [&] { c.scatter(root, std::vector<int>(n, 1)); }); else if (op == 1) must("scatter of lists", [&] { c.scatter(root, std::vector<std::vector<double>>(n)); }); else must("all_to_all", [&] { c.all_to_all(std::vector<double>(n, 1.0)); });
}
// every rank sends its messages in order, then receives all of those meant for it in the way the script says
static void exchange(const mpi::Communicator& c, std::vector<msg> all, const std::vector<int>& mode, bool fence, std::uint64_t key)
{
    int me = c.rank(); std::string on = " on rank " + show(me); std::vector<mpi::Request> sent; std::vector<std::string> body; rng_t g{hash4(key, me) | 1}; auto draw = [&] (int n) { return int((g.next() >> 20) % n); };
    for (auto& m : all) if (m.src == me)
    {
        if (m.kind == 0) c.send(m.body, m.dst, m.tag);
        else if (m.kind == 1) { auto r = c.isend(m.body, m.dst, m.tag); need(! r.is_null() || true, ""); sent.push_back(std::move(r)); body.push_back(m.body); }
        else with_type(m.kind / 2 - 1, [&] (auto dummy) { using T = decltype(dummy); T v; std::memcpy(&v, m.body.data(), sizeof(T)); if (m.kind % 2) { mpi::Request r; r = c.isend(v, m.dst, m.tag); sent.push_back(std::move(r)); body.push_back(m.body); } else c.send(v, m.dst, m.tag); });
        // requests may be moved while their operation is pending
        if (! sent.empty() && draw(3) == 0) { std::vector<mpi::Request> t; for (auto& r : sent) t.push_back(std::move(r)); for (auto& r : sent) need(r.is_null(), "a request that was moved from is not null"); sent = std::move(t); } if (! sent.empty() && draw(8) == 0) { auto& a = sent[draw(int(sent.size()))]; auto& b = a; a = std::move(b); }
    }
    if (fence) c.barrier();
    std::vector<std::vector<msg>> queue(c.size()); int left = 0; for (auto& m : all) if (m.dst == me) { queue[m.src].push_back(m); ++left; }
    for (; left > 0; --left)
    {
        // the next message to ask for, and how
        int src = mpi::any_source, tag = mpi::any_tag; { std::vector<int> can; for (int i = 0; i < c.size(); ++i) if (! queue[i].empty()) can.push_back(i); int i = can[draw(int(can.size()))]; auto& q = queue[i]; auto& m = q[draw(int(q.size()))]; if (mode[me] & 1) src = i; if (mode[me] & 2) tag = m.tag; }
        auto matches = [&] (int i) -> int { if (src != mpi::any_source && src != i) return -1; for (std::size_t k = 0; k < queue[i].size(); ++k) if (tag == mpi::any_tag || queue[i][k].tag == tag) return int(k); return -1; };
        auto take = [&] (const std::string& got, const std::string& how) { int i = src; if (i == mpi::any_source) { need(got.size() >= 2, how + ": received " + show(got.size()) + " bytes from nobody" + on); i = (unsigned char) got[0]; need(i < c.size(), how + ": what was received is not what was sent" + on); } int k = matches(i); need(k >= 0, how + ": received a message that was not asked for" + on); auto& m = queue[i][k]; if (got != m.body) { std::string at; for (std::size_t j = 0; j < queue[i].size(); ++j) if (got == queue[i][j].body) at = " (message " + show(j) + " from there instead)"; need(false, how + ": message from " + show(i) + " with tag " + show(m.tag) + ", " + show(m.len) + " bytes: received " + show(got.size()) + " bytes that differ" + at + on); } queue[i].erase(queue[i].begin() + k); };
        auto post = [&] { auto t0 = now(); while (true) { auto r = c.irecv(src, tag); if (! r.is_null()) return r; need(now() - t0 < 20, "irecv does not see the message" + on); } };
        int len = -1; bool known = true; for (int i = 0; i < c.size(); ++i) { int k = matches(i); if (k < 0) continue; if (len >= 0 && queue[i][k].len != len) known = false; len = queue[i][k].len; } std::vector<int> typed; if (known) for (int t = 0; t < 6; ++t) if (size_of(t) == len) typed.push_back(t);
        int how = draw(8);
        if (how == 0) take(c.recv(src, tag), "recv");
        else if (how == 1) { auto r = post(); mpi::Request q(std::move(r)); need(r.is_null(), "a moved-from request is not null"); std::vector<mpi::Request> v; v.push_back(std::move(q)); v.emplace_back(); v.emplace_back(); if (draw(2)) { auto t0 = now(); while (true) { if (v[0].is_ready()) { need(late.empty() || late.back().started, "a request is called ready although MPI has not been asked" + on); break; } need(now() - t0 < 20, "a request never becomes ready" + on); } } take(v[0].get(), "irecv"); need(v[0].is_null(), "a request is not null after get"); auto body = v[0].get(); need(v[0].get() == body, "get"); mpi::Request w; w = std::move(v[0]); need(w.get() == body, "a finished request that is assigned loses its message" + on); mpi::Request x(std::move(w)); auto& y = x; x = std::move(y); need(x.get() == body, "a finished request that is moved loses its message" + on); }
        else if (how == 2) { auto st = c.probe(src, tag); need(! st.is_null() && (src == mpi::any_source || st.source() == src) && (tag == mpi::any_tag || st.tag() == tag), "probe gives another message" + on); int i = st.source(), k = matches(i); need(k >= 0 && st.tag() == queue[i][k].tag && st.count() == queue[i][k].len, "probe does not describe the next message" + on); if (src == mpi::any_source) src = i; if (tag == mpi::any_tag) tag = st.tag(); take(c.recv(src, tag), "recv after probe"); }
        else if (how == 3) { auto t0 = now(); mpi::Status st; while ((st = c.iprobe(src, tag)).is_null()) need(now() - t0 < 20, "iprobe does not see the message" + on); int i = st.source(), k = matches(i); need(k >= 0 && st.tag() == queue[i][k].tag && st.count() == queue[i][k].len, "iprobe does not describe the next message" + on); auto r = c.irecv(i, st.tag()); need(! r.is_null(), "irecv after iprobe is null"); src = i; tag = st.tag(); take(r.get(), "irecv after iprobe"); }
        else if (how <= 5 && ! typed.empty()) with_type(typed[draw(int(typed.size()))], [&] (auto dummy) { using T = decltype(dummy); T v; if (how == 4) v = c.template recv<T>(src, tag); else v = post().template get<T>(); take(std::string(reinterpret_cast<char*>(&v), sizeof(T)), "typed receive"); });
        else if (how == 6 && known) with_type(draw(6), [&] (auto dummy) { using T = decltype(dummy); if (int(sizeof(T)) == len) return take(c.recv(src, tag), "recv"); // a message of the wrong size is refused; which one it was is known if only one can match
            std::vector<int> from; for (int i = 0; i < c.size(); ++i) if (matches(i) >= 0) from.push_back(i); if (from.size() != 1) return take(c.recv(src, tag), "recv"); if (draw(2)) { try { c.template recv<T>(src, tag); } catch (const std::logic_error&) { auto& q = queue[from[0]]; q.erase(q.begin() + matches(from[0])); return; } need(false, "a message of the wrong size is accepted" + on); } else { auto r = post(); bool refused = false; try { r.template get<T>(); } catch (const std::logic_error&) { refused = true; } need(refused, "get accepts a message of the wrong size" + on); take(r.get(), "irecv"); } });
        else take(c.recv(src, tag), "recv");
    }
    for (std::size_t i = 0; i < sent.size(); ++i) { if (draw(2)) { sent[i].wait(); need(sent[i].is_null(), "a request is not null after wait"); } need(sent[i].get() == body[i], "the content of a sent message changed"); }
    c.barrier(); need(c.iprobe().is_null(), "there are messages that nobody sent" + on); need(c.irecv().is_null(), "irecv without a message is not null" + on); c.barrier();
}
static void play(std::istream& in)
{
    std::vector<mpi::Communicator> comm; comm.push_back(mpi::comm_world()); int wr, ws; MPI_Comm_rank(MPI_COMM_WORLD, &wr); MPI_Comm_size(MPI_COMM_WORLD, &ws); std::string line; std::string on = " on rank " + show(wr);
    auto check = [&] (const mpi::Communicator& c, bool null) { need(c.is_null() == null, null ? "a communicator is not null" : "a communicator is null"); need(c.size() == (null ? 0 : ws) && c.rank() == (null ? -1 : wr), "a communicator has the wrong size or rank"); };
    while (std::getline(in, line))
    {
        std::istringstream s(line); std::string op; s >> op;
        if (op == "C") { int c, o, t, r; std::uint64_t k; s >> c >> o >> t >> r >> k; collective(comm.at(c), o, t, r, k); }
        else if (op == "X") { int c, o, r; std::uint64_t k; s >> c >> o >> r >> k; refuse(comm.at(c), o, r, k); }
        else if (op == "M") { auto& o = mpi::cout_master(); need(mpi::is_master() == (wr == 0) && (&o == &std::cout) == (wr == 0), "is_master" + on); mpi::printf_master("one line\n"); std::fflush(stdout); }
        else if (op == "K")
        {
            // copies, moves and assignments; null[i] is what must be true afterwards
            int kind, a, b; s >> kind >> a >> b; auto null = [&] (int i) { return comm.at(i).is_null(); };
            switch (kind) { case 0: { bool n = null(a); mpi::Communicator d(comm[a]); check(d, n); check(comm[a], n); comm.push_back(std::move(d)); check(comm.back(), n); break; } case 1: { bool n = null(a), nb = null(b); auto& x = comm[b]; x = comm[a]; check(comm[b], n); check(comm[a], a == b ? nb : n); break; } case 2: { bool n = null(a); mpi::Communicator d(std::move(comm[a])); check(d, n); check(comm[a], true); comm[a] = std::move(d); check(comm[a], n); check(d, true); break; } case 3: { bool n = null(a); auto& x = comm[b]; x = std::move(comm[a]); check(comm[b], n); if (a != b) { check(comm[a], true); comm[a] = comm[b]; check(comm[a], n); } break; } case 4: comm[a].close(); check(comm[a], true); comm[a].close(); check(comm[a], true); break; case 5: comm[a] = mpi::Communicator(); check(comm[a], true); break; default: comm[a] = mpi::comm_world(); check(comm[a], false); }
        }
        else if (op == "I")
        {
            // what is sent in a communicator is not seen in its copy
            int a, src, dst; s >> a >> src >> dst; mpi::Communicator d(comm.at(a)); mpi::Request r; if (wr == src) r = comm[a].isend(std::string("in the original"), dst, 3); comm[a].barrier(); if (wr == dst) { auto t0 = now(); while (comm[a].iprobe().is_null()) need(now() - t0 < 20, "the message does not arrive"); need(d.iprobe().is_null() && d.irecv().is_null(), "a message is seen in a copy of the communicator" + on); need(comm[a].recv() == "in the original", "message" + on); } if (wr == src) r.wait(); d.barrier(); check(d, false);
        }
        else if (op == "S")
        {
            // a blocking send that needs its receiver
            int c, src, dst, len; std::uint64_t key; s >> c >> src >> dst >> len >> key; if (wr == src) comm.at(c).send(bytes(len, key), dst, 5); if (wr == dst) need(comm.at(c).recv(key % 2 ? src : mpi::any_source, key % 3 ? 5 : mpi::any_tag) == bytes(len, key), "a large message differs" + on); comm[c].barrier();
        }
        else if (op == "P")
        {
            int c, fence, n; std::uint64_t key; s >> c >> fence >> key; std::vector<int> mode(ws); for (auto& m : mode) s >> m; s >> n; std::vector<msg> all; std::map<int, int> seq; for (int i = 0; i < n; ++i) { msg m; s >> m.src >> m.dst >> m.tag >> m.len >> m.kind; m.body = bytes(m.len, hash4(key, i)); if (m.len >= 2) { m.body[0] = char(m.src); m.body[1] = char(seq[m.src]++); } all.push_back(m); } exchange(comm.at(c), all, mode, fence, key);
        }
    }
}
static int worker(const char* path)
{
    std::string err; { mpi::Session session; int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); std::ifstream in(path); std::uint64_t j; in >> j; std::string rest; std::getline(in, rest); meddle = j != 0; jseed = hash4(j, r) | 1; try { play(in); } catch (const std::exception& e) { err = e.what(); } if (! err.empty()) { std::ofstream(std::string(path) + ".rank" + std::to_string(r)) << err; _exit(9); } }
    return 0;
}
//----------------------------------------------------------------------------- generator
// whether plain MPI, without the code under test, works here and now (a machine that is too busy answers no)
static int plain()
{
    MPI_Init(nullptr, nullptr); int r, k; MPI_Comm_rank(MPI_COMM_WORLD, &r); MPI_Comm_size(MPI_COMM_WORLD, &k); std::vector<char> a(30000, char(r)), b(30000);
    for (int i = 0; i < 300; ++i) { PMPI_Sendrecv(a.data(), 30000, MPI_CHAR, (r + 1) % k, 1, b.data(), 30000, MPI_CHAR, (r + k - 1) % k, 1, MPI_COMM_WORLD, MPI_STATUS_IGNORE); PMPI_Barrier(MPI_COMM_WORLD); MPI_Comm c; PMPI_Comm_dup(MPI_COMM_WORLD, &c); PMPI_Comm_free(&c); if (b[7] != char((r + k - 1) % k)) return 3; }
    PMPI_Finalize(); return 0;
}
static result mpirun(int K, const char* self, const std::string& cwd, double limit) { auto r = exec({"mpirun", "--allow-run-as-root", "--oversubscribe", "--timeout", std::to_string(int(limit)), "-n", std::to_string(K), self}, cwd, limit + 8); if (r.code == 110) r.timed_out = true; return r; }
static bool alone(int K, const char* self, const std::string& cwd) { setenv("MPI_PLAIN", "1", 1); auto r = mpirun(K, self, cwd, 4); unsetenv("MPI_PLAIN"); return ! r.timed_out && r.code == 0; }
static void script(src& s, bool p2p, bool coll)
{
    int K = s.chance(1, 8) ? 1 : int(s.integer(2, s.chance(1, 4) ? 6 : 4)); scratch dir; std::ostringstream o; o << (s.chance(1, 6) ? 0 : 1 + s.draw(1 << 30)) << '\n'; std::vector<bool> null{false}; auto live = [&] { std::vector<int> v; for (std::size_t i = 0; i < null.size(); ++i) if (! null[i]) v.push_back(int(i)); return v; }; auto rank = [&] { return int(s.integer(0, K - 1)); }; std::size_t ops = s.size(1, 25), messages = 0;
    for (std::size_t k = 0; k < ops; ++k)
    {
        auto v = live(); if (v.empty()) { o << "K 6 0 0\n"; null[0] = false; v = live(); } int c = v[s.size(0, v.size() - 1)]; auto what = s.integer(0, 9);
        if (what == 9) { int kind = int(s.integer(0, 6)), a = int(s.size(0, null.size() - 1)), b = int(s.size(0, null.size() - 1)); if (kind == 0 && null.size() > 5) kind = 1; o << "K " << kind << ' ' << a << ' ' << b << '\n'; if (kind == 0) null.push_back(null[a]); if (kind == 1 || kind == 3) { bool n = null[a]; null[b] = n; } if (kind == 4 || kind == 5) null[a] = true; if (kind == 6) null[a] = false; s.cls("copied, moved or closed communicators"); }
        else if (what == 8) { if (s.chance(1, 3)) o << "M\n"; else if (K > 1 && s.coin()) { int a = rank(), b = (a + 1 + int(s.integer(0, K - 2))) % K; o << "S " << c << ' ' << a << ' ' << b << ' ' << s.integer(0, 100000); o << ' ' << s.draw(1 << 30) << '\n'; } else { o << "I " << c << ' ' << rank(); o << ' ' << rank() << '\n'; } }
        else if (coll && (! p2p || what < 3)) { if (s.chance(1, 6)) { o << "X " << c << ' ' << s.integer(0, 2); o << ' ' << rank(); o << ' ' << s.draw(8) << '\n'; s.cls("refused sizes"); } else { auto op = s.integer(0, 6); o << "C " << c << ' ' << op; o << ' ' << s.integer(0, 5); o << ' ' << rank(); o << ' ' << s.draw(1 << 30) << '\n'; static const char* n[] = {"bcast", "scatter", "scatter lists", "all_to_all", "all_gather", "all_gather lists", "barrier"}; s.cls(n[op]); } }
        else if (p2p)
        {
            o << "P " << c << ' ' << s.coin(); o << ' ' << s.draw(1 << 30); std::vector<int> mode(K); for (auto& m : mode) { m = int(s.integer(0, 3)); o << ' ' << m; } std::size_t n = s.size(0, 12); o << ' ' << n; messages += n;
            for (std::size_t i = 0; i < n; ++i) { int a = rank(), b = rank(), tag = int(s.pick(std::vector<int>{0, 0, 1, 2, 7, 30000, 1000000})), type = int(s.integer(0, 5)), len; bool typed = s.chance(1, 3), now = s.chance(1, 3); len = typed ? size_of(type) : int(s.coin() ? s.integer(0, 20) : s.chance(1, 4) ? s.integer(1000, 40000) : s.integer(0, 300)); if (! (mode[b] & 1) && len < 2) { len = 2; typed = false; } if (len > 500) now = false; o << ' ' << a << ' ' << b << ' ' << tag << ' ' << len << ' ' << (typed ? 2 * (type + 1) + ! now : ! now); s.cls("large messages", len > 4096); s.cls("empty messages", len == 0); s.cls("wildcards", mode[b] != 3); }
            o << '\n';
        }
    }
    s.note("ranks", K); s.note("script", o.str().substr(0, 3000)); s.nontrivial(K > 1 && (messages > 3 || (! p2p && ops > 3))); s.cls("ranks " + std::to_string(K));
    auto path = dir / "script"; { std::ofstream f(path); f << o.str(); } char self[4096] = {}; if (readlink("/proc/self/exe", self, 4095) < 0) throw std::runtime_error("readlink");
    auto play = [&] (double limit) { setenv("MPI_SCRIPT", path.c_str(), 1); auto r = mpirun(K, self, dir.path, limit); unsetenv("MPI_SCRIPT"); for (int i = 0; i < K; ++i) { std::ifstream f(path + ".rank" + std::to_string(i)); std::string t; if (std::getline(f, t)) fail(t); } return r; };
    // a run that does not end is a deadlock if it does not end a second time either, with plain MPI working before and after
    auto r = play(12); if (r.timed_out) { if (! alone(K, self, dir.path)) discard(); r = play(20); if (r.timed_out) { if (! alone(K, self, dir.path)) discard(); fail("the ranks wait for each other forever"); } } if (r.code) fail("mpirun exits with code " + std::to_string(r.code) + ": " + tail(r.out)); std::size_t m = 0, p = 0, want = 0; while ((p = o.str().find("\nM\n", p)) != std::string::npos) { ++want; ++p; ++p; } p = 0; { std::istringstream t(o.str()); std::string l; want = 0; while (std::getline(t, l)) want += l == "M"; } { std::istringstream t(r.out); std::string l; while (std::getline(t, l)) m += l == "one line"; } expect_eq("lines that printf_master wrote", m, want);
}
LAW_OPT("messages between ranks arrive complete, once and in order", 90, "two or more ranks, four or more messages", 90, true, [] (src& s) { script(s, true, false); });
LAW_OPT("collectives give every rank its share", 90, "two or more ranks, four or more operations", 90, true, [] (src& s) { script(s, false, true); });
LAW_OPT("messages and collectives do not disturb each other", 60, "two or more ranks, four or more messages", 90, true, [] (src& s) { script(s, true, true); });
int main(int argc, char** argv) { if (std::getenv("MPI_PLAIN")) return plain(); if (auto p = std::getenv("MPI_SCRIPT")) return worker(p); return pbt::main(argc, argv); }
