// C20: TCGMSG messages, shared counter and collectives.
#include "gamon.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <set>
#include <memory>
#include <map>
#include "tcgmsg.h"
extern "C" {
long nodeid_(); long nnodes_();
void snd_(long *, void *, long *, long *, long *);
void rcv_(long *, void *, long *, long *, long *, long *, long *);
long probe_(long *, long *);
void waitcom_(long *);
void synch_(long *);
void brdcst_(long *, void *, long *, long *);
void igop_(long *, long *, long *, char *, int);
void dgop_(long *, double *, long *, char *, int);
long nxtval_(long *);
void pfcopy_(long *, long *, char *, int);
void tcg_pfcopy(long, long, char *);
long mdtob_(long *); long mitob_(long *); long mdtoi_(long *); long mitod_(long *);
double drand48_(void);
}
using namespace gm;
static volatile long *sh; // [0..63] barrier entries, then the counter's history
enum { HMAX = 200000 };
static bool F(Rng &r) { return r.one_in(2); }
static long T(long v) { return v; }

static void f_synch(Rng &lr, long t) { if (F(lr)) synch_(&t); else tcg_synch(t); }
static long f_nxt(Rng &lr, long m) { return F(lr) ? nxtval_(&m) : tcg_nxtval(m); }

static void pattern(std::vector<char> &b, uint64_t s, long n) {
  b.resize(n);
  uint64_t x = s * 0x9e3779b97f4a7c15ULL + 1;
  for (long i = 0; i < n; i++) { if (i % 8 == 0) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; } b[i] = (char)(x >> (8 * (i % 8))); }
}
// ---- messages
struct Msg { int src, dst; long type; long len; bool wild, as, ar, probe; uint64_t seed; long id; };
static long rlen(Rng &r) {
  switch ((int)r.in(0, 9)) {
  case 0: return 0;
  case 1: return r.in(1, 3);
  case 2: return r.in(1, 260000);
  case 3: return r.in(4000, 70000);
  default: return r.in(1, 2000);
  }
}
struct Ev { int what; long m; }; // 0 send, 1 receive, 2 wait of a process
static void p2p(Rng &r, Rng &lr, long base) {
  int n = np;
  int k = (int)r.in(1, 60);
  std::vector<Msg> ms;
  struct Step { int kind; int m; int who; };
  std::vector<Step> st;
  std::map<std::pair<int, long>, bool> wildtype; // (dst,type) received by wildcards only
  std::vector<int> open_s(n, 0), open_r(n, 0);
  std::vector<int> late; // messages sent, not yet received (asynchronous sends)
  int ntypes = (int)r.in(1, 4);
  auto recv_late = [&](size_t i) { st.push_back({1, late[i], 0}); late.erase(late.begin() + (long)i); };
  for (int i = 0; i < k; i++) {
    Msg m;
    m.src = (int)r.in(0, n - 1); m.dst = (int)r.in(0, n - 1);
    m.type = base + r.in(0, ntypes - 1);
    m.len = rlen(r); m.as = r.one_in(2); m.ar = r.one_in(3); m.probe = r.one_in(3);
    m.seed = r.next(); m.id = i;
    auto key = std::make_pair(m.dst, m.type);
    if (!wildtype.count(key)) wildtype[key] = r.one_in(3);
    m.wild = wildtype[key];
    if (m.wild && m.len < 32) m.len = 32;
    if (m.wild) m.as = true; // a receive may take a later message instead, so its sender must not wait
    if (m.src == m.dst) m.as = true; // a blocking send to itself has nobody to receive it
    ms.push_back(m);
    bool is_late = m.as && r.one_in(2);
    if (!is_late && !m.wild) // messages of one type from one sender are received in order
      for (size_t j = 0; j < late.size();) if (ms[late[j]].dst == m.dst && ms[late[j]].type == m.type && ms[late[j]].src == m.src) recv_late(j); else j++;
    if (!is_late && m.wild) // receives of one type take what comes first
      for (size_t j = 0; j < late.size();) if (ms[late[j]].dst == m.dst && ms[late[j]].type == m.type) recv_late(j); else j++;
    st.push_back({0, i, 0});
    if (is_late) late.push_back(i); else st.push_back({1, i, 0});
    if (!late.empty() && r.one_in(4)) { // receive an old one: the first of its sender and type
      size_t j = (size_t)r.in(0, (long)late.size() - 1);
      for (size_t q = 0; q < j; q++) if (ms[late[q]].dst == ms[late[j]].dst && ms[late[q]].type == ms[late[j]].type && (ms[late[q]].src == ms[late[j]].src || ms[late[j]].wild)) { j = q; break; }
      recv_late(j);
    }
    if (r.one_in(6)) { // a process waits: everything sent to or by it is received first
      int who = (int)r.in(0, n - 1);
      bool w = false;
      for (auto &x : ms) if (x.wild && x.src == who) w = true; // may be taken later than its place
      if (w) continue;
      for (size_t j = 0; j < late.size();) if (ms[late[j]].src == who || ms[late[j]].dst == who) recv_late(j); else j++;
      st.push_back({2, 0, who});
    }
  }
  while (!late.empty()) recv_late(0);
  for (int p = 0; p < n; p++) st.push_back({2, 0, p});
  // wildcard receives: the messages that may come, per sender in order
  std::map<std::pair<int, long>, std::vector<int>> q; // (src,type) -> my wildcard messages in order
  std::map<std::pair<int, long>, size_t> qn;
  for (auto &m : ms) if (m.wild && m.dst == me) q[{m.src, m.type}].push_back((int)m.id);
  struct Pend { std::vector<char> buf; long off, cap; int m; bool snd; size_t slot; };
  std::map<long, std::vector<long>> slot; // type -> message that each wildcard receive got, in the order they were posted
  std::vector<std::unique_ptr<Pend>> pend;
  long expect_wild = 0, got_wild = 0;
  for (auto &m : ms) if (m.wild && m.dst == me) expect_wild++;
  std::vector<char> ref;
  auto fill = [&](const Msg &m, char *b) {
    pattern(ref, m.seed, m.len);
    if (m.len) memcpy(b, ref.data(), m.len);
    if (m.wild) { long h[4] = {0x7c61, m.src, m.id, m.len}; memcpy(b, h, 32); }
  };
  auto frame_ok = [&](Pend &p, long len) {
    for (long i = 0; i < p.off; i++) if (p.buf[i] != (char)0xA5) violation("message:frame", "byte %ld before the receive buffer changed", i - p.off);
    for (size_t i = p.off + len; i < p.buf.size(); i++) if (p.buf[i] != (char)0xA5) violation("message:frame", "byte %ld after a message of %ld bytes changed", (long)i - p.off, len);
  };
  auto check = [&](Pend &p, const Msg &m, const char *how) {
    std::vector<char> want(m.len + 1);
    fill(m, want.data());
    for (long i = 0; i < m.len; i++)
      if (p.buf[p.off + i] != want[i])
        violation("message:content", "%s: byte %ld of %ld of message %ld (%d->%d type %ld %s) is %02x, should be %02x", how, i, m.len, m.id, m.src, m.dst, m.type, m.as ? "async" : "sync", p.buf[p.off + i] & 255, want[i] & 255);
    frame_ok(p, m.len);
    count("messages");
    count("bytes_compared", m.len);
  };
  auto identify = [&](Pend &p, long from, const char *how) -> const Msg & {
    long h[4];
    memcpy(h, &p.buf[p.off], 32);
    if (h[0] != 0x7c61) violation("message:content", "%s: no header in a message of type %ld", how, ms[p.m].type);
    if (from >= 0 && h[1] != from) violation("message:from", "%s: message of %ld reported from %ld", how, h[1], from);
    if (h[2] < 0 || h[2] >= (long)ms.size() || ms[h[2]].src != h[1] || ms[h[2]].dst != me || ms[h[2]].type != ms[p.m].type) violation("message:content", "%s: header of no message", how);
    slot[ms[p.m].type][p.slot] = h[2];
    got_wild++;
    count("wildcards");
    return ms[h[2]];
  };
  for (auto &s : st) {
    if (s.kind == 0 && ms[s.m].src == me) {
      const Msg &m = ms[s.m];
      auto p = std::make_unique<Pend>();
      p->m = s.m; p->snd = true; p->off = 0;
      p->buf.assign(m.len + 1, 0);
      fill(m, p->buf.data());
      opmark("snd type %ld %s", m.type, m.as ? "async" : "sync");
      long ty = m.type, len = m.len, to = m.dst, sy = !m.as;
      if (F(lr)) snd_(&ty, p->buf.data(), &len, &to, &sy); else tcg_snd(ty, p->buf.data(), len, to, sy);
      std::vector<char> want(m.len + 1);
      fill(m, want.data());
      if (memcmp(want.data(), p->buf.data(), m.len)) violation("message:source", "the send buffer changed");
      if (m.as) { count("async_sends"); pend.push_back(std::move(p)); }
      else { count("sync_sends"); memset(p->buf.data(), 0x5A, p->buf.size()); }
    } else if (s.kind == 1 && ms[s.m].dst == me) {
      const Msg &m = ms[s.m];
      auto p = std::make_unique<Pend>();
      p->m = s.m; p->snd = false; p->off = lr.in(0, 8);
      // a wildcard receive may get any message of its type
      long cap = m.len;
      if (m.wild) for (auto &x : ms) if (x.dst == me && x.type == m.type) cap = std::max(cap, x.len);
      if (lr.one_in(2)) cap += lr.in(0, 50);
      p->cap = cap;
      p->buf.assign(p->off + cap + 16, (char)0xA5);
      long ty = m.type, sel = m.wild ? -1 : m.src, len = -7, from = -7, sy = !m.ar;
      if (m.probe && (m.wild || lr.one_in(2)) && !(m.ar)) {
        opmark("probe type %ld from %ld", ty, sel);
        // the message was or will be sent without our help, unless we are its late sender
        bool pending_ar = false;
        for (auto &x : pend) if (!x->snd && ms[x->m].type == m.type) pending_ar = true; // may swallow it
        if (!pending_ar) {
          for (long tries = 0;; tries++) {
            long f = F(lr) ? probe_(&ty, &sel) : tcg_probe(ty, sel);
            if (f == 1) break;
            if (f != 0) violation("probe", "probe returned %ld", f);
            if (tries % 64 == 63) usleep(200);
          }
          count("probes");
        }
      }
      if (m.wild) { p->slot = slot[m.type].size(); slot[m.type].push_back(-1); }
      opmark("rcv type %ld from %ld %s", ty, sel, m.ar ? "async" : "sync");
      if (F(lr)) rcv_(&ty, &p->buf[p->off], &cap, &len, &sel, &from, &sy); else tcg_rcv(ty, &p->buf[p->off], cap, &len, sel, &from, sy);
      if (m.ar) { count("async_receives"); pend.push_back(std::move(p)); continue; }
      count("sync_receives");
      const Msg &x = m.wild ? identify(*p, from, "rcv") : m;
      if (from != x.src) violation("message:from", "message of %d reported from %ld", x.src, from);
      if (len != x.len) violation("message:length", "message of %ld bytes reported as %ld", x.len, len);
      check(*p, x, "rcv");
    } else if (s.kind == 2 && s.who == me) {
      opmark("waitcom");
      long w = -1;
      if (lr.one_in(3)) { // one by one
        for (w = 0; w < n; w++) if (F(lr)) waitcom_(&w); else tcg_waitcom(w);
        w = -1; waitcom_(&w);
      } else if (F(lr)) waitcom_(&w); else tcg_waitcom(w);
      count("waits");
      for (auto &p : pend) {
        if (p->snd) { // ours again
          const Msg &m = ms[p->m];
          std::vector<char> want(m.len + 1);
          fill(m, want.data());
          if (memcmp(want.data(), p->buf.data(), m.len)) violation("message:source", "the send buffer changed");
          memset(p->buf.data(), 0x5A, p->buf.size());
          continue;
        }
        const Msg &m = ms[p->m];
        const Msg &x = m.wild ? identify(*p, -1, "async rcv") : m;
        check(*p, x, "async rcv");
      }
      static std::vector<std::vector<char>> old; // still readable, but overwritten
      old.clear();
      for (auto &p : pend) if (p->snd) old.push_back(std::move(p->buf));
      pend.clear();
    }
  }
  for (auto &t : slot) for (long id : t.second) {
    size_t &k2 = qn[{ms[id].src, t.first}];
    auto &v = q[{ms[id].src, t.first}];
    if (k2 >= v.size() || v[k2] != id) violation("message:order", "message %ld of %d received, expected %d", id, ms[id].src, k2 < v.size() ? v[k2] : -1);
    k2++;
  }
  if (got_wild != expect_wild) violation("message:lost", "%ld of %ld wildcard messages", got_wild, expect_wild);
  opmark("synch after messages");
  f_synch(lr, 7);
  // nothing is left over
  for (int t = 0; t < ntypes; t++) {
    long ty = base + t, any = -1, one = r.in(0, n - 1);
    for (int k2 = 0; k2 < 2; k2++) if (tcg_probe(ty, any) || probe_(&ty, &one)) violation("message:duplicate", "a message of type %ld is left", ty);
    count("leftover_checks");
  }
  f_synch(lr, 8);
}
// ---- shared counter
static void counter(Rng &r, Rng &lr) {
  int total = 0;
  std::vector<int> cnt(np);
  bool hot = r.one_in(3);
  for (int &c : cnt) { c = r.one_in(5) ? 0 : (int)r.in(1, hot ? 300 : 30); total += c; }
  opmark("nxtval");
  static std::vector<long> mine;
  mine.clear();
  long last = -1;
  for (int k = 0; k < cnt[me]; k++) {
    long v = f_nxt(lr, np);
    if (v <= last) violation("counter:order", "value %ld after %ld", v, last);
    if (v < 0 || v >= total) violation("counter:range", "value %ld of %d", v, total);
    last = v;
    long o = __sync_fetch_and_add(&sh[100 + v], 1);
    if (o) violation("counter:twice", "value %ld returned twice", v);
    if (lr.one_in(20)) usleep((unsigned)lr.in(0, 300));
  }
  count("nxtvals", cnt[me]);
  opmark("nxtval reset");
  f_nxt(lr, -np);
  for (int v = 0; v < total; v++) if (sh[100 + v] != 1) violation("counter:missing", "value %d returned %ld times", v, (long)sh[100 + v]);
  f_nxt(lr, -np);
  if (me == 0) for (int v = 0; v < total; v++) sh[100 + v] = 0;
  opmark("synch after nxtval");
  f_synch(lr, 9);
  count("counter_rounds");
}
// ---- collectives
static void gops(Rng &r, Rng &lr) {
  static const char *iops[] = {"+", "*", "max", "min", "absmax", "absmin", "or", "&&", "land", "||", "lor", "&", "band", "|", "bor"};
  bool dbl = r.one_in(2);
  const char *op = iops[r.in(0, dbl ? 5 : 14)];
  std::string o = op;
  long n = r.one_in(12) ? r.in(65530, 140000) : r.one_in(2) ? r.in(1, 8) : r.in(0, 3000);
  bool fort = lr.one_in(2);
  bool small = o == "*";
  uint64_t gseed = r.next();
  auto gen = [&](int p, long i) -> long {
    uint64_t x = (gseed ^ (uint64_t)(p * 7919 + 13)) * 0x9e3779b97f4a7c15ULL + (uint64_t)i * 0xbf58476d1ce4e5b9ULL;
    x ^= x >> 29; x *= 0x94d049bb133111ebULL; x ^= x >> 32;
    if (small) return (long)(x % 5) - 2;
    if (o == "&&" || o == "land" || o == "||" || o == "lor") return x % 4 ? (long)(x >> 40) : 0;
    return dbl ? (long)(x % 2000001) - 1000000 : (long)(x % 2000000000001ULL) - 1000000000000L;
  };
  opmark("%cgop %s n=%ld", dbl ? 'd' : 'i', op, n);
  auto red = [&](long i) {
    long a = gen(0, i);
    bool ab = o.compare(0, 3, "abs") == 0;
    if (ab) a = labs(a);
    if (np == 1) { if (o == "&&" || o == "land" || o == "||" || o == "lor") a = a; }
    for (int p = 1; p < np; p++) {
      long b = gen(p, i);
      if (ab) b = labs(b);
      if (o == "+") a += b; else if (o == "*") a *= b;
      else if (o == "max" || o == "absmax") a = std::max(a, b);
      else if (o == "min" || o == "absmin") a = std::min(a, b);
      else if (o == "or" || o == "|" || o == "bor") a |= b;
      else if (o == "&" || o == "band") a &= b;
      else if (o == "&&" || o == "land") a = a && b;
      else a = a || b;
    }
    return a;
  };
  bool truth = o == "&&" || o == "land" || o == "||" || o == "lor";
  // Fortran passes the operation without a terminator, padded with blanks
  std::string fo = o + std::string((size_t)lr.in(0, 3), ' ');
  std::vector<char> fop(fo.begin(), fo.end());
  fop.shrink_to_fit();
  char cop[16];
  strcpy(cop, op);
  long ty = 11;
  if (dbl) {
    std::vector<double> x(n + 2, -12345.0);
    for (long i = 0; i < n; i++) x[i + 1] = (double)gen(me, i);
    if (fort) dgop_(&ty, &x[1], &n, fop.data(), (int)fop.size()); else tcg_dgop(ty, &x[1], n, cop);
    for (long i = 0; i < n; i++) { double w = (double)red(i); if (x[i + 1] != w) violation("gop:d" + o, "element %ld of %ld is %g, should be %g", i, n, x[i + 1], w); }
    if (x[0] != -12345.0 || x[n + 1] != -12345.0) violation("gop:frame", "values next to the vector changed");
  } else {
    std::vector<long> x(n + 2, -12345);
    for (long i = 0; i < n; i++) x[i + 1] = gen(me, i);
    if (fort) igop_(&ty, &x[1], &n, fop.data(), (int)fop.size()); else tcg_igop(ty, &x[1], n, cop);
    for (long i = 0; i < n; i++) {
      long w = red(i), v = x[i + 1];
      if (truth) { w = w != 0; v = v != 0; }
      if (v != w) violation("gop:i" + o, "element %ld of %ld is %ld, should be %ld", i, n, v, w);
    }
    if (x[0] != -12345 || x[n + 1] != -12345) violation("gop:frame", "values next to the vector changed");
  }
  count("gops"); count("gop_elements", n);
}
static void bcast(Rng &r, Rng &lr) {
  long len = rlen(r), root = r.in(0, np - 1), ty = 12;
  uint64_t s = r.next();
  opmark("brdcst %ld from %ld", len, root);
  std::vector<char> want, b(len + 16, (char)0xA5);
  pattern(want, s, len);
  if (me == root && len) memcpy(b.data() + 8, want.data(), len);
  if (F(lr)) brdcst_(&ty, b.data() + 8, &len, &root); else tcg_brdcst(ty, b.data() + 8, len, root);
  if (len && memcmp(b.data() + 8, want.data(), len)) violation("brdcst", "%ld bytes from %ld differ", len, root);
  for (int i = 0; i < 8; i++) if (b[i] != (char)0xA5 || b[len + 8 + i] != (char)0xA5) violation("brdcst:frame", "bytes next to the buffer changed");
  count("brdcsts");
}
static void barrier(Rng &r, Rng &lr) {
  static long gen = 0;
  int k = (int)r.in(1, 5);
  for (int i = 0; i < k; i++) {
    gen++;
    if (lr.one_in(4)) usleep((unsigned)lr.in(0, 1500));
    opmark("synch");
    sh[me] = gen;
    __sync_synchronize();
    f_synch(lr, r.in(1, 1000));
    for (int p = 0; p < np; p++) if (sh[p] < gen) violation("synch", "left before process %d entered", p);
    count("synchs");
  }
  f_synch(lr, 3);
}
static void fcopy(Rng &r, Rng &lr) {
  static long seq = 0;
  long ty = r.in(1, 30000), root = r.in(0, np - 1);
  long len = r.one_in(4) ? 32768 * r.in(0, 3) : r.one_in(3) ? r.in(0, 5) : r.in(0, 150000);
  uint64_t s = r.next();
  std::string nm = outdir + fmt("/pf.%ld.%d", ++seq, me);
  std::vector<char> want;
  pattern(want, s, len);
  auto spew = [&](const std::vector<char> &d) { FILE *f = fopen(nm.c_str(), "w"); if (!f || fwrite(d.data(), 1, d.size(), f) != d.size() || fclose(f)) harness_error("pf"); };
  if (me == root) spew(want);
  else if (lr.one_in(2)) spew(std::vector<char>(lr.in(0, 60000), 'z')); // replaced
  opmark("pfcopy %ld bytes", len);
  bool fort = lr.one_in(2);
  if (fort) {
    std::string f = nm + std::string((size_t)lr.in(0, 20), ' ');
    std::vector<char> b(f.begin(), f.end());
    b.shrink_to_fit();
    pfcopy_(&ty, &root, b.data(), (int)b.size());
  } else {
    std::vector<char> b(nm.c_str(), nm.c_str() + nm.size() + 1);
    tcg_pfcopy(ty, root, b.data());
  }
  FILE *f = fopen(nm.c_str(), "r");
  if (!f) violation("pfcopy", "no file");
  std::vector<char> got(len + 100);
  size_t k = fread(got.data(), 1, got.size(), f);
  fclose(f);
  if ((long)k != len || (len && memcmp(got.data(), want.data(), len))) violation("pfcopy", "copy of %ld bytes from %ld has %zu bytes or other contents", len, root, k);
  unlink(nm.c_str());
  count("file_copies");
}

static void run_case(long ci) {
  Rng r(sub_seed(ci));
  Rng lr(sub_seed(ci) ^ (0x1234567ULL * (me + 1)));
  int steps = (int)r.in(1, 6);
  begin_case(ci, fmt("np=%d steps=%d r=%lx", np, steps, (unsigned long)sub_seed(ci)));
  if (tcg_nnodes() != np || tcg_nodeid() != me || nodeid_() != me || nnodes_() != np) violation("query", "node %ld of %ld", tcg_nodeid(), tcg_nnodes());
  if (tcg_ready() != 1) violation("query", "not ready");
  long v = r.in(0, 100000);
  if (tcg_mdtob(v) != 8 * v || mdtob_(&v) != 8 * v || tcg_mitob(v) != 8 * v || mitob_(&v) != 8 * v || tcg_mdtoi(v) != v || mdtoi_(&v) != v || tcg_mitod(v) != v || mitod_(&v) != v) violation("query", "size conversions of %ld", v);
  double t0 = tcg_time();
  for (int s = 0; s < steps; s++) {
    switch ((int)r.in(0, 9)) {
    case 0: case 1: case 2: case 3: p2p(r, lr, 1000 + 10 * r.in(0, 300)); break;
    case 4: case 5: counter(r, lr); break;
    case 6: case 7: for (long k = r.in(1, 4); k-- > 0;) gops(r, lr); break;
    case 8: bcast(r, lr); barrier(r, lr); break;
    case 9: if (r.one_in(2)) fcopy(r, lr); else bcast(r, lr); break;
    }
  }
  if (tcg_time() < t0) violation("query", "time runs backwards");
  opmark("synch at the end");
  tcg_synch(1);
}
int main(int argc, char **argv) {
#if defined(PORT_MT) || defined(PORT_PT)
  int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
#else
  MPI_Init(&argc, &argv);
#endif
  tcg_pbegin(argc, argv);
  mon::init(argc, argv, (int)tcg_nodeid(), (int)tcg_nnodes());
  int pid = (int)getpid();
  tcg_brdcst(5, &pid, sizeof pid, 0);
  std::string nm = outdir + fmt("/tcg.%d", pid);
  size_t sz = sizeof(long) * (100 + HMAX);
  if (me == 0) { int fd = open(nm.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, (off_t)sz)) harness_error("shm"); close(fd); }
  tcg_synch(1);
  int fd = open(nm.c_str(), O_RDWR);
  sh = (volatile long *)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (sh == MAP_FAILED) harness_error("mmap");
  close(fd);
  tcg_synch(1);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  tcg_synch(1);
  finish();
  tcg_pend();
  return 0;
}
