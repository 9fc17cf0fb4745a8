// C12: reductions, broadcasts, barriers and processor groups.
#include "gamon.h"
extern "C" void GA_Pgroup_gop(int, int, double *, int, char *);
extern "C" void NGA_Pgroup_cgop(int, SingleComplex *, int, char *);
extern "C" void NGA_Pgroup_llgop(int, long long *, int, char *);
using namespace gm;

struct G2 : Group { int parent = -1; bool live = true; };
static std::vector<G2> gs; // gs[0]: world
static std::vector<std::vector<long>> sink;

static Val gopval(int t, const std::string &op, const std::vector<Val> &v) {
  Val r = v[0];
  bool ab = op.compare(0, 3, "abs") == 0;
  auto A = [&](Val x) { if (ab) { if (is_int(t)) x.i = std::labs(x.i); else x.re = fabs(x.re); } return x; };
  r = A(r);
  for (size_t k = 1; k < v.size(); k++) {
    Val x = A(v[k]);
    if (op == "+") r = vadd(t, r, x);
    else if (op == "*") r = vmul(t, r, x);
    else if (op == "max" || op == "absmax") { if (is_int(t)) r.i = std::max(r.i, x.i); else r.re = std::max(r.re, x.re); }
    else if (op == "min" || op == "absmin") { if (is_int(t)) r.i = std::min(r.i, x.i); else r.re = std::min(r.re, x.re); }
    else if (op == "or" || op == "|" || op == "bor") r.i |= x.i;
    else if (op == "&" || op == "band") r.i &= x.i;
    else if (op == "&&" || op == "land") r.i = (r.i && x.i);
    else r.i = (r.i || x.i);
  }
  return r;
}
static void call_gop(int how, int h, int t, void *x, int n, char *op) {
  if (how == 0) switch (t) {
    case C_INT: GA_Pgroup_igop(h, (int *)x, n, op); break;
    case C_LONG: GA_Pgroup_lgop(h, (long *)x, n, op); break;
    case C_LONGLONG: GA_Pgroup_llgop(h, (long long *)x, n, op); break;
    case C_FLOAT: GA_Pgroup_fgop(h, (float *)x, n, op); break;
    case C_DBL: GA_Pgroup_dgop(h, (double *)x, n, op); break;
    case C_SCPL: GA_Pgroup_cgop(h, (SingleComplex *)x, n, op); break;
    default: GA_Pgroup_zgop(h, (DoubleComplex *)x, n, op);
  } else if (how == 1) switch (t) {
    case C_INT: GA_Igop((int *)x, n, op); break;
    case C_LONG: GA_Lgop((long *)x, n, op); break;
    case C_LONGLONG: GA_Llgop((long long *)x, n, op); break;
    case C_FLOAT: GA_Fgop((float *)x, n, op); break;
    case C_DBL: GA_Dgop((double *)x, n, op); break;
    case C_SCPL: GA_Cgop((SingleComplex *)x, n, op); break;
    default: GA_Zgop((DoubleComplex *)x, n, op);
  } else if (how == 2) GA_Gop(t, x, n, op);
  else if (how == 3) GA_Pgroup_gop(h, t, (double *)x, n, op);
  else switch (t) {
    case C_INT: NGA_Pgroup_igop(h, (int *)x, n, op); break;
    case C_LONG: NGA_Pgroup_lgop(h, (long *)x, n, op); break;
    case C_LONGLONG: NGA_Pgroup_llgop(h, (long long *)x, n, op); break;
    case C_FLOAT: NGA_Pgroup_fgop(h, (float *)x, n, op); break;
    case C_DBL: NGA_Pgroup_dgop(h, (double *)x, n, op); break;
    case C_SCPL: NGA_Pgroup_cgop(h, (SingleComplex *)x, n, op); break;
    default: NGA_Pgroup_zgop(h, (DoubleComplex *)x, n, op);
  }
}
static long rlen(Rng &r, long es) {
  int s = (int)r.in(0, 15);
  if (s == 0) return r.in(0, 1);
  if (s < 8) return r.in(1, 40);
  if (s < 12) return r.in(1, 1200);
  if (s < 15) return std::max(1L, (1L << r.in(8, 16)) / es + r.in(-2, 2)); // around power-of-two buffers
  return r.in(20000, 120000);
}
static void maybe_delay(uint64_t s) { Rng d(s * 31 + me); if (d.one_in(6)) usleep((useconds_t)d.in(50, 1500)); }

// one reduction by every member of g; r is shared by the members. If `how` uses the default group it is already set.
static void do_gop(const Group &g, Rng &r, int how, const char *ctx) {
  int t = r.pick(ALLTYPES);
  static const std::vector<std::string> ii = {"+", "*", "max", "min", "absmax", "absmin", "or", "&&", "||", "&", "|", "land", "lor", "band", "bor"};
  static const std::vector<std::string> ff = {"+", "*", "max", "min", "absmax", "absmin"};
  static const std::vector<std::string> cc = {"+", "*"};
  std::string op = r.pick(is_int(t) ? ii : is_cpl(t) ? cc : ff);
  long n = rlen(r, tsize(t)), es = tsize(t);
  uint64_t s = r.next();
  auto contrib = [&](int member, long i) {
    Rng q(s + (uint64_t)member * 7919 + (uint64_t)i * 104729);
    if (op == "*") { Val v = ival(t, q.in(-3, 3), q.in(-2, 2)); return v; }
    if (op == "&&" || op == "||" || op == "land" || op == "lor") return ival(t, q.one_in(2) ? 0 : q.in(-3, 3));
    return rnd_val(t, q, is_int(t) ? 0 : 1000);
  };
  std::vector<char> x(n * es + 64, (char)0x5C);
  for (long i = 0; i < n; i++) store(t, x.data() + i * es, contrib(g.rank, i));
  maybe_delay(s);
  opmark("%s gop how=%d %s %s n=%ld", ctx, how, tname(t), op.c_str(), n);
  std::vector<char> o(op.begin(), op.end());
  o.push_back(0);
  call_gop(how, g.h, t, x.data(), (int)n, o.data());
  std::string key = std::string("gop:") + ctx + (is_cpl(t) ? ":complex" : "") + (op == "*" && is_cpl(t) ? ":prod" : "");
  for (long i = 0; i < n; i++) {
    std::vector<Val> v;
    for (int k = 0; k < g.size(); k++) v.push_back(contrib(k, i));
    Val w = gopval(t, op, v);
    std::vector<char> e(es);
    store(t, e.data(), w);
    Val got = load(t, x.data() + i * es);
    if (op == "&&" || op == "||" || op == "land" || op == "lor") { // any nonzero value is true
      got.i = got.i != 0; w.i = w.i != 0;
      store(t, e.data(), w);
      store(t, x.data() + i * es, got);
    }
    bool same = is_int(t) ? !memcmp(e.data(), x.data() + i * es, es) : (got.re == load(t, e.data()).re && got.im == load(t, e.data()).im);
    if (!same) violation(key, "%s op %s on %s n=%ld how=%d: element %ld is %s, want %s", ctx, op.c_str(), tname(t), n, how, i, vstr(t, got).c_str(), vstr(t, load(t, e.data())).c_str());
  }
  for (int i = 0; i < 64; i++) if (x[n * es + i] != (char)0x5C) violation(key + ":overrun", "byte %d after the vector changed", i);
  count("gops"); count("gop_elements", n);
}
static void do_bcast(const Group &g, Rng &r, int how, const char *ctx) {
  long n = r.one_in(12) ? r.in(100000, 1000000) : rlen(r, 1);
  if (n == 0) n = 1;
  int root = (int)r.in(0, g.size() - 1);
  uint64_t s = r.next();
  std::vector<unsigned char> x(n + 64, 0x5C), w(n);
  Rng q(s);
  for (long i = 0; i < n; i++) w[i] = (unsigned char)q.next();
  if (g.rank == root) memcpy(x.data(), w.data(), n);
  maybe_delay(s);
  opmark("%s brdcst how=%d n=%ld root=%d", ctx, how, n, root);
  if (how) GA_Brdcst(x.data(), (int)n, root); else GA_Pgroup_brdcst(g.h, x.data(), (int)n, root);
  if (memcmp(x.data(), w.data(), n)) violation(std::string("brdcst:") + ctx, "%s: broadcast of %ld bytes from member %d differs at member %d", ctx, n, root, g.rank);
  for (int i = 0; i < 64; i++) if (x[n + i] != 0x5C) violation(std::string("brdcst:") + ctx + ":overrun", "byte %d after the buffer changed", i);
  count("brdcsts"); count("brdcst_bytes", n);
}
// barrier monitor: nobody leaves before all members entered
static volatile int *bar;
static int barslot = 0;
static void do_sync(const Group &g, int slot, int how, uint64_t s, const char *ctx) {
  maybe_delay(s);
  __sync_fetch_and_add(&bar[slot], 1);
  opmark("%s sync how=%d", ctx, how);
  if (how) GA_Sync(); else GA_Pgroup_sync(g.h);
  int v = __sync_fetch_and_add(&bar[slot], 0);
  if (v < g.size()) violation(std::string("sync:") + ctx, "%s: left the barrier when %d of %d members had entered", ctx, v, g.size());
  count("group_syncs");
}
static void do_array(const Group &g, Rng &r, bool dflt, const char *ctx) {
  int t = r.pick(ALLTYPES);
  VL dims = rnd_dims(r, (int)r.in(1, 3), 400);
  Layout L = rnd_layout(r, dims, g.size(), {REG, CHUNK, IRREG, BCYC});
  opmark("%s array %s %s", ctx, dimstr(dims).c_str(), L.str().c_str());
  Group q = g;
  if (dflt) q.world = true; // created through the default group
  int h = make_array(L, t, dims, q, "c");
  if (GA_Get_pgroup(h) != g.h) violation("array-group", "%s: array created in group %d reports group %d", ctx, g.h, GA_Get_pgroup(h));
  if (GA_Get_pgroup_size(GA_Get_pgroup(h)) != g.size()) violation("array-group", "%s: size of the array's group %d", ctx, GA_Get_pgroup_size(g.h));
  MArr m(t, dims);
  for (long i = 0; i < m.n; i++) m.set(i, rnd_val(t, r));
  int w = (int)r.in(0, g.size() - 1);
  if (g.rank == w) {
    Patch p = whole(dims);
    Buf b(t, p, VL(dims.size(), 0));
    memcpy(b.ptr(), m.d.data(), m.n * m.es);
    put(h, p, b, false);
  }
  if (dflt) GA_Sync(); else GA_Pgroup_sync(g.h);
  check_all(h, m, "array", ctx);
  if (dflt) GA_Sync(); else GA_Pgroup_sync(g.h);
  GA_Destroy(h);
  count("group_arrays");
}
// what every query says about a group this process belongs to
static void check_group(const G2 &g, const char *ctx) {
  opmark("%s queries", ctx);
  if (GA_Pgroup_nnodes(g.h) != g.size()) violation("nnodes", "%s %s: nnodes %d want %d", ctx, g.desc.c_str(), GA_Pgroup_nnodes(g.h), g.size());
  if (GA_Pgroup_nodeid(g.h) != g.rank) violation("nodeid", "%s %s: nodeid %d want %d", ctx, g.desc.c_str(), GA_Pgroup_nodeid(g.h), g.rank);
  for (int k = 0; k < g.size(); k++) {
    int a = GA_Pgroup_absolute_id(g.h, k);
    if (a != g.mem[k]) violation("absolute_id", "%s %s: member %d is process %d, want %d", ctx, g.desc.c_str(), k, a, g.mem[k]);
  }
  count("group_queries");
}
static void check_default(const G2 &g, const char *ctx) {
  if (GA_Pgroup_get_default() != g.h) violation("get_default", "%s: default group %d want %d", ctx, GA_Pgroup_get_default(), g.h);
  if (GA_Nnodes() != g.size()) violation("default-nnodes", "%s: GA_Nnodes %d want %d", ctx, GA_Nnodes(), g.size());
  if (GA_Nodeid() != g.rank) violation("default-nodeid", "%s: GA_Nodeid %d want %d", ctx, GA_Nodeid(), g.rank);
  if (GA_Pgroup_get_world() != -1 && GA_Pgroup_nnodes(GA_Pgroup_get_world()) != np) violation("world", "%s: world group", ctx);
  if (GA_Pgroup_nodeid(GA_Pgroup_get_world()) != me || GA_Pgroup_nnodes(GA_Pgroup_get_world()) != np)
    violation("world", "%s: world rank %d of %d, want %d of %d", ctx, GA_Pgroup_nodeid(GA_Pgroup_get_world()), GA_Pgroup_nnodes(GA_Pgroup_get_world()), me, np);
}
static int addg(int parent, std::vector<int> mem, int h, const char *how) {
  G2 g;
  g.world = false;
  g.parent = parent;
  g.mem = mem;
  g.h = h;
  g.in = false;
  g.desc = fmt("%s(%d){", how, parent);
  for (size_t k = 0; k < mem.size(); k++) { if (mem[k] == me) { g.in = true; g.rank = (int)k; } g.desc += fmt("%s%d", k ? "," : "", mem[k]); }
  g.desc += "}";
  gs.push_back(g);
  return (int)gs.size() - 1;
}
static void run_case(long i) {
  Rng r(sub_seed(i, 12));
  gs.clear();
  G2 w;
  (Group &)w = world_group();
  w.parent = -1;
  gs.push_back(w);
  int steps = (int)r.in(2, 10);
  // plan first, so that the case is described; every process executes the same plan
  struct Step { int op, par; std::vector<int> list; int num; std::vector<int> color; bool all; int via; };
  std::string d;
  begin_case(i, fmt("np=%d steps=%d s=%lx", np, steps, (unsigned long)r.s));
  std::string hist;
  for (int st = 0; st < steps; st++) {
    std::vector<int> live;
    for (size_t k = 0; k < gs.size(); k++) if (gs[k].live) live.push_back((int)k);
    int par = r.pick(live);
    if (r.one_in(3)) par = 0;
    G2 P = gs[par]; // copy: gs grows
    int op = (int)r.in(0, 10);
    size_t first = gs.size();
    if (op <= 3) { // create from a list of ranks of the default group
      std::vector<int> l;
      for (int k = 0; k < P.size(); k++) l.push_back(k);
      r.shuffle(l);
      l.resize(r.in(1, P.size()));
      if (r.one_in(2)) std::sort(l.begin(), l.end());
      bool all = r.one_in(2);
      std::vector<int> mem;
      for (int x : l) mem.push_back(P.mem[x]);
      std::sort(mem.begin(), mem.end());
      bool in = std::find(mem.begin(), mem.end(), me) != mem.end();
      int h = -99;
      hist += fmt(" create(%d,n=%zu,%s)", par, l.size(), all ? "all" : "members");
      cur_case = fmt("i=%ld seed=%lu%s", i, (unsigned long)seed, hist.c_str());
      opmark("create");
      if (P.in && (in || all)) {
        int old = GA_Pgroup_get_default();
        if (!P.world) GA_Pgroup_set_default(P.h);
        h = GA_Pgroup_create(l.data(), (int)l.size());
        if (!P.world) GA_Pgroup_set_default(old);
      }
      // members sorted by their rank in the parent; parents list members in rank order
      std::vector<int> mm;
      for (int x : P.mem) if (std::find(mem.begin(), mem.end(), x) != mem.end()) mm.push_back(x);
      addg(par, mm, h, "create");
      count("create");
    } else if (op <= 5) { // split
      int num = (int)r.in(1, P.size() + (r.one_in(4) ? 2 : 0));
      hist += fmt(" split(%d,%d)", par, num);
      cur_case = fmt("i=%ld seed=%lu%s", i, (unsigned long)seed, hist.c_str());
      opmark("split");
      int gsz = (P.size() + num - 1) / num;
      int h = P.in ? GA_Pgroup_split(P.h, num) : -99;
      for (int b = 0; b * gsz < P.size(); b++) {
        std::vector<int> mm(P.mem.begin() + b * gsz, P.mem.begin() + std::min(P.size(), (b + 1) * gsz));
        bool in = std::find(mm.begin(), mm.end(), me) != mm.end();
        addg(par, mm, in ? h : -99, "split");
      }
      count("split");
    } else if (op <= 7) { // split_irreg by colour
      int nc = (int)r.in(1, P.size());
      std::vector<int> col;
      for (int k = 0; k < P.size(); k++) col.push_back((int)r.in(0, nc - 1) * (nc > 2 ? 5 : 1));
      hist += fmt(" irreg(%d,%d)", par, nc);
      cur_case = fmt("i=%ld seed=%lu%s", i, (unsigned long)seed, hist.c_str());
      opmark("split_irreg");
      int h = P.in ? GA_Pgroup_split_irreg(P.h, col[P.rank]) : -99;
      std::set<int> cs(col.begin(), col.end());
      for (int c : cs) {
        std::vector<int> mm;
        for (int k = 0; k < P.size(); k++) if (col[k] == c) mm.push_back(P.mem[k]);
        bool in = std::find(mm.begin(), mm.end(), me) != mm.end();
        addg(par, mm, in ? h : -99, "irreg");
      }
      count("split_irreg");
    } else if (op == 8) { // duplicate
      hist += fmt(" dup(%d)", par);
      cur_case = fmt("i=%ld seed=%lu%s", i, (unsigned long)seed, hist.c_str());
      opmark("duplicate");
      int h = -99;
      if (P.in) {
        // the default group at the time of the call must not matter
        int old = GA_Pgroup_get_default();
        bool sd = !P.world && r.one_in(2);
        if (sd) GA_Pgroup_set_default(P.h);
        h = GA_Pgroup_duplicate(P.h);
        if (sd) GA_Pgroup_set_default(old);
      } else if (!P.world) r.one_in(2);
      addg(par, P.mem, h, "dup");
      count("duplicate");
    } else if (op == 9) { // self, under some default group
      hist += fmt(" self(%d)", par);
      cur_case = fmt("i=%ld seed=%lu%s", i, (unsigned long)seed, hist.c_str());
      opmark("self");
      if (P.in) {
        if (!P.world) GA_Pgroup_set_default(P.h);
        G2 s;
        s.h = GA_Pgroup_self();
        if (!P.world) GA_Pgroup_set_default(-1);
        s.world = false; s.mem = {me}; s.rank = 0; s.desc = "self";
        check_group(s, "self");
        Rng q(r.s + me);
        do_gop(s, q, 0, "self");
        do_sync(s, 4000 + me, 0, r.s, "self");
        bar[4000 + me] = 0;
        GA_Pgroup_destroy(s.h);
      }
      r.next();
      count("self");
    } else if (par != 0) { // destroy
      hist += fmt(" destroy(%d)", par);
      cur_case = fmt("i=%ld seed=%lu%s", i, (unsigned long)seed, hist.c_str());
      opmark("destroy");
      bool child = false;
      for (auto &g : gs) if (g.live && g.parent == par) child = true;
      if (!child) {
        if (P.in) { GA_Pgroup_sync(P.h); int ok = GA_Pgroup_destroy(P.h); if (!ok) violation("destroy-result", "destroying a live group returned 0");
          if (r.s % 3 == 0 && GA_Pgroup_destroy(P.h)) violation("destroy-twice", "destroying a destroyed group succeeded"); }
        else if (P.h >= 0 && r.s % 2) GA_Pgroup_destroy(P.h);
        gs[par].live = false;
        count("destroy");
      }
    }
    for (size_t k = first; k < gs.size(); k++) if (gs[k].in) check_group(gs[k], "new group");
    // live handles of this process are distinct
    std::set<int> hs;
    for (auto &g : gs) if (g.live && g.in && !hs.insert(g.h).second) violation("handle-reuse", "handle %d given out while live", g.h);
    // a round of operations in disjoint groups
    if (r.one_in(2)) {
      std::vector<int> order;
      for (size_t k = 0; k < gs.size(); k++) if (gs[k].live) order.push_back((int)k);
      r.shuffle(order);
      std::vector<int> use;
      std::set<int> taken;
      for (int k : order) {
        bool ok = true;
        for (int x : gs[k].mem) if (taken.count(x)) ok = false;
        if (ok) { use.push_back(k); taken.insert(gs[k].mem.begin(), gs[k].mem.end()); }
      }
      uint64_t rs = r.next();
      int slot = 0;
      for (size_t u = 0; u < use.size(); u++) {
        const G2 &g = gs[use[u]];
        Rng q(rs + u * 977);
        int nops = (int)q.in(1, 6);
        int base = slot;
        slot += 8;
        if (!g.in) continue;
        bool dflt = q.one_in(2);
        if (dflt) { GA_Pgroup_set_default(g.h); check_default(g, "default"); }
        const char *ctx = g.world ? "world" : dflt ? "default" : "group";
        for (int o = 0; o < nops; o++) {
          int what = (int)q.in(0, 9);
          int how = dflt ? (int)q.in(0, 4) : g.world ? (int)q.in(0, 4) : (q.one_in(2) ? 0 : (int)q.in(3, 4));
          bool viad = dflt && q.one_in(2);
          if (what < 5) do_gop(g, q, how, ctx);
          else if (what < 7) do_bcast(g, q, viad ? 1 : 0, ctx);
          else if (what < 9) do_sync(g, base + o, viad ? 1 : 0, q.next(), ctx);
          else do_array(g, q, viad, ctx);
        }
        check_group(g, ctx);
        if (dflt) { GA_Pgroup_set_default(GA_Pgroup_get_world()); check_default(gs[0], "reset"); }
      }
      count("disjoint_rounds"); count("concurrent_groups", (long)use.size());
      GA_Sync();
      if (me == 0) memset((void *)bar, 0, 4 * 1024);
      GA_Sync();
    }
    // everybody acts on the world while having some subgroup as default
    if (r.one_in(4)) {
      int mine = -1;
      for (size_t k = 1; k < gs.size(); k++) if (gs[k].live && gs[k].in) mine = (int)k;
      uint64_t rs = r.next();
      Rng q(rs);
      if (mine > 0) GA_Pgroup_set_default(gs[mine].h);
      int nops = (int)q.in(1, 3);
      for (int o = 0; o < nops; o++) {
        int what = (int)q.in(0, 3);
        Group W = gs[0];
        if (what == 0) do_gop(W, q, q.one_in(2) ? 0 : (int)q.in(3, 4), "world-under-default");
        else if (what == 1) do_bcast(W, q, 0, "world-under-default");
        else { do_sync(W, 2000 + o, 0, q.next(), "world-under-default"); }
      }
      if (mine > 0) { check_default(gs[mine], "still default"); GA_Pgroup_set_default(GA_Pgroup_get_world()); }
      GA_Sync();
      if (me == 0) memset((void *)(bar + 2000), 0, 64);
      GA_Sync();
      count("world_under_default");
    }
  }
  // translation helpers
  {
    std::vector<int> l(np + 1, -7);
    GA_List_nodeid(l.data(), np);
    std::set<int> s(l.begin(), l.begin() + np);
    if ((int)s.size() != np || *s.begin() != 0 || l[np] != -7) violation("list_nodeid", "GA_List_nodeid is not a list of all processes");
    int nn = GA_Cluster_nnodes(), tot = 0;
    std::set<int> seen;
    for (int n = 0; n < nn; n++) {
      int k = GA_Cluster_nprocs(n);
      tot += k;
      for (int j = 0; j < k; j++) {
        int p = GA_Cluster_procid(n, j);
        if (p < 0 || p >= np || !seen.insert(p).second) violation("cluster", "procid(%d,%d)=%d", n, j, p);
        if (GA_Cluster_proc_nodeid(p) != n) violation("cluster", "process %d of node %d reported on node %d", p, n, GA_Cluster_proc_nodeid(p));
      }
    }
    if (tot != np) violation("cluster", "nodes hold %d of %d processes", tot, np);
    if (GA_Cluster_nodeid() != GA_Cluster_proc_nodeid(me)) violation("cluster", "own node");
  }
  opmark("cleanup");
  GA_Sync();
  for (size_t k = gs.size(); k-- > 1;) if (gs[k].live && gs[k].h >= 0) GA_Pgroup_destroy(gs[k].h);
  GA_Sync();
}
int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  // shared memory for the barrier monitor: named after rank 0's pid
  int pid = (int)getpid();
  GA_Brdcst(&pid, sizeof pid, 0);
  std::string nm = outdir + fmt("/bar.%d.%d", fid_base, pid);
  if (me == 0) { int fd = open(nm.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, 65536)) harness_error("bar"); close(fd); }
  GA_Sync();
  int fd = open(nm.c_str(), O_RDWR);
  bar = (volatile int *)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (bar == MAP_FAILED) harness_error("bar mmap");
  close(fd);
  GA_Sync();
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
  return 0;
}
