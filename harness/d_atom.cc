// C04: accumulates lose no update, read-increment is one total order, mutexes exclude.
#include "gamon.h"
#include <time.h>
#include <atomic>
using namespace gm;

struct Shm { std::atomic<int> holder[64]; std::atomic<long> entries[64]; std::atomic<long> version[64]; std::atomic<long> contended; };
static Shm *S;
static void shm_open_all() {
  std::string p = outdir + fmt("/shm.mon.%d", fid_base);
  if (me == 0) { int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, sizeof(Shm))) harness_error("shm"); close(fd); }
  GA_Sync();
  int fd = open(p.c_str(), O_RDWR);
  if (fd < 0) harness_error("shm open");
  S = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (S == MAP_FAILED) harness_error("shm map");
  close(fd);
  if (me == 0) for (int k = 0; k < 64; k++) S->holder[k] = -1;
  GA_Sync();
}
static long now_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000L + t.tv_nsec; }
static void jitter(Rng &r) {
  int s = (int)r.in(0, 15);
  if (s == 0) usleep((unsigned)r.in(1, 300));
  else if (s < 4) { long t = now_ns() + r.in(100, 20000); while (now_ns() < t) {} }
}

static void acc_case(Rng &gr, Group &g, long i) {
  int type = gr.pick(std::vector<int>{C_INT, C_LONG, C_FLOAT, C_DBL, C_SCPL, C_DCPL});
  int nd = (int)gr.in(1, 4);
  VL dims = rnd_dims(gr, nd, gr.one_in(4) ? 3000 : 60);
  LayoutOpt lo;
  if (!g.world) lo.kinds = {REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR};
  Layout L = rnd_layout(gr, dims, g.size(), lo);
  MArr m(type, dims);
  int hot = (int)gr.in(0, 2); // hot spot: all operations overlap one small patch
  begin_case(i, fmt("acc %s %s dims=%s %s hot=%d", g.desc.c_str(), tname(type), dimstr(dims).c_str(), L.str().c_str(), hot));
  opmark("create");
  int h = make_array(L, type, dims, g, "acc");
  fill_random(h, m, gr, g, 100);
  Patch centre = rnd_patch(gr, dims);
  for (int k = 0; k < nd; k++) centre.hi[k] = std::min(centre.hi[k], centre.lo[k] + gr.in(0, 5));
  int per = (int)gr.in(5, 40);
  std::vector<ga_nbhdl_t> nbs; std::vector<Buf *> held;
  Rng jr(sub_seed(i, 500 + me));
  for (int q = 0; q < g.size(); q++)
    for (int k = 0; k < per; k++) {
      // every rank's operations are known to all
      Patch p = hot == 0 ? centre : rnd_patch(gr, dims);
      if (hot == 1) for (int d = 0; d < nd; d++) { p.lo[d] = std::min(p.lo[d], centre.lo[d]); p.hi[d] = std::max(p.hi[d], centre.lo[d]); }
      VL pad = rnd_pad(gr, nd);
      int how = (int)gr.in(0, 5); // 0-2 acc, 3 nb, 4 scatter_acc, 5 strided
      uint64_t vs = gr.next();
      Val al = ival(type, gr.one_in(2) ? 1 : gr.in(-3, 3), gr.one_in(2) ? 0 : gr.in(-2, 2));
      char ab[16]; store(type, ab, al);
      Rng vr(vs);
      bool mine = q == g.rank;
      if (mine) jitter(jr);
      if (how == 4) {
        int n = (int)vr.in(1, 30);
        std::vector<int> sub; std::vector<char> v(n * m.es);
        VL ix(nd);
        for (int x = 0; x < n; x++) {
          for (int d = 0; d < nd; d++) { ix[d] = hot ? vr.in(centre.lo[d], centre.hi[d]) : vr.in(0, dims[d] - 1); sub.push_back((int)ix[d]); }
          Val val = rnd_val(type, vr, 50);
          store(type, &v[x * m.es], val);
          long l = m.lin(ix);
          m.set(l, vadd(type, m.get(l), vmul(type, al, val)));
        }
        if (mine) { opmark("scatter_acc"); NGA_Scatter_acc_flat(h, v.data(), sub.data(), n, ab); count("scatter_accs"); }
        continue;
      }
      VL skip(nd, 1);
      if (how == 5) for (auto &x : skip) x = vr.in(1, 3);
      Patch bp = p; // buffer patch: compressed for the strided variant
      for (int d = 0; d < nd; d++) { bp.lo[d] = 0; bp.hi[d] = (p.hi[d] - p.lo[d]) / skip[d]; }
      Buf *b = new Buf(type, bp, pad);
      each(bp, [&](const VL &c, long) {
        Val v = rnd_val(type, vr, 50);
        store(type, b->at(c), v);
        VL ix(nd); for (int d = 0; d < nd; d++) ix[d] = p.lo[d] + c[d] * skip[d];
        long l = m.lin(ix);
        m.set(l, vadd(type, m.get(l), vmul(type, al, v)));
      });
      bool keep = false;
      if (mine) {
        Dims plo(p.lo), phi(p.hi), ld(b->ld), sk(skip);
        if (how == 5) { opmark("strided acc"); NGA_Strided_acc(h, plo.i, phi.i, sk.i, b->ptr(), ld.i, ab); count("strided_accs"); }
        else if (how == 3) { ga_nbhdl_t nb; opmark("nbacc"); NGA_NbAcc(h, plo.i, phi.i, b->ptr(), ld.i, ab, &nb); nbs.push_back(nb); held.push_back(b); keep = true; count("nbaccs"); }
        else { opmark("acc"); NGA_Acc(h, plo.i, phi.i, b->ptr(), ld.i, ab); count("accs"); }
        count("elements_accumulated", bp.size());
        if (nbs.size() > 6) { opmark("nbwait"); for (auto &x : nbs) NGA_NbWait(&x); nbs.clear(); for (auto *x : held) delete x; held.clear(); keep = true; }
      }
      if (!keep) delete b;
    }
  opmark("final nbwait");
  for (auto &x : nbs) NGA_NbWait(&x);
  for (auto *x : held) delete x;
  opmark("sync");
  gsync(g);
  if (g.rank == g.size() - 1) check_all(h, m, fmt("lost-update:%s", kname(L.kind)), "after concurrent accumulates");
  check_local(h, m, fmt("lost-update-local:%s", kname(L.kind)));
  gsync(g);
  opmark("destroy");
  GA_Destroy(h);
}

struct Ev { long val, inc, t0, t1, cell; };
static void rdinc_case(Rng &gr, Group &g, long i) {
  int type = gr.pick(std::vector<int>{C_INT, C_LONG, C_LONGLONG});
  int nd = (int)gr.in(1, 3);
  VL dims = rnd_dims(gr, nd, 200);
  LayoutOpt lo;
  if (!g.world) lo.kinds = {REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR};
  Layout L = rnd_layout(gr, dims, g.size(), lo);
  MArr m(type, dims);
  int ncell = (int)gr.in(1, 4), per = (int)gr.in(10, 60), style = probe == "bigint" ? 2 : (int)gr.in(0, 3);
  begin_case(i, fmt("rdinc %s %s dims=%s %s cells=%d per=%d style=%d", g.desc.c_str(), tname(type), dimstr(dims).c_str(), L.str().c_str(), ncell, per, style));
  opmark("create");
  int h = make_array(L, type, dims, g, "rdi");
  fill_random(h, m, gr, g, style == 2 && type != C_INT ? 0 : 100000);
  std::vector<VL> cells;
  for (int k = 0; k < ncell; k++) { VL ix(nd); for (int d = 0; d < nd; d++) ix[d] = gr.in(0, dims[d] - 1); bool dup = false; for (auto &c : cells) if (c == ix) dup = true; if (!dup) cells.push_back(ix); }
  ncell = (int)cells.size();
  Rng r(sub_seed(i, 900 + me));
  std::vector<Ev> ev;
  for (int k = 0; k < per; k++) {
    jitter(r);
    Ev e;
    e.cell = r.in(0, ncell - 1);
    // positive and, in style 3, also negative totals: the order check only needs the returned values when increments are positive
    e.inc = style == 0 ? 1 : style == 1 ? r.in(1, 1000) : style == 2 ? (type == C_INT ? r.in(1, 100000) : (probe == "bigint" ? r.in(1, 5000000000L) : r.in(1, 2000000000L))) : r.in(1, 7);
    Dims ix(cells[e.cell]);
    opmark("read_inc");
    e.t0 = now_ns();
    e.val = r.one_in(2) ? NGA_Read_inc(h, ix.i, e.inc) : NGA_Read_inc64(h, ix.l, e.inc);
    e.t1 = now_ns();
    ev.push_back(e);
    count("read_incs");
  }
  opmark("sync");
  gsync(g);
  // gather the histories through a global array of longs
  int D[2] = {g.size(), per * 5}, C[2] = {1, per * 5};
  int hh = NGA_Create_handle();
  NGA_Set_data(hh, 2, D, C_LONG);
  GA_Set_chunk(hh, C);
  if (!g.world) GA_Set_pgroup(hh, g.h);
  if (!GA_Allocate(hh)) harness_error("history array");
  { int l[2] = {g.rank, 0}, u[2] = {g.rank, per * 5 - 1}, ld[1] = {per * 5}; opmark("history put"); NGA_Put(hh, l, u, ev.data(), ld); }
  gsync(g);
  if (g.rank == 0) {
    std::vector<Ev> all(g.size() * per);
    int l[2] = {0, 0}, u[2] = {g.size() - 1, per * 5 - 1}, ld[1] = {per * 5};
    opmark("history get");
    NGA_Get(hh, l, u, all.data(), ld);
    for (int c = 0; c < ncell; c++) {
      std::vector<Ev> v;
      for (auto &e : all) if (e.cell == c) v.push_back(e);
      std::sort(v.begin(), v.end(), [](const Ev &a, const Ev &b) { return a.val < b.val; });
      long want = m.get(m.lin(cells[c])).i;
      long maxt0 = 0; // largest start of the preceding operations: none may start after a later one ended
      int switches = 0;
      for (size_t k = 0; k < v.size(); k++) {
        if (v[k].val != want) violation(probe == "bigint" ? "rdinc-increment-over-int" : "rdinc-order", "increment %zu of cell %d returned %ld, the chain of increments gives %ld", k, c, v[k].val, want);
        want += v[k].inc;
        if (v[k].t1 < maxt0) violation("rdinc-realtime", "increment %zu of cell %d ended before an increment ordered earlier began", k, c);
        maxt0 = std::max(maxt0, v[k].t0);
        if (k && v[k].t0 < v[k - 1].t1) switches++;
      }
      count("rdinc_overlaps", switches);
      m.set(m.lin(cells[c]), ival(type, want));
    }
    check_all(h, m, "rdinc-final", "final counters");
  }
  gsync(g);
  opmark("destroy");
  GA_Destroy(hh);
  GA_Destroy(h);
}

static void mutex_case(Rng &gr, long i) {
  Group g = world_group();
  int nmx = (int)gr.in(1, gr.one_in(2) ? 3 : 17), per = (int)gr.in(4, 14), nested = (int)gr.in(0, 2);
  int reg = (int)gr.in(1, 40);
  LayoutOpt lo;
  VL dims = {nmx, reg};
  Layout L = rnd_layout(gr, dims, np, lo);
  begin_case(i, fmt("mutex n=%d per=%d nested=%d region=%d %s", nmx, per, nested, reg, L.str().c_str()));
  opmark("create");
  int h = make_array(L, C_LONG, dims, g, "mx");
  GA_Zero(h);
  opmark("create_mutexes");
  if (!GA_Create_mutexes(nmx)) violation("mutex-create", "GA_Create_mutexes(%d) failed", nmx);
  if (me == 0) { for (int k = 0; k < nmx; k++) { S->holder[k] = -1; S->entries[k] = 0; S->version[k] = 0; } }
  GA_Sync();
  Rng r(sub_seed(i, 900 + me));
  auto enter = [&](int k) {
    opmark("lock");
    if (S->holder[k] >= 0) count("lock_contended");
    GA_Lock(k);
    int was = S->holder[k].exchange(me);
    if (was != -1) violation("mutex-exclusion", "mutex %d granted to %d while %d holds it", k, me, was);
    S->entries[k]++;
    int l[2] = {k, 0}, u[2] = {k, reg - 1}, ld[1] = {reg};
    std::vector<long> v(reg, -7);
    opmark("get in section");
    NGA_Get(h, l, u, v.data(), ld);
    long want = S->version[k];
    for (int x = 0; x < reg; x++) if (v[x] != want * 1000 + (want ? x : 0)) violation("mutex-visibility", "mutex %d element %d is %ld in section %ld", k, x, v[x], want);
    long ver = want + 1;
    for (int x = 0; x < reg; x++) v[x] = ver * 1000 + x;
    opmark("put in section");
    GA_Init_fence();
    NGA_Put(h, l, u, v.data(), ld);
    GA_Fence();
    S->version[k] = ver;
    count("critical_sections");
  };
  auto leave = [&](int k) {
    int was = S->holder[k].exchange(-1);
    if (was != me) violation("mutex-exclusion", "mutex %d: holder is %d when %d unlocks", k, was, me);
    opmark("unlock");
    GA_Unlock(k);
  };
  for (int t = 0; t < per; t++) {
    jitter(r);
    int k = (int)r.in(0, nmx - 1);
    enter(k);
    if (r.one_in(3)) jitter(r);
    if (nested && k + 1 < nmx && r.one_in(2)) { // ordered nesting cannot deadlock
      int k2 = (int)r.in(k + 1, nmx - 1);
      enter(k2); jitter(r); leave(k2);
      count("nested_sections");
    }
    leave(k);
  }
  opmark("sync");
  GA_Sync();
  long total = 0;
  for (int k = 0; k < nmx; k++) {
    total += S->entries[k];
    if (me == 0) {
      int l[2] = {k, 0}, u[2] = {k, reg - 1}, ld[1] = {reg};
      std::vector<long> v(reg);
      NGA_Get(h, l, u, v.data(), ld);
      long w = S->version[k];
      for (int x = 0; x < reg; x++) if (v[x] != w * 1000 + (w ? x : 0)) violation("mutex-final", "mutex %d element %d is %ld after %ld sections", k, x, v[x], w);
      if (S->version[k] != S->entries[k]) violation("mutex-lost", "mutex %d: %ld versions for %ld sections", k, (long)S->version[k], (long)S->entries[k]);
    }
  }
  opmark("destroy_mutexes");
  if (!GA_Destroy_mutexes()) violation("mutex-destroy", "GA_Destroy_mutexes failed");
  GA_Destroy(h);
}

static void run_case(long i) {
  Rng r(sub_seed(i));
  int what = (int)r.in(0, 5);
  if (probe == "bigint") what = 1;
#ifdef PORT_MPI3
  if (what == 0) what = 1; // the installed MPI has no MPI_Win_create, which mpi3 mutexes need
#endif
  if (what == 0) { mutex_case(r, i); GA_Sync(); return; }
  Split sp = rnd_split(r, 7);
  if (Group *gp = sp.my()) {
    Rng gr(sub_seed(i, 100 + sp.mine));
    if (what <= 2) rdinc_case(gr, *gp, i); else acc_case(gr, *gp, i);
    progress("case %ld done", i);
  }
  free_split(sp);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  shm_open_all();
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
}
