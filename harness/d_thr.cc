// C23: one-sided operations issued at the same time by several threads of every process.
#include "gamon.h"
#include <pthread.h>
#include <sched.h>
#include <thread>
#include <mutex>
#include <atomic>
using namespace gm;

struct Op { int actor; char kind; int arr; Patch p; VL pad; uint64_t vs; long a_re, a_im; bool w64, nb; int wait_after; };
struct Arr { int h; int type; VL dims; MArr m; Layout L; Arr(int t, const VL &d) : h(0), type(t), dims(d), m(t, d) {} };
struct Tally { long puts = 0, gets = 0, accs = 0, nbs = 0, rdincs = 0, cmp = 0, queries = 0; };

static std::mutex vm;
static void tviol(const std::string &key, const std::string &d) { std::lock_guard<std::mutex> g(vm); violation(key, "%s", d.c_str()); }

// what one thread does: its own operations, in order
static void worker(int thr, const std::vector<Op> &ops, std::vector<Arr *> &arrs, int hc, int nctr, int nincs, std::vector<std::vector<long>> &seen, uint64_t seed, Tally &tl, pthread_barrier_t *bar) {
  Rng tr(seed);
  struct Open { Buf b; ga_nbhdl_t nb; const Op *o; std::vector<char> keep; char al[16]; };
  std::vector<Open *> open;
  int jitter = (int)tr.in(0, 3);
  auto pause = [&] { if (jitter == 1 && tr.one_in(3)) sched_yield(); else if (jitter == 2 && tr.one_in(4)) usleep((unsigned)tr.in(1, 60)); };
  auto check_get = [&](const Op &o, Buf &b) {
    Arr &A = *arrs[o.arr];
    long bad = 0;
    std::string first;
    each(o.p, [&](const VL &ix, long) {
      if (memcmp(b.at(ix), A.m.at(A.m.lin(ix)), A.m.es) && !bad++) first = "got " + vstr(A.type, load(A.type, b.at(ix))) + " want " + vstr(A.type, A.m.get(A.m.lin(ix)));
    });
    tl.cmp += o.p.size();
    if (bad) tviol("thread-get:value", fmt("thread %d get %s nb=%d: %ld of %ld wrong, %s", thr, o.p.str().c_str(), o.nb, bad, o.p.size(), first.c_str()));
    long w;
    if (!b.frame_ok(&w)) tviol("thread-get:frame", fmt("thread %d get %s wrote outside the patch at byte %ld", thr, o.p.str().c_str(), w));
  };
  auto finish_open = [&](Open *x) {
    NGA_NbWait(&x->nb);
    if (x->o->kind == 'g') check_get(*x->o, x->b);
    else if (x->keep != x->b.raw) tviol("thread-source:modified", fmt("source of non-blocking %c changed", x->o->kind));
    delete x;
  };
  pthread_barrier_wait(bar);
  int incs = nincs;
  for (const Op &o : ops) {
    pause();
    Arr &A = *arrs[o.arr];
    if (incs > 0 && tr.one_in(2)) {
      int c = (int)tr.in(0, nctr - 1);
      int s[1] = {c};
      int64_t s64[1] = {c};
      long v = tr.one_in(2) ? NGA_Read_inc(hc, s, 1) : NGA_Read_inc64(hc, s64, 1);
      seen[c].push_back(v);
      incs--; tl.rdincs++;
    }
    if (tr.one_in(6)) {
      VL ix;
      for (long d : A.dims) ix.push_back(tr.in(0, d - 1));
      Dims d(ix);
      int own = NGA_Locate(A.h, d.i);
      if (A.L.kind != BCYC && A.L.kind != SCALA && A.L.kind != TILED && A.L.kind != TILEDIRR) {
        int lo[8], hi[8];
        NGA_Distribution(A.h, own, lo, hi);
        for (size_t k = 0; k < ix.size(); k++) if (ix[k] < lo[k] || ix[k] > hi[k]) tviol("thread-query", fmt("Locate says %d, whose Distribution does not hold the element", own));
      }
      tl.queries++;
    }
    Val al = ival(A.type, o.a_re, o.a_im);
    Open *x = new Open{Buf(A.type, o.p, o.pad), {}, &o, {}, {}};
    store(A.type, x->al, al);
    if (o.kind != 'g') {
      Rng vr(o.vs);
      each(o.p, [&](const VL &ix, long) { store(A.type, x->b.at(ix), rnd_val(A.type, vr)); });
      x->keep = x->b.raw;
    }
    Dims lo(o.p.lo), hi(o.p.hi), ld(x->b.ld);
    if (o.nb) {
      if (o.w64) { if (o.kind == 'p') NGA_NbPut64(A.h, lo.l, hi.l, x->b.ptr(), ld.l, &x->nb); else if (o.kind == 'g') NGA_NbGet64(A.h, lo.l, hi.l, x->b.ptr(), ld.l, &x->nb); else NGA_NbAcc64(A.h, lo.l, hi.l, x->b.ptr(), ld.l, x->al, &x->nb); }
      else { if (o.kind == 'p') NGA_NbPut(A.h, lo.i, hi.i, x->b.ptr(), ld.i, &x->nb); else if (o.kind == 'g') NGA_NbGet(A.h, lo.i, hi.i, x->b.ptr(), ld.i, &x->nb); else NGA_NbAcc(A.h, lo.i, hi.i, x->b.ptr(), ld.i, x->al, &x->nb); }
      open.push_back(x);
      tl.nbs++;
      while ((int)open.size() > o.wait_after) {
        size_t k = (size_t)tr.in(0, (long)open.size() - 1);
        Open *y = open[k];
        open.erase(open.begin() + k);
        finish_open(y);
      }
    } else {
      if (o.kind == 'p') { put(A.h, o.p, x->b, o.w64); tl.puts++; }
      else if (o.kind == 'a') { acc(A.h, o.p, x->b, x->al, o.w64); tl.accs++; }
      else { get(A.h, o.p, x->b, o.w64); tl.gets++; check_get(o, x->b); }
      if (o.kind != 'g' && x->keep != x->b.raw) tviol("thread-source:modified", fmt("source of %c changed", o.kind));
      delete x;
    }
  }
  for (Open *x : open) finish_open(x);
  while (incs-- > 0) {
    int c = (int)tr.in(0, nctr - 1);
    int s[1] = {c};
    seen[c].push_back(NGA_Read_inc(hc, s, 1));
    tl.rdincs++;
  }
}

static void run_case(long i) {
  Rng r(sub_seed(i));
  Group g = world_group();
  int T = (int)r.in(2, 5);
  int actors = T * np;
  int na = (int)r.in(1, 2);
  std::vector<Arr *> arrs;
  std::string desc;
  for (int a = 0; a < na; a++) {
    int type = r.pick(ALLTYPES), nd = rnd_nd(r);
    VL dims = r.one_in(8) ? VL{r.in(60, 300), r.in(60, 300)} : rnd_dims(r, nd, 3000);
    LayoutOpt lo;
    Layout L = rnd_layout(r, dims, g.size(), lo);
    Arr *A = new Arr(type, dims);
    A->L = L;
    arrs.push_back(A);
    desc += fmt(" %s dims=%s %s", tname(type), dimstr(dims).c_str(), L.str().c_str());
  }
  int ctype = r.one_in(2) ? C_INT : C_LONG, nctr = (int)r.in(1, 6);
  begin_case(i, fmt("threads=%d%s counters=%d", T, desc.c_str(), nctr));
  opmark("create");
  for (Arr *A : arrs) { A->h = make_array(A->L, A->type, A->dims, g, "thr"); fill_random(A->h, A->m, r, g); }
  int cd[1] = {nctr};
  int hc = NGA_Create(ctype, 1, cd, (char *)"ctr", NULL);
  GA_Zero(hc);
  std::vector<long> total(nctr, 0);
  int epochs = (int)r.in(2, 4);
  for (int e = 0; e < epochs; e++) {
    std::vector<Op> ops;
    struct Used { int actor; int arr; Patch p; };
    std::vector<Used> wr, rd, ac;
    int style = (int)r.in(0, 4), nops = (int)r.in(2, 8) * actors;
    bool nbmix = r.one_in(2);
    int depth = (int)r.in(0, 6);
    for (int k = 0; k < nops; k++) {
      Op o;
      o.actor = (int)r.in(0, actors - 1);
      o.arr = (int)r.in(0, na - 1);
      Arr &A = *arrs[o.arr];
      o.kind = style == 0 ? 'p' : style == 1 ? 'a' : style == 2 ? 'g' : "pag"[r.in(0, 2)];
      if (o.kind == 'a' && A.type == C_LONGLONG) o.kind = 'p';
      o.pad = rnd_pad(r, (int)A.dims.size());
      o.vs = r.next(); o.w64 = r.one_in(2); o.nb = nbmix && r.one_in(2); o.wait_after = depth;
      o.a_re = r.one_in(3) ? 1 : r.in(-4, 4); o.a_im = r.one_in(2) ? 0 : r.in(-3, 3);
      bool ok = false;
      for (int t = 0; t < 6 && !ok; t++) {
        o.p = rnd_patch(r, A.dims);
        if (t > 1) for (size_t q = 0; q < A.dims.size(); q++) o.p.hi[q] = std::min(o.p.hi[q], o.p.lo[q] + r.in(0, 3));
        // with non-blocking operations around, even a thread's own operations are kept apart
        auto clash = [&](std::vector<Used> &v) { for (auto &x : v) if (x.arr == o.arr && (x.actor != o.actor || nbmix) && x.p.overlaps(o.p)) return true; return false; };
        if (o.kind == 'p') ok = !clash(wr) && !clash(rd) && !clash(ac);
        else if (o.kind == 'a') { ok = !clash(wr) && !clash(rd); for (auto &x : rd) if (x.arr == o.arr && x.p.overlaps(o.p)) ok = false; for (auto &x : wr) if (x.arr == o.arr && x.p.overlaps(o.p)) ok = false; }
        else { ok = !clash(wr) && !clash(ac); for (auto &x : wr) if (x.arr == o.arr && x.p.overlaps(o.p)) ok = false; for (auto &x : ac) if (x.arr == o.arr && x.p.overlaps(o.p)) ok = false; }
        // puts over a patch the thread read before are left out too: gets are compared with the start of the epoch
        if (o.kind == 'p') for (auto &x : rd) if (x.arr == o.arr && x.p.overlaps(o.p)) ok = false;
        if (o.kind == 'p') for (auto &x : ac) if (x.arr == o.arr && x.p.overlaps(o.p)) ok = false;
      }
      if (!ok) continue;
      (o.kind == 'p' ? wr : o.kind == 'a' ? ac : rd).push_back({o.actor, o.arr, o.p});
      ops.push_back(o);
    }
    // counters
    std::vector<int> nincs(actors, 0);
    long all = 0;
    if (r.one_in(2)) for (auto &x : nincs) all += x = (int)r.in(0, 12);
    std::vector<std::vector<Op>> mine(T);
    for (auto &o : ops) if (o.actor / T == me) mine[o.actor % T].push_back(o);
    std::vector<std::vector<std::vector<long>>> seen(T, std::vector<std::vector<long>>(nctr));
    std::vector<Tally> tl(T);
    opmark("threads epoch %d", e);
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, nullptr, (unsigned)T);
    std::vector<std::thread> th;
    bool main_works = r.one_in(2);
    for (int t = main_works ? 1 : 0; t < T; t++)
      th.emplace_back([&, t] { worker(t, mine[t], arrs, hc, nctr, nincs[me * T + t], seen[t], sub_seed(i, 9000 + 100 * e + me * T + t), tl[t], &bar); });
    if (main_works) worker(0, mine[0], arrs, hc, nctr, nincs[me * T], seen[0], sub_seed(i, 9000 + 100 * e + me * T), tl[0], &bar);
    for (auto &t : th) t.join();
    pthread_barrier_destroy(&bar);
    for (auto &t : tl) {
      count("puts", t.puts); count("gets", t.gets); count("accs", t.accs); count("nonblocking", t.nbs); count("read_incs", t.rdincs); count("thread_elements_compared", t.cmp); count("queries", t.queries);
    }
    count("thread_epochs", T);
    for (auto &o : ops) {
      if (o.kind == 'g') continue;
      Arr &A = *arrs[o.arr];
      Rng vr(o.vs);
      Val al = ival(A.type, o.a_re, o.a_im);
      each(o.p, [&](const VL &ix, long) {
        long l = A.m.lin(ix);
        Val v = rnd_val(A.type, vr);
        if (o.kind == 'p') A.m.set(l, v); else A.m.set(l, vadd(A.type, A.m.get(l), vmul(A.type, al, v)));
      });
    }
    GA_Sync();
    // every ticket of every counter was handed out exactly once
    if (all) {
      opmark("counters");
      std::vector<long> got(nctr, 0);
      int one[1];
      for (int c = 0; c < nctr; c++) {
        long n = 0;
        for (int t = 0; t < T; t++) n += (long)seen[t][c].size();
        GA_Lgop(&n, 1, (char *)"+");
        std::vector<long> hit(n + 1, 0);
        for (int t = 0; t < T; t++) for (long v : seen[t][c]) {
          if (v < total[c] || v >= total[c] + n) violation("thread-rdinc:range", "counter %d handed out %ld, expected %ld to %ld", c, v, total[c], total[c] + n - 1);
          hit[v - total[c]]++;
        }
        GA_Lgop(hit.data(), n + 1, (char *)"+");
        for (long k = 0; k < n; k++) if (hit[k] != 1) violation("thread-rdinc:ticket", "counter %d handed out %ld %ld times", c, total[c] + k, hit[k]);
        total[c] += n;
        int lo[1] = {c};
        long v = 0; int iv = 0;
        NGA_Get(hc, lo, lo, ctype == C_INT ? (void *)&iv : (void *)&v, one);
        if ((ctype == C_INT ? iv : v) != total[c]) violation("thread-rdinc:value", "counter %d holds %ld, %ld increments were made", c, ctype == C_INT ? (long)iv : v, total[c]);
        count("tickets", n);
      }
    }
    for (Arr *A : arrs) {
      std::string key = fmt("thread-content:%s", kname(A->L.kind));
      check_all(A->h, A->m, key, fmt("after epoch %d", e).c_str());
      check_local(A->h, A->m, "thread-local-" + key);
    }
    GA_Sync();
  }
  opmark("destroy");
  GA_Destroy(hc);
  for (Arr *A : arrs) { GA_Destroy(A->h); delete A; }
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv, true, MPI_THREAD_MULTIPLE);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
}
