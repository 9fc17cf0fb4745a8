// C05: fences, barriers and program order.
#include "gamon.h"
#include <atomic>
#include <time.h>
using namespace gm;

struct Shm { std::atomic<long> flag[64], ack[64], entered[8]; };
static Shm *S;
static void shm_open_all() {
  std::string p = outdir + fmt("/shm.mon.%d", fid_base);
  if (me == 0) { int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, sizeof(Shm))) harness_error("shm"); close(fd); }
  GA_Sync();
  int fd = open(p.c_str(), O_RDWR);
  if (fd < 0) harness_error("shm open");
  S = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (S == MAP_FAILED) harness_error("shm map");
  close(fd);
  GA_Sync();
}
static long now_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000L + t.tv_nsec; }
static void jitter(Rng &r) {
  int s = (int)r.in(0, 9);
  if (s == 0) usleep((unsigned)r.in(1, 400));
  else if (s < 4) { long t = now_ns() + r.in(100, 20000); while (now_ns() < t) {} }
}

// One write of random kind to the patch; afterwards all its elements hold val(lin).
static const char *write_patch(int h, const MArr &m, const Patch &p, Rng &r, std::function<Val(long)> val, bool accok, const VL &dims) {
  int nd = m.nd(), kind = (int)r.in(0, accok ? 7 : 5);
  if (m.type == C_LONGLONG && kind > 5) kind = 0;
  Buf b(m.type, p, rnd_pad(r, nd));
  std::vector<char> flat; std::vector<int> sub;
  Val one = ival(m.type, 1); char ob[16]; store(m.type, ob, one);
  each(p, [&](const VL &ix, long) {
    long l = m.lin(ix);
    Val v = val(l);
    if (kind > 5) { // accumulate the difference
      Val o = m.get(l);
      v.i -= o.i; v.re -= o.re; v.im -= o.im;
    }
    store(m.type, b.at(ix), v);
    char e[16]; store(m.type, e, v); flat.insert(flat.end(), e, e + m.es);
    for (long x : ix) sub.push_back((int)x);
  });
  Dims lo(p.lo), hi(p.hi), ld(b.ld), one_skip(VL(nd, 1));
  int n = (int)p.size();
  switch (kind) {
  case 0: opmark("put"); NGA_Put(h, lo.i, hi.i, b.ptr(), ld.i); return "put";
  case 1: { ga_nbhdl_t nb; opmark("nbput"); NGA_NbPut(h, lo.i, hi.i, b.ptr(), ld.i, &nb); NGA_NbWait(&nb); return "nbput"; }
  case 2: opmark("scatter"); NGA_Scatter_flat(h, flat.data(), sub.data(), n); return "scatter";
  case 3: opmark("strided put"); NGA_Strided_put(h, lo.i, hi.i, one_skip.i, b.ptr(), ld.i); return "strided-put";
  case 4: { // periodic: shifted by one period
    VL sl = p.lo, sh = p.hi; for (int d = 0; d < nd; d++) if (r.one_in(2)) { sl[d] -= dims[d]; sh[d] -= dims[d]; }
    Dims pl(sl), ph(sh); opmark("periodic put"); NGA_Periodic_put(h, pl.i, ph.i, b.ptr(), ld.i); return "periodic-put"; }
  case 5: { // put in pieces
    Patch a = p, c = p; int d = (int)r.in(0, nd - 1);
    if (p.hi[d] > p.lo[d]) { long cut = r.in(p.lo[d], p.hi[d] - 1); a.hi[d] = cut; c.lo[d] = cut + 1; }
    Dims al(a.lo), ah(a.hi), cl(c.lo), ch(c.hi);
    opmark("put pieces");
    NGA_Put(h, al.i, ah.i, b.at(a.lo), ld.i);
    if (p.hi[d] > p.lo[d]) NGA_Put(h, cl.i, ch.i, b.at(c.lo), ld.i);
    return "put-pieces"; }
  case 6: opmark("acc"); NGA_Acc(h, lo.i, hi.i, b.ptr(), ld.i, ob); return "acc";
  default: opmark("scatter_acc"); NGA_Scatter_acc_flat(h, flat.data(), sub.data(), n, ob); return "scatter_acc";
  }
}

// ---- A: fence ------------------------------------------------------------
static void fence_case(Rng &gr, Group &g, long i) {
  int type = gr.pick(ALLTYPES), nd = (int)gr.in(1, 3);
  int n = g.size();
  VL dims = rnd_dims(gr, nd, 400);
  dims.insert(dims.begin(), n); nd++; // one slab per writer
  LayoutOpt lo;
  if (!g.world) lo.kinds = {REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR};
  Layout L = rnd_layout(gr, dims, n, lo);
  MArr m(type, dims);
  int rounds = (int)gr.in(3, 10);
  begin_case(i, fmt("fence %s %s dims=%s %s rounds=%d", g.desc.c_str(), tname(type), dimstr(dims).c_str(), L.str().c_str(), rounds));
  opmark("create");
  int h = make_array(L, type, dims, g, "fence");
  VL pd = {n}; Layout PL;
  int prog = make_array(PL, C_INT, pd, g, "progress");
  GA_Zero(h); GA_Zero(prog);
  S->flag[me] = 0; S->ack[me] = 0;
  gsync(g);
  int wme = g.rank, src = (g.rank + n - 1) % n, dst = (g.rank + 1) % n;
  Rng r(sub_seed(i, 700 + me));
  auto seq = [&](long l, long round) { Val v; long x = (l * 7 + round * 131) % 1000 + round; v.i = x; v.re = x; v.im = is_cpl(type) ? -x : 0; if (!is_int(type)) v.i = 0; else v.re = v.im = 0; return v; };
  Patch mine = whole(dims), theirs = whole(dims);
  mine.lo[0] = mine.hi[0] = wme; theirs.lo[0] = theirs.hi[0] = src;
  int gs = g.mem[src], gd = g.mem[dst];
  // direct access to my own block of the data
  int bl[8], bh[8], bld[8]; char *bp = nullptr; bool direct = false; Patch own;
  if (GA_Total_blocks(h) < 0) {
    NGA_Distribution(h, GA_Pgroup_nodeid(GA_Get_pgroup(h)), bl, bh);
    direct = bl[0] >= 0 && bh[0] >= bl[0];
    for (int k = 0; k < nd; k++) { own.lo.push_back(bl[k]); own.hi.push_back(bh[k]); if (bh[k] < bl[k]) direct = false; }
    if (direct) { void *q; NGA_Access(h, bl, bh, &q, bld); bp = (char *)q; }
  }
  auto progress_once = [&]() { int ix = (int)r.in(0, n - 1); NGA_Read_inc(prog, &ix, 1); };
  for (int round = 1; round <= rounds; round++) {
    jitter(r);
    std::string kinds;
    int nest = (int)r.in(0, 3) == 0;
    opmark("init_fence");
    GA_Init_fence();
    if (nest) GA_Init_fence();
    // the slab in one write or in disjoint slices
    Patch rest = mine;
    int d = nd - 1;
    while (r.one_in(2) && rest.hi[d] > rest.lo[d]) {
      Patch part = rest;
      long cut = r.in(rest.lo[d], rest.hi[d] - 1);
      part.hi[d] = cut; rest.lo[d] = cut + 1;
      kinds += std::string(write_patch(h, m, part, r, [&](long l) { return seq(l, round); }, true, dims)) + " ";
    }
    std::string last = write_patch(h, m, rest, r, [&](long l) { return seq(l, round); }, true, dims);
    kinds += last;
    opmark("fence after %s", kinds.c_str());
    GA_Fence();
    if (nest) GA_Fence();
    each(mine, [&](const VL &ix, long) { long l = m.lin(ix); m.set(l, seq(l, round)); });
    count("fences");
    S->flag[me] = round;
    bool seen = false;
    while (!seen || S->ack[gd] < round) {
      if (!seen && S->flag[gs] >= round) {
        // the writer's fence is over: nothing may be missing
        auto chk = [&](const VL &ix, const char *q, const char *how) {
          char e[16]; store(type, e, seq(m.lin(ix), round));
          if (memcmp(e, q, m.es)) { std::string s; for (long x : ix) s += fmt("%ld,", x); violation(fmt("fence:%s", how), "round %d of writer %d: element (%s) read by %s is %s, want %s", round, src, s.c_str(), how, vstr(type, load(type, q)).c_str(), vstr(type, load(type, e)).c_str()); }
        };
        if (direct) { Patch z = own; bool em = false; for (int k = 0; k < nd; k++) { z.lo[k] = std::max(z.lo[k], theirs.lo[k]); z.hi[k] = std::min(z.hi[k], theirs.hi[k]); if (z.hi[k] < z.lo[k]) em = true; }
          if (!em) { each(z, [&](const VL &ix, long) { long off = 0; for (int k = 0; k < nd; k++) off = off * (k ? bld[k - 1] : 1) + (ix[k] - own.lo[k]); chk(ix, bp + off * m.es, "direct"); }); count("fence_direct", z.size()); } }
        Buf b(type, theirs, VL(nd, 0));
        opmark("get after fence");
        get(h, theirs, b, false);
        each(theirs, [&](const VL &ix, long) { chk(ix, b.at(ix), "get"); });
        count("fence_get", theirs.size());
        S->ack[me] = round;
        seen = true;
      }
      opmark("progress");
      progress_once();
    }
  }
  if (direct) NGA_Release(h, bl, bh);
  gsync(g);
  opmark("destroy");
  GA_Destroy(prog); GA_Destroy(h);
}

// ---- B: barriers ---------------------------------------------------------
static void barrier_case(Rng &gr, Split &sp, Group &g, long i) {
  int type = gr.pick(ALLTYPES), nd = (int)gr.in(1, 3), n = g.size();
  VL dims = rnd_dims(gr, nd, 600);
  LayoutOpt lo;
  if (!g.world) lo.kinds = {REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR};
  Layout L = rnd_layout(gr, dims, n, lo);
  MArr m(type, dims);
  int rounds = (int)gr.in(4, 12), how = (int)gr.in(0, 3);
  begin_case(i, fmt("barrier %s %s dims=%s %s rounds=%d how=%d", g.desc.c_str(), tname(type), dimstr(dims).c_str(), L.str().c_str(), rounds, how));
  opmark("create");
  int h = make_array(L, type, dims, g, "bar");
  GA_Zero(h);
  std::atomic<long> &ent = S->entered[sp.mine];
  if (g.rank == 0) ent = 0;
  gsync(g);
  Rng r(sub_seed(i, 700 + me));
  long expect = 0;
  int old = GA_Pgroup_get_default();
  if (how == 2 && !g.world) GA_Pgroup_set_default(g.h);
  auto bar = [&]() {
    jitter(r);
    ent++;
    expect += n;
    opmark("sync how=%d", how);
    if (g.world) { if (how == 1) GA_Pgroup_sync(GA_Pgroup_get_world()); else if (how == 3) { char c = 0; GA_Brdcst(&c, 0, 0); GA_Sync(); } else GA_Sync(); }
    else if (how == 2) GA_Sync(); else GA_Pgroup_sync(g.h);
    long got = ent;
    if (got < expect) violation("barrier-left-early", "left barrier %ld with %ld of %ld entered", expect / n, got, expect);
    count("barriers");
  };
  for (int e = 0; e < rounds; e++) {
    // disjoint columns of the last-but-shared index space: element l belongs to rank own[l]
    std::vector<Patch> ps; std::vector<int> who;
    for (int k = 0, t = (int)gr.in(1, 3 * n); k < t; k++) { Patch p = rnd_patch(gr, dims); if (!overlaps_any(p, ps)) { ps.push_back(p); who.push_back((int)gr.in(0, n - 1)); } }
    uint64_t vs = gr.next();
    auto val = [&](long l) { Rng q(vs + (uint64_t)l); return rnd_val(type, q, 1000); };
    for (size_t k = 0; k < ps.size(); k++) if (who[k] == g.rank) { write_patch(h, m, ps[k], r, val, true, dims); count("writes"); }
    for (auto &p : ps) each(p, [&](const VL &ix, long) { long l = m.lin(ix); m.set(l, val(l)); });
    bar();
    check_local(h, m, fmt("sync-direct:%s", kname(L.kind)));
    Patch p = rnd_patch(gr, dims);
    if ((int)r.in(0, 1)) check_patch(h, m, p, fmt("sync-get:%s", kname(L.kind)), "after synchronisation");
    bar();
  }
  if (how == 2 && !g.world) GA_Pgroup_set_default(old);
  gsync(g);
  opmark("destroy");
  GA_Destroy(h);
}

// ---- C: one process's own operations -------------------------------------
static void order_case(Rng &gr, Group &g, long i) {
  int type = gr.pick(ALLTYPES), nd = (int)gr.in(1, 3), n = g.size();
  VL dims = rnd_dims(gr, nd, 800);
  LayoutOpt lo;
  if (!g.world) lo.kinds = {REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR};
  Layout L = rnd_layout(gr, dims, n, lo);
  MArr m(type, dims);
  int per = (int)gr.in(10, 60);
  begin_case(i, fmt("order %s %s dims=%s %s ops=%d", g.desc.c_str(), tname(type), dimstr(dims).c_str(), L.str().c_str(), per));
  opmark("create");
  int h = make_array(L, type, dims, g, "order");
  fill_random(h, m, gr, g, 1000);
  // disjoint work areas
  std::vector<Patch> area;
  for (int q = 0; q < n; q++) { Patch p; bool ok = false; for (int t = 0; t < 20 && !ok; t++) { p = rnd_patch(gr, dims); if (t > 8) for (int d = 0; d < nd; d++) p.hi[d] = std::min(p.hi[d], p.lo[d] + 2); ok = !overlaps_any(p, area); } if (ok) area.push_back(p); }
  // the final contents follow from running every rank's program on the model
  for (int q = 0; q < (int)area.size(); q++) {
    Rng r(sub_seed(i, 800 + q));
    bool mine = q == g.rank;
    Patch A = area[q];
    for (int k = 0; k < per; k++) {
      Patch p = A;
      if (r.one_in(2)) for (int d = 0; d < nd; d++) { p.lo[d] = r.in(A.lo[d], A.hi[d]); p.hi[d] = r.in(p.lo[d], A.hi[d]); }
      else if (r.one_in(2)) for (int d = 0; d < nd; d++) { p.lo[d] = p.hi[d] = r.in(A.lo[d], A.hi[d]); }
      uint64_t vs = r.next();
      auto val = [&](long l) { Rng z(vs + (uint64_t)l); return rnd_val(type, z, 1000); };
      int act = (int)r.in(0, 3);
      if (act < 3) {
        Rng wr(r.next());
        if (mine) { const char *w = write_patch(h, m, p, wr, val, true, dims); count(std::string("own_") + w); }
        each(p, [&](const VL &ix, long) { long l = m.lin(ix); m.set(l, val(l)); });
      }
      if (act >= 2 && mine) {
        count("own_reads");
        Rng rr(vs ^ 77);
        if (rr.one_in(2)) check_patch(h, m, p, fmt("own-order-get:%s", kname(L.kind)), "own get after own writes");
        else {
          std::vector<int> sub; std::vector<long> ls;
          each(p, [&](const VL &ix, long) { for (long x : ix) sub.push_back((int)x); ls.push_back(m.lin(ix)); });
          std::vector<char> v(ls.size() * m.es);
          opmark("own gather");
          NGA_Gather_flat(h, v.data(), sub.data(), (int)ls.size());
          for (size_t x = 0; x < ls.size(); x++) if (memcmp(&v[x * m.es], m.at(ls[x]), m.es)) violation(fmt("own-order-gather:%s", kname(L.kind)), "element %ld is %s want %s", ls[x], vstr(type, load(type, &v[x * m.es])).c_str(), vstr(type, m.get(ls[x])).c_str());
        }
      }
    }
  }
  opmark("sync");
  gsync(g);
  if (g.rank == n - 1) check_all(h, m, fmt("own-order-final:%s", kname(L.kind)), "after own-order programs");
  check_local(h, m, fmt("own-order-local:%s", kname(L.kind)));
  gsync(g);
  opmark("destroy");
  GA_Destroy(h);
}

// ---- D: collective operations synchronise unless masked -------------------
static void mask_case(Rng &gr, long i) {
  Group g = world_group();
  int type = gr.pick(std::vector<int>{C_INT, C_LONG, C_FLOAT, C_DBL, C_SCPL, C_DCPL}), nd = (int)gr.in(1, 3), n = np;
  VL dims = rnd_dims(gr, nd, 500);
  LayoutOpt lo({REG, CHUNK, IRREG, BCYC});
  Layout L = rnd_layout(gr, dims, n, lo), L2 = rnd_layout(gr, dims, n, LayoutOpt({REG, IRREG, CHUNK}));
  if (L.kind == BCYC) L2 = L;
  MArr a(type, dims), b(type, dims);
  int rounds = (int)gr.in(4, 10);
  begin_case(i, fmt("mask %s dims=%s %s | %s rounds=%d", tname(type), dimstr(dims).c_str(), L.str().c_str(), L2.str().c_str(), rounds));
  opmark("create");
  int ha = make_array(L, type, dims, g, "ma"), hb = make_array(L2, type, dims, g, "mb");
  fill_random(ha, a, gr, g, 50); fill_random(hb, b, gr, g, 50);
  if (me == 0) S->entered[0] = 0, S->entered[1] = 0;
  GA_Sync();
  Rng r(sub_seed(i, 700 + me));
  long expect = 0;
  auto v0 = [&](long x) { return ival(type, x); };
  for (int e = 0; e < rounds; e++) {
    int op = (int)gr.in(0, 9), first = gr.one_in(2) ? 1 : 0, last = gr.one_in(2) ? 1 : 0;
    if (gr.one_in(2)) first = last = -1; // no mask
    // unsynchronised writes to both arrays; the operation's own synchronisation must order them
    for (int w = 0; w < 2; w++) {
      MArr &m = w ? b : a; int h = w ? hb : ha;
      std::vector<Patch> ps;
      for (int k = 0, t = (int)gr.in(0, 2 * n); k < t; k++) {
        Patch p = rnd_patch(gr, dims); int who = (int)gr.in(0, n - 1); uint64_t vs = gr.next();
        if (overlaps_any(p, ps)) continue;
        ps.push_back(p);
        auto val = [&](long l) { Rng q(vs + (uint64_t)l); return rnd_val(type, q, 50); };
        if (who == me) write_patch(h, m, p, r, val, false, dims);
        each(p, [&](const VL &ix, long) { long l = m.lin(ix); m.set(l, val(l)); });
      }
    }
    if (first == 0) { opmark("explicit begin sync"); GA_Sync(); }
    jitter(r);
    S->entered[0]++; expect += n;
    if (first >= 0) { GA_Mask_sync(first, last); count("masked_ops"); }
    long sc = gr.in(-3, 3), sd = gr.in(-3, 3);
    Val vs = v0(sc), vd = v0(sd);
    char bs[16], bd[16]; store(type, bs, vs); store(type, bd, vd);
    const char *nm = "";
    switch (op) {
    case 0: nm = "zero"; opmark("zero"); GA_Zero(hb); for (long k = 0; k < b.n; k++) b.set(k, v0(0)); break;
    case 1: nm = "fill"; opmark("fill"); GA_Fill(hb, bs); for (long k = 0; k < b.n; k++) b.set(k, vs); break;
    case 2: nm = "copy"; opmark("copy"); GA_Copy(ha, hb); b.d = a.d; break;
    case 3: nm = "scale"; opmark("scale"); GA_Scale(hb, bs); for (long k = 0; k < b.n; k++) b.set(k, vmul(type, vs, b.get(k))); break;
    case 4: nm = "copypatch"; { Dims l0(whole(dims).lo), h0(whole(dims).hi); opmark("copy_patch"); NGA_Copy_patch('n', ha, l0.i, h0.i, hb, l0.i, h0.i); b.d = a.d; } break;
    case 5: nm = "add"; opmark("add"); GA_Add(bs, ha, bd, hb, hb); for (long k = 0; k < b.n; k++) b.set(k, vadd(type, vmul(type, vs, a.get(k)), vmul(type, vd, b.get(k)))); break;
    case 6: nm = "fillpatch"; { Patch p = rnd_patch(gr, dims); Dims l0(p.lo), h0(p.hi); opmark("fill_patch"); NGA_Fill_patch(hb, l0.i, h0.i, bs); each(p, [&](const VL &ix, long) { b.set(b.lin(ix), vs); }); } break;
    case 7: nm = "zeropatch"; { Patch p = rnd_patch(gr, dims); Dims l0(p.lo), h0(p.hi); opmark("zero_patch"); NGA_Zero_patch(hb, l0.i, h0.i); each(p, [&](const VL &ix, long) { b.set(b.lin(ix), v0(0)); }); } break;
    case 8: nm = "scalepatch"; { Patch p = rnd_patch(gr, dims); Dims l0(p.lo), h0(p.hi); opmark("scale_patch"); NGA_Scale_patch(hb, l0.i, h0.i, bs); each(p, [&](const VL &ix, long) { b.set(b.lin(ix), vmul(type, vs, b.get(b.lin(ix)))); }); } break;
    default: nm = "addpatch"; { Patch p = rnd_patch(gr, dims); Dims l0(p.lo), h0(p.hi); opmark("add_patch"); NGA_Add_patch(bs, ha, l0.i, h0.i, bd, hb, l0.i, h0.i, hb, l0.i, h0.i); each(p, [&](const VL &ix, long) { long k = b.lin(ix); b.set(k, vadd(type, vmul(type, vs, a.get(k)), vmul(type, vd, b.get(k)))); }); } break;
    }
    count("collective_ops");
    if (last != 0) {
      long got = S->entered[0];
      if (got < expect) violation(fmt("op-left-early:%s", nm), "%s with end synchronisation returned with %ld of %ld entered", nm, got, expect);
    } else { opmark("explicit end sync"); GA_Sync(); }
    check_local(hb, b, fmt("op-direct:%s", nm));
    if (r.one_in(2)) check_patch(hb, b, rnd_patch(r, dims), fmt("op-get:%s", nm), nm);
    if (r.one_in(3)) check_patch(ha, a, rnd_patch(r, dims), fmt("op-input:%s", nm), nm);
    GA_Sync();
  }
  opmark("destroy");
  GA_Destroy(ha); GA_Destroy(hb);
}

static void run_case(long i) {
  Rng r(sub_seed(i));
  int what = (int)r.in(0, 9);
  if (what == 0 || what == 1) { mask_case(r, i); GA_Sync(); return; }
  Split sp = rnd_split(r, 7);
  if (Group *gp = sp.my()) {
    Rng gr(sub_seed(i, 100 + sp.mine));
    if (what <= 4) fence_case(gr, *gp, i); else if (what <= 7) order_case(gr, *gp, i); else barrier_case(gr, sp, *gp, i);
    progress("case %ld done", i);
  }
  free_split(sp);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  shm_open_all();
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
}
