// C14: scan, pack, unpack, enumerate and bin operations against the sequential definition.
#include "gamon.h"
using namespace gm;
extern "C" {
void ga_patch_enum_(long *, long *, long *, void *, void *);
void ga_scan_copy_(long *, long *, long *, long *, long *);
void ga_scan_add_(long *, long *, long *, long *, long *, long *);
void ga_pack_(long *, long *, long *, long *, long *, long *);
void ga_unpack_(long *, long *, long *, long *, long *, long *);
void ga_bin_index_(long *, long *, long *, long *, long *, long *, long *);
void ga_bin_sorter_(long *, long *, long *);
void nga_bin_index_(long *, long *, long *, long *, long *, long *, long *);
void nga_bin_sorter_(long *, long *, long *);
}

static void upload(int h, const MArr &m, Group &g) {
  gsync(g);
  if (g.rank == 0) {
    Patch p = whole(m.dims);
    Buf b(m.type, p, VL(1, 0));
    memcpy(b.ptr(), m.d.data(), m.n * m.es);
    put(h, p, b, false);
  }
  gsync(g);
}
static void fillv(MArr &m, Rng &r) { for (long i = 0; i < m.n; i++) m.set(i, rnd_val(m.type, r, 1000)); }
static bool nz(int t, const Val &v) { return is_int(t) ? v.i != 0 : v.re != 0 || v.im != 0; }

// flag patterns: which elements are set
static void fillmask(MArr &m, Rng &r, int h) {
  int how = (int)r.in(0, 8);
  long k = r.in(0, m.n - 1), per = r.in(1, 9);
  std::vector<char> edge(m.n, 0);
  if (how == 5 || how == 6) { // flags only at the first or last element of the blocks
    int np_ = GA_Nnodes();
    for (int p = 0; p < np_; p++) {
      int lo[1], hi[1];
      NGA_Distribution(h, p, lo, hi);
      if (lo[0] >= 0 && hi[0] >= lo[0] && hi[0] < m.n) edge[how == 5 ? lo[0] : hi[0]] = 1;
    }
  }
  for (long i = 0; i < m.n; i++) {
    bool on = how == 0 ? false : how == 1 ? true : how == 2 ? r.one_in(2) : how == 3 ? r.one_in(20) : how == 4 ? i == k
      : how <= 6 ? edge[i] && !r.one_in(4) : how == 7 ? i % per == 0 : (i / per) % 3 == 0;
    Val v = ival(m.type, 0);
    if (on) {
      long a = r.one_in(2) ? 1 : r.in(-3, 3);
      if (a == 0) a = -1;
      v = ival(m.type, a);
      if (is_cpl(m.type) && r.one_in(2)) { v = ival(m.type, r.one_in(3) ? a : 0, a); }
      if (m.type == C_LONG || m.type == C_LONGLONG) if (r.one_in(4)) v.i = 1L << 32;
      if (m.type == C_DBL || m.type == C_FLOAT) if (r.one_in(4)) v.re = 0.25;
    }
    m.set(i, v);
  }
}
static void verify(int h, const MArr &m, const std::string &key, const char *what) {
  check_all(h, m, key, what);
  check_local(h, m, key + ":local");
}

static void bins(long i, Rng &gr) {
  int P = GA_Nnodes();
  Group g = world_group();
  bool big = gr.one_in(6);
  long nb = big ? gr.in(2001, 4300) : gr.in(P, P + 40);
  if (gr.one_in(5)) nb = P;
  // counts contributed by each process to each bin
  std::vector<VL> c(P, VL(nb, 0));
  VL cnt(nb, 0), off(nb, 0);
  int style = (int)gr.in(0, 3);
  for (long b = 0; b < nb; b++)
    for (int p = 0; p < P; p++) {
      long k = big ? (gr.one_in(4) ? 1 : 0) : style == 0 ? gr.in(0, 4) : style == 1 ? (gr.one_in(P) ? gr.in(1, 12) : 0) : style == 2 ? (b % P == p ? 3 : 0) : gr.in(0, 1);
      c[p][b] = k; cnt[b] += k;
    }
  bool dense = gr.one_in(2);
  // blocks of bins: each process holds a nonempty run of bins
  VL cuts = rnd_cuts(gr, nb, P);
  bool reg = gr.one_in(2);
  if (reg) { // what nga_create would do with equal blocks
    cuts.clear();
    for (int p = 0; p < P; p++) cuts.push_back(nb * p / P);
  }
  // the blocks of the array of bins usually, not always, hold the bins whose offsets the same process holds
  VL bcuts = gr.one_in(3) ? rnd_cuts(gr, nb, P) : cuts;
  for (int p = 0; p < P; p++) { // every process holds at least one element
    long e = p + 1 < P ? bcuts[p + 1] : nb, s = 0;
    for (long b = bcuts[p]; b < e; b++) { if (dense && !cnt[b]) { c[0][b]++; cnt[b]++; } s += cnt[b]; }
    if (!s) { long b = gr.in(bcuts[p], e - 1); c[P - 1][b]++; cnt[b]++; }
  }
  long tot = 0;
  for (long b = 0; b < nb; b++) { off[b] = tot; tot += cnt[b]; }
  if (tot < nb) { long d = nb - tot; c[0][nb - 1] += d; cnt[nb - 1] += d; tot += d; } // bin numbers may not exceed the number of elements
  bool empty = false;
  for (long x : cnt) if (!x) empty = true;
  begin_case(i, fmt("bin nb=%ld tot=%ld style=%d empty=%d reg=%d aligned=%d", nb, tot, style, (int)empty, (int)reg, (int)(bcuts == cuts)));
  const char *E = empty ? ":empty" : "";
  auto irreg = [&](long n, const VL &st, const char *name) {
    int d[1] = {(int)n}, nblk[1] = {P};
    std::vector<int> map(st.begin(), st.end());
    return NGA_Create_irreg(C_LONG, 1, d, (char *)name, nblk, map.data());
  };
  VL bst;
  for (int p = 0; p < P; p++) bst.push_back(off[bcuts[p]]);
  opmark("create");
  gsync(g);
  size_t mem0 = GA_Inquire_memory();
  int hc = irreg(nb, cuts, "cnt"), ho = irreg(nb, cuts, "off"), hb = irreg(tot, bst, "bin");
  MArr C(C_LONG, {nb}), O(C_LONG, {nb});
  for (long b = 0; b < nb; b++) { C.set(b, ival(C_LONG, cnt[b])); O.set(b, ival(C_LONG, off[b])); }
  upload(hc, C, g); upload(ho, O, g);
  GA_Zero(hb);
  gsync(g);
  // the values: bin b receives cnt[b] values, each a function of (contributor, bin, k)
  uint64_t s = gr.next();
  auto value = [&](int p, long b, long k) { Rng q(s + (uint64_t)p * 1000003 + (uint64_t)b * 7919 + k * 31); return q.one_in(4) ? q.in(-5, 5) : q.in(-1000000000000L, 1000000000000L); };
  bool sort = gr.one_in(2), later = gr.one_in(3), nga = gr.one_in(2);
  std::vector<long> val, sub;
  for (long b = 0; b < nb; b++) for (long k = 0; k < c[me][b]; k++) { val.push_back(value(me, b, k)); sub.push_back(b + 1); }
  auto keepv = val, keeps = sub;
  long n = (long)val.size(), lb = hb, lc = hc, lo_ = ho, so = sort;
  val.push_back(-77); sub.push_back(-77);
  opmark("bin_index sort=%ld%s", so, E);
  (nga ? nga_bin_index_ : ga_bin_index_)(&lb, &lc, &lo_, val.data(), sub.data(), &n, &so);
  gsync(g);
  val.pop_back(); sub.pop_back();
  if (val != keepv || sub != keeps) violation("bin_index:input", "the caller's values or bin numbers were changed");
  if (!sort && later) { opmark("bin_sorter%s", E); (nga ? nga_bin_sorter_ : ga_bin_sorter_)(&lb, &lc, &lo_); gsync(g); }
  bool sorted = sort || later;
  MArr got(C_LONG, {tot});
  { Patch p = whole({tot}); Buf b(C_LONG, p, VL(1, 0)); get(hb, p, b, false); memcpy(got.d.data(), b.ptr(), tot * 8); }
  for (long b = 0; b < nb; b++) {
    std::vector<long> w, x;
    for (int p = 0; p < P; p++) for (long k = 0; k < c[p][b]; k++) w.push_back(value(p, b, k));
    for (long k = 0; k < cnt[b]; k++) x.push_back(got.get(off[b] + k).i);
    std::sort(w.begin(), w.end());
    std::vector<long> y = x;
    std::sort(y.begin(), y.end());
    if (y != w) violation(std::string("bin_index:values") + E, "bin %ld of %ld does not hold the %ld values given to it", b, nb, cnt[b]);
    else if (sorted && x != w) violation(std::string("bin_sorter:order") + E, "bin %ld of %ld is not sorted", b, nb);
    count("bins");
  }
  count("bin_elements", tot);
  verify(hc, C, "bin:counts-changed", "cnt"); verify(ho, O, "bin:offsets-changed", "off");
  gsync(g);
  GA_Destroy(hb); GA_Destroy(hc); GA_Destroy(ho);
  if (GA_Inquire_memory() != mem0) violation("bin:memory-kept", "%ld bytes of array memory are still in use after the arrays were destroyed", (long)(GA_Inquire_memory() - mem0));
}

static void run_case(long i) {
  Rng r(sub_seed(i));
  if (r.one_in(4)) { Rng gr(sub_seed(i, 99)); bins(i, gr); return; }
  Split sp = rnd_split(r, 6);
  if (Group *gp = sp.my()) {
    Group &g = *gp;
    Rng gr(sub_seed(i, 100 + sp.mine));
    int type = gr.pick(ALLTYPES), mtype = gr.pick(ALLTYPES);
    VL dims = {gr.one_in(6) ? gr.in(1, 6) : gr.one_in(8) ? gr.in(1000, 6000) : gr.in(1, 300)};
    LayoutOpt lo({REG, CHUNK, IRREG});
    if (g.world) lo.kinds = {REG, CHUNK, IRREG, IRREG, RESTR, RESTRRANGE};
    Layout L = rnd_layout(gr, dims, g.size(), lo);
    int old = GA_Pgroup_get_default();
    if (!g.world) GA_Pgroup_set_default(g.h);
    VL od = {dims[0] + (gr.one_in(2) ? gr.in(0, 20) : 0)};
    Layout Lo = rnd_layout(gr, od, g.size(), lo);
    begin_case(i, fmt("%s %s mask %s n=%ld %s | %s", g.desc.c_str(), tname(type), tname(mtype), dims[0], L.str().c_str(), Lo.str().c_str()));
    opmark("create");
    MArr S(type, dims), D(type, dims), M(mtype, dims), O(type, od);
    int hs = make_array(L, type, dims, g, "src"), hd = make_array(L, type, dims, g, "dst"), hm = make_array(L, mtype, dims, g, "msk"), ho = make_array(Lo, type, od, g, "other");
    fillv(S, gr); fillv(D, gr); fillv(O, gr); fillmask(M, gr, hm);
    upload(hs, S, g); upload(hd, D, g); upload(ho, O, g); upload(hm, M, g);
    std::string K = is_cpl(type) ? ":complex" : "";
    for (int e = 0, E = (int)gr.in(4, 10); e < E; e++) {
      if (gr.one_in(3)) { fillmask(M, gr, hm); upload(hm, M, g); count("masks"); }
      if (gr.one_in(4)) { fillv(S, gr); upload(hs, S, g); }
      if (gr.one_in(4)) { fillv(D, gr); upload(hd, D, g); }
      Patch p = gr.one_in(3) ? whole(dims) : rnd_patch(gr, dims);
      if (gr.one_in(3)) { // ranges that begin or end at a block boundary
        int q = (int)gr.in(0, g.size() - 1), a[1], b[1];
        NGA_Distribution(hs, q, a, b);
        if (a[0] >= 0 && b[0] >= a[0] && b[0] < dims[0]) {
          if (gr.one_in(2)) p.lo[0] = a[0]; else p.hi[0] = b[0];
          if (gr.one_in(4)) { p.lo[0] = a[0]; p.hi[0] = b[0]; }
          if (p.lo[0] > p.hi[0]) std::swap(p.lo[0], p.hi[0]);
        }
      }
      long lo0 = p.lo[0], hi0 = p.hi[0];
      int how = (int)gr.in(0, 2), op = (int)gr.in(0, 4);
      long l1 = lo0 + 1, h1 = hi0 + 1, ls = hs, ld = hd, lm = hm, lq = ho;
      if (op == 0) {
        opmark("scan_copy how=%d %s", how, p.str().c_str());
        if (how == 0) GA_Scan_copy(hs, hd, hm, (int)lo0, (int)hi0); else if (how == 1) GA_Scan_copy64(hs, hd, hm, lo0, hi0); else ga_scan_copy_(&ls, &ld, &lm, &l1, &h1);
        Val last = ival(type, 0);
        for (long k = lo0; k <= hi0; k++) { if (nz(mtype, M.get(k))) last = S.get(k); D.set(k, last); }
        verify(hd, D, "scan_copy" + K, "scan_copy");
        count("scan_copy");
      } else if (op == 1) {
        int excl = (int)gr.in(0, 1);
        long lx = excl;
        opmark("scan_add how=%d excl=%d %s", how, excl, p.str().c_str());
        if (how == 0) GA_Scan_add(hs, hd, hm, (int)lo0, (int)hi0, excl); else if (how == 1) GA_Scan_add64(hs, hd, hm, lo0, hi0, excl); else ga_scan_add_(&ls, &ld, &lm, &l1, &h1, &lx);
        bool on = false;
        Val sum = ival(type, 0);
        for (long k = lo0; k <= hi0; k++) {
          bool b = nz(mtype, M.get(k));
          if (b) { on = true; sum = ival(type, 0); }
          if (!on) continue;
          if (excl) { D.set(k, sum); sum = vadd(type, sum, S.get(k)); } else { sum = vadd(type, sum, S.get(k)); D.set(k, sum); }
        }
        verify(hd, D, "scan_add" + K + (excl ? ":excl" : ""), "scan_add");
        count("scan_add");
      } else if (op == 2) { // S -> O at the front
        int ic = -1; int64_t ic64 = -1; long icl = -1;
        opmark("pack how=%d %s", how, p.str().c_str());
        if (how == 0) { GA_Pack(hs, ho, hm, (int)lo0, (int)hi0, &ic); icl = ic; } else if (how == 1) { GA_Pack64(hs, ho, hm, lo0, hi0, &ic64); icl = ic64; } else ga_pack_(&ls, &lq, &lm, &l1, &h1, &icl);
        long n = 0;
        for (long k = lo0; k <= hi0; k++) if (nz(mtype, M.get(k))) O.set(n++, S.get(k));
        if (icl != n) violation("pack:count", "pack %s: counted %ld, want %ld", p.str().c_str(), icl, n);
        verify(ho, O, "pack" + K, "pack");
        count("pack");
      } else if (op == 3) { // O -> D
        int ic = -1; int64_t ic64 = -1; long icl = -1;
        opmark("unpack how=%d %s", how, p.str().c_str());
        if (how == 0) { GA_Unpack(ho, hd, hm, (int)lo0, (int)hi0, &ic); icl = ic; } else if (how == 1) { GA_Unpack64(ho, hd, hm, lo0, hi0, &ic64); icl = ic64; } else ga_unpack_(&lq, &ld, &lm, &l1, &h1, &icl);
        long n = 0;
        for (long k = lo0; k <= hi0; k++) if (nz(mtype, M.get(k))) D.set(k, O.get(n++));
        if (icl != n) violation("unpack:count", "unpack %s: counted %ld, want %ld", p.str().c_str(), icl, n);
        verify(hd, D, "unpack" + K, "unpack");
        count("unpack");
      } else {
        Val a = rnd_val(type, gr, 100), b = gr.one_in(5) ? ival(type, 0) : rnd_val(type, gr, 100);
        char ba[16], bb[16];
        store(type, ba, a); store(type, bb, b);
        int tgt = (int)gr.in(0, 1);
        opmark("patch_enum how=%d %s", how, p.str().c_str());
        int h = tgt ? hd : hs;
        long lh = h;
        if (how == 0) GA_Patch_enum(h, (int)lo0, (int)hi0, ba, bb); else if (how == 1) GA_Patch_enum64(h, lo0, hi0, ba, bb); else ga_patch_enum_(&lh, &l1, &h1, ba, bb);
        MArr &X = tgt ? D : S;
        for (long k = lo0; k <= hi0; k++) { Val v; v.i = a.i + (k - lo0) * b.i; v.re = a.re + (double)(k - lo0) * b.re; v.im = a.im + (double)(k - lo0) * b.im; X.set(k, v); }
        verify(h, X, "patch_enum" + K, "patch_enum");
        if (!tgt && (type == C_FLOAT || type == C_SCPL)) { fillv(S, gr); upload(hs, S, g); } // keep later sums exact
        count("patch_enum");
      }
      verify(hs, S, "scan:source-changed", "src"); verify(hm, M, "scan:mask-changed", "msk");
      verify(hd, D, "scan:dst", "dst"); verify(ho, O, "scan:other", "other");
      gsync(g);
    }
    opmark("destroy");
    GA_Destroy(hs); GA_Destroy(hd); GA_Destroy(hm); GA_Destroy(ho);
    if (!g.world) GA_Pgroup_set_default(old);
  }
  free_split(sp);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
  return 0;
}
