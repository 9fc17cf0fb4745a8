// C26: read-only and read-cache properties against a replicated model.
#include "gamon.h"
#include <malloc.h>
using namespace gm;

static Patch sub_patch(Rng &r, const Patch &o) {
  Patch p = o;
  for (size_t k = 0; k < o.lo.size(); k++) {
    long a = r.in(o.lo[k], o.hi[k]), b = r.in(o.lo[k], o.hi[k]);
    if (r.one_in(4)) { a = o.lo[k]; b = o.hi[k]; }
    if (a > b) std::swap(a, b);
    p.lo[k] = a; p.hi[k] = b;
  }
  return p;
}
static void verify(Buf &b, const MArr &m, const char *what) {
  each(b.p, [&](const VL &ix, long) {
    if (memcmp(b.at(ix), m.at(m.lin(ix)), m.es))
      violation(fmt("prop-%s-contents", what), "%s %s: element (%s) is %s, should be %s", what, b.p.str().c_str(), dimstr(ix).c_str(), vstr(m.type, load(m.type, b.at(ix))).c_str(), vstr(m.type, m.get(m.lin(ix))).c_str());
  });
  long w;
  if (!b.frame_ok(&w)) violation(fmt("prop-%s-frame", what), "%s %s wrote at byte %ld, outside the section of the buffer", what, b.p.str().c_str(), w);
  count("elements_compared", b.p.size());
}
static void reads(int h, const MArr &m, Rng &lr, int n, const char *prop) {
  int nd = m.nd();
  std::vector<Patch> hist;
  for (int k = 0; k < n; k++) {
    Patch p = hist.empty() || lr.one_in(3) ? rnd_patch(lr, m.dims) : hist[lr.in(0, (long)hist.size() - 1)];
    if (!hist.empty() && lr.one_in(2)) p = sub_patch(lr, p);
    if (lr.one_in(m.n > 5000 ? 4 : 20)) p = whole(m.dims);
    hist.push_back(p);
    if (hist.size() > 16) hist.erase(hist.begin());
    VL pad(nd, 0);
    if (lr.one_in(2)) for (int d = 0; d < nd; d++) pad[d] = lr.in(0, 4);
    int how = (int)lr.in(0, 9);
    Buf b(m.type, p, pad);
    Dims lo(p.lo), hi(p.hi), ld(b.ld);
    if (how < 6) {
      opmark("%s get %s", prop, p.str().c_str());
      get(h, p, b, lr.one_in(2));
      verify(b, m, "get");
      count("gets");
    } else if (how == 6) {
      ga_nbhdl_t nb;
      opmark("%s nbget %s", prop, p.str().c_str());
      NGA_NbGet(h, lo.i, hi.i, b.ptr(), ld.i, &nb);
      NGA_NbWait(&nb);
      verify(b, m, "nbget");
      count("nbgets");
    } else if (how == 7) {
      int nv = (int)lr.in(1, 30);
      std::vector<int> ss(nv * nd);
      std::vector<int *> sp(nv);
      std::vector<char> v(nv * m.es + 16, 0x5A);
      VL lin;
      for (int q = 0; q < nv; q++) {
        VL ix;
        for (int d = 0; d < nd; d++) { ix.push_back(lr.in(0, m.dims[d] - 1)); ss[q * nd + d] = (int)ix[d]; }
        sp[q] = &ss[q * nd];
        lin.push_back(m.lin(ix));
      }
      opmark("%s gather n=%d", prop, nv);
      NGA_Gather(h, v.data() + 8, sp.data(), nv);
      for (int q = 0; q < nv; q++) if (memcmp(v.data() + 8 + q * m.es, m.at(lin[q]), m.es)) violation("prop-gather-contents", "element %d of %d differs", q, nv);
      for (int q = 0; q < 8; q++) if (v[q] != 0x5A || v[v.size() - 1 - q] != 0x5A) violation("prop-gather-frame", "wrote outside the list");
      count("gathers");
    } else if (how == 8) {
      Dims skip(VL(nd, 1));
      VL st, cnt;
      for (int d = 0; d < nd; d++) { st.push_back(lr.in(1, 3)); cnt.push_back((p.hi[d] - p.lo[d]) / st[d] + 1); }
      Dims sk(st);
      Patch z = p;
      for (int d = 0; d < nd; d++) { z.lo[d] = 0; z.hi[d] = cnt[d] - 1; }
      Buf s(m.type, z, pad);
      Dims sld(s.ld);
      opmark("%s strided_get %s", prop, p.str().c_str());
      NGA_Strided_get(h, lo.i, hi.i, sk.i, s.ptr(), sld.i);
      each(z, [&](const VL &ix, long) {
        VL a;
        for (int d = 0; d < nd; d++) a.push_back(p.lo[d] + ix[d] * st[d]);
        if (memcmp(s.at(ix), m.at(m.lin(a)), m.es)) violation("prop-strided-contents", "strided get %s: element (%s) differs", p.str().c_str(), dimstr(a).c_str());
      });
      if (!s.frame_ok()) violation("prop-strided-frame", "strided get %s wrote outside its buffer", p.str().c_str());
      count("strided_gets");
    } else { // periodic get
      VL plo, phi;
      Patch q = p;
      for (int d = 0; d < nd; d++) {
        long s = lr.in(-m.dims[d], m.dims[d] - 1);
        s = lr.one_in(2) ? 0 : s;
        long n2 = p.hi[d] - p.lo[d];
        if (p.lo[d] + s < -m.dims[d] + 1 || p.hi[d] + s > 2 * m.dims[d] - 2) s = 0;
        q.lo[d] = p.lo[d] + s; q.hi[d] = q.lo[d] + n2;
      }
      Buf s(m.type, q, pad);
      Dims a(q.lo), c(q.hi), sld(s.ld);
      opmark("%s periodic_get %s", prop, q.str().c_str());
      NGA_Periodic_get(h, a.i, c.i, s.ptr(), sld.i);
      each(q, [&](const VL &ix, long) {
        VL w;
        for (int d = 0; d < nd; d++) w.push_back(((ix[d] % m.dims[d]) + m.dims[d]) % m.dims[d]);
        if (memcmp(s.at(ix), m.at(m.lin(w)), m.es)) violation("prop-periodic-contents", "periodic get %s: element (%s) differs", q.str().c_str(), dimstr(w).c_str());
      });
      if (!s.frame_ok()) violation("prop-periodic-frame", "periodic get %s wrote outside its buffer", q.str().c_str());
      count("periodic_gets");
    }
    progress("op");
  }
}
// every element is owned once, and the owner reported by locate holds it
static void check_distr(int h, const MArr &m) {
  int nd = m.nd();
  int g = GA_Get_pgroup(h), n = GA_Pgroup_nnodes(g);
  std::vector<int> own(m.n, -1);
  for (int q = 0; q < n; q++) {
    int lo[8], hi[8];
    NGA_Distribution(h, q, lo, hi);
    Patch p;
    bool e = false;
    for (int d = 0; d < nd; d++) { p.lo.push_back(lo[d]); p.hi.push_back(hi[d]); if (hi[d] < lo[d] || lo[d] < 0) e = true; }
    if (e) continue;
    each(p, [&](const VL &ix, long) { long l = m.lin(ix); if (own[l] >= 0) violation("prop-distribution", "element (%s) belongs to two processes", dimstr(ix).c_str()); own[l] = q; });
  }
  for (long l = 0; l < m.n; l++) if (own[l] < 0) violation("prop-distribution", "element %ld belongs to nobody", l);
  Patch w = whole(m.dims);
  each(w, [&](const VL &ix, long o) {
    if (o % 7) return;
    Dims s(ix);
    int q = NGA_Locate(h, s.i);
    if (q != own[m.lin(ix)]) violation("prop-locate", "element (%s) is located at %d, the distribution says %d", dimstr(ix).c_str(), q, own[m.lin(ix)]);
  });
}
static void write_some(int h, MArr &m, Rng &r, Rng &lr) {
  int nd = m.nd(), d = (int)r.in(0, nd - 1);
  std::vector<long> cuts = {0};
  for (int q = 1; q < np; q++) cuts.push_back(r.in(0, m.dims[d]));
  cuts.push_back(m.dims[d]);
  std::sort(cuts.begin(), cuts.end());
  for (int q = 0; q < np; q++) {
    Patch p = rnd_patch(r, m.dims);
    p.lo[d] = cuts[q]; p.hi[d] = cuts[q + 1] - 1;
    uint64_t s = r.next();
    if (p.hi[d] < p.lo[d]) continue;
    Rng v(s);
    each(p, [&](const VL &ix, long) { m.set(m.lin(ix), rnd_val(m.type, v)); });
    if (q != me) continue;
    Buf b(m.type, p, rnd_pad(lr, nd));
    each(p, [&](const VL &ix, long) { memcpy(b.at(ix), m.at(m.lin(ix)), m.es); });
    opmark("put %s", p.str().c_str());
    put(h, p, b, lr.one_in(2));
    count("puts");
  }
  GA_Sync();
}
static void run_case(long i) {
  Rng r(sub_seed(i)), lr(sub_seed(i, 1000 + me));
  int type = r.pick(ALLTYPES);
  int nd = rnd_nd(r);
  VL dims = rnd_dims(r, nd, 1500);
  bool cache = r.one_in(2);
  bool heap = cache && r.one_in(30); // large sections: what the cache keeps is visible in the heap
  if (heap) { type = r.one_in(2) ? C_DCPL : C_DBL; dims = VL(2, 0); dims[0] = r.in(150, 300); dims[1] = r.in(200, 300); nd = 2; }
  LayoutOpt o;
  o.kinds = cache ? std::vector<int>{REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR, GHOST} : std::vector<int>{REG, CHUNK, IRREG};
  Group g = world_group();
  if (cache && r.one_in(3)) g = rnd_group(r);
  if (!g.world || heap) o.kinds.erase(std::remove(o.kinds.begin(), o.kinds.end(), (int)GHOST), o.kinds.end());
  if (heap) o.kinds = {REG, CHUNK, IRREG};
  Layout L = rnd_layout(r, dims, g.size(), o);
  begin_case(i, fmt("%s %s dims=%s %s on %s", cache ? "read_cache" : "read_only", tname(type), dimstr(dims).c_str(), L.str().c_str(), g.desc.c_str()));
  if (!g.in) { gfree(g); GA_Sync(); if (cache) {} return; }
  MArr m(type, dims);
  int h = make_array(L, type, dims, g, "p");
  fill_random(h, m, r, g);
  int rounds = (int)r.in(1, 3);
  bool world = g.world;
  for (int k = 0; k < rounds; k++) {
    const char *pr = cache ? "read_cache" : "read_only";
    long nreads = r.one_in(4) ? r.in(20, 60) : r.in(1, 12);
    bool keep = k == rounds - 1 && r.one_in(2); // destroyed while the property is set
    opmark("set %s", pr);
    GA_Set_property(h, (char *)pr);
    count(cache ? "read_cache_set" : "read_only_set");
    reads(h, m, lr, (int)nreads, pr);
    if (heap && mon::mode != "san") { // the cache is bounded: ten or so sections, whatever is read
      size_t h0 = mallinfo2().uordblks;
      for (int q = 0; q < 40; q++) { // pairwise distinct, none contained in another
        Patch p = whole(dims);
        p.lo[0] = q; p.hi[0] = dims[0] - 41 + q;
        Buf b(type, p, VL(nd, 0));
        get(h, p, b, false);
        verify(b, m, "get");
      }
      long grown = (long)mallinfo2().uordblks - (long)h0;
      long bound = 14 * m.n * m.es + 300000;
      count("cache_fills");
      if (grown > bound) violation("prop-cache-unbounded", "40 reads left %ld bytes, more than fourteen whole arrays of %ld", grown, m.n * m.es);
    }
    if (!cache) { check_distr(h, m); }
    if (L.kind == REG || L.kind == CHUNK || L.kind == IRREG) {
      opmark("direct access under %s", pr);
      if (check_local(h, m, "prop-direct")) count("direct");
    }
    gsync(g);
    if (keep) break;
    opmark("unset %s", pr);
    GA_Unset_property(h);
    if (heap && mon::mode != "san") { // MPI grows its pools now and then; a leak shows every time
      long least = 1L << 60;
      for (int z = 0; z < 4; z++) {
        long x = (long)mallinfo2().uordblks;
        GA_Set_property(h, (char *)pr);
        for (int q = 0; q < 30; q++) {
          Patch p = whole(dims);
          p.lo[0] = q; p.hi[0] = dims[0] - 31 + q;
          Buf b(type, p, VL(nd, 0));
          get(h, p, b, false);
        }
        GA_Unset_property(h);
        progress("op");
        least = std::min(least, (long)mallinfo2().uordblks - x);
      }
      count("cache_leak_checks");
      if (least > 100000) violation("prop-cache-leak", "every use of the cache leaves at least %ld bytes", least);
    }
    gsync(g);
    reads(h, m, lr, (int)lr.in(1, 4), "unset");
    if (!cache) check_distr(h, m);
    gsync(g);
    if (world) { write_some(h, m, r, lr); }
    else fill_random(h, m, r, g);
    reads(h, m, lr, (int)lr.in(1, 4), "rewritten");
    gsync(g);
  }
  opmark("destroy");
  GA_Destroy(h);
  gfree(g);
  GA_Sync();
}
int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
}
