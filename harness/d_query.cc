// C06: distribution queries describe one partition of the index space, and direct access agrees with it.
#include "gamon.h"
using namespace gm;

struct Box { Patch p; int owner; int blk; };

static VL bcoord(long b, const VL &nb) { // block id -> coordinates in C order; the last C dimension varies fastest
  int nd = (int)nb.size();
  VL c(nd);
  for (int k = nd - 1; k >= 0; k--) { c[k] = b % nb[k]; b /= nb[k]; }
  return c;
}
static long bid(const VL &c, const VL &nb) { long b = 0; for (size_t k = 0; k < nb.size(); k++) b = b * nb[k] + c[k]; return b; }

static void run_case(long i) {
  Rng r(sub_seed(i));
  Split sp = rnd_split(r, 6);
  Group *gp = sp.my();
  if (gp) {
    Group &g = *gp;
    Rng gr(sub_seed(i, 100 + sp.mine));
    int type = gr.pick(ALLTYPES), nd = rnd_nd(gr);
    VL dims = rnd_dims(gr, nd, gr.one_in(8) ? 20000 : 2500);
    LayoutOpt lo;
    if (!g.world) lo.kinds = {REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR};
    Layout L = rnd_layout(gr, dims, g.size(), lo);
    bool c64 = gr.one_in(2);
    MArr m(type, dims);
    begin_case(i, fmt("%s %s dims=%s %s c64=%d", g.desc.c_str(), tname(type), dimstr(dims).c_str(), L.str().c_str(), c64));
    opmark("create");
    std::string nm = fmt("arr%ld", i % 97);
    int h = make_array(L, type, dims, g, nm.c_str(), c64);
    int P = g.size();
    std::string K = kname(L.kind);
    fill_random(h, m, gr, g);
    int ilo[8], ihi[8], ild[8]; int64_t llo[8], lhi[8], lld[8];
    auto V = [&](const std::string &what, const std::string &d) { violation("query-" + what + ":" + K, "%s", d.c_str()); };
    auto vs = [](const VL &v) { std::string s; for (long x : v) s += fmt("%ld,", x); return s; };

    // --- inquiry
    opmark("inquire");
    {
      int t2, n2, d2[8]; int64_t dl[8];
      NGA_Inquire(h, &t2, &n2, d2);
      bool ok = t2 == type && n2 == nd;
      for (int k = 0; ok && k < nd; k++) ok = d2[k] == dims[k];
      NGA_Inquire64(h, &t2, &n2, dl);
      ok = ok && t2 == type && n2 == nd;
      for (int k = 0; ok && k < nd; k++) ok = dl[k] == dims[k];
      if (!ok) V("inquire", "NGA_Inquire type/ndim/dims");
      if (GA_Ndim(h) != nd || GA_Get_dimension(h) != nd) V("ndim", fmt("ndim %d dimension %d", GA_Ndim(h), GA_Get_dimension(h)));
      if (nm != GA_Inquire_name(h)) V("name", GA_Inquire_name(h));
      if (GA_Verify_handle(h) != 1 || GA_Valid_handle(h) != 1) V("valid", "live handle reported invalid");
      int pg = GA_Get_pgroup(h);
      if (GA_Get_pgroup_size(pg) != P || GA_Pgroup_nodeid(pg) != g.rank) V("pgroup", fmt("group size %d rank %d", GA_Get_pgroup_size(pg), GA_Pgroup_nodeid(pg)));
      bool gh = false;
      for (long w : L.width) if (w > 0) gh = true;
      if ((GA_Has_ghosts(h) != 0) != gh) V("has-ghosts", fmt("%d", GA_Has_ghosts(h)));
      bool grid = L.kind == SCALA || L.kind == TILED || L.kind == TILEDIRR;
      if ((GA_Uses_proc_grid(h) != 0) != grid) V("uses-grid", "");
      count("inquiries", 10);
    }
    // --- the partition
    opmark("distribution");
    int nb = GA_Total_blocks(h);
    bool blocked = L.kind == BCYC || L.kind == SCALA || L.kind == TILED || L.kind == TILEDIRR;
    if (blocked != (nb >= 0)) V("total-blocks", fmt("%d", nb));
    std::vector<Box> boxes;
    VL nblk(nd, 0);
    if (blocked) {
      std::vector<VL> st(nd);
      long tot = 1;
      for (int k = 0, off = 0; k < nd; k++) {
        if (L.kind == TILEDIRR) { for (int b = 0; b < L.nblk[k]; b++) st[k].push_back(L.map[off + b]); off += (int)L.nblk[k]; }
        else for (long x = 0; x < dims[k]; x += L.blk[k]) st[k].push_back(x);
        nblk[k] = (long)st[k].size();
        tot *= nblk[k];
      }
      if (tot != nb) V("total-blocks", fmt("%d, expected %ld", nb, tot));
      for (long b = 0; b < tot; b++) {
        VL c = bcoord(b, nblk);
        Box x; x.blk = (int)b;
        for (int k = 0; k < nd; k++) {
          x.p.lo.push_back(st[k][c[k]]);
          x.p.hi.push_back(c[k] + 1 < nblk[k] ? st[k][c[k] + 1] - 1 : dims[k] - 1);
        }
        if (L.kind == BCYC) x.owner = (int)(b % P);
        else { VL q(nd); for (int k = 0; k < nd; k++) q[k] = c[k] % L.grid[k]; x.owner = (int)bid(q, L.grid); }
        NGA_Distribution(h, (int)b, ilo, ihi);
        NGA_Distribution64(h, (int)b, llo, lhi);
        for (int k = 0; k < nd; k++)
          if (ilo[k] != x.p.lo[k] || ihi[k] != x.p.hi[k] || llo[k] != x.p.lo[k] || lhi[k] != x.p.hi[k])
            V("block-range", fmt("block %ld dim %d: %d:%d expected %s", b, k, ilo[k], ihi[k], x.p.str().c_str()));
        boxes.push_back(x);
      }
    } else {
      for (int p = 0; p < P; p++) {
        NGA_Distribution(h, p, ilo, ihi);
        NGA_Distribution64(h, p, llo, lhi);
        Box x; x.owner = p; x.blk = -1;
        bool empty = false;
        for (int k = 0; k < nd; k++) {
          if (ilo[k] != llo[k] || ihi[k] != lhi[k]) V("dist64", "32- and 64-bit distributions differ");
          x.p.lo.push_back(ilo[k]); x.p.hi.push_back(ihi[k]);
          if (ihi[k] < ilo[k]) empty = true;
        }
        if (empty) { count("empty_processes"); continue; }
        for (int k = 0; k < nd; k++) if (ilo[k] < 0 || ihi[k] >= dims[k]) V("dist-bounds", fmt("process %d: %s", p, x.p.str().c_str()));
        if (L.kind == RESTR && std::find(L.rlist.begin(), L.rlist.end(), p) == L.rlist.end()) V("restricted", fmt("process %d is not in the list but owns %s", p, x.p.str().c_str()));
        if (L.kind == RESTRRANGE && (p < L.rlo || p > L.rhi)) V("restricted", fmt("process %d is outside the range but owns %s", p, x.p.str().c_str()));
        boxes.push_back(x);
      }
      int bl[8];
      GA_Nblock(h, bl);
      for (int k = 0; k < nd; k++) {
        std::set<long> s;
        for (auto &x : boxes) s.insert(x.p.lo[k]);
        nblk[k] = bl[k];
        if ((long)s.size() != bl[k]) V("nblock", fmt("dim %d: nblock %d but %zu distinct block starts", k, bl[k], s.size()));
        if (L.kind == IRREG || L.kind == GHOSTIRR) {
          long off = 0; for (int q = 0; q < k; q++) off += L.nblk[q];
          std::set<long> want(L.map.begin() + off, L.map.begin() + off + L.nblk[k]);
          if (s != want) V("irreg-map", fmt("dim %d: block starts differ from the map given", k));
        }
        if (L.kind == CHUNK && L.chunk[k] >= dims[k] && bl[k] != 1) V("chunk", fmt("dim %d is split into %d blocks although the chunk covers it", k, bl[k]));
        if (L.kind == CHUNK && L.chunk[k] > 1) for (auto &x : boxes) if (x.p.hi[k] < dims[k] - 1 && x.p.hi[k] - x.p.lo[k] + 1 < L.chunk[k])
          V("chunk", fmt("dim %d: block %s thinner than the chunk %ld", k, x.p.str().c_str(), L.chunk[k]));
      }
      // process grid coordinates (listed with the fastest-varying dimension first)
      if (L.kind != RESTR && L.kind != RESTRRANGE)
        for (auto &x : boxes) {
          int co[8];
          NGA_Proc_topology(h, x.owner, co);
          for (int k = 0; k < nd; k++) {
            std::set<long> s;
            for (auto &y : boxes) s.insert(y.p.lo[k]);
            long rank = std::distance(s.begin(), s.find(x.p.lo[k]));
            if (co[nd - 1 - k] != rank) V("topology", fmt("process %d: coordinate %d in dim %d, block is number %ld", x.owner, co[nd - 1 - k], k, rank));
          }
          count("topologies");
        }
    }
    // --- disjoint cover
    std::vector<int> own(m.n, -1);
    for (size_t b = 0; b < boxes.size(); b++)
      each(boxes[b].p, [&](const VL &ix, long) {
        int &o = own[m.lin(ix)];
        if (o >= 0) V("overlap", fmt("(%s) belongs to two parts", vs(ix).c_str()));
        o = (int)b;
      });
    for (long e = 0; e < m.n; e++) if (own[e] < 0) V("cover", fmt("element %ld belongs to no process", e));
    count("partitions"); count("boxes", (long)boxes.size());

    if (blocked) {
      int a[8], b[8];
      if (L.kind != TILEDIRR) {
        GA_Get_block_info(h, a, b);
        for (int k = 0; k < nd; k++) if (a[k] != nblk[k] || b[k] != L.blk[k]) V("block-info", fmt("dim %d: %d blocks of %d, expected %ld of %ld", k, a[k], b[k], nblk[k], L.blk[k]));
      }
      GA_Nblock(h, a);
      for (int k = 0; k < nd; k++) if (a[k] != nblk[k]) V("nblock", fmt("dim %d: %d expected %ld", k, a[k], nblk[k]));
      if (L.kind != BCYC) {
        GA_Get_proc_grid(h, a);
        for (int k = 0; k < nd; k++) if (a[k] != L.grid[k]) V("proc-grid", fmt("dim %d: %d expected %ld", k, a[k], L.grid[k]));
        for (int p = 0; p < P; p++) {
          GA_Get_proc_index(h, p, a);
          VL c = bcoord(p, L.grid);
          for (int k = 0; k < nd; k++) if (a[k] != c[k]) V("proc-index", fmt("process %d dim %d: %d expected %ld", p, k, a[k], c[k]));
        }
      }
    }
    // --- compare distributions
    {
      opmark("compare");
      int h2 = GA_Duplicate(h, (char *)"dup");
      if (GA_Compare_distr(h, h2) != 0) V("compare", "a duplicate is reported as distributed differently");
      GA_Destroy(h2);
      Layout L3 = rnd_layout(gr, dims, P, lo);
      if (gr.one_in(2)) { // the same layout with one parameter changed
        L3 = L;
        int k = (int)gr.in(0, nd - 1);
        if (L.kind == BCYC || ((L.kind == SCALA || L.kind == TILED) && gr.one_in(2))) L3.blk[k] = gr.in(1, dims[k]);
        else if (L.kind == SCALA || L.kind == TILED || (L.kind == TILEDIRR && gr.one_in(2))) L3.grid = factor_grid(gr, P, nd);
        else if (L.kind == IRREG || L.kind == TILEDIRR) {
          long off = 0; for (int q = 0; q < k; q++) off += L.nblk[q];
          VL c = rnd_cuts(gr, dims[k], L.nblk[k]);
          std::copy(c.begin(), c.end(), L3.map.begin() + off);
        } else if (L.kind == RESTR) { gr.shuffle(L3.rlist); if (L3.rlist.size() > 1 && gr.one_in(2)) L3.rlist.pop_back(); }
        else if (L.kind == CHUNK) L3.chunk[k] = dims[k];
      }
      int h3 = make_array(L3, type, dims, g, "cmp");
      bool same = GA_Compare_distr(h, h3) == 0;
      auto parts = [&](const Layout &Q, int hq) { // element range and owner of every part
        std::set<VL> out;
        int tot = GA_Total_blocks(hq), n = tot >= 0 ? tot : P;
        VL nbk(nd, 1);
        if (tot >= 0) { int bl[8]; GA_Nblock(hq, bl); for (int k = 0; k < nd; k++) nbk[k] = Q.kind == TILEDIRR ? Q.nblk[k] : (dims[k] + Q.blk[k] - 1) / Q.blk[k]; }
        for (int p = 0; p < n; p++) {
          int l[8], hh[8];
          NGA_Distribution(hq, p, l, hh);
          VL e; bool empty = false;
          for (int k = 0; k < nd; k++) { e.push_back(l[k]); e.push_back(hh[k]); if (hh[k] < l[k]) empty = true; }
          if (empty) continue;
          if (tot < 0) e.push_back(p);
          else if (Q.kind == BCYC) e.push_back(p % P);
          else { VL c = bcoord(p, nbk), q(nd); for (int k = 0; k < nd; k++) q[k] = c[k] % Q.grid[k]; e.push_back(bid(q, Q.grid)); }
          out.insert(e);
        }
        return out;
      };
      if (L3.str() == L.str() && !same) V("compare", "arrays created alike compare different");
      if (same) { // then every part must have the same range and owner
        if (parts(L, h) != parts(L3, h3)) V("compare", "arrays with different distributions compare equal: " + L3.str());
        count("compare_equal");
      } else count("compare_different");
      GA_Destroy(h3);
    }
    // --- locate
    Rng pr(sub_seed(i, 500 + g.rank));
    opmark("locate");
    auto loc = [&](const VL &ix) {
      Dims d(ix);
      int o = NGA_Locate(h, d.i), o6 = NGA_Locate64(h, d.l);
      Box &b = boxes[own[m.lin(ix)]];
      int want = blocked ? b.blk : b.owner;
      if (o != want || o6 != want) V("locate", fmt("(%s) -> %d / %d, the distribution says %d", vs(ix).c_str(), o, o6, want));
      count("locates");
    };
    for (auto &b : boxes) { if (boxes.size() > 60 && !pr.one_in((int)boxes.size() / 40 + 1)) continue; loc(b.p.lo); loc(b.p.hi); }
    for (int q = 0; q < 30; q++) { VL ix(nd); for (int k = 0; k < nd; k++) ix[k] = pr.in(0, dims[k] - 1); loc(ix); }
    // --- locate region
    for (int q = 0; q < 6; q++) {
      Patch p = q == 0 ? whole(dims) : rnd_patch(pr, dims);
      Dims lo2(p.lo), hi2(p.hi);
      size_t exp = 0;
      for (auto &b : boxes) if (b.p.overlaps(p)) exp++;
      opmark("locate_nnodes %s", p.str().c_str());
      int nn = NGA_Locate_nnodes(h, lo2.i, hi2.i);
      if (nn != (int)exp || NGA_Locate_nnodes64(h, lo2.l, hi2.l) != nn) V("locate-nnodes", fmt("%s: %d, expected %zu", p.str().c_str(), nn, exp));
      int nbk = NGA_Locate_num_blocks(h, lo2.i, hi2.i);
      if (blocked && nbk != (int)exp) V("locate-num-blocks", fmt("%s: %d, expected %zu", p.str().c_str(), nbk, exp));
      if (!blocked && nbk != -1) V("locate-num-blocks", fmt("%s: %d on an array without blocks", p.str().c_str(), nbk));
      opmark("locate_region %s", p.str().c_str());
      std::vector<int> map(2 * nd * (exp + 1) + 2, -7), pl(exp + 2, -7);
      std::vector<int64_t> map6(2 * nd * (exp + 1) + 2, -7);
      std::vector<int> pl6(exp + 2, -7);
      int n = NGA_Locate_region(h, lo2.i, hi2.i, map.data(), pl.data());
      int n6 = NGA_Locate_region64(h, lo2.l, hi2.l, map6.data(), pl6.data());
      if (n != (int)exp || n6 != n) V("locate-region", fmt("%s: %d/%d parts, expected %zu", p.str().c_str(), n, n6, exp));
      std::set<int> seen;
      for (int e = 0; e < n; e++) {
        if (pl[e] != pl6[e]) V("locate-region64", "process lists differ");
        if (!seen.insert(pl[e]).second) V("locate-region", fmt("%s: %d listed twice", p.str().c_str(), pl[e]));
        const Box *b = nullptr;
        for (auto &x : boxes) if ((blocked ? x.blk : x.owner) == pl[e]) b = &x;
        if (!b) V("locate-region", fmt("%s: unknown part %d", p.str().c_str(), pl[e]));
        for (int k = 0; k < nd; k++) {
          long wl = std::max(b->p.lo[k], p.lo[k]), wh = std::min(b->p.hi[k], p.hi[k]);
          long gl = map[2 * nd * e + k], gh = map[2 * nd * e + nd + k];
          if (gl != wl || gh != wh || map6[2 * nd * e + k] != wl || map6[2 * nd * e + nd + k] != wh)
            V("locate-region-map", fmt("%s: part %d dim %d is %ld:%ld, expected %ld:%ld", p.str().c_str(), pl[e], k, gl, gh, wl, wh));
        }
      }
      if (map[2 * nd * n] != -7 || pl[n] != -7) V("locate-region-frame", "wrote beyond the parts found");
      count("regions");
    }
    // --- direct access: what each process sees and what it writes
    opmark("access");
    Rng ar(sub_seed(i, 900));
    std::vector<Val> nv(m.n);
    bool write = ar.one_in(2);
    for (auto &v : nv) v = rnd_val(type, ar);
    auto visit = [&](const Patch &p, char *ptr, const VL &ld, bool wr) {
      if ((uintptr_t)ptr % std::min(8L, m.es)) V("access-align", "misaligned pointer");
      each(p, [&](const VL &ix, long) {
        long off = 0;
        for (int k = 0; k < nd; k++) off = off * (k ? ld[k - 1] : 1) + (ix[k] - p.lo[k]);
        char *q = ptr + off * m.es;
        if (memcmp(q, m.at(m.lin(ix)), m.es)) V("access-data", fmt("(%s) holds %s want %s", vs(ix).c_str(), vstr(type, load(type, q)).c_str(), vstr(type, m.get(m.lin(ix))).c_str()));
        count("elements_direct");
      });
      if (wr) each(p, [&](const VL &ix, long) {
        long off = 0;
        for (int k = 0; k < nd; k++) off = off * (k ? ld[k - 1] : 1) + (ix[k] - p.lo[k]);
        store(type, ptr + off * m.es, nv[m.lin(ix)]);
      });
    };
    gsync(g);
    long mine = 0;
    for (auto &b : boxes) {
      if (b.owner != g.rank) continue;
      mine += b.p.size();
      VL ld;
      void *ptr = nullptr;
      if (!blocked) {
        // a random part of the block first, then the whole block
        for (int pass = 0; pass < 3; pass++) {
          Patch p = b.p;
          if (pass < 2) for (int k = 0; k < nd; k++) { p.lo[k] = pr.in(b.p.lo[k], b.p.hi[k]); p.hi[k] = pr.in(p.lo[k], b.p.hi[k]); }
          Dims lo2(p.lo), hi2(p.hi);
          ld.clear();
          opmark("NGA_Access %s", p.str().c_str());
          if (pass == 1) { NGA_Access64(h, lo2.l, hi2.l, &ptr, lld); for (int k = 0; k + 1 < nd; k++) ld.push_back(lld[k]); }
          else { NGA_Access(h, lo2.i, hi2.i, &ptr, ild); for (int k = 0; k + 1 < nd; k++) ld.push_back(ild[k]); }
          for (int k = 0; k + 1 < nd; k++) {
            long w = b.p.hi[k + 1] - b.p.lo[k + 1] + 1 + (L.width.empty() ? 0 : 2 * L.width[k + 1]);
            if (ld[k] != w) V("access-ld", fmt("ld[%d]=%ld, block extent %ld", k, ld[k], w));
          }
          bool wr = write && pass == 2;
          visit(p, (char *)ptr, ld, wr);
          if (wr) { if (pr.one_in(2)) NGA_Release_update(h, lo2.i, hi2.i); else NGA_Release_update64(h, lo2.l, hi2.l); }
          else { if (pr.one_in(2)) NGA_Release(h, lo2.i, hi2.i); else NGA_Release64(h, lo2.l, hi2.l); }
        }
      } else {
        bool gridacc = L.kind != BCYC && pr.one_in(2), w64 = pr.one_in(2);
        VL c = bcoord(b.blk, nblk);
        Dims cd(c);
        opmark("access block %d grid=%d", b.blk, gridacc);
        if (gridacc) { if (w64) NGA_Access_block_grid64(h, cd.l, &ptr, lld); else NGA_Access_block_grid(h, cd.i, &ptr, ild); }
        else { if (w64) NGA_Access_block64(h, b.blk, &ptr, lld); else NGA_Access_block(h, b.blk, &ptr, ild); }
        for (int k = 0; k + 1 < nd; k++) ld.push_back(w64 ? lld[k] : ild[k]);
        visit(b.p, (char *)ptr, ld, write);
        if (gridacc) { if (write) NGA_Release_update_block_grid(h, cd.i); else NGA_Release_block_grid(h, cd.i); }
        else { if (write) NGA_Release_update_block(h, b.blk); else NGA_Release_block(h, b.blk); }
      }
    }
    if (blocked) {
      void *sp2 = nullptr; int len = -1; int64_t len6 = -1;
      opmark("access segment");
      NGA_Access_block_segment(h, g.rank, &sp2, &len);
      NGA_Access_block_segment64(h, g.rank, &sp2, &len6);
      if (len != mine || len6 != mine) V("segment-len", fmt("%d, the blocks held have %ld elements", len, mine));
      // the segment holds exactly the elements of the blocks held
      if (mine) {
        std::vector<std::string> a, b;
        for (long e = 0; e < mine; e++) a.push_back(std::string((char *)sp2 + e * m.es, m.es));
        for (auto &x : boxes) if (x.owner == g.rank) each(x.p, [&](const VL &ix, long) {
          char t[16];
          if (write) store(type, t, nv[m.lin(ix)]); else memcpy(t, m.at(m.lin(ix)), m.es);
          b.push_back(std::string(t, m.es));
        });
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a != b) V("segment-data", "the local segment is not the data of the blocks held");
        count("segments");
      }
      if (write) NGA_Release_update_block_segment(h, g.rank); else NGA_Release_block_segment(h, g.rank);
    }
    if (write) for (long e = 0; e < m.n; e++) m.set(e, nv[e]);
    gsync(g);
    check_all(h, m, "query-content:" + K, "after direct access");
    gsync(g);
    opmark("destroy");
    GA_Destroy(h);
    count(std::string("layout_") + K);
    progress("case %ld done", i);
  }
  free_split(sp);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
}
