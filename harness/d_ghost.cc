// C07: ghost-cell updates. Every process keeps an expected copy of its block with ghost cells.
#include "gamon.h"
using namespace gm;
extern "C" {
void ga_update1_ghosts_(long *);
long ga_update2_ghosts_(long *), ga_update3_ghosts_(long *), ga_update4_ghosts_(long *), ga_update5_ghosts_(long *), ga_update6_ghosts_(long *),
    ga_update7_ghosts_(long *), ga_update44_ghosts_(long *), ga_update55_ghosts_(long *);
}
typedef long (*upd_t)(long *);

static void run_case(long i) {
  Rng r(sub_seed(i));
  Split sp = rnd_split(r, 7);
  Group *gp = sp.my();
  if (gp) {
    Group &g = *gp;
    Rng gr(sub_seed(i, 100 + sp.mine));
    int type = gr.pick(ALLTYPES), P = g.size();
    int nd = (int)gr.in(1, gr.one_in(4) ? 5 : 3);
    VL dims(nd);
    long hi = nd == 1 ? 60 : nd == 2 ? 18 : nd == 3 ? 11 : nd == 4 ? 8 : 7;
    for (auto &d : dims) d = gr.in(std::min<long>(P, hi), std::max<long>(P, hi));
    // layout with the ghost widths; blocks at least as wide as the ghost region
    Layout L;
    L.kind = gr.one_in(2) ? GHOST : GHOSTIRR;
    VL maxw(nd);
    if (L.kind == GHOSTIRR) {
      L.nblk = factor_grid(gr, P, nd);
      for (int k = 0; k < nd; k++) {
        VL c = rnd_cuts(gr, dims[k], L.nblk[k]);
        long mn = dims[k];
        for (size_t b = 0; b < c.size(); b++) mn = std::min(mn, (b + 1 < c.size() ? c[b + 1] : dims[k]) - c[b]);
        maxw[k] = mn;
        L.map.insert(L.map.end(), c.begin(), c.end());
      }
    } else {
      for (int k = 0; k < nd; k++) maxw[k] = std::max(1L, dims[k] / P);
    }
    bool any = false;
    for (int k = 0; k < nd; k++) { long w = std::min(gr.in(0, 3), maxw[k]); if (gr.one_in(3)) w = maxw[k] > 6 ? 6 : maxw[k]; L.width.push_back(w); any |= w > 0; }
    if (!any) L.width[gr.in(0, nd - 1)] = 1;
    if (L.kind == GHOST) for (int k = 0; k < nd; k++) if (L.width[k] > dims[k] / P) L.width[k] = dims[k] / P;
    // bounded so that put-based updates of thousands of rows do not exhaust MPI's buffering of outstanding sends
    { long v = 1; for (int k = 0; k < nd; k++) v *= dims[k] + 2 * L.width[k]; if (v > 20000) for (auto &w : L.width) w = std::min(w, 1L); }
    int how = (int)gr.in(0, 4);
    bool w64 = gr.one_in(2);
    MArr m(type, dims);
    begin_case(i, fmt("%s %s dims=%s %s how=%d w64=%d", g.desc.c_str(), tname(type), dimstr(dims).c_str(), L.str().c_str(), how, w64));
    std::string K = kname(L.kind);
    opmark("create");
    int oldgrp = GA_Pgroup_get_default();
    if (!g.world) GA_Pgroup_set_default(g.h);
    int h;
    Dims D(dims), W(L.width);
    char nm[] = "ghost";
    {
      std::vector<int> map(L.map.begin(), L.map.end()), nb(L.nblk.begin(), L.nblk.end());
      std::vector<int64_t> map64(L.map.begin(), L.map.end()), nb64(L.nblk.begin(), L.nblk.end());
      std::vector<int> ch(nd, -1); std::vector<int64_t> ch64(nd, -1);
      if (how == 0 || how == 1) h = make_array(L, type, dims, g, nm, w64);
      else if (L.kind == GHOSTIRR) {
        if (how == 2) h = w64 ? NGA_Create_ghosts_irreg64(type, nd, D.l, W.l, nm, nb64.data(), map64.data()) : NGA_Create_ghosts_irreg(type, nd, D.i, W.i, nm, nb.data(), map.data());
        else h = w64 ? NGA_Create_ghosts_irreg_config64(type, nd, D.l, W.l, nm, nb64.data(), map64.data(), g.h) : NGA_Create_ghosts_irreg_config(type, nd, D.i, W.i, nm, nb.data(), map.data(), g.h);
      } else {
        if (how == 2) h = w64 ? NGA_Create_ghosts64(type, nd, D.l, W.l, nm, ch64.data()) : NGA_Create_ghosts(type, nd, D.i, W.i, nm, ch.data());
        else h = w64 ? NGA_Create_ghosts_config64(type, nd, D.l, W.l, nm, ch64.data(), g.h) : NGA_Create_ghosts_config(type, nd, D.i, W.i, nm, ch.data(), g.h);
      }
      if (!h) harness_error("ghost create failed");
    }
    bool corner = true;
    int nowhere = 0;
    auto rounds = gr.in(2, 5);
    bool dupd = false;
    for (int round = 0; round < rounds; round++) {
      if (round && gr.one_in(5) && !dupd) {
        opmark("duplicate");
        int h2 = GA_Duplicate(h, (char *)"dup");
        GA_Destroy(h);
        h = h2; dupd = true;
        corner = true;
        GA_Set_ghost_corner_flag(h, 1);
        count("duplicates");
        round = 0; // refill below
      }
      int lo[8], hi2[8];
      NGA_Distribution(h, g.rank, lo, hi2);
      Patch mine;
      VL ed(nd);
      bool empty = false;
      for (int k = 0; k < nd; k++) { mine.lo.push_back(lo[k]); mine.hi.push_back(hi2[k]); if (hi2[k] < lo[k]) empty = true; ed[k] = hi2[k] - lo[k] + 1 + 2 * L.width[k]; }
      if (empty) { nowhere = 1; }
      int tot[1] = {nowhere};
      if (g.world) GA_Igop(tot, 1, (char *)"+"); else GA_Pgroup_igop(g.h, tot, 1, (char *)"+");
      if (tot[0]) { count("skipped_empty_process"); break; }
      // the update routines require every block to be as wide as the ghost region
      for (int k = 0; k < nd; k++) if (hi2[k] - lo[k] + 1 < L.width[k]) nowhere = 1;
      tot[0] = nowhere;
      if (g.world) GA_Igop(tot, 1, (char *)"+"); else GA_Pgroup_igop(g.h, tot, 1, (char *)"+");
      if (tot[0]) { count("skipped_thin_block"); break; }
      if (round == 0) fill_random(h, m, gr, g);
      else {
        Patch p = rnd_patch(gr, dims);
        each(p, [&](const VL &ix, long) { m.set(m.lin(ix), rnd_val(type, gr)); });
        if (g.rank == 0) {
          Buf b(type, p, VL(nd, 0));
          each(p, [&](const VL &ix, long) { memcpy(b.at(ix), m.at(m.lin(ix)), m.es); });
          put(h, p, b, w64);
        }
        gsync(g);
      }
      // access to the block and its ghost cells
      int ad[8], al[8]; int64_t ad64[8], al64[8];
      void *ptr = nullptr, *ptr2 = nullptr;
      opmark("access_ghosts");
      NGA_Access_ghosts(h, ad, &ptr, al);
      NGA_Access_ghosts64(h, ad64, &ptr2, al64);
      if (ptr != ptr2) violation("ghost-access:" + K, "32- and 64-bit access pointers differ");
      MArr E(type, ed);
      for (int k = 0; k < nd; k++) {
        if (ad[k] != ed[k] || ad64[k] != ed[k]) violation("ghost-access-dims:" + K, "dim %d: %d, expected %ld", k, ad[k], ed[k]);
        if (k && (al[k - 1] != ed[k] || al64[k - 1] != ed[k])) violation("ghost-access-ld:" + K, "ld %d: %d, expected %ld", k - 1, al[k - 1], ed[k]);
      }
      Rng lr(sub_seed(i, 7000 + round * 100 + me));
      auto classify = [&](const VL &ix, std::vector<int> &msk) { // global index of a cell; mask per dim
        VL gx(nd);
        msk.assign(nd, 0);
        for (int k = 0; k < nd; k++) {
          long x = ix[k] - L.width[k] + lo[k];
          msk[k] = x < lo[k] ? -1 : x > hi2[k] ? 1 : 0;
          gx[k] = ((x % dims[k]) + dims[k]) % dims[k];
        }
        return gx;
      };
      // mark every ghost cell with a private value; check that owned cells are what was put
      std::vector<int> msk;
      each(whole(ed), [&](const VL &ix, long o) {
        VL gx = classify(ix, msk);
        bool gh = false;
        for (int x : msk) gh |= x != 0;
        char *q = (char *)ptr + o * m.es;
        if (gh) { E.set(o, rnd_val(type, lr)); memcpy(q, E.at(o), m.es); }
        else { memcpy(E.at(o), m.at(m.lin(gx)), m.es); if (memcmp(q, E.at(o), m.es)) violation("ghost-owned-before:" + K, "owned cell wrong before the update"); }
      });
      // element access
      {
        opmark("access_ghost_element");
        Patch wp = whole(ed);
        for (int t = 0; t < 3; t++) {
          VL ix(nd);
          int ii[8], ll[8]; int64_t ii64[8], ll64[8];
          for (int k = 0; k < nd; k++) { ix[k] = lr.in(0, ed[k] - 1); ii[k] = (int)ix[k]; ii64[k] = ix[k]; ll[k] = -77; ll64[k] = -77; }
          void *q = nullptr, *q2 = nullptr;
          NGA_Access_ghost_element(h, &q, ii, ll);
          NGA_Access_ghost_element64(h, &q2, ii64, ll64);
          char *want = (char *)ptr + E.lin(ix) * m.es;
          if (q != want || q2 != want) violation("ghost-element:" + K, "pointer to a ghost-block element is wrong by %ld/%ld bytes", (long)((char *)q - want), (long)((char *)q2 - want));
          for (int k = 1; k < nd; k++) if (ll[k - 1] != ed[k] || ll64[k - 1] != ed[k]) violation("ghost-element-ld:" + K, "ld %d: %d/%ld, expected %ld", k - 1, ll[k - 1], (long)ll64[k - 1], ed[k]);
          if (lr.one_in(2)) NGA_Release_update_ghost_element(h, ii); else NGA_Release_ghost_element(h, ii);
          count("ghost_elements");
        }
      }
      if (gr.one_in(2)) NGA_Release_update_ghosts(h); else NGA_Release_ghosts(h);
      gsync(g);
      if (gr.one_in(4)) { corner = !corner; GA_Set_ghost_corner_flag(h, corner); }
      // the update
      int op = (int)gr.in(0, 13);
      if (!mode.empty()) op = atoi(mode.c_str());
      long ga = h;
      std::function<int(const std::vector<int> &)> cover; // 0 must stay, 1 must be updated, 2 either
      auto faces = [](const std::vector<int> &mk) { int n = 0; for (int x : mk) n += x != 0; return n; };
      auto full = [&](const std::vector<int> &mk) { return faces(mk) == 0 ? 0 : (corner || faces(mk) == 1) ? 1 : 2; };
      auto allc = [&](const std::vector<int> &mk) { return faces(mk) ? 1 : 0; };
      std::string on;
      bool nowidth = false;
      for (long w : L.width) if (!w) nowidth = true;
      (void)nowidth;
      auto variant = [&](const char *nme, upd_t f, bool okall) {
        on = nme;
        opmark("%s", nme);
        long rc = f(&ga);
        if (rc) cover = okall ? std::function<int(const std::vector<int> &)>(allc) : full;
        else cover = [&](const std::vector<int> &mk) { return faces(mk) ? 2 : 0; };
        count(std::string(nme) + (rc ? "" : "_refused"));
      };
      switch (op) {
      case 0: case 1: on = "update_ghosts"; opmark("update_ghosts"); if (op) GA_Update_ghosts(h); else NGA_Update_ghosts(h); cover = full; count("updates"); break;
      case 2: {
        on = "update_ghosts_nb"; opmark("update_ghosts_nb");
        ga_nbhdl_t nh;
        NGA_Update_ghosts_nb(h, &nh);
        if (gr.one_in(2)) usleep(lr.in(0, 200));
        NGA_NbWait(&nh);
        cover = full; count("nb_updates");
        break;
      }
      case 3: case 4: {
        int dm = (int)gr.in(0, nd - 1), dir = gr.one_in(2) ? 1 : -1, fl = (int)gr.in(0, 1);
        on = fmt("update_ghost_dir dim=%d dir=%d corners=%d", dm, dir, fl);
        opmark("%s", on.c_str());
        int rc = NGA_Update_ghost_dir(h, dm, dir, fl);
        if (!rc) violation("ghost-dir-refused:" + K, "%s", on.c_str());
        on = "update_ghost_dir";
        cover = [=](const std::vector<int> &mk) { if (mk[dm] != dir) return 0; int n = 0; for (int x : mk) n += x != 0; return n == 1 || fl ? 1 : 0; };
        count("dir_updates");
        break;
      }
      case 5: case 6: {
        // each process asks for its own directions
        on = "nbget_ghost_dir";
        std::vector<std::vector<int>> ms;
        std::vector<ga_nbhdl_t> hs;
        int n = (int)lr.in(1, 4);
        hs.resize(n);
        for (int t = 0; t < n; t++) {
          std::vector<int> mk(nd);
          bool nz = false;
          for (int k = 0; k < nd; k++) { mk[k] = (int)lr.in(-1, 1); if (mk[k] && L.width[k] == 0) mk[k] = 0; nz |= mk[k] != 0; }
          if (!nz) for (int k = 0; k < nd; k++) if (L.width[k]) { mk[k] = 1; break; }
          int mi[8]; int64_t ml[8];
          for (int k = 0; k < nd; k++) { mi[k] = mk[k]; ml[k] = mk[k]; }
          opmark("nbget_ghost_dir");
          if (w64) NGA_NbGet_ghost_dir64(h, ml, &hs[t]); else NGA_NbGet_ghost_dir(h, mi, &hs[t]);
          ms.push_back(mk);
          count("dir_gets");
        }
        for (int t = 0; t < n; t++) NGA_NbWait(&hs[t]);
        cover = [ms](const std::vector<int> &mk) { for (auto &x : ms) if (x == mk) return 1; return 0; };
        break;
      }
      case 7: on = "update1"; opmark("update1"); ga_update1_ghosts_(&ga); cover = full; count("update1"); break;
      case 8: variant("update2", ga_update2_ghosts_, false); gsync(g); break;
      case 9: variant("update3", ga_update3_ghosts_, false); gsync(g); break;
      case 10: variant("update4", ga_update4_ghosts_, false); break;
      // update5 and update55 need ARMCI_PutS_flag, which this ARMCI does not implement (it asserts)
      case 11: case 12: variant("update44", ga_update44_ghosts_, false); break;
      default: if (gr.one_in(2)) variant("update6", ga_update6_ghosts_, false); else variant("update7", ga_update7_ghosts_, false); break;
      }
      // no synchronisation here: the update must be complete when the call (or wait) returns
      opmark("verify %s", on.c_str());
      NGA_Access_ghosts(h, ad, &ptr, al);
      each(whole(ed), [&](const VL &ix, long o) {
        VL gx = classify(ix, msk);
        const char *q = (char *)ptr + o * m.es;
        int c = cover(msk);
        const char *mir = m.at(m.lin(gx));
        bool ok = c == 0 ? !memcmp(q, E.at(o), m.es) : c == 1 ? !memcmp(q, mir, m.es) : (!memcmp(q, mir, m.es) || !memcmp(q, E.at(o), m.es) );
        if (!ok) {
          std::string s, ms;
          for (long x : ix) s += fmt("%ld,", x);
          for (int x : msk) ms += fmt("%d,", x);
          std::string from = "nowhere";
          for (long e = 0; e < m.n; e++) if (!memcmp(q, m.at(e), m.es)) { from = fmt("%ld", e); break; }
          violation(fmt("ghost-%s-%s:", on.c_str(), c == 0 ? "overwrote" : "missed") + K, "cell (%s) mask (%s) of the block at %s corner=%d: %s (element %s), mirror %s (element %ld), before %s", s.c_str(), ms.c_str(), mine.str().c_str(), corner,
                    vstr(type, load(type, q)).c_str(), from.c_str(), vstr(type, load(type, mir)).c_str(), m.lin(gx), vstr(type, E.get(o)).c_str());
        }
        memcpy(E.at(o), q, m.es); // what later reads must return
        count("ghost_cells_checked", faces(msk) ? 1 : 0);
      });
      NGA_Release_ghosts(h);
      gsync(g);
      // ghost block reads: the caller's own block serves what lies within it
      for (int t = 0; t < 2; t++) {
        Patch p;
        bool inside = lr.one_in(2);
        for (int k = 0; k < nd; k++) {
          long a, b;
          if (inside) { a = lr.in(lo[k] - L.width[k], hi2[k] + L.width[k]); b = lr.in(lo[k] - L.width[k], hi2[k] + L.width[k]); }
          else { a = lr.in(-std::min(3L, dims[k] - 1), dims[k] - 1); b = lr.in(a, std::min(a + dims[k] - 1, dims[k] - 1 + std::min(3L, dims[k] - 1))); }
          if (a > b) std::swap(a, b);
          if (b - a + 1 > dims[k]) b = a + dims[k] - 1;
          p.lo.push_back(a); p.hi.push_back(b);
        }
        bool local = true;
        for (int k = 0; k < nd; k++) if (p.lo[k] < lo[k] - L.width[k] || p.hi[k] > hi2[k] + L.width[k]) local = false;
        Buf b(type, p, rnd_pad(lr, nd));
        Dims plo(p.lo), phi(p.hi), pld(b.ld);
        opmark("get_ghost_block local=%d", local);
        if (w64) NGA_Get_ghost_block64(h, plo.l, phi.l, b.ptr(), pld.l); else NGA_Get_ghost_block(h, plo.i, phi.i, b.ptr(), pld.i);
        each(p, [&](const VL &ix, long) {
          const char *want;
          if (local) { VL e(nd); for (int k = 0; k < nd; k++) e[k] = ix[k] - lo[k] + L.width[k]; want = E.at(E.lin(e)); }
          else { VL e(nd); for (int k = 0; k < nd; k++) e[k] = ((ix[k] % dims[k]) + dims[k]) % dims[k]; want = m.at(m.lin(e)); }
          if (memcmp(b.at(ix), want, m.es)) violation(fmt("ghost-block-%s:", local ? "local" : "periodic") + K, "get_ghost_block %s of block %s", p.str().c_str(), mine.str().c_str());
        });
        long wh;
        if (!b.frame_ok(&wh)) violation("ghost-block-frame:" + K, "bytes outside the requested patch changed at %ld", wh);
        count("ghost_blocks");
      }
      gsync(g);
      check_all(h, m, "ghost-owned:" + K, on.c_str());
      gsync(g);
    }
    opmark("destroy");
    GA_Destroy(h);
    if (!g.world) GA_Pgroup_set_default(oldgrp);
  }
  free_split(sp);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
  return 0;
}
