// C21: the C interfaces (32- and 64-bit), the Fortran interface (nga_ and two-dimensional ga_ names) and the C++
// classes are views of one array. One-sided operations are compared with the replicated model; collective ones with
// the same operation done through the 32-bit C interface on a copy.
#include "gamon.h"
#include "ga++.h"
#include "f2c_lang.h"
extern "C" void GA_Get_array_name(int g_a, char *name); // defined, but declared in no header
using namespace gm;

enum If { C32, C64, FN, F2, P32, P64, NIF };
static const char *ifn(int f) { static const char *n[] = {"c", "c64", "fortran", "fortran2d", "c++", "c++64"}; return n[f]; }
static int rnd_if(Rng &r, int nd) { int f = (int)r.in(0, NIF - 1); return f == F2 && nd != 2 ? FN : f; }
static bool cpp(int f) { return f == P32 || f == P64; }

struct H { // one array under the handle types of all interfaces
  int c; FInt f;
  GA::GlobalArray &p() { static_assert(sizeof(GA::GlobalArray) == sizeof(int), "handle class"); return *reinterpret_cast<GA::GlobalArray *>(&c); }
  H(int h = 0) : c(h), f(h) {}
};
struct FV { FInt v[8]; operator FInt *() { return v; } FV() { memset(v, 0, sizeof v); } };
static FV rev(const VL &a, long add) { FV o; int n = (int)a.size(); for (int k = 0; k < n; k++) o.v[k] = a[n - 1 - k] + add; return o; }
static FV revv(const std::vector<int> &a) { VL b(a.begin(), a.end()); return rev(b, 0); }
static FInt ftype(int t, Rng &r) {
  if (r.one_in(2)) return t; // both kinds of type codes are accepted
  return t == C_LONG ? MT_F_INT : t == C_FLOAT ? MT_F_REAL : t == C_DBL ? MT_F_DBL : t == C_SCPL ? MT_F_SCPL : t == C_DCPL ? MT_F_DCPL : t;
}
static int ctype_of_f(FInt t) {
  return t == MT_F_INT ? C_LONG : t == MT_F_REAL ? C_FLOAT : t == MT_F_DBL ? C_DBL : t == MT_F_SCPL ? C_SCPL : t == MT_F_DCPL ? C_DCPL : t == -1 ? C_INT : (int)t; // Fortran has no code for 32-bit integers
}
// Fortran reports its own type codes
static std::string fstr(const std::string &s, int len) { std::string t = s; t.resize(len, ' '); return t; }

// ---- creation --------------------------------------------------------------
static void pgop(int g, int type, void *b, int n, char *op) {
  switch (type) {
  case C_INT: GA_Pgroup_igop(g, (int *)b, n, op); break;
  case C_LONG: GA_Pgroup_lgop(g, (long *)b, n, op); break;
  case C_FLOAT: GA_Pgroup_fgop(g, (float *)b, n, op); break;
  case C_DBL: GA_Pgroup_dgop(g, (double *)b, n, op); break;
  case C_SCPL: GA_Pgroup_cgop(g, (SingleComplex *)b, n, op); break;
  case C_DCPL: GA_Pgroup_zgop(g, (DoubleComplex *)b, n, op); break;
  }
}
static int create(Rng &r, const Layout &L, int type, const VL &dims, Group &g, const std::string &name, int f) {
  int nd = (int)dims.size();
  auto iv = [](const VL &v) { return std::vector<int>(v.begin(), v.end()); };
  auto lv = [](const VL &v) { return std::vector<int64_t>(v.begin(), v.end()); };
  VL chv = L.chunk.empty() ? VL(nd, -1) : L.chunk;
  auto ch = iv(chv), wd = iv(L.width), bl = iv(L.blk), gr = iv(L.grid), mp = iv(L.map), nb = iv(L.nblk), D = iv(dims);
  auto ch6 = lv(chv), wd6 = lv(L.width), bl6 = lv(L.blk), gr6 = lv(L.grid), mp6 = lv(L.map), nb6 = lv(L.nblk), D6 = lv(dims);
  std::vector<char> nm(name.begin(), name.end()); nm.push_back(0);
  char *cn = nm.data();
  std::string fs = fstr(name, (int)name.size() + (int)r.in(0, 5));
  char *fn = &fs[0]; int fl = (int)fs.size();
  FInt fnd = nd, fg = 0, fp = g.h, ft = ftype(type, r);
  FV fd = rev(dims, 0), fch = rev(chv, 0), fw = rev(L.width, 0), fb = rev(L.blk, 0), fgr = rev(L.grid, 0), fnb = rev(L.nblk, 0);
  std::vector<FInt> fmap; // map of the first Fortran dimension (the last C one) first
  if (!L.map.empty()) {
    std::vector<VL> per; size_t o = 0;
    for (int k = 0; k < nd; k++) { per.push_back(VL(L.map.begin() + o, L.map.begin() + o + L.nblk[k])); o += L.nblk[k]; }
    for (int k = nd - 1; k >= 0; k--) for (long x : per[k]) fmap.push_back(x + 1);
  }
  bool ghost = L.kind == GHOST || L.kind == GHOSTIRR, irr = L.kind == IRREG || L.kind == GHOSTIRR;
  bool direct = (L.kind == REG || L.kind == CHUNK || ghost || irr) && r.one_in(2);
  GA::PGroup *pg = nullptr; // no constructor from a handle; the C++ group comes from the members
  H h;
  FInt ok = 1;
  if (direct) {
    bool cfg = !g.world || r.one_in(2);
    switch (f) {
    case C32:
      if (L.kind == GHOST) h = H(cfg ? NGA_Create_ghosts_config(type, nd, D.data(), wd.data(), cn, ch.data(), g.h) : NGA_Create_ghosts(type, nd, D.data(), wd.data(), cn, ch.data()));
      else if (L.kind == GHOSTIRR) h = H(cfg ? NGA_Create_ghosts_irreg_config(type, nd, D.data(), wd.data(), cn, nb.data(), mp.data(), g.h) : NGA_Create_ghosts_irreg(type, nd, D.data(), wd.data(), cn, nb.data(), mp.data()));
      else if (irr) h = H(cfg ? NGA_Create_irreg_config(type, nd, D.data(), cn, nb.data(), mp.data(), g.h) : NGA_Create_irreg(type, nd, D.data(), cn, nb.data(), mp.data()));
      else h = H(cfg ? NGA_Create_config(type, nd, D.data(), cn, L.chunk.empty() && r.one_in(2) ? NULL : ch.data(), g.h) : NGA_Create(type, nd, D.data(), cn, ch.data()));
      break;
    case C64:
      if (L.kind == GHOST) h = H(cfg ? NGA_Create_ghosts_config64(type, nd, D6.data(), wd6.data(), cn, ch6.data(), g.h) : NGA_Create_ghosts64(type, nd, D6.data(), wd6.data(), cn, ch6.data()));
      else if (L.kind == GHOSTIRR) h = H(cfg ? NGA_Create_ghosts_irreg_config64(type, nd, D6.data(), wd6.data(), cn, nb6.data(), mp6.data(), g.h) : NGA_Create_ghosts_irreg64(type, nd, D6.data(), wd6.data(), cn, nb6.data(), mp6.data()));
      else if (irr) h = H(cfg ? NGA_Create_irreg_config64(type, nd, D6.data(), cn, nb6.data(), mp6.data(), g.h) : NGA_Create_irreg64(type, nd, D6.data(), cn, nb6.data(), mp6.data()));
      else h = H(cfg ? NGA_Create_config64(type, nd, D6.data(), cn, ch6.data(), g.h) : NGA_Create64(type, nd, D6.data(), cn, ch6.data()));
      break;
    case FN: case F2:
      if (f == F2 && !cfg && irr && !ghost) {
        FInt n1 = fnb[0], n2 = fnb[1];
        ok = ga_create_irreg_(&ft, &fd[0], &fd[1], fn, fmap.data(), &n1, fmap.data() + n1, &n2, &fg, fl);
      } else if (f == F2 && !cfg && !ghost) {
        for (int k = 0; k < 2; k++) if (fch[k] < 0) fch[k] = r.one_in(2) ? 0 : -1;
        ok = ga_create_(&ft, &fd[0], &fd[1], fn, &fch[0], &fch[1], &fg, fl);
      } else if (L.kind == GHOST) ok = cfg ? nga_create_ghosts_config_(&ft, &fnd, fd, fw, fn, fch, &fp, &fg, fl) : nga_create_ghosts_(&ft, &fnd, fd, fw, fn, fch, &fg, fl);
      else if (L.kind == GHOSTIRR) ok = cfg ? nga_create_ghosts_irreg_config_(&ft, &fnd, fd, fw, fn, fmap.data(), fnb, &fp, &fg, fl) : nga_create_ghosts_irreg_(&ft, &fnd, fd, fw, fn, fmap.data(), fnb, &fg, fl);
      else if (irr) ok = cfg ? nga_create_irreg_config_(&ft, &fnd, fd, fn, fmap.data(), fnb, &fp, &fg, fl) : nga_create_irreg_(&ft, &fnd, fd, fn, fmap.data(), fnb, &fg, fl);
      else ok = cfg ? nga_create_config_(&ft, &fnd, fd, fn, fch, &fp, &fg, fl) : nga_create_(&ft, &fnd, fd, fn, fch, &fg, fl);
      h = H((int)fg);
      break;
    case P32: case P64: {
      // leaked on purpose: the destructor would destroy the array, which the driver does itself
      GA::GlobalArray *a;
      if (f == P32) {
        if (L.kind == GHOST) a = new GA::GlobalArray(type, nd, D.data(), wd.data(), cn, ch.data(), 'g');
        else if (L.kind == GHOSTIRR) a = new GA::GlobalArray(type, nd, D.data(), wd.data(), cn, nb.data(), mp.data(), 'g');
        else if (irr) a = new GA::GlobalArray(type, nd, D.data(), cn, nb.data(), mp.data());
        else a = new GA::GlobalArray(type, nd, D.data(), cn, ch.data());
      } else {
        if (L.kind == GHOST) a = new GA::GlobalArray(type, nd, D6.data(), wd6.data(), cn, ch6.data(), 'g');
        else if (L.kind == GHOSTIRR) a = new GA::GlobalArray(type, nd, D6.data(), wd6.data(), cn, nb6.data(), mp6.data(), 'g');
        else if (irr) a = new GA::GlobalArray(type, nd, D6.data(), cn, nb6.data(), mp6.data());
        else a = new GA::GlobalArray(type, nd, D6.data(), cn, ch6.data());
      }
      h = H(a->handle());
      break;
    }
    }
    (void)pg;
    if (!ok || h.c == 0) { if (!ok) violation("lang-create", "%s create returned false", ifn(f)); }
    return h.c;
  }
  // create_handle and set calls, each through an interface of its own
  auto nx = [&]() { int q = r.one_in(2) ? f : (int)r.in(0, NIF - 1); return q == F2 && r.one_in(2) ? FN : q; };
  switch (nx()) { case FN: h = H((int)nga_create_handle_()); break; case F2: h = H((int)ga_create_handle_()); break;
    case P32: case P64: { GA::GlobalArray *a = new GA::GlobalArray(); h = H(a->handle()); break; } default: h = H(GA_Create_handle()); }
  switch (nx()) { case C64: GA_Set_data64(h.c, nd, D6.data(), type); break; case FN: nga_set_data_(&h.f, &fnd, fd, &ft); break; case F2: ga_set_data_(&h.f, &fnd, fd, &ft); break;
    case P32: h.p().setData(nd, D.data(), type); break; case P64: h.p().setData(nd, D6.data(), type); break; default: GA_Set_data(h.c, nd, D.data(), type); }
  switch (nx()) { case FN: nga_set_array_name_(&h.f, fn, fl); break; case F2: ga_set_array_name_(&h.f, fn, fl); break; case P32: case P64: h.p().setArrayName(cn); break; default: GA_Set_array_name(h.c, cn); }
  // the name is readable before and after allocation
  if (r.one_in(3)) {
    std::string o((size_t)r.in((long)name.size(), (long)name.size() + 9), '#');
    if (r.one_in(2)) nga_get_array_name_(&h.f, &o[0], (int)o.size()); else ga_get_array_name_(&h.f, &o[0], (int)o.size());
    if (o != fstr(name, (int)o.size())) violation("lang-name", "Fortran get_array_name gives '%s', the name is '%s'", o.c_str(), name.c_str());
    char buf[64];
    GA_Get_array_name(h.c, buf);
    if (name != buf) violation("lang-name", "GA_Get_array_name gives '%s', the name is '%s'", buf, name.c_str());
    count("names", 2);
  }
  if (!g.world || r.one_in(4)) switch (nx()) { case FN: nga_set_pgroup_(&h.f, &fp); break; case F2: ga_set_pgroup_(&h.f, &fp); break; default: GA_Set_pgroup(h.c, g.h); }
  switch (L.kind) {
  case CHUNK: switch (nx()) { case C64: GA_Set_chunk64(h.c, ch6.data()); break; case FN: nga_set_chunk_(&h.f, fch); break; case F2: ga_set_chunk_(&h.f, fch); break;
      case P32: h.p().setChunk(ch.data()); break; case P64: h.p().setChunk(ch6.data()); break; default: GA_Set_chunk(h.c, ch.data()); } break;
  case BCYC: switch (nx()) { case C64: GA_Set_block_cyclic64(h.c, bl6.data()); break; case FN: nga_set_block_cyclic_(&h.f, fb); break; case F2: ga_set_block_cyclic_(&h.f, fb); break;
      case P32: h.p().setBlockCyclic(bl.data()); break; case P64: h.p().setBlockCyclic(bl6.data()); break; default: GA_Set_block_cyclic(h.c, bl.data()); } break;
  case SCALA: switch (nx()) { case C64: GA_Set_block_cyclic_proc_grid64(h.c, bl6.data(), gr6.data()); break; case FN: nga_set_block_cyclic_proc_grid_(&h.f, fb, fgr); break; case F2: ga_set_block_cyclic_proc_grid_(&h.f, fb, fgr); break;
      case P32: h.p().setBlockCyclicProcGrid(bl.data(), gr.data()); break; case P64: h.p().setBlockCyclicProcGrid(bl6.data(), gr6.data()); break; default: GA_Set_block_cyclic_proc_grid(h.c, bl.data(), gr.data()); } break;
  case TILED: switch (nx()) { case C64: GA_Set_tiled_proc_grid64(h.c, bl6.data(), gr6.data()); break; case FN: nga_set_tiled_proc_grid_(&h.f, fb, fgr); break; case F2: ga_set_tiled_proc_grid_(&h.f, fb, fgr); break;
      case P32: h.p().setTiledProcGrid(bl.data(), gr.data()); break; case P64: h.p().setTiledProcGrid(bl6.data(), gr6.data()); break; default: GA_Set_tiled_proc_grid(h.c, bl.data(), gr.data()); } break;
  case TILEDIRR: switch (nx()) { case C64: GA_Set_tiled_irreg_proc_grid64(h.c, mp6.data(), nb6.data(), gr6.data()); break; case FN: nga_set_tiled_irreg_proc_grid_(&h.f, fmap.data(), fnb, fgr); break; case F2: ga_set_tiled_irreg_proc_grid_(&h.f, fmap.data(), fnb, fgr); break;
      case P32: h.p().setTiledIrregProcGrid(mp.data(), nb.data(), gr.data()); break; case P64: h.p().setTiledIrregProcGrid(mp6.data(), nb6.data(), gr6.data()); break; default: GA_Set_tiled_irreg_proc_grid(h.c, mp.data(), nb.data(), gr.data()); } break;
  case RESTR: { auto l = L.rlist; std::vector<FInt> fl2(l.begin(), l.end()); FInt n = (FInt)l.size();
      switch (nx()) { case FN: nga_set_restricted_(&h.f, fl2.data(), &n); break; case F2: ga_set_restricted_(&h.f, fl2.data(), &n); break; case P32: case P64: h.p().setRestricted(l.data(), (int)n); break; default: GA_Set_restricted(h.c, l.data(), (int)n); } break; }
  case RESTRRANGE: { FInt lo = L.rlo, hi = L.rhi;
      switch (nx()) { case FN: nga_set_restricted_range_(&h.f, &lo, &hi); break; case F2: ga_set_restricted_range_(&h.f, &lo, &hi); break; case P32: case P64: h.p().setRestrictedRange(L.rlo, L.rhi); break; default: GA_Set_restricted_range(h.c, L.rlo, L.rhi); } break; }
  default: break;
  }
  if (ghost) switch (nx()) { case C64: GA_Set_ghosts64(h.c, wd6.data()); break; case FN: nga_set_ghosts_(&h.f, fw); break; case F2: ga_set_ghosts_(&h.f, fw); break;
      case P32: h.p().setGhosts(wd.data()); break; case P64: h.p().setGhosts(wd6.data()); break; default: GA_Set_ghosts(h.c, wd.data()); }
  if (irr) switch (nx()) { case C64: GA_Set_irreg_distr64(h.c, mp6.data(), nb6.data()); break; case FN: nga_set_irreg_distr_(&h.f, fmap.data(), fnb); break; case F2: ga_set_irreg_distr_(&h.f, fmap.data(), fnb); break;
      case P32: h.p().setIrregDistr(mp.data(), nb.data()); break; case P64: h.p().setIrregDistr(mp6.data(), nb6.data()); break; default: GA_Set_irreg_distr(h.c, mp.data(), nb.data()); }
  int a = 0;
  switch (nx()) { case FN: a = (int)nga_allocate_(&h.f); break; case F2: a = (int)ga_allocate_(&h.f); break; case P32: case P64: a = h.p().allocate(); break; default: a = GA_Allocate(h.c); }
  if (!a) harness_error("allocate failed: %s", L.str().c_str());
  return h.c;
}

// ---- queries ---------------------------------------------------------------
static void queries(Rng &lr, H &h, H &s, int type, const VL &dims, const std::string &name, const Layout &L) {
  int nd = (int)dims.size();
  auto bad = [&](const char *what, const std::string &d) { violation(fmt("lang-query-%s", what), "%s: %s", what, d.c_str()); };
  auto S = [](const FInt *v, int n) { std::string o; for (int k = 0; k < n; k++) o += fmt("%ld,", (long)v[k]); return o; };
  opmark("queries");
  { // inquire
    int t, n, d[8]; int64_t d6[8]; FInt ft, fn_, fd[8];
    NGA_Inquire(h.c, &t, &n, d);
    if (t != type || n != nd) bad("inquire", fmt("c: type %d ndim %d", t, n));
    for (int k = 0; k < nd; k++) if (d[k] != dims[k]) bad("inquire", "c: dims");
    NGA_Inquire64(h.c, &t, &n, d6);
    if (t != type || n != nd) bad("inquire", fmt("c64: type %d ndim %d", t, n));
    for (int k = 0; k < nd; k++) if (d6[k] != dims[k]) bad("inquire", "c64: dims");
    nga_inquire_(&h.f, &ft, &fn_, fd);
    if (ctype_of_f(ft) != type || fn_ != nd) bad("inquire", fmt("fortran: type %ld ndim %ld", (long)ft, (long)fn_));
    for (int k = 0; k < nd; k++) if (fd[k] != dims[nd - 1 - k]) bad("inquire", "fortran: dims " + S(fd, nd));
    if (type == C_DBL && ft != MT_F_DBL) bad("inquire", fmt("fortran type code %ld", (long)ft));
    if (nd == 2) { FInt a, b; ga_inquire_(&h.f, &ft, &a, &b); if (ctype_of_f(ft) != type || a != dims[1] || b != dims[0]) bad("inquire", fmt("fortran2d: %ld x %ld", (long)a, (long)b)); }
    h.p().inquire(&t, &n, d);
    if (t != type || n != nd) bad("inquire", "c++: type");
    for (int k = 0; k < nd; k++) if (d[k] != dims[k]) bad("inquire", "c++: dims");
    h.p().inquire(&t, &n, d6);
    for (int k = 0; k < nd; k++) if (d6[k] != dims[k]) bad("inquire", "c++64: dims");
    if (GA_Ndim(h.c) != nd || nga_ndim_(&h.f) != nd || ga_ndim_(&h.f) != nd || ga_get_dimension_(&h.f) != nd || h.p().ndim() != nd) bad("ndim", "wrong");
  }
  { // names
    if (name != GA_Inquire_name(h.c) || name != h.p().inquireName()) bad("name", std::string("c: ") + GA_Inquire_name(h.c));
    for (int v = 0; v < 4; v++) {
      std::string o((size_t)lr.in((long)name.size(), (long)name.size() + 9), '#');
      int len = (int)o.size();
      o += "##";
      if (v == 0) nga_inquire_name_(&h.f, &o[0], len);
      else if (v == 1) ga_inquire_name_(&h.f, &o[0], len);
      else if (v == 2) nga_get_array_name_(&h.f, &o[0], len);
      else ga_get_array_name_(&h.f, &o[0], len);
      if (o != fstr(name, len) + "##") bad("name", fmt("fortran variant %d: '%s' instead of '%s'", v, o.c_str(), name.c_str()));
    }
    const char *buf = GA_Inquire_name(h.c);
    if (name != buf) bad("name", fmt("GA_Inquire_name: '%s'", buf));
    count("names", 6);
  }
  { // distributions of every process
    int np_ = GA_Pgroup_nnodes(GA_Get_pgroup(h.c));
    if (nga_get_pgroup_(&h.f) != GA_Get_pgroup(h.c) || ga_get_pgroup_(&h.f) != GA_Get_pgroup(h.c)) bad("pgroup", "fortran");
    int tb = GA_Total_blocks(h.c);
    if (tb != (int)nga_total_blocks_(&h.f) || tb != (int)ga_total_blocks_(&h.f) || tb != h.p().totalBlocks() || tb != GA_Total_blocks(s.c)) bad("blocks", "total_blocks");
    for (int q = 0; q < (tb < 0 ? np_ : std::min(tb, 40)); q++) {
      int lo[8], hi[8], lo2[8], hi2[8]; int64_t l6[8], h6[8]; FInt fl[8], fh[8], fq = q;
      NGA_Distribution(s.c, q, lo, hi);
      auto cmp = [&](const char *w, auto *a, auto *b, bool f) {
        bool e = false, e2 = false;
        for (int k = 0; k < nd; k++) { if (hi[k] < lo[k]) e = true; int j = f ? nd - 1 - k : k; if (b[j] < a[j]) e2 = true; }
        if (e != e2) { bad("distribution", fmt("%s of %d: one is empty", w, q)); return; }
        if (e) return;
        for (int k = 0; k < nd; k++) { int j = f ? nd - 1 - k : k; if (a[j] - f != lo[k] || b[j] - f != hi[k]) { bad("distribution", fmt("%s of %d dimension %d: %ld..%ld instead of %d..%d", w, q, k, (long)a[j] - f, (long)b[j] - f, lo[k], hi[k])); return; } }
      };
      NGA_Distribution(h.c, q, lo2, hi2); cmp("c", lo2, hi2, false);
      NGA_Distribution64(h.c, q, l6, h6); cmp("c64", l6, h6, false);
      nga_distribution_(&h.f, &fq, fl, fh); cmp("fortran", fl, fh, true);
      if (nd == 2) { FInt a, b, c, d; ga_distribution_(&h.f, &fq, &a, &b, &c, &d); FInt x[2] = {a, c}, y[2] = {b, d}; cmp("fortran2d", x, y, true); }
      h.p().distribution(q, lo2, hi2); cmp("c++", lo2, hi2, false);
      h.p().distribution(q, l6, h6); cmp("c++64", l6, h6, false);
      count("distributions", 5);
    }
    if (GA_Compare_distr(h.c, s.c)) bad("compare", "distribution differs from the one made through C");
    // Fortran returns true when equal... the value is the same as the internal one: see below
    if (nga_compare_distr_(&h.f, &s.f) != ga_compare_distr_(&h.f, &s.f) || (h.p().compareDistr(&s.p()) != 0) != (GA_Compare_distr(h.c, s.c) != 0)) bad("compare", "interfaces disagree");
    if (!nga_compare_distr_(&h.f, &s.f)) bad("compare", "fortran: false for equal distributions");
    bool gh = GA_Has_ghosts(h.c);
    bool want = false; for (long w : L.width) if (w > 0) want = true;
    if (gh != want || !!nga_has_ghosts_(&h.f) != want || !!ga_has_ghosts_(&h.f) != want || !!h.p().hasGhosts() != want) bad("ghosts", "has_ghosts");
    if (L.kind != BCYC) {
      int nb[8], nb2[8]; FInt fb[8], fb2[8];
      GA_Nblock(h.c, nb); h.p().nblock(nb2); nga_nblock_(&h.f, fb); ga_nblock_(&h.f, fb2);
      for (int k = 0; k < nd; k++) if (nb2[k] != nb[k] || fb[nd - 1 - k] != nb[k] || fb2[nd - 1 - k] != nb[k]) bad("nblock", "interfaces disagree");
    }
    if (L.kind == SCALA || L.kind == TILED || L.kind == TILEDIRR) {
      int pg[8]; FInt fp[8];
      GA_Get_proc_grid(h.c, pg); nga_get_proc_grid_(&h.f, fp);
      for (int k = 0; k < nd; k++) if (pg[k] != L.grid[k] || fp[nd - 1 - k] != L.grid[k]) bad("proc-grid", "not the grid asked for");
    }
    if (L.kind == BCYC || L.kind == SCALA || L.kind == TILED) {
      int nbk[8], bd[8], nb2[8], bd2[8]; FInt fn_[8], fb[8];
      GA_Get_block_info(h.c, nbk, bd); nga_get_block_info_(&h.f, fn_, fb); h.p().getBlockInfo(nb2, bd2);
      for (int k = 0; k < nd; k++) if (bd[k] != L.blk[k] || fb[nd - 1 - k] != L.blk[k] || bd2[k] != L.blk[k] || fn_[nd - 1 - k] != nbk[k] || nb2[k] != nbk[k]) bad("block-info", "interfaces disagree");
    }
    // locate and locate_region
    for (int q = 0; q < 6; q++) {
      VL ix(nd), hx(nd);
      for (int k = 0; k < nd; k++) { ix[k] = lr.in(0, dims[k] - 1); hx[k] = lr.in(ix[k], dims[k] - 1); }
      Dims a(ix), b(hx);
      FV fa = rev(ix, 1), fb = rev(hx, 1);
      int w = NGA_Locate(h.c, a.i);
      FInt o = -9, o2 = -9;
      FInt st = nga_locate_(&h.f, fa, &o);
      if (!st || o != w || NGA_Locate64(h.c, a.l) != w || h.p().locate(a.i) != w || h.p().locate(a.l) != w) bad("locate", fmt("c %d fortran %ld", w, (long)o));
      if (nd == 2) { st = ga_locate_(&h.f, &fa[0], &fa[1], &o2); if (!st || o2 != w) bad("locate", fmt("fortran2d %ld instead of %d", (long)o2, w)); }
      long nblk = std::max(tb < 0 ? np_ : tb, 1);
      std::vector<int> mp(nblk * 2 * nd, -7), pr(nblk, -7), mp2(mp), pr2(pr);
      std::vector<int64_t> m6(nblk * 2 * nd, -7);
      std::vector<FInt> fm(nblk * 2 * nd, -7), fpr(nblk, -7);
      int n = NGA_Locate_region(h.c, a.i, b.i, mp.data(), pr.data());
      int n2 = h.p().locateRegion(a.i, b.i, mp2.data(), pr2.data());
      if (n2 != n || mp2 != mp || pr2 != pr) bad("locate-region", "c++ differs");
      std::vector<int> pr3(nblk, -7);
      int n3 = (int)NGA_Locate_region64(h.c, a.l, b.l, m6.data(), pr3.data());
      if (n3 != n || pr3 != pr) bad("locate-region", "c64 differs");
      for (int k = 0; k < n * 2 * nd && n3 == n; k++) if (m6[k] != mp[k]) { bad("locate-region", "c64 map differs"); break; }
      FInt fnp = -1;
      st = nga_locate_region_(&h.f, fa, fb, fm.data(), fpr.data(), &fnp);
      if (!st || fnp != n) bad("locate-region", fmt("fortran finds %ld blocks instead of %d", (long)fnp, n));
      else for (int k = 0; k < n; k++) {
        bool ok = fpr[k] == pr[k];
        for (int d = 0; d < nd; d++) if (fm[k * 2 * nd + d] - 1 != mp[k * 2 * nd + nd - 1 - d] || fm[k * 2 * nd + nd + d] - 1 != mp[k * 2 * nd + 2 * nd - 1 - d]) ok = false;
        if (!ok) { bad("locate-region", fmt("fortran block %d differs", k)); break; }
      }
      if (nd == 2 && tb < 0) {
        std::vector<FInt> m5(5 * nblk, -7); FInt np5 = -1;
        st = ga_locate_region_(&h.f, &fa[0], &fb[0], &fa[1], &fb[1], m5.data(), &np5);
        bool ok = st && np5 == n;
        for (int k = 0; k < n && ok; k++) {
          const int *c = &mp[k * 4]; const FInt *m = &m5[k * 5]; // c: lo0 lo1 hi0 hi1; m: ilo ihi jlo jhi proc
          if (m[0] - 1 != c[1] || m[1] - 1 != c[3] || m[2] - 1 != c[0] || m[3] - 1 != c[2] || m[4] != pr[k]) ok = false;
        }
        if (!ok) bad("locate-region", "fortran2d differs");
      }
      count("locates", 4);
    }
  }
}

// ---- one-sided -------------------------------------------------------------
struct Op {
  int rank, f; char fam, kind; Patch p; VL skip, ext; std::vector<std::pair<long, long>> el; uint64_t vs; long a_re, a_im; long bytes;
  std::string str() const { return fmt("%s %c%c %s n=%zu", ifn(f), fam, kind, fam == 's' ? "" : p.str().c_str(), el.size()); }
};
static VL unlin(long l, const VL &dims) { VL ix(dims.size()); for (int k = (int)dims.size() - 1; k >= 0; k--) { ix[k] = l % dims[k]; l /= dims[k]; } return ix; }

static void call(Op &o, H h, char *buf, void *al, const VL &dims, Rng &lr) {
  int nd = (int)dims.size();
  Dims lo(o.p.lo), hi(o.p.hi), sk(o.skip);
  VL ldv(o.ext.begin() + 1, o.ext.end()); if (ldv.empty()) ldv.push_back(1);
  Dims ld(ldv);
  FV flo = rev(o.p.lo, 1), fhi = rev(o.p.hi, 1), fsk = rev(o.skip, 0), fext = rev(o.ext, 0);
  if (nd == 1) fext.v[0] = 1 + fext.v[0];
  auto &P = h.p();
  bool d2 = o.f == F2;
  int f = o.f == F2 ? FN : o.f;
  if (o.fam == 'n') { // blocking
    if (o.kind == 'p') switch (f) { case C32: NGA_Put(h.c, lo.i, hi.i, buf, ld.i); break; case C64: NGA_Put64(h.c, lo.l, hi.l, buf, ld.l); break;
      case FN: if (d2) ga_put_(&h.f, &flo[0], &fhi[0], &flo[1], &fhi[1], buf, &fext[0]); else nga_put_(&h.f, flo, fhi, buf, fext); break;
      case P32: P.put(lo.i, hi.i, buf, ld.i); break; case P64: P.put(lo.l, hi.l, buf, ld.l); break; }
    else if (o.kind == 'g') switch (f) { case C32: NGA_Get(h.c, lo.i, hi.i, buf, ld.i); break; case C64: NGA_Get64(h.c, lo.l, hi.l, buf, ld.l); break;
      case FN: if (d2) ga_get_(&h.f, &flo[0], &fhi[0], &flo[1], &fhi[1], buf, &fext[0]); else nga_get_(&h.f, flo, fhi, buf, fext); break;
      case P32: P.get(lo.i, hi.i, buf, ld.i); break; case P64: P.get(lo.l, hi.l, buf, ld.l); break; }
    else switch (f) { case C32: NGA_Acc(h.c, lo.i, hi.i, buf, ld.i, al); break; case C64: NGA_Acc64(h.c, lo.l, hi.l, buf, ld.l, al); break;
      case FN: if (d2) ga_acc_(&h.f, &flo[0], &fhi[0], &flo[1], &fhi[1], buf, &fext[0], al); else nga_acc_(&h.f, flo, fhi, buf, fext, al); break;
      case P32: P.acc(lo.i, hi.i, buf, ld.i, al); break; case P64: P.acc(lo.l, hi.l, buf, ld.l, al); break; }
  } else if (o.fam == 'b') { // non-blocking
    ga_nbhdl_t nb; GANbhdl pnb; FInt fnb = 0;
    if (o.kind == 'p') switch (f) { case C32: NGA_NbPut(h.c, lo.i, hi.i, buf, ld.i, &nb); break; case C64: NGA_NbPut64(h.c, lo.l, hi.l, buf, ld.l, &nb); break;
      case FN: if (d2) ga_nbput_(&h.f, &flo[0], &fhi[0], &flo[1], &fhi[1], buf, &fext[0], &fnb); else nga_nbput_(&h.f, flo, fhi, buf, fext, &fnb); break;
      case P32: P.nbPut(lo.i, hi.i, buf, ld.i, &pnb); break; case P64: P.nbPut(lo.l, hi.l, buf, ld.l, &pnb); break; }
    else if (o.kind == 'g') switch (f) { case C32: NGA_NbGet(h.c, lo.i, hi.i, buf, ld.i, &nb); break; case C64: NGA_NbGet64(h.c, lo.l, hi.l, buf, ld.l, &nb); break;
      case FN: if (d2) ga_nbget_(&h.f, &flo[0], &fhi[0], &flo[1], &fhi[1], buf, &fext[0], &fnb); else nga_nbget_(&h.f, flo, fhi, buf, fext, &fnb); break;
      case P32: P.nbGet(lo.i, hi.i, buf, ld.i, &pnb); break; case P64: P.nbGet(lo.l, hi.l, buf, ld.l, &pnb); break; }
    else switch (f) { case C32: NGA_NbAcc(h.c, lo.i, hi.i, buf, ld.i, al, &nb); break; case C64: NGA_NbAcc64(h.c, lo.l, hi.l, buf, ld.l, al, &nb); break;
      case FN: if (d2) ga_nbacc_(&h.f, &flo[0], &fhi[0], &flo[1], &fhi[1], buf, &fext[0], al, &fnb); else nga_nbacc_(&h.f, flo, fhi, buf, fext, al, &fnb); break;
      case P32: P.nbAcc(lo.i, hi.i, buf, ld.i, al, &pnb); break; case P64: P.nbAcc(lo.l, hi.l, buf, ld.l, al, &pnb); break; }
    if (f == FN) { // the test returns 1 when complete; a completed handle must not be waited for
      bool done = false;
      if (lr.one_in(2)) for (int k = 0; k < 3 && !done; k++) done = d2 ? ga_nbtest_(&fnb) : nga_nbtest_(&fnb);
      if (!done) { if (d2) ga_nbwait_(&fnb); else nga_nbwait_(&fnb); }
    } else if (cpp(f)) NGA_NbWait(&pnb);
    else NGA_NbWait(&nb);
  } else if (o.fam == 't') {
    if (o.kind == 'p') switch (f) { case C32: NGA_Strided_put(h.c, lo.i, hi.i, sk.i, buf, ld.i); break; case C64: NGA_Strided_put64(h.c, lo.l, hi.l, sk.l, buf, ld.l); break;
      case FN: nga_strided_put_(&h.f, flo, fhi, fsk, buf, fext); break; case P32: P.stridedPut(lo.i, hi.i, sk.i, buf, ld.i); break; case P64: P.stridedPut(lo.l, hi.l, sk.l, buf, ld.l); break; }
    else if (o.kind == 'g') switch (f) { case C32: NGA_Strided_get(h.c, lo.i, hi.i, sk.i, buf, ld.i); break; case C64: NGA_Strided_get64(h.c, lo.l, hi.l, sk.l, buf, ld.l); break;
      case FN: nga_strided_get_(&h.f, flo, fhi, fsk, buf, fext); break; case P32: P.stridedGet(lo.i, hi.i, sk.i, buf, ld.i); break; case P64: P.stridedGet(lo.l, hi.l, sk.l, buf, ld.l); break; }
    else switch (f) { case C32: NGA_Strided_acc(h.c, lo.i, hi.i, sk.i, buf, ld.i, al); break; case C64: NGA_Strided_acc64(h.c, lo.l, hi.l, sk.l, buf, ld.l, al); break;
      case FN: nga_strided_acc_(&h.f, flo, fhi, fsk, buf, fext, al); break; case P32: P.stridedAcc(lo.i, hi.i, sk.i, buf, ld.i, al); break; case P64: P.stridedAcc(lo.l, hi.l, sk.l, buf, ld.l, al); break; }
  } else if (o.fam == 'p') {
    if (o.kind == 'p') switch (f) { case C32: NGA_Periodic_put(h.c, lo.i, hi.i, buf, ld.i); break; case C64: NGA_Periodic_put64(h.c, lo.l, hi.l, buf, ld.l); break;
      case FN: nga_periodic_put_(&h.f, flo, fhi, buf, fext); break; case P32: P.periodicPut(lo.i, hi.i, buf, ld.i); break; case P64: P.periodicPut(lo.l, hi.l, buf, ld.l); break; }
    else if (o.kind == 'g') switch (f) { case C32: NGA_Periodic_get(h.c, lo.i, hi.i, buf, ld.i); break; case C64: NGA_Periodic_get64(h.c, lo.l, hi.l, buf, ld.l); break;
      case FN: nga_periodic_get_(&h.f, flo, fhi, buf, fext); break; case P32: P.periodicGet(lo.i, hi.i, buf, ld.i); break; case P64: P.periodicGet(lo.l, hi.l, buf, ld.l); break; }
    else switch (f) { case C32: NGA_Periodic_acc(h.c, lo.i, hi.i, buf, ld.i, al); break; case C64: NGA_Periodic_acc64(h.c, lo.l, hi.l, buf, ld.l, al); break;
      case FN: nga_periodic_acc_(&h.f, flo, fhi, buf, fext, al); break; case P32: P.periodicAcc(lo.i, hi.i, buf, ld.i, al); break; case P64: P.periodicAcc(lo.l, hi.l, buf, ld.l, al); break; }
  } else { // scatter and gather
    int n = (int)o.el.size();
    FInt fn_ = n;
    std::vector<int> fl; std::vector<int64_t> fl6; std::vector<FInt> ff, fi, fj; std::vector<int *> pp; std::vector<int64_t *> pp6;
    for (auto &e : o.el) {
      VL ix = unlin(e.first, dims);
      for (long x : ix) { fl.push_back((int)x); fl6.push_back(x); }
      for (int k = nd - 1; k >= 0; k--) ff.push_back(ix[k] + 1);
      if (nd == 2) { fi.push_back(ix[1] + 1); fj.push_back(ix[0] + 1); }
    }
    for (int k = 0; k < n; k++) { pp.push_back(&fl[k * nd]); pp6.push_back(&fl6[k * nd]); }
    auto ff0 = ff, fi0 = fi, fj0 = fj;
    if (o.kind == 'p') switch (f) { case C32: NGA_Scatter(h.c, buf, pp.data(), n); break; case C64: NGA_Scatter64(h.c, buf, pp6.data(), n); break;
      case FN: if (d2) ga_scatter_(&h.f, buf, fi.data(), fj.data(), &fn_); else nga_scatter_(&h.f, buf, ff.data(), &fn_); break;
      case P32: P.scatter(buf, pp.data(), n); break; case P64: P.scatter(buf, pp6.data(), (int64_t)n); break; }
    else if (o.kind == 'g') switch (f) { case C32: NGA_Gather(h.c, buf, pp.data(), n); break; case C64: NGA_Gather64(h.c, buf, pp6.data(), n); break;
      case FN: if (d2) ga_gather_(&h.f, buf, fi.data(), fj.data(), &fn_); else nga_gather_(&h.f, buf, ff.data(), &fn_); break;
      case P32: P.gather(buf, pp.data(), n); break; case P64: P.gather(buf, pp6.data(), (int64_t)n); break; }
    else switch (f) { case C32: NGA_Scatter_acc(h.c, buf, pp.data(), n, al); break; case C64: NGA_Scatter_acc64(h.c, buf, pp6.data(), n, al); break;
      case FN: if (d2) ga_scatter_acc_(&h.f, buf, fi.data(), fj.data(), &fn_, al); else nga_scatter_acc_(&h.f, buf, ff.data(), &fn_, al); break;
      case P32: P.scatterAcc(buf, pp.data(), n, al); break; case P64: P.scatterAcc(buf, pp6.data(), (int64_t)n, al); break; }
    if (ff != ff0 || fi != fi0 || fj != fj0) violation("lang-index-changed", "%s changed its index list", o.str().c_str());
  }
}
static Val opval(const Op &o, size_t k, int type) { uint64_t s = o.vs + k * 0x9E3779B97F4A7C15ull; Rng r(s); return rnd_val(type, r, 20); }

static void onesided(Rng &gr, Rng &lr, Group &g, H h, MArr &m, int type, const VL &dims, const Layout &L) {
  int nd = (int)dims.size();
  bool bc = L.kind == BCYC || L.kind == SCALA || L.kind == TILED || L.kind == TILEDIRR;
  std::vector<Op> ops;
  std::vector<char> use(m.n, 0); // 1 read, 2 accumulated, 3 written
  int nops = (int)gr.in(2, 5) * g.size();
  for (int k = 0; k < nops; k++) {
    Op o;
    o.rank = (int)gr.in(0, g.size() - 1);
    o.f = rnd_if(gr, nd);
    o.fam = "nnbbtpss"[gr.in(0, 7)];
    o.kind = "pga"[gr.in(0, 2)];
    if (o.f == F2 && (o.fam == 't' || o.fam == 'p')) o.fam = 'n';
    o.vs = gr.next(); o.a_re = gr.one_in(3) ? 1 : gr.in(-3, 3); o.a_im = gr.one_in(2) ? 0 : gr.in(-2, 2);
    VL pad = rnd_pad(gr, nd);
    long es = m.es;
    if (o.fam == 's') {
      std::set<long> st; long n = gr.in(1, std::min(m.n, 30L));
      for (long q = 0; q < n; q++) st.insert(gr.in(0, m.n - 1));
      std::vector<long> v(st.begin(), st.end()); gr.shuffle(v);
      for (size_t q = 0; q < v.size(); q++) o.el.push_back({v[q], (long)q * es});
      o.p = whole(VL(nd, 1)); o.skip.assign(nd, 1); o.ext.assign(nd, 1); o.bytes = (long)v.size() * es;
    } else {
      o.p = rnd_patch(gr, dims);
      o.skip.assign(nd, 1);
      if (o.fam == 't') for (auto &x : o.skip) x = gr.one_in(3) ? 1 : gr.in(1, 4);
      if (o.fam == 'p') for (int q = 0; q < nd; q++) {
        long w = o.p.hi[q] - o.p.lo[q] + 1, l = gr.one_in(3) ? gr.in(-2 * dims[q], 2 * dims[q]) : o.p.lo[q] + dims[q] * gr.in(-1, 1);
        o.p.lo[q] = l; o.p.hi[q] = l + w - 1;
      }
      o.ext.resize(nd);
      for (int q = 0; q < nd; q++) o.ext[q] = (o.p.hi[q] - o.p.lo[q]) / o.skip[q] + 1 + (q > 0 ? pad[q] : 0);
      Patch idx; idx.lo.assign(nd, 0); idx.hi.resize(nd);
      for (int q = 0; q < nd; q++) idx.hi[q] = (o.p.hi[q] - o.p.lo[q]) / o.skip[q];
      long last = 0;
      each(idx, [&](const VL &ix, long) {
        long lin = 0, off = 0;
        for (int q = 0; q < nd; q++) { long x = o.p.lo[q] + ix[q] * o.skip[q]; x %= dims[q]; if (x < 0) x += dims[q]; lin = lin * dims[q] + x; off = off * o.ext[q] + ix[q]; }
        o.el.push_back({lin, off * es}); last = std::max(last, off);
      });
      o.bytes = (last + 1) * es;
    }
    char want = o.kind == 'g' ? 1 : o.kind == 'a' ? 2 : 3;
    bool ok = true;
    for (auto &e : o.el) if (use[e.first] && (use[e.first] != want || want == 3)) { ok = false; break; }
    if (o.fam == 'p' && o.kind != 'g') { std::set<long> st; for (auto &e : o.el) if (!st.insert(e.first).second) { ok = false; break; } }
    if (!ok) continue;
    for (auto &e : o.el) use[e.first] = want;
    ops.push_back(o);
  }
  (void)bc;
  for (auto &o : ops) {
    Val al; al.i = o.a_re; al.re = (double)o.a_re; al.im = is_cpl(type) ? (double)o.a_im : 0;
    if (g.rank == o.rank) {
      char ab[32] = {0}; store(type, ab, al);
      std::vector<char> raw(64 + o.bytes + 64);
      for (size_t q = 0; q < raw.size(); q++) raw[q] = (char)(0xA0 + q % 13);
      char *buf = raw.data() + 64;
      if (o.kind != 'g') for (size_t q = 0; q < o.el.size(); q++) store(type, buf + o.el[q].second, opval(o, q, type));
      std::vector<char> before = raw;
      opmark("%s", o.str().c_str());
      call(o, h, buf, ab, dims, lr);
      std::vector<char> exp = before;
      if (o.kind == 'g') for (size_t q = 0; q < o.el.size(); q++) memcpy(exp.data() + 64 + o.el[q].second, m.at(o.el[q].first), m.es);
      if (raw != exp) {
        size_t w = 0; while (raw[w] == exp[w]) w++;
        violation(fmt("lang-onesided-%c%c", o.fam, o.kind), "%s: buffer byte %ld is wrong", o.str().c_str(), (long)w - 64);
      }
      count("onesided");
      count(fmt("if_%s", ifn(o.f)).c_str());
      count("elements_compared", (long)o.el.size());
    }
    progress("op");
  }
  for (auto &o : ops) {
    Val al; al.i = o.a_re; al.re = (double)o.a_re; al.im = is_cpl(type) ? (double)o.a_im : 0;
    if (o.kind == 'g') continue;
    for (size_t q = 0; q < o.el.size(); q++) {
      Val v = opval(o, q, type);
      if (o.kind == 'p') m.set(o.el[q].first, v); else m.set(o.el[q].first, vadd(type, m.get(o.el[q].first), vmul(type, al, v)));
    }
  }
  switch (g.world ? (int)gr.in(0, 4) : (int)gr.in(5, 7)) { case 0: GA_Sync(); break; case 1: ga_sync_(); break; case 2: nga_sync_(); break; case 3: GA::SERVICES.sync(); break; case 4: GA::sync(); break;
    case 5: GA_Pgroup_sync(g.h); break; case 6: { FInt p = g.h; ga_pgroup_sync_(&p); break; } default: { FInt p = g.h; nga_pgroup_sync_(&p); } }
}

// ---- collective operations: through interface f on a[], through C on z[] -----
static void collective(Rng &gr, Group &g, std::vector<H> &a, std::vector<H> &z, std::vector<MArr> &m, int type, const VL &dims, const Layout &L) {
  int nd = (int)dims.size();
  bool bc = L.kind == BCYC || L.kind == SCALA || L.kind == TILED || L.kind == TILEDIRR;
  int f = rnd_if(gr, nd);
  int d = (int)gr.in(0, 2), x = (int)gr.in(0, 2), y = (int)gr.in(0, 2);
  Patch p = rnd_patch(gr, dims), q = p;
  Val va = ival(type, gr.in(-3, 3)), vb = ival(type, gr.in(-3, 3));
  if (is_cpl(type)) { va.im = (double)gr.in(-2, 2); vb.im = (double)gr.in(-2, 2); }
  char ab[32] = {0}, bb[32] = {0};
  store(type, ab, va); store(type, bb, vb);
  Dims lo(p.lo), hi(p.hi), blo(q.lo), bhi(q.hi);
  FV fl = rev(p.lo, 1), fh = rev(p.hi, 1), fl2 = rev(q.lo, 1), fh2 = rev(q.hi, 1);
  bool fort = f == FN || f == F2, two = f == F2, typed = gr.one_in(2);
  auto cmpr = [&](const char *what, const void *u, const void *w, long n) { count("scalars"); if (memcmp(u, w, n)) violation(fmt("lang-scalar-%s", what), "%s through %s: %s, through C: %s", what, ifn(f), vstr(type, load(type, (const char *)u)).c_str(), vstr(type, load(type, (const char *)w)).c_str()); };
  int what = (int)gr.in(0, 24);
  static const char *wn[] = {"zero", "fill", "scale", "copy", "add", "dot", "zero_patch", "fill_patch", "scale_patch", "copy_patch", "add_patch", "dot_patch", "elem2", "elem2_patch", "abs", "addconst", "transpose", "symmetrize", "norms", "diag", "select", "gemm", "matmul_patch", "ghosts", "pack"};
  bool sq = nd == 2 && dims[0] == dims[1], ll = type == C_LONGLONG, isint = is_int(type);
  if (nd == 2 && !isint && gr.one_in(8)) what = gr.one_in(2) ? 22 : 19;
  if (sq && gr.one_in(3)) { static const std::vector<int> w = {16, 17, 19, 21}; what = gr.pick(w); }
  if ((L.kind == GHOST || L.kind == GHOSTIRR) && gr.one_in(3)) what = 23;
  if ((what == 16 || what == 17 || what == 19 || what == 21) && !sq) what = 4;
  if (what == 22 && nd != 2) what = 10;
  if (what == 23 && L.kind != GHOST && L.kind != GHOSTIRR) what = 9;
  if (what == 24) what = 2;
  if (what == 3 && x == d) x = (d + 1) % 3; // an array is not copied to itself
  if ((what == 21 || what == 22) && (isint || bc)) what = 4;
  if (what == 17 && (type != C_DBL || bc || L.width.size())) what = 8;
  if ((what == 16 || what == 19) && bc) what = 7;
  if (what == 20 && is_cpl(type)) what = 5;
  if ((what >= 12 && what <= 15) && ll) what = 0;
  opmark("%s through %s", wn[what], ifn(f));
  H A = a[d], Z = z[d], X = a[x], ZX = z[x], Y = a[y], ZY = z[y];
  auto &P = A.p();
  char no = 'n', yes = 't';
  switch (what) {
  case 0: GA_Zero(Z.c); if (fort) two ? ga_zero_(&A.f) : nga_zero_(&A.f); else if (cpp(f)) P.zero(); else GA_Zero(A.c); break;
  case 1: GA_Fill(Z.c, ab); if (fort) two ? ga_fill_(&A.f, ab) : nga_fill_(&A.f, ab); else if (cpp(f)) P.fill(ab); else GA_Fill(A.c, ab); break;
  case 2: GA_Scale(Z.c, ab);
    if (fort) {
      if (!typed) two ? ga_scale_(&A.f, ab) : nga_scale_(&A.f, ab);
      else if (type == C_DBL) { int w = (int)gr.in(0, 2); w == 0 ? ga_dscal_(&A.f, (double *)ab) : w == 1 ? ga_dscale_(&A.f, (double *)ab) : nga_dscale_(&A.f, (double *)ab); }
      else if (type == C_FLOAT) { int w = (int)gr.in(0, 2); w == 0 ? ga_sscal_(&A.f, (float *)ab) : w == 1 ? ga_sscale_(&A.f, (float *)ab) : nga_sscale_(&A.f, (float *)ab); }
      else if (type == C_SCPL) { int w = (int)gr.in(0, 2); w == 0 ? ga_cscal_(&A.f, ab) : w == 1 ? ga_cscale_(&A.f, ab) : nga_cscale_(&A.f, ab); }
      else if (type == C_DCPL) { int w = (int)gr.in(0, 2); w == 0 ? ga_zscal_(&A.f, ab) : w == 1 ? ga_zscale_(&A.f, ab) : nga_zscale_(&A.f, ab); }
      else { int w = (int)gr.in(0, 2); w == 0 ? ga_iscal_(&A.f, (FInt *)ab) : w == 1 ? ga_iscale_(&A.f, (FInt *)ab) : nga_iscale_(&A.f, (FInt *)ab); }
    } else if (cpp(f)) P.scale(ab); else GA_Scale(A.c, ab);
    break;
  case 3: GA_Copy(ZX.c, Z.c); if (fort) two ? ga_copy_(&X.f, &A.f) : nga_copy_(&X.f, &A.f); else if (cpp(f)) P.copy(&X.p()); else GA_Copy(X.c, A.c); break;
  case 4: GA_Add(ab, ZX.c, bb, ZY.c, Z.c);
    if (fort) {
      if (!typed) two ? ga_add_(ab, &X.f, bb, &Y.f, &A.f) : nga_add_(ab, &X.f, bb, &Y.f, &A.f);
      else if (type == C_DBL) two ? ga_dadd_((double *)ab, &X.f, (double *)bb, &Y.f, &A.f) : nga_dadd_((double *)ab, &X.f, (double *)bb, &Y.f, &A.f);
      else if (type == C_FLOAT) two ? ga_sadd_((float *)ab, &X.f, (float *)bb, &Y.f, &A.f) : nga_sadd_((float *)ab, &X.f, (float *)bb, &Y.f, &A.f);
      else if (type == C_SCPL) two ? ga_cadd_(ab, &X.f, bb, &Y.f, &A.f) : nga_cadd_(ab, &X.f, bb, &Y.f, &A.f);
      else if (type == C_DCPL) two ? ga_zadd_(ab, &X.f, bb, &Y.f, &A.f) : nga_zadd_(ab, &X.f, bb, &Y.f, &A.f);
      else two ? ga_iadd_((FInt *)ab, &X.f, (FInt *)bb, &Y.f, &A.f) : nga_iadd_((FInt *)ab, &X.f, (FInt *)bb, &Y.f, &A.f);
    } else if (cpp(f)) P.add(ab, &X.p(), bb, &Y.p()); else GA_Add(ab, X.c, bb, Y.c, A.c);
    break;
  case 5: case 11: {
    bool pt = what == 11;
    char ta = pt && gr.one_in(3) && !bc && sq ? 't' : 'n', tb = ta;
    if (!pt && f == C64) f = C32;
    char u[16] = {0}, w[16] = {0};
    char fta[2] = {ta, 0}, ftb[2] = {tb, 0};
    FInt *l0 = &fl[0], *h0 = &fh[0], *l1 = &fl[1], *h1 = &fh[1];
#define DOT(T, C, C6, CP, CP6, FF, FF2, FP, FP2, PP, PPP) do { \
      T r1 = pt ? CP(ZX.c, ta, lo.i, hi.i, ZY.c, tb, lo.i, hi.i) : C(ZX.c, ZY.c), r2; \
      if (fort) r2 = (T)(pt ? (two ? FP2(&X.f, fta, l0, h0, l1, h1, &Y.f, ftb, l0, h0, l1, h1, 1, 1) : FP(&X.f, fta, fl, fh, &Y.f, ftb, fl, fh, 1, 1)) : (two ? FF2(&X.f, &Y.f) : FF(&X.f, &Y.f))); \
      else if (f == P32) r2 = pt ? X.p().PPP(ta, lo.i, hi.i, &Y.p(), tb, lo.i, hi.i) : X.p().PP(&Y.p()); \
      else if (f == P64) r2 = pt ? X.p().PPP(ta, lo.l, hi.l, &Y.p(), tb, lo.l, hi.l) : X.p().PP(&Y.p()); \
      else r2 = pt ? (f == C64 ? CP6(X.c, ta, lo.l, hi.l, Y.c, tb, lo.l, hi.l) : CP(X.c, ta, lo.i, hi.i, Y.c, tb, lo.i, hi.i)) : C(X.c, Y.c); \
      memcpy(u, &r2, sizeof r2); memcpy(w, &r1, sizeof r1); } while (0)
    if (type == C_DBL) DOT(double, GA_Ddot, 0, NGA_Ddot_patch, NGA_Ddot_patch64, nga_ddot_, ga_ddot_, nga_ddot_patch_, ga_ddot_patch_, ddot, ddotPatch);
    else if (type == C_FLOAT) DOT(float, GA_Fdot, 0, NGA_Fdot_patch, NGA_Fdot_patch64, nga_sdot_, ga_sdot_, nga_sdot_patch_, ga_sdot_patch_, fdot, fdotPatch);
    else if (type == C_LONG) DOT(long, GA_Ldot, 0, NGA_Ldot_patch, NGA_Ldot_patch64, nga_idot_, ga_idot_, nga_idot_patch_, ga_idot_patch_, ldot, ldotPatch);
    else if (type == C_DCPL) {
      DoubleComplex r1 = pt ? NGA_Zdot_patch(ZX.c, ta, lo.i, hi.i, ZY.c, tb, lo.i, hi.i) : GA_Zdot(ZX.c, ZY.c), r2;
      if (fort) {
        if (pt) { if (two) gai_zdot_patch_(&X.f, fta, l0, h0, l1, h1, &Y.f, ftb, l0, h0, l1, h1, &r2, 1, 1); else ngai_zdot_patch_(&X.f, fta, fl, fh, &Y.f, ftb, fl, fh, &r2, 1, 1); }
        else if (two) gai_zdot_(&X.f, &Y.f, &r2); else ngai_zdot_(&X.f, &Y.f, &r2);
      } else if (f == P32) r2 = pt ? X.p().zdotPatch(ta, lo.i, hi.i, &Y.p(), tb, lo.i, hi.i) : X.p().zdot(&Y.p());
      else if (f == P64) r2 = pt ? X.p().zdotPatch(ta, lo.l, hi.l, &Y.p(), tb, lo.l, hi.l) : X.p().zdot(&Y.p());
      else r2 = pt ? NGA_Zdot_patch64(X.c, ta, lo.l, hi.l, Y.c, tb, lo.l, hi.l) : GA_Zdot(X.c, Y.c);
      memcpy(u, &r2, sizeof r2); memcpy(w, &r1, sizeof r1);
    } else if (type == C_INT) { // a 32-bit result; the Fortran function is declared Integer
      int r1 = pt ? NGA_Idot_patch(ZX.c, ta, lo.i, hi.i, ZY.c, tb, lo.i, hi.i) : GA_Idot(ZX.c, ZY.c), r2;
      if (f == P32) r2 = (int)(pt ? X.p().idotPatch(ta, lo.i, hi.i, &Y.p(), tb, lo.i, hi.i) : X.p().idot(&Y.p()));
      else if (f == P64) r2 = (int)(pt ? X.p().idotPatch(ta, lo.l, hi.l, &Y.p(), tb, lo.l, hi.l) : X.p().idot(&Y.p()));
      else r2 = pt ? NGA_Idot_patch64(X.c, ta, lo.l, hi.l, Y.c, tb, lo.l, hi.l) : GA_Idot(X.c, Y.c);
      memcpy(u, &r2, sizeof r2); memcpy(w, &r1, sizeof r1);
    }
    cmpr(wn[what], u, w, m[0].es);
    break;
  }
  case 6: NGA_Zero_patch(Z.c, lo.i, hi.i); if (two) ga_zero_patch_(&A.f, &fl[0], &fh[0], &fl[1], &fh[1]); else if (f == FN) nga_zero_patch_(&A.f, fl, fh); else if (f == P32) P.zeroPatch(lo.i, hi.i); else if (f == P64) P.zeroPatch(lo.l, hi.l); else if (f == C64) NGA_Zero_patch64(A.c, lo.l, hi.l); else NGA_Zero_patch(A.c, lo.i, hi.i); break;
  case 7: NGA_Fill_patch(Z.c, lo.i, hi.i, ab);
    if (two) { if (!typed) ga_fill_patch_(&A.f, &fl[0], &fh[0], &fl[1], &fh[1], ab); else if (type == C_DBL) ga_dfill_patch_(&A.f, &fl[0], &fh[0], &fl[1], &fh[1], (double *)ab); else if (type == C_FLOAT) ga_sfill_patch_(&A.f, &fl[0], &fh[0], &fl[1], &fh[1], (float *)ab);
      else if (type == C_SCPL) ga_cfill_patch_(&A.f, &fl[0], &fh[0], &fl[1], &fh[1], ab); else if (type == C_DCPL) ga_zfill_patch_(&A.f, &fl[0], &fh[0], &fl[1], &fh[1], ab); else ga_ifill_patch_(&A.f, &fl[0], &fh[0], &fl[1], &fh[1], (FInt *)ab); }
    else if (f == FN) { if (!typed) nga_fill_patch_(&A.f, fl, fh, ab); else if (type == C_DBL) nga_dfill_patch_(&A.f, fl, fh, (double *)ab); else if (type == C_FLOAT) nga_sfill_patch_(&A.f, fl, fh, ab);
      else if (type == C_SCPL) nga_cfill_patch_(&A.f, fl, fh, ab); else if (type == C_DCPL) nga_zfill_patch_(&A.f, fl, fh, ab); else nga_ifill_patch_(&A.f, fl, fh, (FInt *)ab); }
    else if (f == P32) P.fillPatch(lo.i, hi.i, ab); else if (f == P64) P.fillPatch(lo.l, hi.l, ab); else if (f == C64) NGA_Fill_patch64(A.c, lo.l, hi.l, ab); else NGA_Fill_patch(A.c, lo.i, hi.i, ab);
    break;
  case 8: NGA_Scale_patch(Z.c, lo.i, hi.i, ab);
    if (two) { if (!typed) ga_scale_patch_(&A.f, &fl[0], &fh[0], &fl[1], &fh[1], ab); else if (type == C_DBL) ga_dscal_patch_(&A.f, &fl[0], &fh[0], &fl[1], &fh[1], (double *)ab); else if (type == C_FLOAT) ga_sscal_patch_(&A.f, &fl[0], &fh[0], &fl[1], &fh[1], (float *)ab);
      else if (type == C_SCPL) ga_cscal_patch_(&A.f, &fl[0], &fh[0], &fl[1], &fh[1], ab); else if (type == C_DCPL) ga_zscal_patch_(&A.f, &fl[0], &fh[0], &fl[1], &fh[1], ab); else ga_iscal_patch_(&A.f, &fl[0], &fh[0], &fl[1], &fh[1], (FInt *)ab); }
    else if (f == FN) { if (!typed) nga_scale_patch_(&A.f, fl, fh, ab); else if (type == C_DBL) nga_dscale_patch_(&A.f, fl, fh, (double *)ab); else if (type == C_FLOAT) nga_sscale_patch_(&A.f, fl, fh, (float *)ab);
      else if (type == C_SCPL) nga_cscale_patch_(&A.f, fl, fh, ab); else if (type == C_DCPL) nga_zscale_patch_(&A.f, fl, fh, ab); else nga_iscale_patch_(&A.f, fl, fh, (FInt *)ab); }
    else if (f == P32) P.scalePatch(lo.i, hi.i, ab); else if (f == P64) P.scalePatch(lo.l, hi.l, ab); else if (f == C64) NGA_Scale_patch64(A.c, lo.l, hi.l, ab); else NGA_Scale_patch(A.c, lo.i, hi.i, ab);
    break;
  case 9: {
    if (x == d) { x = (d + 1) % 3; X = a[x]; ZX = z[x]; }
    // a shifted patch of the same shape, or a transposed one
    bool tr = nd == 2 && gr.one_in(3) && !bc && L.width.empty();
    VL sl(nd), sh(nd);
    if (tr) { long e0 = p.hi[0] - p.lo[0], e1 = p.hi[1] - p.lo[1]; if (e1 >= dims[0] || e0 >= dims[1]) tr = false; else { sl[0] = gr.in(0, dims[0] - 1 - e1); sl[1] = gr.in(0, dims[1] - 1 - e0); sh[0] = sl[0] + e1; sh[1] = sl[1] + e0; } }
    if (!tr) for (int k = 0; k < nd; k++) { long e = p.hi[k] - p.lo[k]; sl[k] = gr.in(0, dims[k] - 1 - e); sh[k] = sl[k] + e; }
    Dims s(sl), t(sh); FV fs = rev(sl, 1), ft = rev(sh, 1);
    char tc = tr ? yes : no, fc[2] = {tc, 0};
    NGA_Copy_patch(tc, ZX.c, s.i, t.i, Z.c, lo.i, hi.i);
    if (two) ga_copy_patch_(fc, &X.f, &fs[0], &ft[0], &fs[1], &ft[1], &A.f, &fl[0], &fh[0], &fl[1], &fh[1], 1);
    else if (f == FN) nga_copy_patch_(fc, &X.f, fs, ft, &A.f, fl, fh, 1);
    else if (f == P32) P.copyPatch(tc, &X.p(), s.i, t.i, lo.i, hi.i); else if (f == P64) P.copyPatch(tc, &X.p(), s.l, t.l, lo.l, hi.l);
    else if (f == C64) NGA_Copy_patch64(tc, X.c, s.l, t.l, A.c, lo.l, hi.l); else NGA_Copy_patch(tc, X.c, s.i, t.i, A.c, lo.i, hi.i);
    break;
  }
  case 10: NGA_Add_patch(ab, ZX.c, lo.i, hi.i, bb, ZY.c, lo.i, hi.i, Z.c, lo.i, hi.i);
#define F2P &fl[0], &fh[0], &fl[1], &fh[1]
    if (two) { if (!typed) ga_add_patch_(ab, &X.f, F2P, bb, &Y.f, F2P, &A.f, F2P); else if (type == C_DBL) ga_dadd_patch_((double *)ab, &X.f, F2P, (double *)bb, &Y.f, F2P, &A.f, F2P); else if (type == C_FLOAT) ga_sadd_patch_((float *)ab, &X.f, F2P, (float *)bb, &Y.f, F2P, &A.f, F2P);
      else if (type == C_SCPL) ga_cadd_patch_(ab, &X.f, F2P, bb, &Y.f, F2P, &A.f, F2P); else if (type == C_DCPL) ga_zadd_patch_(ab, &X.f, F2P, bb, &Y.f, F2P, &A.f, F2P); else ga_iadd_patch_((FInt *)ab, &X.f, F2P, (FInt *)bb, &Y.f, F2P, &A.f, F2P); }
    else if (f == FN) { if (!typed) nga_add_patch_(ab, &X.f, fl, fh, bb, &Y.f, fl, fh, &A.f, fl, fh); else if (type == C_DBL) nga_dadd_patch_((double *)ab, &X.f, fl, fh, (double *)bb, &Y.f, fl, fh, &A.f, fl, fh); else if (type == C_FLOAT) nga_sadd_patch_((float *)ab, &X.f, fl, fh, (float *)bb, &Y.f, fl, fh, &A.f, fl, fh);
      else if (type == C_SCPL) nga_cadd_patch_(ab, &X.f, fl, fh, bb, &Y.f, fl, fh, &A.f, fl, fh); else if (type == C_DCPL) nga_zadd_patch_(ab, &X.f, fl, fh, bb, &Y.f, fl, fh, &A.f, fl, fh); else nga_iadd_patch_((FInt *)ab, &X.f, fl, fh, (FInt *)bb, &Y.f, fl, fh, &A.f, fl, fh); }
    else if (f == P32) P.addPatch(ab, &X.p(), lo.i, hi.i, bb, &Y.p(), lo.i, hi.i, lo.i, hi.i); else if (f == P64) P.addPatch(ab, &X.p(), lo.l, hi.l, bb, &Y.p(), lo.l, hi.l, lo.l, hi.l);
    else if (f == C64) NGA_Add_patch64(ab, X.c, lo.l, hi.l, bb, Y.c, lo.l, hi.l, A.c, lo.l, hi.l); else NGA_Add_patch(ab, X.c, lo.i, hi.i, bb, Y.c, lo.i, hi.i, A.c, lo.i, hi.i);
    break;
  case 12: {
    int w = (int)gr.in(0, 2); // the divisors could be zero: multiply, maximum, minimum
    if (w == 0) GA_Elem_multiply(ZX.c, ZY.c, Z.c); else if (w == 1) GA_Elem_maximum(ZX.c, ZY.c, Z.c); else GA_Elem_minimum(ZX.c, ZY.c, Z.c);
    if (two) { if (w == 0) ga_elem_multiply_(&X.f, &Y.f, &A.f); else if (w == 1) ga_elem_maximum_(&X.f, &Y.f, &A.f); else ga_elem_minimum_(&X.f, &Y.f, &A.f); }
    else if (f == FN) { if (w == 0) nga_elem_multiply_(&X.f, &Y.f, &A.f); else if (w == 1) nga_elem_maximum_(&X.f, &Y.f, &A.f); else nga_elem_minimum_(&X.f, &Y.f, &A.f); }
    else if (cpp(f)) { if (w == 0) P.elemMultiply(&X.p(), &Y.p()); else if (w == 1) P.elemMaximum(&X.p(), &Y.p()); else P.elemMinimum(&X.p(), &Y.p()); }
    else { if (w == 0) GA_Elem_multiply(X.c, Y.c, A.c); else if (w == 1) GA_Elem_maximum(X.c, Y.c, A.c); else GA_Elem_minimum(X.c, Y.c, A.c); }
    break;
  }
  case 13: {
    int w = (int)gr.in(0, 2);
    if (w == 0) GA_Elem_multiply_patch(ZX.c, lo.i, hi.i, ZY.c, lo.i, hi.i, Z.c, lo.i, hi.i); else if (w == 1) GA_Elem_maximum_patch(ZX.c, lo.i, hi.i, ZY.c, lo.i, hi.i, Z.c, lo.i, hi.i); else GA_Elem_minimum_patch(ZX.c, lo.i, hi.i, ZY.c, lo.i, hi.i, Z.c, lo.i, hi.i);
    if (two) { if (w == 0) ga_elem_multiply_patch_(&X.f, fl, fh, &Y.f, fl, fh, &A.f, fl, fh); else if (w == 1) ga_elem_maximum_patch_(&X.f, fl, fh, &Y.f, fl, fh, &A.f, fl, fh); else ga_elem_minimum_patch_(&X.f, fl, fh, &Y.f, fl, fh, &A.f, fl, fh); }
    else if (f == FN) { if (w == 0) nga_elem_multiply_patch_(&X.f, fl, fh, &Y.f, fl, fh, &A.f, fl, fh); else if (w == 1) nga_elem_maximum_patch_(&X.f, fl, fh, &Y.f, fl, fh, &A.f, fl, fh); else nga_elem_minimum_patch_(&X.f, fl, fh, &Y.f, fl, fh, &A.f, fl, fh); }
    else if (f == P32) { if (w == 0) P.elemMultiplyPatch(&X.p(), lo.i, hi.i, &Y.p(), lo.i, hi.i, lo.i, hi.i); else if (w == 1) P.elemMaximumPatch(&X.p(), lo.i, hi.i, &Y.p(), lo.i, hi.i, lo.i, hi.i); else P.elemMinimumPatch(&X.p(), lo.i, hi.i, &Y.p(), lo.i, hi.i, lo.i, hi.i); }
    else if (f == P64) { if (w == 0) P.elemMultiplyPatch(&X.p(), lo.l, hi.l, &Y.p(), lo.l, hi.l, lo.l, hi.l); else if (w == 1) P.elemMaximumPatch(&X.p(), lo.l, hi.l, &Y.p(), lo.l, hi.l, lo.l, hi.l); else P.elemMinimumPatch(&X.p(), lo.l, hi.l, &Y.p(), lo.l, hi.l, lo.l, hi.l); }
    else { if (w == 0) GA_Elem_multiply_patch64(X.c, lo.l, hi.l, Y.c, lo.l, hi.l, A.c, lo.l, hi.l); else if (w == 1) GA_Elem_maximum_patch64(X.c, lo.l, hi.l, Y.c, lo.l, hi.l, A.c, lo.l, hi.l); else GA_Elem_minimum_patch64(X.c, lo.l, hi.l, Y.c, lo.l, hi.l, A.c, lo.l, hi.l); }
    break;
  }
  case 14:
    if (gr.one_in(2)) { GA_Abs_value(Z.c); if (fort) two ? ga_abs_value_(&A.f) : nga_abs_value_(&A.f); else if (cpp(f)) P.absValue(); else GA_Abs_value(A.c); }
    else { GA_Abs_value_patch(Z.c, lo.i, hi.i); if (fort) two ? ga_abs_value_patch_(&A.f, fl, fh) : nga_abs_value_patch_(&A.f, fl, fh); else if (f == P32) P.absValuePatch(lo.i, hi.i); else if (f == P64) P.absValuePatch(lo.l, hi.l); else GA_Abs_value_patch64(A.c, lo.l, hi.l); }
    break;
  case 15:
    if (gr.one_in(2)) { GA_Add_constant(Z.c, ab); if (fort) two ? ga_add_constant_(&A.f, ab) : nga_add_constant_(&A.f, ab); else if (cpp(f)) P.addConstant(ab); else GA_Add_constant(A.c, ab); }
    else { GA_Add_constant_patch(Z.c, lo.i, hi.i, ab); if (fort) two ? ga_add_constant_patch_(&A.f, fl, fh, ab) : nga_add_constant_patch_(&A.f, fl, fh, ab); else if (f == P32) P.addConstantPatch(lo.i, hi.i, ab); else if (f == P64) P.addConstantPatch(lo.l, hi.l, ab); else GA_Add_constant_patch64(A.c, lo.l, hi.l, ab); }
    break;
  case 16: if (x == d) { x = (d + 1) % 3; X = a[x]; ZX = z[x]; }
    GA_Transpose(ZX.c, Z.c); if (fort) two ? ga_transpose_(&X.f, &A.f) : nga_transpose_(&X.f, &A.f); else if (cpp(f)) X.p().transpose(&A.p()); else GA_Transpose(X.c, A.c); break;
  case 17: GA_Symmetrize(Z.c); if (fort) two ? ga_symmetrize_(&A.f) : nga_symmetrize_(&A.f); else if (cpp(f)) P.symmetrize(); else GA_Symmetrize(A.c); break;
  case 18: if (nd == 2 && g.world) {
    double n1 = -1, n2 = -2, i1 = -3, i2 = -4;
    GA_Norm1(Z.c, &n1); GA_Norm_infinity(Z.c, &i1);
    if (fort) { two ? ga_norm1_(&A.f, &n2) : nga_norm1_(&A.f, &n2); two ? ga_norm_infinity_(&A.f, &i2) : nga_norm_infinity_(&A.f, &i2); }
    else if (cpp(f)) { P.norm1(&n2); P.normInfinity(&i2); } else { GA_Norm1(A.c, &n2); GA_Norm_infinity(A.c, &i2); }
    if (n1 != n2 || i1 != i2) violation("lang-scalar-norm", "norms through %s %g %g, through C %g %g", ifn(f), n2, i2, n1, i1);
    count("scalars", 2);
    break;
  } // falls through
  case 19: if (sq && !bc) {
    int n = (int)dims[0], dd[1] = {n};
    H v(NGA_Create_handle()), w(0);
    GA_Set_data(v.c, 1, dd, type); if (!g.world) GA_Set_pgroup(v.c, g.h); GA_Allocate(v.c);
    w = H(GA_Duplicate(v.c, (char *)"w"));
    GA_Zero(v.c); GA_Zero(w.c);
    int k = (int)gr.in(0, 5);
    if (is_cpl(type) && k >= 3) k -= 3;
    if (ll) k = 1;
    auto fn1 = [&](int kk, H M, H V, bool c) {
      if (c) { switch (kk) { case 0: GA_Get_diag(M.c, V.c); break; case 1: GA_Zero_diagonal(M.c); break; case 2: GA_Shift_diagonal(M.c, ab); break; case 3: GA_Set_diagonal(M.c, V.c); break; case 4: GA_Add_diagonal(M.c, V.c); break; default: GA_Scale_rows(M.c, V.c); } }
      else if (two) { switch (kk) { case 0: ga_get_diag_(&M.f, &V.f); break; case 1: ga_zero_diagonal_(&M.f); break; case 2: ga_shift_diagonal_(&M.f, ab); break; case 3: ga_set_diagonal_(&M.f, &V.f); break; case 4: ga_add_diagonal_(&M.f, &V.f); break; default: ga_scale_rows_(&M.f, &V.f); } }
      else if (f == FN) { switch (kk) { case 0: nga_get_diag_(&M.f, &V.f); break; case 1: nga_zero_diagonal_(&M.f); break; case 2: nga_shift_diagonal_(&M.f, ab); break; case 3: nga_set_diagonal_(&M.f, &V.f); break; case 4: nga_add_diagonal_(&M.f, &V.f); break; default: nga_scale_rows_(&M.f, &V.f); } }
      else if (cpp(f)) { switch (kk) { case 0: V.p().getDiagonal(&M.p()); break; case 1: M.p().zeroDiagonal(); break; case 2: M.p().shiftDiagonal(ab); break; case 3: M.p().setDiagonal(&V.p()); break; case 4: M.p().addDiagonal(&V.p()); break; default: M.p().scaleRows(&V.p()); } }
      else switch (kk) { case 0: GA_Get_diag(M.c, V.c); break; case 1: GA_Zero_diagonal(M.c); break; case 2: GA_Shift_diagonal(M.c, ab); break; case 3: GA_Set_diagonal(M.c, V.c); break; case 4: GA_Add_diagonal(M.c, V.c); break; default: GA_Scale_rows(M.c, V.c); }
    };
    GA_Fill(v.c, bb); GA_Fill(w.c, bb);
    // in C the rows of the Fortran matrix are columns
    if (k == 5 && fort) { GA_Scale_cols(Z.c, v.c); fn1(5, A, w, false); }
    else { fn1(k, Z, v, true); fn1(k, A, w, false); }
    MArr mv(type, VL{n});
    { Patch pw = whole(VL{n}); Buf b(type, pw, VL(1, 0)); get(v.c, pw, b, false); memcpy(mv.d.data(), b.ptr(), mv.n * mv.es); }
    check_all(w.c, mv, "lang-diag", fmt("vector of diagonal operation %d through %s", k, ifn(f)).c_str());
    gsync(g);
    GA_Destroy(v.c); GA_Destroy(w.c);
  }
  break;
  case 20: if (g.world && !bc) {
    char v1[16] = {0}, v2[16] = {0}; int i1[8], i2[8]; int64_t i6[8]; FInt fi[8];
    std::string op = gr.one_in(2) ? "max" : "min";
    NGA_Select_elem(Z.c, &op[0], v1, i1);
    if (fort) { nga_select_elem_(&A.f, &op[0], v2, fi, 3); for (int k = 0; k < nd; k++) i2[k] = (int)fi[nd - 1 - k] - 1; }
    else if (f == P32) P.selectElem(&op[0], v2, i2);
    else { if (f == P64) P.selectElem(&op[0], v2, i6); else NGA_Select_elem64(A.c, &op[0], v2, i6); for (int k = 0; k < nd; k++) i2[k] = (int)i6[k]; }
    cmpr("select", v2, v1, m[0].es);
    for (int k = 0; k < nd; k++) if (i1[k] != i2[k]) { violation("lang-select", "index of the %s element differs in dimension %d: %d, %d", op.c_str(), k, i2[k], i1[k]); break; }
  }
  break;
  case 21: {
    if (x == d) { x = (d + 1) % 3; X = a[x]; ZX = z[x]; } if (y == d) { y = (d + 2) % 3; Y = a[y]; ZY = z[y]; }
    long mm = gr.in(1, dims[0]), nn = gr.in(1, dims[0]), kk = gr.in(1, dims[0]);
    char ta = gr.one_in(2) ? 'n' : 't', tb = gr.one_in(2) ? 'n' : 't';
    FInt fm = mm, fnn = nn, fk = kk; char fa[2] = {ta, 0}, fb[2] = {tb, 0};
    double da = va.re, db = vb.re; float sa = (float)da, sb = (float)db; DoubleComplex ca, cb; SingleComplex qa, qb;
    ca.real = va.re; ca.imag = va.im; cb.real = vb.re; cb.imag = vb.im; qa.real = (float)va.re; qa.imag = (float)va.im; qb.real = (float)vb.re; qb.imag = (float)vb.im;
    if (fort) { // column-major: the transposed product
      if (type == C_DBL) { GA_Dgemm(tb, ta, (int)nn, (int)mm, (int)kk, da, ZY.c, ZX.c, db, Z.c); ga_dgemm_(fa, fb, &fm, &fnn, &fk, &da, &X.f, &Y.f, &db, &A.f, 1, 1); }
      else if (type == C_FLOAT) { GA_Sgemm(tb, ta, (int)nn, (int)mm, (int)kk, sa, ZY.c, ZX.c, sb, Z.c); ga_sgemm_(fa, fb, &fm, &fnn, &fk, &sa, &X.f, &Y.f, &sb, &A.f, 1, 1); }
      else if (type == C_DCPL) { GA_Zgemm(tb, ta, (int)nn, (int)mm, (int)kk, ca, ZY.c, ZX.c, cb, Z.c); ga_zgemm_(fa, fb, &fm, &fnn, &fk, &ca, &X.f, &Y.f, &cb, &A.f, 1, 1); }
      else { GA_Cgemm(tb, ta, (int)nn, (int)mm, (int)kk, qa, ZY.c, ZX.c, qb, Z.c); ga_cgemm_(fa, fb, &fm, &fnn, &fk, &qa, &X.f, &Y.f, &qb, &A.f, 1, 1); }
    } else {
      if (type == C_DBL) { GA_Dgemm(ta, tb, (int)mm, (int)nn, (int)kk, da, ZX.c, ZY.c, db, Z.c); if (f == P32) P.dgemm(ta, tb, (int)mm, (int)nn, (int)kk, da, &X.p(), &Y.p(), db); else if (f == P64) P.dgemm(ta, tb, (int64_t)mm, (int64_t)nn, (int64_t)kk, da, &X.p(), &Y.p(), db); else GA_Dgemm64(ta, tb, mm, nn, kk, da, X.c, Y.c, db, A.c); }
      else if (type == C_FLOAT) { GA_Sgemm(ta, tb, (int)mm, (int)nn, (int)kk, sa, ZX.c, ZY.c, sb, Z.c); if (f == P32) P.sgemm(ta, tb, (int)mm, (int)nn, (int)kk, sa, &X.p(), &Y.p(), sb); else if (f == P64) P.sgemm(ta, tb, (int64_t)mm, (int64_t)nn, (int64_t)kk, sa, &X.p(), &Y.p(), sb); else GA_Sgemm64(ta, tb, mm, nn, kk, sa, X.c, Y.c, sb, A.c); }
      else if (type == C_DCPL) { GA_Zgemm(ta, tb, (int)mm, (int)nn, (int)kk, ca, ZX.c, ZY.c, cb, Z.c); if (f == P32) P.zgemm(ta, tb, (int)mm, (int)nn, (int)kk, ca, &X.p(), &Y.p(), cb); else if (f == P64) P.zgemm(ta, tb, (int64_t)mm, (int64_t)nn, (int64_t)kk, ca, &X.p(), &Y.p(), cb); else GA_Zgemm64(ta, tb, mm, nn, kk, ca, X.c, Y.c, cb, A.c); }
      else { GA_Cgemm(ta, tb, (int)mm, (int)nn, (int)kk, qa, ZX.c, ZY.c, qb, Z.c); GA_Cgemm64(ta, tb, mm, nn, kk, qa, X.c, Y.c, qb, A.c); }
    }
    break;
  }
  case 22: {
    if (x == d) { x = (d + 1) % 3; X = a[x]; ZX = z[x]; } if (y == d) { y = (d + 2) % 3; Y = a[y]; ZY = z[y]; }
    long mx_ = std::min(dims[0], dims[1]);
    long mm = gr.in(1, mx_), nn = gr.in(1, mx_), kk = gr.in(1, mx_);
    auto place = [&](long r0, long c0, VL &l, VL &h_) { l = {gr.in(0, dims[0] - r0), gr.in(0, dims[1] - c0)}; h_ = {l[0] + r0 - 1, l[1] + c0 - 1}; };
    VL al, ah, bl, bh, cl, chh;
    place(mm, kk, al, ah); place(kk, nn, bl, bh); place(mm, nn, cl, chh);
    Dims A0(al), A1(ah), B0(bl), B1(bh), C0(cl), C1(chh);
    NGA_Matmul_patch(no, no, ab, bb, ZX.c, A0.i, A1.i, ZY.c, B0.i, B1.i, Z.c, C0.i, C1.i);
    char nn2[2] = {'n', 0};
    FV a0 = rev(al, 1), a1 = rev(ah, 1), b0 = rev(bl, 1), b1 = rev(bh, 1), c0 = rev(cl, 1), c1 = rev(chh, 1);
    // in the Fortran view the factors change places
    if (f == FN) nga_matmul_patch_(nn2, nn2, ab, bb, &Y.f, b0, b1, &X.f, a0, a1, &A.f, c0, c1, 1, 1);
    else if (two) ga_matmul_patch_(nn2, nn2, (double *)ab, (double *)bb, &Y.f, &b0[0], &b1[0], &b0[1], &b1[1], &X.f, &a0[0], &a1[0], &a0[1], &a1[1], &A.f, &c0[0], &c1[0], &c0[1], &c1[1], 1, 1);
    else if (f == P32) P.matmulPatch(no, no, ab, bb, &X.p(), A0.i, A1.i, &Y.p(), B0.i, B1.i, C0.i, C1.i);
    else if (f == P64) P.matmulPatch(no, no, ab, bb, &X.p(), A0.l, A1.l, &Y.p(), B0.l, B1.l, C0.l, C1.l);
    else if (f == C64) NGA_Matmul_patch64(no, no, ab, bb, X.c, A0.l, A1.l, Y.c, B0.l, B1.l, A.c, C0.l, C1.l);
    else // the two-dimensional C call counts subscripts as Fortran does: the first one varies fastest, the factors change places
      GA_Matmul_patch(no, no, ab, bb, Y.c, B0.i[1], B1.i[1], B0.i[0], B1.i[0], X.c, A0.i[1], A1.i[1], A0.i[0], A1.i[0], A.c, C0.i[1], C1.i[1], C0.i[0], C1.i[0]);
    break;
  }
  case 23: {
    int dir = (int)gr.in(0, nd - 1), side = gr.one_in(2) ? 1 : -1; bool all = gr.one_in(2);
    FInt fdim = nd - dir, fs = side, fc = 1;
    if (all) { if (fort) two ? ga_update_ghosts_(&A.f) : nga_update_ghosts_(&A.f); else if (cpp(f)) P.updateGhosts(); else GA_Update_ghosts(A.c); GA_Update_ghosts(Z.c); }
    else { if (fort) nga_update_ghost_dir_(&A.f, &fdim, &fs, &fc); else if (cpp(f)) P.updateGhostDir(dir, side, 1); else NGA_Update_ghost_dir(A.c, dir, side, 1); NGA_Update_ghost_dir(Z.c, dir, side, 1); }
    gsync(g);
    // the blocks with their ghost cells hold the same
    int gd[8], gl[8], sd[8], sl[8]; void *u = 0, *w = 0;
    NGA_Access_ghosts(A.c, gd, &u, gl);
    NGA_Access_ghosts(Z.c, sd, &w, sl);
    if (all) {
      int l3[8], h3[8]; NGA_Distribution(A.c, g.rank, l3, h3);
      Patch e; for (int k = 0; k < nd; k++) { e.lo.push_back(0); e.hi.push_back(gd[k] - 1); }
      long badn = 0;
      each(e, [&](const VL &ix, long) { long o1 = 0, o2 = 0; for (int k = 0; k < nd; k++) { o1 = o1 * (k ? gl[k - 1] : 1) + ix[k]; o2 = o2 * (k ? sl[k - 1] : 1) + ix[k]; } if (memcmp((char *)u + o1 * m[0].es, (char *)w + o2 * m[0].es, m[0].es)) badn++; });
      if (badn) violation("lang-ghosts", "%ld ghost or owned cells differ after an update through %s", badn, ifn(f));
      count("ghost_updates");
    }
    NGA_Release_ghosts(A.c); NGA_Release_ghosts(Z.c);
    gsync(g);
    break;
  }
  }
  gsync(g);
  count("collectives");
  count(fmt("coll_%s", wn[what]).c_str());
  count(fmt("if_%s", ifn(f)).c_str());
  // both copies against each other: the C one becomes the model
  Patch w = whole(dims);
  for (int k = 0; k < 3; k++) {
    Buf b(type, w, VL(nd, 0));
    get(z[k].c, w, b, false);
    memcpy(m[k].d.data(), b.ptr(), m[k].n * m[k].es);
    if (k == d || k == x) check_all(a[k].c, m[k], fmt("lang-coll-%s", wn[what]), fmt("array %d after %s through %s", k, wn[what], ifn(f)).c_str());
  }
  gsync(g);
}

// ---- scalars, group and collective services ---------------------------------
static void services(Rng &gr, Rng &lr, Group &g, int type) {
  opmark("services");
  if (ga_nnodes_() != GA_Nnodes() || nga_nnodes_() != GA_Nnodes() || GA::SERVICES.nodes() != GA_Nnodes() || ga_nodeid_() != GA_Nodeid() || nga_nodeid_() != GA_Nodeid() || GA::SERVICES.nodeid() != GA_Nodeid()) violation("lang-nodes", "node numbers differ");
  FInt fg = g.h;
  if (ga_pgroup_nnodes_(&fg) != g.size() || nga_pgroup_nodeid_(&fg) != g.rank || ga_pgroup_get_world_() != GA_Pgroup_get_world() || nga_pgroup_get_default_() != GA_Pgroup_get_default()) violation("lang-groups", "group queries differ");
  FInt rk = lr.in(0, g.size() - 1);
  if (ga_pgroup_absolute_id_(&fg, &rk) != g.mem[rk]) violation("lang-groups", "absolute_id differs");
  static const char *ops[] = {"+", "max", "min", "absmax", "absmin", "*"};
  int oi = (int)gr.in(0, 5);
  if (is_cpl(type)) oi = 0;
  std::string op = ops[oi];
  int n = (int)gr.in(1, 20);
  int es = tsize(type);
  int f = (int)gr.in(0, 2);
  std::vector<char> b(n * es), c;
  for (int k = 0; k < n; k++) { Rng q(gr.next() + 0); for (int w = 0; w < g.rank; w++) q.next(); Val v = ival(type, q.in(-3, 3)); store(type, b.data() + k * es, v); }
  c = b;
  FInt fn_ = n, ft = ftype(type, gr); int ol = (int)op.size();
  bool typed = gr.one_in(2);
  if (g.world) GA_Gop(type, c.data(), n, &op[0]); else pgop(g.h, type, c.data(), n, &op[0]);
  if (f == 0) {
    if (typed && type == C_LONG) ga_igop_(&ft, (FInt *)b.data(), &fn_, &op[0], ol);
    else if (typed && type == C_DBL) nga_dgop_(&ft, (double *)b.data(), &fn_, &op[0], ol);
    else if (typed && type == C_FLOAT) ga_sgop_(&ft, (float *)b.data(), &fn_, &op[0], ol);
    else if (typed && type == C_DCPL) nga_zgop_(&ft, b.data(), &fn_, &op[0], ol);
    else if (typed && type == C_SCPL) ga_cgop_(&ft, b.data(), &fn_, &op[0], ol);
    else if (gr.one_in(2)) ga_gop_(&ft, b.data(), &fn_, &op[0], ol); else nga_gop_(&ft, b.data(), &fn_, &op[0], ol);
  } else if (f == 1) {
    if (typed && type == C_LONG) ga_pgroup_igop_(&fg, &ft, (FInt *)b.data(), &fn_, &op[0], ol);
    else if (typed && type == C_DBL) nga_pgroup_dgop_(&fg, &ft, (double *)b.data(), &fn_, &op[0], ol);
    else if (typed && type == C_FLOAT) ga_pgroup_sgop_(&fg, &ft, (float *)b.data(), &fn_, &op[0], ol);
    else if (gr.one_in(2)) ga_pgroup_gop_(&fg, &ft, b.data(), &fn_, &op[0], ol); else nga_pgroup_gop_(&fg, &ft, b.data(), &fn_, &op[0], ol);
  } else {
    if (type == C_DBL) GA::SERVICES.gop((double *)b.data(), n, &op[0]);
    else if (type == C_LONG) GA::SERVICES.gop((long *)b.data(), n, &op[0]);
    else if (type == C_FLOAT) GA::SERVICES.gop((float *)b.data(), n, &op[0]);
    else if (type == C_INT) GA::SERVICES.gop((int *)b.data(), n, &op[0]);
    else if (g.world) GA_Gop(type, b.data(), n, &op[0]); else pgop(g.h, type, b.data(), n, &op[0]);
  }
  if (b != c) violation("lang-gop", "reduction '%s' of type %s differs through interface %d", op.c_str(), tname(type), f);
  count("gops");
  // broadcast: the originator counts in the default group
  int root = (int)gr.in(0, g.size() - 1);
  std::vector<char> bc(gr.in(1, 300)), want(bc.size());
  for (size_t k = 0; k < bc.size(); k++) want[k] = (char)gr.next();
  if (g.rank == root) bc = want;
  FInt len = (FInt)bc.size(), org = root, tg = 11;
  if (f == 0) { if (gr.one_in(2)) ga_brdcst_(&tg, bc.data(), &len, &org); else nga_brdcst_(&tg, bc.data(), &len, &org); }
  else if (f == 1) ga_pgroup_brdcst_(&fg, &tg, bc.data(), &len, &org);
  else GA::SERVICES.brdcst(bc.data(), (int)len, root);
  if (bc != want) violation("lang-brdcst", "broadcast through interface %d differs", f);
  count("brdcsts");
}

static void counter(Rng &gr, Group &g, int type, const VL &dims, H h, MArr &m) {
  // every process increments its own element through a random interface
  if (type != C_LONG && type != C_INT) return;
  int nd = (int)dims.size();
  for (int q = 0; q < g.size(); q++) {
    long l = gr.in(0, m.n - 1), inc = gr.in(-5, 9); int f = rnd_if(gr, nd);
    if (q == g.rank) {
      VL ix = unlin(l, dims); Dims a(ix); FV fa = rev(ix, 1); FInt fi = inc; long v = 0;
      opmark("read_inc through %s", ifn(f));
      switch (f) { case C32: v = NGA_Read_inc(h.c, a.i, inc); break; case C64: v = NGA_Read_inc64(h.c, a.l, inc); break; case FN: v = nga_read_inc_(&h.f, fa, &fi); break;
        case F2: v = ga_read_inc_(&h.f, &fa[0], &fa[1], &fi); break; case P32: v = h.p().readInc(a.i, inc); break; default: v = h.p().readInc(a.l, inc); }
      if (v != m.get(l).i) violation("lang-read-inc", "read_inc through %s returned %ld, the element was %ld", ifn(f), v, (long)m.get(l).i);
      count("read_incs");
    }
    Val v = m.get(l); v.i += inc; m.set(l, v);
    gsync(g);
  }
}

static void run_case(long i) {
  Rng r(sub_seed(i));
  Split sp = rnd_split(r, 6);
  if (Group *gp = sp.my()) {
    Group &g = *gp;
    Rng gr(sub_seed(i, 100 + sp.mine)), lr(sub_seed(i, 1000 + me));
    int old = GA_Pgroup_get_default();
    if (!g.world) GA_Pgroup_set_default(g.h);
    static const std::vector<int> types = {C_INT, C_LONG, C_LONG, C_FLOAT, C_DBL, C_DBL, C_SCPL, C_DCPL};
    int type = gr.pick(types), nd = gr.one_in(2) ? 2 : (int)gr.in(1, 4);
    VL dims = rnd_dims(gr, nd, 900);
    if (nd == 2 && gr.one_in(3)) dims[1] = dims[0];
    LayoutOpt lo;
    if (!g.world) lo.kinds = {REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR};
    Layout L = rnd_layout(gr, dims, g.size(), lo);
    std::string name;
    for (long k = gr.in(1, 24); k > 0; k--) name += (char)("abcXYZ_19 "[gr.in(0, name.empty() || k == 1 ? 8 : 9)]);
    begin_case(i, fmt("%s %s dims=%s %s", g.desc.c_str(), tname(type), dimstr(dims).c_str(), L.str().c_str()));
    std::vector<H> a, z; std::vector<MArr> m;
    for (int k = 0; k < 3; k++) {
      int f = rnd_if(gr, nd);
      opmark("create through %s", ifn(f));
      a.push_back(H(create(gr, L, type, dims, g, name, f)));
      z.push_back(H(make_array(L, type, dims, g, name.c_str())));
      m.emplace_back(type, dims);
      count("creates");
      queries(lr, a[k], z[k], type, dims, name, L);
      fill_random(a[k].c, m[k], gr, g, 9);
      GA_Zero(z[k].c);
      gsync(g);
    }
    int epochs = (int)gr.in(2, 4);
    for (int e = 0; e < epochs; e++) {
      int k = (int)gr.in(0, 2);
      if (gr.one_in(2)) {
        onesided(gr, lr, g, a[k], m[k], type, dims, L);
        if (gr.one_in(3)) counter(gr, g, type, dims, a[k], m[k]);
        check_all(a[k].c, m[k], "lang-onesided", "array");
        check_local(a[k].c, m[k], "lang-onesided");
        gsync(g);
      } else {
        for (int q = 0; q < 3; q++) { // the C copies start equal
          if (g.rank == 0) { Patch w = whole(dims); Buf b(type, w, VL(nd, 0)); memcpy(b.ptr(), m[q].d.data(), m[q].n * m[q].es); put(z[q].c, w, b, false); }
        }
        gsync(g);
        collective(gr, g, a, z, m, type, dims, L);
        if (is_int(type) || e == 1) { // keep the values small
          for (int q = 0; q < 3; q++) { fill_random(a[q].c, m[q], gr, g, 9); }
        }
      }
      if (gr.one_in(4)) services(gr, lr, g, type);
    }
    for (int k = 0; k < 3; k++) check_all(a[k].c, m[k], "lang-final", "final contents");
    gsync(g);
    for (int k = 0; k < 3; k++) {
      int f = (int)gr.in(0, 2);
      opmark("destroy");
      if (f == 0) GA_Destroy(a[k].c); else if (f == 1) { if (!(gr.one_in(2) ? ga_destroy_(&a[k].f) : nga_destroy_(&a[k].f))) violation("lang-destroy", "Fortran destroy returned false"); } else a[k].p().destroy();
      GA_Destroy(z[k].c);
    }
    if (!g.world) GA_Pgroup_set_default(old);
  }
  free_split(sp);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
}
