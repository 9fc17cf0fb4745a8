// C08: element-wise and patch algebra on whole arrays and patches, against the sequential computation.
#include "gamon.h"
#include <complex>
#include <cmath>
using namespace gm;

static bool near(int t, const Val &a, const Val &b) {
  if (is_int(t)) return a.i == b.i;
  double eps = (t == C_FLOAT || t == C_SCPL) ? 1e-5 : 1e-12;
  double s = std::max({1e-30, std::hypot(a.re, a.im), std::hypot(b.re, b.im)});
  return std::fabs(a.re - b.re) <= eps * s && std::fabs(a.im - b.im) <= eps * s;
}

struct Ctx {
  Group &g;
  Rng &r;
  int type;
  std::vector<int> h;
  std::vector<MArr> m;
  std::vector<Layout> L;
  bool w64 = false;
};

static bool bc(const Layout &l) { return l.kind == BCYC || l.kind == SCALA || l.kind == TILED || l.kind == TILEDIRR; }
static std::string K(const Ctx &c, std::initializer_list<int> ids) {
  bool b = false, gh = false;
  for (int i : ids) { b |= bc(c.L[i]); gh |= c.L[i].kind == GHOST || c.L[i].kind == GHOSTIRR; }
  return b ? ":bc" : gh ? ":ghost" : "";
}

// compares every array with the model; arrays listed in 'loose' within rounding (then re-read)
static void verify(Ctx &c, const std::string &key, const std::string &what, int loose = -1) {
  gsync(c.g);
  for (size_t a = 0; a < c.h.size(); a++) {
    MArr &m = c.m[a];
    if ((int)a == loose) {
      Patch p = whole(m.dims);
      Buf b(m.type, p, VL(m.dims.size(), 0));
      opmark("verify get");
      get(c.h[a], p, b, false);
      each(p, [&](const VL &ix, long) {
        Val got = load(m.type, b.at(ix)), want = m.get(m.lin(ix));
        if (!near(m.type, got, want)) {
          std::string s;
          for (long x : ix) s += fmt("%ld,", x);
          violation(key, "%s: (%s) got %s want %s", what.c_str(), s.c_str(), vstr(m.type, got).c_str(), vstr(m.type, want).c_str());
        }
        m.set(m.lin(ix), got);
      });
      count("elements_compared", m.n);
    } else {
      check_all(c.h[a], m, key, fmt("%s array %zu", what.c_str(), a).c_str());
    }
    check_local(c.h[a], m, key + ":local");
  }
  gsync(c.g);
}

static void refill(Ctx &c, int a, long mag, bool nonzero) {
  MArr &m = c.m[a];
  for (long i = 0; i < m.n; i++) {
    Val v = rnd_val(m.type, c.r, mag);
    if (nonzero) { if (is_int(m.type)) { if (!v.i) v.i = 1; } else if (v.re == 0) v.re = 1; }
    m.set(i, v);
  }
  gsync(c.g);
  if (c.g.rank == (int)(a % c.g.size())) {
    Patch p = whole(m.dims);
    Buf b(m.type, p, VL(m.dims.size(), 0));
    memcpy(b.ptr(), m.d.data(), m.n * m.es);
    opmark("refill");
    put(c.h[a], p, b, false);
  }
  gsync(c.g);
}

static std::vector<VL> offsets(const Patch &p) { std::vector<VL> v; each(p, [&](const VL &ix, long) { v.push_back(ix); }); return v; }

// the element of q (extents reversed) that mirrors ix of p
static VL mirror(const Patch &p, const Patch &q, const VL &ix) {
  int nd = (int)ix.size();
  VL o(nd);
  for (int k = 0; k < nd; k++) o[nd - 1 - k] = q.lo[nd - 1 - k] + ix[k] - p.lo[k];
  return o;
}
static Patch place(Rng &r, const VL &dims, const VL &ext) {
  Patch p;
  for (size_t k = 0; k < dims.size(); k++) { long o = r.in(0, dims[k] - ext[k]); p.lo.push_back(o); p.hi.push_back(o + ext[k] - 1); }
  return p;
}
static VL extents(const Patch &p) { VL e; for (size_t k = 0; k < p.lo.size(); k++) e.push_back(p.hi[k] - p.lo[k] + 1); return e; }
static bool fits(const VL &ext, const VL &dims) {
  if (ext.size() != dims.size()) return false;
  for (size_t k = 0; k < ext.size(); k++) if (ext[k] > dims[k]) return false;
  return true;
}
// a patch of dims with n elements, any shape; false if none found
static bool reshaped(Rng &r, const VL &dims, long n, Patch &out) {
  int nd = (int)dims.size();
  for (int t = 0; t < 30; t++) {
    VL e(nd, 1);
    long m = n;
    std::vector<int> ord;
    for (int k = 0; k < nd; k++) ord.push_back(k);
    r.shuffle(ord);
    for (int k : ord) {
      std::vector<long> dv;
      for (long d = 1; d <= std::min(m, dims[k]); d++) if (m % d == 0) dv.push_back(d);
      e[k] = k == ord.back() && m <= dims[k] ? m : dv[r.in((long)dv.size() / 2, (long)dv.size() - 1)];
      m /= e[k];
    }
    if (m == 1) { out = place(r, dims, e); return true; }
  }
  return false;
}
// a patch in array b matching p of array a: same extents when possible, or reshaped
static bool match(Ctx &c, int a, const Patch &p, int b, Patch &q, bool &resh) {
  VL e = extents(p);
  resh = false;
  bool anybc = bc(c.L[a]) || bc(c.L[b]);
  if (fits(e, c.m[b].dims) && (anybc || !c.r.one_in(4))) { q = c.r.one_in(3) && fits(e, c.m[b].dims) && c.m[a].dims == c.m[b].dims ? p : place(c.r, c.m[b].dims, e); return true; }
  if (anybc) return false;
  if (!reshaped(c.r, c.m[b].dims, p.size(), q)) return false;
  resh = extents(q) != e;
  return true;
}

static Val scalar(Ctx &c, long mag) { Val v = rnd_val(c.type, c.r, mag); return v; }
static double mod2(const Val &v) { return v.re * v.re + v.im * v.im; }

// candidate results of the element-wise binary operations (ties between complex moduli leave both)
static bool elem2ok(int t, int op, const Val &a, const Val &b, Val &r) {
  if (op == 0) r = vmul(t, a, b);
  else if (op == 1) {
    if (is_int(t)) r.i = a.i / b.i;
    else if (is_cpl(t)) { std::complex<double> z = std::complex<double>(a.re, a.im) / std::complex<double>(b.re, b.im); r.re = z.real(); r.im = z.imag(); }
    else r.re = a.re / b.re;
  } else {
    bool agt;
    if (is_int(t)) agt = a.i > b.i; else if (is_cpl(t)) agt = mod2(a) > mod2(b); else agt = a.re > b.re;
    bool eq = is_int(t) ? a.i == b.i : is_cpl(t) ? mod2(a) == mod2(b) : a.re == b.re;
    if (op == 2) r = agt ? a : b; else r = agt ? b : a;
    if (eq) r = b;
  }
  return true;
}

// copies between an array on all processes and arrays on a subgroup of them, called by the subgroup
static void cross(long i, Split &sp) {
  Group nog;
  bool in = sp.my() != nullptr;
  Group &g = in ? *sp.my() : nog;
  Rng r(sub_seed(i, 50)), gr(sub_seed(i, 200 + sp.mine));
  int type = r.pick(ALLTYPES), oldgrp = GA_Pgroup_get_default();
  Group w = world_group();
  VL wd = rnd_dims(r, rnd_nd(r), 700);
  Layout wl = rnd_layout(r, wd, w.size(), LayoutOpt({REG, CHUNK, IRREG, GHOST}));
  opmark("create");
  int hw = make_array(wl, type, wd, w, "w", false);
  MArr mw(type, wd);
  fill_random(hw, mw, r, w, 50);
  gsync(w);
  VL xd = gr.one_in(2) ? wd : rnd_dims(gr, rnd_nd(gr), 700);
  Layout xl;
  int hx = 0;
  MArr mx(type, xd);
  if (in) {
    GA_Pgroup_set_default(g.h);
    xl = rnd_layout(gr, xd, g.size(), LayoutOpt({REG, CHUNK, IRREG, GHOST}));
    hx = make_array(xl, type, xd, g, "x", false);
    fill_random(hx, mx, gr, g, 50);
  }
  Ctx c{g, gr, type, {hw, hx}, {mw, mx}, {wl, xl}};
  auto one = [&](int A, int B, Patch p, bool slab, Patch lim) {
    Patch q;
    bool resh = false, trans = gr.one_in(3);
    VL e = extents(p), re(e.rbegin(), e.rend());
    if (trans && fits(re, c.m[B].dims)) q = place(gr, c.m[B].dims, re); else { trans = false; if (!match(c, A, p, B, q, resh)) return; }
    if (slab) { // within this group's part of the destination
      VL f = extents(q), le = extents(lim);
      if (!fits(f, le)) return;
      q = place(gr, le, f);
      for (size_t k = 0; k < f.size(); k++) { q.lo[k] += lim.lo[k]; q.hi[k] += lim.lo[k]; }
    }
    Dims alo(p.lo), ahi(p.hi), blo(q.lo), bhi(q.hi);
    const char *what = slab ? "cross_put" : "cross_get";
    opmark("%s %s -> %s", what, p.str().c_str(), q.str().c_str());
    NGA_Copy_patch(trans ? 't' : 'n', c.h[A], alo.i, ahi.i, c.h[B], blo.i, bhi.i);
    if (trans) each(p, [&](const VL &ix, long) { c.m[B].set(c.m[B].lin(mirror(p, q, ix)), c.m[A].get(c.m[A].lin(ix))); });
    else { auto va = offsets(p), vb = offsets(q); for (size_t t = 0; t < va.size(); t++) c.m[B].set(c.m[B].lin(vb[t]), c.m[A].get(c.m[A].lin(va[t]))); }
    count(what);
    if (!slab) {
      gsync(g);
      check_all(hx, c.m[1], std::string(what) + (trans ? "_trans" : resh ? "_reshape" : ""), fmt("%s %s w %s x %s", p.str().c_str(), q.str().c_str(), wl.str().c_str(), xl.str().c_str()).c_str());
      gsync(g);
    }
  };
  if (in) for (int k = 0; k < 3; k++) one(0, 1, rnd_patch(gr, wd), false, Patch());
  opmark("world sync");
  GA_Pgroup_set_default(oldgrp);
  gsync(w);
  int ng = (int)sp.gs.size(), me = sp.mine;
  Patch lim = whole(wd);
  if (in) lim.lo[0] = wd[0] * me / ng, lim.hi[0] = wd[0] * (me + 1) / ng - 1;
  if (in) GA_Pgroup_set_default(g.h);
  if (in && lim.hi[0] >= lim.lo[0]) one(1, 0, rnd_patch(gr, xd), true, lim); // a second copy could overtake this one: the group synchronises with its members only
  opmark("world sync");
  GA_Pgroup_set_default(oldgrp);
  gsync(w);
  if (in && lim.hi[0] >= lim.lo[0]) check_patch(hw, c.m[0], lim, "cross_put", "destination on all processes");
  gsync(w);
  if (in) { GA_Pgroup_set_default(g.h); GA_Destroy(hx); }
  GA_Pgroup_set_default(oldgrp);
  gsync(w);
  GA_Destroy(hw);
}

static void run_case(long i) {
  Rng r(sub_seed(i));
  Split sp = rnd_split(r, 6);
  Group *gp = sp.my();
  if (gp) {
    Group &g = *gp;
    Rng gr(sub_seed(i, 100 + sp.mine));
    int P = g.size();
    int type = gr.pick(ALLTYPES);
    Ctx c{g, gr, type, {}, {}, {}};
    c.w64 = gr.one_in(2);
    int na = (int)gr.in(3, 4);
    bool same = gr.in(0, 9) < 6;
    int nd0 = gr.one_in(3) ? 2 : rnd_nd(gr);
    VL base = rnd_dims(gr, nd0, 900);
    int fam = (int)gr.in(0, 5); // mostly regular layouts in a case, sometimes block-cyclic, sometimes anything
    std::string desc;
    int oldgrp = GA_Pgroup_get_default();
    if (!g.world) GA_Pgroup_set_default(g.h);
    std::vector<VL> dd;
    for (int a = 0; a < na; a++) {
      VL d = base;
      if (!same) {
        int s = (int)gr.in(0, 3);
        if (s == 0) { gr.shuffle(d); }
        else if (s == 1) { for (auto &x : d) x += gr.in(0, 3); }
        else if (s == 2) { d = VL(base.rbegin(), base.rend()); }
        else { d = rnd_dims(gr, rnd_nd(gr), 900); }
      }
      LayoutOpt o = fam <= 2 ? LayoutOpt({REG, CHUNK, IRREG, GHOST, GHOSTIRR}) : fam == 3 ? LayoutOpt({BCYC, SCALA, TILED, TILEDIRR}) : LayoutOpt({REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR, GHOST, GHOSTIRR, RESTR, RESTRRANGE});
      if (!g.world) { std::vector<int> ks; for (int k : o.kinds) if (k != RESTR && k != RESTRRANGE) ks.push_back(k); o.kinds = ks; }
      Layout L = a && gr.one_in(3) && d == dd[0] ? c.L[0] : rnd_layout(gr, d, P, o);
      dd.push_back(d);
      c.L.push_back(L);
      desc += fmt(" %s %s;", dimstr(d).c_str(), L.str().c_str());
    }
    int nops = (int)gr.in(3, 7);
    begin_case(i, fmt("%s %s%s ops=%d w64=%d", g.desc.c_str(), tname(type), desc.c_str(), nops, c.w64));
    for (int a = 0; a < na; a++) {
      opmark("create %s", c.L[a].str().c_str());
      c.h.push_back(make_array(c.L[a], type, dd[a], g, "alg", gr.one_in(3)));
      c.m.push_back(MArr(type, dd[a]));
      fill_random(c.h[a], c.m[a], gr, g, 20);
    }
    auto mask = [&]() { bool b = gr.one_in(4); if (b) { gsync(g); GA_Mask_sync((int)gr.in(0, 1), (int)gr.in(0, 1)); } return b; };
    for (int k = 0; k < nops; k++) {
      int op = (int)gr.in(0, 17);
      int A = (int)gr.in(0, na - 1), B = (int)gr.in(0, na - 1), C = (int)gr.in(0, na - 1), M = (int)gr.in(0, na - 1);
      bool patch = gr.one_in(2) || !same;
      bool w64 = c.w64;
      // ghost arrays on every layout family share the code; tag by operands
      if (op <= 2) { // zero, fill, scale
        static const char *on[] = {"zero", "fill", "scale"};
        std::string key = std::string(on[op]) + (patch ? "_patch" : "") + K(c, {A});
        Val v = op == 0 ? Val() : scalar(c, op == 2 ? 3 : 20);
        char vb[16];
        store(type, vb, v);
        if (op == 2) refill(c, A, 200, false);
        Patch p = patch ? rnd_patch(gr, c.m[A].dims) : whole(c.m[A].dims);
        Dims lo(p.lo), hi(p.hi);
        bool mk = mask();
        opmark("%s %s", key.c_str(), p.str().c_str());
        if (op == 0) { if (!patch) GA_Zero(c.h[A]); else if (w64) NGA_Zero_patch64(c.h[A], lo.l, hi.l); else NGA_Zero_patch(c.h[A], lo.i, hi.i); }
        else if (op == 1) { if (!patch) GA_Fill(c.h[A], vb); else if (w64) NGA_Fill_patch64(c.h[A], lo.l, hi.l, vb); else NGA_Fill_patch(c.h[A], lo.i, hi.i, vb); }
        else { if (!patch) GA_Scale(c.h[A], vb); else if (w64) NGA_Scale_patch64(c.h[A], lo.l, hi.l, vb); else NGA_Scale_patch(c.h[A], lo.i, hi.i, vb); }
        if (mk) GA_Mask_sync(1, 1);
        each(p, [&](const VL &ix, long) { long l = c.m[A].lin(ix); c.m[A].set(l, op == 2 ? vmul(type, c.m[A].get(l), v) : v); });
        verify(c, key, fmt("%s A=%d %s", key.c_str(), A, p.str().c_str()));
        count(on[op]);
      } else if (op <= 5) { // copy
        if (A == B) B = (A + 1) % na;
        bool trans = gr.one_in(3);
        std::string key = "copy";
        if (!patch) {
          key += K(c, {A, B});
          bool mk = mask();
          opmark("%s", key.c_str());
          GA_Copy(c.h[A], c.h[B]);
          if (mk) GA_Mask_sync(1, 1);
          c.m[B].d = c.m[A].d;
          verify(c, key, fmt("copy %d->%d", A, B));
          count("copy");
          continue;
        }
        Patch p = rnd_patch(gr, c.m[A].dims), q;
        bool resh = false;
        if (trans) {
          VL e = extents(p);
          std::reverse(e.begin(), e.end());
          if (bc(c.L[A]) || bc(c.L[B]) || !fits(e, c.m[B].dims)) trans = false; else q = place(gr, c.m[B].dims, e);
        }
        if (!trans && !match(c, A, p, B, q, resh)) continue;
        key += trans ? "_patch_trans" : resh ? "_patch_reshape" : "_patch";
        key += K(c, {A, B});
        Dims alo(p.lo), ahi(p.hi), blo(q.lo), bhi(q.hi);
        char tc = trans ? (gr.one_in(2) ? 'T' : 't') : (gr.one_in(2) ? 'N' : 'n');
        bool mk = mask();
        opmark("%s %s -> %s", key.c_str(), p.str().c_str(), q.str().c_str());
        if (w64) NGA_Copy_patch64(tc, c.h[A], alo.l, ahi.l, c.h[B], blo.l, bhi.l); else NGA_Copy_patch(tc, c.h[A], alo.i, ahi.i, c.h[B], blo.i, bhi.i);
        if (mk) GA_Mask_sync(1, 1);
        if (trans) each(p, [&](const VL &ix, long) { c.m[B].set(c.m[B].lin(mirror(p, q, ix)), c.m[A].get(c.m[A].lin(ix))); });
        else { auto va = offsets(p), vb = offsets(q); for (size_t t = 0; t < va.size(); t++) c.m[B].set(c.m[B].lin(vb[t]), c.m[A].get(c.m[A].lin(va[t]))); }
        verify(c, key, fmt("%s %d%s -> %d%s", key.c_str(), A, p.str().c_str(), B, q.str().c_str()));
        count(trans ? "copy_trans" : resh ? "copy_reshape" : "copy_patch");
      } else if (op <= 7 || (op >= 11 && op <= 14)) { // add, elem mul/div/max/min
        int e2 = op <= 7 ? -1 : op - 11;
        static const char *on[] = {"elem_multiply", "elem_divide", "elem_maximum", "elem_minimum"};
        if (e2 >= 0 && type == C_LONGLONG) continue;
        std::string key = e2 < 0 ? "add" : on[e2];
        Patch pa, pb, pc;
        bool r1 = false, r2 = false;
        refill(c, A, 200, true);
        if (B != A) refill(c, B, 200, true);
        if (C != A && C != B && gr.one_in(2)) refill(c, C, 200, true);
        if (!patch) pa = pb = pc = whole(c.m[A].dims);
        else {
          pa = rnd_patch(gr, c.m[A].dims);
          if (!match(c, A, pa, B, pb, r1)) continue;
          if (!match(c, A, pa, C, pc, r2)) continue;
          if ((bc(c.L[A]) || bc(c.L[B]) || bc(c.L[C])) && (r1 || r2)) continue; // no change of shape with block-cyclic arrays
          // a destination inside an operand must be the same patch
          if (C == A) pc = pa, r2 = false;
          if (C == B && C != A) pc = pb, r2 = r1;
          if (C == B && C == A) pb = pc = pa, r1 = r2 = false;
        }
        key += patch ? (r1 || r2 ? "_patch_reshape" : "_patch") : "";
        key += K(c, {A, B, C});
        Dims alo(pa.lo), ahi(pa.hi), blo(pb.lo), bhi(pb.hi), clo(pc.lo), chi(pc.hi);
        Val al = scalar(c, 4), be = scalar(c, 4);
        if (gr.one_in(4)) al = ival(type, gr.in(0, 1));
        if (gr.one_in(4)) be = ival(type, gr.in(0, 1));
        char ab[16], bb[16];
        store(type, ab, al); store(type, bb, be);
        bool mk = mask();
        opmark("%s %s %s -> %s", key.c_str(), pa.str().c_str(), pb.str().c_str(), pc.str().c_str());
        int ha = c.h[A], hb = c.h[B], hc = c.h[C];
        if (e2 < 0) {
          if (!patch) GA_Add(ab, ha, bb, hb, hc);
          else if (w64) NGA_Add_patch64(ab, ha, alo.l, ahi.l, bb, hb, blo.l, bhi.l, hc, clo.l, chi.l);
          else NGA_Add_patch(ab, ha, alo.i, ahi.i, bb, hb, blo.i, bhi.i, hc, clo.i, chi.i);
        } else if (!patch) {
          (e2 == 0 ? GA_Elem_multiply : e2 == 1 ? GA_Elem_divide : e2 == 2 ? GA_Elem_maximum : GA_Elem_minimum)(ha, hb, hc);
        } else if (w64) {
          (e2 == 0 ? GA_Elem_multiply_patch64 : e2 == 1 ? GA_Elem_divide_patch64 : e2 == 2 ? GA_Elem_maximum_patch64 : GA_Elem_minimum_patch64)(ha, alo.l, ahi.l, hb, blo.l, bhi.l, hc, clo.l, chi.l);
        } else {
          (e2 == 0 ? GA_Elem_multiply_patch : e2 == 1 ? GA_Elem_divide_patch : e2 == 2 ? GA_Elem_maximum_patch : GA_Elem_minimum_patch)(ha, alo.i, ahi.i, hb, blo.i, bhi.i, hc, clo.i, chi.i);
        }
        if (mk) GA_Mask_sync(1, 1);
        auto va = offsets(pa), vb = offsets(pb), vc = offsets(pc);
        std::vector<Val> res(va.size());
        for (size_t t = 0; t < va.size(); t++) {
          Val x = c.m[A].get(c.m[A].lin(va[t])), y = c.m[B].get(c.m[B].lin(vb[t]));
          if (e2 < 0) res[t] = vadd(type, vmul(type, al, x), vmul(type, be, y));
          else elem2ok(type, e2, x, y, res[t]);
        }
        for (size_t t = 0; t < vc.size(); t++) c.m[C].set(c.m[C].lin(vc[t]), res[t]);
        bool loose = e2 == 1;
        std::string what = fmt("%s %d%s %d%s -> %d%s", key.c_str(), A, pa.str().c_str(), B, pb.str().c_str(), C, pc.str().c_str());
        if (e2 >= 2 && is_cpl(type)) { // equal moduli: either operand
          gsync(g);
          Buf b(type, pc, VL(pc.lo.size(), 0));
          get(c.h[C], pc, b, false);
          for (size_t t = 0; t < vc.size(); t++) {
            Val x = c.m[A].get(c.m[A].lin(va[t])), y = c.m[B].get(c.m[B].lin(vb[t]));
            if (A != C && B != C && mod2(x) == mod2(y)) {
              Val got = load(type, b.at(vc[t]));
              if ((got.re == x.re && got.im == x.im) || (got.re == y.re && got.im == y.im)) c.m[C].set(c.m[C].lin(vc[t]), got);
            } else if (mod2(x) == mod2(y)) c.m[C].set(c.m[C].lin(vc[t]), load(type, b.at(vc[t])));
          }
        }
        verify(c, key, what, loose ? C : -1);
        if (loose) refill(c, C, 50, false);
        count(e2 < 0 ? "add" : "elem2");
      } else if (op <= 9) { // dot
        refill(c, A, 15, false);
        if (B != A) refill(c, B, 15, false);
        Patch pa, pb;
        bool resh = false, trans = false;
        char ta = gr.one_in(4) ? 't' : 'n', tb = ta;
        if (!patch) pa = pb = whole(c.m[A].dims);
        else {
          pa = rnd_patch(gr, c.m[A].dims);
          if (gr.one_in(3)) {
            VL e = extents(pa);
            std::reverse(e.begin(), e.end());
            if (!bc(c.L[A]) && !bc(c.L[B]) && fits(e, c.m[B].dims)) { trans = true; pb = place(gr, c.m[B].dims, e); if (ta == 'n') tb = 't'; else tb = 'n'; }
          }
          if (!trans && !match(c, A, pa, B, pb, resh)) continue;
          if (!trans && (bc(c.L[A]) || bc(c.L[B]))) ta = tb = 'n';
        }
        std::string key = std::string("dot") + (patch ? trans ? "_patch_trans" : resh ? "_patch_reshape" : "_patch" : "") + K(c, {A, B});
        Dims alo(pa.lo), ahi(pa.hi), blo(pb.lo), bhi(pb.hi);
        Val want, got;
        auto va = offsets(pa), vb = offsets(pb);
        for (size_t t = 0; t < va.size(); t++) {
          VL ib = trans ? mirror(pa, pb, va[t]) : vb[t];
          want = vadd(type, want, vmul(type, c.m[A].get(c.m[A].lin(va[t])), c.m[B].get(c.m[B].lin(ib))));
        }
        bool mk = mask();
        int ha = c.h[A], hb = c.h[B];
        opmark("%s %c%s %c%s", key.c_str(), ta, pa.str().c_str(), tb, pb.str().c_str());
#define DOT(T, pre) \
        { T v = !patch ? GA_##pre##dot(ha, hb) : w64 ? NGA_##pre##dot_patch64(ha, ta, alo.l, ahi.l, hb, tb, blo.l, bhi.l) : NGA_##pre##dot_patch(ha, ta, alo.i, ahi.i, hb, tb, blo.i, bhi.i); \
          got = load(type, &v); }
        if (type == C_INT) DOT(int, I)
        else if (type == C_LONG) DOT(long, L)
        else if (type == C_LONGLONG) DOT(long long, Ll)
        else if (type == C_FLOAT) DOT(float, F)
        else if (type == C_DBL) DOT(double, D)
        else if (type == C_SCPL) DOT(SingleComplex, C)
        else DOT(DoubleComplex, Z)
        if (mk) GA_Mask_sync(1, 1);
        if (is_int(type) ? got.i != want.i : got.re != want.re || got.im != want.im)
          violation(key, "%d%s . %d%s = %s, want %s", A, pa.str().c_str(), B, pb.str().c_str(), vstr(type, got).c_str(), vstr(type, want).c_str());
        verify(c, key + ":operands", key);
        count("dots");
      } else if (op == 10) { // 2-D transpose
        for (int t = 0; t < 20 && !(A != B && c.m[A].nd() == 2 && c.m[B].nd() == 2 && c.m[A].dims[0] == c.m[B].dims[1] && c.m[A].dims[1] == c.m[B].dims[0]); t++) { A = (int)gr.in(0, na - 1); B = (int)gr.in(0, na - 1); }
        if (!(A != B && c.m[A].nd() == 2 && c.m[B].nd() == 2 && c.m[A].dims[0] == c.m[B].dims[1] && c.m[A].dims[1] == c.m[B].dims[0])) continue;
        std::string key = "transpose" + K(c, {A, B});
        bool mk = mask();
        opmark("%s", key.c_str());
        GA_Transpose(c.h[A], c.h[B]);
        if (mk) GA_Mask_sync(1, 1);
        for (long x = 0; x < c.m[A].dims[0]; x++) for (long y = 0; y < c.m[A].dims[1]; y++) c.m[B].set(c.m[B].lin({y, x}), c.m[A].get(c.m[A].lin({x, y})));
        verify(c, key, fmt("transpose %d -> %d", A, B));
        count("transpose");
      } else if (op <= 16) { // abs, recip, add constant
        int u = (int)gr.in(0, 2);
        if (type == C_LONGLONG) continue;
        static const char *on[] = {"abs_value", "recip", "add_constant"};
        refill(c, A, 100, u == 1);
        Patch p = patch ? rnd_patch(gr, c.m[A].dims) : whole(c.m[A].dims);
        std::string key = std::string(on[u]) + (patch ? "_patch" : "") + K(c, {A});
        Dims lo(p.lo), hi(p.hi);
        Val v = scalar(c, 50);
        char vb[16];
        store(type, vb, v);
        bool mk = mask();
        opmark("%s %s", key.c_str(), p.str().c_str());
        int ha = c.h[A];
        if (u == 0) { if (!patch) GA_Abs_value(ha); else if (w64) GA_Abs_value_patch64(ha, lo.l, hi.l); else GA_Abs_value_patch(ha, lo.i, hi.i); }
        else if (u == 1) { if (!patch) GA_Recip(ha); else if (w64) GA_Recip_patch64(ha, lo.l, hi.l); else GA_Recip_patch(ha, lo.i, hi.i); }
        else { if (!patch) GA_Add_constant(ha, vb); else if (w64) GA_Add_constant_patch64(ha, lo.l, hi.l, vb); else GA_Add_constant_patch(ha, lo.i, hi.i, vb); }
        if (mk) GA_Mask_sync(1, 1);
        each(p, [&](const VL &ix, long) {
          long l = c.m[A].lin(ix);
          Val x = c.m[A].get(l), y;
          if (u == 0) { if (is_int(type)) y.i = std::labs(x.i); else y.re = std::hypot(x.re, x.im); }
          else if (u == 1) {
            if (is_int(type)) y.i = 1 / x.i;
            else if (is_cpl(type)) { std::complex<double> z = 1.0 / std::complex<double>(x.re, x.im); y.re = z.real(); y.im = z.imag(); }
            else y.re = 1 / x.re;
          } else y = vadd(type, x, v);
          c.m[A].set(l, y);
        });
        bool loose = u < 2 && !is_int(type);
        verify(c, key, fmt("%s A=%d %s", key.c_str(), A, p.str().c_str()), loose ? A : -1);
        if (loose) refill(c, A, 50, false);
        count("elem1");
      } else { // median
        if (type == C_LONGLONG) continue; // rejected ("wrong data type")
        int ids[3] = {A, B, C};
        Patch ps[3], pm;
        bool rs = false;
        if (!patch) for (auto &p : ps) p = pm = whole(c.m[A].dims);
        else {
          ps[0] = rnd_patch(gr, c.m[A].dims);
          bool ok = true, r1;
          for (int t = 1; t < 3; t++) { ok &= match(c, A, ps[0], ids[t], ps[t], r1); rs |= r1; }
          ok = ok && match(c, A, ps[0], M, pm, r1); rs |= r1;
          bool anybc = bc(c.L[M]);
          for (int t : ids) anybc |= bc(c.L[t]);
          if (!ok || (anybc && rs)) continue;
          // a destination that is also an operand: the same patch for all its uses
          for (int t = 0; t < 3; t++) if (ids[t] == M) pm = ps[t];
          for (int t = 0; t < 3; t++) if (ids[t] == M && extents(ps[t]) == extents(pm)) ps[t] = pm; else if (ids[t] == M) ok = false;
          if (!ok) continue;
        }
        std::string key = std::string("median") + (patch ? rs ? "_patch_reshape" : "_patch" : "") + K(c, {A, B, C, M});
        for (int t = 0; t < 3; t++) if (gr.one_in(3)) refill(c, ids[t], 3, false);
        bool mk = mask();
        opmark("%s", key.c_str());
        Dims l0(ps[0].lo), h0(ps[0].hi), l1(ps[1].lo), h1(ps[1].hi), l2(ps[2].lo), h2(ps[2].hi), lm(pm.lo), hm(pm.hi);
        if (!patch) GA_Median(c.h[A], c.h[B], c.h[C], c.h[M]);
        else if (w64) GA_Median_patch64(c.h[A], l0.l, h0.l, c.h[B], l1.l, h1.l, c.h[C], l2.l, h2.l, c.h[M], lm.l, hm.l);
        else GA_Median_patch(c.h[A], l0.i, h0.i, c.h[B], l1.i, h1.i, c.h[C], l2.i, h2.i, c.h[M], lm.i, hm.i);
        if (mk) GA_Mask_sync(1, 1);
        auto v0 = offsets(ps[0]), v1 = offsets(ps[1]), v2 = offsets(ps[2]), vm = offsets(pm);
        std::vector<Val> res;
        for (size_t t = 0; t < v0.size(); t++) {
          Val x[3] = {c.m[A].get(c.m[A].lin(v0[t])), c.m[B].get(c.m[B].lin(v1[t])), c.m[C].get(c.m[C].lin(v2[t]))};
          std::sort(x, x + 3, [&](const Val &p, const Val &q) { return is_int(type) ? p.i < q.i : is_cpl(type) ? mod2(p) < mod2(q) : p.re < q.re; });
          res.push_back(x[1]);
        }
        if (is_cpl(type)) { // complex values are ordered by modulus: any operand of the middle modulus
          gsync(g);
          Buf b(type, pm, VL(pm.lo.size(), 0));
          get(c.h[M], pm, b, false);
          for (size_t t = 0; t < vm.size(); t++) {
            Val got = load(type, b.at(vm[t])), x[3] = {c.m[A].get(c.m[A].lin(v0[t])), c.m[B].get(c.m[B].lin(v1[t])), c.m[C].get(c.m[C].lin(v2[t]))};
            for (auto &v : x) if (mod2(v) == mod2(res[t]) && v.re == got.re && v.im == got.im) res[t] = got;
          }
          gsync(g);
        }
        for (size_t t = 0; t < vm.size(); t++) c.m[M].set(c.m[M].lin(vm[t]), res[t]);
        verify(c, key, fmt("median %d%s %d%s %d%s -> %d%s", A, ps[0].str().c_str(), B, ps[1].str().c_str(), C, ps[2].str().c_str(), M, pm.str().c_str()));
        count("median");
      }
    }
    gsync(g);
    opmark("destroy");
    for (int h : c.h) GA_Destroy(h);
    if (!g.world) GA_Pgroup_set_default(oldgrp);
  }
  if (!sp.gs[0].world) cross(i, sp);
  free_split(sp);
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
  return 0;
}
