// GA-level helpers: typed sequential array model and random array layouts.
#ifndef GAMON_H
#define GAMON_H
#include "mon.h"
#include "ga.h"
#include "macdecls.h"

namespace gm {
using namespace mon;

typedef std::vector<long> VL;

inline const std::vector<int> ALLTYPES = {C_INT, C_LONG, C_LONGLONG, C_FLOAT, C_DBL, C_SCPL, C_DCPL};
inline const char *tname(int t) {
  return t == C_INT ? "int" : t == C_LONG ? "long" : t == C_LONGLONG ? "llong" : t == C_FLOAT ? "float"
       : t == C_DBL ? "dbl" : t == C_SCPL ? "scpl" : t == C_DCPL ? "dcpl" : "?";
}
inline long tsize(int t) {
  return t == C_INT ? 4 : t == C_LONG ? 8 : t == C_LONGLONG ? 8 : t == C_FLOAT ? 4 : t == C_DBL ? 8 : t == C_SCPL ? 8 : 16;
}
inline bool is_int(int t) { return t == C_INT || t == C_LONG || t == C_LONGLONG; }
inline bool is_cpl(int t) { return t == C_SCPL || t == C_DCPL; }

// scalar of any type, kept exactly: integers in i, floats in (re,im)
struct Val { int64_t i = 0; double re = 0, im = 0; };
inline Val load(int t, const void *p) {
  Val v;
  if (t == C_INT) { int x; memcpy(&x, p, 4); v.i = x; }
  else if (t == C_LONG || t == C_LONGLONG) { int64_t x; memcpy(&x, p, 8); v.i = x; }
  else if (t == C_FLOAT) { float x; memcpy(&x, p, 4); v.re = x; }
  else if (t == C_DBL) { double x; memcpy(&x, p, 8); v.re = x; }
  else if (t == C_SCPL) { float x[2]; memcpy(x, p, 8); v.re = x[0]; v.im = x[1]; }
  else { double x[2]; memcpy(x, p, 16); v.re = x[0]; v.im = x[1]; }
  return v;
}
inline void store(int t, void *p, const Val &v) {
  if (t == C_INT) { int x = (int)v.i; memcpy(p, &x, 4); }
  else if (t == C_LONG || t == C_LONGLONG) { memcpy(p, &v.i, 8); }
  else if (t == C_FLOAT) { float x = (float)v.re; memcpy(p, &x, 4); }
  else if (t == C_DBL) { memcpy(p, &v.re, 8); }
  else if (t == C_SCPL) { float x[2] = {(float)v.re, (float)v.im}; memcpy(p, x, 8); }
  else { double x[2] = {v.re, v.im}; memcpy(p, x, 16); }
}
inline Val vadd(int t, Val a, const Val &b) {
  if (is_int(t)) a.i = (int64_t)((uint64_t)a.i + (uint64_t)b.i); else { a.re += b.re; a.im += b.im; }
  return a;
}
inline Val vmul(int t, const Val &a, const Val &b) {
  Val r;
  if (is_int(t)) r.i = (int64_t)((uint64_t)a.i * (uint64_t)b.i);
  else if (is_cpl(t)) { r.re = a.re * b.re - a.im * b.im; r.im = a.re * b.im + a.im * b.re; }
  else r.re = a.re * b.re;
  return r;
}
inline std::string vstr(int t, const Val &v) {
  return is_int(t) ? fmt("%ld", (long)v.i) : is_cpl(t) ? fmt("(%.17g,%.17g)", v.re, v.im) : fmt("%.17g", v.re);
}
// value in an exactly representable range; mag limits the magnitude
inline Val rnd_val(int t, Rng &r, long mag = 0) {
  Val v;
  if (t == C_INT) v.i = r.in(-(mag ? mag : 1000000), mag ? mag : 1000000);
  else if (is_int(t)) v.i = r.in(-(mag ? mag : 1000000000000000L), mag ? mag : 1000000000000000L);
  else if (t == C_FLOAT || t == C_SCPL) { v.re = r.in(-(mag ? mag : 1000), mag ? mag : 1000); if (is_cpl(t)) v.im = r.in(-(mag ? mag : 1000), mag ? mag : 1000); }
  else { v.re = r.in(-(mag ? mag : 1000000000), mag ? mag : 1000000000); if (is_cpl(t)) v.im = r.in(-(mag ? mag : 1000000000), mag ? mag : 1000000000); }
  return v;
}
inline Val ival(int t, long re, long im = 0) {
  Val v;
  if (is_int(t)) v.i = re; else { v.re = re; v.im = is_cpl(t) ? im : 0; }
  return v;
}

struct MArr {
  int type = C_INT;
  long es = 4;
  VL dims;
  long n = 0;
  std::vector<char> d;
  MArr() {}
  MArr(int t, const VL &dm) : type(t), es(tsize(t)), dims(dm) {
    n = 1;
    for (long x : dims) n *= x;
    d.assign(n * es, 0);
  }
  int nd() const { return (int)dims.size(); }
  char *at(long lin) { return d.data() + lin * es; }
  const char *at(long lin) const { return d.data() + lin * es; }
  Val get(long lin) const { return load(type, at(lin)); }
  void set(long lin, const Val &v) { store(type, at(lin), v); }
  long lin(const VL &ix) const {
    long l = 0;
    for (int k = 0; k < nd(); k++) l = l * dims[k] + ix[k];
    return l;
  }
};

struct Patch {
  VL lo, hi;
  long size() const { long n = 1; for (size_t k = 0; k < lo.size(); k++) n *= hi[k] - lo[k] + 1; return n; }
  std::string str() const {
    std::string s = "[";
    for (size_t k = 0; k < lo.size(); k++) s += fmt("%s%ld:%ld", k ? "," : "", lo[k], hi[k]);
    return s + "]";
  }
  bool overlaps(const Patch &o) const {
    for (size_t k = 0; k < lo.size(); k++) if (hi[k] < o.lo[k] || o.hi[k] < lo[k]) return false;
    return true;
  }
  bool contains(const VL &ix) const {
    for (size_t k = 0; k < lo.size(); k++) if (ix[k] < lo[k] || ix[k] > hi[k]) return false;
    return true;
  }
};
// iterate a patch in row-major (C) order: f(index, ordinal)
template <class F> inline void each(const Patch &p, F f) {
  int nd = (int)p.lo.size();
  for (int k = 0; k < nd; k++) if (p.hi[k] < p.lo[k]) return;
  VL ix = p.lo;
  long ord = 0;
  for (;;) {
    f(ix, ord++);
    int k = nd - 1;
    while (k >= 0 && ++ix[k] > p.hi[k]) { ix[k] = p.lo[k]; k--; }
    if (k < 0) return;
  }
}
inline Patch whole(const VL &dims) {
  Patch p;
  for (long d : dims) { p.lo.push_back(0); p.hi.push_back(d - 1); }
  return p;
}
inline Patch rnd_patch(Rng &r, const VL &dims) {
  Patch p;
  int style = (int)r.in(0, 9);
  for (size_t k = 0; k < dims.size(); k++) {
    long d = dims[k], a, b;
    int s = style;
    if (s >= 6) s = (int)r.in(0, 5);
    if (s == 0) { a = 0; b = d - 1; }
    else if (s == 1) { a = b = r.in(0, d - 1); }
    else if (s == 2) { a = 0; b = r.in(0, d - 1); }
    else if (s == 3) { b = d - 1; a = r.in(0, d - 1); }
    else { a = r.in(0, d - 1); b = r.in(0, d - 1); if (a > b) std::swap(a, b); }
    p.lo.push_back(a); p.hi.push_back(b);
  }
  return p;
}

// local buffer for a patch with leading dimensions; canary-filled.
struct Buf {
  int type; long es; Patch p; VL ext, ld; // ext: allocated extent of each dim (ext[0] = patch)
  std::vector<char> raw;
  long pre = 64, total = 0;
  Buf(int t, const Patch &pp, const VL &pad) : type(t), es(tsize(t)), p(pp) { setup(pad); }
  Buf(long esz, const Patch &pp, const VL &pad, int) : type(0), es(esz), p(pp) { setup(pad); }
  void setup(const VL &pad) {
    int nd = (int)p.lo.size();
    ext.resize(nd);
    for (int k = 0; k < nd; k++) ext[k] = p.hi[k] - p.lo[k] + 1 + (k > 0 ? pad[k] : 0);
    ld.clear();
    for (int k = 1; k < nd; k++) ld.push_back(ext[k]);
    if (ld.empty()) ld.push_back(1);
    // bytes touched: up to the last element of the patch (no trailing pad is required)
    long last = 0;
    for (int k = 0; k < nd; k++) last = last * ext[k] + (p.hi[k] - p.lo[k]);
    total = (last + 1) * es;
    raw.assign(pre + total + 64, (char)0xA5);
    for (size_t i = 0; i < raw.size(); i++) raw[i] = (char)(0xA0 + (i % 13));
  }
  char *ptr() { return raw.data() + pre; }
  char *at(const VL &ix) {
    long l = 0;
    for (size_t k = 0; k < ix.size(); k++) l = l * ext[k] + (ix[k] - p.lo[k]);
    return ptr() + l * es;
  }
  // every byte outside the patch still holds the canary
  bool frame_ok(long *where = nullptr) {
    std::vector<char> mask(raw.size(), 0);
    each(p, [&](const VL &ix, long) { memset(mask.data() + (at(ix) - raw.data()), 1, es); });
    for (size_t i = 0; i < raw.size(); i++)
      if (!mask[i] && raw[i] != (char)(0xA0 + (i % 13))) { if (where) *where = (long)i - pre; return false; }
    return true;
  }
};
inline VL rnd_pad(Rng &r, int nd) {
  VL v(nd, 0);
  if (r.one_in(2)) for (auto &x : v) x = r.in(0, 3);
  return v;
}

struct Dims { // conversion to int / int64 arrays
  int i[8]; int64_t l[8];
  Dims(const VL &v) { for (size_t k = 0; k < v.size() && k < 8; k++) { i[k] = (int)v[k]; l[k] = v[k]; } }
};

// ---- groups -------------------------------------------------------------
struct Group {
  int h = -1;            // GA handle; -1: world
  std::vector<int> mem;  // world ranks in group order
  bool in = true;
  int rank = 0;          // my rank in the group
  bool world = true;
  std::string desc = "world";
  int size() const { return (int)mem.size(); }
};
inline Group world_group() {
  Group g;
  g.h = GA_Pgroup_get_world();
  for (int i = 0; i < GA_Nnodes(); i++) g.mem.push_back(i);
  g.rank = GA_Nodeid();
  return g;
}
// collective over world, shared rng
inline Group rnd_group(Rng &r) {
  int n = GA_Nnodes();
  Group g;
  g.world = false;
  int k = (int)r.in(1, n);
  std::vector<int> all;
  for (int i = 0; i < n; i++) all.push_back(i);
  r.shuffle(all);
  all.resize(k);
  std::sort(all.begin(), all.end());
  g.mem = all;
  g.h = GA_Pgroup_create(g.mem.data(), k);
  g.in = false;
  g.desc = "grp{";
  for (int i = 0; i < k; i++) { if (g.mem[i] == GA_Nodeid()) { g.in = true; g.rank = i; } g.desc += fmt("%s%d", i ? "," : "", g.mem[i]); }
  g.desc += "}";
  return g;
}
inline void gsync(const Group &g) { if (g.world) GA_Sync(); else if (g.in) GA_Pgroup_sync(g.h); }
inline void gfree(Group &g) { if (!g.world && g.in) GA_Pgroup_destroy(g.h); }

// ---- layouts ------------------------------------------------------------
enum Kind { REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR, GHOST, GHOSTIRR, RESTR, RESTRRANGE, NKIND };
inline const char *kname(int k) {
  static const char *n[] = {"regular", "chunk", "irreg", "blockcyclic", "scalapack", "tiled", "tiledirreg",
                            "ghost", "ghostirreg", "restricted", "restrictedrange"};
  return n[k];
}
struct Layout {
  Kind kind = REG;
  VL chunk, width, blk, grid, map, nblk;
  std::vector<int> rlist;
  int rlo = 0, rhi = 0;
  std::string str() const {
    auto v = [](const VL &x) { std::string s; for (size_t i = 0; i < x.size(); i++) s += fmt("%s%ld", i ? "," : "", x[i]); return s; };
    std::string s = kname(kind);
    if (!chunk.empty()) s += " chunk=" + v(chunk);
    if (!width.empty()) s += " width=" + v(width);
    if (!blk.empty()) s += " blk=" + v(blk);
    if (!grid.empty()) s += " grid=" + v(grid);
    if (!map.empty()) s += " nblk=" + v(nblk) + " map=" + v(map);
    if (!rlist.empty()) { s += " rlist="; for (int x : rlist) s += fmt("%d,", x); }
    if (kind == RESTRRANGE) s += fmt(" range=%d-%d", rlo, rhi);
    return s;
  }
};
inline VL factor_grid(Rng &r, int n, int nd) { // random factorisation of n into nd factors
  VL g(nd, 1);
  int m = n;
  for (int p = 2; m > 1;) {
    if (m % p == 0) { g[r.in(0, nd - 1)] *= p; m /= p; }
    else p++;
  }
  return g;
}
// random cut of [0,d) into b nonempty blocks; returns starts
inline VL rnd_cuts(Rng &r, long d, long b) {
  std::vector<long> c;
  for (long i = 1; i < d; i++) c.push_back(i);
  r.shuffle(c);
  c.resize(b - 1);
  c.push_back(0);
  std::sort(c.begin(), c.end());
  return c;
}
struct LayoutOpt {
  std::vector<int> kinds;
  LayoutOpt() { for (int k = 0; k < NKIND; k++) kinds.push_back(k); }
  LayoutOpt(std::initializer_list<int> l) : kinds(l) {}
};
inline Layout rnd_layout(Rng &r, const VL &dims, int nproc, const LayoutOpt &o = LayoutOpt()) {
  Layout L;
  int nd = (int)dims.size();
  L.kind = (Kind)r.pick(o.kinds);
  // ghost arrays need data on every process of the array
  if (L.kind == GHOST || L.kind == GHOSTIRR) for (long d : dims) if (d < nproc) { L.kind = REG; break; }
  auto irr = [&](int nprocs) {
    // blocks per dim with product <= nprocs
    L.nblk.assign(nd, 1);
    long prod = 1;
    for (int t = 0; t < 3 * nd; t++) {
      int k = (int)r.in(0, nd - 1);
      if (L.nblk[k] + 1 <= dims[k] && prod / L.nblk[k] * (L.nblk[k] + 1) <= nprocs) { prod = prod / L.nblk[k] * (L.nblk[k] + 1); L.nblk[k]++; }
    }
    for (int k = 0; k < nd; k++) { VL c = rnd_cuts(r, dims[k], L.nblk[k]); L.map.insert(L.map.end(), c.begin(), c.end()); }
  };
  switch (L.kind) {
  case CHUNK:
    for (int k = 0; k < nd; k++) { int s = (int)r.in(0, 3); L.chunk.push_back(s == 0 ? -1 : s == 1 ? dims[k] : s == 2 ? 1 : r.in(1, dims[k])); }
    break;
  case IRREG: irr(nproc); break;
  case BCYC: for (int k = 0; k < nd; k++) L.blk.push_back(r.in(1, std::max(1L, std::min(dims[k], r.one_in(4) ? dims[k] : dims[k] / 2 + 1)))); break;
  case SCALA: case TILED:
    for (int k = 0; k < nd; k++) L.blk.push_back(r.in(1, std::max(1L, r.one_in(4) ? dims[k] : dims[k] / 2 + 1)));
    L.grid = factor_grid(r, nproc, nd);
    break;
  case TILEDIRR: {
    L.grid = factor_grid(r, nproc, nd);
    for (int k = 0; k < nd; k++) {
      long b = r.in(1, std::min(dims[k], 6L));
      L.nblk.push_back(b);
      VL c = rnd_cuts(r, dims[k], b);
      L.map.insert(L.map.end(), c.begin(), c.end());
    }
    break;
  }
  case GHOST: case GHOSTIRR:
    // every block must be at least as wide as the ghost region
    for (int k = 0; k < nd; k++) L.width.push_back(std::min(r.in(0, 2), dims[k] / nproc));
    if (L.kind == GHOSTIRR) {
      L.nblk = factor_grid(r, nproc, nd);
      for (int k = 0; k < nd; k++) { VL c = rnd_cuts(r, dims[k], L.nblk[k]); L.map.insert(L.map.end(), c.begin(), c.end()); }
      int off = 0;
      for (int k = 0; k < nd; k++) {
        for (int b = 0; b < L.nblk[k]; b++) {
          long sz = (b + 1 < L.nblk[k] ? L.map[off + b + 1] : dims[k]) - L.map[off + b];
          L.width[k] = std::min(L.width[k], sz);
        }
        off += (int)L.nblk[k];
      }
    }
    break;
  case RESTR: {
    std::vector<int> all;
    for (int i = 0; i < nproc; i++) all.push_back(i);
    r.shuffle(all);
    all.resize(r.in(1, nproc));
    L.rlist = all;
    break;
  }
  case RESTRRANGE: L.rlo = (int)r.in(0, nproc - 1); L.rhi = (int)r.in(L.rlo, nproc - 1); break;
  default: break;
  }
  return L;
}
// collective over the group (members only call it)
inline int make_array(const Layout &L, int type, const VL &dims, const Group &g, const char *name = "a", bool use64 = false) {
  int nd = (int)dims.size();
  Dims D(dims);
  int h = NGA_Create_handle();
  if (use64) NGA_Set_data64(h, nd, D.l, type); else NGA_Set_data(h, nd, D.i, type);
  GA_Set_array_name(h, (char *)name);
  if (!g.world) GA_Set_pgroup(h, g.h);
  auto iv = [](const VL &v) { std::vector<int> r; for (long x : v) r.push_back((int)x); return r; };
  auto chunk = iv(L.chunk), width = iv(L.width), blk = iv(L.blk), grid = iv(L.grid), map = iv(L.map), nblk = iv(L.nblk);
  std::vector<int64_t> map64(L.map.begin(), L.map.end()), nblk64(L.nblk.begin(), L.nblk.end()), width64(L.width.begin(), L.width.end()), chunk64(L.chunk.begin(), L.chunk.end());
  switch (L.kind) {
  case CHUNK: if (use64) GA_Set_chunk64(h, chunk64.data()); else GA_Set_chunk(h, chunk.data()); break;
  case IRREG: if (use64) GA_Set_irreg_distr64(h, map64.data(), nblk64.data()); else GA_Set_irreg_distr(h, map.data(), nblk.data()); break;
  case BCYC: GA_Set_block_cyclic(h, blk.data()); break;
  case SCALA: GA_Set_block_cyclic_proc_grid(h, blk.data(), grid.data()); break;
  case TILED: GA_Set_tiled_proc_grid(h, blk.data(), grid.data()); break;
  case TILEDIRR: GA_Set_tiled_irreg_proc_grid(h, map.data(), nblk.data(), grid.data()); break;
  case GHOST: if (use64) GA_Set_ghosts64(h, width64.data()); else GA_Set_ghosts(h, width.data()); break;
  case GHOSTIRR:
    if (use64) GA_Set_ghosts64(h, width64.data()); else GA_Set_ghosts(h, width.data());
    GA_Set_irreg_distr(h, map.data(), nblk.data());
    break;
  case RESTR: { auto l = L.rlist; GA_Set_restricted(h, l.data(), (int)l.size()); break; }
  case RESTRRANGE: GA_Set_restricted_range(h, L.rlo, L.rhi); break;
  default: break;
  }
  if (!GA_Allocate(h)) harness_error("GA_Allocate failed: %s", L.str().c_str());
  return h;
}

inline VL rnd_dims(Rng &r, int nd, long maxelems) {
  VL d(nd);
  for (;;) {
    long n = 1;
    for (int k = 0; k < nd; k++) {
      long hi = nd == 1 ? maxelems : nd == 2 ? 40 : nd == 3 ? 14 : nd == 4 ? 8 : 5;
      int s = (int)r.in(0, 5);
      d[k] = s == 0 ? r.in(1, 3) : s == 1 ? r.in(1, std::max(1L, hi / 2)) : r.in(1, hi);
      n *= d[k];
    }
    if (n <= maxelems) return d;
  }
}
inline int rnd_nd(Rng &r) { int s = (int)r.in(0, 11); return s < 2 ? 1 : s < 6 ? 2 : s < 8 ? 3 : s < 9 ? 4 : (int)r.in(4, 7); }
inline std::string dimstr(const VL &d) { std::string s; for (size_t i = 0; i < d.size(); i++) s += fmt("%s%ld", i ? "x" : "", d[i]); return s; }

// ---- plain wrappers choosing 32/64-bit entry points ----------------------
inline void put(int g, const Patch &p, Buf &b, bool w64) {
  Dims lo(p.lo), hi(p.hi), ld(b.ld);
  if (w64) NGA_Put64(g, lo.l, hi.l, b.ptr(), ld.l); else NGA_Put(g, lo.i, hi.i, b.ptr(), ld.i);
}
inline void get(int g, const Patch &p, Buf &b, bool w64) {
  Dims lo(p.lo), hi(p.hi), ld(b.ld);
  if (w64) NGA_Get64(g, lo.l, hi.l, b.ptr(), ld.l); else NGA_Get(g, lo.i, hi.i, b.ptr(), ld.i);
}
inline void acc(int g, const Patch &p, Buf &b, void *alpha, bool w64) {
  Dims lo(p.lo), hi(p.hi), ld(b.ld);
  if (w64) NGA_Acc64(g, lo.l, hi.l, b.ptr(), ld.l, alpha); else NGA_Acc(g, lo.i, hi.i, b.ptr(), ld.i, alpha);
}
// read the whole array (or a patch) and compare it with the model
inline void check_patch(int g, const MArr &m, const Patch &p, const std::string &key, const char *what, bool w64 = false) {
  Buf b(m.type, p, VL(m.dims.size(), 0));
  opmark("%s verify get %s", what, p.str().c_str());
  get(g, p, b, w64);
  long bad = 0;
  std::string first;
  each(p, [&](const VL &ix, long) {
    if (memcmp(b.at(ix), m.at(m.lin(ix)), m.es)) {
      if (!bad++) { first = "at ("; for (long x : ix) first += fmt("%ld,", x); first += ") got " + vstr(m.type, load(m.type, b.at(ix))) + " want " + vstr(m.type, m.get(m.lin(ix))); }
    }
  });
  count("elements_compared", p.size());
  if (bad) violation(key, "%s: %ld of %ld elements wrong, first %s", what, bad, p.size(), first.c_str());
}
inline void check_all(int g, const MArr &m, const std::string &key, const char *what) { check_patch(g, m, whole(m.dims), key, what); }

// initialise the array and the model with random values by local puts of rank 0 of the group
inline void fill_random(int g, MArr &m, Rng &shared, const Group &grp, long mag = 0) {
  for (long i = 0; i < m.n; i++) m.set(i, rnd_val(m.type, shared, mag));
  if (grp.rank == 0) {
    Patch p = whole(m.dims);
    Buf b(m.type, p, VL(m.dims.size(), 0));
    memcpy(b.ptr(), m.d.data(), m.n * m.es);
    opmark("fill_random put");
    put(g, p, b, false);
  }
  gsync(grp);
}

inline void ga_start(int *argc, char ***argv, bool ma = true, int required = MPI_THREAD_SINGLE) {
#if defined(PORT_MT) || defined(PORT_PT)
  required = MPI_THREAD_MULTIPLE;
#endif
  int prov;
  MPI_Init_thread(argc, argv, required, &prov);
  if (const char *sub = getenv("MON_SUB")) { // two instances on communicators of the given sizes, members and order at random
    int wr, ws, k = atoi(sub);
    MPI_Comm_rank(MPI_COMM_WORLD, &wr);
    MPI_Comm_size(MPI_COMM_WORLD, &ws);
    long sd = 1;
    for (int i = 1; i + 1 < *argc; i++) if (std::string((*argv)[i]) == "--seed" || std::string((*argv)[i]) == "--lo") sd = sd * 31 + atol((*argv)[i + 1]);
    Rng r(sd);
    std::vector<int> o;
    for (int i = 0; i < ws; i++) o.push_back(i);
    r.shuffle(o);
    int at = (int)(std::find(o.begin(), o.end(), wr) - o.begin());
    MPI_Comm c;
    MPI_Comm_split(MPI_COMM_WORLD, at < k ? 0 : 1, at, &c);
    int ok = GA_Initialize_comm(c);
    int mine = ok ? GA_Nodeid() : 0, n = ok ? GA_Nnodes() : 0;
    if (!ok) { // a process that served the others has returned: they have terminated
      MPI_Finalize();
      _exit(0);
    }
    if (at >= k) mon::fid_base = 100;
    mon::init(*argc, *argv, mine, n);
    if (at >= k) mon::seed += 7777;
    count("instances_on_communicators", mine == 0);
  } else {
    GA_Initialize();
    mon::init(*argc, *argv, GA_Nodeid(), GA_Nnodes());
  }
  if (ma) if (!MA_init(C_DBL, 400000, 400000)) harness_error("MA_init failed");
}
inline void ga_stop() {
  GA_Sync();
  finish();
  GA_Terminate();
  MPI_Finalize();
}
} // namespace gm
namespace gm {
// Disjoint groups of world ranks; every rank belongs to at most one. Collective over world.
// With probability 1/2 the result is just the world.
struct Split { std::vector<Group> gs; int mine = -1; Group *my() { return mine < 0 ? nullptr : &gs[mine]; } };
inline Split rnd_split(Rng &r, int world_weight = 5) {
  Split s;
  int n = GA_Nnodes();
  if (r.in(1, 10) <= world_weight || n == 1) { s.gs.push_back(world_group()); s.mine = 0; return s; }
  std::vector<int> all;
  for (int i = 0; i < n; i++) all.push_back(i);
  r.shuffle(all);
  int k = (int)r.in(1, std::min(3, n));
  std::vector<std::vector<int>> parts(k);
  for (int i = 0; i < n; i++) {
    int w = i < k ? i : (int)r.in(0, k); // index k: in no group
    if (w < k) parts[w].push_back(all[i]);
  }
  for (int i = 0; i < k; i++) {
    Group g;
    g.world = false;
    std::sort(parts[i].begin(), parts[i].end());
    g.mem = parts[i];
    auto l = g.mem;
    g.h = GA_Pgroup_create(l.data(), (int)l.size());
    g.in = false;
    g.desc = "grp{";
    for (size_t q = 0; q < g.mem.size(); q++) {
      if (g.mem[q] == GA_Nodeid()) { g.in = true; g.rank = (int)q; s.mine = i; }
      g.desc += fmt("%s%d", q ? "," : "", g.mem[q]);
    }
    g.desc += "}";
    s.gs.push_back(g);
  }
  return s;
}
inline void free_split(Split &s) {
  GA_Sync();
  if (s.mine >= 0 && !s.gs[s.mine].world) GA_Pgroup_destroy(s.gs[s.mine].h);
  GA_Sync();
}
inline bool overlaps_any(const Patch &p, const std::vector<Patch> &v) { for (auto &q : v) if (p.overlaps(q)) return true; return false; }

// number of blocks / owner-block access through the public query interface
// Reads everything the calling process can see directly and compares it with the model.
inline long check_local(int g, const MArr &m, const std::string &key) {
  int nd = m.nd();
  long cnt = 0;
  auto cmp = [&](const Patch &p, void *ptr, const int *ld) {
    each(p, [&](const VL &ix, long) {
      long off = 0;
      for (int k = 0; k < nd; k++) { off = off * (k ? ld[k - 1] : 1) + (ix[k] - p.lo[k]); }
      const char *q = (const char *)ptr + off * m.es;
      if (memcmp(q, m.at(m.lin(ix)), m.es)) {
        std::string s;
        for (long x : ix) s += fmt("%ld,", x);
        violation(key, "direct access at (%s): %s want %s", s.c_str(), vstr(m.type, load(m.type, q)).c_str(), vstr(m.type, m.get(m.lin(ix))).c_str());
      }
      cnt++;
    });
  };
  int nb = GA_Total_blocks(g);
  int lo[8], hi[8], ld[8];
  if (nb < 0) {
    int who = GA_Pgroup_nodeid(GA_Get_pgroup(g));
    NGA_Distribution(g, who, lo, hi);
    bool empty = false;
    Patch p;
    for (int k = 0; k < nd; k++) { p.lo.push_back(lo[k]); p.hi.push_back(hi[k]); if (hi[k] < lo[k] || lo[k] < 0) empty = true; }
    if (!empty) {
      void *ptr = nullptr;
      opmark("NGA_Access %s", p.str().c_str());
      NGA_Access(g, lo, hi, &ptr, ld);
      cmp(p, ptr, ld);
      NGA_Release(g, lo, hi);
    }
  }
  if (cnt) count("elements_direct", cnt);
  return cnt;
}
} // namespace gm

#endif
