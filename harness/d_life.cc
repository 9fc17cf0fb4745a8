// C13: array lifecycle, handles and memory accounting.
#include "gamon.h"
#include <malloc.h>
using namespace gm;

struct LA {
  int h = 0;
  MArr m;
  Layout L;
  int grp = 0;            // index into groups
  std::string name;
  bool valid = true;      // contents known
  bool live = true;
  bool alloc = true;      // has memory
  int parent = -1;        // overlay of
  bool same = false;      // overlay with the parent's own type and layout
  long bytes = 0;         // memory charged to this process
  int prop = 0;           // 1: read_cache, 2: read_only
  bool assembled = false;
  bool plain() const { return parent < 0 && !assembled; }
};
struct Mem { void *p; int type; long n; long charge; };

static std::vector<Group> gr;
static std::vector<LA> as;
static std::vector<Mem> mems;
static bool limited = false;
static long limit_ = 0, charged = 0; // charged: bytes counted against the limit
static std::set<int> ever, cur;
static long maxlive = 0;

static Group &G(const LA &a) { return gr[a.grp]; }
static bool in(const LA &a) { return G(a).in; }
static std::string rname(Rng &r) {
  std::string s;
  long n = r.one_in(4) ? 31 : r.one_in(3) ? 30 : r.in(1, 20);
  for (long i = 0; i < n; i++) s += (char)('a' + r.in(0, 25));
  return s;
}
static long live_bytes() {
  long s = 0;
  for (auto &a : as) if (a.live && a.alloc && in(a) && a.parent < 0) s += a.bytes;
  return s;
}
static void check_memory(const char *ctx) {
  long want = live_bytes(), got = (long)GA_Inquire_memory();
  if (want != got) violation("memory:inquire", "%s: GA_Inquire_memory %ld, live arrays hold %ld bytes here", ctx, got, want);
  if ((GA_Memory_limited() != 0) != limited) violation("memory:limited", "%s: GA_Memory_limited %d", ctx, GA_Memory_limited());
  if (limited) {
    long av = (long)GA_Memory_avail();
    if (av != limit_ - charged) violation("memory:avail", "%s: GA_Memory_avail %ld, limit %ld less %ld in use is %ld", ctx, av, limit_, charged, limit_ - charged);
    count("avail_checked");
  }
  count("memory_checked");
}
static void check_meta(LA &a, const char *ctx) {
  if (!in(a) || !a.live) return;
  if (!a.alloc) return;
  int type, nd, dims[8];
  if (!GA_Valid_handle(a.h)) violation("meta:valid", "%s: live handle %d reported invalid", ctx, a.h);
  NGA_Inquire(a.h, &type, &nd, dims);
  if (nd != a.m.nd()) violation("meta:ndim", "%s: %d want %d", ctx, nd, a.m.nd());
  for (int k = 0; k < nd; k++) if (dims[k] != a.m.dims[k]) violation("meta:dims", "%s: dims[%d] %d want %ld", ctx, k, dims[k], a.m.dims[k]);
  if (type != a.m.type) violation("meta:type", "%s: type %d want %d", ctx, type, a.m.type);
  if (a.name != GA_Inquire_name(a.h)) violation("meta:name", "%s: name '%s' want '%s'", ctx, GA_Inquire_name(a.h), a.name.c_str());
  if (a.prop != 2) { int g = GA_Get_pgroup(a.h); if (g != G(a).h) violation("meta:group", "%s: group %d want %d", ctx, g, G(a).h); }
  bool ghost = false;
  for (long w : a.L.width) if (w) ghost = true;
  if ((GA_Has_ghosts(a.h) != 0) != ghost) violation("meta:ghosts", "%s: has_ghosts %d want %d", ctx, GA_Has_ghosts(a.h), ghost);
  count("meta_checked");
}
static void check_content(LA &a, const char *ctx) {
  if (!in(a) || !a.live || !a.alloc || !a.valid) return;
  check_all(a.h, a.m, "contents", fmt("%s: array %s", ctx, a.name.c_str()).c_str());
  if (a.prop == 0 && a.L.width.empty()) check_local(a.h, a.m, "contents:direct");
  count("content_checked");
}
// handles -------------------------------------------------------------------
static void got_handle(int h, const char *ctx) {
  if (cur.count(h)) violation("handle:live_twice", "%s: returned handle %d which is live", ctx, h);
  cur.insert(h);
  ever.insert(h);
  maxlive = std::max(maxlive, (long)cur.size());
  if ((long)ever.size() > maxlive + 24) violation("handle:not_recycled", "%s: %zu different handles handed out for at most %ld live ones", ctx, ever.size(), maxlive);
  count("handles");
}
static void gone_handle(int h, const char *ctx, bool valid_must_fail = true) {
  cur.erase(h);
  if (valid_must_fail && GA_Valid_handle(h)) violation("handle:valid_after_destroy", "%s: handle %d still valid", ctx, h);
}
// memory a new array adds to this process, from the partition itself
static long expect_bytes(const LA &a) {
  int nd = a.m.nd();
  if (GA_Total_blocks(a.h) >= 0) return -1;
  int lo[8], hi[8];
  long n = 1;
  int rk = a.prop == 2 ? GA_Nodeid() : G(a).rank;
  NGA_Distribution(a.h, rk, lo, hi);
  for (int k = 0; k < nd; k++) {
    long e = hi[k] - lo[k] + 1;
    if (e <= 0 || lo[k] < 0) return 0;
    n *= e + (a.L.width.empty() ? 0 : 2 * a.L.width[k]);
  }
  return n * a.m.es;
}
static void account(LA &a, long before, const char *ctx) {
  if (!in(a)) return;
  long d = (long)GA_Inquire_memory() - before;
  if (a.parent >= 0) { if (d) violation("memory:overlay", "%s: an overlay array changed the memory in use by %ld", ctx, d); a.bytes = 0; return; }
  long e = expect_bytes(a);
  if (e >= 0 && e != d) violation("memory:size", "%s: memory in use grew by %ld, the local block needs %ld bytes (%s)", ctx, d, e, a.L.str().c_str());
  a.bytes = d;
  charged += d;
}
static void account_sum(LA &a, const char *ctx) { // every byte of the array is on exactly one process
  if (!in(a) || a.parent >= 0 || !a.L.width.empty()) return;
  if (a.L.kind == RESTR || a.L.kind == RESTRRANGE) ;
  long s = a.bytes;
  GA_Pgroup_lgop(G(a).h, &s, 1, (char *)"+");
  if (s != a.m.n * a.m.es) violation("memory:sum", "%s: %ld bytes over the group for an array of %ld", ctx, s, a.m.n * a.m.es);
}
static void fill(LA &a, Rng &r) {
  for (long i = 0; i < a.m.n; i++) a.m.set(i, rnd_val(a.m.type, r));
  a.valid = true;
  if (!in(a)) return;
  if (G(a).rank == 0) {
    Patch p = whole(a.m.dims);
    Buf b(a.m.type, p, VL(a.m.dims.size(), 0));
    memcpy(b.ptr(), a.m.d.data(), a.m.n * a.m.es);
    opmark("fill %s", a.name.c_str());
    put(a.h, p, b, false);
  }
  gsync(G(a));
}
static int rgrp(Rng &r) { return r.one_in(2) ? 0 : (int)r.in(0, (long)gr.size() - 1); }
static LA rspec(Rng &r) {
  LA a;
  a.grp = rgrp(r);
  int nd = rnd_nd(r);
  VL dims = rnd_dims(r, nd, r.one_in(8) ? 3000 : 500);
  a.m = MArr(r.pick(ALLTYPES), dims);
  a.L = a.grp == 0 ? rnd_layout(r, dims, gr[0].size())
                   : rnd_layout(r, dims, gr[a.grp].size(), LayoutOpt{REG, CHUNK, IRREG, BCYC, SCALA, TILED, TILEDIRR});
  bool ghost = false;
  for (long w : a.L.width) if (w) ghost = true;
  if (!ghost) a.L.width.clear();
  if (!ghost && (a.L.kind == GHOST)) a.L.kind = REG;
  if (!ghost && a.L.kind == GHOSTIRR) a.L.kind = IRREG;
  a.name = rname(r);
  return a;
}
// one of the ways to create the described array; returns 0 when refused
static int create(const LA &a, Rng &r) {
  int nd = a.m.nd();
  Dims D(a.m.dims);
  auto nm = a.name;
  int ph = gr[a.grp].h;
  auto iv = [](const VL &v) { std::vector<int> x; for (long q : v) x.push_back((int)q); return x; };
  auto i64 = [](const VL &v) { return std::vector<int64_t>(v.begin(), v.end()); };
  auto chunk = iv(a.L.chunk), width = iv(a.L.width), map = iv(a.L.map), nblk = iv(a.L.nblk);
  auto chunk64 = i64(a.L.chunk), width64 = i64(a.L.width), map64 = i64(a.L.map), nblk64 = i64(a.L.nblk);
  int *ck = a.L.kind == CHUNK ? chunk.data() : nullptr;
  int64_t *ck64 = a.L.kind == CHUNK ? chunk64.data() : nullptr;
  int how = (int)r.in(0, 5);
  char *n = &nm[0];
  if (how == 0 && (a.L.kind == REG || a.L.kind == CHUNK) && a.grp == 0) return r.one_in(2) ? NGA_Create(a.m.type, nd, D.i, n, ck) : NGA_Create64(a.m.type, nd, D.l, n, ck64);
  if (how <= 1 && (a.L.kind == REG || a.L.kind == CHUNK)) return r.one_in(2) ? NGA_Create_config(a.m.type, nd, D.i, n, ck, ph) : NGA_Create_config64(a.m.type, nd, D.l, n, ck64, ph);
  if (how == 0 && a.L.kind == IRREG && a.grp == 0) return r.one_in(2) ? NGA_Create_irreg(a.m.type, nd, D.i, n, nblk.data(), map.data()) : NGA_Create_irreg64(a.m.type, nd, D.l, n, nblk64.data(), map64.data());
  if (how <= 1 && a.L.kind == IRREG) return r.one_in(2) ? NGA_Create_irreg_config(a.m.type, nd, D.i, n, nblk.data(), map.data(), ph) : NGA_Create_irreg_config64(a.m.type, nd, D.l, n, nblk64.data(), map64.data(), ph);
  if (how == 0 && a.L.kind == GHOST) return r.one_in(2) ? NGA_Create_ghosts(a.m.type, nd, D.i, width.data(), n, nullptr) : NGA_Create_ghosts64(a.m.type, nd, D.l, width64.data(), n, nullptr);
  if (how == 1 && a.L.kind == GHOST) return NGA_Create_ghosts_config(a.m.type, nd, D.i, width.data(), n, nullptr, ph);
  if (how <= 1 && a.L.kind == GHOSTIRR) return how ? NGA_Create_ghosts_irreg_config(a.m.type, nd, D.i, width.data(), n, nblk.data(), map.data(), ph) : NGA_Create_ghosts_irreg(a.m.type, nd, D.i, width.data(), n, nblk.data(), map.data());
  // handle based
  int h = NGA_Create_handle();
  NGA_Set_data(h, nd, D.i, a.m.type);
  GA_Set_array_name(h, n);
  if (a.grp != 0) GA_Set_pgroup(h, ph);
  auto blk = iv(a.L.blk), grid = iv(a.L.grid);
  switch (a.L.kind) {
  case CHUNK: GA_Set_chunk(h, chunk.data()); break;
  case IRREG: GA_Set_irreg_distr(h, map.data(), nblk.data()); break;
  case BCYC: GA_Set_block_cyclic(h, blk.data()); break;
  case SCALA: GA_Set_block_cyclic_proc_grid(h, blk.data(), grid.data()); break;
  case TILED: GA_Set_tiled_proc_grid(h, blk.data(), grid.data()); break;
  case TILEDIRR: GA_Set_tiled_irreg_proc_grid(h, map.data(), nblk.data(), grid.data()); break;
  case GHOST: GA_Set_ghosts(h, width.data()); break;
  case GHOSTIRR: GA_Set_ghosts(h, width.data()); GA_Set_irreg_distr(h, map.data(), nblk.data()); break;
  case RESTR: { auto l = a.L.rlist; GA_Set_restricted(h, l.data(), (int)l.size()); break; }
  case RESTRRANGE: GA_Set_restricted_range(h, a.L.rlo, a.L.rhi); break;
  default: break;
  }
  return GA_Allocate(h) ? h : 0;
}
static std::vector<int> pick_idx(std::function<bool(LA &)> f) {
  std::vector<int> v;
  for (int i = 0; i < (int)as.size(); i++) if (as[i].live && f(as[i])) v.push_back(i);
  return v;
}
static bool has_overlay(int i) {
  for (auto &a : as) if (a.live && a.parent == i) return true;
  return false;
}
static void destroy(int i, const char *ctx) {
  LA &a = as[i];
  a.live = false;
  if (!in(a)) return;
  opmark("%s destroy %s", ctx, a.name.c_str());
  GA_Destroy(a.h);
  if (a.alloc && a.parent < 0) charged -= a.bytes;
  gone_handle(a.h, "destroy");
  count("destroys");
}
static bool ovl_ok(const Layout &L) { return L.kind != RESTR && L.kind != RESTRRANGE && L.kind != GHOST && L.kind != GHOSTIRR; }

static void step(Rng &r) {
  int op = (int)r.in(0, 99);
  long live = (long)pick_idx([](LA &) { return true; }).size();
  if (live >= 14 && op < 40) op = 45;
  if (op < 22) { // create
    LA a = rspec(r);
    uint64_t s = r.next();
    if (in(a)) {
      Rng q(s);
      long before = (long)GA_Inquire_memory();
      opmark("create %s %s %s %s", a.name.c_str(), tname(a.m.type), dimstr(a.m.dims).c_str(), a.L.str().c_str());
      a.h = create(a, q);
      if (!a.h) violation("create:refused", "creating %s failed", a.L.str().c_str());
      got_handle(a.h, "create");
      account(a, before, "create");
      account_sum(a, "create");
    }
    fill(a, r);
    as.push_back(a);
    count("creates");
  } else if (op < 34) { // duplicate
    auto v = pick_idx([](LA &a) { return a.alloc; });
    if (v.empty()) return;
    int i = r.pick(v);
    LA a = as[i];
    a.name = rname(r);
    a.parent = -1; a.same = false;
    if (in(a)) {
      long before = (long)GA_Inquire_memory();
      opmark("duplicate %s as %s", as[i].name.c_str(), a.name.c_str());
      a.h = GA_Duplicate(as[i].h, &a.name[0]);
      if (!a.h) violation("duplicate:refused", "duplicate failed");
      got_handle(a.h, "duplicate");
      if (as[i].assembled) { a.bytes = (long)GA_Inquire_memory() - before; charged += a.bytes; if (a.bytes != as[i].bytes) violation("memory:size", "the copy of an assembled array holds %ld bytes, the original %ld", a.bytes, as[i].bytes); a.assembled = true; }
      else {
        account(a, before, "duplicate");
        account_sum(a, "duplicate");
      }
      if (GA_Compare_distr(a.h, as[i].h)) violation("duplicate:distr", "the copy of %s is distributed differently", a.L.str().c_str());
    }
    fill(a, r);
    as.push_back(a);
    count(as[i].parent >= 0 ? "duplicates_of_overlays" : as[i].prop ? "duplicates_with_property" : "duplicates");
  } else if (op < 40) { // overlay
    auto v = pick_idx([](LA &a) { return a.alloc && a.plain() && !a.prop && ovl_ok(a.L); });
    if (v.empty()) return;
    int i = r.pick(v);
    LA a = as[i];
    a.parent = i;
    a.name = rname(r);
    a.assembled = false;
    int how = (int)r.in(0, 3);
    a.same = how == 0 && (a.L.kind == REG || a.L.kind == CHUNK);
    bool ok = true;
    if (!a.same) {
      VL dims = rnd_dims(r, rnd_nd(r), how == 1 ? 3000 : std::max(1L, a.m.n / 8));
      a.m = MArr(r.pick(ALLTYPES), dims);
      a.L = rnd_layout(r, dims, G(a).size(), LayoutOpt{REG, CHUNK, BCYC, SCALA, TILED});
      a.valid = false;
    }
    if (in(a)) {
      long before = (long)GA_Inquire_memory();
      opmark("overlay %s on %s: %s %s %s", a.name.c_str(), as[i].name.c_str(), tname(a.m.type), dimstr(a.m.dims).c_str(), a.L.str().c_str());
      int h = NGA_Create_handle();
      Dims D(a.m.dims);
      NGA_Set_data(h, a.m.nd(), D.i, a.m.type);
      GA_Set_array_name(h, &a.name[0]);
      if (a.grp) GA_Set_pgroup(h, G(a).h);
      auto iv = [](const VL &v) { std::vector<int> x; for (long q : v) x.push_back((int)q); return x; };
      auto chunk = iv(a.L.chunk), blk = iv(a.L.blk), grid = iv(a.L.grid);
      if (a.L.kind == CHUNK) GA_Set_chunk(h, chunk.data());
      if (a.L.kind == BCYC) GA_Set_block_cyclic(h, blk.data());
      if (a.L.kind == SCALA) GA_Set_block_cyclic_proc_grid(h, blk.data(), grid.data());
      if (a.L.kind == TILED) GA_Set_tiled_proc_grid(h, blk.data(), grid.data());
      int rc = GA_Overlay(h, as[i].h);
      long all = rc; 
      GA_Pgroup_lgop(G(a).h, &all, 1, (char *)"+");
      if (all != 0 && all != (long)G(a).size()) violation("overlay:disagree", "overlay succeeded on %ld of %d processes", all, G(a).size());
      if (!rc && a.same) violation("overlay:refused", "an overlay of the parent's own shape was refused");
      ok = rc != 0;
      if (ok) {
        a.h = h;
        got_handle(h, "overlay");
        account(a, before, "overlay");
      } else {
        if ((long)GA_Inquire_memory() != before) violation("memory:failed_overlay", "a refused overlay changed the memory in use from %ld to %ld", before, (long)GA_Inquire_memory());
        count("overlays_refused");
      }
    }
    // the outcome is only known to members: agree through the world
    int okk = in(a) ? (int)ok : 0;
    GA_Igop(&okk, 1, (char *)"max");
    if (!okk) return;
    as.push_back(a);
    int me_ = (int)as.size() - 1;
    count("overlays");
    if (r.one_in(2)) { // write through the overlay: the parent changes with it
      fill(as[me_], r);
      for (int k = 0; k < me_; k++)
        if (as[k].live && (k == i || as[k].parent == i)) {
          if (a.same && (k == i || as[k].same)) { as[k].m.d = as[me_].m.d; as[k].valid = true; }
          else as[k].valid = false;
        }
      count("overlay_writes");
    }
  } else if (op < 58) { // destroy
    std::vector<int> v;
    for (int i = 0; i < (int)as.size(); i++) if (as[i].live && !has_overlay(i)) v.push_back(i);
    if (v.empty()) return;
    destroy(r.pick(v), "op");
  } else if (op < 64) { // deallocate, and allocate again later
    auto v = pick_idx([](LA &a) { return a.plain() && a.prop != 2; });
    if (v.empty()) return;
    int i = r.pick(v);
    LA &a = as[i];
    if (has_overlay(i)) return;
    if (a.alloc) {
      a.alloc = false; a.valid = false;
      if (in(a)) {
        opmark("deallocate %s", a.name.c_str());
        if (!GA_Deallocate(a.h)) violation("deallocate", "refused");
        charged -= a.bytes;
        a.bytes = 0;
      }
      count("deallocates");
    } else {
      a.alloc = true;
      if (in(a)) {
        long before = (long)GA_Inquire_memory();
        opmark("allocate again %s %s", a.name.c_str(), a.L.str().c_str());
        if (!GA_Allocate(a.h)) violation("allocate:again", "allocating again was refused");
        account(a, before, "allocate again");
        account_sum(a, "allocate again");
      }
      fill(a, r);
      count("reallocates");
    }
  } else if (op < 68) { // a handle that never gets memory
    LA a = rspec(r);
    bool set = r.one_in(2);
    if (!set) a.grp = 0;
    if (!in(a)) return;
    opmark("handle without allocation");
    int h = NGA_Create_handle();
    got_handle(h, "create_handle");
    if (set) {
      Dims D(a.m.dims);
      NGA_Set_data(h, a.m.nd(), D.i, a.m.type);
      if (a.grp) GA_Set_pgroup(h, G(a).h);
      if (a.L.kind == IRREG) {
        std::vector<int> map(a.L.map.begin(), a.L.map.end()), nblk(a.L.nblk.begin(), a.L.nblk.end());
        GA_Set_irreg_distr(h, map.data(), nblk.data());
      }
    }
    GA_Destroy(h);
    gone_handle(h, "destroy of an unallocated handle");
    count("unallocated");
  } else if (op < 74) { // memory limit
    int k = (int)r.in(0, 3);
    if (k == 0) { limited = false; opmark("no limit"); GA_Set_memory_limit((size_t)-1); }
    else {
      limited = true;
      limit_ = (1L << 28) + r.in(0, 1000000);
      opmark("limit %ld", limit_);
      GA_Set_memory_limit((size_t)limit_);
    }
    count("limits");
  } else if (op < 80) { // a request beyond the limit
    bool waslim = limited;
    long oldlim = limit_;
    LA a = rspec(r);
    auto v = pick_idx([](LA &a) { return a.alloc && a.parent < 0 && a.prop != 2; });
    bool dup = r.one_in(2) && !v.empty();
    int i = dup ? r.pick(v) : -1;
    if (dup) { a.grp = as[i].grp; a.m = as[i].m; a.L = as[i].L; }
    long room = r.in(0, 7);
    limited = true;
    limit_ = charged + room; // less than one element's worth on some process
    if (a.m.es < 8) { limit_ = charged + r.in(0, 3); }
    uint64_t s = r.next();
    GA_Set_memory_limit((size_t)limit_);
    GA_Sync();
    check_memory("tight limit");
    if (in(a)) {
      Rng q(s);
      opmark("%s beyond the limit", dup ? "duplicate" : "create");
      int h = dup ? GA_Duplicate(as[i].h, &a.name[0]) : create(a, q);
      if (h) violation("limit:exceeded", "%s of %ld bytes succeeded with %ld bytes available", dup ? "duplicate" : "create", a.m.n * a.m.es, (long)GA_Memory_avail());
    }
    check_memory("after a refused request");
    GA_Sync();
    limited = waslim; limit_ = oldlim;
    GA_Set_memory_limit(waslim ? (size_t)oldlim : (size_t)-1);
    count("refused");
  } else if (op < 86) { // properties
    auto v = pick_idx([](LA &a) { return a.alloc && a.plain(); });
    if (v.empty()) return;
    int i = r.pick(v);
    LA &a = as[i];
    if (has_overlay(i)) return;
    if (a.prop) {
      if (in(a)) {
        opmark("unset property %d %s", a.prop, a.name.c_str());
        long before = (long)GA_Inquire_memory();
        GA_Unset_property(a.h);
        if (a.prop == 2) { charged += (long)GA_Inquire_memory() - before; a.bytes += (long)GA_Inquire_memory() - before; }
      }
      a.prop = 0;
      count("property_unset");
    } else {
      a.prop = (a.grp == 0 && (a.L.kind == REG || a.L.kind == CHUNK || a.L.kind == IRREG) && r.one_in(2) && mode != "leak") ? 2 : 1; // Open MPI leaks with every group made
      if (in(a)) {
        opmark("set property %d %s", a.prop, a.name.c_str());
        long before = (long)GA_Inquire_memory();
        GA_Set_property(a.h, (char *)(a.prop == 2 ? "read_only" : "read_cache"));
        if (a.prop == 2) { charged += (long)GA_Inquire_memory() - before; a.bytes += (long)GA_Inquire_memory() - before; }
      }
      if (a.prop == 2 && in(a)) { long s = a.bytes; GA_Lgop(&s, 1, (char *)"+"); if (s != a.m.n * a.m.es) violation("memory:readonly", "read-only copy holds %ld bytes of %ld", s, a.m.n * a.m.es); }
      count(a.prop == 2 ? "property_read_only" : "property_read_cache");
    }
  } else if (op < 90) { // user memory and arrays assembled from it
    int k = (int)r.in(0, 2);
    if (k == 0 || mems.empty()) {
      auto v = pick_idx([](LA &a) { return a.alloc && a.plain() && !a.prop && a.grp == 0; });
      long before = limited ? (long)GA_Memory_avail() : 0;
      int type = r.pick(ALLTYPES);
      long n = r.in(1, 300);
      Mem m;
      bool assemble = !v.empty() && r.one_in(2);
      int i = assemble ? r.pick(v) : -1;
      if (assemble) { type = as[i].m.type; n = 0; for (int p = 0; p < np; p++) n = std::max(n, as[i].bytes / as[i].m.es); long nn = n; GA_Lgop(&nn, 1, (char *)"max"); n = std::max(1L, nn); }
      opmark("getmem %ld %s", n, tname(type));
      m.p = GA_Getmem(type, (int)n, GA_Pgroup_get_world());
      m.type = type; m.n = n;
      if (!m.p) violation("getmem", "no memory");
      m.charge = limited ? before - (long)GA_Memory_avail() : -1;
      if (limited && m.charge < n * tsize(type)) violation("getmem:charge", "%ld bytes charged for %ld", m.charge, n * tsize(type));
      memset(m.p, 0x5a + me, n * tsize(type));
      count("getmems");
      if (assemble) {
        LA a = as[i];
        a.assembled = true;
        a.name = rname(r);
        a.h = GA_Assemble_duplicate(as[i].h, &a.name[0], m.p);
        got_handle(a.h, "assemble");
        long total = 0;
        for (auto &q : as) if (q.live && q.alloc && in(q) && q.parent < 0) total += q.bytes;
        a.bytes = (long)GA_Inquire_memory() - total;
        if (a.bytes < n * tsize(type)) violation("memory:assembled", "assembled array counts %ld bytes of %ld", a.bytes, n * tsize(type));
        charged += a.bytes;
        fill(a, r);
        as.push_back(a);
        count("assembled");
      } else {
        if (m.charge < 0) { // learn the charge from a limited trial
          m.charge = 0;
          limited = true; limit_ = 1L << 29;
          // the amount is only visible with a limit: free and get it again
          GA_Freemem(m.p);
          GA_Set_memory_limit((size_t)limit_);
          before = (long)GA_Memory_avail();
          m.p = GA_Getmem(type, (int)n, GA_Pgroup_get_world());
          m.charge = before - (long)GA_Memory_avail();
          memset(m.p, 0x5a + me, n * tsize(type));
        }
        charged += m.charge;
        mems.push_back(m);
      }
    } else {
      int i = (int)r.in(0, (long)mems.size() - 1);
      Mem m = mems[i];
      mems.erase(mems.begin() + i);
      for (long b = 0; b < m.n * tsize(m.type); b++) if (((char *)m.p)[b] != (char)(0x5a + me)) violation("getmem:contents", "user memory changed at byte %ld", b);
      opmark("freemem");
      GA_Freemem(m.p);
      charged -= m.charge;
      count("freemems");
    }
  } else if (op < 96) { // write a patch
    auto v = pick_idx([](LA &a) { return a.alloc && a.valid && !a.prop && a.parent < 0; });
    if (v.empty()) return;
    int i = r.pick(v);
    LA &a = as[i];
    if (has_overlay(i)) return;
    Patch p = rnd_patch(r, a.m.dims);
    int who = (int)r.in(0, G(a).size() - 1);
    bool w64 = r.one_in(2);
    Buf b(a.m.type, p, VL(a.m.dims.size(), 0));
    each(p, [&](const VL &ix, long) { Val x = rnd_val(a.m.type, r); store(a.m.type, b.at(ix), x); a.m.set(a.m.lin(ix), x); });
    if (in(a)) {
      opmark("put %s %s", a.name.c_str(), p.str().c_str());
      if (G(a).rank == who) put(a.h, p, b, w64);
      gsync(G(a));
    }
    count("puts");
  } else { // switch the default group to one I belong to; arrays keep their own
    int k = rgrp(r);
    if (gr[k].in) { GA_Pgroup_set_default(gr[k].h); GA_Pgroup_sync(gr[k].h); GA_Pgroup_set_default(GA_Pgroup_get_world()); }
    count("default_switches");
  }
}
static void drop_groups();
static void run_history(long i, Rng &r, bool chk) {
  as.clear(); mems.clear();
  limited = false; charged = 0;
  long mem0 = (long)GA_Inquire_memory();
  if (mem0 || !cur.empty()) violation("memory:start", "%ld bytes in use and %zu handles live at the start", mem0, cur.size());
  Rng rg(r.next());
  if (gr.empty()) {
    gr.push_back(world_group());
    long ng = np > 1 ? rg.in(0, 2) : 0;
    for (long k = 0; k < ng; k++) gr.push_back(rnd_group(rg));
  }
  long steps = r.one_in(5) ? r.in(30, 60) : r.in(8, 30);
  for (long s = 0; s < steps; s++) {
    Rng q(r.next());
    step(q);
    if (!chk) continue;
    std::string ctx = fmt("step %ld", s);
    check_memory(ctx.c_str());
    for (auto &a : as) check_meta(a, ctx.c_str());
    bool all = q.one_in(4) || s + 1 == steps;
    for (auto &a : as) if (all || q.one_in(6)) check_content(a, ctx.c_str());
    { int one = 1; opmark("step end"); GA_Igop(&one, 1, (char *)"+"); }
    GA_Sync();
    count("steps");
  }
  // everything goes: overlays first, the rest in random order
  std::vector<int> order;
  for (int k = 0; k < (int)as.size(); k++) if (as[k].live && as[k].parent >= 0) order.push_back(k);
  r.shuffle(order);
  std::vector<int> rest;
  for (int k = 0; k < (int)as.size(); k++) if (as[k].live && as[k].parent < 0) rest.push_back(k);
  r.shuffle(rest);
  order.insert(order.end(), rest.begin(), rest.end());
  for (int k : order) {
    destroy(k, "end");
    if (chk) check_memory("end");
    if (chk && r.one_in(3)) for (auto &a : as) check_content(a, "end");
  }
  for (auto &m : mems) { GA_Freemem(m.p); charged -= m.charge; }
  if (charged) harness_error("charged %ld at the end", charged);
  check_memory("all destroyed");
  GA_Set_memory_limit((size_t)-1);
  limited = false;
  if (chk) drop_groups();
  GA_Sync();
}
static void drop_groups() {
  for (size_t k = 1; k < gr.size(); k++) GA_Pgroup_destroy(gr[k].h); // non-members have a handle too
  gr.clear();
}
static void run_case(long i) {
  uint64_t s = sub_seed(i, 13);
  if (mode == "leak") { // the same history over and over must not take more and more memory
    begin_case(i, fmt("leak history np=%d s=%lx", np, (unsigned long)s));
    const int N = 8;
    long u[N];
    for (int k = 0; k < N; k++) {
      Rng r(s);
      run_history(i, r, false);
      struct mallinfo2 mi = mallinfo2();
      u[k] = (long)mi.uordblks + (long)mi.hblkhd;
    }
    long mn = u[3] - u[2];
    for (int k = 4; k < N; k++) mn = std::min(mn, u[k] - u[k - 1]);
    if (mn > 0) violation("leak", "each repetition of the history leaves at least %ld more bytes of heap in use (%ld %ld %ld %ld %ld %ld %ld %ld)", mn, u[0], u[1], u[2], u[3], u[4], u[5], u[6], u[7]);
    drop_groups();
    GA_Sync();
    count("leak_histories");
    return;
  }
  Rng r(s);
  begin_case(i, fmt("history np=%d s=%lx", np, (unsigned long)s));
  run_history(i, r, true);
  count("histories");
}
int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  for (long i = case_lo; i < case_hi; i++) {
    if (mode == "cycle") {
      Rng r(sub_seed(i, 14));
      run_case(i);
      // sometimes leave arrays behind: terminate releases them
      int h = 0;
      if (r.one_in(2)) { int d[2] = {(int)r.in(1, 50), (int)r.in(1, 50)}; h = NGA_Create(C_DBL, 2, d, (char *)"left", nullptr); }
      (void)h;
      GA_Sync();
      opmark("terminate");
      GA_Terminate();
      if (GA_Initialized()) violation("cycle:initialized", "GA_Initialized after GA_Terminate");
      bool lim = r.one_in(3);
      opmark("initialize");
      if (lim) { GA_Initialize_ltd(1L << 27); } else GA_Initialize();
      if (!GA_Initialized()) violation("cycle:initialized", "GA_Initialized false");
      if ((GA_Memory_limited() != 0) != lim) violation("cycle:limit", "limited %d after initialising %s", GA_Memory_limited(), lim ? "with a limit" : "without");
      if (lim && GA_Memory_avail() != (1UL << 27)) violation("cycle:avail", "%ld available", (long)GA_Memory_avail());
      if (GA_Inquire_memory()) violation("cycle:memory", "%ld bytes in use after initialising again", (long)GA_Inquire_memory());
      if (lim) GA_Set_memory_limit((size_t)-1);
      ever.clear(); cur.clear(); maxlive = 0;
      count("cycles");
    } else run_case(i);
  }
  ga_stop();
  return 0;
}
