// C16: the MA allocator. Every case forks a child which initialises MA with random nominal sizes and
// runs a random history of heap and stack operations against a model of the live blocks.
#include "mon.h"
#include <sys/wait.h>
#include "macdecls.h"
using namespace mon;
typedef Integer I;

struct Ty { int id; int size; };
static const Ty TY[] = {{MT_C_CHAR, 1}, {MT_C_INT, 4}, {MT_C_LONGINT, 8}, {MT_C_FLOAT, 4}, {MT_C_DBL, 8}, {MT_C_LDBL, (int)sizeof(MA_LongDouble)}, {MT_C_SCPL, 8},
                        {MT_C_DCPL, 16}, {MT_C_LDCPL, 32}, {MT_F_BYTE, 1}, {MT_F_INT, 8}, {MT_F_LOG, 8}, {MT_F_REAL, 4}, {MT_F_DBL, 8}, {MT_F_SCPL, 8},
                        {MT_F_DCPL, 16}, {MT_C_LONGLONG, 8}};
static const int NT = sizeof TY / sizeof *TY;

struct Blk { I h; bool heap; int t; long n; unsigned char *p; uint64_t pat; };
static std::vector<Blk> live;
static std::vector<size_t> stk; // indices are not stable: stack order kept as handles
static std::vector<I> stackh;   // bottom to top
static std::set<I> dead;
static long heap_nom, stack_nom; // bytes asked for
static I overhead;
static long nalign = 0, maxalign = 0;

static unsigned char patb(uint64_t pat, long i) { return (unsigned char)((pat >> (8 * (i & 7))) + (i >> 3) * 37); }
static void fill(Blk &b) { for (long i = 0; i < b.n * TY[b.t].size; i++) b.p[i] = patb(b.pat, i); }
static void verify_blk(const Blk &b, const char *when) {
  for (long i = 0; i < b.n * TY[b.t].size; i++)
    if (b.p[i] != patb(b.pat, i))
      violation(fmt("content:%s", when), "%s block handle %ld type %d nelem %ld: byte %ld is %d, want %d", b.heap ? "heap" : "stack", (long)b.h, TY[b.t].id, b.n, i, b.p[i], patb(b.pat, i));
}
static size_t find(I h) { for (size_t i = 0; i < live.size(); i++) if (live[i].h == h) return i; harness_error("no block"); }
static long sumbytes(bool heap) { long s = 0; for (auto &b : live) if (b.heap == heap) s += b.n * TY[b.t].size; return s; }
static long nblk(bool heap) { long s = 0; for (auto &b : live) s += b.heap == heap; return s; }

typedef I (*Inq)(I);
static const Inq INQ[] = {MA_inquire_avail, MA_inquire_heap, MA_inquire_heap_check_stack, MA_inquire_heap_no_partition, MA_inquire_stack, MA_inquire_stack_check_heap, MA_inquire_stack_no_partition};
static const char *INQN[] = {"avail", "heap", "heap_check_stack", "heap_no_partition", "stack", "stack_check_heap", "stack_no_partition"};
struct Snap { I v[7][3]; };
static const int SNT[3] = {0, 4, 7};
static Snap snap() { Snap s; for (int q = 0; q < 7; q++) for (int k = 0; k < 3; k++) s.v[q][k] = INQ[q](TY[SNT[k]].id); return s; }
static void same(const Snap &a, const Snap &b, const char *what) {
  for (int q = 0; q < 7; q++) for (int k = 0; k < 3; k++) if (a.v[q][k] != b.v[q][k])
    violation(fmt("restore:%s", what), "MA_inquire_%s(%d) was %ld, now %ld", INQN[q], TY[SNT[k]].id, (long)a.v[q][k], (long)b.v[q][k]);
}

static void enter(Rng &r, I h, bool heap, int t, long n, const char *how, MA_AccessIndex *idx) {
  for (auto &b : live) if (b.h == h) violation(fmt("handle:%s", how), "handle %ld returned while it is in use", (long)h);
  Blk b; b.h = h; b.heap = heap; b.t = t; b.n = n; b.pat = r.next();
  void *p = nullptr;
  if (!MA_get_pointer(h, &p)) violation(fmt("pointer:%s", how), "MA_get_pointer fails on a new block");
  MA_AccessIndex ix = -12345;
  if (!MA_get_index(h, &ix)) violation(fmt("index:%s", how), "MA_get_index fails on a new block");
  if (idx && *idx != ix) violation(fmt("index:%s", how), "index %ld from allocation, %ld from MA_get_index", (long)*idx, (long)ix);
  char *base = MA_get_mbase(TY[t].id);
  if ((uintptr_t)base + (uintptr_t)ix * TY[t].size != (uintptr_t)p) violation(fmt("index:%s", how), "type %d base %p index %ld gives %p, pointer is %p", TY[t].id, (void *)base, (long)ix, (void *)((uintptr_t)base + (uintptr_t)ix * TY[t].size), p);
  if (nalign > 0) {
    // attainable: shifting by elements can reach the boundary
    uintptr_t mask = (1ul << nalign) - 1, d = (uintptr_t)base & mask;
    long g = std::min<long>(TY[t].size, (long)mask + 1);
    if (d % g == 0 && ((uintptr_t)p & mask)) violation(fmt("align:%s", how), "type %d pointer %p is not on the requested 2^%ld boundary", TY[t].id, p, nalign);
    count("aligned");
  }
  b.p = (unsigned char *)p;
  long len = n * TY[t].size;
  for (auto &o : live) {
    long ol = o.n * TY[o.t].size;
    if (b.p < o.p + ol + 4 && o.p < b.p + len + 4) violation(fmt("overlap:%s", how), "block %ld [%p,+%ld) overlaps block %ld [%p,+%ld)", (long)h, p, len, (long)o.h, (void *)o.p, ol);
    if (heap != o.heap && (heap ? b.p > o.p : o.p > b.p)) violation(fmt("order:%s", how), "a heap block lies above a stack block");
  }
  live.push_back(b);
  fill(live.back());
  if (!heap) stackh.push_back(h);
  dead.erase(h);
}
static void drop(I h) {
  size_t i = find(h);
  dead.insert(h);
  live.erase(live.begin() + i);
}

static bool do_alloc(Rng &r, bool heap, int t, I n, int how, const char *tag) {
  I h = -77; MA_AccessIndex ix = -5; bool ok;
  std::string nm = fmt("%s%0*ld", tag, r.one_in(8) ? 60 : 3, (long)r.in(0, 999));
  if (heap) ok = how ? MA_alloc_get(TY[t].id, n, nm.c_str(), &h, &ix) : MA_allocate_heap(TY[t].id, n, nm.c_str(), &h);
  else ok = how ? MA_push_get(TY[t].id, n, nm.c_str(), &h, &ix) : MA_push_stack(TY[t].id, n, nm.c_str(), &h);
  if (!ok) { count(heap ? "heap_full" : "stack_full"); return false; }
  if (n < 0) violation("invalid:nelem", "allocation of %ld elements succeeds", (long)n);
  if ((double)n * TY[t].size > (double)heap_nom + stack_nom + 8 * overhead + 64) violation("huge", "allocation of %ld elements of %d bytes succeeds in an arena of %ld bytes", (long)n, TY[t].size, heap_nom + stack_nom);
  enter(r, h, heap, t, n, heap ? "heap" : "stack", how ? &ix : nullptr);
  count(heap ? "heap_allocs" : "stack_allocs");
  if (n == 0) count("empty_blocks");
  return true;
}
static void do_release(I h, const char *what, bool ok) {
  if (!ok) violation(fmt("release:%s", what), "%s fails on a valid block, handle %ld", what, (long)h);
}

// bounds on the answers that follow from the blocks alone
static void check_bounds(int t) {
  int sz = TY[t].size; I id = TY[t].id;
  long H = sumbytes(true), S = sumbytes(false), nh = nblk(true), ns = nblk(false);
  long pad = (maxalign ? (1l << maxalign) : 0), over = overhead + pad;
  long total = heap_nom + stack_nom + 2 * overhead + 32, part_stack = stack_nom + overhead + 16, part_heap = heap_nom + overhead + 16;
  I v[7]; for (int q = 0; q < 7; q++) v[q] = INQ[q](id);
  std::string d; for (int q = 0; q < 7; q++) d += fmt("%s=%ld ", INQN[q], (long)v[q]);
  d += fmt("(type %ld size %d; heap %ld bytes in %ld blocks, stack %ld in %ld; nominal heap %ld stack %ld)", (long)id, sz, H, nh, S, ns, heap_nom, stack_nom);
  auto upper = [&](int q, long room) {
    if (v[q] < 0) violation(fmt("inquire:%s", INQN[q]), "negative answer: %s", d.c_str());
    if ((double)v[q] * sz > (double)std::max(0l, room)) violation(fmt("inquire:%s", INQN[q]), "more than the %ld bytes that can be free: %s", room, d.c_str());
  };
  upper(0, total - H - S); upper(3, total - H - S); upper(6, total - H - S); upper(2, std::min(total - H - S, part_heap)); upper(1, part_heap);
  upper(4, part_stack - S); upper(5, std::min(part_stack - S, total - H - S));
  if (S > part_stack) count("stack_overgrown");
  // the stack is contiguous: everything not taken by its blocks is available up to the partition
  auto lower = [&](int q, long room) {
    if (room > 0 && v[q] * sz < room - over - sz) violation(fmt("inquire:%s", INQN[q]), "less than the %ld bytes certainly free: %s", room - over - sz, d.c_str());
  };
  lower(4, stack_nom - S - ns * over);
  // without fragmentation the heap is one piece, too
  if (nh == 0) {
    lower(1, heap_nom);
    lower(2, std::min(heap_nom, heap_nom + stack_nom - S - ns * over));
    lower(3, heap_nom + stack_nom - S - ns * over);
    lower(0, heap_nom + stack_nom - S - ns * over);
    lower(6, heap_nom + stack_nom - S - ns * over);
    lower(5, std::min(stack_nom, heap_nom + stack_nom) - S - ns * over);
  }
  // the answers are ordered: partitions only restrict
  if (v[2] > v[3] || v[2] > v[1] || v[5] > v[6] || v[5] > v[4] || v[0] > v[3]) violation("inquire:order", "%s", d.c_str());
  count("bounds");
}

// the promised number of elements can be allocated, one more cannot
static void check_promise(Rng &r, int t, int which) {
  I id = TY[t].id, n = INQ[which](id);
  Snap before = snap();
  size_t nl = live.size();
  opmark("promise %s type %ld n %ld", INQN[which], (long)id, (long)n);
  // an answer of zero promises nothing, not even room for an empty block
  auto tryit = [&](bool heap, I k, bool want, const char *what) {
    I h = -1;
    bool ok = heap ? MA_allocate_heap(id, k, "try", &h) : MA_push_stack(id, k, "try", &h);
    if (ok != want) violation(fmt("promise:%s", INQN[which]), "%s: MA_inquire_%s(%ld) = %ld, allocating %ld %s", what, INQN[which], (long)id, (long)n, (long)k, ok ? "succeeds" : "fails");
    if (ok) {
      enter(r, h, heap, t, k, "try", nullptr);
      for (auto &b : live) verify_blk(b, "try");
      if (heap) do_release(h, "MA_free_heap", MA_free_heap(h)); else { do_release(h, "MA_pop_stack", MA_pop_stack(h)); stackh.pop_back(); }
      drop(h);
    }
  };
  switch (which) {
  case 2: if (n > 0) tryit(true, n, true, "heap"); break;
  case 5: if (n > 0) tryit(false, n, true, "stack"); break;
  case 6: if (n > 0) tryit(false, n, true, "stack"); tryit(false, n + 1, false, "stack"); break;
  case 3: if (n > 0) tryit(true, n, true, "heap"); tryit(true, n + 1, false, "heap"); break;
  case 0:
    if (n > 0) {
      I h = -1; bool ok = MA_push_stack(id, n, "try", &h);
      if (ok) { MA_pop_stack(h); } else { ok = MA_allocate_heap(id, n, "try", &h); if (ok) MA_free_heap(h); }
      if (!ok) violation("promise:avail", "MA_inquire_avail(%ld) = %ld, but neither heap nor stack has room", (long)id, (long)n);
      dead.insert(h);
    }
    break;
  default: break;
  }
  if (live.size() != nl) harness_error("promise");
  same(before, snap(), "allocate_release");
  count("promises");
}

static void check_guard(Rng &r) {
  if (live.empty()) return;
  Blk &b = live[r.next() % live.size()];
  bool tail = r.one_in(2);
  unsigned char *q = tail ? b.p + b.n * TY[b.t].size + (r.one_in(2) ? 0 : r.in(0, 3)) : b.p - r.in(1, 4);
  opmark("guard %s of handle %ld", tail ? "tail" : "head", (long)b.h);
  unsigned char old = *q;
  *q = old ^ (unsigned char)r.in(1, 255);
  void *p = nullptr; MA_AccessIndex ix;
  const char *what = tail ? "tail" : "head";
  if (r.one_in(2) && MA_verify_allocator_stuff()) violation(fmt("guard:%s", what), "MA_verify_allocator_stuff does not notice an overwritten byte %ld past/before the block", (long)(q - b.p));
  switch (r.in(0, 3)) {
  case 0: if (MA_get_pointer(b.h, &p)) violation(fmt("guard:%s", what), "MA_get_pointer accepts a block with a damaged guard"); break;
  case 1: if (MA_get_index(b.h, &ix)) violation(fmt("guard:%s", what), "MA_get_index accepts a block with a damaged guard"); break;
  case 2: if (b.heap ? MA_free_heap(b.h) : MA_chop_stack(b.h)) violation(fmt("guard:%s", what), "releasing a block with a damaged guard succeeds"); break;
  default: if (b.heap ? MA_free_heap_piece(b.h, 1) : MA_pop_stack(b.h)) violation(fmt("guard:%s", what), "releasing a block with a damaged guard succeeds"); break;
  }
  *q = old;
  if (!MA_get_pointer(b.h, &p) || p != b.p) violation(fmt("guard:%s", what), "block not usable after its guard was restored");
  count("guards");
}

static void misuse(Rng &r) {
  Snap s = snap();
  void *p; MA_AccessIndex ix;
  int k = r.in(0, 6);
  opmark("misuse %d", k);
  auto no = [&](bool ok, const char *what) { if (ok) violation(fmt("misuse:%s", what), "%s succeeds", what); };
  if (k <= 1) {
    I h;
    if (k == 0 || dead.empty()) h = r.one_in(3) ? -1 - (I)r.in(0, 5) : 1000000 + r.in(0, 5); else { auto it = dead.begin(); std::advance(it, r.next() % dead.size()); h = *it; }
    no(MA_get_pointer(h, &p), "MA_get_pointer(bad)"); no(MA_get_index(h, &ix), "MA_get_index(bad)"); no(MA_free_heap(h), "MA_free_heap(bad)");
    no(MA_pop_stack(h), "MA_pop_stack(bad)"); no(MA_chop_stack(h), "MA_chop_stack(bad)"); no(MA_free_heap_piece(h, r.in(0, 3)), "MA_free_heap_piece(bad)");
  } else if (k == 2) {
    for (auto &b : live) if (b.heap) { no(MA_pop_stack(b.h), "MA_pop_stack(heap)"); no(MA_chop_stack(b.h), "MA_chop_stack(heap)"); no(MA_free_heap_piece(b.h, -1), "MA_free_heap_piece(-1)"); break; }
  } else if (k == 3) {
    if (!stackh.empty()) { I h = r.pick(stackh); no(MA_free_heap(h), "MA_free_heap(stack)"); no(MA_free_heap_piece(h, 1), "MA_free_heap_piece(stack)"); }
  } else if (k == 4) {
    if (stackh.size() > 1) { I h = stackh[r.next() % (stackh.size() - 1)]; no(MA_pop_stack(h), "MA_pop_stack(not top)"); }
  } else if (k == 5) {
    I h; no(MA_allocate_heap(TY[r.in(0, NT - 1)].id, -r.in(1, 5), "neg", &h), "MA_allocate_heap(-1)"); no(MA_push_stack(TY[r.in(0, NT - 1)].id, -r.in(1, 5), "neg", &h), "MA_push_stack(-1)");
    no(MA_allocate_heap(r.one_in(2) ? 999 : 1017, 1, "type", &h), "MA_allocate_heap(type)"); no(MA_push_stack(r.one_in(2) ? 999 : 1017, 1, "type", &h), "MA_push_stack(type)");
    no(MA_set_numalign(r.one_in(2) ? -1 : 31), "MA_set_numalign(range)");
    no(MA_init(MT_DBL, 10, 10), "MA_init(again)");
  } else {
    static const unsigned long big[] = {1ul << 61, 1ul << 60, 1ul << 59, (1ul << 61) + 3, (1ul << 62) + 1, 0x1fffffffffffffffUL, 0x7fffffffffffffffUL, 1ul << 33, (1ul << 32) + 1, 0x0fffffffffffff00UL};
    int t = r.in(0, NT - 1); I n = (I)big[r.in(0, 9)], h;
    no(MA_allocate_heap(TY[t].id, n, "huge", &h), "MA_allocate_heap(huge)"); no(MA_push_stack(TY[t].id, n, "huge", &h), "MA_push_stack(huge)");
    count("huge");
  }
  same(s, snap(), "misuse");
  count("misuses");
}

static void history(long i, uint64_t seed0) {
  Rng r(seed0);
  MA_set_error_print(MA_FALSE);
  if (MA_initialized()) violation("initialized", "MA_initialized before MA_init");
  for (int k = 0; k < 20; k++) {
    int a = r.in(0, NT - 1), b = r.in(0, NT - 1); long n = r.in(0, 1000);
    long want = (n * TY[a].size + TY[b].size - 1) / TY[b].size, got = MA_sizeof(TY[a].id, n, TY[b].id);
    if (want != got) violation("sizeof", "MA_sizeof(%d,%ld,%d) = %ld, want %ld", TY[a].id, n, TY[b].id, got, want);
  }
  overhead = MA_sizeof_overhead(MT_C_CHAR);
  { I h; if (MA_allocate_heap(MT_C_INT, 1, "early", &h) || MA_push_stack(MT_C_INT, 1, "early", &h)) violation("initialized", "allocation before MA_init succeeds"); }
  int t0 = r.in(0, NT - 1);
  static const long SZ[] = {0, 1, 7, 100, 500, 2000, 10000, 60000};
  long ns = SZ[r.in(0, 7)] + r.in(0, 50), nh = SZ[r.in(0, 7)] + r.in(0, 50);
  if (r.one_in(12)) ns = -1; 
  if (r.one_in(12)) nh = -1;
  if (r.one_in(4) && ns >= 0 && nh >= 0) { // a sixth of the arena may be used by either side
    if (MA_init(999, ns, nh)) violation("init", "MA_init accepts an invalid type");
  }
  if (!MA_init(TY[t0].id, ns, nh)) violation("init", "MA_init(%d,%ld,%ld) fails", TY[t0].id, ns, nh);
  if (!MA_initialized()) violation("initialized", "MA_initialized is false after MA_init");
  heap_nom = nh < 0 ? 524288 : nh * TY[t0].size; stack_nom = ns < 0 ? 524288 : ns * TY[t0].size;
  if (nh < 0) heap_nom -= overhead; 
  if (ns < 0) stack_nom -= overhead;
  Snap s0 = snap();
  check_bounds(t0);
  if (ns > 0 && MA_inquire_stack(TY[t0].id) < ns) violation("nominal", "MA_init promised %ld stack elements, MA_inquire_stack says %ld", ns, (long)MA_inquire_stack(TY[t0].id));
  if (nh > 0 && MA_inquire_heap(TY[t0].id) < nh) violation("nominal", "MA_init promised %ld heap elements, MA_inquire_heap says %ld", nh, (long)MA_inquire_heap(TY[t0].id));
  if (nh > 0 && ns > 0) { // both at once
    if (!do_alloc(r, true, t0, nh, 0, "nomh") || !do_alloc(r, false, t0, ns, 0, "noms")) violation("nominal", "the nominal heap and stack blocks (%ld and %ld elements) do not both fit", nh, ns);
    for (auto &b : live) verify_blk(b, "nominal");
    I hh = live[0].h, sh = live[1].h;
    do_release(hh, "MA_free_heap", MA_free_heap(hh)); drop(hh);
    do_release(sh, "MA_pop_stack", MA_pop_stack(sh)); drop(sh); stackh.clear();
    same(s0, snap(), "nominal");
  }
  bool use_align = r.one_in(3), only_heap = r.one_in(5), only_stack = !only_heap && r.one_in(6), tiny = r.one_in(6), auto_verify = r.one_in(4);
  if (auto_verify) MA_set_auto_verify(MA_TRUE);
  int nops = tiny ? 900 : r.in(50, 400);
  long scale = std::max(8l, (heap_nom + stack_nom) / r.in(2, 60));
  if (tiny) scale = 8;
  for (int op = 0; op < nops; op++) {
    int k = r.in(0, 99);
    int t = r.one_in(3) ? t0 : r.in(0, NT - 1);
    if (k < 42) {
      bool heap = only_heap ? true : only_stack ? false : r.one_in(2);
      long n = r.one_in(12) ? 0 : r.one_in(4) ? r.in(1, 6) : r.in(1, scale) / TY[t].size;
      if (r.one_in(25)) n = INQ[r.in(0, 6)](TY[t].id);
      opmark("op %d %s type %d n %ld", op, heap ? "allocate_heap" : "push_stack", TY[t].id, n);
      Snap s; bool chk = r.one_in(10); if (chk) s = snap();
      if (!do_alloc(r, heap, t, n, r.in(0, 1), "b") && chk) same(s, snap(), "failed_allocation");
    } else if (k < 58) {
      std::vector<I> hs; for (auto &b : live) if (b.heap) hs.push_back(b.h);
      if (!hs.empty()) {
        I h = r.pick(hs); opmark("op %d free_heap %ld", op, (long)h);
        verify_blk(live[find(h)], "before_free");
        do_release(h, "MA_free_heap", MA_free_heap(h)); drop(h); count("frees");
      }
    } else if (k < 66) {
      if (!stackh.empty()) {
        I h = stackh.back(); opmark("op %d pop_stack %ld", op, (long)h);
        verify_blk(live[find(h)], "before_pop");
        do_release(h, "MA_pop_stack", MA_pop_stack(h)); drop(h); stackh.pop_back(); count("pops");
      }
    } else if (k < 68) {
      if (!stackh.empty()) {
        size_t at = r.next() % stackh.size(); I h = stackh[at]; opmark("op %d chop_stack %ld (%zu of %zu)", op, (long)h, at, stackh.size());
        do_release(h, "MA_chop_stack", MA_chop_stack(h));
        while (stackh.size() > at) { drop(stackh.back()); stackh.pop_back(); }
        count("chops");
      }
    } else if (k < 74) {
      std::vector<I> hs; for (auto &b : live) if (b.heap) hs.push_back(b.h);
      if (!hs.empty()) {
        I h = r.pick(hs); Blk &b = live[find(h)]; long cut = r.one_in(8) ? b.n + r.in(0, 2) : r.in(0, b.n);
        opmark("op %d free_heap_piece %ld: %ld of %ld elements of type %d", op, (long)h, cut, b.n, TY[b.t].id);
        do_release(h, "MA_free_heap_piece", MA_free_heap_piece(h, cut));
        if (cut >= b.n) drop(h);
        else {
          b.n -= cut; void *p = nullptr;
          if (!MA_get_pointer(h, &p) || p != b.p) violation("release:piece", "the block moved or became unusable");
          verify_blk(b, "piece"); count("pieces");
        }
      }
    } else if (k < 78 && use_align) {
      nalign = r.one_in(4) ? 0 : r.in(1, heap_nom + stack_nom > 20000 ? 8 : 5);
      opmark("op %d set_numalign %ld", op, nalign);
      if (!MA_set_numalign(nalign)) violation("numalign", "MA_set_numalign(%ld) fails", nalign);
      I v; if (!MA_get_numalign(&v) || v != nalign) violation("numalign", "MA_get_numalign gives %ld, set %ld", (long)v, nalign);
      maxalign = std::max(maxalign, nalign);
    } else if (k < 84) {
      if (!live.empty()) {
        Blk &b = r.pick(live).p ? live[r.next() % live.size()] : live[0]; opmark("op %d get %ld", op, (long)b.h);
        void *p = nullptr; if (!MA_get_pointer(b.h, &p) || p != b.p) violation("pointer:moved", "block %ld is at %p, was at %p", (long)b.h, p, (void *)b.p);
        verify_blk(b, "get"); b.pat = r.next(); fill(b);
      }
    } else if (k < 88) { opmark("op %d bounds", op); check_bounds(t); }
    else if (k < 93) { static const int W[] = {0, 2, 3, 5, 6}; check_promise(r, t, W[r.in(0, 4)]); }
    else if (k < 96) { if (!auto_verify) check_guard(r); }
    else if (k < 98) misuse(r);
    else {
      opmark("op %d verify", op);
      for (auto &b : live) verify_blk(b, "all");
      if (!MA_verify_allocator_stuff()) violation("verify", "MA_verify_allocator_stuff reports damage that did not happen");
      count("verifies");
    }
    counters["max_live"] = std::max(counters["max_live"], (long)live.size());
  }
  for (auto &b : live) verify_blk(b, "end");
  opmark("release all");
  while (!stackh.empty()) { I h = stackh.back(); do_release(h, "MA_pop_stack", MA_pop_stack(h)); drop(h); stackh.pop_back(); }
  r.shuffle(live);
  while (!live.empty()) { I h = live.back().h; do_release(h, "MA_free_heap", MA_free_heap(h)); drop(h); }
  MA_set_numalign(0);
  same(s0, snap(), "everything");
  count("histories");
}

static void run_case(long i) {
  begin_case(i, fmt("rank %d history %016lx", me, (unsigned long)sub_seed(i, 1000 + me)));
  int fd[2];
  if (pipe(fd)) harness_error("pipe");
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) harness_error("fork");
  if (pid == 0) {
    child = true; counters.clear();
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
    alarm(120);
    history(i, sub_seed(i, 1000 + me));
    FILE *o = fdopen(fd[1], "w");
    for (auto &c : counters) fprintf(o, "%s %ld\n", c.first.c_str(), c.second);
    fclose(o);
    _exit(0);
  }
  close(fd[1]);
  FILE *in = fdopen(fd[0], "r"); char nm[100]; long v;
  while (fscanf(in, "%99s %ld", nm, &v) == 2) { if (!strcmp(nm, "max_live")) counters[nm] = std::max(counters[nm], v); else count(nm, v); }
  fclose(in);
  int st = 0; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { MPI_Abort(MPI_COMM_WORLD, 77); _exit(77); }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { MPI_Abort(MPI_COMM_WORLD, 78); _exit(78); }
  if (WIFEXITED(st)) { MPI_Abort(MPI_COMM_WORLD, WEXITSTATUS(st)); _exit(WEXITSTATUS(st)); } // sanitizer report
  std::string mark = progress_page ? strrchr(progress_page, '|') ? strrchr(progress_page, '|') + 1 : "" : "";
  violation(fmt("abort:sig%d", WTERMSIG(st)), "child killed by signal %d during %s", WTERMSIG(st), mark.c_str());
}

int main(int argc, char **argv) {
  MPI_Init(&argc, &argv);
  int rank, size; MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size);
  init(argc, argv, rank, size);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  finish();
  MPI_Finalize();
  return 0;
}
