// C17: disk resident arrays against a model of the array on the disk.
#include "gamon.h"
#include <memory>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "dra.h"
int NDRA_Create_config(int, int, dra_size_t[], char *, char *, int, dra_size_t[], int, int, int *);
Integer dra_create_(Integer *, Integer *, Integer *, char *, char *, Integer *, Integer *, Integer *, Integer *, size_t, size_t);
Integer ndra_create_(Integer *, Integer *, Integer *, char *, char *, Integer *, Integer *, Integer *, size_t, size_t);
Integer dra_open_(char *, Integer *, Integer *, size_t);
Integer dra_inquire_(Integer *, Integer *, Integer *, Integer *, char *, char *, size_t, size_t);
Integer dra_write_(Integer *, Integer *, Integer *);
Integer dra_read_(Integer *, Integer *, Integer *);
Integer dra_write_section_(Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *);
Integer dra_read_section_(Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *);
Integer dra_wait_(Integer *);
Integer dra_probe_(Integer *, Integer *);
Integer dra_close_(Integer *);
Integer dra_delete_(Integer *);
}
using namespace gm;

struct Disk { MArr m; std::string name, file; int h = 0, mode = 0; bool open = false; bool dead = false; int nf = 0; };
struct Mem { MArr m; int h; };
struct Req { int id; size_t g, d; bool read; Patch gp; bool flicked = false; };

static bool exists(const std::string &f) { struct stat s; return stat(f.c_str(), &s) == 0; }
static int fds() {
  int n = 0;
  if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
  return n;
}
static long ftype(int t) { return t == C_INT ? C_INT : t == C_LONG ? MT_F_INT : t == C_FLOAT ? MT_F_REAL : t == C_DBL ? MT_F_DBL : t == C_SCPL ? MT_F_SCPL : MT_F_DCPL; }

static VL rnd_ddims(Rng &r, int nd) {
  if (r.one_in(25)) { // more than one I/O buffer
    long n = r.in(150000, 450000);
    VL d(nd, 1);
    for (int k = 0; k < nd; k++) d[k] = k + 1 < nd ? r.in(1, std::max(1L, (long)std::pow((double)n, 1.0 / (nd - k)) * 2)) : n, n = std::max(1L, n / d[k]);
    if (nd > 1) r.shuffle(d);
    return d;
  }
  return rnd_dims(r, nd, 3000);
}
static Val pat(int t, uint64_t s, long k) {
  uint64_t x = (s + (uint64_t)k) * 0x9e3779b97f4a7c15ULL; x ^= x >> 29;
  long v = (long)(x % 2000003) - 1000001;
  return ival(t, is_int(t) ? v : v % 100003, (long)(x >> 40) % 9973);
}
// this process's part of the work on a whole array: a range of its longest dimension
static Patch share(const VL &dims) {
  Patch p = whole(dims);
  size_t k = 0;
  for (size_t q = 1; q < dims.size(); q++) if (dims[q] > dims[k]) k = q;
  long lo = dims[k] * me / np, hi = dims[k] * (me + 1) / np - 1;
  if (hi < lo) { p.lo.clear(); return p; }
  p.lo[k] = lo; p.hi[k] = hi;
  return p;
}
static void refill(Mem &g, Rng &r) {
  uint64_t s = r.next();
  for (long k = 0; k < g.m.n; k++) g.m.set(k, pat(g.m.type, s, k));
  GA_Sync();
  opmark("refill");
  Patch p = share(g.m.dims);
  if (!p.lo.empty()) {
    Buf b(g.m.type, p, VL(g.m.nd(), 0));
    each(p, [&](const VL &ix, long) { store(g.m.type, b.at(ix), g.m.get(g.m.lin(ix))); });
    put(g.h, p, b, false);
  }
  GA_Sync();
}
// every process checks its own share of the whole array
static void check_mem(Mem &g, const std::string &key) {
  Patch p = share(g.m.dims);
  if (!p.lo.empty()) { check_patch(g.h, g.m, p, key, "array after disk transfer"); count("elements_compared", p.size()); }
}

static void run_case(long i) {
  Rng r(sub_seed(i)), lr(sub_seed(i, 1000 + me));
  static const std::vector<int> types = {C_INT, C_LONG, C_FLOAT, C_DBL, C_SCPL, C_DCPL};
  std::vector<Disk> ds;
  std::vector<std::unique_ptr<Mem>> gs;
  begin_case(i, fmt("np=%d s=%lx", np, (unsigned long)sub_seed(i)));
  std::string base = outdir + fmt("/d%ld_", i);
  int lives = (int)r.in(1, 2);
  int nk = 0;
  for (int life = 0; life < lives; life++) {
    int maxa = r.one_in(3) ? -1 : (int)r.in(2, 8);
    opmark("init max=%d", maxa);
    int f0 = fds();
    if (DRA_Init(maxa, r.one_in(2) ? -1. : 1e9, r.one_in(2) ? -1. : 1e10, r.one_in(2) ? -1. : 1e7)) violation("init", "DRA_Init failed");
    int limit = maxa < 0 ? 16 : maxa, nopen = 0;
    int defn = 1, defp = 1;
    std::vector<Req> pend;
    auto complete = [&](size_t k) {
      Req q = pend[k];
      pend.erase(pend.begin() + (long)k);
      for (auto &o : pend) if (o.id == q.id) o.flicked = true; // finished by a flick: its number serves another request
      int how = (int)r.in(0, 3);
      int st;
      if (how == 0) { // probed until done
        opmark("probe");
        long n = 0;
        for (;;) {
          int c = 12345;
          st = DRA_Probe(q.id, &c);
          if (st) violation("probe", "DRA_Probe returned %d", st);
          if (c == ELIO_DONE) break;
          if (c == 12345) violation("probe", "DRA_Probe set no status");
          n++;
        }
        count("probed");
        GA_Sync();
        if (r.one_in(2)) { opmark("wait after probe"); st = DRA_Wait(q.id); if (st) violation("wait", "DRA_Wait returned %d", st); }
      } else {
        if (how == 1) { int c = 12345; opmark("probe once"); if (DRA_Probe(q.id, &c)) violation("probe", "DRA_Probe failed"); count("probed"); }
        if (r.one_in(6)) { opmark("flick"); DRA_Flick(); for (auto &o : pend) o.flicked = true; }
        opmark("wait");
        if (r.one_in(3)) { Integer id = q.id; st = (int)dra_wait_(&id); } else st = DRA_Wait(q.id);
        if (st) violation("wait", "DRA_Wait returned %d", st);
        count("waits");
      }
      if (q.read) {
        bool busy = false;
        for (auto &o : pend) if (o.g == q.g && o.read) busy = true;
        if (!busy) { check_mem(*gs[q.g], "read"); GA_Sync(); }
      }
    };
    auto drain = [&]() { while (!pend.empty()) complete((size_t)r.in(0, (long)pend.size() - 1)); };
    auto inquire = [&](Disk &d, bool reopened) {
      int t = -1, nd = -1;
      dra_size_t dm[8] = {0};
      char nm[300], fn[300];
      opmark("inquire");
      if (NDRA_Inquire(d.h, &t, &nd, dm, nm, fn)) violation("inquire", "NDRA_Inquire failed");
      std::string k = reopened ? ":reopened" : "";
      if (t != d.m.type) violation("inquire:type" + k, "type %d, should be %d", t, d.m.type);
      if (nd != d.m.nd()) violation("inquire:ndim" + k, "%d dimensions, should be %d", nd, d.m.nd());
      for (int q = 0; q < nd; q++) if (dm[q] != d.m.dims[q]) violation("inquire:dims" + k, "dimension %d is %ld, should be %ld", q, (long)dm[q], d.m.dims[q]);
      if (d.name != nm) violation("inquire:name" + k, "name \"%s\", should be \"%s\"", nm, d.name.c_str());
      if (d.file != fn) violation("inquire:filename" + k, "file name \"%s\", should be \"%s\"", fn, d.file.c_str());
      count("inquiries");
      if (d.m.nd() == 2 && r.one_in(2)) { // Fortran
        Integer h = d.h, ft = -1, a = -1, b = -1;
        memset(nm, '#', sizeof nm); memset(fn, '#', sizeof fn);
        opmark("dra_inquire");
        if (dra_inquire_(&h, &ft, &a, &b, nm, fn, 80, 260)) violation("finquire", "dra_inquire failed");
        if (a != d.m.dims[1] || b != d.m.dims[0]) violation("finquire:dims", "%ld %ld", (long)a, (long)b);
        std::string n1(nm, 80), n2(fn, 260);
        auto trim = [](std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; };
        if (trim(n1) != d.name) violation("finquire:name" + k, "name \"%s\"", trim(n1).c_str());
        if (trim(n2) != d.file) violation("finquire:filename" + k, "file name \"%s\"", trim(n2).c_str());
        if (nm[80] != '#' || fn[260] != '#') violation("finquire:frame", "written past the string");
      }
    };
    auto new_mem = [&](int type, const VL &dims) -> size_t {
      LayoutOpt lo;
      Layout L = rnd_layout(r, dims, np, lo);
      auto g = std::make_unique<Mem>();
      g->m = MArr(type, dims);
      opmark("create array");
      g->h = make_array(L, type, dims, world_group(), "dra");
      refill(*g, r);
      gs.push_back(std::move(g));
      return gs.size() - 1;
    };
    long nops = r.in(4, 24);
    for (long op = 0; op < nops; op++) {
      std::vector<size_t> op_, cl_;
      for (size_t k = 0; k < ds.size(); k++) if (!ds[k].dead) (ds[k].open ? op_ : cl_).push_back(k);
      int w = (int)r.in(0, 19);
      if ((op_.empty() && cl_.empty()) || (w < 3 && nopen < limit && ds.size() < 12)) { // create
        Disk d;
        int nd = rnd_nd(r);
        VL dims = rnd_ddims(r, nd);
        d.m = MArr(r.pick(types), dims);
        d.mode = r.one_in(5) ? DRA_W : DRA_RW;
        d.file = base + fmt("%d", nk++);
        long len = r.one_in(4) ? r.in(0, 71) : r.in(1, 12);
        for (long q = 0; q < len; q++) d.name += (char)('a' + r.in(0, 25));
        if (len > 4 && r.one_in(2)) d.name[2] = ' ';
        if (r.one_in(6)) { // room for the longest file name
          std::string pad; while (d.file.size() + pad.size() < 230) pad += 'x';
          d.file += pad;
        }
        dra_size_t dm[8], rq[8];
        for (int q = 0; q < nd; q++) { dm[q] = dims[q]; rq[q] = r.one_in(3) ? -1 : r.in(1, std::max(1L, r.one_in(2) ? dims[q] : dims[q] / 3)); if (r.one_in(12)) rq[q] = dims[q] + r.in(0, 5); }
        int how = (int)r.in(0, nd == 2 ? 4 : 3);
        int st = 0, h = 0;
        std::string desc = fmt("create %s %s req=", tname(d.m.type), dimstr(dims).c_str());
        for (int q = 0; q < nd; q++) desc += fmt("%s%ld", q ? "," : "", (long)rq[q]);
        std::vector<char> cn(d.name.begin(), d.name.end()), cf(d.file.begin(), d.file.end());
        cn.push_back(0); cf.push_back(0);
        d.nf = defn;
        if (how <= 1) {
          int nf = r.one_in(4) ? -1 : (int)r.in(1, np), np_ = r.one_in(4) ? -1 : (int)r.in(1, np);
          opmark("%s files=%d procs=%d", desc.c_str(), nf, np_);
          st = NDRA_Create_config(d.m.type, nd, dm, cn.data(), cf.data(), d.mode, rq, nf, np_, &h);
          count("configs");
        } else if (how == 2) {
          if (r.one_in(3)) { defn = (int)r.in(1, np); defp = (int)r.in(1, np); opmark("default config"); DRA_Set_default_config(defn, defp); }
          opmark("%s", desc.c_str());
          st = NDRA_Create(d.m.type, nd, dm, cn.data(), cf.data(), d.mode, rq, &h);
        } else {
          Integer t = ftype(d.m.type), n = nd, fm[8], fr[8], mode = d.mode, fh = 0;
          for (int q = 0; q < nd; q++) { fm[nd - 1 - q] = dm[q]; fr[nd - 1 - q] = rq[q]; }
          std::string fname = d.name, ffile = d.file;
          if (r.one_in(2)) { fname.append(r.in(0, 8), ' '); ffile.append(r.in(0, 8), ' '); }
          fname += "###"; ffile += "###";
          opmark("f%s", desc.c_str());
          if (how == 4) st = (int)dra_create_(&t, &fm[0], &fm[1], fname.data(), ffile.data(), &mode, &fr[0], &fr[1], &fh, fname.size() - 3, ffile.size() - 3);
          else st = (int)ndra_create_(&t, &n, fm, fname.data(), ffile.data(), &mode, fr, &fh, fname.size() - 3, ffile.size() - 3);
          h = (int)fh;
        }
        if (st) violation("create", "create returned %d", st);
        d.h = h; d.open = true; nopen++;
        for (auto &o : ds) if (o.open && o.h == h) violation("create:handle", "handle %d is in use", h);
        count("creates");
        ds.push_back(d);
        inquire(ds.back(), false);
        continue;
      }
      if (w == 3 && !cl_.empty() && nopen < limit) { // open
        Disk &d = ds[r.pick(cl_)];
        int m = (int)r.in(0, 3);
        d.mode = m == 0 ? DRA_R : m == 1 ? DRA_W : DRA_RW;
        int h = 0, st;
        opmark("open");
        if (r.one_in(3)) {
          Integer mode = d.mode, fh = 0;
          std::string f = d.file; f.append(r.in(0, 5), ' '); f += "##";
          st = (int)dra_open_(f.data(), &mode, &fh, f.size() - 2);
          h = (int)fh;
        } else { std::string f = d.file; st = DRA_Open(f.data(), d.mode, &h); }
        if (st) violation("open", "DRA_Open returned %d", st);
        d.h = h; d.open = true; nopen++;
        for (auto &o : ds) if (&o != &d && o.open && o.h == h) violation("create:handle", "handle %d is in use", h);
        inquire(d, true);
        count("opens");
        continue;
      }
      if (w == 4 && nopen < limit) { // nothing there
        int h = 0;
        opmark("open nothing");
        std::string f = base + "none";
        if (DRA_Open(f.data(), DRA_RW, &h) == 0) violation("open:nothing", "opened a disk array that does not exist");
        count("opens_of_nothing");
        continue;
      }
      if (op_.empty()) continue;
      size_t di = r.pick(op_);
      if (w <= 6) { // close or delete
        Disk &d = ds[di];
        for (size_t k = 0; k < pend.size();) if (pend[k].d == di) complete(k); else k++;
        bool del = r.one_in(3);
        opmark(del ? "delete" : "close");
        int st;
        if (r.one_in(3)) { Integer h = d.h; st = (int)(del ? dra_delete_(&h) : dra_close_(&h)); } else st = del ? DRA_Delete(d.h) : DRA_Close(d.h);
        if (st) violation(del ? "delete" : "close", "returned %d", st);
        d.open = false; nopen--;
        if (del) {
          d.dead = true;
          GA_Sync();
          bool left = exists(d.file) || exists(d.file + ".info");
          for (int q = 0; q < np; q++) left = left || exists(d.file + fmt(".%d", q));
          if (left) violation("delete:files", "files of a deleted disk array are left");
          count("deletes");
        } else count("closes");
        continue;
      }
      if (w == 7) { inquire(ds[di], false); continue; }
      if (w == 8 && !gs.empty()) { // change a global array
        size_t g = (size_t)r.in(0, (long)gs.size() - 1);
        for (size_t k = 0; k < pend.size();) if (pend[k].g == g) complete(k); else k++;
        refill(*gs[g], r);
        continue;
      }
      if (w == 9) { opmark("flick"); DRA_Flick(); for (auto &o : pend) o.flicked = true; continue; }
      // transfer
      Disk &d = ds[di];
      bool rd = d.mode == DRA_R ? true : d.mode == DRA_W ? false : r.one_in(2);
      bool section = r.one_in(3) ? false : true, trans = section && r.one_in(3);
      Patch dp = section ? rnd_patch(r, d.m.dims) : whole(d.m.dims), gp;
      int nd = d.m.nd();
      size_t gi = gs.size();
      VL need(nd), gd(nd);
      for (int q = 0; q < nd; q++) { int s = trans ? nd - 1 - q : q; need[q] = dp.hi[s] - dp.lo[s] + 1; }
      for (size_t k = 0; k < gs.size(); k++) if (gs[k]->m.type == d.m.type && gs[k]->m.nd() == nd) {
        bool ok = true;
        for (int q = 0; q < nd; q++) if (section ? gs[k]->m.dims[q] < need[q] : gs[k]->m.dims[q] != need[q]) ok = false;
        if (ok && r.one_in(2)) gi = k;
      }
      if (gi == gs.size()) {
        gd = need;
        if (section && d.m.n < 20000) for (int q = 0; q < nd; q++) if (r.one_in(2)) gd[q] += r.in(0, nd < 4 ? 6 : 1);
        if (gs.size() > 6) { drain(); GA_Sync(); for (auto &g : gs) GA_Destroy(g->h); gs.clear(); }
        gi = new_mem(d.m.type, gd);
      }
      Mem &g = *gs[gi];
      for (int q = 0; q < nd; q++) { long o = r.in(0, g.m.dims[q] - need[q]); gp.lo.push_back(o); gp.hi.push_back(o + need[q] - 1); }
      // conflicts with what is pending
      for (size_t k = 0; k < pend.size();) {
        Req &q = pend[k];
        bool c = (q.d == di && !(q.read && rd)) || (q.g == gi && (q.read || rd) && gp.overlaps(q.gp));
        if (c || pend.size() >= 5) complete(k); else k++;
      }
      int req = DRA_REQ_INVALID, st;
      int gl[8], gh[8];
      dra_size_t dl[8], dh[8];
      for (int q = 0; q < nd; q++) { gl[q] = (int)gp.lo[q]; gh[q] = (int)gp.hi[q]; dl[q] = dp.lo[q]; dh[q] = dp.hi[q]; }
      opmark("%s%s%s %s d%s g%s%s", rd ? "read" : "write", section ? "_section" : "", trans ? "_trans" : "", tname(d.m.type), dp.str().c_str(), gp.str().c_str(), pend.empty() ? "" : " pending");
      if (nd == 2 && r.one_in(3)) {
        Integer fg = g.h, fd = d.h, fq = DRA_REQ_INVALID, ft = trans;
        Integer a[4] = {gl[1] + 1, gh[1] + 1, gl[0] + 1, gh[0] + 1}, b[4] = {dl[1] + 1, dh[1] + 1, dl[0] + 1, dh[0] + 1};
        if (!section) st = (int)(rd ? dra_read_(&fg, &fd, &fq) : dra_write_(&fg, &fd, &fq));
        else st = (int)(rd ? dra_read_section_(&ft, &fg, a, a + 1, a + 2, a + 3, &fd, b, b + 1, b + 2, b + 3, &fq) : dra_write_section_(&ft, &fg, a, a + 1, a + 2, a + 3, &fd, b, b + 1, b + 2, b + 3, &fq));
        req = (int)fq;
      } else if (!section) st = rd ? NDRA_Read(g.h, d.h, &req) : NDRA_Write(g.h, d.h, &req);
      else st = rd ? NDRA_Read_section(trans, g.h, gl, gh, d.h, dl, dh, &req) : NDRA_Write_section(trans, g.h, gl, gh, d.h, dl, dh, &req);
      if (st) violation("transfer", "returned %d", st);
      for (auto &q : pend) if (q.id == req && !q.flicked) violation("request", "request %d is in use", req);
      each(dp, [&](const VL &ix, long) {
        VL gx(nd);
        for (int q = 0; q < nd; q++) { int s = trans ? nd - 1 - q : q; gx[q] = gp.lo[q] + ix[s] - dp.lo[s]; }
        if (rd) g.m.set(g.m.lin(gx), d.m.get(d.m.lin(ix))); else d.m.set(d.m.lin(ix), g.m.get(g.m.lin(gx)));
      });
      count(rd ? "reads" : "writes");
      if (trans) count("transposed");
      if (!pend.empty()) count("overlapped");
      pend.push_back({req, gi, di, rd, gp});
      if (r.one_in(2)) complete(pend.size() - 1);
    }
    drain();
    // every disk array that may be read holds what the model says
    for (auto &d : ds) {
      if (d.dead) continue;
      if (d.open && d.mode == DRA_W) { opmark("close"); if (DRA_Close(d.h)) violation("close", "failed"); d.open = false; nopen--; }
      if (!d.open) { if (nopen >= limit) continue; opmark("open"); std::string f = d.file; if (DRA_Open(f.data(), d.mode = r.one_in(2) ? DRA_R : DRA_RW, &d.h)) violation("open", "failed"); d.open = true; nopen++; inquire(d, true); }
      Mem g;
      g.m = d.m;
      opmark("create array");
      g.h = make_array(rnd_layout(r, d.m.dims, np, LayoutOpt({REG, CHUNK})), d.m.type, d.m.dims, world_group(), "final");
      int q = 0;
      opmark("read all %s %s", tname(d.m.type), dimstr(d.m.dims).c_str());
      if (NDRA_Read(g.h, d.h, &q) || DRA_Wait(q)) violation("transfer", "final read failed");
      check_mem(g, "disk");
      GA_Sync();
      GA_Destroy(g.h);
      count("disk_checked");
    }
    for (auto &d : ds) if (d.open && r.one_in(2)) { opmark("close"); if (DRA_Close(d.h)) violation("close", "failed"); d.open = false; nopen--; }
    opmark("terminate");
    if (DRA_Terminate()) violation("terminate", "DRA_Terminate failed");
    for (auto &d : ds) d.open = false;
    if (fds() > f0) violation("terminate:open-files", "%d files stay open after DRA_Terminate", fds() - f0);
    for (auto &g : gs) check_mem(*g, "memory");
    GA_Sync();
    for (auto &g : gs) GA_Destroy(g->h);
    gs.clear();
  }
  GA_Sync();
  if (me == 0) for (auto &d : ds) if (!d.dead) {
    unlink(d.file.c_str()); unlink((d.file + ".info").c_str());
    for (int q = 0; q < np; q++) unlink((d.file + fmt(".%d", q)).c_str());
  }
  GA_Sync();
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv);
  for (long i = case_lo; i < case_hi; i++) run_case(i);
  ga_stop();
  return 0;
}
