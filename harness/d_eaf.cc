// C18: exclusive-access files and shared files against a model of their bytes, with injected short and interrupted transfers.
#include "gamon.h"
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" {
#include "eaf.h"
#include "sf.h"
Integer eaf_open_(char *, Integer *, Integer *, int);
Integer eaf_write_(Integer *, double *, const void *, Integer *);
Integer eaf_awrite_(Integer *, double *, const void *, Integer *, Integer *);
Integer eaf_read_(Integer *, double *, void *, Integer *);
Integer eaf_aread_(Integer *, double *, void *, Integer *, Integer *);
Integer eaf_wait_(Integer *, Integer *);
Integer eaf_probe_(Integer *, Integer *);
Integer eaf_truncate_(Integer *, double *);
Integer eaf_close_(Integer *);
Integer eaf_length_(Integer *, double *);
Integer eaf_delete_(char *, int);
Integer eaf_stat_(char *, Integer *, char *, int, int);
Integer eaf_eof_(Integer *);
void eaf_errmsg_(Integer *, char *, int);
Integer sf_create_(char *, double *, double *, double *, Integer *, int);
Integer sf_create_suffix_(char *, double *, double *, double *, Integer *, Integer *, int);
Integer sf_destroy_(Integer *);
Integer sf_rwtor_(Integer *);
Integer sf_open_(Integer *);
Integer sf_close_(Integer *);
Integer sf_fsync_(Integer *);
Integer sf_write_(Integer *, double *, double *, char *, Integer *);
Integer sf_read_(Integer *, double *, double *, char *, Integer *);
Integer sf_wait_(Integer *);
Integer sf_waitall_(Integer *, Integer *);
void sf_errmsg_(Integer *, char *, int);
}
using namespace gm;

// ---- faults injected under the library's transfers ----
static thread_local int inj_soft = 0, inj_hard = 0; // hard: fails after that many good transfers
static thread_local Rng *inj_rng = nullptr;
static long inj_short = 0, inj_intr = 0, inj_err = 0;
static bool fault(size_t &n, int err) {
  if (inj_hard && --inj_hard == 0) { inj_hard = 1; inj_err++; errno = err; return true; }
  if (inj_hard || inj_soft) {
    long q = inj_rng->in(0, 5);
    if (q == 0 && inj_soft > 0) { inj_soft--; inj_intr++; errno = inj_rng->one_in(2) ? EINTR : EAGAIN; return true; }
    if (q <= 2 && n > 1) { inj_short++; n = (size_t)inj_rng->in(1, (long)n - 1); }
  }
  return false;
}
extern "C" ssize_t write(int fd, const void *b, size_t n) {
  if (fd > 2 && (inj_soft || inj_hard) && fault(n, ENOSPC)) return -1;
  return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t read(int fd, void *b, size_t n) {
  if (fd > 2 && (inj_soft || inj_hard) && fault(n, EIO)) return -1;
  return syscall(SYS_read, fd, b, n);
}
extern "C" ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  if (fd > 2 && (inj_soft || inj_hard) && fault(n, ENOSPC)) return -1;
  return syscall(SYS_pwrite64, fd, b, n, o);
}
extern "C" ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (fd > 2 && (inj_soft || inj_hard) && fault(n, EIO)) return -1;
  return syscall(SYS_pread64, fd, b, n, o);
}
struct Inject {
  bool hard = false; long e0;
  Inject(Rng &r, int p, bool allow_hard) {
    inj_rng = &r; e0 = inj_err;
    if (allow_hard && r.one_in(12)) { inj_hard = (int)r.in(1, 3); hard = true; }
    else if (r.one_in(p)) inj_soft = (int)r.in(1, 6);
  }
  bool failed() const { return inj_err != e0; }
  ~Inject() { inj_soft = inj_hard = 0; }
};

// ---- model of a file ----
struct Bytes {
  static const long B = 1 << 14;
  std::map<long, std::vector<uint8_t>> d, u;
  long len = 0; bool mem = false;
  void wr(long o, long n, const uint8_t *p, bool unknown = false) {
    for (long k = 0; k < n;) {
      long b = (o + k) / B, q = (o + k) % B, c = std::min(n - k, B - q);
      auto &x = d[b], &y = u[b];
      if (x.empty()) { x.assign(B, 0); y.assign(B, mem ? 1 : 0); }
      if (unknown) memset(&y[q], 1, c);
      else { memcpy(&x[q], p + k, c); memset(&y[q], 0, c); }
      k += c;
    }
    if (n > 0 && o + n > len) len = o + n;
  }
  long bad(long o, long n, const uint8_t *p, long *cmp) const {
    for (long k = 0; k < n;) {
      long b = (o + k) / B, q = (o + k) % B, c = std::min(n - k, B - q);
      auto it = d.find(b);
      if (it == d.end()) { if (!mem) for (long j = 0; j < c; j++) { (*cmp)++; if (p[k + j]) return k + j; } }
      else {
        auto &y = u.at(b);
        for (long j = 0; j < c; j++) if (!y[q + j]) { (*cmp)++; if (p[k + j] != it->second[q + j]) return k + j; }
      }
      k += c;
    }
    return -1;
  }
  uint8_t at(long o) const { auto it = d.find(o / B); return it == d.end() ? 0 : it->second[o % B]; }
  void trunc(long n) {
    for (auto it = d.begin(); it != d.end();) {
      if (it->first * B >= n) { u.erase(it->first); it = d.erase(it); }
      else {
        if ((it->first + 1) * B > n) { long q = n - it->first * B; memset(&it->second[q], 0, B - q); memset(&u[it->first][q], 0, B - q); }
        ++it;
      }
    }
    len = n;
  }
};
static int fds() {
  int n = 0;
  if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
  return n;
}
static bool exists(const std::string &f) { struct stat s; return stat(f.c_str(), &s) == 0; }
static void fillr(Rng &r, std::vector<uint8_t> &b) {
  uint64_t x = r.next();
  for (auto &c : b) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = (uint8_t)(x >> 56); }
}
static std::string fstr(const std::string &s, Rng &r) { return s + std::string((size_t)r.in(0, 5), ' '); }
static std::string dir;

// ---- exclusive access files ----
struct EFile { std::string name; Bytes b; bool there = false; bool mem = false; long cap = 0; };
struct EFd { int fd; size_t f; int type; };
struct EReq { int id, fd; bool rd; size_t f; long off; std::vector<uint8_t> buf; };

static int E_open(bool F, Rng &r, const std::string &n, int type, int *fd) {
  if (!F) return EAF_Open(n.c_str(), type, fd);
  std::string s = fstr(n, r); Integer t = type, f = -99;
  int rc = (int)eaf_open_(&s[0], &t, &f, (int)s.size()); *fd = (int)f; return rc;
}
static std::string errtext(int code, bool F) {
  char m[200]; memset(m, '#', sizeof m);
  if (!F) { EAF_Errmsg(code, m); return m; }
  Integer c = code; eaf_errmsg_(&c, m, 80);
  if (m[80] != '#') violation("eaf-errmsg-overrun", "eaf_errmsg wrote past its 80 characters for code %d", code);
  std::string s(m, 80); while (!s.empty() && s.back() == ' ') s.pop_back(); return s;
}
static bool is_eof(int code, bool F) { if (!F) return EAF_Eof(code) == 0; Integer c = code; return eaf_eof_(&c) != 0; }

static void disk_same(const EFile &f, const char *when) {
  int fd = open(f.name.c_str(), O_RDONLY);
  if (fd < 0) violation("eaf-disk", "%s: file %s cannot be opened", when, f.name.c_str());
  struct stat st; fstat(fd, &st);
  if (st.st_size != f.b.len) violation("eaf-disk-length", "%s: file %s has %ld bytes on disk, %ld expected", when, f.name.c_str(), (long)st.st_size, f.b.len);
  std::vector<uint8_t> buf(Bytes::B); long cmp = 0;
  for (auto &x : f.b.d) {
    long o = x.first * Bytes::B, n = std::min((long)Bytes::B, f.b.len - o);
    if (n <= 0) continue;
    if (syscall(SYS_pread64, fd, buf.data(), n, o) != n) harness_error("pread");
    long k = f.b.bad(o, n, buf.data(), &cmp);
    if (k >= 0) violation("eaf-disk", "%s: byte %ld of %s on disk is %d, expected %d", when, o + k, f.name.c_str(), buf[k], f.b.at(o + k));
  }
  close(fd);
  count("bytes_compared", cmp); count("disk_compared");
}

static void eaf_history(long ci) {
  Rng r(sub_seed(ci, 7000 + me)); // every process works on its own files
  std::string d = dir + fmt("/e%d", me);
  mkdir(d.c_str(), 0755);
  int fd0 = fds();
  std::vector<EFile> fs; std::vector<EFd> open_; std::vector<EReq> req;
  bool big = r.one_in(6);
  int nops = (int)r.in(20, 120), names = 0;
  auto base = [&]() -> long { return !big || r.one_in(2) ? 0 : r.pick(std::vector<long>{2147483648l - 3000, 4294967296l - 2000, 5000000000l}); };
  auto len = [&]() -> long { return r.one_in(12) ? 0 : r.one_in(15) ? r.in(1, 300000) : r.in(1, 6000); };
  auto settle = [&](EReq &q) {
    if (q.rd) {
      long cmp = 0, k = fs[q.f].b.bad(q.off, (long)q.buf.size(), q.buf.data(), &cmp);
      count("bytes_compared", cmp);
      if (k >= 0) violation("eaf-aread", "asynchronous read of %zu at %ld of %s: byte %ld is %d, expected %d", q.buf.size(), q.off, fs[q.f].name.c_str(), k, q.buf[k], fs[q.f].b.at(q.off + k));
    }
  };
  auto finish_req = [&](size_t k, bool F) {
    EReq q = std::move(req[k]); req.erase(req.begin() + k);
    opmark("eaf wait");
    int rc; if (F) { Integer a = q.fd, b = q.id; rc = (int)eaf_wait_(&a, &b); } else rc = EAF_Wait(q.fd, q.id);
    if (rc) violation("eaf-wait", "EAF_Wait returned %d", rc);
    count("eaf_waits"); settle(q);
  };
  auto drain = [&](size_t f) { for (size_t k = req.size(); k-- > 0;) if (req[k].f == f) finish_req(k, r.one_in(2)); };
  for (int s = 0; s < nops; s++) {
    bool F = r.one_in(2);
    int op = (int)r.in(0, 19);
    if (open_.empty() && op >= 2 && op < 16) op = 0;
    if (op <= 1) { // open
      if (open_.size() > 12) continue;
      size_t f;
      if (fs.empty() || r.one_in(3)) {
        EFile n; n.name = d + fmt("/f%ld_%d.dat", ci, names++); n.mem = r.one_in(5);
        if (n.mem) n.name = fmt("mem%ld_%d_%d", ci, me, names);
        else if (r.one_in(6)) { // made by somebody else
          std::vector<uint8_t> b((size_t)r.in(0, 5000)); fillr(r, b);
          int fd = open(n.name.c_str(), O_CREAT | O_WRONLY, 0644);
          if (fd < 0 || syscall(SYS_write, fd, b.data(), b.size()) != (long)b.size()) harness_error("write");
          close(fd); n.b.wr(0, (long)b.size(), b.data()); n.there = true;
        }
        fs.push_back(n); f = fs.size() - 1;
      } else f = (size_t)r.in(0, (long)fs.size() - 1);
      EFile &x = fs[f];
      int type, fd = -99;
      if (x.mem) type = x.cap ? (int)(x.cap >> 20) : (int)r.in(1, 2);
      else type = r.one_in(4) ? EAF_R : r.one_in(4) ? EAF_W : EAF_RW;
      bool known_open = false; for (auto &o : open_) if (o.f == f) known_open = true;
      if (x.mem && known_open) continue;
      drain(f);
      opmark("eaf open type %d", type);
      int rc = E_open(F, r, x.name, type, &fd);
      count("eaf_opens");
      if (type == EAF_R && !x.there) {
        if (!rc) violation("eaf-open-missing", "opening the missing file %s for reading succeeded", x.name.c_str());
        if (errtext(rc, F).empty()) violation("eaf-errmsg", "no message for code %d", rc);
        count("eaf_refused"); continue;
      }
      if (rc) {
        if (x.mem && !x.cap) { fs.erase(fs.begin() + f); for (auto &o : open_) if (o.f > f) o.f--; for (auto &q : req) if (q.f > f) q.f--; count("eaf_mem_full"); continue; }
        violation("eaf-open", "EAF_Open(%s, %d) returned %d", x.name.c_str(), type, rc);
      }
      for (auto &o : open_) if (o.fd == fd) violation("eaf-fd", "EAF_Open returned descriptor %d, which is open on %s", fd, fs[o.f].name.c_str());
      if (x.mem && !x.cap) { x.cap = (long)type << 20; x.b = Bytes(); x.b.mem = true; x.b.len = x.cap; }
      if (type == EAF_W) x.b.trunc(0);
      x.there = true;
      open_.push_back({fd, f, x.mem ? EAF_RW : type});
      if (x.mem) count("eaf_mem_opens");
    } else if (op <= 9) { // write or read
      EFd o = r.pick(open_); EFile &x = fs[o.f];
      bool rd = r.one_in(2), as = r.one_in(3);
      long n = len(), off = (x.mem ? 0 : base()) + r.in(0, x.mem ? x.cap : 9000);
      if (x.b.len > 0 && r.one_in(2)) { off = r.in(0, x.b.len); if (rd) n = std::min(n, x.b.len - off); }
      if (x.mem && r.one_in(8)) off = x.cap - r.in(0, n + 10);
      if (off < 0) off = 0;
      bool refuse = (rd && o.type == EAF_W) || (!rd && o.type == EAF_R);
      bool over = x.mem && off + n > x.cap;
      std::vector<uint8_t> b((size_t)n + 16, 0xa5), keep;
      if (n == 0) refuse = false;
      drain(o.f);
      Inject in(r, 3, !x.mem && !refuse && n > 0);
      Integer ff = o.fd, nn = n; double dd = (double)off;
      int id = -77; Integer iid = -77; int rc;
      const char *what = rd ? (as ? "aread" : "read") : (as ? "awrite" : "write");
      if (rd) {
        opmark("eaf %s %ld@%ld%s", what, n, off, x.mem ? " mem" : "");
        if (as) { rc = F ? (int)eaf_aread_(&ff, &dd, b.data(), &nn, &iid) : EAF_Aread(o.fd, dd, b.data(), (size_t)n, &id); if (F) id = (int)iid; }
        else rc = F ? (int)eaf_read_(&ff, &dd, b.data(), &nn) : EAF_Read(o.fd, dd, b.data(), (size_t)n);
      } else {
        std::vector<uint8_t> w((size_t)n); fillr(r, w); std::copy(w.begin(), w.end(), b.begin()); keep = b;
        opmark("eaf %s %ld@%ld%s", what, n, off, x.mem ? " mem" : "");
        if (as) { rc = F ? (int)eaf_awrite_(&ff, &dd, b.data(), &nn, &iid) : EAF_Awrite(o.fd, dd, b.data(), (size_t)n, &id); if (F) id = (int)iid; }
        else rc = F ? (int)eaf_write_(&ff, &dd, b.data(), &nn) : EAF_Write(o.fd, dd, b.data(), (size_t)n);
      }
      bool failed = in.failed();
      inj_soft = inj_hard = 0;
      for (int k = 0; k < 16; k++) if (b[(size_t)n + k] != 0xa5) violation("eaf-overrun", "%s of %ld bytes wrote past its buffer", what, n);
      count(rd ? "eaf_reads" : "eaf_writes");
      if (refuse || over) {
        if (!rc) violation("eaf-refuse", "%s of %ld at %ld of %s (type %d, size %ld) was not refused", what, n, off, x.name.c_str(), o.type, x.b.len);
        if (errtext(rc, F).empty()) violation("eaf-errmsg", "no message for code %d", rc);
        count("eaf_refused"); continue;
      }
      if (rd && off + n > x.b.len && n > 0 && !failed) {
        if (!rc) violation("eaf-eof", "%s of %ld at %ld of %s, which has %ld bytes, succeeded", what, n, off, x.name.c_str(), x.b.len);
        if (!is_eof(rc, F)) violation("eaf-eof-code", "%s past the end returned %d, which EAF_Eof does not take for the end of file", what, rc);
        long have = std::max(0l, std::min(n, x.b.len - off)); (void)have;
        count("eaf_eofs"); continue;
      }
      if (failed) {
        if (!rc) violation("eaf-error-lost", "%s of %ld at %ld succeeded although the system reported an error", what, n, off);
        if (is_eof(rc, F)) violation("eaf-error-eof", "%s that failed with a system error reports the end of file", what);
        if (errtext(rc, F).empty()) violation("eaf-errmsg", "no message for code %d", rc);
        count("eaf_hard_faults");
        if (!rd) { // nothing outside the range has changed; its own bytes are anything
          struct stat st; if (stat(x.name.c_str(), &st)) harness_error("stat");
          long l = std::max(x.b.len, (long)st.st_size);
          if (st.st_size < x.b.len || (st.st_size > x.b.len && st.st_size > off + n)) violation("eaf-disk-length", "a failed write of %ld at %ld left %ld bytes, there were %ld", n, off, (long)st.st_size, x.b.len);
          x.b.wr(off, n, nullptr, true); x.b.trunc(l);
        }
        continue;
      }
      if (rc) violation(fmt("eaf-%s", what), "%s of %ld at %ld of %s (%ld bytes%s) returned %d: %s", what, n, off, x.name.c_str(), x.b.len, x.mem ? ", memory" : "", rc, errtext(rc, F).c_str());
      if (!rd && memcmp(b.data(), keep.data(), b.size())) violation("eaf-source", "%s changed the data it wrote", what);
      if (is_eof(0, F)) violation("eaf-eof-ok", "EAF_Eof takes 0 for the end of file");
      if (!rd) { x.b.wr(off, n, b.data()); if (x.mem) x.b.len = x.cap; }
      if (as) {
        b.resize((size_t)n);
        req.push_back({id, o.fd, rd, o.f, off, std::move(b)});
        if (rd) { } else memset(req.back().buf.data(), 0, 0);
        count("eaf_async");
      } else if (rd) {
        long cmp = 0, k = x.b.bad(off, n, b.data(), &cmp);
        count("bytes_compared", cmp);
        if (k >= 0) violation("eaf-read", "read of %ld at %ld of %s%s: byte %ld is %d, expected %d", n, off, x.name.c_str(), x.mem ? " (memory)" : "", k, b[k], x.b.at(off + k));
      }
    } else if (op == 10) {
      if (req.empty()) continue;
      size_t k = (size_t)r.in(0, (long)req.size() - 1);
      int st = r.one_in(2) ? -1 : 12345, rc;
      opmark("eaf probe");
      if (F) { Integer a = req[k].id, b = st; rc = (int)eaf_probe_(&a, &b); st = (int)b; } else rc = EAF_Probe(req[k].id, &st);
      if (rc) violation("eaf-probe", "EAF_Probe returned %d", rc);
      if (st != 0 && st != 1) violation("eaf-probe", "EAF_Probe gave the status %d", st);
      count("eaf_probes");
      if (st == 0) { settle(req[k]); count("eaf_probed_done"); }
      for (int t = 0; t < 3000 && st == 1; t++) { usleep(1000); if (EAF_Probe(req[k].id, &st)) violation("eaf-probe", "EAF_Probe failed"); }
      if (st) violation("eaf-probe-never", "a request stayed pending for three seconds");
    } else if (op == 11) {
      if (!req.empty()) finish_req((size_t)r.in(0, (long)req.size() - 1), F);
    } else if (op == 12) { // length
      EFd o = r.pick(open_); double l = -5;
      opmark("eaf length");
      Integer a = o.fd; int rc = F ? (int)eaf_length_(&a, &l) : EAF_Length(o.fd, &l);
      if (rc || (long)l != fs[o.f].b.len) violation("eaf-length", "EAF_Length of %s returned %d and %.0f, expected %ld", fs[o.f].name.c_str(), rc, l, fs[o.f].b.len);
      count("eaf_lengths");
    } else if (op == 13) { // truncate
      EFd o = r.pick(open_); EFile &x = fs[o.f];
      drain(o.f);
      long n = r.one_in(3) ? r.in(0, 9000) : r.in(0, x.b.len); double l = (double)n;
      opmark("eaf truncate %ld", n);
      Integer a = o.fd; int rc = F ? (int)eaf_truncate_(&a, &l) : EAF_Truncate(o.fd, l);
      if (x.mem || o.type == EAF_R) { if (!rc) violation("eaf-truncate-refuse", "truncating %s %s succeeded", x.mem ? "a memory file" : "a read-only file", x.name.c_str()); count("eaf_refused"); continue; }
      if (rc) violation("eaf-truncate", "EAF_Truncate(%ld) returned %d", n, rc);
      x.b.trunc(n); count("eaf_truncates");
    } else if (op <= 15) { // close
      size_t k = (size_t)r.in(0, (long)open_.size() - 1); EFd o = open_[k];
      drain(o.f);
      opmark("eaf close");
      Integer a = o.fd; int rc = F ? (int)eaf_close_(&a) : EAF_Close(o.fd);
      if (rc) violation("eaf-close", "EAF_Close returned %d", rc);
      open_.erase(open_.begin() + k);
      if (!fs[o.f].mem) {
        double l; char c;
        if (!EAF_Length(o.fd, &l) || !EAF_Read(o.fd, 0, &c, 1) || !EAF_Close(o.fd)) violation("eaf-closed", "the closed descriptor %d is still accepted", o.fd);
        disk_same(fs[o.f], "after close");
      }
      count("eaf_closes");
    } else if (op == 16) { // delete
      if (fs.empty()) continue;
      size_t f = (size_t)r.in(0, (long)fs.size() - 1);
      bool busy = false; for (auto &o : open_) if (o.f == f) busy = true;
      if (busy) continue;
      drain(f);
      opmark("eaf delete");
      std::string s = fstr(fs[f].name, r);
      int rc = F ? (int)eaf_delete_(&s[0], (int)s.size()) : EAF_Delete(fs[f].name.c_str());
      if (rc) violation("eaf-delete", "EAF_Delete of %s returned %d", fs[f].name.c_str(), rc);
      if (!fs[f].mem && exists(fs[f].name)) violation("eaf-delete", "%s is still there after EAF_Delete", fs[f].name.c_str());
      fs[f].there = false; fs[f].cap = 0; fs[f].b = Bytes();
      count("eaf_deletes");
    } else if (op == 17) { // bad arguments
      int fd = -1, rc; char c = 0; double l = 0;
      opmark("eaf bad");
      switch (r.in(0, 4)) {
      case 0: rc = E_open(F, r, d + "/no/such/dir/f", EAF_RW, &fd); break;
      case 1: rc = E_open(F, r, d + "/zz", r.one_in(2) ? 0 : -9, &fd); if (exists(d + "/zz")) violation("eaf-bad", "a refused open made a file"); break;
      case 2: { int b = (int)r.pick(std::vector<long>{-1, 1023, 1024, 100000, -100000}); rc = r.one_in(2) ? EAF_Write(b, 0, &c, 1) : EAF_Read(b, 0, &c, 1); if (!EAF_Truncate(b, 0) || !EAF_Length(b, &l) || !EAF_Close(b)) rc = 0; break; }
      case 3: { if (open_.empty()) continue; EFd o = r.pick(open_); Integer a = o.fd, n = 1; double x = 1.5; rc = (int)(r.one_in(2) ? eaf_write_(&a, &x, &c, &n) : eaf_read_(&a, &x, &c, &n)); break; }
      default: rc = E_open(F, r, d + "/" + std::string(300, 'y'), EAF_RW, &fd); break;
      }
      if (!rc) violation("eaf-bad", "a call with bad arguments succeeded");
      if (errtext(rc, F).empty()) violation("eaf-errmsg", "no message for code %d", rc);
      count("eaf_refused");
    } else if (op == 18) { // stat and messages
      opmark("eaf stat");
      char t[64]; memset(t, '#', sizeof t); long av = -1; int rc;
      std::string p = d + "/";
      if (F) { std::string s = fstr(p, r); Integer a = -1; rc = (int)eaf_stat_(&s[0], &a, t, (int)s.size(), 12); av = (long)a; if (t[12] != '#') violation("eaf-stat", "eaf_stat overran its string"); t[3] = 0; }
      else rc = EAF_Stat(p.c_str(), &av, t, 8);
      if (rc || av < 0 || strcmp(t, "UFS")) violation("eaf-stat", "EAF_Stat returned %d, %ld, %.8s", rc, av, t);
      if (!EAF_Stat((d + "/none/x").c_str(), &av, t, 8)) violation("eaf-stat", "EAF_Stat of a missing directory succeeded");
      for (int code = -2010; code < -1960; code++) { std::string m = errtext(code, F); bool in = code >= -2000 && code < -1975; if (m.size() > 80 || m.empty() == in) violation("eaf-errmsg", "message of code %d is '%s'", code, m.substr(0, 80).c_str()); }
      if (errtext(0, F) != "OK") violation("eaf-errmsg", "message of 0 is %s", errtext(0, F).c_str());
    } else { // the whole file, through a new descriptor
      if (fs.empty()) continue;
      size_t f = (size_t)r.in(0, (long)fs.size() - 1);
      if (fs[f].mem || !fs[f].there) continue;
      drain(f); disk_same(fs[f], "while open");
    }
  }
  while (!req.empty()) finish_req(req.size() - 1, false);
  for (auto &o : open_) if (EAF_Close(o.fd)) violation("eaf-close", "closing failed");
  for (auto &f : fs) {
    if (!f.mem && f.there) disk_same(f, "at the end");
    if (f.there || r.one_in(2)) if (EAF_Delete(f.name.c_str())) violation("eaf-delete", "deleting %s failed", f.name.c_str());
    if (!f.mem && exists(f.name)) violation("eaf-delete", "%s is still there", f.name.c_str());
  }
  int fd1 = fds();
  if (fd1 != fd0) violation("eaf-fd-leak", "%d descriptors open, %d before", fd1, fd0);
  rmdir(d.c_str());
}

// ---- shared files ----
struct SFile { int h; std::string name; Bytes b; bool ro = false; bool named = false; };
static bool sF; // Fortran entry points
static int S_io(bool rd, int h, long off, long n, uint8_t *b, int *id) {
  if (!sF) return rd ? SF_Read(h, (double)off, (double)n, (char *)b, id) : SF_Write(h, (double)off, (double)n, (char *)b, id);
  Integer a = h, i = -77; double o = (double)off, m = (double)n;
  int rc = (int)(rd ? sf_read_(&a, &o, &m, (char *)b, &i) : sf_write_(&a, &o, &m, (char *)b, &i)); *id = (int)i; return rc;
}
static void S_wait(Rng &lr, std::vector<int> ids) {
  if (lr.one_in(2)) {
    lr.shuffle(ids);
    for (int id : ids) {
      int rc; if (sF) { Integer i = id; rc = (int)sf_wait_(&i); } else { int i = id; rc = SF_Wait(&i); }
      if (rc) violation("sf-wait", "SF_Wait returned %d", rc);
    }
  } else if (!ids.empty()) {
    int rc; if (sF) { std::vector<Integer> v(ids.begin(), ids.end()); Integer n = (Integer)v.size(); rc = (int)sf_waitall_(v.data(), &n); } else rc = SF_Waitall(ids.data(), (int)ids.size());
    if (rc) violation("sf-waitall", "SF_Waitall returned %d", rc);
  }
  count("sf_waits", (long)ids.size());
}
static void sf_check(SFile &f, long off, long n) {
  if (n <= 0) return;
  std::vector<uint8_t> b((size_t)n + 16, 0x5a); int id = -77;
  int rc = S_io(true, f.h, off, n, b.data(), &id);
  if (rc) violation("sf-read", "SF_Read of %ld at %ld of %s (%ld bytes) returned %d", n, off, f.name.c_str(), f.b.len, rc);
  if (sF) { Integer i = id; rc = (int)sf_wait_(&i); } else rc = SF_Wait(&id);
  if (rc) violation("sf-wait", "SF_Wait returned %d", rc);
  long cmp = 0, k = f.b.bad(off, n, b.data(), &cmp);
  count("bytes_compared", cmp); count("sf_reads");
  if (k >= 0) violation("sf-read", "read of %ld at %ld of %s: byte %ld is %d, expected %d", n, off, f.name.c_str(), off + k, b[k], f.b.at(off + k));
  for (int q = 0; q < 16; q++) if (b[(size_t)n + q] != 0x5a) violation("sf-overrun", "SF_Read wrote past its buffer");
}
static void sf_history(long ci) {
  Rng r(sub_seed(ci, 1)), lr(sub_seed(ci, 9000 + me));
  int fd0 = fds();
  std::vector<SFile> fs;
  int steps = (int)r.in(5, 25), names = 0;
  bool big = r.one_in(6);
  for (int s = 0; s < steps; s++) {
    sF = r.one_in(2);
    int op = (int)r.in(0, 12);
    if (fs.empty() && op > 1) op = 0;
    if (op <= 1) {
      if (fs.size() > 8) continue;
      SFile f; f.name = dir + fmt("/s%ld_%d", ci, names++); f.named = r.one_in(2);
      if (r.one_in(10)) f.name += std::string((size_t)r.in(1, 60), 'n');
      double hard = (double)r.in(1, 1 << 20), soft = r.one_in(2) ? -1 : 4000, rq = -1; int sfx = (int)r.in(0, 9999), rc; f.h = 12345;
      opmark("sf create");
      if (sF) {
        std::string n = f.name + std::string((size_t)r.in(0, 4), ' '); Integer h = 12345, sx = sfx;
        rc = (int)(f.named ? sf_create_suffix_(&n[0], &hard, &soft, &rq, &h, &sx, (int)n.size()) : sf_create_(&n[0], &hard, &soft, &rq, &h, (int)n.size())); f.h = (int)h;
      } else rc = f.named ? SF_Create_suffix(&f.name[0], hard, soft, rq, &f.h, sfx) : SF_Create(&f.name[0], hard, soft, rq, &f.h);
      if (rc) violation("sf-create", "SF_Create returned %d", rc);
      for (auto &x : fs) if (x.h == f.h) violation("sf-handle", "SF_Create returned the handle %d of %s", f.h, x.name.c_str());
      if (f.named) { f.name += fmt(".%d", sfx); if (!exists(f.name)) violation("sf-name", "%s is not there after SF_Create_suffix", f.name.c_str()); }
      fs.push_back(f); count("sf_creates");
      int lo = f.h, hi = f.h; GA_Igop(&lo, 1, (char *)"min"); GA_Igop(&hi, 1, (char *)"max");
      if (lo != hi) violation("sf-handle", "the handle of a shared file differs between processes (%d..%d)", lo, hi);
    } else if (op <= 8) { // an epoch of concurrent transfers
      SFile &f = fs[(size_t)r.in(0, (long)fs.size() - 1)];
      long base = big && r.one_in(2) ? r.pick(std::vector<long>{2147483648l - 4000, 4294967296l - 3000, 6000000000l}) : r.one_in(3) ? r.in(0, f.b.len) : r.in(0, 20000);
      long span = r.one_in(8) ? r.in(1, 400000) : r.in(1, 9000);
      int cuts = (int)r.in(0, 12);
      std::vector<long> c{0, span}; for (int k = 0; k < cuts; k++) c.push_back(r.in(0, span));
      std::sort(c.begin(), c.end());
      std::vector<int> ids; std::vector<std::pair<long, std::vector<uint8_t>>> mine; Bytes next = f.b; std::vector<std::array<long, 2>> quiet;
      std::vector<std::array<long, 2>> order; std::vector<std::vector<uint8_t>> dat;
      for (size_t k = 0; k + 1 < c.size(); k++) {
        int owner = (int)r.in(-1, np - 1); long o = base + c[k], n = c[k + 1] - c[k];
        std::vector<uint8_t> w((size_t)n); Rng q(r.next()); fillr(q, w);
        if (f.ro) owner = -1;
        if (owner < 0) { quiet.push_back({o, n}); continue; }
        next.wr(o, n, w.data());
        if (owner == me) { order.push_back({o, n}); mine.push_back({o, std::move(w)}); }
      }
      opmark("sf epoch %s base=%ld span=%ld ro=%d", f.name.substr(f.name.rfind('/')).c_str(), base, span, f.ro);
      lr.shuffle(mine);
      std::vector<std::vector<uint8_t>> keep; for (auto &w : mine) keep.push_back(w.second);
      for (auto &w : mine) {
        int id = -77, rc;
        { Inject in(lr, 3, false); rc = S_io(false, f.h, w.first, (long)w.second.size(), w.second.data(), &id); }
        if (rc) violation("sf-write", "SF_Write of %zu at %ld returned %d", w.second.size(), w.first, rc);
        ids.push_back(id); count("sf_writes");
        if (lr.one_in(4) && !quiet.empty()) { auto q = lr.pick(quiet); long n = std::min(q[1], f.b.len - q[0]); sf_check(f, q[0], n); count("sf_concurrent"); }
      }
      S_wait(lr, ids);
      for (size_t k = 0; k < mine.size(); k++) {
        if (keep[k] != mine[k].second) violation("sf-source", "SF_Write changed the data it wrote");
        memset(mine[k].second.data(), 0xEE, mine[k].second.size()); // the buffer is the caller's again
      }
      GA_Sync();
      f.b = next;
      for (int k = 0; k < 3; k++) {
        long o = k == 0 ? base : lr.in(0, f.b.len), n = k == 0 ? span : lr.in(0, 9000);
        n = std::min(n, f.b.len - o);
        if (n <= 0) continue;
        Inject in(lr, 3, false);
        sf_check(f, o, n);
      }
      if (lr.one_in(3)) { // past the end
        std::vector<uint8_t> b(64); int id = -77; long o = f.b.len + lr.in(-10, 100); if (o < 0) o = 0;
        int rc = S_io(true, f.h, o, 64, b.data(), &id);
        if (!rc) { int i = id; rc = SF_Wait(&i); }
        if (!rc) violation("sf-eof", "reading 64 bytes at %ld of a file of %ld succeeded", o, f.b.len);
        count("sf_eofs");
      }
      GA_Sync();
      count("sf_epochs");
    } else if (op == 9) { // close and open again, some of the processes or all
      SFile &f = fs[(size_t)r.in(0, (long)fs.size() - 1)];
      if (f.ro) continue;
      opmark("sf close/open");
      if (r.one_in(2) || lr.one_in(2)) {
        Integer h = f.h;
        int a = sF ? (int)sf_close_(&h) : SF_Close(f.h), b = sF ? (int)sf_open_(&h) : SF_Open(f.h);
        if (a || b) violation("sf-reopen", "SF_Close and SF_Open returned %d and %d", a, b);
        count("sf_reopens");
      }
    } else if (op == 10) { // from now on read only
      SFile &f = fs[(size_t)r.in(0, (long)fs.size() - 1)];
      if (f.ro) continue;
      opmark("sf rwtor");
      Integer h = f.h; int a = sF ? (int)sf_rwtor_(&h) : SF_Rwtor(f.h);
      if (a) violation("sf-rwtor", "SF_Rwtor returned %d", a);
      f.ro = true; count("sf_rwtors");
      int id = -77; uint8_t b[8] = {1, 2, 3};
      int rc = S_io(false, f.h, 0, 8, b, &id); if (!rc) { int i = id; rc = SF_Wait(&i); }
      if (!rc) violation("sf-rwtor", "writing to a shared file that was made read-only succeeded");
      GA_Sync();
    } else if (op == 11) {
      SFile &f = fs[(size_t)r.in(0, (long)fs.size() - 1)];
      char m[200]; memset(m, '#', sizeof m);
      opmark("sf misc");
      if (sF) { Integer c = 1; sf_errmsg_(&c, m, 80); if (m[80] != '#') violation("sf-errmsg", "sf_errmsg overran"); m[80] = 0; } else SF_Errmsg(1, m);
      if (m[0] == ' ' || !m[0]) violation("sf-errmsg", "no message for a failed operation");
      if (r.one_in(8) && !f.ro) { Integer h = f.h; int rc = sF ? (int)sf_fsync_(&h) : SF_Fsync(f.h); if (rc) violation("sf-fsync", "SF_Fsync returned %d", rc); count("sf_fsyncs"); }
    } else { // destroy
      size_t k = (size_t)r.in(0, (long)fs.size() - 1);
      opmark("sf destroy");
      Integer h = fs[k].h; int rc = sF ? (int)sf_destroy_(&h) : SF_Destroy(fs[k].h);
      if (rc) violation("sf-destroy", "SF_Destroy returned %d", rc);
      if (fs[k].named && exists(fs[k].name)) violation("sf-destroy", "%s is still there after SF_Destroy", fs[k].name.c_str());
      fs.erase(fs.begin() + k); count("sf_destroys");
    }
  }
  for (auto &f : fs) {
    opmark("sf destroy");
    if (SF_Destroy(f.h)) violation("sf-destroy", "SF_Destroy failed");
    count("sf_destroys");
  }
  int fd1 = fds();
  if (fd1 != fd0) violation("sf-fd-leak", "%d descriptors open, %d before", fd1, fd0);
  GA_Sync();
  if (me == 0) {
    std::string pre = fmt("s%ld_", ci);
    if (DIR *d = opendir(dir.c_str())) {
      while (dirent *e = readdir(d)) if (!strncmp(e->d_name, pre.c_str(), pre.size())) violation("sf-left", "%s is left after every shared file was destroyed", e->d_name);
      closedir(d);
    }
  }
}

int main(int argc, char **argv) {
  ga_start(&argc, &argv, false);
  if (!MA_init(C_DBL, 100000, 1200000)) harness_error("MA_init failed");
  dir = outdir + "/files";
  if (me == 0) mkdir(dir.c_str(), 0755);
  GA_Sync();
  for (long i = case_lo; i < case_hi; i++) {
    begin_case(i, fmt("np=%d s=%lx", np, (unsigned long)sub_seed(i)));
    if (i % 2) eaf_history(i); else sf_history(i);
    GA_Sync();
  }
  count("injected_short", inj_short); count("injected_interrupts", inj_intr); count("injected_errors", inj_err);
  ga_stop();
}
