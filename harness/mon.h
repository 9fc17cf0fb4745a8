// Common monitor runtime for all drivers: seeded generators shared by all ranks, violation
// reporting, progress markers, event counters and the sequential array model.
#ifndef MON_H
#define MON_H
#include <mpi.h>
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

namespace mon {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // inclusive range
  long in(long lo, long hi) { return hi <= lo ? lo : lo + (long)(next() % (uint64_t)(hi - lo + 1)); }
  bool one_in(int n) { return next() % n == 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]);
  }
};

inline int me = 0, np = 1;
inline int fid_base = 0; // offset of the file numbers when two instances of the library run side by side
inline uint64_t seed = 1;
inline long case_lo = 0, case_hi = 0; // run cases [lo,hi)
inline std::string probe, mode;
inline std::map<std::string, long> counters;
inline std::set<uint64_t> shapes; // hashes of distinct non-trivial cases
inline std::vector<std::string> samples;
inline char *progress_page = nullptr;
inline std::string outdir = ".";
inline std::string cur_case;
inline bool verbose = false;
inline bool child = false; // in a forked child: no MPI calls

inline uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

inline void count(const std::string &k, long n = 1) { counters[k] += n; }

inline std::string vfmt(const char *f, va_list ap) {
  char b[4096];
  vsnprintf(b, sizeof b, f, ap);
  return b;
}
inline std::string fmt(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string r = vfmt(f, ap);
  va_end(ap);
  return r;
}

// Progress marker: the last case and operation, readable after a crash.
inline void progress(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  if (progress_page) vsnprintf(progress_page, 4000, f, ap);
  va_end(ap);
}
inline uint64_t case_hash = 0;
inline long ops_seen = 0;
inline void opmark(const char *f, ...) {
  va_list ap;
  if (verbose && me == 0) { va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); fprintf(stderr, "OP %s\n", s.c_str()); }
  va_start(ap, f);
  if (progress_page) {
    size_t n = cur_case.size() > 3000 ? 3000 : cur_case.size();
    memcpy(progress_page, cur_case.data(), n);
    progress_page[n] = '|';
    vsnprintf(progress_page + n + 1, 900, f, ap);
    if (me == 0 && !child) { // the program of operations that was executed, not just the parameters
      uint64_t h = hash_str(progress_page + n + 1);
      case_hash = (case_hash ^ h) * 0x9E3779B97F4A7C15ull;
      case_hash ^= case_hash >> 31;
      ops_seen++;
    }
  }
  va_end(ap);
}

[[noreturn]] inline void violation(const std::string &key, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string d = vfmt(f, ap);
  va_end(ap);
  std::string p = outdir + fmt("/viol.%d", fid_base + me);
  FILE *o = fopen(p.c_str(), "a");
  if (o) {
    fprintf(o, "KEY %s\nCASE %s\nRANK %d\nDETAIL %s\n", key.c_str(), cur_case.c_str(), me, d.c_str());
    fclose(o);
  }
  fprintf(stderr, "MONVIOL key=%s rank=%d case=[%s] %s\n", key.c_str(), me, cur_case.c_str(), d.c_str());
  fflush(stderr);
  if (child) _exit(77);
  MPI_Abort(MPI_COMM_WORLD, 77);
  _exit(77);
}
[[noreturn]] inline void harness_error(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string d = vfmt(f, ap);
  va_end(ap);
  fprintf(stderr, "MONHARNESS rank=%d case=[%s] %s\n", me, cur_case.c_str(), d.c_str());
  std::string p = outdir + fmt("/harness.%d", fid_base + me);
  FILE *o = fopen(p.c_str(), "a");
  if (o) { fprintf(o, "%s | %s\n", cur_case.c_str(), d.c_str()); fclose(o); }
  if (child) _exit(78);
  MPI_Abort(MPI_COMM_WORLD, 78);
  _exit(78);
}

inline void begin_case(long i, const std::string &desc) {
  cur_case = fmt("i=%ld seed=%lu %s", i, (unsigned long)seed, desc.c_str());
  progress("%s", cur_case.c_str());
  count("cases");
  if (case_hash) shapes.insert(case_hash);
  case_hash = hash_str(desc);
  if (me == 0 && (samples.size() < 12)) samples.push_back(cur_case);
  if (verbose && me == 0) { fprintf(stderr, "CASE %s\n", cur_case.c_str()); }
}
inline uint64_t sub_seed(long i, uint64_t salt = 0) {
  uint64_t z = seed * 1000003ull + (uint64_t)i * 0x9E3779B97F4A7C15ull + salt * 0xD1B54A32D192ED03ull;
  z = (z ^ (z >> 29)) * 0xBF58476D1CE4E5B9ull;
  return z ^ (z >> 32);
}

// args: --seed N --lo A --hi B --out DIR --probe NAME --mode M -v
inline void init(int argc, char **argv, int rank, int size) {
  me = rank; np = size;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") seed = strtoull(nx(), 0, 10);
    else if (a == "--lo") case_lo = atol(nx());
    else if (a == "--hi") case_hi = atol(nx());
    else if (a == "--out") outdir = nx();
    else if (a == "--probe") probe = nx();
    else if (a == "--mode") mode = nx();
    else if (a == "-v") verbose = true;
  }
  std::string p = outdir + fmt("/prog.%d", fid_base + me);
  int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0 && ftruncate(fd, 4096) == 0) {
    void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m != MAP_FAILED) progress_page = (char *)m;
    close(fd);
  }
  progress("init");
}
// fork-free final report: one file per rank
inline void finish() {
  std::string p = outdir + fmt("/done.%d", fid_base + me);
  FILE *o = fopen(p.c_str(), "w");
  if (!o) harness_error("cannot write %s", p.c_str());
  for (auto &c : counters) fprintf(o, "C %s %ld\n", c.first.c_str(), c.second);
  if (case_hash) shapes.insert(case_hash);
  if (ops_seen) fprintf(o, "C ops_marked %ld\n", ops_seen);
  for (auto h : shapes) fprintf(o, "H %016lx\n", (unsigned long)h);
  for (auto &s : samples) fprintf(o, "S %s\n", s.c_str());
  fprintf(o, "END\n");
  fclose(o);
  progress("finished");
}

} // namespace mon
#endif
