// Shared driver for all of the monitoring harnesses.
//
// A harness registers one or more properties. Each property is a function
// that runs one case, identified by (seed, index): every random choice in the
// case is derived from those two numbers, so `--only INDEX` replays it.
//
// Oracles use GMP, and never the arithmetic of the code under observation.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

#include <gmpxx.h>

#include "walnut/big_int.h"

namespace vf {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // [0, n)
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
  // [lo, hi]
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t)below((uint64_t)(hi - lo) + 1);
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  bool coin() { return next() >> 63; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <typename T> void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }
  template <typename T> const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
};

inline uint64_t Mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xD1342543DE82EF95ull + 0x632BE59BD9B4E019ull));
  r.next();
  return r.next();
}

inline uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

// Thrown to leave a case once a violation has been recorded for it.
struct CaseAbort {};

struct State {
  std::string prop;
  uint64_t seed = 1;
  uint64_t index = 0;
  bool thorough = false;
  bool verbose = false;
  size_t evaluations = 0;
  size_t nontrivial = 0;
  size_t violations = 0;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> digests;
  std::vector<std::string> samples;
  uint64_t case_digest = 0;
  bool case_nontrivial = false;
  char* status = nullptr;  // mmaped: the index being run, for crash reports.
};

inline State& st() {
  static State s;
  return s;
}

inline void Count(const std::string& name, uint64_t n = 1) {
  st().counters[name] += n;
}

inline void CountMax(const std::string& name, uint64_t n) {
  uint64_t& v = st().counters["max_" + name];
  if (n > v) v = n;
}

// Adds `v` to the digest that identifies what this case observed.
inline void Observe(uint64_t v) {
  st().case_digest = Mix(st().case_digest, v);
}
inline void Observe(const std::string& v) { Observe(HashStr(v)); }

inline void NonTrivial() { st().case_nontrivial = true; }

inline bool WantSample() { return st().samples.size() < 3; }
inline void Sample(const std::string& s) {
  if (st().samples.size() < 3) st().samples.push_back(s.substr(0, 1500));
}

// Records a violation. `key` identifies what failed, independent of the
// particular input.
inline void Report(const std::string& key, const std::string& detail) {
  State& s = st();
  ++s.violations;
  std::string d = detail.substr(0, 6000);
  for (char& c : d) if (c == '\n' || c == '\t') c = ' ';
  printf("VIOL\t%s\t%llu\t%s\n", key.c_str(), (unsigned long long)s.index,
         d.c_str());
  fflush(stdout);
}

[[noreturn]] inline void Fail(const std::string& key, const std::string& detail) {
  Report(key, detail);
  throw CaseAbort{};
}

inline void Require(bool ok, const std::string& key,
                    const std::string& detail = "") {
  if (!ok) Fail(key, detail);
}

#define VREQ(cond, key, streamed)                                   \
  do {                                                              \
    if (!(cond)) {                                                  \
      std::ostringstream vreq_out;                                  \
      vreq_out << streamed;                                         \
      ::vf::Fail(key, vreq_out.str());                              \
    }                                                               \
  } while (0)

// ---------------------------------------------------------------------------
// BigInt <-> GMP

inline mpz_class Z(const walnut::BigInt& v) {
  const size_t n = v.used_words();
  uint64_t buf[64];
  std::vector<uint64_t> big;
  uint64_t* p = buf;
  if (n > 64) { big.resize(n); p = big.data(); }
  for (size_t i = 0; i < n; ++i) p[i] = v.word(i).low_uint64();
  mpz_class r;
  mpz_import(r.get_mpz_t(), n, -1, 8, 0, 0, p);
  if (p[n - 1] >> 63) {
    mpz_class m(1);
    m <<= 64 * n;
    r -= m;
  }
  return r;
}

inline mpz_class ZFromI64(int64_t v) {
  mpz_class r;
  uint64_t m = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
  mpz_import(r.get_mpz_t(), 1, -1, 8, 0, 0, &m);
  if (v < 0) r = -r;
  return r;
}
inline mpz_class ZFromU64(uint64_t v) {
  mpz_class r;
  mpz_import(r.get_mpz_t(), 1, -1, 8, 0, 0, &v);
  return r;
}

// The minimal two's complement words of z, least significant first.
inline std::vector<uint64_t> WordsOf(const mpz_class& z) {
  std::vector<uint64_t> out;
  mpz_class v = z;
  while (true) {
    mpz_class low;
    mpz_fdiv_r_2exp(low.get_mpz_t(), v.get_mpz_t(), 64);
    mpz_fdiv_q_2exp(v.get_mpz_t(), v.get_mpz_t(), 64);
    uint64_t w = 0;
    size_t count = 0;
    mpz_export(&w, &count, -1, 8, 0, 0, low.get_mpz_t());
    if (count == 0) w = 0;
    out.push_back(w);
    if (v == 0 && !(w >> 63)) break;
    if (v == -1 && (w >> 63)) break;
  }
  return out;
}

// Builds a BigInt. The construction goes through the code under observation
// (shift and add), so the result is read back and compared.
inline walnut::BigInt B(const mpz_class& z) {
  std::vector<uint64_t> w = WordsOf(z);
  walnut::BigInt r{(walnut::BigIntWord)(int64_t)w.back()};
  for (size_t i = w.size() - 1; i-- > 0;) {
    r = (r << 64) + walnut::BigInt(walnut::BigUInt(w[i]));
  }
  if (Z(r) != z) {
    Fail("bigint-construct", "building " + z.get_str() + " from words gave " +
         Z(r).get_str());
  }
  return r;
}

inline std::string S(const mpz_class& z) { return z.get_str(); }
inline std::string S(const mpq_class& z) { return z.get_str(); }
inline std::string S(const walnut::BigInt& z) { return Z(z).get_str(); }

inline int Sgn(const mpz_class& z) { return sgn(z); }
inline int Sgn(const mpq_class& z) { return sgn(z); }
inline int SgnI(int64_t v) { return (v > 0) - (v < 0); }

// ---------------------------------------------------------------------------
// Random integers

inline mpz_class RandBits(Rng& r, size_t bits) {
  mpz_class v = 0;
  size_t left = bits;
  while (left > 0) {
    size_t k = left > 32 ? 32 : left;
    v <<= k;
    v += (unsigned long)(r.next() >> (64 - k));
    left -= k;
  }
  return v;
}

// Runs of ones and zeros, like mpz_rrandomb.
inline mpz_class RandRuns(Rng& r, size_t bits) {
  mpz_class v = 0;
  size_t left = bits;
  bool one = true;
  while (left > 0) {
    size_t k = 1 + r.below(r.coin() ? 8 : 70);
    if (k > left) k = left;
    v <<= k;
    if (one) {
      mpz_class ones = 1;
      ones <<= k;
      ones -= 1;
      v += ones;
    }
    one = !one;
    left -= k;
  }
  return v;
}

// A signed integer of up to `max_bits` bits, biased to the boundaries where a
// word based representation changes shape.
inline mpz_class RandZ(Rng& r, size_t max_bits) {
  mpz_class v;
  switch (r.below(10)) {
    case 0:
      v = (long)r.range(-3, 3);
      return v;
    case 1:
      v = (long)r.range(-1000, 1000);
      return v;
    case 2: case 3: {
      // Near +-2^k, with k often on a word or half word edge.
      size_t k;
      if (r.chance(2, 3)) {
        k = 32 * (1 + r.below((max_bits + 31) / 32));
        k = k - 1 + r.below(2);
      } else {
        k = r.below(max_bits + 1);
      }
      v = 1;
      v <<= k;
      v += (long)r.range(-2, 2);
      break;
    }
    case 4: case 5:
      v = RandRuns(r, 1 + r.below(max_bits));
      break;
    case 6:
      v = RandBits(r, 1 + r.below(std::min<size_t>(max_bits, 34)));
      break;
    case 7:
      v = RandBits(r, 1 + r.below(std::min<size_t>(max_bits, 66)));
      break;
    case 8: {
      // Whole words that are all zeros, all ones, or a single bit.
      size_t words = 1 + r.below((max_bits + 63) / 64);
      v = 0;
      for (size_t i = 0; i < words; ++i) {
        v <<= 64;
        uint64_t w;
        switch (r.below(6)) {
          case 0: w = 0; break;
          case 1: w = ~0ull; break;
          case 2: w = 1ull << 63; break;
          case 3: w = (1ull << 63) - 1; break;
          case 4: w = 1ull << r.below(64); break;
          default: w = r.next();
        }
        v += ZFromU64(w);
      }
      break;
    }
    default:
      v = RandBits(r, 1 + r.below(max_bits));
  }
  if (r.coin()) v = -v;
  if (r.chance(1, 12)) v = ~v;
  return v;
}

// ---------------------------------------------------------------------------

using CaseFn = void (*)(Rng&);

struct Registry {
  std::map<std::string, CaseFn> fns;
};
inline Registry& registry() {
  static Registry r;
  return r;
}
struct Register {
  Register(const char* name, CaseFn fn) { registry().fns[name] = fn; }
};
#define PROPERTY(name)                                              \
  static void Case_##name(::vf::Rng& r);                            \
  static ::vf::Register reg_##name(#name, Case_##name);             \
  static void Case_##name(::vf::Rng& r)

inline std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c > 0x7e) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else o += c;
  }
  return o + "\"";
}

inline void OnCpuLimit(int) {
  static const char msg[] = "VERIF-CPU-LIMIT\n";
  ssize_t w = write(2, msg, sizeof msg - 1);
  (void)w;
  _exit(77);
}

inline int Main(int argc, char** argv) {
  State& s = st();
  uint64_t start = 0, shards = 1, shard = 0, cases = 100;
  int64_t only = -1;
  double cpu_limit = 40;
  std::string out_file, status_file;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") s.prop = val();
    else if (a == "--seed") s.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--start") start = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--shards") shards = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--shard") shard = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--only") only = strtoll(val().c_str(), nullptr, 10);
    else if (a == "--cpu-limit") cpu_limit = atof(val().c_str());
    else if (a == "--out") out_file = val();
    else if (a == "--status") status_file = val();
    else if (a == "--thorough") s.thorough = true;
    else if (a == "--verbose") s.verbose = true;
  }
  auto it = registry().fns.find(s.prop);
  if (it == registry().fns.end()) {
    fprintf(stderr, "unknown property %s\n", s.prop.c_str());
    return 3;
  }
  if (!status_file.empty()) {
    int fd = open(status_file.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 64) != 0) return 3;
    s.status = (char*)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  }
  signal(SIGVTALRM, OnCpuLimit);
  const uint64_t stream = HashStr(s.prop);
  size_t failing_cases = 0;
  for (uint64_t idx = 0; idx < cases; ++idx) {
    if (only >= 0) {
      if (idx > 0) break;
    } else {
      if (idx < start || idx % shards != shard) continue;
    }
    s.index = only >= 0 ? (uint64_t)only : idx;
    if (s.status) snprintf(s.status, 64, "%llu", (unsigned long long)s.index);
    itimerval tv{};
    tv.it_value.tv_sec = (long)cpu_limit;
    tv.it_value.tv_usec = (long)((cpu_limit - (long)cpu_limit) * 1e6);
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    s.case_digest = 0;
    s.case_nontrivial = false;
    Rng r(Mix(Mix(s.seed, stream), s.index));
    bool failed = false;
    try {
      it->second(r);
    } catch (const CaseAbort&) {
      failed = true;
    } catch (const std::exception& e) {
      Report("exception", e.what());
      failed = true;
    }
    ++s.evaluations;
    if (s.case_nontrivial) {
      ++s.nontrivial;
      if (s.digests.size() < 2000000) s.digests.insert(s.case_digest);
    }
    if (failed && ++failing_cases >= 12) break;
  }
  if (!out_file.empty()) {
    FILE* f = fopen(out_file.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"evaluations\": %zu, \"nontrivial\": %zu, \"violations\": %zu,\n",
            s.evaluations, s.nontrivial, s.violations);
    fprintf(f, "\"counters\": {");
    bool first = true;
    for (auto& c : s.counters) {
      fprintf(f, "%s%s: %llu", first ? "" : ", ", JsonStr(c.first).c_str(),
              (unsigned long long)c.second);
      first = false;
    }
    fprintf(f, "},\n\"samples\": [");
    first = true;
    for (auto& c : s.samples) {
      fprintf(f, "%s%s", first ? "" : ", ", JsonStr(c).c_str());
      first = false;
    }
    fprintf(f, "],\n\"digests\": [");
    first = true;
    for (uint64_t d : s.digests) {
      fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(d >> 4));
      first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
  }
  return 0;
}

}  // namespace vf

#define VERIF_MAIN int main(int argc, char** argv) { return ::vf::Main(argc, argv); }

#endif
