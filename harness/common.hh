// Bounded search and replay on the real code, through its public interface.
//   <bin> <property> search <seed> <seconds>
//   <bin> <property> case  s:<hex>,...,i:<int>,...
// Prints "OK {json}" or "FAIL <case> | <message>".
#pragma once
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)(void))
    __attribute__((weak));

namespace hz {

struct Case {
  std::vector<std::string> s;
  std::vector<long> i;
  std::string text() const {
    std::string r;
    static char const *hex = "0123456789abcdef";
    for (auto const &x : s) {
      if (!r.empty())
        r += ',';
      r += "s:";
      for (unsigned char c : x) {
        r += hex[c >> 4];
        r += hex[c & 15];
      }
    }
    for (long x : i) {
      if (!r.empty())
        r += ',';
      r += "i:" + std::to_string(x);
    }
    return r;
  }
  static Case parse(std::string const &t) {
    Case c;
    std::stringstream ss(t);
    std::string p;
    while (std::getline(ss, p, ',')) {
      if (p.compare(0, 2, "s:") == 0) {
        std::string v;
        for (size_t k = 2; k + 1 < p.size(); k += 2)
          v += (char)std::stoi(p.substr(k, 2), nullptr, 16);
        c.s.push_back(v);
      } else if (p.compare(0, 2, "i:") == 0)
        c.i.push_back(std::stol(p.substr(2)));
    }
    return c;
  }
};

struct Rng {
  uint64_t x;
  explicit Rng(uint64_t s) : x(s * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return x * 0x2545F4914F6CDD1Dull;
  }
  int below(int n) { return n <= 0 ? 0 : (int)((next() >> 33) % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int pct) { return below(100) < pct; }
  template <class V> auto const &pick(V const &v) {
    return v[(size_t)below((int)v.size())];
  }
};

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};
// the case is outside the property's domain
struct Skip {};

inline std::string q(std::string const &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c == '\n')
      r += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r + "\"";
}
inline std::string q(char const *s) { return q(std::string(s)); }
inline std::string q(long v) { return std::to_string(v); }
inline std::string q(unsigned long v) { return std::to_string(v); }
inline std::string q(int v) { return std::to_string(v); }
inline std::string q(bool v) { return v ? "true" : "false"; }
inline std::string q(char v) { return q(std::string(1, v)); }

template <class A, class B>
void eq(char const *what, A const &got, B const &want) {
  if (!(got == want))
    throw Failure(std::string(what) + ": got " + q(got) + ", expected " +
                  q(want));
}
inline void ok(char const *what, bool b) {
  if (!b)
    throw Failure(what);
}

struct Prop {
  std::function<void(Case const &)> check;
  // exhaustive small cases
  std::function<void(std::function<void(Case const &)> const &)> enumerate;
  std::function<Case(Rng &)> random;
  std::string rule;
};
inline std::map<std::string, Prop> &props() {
  static std::map<std::string, Prop> p;
  return p;
}

inline Case const *current = nullptr;
inline char const *crash_note = "";

inline void report_crash(char const *why) {
  std::string t = "FAIL " + (current ? current->text() : std::string("?")) +
                  " | " + why + "\n";
  fflush(stdout);
  (void)!write(1, t.data(), t.size());
}
inline void on_signal(int s) {
  report_crash(s == SIGABRT  ? "abort (assertion or terminate)"
               : s == SIGALRM ? "does not terminate"
                              : "crash (memory error)");
  _exit(1);
}
inline void on_death() { report_crash("sanitizer error"); }

struct Stop {};

inline std::string fails(Prop const &p, Case const &c, bool &skipped) {
  current = &c;
  skipped = false;
  alarm(20);
  std::string r;
  try {
    p.check(c);
  } catch (Skip const &) {
    skipped = true;
  } catch (Failure const &f) {
    r = f.what();
  } catch (std::exception const &e) {
    r = std::string("unexpected exception: ") + e.what();
  } catch (Stop const &) {
    throw;
  } catch (...) {
    r = "unexpected exception";
  }
  alarm(0);
  return r;
}

inline Case shrink(Prop const &p, Case c, std::string &msg) {
  bool progress = true;
  int budget = 3000;
  while (progress && budget > 0) {
    progress = false;
    for (size_t k = 0; k < c.s.size() && !progress; ++k)
      for (size_t len = c.s[k].size(); len >= 1 && !progress; len /= 2)
        for (size_t pos = 0; pos + len <= c.s[k].size(); ++pos) {
          if (--budget < 0)
            return c;
          Case d = c;
          d.s[k].erase(pos, len);
          bool sk;
          std::string m = fails(p, d, sk);
          if (!m.empty()) {
            c = d;
            msg = m;
            progress = true;
            break;
          }
        }
  }
  return c;
}

inline int run(int argc, char **argv) {
  if (argc < 4)
    return 2;
  auto it = props().find(argv[1]);
  if (it == props().end()) {
    fprintf(stderr, "unknown property\n");
    return 2;
  }
  Prop &p = it->second;
  signal(SIGABRT, on_signal);
  signal(SIGSEGV, on_signal);
  signal(SIGBUS, on_signal);
  signal(SIGFPE, on_signal);
  signal(SIGALRM, on_signal);
  if (__sanitizer_set_death_callback)
    __sanitizer_set_death_callback(on_death);
  if (!strcmp(argv[2], "case")) {
    Case c = Case::parse(argv[3]);
    bool sk;
    std::string m = fails(p, c, sk);
    if (!m.empty()) {
      printf("FAIL %s | %s\n", c.text().c_str(), m.c_str());
      return 1;
    }
    printf("OK {\"evaluations\": 1, \"skipped\": %d}\n", (int)sk);
    return 0;
  }
  Rng rng((uint64_t)atol(argv[3]));
  double secs = argc > 4 ? atof(argv[4]) : 5;
  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
        .count();
  };
  long n = 0, nontrivial = 0;
  std::unordered_set<std::string> distinct;
  std::vector<std::string> samples;
  std::string msg;
  Case bad;
  bool found = false, complete = true;
  auto one = [&](Case const &c) {
    ++n;
    bool sk;
    msg = fails(p, c, sk);
    if (!sk && distinct.size() < 400000) {
      if (distinct.insert(c.text()).second) {
        ++nontrivial;
        if (samples.size() < 3 || (samples.size() < 6 && nontrivial % 977 == 0))
          samples.push_back(c.text());
      }
    }
    if (!msg.empty()) {
      bad = c;
      found = true;
      throw Stop();
    }
  };
  try {
    if (p.enumerate)
      p.enumerate([&](Case const &c) {
        one(c);
        if ((n & 1023) == 0 && elapsed() > secs * 2) {
          complete = false;
          throw Stop();
        }
      });
  } catch (Stop const &) {
  }
  long enumerated = n;
  if (!found && p.random)
    try {
      while (elapsed() < secs || n - enumerated < 2000) {
        one(p.random(rng));
        if (elapsed() > secs * 3)
          break;
      }
    } catch (Stop const &) {
    }
  if (found) {
    Case c = shrink(p, bad, msg);
    printf("FAIL %s | %s\n", c.text().c_str(), msg.c_str());
    return 1;
  }
  std::string sm;
  for (auto const &x : samples)
    sm += (sm.empty() ? "\"" : ", \"") + x + "\"";
  printf("OK {\"evaluations\": %ld, \"distinct_nontrivial\": %ld, "
         "\"enumerated\": %ld, \"enumeration_complete\": %s, \"rule\": %s, "
         "\"samples\": [%s]}\n",
         n, nontrivial, enumerated, complete ? "true" : "false",
         q(p.rule).c_str(), sm.c_str());
  return 0;
}

// all strings over `alpha` of length <= n
inline void strings(std::string const &alpha, int n,
                    std::function<void(std::string const &)> const &f) {
  for (int len = 0; len <= n; ++len) {
    std::vector<int> d((size_t)len, 0);
    std::string s((size_t)len, alpha[0]);
    for (;;) {
      f(s);
      int k = len - 1;
      while (k >= 0 && d[(size_t)k] + 1 == (int)alpha.size()) {
        d[(size_t)k] = 0;
        s[(size_t)k] = alpha[0];
        --k;
      }
      if (k < 0)
        break;
      s[(size_t)k] = alpha[(size_t)++d[(size_t)k]];
    }
  }
}

inline std::string random_text(Rng &r, std::vector<std::string> const &frags,
                               int maxparts) {
  std::string s;
  int n = r.range(0, maxparts);
  for (int k = 0; k < n; ++k)
    s += r.pick(frags);
  return s;
}
} // namespace hz
