#include <pthread.h>
// Native side of the specification intrinsics: reads one concrete input (a counterexample of the verifier, or a
// pseudo-random one) and reports a failed check.  Linked with the same spec file against the real headers.
//   PROG list | PROG replay HARNESS INPUT | PROG random HARNESS SEED TRIALS SECONDS OUT
#include "irv.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>

namespace {
struct tok { bool is_str; uint64_t v; std::string s; };
struct assume_failed {};
struct ended {};
struct failed {};
std::map<std::string, void (*)()>& harnesses() { static std::map<std::string, void (*)()> m; return m; }

bool g_random = false;
std::mt19937_64 g_rng;
std::map<std::string, std::deque<tok>> g_streams;
std::map<std::string, std::vector<std::string>> g_map_entries;
std::vector<std::string> g_stack;
std::map<std::string, int> g_cnt;
std::vector<std::pair<std::string, int>> g_maps;
std::vector<uint64_t> g_seen;
std::vector<std::string> g_seen_str;
std::ofstream* g_log = nullptr;
int g_alpha = 0;
struct shared_t { volatile uint64_t trial; volatile uint64_t done; volatile uint64_t covers; volatile uint64_t checks; char label[400]; };
shared_t* g_sh = nullptr;

void reset() {
  g_stack = {"main"};
  g_cnt.clear();
  g_maps.clear();
  g_seen.clear();
  g_seen_str.clear();
}
std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
void log(const std::string& line) { if (g_log) { *g_log << line << "\n"; g_log->flush(); } }
uint64_t mask(int bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }
uint64_t rnd() { return g_rng(); }

tok next(bool str) {
  auto& q = g_streams[g_stack.back()];
  if (q.empty()) return tok{str, 0, ""};
  tok t = q.front();
  q.pop_front();
  return t;
}
uint64_t rnd_bits(int bits) {
  uint64_t v;
  const uint64_t r = rnd() % 100;
  if (bits == 1) v = rnd();
  else if (r < 45) v = rnd() % 4;
  else if (r < 65 && !g_seen.empty()) v = g_seen[rnd() % g_seen.size()] + (rnd() % 4 == 0 ? rnd() % 3 - 1 : 0);
  else if (r < 72) v = rnd() % 300;
  else if (r < 85) { static const uint64_t b[] = {0, 1, ~0ull, 1ull << 63, (1ull << 63) - 1, 1ull << 31, (1ull << 31) - 1, 0x80, 0x7f, 0xff, 0xffff, 1ull << 32}; v = b[rnd() % 12]; }
  else v = rnd() >> (rnd() % 64);
  v &= mask(bits);
  if (bits > 1) g_seen.push_back(v);
  return v;
}
std::string rnd_str(uint64_t n) {
  static const std::string special = " \t\r\n,;:=&%+/.?#<>\"'\\{}[]()|-_~!*aA0zZfF9";
  static const std::string small = "ab:,= ";
  if (!g_seen_str.empty() && rnd() % 8 == 0) {
    std::string s = g_seen_str[rnd() % g_seen_str.size()];
    if (s.size() == n || rnd() % 2) { if (s.size() > n) s.resize(n); if (s.size() == n) return s; }
  }
  std::string s;
  const int mode = rnd() % 5;
  for (uint64_t i = 0; i < n; ++i) {
    switch (mode) {
      case 0: s += static_cast<char>(rnd()); break;
      case 1: s += special[rnd() % special.size()]; break;
      case 2: s += static_cast<char>('a' + rnd() % 26); break;
      case 3: s += small[rnd() % small.size()]; break;
      default: s += static_cast<char>(rnd() % 4 ? 32 + rnd() % 95 : rnd()); break;
    }
  }
  g_seen_str.push_back(s);
  return s;
}
void fail(const char* label) {
  if (g_sh) { std::strncpy(g_sh->label, label, sizeof(g_sh->label) - 1); }
  log(std::string("# FAILED ") + label);
  throw failed();
}
}  // namespace

extern "C" const char* __asan_default_options() { return "exitcode=99:detect_leaks=0:allocator_may_return_null=1"; }
irv_reg::irv_reg(const char* name, void (*f)()) { harnesses()[name] = f; }

extern "C" {
int irv_symbolic() { return 0; }
uint64_t irv_any_bits(int bits) {
  const uint64_t v = (g_random ? rnd_bits(bits) : next(false).v) & mask(bits);
  if (g_log) log("v " + g_stack.back() + " " + std::to_string(v));
  return v;
}
uint64_t irv_any_len(uint64_t max) {
  uint64_t v = g_random ? (rnd() % 10 ? rnd() % 9 : rnd() % 70) : next(false).v;
  if (v > max) v = g_random ? v % (max + 1) : max;
  if (g_log) log("v " + g_stack.back() + " " + std::to_string(v));
  return v;
}
uint64_t irv_ghost_bits(int) { return 0; }
void irv_record_bits(uint64_t) {}
void irv_assume(bool c) { if (!c) throw assume_failed(); }
void irv_check(bool c, const char* label) { if (g_sh) ++g_sh->checks; if (!c) fail(label); }
void irv_check_aux(bool, const char*) {}
void irv_cover(const char*) { if (g_sh) ++g_sh->covers; }
void irv_fail(const char* label) { fail(label); }
void irv_end() { throw ended(); }
void irv_dead() { throw assume_failed(); }
void irv_replace(const char*, void*) {}
void irv_unreplace() {}
void irv_loop(const char*, int, void*, void*, void*) {}
void irv_monitor(void*, void*, void*, void*) {}
void irv_shared(void*, void*, void*, void*) {}
int irv_decide(bool c) { return c; }
uint64_t irv_concretize(uint64_t v) { return v; }
int irv_map_begin() {
  const std::string& s = g_stack.back();
  g_maps.emplace_back(s + "/" + std::to_string(g_cnt[s]++), 0);
  return static_cast<int>(g_maps.size()) - 1;
}
int irv_map_size(int i) {
  const std::string name = g_maps[i].first;
  if (g_random) {
    const int n = static_cast<int>(rnd() % 5);
    std::string l = "m " + name;
    for (int k = 0; k < n; ++k) l += " " + name + "." + std::to_string(k);
    log(l);
    return n;
  }
  log("m " + name + " ...");
  return static_cast<int>(g_map_entries[name].size());
}
void irv_map_entry(int i, bool) {
  auto& m = g_maps[i];
  const int k = m.second++;
  g_stack.push_back(g_random ? m.first + "." + std::to_string(k) : g_map_entries[m.first][k]);
}
void irv_map_entry_end() { g_stack.pop_back(); }
void irv_trace(const char*) {}
int irv_trace_count(const char*, void*) { return 0; }
void irv_trace_reset() {}
int irv_locked(void* m) {
  if (pthread_mutex_trylock(static_cast<pthread_mutex_t*>(m))) return 1;
  pthread_mutex_unlock(static_cast<pthread_mutex_t*>(m));
  return 0;
}
void irv_set_locked(void*, int) {}
static void put_str(void* p, const std::string& s) {
  *reinterpret_cast<std::string*>(p) = s;
  if (g_log) log("s " + g_stack.back() + " " + (s.empty() ? "-" : hex(s)));
}
void irv_any_string(void* p, uint64_t maxlen) {
  if (!g_random) { put_str(p, next(true).s); return; }
  uint64_t n = rnd() % 12 ? rnd() % 13 : rnd() % 200;
  if (n > maxlen) n = rnd() % (maxlen + 1);
  put_str(p, rnd_str(n));
}
void irv_any_string_n(void* p, uint64_t len) {
  if (!g_random) { std::string s = next(true).s; s.resize(len); put_str(p, s); return; }
  put_str(p, rnd_str(len));
}
void irv_havoc_string(void*) {}
uint64_t irv_str_len(const void* p) { return reinterpret_cast<const std::string*>(p)->size(); }
uint8_t irv_str_at(const void* p, uint64_t i) { return static_cast<uint8_t>((*reinterpret_cast<const std::string*>(p))[i]); }
void irv_abstract() {}
void irv_on_sleep(void*, void*) {}
void irv_kill(void*) {}
void irv_debug(const char*, uint64_t) {}
int irv_alive(const void*) { return 1; }
uint64_t irv_uf(const char*, uint64_t, uint64_t, uint64_t) { return 0; }
}

namespace {
// 0: held, 1: precondition not met, 10: a check failed, 11: an exception escaped
int run_one(void (*f)()) {
  reset();
  try {
    f();
  } catch (const assume_failed&) {
    return 1;
  } catch (const ended&) {
    return 0;
  } catch (const failed&) {
    return 10;
  } catch (const std::exception& e) {
    if (g_sh) std::snprintf(g_sh->label, sizeof(g_sh->label), "uncaught exception: %.300s", e.what());
    return 11;
  } catch (...) {
    if (g_sh) std::snprintf(g_sh->label, sizeof(g_sh->label), "uncaught exception");
    return 11;
  }
  return 0;
}
void seed_trial(uint64_t seed, uint64_t t) {
  std::seed_seq q{static_cast<uint32_t>(seed), static_cast<uint32_t>(t), static_cast<uint32_t>(t >> 32), 77u};
  g_rng.seed(q);
}
}  // namespace

int main(int argc, char** argv) {
  const std::string mode = argc > 1 ? argv[1] : "list";
  if (mode == "list") {
    for (const auto& h : harnesses()) std::cout << h.first << "\n";
    return 0;
  }
  g_sh = reinterpret_cast<shared_t*>(mmap(nullptr, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  auto it = harnesses().find(argv[2]);
  if (it == harnesses().end()) { std::cerr << "no harness " << argv[2] << "\n"; return 3; }
  if (mode == "replay") {
    std::ifstream in(argv[3]);
    std::string line;
    while (std::getline(in, line)) {
      std::istringstream is(line);
      std::string k, s, x;
      is >> k >> s;
      if (k == "v") { uint64_t v; is >> v; g_streams[s].push_back(tok{false, v, ""}); }
      else if (k == "s") {
        is >> x;
        std::string b;
        if (x != "-") for (size_t i = 0; i + 1 < x.size(); i += 2) b += static_cast<char>(std::stoi(x.substr(i, 2), nullptr, 16));
        g_streams[s].push_back(tok{true, 0, b});
      } else if (k == "m") {
        while (is >> x) if (x != "...") g_map_entries[s].push_back(x);
      }
    }
    const pid_t pid = fork();
    if (!pid) {
      alarm(30);
      const int r = run_one(it->second);
      if (r >= 10) std::cout << "FAILED " << g_sh->label << "\n" << std::flush;
      _exit(r);
    }
    int st;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) { std::cout << (WTERMSIG(st) == SIGALRM ? "FAILED does not terminate (30 s)" : "FAILED crash, signal " + std::to_string(WTERMSIG(st))) << "\n"; return 12; }
    const int c = WEXITSTATUS(st);
    std::cout << (c == 0 ? "HELD" : c == 1 ? "PRECONDITION NOT MET" : c >= 10 ? "VIOLATED" : "CRASHED") << "\n";
    return c;
  }
  // random SEED TRIALS SECONDS OUT
  const uint64_t seed = std::stoull(argv[3]), trials = std::stoull(argv[4]);
  const double seconds = std::stod(argv[5]);
  const auto t0 = std::chrono::steady_clock::now();
  g_random = true;
  uint64_t t = 0, discarded = 0;
  while (t < trials) {
    g_sh->trial = t;
    g_sh->done = 0;
    const pid_t pid = fork();
    if (!pid) {
      int devnull = 0; (void)devnull;
      for (uint64_t k = t; k < trials; ++k) {
        g_sh->trial = k;
        alarm(20);
        seed_trial(seed, k);
        const int r = run_one(it->second);
        if (r >= 10) _exit(r);
        if (r == 1) ++g_sh->done;  // discarded
        if (k % 16 == 15 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds) _exit(0);
      }
      g_sh->trial = trials;
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    discarded += g_sh->done;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    // re-run the failing trial, writing down its inputs
    t = g_sh->trial;
    const pid_t p2 = fork();
    if (!p2) {
      alarm(20);
      std::ofstream log(argv[6]);
      g_log = &log;
      seed_trial(seed, t);
      const int r = run_one(it->second);
      if (r >= 10) std::cout << "FAILED " << g_sh->label << "\n" << std::flush;
      _exit(r);
    }
    int st2;
    waitpid(p2, &st2, 0);
    if (WIFEXITED(st2) && WEXITSTATUS(st2) < 10) {  // did not fail again (or a sanitizer's exit code)
      if (WEXITSTATUS(st2) <= 1) { std::cout << "FLAKY trial " << t << "\n"; ++t; continue; }
      std::cout << "FAILED crash\n";
      return 12;
    }
    if (WIFSIGNALED(st2)) {
      std::cout << (WTERMSIG(st2) == SIGALRM ? "FAILED does not terminate (20 s)" : "FAILED crash, signal " + std::to_string(WTERMSIG(st2))) << "\n";
      return 12;
    }
    return WEXITSTATUS(st2);
  }
  std::cout << "HELD trials " << g_sh->trial << " discarded " << discarded << " checks " << g_sh->checks << " covers " << g_sh->covers << "\n";
  return 0;
}
