// Shared by the harnesses: random generation, the reporter, small helpers.
#pragma once
#include <deal.II/base/exceptions.h>
#include <deal.II/base/mpi.h>
#include <deal.II/base/symmetric_tensor.h>
#include <deal.II/base/tensor.h>

#include <chrono>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace V
{
using u64 = std::uint64_t;

struct Rng
{
  u64 s;
  explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  u64 next()
  {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * unit(); }
  // both signs, magnitudes spread over decades
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  double slogu(double a, double b) { return (coin() ? 1. : -1.) * logu(a, b); }
  int    integer(int a, int b) { return a + int(next() % u64(b - a + 1)); }
  bool   coin(double p = 0.5) { return unit() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

inline std::string esc(const std::string &s)
{
  std::string r;
  for (char c : s)
    {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c == '\n') r += "\\n";
      else if ((unsigned char)c < 32) r += ' ';
      else r += c;
    }
  return r;
}

template <class... A> std::string cat(const A &...a)
{
  std::ostringstream o;
  o << std::setprecision(17);
  (o << ... << a);
  return o.str();
}

struct Reporter
{
  std::FILE            *f = nullptr;
  u64                   evaluations = 0, checks = 0, n_viol = 0;
  std::set<u64>         distinct;
  std::map<std::string, u64> per_key, counts;
  unsigned              n_samples = 0;
  std::string           current;
  std::chrono::steady_clock::time_point since = std::chrono::steady_clock::now();
  bool                  active = true;

  void open(const std::string &path) { f = std::fopen(path.c_str(), "w"); }
  void line(const std::string &s)
  {
    if (!active || !f) return;
    std::fputs((s + "\n").c_str(), f);
    std::fflush(f);
  }
  // the case under way: written down first, so that a crash names it
  void begin(const std::string &c)
  {
    current = c;
    since = std::chrono::steady_clock::now();
    ++evaluations;
    line(cat("{\"t\":\"case\",\"c\":\"", esc(c), "\"}"));
  }
  void viol(const std::string &key, const std::string &msg)
  {
    ++n_viol;
    if (++per_key[key] <= 3)
      line(cat("{\"t\":\"viol\",\"key\":\"", esc(key), "\",\"msg\":\"", esc(msg),
               "\",\"case\":\"", esc(current), "\"}"));
  }
  bool check(bool ok, const std::string &key, const std::function<std::string()> &msg)
  {
    ++checks;
    if (!ok) viol(key, msg());
    return ok;
  }
  bool check(bool ok, const std::string &key) { return check(ok, key, [] { return std::string(); }); }
  // |a-b| <= tol*scale, never true for NaN
  bool close(double a, double b, double tol_abs, const std::string &key)
  {
    return check(std::fabs(a - b) <= tol_abs, key,
                 [&] { return cat("got ", a, " expected ", b, " tolerance ", tol_abs); });
  }
  bool finite(double a, const std::string &key)
  {
    return check(std::isfinite(a), key, [&] { return cat("got ", a); });
  }
  void nontrivial(u64 h) { distinct.insert(h); }
  void nontrivial(const std::string &s) { distinct.insert(std::hash<std::string>()(s)); }
  void count(const std::string &k, u64 n = 1) { counts[k] += n; }
  void sample(const std::string &s)
  {
    if (n_samples++ < 5) line(cat("{\"t\":\"sample\",\"c\":\"", esc(s), "\"}"));
  }
  void end()
  {
    for (auto &p : counts)
      line(cat("{\"t\":\"count\",\"k\":\"", esc(p.first), "\",\"n\":", p.second, "}"));
    for (auto &p : per_key)
      line(cat("{\"t\":\"vcount\",\"k\":\"", esc(p.first), "\",\"n\":", p.second, "}"));
    std::string h;
    for (u64 x : distinct) h += (h.empty() ? "\"" : ",\"") + std::to_string(x) + "\"";
    line("{\"t\":\"hashes\",\"h\":[" + h + "]}");
    line(cat("{\"t\":\"end\",\"evaluations\":", evaluations, ",\"checks\":", checks,
             ",\"distinct\":", distinct.size(), ",\"viol\":", n_viol, "}"));
  }
};

extern Reporter rep;

// first line of a deal.II / std exception that says what failed
inline std::string exc_text(const std::exception &e)
{
  if (auto *d = dynamic_cast<const dealii::ExceptionBase *>(&e))
    {
      std::ostringstream o;
      d->print_info(o);
      std::string s = d->get_exc_name();
      std::string i = o.str();
      for (auto &c : i) if (c == '\n') c = ' ';
      return s + " " + i.substr(0, 200);
    }
  return std::string(typeid(e).name()) + " " + std::string(e.what()).substr(0, 160);
}
inline std::string exc_name(const std::exception &e)
{
  if (auto *d = dynamic_cast<const dealii::ExceptionBase *>(&e))
    {
      std::string s = d->get_exc_name();
      return s.substr(0, s.find('('));
    }
  return typeid(e).name();
}
// runs f; an exception is a violation
inline bool guarded(const std::string &key, const std::function<void()> &f)
{
  try { f(); return true; }
  catch (const std::exception &e)
    { rep.viol(key + ":" + exc_name(e), exc_text(e)); }
  return false;
}
// runs f; no exception is a violation
inline void must_throw(const std::string &key, const std::function<void()> &f)
{
  ++rep.checks;
  try { f(); }
  catch (const std::exception &) { return; }
  rep.viol(key, "accepted");
}

// runs f; the library's own abort() counts as a refusal (what it held is leaked)
inline sigjmp_buf &abort_jump() { static sigjmp_buf b; return b; }
inline bool &abort_seen() { static bool b = false; return b; }
inline void on_abort(int) { abort_seen() = true; siglongjmp(abort_jump(), 1); }
inline bool attempt(const std::function<void()> &f, std::string &name, std::string &text)
{
  auto *old = std::signal(SIGABRT, on_abort);
  bool  ok = false;
  if (sigsetjmp(abort_jump(), 1) == 0)
    {
      try { f(); ok = true; }
      catch (const std::exception &e) { name = exc_name(e); text = exc_text(e); }
    }
  else name = "abort", text = "the program ended itself";
  std::signal(SIGABRT, old);
  return ok;
}

template <int dim> double maxabs(const dealii::SymmetricTensor<2, dim> &t)
{
  double m = 0;
  for (unsigned i = 0; i < dim; ++i)
    for (unsigned j = 0; j < dim; ++j) m = std::isnan(t[i][j]) ? t[i][j] : std::max(m, std::fabs(t[i][j]));
  return m;
}

struct Tier;
struct Tier
{
  bool     thorough = false;
  unsigned divisor = 1; // "few8": an eighth of the cases, for slow instrumentation
  u64      seed = 1;
  void set(const std::string &t)
  {
    thorough = t == "thorough";
    if (t.substr(0, 3) == "few") divisor = std::stoul(t.substr(3));
  }
  unsigned n(unsigned quick, unsigned factor = 10) const { return thorough ? quick * factor : (quick + divisor - 1) / divisor; }
};
extern Tier tier;
inline bool on_time() { return tier.thorough || std::chrono::steady_clock::now() - rep.since < std::chrono::seconds(8); }
} // namespace V
