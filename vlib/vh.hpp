// Runtime-monitoring harness support: seeded cases, oracles, event counts, and
// a result file the runner (check.py) turns into evidence and a verdict.
#ifndef VERIF_VH_HPP
#define VERIF_VH_HPP

#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>

namespace vh
{
inline uint64_t mix(uint64_t x)
{
   x += 0x9e3779b97f4a7c15ULL;
   x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
   x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
   return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string &s)
{
   uint64_t h = 1469598103934665603ULL;
   for (unsigned char c : s) { h = (h ^ c) * 1099511628211ULL; }
   return mix(h);
}

struct Rng
{
   uint64_t s;
   explicit Rng(uint64_t seed = 1) : s(mix(seed)) { }
   uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
   double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
   double uni(double a, double b) { return a + (b - a) * u(); }
   /// integer in [a,b]
   int irand(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }
   bool coin(double p = 0.5) { return u() < p; }
   /// log-uniform positive
   double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
   template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

struct Violation
{
   std::string key, msg, input;
   std::string group;
   long idx;
};

struct Global
{
   uint64_t seed = 1;
   std::string tier = "quick";
   std::string prop, out;
   int shard = 0, nshards = 1;
   std::string only_group;
   long only_idx = -1;
   long scale_pct = 100;
   long evaluations = 0;      // cases executed
   long oracle_evals = 0;     // individual oracle decisions
   std::set<uint64_t> distinct;
   std::map<std::string, long> group_cases, oracle_counts, counters;
   std::map<std::string, double> worst;   // worst normalised error per oracle
   std::vector<std::string> samples;
   std::map<std::string, int> sample_groups;
   std::vector<Violation> violations;
   std::map<std::string, int> vio_seen;
   int progress_fd = -1;
   std::string phase;
   std::function<void()> on_exception;   // several ranks: the others cannot go on
};
inline Global &G() { static Global g; return g; }

struct CaseAbort { };

struct Case
{
   std::string group;
   long idx;
   Rng rng;
   std::ostringstream desc;
   long oracles = 0;
   bool trivial = false;
   bool failed = false;
   Case(std::string g, long i)
    : group(std::move(g)), idx(i),
      rng(mix(G().seed * 0x51ed2701ULL + hash_str(group)) ^ mix(i + 77))
   { desc.precision(17); }
   template <class T> T in(const char *name, T v)
   { desc << name << "=" << v << " "; return v; }
   template <class V> void invec(const char *name, const V &v, int n)
   {
      desc << name << "=[";
      for (int i = 0; i < n; ++i) { desc << (i ? "," : "") << v[i]; }
      desc << "] ";
   }
   void count(const std::string &name, long n = 1) { G().counters[name] += n; }
   void fail(const std::string &oracle, const std::string &msg)
   {
      failed = true;
      std::string key = group + "/" + oracle;
      if (G().vio_seen[key]++ == 0)
      { G().violations.push_back({key, msg, desc.str(), group, idx}); }
   }
   bool check(bool ok, const std::string &oracle, const std::string &msg = "")
   {
      ++oracles; ++G().oracle_evals; ++G().oracle_counts[group + "/" + oracle];
      if (!ok) { fail(oracle, msg); }
      return ok;
   }
   /// |a-b| <= tol (absolute; the caller scales it)
   bool near(double a, double b, double tol, const std::string &oracle,
             const std::string &msg = "")
   {
      double e = std::fabs(a - b);
      bool ok = e <= tol;   // false for NaN
      double &w = G().worst[group + "/" + oracle];
      double r = tol > 0 ? e / tol : (e == 0 ? 0.0 : 1e300);
      if (r > w || !(r == r)) { w = r; }
      if (!ok)
      {
         std::ostringstream s; s.precision(17);
         s << msg << " got " << a << " expected " << b << " |diff| " << e
           << " tol " << tol;
         return check(false, oracle, s.str());
      }
      return check(true, oracle);
   }
   /// relative-with-floor comparison
   bool rel(double a, double b, double rtol, double atol,
            const std::string &oracle, const std::string &msg = "")
   { return near(a, b, atol + rtol * std::max(std::fabs(a), std::fabs(b)), oracle, msg); }
};

inline void note_progress(const std::string &s)
{
   if (G().progress_fd < 0) { return; }
   std::string t = s;
   t.resize(4000, ' ');
   t += "\n";
   if (pwrite(G().progress_fd, t.data(), t.size(), 0) < 0) { }
}

/// n is the case count of the quick tier; the thorough tier multiplies it.
inline void run(const std::string &group, long n,
                const std::function<void(Case &)> &fn, long thorough_mult = 10)
{
   auto &g = G();
   if (!g.only_group.empty() && g.only_group != group) { return; }
   if (g.tier == "thorough") { n *= thorough_mult; }
   if (n > 8) { n = std::max(8L, n * g.scale_pct / 100); }
   for (long i = 0; i < n; ++i)
   {
      if (g.only_idx >= 0) { if (i != g.only_idx) { continue; } }
      else if (int((i + hash_str(group)) % g.nshards) != g.shard) { continue; }
      Case c(group, i);
      note_progress(group + " " + std::to_string(i));
      try { fn(c); }
      catch (const CaseAbort &) { }
      catch (const std::exception &e) { c.check(false, "unexpected-exception", e.what()); }
      catch (const char *e) { c.check(false, "unexpected-exception", e); }
      catch (...) { c.check(false, "unexpected-exception", "(unknown type)"); }
      ++g.evaluations;
      ++g.group_cases[group];
      if (g.on_exception && g.vio_seen.count(group + "/unexpected-exception")) { g.on_exception(); }
      if (!c.trivial && c.oracles > 0)
      { g.distinct.insert(hash_str(group + "|" + c.desc.str())); }
      if (g.sample_groups[group]++ < 1 && g.samples.size() < 40)
      {
         std::string d = c.desc.str();
         if (d.size() > 400) { d = d.substr(0, 400) + "..."; }
         g.samples.push_back(group + "#" + std::to_string(i) + ": " + d
                             + "(" + std::to_string(c.oracles) + " oracle decisions)");
      }
      if (g.only_idx >= 0)
      { std::cerr << "case " << group << "#" << i << ": " << c.desc.str() << "\n"; }
   }
   note_progress("between-cases " + group);
}

/// enumerate a finite list of configurations: case index selects
inline void enumerate(const std::string &group, long n,
                      const std::function<void(Case &)> &fn)
{
   long s = G().scale_pct; G().scale_pct = 100;
   run(group, n, fn, 1);
   G().scale_pct = s;
}

inline std::string jesc(const std::string &s)
{
   std::string o;
   for (unsigned char c : s)
   {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c == '\n') { o += "\\n"; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else { o += c; }
   }
   return o;
}
inline std::string jnum(double x)
{
   if (!(x == x)) { return "\"nan\""; }
   if (std::isinf(x)) { return "\"inf\""; }
   std::ostringstream s; s.precision(4); s << x; return s.str();
}

inline void init(int argc, char **argv, int rank = 0)
{
   auto &g = G();
   if (const char *e = getenv("VERIF_SEED")) { g.seed = strtoull(e, nullptr, 10); }
   if (const char *e = getenv("VERIF_TIER")) { g.tier = e; }
   for (int i = 1; i + 1 < argc; i += 2)
   {
      std::string a = argv[i], v = argv[i + 1];
      if (a == "--prop") { g.prop = v; }
      else if (a == "--out") { g.out = v; }
      else if (a == "--shard") { sscanf(v.c_str(), "%d/%d", &g.shard, &g.nshards); }
      else if (a == "--group") { g.only_group = v; }
      else if (a == "--case") { g.only_idx = atol(v.c_str()); }
      else if (a == "--seed") { g.seed = strtoull(v.c_str(), nullptr, 10); }
      else if (a == "--scale") { g.scale_pct = atol(v.c_str()); }
   }
   if (!g.out.empty() && rank > 0) { g.out += ".r" + std::to_string(rank); }
   if (!g.out.empty())
   { g.progress_fd = open((g.out + ".progress").c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644); }
   note_progress("start");
}

inline int finish()
{
   auto &g = G();
   std::ostringstream o;
   o << "{\"evaluations\":" << g.evaluations << ",\"oracle_evals\":" << g.oracle_evals
     << ",\"distinct\":[";
   bool first = true;
   for (auto h : g.distinct) { o << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
   o << "]";
   auto dump = [&](const char *n, const std::map<std::string, long> &m)
   {
      o << ",\"" << n << "\":{"; bool f = true;
      for (auto &p : m) { o << (f ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; f = false; }
      o << "}";
   };
   dump("groups", g.group_cases);
   dump("oracles", g.oracle_counts);
   dump("counters", g.counters);
   o << ",\"worst\":{"; first = true;
   for (auto &p : g.worst) { o << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << jnum(p.second); first = false; }
   o << "},\"samples\":["; first = true;
   for (auto &s : g.samples) { o << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
   o << "],\"violations\":["; first = true;
   for (auto &v : g.violations)
   {
      o << (first ? "" : ",") << "{\"key\":\"" << jesc(v.key) << "\",\"msg\":\"" << jesc(v.msg)
        << "\",\"input\":\"" << jesc(v.input.substr(0, 4000)) << "\",\"group\":\"" << jesc(v.group)
        << "\",\"idx\":" << v.idx << ",\"count\":" << g.vio_seen[v.key] << "}";
      first = false;
   }
   o << "]}";
   note_progress("finished");
   if (g.out.empty()) { std::cout << o.str() << std::endl; }
   else
   {
      std::string tmp = g.out + ".tmp";
      { std::ofstream f(tmp); f << o.str(); }
      rename(tmp.c_str(), g.out.c_str());
   }
   return 0;
}
}  // namespace vh
#endif
