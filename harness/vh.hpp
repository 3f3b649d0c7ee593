// Minimal harness library: JSON (ints/strings/arrays/objects), trace output and crash/hang containment.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh {

struct J
{
  enum T { Null, Int, Str, Arr, Obj } t = Null;
  long long i = 0;
  std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;

  J() = default;
  J(long long v) : t(Int), i(v) {}
  J(int v) : t(Int), i(v) {}
  J(unsigned v) : t(Int), i(v) {}
  J(long v) : t(Int), i(v) {}
  J(unsigned long v) : t(Int), i(static_cast<long long>(v)) {}
  J(bool v) : t(Int), i(v ? 1 : 0) {}
  J(const char * v) : t(Str), s(v) {}
  J(const std::string & v) : t(Str), s(v) {}
  static J arr() { J r; r.t = Arr; return r; }
  static J obj() { J r; r.t = Obj; return r; }
  template<typename V>
  static J vec(const V & v) { J r = arr(); for (long k = 0; k < long(v.size()); ++k) r.a.push_back(J((long long)(v[k]))); return r; }

  bool has(const std::string & k) const { for (auto & p : o) if (p.first == k) return true; return false; }
  const J & operator[](const std::string & k) const
  {
    for (auto & p : o) if (p.first == k) return p.second;
    fprintf(stderr, "harness: missing key %s\n", k.c_str()); exit(3);
  }
  const J & operator[](const char * k) const { return (*this)[std::string(k)]; }
  const J & operator[](std::size_t k) const { return a.at(k); }
  const J & operator[](int k) const { return a.at(std::size_t(k)); }
  long long get(const std::string & k, long long d) const { for (auto & p : o) if (p.first == k) return p.second.i; return d; }
  std::size_t size() const { return t == Obj ? o.size() : a.size(); }
  J & set(const std::string & k, J v) { for (auto & p : o) if (p.first == k) { p.second = std::move(v); return *this; } t = Obj; o.emplace_back(k, std::move(v)); return *this; }
  J & push(J v) { t = Arr; a.push_back(std::move(v)); return *this; }
  std::vector<long long> ints() const { std::vector<long long> r; for (auto & x : a) r.push_back(x.i); return r; }
  void dump(std::string & out) const
  {
    switch (t) {
    case Null: out += "0"; break;
    case Int:
      if (i > 2147483647LL || i < -2147483647LL) { fprintf(stderr, "harness: int %lld out of TLC range\n", i); exit(3); }
      out += std::to_string(i); break;
    case Str: out += '"'; for (char c : s) { if (c == '"' || c == '\\') out += '\\'; if (c >= 32 && c < 127) out += c; } out += '"'; break;
    case Arr: out += '['; for (std::size_t k = 0; k < a.size(); ++k) { if (k) out += ','; a[k].dump(out); } out += ']'; break;
    case Obj: out += '{'; for (std::size_t k = 0; k < o.size(); ++k) { if (k) out += ','; out += '"' + o[k].first + "\":"; o[k].second.dump(out); } out += '}'; break;
    }
  }
  std::string str() const { std::string r; dump(r); return r; }
};

inline void ws(const char *& p) { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }
inline J parse(const char *& p)
{
  ws(p);
  if (*p == '{') {
    J r = J::obj(); ++p; ws(p);
    if (*p == '}') { ++p; return r; }
    while (true) { ws(p); J k = parse(p); ws(p); ++p; J v = parse(p); r.o.emplace_back(k.s, v); ws(p); if (*p == ',') { ++p; continue; } ++p; return r; }
  }
  if (*p == '[') {
    J r = J::arr(); ++p; ws(p);
    if (*p == ']') { ++p; return r; }
    while (true) { r.a.push_back(parse(p)); ws(p); if (*p == ',') { ++p; continue; } ++p; return r; }
  }
  if (*p == '"') { J r(""); ++p; while (*p && *p != '"') { if (*p == '\\') ++p; r.s += *p++; } ++p; return r; }
  if (!strncmp(p, "true", 4)) { p += 4; return J(1); }
  if (!strncmp(p, "false", 5)) { p += 5; return J(0); }
  char * e; long long v = strtoll(p, &e, 10);
  if (e == p) { fprintf(stderr, "harness: JSON error at %.20s\n", p); exit(3); }
  p = e; return J(v);
}

inline std::vector<J> read_ndjson(const char * f)
{
  std::vector<J> r; std::ifstream in(f); std::string l;
  if (!in) { fprintf(stderr, "harness: cannot open %s\n", f); exit(3); }
  while (std::getline(in, l)) { if (l.empty()) continue; const char * p = l.c_str(); r.push_back(parse(p)); }
  return r;
}

// fixed-point projection; saturates at +-2e9 and maps nan to the saturation value
inline long long fx(double v, double S)
{
  const double w = v * S;
  if (!(w < 2e9)) return 2000000000LL;
  if (w < -2e9) return -2000000000LL;
  return llround(w);
}

// Runs fn(case) for every case in forked children. fn returns the trace record of the case.
// A crash (signal, assertion, uncaught exception) or a hang gives a record {"id":.., "ev":"crash"|"hang"}.
// Standard output of the code under test goes to /dev/null.
inline int run(int argc, char ** argv, const std::function<J(const J &)> & fn, unsigned limit_s = 20)
{
  if (argc < 3) { fprintf(stderr, "usage: %s cases.ndjson out.ndjson\n", argv[0]); return 3; }
  auto cases = read_ndjson(argv[1]);
  FILE * out = fopen(argv[2], "w");
  if (!out) return 3;
  const char * ml = getenv("VH_LIMIT"); if (ml) limit_s = unsigned(atoi(ml));
  int bad = 0;
  std::size_t k = 0;
  while (k < cases.size()) {
    int pfd[2]; if (pipe(pfd)) return 3;
    pid_t pid = fork();
    if (pid == 0) {
      close(pfd[0]);
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
      if (!getenv("VH_STDERR")) dup2(dn, 2);
      FILE * po = fdopen(pfd[1], "w");
      for (std::size_t j = k; j < cases.size(); ++j) {
        alarm(limit_s);
        J r = fn(cases[j]);
        alarm(0);
        std::string s = r.str();
        fputs(s.c_str(), po); fputc('\n', po); fflush(po);
      }
      _exit(0);
    }
    close(pfd[1]);
    FILE * pi = fdopen(pfd[0], "r");
    char * line = nullptr; size_t cap = 0; ssize_t nr;
    while ((nr = getline(&line, &cap, pi)) > 0) { if (line[nr-1] != '\n') break; fputs(line, out); ++k; }
    free(line); fclose(pi);
    int st = 0; waitpid(pid, &st, 0);
    if (k < cases.size()) {
      if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
      const bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
      J r = J::obj(); r.set("id", cases[k].get("id", long(k))); r.set("ev", hang ? "hang" : "crash");
      std::string s = r.str(); fputs(s.c_str(), out); fputc('\n', out);
      ++k;
      if ((bad += hang ? 4 : 1) > 20) { for (; k < cases.size(); ++k) { J q = J::obj(); q.set("id", cases[k].get("id", long(k))); q.set("ev", "skip"); std::string t = q.str(); fputs(t.c_str(), out); fputc('\n', out);} break; }
    }
  }
  fclose(out);
  return 0;
}

}  // namespace vh
