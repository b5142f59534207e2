// Shared helpers of the conformance drivers: script reading, projection of floating point
// values to the integer units of the specifications, NDJSON output, crash isolation.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <poll.h>
#include <time.h>

namespace vp
{
  // NaN and runaway values map to sentinels that no specification value reaches and that are
  // small enough not to overflow TLC's 32-bit integers when they are combined.
  const long LIM = 2000000;
  inline long rnd(double v, double scale, long lim = LIM)
  {
    double x = v*scale;
    if (x != x) return lim + 7;
    if (x > lim) return lim;
    if (x < -lim) return -lim;
    return std::lround(x);
  }

  struct Obj
  {
    std::string s;
    Obj& raw(const char* k, const std::string& v)
    {
      s += s.empty() ? "{" : ",";
      s += "\""; s += k; s += "\":"; s += v;
      return *this;
    }
    Obj& i(const char* k, long v) { return raw(k, std::to_string(v)); }
    Obj& b(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
    Obj& str(const char* k, const std::string& v) { return raw(k, "\"" + v + "\""); }
    std::string done() { return (s.empty() ? "{" : s) + "}"; }
  };

  template <class V> std::string vec(const V& v, int n, double scale, long lim = LIM)
  {
    std::string s = "[";
    for (int i = 0; i < n; ++i) { if (i) s += ","; s += std::to_string(rnd(v(i), scale, lim)); }
    return s + "]";
  }
  template <class M> std::string mat(const M& m, double scale, long lim = LIM)
  {
    std::string s = "[";
    for (int i = 0; i < m.rows(); ++i)
    {
      if (i) s += ",";
      s += "[";
      for (int j = 0; j < m.cols(); ++j) { if (j) s += ","; s += std::to_string(rnd(m(i, j), scale, lim)); }
      s += "]";
    }
    return s + "]";
  }
  inline std::string ints(const std::vector<long>& v)
  {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); }
    return s + "]";
  }
  template <class P> std::string points(const P& p, double scale)
  {
    std::string s = "[";
    for (size_t i = 0; i < p.size(); ++i)
    {
      if (i) s += ",";
      s += "[" + std::to_string(rnd(p[i](0), scale)) + "," + std::to_string(rnd(p[i](1), scale)) + "]";
    }
    return s + "]";
  }

  // Lines of one history, as token lists.
  typedef std::vector<std::string> Tokens;
  struct Reader
  {
    const Tokens& t; size_t at;
    explicit Reader(const Tokens& tok) : t(tok), at(1) {}
    long i() { if (at >= t.size()) { std::fprintf(stderr, "script: missing token\n"); _exit(97); } return std::atol(t[at++].c_str()); }
    double d() { if (at >= t.size()) { std::fprintf(stderr, "script: missing token\n"); _exit(97); } return std::atof(t[at++].c_str()); }
    std::string s() { if (at >= t.size()) { std::fprintf(stderr, "script: missing token\n"); _exit(97); } return t[at++]; }
    bool more() const { return at < t.size(); }
  };

  inline Tokens split(const std::string& l)
  {
    Tokens v; std::istringstream is(l); std::string w;
    while (is >> w) v.push_back(w);
    return v;
  }

  typedef std::function<void(const std::vector<Tokens>&, std::ostream&)> History;

  // A history of up to two objects: the lines that begin with "&" concern the second one.  Each
  // object's first line tells its scalar type.
  template <class D, class F> void play(const std::vector<Tokens>& lines, std::ostream& out)
  {
    D d[2]; F f[2]; bool dbl[2] = {true, true};
    for (size_t i = 0; i < lines.size(); ++i)
    {
      Tokens t = lines[i]; int k = t[0] == "&";
      if (k) t.erase(t.begin());
      if (t[0] == "reset") dbl[k] = t[1] == "double";
      if (dbl[k]) d[k].call(t, out); else f[k].call(t, out);
    }
  }

  // Runs every history of the script (each begins with a "reset" line) in a child process, many
  // histories per child; when a child dies, the history it was executing gets a final "crash"
  // event and a new child goes on with the next one.
  inline int run(int argc, char** argv, History h)
  {
    if (argc != 3) { std::fprintf(stderr, "usage: %s SCRIPT OUT\n", argv[0]); return 98; }
    std::ifstream in(argv[1]);
    if (!in) { std::fprintf(stderr, "cannot read %s\n", argv[1]); return 98; }
    std::vector<std::vector<Tokens> > hs;
    std::string line;
    while (std::getline(in, line))
    {
      Tokens t = split(line);
      if (t.empty()) continue;
      if (t[0] == "reset") hs.push_back(std::vector<Tokens>());
      if (hs.empty()) { std::fprintf(stderr, "script must begin with reset\n"); return 98; }
      hs.back().push_back(t);
    }
    std::FILE* out = std::fopen(argv[2], "w");
    if (!out) { std::fprintf(stderr, "cannot write %s\n", argv[2]); return 98; }
    size_t next = 0;
    while (next < hs.size())
    {
      int fd[2];
      if (pipe(fd) != 0) return 98;
      pid_t pid = fork();
      if (pid < 0) return 98;
      if (pid == 0)
      {
        close(fd[0]);
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        // a history that does not terminate is a crash too
        std::FILE* p = fdopen(fd[1], "w");
        if (!getenv("VP_STDERR") && !freopen("/dev/null", "w", stderr)) _exit(96);
        for (size_t k = next; k < hs.size(); ++k)
        {
          alarm(60);
          // every event is flushed before the next call is made
          struct Buf : std::stringbuf
          {
            std::FILE* p;
            explicit Buf(std::FILE* f) : p(f) {}
            int sync() { std::string s = str(); std::fwrite(s.data(), 1, s.size(), p); std::fflush(p); str(""); return 0; }
          } buf(p);
          std::ostream os(&buf);
          h(hs[k], os);
          os.flush();
          std::fputs("#done\n", p); std::fflush(p);
        }
        std::fclose(p);
        _exit(0);
      }
      close(fd[1]);
      std::FILE* p = fdopen(fd[0], "r");
      char* buf = 0; size_t cap = 0; ssize_t n;
      bool partial = false;
      while ((n = getline(&buf, &cap, p)) > 0)
      {
        if (std::strcmp(buf, "#done\n") == 0) { ++next; partial = false; continue; }
        if (buf[n-1] != '\n') { partial = true; break; }
        std::fwrite(buf, 1, n, out);
      }
      (void)partial;
      free(buf); std::fclose(p);
      int st = 0; waitpid(pid, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) >= 96) { std::fprintf(stderr, "driver error %d\n", WEXITSTATUS(st)); return 98; }
      if (next < hs.size())
      {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { std::fprintf(stderr, "driver: child ended early\n"); return 98; }
        std::fprintf(out, "{\"op\":\"crash\",\"hist\":%lu,\"sig\":%d}\n", (unsigned long)next, WIFSIGNALED(st) ? WTERMSIG(st) : -1);
        ++next;
      }
    }
    std::fclose(out);
    return 0;
  }
}
