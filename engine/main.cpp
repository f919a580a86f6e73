// symx: symbolic execution of rustc-emitted LLVM IR.
//   symx run   --ll FILE --jobs FILE --out FILE [-j N] [--timeout-ms N] ...
//   symx replay --lib FILE.so --fn NAME --params a,b --inputs x,y,...     (runs the compiled code on concrete inputs)
#include "exec.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <dlfcn.h>
#include <signal.h>
#include <map>
#include <set>

// ------------------------------------------------------------------ native replay
static std::vector<long long> rIn, rPar; static size_t rPos = 0;
static long long nextIn() { if (rPos >= rIn.size()) { printf("NOINPUT\n"); fflush(stdout); _exit(21); } return rIn[rPos++]; }
extern "C" {
int64_t __vsym() { return nextIn(); }
bool __vsymbool() { return nextIn() & 1; }
int64_t __vsymrange(int64_t lo, int64_t hi) { int64_t v = nextIn(); if (v < lo || v > hi) { printf("ASSUME\n"); fflush(stdout); _exit(20); } return v; }
int64_t __vparam(uint64_t i) { return rPar.at(i); }
void __vassume(bool b) { if (!b) { printf("ASSUME\n"); fflush(stdout); _exit(20); } }
void __vcheck(bool b, const char* p, size_t n) { if (!b) { printf("CHECKFAIL %.*s\n", (int)n, p); fflush(stdout); _exit(10); } }
void __vcover(const char* p, size_t n) { printf("COVER %.*s\n", (int)n, p); }
void __vobserve(int64_t v) { printf("OBS %lld\n", (long long)v); }
static bool mayPanic = false;
void __vmaypanic(bool b) { mayPanic = b; if (b) { printf("MAYPANIC\n"); fflush(stdout);} else { printf("NOPANIC\n"); fflush(stdout);} }
uint64_t __vchoose(uint64_t n) { uint64_t v = (uint64_t)nextIn(); if (v >= n) { printf("ASSUME\n"); fflush(stdout); _exit(20); } return v; }
int64_t __vnative() { return 1; }
bool __visconc(int64_t) { return true; }
}
static std::vector<long long> splitLL(const std::string& s) { std::vector<long long> v; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) v.push_back((long long)(t[0] == '-' ? strtoll(t.c_str(), 0, 10) : (long long)strtoull(t.c_str(), 0, 10))); return v; }
static int replay(std::map<std::string, std::string>& a) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  struct rlimit rl = {8ull << 30, 8ull << 30}; setrlimit(RLIMIT_AS, &rl); struct rlimit nc = {0, 0}; setrlimit(RLIMIT_CORE, &nc); alarm(a.count("--alarm") ? atoi(a["--alarm"].c_str()) : 20);
  rPar = splitLL(a["--params"]); rIn = splitLL(a["--inputs"]);
  void* h = dlopen(a["--lib"].c_str(), RTLD_NOW); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 30; }
  void (*f)() = (void (*)())dlsym(h, a["--fn"].c_str()); if (!f) { fprintf(stderr, "no symbol\n"); return 30; }
  f(); printf("DONE\n"); fflush(stdout); _exit(0);
}

// ------------------------------------------------------------------ symbolic runs
static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string jl(const std::vector<u128>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; i128 s = sextw(v[i], 64); r += s < 0 ? "-" + u128str((u128)-s) : u128str((u128)s); } return r + "]"; }
template <class S> static std::string jset(const S& s) { std::string r = "["; bool f = true; for (auto& x : s) { if (!f) r += ","; f = false; r += js(x); } return r + "]"; }
static std::string toJson(const std::string& name, const JobOpts& o, const JobResult& r) {
  std::ostringstream s; s << "{\"job\":" << js(name) << ",\"fn\":" << js(o.fn) << ",\"params\":["; for (size_t i = 0; i < o.params.size(); i++) s << (i ? "," : "") << o.params[i];
  s << "],\"slice\":" << o.slice << ",\"slices\":" << o.slices << ",\"status\":" << js(r.status) << ",\"reason\":" << js(r.reason) << ",\"paths\":" << r.paths << ",\"killed\":" << r.killed << ",\"panics\":" << r.panics << ",\"instrs\":" << r.instrs << ",\"forks\":" << r.forks << ",\"checks\":" << r.checks << ",\"checksTrivial\":" << r.checksTrivial << ",\"checksSolved\":" << r.checksSolved << ",\"symInputs\":" << r.symInputs << ",\"maxDepth\":" << r.maxDepth << ",\"undefs\":" << r.undefs << ",\"secs\":" << r.secs;
  s << ",\"queries\":" << g_stats.queries << ",\"sat\":" << g_stats.sat << ",\"unsat\":" << g_stats.unsat << ",\"unknown\":" << g_stats.unknown << ",\"fallback\":" << g_stats.fallback << ",\"solverSecs\":" << g_stats.seconds << ",\"maxQuery\":" << g_stats.maxq << ",\"intUnknown\":" << g_stats.intUnknown << ",\"bvq\":" << g_stats.bvq << ",\"badmodel\":" << g_stats.badmodel << ",\"exprs\":" << exprCount();
  s << ",\"covers\":" << jset(r.covers) << ",\"functions\":" << jset(r.functions) << ",\"checkMsgs\":" << jset(r.checkMsgs) << ",\"samples\":["; for (size_t i = 0; i < r.samples.size(); i++) s << (i ? "," : "") << "{\"in\":" << jl(r.samples[i].inputs) << ",\"obs\":" << jl(r.samples[i].obs) << "}";
  s << "],\"violations\":["; for (size_t i = 0; i < r.violations.size(); i++) { auto& v = r.violations[i]; s << (i ? "," : "") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"in\":" << jl(v.inputs) << "}"; }
  s << "]}"; return s.str(); }

int main(int argc, char** argv) {
  if (argc < 2) return 2; std::map<std::string, std::string> a; for (int i = 2; i < argc; i++) { std::string k = argv[i]; if (k.rfind("-", 0) == 0 && i + 1 < argc) a[k] = argv[++i]; }
  std::string cmd = argv[1];
  if (cmd == "replay") return replay(a);
  if (cmd != "run") return 2;
  unsigned J = a.count("-j") ? atoi(a["-j"].c_str()) : 8;
  Module M; try { M.load(a["--ll"]); } catch (std::exception& e) { fprintf(stderr, "load: %s\n", e.what()); return 3; }
  struct Job { std::string name; JobOpts o; std::map<std::string, std::string> kv; }; std::vector<Job> jobs; { std::ifstream in(a["--jobs"]); std::string line; while (std::getline(in, line)) { if (line.empty() || line[0] == '#') continue; std::stringstream ss(line); Job j; ss >> j.name; std::string t; while (ss >> t) { size_t q = t.find('='); j.kv[t.substr(0, q)] = t.substr(q + 1); } auto& k = j.kv; j.o.fn = k["fn"]; for (auto v : splitLL(k["params"])) j.o.params.push_back(v); if (k.count("time")) j.o.maxTime = atof(k["time"].c_str()); if (k.count("instr")) j.o.maxInstr = strtoull(k["instr"].c_str(), 0, 10); if (k.count("samples")) j.o.samples = atoi(k["samples"].c_str()); if (k.count("trace")) j.o.trace = true; if (k.count("keep")) j.o.keepGoing = true; if (k.count("ites")) j.o.ites = atoi(k["ites"].c_str()); if (k.count("depth")) j.o.sliceDepth = atoi(k["depth"].c_str());
      unsigned n = k.count("slices") ? atoi(k["slices"].c_str()) : 1; for (unsigned i = 0; i < n; i++) { Job c = j; c.o.slice = i; c.o.slices = n; jobs.push_back(c); } } }
  FILE* out = fopen(a["--out"].c_str(), "w"); if (!out) return 3; fclose(out);
  std::string outp = a["--out"]; std::map<pid_t, size_t> run; std::map<size_t, time_t> started; std::set<size_t> killed; size_t next = 0; int bad = 0; bool stopOnViol = a.count("--stop") && a["--stop"] == "1"; bool stop = false; uint64_t memlim = a.count("--mem") ? strtoull(a["--mem"].c_str(), 0, 10) : 6ull << 30;
  auto outf = [&](size_t i) { return outp + "." + std::to_string(i); };
  double deadline = a.count("--deadline") ? atof(a["--deadline"].c_str()) : 0; auto T0 = time(nullptr);
  while ((next < jobs.size() && !stop) || !run.empty()) {
    while (!stop && next < jobs.size() && run.size() < J) {
      fflush(stdout); pid_t p = fork();
      if (p == 0) { setpgid(0, 0); struct rlimit rl = {memlim, memlim}; setrlimit(RLIMIT_AS, &rl); struct rlimit sk = {512u << 20, 512u << 20}; setrlimit(RLIMIT_STACK, &sk);
        auto& j = jobs[next]; auto& k = j.kv; if (k.count("smode")) g_sopts.mode = k["smode"]; if (k.count("qms")) g_sopts.timeout_ms = atoi(k["qms"].c_str()); if (k.count("fallback")) g_sopts.fallback_s = atoi(k["fallback"].c_str()); if (a.count("--tmp")) g_sopts.tmp = a["--tmp"];
        if (deadline > 0) { double left = deadline - (double)(time(nullptr) - T0); if (left < 1) left = 1; if (j.o.maxTime > left) j.o.maxTime = left; }
        JobResult r; try { solverInit(); r = runJob(M, j.o); } catch (std::bad_alloc&) { r.status = "inconclusive"; r.reason = "memory limit"; } catch (std::exception& e) { r.status = "error"; r.reason = e.what(); }
        std::string s = toJson(j.name, j.o, r) + "\n"; FILE* f = fopen(outf(next).c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); _exit(r.status == "ok" ? 0 : r.status == "violation" ? 1 : 2); }
      started[next] = time(nullptr); run[p] = next++; }
    int stt; pid_t p = 0; std::string killedWhy;
    for (;;) { p = waitpid(-1, &stt, WNOHANG); if (p != 0) break; auto now = time(nullptr);
      for (auto& [q, ix] : run) if ((double)(now - started[ix]) > jobs[ix].o.maxTime * 1.25 + 15 || (deadline > 0 && (double)(now - T0) > deadline + 10)) { if (!killed.count(ix)) { killed.insert(ix); kill(-q, SIGKILL); kill(q, SIGKILL); } }
      usleep(3000); }
    if (p < 0) break; if (!run.count(p)) continue; size_t i = run[p]; run.erase(p);
    std::ifstream f(outf(i)); std::string line; bool got = (bool)std::getline(f, line); f.close(); unlink(outf(i).c_str());
    if (!got) { JobResult r; r.status = "error"; r.reason = "worker died, status " + std::to_string(stt); if (killed.count(i)) { r.status = "inconclusive"; r.reason = "time limit"; } line = toJson(jobs[i].name, jobs[i].o, r); }
    FILE* o = fopen(outp.c_str(), "a"); fprintf(o, "%s\n", line.c_str()); fclose(o);
    if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) bad = 1; if (WIFEXITED(stt) && WEXITSTATUS(stt) == 1 && stopOnViol) { stop = true; for (auto& [q, ix] : run) kill(-q, SIGKILL), kill(q, SIGKILL); }
  }
  return bad;
}
