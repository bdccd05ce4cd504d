#include "explore.hpp"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

namespace mc {
namespace {
struct Fam { std::string name; u64 n; std::function<bool(u64)> run; std::string bounds; };
std::vector<Fam> fams;
bool is_thorough = false;
std::string scratch_dir;

constexpr u64 STATE_SLOTS = 1ull << 24, OUT_SLOTS = 1ull << 21;
constexpr int MAXW = 64, MAXCHUNKS = 1 << 16, MAXVIO = 64, MAXFAM = 256, MAXINFO = 32;

struct ChunkRec { int fam; u64 lo, hi; };
struct Worker {
  std::atomic<u64> beat;
  std::atomic<int> fam;      // -1 idle
  std::atomic<u64> idx, chunk_lo;
  std::atomic<int> nchunks;
  ChunkRec chunks[MAXCHUNKS];
  std::atomic<int> vio;      // pending violation for (fam, idx)
};
struct Info { char name[48]; std::atomic<u64> v; };
struct Shared {
  std::atomic<u64> next[MAXFAM], evals[MAXFAM];
  std::atomic<u64> transitions, traces, nstates, nouts;
  std::atomic<bool> stop;
  std::atomic<int> nvio;
  struct { int fam; u64 idx; u64 chunk_lo; int worker; int kind; char msg[1024]; } vio[MAXVIO];
  Worker w[MAXW];
  Info info[MAXINFO];
  std::atomic<u64> st[STATE_SLOTS], ou[OUT_SLOTS];
};
Shared* S = nullptr;
int me = 0;
std::string last_desc;

void insert(std::atomic<u64>* t, u64 slots, std::atomic<u64>& count, u64 h) {
  if (h == 0) h = 1;
  if (count.load(std::memory_order_relaxed) > slots - slots / 4) return; // saturated: a lower bound
  for (u64 i = h & (slots - 1);; i = (i + 1) & (slots - 1)) {
    u64 c = t[i].load(std::memory_order_relaxed);
    if (c == h) return;
    if (c == 0) {
      if (t[i].compare_exchange_strong(c, h)) { count++; return; }
      if (c == h) return;
    }
  }
}

std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}

/// Runs one case; returns 0 = skipped, 1 = ok, 2 = violation (msg set).
int run_one(Fam& f, u64 i, std::string& msg) {
  try {
    return f.run(i) ? 1 : 0;
  } catch (const Violation& v) { msg = v.msg;
  } catch (const std::exception& e) { msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
  } catch (...) { msg = "unexpected exception of unknown type"; }
  return 2;
}

void limits() {
  rlimit c{0, 0}; setrlimit(RLIMIT_CORE, &c);
#if !defined(__SANITIZE_ADDRESS__)
  rlimit r{6ull << 30, 6ull << 30}; setrlimit(RLIMIT_DATA, &r);
#endif
}

[[noreturn]] void worker(int id) {
  me = id;
  limits();
  Worker& w = S->w[id];
  for (size_t fi = 0; fi < fams.size(); fi++) {
    Fam& f = fams[fi];
    u64 chunk = f.n / (16 * 8); if (chunk > 2048) chunk = 2048; if (chunk < 1) chunk = 1;
    for (;;) {
      if (S->stop) _exit(0);
      u64 lo = S->next[fi].fetch_add(chunk);
      if (lo >= f.n) break;
      u64 hi = std::min(f.n, lo + chunk);
      int nc = w.nchunks.load();
      if (nc < MAXCHUNKS) { w.chunks[nc] = {int(fi), lo, hi}; w.nchunks = nc + 1; }
      w.chunk_lo = lo;
      w.fam = int(fi);
      u64 ev = 0;
      for (u64 i = lo; i < hi; i++) {
        w.idx.store(i, std::memory_order_relaxed);
        w.beat.fetch_add(1, std::memory_order_relaxed);
        std::string msg;
        int r = run_one(f, i, msg);
        if (r) ev++;
        if (r == 2) {
          int v = S->nvio.fetch_add(1);
          if (v < MAXVIO) {
            S->vio[v].fam = int(fi); S->vio[v].idx = i; S->vio[v].chunk_lo = lo; S->vio[v].worker = id; S->vio[v].kind = 0;
            snprintf(S->vio[v].msg, sizeof S->vio[v].msg, "%s", msg.c_str());
          }
          if (v >= 12) { S->stop = true; break; }
        }
        if (S->stop) break;
      }
      S->evals[fi] += ev;
    }
  }
  _exit(0);
}

/// Re-executes a list of ranges in a fresh process; the last index of the last range is the case.
/// Returns: 0 fine, 1 violation, 2 crashed, 3 hung.  Output (description + message) in out.
int replay(const std::vector<ChunkRec>& ranges, double limit_s, std::string& out) {
  int p[2]; if (pipe(p)) return 0;
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]); dup2(p[1], 2); dup2(p[1], 1);
    limits();
    std::string msg; int r = 0;
    for (size_t k = 0; k < ranges.size(); k++) {
      for (u64 i = ranges[k].lo; i < ranges[k].hi; i++) {
        bool last = k + 1 == ranges.size() && i + 1 == ranges[k].hi;
        verbose = last; msg.clear();
        r = run_one(fams[ranges[k].fam], i, msg);
      }
    }
    if (r == 2) { dprintf(1, "\n@@MSG %s\n", msg.c_str()); _exit(41); }
    _exit(40);
  }
  close(p[1]); fcntl(p[0], F_SETFL, O_NONBLOCK);
  auto t0 = std::chrono::steady_clock::now();
  int st = 0; bool hung = false;
  for (;;) {
    char b[4096]; ssize_t k;
    while ((k = read(p[0], b, sizeof b)) > 0) if (out.size() < 200000) out.append(b, size_t(k));
    if (waitpid(pid, &st, WNOHANG) == pid) { while ((k = read(p[0], b, sizeof b)) > 0) if (out.size() < 200000) out.append(b, size_t(k)); break; }
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit_s) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
    usleep(2000);
  }
  close(p[0]);
  if (hung) return 3;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 40) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 41) return 1;
  if (WIFSIGNALED(st)) out += "\n@@SIG killed by signal " + std::to_string(WTERMSIG(st));
  else out += "\n@@SIG ended with status " + std::to_string(WEXITSTATUS(st));
  return 2;
}
} // namespace

bool verbose = false;
Units units;
void each_units(const std::vector<Units>& us, const std::function<void()>& r) { for (auto& u : us) { units = u; r(); } units = Units(); }
void desc(const std::string& s) { if (verbose) dprintf(1, "%s\n", s.c_str()); }
void family(std::string name, u64 n, std::function<bool(u64)> run, std::string bounds) {
  if (fams.size() >= MAXFAM) { fprintf(stderr, "too many families\n"); _exit(5); }
  if (units.name.empty()) { fams.push_back({std::move(name), n, std::move(run), std::move(bounds)}); return; }
  auto num = [](double d) { char b[40]; snprintf(b, 40, "%g", d); return std::string(b); };
  bounds += "; in units: time x " + num(units.ts) + " + " + num(units.to) + ", value x " + num(units.vs) + " + " + num(units.vo);
  fams.push_back({name + "@" + units.name, n, [u = units, run = std::move(run)](u64 i) {
    struct Back { ~Back() { units = Units(); } } back; units = u;
    if (verbose) desc("in units: times x " + std::to_string(u.ts) + " + " + std::to_string(u.to) + ", values x " + std::to_string(u.vs) + " + " + std::to_string(u.vo) + " (numbers below are before scaling)");
    return run(i);
  }, bounds});
}
void state(u64 h) { if (!units.name.empty()) h = mix(h, hstr(units.name)); if (S) insert(S->st, STATE_SLOTS, S->nstates, h); }
void outcome(u64 h) { if (S) insert(S->ou, OUT_SLOTS, S->nouts, h); }
void transition(u64 n) { if (S) S->transitions.fetch_add(n, std::memory_order_relaxed); }
void trace(u64 n) { if (S) S->traces.fetch_add(n, std::memory_order_relaxed); }
void heartbeat() { if (S) S->w[me].beat.fetch_add(1, std::memory_order_relaxed); }
void info(const std::string& key, u64 add) {
  if (!S) return;
  for (auto& i : S->info) {
    if (!i.name[0]) strncpy(i.name, key.c_str(), 47); // benign race: same key, same bytes
    if (key == i.name) { i.v += add; return; }
  }
}
bool thorough() { return is_thorough; }
std::string scratch() { return scratch_dir; }
} // namespace mc

extern "C" __attribute__((weak)) int mc_child_main(); // a harness that starts itself as a program
int main(int argc, char** argv) {
  using namespace mc;
  if (mc_child_main && getenv("STLMC_CHILD")) return mc_child_main();
  int nw = 8; std::string outfile, rep; double cap = 700, stall = 40;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(argv[++i]); };
    if (a == "--thorough") is_thorough = true;
    else if (a == "--out") outfile = next();
    else if (a == "--workers") nw = atoi(argv[++i]);
    else if (a == "--scratch") scratch_dir = next();
    else if (a == "--cap") cap = atof(argv[++i]);
    else if (a == "--stall") stall = atof(argv[++i]);
    else if (a == "--replay") rep = next(); // fam:lo-hi,fam:lo-hi,...
  }
  S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (S == MAP_FAILED) { perror("mmap"); return 3; }
  alarm(is_thorough ? 600 : 150); // setting up the cases runs library code too: a crash or hang there must end here
  try { mc_register(); }
  catch (const std::exception& e) { printf("SETUP FAILED: %s\n", e.what()); return 4; }
  alarm(0);
  auto find = [&](const std::string& n) { for (size_t i = 0; i < fams.size(); i++) if (fams[i].name == n) return int(i); return -1; };
  if (!rep.empty()) {
    std::vector<ChunkRec> rs;
    size_t pos = 0;
    while (pos < rep.size()) {
      size_t e = rep.find(',', pos); if (e == std::string::npos) e = rep.size();
      std::string r = rep.substr(pos, e - pos); pos = e + 1;
      size_t c = r.rfind(':'), d = r.find('-', c);
      rs.push_back({find(r.substr(0, c)), strtoull(r.c_str() + c + 1, nullptr, 10), strtoull(r.c_str() + d + 1, nullptr, 10)});
      if (rs.back().fam < 0) { fprintf(stderr, "unknown family in replay\n"); return 3; }
    }
    std::string out; int r = replay(rs, 300, out);
    printf("%s\nREPLAY %s\n", out.c_str(), r == 0 ? "no violation" : r == 1 ? "violation" : r == 2 ? "crash" : "hang");
    return r ? 1 : 0;
  }
  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  // Children that die without a report are crashes of the library under test.
  std::vector<pid_t> pid(nw, 0); std::vector<u64> beat(nw, 0); std::vector<double> since(nw, 0);
  auto spawn = [&](int k) { fflush(nullptr); pid_t p = fork(); if (p == 0) { worker(k); } pid[k] = p; beat[k] = S->w[k].beat; since[k] = elapsed(); };
  for (int k = 0; k < nw; k++) { S->w[k].fam = -1; spawn(k); }
  int alive = nw, crashes = 0; bool capped = false, slow = false;
  auto record = [&](int k, int kind, const char* m) {
    if (S->w[k].fam < 0) return;
    int v = S->nvio.fetch_add(1);
    if (v >= MAXVIO) return;
    S->vio[v].fam = S->w[k].fam; S->vio[v].idx = S->w[k].idx; S->vio[v].chunk_lo = S->w[k].chunk_lo; S->vio[v].worker = k; S->vio[v].kind = kind;
    snprintf(S->vio[v].msg, 1024, "%s", m);
    if (++crashes >= 6) S->stop = true;
  };
  bool lost = false;
  while (alive > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      int k = -1; for (int j = 0; j < nw; j++) if (pid[j] == p) k = j;
      if (k < 0) continue;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; pid[k] = 0; continue; }
      std::string m = WIFSIGNALED(st) ? "crash: signal " + std::to_string(WTERMSIG(st)) : "crash: exit status " + std::to_string(WEXITSTATUS(st));
      record(k, 1, m.c_str()); lost = true;
      if (S->stop) { alive--; pid[k] = 0; } else spawn(k); // the rest of its chunk is lost: reported as not exhaustive
      continue;
    }
    usleep(3000);
    double now = elapsed();
    if (now > cap && !S->stop) { capped = true; S->stop = true; }
    for (int k = 0; k < nw; k++) {
      if (!pid[k]) continue;
      u64 b = S->w[k].beat;
      if (b != beat[k]) { beat[k] = b; since[k] = now; }
      else if (now - since[k] > stall) { // kill; the case is re-run alone with a longer limit below
        kill(pid[k], SIGKILL); waitpid(pid[k], &st, 0);
        record(k, 2, "no progress"); lost = true;
        if (S->stop) { alive--; pid[k] = 0; } else spawn(k);
      }
    }
  }
  // Confirm violations.
  struct Conf { std::string fam; u64 idx; std::string how, text, spec; };
  std::vector<Conf> conf; int unconfirmed = 0; std::string unconf;
  int nv = std::min(int(S->nvio.load()), MAXVIO);
  std::set<std::pair<int, u64>> done;
  std::vector<int> order; for (int v = 0; v < nv; v++) order.push_back(v);
  std::sort(order.begin(), order.end(), [](int a, int b) { auto &x = S->vio[a], &y = S->vio[b]; return std::make_pair(x.fam, x.idx) < std::make_pair(y.fam, y.idx); });
  for (size_t q = 0; q < order.size() && conf.size() < 10; q++) {
    auto& V = S->vio[order[q]];
    if (!done.insert({V.fam, V.idx}).second) continue;
    double lim = V.kind == 2 ? 150 : 60;
    std::vector<std::pair<std::string, std::vector<ChunkRec>>> tries;
    tries.push_back({"alone", {{V.fam, V.idx, V.idx + 1}}});
    if (V.chunk_lo != V.idx) tries.push_back({"from chunk start", {{V.fam, V.chunk_lo, V.idx + 1}}});
    std::vector<ChunkRec> all; int nc = S->w[V.worker].nchunks;
    for (int c = 0; c < nc; c++) { auto r = S->w[V.worker].chunks[c]; if (r.fam == V.fam && r.lo == V.chunk_lo) { all.push_back({V.fam, r.lo, V.idx + 1}); break; } all.push_back(r); }
    if (all.size() > 1) tries.push_back({"after the worker's earlier cases", all});
    bool ok = false;
    for (auto& t : tries) {
      std::string out; int r = replay(t.second, t.first[1] == 'l' ? lim : 400, out);
      if (r) {
        std::string spec; for (auto& c : t.second) spec += (spec.empty() ? "" : ",") + fams[c.fam].name + ":" + std::to_string(c.lo) + "-" + std::to_string(c.hi);
        std::string text = out; if (r == 3) text += "\n@@SIG no result within the time limit (hang)";
        conf.push_back({fams[V.fam].name, V.idx, t.first, text, spec}); ok = true; break;
      }
    }
    if (!ok) {
      if (V.kind == 2) slow = true; else { unconfirmed++; unconf = fams[V.fam].name + ":" + std::to_string(V.idx) + " " + V.msg; }
    }
    if (elapsed() > cap + 120 && !conf.empty()) break;
  }
  // Samples: describe first / middle / last cases of each family.
  std::vector<std::string> samples;
  for (auto& f : fams) {
    if (samples.size() >= 12 || f.n == 0) continue;
    for (u64 i = f.n / 2, tries = 0; tries < 50 && i < f.n; i++, tries++) {
      std::string out; int fd = memfd_create("s", 0); int save = dup(1); fflush(nullptr); dup2(fd, 1);
      int r = 2; std::string msg;
      if (conf.empty() && !unconfirmed && f.n > 1) { verbose = true; Shared* keep = S; S = nullptr; r = run_one(f, i, msg); S = keep; verbose = false; }
      fflush(nullptr); dup2(save, 1); close(save);
      char b[1500]; ssize_t k = pread(fd, b, sizeof b, 0); if (k > 0) out.assign(b, size_t(k)); close(fd);
      if (r == 1) { samples.push_back(f.name + "#" + std::to_string(i) + ": " + out); break; }
      if (r == 2) break;
    }
  }
  FILE* o = outfile.empty() ? stdout : fopen(outfile.c_str(), "w");
  u64 ev = 0; for (size_t i = 0; i < fams.size(); i++) ev += S->evals[i];
  fprintf(o, "{\"evaluations\": %llu, \"states\": %llu, \"transitions\": %llu, \"traces\": %llu, \"outcomes\": %llu, \"capped\": %s, \"lost\": %s, \"slow\": %s, \"unconfirmed\": %d, \"unconfirmed_text\": \"%s\", \"explore_s\": %.3f,\n",
          (unsigned long long)ev, (unsigned long long)S->nstates.load(), (unsigned long long)S->transitions.load(), (unsigned long long)S->traces.load(), (unsigned long long)S->nouts.load(),
          capped ? "true" : "false", (lost || (S->stop && !capped)) ? "true" : "false", slow ? "true" : "false", unconfirmed, esc(unconf).c_str(), elapsed());
  fprintf(o, "\"families\": [");
  for (size_t i = 0; i < fams.size(); i++)
    fprintf(o, "%s{\"name\": \"%s\", \"indices\": %llu, \"evaluations\": %llu, \"bounds\": \"%s\"}", i ? ",\n" : "", esc(fams[i].name).c_str(), (unsigned long long)fams[i].n, (unsigned long long)S->evals[i].load(), esc(fams[i].bounds).c_str());
  fprintf(o, "],\n\"info\": {");
  bool first = true; for (auto& i : S->info) if (i.name[0]) { fprintf(o, "%s\"%s\": %llu", first ? "" : ", ", i.name, (unsigned long long)i.v.load()); first = false; }
  fprintf(o, "},\n\"samples\": [");
  for (size_t i = 0; i < samples.size(); i++) fprintf(o, "%s\"%s\"", i ? ",\n" : "", esc(samples[i]).c_str());
  fprintf(o, "],\n\"violations\": [");
  for (size_t i = 0; i < conf.size(); i++)
    fprintf(o, "%s{\"family\": \"%s\", \"index\": %llu, \"how\": \"%s\", \"spec\": \"%s\", \"text\": \"%s\"}", i ? ",\n" : "", esc(conf[i].fam).c_str(), (unsigned long long)conf[i].idx, esc(conf[i].how).c_str(), esc(conf[i].spec).c_str(), esc(conf[i].text.substr(0, 6000)).c_str());
  fprintf(o, "]}\n");
  if (o != stdout) fclose(o);
  return 0;
}
