// C23: layout never matters; files parse like strings.
#include "spec.hpp"
#include <csignal>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <atomic>
#include <sys/ioctl.h>
#include <thread>
#include <unistd.h>
using mc::u64;
namespace {
using Terms = std::vector<std::string>;
Terms split(const std::string& s) { Terms r; std::string c; for (char ch : s) { if (ch == ' ') { if (!c.empty()) r.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) r.push_back(c); return r; }
bool idc(char c) { return spec::is_idc(c); }
/// May the two tokens be written without anything between them?
bool separable(const std::string& a, const std::string& b) { // tokens: parentheses, comparisons, words, numerals
  char x = a.back(), y = b.front();
  if (x == '(' || x == ')' || y == '(' || y == ')') return true;
  if (x == '<' || x == '>' || x == '=') return true; // followed by a name or numeral
  return !(idc(x) || x == '.') || !(idc(y) || y == '.');
}
std::string outcome(const spec::Out& o) { return o.ok ? spec::show(*o.s) : "rejected"; }
const Terms good{
  "( define-formula p ( > x 0 ) ) ( assert g ( until p ( <= 1.5e3 y ) ) )",
  "( assert a ( and true ( not false ) ( ( >= x 2 ) ) ) ) ( define-formula q ( xor true ( < 3 x ) ) )",
  "( define-formula p ( or ( < x 1 ) ( always ( > y 2.25 ) ) ) ) ( assert p ( iff p ( implies ( eventually p ) p ) ) )",
};
const Terms seps{"", " ", "\n", "\t", "\r\n", "\v", "\f", "\r", "  \n\t ", ";\n", "; ( not a command ) \"\n", ";;\r\n", " ;x\n;y\n ", ";\xff\xc3\xa9\x01\n", std::string("; \0 nul\n", 8), ";(assert z true)\r more\n", ";)\n\n"};
/// separators after the last token may also end the input inside a comment
const Terms ends{"", " ", "\n", "\r\n", ";", "; comment", ";)", "; (", "\n\n;;", ";x\r", " \t;(assert zz true)", "\n\n\n\n"};
std::string base(const Terms& t) { std::string r; for (auto& x : t) r += x + " "; return r; }
bool same(const std::string& text, const std::string& want, const char* what) {
  if (mc::verbose) mc::desc(spec::quote(text));
  auto o = spec::run(text);
  std::string g = outcome(o);
  if (g != want) mc::fail(std::string(what) + ": " + spec::quote(text) + " gives\n  " + g + (o.ok ? "" : ": " + o.err) + "\ninstead of\n  " + want);
  mc::state(mc::hstr(text)); mc::outcome(mc::hstr(g)); mc::trace(); return true;
}
std::string path() { return mc::scratch() + "/c23-" + std::to_string(getpid()) + ".stl"; }
bool file_same(const std::string& text) {
  if (mc::verbose) mc::desc("file containing " + spec::quote(text));
  auto p = path(); { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(text.data(), text.size()); if (!f) throw std::runtime_error("cannot write " + p); }
  auto a = spec::run(text);
  auto b = spec::guarded([&] { return signal_tl::parser::from_file(p); });
  if (outcome(a) != outcome(b)) mc::fail("the file containing " + spec::quote(text) + " gives\n  " + outcome(b) + (b.ok ? "" : ": " + b.err) + "\nand the string\n  " + outcome(a) + (a.ok ? "" : ": " + a.err));
  if (a.parse_error != b.parse_error) mc::fail("the file and the string containing " + spec::quote(text) + " are rejected in different ways: " + b.err + " / " + a.err);
  std::ifstream f(p, std::ios::binary); std::string back((std::istreambuf_iterator<char>(f)), {}); if (back != text) mc::fail("parsing a file changed it");
  mc::state(mc::hstr(text)); mc::outcome(mc::hstr(outcome(b))); mc::trace(); return true;
}
void same_outcome(const std::string& text, const std::string& what, const spec::Out& a, const spec::Out& b) {
  if (outcome(a) != outcome(b)) mc::fail(what + " containing " + spec::quote(text) + " gives\n  " + outcome(b) + (b.ok ? "" : ": " + b.err) + "\nand the string\n  " + outcome(a) + (a.ok ? "" : ": " + a.err));
  if (a.parse_error != b.parse_error) mc::fail(what + " and the string containing " + spec::quote(text) + " are rejected in different ways: " + b.err + " / " + a.err);
}
/// The text as a stream: written into a pipe or FIFO by a process of its own, in the given pieces, the
/// next piece only once the reader has taken the one before.
enum Kind { PIPE_FD, FIFO, STDIN, FIFO_LINK, KINDS };
const char* const kind_name[] = {"a pipe under /proc/self/fd", "a FIFO", "/dev/stdin", "a symbolic link to a FIFO"};
bool stream_same(Kind k, const std::vector<std::string>& pieces) {
  std::string text; for (auto& p : pieces) text += p;
  std::string what = kind_name[k]; what += " that delivers " + std::to_string(pieces.size()) + " piece(s)";
  if (mc::verbose) { std::string s; for (auto& p : pieces) s += " " + spec::quote(p.size() > 400 ? p.substr(0, 400) : p); mc::desc(what + s); }
  auto a = spec::run(text); // the same text as a string
  std::string base = mc::scratch() + "/c23-s" + std::to_string(getpid()), fifo = base + ".fifo", link = base + ".link";
  int fd[2] = {-1, -1}; std::string path;
  if (k == PIPE_FD || k == STDIN) { if (pipe2(fd, O_CLOEXEC)) throw std::runtime_error("pipe"); path = k == STDIN ? "/dev/stdin" : "/proc/self/fd/" + std::to_string(fd[0]); }
  else { unlink(fifo.c_str()); unlink(link.c_str()); if (mkfifo(fifo.c_str(), 0600) || symlink(fifo.c_str(), link.c_str())) throw std::runtime_error("mkfifo"); path = k == FIFO ? fifo : link; }
  if (fd[0] >= 0 && access(path.c_str(), R_OK) && k != STDIN) { close(fd[0]); close(fd[1]); return false; } // no /proc here
  int old = -1; if (k == STDIN) { old = dup(0); dup2(fd[0], 0); }
  bool fits = true; for (auto& p : pieces) fits &= p.size() <= 4096;
  std::atomic<bool> over{false};
  std::thread writer([&] {
    int w = fd[1]; if (w < 0) { while ((w = open(fifo.c_str(), O_WRONLY | O_NONBLOCK)) < 0 && !over) std::this_thread::yield(); if (w < 0) return; fcntl(w, F_SETFL, 0); }
    for (size_t i = 0; i < pieces.size(); i++) {
      auto& p = pieces[i]; for (size_t n = 0; n < p.size();) { ssize_t r = write(w, p.data() + n, p.size() - n); if (r <= 0) { close(w); return; } n += r; }
      if (fits && i + 1 < pieces.size()) for (int q = 1; q > 0 && !over;) { if (ioctl(w, FIONREAD, &q) < 0) break; if (q > 0) std::this_thread::yield(); }
    }
    close(w);
  });
  spec::Out b; std::exception_ptr bad;
  try { b = spec::guarded([&] { return signal_tl::parser::from_file(path); }); } catch (...) { bad = std::current_exception(); }
  over = true;
  if (fd[0] >= 0) close(fd[0]);
  if (k == STDIN) { if (old >= 0) { dup2(old, 0); close(old); } else close(0); }
  writer.join();
  if (fd[0] < 0) { unlink(fifo.c_str()); unlink(link.c_str()); }
  if (bad) std::rethrow_exception(bad);
  same_outcome(text, what, a, b);
  mc::state(mc::mix(mc::hstr(text), k)); mc::outcome(mc::hstr(outcome(b))); mc::transition(pieces.size()); mc::trace(); return true;
}
const Terms file_texts{
  "", " ", "; only a comment", "(assert a true)", "(assert a (and true (< x 5)))\n", "(define-formula p (> x 0.5)) ; p\n(assert g (until p (<= 1.5e3 y)))\n",
  "(assert a", ")", "(assert a b)", std::string("(assert a true)\0", 16), "\xef\xbb\xbf(assert a true)", "(assert a true)(assert a false)"};
} // namespace
void mc_register() {
  signal(SIGPIPE, SIG_IGN);
  bool th = mc::thorough();
  struct Sp { Terms t; std::string want; };
  auto S = std::make_shared<std::vector<Sp>>(); size_t L = 0;
  for (auto& g : good) { Sp s{split(g), ""}; auto w = spec::parse(g); if (w.kind != spec::Result::ACCEPT) throw std::runtime_error("oracle: " + w.why); s.want = spec::want(w); L = std::max(L, s.t.size() + 1); S->push_back(s); }
  u64 ns = S->size(), nq = seps.size(), ne = ends.size();
  auto lay = [](const Terms& t, const std::function<std::string(size_t)>& gap) -> std::string { // gap(0) before the first token, gap(n) after the last; "!" = impossible
    std::string r = gap(0); for (size_t i = 0; i < t.size(); i++) { r += t[i]; if (i + 1 < t.size()) { std::string g = gap(i + 1); if (g.empty() && !separable(t[i], t[i + 1])) return "!"; r += g; } } return r + gap(t.size()); };
  // one separator everywhere, tail from ends
  mc::family("uniform", ns * nq * ne, [=](u64 i) {
    auto& s = (*S)[i % ns]; const std::string& q = seps[i / ns % nq]; const std::string& e = ends[i / ns / nq];
    auto t = lay(s.t, [&](size_t k) { return k == s.t.size() ? e : k && q.empty() && !separable(s.t[k - 1], s.t[k]) ? std::string(" ") : q; }); return same(t, s.want, "layout changed the result");
  }, "17 separators in every gap x 12 endings of 3 specifications");
  // any two gaps (also none and the same), any separators, in two surroundings: spaced out and as tight as possible
  mc::family("two-gaps", ns * 2 * L * L * nq * nq, [=](u64 i) {
    auto& s = (*S)[i % ns]; i /= ns; bool tight = i % 2; i /= 2; u64 a = i % L, b = i / L % L; i /= L * L; if (a > b || b > s.t.size()) return false; const std::string &x = seps[i % nq], &y = seps[i / nq]; if (a == b && i % nq != i / nq) return false;
    auto t = lay(s.t, [&](size_t k) { if (k == a) return x; if (k == b) return y; return tight && (k == 0 || k == s.t.size() || separable(s.t[k - 1], s.t[k])) ? std::string() : std::string(" "); });
    if (t == "!") return false;
    return same(t, s.want, "layout changed the result");
  }, "every pair of gaps x every pair of 17 separators, otherwise spaced or tight, 3 specifications");
  if (th) mc::family("three-gaps", ns * L * L * L * nq * nq * nq, [=](u64 i) {
    auto& s = (*S)[i % ns]; i /= ns; u64 a = i % L, b = i / L % L, c = i / L / L % L; i /= L * L * L; if (a >= b || b >= c || c > s.t.size()) return false; u64 x = i % nq, y = i / nq % nq, z = i / nq / nq;
    auto t = lay(s.t, [&](size_t k) { return k == a ? seps[x] : k == b ? seps[y] : k == c ? seps[z] : k == 0 || k == s.t.size() || separable(s.t[k - 1], s.t[k]) ? std::string() : std::string(" "); }); if (t == "!") return false;
    return same(t, s.want, "layout changed the result");
  }, "every triple of gaps x every triple of 17 separators, otherwise tight");
  // comments: contents and lengths
  const std::string cc(std::string(";()\r\t\"<a5 .-\\\xff\xe2") + '\0');
  int n = th ? 5 : 4; u64 m = 1; for (int k = 0; k < n; k++) m *= cc.size() + 1;
  mc::family("comment-contents", m * 3, [=](u64 i) {
    u64 where = i % 3; i /= 3; std::string c; bool end = false; for (int k = 0; k < n; k++) { u64 d = i % (cc.size() + 1); i /= cc.size() + 1; if (!d) end = true; else { if (end) return false; c += cc[d - 1]; } }
    static const std::string want = spec::want(spec::parse("(assert a (and true (< x 5)))"));
    return same(where == 0 ? ";" + c + "\n(assert a (and true (< x 5)))" : where == 1 ? "(assert a (and;" + c + "\ntrue;" + c + "\n(< x;" + c + "\n5)))" : "(assert a (and true (< x 5)));" + c, want, "a comment changed the result");
  }, "comments of up to " + std::to_string(n) + " characters over 16, before, inside and at the end");
  // amounts
  mc::family("amounts", nq * 12 * 4, [=](u64 i) {
    static const u64 amt[12] = {1, 2, 3, 7, 16, 63, 64, 255, 1000, 4096, 65536, 1000000}; const std::string& q = seps[i % nq]; u64 n = amt[i / nq % 12], where = i / nq / 12; if (q.empty()) return false; std::string r; for (u64 k = 0; k < n; k++) r += q;
    static const std::string want = spec::want(spec::parse("(assert a (and true (< x 5)))"));
    return same(where == 0 ? r + "(assert a (and true (< x 5)))" : where == 1 ? "(assert a (and true" + r + "(< x 5)))" : where == 2 ? "(assert a (and true (< x" + r + "5)))" : "(assert a (and true (< x 5)))" + r, want, "layout changed the result");
  }, "each separator repeated 1 to 1000000 times in 4 places");
  // no commands at all
  mc::family("empty", nq * nq * ne, [=](u64 i) { static const std::string want = spec::want(spec::parse("")); return same(seps[i % nq] + seps[i / nq % nq] + ends[i / nq / nq], want, "layout without commands"); }, "only layout");
  // files
  mc::family("file-layouts", ns * 2 * L * nq * ne, [=](u64 i) {
    auto& s = (*S)[i % ns]; i /= ns; bool tight = i % 2; i /= 2; u64 a = i % L; i /= L; if (a > s.t.size()) return false; const std::string& x = seps[i % nq]; const std::string& e = ends[i / nq];
    auto t = lay(s.t, [&](size_t k) { if (k == a) return x; if (k == s.t.size()) return e; return tight && (k == 0 || separable(s.t[k - 1], s.t[k])) ? std::string() : std::string(" "); }); if (t == "!") return false; return file_same(t);
  }, "files: every gap x 17 separators x 12 endings, spaced or tight, 3 specifications");
  static const std::string chars("\r\n\x1a\xef ;)(5x", 10);
  mc::family("file-edits", ns * 2 * 400 * (2 + chars.size() + 1), [=](u64 i) {
    std::string s = base((*S)[i % ns].t); i /= ns; u64 where = i % 2; i /= 2; u64 at = i % 400, e = i / 400; if (at > s.size()) return false;
    if (e == 0) { s = where ? s.substr(at) : s.substr(0, at); } else if (where) { if (at >= s.size()) return false; if (e == 1) s.erase(at, 1); else s[at] = e == 2 ? '\0' : chars[e - 3]; } else { if (e == 1) return false; s.insert(at, 1, e == 2 ? '\0' : chars[e - 3]); }
    return file_same(s);
  }, "files: every prefix and suffix, and 11 characters inserted or replaced at every position, of 3 specifications");
  mc::family("file-sizes", 60, [=](u64 i) {
    static const size_t sz[20] = {0, 1, 2, 511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 131072, 1 << 20, (1 << 20) + 1, 3000000, 4096 * 3};
    std::string t = "(define-formula p (< x 5)) (assert a (not p))"; size_t n = sz[i % 20]; if (n < t.size()) t = t.substr(0, n); else t.insert(i / 20 % 3 == 0 ? 0 : i / 20 % 3 == 1 ? t.size() : 20, n - t.size(), ' ');
    return file_same(t);
  }, "files of 20 sizes around block boundaries, padded in 3 places");
  mc::family("file-starts", 256 * 256 * 2, [=](u64 i) {
    std::string t{char(i & 255), char(i >> 8 & 255)}; t += i >> 16 ? "\n" : ""; return file_same(t + "(define-formula p (< x 5)) (assert a (not p))\n");
  }, "files that begin with any two characters, on a line of their own or not");
  mc::family("file-ends", 256 * 256, [=](u64 i) { return file_same(std::string("(define-formula p (< x 5)) (assert a (not p))") + char(i & 255) + char(i >> 8)); }, "files that end in any two characters");
  mc::family("large-files", 3 * 3 * 2, [=](u64 i) {
    static const size_t sz[3] = {(size_t(1) << 22) + 1, (size_t(1) << 24) + 1, (size_t(1) << 26) + 1}; std::string a = "(define-formula p (< x 5)) ", b = "(assert a (not p))"; size_t n = sz[i % 3]; u64 w = i / 3 % 3; bool bad = i / 9;
    if (i % 3 == 2 && !mc::thorough()) return false;
    std::string t; t.reserve(n + 100); t += a; if (w == 0) t.append(n, ' '); else if (w == 1) { t += ';'; t.append(n, 'x'); t += '\n'; } else while (t.size() < n) t += "; (assert a p)                                                  \n";
    t += bad ? ")" : b; if (mc::verbose) mc::desc(std::to_string(t.size()) + " bytes: " + a + "... " + t.substr(t.size() - 20));
    auto p = path(); { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(t.data(), t.size()); if (!f) throw std::runtime_error("cannot write " + p); }
    mc::heartbeat(); auto o1 = spec::run(t); mc::heartbeat(); auto o2 = spec::guarded([&] { return signal_tl::parser::from_file(p); }); unlink(p.c_str());
    if (outcome(o1) != outcome(o2)) mc::fail("a file of " + std::to_string(t.size()) + " bytes gives\n  " + outcome(o2) + "\nand the string\n  " + outcome(o1));
    if (o1.ok == bad) mc::fail("a text of " + std::to_string(t.size()) + " bytes of layout is " + (bad ? "accepted" : "rejected"));
    mc::state(i); mc::trace(); return true;
  }, std::string("files of more than 2^22") + (th ? ", 2^24 and 2^26" : " and 2^24") + " bytes, what matters at both ends");
  // how a file is named and what kind of thing it is
  static const Terms fnames{"plain.stl", "with space.stl", "-", "--help", "*?[a]", "\xc3\xa9\xe2\x82\xac.stl", "\xff\xfe", "new\nline", "a;b(c)", "%s%n%d", "no-extension", ".hidden", "x.gz", "CON", "~", "$HOME", "back\\slash", "\"quoted\"", std::string(255, 'n')};
  mc::family("file-names", fnames.size() * 12 * file_texts.size(), [=](u64 i) {
    const std::string& name = fnames[i % fnames.size()]; i /= fnames.size(); u64 how = i % 12; const std::string& text = file_texts[i / 12]; namespace fs = std::filesystem;
    fs::path dir = mc::scratch() + "/c23-d" + std::to_string(getpid()), cwd = fs::current_path(); fs::remove_all(dir); fs::create_directories(dir / "sub");
    { std::ofstream f(dir / name, std::ios::binary); f.write(text.data(), text.size()); f.close(); if (!f) throw std::runtime_error("cannot write the file"); }
    fs::path p; const char* kind = ""; bool enter = false;
    switch (how) {
      case 0: kind = "absolute path"; p = dir / name; break;
      case 1: kind = "relative path"; enter = true; p = name; break;
      case 2: kind = "path with ./"; enter = true; p = "./" + name; break;
      case 3: kind = "path with .."; p = (dir / "sub").string() + "/../" + name; break;
      case 4: kind = "doubled slashes"; p = dir.string() + "//" + name; break;
      case 5: kind = "symbolic link"; p = dir / "sub" / "link"; fs::create_symlink(dir / name, p); break;
      case 6: kind = "symbolic link to a symbolic link"; fs::create_symlink(dir / name, dir / "sub" / "l1"); p = dir / "sub" / "l2"; fs::create_symlink("l1", p); break;
      case 7: kind = "hard link"; p = dir / "sub" / "hard"; fs::create_hard_link(dir / name, p); break;
      case 8: kind = "read-only file"; p = dir / name; fs::permissions(p, fs::perms::owner_read); break;
      case 10: kind = "path through a linked directory and .."; fs::create_directories(dir / "sub" / "deep"); fs::rename(dir / name, dir / "sub" / name); fs::create_directory_symlink(dir / "sub" / "deep", dir / "l"); p = (dir / "l").string() + "/../" + name; break;
      case 11: kind = "path through a linked directory"; fs::create_directory_symlink(".", dir / "l"); enter = true; p = "l/" + name; break;
      default: kind = "unlinked file under /proc/self/fd"; break;
    }
    std::string what = std::string("the file named ") + spec::quote(name) + " (" + kind + ")"; if (mc::verbose) mc::desc(what + " containing " + spec::quote(text));
    int fd = -1; if (how == 9) { fd = open((dir / name).c_str(), O_RDONLY | O_CLOEXEC); p = "/proc/self/fd/" + std::to_string(fd); fs::remove(dir / name); }
    auto a = spec::run(text); spec::Out b;
    if (enter) fs::current_path(dir);
    try { b = spec::guarded([&] { return signal_tl::parser::from_file(p); }); } catch (...) { fs::current_path(cwd); throw; }
    fs::current_path(cwd); if (fd >= 0) close(fd); fs::remove_all(dir);
    same_outcome(text, what, a, b); mc::state(mc::mix(mc::hstr(text), mc::mix(mc::hstr(name), how))); mc::outcome(mc::hstr(outcome(b))); mc::trace(); return true;
  }, "19 file names x 12 ways to name the file x 12 texts");
  {
    static std::vector<std::pair<u64, std::string>> st; st.clear(); u64 n = 0; for (auto& t : file_texts) { st.push_back({n, t}); n += t.size() * t.size() + 2 * t.size() + 1; }
    // the text in one piece, or cut in any two places
    mc::family("streams", n * KINDS, [=](u64 i) {
      Kind k = Kind(i % KINDS); i /= KINDS; size_t w = 0; while (w + 1 < st.size() && st[w + 1].first <= i) w++; i -= st[w].first; const std::string& t = st[w].second; size_t a = i % (t.size() + 1), b = i / (t.size() + 1); if (a > b) return false;
      if (!mc::thorough() && k != PIPE_FD && b != t.size()) return false;
      std::vector<std::string> p; if (a) p.push_back(t.substr(0, a)); if (b > a) p.push_back(t.substr(a, b - a)); if (b < t.size()) p.push_back(t.substr(b)); return stream_same(k, p);
    }, std::string("12 texts read from a pipe, delivered in one piece or cut in any one ") + (th ? "or two places" : "place (two places for an anonymous pipe)") + ", over 4 kinds of pipe");
    mc::family("stream-sizes", 20 * 5 * KINDS, [=](u64 i) {
      Kind k = Kind(i % KINDS); i /= KINDS; static const size_t sz[20] = {1, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131072, (1 << 20) + 1, 3000000}; size_t n = sz[i % 20], cut = i / 20;
      std::string t = "(define-formula p (< x 5)) (assert a (not p))"; if (n < t.size()) t = t.substr(0, n); else t.insert(20, n - t.size(), ' ');
      static const size_t step[5] = {0, 4096, 1000, 4095, 65536}; std::vector<std::string> p; size_t d = step[cut] ? step[cut] : t.size(); if (t.size() / d > 1500) return false; for (size_t at = 0; at < t.size(); at += d) p.push_back(t.substr(at, d));
      return stream_same(k, p);
    }, "texts of 20 sizes around block boundaries from 4 kinds of pipe, in pieces of 5 sizes");
    mc::family("bytewise", file_texts.size() * KINDS, [=](u64 i) { std::vector<std::string> p; for (char c : file_texts[i / KINDS]) p.push_back(std::string(1, c)); return stream_same(Kind(i % KINDS), p); }, "12 texts delivered byte by byte from 4 kinds of pipe");
  }
  mc::family("empty-devices", 1, [=](u64 i) { std::string p = "/dev/null"; auto o = spec::guarded([&] { return signal_tl::parser::from_file(p); }); if (mc::verbose) mc::desc(p); auto a = spec::run(""); same_outcome("", p, a, o); mc::state(i); mc::trace(); return true; }, "/dev/null");
  mc::family("missing-files", 11, [=](u64 i) {
    std::string d = mc::scratch() + "/c23-none-" + std::to_string(getpid()); namespace fs = std::filesystem;
    fs::path p; switch (i) { case 0: p = d; break; case 1: p = d + "/x.stl"; break; case 2: p = ""; break; case 3: p = mc::scratch(); break; case 4: p = d + "; (assert a true)"; break; case 5: p = mc::scratch() + "/"; break; case 6: p = "(assert a true)"; break; case 7: p = std::string(5000, 'x'); break; case 8: p = d + "-loop"; unlink(p.c_str()); if (symlink(p.c_str(), p.c_str())) throw std::runtime_error("symlink"); break; case 9: p = d + "-dangling"; unlink(p.c_str()); if (symlink("/nonexistent/spec.stl", p.c_str())) throw std::runtime_error("symlink"); break; default: { p = d + "-socket"; unlink(p.c_str()); int s = socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un u{}; u.sun_family = AF_UNIX; if (p.string().size() >= sizeof u.sun_path) return false; p.string().copy(u.sun_path, sizeof u.sun_path - 1); if (s < 0 || bind(s, (sockaddr*)&u, sizeof u)) throw std::runtime_error("bind"); close(s); } }
    auto o = spec::guarded([&] { return signal_tl::parser::from_file(p); });
    if (mc::verbose) mc::desc("file " + p.string());
    if (o.ok) mc::fail("a file that does not exist, " + p.string() + ", is parsed as " + spec::show(*o.s));
    mc::state(i); mc::trace(); return true;
  }, "11 paths that are no readable file");
}
