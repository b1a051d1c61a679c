// a model of what shards of appended text, annotations and erasures must show to a reader
#ifndef MODEL_H
#define MODEL_H
#include "drivers/drv.h"
#include <algorithm>
#include <memory>
#include "src/featurizer.h"
#include "src/tokenizer.h"
#include "src/warren.h"
using namespace cottontail;
#ifndef TEXTS
#define TEXTS 4 // text queries per comparison
#endif
static Drv D;
static std::string LOG; // the history so far
typedef std::pair<addr, addr> I;
struct Ann { std::string f; addr p, q; fval v; };
static const char *WORDS[] = {"alpha", "be", "Cat", "dOg", "echo", "x1", "9", "Zed", "o"};
static const int NW = 9;
static const char *FEATS[] = {"doc:", "line:", "mark:"};
static bool alnum(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c |= 32; return s; }
struct Tok { std::string w; size_t a, b; };
static std::vector<Tok> toks(const std::string &s) {
  std::vector<Tok> r;
  for (size_t i = 0; i < s.size();) {
    if (!alnum(s[i])) { i++; continue; }
    size_t j = i;
    while (j < s.size() && alnum(s[j])) j++;
    r.push_back({s.substr(i, j - i), i, j});
    i = j;
  }
  return r;
}
// one committed transaction
struct Shard { addr base = 0; std::string text; std::vector<Tok> tok; std::vector<Ann> anns; std::vector<I> erased; };
static bool same(const Ann &a, const Ann &b) { return a.p == b.p && a.q == b.q && (a.v == b.v || (a.v != a.v && b.v != b.v)); }
static std::string show(const std::vector<Ann> &v) {
  std::string s = "{";
  for (size_t i = 0; i < v.size() && i < 25; i++) s += (i ? " " : "") + ("(" + S(v[i].p) + "," + S(v[i].q) + ":" + std::to_string(v[i].v) + ")");
  return s + "}";
}
// minimal intervals of the union; on a tie the later shard's
static std::vector<Ann> minimal(std::vector<Ann> v) {
  std::vector<Ann> r;
  for (size_t i = 0; i < v.size(); i++) {
    bool keep = true;
    for (size_t j = 0; j < v.size() && keep; j++) {
      if (j == i) continue;
      bool eq = v[j].p == v[i].p && v[j].q == v[i].q;
      if (eq ? j > i : (v[i].p <= v[j].p && v[j].q <= v[i].q)) keep = false;
    }
    if (keep) r.push_back(v[i]);
  }
  std::sort(r.begin(), r.end(), [](const Ann &a, const Ann &b) { return a.p < b.p; });
  return r;
}
struct View { std::vector<std::shared_ptr<Shard>> shards; };
// the minimal intervals of everything, without the erased ones; upper: the minimal intervals of what is not
// erased (they differ only where an erased interval lies inside one that is not: see the known finding)
static std::vector<Ann> expect(const View &v, const std::string &f, std::vector<Ann> *upper = nullptr) {
  std::vector<Ann> all, left;
  for (auto &s : v.shards) {
    for (size_t i = 0; i < s->tok.size(); i++) {
      const std::string &w = s->tok[i].w;
      bool up = false;
      for (size_t k = 1; k < w.size(); k++) up = up || (w[k] >= 'A' && w[k] <= 'Z');
      if (lower(w) == f || (up && w == f)) all.push_back({f, s->base + (addr)i, s->base + (addr)i, 0});
    }
    for (auto &a : s->anns) if (a.f == f) all.push_back(a);
  }
  auto gone = [&](const Ann &a) {
    for (auto &s : v.shards) for (auto &e : s->erased) if (e.first <= a.p && a.q <= e.second) return true;
    return false;
  };
  std::vector<Ann> r;
  for (auto &a : minimal(all)) if (!gone(a)) r.push_back(a);
  if (upper != nullptr) {
    for (auto &a : all) if (!gone(a)) left.push_back(a);
    *upper = minimal(left);
  }
  return r;
}
static std::vector<Ann> actual(std::shared_ptr<Warren> w, std::shared_ptr<Featurizer> fz, const std::string &f) {
  std::vector<Ann> r;
  std::unique_ptr<Hopper> h = w->idx()->hopper(fz->featurize(f));
  addr p, q; fval v;
  for (h->tau(minfinity + 1, &p, &q, &v); p < maxfinity; h->tau(p + 1, &p, &q, &v)) {
    r.push_back({f, p, q, v});
    if (r.size() > 3000) break;
  }
  return r;
}
static std::string trim(const std::string &s) {
  size_t a = 0, b = s.size();
  while (a < b && !alnum(s[a])) a++;
  while (b > a && !alnum(s[b - 1])) b--;
  return s.substr(a, b - a);
}
// the text of addresses p..q, outer separators dropped
static std::string text(const View &v, addr p, addr q) {
  std::string all; addr lo = maxfinity, hi = minfinity;
  size_t a = std::string::npos, b = 0;
  for (auto &s : v.shards) {
    for (size_t i = 0; i < s->tok.size(); i++) {
      addr x = s->base + (addr)i;
      if (x < p || x > q) continue;
      if (a == std::string::npos) a = all.size() + s->tok[i].a;
      b = all.size() + s->tok[i].b;
    }
    all += s->text;
  }
  return a == std::string::npos ? "" : all.substr(a, b - a);
}
static bool BAD;
static void bad(const std::string &x) { if (!BAD) D.fail(x + " after" + (LOG.size() > 3000 ? " ..." + LOG.substr(LOG.size() - 3000) : LOG)); BAD = true; }
static void compare(std::shared_ptr<Featurizer> fz, std::shared_ptr<Warren> w, const View &v, const std::string &who, bool deep) {
  D.count("eval");
  std::vector<std::string> fs(FEATS, FEATS + 3);
  for (int i = 0; i < NW; i++) { fs.push_back(WORDS[i]); if (lower(WORDS[i]) != WORDS[i]) fs.push_back(lower(WORDS[i])); }
  addr lo = 0, hi = 0;
  for (auto &s : v.shards) hi = std::max(hi, s->base + (addr)s->tok.size());
  for (auto &f : fs) {
    if (!deep && !D.chance(1, 3)) continue;
    std::vector<Ann> u, e = expect(v, f, &u), a = actual(w, fz, f);
    size_t x = 0, y = 0;
    bool ok = true;
    for (size_t i = 0; ok && i < a.size(); i++) { // e within a within u
      if (x < e.size() && same(e[x], a[i])) x++;
      while (y < u.size() && !same(u[y], a[i])) y++;
      ok = y++ < u.size();
    }
    if (!ok || x < e.size()) { bad(who + ": feature " + f + " answers " + show(a) + ", expected " + show(e)); return; }
  }
  int n = TEXTS;
  for (int k = 0; k < n; k++) {
    addr p = D.range(-1, hi + 1), q = p + D.below(k % 3 == 0 ? 2 : hi + 3);
    if (D.chance(1, 12)) q = p - 1;
    if (D.chance(1, 20)) q = maxfinity - 1;
    if (D.chance(1, 20)) q = maxfinity;
    if (D.chance(1, 20)) p = minfinity;
    std::string t = w->txt()->translate(p, q), x = trim(t), e = p <= q ? text(v, p, q) : "";
    if (x != e || (p > q && t != "")) { bad(who + ": text of [" + S(p) + "," + S(q) + "] is \"" + x + "\", expected \"" + e + "\""); return; }
  }
  addr n0 = 0, first = maxfinity, last = minfinity;
  for (auto &s : v.shards) { n0 += s->tok.size(); if (s->tok.size()) { first = std::min(first, s->base); last = std::max(last, s->base + (addr)s->tok.size() - 1); } }
  if (w->txt()->tokens() != n0) { bad(who + ": " + S(w->txt()->tokens()) + " tokens, expected " + S(n0)); return; }
  addr rp = -5, rq = -5;
  bool got = w->txt()->range(&rp, &rq);
  if (got != (n0 > 0) || (got && (rp != first || rq != last))) { bad(who + ": address range [" + S(rp) + "," + S(rq) + "], expected [" + S(first) + "," + S(last) + "]"); return; }
}
static std::string gentext() {
  static const char *SEP[] = {" ", "  ", ", ", "\n", "\t", "-", ". ", "!? "};
  std::string s;
  int n = D.chance(1, 10) ? 0 : D.chance(1, 8) ? (int)D.range(200, 900) : (int)D.range(1, 9);
  if (D.chance(1, 4)) s += SEP[D.below(8)];
  for (int i = 0; i < n; i++) s += std::string(WORDS[D.below(NW)]) + (i + 1 < n || D.chance(1, 2) ? SEP[D.below(8)] : "");
  if (n == 0 && D.chance(1, 2)) s += D.chance(1, 2) ? "..." : "";
  return s;
}
static std::string shortly(const std::string &s) { return s.size() > 40 ? s.substr(0, 30) + "...[" + std::to_string(s.size()) + "]" : s; }
#endif
