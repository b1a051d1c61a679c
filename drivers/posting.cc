// posting lists: building (PART 1), merging and erasing (PART 2), storing and loading (PART 3)
#include "drivers/drv.h"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>
#include "src/array_hopper.h"
#include "src/compressor.h"
#include "src/simple_posting.h"
using namespace cottontail;
#ifndef PART
#define PART 1
#endif
static Drv D;
struct T { addr p, q; fval v; };
typedef std::shared_ptr<SimplePosting> SP;
static std::string num(fval v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
static std::string show(const std::vector<T> &v) {
  std::string s = "{";
  for (size_t i = 0; i < v.size() && i < 30; i++) s += (i ? " " : "") + ("(" + S(v[i].p) + "," + S(v[i].q) + ":" + num(v[i].v) + ")");
  return s + (v.size() > 30 ? "..." : "") + "}";
}
static bool same(const std::vector<T> &a, const std::vector<T> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].p != b[i].p || a[i].q != b[i].q || !(a[i].v == b[i].v)) return false;
  return true;
}
// everything a posting says it holds
static std::vector<T> dump(SP s) {
  std::vector<T> r;
  for (size_t i = 0; i < s->size(); i++) {
    T t{-77, -77, -77};
    if (!s->get(i, &t.p, &t.q, &t.v)) { t.p = -99; }
    r.push_back(t);
  }
  addr p = 5, q = 6; fval v = 7;
  if (s->get(s->size(), &p, &q, &v)) r.push_back({p, q, v});
  return r;
}
// and what a stream over it answers
static std::vector<T> stream(SP s) {
  std::vector<T> r;
  if (s->size() == 0) return r;
  std::unique_ptr<Hopper> h = ArrayHopper::make(s);
  T t;
  for (h->tau(minfinity + 1, &t.p, &t.q, &t.v); t.p < maxfinity; h->tau(t.p + 1, &t.p, &t.q, &t.v)) {
    r.push_back(t);
    if (r.size() > s->size() + 5) break;
  }
  return r;
}
static std::shared_ptr<SimplePostingFactory> factory(const std::string &pc = "post", const std::string &fc = "tfdf") {
  return SimplePostingFactory::make(Compressor::make(pc, ""), Compressor::make(fc, ""));
}
static fval val(int kind) {
  if (kind == 0) return 0.0;
  static const fval w[] = {0.0, 1.0, -1.0, 2.5, 1e300, -0.0, 5e-324, 3.0};
  return kind == 1 ? w[D.below(8)] : (fval)D.below(1000);
}
// minimal intervals; values of intervals given more than once: see each use
static bool minimal(const std::vector<T> &all, const T &t) {
  for (auto &o : all)
    if (o.p >= t.p && o.q <= t.q && (o.p != t.p || o.q != t.q)) return false;
  return true;
}
static std::vector<T> gclist(int n, addr lo, int spread, int kind, bool pointy) {
  std::vector<T> r;
  addr p = lo + D.below(spread), q = p - 1;
  for (int i = 0; i < n; i++) {
    q = std::max(q + 1, p + (pointy ? 0 : D.below(spread)));
    if (pointy) q = p;
    r.push_back({p, q, val(kind)});
    p += 1 + D.below(spread);
  }
  return r;
}
static SP build(std::shared_ptr<SimplePostingFactory> f, addr feature, const std::vector<T> &v) {
  SP s = f->posting_from_feature(feature);
  for (auto &t : v) s->push(t.p, t.q, t.v);
  return s;
}
static void part1() {
  auto f = factory();
  for (long r = 0; r < D.n(4000, 60000); r++) {
    // token runs
    std::vector<TokRecord> t;
    std::map<addr, std::set<addr>> want;
    int nf = 1 + D.below(4), n = D.below(r % 10 ? 12 : 300);
    addr base = D.chance(1, 10) ? -50 : D.chance(1, 5) ? maxfinity - 4000 : 0;
    for (int i = 0; i < n; i++) {
      addr ft = D.chance(1, 9) ? maxfinity - D.below(2) : D.below(nf) - 1;
      addr a = base + D.below(n * 2);
      t.emplace_back(ft, a);
      want[ft].insert(a);
    }
    std::sort(t.begin(), t.end(), [](const TokRecord &a, const TokRecord &b) { return a.feature < b.feature || (a.feature == b.feature && a.pq < b.pq); });
    std::string what = "tokens";
    for (size_t i = 0; i < t.size() && i < 40; i++) what += " " + S(t[i].feature) + "@" + S(t[i].pq);
    D.at(what);
    D.count("eval");
    auto it = t.begin();
    for (auto &w : want) {
      SP s = f->posting_from_tokens(&it, t.end());
      std::vector<T> e;
      for (addr a : w.second) e.push_back({a, a, 0.0});
      if (s == nullptr) { D.fail(what + ": no posting for feature " + S(w.first)); break; }
      if (s->feature() != w.first) D.fail(what + ": posting for feature " + S(s->feature()) + ", expected " + S(w.first));
      else if (!same(dump(s), e)) D.fail(what + ": feature " + S(w.first) + " holds " + show(dump(s)) + ", expected " + show(e));
      else if (!same(stream(s), e)) D.fail(what + ": a stream of feature " + S(w.first) + " gives " + show(stream(s)) + ", expected " + show(e));
      if (e.size() > 2) D.nontrivial(what + S(w.first));
    }
    if (it != t.end()) D.fail(what + ": tokens left over after the last feature");
    if (f->posting_from_tokens(&it, t.end()) != nullptr) D.fail(what + ": a posting out of nothing");
  }
  for (long r = 0; r < D.n(6000, 90000); r++) {
    std::vector<Annotation> t;
    int nf = 1 + D.below(3), n = D.below(r % 10 ? 12 : 100), kind = D.below(3), wide = D.below(5);
    for (int i = 0; i < n; i++) {
      addr p = D.below(n * 2), q = p + D.below(wide + 1);
      if (D.chance(1, 12)) q = p - 1 - D.below(3);
      if (D.chance(1, 5) && t.size()) { p = t.back().p; if (D.chance(1, 2)) q = t.back().q; }
      t.emplace_back(D.below(nf), p, q, val(kind));
    }
    std::sort(t.begin(), t.end(), [](const Annotation &a, const Annotation &b) {
      return a.feature < b.feature || (a.feature == b.feature && (a.q < b.q || (a.q == b.q && a.p > b.p))); });
    std::string what = "annotations";
    std::map<addr, std::vector<T>> in;
    for (size_t i = 0; i < t.size(); i++) {
      if (i < 40) what += " " + S(t[i].feature) + "@(" + S(t[i].p) + "," + S(t[i].q) + ":" + num(t[i].v) + ")";
      auto &l = in[t[i].feature];
      if (t[i].p <= t[i].q) l.push_back({t[i].p, t[i].q, t[i].v});
    }
    D.at(what);
    D.count("eval");
    auto it = t.begin();
    for (auto &w : in) {
      SP s = f->posting_from_annotations(&it, t.end());
      if (s == nullptr) { D.fail(what + ": no posting for feature " + S(w.first)); break; }
      if (s->feature() != w.first) D.fail(what + ": posting for feature " + S(s->feature()) + ", expected " + S(w.first));
      std::map<std::pair<addr, addr>, std::vector<fval>> e;
      for (auto &x : w.second) if (minimal(w.second, x)) e[{x.p, x.q}].push_back(x.v);
      auto got = dump(s);
      bool ok = got.size() == e.size();
      size_t i = 0;
      for (auto &x : e) {
        if (!ok) break;
        ok = got[i].p == x.first.first && got[i].q == x.first.second && std::count(x.second.begin(), x.second.end(), got[i].v) > 0;
        i++;
      }
      if (!ok) D.fail(what + ": feature " + S(w.first) + " holds " + show(got) + ", expected the minimal intervals of " + show(w.second));
      else if (!same(stream(s), got)) D.fail(what + ": a stream of feature " + S(w.first) + " gives " + show(stream(s)) + ", the list " + show(got));
      else if (got.size() && !s->invariants()) D.fail(what + ": list rejected by its own validity test");
      if (e.size() > 2) D.nontrivial(what + S(w.first));
    }
    if (it != t.end()) D.fail(what + ": annotations left over after the last feature");
    if (f->posting_from_annotations(&it, t.end()) != nullptr) D.fail(what + ": a posting out of nothing");
  }
  // push and append in any mixture
  for (long r = 0; r < D.n(6000, 90000); r++) {
    std::vector<T> model;
    addr ft = D.below(3);
    SP s = f->posting_from_feature(ft);
    addr at = D.below(5);
    std::string what = "posting built by";
    int ops = 1 + D.below(5);
    for (int o = 0; o < ops; o++) {
      int n = D.below(5), kind = D.below(3);
      auto l = gclist(n, at, 1 + D.below(6), D.chance(1, 2) ? 0 : kind, D.chance(1, 2));
      if (D.chance(1, 2)) {
        what += " append" + show(l);
        SP m = build(f, ft, l);
        s->append(m);
        D.at(what);
        if (!same(dump(m), l)) D.fail(what + ": the appended posting changed to " + show(dump(m)));
      } else {
        what += " push" + show(l);
        D.at(what);
        for (auto &t : l) s->push(t.p, t.q, t.v);
      }
      for (auto &t : l) model.push_back(t);
      if (model.size()) at = model.back().q + 1;
      if (!same(dump(s), model)) { D.fail(what + ": holds " + show(dump(s)) + ", expected " + show(model)); break; }
    }
    D.count("eval");
    D.at(what);
    if (s->feature() != ft) D.fail(what + ": feature " + S(s->feature()) + ", expected " + S(ft));
    std::string err;
    if (!s->invariants(&err)) D.fail(what + ": rejected as invalid (" + err + ")");
    if (!same(stream(s), model)) D.fail(what + ": a stream gives " + show(stream(s)) + ", expected " + show(model));
    if (!(*s == *build(f, ft, model))) { bool zero = false; for (auto &t : model) if (t.v == 0 ) zero = true; if (!zero) D.fail(what + ": differs from the same list built at once"); }
    if (model.size() > 2) D.nontrivial(what);
    // one entry out of place must be noticed
    if (model.size() >= 2) {
      auto bad = model;
      size_t i = D.below(bad.size() - 1);
      if (D.chance(1, 2)) std::swap(bad[i], bad[i + 1]);
      else { bad[i].q = bad[i + 1].q + 1; }
      D.at("validity of " + show(bad));
      bool down = false;
      for (size_t j = 1; j < bad.size(); j++) down |= bad[j].p < bad[j - 1].p || bad[j].q < bad[j - 1].q;
      if (down && build(f, ft, bad)->invariants()) D.fail("validity test accepts " + show(bad));
      if (*s == *build(f, ft, bad)) D.fail("equality confuses " + show(model) + " with " + show(bad));
      if (*s == *build(f, ft + 1, model)) D.fail("equality ignores the feature of " + show(model));
    }
    D.sample(what);
  }
}
static void part2() {
  auto f = factory();
  for (long r = 0; r < D.n(30000, 400000); r++) {
    int k = D.below(D.chance(1, 6) ? 9 : 5), kind = D.below(3), spread = 1 + D.below(5);
    std::vector<SP> in;
    std::vector<std::vector<T>> lists;
    std::string what = "merge of";
    addr at = 0;
    bool chain = D.chance(1, 3);
    for (int i = 0; i < k; i++) {
      auto l = gclist(D.chance(1, 5) ? 0 : D.below(6), chain ? at : D.below(12), spread, kind, D.chance(1, 4));
      if (!l.empty()) at = l.back().q + (D.chance(1, 5) ? -1 : 1);
      what += " " + show(l);
      lists.push_back(l);
      in.push_back(build(f, 17, l));
    }
    SP ex = nullptr;
    std::vector<T> el;
    int em = D.below(4);
    if (em > 1) el = gclist(1 + D.below(3), D.below(20), 1 + D.below(6), 0, false);
    if (em) { ex = build(f, null_feature, el); what += " erasing " + show(el); }
    bool plain = D.chance(1, 2) && em == 0;
    D.at(what);
    D.count("eval");
    SP m = plain ? f->posting_from_merge(in) : f->posting_from_merge(in, ex);
    std::map<std::pair<addr, addr>, fval> u;
    std::vector<T> all;
    for (auto &l : lists) for (auto &t : l) { u[{t.p, t.q}] = t.v; all.push_back(t); }
    std::vector<T> want;
    for (auto &x : u) {
      T t{x.first.first, x.first.second, x.second};
      bool keep = minimal(all, t);
      for (auto &e : el) if (e.p <= t.p && t.q <= e.q) keep = false;
      if (keep) want.push_back(t);
    }
    if (m == nullptr) {
      if (!want.empty()) D.fail(what + ": nothing, expected " + show(want));
      continue;
    }
    if (k == 0) { D.fail(what + ": a posting out of nothing"); continue; }
    auto got = dump(m);
    if (!same(got, want)) D.fail(what + ": " + show(got) + ", expected " + show(want));
    else if (!same(stream(m), want)) D.fail(what + ": a stream gives " + show(stream(m)) + ", expected " + show(want));
    else if (m->feature() != 17) D.fail(what + ": result for feature " + S(m->feature()));
    for (int i = 0; i < k; i++)
      if (!same(dump(in[i]), lists[i])) D.fail(what + ": operand " + S(i) + " changed to " + show(dump(in[i])));
    if (want.size() > 2) { D.nontrivial(what); D.sample(what); }
  }
}
static std::vector<T> load_cache(std::shared_ptr<CacheRecord> c) {
  std::vector<T> r;
  for (addr i = 0; i < c->n; i++) r.push_back({c->postings.get()[i], c->qostings.get()[i], c->fostings ? c->fostings.get()[i] : 0.0});
  return r;
}
static void part3() {
  const char *pcs[] = {"post", "null", "zlib"}, *fcs[] = {"tfdf", "zlib", "null"};
  for (long r = 0; r < D.n(2500, 30000); r++) {
    std::string pc = pcs[D.below(3)], fc = fcs[D.below(3)];
    auto f = factory(pc, fc);
    int k = 1 + D.below(4);
    std::vector<std::vector<T>> lists;
    std::vector<addr> feats;
    std::stringstream out;
    std::vector<std::string> blobs;
    std::string what = "lists stored with " + pc + "/" + fc + ":";
    for (int i = 0; i < k; i++) {
      int kind = D.below(3);
      if (fc == std::string("tfdf") && kind == 1) kind = 2;
      addr lo = D.chance(1, 8) ? maxfinity - 2000000 : D.chance(1, 4) ? D.below(1ll << 40) : D.below(10);
      auto l = gclist(D.chance(1, 8) ? 0 : r % 50 == 0 ? 1000 + D.below(500) : D.below(9), lo, 1 + D.below(D.chance(1, 3) ? 300 : 6), kind, D.chance(1, 3));
      lists.push_back(l);
      feats.push_back(D.chance(1, 5) ? maxfinity - D.below(3) : D.below(1 << 30) - 100);
      what += " " + S(feats[i]) + show(l);
      SP s = build(f, feats[i], l);
      std::stringstream o;
      D.at(what);
      s->write(&o);
      blobs.push_back(o.str());
      s->write(&out);
      if (!same(dump(s), l)) { if (pc != std::string("bad")) {} }
    }
    D.count("eval");
    D.at(what);
    std::string cat;
    for (auto &b : blobs) cat += b;
    std::string path = "pst";
    { std::ofstream o(path, std::ios::binary); o << cat; }
    std::fstream in(path, std::ios::binary | std::ios::in);
    for (int i = 0; i < k; i++) {
      SP s = f->posting_from_file(&in);
      if (s == nullptr) { D.fail(what + ": list " + S(i) + " not found in the file"); break; }
      if (s->feature() != feats[i] || !same(dump(s), lists[i])) { D.fail(what + ": list " + S(i) + " read back as " + S(s->feature()) + show(dump(s))); break; }
      if (!same(stream(s), lists[i])) D.fail(what + ": a stream over list " + S(i) + " read back gives " + show(stream(s)));
      SP b = f->posting_from_compressed_blob(blobs[i].data(), blobs[i].size());
      if (b == nullptr || b->feature() != feats[i] || !same(dump(b), lists[i])) { D.fail(what + ": list " + S(i) + " loaded from memory as " + (b ? S(b->feature()) + show(dump(b)) : "nothing")); break; }
      b->release();
      if (!(*b == *s)) D.fail(what + ": file and memory copies of list " + S(i) + " differ");
      auto c = std::make_shared<CacheRecord>();
      c->n = lists[i].size();
      std::string e;
      if (!f->cache_entry_from_compressed_blob(c, blobs[i].data(), blobs[i].size(), &e)) D.fail(what + ": list " + S(i) + " refused by the cache: " + e);
      else if (!same(load_cache(c), lists[i])) D.fail(what + ": list " + S(i) + " cached as " + show(load_cache(c)));
      else c->wait();  // would hang if the entry were not released
      auto c2 = std::make_shared<CacheRecord>();
      c2->n = lists[i].size() + (D.chance(1, 2) ? 1 : -1);
      if (c2->n >= 0 && f->cache_entry_from_compressed_blob(c2, blobs[i].data(), blobs[i].size(), &e)) D.fail(what + ": cache took list " + S(i) + " for one of another length");
      // blobs cut short, or with damaged headers, are refused
      size_t cuts = std::min(blobs[i].size(), (size_t)60);
      for (size_t j = 0; j < cuts; j++) {
        size_t n = j < 44 ? j : blobs[i].size() - 1 - (j - 44);
        if (n >= blobs[i].size()) continue;
        std::vector<char> cut(blobs[i].begin(), blobs[i].begin() + n);
        cut.resize(n + 1); // keep data() valid
        D.at(what + ": list " + S(i) + " cut to " + S(n));
        if (f->posting_from_compressed_blob(cut.data(), n) != nullptr) D.fail(what + ": list " + S(i) + " cut to " + S(n) + " bytes was accepted");
        auto c3 = std::make_shared<CacheRecord>();
        c3->n = lists[i].size();
        if (f->cache_entry_from_compressed_blob(c3, cut.data(), n)) D.fail(what + ": cache took list " + S(i) + " cut to " + S(n) + " bytes");
      }
      for (int w = 1; w < 5; w++)
        for (addr d : {(addr)-1, minfinity, maxfinity}) {
          std::string x = blobs[i];
          if (w == 1 && d == maxfinity) continue;  // a count is only checked against the data
          memcpy(&x[8 * w], &d, 8);
          D.at(what + ": list " + S(i) + " with header word " + S(w) + " = " + S(d));
          if (f->posting_from_compressed_blob(x.data(), x.size()) != nullptr) D.fail(what + ": list " + S(i) + " with header word " + S(w) + " = " + S(d) + " was accepted");
          auto c3 = std::make_shared<CacheRecord>();
          c3->n = lists[i].size();
          if (f->cache_entry_from_compressed_blob(c3, x.data(), x.size())) D.fail(what + ": cache took list " + S(i) + " with header word " + S(w) + " = " + S(d));
        }
      if (lists[i].size() > 2) D.nontrivial(blobs[i]);
    }
    if (f->posting_from_file(&in) != nullptr) D.fail(what + ": one more list than was written");
    if (f->posting_from_compressed_blob(nullptr, 100) != nullptr) D.fail("a list out of no memory");
    if (f->cache_entry_from_compressed_blob(nullptr, blobs[0].data(), blobs[0].size())) D.fail("a cache entry without a cache line");
    D.sample(what);
  }
  unlink("pst");
}
int main(int argc, char **argv) {
  D.args(argc, argv);
  if (PART == 1) part1();
  if (PART == 2) part2();
  if (PART == 3) part3();
  return D.finish();
}
