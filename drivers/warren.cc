// whole-database histories against a model
// PART 1: transactions and what readers see; PART 2: addresses, annotations, erasure; PART 3: text
#ifndef PART
#define PART 1
#endif
#define TEXTS (PART == 3 ? 25 : 4)
#include "drivers/model.h"
#include <chrono>
#include <memory>
#include <thread>
#include "src/bigwig.h"
#include "src/compressor.h"
#include "src/featurizer.h"
#include "src/fluffle.h"
#include "src/tokenizer.h"
struct Txn {
  std::shared_ptr<Warren> w;
  std::string name, text;
  addr cur = 0;
  std::vector<Ann> anns;   // negative-offset convention: staged if staged
  std::vector<char> staged;
  std::vector<I> erased;
  std::vector<char> estaged;
  bool ready = false, voted = false;
  addr base = 0;
  size_t slot = 0;
};
static const addr STAGE = maxfinity / 2;
struct World {
  std::shared_ptr<Featurizer> fz;
  std::shared_ptr<Tokenizer> tz;
  std::shared_ptr<Fluffle> fl;
  std::shared_ptr<Bigwig> root;
  std::vector<std::shared_ptr<Shard>> slots; // in order of becoming ready; null: not committed
  addr next = 0;
};
static View view(const World &w) { View v; for (auto &s : w.slots) if (s != nullptr) v.shards.push_back(s); return v; }
static void quiet(World &W) {
  for (int i = 0; i < 20000; i++) {
    { std::lock_guard<std::mutex> _(W.fl->lock); if (W.fl->workers == 0) return; }
    std::this_thread::sleep_for(std::chrono::microseconds(300));
  }
  bad("background merging does not end");
}
static void history(int kind) {
  World W;
  LOG = ""; BAD = false;
  W.fz = Featurizer::make("hashing", "");
  W.tz = Tokenizer::make("ascii", "noxml");
  W.fl = Fluffle::make();
  W.root = Bigwig::make(nullptr, W.fz, W.tz, W.fl, nullptr, Compressor::make("post", ""), Compressor::make("zlib", ""), Compressor::make("null", ""));
  bool merging = D.chance(1, 2);
  W.root->merge(merging);
  LOG += merging ? " [merging on]" : "";
  std::vector<std::shared_ptr<Txn>> open;
  struct Reader { std::shared_ptr<Warren> w; View v; std::string name; };
  std::vector<Reader> readers;
  int nt = 0, steps = (int)D.range(8, D.thorough ? 60 : 36), commits = 0, aborts = 0;
  bool erasing = PART == 2 ? D.chance(2, 3) : D.chance(1, 4);
  std::vector<I> erased; // all, to keep them from nesting
  auto readyit = [&](std::shared_ptr<Txn> t) {
    std::string err = "none";
    bool ok = t->w->ready(&err);
    if (!t->ready) {
      t->base = W.next; W.next += t->cur; t->ready = true; t->slot = W.slots.size(); W.slots.push_back(nullptr);
      t->voted = ok;
    }
    LOG += " ready(" + t->name + ")";
    if (!ok) bad("ready refused: " + err);
  };
  for (int s = 0; s < steps && !BAD; s++) {
    int k = (int)D.below(12);
    if (open.empty() || (k == 0 && open.size() < 4)) {
      auto t = std::make_shared<Txn>();
      t->name = "t" + std::to_string(nt++);
      t->w = nt == 1 ? W.root : W.root->clone();
      LOG += " begin(" + t->name + ")";
      D.at(LOG.size() > 1500 ? LOG.substr(LOG.size() - 1500) : LOG);
      std::string e;
      if (nt > 1 && t->w->started()) t->w->end();
      if (t->w->transacting()) t->w = W.root->clone();
      if (t->w->ready()) bad("ready without a transaction succeeds");
      if (!t->w->transaction(&e)) { bad("transaction refused: " + e); break; }
      if (t->w->transaction()) bad("a second transaction of the same warren succeeds");
      open.push_back(t);
      continue;
    }
    auto t = open[D.below(open.size())];
    D.at(LOG.size() > 1500 ? LOG.substr(LOG.size() - 1500) : LOG);
    if (k <= 4 && !t->ready) {
      std::string x = gentext(), err;
      while (t->cur == 0 && x.size() && toks(x).empty()) x = gentext(); // text without any token has no address
      addr p = -7, q = -7;
      LOG += " " + t->name + ".append(\"" + shortly(x) + "\")";
      if (!t->w->appender()->append(x, &p, &q, &err)) { bad("append refused: " + err); break; }
      addr n = (addr)toks(x).size();
      if (n == 0 ? q >= p : (p != STAGE + t->cur || q != STAGE + t->cur + n - 1)) { bad("append gives (" + S(p - STAGE) + "," + S(q - STAGE) + ") for " + S(n) + " tokens at " + S(t->cur)); break; }
      t->cur += n;
      if (x.size()) t->text += x + (x.back() == ' ' || x.back() == '\t' || x.back() == '\n' ? "" : "\n");
      if (n > 0 && D.chance(2, 3)) {
        Ann a{FEATS[D.below(3)], p, q, D.chance(1, 3) ? 0.0 : (fval)D.range(-5, 5) / 2};
        if (!t->w->annotator()->annotate(W.fz->featurize(a.f), a.p, a.q, a.v)) bad("annotate refused");
        LOG += " annotate(" + a.f + "," + S(p - STAGE) + "," + S(q - STAGE) + ":" + std::to_string(a.v) + ")";
        t->anns.push_back(a); t->staged.push_back(1);
      }
    } else if (k <= 6 && !t->ready) {
      // an annotation somewhere, of this transaction's text or of text already there
      bool st = t->cur > 0 && D.chance(1, 2);
      addr lim = st ? t->cur : W.next;
      if (lim == 0) continue;
      addr p = D.below(lim), q = std::min(lim - 1, p + D.below(6));
      if (st) { p += STAGE; q += STAGE; }
      if (erasing && D.chance(1, 2)) {
        if (st) continue;
        bool nested = false;
        for (auto &e : erased) nested = nested || (e.first <= p && q <= e.second) || (p <= e.first && e.second <= q);
        if (nested) continue;
        if (!t->w->annotator()->erase(p, q)) bad("erase refused");
        LOG += " " + t->name + ".erase(" + S(p) + "," + S(q) + ")";
        erased.push_back({p, q});
        t->erased.push_back({p, q}); t->estaged.push_back(0);
        continue;
      }
      Ann a{FEATS[D.below(3)], p, q, (fval)D.range(-3, 9)};
      bool again = false;
      for (auto &o : t->anns) again = again || (o.f == a.f && o.p == p && o.q == q);
      if (again) continue; // which value wins within one transaction is not promised
      if (!t->w->annotator()->annotate(W.fz->featurize(a.f), a.p, a.q, a.v)) bad("annotate refused");
      LOG += " " + t->name + ".annotate(" + a.f + "," + S(st ? p - STAGE : p) + "," + S(st ? q - STAGE : q) + (st ? " staged" : "") + ":" + std::to_string(a.v) + ")";
      t->anns.push_back(a); t->staged.push_back(st);
    } else if (k == 7) {
      readyit(t);
    } else if (k == 8 || k == 9) {
      if (!t->ready) readyit(t);
      if (t->anns.empty() && t->erased.empty() && t->cur == 0) {} // an empty transaction may commit as well
      if (D.chance(1, 4)) readyit(t); // asking again repeats the vote
      if (BAD) break;
      LOG += " commit(" + t->name + ")";
      D.at(LOG.size() > 1500 ? LOG.substr(LOG.size() - 1500) : LOG);
      t->w->commit();
      auto sh = std::make_shared<Shard>();
      sh->base = t->base; sh->text = t->text;
      if (sh->text.size() && sh->text.back() != '\n') sh->text += "\n";
      sh->tok = toks(sh->text);
      if ((addr)sh->tok.size() != t->cur) bad("driver: token count");
      for (size_t i = 0; i < t->anns.size(); i++) { Ann a = t->anns[i]; if (t->staged[i]) { a.p += t->base - STAGE; a.q += t->base - STAGE; } sh->anns.push_back(a); }
      sh->erased = t->erased;
      W.slots[t->slot] = sh;
      open.erase(std::find(open.begin(), open.end(), t));
      if (t->w->transacting()) bad("still in a transaction after commit");
      if (t->w->ready()) bad("ready succeeds after commit");
      commits++;
      if (D.chance(1, 3)) quiet(W);
    } else if (k == 10 && D.chance(1, 2)) {
      LOG += " abort(" + t->name + ")";
      t->w->abort();
      for (auto &e : t->erased) erased.erase(std::find(erased.begin(), erased.end(), e));
      open.erase(std::find(open.begin(), open.end(), t));
      if (t->w->transacting()) bad("still in a transaction after abort");
      aborts++;
    } else {
      // a new reader sees exactly what is committed now
      auto w = W.root->clone();
      if (w->started()) { w->end(); }
      w->start();
      Reader r{w, view(W), "reader" + std::to_string(readers.size())};
      LOG += " " + r.name;
      compare(W.fz, w, r.v, r.name, true);
      if (PART == 1 && D.chance(1, 2)) { // a clone of a started reader shares its view
        auto c = w->clone();
        LOG += "+clone";
        if (!c->started()) c->start();
        readers.push_back({c, r.v, r.name + "'s clone"});
      }
      if (readers.size() < 5) readers.push_back(r);
      D.count("views");
    }
    // an old reader still sees what it saw
    if (!readers.empty() && !BAD && D.chance(1, PART == 1 ? 3 : 8)) {
      auto &r = readers[D.below(readers.size())];
      compare(W.fz, r.w, r.v, r.name + " (older)", false);
    }
  }
  if (!BAD) {
    quiet(W);
    auto w = W.root->clone();
    if (w->started()) w->end();
    w->start();
    compare(W.fz, w, view(W), "final reader", true);
    for (auto &r : readers) if (!BAD) compare(W.fz, r.w, r.v, r.name + " (older)", true);
    if (commits > 1 || (commits && aborts)) D.nontrivial(LOG);
    D.sample(LOG.substr(0, 600));
  }
  for (auto &t : open) t->w->abort();
  quiet(W);
}
// erasing a larger interval after a smaller one inside it
static void nested_erase() {
  std::shared_ptr<Featurizer> fz = Featurizer::make("hashing", "");
  auto b = Bigwig::make(nullptr, fz, Tokenizer::make("ascii", "noxml"), Fluffle::make());
  b->merge(false);
  addr p, q;
  b->transaction(); b->appender()->append("a b c d e f g h", &p, &q); b->ready(); b->commit();
  for (I e : {I(2, 3), I(1, 6)}) { b->transaction(); b->annotator()->erase(e.first, e.second); b->ready(); b->commit(); }
  auto w = b->clone(); if (w->started()) w->end(); w->start();
  for (const char *x : {"b", "c", "d", "e", "f", "g"}) {
    auto r = actual(w, fz, x);
    if (!r.empty()) { D.fail("nested-erase: after append(a b c d e f g h), erase(2,3), erase(1,6) the token " + std::string(x) + " is still there"); return; }
  }
}
// an interval inside an erased one, itself inside a later one of the same feature
static void erased_inner() {
  std::string seen;
  for (int merging = 0; merging < 2; merging++) {
    std::shared_ptr<Featurizer> fz = Featurizer::make("hashing", "");
    auto fl = Fluffle::make();
    auto b = Bigwig::make(nullptr, fz, Tokenizer::make("ascii", "noxml"), fl);
    World W;
    W.fl = fl;
    b->merge(merging);
    addr p, q;
    b->transaction(); b->appender()->append("a b c d e f g h", &p, &q); b->ready(); b->commit();
    b->transaction(); b->annotator()->annotate(fz->featurize("X"), 3, 4, 0.0); b->ready(); b->commit();
    b->transaction(); b->annotator()->erase(3, 4); b->ready(); b->commit();
    quiet(W);
    b->transaction(); b->annotator()->annotate(fz->featurize("X"), 1, 6, 0.0); b->ready(); b->commit();
    quiet(W);
    auto w = b->clone(); if (w->started()) w->end(); w->start();
    auto r = actual(w, fz, "X");
    if (r.size() != 1 || r[0].p != 1 || r[0].q != 6) { D.fail("erased-inner: after annotate(X,3,4), erase(3,4), annotate(X,1,6) the interval (1,6) of X is not visible" + std::string(merging ? " (merging on)" : " (merging off; it is with merging on)")); return; }
  }
}
int main(int argc, char **argv) {
  D.args(argc, argv);
  long n = PART == 3 ? D.n(4000, 60000) : D.n(6000, 90000);
  for (long i = 0; i < n; i++) history((int)i);
  if (PART == 2) { nested_erase(); erased_inner(); }
  return D.finish();
}
