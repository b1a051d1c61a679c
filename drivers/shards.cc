// shards on their own and merged, in memory, pickled, and as hazel files, against a model
#ifndef PART
#define PART 1
#endif
#define TEXTS (PART == 1 ? 40 : 3)
#include <csignal>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "drivers/model.h"
#include <filesystem>
#include "src/compressor.h"
#include "src/fiver.h"
#include "src/hazel.h"
#include "src/working.h"
static const addr STAGE = maxfinity / 2;
struct Made { std::shared_ptr<Fiver> f; std::shared_ptr<Shard> s; addr seq; };
static std::shared_ptr<Featurizer> FZ;
static std::shared_ptr<Tokenizer> TZ;
static std::shared_ptr<Compressor> PC, FC, TC;
static void look(const std::string &who, std::shared_ptr<Warren> w, const std::vector<Made> &from, bool merged) {
  if (BAD) return;
  View v;
  for (auto &m : from) {
    v.shards.push_back(m.s);
    if (!merged) { auto c = std::make_shared<Shard>(*m.s); c->erased.clear(); v.shards.back() = c; } // only merging applies erasures
  }
  D.at(who + " of" + LOG.substr(LOG.size() > 1500 ? LOG.size() - 1500 : 0));
  bool st = w->started();
  if (!st) w->start();
  compare(FZ, w, v, who, true);
  if (!st) w->end();
  D.count("shards");
}
static void one() {
  LOG = ""; BAD = false;
  std::filesystem::remove_all("w");
  std::filesystem::create_directory("w");
  static const char *TCN[] = {"null", "zlib", "bad"};
  PC = Compressor::make(D.chance(1, 2) ? "post" : "null", ""); FC = Compressor::make(D.chance(1, 2) ? "zlib" : "null", ""); TC = Compressor::make(TCN[D.below(2)], "");
  std::shared_ptr<Working> wk = D.chance(1, 2) ? Working::make("w") : nullptr;
  LOG += wk ? " [on disk]" : "";
  std::vector<Made> made;
  addr base = 0, seq = 0;
  int n = (int)D.range(1, 5);
  std::vector<I> erased;
  bool gaps = D.chance(1, 2);
  for (int t = 0; t < n; t++) {
    auto f = Fiver::make(wk, FZ, TZ, nullptr, PC, FC, TC);
    f->transaction();
    auto sh = std::make_shared<Shard>();
    std::string err;
    addr cur = 0;
    int na = (int)D.range(0, 4);
    std::vector<char> staged;
    for (int k = 0; k < na; k++) {
      std::string x = gentext();
      addr p = -7, q = -7;
      LOG += " append(\"" + shortly(x) + "\")";
      if (!f->appender()->append(x, &p, &q, &err)) { bad("append refused: " + err); return; }
      cur += (addr)toks(x).size();
      if (x.size()) sh->text += x + (x.back() == ' ' || x.back() == '\t' || x.back() == '\n' ? "" : "\n");
    }
    for (int k = 0; k < (int)D.below(5); k++) {
      bool st = cur > 0 && D.chance(2, 3);
      addr lim = st ? cur : base;
      if (lim == 0) continue;
      addr p = D.below(lim), q = std::min(lim - 1, p + D.below(6));
      if (!st && D.chance(1, 3)) {
        bool nested = false;
        for (auto &e : erased) nested = nested || (e.first <= p && q <= e.second) || (p <= e.first && e.second <= q);
        if (nested) continue;
        erased.push_back({p, q});
        sh->erased.push_back({p, q});
        f->annotator()->erase(p, q);
        LOG += " erase(" + S(p) + "," + S(q) + ")";
        continue;
      }
      Ann a{FEATS[D.below(3)], p, q, (fval)D.range(-3, 9)};
      bool again = false;
      for (auto &o : sh->anns) again = again || (o.f == a.f && o.p == p + (st ? base : 0) && o.q == q + (st ? base : 0));
      if (again) continue;
      f->annotator()->annotate(FZ->featurize(a.f), p + (st ? STAGE : 0), q + (st ? STAGE : 0), a.v);
      if (st) { a.p += base; a.q += base; }
      sh->anns.push_back(a);
      LOG += " annotate(" + a.f + "," + S(a.p) + "," + S(a.q) + ":" + std::to_string(a.v) + ")";
    }
    sh->base = base;
    addr next = f->relocate(base);
    if (next != base + cur) { bad("relocate gives " + S(next) + ", expected " + S(base + cur)); return; }
    base = next;
    f->set_sequence(seq++);
    if (!f->ready(&err)) { bad("ready refused: " + err); return; }
    if (gaps && D.chance(1, 4)) {
      f->abort(); LOG += " abort;";
      for (auto &e : sh->erased) erased.erase(std::find(erased.begin(), erased.end(), e));
      continue;
    }
    f->commit();
    LOG += " commit;";
    if (sh->text.size() && sh->text.back() != '\n') sh->text += "\n";
    sh->tok = toks(sh->text);
    made.push_back({f, sh, seq - 1});
  }
  if (made.empty() || BAD) return;
  for (auto &m : made) look("one shard", m.f, {m}, false);
  std::string err;
  size_t a = D.below(made.size()), b = D.range(a, made.size() - 1);
  std::vector<Made> some(made.begin() + a, made.begin() + b + 1);
  std::vector<std::shared_ptr<Fiver>> fs;
  for (auto &m : some) fs.push_back(m.f);
  std::shared_ptr<Fiver> merged = some[0].f;
  if (some.size() > 1 && !BAD) {
    merged = Fiver::merge(fs, &err, PC, FC, TC);
    if (merged == nullptr) { bad("merge refused: " + err); return; }
    look("merged shard", merged, some, true);
    addr s0, s1;
    merged->get_sequence(&s0, &s1);
    if (s0 != some.front().seq || s1 != some.back().seq) { bad("merged shard has sequence " + S(s0) + ".." + S(s1)); return; }
    if (some.size() > 2) { // in two steps
      size_t c = D.range(2, fs.size() - 1);
      auto m2 = Fiver::merge({fs.begin(), fs.begin() + c}, &err, PC, FC, TC);
      if (m2 == nullptr) { bad("merge refused: " + err); return; }
      std::vector<std::shared_ptr<Fiver>> rest = {m2};
      rest.insert(rest.end(), fs.begin() + c, fs.end());
      auto m3 = Fiver::merge(rest, &err, PC, FC, TC);
      if (m3 == nullptr) { bad("merge refused: " + err); return; }
      look("shard merged in two steps", m3, some, true);
    }
  }
  if (BAD) return;
  if (wk != nullptr) { // what was written is what is there
    auto &m = made[D.below(made.size())];
    auto back = Fiver::unpickle("fiver." + seq2str(m.seq) + "." + seq2str(m.seq), wk, FZ, TZ, &err, PC, FC, TC);
    if (back == nullptr) { bad("reading a shard back: " + err); return; }
    look("shard read back", back, {m}, false);
    if (some.size() > 1) {
      if (!merged->pickle("w/m", &err)) { bad("pickle: " + err); return; }
      back = Fiver::unpickle("m", wk, FZ, TZ, &err, PC, FC, TC);
      if (back == nullptr) { bad("reading a merged shard back: " + err); return; }
      look("merged shard read back", back, some, true);
    }
  }
  for (auto &f : fs) if (!f->started()) f->start();
  if (!merged->started()) merged->start();
  addr chunk = D.chance(1, 3) ? D.range(1, 20) : D.chance(1, 2) ? D.range(20, 600) : 65536;
  if (!BAD) {
    if (!merged->hazel("w/h", &err, chunk, "")) { bad("hazel: " + err); return; }
    auto h = Warren::make("w/h", &err);
    if (h == nullptr) { bad("opening a hazel: " + err); return; }
    look("hazel", h, some, some.size() > 1);
  }
  if (some.size() > 1 && !BAD) { // merged as hazels, each of one or more shards, with or without earlier bits of the same merge
    std::vector<std::shared_ptr<Hazel>> hs;
    addr s = some.front().seq;
    for (size_t i = 0; i < fs.size();) {
      size_t j = i + 1;
      while (j < fs.size() && D.chance(1, 4)) j++;
      std::shared_ptr<Fiver> x = j == i + 1 ? fs[i] : Fiver::merge({fs.begin() + i, fs.begin() + j}, &err, PC, FC, TC);
      if (!x->started()) x->start();
      std::string nm = "w/part" + std::to_string(i);
      if (!x->hazel(nm, &err, chunk, "")) { bad("hazel: " + err); return; }
      auto h = std::dynamic_pointer_cast<Hazel>(Warren::make(nm, &err));
      if (h == nullptr) { bad("opening a hazel: " + err); return; }
      hs.push_back(h);
      i = j;
    }
    if (hs.size() > 1) {
      bool contiguous = true;
      for (size_t i = 1; i < some.size(); i++) contiguous = contiguous && some[i].seq == some[i - 1].seq + 1;
      err = "";
      for (int cut = (int)D.below(3); cut > 0; cut--) { // the process that merges is killed part way, up to twice
        long total = 0;
        for (auto &x : std::filesystem::directory_iterator("w")) if (x.path().filename().string().rfind("part", 0) == 0) total += (long)std::filesystem::file_size(x.path());
        rlim_t most = (rlim_t)D.range(1, total);
        pid_t pid = fork();
        if (pid == 0) {
          struct rlimit r = {most, most};
          struct rlimit none = {0, 0};
          setrlimit(RLIMIT_CORE, &none);
          setrlimit(RLIMIT_FSIZE, &r);
          signal(SIGXFSZ, SIG_DFL);
          std::string e;
          Hazel::merge(hs, "w/hazel.all", nullptr, &e);
          _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st)) { D.count("merges-killed"); LOG += " merge killed at " + std::to_string(most) + " bytes;"; }
      }
      auto h = Hazel::merge(hs, "w/hazel.all", nullptr, &err);
      D.count(h ? "hazel-merges" : "hazel-merges-refused");
      if (h == nullptr && contiguous) { bad("merging hazels: " + err); return; }
      if (h != nullptr) { look("merged hazel", h, some, true);
        auto again = Warren::make("w/hazel.all", &err);
        if (again == nullptr) { bad("reopening a merged hazel: " + err); return; }
        look("merged hazel reopened", again, some, true); }
    }
  }
  if (made.size() > 1) D.nontrivial(LOG);
  D.sample(LOG.substr(0, 400));
}
int main(int argc, char **argv) {
  D.args(argc, argv);
  FZ = Featurizer::make("hashing", "");
  TZ = Tokenizer::make("ascii", "noxml");
  long n = D.n(700, 8000);
  for (long i = 0; i < n; i++) one();
  std::filesystem::remove_all("w");
  return D.finish();
}
