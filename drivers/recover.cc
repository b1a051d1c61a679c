// databases on disk: sessions that end normally or are killed at any file operation, against a model
#define TEXTS 4
#include <chrono>
#include <dlfcn.h>
#include <fcntl.h>
#include <filesystem>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <thread>
#include "drivers/model.h"
#include "src/bigwig.h"
#include "src/compressor.h"
#include "src/fiver.h"
#include "src/hazel.h"
#include "src/working.h"
// ---------------------------------------------------------------- kill points
static volatile long OPS, KILL; // operations so far in this process; the one that does not happen (0: none)
static volatile bool LIVE;
static volatile unsigned PART_ = 0;
static bool dies() { if (!LIVE) return false; long n = __sync_add_and_fetch(&OPS, 1); return KILL && n >= KILL; }
#define REAL(T, n) static auto real = (T)dlsym(RTLD_NEXT, n)
extern "C" {
int link(const char *a, const char *b) { REAL(int (*)(const char *, const char *), "link"); if (dies()) _exit(77); return real(a, b); }
int rename(const char *a, const char *b) noexcept { REAL(int (*)(const char *, const char *), "rename"); if (dies()) _exit(77); return real(a, b); }
int remove(const char *a) noexcept { REAL(int (*)(const char *), "remove"); if (dies()) _exit(77); return real(a); }
int unlink(const char *a) noexcept { REAL(int (*)(const char *), "unlink"); if (dies()) _exit(77); return real(a); }
int chmod(const char *a, mode_t m) noexcept { REAL(int (*)(const char *, mode_t), "chmod"); if (dies()) _exit(77); return real(a, m); }
FILE *fopen64(const char *a, const char *m) { REAL(FILE * (*)(const char *, const char *), "fopen64"); if (*m != 'r' || m[1] == '+') if (dies()) _exit(77); return real(a, m); }
FILE *fopen(const char *a, const char *m) { REAL(FILE * (*)(const char *, const char *), "fopen"); if (*m != 'r' || m[1] == '+') if (dies()) _exit(77); return real(a, m); }
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t (*)(int, const void *, size_t), "write");
  if (fd > 2 && dies()) { if (n > 1) { ssize_t r = real(fd, b, (size_t)(PART_ % n)); (void)r; } _exit(77); }
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(ssize_t (*)(int, const struct iovec *, int), "writev");
  if (fd > 2 && dies()) { if (n > 1) { ssize_t r = real(fd, v, 1); (void)r; } _exit(77); }
  return real(fd, v, n);
}
}
// ---------------------------------------------------------------- what is planned, what was reached
struct Plan { std::vector<std::string> texts; std::vector<Ann> anns; std::vector<char> staged; std::vector<I> erased; addr cur = 0; std::string id; };
enum { FRESH, READYING, READY, COMMITTING, COMMITTED, ABORTED };
struct Step { int kind; int a, b; }; // 0 begin a, 1 ready a, 2 commit a, 3 abort a, 4 commit a and b together, 5 wait, 6 look
struct Shared { int state[16]; addr base[16]; int order[16]; int nready; int alt; bool opened; bool checked; long ops; char msg[6000]; };
static Shared *SH;
struct Tx { std::shared_ptr<Shard> s; std::string id; };
static std::vector<Tx> SURE;               // in order
static std::vector<Tx> MAYBE;              // all or none of these as well, in order
static std::vector<I> ERASED;
static std::shared_ptr<Featurizer> FZ;
static int NTX;
static bool MERGING;
static std::string PCN, FCN, TCN;
static addr limit(bool maybe) {
  addr n = 0;
  for (auto &t : SURE) if (t.s->tok.size()) n = std::max(n, t.s->base + (addr)t.s->tok.size());
  if (maybe) for (auto &t : MAYBE) if (t.s->tok.size()) n = std::max(n, t.s->base + (addr)t.s->tok.size());
  return n;
}
static Plan plan() {
  Plan t;
  t.id = "tx" + std::to_string(NTX++);
  int na = (int)D.range(0, 2);
  for (int k = 0; k < na; k++) {
    std::string x = gentext();
    if (x.empty() || (t.cur == 0 && toks(x).empty())) continue;
    t.texts.push_back(x);
    t.cur += (addr)toks(x).size();
  }
  for (int k = 0; k < (int)D.below(4); k++) {
    bool st = t.cur > 0 && D.chance(1, 2);
    addr lim = st ? t.cur : limit(false);
    if (lim == 0) continue;
    addr p = D.below(lim), q = std::min(lim - 1, p + D.below(6));
    if (!st && D.chance(1, 4)) {
      bool nested = false;
      for (auto &e : ERASED) nested = nested || (e.first <= p && q <= e.second) || (p <= e.first && e.second <= q);
      if (nested) continue;
      ERASED.push_back({p, q});
      t.erased.push_back({p, q});
      continue;
    }
    Ann a{FEATS[D.below(3)], p, q, (fval)D.range(-3, 9)};
    bool again = false;
    for (size_t i = 0; i < t.anns.size(); i++) again = again || (t.anns[i].f == a.f && t.anns[i].p == p && t.anns[i].q == q && t.staged[i] == st);
    if (again) continue;
    t.anns.push_back(a); t.staged.push_back(st);
  }
  return t;
}
static std::shared_ptr<Shard> shard(const Plan &t, addr base) {
  auto s = std::make_shared<Shard>();
  s->base = base;
  for (auto &x : t.texts) s->text += x + (x.back() == ' ' || x.back() == '\t' || x.back() == '\n' ? "" : "\n");
  if (s->text.size() && s->text.back() != '\n') s->text += "\n";
  s->tok = toks(s->text);
  for (size_t i = 0; i < t.anns.size(); i++) { Ann a = t.anns[i]; if (t.staged[i]) { a.p += base; a.q += base; } s->anns.push_back(a); }
  s->erased = t.erased;
  return s;
}
static std::string show(const Plan &t) {
  std::string s = t.id + "{";
  for (auto &x : t.texts) s += "append(\"" + shortly(x) + "\") ";
  for (size_t i = 0; i < t.anns.size(); i++) s += "annotate(" + t.anns[i].f + "," + S(t.anns[i].p) + "," + S(t.anns[i].q) + (t.staged[i] ? " own" : "") + ":" + std::to_string((int)t.anns[i].v) + ") ";
  for (auto &e : t.erased) s += "erase(" + S(e.first) + "," + S(e.second) + ") ";
  return s + "}";
}
static const addr STAGE = maxfinity / 2;
static void say(const std::string &x) { if (!SH->msg[0]) snprintf(SH->msg, sizeof SH->msg, "%s", x.c_str()); }
static void child_signal(int sig) {
  if (SH && !SH->msg[0]) snprintf(SH->msg, sizeof SH->msg, "%s", sig == SIGALRM ? "HANG (60 s)" : sig == SIGABRT ? "ASSERTION/ABORT" : "CRASH");
  _exit(3);
}
static bool marked(std::shared_ptr<Warren> w, const std::string &id) { return !actual(w, FZ, id).empty(); }
static View view(int alt) {
  View v;
  for (auto &t : SURE) v.shards.push_back(t.s);
  if (alt) for (auto &t : MAYBE) v.shards.push_back(t.s);
  std::stable_sort(v.shards.begin(), v.shards.end(), [](auto &a, auto &b) { return a->base < b->base; });
  return v;
}
// one session, in a process of its own
static void session(const std::string &dir, bool fresh, const std::string &opts, std::vector<Plan> &plans, const std::vector<Step> &steps) {
  std::string err;
  std::shared_ptr<Bigwig> B = fresh ? Bigwig::make(dir, opts, &err) : Bigwig::make(dir, &err);
  if (B == nullptr) { if (!fresh || err != "Burrow already has cottontail dna") { say("the database does not open: " + err); return; } B = Bigwig::make(dir, &err); }
  if (B == nullptr) { say("the database does not open: " + err); return; }
  SH->opened = true;
  if (fresh && !MERGING) B->merge(false);
  FZ = B->featurizer();
  auto reader = [&]() { auto w = B->clone(); if (w->started()) w->end(); w->start(); return w; };
  auto w = reader();
  int alt = 0, marks = 0, seen = 0;
  for (auto &t : MAYBE) if (t.s->tok.size() || t.s->anns.size() || t.s->erased.size()) { marks++; if (marked(w, t.id)) seen++; }
  if (seen && seen < marks) { say("transactions committed together are there only in part"); return; }
  alt = marks ? seen > 0 : 1;
  SH->alt = alt;
  addr next = limit(alt);
  View v = view(alt);
  compare(FZ, w, v, "after opening", true);
  if (BAD) return;
  SH->checked = true;
  struct Run { std::shared_ptr<Bigwig> w; };
  std::vector<Run> run(plans.size());
  std::vector<std::pair<std::shared_ptr<Warren>, View>> readers;
  bool used = false;
  std::vector<std::pair<int, Tx>> done; // by order of becoming ready
  auto finish = [&](int i) { done.push_back({SH->order[i], {shard(plans[i], SH->base[i]), plans[i].id}}); };
  auto now = [&]() {
    View x = v;
    std::sort(done.begin(), done.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &d : done) x.shards.push_back(d.second.s);
    return x;
  };
  for (auto &s : steps) {
    if (BAD) return;
    switch (s.kind) {
    case 0: {
      auto &t = plans[s.a];
      auto &r = run[s.a].w;
      if (!used) { r = B; used = true; if (r->started()) r->end(); } else { r = std::dynamic_pointer_cast<Bigwig>(B->clone()); }
      if (!r->transaction(&err)) { say("transaction refused: " + err); return; }
      addr cur = 0;
      for (auto &x : t.texts) {
        addr p, q, n = (addr)toks(x).size();
        if (!r->appender()->append(x, &p, &q, &err)) { say("append refused: " + err); return; }
        if (n && (p != STAGE + cur || q != p + n - 1)) { say("append gives wrong addresses"); return; }
        cur += n;
      }
      for (size_t i = 0; i < t.anns.size(); i++) { addr o = t.staged[i] ? STAGE : 0; r->annotator()->annotate(FZ->featurize(t.anns[i].f), t.anns[i].p + o, t.anns[i].q + o, t.anns[i].v); }
      for (auto &e : t.erased) r->annotator()->erase(e.first, e.second);
      if (t.texts.size() || t.anns.size() || t.erased.size()) { addr m = (addr)NTX + 1000000000; r->annotator()->annotate(FZ->featurize(t.id), m, m, 0.0); }
      break;
    }
    case 1:
      SH->state[s.a] = READYING;
      if (!run[s.a].w->ready(&err)) { say("ready refused: " + err); return; }
      SH->base[s.a] = next; next += plans[s.a].cur; SH->order[s.a] = SH->nready++;
      SH->state[s.a] = READY;
      break;
    case 2:
      SH->state[s.a] = COMMITTING;
      run[s.a].w->commit();
      SH->state[s.a] = COMMITTED;
      finish(s.a);
      break;
    case 3:
      SH->state[s.a] = ABORTED;
      run[s.a].w->abort();
      break;
    case 4:
      SH->state[s.a] = SH->state[s.b] = COMMITTING;
      if (!Bigwig::commit_all({run[s.a].w, run[s.b].w})) { say("commit_all refused"); return; }
      SH->state[s.a] = SH->state[s.b] = COMMITTED;
      finish(s.a); finish(s.b);
      break;
    case 5: std::this_thread::sleep_for(std::chrono::milliseconds(1 + s.a % 4)); break;
    case 6: {
      auto r = reader();
      compare(FZ, r, now(), "reader", true);
      readers.push_back({r, now()});
      break;
    }
    }
    if (readers.size() && !BAD && s.kind == 2) compare(FZ, readers[0].first, readers[0].second, "older reader", false);
  }
  SH->ops = OPS;
}
static int spawn(const std::string &dir, bool fresh, const std::string &opts, std::vector<Plan> &plans, const std::vector<Step> &steps, long kill, unsigned part) {
  memset(SH, 0, sizeof *SH);
  SH->alt = -1;
  fflush(stdout);
  pid_t c = fork();
  if (c == 0) {
    for (int g : {SIGALRM, SIGABRT, SIGSEGV, SIGFPE, SIGBUS}) signal(g, child_signal);
    int nul = open("err.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(nul, 2);
    int keep = dup(1);
    FILE *out = freopen("fail.txt", "w", stdout); (void)out; (void)keep; // the model's report of a difference
    setvbuf(stdout, nullptr, _IONBF, 0);
    alarm(60);
    OPS = 0; KILL = kill; PART_ = part; LIVE = true;
    session(dir, fresh, opts, plans, steps);
    LIVE = false;
    fflush(stdout);
    _exit(BAD ? 5 : 0);
  }
  int st = 0;
  waitpid(c, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 99;
}
static std::string report() {
  if (SH->msg[0]) {
    FILE *f = fopen("err.txt", "r");
    char b[300] = "";
    if (f) { size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f); }
    std::string e = b;
    return std::string(SH->msg) + (e.size() ? " (" + e.substr(0, e.find('\n')) + ")" : "");
  }
  FILE *f = fopen("fail.txt", "r");
  char b[4000] = "";
  if (f) { size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f); }
  std::string s = b;
  size_t k = s.find("FAIL ");
  s = k == std::string::npos ? s : s.substr(k + 5);
  return s.substr(0, s.find('\n'));
}
// turns some shards into compressed files, as a larger database would have done by itself
static void convert(const std::string &dir) {
  std::vector<std::string> names;
  for (auto &e : std::filesystem::directory_iterator(dir)) { std::string n = e.path().filename().string(); if (n.rfind("fiver.", 0) == 0) names.push_back(n); }
  std::sort(names.begin(), names.end());
  std::string err;
  auto wk = Working::make(dir);
  pid_t c = fork();
  if (c == 0) {
    auto B = Bigwig::make(dir, &err); // also clears what an earlier kill left behind
    if (B == nullptr) _exit(0);
    B->merge(false);
    std::this_thread::sleep_for(std::chrono::milliseconds(20));
    names.clear();
    for (auto &e : std::filesystem::directory_iterator(dir)) { std::string n = e.path().filename().string(); if (n.rfind("fiver.", 0) == 0) names.push_back(n); }
    std::map<std::string, std::string> dna;
    auto fz = B->featurizer(); auto tz = B->tokenizer();
    for (size_t i = 0; i < names.size(); i++) {
      if (!D.chance(1, 2)) continue;
      auto f = Fiver::unpickle(names[i], wk, fz, tz, &err, Compressor::make(PCN, ""), Compressor::make(FCN, ""), Compressor::make(TCN, ""));
      if (f == nullptr) continue;
      f->start();
      if (f->hazel(&err, D.range(8, 3000), "") != nullptr) f->discard();
    }
    _exit(0);
  }
  int st;
  waitpid(c, &st, 0);
}
static std::vector<std::string> HISTORY;
static void history(long no) {
  SURE.clear(); MAYBE.clear(); ERASED.clear(); LOG = ""; BAD = false; NTX = 0;
  std::filesystem::remove_all("b");
  std::string dir = "b";
  std::string opts = "tokenizer:name:ascii tokenizer:noxml";
  PCN = D.chance(1, 2) ? "post" : "null"; FCN = D.chance(1, 2) ? "zlib" : "null"; TCN = D.chance(1, 2) ? "zlib" : "null";
  opts += " idx:posting_compressor:" + PCN + " idx:fvalue_compressor:" + FCN + " txt:compressor:" + TCN;
  bool merging = D.chance(1, 2);
  MERGING = merging;
  LOG = merging ? " [merging on]" : " [merging off]";
  int sessions = (int)D.range(2, 5);
  bool fresh = true;
  int kills = 0, commits = 0;
  for (int s = 0; s < sessions + 1 && !BAD; s++) {
    bool last = s == sessions;
    int n = last ? 0 : (int)D.range(1, 6);
    std::vector<Plan> plans;
    std::vector<Step> steps;
    std::vector<int> open, ready;
    auto sure = ERASED;
    for (int i = 0; i < n; i++) {
      plans.push_back(plan());
      LOG += " " + show(plans.back());
      steps.push_back({0, i, 0});
      open.push_back(i);
      while (!open.empty() && D.chance(i + 1 == n ? 9 : 3, i + 1 == n ? 10 : 4)) {
        size_t x = D.below(open.size());
        int t = open[x];
        bool isready = std::find(ready.begin(), ready.end(), t) != ready.end();
        int k = (int)D.below(10);
        if (!isready) {
          if (k == 0) { steps.push_back({3, t, 0}); LOG += " abort(" + plans[t].id + ")"; open.erase(open.begin() + x); }
          else { steps.push_back({1, t, 0}); LOG += " ready(" + plans[t].id + ")"; ready.push_back(t); }
        } else if (k == 0) { steps.push_back({3, t, 0}); LOG += " abort(" + plans[t].id + ")"; open.erase(open.begin() + x); }
        else if (k <= 2 && open.size() > 1) {
          int u = open[(x + 1) % open.size()];
          if (std::find(ready.begin(), ready.end(), u) == ready.end()) { steps.push_back({1, u, 0}); ready.push_back(u); LOG += " ready(" + plans[u].id + ")"; }
          steps.push_back({4, t, u});
          LOG += " commit(" + plans[t].id + "," + plans[u].id + ")";
          open.erase(std::find(open.begin(), open.end(), t)); open.erase(std::find(open.begin(), open.end(), u));
        } else { steps.push_back({2, t, 0}); LOG += " commit(" + plans[t].id + ")"; open.erase(open.begin() + x); }
        if (D.chance(1, 8)) steps.push_back({6, 0, 0});
        if (merging && D.chance(1, 4)) steps.push_back({5, (int)D.below(4), 0});
      }
    }
    if (merging && D.chance(1, 2)) steps.push_back({5, 3, 0});
    long kill = last || D.chance(1, 5) ? 0 : D.range(1, D.chance(1, 2) ? 12 : 12 + 14 * n);
    unsigned part = (unsigned)D.below(100000);
    D.at(LOG.size() > 1500 ? LOG.substr(LOG.size() - 1500) : LOG);
    int rc = spawn(dir, fresh, opts, plans, steps, kill, part);
    alarm(60);
    D.count("sessions"); D.count("eval");
    if (rc == 77) { kills++; LOG += " KILLED at file operation " + std::to_string(kill) + ";"; D.count("kills"); if (!SH->checked) D.count("kills-while-opening"); }
    else if (rc != 0 || SH->msg[0]) {
      std::string m = report();
      D.fail((m.size() ? m : "session ended with status " + std::to_string(rc)) + " after" + (LOG.size() > 2500 ? " ..." + LOG.substr(LOG.size() - 2500) : LOG));
      return;
    } else LOG += " end of session;";
    if (SH->opened) fresh = false;
    if (SH->checked) { // which of the two was found is what stays
      if (SH->alt) for (auto &t : MAYBE) { SURE.push_back(t); }
      MAYBE.clear();
    }
    std::vector<std::pair<int, Tx>> sures, maybes;
    for (size_t i = 0; i < plans.size(); i++) {
      int st = SH->state[i];
      Tx t{st >= READY && st != ABORTED ? shard(plans[i], SH->base[i]) : nullptr, plans[i].id};
      if (st == COMMITTED) { sures.push_back({SH->order[i], t}); commits++; }
      else if (st == COMMITTING) maybes.push_back({SH->order[i], t});
    }
    auto by = [](const std::pair<int, Tx> &a, const std::pair<int, Tx> &b) { return a.first < b.first; };
    std::sort(sures.begin(), sures.end(), by); std::sort(maybes.begin(), maybes.end(), by);
    for (auto &x : sures) SURE.push_back(x.second);
    for (auto &x : maybes) MAYBE.push_back(x.second);
    // the model lists shards by address: a doubtful one may come before a sure one
    if (!last && D.chance(1, 4) && rc == 0 && !fresh) { convert(dir); LOG += " [some shards converted to compressed files]"; D.count("conversions"); }
    ERASED.clear();
    for (auto &t : SURE) for (auto &e : t.s->erased) ERASED.push_back(e);
    for (auto &t : MAYBE) for (auto &e : t.s->erased) ERASED.push_back(e);
  }
  if (kills && commits) D.nontrivial(LOG);
  D.sample(LOG.substr(0, 500));
}
int main(int argc, char **argv) {
  D.args(argc, argv);
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  long n = D.n(700, 6000);
  for (long i = 0; i < n && !D.fails; i++) history(i);
  std::filesystem::remove_all("b");
  return D.finish();
}
