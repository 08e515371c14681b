// Executes a plan against the real library and checks every answer against the models.
#include "model.h"
#include "plan.h"
#include <sys/personality.h>
#include <cstring>
#include <filesystem>
#include <fcntl.h>
#include <fstream>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <streambuf>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

#include "liblevenshtein/collection/dawg.h"
#include "liblevenshtein/collection/sorted_dawg.h"
#include "liblevenshtein/distance/merge_and_split_distance.h"
#include "liblevenshtein/distance/standard_distance.h"
#include "liblevenshtein/distance/transposition_distance.h"
#include "liblevenshtein/proto/liblevenshtein.pb.h"
#include "liblevenshtein/serialization/serializer.h"
#include "liblevenshtein/transducer/transducer.h"

// the command-line program of /repo/example, its main() renamed
int llsim_demo_main(int argc, char **argv) __attribute__((weak));

namespace ll = liblevenshtein;
namespace llp = liblevenshtein::proto;
namespace lld = liblevenshtein::distance;
namespace fs = std::filesystem;
using rt::count;
using rt::HostScope;
using rt::LibScope;
using rt::log_event;
using rt::soft_violation;
using std::string;
using std::to_string;
using std::vector;

#define CRASHES "crash invalid-access bad-free heap-corruption "
#define STUCK "deadlock no-progress hang lock-left-held bad-unlock memory-exhausted "
#define CONTENT "wrong-membership wrong-size wrong-enumeration wrong-candidates wrong-accept "
#define STORE "save-lied save-failed load-null load-wrong load-partial "
const char *mask_of(const string &p) {
  if (p == "C01") return " wrong-distance data-race unexpected-exception " CRASHES STUCK;
  if (p == "C02") return " crash " STUCK;
  if (p == "C03") return " wrong-distance unexpected-exception " CRASHES STUCK;
  if (p == "C04") return " data-race unexpected-exception eqhash order-repeat load-null load-wrong save-failed " CONTENT CRASHES STUCK;
  if (p == "C05") return " wrong-candidates wrong-enumeration order-repeat unexpected-exception " CRASHES STUCK;
  if (p == "C06") return " unexpected-exception eqhash order-repeat " CONTENT STORE CRASHES STUCK;
  if (p == "C07") return " unexpected-exception eqhash " CONTENT CRASHES STUCK;
  if (p == "C08") return " unexpected-exception eqhash " CONTENT STORE CRASHES STUCK;
  if (p == "C09") return " unexpected-exception load-partial load-null load-wrong " CRASHES STUCK;
  if (p == "C10") return " unexpected-exception weak-inconsistent leak " CRASHES STUCK;
  if (p == "C11") return " unexpected-exception leak " CONTENT STORE CRASHES STUCK;
  if (p == "C12") return " leak " CRASHES;
  if (p == "C14") return " law-broken unexpected-exception " CRASHES STUCK;
  if (p == "C15") return " not-minimal unexpected-exception " CRASHES STUCK;
  if (p == "C17") return " costly unexpected-exception " CRASHES STUCK;
  if (p == "C16") return " program " CRASHES "no-progress hang memory-exhausted unexpected-exception ";
  if (p == "C16k") return " program program-incomplete program-unreported " CRASHES "no-progress hang memory-exhausted unexpected-exception "; // the recorded findings
  if (p == "C13") return " order-cross order-repeat eqhash layout-diff load-null load-wrong " CRASHES;
  return "";
}

// ------------------------------------------------------------------- printing
static string q(const string &s) {
  string r = "\"";
  char b[8];
  size_t n = 0;
  for (unsigned char c : s) {
    if (++n > 60) { r += "...(" + to_string(s.size()) + ")"; break; }
    if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char)c;
  }
  return r + "\"";
}
static string head(const Terms &t) {
  string r = "{";
  for (size_t i = 0; i < t.v.size() && i < 8; i++) r += (i ? "," : "") + q(t.v[i]);
  if (t.v.size() > 8) r += ",...(" + to_string(t.v.size()) + ")";
  return r + "}";
}
static const char *alg_name[3] = {"standard", "transposition", "merge-and-split"};

// ----------------------------------------------------------- streams of a host
struct FaultOut : std::streambuf {
  string data;
  uint64_t limit = UINT64_MAX;
  int mode = 0;
  bool failed = false, seeks = false;
  uint64_t at = 0; // where the next byte goes
  void put(const char *s, uint64_t n) {
    if (at < data.size()) data.replace((size_t)at, (size_t)n, s, (size_t)n);
    else data.append(s, (size_t)n);
    at += n;
  }
  void header(uint64_t n) { // what the caller wrote in front of the dictionary
    seeks = true;
    for (uint64_t i = 0; i < n; i++) data += (char)(0x12 + i);
    at = data.size();
    if (limit != UINT64_MAX) limit += n;
  }
  std::streampos seekoff(std::streamoff o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    HostScope h;
    int64_t to = (int64_t)o + (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (int64_t)at : (int64_t)data.size());
    if (!seeks || to < 0 || to > (int64_t)data.size()) return std::streampos(std::streamoff(-1));
    at = (uint64_t)to;
    return std::streampos(std::streamoff(to));
  }
  std::streampos seekpos(std::streampos o, std::ios_base::openmode w) override { return seekoff(std::streamoff(o), std::ios_base::beg, w); }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    HostScope h;
    if (at + (uint64_t)n > limit) {
      uint64_t k = limit > at ? limit - at : 0;
      put(s, k);
      if (!failed) { failed = true; count(rt::C_STREAM_WFAIL); }
      if (mode == 1) throw std::runtime_error("simulated device failure");
      return (std::streamsize)k;
    }
    put(s, (uint64_t)n);
    return n;
  }
  int overflow(int c) override {
    char ch = (char)c;
    if (c == traits_type::eof()) return 0;
    return xsputn(&ch, 1) == 1 ? (unsigned char)ch : traits_type::eof();
  }
  int sync() override { return failed ? -1 : 0; }
};
struct FaultIn : std::streambuf {
  string data;
  uint64_t limit = UINT64_MAX;
  int mode = 0;
  uint64_t chunk = 0, pos = 0;
  bool failed = false, seeks = false;
  char buf[512];
  void header(uint64_t n) { // what the caller has read already
    seeks = true;
    string x;
    for (uint64_t i = 0; i < n; i++) x += (char)(0x12 + i);
    data = x + data;
    pos = n;
    if (limit != UINT64_MAX) limit += n;
  }
  std::streampos seekoff(std::streamoff o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    HostScope h;
    int64_t to = (int64_t)o + (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (int64_t)pos - (egptr() - gptr()) : (int64_t)data.size());
    if (!seeks || to < 0 || to > (int64_t)data.size()) return std::streampos(std::streamoff(-1));
    pos = (uint64_t)to;
    setg(buf, buf, buf);
    return std::streampos(std::streamoff(to));
  }
  std::streampos seekpos(std::streampos o, std::ios_base::openmode w) override { return seekoff(std::streamoff(o), std::ios_base::beg, w); }
  int underflow() override {
    HostScope h;
    uint64_t end = std::min<uint64_t>(data.size(), limit);
    if (pos >= end) {
      if (limit <= data.size()) {
        if (!failed) { failed = true; count(rt::C_STREAM_RFAIL); }
        if (mode == 1) throw std::runtime_error("simulated device failure");
      }
      return traits_type::eof();
    }
    uint64_t k = std::min<uint64_t>(end - pos, sizeof buf);
    if (chunk) { k = std::min<uint64_t>(k, 1 + (pos * 7919 + chunk) % chunk); count(rt::C_STREAM_CHUNK); }
    memcpy(buf, data.data() + pos, k);
    pos += k;
    setg(buf, buf, buf + k);
    return (unsigned char)buf[0];
  }
};

// ---------------------------------------------------------------------- state
struct DSlot {
  ll::Dawg *p = nullptr;
  TP t;
  uint64_t gen = 0;
  bool open = false; // finished but not cleaned up
};
struct QBase {
  virtual ~QBase() {}
  virtual void begin() = 0;
  virtual bool at_end() = 0;
  virtual void next() = 0;
  virtual void get(string &term, size_t &d, bool &has_d) = 0;
};
struct TBase {
  virtual ~TBase() {}
  virtual QBase *query(const string &term, size_t n, bool dflt) = 0;
};
template <class R> struct QImpl : QBase {
  ll::LazyIterator<R> it;
  ll::LazyQuery<R> *cur = nullptr;
  ll::LazyQuery<R> end;
  std::unique_ptr<TBase> own;
  explicit QImpl(ll::LazyIterator<R> &&i) : it(std::move(i)), end(it.end()) {}
  ~QImpl() override { delete cur; }
  void begin() override {
    delete cur;
    cur = nullptr;
    cur = new ll::LazyQuery<R>(it.begin());
  }
  bool at_end() override { return !(*cur != end); }
  void next() override { ++*cur; }
  void get(string &term, size_t &d, bool &has_d) override {
    if constexpr (std::is_same_v<R, string>) {
      const string &r = **cur;
      HostScope h;
      term.assign(r.data(), r.size());
      has_d = false;
    } else {
      const ll::Candidate &r = **cur;
      HostScope h;
      term.assign(r.first.data(), r.first.size());
      d = r.second;
      has_d = true;
    }
  }
};
template <ll::Algorithm A, class R> struct TImpl : TBase {
  ll::Transducer<A, R> t;
  explicit TImpl(ll::DawgNode *root) : t(root) {}
  QBase *query(const string &term, size_t n, bool dflt) override {
    if (dflt) return new QImpl<R>(t(term));
    return new QImpl<R>(t(term, n));
  }
};
static TBase *make_trans(ll::DawgNode *root, int alg, int res) {
  switch (alg * 2 + res) {
  case 0: return new TImpl<ll::Algorithm::STANDARD, string>(root);
  case 1: return new TImpl<ll::Algorithm::STANDARD, ll::Candidate>(root);
  case 2: return new TImpl<ll::Algorithm::TRANSPOSITION, string>(root);
  case 3: return new TImpl<ll::Algorithm::TRANSPOSITION, ll::Candidate>(root);
  case 4: return new TImpl<ll::Algorithm::MERGE_AND_SPLIT, string>(root);
  default: return new TImpl<ll::Algorithm::MERGE_AND_SPLIT, ll::Candidate>(root);
  }
}
struct Expect { std::unordered_map<string, size_t> d; };
struct TSlot { TBase *t = nullptr; int d = -1, alg = 0, res = 0; };
struct QSlot {
  QBase *q = nullptr;
  TBase *own = nullptr;
  int d = -1, t = -1, alg = 0, res = 0, client = 0;
  size_t n = 0;
  string term;
  TP terms;
  std::shared_ptr<Expect> ex;
  std::set<string> seen;
  size_t pos = 0;
  string key, rkey;
  bool ended = false;
};
struct EBox {
  ll::DawgIterator it, end;
  explicit EBox(ll::Dawg *d) : it(d->begin()), end(d->end()) {}
};
struct ESlot {
  EBox *e = nullptr;
  int d = -1, client = 0;
  TP terms;
  std::set<string> seen;
  size_t pos = 0;
  string key, rkey;
  bool ended = false;
};
struct Image {
  string bytes;
  vector<TP> allowed;
  bool may_null = true, weak = false, present = false;
};
constexpr int ND = 32, NQ = 32, NB = 16, NF = 8, NV = 9;
static DSlot D[ND];
static TSlot T[ND];
static QSlot Q[NQ];
static ESlot E[NQ];
static Image B[NB], F[NF];
static lld::Distance *V[NV];
static uint64_t next_gen = 1;
static std::map<string, vector<string>> *sequences;
static std::map<string, std::shared_ptr<Expect>> *expects;
static std::map<string, uint64_t> *digests;
static string scratch_dir;
static const Plan *plan;

static std::shared_ptr<Expect> expect_for(const TP &t, int alg, const string &term, size_t n) {
  string key = to_string(t->h) + "/" + to_string(alg) + "/" + to_string(n) + "/" + term;
  auto &e = (*expects)[key];
  if (!e) {
    e = std::make_shared<Expect>();
    for (auto &s : t->v) {
      size_t diff = s.size() > term.size() ? s.size() - term.size() : term.size() - s.size();
      if (alg != 2 && diff > n) continue;
      size_t d = ref_distance(alg, term, s);
      if (d <= n) e->d[s] = d;
    }
  }
  return e;
}
// the i-th item of a deterministic sequence
static void check_order(const string &key, size_t i, const string &item, const char *cls) {
  auto &s = (*sequences)[key];
  if (i < s.size()) {
    if (s[i] != item) soft_violation(cls, "item " + to_string(i) + " is " + q(item) + " but was " + q(s[i]) + " before (" + key.substr(0, 80) + ")");
  } else if (i == s.size()) s.push_back(item);
}

// -------------------------------------------------------- guarded library calls
enum Outcome { DONE, NOMEM };
struct Guard { bool fired = false; };
template <class Fn> static Outcome lib(const Op &op, uint64_t oom, bool persist, bool libonly, bool &fired, Fn fn) {
  fired = false;
  Outcome r = DONE;
  string what;
  bool bad = false;
  if (oom) rt::arm_oom(oom, persist, libonly);
  try {
    LibScope s;
    fn();
  } catch (const std::bad_alloc &) {
    r = NOMEM;
  } catch (const std::exception &e) {
    bad = true;
    what = e.what();
  } catch (...) {
    bad = true;
    what = "unknown exception";
  }
  if (oom) fired = rt::disarm_oom();
  if (bad) {
    soft_violation("unexpected-exception", string("operation '") + kind_name[op.kind] + "' threw: " + what);
    r = NOMEM;
  } else if (r == NOMEM && !fired) {
    soft_violation("unexpected-exception", string("operation '") + kind_name[op.kind] + "' reported exhausted memory although no allocation failed");
  }
  return r;
}
// Calls attempt(oom position) with the planned failing allocation(s), then without.
// attempt returns false if the operation reported the exhaustion.
template <class Fn> static void with_oom(const Op &op, Fn attempt) {
  if (op.f.kind == F_OOM) {
    if (op.f.sub == 1) { // a whole series of positions
      uint64_t at = op.f.p, stride = op.f.q ? op.f.q : 1;
      for (int k = 0; k < 40; k++, at += stride) {
        uint64_t before = rt::result->ctr[rt::C_OOM];
        attempt(at, false);
        if (rt::result->ctr[rt::C_OOM] == before) break;
      }
    } else {
      if (attempt(op.f.p, op.f.q == 1)) return;
    }
  }
  attempt(0, false);
}

// ------------------------------------------------------------ complete checks
static bool enumerate(const Op &op, ll::Dawg *d, vector<string> &out, size_t cap, uint64_t oom, bool &fired) {
  Outcome o = lib(op, oom, false, false, fired, [&] {
    auto it = d->begin();
    auto end = d->end();
    while (it != end) {
      string s = *it;
      {
        HostScope h;
        out.push_back(string(s.data(), s.size()));
        if (out.size() > cap) return;
      }
      ++it;
    }
  });
  count(rt::C_ENUMS);
  return o == DONE;
}
static string miss_key(uint64_t gen) { return "e#" + to_string(gen); }
// compares a complete enumeration with the model
static void check_enum(const vector<string> &got, const TP &t, uint64_t gen, const char *cls) {
  vector<string> s(got);
  std::sort(s.begin(), s.end());
  if (s != t->v) {
    string m = "enumeration yields " + to_string(got.size()) + " terms, expected " + to_string(t->v.size());
    for (size_t i = 1; i < s.size(); i++) if (s[i] == s[i - 1]) { m += "; " + q(s[i]) + " twice"; break; }
    for (auto &x : s) if (!t->has(x)) { m += "; " + q(x) + " is not a term"; break; }
    for (auto &x : t->v) if (!std::binary_search(s.begin(), s.end(), x)) { m += "; " + q(x) + " is missing"; break; }
    soft_violation(cls, m + " of " + head(*t));
    return;
  }
  uint64_t h = 0;
  for (size_t i = 0; i < got.size(); i++) {
    check_order(miss_key(gen), i, got[i], "order-repeat");
    check_order("E" + to_string(t->h), i, got[i], "order-cross");
    h = rt::mix(h, got[i].size() * 257 + (got[i].empty() ? 0 : (unsigned char)got[i].back()));
  }
  log_event(h);
}
static bool lookup(const Op &op, ll::Dawg *d, const string &s) {
  bool r = false, f;
  count(rt::C_LOOKUPS);
  lib(op, 0, false, false, f, [&] { r = d->contains(s); });
  return r;
}
static vector<string> near_misses(const TP &t, uint64_t salt, int n) {
  vector<string> r;
  rt::Rng g(rt::mix(t->h, salt));
  r.push_back("");
  for (int i = 0; i < n; i++) {
    string s = t->v.empty() ? string(1, (char)g.below(256)) : t->v[g.below(t->v.size())];
    switch (g.below(5)) {
    case 0: if (!s.empty()) s.pop_back(); break;
    case 1: s += (char)(t->v.empty() ? 'a' : t->v[g.below(t->v.size())].empty() ? 'b' : t->v[g.below(t->v.size())].c_str()[0]); break;
    case 2: if (!s.empty()) s[g.below(s.size())] = (char)g.below(256); break;
    case 3: if (!s.empty()) s.erase(0, 1); break;
    case 4: if (s.size() > 1) std::swap(s[0], s[s.size() - 1]); break;
    }
    r.push_back(s);
  }
  return r;
}
// true if dictionary d holds exactly t; why says what differs
static bool same_content(const Op &op, ll::Dawg *d, const TP &t, string &why, bool quickly) {
  size_t sz = 0;
  bool f;
  lib(op, 0, false, false, f, [&] { sz = d->size(); });
  if (sz != t->v.size()) { why = "size is " + to_string(sz) + ", expected " + to_string(t->v.size()); return false; }
  size_t stride = quickly && t->v.size() > 200 ? t->v.size() / 100 : 1;
  for (size_t i = 0; i < t->v.size(); i += stride)
    if (!lookup(op, d, t->v[i])) { why = "term " + q(t->v[i]) + " is missing"; return false; }
  for (auto &s : near_misses(t, 7, 6))
    if (lookup(op, d, s) != t->has(s)) { why = "membership of " + q(s) + " is wrong"; return false; }
  vector<string> e;
  if (!enumerate(op, d, e, t->v.size() + 2, 0, f)) { why = "enumeration failed"; return false; }
  std::sort(e.begin(), e.end());
  if (e != t->v) { why = "enumeration differs"; return false; }
  return true;
}
static void put_dict(int i, ll::Dawg *p, const TP &t, bool open) {
  D[i].p = p;
  D[i].t = t;
  D[i].gen = next_gen++;
  D[i].open = open;
  count(rt::C_DICTS);
}
static void close_q(int i) {
  QSlot &s = Q[i];
  if (!s.q) return;
  Op op;
  op.kind = K_CLOSEQ;
  bool f;
  if (!s.ended) count(rt::C_ABANDON);
  lib(op, 0, false, false, f, [&] { delete s.q; delete s.own; });
  s = QSlot();
}
static void close_e(int i) {
  ESlot &s = E[i];
  if (!s.e) return;
  Op op;
  op.kind = K_CLOSEE;
  bool f;
  if (!s.ended) count(rt::C_ABANDON);
  lib(op, 0, false, false, f, [&] { delete s.e; });
  s = ESlot();
}
static void close_t(int i) {
  if (!T[i].t) return;
  for (int k = 0; k < NQ; k++) if (Q[k].q && Q[k].t == i) close_q(k);
  Op op;
  op.kind = K_TRANS;
  bool f;
  lib(op, 0, false, false, f, [&] { delete T[i].t; });
  T[i] = TSlot();
}
static void free_dict(int i) {
  if (!D[i].p) return;
  for (int k = 0; k < NQ; k++) if (Q[k].q && Q[k].d == i) close_q(k);
  for (int k = 0; k < NQ; k++) if (E[k].e && E[k].d == i) close_e(k);
  for (int k = 0; k < ND; k++) if (T[k].t && T[k].d == i) close_t(k);
  Op op;
  op.kind = K_FREE;
  bool f;
  lib(op, 0, false, false, f, [&] { delete D[i].p; });
  D[i] = DSlot();
}
static ll::SortedDawg *build_from(vector<string> &v, int container) {
  if (container == 1) {
    std::list<string> l;
    { HostScope h; l.assign(v.begin(), v.end()); }
    ll::SortedDawg *r = ll::sorted_dawg(l.begin(), l.end());
    HostScope h;
    for (auto &s : l) std::fill(s.begin(), s.end(), '?');
    l.clear();
    return r;
  }
  if (container == 2) {
    std::set<string> l;
    { HostScope h; l.insert(v.begin(), v.end()); }
    ll::SortedDawg *r = ll::sorted_dawg(l.begin(), l.end());
    HostScope h;
    l.clear();
    return r;
  }
  ll::SortedDawg *r = ll::sorted_dawg(v.begin(), v.end());
  for (auto &s : v) std::fill(s.begin(), s.end(), '?');
  return r;
}

// -------------------------------------------------------------------- queries
static string qkey(const TP &t, int alg, size_t n, const string &term) { return "Q" + to_string(t->h) + "/" + to_string(alg) + "/" + to_string(n) + "/" + term; }
static string describe(const QSlot &s) {
  return string(alg_name[s.alg]) + " query " + q(s.term) + " with maximum distance " + to_string(s.n) + " over " + head(*s.terms);
}
// Checks the candidate the iterator stands on. The iterator is not at its end.
static void check_candidate(QSlot &s, const string &term, size_t d, bool has_d) {
  auto it = s.ex->d.find(term);
  count(rt::C_CANDS);
  log_event(term);
  if (it == s.ex->d.end()) soft_violation("wrong-candidates", describe(s) + " yields " + q(term) + ", which is " + (s.terms->has(term) ? "a term farther away" : "not a term"));
  else if (has_d && it->second != d)
    soft_violation("wrong-candidates", describe(s) + " yields " + q(term) + " with distance " + to_string(d) + " instead of " + to_string(it->second));
  if (!s.seen.insert(term).second) soft_violation("wrong-candidates", describe(s) + " yields " + q(term) + " twice");
  check_order(s.rkey, s.pos, term, "order-repeat");
  check_order(s.key, s.pos, term, "order-cross");
  s.pos++;
  if (s.pos > s.terms->v.size() + 4) rt::violation("wrong-candidates", describe(s) + " does not end");
}
static void check_complete(QSlot &s) {
  for (auto &e : s.ex->d)
    if (!s.seen.count(e.first)) soft_violation("wrong-candidates", describe(s) + " ends without yielding " + q(e.first) + " at distance " + to_string(e.second));
  s.ended = true;
  log_event(0xE0D);
}
static bool open_query(const Op &op, QSlot &s, ll::Dawg *d, const TP &t, uint64_t gen, int alg, int res, size_t n, TBase *shared, bool dflt, const string &term, uint64_t oom, bool persist) {
  s = QSlot();
  s.alg = alg;
  s.res = res;
  s.n = n;
  s.term = term;
  s.terms = t;
  s.ex = expect_for(t, alg, term, n);
  s.key = qkey(t, alg, n, term);
  s.rkey = "r" + to_string(gen) + s.key;
  count(rt::C_QUERIES);
  string *arg = new string(term); // the caller's string goes away right after the call
  bool f;
  TBase *own = nullptr;
  QBase *qq = nullptr;
  Outcome o = lib(op, oom, persist, false, f, [&] {
    if (!shared) own = make_trans(d->root(), alg, res);
    qq = (shared ? shared : own)->query(*arg, n, dflt);
    {
      HostScope h;
      std::fill(arg->begin(), arg->end(), '#');
      delete arg;
      arg = nullptr;
    }
    qq->begin();
  });
  delete arg;
  if (o != DONE) {
    bool g;
    lib(op, 0, false, false, g, [&] { delete qq; delete own; });
    return false;
  }
  s.q = qq;
  s.own = own;
  return true;
}
// Advances over up to `steps` candidates; returns false after an exhausted allocation.
static bool step_query(const Op &op, QSlot &s, uint64_t steps, uint64_t oom, bool persist) {
  if (!s.q || s.ended) return true;
  bool f;
  // a failing allocation is armed for the first advance only
  for (uint64_t k = 0; k < steps; k++) {
    string term;
    size_t d = 0;
    bool has = false, end = false;
    lib(op, 0, false, false, f, [&] {
      end = s.q->at_end();
      if (!end) s.q->get(term, d, has);
    });
    if (end) { check_complete(s); return true; }
    check_candidate(s, term, d, has);
    if (lib(op, oom, persist, false, f, [&] { s.q->next(); }) != DONE) return false;
    oom = 0;
  }
  return true;
}
static bool drain(const Op &op, ll::Dawg *d, const TP &t, uint64_t gen, int alg, int res, size_t n, TBase *shared, bool dflt, const string &term, uint64_t oom, bool persist, uint64_t oom_step) {
  QSlot s;
  bool ok = open_query(op, s, d, t, gen, alg, res, n, shared, dflt, term, oom_step ? 0 : oom, persist);
  if (!ok) return false;
  if (oom_step) {
    ok = step_query(op, s, oom_step - 1, 0, false);
    if (ok && !s.ended) ok = step_query(op, s, 1, oom, persist);
  }
  if (ok) ok = step_query(op, s, UINT64_MAX, 0, false);
  bool f;
  lib(op, 0, false, false, f, [&] { delete s.q; delete s.own; });
  return ok;
}

// --------------------------------------------------------------- saves, loads
// 7 is below a directory that does not exist, 6 is a directory that is not empty: nothing can be saved there
static bool no_place(int f) { return f == 6 || f == 7; }
static string path_of(int f) { return f == 7 ? scratch_dir + "/missing/f.pb" : f == 6 ? scratch_dir + "/folder.pb" : scratch_dir + "/f" + to_string(f) + ".pb"; }
static string folder_file() { return path_of(6) + "/kept"; }
static void clean_scratch() {
  HostScope h;
  std::error_code e;
  for (auto &x : fs::directory_iterator(scratch_dir, e))
    if (!x.is_directory(e)) ::unlink(x.path().c_str());
}
static string slurp(const string &p) {
  HostScope h;
  std::error_code e;
  if (fs::is_directory(p, e)) return "";
  std::ifstream in(p, std::ios::binary);
  std::ostringstream o;
  if (in) o << in.rdbuf();
  return o.str();
}
static void spew(const string &p, const string &b) {
  HostScope h;
  std::ofstream out(p, std::ios::binary | std::ios::trunc);
  out.write(b.data(), (std::streamsize)b.size());
}
static bool save_path(ll::Dawg *d, const string &p, int variant) {
  if (variant == 0) return ll::serialize_protobuf(d, p.c_str());
  if (variant == 1) return ll::serialize_protobuf(d, p);
  fs::path fp;
  { HostScope h; fp = p; }
  return ll::serialize_protobuf(d, fp);
}
static ll::Dawg *load_path(const string &p, int variant) {
  if (variant == 0) return ll::deserialize_protobuf(p.c_str());
  if (variant == 1) return ll::deserialize_protobuf(p);
  fs::path fp;
  { HostScope h; fp = p; }
  return ll::deserialize_protobuf(fp);
}
static void free_loaded(const Op &op, ll::Dawg *d) {
  bool f;
  lib(op, 0, false, false, f, [&] { delete d; });
}
// A dictionary from damaged bytes must be consistent in itself. Returns its terms, or null after an inconsistency.
static TP weak_check(const Op &op, ll::Dawg *d) {
  count(rt::C_WEAK);
  size_t sz = 0;
  bool f;
  lib(op, 0, false, false, f, [&] { sz = d->size(); });
  if (sz > 2000000) { soft_violation("weak-inconsistent", "a damaged image loads with size " + to_string(sz)); return nullptr; }
  vector<string> e;
  if (!enumerate(op, d, e, sz + 2, 0, f)) return nullptr;
  TP t = make_terms(e);
  if (e.size() != sz) { soft_violation("weak-inconsistent", "size is " + to_string(sz) + " but enumeration yields " + to_string(e.size()) + " terms"); return nullptr; }
  if (t->v.size() != e.size()) { soft_violation("weak-inconsistent", "enumeration repeats a term"); return nullptr; }
  for (auto &s : t->v)
    if (!lookup(op, d, s)) { soft_violation("weak-inconsistent", "enumerated term " + q(s) + " is not contained"); return nullptr; }
  for (auto &s : near_misses(t, 3, 10))
    if (lookup(op, d, s) != t->has(s)) { soft_violation("weak-inconsistent", "contains(" + q(s) + ") disagrees with the enumeration"); return nullptr; }
  // queries agree with the enumeration
  auto nm = near_misses(t, 5, 3);
  for (size_t i = 0; i < nm.size(); i++) {
    QSlot s;
    int alg = (int)(i % 3);
    if (nm[i].size() > 40) continue;
    if (!open_query(op, s, d, t, 0, alg, 1, 1, nullptr, false, nm[i], 0, false)) continue;
    size_t guard = 0;
    while (true) {
      string term;
      size_t dist = 0;
      bool has = false, end = false;
      lib(op, 0, false, false, f, [&] { end = s.q->at_end(); if (!end) s.q->get(term, dist, has); });
      if (end) break;
      auto it = s.ex->d.find(term);
      if (it == s.ex->d.end() || it->second != dist || !s.seen.insert(term).second || ++guard > t->v.size() + 4) {
        soft_violation("weak-inconsistent", describe(s) + " yields " + q(term) + " at distance " + to_string(dist));
        break;
      }
      lib(op, 0, false, false, f, [&] { s.q->next(); });
    }
    if (s.seen.size() != s.ex->d.size()) soft_violation("weak-inconsistent", describe(s) + " yields " + to_string(s.seen.size()) + " of " + to_string(s.ex->d.size()) + " terms");
    lib(op, 0, false, false, f, [&] { delete s.q; delete s.own; });
  }
  // it can be saved and loaded again
  FaultOut ob;
  bool ok = false;
  lib(op, 0, false, false, f, [&] { std::ostream os(&ob); ok = ll::serialize_protobuf(d, os); });
  FaultIn ib;
  ib.data = ob.data;
  ll::Dawg *d2 = nullptr;
  lib(op, 0, false, false, f, [&] { std::istream is(&ib); d2 = ll::deserialize_protobuf(is); });
  if (!ok || !d2) soft_violation("weak-inconsistent", "a dictionary loaded from a damaged image cannot be saved and loaded again");
  else {
    string why;
    if (!same_content(op, d2, t, why, false)) soft_violation("weak-inconsistent", "a dictionary loaded from a damaged image changes when saved and loaded: " + why);
  }
  if (d2) free_loaded(op, d2);
  return t;
}
// An image of very few nodes and very many terms: every node of a level leads to the next one with several labels.
static void ladder(const Op &op, uint64_t levels, uint64_t width, uint64_t seed, int claim) {
  llp::Dictionary m;
  rt::Rng g(seed);
  vector<uint64_t> wide; // per level: its number of labels
  unsigned __int128 terms = 0;
  bool fits = true;
  string bytes;
  {
    HostScope h;
    vector<bool> fin;
    for (uint64_t i = 0; i <= levels; i++) {
      m.add_node_id(1000 + i);
      fin.push_back(i == levels || g.chance(100));
      wide.push_back(i == levels ? 0 : 1 + g.below(width));
      if (fin.back()) m.add_final_node_id(1000 + i);
      for (uint64_t k = 0; k < wide.back(); k++) { auto *e = m.add_edge(); e->set_source_id(1000 + i); e->set_label((int)('a' + k)); e->set_target_id(1001 + i); }
    }
    unsigned __int128 big = (unsigned __int128)1 << 64;
    uint64_t low = 0; // modulo 2^64
    for (uint64_t i = levels + 1; i-- > 0;) {
      unsigned __int128 n = fits ? terms * wide[i] + (fin[i] ? 1 : 0) : big;
      low = low * wide[i] + (fin[i] ? 1 : 0);
      if (n >= big) fits = false;
      terms = n;
    }
    m.set_root_id(1000);
    m.set_size(low + (uint64_t)claim);
    bytes = m.SerializeAsString();
    count(rt::C_CORRUPT);
  }
  bool f;
  FaultIn ib;
  ib.data = bytes;
  ll::Dawg *d = nullptr;
  lib(op, 0, false, false, f, [&] { std::istream is(&ib); d = ll::deserialize_protobuf(is); });
  if (d) count(rt::C_WEAK);
  if (!d) return;
  size_t sz = 0;
  lib(op, 0, false, false, f, [&] { sz = d->size(); });
  string who = "an image of " + to_string(levels + 1) + " nodes";
  if (!fits || sz != (uint64_t)terms || claim) soft_violation("weak-inconsistent", who + " loads with size " + to_string(sz) + ", but it has " + (fits ? to_string((uint64_t)terms) : string("more than 2^64")) + " terms");
  else {
    string t;
    { HostScope h; for (uint64_t i = 0; i < levels; i++) t += (char)('a' + g.below(wide[i])); }
    if (!lookup(op, d, t)) soft_violation("weak-inconsistent", who + " does not contain its term " + q(t));
    if (lookup(op, d, t + "a") || lookup(op, d, "~" + t)) soft_violation("weak-inconsistent", who + " contains a term that is none");
  }
  free_loaded(op, d);
}
// ---------------------------------------------------------------------- costs
// Costs are steps of the calling thread: its memory accesses in the code under test and its synchronisation points.
// Bounds leave a factor of at least four to what the code needs, and what breaks them grows without limit.
static void within(const char *what, uint64_t got, uint64_t limit, const string &about) {
  count(rt::C_COSTS);
  if (getenv("LLSIM_COST")) fprintf(stderr, "COST %s %.4f %llu of %llu\n", what, (double)got / (double)limit, (unsigned long long)got, (unsigned long long)limit);
  if (got > limit) soft_violation("costly", about + (string(what) == "retained" ? " has " : " takes ") + to_string(got) + (string(what) == "retained" ? "" : " steps") + ", expected at most " + to_string(limit));
}
template <class Fn> static uint64_t cost(const Op &op, Fn fn) {
  bool f;
  uint64_t a = rt::my_steps();
  lib(op, 0, false, false, f, fn);
  return rt::my_steps() - a;
}
// Opens a query, reads up to `upto` candidates and closes it; more tells whether there were others.
static uint64_t query_cost(const Op &op, ll::Dawg *d, int alg, size_t n, const string &term, size_t upto, size_t *read = nullptr) {
  size_t k = 0;
  uint64_t c = cost(op, [&] {
    TBase *t = make_trans(d->root(), alg, 1);
    QBase *it = t->query(term, n, false);
    it->begin();
    while (!it->at_end()) {
      k++;
      if (k >= upto) break;
      it->next();
    }
    delete it;
    delete t;
  });
  count(rt::C_QUERIES);
  if (read) *read = k;
  return c;
}
static void graph_costs(const Op &op, uint64_t levels, uint64_t width, uint64_t seed) {
  llp::Dictionary m;
  rt::Rng g(seed);
  string bytes, t;
  uint64_t nodes = levels + 1, edges = 0;
  {
    HostScope h;
    uint64_t terms = 1;
    for (uint64_t i = 0; i <= levels; i++) m.add_node_id(4096 + 16 * i);
    m.add_final_node_id(4096 + 16 * levels);
    for (uint64_t i = 0; i < levels; i++) {
      uint64_t w = terms > (1ull << 60) / width ? 1 : width;
      terms *= w;
      t += (char)('a' + g.below(w));
      for (uint64_t k = 0; k < w; k++, edges++) { auto *e = m.add_edge(); e->set_source_id(4096 + 16 * i); e->set_label((uint32_t)('a' + k)); e->set_target_id(4096 + 16 * (i + 1)); }
    }
    m.set_root_id(4096);
    m.set_size(terms);
    bytes = m.SerializeAsString();
  }
  string who = "graph of " + to_string(nodes) + " nodes and " + to_string(edges) + " edges";
  uint64_t unit = (nodes + edges) * 64;
  FaultIn ib;
  ib.data = bytes;
  ll::Dawg *d = nullptr;
  within("graph-load", cost(op, [&] { std::istream is(&ib); d = ll::deserialize_protobuf(is); }), 40000 + 100 * unit, "loading a " + who);
  if (!d) return;
  bool in = false;
  within("graph-lookup", cost(op, [&] { in = d->contains(t); }), 1000 * (t.size() + 2), "a lookup in a " + who);
  within("graph-query", query_cost(op, d, (int)g.below(3), 0, t, 2), 40000 + 6000 * (t.size() + 2) * width, "an exact query over a " + who);
  FaultOut ob;
  within("graph-save", cost(op, [&] { std::ostream os(&ob); ll::serialize_protobuf(d, os); }), 40000 + 100 * unit, "saving a " + who);
  within("graph-free", cost(op, [&] { delete d; }), 40000 + 100 * unit, "destroying a " + who);
}
static void build_costs(const Op &op, const vector<string> &l, int container, uint64_t salt) {
  TP t = make_terms(l);
  uint64_t chars = 0, squares = 0;
  for (auto &s : t->v) { chars += s.size() + 1; squares += (s.size() + 1) * (s.size() + 1); }
  uint64_t bits = 1;
  while ((chars >> bits) != 0) bits++;
  vector<string> v(t->v);
  ll::Dawg *d = nullptr;
  string who = "a dictionary of " + to_string(t->v.size()) + " terms and " + to_string(t->total) + " characters";
  within("build", cost(op, [&] { d = build_from(v, container); }), 40000 + 400 * squares, "building " + who);
  if (!d) return;
  rt::Rng g(salt);
  for (int i = 0; i < 3; i++) {
    string s = t->v.empty() ? string("x") : t->v[g.below(t->v.size())] + (g.chance(300) ? "x" : "");
    bool in;
    within("lookup", cost(op, [&] { in = d->contains(s); }), 1000 * (s.size() + 2), "looking " + q(s) + " up in " + who);
  }
  within("size", cost(op, [&] { d->size(); }), 1000, "the size of " + who);
  vector<string> e;
  uint64_t one = cost(op, [&] { auto it = d->begin(); });
  bool f;
  uint64_t all = cost(op, [&] { enumerate(op, d, e, t->v.size() + 2, 0, f); });
  within("enumeration", all, 40000 + 600 * chars, "enumerating " + who);
  if (t->v.size() >= 300 && t->v[0].size() < 3) within("enumeration-lazy", one, 40000 + all / 3, "creating an iterator over " + who);
  FaultOut ob;
  within("save", cost(op, [&] { std::ostream os(&ob); ll::serialize_protobuf(d, os); }), 40000 + 200 * chars * bits, "saving " + who);
  FaultIn ib;
  ib.data = ob.data;
  ll::Dawg *d2 = nullptr;
  within("load", cost(op, [&] { std::istream is(&ib); d2 = ll::deserialize_protobuf(is); }), 40000 + 200 * chars * bits, "loading " + who);
  within("free", cost(op, [&] { delete d; delete d2; }), 40000 + 200 * chars * bits, "destroying twice " + who);
}
// Judges what a load of image m returned; keeps the dictionary in slot i (or frees it if i < 0).
static void judge_load(const Op &op, ll::Dawg *d, const Image &m, bool lossy, int i, const string &what) {
  count(d ? rt::C_LOADS_OK : rt::C_LOADS_NULL);
  log_event(d ? 0x10AD1 : 0x10AD0);
  if (!d) {
    if (!m.may_null && !lossy && !m.weak) soft_violation("load-null", what + ": an intact save of " + head(*m.allowed[0]) + " loads as null");
    return;
  }
  TP t;
  if (m.weak) {
    t = weak_check(op, d);
  } else {
    string why, first;
    for (auto &a : m.allowed) {
      if (same_content(op, d, a, why, false)) { t = a; break; }
      if (first.empty()) first = why + " of " + head(*a);
    }
    if (!t) {
      if (m.allowed.empty()) first = "nothing was ever saved there";
      soft_violation(m.may_null || lossy ? "load-partial" : "load-wrong", what + ": the loaded dictionary is wrong: " + first);
    }
  }
  if (i >= 0 && t) put_dict(i, d, t, false);
  else free_loaded(op, d);
}
static bool soft_fault(int k) { return k == rt::FF_SHORT_W || k == rt::FF_EINTR_W || k == rt::FF_SHORT_R || k == rt::FF_EINTR_R; }

// Runs fn in a process of its own that a crash fault may end; returns its exit code.
template <class Fn> static int in_process(Fn fn) {
  pid_t pid = fork();
  if (pid < 0) rt::harness_error("fork");
  if (pid == 0) {
    rt::child_timer();
    int c = fn();
    _exit(c);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  if (!WIFEXITED(st)) rt::violation("crash", "a process was ended by a signal");
  int c = WEXITSTATUS(st);
  if (c >= 10 && c <= 12) _exit(c); // the nested process already reported
  return c;
}
// Does one K_ORDER operation in a process started afresh, at addresses chosen by the system.
static uint64_t last_digest;
static bool fresh_process(const Op &op, uint64_t &h) {
  Plan q;
  q.prop = plan->prop;
  q.cfg = plan->cfg;
  q.cfg.races = false;
  q.lists = plan->lists;
  q.ops = {op};
  q.ops[0].client = 0;
  q.ops[0].a[4] = 0;
  string in = scratch_dir + "/fresh.plan", out = scratch_dir + "/fresh.out";
  spew(in, to_text(q));
  int c = in_process([&] {
    int per = personality(0xffffffff);
    if (per >= 0) personality((unsigned long)per & ~(unsigned long)ADDR_NO_RANDOMIZE);
    setenv("LLSIM_ASLR", "1", 1);
    execl("/proc/self/exe", "llsim", "digest", in.c_str(), out.c_str(), (char *)nullptr);
    return 99;
  });
  string r = slurp(out);
  ::unlink(in.c_str());
  ::unlink(out.c_str());
  if (c == 50 && r.size() == 16) {
    h = strtoull(r.c_str(), nullptr, 16);
    return true;
  }
  if (c == 51) rt::violation("crash", "an operation fails in a process started afresh: " + r);
  rt::harness_error("a process could not be started afresh");
  return false;
}
uint64_t digest_of_last() { return last_digest; }
// What an abrupt power loss leaves of a file that was not synchronised.
static void power_loss(int f, const string &before, int mode, uint64_t r) {
  string p = path_of(f), now = slurp(p);
  switch (mode) {
  case 1: if (!now.empty()) { now.resize(r % (now.size() + 1)); spew(p, now); } break;
  case 2: spew(p, before); break;
  case 3: spew(p, ""); break;
  case 4:
    if (!now.empty()) {
      size_t k = r % now.size();
      std::fill(now.begin() + (long)k, now.end(), '\0');
      spew(p, now);
    }
    break;
  case 5: // sectors that never reached the disk read as zeroes
    for (size_t a = 0; a < now.size(); a += 512)
      if (rt::mix(r, a) % 3 == 0) std::fill(now.begin() + (long)a, now.begin() + (long)std::min(now.size(), a + 512), '\0');
    spew(p, now);
    break;
  default: return;
  }
  count(rt::C_POWERLOSS);
}
static void after_save(Image &m, const TP &t, bool ok, bool opened) {
  if (ok) {
    m.allowed = {t};
    m.may_null = false;
    m.weak = false;
    m.present = true;
  } else if (opened) {
    m.allowed.push_back(t);
    m.may_null = true;
    m.present = true;
  }
}

// ----------------------------------------------------------------- proto edits
static bool graph_count(const llp::Dictionary &m, uint64_t &terms) {
  std::map<uint64_t, vector<uint64_t>> adj;
  std::set<uint64_t> nodes(m.node_id().begin(), m.node_id().end()), fin(m.final_node_id().begin(), m.final_node_id().end());
  for (auto &e : m.edge()) adj[e.source_id()].push_back(e.target_id());
  std::map<uint64_t, std::pair<uint64_t, uint64_t>> memo;
  std::set<uint64_t> path;
  bool ok = true;
  std::function<std::pair<uint64_t, uint64_t>(uint64_t)> go = [&](uint64_t n) -> std::pair<uint64_t, uint64_t> {
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    if (!path.insert(n).second) { ok = false; return {0, 0}; }
    std::pair<uint64_t, uint64_t> r{fin.count(n) ? 1 : 0, 1};
    for (auto c : adj[n]) {
      auto x = go(c);
      r.first += x.first;
      r.second += x.second;
      if (r.second > 20000) ok = false;
      if (!ok) break;
    }
    path.erase(n);
    memo[n] = r;
    return r;
  };
  auto r = go(m.root_id());
  terms = r.first;
  return ok;
}
static void mutate_proto(llp::Dictionary &m, int kind, uint64_t p, uint64_t qv) {
  count(rt::C_CORRUPT);
  int ne = m.edge_size(), nn = m.node_id_size(), nf = m.final_node_id_size();
  auto edge = [&](uint64_t k) { return m.mutable_edge((int)(k % (uint64_t)ne)); };
  auto node = [&](uint64_t k) { return m.node_id((int)(k % (uint64_t)nn)); };
  bool fix = kind >= 100; // make the size agree with the damaged graph, so that it may be accepted
  kind %= 100;
  switch (kind) {
  case 0: if (ne) { m.mutable_edge()->DeleteSubrange((int)(p % (uint64_t)ne), 1); } break;
  case 1: if (ne && nn) edge(p)->set_target_id(node(qv)); break;
  case 2: if (ne && nn) { auto *e = m.add_edge(); *e = m.edge((int)(p % (uint64_t)ne)); e->set_target_id(node(qv)); } break;
  case 3: if (ne) edge(p)->set_target_id(m.edge((int)(p % (uint64_t)ne)).target_id() + 1 + qv % 64); break;
  case 4: if (ne) edge(p)->set_target_id(qv % 2 ? m.root_id() : edge(p)->source_id()); break;
  case 5: if (nn) m.set_root_id(qv % 3 == 0 ? m.root_id() + 8 : node(p)); break;
  case 6: m.set_size(qv % 3 == 0 ? m.size() + 1 : qv % 3 == 1 ? m.size() - 1 : p); break;
  case 7: m.add_final_node_id(nn ? node(p) : p); break;
  case 8: if (nf) { auto *f = m.mutable_final_node_id(); f->erase(f->begin() + (long)(p % (uint64_t)nf)); } break;
  case 9: m.add_node_id(p + 0x7777); break;
  case 10: if (nn) m.add_node_id(node(p)); break;
  case 11: if (nn) { auto *f = m.mutable_node_id(); f->erase(f->begin() + (long)(p % (uint64_t)nn)); } break;
  case 12: if (ne) edge(p)->set_label(edge(p)->label() + 256); break;
  case 13: if (ne > 1) { auto a = edge(p)->label(); edge(p)->set_label(edge(qv)->label()); edge(qv)->set_label(a); } break;
  case 14: m.clear_root_id(); break;
  case 15: if (nn && ne) { auto *e = m.add_edge(); e->set_source_id(node(p)); e->set_target_id(node(qv)); e->set_label((int)(p % 256)); } break;
  case 16: m.clear_edge(); break;
  case 17: m.clear_node_id(); break;
  case 18: if (ne) edge(p)->set_source_id(nn ? node(qv) : 0); break;
  case 19: if (ne) { auto *e = m.add_edge(); *e = m.edge((int)(p % (uint64_t)ne)); } break;
  case 20: { uint64_t extra = 0x5550 + p % 7; m.add_node_id(extra); auto *e = m.add_edge(); e->set_source_id(nn ? node(qv) : 0); e->set_target_id(extra); e->set_label((int)(qv % 256)); if (p % 2) m.add_final_node_id(extra); break; }
  }
  if (fix) {
    uint64_t t = 0;
    if (graph_count(m, t)) m.set_size(t);
  }
}

// --------------------------------------------------------------------- damage
static string damage(const string &b, const string &other, int kind, uint64_t p, uint64_t qv) {
  string r = b;
  uint64_t n = b.size();
  count(rt::C_CORRUPT);
  rt::Rng g(rt::mix(p, qv));
  auto at = [&](uint64_t k) { return n ? k % n : 0; };
  switch (kind) {
  case 0: if (n) r[at(p)] = (char)(r[at(p)] ^ (1 << (qv % 8))); break;
  case 1: if (n) { uint64_t a = at(p), l = 1 + qv % 64; for (uint64_t i = a; i < n && i < a + l; i++) r[i] = 0; } break;
  case 2: r = b.substr(0, at(p)) + (other.empty() ? "" : other.substr(qv % other.size())); break;
  case 3: r.insert(r.begin() + (long)at(p), (char)qv); break;
  case 4: if (n) r.erase(at(p), 1 + qv % 16); break;
  case 5: if (n) { uint64_t a = at(p); r.insert(a, b.substr(a, 1 + qv % 32)); } break;
  case 6: if (n) r[at(p)] = (char)qv; break;
  case 7: for (uint64_t i = 0, k = 1 + qv % 40; i < k; i++) r += (char)g.below(256); break;
  case 8: for (int k = 0; k < 3 && n; k++) { uint64_t i = g.below(n); r[i] = (char)(r[i] ^ (1 << g.below(8))); } break;
  case 9: r.clear(); for (uint64_t i = 0, k = qv % 200; i < k; i++) r += (char)g.below(256); break;
  case 10: r = b + other; break;
  case 11: if (n) { uint64_t a = at(p) & ~511ull; for (uint64_t i = a; i < n && i < a + 512; i++) r[i] = 0; } break;
  case 12: if (n) { uint64_t a = at(p), c = at(qv); std::swap(r[a], r[c]); } break;
  case 13: if (n > 2) { // nudge a byte: small changes of ids, labels and counts
      uint64_t a = at(p);
      r[a] = (char)(r[a] + (qv % 2 ? 1 : -1));
    } break;
  case 14: if (n > 2) r[n - 1] = (char)(r[n - 1] + (int)(qv % 5) - 2); break; // the term count
  }
  return r;
}

// ------------------------------------------------------------------- sessions
static int session(const Op &op, const TP &terms, const vector<string> &list) {
  // a: file, list, variant, algorithm, n, layout, load-fault, load-p, load-q, power, nop
  int f = (int)op.a[0], variant = (int)op.a[2], alg = (int)op.a[3];
  size_t n = (size_t)op.a[4];
  string path = path_of(f);
  Image &m = F[f];
  bool fired;
  ll::Dawg *d = nullptr;
  count(rt::C_SESSIONS);
  if (op.a[6]) rt::fs_arm((int)op.a[6], (uint64_t)op.a[7], (uint64_t)op.a[8]);
  lib(op, 0, false, false, fired, [&] { d = load_path(path, variant); });
  bool lf = rt::fs_disarm();
  bool loaded = d != nullptr;
  if (!d) {
    if (!m.may_null && !(lf && !soft_fault((int)op.a[6]))) soft_violation("load-null", "session: an intact save loads as null");
    vector<string> v(list);
    lib(op, 0, false, false, fired, [&] { d = build_from(v, variant % 3 == 2 ? 0 : variant % 3); });
    if (!d) rt::violation("wrong-accept", "a session cannot build its dictionary");
  }
  log_event(loaded ? 0x5E1 : 0x5E0);
  count(loaded ? rt::C_LOADS_OK : rt::C_LOADS_NULL);
  size_t sz = 0;
  lib(op, 0, false, false, fired, [&] { sz = d->size(); });
  if (sz != terms->v.size()) soft_violation("wrong-size", string("session over a ") + (loaded ? "loaded" : "built") + " dictionary: size " + to_string(sz) + ", expected " + to_string(terms->v.size()));
  {
    int k = 0;
    for (auto &s : op.s) drain(op, d, terms, 0, (alg + (k++ % 2 ? 1 : 0)) % 3, 1, n, nullptr, false, s, 0, false, 0);
  }
  // all terms within an unlimited distance is the whole dictionary: enumeration stands in for it
  vector<string> e;
  if (enumerate(op, d, e, terms->v.size() + 2, 0, fired)) {
    std::sort(e.begin(), e.end());
    if (e != terms->v) soft_violation("wrong-enumeration", string("session over a ") + (loaded ? "loaded" : "built") + " dictionary does not hold its terms");
  }
  bool ok = false;
  if (op.f.kind == F_FS) rt::fs_arm(op.f.sub, op.f.p, op.f.q);
  lib(op, 0, false, false, fired, [&] { ok = save_path(d, path, variant); });
  bool sf = rt::fs_disarm();
  bool either = sf && op.f.sub == rt::FF_META; // the library may do without what failed, or not
  bool hard = sf && !either && !soft_fault(op.f.sub);
  if (hard && ok) soft_violation("save-lied", "a session's save reports success although the storage failed");
  if (!hard && !either && !ok) soft_violation("save-failed", "a session's save reports failure although the storage worked");
  count(ok ? rt::C_SAVES_OK : rt::C_SAVES_FAIL);
  lib(op, 0, false, false, fired, [&] { delete d; });
  return 32 + (loaded ? 1 : 0) + (ok ? 2 : 0) + (op.f.kind == F_FS && op.f.sub == rt::FF_OPEN && sf ? 4 : 0);
}

// ------------------------------------------------------------- command-line program
static void after_save(Image &m, const TP &t, bool ok, bool opened);
static void power_loss(int f, const string &before, int mode, uint64_t r);
// What the program printed in reply to one query: nothing of it may be anything but the answers of a complete dictionary.
static bool parse_answers(const string &seg, const string &query, std::map<string, size_t> &out, string &why) {
  string pre = "d(\"" + query + "\", \"";
  size_t at = 0;
  while (seg.compare(at, pre.size(), pre) == 0) {
    size_t e = seg.find('\n', at);
    if (e == string::npos) { why = "an answer breaks off"; return false; }
    string line = seg.substr(at + pre.size(), e - at - pre.size());
    size_t k = line.rfind("\") = ");
    if (k == string::npos) { why = "an answer cannot be read: " + q(line); return false; }
    string term = line.substr(0, k);
    if (!out.emplace(term, (size_t)strtoull(line.c_str() + k + 5, nullptr, 10)).second) { why = q(term) + " is answered twice"; return false; }
    at = e + 1;
  }
  return true;
}
static bool answers_match(const TP &t, int alg, size_t n, const vector<string> &qs, const vector<std::map<string, size_t>> &got, string &why) {
  for (size_t i = 0; i < qs.size(); i++) {
    std::map<string, size_t> want;
    for (auto &s : t->v) {
      size_t d = ref_distance(alg, s, qs[i]);
      if (d <= n) want[s] = d;
    }
    if (want != got[i]) {
      why = "of " + head(*t) + " the query " + q(qs[i]) + " within " + to_string(n) + " yields " + to_string(got[i].size()) + " candidates where " + to_string(want.size()) + " were expected, or others";
      return false;
    }
  }
  return true;
}
static void program(const Op &op) {
  if (!llsim_demo_main) rt::harness_error("the command-line program did not compile");
  auto A = [&](size_t i) -> int64_t { return i < op.a.size() ? op.a[i] : 0; };
  if (A(1) >= (int64_t)plan->lists.size()) return;
  int f = (int)A(0), alg = A(4) == 3 ? 1 : (int)A(4);
  size_t n = A(5) < 0 ? 2 : (size_t)A(5);
  string save = path_of(f), list = scratch_dir + "/list.txt", in = scratch_dir + "/in.txt", out = scratch_dir + "/out.txt";
  bool given = !(A(2) & 2), fired = false;
  Image &m = F[f];
  vector<string> lines;
  string text, input;
  for (auto &s : plan->lists[(size_t)A(1)]) text += s + "\n";
  if (A(2) & 1 && !text.empty()) text.pop_back();
  for (size_t i = 0; i < text.size();) { size_t e = std::min(text.find('\n', i), text.size()); lines.push_back(text.substr(i, e - i)); i = e + 1; }
  vector<string> qs;
  for (auto &s : op.s) if (!s.empty() && s.find('\n') == string::npos) { qs.push_back(s); input += s + "\n"; }
  if (A(6) == 0) input += "\n";
  else if (A(6) == 2 && !input.empty()) input.pop_back();
  spew(list, text);
  spew(in, input);
  ::unlink(out.c_str());
  string before = slurp(save);
  bool had = ::access(save.c_str(), F_OK) == 0;
  TP L = make_terms(lines);
  count(rt::C_PROGRAMS);
  int fk = op.f.kind == F_FS ? op.f.sub : 0;
  int c = in_process([&] {
    rt::set_layout((int)A(3));
    vector<string> args = {"liblevenshtein-demo", "--serialization-path", save};
    if (given) { args.push_back("--dictionary-path"); args.push_back(list); }
    if (A(4) < 3) args.push_back(A(4) == 0 ? "--standard" : A(4) == 1 ? "--transposition" : "--merge-and-split");
    if (A(5) >= 0) { args.push_back("--max-distance"); args.push_back(to_string((uint64_t)A(5))); }
    vector<char *> argv;
    for (auto &s : args) argv.push_back(s.data());
    argv.push_back(nullptr);
    int i0 = ::open(in.c_str(), O_RDONLY), o1 = ::open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e2 = ::open("/dev/null", O_WRONLY);
    dup2(i0, 0); dup2(o1, 1); dup2(e2, 2);
    if (chdir(scratch_dir.c_str())) rt::harness_error("chdir");
    int rc = 0;
    bool fd;
    if (A(7)) rt::fs_only(A(7) == 1 ? save : list);
    if (fk) rt::fs_arm(fk, op.f.p, op.f.q);
    lib(op, 0, false, false, fd, [&] { rc = llsim_demo_main((int)args.size(), argv.data()); });
    bool hit = rt::fs_disarm();
    rt::fs_only("");
    fflush(nullptr);
    return 64 + (rc & 31) + (hit ? 32 : 0);
  });
  log_event((uint64_t)c);
  auto old = m.allowed;
  bool was_null_ok = m.may_null || !m.present;
  string who = string("a session of the program over ") + (was_null_ok ? "a missing or unreadable save" : "a save") + (given ? " with a list of " + head(*L) : "");
  vector<TP> may = m.allowed; // what the program may hold
  if (given) may.push_back(L);
  TP none = make_terms({});
  if (c == rt::CRASH_EXIT) {
    m.allowed = may;
    if (!given && was_null_ok) m.allowed.push_back(none); // see below
    m.may_null = true;
    m.present = true;
  } else {
    if (c < 64) { // ended by exit()
      fired = fk != 0;
      c = (c & 31) + 64;
    } else fired = c & 32;
    int rc = c & 31;
    bool hard = fired && fk != rt::FF_META && !soft_fault(fk), write = fk == rt::FF_ENOSPC || fk == rt::FF_EIO_W || fk == rt::FF_CLOSE || fk == rt::FF_META;
    bool lost = fired && (fk == rt::FF_EIO_R || fk == rt::FF_OPEN || fk == rt::FF_CLOSE); // reading may have failed
    if (!lost && !was_null_ok) may = m.allowed; // an intact save has to be used
    string o = slurp(out);
    string now = slurp(save);
    vector<string> seg;
    for (size_t i = o.find("query> "); i != string::npos;) {
      size_t e = o.find("query> ", i + 7);
      seg.push_back(o.substr(i + 7, e == string::npos ? e : e - i - 7));
      i = e;
    }
    log_event(seg.size());
    auto bad = [&](const string &w) { soft_violation("program", who + ": " + w); };
    vector<TP> fits;
    TP incomplete;
    // Recorded finding: a program that cannot read its list goes on with the lines it has got.
    bool partial = (was_null_ok || lost) && (!given || (fired && (fk == rt::FF_EIO_R || fk == rt::FF_OPEN)));
    auto prefix = [&](const vector<std::map<string, size_t>> &got) {
      string why;
      size_t most = given && fk == rt::FF_EIO_R ? lines.size() : 0;
      TP t, best;
      bool any = false;
      if (most && f != 7) { // the save tells how many lines
        ll::Dawg *d = nullptr;
        bool fd;
        lib(op, 0, false, false, fd, [&] { d = load_path(save, 0); });
        if (d) {
          lib(op, 0, false, false, fd, [&] { any = true; most = d->size(); });
          free_loaded(op, d);
        }
      }
      size_t from = any ? most : 0;
      for (size_t k = from; k <= lines.size(); k++) {
        t = make_terms(vector<string>(lines.begin(), lines.begin() + (long)k));
        if (any && t->v.size() > most) break;
        if ((!any || t->v.size() == most) && answers_match(t, alg, n, qs, got, why)) { best = t; break; }
        if (!any && k == most) break;
      }
      return best;
    };
    if (seg.empty()) {
      count(rt::C_PROGRAM_REFUSED);
      if (rc == 0) bad("it neither asks for queries nor reports a failure");
      if (!hard && !(was_null_ok && !given)) bad("it ends with code " + to_string(rc) + " although it could read a dictionary");
    } else {
      string why;
      vector<std::map<string, size_t>> got(qs.size());
      if (seg.size() != qs.size() + 1) bad("it was given " + to_string(qs.size()) + " queries and asked for " + to_string(seg.size()));
      else {
        for (size_t i = 0; i < qs.size(); i++)
          if (!parse_answers(seg[i], qs[i], got[i], why)) { bad(why); break; }
        for (auto &t : may) if (answers_match(t, alg, n, qs, got, why)) fits.push_back(t);
        if (partial)
          if (TP t = prefix(got)) {
            if (fits.empty()) soft_violation("program-incomplete", who + ": it could not read its list of terms and serves " + head(*t));
            fits.push_back(t);
            may.push_back(t);
            incomplete = t;
          }
        if (fits.empty()) bad(may.empty() ? "it answers queries although it could read no dictionary" : "its answers are not those of a complete dictionary, " + why);
      }
    }
    bool reading = fk == rt::FF_EIO_R || (fk == rt::FF_CLOSE && A(7) == 2); // it may do without what failed
    bool unreported = rc == 0 && ((hard && !reading) || f == 7); // recorded finding: the outcome of the save is ignored
    if (unreported) soft_violation("program-unreported", who + ": it ends with code 0 although the storage failed");
    if (rc != 0 && !hard && f != 7 && fk != rt::FF_META && !seg.empty()) bad("it ends with code " + to_string(rc) + " although the storage worked");
    if (rc != 0 && !(fired && write)) {
      if (now != before || (::access(save.c_str(), F_OK) == 0) != had) bad("it reports a failure and has replaced the save");
    } else if (rc != 0 || unreported) {
      m.allowed = may;
      m.may_null = true;
      m.present = true;
    } else if (!fits.empty()) { // it saved what it answered from
      ll::Dawg *d = nullptr;
      bool fd;
      lib(op, 0, false, false, fd, [&] { d = load_path(save, 0); });
      TP t;
      string why;
      if (d) for (auto &x : fits) if (same_content(op, d, x, why, false)) { t = x; break; }
      if (!t && fired && fk == rt::FF_META) { // saved by way of another file that could not be moved into place
        soft_violation("program-unreported", who + ": it ends with code 0 although the save could not be moved into place");
        if (d) free_loaded(op, d);
        m.allowed = may;
        m.may_null = true;
        m.present = true;
      } else if (!d) bad("it ends with code 0 and leaves a save that does not load");
      else {
        if (!t) bad("it saves another dictionary than the one it answered from: " + why);
        free_loaded(op, d);
      }
      if (t && t == incomplete) soft_violation("program-incomplete", who + ": it could not read its list of terms and saves " + head(*t));
      if (t) after_save(m, t, true, true);
    }
  }
  if (A(8)) {
    power_loss(f, before, (int)(A(8) % 8), (uint64_t)A(8) / 8);
    m.may_null = true;
    m.allowed.insert(m.allowed.end(), old.begin(), old.end());
  }
}

// ------------------------------------------------------------------ operations
static bool has_d(int64_t i) { return i >= 0 && i < ND && D[i].p; }
static void run_op(const Op &op) {
  bool fired;
  count(rt::C_OPS);
  log_event(0x0900 + (uint64_t)op.kind);
  auto A = [&](size_t i) -> int64_t { return i < op.a.size() ? op.a[i] : 0; };
  auto S = [&](size_t i) -> const string & { static const string e; return i < op.s.size() ? op.s[i] : e; };
  switch (op.kind) {
  case K_BUILD: {
    int i = (int)A(0);
    if (A(1) >= (int64_t)plan->lists.size()) return;
    free_dict(i);
    const auto &l = plan->lists[(size_t)A(1)];
    bool asc = A(2) == 2 || std::is_sorted(l.begin(), l.end());
    TP t = make_terms(l);
    Op o2 = op;
    if (!asc && op.f.kind == F_OOM && A(3) != 1) o2.f = Fault(); // see DESIGN: destructors that run out of memory
    with_oom(o2, [&](uint64_t oom, bool persist) {
      vector<string> v(l);
      ll::Dawg *d = nullptr;
      bool fd;
      if (lib(op, oom, persist, false, fd, [&] { d = build_from(v, (int)A(2)); }) != DONE) return false;
      if (!d) {
        if (fd) return false;
        count(rt::C_REFUSED);
        log_event(0xB0);
        if (asc) soft_violation("wrong-accept", "an ascending sequence " + head(*t) + " is refused");
        return true;
      }
      log_event(0xB1);
      if (!asc) {
        soft_violation("wrong-accept", "a sequence out of order is accepted: " + head(*t));
        free_loaded(op, d);
        return true;
      }
      if (oom && fd) { // the library swallowed the failure: the result must be exact all the same
        string why;
        if (!same_content(op, d, t, why, true)) soft_violation("wrong-membership", "after a failed allocation the build delivers a wrong dictionary: " + why);
      }
      if (oom && op.f.sub == 1) free_loaded(op, d);
      else put_dict(i, d, t, false);
      return true;
    });
    return;
  }
  case K_BUILDADD: {
    int i = (int)A(0);
    if (A(1) >= (int64_t)plan->lists.size()) return;
    free_dict(i);
    const auto &l = plan->lists[(size_t)A(1)];
    int64_t stop = A(2);
    bool clean = A(3) != 0;
    with_oom(op, [&](uint64_t oom, bool persist) {
      vector<char> acc(l.size() + 1, 2);
      ll::SortedDawg *d = nullptr;
      bool fd;
      size_t k = 0;
      string arg;
      Outcome o = lib(op, oom, persist, false, fd, [&] {
        d = new ll::SortedDawg();
        d->init();
        for (; k < l.size() && (stop < 0 || (int64_t)k < stop); k++) {
          { HostScope h; arg = l[k]; }
          acc[k] = d->add(arg) ? 1 : 0;
          std::fill(arg.begin(), arg.end(), '~');
        }
        if (stop < 0) {
          d->finish();
          if (clean) d->clean_up();
        }
      });
      if (o != DONE || stop >= 0) {
        if (d) free_loaded(op, d);
        count(rt::C_ABANDON);
        return o == DONE;
      }
      vector<string> held;
      for (size_t j = 0; j < l.size(); j++) {
        bool want = held.empty() || l[j] >= held.back();
        if (acc[j] != (want ? 1 : 0))
          soft_violation("wrong-accept", "adding " + q(l[j]) + " after " + (held.empty() ? string("nothing") : q(held.back())) + (acc[j] ? " is accepted" : " is refused"));
        if (!want) count(rt::C_REFUSED);
        if (acc[j] == 1) held.push_back(l[j]);
      }
      TP t = make_terms(held);
      if (oom && op.f.sub == 1) free_loaded(op, d);
      else put_dict(i, d, t, !clean);
      return true;
    });
    return;
  }
  case K_FREE: free_dict((int)A(0)); return;
  case K_CONTAINS: {
    if (!has_d(A(0))) return;
    DSlot &s = D[A(0)];
    with_oom(op, [&](uint64_t oom, bool persist) {
      bool r = false;
      count(rt::C_LOOKUPS);
      if (lib(op, oom, persist, false, fired, [&] { r = s.p->contains(S(0)); }) != DONE) return false;
      log_event(r);
      if (r != s.t->has(S(0))) soft_violation("wrong-membership", "contains(" + q(S(0)) + ") is " + (r ? "true" : "false") + " for " + head(*s.t));
      return true;
    });
    return;
  }
  case K_PROBE: {
    if (!has_d(A(0))) return;
    DSlot &s = D[A(0)];
    size_t stride = s.t->v.size() > 150 ? s.t->v.size() / 100 : 1;
    for (size_t k = 0; k < s.t->v.size(); k += stride)
      if (!lookup(op, s.p, s.t->v[k])) soft_violation("wrong-membership", "contains(" + q(s.t->v[k]) + ") is false for " + head(*s.t));
    for (auto &x : near_misses(s.t, (uint64_t)A(1), 8))
      if (lookup(op, s.p, x) != s.t->has(x)) soft_violation("wrong-membership", "contains(" + q(x) + ") is wrong for " + head(*s.t));
    return;
  }
  case K_ENUM: {
    if (!has_d(A(0))) return;
    DSlot &s = D[A(0)];
    with_oom(op, [&](uint64_t oom, bool) {
      vector<string> e;
      bool fd;
      if (!enumerate(op, s.p, e, s.t->v.size() + 2, oom, fd)) return false;
      check_enum(e, s.t, s.gen, "wrong-enumeration");
      return true;
    });
    return;
  }
  case K_SIZE: {
    if (!has_d(A(0))) return;
    DSlot &s = D[A(0)];
    size_t z = 0;
    lib(op, 0, false, false, fired, [&] { z = s.p->size(); });
    if (z != s.t->v.size()) soft_violation("wrong-size", "size is " + to_string(z) + ", expected " + to_string(s.t->v.size()) + " for " + head(*s.t));
    return;
  }
  case K_EQHASH: {
    if (!has_d(A(0)) || !has_d(A(1))) return;
    DSlot &x = D[A(0)], &y = D[A(1)];
    bool want = x.t->v == y.t->v;
    with_oom(op, [&](uint64_t oom, bool persist) {
      bool eq = false, eq2 = false;
      size_t h1 = 0, h2 = 0;
      if (lib(op, oom, persist, false, fired, [&] {
            eq = *x.p == *y.p;
            eq2 = *y.p == *x.p;
            h1 = std::hash<ll::Dawg>()(*x.p);
            h2 = std::hash<ll::Dawg>()(*y.p);
          }) != DONE) return false;
      if (eq != want || eq2 != want) soft_violation("eqhash", string("dictionaries ") + head(*x.t) + " and " + head(*y.t) + " compare " + (eq ? "equal" : "unequal") + "/" + (eq2 ? "equal" : "unequal"));
      if (want && h1 != h2) soft_violation("eqhash", "equal dictionaries " + head(*x.t) + " hash differently");
      log_event(eq);
      return true;
    });
    return;
  }
  case K_ADDREM: {
    if (!has_d(A(0))) return;
    DSlot &s = D[A(0)];
    bool r1 = false, r2 = false;
    count(rt::C_MUTATE);
    int64_t m = A(1); // 0 add, remove; 1 add; 2 remove; 3 remove, add
    lib(op, 0, false, false, fired, [&] {
      if (m == 3) r2 = s.p->remove(S(0));
      if (m != 2) r1 = s.p->add(S(0));
      if (m == 0 || m == 2) r2 = s.p->remove(S(0));
    });
    if (r1) soft_violation("wrong-accept", "a finished dictionary " + head(*s.t) + " accepts " + q(S(0)));
    if (r2) soft_violation("wrong-accept", "a finished dictionary " + head(*s.t) + " removes " + q(S(0)));
    return;
  }
  case K_TRANS: {
    if (!has_d(A(1)) || A(0) < 0 || A(0) >= ND) return;
    close_t((int)A(0));
    TSlot &t = T[A(0)];
    with_oom(op, [&](uint64_t oom, bool persist) {
      TBase *b = nullptr;
      bool fd;
      if (lib(op, oom, persist, false, fd, [&] { b = make_trans(D[A(1)].p->root(), (int)A(2), (int)A(3)); }) != DONE) return false;
      if (oom && op.f.sub == 1) { lib(op, 0, false, false, fd, [&] { delete b; }); return true; }
      t.t = b;
      t.d = (int)A(1);
      t.alg = (int)A(2);
      t.res = (int)A(3);
      return true;
    });
    return;
  }
  case K_OPENQ:
  case K_QUERY: {
    int b = op.kind == K_OPENQ ? 1 : 0;
    int di = (int)A((size_t)b), alg = (int)A((size_t)b + 1), res = (int)A((size_t)b + 2);
    size_t n = (size_t)A((size_t)b + 3);
    int ti = (int)A((size_t)b + 4);
    if (!has_d(di)) return;
    TBase *shared = nullptr;
    if (ti >= 0 && ti < ND && T[ti].t && T[ti].d == di) { shared = T[ti].t; alg = T[ti].alg; res = T[ti].res; } else ti = -1;
    DSlot &s = D[di];
    if (op.kind == K_QUERY) {
      with_oom(op, [&](uint64_t oom, bool persist) { return drain(op, s.p, s.t, s.gen, alg, res, n, shared, n == 2 && A(5), S(0), oom, persist, op.f.kind == F_OOM ? (uint64_t)A(6) : 0); });
      return;
    }
    int qi = (int)A(0);
    close_q(qi);
    with_oom(op, [&](uint64_t oom, bool persist) {
      QSlot tmp;
      if (!open_query(op, tmp, s.p, s.t, s.gen, alg, res, n, shared, n == 2 && A(6), S(0), oom, persist)) return false;
      tmp.d = di;
      tmp.t = ti;
      close_q(qi);
      Q[qi] = tmp;
      return true;
    });
    return;
  }
  case K_STEPQ: {
    QSlot &s = Q[A(0)];
    if (!s.q) return;
    int others = 0;
    for (auto &x : Q) others += x.q != nullptr;
    for (auto &x : E) others += x.e != nullptr;
    if (others > 1) count(rt::C_INTERLEAVED);
    if (op.f.kind == F_OOM) {
      if (!step_query(op, s, (uint64_t)A(1), op.f.p, op.f.q == 1)) {
        // the iterator is lost; the same query asked again must be exact
        int di = s.d, ti = s.t, alg = s.alg, res = s.res;
        size_t n = s.n;
        string term = s.term;
        close_q((int)A(0));
        if (has_d(di)) drain(op, D[di].p, D[di].t, D[di].gen, alg, res, n, ti >= 0 ? T[ti].t : nullptr, false, term, 0, false, 0);
      }
    } else step_query(op, s, (uint64_t)A(1), 0, false);
    return;
  }
  case K_CLOSEQ: close_q((int)A(0)); return;
  case K_RESTARTQ: {
    QSlot &s = Q[A(0)];
    if (!s.q) return;
    if (!s.ended) count(rt::C_ABANDON);
    lib(op, 0, false, false, fired, [&] { s.q->begin(); });
    s.seen.clear();
    s.pos = 0;
    s.ended = false;
    return;
  }
  case K_OPENE: {
    if (!has_d(A(1))) return;
    close_e((int)A(0));
    DSlot &d = D[A(1)];
    with_oom(op, [&](uint64_t oom, bool persist) {
      EBox *b = nullptr;
      bool fd;
      if (lib(op, oom, persist, false, fd, [&] { b = new EBox(d.p); }) != DONE) return false;
      close_e((int)A(0));
      ESlot &s = E[A(0)];
      s.e = b;
      s.d = (int)A(1);
      s.terms = d.t;
      s.key = "E" + to_string(d.t->h);
      s.rkey = miss_key(d.gen);
      count(rt::C_ENUMS);
      return true;
    });
    return;
  }
  case K_STEPE: {
    ESlot &s = E[A(0)];
    if (!s.e || s.ended) return;
    int others = 0;
    for (auto &x : Q) others += x.q != nullptr;
    for (auto &x : E) others += x.e != nullptr;
    if (others > 1) count(rt::C_INTERLEAVED);
    for (int64_t k = 0; k < A(1); k++) {
      string term;
      bool end = false;
      lib(op, 0, false, false, fired, [&] {
        end = !(s.e->it != s.e->end);
        if (!end) {
          string r = *s.e->it;
          HostScope h;
          term.assign(r.data(), r.size());
        }
      });
      if (end) {
        if (s.seen.size() != s.terms->v.size())
          soft_violation("wrong-enumeration", "an open enumeration of " + head(*s.terms) + " ends after " + to_string(s.seen.size()) + " of " + to_string(s.terms->v.size()) + " terms");
        s.ended = true;
        break;
      }
      log_event(term);
      if (!s.terms->has(term)) soft_violation("wrong-enumeration", "an open enumeration of " + head(*s.terms) + " yields " + q(term));
      if (!s.seen.insert(term).second) soft_violation("wrong-enumeration", "an open enumeration of " + head(*s.terms) + " yields " + q(term) + " twice");
      check_order(s.rkey, s.pos, term, "order-repeat");
      check_order(s.key, s.pos, term, "order-cross");
      if (++s.pos > s.terms->v.size() + 4) rt::violation("wrong-enumeration", "an enumeration does not end");
      bool fd;
      if (lib(op, op.f.kind == F_OOM && k == 0 ? op.f.p : 0, false, false, fd, [&] { ++s.e->it; }) != DONE) {
        int di = s.d;
        close_e((int)A(0));
        if (has_d(di)) {
          vector<string> e;
          if (enumerate(op, D[di].p, e, D[di].t->v.size() + 2, 0, fd)) check_enum(e, D[di].t, D[di].gen, "wrong-enumeration");
        }
        return;
      }
    }
    return;
  }
  case K_CLOSEE: close_e((int)A(0)); return;
  case K_SAVE_S: {
    if (!has_d(A(1))) return;
    DSlot &d = D[A(1)];
    Image &m = B[A(0)];
    with_oom(op, [&](uint64_t oom, bool persist) {
      FaultOut ob;
      if (op.f.kind == F_WFAIL) { ob.limit = op.f.p; ob.mode = op.f.sub; }
      uint64_t head_n = A(3) > 0 ? (uint64_t)A(3) - 1 : 0;
      if (A(3) > 0) ob.header(head_n);
      bool ok = false, fd;
      Outcome o = lib(op, oom, persist, true, fd, [&] {
        std::ostream os(&ob);
        if (A(4) > 0) os.exceptions(A(4) == 1 ? std::ios::badbit : std::ios::badbit | std::ios::failbit);
        try { ok = ll::serialize_protobuf(d.p, os); }
        catch (const std::runtime_error &) { if (A(4) <= 0 || !ob.failed) throw; } // the stream reports the failure itself
      });
      if (o != DONE) return false;
      count(ok ? rt::C_SAVES_OK : rt::C_SAVES_FAIL);
      log_event(ok);
      if (ob.failed && ok) soft_violation("save-lied", "saving " + head(*d.t) + " reports success although the stream refused bytes");
      if (!ob.failed && !ok && !fd) soft_violation("save-failed", "saving " + head(*d.t) + " reports failure although the stream accepted every byte");
      if (!ob.failed && !ok && fd) return false;
      m = Image();
      if (A(3) > 0)
        for (uint64_t i = 0; i < head_n; i++)
          if (i >= ob.data.size() || ob.data[i] != (char)(0x12 + i)) { soft_violation("save-lied", "saving " + head(*d.t) + " to a stream overwrites what was written before"); break; }
      m.bytes = ob.data.substr(std::min<size_t>(head_n, ob.data.size()));
      after_save(m, d.t, ok, true);
      return true;
    });
    return;
  }
  case K_LOAD_S: {
    Image &m = B[A(1)];
    if (!m.present) return;
    free_dict((int)A(0));
    with_oom(op, [&](uint64_t oom, bool persist) {
      FaultIn ib;
      ib.data = m.bytes;
      ib.chunk = (uint64_t)A(2);
      if (op.f.kind == F_RFAIL) { ib.limit = op.f.p; ib.mode = op.f.sub; }
      if (A(3) > 0) ib.header((uint64_t)A(3) - 1);
      ll::Dawg *d = nullptr;
      bool fd;
      if (lib(op, oom, persist, true, fd, [&] {
            std::istream is(&ib);
            if (A(4) > 0) is.exceptions(std::ios::badbit);
            try { d = ll::deserialize_protobuf(is); }
            catch (const std::runtime_error &) { if (A(4) <= 0 || !ib.failed) throw; } // the stream reports the failure itself
          }) != DONE) return false;
      if (!d && fd) return false;
      judge_load(op, d, m, ib.failed, oom && op.f.sub == 1 ? -1 : (int)A(0), "loading from a stream");
      return true;
    });
    return;
  }
  case K_SAVE_F: {
    if (!has_d(A(1))) return;
    int f = (int)A(0);
    DSlot &d = D[A(1)];
    Image &m = F[f];
    string path = path_of(f);
    if (op.f.kind == F_FS && (op.f.sub == rt::FF_CRASH_BYTES || op.f.sub == rt::FF_CRASH_CALL)) {
      string before = slurp(path);
      auto old = m.allowed;
      int c = in_process([&] {
        bool ok = false, fd;
        rt::fs_arm(op.f.sub, op.f.p, 0);
        lib(op, 0, false, false, fd, [&] { ok = save_path(d.p, path, (int)A(2)); });
        rt::fs_disarm();
        return ok ? 30 : 31;
      });
      bool crashed = c == rt::CRASH_EXIT;
      if (!crashed && c != 30) soft_violation("save-failed", "a save in a fresh process reports failure although the storage worked");
      log_event((uint64_t)c);
      after_save(m, d.t, c == 30, true);
      if (op.f.q % 8) {
        power_loss(f, before, (int)(op.f.q % 8), op.f.q / 8);
        m.may_null = true;
        m.allowed.insert(m.allowed.end(), old.begin(), old.end()); // the older content may be back
      }
      return;
    }
    with_oom(op, [&](uint64_t oom, bool persist) {
      bool ok = false, fd;
      if (op.f.kind == F_FS) rt::fs_arm(op.f.sub, op.f.p, op.f.q);
      Outcome o = lib(op, oom, persist, true, fd, [&] { ok = save_path(d.p, path, (int)A(2)); });
      bool hit = rt::fs_disarm();
      bool either = hit && op.f.sub == rt::FF_META; // the library may do without what failed, or not
      bool hard = (hit && !either && !soft_fault(op.f.sub)) || no_place(f);
      if (o != DONE) { if (!no_place(f)) after_save(m, d.t, false, true); return false; }
      count(ok ? rt::C_SAVES_OK : rt::C_SAVES_FAIL);
      log_event(ok);
      if (hard && ok) soft_violation("save-lied", "saving " + head(*d.t) + " to a path reports success although the storage failed");
      if (!hard && !either && !ok && !fd) soft_violation("save-failed", "saving " + head(*d.t) + " to a path reports failure although the storage worked");
      if (!no_place(f)) after_save(m, d.t, ok, !(hit && op.f.sub == rt::FF_OPEN));
      return ok || !fd;
    });
    return;
  }
  case K_LOAD_F: {
    int f = (int)A(1);
    if (f == 6 && slurp(folder_file()) != "kept") soft_violation("save-lied", "a save to a path that is a directory destroys what the directory holds");
    Image &m = F[f];
    string path = path_of(f);
    free_dict((int)A(0));
    with_oom(op, [&](uint64_t oom, bool persist) {
      ll::Dawg *d = nullptr;
      bool fd;
      if (op.f.kind == F_FS) rt::fs_arm(op.f.sub, op.f.p, op.f.q);
      Outcome o = lib(op, oom, persist, true, fd, [&] { d = load_path(path, (int)A(2)); });
      bool hit = rt::fs_disarm();
      if (o != DONE || (!d && fd)) return false;
      judge_load(op, d, m, hit && !soft_fault(op.f.sub), oom && op.f.sub == 1 ? -1 : (int)A(0), "loading from a path");
      return true;
    });
    return;
  }
  case K_CUT: {
    // a: dst, src, mode, p, stride
    Image &m = B[A(1)];
    if (!m.present || m.bytes.empty()) return;
    uint64_t n = m.bytes.size(), p = (uint64_t)A(3);
    if (A(2) == 2) { // many cut positions in one go
      uint64_t stride = A(4) > 0 ? (uint64_t)A(4) : 1;
      int k = 0;
      for (uint64_t len = p % n; len < n && k < 48; len += stride, k++) {
        Image c = m;
        c.bytes = m.bytes.substr(0, len);
        c.may_null = true;
        count(rt::C_TRUNC);
        FaultIn ib;
        ib.data = c.bytes;
        ib.chunk = (uint64_t)A(5);
        ll::Dawg *d = nullptr;
        lib(op, 0, false, false, fired, [&] {
          std::istream is(&ib);
          d = ll::deserialize_protobuf(is);
        });
        judge_load(op, d, c, true, -1, "loading the first " + to_string(len) + " of " + to_string(n) + " bytes");
      }
      return;
    }
    Image c = m;
    c.bytes = m.bytes.substr(0, A(2) == 0 ? p % (n + 1) : (p < n ? n - p : 0));
    if (c.bytes.size() < n) { c.may_null = true; count(rt::C_TRUNC); }
    B[A(0)] = c;
    return;
  }
  case K_DAMAGE: {
    Image &m = B[A(1)];
    if (!m.present) return;
    Image c = m;
    c.bytes = damage(m.bytes, B[A(5)].bytes, (int)A(2), (uint64_t)A(3), (uint64_t)A(4));
    if (c.bytes != m.bytes) { c.weak = true; c.may_null = true; c.allowed.clear(); }
    B[A(0)] = c;
    return;
  }
  case K_FILEDMG: {
    // a: file, kind (0 keep p bytes, 1 drop the last p bytes, 2.. damage kinds), p, q
    int f = (int)A(0);
    Image &m = F[f];
    string now = slurp(path_of(f)), b = now;
    if (now.empty()) return;
    if (A(1) == 0) b.resize((uint64_t)A(2) % (now.size() + 1));
    else if (A(1) == 1) b.resize(now.size() > (uint64_t)A(2) ? now.size() - (uint64_t)A(2) : 0);
    else b = damage(now, now, (int)A(1) - 2, (uint64_t)A(2), (uint64_t)A(3));
    if (b == now) return;
    if (A(1) < 2) count(rt::C_TRUNC);
    spew(path_of(f), b);
    m.may_null = true;
    if (A(1) >= 2) { m.weak = true; m.allowed.clear(); }
    return;
  }
  case K_PROTO: {
    if (!has_d(A(1)) || A(0) == A(1)) return;
    free_dict((int)A(0));
    DSlot &src = D[A(1)];
    llp::Dictionary *m = nullptr;
    lib(op, 0, false, false, fired, [&] { m = ll::to_protobuf(src.p); });
    if (!m) return;
    llp::Dictionary mm = *m;
    lib(op, 0, false, false, fired, [&] { delete m; });
    mutate_proto(mm, (int)A(2), (uint64_t)A(3), (uint64_t)A(4));
    if (A(5)) mutate_proto(mm, (int)A(6), (uint64_t)A(4), (uint64_t)A(3));
    uint64_t cnt = 0;
    bool acyclic = graph_count(mm, cnt);
    (void)acyclic;
    if (cnt > 20000) return;
    ll::Dawg *d = nullptr;
    lib(op, 0, false, false, fired, [&] { d = ll::from_protobuf(mm); });
    Image w;
    w.weak = true;
    judge_load(op, d, w, true, (int)A(0), "loading an edited message");
    return;
  }
  case K_DIST: {
    int v = (int)A(0);
    if (v < 0 || v >= NV || !V[v]) return;
    int alg = v % 3;
    size_t want = ref_distance(alg, S(0), S(1));
    with_oom(op, [&](uint64_t oom, bool persist) {
      size_t got = 0;
      bool fd;
      count(rt::C_DISTS);
      if (lib(op, oom, persist, false, fd, [&] {
            if (A(1) == 0) got = V[v]->between(S(0), S(1));
            else if (A(1) == 1) got = (*V[v])(S(0), S(1));
            else got = V[v]->between(S(1), S(0));
          }) != DONE) return false;
      log_event(got);
      if (got != want) soft_violation("wrong-distance", string(alg_name[alg]) + " distance of " + q(S(A(1) == 2 ? 1 : 0)) + " and " + q(S(A(1) == 2 ? 0 : 1)) + " is " + to_string(got) + ", expected " + to_string(want));
      return true;
    });
    return;
  }
  case K_LAW: {
    int v = (int)A(0), law = (int)A(1);
    if (v < 0 || v >= NV || !V[v] || !V[0]) return;
    const string &x = S(0), &y = S(1), &z = S(2);
    auto rev = [](const string &s) { HostScope h; return string(s.rbegin(), s.rend()); };
    auto join = [](const string &a, const string &b) { HostScope h; return a + b; };
    with_oom(op, [&](uint64_t oom, bool persist) {
      bool fd;
      size_t d[6] = {0, 0, 0, 0, 0, 0};
      string p1, p2, p3, p4;
      if (law == 1) { p1 = join(z, x); p2 = join(z, y); p3 = join(x, z); p4 = join(y, z); }
      if (law == 4) { p1 = rev(x); p2 = rev(y); }
      if (lib(op, oom, persist, false, fd, [&] {
            lld::Distance &e = *V[v];
            d[0] = e.between(x, y);
            switch (law) {
            case 0: d[1] = e.between(y, x); d[2] = e.between(x, x); d[3] = e.between(y, y); break;
            case 1: d[1] = e.between(p1, p2); d[2] = e.between(p3, p4); break;
            case 2: d[1] = e.between(x, z); d[2] = e.between(z, y); break;
            case 3: d[1] = V[0]->between(x, y); break;
            case 4: d[1] = e.between(p1, p2); break;
            default: break;
            }
          }) != DONE) return false;
      count(rt::C_LAWS);
      for (size_t k : d) log_event(k);
      size_t lo = x.size() > y.size() ? x.size() - y.size() : y.size() - x.size(), hi = std::max(x.size(), y.size());
      string who = string(alg_name[v % 3]) + " distance: ", xy = q(x) + " and " + q(y), is = " is " + to_string(d[0]);
      auto broken = [&](const string &m) { soft_violation("law-broken", who + m); };
      if ((d[0] == 0) != (x == y)) broken("that of " + xy + is);
      if (d[0] < lo || d[0] > hi) broken("that of " + xy + is + ", their lengths allow " + to_string(lo) + " to " + to_string(hi));
      switch (law) {
      case 0:
        if (d[1] != d[0]) broken("that of " + xy + is + ", the other way round " + to_string(d[1]));
        if (d[2] || d[3]) broken("a term has distance " + to_string(d[2] + d[3]) + " from itself, " + xy);
        break;
      case 1: if (d[1] != d[0] || d[2] != d[0]) broken("that of " + xy + is + ", with " + q(z) + " before both " + to_string(d[1]) + ", behind both " + to_string(d[2])); break;
      case 2: // only the standard distance is a metric
        if (v % 3 == 0 && (d[0] > d[1] + d[2] || d[1] > d[0] + d[2] || d[2] > d[0] + d[1])) broken("no triangle: " + xy + is + ", by way of " + q(z) + " " + to_string(d[1]) + " and " + to_string(d[2]));
        break;
      case 3: if (d[0] > d[1]) broken("that of " + xy + is + ", with fewer kinds of edit " + to_string(d[1])); break;
      case 4: if (d[1] != d[0]) broken("that of " + xy + is + ", spelled backwards " + to_string(d[1])); break;
      case 5: if (d[0] > 1) broken("one edit apart, but that of " + xy + is); break;
      }
      return true;
    });
    return;
  }
  case K_MINIMAL: {
    if (!has_d(A(0)) || !D[A(0)].t) return;
    DSlot &s = D[A(0)];
    FaultOut ob;
    bool ok = false;
    lib(op, 0, false, false, fired, [&] { std::ostream os(&ob); ok = ll::serialize_protobuf(s.p, os); });
    if (!ok) return;
    HostScope h;
    llp::Dictionary m;
    if (!m.ParseFromString(ob.data)) return;
    std::set<uint64_t> ids(m.node_id().begin(), m.node_id().end());
    ids.insert(m.root_id());
    size_t want = minimal_nodes(*s.t);
    count(rt::C_MINIMAL);
    log_event(ids.size());
    if (ids.size() > want) soft_violation("not-minimal", "the graph of " + head(*s.t) + " has " + to_string(ids.size()) + " nodes, " + to_string(want) + " would do");
    return;
  }
  case K_LADDER: ladder(op, (uint64_t)A(0), (uint64_t)A(1), (uint64_t)A(2), (int)A(3)); return;
  case K_COST: {
    size_t read = 0;
    switch (A(0)) {
    case 0: { // what is out of reach costs nothing
      if (!has_d(A(1)) || !has_d(A(2)) || !D[A(1)].t || !D[A(2)].t) return;
      size_t n = (size_t)A(4);
      uint64_t near = query_cost(op, D[A(1)].p, (int)A(3), n, S(0), SIZE_MAX);
      uint64_t both = query_cost(op, D[A(2)].p, (int)A(3), n, S(0), SIZE_MAX);
      uint64_t r = reach_of((int)A(3), *D[A(1)].t, S(0), n);
      within("near", near, 20000 + 700 * r * (n + 1) * (n + 1), string(alg_name[A(3)]) + " query " + q(S(0)) + " with maximum distance " + to_string(n) + " and " + to_string(r) + " beginnings of terms in its reach");
      within("reach", both, 3 * near + 8000 * (n + 2) * (n + 2), string(alg_name[A(3)]) + " query " + q(S(0)) + " with maximum distance " + to_string(n) + " over " + to_string(D[A(1)].t->v.size()) + " terms and " + to_string(D[A(2)].t->v.size() - D[A(1)].t->v.size()) + " terms out of its reach");
      return;
    }
    case 1: { // the first candidates do not wait for the others
      if (!has_d(A(1)) || !D[A(1)].t) return;
      uint64_t all = query_cost(op, D[A(1)].p, (int)A(2), (size_t)A(3), S(0), SIZE_MAX, &read);
      uint64_t two = query_cost(op, D[A(1)].p, (int)A(2), (size_t)A(3), S(0), 2);
      within("lazy", two, all / 3 + 8000, "reading the first 2 of " + to_string(read) + " candidates of the " + string(alg_name[A(2)]) + " query " + q(S(0)));
      return;
    }
    case 2: { // nothing piles up
      if (!has_d(A(1)) || !D[A(1)].t) return;
      DSlot &d = D[A(1)];
      int alg = (int)A(2);
      size_t n = (size_t)A(3);
      static auto *first = new std::map<string, uint64_t>();
      string key = qkey(d.t, alg, n, S(0));
      TBase *t = nullptr;
      lib(op, 0, false, false, fired, [&] { t = make_trans(d.p->root(), alg, 1); });
      auto ask = [&] { // through one transducer that lives on
        return cost(op, [&] {
          QBase *it = t->query(S(0), n, false);
          for (it->begin(); !it->at_end(); it->next()) {}
          delete it;
        });
      };
      auto again = [&](const char *when) {
        uint64_t c = ask();
        uint64_t &c0 = (*first)[key];
        if (!c0) c0 = c ? c : 1;
        within("repeat", c, 2 * c0 + 20000, string(alg_name[alg]) + " query " + q(S(0)) + " with maximum distance " + to_string(n) + " " + when);
      };
      again("asked again later");
      vector<std::pair<TBase *, QBase *>> open;
      for (int64_t k = 0; k < A(4); k++) {
        TBase *u = nullptr;
        QBase *it = nullptr;
        lib(op, 0, false, false, fired, [&] {
          if (k & 4) u = make_trans(d.p->root(), (int)(k % 3), (int)(k & 1));
          it = (u ? u : t)->query(S(k % (int64_t)op.s.size()), n, false);
          it->begin();
          if (k & 2 && !it->at_end()) it->next();
        });
        open.push_back({u, it});
      }
      again("with other iterators open");
      lib(op, 0, false, false, fired, [&] { for (auto &o : open) { delete o.second; delete o.first; } });
      again("after other iterators were abandoned");
      uint64_t before = rt::live_bytes();
      for (int k = 0; k < 3; k++) ask();
      within("retained", rt::live_bytes(), before, "what lives (in bytes) after " + string(alg_name[alg]) + " query " + q(S(0)) + " was asked three more times over the same transducer");
      lib(op, 0, false, false, fired, [&] { delete t; });
      return;
    }
    case 3: {
      if (!has_d(A(1)) || !D[A(1)].t) return;
      bool in;
      within("lookup", cost(op, [&] { in = D[A(1)].p->contains(S(0)); }), 1000 * (S(0).size() + 2), "looking " + q(S(0)) + " up");
      return;
    }
    case 4: { // answers are computed once
      int v = (int)A(1);
      if (v < 0 || v >= NV || !V[v]) return;
      uint64_t a = S(0).size() + 1, b = S(1).size() + 1, pairs = a * b;
      string who = string(alg_name[v % 3]) + " distance of " + q(S(0)) + " and " + q(S(1));
      size_t r;
      static auto *answered = new std::set<string>();
      string key = to_string(v) + who;
      bool known = answered->count(key) != 0;
      uint64_t lookup = 2000 + 50 * (a + b);
      within(known ? "distance-later" : "distance", cost(op, [&] { r = V[v]->between(S(0), S(1)); }), known ? lookup : 20000 + 1000 * pairs * (v % 3 == 2 ? 2 : 1) + 100 * pairs * (a + b), (known ? "the already answered " : "the ") + who);
      answered->insert(key);
      uint64_t before = rt::live_bytes();
      within("distance-again", cost(op, [&] { r = V[v]->between(S(0), S(1)); }), lookup, "the repeated " + who);
      within("distance-turned", cost(op, [&] { r = V[v]->between(S(1), S(0)); }), lookup, "the repeated and turned round " + who);
      within("retained", rt::live_bytes(), before, "what lives (in bytes) after repeating the " + who);
      return;
    }
    case 5: graph_costs(op, (uint64_t)A(1), (uint64_t)A(2), (uint64_t)A(3)); return;
    case 6:
      if (A(1) < 0 || A(1) >= (int64_t)plan->lists.size()) return;
      build_costs(op, plan->lists[(size_t)A(1)], (int)A(2), (uint64_t)A(3));
      return;
    }
    return;
  }
  case K_PROGRAM: program(op); return;
  case K_LAYOUT: rt::set_layout((int)A(0)); return;
  case K_SESSION: {
    if (A(1) >= (int64_t)plan->lists.size()) return;
    int f = (int)A(0);
    const auto &l = plan->lists[(size_t)A(1)];
    TP t = make_terms(l);
    vector<string> sorted(l);
    std::sort(sorted.begin(), sorted.end());
    Image &m = F[f];
    string before = slurp(path_of(f));
    auto old = m.allowed;
    int c = in_process([&] {
      rt::set_layout((int)A(5));
      int r = session(op, t, sorted);
      return r;
    });
    log_event((uint64_t)c);
    if (c == rt::CRASH_EXIT) {
      after_save(m, t, false, true);
    } else {
      bool opened = !(c & 4), ok = c & 2;
      after_save(m, t, ok, opened);
    }
    if (A(9)) {
      power_loss(f, before, (int)(A(9) % 8), (uint64_t)A(9) / 8);
      m.may_null = true;
      m.allowed.insert(m.allowed.end(), old.begin(), old.end());
    }
    return;
  }
  case K_ORDER: {
    // a: list, algorithm, n, layout, where(0 here, 1 process, 2 thread), source(0 build, 1 save and load), container
    if (A(0) >= (int64_t)plan->lists.size()) return;
    vector<string> sorted(plan->lists[(size_t)A(0)]);
    std::sort(sorted.begin(), sorted.end());
    TP t = make_terms(sorted);
    int alg = (int)A(1);
    size_t n = (size_t)A(2);
    string key = to_string(t->h) + "/" + to_string(alg) + "/" + to_string(n);
    for (auto &s : op.s) key += "/" + s;
    auto work = [&]() -> uint64_t {
      bool fd;
      if (A(3) >= 0) rt::set_layout((int)A(3));
      vector<string> v(sorted);
      ll::Dawg *d = nullptr;
      lib(op, 0, false, false, fd, [&] { d = build_from(v, (int)A(6)); });
      if (!d) return 1;
      if (A(5) == 1) {
        FaultOut ob;
        lib(op, 0, false, false, fd, [&] { std::ostream os(&ob); ll::serialize_protobuf(d, os); });
        free_loaded(op, d);
        d = nullptr;
        FaultIn ib;
        ib.data = ob.data;
        lib(op, 0, false, false, fd, [&] { std::istream is(&ib); d = ll::deserialize_protobuf(is); });
        if (!d) return 2;
      }
      size_t hc = 0;
      lib(op, 0, false, false, fd, [&] { hc = std::hash<ll::Dawg>()(*d); });
      uint64_t h = rt::mix(77, hc);
      vector<string> e;
      enumerate(op, d, e, t->v.size() + 2, 0, fd);
      auto fold = [&](const string &s) { uint64_t x = 14695981039346656037ull; for (unsigned char c : s) x = (x ^ c) * 1099511628211ull; h = rt::mix(h, x + s.size()); };
      for (auto &s : e) fold(s);
      for (auto &s : op.s) {
        lib(op, 0, false, false, fd, [&] {
          std::unique_ptr<TBase> tr(make_trans(d->root(), alg, 1));
          std::unique_ptr<QBase> qq(tr->query(s, n, false));
          size_t guard = 0;
          for (qq->begin(); !qq->at_end() && guard++ < t->v.size() + 4; qq->next()) {
            HostScope hs;
            string term;
            size_t dist = 0;
            bool has;
            { LibScope ls; qq->get(term, dist, has); }
            fold(term);
            h = rt::mix(h, dist);
          }
        });
      }
      free_loaded(op, d);
      return h;
    };
    uint64_t h = 0;
    if (A(4) == 1) {
      uint64_t *sh = (uint64_t *)rt::result->extra;
      *sh = 0;
      in_process([&] { *sh = work(); return 40; });
      h = *sh;
    } else if (A(4) == 3) {
      if (!fresh_process(op, h)) return;
    } else if (A(4) == 2) {
      rt::spawn([&] { h = work(); });
      rt::join_all();
    } else h = work();
    if (A(4) != 3) log_event(h);
    last_digest = h;
    auto it = digests->find(key);
    if (it == digests->end()) (*digests)[key] = h;
    else if (it->second != h)
      soft_violation("layout-diff", string("terms, order, hash or answers of a ") + (A(5) ? "loaded" : "built") + " dictionary " + head(*t) + " differ " +
                                        (A(4) == 3 ? "in a process started afresh" : A(4) == 1 ? "in another process" : A(4) == 2 ? "in another thread" : "in another memory layout"));
    return;
  }
  }
}
static void close_all() {
  for (int i = 0; i < NQ; i++) close_q(i);
  for (int i = 0; i < NQ; i++) close_e(i);
  for (int i = 0; i < ND; i++) close_t(i);
  for (int i = 0; i < ND; i++) free_dict(i);
}
static void make_evaluators() {
  bool f;
  Op op;
  op.kind = K_DIST;
  for (auto &o : plan->ops) {
    if (o.a.empty()) continue;
    int64_t v = o.kind == K_DIST ? o.a[0] : o.kind == K_COST && o.a[0] == 4 && o.a.size() > 1 ? o.a[1] : -1;
    if (v >= 0 && v < NV && !V[v]) {
      lib(op, 0, false, false, f, [&] {
        if (v % 3 == 0) V[v] = new lld::StandardDistance();
        else if (v % 3 == 1) V[v] = new lld::TranspositionDistance();
        else V[v] = new lld::MergeAndSplitDistance();
      });
    }
  }
}
static void drop_evaluators() {
  bool f;
  Op op;
  op.kind = K_DIST;
  for (int v = 0; v < NV; v++)
    if (V[v]) {
      lib(op, 0, false, false, f, [&] {
        if (v % 3 == 0) delete static_cast<lld::StandardDistance *>(V[v]);
        else if (v % 3 == 1) delete static_cast<lld::TranspositionDistance *>(V[v]);
        else delete static_cast<lld::MergeAndSplitDistance *>(V[v]);
      });
      V[v] = nullptr;
    }
}
void execute(const Plan &p, const string &scratch) {
  plan = &p;
  scratch_dir = scratch;
  ::mkdir(path_of(6).c_str(), 0700);
  spew(folder_file(), "kept");
  rt::fs_root(scratch);
  sequences = new std::map<string, vector<string>>();
  expects = new std::map<string, std::shared_ptr<Expect>>();
  digests = new std::map<string, uint64_t>();
  rt::Config c = p.cfg;
  if (p.has_sched) c.replay = &p.sched;
  rt::set_mask(mask_of(p.prop));
  rt::need_oom(p.prop == "C03" || p.prop == "C06");
  int nclients = 0;
  for (auto &o : p.ops) if (o.client > 0 && o.client < 9) nclients = std::max(nclients, o.client);
  rt::begin_run(c);
  vector<uint64_t> live;
  for (int it = 0; it < p.iterations; it++) {
    make_evaluators();
    for (auto &o : p.ops) if (o.client == 0) run_op(o);
    if (nclients) {
      for (int cl = 1; cl <= nclients; cl++)
        rt::spawn([&p, cl] {
          for (auto &o : p.ops)
            if (o.client == cl) {
              run_op(o);
              rt::yield_point();
            }
        });
      rt::join_all();
    }
    for (auto &o : p.ops) if (o.client == 9) run_op(o);
    close_all();
    drop_evaluators();
    live.push_back(rt::live_blocks());
    for (int i = 0; i < NB; i++) B[i] = Image();
    for (int i = 0; i < NF; i++) F[i] = Image();
    clean_scratch();
  }
  if (live.size() >= 3 && live[2] > live[1] && live[1] > live[0])
    soft_violation("leak", "every repetition of the same history leaves " + to_string(live[2] - live[1]) + " more allocated blocks behind: " + rt::describe_live(6));
  rt::end_run();
}
// Touches everything that initialises itself once, so that it does not differ between runs.
void warm_up() {
  std::vector<string> v = {"", "a", "ab", "b"};
  ll::SortedDawg *d = ll::sorted_dawg(v.begin(), v.end());
  std::stringstream ss;
  ll::serialize_protobuf(d, ss);
  ll::Dawg *e = ll::deserialize_protobuf(ss);
  delete e;
  delete d;
}
