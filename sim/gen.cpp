// Turns a seed into a plan: workload, configuration and faults (swarm style: every run draws its own mix).
#include "model.h"
#include "plan.h"
#include <algorithm>
#include <set>

using std::string;
using std::vector;
using rt::Rng;

namespace {
struct Gen {
  Rng g;
  Plan p;
  int tier;
  string alpha;
  Gen(uint64_t seed, int tier) : g(seed), tier(tier) {}

  // ------------------------------------------------------------------ strings
  void pick_alphabet() {
    switch (g.below(9)) {
    case 0: alpha = "a"; break;
    case 1: case 2: alpha = "ab"; break;
    case 3: case 4: alpha = "abc"; break;
    case 5: alpha = "abcdefgh"; break;
    case 6: alpha = string("a\0b", 3); break;
    case 7: alpha = string("\x00\x7f\x80\xff", 4); break;
    default:
      alpha.clear();
      for (int i = 0, n = (int)g.range(2, 30); i < n; i++) alpha += (char)g.below(256);
    }
  }
  char ch() { return alpha[g.below(alpha.size())]; }
  string rnd(size_t len) {
    string s;
    for (size_t i = 0; i < len; i++) s += ch();
    return s;
  }
  string edit(string s, int k) {
    while (k-- > 0) {
      size_t i = g.below(s.size() + 1);
      switch (g.below(6)) {
      case 0: s.insert(s.begin() + (long)i, ch()); break;
      case 1: if (i < s.size()) s.erase(i, 1); break;
      case 2: if (i < s.size()) s[i] = ch(); break;
      case 3: if (i + 1 < s.size()) std::swap(s[i], s[i + 1]); break;
      case 4: if (i + 1 < s.size()) { s.erase(i, 1); s[i] = ch(); } break;             // merge
      case 5: if (i < s.size()) { s[i] = ch(); s.insert(s.begin() + (long)i, ch()); } break; // split
      }
    }
    return s;
  }
  string str(size_t maxlen, const vector<string> *pool = nullptr) {
    switch (g.below(8)) {
    case 0: { // periodic
      string u = rnd(1 + g.below(3)), s;
      size_t n = g.below(maxlen + 1);
      while (s.size() < n) s += u;
      return s.substr(0, n);
    }
    case 1: if (pool && !pool->empty()) { string s = (*pool)[g.below(pool->size())]; return s.substr(0, g.below(s.size() + 1)); } break;
    case 2: case 3: if (pool && !pool->empty()) { string s = edit((*pool)[g.below(pool->size())], (int)g.range(1, 3)); return s.size() > maxlen ? s.substr(0, maxlen) : s; } break;
    case 4: if (pool && !pool->empty()) { string s = (*pool)[g.below(pool->size())] + rnd(g.below(3)); return s.size() > maxlen ? s.substr(0, maxlen) : s; } break;
    }
    return rnd(g.below(maxlen + 1));
  }
  // -------------------------------------------------------------------- lists
  vector<string> terms(size_t cap, size_t maxlen) {
    std::set<string> s;
    vector<string> pool;
    size_t n = g.below(cap + 1);
    switch (g.below(8)) {
    case 0: { // prefixes times suffixes: much sharing in the graph
      size_t a = 1 + g.below(6), b = 1 + g.below(6);
      vector<string> x, y;
      for (size_t i = 0; i < a; i++) x.push_back(rnd(g.below(maxlen / 2 + 1)));
      for (size_t i = 0; i < b; i++) y.push_back(rnd(g.below(maxlen / 2 + 1)));
      for (auto &u : x) for (auto &v : y) if (s.size() < n + 2 && g.chance(900)) s.insert(u + v);
      break;
    }
    case 1: { // chains
      string c;
      for (size_t i = 0; i < std::min(n, maxlen); i++) { c += ch(); if (g.chance(800)) s.insert(c); }
      break;
    }
    case 2: { // nearly complete language of short words
      size_t k = 1 + g.below(3);
      for (size_t i = 0; i < n; i++) s.insert(rnd(g.below(k + 1)));
      break;
    }
    default: break;
    }
    while (s.size() < n && pool.size() < 2 * n + 4) {
      string t = str(maxlen, &pool);
      pool.push_back(t);
      s.insert(t);
    }
    if (g.chance(200)) s.insert("");
    if (s.size() > cap + 1) { vector<string> v(s.begin(), s.end()); v.resize(cap + 1); return v; }
    return vector<string>(s.begin(), s.end());
  }
  vector<string> big_terms(size_t n, size_t len) {
    std::set<string> s;
    string save = alpha;
    if (alpha.size() < 4) alpha = "abcde";
    for (size_t i = 0; i < n * 2 && s.size() < n; i++) s.insert(rnd(1 + g.below(len)));
    alpha = save;
    return vector<string>(s.begin(), s.end());
  }
  vector<string> dict(size_t cap = 30, size_t maxlen = 8) {
    if (g.chance(15)) { // every one-byte term
      vector<string> v;
      for (int i = 0; i < 256; i++) if (g.chance(950)) v.push_back(string(1, (char)i));
      std::sort(v.begin(), v.end());
      return v;
    }
    return terms(cap, maxlen);
  }
  int add_list(const vector<string> &v) {
    p.lists.push_back(v);
    return (int)p.lists.size() - 1;
  }
  string query_for(const vector<string> &v, size_t maxlen = 10) {
    if (!v.empty() && g.chance(750)) {
      string s = edit(v[g.below(v.size())], (int)g.below(4));
      return s.size() > maxlen + 40 ? s.substr(0, maxlen + 40) : s;
    }
    return str(maxlen, &v);
  }
  int64_t bound(bool small = false) {
    unsigned r = (unsigned)g.below(100);
    if (r < 12) return 0;
    if (r < 40) return 1;
    if (r < 72) return 2;
    if (r < 90) return 3;
    if (r < 96 || small) return 4;
    return 5;
  }
  int64_t huge_bound() {
    static const int64_t c[] = {6, 9, 15, 16, 31, 63, 64, 127, 128, 254, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000ll, 0xffffffffll, INT64_MAX / 2, INT64_MAX / 2 + 1, INT64_MAX - 1, INT64_MAX, INT64_MIN, -2, -1};
    return c[g.below(sizeof c / sizeof *c)];
  }
  // ---------------------------------------------------------------------- ops
  Op &op(int client, Kind k, vector<int64_t> a, vector<string> s = {}) {
    Op o;
    o.client = client;
    o.kind = k;
    o.a = std::move(a);
    o.s = std::move(s);
    p.ops.push_back(o);
    return p.ops.back();
  }
  void oom(Op &o, uint64_t hi, bool series_ok = true, bool persist_ok = false) {
    o.f.kind = F_OOM;
    if (series_ok && g.chance(300)) {
      o.f.sub = 1;
      o.f.p = 1 + g.below(8);
      o.f.q = 1 + g.below(1 + hi / 20);
    } else {
      o.f.sub = 0;
      o.f.p = g.logu(hi);
      o.f.q = persist_ok && g.chance(300) ? 1 : 0;
    }
  }
  void fsf(Op &o, int kind, uint64_t est) {
    o.f.kind = F_FS;
    o.f.sub = kind;
    switch (kind) {
    case rt::FF_OPEN: { static const int e[] = {2, 13, 28, 24, 30, 5, 4}; o.f.q = (uint64_t)e[g.below(6)]; break; }
    case rt::FF_ENOSPC: case rt::FF_EIO_W: case rt::FF_EIO_R: o.f.p = g.chance(150) ? 0 : g.chance(300) ? (g.below(5) * 4096) + g.below(40) : g.below(est + 8); break;
    case rt::FF_CRASH_BYTES: o.f.p = g.below(est + 8); break;
    case rt::FF_CRASH_CALL: o.f.p = 1 + g.below(9); break;
    default: o.f.p = g.next() >> 1; o.f.q = g.next() >> 1;
    }
  }
  static uint64_t estimate(const vector<string> &v) {
    uint64_t n = 1;
    for (auto &s : v) n += s.size();
    return std::min<uint64_t>(n * 20 + 20, 200000);
  }
  void cfg(bool threads) {
    p.cfg.seed = g.next();
    p.cfg.layout = (int)g.below(6);
    static const unsigned fills[] = {0x00, 0xCD, 0xFF, 0x01};
    p.cfg.fill = fills[g.below(4)];
    p.cfg.step_cap = 1000000000ull;
    if (threads) {
      p.cfg.gap = (unsigned)g.logu(g.chance(500) ? 300 : 8000);
      p.cfg.sync_permille = g.chance(500) ? (unsigned)g.below(600) : 0;
      p.cfg.stall_permille = g.chance(300) ? (unsigned)g.below(100) : 0;
      p.cfg.prefer_writer = g.chance(500);
      p.cfg.eagain_permille = g.chance(250) ? (unsigned)g.below(200) : 0;
    }
  }
  // --------------------------------------------------------------- distances
  void distances(bool race, bool ooms, bool liveness) {
    bool threads = !g.chance(ooms ? 550 : liveness ? 60 : 180);
    cfg(threads);
    p.cfg.races = race && threads;
    if (liveness && threads) {
      p.cfg.stall_permille = g.chance(600) ? (unsigned)g.below(250) : 0;
      p.cfg.eagain_permille = g.chance(400) ? (unsigned)g.below(300) : 0;
    }
    pick_alphabet();
    size_t maxlen = threads ? (size_t)g.range(1, 7) : (size_t)g.range(1, 12);
    vector<string> pool;
    int np = (int)g.range(2, threads ? 6 : 14);
    for (int i = 0; i < np; i++) pool.push_back(str(maxlen, &pool));
    if (g.chance(200)) { // long common parts and long lone terms
      string c = rnd(g.below(3) ? 40 : 280);
      size_t k = g.below(pool.size());
      pool[k] = c + pool[k];
      if (g.chance(600)) pool.push_back(c + pool[g.below(pool.size())].substr(0, 6));
      if (g.chance(300)) pool.push_back("");
    }
    bool tails = !threads && g.chance(ooms ? 350 : 80); // terms too long for the string object itself, common endings
    if (tails) {
      string c = rnd((size_t)g.range(14, 22));
      pool.clear();
      for (int i = 0, k = (int)g.range(3, 7); i < k; i++) pool.push_back(rnd(g.below(5)) + c);
    }
    bool many = !tails && g.chance(12); // enough answers for any bound on the cache to matter
    if (many) { pool.clear(); for (int i = 0; i < (threads ? 12 : 40); i++) pool.push_back(rnd(threads ? 9 : 12)); }
    bool lone = !many && !threads && g.chance(60);
    if (lone) { pool = {"", rnd(g.chance(500) ? 300 : 66000)}; }
    bool lopsided = !many && !lone && !tails && !threads && g.chance(50); // distances in the hundreds, over few positions of one term
    if (lopsided) { pool = {"", rnd(1), rnd(2), rnd((size_t)g.range(200, 520))}; if (g.chance(500)) pool.push_back(pool[2] + pool[3]); }
    int nv = (int)g.range(1, 2);
    int v0 = tails && g.chance(400) ? 2 : (int)g.below(3);
    auto ev = [&]() { return (int64_t)(nv == 1 || g.chance(600) ? v0 : g.chance(500) ? v0 + 3 : (v0 + 1 + (int)g.below(2)) % 3); };
    auto two = [&](vector<string> &s) {
      string a = pool[g.below(pool.size())], b = pool[g.below(pool.size())];
      // two long terms that differ everywhere would take forever; common prefixes are fine
      auto heavy = [&](const string &x, const string &y) {
        size_t i = 0;
        while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
        return (x.size() - i) * (y.size() - i) > (lopsided ? 1100 : tails ? 750 : 150);
      };
      if (a.size() > 2000) b = "";
      if (b.size() > 2000) a = "";
      if (heavy(a, b)) b = g.chance(500) ? a : "";
      s = {a, b};
      if (!lone && g.chance(150)) s[1] = edit(s[0], 1);
      if (heavy(s[0], s[1])) s[1] = s[0];
    };
    int nc = threads ? (int)g.range(2, 4) : 0;
    auto emit = [&](int client, int n) {
      for (int i = 0; i < n; i++) {
        vector<string> s;
        two(s);
        Op &o = op(client, K_DIST, {ev(), (int64_t)g.below(3)}, s);
        if (ooms && g.chance(tails ? 800 : 450)) oom(o, tails ? 5000 : s[0].size() * s[1].size() > 30 ? 400 : 80, client == 0 || client == 9, true);
        if (liveness && !race && g.chance(60)) oom(o, 60, false, true);
      }
    };
    emit(0, tails || lopsided ? (int)g.range(3, 12) : many && !threads ? 250 : threads ? (int)g.below(4) : (int)g.range(4, 40));
    for (int c = 1; c <= nc; c++) emit(c, many ? 12 : (int)g.range(1, threads ? 7 : 10));
    // afterwards every pair again, in both orders, without faults
    size_t m = std::min<size_t>(pool.size(), 7);
    for (size_t i = 0; i < m; i++)
      for (size_t j = 0; j <= i; j++) {
        string a = pool[i], b = pool[j];
        if (a.size() > 2000 && !b.empty()) continue;
        if (lopsided && a.size() * b.size() > 1100 && a.size() > 2 && b.size() > 2 && a != b) continue;
        if (!tails && !lopsided && a.size() * b.size() > 200 && a.substr(0, 30) != b.substr(0, 30)) continue;
        if (!lopsided && (a.size() > 250 || b.size() > 250) && a != b && !a.empty() && !b.empty()) continue;
        op(9, K_DIST, {v0, (int64_t)(g.chance(500) ? 2 : 0)}, {a, b});
        if (g.chance(300)) op(9, K_DIST, {v0, 2}, {a, b});
        if (a.size() > 1 && b.size() > 1 && g.chance(300)) op(9, K_DIST, {v0, 0}, {a.substr(1), b.substr(1)});
        if (nv > 1 && g.chance(300)) op(9, K_DIST, {g.chance(500) ? v0 + 3 : (v0 + 1) % 3, 0}, {a, b});
      }
  }
  // ---------------------------------------------------------------- read-only
  void readers() {
    cfg(true);
    p.cfg.races = true;
    pick_alphabet();
    vector<string> l = dict(g.chance(100) ? 120 : 18, (size_t)g.range(2, 7));
    int l0 = add_list(l);
    vector<string> l2 = g.chance(300) ? l : dict(10, 5);
    int l1 = add_list(l2);
    bool two = g.chance(500);
    if (g.chance(300)) { // a shared dictionary that was loaded
      op(0, K_BUILD, {8, l0, 0});
      op(0, K_SAVE_S, {15, 8, 0});
      op(0, K_LOAD_S, {0, 15, 0});
    } else op(0, K_BUILD, {0, l0, (int64_t)g.below(3)});
    if (two) op(0, K_BUILD, {1, l1, (int64_t)g.below(3)});
    int nt = (int)g.below(3);
    for (int i = 0; i < nt; i++) op(0, K_TRANS, {i, (int64_t)(two ? g.below(2) : 0), (int64_t)g.below(3), (int64_t)g.below(2)});
    if (g.chance(300)) for (int i = 0; i < 2; i++) op(0, K_QUERY, {0, (int64_t)g.below(3), 1, bound(true), -1, 0}, {query_for(l, 7)});
    vector<string> qs;
    for (int i = 0; i < 4; i++) qs.push_back(query_for(l, 7));
    int nc = (int)g.range(2, 4);
    for (int c = 1; c <= nc; c++) {
      int n = (int)g.range(1, 6);
      int64_t mine = 8 + c; // slots of its own
      for (int i = 0; i < n; i++) {
        int64_t d = two ? (int64_t)g.below(2) : 0;
        const auto &dl = d ? l2 : l;
        switch (g.below(13)) {
        case 12: op(c, K_SAVE_F, {c, d, (int64_t)g.below(3)}); op(c, K_LOAD_F, {mine, c, (int64_t)g.below(3)}); if (g.chance(500)) op(c, K_EQHASH, {d, mine}); break;
        case 0: op(c, K_CONTAINS, {d}, {g.chance(500) && !dl.empty() ? dl[g.below(dl.size())] : query_for(dl)}); break;
        case 1: op(c, K_ENUM, {d}); break;
        case 2: op(c, K_SIZE, {d}); break;
        case 3: op(c, K_EQHASH, {d, two ? 1 - d : d}); break;
        case 4: op(c, K_SAVE_S, {c, d, 0}); op(c, K_LOAD_S, {mine, c, (int64_t)g.below(20)}); if (g.chance(500)) op(c, K_EQHASH, {d, mine}); break;
        case 5: op(c, K_BUILD, {mine, (int64_t)(g.chance(500) ? l0 : l1), (int64_t)g.below(3)}); if (g.chance(500)) op(c, K_QUERY, {mine, (int64_t)g.below(3), 1, bound(true), -1, 0}, {qs[g.below(qs.size())]}); op(c, K_FREE, {mine}); break;
        case 6: op(c, K_OPENE, {c, d}); op(c, K_STEPE, {c, (int64_t)g.below(6)}); op(c, K_CLOSEE, {c}); break;
        case 7: op(c, K_OPENQ, {c, d, (int64_t)g.below(3), (int64_t)g.below(2), bound(true), nt ? (int64_t)g.below((uint64_t)nt) : -1, 1}, {qs[g.below(qs.size())]}); op(c, K_STEPQ, {c, (int64_t)g.below(4)}); op(c, K_STEPQ, {c, (int64_t)g.below(60)}); op(c, K_CLOSEQ, {c}); break;
        case 8: if (g.chance(400)) { op(c, K_ADDREM, {d}, {query_for(dl)}); break; } [[fallthrough]];
        default:
          op(c, K_QUERY, {d, (int64_t)g.below(3), (int64_t)g.below(2), bound(true), nt && g.chance(700) ? (int64_t)g.below((uint64_t)nt) : -1, 1}, {g.chance(600) ? qs[g.below(qs.size())] : query_for(dl, 7)});
        }
      }
    }
    op(9, K_ENUM, {0});
    op(9, K_SIZE, {0});
    op(9, K_PROBE, {0, 1});
    op(9, K_QUERY, {0, (int64_t)g.below(3), 1, bound(true), nt ? 0 : -1, 1}, {qs[0]});
  }
  // --------------------------------------------------------------------- lazy
  void lazy(bool ooms) {
    cfg(false);
    pick_alphabet();
    int nd = (int)g.range(1, 3);
    vector<vector<string>> ls;
    int mode = (int)g.below(20);
    if (g.chance(40)) mode = 20 + (int)(g.below(3) == 0); // 20: long query, wide window; 21: large dictionary
    size_t qmax = 10;
    if (mode >= 20) nd = 1;
    string lead; // the part of a long query that no term contains
    for (int i = 0; i < nd; i++) {
      vector<string> l = mode == 20 ? terms(3, 6) : mode == 21 ? big_terms((size_t)g.range(300, tier ? 6000 : 2500), 7) : mode == 0 ? terms(8, 5) : mode == 1 ? dict(250, 10) : mode == 2 ? terms(4, 40) : dict(30, (size_t)g.range(2, 9));
      if (mode == 3 && i == 0) { l = terms(5, 5); string c = rnd(250 + g.below(20)); for (int k = 0; k < 4; k++) l.push_back(c + rnd(g.below(9))); std::sort(l.begin(), l.end()); l.erase(std::unique(l.begin(), l.end()), l.end()); }
      ls.push_back(l);
      int li = add_list(l);
      if (g.chance(850)) op(0, K_BUILD, {i, li, (int64_t)g.below(3)});
      else { op(0, K_BUILD, {31, li, 0}); op(0, K_SAVE_S, {0, 31, 0}); op(0, K_FREE, {31}); op(0, K_LOAD_S, {i, 0, 0}); }
    }
    if (mode == 20) lead = string((size_t)(g.chance(300) ? g.range(60, 140) : g.range(240, 300)), g.chance(500) ? '~' : ch());
    bool hb = mode == 0;
    int nt = (int)g.below(3);
    for (int i = 0; i < nt; i++) op(0, K_TRANS, {i, (int64_t)g.below((uint64_t)nd), (int64_t)g.below(3), (int64_t)g.below(2)});
    int nq = (int)g.range(1, 6), ne = (int)g.below(3);
    vector<vector<int64_t>> past;
    vector<string> pastq;
    int n = mode == 20 ? (int)g.range(2, 8) : mode == 21 ? (int)g.range(4, 14) : (int)g.range(6, 40);
    for (int i = 0; i < n; i++) {
      int64_t qi = (int64_t)g.below((uint64_t)nq), d = (int64_t)g.below((uint64_t)nd);
      Op *o = nullptr;
      switch (g.below(14)) {
      case 0: case 1: case 2: {
        vector<int64_t> a;
        string s;
        if (!past.empty() && g.chance(250)) { size_t k = g.below(past.size()); a = past[k]; a[0] = qi; s = pastq[k]; }
        else {
          s = query_for(ls[(size_t)d], qmax);
          int64_t b = hb ? huge_bound() : bound(s.size() > 9 || ls[(size_t)d].size() > 60);
          if (mode == 2 || mode == 3) b = std::min<int64_t>(b, 3);
          if (mode == 21) b = std::min<int64_t>(b, 2);
          if (mode == 20) { // just within, or just beyond, what the term needs
            int64_t extra = g.range(0, 3);
            if (g.chance(800)) { s = g.chance(800) ? lead + s : g.chance(500) ? s + lead : lead.substr(lead.size() / 2) + s + lead.substr(lead.size() / 2); b = (int64_t)lead.size() + extra - (g.chance(300) ? 2 : 0); }
            else if (g.chance(200)) { s = rnd(66000); b = 1; }
          }
          a = {qi, d, (int64_t)g.below(3), (int64_t)g.below(4) ? 1 : 0, b, nt && g.chance(500) ? (int64_t)g.below((uint64_t)nt) : -1, 1};
          past.push_back(a);
          pastq.push_back(s);
        }
        o = &op(0, K_OPENQ, a, {s});
        if (ooms && g.chance(250)) oom(*o, 120);
        break;
      }
      case 3: case 4: case 5: case 6:
        o = &op(0, K_STEPQ, {qi, (int64_t)g.logu(12)});
        if (ooms && g.chance(300)) { oom(*o, 60, false); }
        break;
      case 7: op(0, K_STEPQ, {qi, 1000000}); break;
      case 8: op(0, g.chance(500) ? K_CLOSEQ : K_RESTARTQ, {qi}); break;
      case 9: if (ne) { o = &op(0, K_OPENE, {(int64_t)g.below((uint64_t)ne), d}); if (ooms && g.chance(250)) oom(*o, 30); } break;
      case 10: if (ne) { o = &op(0, K_STEPE, {(int64_t)g.below((uint64_t)ne), (int64_t)g.logu(20)}); if (ooms && g.chance(250)) oom(*o, 30, false); } break;
      case 11: if (ne) op(0, K_CLOSEE, {(int64_t)g.below((uint64_t)ne)}); break;
      case 12: // something unrelated comes and goes
        if (g.chance(500)) { op(0, K_BUILD, {20, (int64_t)g.below((uint64_t)nd), 0}); op(0, K_QUERY, {20, (int64_t)g.below(3), 1, 1, -1, 0}, {query_for(ls[0])}); op(0, K_FREE, {20}); }
        else op(0, K_LAYOUT, {(int64_t)g.below(6)});
        break;
      case 13: op(0, K_CONTAINS, {d}, {query_for(ls[(size_t)d])}); break;
      }
    }
    for (int i = 0; i < nq; i++) op(0, K_STEPQ, {i, 1000000});
    for (int i = 0; i < ne; i++) op(0, K_STEPE, {i, 1000000});
  }
  // ------------------------------------------------------- failing allocations
  void starving() {
    if (g.chance(450)) { lazy(true); return; }
    cfg(false);
    pick_alphabet();
    vector<string> l = dict(g.chance(80) ? 150 : 20, (size_t)g.range(2, g.chance(300) ? 24 : 8));
    int l0 = add_list(l);
    // a bystander that must not be affected
    op(0, K_BUILD, {1, l0, 0});
    op(0, K_TRANS, {0, 1, (int64_t)g.below(3), 1});
    op(0, K_OPENQ, {0, 1, 0, 1, 2, 0, 1}, {query_for(l)});
    op(0, K_STEPQ, {0, 2});
    op(0, K_OPENE, {0, 1});
    op(0, K_STEPE, {0, 2});
    int n = (int)g.range(1, 6);
    uint64_t nb = 1 + l.size() * 12;
    for (int i = 0; i < n; i++) {
      switch (g.below(10)) {
      case 0: case 1: oom(op(0, K_BUILD, {2, l0, (int64_t)g.below(3)}), nb); break;
      case 2: oom(op(0, K_BUILDADD, {2, l0, -1, (int64_t)g.below(4) ? 1 : 0}), nb); break;
      case 3: oom(op(0, K_ENUM, {1}), 10 + l.size() * 8); break;
      case 4: case 5: case 6: {
        int64_t st = g.chance(500) ? 0 : (int64_t)g.logu(6);
        oom(op(0, K_QUERY, {1, (int64_t)g.below(3), (int64_t)g.below(4) ? 1 : 0, bound(true), g.chance(400) ? 0 : -1, 1, st}, {query_for(l)}), 150);
        break;
      }
      case 7: oom(op(0, K_SAVE_S, {0, 1, 0}), 20 + l.size() * 10); oom(op(0, K_LOAD_S, {3, 0, (int64_t)g.below(50)}), 20 + l.size() * 10); op(0, K_EQHASH, {1, 3}); break;
      case 8: oom(op(0, K_SAVE_F, {0, 1, (int64_t)g.below(3)}), 20 + l.size() * 10); oom(op(0, K_LOAD_F, {3, 0, (int64_t)g.below(3)}), 20 + l.size() * 10); break;
      case 9: oom(op(0, K_EQHASH, {1, 2}), 20); oom(op(0, K_CONTAINS, {1}, {query_for(l)}), 3); break;
      }
    }
    op(0, K_STEPQ, {0, 1000000});
    op(0, K_STEPE, {0, 1000000});
    for (int64_t d : {1, 2, 3}) { op(0, K_SIZE, {d}); op(0, K_ENUM, {d}); op(0, K_PROBE, {d, 2}); }
    op(0, K_EQHASH, {1, 2});
    op(0, K_QUERY, {1, (int64_t)g.below(3), 1, bound(true), 0, 0}, {query_for(l)});
  }
  // --------------------------------------------------------------------- laws
  string one_edit(int alg, const string &s) {
    string r = s;
    size_t at = g.below(r.size() + 1);
    switch (g.below(alg ? 5 : 3)) {
    case 0: r.insert(r.begin() + (long)at, ch()); return r;
    case 1: if (at < r.size()) r.erase(at, 1); return r;
    case 2: if (at < r.size()) r[at] = ch(); return r;
    default:
      if (alg == 1) { if (at + 1 < r.size()) std::swap(r[at], r[at + 1]); }
      else if (g.chance(500)) { if (at + 1 < r.size()) { r.erase(at, 1); r[at] = ch(); } }
      else if (at < r.size()) { r[at] = ch(); r.insert(r.begin() + (long)at, ch()); }
      return r;
    }
  }
  void laws() {
    bool threads = g.chance(400);
    cfg(threads);
    pick_alphabet();
    size_t len = (size_t)g.range(2, 10);
    vector<string> pool;
    for (int i = 0, k = (int)g.range(2, 7); i < k; i++) pool.push_back(pool.empty() || g.chance(400) ? str(len) : edit(pool[g.below(pool.size())], (int)g.range(1, 3)));
    if (!threads && g.chance(60)) { pool.push_back(rnd((size_t)g.range(200, 400))); pool.push_back(edit(pool.back(), 1)); }
    bool lopsided = !threads && g.chance(60); // distances in the hundreds
    if (lopsided) { pool = {"", rnd(1), rnd(2), rnd((size_t)g.range(200, 520))}; if (g.chance(500)) pool.push_back(pool[2] + pool[3]); }
    for (auto &s : pool) if (g.chance(150)) std::reverse(s.begin(), s.end());
    int v0 = (int)g.below(3);
    bool mixed = g.chance(400), ooms = g.chance(300);
    auto light = [&](const string &a, string b) {
      size_t i = 0, j = 0;
      while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
      while (j + i < a.size() && j + i < b.size() && a[a.size() - 1 - j] == b[b.size() - 1 - j]) j++;
      size_t most = lopsided ? 1100 : 150;
      return (a.size() - i) * (b.size() - i) <= most && (a.size() - j) * (b.size() - j) <= most;
    };
    auto emit = [&](int c, int n) {
      for (int i = 0; i < n; i++) {
        int v = mixed && g.chance(500) ? (int)g.below(6) : v0;
        int law = (int)g.below(6);
        string x = pool[g.below(pool.size())], y = pool[g.below(pool.size())], z;
        if (g.chance(300)) y = edit(x, (int)g.range(1, 3));
        if (law == 5) y = one_edit(v % 3, x);
        if (!light(x, y)) { if (law == 5) continue; y = x; }
        if (law == 1) { z = g.chance(30) && !threads ? rnd((size_t)g.range(100, 300)) : rnd(1 + g.below(3)); if (z.size() < 4 && !light(x + z, y + z)) continue; }
        if (law == 1 && z.size() > 3 && x.size() * y.size() > 40) z.resize(3);
        if (law == 2) { z = g.chance(500) ? pool[g.below(pool.size())] : edit(x, 1); if (!light(x, z) || !light(z, y)) z = x; }
        Op &o = op(c, K_LAW, {v, law}, {x, y, z});
        if (ooms && g.chance(300)) oom(o, 300, c == 0 || c == 9, true);
        if (g.chance(100) && light(y, x)) op(c, K_DIST, {v, (int64_t)g.below(3)}, {y, x});
      }
    };
    emit(0, (int)g.range(threads ? 0 : 4, threads ? 6 : lopsided ? 10 : 30));
    if (threads) for (int c = 1, k = (int)g.range(2, 4); c <= k; c++) emit(c, (int)g.range(1, 6));
    emit(9, (int)g.range(2, lopsided ? 4 : 12));
  }
  // ------------------------------------------------------------------ sharing
  void sharing() {
    cfg(false);
    pick_alphabet();
    auto shared_terms = [&]() -> vector<string> {
      std::set<string> s;
      switch (g.below(7)) {
      case 4: { // wide nodes that repeat
        string all;
        for (int c = 0; c < 256; c++) all += (char)c;
        size_t w = (size_t)(g.chance(300) ? g.range(100, 256) : g.range(5, 80)), at = g.below(257 - w);
        string tail = rnd(g.below(3));
        for (int i = 0, k = (int)g.range(2, 6); i < k; i++) {
          string b = rnd(1 + g.below(3));
          bool gap = g.chance(200);
          for (size_t j = 0; j < w; j++) if (!gap || g.below(w)) s.insert(b + all[at + j] + tail);
        }
        break;
      }
      case 0: { // a few beginnings, common endings of different depth
        vector<string> x, y;
        size_t deep = g.chance(100) ? (size_t)g.range(30, 300) : (size_t)g.range(1, 12);
        for (int i = 0, k = (int)g.range(2, g.chance(100) ? 60 : 9); i < k; i++) x.push_back(rnd(1 + g.below(4)));
        string c = rnd(deep);
        for (int i = 0, k = (int)g.range(1, 5); i < k; i++) y.push_back(c.substr(g.below(c.size() + 1)));
        for (auto &u : x) for (auto &v : y) if (g.chance(850)) s.insert(u + v);
        break;
      }
      case 1: { // every word of a given length: as much sharing as there can be
        string al = alpha.substr(0, 1 + g.below(std::min<size_t>(alpha.size(), 4)));
        size_t n = 1, l = 0;
        while (n * al.size() <= 400 && l < 7) { n *= al.size(); l++; if (al.size() == 1) break; }
        std::function<void(string)> go = [&](string w) { if (w.size() == l) { s.insert(w); return; } if (g.chance(60)) s.insert(w); for (char c : al) if (g.chance(980)) go(w + c); };
        go("");
        break;
      }
      case 2: { // final and non-final nodes with the same edges
        string c = rnd((size_t)g.range(2, 8));
        for (int i = 0, k = (int)g.range(2, 8); i < k; i++) { string b = rnd(1 + g.below(3)); s.insert(b + c); if (g.chance(500)) s.insert(b + c.substr(0, g.below(c.size()))); }
        break;
      }
      case 3: if (g.chance(tier ? 200 : 60)) { auto v = big_terms((size_t)g.range(300, 4000), 5); s.insert(v.begin(), v.end()); break; } [[fallthrough]];
      default: { auto v = dict(60, (size_t)g.range(1, 9)); s.insert(v.begin(), v.end()); }
      }
      return vector<string>(s.begin(), s.end());
    };
    int n = (int)g.range(1, 4);
    for (int i = 0; i < n; i++) {
      int64_t d = (int64_t)g.below(3);
      vector<string> l = shared_terms(), h = l;
      if (g.chance(500)) // refused, repeated and empty additions in between
        for (int k = (int)g.below(8); k > 0; k--) {
          size_t at = g.below(h.size() + 1);
          h.insert(h.begin() + (long)at, h.empty() || g.chance(200) ? string() : g.chance(500) ? h[at ? at - 1 : 0] : h[g.below(h.size())]);
        }
      int li = add_list(l), hi = add_list(h);
      if (g.chance(200)) op(0, K_LAYOUT, {(int64_t)g.below(6)});
      if (g.chance(150)) op(0, K_BUILDADD, {3, hi, (int64_t)g.below(h.size() + 1), 0}); // abandoned
      Op &o = g.chance(400) ? op(0, K_BUILD, {d, li, (int64_t)g.below(3)}) : op(0, K_BUILDADD, {d, hi, -1, (int64_t)g.below(2)});
      if (g.chance(100)) oom(o, 2000, false);
      if (g.chance(200)) op(0, K_ADDREM, {d, (int64_t)g.below(4)}, {g.chance(500) && !l.empty() ? l[g.below(l.size())] : l.empty() ? "a" : l.back() + "q"});
      op(0, K_MINIMAL, {d});
      if (g.chance(300)) { op(0, K_SAVE_S, {0, d, 0}); if (g.chance(300)) op(0, K_FREE, {d}); op(0, K_LOAD_S, {4, 0, 0}); op(0, K_MINIMAL, {4}); }
    }
    op(0, K_MINIMAL, {(int64_t)g.below(3)});
  }
  // -------------------------------------------------------------------- costs
  void costs() {
    bool threads = g.chance(250);
    cfg(threads);
    pick_alphabet();
    if (alpha.size() < 2) alpha = "abc";
    alpha.erase(std::remove_if(alpha.begin(), alpha.end(), [](char c) { return c == '!' || c == '~'; }), alpha.end());
    if (alpha.empty()) alpha = "ab";
    vector<string> core = dict(g.chance(300) ? 120 : 30, (size_t)g.range(2, 9));
    core.erase(std::remove_if(core.begin(), core.end(), [](const string &s) { return s.find('!') != string::npos || s.find('~') != string::npos; }), core.end());
    if (core.empty()) core = {"a", "ab"};
    std::set<string> both(core.begin(), core.end());
    size_t n = (size_t)g.below(5), nf = (size_t)g.range(400, 1500);
    string at = core[g.below(core.size())];
    string far = at.substr(0, g.below(at.size() + 1)) + string(n + 2 + g.below(3), '!'), al2 = "!~abc";
    for (size_t i = 0; i < nf; i++) {
      string s = far;
      for (size_t k = 0, len = 4 + g.below(6); k < len; k++) s += al2[g.below(al2.size())];
      both.insert(s);
    }
    int l0 = add_list(core), l1 = add_list(vector<string>(both.begin(), both.end()));
    vector<string> qs;
    for (int i = 0, k = (int)g.range(1, 4); i < k; i++) qs.push_back(query_for(core, 12));
    op(0, K_BUILD, {0, l0, 0});
    if (g.chance(500)) op(0, K_BUILD, {1, l1, (int64_t)g.below(3)});
    else { op(0, K_BUILD, {2, l1, 0}); op(0, K_SAVE_S, {0, 2, 0}); op(0, K_LOAD_S, {1, 0, 0}); if (g.chance(500)) op(0, K_FREE, {2}); }
    string u = rnd((size_t)g.range(1, g.chance(300) ? 24 : 12)), w = rnd((size_t)g.range(1, g.chance(300) ? 24 : 12));
    int64_t v = (int64_t)g.below(3);
    auto measure = [&](int client) {
      switch (g.below(client == 9 ? 8 : 7)) {
      case 0: case 1: for (auto &s : qs) op(client, K_COST, {0, 0, 1, (int64_t)g.below(3), (int64_t)n}, {s}); break;
      case 2: op(client, K_COST, {2, (int64_t)g.below(2), (int64_t)g.below(3), (int64_t)g.below(n + 1), (int64_t)g.below(20)}, qs); break;
      case 3: op(client, K_COST, {3, (int64_t)g.below(2)}, {g.chance(300) ? qs[0] : *std::next(both.begin(), (long)g.below(both.size()))}); break;
      case 4: case 5: op(client, K_COST, {4, v}, {u, g.chance(200) ? edit(u, 2) : w}); break;
      default: {
        switch (g.below(3)) {
        case 0: op(client, K_COST, {5, (int64_t)g.range(1, g.chance(300) ? 200 : 40), (int64_t)g.range(1, 5), (int64_t)g.below(1 << 20)}); break;
        case 1: {
          vector<string> l = g.chance(500) ? vector<string>(both.begin(), both.end()) : big_terms((size_t)g.range(100, 1200), 8);
          if (g.chance(300)) {
            string c = rnd(100 + g.below(200));
            if (g.chance(500)) { // nodes that look alike: the same step over and over
              c = rnd(g.below(3));
              string part = g.chance(600) ? string(1, (char)g.below(256)) : rnd(1 + g.below(3));
              for (size_t len = (size_t)g.range(200, 500); c.size() < len;) c += part;
            }
            l.push_back(c); std::sort(l.begin(), l.end()); }
          op(client, K_COST, {6, add_list(l), (int64_t)g.below(3), (int64_t)g.below(1000)});
          break;
        }
        default: { // many candidates, some of them near the root
          std::set<string> s;
          for (char a : string("abcdefgh")) { s.insert(string(1, a)); for (char b : string("abcdefgh")) for (int k = 0; k < 5; k++) s.insert(string{a, b} + rnd(1 + g.below(2))); }
          op(client, K_BUILD, {3, add_list(vector<string>(s.begin(), s.end())), 0});
          op(client, K_COST, {1, 3, (int64_t)g.below(3), (int64_t)g.range(4, 6)}, {g.chance(500) ? "" : string("abcd").substr(0, 1 + g.below(3))});
        }
        }
      }
      }
    };
    measure(0);
    // a history, with failures, possibly by several threads
    int nc = threads ? (int)g.range(2, 3) : 1;
    for (int c = 1; c <= nc; c++)
      for (int i = 0, k = (int)g.range(1, 8); i < k; i++) {
        int cl = threads ? c : 0;
        switch (g.below(3)) {
        case 0: { Op &o = op(cl, K_QUERY, {(int64_t)g.below(2), (int64_t)g.below(3), (int64_t)g.below(2), (int64_t)g.below(n + 1), -1, 0}, {qs[g.below(qs.size())]}); if (g.chance(250)) oom(o, 300, false); break; }
        case 1: { Op &o = op(cl, K_DIST, {v, (int64_t)g.below(3)}, {rnd(g.below(8)), rnd(g.below(8))}); if (g.chance(250)) oom(o, 80, false, true); break; }
        default: op(cl, K_CONTAINS, {(int64_t)g.below(2)}, {qs[g.below(qs.size())]});
        }
      }
    if (!threads && g.chance(40)) // many other answers in between
      for (int i = 0; i < 25; i++) op(0, K_DIST, {v, 0}, {rnd((size_t)g.range(20, 27)), rnd((size_t)g.range(20, 27))});
    int last = threads ? 9 : 0;
    for (int i = 0, k = (int)g.range(1, 4); i < k; i++) measure(last ? last : g.chance(500) ? 9 : 0);
  }
  // --------------------------------------------- more than 16 bits can count
  void giant(uint64_t k) {
    cfg(false);
    p.cfg.step_cap = 20000000000ull;
    vector<string> v;
    if (k % 4 == 0 && p.prop != "C15" && p.prop != "C13") { // terms
      for (int i = 0; i < 41 * 41 * 41; i++) if (i % 1000 != 7) v.push_back({(char)('A' + i / 1681), (char)('A' + i / 41 % 41), (char)('A' + i % 41)});
    } else if (k % 4 == 2) { // depth
      alpha = "ab";
      string c = rnd(1500);
      v = {c, c.substr(0, 300) + "c", c + "a", c + rnd(300), c.substr(1000) + "z"};
      std::sort(v.begin(), v.end());
      v.erase(std::unique(v.begin(), v.end()), v.end());
    } else { // nodes
      std::set<string> s;
      alpha = "abcdefghijklmnopqrstuvwxyz";
      while (s.size() < 13000) s.insert(rnd(11));
      v.assign(s.begin(), s.end());
    }
    int li = add_list(v);
    op(0, K_BUILD, {0, li, (int64_t)g.below(3)});
    op(0, K_SIZE, {0});
    if (p.prop == "C07" || p.prop == "C05") op(0, K_ENUM, {0});
    if (p.prop == "C15") op(0, K_MINIMAL, {0});
    if (p.prop == "C13") { op(0, K_LAYOUT, {(int64_t)g.below(6)}); op(0, K_BUILD, {2, li, 0}); op(0, K_EQHASH, {0, 2}); op(0, K_FREE, {2}); }
    if (p.prop == "C08") {
      op(0, K_SAVE_F, {0, 0, 0});
      op(0, K_LOAD_F, {1, 0, 0});
    } else if (p.prop != "C05") {
      op(0, K_SAVE_S, {0, 0, 0});
      op(0, K_LOAD_S, {1, 0, 0});
    }
    if (p.prop == "C09") { op(0, K_CUT, {1, 0, (int64_t)g.below(2), (int64_t)g.below(200000)}); op(0, K_LOAD_S, {1, 1, 0}); }
    if (p.prop == "C15") op(0, K_MINIMAL, {1});
    for (int i = 0, n = p.prop == "C05" ? 4 : 1; i < n; i++) op(0, K_QUERY, {p.prop == "C05" ? 0 : 1, (int64_t)g.below(3), 1, (int64_t)g.range(0, 1), -1, 0}, {edit(v[g.below(v.size())], 1)});
  }
  // ----------------------------------------------------------------- building
  void building() {
    cfg(false);
    pick_alphabet();
    bool big = g.chance(25);
    vector<string> l = big ? big_terms((size_t)g.range(200, 1500), 6) : dict(g.chance(200) ? 150 : 30, (size_t)g.range(1, g.chance(200) ? 24 : 9));
    if (g.chance(30)) { string c = rnd(200 + g.below(90)); l.push_back(c); l.push_back(c + "x"); std::sort(l.begin(), l.end()); l.erase(std::unique(l.begin(), l.end()), l.end()); }
    int sorted = add_list(l);
    // a history with repetitions, refusals and empties mixed in
    vector<string> h = l;
    int k = (int)g.below(8);
    for (int i = 0; i < k; i++) {
      size_t at = g.below(h.size() + 1);
      string s = h.empty() || g.chance(250) ? (g.chance(500) ? string() : str(6)) : g.chance(500) ? h[at ? at - 1 : 0] : h[g.below(h.size())];
      if (g.chance(150)) s = edit(s, 1);
      h.insert(h.begin() + (long)at, s);
    }
    if (g.chance(120)) for (size_t i = h.size(); i > 1; i--) std::swap(h[i - 1], h[g.below(i)]);
    if (g.chance(150) && h.size() > 1) { size_t i = g.below(h.size() - 1); std::swap(h[i], h[i + 1]); }
    int messy = add_list(h);
    vector<string> dup;
    for (auto &s : l) for (int r = 1 + (int)(g.chance(300) ? g.below(4) : 0); r > 0; r--) dup.push_back(s);
    if (g.chance(300)) dup.insert(dup.begin(), g.below(3), "");
    int dupl = add_list(dup);
    int pick[3] = {sorted, messy, dupl};
    int n = (int)g.range(1, 4);
    for (int i = 0; i < n; i++) {
      int64_t d = (int64_t)g.below(3), li = pick[g.below(3)];
      switch (g.below(5)) {
      case 0: case 1: op(0, K_BUILD, {d, li, (int64_t)g.below(3)}); break;
      case 2: op(0, K_BUILDADD, {d, li, (int64_t)g.below(p.lists[(size_t)li].size() + 1), 0}); break;
      default: op(0, K_BUILDADD, {d, li, -1, (int64_t)(g.below(4) ? 1 : 0)});
      }
      if (g.chance(400)) { op(0, K_OPENE, {0, d}); op(0, K_STEPE, {0, (int64_t)g.below(5)}); }
      if (g.chance(400)) { op(0, K_OPENQ, {0, d, (int64_t)g.below(3), 1, bound(true), -1, 1}, {query_for(l)}); op(0, K_STEPQ, {0, (int64_t)g.below(3)}); }
      if (g.chance(300)) { op(0, K_SAVE_S, {0, d, 0}); op(0, K_LOAD_S, {4, 0, 0}); }
      for (int64_t x : {d, (int64_t)4}) {
        if (x == 4 && g.chance(500)) continue;
        int m = (int)g.below(4);
        for (int j = 0; j < m; j++) op(0, K_ADDREM, {x, (int64_t)g.below(4)}, {g.chance(300) ? (l.empty() ? string("zz") : l.back() + "z") : g.chance(200) ? string() : !l.empty() && g.chance(500) ? l[g.below(l.size())] : query_for(l)});
      }
      op(0, K_STEPE, {0, 1000000});
      op(0, K_STEPQ, {0, 1000000});
      for (int64_t x : {d, (int64_t)4}) { op(0, K_SIZE, {x}); op(0, K_PROBE, {x, i}); op(0, K_ENUM, {x}); }
    }
    op(0, K_EQHASH, {0, 1});
    op(0, K_EQHASH, {1, 2});
    op(0, K_EQHASH, {0, 4});
  }
  // ------------------------------------------------------------ saving, loading
  vector<string> image_terms() {
    if (g.chance(120)) return big_terms((size_t)g.range(100, 900), 7);
    if (g.chance(25)) { // long chains
      vector<string> v = terms(4, 5);
      string c = rnd((size_t)g.range(200, g.chance(100) ? 520 : 300));
      for (int i = 0, k = c.size() > 300 ? 1 : 2; i < k; i++) v.push_back(c.substr(0, c.size() - g.below(9)) + rnd(g.below(3)));
      std::sort(v.begin(), v.end());
      v.erase(std::unique(v.begin(), v.end()), v.end());
      return v;
    }
    return dict(g.chance(200) ? 80 : 14, (size_t)g.range(1, 8));
  }
  // The same shape under other letters: equal in every count and in the length of its save.
  vector<string> twin(const vector<string> &a) {
    unsigned char x = a.empty() || a.back().empty() ? 'a' : (unsigned char)a.back()[g.below(a.back().size())], y;
    if (!x) x = 'a'; // a label of 0 is not written at all
    do y = (unsigned char)g.below(256); while (y == x || (y < 128) != (x < 128) || !y);
    vector<string> b = a;
    for (auto &s : b)
      for (char &c : s) c = (unsigned char)c == x ? (char)y : (unsigned char)c == y ? (char)x : c;
    std::sort(b.begin(), b.end());
    return b;
  }
  void check_loaded(int64_t d, int64_t src, const vector<string> &l) {
    op(0, K_EQHASH, {src, d});
    int n = (int)g.below(3);
    for (int i = 0; i < n; i++) op(0, K_QUERY, {d, (int64_t)g.below(3), 1, bound(true), -1, 0}, {query_for(l)});
    if (g.chance(300)) op(0, K_SIZE, {d});
    if (g.chance(300)) op(0, K_ENUM, {d});
  }
  void saving() {
    cfg(false);
    pick_alphabet();
    vector<string> a = image_terms(), b = g.chance(300) ? twin(a) : image_terms();
    int la = add_list(a), lb = add_list(b);
    op(0, K_BUILD, {0, la, 0});
    op(0, K_BUILD, {1, lb, 0});
    int n = (int)g.range(1, 5);
    for (int i = 0; i < n; i++) {
      int64_t d = (int64_t)g.below(2), f = g.chance(40) ? 6 : (int64_t)g.below(2);
      const auto &l = d ? b : a;
      if (g.chance(150)) { // one after another, perhaps at the same address
        vector<string> c = g.chance(500) ? twin(l) : l;
        if (g.chance(600) && !c.empty()) { std::set<string> t(c.begin(), c.end()); size_t m = t.size(); t.erase(std::next(t.begin(), (long)g.below(m))); for (int k = 0; k < 20 && t.size() < m; k++) t.insert(query_for(c)); c.assign(t.begin(), t.end()); }
        int lc = add_list(c);
        bool file = g.chance(500);
        int64_t how = (int64_t)g.below(3);
        for (int k = 0, m = (int)g.range(2, 4); k < m; k++) {
          op(0, K_BUILD, {3, k % 2 ? lc : d ? lb : la, how});
          if (file) { op(0, K_SAVE_F, {3, 3, 0}); op(0, K_LOAD_F, {2, 3, 0}); }
          else { op(0, K_SAVE_S, {3, 3, 0}); op(0, K_LOAD_S, {2, 3, 0}); }
          op(0, K_FREE, {2});
          op(0, K_FREE, {3});
        }
        continue;
      }
      if (g.chance(150)) { // generations
        int64_t from = d;
        for (int k = 0, m = (int)g.range(2, 4); k < m; k++) {
          int64_t to = 4 + k;
          if (g.chance(500)) { op(0, K_SAVE_S, {k, from, 0}); op(0, K_LOAD_S, {to, k, (int64_t)g.below(30)}); }
          else { op(0, K_SAVE_F, {2, from, (int64_t)g.below(3)}); op(0, K_LOAD_F, {to, 2, (int64_t)g.below(3)}); }
          if (g.chance(300)) op(0, K_LAYOUT, {(int64_t)g.below(6)});
          check_loaded(to, d, l);
          from = to;
        }
        continue;
      }
      if (g.chance(350)) {
        auto front = [&]() { return (int64_t)(g.chance(300) ? 1 + g.below(20) : 0); };
        Op &o = op(0, K_SAVE_S, {0, d, 0, front(), (int64_t)(g.chance(300) ? 1 + g.below(2) : 0)});
        if (g.chance(600)) { o.f.kind = F_WFAIL; o.f.sub = (int)g.below(2); o.f.p = g.chance(200) ? 0 : g.below(estimate(l)); }
        op(0, K_LOAD_S, {2, 0, (int64_t)(g.chance(500) ? 0 : g.below(100)), front(), (int64_t)g.chance(200)});
        check_loaded(2, d, l);
        continue;
      }
      Op &o = op(0, K_SAVE_F, {g.chance(30) ? 7 : f, d, (int64_t)g.below(3)});
      if (g.chance(650)) {
        static const int ks[] = {rt::FF_OPEN, rt::FF_SHORT_W, rt::FF_EINTR_W, rt::FF_ENOSPC, rt::FF_ENOSPC, rt::FF_EIO_W, rt::FF_CLOSE, rt::FF_META};
        fsf(o, ks[g.below(8)], estimate(l));
      }
      if (g.chance(300)) op(0, K_SAVE_F, {f, 1 - d, (int64_t)g.below(3)});
      Op &r = op(0, K_LOAD_F, {2, f, (int64_t)g.below(3)});
      if (g.chance(250)) fsf(r, g.chance(500) ? rt::FF_SHORT_R : rt::FF_EINTR_R, estimate(l));
      check_loaded(2, d, l);
    }
    op(0, K_LOAD_F, {5, 0, 0});
    op(0, K_LOAD_F, {6, 1, 1});
  }
  void truncated() {
    cfg(false);
    pick_alphabet();
    vector<string> a = image_terms(), b = g.chance(350) ? twin(a) : image_terms();
    int la = add_list(a), lb = add_list(b);
    op(0, K_BUILD, {0, la, 0});
    op(0, K_BUILD, {1, lb, 0});
    int n = (int)g.range(1, 5);
    for (int i = 0; i < n; i++) {
      int64_t d = (int64_t)g.below(2);
      const auto &l = d ? b : a;
      uint64_t est = estimate(l);
      switch (g.below(7)) {
      case 0: op(0, K_SAVE_S, {0, d, 0}); op(0, K_CUT, {1, 0, (int64_t)g.below(2), (int64_t)(g.chance(500) ? g.below(30) : g.below(est))}); op(0, K_LOAD_S, {2, 1, (int64_t)g.below(60)}); break;
      case 1: op(0, K_SAVE_S, {0, d, 0}); op(0, K_CUT, {1, 0, 2, (int64_t)(g.chance(600) ? g.below(40) : g.below(est)), (int64_t)(g.chance(600) ? 1 : g.logu(est)), (int64_t)g.below(20)}); break;
      case 2: {
        op(0, K_SAVE_S, {0, d, 0});
        Op &o = op(0, K_LOAD_S, {2, 0, (int64_t)g.below(60), 0, (int64_t)g.chance(300)});
        o.f.kind = F_RFAIL;
        o.f.sub = (int)g.below(2);
        o.f.p = g.below(est);
        break;
      }
      case 3: op(0, K_SAVE_F, {0, d, 0}); op(0, K_FILEDMG, {0, (int64_t)g.below(2), (int64_t)(g.chance(500) ? g.below(30) : g.below(est))}); op(0, K_LOAD_F, {2, 0, (int64_t)g.below(3)}); break;
      case 4: {
        op(0, K_SAVE_F, {0, d, 0});
        if (g.chance(400)) { op(0, K_SAVE_F, {1, 1 - d, 0}); op(0, K_LOAD_F, {3, 1, (int64_t)g.below(3)}); }
        static const int ks[] = {rt::FF_SHORT_R, rt::FF_EINTR_R, rt::FF_EIO_R, rt::FF_EIO_R, rt::FF_OPEN};
        fsf(op(0, K_LOAD_F, {2, 0, (int64_t)g.below(3)}), ks[g.below(5)], est);
        break;
      }
      case 5: { // a save that dies part-way, perhaps over an older save, perhaps with the power
        if (g.chance(500)) op(0, K_SAVE_F, {1, 1 - d, 0});
        Op &o = op(0, K_SAVE_F, {1, d, (int64_t)g.below(3)});
        fsf(o, g.chance(500) ? rt::FF_CRASH_BYTES : rt::FF_CRASH_CALL, est);
        if (g.chance(500)) o.f.q = (1 + g.below(5)) + 8 * g.below(est);
        op(0, K_LOAD_F, {2, 1, (int64_t)g.below(3)});
        break;
      }
      case 6: { // a save that failed part-way
        Op &o = op(0, K_SAVE_F, {1, d, (int64_t)g.below(3)});
        fsf(o, g.chance(500) ? rt::FF_ENOSPC : rt::FF_EIO_W, est);
        op(0, K_LOAD_F, {2, 1, 0});
        break;
      }
      }
      if (g.chance(30)) op(0, K_LOAD_F, {2, (int64_t)g.range(6, 7), (int64_t)g.below(3)});
    }
  }
  void damaged() {
    cfg(false);
    p.iterations = g.chance(300) ? 3 : 1;
    pick_alphabet();
    vector<string> a = dict(12, (size_t)g.range(1, 6)), b = dict(6, 5);
    if (g.chance(60)) a = big_terms(200, 5);
    int la = add_list(a), lb = add_list(b);
    op(0, K_BUILD, {0, la, 0});
    op(0, K_BUILD, {1, lb, 0});
    op(0, K_SAVE_S, {0, 0, 0});
    op(0, K_SAVE_S, {1, 1, 0});
    int n = (int)g.range(4, 14);
    uint64_t est = estimate(a);
    for (int i = 0; i < n; i++) {
      switch (g.below(10)) {
      case 0: case 1: case 2: case 3: {
        int64_t kind = (int64_t)g.below(15);
        op(0, K_DAMAGE, {2, 0, kind, (int64_t)g.below(est), (int64_t)g.below(4096), (int64_t)g.below(2)});
        if (g.chance(150)) op(0, K_DAMAGE, {2, 2, (int64_t)g.below(15), (int64_t)g.below(est), (int64_t)g.below(4096), 1});
        op(0, K_LOAD_S, {2, 2, (int64_t)(g.chance(500) ? 0 : g.below(30))});
        break;
      }
      case 4: op(0, K_SAVE_F, {0, (int64_t)g.below(2), 0}); op(0, K_FILEDMG, {0, (int64_t)g.range(2, 16), (int64_t)g.below(est), (int64_t)g.below(4096)}); op(0, K_LOAD_F, {2, 0, (int64_t)g.below(3)}); break;
      default: {
        if (g.chance(30)) { op(0, K_LADDER, {(int64_t)(g.chance(500) ? g.range(1, 30) : g.range(31, 300)), (int64_t)g.range(1, 5), (int64_t)g.below(1 << 20), (int64_t)(g.chance(200) ? 1 : 0)}); break; }
        int64_t k = (int64_t)g.below(21) + (g.chance(500) ? 100 : 0);
        op(0, K_PROTO, {3, (int64_t)(g.chance(700) ? 0 : 1), k, (int64_t)g.below(4096), (int64_t)g.below(4096), (int64_t)g.chance(250), (int64_t)g.below(21) + (k >= 100 ? 100 : 0)});
        if (g.chance(400)) { op(0, K_PROBE, {3, 1}); op(0, K_QUERY, {3, (int64_t)g.below(3), 1, bound(true), -1, 0}, {query_for(a)}); op(0, K_SAVE_S, {3, 3, 0}); op(0, K_LOAD_S, {4, 3, 0}); }
      }
      }
    }
  }
  // ------------------------------------------------------------------ program
  void program() {
    cfg(false);
    pick_alphabet();
    auto line = [](string s) { std::replace(s.begin(), s.end(), '\n', '_'); return s; };
    vector<vector<string>> ls;
    vector<int> li;
    for (int k = 0, n = (int)g.range(1, 3); k < n; k++) {
      vector<string> l = k && g.chance(500) ? ls[0] : image_terms();
      if (k && !l.empty()) { if (g.chance(500)) l.push_back(l[g.below(l.size())] + ch()); else l.erase(l.begin() + (long)g.below(l.size())); }
      for (auto &s : l) s = line(s);
      if (g.chance(150) && !l.empty()) l.push_back(l[g.below(l.size())]); // a repeated line
      if (g.chance(500)) for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[g.below(i)]);
      ls.push_back(l);
      li.push_back(add_list(l));
    }
    uint64_t est = estimate(ls[0]), text = 1;
    for (auto &s : ls[0]) text += s.size() + 1;
    int n = (int)g.range(1, 6);
    bool wfaults = g.chance(600), crashes = g.chance(500), power = g.chance(400), rfaults = g.chance(700);
    for (int i = 0; i < n + 2; i++) {
      bool last = i >= n;
      size_t k = g.chance(700) ? 0 : g.below(ls.size());
      vector<string> qs;
      for (int j = 0, m = (int)g.range(i + 1 == n + 2 ? 1 : 0, 4); j < m; j++) {
        string s = line(query_for(ls[k]));
        if (!s.empty()) qs.push_back(s);
      }
      int64_t flags = (int64_t)(g.chance(300) ? 1 : 0) | (int64_t)(g.chance(250) ? 2 : 0), pw = 0, target = (int64_t)g.below(3);
      if (!last && power && g.chance(300)) pw = (int64_t)((1 + g.below(5)) + 8 * g.below(est));
      Op tmp;
      if (!last && g.chance(650)) {
        vector<int> ks;
        if (wfaults) for (int x : {rt::FF_OPEN, rt::FF_SHORT_W, rt::FF_EINTR_W, rt::FF_ENOSPC, rt::FF_EIO_W, rt::FF_CLOSE, rt::FF_META}) ks.push_back(x);
        if (crashes) for (int x : {rt::FF_CRASH_BYTES, rt::FF_CRASH_CALL}) ks.push_back(x), ks.push_back(x);
        if (rfaults) for (int x : {rt::FF_SHORT_R, rt::FF_EINTR_R, rt::FF_EIO_R, rt::FF_EIO_R, rt::FF_OPEN}) ks.push_back(x);
        if (!ks.empty()) {
          int x = ks[g.below(ks.size())];
          fsf(tmp, x, x == rt::FF_EIO_R && target == 2 ? text : est);
          if (target == 2 && g.chance(900) && x != rt::FF_EIO_R && x != rt::FF_OPEN && x != rt::FF_SHORT_R) target = 1;
        }
      }
      Op &o = op(0, K_PROGRAM, {(int64_t)(g.chance(20) ? 7 : 0), li[k], flags, (int64_t)g.below(6), (int64_t)g.below(4), g.chance(200) ? -1 : (int64_t)bound(true), (int64_t)g.below(2), target, pw}, qs); // input that ends inside a line: a recorded finding
      o.f = tmp.f;
      if (!last && g.chance(80)) op(0, K_FILEDMG, {0, (int64_t)g.below(2), (int64_t)g.below(est)});
    }
  }
  // ----------------------------------------------------------------- sessions
  void sessions() {
    cfg(false);
    pick_alphabet();
    vector<string> l = image_terms();
    if (g.chance(700) && l.empty()) l = {"a"};
    if (g.chance(200) && !l.empty()) l.push_back(l[g.below(l.size())]); // a repeated line
    int li = add_list(l);
    uint64_t est = estimate(l);
    int n = (int)g.range(1, 7);
    bool fs_faults = g.chance(700), crashes = g.chance(800), power = g.chance(500), rfaults = g.chance(500);
    if (g.chance(150)) { // a foreign file is in the way at first
      op(0, K_BUILD, {0, li, 0});
      op(0, K_SAVE_F, {0, 0, 0});
      op(0, K_FREE, {0});
      op(0, K_FILEDMG, {0, (int64_t)g.below(2), (int64_t)g.below(est)});
    }
    for (int i = 0; i < n + 2; i++) {
      bool last = i >= n;
      vector<string> qs;
      for (int k = 0, m = (int)g.range(1, 2); k < m; k++) qs.push_back(query_for(l));
      int64_t lf = 0, lp = 0, lq = 0, pw = 0;
      if (!last && rfaults && g.chance(400)) {
        Op tmp;
        static const int ks[] = {rt::FF_SHORT_R, rt::FF_EINTR_R, rt::FF_EIO_R, rt::FF_OPEN};
        fsf(tmp, ks[g.below(4)], est);
        lf = tmp.f.sub;
        lp = (int64_t)tmp.f.p;
        lq = (int64_t)tmp.f.q;
      }
      if (!last && power && g.chance(400)) pw = (int64_t)((1 + g.below(5)) + 8 * g.below(est));
      Op &o = op(0, K_SESSION, {0, li, (int64_t)g.below(3), (int64_t)g.below(3), bound(true), (int64_t)g.below(6), lf, lp, lq, pw}, qs);
      if (!last) {
        if (crashes && g.chance(500)) fsf(o, g.chance(600) ? rt::FF_CRASH_BYTES : rt::FF_CRASH_CALL, est);
        else if (fs_faults && g.chance(500)) {
          static const int ks[] = {rt::FF_OPEN, rt::FF_SHORT_W, rt::FF_EINTR_W, rt::FF_ENOSPC, rt::FF_EIO_W, rt::FF_CLOSE, rt::FF_META};
          fsf(o, ks[g.below(7)], est);
        }
      }
    }
  }
  // ------------------------------------------------------------------- memory
  void memory() {
    p.iterations = 3;
    cfg(false);
    pick_alphabet();
    p.cfg.layout = g.chance(500) ? 1 : (int)g.below(6);
    vector<string> a = dict(20, (size_t)g.range(1, 7));
    int la = add_list(a);
    vector<string> h = a;
    for (int i = 0, k = (int)g.below(5); i < k && !h.empty(); i++) h.insert(h.begin() + (long)g.below(h.size() + 1), h[g.below(h.size())]);
    int lh = add_list(h);
    int n = (int)g.range(3, 14);
    uint64_t est = estimate(a);
    if (g.chance(700)) op(0, K_BUILD, {0, la, (int64_t)g.below(3)});
    for (int i = 0; i < n; i++) {
      int64_t d = (int64_t)g.below(3);
      switch (g.below(16)) {
      case 0: op(0, K_BUILD, {d, (int64_t)(g.chance(600) ? la : lh), (int64_t)g.below(3)}); break;
      case 1: op(0, K_BUILDADD, {d, (int64_t)(g.chance(500) ? la : lh), g.chance(500) ? -1 : (int64_t)g.below(h.size() + 1), (int64_t)g.below(2)}); break;
      case 2: op(0, K_FREE, {d}); break;
      case 3: case 4: op(0, K_OPENQ, {(int64_t)g.below(3), d, (int64_t)g.below(3), (int64_t)g.below(2), bound(true), -1, 1}, {query_for(a)}); op(0, K_STEPQ, {(int64_t)g.below(3), (int64_t)g.below(6)}); break;
      case 5: op(0, K_STEPQ, {(int64_t)g.below(3), (int64_t)g.logu(40)}); break;
      case 6: op(0, g.chance(500) ? K_CLOSEQ : K_RESTARTQ, {(int64_t)g.below(3)}); break;
      case 7: op(0, K_OPENE, {0, d}); op(0, K_STEPE, {0, (int64_t)g.below(8)}); if (g.chance(500)) op(0, K_CLOSEE, {0}); break;
      case 8: op(0, K_QUERY, {d, (int64_t)g.below(3), (int64_t)g.below(2), bound(), -1, 0}, {query_for(a)}); break;
      case 9: { Op &o = op(0, K_SAVE_S, {0, d, 0, 0, (int64_t)g.chance(300)}); if (g.chance(400)) { o.f.kind = F_WFAIL; o.f.sub = (int)g.below(2); o.f.p = g.below(est); } op(0, K_LOAD_S, {3, 0, 0}); break; }
      case 10: { Op &o = op(0, K_SAVE_F, {0, d, (int64_t)g.below(3)}); if (g.chance(500)) { static const int ks[] = {rt::FF_OPEN, rt::FF_ENOSPC, rt::FF_EIO_W, rt::FF_CLOSE, rt::FF_SHORT_W, rt::FF_META}; fsf(o, ks[g.below(6)], est); }
        Op &r = op(0, K_LOAD_F, {4, 0, (int64_t)g.below(3)}); if (g.chance(400)) fsf(r, g.chance(500) ? rt::FF_EIO_R : rt::FF_OPEN, est); break; }
      case 11: op(0, K_SAVE_S, {1, d, 0}); op(0, K_CUT, {2, 1, (int64_t)g.below(2), (int64_t)g.below(est)}); op(0, K_LOAD_S, {3, 2, 0}); break;
      case 12: op(0, K_SAVE_S, {1, d, 0}); op(0, K_DAMAGE, {2, 1, (int64_t)g.below(15), (int64_t)g.below(est), (int64_t)g.below(4096), 1}); op(0, K_LOAD_S, {3, 2, 0}); break;
      case 13: op(0, K_PROTO, {3, d == 3 ? 0 : d, (int64_t)g.below(21) + (g.chance(500) ? 100 : 0), (int64_t)g.below(4096), (int64_t)g.below(4096), 0, 0}); break;
      case 14: op(0, K_EQHASH, {0, 1}); op(0, K_ADDREM, {d}, {query_for(a)}); break;
      case 15: op(0, K_TRANS, {0, d, (int64_t)g.below(3), (int64_t)g.below(2)}); op(0, K_OPENQ, {4, d, 0, 1, bound(true), 0, 1}, {query_for(a)}); op(0, K_STEPQ, {4, 2}); break;
      }
    }
    if (g.chance(250)) for (int i = 0; i < 6; i++) op(0, K_DIST, {(int64_t)g.below(3), (int64_t)g.below(3)}, {str(5), str(5)});
    if (g.chance(120)) { // threads with things of their own
      cfg(true);
      for (int c = 1; c <= 2; c++) {
        op(c, K_BUILD, {8 + c, la, 0});
        op(c, K_QUERY, {8 + c, (int64_t)g.below(3), 1, bound(true), -1, 0}, {query_for(a)});
        op(c, K_DIST, {0, 0}, {str(4), str(4)});
        if (g.chance(500)) op(c, K_FREE, {8 + c});
      }
    }
  }
  // ------------------------------------------------------------------- layout
  void layouts() {
    cfg(false);
    pick_alphabet();
    vector<string> l = dict(g.chance(150) ? 120 : 25, (size_t)g.range(2, 8));
    int l0 = add_list(l);
    vector<string> o = dict(12, 5);
    int l1 = add_list(o);
    bool threads = g.chance(250);
    if (threads) p.cfg.gap = 0;
    vector<string> qs;
    for (int i = 0, n = (int)g.range(1, 3); i < n; i++) qs.push_back(query_for(l));
    int64_t alg = (int64_t)g.below(3), b = bound(true);
    int n = (int)g.range(2, 6), spawned = 0;
    for (int i = 0; i < n; i++) {
      // noise: something else lives and dies at the addresses used next
      if (g.chance(500)) { op(0, K_BUILD, {5, l1, 0}); op(0, K_QUERY, {5, alg, 1, b, -1, 0}, {qs[0]}); if (g.chance(700)) op(0, K_FREE, {5}); }
      int64_t where = threads && spawned < 5 && g.chance(400) ? 2 : g.chance(400) ? 1 : 0;
      if (where == 2) spawned++;
      if (where == 1 && g.chance(60)) where = 3;
      op(0, K_ORDER, {l0, alg, b, (int64_t)g.below(6), where, (int64_t)g.chance(350), (int64_t)g.below(3)}, qs);
    }
    // the same through long-lived objects
    op(0, K_LAYOUT, {(int64_t)g.below(6)});
    op(0, K_BUILD, {0, l0, 0});
    op(0, K_LAYOUT, {(int64_t)g.below(6)});
    op(0, K_BUILD, {1, l0, 1});
    op(0, K_SAVE_S, {0, 0, 0});
    op(0, K_SAVE_F, {0, 1, 0});
    if (g.chance(500)) op(0, K_FREE, {1});
    op(0, K_LAYOUT, {(int64_t)g.below(6)});
    op(0, K_LOAD_S, {2, 0, 0});
    op(0, K_LOAD_F, {3, 0, 0});
    op(0, K_BUILD, {4, l1, 0});
    for (int64_t d : {0, 1, 2, 3}) {
      op(0, K_EQHASH, {0, d});
      op(0, K_EQHASH, {d, 4});
      if (g.chance(500)) op(0, K_ENUM, {d});
      op(0, K_QUERY, {d, alg, 1, b, -1, 0}, {qs[g.below(qs.size())]});
    }
  }
};
} // namespace

Plan generate(const string &prop, uint64_t seed, int tier, uint64_t index) {
  Gen x(rt::mix(seed, prop.size() > 2 ? (uint64_t)prop[1] * 256 + (uint64_t)prop[2] : 0), tier);
  x.p.prop = prop;
  x.p.seed = seed;
  bool giant = index % 2000 == 503 || index == 103 || index == 303;
  uint64_t which = index == 103 ? 1 : index == 303 ? 2 : index / 2000;
  if (giant && (prop == "C09" || prop == "C05" || prop == "C07" || prop == "C08" || prop == "C13" || prop == "C15")) x.giant(which);
  else if (prop == "C01") x.distances(true, false, false);
  else if (prop == "C02") x.distances(false, false, true);
  else if (prop == "C03") x.distances(false, true, false);
  else if (prop == "C04") x.readers();
  else if (prop == "C05") x.lazy(false);
  else if (prop == "C06") x.starving();
  else if (prop == "C07") x.building();
  else if (prop == "C08") x.saving();
  else if (prop == "C09") x.truncated();
  else if (prop == "C10") x.damaged();
  else if (prop == "C11") x.sessions();
  else if (prop == "C12") x.memory();
  else if (prop == "C13") x.layouts();
  else if (prop == "C14") x.laws();
  else if (prop == "C15") x.sharing();
  else if (prop == "C16") x.program();
  else if (prop == "C17") x.costs();
  return x.p;
}
