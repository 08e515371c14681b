// Reference models: textbook dynamic programmes and plain sorted vectors.
#pragma once
#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

// alg 0: insert/delete/substitute; 1: plus adjacent transposition (each substring edited at most once);
// 2: plus merging two characters into one and splitting one into two.
inline size_t ref_distance(int alg, const std::string &a, const std::string &b) {
  size_t n = a.size(), m = b.size();
  std::vector<size_t> p2(m + 1), p1(m + 1), c(m + 1);
  for (size_t j = 0; j <= m; j++) c[j] = j;
  for (size_t i = 1; i <= n; i++) {
    p2.swap(p1);
    p1.swap(c);
    c[0] = i;
    for (size_t j = 1; j <= m; j++) {
      size_t r = std::min(std::min(p1[j], c[j - 1]) + 1, p1[j - 1] + (a[i - 1] != b[j - 1]));
      if (alg == 1 && i > 1 && j > 1 && a[i - 1] == b[j - 2] && a[i - 2] == b[j - 1]) r = std::min(r, p2[j - 2] + 1);
      if (alg == 2) {
        if (i > 1) r = std::min(r, p2[j - 1] + 1);
        if (j > 1) r = std::min(r, p1[j - 2] + 1);
      }
      c[j] = r;
    }
  }
  return c[m];
}
struct Terms {
  std::vector<std::string> v; // ascending, distinct
  uint64_t h = 0;
  size_t total = 0;
  bool has(const std::string &s) const { return std::binary_search(v.begin(), v.end(), s); }
};
// Nodes of the smallest graph: one for each distinct set of remaining suffixes.
inline size_t minimal_nodes(const Terms &t) {
  std::map<std::pair<bool, std::vector<std::pair<char, size_t>>>, size_t> known;
  std::function<size_t(size_t, size_t, size_t)> go = [&](size_t a, size_t b, size_t depth) {
    std::pair<bool, std::vector<std::pair<char, size_t>>> me{false, {}};
    if (a < b && t.v[a].size() == depth) { me.first = true; a++; }
    while (a < b) {
      size_t e = a;
      while (e < b && t.v[e][depth] == t.v[a][depth]) e++;
      size_t child = go(a, e, depth + 1);
      me.second.emplace_back(t.v[a][depth], child);
      a = e;
    }
    return known.emplace(std::move(me), known.size()).first->second;
  };
  go(0, t.v.size(), 0);
  return known.size();
}
// Beginnings of terms that are within distance n of some beginning of the query, each with the number of its continuations.
inline size_t reach_of(int alg, const Terms &t, const std::string &q, size_t n) {
  size_t total = 0;
  using Row = std::vector<size_t>;
  std::vector<Row> rows; // rows[k]: distances of the first k characters of the current term to all beginnings of the query
  Row r0;
  for (size_t j = 0; j <= q.size(); j++) r0.push_back(j);
  rows.push_back(r0);
  total++;
  const std::string *prev = nullptr;
  for (auto &s : t.v) {
    size_t l = 0;
    if (prev) while (l < prev->size() && l < s.size() && (*prev)[l] == s[l]) l++;
    prev = &s;
    rows.resize(std::min(rows.size(), l + 1));
    while (rows.size() <= s.size()) {
      size_t i = rows.size();
      const Row &p1 = rows[i - 1];
      if (*std::min_element(p1.begin(), p1.end()) > n) break;
      total++; // a continuation of something within reach
      Row c(q.size() + 1);
      c[0] = i;
      for (size_t j = 1; j <= q.size(); j++) {
        size_t r = std::min(std::min(p1[j], c[j - 1]) + 1, p1[j - 1] + (s[i - 1] != q[j - 1]));
        if (alg == 1 && i > 1 && j > 1 && s[i - 1] == q[j - 2] && s[i - 2] == q[j - 1]) r = std::min(r, rows[i - 2][j - 2] + 1);
        if (alg == 2 && i > 1) r = std::min(r, rows[i - 2][j - 1] + 1);
        if (alg == 2 && j > 1) r = std::min(r, p1[j - 2] + 1);
        c[j] = r;
      }
      rows.push_back(c);
    }
  }
  return total;
}
using TP = std::shared_ptr<const Terms>;
inline TP make_terms(std::vector<std::string> v) {
  auto t = std::make_shared<Terms>();
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  t->v = std::move(v);
  uint64_t h = 1469598103934665603ull;
  for (auto &s : t->v) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    h = (h ^ (s.size() + 0x100)) * 1099511628211ull;
    t->total += s.size();
  }
  t->h = h ^ t->v.size();
  return t;
}
