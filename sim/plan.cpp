#include "plan.h"
#include <cstdio>
#include <cstdlib>
#include <sstream>

const char *kind_name[K_N] = {"build", "buildadd", "free", "contains", "probe", "enum", "size", "eqhash", "addrem", "trans", "openq", "stepq", "closeq",
  "restartq", "opene", "stepe", "closee", "query", "save_s", "load_s", "save_f", "load_f", "cut", "damage", "filedmg", "proto", "dist", "layout", "session", "order", "law", "minimal", "ladder", "program", "cost"};
static const char *fault_name[] = {"none", "oom", "wfail", "rfail", "fs"};

static std::string hex(const std::string &s) {
  // printable terms stay readable: "=abc"; everything else is "x6162"
  bool plain = true;
  for (unsigned char c : s) plain &= c > 32 && c < 127;
  if (plain) return "=" + s;
  std::string r = "x";
  char b[3];
  for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; }
  return r;
}
static std::string unhex(const std::string &t) {
  if (t.empty()) return t;
  if (t[0] == '=') return t.substr(1);
  std::string r;
  for (size_t i = 1; i + 1 < t.size(); i += 2) r += (char)strtol(t.substr(i, 2).c_str(), nullptr, 16);
  return r;
}
std::string to_text(const Plan &p) {
  std::ostringstream o;
  o << "plan 1\nprop " << p.prop << "\nseed " << p.seed << "\n";
  o << "cfg " << p.cfg.seed << " " << p.cfg.layout << " " << p.cfg.fill << " " << p.cfg.gap << " " << p.cfg.sync_permille << " " << p.cfg.stall_permille << " "
    << p.cfg.eagain_permille << " " << p.cfg.prefer_writer << " " << p.cfg.races << " " << p.cfg.step_cap << " " << p.iterations << "\n";
  for (auto &l : p.lists) {
    o << "list";
    for (auto &t : l) o << " " << hex(t);
    o << "\n";
  }
  for (auto &op : p.ops) {
    o << "op " << op.client << " " << kind_name[op.kind];
    for (auto v : op.a) o << " " << v;
    o << " |";
    for (auto &s : op.s) o << " " << hex(s);
    o << " | " << fault_name[op.f.kind] << " " << op.f.sub << " " << op.f.p << " " << op.f.q << "\n";
  }
  if (p.has_sched) {
    o << "sched";
    for (auto &w : p.sched) o << " " << w.step << ":" << w.target << ":" << w.forced;
    o << "\n";
  }
  return o.str();
}
Plan from_text(const std::string &txt) {
  Plan p;
  std::istringstream in(txt);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string k;
    l >> k;
    if (k == "prop") l >> p.prop;
    else if (k == "seed") l >> p.seed;
    else if (k == "cfg")
      l >> p.cfg.seed >> p.cfg.layout >> p.cfg.fill >> p.cfg.gap >> p.cfg.sync_permille >> p.cfg.stall_permille >> p.cfg.eagain_permille >> p.cfg.prefer_writer >>
          p.cfg.races >> p.cfg.step_cap >> p.iterations;
    else if (k == "list") {
      std::vector<std::string> v;
      std::string t;
      while (l >> t) v.push_back(unhex(t));
      p.lists.push_back(v);
    } else if (k == "op") {
      Op op;
      std::string t;
      l >> op.client >> t;
      for (int i = 0; i < K_N; i++) if (t == kind_name[i]) op.kind = i;
      while (l >> t && t != "|") op.a.push_back(strtoll(t.c_str(), nullptr, 10));
      while (l >> t && t != "|") op.s.push_back(unhex(t));
      l >> t;
      for (int i = 0; i < 5; i++) if (t == fault_name[i]) op.f.kind = i;
      l >> op.f.sub >> op.f.p >> op.f.q;
      p.ops.push_back(op);
    } else if (k == "sched") {
      p.has_sched = true;
      std::string t;
      while (l >> t) {
        rt::Sw w{};
        unsigned long long st = 0;
        sscanf(t.c_str(), "%llu:%u:%u", &st, &w.target, &w.forced);
        w.step = st;
        p.sched.push_back(w);
      }
    }
  }
  return p;
}
