// A plan is one run written down: configuration, term lists, clients' operations, faults, schedule.
#pragma once
#include "rt.h"
#include <string>
#include <vector>

enum Kind {
  K_BUILD,     // a: dict, list, container(0 vector 1 list 2 set)
  K_BUILDADD,  // a: dict, list, stop(-1: finish; k: abandon after k additions), cleanup(1: clean_up called)
  K_FREE,      // a: dict
  K_CONTAINS,  // a: dict            s: term
  K_PROBE,     // a: dict            membership of every term of the model and of near misses
  K_ENUM,      // a: dict
  K_SIZE,      // a: dict
  K_EQHASH,    // a: dict, dict
  K_ADDREM,    // a: dict            s: term
  K_TRANS,     // a: transducer, dict, algorithm, result(0 string 1 candidate)
  K_OPENQ,     // a: query, dict, algorithm, result, n, transducer(-1: private), default_n   s: term
  K_STEPQ,     // a: query, count
  K_CLOSEQ,    // a: query
  K_RESTARTQ,  // a: query
  K_OPENE,     // a: enumeration, dict
  K_STEPE,     // a: enumeration, count
  K_CLOSEE,    // a: enumeration
  K_QUERY,     // a: dict, algorithm, result, n, transducer   s: term       open, drain, close
  K_SAVE_S,    // a: buffer, dict, chunk, header, exceptions enabled
  K_LOAD_S,    // a: dict, buffer, chunk, header, exceptions enabled
  K_SAVE_F,    // a: file, dict, variant
  K_LOAD_F,    // a: dict, file, variant
  K_CUT,       // a: buffer, from buffer, keep (permille << 20 | ... see exec)
  K_DAMAGE,    // a: buffer, from buffer, kind, p, q, other buffer
  K_FILEDMG,   // a: file, kind, p           truncate/power loss of a file
  K_PROTO,     // a: dict, from dict, kind, p, q
  K_DIST,      // a: evaluator, mode         s: u, v
  K_LAYOUT,    // a: policy
  K_SESSION,   // a: file, list, variant, algorithm, n, layout, nfault ...  s: queries
  K_ORDER,     // a: dict                    s: query ...  record/compare sequences
  K_LAW,       // a: evaluator, law           s: x, y, z
  K_MINIMAL,   // a: dict
  K_LADDER,    // a: levels, width, seed, what the size claims (0 the number of terms modulo 2^64, 1 one more)
  K_PROGRAM,   // a: file, list, flags (1 no newline at the end of the list, 2 no list given), layout, algorithm (3 none given), n (-1 none given), end of input, target of faults, power   s: queries
  K_COST,      // a: what, then see exec
  K_N
};
extern const char *kind_name[K_N];
enum FaultKind { F_NONE, F_OOM, F_WFAIL, F_RFAIL, F_FS };
struct Fault { int kind = 0; int sub = 0; uint64_t p = 0, q = 0; };
struct Op {
  int client = 0; // 0: before the clients start; 1..6: concurrently; 9: after they ended
  int kind = 0;
  std::vector<int64_t> a;
  std::vector<std::string> s;
  Fault f;
};
struct Plan {
  std::string prop;
  uint64_t seed = 0;
  rt::Config cfg;
  int iterations = 1;
  std::vector<std::vector<std::string>> lists;
  std::vector<Op> ops;
  bool has_sched = false;
  std::vector<rt::Sw> sched;
};
std::string to_text(const Plan &);
Plan from_text(const std::string &);
Plan generate(const std::string &prop, uint64_t seed, int tier, uint64_t index);
void execute(const Plan &, const std::string &scratch);
void warm_up();
uint64_t digest_of_last();
const char *mask_of(const std::string &prop);
