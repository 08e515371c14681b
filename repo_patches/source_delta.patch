From 1c7b5cede6c0ded2c5a5844399f7e7fff3948a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 01/15] fix: report failure when flushing a serialized
 dictionary to its path fails

---
 src/liblevenshtein/serialization/serializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 80bdeee..93a9ca0 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -30,8 +30,9 @@ auto serialize_protobuf(Dawg *dawg, const char *path) -> bool {
   std::fstream output(path, std::fstream::out | std::fstream::trunc |
                                 std::fstream::binary);
   bool serialized = serialize_protobuf(dawg, output);
+  // Closing flushes the buffered bytes, which may fail (e.g. the disk is full).
   output.close();
-  return serialized;
+  return serialized && output.good();
 }
 
 auto serialize_protobuf(Dawg *dawg, std::ostream &output) -> bool {
-- 
2.43.0


From 581acb039a35187a565a7dc45def358cb85d9caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 02/15] fix: return nullptr for truncated or malformed
 serialized dictionaries instead of crashing or loading them partially

---
 .../serialization/serializer.cpp              | 70 +++++++++++++++++--
 src/liblevenshtein/serialization/serializer.h |  3 +-
 2 files changed, 66 insertions(+), 7 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 93a9ca0..58a1e71 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -126,6 +126,39 @@ auto to_protobuf(Dawg *dawg) -> llp::Dictionary * {
   return dict_proto;
 }
 
+/**
+ * Counts the terms that may be formed by following the outgoing edges from the
+ * source, for each node reachable from it.
+ *
+ * @param source DawgNode whose terms are to be counted.
+ * @param num_terms Number of terms that follow from each visited DawgNode.
+ * @param path DawgNodes along the current path, used to detect cycles.
+ * @return Whether the graph that is reachable from the source is acyclic.
+ */
+static auto count_terms(DawgNode *source,
+                        std::map<DawgNode *, uint64_t> &num_terms,
+                        std::set<DawgNode *> &path) -> bool {
+  if (num_terms.contains(source)) {
+    return true;
+  }
+  if (!path.insert(source).second) {
+    return false;
+  }
+  bool acyclic = true;
+  uint64_t count = source->is_final() ? 1 : 0;
+  source->for_each_edge([&](char label, DawgNode *target) {
+    acyclic = acyclic && count_terms(target, num_terms, path);
+    if (acyclic) {
+      count += num_terms[target];
+    }
+  });
+  path.erase(source);
+  if (acyclic) {
+    num_terms[source] = count;
+  }
+  return acyclic;
+}
+
 auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
   std::set<uint64_t> final_node_ids;
   for (int index = 0; index < dict_proto.final_node_id_size(); index += 1) {
@@ -143,19 +176,44 @@ auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
     }
   }
 
+  auto reject = [&]() -> Dawg * {
+    for (const auto &[node_id, node] : nodes) {
+      delete node;
+    }
+    return nullptr;
+  };
+
   for (int index = 0; index < dict_proto.edge_size(); index += 1) {
     const llp::Dictionary_Edge &edge_proto = dict_proto.edge(index);
     uint64_t source_id = edge_proto.source_id();
     char label = (char)edge_proto.label();
     uint64_t target_id = edge_proto.target_id();
-    DawgNode *source = nodes[source_id];
-    DawgNode *target = nodes[target_id];
-    source->add_edge(label, target);
+    auto source = nodes.find(source_id);
+    auto target = nodes.find(target_id);
+    if (source == nodes.end() || target == nodes.end() ||
+        source->second->transition(label) != nullptr) {
+      return reject();
+    }
+    source->second->add_edge(label, target->second);
   }
 
-  DawgNode *root = nodes[dict_proto.root_id()];
-  auto *dawg = new SortedDawg(root, dict_proto.size());
-  return dawg;
+  auto root = nodes.find(dict_proto.root_id());
+  if (root == nodes.end()) {
+    return reject();
+  }
+
+  // A truncated or corrupted dictionary must not be mistaken for a complete
+  // one: each node must be reachable from the root, no path may revisit a node,
+  // and the number of terms must be the one that was serialized.
+  std::map<DawgNode *, uint64_t> num_terms;
+  std::set<DawgNode *> path;
+  if (!count_terms(root->second, num_terms, path) ||
+      num_terms.size() != nodes.size() ||
+      num_terms[root->second] != dict_proto.size()) {
+    return reject();
+  }
+
+  return new SortedDawg(root->second, dict_proto.size());
 }
 
 } // namespace liblevenshtein
diff --git a/src/liblevenshtein/serialization/serializer.h b/src/liblevenshtein/serialization/serializer.h
index 03639c4..4b623ae 100644
--- a/src/liblevenshtein/serialization/serializer.h
+++ b/src/liblevenshtein/serialization/serializer.h
@@ -125,7 +125,8 @@ auto to_protobuf(Dawg *dawg) -> llp::Dictionary *;
  *
  * @param dict_proto Protobuf containing the serialized information necessary
  * for reconstructing the Dawg.
- * @return A pointer to the deserialized Dawg.
+ * @return A pointer to the deserialized Dawg or nullptr if the protobuf does not
+ * describe a complete Dawg (e.g. because it was truncated or corrupted).
  */
 auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg *;
 
-- 
2.43.0


From 461bbfcb671470cd346e8d30cbeb7af53ea72b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 03/15] fix: count repeated terms once in the size of a sorted
 dictionary

---
 src/liblevenshtein/collection/sorted_dawg.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index 7d8afa6..2498830 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -17,6 +17,11 @@ auto SortedDawg::add(const std::string &term) -> bool {
     return false;
   }
 
+  // The previous term may be repeated but must only be counted once
+  if (term == _prev_term && (!term.empty() || _root->is_final())) {
+    return true;
+  }
+
   if (term.empty()) {
     _root->is_final(true);
     _prev_term = term;
-- 
2.43.0


From 638560bc9df3a8e706a0f9aa59b79ce60b823666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 04/15] fix: refuse to add terms to an initialized or
 deserialized dictionary instead of crashing

---
 src/liblevenshtein/collection/sorted_dawg.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index 2498830..e4c51b3 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -13,6 +13,11 @@ SortedDawg::~SortedDawg() {
 }
 
 auto SortedDawg::add(const std::string &term) -> bool {
+  // Terms may only be added while the dictionary is being initialized
+  if (unchecked_transitions == nullptr) {
+    return false;
+  }
+
   if (term < _prev_term) {
     return false;
   }
-- 
2.43.0


From 1e948b2770de6040648da039e38a4b7ed090f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:35 +0000
Subject: [PATCH 05/15] fix: report an allocation failure while spelling a term
 instead of returning a truncated one

---
 src/liblevenshtein/collection/prefix.cpp       | 1 +
 src/liblevenshtein/transducer/intersection.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/liblevenshtein/collection/prefix.cpp b/src/liblevenshtein/collection/prefix.cpp
index d3d2289..3a2b747 100644
--- a/src/liblevenshtein/collection/prefix.cpp
+++ b/src/liblevenshtein/collection/prefix.cpp
@@ -33,6 +33,7 @@ auto Prefix::label() const -> char {
 
 auto Prefix::str() const -> std::string {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit); // never return a truncated term
   ss << *this;
   return ss.str();
 }
diff --git a/src/liblevenshtein/transducer/intersection.cpp b/src/liblevenshtein/transducer/intersection.cpp
index 41bff4f..850d378 100644
--- a/src/liblevenshtein/transducer/intersection.cpp
+++ b/src/liblevenshtein/transducer/intersection.cpp
@@ -24,6 +24,7 @@ auto Intersection::state() const -> State * {
 
 auto Intersection::str() const -> std::string {
   std::stringstream ss;
+  ss.exceptions(std::ios_base::badbit); // never return a truncated term
   ss << *this;
   return ss.str();
 }
-- 
2.43.0


From 69e2b8635aeb463c3a81e0c4d23b36c3ffc60c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:01 +0000
Subject: [PATCH 06/15] fix: refuse serialized dictionaries that repeat a node
 id instead of loading a zeroed save as empty

---
 .../serialization/serializer.cpp              | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 58a1e71..10967d3 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -167,15 +167,6 @@ auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
   }
 
   std::map<uint64_t, DawgNode *> nodes;
-  for (int index = 0; index < dict_proto.node_id_size(); index += 1) {
-    uint64_t node_id = dict_proto.node_id(index);
-    if (!nodes.contains(node_id)) {
-      bool is_final = final_node_ids.contains(node_id);
-      auto *node = new DawgNode(is_final);
-      nodes[node_id] = node;
-    }
-  }
-
   auto reject = [&]() -> Dawg * {
     for (const auto &[node_id, node] : nodes) {
       delete node;
@@ -183,6 +174,17 @@ auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
     return nullptr;
   };
 
+  for (int index = 0; index < dict_proto.node_id_size(); index += 1) {
+    uint64_t node_id = dict_proto.node_id(index);
+    if (nodes.contains(node_id)) {
+      // Each node is serialized once; e.g. zeroed bytes read as repeated ids.
+      return reject();
+    }
+    bool is_final = final_node_ids.contains(node_id);
+    auto *node = new DawgNode(is_final);
+    nodes[node_id] = node;
+  }
+
   for (int index = 0; index < dict_proto.edge_size(); index += 1) {
     const llp::Dictionary_Edge &edge_proto = dict_proto.edge(index);
     uint64_t source_id = edge_proto.source_id();
-- 
2.43.0


From b718fcc6c74454a7eaa9f0eeb7edb62709084e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:16 +0000
Subject: [PATCH 07/15] fix: refuse to add terms to a finished dictionary
 instead of grafting them onto its root

---
 src/liblevenshtein/collection/sorted_dawg.cpp | 3 ++-
 src/liblevenshtein/collection/sorted_dawg.h   | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index e4c51b3..99d990b 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -14,7 +14,7 @@ SortedDawg::~SortedDawg() {
 
 auto SortedDawg::add(const std::string &term) -> bool {
   // Terms may only be added while the dictionary is being initialized
-  if (unchecked_transitions == nullptr) {
+  if (unchecked_transitions == nullptr || _is_finished) {
     return false;
   }
 
@@ -66,6 +66,7 @@ auto SortedDawg::add(const std::string &term) -> bool {
 
 void SortedDawg::finish() {
   minimize(0);
+  _is_finished = true;
 }
 
 auto SortedDawg::minimized_node(DawgNode *key) const -> DawgNode * {
diff --git a/src/liblevenshtein/collection/sorted_dawg.h b/src/liblevenshtein/collection/sorted_dawg.h
index 7161135..e22dc37 100644
--- a/src/liblevenshtein/collection/sorted_dawg.h
+++ b/src/liblevenshtein/collection/sorted_dawg.h
@@ -96,6 +96,9 @@ private:
 
   /** Previous term inserted into this Dawg. */
   std::string _prev_term;
+
+  /** Whether this Dawg has been fully initialized. */
+  bool _is_finished = false;
 };
 
 /**
-- 
2.43.0


From 325f47e7f836d70d20c1eb503147372997e7f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:56 +0000
Subject: [PATCH 08/15] fix: refuse serialized dictionaries whose number of
 terms overflows instead of trusting the wrapped count

---
 src/liblevenshtein/serialization/serializer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 10967d3..610132a 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -133,7 +133,8 @@ auto to_protobuf(Dawg *dawg) -> llp::Dictionary * {
  * @param source DawgNode whose terms are to be counted.
  * @param num_terms Number of terms that follow from each visited DawgNode.
  * @param path DawgNodes along the current path, used to detect cycles.
- * @return Whether the graph that is reachable from the source is acyclic.
+ * @return Whether the graph that is reachable from the source is acyclic and
+ * the number of its terms does not overflow.
  */
 static auto count_terms(DawgNode *source,
                         std::map<DawgNode *, uint64_t> &num_terms,
@@ -150,6 +151,8 @@ static auto count_terms(DawgNode *source,
     acyclic = acyclic && count_terms(target, num_terms, path);
     if (acyclic) {
       count += num_terms[target];
+      // More terms than can be counted would agree with any serialized size.
+      acyclic = count >= num_terms[target];
     }
   });
   path.erase(source);
-- 
2.43.0


From 60534cc31ff602fd7c3651b73fd6222cb5a5f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:56 +0000
Subject: [PATCH 09/15] fix: destroy a dictionary by visiting each node once,
 not once per path that leads to it

---
 src/liblevenshtein/collection/dawg.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/liblevenshtein/collection/dawg.cpp b/src/liblevenshtein/collection/dawg.cpp
index 2e8fbf9..83960c6 100644
--- a/src/liblevenshtein/collection/dawg.cpp
+++ b/src/liblevenshtein/collection/dawg.cpp
@@ -32,10 +32,12 @@ auto Dawg::all_nodes() const -> std::unordered_set<DawgNode *> {
   while (!pending.empty()) {
     DawgNode *node = pending.front();
     pending.pop();
-    nodes.insert(node);
-    node->for_each_edge([&](char label, DawgNode *target) {
-      pending.push(target);
-    });
+    // Visit each node once, not once per path that leads to it
+    if (nodes.insert(node).second) {
+      node->for_each_edge([&](char label, DawgNode *target) {
+        pending.push(target);
+      });
+    }
   }
   return nodes;
 }
-- 
2.43.0


From 886a26b8804c883f0e9d58053e944a577d297b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:17 +0000
Subject: [PATCH 10/15] fix: do not serve or save an incomplete dictionary when
 the demo cannot read its list of terms

---
 example/src/main.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/example/src/main.cpp b/example/src/main.cpp
index 96e92c2..39074b7 100644
--- a/example/src/main.cpp
+++ b/example/src/main.cpp
@@ -72,13 +72,17 @@ auto main(int argc, char *argv[]) -> int {
 
     // populate with your spelling candidates
     std::ifstream dictionary_file(cli.dictionary_path());
-    if (dictionary_file.is_open()) {
-      std::string term;
-      while (std::getline(dictionary_file, term)) {
-        terms.push_back(term);
-      }
-      dictionary_file.close();
+    std::string term;
+    while (std::getline(dictionary_file, term)) {
+      terms.push_back(term);
     }
+    // An incomplete dictionary must not be served or replace the serialized one
+    if (!dictionary_file.is_open() || dictionary_file.bad()) {
+      std::cerr << "Failed to read --dictionary-path=" << cli.dictionary_path()
+                << std::endl;
+      return static_cast<int>(demo::ReturnCode::RETURN_FAILURE);
+    }
+    dictionary_file.close();
 
     std::sort(terms.begin(), terms.end()); // must be sorted for now
 
-- 
2.43.0


From 811ac9571ab3f8b6a0d5886e6bf1bc6532818852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:18 +0000
Subject: [PATCH 11/15] fix: end the demo when its input ends, even if the last
 query is not followed by a newline

---
 example/src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/example/src/main.cpp b/example/src/main.cpp
index 39074b7..45c0b47 100644
--- a/example/src/main.cpp
+++ b/example/src/main.cpp
@@ -51,7 +51,9 @@ std::string &prompt(std::string &query_term) {
   std::cout << std::endl;
   std::cout << "Enter a query term (or nothing to exit)." << std::endl;
   std::cout << "query> ";
-  std::getline(std::cin, query_term);
+  if (!std::getline(std::cin, query_term)) {
+    query_term.clear(); // the input has ended, which must not repeat the query
+  }
   return query_term;
 }
 
-- 
2.43.0


From d1594829b2f7a57a088a65ad1425820841ff7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:18 +0000
Subject: [PATCH 12/15] fix: report in the demo's exit code that the dictionary
 could not be saved

---
 example/src/main.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/example/src/main.cpp b/example/src/main.cpp
index 45c0b47..9a6bede 100644
--- a/example/src/main.cpp
+++ b/example/src/main.cpp
@@ -115,12 +115,17 @@ auto main(int argc, char *argv[]) -> int {
   std::cout << "Exiting ..." << std::endl;
 
   // save the dictionary for reuse
-  serialize_protobuf(dawg, cli.serialization_path());
+  auto return_code = demo::ReturnCode::RETURN_SUCCESS;
+  if (!ll::serialize_protobuf(dawg, cli.serialization_path())) {
+    std::cerr << "Failed to write --serialization-path="
+              << cli.serialization_path() << std::endl;
+    return_code = demo::ReturnCode::RETURN_FAILURE;
+  }
 
   delete dawg;
 
   // Optional:  Delete all global objects allocated by libprotobuf.
   google::protobuf::ShutdownProtobufLibrary();
 
-  return 0;
+  return static_cast<int>(return_code);
 }
-- 
2.43.0


From 485aec0d25af23d80632c1aa14d8b7514aec64ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:15 +0000
Subject: [PATCH 13/15] Revert the three repairs of the example program

They are recorded as findings instead: example/ is left as it was.
---
 example/src/main.cpp | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/example/src/main.cpp b/example/src/main.cpp
index 9a6bede..96e92c2 100644
--- a/example/src/main.cpp
+++ b/example/src/main.cpp
@@ -51,9 +51,7 @@ std::string &prompt(std::string &query_term) {
   std::cout << std::endl;
   std::cout << "Enter a query term (or nothing to exit)." << std::endl;
   std::cout << "query> ";
-  if (!std::getline(std::cin, query_term)) {
-    query_term.clear(); // the input has ended, which must not repeat the query
-  }
+  std::getline(std::cin, query_term);
   return query_term;
 }
 
@@ -74,17 +72,13 @@ auto main(int argc, char *argv[]) -> int {
 
     // populate with your spelling candidates
     std::ifstream dictionary_file(cli.dictionary_path());
-    std::string term;
-    while (std::getline(dictionary_file, term)) {
-      terms.push_back(term);
-    }
-    // An incomplete dictionary must not be served or replace the serialized one
-    if (!dictionary_file.is_open() || dictionary_file.bad()) {
-      std::cerr << "Failed to read --dictionary-path=" << cli.dictionary_path()
-                << std::endl;
-      return static_cast<int>(demo::ReturnCode::RETURN_FAILURE);
+    if (dictionary_file.is_open()) {
+      std::string term;
+      while (std::getline(dictionary_file, term)) {
+        terms.push_back(term);
+      }
+      dictionary_file.close();
     }
-    dictionary_file.close();
 
     std::sort(terms.begin(), terms.end()); // must be sorted for now
 
@@ -115,17 +109,12 @@ auto main(int argc, char *argv[]) -> int {
   std::cout << "Exiting ..." << std::endl;
 
   // save the dictionary for reuse
-  auto return_code = demo::ReturnCode::RETURN_SUCCESS;
-  if (!ll::serialize_protobuf(dawg, cli.serialization_path())) {
-    std::cerr << "Failed to write --serialization-path="
-              << cli.serialization_path() << std::endl;
-    return_code = demo::ReturnCode::RETURN_FAILURE;
-  }
+  serialize_protobuf(dawg, cli.serialization_path());
 
   delete dawg;
 
   // Optional:  Delete all global objects allocated by libprotobuf.
   google::protobuf::ShutdownProtobufLibrary();
 
-  return static_cast<int>(return_code);
+  return 0;
 }
-- 
2.43.0


From 4e8f11924b5a43f17cb209443813891dab3ef7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:18 +0000
Subject: [PATCH 14/15] fix: report a failed save to a stream that throws
 exceptions instead of terminating

Protobuf's OstreamOutputStream flushes from its destructor. If the output stream
is set to throw exceptions and writing to it fails, that flush throws again out
of the destructor and the process is terminated. The message is now serialized
into a string first, and written with a single call.
---
 src/liblevenshtein/serialization/serializer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 610132a..562e0f9 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -37,9 +37,15 @@ auto serialize_protobuf(Dawg *dawg, const char *path) -> bool {
 
 auto serialize_protobuf(Dawg *dawg, std::ostream &output) -> bool {
   llp::Dictionary *dict_proto = to_protobuf(dawg);
-  bool serialized = dict_proto->SerializeToOstream(&output);
+  std::string bytes;
+  bool serialized = dict_proto->SerializeToString(&bytes);
   delete dict_proto;
-  return serialized;
+  if (serialized) {
+    // Protobuf's own stream flushes from its destructor, which terminates the
+    // process if the output is set to throw exceptions and writing to it fails.
+    output.write(bytes.data(), static_cast<std::streamsize>(bytes.size()));
+  }
+  return serialized && output.good();
 }
 
 auto deserialize_protobuf(const fs::path &path) -> Dawg * {
-- 
2.43.0


From b7b886ed49618b69cbcb25932918d82da0e88e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:00 +0000
Subject: [PATCH 15/15] fix: hash every byte of a child's hash, so that unequal
 nodes rarely collide

Only the lowest byte of the hash of each child was hashed, so that the hashes of
the nodes along a long suffix repeated after a few of them. Each collision costs a
comparison of the remaining suffixes, and building a dictionary took time cubic
in the length of its terms (a minute for a single one of 2,000 characters).
---
 src/liblevenshtein/collection/dawg_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/liblevenshtein/collection/dawg_node.cpp b/src/liblevenshtein/collection/dawg_node.cpp
index 0c2965d..1de3135 100644
--- a/src/liblevenshtein/collection/dawg_node.cpp
+++ b/src/liblevenshtein/collection/dawg_node.cpp
@@ -101,7 +101,7 @@ auto std::hash<liblevenshtein::DawgNode>::operator()(
     hash_code = MurmurHash64A(key.data(), 1, hash_code);
 
     key[0] = (*this)(*target);
-    hash_code = MurmurHash64A(key.data(), 1, hash_code);
+    hash_code = MurmurHash64A(key.data(), sizeof(key), hash_code);
   });
 
   key[0] = (uint64_t) node.is_final();
-- 
2.43.0

