From 771c86d29b80451be24a5811cc523fa4c22115fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 01/38] fix: keep snapshot visibility of context entries moved
 by a deletion

Blackboard::del() shifts colliding entries back to close the gap but left
the table-of-contents bits in place: a hidden entry became visible in
snapshots, or a visible one vanished, when attributes with different
visibility collide in the hash table.
---
 src/caliper/Blackboard.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/caliper/Blackboard.cpp b/src/caliper/Blackboard.cpp
index 3d1c00f..d6554d0 100644
--- a/src/caliper/Blackboard.cpp
+++ b/src/caliper/Blackboard.cpp
@@ -87,7 +87,16 @@ void Blackboard::del(cali_id_t key)
             size_t k = hashtable[j].key % Nmax;
             if ((j > I && (k <= I || k > j)) || (j < I && (k <= I && k > j))) {
                 hashtable[I] = hashtable[j];
-                I            = j;
+                // keep the snapshot visibility of the moved entry
+                if (toc[j / 32] & (1 << (j % 32))) {
+                    toc[I / 32] |= (1 << (I % 32));
+                    toctoc |= (1 << (I / 32));
+                } else {
+                    toc[I / 32] &= ~(1 << (I % 32));
+                    if (toc[I / 32] == 0)
+                        toctoc &= ~(1 << (I / 32));
+                }
+                I = j;
             }
         }
     }
-- 
2.43.0


From 8372c31ef72e6974d0109ff490dc27f1a073a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 02/38] fix: keep the event service's branch filter state per
 thread

---
 src/services/event/EventTrigger.cpp | 56 ++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/services/event/EventTrigger.cpp b/src/services/event/EventTrigger.cpp
index 9e494c8..b509e4b 100644
--- a/src/services/event/EventTrigger.cpp
+++ b/src/services/event/EventTrigger.cpp
@@ -58,7 +58,15 @@ class EventTrigger
     RegionFilter region_filter;
     RegionFilter branch_filter;
 
-    std::vector<Variant> branch_filter_stack;
+    //   Open branch filter matches. This is per-thread data: one thread being
+    // inside a selected branch must not enable snapshots on other threads.
+    // We store a pointer to it on the thread's blackboard.
+    typedef std::vector<Variant> BranchFilterStack;
+
+    Attribute branch_filter_stack_attr;
+
+    std::vector<BranchFilterStack*> branch_filter_stacks;
+    std::mutex                      branch_filter_stacks_mutex;
 
     std::string channel_name;
 
@@ -138,6 +146,24 @@ class EventTrigger
         return nullptr;
     }
 
+    BranchFilterStack* acquire_branch_filter_stack(Caliper* c)
+    {
+        BranchFilterStack* stack =
+            static_cast<BranchFilterStack*>(c->get_blackboard_entry(branch_filter_stack_attr).value().get_ptr());
+
+        if (!stack) {
+            stack = new BranchFilterStack;
+
+            c->set(branch_filter_stack_attr, Variant(cali_make_variant_from_ptr(stack)));
+
+            std::lock_guard<std::mutex> g(branch_filter_stacks_mutex);
+
+            branch_filter_stacks.push_back(stack);
+        }
+
+        return stack;
+    }
+
     static inline bool is_subscription_attribute(const Attribute& attr)
     {
         return attr.get(cali::subscription_event_attr).to_bool();
@@ -156,9 +182,10 @@ class EventTrigger
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
         if (branch_filter.has_filters()) {
+            BranchFilterStack* stack = acquire_branch_filter_stack(c);
             if (branch_filter.pass(value))
-                branch_filter_stack.push_back(value);
-            if (branch_filter_stack.empty())
+                stack->push_back(value);
+            if (stack->empty())
                 return;
         }
 
@@ -200,9 +227,10 @@ class EventTrigger
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
         if (branch_filter.has_filters()) {
+            BranchFilterStack* stack = acquire_branch_filter_stack(c);
             if (branch_filter.pass(value))
-                branch_filter_stack.push_back(value);
-            if (branch_filter_stack.empty())
+                stack->push_back(value);
+            if (stack->empty())
                 return;
         }
 
@@ -236,10 +264,11 @@ class EventTrigger
         if (attr.type() == CALI_TYPE_STRING && !region_filter.pass(value))
             return;
         if (branch_filter.has_filters()) {
-            if (branch_filter_stack.empty())
+            BranchFilterStack* stack = acquire_branch_filter_stack(c);
+            if (stack->empty())
                 return;
-            if (value == branch_filter_stack.back())
-                branch_filter_stack.pop_back();
+            if (value == stack->back())
+                stack->pop_back();
         }
 
         if (enable_snapshot_info) {
@@ -331,10 +360,21 @@ class EventTrigger
             CALI_TYPE_USR,
             CALI_ATTR_SKIP_EVENTS | CALI_ATTR_HIDDEN
         );
+        branch_filter_stack_attr = c->create_attribute(
+            std::string("event.branch_stack.") + std::to_string(channel->id()),
+            CALI_TYPE_PTR,
+            CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_THREAD | CALI_ATTR_SKIP_EVENTS | CALI_ATTR_HIDDEN
+        );
 
         check_existing_attributes(c);
     }
 
+    ~EventTrigger()
+    {
+        for (BranchFilterStack* stack : branch_filter_stacks)
+            delete stack;
+    }
+
 public:
 
     static const char* s_spec;
-- 
2.43.0


From 0c88ad5e4eba63ee3387bbc6311b4fbefb7fbe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 03/38] fix: keep copies of the region names in the event
 service's branch filter

---
 src/services/event/EventTrigger.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/services/event/EventTrigger.cpp b/src/services/event/EventTrigger.cpp
index b509e4b..9541eb9 100644
--- a/src/services/event/EventTrigger.cpp
+++ b/src/services/event/EventTrigger.cpp
@@ -60,8 +60,9 @@ class EventTrigger
 
     //   Open branch filter matches. This is per-thread data: one thread being
     // inside a selected branch must not enable snapshots on other threads.
-    // We store a pointer to it on the thread's blackboard.
-    typedef std::vector<Variant> BranchFilterStack;
+    // We store a pointer to it on the thread's blackboard. The stack has copies of
+    // the region names: the strings given to begin() may not outlive the call.
+    typedef std::vector<std::string> BranchFilterStack;
 
     Attribute branch_filter_stack_attr;
 
@@ -183,8 +184,8 @@ class EventTrigger
             return;
         if (branch_filter.has_filters()) {
             BranchFilterStack* stack = acquire_branch_filter_stack(c);
-            if (branch_filter.pass(value))
-                stack->push_back(value);
+            if (attr.type() == CALI_TYPE_STRING && branch_filter.pass(value))
+                stack->emplace_back(static_cast<const char*>(value.data()), value.size());
             if (stack->empty())
                 return;
         }
@@ -228,8 +229,8 @@ class EventTrigger
             return;
         if (branch_filter.has_filters()) {
             BranchFilterStack* stack = acquire_branch_filter_stack(c);
-            if (branch_filter.pass(value))
-                stack->push_back(value);
+            if (attr.type() == CALI_TYPE_STRING && branch_filter.pass(value))
+                stack->emplace_back(static_cast<const char*>(value.data()), value.size());
             if (stack->empty())
                 return;
         }
@@ -267,7 +268,7 @@ class EventTrigger
             BranchFilterStack* stack = acquire_branch_filter_stack(c);
             if (stack->empty())
                 return;
-            if (value == stack->back())
+            if (attr.type() == CALI_TYPE_STRING && value == Variant(CALI_TYPE_STRING, stack->back().data(), stack->back().size()))
                 stack->pop_back();
         }
 
-- 
2.43.0


From 0bd819e09f3a6db6b3420616b6ad0cad6a80470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 04/38] fix: close branches of overlapping regions in the event
 service's branch filter

---
 src/services/event/EventTrigger.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/services/event/EventTrigger.cpp b/src/services/event/EventTrigger.cpp
index 9541eb9..3156f05 100644
--- a/src/services/event/EventTrigger.cpp
+++ b/src/services/event/EventTrigger.cpp
@@ -268,8 +268,13 @@ class EventTrigger
             BranchFilterStack* stack = acquire_branch_filter_stack(c);
             if (stack->empty())
                 return;
-            if (attr.type() == CALI_TYPE_STRING && value == Variant(CALI_TYPE_STRING, stack->back().data(), stack->back().size()))
-                stack->pop_back();
+            if (attr.type() == CALI_TYPE_STRING) {
+                // regions can overlap: close the innermost match, which may not be the last one opened
+                std::string name(static_cast<const char*>(value.data()), value.size());
+                auto        it = std::find(stack->rbegin(), stack->rend(), name);
+                if (it != stack->rend())
+                    stack->erase(std::next(it).base());
+            }
         }
 
         if (enable_snapshot_info) {
-- 
2.43.0


From 137e2c29722456bec51789c8be9bcc93998c56fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 05/38] fix: aggregate values of attributes created after an
 aggregation entry

---
 src/services/aggregate/AggregationDB.cpp | 19 +++++++++++++++++++
 src/services/aggregate/AggregationDB.h   |  1 +
 2 files changed, 20 insertions(+)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index c138695..9b3248d 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -68,6 +68,20 @@ AggregateEntry* AggregationDB::find_or_create_entry(SnapshotView key, std::size_
     return &m_entries[entry_idx];
 }
 
+void AggregationDB::extend_kernels(AggregateEntry* entry, std::size_t num_aggr_attrs, bool can_alloc)
+{
+    if (!can_alloc && m_kernels.size() + num_aggr_attrs >= m_kernels.capacity())
+        return;
+
+    size_t kernels_idx = m_kernels.size();
+    m_kernels.resize(m_kernels.size() + num_aggr_attrs, AggregateKernel());
+
+    std::copy_n(m_kernels.begin() + entry->kernels_idx, entry->num_kernels, m_kernels.begin() + kernels_idx);
+
+    entry->kernels_idx = kernels_idx;
+    entry->num_kernels = num_aggr_attrs;
+}
+
 void AggregationDB::process_snapshot(Caliper* c, SnapshotView rec, const AttributeInfo& info)
 {
     // --- extract key entries
@@ -92,6 +106,11 @@ void AggregationDB::process_snapshot(Caliper* c, SnapshotView rec, const Attribu
 
     AggregateEntry* entry = find_or_create_entry(key.view(), hash, info.aggr_attrs.size(), !c->is_signal());
 
+    // --- aggregation attributes may have been added since the entry was created
+
+    if (entry->num_kernels < info.aggr_attrs.size() && entry != &m_entries[0])
+        extend_kernels(entry, info.aggr_attrs.size(), !c->is_signal());
+
     // --- update values
 
     ++entry->count;
diff --git a/src/services/aggregate/AggregationDB.h b/src/services/aggregate/AggregationDB.h
index 44020cd..a2d6d7e 100644
--- a/src/services/aggregate/AggregationDB.h
+++ b/src/services/aggregate/AggregationDB.h
@@ -126,6 +126,7 @@ class AggregationDB
     std::vector<size_t>          m_hashmap;
 
     AggregateEntry* find_or_create_entry(cali::SnapshotView key, std::size_t hash, std::size_t num_aggr_attrs, bool can_alloc);
+    void            extend_kernels(AggregateEntry* entry, std::size_t num_aggr_attrs, bool can_alloc);
 
 public:
 
-- 
2.43.0


From f3bdab1fded759f8e45c6e98254bb83dc49cb9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 06/38] fix: give all threads the same context tree node for
 the same path

Two threads adding the same node at the same time created two nodes. A thread could
then get a different node for a path it had looked up before, and, for example, had
two aggregation entries for the same key.
---
 include/caliper/common/lockfree-tree.hpp | 25 +++++++++++++++
 src/caliper/MetadataTree.cpp             | 41 +++++++++++++++---------
 src/caliper/MetadataTree.h               | 15 +++++++--
 3 files changed, 63 insertions(+), 18 deletions(-)

diff --git a/include/caliper/common/lockfree-tree.hpp b/include/caliper/common/lockfree-tree.hpp
index 74e1892..8073a50 100644
--- a/include/caliper/common/lockfree-tree.hpp
+++ b/include/caliper/common/lockfree-tree.hpp
@@ -93,6 +93,31 @@ public:
         while (!n.head.compare_exchange_weak(node(sub).next, sub, std::memory_order_release, std::memory_order_relaxed))
             ;
     }
+
+    /// \brief Append \a sub unless there is a new child for which \a same holds
+    ///
+    /// Appends \a sub like append() if \a first is still the first child. If other
+    /// threads have added children since, looks for one where \a same is true.
+    ///
+    /// \return \a sub, or the equivalent child that was found
+    template <class Predicate>
+    T* append_unique(T* sub, T* first, Predicate same)
+    {
+        LockfreeIntrusiveTree<T>::Node& n = node(m_me);
+
+        node(sub).parent = m_me;
+        node(sub).next   = first;
+
+        while (!n.head.compare_exchange_weak(node(sub).next, sub, std::memory_order_acq_rel, std::memory_order_acquire)) {
+            T* head = node(sub).next;
+            for (T* t = head; t != first; t = node(t).next)
+                if (same(t))
+                    return t;
+            first = head;
+        }
+
+        return sub;
+    }
 };
 
 } // namespace util
diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index f8f9f26..7c92dbc 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -128,7 +128,16 @@ bool MetadataTree::have_free_nodeblock(size_t n)
 // --- Modifying tree operations
 //
 
-Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant* data, Node* parent = nullptr)
+Node* MetadataTree::append_child(Node* parent, Node* node, Node* first)
+{
+    //   Another thread may have added the same node since we looked for it. Use that one
+    // then: all threads must get the same node for the same path.
+    return parent->append_unique(node, first, [node](const Node* other) {
+        return other->equals(node->attribute(), node->data());
+    });
+}
+
+Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant* data, Node* parent, Node* first)
 {
     // Get a node block with sufficient free space
 
@@ -177,7 +186,7 @@ Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant*
             Node((m_nodeblock - g->node_blocks) * g->nodes_per_block + index, attr.id(), Variant(type, dptr, size));
 
         if (parent)
-            parent->append(node);
+            node = append_child(parent, node, i == 0 ? first : nullptr);
 
         parent = node;
     }
@@ -187,7 +196,7 @@ Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant*
     return node;
 }
 
-Node* MetadataTree::create_child(const Attribute& attr, const Variant& value, Node* parent)
+Node* MetadataTree::create_child(const Attribute& attr, const Variant& value, Node* parent, Node* first)
 {
     // Get a node block with sufficient free space
 
@@ -206,7 +215,7 @@ Node* MetadataTree::create_child(const Attribute& attr, const Variant& value, No
         Node((m_nodeblock - g->node_blocks) * g->nodes_per_block + index, attr.id(), value.copy(ptr));
 
     if (parent)
-        parent->append(node);
+        node = append_child(parent, node, first);
 
     ++m_num_nodes;
 
@@ -215,12 +224,14 @@ Node* MetadataTree::create_child(const Attribute& attr, const Variant& value, No
 
 Node* MetadataTree::get_path(const Attribute& attr, size_t n, const Variant* data, Node* parent = nullptr)
 {
-    Node*  node = parent ? parent : &(mG.load()->root);
-    size_t base = 0;
+    Node*  node  = parent ? parent : &(mG.load()->root);
+    Node*  first = nullptr;
+    size_t base  = 0;
 
     for (size_t i = 0; i < n; ++i) {
         parent = node;
-        node = parent->find_child_node(attr.id(), data[i]);
+        first  = parent->first_child();
+        node   = find_child(attr.id(), data[i], first);
 
         if (!node)
             break;
@@ -229,7 +240,7 @@ Node* MetadataTree::get_path(const Attribute& attr, size_t n, const Variant* dat
     }
 
     if (!node)
-        node = create_path(attr, n - base, data + base, parent);
+        node = create_path(attr, n - base, data + base, parent, first);
 
     return node;
 }
@@ -252,7 +263,8 @@ Node* MetadataTree::get_or_copy_node(const Node* from, Node* parent)
     if (!parent)
         parent = root();
 
-    Node* node = parent->find_child_node(from->attribute(), from->data());
+    Node* first = parent->first_child();
+    Node* node  = find_child(from->attribute(), from->data(), first);
 
     if (!node) {
         if (!have_free_nodeblock(1))
@@ -263,7 +275,7 @@ Node* MetadataTree::get_or_copy_node(const Node* from, Node* parent)
         node = new (m_nodeblock->chunk + index)
             Node((m_nodeblock - g->node_blocks) * g->nodes_per_block + index, from->attribute(), from->data());
 
-        parent->append(node);
+        node = append_child(parent, node, first);
 
         ++m_num_nodes;
     }
@@ -325,13 +337,10 @@ Node* MetadataTree::get_child(const Attribute& attr, const Variant& val, Node* p
     if (!parent)
         parent = root();
 
-    cali_id_t attr_id = attr.id();
-
-    for (Node* node = parent->first_child(); node; node = node->next_sibling())
-        if (node->equals(attr_id, val))
-            return node;
+    Node* first = parent->first_child();
+    Node* node  = find_child(attr.id(), val, first);
 
-    return create_child(attr, val, parent);
+    return node ? node : create_child(attr, val, parent, first);
 }
 
 void MetadataTree::release()
diff --git a/src/caliper/MetadataTree.h b/src/caliper/MetadataTree.h
index e847fa2..a00bc49 100644
--- a/src/caliper/MetadataTree.h
+++ b/src/caliper/MetadataTree.h
@@ -59,8 +59,19 @@ class MetadataTree
 
     bool have_free_nodeblock(size_t n);
 
-    Node* create_path(const Attribute& attr, size_t n, const Variant data[], Node* parent);
-    Node* create_child(const Attribute& attr, const Variant& value, Node* parent);
+    static Node* find_child(cali_id_t attr, const Variant& value, Node* first)
+    {
+        Node* node = first;
+        while (node && !node->equals(attr, value))
+            node = node->next_sibling();
+        return node;
+    }
+
+    // \a first is the first child of \a parent when the caller searched its children
+    static Node* append_child(Node* parent, Node* node, Node* first);
+
+    Node* create_path(const Attribute& attr, size_t n, const Variant data[], Node* parent, Node* first);
+    Node* create_child(const Attribute& attr, const Variant& value, Node* parent, Node* first);
     Node* get_or_copy_node(const Node* from, Node* parent = nullptr);
     Node* copy_path_without_attribute(const Attribute& attr, Node* node, Node* parent);
 
-- 
2.43.0


From 0f6c19651ec41facbaad77fdd369a0b2caece65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 07/38] fix: clear the trace buffers after an automatic flush

With buffer_policy=flush, the trace service wrote the full buffers out but
never emptied them: the next snapshot was stored behind the end of the
buffer, and everything was written again with the next flush.
---
 src/services/trace/Trace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index e3ac45e..868e41b 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -123,6 +123,7 @@ class Trace
             {
                 Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, flushing.\n";
                 c->flush_and_write(m_channel.body(), SnapshotView());
+                c->clear(&m_channel);
                 return tbuf;
             }
 
-- 
2.43.0


From 8bddc36d5fe53b4ddfb375841fea3f5a3f68caa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 08/38] fix: keep full trace buffers stopped after a flush

With buffer_policy=stop, flushing reset the stop mark of a full buffer, so
later small snapshots were recorded again behind a gap.
---
 src/services/trace/Trace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index 868e41b..df11890 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -165,9 +165,9 @@ class Trace
             // Stop tracing while we flush: writers won't block
             // but just drop the snapshot
 
-            tbuf->stopped.store(true);
+            bool was_stopped = tbuf->stopped.exchange(true);
             num_written += tbuf->chunks->flush(c, proc_fn);
-            tbuf->stopped.store(false);
+            tbuf->stopped.store(was_stopped);
         }
 
         Log(1).stream() << m_channel.name() << ": trace: Flushed " << num_written << " snapshots.\n";
-- 
2.43.0


From a83ad3dd8549b5e784a70970a255e62898ddd7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 09/38] fix: reject trace buffer size 0

A buffer size of 0 or an unreadable one led to writes behind the end of an
empty trace buffer.
---
 src/services/trace/Trace.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index df11890..faee092 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -276,7 +276,13 @@ class Trace
         ConfigSet cfg = services::init_config_from_spec(channel->config(), s_spec);
 
         init_overflow_policy(cfg.get("buffer_policy").to_string());
-        buffersize = cfg.get("buffer_size").to_uint() * 1024 * 1024;
+
+        size_t buffersize_mib = cfg.get("buffer_size").to_uint();
+
+        if (buffersize_mib > 0)
+            buffersize = buffersize_mib * 1024 * 1024;
+        else
+            Log(0).stream() << "trace: error: invalid buffer size \"" << cfg.get("buffer_size").to_string() << "\"" << std::endl;
 
         tbuf_attr = c->create_attribute(
             std::string("trace.tbuf.") + std::to_string(channel->id()),
-- 
2.43.0


From f365609957d0d157956ed80e7c8bcdd5d960c96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 10/38] fix: compare whole loop names in the loop monitor

With target_loops=foo the loop monitor also selected loops whose name only
starts with foo, and then missed the target loops nested in these.
---
 src/services/monitor/LoopMonitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/monitor/LoopMonitor.cpp b/src/services/monitor/LoopMonitor.cpp
index 5ead469..29802da 100644
--- a/src/services/monitor/LoopMonitor.cpp
+++ b/src/services/monitor/LoopMonitor.cpp
@@ -48,7 +48,7 @@ class LoopMonitor
             return true;
 
         for (const std::string& s : target_loops)
-            if (strncmp(static_cast<const char*>(value.data()), s.data(), s.size()) == 0)
+            if (value.size() == s.size() && strncmp(static_cast<const char*>(value.data()), s.data(), s.size()) == 0)
                 return true;
 
         return false;
-- 
2.43.0


From 3f6dbd16b1387e110bd2676be9069ec76ddf4f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 11/38] fix: record negative start iterations in the loop
 monitor

Iteration numbers below 0 were taken for 'no iteration yet', so the start
iteration was missing or that of a later iteration.
---
 src/services/monitor/LoopMonitor.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/services/monitor/LoopMonitor.cpp b/src/services/monitor/LoopMonitor.cpp
index 29802da..ebc10e0 100644
--- a/src/services/monitor/LoopMonitor.cpp
+++ b/src/services/monitor/LoopMonitor.cpp
@@ -58,10 +58,10 @@ class LoopMonitor
     {
         Entry  data[] = { { num_iterations_attr, Variant(num_iterations) },
                           { start_iteration_attr, Variant(start_iteration) } };
-        size_t n      = start_iteration >= 0 ? 2 : 1;
+        size_t n      = num_iterations > 0 ? 2 : 1;
         c->push_snapshot(chB, SnapshotView(n, data));
 
-        start_iteration = -1;
+        start_iteration = 0;
         num_iterations  = 0;
         ++num_snapshots;
 
@@ -77,9 +77,9 @@ class LoopMonitor
             }
             ++loop_level;
         } else if (loop_level == target_level && attr.get(cali::class_iteration_attr).to_bool()) {
-            ++num_iterations;
-            if (start_iteration < 0)
+            if (num_iterations == 0)
                 start_iteration = value.to_int();
+            ++num_iterations;
         }
     }
 
@@ -116,7 +116,7 @@ class LoopMonitor
     LoopMonitor(Caliper* c, Channel* channel)
         : loop_level(0),
           target_level(-1),
-          start_iteration(-1),
+          start_iteration(0),
           num_iterations(0),
           num_snapshots(0),
           iteration_interval(0),
-- 
2.43.0


From 0c3dac29d6cb5eb56d4d4bf9c6b28c7083a9b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 12/38] fix: accept memory regions with element size 0 in the
 alloc service

---
 src/services/alloc/AllocService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index f607947..29da9af 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -184,7 +184,7 @@ class AllocService
         info.total_size = total_size;
         info.v_uid      = Variant(cali_make_variant_from_uint(++g_alloc_uid));
         info.elem_size  = elem_size;
-        info.num_elems  = total_size / elem_size;
+        info.num_elems  = elem_size > 0 ? total_size / elem_size : 0;
 
         Variant v_label(label);
 
-- 
2.43.0


From 322d9c01e54e344d18d8b46f7be20330cdc9924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 13/38] fix: record sizes of 2 GiB and more in the alloc
 service

---
 src/services/alloc/AllocService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index 29da9af..e641de2 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -208,7 +208,7 @@ class AllocService
                 c,
                 chB,
                 info.alloc_label_node,
-                Variant(static_cast<int>(total_size)),
+                Variant(cali_make_variant_from_int64(static_cast<int64_t>(total_size))),
                 info.v_uid,
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
@@ -256,7 +256,7 @@ class AllocService
                 c,
                 chB,
                 info.free_label_node,
-                Variant(-static_cast<int>(info.total_size)),
+                Variant(cali_make_variant_from_int64(-static_cast<int64_t>(info.total_size))),
                 info.v_uid,
                 Variant(CALI_TYPE_ADDR, &ptr, sizeof(void*))
             );
-- 
2.43.0


From ae029b60f50d24fdf627a4403a4183afb961c60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 14/38] fix: count memory regions announced again at the same
 address once

---
 src/services/alloc/AllocService.cpp      | 23 ++++++++++++++++-------
 src/services/alloc/AllocStatsService.cpp | 22 ++++++++++++++++------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index e641de2..2585f78 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -214,15 +214,24 @@ class AllocService
             );
 
         {
-            std::lock_guard<std::mutex> g(g_hwm_lock);
+            std::lock_guard<std::mutex> g(g_tree_lock);
 
-            g_active_mem += total_size;
-            g_hwm        = std::max(g_hwm, g_active_mem);
-            g_region_hwm = std::max(g_region_hwm, g_active_mem);
-        }
+            auto     tree_node     = g_tree.find(HasStartAddress(info.start_addr));
+            uint64_t replaced_size = 0;
 
-        {
-            std::lock_guard<std::mutex> g(g_tree_lock);
+            if (tree_node) {
+                // the new region replaces one that was never untracked
+                replaced_size = (*tree_node).total_size;
+                --g_current_tracked;
+            }
+
+            {
+                std::lock_guard<std::mutex> g(g_hwm_lock);
+
+                g_active_mem += total_size - replaced_size;
+                g_hwm        = std::max(g_hwm, g_active_mem);
+                g_region_hwm = std::max(g_region_hwm, g_active_mem);
+            }
 
             g_tree.insert(info);
 
diff --git a/src/services/alloc/AllocStatsService.cpp b/src/services/alloc/AllocStatsService.cpp
index e691322..3c75d3d 100644
--- a/src/services/alloc/AllocStatsService.cpp
+++ b/src/services/alloc/AllocStatsService.cpp
@@ -69,6 +69,9 @@ class AllocStatsService
         uint64_t    addr = reinterpret_cast<uint64_t>(ptr);
         cali::Node* path = c->get_path_node().node();
 
+        // the new region replaces one at this address that was never untracked
+        untrack(addr);
+
         if (!path)
             return;
 
@@ -104,18 +107,15 @@ class AllocStatsService
         }
     }
 
-    void untrack_mem_cb(Caliper* c, const void* ptr)
+    bool untrack(uint64_t addr)
     {
-        uint64_t addr = reinterpret_cast<uint64_t>(ptr);
         AllocInfo alloc_info { 0, nullptr };
 
         {
             std::lock_guard<std::mutex> g(g_alloc_map_lock);
             auto it = g_alloc_map.find(addr);
-            if (it == g_alloc_map.end()) {
-                ++g_failed_untrack;
-                return;
-            }
+            if (it == g_alloc_map.end())
+                return false;
             alloc_info = it->second;
             g_alloc_map.erase(it);
             --g_current_tracked;
@@ -130,6 +130,16 @@ class AllocStatsService
             std::lock_guard<std::mutex> g(g_hwm_lock);
             g_active_mem -= alloc_info.bytes;
         }
+
+        return true;
+    }
+
+    void untrack_mem_cb(Caliper* c, const void* ptr)
+    {
+        if (!untrack(reinterpret_cast<uint64_t>(ptr))) {
+            std::lock_guard<std::mutex> g(g_alloc_map_lock);
+            ++g_failed_untrack;
+        }
     }
 
     void snapshot_cb(Caliper* c, SnapshotView, SnapshotBuilder& rec) {
-- 
2.43.0


From 5aef58f9890ab09ad8504a707eced6feb165c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:40 +0000
Subject: [PATCH 15/38] fix: resolve region labels for address attributes
 created after the region was tracked

---
 src/services/alloc/AllocService.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index 2585f78..c2ee7cb 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -289,6 +289,7 @@ class AllocService
 
             Entry       data[2];
             cali::Node* label_node = nullptr;
+            cali::Node* alloc_node = nullptr;
 
             {
                 std::lock_guard<std::mutex> g(g_tree_lock);
@@ -305,8 +306,17 @@ class AllocService
                 );
 
                 label_node = (*tree_node).addr_label_nodes[i];
+                alloc_node = (*tree_node).alloc_label_node;
             }
 
+            // The address attribute was created after the region was tracked
+            if (!label_node)
+                label_node = c->make_tree_entry(
+                    g_memoryaddress_attrs[i].alloc_label_attr,
+                    alloc_node->data(),
+                    alloc_node->parent()
+                );
+
             snapshot.append(2, data);
 
             if (label_node)
-- 
2.43.0


From 4f340913294b6f675dbf8bd6a110a1d4bab9614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 16/38] fix: do not read before an empty string when making a
 variant

---
 include/caliper/common/cali_variant.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/caliper/common/cali_variant.h b/include/caliper/common/cali_variant.h
index 22f80bf..c648ec4 100644
--- a/include/caliper/common/cali_variant.h
+++ b/include/caliper/common/cali_variant.h
@@ -126,13 +126,15 @@ inline cali_variant_t cali_make_variant_from_string(const char* value)
     size_t   size = strlen(value);
     uint64_t hash = 0;
 
-    const unsigned char* p = (const unsigned char*) value;
-    hash |= p[0];
-    hash <<= 8;
-    hash |= p[size / 2];
-    hash <<= 8;
-    hash |= p[size - 1];
-    hash <<= 8;
+    if (size > 0) {
+        const unsigned char* p = (const unsigned char*) value;
+        hash |= p[0];
+        hash <<= 8;
+        hash |= p[size / 2];
+        hash <<= 8;
+        hash |= p[size - 1];
+        hash <<= 8;
+    }
 
     cali_variant_t v;
 
-- 
2.43.0


From 5b057e1a5cb1de80c094e681283d39fdefaf9060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 17/38] fix: compare integer variants that differ by 2^31 or
 more

---
 src/common/cali_variant.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/cali_variant.c b/src/common/cali_variant.c
index 5f457fa..8953c2e 100644
--- a/src/common/cali_variant.c
+++ b/src/common/cali_variant.c
@@ -472,7 +472,7 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
                 return (cmp ? cmp : (lhssize - rhssize));
             }
         case CALI_TYPE_INT:
-            return lhs.value.v_int - rhs.value.v_int;
+            return (lhs.value.v_int > rhs.value.v_int) - (lhs.value.v_int < rhs.value.v_int);
         case CALI_TYPE_ADDR:
         case CALI_TYPE_UINT:
             {
-- 
2.43.0


From fd35424ae52f04eb7bf55594bcf4572359fc898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 18/38] fix: keep non-ASCII characters in .cali and JSON output

---
 src/common/util/format_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/util/format_util.h b/src/common/util/format_util.h
index be55f3b..8f479d6 100644
--- a/src/common/util/format_util.h
+++ b/src/common/util/format_util.h
@@ -39,7 +39,7 @@ inline std::ostream& write_json_esc_string(std::ostream& os, const char* str, st
             os.put('\\');
             os.put('n');
         }
-        if (c < 0x20) // skip control characters
+        if (static_cast<unsigned char>(c) < 0x20) // skip control characters
             continue;
         if (c == '\\' || c == '\"')
             os.put('\\');
@@ -57,7 +57,7 @@ inline std::ostream& write_cali_esc_string(std::ostream& os, const char* str, st
     for (size_t i = 0; i < size; ++i) {
         const char c = str[i];
 
-        if (c < 0x20) {
+        if (static_cast<unsigned char>(c) < 0x20) {
             if (c == '\n') { // handle newline in string
                 os.put('\\');
                 os.put('n');
-- 
2.43.0


From a5271b5b93b4261e57a4227522ab76c42466c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:40 +0000
Subject: [PATCH 19/38] fix: write doubles to .cali with all their digits

---
 src/common/Variant.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/common/Variant.cpp b/src/common/Variant.cpp
index 3614e2b..11e3a9c 100644
--- a/src/common/Variant.cpp
+++ b/src/common/Variant.cpp
@@ -17,6 +17,8 @@
 #include <cstring>
 #include <iomanip>
 #include <iterator>
+#include <limits>
+#include <locale>
 #include <sstream>
 
 using namespace cali;
@@ -158,7 +160,17 @@ std::ostream& Variant::write_cali(std::ostream& os)
         os << m_v.value.v_int;
         break;
     case CALI_TYPE_DOUBLE:
-        os << m_v.value.v_double;
+        {
+            // write enough digits to read back the same value
+            std::ostringstream digits;
+            digits.imbue(std::locale::classic());
+            digits << std::setprecision(std::numeric_limits<double>::digits10) << m_v.value.v_double;
+            if (std::strtod(digits.str().c_str(), nullptr) != m_v.value.v_double) {
+                digits.str("");
+                digits << std::setprecision(std::numeric_limits<double>::max_digits10) << m_v.value.v_double;
+            }
+            os << digits.str();
+        }
         break;
     case CALI_TYPE_UINT:
         util::write_uint64(os, m_v.value.v_uint);
-- 
2.43.0


From 374ccae5cbc4cccdcea228ca637815b71a722951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:40 +0000
Subject: [PATCH 20/38] fix: read empty records and records that end in an
 empty string

---
 src/reader/CaliReader.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index bf8479a..3122f55 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -46,7 +46,7 @@ public:
 
     inline bool matches(size_t N, const char* key)
     {
-        if (it_ + N < end_) {
+        if (static_cast<size_t>(end_ - it_) >= N) {
             if (std::equal(it_, it_ + N, key)) {
                 it_ += N;
                 return true;
@@ -242,9 +242,9 @@ struct CaliReader::CaliReaderImpl {
     {
         if (is.matches(11, "__rec=node,")) {
             read_node(is, db, idmap, node_proc);
-        } else if (is.matches(10, "__rec=ctx,")) {
+        } else if (is.matches(10, "__rec=ctx,") || (is.matches(9, "__rec=ctx") && !is.good())) {
             read_snapshot(is, db, idmap, snap_proc);
-        } else if (is.matches(14, "__rec=globals,")) {
+        } else if (is.matches(14, "__rec=globals,") || (is.matches(13, "__rec=globals") && !is.good())) {
             read_globals(is, db, idmap);
         } else {
             set_error(std::string("Unknown/invalid record: ") + is.context());
-- 
2.43.0


From 0aea1fd350642eee0b8f523331875f366e3c771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:40 +0000
Subject: [PATCH 21/38] fix: reject invalid nodes and leave out entries of
 undefined entities when reading .cali

---
 src/reader/CaliReader.cpp        | 30 ++++++++++++++++++++++++++----
 src/reader/CaliperMetadataDB.cpp |  2 +-
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index 3122f55..96a3865 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -127,6 +127,12 @@ inline std::vector<std::string> read_string_list(fast_istringstream& is)
     return ret;
 }
 
+/// \brief Check if \a id refers to a node defined in the stream (or to one of the hard-coded metadata nodes)
+inline bool is_defined(cali_id_t id, const IdMap& idmap)
+{
+    return id < 12 || idmap.count(id) > 0;
+}
+
 } // namespace
 
 struct CaliReader::CaliReaderImpl {
@@ -142,6 +148,15 @@ struct CaliReader::CaliReaderImpl {
         m_error_msg = msg;
     }
 
+    /// \brief Add \a entry to \a rec unless it refers to an undefined entity
+    void add_entry(const Entry& entry, std::vector<Entry>& rec)
+    {
+        if (entry.empty())
+            set_error("Undefined node or attribute in record");
+        else
+            rec.push_back(entry);
+    }
+
     void read_node(fast_istringstream& is, CaliperMetadataDB& db, IdMap& idmap, NodeProcessFn& node_proc)
     {
         cali_id_t   attr_id = CALI_INV_ID;
@@ -167,6 +182,11 @@ struct CaliReader::CaliReaderImpl {
             return;
         }
 
+        if (!is_defined(attr_id, idmap) || !(prnt_id == CALI_INV_ID || is_defined(prnt_id, idmap))) {
+            set_error("Undefined attribute or parent node in node record");
+            return;
+        }
+
         const Node* node = db.merge_node(node_id, attr_id, prnt_id, data_str, idmap);
 
         if (node)
@@ -199,9 +219,9 @@ struct CaliReader::CaliReaderImpl {
         rec.reserve(refs.size() + std::min(attr.size(), data.size()));
 
         for (cali_id_t id : refs)
-            rec.push_back(db.merge_entry(id, idmap));
+            add_entry(is_defined(id, idmap) ? db.merge_entry(id, idmap) : Entry(), rec);
         for (size_t i = 0; i < std::min(attr.size(), data.size()); ++i)
-            rec.push_back(db.merge_entry(attr[i], data[i], idmap));
+            add_entry(is_defined(attr[i], idmap) ? db.merge_entry(attr[i], data[i], idmap) : Entry(), rec);
 
         snap_proc(db, rec);
     }
@@ -227,9 +247,11 @@ struct CaliReader::CaliReaderImpl {
             set_error("attr / data size mismatch");
 
         for (cali_id_t id : refs)
-            db.merge_global(id, idmap);
+            if (is_defined(id, idmap))
+                db.merge_global(id, idmap);
         for (size_t i = 0; i < std::min(attr.size(), data.size()); ++i)
-            db.merge_global(attr[i], data[i], idmap);
+            if (is_defined(attr[i], idmap))
+                db.merge_global(attr[i], data[i], idmap);
     }
 
     void read_record(
diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index da4dfe6..f7484d8 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -224,7 +224,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
 
         Node* node = merge_node(node_id, attr_id, prnt_id, v_data);
 
-        if (node_id != node->id())
+        if (node)
             idmap.insert(std::make_pair(node_id, node->id()));
 
         return node;
-- 
2.43.0


From dc8319016f5010a421fcc74c152ad4a86f19befd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:30 +0000
Subject: [PATCH 22/38] fix: truncate 64-bit integers in CalQL without losing
 digits

---
 src/reader/Preprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/Preprocessor.cpp b/src/reader/Preprocessor.cpp
index c8161d7..ab96915 100644
--- a/src/reader/Preprocessor.cpp
+++ b/src/reader/Preprocessor.cpp
@@ -181,7 +181,7 @@ public:
         Variant v_res(res);
 
         if (type == CALI_TYPE_INT)
-            v_res = cali_make_variant_from_int(static_cast<int>(res));
+            v_res = cali_make_variant_from_int64(static_cast<int64_t>(res));
         else if (type == CALI_TYPE_UINT)
             v_res = cali_make_variant_from_uint(static_cast<uint64_t>(fabs(res)));
 
-- 
2.43.0


From 2d4620e85269c2a28e9fd94dcbadd73ae419407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 23/38] fix: count recursive regions once and unknown region
 types not at all in region profiles

---
 src/reader/FlatExclusiveRegionProfile.cpp   | 10 ++++++--
 src/reader/FlatInclusiveRegionProfile.cpp   | 26 ++++++++++++++-------
 src/reader/NestedExclusiveRegionProfile.cpp | 10 ++++++--
 src/reader/NestedInclusiveRegionProfile.cpp | 10 ++++++--
 4 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/reader/FlatExclusiveRegionProfile.cpp b/src/reader/FlatExclusiveRegionProfile.cpp
index 58aa984..07599ac 100644
--- a/src/reader/FlatExclusiveRegionProfile.cpp
+++ b/src/reader/FlatExclusiveRegionProfile.cpp
@@ -17,6 +17,7 @@ struct FlatExclusiveRegionProfile::FlatExclusiveRegionProfileImpl {
 
     Attribute metric_attr;
     Attribute region_attr;
+    bool      unknown_region_attr = false; // there are no regions of the requested type
 
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
@@ -32,6 +33,9 @@ struct FlatExclusiveRegionProfile::FlatExclusiveRegionProfileImpl {
         double val = metric_entry_it->value().to_double();
         total += val;
 
+        if (unknown_region_attr)
+            return;
+
         auto region_entry_it = rec.end();
 
         if (!region_attr)
@@ -60,8 +64,10 @@ FlatExclusiveRegionProfile::FlatExclusiveRegionProfile(
 {
     mP->metric_attr = db.get_attribute(metric_attr_name);
 
-    if (region_attr_name && strlen(region_attr_name) > 0)
-        mP->region_attr = db.get_attribute(region_attr_name);
+    if (region_attr_name && strlen(region_attr_name) > 0) {
+        mP->region_attr         = db.get_attribute(region_attr_name);
+        mP->unknown_region_attr = !mP->region_attr;
+    }
 }
 
 void FlatExclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
diff --git a/src/reader/FlatInclusiveRegionProfile.cpp b/src/reader/FlatInclusiveRegionProfile.cpp
index e51e3af..b765148 100644
--- a/src/reader/FlatInclusiveRegionProfile.cpp
+++ b/src/reader/FlatInclusiveRegionProfile.cpp
@@ -7,6 +7,7 @@
 
 #include <algorithm>
 #include <cstring>
+#include <set>
 
 using namespace cali;
 
@@ -17,6 +18,7 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
 
     Attribute metric_attr;
     Attribute region_attr;
+    bool      unknown_region_attr = false; // there are no regions of the requested type
 
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
@@ -32,8 +34,11 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
         double val = metric_entry_it->value().to_double();
         total += val;
 
-        cali_id_t r_a_id         = region_attr.id();
-        bool      have_reg_entry = false;
+        if (unknown_region_attr)
+            return;
+
+        cali_id_t             r_a_id = region_attr.id();
+        std::set<std::string> regions; // count recursive regions once
 
         for (const Entry& e : rec) {
             if (!e.is_reference())
@@ -43,14 +48,15 @@ struct FlatInclusiveRegionProfile::FlatInclusiveRegionProfileImpl {
                 cali_id_t n_a_id   = node->attribute();
                 bool is_target_reg = (r_a_id == CALI_INV_ID ? db.get_attribute(n_a_id).is_nested() : r_a_id == n_a_id);
 
-                if (is_target_reg) {
-                    have_reg_entry = true;
-                    reg_profile[node->data().to_string()] += val;
-                }
+                if (is_target_reg)
+                    regions.insert(node->data().to_string());
             }
         }
 
-        if (have_reg_entry)
+        for (const std::string& region : regions)
+            reg_profile[region] += val;
+
+        if (!regions.empty())
             total_reg += val;
     }
 };
@@ -64,8 +70,10 @@ FlatInclusiveRegionProfile::FlatInclusiveRegionProfile(
 {
     mP->metric_attr = db.get_attribute(metric_attr_name);
 
-    if (region_attr_name && strlen(region_attr_name) > 0)
-        mP->region_attr = db.get_attribute(region_attr_name);
+    if (region_attr_name && strlen(region_attr_name) > 0) {
+        mP->region_attr         = db.get_attribute(region_attr_name);
+        mP->unknown_region_attr = !mP->region_attr;
+    }
 }
 
 void FlatInclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
diff --git a/src/reader/NestedExclusiveRegionProfile.cpp b/src/reader/NestedExclusiveRegionProfile.cpp
index daa83fd..9ff13bc 100644
--- a/src/reader/NestedExclusiveRegionProfile.cpp
+++ b/src/reader/NestedExclusiveRegionProfile.cpp
@@ -40,6 +40,7 @@ struct NestedExclusiveRegionProfile::NestedExclusiveRegionProfileImpl {
 
     Attribute metric_attr;
     Attribute region_attr;
+    bool      unknown_region_attr = false; // there are no regions of the requested type
 
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
@@ -55,6 +56,9 @@ struct NestedExclusiveRegionProfile::NestedExclusiveRegionProfileImpl {
         double val = metric_entry_it->value().to_double();
         total += val;
 
+        if (unknown_region_attr)
+            return;
+
         cali_id_t r_a_id = region_attr.id();
 
         for (const Entry& e : rec) {
@@ -82,8 +86,10 @@ NestedExclusiveRegionProfile::NestedExclusiveRegionProfile(
 {
     mP->metric_attr = db.get_attribute(metric_attr_name);
 
-    if (region_attr_name && strlen(region_attr_name) > 0)
-        mP->region_attr = db.get_attribute(region_attr_name);
+    if (region_attr_name && strlen(region_attr_name) > 0) {
+        mP->region_attr         = db.get_attribute(region_attr_name);
+        mP->unknown_region_attr = !mP->region_attr;
+    }
 }
 
 void NestedExclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
diff --git a/src/reader/NestedInclusiveRegionProfile.cpp b/src/reader/NestedInclusiveRegionProfile.cpp
index a5352dc..8d98c98 100644
--- a/src/reader/NestedInclusiveRegionProfile.cpp
+++ b/src/reader/NestedInclusiveRegionProfile.cpp
@@ -48,6 +48,7 @@ struct NestedInclusiveRegionProfile::NestedInclusiveRegionProfileImpl {
 
     Attribute metric_attr;
     Attribute region_attr;
+    bool      unknown_region_attr = false; // there are no regions of the requested type
 
     void process_record(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
     {
@@ -63,6 +64,9 @@ struct NestedInclusiveRegionProfile::NestedInclusiveRegionProfileImpl {
         double val = metric_entry_it->value().to_double();
         total += val;
 
+        if (unknown_region_attr)
+            return;
+
         cali_id_t   r_a_id = region_attr.id();
         std::string pathstr;
 
@@ -90,8 +94,10 @@ NestedInclusiveRegionProfile::NestedInclusiveRegionProfile(
 {
     mP->metric_attr = db.get_attribute(metric_attr_name);
 
-    if (region_attr_name && strlen(region_attr_name) > 0)
-        mP->region_attr = db.get_attribute(region_attr_name);
+    if (region_attr_name && strlen(region_attr_name) > 0) {
+        mP->region_attr         = db.get_attribute(region_attr_name);
+        mP->unknown_region_attr = !mP->region_attr;
+    }
 }
 
 void NestedInclusiveRegionProfile::operator() (CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
-- 
2.43.0


From 4dd89b91b8423abb9101b38e1102f74bb430804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 24/38] fix: send strings, large records and all attributes
 between processes

---
 src/caliper/aggregate_over_mpi.cpp | 47 +++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/caliper/aggregate_over_mpi.cpp b/src/caliper/aggregate_over_mpi.cpp
index 5d8bbec..998b975 100644
--- a/src/caliper/aggregate_over_mpi.cpp
+++ b/src/caliper/aggregate_over_mpi.cpp
@@ -43,23 +43,42 @@ void recursive_append_path(
     buf.append(node);
 }
 
-void pack_and_send(int dest, CaliperMetadataAccessInterface& db, Aggregator& aggregator, MPI_Comm comm)
+// Packed variants don't contain string data: strings are sent as nodes
+bool is_string(const Variant& v)
+{
+    return v.type() == CALI_TYPE_STRING || v.type() == CALI_TYPE_USR;
+}
+
+void pack_and_send(int dest, CaliperMetadataDB& metadb, Aggregator& aggregator, MPI_Comm comm)
 {
     NodeBuffer     nodebuf;
     SnapshotBuffer snapbuf;
 
     std::set<cali_id_t> written_nodes;
 
+    // The receiver needs the aggregated attributes too, even if they don't appear in the partial results
+    for (const Attribute& attr : metadb.get_all_attributes())
+        recursive_append_path(metadb, attr.node(), nodebuf, written_nodes);
+
     aggregator.flush(
-        db,
-        [&nodebuf, &snapbuf, &written_nodes](CaliperMetadataAccessInterface& db, const EntryList& list) {
-            for (const Entry& e : list)
-                if (e.node())
-                    recursive_append_path(db, e.node(), nodebuf, written_nodes);
-                else if (e.is_immediate())
-                    recursive_append_path(db, db.node(e.attribute()), nodebuf, written_nodes);
-
-            snapbuf.append(CompressedSnapshotRecord(list.size(), list.data()));
+        metadb,
+        [&metadb, &nodebuf, &snapbuf, &written_nodes](CaliperMetadataAccessInterface& db, const EntryList& list) {
+            EntryList rec(list);
+
+            for (Entry& e : rec) {
+                if (e.is_immediate() && is_string(e.value())) {
+                    const Node  data_node(CALI_INV_ID, e.attribute(), e.value());
+                    const Node* nodelist[] = { &data_node };
+                    e = Entry(metadb.make_tree_entry(1, nodelist));
+                }
+                recursive_append_path(db, e.node(), nodebuf, written_nodes);
+            }
+
+            // at most 30 bytes per entry
+            std::vector<unsigned char> buf(2 + 30 * rec.size());
+            CompressedSnapshotRecord   csr(buf.size(), buf.data());
+            csr.append(rec.size(), rec.data());
+            snapbuf.append(csr);
         }
     );
 
@@ -137,7 +156,13 @@ size_t receive_and_merge_snapshots(
         view.unpack_nodes(128, node_ids);
         view.unpack_immediate(128, attr_ids, values);
 
-        snap_fn(db, db.merge_snapshot(view.num_nodes(), node_ids, view.num_immediates(), attr_ids, values, idmap));
+        EntryList rec = db.merge_snapshot(view.num_nodes(), node_ids, view.num_immediates(), attr_ids, values, idmap);
+
+        for (Entry& e : rec)
+            if (e.is_reference() && is_string(e.value()) && db.get_attribute(e.attribute()).store_as_value())
+                e = Entry(db.get_attribute(e.attribute()), e.value());
+
+        snap_fn(db, rec);
     }
 
     return snapbuf.size();
-- 
2.43.0


From 9caad8f7aacc8e9ff93aeffc7ece23bc5689fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:56 +0000
Subject: [PATCH 25/38] fix: make aggregation keys independent of the order of
 entries

---
 src/reader/Aggregator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 6b0ae8a..6845cf1 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -1094,6 +1094,10 @@ struct Aggregator::AggregatorImpl {
 
         if (!non_path_nodes.empty()) {
             std::reverse(non_path_nodes.begin(), non_path_nodes.end());
+            // The order of the entries and of different attributes in the tree must not matter
+            std::stable_sort(non_path_nodes.begin(), non_path_nodes.end(), [](const Node* a, const Node* b) {
+                return a->attribute() < b->attribute();
+            });
             key.emplace_back(db.make_tree_entry(non_path_nodes.size(), non_path_nodes.data()));
         }
 
-- 
2.43.0


From 8bce4fb439768afc39ddf3f4b89846374e67153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:56 +0000
Subject: [PATCH 26/38] fix: do not count partial results without a count when
 merging them

---
 src/reader/Aggregator.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 6845cf1..4f96759 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -142,14 +142,19 @@ public:
     class Config : public AggregateKernelConfig
     {
         CustomAttributeManager m_count_attr;
+        CustomAttributeManager m_nocount_attr; // marks partial results without a count
 
     public:
 
         Attribute attr(CaliperMetadataAccessInterface& db) { return m_count_attr.get(db); }
+        Attribute nocount_attr(CaliperMetadataAccessInterface& db) { return m_nocount_attr.get(db); }
 
         AggregateKernel* make_kernel() override { return new CountKernel(this); }
 
-        Config() : m_count_attr { "count", CALI_TYPE_UINT } {}
+        Config()
+            : m_count_attr { "count", CALI_TYPE_UINT }
+            , m_nocount_attr { "count", "none.", CALI_TYPE_BOOL, CALI_ATTR_HIDDEN }
+        { }
 
         static AggregateKernelConfig* create(const std::vector<std::string>&) { return new Config; }
     };
@@ -160,11 +165,13 @@ public:
     {
         Attribute count_attr = m_config->attr(db);
         cali_id_t count_attr_id = count_attr.id();
+        cali_id_t nocount_attr_id = m_config->nocount_attr(db).id();
         for (const Entry& e : list)
             if (e.attribute() == count_attr_id) {
                 m_count += e.value().to_uint();
                 return 1;
-            }
+            } else if (e.attribute() == nocount_attr_id)
+                return 0;
 
         ++m_count;
         return 1;
@@ -175,6 +182,8 @@ public:
         uint64_t count = m_count.load();
         if (count > 0)
             list.push_back(Entry(m_config->attr(db), Variant(cali_make_variant_from_uint(count))));
+        else
+            list.push_back(Entry(m_config->nocount_attr(db), Variant(true)));
     }
 
 private:
@@ -190,6 +199,7 @@ public:
     class Config : public AggregateKernelConfig
     {
         CustomAttributeManager m_count_attr;
+        CustomAttributeManager m_nocount_attr; // marks partial results without a count
         CustomAttributeManager m_result_attr { "scount", CALI_TYPE_DOUBLE };
 
         double m_scale;
@@ -202,6 +212,7 @@ public:
 
         explicit Config(const std::string& scale_str)
             : m_count_attr { scale_str, "scount#", CALI_TYPE_UINT }
+            , m_nocount_attr { scale_str, "none.scount#", CALI_TYPE_BOOL, CALI_ATTR_HIDDEN }
             , m_scale { std::stod(scale_str) }
         { }
 
@@ -215,11 +226,13 @@ public:
     int aggregate(CaliperMetadataAccessInterface& db, const EntryList& list) override
     {
         Attribute count_attr = m_config->m_count_attr.get(db);
+        Attribute nocount_attr = m_config->m_nocount_attr.get(db);
         for (const Entry& e : list)
             if (e.attribute() == count_attr.id()) {
                 m_count += e.value().to_uint();
                 return 1;
-            }
+            } else if (e.attribute() == nocount_attr.id())
+                return 0;
 
         ++m_count;
         return 1;
@@ -230,6 +243,8 @@ public:
         if (m_count > 0) {
             list.push_back(Entry(m_config->m_count_attr.get(db), Variant(m_count)));
             list.push_back(Entry(m_config->m_result_attr.get(db), Variant(m_config->get_scale() * m_count)));
+        } else {
+            list.push_back(Entry(m_config->m_nocount_attr.get(db), Variant(true)));
         }
     }
 
-- 
2.43.0


From 9ded4c0d6ec1da6756c6875f5693cc8f3f2d14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:56 +0000
Subject: [PATCH 27/38] fix: keep the partial results of ratios with a common
 attribute apart

---
 src/reader/Aggregator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 4f96759..9d0479f 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -567,8 +567,9 @@ public:
         AggregateKernel* make_kernel() override { return new ScaledRatioKernel(this); }
 
         Config(const std::vector<std::string>& cfg, bool is_inclusive)
-            : m_tgt1 { cfg[0], is_inclusive ? "isr.sum#" : "sr.sum#", CALI_ATTR_HIDDEN }
-            , m_tgt2 { cfg[1], is_inclusive ? "isr.sum#" : "sr.sum#", CALI_ATTR_HIDDEN }
+            // different ratios can share a target attribute but not their partial results
+            : m_tgt1 { cfg[0], (is_inclusive ? "isr.sum#" : "sr.sum#")+cfg[0]+"/"+cfg[1]+"#", CALI_ATTR_HIDDEN }
+            , m_tgt2 { cfg[1], (is_inclusive ? "isr.sum#" : "sr.sum#")+cfg[0]+"/"+cfg[1]+"#", CALI_ATTR_HIDDEN }
             , m_ratio_attr { std::string(is_inclusive ? "iratio#" : "ratio#")+cfg[0]+"/"+cfg[1], CALI_TYPE_DOUBLE }
             , m_scale { 1.0 }
             , m_inclusive { is_inclusive }
-- 
2.43.0


From b087f0432951e40a3545bcf041eb75ce0c85d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:56 +0000
Subject: [PATCH 28/38] fix: do not add partial inclusive results and group
 keys twice when merging

---
 src/reader/Aggregator.cpp | 56 +++++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 9d0479f..7042a06 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -92,15 +92,39 @@ public:
     }
 };
 
+inline bool has_entry(const std::vector<Entry>& rec, cali_id_t attr_id)
+{
+    for (const Entry& e : rec)
+        if (e.attribute() == attr_id)
+            return true;
+    return false;
+}
+
 inline int apply_to_matching_entries(CaliperMetadataAccessInterface& db, AggregationAttributeManager& attr, const std::vector<Entry>& rec, std::function<void(const Entry&)> F)
 {
     if (!attr.derived_attr(db))
         return 0;
     cali_id_t tgt_attr_id = attr.target_attr(db).id();
     cali_id_t drv_attr_id = attr.derived_attr(db).id();
+    // A partial result already contains the target attribute's values in its record (e.g., if it is a key, too)
+    bool is_partial = has_entry(rec, drv_attr_id);
+    int count = 0;
+    for (const Entry& e : rec)
+        if (e.node()->id() == (is_partial ? drv_attr_id : tgt_attr_id)) {
+            F(e);
+            ++count;
+        }
+    return count;
+}
+
+inline int apply_to_target_entries(CaliperMetadataAccessInterface& db, AggregationAttributeManager& attr, const std::vector<Entry>& rec, std::function<void(const Entry&)> F)
+{
+    if (!attr.derived_attr(db) || has_entry(rec, attr.derived_attr(db).id()))
+        return 0;
+    cali_id_t tgt_attr_id = attr.target_attr(db).id();
     int count = 0;
     for (const Entry& e : rec)
-        if (e.node()->id() == tgt_attr_id || e.node()->id() == drv_attr_id) {
+        if (e.node()->id() == tgt_attr_id) {
             F(e);
             ++count;
         }
@@ -115,7 +139,9 @@ public:
 
     virtual ~AggregateKernel() {}
 
-    // For inclusive metrics, parent_aggregate is invoked for parent nodes
+    // For inclusive metrics, parent_aggregate is invoked for parent nodes.
+    // Partial inclusive results already contain the values below them, and the
+    // parents have partial results of their own: they must not be added again.
     virtual void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& list) { aggregate(db, list); }
     virtual int aggregate(CaliperMetadataAccessInterface& db, const EntryList& list) = 0;
     virtual void append_result(CaliperMetadataAccessInterface& db, EntryList& list)   = 0;
@@ -297,6 +323,11 @@ public:
         return apply_to_matching_entries(db, m_config->attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
     }
 
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_target_entries(db, m_config->attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
+    }
+
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
         if (m_sum)
@@ -356,6 +387,11 @@ public:
         return apply_to_matching_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
     }
 
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_target_entries(db, m_config->sum_attr(), rec, [this](const Entry& e){ m_sum += e.value(); });
+    }
+
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
         if (m_sum) {
@@ -508,8 +544,10 @@ public:
         Attribute count_attr = m_config->m_count_attr.get(db);
         int count = 0;
 
+        bool is_partial = has_entry(list, sum_attr.id());
+
         for (const Entry& e : list) {
-            if (e.attribute() == tgt_attr.id()) {
+            if (e.attribute() == tgt_attr.id() && !is_partial) {
                 m_sum += e.value();
                 ++m_count;
                 ++count;
@@ -601,6 +639,12 @@ public:
         return count;
     }
 
+    void parent_aggregate(CaliperMetadataAccessInterface& db, const EntryList& rec) override
+    {
+        apply_to_target_entries(db, m_config->m_tgt1, rec, [this](const Entry& e){ m_sum1 += e.value(); });
+        apply_to_target_entries(db, m_config->m_tgt2, rec, [this](const Entry& e){ m_sum2 += e.value(); });
+    }
+
     void append_result(CaliperMetadataAccessInterface& db, EntryList& rec) override
     {
         if (m_sum1)
@@ -690,8 +734,9 @@ public:
     void append_result(CaliperMetadataAccessInterface& db, EntryList& list) override
     {
         double total = m_config->get_total();
-        if (m_isum && total > 0.0) {
+        if (m_sum)
             list.push_back(Entry(m_config->sum_attr().derived_attr(db), Variant(m_sum)));
+        if (m_isum && total > 0.0) {
             list.push_back(Entry(m_config->result_attr(db), Variant(100.0 * m_isum.to_double() / total)));
         }
     }
@@ -817,9 +862,10 @@ public:
         if (!m_config->get_statistics_attributes(db, stat_attr))
             return 0;
 
+        bool is_partial = has_entry(list, stat_attr.sum.id());
         int count = 0;
         for (const Entry& e : list) {
-            if (e.attribute() == target_attr.id()) {
+            if (e.attribute() == target_attr.id() && !is_partial) {
                 double v = e.value().to_double();
                 m_sum += v;
                 m_sqsum += (v * v);
-- 
2.43.0


From df91cde97343fe6518f61ce1ad697b64945c354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 29/38] fix: show aggregation keys in the layout of their first
 record

---
 src/reader/Aggregator.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 7042a06..4ce115f 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -997,6 +997,7 @@ struct Aggregator::AggregatorImpl {
 
     struct AggregateEntry {
         std::vector<Entry>                            key;
+        std::vector<Entry>                            output_key; // the key as it was laid out in the first record
         std::vector<std::unique_ptr<AggregateKernel>> kernels;
         std::size_t                                   next_entry_idx;
     };
@@ -1088,7 +1089,7 @@ struct Aggregator::AggregatorImpl {
         return false;
     }
 
-    AggregateEntry* get_aggregation_entry(const std::vector<Entry>& key)
+    AggregateEntry* get_aggregation_entry(const std::vector<Entry>& key, const Entry& node_entry, std::size_t node_idx)
     {
         // --- lookup key
 
@@ -1106,8 +1107,12 @@ struct Aggregator::AggregatorImpl {
         for (AggregateKernelConfig* k_cfg : m_kernel_configs)
             kernels.emplace_back(k_cfg->make_kernel());
 
+        std::vector<Entry> output_key(key);
+        if (!node_entry.empty())
+            output_key[node_idx] = node_entry;
+
         size_t idx = m_entries.size();
-        m_entries.emplace_back(new AggregateEntry { key, std::move(kernels), m_hashmap[hash] });
+        m_entries.emplace_back(new AggregateEntry { key, std::move(output_key), std::move(kernels), m_hashmap[hash] });
         m_hashmap[hash] = idx;
 
         return m_entries[idx].get();
@@ -1154,13 +1159,18 @@ struct Aggregator::AggregatorImpl {
 
         // --- Make node entry for non-path nodes and put it in the key
 
+        Entry       node_entry; // output entry for the non-path nodes
+        std::size_t node_idx = 0;
+
         if (!non_path_nodes.empty()) {
             std::reverse(non_path_nodes.begin(), non_path_nodes.end());
-            // The order of the entries and of different attributes in the tree must not matter
+            node_entry = Entry(db.make_tree_entry(non_path_nodes.size(), non_path_nodes.data()));
+            // The order of entries and of different attributes in the tree must not matter for the key
             std::stable_sort(non_path_nodes.begin(), non_path_nodes.end(), [](const Node* a, const Node* b) {
                 return a->attribute() < b->attribute();
             });
             key.emplace_back(db.make_tree_entry(non_path_nodes.size(), non_path_nodes.data()));
+            node_idx = key.size() - 1;
         }
 
         // --- Add path entry to key
@@ -1175,7 +1185,7 @@ struct Aggregator::AggregatorImpl {
 
         // --- Aggregate
 
-        AggregateEntry* entry = get_aggregation_entry(key);
+        AggregateEntry* entry = get_aggregation_entry(key, node_entry, node_idx);
 
         for (size_t k = 0; k < entry->kernels.size(); ++k) {
             int matches = entry->kernels[k]->aggregate(db, rec);
@@ -1184,7 +1194,7 @@ struct Aggregator::AggregatorImpl {
             if (m_kernel_configs[k]->is_inclusive() && (matches > 0) && path_node) {
                 for (Node* node = path_node->parent(); node && node->attribute() != CALI_INV_ID; node = node->parent()) {
                     key.back() = Entry(node);
-                    AggregateEntry* p_entry = get_aggregation_entry(key);
+                    AggregateEntry* p_entry = get_aggregation_entry(key, node_entry, node_idx);
                     p_entry->kernels[k]->parent_aggregate(db, rec);
                 }
             }
@@ -1202,7 +1212,7 @@ struct Aggregator::AggregatorImpl {
         for (const auto &entry : m_entries) {
             if (!entry)
                 continue;
-            std::vector<Entry> rec(entry->key);
+            std::vector<Entry> rec(entry->output_key);
             for (auto const& k : entry->kernels)
                 k->append_result(db, rec);
             push(db, rec);
-- 
2.43.0


From d17f541335a7dd7c071821d1ea5f3092faf96201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:40 +0000
Subject: [PATCH 30/38] fix: keep earlier nodes when appending more to a
 compressed snapshot record

---
 src/common/CompressedSnapshotRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/CompressedSnapshotRecord.cpp b/src/common/CompressedSnapshotRecord.cpp
index 4d01058..7800d9e 100644
--- a/src/common/CompressedSnapshotRecord.cpp
+++ b/src/common/CompressedSnapshotRecord.cpp
@@ -185,7 +185,7 @@ size_t CompressedSnapshotRecord::append(size_t n, const Node* const node_vec[])
         // size check, copy to actual buffer
         if (m_num_nodes + blk < 128 && m_imm_pos + m_imm_len + len <= m_buffer_len) {
             ::save_memmove(m_buffer + m_imm_pos + len, m_buffer + m_imm_pos, m_imm_len);
-            memcpy(m_buffer + 1, tmp, len);
+            memcpy(m_buffer + m_imm_pos, tmp, len);
 
             m_imm_pos += len;
             m_num_nodes += blk;
-- 
2.43.0


From 979e4e19817e7938b36be20de306aaf9ceaa1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 31/38] fix: ignore annotations and other calls after Caliper
 is finalized

---
 src/caliper/Annotation.cpp |  12 ++++
 src/caliper/Caliper.cpp    | 129 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 140 insertions(+), 1 deletion(-)

diff --git a/src/caliper/Annotation.cpp b/src/caliper/Annotation.cpp
index 8a7926f..3af9549 100644
--- a/src/caliper/Annotation.cpp
+++ b/src/caliper/Annotation.cpp
@@ -147,6 +147,10 @@ struct Annotation::Impl {
     void begin(const Variant& data)
     {
         Caliper   c;
+
+        if (!c)
+            return;
+
         Attribute attr = get_attribute(c, data.type());
 
         if (attr.type() == data.type() && attr.type() != CALI_TYPE_INV)
@@ -156,6 +160,10 @@ struct Annotation::Impl {
     void set(const Variant& data)
     {
         Caliper   c;
+
+        if (!c)
+            return;
+
         Attribute attr = get_attribute(c, data.type());
 
         if ((attr.type() == data.type()) && attr.type() != CALI_TYPE_INV)
@@ -165,6 +173,10 @@ struct Annotation::Impl {
     void end()
     {
         Caliper   c;
+
+        if (!c)
+            return;
+
         Attribute attr = Attribute::make_attribute(m_attr_node.load());
 
         if (attr)
diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 33e72ad..64881c1 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -674,7 +674,8 @@ Attribute Caliper::create_attribute(
     const Variant*     meta_val
 )
 {
-    assert(sG != 0);
+    if (!sG || !sT)
+        return Attribute();
 
     std::lock_guard<::siglock> g(sT->lock);
 
@@ -750,6 +751,9 @@ Attribute Caliper::create_attribute(
 
 Attribute Caliper::get_attribute(const std::string& name) const
 {
+    if (!sG || !sT)
+        return Attribute();
+
     std::lock_guard<::siglock>  gs(sT->lock);
     std::lock_guard<std::mutex> ga(sG->attribute_lock);
 
@@ -759,12 +763,18 @@ Attribute Caliper::get_attribute(const std::string& name) const
 
 Attribute Caliper::get_attribute(cali_id_t id) const
 {
+    if (!sG || !sT)
+        return Attribute();
+
     // no signal lock necessary
     return Attribute::make_attribute(sT->tree.node(id));
 }
 
 std::vector<Attribute> Caliper::get_all_attributes() const
 {
+    if (!sG || !sT)
+        return std::vector<Attribute>();
+
     std::lock_guard<::siglock>  g(sT->lock);
     std::lock_guard<std::mutex> g_a(sG->attribute_lock);
 
@@ -793,6 +803,9 @@ void Caliper::memory_region_begin(
     const Variant*   extra_vals
 )
 {
+    if (!sG || !sT)
+        return;
+
     for (auto& channel : sG->active_channels)
         memory_region_begin(channel.body(), ptr, label, elem_size, ndim, dims, nextra, extra_attrs, extra_vals);
 }
@@ -800,6 +813,9 @@ void Caliper::memory_region_begin(
 /// Dispatch memory region annotation end across all active channels
 void Caliper::memory_region_end(const void* ptr)
 {
+    if (!sG || !sT)
+        return;
+
     for (auto& channel : sG->active_channels)
         memory_region_end(channel.body(), ptr);
 }
@@ -808,6 +824,9 @@ void Caliper::memory_region_end(const void* ptr)
 /// blackboard.
 std::vector<Entry> Caliper::get_globals()
 {
+    if (!sG || !sT)
+        return std::vector<Entry>();
+
     std::lock_guard<::siglock> g(sT->lock);
 
     return get_globals_from_blackboard(this, sG->process_blackboard, sG->process_blackboard_lock);
@@ -817,6 +836,9 @@ std::vector<Entry> Caliper::get_globals()
 /// and the process blackboard.
 std::vector<Entry> Caliper::get_globals(ChannelBody* chB)
 {
+    if (!sG || !sT)
+        return std::vector<Entry>();
+
     std::lock_guard<::siglock> g(sT->lock);
 
     std::vector<Entry> ret = get_globals_from_blackboard(this, sG->process_blackboard, sG->process_blackboard_lock);
@@ -831,6 +853,9 @@ std::vector<Entry> Caliper::get_globals(ChannelBody* chB)
 
 void Caliper::pull_context(SnapshotBuilder& rec)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     // Get thread blackboard data
@@ -843,6 +868,9 @@ void Caliper::pull_context(SnapshotBuilder& rec)
 
 void Caliper::pull_snapshot(ChannelBody* chB, SnapshotView trigger_info, SnapshotBuilder& rec)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     rec.append(trigger_info);
@@ -855,6 +883,9 @@ void Caliper::pull_snapshot(ChannelBody* chB, SnapshotView trigger_info, Snapsho
 
 void Caliper::push_snapshot(ChannelBody* chB, SnapshotView trigger_info)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     sT->snapshot.reset();
@@ -872,6 +903,9 @@ void Caliper::push_snapshot(ChannelBody* chB, SnapshotView trigger_info)
 
 void Caliper::push_snapshot_replace(ChannelBody* chB, SnapshotView trigger_info, const Entry& target)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     sT->snapshot.reset();
@@ -891,6 +925,9 @@ void Caliper::push_snapshot_replace(ChannelBody* chB, SnapshotView trigger_info,
 
 void Caliper::flush(ChannelBody* chB, SnapshotView flush_info, SnapshotFlushFn proc_fn)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     chB->events.pre_flush_evt(this, chB, flush_info);
@@ -914,6 +951,9 @@ void Caliper::flush(ChannelBody* chB, SnapshotView flush_info, SnapshotFlushFn p
 
 void Caliper::flush_and_write(ChannelBody* chB, SnapshotView input_flush_info)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     SnapshotRecord flush_info;
@@ -936,6 +976,9 @@ void Caliper::flush_and_write(ChannelBody* chB, SnapshotView input_flush_info)
 
 void Caliper::clear(Channel* chn)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     chn->mP->events.clear_evt(this, chn);
@@ -945,6 +988,9 @@ void Caliper::clear(Channel* chn)
 
 void Caliper::begin(const Attribute& attr, const Variant& data)
 {
+    if (!sG || !sT)
+        return;
+
     if (sT->stack_error)
         return;
 
@@ -981,6 +1027,9 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
 
 void Caliper::end(const Attribute& attr)
 {
+    if (!sG || !sT)
+        return;
+
     if (sT->stack_error)
         return;
 
@@ -1025,6 +1074,9 @@ void Caliper::end(const Attribute& attr)
 
 void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 {
+    if (!sG || !sT)
+        return;
+
     if (sT->stack_error)
         return;
 
@@ -1070,6 +1122,9 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 
 void Caliper::set(const Attribute& attr, const Variant& data)
 {
+    if (!sG || !sT)
+        return;
+
     if (sT->stack_error)
         return;
 
@@ -1098,6 +1153,9 @@ void Caliper::set(const Attribute& attr, const Variant& data)
 
 void Caliper::async_event(SnapshotView info)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     for (auto& channel : sG->active_channels)
@@ -1106,6 +1164,9 @@ void Caliper::async_event(SnapshotView info)
 
 void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
+    if (!sG || !sT)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1127,6 +1188,9 @@ void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data
 
 void Caliper::end(ChannelBody* chB, const Attribute& attr)
 {
+    if (!sG || !sT)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1157,6 +1221,9 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
 
 void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
+    if (!sG || !sT)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1174,6 +1241,9 @@ void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 
 Entry Caliper::get(const Attribute& attr)
 {
+    if (!sG || !sT)
+        return Entry();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1193,6 +1263,9 @@ Entry Caliper::get(const Attribute& attr)
 
 Entry Caliper::get_blackboard_entry(const Attribute& attr)
 {
+    if (!sG || !sT)
+        return Entry();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1212,6 +1285,9 @@ Entry Caliper::get_blackboard_entry(const Attribute& attr)
 
 Entry Caliper::get(ChannelBody* chB, const Attribute& attr)
 {
+    if (!sG || !sT)
+        return Entry();
+
     cali_id_t key = get_blackboard_key(attr.id(), attr.properties());
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -1222,6 +1298,9 @@ Entry Caliper::get(ChannelBody* chB, const Attribute& attr)
 
 Entry Caliper::get_path_node()
 {
+    if (!sG || !sT)
+        return Entry();
+
     Entry e;
 
     {
@@ -1256,12 +1335,18 @@ void Caliper::memory_region_begin(
     const Variant*   extra_vals
 )
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
     chB->events.track_mem_evt(this, chB, ptr, label, elem_size, ndims, dims, n, extra_attrs, extra_vals);
 }
 
 void Caliper::memory_region_end(ChannelBody* chB, const void* ptr)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
     chB->events.untrack_mem_evt(this, chB, ptr);
 }
@@ -1270,6 +1355,9 @@ void Caliper::memory_region_end(ChannelBody* chB, const void* ptr)
 
 void Caliper::make_record(size_t n, const Attribute attr[], const Variant value[], SnapshotBuilder& rec, Node* parent)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     Node* node = parent;
@@ -1286,30 +1374,45 @@ void Caliper::make_record(size_t n, const Attribute attr[], const Variant value[
 
 Node* Caliper::make_tree_entry(size_t n, const Node* nodelist[], Node* parent)
 {
+    if (!sG || !sT)
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_path(n, nodelist, parent);
 }
 
 Node* Caliper::make_tree_entry(const Attribute& attr, const Variant& data, Node* parent)
 {
+    if (!sG || !sT)
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_child(attr, data, parent);
 }
 
 Node* Caliper::make_tree_entry(const Attribute& attr, size_t n, const Variant data[], Node* parent)
 {
+    if (!sG || !sT)
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_path(attr, n, data, parent);
 }
 
 Node* Caliper::node(cali_id_t id) const
 {
+    if (!sG || !sT)
+        return nullptr;
+
     // no siglock necessary
     return sT->tree.node(id);
 }
 
 Variant Caliper::exchange(const Attribute& attr, const Variant& data)
 {
+    if (!sG || !sT)
+        return Variant();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1336,6 +1439,9 @@ Variant Caliper::exchange(const Attribute& attr, const Variant& data)
 
 Channel Caliper::create_channel(const char* name, const RuntimeConfig& cfg)
 {
+    if (!sG || !sT)
+        return Channel();
+
     std::lock_guard<::siglock> g(sT->lock);
 
     Log(1).stream() << "Creating channel " << name << std::endl;
@@ -1378,6 +1484,9 @@ Channel Caliper::create_channel(const char* name, const RuntimeConfig& cfg)
 
 Channel Caliper::get_channel(cali_id_t id)
 {
+    if (!sG || !sT)
+        return Channel();
+
     auto it = std::find_if(sG->all_channels.begin(), sG->all_channels.end(), [id](const Channel& channel) {
         return id == channel.id();
     });
@@ -1387,11 +1496,17 @@ Channel Caliper::get_channel(cali_id_t id)
 
 std::vector<Channel> Caliper::get_all_channels()
 {
+    if (!sG || !sT)
+        return std::vector<Channel>();
+
     return sG->all_channels;
 }
 
 void Caliper::delete_channel(Channel& channel)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     channel.mP->events.pre_finish_evt(this, &channel);
@@ -1410,6 +1525,9 @@ void Caliper::delete_channel(Channel& channel)
 
 void Caliper::activate_channel(Channel& channel)
 {
+    if (!sG || !sT)
+        return;
+
     channel.mP->is_active = true;
 
     auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
@@ -1421,6 +1539,9 @@ void Caliper::activate_channel(Channel& channel)
 
 void Caliper::deactivate_channel(Channel& channel)
 {
+    if (!sG || !sT)
+        return;
+
     auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
     if (it != sG->active_channels.end())
         sG->active_channels.erase(it);
@@ -1431,6 +1552,9 @@ void Caliper::deactivate_channel(Channel& channel)
 /// \brief Release current thread
 void Caliper::release_thread()
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     for (auto& channel : sG->all_channels)
@@ -1439,6 +1563,9 @@ void Caliper::release_thread()
 
 void Caliper::finalize()
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     Log(1).stream() << "Finalizing ... " << std::endl;
-- 
2.43.0


From 62da88cae7db1a7e20a7c39ef4c841d55a6f2429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 32/38] fix: deactivate deleted channels and disconnect their
 services

---
 src/caliper/Caliper.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 64881c1..417b179 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -164,6 +164,7 @@ struct cali::ChannelBody {
     cali_id_t   id;
     std::string name;
     bool        is_active;
+    bool        is_deleted;
 
     RuntimeConfig   config;
     Channel::Events events; ///< callbacks
@@ -174,7 +175,7 @@ struct cali::ChannelBody {
     std::mutex channel_blackboard_lock;
 
     ChannelBody(cali_id_t _id, const char* _name, const RuntimeConfig& cfg)
-        : id(_id), name(_name), is_active(false), config(cfg)
+        : id(_id), name(_name), is_active(false), is_deleted(false), config(cfg)
     {
         ConfigSet cali_cfg = config.init("channel", s_configdata);
         flush_on_exit = cali_cfg.get("flush_on_exit").to_bool();
@@ -1520,12 +1521,19 @@ void Caliper::delete_channel(Channel& channel)
     if (it != sG->all_channels.end())
         sG->all_channels.erase(it);
 
-    channel.mP->events.finish_evt(this, &channel);
+    std::shared_ptr<ChannelBody> mP = channel.mP;
+
+    mP->is_active = false;
+    mP->events.finish_evt(this, &channel);
+
+    // The services are gone: don't let retained channel objects reach them
+    mP->events     = Channel::Events();
+    mP->is_deleted = true;
 }
 
 void Caliper::activate_channel(Channel& channel)
 {
-    if (!sG || !sT)
+    if (!sG || !sT || channel.mP->is_deleted)
         return;
 
     channel.mP->is_active = true;
-- 
2.43.0


From eb111930786c64b89e6c21cc8258631109601584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 33/38] fix: check channel and thread state in
 cali_channel_flush and cali_channel_get

---
 src/caliper/cali.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index a389a34..7e11dbf 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -339,10 +339,14 @@ cali_variant_t cali_get(cali_id_t attr_id)
 
 cali_variant_t cali_channel_get(cali_id_t chn_id, cali_id_t attr_id)
 {
-    Caliper c       = Caliper::sigsafe_instance();
+    Caliper c = Caliper::sigsafe_instance();
+
+    if (!c)
+        return cali_make_empty_variant();
+
     Channel channel = c.get_channel(chn_id);
 
-    if (!c || !channel)
+    if (!channel)
         return cali_make_empty_variant();
 
     return c.get(channel.body(), c.get_attribute(attr_id)).value().c_variant();
@@ -724,6 +728,11 @@ void cali_channel_flush(cali_id_t chn_id, int flush_opts)
     Caliper c;
     Channel channel = c.get_channel(chn_id);
 
+    if (!channel) {
+        Log(0).stream() << "cali_channel_flush(): invalid channel id " << chn_id << std::endl;
+        return;
+    }
+
     c.flush_and_write(channel.body(), SnapshotView());
 
     if (flush_opts & CALI_FLUSH_CLEAR_BUFFERS)
-- 
2.43.0


From f22e019ec261fc8838dbfa3f17a5f15db64042cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 34/38] fix: initialize Caliper once when threads use it for
 the first time concurrently

---
 src/caliper/Caliper.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 417b179..34245ea 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1612,10 +1612,13 @@ Caliper Caliper::instance()
 
         Log::init();
 
-        GlobalData::gObj.g_ptr = nullptr;
-        GlobalData::tObj.t_ptr = nullptr;
-
-        if (!GlobalData::gObj.g_ptr) {
+        if (GlobalData::s_init_lock == 0) {
+            // another thread has initialized Caliper in the meantime
+            gPtr = GlobalData::gObj.g_ptr;
+            tPtr = GlobalData::tObj.t_ptr;
+        } else if (GlobalData::s_init_lock == 2) {
+            return Caliper(nullptr, nullptr, true);
+        } else {
             tPtr = new ThreadData(true /* is_initial_thread */);
             gPtr = new GlobalData(tPtr);
 
-- 
2.43.0


From e42586588481ab97cf7fe9cfd621fcf9b15874f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 35/38] fix: finalize Caliper when the main thread ends, not
 the thread that used it first

---
 src/caliper/Caliper.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 34245ea..2cb6690 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -31,6 +31,7 @@
 #include <map>
 #include <memory>
 #include <mutex>
+#include <thread>
 #include <vector>
 
 #define SNAP_MAX 120
@@ -82,6 +83,16 @@ public:
 
 // --- helper functions
 
+//   The thread that loads the library, i.e. the program's main thread.
+const std::thread::id main_thread_id = std::this_thread::get_id();
+
+//   Returns true on the program's main thread. We can only be called before
+// main_thread_id is initialized on the main thread itself.
+inline bool is_main_thread()
+{
+    return main_thread_id == std::thread::id() || main_thread_id == std::this_thread::get_id();
+}
+
 void log_invalid_cfg_value(const char* var, const char* value, const char* prefix = nullptr)
 {
     Log(0).stream() << (prefix ? std::string(prefix) + ": " : std::string("")) << "Invalid value \"" << value
@@ -466,7 +477,11 @@ struct Caliper::GlobalData {
         {
             // Only use if we're still active
             if (g_ptr && s_init_lock == 0) {
-                Caliper c(g_ptr, tObj.t_ptr, false);
+                //   There is no thread data if this thread never used Caliper:
+                // use the data of the thread that initialized Caliper then
+                ThreadData* t_ptr = tObj.t_ptr ? tObj.t_ptr : g_ptr->thread_data.front();
+
+                Caliper c(g_ptr, t_ptr, false);
 
                 c.finalize();
                 delete g_ptr;
@@ -1619,7 +1634,7 @@ Caliper Caliper::instance()
         } else if (GlobalData::s_init_lock == 2) {
             return Caliper(nullptr, nullptr, true);
         } else {
-            tPtr = new ThreadData(true /* is_initial_thread */);
+            tPtr = new ThreadData(is_main_thread());
             gPtr = new GlobalData(tPtr);
 
             GlobalData::gObj.g_ptr = gPtr;
@@ -1635,7 +1650,7 @@ Caliper Caliper::instance()
     }
 
     if (!tPtr) {
-        tPtr = gPtr->add_thread_data(new ThreadData(false /* is_initial_thread */));
+        tPtr = gPtr->add_thread_data(new ThreadData(is_main_thread()));
         Caliper c(gPtr, tPtr, false);
 
         for (auto& channel : gPtr->all_channels)
-- 
2.43.0


From 84c498c8442abd1e6d6ae3c18fe5cc542355234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 36/38] fix: check for free node space for each node of a path

---
 src/caliper/MetadataTree.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index 7c92dbc..2960a72 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -139,11 +139,6 @@ Node* MetadataTree::append_child(Node* parent, Node* node, Node* first)
 
 Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant* data, Node* parent, Node* first)
 {
-    // Get a node block with sufficient free space
-
-    if (!have_free_nodeblock(n))
-        return 0;
-
     // Calculate and allocate required memory
 
     const size_t align     = 8;
@@ -180,6 +175,10 @@ Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant*
             ptr += size + (align - (size + 1) % align);
         }
 
+        // The path may be longer than a node block
+        if (!have_free_nodeblock(1))
+            return nullptr;
+
         size_t index = m_nodeblock->index++;
 
         node = new (m_nodeblock->chunk + index)
-- 
2.43.0


From e93cdb137d2ae3ae2afad30b182c233bcbfea72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 37/38] fix: do not undo concurrent updates of shared
 blackboards in end

---
 src/caliper/Caliper.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 2cb6690..6c8ef63 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1084,6 +1084,16 @@ void Caliper::end(const Attribute& attr)
         handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
     else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
+
+        //   Other threads can have updated the blackboard while we invoked callbacks:
+        // get its current state, or we would undo their updates
+        current = load_current_entry(attr, key, sG->process_blackboard);
+
+        if (current.entry.empty()) {
+            sT->stack_error = true;
+            return;
+        }
+
         handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
     }
 }
@@ -1132,6 +1142,17 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
         handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
     else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
+
+        //   Other threads can have updated the blackboard while we invoked callbacks:
+        // get its current state, or we would undo their updates
+        current = load_current_entry(attr, key, sG->process_blackboard);
+
+        if (current.entry.empty() || data != current.entry.value()) {
+            log_stack_value_error(current.entry, attr, data);
+            sT->stack_error = true;
+            return;
+        }
+
         handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
     }
 }
@@ -1231,6 +1252,16 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
 
     {
         std::lock_guard<std::mutex> gbb(chB->channel_blackboard_lock);
+
+        //   Other threads can have updated the blackboard while we invoked callbacks:
+        // get its current state, or we would undo their updates
+        current = load_current_entry(attr, key, chB->channel_blackboard);
+
+        if (current.entry.empty()) {
+            sT->stack_error = true;
+            return;
+        }
+
         handle_end(attr, prop, current, key, chB->channel_blackboard, sT->tree);
     }
 }
-- 
2.43.0


From 37d6b82c18c65c27892e46c69428d014c08367b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:39 +0000
Subject: [PATCH 38/38] fix: initialize the table of node blocks

Looking up a node id in a block that is not in use yet read
uninitialized memory and could return an invalid node.
---
 src/caliper/MetadataTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index 2960a72..c178950 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -28,7 +28,7 @@ MetadataTree::GlobalData::GlobalData(MemoryPool& pool)
     num_blocks      = config.get("num_blocks").to_uint();
     nodes_per_block = std::min<uint64_t>(config.get("nodes_per_block").to_uint(), 256);
 
-    node_blocks = new NodeBlock[num_blocks];
+    node_blocks = new NodeBlock[num_blocks]();
 
     Node* chunk = pool.aligned_alloc<Node>(nodes_per_block);
 
-- 
2.43.0

