From ea47333dc8c23cca18405773bd85b919156de334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 01/59] fix: make swap() of flat_segment_tree usable

---
 include/mdds/flat_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 88c8910..d4635d8 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -799,7 +799,7 @@ private:
 
 template<typename Key, typename Value>
 void swap(flat_segment_tree<Key, Value>& left, flat_segment_tree<Key, Value>& right) noexcept(
-    std::is_nothrow_swappable_v<flat_segment_tree<Key, Value>>)
+    noexcept(left.swap(right)))
 {
     left.swap(right);
 }
-- 
2.43.0


From b240bc68a691e82d4975eb1e28276461c185fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 02/59] fix: flat_segment_tree::search(pos, key) falls back to
 the normal search on an invalid position

---
 include/mdds/flat_segment_tree_def.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 9c63927..45ac7e5 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -599,7 +599,12 @@ template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_iterator flat_segment_tree<Key, Value>::search(
     const_iterator pos, key_type key) const
 {
-    return search_by_key_impl(pos.get_pos(), key);
+    const node* p = pos.get_pos();
+    if (!p || this != pos.get_parent() || key < p->key)
+        // Specified position is not usable.  Fall back to normal search.
+        return search(std::move(key));
+
+    return search_by_key_impl(p, key);
 }
 
 template<typename Key, typename Value>
-- 
2.43.0


From d65cc5cd0263cf8a2a0c746ec94df904da0a12f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 03/59] fix: flat_segment_tree rejects a segment that ends
 exactly at the minimum key

---
 include/mdds/flat_segment_tree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 45ac7e5..6e3886d 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -846,7 +846,7 @@ bool flat_segment_tree<Key, Value>::adjust_segment_range(key_type& start_key, ke
         // Invalid order of segment range.
         return false;
 
-    if (end_key < m_left_leaf->key || m_right_leaf->key <= start_key)
+    if (end_key <= m_left_leaf->key || m_right_leaf->key <= start_key)
         // The new segment does not overlap the current interval.
         return false;
 
-- 
2.43.0


From 6802fd6c8634110f49840de5721be30bf2a96749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 04/59] fix: flat_segment_tree::shift_left merges the appended
 segment with an equal neighbour

---
 include/mdds/flat_segment_tree.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index d4635d8..ff79b10 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -687,7 +687,18 @@ private:
     {
         if (m_right_leaf->prev->key == start_key)
         {
-            m_right_leaf->prev->value_leaf.value = m_init_val;
+            node_ptr last_node = m_right_leaf->prev;
+            if (last_node->prev && last_node->prev->value_leaf.value == m_init_val)
+            {
+                // The segment before the last one already has the same value.
+                // Combine them by removing the node in between.
+                st::detail::link_nodes<node_ptr>(last_node->prev, m_right_leaf);
+                disconnect_all_nodes(last_node.get());
+                m_valid_tree = false;
+                return;
+            }
+
+            last_node->value_leaf.value = m_init_val;
             return;
         }
 
-- 
2.43.0


From 7a2f1524bbced38116f40bd40c624c81217dbf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 05/59] fix: flat_segment_tree constructors release their nodes
 when copying a value throws

---
 include/mdds/flat_segment_tree_def.inl | 38 ++++++++++----------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 6e3886d..4d004aa 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -62,44 +62,34 @@ flat_segment_tree<Key, Value>::flat_segment_tree(key_type min_val, key_type max_
     // we need to create two end nodes during initialization.
     m_left_leaf->key = std::move(min_val);
     m_left_leaf->value_leaf.value = m_init_val; // copy
-    m_left_leaf->next = m_right_leaf;
 
     m_right_leaf->key = std::move(max_val);
-    m_right_leaf->prev = m_left_leaf;
 
     // We don't ever use the value of the right leaf node, but we need the
     // value to be always the same, to make it easier to check for
     // equality.
     m_right_leaf->value_leaf.value = value_type{};
+
+    // Link the nodes last: linked nodes keep each other alive, and would leak
+    // if any of the above throws.
+    st::detail::link_nodes<node_ptr>(m_left_leaf, m_right_leaf);
 }
 
 template<typename Key, typename Value>
 flat_segment_tree<Key, Value>::flat_segment_tree(const flat_segment_tree& r)
-    : m_root_node(nullptr), m_left_leaf(new node(*r.m_left_leaf)), m_right_leaf(), m_init_val(r.m_init_val),
-      m_valid_tree(false) // tree is invalid because we only copy the leaf nodes.
+    // Delegate, so that the nodes copied so far get released when a later copy throws.
+    // The tree is invalid because we only copy the leaf nodes.
+    : flat_segment_tree(r.m_left_leaf->key, r.m_right_leaf->key, r.m_init_val)
 {
+    m_left_leaf->value_leaf = r.m_left_leaf->value_leaf;
+
     // Copy all the leaf nodes from the original instance.
-    node* src_node = r.m_left_leaf.get();
-    node_ptr dest_node = m_left_leaf;
-    while (true)
+    for (const node* src_node = r.m_left_leaf->next.get(); src_node != r.m_right_leaf.get();
+         src_node = src_node->next.get())
     {
-        dest_node->next.reset(new node(*src_node->next));
-
-        // Move on to the next source node.
-        src_node = src_node->next.get();
-
-        // Move on to the next destination node, and have the next node point
-        // back to the previous node.
-        node_ptr old_node = dest_node;
-        dest_node = dest_node->next;
-        dest_node->prev = std::move(old_node);
-
-        if (src_node == r.m_right_leaf.get())
-        {
-            // Reached the right most leaf node.  We can stop here.
-            m_right_leaf = dest_node;
-            break;
-        }
+        node_ptr dest_node(new node(*src_node));
+        st::detail::link_nodes<node_ptr>(m_right_leaf->prev, dest_node);
+        st::detail::link_nodes<node_ptr>(dest_node, m_right_leaf);
     }
 }
 
-- 
2.43.0


From c8253f516bb97b54667a54121474b659d0429a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 06/59] fix: flat_segment_tree::build_tree does not leave a
 stale tree behind when it fails

---
 include/mdds/flat_segment_tree_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 4d004aa..04defa5 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -738,6 +738,9 @@ void flat_segment_tree<Key, Value>::build_tree()
     if (!m_left_leaf)
         return;
 
+    // The old tree is gone even when building the new one fails.
+    m_valid_tree = false;
+    m_root_node = nullptr;
     m_nonleaf_node_pool.clear();
 
     // Count the number of leaf nodes.
-- 
2.43.0


From 1b29d4c88294683c04275306fa4318537ac258fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 07/59] fix: flat_segment_tree operations that fail leave the
 segments as they were

---
 include/mdds/flat_segment_tree.hpp     |  6 +--
 include/mdds/flat_segment_tree_def.inl | 74 ++++++++++++++++----------
 2 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index ff79b10..9c186aa 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -683,7 +683,7 @@ private:
 
     const node* search_tree_for_leaf_node(key_type key) const;
 
-    void append_new_segment(key_type start_key)
+    void append_new_segment(key_type start_key, node_ptr new_node)
     {
         if (m_right_leaf->prev->key == start_key)
         {
@@ -698,7 +698,7 @@ private:
                 return;
             }
 
-            last_node->value_leaf.value = m_init_val;
+            last_node->value_leaf.value = std::move(new_node->value_leaf.value);
             return;
         }
 
@@ -713,9 +713,7 @@ private:
             // new segment.
             return;
 
-        node_ptr new_node(new node);
         new_node->key = start_key;
-        new_node->value_leaf.value = m_init_val;
         new_node->prev = m_right_leaf->prev;
         new_node->next = m_right_leaf;
         m_right_leaf->prev->next = new_node;
diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 04defa5..3afc7d1 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -140,6 +140,8 @@ void flat_segment_tree<Key, Value>::swap(flat_segment_tree& other) noexcept(noth
 template<typename Key, typename Value>
 void flat_segment_tree<Key, Value>::clear()
 {
+    value_type init_val = m_init_val; // copy first, as it may throw
+
     // the border nodes should not be destroyed--add a ref to keep them alive
     node_ptr left(m_left_leaf);
     node_ptr right(m_right_leaf);
@@ -149,7 +151,7 @@ void flat_segment_tree<Key, Value>::clear()
 
     // and construct the default tree
     st::detail::link_nodes<node_ptr>(m_left_leaf, m_right_leaf);
-    m_left_leaf->value_leaf.value = m_init_val;
+    m_left_leaf->value_leaf.value = std::move(init_val);
     m_valid_tree = false;
 }
 
@@ -201,8 +203,20 @@ template<typename Key, typename Value>
     if (!end_pos)
         end_pos = m_right_leaf;
 
+    // Value of the last one of the segments being overwritten.  The copy of the
+    // value and the new node at the end position are made up front, so that the
+    // existing segments remain intact when this fails.
+    value_type old_value = end_pos->prev->value_leaf.value;
+
+    node_ptr new_end_node;
+    if (end_pos->key != end_key && old_value != val)
+    {
+        new_end_node.reset(new node);
+        new_end_node->key = end_key;
+        new_end_node->value_leaf.value = std::move(old_value);
+    }
+
     node_ptr new_start_node;
-    value_type old_value;
 
     // Set the start node.
 
@@ -210,28 +224,24 @@ template<typename Key, typename Value>
 
     if (start_pos->key == start_key)
     {
-        // Re-use the existing node, but save the old value for later.
+        // Re-use the existing node.
 
         if (start_pos->prev && start_pos->prev->value_leaf.value == val)
         {
             // Extend the existing segment.
-            old_value = start_pos->value_leaf.value;
             new_start_node = start_pos->prev;
         }
         else
         {
             // Update the value of the existing node.
-            old_value = start_pos->value_leaf.value;
+            changed = (start_pos->value_leaf.value != val);
             start_pos->value_leaf.value = val;
             new_start_node = std::move(start_pos);
-
-            changed = (old_value != val);
         }
     }
     else if (start_pos->prev->value_leaf.value == val)
     {
         // Extend the existing segment.
-        old_value = start_pos->prev->value_leaf.value;
         new_start_node = start_pos->prev;
     }
     else
@@ -243,7 +253,6 @@ template<typename Key, typename Value>
         new_start_node = new_node;
 
         node_ptr left_node = start_pos->prev;
-        old_value = left_node->value_leaf.value;
 
         // Link to the left node.
         st::detail::link_nodes<node_ptr>(left_node, new_node);
@@ -259,7 +268,6 @@ template<typename Key, typename Value>
         // Disconnect the link between the current node and the previous node.
         cur_node->prev->next.reset();
         cur_node->prev.reset();
-        old_value = cur_node->value_leaf.value;
 
         cur_node = cur_node->next;
         changed = true;
@@ -289,8 +297,9 @@ template<typename Key, typename Value>
             changed = true;
         }
     }
-    else if (old_value == val)
+    else if (!new_end_node)
     {
+        // The segment that follows has the same value.
         if (new_start_node->next != end_pos)
         {
             st::detail::link_nodes<node_ptr>(new_start_node, end_pos);
@@ -300,15 +309,11 @@ template<typename Key, typename Value>
     else
     {
         // Insert a new node before the insertion position node.
-        node_ptr new_node(new node);
-        new_node->key = std::move(end_key);
-        new_node->value_leaf.value = std::move(old_value);
-
         // Link to the left node.
-        st::detail::link_nodes<node_ptr>(new_start_node, new_node);
+        st::detail::link_nodes<node_ptr>(new_start_node, new_end_node);
 
         // Link to the right node.
-        st::detail::link_nodes<node_ptr>(new_node, end_pos);
+        st::detail::link_nodes<node_ptr>(new_end_node, end_pos);
         changed = true;
     }
 
@@ -380,6 +385,11 @@ void flat_segment_tree<Key, Value>::shift_left(key_type start_key, key_type end_
 
     key_type segment_size = end_key - start_key;
 
+    // Create the node to be appended to the end up front, so that the existing
+    // segments remain intact when this fails.
+    node_ptr end_segment_node(new node);
+    end_segment_node->value_leaf.value = m_init_val;
+
     if (node_pos == m_right_leaf)
     {
         // The segment being removed begins after the last node before the
@@ -388,13 +398,13 @@ void flat_segment_tree<Key, Value>::shift_left(key_type start_key, key_type end_
         if (right_leaf_key <= end_key)
         {
             // The end position equals or is past the right-most node.
-            append_new_segment(start_key);
+            append_new_segment(start_key, std::move(end_segment_node));
         }
         else
         {
             // The end position stops before the right-most node.  Simply
             // append the blank segment to the end.
-            append_new_segment(right_leaf_key - segment_size);
+            append_new_segment(right_leaf_key - segment_size, std::move(end_segment_node));
         }
         return;
     }
@@ -405,26 +415,30 @@ void flat_segment_tree<Key, Value>::shift_left(key_type start_key, key_type end_
         // shift the key values of those nodes that come after the removed
         // segment.
         shift_leaf_key_left(node_pos, m_right_leaf, segment_size);
-        append_new_segment(right_leaf_key - segment_size);
+        append_new_segment(right_leaf_key - segment_size, std::move(end_segment_node));
         m_valid_tree = false;
         return;
     }
 
     // Move the first node to the starting position, and from there search
     // for the first node whose key value is greater than the end value.
+    const node* last_seg_node = node_pos.get();
+    while (last_seg_node->next != m_right_leaf && last_seg_node->next->key <= end_key)
+        last_seg_node = last_seg_node->next.get();
+
+    value_type last_seg_value = last_seg_node->value_leaf.value; // copy before any modification
+
     node_pos->key = start_key;
     node_ptr start_pos = node_pos;
     node_pos = node_pos->next;
-    value_type last_seg_value = start_pos->value_leaf.value;
     while (node_pos.get() != m_right_leaf.get() && node_pos->key <= end_key)
     {
-        last_seg_value = node_pos->value_leaf.value;
         node_ptr next = node_pos->next;
         disconnect_all_nodes(node_pos.get());
         node_pos = std::move(next);
     }
 
-    start_pos->value_leaf.value = last_seg_value;
+    start_pos->value_leaf.value = std::move(last_seg_value);
     start_pos->next = node_pos;
     node_pos->prev = start_pos;
     if (start_pos->prev && start_pos->prev->value_leaf.value == start_pos->value_leaf.value)
@@ -442,7 +456,7 @@ void flat_segment_tree<Key, Value>::shift_left(key_type start_key, key_type end_
 
     // Insert at the end a new segment with the initial base value, for
     // the length of the removed segment.
-    append_new_segment(right_leaf_key - segment_size);
+    append_new_segment(right_leaf_key - segment_size, std::move(end_segment_node));
 }
 
 template<typename Key, typename Value>
@@ -459,6 +473,12 @@ void flat_segment_tree<Key, Value>::shift_right(key_type pos, key_type size, boo
     {
         // Position is at the leftmost node.  Shift all the other nodes,
         // and insert a new node at (pos + size) position.
+        // Copy the values and create the node up front, so that the existing
+        // segments remain intact when this fails.
+        value_type init_val = m_init_val;
+        node_ptr new_node(new node);
+        new_node->value_leaf.value = m_left_leaf->value_leaf.value;
+
         node_ptr cur_node = m_left_leaf->next;
         shift_leaf_key_right(cur_node, m_right_leaf, size);
 
@@ -468,10 +488,8 @@ void flat_segment_tree<Key, Value>::shift_right(key_type pos, key_type size, boo
             {
                 // The leftmost leaf node has a non-initial value.  We need to
                 // insert a new node to carry that value after the shift.
-                node_ptr new_node(new node);
                 new_node->key = pos + size;
-                new_node->value_leaf.value = m_left_leaf->value_leaf.value;
-                m_left_leaf->value_leaf.value = m_init_val;
+                m_left_leaf->value_leaf.value = std::move(init_val);
                 new_node->prev = m_left_leaf;
                 new_node->next = m_left_leaf->next;
                 m_left_leaf->next->prev = new_node;
@@ -481,7 +499,7 @@ void flat_segment_tree<Key, Value>::shift_right(key_type pos, key_type size, boo
             {
                 // We shifted out the whole range, so there would be no new
                 // node inserted. Just set default value.
-                m_left_leaf->value_leaf.value = m_init_val;
+                m_left_leaf->value_leaf.value = std::move(init_val);
             }
         }
 
-- 
2.43.0


From 6b36e5618826a8bc5446a5ff45a95ae61e6e4fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 08/59] fix: stepping back from the end of point_quad_tree
 search results gives the last point

---
 include/mdds/point_quad_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 83e8443..d0a47c0 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -285,6 +285,7 @@ public:
                 if (m_end_pos)
                 {
                     m_end_pos = false;
+                    update_current_value();
                     return get_current_value();
                 }
                 --m_cur_pos;
-- 
2.43.0


From 8d48720e17e3d5c7e5e9ea690dca2543acf799cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 09/59] fix: point_quad_tree assignment keeps the content on
 self-assignment and on failure

---
 include/mdds/point_quad_tree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index d0a47c0..5a5a152 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -910,10 +910,10 @@ typename point_quad_tree<Key, Value>::node_access point_quad_tree<Key, Value>::g
 template<typename Key, typename Value>
 point_quad_tree<Key, Value>& point_quad_tree<Key, Value>::operator=(const point_quad_tree& r)
 {
-    m_xrange = key_range_type(0, 0);
-    m_yrange = key_range_type(0, 0);
-    clear_all_nodes();
-    insert_data_from(r);
+    // Copy first, to leave this instance intact when the copying fails, or when
+    // the source is this very instance.
+    point_quad_tree copied(r);
+    swap(copied);
     return *this;
 }
 
-- 
2.43.0


From 7c6bdd56432ada64d46e12be36cc3cad37af060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 10/59] fix: point_quad_tree::remove keeps the tree structure
 intact when removing a non-leaf node

---
 include/mdds/point_quad_tree.hpp | 41 ++++++++++++++++----------------
 include/mdds/quad_node.hpp       | 17 +++++++++++++
 2 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 5a5a152..7f38d7b 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -840,30 +840,29 @@ void point_quad_tree<Key, Value>::remove(key_type x, key_type y)
     delete_node->y = repl_node->y;
     delete_node->data = repl_node->data;
 
-    // Reset the parent node.
-    delete_node->parent = repl_node->parent;
+    // Take the replacement node out of the tree, and let the sub-tree in its
+    // quadrant I take its place.
+    node_ptr repl_parent = repl_node->parent;
+    node_ptr repl_child = repl_node->get_quadrant_node(repl_quad);
+    disconnect_node_from_parent(repl_node);
     repl_node->parent.reset();
+    repl_node->get_quadrant_node_ref(repl_quad).reset();
 
-    switch (repl_quad)
+    repl_parent->get_quadrant_node_ref(repl_parent == delete_node ? repl_quad : opposite(repl_quad)) = repl_child;
+    if (repl_child)
+        repl_child->parent = repl_parent;
+
+    // The nodes above the replacement node remain in quadrant I, except those
+    // that lie exactly on its border.
+    node_ptr cur_node = delete_node->get_quadrant_node(repl_quad);
+    while (cur_node && delete_node->get_quadrant(cur_node->x, cur_node->y) == repl_quad)
+        cur_node = cur_node->get_quadrant_node(opposite(repl_quad));
+
+    if (cur_node)
     {
-        case quad_northeast:
-            delete_node->northeast = repl_node->northeast;
-            repl_node->northeast.reset();
-            break;
-        case quad_northwest:
-            delete_node->northwest = repl_node->northwest;
-            repl_node->northwest.reset();
-            break;
-        case quad_southeast:
-            delete_node->southeast = repl_node->southeast;
-            repl_node->southeast.reset();
-            break;
-        case quad_southwest:
-            delete_node->southwest = repl_node->southwest;
-            repl_node->southwest.reset();
-            break;
-        default:
-            throw general_error("quadrant for the replacement node is unspecified.");
+        disconnect_node_from_parent(cur_node);
+        cur_node->parent.reset();
+        insert_list.push_back(cur_node);
     }
 
     // Lastly, re-insert all those trees that have been cut during the quad
diff --git a/include/mdds/quad_node.hpp b/include/mdds/quad_node.hpp
index a3a81d8..57e0f36 100644
--- a/include/mdds/quad_node.hpp
+++ b/include/mdds/quad_node.hpp
@@ -195,6 +195,23 @@ struct quad_node_base
         return false;
     }
 
+    node_ptr& get_quadrant_node_ref(node_quadrant_t quad)
+    {
+        switch (quad)
+        {
+            case quad_northeast:
+                return northeast;
+            case quad_northwest:
+                return northwest;
+            case quad_southeast:
+                return southeast;
+            case quad_southwest:
+                return southwest;
+            default:
+                throw general_error("unknown quadrant type");
+        }
+    }
+
     node_ptr get_quadrant_node(node_quadrant_t quad) const
     {
         node_ptr ret;
-- 
2.43.0


From 2d36bd386a523a3b96e8831db9c177eb6fb7bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 11/59] fix: point_quad_tree::remove leaves the stored data
 intact when it runs out of memory

---
 include/mdds/point_quad_tree.hpp | 34 +++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 7f38d7b..414fa09 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -122,7 +122,6 @@ private:
         }
     };
 
-    typedef ::std::vector<node_ptr> reinsert_tree_array_type;
     typedef ::std::pair<key_type, key_type> key_range_type;
 
 public:
@@ -588,11 +587,11 @@ private:
 
     void adjust_quad(
         const key_range_type& hatched_xrange, const key_range_type& hatched_yrange, node_ptr quad_root, direction_t dir,
-        reinsert_tree_array_type& insert_list);
+        node_ptr& insert_list);
 
     void set_new_root(
         const key_range_type& hatched_xrange, const key_range_type& hatched_yrange, node_ptr& quad_root,
-        node_quadrant_t dir, reinsert_tree_array_type& insert_list);
+        node_quadrant_t dir, node_ptr& insert_list);
 
     void insert_node(node_ptr& dest, node_ptr& node);
     void reinsert_tree(node_ptr& dest, node_ptr& root);
@@ -772,7 +771,10 @@ void point_quad_tree<Key, Value>::remove(key_type x, key_type y)
     key_range_type yrange(delete_node->y, repl_node->y);
     ensure_order(xrange);
     ensure_order(yrange);
-    reinsert_tree_array_type insert_list;
+
+    // Roots of the trees to be re-inserted, chained via their parent pointers.
+    // Nothing from here on allocates memory.
+    node_ptr insert_list;
 
     // Call the quadrant where the replacement node is quadrant I.  Adjust the
     // quadrants adjacent to quadrant I first, then adjust quadrant I
@@ -838,7 +840,7 @@ void point_quad_tree<Key, Value>::remove(key_type x, key_type y)
     // Finally, replace the node to be removed with the replacement node.
     delete_node->x = repl_node->x;
     delete_node->y = repl_node->y;
-    delete_node->data = repl_node->data;
+    delete_node->data = std::move(repl_node->data);
 
     // Take the replacement node out of the tree, and let the sub-tree in its
     // quadrant I take its place.
@@ -861,15 +863,19 @@ void point_quad_tree<Key, Value>::remove(key_type x, key_type y)
     if (cur_node)
     {
         disconnect_node_from_parent(cur_node);
-        cur_node->parent.reset();
-        insert_list.push_back(cur_node);
+        cur_node->parent = insert_list;
+        insert_list = cur_node;
     }
 
     // Lastly, re-insert all those trees that have been cut during the quad
     // adjustment into the new root.
-    typename reinsert_tree_array_type::iterator itr = insert_list.begin(), itr_end = insert_list.end();
-    for (; itr != itr_end; ++itr)
-        reinsert_tree(delete_node, *itr);
+    while (insert_list)
+    {
+        node_ptr tree_root = insert_list;
+        insert_list = tree_root->parent;
+        tree_root->parent.reset();
+        reinsert_tree(delete_node, tree_root);
+    }
 }
 
 template<typename Key, typename Value>
@@ -1298,7 +1304,7 @@ void point_quad_tree<Key, Value>::find_candidate_in_quad(
 template<typename Key, typename Value>
 void point_quad_tree<Key, Value>::adjust_quad(
     const key_range_type& hatched_xrange, const key_range_type& hatched_yrange, node_ptr quad_root, direction_t dir,
-    reinsert_tree_array_type& insert_list)
+    node_ptr& insert_list)
 {
     using namespace std;
 
@@ -1317,8 +1323,8 @@ void point_quad_tree<Key, Value>::adjust_quad(
 #endif
         // Insert the whole tree, including the root, into the insert list.
         disconnect_node_from_parent(quad_root);
-        quad_root->parent.reset();
-        insert_list.push_back(quad_root);
+        quad_root->parent = insert_list;
+        insert_list = quad_root;
         return;
     }
 
@@ -1347,7 +1353,7 @@ void point_quad_tree<Key, Value>::adjust_quad(
 template<typename Key, typename Value>
 void point_quad_tree<Key, Value>::set_new_root(
     const key_range_type& hatched_xrange, const key_range_type& hatched_yrange, node_ptr& quad_root,
-    node_quadrant_t dir, reinsert_tree_array_type& insert_list)
+    node_quadrant_t dir, node_ptr& insert_list)
 {
     node_ptr cur_node = quad_root;
     while (cur_node)
-- 
2.43.0


From 58b48a2333f12653354c809e9bdf18b4945db462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 12/59] fix: point_quad_tree copy constructor releases its
 nodes on failure

---
 include/mdds/point_quad_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 414fa09..28277f3 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -614,8 +614,9 @@ point_quad_tree<Key, Value>::point_quad_tree() : m_root(nullptr), m_xrange(0, 0)
 {}
 
 template<typename Key, typename Value>
-point_quad_tree<Key, Value>::point_quad_tree(const point_quad_tree& r) : m_root(nullptr), m_xrange(0, 0), m_yrange(0, 0)
+point_quad_tree<Key, Value>::point_quad_tree(const point_quad_tree& r) : point_quad_tree()
 {
+    // The default constructor is done at this point, so the nodes get released when this throws.
     insert_data_from(r);
 }
 
-- 
2.43.0


From 5019a3bef9beaf55e013f4516b5cf9d87199f6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 13/59] fix: segment_tree equality takes the number of
 identical segments into account

---
 include/mdds/segment_tree_def.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index f3f24da..c7c1284 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -294,23 +294,23 @@ bool segment_tree<KeyT, ValueT>::operator==(const segment_tree& r) const
         rhs.insert(&seg);
     }
 
-    std::size_t n_lhs = 0;
-
     for (const segment_type& seg : m_segment_store)
     {
         if (seg == segment_type{})
             continue;
 
-        ++n_lhs;
         const auto* src = &seg;
 
         auto it = std::find_if(rhs.begin(), rhs.end(), [src](const segment_type* p) { return *src == *p; });
 
         if (it == rhs.end())
             return false;
+
+        // each segment on the other side can only be matched once
+        rhs.erase(it);
     }
 
-    return n_lhs == rhs.size();
+    return rhs.empty();
 }
 
 template<typename KeyT, typename ValueT>
-- 
2.43.0


From e70844c590a0ded9d62f731faa1b716217b78dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 14/59] fix: segment_tree::build_tree does not leak the leaf
 nodes when it fails

---
 include/mdds/segment_tree_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index c7c1284..5274186 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -441,6 +441,7 @@ void segment_tree<KeyT, ValueT>::create_leaf_node_instances(std::vector<key_type
 
     // left-most node
     left.reset(new node);
+    right = left; // always the last linked node, so that the links can be cut at any time
     left->key = *it;
 
     // move on to next.
@@ -448,6 +449,7 @@ void segment_tree<KeyT, ValueT>::create_leaf_node_instances(std::vector<key_type
     node_ptr prev_node = left;
     node_ptr cur_node = left->next;
     cur_node->prev = prev_node;
+    right = cur_node;
 
     for (++it; it != keys.cend(); ++it)
     {
@@ -458,6 +460,7 @@ void segment_tree<KeyT, ValueT>::create_leaf_node_instances(std::vector<key_type
         prev_node = cur_node;
         cur_node = cur_node->next;
         cur_node->prev = prev_node;
+        right = cur_node;
     }
 
     // Remove the excess node.
-- 
2.43.0


From 31d024db88bbeefe0852192ea0b993eadeb12171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 15/59] fix: segment_tree copy constructor releases its nodes
 on failure

---
 include/mdds/segment_tree_def.inl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index 5274186..f849f7c 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -249,10 +249,13 @@ segment_tree<KeyT, ValueT>::segment_tree() noexcept(nothrow_default_constructibl
 {}
 
 template<typename KeyT, typename ValueT>
-segment_tree<KeyT, ValueT>::segment_tree(const segment_tree& r)
-    : m_segment_store(r.m_segment_store), m_root_node(nullptr), m_valid_tree(r.m_valid_tree)
+segment_tree<KeyT, ValueT>::segment_tree(const segment_tree& r) : segment_tree()
 {
-    if (m_valid_tree)
+    // The object is already fully constructed at this point; its destructor
+    // releases the nodes if one of these fails.
+    m_segment_store = r.m_segment_store;
+
+    if (r.m_valid_tree)
         build_tree();
 }
 
-- 
2.43.0


From 195c0c8a516a4b265303fe84d9e5a57788c9c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 16/59] fix: segment_tree::build_tree keeps the segments when
 it runs out of memory

---
 include/mdds/segment_tree_def.inl | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index f849f7c..72bd4ef 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -84,16 +84,12 @@ void erase_deleted_segments(SegStoreT& segments)
 {
     using segment_type = typename SegStoreT::value_type;
 
-    SegStoreT compacted;
-    for (auto&& v : segments)
-    {
-        if (v == segment_type{})
-            continue;
-
-        compacted.push_back(std::move(v));
-    }
+    const segment_type deleted{};
 
-    segments.swap(compacted);
+    // Compact in place, to not lose any segments by running out of memory.
+    auto it = std::remove_if(
+        segments.begin(), segments.end(), [&deleted](const segment_type& v) { return v == deleted; });
+    segments.erase(it, segments.end());
 }
 
 }} // namespace st::detail
-- 
2.43.0


From 33d8892fa2dc6dc0fff9edb04cad8e5a9491d3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 17/59] fix: segment_tree::build_tree does not keep
 disconnected or half linked leaf nodes when it fails

---
 include/mdds/segment_tree_def.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index 72bd4ef..03b450f 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -408,6 +408,8 @@ void segment_tree<KeyT, ValueT>::build_leaf_nodes()
     // NB: m_segment_store must not contain deleted segments!
 
     disconnect_leaf_nodes(m_left_leaf.get(), m_right_leaf.get());
+    m_left_leaf.reset();
+    m_right_leaf.reset();
 
     // Collect all boundary keys.
     std::vector<key_type> keys;
@@ -440,7 +442,6 @@ void segment_tree<KeyT, ValueT>::create_leaf_node_instances(std::vector<key_type
 
     // left-most node
     left.reset(new node);
-    right = left; // always the last linked node, so that the links can be cut at any time
     left->key = *it;
 
     // move on to next.
@@ -448,7 +449,7 @@ void segment_tree<KeyT, ValueT>::create_leaf_node_instances(std::vector<key_type
     node_ptr prev_node = left;
     node_ptr cur_node = left->next;
     cur_node->prev = prev_node;
-    right = cur_node;
+    right = cur_node; // the last linked node, so that the links can be cut in case of failure
 
     for (++it; it != keys.cend(); ++it)
     {
-- 
2.43.0


From 9e8caa5d23f49f5d670b414d4c59c43a1d681c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 18/59] fix: a copy of a segment_tree equals its source also
 when all segments have been erased

---
 include/mdds/segment_tree_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index 03b450f..0426e6d 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -252,7 +252,10 @@ segment_tree<KeyT, ValueT>::segment_tree(const segment_tree& r) : segment_tree()
     m_segment_store = r.m_segment_store;
 
     if (r.m_valid_tree)
+    {
         build_tree();
+        m_valid_tree = true; // also when all of the segments have been erased
+    }
 }
 
 template<typename KeyT, typename ValueT>
-- 
2.43.0


From bd44c8c838fd73fc4763a645e01fedd04ae2c761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 19/59] fix: trie_map find() and erase() do not take a parent
 node for the key

---
 include/mdds/trie_map_def.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 7d8c93a..d48a451 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -868,7 +868,11 @@ void trie_map<KeyT, ValueT, TraitsT>::find_prefix_node_with_stack(
 
     auto it = node.children.find(*prefix);
     if (it == node.children.end())
+    {
+        // No such node.  The parent nodes on the stack are not a match.
+        node_stack.clear();
         return;
+    }
 
     node_stack.emplace_back(&node, it);
 
-- 
2.43.0


From cb22d0edbac4ca97b813209e22504807ec3b783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 20/59] fix: iteration over trie maps includes the value of the
 empty key

---
 include/mdds/trie_map_def.inl | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index d48a451..8275216 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -666,7 +666,7 @@ trie_map<KeyT, ValueT, TraitsT>::trie_map(trie_map&& other) : m_root(std::move(o
 template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT, TraitsT>::begin() const
 {
-    if (m_root.children.empty())
+    if (empty())
         // empty container
         return end();
 
@@ -675,6 +675,10 @@ typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT,
     const_node_stack_type node_stack;
     node_stack.emplace_back(&m_root, m_root.children.begin());
 
+    if (m_root.has_value)
+        // The root node has a value i.e. the first key is empty.
+        return const_iterator(std::move(node_stack), std::move(buf), trie::detail::iterator_type::normal);
+
     // Push root's first child node.
     auto it = node_stack.back().child_pos;
     const_iterator::push_child_node_to_stack(node_stack, buf, it);
@@ -694,7 +698,7 @@ typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT,
 template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::iterator trie_map<KeyT, ValueT, TraitsT>::begin()
 {
-    if (m_root.children.empty())
+    if (empty())
         // empty container
         return end();
 
@@ -703,6 +707,10 @@ typename trie_map<KeyT, ValueT, TraitsT>::iterator trie_map<KeyT, ValueT, Traits
     node_stack_type node_stack;
     node_stack.emplace_back(&m_root, m_root.children.begin());
 
+    if (m_root.has_value)
+        // The root node has a value i.e. the first key is empty.
+        return iterator(std::move(node_stack), std::move(buf), trie::detail::iterator_type::normal);
+
     // Push root's first child node.
     auto it = node_stack.back().child_pos;
     iterator::push_child_node_to_stack(node_stack, buf, it);
@@ -1303,6 +1311,7 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map() : m_packed(3, 0u)
 
     // root offset (0), root value (1), and root child count (2).
     m_packed[0] = 1;
+    m_packed[1] = null_value;
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
@@ -1399,6 +1408,7 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(packed_trie_map&& other)
     // Even the empty structure needs to have the root offset and the empty root record.
     other.m_packed.resize(3, 0u); // root offset (0), root value (1), and root child count (2).
     other.m_packed[0] = 1;
+    other.m_packed[1] = null_value;
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
@@ -1446,6 +1456,13 @@ typename packed_trie_map<KeyT, ValueT, TraitsT>::const_iterator packed_trie_map<
     node_stack_type node_stack = get_root_stack();
 
     const stack_item* si = &node_stack.back();
+    if (si->has_value())
+    {
+        // The root node has a value i.e. the first key is empty.
+        const pack_value_type root_pos = si->get_value_pos();
+        return const_iterator(&m_value_store, std::move(node_stack), key_type(), root_pos);
+    }
+
     if (si->child_pos == si->child_end)
         // empty container.
         return const_iterator(&m_value_store, std::move(node_stack), key_type());
-- 
2.43.0


From 819e4135d1ff5374119104058f33be648473e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 21/59] fix: stepping back from an inner node of a trie map
 does not skip the entries on its left

---
 include/mdds/trie_map_itr.hpp | 72 ++++++-----------------------------
 1 file changed, 12 insertions(+), 60 deletions(-)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index b87bc4f..17d78b6 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -227,8 +227,9 @@ public:
     {
         trie_node_type* cur_node = m_node_stack.back().node;
 
-        if (m_type == iterator_type::end && cur_node->has_value)
+        if (m_type == iterator_type::end && cur_node->children.empty())
         {
+            // The root node is the only node.
             assert(m_node_stack.size() == 1);
             m_type = iterator_type::normal;
         }
@@ -241,11 +242,11 @@ public:
             cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
             m_type = iterator_type::normal;
         }
-        else if (cur_node->children.empty())
+        else
         {
-            // This is a leaf node.  Keep going up until it finds a parent
-            // node with unvisited child nodes on the left side, then descend
-            // on that path all the way to its leaf.
+            // Keep going up until it finds either a parent node with unvisited
+            // child nodes on the left side, in which case it descends on that
+            // path all the way to its leaf, or a parent node with value.
 
             do
             {
@@ -264,30 +265,6 @@ public:
                 }
             } while (!cur_node->has_value);
         }
-        else
-        {
-            // Non-leaf node with value.  Keep going up until either the root
-            // node or another node with value is reached.
-
-            assert(cur_node->has_value);
-            assert(m_node_stack.back().child_pos == cur_node->children.begin());
-
-            do
-            {
-                // Go up.
-                m_buffer.pop_back();
-                m_node_stack.pop_back();
-                auto& si = m_node_stack.back();
-                cur_node = si.node;
-
-                if (m_node_stack.size() == 1)
-                {
-                    // Root node reached.  Left and down.
-                    cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
-                    assert(cur_node->has_value);
-                }
-            } while (!cur_node->has_value);
-        }
 
         assert(cur_node->has_value);
         m_current_key = m_buffer;
@@ -648,8 +625,9 @@ public:
         pack_value_type v = *si->node_pos;
         size_t index_size = *(si->node_pos + 1); // index size for child nodes.
 
-        if (m_type == iterator_type::end && v != trie_type::null_value)
+        if (m_type == iterator_type::end && !index_size)
         {
+            // The root node is the only node.
             assert(m_node_stack.size() == 1);
             m_type = iterator_type::normal;
         }
@@ -663,11 +641,11 @@ public:
             v = *si->node_pos;
             m_type = iterator_type::normal;
         }
-        else if (!index_size)
+        else
         {
-            // This is a leaf node.  Keep going up until it finds a parent
-            // node with unvisited child nodes on the left side, then descend
-            // on that path all the way to its leaf.
+            // Keep going up until it finds either a parent node with unvisited
+            // child nodes on the left side, in which case it descends on that
+            // path all the way to its leaf, or a parent node with value.
 
             do
             {
@@ -694,32 +672,6 @@ public:
                 }
             } while (v == trie_type::null_value);
         }
-        else
-        {
-            // Non-leaf node with value.  Keep going up until either the root
-            // node or another node with value is reached.
-
-            assert(*si->node_pos); // this node should have a value.
-            assert(si->child_pos == (si->node_pos + 2));
-
-            do
-            {
-                // Go up.
-                m_buffer.pop_back();
-                m_node_stack.pop_back();
-                si = &m_node_stack.back();
-                v = *si->node_pos;
-
-                if (m_node_stack.size() == 1)
-                {
-                    // Root node reached.
-                    descend_to_previous_leaf_node(m_node_stack, m_buffer);
-                    si = &m_node_stack.back();
-                    v = *si->node_pos;
-                    assert(v != trie_type::null_value);
-                }
-            } while (v == trie_type::null_value);
-        }
 
         assert(v != trie_type::null_value);
         m_current_value = v;
-- 
2.43.0


From 894a658060c69f29fff2ed8622b02301ac3f9105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 22/59] fix: a failed trie_map::insert() does not leave a leaf
 node without a value

---
 include/mdds/trie_map_def.inl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 8275216..c5ac41e 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -833,15 +833,19 @@ void trie_map<KeyT, ValueT, TraitsT>::insert_into_tree(
     }
 
     key_unit_type c = *key;
+    ++key;
 
     auto it = node.children.lower_bound(c);
     if (it == node.children.end() || node.children.key_comp()(c, it->first))
     {
-        // Insert a new node.
-        it = node.children.insert(it, typename trie_node::children_type::value_type(c, trie_node()));
+        // Build the new branch first and link it only when it's complete, so
+        // that there never is a leaf node without a value.
+        trie_node branch;
+        insert_into_tree(branch, key, key_end, std::move(value));
+        node.children.insert(it, typename trie_node::children_type::value_type(c, std::move(branch)));
+        return;
     }
 
-    ++key;
     insert_into_tree(it->second, key, key_end, std::move(value));
 }
 
-- 
2.43.0


From a377fe4cc51bf72ffdb5746ccf548728760c436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 23/59] fix: packed_trie_map built from entries handles zero
 key units and key units past the signed range

---
 include/mdds/trie_map_def.inl | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index c5ac41e..5da65ea 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1044,6 +1044,12 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
     key_unit_type range_char = 0;
     size_type range_count = 0;
 
+    auto push_child = [&root, &node_pool](key_unit_type c) -> trie_node& {
+        node_pool.emplace_back(c);
+        root.children.push_back(&node_pool.back());
+        return node_pool.back();
+    };
+
     for (; p != end; ++p)
     {
         if (pos > p->keylen)
@@ -1055,19 +1061,16 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
             continue;
         }
 
-        ++range_count;
         key_unit_type c = p->key[pos];
 
-        if (!range_char)
+        if (++range_count == 1)
             range_char = c;
         else if (range_char != c)
         {
             // End of current character range.
             range_end = p;
 
-            node_pool.emplace_back(range_char);
-            root.children.push_back(&node_pool.back());
-            traverse_range(*root.children.back(), node_pool, range_start, range_end, pos + 1);
+            traverse_range(push_child(range_char), node_pool, range_start, range_end, pos + 1);
             range_start = range_end;
             range_char = range_start->key[pos];
             range_end = nullptr;
@@ -1077,11 +1080,14 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
 
     if (range_count)
     {
-        assert(range_char);
-        node_pool.emplace_back(range_char);
-        root.children.push_back(&node_pool.back());
-        traverse_range(*root.children.back(), node_pool, range_start, end, pos + 1);
+        traverse_range(push_child(range_char), node_pool, range_start, end, pos + 1);
     }
+
+    // The search for a child node compares the key units as their own type,
+    // which may order them differently from the way the entries are sorted.
+    std::sort(root.children.begin(), root.children.end(), [](const trie_node* left, const trie_node* right) {
+        return left->key < right->key;
+    });
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From 83df0e5ed2bcd72560cc6bed7c5068c7925d3891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 24/59] fix: copied, moved and swapped search results of
 packed_trie_map keep their value store

---
 include/mdds/trie_map_itr.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index 17d78b6..4d606f6 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -726,6 +726,7 @@ class packed_search_results
 
     void swap(packed_search_results& other)
     {
+        std::swap(m_value_store, other.m_value_store);
         std::swap(m_node, other.m_node);
         std::swap(m_buffer, other.m_buffer);
     }
@@ -736,10 +737,12 @@ public:
     packed_search_results() : m_node(nullptr)
     {}
 
-    packed_search_results(const packed_search_results& other) : m_node(other.m_node), m_buffer(other.m_buffer)
+    packed_search_results(const packed_search_results& other)
+        : m_value_store(other.m_value_store), m_node(other.m_node), m_buffer(other.m_buffer)
     {}
 
-    packed_search_results(packed_search_results&& other) : m_node(other.m_node), m_buffer(std::move(other.m_buffer))
+    packed_search_results(packed_search_results&& other)
+        : m_value_store(other.m_value_store), m_node(other.m_node), m_buffer(std::move(other.m_buffer))
     {
         other.m_node = nullptr;
     }
-- 
2.43.0


From 68f67356d1e17b48ecbb5c8ef631215ec8a440c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 25/59] fix: trie_map::pack() keeps the values when it fails

---
 include/mdds/trie_map.hpp     |  3 +++
 include/mdds/trie_map_def.inl | 24 +++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/mdds/trie_map.hpp b/include/mdds/trie_map.hpp
index 0c6abb6..9dbb3d7 100644
--- a/include/mdds/trie_map.hpp
+++ b/include/mdds/trie_map.hpp
@@ -833,6 +833,9 @@ private:
 
     void push_child_offsets(size_type offset, const child_offsets_type& child_offsets);
 
+    template<typename NodeT>
+    void move_values_back(NodeT& node, typename value_store_type::iterator& it);
+
     void init_pack();
     void compact(const trie_node& root);
 
diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 5da65ea..c15367d 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1191,6 +1191,18 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::push_child_offsets(
     });
 }
 
+template<typename KeyT, typename ValueT, typename TraitsT>
+template<typename NodeT>
+void packed_trie_map<KeyT, ValueT, TraitsT>::move_values_back(NodeT& node, typename value_store_type::iterator& it)
+{
+    // Visit the nodes in the same order as compact_node() does.
+    for (auto& v : node.children)
+        move_values_back(v.second, it);
+
+    if (node.has_value && it != m_value_store.end())
+        node.value = std::move(*it++);
+}
+
 template<typename KeyT, typename ValueT, typename TraitsT>
 void packed_trie_map<KeyT, ValueT, TraitsT>::init_pack()
 {
@@ -1310,7 +1322,17 @@ template<typename KeyT, typename ValueT, typename TraitsT>
 packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(
     trie::detail::move_to_pack, trie_map<KeyT, ValueT, TraitsT>& from)
 {
-    compact(trie::detail::move_to_pack{}, from.m_root);
+    try
+    {
+        compact(trie::detail::move_to_pack{}, from.m_root);
+    }
+    catch (...)
+    {
+        // Don't take the values that have already been moved down with us.
+        auto it = m_value_store.begin();
+        move_values_back(from.m_root, it);
+        throw;
+    }
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From 50235d58774a24e4b07811f6022c777c6a841274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 26/59] fix: packed_trie_map::load_state() rejects truncated
 and corrupted streams and then leaves the map unchanged

---
 include/mdds/trie_map.hpp     |   6 ++
 include/mdds/trie_map_def.inl | 140 +++++++++++++++++++++++-----------
 2 files changed, 100 insertions(+), 46 deletions(-)

diff --git a/include/mdds/trie_map.hpp b/include/mdds/trie_map.hpp
index 9dbb3d7..52ecf1b 100644
--- a/include/mdds/trie_map.hpp
+++ b/include/mdds/trie_map.hpp
@@ -801,6 +801,10 @@ public:
      * buffer.
      *
      * @param is input stream to load the state from.
+     *
+     * @throws std::invalid_argument when the stream fails, or ends too early,
+     *         or its content does not represent a valid state. The current
+     *         content of the container remains unchanged in this case.
      */
     template<typename FuncT = trie::value_serializer<value_type>>
     void load_state(std::istream& is);
@@ -814,6 +818,8 @@ public:
     std::string dump_structure(trie::dump_structure_type type) const;
 
 private:
+    static void verify_packed_buffer(const packed_type& packed, size_type value_count);
+
     void dump_trie_traversal(std::ostream& os) const;
 
     node_stack_type get_root_stack() const;
diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index c15367d..5c83de1 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -311,6 +311,22 @@ const PackValueT* find_prefix_node(
     return nullptr;
 }
 
+/**
+ * Read exactly as many bytes as requested.
+ */
+inline void read_or_throw(std::istream& is, char* buffer, size_t n)
+{
+    is.read(buffer, n);
+    if (!is || static_cast<size_t>(is.gcount()) != n)
+        throw std::invalid_argument("the stream ended or failed before all the data has been read.");
+}
+
+inline void check_stream_or_throw(const std::istream& is)
+{
+    if (!is)
+        throw std::invalid_argument("the stream ended or failed before all the data has been read.");
+}
+
 inline const char* value_type_size_name(bool variable_size)
 {
     return variable_size ? "varaible size" : "fixed size";
@@ -413,7 +429,7 @@ struct read_fixed_size_values_from_istream
         bin_value bv;
 
         // read the size of the value.
-        is.read(bv.buffer, 4);
+        read_or_throw(is, bv.buffer, 4);
         size_t size = bv.ui32;
 
         if (size != FuncT::value_size)
@@ -427,6 +443,7 @@ struct read_fixed_size_values_from_istream
         {
             value_store.emplace_back();
             FuncT::read(is, size, value_store.back());
+            check_stream_or_throw(is);
         }
 
         return value_store;
@@ -445,11 +462,12 @@ struct read_variable_size_values_from_istream
 
         for (uint32_t i = 0; i < value_count; ++i)
         {
-            is.read(bv.buffer, 4);
+            read_or_throw(is, bv.buffer, 4);
             size_t size = bv.ui32;
 
             ValueT v;
             FuncT::read(is, size, v);
+            check_stream_or_throw(is);
 
             value_store.push_back(std::move(v));
         }
@@ -491,7 +509,8 @@ void numeric_value_serializer<T>::read(std::istream& is, size_t n, T& v)
     static_assert(std::is_arithmetic<T>::value, "not a numeric type.");
 
     constexpr size_t s = sizeof(T);
-    assert(s == n);
+    if (s != n)
+        throw std::invalid_argument("wrong size of a numeric value.");
 
     union
     {
@@ -500,15 +519,7 @@ void numeric_value_serializer<T>::read(std::istream& is, size_t n, T& v)
 
     } buf;
 
-    char* p = buf.buffer;
-
-    while (n)
-    {
-        is.read(p, s);
-        auto size_read = is.gcount();
-        n -= size_read;
-        p += size_read;
-    }
+    detail::read_or_throw(is, buf.buffer, s);
 
     v = buf.v;
 }
@@ -531,7 +542,8 @@ void numeric_sequence_value_serializer<T>::read(std::istream& is, size_t n, T& v
         std::is_arithmetic<typename T::value_type>::value, "value type of this vector is not a numeric type.");
 
     constexpr size_t elem_size = element_serializer::value_size;
-    assert(n % elem_size == 0);
+    if (n % elem_size != 0)
+        throw std::invalid_argument("wrong size of a sequence of numeric values.");
 
     size_t elem_count = n / elem_size;
 
@@ -552,15 +564,18 @@ inline void variable_value_serializer<std::string>::write(std::ostream& os, cons
 template<>
 inline void variable_value_serializer<std::string>::read(std::istream& is, size_t n, std::string& v)
 {
-    v.resize(n);
-    char* p = const_cast<char*>(v.data());
+    // The size comes from the stream, so don't allocate it all before there is
+    // something to put into it.
+    constexpr size_t chunk_size = 4096;
+    v.clear();
 
     while (n)
     {
-        is.read(p, n);
-        auto size_read = is.gcount();
-        n -= size_read;
-        p += size_read;
+        size_t pos = v.size();
+        size_t read_size = std::min(n, chunk_size);
+        v.resize(pos + read_size);
+        detail::read_or_throw(is, v.data() + pos, read_size);
+        n -= read_size;
     }
 }
 
@@ -1756,7 +1771,7 @@ template<typename FuncT>
 void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
 {
     trie::detail::bin_value bv;
-    is.read(bv.buffer, 2);
+    trie::detail::read_or_throw(is, bv.buffer, 2);
 
     uint16_t flags = bv.ui16;
     bool variable_size = (flags & 0x0001) != 0;
@@ -1770,71 +1785,104 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
     }
 
     // read the number of values
-    is.read(bv.buffer, 4);
+    trie::detail::read_or_throw(is, bv.buffer, 4);
     uint32_t value_count = bv.ui32;
 
     using value_size_type = std::bool_constant<FuncT::variable_size>;
     trie::detail::read_values_from_istream<FuncT, value_type, value_size_type> func;
-    m_value_store = func(is, value_count);
+    value_store_type value_store = func(is, value_count);
 
     // There should be a check byte of 0xFF.
-    is.read(bv.buffer, 1);
+    trie::detail::read_or_throw(is, bv.buffer, 1);
     if (bv.ui8 != 0xFF)
         throw std::invalid_argument("failed to find the check byte at the end of the value section.");
 
     // Size of pack_value_type
-    is.read(bv.buffer, 1);
+    trie::detail::read_or_throw(is, bv.buffer, 1);
     size_type pvt_size = bv.ui8;
 
     if (pvt_size != sizeof(pack_value_type))
         throw std::invalid_argument("size of pack_value_type is different.");
 
     // Size of the packed blob.
-    is.read(bv.buffer, 8);
+    trie::detail::read_or_throw(is, bv.buffer, 8);
 
     size_t n = bv.ui64;
     packed_type packed;
-    packed.reserve(n);
 
     for (size_t i = 0; i < n; ++i)
     {
-        is.read(bv.buffer, pvt_size);
+        trie::detail::read_or_throw(is, bv.buffer, pvt_size);
         const auto* p = reinterpret_cast<const pack_value_type*>(bv.buffer);
         packed.push_back(*p);
     }
 
     // the last byte must be 0xFF.
-    is.read(bv.buffer, 1);
+    trie::detail::read_or_throw(is, bv.buffer, 1);
     if (bv.ui8 != 0xFF)
         throw std::invalid_argument("failed to find the check byte at the end of the packed blob section.");
 
+    if (packed.size() == 3 && value_store.empty())
+        // An empty map may have been saved with a null or zero value position.
+        packed[1] = null_value;
+
+    verify_packed_buffer(packed, value_store.size());
+
+    m_value_store.swap(value_store);
     m_packed.swap(packed);
+}
 
-    struct _handler
-    {
-        packed_trie_map& m_parent;
+template<typename KeyT, typename ValueT, typename TraitsT>
+void packed_trie_map<KeyT, ValueT, TraitsT>::verify_packed_buffer(const packed_type& packed, size_type value_count)
+{
+    auto check = [](bool valid) {
+        if (!valid)
+            throw std::invalid_argument("the packed blob does not represent a valid trie.");
+    };
 
-        void root_offset(size_t /*i*/, pack_value_type /*v*/) const
-        {}
+    const size_type n = packed.size();
+    check(n >= 3);
+
+    // Nodes that are not yet linked from their parent nodes.
+    std::vector<bool> orphans(n, false);
+    std::vector<bool> values(value_count, false);
+    size_type orphan_count = 0;
+    size_type used_value_count = 0;
+    size_type node_pos = 0;
 
-        void node_value(size_t i, pack_value_type v) const
+    for (size_type pos = 1; pos < n;)
+    {
+        node_pos = pos;
+        check(n - pos >= 2);
+        const size_type value_pos = packed[pos++];
+        const size_type index_size = packed[pos++];
+        check(index_size % 2 == 0 && index_size <= n - pos);
+
+        if (value_pos != null_value)
         {
-            m_parent.m_packed[i] = v;
+            check(value_pos < value_count && !values[value_pos]);
+            values[value_pos] = true;
+            ++used_value_count;
         }
+        else
+            // Only the root node of an empty trie has neither value nor child nodes.
+            check(index_size > 0 || n == 3);
 
-        void node_index_size(size_t /*i*/, pack_value_type /*v*/) const
-        {}
-        void node_child_key(size_t /*i*/, pack_value_type /*v*/) const
-        {}
-        void node_child_offset(size_t /*i*/, pack_value_type /*v*/) const
-        {}
-
-        _handler(packed_trie_map& parent) : m_parent(parent)
-        {}
+        for (size_type index_end = pos + index_size; pos < index_end; pos += 2)
+        {
+            // Child nodes are stored before their parent node.
+            const size_type offset = packed[pos + 1];
+            check(offset < node_pos && orphans[node_pos - offset]);
+            orphans[node_pos - offset] = false;
+            --orphan_count;
+        }
 
-    } handler(*this);
+        orphans[node_pos] = true;
+        ++orphan_count;
+    }
 
-    trie::detail::traverse_packed_buffer<packed_type, _handler>{}(m_packed, handler);
+    // The only node without a parent is the root node, which comes last.
+    check(orphan_count == 1 && packed[0] == node_pos && used_value_count == value_count);
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From 0f28f4254532acb305a8cefa5927f44e8807ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 27/59] fix: prefix_search with an empty prefix on an empty
 trie_map gives empty results

---
 include/mdds/trie_map_itr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index 4d606f6..8a805ed 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -388,6 +388,10 @@ public:
             // empty results.
             return const_iterator(empty_iterator);
 
+        if (m_node->children.empty() && !m_node->has_value)
+            // the trie itself is empty.
+            return end();
+
         // Push the root node.
         key_type buf(m_buffer);
         node_stack_type node_stack;
-- 
2.43.0


From 26a4d2ca447982a1c89126444276c361a44ca7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 28/59] fix: a failed move of a packed_trie_map does not lose
 its content

---
 include/mdds/trie_map_def.inl | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 5c83de1..86a6559 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1449,20 +1449,17 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(const packed_trie_map& o
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(packed_trie_map&& other)
-    : m_value_store(std::move(other.m_value_store)), m_packed(std::move(other.m_packed))
+packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(packed_trie_map&& other) : packed_trie_map()
 {
-    // Even the empty structure needs to have the root offset and the empty root record.
-    other.m_packed.resize(3, 0u); // root offset (0), root value (1), and root child count (2).
-    other.m_packed[0] = 1;
-    other.m_packed[1] = null_value;
+    // Even the empty structure needs to have the root offset and the empty
+    // root record, which the other instance receives from this one.
+    swap(other);
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
 packed_trie_map<KeyT, ValueT, TraitsT>& packed_trie_map<KeyT, ValueT, TraitsT>::operator=(packed_trie_map other)
 {
-    packed_trie_map tmp(std::move(other));
-    tmp.swap(*this);
+    swap(other);
     return *this;
 }
 
-- 
2.43.0


From 5943652f224652849b7ef3c7faad0c75bc311299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 29/59] fix: multi_type_vector (SoA): report the new block when
 inserting before a data block

---
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index e10fd73..1847afb 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -2123,8 +2123,8 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::insert_c
         // Just insert a new block before the current block.
         m_block_store.insert(block_index, m_block_store.positions[block_index], length, nullptr);
         m_block_store.element_blocks[block_index] = block_funcs::create_new_block(cat, 0);
-        m_hdl_event.element_block_acquired(blk_data);
         blk_data = m_block_store.element_blocks[block_index];
+        m_hdl_event.element_block_acquired(blk_data);
         mdds_mtv_assign_values(*blk_data, *it_begin, it_begin, it_end);
         m_block_store.sizes[block_index] = length;
         m_cur_size += length;
-- 
2.43.0


From 8c4099b4287fd60f3fa9208da28ed8d78a8234a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 30/59] fix: multi_type_vector: resize() deletes the removed
 elements of the block it cuts

---
 include/mdds/multi_type_vector/aos/main_def.inl | 2 +-
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index e3744c5..45abefd 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4360,7 +4360,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (blk->data)
         {
-            block_funcs::overwrite_values(*blk->data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*blk->data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*blk->data, new_block_size);
         }
         blk->size = new_block_size;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 1847afb..cfb9b6a 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -5125,7 +5125,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (data)
         {
-            block_funcs::overwrite_values(*data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*data, new_block_size);
         }
         m_block_store.sizes[block_index] = new_block_size;
-- 
2.43.0


From 6a4dc54514496ef4bc8cd8db9ddb82050bc7dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 31/59] fix: multi_type_vector: a position hint on an empty
 container is out of bound

---
 include/mdds/multi_type_vector/aos/main_def.inl | 4 ++++
 include/mdds/multi_type_vector/soa/main_def.inl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 45abefd..cdd4257 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -919,6 +919,10 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (m_blocks.empty())
+        // There is no block to look up.
+        return 0;
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_blocks.size())
         block_index = pos_data.block_index;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index cfb9b6a..fde557b 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4231,6 +4231,10 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (m_block_store.positions.empty())
+        // There is no block to look up.
+        return 0;
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_block_store.positions.size())
         block_index = pos_data.block_index;
-- 
2.43.0


From 34e2ab3d95589d95e2d74c76475375c8987ff2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 32/59] fix: multi_type_vector (AoS): copy construction that
 fails does not leak

---
 .../mdds/multi_type_vector/aos/main_def.inl   | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index cdd4257..b60cce0 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -308,13 +308,31 @@ template<typename Traits>
 multi_type_vector<Traits>::multi_type_vector(const multi_type_vector& other)
     : m_hdl_event(other.m_hdl_event), m_blocks(other.m_blocks), m_cur_size(other.m_cur_size)
 {
-    // Copy all element blocks.
-    for (auto& blk : m_blocks)
+    // Copy all element blocks into a temporary store, committing them only
+    // once every copy succeeds, so that a copy throwing mid-way doesn't leak
+    // the blocks copied so far.
+    std::vector<base_element_block*> owned(m_blocks.size(), nullptr);
+
+    try
     {
-        if (blk.data)
+        for (std::size_t i = 0; i < m_blocks.size(); ++i)
+            if (m_blocks[i].data)
+                owned[i] = block_funcs::copy_block(*m_blocks[i].data);
+    }
+    catch (...)
+    {
+        for (const base_element_block* p : owned)
+            if (p)
+                block_funcs::delete_block(p);
+        throw;
+    }
+
+    for (std::size_t i = 0; i < m_blocks.size(); ++i)
+    {
+        if (owned[i])
         {
-            blk.data = block_funcs::copy_block(*blk.data);
-            m_hdl_event.element_block_acquired(blk.data);
+            m_blocks[i].data = owned[i];
+            m_hdl_event.element_block_acquired(owned[i]);
         }
     }
 
-- 
2.43.0


From 72b06d95db98f084ab11ad132ce9e7699b6b850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 33/59] fix: multi_type_vector: copying or cloning a managed
 block that fails does not leak

---
 include/mdds/multi_type_vector/types.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/mdds/multi_type_vector/types.hpp b/include/mdds/multi_type_vector/types.hpp
index 21b4489..4684841 100644
--- a/include/mdds/multi_type_vector/types.hpp
+++ b/include/mdds/multi_type_vector/types.hpp
@@ -263,13 +263,14 @@ struct clone_block<BlockT, std::void_t<decltype(clone_value<typename BlockT::val
         {
             auto dest_blk = std::make_unique<BlockT>();
             auto& dest_store = dest_blk->store();
-            detail::reserve(dest_store, src.store().size());
+            dest_store.resize(src.store().size());
 
             // One cloner cloning the stored values in order, so that it may
             // carry state across the elements of the block.
             CV cloner;
+            auto it = dest_store.begin();
             for (const auto& v : src.store())
-                dest_store.push_back(cloner(v));
+                *it++ = cloner(v);
 
             return dest_blk.release();
         }
@@ -827,11 +828,14 @@ struct managed_element_block
     {}
     managed_element_block(size_t n) : base_type(n)
     {}
-    managed_element_block(const managed_element_block& r) : base_type()
+    managed_element_block(const managed_element_block& r) : managed_element_block()
     {
-        detail::reserve(m_array, r.m_array.size());
+        // NB: Delegating to the default constructor gets the elements copied
+        // so far deleted when a copy throws mid-way.
+        m_array.resize(r.m_array.size());
+        auto it = m_array.begin();
         for (const auto& v : r.m_array)
-            m_array.push_back(new ValueT(*v));
+            *it++ = new ValueT(*v);
     }
 
     template<typename Iter>
-- 
2.43.0


From 679989ef8c24a59df91c78625acd38114467b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 34/59] fix: multi_type_vector: set() of a range deletes the
 overwritten elements of the last block

---
 include/mdds/multi_type_vector/aos/main_def.inl | 1 +
 include/mdds/multi_type_vector/soa/main_def.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index b60cce0..109e96f 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4112,6 +4112,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2->data, 0, size_to_erase);
                 block_funcs::erase(*blk2->data, 0, size_to_erase);
                 blk2->size -= size_to_erase;
                 blk2->position += size_to_erase;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index fde557b..ec5bc62 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3252,6 +3252,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2_data, 0, size_to_erase);
                 block_funcs::erase(*blk2_data, 0, size_to_erase);
                 m_block_store.sizes[block_index2] -= size_to_erase;
                 m_block_store.positions[block_index2] += size_to_erase;
-- 
2.43.0


From df54c822ac276018d33aa0e4728046ff69d2a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 35/59] fix: multi_type_vector: set() of a range merges with
 the block that follows it

---
 include/mdds/multi_type_vector/aos/main_def.inl | 3 +++
 include/mdds/multi_type_vector/soa/main_def.inl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 109e96f..4ada219 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4129,6 +4129,9 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         delete_element_blocks(it_erase_begin, it_erase_end);
         m_blocks.erase(it_erase_begin, it_erase_end);
 
+        // The block that now follows may be of the same type.
+        merge_with_next_block(block_index1);
+
         return get_iterator(block_index1);
     }
 
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index ec5bc62..4ea4f18 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3269,6 +3269,9 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         delete_element_blocks(index_erase_begin, index_erase_end);
         m_block_store.erase(index_erase_begin, index_erase_end - index_erase_begin);
 
+        // The block that now follows may be of the same type.
+        merge_with_next_block(block_index1);
+
         return get_iterator(block_index1);
     }
 
-- 
2.43.0


From 1ec6e3ce53939b2f18e0232ffe27dcc25b8d6aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 36/59] fix: multi_type_vector: swap() that merges with the
 next block does not delete its elements

---
 include/mdds/multi_type_vector/aos/main_def.inl | 1 +
 include/mdds/multi_type_vector/soa/main_def.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 4ada219..db6c963 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -3527,6 +3527,7 @@ base_element_block* multi_type_vector<Traits>::exchange_elements(
                 {
                     // Apend elements from the next block too.
                     block_funcs::append_block(*blk_prev->data, *blk_next->data);
+                    block_funcs::resize_block(*blk_next->data, 0); // prevent double-delete.
                     blk_prev->size += blk_next->size;
                     ++it_end;
                     delete_element_block(*blk_next);
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 4ea4f18..efeeb30 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4855,6 +4855,7 @@ base_element_block* multi_type_vector<Traits>::exchange_elements(
                     // Apend elements from the next block too.
                     base_element_block* dst_next_data = m_block_store.element_blocks[dst_index + 1];
                     block_funcs::append_block(*dst_prev_data, *dst_next_data);
+                    block_funcs::resize_block(*dst_next_data, 0); // prevent double-delete.
                     m_block_store.sizes[dst_index - 1] += m_block_store.sizes[dst_index + 1];
                     ++dst_erase_size;
                     delete_element_block(dst_index + 1);
-- 
2.43.0


From fb2f78dec6069bfc58a65ac2072caf1354231a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 37/59] fix: multi_type_vector: keep ownership of blocks when
 sharing them fails for lack of memory

---
 include/mdds/multi_type_vector/soa/main_def.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index efeeb30..52c6dc7 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -559,8 +559,9 @@ void multi_type_vector<Traits>::share() const
 
         // Transfer ownership of the blocks from the parent store to a shared
         // COW store.
-        m_cow_store = std::make_shared<shared_element_blocks>();
-        m_cow_store->blocks = m_block_store.element_blocks;
+        auto store = std::make_shared<shared_element_blocks>();
+        store->blocks = m_block_store.element_blocks;
+        m_cow_store = std::move(store);
     }
 }
 
-- 
2.43.0


From ebbf6d64ea8ff16d5c2f2e702976b97b65c9044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 38/59] fix: multi_type_matrix: transpose, copy and resize
 matrices that hold integers

---
 include/mdds/multi_type_matrix_def.inl | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 75cedb3..422caae 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -409,6 +409,13 @@ multi_type_matrix<Traits>& multi_type_matrix<Traits>::transpose()
                     tmp.set(old_col_new_row, old_row_new_col, val);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    integer_type val;
+                    m_store.get(get_pos(old_row_new_col, old_col_new_row), val);
+                    tmp.set(old_col_new_row, old_row_new_col, val);
+                }
+                break;
                 case mtm::element_empty:
                     break;
                 default:
@@ -482,6 +489,14 @@ void multi_type_matrix<Traits>::copy(const multi_type_matrix& src)
                     blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    auto it = src_node.template begin<integer_block_type>();
+                    auto ite = src_node.template end<integer_block_type>();
+
+                    blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
+                }
+                break;
                 case mtm::element_empty:
                 {
                     size_type end = logical_pos_dest + section_size - 1;
-- 
2.43.0


From b7a95d555f53531092e43747e143af87bba34789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 39/59] fix: multi_type_matrix: reject a walk whose end is one
 row or column outside

---
 include/mdds/multi_type_matrix_def.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 422caae..be40ae8 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -659,7 +659,7 @@ FuncT multi_type_matrix<Traits>::walk(FuncT func, const size_pair_type& start, c
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column)
+    if (end.row >= m_size.row || end.column >= m_size.column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
@@ -743,8 +743,8 @@ FuncT multi_type_matrix<Traits>::walk(
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column || end.row > right.size().row ||
-        end.column > right.size().column)
+    if (end.row >= m_size.row || end.column >= m_size.column || end.row >= right.size().row ||
+        end.column >= right.size().column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
-- 
2.43.0


From 63bf02efb3b4b5d98203a93fd2768bd748acfbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 40/59] fix: multi_type_matrix: get() throws when the element
 is of another type, as documented

---
 include/mdds/multi_type_matrix_def.inl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index be40ae8..6df1f6a 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -234,8 +234,13 @@ template<typename Traits>
 template<typename _T>
 _T multi_type_matrix<Traits>::get(size_type row, size_type col) const
 {
-    _T val;
-    m_store.get(get_pos(row, col), val);
+    _T val{};
+    size_type pos = get_pos(row, col);
+    mtv::element_t type = m_store.get_type(pos);
+    if (type != mtv::element_type_empty && type != store_type::get_element_type(val))
+        throw general_error("multi_type_matrix: element is not of the requested type.");
+
+    m_store.get(pos, val);
     return val;
 }
 
-- 
2.43.0


From 9068dcb8607c5cdc82f1c9fb873a884c680b6ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 41/59] fix: multi_type_vector: construction from values that
 fails does not leak the block

---
 include/mdds/multi_type_vector/aos/main_def.inl |  6 ++++--
 include/mdds/multi_type_vector/soa/main_def.inl | 14 ++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index db6c963..f7c047c 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -245,9 +245,10 @@ multi_type_vector<Traits>::multi_type_vector(size_type init_size, const T& value
     if (!init_size)
         return;
 
+    m_blocks.emplace_back(0, init_size);
     base_element_block* data = mdds_mtv_create_new_block(init_size, value);
+    m_blocks.back().data = data;
     m_hdl_event.element_block_acquired(data);
-    m_blocks.emplace_back(0, init_size, data);
 }
 
 template<typename Traits>
@@ -262,9 +263,10 @@ multi_type_vector<Traits>::multi_type_vector(size_type init_size, const T& it_be
     if (m_cur_size != data_len)
         throw invalid_arg_error("Specified size does not match the size of the initial data array.");
 
+    m_blocks.emplace_back(0, m_cur_size);
     base_element_block* data = mdds_mtv_create_new_block(*it_begin, it_begin, it_end);
+    m_blocks.back().data = data;
     m_hdl_event.element_block_acquired(data);
-    m_blocks.emplace_back(0, m_cur_size, data);
 }
 
 template<typename Traits>
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 52c6dc7..ec9bd0c 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -422,11 +422,12 @@ multi_type_vector<Traits>::multi_type_vector(size_type init_size, const T& value
     if (!init_size)
         return;
 
-    base_element_block* data = mdds_mtv_create_new_block(init_size, value);
-    m_hdl_event.element_block_acquired(data);
     m_block_store.positions.emplace_back(0);
     m_block_store.sizes.emplace_back(init_size);
-    m_block_store.element_blocks.emplace_back(data);
+    m_block_store.element_blocks.emplace_back(nullptr);
+    base_element_block* data = mdds_mtv_create_new_block(init_size, value);
+    m_block_store.element_blocks[0] = data;
+    m_hdl_event.element_block_acquired(data);
 }
 
 template<typename Traits>
@@ -445,11 +446,12 @@ multi_type_vector<Traits>::multi_type_vector(size_type init_size, const T& it_be
     if (m_cur_size != data_len)
         throw mdds::invalid_arg_error("Specified size does not match the size of the initial data array.");
 
-    base_element_block* data = mdds_mtv_create_new_block(*it_begin, it_begin, it_end);
-    m_hdl_event.element_block_acquired(data);
     m_block_store.positions.emplace_back(0);
     m_block_store.sizes.emplace_back(m_cur_size);
-    m_block_store.element_blocks.emplace_back(data);
+    m_block_store.element_blocks.emplace_back(nullptr);
+    base_element_block* data = mdds_mtv_create_new_block(*it_begin, it_begin, it_end);
+    m_block_store.element_blocks[0] = data;
+    m_hdl_event.element_block_acquired(data);
 }
 
 template<typename Traits>
-- 
2.43.0


From 1fd5c3d46ee7159e3774be999477e61a5ee18f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 42/59] fix: multi_type_vector keeps its arrays of blocks in
 step when memory runs out

---
 .../mdds/multi_type_vector/aos/main_def.inl   |  2 ++
 include/mdds/multi_type_vector/soa/main.hpp   | 11 +++++++
 .../mdds/multi_type_vector/soa/main_def.inl   | 30 +++++++++++++------
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index f7c047c..b22aa1b 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -982,6 +982,7 @@ void multi_type_vector<Traits>::create_new_block_with_new_cell(base_element_bloc
     {
         m_hdl_event.element_block_released(data);
         block_funcs::delete_block(data);
+        data = nullptr;
     }
 
     // create an empty block
@@ -1002,6 +1003,7 @@ void multi_type_vector<Traits>::create_new_block_with_emplace_back(
     {
         m_hdl_event.element_block_released(data);
         block_funcs::delete_block(data);
+        data = nullptr;
     }
 
     // create an empty block
diff --git a/include/mdds/multi_type_vector/soa/main.hpp b/include/mdds/multi_type_vector/soa/main.hpp
index cdca223..8376d6e 100644
--- a/include/mdds/multi_type_vector/soa/main.hpp
+++ b/include/mdds/multi_type_vector/soa/main.hpp
@@ -120,6 +120,7 @@ private:
 
         void push_back(size_type pos, size_type size, base_element_block* data)
         {
+            prepare_to_grow(1);
             positions.push_back(pos);
             sizes.push_back(size);
             element_blocks.push_back(data);
@@ -127,6 +128,7 @@ private:
 
         void push_back(const block_slot_type& slot)
         {
+            prepare_to_grow(1);
             positions.push_back(slot.position);
             sizes.push_back(slot.size);
             element_blocks.push_back(slot.element_block);
@@ -154,6 +156,15 @@ private:
 
         void reserve(size_type n);
 
+        /**
+         * Make room for additional blocks.  Once this has succeeded, inserting
+         * that many blocks into the three arrays cannot fail, so that the
+         * arrays always remain of the same length.
+         *
+         * @param n number of blocks that are about to be inserted.
+         */
+        void prepare_to_grow(size_type n);
+
         bool equals(const blocks_type& other) const;
 
         void clear();
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index ec9bd0c..6355c3e 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -197,6 +197,7 @@ void multi_type_vector<Traits>::blocks_type::erase(size_type index, size_type si
 template<typename Traits>
 void multi_type_vector<Traits>::blocks_type::insert(size_type index, size_type size)
 {
+    prepare_to_grow(size);
     positions.insert(positions.begin() + index, size, 0);
     sizes.insert(sizes.begin() + index, size, 0);
     element_blocks.insert(element_blocks.begin() + index, size, nullptr);
@@ -206,6 +207,7 @@ template<typename Traits>
 void multi_type_vector<Traits>::blocks_type::insert(
     size_type index, size_type pos, size_type size, base_element_block* data)
 {
+    prepare_to_grow(1);
     positions.insert(positions.begin() + index, pos);
     sizes.insert(sizes.begin() + index, size);
     element_blocks.insert(element_blocks.begin() + index, data);
@@ -214,6 +216,7 @@ void multi_type_vector<Traits>::blocks_type::insert(
 template<typename Traits>
 void multi_type_vector<Traits>::blocks_type::insert(size_type index, const blocks_type& new_blocks)
 {
+    prepare_to_grow(new_blocks.positions.size());
     positions.insert(positions.begin() + index, new_blocks.positions.begin(), new_blocks.positions.end());
     sizes.insert(sizes.begin() + index, new_blocks.sizes.begin(), new_blocks.sizes.end());
     element_blocks.insert(
@@ -265,6 +268,19 @@ void multi_type_vector<Traits>::blocks_type::reserve(size_type n)
     element_blocks.reserve(n);
 }
 
+template<typename Traits>
+void multi_type_vector<Traits>::blocks_type::prepare_to_grow(size_type n)
+{
+    auto grow = [n](auto& array) {
+        if (array.capacity() - array.size() < n)
+            array.reserve(std::max(array.size() + n, array.capacity() * 2));
+    };
+
+    grow(positions);
+    grow(sizes);
+    grow(element_blocks);
+}
+
 template<typename Traits>
 bool multi_type_vector<Traits>::blocks_type::equals(const blocks_type& other) const
 {
@@ -3313,9 +3329,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
                 m_block_store.sizes[block_index] -= 1;
                 assert(m_block_store.sizes[block_index] > 0);
 
-                m_block_store.positions.emplace(m_block_store.positions.begin(), 0);
-                m_block_store.sizes.emplace(m_block_store.sizes.begin(), 1);
-                m_block_store.element_blocks.emplace(m_block_store.element_blocks.begin(), nullptr);
+                m_block_store.insert(0, 0, 1, nullptr);
 
                 create_new_block_with_new_cell(0, cell);
 
@@ -3329,9 +3343,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
                 blk_size -= 1;
                 assert(blk_size > 0);
 
-                m_block_store.positions.push_back(blk_size);
-                m_block_store.sizes.push_back(1);
-                m_block_store.element_blocks.push_back(nullptr);
+                m_block_store.push_back(blk_size, 1, nullptr);
 
                 create_new_block_with_new_cell(block_index + 1, cell);
                 iterator ret = make_end();
@@ -3378,9 +3390,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
                 m_block_store.sizes[0] -= 1;
                 m_block_store.positions[0] = 1;
 
-                m_block_store.positions.emplace(m_block_store.positions.begin(), 0);
-                m_block_store.sizes.emplace(m_block_store.sizes.begin(), 1);
-                m_block_store.element_blocks.emplace(m_block_store.element_blocks.begin(), nullptr);
+                m_block_store.insert(0, 0, 1, nullptr);
                 create_new_block_with_new_cell(0, cell);
             }
 
@@ -4282,6 +4292,7 @@ void multi_type_vector<Traits>::create_new_block_with_new_cell(size_type block_i
     {
         m_hdl_event.element_block_released(data);
         block_funcs::delete_block(data);
+        m_block_store.element_blocks[block_index] = nullptr;
     }
 
     // create an empty block
@@ -4304,6 +4315,7 @@ void multi_type_vector<Traits>::create_new_block_with_emplace_back(size_type blo
     {
         m_hdl_event.element_block_released(data);
         block_funcs::delete_block(data);
+        m_block_store.element_blocks[block_index] = nullptr;
     }
 
     // create an empty block
-- 
2.43.0


From f4485edd1351c0c84200e75f745fa8df7374b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 43/59] fix: multi_type_vector owns the new block while a range
 of values is set

---
 .../mdds/multi_type_vector/soa/main_def.inl   | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 6355c3e..c1284bd 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -2918,11 +2918,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             }
 
             // Replace the whole block.
-            if (blk_data)
-            {
-                m_hdl_event.element_block_released(blk_data);
-                block_funcs::delete_block(blk_data);
-            }
+            delete_element_block(block_index);
 
             m_block_store.element_blocks[block_index] = block_funcs::create_new_block(cat, 0);
             blk_data = m_block_store.element_blocks[block_index];
@@ -3089,6 +3085,10 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
     size_type index_erase_begin = block_index1 + 1;
     size_type index_erase_end = block_index2;
 
+    // The new block must not be left without an owner when this fails.
+    m_block_store.prepare_to_grow(1);
+    std::unique_ptr<base_element_block, element_block_deleter> new_data;
+
     // Create the new data block first.
     block_slot_type data_blk(start_row, length);
 
@@ -3106,7 +3106,6 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Transfer the whole data from block 0 to data block.
                 data_blk.element_block = blk0_data;
-                m_block_store.element_blocks[block_index1 - 1] = nullptr;
 
                 data_blk.size += m_block_store.sizes[block_index1 - 1];
                 data_blk.position = m_block_store.positions[block_index1 - 1];
@@ -3134,7 +3133,8 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
     }
     else
     {
-        data_blk.element_block = block_funcs::create_new_block(cat, 0);
+        new_data.reset(block_funcs::create_new_block(cat, 0));
+        data_blk.element_block = new_data.get();
         m_hdl_event.element_block_acquired(data_blk.element_block);
         mdds_mtv_assign_values(*data_blk.element_block, *it_begin, it_begin, it_end);
     }
@@ -3200,12 +3200,17 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
 
     size_type insert_pos = index_erase_begin;
 
+    if (blk0_copied)
+        // Block 0 is the data block, which stays.
+        m_block_store.element_blocks[block_index1 - 1] = nullptr;
+
     // Remove the in-between blocks first.
     delete_element_blocks(index_erase_begin, index_erase_end);
     m_block_store.erase(index_erase_begin, index_erase_end - index_erase_begin);
 
     // Insert the new data block.
 
+    new_data.release();
     m_block_store.insert(insert_pos, data_blk.position, data_blk.size, data_blk.element_block);
     return get_iterator(insert_pos);
 }
-- 
2.43.0


From 2621db21af249d56e67f2b8e988437b6059c96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 44/59] fix: multi_type_vector (aos) owns the new block while a
 range of values is set

---
 .../mdds/multi_type_vector/aos/main_def.inl   | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index b22aa1b..7f03f20 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -3777,11 +3777,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             }
 
             // Replace the whole block.
-            if (blk->data)
-            {
-                m_hdl_event.element_block_released(blk->data);
-                block_funcs::delete_block(blk->data);
-            }
+            delete_element_block(*blk);
 
             blk->data = block_funcs::create_new_block(cat, 0);
             m_hdl_event.element_block_acquired(blk->data);
@@ -3929,6 +3925,11 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
     size_type start_row, size_type end_row, size_type block_index1, size_type block_index2, const T& it_begin,
     const T& it_end)
 {
+    // The new block must not be left without an owner when this fails.
+    if (m_blocks.size() == m_blocks.capacity())
+        m_blocks.reserve(m_blocks.size() * 2);
+    std::unique_ptr<base_element_block, element_block_deleter> new_data;
+
     element_t cat = mdds_mtv_get_element_type(*it_begin);
     block* blk1 = &m_blocks[block_index1];
     block* blk2 = &m_blocks[block_index2];
@@ -3959,7 +3960,6 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Transfer the whole data from block 0 to data block.
                 data_blk.data = blk0->data;
-                blk0->data = nullptr;
 
                 data_blk.size += blk0->size;
                 data_blk.position = blk0->position;
@@ -3985,7 +3985,8 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         mdds_mtv_append_values(*data_blk.data, *it_begin, it_begin, it_end);
     else
     {
-        data_blk.data = block_funcs::create_new_block(cat, 0);
+        new_data.reset(block_funcs::create_new_block(cat, 0));
+        data_blk.data = new_data.get();
         m_hdl_event.element_block_acquired(data_blk.data);
         mdds_mtv_assign_values(*data_blk.data, *it_begin, it_begin, it_end);
     }
@@ -4048,11 +4049,16 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
 
     size_type insert_pos = std::distance(m_blocks.begin(), it_erase_begin);
 
+    if (blk0_copied)
+        // Block 0 is the data block, which stays.
+        m_blocks[block_index1 - 1].data = nullptr;
+
     // Remove the in-between blocks first.
     delete_element_blocks(it_erase_begin, it_erase_end);
     m_blocks.erase(it_erase_begin, it_erase_end);
 
     // Insert the new data block.
+    new_data.release();
     m_blocks.insert(m_blocks.begin() + insert_pos, std::move(data_blk));
 
     return get_iterator(insert_pos);
-- 
2.43.0


From 557c78c0c6db831194a50762aeab24be59d74075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 45/59] fix: rtree keeps stale parent pointers when the root
 node is split

The node that takes over the children of the old root inherits the root's
"parent pointers are valid" flag, which is set when the tree was copied,
moved, swapped or bulk-loaded. Its children were then left pointing to the
root.
---
 include/mdds/rtree_def.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index b642e63..a90bd11 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -2240,8 +2240,9 @@ void rtree<KeyT, ValueT, Traits>::split_node(node_store* ns)
         m_root.count = 2;
         m_root.pack();
 
+        // Both nodes have been moved to new memory locations.
         for (node_store& ns_child : dir_root->children)
-            ns_child.reset_parent_pointers_of_children();
+            ns_child.reset_parent_pointers();
     }
     else
     {
-- 
2.43.0


From 20b1a30328fa95740dc7fdbc0b8d8464a35a4507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 46/59] fix: rtree::check_integrity rejects every tree whose
 root has been split

Splitting the root leaves a new root with two child nodes, which is less than
the minimum node size unless that is two (it is 40 by default).
---
 include/mdds/rtree.hpp     | 2 +-
 include/mdds/rtree_def.inl | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/mdds/rtree.hpp b/include/mdds/rtree.hpp
index 6781425..cc78cd8 100644
--- a/include/mdds/rtree.hpp
+++ b/include/mdds/rtree.hpp
@@ -28,7 +28,7 @@ struct default_rtree_traits
     /**
      * Minimum number of child nodes that must be present in each directory
      * node.  Exception is the root node, which is allowed to have less than
-     * the minimum number of nodes, but only when it's a leaf directory node.
+     * the minimum number of nodes.
      */
     static constexpr size_t min_node_size = 40;
 
diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index a90bd11..43d7bab 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1847,10 +1847,10 @@ void rtree<KeyT, ValueT, Traits>::check_integrity(const integrity_check_properti
                     valid = false;
                 }
 
-                bool node_underfill_allowed = false;
-                if (ns->is_root() && ns->type == node_type::directory_leaf)
-                    // If the root directory is a leaf, it's allowed to be underfilled.
-                    node_underfill_allowed = true;
+                // The root directory is allowed to be underfilled: a leaf root
+                // holds as few values as the tree does, and a non-leaf root
+                // starts out with the two halves of the split old root.
+                bool node_underfill_allowed = ns->is_root();
 
                 if (!node_underfill_allowed && ns->count < traits_type::min_node_size)
                 {
-- 
2.43.0


From 10e52e4248154f2939a55d425b6266c120a49170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 47/59] fix: rtree extents are not shrunk when an erase
 dissolves a node

Only the parent of the dissolved directory node was re-packed, and its
ancestors kept extents that are no longer tight.
---
 include/mdds/rtree_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 43d7bab..00da072 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1638,6 +1638,9 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         dir_ns->pack();
     }
 
+    // Propagate the change in extent all the way to the root.
+    dir_ns->pack_upward();
+
     while (!orphan_dir_nodes.empty())
     {
         orphan_node_entry& entry = orphan_dir_nodes.back();
-- 
2.43.0


From 08a1275430314193df7755661114029080f64e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 48/59] fix: rtree::erase may leave a non-leaf root with a
 single child

The child that becomes the new root may have only one child itself, when the
minimum node size is one or the tree was bulk-loaded. Erasing further would
leave a non-leaf root with no children, and the next insertion dereferences a
null pointer.
---
 include/mdds/rtree_def.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 00da072..7b2d50c 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1654,10 +1654,11 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         orphan_value_nodes.pop_back();
     }
 
-    if (m_root.count == 1)
+    while (m_root.type == node_type::directory_nonleaf && m_root.count == 1)
     {
         // If the root node only has one child, make that child the new root.
-        // Be careful not to leak memory here...
+        // The new root may in turn have only one child.  Be careful not to
+        // leak memory here...
 
         dir = static_cast<directory_node*>(m_root.node_ptr);
         assert(dir->children.size() == 1);
-- 
2.43.0


From 2e65a49ca35eff332d571b76aef508dd0f480b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 49/59] fix: rtree::erase leaves stale parent pointers when it
 dissolves two levels

Removing a directory node from its parent relocates its siblings, but their
children were left pointing to the old locations, because the parent itself
has not moved and its own flag says its pointers are valid.
---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 7b2d50c..fa51593 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1634,7 +1634,7 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         --depth;
         erased = dir_ns->erase_child(dir_ns_child);
         assert(erased);
-        dir_ns->reset_parent_pointers_of_children();
+        dir_ns->reset_parent_pointers();
         dir_ns->pack();
     }
 
-- 
2.43.0


From 0e3c2530e8dd79caa752837ecd3d62d489564d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 50/59] fix: rtree::erase re-inserts orphaned directory nodes
 at a wrong place

A directory node whose parent was dissolved could end up one level too deep,
next to leaf directory nodes, since the depth of the node itself was taken
for the depth of its new parent, and a root split in between was not
accounted for. A non-leaf directory node that received too many of them was
never split, which a later insertion then ran into.
---
 include/mdds/rtree_def.inl | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index fa51593..fec2c87 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -683,7 +683,7 @@ bool rtree<KeyT, ValueT, Traits>::node_store::is_root() const
 template<typename KeyT, typename ValueT, typename Traits>
 bool rtree<KeyT, ValueT, Traits>::node_store::exceeds_capacity() const
 {
-    if (type != node_type::directory_leaf)
+    if (!is_directory())
         return false;
 
     return count > traits_type::max_node_size;
@@ -1641,11 +1641,24 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
     // Propagate the change in extent all the way to the root.
     dir_ns->pack_upward();
 
+    const node* root_ptr = m_root.node_ptr;
+    size_t root_shift = 0; // number of levels added above the old root.
+
     while (!orphan_dir_nodes.empty())
     {
         orphan_node_entry& entry = orphan_dir_nodes.back();
-        insert_dir(std::move(entry.ns), entry.depth);
+
+        // The parent must be one level above the original depth of the node,
+        // so that all values stay at the same depth.
+        insert_dir(std::move(entry.ns), entry.depth - 1 + root_shift);
         orphan_dir_nodes.pop_back();
+
+        if (m_root.node_ptr != root_ptr)
+        {
+            // The root node has been split.
+            root_ptr = m_root.node_ptr;
+            ++root_shift;
+        }
     }
 
     while (!orphan_value_nodes.empty())
-- 
2.43.0


From d100f4193e076abecdbb761f2c8f0cde1a927a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 51/59] fix: rtree points built from too few coordinates hold
 garbage

The remaining coordinates were left uninitialized instead of being given the
default value of the key type.
---
 include/mdds/rtree_def.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index fec2c87..90f2d8e 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -380,9 +380,8 @@ rtree<KeyT, ValueT, Traits>::point_type::point_type()
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-rtree<KeyT, ValueT, Traits>::point_type::point_type(std::initializer_list<key_type> vs)
+rtree<KeyT, ValueT, Traits>::point_type::point_type(std::initializer_list<key_type> vs) : point_type()
 {
-    // Initialize the point values with the key type's default value.
     key_type* dst = d;
     key_type* dst_end = dst + traits_type::dimensions;
 
-- 
2.43.0


From 86f09a1646cc5651c8d354582622340b339d6cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 52/59] fix: a failed rtree move leaves the source without a
 root node

The root was taken from the source before allocating the new empty root for
it. If that allocation failed, the source could not even be searched anymore
and its values were lost.
---
 include/mdds/rtree_def.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 90f2d8e..154847e 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1246,10 +1246,10 @@ rtree<KeyT, ValueT, Traits>::rtree() : m_root(node_store::create_leaf_directory_
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-rtree<KeyT, ValueT, Traits>::rtree(rtree&& other) : m_root(std::move(other.m_root))
+rtree<KeyT, ValueT, Traits>::rtree(rtree&& other) : m_root(node_store::create_leaf_directory_node())
 {
     // The root node must be a valid directory at all times.
-    other.m_root = node_store::create_leaf_directory_node();
+    m_root.swap(other.m_root);
 
     // Since the moved root has its memory location changed, we need to update
     // the parent pointers in its child nodes.
-- 
2.43.0


From 60b7fd896c81151d1f6c93ee6f71d26231568289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 53/59] fix: mtv::collection accepts ranges whose end position
 wraps around

A size large enough to overflow the sum of start and size passed the check,
and iteration then went out of bounds.
---
 include/mdds/multi_type_vector/collection_def.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/collection_def.inl b/include/mdds/multi_type_vector/collection_def.inl
index be9876d..e12b907 100644
--- a/include/mdds/multi_type_vector/collection_def.inl
+++ b/include/mdds/multi_type_vector/collection_def.inl
@@ -194,7 +194,7 @@ void collection<MtvT>::check_collection_range(size_type start, size_type size) c
     if (!size)
         throw invalid_arg_error("size of 0 is not allowed.");
 
-    if ((start + size) > m_vectors.size())
+    if (size > m_vectors.size() - start)
         throw invalid_arg_error("size is too large.");
 }
 
@@ -211,7 +211,7 @@ void collection<MtvT>::check_element_range(size_type start, size_type size) cons
     if (!size)
         throw invalid_arg_error("size of 0 is not allowed.");
 
-    if ((start + size) > m_mtv_size)
+    if (size > m_mtv_size - start)
         throw invalid_arg_error("size is too large.");
 }
 
-- 
2.43.0


From 2d2f64409ab0de84217b9b4babce3fc43d0c1576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 54/59] fix: mtv::collection dereferences a null pointer for an
 empty range of vectors

Constructing a collection from an empty range read the first of no vectors.
Make it an empty collection, as the default constructor does.
---
 include/mdds/multi_type_vector/collection_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/multi_type_vector/collection_def.inl b/include/mdds/multi_type_vector/collection_def.inl
index e12b907..e70ff69 100644
--- a/include/mdds/multi_type_vector/collection_def.inl
+++ b/include/mdds/multi_type_vector/collection_def.inl
@@ -114,6 +114,9 @@ collection<MtvT>::collection(const T& begin, const T& end) : m_mtv_size(0), m_id
     for (T it = begin; it != end; ++it)
         init_insert_vector(*it);
 
+    if (m_vectors.empty())
+        return; // same as a default-constructed collection.
+
     // Create a single value that identifies the whole collection.
     auto it = m_vectors.begin();
     uintptr_t identity = reinterpret_cast<uintptr_t>(*it);
-- 
2.43.0


From bc2289d5c3f82cec88fe9977d4b8e90346a14b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 55/59] fix: flat_segment_tree: reading segment_range() no
 longer writes to shared reference counts

The range object held counted pointers to the two end leaves; the counts are
not atomic, so two threads asking a const tree for its segments raced.
---
 include/mdds/flat_segment_tree.hpp     | 6 +++---
 include/mdds/flat_segment_tree_def.inl | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 9c186aa..5d8fabe 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -126,11 +126,11 @@ public:
 
     class const_segment_range_type
     {
-        node_ptr m_left_leaf;
-        node_ptr m_right_leaf;
+        const node* m_left_leaf;
+        const node* m_right_leaf;
 
     public:
-        const_segment_range_type(node_ptr left_leaf, node_ptr right_leaf);
+        const_segment_range_type(const node* left_leaf, const node* right_leaf);
 
         const_segment_iterator begin() const;
         const_segment_iterator end() const;
diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 3afc7d1..525673c 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -18,7 +18,7 @@ typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree
 
 template<typename Key, typename Value>
 flat_segment_tree<Key, Value>::const_segment_range_type::const_segment_range_type(
-    node_ptr left_leaf, node_ptr right_leaf)
+    const node* left_leaf, const node* right_leaf)
     : m_left_leaf(left_leaf), m_right_leaf(right_leaf)
 {}
 
@@ -26,14 +26,14 @@ template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree<
     Key, Value>::const_segment_range_type::begin() const
 {
-    return const_segment_iterator(m_left_leaf.get(), m_left_leaf->next.get());
+    return const_segment_iterator(m_left_leaf, m_left_leaf->next.get());
 }
 
 template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree<
     Key, Value>::const_segment_range_type::end() const
 {
-    return const_segment_iterator(m_right_leaf.get(), nullptr);
+    return const_segment_iterator(m_right_leaf, nullptr);
 }
 
 template<typename Key, typename Value>
@@ -51,7 +51,7 @@ typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree
 template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_segment_range_type flat_segment_tree<Key, Value>::segment_range() const
 {
-    return const_segment_range_type(m_left_leaf, m_right_leaf);
+    return const_segment_range_type(m_left_leaf.get(), m_right_leaf.get());
 }
 
 template<typename Key, typename Value>
-- 
2.43.0


From e597c93ca7a4ebf496ba9b8e42ce53f71a176e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 56/59] fix: delayed_delete_vector::at() rejects positions that
 wrap around

The position was added to the number of the removed front elements first,
which could give access to a removed element.
---
 include/mdds/multi_type_vector/delayed_delete_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index 128397a..5b4191c 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -101,12 +101,14 @@ public:
 
     reference at(size_type pos)
     {
-        return m_vec.at(pos + m_front_offset);
+        // NB: the sum may wrap around.
+        return m_vec.at(pos < size() ? pos + m_front_offset : m_vec.size());
     }
 
     const_reference at(size_type pos) const
     {
-        return m_vec.at(pos + m_front_offset);
+        // NB: the sum may wrap around.
+        return m_vec.at(pos < size() ? pos + m_front_offset : m_vec.size());
     }
 
     void push_back(const T& value)
-- 
2.43.0


From 5d922ef15dd675bb46d2cd9947c03077c2eed99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 57/59] fix: delayed_delete_vector::swap() also swaps the
 number of removed front elements

---
 include/mdds/multi_type_vector/delayed_delete_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index 5b4191c..39bc29f 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -124,6 +124,7 @@ public:
     void swap(delayed_delete_vector& other) noexcept(std::is_nothrow_swappable_v<store_type>)
     {
         m_vec.swap(other.m_vec);
+        std::swap(m_front_offset, other.m_front_offset);
     }
 
     template<typename... Args>
-- 
2.43.0


From fb3bd8908c4559ed1eb996bec23f85e46696d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 58/59] fix: delayed_delete_vector: a moved-from instance is
 empty

It kept the number of removed front elements, so that its size wrapped around.
---
 .../delayed_delete_vector.hpp                 | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index 39bc29f..24545fd 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -9,6 +9,7 @@
 #include <vector>
 #include <algorithm>
 #include <type_traits>
+#include <utility>
 
 namespace mdds { namespace mtv {
 
@@ -49,6 +50,32 @@ public:
     delayed_delete_vector(InputIt first, InputIt last) : m_vec(first, last)
     {}
 
+    delayed_delete_vector(const delayed_delete_vector&) = default;
+
+    // A moved-from instance must not retain the offset to the removed elements.
+    delayed_delete_vector(delayed_delete_vector&& other) noexcept(std::is_nothrow_move_constructible_v<store_type>)
+        : m_vec(std::move(other.m_vec)), m_front_offset(std::exchange(other.m_front_offset, 0))
+    {
+        other.m_vec.clear();
+    }
+
+    delayed_delete_vector& operator=(const delayed_delete_vector&) = default;
+
+    delayed_delete_vector& operator=(delayed_delete_vector&& other) noexcept(
+        std::is_nothrow_move_assignable_v<store_type>)
+    {
+        if (this != &other)
+        {
+            m_vec.clear();
+            m_front_offset = 0;
+            m_vec = std::move(other.m_vec);
+            m_front_offset = std::exchange(other.m_front_offset, 0);
+            other.m_vec.clear();
+        }
+
+        return *this;
+    }
+
     iterator begin() noexcept
     {
         return m_vec.begin() + m_front_offset;
-- 
2.43.0


From 198ac59207f9407e0f2021f2b1b6cb2acc4112a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:17 +0000
Subject: [PATCH 59/59] fix: flat_segment_tree::shift_right keeps its segments
 in order near the upper end of the key type

---
 include/mdds/flat_segment_tree.hpp     | 22 ++++++++++++++++++++--
 include/mdds/flat_segment_tree_def.inl |  2 +-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 5d8fabe..c15b8e0 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -10,6 +10,7 @@
 #include <sstream>
 #include <utility>
 #include <cassert>
+#include <limits>
 #include <type_traits>
 
 #include "./node.hpp"
@@ -755,15 +756,32 @@ private:
         }
     }
 
+    /**
+     * Check if a key is still below the end key after it has been shifted to
+     * the right, without letting an integer key exceed the range of its type.
+     */
+    static bool is_in_bound_after_shift(key_type key, key_type shift_value, key_type end_key)
+    {
+        if constexpr (std::is_integral_v<key_type>)
+        {
+            if (end_key < std::numeric_limits<key_type>::min() + shift_value)
+                return false;
+
+            return key < end_key - shift_value;
+        }
+        else
+            return key + shift_value < end_key;
+    }
+
     static void shift_leaf_key_right(node_ptr& cur_node, node_ptr& end_node, key_type shift_value)
     {
         key_type end_node_key = end_node->key;
         while (cur_node.get() != end_node.get())
         {
-            cur_node->key += shift_value;
-            if (cur_node->key < end_node_key)
+            if (is_in_bound_after_shift(cur_node->key, shift_value, end_node_key))
             {
                 // The node is still in-bound.  Keep shifting.
+                cur_node->key += shift_value;
                 cur_node = cur_node->next;
                 continue;
             }
diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 525673c..fbff723 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -484,7 +484,7 @@ void flat_segment_tree<Key, Value>::shift_right(key_type pos, key_type size, boo
 
         if (m_left_leaf->value_leaf.value != m_init_val && !skip_start_node)
         {
-            if (size < m_right_leaf->key - m_left_leaf->key)
+            if (is_in_bound_after_shift(m_left_leaf->key, size, m_right_leaf->key))
             {
                 // The leftmost leaf node has a non-initial value.  We need to
                 // insert a new node to carry that value after the shift.
-- 
2.43.0

