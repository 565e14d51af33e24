From e6d3b503e1c10b80f1bee22741340b9f5be5003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 01/54] fix: SaPCollisionManager kept stale end points and
 missed or kept wrong pairs

unregisterObject() used the list element after erasing it and left the vector
copy of the end points stale; registerObject() missed boxes enclosing the new
one and listed others twice; update() moved both end points by the direction of
the lower one only, so resized boxes lost or kept pairs; empty() was inverted.
---
 include/fcl/broadphase/broadphase_SaP-inl.h | 340 ++++++++------------
 include/fcl/broadphase/broadphase_SaP.h     |  10 +
 2 files changed, 136 insertions(+), 214 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 7d201c7..7268dfa 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -58,33 +58,18 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
       break;
   }
 
-  AABB_arr.erase(it);
-  obj_aabb_map.erase(obj);
-
   if(it == AABB_arr.end())
     return;
 
   SaPAABB* curr = *it;
-  *it = nullptr;
+
+  AABB_arr.erase(it);
+  obj_aabb_map.erase(obj);
 
   for(int coord = 0; coord < 3; ++coord)
   {
-    //first delete the lo endpoint of the interval.
-    if(curr->lo->prev[coord] == nullptr)
-      elist[coord] = curr->lo->next[coord];
-    else
-      curr->lo->prev[coord]->next[coord] = curr->lo->next[coord];
-
-    curr->lo->next[coord]->prev[coord] = curr->lo->prev[coord];
-
-    //then, delete the "hi" endpoint.
-    if(curr->hi->prev[coord] == nullptr)
-      elist[coord] = curr->hi->next[coord];
-    else
-      curr->hi->prev[coord]->next[coord] = curr->hi->next[coord];
-
-    if(curr->hi->next[coord] != nullptr)
-      curr->hi->next[coord]->prev[coord] = curr->hi->prev[coord];
+    removeEndPoint(curr->lo, coord);
+    removeEndPoint(curr->hi, coord);
   }
 
   delete curr->lo;
@@ -92,8 +77,10 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   delete curr;
 
   overlap_pairs.remove_if(isUnregistered(obj));
+
+  updateVelist();
 }
-\
+
 //==============================================================================
 template <typename S>
 SaPCollisionManager<S>::SaPCollisionManager()
@@ -146,9 +133,10 @@ void SaPCollisionManager<S>::registerObjects(const std::vector<CollisionObject<S
     for(size_t coord = 0; coord < 3; ++coord)
     {
       std::sort(endpoints.begin(), endpoints.end(),
-                std::bind(std::less<S>(),
-                            std::bind(static_cast<S (EndPoint::*)(size_t) const >(&EndPoint::getVal), std::placeholders::_1, coord),
-                            std::bind(static_cast<S (EndPoint::*)(size_t) const >(&EndPoint::getVal), std::placeholders::_2, coord)));
+                [coord](const EndPoint* a, const EndPoint* b)
+                {
+                  return a->isBefore(*b, coord);
+                });
 
       endpoints[0]->prev[coord] = nullptr;
       endpoints[0]->next[coord] = endpoints[1];
@@ -216,82 +204,33 @@ void SaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
   curr->hi->minmax = 1;
   curr->hi->aabb = curr;
 
-  for(int coord = 0; coord < 3; ++coord)
+  for(auto it = AABB_arr.cbegin(), end = AABB_arr.cend(); it != end; ++it)
   {
-    EndPoint* current = elist[coord];
-
-    // first insert the lo end point
-    if(current == nullptr) // empty list
-    {
-      elist[coord] = curr->lo;
-      curr->lo->prev[coord] = curr->lo->next[coord] = nullptr;
-    }
-    else // otherwise, find the correct location in the list and insert
-    {
-      EndPoint* curr_lo = curr->lo;
-      S curr_lo_val = curr_lo->getVal()[coord];
-      while((current->getVal()[coord] < curr_lo_val) && (current->next[coord] != nullptr))
-        current = current->next[coord];
-
-      if(current->getVal()[coord] >= curr_lo_val)
-      {
-        curr_lo->prev[coord] = current->prev[coord];
-        curr_lo->next[coord] = current;
-        if(current->prev[coord] == nullptr)
-          elist[coord] = curr_lo;
-        else
-          current->prev[coord]->next[coord] = curr_lo;
-
-        current->prev[coord] = curr_lo;
-      }
-      else
-      {
-        curr_lo->prev[coord] = current;
-        curr_lo->next[coord] = nullptr;
-        current->next[coord] = curr_lo;
-      }
-    }
-
-    // now insert hi end point
-    current = curr->lo;
-
-    EndPoint* curr_hi = curr->hi;
-    S curr_hi_val = curr_hi->getVal()[coord];
-
-    if(coord == 0)
-    {
-      while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
-      {
-        if(current != curr->lo)
-          if(current->aabb->cached.overlap(curr->cached))
-            overlap_pairs.emplace_back(current->aabb->obj, obj);
+    if((*it)->cached.overlap(curr->cached))
+      overlap_pairs.emplace_back((*it)->obj, obj);
+  }
 
-        current = current->next[coord];
-      }
-    }
-    else
+  for(int coord = 0; coord < 3; ++coord)
+  {
+    // find the last end point before the lo end point, and insert it there
+    EndPoint* prev = nullptr;
+    EndPoint* next = elist[coord];
+    while((next != nullptr) && next->isBefore(*curr->lo, coord))
     {
-      while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
-        current = current->next[coord];
+      prev = next;
+      next = next->next[coord];
     }
+    insertEndPoint(curr->lo, prev, coord);
 
-    if(current->getVal()[coord] >= curr_hi_val)
-    {
-      curr_hi->prev[coord] = current->prev[coord];
-      curr_hi->next[coord] = current;
-      if(current->prev[coord] == nullptr)
-        elist[coord] = curr_hi;
-      else
-        current->prev[coord]->next[coord] = curr_hi;
-
-      current->prev[coord] = curr_hi;
-    }
-    else
+    // the hi end point comes after the lo end point
+    prev = curr->lo;
+    next = curr->lo->next[coord];
+    while((next != nullptr) && next->isBefore(*curr->hi, coord))
     {
-      curr_hi->prev[coord] = current;
-      curr_hi->next[coord] = nullptr;
-      current->next[coord] = curr_hi;
+      prev = next;
+      next = next->next[coord];
     }
+    insertEndPoint(curr->hi, prev, coord);
   }
 
   AABB_arr.push_back(curr);
@@ -326,139 +265,95 @@ void SaPCollisionManager<S>::update_(SaPAABB* updated_aabb)
 
   SaPAABB* current = updated_aabb;
 
-  Vector3<S> new_min = current->obj->getAABB().min_;
-  Vector3<S> new_max = current->obj->getAABB().max_;
+  const AABB<S> new_aabb = current->obj->getAABB();
 
-  SaPAABB dummy;
-  dummy.cached = current->obj->getAABB();
-
-  for(int coord = 0; coord < 3; ++coord)
+  // The end points that a moving end point passes tell which pairs may start or
+  // stop overlapping. Both ends of the interval are moved on their own, since
+  // they can move in different directions when the object changes its extent.
+  const auto passed = [this, current, &new_aabb](EndPoint* other)
   {
-    int direction; // -1 reverse, 0 nochange, 1 forward
-    EndPoint* temp;
-
-    if(current->lo->getVal(coord) > new_min[coord])
-      direction = -1;
-    else if(current->lo->getVal(coord) < new_min[coord])
-      direction = 1;
-    else direction = 0;
+    if(other->aabb == current)
+      return;
 
-    if(direction == -1)
-    {
-      //first update the "lo" endpoint of the interval
-      if(current->lo->prev[coord] != nullptr)
-      {
-        temp = current->lo;
-        while((temp != nullptr) && (temp->getVal(coord) > new_min[coord]))
-        {
-          if(temp->minmax == 1)
-            if(temp->aabb->cached.overlap(dummy.cached))
-              addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-          temp = temp->prev[coord];
-        }
+    const SaPPair pair(other->aabb->obj, current->obj);
+    if(other->aabb->cached.overlap(new_aabb))
+      addToOverlapPairs(pair);
+    else
+      removeFromOverlapPairs(pair);
+  };
 
-        if(temp == nullptr)
-        {
-          current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-          current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-          current->lo->prev[coord] = nullptr;
-          current->lo->next[coord] = elist[coord];
-          elist[coord]->prev[coord] = current->lo;
-          elist[coord] = current->lo;
-        }
-        else
-        {
-          current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-          current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-          current->lo->prev[coord] = temp;
-          current->lo->next[coord] = temp->next[coord];
-          temp->next[coord]->prev[coord] = current->lo;
-          temp->next[coord] = current->lo;
-        }
-      }
+  const auto moveEndPoint = [this, &passed](EndPoint* end_point, S new_val, int coord)
+  {
+    EndPoint* prev = end_point->prev[coord];
+    EndPoint* next = end_point->next[coord];
+    end_point->getVal(coord) = new_val;
 
-      current->lo->getVal(coord) = new_min[coord];
+    while((prev != nullptr) && end_point->isBefore(*prev, coord))
+    {
+      if(prev->minmax != end_point->minmax) passed(prev);
+      prev = prev->prev[coord];
+    }
 
-      // update hi end point
-      temp = current->hi;
-      while(temp->getVal(coord) > new_max[coord])
-      {
-        if((temp->minmax == 0) && (temp->aabb->cached.overlap(current->cached)))
-          removeFromOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-        temp = temp->prev[coord];
-      }
+    while((next != nullptr) && next->isBefore(*end_point, coord))
+    {
+      if(next->minmax != end_point->minmax) passed(next);
+      prev = next;
+      next = next->next[coord];
+    }
 
-      current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-      if(current->hi->next[coord] != nullptr)
-        current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-      current->hi->prev[coord] = temp;
-      current->hi->next[coord] = temp->next[coord];
-      if(temp->next[coord] != nullptr)
-        temp->next[coord]->prev[coord] = current->hi;
-      temp->next[coord] = current->hi;
+    if(prev != end_point->prev[coord])
+    {
+      removeEndPoint(end_point, coord);
+      insertEndPoint(end_point, prev, coord);
+    }
+  };
 
-      current->hi->getVal(coord) = new_max[coord];
+  for(int coord = 0; coord < 3; ++coord)
+  {
+    // move the leading end point first, so that lo never passes hi
+    if(new_aabb.max_[coord] > current->hi->getVal(coord))
+    {
+      moveEndPoint(current->hi, new_aabb.max_[coord], coord);
+      moveEndPoint(current->lo, new_aabb.min_[coord], coord);
     }
-    else if(direction == 1)
+    else
     {
-      //here, we first update the "hi" endpoint.
-      if(current->hi->next[coord] != nullptr)
-      {
-        temp = current->hi;
-        while((temp->next[coord] != nullptr) && (temp->getVal(coord) < new_max[coord]))
-        {
-          if(temp->minmax == 0)
-            if(temp->aabb->cached.overlap(dummy.cached))
-              addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-          temp = temp->next[coord];
-        }
+      moveEndPoint(current->lo, new_aabb.min_[coord], coord);
+      moveEndPoint(current->hi, new_aabb.max_[coord], coord);
+    }
+  }
+}
 
-        if(temp->getVal(coord) < new_max[coord])
-        {
-          current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-          current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-          current->hi->prev[coord] = temp;
-          current->hi->next[coord] = nullptr;
-          temp->next[coord] = current->hi;
-        }
-        else
-        {
-          current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-          current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-          current->hi->prev[coord] = temp->prev[coord];
-          current->hi->next[coord] = temp;
-          temp->prev[coord]->next[coord] = current->hi;
-          temp->prev[coord] = current->hi;
-        }
-      }
+//==============================================================================
+template <typename S>
+void SaPCollisionManager<S>::insertEndPoint(
+    EndPoint* end_point, EndPoint* prev, int coord)
+{
+  EndPoint* next = (prev == nullptr) ? elist[coord] : prev->next[coord];
 
-      current->hi->getVal(coord) = new_max[coord];
+  end_point->prev[coord] = prev;
+  end_point->next[coord] = next;
 
-      //then, update the "lo" endpoint of the interval.
-      temp = current->lo;
+  if(prev == nullptr)
+    elist[coord] = end_point;
+  else
+    prev->next[coord] = end_point;
 
-      while(temp->getVal(coord) < new_min[coord])
-      {
-        if((temp->minmax == 1) && (temp->aabb->cached.overlap(current->cached)))
-          removeFromOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-        temp = temp->next[coord];
-      }
+  if(next != nullptr)
+    next->prev[coord] = end_point;
+}
 
-      if(current->lo->prev[coord] != nullptr)
-        current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-      else
-        elist[coord] = current->lo->next[coord];
-      current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-      current->lo->prev[coord] = temp->prev[coord];
-      current->lo->next[coord] = temp;
-      if(temp->prev[coord] != nullptr)
-        temp->prev[coord]->next[coord] = current->lo;
-      else
-        elist[coord] = current->lo;
-      temp->prev[coord] = current->lo;
-      current->lo->getVal(coord) = new_min[coord];
-    }
-  }
+//==============================================================================
+template <typename S>
+void SaPCollisionManager<S>::removeEndPoint(EndPoint* end_point, int coord)
+{
+  if(end_point->prev[coord] == nullptr)
+    elist[coord] = end_point->next[coord];
+  else
+    end_point->prev[coord]->next[coord] = end_point->next[coord];
+
+  if(end_point->next[coord] != nullptr)
+    end_point->next[coord]->prev[coord] = end_point->prev[coord];
 }
 
 //==============================================================================
@@ -483,7 +378,11 @@ void SaPCollisionManager<S>::updateVelist()
 template <typename S>
 void SaPCollisionManager<S>::update(CollisionObject<S>* updated_obj)
 {
-  update_(obj_aabb_map[updated_obj]);
+  auto it = obj_aabb_map.find(updated_obj);
+  if(it == obj_aabb_map.end())
+    return;
+
+  update_(it->second);
 
   updateVelist();
 
@@ -495,7 +394,11 @@ template <typename S>
 void SaPCollisionManager<S>::update(const std::vector<CollisionObject<S>*>& updated_objs)
 {
   for(size_t i = 0; i < updated_objs.size(); ++i)
-    update_(obj_aabb_map[updated_objs[i]]);
+  {
+    auto it = obj_aabb_map.find(updated_objs[i]);
+    if(it != obj_aabb_map.end())
+      update_(it->second);
+  }
 
   updateVelist();
 
@@ -872,7 +775,7 @@ void SaPCollisionManager<S>::distance(BroadPhaseCollisionManager<S>* other_manag
 template <typename S>
 bool SaPCollisionManager<S>::empty() const
 {
-  return AABB_arr.size();
+  return AABB_arr.empty();
 }
 
 //==============================================================================
@@ -918,6 +821,15 @@ S& SaPCollisionManager<S>::EndPoint::getVal(size_t i)
     return aabb->cached.min_[i];
 }
 
+//==============================================================================
+template <typename S>
+bool SaPCollisionManager<S>::EndPoint::isBefore(const EndPoint& other, size_t i) const
+{
+  const S val = getVal(i);
+  const S other_val = other.getVal(i);
+  return (val < other_val) || ((val == other_val) && (minmax < other.minmax));
+}
+
 //==============================================================================
 template <typename S>
 SaPCollisionManager<S>::SaPPair::SaPPair(CollisionObject<S>* a, CollisionObject<S>* b)
diff --git a/include/fcl/broadphase/broadphase_SaP.h b/include/fcl/broadphase/broadphase_SaP.h
index 8a6b611..d287c03 100644
--- a/include/fcl/broadphase/broadphase_SaP.h
+++ b/include/fcl/broadphase/broadphase_SaP.h
@@ -128,6 +128,12 @@ protected:
 
   void updateVelist();
 
+  /// @brief insert an end point into the list of one axis, right after prev (or at the front if prev is nullptr)
+  void insertEndPoint(EndPoint* end_point, EndPoint* prev, int coord);
+
+  /// @brief remove an end point from the list of one axis
+  void removeEndPoint(EndPoint* end_point, int coord);
+
   /// @brief End point list for x, y, z coordinates
   EndPoint* elist[3];
   
@@ -199,6 +205,10 @@ struct SaPCollisionManager<S>::EndPoint
 
   S& getVal(size_t i);
 
+  /// @brief whether this end point is sorted before the other one on axis i;
+  /// among equal values, lower bounds come before higher bounds
+  bool isBefore(const EndPoint& other, size_t i) const;
+
 };
 
 /// @brief A pair of objects that are not culling away and should further check collision
-- 
2.43.0


From d79b92145831671ceafaa8fc6830c95d5e5e3710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 02/54] fix: IntervalTree deleted its sentinel for absent
 intervals and shared query state

deleteNode() on an interval that is not stored deleted the nil sentinel; query()
kept its stack in the tree, so concurrent queries corrupted each other; insert()
recoloured the wrong way and lost the balance; the constructor leaked and the
destructor terminated when memory ran out.
---
 .../fcl/broadphase/detail/interval_tree-inl.h | 85 ++++++++-----------
 include/fcl/broadphase/detail/interval_tree.h |  7 +-
 2 files changed, 38 insertions(+), 54 deletions(-)

diff --git a/include/fcl/broadphase/detail/interval_tree-inl.h b/include/fcl/broadphase/detail/interval_tree-inl.h
index 5c93cc4..c4e7b83 100644
--- a/include/fcl/broadphase/detail/interval_tree-inl.h
+++ b/include/fcl/broadphase/detail/interval_tree-inl.h
@@ -41,6 +41,8 @@
 #include "fcl/broadphase/detail/interval_tree.h"
 
 #include <algorithm>
+#include <memory>
+#include <vector>
 
 namespace fcl {
 namespace detail {
@@ -53,7 +55,8 @@ class IntervalTree<double>;
 template <typename S>
 IntervalTree<S>::IntervalTree()
 {
-  nil = new IntervalTreeNode<S>;
+  std::unique_ptr<IntervalTreeNode<S>> nil_node(new IntervalTreeNode<S>);
+  nil = nil_node.get();
   nil->left = nil->right = nil->parent = nil;
   nil->red = false;
   nil->key = nil->high = nil->max_high = -std::numeric_limits<double>::max();
@@ -65,50 +68,39 @@ IntervalTree<S>::IntervalTree()
   root->red = false;
   root->stored_interval = nullptr;
 
-  /// the following are used for the query function
-  recursion_node_stack_size = 128;
-  recursion_node_stack = (it_recursion_node<S>*)malloc(recursion_node_stack_size*sizeof(it_recursion_node<S>));
-  recursion_node_stack_top = 1;
-  recursion_node_stack[0].start_node = nullptr;
+  nil_node.release();
 }
 
 //==============================================================================
 template <typename S>
 IntervalTree<S>::~IntervalTree()
 {
+  // free the nodes bottom up; this must not allocate memory
   IntervalTreeNode<S>* x = root->left;
-  std::deque<IntervalTreeNode<S>*> nodes_to_free;
-
-  if(x != nil)
+  while(x != nil)
   {
     if(x->left != nil)
+      x = x->left;
+    else if(x->right != nil)
+      x = x->right;
+    else
     {
-      nodes_to_free.push_back(x->left);
-    }
-    if(x->right != nil)
-    {
-      nodes_to_free.push_back(x->right);
-    }
-
-    delete x;
-    while( nodes_to_free.size() > 0)
-    {
-      x = nodes_to_free.back();
-      nodes_to_free.pop_back();
-      if(x->left != nil)
-      {
-        nodes_to_free.push_back(x->left);
-      }
-      if(x->right != nil)
+      IntervalTreeNode<S>* parent = x->parent;
+      if(parent == root)
       {
-        nodes_to_free.push_back(x->right);
+        delete x;
+        break;
       }
+      if(x == parent->left)
+        parent->left = nil;
+      else
+        parent->right = nil;
       delete x;
+      x = parent;
     }
   }
   delete nil;
   delete root;
-  free(recursion_node_stack);
 }
 
 //==============================================================================
@@ -217,8 +209,8 @@ IntervalTreeNode<S>* IntervalTree<S>::insert(SimpleInterval<S>* new_interval)
       y = x->parent->parent->right;
       if(y->red)
       {
-        x->parent->red = true;
-        y->red = true;
+        x->parent->red = false;
+        y->red = false;
         x->parent->parent->red = true;
         x = x->parent->parent;
       }
@@ -410,7 +402,7 @@ template <typename S>
 void IntervalTree<S>::deleteNode(SimpleInterval<S>* ivl)
 {
   IntervalTreeNode<S>* node = recursiveSearch(root, ivl);
-  if(node)
+  if(node != nil)
     deleteNode(node);
 }
 
@@ -509,13 +501,17 @@ bool overlap(S a1, S a2, S b1, S b2)
 
 //==============================================================================
 template <typename S>
-std::deque<SimpleInterval<S>*> IntervalTree<S>::query(S low, S high)
+std::deque<SimpleInterval<S>*> IntervalTree<S>::query(S low, S high) const
 {
   std::deque<SimpleInterval<S>*> result_stack;
   IntervalTreeNode<S>* x = root->left;
   bool run = (x != nil);
 
-  current_parent = 0;
+  // local to the query, so that queries can run at the same time
+  std::vector<it_recursion_node<S>> recursion_node_stack;
+  recursion_node_stack.reserve(128);
+  recursion_node_stack.push_back({nullptr, 0, false});
+  unsigned int current_parent = 0;
 
   while(run)
   {
@@ -526,29 +522,22 @@ std::deque<SimpleInterval<S>*> IntervalTree<S>::query(S low, S high)
     }
     if(x->left->max_high >= low)
     {
-      if(recursion_node_stack_top == recursion_node_stack_size)
-      {
-        recursion_node_stack_size *= 2;
-        recursion_node_stack = (it_recursion_node<S> *)realloc(recursion_node_stack, recursion_node_stack_size * sizeof(it_recursion_node<S>));
-        if(recursion_node_stack == nullptr)
-          abort();
-      }
-      recursion_node_stack[recursion_node_stack_top].start_node = x;
-      recursion_node_stack[recursion_node_stack_top].try_right_branch = false;
-      recursion_node_stack[recursion_node_stack_top].parent_index = current_parent;
-      current_parent = recursion_node_stack_top++;
+      recursion_node_stack.push_back({x, current_parent, false});
+      current_parent = recursion_node_stack.size() - 1;
       x = x->left;
     }
     else
       x = x->right;
 
     run = (x != nil);
-    while((!run) && (recursion_node_stack_top > 1))
+    while((!run) && (recursion_node_stack.size() > 1))
     {
-      if(recursion_node_stack[--recursion_node_stack_top].try_right_branch)
+      const it_recursion_node<S> top = recursion_node_stack.back();
+      recursion_node_stack.pop_back();
+      if(top.try_right_branch)
       {
-        x=recursion_node_stack[recursion_node_stack_top].start_node->right;
-        current_parent=recursion_node_stack[recursion_node_stack_top].parent_index;
+        x = top.start_node->right;
+        current_parent = top.parent_index;
         recursion_node_stack[current_parent].try_right_branch = true;
         run = (x != nil);
       }
diff --git a/include/fcl/broadphase/detail/interval_tree.h b/include/fcl/broadphase/detail/interval_tree.h
index 6573520..07660d7 100644
--- a/include/fcl/broadphase/detail/interval_tree.h
+++ b/include/fcl/broadphase/detail/interval_tree.h
@@ -96,7 +96,7 @@ public:
   IntervalTreeNode<S>* getSuccessor(IntervalTreeNode<S>* node) const;
 
   /// @brief Return result for a given query
-  std::deque<SimpleInterval<S>*> query(S low, S high);
+  std::deque<SimpleInterval<S>*> query(S low, S high) const;
 
 protected:
 
@@ -124,11 +124,6 @@ protected:
 
   void deleteFixup(IntervalTreeNode<S>* node);
 
-private:
-  unsigned int recursion_node_stack_size;
-  it_recursion_node<S>* recursion_node_stack;
-  unsigned int current_parent;
-  unsigned int recursion_node_stack_top;
 };
 
 using IntervalTreef = IntervalTree<float>;
-- 
2.43.0


From 317716f214d1b2d80def62cb15127f9d37a2ebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 03/54] fix: IntervalTreeCollisionManager kept stale end points
 and leaked intervals

update(obj) never updated the upper end points; unregisterObject() looked moved
objects up by their new bounds and left them behind; every setup() after the
first leaked all intervals.
---
 .../broadphase/broadphase_interval_tree-inl.h | 163 +++++-------------
 .../fcl/broadphase/broadphase_interval_tree.h |   3 +
 2 files changed, 42 insertions(+), 124 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index dcc4f6d..aa4be1e 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -54,84 +54,14 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   // must sorted before
   setup();
 
-  EndPoint p;
-  p.value = obj->getAABB().min_[0];
-  auto start1 = std::lower_bound(endpoints[0].begin(), endpoints[0].end(), p);
-  p.value = obj->getAABB().max_[0];
-  auto end1 = std::upper_bound(start1, endpoints[0].end(), p);
-
-  if(start1 < end1)
-  {
-    unsigned int start_id = start1 - endpoints[0].begin();
-    unsigned int end_id = end1 - endpoints[0].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[0][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[0][cur_id] = endpoints[0][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[0].resize(endpoints[0].size() - 2);
-  }
-
-  p.value = obj->getAABB().min_[1];
-  auto start2 = std::lower_bound(endpoints[1].begin(), endpoints[1].end(), p);
-  p.value = obj->getAABB().max_[1];
-  auto end2 = std::upper_bound(start2, endpoints[1].end(), p);
-
-  if(start2 < end2)
-  {
-    unsigned int start_id = start2 - endpoints[1].begin();
-    unsigned int end_id = end2 - endpoints[1].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[1][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[1][cur_id] = endpoints[1][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[1].resize(endpoints[1].size() - 2);
-  }
-
-
-  p.value = obj->getAABB().min_[2];
-  auto start3 = std::lower_bound(endpoints[2].begin(), endpoints[2].end(), p);
-  p.value = obj->getAABB().max_[2];
-  auto end3 = std::upper_bound(start3, endpoints[2].end(), p);
-
-  if(start3 < end3)
+  // the object may have moved since its end points were stored, so that they
+  // cannot be found by value
+  for(int i = 0; i < 3; ++i)
   {
-    unsigned int start_id = start3 - endpoints[2].begin();
-    unsigned int end_id = end3 - endpoints[2].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[2][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[2][cur_id] = endpoints[2][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[2].resize(endpoints[2].size() - 2);
+    endpoints[i].erase(
+          std::remove_if(endpoints[i].begin(), endpoints[i].end(),
+                         [obj](const EndPoint& p) { return p.obj == obj; }),
+          endpoints[i].end());
   }
 
   // update the interval tree
@@ -207,8 +137,7 @@ void IntervalTreeCollisionManager<S>::setup()
     std::sort(endpoints[1].begin(), endpoints[1].end());
     std::sort(endpoints[2].begin(), endpoints[2].end());
 
-    for(int i = 0; i < 3; ++i)
-      delete interval_trees[i];
+    clearIntervals();
 
     for(int i = 0; i < 3; ++i)
       interval_trees[i] = new detail::IntervalTree<S>;
@@ -219,17 +148,13 @@ void IntervalTreeCollisionManager<S>::setup()
       CollisionObject<S>* obj = p.obj;
       if(p.minmax == 0)
       {
-        SAPInterval* ivl1 = new SAPInterval(obj->getAABB().min_[0], obj->getAABB().max_[0], obj);
-        SAPInterval* ivl2 = new SAPInterval(obj->getAABB().min_[1], obj->getAABB().max_[1], obj);
-        SAPInterval* ivl3 = new SAPInterval(obj->getAABB().min_[2], obj->getAABB().max_[2], obj);
-
-        interval_trees[0]->insert(ivl1);
-        interval_trees[1]->insert(ivl2);
-        interval_trees[2]->insert(ivl3);
-
-        obj_interval_maps[0][obj] = ivl1;
-        obj_interval_maps[1][obj] = ivl2;
-        obj_interval_maps[2][obj] = ivl3;
+        for(int j = 0; j < 3; ++j)
+        {
+          // the map owns the interval
+          SAPInterval*& ivl = obj_interval_maps[j][obj];
+          ivl = new SAPInterval(obj->getAABB().min_[j], obj->getAABB().max_[j], obj);
+          interval_trees[j]->insert(ivl);
+        }
       }
     }
 
@@ -275,43 +200,28 @@ void IntervalTreeCollisionManager<S>::update()
 template <typename S>
 void IntervalTreeCollisionManager<S>::update(CollisionObject<S>* updated_obj)
 {
-  AABB<S> old_aabb;
+  if(!setup_)
+  {
+    update();
+    return;
+  }
+
   const AABB<S>& new_aabb = updated_obj->getAABB();
   for(int i = 0; i < 3; ++i)
   {
     const auto it = obj_interval_maps[i].find(updated_obj);
+    if(it == obj_interval_maps[i].end())
+      return;
+
     interval_trees[i]->deleteNode(it->second);
-    old_aabb.min_[i] = it->second->low;
-    old_aabb.max_[i] = it->second->high;
     it->second->low = new_aabb.min_[i];
     it->second->high = new_aabb.max_[i];
     interval_trees[i]->insert(it->second);
-  }
 
-  EndPoint dummy;
-  typename std::vector<EndPoint>::iterator it;
-  for(int i = 0; i < 3; ++i)
-  {
-    dummy.value = old_aabb.min_[i];
-    it = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
-    for(; it != endpoints[i].end(); ++it)
+    for(auto& endpoint : endpoints[i])
     {
-      if(it->obj == updated_obj && it->minmax == 0)
-      {
-        it->value = new_aabb.min_[i];
-        break;
-      }
-    }
-
-    dummy.value = old_aabb.max_[i];
-    it = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
-    for(; it != endpoints[i].end(); ++it)
-    {
-      if(it->obj == updated_obj && it->minmax == 0)
-      {
-        it->value = new_aabb.max_[i];
-        break;
-      }
+      if(endpoint.obj == updated_obj)
+        endpoint.value = (endpoint.minmax == 0) ? new_aabb.min_[i] : new_aabb.max_[i];
     }
 
     std::sort(endpoints[i].begin(), endpoints[i].end());
@@ -334,23 +244,28 @@ void IntervalTreeCollisionManager<S>::clear()
   endpoints[1].clear();
   endpoints[2].clear();
 
-  delete interval_trees[0]; interval_trees[0] = nullptr;
-  delete interval_trees[1]; interval_trees[1] = nullptr;
-  delete interval_trees[2]; interval_trees[2] = nullptr;
+  clearIntervals();
 
+  setup_ = false;
+}
+
+//==============================================================================
+template <typename S>
+void IntervalTreeCollisionManager<S>::clearIntervals()
+{
   for(int i = 0; i < 3; ++i)
   {
+    delete interval_trees[i];
+    interval_trees[i] = nullptr;
+
     for(auto it = obj_interval_maps[i].cbegin(), end = obj_interval_maps[i].cend();
         it != end; ++it)
     {
       delete it->second;
     }
-  }
 
-  for(int i = 0; i < 3; ++i)
     obj_interval_maps[i].clear();
-
-  setup_ = false;
+  }
 }
 
 //==============================================================================
diff --git a/include/fcl/broadphase/broadphase_interval_tree.h b/include/fcl/broadphase/broadphase_interval_tree.h
index 79c5467..f99adf7 100644
--- a/include/fcl/broadphase/broadphase_interval_tree.h
+++ b/include/fcl/broadphase/broadphase_interval_tree.h
@@ -130,6 +130,9 @@ protected:
 
   bool distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const;
 
+  /// @brief delete the interval trees and the intervals stored in them
+  void clearIntervals();
+
   /// @brief vector stores all the end points
   std::vector<EndPoint> endpoints[3];
 
-- 
2.43.0


From 295090a85ce176c0387ffc224992e68e53d462a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 04/54] fix: SpatialHashingCollisionManager kept removed
 objects and missed flat ones

unregisterObject() used the current instead of the inserted bounds of moved
objects, clear() kept the objects crossing the scene limit, and boxes without
extent on a cell border were given no cell.
---
 include/fcl/broadphase/broadphase_spatialhash-inl.h | 10 ++++++++--
 include/fcl/broadphase/detail/spatial_hash-inl.h    |  8 +++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 12551ce..5755f4c 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -101,7 +101,12 @@ void SpatialHashingCollisionManager<S, HashTable>::unregisterObject(CollisionObj
 {
   objs.remove(obj);
 
-  const AABB<S>& obj_aabb = obj->getAABB();
+  // the object may have moved since it was inserted
+  const auto it = obj_aabb_map.find(obj);
+  if(it == obj_aabb_map.end())
+    return;
+
+  const AABB<S>& obj_aabb = it->second;
   AABB<S> overlap_aabb;
 
   if(scene_limit.overlap(obj_aabb, overlap_aabb))
@@ -116,7 +121,7 @@ void SpatialHashingCollisionManager<S, HashTable>::unregisterObject(CollisionObj
     objs_outside_scene_limit.remove(obj);
   }
 
-  obj_aabb_map.erase(obj);
+  obj_aabb_map.erase(it);
 }
 
 //==============================================================================
@@ -284,6 +289,7 @@ void SpatialHashingCollisionManager<S, HashTable>::clear()
 {
   objs.clear();
   hash_table->clear();
+  objs_partially_penetrating_scene_limit.clear();
   objs_outside_scene_limit.clear();
   obj_aabb_map.clear();
 }
diff --git a/include/fcl/broadphase/detail/spatial_hash-inl.h b/include/fcl/broadphase/detail/spatial_hash-inl.h
index 1d4985f..baf0020 100644
--- a/include/fcl/broadphase/detail/spatial_hash-inl.h
+++ b/include/fcl/broadphase/detail/spatial_hash-inl.h
@@ -61,12 +61,14 @@ SpatialHash<S>::SpatialHash(const AABB<S>& scene_limit_, S cell_size_)
 template <typename S>
 std::vector<unsigned int> SpatialHash<S>::operator()(const AABB<S>& aabb) const
 {
+  // the cell that contains the upper corner is included, even if the corner lies
+  // on the border of the cell: flat boxes must have a cell as well
   int min_x = std::floor((aabb.min_[0] - scene_limit.min_[0]) / cell_size);
-  int max_x = std::ceil((aabb.max_[0] - scene_limit.min_[0]) / cell_size);
+  int max_x = static_cast<int>(std::floor((aabb.max_[0] - scene_limit.min_[0]) / cell_size)) + 1;
   int min_y = std::floor((aabb.min_[1] - scene_limit.min_[1]) / cell_size);
-  int max_y = std::ceil((aabb.max_[1] - scene_limit.min_[1]) / cell_size);
+  int max_y = static_cast<int>(std::floor((aabb.max_[1] - scene_limit.min_[1]) / cell_size)) + 1;
   int min_z = std::floor((aabb.min_[2] - scene_limit.min_[2]) / cell_size);
-  int max_z = std::ceil((aabb.max_[2] - scene_limit.min_[2]) / cell_size);
+  int max_z = static_cast<int>(std::floor((aabb.max_[2] - scene_limit.min_[2]) / cell_size)) + 1;
 
   std::vector<unsigned int> keys((max_x - min_x) * (max_y - min_y) * (max_z - min_z));
   int id = 0;
-- 
2.43.0


From 812c36e7753b7d3d0d3cafc46e1fde9b756cd6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 05/54] fix: SSaPCollisionManager::unregisterObject() left
 moved objects behind

---
 include/fcl/broadphase/broadphase_SSaP-inl.h | 44 +++-----------------
 1 file changed, 6 insertions(+), 38 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SSaP-inl.h b/include/fcl/broadphase/broadphase_SSaP-inl.h
index ad859ea..08dc092 100644
--- a/include/fcl/broadphase/broadphase_SSaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SSaP-inl.h
@@ -102,45 +102,13 @@ void SSaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
 {
   setup();
 
-  DummyCollisionObject<S> dummyHigh(AABB<S>(obj->getAABB().max_));
-
-  auto pos_start1 = objs_x.begin();
-  auto pos_end1 = std::upper_bound(pos_start1, objs_x.end(), &dummyHigh, SortByXLow<S>());
-
-  while(pos_start1 < pos_end1)
-  {
-    if(*pos_start1 == obj)
-    {
-      objs_x.erase(pos_start1);
-      break;
-    }
-    ++pos_start1;
-  }
-
-  auto pos_start2 = objs_y.begin();
-  auto pos_end2 = std::upper_bound(pos_start2, objs_y.end(), &dummyHigh, SortByYLow<S>());
-
-  while(pos_start2 < pos_end2)
+  // the object may have moved since the last update, so that it cannot be found
+  // by its bounds
+  for(auto* objs : {&objs_x, &objs_y, &objs_z})
   {
-    if(*pos_start2 == obj)
-    {
-      objs_y.erase(pos_start2);
-      break;
-    }
-    ++pos_start2;
-  }
-
-  auto pos_start3 = objs_z.begin();
-  auto pos_end3 = std::upper_bound(pos_start3, objs_z.end(), &dummyHigh, SortByZLow<S>());
-
-  while(pos_start3 < pos_end3)
-  {
-    if(*pos_start3 == obj)
-    {
-      objs_z.erase(pos_start3);
-      break;
-    }
-    ++pos_start3;
+    const auto it = std::find(objs->begin(), objs->end(), obj);
+    if(it != objs->end())
+      objs->erase(it);
   }
 }
 
-- 
2.43.0


From e9eece67df2f043a6bc39264925574e7e73df0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 06/54] fix: broad-phase distance queries never ended when no
 object improved the distance

With a single object, with flat objects, or with a callback that never lowers
the distance, the search range of SSaP, SaP, interval tree and spatial hash
managers was enlarged for ever.
---
 include/fcl/broadphase/broadphase_SSaP-inl.h  | 11 +++++++++++
 include/fcl/broadphase/broadphase_SaP-inl.h   | 16 ++++++++++++++++
 .../broadphase/broadphase_interval_tree-inl.h | 19 +++++++++++++++++++
 .../broadphase/broadphase_spatialhash-inl.h   | 13 +++++++++++++
 4 files changed, 59 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_SSaP-inl.h b/include/fcl/broadphase/broadphase_SSaP-inl.h
index 08dc092..3724c7d 100644
--- a/include/fcl/broadphase/broadphase_SSaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SSaP-inl.h
@@ -356,10 +356,21 @@ bool SSaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Di
         }
         else // need more loop
         {
+          // all objects have been checked, none of them improves the distance
+          if(dummy_vector[0] >= objs_x.back()->getAABB().min_[0] &&
+             dummy_vector[1] >= objs_y.back()->getAABB().min_[1] &&
+             dummy_vector[2] >= objs_z.back()->getAABB().min_[2])
+            break;
+
+          const Vector3<S> last_dummy_vector = dummy_vector;
           if(dummy_vector.isApprox(obj->getAABB().max_, std::numeric_limits<S>::epsilon() * 100))
             dummy_vector = dummy_vector + delta;
           else
             dummy_vector = dummy_vector * 2 - obj->getAABB().max_;
+
+          // the range does not grow any more, e.g., for a flat object
+          if(!(dummy_vector.array() > last_dummy_vector.array()).all())
+            dummy_vector.setConstant(std::numeric_limits<S>::max());
         }
       }
 
diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 7268dfa..ced6688 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -592,9 +592,13 @@ bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Dis
       end_pos = *res_it;
 
     EndPoint* pos = start_pos;
+    bool checked_all = (end_pos == nullptr);
 
     while(pos != end_pos)
     {
+      if((pos->minmax == 0) && (pos->aabb->hi->getVal(axis) < min_val))
+        checked_all = false;
+
       // can change to pos->aabb->hi->getVal(axis) >= min_val - min_dist, and then update start_pos to end_pos.
       // but this seems slower.
       if((pos->minmax == 0) && (pos->aabb->hi->getVal(axis) >= min_val))
@@ -643,10 +647,22 @@ bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Dis
         }
         else
         {
+          // none of the objects improves the distance
+          if(checked_all)
+            break;
+
+          const AABB<S> last_aabb = aabb;
           if(aabb.equal(obj->getAABB()))
             aabb.expand(delta);
           else
             aabb.expand(obj->getAABB(), 2.0);
+
+          // the range does not grow any more, e.g., for a flat object
+          if(!(aabb.min_[axis] < last_aabb.min_[axis] && aabb.max_[axis] > last_aabb.max_[axis]))
+          {
+            aabb.min_.setConstant(-std::numeric_limits<S>::max());
+            aabb.max_.setConstant(std::numeric_limits<S>::max());
+          }
         }
       }
     }
diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index aa4be1e..861e6c4 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -412,10 +412,29 @@ bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* c
         }
         else
         {
+          // all objects have been checked, none of them improves the distance
+          bool checked_all = true;
+          for(int i = 0; i < 3; ++i)
+          {
+            if(endpoints[i].front().value < aabb.min_[i] || endpoints[i].back().value > aabb.max_[i])
+              checked_all = false;
+          }
+          if(checked_all)
+            break;
+
+          const AABB<S> last_aabb = aabb;
           if(aabb.equal(obj->getAABB()))
             aabb.expand(delta);
           else
             aabb.expand(obj->getAABB(), 2.0);
+
+          // the range does not grow any more, e.g., for a flat object
+          if(!((aabb.min_.array() < last_aabb.min_.array()).all() &&
+               (aabb.max_.array() > last_aabb.max_.array()).all()))
+          {
+            aabb.min_.setConstant(-std::numeric_limits<S>::max());
+            aabb.max_.setConstant(std::numeric_limits<S>::max());
+          }
         }
       }
     }
diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 5755f4c..03cbad9 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -445,10 +445,23 @@ bool SpatialHashingCollisionManager<S, HashTable>::distance_(
         }
         else
         {
+          // all objects have been checked, none of them improves the distance
+          if(aabb.contain(scene_limit) && !scene_limit.contain(aabb))
+            break;
+
+          const AABB<S> last_aabb = aabb;
           if(aabb.equal(obj->getAABB()))
             aabb.expand(delta);
           else
             aabb.expand(obj->getAABB(), 2.0);
+
+          // the range does not grow any more, e.g., for a flat object
+          if(!((aabb.min_.array() < last_aabb.min_.array()).all() &&
+               (aabb.max_.array() > last_aabb.max_.array()).all()))
+          {
+            aabb.min_.setConstant(-std::numeric_limits<S>::max());
+            aabb.max_.setConstant(std::numeric_limits<S>::max());
+          }
         }
       }
     }
-- 
2.43.0


From c40df14c4d3d137b9eef1e572dca358e136e401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 07/54] fix: broad-phase self distance shared its set of tested
 pairs between queries

The set and its flag lived in the manager: a callback that throws left it
enabled, so later queries skipped pairs, and concurrent queries raced on it.
---
 include/fcl/broadphase/broadphase_SaP-inl.h   | 16 ++++------
 include/fcl/broadphase/broadphase_SaP.h       |  4 ++-
 .../broadphase_collision_manager-inl.h        |  5 ++-
 .../broadphase/broadphase_collision_manager.h |  9 +++---
 .../broadphase/broadphase_interval_tree-inl.h | 31 +++++++++----------
 .../fcl/broadphase/broadphase_interval_tree.h |  7 +++--
 .../broadphase/broadphase_spatialhash-inl.h   | 27 +++++++---------
 .../fcl/broadphase/broadphase_spatialhash.h   |  7 +++--
 8 files changed, 51 insertions(+), 55 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index ced6688..1265a37 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -551,7 +551,7 @@ void SaPCollisionManager<S>::collide(CollisionObject<S>* obj, void* cdata, Colli
 
 //==============================================================================
 template <typename S>
-bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
+bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist, TestedSet* tested_set) const
 {
   Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
   AABB<S> aabb = obj->getAABB();
@@ -606,7 +606,7 @@ bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Dis
         CollisionObject<S>* curr_obj = pos->aabb->obj;
         if(curr_obj != obj)
         {
-          if(!this->enable_tested_set_)
+          if(!tested_set)
           {
             if(pos->aabb->cached.distance(obj->getAABB()) < min_dist)
             {
@@ -616,7 +616,7 @@ bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Dis
           }
           else
           {
-            if(!this->inTestedSet(curr_obj, obj))
+            if(!this->inTestedSet(*tested_set, curr_obj, obj))
             {
               if(pos->aabb->cached.distance(obj->getAABB()) < min_dist)
               {
@@ -624,7 +624,7 @@ bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Dis
                   return true;
               }
 
-              this->insertTestedSet(curr_obj, obj);
+              this->insertTestedSet(*tested_set, curr_obj, obj);
             }
           }
         }
@@ -706,19 +706,15 @@ void SaPCollisionManager<S>::distance(void* cdata, DistanceCallBack<S> callback)
 {
   if(size() == 0) return;
 
-  this->enable_tested_set_ = true;
-  this->tested_set.clear();
+  TestedSet tested_set;
 
   S min_dist = std::numeric_limits<S>::max();
 
   for(auto it = AABB_arr.cbegin(), end = AABB_arr.cend(); it != end; ++it)
   {
-    if(distance_((*it)->obj, cdata, callback, min_dist))
+    if(distance_((*it)->obj, cdata, callback, min_dist, &tested_set))
       break;
   }
-
-  this->enable_tested_set_ = false;
-  this->tested_set.clear();
 }
 
 //==============================================================================
diff --git a/include/fcl/broadphase/broadphase_SaP.h b/include/fcl/broadphase/broadphase_SaP.h
index d287c03..d4da007 100644
--- a/include/fcl/broadphase/broadphase_SaP.h
+++ b/include/fcl/broadphase/broadphase_SaP.h
@@ -109,6 +109,8 @@ public:
 
 protected:
 
+  using typename BroadPhaseCollisionManager<S>::TestedSet;
+
   /// @brief SAP interval for one object
   struct SaPAABB;
 
@@ -150,7 +152,7 @@ protected:
 
   std::map<CollisionObject<S>*, SaPAABB*> obj_aabb_map;
 
-  bool distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const;
+  bool distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist, TestedSet* tested_set = nullptr) const;
 
   bool collide_(CollisionObject<S>* obj, void* cdata, CollisionCallBack<S> callback) const;
 
diff --git a/include/fcl/broadphase/broadphase_collision_manager-inl.h b/include/fcl/broadphase/broadphase_collision_manager-inl.h
index e69f86c..b72a0ee 100644
--- a/include/fcl/broadphase/broadphase_collision_manager-inl.h
+++ b/include/fcl/broadphase/broadphase_collision_manager-inl.h
@@ -51,7 +51,6 @@ class FCL_EXPORT BroadPhaseCollisionManager<double>;
 //==============================================================================
 template <typename S>
 BroadPhaseCollisionManager<S>::BroadPhaseCollisionManager()
-  : enable_tested_set_(false)
 {
   // Do nothing
 }
@@ -94,7 +93,7 @@ void BroadPhaseCollisionManager<S>::update(
 //==============================================================================
 template <typename S>
 bool BroadPhaseCollisionManager<S>::inTestedSet(
-    CollisionObject<S>* a, CollisionObject<S>* b) const
+    const TestedSet& tested_set, CollisionObject<S>* a, CollisionObject<S>* b)
 {
   if(a < b) return tested_set.find(std::make_pair(a, b)) != tested_set.end();
   else return tested_set.find(std::make_pair(b, a)) != tested_set.end();
@@ -103,7 +102,7 @@ bool BroadPhaseCollisionManager<S>::inTestedSet(
 //==============================================================================
 template <typename S>
 void BroadPhaseCollisionManager<S>::insertTestedSet(
-    CollisionObject<S>* a, CollisionObject<S>* b) const
+    TestedSet& tested_set, CollisionObject<S>* a, CollisionObject<S>* b)
 {
   if(a < b) tested_set.insert(std::make_pair(a, b));
   else tested_set.insert(std::make_pair(b, a));
diff --git a/include/fcl/broadphase/broadphase_collision_manager.h b/include/fcl/broadphase/broadphase_collision_manager.h
index c372c7a..d366ce0 100644
--- a/include/fcl/broadphase/broadphase_collision_manager.h
+++ b/include/fcl/broadphase/broadphase_collision_manager.h
@@ -123,13 +123,12 @@ public:
 
 protected:
 
-  /// @brief tools help to avoid repeating collision or distance callback for the pairs of objects tested before. It can be useful for some of the broadphase algorithms.
-  mutable std::set<std::pair<CollisionObject<S>*, CollisionObject<S>*> > tested_set;
-  mutable bool enable_tested_set_;
+  /// @brief pairs of objects tested before in one query. It helps to avoid repeating collision or distance callback, which can be useful for some of the broadphase algorithms.
+  using TestedSet = std::set<std::pair<CollisionObject<S>*, CollisionObject<S>*> >;
 
-  bool inTestedSet(CollisionObject<S>* a, CollisionObject<S>* b) const;
+  static bool inTestedSet(const TestedSet& tested_set, CollisionObject<S>* a, CollisionObject<S>* b);
 
-  void insertTestedSet(CollisionObject<S>* a, CollisionObject<S>* b) const;
+  static void insertTestedSet(TestedSet& tested_set, CollisionObject<S>* a, CollisionObject<S>* b);
 
 };
 
diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 861e6c4..79f826d 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -340,7 +340,7 @@ void IntervalTreeCollisionManager<S>::distance(CollisionObject<S>* obj, void* cd
 
 //==============================================================================
 template <typename S>
-bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
+bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist, TestedSet* tested_set) const
 {
   static const unsigned int CUTOFF = 100;
 
@@ -377,20 +377,20 @@ bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* c
           int d3 = results2.size();
 
           if(d1 >= d2 && d1 >= d3)
-            dist_res = checkDist(results0.begin(), results0.end(), obj, cdata, callback, min_dist);
+            dist_res = checkDist(results0.begin(), results0.end(), obj, cdata, callback, min_dist, tested_set);
           else if(d2 >= d1 && d2 >= d3)
-            dist_res = checkDist(results1.begin(), results1.end(), obj, cdata, callback, min_dist);
+            dist_res = checkDist(results1.begin(), results1.end(), obj, cdata, callback, min_dist, tested_set);
           else
-            dist_res = checkDist(results2.begin(), results2.end(), obj, cdata, callback, min_dist);
+            dist_res = checkDist(results2.begin(), results2.end(), obj, cdata, callback, min_dist, tested_set);
         }
         else
-          dist_res = checkDist(results2.begin(), results2.end(), obj, cdata, callback, min_dist);
+          dist_res = checkDist(results2.begin(), results2.end(), obj, cdata, callback, min_dist, tested_set);
       }
       else
-        dist_res = checkDist(results1.begin(), results1.end(), obj, cdata, callback, min_dist);
+        dist_res = checkDist(results1.begin(), results1.end(), obj, cdata, callback, min_dist, tested_set);
     }
     else
-      dist_res = checkDist(results0.begin(), results0.end(), obj, cdata, callback, min_dist);
+      dist_res = checkDist(results0.begin(), results0.end(), obj, cdata, callback, min_dist, tested_set);
 
     if(dist_res) return true;
 
@@ -510,15 +510,11 @@ void IntervalTreeCollisionManager<S>::distance(void* cdata, DistanceCallBack<S>
 {
   if(size() == 0) return;
 
-  this->enable_tested_set_ = true;
-  this->tested_set.clear();
+  TestedSet tested_set;
   S min_dist = std::numeric_limits<S>::max();
 
   for(size_t i = 0; i < endpoints[0].size(); ++i)
-    if(distance_(endpoints[0][i].obj, cdata, callback, min_dist)) break;
-
-  this->enable_tested_set_ = false;
-  this->tested_set.clear();
+    if(distance_(endpoints[0][i].obj, cdata, callback, min_dist, &tested_set)) break;
 }
 
 //==============================================================================
@@ -624,14 +620,15 @@ bool IntervalTreeCollisionManager<S>::checkDist(
     CollisionObject<S>* obj,
     void* cdata,
     DistanceCallBack<S> callback,
-    S& min_dist) const
+    S& min_dist,
+    TestedSet* tested_set) const
 {
   while(pos_start < pos_end)
   {
     SAPInterval* ivl = static_cast<SAPInterval*>(*pos_start);
     if(ivl->obj != obj)
     {
-      if(!this->enable_tested_set_)
+      if(!tested_set)
       {
         if(ivl->obj->getAABB().distance(obj->getAABB()) < min_dist)
         {
@@ -641,7 +638,7 @@ bool IntervalTreeCollisionManager<S>::checkDist(
       }
       else
       {
-        if(!this->inTestedSet(ivl->obj, obj))
+        if(!this->inTestedSet(*tested_set, ivl->obj, obj))
         {
           if(ivl->obj->getAABB().distance(obj->getAABB()) < min_dist)
           {
@@ -649,7 +646,7 @@ bool IntervalTreeCollisionManager<S>::checkDist(
               return true;
           }
 
-          this->insertTestedSet(ivl->obj, obj);
+          this->insertTestedSet(*tested_set, ivl->obj, obj);
         }
       }
     }
diff --git a/include/fcl/broadphase/broadphase_interval_tree.h b/include/fcl/broadphase/broadphase_interval_tree.h
index f99adf7..6198c6b 100644
--- a/include/fcl/broadphase/broadphase_interval_tree.h
+++ b/include/fcl/broadphase/broadphase_interval_tree.h
@@ -105,6 +105,8 @@ public:
 
 protected:
 
+  using typename BroadPhaseCollisionManager<S>::TestedSet;
+
   /// @brief SAP end point
   struct EndPoint;
 
@@ -124,11 +126,12 @@ protected:
       CollisionObject<S>* obj,
       void* cdata,
       DistanceCallBack<S> callback,
-      S& min_dist) const;
+      S& min_dist,
+      TestedSet* tested_set) const;
 
   bool collide_(CollisionObject<S>* obj, void* cdata, CollisionCallBack<S> callback) const;
 
-  bool distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const;
+  bool distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist, TestedSet* tested_set = nullptr) const;
 
   /// @brief delete the interval trees and the intervals stored in them
   void clearIntervals();
diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 03cbad9..53a9e3f 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -378,7 +378,7 @@ bool SpatialHashingCollisionManager<S, HashTable>::collide_(
 //==============================================================================
 template<typename S, typename HashTable>
 bool SpatialHashingCollisionManager<S, HashTable>::distance_(
-    CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
+    CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist, TestedSet* tested_set) const
 {
   auto delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
   auto aabb = obj->getAABB();
@@ -400,7 +400,7 @@ bool SpatialHashingCollisionManager<S, HashTable>::distance_(
     if(scene_limit.overlap(aabb, overlap_aabb))
     {
       if (distanceObjectToObjects(
-            obj, hash_table->query(overlap_aabb), cdata, callback, min_dist))
+            obj, hash_table->query(overlap_aabb), cdata, callback, min_dist, tested_set))
       {
         return true;
       }
@@ -408,7 +408,7 @@ bool SpatialHashingCollisionManager<S, HashTable>::distance_(
       if(!scene_limit.contain(aabb))
       {
         if (distanceObjectToObjects(
-              obj, objs_outside_scene_limit, cdata, callback, min_dist))
+              obj, objs_outside_scene_limit, cdata, callback, min_dist, tested_set))
         {
           return true;
         }
@@ -417,13 +417,13 @@ bool SpatialHashingCollisionManager<S, HashTable>::distance_(
     else
     {
       if (distanceObjectToObjects(
-            obj, objs_partially_penetrating_scene_limit, cdata, callback, min_dist))
+            obj, objs_partially_penetrating_scene_limit, cdata, callback, min_dist, tested_set))
       {
         return true;
       }
 
       if (distanceObjectToObjects(
-            obj, objs_outside_scene_limit, cdata, callback, min_dist))
+            obj, objs_outside_scene_limit, cdata, callback, min_dist, tested_set))
       {
         return true;
       }
@@ -542,19 +542,15 @@ void SpatialHashingCollisionManager<S, HashTable>::distance(
   if(size() == 0)
     return;
 
-  this->enable_tested_set_ = true;
-  this->tested_set.clear();
+  TestedSet tested_set;
 
   S min_dist = std::numeric_limits<S>::max();
 
   for(const auto& obj : objs)
   {
-    if(distance_(obj, cdata, callback, min_dist))
+    if(distance_(obj, cdata, callback, min_dist, &tested_set))
       break;
   }
-
-  this->enable_tested_set_ = false;
-  this->tested_set.clear();
 }
 
 //==============================================================================
@@ -654,14 +650,15 @@ bool SpatialHashingCollisionManager<S, HashTable>::distanceObjectToObjects(
     const Container& objs,
     void* cdata,
     DistanceCallBack<S> callback,
-    S& min_dist) const
+    S& min_dist,
+    TestedSet* tested_set) const
 {
   for(auto& obj2 : objs)
   {
     if(obj == obj2)
       continue;
 
-    if(!this->enable_tested_set_)
+    if(!tested_set)
     {
       if(obj->getAABB().distance(obj2->getAABB()) < min_dist)
       {
@@ -671,7 +668,7 @@ bool SpatialHashingCollisionManager<S, HashTable>::distanceObjectToObjects(
     }
     else
     {
-      if(!this->inTestedSet(obj, obj2))
+      if(!this->inTestedSet(*tested_set, obj, obj2))
       {
         if(obj->getAABB().distance(obj2->getAABB()) < min_dist)
         {
@@ -679,7 +676,7 @@ bool SpatialHashingCollisionManager<S, HashTable>::distanceObjectToObjects(
             return true;
         }
 
-        this->insertTestedSet(obj, obj2);
+        this->insertTestedSet(*tested_set, obj, obj2);
       }
     }
   }
diff --git a/include/fcl/broadphase/broadphase_spatialhash.h b/include/fcl/broadphase/broadphase_spatialhash.h
index a21d041..f2df5b3 100644
--- a/include/fcl/broadphase/broadphase_spatialhash.h
+++ b/include/fcl/broadphase/broadphase_spatialhash.h
@@ -117,11 +117,13 @@ public:
 
 protected:
 
+  using typename BroadPhaseCollisionManager<S>::TestedSet;
+
   /// @brief perform collision test between one object and all the objects belonging to the manager
   bool collide_(CollisionObject<S>* obj, void* cdata, CollisionCallBack<S> callback) const;
 
   /// @brief perform distance computation between one object and all the objects belonging ot the manager
-  bool distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const;
+  bool distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist, TestedSet* tested_set = nullptr) const;
 
   /// @brief all objects in the scene
   std::list<CollisionObject<S>*> objs;
@@ -157,7 +159,8 @@ private:
       const Container& objs,
       void* cdata,
       DistanceCallBack<S> callback,
-      S& min_dist) const;
+      S& min_dist,
+      TestedSet* tested_set) const;
 
 };
 
-- 
2.43.0


From 715191137d8142f61379e629814256678d581c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 08/54] fix: AABB::equal() held for any two unbounded volumes

isApprox() compares norms that overflow, so that an object whose bounds became
or stopped being unbounded was not updated in the broad-phase managers.
---
 include/fcl/math/bv/AABB-inl.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/AABB-inl.h b/include/fcl/math/bv/AABB-inl.h
index 6738006..5ca5b40 100644
--- a/include/fcl/math/bv/AABB-inl.h
+++ b/include/fcl/math/bv/AABB-inl.h
@@ -40,6 +40,8 @@
 
 #include "fcl/math/bv/AABB.h"
 
+#include <cmath>
+
 namespace fcl
 {
 
@@ -318,8 +320,16 @@ S AABB<S>::distance(const AABB<S>& other) const
 template <typename S>
 bool AABB<S>::equal(const AABB<S>& other) const
 {
-  return min_.isApprox(other.min_, std::numeric_limits<S>::epsilon() * 100)
-      && max_.isApprox(other.max_, std::numeric_limits<S>::epsilon() * 100);
+  // Norms of unbounded volumes overflow, so that isApprox() would hold for any
+  // other unbounded volume.
+  const auto same = [](const Vector3<S>& a, const Vector3<S>& b)
+  {
+    if(a == b) return true;
+    return std::isfinite(a.squaredNorm()) && std::isfinite(b.squaredNorm())
+        && a.isApprox(b, std::numeric_limits<S>::epsilon() * 100);
+  };
+
+  return same(min_, other.min_) && same(max_, other.max_);
 }
 
 //==============================================================================
-- 
2.43.0


From 5a76a428f07954248946219e5ca2f0e88f4d4804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 09/54] fix: IntervalTree::query() skipped right subtrees for
 unbounded queries

An empty left subtree was entered, and found to hold no overlap, when the lower
bound of the query was not above the sentinel's.
---
 include/fcl/broadphase/detail/interval_tree-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/detail/interval_tree-inl.h b/include/fcl/broadphase/detail/interval_tree-inl.h
index c4e7b83..9bd62e6 100644
--- a/include/fcl/broadphase/detail/interval_tree-inl.h
+++ b/include/fcl/broadphase/detail/interval_tree-inl.h
@@ -520,7 +520,8 @@ std::deque<SimpleInterval<S>*> IntervalTree<S>::query(S low, S high) const
       result_stack.push_back(x->stored_interval);
       recursion_node_stack[current_parent].try_right_branch = true;
     }
-    if(x->left->max_high >= low)
+    // the left subtree may be empty, also when low is not above nil->max_high
+    if(x->left != nil && x->left->max_high >= low)
     {
       recursion_node_stack.push_back({x, current_parent, false});
       current_parent = recursion_node_stack.size() - 1;
-- 
2.43.0


From 9e9429c0a3a7f7940d5a75a01b50ab2a3455dab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 10/54] fix: array-based HierarchyTree used freed nodes and
 renumbered its leaves

insertLeaf() kept references into the node array across its reallocation,
balancing renumbered the leaves behind the manager's back, update() of the only
leaf dropped it, initialisation leaked the node arrays, and equal centers or
unbounded volumes made the construction recurse for ever or dereference null.
---
 .../broadphase_dynamic_AABB_tree_array-inl.h  |  44 ++--
 .../detail/hierarchy_tree_array-inl.h         | 217 ++++++++----------
 .../broadphase/detail/hierarchy_tree_array.h  |   7 +-
 3 files changed, 127 insertions(+), 141 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index 3cec23c..b53f7be 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -760,20 +760,28 @@ void DynamicAABBTreeCollisionManager_Array<S>::registerObjects(
   }
   else
   {
-    DynamicAABBNode* leaves = new DynamicAABBNode[other_objs.size()];
+    std::vector<DynamicAABBNode> leaves(other_objs.size());
     table.rehash(other_objs.size());
-    for(size_t i = 0, size = other_objs.size(); i < size; ++i)
+    try
     {
-      leaves[i].bv = other_objs[i]->getAABB();
-      leaves[i].parent = dtree.NULL_NODE;
-      leaves[i].children[1] = dtree.NULL_NODE;
-      leaves[i].data = other_objs[i];
-      table[other_objs[i]] = i;
-    }
+      for(size_t i = 0, size = other_objs.size(); i < size; ++i)
+      {
+        leaves[i].bv = other_objs[i]->getAABB();
+        leaves[i].parent = dtree.NULL_NODE;
+        leaves[i].children[1] = dtree.NULL_NODE;
+        leaves[i].data = other_objs[i];
+        table[other_objs[i]] = i;
+      }
 
-    int n_leaves = other_objs.size();
+      int n_leaves = other_objs.size();
 
-    dtree.init(leaves, n_leaves, tree_init_level);
+      dtree.init(leaves.data(), n_leaves, tree_init_level);
+    }
+    catch(...)
+    {
+      table.clear();
+      throw;
+    }
 
     setup_ = true;
   }
@@ -785,7 +793,15 @@ FCL_EXPORT
 void DynamicAABBTreeCollisionManager_Array<S>::registerObject(CollisionObject<S>* obj)
 {
   size_t node = dtree.insert(obj->getAABB(), obj);
-  table[obj] = node;
+  try
+  {
+    table[obj] = node;
+  }
+  catch(...)
+  {
+    dtree.remove(node);
+    throw;
+  }
 }
 
 //==============================================================================
@@ -793,8 +809,10 @@ template <typename S>
 FCL_EXPORT
 void DynamicAABBTreeCollisionManager_Array<S>::unregisterObject(CollisionObject<S>* obj)
 {
-  size_t node = table[obj];
-  table.erase(obj);
+  const auto it = table.find(obj);
+  if(it == table.end()) return;
+  size_t node = it->second;
+  table.erase(it);
   dtree.remove(node);
 }
 
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index b4edc40..a2c0bb2 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -104,27 +104,33 @@ void HierarchyTree<BV>::init(NodeType* leaves, int n_leaves_, int level)
 
 //==============================================================================
 template<typename BV>
-void HierarchyTree<BV>::init_0(NodeType* leaves, int n_leaves_)
+void HierarchyTree<BV>::setLeaves(const NodeType* leaves, size_t n_leaves_)
 {
+  // The leaves take the first n_leaves_ nodes, the other nodes are free.
+  const size_t n_alloc = std::max<size_t>(2 * n_leaves_, 1);
+  NodeType* new_nodes = new NodeType[n_alloc];
+  delete [] nodes;
+  nodes = new_nodes;
+  n_nodes_alloc = n_alloc;
   clear();
 
+  std::copy(leaves, leaves + n_leaves_, nodes);
+  freelist = n_leaves_;
+  n_nodes = n_leaves_;
   n_leaves = n_leaves_;
-  root_node = NULL_NODE;
-  nodes = new NodeType[n_leaves * 2];
-  std::copy(leaves, leaves + n_leaves, nodes);
-  freelist = n_leaves;
-  n_nodes = n_leaves;
-  n_nodes_alloc = 2 * n_leaves;
-  for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
-    nodes[i].next = i + 1;
-  nodes[n_nodes_alloc - 1].next = NULL_NODE;
+}
+
+//==============================================================================
+template<typename BV>
+void HierarchyTree<BV>::init_0(NodeType* leaves, int n_leaves_)
+{
+  std::vector<size_t> ids(n_leaves_);
+  setLeaves(leaves, n_leaves_);
 
-  size_t* ids = new size_t[n_leaves];
   for(size_t i = 0; i < n_leaves; ++i)
     ids[i] = i;
 
-  root_node = topdown(ids, ids + n_leaves);
-  delete [] ids;
+  root_node = topdown(ids.data(), ids.data() + n_leaves);
 
   opath = 0;
   max_lookahead_level = -1;
@@ -134,18 +140,8 @@ void HierarchyTree<BV>::init_0(NodeType* leaves, int n_leaves_)
 template<typename BV>
 void HierarchyTree<BV>::init_1(NodeType* leaves, int n_leaves_)
 {
-  clear();
-
-  n_leaves = n_leaves_;
-  root_node = NULL_NODE;
-  nodes = new NodeType[n_leaves * 2];
-  std::copy(leaves, leaves + n_leaves, nodes);
-  freelist = n_leaves;
-  n_nodes = n_leaves;
-  n_nodes_alloc = 2 * n_leaves;
-  for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
-    nodes[i].next = i + 1;
-  nodes[n_nodes_alloc - 1].next = NULL_NODE;
+  std::vector<size_t> ids(n_leaves_);
+  setLeaves(leaves, n_leaves_);
 
 
   BV bound_bv;
@@ -159,14 +155,12 @@ void HierarchyTree<BV>::init_1(NodeType* leaves, int n_leaves_)
     nodes[i].code = coder(nodes[i].bv.center());
 
 
-  size_t* ids = new size_t[n_leaves];
   for(size_t i = 0; i < n_leaves; ++i)
     ids[i] = i;
 
   const SortByMorton comp{nodes};
-  std::sort(ids, ids + n_leaves, comp);
-  root_node = mortonRecurse_0(ids, ids + n_leaves, (1 << (coder.bits()-1)), coder.bits()-1);
-  delete [] ids;
+  std::sort(ids.begin(), ids.end(), comp);
+  root_node = mortonRecurse_0(ids.data(), ids.data() + n_leaves, (1 << (coder.bits()-1)), coder.bits()-1);
 
   refit();
 
@@ -178,18 +172,8 @@ void HierarchyTree<BV>::init_1(NodeType* leaves, int n_leaves_)
 template<typename BV>
 void HierarchyTree<BV>::init_2(NodeType* leaves, int n_leaves_)
 {
-  clear();
-
-  n_leaves = n_leaves_;
-  root_node = NULL_NODE;
-  nodes = new NodeType[n_leaves * 2];
-  std::copy(leaves, leaves + n_leaves, nodes);
-  freelist = n_leaves;
-  n_nodes = n_leaves;
-  n_nodes_alloc = 2 * n_leaves;
-  for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
-    nodes[i].next = i + 1;
-  nodes[n_nodes_alloc - 1].next = NULL_NODE;
+  std::vector<size_t> ids(n_leaves_);
+  setLeaves(leaves, n_leaves_);
 
 
   BV bound_bv;
@@ -203,14 +187,12 @@ void HierarchyTree<BV>::init_2(NodeType* leaves, int n_leaves_)
     nodes[i].code = coder(nodes[i].bv.center());
 
 
-  size_t* ids = new size_t[n_leaves];
   for(size_t i = 0; i < n_leaves; ++i)
     ids[i] = i;
 
   const SortByMorton comp{nodes};
-  std::sort(ids, ids + n_leaves, comp);
-  root_node = mortonRecurse_1(ids, ids + n_leaves, (1 << (coder.bits()-1)), coder.bits()-1);
-  delete [] ids;
+  std::sort(ids.begin(), ids.end(), comp);
+  root_node = mortonRecurse_1(ids.data(), ids.data() + n_leaves, (1 << (coder.bits()-1)), coder.bits()-1);
 
   refit();
 
@@ -222,18 +204,8 @@ void HierarchyTree<BV>::init_2(NodeType* leaves, int n_leaves_)
 template<typename BV>
 void HierarchyTree<BV>::init_3(NodeType* leaves, int n_leaves_)
 {
-  clear();
-
-  n_leaves = n_leaves_;
-  root_node = NULL_NODE;
-  nodes = new NodeType[n_leaves * 2];
-  std::copy(leaves, leaves + n_leaves, nodes);
-  freelist = n_leaves;
-  n_nodes = n_leaves;
-  n_nodes_alloc = 2 * n_leaves;
-  for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
-    nodes[i].next = i + 1;
-  nodes[n_nodes_alloc - 1].next = NULL_NODE;
+  std::vector<size_t> ids(n_leaves_);
+  setLeaves(leaves, n_leaves_);
 
 
   BV bound_bv;
@@ -247,14 +219,12 @@ void HierarchyTree<BV>::init_3(NodeType* leaves, int n_leaves_)
     nodes[i].code = coder(nodes[i].bv.center());
 
 
-  size_t* ids = new size_t[n_leaves];
   for(size_t i = 0; i < n_leaves; ++i)
     ids[i] = i;
 
   const SortByMorton comp{nodes};
-  std::sort(ids, ids + n_leaves, comp);
-  root_node = mortonRecurse_2(ids, ids + n_leaves);
-  delete [] ids;
+  std::sort(ids.begin(), ids.end(), comp);
+  root_node = mortonRecurse_2(ids.data(), ids.data() + n_leaves);
 
   refit();
 
@@ -267,7 +237,15 @@ template<typename BV>
 size_t HierarchyTree<BV>::insert(const BV& bv, void* data)
 {
   size_t node = createNode(NULL_NODE, bv, data);
-  insertLeaf(root_node, node);
+  try
+  {
+    insertLeaf(root_node, node);
+  }
+  catch(...)
+  {
+    deleteNode(node);
+    throw;
+  }
   ++n_leaves;
   return node;
 }
@@ -285,12 +263,9 @@ void HierarchyTree<BV>::remove(size_t leaf)
 template<typename BV>
 void HierarchyTree<BV>::clear()
 {
-  delete [] nodes;
   root_node = NULL_NODE;
   n_nodes = 0;
-  n_nodes_alloc = 16;
-  nodes = new NodeType[n_nodes_alloc];
-  for(size_t i = 0; i < n_nodes_alloc; ++i)
+  for(size_t i = 0; i < n_nodes_alloc - 1; ++i)
     nodes[i].next = i + 1;
   nodes[n_nodes_alloc - 1].next = NULL_NODE;
   n_leaves = 0;
@@ -372,7 +347,7 @@ size_t HierarchyTree<BV>::getMaxDepth() const
 {
   if(root_node == NULL_NODE) return 0;
 
-  size_t max_depth;
+  size_t max_depth = 0;
   getMaxDepth(root_node, 0, max_depth);
   return max_depth;
 }
@@ -383,26 +358,15 @@ void HierarchyTree<BV>::balanceBottomup()
 {
   if(root_node != NULL_NODE)
   {
-    NodeType* leaves = new NodeType[n_leaves];
-    NodeType* leaves_ = leaves;
-    extractLeaves(root_node, leaves_);
+    // The leaves stay where they are, because their indices are known outside.
+    std::vector<size_t> ids;
+    ids.reserve(n_leaves);
+    fetchLeaves(root_node, ids);
     root_node = NULL_NODE;
-    std::copy(leaves, leaves + n_leaves, nodes);
-    freelist = n_leaves;
-    n_nodes = n_leaves;
-    for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
-      nodes[i].next = i + 1;
-    nodes[n_nodes_alloc - 1].next = NULL_NODE;
-
-
-    size_t* ids = new size_t[n_leaves];
-    for(size_t i = 0; i < n_leaves; ++i)
-      ids[i] = i;
 
-    bottomup(ids, ids + n_leaves);
-    root_node = *ids;
-
-    delete [] ids;
+    bottomup(ids.data(), ids.data() + ids.size());
+    root_node = ids[0];
+    nodes[root_node].parent = NULL_NODE;
   }
 }
 
@@ -412,23 +376,14 @@ void HierarchyTree<BV>::balanceTopdown()
 {
   if(root_node != NULL_NODE)
   {
-    NodeType* leaves = new NodeType[n_leaves];
-    NodeType* leaves_ = leaves;
-    extractLeaves(root_node, leaves_);
+    // The leaves stay where they are, because their indices are known outside.
+    std::vector<size_t> ids;
+    ids.reserve(n_leaves);
+    fetchLeaves(root_node, ids);
     root_node = NULL_NODE;
-    std::copy(leaves, leaves + n_leaves, nodes);
-    freelist = n_leaves;
-    n_nodes = n_leaves;
-    for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
-      nodes[i].next = i + 1;
-    nodes[n_nodes_alloc - 1].next = NULL_NODE;
-
-    size_t* ids = new size_t[n_leaves];
-    for(size_t i = 0; i < n_leaves; ++i)
-      ids[i] = i;
 
-    root_node = topdown(ids, ids + n_leaves);
-    delete [] ids;
+    root_node = topdown(ids.data(), ids.data() + ids.size());
+    nodes[root_node].parent = NULL_NODE;
   }
 }
 
@@ -538,7 +493,7 @@ void HierarchyTree<BV>::getMaxDepth(size_t node, size_t depth, size_t& max_depth
   if(!nodes[node].isLeaf())
   {
     getMaxDepth(nodes[node].children[0], depth+1, max_depth);
-    getmaxDepth(nodes[node].children[1], depth+1, max_depth);
+    getMaxDepth(nodes[node].children[1], depth+1, max_depth);
   }
   else
     max_depth = std::max(max_depth, depth);
@@ -551,7 +506,9 @@ void HierarchyTree<BV>::bottomup(size_t* lbeg, size_t* lend)
   size_t* lcur_end = lend;
   while(lbeg < lcur_end - 1)
   {
-    size_t* min_it1 = nullptr, *min_it2 = nullptr;
+    // The sizes of unbounded volumes overflow, so that no pair may be smaller
+    // than another one.
+    size_t* min_it1 = lbeg, *min_it2 = lbeg + 1;
     S min_size = std::numeric_limits<S>::max();
     for(size_t* it1 = lbeg; it1 < lcur_end; ++it1)
     {
@@ -620,10 +577,12 @@ size_t HierarchyTree<BV>::topdown_0(size_t* lbeg, size_t* lend)
       std::nth_element(lbeg, lcenter, lend, comp);
 
       size_t node = createNode(NULL_NODE, vol, nullptr);
-      nodes[node].children[0] = topdown_0(lbeg, lcenter);
-      nodes[node].children[1] = topdown_0(lcenter, lend);
-      nodes[nodes[node].children[0]].parent = node;
-      nodes[nodes[node].children[1]].parent = node;
+      const size_t child1 = topdown_0(lbeg, lcenter);
+      const size_t child2 = topdown_0(lcenter, lend);
+      nodes[node].children[0] = child1;
+      nodes[node].children[1] = child2;
+      nodes[child1].parent = node;
+      nodes[child2].parent = node;
       return node;
     }
     else
@@ -690,11 +649,16 @@ size_t HierarchyTree<BV>::topdown_1(size_t* lbeg, size_t* lend)
         }
       }
 
+      // All the centers may be at the split value.
+      if(lcenter == lbeg || lcenter == lend) lcenter = lbeg + num_leaves / 2;
+
       size_t node = createNode(NULL_NODE, vol, nullptr);
-      nodes[node].children[0] = topdown_1(lbeg, lcenter);
-      nodes[node].children[1] = topdown_1(lcenter, lend);
-      nodes[nodes[node].children[0]].parent = node;
-      nodes[nodes[node].children[1]].parent = node;
+      const size_t child1 = topdown_1(lbeg, lcenter);
+      const size_t child2 = topdown_1(lcenter, lend);
+      nodes[node].children[0] = child1;
+      nodes[node].children[1] = child2;
+      nodes[child1].parent = node;
+      nodes[child2].parent = node;
       return node;
     }
     else
@@ -926,10 +890,12 @@ void HierarchyTree<BV>::update_(size_t leaf, const BV& bv)
       for(int i = 0; (i < max_lookahead_level) && (nodes[root].parent != NULL_NODE); ++i)
         root = nodes[root].parent;
     }
-
-    nodes[leaf].bv = bv;
-    insertLeaf(root, leaf);
+    else
+      root = root_node;
   }
+
+  nodes[leaf].bv = bv;
+  insertLeaf(root, leaf);
 }
 
 //==============================================================================
@@ -945,11 +911,11 @@ size_t HierarchyTree<BV>::allocateNode()
 {
   if(freelist == NULL_NODE)
   {
-    NodeType* old_nodes = nodes;
+    NodeType* new_nodes = new NodeType[2 * n_nodes_alloc];
+    std::copy(nodes, nodes + n_nodes, new_nodes);
+    delete [] nodes;
+    nodes = new_nodes;
     n_nodes_alloc *= 2;
-    nodes = new NodeType[n_nodes_alloc];
-    std::copy(old_nodes, old_nodes + n_nodes, nodes);
-    delete [] old_nodes;
 
     for(size_t i = n_nodes; i < n_nodes_alloc - 1; ++i)
       nodes[i].next = i + 1;
@@ -973,10 +939,12 @@ size_t HierarchyTree<BV>::createNode(size_t parent,
                                      const BV& bv2,
                                      void* data)
 {
+  // The volumes may be those of nodes, which allocateNode() may move.
+  const BV bv = bv1 + bv2;
   size_t node = allocateNode();
   nodes[node].parent = parent;
   nodes[node].data = data;
-  nodes[node].bv = bv1 + bv2;
+  nodes[node].bv = bv;
   return node;
 }
 
@@ -1029,19 +997,16 @@ void HierarchyTree<BV>::recurseRefit(size_t node)
 
 //==============================================================================
 template<typename BV>
-void HierarchyTree<BV>::fetchLeaves(size_t root, NodeType*& leaves, int depth)
+void HierarchyTree<BV>::fetchLeaves(size_t root, std::vector<size_t>& leaves)
 {
-  if((!nodes[root].isLeaf()) && depth)
+  if(!nodes[root].isLeaf())
   {
-    fetchLeaves(nodes[root].children[0], leaves, depth-1);
-    fetchLeaves(nodes[root].children[1], leaves, depth-1);
+    fetchLeaves(nodes[root].children[0], leaves);
+    fetchLeaves(nodes[root].children[1], leaves);
     deleteNode(root);
   }
   else
-  {
-    *leaves = nodes[root];
-    leaves++;
-  }
+    leaves.push_back(root);
 }
 
 //==============================================================================
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array.h b/include/fcl/broadphase/detail/hierarchy_tree_array.h
index 85e80fe..0540444 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array.h
@@ -178,6 +178,9 @@ private:
   /// This construction is more expensive then topdown_0, but also can provide tree with better quality.
   size_t topdown_1(size_t* lbeg, size_t* lend);
 
+  /// @brief replace the content of the tree by the leaves, not linked yet
+  void setLeaves(const NodeType* leaves, size_t n_leaves_);
+
   /// @brief init tree from leaves in the topdown manner (topdown_0 or topdown_1)
   void init_0(NodeType* leaves, int n_leaves_);
 
@@ -208,8 +211,8 @@ private:
   /// return the node with the smallest depth and is influenced by the remove operation 
   size_t removeLeaf(size_t leaf);
 
-  /// @brief Delete all internal nodes and return all leaves nodes with given depth from root 
-  void fetchLeaves(size_t root, NodeType*& leaves, int depth = -1);
+  /// @brief Delete all internal nodes and return the indices of all the leaves
+  void fetchLeaves(size_t root, std::vector<size_t>& leaves);
 
   size_t indexOf(size_t node);
 
-- 
2.43.0


From ce7c31c723214186cfd2865fe14e583af31da524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 11/54] fix: HierarchyTree construction failed for equal
 centers and unbounded volumes

The top-down split could be empty, the bottom-up choice could be uninitialised,
getMaxDepth() started from an uninitialised value, and a failed allocation
leaked the leaves. Unregistering an object that is not registered is ignored.
---
 .../broadphase_dynamic_AABB_tree-inl.h        | 48 ++++++++++----
 .../broadphase/detail/hierarchy_tree-inl.h    | 66 +++++++++++++++----
 .../fcl/broadphase/detail/hierarchy_tree.h    |  8 ++-
 3 files changed, 95 insertions(+), 27 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
index 1a7341b..cd4638c 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
@@ -756,20 +756,30 @@ void DynamicAABBTreeCollisionManager<S>::registerObjects(
   }
   else
   {
-    std::vector<DynamicAABBNode*> leaves(other_objs.size());
+    std::vector<DynamicAABBNode*> leaves(other_objs.size(), nullptr);
     table.rehash(other_objs.size());
-    for(size_t i = 0, size = other_objs.size(); i < size; ++i)
+    try
     {
-      DynamicAABBNode* node = new DynamicAABBNode; // node will be managed by the dtree
-      node->bv = other_objs[i]->getAABB();
-      node->parent = nullptr;
-      node->children[1] = nullptr;
-      node->data = other_objs[i];
-      table[other_objs[i]] = node;
-      leaves[i] = node;
-    }
+      for(size_t i = 0, size = other_objs.size(); i < size; ++i)
+      {
+        DynamicAABBNode* node = new DynamicAABBNode; // node will be managed by the dtree
+        leaves[i] = node;
+        node->bv = other_objs[i]->getAABB();
+        node->parent = nullptr;
+        node->children[1] = nullptr;
+        node->data = other_objs[i];
+        table[other_objs[i]] = node;
+      }
 
-    dtree.init(leaves, tree_init_level);
+      dtree.init(leaves, tree_init_level);
+    }
+    catch(...)
+    {
+      for(DynamicAABBNode* node : leaves)
+        delete node;
+      table.clear();
+      throw;
+    }
 
     setup_ = true;
   }
@@ -781,7 +791,15 @@ FCL_EXPORT
 void DynamicAABBTreeCollisionManager<S>::registerObject(CollisionObject<S>* obj)
 {
   DynamicAABBNode* node = dtree.insert(obj->getAABB(), obj);
-  table[obj] = node;
+  try
+  {
+    table[obj] = node;
+  }
+  catch(...)
+  {
+    dtree.remove(node);
+    throw;
+  }
 }
 
 //==============================================================================
@@ -789,8 +807,10 @@ template <typename S>
 FCL_EXPORT
 void DynamicAABBTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
 {
-  DynamicAABBNode* node = table[obj];
-  table.erase(obj);
+  const auto it = table.find(obj);
+  if(it == table.end()) return;
+  DynamicAABBNode* node = it->second;
+  table.erase(it);
   dtree.remove(node);
 }
 
diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index 1438eb9..a5ae41a 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -94,7 +94,15 @@ template<typename BV>
 typename HierarchyTree<BV>::NodeType* HierarchyTree<BV>::insert(const BV& bv, void* data)
 {
   NodeType* leaf = createNode(nullptr, bv, data);
-  insertLeaf(root_node, leaf);
+  try
+  {
+    insertLeaf(root_node, leaf);
+  }
+  catch(...)
+  {
+    deleteNode(leaf);
+    throw;
+  }
   ++n_leaves;
   return leaf;
 }
@@ -115,8 +123,12 @@ void HierarchyTree<BV>::clear()
   if(root_node)
     recurseDeleteNode(root_node);
   n_leaves = 0;
-  delete free_node;
-  free_node = nullptr;
+  while(free_node)
+  {
+    NodeType* next = free_node->parent;
+    delete free_node;
+    free_node = next;
+  }
   max_lookahead_level = -1;
   opath = 0;
 }
@@ -226,7 +238,7 @@ size_t HierarchyTree<BV>::getMaxDepth() const
 {
   if(!root_node) return 0;
 
-  size_t max_depth;
+  size_t max_depth = 0;
   getMaxDepth(root_node, 0, max_depth);
   return max_depth;
 }
@@ -346,7 +358,9 @@ void HierarchyTree<BV>::bottomup(const NodeVecIterator lbeg, const NodeVecIterat
   NodeVecIterator lcur_end = lend;
   while(lbeg < lcur_end - 1)
   {
-    NodeVecIterator min_it1, min_it2;
+    // The sizes of unbounded volumes overflow, so that no pair may be smaller
+    // than another one.
+    NodeVecIterator min_it1 = lbeg, min_it2 = lbeg + 1;
     S min_size = std::numeric_limits<S>::max();
     for(NodeVecIterator it1 = lbeg; it1 < lcur_end; ++it1)
     {
@@ -514,6 +528,9 @@ typename HierarchyTree<BV>::NodeType* HierarchyTree<BV>::topdown_1(const NodeVec
         }
       }
 
+      // All the centers may be at the split value.
+      if(lcenter == lbeg || lcenter == lend) lcenter = lbeg + num_leaves / 2;
+
       NodeType* node = createNode(nullptr, vol, nullptr);
       node->children[0] = topdown_1(lbeg, lcenter);
       node->children[1] = topdown_1(lcenter, lend);
@@ -535,6 +552,8 @@ template<typename BV>
 void HierarchyTree<BV>::init_0(std::vector<NodeType*>& leaves)
 {
   clear();
+  if(leaves.empty()) return;
+  reserveNodes(leaves.size() - 1);
   root_node = topdown(leaves.begin(), leaves.end());
   n_leaves = leaves.size();
   max_lookahead_level = -1;
@@ -546,6 +565,8 @@ template<typename BV>
 void HierarchyTree<BV>::init_1(std::vector<NodeType*>& leaves)
 {
   clear();
+  if(leaves.empty()) return;
+  reserveNodes(leaves.size() - 1);
 
   BV bound_bv;
   if(leaves.size() > 0)
@@ -572,6 +593,8 @@ template<typename BV>
 void HierarchyTree<BV>::init_2(std::vector<NodeType*>& leaves)
 {
   clear();
+  if(leaves.empty()) return;
+  reserveNodes(leaves.size() - 1);
 
   BV bound_bv;
   if(leaves.size() > 0)
@@ -598,6 +621,8 @@ template<typename BV>
 void HierarchyTree<BV>::init_3(std::vector<NodeType*>& leaves)
 {
   clear();
+  if(leaves.empty()) return;
+  reserveNodes(leaves.size() - 1);
 
   BV bound_bv;
   if(leaves.size() > 0)
@@ -949,7 +974,9 @@ void HierarchyTree<BV>::fetchLeaves(NodeType* root, std::vector<NodeType*>& leav
   {
     fetchLeaves(root->children[0], leaves, depth-1);
     fetchLeaves(root->children[1], leaves, depth-1);
-    deleteNode(root);
+    // The new internal nodes of the leaves must not need any allocation, which
+    // could fail while the leaves are in no tree.
+    keepNode(root);
   }
   else
   {
@@ -996,7 +1023,7 @@ typename HierarchyTree<BV>::NodeType* HierarchyTree<BV>::createNode(NodeType* pa
   if(free_node)
   {
     node = free_node;
-    free_node = nullptr;
+    free_node = node->parent;
   }
   else
     node = new NodeType();
@@ -1010,11 +1037,26 @@ typename HierarchyTree<BV>::NodeType* HierarchyTree<BV>::createNode(NodeType* pa
 template<typename BV>
 void HierarchyTree<BV>::deleteNode(NodeType* node)
 {
-  if(free_node != node)
-  {
-    delete free_node;
-    free_node = node;
-  }
+  if(free_node)
+    delete node;
+  else
+    keepNode(node);
+}
+
+//==============================================================================
+template<typename BV>
+void HierarchyTree<BV>::keepNode(NodeType* node)
+{
+  node->parent = free_node;
+  free_node = node;
+}
+
+//==============================================================================
+template<typename BV>
+void HierarchyTree<BV>::reserveNodes(size_t n_nodes)
+{
+  for(size_t i = 0; i < n_nodes; ++i)
+    keepNode(new NodeType());
 }
 
 //==============================================================================
diff --git a/include/fcl/broadphase/detail/hierarchy_tree.h b/include/fcl/broadphase/detail/hierarchy_tree.h
index 456314a..11c581c 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree.h
@@ -239,6 +239,12 @@ private:
 
   void deleteNode(NodeType* node);
 
+  /// @brief keep one node, which is in no tree, to be returned by createNode()
+  void keepNode(NodeType* node);
+
+  /// @brief make the next n_nodes calls of createNode() need no allocation
+  void reserveNodes(size_t n_nodes);
+
   void recurseDeleteNode(NodeType* node);
 
   void recurseRefit(NodeType* node);
@@ -250,7 +256,7 @@ protected:
 
   unsigned int opath;
 
-  /// This is a one NodeType cache, the reason is that we need to remove a node and then add it again frequently. 
+  /// The nodes kept to be used again, linked by their parent: one removed node, because nodes are removed and added again frequently, or those of a rebuild. 
   NodeType* free_node; 
 
   int max_lookahead_level;
-- 
2.43.0


From 0b52090a69a7582e49386910167a43e0cbb58fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 12/54] fix: HierarchyTree::update() with velocity and
 extractLeaves() did not compile

---
 .../broadphase/detail/hierarchy_tree-inl.h    | 45 ++++++-------------
 .../fcl/broadphase/detail/hierarchy_tree.h    |  2 +-
 2 files changed, 15 insertions(+), 32 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index a5ae41a..f1015a4 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -40,6 +40,8 @@
 
 #include "fcl/broadphase/detail/hierarchy_tree.h"
 
+#include "fcl/common/unused.h"
+
 namespace fcl
 {
 
@@ -181,46 +183,27 @@ bool HierarchyTree<BV>::update(NodeType* leaf, const BV& bv)
   return true;
 }
 
-//==============================================================================
-template <typename S, typename BV>
-struct UpdateImpl
-{
-  static bool run(
-      const HierarchyTree<BV>& tree,
-      typename HierarchyTree<BV>::NodeType* leaf,
-      const BV& bv,
-      const Vector3<S>& /*vel*/,
-      S /*margin*/)
-  {
-    if(leaf->bv.contain(bv)) return false;
-    tree.update_(leaf, bv);
-    return true;
-  }
-
-  static bool run(
-      const HierarchyTree<BV>& tree,
-      typename HierarchyTree<BV>::NodeType* leaf,
-      const BV& bv,
-      const Vector3<S>& /*vel*/)
-  {
-    if(leaf->bv.contain(bv)) return false;
-    tree.update_(leaf, bv);
-    return true;
-  }
-};
-
 //==============================================================================
 template<typename BV>
 bool HierarchyTree<BV>::update(NodeType* leaf, const BV& bv, const Vector3<S>& vel, S margin)
 {
-  return UpdateImpl<typename BV::S, BV>::run(*this, leaf, bv, vel, margin);
+  FCL_UNUSED(vel);
+  FCL_UNUSED(margin);
+
+  if(leaf->bv.contain(bv)) return false;
+  update_(leaf, bv);
+  return true;
 }
 
 //==============================================================================
 template<typename BV>
 bool HierarchyTree<BV>::update(NodeType* leaf, const BV& bv, const Vector3<S>& vel)
 {
-  return UpdateImpl<typename BV::S, BV>::run(*this, leaf, bv, vel);
+  FCL_UNUSED(vel);
+
+  if(leaf->bv.contain(bv)) return false;
+  update_(leaf, bv);
+  return true;
 }
 
 //==============================================================================
@@ -302,7 +285,7 @@ void HierarchyTree<BV>::refit()
 
 //==============================================================================
 template<typename BV>
-void HierarchyTree<BV>::extractLeaves(const NodeType* root, std::vector<NodeType*>& leaves) const
+void HierarchyTree<BV>::extractLeaves(NodeType* root, std::vector<NodeType*>& leaves) const
 {
   if(!root->isLeaf())
   {
diff --git a/include/fcl/broadphase/detail/hierarchy_tree.h b/include/fcl/broadphase/detail/hierarchy_tree.h
index 11c581c..d78b146 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree.h
@@ -127,7 +127,7 @@ public:
   void refit();
 
   /// @brief extract all the leaves of the tree 
-  void extractLeaves(const NodeType* root, std::vector<NodeType*>& leaves) const;
+  void extractLeaves(NodeType* root, std::vector<NodeType*>& leaves) const;
 
   /// @brief number of leaves in the tree
   size_t size() const;
-- 
2.43.0


From 68ff62b01451187b8d4cb298caf769a6b64fe096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 13/54] fix: RNG::setSeed() had no effect on the generated
 random numbers

---
 src/math/detail/seed.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/detail/seed.cpp b/src/math/detail/seed.cpp
index fbcc444..85701f6 100644
--- a/src/math/detail/seed.cpp
+++ b/src/math/detail/seed.cpp
@@ -97,7 +97,7 @@ uint_fast32_t Seed::getNextSeed()
 {
   static std::mutex rngMutex;
   std::unique_lock<std::mutex> slock(rngMutex);
-  static std::ranlux24_base sGen;
+  static std::ranlux24_base sGen(getFirstSeed());
   static std::uniform_int_distribution<> sDist(1, 1000000000);
 
   return sDist(sGen);
-- 
2.43.0


From db54db708694f7a158e6ae22c9fd1e217d5ab0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 14/54] fix: Profiler kept its lock after exceptions, raced in
 running() and timed blocks from the epoch

---
 include/fcl/common/detail/profiler.h |  2 +-
 src/common/detail/profiler.cpp       | 29 +++++++++++++---------------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/include/fcl/common/detail/profiler.h b/include/fcl/common/detail/profiler.h
index 76e3675..c2ff32c 100644
--- a/include/fcl/common/detail/profiler.h
+++ b/include/fcl/common/detail/profiler.h
@@ -201,7 +201,7 @@ private:
 
   void printThreadInfo(std::ostream &out, const PerThread &data);
 
-  std::mutex                             lock_;
+  mutable std::mutex                     lock_;
   std::map<std::thread::id, PerThread>   data_;
   TimeInfo                               tinfo_;
   bool                                   running_;
diff --git a/src/common/detail/profiler.cpp b/src/common/detail/profiler.cpp
index 6d78ee0..51144f7 100644
--- a/src/common/detail/profiler.cpp
+++ b/src/common/detail/profiler.cpp
@@ -83,36 +83,33 @@ void Profiler::Clear()
 //==============================================================================
 void Profiler::start(void)
 {
-  lock_.lock();
+  std::lock_guard<std::mutex> lock(lock_);
   if (!running_)
   {
     tinfo_.set();
     running_ = true;
   }
-  lock_.unlock();
 }
 
 //==============================================================================
 void Profiler::stop(void)
 {
-  lock_.lock();
+  std::lock_guard<std::mutex> lock(lock_);
   if (running_)
   {
     tinfo_.update();
     running_ = false;
   }
-  lock_.unlock();
 }
 
 //==============================================================================
 void Profiler::clear(void)
 {
-  lock_.lock();
+  std::lock_guard<std::mutex> lock(lock_);
   data_.clear();
   tinfo_ = TimeInfo();
   if (running_)
     tinfo_.set();
-  lock_.unlock();
 }
 
 //==============================================================================
@@ -124,9 +121,8 @@ void Profiler::Event(const std::string& name, const unsigned int times)
 //==============================================================================
 void Profiler::event(const std::string &name, const unsigned int times)
 {
-  lock_.lock();
+  std::lock_guard<std::mutex> lock(lock_);
   data_[std::this_thread::get_id()].events[name] += times;
-  lock_.unlock();
 }
 
 //==============================================================================
@@ -138,12 +134,11 @@ void Profiler::Average(const std::string& name, const double value)
 //==============================================================================
 void Profiler::average(const std::string &name, const double value)
 {
-  lock_.lock();
+  std::lock_guard<std::mutex> lock(lock_);
   AvgInfo &a = data_[std::this_thread::get_id()].avg[name];
   a.total += value;
   a.totalSqr += value*value;
   a.parts++;
-  lock_.unlock();
 }
 
 //==============================================================================
@@ -161,17 +156,15 @@ void Profiler::End(const std::string& name)
 //==============================================================================
 void Profiler::begin(const std::string &name)
 {
-  lock_.lock();
+  std::lock_guard<std::mutex> lock(lock_);
   data_[std::this_thread::get_id()].time[name].set();
-  lock_.unlock();
 }
 
 //==============================================================================
 void Profiler::end(const std::string &name)
 {
-  lock_.lock();
+  std::lock_guard<std::mutex> lock(lock_);
   data_[std::this_thread::get_id()].time[name].update();
-  lock_.unlock();
 }
 
 //==============================================================================
@@ -184,7 +177,7 @@ void Profiler::Status(std::ostream& out, bool merge)
 void Profiler::status(std::ostream &out, bool merge)
 {
   stop();
-  lock_.lock();
+  std::lock_guard<std::mutex> lock(lock_);
   printOnDestroy_ = false;
 
   out << std::endl;
@@ -222,12 +215,12 @@ void Profiler::status(std::ostream &out, bool merge)
       out << "Thread " << it->first << ":" << std::endl;
       printThreadInfo(out, it->second);
     }
-  lock_.unlock();
 }
 
 //==============================================================================
 bool Profiler::running() const
 {
+  std::lock_guard<std::mutex> lock(lock_);
   return running_;
 }
 
@@ -355,6 +348,10 @@ void Profiler::TimeInfo::set()
 //==============================================================================
 void Profiler::TimeInfo::update()
 {
+  // the beginning of the block is not known (e.g., it was cleared meanwhile)
+  if (start == time::point())
+    return;
+
   const time::duration &dt = time::now() - start;
 
   if (dt > longest)
-- 
2.43.0


From 827ffa622ed8aa593cad71e9adb98d2728106100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 15/54] fix: SamplerSE2 sampled between the wrong bounds and
 read beyond them

---
 include/fcl/math/sampler/sampler_se2-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/sampler/sampler_se2-inl.h b/include/fcl/math/sampler/sampler_se2-inl.h
index aa3cb9a..1c20ea9 100644
--- a/include/fcl/math/sampler/sampler_se2-inl.h
+++ b/include/fcl/math/sampler/sampler_se2-inl.h
@@ -91,8 +91,8 @@ template <typename S>
 Vector3<S> SamplerSE2<S>::sample() const
 {
   Vector3<S> q;
-  q[0] = this->rng.uniformReal(lower_bound[0], lower_bound[1]);
-  q[1] = this->rng.uniformReal(lower_bound[1], lower_bound[2]);
+  q[0] = this->rng.uniformReal(lower_bound[0], upper_bound[0]);
+  q[1] = this->rng.uniformReal(lower_bound[1], upper_bound[1]);
   q[2] = this->rng.uniformReal(-constants<S>::pi(), constants<S>::pi());
 
   return q;
-- 
2.43.0


From a8abbbeed83f547b0cd3b72cd661093d51ee43a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 16/54] fix: BVHModel calls made out of sequence leaked memory
 or wrote beyond the model

beginModel() leaked the arrays of an earlier call that was answered with
BVH_ERR_BUILD_OUT_OF_SEQUENCE or an allocation failure; addTriangle() and
addSubModel() were accepted in every state but one although nothing was
allocated; replacing or updating more vertices than the model has wrote past
its array.
---
 include/fcl/geometry/bvh/BVH_model-inl.h | 74 ++++++++++++++++++------
 1 file changed, 55 insertions(+), 19 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 906a593..bc58f35 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -206,44 +206,44 @@ NODE_TYPE BVHModel<BV>::getNodeType() const
 template <typename BV>
 int BVHModel<BV>::beginModel(int num_tris_, int num_vertices_)
 {
-  if(build_state != BVH_BUILD_STATE_EMPTY)
-  {
-    delete [] vertices; vertices = nullptr;
-    delete [] tri_indices; tri_indices = nullptr;
-    delete [] bvs; bvs = nullptr;
-    delete [] prev_vertices; prev_vertices = nullptr;
-    delete [] primitive_indices; primitive_indices = nullptr;
+  const bool was_empty = (build_state == BVH_BUILD_STATE_EMPTY);
 
-    num_vertices_allocated = num_vertices = num_tris_allocated = num_tris = num_bvs_allocated = num_bvs = 0;
-  }
+  // An empty model may own arrays too: those of an earlier beginModel() call
+  // that did not succeed.
+  delete [] vertices; vertices = nullptr;
+  delete [] tri_indices; tri_indices = nullptr;
+  delete [] bvs; bvs = nullptr;
+  delete [] prev_vertices; prev_vertices = nullptr;
+  delete [] primitive_indices; primitive_indices = nullptr;
+
+  num_vertices_allocated = num_vertices = num_tris_allocated = num_tris = num_bvs_allocated = num_bvs = 0;
+  build_state = BVH_BUILD_STATE_EMPTY;
 
   if(num_tris_ < 0) num_tris_ = 8;
   if(num_vertices_ <= 0) num_vertices_ = 8;
 
-  num_vertices_allocated = num_vertices_;
-  num_tris_allocated = num_tris_;
-
   if(num_tris_ > 0)
   {
-    tri_indices = new(std::nothrow) Triangle[num_tris_allocated];
+    tri_indices = new(std::nothrow) Triangle[num_tris_];
     if(!tri_indices)
     {
       std::cerr << "BVH Error! Out of memory for tri_indices array on BeginModel() call!\n";
       return BVH_ERR_MODEL_OUT_OF_MEMORY;
     }
+    num_tris_allocated = num_tris_;
   }
 
-  vertices = new Vector3<S>[num_vertices_allocated];
+  vertices = new Vector3<S>[num_vertices_];
   if(!vertices)
   {
     std::cerr << "BVH Error! Out of memory for vertices array on BeginModel() call!\n";
     return BVH_ERR_MODEL_OUT_OF_MEMORY;
   }
+  num_vertices_allocated = num_vertices_;
 
-  if(build_state != BVH_BUILD_STATE_EMPTY)
+  if(!was_empty)
   {
     std::cerr << "BVH Warning! Call beginModel() on a BVHModel that is not empty. This model was cleared and previous triangles/vertices were lost.\n";
-    build_state = BVH_BUILD_STATE_EMPTY;
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
@@ -287,7 +287,7 @@ int BVHModel<BV>::addVertex(const Vector3<S>& p)
 template <typename BV>
 int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const Vector3<S>& p3)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addTriangle() in a wrong order. addTriangle() was ignored. Must do a beginModel() to clear the model for addition of new triangles.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -346,7 +346,7 @@ int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const
 template <typename BV>
 int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addSubModel() in a wrong order. addSubModel() was ignored. Must do a beginModel() to clear the model for addition of new vertices.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -382,7 +382,7 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 template <typename BV>
 int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps, const std::vector<Triangle>& ts)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addSubModel() in a wrong order. addSubModel() was ignored. Must do a beginModel() to clear the model for addition of new vertices.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -549,6 +549,12 @@ int BVHModel<BV>::replaceVertex(const Vector3<S>& p)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated >= num_vertices)
+  {
+    std::cerr << "BVH Error! The replaced model should have the same number of vertices as the old model. replaceVertex() was ignored.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p;
   num_vertex_updated++;
 
@@ -565,6 +571,12 @@ int BVHModel<BV>::replaceTriangle(const Vector3<S>& p1, const Vector3<S>& p2, co
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + 3 > num_vertices)
+  {
+    std::cerr << "BVH Error! The replaced model should have the same number of vertices as the old model. replaceTriangle() was ignored.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p1; num_vertex_updated++;
   vertices[num_vertex_updated] = p2; num_vertex_updated++;
   vertices[num_vertex_updated] = p3; num_vertex_updated++;
@@ -581,6 +593,12 @@ int BVHModel<BV>::replaceSubModel(const std::vector<Vector3<S>>& ps)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(ps.size() > static_cast<std::size_t>(num_vertices - num_vertex_updated))
+  {
+    std::cerr << "BVH Error! The replaced model should have the same number of vertices as the old model. replaceSubModel() was ignored.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   for(unsigned int i = 0; i < ps.size(); ++i)
   {
     vertices[num_vertex_updated] = ps[i];
@@ -658,6 +676,12 @@ int BVHModel<BV>::updateVertex(const Vector3<S>& p)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated >= num_vertices)
+  {
+    std::cerr << "BVH Error! The updated model should have the same number of vertices as the old model. updateVertex() was ignored.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p;
   num_vertex_updated++;
 
@@ -674,6 +698,12 @@ int BVHModel<BV>::updateTriangle(const Vector3<S>& p1, const Vector3<S>& p2, con
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + 3 > num_vertices)
+  {
+    std::cerr << "BVH Error! The updated model should have the same number of vertices as the old model. updateTriangle() was ignored.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p1; num_vertex_updated++;
   vertices[num_vertex_updated] = p2; num_vertex_updated++;
   vertices[num_vertex_updated] = p3; num_vertex_updated++;
@@ -690,6 +720,12 @@ int BVHModel<BV>::updateSubModel(const std::vector<Vector3<S>>& ps)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(ps.size() > static_cast<std::size_t>(num_vertices - num_vertex_updated))
+  {
+    std::cerr << "BVH Error! The updated model should have the same number of vertices as the old model. updateSubModel() was ignored.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   for(unsigned int i = 0; i < ps.size(); ++i)
   {
     vertices[num_vertex_updated] = ps[i];
-- 
2.43.0


From d35b024c8b9216db3e5c9a27b83c867965eec984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 17/54] fix: copies of BVHModel overflowed when continued and
 were freed twice when assigned

A copy of a model under construction had no room to grow from (twice zero) and
an uninitialized count of updated vertices; assigning a model shared its arrays
between both models.
---
 include/fcl/geometry/bvh/BVH_model-inl.h | 44 +++++++++++++++++++++---
 include/fcl/geometry/bvh/BVH_model.h     |  3 ++
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index bc58f35..ec22bee 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -82,17 +82,25 @@ BVHModel<BV>::BVHModel() : vertices(nullptr),
 template <typename BV>
 BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
   : CollisionGeometry<S>(other),
+    vertices(nullptr),
+    tri_indices(nullptr),
+    prev_vertices(nullptr),
     num_tris(other.num_tris),
     num_vertices(other.num_vertices),
     build_state(other.build_state),
     bv_splitter(other.bv_splitter),
     bv_fitter(other.bv_fitter),
-    num_tris_allocated(other.num_tris),
-    num_vertices_allocated(other.num_vertices)
+    num_tris_allocated(other.num_tris_allocated),
+    num_vertices_allocated(other.num_vertices_allocated),
+    num_vertex_updated(other.num_vertex_updated),
+    primitive_indices(nullptr),
+    bvs(nullptr)
 {
+  // The copy gets the capacity of the original, so that it can be continued
+  // in the same way when it is still under construction.
   if(other.vertices)
   {
-    vertices = new Vector3<S>[num_vertices];
+    vertices = new Vector3<S>[num_vertices_allocated];
     std::copy(other.vertices, other.vertices + num_vertices, vertices);
   }
   else
@@ -100,7 +108,7 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
 
   if(other.tri_indices)
   {
-    tri_indices = new Triangle[num_tris];
+    tri_indices = new Triangle[num_tris_allocated];
     std::copy(other.tri_indices, other.tri_indices + num_tris, tri_indices);
   }
   else
@@ -145,6 +153,34 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
     bvs = nullptr;
 }
 
+//==============================================================================
+template <typename BV>
+BVHModel<BV>& BVHModel<BV>::operator=(const BVHModel<BV>& other)
+{
+  if(this != &other)
+  {
+    BVHModel<BV> copy(other);
+    CollisionGeometry<S>::operator=(other);
+    std::swap(vertices, copy.vertices);
+    std::swap(tri_indices, copy.tri_indices);
+    std::swap(prev_vertices, copy.prev_vertices);
+    std::swap(num_tris, copy.num_tris);
+    std::swap(num_vertices, copy.num_vertices);
+    std::swap(build_state, copy.build_state);
+    std::swap(bv_splitter, copy.bv_splitter);
+    std::swap(bv_fitter, copy.bv_fitter);
+    std::swap(num_tris_allocated, copy.num_tris_allocated);
+    std::swap(num_vertices_allocated, copy.num_vertices_allocated);
+    std::swap(num_bvs_allocated, copy.num_bvs_allocated);
+    std::swap(num_vertex_updated, copy.num_vertex_updated);
+    std::swap(primitive_indices, copy.primitive_indices);
+    std::swap(bvs, copy.bvs);
+    std::swap(num_bvs, copy.num_bvs);
+  }
+
+  return *this;
+}
+
 //==============================================================================
 template <typename BV>
 BVHModel<BV>::~BVHModel()
diff --git a/include/fcl/geometry/bvh/BVH_model.h b/include/fcl/geometry/bvh/BVH_model.h
index 294d521..e54d312 100644
--- a/include/fcl/geometry/bvh/BVH_model.h
+++ b/include/fcl/geometry/bvh/BVH_model.h
@@ -69,6 +69,9 @@ public:
   /// @brief copy from another BVH
   BVHModel(const BVHModel& other);
 
+  /// @brief copy from another BVH
+  BVHModel& operator=(const BVHModel& other);
+
   /// @brief deconstruction, delete mesh data related.
   ~BVHModel();
 
-- 
2.43.0


From 072690a3ca14f7b84a5953b05331027b5c67038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 18/54] fix: BVHModel lost memory or left stale counts when an
 allocation failed

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 88 ++++++++++++------------
 1 file changed, 43 insertions(+), 45 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index ec22bee..86ec96d 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -81,21 +81,19 @@ BVHModel<BV>::BVHModel() : vertices(nullptr),
 //==============================================================================
 template <typename BV>
 BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
-  : CollisionGeometry<S>(other),
-    vertices(nullptr),
-    tri_indices(nullptr),
-    prev_vertices(nullptr),
-    num_tris(other.num_tris),
-    num_vertices(other.num_vertices),
-    build_state(other.build_state),
-    bv_splitter(other.bv_splitter),
-    bv_fitter(other.bv_fitter),
-    num_tris_allocated(other.num_tris_allocated),
-    num_vertices_allocated(other.num_vertices_allocated),
-    num_vertex_updated(other.num_vertex_updated),
-    primitive_indices(nullptr),
-    bvs(nullptr)
+  : BVHModel()  // so that the destructor cleans up when an allocation fails
 {
+  CollisionGeometry<S>::operator=(other);
+
+  num_tris = other.num_tris;
+  num_vertices = other.num_vertices;
+  build_state = other.build_state;
+  bv_splitter = other.bv_splitter;
+  bv_fitter = other.bv_fitter;
+  num_tris_allocated = other.num_tris_allocated;
+  num_vertices_allocated = other.num_vertices_allocated;
+  num_vertex_updated = other.num_vertex_updated;
+
   // The copy gets the capacity of the original, so that it can be continued
   // in the same way when it is still under construction.
   if(other.vertices)
@@ -344,22 +342,10 @@ int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const
     num_vertices_allocated = num_vertices_allocated * 2 + 2;
   }
 
-  int offset = num_vertices;
-
-  vertices[num_vertices] = p1;
-  num_vertices++;
-  vertices[num_vertices] = p2;
-  num_vertices++;
-  vertices[num_vertices] = p3;
-  num_vertices++;
-
   if(num_tris >= num_tris_allocated)
   {
-    if(num_tris_allocated == 0)
-    {
-      num_tris_allocated = 1;
-    }
-    Triangle* temp = new Triangle[num_tris_allocated * 2];
+    const int new_num_tris_allocated = (num_tris_allocated == 0) ? 2 : num_tris_allocated * 2;
+    Triangle* temp = new Triangle[new_num_tris_allocated];
     if(!temp)
     {
       std::cerr << "BVH Error! Out of memory for tri_indices array on addTriangle() call!\n";
@@ -369,9 +355,18 @@ int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const
     std::copy(tri_indices, tri_indices + num_tris, temp);
     delete [] tri_indices;
     tri_indices = temp;
-    num_tris_allocated *= 2;
+    num_tris_allocated = new_num_tris_allocated;
   }
 
+  int offset = num_vertices;
+
+  vertices[num_vertices] = p1;
+  num_vertices++;
+  vertices[num_vertices] = p2;
+  num_vertices++;
+  vertices[num_vertices] = p3;
+  num_vertices++;
+
   tri_indices[num_tris].set(offset, offset + 1, offset + 2);
   num_tris++;
 
@@ -441,24 +436,12 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps, const std::vect
     num_vertices_allocated = num_vertices_allocated * 2 + num_vertices_to_add - 1;
   }
 
-  int offset = num_vertices;
-
-  for(int i = 0; i < num_vertices_to_add; ++i)
-  {
-    vertices[num_vertices] = ps[i];
-    num_vertices++;
-  }
-
-
   int num_tris_to_add = ts.size();
 
   if(num_tris + num_tris_to_add - 1 >= num_tris_allocated)
   {
-    if(num_tris_allocated == 0)
-    {
-      num_tris_allocated = 1;
-    }
-    Triangle* temp = new(std::nothrow) Triangle[num_tris_allocated * 2 + num_tris_to_add - 1];
+    const int new_num_tris_allocated = std::max(num_tris_allocated, 1) * 2 + num_tris_to_add - 1;
+    Triangle* temp = new(std::nothrow) Triangle[new_num_tris_allocated];
     if(!temp)
     {
       std::cerr << "BVH Error! Out of memory for tri_indices array on addSubModel() call!\n";
@@ -468,7 +451,15 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps, const std::vect
     std::copy(tri_indices, tri_indices + num_tris, temp);
     delete [] tri_indices;
     tri_indices = temp;
-    num_tris_allocated = num_tris_allocated * 2 + num_tris_to_add - 1;
+    num_tris_allocated = new_num_tris_allocated;
+  }
+
+  int offset = num_vertices;
+
+  for(int i = 0; i < num_vertices_to_add; ++i)
+  {
+    vertices[num_vertices] = ps[i];
+    num_vertices++;
   }
 
   for(int i = 0; i < num_tris_to_add; ++i)
@@ -534,6 +525,12 @@ int BVHModel<BV>::endModel()
     num_bvs_to_be_allocated = 2 * num_tris - 1;
 
 
+  // an earlier call may have failed after allocating these
+  delete [] bvs;
+  delete [] primitive_indices;
+  bvs = nullptr;
+  primitive_indices = nullptr;
+
   bvs = new(std::nothrow) BVNode<BV> [num_bvs_to_be_allocated];
   primitive_indices = new(std::nothrow) unsigned int [num_bvs_to_be_allocated];
   if(!bvs || !primitive_indices)
@@ -691,8 +688,9 @@ int BVHModel<BV>::beginUpdateModel()
   }
   else
   {
+    Vector3<S>* temp = new Vector3<S>[num_vertices];
     prev_vertices = vertices;
-    vertices = new Vector3<S>[num_vertices];
+    vertices = temp;
   }
 
   num_vertex_updated = 0;
-- 
2.43.0


From 74070bb1dd316f5f9a578e097c4c7980c3c58491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:20 +0000
Subject: [PATCH 19/54] fix: point clouds begun with room for triangles were
 fitted as triangles

A point cloud kept the (empty) triangle array, by which the fitting functions
take its points for triangles and read beyond the array.
---
 include/fcl/geometry/bvh/BVH_model-inl.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 86ec96d..3aa687f 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -488,7 +488,14 @@ int BVHModel<BV>::endModel()
     return BVH_ERR_BUILD_EMPTY_MODEL;
   }
 
-  if(num_tris_allocated > num_tris)
+  if(num_tris == 0)
+  {
+    // tri_indices is nullptr for point clouds
+    delete [] tri_indices;
+    tri_indices = nullptr;
+    num_tris_allocated = 0;
+  }
+  else if(num_tris_allocated > num_tris)
   {
     Triangle* new_tris = new(std::nothrow) Triangle[num_tris];
     if(!new_tris)
-- 
2.43.0


From a4c2b5e2797481aa542f0e67c02bc78ea0c6cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 20/54] fix: merged RSS bounding volumes took an axis from
 another volume

---
 include/fcl/math/bv/RSS-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/bv/RSS-inl.h b/include/fcl/math/bv/RSS-inl.h
index 2cbc7dd..3e82b2f 100644
--- a/include/fcl/math/bv/RSS-inl.h
+++ b/include/fcl/math/bv/RSS-inl.h
@@ -368,7 +368,7 @@ RSS<S> RSS<S>::operator +(const RSS<S>& other) const
   // column first matrix, as the axis in RSS
   bv.axis.col(0) = E.col(max);
   bv.axis.col(1) = E.col(mid);
-  bv.axis.col(2).noalias() = axis.col(0).cross(axis.col(1));
+  bv.axis.col(2).noalias() = bv.axis.col(0).cross(bv.axis.col(1));
 
   // set rss origin, rectangle size and radius
   getRadiusAndOriginAndRectangleSize<S>(v, nullptr, nullptr, nullptr, 16, bv.axis, bv.To, bv.l, bv.r);
-- 
2.43.0


From c56d0010446bae2839a6e02fda1ab509e42d2c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 21/54] fix: merged OBB bounding volumes lost vertices of flat,
 thin or distant boxes

---
 include/fcl/math/bv/OBB-inl.h | 38 ++++++++++++-----------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/include/fcl/math/bv/OBB-inl.h b/include/fcl/math/bv/OBB-inl.h
index 4d5455f..b3b3951 100644
--- a/include/fcl/math/bv/OBB-inl.h
+++ b/include/fcl/math/bv/OBB-inl.h
@@ -274,36 +274,24 @@ OBB<S> merge_largedist(const OBB<S>& b1, const OBB<S>& b2)
   getCovariance<S>(vertex_proj, nullptr, nullptr, nullptr, 16, M);
   eigen_old(M, s, E);
 
-  int min, mid, max;
-  if (s[0] > s[1])
-  {
-    max = 0;
-    min = 1;
-  }
-  else
-  {
-    min = 0;
-    max = 1;
-  }
+  int max = (s[0] > s[1]) ? 0 : 1;
+  if (s[2] > s[max])
+    max = 2;
 
-  if (s[2] < s[min])
+  // The projections of flat or thin boxes may span no more than a line or a
+  // point, where the eigenvectors need not be orthogonal to the first axis.
+  Vector3<S> second(E.col(0)[max], E.col(1)[max], E.col(2)[max]);
+  second -= b.axis.col(0) * second.dot(b.axis.col(0));
+  if (second.norm() > 0.5)
   {
-    mid = min;
-    min = 2;
-  }
-  else if (s[2] > s[max])
-  {
-    mid = max;
-    max = 2;
+    b.axis.col(1) = second.normalized();
+    b.axis.col(2) = b.axis.col(0).cross(b.axis.col(1));
   }
   else
   {
-    mid = 2;
+    b.axis = generateCoordinateSystem<S>(b.axis.col(0));
   }
 
-  b.axis.col(1) << E.col(0)[max], E.col(1)[max], E.col(2)[max];
-  b.axis.col(2) << E.col(0)[mid], E.col(1)[mid], E.col(2)[mid];
-
   // set obb centers and extensions
   getExtentAndCenter<S>(
         vertex, nullptr, nullptr, nullptr, 16, b.axis, b.To, b.extent);
@@ -341,7 +329,7 @@ OBB<S> merge_smalldist(const OBB<S>& b1, const OBB<S>& b2)
       S dot = diff.dot(b.axis.col(j));
       if(dot > pmax[j])
         pmax[j] = dot;
-      else if(dot < pmin[j])
+      if(dot < pmin[j])
         pmin[j] = dot;
     }
   }
@@ -355,7 +343,7 @@ OBB<S> merge_smalldist(const OBB<S>& b1, const OBB<S>& b2)
       S dot = diff.dot(b.axis.col(j));
       if(dot > pmax[j])
         pmax[j] = dot;
-      else if(dot < pmin[j])
+      if(dot < pmin[j])
         pmin[j] = dot;
     }
   }
-- 
2.43.0


From e1dea100eee939fac4aef27eea54d61bd0802b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 22/54] fix: kIOS merges rounded distances to single precision

---
 include/fcl/math/bv/kIOS-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/bv/kIOS-inl.h b/include/fcl/math/bv/kIOS-inl.h
index 81a802a..f1cb181 100644
--- a/include/fcl/math/bv/kIOS-inl.h
+++ b/include/fcl/math/bv/kIOS-inl.h
@@ -64,7 +64,7 @@ typename kIOS<S>::kIOS_Sphere kIOS<S>::encloseSphere(
   }
   else /** spheres partially overlapping or disjoint */
   {
-    float dist = std::sqrt(dist2);
+    S dist = std::sqrt(dist2);
     kIOS_Sphere s;
     s.r = dist + s0.r + s1.r;
     if(dist > 0)
-- 
2.43.0


From 7ad1cbf6f2f881d2b740960f81b46d340c4bd7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:00 +0000
Subject: [PATCH 23/54] fix: bounding volumes of repeated points and collinear
 triangles did not contain them

---
 include/fcl/math/bv/utility-inl.h | 54 +++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/include/fcl/math/bv/utility-inl.h b/include/fcl/math/bv/utility-inl.h
index 333ec15..8f299b6 100644
--- a/include/fcl/math/bv/utility-inl.h
+++ b/include/fcl/math/bv/utility-inl.h
@@ -60,6 +60,11 @@ namespace detail {
 namespace OBB_fit_functions {
 //==============================================================================
 
+//==============================================================================
+template <typename S>
+FCL_EXPORT
+void fitn(const Vector3<S>* const ps, int n, OBB<S>& bv);
+
 //==============================================================================
 template <typename S>
 FCL_EXPORT
@@ -77,6 +82,12 @@ void fit2(const Vector3<S>* const ps, OBB<S>& bv)
 {
   const Vector3<S>& p1 = ps[0];
   const Vector3<S>& p2 = ps[1];
+  if(p1 == p2)
+  {
+    fit1(ps, bv);
+    return;
+  }
+
   const Vector3<S> p1p2 = p1 - p2;
   const S len_p1p2 = p1p2.norm();
 
@@ -107,6 +118,13 @@ void fit3(const Vector3<S>* const ps, OBB<S>& bv)
   if(len[1] > len[0]) imax = 1;
   if(len[2] > len[imax]) imax = 2;
 
+  // The normal of a (nearly) collinear triangle is zero or arbitrary
+  if(e[0].cross(e[1]).norm() <= 1e-6 * len[imax])
+  {
+    fitn(ps, 3, bv);
+    return;
+  }
+
   bv.axis.col(2).noalias() = e[0].cross(e[1]);
   bv.axis.col(2).normalize();
   bv.axis.col(0) = e[imax];
@@ -172,6 +190,11 @@ void fitn(const Vector3d* const ps, int n, OBB<double>& bv);
 namespace RSS_fit_functions {
 //==============================================================================
 
+//==============================================================================
+template <typename S>
+FCL_EXPORT
+void fitn(const Vector3<S>* const ps, int n, RSS<S>& bv);
+
 //==============================================================================
 template <typename S>
 FCL_EXPORT
@@ -191,6 +214,12 @@ void fit2(const Vector3<S>* const ps, RSS<S>& bv)
 {
   const Vector3<S>& p1 = ps[0];
   const Vector3<S>& p2 = ps[1];
+  if(p1 == p2)
+  {
+    fit1(ps, bv);
+    return;
+  }
+
   const Vector3<S> p1p2 = p1 - p2;
   const S len_p1p2 = p1p2.norm();
 
@@ -223,6 +252,13 @@ void fit3(const Vector3<S>* const ps, RSS<S>& bv)
   if(len[1] > len[0]) imax = 1;
   if(len[2] > len[imax]) imax = 2;
 
+  // The normal of a (nearly) collinear triangle is zero or arbitrary
+  if(e[0].cross(e[1]).norm() <= 1e-6 * len[imax])
+  {
+    fitn(ps, 3, bv);
+    return;
+  }
+
   bv.axis.col(2).noalias() = e[0].cross(e[1]).normalized();
   bv.axis.col(0).noalias() = e[imax].normalized();
   bv.axis.col(1).noalias() = bv.axis.col(2).cross(bv.axis.col(0));
@@ -291,6 +327,11 @@ void fitn(const Vector3d* const ps, int n, RSS<double>& bv);
 namespace kIOS_fit_functions {
 //==============================================================================
 
+//==============================================================================
+template <typename S>
+FCL_EXPORT
+void fitn(const Vector3<S>* const ps, int n, kIOS<S>& bv);
+
 //==============================================================================
 template <typename S>
 FCL_EXPORT
@@ -314,6 +355,12 @@ void fit2(const Vector3<S>* const ps, kIOS<S>& bv)
 
   const Vector3<S>& p1 = ps[0];
   const Vector3<S>& p2 = ps[1];
+  if(p1 == p2)
+  {
+    fit1(ps, bv);
+    return;
+  }
+
   const Vector3<S> p1p2 = p1 - p2;
   const S len_p1p2 = p1p2.norm();
 
@@ -364,6 +411,13 @@ void fit3(const Vector3<S>* const ps, kIOS<S>& bv)
   if(len[1] > len[0]) imax = 1;
   if(len[2] > len[imax]) imax = 2;
 
+  // The normal of a (nearly) collinear triangle is zero or arbitrary
+  if(e[0].cross(e[1]).norm() <= 1e-6 * len[imax])
+  {
+    fitn(ps, 3, bv);
+    return;
+  }
+
   bv.obb.axis.col(2).noalias() = e[0].cross(e[1]).normalized();
   bv.obb.axis.col(0) = e[imax].normalized();
   bv.obb.axis.col(1).noalias() = bv.obb.axis.col(2).cross(bv.obb.axis.col(0));
-- 
2.43.0


From 58a52db86e7e5686181f6edccfa9fd9c2c7501ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 24/54] fix: polynomial continuous collision changed the models
 it was given

---
 include/fcl/narrowphase/continuous_collision-inl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index b24d0b8..2f35518 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -191,9 +191,11 @@ typename BV::S continuousCollideBVHPolynomial(
   const BVHModel<BV>* o1__ = static_cast<const BVHModel<BV>*>(o1_);
   const BVHModel<BV>* o2__ = static_cast<const BVHModel<BV>*>(o2_);
 
-  // ugly, but lets do it now.
-  BVHModel<BV>* o1 = const_cast<BVHModel<BV>*>(o1__);
-  BVHModel<BV>* o2 = const_cast<BVHModel<BV>*>(o2__);
+  // The models given are not changed: they may be used by other queries.
+  BVHModel<BV> o1_copy(*o1__);
+  BVHModel<BV> o2_copy(*o2__);
+  BVHModel<BV>* o1 = &o1_copy;
+  BVHModel<BV>* o2 = &o2_copy;
   std::vector<Vector3<S>> new_v1(o1->num_vertices);
   std::vector<Vector3<S>> new_v2(o2->num_vertices);
 
-- 
2.43.0


From 5bfbcb056ba6fd02b7711188b4ce2db32282f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 25/54] fix: queries on copies of meshes rebuilt them with the
 fitter and splitter of the original

The copies share those two objects with the mesh they are made from, so
two queries running at the same time raced on them. Refitting the copy
needs neither. The copies are automatic objects, so that an exception
does not leak them, and conservative advancement starts every step from
the mesh it was given rather than from the mesh transformed so far.
---
 .../detail/collision_func_matrix-inl.h        | 21 +++++--------
 ...conservative_advancement_func_matrix-inl.h | 31 ++++++-------------
 .../detail/distance_func_matrix-inl.h         | 13 +++-----
 3 files changed, 22 insertions(+), 43 deletions(-)

diff --git a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
index 092d338..7176b93 100644
--- a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
@@ -334,15 +334,13 @@ struct BVHShapeCollider
 
       MeshShapeCollisionTraversalNode<BV, Shape, NarrowPhaseSolver> node;
       const BVHModel<BV>* obj1 = static_cast<const BVHModel<BV>* >(o1);
-      BVHModel<BV>* obj1_tmp = new BVHModel<BV>(*obj1);
+      BVHModel<BV> obj1_tmp(*obj1);
       Transform3<S> tf1_tmp = tf1;
       const Shape* obj2 = static_cast<const Shape*>(o2);
 
-      initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, no_cost_request, result);
+      initialize(node, obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, no_cost_request, result, true, true);
       fcl::detail::collide(&node);
 
-      delete obj1_tmp;
-
       Box<S> box;
       Transform3<S> box_tf;
       constructBox(obj1->getBV(0).bv, tf1, box, box_tf);
@@ -358,14 +356,12 @@ struct BVHShapeCollider
     {
       MeshShapeCollisionTraversalNode<BV, Shape, NarrowPhaseSolver> node;
       const BVHModel<BV>* obj1 = static_cast<const BVHModel<BV>* >(o1);
-      BVHModel<BV>* obj1_tmp = new BVHModel<BV>(*obj1);
+      BVHModel<BV> obj1_tmp(*obj1);
       Transform3<S> tf1_tmp = tf1;
       const Shape* obj2 = static_cast<const Shape*>(o2);
 
-      initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result);
+      initialize(node, obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result, true, true);
       fcl::detail::collide(&node);
-
-      delete obj1_tmp;
     }
 
     return result.numContacts();
@@ -538,17 +534,14 @@ struct BVHCollideImpl
     MeshCollisionTraversalNode<BV> node;
     const BVHModel<BV>* obj1 = static_cast<const BVHModel<BV>* >(o1);
     const BVHModel<BV>* obj2 = static_cast<const BVHModel<BV>* >(o2);
-    BVHModel<BV>* obj1_tmp = new BVHModel<BV>(*obj1);
+    BVHModel<BV> obj1_tmp(*obj1);
     Transform3<S> tf1_tmp = tf1;
-    BVHModel<BV>* obj2_tmp = new BVHModel<BV>(*obj2);
+    BVHModel<BV> obj2_tmp(*obj2);
     Transform3<S> tf2_tmp = tf2;
 
-    initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result);
+    initialize(node, obj1_tmp, tf1_tmp, obj2_tmp, tf2_tmp, request, result, true, true);
     collide(&node);
 
-    delete obj1_tmp;
-    delete obj2_tmp;
-
     return result.numContacts();
   }
 };
diff --git a/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h b/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
index e9af921..a4a253a 100644
--- a/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
@@ -95,10 +95,6 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
   }
 
 
-  BVHModel<BV>* o1_tmp = new BVHModel<BV>(o1);
-  BVHModel<BV>* o2_tmp = new BVHModel<BV>(o2);
-
-
   MeshConservativeAdvancementTraversalNode<BV> node;
 
   node.motion1 = motion1;
@@ -106,8 +102,10 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
 
   do
   {
-    // repeatedly update mesh to global coordinate, so time consuming
-    initialize(node, *o1_tmp, tf1, *o2_tmp, tf2);
+    // update a copy of the mesh to global coordinate, so time consuming
+    BVHModel<BV> o1_tmp(o1);
+    BVHModel<BV> o2_tmp(o2);
+    initialize(node, o1_tmp, tf1, o2_tmp, tf2, S(1), true, true);
 
     node.delta_t = 1;
     node.min_distance = std::numeric_limits<S>::max();
@@ -135,9 +133,6 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
   }
   while(1);
 
-  delete o1_tmp;
-  delete o2_tmp;
-
   toc = node.toc;
 
   if(node.toc < 1)
@@ -310,8 +305,6 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
     return true;
   }
 
-  BVHModel<BV>* o1_tmp = new BVHModel<BV>(o1);
-
   MeshShapeConservativeAdvancementTraversalNode<BV, Shape, NarrowPhaseSolver> node;
 
   node.motion1 = motion1;
@@ -319,8 +312,9 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
 
   do
   {
-    // initialize update mesh to global coordinate, so time consuming
-    initialize(node, *o1_tmp, tf1, o2, tf2, nsolver);
+    // initialize update a copy of the mesh to global coordinate, so time consuming
+    BVHModel<BV> o1_tmp(o1);
+    initialize(node, o1_tmp, tf1, o2, tf2, nsolver, S(1), true, true);
 
     node.delta_t = 1;
     node.min_distance = std::numeric_limits<S>::max();
@@ -347,8 +341,6 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
   }
   while(1);
 
-  delete o1_tmp;
-
   toc = node.toc;
 
   if(node.toc < 1)
@@ -478,8 +470,6 @@ bool conservativeAdvancement(const Shape& o1,
     return true;
   }
 
-  BVHModel<BV>* o2_tmp = new BVHModel<BV>(o2);
-
   ShapeMeshConservativeAdvancementTraversalNode<Shape, BV, NarrowPhaseSolver> node;
 
   node.motion1 = motion1;
@@ -487,8 +477,9 @@ bool conservativeAdvancement(const Shape& o1,
 
   do
   {
-    // initialize update mesh to global coordinate, so time consuming
-    initialize(node, o1, tf1, *o2_tmp, tf2, nsolver);
+    // initialize update a copy of the mesh to global coordinate, so time consuming
+    BVHModel<BV> o2_tmp(o2);
+    initialize(node, o1, tf1, o2_tmp, tf2, nsolver, S(1), true, true);
 
     node.delta_t = 1;
     node.min_distance = std::numeric_limits<S>::max();
@@ -515,8 +506,6 @@ bool conservativeAdvancement(const Shape& o1,
   }
   while(1);
 
-  delete o2_tmp;
-
   toc = node.toc;
 
   if(node.toc < 1)
diff --git a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
index 43f5f09..f99fdb3 100644
--- a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
@@ -242,14 +242,13 @@ struct BVHShapeDistancer
     if(request.isSatisfied(result)) return result.min_distance;
     MeshShapeDistanceTraversalNode<BV, Shape, NarrowPhaseSolver> node;
     const BVHModel<BV>* obj1 = static_cast<const BVHModel<BV>* >(o1);
-    BVHModel<BV>* obj1_tmp = new BVHModel<BV>(*obj1);
+    BVHModel<BV> obj1_tmp(*obj1);
     Transform3<S> tf1_tmp = tf1;
     const Shape* obj2 = static_cast<const Shape*>(o2);
 
-    initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result);
+    initialize(node, obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result, true, true);
     ::fcl::distance(&node);
 
-    delete obj1_tmp;
     return result.min_distance;
   }
 };
@@ -355,15 +354,13 @@ struct BVHDistanceImpl
     MeshDistanceTraversalNode<BV> node;
     const BVHModel<BV>* obj1 = static_cast<const BVHModel<BV>* >(o1);
     const BVHModel<BV>* obj2 = static_cast<const BVHModel<BV>* >(o2);
-    BVHModel<BV>* obj1_tmp = new BVHModel<BV>(*obj1);
+    BVHModel<BV> obj1_tmp(*obj1);
     Transform3<S> tf1_tmp = tf1;
-    BVHModel<BV>* obj2_tmp = new BVHModel<BV>(*obj2);
+    BVHModel<BV> obj2_tmp(*obj2);
     Transform3<S> tf2_tmp = tf2;
 
-    initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result);
+    initialize(node, obj1_tmp, tf1_tmp, obj2_tmp, tf2_tmp, request, result, true, true);
     distance(&node);
-    delete obj1_tmp;
-    delete obj2_tmp;
 
     return result.min_distance;
   }
-- 
2.43.0


From 11bfe93976b6b178a269a1c99259b6560db1e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 26/54] fix: a query without a solver leaked the one it made
 when it threw or returned early

---
 include/fcl/narrowphase/collision-inl.h            | 8 ++------
 include/fcl/narrowphase/continuous_collision-inl.h | 8 ++------
 include/fcl/narrowphase/distance-inl.h             | 8 ++------
 3 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/include/fcl/narrowphase/collision-inl.h b/include/fcl/narrowphase/collision-inl.h
index 69f4c2c..b619f6d 100644
--- a/include/fcl/narrowphase/collision-inl.h
+++ b/include/fcl/narrowphase/collision-inl.h
@@ -101,9 +101,8 @@ std::size_t collide(
     const CollisionRequest<S>& request,
     CollisionResult<S>& result)
 {
-  const NarrowPhaseSolver* nsolver = nsolver_;
-  if(!nsolver_)
-    nsolver = new NarrowPhaseSolver();
+  NarrowPhaseSolver default_nsolver;
+  const NarrowPhaseSolver* nsolver = nsolver_ ? nsolver_ : &default_nsolver;
 
   const auto& looktable = getCollisionFunctionLookTable<NarrowPhaseSolver>();
 
@@ -142,9 +141,6 @@ std::size_t collide(
     }
   }
 
-  if(!nsolver_)
-    delete nsolver;
-
   return res;
 }
 
diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index 2f35518..974d040 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -315,9 +315,8 @@ typename NarrowPhaseSolver::S continuousCollideConservativeAdvancement(
 {
   using S = typename NarrowPhaseSolver::S;
 
-  const NarrowPhaseSolver* nsolver = nsolver_;
-  if(!nsolver_)
-    nsolver = new NarrowPhaseSolver();
+  NarrowPhaseSolver default_nsolver;
+  const NarrowPhaseSolver* nsolver = nsolver_ ? nsolver_ : &default_nsolver;
 
   const auto& looktable = getConservativeAdvancementFunctionLookTable<NarrowPhaseSolver>();
 
@@ -335,9 +334,6 @@ typename NarrowPhaseSolver::S continuousCollideConservativeAdvancement(
     res = looktable.conservative_advancement_matrix[node_type1][node_type2](o1, motion1, o2, motion2, nsolver, request, result);
   }
 
-  if(!nsolver_)
-    delete nsolver;
-
   if(result.is_collide)
   {
     motion1->integrate(result.time_of_contact);
diff --git a/include/fcl/narrowphase/distance-inl.h b/include/fcl/narrowphase/distance-inl.h
index 3244631..f508ae2 100644
--- a/include/fcl/narrowphase/distance-inl.h
+++ b/include/fcl/narrowphase/distance-inl.h
@@ -100,9 +100,8 @@ typename NarrowPhaseSolver::S distance(
 {
   using S = typename NarrowPhaseSolver::S;
 
-  const NarrowPhaseSolver* nsolver = nsolver_;
-  if(!nsolver_)
-    nsolver = new NarrowPhaseSolver();
+  NarrowPhaseSolver default_nsolver;
+  const NarrowPhaseSolver* nsolver = nsolver_ ? nsolver_ : &default_nsolver;
 
   const auto& looktable = getDistanceFunctionLookTable<NarrowPhaseSolver>();
 
@@ -186,9 +185,6 @@ typename NarrowPhaseSolver::S distance(
     }
   }
 
-  if(!nsolver_)
-    delete nsolver;
-
   return res;
 }
 
-- 
2.43.0


From 264105055534fe30243e747127da58a151eb0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 27/54] fix: signed distance overwrote a result that was
 satisfied before the call

It also read the deepest contact when the collision query reported none.
---
 include/fcl/narrowphase/distance-inl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/distance-inl.h b/include/fcl/narrowphase/distance-inl.h
index f508ae2..4309d9f 100644
--- a/include/fcl/narrowphase/distance-inl.h
+++ b/include/fcl/narrowphase/distance-inl.h
@@ -112,6 +112,8 @@ typename NarrowPhaseSolver::S distance(
 
   S res = std::numeric_limits<S>::max();
 
+  // A result that already satisfies the request is left as it is.
+  const bool already_satisfied = request.isSatisfied(result);
 
   if(object_type1 == OT_GEOM && object_type2 == OT_BVH)
   {
@@ -144,6 +146,7 @@ typename NarrowPhaseSolver::S distance(
   // pair of nearest points is not guaranteed to be on the surface of the
   // objects.
   if(res
+     && !already_satisfied
      && result.min_distance < static_cast<S>(0)
      && request.enable_signed_distance)
   {
@@ -175,7 +178,7 @@ typename NarrowPhaseSolver::S distance(
     result.min_distance = -max_pen_depth;
     assert(index != static_cast<std::size_t>(-1));
 
-    if (request.enable_nearest_points)
+    if (index != static_cast<std::size_t>(-1) && request.enable_nearest_points)
     {
       const Vector3<S>& pos = collision_result.getContact(index).pos;
       result.nearest_points[0] = pos;
-- 
2.43.0


From 956bf1f7e541c7f23d430e23f9e189732c98f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 28/54] fix: results of queries on copies of meshes named the
 destroyed copies

---
 .../detail/collision_func_matrix-inl.h        | 58 +++++++++++++++++--
 .../detail/distance_func_matrix-inl.h         |  7 +++
 2 files changed, 61 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
index 7176b93..7cd8355 100644
--- a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
@@ -310,6 +310,46 @@ std::size_t ShapeShapeCollide(
   return result.numContacts();
 }
 
+//==============================================================================
+/// @brief Add what was found on transformed copies of o1 and o2 to the result,
+/// naming the objects themselves rather than the copies.
+template <typename S>
+void addResultOfCopies(
+    CollisionResult<S>& found,
+    const CollisionGeometry<S>* o1,
+    const CollisionGeometry<S>* o2,
+    const CollisionRequest<S>& request,
+    CollisionResult<S>& result)
+{
+  for(std::size_t i = 0; i < found.numContacts(); ++i)
+  {
+    Contact<S> contact = found.getContact(i);
+    contact.o1 = o1;
+    contact.o2 = o2;
+    result.addContact(contact);
+  }
+
+  std::vector<CostSource<S>> cost_sources;
+  found.getCostSources(cost_sources);
+  for(const CostSource<S>& cost_source : cost_sources)
+    result.addCostSource(cost_source, request.num_max_cost_sources);
+}
+
+//==============================================================================
+/// @brief The request for what is still missing in the result.
+template <typename S>
+CollisionRequest<S> remainingRequest(
+    const CollisionRequest<S>& request, const CollisionResult<S>& result)
+{
+  CollisionRequest<S> remaining(request);
+  if(result.numContacts() < request.num_max_contacts)
+    remaining.num_max_contacts = request.num_max_contacts - result.numContacts();
+  else
+    remaining.num_max_contacts = 0;
+
+  return remaining;
+}
+
 //==============================================================================
 template <typename BV, typename Shape, typename NarrowPhaseSolver>
 struct BVHShapeCollider
@@ -329,8 +369,9 @@ struct BVHShapeCollider
 
     if(request.enable_cost && request.use_approximate_cost)
     {
-      CollisionRequest<S> no_cost_request(request);
+      CollisionRequest<S> no_cost_request(remainingRequest(request, result));
       no_cost_request.enable_cost = false;
+      CollisionResult<S> found;
 
       MeshShapeCollisionTraversalNode<BV, Shape, NarrowPhaseSolver> node;
       const BVHModel<BV>* obj1 = static_cast<const BVHModel<BV>* >(o1);
@@ -338,8 +379,9 @@ struct BVHShapeCollider
       Transform3<S> tf1_tmp = tf1;
       const Shape* obj2 = static_cast<const Shape*>(o2);
 
-      initialize(node, obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, no_cost_request, result, true, true);
+      initialize(node, obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, no_cost_request, found, true, true);
       fcl::detail::collide(&node);
+      addResultOfCopies<S>(found, o1, o2, no_cost_request, result);
 
       Box<S> box;
       Transform3<S> box_tf;
@@ -360,8 +402,12 @@ struct BVHShapeCollider
       Transform3<S> tf1_tmp = tf1;
       const Shape* obj2 = static_cast<const Shape*>(o2);
 
-      initialize(node, obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result, true, true);
+      const CollisionRequest<S> remaining_request(remainingRequest(request, result));
+      CollisionResult<S> found;
+
+      initialize(node, obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, remaining_request, found, true, true);
       fcl::detail::collide(&node);
+      addResultOfCopies<S>(found, o1, o2, request, result);
     }
 
     return result.numContacts();
@@ -539,8 +585,12 @@ struct BVHCollideImpl
     BVHModel<BV> obj2_tmp(*obj2);
     Transform3<S> tf2_tmp = tf2;
 
-    initialize(node, obj1_tmp, tf1_tmp, obj2_tmp, tf2_tmp, request, result, true, true);
+    const CollisionRequest<S> remaining_request(remainingRequest(request, result));
+    CollisionResult<S> found;
+
+    initialize(node, obj1_tmp, tf1_tmp, obj2_tmp, tf2_tmp, remaining_request, found, true, true);
     collide(&node);
+    addResultOfCopies<S>(found, o1, o2, request, result);
 
     return result.numContacts();
   }
diff --git a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
index f99fdb3..389f277 100644
--- a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
@@ -249,6 +249,9 @@ struct BVHShapeDistancer
     initialize(node, obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result, true, true);
     ::fcl::distance(&node);
 
+    // the copy does not outlive the query
+    if(result.o1 == &obj1_tmp) result.o1 = o1;
+
     return result.min_distance;
   }
 };
@@ -362,6 +365,10 @@ struct BVHDistanceImpl
     initialize(node, obj1_tmp, tf1_tmp, obj2_tmp, tf2_tmp, request, result, true, true);
     distance(&node);
 
+    // the copies do not outlive the query
+    if(result.o1 == &obj1_tmp) result.o1 = o1;
+    if(result.o2 == &obj2_tmp) result.o2 = o2;
+
     return result.min_distance;
   }
 };
-- 
2.43.0


From e46e78f23b28b607695d6754fc37e8fe54eead9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 29/54] fix: interpolated motions used a reference point that
 was never set

The two constructors without a reference point read whatever the memory
held; the one given two transforms and a reference point never computed
its velocities.
---
 include/fcl/math/motion/interp_motion-inl.h | 22 ++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/fcl/math/motion/interp_motion-inl.h b/include/fcl/math/motion/interp_motion-inl.h
index c006841..a81927b 100644
--- a/include/fcl/math/motion/interp_motion-inl.h
+++ b/include/fcl/math/motion/interp_motion-inl.h
@@ -50,10 +50,16 @@ class FCL_EXPORT InterpMotion<double>;
 //==============================================================================
 template <typename S>
 InterpMotion<S>::InterpMotion()
-  : MotionBase<S>(), angular_axis(Vector3<S>::UnitX())
+  : MotionBase<S>(),
+    tf1(Transform3<S>::Identity()),
+    tf2(Transform3<S>::Identity()),
+    tf(Transform3<S>::Identity()),
+    linear_vel(Vector3<S>::Zero()),
+    angular_vel(0),
+    angular_axis(Vector3<S>::UnitX()),
+    reference_p(Vector3<S>::Zero())
 {
   // Default angular velocity is zero
-  angular_vel = 0;
 
   // Default reference point is local zero point
 
@@ -67,7 +73,8 @@ InterpMotion<S>::InterpMotion(
     const Matrix3<S>& R2, const Vector3<S>& T2)
   : MotionBase<S>(),
     tf1(Transform3<S>::Identity()),
-    tf2(Transform3<S>::Identity())
+    tf2(Transform3<S>::Identity()),
+    reference_p(Vector3<S>::Zero())
 {
   tf1.linear() = R1;
   tf1.translation() = T1;
@@ -85,7 +92,11 @@ InterpMotion<S>::InterpMotion(
 template <typename S>
 InterpMotion<S>::InterpMotion(
     const Transform3<S>& tf1_, const Transform3<S>& tf2_)
-  : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1)
+  : MotionBase<S>(),
+    tf1(tf1_),
+    tf2(tf2_),
+    tf(tf1),
+    reference_p(Vector3<S>::Zero())
 {
   // Compute the velocities for the motion
   computeVelocity();
@@ -122,7 +133,8 @@ InterpMotion<S>::InterpMotion(
     const Transform3<S>& tf1_, const Transform3<S>& tf2_, const Vector3<S>& O)
   : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1), reference_p(O)
 {
-  // Do nothing
+  // Compute the velocities for the motion
+  computeVelocity();
 }
 
 //==============================================================================
-- 
2.43.0


From c882398d1713dbd91b877a996e5be9eb57ed239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 30/54] fix: spline motions between two transforms had no
 control points

They were left unset, so that continuous queries asked for spline motions
answered by what the memory held.
---
 include/fcl/math/motion/spline_motion-inl.h | 38 ++++++++++++++-------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/fcl/math/motion/spline_motion-inl.h b/include/fcl/math/motion/spline_motion-inl.h
index e3d992d..6d7ee14 100644
--- a/include/fcl/math/motion/spline_motion-inl.h
+++ b/include/fcl/math/motion/spline_motion-inl.h
@@ -90,30 +90,44 @@ SplineMotion<S>::SplineMotion(
 }
 
 //==============================================================================
+namespace detail
+{
+
+/// @brief The rotation vector (axis times angle) of a rotation matrix.
+template <typename S>
+Vector3<S> computeRotationVector(const Matrix3<S>& R)
+{
+  const AngleAxis<S> aa(R);
+  return aa.axis() * aa.angle();
+}
+
+} // namespace detail
+
+//==============================================================================
+// The control points are placed so that the spline is the straight line (of
+// positions and of rotation vectors) from the first to the second transform.
 template <typename S>
 SplineMotion<S>::SplineMotion(
     const Matrix3<S>& R1, const Vector3<S>& T1,
     const Matrix3<S>& R2, const Vector3<S>& T2)
-  : MotionBase<S>()
+  : SplineMotion<S>(
+      T1 * 2 - T2, T1, T2, T2 * 2 - T1,
+      detail::computeRotationVector<S>(R1) * 2 - detail::computeRotationVector<S>(R2),
+      detail::computeRotationVector<S>(R1),
+      detail::computeRotationVector<S>(R2),
+      detail::computeRotationVector<S>(R2) * 2 - detail::computeRotationVector<S>(R1))
 {
-  FCL_UNUSED(R1);
-  FCL_UNUSED(T1);
-  FCL_UNUSED(R2);
-  FCL_UNUSED(T2);
-
-  // TODO
+  // Do nothing
 }
 
 //==============================================================================
 template <typename S>
 SplineMotion<S>::SplineMotion(
     const Transform3<S>& tf1, const Transform3<S>& tf2)
-  : MotionBase<S>()
+  : SplineMotion<S>(
+      tf1.linear(), tf1.translation(), tf2.linear(), tf2.translation())
 {
-  FCL_UNUSED(tf1);
-  FCL_UNUSED(tf2);
-
-  // TODO
+  // Do nothing
 }
 
 //==============================================================================
-- 
2.43.0


From 5fa1efc934d7fe9d3df2e3894a7e44ad9310156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 31/54] fix: screw motions without rotation moved by the square
 of their distance

---
 include/fcl/math/motion/screw_motion-inl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fcl/math/motion/screw_motion-inl.h b/include/fcl/math/motion/screw_motion-inl.h
index ae72d6c..93faf1f 100644
--- a/include/fcl/math/motion/screw_motion-inl.h
+++ b/include/fcl/math/motion/screw_motion-inl.h
@@ -174,6 +174,10 @@ void ScrewMotion<S>::computeScrewParameter()
     angular_vel = 0;
     axis = tf2.translation() - tf1.translation();
     linear_vel = axis.norm();
+    if(linear_vel > 0)
+      axis /= linear_vel;
+    else
+      axis = Vector3<S>::UnitX();
     p = tf1.translation();
   }
   else
-- 
2.43.0


From 9f301ca9d53a85b7b776c3e3e11d28a905f5a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:46 +0000
Subject: [PATCH 32/54] fix: collisions of planes and half-spaces with AABB and
 k-DOP meshes, and of planes with convex polytopes, crashed

The general algorithm has no support function for unbounded shapes; it
called a null pointer (libccd) or used the origin (indep).
---
 .../narrowphase/detail/gjk_solver_indep-inl.h | 43 +++++++++++++++++++
 .../detail/gjk_solver_libccd-inl.h            | 43 +++++++++++++++++++
 .../primitive_shape_algorithm/plane-inl.h     | 18 ++++++++
 .../detail/primitive_shape_algorithm/plane.h  |  6 +++
 4 files changed, 110 insertions(+)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index fd78927..a76c225 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -269,6 +269,7 @@ FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Box, Plane, detail::boxPlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Capsule, Plane, detail::capsulePlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Cylinder, Plane, detail::cylinderPlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Cone, Plane, detail::conePlaneIntersect)
+FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Convex, Plane, detail::convexPlaneIntersect)
 
 template <typename S>
 struct ShapeIntersectIndepImpl<S, Halfspace<S>, Halfspace<S>>
@@ -444,6 +445,48 @@ struct ShapeTriangleIntersectIndepImpl<S, Sphere<S>>
 };
 
 
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectIndepImpl<S, Halfspace<S>>
+{
+  static bool run(
+      const GJKSolver_indep<S>& /*gjkSolver*/,
+      const Halfspace<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::halfspaceTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectIndepImpl<S, Plane<S>>
+{
+  static bool run(
+      const GJKSolver_indep<S>& /*gjkSolver*/,
+      const Plane<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::planeTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
 //==============================================================================
 template<typename S, typename Shape>
 struct ShapeTransformedTriangleIntersectIndepImpl
diff --git a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
index 7207292..695113e 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
@@ -265,6 +265,7 @@ FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Box, Plane, detail::boxPlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Capsule, Plane, detail::capsulePlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Cylinder, Plane, detail::cylinderPlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Cone, Plane, detail::conePlaneIntersect)
+FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Convex, Plane, detail::convexPlaneIntersect)
 
 template <typename S>
 struct ShapeIntersectLibccdImpl<S, Halfspace<S>, Halfspace<S>>
@@ -418,6 +419,48 @@ struct ShapeTriangleIntersectLibccdImpl<S, Sphere<S>>
   }
 };
 
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectLibccdImpl<S, Halfspace<S>>
+{
+  static bool run(
+      const GJKSolver_libccd<S>& /*gjkSolver*/,
+      const Halfspace<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::halfspaceTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectLibccdImpl<S, Plane<S>>
+{
+  static bool run(
+      const GJKSolver_libccd<S>& /*gjkSolver*/,
+      const Plane<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::planeTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
 //==============================================================================
 template<typename S, typename Shape>
 struct ShapeTransformedTriangleIntersectLibccdImpl
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 1373dce..d8e93fd 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -677,6 +677,24 @@ bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
   }
 }
 
+//==============================================================================
+template <typename S>
+bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
+                          const Plane<S>& s2, const Transform3<S>& tf2,
+                          std::vector<ContactPoint<S>>* contacts)
+{
+  Vector3<S> point, normal;
+  S penetration_depth;
+
+  if(!convexPlaneIntersect(s1, tf1, s2, tf2, &point, &penetration_depth, &normal))
+    return false;
+
+  if(contacts)
+    contacts->emplace_back(normal, point, penetration_depth);
+
+  return true;
+}
+
 //==============================================================================
 template <typename S>
 bool planeTriangleIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
index 86b141f..05c98cb 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
@@ -130,6 +130,12 @@ bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
                           const Plane<S>& s2, const Transform3<S>& tf2,
                           Vector3<S>* contact_points, S* penetration_depth, Vector3<S>* normal);
 
+template <typename S>
+FCL_EXPORT
+bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
+                          const Plane<S>& s2, const Transform3<S>& tf2,
+                          std::vector<ContactPoint<S>>* contacts);
+
 template <typename S>
 FCL_EXPORT
 bool planeTriangleIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
-- 
2.43.0


From 849d94f6fe27b07a7eee9a22712d3b62651cc43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 33/54] fix: conservative advancement of a shape against a mesh
 recursed for ever

---
 .../distance/shape_bvh_distance_traversal_node-inl.h       | 7 +++++++
 .../traversal/distance/shape_bvh_distance_traversal_node.h | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h
index 1478e92..232665e 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h
@@ -61,6 +61,13 @@ ShapeBVHDistanceTraversalNode<Shape, BV>::ShapeBVHDistanceTraversalNode()
   query_time_seconds = 0.0;
 }
 
+//==============================================================================
+template<typename Shape, typename BV>
+bool ShapeBVHDistanceTraversalNode<Shape, BV>::firstOverSecond(int, int) const
+{
+  return false;
+}
+
 //==============================================================================
 template<typename Shape, typename BV>
 bool ShapeBVHDistanceTraversalNode<Shape, BV>::isSecondNodeLeaf(int b) const
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h
index 53176cf..1e63c66 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h
@@ -59,6 +59,9 @@ public:
 
   ShapeBVHDistanceTraversalNode();
 
+  /// @brief Always extend the second model, which is a BVH model
+  bool firstOverSecond(int, int) const;
+
   /// @brief Whether the BV node in the second BVH tree is leaf
   bool isSecondNodeLeaf(int b) const;
 
-- 
2.43.0


From 581db216803174f2f0bd09b42e3a133b80efcaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:46 +0000
Subject: [PATCH 34/54] fix: the distance of a sphere to a triangle it touches
 was never set

---
 .../detail/primitive_shape_algorithm/sphere_triangle-inl.h   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index 0078900..73eb117 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -485,7 +485,10 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf,
       return true;
     }
     else
+    {
+      if(dist) *dist = -1;
       return false;
+    }
   }
   else
   {
@@ -500,7 +503,7 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf1,
                             S* dist, Vector3<S>* p1, Vector3<S>* p2)
 {
   bool res = detail::sphereTriangleDistance(sp, tf1, tf2 * P1, tf2 * P2, tf2 * P3, dist, p1, p2);
-  if(p2) *p2 = tf2.inverse(Eigen::Isometry) * (*p2);
+  if(res && p2) *p2 = tf2.inverse(Eigen::Isometry) * (*p2);
 
   return res;
 }
-- 
2.43.0


From 02866742d6cc1d8afc3e39f87f2e25d3d291e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 35/54] fix: penetration depths depended on where the edges of
 the polytope lay in memory

---
 .../convexity_based_algorithm/gjk_libccd-inl.h    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index 3090fc7..e37fe7d 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -44,6 +44,7 @@
 #include <string>
 #include <unordered_map>
 #include <unordered_set>
+#include <vector>
 
 #include "fcl/common/unused.h"
 #include "fcl/common/warning.h"
@@ -1477,6 +1478,18 @@ static int expandPolytope(ccd_pt_t *polytope, ccd_pt_el_t *el,
   // all vertices has at least one face/edge invisible from the new vertex
   // `newv`.
 
+  // Take the border edges in the order in which the polytope lists them. The
+  // order of the set depends on where the edges lie in memory, and the order in
+  // which faces are added decides between faces at the same distance.
+  std::vector<ccd_pt_edge_t*> ordered_border_edges;
+  ordered_border_edges.reserve(border_edges.size());
+  ccd_pt_edge_t* polytope_edge;
+  ccdListForEachEntry(&polytope->edges, polytope_edge, ccd_pt_edge_t, list) {
+    if (border_edges.count(polytope_edge) > 0) {
+      ordered_border_edges.push_back(polytope_edge);
+    }
+  }
+
   // Now add the new vertex.
   ccd_pt_vertex_t* new_vertex = ccdPtAddVertex(polytope, newv);
 
@@ -1485,7 +1498,7 @@ static int expandPolytope(ccd_pt_t *polytope, ccd_pt_el_t *el,
   // edges to a new edge, with one end being the new vertex, and the other end
   // being that vertex on the silhouette edges.
   std::unordered_map<ccd_pt_vertex_t*, ccd_pt_edge_t*> map_vertex_to_new_edge;
-  for (const auto& border_edge : border_edges) {
+  for (const auto& border_edge : ordered_border_edges) {
     ccd_pt_edge_t* e[2];  // The two new edges added by connecting new_vertex
                           // to the two vertices on border_edge.
     for (int i = 0; i < 2; ++i) {
-- 
2.43.0


From 26a61bbf70534f4a4ae57a6ee799d64391b430d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 36/54] fix: conservative advancement of a mesh touching a
 shape read unset closest points

---
 ...servative_advancement_traversal_node-inl.h | 19 ++++++++++++++++++-
 ...servative_advancement_traversal_node-inl.h | 11 ++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
index 20ee58d..3e2d7f1 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
@@ -99,7 +99,8 @@ leafTesting(int b1, int b2) const
   const Vector3<S>& p3 = this->vertices[tri_id[2]];
 
   S d;
-  Vector3<S> P1, P2;
+  Vector3<S> P1 = Vector3<S>::Zero();
+  Vector3<S> P2 = Vector3<S>::Zero();
   this->nsolver->shapeTriangleDistance(*(this->model2), this->tf2, p1, p2, p3, &d, &P2, &P1);
 
   if(d < this->min_distance)
@@ -112,6 +113,14 @@ leafTesting(int b1, int b2) const
     last_tri_id = primitive_id;
   }
 
+  if(d <= 0)
+  {
+    // in contact: there are no closest points to take a direction from, and no
+    // further motion is safe
+    if(delta_t > 0) delta_t = 0;
+    return;
+  }
+
   Vector3<S> n = this->tf2 * p2 - P1; n.normalize();
   // here n should be in global frame
   TriangleMotionBoundVisitor<S> mb_visitor1(p1, p2, p3, n);
@@ -262,6 +271,14 @@ void meshShapeConservativeAdvancementOrientedNodeLeafTesting(
     last_tri_id = primitive_id;
   }
 
+  if(distance <= 0)
+  {
+    // in contact: there are no closest points to take a direction from, and no
+    // further motion is safe
+    if(delta_t > 0) delta_t = 0;
+    return;
+  }
+
   // n is in global frame
   Vector3<S> n = P2 - P1; n.normalize();
 
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
index 45ae86f..17d479e 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
@@ -98,7 +98,8 @@ void ShapeMeshConservativeAdvancementTraversalNode<Shape, BV, NarrowPhaseSolver>
   const Vector3<S>& p3 = this->vertices[tri_id[2]];
 
   S d;
-  Vector3<S> P1, P2;
+  Vector3<S> P1 = Vector3<S>::Zero();
+  Vector3<S> P2 = Vector3<S>::Zero();
   this->nsolver->shapeTriangleDistance(*(this->model1), this->tf1, p1, p2, p3, &d, &P1, &P2);
 
   if(d < this->min_distance)
@@ -111,6 +112,14 @@ void ShapeMeshConservativeAdvancementTraversalNode<Shape, BV, NarrowPhaseSolver>
     last_tri_id = primitive_id;
   }
 
+  if(d <= 0)
+  {
+    // in contact: there are no closest points to take a direction from, and no
+    // further motion is safe
+    if(delta_t > 0) delta_t = 0;
+    return;
+  }
+
   Vector3<S> n = P2 - this->tf1 * p1; n.normalize();
   // here n should be in global frame
   TBVMotionBoundVisitor<BV> mb_visitor1(this->model1_bv, n);
-- 
2.43.0


From 91882e8ee7037f688bf6facf2d1184e702143b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 37/54] fix: a failed allocation left the sweep-and-prune
 manager half updated

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 83 +++++++++++++++------
 include/fcl/broadphase/broadphase_SaP.h     |  1 +
 2 files changed, 61 insertions(+), 23 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 1265a37..80b0123 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -111,23 +111,35 @@ void SaPCollisionManager<S>::registerObjects(const std::vector<CollisionObject<S
   {
     std::vector<EndPoint*> endpoints(2 * other_objs.size());
 
-    for(size_t i = 0; i < other_objs.size(); ++i)
+    try
     {
-      SaPAABB* sapaabb = new SaPAABB();
-      sapaabb->obj = other_objs[i];
-      sapaabb->lo = new EndPoint();
-      sapaabb->hi = new EndPoint();
-      sapaabb->cached = other_objs[i]->getAABB();
-      endpoints[2 * i] = sapaabb->lo;
-      endpoints[2 * i + 1] = sapaabb->hi;
-      sapaabb->lo->minmax = 0;
-      sapaabb->hi->minmax = 1;
-      sapaabb->lo->aabb = sapaabb;
-      sapaabb->hi->aabb = sapaabb;
-      AABB_arr.push_back(sapaabb);
-      obj_aabb_map[other_objs[i]] = sapaabb;
+      for(size_t i = 0; i < other_objs.size(); ++i)
+      {
+        std::unique_ptr<SaPAABB> new_aabb(new SaPAABB());
+        std::unique_ptr<EndPoint> new_lo(new EndPoint());
+        std::unique_ptr<EndPoint> new_hi(new EndPoint());
+        AABB_arr.push_back(new_aabb.get());
+
+        // the list owns them from here on
+        SaPAABB* sapaabb = new_aabb.release();
+        sapaabb->obj = other_objs[i];
+        sapaabb->lo = new_lo.release();
+        sapaabb->hi = new_hi.release();
+        sapaabb->cached = other_objs[i]->getAABB();
+        endpoints[2 * i] = sapaabb->lo;
+        endpoints[2 * i + 1] = sapaabb->hi;
+        sapaabb->lo->minmax = 0;
+        sapaabb->hi->minmax = 1;
+        sapaabb->lo->aabb = sapaabb;
+        sapaabb->hi->aabb = sapaabb;
+        obj_aabb_map[other_objs[i]] = sapaabb;
+      }
+    }
+    catch(...)
+    {
+      clear();
+      throw;
     }
-
 
     S scale[3];
     for(size_t coord = 0; coord < 3; ++coord)
@@ -193,23 +205,52 @@ void SaPCollisionManager<S>::registerObjects(const std::vector<CollisionObject<S
 template <typename S>
 void SaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
 {
-  SaPAABB* curr = new SaPAABB;
+  // everything that may fail comes before any change to the lists
+  std::unique_ptr<SaPAABB> new_aabb(new SaPAABB);
+  std::unique_ptr<EndPoint> new_lo(new EndPoint);
+  std::unique_ptr<EndPoint> new_hi(new EndPoint);
+
+  SaPAABB* curr = new_aabb.get();
   curr->cached = obj->getAABB();
   curr->obj = obj;
-  curr->lo = new EndPoint;
+  curr->lo = new_lo.get();
   curr->lo->minmax = 0;
   curr->lo->aabb = curr;
 
-  curr->hi = new EndPoint;
+  curr->hi = new_hi.get();
   curr->hi->minmax = 1;
   curr->hi->aabb = curr;
 
+  std::list<SaPPair> new_pairs;
   for(auto it = AABB_arr.cbegin(), end = AABB_arr.cend(); it != end; ++it)
   {
     if((*it)->cached.overlap(curr->cached))
-      overlap_pairs.emplace_back((*it)->obj, obj);
+      new_pairs.emplace_back((*it)->obj, obj);
+  }
+
+  const size_t num_end_points = 2 * (AABB_arr.size() + 1);
+  for(int coord = 0; coord < 3; ++coord)
+  {
+    if(velist[coord].capacity() < num_end_points)
+      velist[coord].reserve(2 * num_end_points);
   }
 
+  AABB_arr.push_back(curr);
+  try
+  {
+    obj_aabb_map[obj] = curr;
+  }
+  catch(...)
+  {
+    AABB_arr.pop_back();
+    throw;
+  }
+
+  new_aabb.release();
+  new_lo.release();
+  new_hi.release();
+  overlap_pairs.splice(overlap_pairs.end(), new_pairs);
+
   for(int coord = 0; coord < 3; ++coord)
   {
     // find the last end point before the lo end point, and insert it there
@@ -233,10 +274,6 @@ void SaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
     insertEndPoint(curr->hi, prev, coord);
   }
 
-  AABB_arr.push_back(curr);
-
-  obj_aabb_map[obj] = curr;
-
   updateVelist();
 }
 
diff --git a/include/fcl/broadphase/broadphase_SaP.h b/include/fcl/broadphase/broadphase_SaP.h
index d4da007..133ed93 100644
--- a/include/fcl/broadphase/broadphase_SaP.h
+++ b/include/fcl/broadphase/broadphase_SaP.h
@@ -40,6 +40,7 @@
 
 #include <map>
 #include <list>
+#include <memory>
 
 #include "fcl/broadphase/broadphase_collision_manager.h"
 
-- 
2.43.0


From a5fb65728101e719da10d1ec1de5444de859c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 38/54] fix: the spatial hash manager leaked its table when it
 could not be set up

---
 include/fcl/broadphase/broadphase_spatialhash-inl.h | 7 +++++--
 include/fcl/broadphase/broadphase_spatialhash.h     | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 53a9e3f..129f755 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -58,9 +58,12 @@ SpatialHashingCollisionManager<S, HashTable>::SpatialHashingCollisionManager(
     const Vector3<S>& scene_max,
     unsigned int default_table_size)
   : scene_limit(AABB<S>(scene_min, scene_max)),
-    hash_table(new HashTable(detail::SpatialHash<S>(scene_limit, cell_size)))
+    hash_table(nullptr)
 {
-  hash_table->init(default_table_size);
+  std::unique_ptr<HashTable> table(
+        new HashTable(detail::SpatialHash<S>(scene_limit, cell_size)));
+  table->init(default_table_size);
+  hash_table = table.release();
 }
 
 //==============================================================================
diff --git a/include/fcl/broadphase/broadphase_spatialhash.h b/include/fcl/broadphase/broadphase_spatialhash.h
index f2df5b3..be4f47d 100644
--- a/include/fcl/broadphase/broadphase_spatialhash.h
+++ b/include/fcl/broadphase/broadphase_spatialhash.h
@@ -40,6 +40,7 @@
 
 #include <list>
 #include <map>
+#include <memory>
 #include "fcl/math/bv/AABB.h"
 #include "fcl/broadphase/broadphase_collision_manager.h"
 #include "fcl/broadphase/detail/simple_hash_table.h"
-- 
2.43.0


From 00cd86d6e3591831e44acb2a2c5af76159eca5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 39/54] fix: an incomplete hierarchy was used after a failed
 build, and copies could not be rebuilt

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 39 ++++++++++++++++++++----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 3aa687f..1da63c1 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -141,10 +141,11 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
   else
     primitive_indices = nullptr;
 
-  num_bvs = num_bvs_allocated = other.num_bvs;
+  num_bvs = other.num_bvs;
+  num_bvs_allocated = other.num_bvs_allocated;
   if(other.bvs)
   {
-    bvs = new BVNode<BV>[num_bvs];
+    bvs = new BVNode<BV>[num_bvs_allocated];
     std::copy(other.bvs, other.bvs + num_bvs, bvs);
   }
   else
@@ -543,12 +544,29 @@ int BVHModel<BV>::endModel()
   if(!bvs || !primitive_indices)
   {
     std::cerr << "BVH Error! Out of memory for BV array in endModel()!\n";
+    delete [] bvs;
+    delete [] primitive_indices;
+    bvs = nullptr;
+    primitive_indices = nullptr;
     return BVH_ERR_MODEL_OUT_OF_MEMORY;
   }
   num_bvs_allocated = num_bvs_to_be_allocated;
   num_bvs = 0;
 
-  buildTree();
+  try
+  {
+    buildTree();
+  }
+  catch(...)
+  {
+    // the model may still grow before the hierarchy is built
+    delete [] bvs;
+    delete [] primitive_indices;
+    bvs = nullptr;
+    primitive_indices = nullptr;
+    num_bvs_allocated = 0;
+    throw;
+  }
 
   // finish constructing
   build_state = BVH_BUILD_STATE_PROCESSED;
@@ -663,7 +681,7 @@ int BVHModel<BV>::endReplaceModel(bool refit, bool bottomup)
     return BVH_ERR_INCORRECT_DATA;
   }
 
-  if(refit)  // refit, do not change BVH structure
+  if(refit && num_bvs > 0)  // refit, do not change BVH structure
   {
     refitTree(bottomup);
   }
@@ -791,7 +809,7 @@ int BVHModel<BV>::endUpdateModel(bool refit, bool bottomup)
     return BVH_ERR_INCORRECT_DATA;
   }
 
-  if(refit)  // refit, do not change BVH structure
+  if(refit && num_bvs > 0)  // refit, do not change BVH structure
   {
     refitTree(bottomup);
   }
@@ -932,7 +950,16 @@ int BVHModel<BV>::buildTree()
 
   for(int i = 0; i < num_primitives; ++i)
     primitive_indices[i] = i;
-  recursiveBuildTree(0, 0, num_primitives);
+  try
+  {
+    recursiveBuildTree(0, 0, num_primitives);
+  }
+  catch(...)
+  {
+    // an incomplete hierarchy must not be used
+    num_bvs = 0;
+    throw;
+  }
 
   bv_fitter->clear();
   bv_splitter->clear();
-- 
2.43.0


From 8a63cc93db67b1acc48f7adfeb5a02d897dc14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 40/54] fix: shapes prepared for libccd leaked when a query
 ended with an exception

---
 .../detail/gjk_solver_libccd-inl.h            | 111 ++++++++++--------
 1 file changed, 60 insertions(+), 51 deletions(-)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
index 695113e..cd7a78a 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
@@ -41,6 +41,7 @@
 #include "fcl/narrowphase/detail/gjk_solver_libccd.h"
 
 #include <algorithm>
+#include <memory>
 
 #include "fcl/common/unused.h"
 
@@ -66,6 +67,11 @@ namespace detail
 extern template
 struct GJKSolver_libccd<double>;
 
+//==============================================================================
+/// The representation of a shape that is handed to libccd. It is deleted
+/// however the query that created it ends.
+using GJKObject = std::unique_ptr<void, void (*)(void*)>;
+
 //==============================================================================
 template<typename S>
 template<typename Shape1, typename Shape2>
@@ -117,8 +123,12 @@ struct ShapeIntersectLibccdImpl
       const Shape2& s2, const Transform3<S>& tf2,
       std::vector<ContactPoint<S>>* contacts)
   {
-    void* o1 = detail::GJKInitializer<S, Shape1>::createGJKObject(s1, tf1);
-    void* o2 = detail::GJKInitializer<S, Shape2>::createGJKObject(s2, tf2);
+    const detail::GJKObject o1(
+          detail::GJKInitializer<S, Shape1>::createGJKObject(s1, tf1),
+          &detail::GJKInitializer<S, Shape1>::deleteGJKObject);
+    const detail::GJKObject o2(
+          detail::GJKInitializer<S, Shape2>::createGJKObject(s2, tf2),
+          &detail::GJKInitializer<S, Shape2>::deleteGJKObject);
 
     bool res;
 
@@ -128,10 +138,10 @@ struct ShapeIntersectLibccdImpl
       Vector3<S> point;
       S depth;
       res = detail::GJKCollide<S>(
-            o1,
+            o1.get(),
             detail::GJKInitializer<S, Shape1>::getSupportFunction(),
             detail::GJKInitializer<S, Shape1>::getCenterFunction(),
-            o2, detail::GJKInitializer<S, Shape2>::getSupportFunction(),
+            o2.get(), detail::GJKInitializer<S, Shape2>::getSupportFunction(),
             detail::GJKInitializer<S, Shape2>::getCenterFunction(),
             gjkSolver.max_collision_iterations,
             gjkSolver.collision_tolerance,
@@ -143,10 +153,10 @@ struct ShapeIntersectLibccdImpl
     else
     {
       res = detail::GJKCollide<S>(
-            o1,
+            o1.get(),
             detail::GJKInitializer<S, Shape1>::getSupportFunction(),
             detail::GJKInitializer<S, Shape1>::getCenterFunction(),
-            o2,
+            o2.get(),
             detail::GJKInitializer<S, Shape2>::getSupportFunction(),
             detail::GJKInitializer<S, Shape2>::getCenterFunction(),
             gjkSolver.max_collision_iterations,
@@ -156,9 +166,6 @@ struct ShapeIntersectLibccdImpl
             nullptr);
     }
 
-    detail::GJKInitializer<S, Shape1>::deleteGJKObject(o1);
-    detail::GJKInitializer<S, Shape2>::deleteGJKObject(o2);
-
     return res;
   }
 };
@@ -360,14 +367,17 @@ struct ShapeTriangleIntersectLibccdImpl
       S* penetration_depth,
       Vector3<S>* normal)
   {
-    void* o1 = detail::GJKInitializer<S, Shape>::createGJKObject(s, tf);
-    void* o2 = detail::triCreateGJKObject(P1, P2, P3);
+    const detail::GJKObject o1(
+          detail::GJKInitializer<S, Shape>::createGJKObject(s, tf),
+          &detail::GJKInitializer<S, Shape>::deleteGJKObject);
+    const detail::GJKObject o2(
+          detail::triCreateGJKObject(P1, P2, P3), &detail::triDeleteGJKObject);
 
     bool res = detail::GJKCollide<S>(
-          o1,
+          o1.get(),
           detail::GJKInitializer<S, Shape>::getSupportFunction(),
           detail::GJKInitializer<S, Shape>::getCenterFunction(),
-          o2,
+          o2.get(),
           detail::triGetSupportFunction(),
           detail::triGetCenterFunction(),
           gjkSolver.max_collision_iterations,
@@ -376,9 +386,6 @@ struct ShapeTriangleIntersectLibccdImpl
           penetration_depth,
           normal);
 
-    detail::GJKInitializer<S, Shape>::deleteGJKObject(o1);
-    detail::triDeleteGJKObject(o2);
-
     return res;
   }
 };
@@ -477,14 +484,17 @@ struct ShapeTransformedTriangleIntersectLibccdImpl
       S* penetration_depth,
       Vector3<S>* normal)
   {
-    void* o1 = detail::GJKInitializer<S, Shape>::createGJKObject(s, tf1);
-    void* o2 = detail::triCreateGJKObject(P1, P2, P3, tf2);
+    const detail::GJKObject o1(
+          detail::GJKInitializer<S, Shape>::createGJKObject(s, tf1),
+          &detail::GJKInitializer<S, Shape>::deleteGJKObject);
+    const detail::GJKObject o2(
+          detail::triCreateGJKObject(P1, P2, P3, tf2), &detail::triDeleteGJKObject);
 
     bool res = detail::GJKCollide<S>(
-          o1,
+          o1.get(),
           detail::GJKInitializer<S, Shape>::getSupportFunction(),
           detail::GJKInitializer<S, Shape>::getCenterFunction(),
-          o2,
+          o2.get(),
           detail::triGetSupportFunction(),
           detail::triGetCenterFunction(),
           gjkSolver.max_collision_iterations,
@@ -493,9 +503,6 @@ struct ShapeTransformedTriangleIntersectLibccdImpl
           penetration_depth,
           normal);
 
-    detail::GJKInitializer<S, Shape>::deleteGJKObject(o1);
-    detail::triDeleteGJKObject(o2);
-
     return res;
   }
 };
@@ -600,13 +607,17 @@ struct ShapeSignedDistanceLibccdImpl
       Vector3<S>* p1,
       Vector3<S>* p2)
   {
-    void* o1 = detail::GJKInitializer<S, Shape1>::createGJKObject(s1, tf1);
-    void* o2 = detail::GJKInitializer<S, Shape2>::createGJKObject(s2, tf2);
+    const detail::GJKObject o1(
+          detail::GJKInitializer<S, Shape1>::createGJKObject(s1, tf1),
+          &detail::GJKInitializer<S, Shape1>::deleteGJKObject);
+    const detail::GJKObject o2(
+          detail::GJKInitializer<S, Shape2>::createGJKObject(s2, tf2),
+          &detail::GJKInitializer<S, Shape2>::deleteGJKObject);
 
     bool res = detail::GJKSignedDistance(
-          o1,
+          o1.get(),
           detail::GJKInitializer<S, Shape1>::getSupportFunction(),
-          o2,
+          o2.get(),
           detail::GJKInitializer<S, Shape2>::getSupportFunction(),
           gjkSolver.max_distance_iterations,
           gjkSolver.distance_tolerance,
@@ -614,9 +625,6 @@ struct ShapeSignedDistanceLibccdImpl
           p1,
           p2);
 
-    detail::GJKInitializer<S, Shape1>::deleteGJKObject(o1);
-    detail::GJKInitializer<S, Shape2>::deleteGJKObject(o2);
-
     return res;
   }
 };
@@ -657,13 +665,17 @@ struct ShapeDistanceLibccdImpl
       Vector3<S>* p1,
       Vector3<S>* p2)
   {
-    void* o1 = detail::GJKInitializer<S, Shape1>::createGJKObject(s1, tf1);
-    void* o2 = detail::GJKInitializer<S, Shape2>::createGJKObject(s2, tf2);
+    const detail::GJKObject o1(
+          detail::GJKInitializer<S, Shape1>::createGJKObject(s1, tf1),
+          &detail::GJKInitializer<S, Shape1>::deleteGJKObject);
+    const detail::GJKObject o2(
+          detail::GJKInitializer<S, Shape2>::createGJKObject(s2, tf2),
+          &detail::GJKInitializer<S, Shape2>::deleteGJKObject);
 
     bool res =  detail::GJKDistance(
-          o1,
+          o1.get(),
           detail::GJKInitializer<S, Shape1>::getSupportFunction(),
-          o2,
+          o2.get(),
           detail::GJKInitializer<S, Shape2>::getSupportFunction(),
           gjkSolver.max_distance_iterations,
           gjkSolver.distance_tolerance,
@@ -671,9 +683,6 @@ struct ShapeDistanceLibccdImpl
           p1,
           p2);
 
-    detail::GJKInitializer<S, Shape1>::deleteGJKObject(o1);
-    detail::GJKInitializer<S, Shape2>::deleteGJKObject(o2);
-
     return res;
   }
 };
@@ -876,13 +885,16 @@ struct ShapeTriangleDistanceLibccdImpl
       Vector3<S>* p1,
       Vector3<S>* p2)
   {
-    void* o1 = detail::GJKInitializer<S, Shape>::createGJKObject(s, tf);
-    void* o2 = detail::triCreateGJKObject(P1, P2, P3);
+    const detail::GJKObject o1(
+          detail::GJKInitializer<S, Shape>::createGJKObject(s, tf),
+          &detail::GJKInitializer<S, Shape>::deleteGJKObject);
+    const detail::GJKObject o2(
+          detail::triCreateGJKObject(P1, P2, P3), &detail::triDeleteGJKObject);
 
     bool res = detail::GJKDistance(
-          o1,
+          o1.get(),
           detail::GJKInitializer<S, Shape>::getSupportFunction(),
-          o2,
+          o2.get(),
           detail::triGetSupportFunction(),
           gjkSolver.max_distance_iterations,
           gjkSolver.distance_tolerance,
@@ -890,9 +902,6 @@ struct ShapeTriangleDistanceLibccdImpl
           p1,
           p2);
 
-    detail::GJKInitializer<S, Shape>::deleteGJKObject(o1);
-    detail::triDeleteGJKObject(o2);
-
     return res;
   }
 };
@@ -949,13 +958,16 @@ struct ShapeTransformedTriangleDistanceLibccdImpl
       Vector3<S>* p1,
       Vector3<S>* p2)
   {
-    void* o1 = detail::GJKInitializer<S, Shape>::createGJKObject(s, tf1);
-    void* o2 = detail::triCreateGJKObject(P1, P2, P3, tf2);
+    const detail::GJKObject o1(
+          detail::GJKInitializer<S, Shape>::createGJKObject(s, tf1),
+          &detail::GJKInitializer<S, Shape>::deleteGJKObject);
+    const detail::GJKObject o2(
+          detail::triCreateGJKObject(P1, P2, P3, tf2), &detail::triDeleteGJKObject);
 
     bool res = detail::GJKDistance(
-          o1,
+          o1.get(),
           detail::GJKInitializer<S, Shape>::getSupportFunction(),
-          o2,
+          o2.get(),
           detail::triGetSupportFunction(),
           gjkSolver.max_distance_iterations,
           gjkSolver.distance_tolerance,
@@ -963,9 +975,6 @@ struct ShapeTransformedTriangleDistanceLibccdImpl
           p1,
           p2);
 
-    detail::GJKInitializer<S, Shape>::deleteGJKObject(o1);
-    detail::triDeleteGJKObject(o2);
-
     return res;
   }
 };
-- 
2.43.0


From 1a5439145476362a15cc9ab8ee517679fc3cd2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 41/54] fix: EPA leaked its vertices when its faces could not
 be allocated

---
 .../narrowphase/detail/convexity_based_algorithm/epa-inl.h   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
index e9c667d..ecd6548 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
@@ -40,6 +40,8 @@
 
 #include "fcl/narrowphase/detail/convexity_based_algorithm/epa.h"
 
+#include <memory>
+
 namespace fcl
 {
 
@@ -113,8 +115,9 @@ EPA<S>::~EPA()
 template <typename S>
 void EPA<S>::initialize()
 {
-  sv_store = new SimplexV[max_vertex_num];
+  std::unique_ptr<SimplexV[]> vertices(new SimplexV[max_vertex_num]);
   fc_store = new SimplexF[max_face_num];
+  sv_store = vertices.release();
   status = Failed;
   normal = Vector3<S>(0, 0, 0);
   depth = 0;
-- 
2.43.0


From c0a09fef0946de081969405f87960ae656e66d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 42/54] fix: kIOS volumes converted to AABBs and OBBs were
 centered at their first sphere

The sizes come from the OBB of the kIOS, the spheres of which may be centered
elsewhere, so the converted volume need not contain what the kIOS contains and
collisions of meshes with octree cells were missed.
---
 include/fcl/math/bv/utility-inl.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/fcl/math/bv/utility-inl.h b/include/fcl/math/bv/utility-inl.h
index 8f299b6..aa70517 100644
--- a/include/fcl/math/bv/utility-inl.h
+++ b/include/fcl/math/bv/utility-inl.h
@@ -879,6 +879,29 @@ public:
   }
 };
 
+//==============================================================================
+/// The spheres of a kIOS need not be centered at its OBB, which gives its sizes.
+template <typename S>
+class FCL_EXPORT ConvertBVImpl<S, kIOS<S>, AABB<S>>
+{
+public:
+  static void run(const kIOS<S>& bv1, const Transform3<S>& tf1, AABB<S>& bv2)
+  {
+    ConvertBVImpl<S, OBB<S>, AABB<S>>::run(bv1.obb, tf1, bv2);
+  }
+};
+
+//==============================================================================
+template <typename S>
+class FCL_EXPORT ConvertBVImpl<S, kIOS<S>, OBB<S>>
+{
+public:
+  static void run(const kIOS<S>& bv1, const Transform3<S>& tf1, OBB<S>& bv2)
+  {
+    ConvertBVImpl<S, OBB<S>, OBB<S>>::run(bv1.obb, tf1, bv2);
+  }
+};
+
 //==============================================================================
 template <typename S>
 class FCL_EXPORT ConvertBVImpl<S, OBB<S>, RSS<S>>
-- 
2.43.0


From 366842a5e2e36a9b9945fdb4a111ee63e458ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 43/54] fix: distance queries dereferenced the root of an empty
 octree

---
 .../fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h    | 3 +++
 .../broadphase/broadphase_dynamic_AABB_tree_array-inl.h  | 3 +++
 .../detail/traversal/octree/octree_solver-inl.h          | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
index cd4638c..7cd17d0 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
@@ -480,6 +480,9 @@ template <typename S>
 FCL_EXPORT
 bool distanceRecurse(typename DynamicAABBTreeCollisionManager<S>::DynamicAABBNode* root1, const OcTree<S>* tree2, const typename OcTree<S>::OcTreeNode* root2, const AABB<S>& root2_bv, const Transform3<S>& tf2, void* cdata, DistanceCallBack<S> callback, S& min_dist)
 {
+  // nothing is occupied in an empty octree
+  if(!root2) return false;
+
   if(tf2.linear().isIdentity())
     return distanceRecurse_(root1, tree2, root2, root2_bv, tf2.translation(), cdata, callback, min_dist);
   else
diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index b53f7be..1a6ec83 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -715,6 +715,9 @@ template <typename S>
 FCL_EXPORT
 bool distanceRecurse(typename DynamicAABBTreeCollisionManager_Array<S>::DynamicAABBNode* nodes1, size_t root1_id, const OcTree<S>* tree2, const typename OcTree<S>::OcTreeNode* root2, const AABB<S>& root2_bv, const Transform3<S>& tf2, void* cdata, DistanceCallBack<S> callback, S& min_dist)
 {
+  // nothing is occupied in an empty octree
+  if(!root2) return false;
+
   if(tf2.linear().isIdentity())
     return distanceRecurse_(nodes1, root1_id, tree2, root2, root2_bv, tf2.translation(), cdata, callback, min_dist);
   else
diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 9c66696..4c79dc4 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -275,6 +275,9 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeDistanceRecurse(const OcTree<S>
                                 const Shape& s, const AABB<S>& aabb2,
                                 const Transform3<S>& tf1, const Transform3<S>& tf2) const
 {
+  // nothing is occupied in an empty octree
+  if(!root1) return false;
+
   if(!tree1->nodeHasChildren(root1))
   {
     if(tree1->isNodeOccupied(root1))
@@ -488,6 +491,9 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshDistanceRecurse(const OcTree<S>*
                                const BVHModel<BV>* tree2, int root2,
                                const Transform3<S>& tf1, const Transform3<S>& tf2) const
 {
+  // nothing is occupied in an empty octree
+  if(!root1) return false;
+
   if(!tree1->nodeHasChildren(root1) && tree2->getBV(root2).isLeaf())
   {
     if(tree1->isNodeOccupied(root1))
@@ -764,6 +770,9 @@ else if(!tree2->isFree() && crequest->enable_cost)
 template <typename NarrowPhaseSolver>
 bool OcTreeSolver<NarrowPhaseSolver>::OcTreeDistanceRecurse(const OcTree<S>* tree1, const typename OcTree<S>::OcTreeNode* root1, const AABB<S>& bv1, const OcTree<S>* tree2, const typename OcTree<S>::OcTreeNode* root2, const AABB<S>& bv2, const Transform3<S>& tf1, const Transform3<S>& tf2) const
 {
+  // nothing is occupied in an empty octree
+  if(!root1 || !root2) return false;
+
   if(!tree1->nodeHasChildren(root1) && !tree2->nodeHasChildren(root2))
   {
     if(tree1->isNodeOccupied(root1) && tree2->isNodeOccupied(root2))
-- 
2.43.0


From 424477829bdd2278e4ca46a31e6a5775e254111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 44/54] fix: user data of collision objects was uninitialised
 until it was set

---
 include/fcl/narrowphase/collision_object-inl.h            | 6 +++---
 include/fcl/narrowphase/continuous_collision_object-inl.h | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/collision_object-inl.h b/include/fcl/narrowphase/collision_object-inl.h
index 0c50e52..8e66498 100644
--- a/include/fcl/narrowphase/collision_object-inl.h
+++ b/include/fcl/narrowphase/collision_object-inl.h
@@ -51,7 +51,7 @@ class FCL_EXPORT CollisionObject<double>;
 template <typename S>
 CollisionObject<S>::CollisionObject(
     const std::shared_ptr<CollisionGeometry<S>>& cgeom_)
-  : cgeom(cgeom_), cgeom_const(cgeom_), t(Transform3<S>::Identity())
+  : cgeom(cgeom_), cgeom_const(cgeom_), t(Transform3<S>::Identity()), user_data(nullptr)
 {
   if (cgeom)
   {
@@ -65,7 +65,7 @@ template <typename S>
 CollisionObject<S>::CollisionObject(
     const std::shared_ptr<CollisionGeometry<S>>& cgeom_,
     const Transform3<S>& tf)
-  : cgeom(cgeom_), cgeom_const(cgeom_), t(tf)
+  : cgeom(cgeom_), cgeom_const(cgeom_), t(tf), user_data(nullptr)
 {
   cgeom->computeLocalAABB();
   computeAABB();
@@ -77,7 +77,7 @@ CollisionObject<S>::CollisionObject(
     const std::shared_ptr<CollisionGeometry<S>>& cgeom_,
     const Matrix3<S>& R,
     const Vector3<S>& T)
-  : cgeom(cgeom_), cgeom_const(cgeom_), t(Transform3<S>::Identity())
+  : cgeom(cgeom_), cgeom_const(cgeom_), t(Transform3<S>::Identity()), user_data(nullptr)
 {
   t.linear() = R;
   t.translation() = T;
diff --git a/include/fcl/narrowphase/continuous_collision_object-inl.h b/include/fcl/narrowphase/continuous_collision_object-inl.h
index e8008e9..9206b85 100644
--- a/include/fcl/narrowphase/continuous_collision_object-inl.h
+++ b/include/fcl/narrowphase/continuous_collision_object-inl.h
@@ -51,7 +51,7 @@ class FCL_EXPORT ContinuousCollisionObject<double>;
 template <typename S>
 ContinuousCollisionObject<S>::ContinuousCollisionObject(
     const std::shared_ptr<CollisionGeometry<S>>& cgeom_)
-  : cgeom(cgeom_), cgeom_const(cgeom_)
+  : cgeom(cgeom_), cgeom_const(cgeom_), user_data(nullptr)
 {
   // Do nothing
 }
@@ -61,7 +61,7 @@ template <typename S>
 ContinuousCollisionObject<S>::ContinuousCollisionObject(
     const std::shared_ptr<CollisionGeometry<S>>& cgeom_,
     const std::shared_ptr<MotionBase<S>>& motion_)
-  : cgeom(cgeom_), cgeom_const(cgeom), motion(motion_)
+  : cgeom(cgeom_), cgeom_const(cgeom), motion(motion_), user_data(nullptr)
 {
   // Do nothing
 }
-- 
2.43.0


From dec3d647e4d11df62dcd9e9e0e16cc4b7d60829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 45/54] fix: TranslationMotion::getTaylorModel left its result
 empty

---
 include/fcl/math/motion/translation_motion-inl.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fcl/math/motion/translation_motion-inl.h b/include/fcl/math/motion/translation_motion-inl.h
index a2aaf6c..1cd2a63 100644
--- a/include/fcl/math/motion/translation_motion-inl.h
+++ b/include/fcl/math/motion/translation_motion-inl.h
@@ -40,8 +40,6 @@
 
 #include "fcl/math/motion/translation_motion.h"
 
-#include "fcl/common/unused.h"
-
 namespace fcl
 {
 
@@ -115,11 +113,13 @@ void TranslationMotion<S>::getCurrentTransform(Transform3<S>& tf_) const
 template <typename S>
 void TranslationMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
 {
-  FCL_UNUSED(tm);
-  FCL_UNUSED(tv);
+  tm = TMatrix3<S>(rot.toRotationMatrix(), this->getTimeInterval());
 
-  // Do nothing
-  // TODO(JS): Not implemented?
+  TaylorModel<S> a(this->getTimeInterval()), b(this->getTimeInterval()), c(this->getTimeInterval());
+  generateTaylorModelForLinearFunc(a, trans_start[0], trans_range[0]);
+  generateTaylorModelForLinearFunc(b, trans_start[1], trans_range[1]);
+  generateTaylorModelForLinearFunc(c, trans_start[2], trans_range[2]);
+  tv = TVector3<S>(a, b, c);
 }
 
 //==============================================================================
-- 
2.43.0


From 87203f59591dbfc4c776057b8e8e636d212d4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 46/54] fix: Taylor models of sine and cosine lost part of
 their remainder and bounds

---
 include/fcl/math/motion/taylor_model/taylor_model-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index 861f72d..a60e50a 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -356,7 +356,7 @@ Interval<S> TaylorModel<S>::getBound(S t0, S t1) const
 template <typename S>
 Interval<S> TaylorModel<S>::getBound() const
 {
-  return Interval<S>(coeffs_[0] + r_[0], coeffs_[1] + r_[1]) + time_interval_->t_ * coeffs_[1] + time_interval_->t2_ * coeffs_[2] + time_interval_->t3_ * coeffs_[3];
+  return Interval<S>(coeffs_[0] + r_[0], coeffs_[0] + r_[1]) + time_interval_->t_ * coeffs_[1] + time_interval_->t2_ * coeffs_[2] + time_interval_->t3_ * coeffs_[3];
 }
 
 //==============================================================================
@@ -551,7 +551,7 @@ void generateTaylorModelForCosFunc(TaylorModel<S>& tm, S w, S q0)
   // [0, midSize4] * fdddBounds
   if(fddddBounds[0] > 0)
     tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
-  else if(fddddBounds[0] < 0)
+  else if(fddddBounds[1] < 0)
     tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
   else
     tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
@@ -622,7 +622,7 @@ void generateTaylorModelForSinFunc(TaylorModel<S>& tm, S w, S q0)
     // [0, midSize4] * fdddBounds
     if(fddddBounds[0] > 0)
       tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
-    else if(fddddBounds[0] < 0)
+    else if(fddddBounds[1] < 0)
       tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
     else
       tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
-- 
2.43.0


From ea519a8715d9b691c7984e84661b3be0ec298d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 47/54] fix: the product of a matrix and a Taylor model
 repeated the second column

---
 include/fcl/math/motion/taylor_model/taylor_matrix-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
index f5b1843..e873cde 100644
--- a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
@@ -514,15 +514,15 @@ TMatrix3<S> operator * (const Matrix3<S>& m, const TaylorModel<S>& a)
   TMatrix3<S> res(a.getTimeInterval());
   res(0, 0) = a * m(0, 0);
   res(0, 1) = a * m(0, 1);
-  res(0, 1) = a * m(0, 2);
+  res(0, 2) = a * m(0, 2);
 
   res(1, 0) = a * m(1, 0);
   res(1, 1) = a * m(1, 1);
-  res(1, 1) = a * m(1, 2);
+  res(1, 2) = a * m(1, 2);
 
   res(2, 0) = a * m(2, 0);
   res(2, 1) = a * m(2, 1);
-  res(2, 1) = a * m(2, 2);
+  res(2, 2) = a * m(2, 2);
 
   return res;
 }
-- 
2.43.0


From d512d25ad8e29296bfb96ab7375198f544790222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 48/54] fix: the Taylor model of a spline motion added its last
 control point twice

---
 include/fcl/math/motion/spline_motion-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/spline_motion-inl.h b/include/fcl/math/motion/spline_motion-inl.h
index 6d7ee14..a6f5705 100644
--- a/include/fcl/math/motion/spline_motion-inl.h
+++ b/include/fcl/math/motion/spline_motion-inl.h
@@ -178,7 +178,7 @@ void SplineMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
 {
   // set tv
   Vector3<S> c[4];
-  c[0] = (Td[0] + Td[1] * 4 + Td[2] + Td[3]) * (1/6.0);
+  c[0] = (Td[0] + Td[1] * 4 + Td[2]) * (1/6.0);
   c[1] = (-Td[0] + Td[2]) * (1/2.0);
   c[2] = (Td[0] - Td[1] * 2 + Td[2]) * (1/2.0);
   c[3] = (-Td[0] + Td[1] * 3 - Td[2] * 3 + Td[3]) * (1/6.0);
-- 
2.43.0


From 3c8e1bd709f477d2f1703433ba1c86499f4bff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 49/54] fix: IntervalTreeCollisionManager missed pairs that
 only touch in its self query

---
 include/fcl/broadphase/broadphase_interval_tree-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 79f826d..071919a 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -662,7 +662,8 @@ template <typename S>
 bool IntervalTreeCollisionManager<S>::EndPoint::operator<(
     const typename IntervalTreeCollisionManager<S>::EndPoint& p) const
 {
-  return value < p.value;
+  // an interval that begins where another one ends touches it
+  return (value < p.value) || ((value == p.value) && (minmax < p.minmax));
 }
 
 //==============================================================================
-- 
2.43.0


From d7eccd7c9e023cf5fc5774ab0cae7ab0da3c3c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:02 +0000
Subject: [PATCH 50/54] fix: SamplerSE3Quat wrote its seventh component beyond
 a vector of six

---
 include/fcl/math/sampler/sampler_se3_quat-inl.h | 4 ++--
 include/fcl/math/sampler/sampler_se3_quat.h     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/sampler/sampler_se3_quat-inl.h b/include/fcl/math/sampler/sampler_se3_quat-inl.h
index ed961ab..a54b3a0 100644
--- a/include/fcl/math/sampler/sampler_se3_quat-inl.h
+++ b/include/fcl/math/sampler/sampler_se3_quat-inl.h
@@ -81,9 +81,9 @@ void SamplerSE3Quat<S>::setBound(const Vector3<S>& lower_bound_, const Vector3<S
 
 //==============================================================================
 template <typename S>
-Vector6<S> SamplerSE3Quat<S>::sample() const
+Vector7<S> SamplerSE3Quat<S>::sample() const
 {
-  Vector6<S> q;
+  Vector7<S> q;
   q[0] = this->rng.uniformReal(lower_bound[0], upper_bound[0]);
   q[1] = this->rng.uniformReal(lower_bound[1], upper_bound[1]);
   q[2] = this->rng.uniformReal(lower_bound[2], upper_bound[2]);
diff --git a/include/fcl/math/sampler/sampler_se3_quat.h b/include/fcl/math/sampler/sampler_se3_quat.h
index 3c2ae98..e36d577 100644
--- a/include/fcl/math/sampler/sampler_se3_quat.h
+++ b/include/fcl/math/sampler/sampler_se3_quat.h
@@ -59,7 +59,7 @@ public:
   void getBound(Vector3<S>& lower_bound_,
                 Vector3<S>& upper_bound_) const;
 
-  Vector6<S> sample() const;
+  Vector7<S> sample() const;
 
 protected:
   Vector3<S> lower_bound;
-- 
2.43.0


From bd72c9f91a26d15873180fc058171ffd03efc598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:35 +0000
Subject: [PATCH 51/54] fix: SSaP, SaP, interval-tree and spatial-hash managers
 were left inconsistent by a registration that ran out of memory

---
 include/fcl/broadphase/broadphase_SSaP-inl.h      |  8 ++++++++
 include/fcl/broadphase/broadphase_SaP-inl.h       | 15 ++++++++++++++-
 .../fcl/broadphase/broadphase_interval_tree-inl.h |  8 ++++++++
 .../fcl/broadphase/broadphase_spatialhash-inl.h   |  8 +++++---
 4 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SSaP-inl.h b/include/fcl/broadphase/broadphase_SSaP-inl.h
index 3724c7d..dd61200 100644
--- a/include/fcl/broadphase/broadphase_SSaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SSaP-inl.h
@@ -123,6 +123,14 @@ SSaPCollisionManager<S>::SSaPCollisionManager() : setup_(false)
 template <typename S>
 void SSaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
 {
+  // the lists have to stay equally long when memory runs out
+  const size_t num_objs = objs_x.size() + 1;
+  for(auto* objs : {&objs_x, &objs_y, &objs_z})
+  {
+    if(objs->capacity() < num_objs)
+      objs->reserve(2 * num_objs);
+  }
+
   objs_x.push_back(obj);
   objs_y.push_back(obj);
   objs_z.push_back(obj);
diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 80b0123..b307e25 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -134,6 +134,9 @@ void SaPCollisionManager<S>::registerObjects(const std::vector<CollisionObject<S
         sapaabb->hi->aabb = sapaabb;
         obj_aabb_map[other_objs[i]] = sapaabb;
       }
+
+      for(int coord = 0; coord < 3; ++coord)
+        velist[coord].reserve(endpoints.size());
     }
     catch(...)
     {
@@ -189,7 +192,17 @@ void SaPCollisionManager<S>::registerObjects(const std::vector<CollisionObject<S
         {
           if(pos_next == nullptr) pos_next = pos_it;
           if(pos_it->aabb->cached.overlap(aabb->cached))
-            overlap_pairs.emplace_back(pos_it->aabb->obj, aabb->obj);
+          {
+            try
+            {
+              overlap_pairs.emplace_back(pos_it->aabb->obj, aabb->obj);
+            }
+            catch(...)
+            {
+              clear();
+              throw;
+            }
+          }
         }
         pos_it = pos_it->next[axis];
       }
diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 071919a..fc60b17 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -104,6 +104,14 @@ IntervalTreeCollisionManager<S>::~IntervalTreeCollisionManager()
 template <typename S>
 void IntervalTreeCollisionManager<S>::registerObject(CollisionObject<S>* obj)
 {
+  // the lists have to stay equally long when memory runs out
+  const size_t num_endpoints = endpoints[0].size() + 2;
+  for(int i = 0; i < 3; ++i)
+  {
+    if(endpoints[i].capacity() < num_endpoints)
+      endpoints[i].reserve(2 * num_endpoints);
+  }
+
   EndPoint p, q;
 
   p.obj = obj;
diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 129f755..e8ef837 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -78,9 +78,13 @@ template<typename S, typename HashTable>
 void SpatialHashingCollisionManager<S, HashTable>::registerObject(
     CollisionObject<S>* obj)
 {
+  const AABB<S>& obj_aabb = obj->getAABB();
+
+  // recorded first, so that an object whose registration ran out of memory can
+  // still be found and unregistered
+  obj_aabb_map[obj] = obj_aabb;
   objs.push_back(obj);
 
-  const AABB<S>& obj_aabb = obj->getAABB();
   AABB<S> overlap_aabb;
 
   if(scene_limit.overlap(obj_aabb, overlap_aabb))
@@ -94,8 +98,6 @@ void SpatialHashingCollisionManager<S, HashTable>::registerObject(
   {
     objs_outside_scene_limit.push_back(obj);
   }
-
-  obj_aabb_map[obj] = obj_aabb;
 }
 
 //==============================================================================
-- 
2.43.0


From 1a4cf374939da9bdeba16d31143c890570de6597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:11 +0000
Subject: [PATCH 52/54] fix: a mesh model whose vertices were updated could not
 be replaced, and AABB and k-DOP meshes were then queried at the wrong pose

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 1da63c1..e556257 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -578,7 +578,7 @@ int BVHModel<BV>::endModel()
 template <typename BV>
 int BVHModel<BV>::beginReplaceModel()
 {
-  if(build_state != BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_PROCESSED && build_state != BVH_BUILD_STATE_UPDATED)
   {
     std::cerr << "BVH Error! Call beginReplaceModel() on a BVHModel that has no previous frame.\n";
     return BVH_ERR_BUILD_EMPTY_PREVIOUS_FRAME;
-- 
2.43.0


From 4ebde32e855edf6044480d62aa7566d2b4f66f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:11 +0000
Subject: [PATCH 53/54] fix: the OBB computed for a convex polytope had the
 axes of its pose instead of its own, and meshes missed collisions with it

---
 include/fcl/geometry/shape/utility-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index ca42a0b..7232e5a 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -253,7 +253,7 @@ struct FCL_EXPORT ComputeBVImpl<S, OBB<S>, Convex<S>>
   {
     fit(s.getVertices().data(), static_cast<int>(s.getVertices().size()), bv);
 
-    bv.axis = tf.linear();
+    bv.axis = tf.linear() * bv.axis;
     bv.To = tf * bv.To;
   }
 };
-- 
2.43.0


From 85c2006a4258cf9fbbdb6ce439fa7ff53340a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:59 +0000
Subject: [PATCH 54/54] fix: the RSS computed for a plane covered a quarter of
 another plane, and RSS meshes missed collisions with it

---
 include/fcl/geometry/shape/utility-inl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 7232e5a..fb13735 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -677,10 +677,12 @@ struct FCL_EXPORT ComputeBVImpl<S, RSS<S>, Plane<S>>
     const Vector3<S> n = tf.linear() * s.n;
     bv.axis = generateCoordinateSystem(n);
 
-    bv.l[0] = std::numeric_limits<S>::max();
-    bv.l[1] = std::numeric_limits<S>::max();
+    // a rectangle starts at its corner, so none covers a plane: bound it by a
+    // sphere that covers everything
+    bv.l[0] = 0;
+    bv.l[1] = 0;
 
-    bv.r = 0;
+    bv.r = std::numeric_limits<S>::max();
 
     Vector3<S> p = s.n * s.d;
     bv.To = tf * p;
-- 
2.43.0

