From c29d92f1967cb961c4cdcdd7b80cf0e94fe70385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 01/57] fix: PagedStack::clear() empties the first page too

---
 src/include/falcon/engine/pagedstack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 168d5d1..4282a01 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -530,6 +530,7 @@ public:
          m_curBase->clear();
          --m_curBase;
       }
+      m_curBase->clear();
    }
 
    /**
-- 
2.43.0


From 8d0c4a84a30b746ce4963bb61b609a0f2b7386b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 02/57] fix: PagedStack::discard to the first element of a page
 empties that page

---
 src/include/falcon/engine/pagedstack.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 4282a01..3692b2a 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -111,13 +111,11 @@ private:
       }
       if(iData == m_curBase->begin())
       {
+         m_curBase->clear();
          if (m_curBase != m_base.begin())
          {
             m_curBase--;
          }
-         else {
-            m_curBase->clear();
-         }
       }
       else {
          m_curBase->resize(iData - m_curBase->begin());
-- 
2.43.0


From ec08255b7f4b33b59b5b6912ac292355e28dca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 03/57] fix: PagedStack reverse iteration ends at the current
 page, not at the last spare one

---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 3692b2a..7955077 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -564,8 +564,8 @@ public:
    const_iterator end() const noexcept {return const_iterator(m_base.begin(), --m_base.front().begin(), m_base.cbegin()); }
    const_iterator cend() const noexcept {return end(); }
 
-   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), --m_base.end());}
-   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), --m_base.cend());}
+   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), m_curBase);}
+   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), m_curBase);}
    const_reverse_iterator crbegin() const noexcept {return rbegin();}
 
    reverse_iterator rend() noexcept{return reverse_iterator(m_curBase, m_curBase->end(), m_curBase);}
-- 
2.43.0


From cf1845f4ed75a665122353330306cde5ed4483d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 04/57] fix: PagedStack sync iterators count their copies,
 const ones can be read

---
 src/include/falcon/engine/pagedstack.h | 28 +++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 7955077..18420ba 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -19,6 +19,7 @@
 #include <stdexcept>
 #include <falcon/engine/distribute.h>
 #include <mutex>
+#include <type_traits>
 
 #ifndef _FALCON_PAGEDSTACK_H_
 #define _FALCON_PAGEDSTACK_H_
@@ -301,7 +302,7 @@ private:
    class sync_iterator_base {
    public:
 
-      void get(_TT& value) {
+      void get(std::remove_const_t<_TT>& value) {
          PagedStack::lock_guard guard(m_owner);
          synchronize();
          value = *m_iData;
@@ -340,6 +341,31 @@ private:
          return *this;
       }
 
+      sync_iterator_base(const sync_iterator_base& other) noexcept:
+            m_iBase(other.m_iBase),
+            m_iData(other.m_iData),
+            m_iBaseBegin(other.m_iBaseBegin),
+            m_owner(other.m_owner)
+      {
+         PagedStack::lock_guard guard(m_owner);
+         m_owner->m_syncIterCount++;
+      }
+
+      sync_iterator_base& operator=(const sync_iterator_base& other) noexcept {
+         if(m_owner != other.m_owner) {
+            {
+               PagedStack::lock_guard guard(other.m_owner);
+               other.m_owner->m_syncIterCount++;
+            }
+            m_owner->removeSyncIterator();
+         }
+         m_iBase = other.m_iBase;
+         m_iData = other.m_iData;
+         m_iBaseBegin = other.m_iBaseBegin;
+         m_owner = other.m_owner;
+         return *this;
+      }
+
       ~sync_iterator_base() {
          m_owner->removeSyncIterator();
       }
-- 
2.43.0


From ef369faa1da5d569f3b5f5e8ac3aab850962daa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 05/57] fix: PagedStack copies and moves keep their own current
 page

---
 src/include/falcon/engine/pagedstack.h | 45 ++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 18420ba..bbcfa4a 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -144,6 +144,14 @@ private:
         }
    }
 
+   void internal_swap(PagedStack& other) noexcept {
+      std::swap(m_pageSize, other.m_pageSize);
+      std::swap(m_allocSize, other.m_allocSize);
+      m_base.swap(other.m_base);
+      std::swap(m_curBase, other.m_curBase);
+      std::swap(m_dataAllocator, other.m_dataAllocator);
+   }
+
    void removeSyncIterator() const noexcept {
       std::lock_guard<_Mutex> guard(m_mutex);
       if(--m_syncIterCount == 0 && m_shrinkRequest) {
@@ -455,6 +463,43 @@ public:
       m_curBase = m_base.begin();
    }
 
+   PagedStack(const PagedStack& other):
+            PagedStack(other.m_pageSize, other.m_allocSize, other.m_dataAllocator)
+   {
+      std::lock_guard<_Mutex> guard(other.m_mutex);
+      typename base_type::const_iterator last = other.m_curBase;
+      ++last;
+      for(typename base_type::const_iterator iter = other.m_base.begin(); iter != last; ++iter) {
+         for(const _T& data: *iter) {
+            internal_push(data);
+         }
+      }
+   }
+
+   PagedStack(PagedStack&& other):
+            PagedStack(other.m_pageSize, other.m_allocSize, other.m_dataAllocator)
+   {
+      std::lock_guard<_Mutex> guard(other.m_mutex);
+      internal_swap(other);
+   }
+
+   /**
+    * Assigning a stack invalidates its iterators, synchronised ones included.
+    */
+   PagedStack& operator=(const PagedStack& other) {
+      PagedStack temp(other);
+      std::lock_guard<_Mutex> guard(m_mutex);
+      internal_swap(temp);
+      return *this;
+   }
+
+   PagedStack& operator=(PagedStack&& other) {
+      PagedStack temp(std::move(other));
+      std::lock_guard<_Mutex> guard(m_mutex);
+      internal_swap(temp);
+      return *this;
+   }
+
    void top(const _T& value) noexcept { std::lock_guard<_Mutex> guard(m_mutex); m_curBase->back() = value; }
    const _T& top() const noexcept { std::lock_guard<_Mutex> guard(m_mutex); return m_curBase->back(); }
 
-- 
2.43.0


From 1e9a598e240065de3e2610e7f2cf0ff442d322a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 06/57] fix: PagedStack insertions that fail leave the stack
 unchanged

---
 src/include/falcon/engine/pagedstack.h | 37 +++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index bbcfa4a..c1747f8 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -70,8 +70,9 @@ private:
    void growBase() {
       size_t count = m_allocSize;
       while(count) {
-         m_base.emplace_back(m_dataAllocator);
-         m_base.back().reserve(m_pageSize);
+         page_type page(m_dataAllocator);
+         page.reserve(m_pageSize);
+         m_base.push_back(std::move(page));
          --count;
       }
    }
@@ -123,6 +124,26 @@ private:
       }
    }
 
+   // Performs an insertion, undoing what was done of it if it throws.
+   template<typename _Func>
+   void internal_insert(_Func insert) {
+      typename base_type::iterator base = m_curBase;
+      size_t size = base->size();
+      try {
+         insert();
+      }
+      catch(...) {
+         while(m_curBase != base) {
+            m_curBase->clear();
+            --m_curBase;
+         }
+         while(m_curBase->size() > size) {
+            m_curBase->pop_back();
+         }
+         throw;
+      }
+   }
+
    void internal_push(const _T& data) {
       advance();
       m_curBase->push_back(data);
@@ -505,7 +526,7 @@ public:
 
    void push(const _T& data) {
       std::lock_guard<_Mutex> guard(m_mutex);
-      internal_push(data);
+      internal_insert([&]() {internal_push(data);});
    }
 
    /**
@@ -516,7 +537,7 @@ public:
    template<typename... _Args>
    void push(const _T& data, _Args&&... __args) {
       std::lock_guard<_Mutex> guard(m_mutex);
-      internal_push(data, std::forward<_Args>(__args)...);
+      internal_insert([&]() {internal_push(data, std::forward<_Args>(__args)...);});
    }
 
    /**
@@ -525,9 +546,11 @@ public:
    template<typename... _Args>
    void push_emplace(_Args&&... __args)	{
       std::lock_guard<_Mutex> guard(m_mutex);
-      advance();
-      // vector::emplace writes at the previous iterator.
-      m_curBase->emplace_back(std::forward<_Args>(__args)...);
+      internal_insert([&]() {
+         advance();
+         // vector::emplace writes at the previous iterator.
+         m_curBase->emplace_back(std::forward<_Args>(__args)...);
+      });
    }
 
    /**
-- 
2.43.0


From 4175a5e66dbf33679d3c0b77887de6120e11d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 07/57] fix: PagedStack sync iterators taken on an empty stack
 resynchronise safely

---
 src/include/falcon/engine/pagedstack.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index c1747f8..e27ea37 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -425,7 +425,8 @@ private:
             _IBase nbase = m_iBase;
             while(++nbase != m_owner->m_base.end()) {
                // we are in sync also if the base is BEYOND us.
-               if(nbase == m_owner->m_curBase) {
+               // (unless we never were on an element)
+               if(nbase == m_owner->m_curBase && m_iBase->size() > m_iData - m_iBase->begin()) {
                   return true;
                }
             }
-- 
2.43.0


From d5884c64d9aa36155d2f71c3cc4c2d7c1b8b3f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 08/57] fix: PagedStack sync iterators keep their position when
 resync fails on an empty stack

---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index e27ea37..3167561 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -433,14 +433,14 @@ private:
 
          }
          // we need to resync.
-         m_iBase = m_owner->m_curBase;
-         if ( m_iBase->size() == 0)
+         if ( m_owner->m_curBase->size() == 0)
          {
             // the stack has been emptied in the meanwhile.
             // any resync operation implies a movement or a dereference
             // hence, we're done.
             throw std::runtime_error("Empty stack while resync");
          }
+         m_iBase = m_owner->m_curBase;
          m_iData = m_iBase->end()-1;
 
          return false;
-- 
2.43.0


From b82663721ac7bc0bd81cd96225e03152a79926fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:00 +0000
Subject: [PATCH 09/57] fix: RFutex::lock returns once the lock is taken

---
 src/include/falcon/futex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 23708c9..1faa5a3 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -94,7 +94,7 @@ public:
       while(!m_owner.compare_exchange_strong(
             free, thread_id,
             std::memory_order_seq_cst,
-            std::memory_order_seq_cst) || free != thread_id) {
+            std::memory_order_seq_cst) && free != thread_id) {
          free = 0;
       }
       ++m_count;
-- 
2.43.0


From c52d763e1dbb439e88aae514a222015387034fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:00 +0000
Subject: [PATCH 10/57] fix: a thread that never locked does not own a free
 RFutex

---
 src/include/falcon/futex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 1faa5a3..fb96ab3 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -111,7 +111,7 @@ public:
    }
 
    bool isOwner() noexcept {
-      return m_owner.load(std::memory_order_seq_cst) == s_thread_id;
+      return s_thread_id != 0 && m_owner.load(std::memory_order_seq_cst) == s_thread_id;
    }
 };
 
-- 
2.43.0


From 0a90f4c8301e72bc52093109108472b13dbb3ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 11/57] fix: Item::get compiles

---
 src/include/falcon/engine/item.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index ede1a6e..37406d5 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -91,8 +91,6 @@ public:
         } else {
             throw std::invalid_argument("Not a valid item type");
         }
-
-        return *static_cast<T*>(data);
     }
 
     String toString() const noexcept {return handler->toString(data);}
-- 
2.43.0


From c0a8f13415a0d6f180abd7f404a0cb413bbdece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 12/57] fix: ItemData built from a pointer stores the pointer

---
 src/include/falcon/engine/itemdata.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/falcon/engine/itemdata.h b/src/include/falcon/engine/itemdata.h
index 4eee6de..24418ed 100644
--- a/src/include/falcon/engine/itemdata.h
+++ b/src/include/falcon/engine/itemdata.h
@@ -17,6 +17,7 @@
 #define _FALCON_ITEMDATA_H_
 
 #include "falcon/types.h"
+#include <type_traits>
 
 namespace falcon {
 
@@ -45,6 +46,10 @@ union ItemData {
             uint64Value = value;
         } else if constexpr (std::is_same_v<T, numeric>) {
             numericValue = value;
+        } else if constexpr (std::is_pointer_v<T>) {
+            ptrValue = const_cast<void*>(static_cast<const void*>(value));
+        } else if constexpr (std::is_null_pointer_v<T>) {
+            ptrValue = nullptr;
         } else {
             ptrValue = static_cast<void*>(const_cast<T*>(&value));
         }
-- 
2.43.0


From b3403b05dfff04beed934841bfad98f43939915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 13/57] fix: converting a non-numeric string item to integer
 doesn't terminate

---
 src/include/falcon/engine/stringhandler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/stringhandler.h b/src/include/falcon/engine/stringhandler.h
index 4116e84..1936a79 100644
--- a/src/include/falcon/engine/stringhandler.h
+++ b/src/include/falcon/engine/stringhandler.h
@@ -16,6 +16,7 @@
 #define _FALCON_STRINGHANDLER_H_
 
 #include "falcon/engine/deepflatcopyhandler.h"
+#include <cstdlib>
 
 
 namespace falcon {
@@ -27,7 +28,7 @@ struct StringHandler: public DeepFlatCopyHandler<String> {
     String toString(ItemData data) const noexcept override { return *reinterpret_cast<String *>(data.ptrValue); }
 
     bool toBool(ItemData data) const noexcept override { return !reinterpret_cast<String *>(data.ptrValue)->empty(); }
-    int64 toInt(ItemData data) const noexcept override { return std::stoll(*reinterpret_cast<String *>(data.ptrValue)); }
+    int64 toInt(ItemData data) const noexcept override { return std::strtoll(reinterpret_cast<String *>(data.ptrValue)->c_str(), nullptr, 10); }
 };
 
 }
-- 
2.43.0


From 6f65735324de6f519ce5425ba96d1a796324a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 14/57] fix: copied and assigned items own their value

---
 src/include/falcon/engine/deephandler.h | 1 +
 src/include/falcon/engine/flathandler.h | 1 +
 src/include/falcon/engine/handler.h     | 1 +
 src/include/falcon/engine/item.h        | 9 +++++++++
 4 files changed, 12 insertions(+)

diff --git a/src/include/falcon/engine/deephandler.h b/src/include/falcon/engine/deephandler.h
index 0efe981..8204b9e 100644
--- a/src/include/falcon/engine/deephandler.h
+++ b/src/include/falcon/engine/deephandler.h
@@ -25,6 +25,7 @@ struct DeepHandler: public Handler {
     virtual ~DeepHandler() {}
 
     ItemData allocate() const override {return new T;}
+    ItemData copy(ItemData data) const override {return new T(*reinterpret_cast<T *>(data.ptrValue));}
     void destroy(ItemData data) const noexcept override { delete reinterpret_cast<T *>(data.ptrValue);}
 
     bool isFlat() const noexcept override { return false; }
diff --git a/src/include/falcon/engine/flathandler.h b/src/include/falcon/engine/flathandler.h
index 8e379f0..e91030f 100644
--- a/src/include/falcon/engine/flathandler.h
+++ b/src/include/falcon/engine/flathandler.h
@@ -23,6 +23,7 @@ struct FlatHandler: public Handler {
     virtual ~FlatHandler() {}
 
     ItemData allocate() const override { return ItemData(false); }
+    ItemData copy(ItemData data) const override { return data; }
     void destroy(ItemData) const noexcept override {}
     
     bool isFlat() const noexcept override{ return true; }
diff --git a/src/include/falcon/engine/handler.h b/src/include/falcon/engine/handler.h
index df54df1..15d635b 100644
--- a/src/include/falcon/engine/handler.h
+++ b/src/include/falcon/engine/handler.h
@@ -30,6 +30,7 @@ struct Handler {
     virtual bool isCopyFlat() const noexcept = 0;
 
     virtual ItemData allocate() const =0;
+    virtual ItemData copy(ItemData data) const =0;
     virtual void destroy(ItemData data) const noexcept =0;
 
     virtual String typeName() const noexcept = 0;
diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index 37406d5..375b869 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -69,6 +69,15 @@ public:
         }
     }
 
+    Item(const Item& other) : data(other.handler->copy(other.data)), handler(other.handler) {}
+
+    Item& operator=(const Item& other) {
+        Item temp(other);
+        std::swap(data, temp.data);
+        std::swap(handler, temp.handler);
+        return *this;
+    }
+
     ~Item() {
         handler->destroy(data);
     }
-- 
2.43.0


From 7f779c6df8c7230840edffd02a9fe15a1cb7b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:22 +0000
Subject: [PATCH 15/57] fix: Code data buffer is as large as the source

---
 src/engine/code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index 823a381..aba1b6c 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -19,7 +19,7 @@
 namespace falcon {
 
 Code::Code(const std::string& source, int line) noexcept :
-		m_source(source), m_line(line), m_data(new char[1000])
+		m_source(source), m_line(line), m_data(new char[source.size() + 1])
 {
 	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);
 	m_data[m_source.size()] = 0;
-- 
2.43.0


From 972ab254b2894a53ee9bede7c8efcbe63281ac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:22 +0000
Subject: [PATCH 16/57] fix: Code copies and assignments own their data

---
 src/engine/code.cpp              | 11 ++++++++++-
 src/include/falcon/engine/code.h |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index aba1b6c..224bab1 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -26,9 +26,18 @@ Code::Code(const std::string& source, int line) noexcept :
 }
 
 Code::Code(const Code& other) noexcept:
-		m_source(other.m_source), m_line(other.m_line), m_data(other.m_data)
+		Code(other.m_source, other.m_line)
 {}
 
+Code& Code::operator=(const Code& other)
+{
+	Code temp(other);
+	std::swap(m_source, temp.m_source);
+	std::swap(m_line, temp.m_line);
+	std::swap(m_data, temp.m_data);
+	return *this;
+}
+
 Code::Code(Code&& other) noexcept:
 		m_source(std::move(other.m_source)),
 		m_line(other.m_line), m_data(other.m_data)
diff --git a/src/include/falcon/engine/code.h b/src/include/falcon/engine/code.h
index 11042cf..3eafc76 100644
--- a/src/include/falcon/engine/code.h
+++ b/src/include/falcon/engine/code.h
@@ -24,7 +24,7 @@ public:
 	Code(const std::string& source="", int m_line=0) noexcept;
 	Code(const Code& other) noexcept;
 	Code(Code&& other) noexcept;
-	Code& operator=(const Code& other) = default;
+	Code& operator=(const Code& other);
 	~Code();
 
 	std::string toString() const noexcept;
-- 
2.43.0


From c6fa27afc6ed5b255038847ac1093e645f539ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:22 +0000
Subject: [PATCH 17/57] fix: Code::toString returns the exact source, also when
 moved from

---
 src/engine/code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index 224bab1..bc86623 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -51,7 +51,7 @@ Code::~Code()
 }
 
 std::string Code::toString() const noexcept {
-	return std::string(m_data);
+	return m_source;
 }
 
 }
-- 
2.43.0


From 54cfb46484e3d8c88e41b41dff50b7dbbd6aa781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 18/57] fix: log category filtering writes nothing on the
 standard output

---
 src/engine/logsystem.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index f3e3cc7..784857c 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -205,7 +205,6 @@ bool LogSystem::Listener::checkCategory(const std::string& cat) const noexcept
 	  if(m_category == "") {
 		  return true;
 	  }
-	  std::cout << "Category filtering: " << cat <<" vs. "<< m_category << ": " << std::regex_match(cat, m_catRegex)<<  '\n';
 	  return std::regex_match(cat, m_catRegex);
   }
 
-- 
2.43.0


From 15ca38e1301cfa36843ea02f7c0f8dde6bdd72c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 19/57] fix: LogSystem can be started late and restarted

---
 src/engine/logsystem.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 784857c..f58a615 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -24,7 +24,8 @@ LogSystem::LogSystem(bool startNow):
 		m_unpooled(0),
 		m_destroyed(0),
 		m_maxMsgQueueSize(0),
-		m_msgReceived(0)
+		m_msgReceived(0),
+		m_isTerminated(false)
 {
 	// prepare the pool
 	for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
@@ -56,25 +57,26 @@ LogSystem::~LogSystem()
 void LogSystem::start() {
 	std::lock_guard<std::mutex> guard(m_mtxThread);
 	if(m_logThread == 0) {
+		m_mtxMessage.lock();
+		m_isTerminated = false;
+		m_mtxMessage.unlock();
 		m_logThread = new std::thread(&LogSystem::loggingThread, this);
 	}
 }
 
 
 void LogSystem::stop() noexcept {
-	// send a killer message
-	m_mtxMessage.lock();
-	m_isTerminated = true;
-	m_mtxMessage.unlock();
-	m_cvLogs.notify_all();
-
-	// now
-	std::thread* the_thread = 0;
 	std::lock_guard<std::mutex> guard(m_mtxThread);
 	if(m_logThread == 0) {
 		return;
 	}
 
+	// send a killer message; in the lock, or a concurrent start() might revoke it
+	m_mtxMessage.lock();
+	m_isTerminated = true;
+	m_mtxMessage.unlock();
+	m_cvLogs.notify_all();
+
 	// we join in a lock, but this stop() should hardly be called more than once per program.
 	m_logThread->join();
 	delete m_logThread;
-- 
2.43.0


From 16a0df363a68a11531319b915c91b0f6f7e686fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 20/57] fix: recycled log messages release their previous
 contents

---
 src/engine/logsystem.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index f58a615..77b2eae 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -91,7 +91,13 @@ void LogSystem::log( const std::string& file, int line, LEVEL level, const std::
 		return;
 	}
 
-	Message* msg = new(allocateMsg()) Message(file, line, level, cat, message);
+	// the message may come from the pool, still holding its previous contents.
+	Message* msg = allocateMsg();
+	msg->m_file = file;
+	msg->m_line = line;
+	msg->m_level = level;
+	msg->m_category = cat;
+	msg->m_message = message;
 	log(msg);
 }
 
-- 
2.43.0


From a140e3af83663c485fc8305e2c7324bed1c6f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 21/57] fix: detached log listeners receive no further message

---
 src/engine/logsystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 77b2eae..6d935bb 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -197,7 +197,8 @@ void LogSystem::sendMessageToListeners(Message* msg) noexcept
 {
 	m_msgReceived++;
 	for(auto listener: m_activeListeners) {
-		if(listener->isEnabled()
+		if(!listener->isDetached()
+				&& listener->isEnabled()
 				&& listener->level() >= msg->m_level
 				&& listener->checkCategory(msg->m_category))
 		{
-- 
2.43.0


From 6c9d25c203ec3e759b3a4d4b98f7bd8002c5a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 22/57] fix: log diagnostics are read without data races

---
 src/engine/logsystem.cpp       | 18 ++++++++++--------
 src/include/falcon/logsystem.h |  2 +-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 6d935bb..711c643 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -250,11 +250,13 @@ void LogSystem::disposeMsg(Message* msg) noexcept
 
 void LogSystem::cleanupTerminatedListeners()
 {
-	m_activeListeners.erase(
-			std::remove_if(m_activeListeners.begin(), m_activeListeners.end(),
-					[](auto& listener) { return listener->isDetached(); }),
-			m_activeListeners.end());
-
+	// the listeners dropped here may be destroyed: that must happen out of the lock.
+	ListenerList dropped;
+	std::lock_guard<std::mutex> guard(m_mtxListeners);
+	auto first = std::stable_partition(m_activeListeners.begin(), m_activeListeners.end(),
+					[](auto& listener) { return !listener->isDetached(); });
+	dropped.assign(first, m_activeListeners.end());
+	m_activeListeners.erase(first, m_activeListeners.end());
 }
 
 
@@ -262,9 +264,6 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 {
 	diags.m_msgsCreated = m_unpooled;
 	diags.m_msgsDiscarded = m_destroyed;
-	diags.m_activeListeners = m_activeListeners.size();
-	diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
-				[](const auto& l){return l->isEnabled();});
 	diags.m_msgReceived = m_msgReceived;
 
 	{
@@ -278,6 +277,9 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 	{
 		std::lock_guard<std::mutex> guard(m_mtxListeners);
 		diags.m_pendingListeners = m_pendingListeners.size();
+		diags.m_activeListeners = m_activeListeners.size();
+		diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
+				[](const auto& l){return l->isEnabled();});
 	}
 }
 
diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 235bb9a..333e483 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -267,7 +267,7 @@ private:
    std::atomic<size_t> m_unpooled;
    std::atomic<size_t> m_destroyed;
    size_t m_maxMsgQueueSize;
-   size_t m_msgReceived;
+   std::atomic<size_t> m_msgReceived;
 
 
    using MessageQueue = std::deque<Message*>;
-- 
2.43.0


From 8d89f13396dfb7d6cee5651bf779fcf203e4ad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 23/57] fix: Logger category filter can be set again and
 cleared at any time

---
 src/engine/logger.cpp       | 26 ++++++++++++++++++--------
 src/include/falcon/logger.h |  1 +
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index 3c8e365..ef501a2 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -32,23 +32,33 @@ Logger::Logger()
 
 
 void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
-	if (m_proxy.get()) {
-		m_proxy->detach();
-	}
+	auto proxy = std::make_shared<LogProxyListener>(m_dflt);
+	// may throw; in that case, nothing is changed.
+	proxy->category(category);
+	proxy->level(l);
+
+	clearFilter();
 	m_proxyBaseLevel = level();
+	m_dfltBaseLevel = m_dflt->level();
 	if(l > m_proxyBaseLevel) {
+		// what is let through for the filter is not for the default listener.
+		if(m_dfltBaseLevel > m_proxyBaseLevel) {
+			m_dflt->level(m_proxyBaseLevel);
+		}
 		level(l);
 	}
-	m_proxy = std::make_shared<LogProxyListener>(m_dflt);
-	m_proxy->category(category);
-	m_proxy->level(l);
+	m_proxy = proxy;
 	addListener(m_proxy);
 }
 
 
 void Logger::clearFilter() {
-	m_proxy->detach();
-	level(m_proxyBaseLevel);
+	if(m_proxy) {
+		m_proxy->detach();
+		m_proxy.reset();
+		level(m_proxyBaseLevel);
+		m_dflt->level(m_dfltBaseLevel);
+	}
 }
 
 }
diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index f565360..28369df 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -375,6 +375,7 @@ private:
 	std::shared_ptr<LogStreamListener> m_dflt;
 	std::shared_ptr<LogProxyListener> m_proxy;
 	LOGLEVEL m_proxyBaseLevel{LLTRACE};
+	LOGLEVEL m_dfltBaseLevel{LLTRACE};
 
 	static thread_local std::ostringstream m_composer;
 	static thread_local std::string m_category;
-- 
2.43.0


From 79137c297dc47fdd9b7595f0e96af3aa854c7c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 24/57] fix: logger.h can be included by more than one unit

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 28369df..d545dd7 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -400,7 +400,7 @@ const Logger::AutoEnd& operator << (const Logger::AutoEnd& aes, T&& arg)
     return aes;
 }
 
-const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
+inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
 {
     if(aes.doLog()) {
     	aes.obj().setTempCategory(cat.m_cat);
-- 
2.43.0


From bfbd8b5f89b73ad99967dfff00f8a0b5be1fa93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 25/57] fix: LOG_CATEGORY does not depend on the run-time log
 level

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index d545dd7..8af0629 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -409,7 +409,7 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 }
 
 #define LOGGER (::falcon::Logger::instance())
-#define LOG_CATEGORY(__CAT) if(FALCON_MIN_LOG_LEVEL >= LOGGER.level()){LOGGER.setCategory(__CAT);}
+#define LOG_CATEGORY(__CAT) if(FALCON_MIN_LOG_LEVEL > ::falcon::LLDISABLE){LOGGER.setCategory(__CAT);}
 
 #define LOG(__LVL) (::falcon::Logger::AutoEnd(LOGGER, __FILE__, __LINE__, __LVL))
 #define LOG_CRIT LOG(::falcon::LLCRIT)
-- 
2.43.0


From 7b7e10ec9a4b899e2bb54b4620d83b8ed8ebe97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 26/57] fix: stream formatting of a log message does not affect
 the following ones

---
 src/include/falcon/logger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 8af0629..ff279f7 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -385,8 +385,8 @@ private:
 	static thread_local LOGLEVEL m_msgLevel;
 
 	void readyStream() noexcept {
-		m_composer.clear();
-		m_composer.str("");
+		// drop formatting flags too, not just the text.
+		m_composer = std::ostringstream();
 	}
 };
 
-- 
2.43.0


From 9ed9f82f9f6379b410043c28d5bf032e62f34081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 27/57] fix: log blocks left early do not spill in the
 following message

---
 src/include/falcon/logger.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index ff279f7..80aa9f0 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -340,6 +340,8 @@ public:
 	    		m_obj = &obj;
 	    	}
 	    }
+	    // the block might have been left without completing it.
+	    ~BlockEnd () {if(m_obj){complete();}}
 	    void complete() {m_obj->commit(); m_obj = nullptr;}
 	    operator bool() const noexcept {return m_obj != nullptr;}
 	};
-- 
2.43.0


From 894ae9d5d22c6af80aaed28a85b8e5880067c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 28/57] fix: a log message sent while composing another one
 leaves it alone

---
 src/include/falcon/logger.h | 39 ++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 80aa9f0..4aeb1d4 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -20,6 +20,7 @@
 #include <falcon/logstream.h>
 #include <falcon/logproxy.h>
 #include <falcon/singleton.h>
+#include <optional>
 #include <sstream>
 
 /** Compile-time log filter */
@@ -301,17 +302,38 @@ public:
 	void categoryFilter(const std::string& line, LOGLEVEL l=LLTRACE);
 	void clearFilter();
 
+	/**
+	 * The message that a thread is composing.
+	 *
+	 * Put aside while another one is logged, for instance by a function
+	 * called to generate a part of it.
+	 */
+	struct Composition {
+		Composition():
+			m_line(0),
+			m_level(LLTRACE)
+		{}
+
+		std::ostringstream m_stream;
+		std::string m_tempCategory;
+		std::string m_file;
+		int m_line;
+		LOGLEVEL m_level;
+	};
+
 	class AutoEnd
 	{
 	private:
 	    Logger* m_obj;
-	    std::string m_category;
+	    std::optional<Composition> m_outer;
 
 	public:
 	    explicit AutoEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
 			m_obj(nullptr)
 	    {
 	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
+	    		m_outer.emplace();
+	    		obj.swapComposition(*m_outer);
 	    		obj.setFile(file);
 	    		obj.setLine(line);
 	    		obj.setLevel(lvl);
@@ -319,7 +341,7 @@ public:
 	    	}
 	    }
 
-	    ~AutoEnd () {if(m_obj){m_obj->commit();}}
+	    ~AutoEnd () {if(m_obj){m_obj->commit(); m_obj->swapComposition(*m_outer);}}
 	    bool doLog() const noexcept {return m_obj != nullptr;}
 	    Logger& obj () const noexcept {return *m_obj;}
 	};
@@ -328,12 +350,15 @@ public:
 	{
 	private:
 	    Logger* m_obj;
+	    std::optional<Composition> m_outer;
 
 	public:
 	    explicit BlockEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
 			m_obj(nullptr)
 	    {
 	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
+	    		m_outer.emplace();
+	    		obj.swapComposition(*m_outer);
 	    		obj.setFile(file);
 	    		obj.setLine(line);
 	    		obj.setLevel(lvl);
@@ -342,7 +367,7 @@ public:
 	    }
 	    // the block might have been left without completing it.
 	    ~BlockEnd () {if(m_obj){complete();}}
-	    void complete() {m_obj->commit(); m_obj = nullptr;}
+	    void complete() {m_obj->commit(); m_obj->swapComposition(*m_outer); m_obj = nullptr;}
 	    operator bool() const noexcept {return m_obj != nullptr;}
 	};
 
@@ -386,6 +411,14 @@ private:
 	static thread_local int m_msgLine;
 	static thread_local LOGLEVEL m_msgLevel;
 
+	void swapComposition(Composition& other) noexcept {
+		m_composer.swap(other.m_stream);
+		m_tempCategory.swap(other.m_tempCategory);
+		m_msgFile.swap(other.m_file);
+		std::swap(m_msgLine, other.m_line);
+		std::swap(m_msgLevel, other.m_level);
+	}
+
 	void readyStream() noexcept {
 		// drop formatting flags too, not just the text.
 		m_composer = std::ostringstream();
-- 
2.43.0


From 2567ee2abcf7d1f7767440b9f5d099a9d720a2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 29/57] fix: log lines do not depend on the formatting set on
 the target stream

---
 src/engine/logstream.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/engine/logstream.cpp b/src/engine/logstream.cpp
index 6db856a..98f5290 100644
--- a/src/engine/logstream.cpp
+++ b/src/engine/logstream.cpp
@@ -17,6 +17,8 @@
 
 #include <iostream>
 #include <iomanip>
+#include <locale>
+#include <sstream>
 
 namespace falcon {
 
@@ -35,10 +37,10 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 		file =  msg.m_file;
 	}
 
-	// This method is not really meant to be used by multiple threads,
-	// but this lock prevents changing the underlying stream mid-output.
-	std::lock_guard<std::mutex> guard(m_mtxStream);
-	std::ostream& out = *m_pout;
+	// Composed apart, so that neither the formatting set on the target stream
+	// changes the message, nor the formatting used here is left there.
+	std::ostringstream out;
+	out.imbue(std::locale::classic());
 
 	// TODO: use a format to print
 	out
@@ -62,8 +64,15 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 	out << file << ':' << msg.m_line;
 	out << " " << msg.m_message << "\n";
 
+	const std::string& line = out.str();
+
+	// This method is not really meant to be used by multiple threads,
+	// but this lock prevents changing the underlying stream mid-output.
+	std::lock_guard<std::mutex> guard(m_mtxStream);
+	std::ostream& target = *m_pout;
+	target.write(line.data(), line.size());
 	// TODO: add a flag to do this optionally
-	out.flush();
+	target.flush();
 }
 
 }
-- 
2.43.0


From 1de575ec8584a30c52d86bf1d32451d37cd5d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 30/57] fix: floating point checks compare whole expressions of
 any magnitude

---
 src/include/falcon/fut/fut.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/include/falcon/fut/fut.h b/src/include/falcon/fut/fut.h
index 2cb11ef..177163c 100644
--- a/src/include/falcon/fut/fut.h
+++ b/src/include/falcon/fut/fut.h
@@ -24,6 +24,15 @@
 #include <stdexcept>
 
 
+namespace falcon {
+namespace testing {
+/** Floating point values are almost equal if they differ by less than a ten-thousandth. */
+inline bool almostEqual(double first, double second) {
+   return first == second || (first - second < 0.0001 && second - first < 0.0001);
+}
+}
+}
+
 #define FALCON_TEST_CLASS_NAME(_COMPONENT_, _NAME_) \
       TestCase_##_COMPONENT_##_c_##_NAME_
 
@@ -85,12 +94,16 @@
 		}
 
 
-#define EXPECT_FLOAT_EQ( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               ==,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
-#define EXPECT_FLOAT_NE( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               !=,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
+#define FALCON_TEST_CHECK_FLOAT(_EXPECTED_,_CHECK_,_ACTUAL_,_WANTED_) \
+		if( ::falcon::testing::almostEqual((_EXPECTED_), (_ACTUAL_)) != (_WANTED_) ) { \
+		   std::ostringstream ss; \
+		   ss << (_ACTUAL_); \
+			this->checkFail( __FILE__, __LINE__, #_EXPECTED_ " " #_CHECK_ " " #_ACTUAL_, ss.str().c_str() ); \
+			return; \
+		}
+
+#define EXPECT_FLOAT_EQ( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_FLOAT(_EXPECTED_,==,_ACTUAL_,true)
+#define EXPECT_FLOAT_NE( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_FLOAT(_EXPECTED_,!=,_ACTUAL_,false)
 
 #define FAIL(_MESSAGE_) \
    this->checkFail( __FILE__, __LINE__, _MESSAGE_, "" );
-- 
2.43.0


From 357f28dcbe6ad53df2dcdcbd7e2da9138a6aaff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 31/57] fix: failing exception checks stop the test body

---
 src/include/falcon/fut/fut.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/fut/fut.h b/src/include/falcon/fut/fut.h
index 177163c..ef6dd96 100644
--- a/src/include/falcon/fut/fut.h
+++ b/src/include/falcon/fut/fut.h
@@ -115,13 +115,19 @@ inline bool almostEqual(double first, double second) {
          std::ostringstream ss; \
          ss << "Expected exception of type " #_CATCH_ " wasn't thrown"; \
          this->checkFail( __FILE__, __LINE__, ss.str().c_str(), "" ); \
-     } catch(const _CATCH_&) {}
+         return; \
+     } catch(const _CATCH_&) {} \
+     catch(...) { \
+         this->checkFail( __FILE__, __LINE__, "Exception thrown is not of the expected type " #_CATCH_, "" ); \
+         return; \
+     }
 
 
 #define EXPECT_ANY_THROW(_EXPRESSION_) \
      try { \
          {_EXPRESSION_;}\
          this->checkFail( __FILE__, __LINE__, "No throw when any throw was expected", "" ); \
+         return; \
      } catch(...) {}
 
 
@@ -132,9 +138,11 @@ inline bool almostEqual(double first, double second) {
         std::ostringstream ss; \
         ss << "Exception thrown: \" " << __excpt__.what() << "\""; \
         this->checkFail( __FILE__, __LINE__, ss.str().c_str(), "" ); \
+        return; \
      } \
      catch(...) { \
         this->checkFail( __FILE__, __LINE__, "Unknown exception thrown", "" ); \
+        return; \
      }
 
 
-- 
2.43.0


From bba0e1a7371ba9399bc922ab98f0da8eeffed0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 32/57] fix: each run of a test case starts from a clean record

---
 src/fut/testcase.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index d76bb4c..0d33ff8 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -54,6 +54,7 @@ TestCase::TestCase():
 {
    p->name = "Undefined";
    p->status = NONE;
+   p->failLine = 0;
 }
 
 TestCase::~TestCase()
@@ -183,6 +184,15 @@ void TestCase::destroy()
 
 void TestCase::beginTest(bool capture)
 {
+   // forget what previous runs left
+   p->failDesc.clear();
+   p->failFile.clear();
+   p->failLine = 0;
+   p->outCapture.str("");
+   p->errCapture.str("");
+   p->outCaptureStr.clear();
+   p->errCaptureStr.clear();
+
    // saving the standard buffers
    if (capture) {
       p->outbuf = std::cout.rdbuf();
-- 
2.43.0


From 686b28d62ab104a353967974da5393620cdded5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 33/57] fix: the first failure of a test case is not
 overwritten

---
 src/fut/testcase.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 0d33ff8..43341f1 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -46,6 +46,16 @@ public:
    std::string failFile;
 
    TimeLapse lapse;
+
+   /** True if the outcome is already a failure: it's not to be overwritten. */
+   bool failed() const { return status == FAIL || status == ERROR; }
+
+   void error(const char* desc) {
+      if(!failed()) {
+         status = ERROR;
+         failDesc = desc;
+      }
+   }
 };
 
 
@@ -103,6 +113,10 @@ const char* TestCase::statusDesc() const {
 
 void TestCase::fail(const char* file, int line, const char* reason)
 {
+   if(p->failed()) {
+      return;
+   }
+
    p->status = FAIL;
    p->failFile = file;
    p->failLine = line;
@@ -142,6 +156,10 @@ int TestCase::failLine() const
 
 void TestCase::checkFail(const char* fname, int line, const char* expected, const char* actual)
 {
+   if(p->failed()) {
+      return;
+   }
+
    p->failDesc = expected;
    if(*actual) {
       p->failDesc += " (Actually \"";
@@ -233,13 +251,11 @@ void TestCase::run()
    }
    catch(std::exception& e) {
       p->lapse.markEnd();
-      p->status = ERROR;
-      p->failDesc = e.what();
+      p->error(e.what());
    }
    catch(...) {
       p->lapse.markEnd();
-      p->status = ERROR;
-      p->failDesc = "Unknown error caught by falcon::testing framework";
+      p->error("Unknown error caught by falcon::testing framework");
    }
 }
 
-- 
2.43.0


From 7eb96c3e8cf6df7b0ffe96ec444a2ebf3b5145a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 34/57] fix: TearDown is called also when the test throws

---
 src/fut/testcase.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 43341f1..fdaf765 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -236,9 +236,11 @@ void TestCase::endTest(bool capture)
 
 void TestCase::run()
 {
+   bool setUp = false;
    try {
       p->status = NONE;
       SetUp();
+      setUp = true;
 
       p->lapse.markBegin();
       test();
@@ -247,7 +249,6 @@ void TestCase::run()
       if(p->status == NONE) {
          p->status = p->errCapture.str().empty() ? SUCCESS : OUT_ON_ERROR_STREAM;
       }
-      TearDown();
    }
    catch(std::exception& e) {
       p->lapse.markEnd();
@@ -257,6 +258,18 @@ void TestCase::run()
       p->lapse.markEnd();
       p->error("Unknown error caught by falcon::testing framework");
    }
+
+   if(setUp) {
+      try {
+         TearDown();
+      }
+      catch(std::exception& e) {
+         p->error(e.what());
+      }
+      catch(...) {
+         p->error("Unknown error caught by falcon::testing framework");
+      }
+   }
 }
 
 int64 TestCase::elapsedTime() const
-- 
2.43.0


From c26bbda2771ee08a90a836cf7c18665acc1a1ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 35/57] fix: formatting set by a test on the standard streams
 doesn't outlive it

---
 src/fut/testcase.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index fdaf765..9c049fe 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -41,6 +41,33 @@ public:
    std::streambuf *outbuf;
    std::streambuf *errbuf;
 
+   // formatting of the standard streams, that the test might change
+   class Format {
+   public:
+      void save(const std::ios& stream) {
+         flags = stream.flags();
+         precision = stream.precision();
+         width = stream.width();
+         fill = stream.fill();
+      }
+
+      void restore(std::ios& stream) const {
+         stream.flags(flags);
+         stream.precision(precision);
+         stream.width(width);
+         stream.fill(fill);
+      }
+
+   private:
+      std::ios::fmtflags flags;
+      std::streamsize precision;
+      std::streamsize width;
+      char fill;
+   };
+
+   Format outfmt;
+   Format errfmt;
+
    std::string failDesc;
    int failLine;
    std::string failFile;
@@ -211,6 +238,9 @@ void TestCase::beginTest(bool capture)
    p->outCaptureStr.clear();
    p->errCaptureStr.clear();
 
+   p->outfmt.save(std::cout);
+   p->errfmt.save(std::cerr);
+
    // saving the standard buffers
    if (capture) {
       p->outbuf = std::cout.rdbuf();
@@ -224,6 +254,9 @@ void TestCase::beginTest(bool capture)
 
 void TestCase::endTest(bool capture)
 {
+   p->outfmt.restore(std::cout);
+   p->errfmt.restore(std::cerr);
+
    // When done redirect cout to its old self
    if(capture){
       std::cout.rdbuf(p->outbuf);
-- 
2.43.0


From 0fcf95ff543dfc90babeba595f9c25c922649977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 36/57] fix: tests that were not selected are not reported as
 failed

---
 src/fut/unittest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index c9424cd..1e8963b 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -223,7 +223,7 @@ void UnitTest::report()
    if(p->verbosity > SILENT) {
       if (p->status != 0) {
          bool first = true;
-         for(auto tcase: p->tests ) {
+         for(auto tcase: p->testsToPerofm ) {
             if (!hasPassed(tcase))
             {
                if(first) {
-- 
2.43.0


From 05ace05c31c0ba192b8d10ace649e1b2f74a366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 37/57] fix: tests selected more than once run once

---
 src/fut/unittest.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 1e8963b..0d28f97 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -364,7 +364,10 @@ int UnitTest::parseParams(int argc, char* argv[])
             return 1;
          }
 
-         p->testsToPerofm.push_back(iter->second);
+         auto& selected = p->testsToPerofm;
+         if(std::find(selected.begin(), selected.end(), iter->second) == selected.end()) {
+            selected.push_back(iter->second);
+         }
          continue;
       }
       else if (opt == "-x" && ++i < argc) {
-- 
2.43.0


From 5d4183b09f6d5e18010c9f8c333a069203e40d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 38/57] fix: repeated runs do not repeat the tests of the
 previous ones

---
 src/fut/unittest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 0d28f97..b3e3fe7 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -109,6 +109,7 @@ void UnitTest::init()
 void UnitTest::runAllTests()
 {
    // Reorder the tests in components
+   p->componentToPerform.clear();
    int count = 0;
    for(auto tcase: p->testsToPerofm ) {
 
-- 
2.43.0


From 93b8b3238eb478532d14a4d851b04ab13faf2497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 39/57] fix: verbosity levels that are not numbers are refused

---
 src/fut/unittest.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index b3e3fe7..d0b83fd 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -350,8 +350,10 @@ int UnitTest::parseParams(int argc, char* argv[])
       }
       else if(opt == "-v" && ++i < argc) {
          std::istringstream is(argv[i]);
-         int level;
-         is >> level;
+         int level = -1;
+         if(!(is >> level) || is.peek() != std::istringstream::traits_type::eof()) {
+            level = -1;
+         }
          if(level >= SILENT && level <= REPORT_STDOUT) {
             setVerbosity(static_cast<t_verbosity>(level));
             continue;
-- 
2.43.0


From 0255c33ff1aeb348053c2f4bd92905c51a37ac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 40/57] fix: texts in the XML report are escaped

---
 src/fut/unittest.cpp | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index d0b83fd..5a87acb 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -416,6 +416,30 @@ void UnitTest::usage() {
 }
 
 
+namespace {
+/** Text that can be used in XML contents and attributes. */
+std::string escapeXML(const std::string& text)
+{
+   std::string result;
+   for(char chr: text) {
+      switch(chr) {
+      case '&': result += "&amp;"; break;
+      case '<': result += "&lt;"; break;
+      case '>': result += "&gt;"; break;
+      case '"': result += "&quot;"; break;
+      case '\t': result += "&#9;"; break;
+      case '\n': result += "&#10;"; break;
+      case '\r': result += "&#13;"; break;
+      default:
+         // Other control characters can't be represented
+         result += (static_cast<unsigned char>(chr) < 0x20) ? '?' : chr;
+         break;
+      }
+   }
+   return result;
+}
+}
+
 void UnitTest::saveToXML() const
 {
    std::ofstream fout(p->xmlReport);
@@ -426,29 +450,29 @@ void UnitTest::saveToXML() const
 
    fout << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
 
-   fout << "<testsuites id=\""<< p->unitTestId << "\" name=\"" << p->unitTestName
+   fout << "<testsuites id=\"" << escapeXML(p->unitTestId) << "\" name=\"" << escapeXML(p->unitTestName)
             << "\" tests=\"" << p->testsToPerofm.size() << "\" "
             << "failures=\"" << p->failedCount << "\" "
             << "time=\""<< p->lapse.elapsed() / 1000.0 << "\">\n";
    for(auto& icat: p->componentToPerform) {
       auto& component = icat.second;
 
-      fout << "<testsuite id=\"" << p->unitTestId << "." << component.name << "\" "
-           << "name=\"" << component.name << "\" "
+      fout << "<testsuite id=\"" << escapeXML(p->unitTestId) << "." << escapeXML(component.name) << "\" "
+           << "name=\"" << escapeXML(component.name) << "\" "
            << "tests=\"" << component.tests.size() << "\" "
            << "failures=\"" << component.failures << "\" "
            << "time=\"" << component.lapse.elapsed() / 1000.0 << "\">\n";
 
       for(auto tcasep: component.tests) {
-         fout << "<testcase id=\"" << p->unitTestId << "." << component.name << "." << tcasep->caseName() << "\" "
-              << "name=\"" << tcasep->caseName() << "\" "
+         fout << "<testcase id=\"" << escapeXML(p->unitTestId) << "." << escapeXML(component.name) << "." << escapeXML(tcasep->caseName()) << "\" "
+              << "name=\"" << escapeXML(tcasep->caseName()) << "\" "
               << "time=\"" << tcasep->elapsedTime() / 1000.0 << "\">\n";
 
          if(!hasPassed(tcasep)) {
-            fout << "<failure message=\"" << tcasep->failDesc() << "\" "
+            fout << "<failure message=\"" << escapeXML(tcasep->failDesc()) << "\" "
                  << "type=\"" << tcasep->statusDesc() << "\">\n";
-            fout << tcasep->failDesc() << "\n"
-                 << "File: " << tcasep->failFile() << "\n"
+            fout << escapeXML(tcasep->failDesc()) << "\n"
+                 << "File: " << escapeXML(tcasep->failFile()) << "\n"
                  << "Line: " << tcasep->failLine() << "\n";
             fout << "</failure>\n";
          }
-- 
2.43.0


From a19367fd9c88cb7f5671d2ac2fda403537917317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 41/57] fix: waitTime waits also for more than an hour

---
 src/fut/marktime-unix.c++ | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fut/marktime-unix.c++ b/src/fut/marktime-unix.c++
index efac12f..8a2ee09 100644
--- a/src/fut/marktime-unix.c++
+++ b/src/fut/marktime-unix.c++
@@ -14,7 +14,7 @@
 ******************************************************************************/
 
 #include <falcon/fut/marktime.h>
-#include <unistd.h>
+#include <time.h>
 #include <sys/time.h>
 #include <stdexcept>
 
@@ -32,7 +32,10 @@ void markTime(int64& currentMillisecs)
 }
 
 void waitTime(int64 mseconds) {
-	usleep(mseconds * 1000);
+	struct timespec ts;
+	ts.tv_sec = mseconds / 1000;
+	ts.tv_nsec = (mseconds % 1000) * 1000000;
+	nanosleep(&ts, NULL);
 }
 
 }
-- 
2.43.0


From 7abeb5e9b999bc75f8d44b3bc9c9f39f2e718fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 42/57] fix: the category filter of a listener can be read
 while it is changed

---
 src/include/falcon/logsystem.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 333e483..323d8f5 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -133,9 +133,9 @@ public:
       }
 
       /**
-       * Returns the current category filter
+       * Returns (a copy of) the current category filter, that other threads might be changing.
        */
-      const std::string& category() const noexcept {
+      std::string category() const {
     	  std::lock_guard<std::mutex> guard(m_mtxCategory);
     	  return m_category;
       }
-- 
2.43.0


From 8906b0e6f73826672b2beeb64156e6b4545cabc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 43/57] fix: log stream listeners in different threads do not
 share the broken-down time

---
 src/engine/logstream.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/engine/logstream.cpp b/src/engine/logstream.cpp
index 98f5290..82c77fc 100644
--- a/src/engine/logstream.cpp
+++ b/src/engine/logstream.cpp
@@ -18,6 +18,7 @@
 #include <iostream>
 #include <iomanip>
 #include <locale>
+#include <ctime>
 #include <sstream>
 
 namespace falcon {
@@ -26,7 +27,13 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 {
 	auto now = std::chrono::system_clock::now();
 	time_t tt = std::chrono::system_clock::to_time_t(now);
-	tm local_tm = *localtime(&tt);
+	tm local_tm;
+	// localtime() has a result common to all the threads.
+#ifdef FALCON_SYSTEM_WIN
+	localtime_s(&local_tm, &tt);
+#else
+	localtime_r(&tt, &local_tm);
+#endif
 
 	size_t fpos = msg.m_file.rfind(FALCON_DIR_SEP_CHR);
 	std::string file;
-- 
2.43.0


From 7e38a5ce9cee76599b43abdb6e84ee2046c0b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 44/57] fix: a log block that is not run sends no message

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 4aeb1d4..3dbfc80 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -457,7 +457,7 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 
 #define LOG_BLOCK(lvl) \
 	for( ::falcon::Logger::BlockEnd __ender(LOGGER, __FILE__, __LINE__, lvl); \
-		FALCON_MIN_LOG_LEVEL >= lvl && LOGGER.level() >= lvl && __ender; \
+		FALCON_MIN_LOG_LEVEL >= lvl && __ender; \
 		__ender.complete() )
 
 #define LOG_BLOCK_CRIT LOG_BLOCK(::falcon::LLCRIT)
-- 
2.43.0


From 1f28bddcbbe5dc5b89a83141c8587f9db2b28b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 45/57] fix: time elapsed by a test whose SetUp throws

---
 src/fut/testcase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 9c049fe..3b53d8c 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -272,6 +272,8 @@ void TestCase::run()
    bool setUp = false;
    try {
       p->status = NONE;
+      // in case the set-up fails
+      p->lapse.markBegin();
       SetUp();
       setUp = true;
 
-- 
2.43.0


From eb32d43b6730d1a8607e3f05b9f8e1a86783b6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 46/57] fix: waitTime waits all the time also when a signal
 arrives

---
 src/fut/marktime-unix.c++ | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fut/marktime-unix.c++ b/src/fut/marktime-unix.c++
index 8a2ee09..071d874 100644
--- a/src/fut/marktime-unix.c++
+++ b/src/fut/marktime-unix.c++
@@ -14,6 +14,7 @@
 ******************************************************************************/
 
 #include <falcon/fut/marktime.h>
+#include <errno.h>
 #include <time.h>
 #include <sys/time.h>
 #include <stdexcept>
@@ -35,7 +36,8 @@ void waitTime(int64 mseconds) {
 	struct timespec ts;
 	ts.tv_sec = mseconds / 1000;
 	ts.tv_nsec = (mseconds % 1000) * 1000000;
-	nanosleep(&ts, NULL);
+	// signals end the wait early
+	while(nanosleep(&ts, &ts) != 0 && errno == EINTR) {}
 }
 
 }
-- 
2.43.0


From feb33d7f16216611f66bdeae19561083ce38355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 47/57] fix: a contended futex keeps yielding, not just once

---
 src/include/falcon/futex.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index fb96ab3..4bf4c35 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -57,6 +57,7 @@ public:
 
          if(spinCount && --sc == 0) {
             std::this_thread::yield();
+            sc = spinCount;
          }
       }
    }
-- 
2.43.0


From 2303a6cec678adcdba39c4c9527ebfb3ed3e9068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:47 +0000
Subject: [PATCH 48/57] fix: a suite performed again runs the cases added in
 the meanwhile

---
 src/fut/unittest.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 5a87acb..69c0c2e 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -60,6 +60,7 @@ public:
    std::multimap<std::string, TestCase*> testsByComponent;
    std::map<std::string, Component> componentToPerform;
    std::vector<TestCase*> testsToPerofm;
+   std::vector<TestCase*> selectedTests;
    std::string xmlReport;
 
    std::string unitTestId;
@@ -282,10 +283,7 @@ int UnitTest::performUnitTests()
 {
    init();
    // fill the test to perform with all the tests, if none was explicitly given.
-   auto& testsToPerform = p->testsToPerofm;
-   if(testsToPerform.empty()) {
-      testsToPerform = p->tests;
-   }
+   p->testsToPerofm = p->selectedTests.empty() ? p->tests : p->selectedTests;
 
    runAllTests();
    report();
@@ -367,7 +365,7 @@ int UnitTest::parseParams(int argc, char* argv[])
             return 1;
          }
 
-         auto& selected = p->testsToPerofm;
+         auto& selected = p->selectedTests;
          if(std::find(selected.begin(), selected.end(), iter->second) == selected.end()) {
             selected.push_back(iter->second);
          }
-- 
2.43.0


From 7c6e3121248dd8400972f257c2c8fdfdf632cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:07 +0000
Subject: [PATCH 49/57] fix: UnitTest::elapsedTime() was declared but not
 defined

---
 src/fut/unittest.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 69c0c2e..3f24020 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -294,6 +294,12 @@ int UnitTest::performUnitTests()
 }
 
 
+int64 UnitTest::elapsedTime() const
+{
+   return p->lapse.elapsed();
+}
+
+
 int UnitTest::performTest(const char* name)
 {
    init();
-- 
2.43.0


From c6d972255d5ca32e655b265f5c39f58d549984da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:10 +0000
Subject: [PATCH 50/57] fix: a string can come first in a log statement

With an implicit conversion to category_manipulator, LOG_INFO << string is ambiguous (refused by clang).
---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 3dbfc80..685078e 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -380,7 +380,7 @@ public:
 
 
 	struct category_manipulator {
-		category_manipulator(const std::string& cat):
+		explicit category_manipulator(const std::string& cat):
 			m_cat{cat}
 		{}
 		std::string m_cat;
-- 
2.43.0


From 70b02f11208af49f93223136be0f80a65e2374d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:49 +0000
Subject: [PATCH 51/57] fix: settings of the standard streams changed by a test
 don't outlive it

Only the flags, precision, width and fill of cout and cerr were restored
after a test; its locale, tie, exception mask and state remained: a test
writing a null string, for one, silenced every later report.
---
 src/fut/testcase.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 3b53d8c..cb73025 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -19,6 +19,7 @@
 
 #include <string>
 #include <iostream>
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 
@@ -41,14 +42,18 @@ public:
    std::streambuf *outbuf;
    std::streambuf *errbuf;
 
-   // formatting of the standard streams, that the test might change
-   class Format {
+   // settings of the standard streams, that the test might change
+   class Settings {
    public:
       void save(const std::ios& stream) {
          flags = stream.flags();
          precision = stream.precision();
          width = stream.width();
          fill = stream.fill();
+         tie = stream.tie();
+         locale = stream.getloc();
+         state = stream.rdstate();
+         exceptions = stream.exceptions();
       }
 
       void restore(std::ios& stream) const {
@@ -56,6 +61,11 @@ public:
          stream.precision(precision);
          stream.width(width);
          stream.fill(fill);
+         stream.tie(tie);
+         stream.imbue(locale);
+         stream.exceptions(std::ios::goodbit);
+         stream.clear(state);
+         stream.exceptions(exceptions);
       }
 
    private:
@@ -63,10 +73,14 @@ public:
       std::streamsize precision;
       std::streamsize width;
       char fill;
+      std::ostream* tie;
+      std::locale locale;
+      std::ios::iostate state;
+      std::ios::iostate exceptions;
    };
 
-   Format outfmt;
-   Format errfmt;
+   Settings outfmt;
+   Settings errfmt;
 
    std::string failDesc;
    int failLine;
@@ -254,9 +268,6 @@ void TestCase::beginTest(bool capture)
 
 void TestCase::endTest(bool capture)
 {
-   p->outfmt.restore(std::cout);
-   p->errfmt.restore(std::cerr);
-
    // When done redirect cout to its old self
    if(capture){
       std::cout.rdbuf(p->outbuf);
@@ -265,6 +276,10 @@ void TestCase::endTest(bool capture)
       p->outCaptureStr = p->outCapture.str();
       p->errCaptureStr = p->errCapture.str();
    }
+
+   // after redirecting, which resets the stream state
+   p->outfmt.restore(std::cout);
+   p->errfmt.restore(std::cerr);
 }
 
 void TestCase::run()
-- 
2.43.0


From eadad3c563604f688793d0ea0a8ed02b8b0166ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:30 +0000
Subject: [PATCH 52/57] fix: reporting a run leaves the precision of the
 standard output as it was

The cases of a second run printed numbers differently from the first.
---
 src/fut/unittest.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 3f24020..31e8ecd 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -223,6 +223,8 @@ bool UnitTest::hasPassed(TestCase* tcase) const
 void UnitTest::report()
 {
    if(p->verbosity > SILENT) {
+      std::streamsize precision = std::cout.precision();
+
       if (p->status != 0) {
          bool first = true;
          for(auto tcase: p->testsToPerofm ) {
@@ -255,6 +257,9 @@ void UnitTest::report()
       std::cout << "Unit Test " << p->unitTestName
          << " (elapsed " <<std::setprecision(4) << p->lapse.elapsed() / 1000.0 << "s) "
          << ( p->status == 0 ? "Passed\n" : "FAILED \n");
+
+      // the cases of a later run are to find the stream as it was
+      std::cout.precision(precision);
    }
 }
 
-- 
2.43.0


From 267c25cab5b94f599c57b43666f8c064a0910203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:09 +0000
Subject: [PATCH 53/57] fix: numbers in the XML report don't depend on the
 global locale

With a locale that has another decimal point or groups digits, times and
counts were not valid numbers.
---
 src/fut/unittest.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 31e8ecd..415d005 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -26,6 +26,7 @@
 #include <iostream>
 #include <iomanip>
 #include <fstream>
+#include <locale>
 #include <sstream>
 
 namespace falcon {
@@ -456,6 +457,8 @@ void UnitTest::saveToXML() const
       std::cerr << "Cannot save XML report to " << p->xmlReport;
       return;
    }
+   // numbers are plain, whatever the global locale
+   fout.imbue(std::locale::classic());
 
    fout << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
 
-- 
2.43.0


From d84efb907d53f266208ee85aeb5c9004ccbaa7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:59 +0000
Subject: [PATCH 54/57] fix: times in the XML report are to the millisecond,
 however long

Above 1000 seconds digits were lost, and above a million the times were
written with an exponent.
---
 src/fut/unittest.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 415d005..f9c9396 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -459,6 +459,8 @@ void UnitTest::saveToXML() const
    }
    // numbers are plain, whatever the global locale
    fout.imbue(std::locale::classic());
+   // and times are in milliseconds, however long
+   fout << std::fixed << std::setprecision(3);
 
    fout << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
 
-- 
2.43.0


From 28e7c5a0313a62d32a672c5999630fd3f1aa0791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:22 +0000
Subject: [PATCH 55/57] fix: a stack can be copied or moved while another
 thread assigns to it

The page size, the amount of preallocated pages and the allocator were
read out of the lock.
---
 src/include/falcon/engine/pagedstack.h | 40 +++++++++++++++-----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 3167561..46ff3da 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -486,24 +486,12 @@ public:
    }
 
    PagedStack(const PagedStack& other):
-            PagedStack(other.m_pageSize, other.m_allocSize, other.m_dataAllocator)
-   {
-      std::lock_guard<_Mutex> guard(other.m_mutex);
-      typename base_type::const_iterator last = other.m_curBase;
-      ++last;
-      for(typename base_type::const_iterator iter = other.m_base.begin(); iter != last; ++iter) {
-         for(const _T& data: *iter) {
-            internal_push(data);
-         }
-      }
-   }
+            PagedStack(other, std::lock_guard<_Mutex>(other.m_mutex))
+   {}
 
    PagedStack(PagedStack&& other):
-            PagedStack(other.m_pageSize, other.m_allocSize, other.m_dataAllocator)
-   {
-      std::lock_guard<_Mutex> guard(other.m_mutex);
-      internal_swap(other);
-   }
+            PagedStack(other, std::lock_guard<_Mutex>(other.m_mutex))
+   {}
 
    /**
     * Assigning a stack invalidates its iterators, synchronised ones included.
@@ -676,6 +664,26 @@ public:
 
 private:
 
+   // Copies the other stack, which the caller has locked.
+   PagedStack(const PagedStack& other, const std::lock_guard<_Mutex>&):
+            PagedStack(other.m_pageSize, other.m_allocSize, other.m_dataAllocator)
+   {
+      typename base_type::const_iterator last = other.m_curBase;
+      ++last;
+      for(typename base_type::const_iterator iter = other.m_base.begin(); iter != last; ++iter) {
+         for(const _T& data: *iter) {
+            internal_push(data);
+         }
+      }
+   }
+
+   // Empties the other stack, which the caller has locked.
+   PagedStack(PagedStack& other, const std::lock_guard<_Mutex>&):
+            PagedStack(other.m_pageSize, other.m_allocSize, other.m_dataAllocator)
+   {
+      internal_swap(other);
+   }
+
    reverse_iterator internal_from_top(size_t depth) noexcept {
       typename base_type::iterator iBase = m_curBase;
       while(depth > iBase->size()) {
-- 
2.43.0


From e1f1e553f1ff1ce9490e87a7dd3ca08e07db2799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:00 +0000
Subject: [PATCH 56/57] fix: the text of numbers doesn't depend on the global
 locale

---
 src/include/falcon/engine/floathandler.h | 3 +++
 src/include/falcon/engine/inthandler.h   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/include/falcon/engine/floathandler.h b/src/include/falcon/engine/floathandler.h
index 4b20ed2..7a99ab4 100644
--- a/src/include/falcon/engine/floathandler.h
+++ b/src/include/falcon/engine/floathandler.h
@@ -16,6 +16,7 @@
 #define _FALCON_FLOATHANDLER_H_
 
 #include "falcon/engine/flathandler.h"
+#include <locale>
 #include <sstream>
 
 namespace falcon {
@@ -28,6 +29,8 @@ struct FloatHandler: public FlatHandler {
     String typeName() const noexcept override {return "Float";}
     String toString(ItemData data) const noexcept override {
       std::ostringstream ss;
+      // The text is part of the language; it doesn't follow the global locale.
+      ss.imbue(std::locale::classic());
       ss << data.numericValue;
       return ss.str();
     }
diff --git a/src/include/falcon/engine/inthandler.h b/src/include/falcon/engine/inthandler.h
index a6a70a0..bc40fc4 100644
--- a/src/include/falcon/engine/inthandler.h
+++ b/src/include/falcon/engine/inthandler.h
@@ -16,6 +16,7 @@
 #define _FALCON_INTHANDLER_H_
 
 #include "falcon/engine/flathandler.h"
+#include <locale>
 #include <sstream>
 
 namespace falcon {
@@ -28,6 +29,8 @@ struct IntHandler: public FlatHandler {
     String typeName() const noexcept override {return "Int";}
     String toString(ItemData data) const noexcept override {
       std::ostringstream ss;
+      // The text is part of the language; it doesn't follow the global locale.
+      ss.imbue(std::locale::classic());
       ss << data.int64Value;
       return ss.str();
     }
-- 
2.43.0


From 6fdf4baaf3353ccb95fff292c22e54ff50fa3d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:13 +0000
Subject: [PATCH 57/57] fix: moving a synchronised iterator up from the top
 stays in the stack

---
 src/include/falcon/engine/pagedstack.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 46ff3da..92f26b6 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -363,8 +363,14 @@ private:
          if (synchronize()){
             ++m_iData;
             if(m_iData == m_iBase->end()) {
-               ++m_iBase;
-               m_iData = m_iBase->begin();
+               if(m_iBase == m_owner->m_curBase) {
+                  // The elements above might have been removed in the meanwhile.
+                  --m_iData;
+               }
+               else {
+                  ++m_iBase;
+                  m_iData = m_iBase->begin();
+               }
             }
          }
          return *this;
-- 
2.43.0

