From 0bd296153be25880ce1e56d648b7ddb5b0ea1f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 01/37] fix: HashTable::init leaves the table empty when its
 allocation fails

capacity_ was set before the table was allocated, so that destroying (or
iterating) a table whose init() had failed dereferenced a null table.
---
 amtl/am-hashtable.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 51a384b..7d2baae 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -414,15 +414,14 @@ class HashTable : private AllocPolicy
             return false;
         }
 
-        minCapacity_ = uint32_t(capacity);
-
         assert(IsPowerOfTwo(capacity));
-        capacity_ = uint32_t(capacity);
 
-        table_ = createTable(capacity_);
+        table_ = createTable(uint32_t(capacity));
         if (!table_)
             return false;
 
+        minCapacity_ = uint32_t(capacity);
+        capacity_ = uint32_t(capacity);
         return true;
     }
 
-- 
2.43.0


From 597af8ce1453146d411de34ec24b431ea01a2b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 02/37] fix: HashTable reports an overflow when doubling would
 pass the maximum capacity

kMaxCapacity is not a power of two, so the check for capacity_ >= kMaxCapacity
let through a doubling beyond it, which then failed the assertion in
changeCapacity (or asked for an oversized block in release builds).
---
 amtl/am-hashtable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 7d2baae..28e8f02 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -245,7 +245,7 @@ class HashTable : private AllocPolicy
     }
 
     bool grow() {
-        if (capacity_ >= kMaxCapacity) {
+        if (capacity_ > kMaxCapacity / 2) {
             this->reportAllocationOverflow();
             return false;
         }
-- 
2.43.0


From 2eb4c8eab73c2797277ce168f20dd6e6bcd50731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 03/37] fix: HashMap and HashSet expose the allocation policy
 that they use

allocPolicy() returned an unused default-constructed base instead of the
policy object given to the constructor, which the table allocates through.
---
 amtl/am-hashmap.h | 4 ++--
 amtl/am-hashset.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/amtl/am-hashmap.h b/amtl/am-hashmap.h
index 2f705bb..1d35201 100644
--- a/amtl/am-hashmap.h
+++ b/amtl/am-hashmap.h
@@ -163,10 +163,10 @@ class HashMap : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
diff --git a/amtl/am-hashset.h b/amtl/am-hashset.h
index cbc90fc..ea046dd 100644
--- a/amtl/am-hashset.h
+++ b/amtl/am-hashset.h
@@ -146,10 +146,10 @@ class HashSet : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
-- 
2.43.0


From 1772e5ca62e3b8167cb23ed67cb0da4ce063f842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 04/37] fix: RefPtr assignment drops the old reference last

Releasing first destroyed the object when a pointer was assigned to itself,
or from a pointer that only the released object owned (p = p->next).
---
 amtl/am-refcounting.h | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/amtl/am-refcounting.h b/amtl/am-refcounting.h
index b44a3d2..2e0698c 100644
--- a/amtl/am-refcounting.h
+++ b/amtl/am-refcounting.h
@@ -264,30 +264,27 @@ class RefPtr
 
     template <typename S>
     RefPtr& operator =(S* thing) {
-        Release();
-        thing_ = thing;
-        AddRef();
+        if (thing)
+            thing->AddRef();
+        Replace(thing);
         return *this;
     }
 
     template <typename S>
     RefPtr& operator =(const AlreadyRefed<S>& other) {
-        Release();
-        thing_ = other.take();
+        Replace(other.take());
         return *this;
     }
 
     RefPtr& operator =(const RefPtr& other) {
-        Release();
-        thing_ = other.thing_;
-        AddRef();
+        if (other.thing_)
+            other.thing_->AddRef();
+        Replace(other.thing_);
         return *this;
     }
 
     RefPtr& operator =(RefPtr&& other) {
-        Release();
-        thing_ = other.thing_;
-        other.thing_ = nullptr;
+        Replace(ReturnAndVoid(other.thing_));
         return *this;
     }
 
@@ -314,6 +311,15 @@ class RefPtr
             thing_->Release();
     }
 
+    // Takes over a reference to |thing|. The old reference is dropped last,
+    // since it might be what keeps |thing| (or its owner) alive.
+    void Replace(T* thing) {
+        T* old = thing_;
+        thing_ = thing;
+        if (old)
+            old->Release();
+    }
+
   protected:
     T* thing_;
 };
-- 
2.43.0


From aa70c0bab53f073ae8075093898ed56eb20c8175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 05/37] fix: InlineList::remove clears the links in release
 builds too

Without that, isInList() kept returning true for a removed node.
---
 amtl/am-inlinelist.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/amtl/am-inlinelist.h b/amtl/am-inlinelist.h
index 5226cd5..79c2280 100644
--- a/amtl/am-inlinelist.h
+++ b/amtl/am-inlinelist.h
@@ -212,10 +212,8 @@ class InlineList
         t->next_->prev_ = t->prev_;
         length_--;
 
-#if !defined(NDEBUG)
         t->next_ = nullptr;
         t->prev_ = nullptr;
-#endif
     }
 
     void append(Node* t) {
-- 
2.43.0


From 1dac5f3a786c690f2de420f90fe3954b58c52318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 06/37] fix: InlineList::length counts the nodes in the list

The stored count was not updated by removeFromParentList().
---
 amtl/am-inlinelist.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/amtl/am-inlinelist.h b/amtl/am-inlinelist.h
index 79c2280..16e158b 100644
--- a/amtl/am-inlinelist.h
+++ b/amtl/am-inlinelist.h
@@ -88,7 +88,6 @@ class InlineList
     typedef InlineListNode<T> Node;
 
     Node head_;
-    size_t length_;
 
     // Work around a clang bug where we can't initialize with &head_ in the ctor.
     inline Node* head() {
@@ -97,8 +96,7 @@ class InlineList
 
   public:
     InlineList()
-     : head_(head(), head()),
-       length_(0)
+     : head_(head(), head())
     {}
 
     ~InlineList() {
@@ -210,7 +208,6 @@ class InlineList
     void remove(Node* t) {
         t->prev_->next_ = t->next_;
         t->next_->prev_ = t->prev_;
-        length_--;
 
         t->next_ = nullptr;
         t->prev_ = nullptr;
@@ -224,11 +221,14 @@ class InlineList
         t->next_ = &head_;
         head_.prev_->next_ = t;
         head_.prev_ = t;
-        length_++;
     }
 
+    // Counts the nodes, since they can leave through removeFromParentList().
     size_t length() const {
-        return length_;
+        size_t length = 0;
+        for (const Node* node = head_.next_; node != &head_; node = node->next_)
+            length++;
+        return length;
     }
 };
 
-- 
2.43.0


From 8c9dedbae644b0738db7e5f79580b3d8d1f9f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 07/37] fix: Function assignment takes the new callable before
 destroying the old

Assigning a Function to itself, or one owned by its own callable, read a
destroyed callable. Assigning an rvalue copied it rather than moving it.
---
 amtl/am-function.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 6b26677..7db124d 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -121,25 +121,21 @@ class Function<ReturnType(ArgTypes...)>
     }
 
     Function& operator =(decltype(nullptr)) {
-        destroy();
-        impl_ = nullptr;
+        zap();
         return *this;
     }
     Function& operator =(const Function& other) {
-        destroy();
-        assign(other);
+        replace(Function(other));
         return *this;
     }
     Function& operator =(Function&& other) {
-        destroy();
-        move(std::move(other));
+        replace(Function(std::move(other)));
         return *this;
     }
 
     template <typename T>
     Function& operator =(T&& other) {
-        destroy();
-        assign(other);
+        replace(Function(std::forward<T>(other)));
         return *this;
     }
 
@@ -171,6 +167,13 @@ class Function<ReturnType(ArgTypes...)>
         impl_ = nullptr;
     }
 
+    // The new callable has to exist before the old one is destroyed, since it
+    // can come from this Function or from something that it owns.
+    void replace(Function&& other) {
+        destroy();
+        move(std::move(other));
+    }
+
     void* inline_buffer() {
         return &buffer_;
     }
-- 
2.43.0


From 9182bdf0d15ddb4bd50beeae991176e94370dc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 08/37] fix: Function made from an empty Function or null
 pointer is empty

Copying a non-const empty Function wrapped it, so that the copy claimed to be
callable.
---
 amtl/am-function.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 7db124d..bb2c663 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -92,6 +92,28 @@ static const size_t kMinFunctionInlineBufferSize = sizeof(void*) * 3;
 template <typename Tk>
 class Function;
 
+namespace impl {
+// Function pointers and Functions can have nothing to call.
+template <typename T>
+struct FunctionEmptyCheck {
+    static bool isEmpty(const T&) {
+        return false;
+    }
+};
+template <typename T>
+struct FunctionEmptyCheck<T*> {
+    static bool isEmpty(T* ptr) {
+        return !ptr;
+    }
+};
+template <typename Tk>
+struct FunctionEmptyCheck<Function<Tk>> {
+    static bool isEmpty(const Function<Tk>& fun) {
+        return !fun;
+    }
+};
+} // namespace impl
+
 template <typename ReturnType, typename... ArgTypes>
 class Function<ReturnType(ArgTypes...)>
 {
@@ -204,6 +226,11 @@ class Function<ReturnType(ArgTypes...)>
         typedef typename std::decay<T>::type CallableType;
         typedef impl::FunctionHolder<CallableType, ReturnType, ArgTypes...> ImplType;
 
+        if (impl::FunctionEmptyCheck<CallableType>::isEmpty(obj)) {
+            impl_ = nullptr;
+            return;
+        }
+
         if (sizeof(ImplType) <= sizeof(buffer_)) {
             impl_ = reinterpret_cast<ImplType*>(inline_buffer());
             new (inline_buffer()) ImplType(std::forward<T>(obj));
-- 
2.43.0


From b98e6122a4b533fdde36006161a9d8d2daf69288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 09/37] fix: Maybe::operator-> returns a pointer

It was declared to return a reference, and did not compile when used.
---
 amtl/am-maybe.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 159b27d..7dea5b8 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -79,7 +79,7 @@ class Maybe
         return initialized_;
     }
 
-    T& operator ->() {
+    T* operator ->() {
         assert(isValid());
         return t_.address();
     }
@@ -87,7 +87,7 @@ class Maybe
         assert(isValid());
         return *t_.address();
     }
-    const T& operator ->() const {
+    const T* operator ->() const {
         assert(isValid());
         return t_.address();
     }
-- 
2.43.0


From 69998d5393e3893d1ccd73bea14ad05322c32403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 10/37] fix: Maybe destroys the value that is replaced or moved
 out

Assignment and moving forgot the old value without destroying it, and
self-assignment lost the value.
---
 amtl/am-maybe.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 7dea5b8..2a83afc 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -62,14 +62,12 @@ class Maybe
     {}
 
     ~Maybe() {
-        if (isValid())
-            t_.address()->~T();
+        reset();
     }
 
     template <typename... ArgTypes>
     void init(ArgTypes&&... argv) {
-        if (isValid())
-            t_.address()->~T();
+        reset();
 
         new (t_.address()) T(std::forward<ArgTypes>(argv)...);
         initialized_ = true;
@@ -109,13 +107,17 @@ class Maybe
     }
 
     Maybe& operator =(const Maybe& other) {
-        initialized_ = false;
-        copyFrom(other);
+        if (this != &other) {
+            reset();
+            copyFrom(other);
+        }
         return *this;
     }
     Maybe& operator =(Maybe&& other) {
-        initialized_ = false;
-        moveFrom(std::move(other));
+        if (this != &other) {
+            reset();
+            moveFrom(std::move(other));
+        }
         return *this;
     }
 
@@ -128,7 +130,13 @@ class Maybe
     void moveFrom(Maybe&& other) {
         if (other.initialized_) {
             init(std::move(*other.t_.address()));
-            other.initialized_ = false;
+            other.reset();
+        }
+    }
+    void reset() {
+        if (isValid()) {
+            t_.address()->~T();
+            initialized_ = false;
         }
     }
 
-- 
2.43.0


From 664ab56ead6fbd9af99347cec3135d8269c9c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 11/37] fix: StorageBuffer is aligned for its type

---
 amtl/am-storagebuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-storagebuffer.h b/amtl/am-storagebuffer.h
index f328922..b233219 100644
--- a/amtl/am-storagebuffer.h
+++ b/amtl/am-storagebuffer.h
@@ -49,7 +49,7 @@ class StorageBuffer
 
   private:
     union {
-        char buffer_[sizeof(T)];
+        alignas(T) char buffer_[sizeof(T)];
         uint64_t aligned_;
     };
 };
-- 
2.43.0


From 969563003729a476009a8da92ba006de1c7dd177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 12/37] fix: FixedArray keeps its allocator policy and releases
 what it replaces

The policy given to the constructor was dropped, so that memory went back to
another one; move assignment leaked, and assigning an array to itself read
destroyed elements.
---
 amtl/am-fixedarray.h | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 85df0b5..1cd6576 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -43,20 +43,26 @@ class FixedArray : private AllocPolicy
   public:
     FixedArray() : size_(0), data_(nullptr)
     {}
-    FixedArray(size_t size, AllocPolicy = AllocPolicy()) {
+    FixedArray(size_t size, AllocPolicy ap = AllocPolicy())
+     : AllocPolicy(ap)
+    {
         if (!allocate(size))
             return;
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T();
     }
-    FixedArray(const FixedArray& other) {
+    FixedArray(const FixedArray& other)
+     : AllocPolicy(other.policy())
+    {
         if (!allocate(other.size()))
             return;
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T(other[i]);
     }
 
-    FixedArray(FixedArray&& other) {
+    FixedArray(FixedArray&& other)
+     : AllocPolicy(other.policy())
+    {
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
@@ -124,6 +130,8 @@ class FixedArray : private AllocPolicy
     T* buffer() const { return data_; }
 
     FixedArray& operator =(const FixedArray& other) {
+        if (this == &other)
+            return *this;
         destruct();
         if (size_ != other.size()) {
             deallocate();
@@ -135,6 +143,12 @@ class FixedArray : private AllocPolicy
         return *this;
     }
     FixedArray& operator =(FixedArray&& other) {
+        if (this == &other)
+            return *this;
+        destruct();
+        deallocate();
+        // The policy comes along with the memory that it allocated.
+        policy() = other.policy();
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
@@ -156,6 +170,12 @@ class FixedArray : private AllocPolicy
     }
 
   private:
+    AllocPolicy& policy() {
+        return *this;
+    }
+    const AllocPolicy& policy() const {
+        return *this;
+    }
     bool allocate(size_t size) {
         size_ = size;
         data_ = (T*)this->am_malloc(sizeof(T) * size_);
-- 
2.43.0


From af32395faef4009b865fec201dfe0876e3fb0756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 13/37] fix: FixedArray is empty when its allocation fails or
 overflows

It kept the requested size without any memory, and destroyed elements through
a null pointer; the byte count was not checked for overflow.
---
 amtl/am-fixedarray.h | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 1cd6576..c9a7275 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -30,7 +30,9 @@
 #define _include_amtl_fixedarray_h_
 
 #include <assert.h>
+#include <stdint.h>
 
+#include <new>
 #include <vector>
 
 #include <amtl/am-allocator-policies.h>
@@ -41,7 +43,7 @@ template <typename T, typename AllocPolicy = SystemAllocatorPolicy>
 class FixedArray : private AllocPolicy
 {
   public:
-    FixedArray() : size_(0), data_(nullptr)
+    FixedArray() : size_(0), data_(nullptr), failed_(false)
     {}
     FixedArray(size_t size, AllocPolicy ap = AllocPolicy())
      : AllocPolicy(ap)
@@ -65,8 +67,10 @@ class FixedArray : private AllocPolicy
     {
         size_ = other.size_;
         data_ = other.data_;
+        failed_ = other.failed_;
         other.size_ = 0;
         other.data_ = nullptr;
+        other.failed_ = false;
     }
 
     template <typename U = std::allocator<T>>
@@ -94,7 +98,7 @@ class FixedArray : private AllocPolicy
 
     // This call may be skipped if the allocator policy is infallible.
     bool initialize() {
-        return size_ == 0 || !!data_;
+        return !failed_;
     }
 
     size_t size() const {
@@ -133,7 +137,7 @@ class FixedArray : private AllocPolicy
         if (this == &other)
             return *this;
         destruct();
-        if (size_ != other.size()) {
+        if (size_ != other.size() || failed_) {
             deallocate();
             if (!allocate(other.size()))
                 return *this;
@@ -151,8 +155,10 @@ class FixedArray : private AllocPolicy
         policy() = other.policy();
         size_ = other.size_;
         data_ = other.data_;
+        failed_ = other.failed_;
         other.size_ = 0;
         other.data_ = nullptr;
+        other.failed_ = false;
         return *this;
     }
 
@@ -177,21 +183,38 @@ class FixedArray : private AllocPolicy
         return *this;
     }
     bool allocate(size_t size) {
+        size_ = 0;
+        data_ = nullptr;
+        failed_ = false;
+        if (!size)
+            return true;
+
+        if (size > SIZE_MAX / sizeof(T)) {
+            this->reportAllocationOverflow();
+            failed_ = true;
+            return false;
+        }
+        data_ = (T*)this->am_malloc(sizeof(T) * size);
+        if (!data_) {
+            failed_ = true;
+            return false;
+        }
         size_ = size;
-        data_ = (T*)this->am_malloc(sizeof(T) * size_);
-        return !!data_;
+        return true;
     }
     void destruct() {
         for (size_t i = 0; i < size_; i++)
             data_[i].~T();
     }
     void deallocate() {
-        this->am_free(data_);
+        if (data_)
+            this->am_free(data_);
     }
 
   private:
     size_t size_;
     T* data_;
+    bool failed_;
 };
 
 } // namespace ke
-- 
2.43.0


From e76c5f67ae03bc229a24879a6904b13fbe4e4d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 14/37] fix: VirtualRefcountedThreadsafe::Release destroys on
 the last reference

fetch_sub returns the count before the subtraction, so that the object was
never destroyed.
---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index adb2e5d..7641dbb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -95,7 +95,7 @@ class VirtualRefcountedThreadsafe : public IRefcounted
         refcount_ += 1;
     }
     void Release() override {
-        if (refcount_.fetch_sub(1) == 0) {
+        if (refcount_.fetch_sub(1) == 1) {
             assert(refcount_.load() == 0);
 #if !defined(NDEBUG)
             destroying_ = true;
-- 
2.43.0


From b63c29b13d5df57b20fa914678674628343ed583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 15/37] fix: ThreadLocal publishes its slot only once it
 exists, and allocate can be retried

---
 amtl/am-threadlocal.h | 71 ++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 25 deletions(-)

diff --git a/amtl/am-threadlocal.h b/amtl/am-threadlocal.h
index 9634d55..bf8fb8f 100644
--- a/amtl/am-threadlocal.h
+++ b/amtl/am-threadlocal.h
@@ -36,6 +36,9 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+#include <atomic>
+#include <thread>
+
 #ifdef _WIN32
 # include <windows.h>
 #else
@@ -92,68 +95,86 @@ class ThreadLocal
 
 #if !defined(KE_SINGLE_THREADED)
   private:
-    volatile int allocated_;
+    enum State { kUnallocated, kAllocating, kAllocated };
+
+    std::atomic<int> state_;
+
+    bool allocated() const {
+        return state_.load() == kAllocated;
+    }
 
   public:
-    ThreadLocal() {
-        allocated_ = 0;
+    ThreadLocal()
+     : state_(kUnallocated)
+    {
+    }
+
+    ~ThreadLocal() {
+        if (allocated())
+            freeKey();
     }
 
     T get() const {
-        if (!allocated_)
+        if (!allocated())
             return T();
         return internalGet();
     }
     void set(const T& t) {
-        if (!allocated_ && !allocate()) {
+        if (!allocated() && !allocate()) {
             fprintf(stderr, "could not allocate thread-local storage\n");
             abort();
         }
         internalSet(t);
     }
 
-#    if defined(_MSC_VER)
-    ~ThreadLocal() {
-        if (allocated_)
-            TlsFree(key_);
+    // Returns true if the storage exists, either because it was allocated
+    // earlier or because this call allocated it.
+    bool allocate() {
+        for (;;) {
+            int expected = kUnallocated;
+            if (state_.compare_exchange_strong(expected, kAllocating)) {
+                bool ok = createKey();
+                state_.store(ok ? kAllocated : kUnallocated);
+                return ok;
+            }
+            if (expected == kAllocated)
+                return true;
+            // Another thread is creating the key, which is not usable yet.
+            std::this_thread::yield();
+        }
     }
 
   private:
+#    if defined(_MSC_VER)
     T internalGet() const {
         return (T)reinterpret_cast<uintptr_t>(TlsGetValue(key_));
     }
     void internalSet(const T& t) {
         TlsSetValue(key_, cast_to_pointer<T>::cast(t));
     }
-    bool allocate() {
-        if (InterlockedCompareExchange((volatile LONG*)&allocated_, 1, 0) == 1)
-            return true;
+    bool createKey() {
         key_ = TlsAlloc();
         return key_ != TLS_OUT_OF_INDEXES;
     }
+    void freeKey() {
+        TlsFree(key_);
+    }
 
     DWORD key_;
 
 #    else
-  public:
-    ~ThreadLocal() {
-        if (allocated_)
-            pthread_key_delete(key_);
-    }
-
-    bool allocate() {
-        if (!__sync_bool_compare_and_swap(&allocated_, 0, 1))
-            return true;
-        return pthread_key_create(&key_, nullptr) == 0;
-    }
-
-  private:
     T internalGet() const {
         return (T) reinterpret_cast<uintptr_t>(pthread_getspecific(key_));
     }
     void internalSet(const T& t) {
         pthread_setspecific(key_, reinterpret_cast<void*>(t));
     }
+    bool createKey() {
+        return pthread_key_create(&key_, nullptr) == 0;
+    }
+    void freeKey() {
+        pthread_key_delete(key_);
+    }
 
     pthread_key_t key_;
 #    endif // !_MSC_VER
-- 
2.43.0


From fb6e2431c1e211213fa7f3ae6c727bd743d4ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 16/37] fix: Mutex::try_lock records the owner in debug builds

---
 amtl/am-mutex.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amtl/am-mutex.h b/amtl/am-mutex.h
index 38d5940..49fd5ef 100644
--- a/amtl/am-mutex.h
+++ b/amtl/am-mutex.h
@@ -48,6 +48,13 @@ class Mutex : public std::mutex
        owner_ = std::this_thread::get_id();
     };
 
+    bool try_lock() {
+        if (!std::mutex::try_lock())
+            return false;
+        owner_ = std::this_thread::get_id();
+        return true;
+    }
+
     void unlock() {
        owner_ = {};
        std::mutex::unlock();
-- 
2.43.0


From 2588887247d90b8ff2768945c6d0fbebf33b3d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 17/37] fix: --no- in front of an unknown option is an error,
 not a crash

---
 amtl/experimental/am-argparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 43a3e32..271cbf8 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -671,7 +671,7 @@ Parser::parse_impl(const std::vector<const char*>& args)
 
             if (!option && strncmp(arg, "--no-", 5) == 0) {
                 option = find_long(&arg[5], len - 5);
-                if (option->canPrefixWithNo())
+                if (option && option->canPrefixWithNo())
                     value_ptr = "false";
                 else
                     option = nullptr;
-- 
2.43.0


From 62124f40856743a6316dbaba91872462c1be0fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 18/37] fix: only the first -- starts pass-through, later ones
 are passed through

---
 amtl/experimental/am-argparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 271cbf8..0a17911 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -628,7 +628,7 @@ Parser::parse_impl(const std::vector<const char*>& args)
         const char* arg = args[i];
         IOption* option = nullptr;
 
-        if (allow_passthrough_args_ && !strcmp(arg, "--")) {
+        if (allow_passthrough_args_ && !has_passthrough_args_ && !strcmp(arg, "--")) {
             has_passthrough_args_ = true;
             continue;
         }
-- 
2.43.0


From 2eff76b90b2503966dfb14ecc526719009e6d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 19/37] fix: a boolean option followed by another argument is
 set, and rejects a bad value

---
 amtl/experimental/am-argparser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 0a17911..ec397e8 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -716,10 +716,10 @@ Parser::parse_impl(const std::vector<const char*>& args)
         }
 
         if (!option->consumeValue(value_ptr)) {
-            if (!option->canOmitValue())
+            // If the value can be omitted, the next argument may not be a value.
+            if (!took_next_arg || !option->canOmitValue() || !option->consumeValue(nullptr))
                 return option_invalid_value(option, value_ptr);
-            if (took_next_arg)
-                i--;
+            i--;
         }
 
         if (option->haltOnValue()) {
-- 
2.43.0


From fe37fc9564e137c1400fb334ce9d6d206f0d1c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 20/37] fix: IntOption rejects numbers that do not fit an int

---
 amtl/experimental/am-argparser.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index ec397e8..a7a7130 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -30,7 +30,12 @@
 #define _include_amtl_am_argparser_h_
 
 #include <assert.h>
+#include <errno.h>
+#include <limits.h>
+#include <stdarg.h>
 #include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
 
 #include <algorithm>
 #include <memory>
@@ -538,9 +543,13 @@ template <>
 struct ValuePolicy<int> : public BaseValuePolicy {
     static bool consumeValue(const char* arg, int* out) {
         char* endptr = nullptr;
-        *out = strtol(arg, &endptr, 10);
+        errno = 0;
+        long value = strtol(arg, &endptr, 10);
         if (endptr == arg || *endptr != '\0')
             return false;
+        if (errno == ERANGE || value < INT_MIN || value > INT_MAX)
+            return false;
+        *out = (int)value;
         return true;
     }
 };
-- 
2.43.0


From e48d2ebd1044d00041f7ac4c0cec4e534c5b72c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 21/37] fix: Parser::reset forgets pass-through mode, collected
 arguments and the error

---
 amtl/experimental/am-argparser.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index a7a7130..8bc4fed 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -1048,6 +1048,11 @@ Parser::reset()
         option->reset();
     if (help_option_)
         help_option_->reset();
+
+    error_.clear();
+    has_passthrough_args_ = false;
+    extra_args_.clear();
+    passthrough_args_.clear();
 }
 
 } // namespace args
-- 
2.43.0


From 5a6a56789c7af07bd60afcdaa1b65c6d16e5a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 22/37] fix: Parser::usage shows the error of the last parse
 only

---
 amtl/experimental/am-argparser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 8bc4fed..97e8744 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -633,6 +633,8 @@ Parser::parse_impl(const std::vector<const char*>& args)
     size_t positional = 0;
     bool halted_on_value = false;
 
+    error_.clear();
+
     for (size_t i = 0; i < args.size(); i++) {
         const char* arg = args[i];
         IOption* option = nullptr;
-- 
2.43.0


From 96eaeca932e777acba81cd88c115e7c77e764611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 23/37] fix: SafeStrcpyN stops at the end of its source and
 terminates for n == 0

---
 amtl/am-string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index d5d2178..18e1cee 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -230,12 +230,12 @@ SafeStrcat(char* dest, size_t maxlength, const char* src)
 static inline size_t
 SafeStrcpyN(char* dest, size_t maxlength, const char* src, size_t n)
 {
-    if (!dest || !maxlength || !n)
+    if (!dest || !maxlength)
         return 0;
 
     char* iter = dest;
     size_t count = maxlength;
-    while (--count && n--)
+    while (--count && n-- && *src)
         *iter++ = *src++;
     *iter = '\0';
 
-- 
2.43.0


From 6ceca27668b1886d3b21805ab4828c506a43cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 24/37] fix: SafeVsprintf yields an empty string when
 formatting fails

---
 amtl/am-string.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index 18e1cee..cf1ef77 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -155,8 +155,17 @@ SafeVsprintf(char* buffer, size_t maxlength, const char* fmt, va_list ap)
     if (!maxlength)
         return 0;
 
-    size_t len = KE_VSNPRINTF(buffer, maxlength, fmt, ap);
+    int result = KE_VSNPRINTF(buffer, maxlength, fmt, ap);
 
+#if !defined(_MSC_VER)
+    // Note: _vsnprintf() also returns a negative value for truncated output.
+    if (result < 0) {
+        buffer[0] = '\0';
+        return 0;
+    }
+#endif
+
+    size_t len = result;
     if (len >= maxlength) {
         buffer[maxlength - 1] = '\0';
         return maxlength - 1;
-- 
2.43.0


From 201d234693b4dbc404f43085cee846f31b9894fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 25/37] fix: Log2 looked at the low 32 bits of a 64-bit word
 only

---
 amtl/am-bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index f90cdeb..bb10664 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -97,7 +97,7 @@ Log2(size_t number)
     assert(number != 0);
 
 #    ifdef __GNUC__
-    return 31 - __builtin_clz(number);
+    return 63 - __builtin_clzll(number);
 #    else
     size_t bit;
     asm("bsr %1, %0\n" : "=r"(bit) : "rm"(number));
-- 
2.43.0


From 410318f047de0b6820787bb387e1934ba5f561c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 26/37] fix: IsUintAddSafe called every addition safe

---
 amtl/am-bits.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index bb10664..04fadad 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -39,6 +39,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <limits>
 
 #include <amtl/am-cxx.h>
 #include <amtl/am-platform.h>
@@ -182,11 +183,7 @@ template <typename T>
 static inline bool
 IsUintAddSafe(const T& a, const T& b)
 {
-    if (!a || !b)
-        return true;
-    size_t log2_a = Log2(a);
-    size_t log2_b = Log2(b);
-    return (log2_a < sizeof(T) * 8) && (log2_b < sizeof(T) * 8);
+    return a <= std::numeric_limits<T>::max() - b;
 }
 
 static inline bool
-- 
2.43.0


From 7896948dd2aef946f03a54be56510dd0e15f37aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 27/37] fix: IsUintMultiplySafe called some overflowing
 multiplications safe

---
 amtl/am-bits.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index 04fadad..fd852ac 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -211,9 +211,7 @@ IsUintMultiplySafe(const T& a, const T& b)
     if (a <= 1 || b <= 1)
         return true;
 
-    size_t log2_a = Log2(a);
-    size_t log2_b = Log2(b);
-    return log2_a + log2_b < sizeof(T) * 8;
+    return a <= std::numeric_limits<T>::max() / b;
 }
 
 static inline bool
-- 
2.43.0


From 4863387cc53fb672a091f0b7c639e80ce392be1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 28/37] fix: TryUint64Multiply missed products that wrap around
 to zero

---
 amtl/am-arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-arithmetic.h b/amtl/am-arithmetic.h
index 45ced6e..289a326 100644
--- a/amtl/am-arithmetic.h
+++ b/amtl/am-arithmetic.h
@@ -37,7 +37,7 @@ static inline bool
 TryUint64Multiply(uint64_t left, uint64_t right, uint64_t* out)
 {
     uint64_t r = left * right;
-    if (r != 0 && ((r / left) != right))
+    if (left != 0 && ((r / left) != right))
         return false;
 
     *out = r;
-- 
2.43.0


From 3cfdba97a072c93903a7d3913a645e50df8d5ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:00 +0000
Subject: [PATCH 29/37] fix: IsInfinite looks at all bits of a double

---
 amtl/am-float.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amtl/am-float.h b/amtl/am-float.h
index 1adc865..9989b26 100644
--- a/amtl/am-float.h
+++ b/amtl/am-float.h
@@ -38,7 +38,7 @@
 namespace ke {
 
 static const uint32_t kFloat32ExponentMask = 0x7F800000;
-static const uint64_t kFloat64ExponentMask = 0x7FFF000000000000ULL;
+static const uint64_t kFloat64ExponentMask = 0x7FF0000000000000ULL;
 
 struct float32_bits {
     static const uint32_t kExponentMask = kFloat32ExponentMask;
@@ -64,10 +64,10 @@ struct float64_bits {
 
     union layout {
         uint64_t bits;
-        float value;
+        double value;
     };
 
-    static layout to_layout(float value) {
+    static layout to_layout(double value) {
         layout impl;
         impl.value = value;
         return impl;
-- 
2.43.0


From 91415b53c50660d0cf09d969b011f2c14c10e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:00 +0000
Subject: [PATCH 30/37] fix: IsInfinite is false for NaN and does not depend on
 the sign

---
 amtl/am-float.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amtl/am-float.h b/amtl/am-float.h
index 9989b26..255f9c1 100644
--- a/amtl/am-float.h
+++ b/amtl/am-float.h
@@ -98,8 +98,9 @@ IsInfinite(T value)
 {
     typedef float_bits<T> Properties;
     typedef typename Properties::Bits Bits;
+    static const Bits kSignMask = Bits(1) << (sizeof(Bits) * 8 - 1);
     Bits bits = Properties::to_layout(value).bits;
-    return (bits & Properties::kExponentMask) == Properties::kExponentMask;
+    return (bits & ~kSignMask) == Properties::kExponentMask;
 };
 
 // Performs the operation (x % y) where x and y are floating-point values.
-- 
2.43.0


From 866c95d9db623d5518e5ee692a704236efc6ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:21 +0000
Subject: [PATCH 31/37] fix: TimespecToDuration does not overflow near the most
 negative duration

---
 amtl/am-time.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amtl/am-time.h b/amtl/am-time.h
index 35fd496..cb218d0 100644
--- a/amtl/am-time.h
+++ b/amtl/am-time.h
@@ -44,6 +44,12 @@ namespace ke {
 static inline constexpr std::chrono::nanoseconds 
 TimespecToDuration(timespec ts)
 {
+    // Keep the parts on the same side of zero: the seconds alone can be out of
+    // range when the sum is not.
+    if (ts.tv_sec < 0 && ts.tv_nsec > 0) {
+        ts.tv_sec += 1;
+        ts.tv_nsec -= 1000000000;
+    }
     auto duration = std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec};
     return std::chrono::duration_cast<std::chrono::nanoseconds>(duration);
 }
-- 
2.43.0


From 17ec6611fb979e1dd8e9e6c5df5a09de7ecb2d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 32/37] fix: am-arithmetic.h includes what declares the integer
 types it uses

---
 amtl/am-arithmetic.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amtl/am-arithmetic.h b/amtl/am-arithmetic.h
index 289a326..4ba43e2 100644
--- a/amtl/am-arithmetic.h
+++ b/amtl/am-arithmetic.h
@@ -29,6 +29,8 @@
 #ifndef _include_amtl_bits_h_
 #define _include_amtl_bits_h_
 
+#include <stdint.h>
+
 #include <algorithm>
 
 namespace ke {
-- 
2.43.0


From 0ae858e3fd82060aacd3a12dc16753a6908e914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 33/37] fix: am-utility.h includes what declares the memset
 that MemsetZero calls

---
 amtl/am-utility.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amtl/am-utility.h b/amtl/am-utility.h
index 49463dd..8df3745 100644
--- a/amtl/am-utility.h
+++ b/amtl/am-utility.h
@@ -35,6 +35,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <amtl/am-cxx.h>
 
-- 
2.43.0


From ceb40994bf518fd36453e4652d651bc6eaaedaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:12 +0000
Subject: [PATCH 34/37] fix: am-enum.h builds with KE_ALLOW_STD_CXX before
 C++20

---
 amtl/am-enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-enum.h b/amtl/am-enum.h
index 8c8aa3b..cb17ba0 100644
--- a/amtl/am-enum.h
+++ b/amtl/am-enum.h
@@ -37,7 +37,7 @@ namespace ke {
 template <typename T>
 struct enum_integral_type {
 #ifdef KE_ALLOW_STD_CXX
-    using type = std::underlying_type<T>::type;
+    using type = typename std::underlying_type<T>::type;
 #else
     using type = __underlying_type(T);
 #endif
-- 
2.43.0


From fc9fcd412c07ca1056b4cb6db5f2bdf28c7214bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:32 +0000
Subject: [PATCH 35/37] fix: am-maybe.h includes what declares the placement
 new it uses

---
 amtl/am-maybe.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 2a83afc..98d817d 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -31,6 +31,7 @@
 
 #include <assert.h>
 
+#include <new>
 #include <type_traits>
 #include <utility>
 
-- 
2.43.0


From 524037832d47fe150883082bad7ac18e608d0cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:46 +0000
Subject: [PATCH 36/37] fix: am-raii.h uses assert and has to include
 <assert.h>

StackLinked's destructor asserts, but the header relied on whoever included it
to have included <assert.h>: a program that includes only am-raii.h could not
use StackLinked.
---
 amtl/am-raii.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amtl/am-raii.h b/amtl/am-raii.h
index b942e50..71dfe74 100644
--- a/amtl/am-raii.h
+++ b/amtl/am-raii.h
@@ -30,6 +30,8 @@
 #ifndef _include_amtl_am_raii_h_
 #define _include_amtl_am_raii_h_
 
+#include <assert.h>
+
 #include <utility>
 
 namespace ke {
-- 
2.43.0


From 9eb605398bf44e775a47d4aa1c49a86120275b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:45 +0000
Subject: [PATCH 37/37] fix: a ThreadLocal store that gets no memory must not
 be lost silently

pthread_setspecific can fail for the first value that a thread stores in a slot.
The assignment then returned as if it had succeeded and the thread went on with
the default value. As documented for a failed allocation, abort instead.
---
 amtl/am-threadlocal.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/amtl/am-threadlocal.h b/amtl/am-threadlocal.h
index bf8fb8f..29c4adc 100644
--- a/amtl/am-threadlocal.h
+++ b/amtl/am-threadlocal.h
@@ -120,11 +120,10 @@ class ThreadLocal
         return internalGet();
     }
     void set(const T& t) {
-        if (!allocated() && !allocate()) {
+        if ((!allocated() && !allocate()) || !internalSet(t)) {
             fprintf(stderr, "could not allocate thread-local storage\n");
             abort();
         }
-        internalSet(t);
     }
 
     // Returns true if the storage exists, either because it was allocated
@@ -149,8 +148,8 @@ class ThreadLocal
     T internalGet() const {
         return (T)reinterpret_cast<uintptr_t>(TlsGetValue(key_));
     }
-    void internalSet(const T& t) {
-        TlsSetValue(key_, cast_to_pointer<T>::cast(t));
+    bool internalSet(const T& t) {
+        return TlsSetValue(key_, cast_to_pointer<T>::cast(t)) != 0;
     }
     bool createKey() {
         key_ = TlsAlloc();
@@ -166,8 +165,9 @@ class ThreadLocal
     T internalGet() const {
         return (T) reinterpret_cast<uintptr_t>(pthread_getspecific(key_));
     }
-    void internalSet(const T& t) {
-        pthread_setspecific(key_, reinterpret_cast<void*>(t));
+    bool internalSet(const T& t) {
+        // The first value in a thread can need memory.
+        return pthread_setspecific(key_, reinterpret_cast<void*>(t)) == 0;
     }
     bool createKey() {
         return pthread_key_create(&key_, nullptr) == 0;
-- 
2.43.0

