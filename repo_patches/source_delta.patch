From 921bb131d850e4adb3dfa09e15e963ae1a63ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 01/54] fix: Parser compares the text position, not the
 pattern, with the end of the text

have(const char*) compared m_End with a pointer into the pattern literal, so
'true' and 'false' were rejected depending on where the text happened to be
in memory relative to the literal.
---
 include/eni/json/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 20cd201..8231840 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -260,7 +260,7 @@ private:
   bool have(const char *pPat) {
     int i = 0;
     for(; pPat[i] != '\0'; ++i){
-      if((m_End <= pPat+i) || (pPat[i] != m_It[i])) return 0;
+      if((m_End <= m_It+i) || (pPat[i] != m_It[i])) return 0;
     }
     m_It += i;
     return 1;
-- 
2.43.0


From 7f887f89b0a0a9c1dbdc4a13454ba967c353139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 02/54] fix: return *this from StringMap and PointerIterator
 assignment operators

Flowing off the end of a non-void function is undefined behaviour; optimised
clang builds trap in these assignments.
---
 include/eni/adt/StringMap.h              | 2 ++
 include/eni/adt/bits/PointerIterator.tcc | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/eni/adt/StringMap.h b/include/eni/adt/StringMap.h
index 4ee8814..f755b85 100644
--- a/include/eni/adt/StringMap.h
+++ b/include/eni/adt/StringMap.h
@@ -49,10 +49,12 @@ public:
 
   StringMap& operator=(const StringMap& pCopy) {
     super::operator=(pCopy);
+    return *this;
   }
 
   StringMap& operator=(StringMap&& pOther) {
     super::operator=(pOther);
+    return *this;
   }
 
   value_type& at(const key_type& pKey) {
diff --git a/include/eni/adt/bits/PointerIterator.tcc b/include/eni/adt/bits/PointerIterator.tcc
index 5771e0a..9ee7eff 100644
--- a/include/eni/adt/bits/PointerIterator.tcc
+++ b/include/eni/adt/bits/PointerIterator.tcc
@@ -24,6 +24,7 @@ template<typename ItemType> typename PointerIterator<ItemType>::iterator&
 PointerIterator<ItemType>::operator=(const_iterator& pOther)
 {
   m_Ptr = pOther.m_Ptr;
+  return *this;
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::reference
-- 
2.43.0


From 748806c425d154437732286e95d465b8b087a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 03/54] fix: print object keys as JSON strings

Keys were printed bare, without quotes or escapes, so a printed object was
not JSON and could not be read back.
---
 lib/json/Object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/json/Object.cpp b/lib/json/Object.cpp
index 24c388c..0245afe 100644
--- a/lib/json/Object.cpp
+++ b/lib/json/Object.cpp
@@ -33,7 +33,8 @@ void Object::print(std::ostream& pOs) const {
       pOs << ',';
     else
       first = false;
-    pOs << it->key() << ':';
+    Value(it->key()).print(pOs);
+    pOs << ':';
     it->value().print(pOs);
   }
   pOs << '\n';
-- 
2.43.0


From c5f490305d1246838bb3ac91df4abba339010296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 04/54] fix: indexing a value of another kind yields an
 undefined value

UNDEF converts to int, so g_NullValue(UNDEF) was the integer 5.
---
 lib/json/Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 1b428b9..28809ad 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -14,7 +14,7 @@
 using namespace eni;
 using namespace json;
 
-static Value g_NullValue(UNDEF); // XXX
+static Value g_NullValue; // XXX
 
 Value::Value(const Value& pCopy)
   : Notation(pCopy) {
-- 
2.43.0


From 306a769c6cdc3e8def313e91b0fa9bdcbae3bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 05/54] fix: keep the whole length of a string key

A 16-bit length made the hash table forget all but the length modulo 65536 of
long keys, so they could not be found again.
---
 include/eni/adt/StringHashTable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHashTable.h b/include/eni/adt/StringHashTable.h
index 138b396..05c5a86 100644
--- a/include/eni/adt/StringHashTable.h
+++ b/include/eni/adt/StringHashTable.h
@@ -45,7 +45,7 @@ public:
 protected:
   value_type m_Value;
 
-  uint16_t m_KeyLen;
+  size_t m_KeyLen;
 
   char m_Key[];
 };
-- 
2.43.0


From 03852951b3c38e3828dc32895259a4cc9858884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 06/54] fix: a copy of a hash table without buckets has no
 buckets either

The copy got a zero-sized allocation, counted as initialised, and divided by
its zero buckets on the next insertion.
---
 include/eni/adt/bits/HashBase.tcc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/eni/adt/bits/HashBase.tcc b/include/eni/adt/bits/HashBase.tcc
index 2b4a2a6..e880feb 100644
--- a/include/eni/adt/bits/HashBase.tcc
+++ b/include/eni/adt/bits/HashBase.tcc
@@ -63,6 +63,9 @@ TableImpl<K, V, H, E>::TableImpl(const TableImpl& pCopy)
     m_NumOfEntries(pCopy.m_NumOfEntries),
     m_NumOfTombstones(pCopy.m_NumOfTombstones) {
 
+  if (!pCopy.isInit()) //< no buckets to copy
+    return;
+
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
@@ -97,6 +100,9 @@ TableImpl<K, V, H, E>& TableImpl<K, V, H, E>::operator=(const TableImpl& pCopy)
   m_NumOfEntries = pCopy.m_NumOfEntries;
   m_NumOfTombstones = pCopy.m_NumOfTombstones;
 
+  if (!pCopy.isInit()) //< no buckets to copy
+    return *this;
+
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
-- 
2.43.0


From 82d11a76b170e1fde85ebf3924aabc439a721b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 07/54] fix: hash table assignment releases the old entries and
 survives self-assignment

Assignment dropped the previous entries without destroying them, and assigning
a table to itself freed its buckets before copying them.
---
 include/eni/adt/bits/HashBase.tcc  | 2 ++
 include/eni/adt/bits/HashTable.tcc | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/include/eni/adt/bits/HashBase.tcc b/include/eni/adt/bits/HashBase.tcc
index e880feb..01c9c48 100644
--- a/include/eni/adt/bits/HashBase.tcc
+++ b/include/eni/adt/bits/HashBase.tcc
@@ -115,6 +115,8 @@ template<typename K, typename V, typename H, template<class, class> class E>
 TableImpl<K, V, H, E>& TableImpl<K, V, H, E>::operator=(TableImpl&& pOther)
 {
   if (this != &pOther) {
+    clear();
+
     m_Buckets = pOther.m_Buckets;
     m_NumOfBuckets = pOther.m_NumOfBuckets;
     m_NumOfEntries = pOther.m_NumOfEntries;
diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 7a203c9..109e11e 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -56,7 +56,10 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(const HashTable& pCopy)
 {
+  if (this == &pCopy)
+    return *this;
 
+  clear();
   internal::TableImpl<K, V, H>::operator=(pCopy);
 
   // for all entries in pCopy, allocate an entry.
@@ -79,6 +82,10 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(HashTable&& pOther)
 {
+  if (this == &pOther)
+    return *this;
+
+  clear();
   internal::TableImpl<K, V, H>::operator=(std::move(pOther));
   if (std::is_move_assignable<allocator_type>::value)
     m_EntryAlloc = std::move(pOther.m_EntryAlloc);
-- 
2.43.0


From c8a51eda956af187b4b3884b2d403f1fe9adb2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 08/54] fix: chain iterators handle tables without buckets and
 empty buckets

count() and begin(key) divided by zero on a cleared table, and dereferenced the
null entry of an empty bucket when the key hashes to zero.
---
 include/eni/adt/bits/HashIterator.tcc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/HashIterator.tcc b/include/eni/adt/bits/HashIterator.tcc
index 939e97a..23eb64e 100644
--- a/include/eni/adt/bits/HashIterator.tcc
+++ b/include/eni/adt/bits/HashIterator.tcc
@@ -18,11 +18,16 @@ ChainIterBase<HT>::ChainIterBase(HT* pTable, const key_type& pKey)
   : m_pHashTable(pTable) {
   typename HT::hasher_type hasher;
   m_HashValue = hasher(pKey);
+  if (0 == m_pHashTable->numOfBuckets()) {
+    reset();
+    return;
+  }
   m_EndIndex = m_Index = m_HashValue % m_pHashTable->numOfBuckets();
   const unsigned int probe = 1;
   while(true) {
     bucket_type &bucket = m_pHashTable->bucket(m_Index);
-    if (hash_table::Tombstone() == bucket.entry) {
+    if (hash_table::Tombstone() == bucket.entry ||
+        hash_table::EmptyBucket() == bucket.entry) {
       // Ignore tombstones.
     }
     else if (m_HashValue == bucket.hash) {
-- 
2.43.0


From fa4a30bbe1148fd98bc86ba85f92c0e28e3482a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 09/54] fix: make hash table iterators dereferenceable with
 operator*

Its body named a member the iterator policies do not have.
---
 include/eni/adt/HashIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/HashIterator.h b/include/eni/adt/HashIterator.h
index fc29f55..36d7256 100644
--- a/include/eni/adt/HashIterator.h
+++ b/include/eni/adt/HashIterator.h
@@ -176,8 +176,8 @@ public:
 
   /// @name C++ Iterator (dereferenceable)
   /// @{
-  const_reference operator*() const { return *m_Impl.operator->(); }
-  reference       operator*()       { return *m_Impl.operator->(); }
+  const_reference operator*() const { return *m_Impl.getEntry(); }
+  reference       operator*()       { return *m_Impl.getEntry(); }
   /// @}
 
   /// @name C++ Iterator (incrementable)
-- 
2.43.0


From 85779a821769a4db5147ffe3efd073341872123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 10/54] fix: rehash to fewer buckets than entries no longer
 hangs

rehash(n) with too small an n divided by zero or probed a full table forever.
---
 include/eni/adt/bits/HashTable.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 109e11e..1d0066b 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -220,6 +220,9 @@ template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 void HashTable<K, V, H, E, A>::rehash(size_type pCount)
 {
+  // a table always needs an empty bucket to end an unsuccessful search
+  if (pCount <= super::m_NumOfEntries)
+    pCount = super::m_NumOfEntries + 1;
   super::doRehash(pCount);
 }
 
-- 
2.43.0


From f84f83c3261be4a8919393a2102320a1f1088486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 11/54] fix: Vector can erase its last element

The bound check rejected ranges that end at the end of the vector.
---
 include/eni/adt/bits/Vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 05b6c30..0506b6e 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -342,7 +342,7 @@ Vector<ElementType>::erase(size_type pIndex)
 template<class ElementType> void
 Vector<ElementType>::erase(size_type pFirst, size_type pLast)
 {
-  if (0 > pFirst || pFirst >= pLast || pLast >= size())
+  if (0 > pFirst || pFirst >= pLast || pLast > size())
     throw OutOfRange<InvalidVectorIndex>();
   size_type eraseSize = pLast - pFirst;
   std::copy(m_Data + pLast, m_Data + size(), m_Data + pFirst);
-- 
2.43.0


From 28f7022f800c4effcfc164307c535f49f81b9101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 12/54] fix: Vector copies a value before it reallocates or
 moves elements

push_back, emplace_back, resize, assign and insert read the freed buffer when
given a reference to one of the vector's own elements.
---
 include/eni/adt/bits/Vector.tcc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 0506b6e..744cd64 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -109,9 +109,10 @@ Vector<ElementType>::resize(size_type pSize)
 template<class ElementType> void
 Vector<ElementType>::resize(size_t pSize, const ElementType& pValue)
 {
+  value_type value(pValue); //< pValue may refer to an element
   reserve(pSize);
   if (pSize > m_DataSize)
-    std::fill_n(end(), pSize - m_DataSize, pValue);
+    std::fill_n(end(), pSize - m_DataSize, value);
   m_DataSize = pSize;
 }
 
@@ -208,8 +209,9 @@ Vector<ElementType>::data()
 template<class ElementType> void
 Vector<ElementType>::assign(size_type pSize, const_reference pValue)
 {
+  value_type value(pValue); //< pValue may refer to an element
   resize(pSize);
-  std::fill_n(m_Data, pSize, pValue);
+  std::fill_n(m_Data, pSize, value);
 }
 
 template<class ElementType> void
@@ -228,8 +230,9 @@ Vector<ElementType>::assign(initializer_list pIList)
 template<class ElementType> void
 Vector<ElementType>::push_back(const_reference pValue)
 {
+  value_type value(pValue); //< pValue may refer to an element
   reserve(size() + 1);
-  m_Data[m_DataSize++] = pValue;
+  m_Data[m_DataSize++] = value;
 }
 
 template<class ElementType> typename Vector<ElementType>::value_type
@@ -242,8 +245,9 @@ template<class ElementType>
 template<class ...Args> void
 Vector<ElementType>::emplace_back(Args&& ...pArgs)
 {
+  value_type value(std::forward<Args>(pArgs)...); //< may refer to an element
   reserve(size() + 1);
-  m_Data[m_DataSize++] = *(new ElementType(std::forward<Args>(pArgs)...));
+  m_Data[m_DataSize++] = value;
 }
 
 template<class ElementType> typename Vector<ElementType>::iterator
@@ -290,11 +294,12 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   if (0 > pIndex || pIndex > size()) {
     throw OutOfRange<InvalidVectorIndex>();
   }
+  value_type value(pValue); //< pValue may refer to an element
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
   std::copy_backward(ptr, end - pSize, end);
-  std::fill_n(ptr, pSize, pValue);
+  std::fill_n(ptr, pSize, value);
 }
 
 template<class ElementType> void
-- 
2.43.0


From 17afaccb6c3b2f0ed82e2789c467ede634fd8c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 13/54] fix: Vector refuses sizes it cannot address

max_size() was the largest size_t, so huge sizes never ended the growth loop or
wrapped around to a small allocation instead of raising a length error.
---
 include/eni/adt/bits/Vector.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 744cd64..0d1291c 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -97,7 +97,7 @@ Vector<ElementType>::size() const
 template<class ElementType> typename Vector<ElementType>::size_type
 Vector<ElementType>::max_size() const
 {
-  return std::numeric_limits<size_t>::max();
+  return std::numeric_limits<difference_type>::max() / sizeof(ElementType);
 }
 
 template<class ElementType> void
@@ -294,6 +294,8 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   if (0 > pIndex || pIndex > size()) {
     throw OutOfRange<InvalidVectorIndex>();
   }
+  if (pSize > max_size() - size()) //< too much to be allocated
+    throw LengthError<InvalidVectorSize>();
   value_type value(pValue); //< pValue may refer to an element
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
-- 
2.43.0


From b634a0885e0ab155770fdd2af323a37a9472fdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 14/54] fix: reject arguments that are not a JSON array

An operation given another JSON value dereferenced a null array.
---
 include/eni/eni.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 0153398..6c1c420 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -68,7 +68,7 @@ public:
 private:
   bool check(const json::Value& pArgs) {
     if (!m_Parsed) {
-      m_ParseSuccess = parse(pArgs.toArray());
+      m_ParseSuccess = pArgs.isArray() && parse(pArgs.toArray());
       m_Parsed = true;
     }
     return m_ParseSuccess;
-- 
2.43.0


From 06c2d833d0d0dc8afebd277f6857c510a611113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 15/54] fix: starting an operation again does not repeat the
 earlier results

The second start() of one operation returned the results of both runs.
---
 include/eni/eni.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 6c1c420..b267eae 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -57,6 +57,7 @@ public:
     if (!check(m_Args))
       return nullptr;
 
+    m_RetVals.asArray().clear();
     if (!run(m_RetVals.asArray()))
       return nullptr;
 
-- 
2.43.0


From 3cd8f4358b2639f0e07958d9b97c2a776e50eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 16/54] fix: reverse rejects missing and non-string arguments

parse() has to return false for them; it threw or dereferenced a null pointer.
---
 examples/eni/reverse/eni_reverse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/examples/eni/reverse/eni_reverse.cpp b/examples/eni/reverse/eni_reverse.cpp
index 1148465..1d294d1 100644
--- a/examples/eni/reverse/eni_reverse.cpp
+++ b/examples/eni/reverse/eni_reverse.cpp
@@ -15,6 +15,8 @@ public:
 
 private:
   bool parse(const json::Array& pArgs) override {
+    if (pArgs.size() < 1 || !pArgs[0].isString())
+      return false;
     m_Str = pArgs[0].toString();
     return true;
   }
-- 
2.43.0


From ab2287fa0255745a9fa522f2b25e69a6928768c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 17/54] fix: scrypt rejects missing and non-string arguments

parse() has to return false for them; it threw or dereferenced a null pointer.
---
 tools/eni_scrypt/eni_scrypt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/eni_scrypt/eni_scrypt.cpp b/tools/eni_scrypt/eni_scrypt.cpp
index 7f543a5..404c91d 100644
--- a/tools/eni_scrypt/eni_scrypt.cpp
+++ b/tools/eni_scrypt/eni_scrypt.cpp
@@ -12,6 +12,8 @@
 
 bool Scrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 1 || !pArgs[0].isString())
+    return false;
   m_Str = pArgs[0].toString();
 
   // input validation
-- 
2.43.0


From 4e86cd5f63df7ef359d0ab68ce19c0839a0ea347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 18/54] fix: rsa_encrypt and rsa_decrypt reject missing and
 non-string arguments

parse() has to return false for them; it threw or dereferenced a null pointer.
---
 tools/eni_crypto/eni_crypto.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 6873873..5c0aa13 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -132,6 +132,8 @@ bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 ==------------------------------------------------------------------------==*/
 bool RSAEncrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_pubkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
@@ -161,6 +163,8 @@ bool RSAEncrypt::run(json::Array& pRetVal)
 ==------------------------------------------------------------------------==*/
 bool RSADecrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_privkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
-- 
2.43.0


From faafdd6da56edf4f67202ff3d61d9268c7b1950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 19/54] fix: hex2str decodes upper-case digits and rejects
 non-hex text

Upper-case digits decoded to wrong bytes and any other character was accepted.
---
 tools/eni_crypto/eni_crypto.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 5c0aa13..6ac7af2 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -19,7 +19,9 @@ using namespace eni_crypto;
 ==------------------------------------------------------------------------==*/
 static inline unsigned char hex2digit(char h1, char h0)
 {
-  auto h2d = [](char h) { return (h < 'a') ? (h - '0') : (h - 'a' + 10); };
+  auto h2d = [](char h) {
+    return (h <= '9') ? (h - '0') : ((h | 0x20) - 'a' + 10);
+  };
   return h2d(h1) * 16 + h2d(h0);
 }
 
@@ -38,6 +40,8 @@ bool eni_crypto::hex2str(const std::string& pHex, std::string& pStr)
 {
   if (0 != (pHex.length() % 2))
     return false;
+  if (pHex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+    return false;
   pStr.clear();
   std::string::const_iterator ic, end = pHex.end();
   for (ic = pHex.begin(); ic != end; ic += 2)
-- 
2.43.0


From b41059c7d9accfeba788c9d7b5ede393a7532ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 20/54] fix: RSA encryption rejects messages longer than the
 key

The excess was dropped silently, so decryption gave another message.
---
 tools/eni_crypto/eni_crypto.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 6ac7af2..e363bc3 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -78,6 +78,8 @@ bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
   int size = ::RSA_size(&pKey);
   unsigned char* encrypted = new unsigned char[size];
   std::string message(pMsg);
+  if (message.length() > size)
+    return false;
   if (message.length() < size)
       message.append(size - message.length(), '\0');
   int len = ::RSA_public_encrypt(size,
@@ -107,6 +109,8 @@ bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
   int size = ::RSA_size(&pKey);
   unsigned char* encrypted = new unsigned char[size];
   std::string message(pMsg);
+  if (message.length() > size)
+    return false;
   if (message.length() < size)
       message.append(size - message.length(), '\0');
   int len = ::RSA_private_encrypt(size,
-- 
2.43.0


From 43bcb307284f791ba8a0cc0cc4bc5b996518375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 21/54] fix: RSA decryption keeps the whole message

The plain text was read as a C string: cut at its first NUL byte, or read past
the end of the buffer when it fills the key and has none.
---
 tools/eni_crypto/eni_crypto.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index e363bc3..450b1c4 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -99,8 +99,10 @@ bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
-  pResult.assign(result.c_str(), result.length());
+  // remove the padding of the encryption
+  while (len > 0 && '\0' == decrypted[len - 1])
+    --len;
+  pResult.assign(reinterpret_cast<const char*>(decrypted), len);
   return true;
 }
 
@@ -130,8 +132,10 @@ bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
-  pResult.assign(result.c_str(), result.length());
+  // remove the padding of the encryption
+  while (len > 0 && '\0' == decrypted[len - 1])
+    --len;
+  pResult.assign(reinterpret_cast<const char*>(decrypted), len);
   return true;
 }
 
-- 
2.43.0


From 866e8e68723e8d70e5538af21786af96045623f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 22/54] fix: eni_gas releases the gas with free

ENI_GAS allocates it with malloc.
---
 tools/eni_cli/eni_gas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/eni_cli/eni_gas.cpp b/tools/eni_cli/eni_gas.cpp
index 0504115..403ac76 100644
--- a/tools/eni_cli/eni_gas.cpp
+++ b/tools/eni_cli/eni_gas.cpp
@@ -35,6 +35,6 @@ int main(int argc, char* argv[])
   ::dlclose(handle);
 
   std::cout << *gas << std::endl;
-  delete gas;
+  ::free(gas);
   return ExitSuccess;
 }
-- 
2.43.0


From 86339cee8e5191435fec0d65b61964b7c293eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 23/54] fix: saturate the dot counter of the substring filter

Sixteen or more dots overflowed the 4-bit counter, so that may_include() denied
real sub-strings.
---
 include/eni/adt/StringHasher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index 2846d56..a8ffcdc 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -283,7 +283,8 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
       int cur_char = pString[idx];
 
       if ('.' == cur_char) {
-        ++dot;
+        if (dot < 15) //< the counter has 4 bits
+          ++dot;
         continue;
       }
 
-- 
2.43.0


From 7f53f1998989213cc2e17de673cf2c582c412567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 24/54] fix: release the buffers and the BIO of RSA operations

Every RSA operation leaked its result buffer and its BIO.
---
 tools/eni_crypto/eni_crypto.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 450b1c4..8e597b5 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -6,6 +6,7 @@
 ==------------------------------------------------------------------------==*/
 #include "eni_crypto.h"
 #include <sstream>
+#include <vector>
 
 extern "C" {
 #include <openssl/pem.h>
@@ -55,6 +56,7 @@ RSA* rsa::create_pubkey(const std::string& pPemStr)
   if (NULL == bio)
     return NULL;
   RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, NULL, NULL);
+  BIO_free(bio);
   return key;
 }
 
@@ -64,6 +66,7 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
   if (NULL == bio)
     return NULL;
   RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, NULL, NULL);
+  BIO_free(bio);
   return key;
 }
 
@@ -76,66 +79,66 @@ void rsa::destroy(RSA*& pKey)
 bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
-  unsigned char* encrypted = new unsigned char[size];
+  std::vector<unsigned char> encrypted(size);
   std::string message(pMsg);
   if (message.length() > size)
     return false;
   if (message.length() < size)
       message.append(size - message.length(), '\0');
   int len = ::RSA_public_encrypt(size,
-    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  pResult.assign(reinterpret_cast<char*>(encrypted), len);
+  pResult.assign(reinterpret_cast<char*>(encrypted.data()), len);
   return true;
 }
 
 bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  unsigned char* decrypted = new unsigned char[::RSA_size(&pKey)];
+  std::vector<unsigned char> decrypted(::RSA_size(&pKey));
   int len = ::RSA_public_decrypt(pMsg.length(),
-    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
   // remove the padding of the encryption
   while (len > 0 && '\0' == decrypted[len - 1])
     --len;
-  pResult.assign(reinterpret_cast<const char*>(decrypted), len);
+  pResult.assign(reinterpret_cast<const char*>(decrypted.data()), len);
   return true;
 }
 
 bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
-  unsigned char* encrypted = new unsigned char[size];
+  std::vector<unsigned char> encrypted(size);
   std::string message(pMsg);
   if (message.length() > size)
     return false;
   if (message.length() < size)
       message.append(size - message.length(), '\0');
   int len = ::RSA_private_encrypt(size,
-    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  pResult.assign(reinterpret_cast<char*>(encrypted), len);
+  pResult.assign(reinterpret_cast<char*>(encrypted.data()), len);
   return true;
 }
 
 bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  unsigned char* decrypted = new unsigned char[::RSA_size(&pKey)];
+  std::vector<unsigned char> decrypted(::RSA_size(&pKey));
   int len = ::RSA_private_decrypt(pMsg.length(),
-    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
   // remove the padding of the encryption
   while (len > 0 && '\0' == decrypted[len - 1])
     --len;
-  pResult.assign(reinterpret_cast<const char*>(decrypted), len);
+  pResult.assign(reinterpret_cast<const char*>(decrypted.data()), len);
   return true;
 }
 
-- 
2.43.0


From 63c7b01865fa59bf78c2a9008a32d2b6b73a3a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 25/54] fix: never prompt for the passphrase of an encrypted
 key

The outcome of rsa_decrypt on an encrypted PEM depended on the terminal and the
standard input of the process running it.
---
 tools/eni_crypto/eni_crypto.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 8e597b5..ca0c0c8 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -50,12 +50,19 @@ bool eni_crypto::hex2str(const std::string& pHex, std::string& pStr)
   return true;
 }
 
+// There is nobody to ask for a passphrase: the default callback of OpenSSL reads
+// it from the terminal or the standard input of the node.
+static int no_passphrase(char*, int, int, void*)
+{
+  return -1;
+}
+
 RSA* rsa::create_pubkey(const std::string& pPemStr)
 {
   BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
   if (NULL == bio)
     return NULL;
-  RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, NULL, NULL);
+  RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, no_passphrase, NULL);
   BIO_free(bio);
   return key;
 }
@@ -65,7 +72,7 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
   BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
   if (NULL == bio)
     return NULL;
-  RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, NULL, NULL);
+  RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, no_passphrase, NULL);
   BIO_free(bio);
   return key;
 }
-- 
2.43.0


From 6b09ca09d3a776c15f2589f133595ed2e769497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 26/54] fix: the json operation rejects arguments it cannot
 serve

Missing arguments, arguments of other types, ranges outside the data and indices
outside the array read memory out of bounds or ended the process; parse() has to
return false for them. Data without any JSON token is navigated as an empty
container instead of indexing an empty token list, and parseString takes the
text up to the end of the range.
---
 examples/eni/json/eni_json.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/examples/eni/json/eni_json.cpp b/examples/eni/json/eni_json.cpp
index 10fd45a..a6c8519 100644
--- a/examples/eni/json/eni_json.cpp
+++ b/examples/eni/json/eni_json.cpp
@@ -13,7 +13,7 @@
 namespace {
 std::string parseString(const std::string& raw) {
     json::Parser parser(raw);
-    if (!parser) return "";
+    if (!parser || !parser.getRoot().isString()) return "";
     return parser.getRoot().toString();
 }
 std::vector<jsmntok_t> internalParse(const char* data, int start, int end) {
@@ -22,6 +22,7 @@ std::vector<jsmntok_t> internalParse(const char* data, int start, int end) {
     p.toknext = 0;
     p.toksuper = -1;
     int len = jsmn_parse(&p, data, end, 0, 0);
+    if (len <= 0) return std::vector<jsmntok_t>();
     std::vector<jsmntok_t> result(len);
     p.pos = start;
     p.toknext = 0;
@@ -40,6 +41,7 @@ std::string encodeToken(const jsmntok_t& tok) {
 std::vector<jsmntok_t> arrayTokens(const char* data, int start, int end) {
     auto tokens = internalParse(data, start, end);
     std::vector<jsmntok_t> result;
+    if (tokens.empty()) return result;
     int after = tokens[0].start;
     int before = tokens[0].end;
     for (int i = 1; i < tokens.size(); i++) {
@@ -69,6 +71,7 @@ std::string arrayGet(const char* data, int start, int end, int index) {
 std::map<std::string, jsmntok_t> objectTokens(const char* data, int start, int end) {
     auto tokens = internalParse(data, start, end);
     std::map<std::string, jsmntok_t> result;
+    if (tokens.empty()) return result;
     int after = tokens[0].start;
     int before = tokens[0].end;
     int key_token = 0;
@@ -108,17 +111,31 @@ public:
 
 private:
     bool parse(const json::Array& pArgs) override {
+        if (pArgs.size() < 4 || !pArgs[0].isString() || !pArgs[1].isString() ||
+            !pArgs[2].isInteger() || !pArgs[3].isInteger())
+            return false;
         std::string op = pArgs[0].toString();
         std::string data = pArgs[1].toString();
+        if (pArgs[2].toInteger() < 0 ||
+            pArgs[3].toInteger() < pArgs[2].toInteger() ||
+            pArgs[3].toInteger() > data.length())
+            return false;
         int begin = (int)pArgs[2].toInteger();
         int end = (int)pArgs[3].toInteger();
         if (op == "parseString") {
-            m_Str = parseString(std::string(data.data(), begin, end));
+            m_Str = parseString(data.substr(begin, end - begin));
         } else if (op == "parseArray") {
             m_Str = parseArray(data.data(), begin, end);
         } else if (op == "arrayGet") {
+            if (pArgs.size() < 5 || !pArgs[4].isInteger())
+                return false;
+            if (pArgs[4].toInteger() < 0 || pArgs[4].toInteger() >=
+                arrayTokens(data.data(), begin, end).size())
+                return false;
             m_Str = arrayGet(data.data(), begin, end, (int)pArgs[4].toInteger());
         } else if (op == "objectGet") {
+            if (pArgs.size() < 5 || !pArgs[4].isString())
+                return false;
             m_Str = objectGet(data.data(), begin, end, pArgs[4].toString());
         } else {
             return false;
-- 
2.43.0


From 3f51e215c38a130da194b6f89116629ff052352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 27/54] fix: remove a setter of string keys that cannot be
 compiled

It assigned a string to a flexible array member: clang rejects the header, and
no compiler can instantiate it.
---
 include/eni/adt/StringHashTable.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/eni/adt/StringHashTable.h b/include/eni/adt/StringHashTable.h
index 05c5a86..0ac4299 100644
--- a/include/eni/adt/StringHashTable.h
+++ b/include/eni/adt/StringHashTable.h
@@ -34,8 +34,6 @@ public:
 
   key_type key() const { return std::string(m_Key, m_KeyLen); }
 
-  void setKey(const key_type& pKey) { m_Key = pKey; }
-
   const value_type& value() const { return m_Value; }
 
   value_type&       value()       { return m_Value; }
-- 
2.43.0


From 699f20f8c79d77a8d54a3c1dfa2d2bd883b2c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 28/54] fix: a JSON value can be assigned to a part of itself

The assignment changed the type of the target before copying the source, so
assigning a container to one of its own elements read a half-changed value.
---
 lib/json/Value.cpp | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 28809ad..4917ae4 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -168,26 +168,11 @@ void Value::printValue(std::ostream &os) const
 
 Value& Value::operator=(const Value& pCopy)
 {
-  Notation::operator=(pCopy);
-  switch (this->type()) {
-    case INT:
-      m_Value.int_p = new eni::s256(*pCopy.m_Value.int_p);
-      break;
-    case BOOL:
-      m_Value.bool_p = pCopy.m_Value.bool_p;
-      break;
-    case STRING:
-      m_Value.string_p = new string(*pCopy.m_Value.string_p);
-      break;
-    case OBJECT:
-      m_Value.object_p = new Object(*pCopy.m_Value.object_p);
-      break;
-    case ARRAY:
-      m_Value.array_p = new Array(*pCopy.m_Value.array_p);
-      break;
-    case UNDEF:
-      break;
-  }
+  Value copy(pCopy); //< pCopy may contain this value
+  Notation::operator=(copy);
+  m_Value = copy.m_Value;
+  copy.m_Value.reset();
+  copy.setType(UNDEF);
   return *this;
 }
 
-- 
2.43.0


From 1bbd1a188e21188c1913180468c3c173b71cc905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 29/54] Revert "fix: the json operation rejects arguments it
 cannot serve"

This reverts commit 6b09ca09d3a776c15f2589f133595ed2e769497f.
---
 examples/eni/json/eni_json.cpp | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/examples/eni/json/eni_json.cpp b/examples/eni/json/eni_json.cpp
index a6c8519..10fd45a 100644
--- a/examples/eni/json/eni_json.cpp
+++ b/examples/eni/json/eni_json.cpp
@@ -13,7 +13,7 @@
 namespace {
 std::string parseString(const std::string& raw) {
     json::Parser parser(raw);
-    if (!parser || !parser.getRoot().isString()) return "";
+    if (!parser) return "";
     return parser.getRoot().toString();
 }
 std::vector<jsmntok_t> internalParse(const char* data, int start, int end) {
@@ -22,7 +22,6 @@ std::vector<jsmntok_t> internalParse(const char* data, int start, int end) {
     p.toknext = 0;
     p.toksuper = -1;
     int len = jsmn_parse(&p, data, end, 0, 0);
-    if (len <= 0) return std::vector<jsmntok_t>();
     std::vector<jsmntok_t> result(len);
     p.pos = start;
     p.toknext = 0;
@@ -41,7 +40,6 @@ std::string encodeToken(const jsmntok_t& tok) {
 std::vector<jsmntok_t> arrayTokens(const char* data, int start, int end) {
     auto tokens = internalParse(data, start, end);
     std::vector<jsmntok_t> result;
-    if (tokens.empty()) return result;
     int after = tokens[0].start;
     int before = tokens[0].end;
     for (int i = 1; i < tokens.size(); i++) {
@@ -71,7 +69,6 @@ std::string arrayGet(const char* data, int start, int end, int index) {
 std::map<std::string, jsmntok_t> objectTokens(const char* data, int start, int end) {
     auto tokens = internalParse(data, start, end);
     std::map<std::string, jsmntok_t> result;
-    if (tokens.empty()) return result;
     int after = tokens[0].start;
     int before = tokens[0].end;
     int key_token = 0;
@@ -111,31 +108,17 @@ public:
 
 private:
     bool parse(const json::Array& pArgs) override {
-        if (pArgs.size() < 4 || !pArgs[0].isString() || !pArgs[1].isString() ||
-            !pArgs[2].isInteger() || !pArgs[3].isInteger())
-            return false;
         std::string op = pArgs[0].toString();
         std::string data = pArgs[1].toString();
-        if (pArgs[2].toInteger() < 0 ||
-            pArgs[3].toInteger() < pArgs[2].toInteger() ||
-            pArgs[3].toInteger() > data.length())
-            return false;
         int begin = (int)pArgs[2].toInteger();
         int end = (int)pArgs[3].toInteger();
         if (op == "parseString") {
-            m_Str = parseString(data.substr(begin, end - begin));
+            m_Str = parseString(std::string(data.data(), begin, end));
         } else if (op == "parseArray") {
             m_Str = parseArray(data.data(), begin, end);
         } else if (op == "arrayGet") {
-            if (pArgs.size() < 5 || !pArgs[4].isInteger())
-                return false;
-            if (pArgs[4].toInteger() < 0 || pArgs[4].toInteger() >=
-                arrayTokens(data.data(), begin, end).size())
-                return false;
             m_Str = arrayGet(data.data(), begin, end, (int)pArgs[4].toInteger());
         } else if (op == "objectGet") {
-            if (pArgs.size() < 5 || !pArgs[4].isString())
-                return false;
             m_Str = objectGet(data.data(), begin, end, pArgs[4].toString());
         } else {
             return false;
-- 
2.43.0


From 0a82632c451eeac06ad7e13fa878a6319628e8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 30/54] Revert "fix: reverse rejects missing and non-string
 arguments"

This reverts commit 3cd8f4358b2639f0e07958d9b97c2a776e50eb4d.
---
 examples/eni/reverse/eni_reverse.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/examples/eni/reverse/eni_reverse.cpp b/examples/eni/reverse/eni_reverse.cpp
index 1d294d1..1148465 100644
--- a/examples/eni/reverse/eni_reverse.cpp
+++ b/examples/eni/reverse/eni_reverse.cpp
@@ -15,8 +15,6 @@ public:
 
 private:
   bool parse(const json::Array& pArgs) override {
-    if (pArgs.size() < 1 || !pArgs[0].isString())
-      return false;
     m_Str = pArgs[0].toString();
     return true;
   }
-- 
2.43.0


From 60ed35fbaaeaec34f277f8ea7e0f1404f4ed10fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 31/54] fix: constant hash tables can be walked and counted by
 key

The chain iterator bound a reference to a mutable bucket, so that count() and
the constant begin(key) could not be compiled.
---
 include/eni/adt/bits/HashIterator.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/HashIterator.tcc b/include/eni/adt/bits/HashIterator.tcc
index 23eb64e..44e8b75 100644
--- a/include/eni/adt/bits/HashIterator.tcc
+++ b/include/eni/adt/bits/HashIterator.tcc
@@ -25,7 +25,7 @@ ChainIterBase<HT>::ChainIterBase(HT* pTable, const key_type& pKey)
   m_EndIndex = m_Index = m_HashValue % m_pHashTable->numOfBuckets();
   const unsigned int probe = 1;
   while(true) {
-    bucket_type &bucket = m_pHashTable->bucket(m_Index);
+    const bucket_type &bucket = m_pHashTable->bucket(m_Index);
     if (hash_table::Tombstone() == bucket.entry ||
         hash_table::EmptyBucket() == bucket.entry) {
       // Ignore tombstones.
-- 
2.43.0


From 7e7ca78a2f7937dd2f9193b7f9f64ddd139d141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 32/54] fix: constant pointer iterators support arithmetic

operator+, operator- and operator[] do not move the iterator; standard
algorithms such as stable_sort apply them to constant iterators.
---
 include/eni/adt/PointerIterator.h        | 8 ++++----
 include/eni/adt/bits/PointerIterator.tcc | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/eni/adt/PointerIterator.h b/include/eni/adt/PointerIterator.h
index 6275c3d..34f4ff6 100644
--- a/include/eni/adt/PointerIterator.h
+++ b/include/eni/adt/PointerIterator.h
@@ -67,14 +67,14 @@ public:
   /// @name C++ Random-Access Iterator
   /// @{
   iterator& operator+=(size_type pOffset);
-  iterator operator+(size_type pOffset);
+  iterator operator+(size_type pOffset) const;
 
   iterator& operator-=(size_type pOffset);
-  iterator operator-(size_type pOffset);
+  iterator operator-(size_type pOffset) const;
 
-  difference_type operator-(iterator pOther);
+  difference_type operator-(iterator pOther) const;
 
-  reference operator[](size_type pOffset);
+  reference operator[](size_type pOffset) const;
 
   bool operator<(const_iterator& pOther) const;
   bool operator>(const_iterator& pOther) const;
diff --git a/include/eni/adt/bits/PointerIterator.tcc b/include/eni/adt/bits/PointerIterator.tcc
index 9ee7eff..8934935 100644
--- a/include/eni/adt/bits/PointerIterator.tcc
+++ b/include/eni/adt/bits/PointerIterator.tcc
@@ -89,7 +89,7 @@ PointerIterator<ItemType>::operator+=(size_type pOffset)
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::iterator
-PointerIterator<ItemType>::operator+(size_type pOffset)
+PointerIterator<ItemType>::operator+(size_type pOffset) const
 {
   return iterator(m_Ptr + pOffset);
 }
@@ -102,19 +102,19 @@ PointerIterator<ItemType>::operator-=(size_type pOffset)
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::iterator
-PointerIterator<ItemType>::operator-(size_type pOffset)
+PointerIterator<ItemType>::operator-(size_type pOffset) const
 {
   return iterator(m_Ptr - pOffset);
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::difference_type
-PointerIterator<ItemType>::operator-(iterator pOther)
+PointerIterator<ItemType>::operator-(iterator pOther) const
 {
   return m_Ptr - pOther.m_Ptr;
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::reference
-PointerIterator<ItemType>::operator[](size_type pOffset)
+PointerIterator<ItemType>::operator[](size_type pOffset) const
 {
   return *(this->operator+(pOffset));
 }
-- 
2.43.0


From 4298df9545bc057a20759857d405874d40c212f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 33/54] fix: reading a missing member of a JSON object does not
 add it

---
 lib/json/Value.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 4917ae4..071cf4d 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -183,7 +183,9 @@ Value& Value::operator=(const Value& pCopy)
 const Value& Value::operator[](const std::string &key) const
 {
   if (m_Type == OBJECT) {
-    return (*m_Value.object_p)[key];
+    Object::const_iterator it = toObject().find(key);
+    if (it != toObject().end())
+      return it->value();
   }
   return g_NullValue;
 }
-- 
2.43.0


From 4a6a13806f11cc9a321bcc463e7652849d474a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 34/54] fix: indexing a JSON array outside its bounds yields an
 undefined value

---
 lib/json/Value.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 071cf4d..f596160 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -192,8 +192,8 @@ const Value& Value::operator[](const std::string &key) const
 
 const Value& Value::operator[](int i) const
 {
-  if (m_Type == ARRAY) {
-    return (*m_Value.array_p)[i];
+  if (m_Type == ARRAY && i >= 0 && i < toArray().size()) {
+    return toArray()[i];
   }
   return g_NullValue;
 }
-- 
2.43.0


From b9c140aa45376a9097cc5f67645f54f54bfc829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 35/54] fix: rsa_decrypt with an inconsistent key is
 deterministic

---
 tools/eni_crypto/eni_crypto.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index ca0c0c8..fd0d98d 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -74,6 +74,9 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
     return NULL;
   RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, no_passphrase, NULL);
   BIO_free(bio);
+  // blinding makes the result random if the parts of the key do not match
+  if (NULL != key)
+    RSA_blinding_off(key);
   return key;
 }
 
-- 
2.43.0


From d5050dbbe3213b74ac1df0a896820b489d36f106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 36/54] fix: Vector constructs and destroys its elements

Elements were assigned to memory that held no object and were never destroyed,
so elements that own memory leaked or could not be stored at all.
---
 include/eni/adt/Vector.h        |  6 ++++
 include/eni/adt/bits/Vector.tcc | 61 ++++++++++++++++++++++-----------
 include/eni/json/Array.h        |  2 +-
 lib/json/Array.cpp              |  4 +++
 4 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/include/eni/adt/Vector.h b/include/eni/adt/Vector.h
index 02c153b..956eb52 100644
--- a/include/eni/adt/Vector.h
+++ b/include/eni/adt/Vector.h
@@ -13,6 +13,9 @@
 #include <cstdlib>
 #include <limits>
 #include <initializer_list>
+#include <iterator>
+#include <memory>
+#include <new>
 #include <vector>
 
 namespace eni {
@@ -104,6 +107,9 @@ public:
   void swap(Vector& pOther);
   void clear();
 
+private:
+  void destroy(size_type pFirst, size_type pLast);
+
 private:
   pointer m_Data;
   size_type m_DataSize;
diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 0d1291c..19f0c8d 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -12,36 +12,38 @@ Vector<ElementType>::Vector()
 
 template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize)
-  : m_DataSize(pSize), m_AllocSize(pSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
+  : Vector() {
+  resize(pSize);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize, const_reference pValue)
-  : m_DataSize(pSize), m_AllocSize(pSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
-  std::fill_n(m_Data, m_DataSize, pValue);
+  : Vector() {
+  resize(pSize, pValue);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(const std_vector& pVector)
-  : m_DataSize(pVector.size()), m_AllocSize(pVector.size()) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
-  std::copy(pVector.begin(), pVector.end(), m_Data);
+  : Vector() {
+  reserve(pVector.size());
+  std::uninitialized_copy(pVector.begin(), pVector.end(), m_Data);
+  m_DataSize = pVector.size();
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(const Vector& pOther)
-  : m_DataSize(pOther.m_DataSize), m_AllocSize(pOther.m_DataSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
-  std::copy(pOther.begin(), pOther.end(), m_Data);
+  : Vector() {
+  reserve(pOther.size());
+  std::uninitialized_copy(pOther.begin(), pOther.end(), m_Data);
+  m_DataSize = pOther.size();
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(initializer_list pIList)
-  : m_DataSize(pIList.size()), m_AllocSize(pIList.size()) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
-  std::copy(pIList.begin(), pIList.end(), m_Data);
+  : Vector() {
+  reserve(pIList.size());
+  std::uninitialized_copy(pIList.begin(), pIList.end(), m_Data);
+  m_DataSize = pIList.size();
 }
 
 template<class ElementType>
@@ -112,7 +114,9 @@ Vector<ElementType>::resize(size_t pSize, const ElementType& pValue)
   value_type value(pValue); //< pValue may refer to an element
   reserve(pSize);
   if (pSize > m_DataSize)
-    std::fill_n(end(), pSize - m_DataSize, value);
+    std::uninitialized_fill_n(m_Data + m_DataSize, pSize - m_DataSize, value);
+  else
+    destroy(pSize, m_DataSize);
   m_DataSize = pSize;
 }
 
@@ -142,12 +146,16 @@ Vector<ElementType>::reserve(size_type pSize)
     }
     if (targetSize > max_size())
       targetSize = max_size();
-    pointer ptr = (ElementType*)std::realloc(m_Data, sizeof(ElementType) * targetSize);
+    pointer ptr = (ElementType*)std::malloc(sizeof(ElementType) * targetSize);
     if (nullptr == ptr) //< not enough memory
       throw BadAlloc<NoMemory>();
     else {
+      std::uninitialized_copy(std::make_move_iterator(m_Data),
+                              std::make_move_iterator(m_Data + m_DataSize), ptr);
+      destroy(0, m_DataSize);
+      std::free(m_Data);
       m_Data = ptr;
-      m_AllocSize = pSize;
+      m_AllocSize = targetSize;
     }
   }
 }
@@ -232,13 +240,17 @@ Vector<ElementType>::push_back(const_reference pValue)
 {
   value_type value(pValue); //< pValue may refer to an element
   reserve(size() + 1);
-  m_Data[m_DataSize++] = value;
+  ::new((void*)(m_Data + m_DataSize)) value_type(std::move(value));
+  ++m_DataSize;
 }
 
 template<class ElementType> typename Vector<ElementType>::value_type
 Vector<ElementType>::pop_back()
 {
-  return m_Data[--m_DataSize];
+  value_type value(std::move(back()));
+  destroy(m_DataSize - 1, m_DataSize);
+  --m_DataSize;
+  return value;
 }
 
 template<class ElementType>
@@ -247,7 +259,8 @@ Vector<ElementType>::emplace_back(Args&& ...pArgs)
 {
   value_type value(std::forward<Args>(pArgs)...); //< may refer to an element
   reserve(size() + 1);
-  m_Data[m_DataSize++] = value;
+  ::new((void*)(m_Data + m_DataSize)) value_type(std::move(value));
+  ++m_DataSize;
 }
 
 template<class ElementType> typename Vector<ElementType>::iterator
@@ -368,9 +381,17 @@ template<class ElementType>
 void Vector<ElementType>::clear()
 {
   if (nullptr != m_Data) {
+    destroy(0, m_DataSize);
     std::free(m_Data);
     m_Data = nullptr;
   }
   m_DataSize = 0;
   m_AllocSize = 0;
 }
+
+template<class ElementType> void
+Vector<ElementType>::destroy(size_type pFirst, size_type pLast)
+{
+  for (; pFirst < pLast; ++pFirst)
+    m_Data[pFirst].~value_type();
+}
diff --git a/include/eni/json/Array.h b/include/eni/json/Array.h
index b681ab0..05a7d28 100644
--- a/include/eni/json/Array.h
+++ b/include/eni/json/Array.h
@@ -20,7 +20,7 @@ class Array : public eni::Vector<Value>, public Notation
 public:
   Array();
 
-  ~Array() { }
+  ~Array();
 
   Array(const Array& pArray);
 
diff --git a/lib/json/Array.cpp b/lib/json/Array.cpp
index df0de6b..6524df6 100644
--- a/lib/json/Array.cpp
+++ b/lib/json/Array.cpp
@@ -17,6 +17,10 @@ Array::Array(const Array& pArray)
   : eni::Vector<Value>(pArray), Notation(ARRAY) {
 }
 
+Array::~Array()
+{
+}
+
 Array& Array::operator=(const Array& pArray)
 {
   eni::Vector<Value>::operator=(pArray);
-- 
2.43.0


From 5aaa2080b91e4e2ee024412f41e5f137c98caa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 37/54] fix: a JSON value releases its integer and the content
 it replaces

---
 include/eni/json/Callbacks.h |  4 +---
 lib/json/Value.cpp           | 11 ++++++-----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/eni/json/Callbacks.h b/include/eni/json/Callbacks.h
index f6b2d9d..6710387 100644
--- a/include/eni/json/Callbacks.h
+++ b/include/eni/json/Callbacks.h
@@ -34,10 +34,8 @@ public:
   }
 
   void on_number(const vector<char> &pStr) {
-    Value v;
     string s(pStr.cbegin(),pStr.cend());
-    eni::s256 i(s);
-    v.delegate(i);
+    Value v((eni::s256(s)));
     set_parent(v);
   }
 
diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index f596160..8c7a541 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -77,6 +77,9 @@ Value::Value(const Array& pArray)
 Value::~Value()
 {
   switch (this->type()) {
+    case INT:
+      delete m_Value.int_p;
+      break;
     case STRING:
       delete m_Value.string_p;
       break;
@@ -168,11 +171,9 @@ void Value::printValue(std::ostream &os) const
 
 Value& Value::operator=(const Value& pCopy)
 {
-  Value copy(pCopy); //< pCopy may contain this value
-  Notation::operator=(copy);
-  m_Value = copy.m_Value;
-  copy.m_Value.reset();
-  copy.setType(UNDEF);
+  Value copy(pCopy); //< pCopy may be a part of this value
+  std::swap(m_Type, copy.m_Type);
+  std::swap(m_Value, copy.m_Value);
   return *this;
 }
 
-- 
2.43.0


From fbaefe233f048ec894f064d3918b6b683fc8bd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:40 +0000
Subject: [PATCH 38/54] fix: reading nested arguments takes linear time

Closing an array or object copied everything inside it several times, so the
time to read a document grew with the square of its nesting.
---
 include/eni/json/Callbacks.h | 15 ++++++++-------
 include/eni/json/Value.h     |  1 +
 lib/json/Value.cpp           |  8 ++++++++
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/eni/json/Callbacks.h b/include/eni/json/Callbacks.h
index 6710387..805b58c 100644
--- a/include/eni/json/Callbacks.h
+++ b/include/eni/json/Callbacks.h
@@ -57,9 +57,9 @@ public:
   }
 
   void end_array() {
-    Value v = m_Stack.back().first;
+    Value v = std::move(m_Stack.back().first);
     m_Stack.pop_back();
-    set_parent(v);
+    set_parent(std::move(v));
   }
 
   void begin_object() {
@@ -69,24 +69,25 @@ public:
   }
 
   void end_object() {
-    Value v = m_Stack.back().first;
+    Value v = std::move(m_Stack.back().first);
     m_Stack.pop_back();
-    set_parent(v);
+    set_parent(std::move(v));
   }
 
   // set v's parent as the top element in m_Stack
   void set_parent(Value pV) {
     if (m_Stack.empty()) {
-      m_Root = pV;
+      m_Root = std::move(pV);
       return;
     }
     Value &par = m_Stack.back().first;
     string key = m_Stack.back().second;
     if (par.isObject()) {
-      par.asObject()[key] = pV;
+      par.asObject()[key] = std::move(pV);
     }
     else if (par.isArray()) {
-      par.asArray().push_back(pV);
+      par.asArray().push_back(Value());
+      par.asArray().back() = std::move(pV);
     }
   }
 
diff --git a/include/eni/json/Value.h b/include/eni/json/Value.h
index de8467a..d70a755 100644
--- a/include/eni/json/Value.h
+++ b/include/eni/json/Value.h
@@ -57,6 +57,7 @@ public:
   void printValue(std::ostream &os) const;
 
   Value& operator=(const Value& pCopy);
+  Value& operator=(Value&& pMove);
   const Value& operator[](const std::string &key) const;
   const Value& operator[](int i) const;
 
diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 8c7a541..02a1212 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -177,6 +177,14 @@ Value& Value::operator=(const Value& pCopy)
   return *this;
 }
 
+Value& Value::operator=(Value&& pMove)
+{
+  Value moved(std::move(pMove)); //< pMove may be a part of this value
+  std::swap(m_Type, moved.m_Type);
+  std::swap(m_Value, moved.m_Value);
+  return *this;
+}
+
 // beware that parameter key might be assigned from an integer
 // because (string <= char <= int) is available
 // by the HOLLY string& operator= (char c)
-- 
2.43.0


From d2dab1ce833978ffe5c49fbccf46b09151c8eaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 39/54] fix: reject arguments nested too deeply to process

Reading, copying and printing recurse once per level; some ten thousand
brackets overflowed the stack.
---
 include/eni/json/Parser.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 8231840..4b2e3a6 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -41,7 +41,11 @@ using std::vector;
 
 class Parser {
 public:
-  Parser(const std::string &pStr) {
+  // arrays and objects within each other; deeper text is rejected, because
+  // reading, copying and printing a value recurse once per level
+  static const unsigned MAX_NESTING = 4096;
+
+  Parser(const std::string &pStr) : m_Nesting(0) {
     m_It = m_Start = &pStr[0];
     m_End = &pStr[0] + pStr.length();
     try {
@@ -126,6 +130,7 @@ public:
 
     if (!have('[')) return false;
 
+    Nesting nesting(*this);
     m_CBacks.begin_array();
     skip_ws();
     if (have(']')) { //< empty array
@@ -145,6 +150,7 @@ public:
     skip_ws();
     if (!have('{')) return false;
 
+    Nesting nesting(*this);
     m_CBacks.begin_object();
     skip_ws();
     if (have('}')) {// empty
@@ -167,6 +173,19 @@ public:
     return m_CBacks.getRoot();
   }
 private:
+  // counts the level of an array or object while it is read
+  class Nesting {
+  public:
+    explicit Nesting(Parser& pParser) : m_Parser(pParser) {
+      if (++m_Parser.m_Nesting > MAX_NESTING)
+        m_Parser.parse_error("nested too deeply");
+    }
+    ~Nesting() { --m_Parser.m_Nesting; }
+
+  private:
+    Parser& m_Parser;
+  };
+
   void skip_ws() {
     while (have(' ') || have('\t') || have('\n') || have('\r'));
   }
@@ -301,6 +320,8 @@ private:
   const char *m_End;
   const char *m_It;// scanner iterator, this points to ASCII char instead of UTF-8 char
 
+  unsigned m_Nesting; // number of arrays and objects being read
+
   Callbacks m_CBacks;
   bool m_ParseSucceed;
 };
-- 
2.43.0


From 32a2034b8105b090dd1fd518439eb91f10b89645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 40/54] fix: hash tables with an entry type of their own could
 not be compiled

The constructors and assignments named the base class without its entry type.
---
 include/eni/adt/bits/HashTable.tcc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 1d0066b..3ed967f 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -9,14 +9,14 @@
 template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 HashTable<K, V, H, E, A>::HashTable(size_type pSize)
-  : internal::TableImpl<K, V, H>(pSize) {
+  : super(pSize) {
 }
 
 // copy constructor
 template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 HashTable<K, V, H, E, A>::HashTable(const HashTable& pCopy)
-  : internal::TableImpl<K, V, H>(pCopy) {
+  : super(pCopy) {
   if (empty())
     return;
 
@@ -37,7 +37,7 @@ HashTable<K, V, H, E, A>::HashTable(const HashTable& pCopy)
 template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 HashTable<K, V, H, E, A>::HashTable(HashTable&& pOther)
-  : internal::TableImpl<K, V, H>(std::move(pOther)) {
+  : super(std::move(pOther)) {
   if (std::is_move_assignable<allocator_type>::value)
     m_EntryAlloc = std::move(pOther.m_EntryAlloc);
 }
@@ -60,7 +60,7 @@ HashTable<K, V, H, E, A>::operator=(const HashTable& pCopy)
     return *this;
 
   clear();
-  internal::TableImpl<K, V, H>::operator=(pCopy);
+  super::operator=(pCopy);
 
   // for all entries in pCopy, allocate an entry.
   for (unsigned int i=0; i < numOfBuckets(); ++i) {
@@ -86,7 +86,7 @@ HashTable<K, V, H, E, A>::operator=(HashTable&& pOther)
     return *this;
 
   clear();
-  internal::TableImpl<K, V, H>::operator=(std::move(pOther));
+  super::operator=(std::move(pOther));
   if (std::is_move_assignable<allocator_type>::value)
     m_EntryAlloc = std::move(pOther.m_EntryAlloc);
   return *this;
-- 
2.43.0


From 17681dae2b679228837f4c314707a884b2e1b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 41/54] fix: new entries of numbers held indeterminate values

---
 include/eni/adt/HashBase.h        | 2 +-
 include/eni/adt/StringHashTable.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/HashBase.h b/include/eni/adt/HashBase.h
index 3cf4b09..c6aa9c0 100644
--- a/include/eni/adt/HashBase.h
+++ b/include/eni/adt/HashBase.h
@@ -21,7 +21,7 @@ public:
   typedef Value value_type;
 
 public:
-  Entry(const key_type& pKey) : m_Key(pKey) { }
+  Entry(const key_type& pKey) : m_Key(pKey), m_Value() { }
 
   const Key& key() const { return m_Key; }
   Key&       key()       { return m_Key; }
diff --git a/include/eni/adt/StringHashTable.h b/include/eni/adt/StringHashTable.h
index 0ac4299..0fe6189 100644
--- a/include/eni/adt/StringHashTable.h
+++ b/include/eni/adt/StringHashTable.h
@@ -27,7 +27,7 @@ public:
   typedef ValueType value_type;
 
 public:
-  Entry(const key_type& pKey) : m_KeyLen(pKey.size()) {
+  Entry(const key_type& pKey) : m_Value(), m_KeyLen(pKey.size()) {
     std::memcpy(m_Key, pKey.data(), pKey.size());
     m_Key[pKey.size()] = '\0';
   }
-- 
2.43.0


From 824a7ab95b794d7132bde5f3387ee490b20bda3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 42/54] fix: hash tables used memory they were not given

Requests for buckets and entries went unchecked, and a failure in the middle
of a copy or an insertion left entries of another table, uninitialised entries
or no empty bucket behind.
---
 include/eni/adt/HashBase.h         |   1 +
 include/eni/adt/HashTable.h        |   6 ++
 include/eni/adt/bits/HashBase.tcc  |  15 ++++-
 include/eni/adt/bits/HashTable.tcc | 104 +++++++++++++++++++----------
 4 files changed, 88 insertions(+), 38 deletions(-)

diff --git a/include/eni/adt/HashBase.h b/include/eni/adt/HashBase.h
index c6aa9c0..6f694d7 100644
--- a/include/eni/adt/HashBase.h
+++ b/include/eni/adt/HashBase.h
@@ -7,6 +7,7 @@
 #ifndef ENI_ADT_HASHBASE
 #define ENI_ADT_HASHBASE
 
+#include <diagnostic/Exception.h>
 #include <cstdlib>
 #include <cstring>
 
diff --git a/include/eni/adt/HashTable.h b/include/eni/adt/HashTable.h
index 5748653..ed7e212 100644
--- a/include/eni/adt/HashTable.h
+++ b/include/eni/adt/HashTable.h
@@ -127,6 +127,12 @@ public:
 
   using super::Tombstone;
 
+protected:
+  /// createEntry - allocate and construct an entry
+  entry_type* createEntry(const key_type& pKey);
+
+  void destroyEntry(entry_type* pEntry);
+
 protected:
   allocator_type m_EntryAlloc;
 };
diff --git a/include/eni/adt/bits/HashBase.tcc b/include/eni/adt/bits/HashBase.tcc
index 01c9c48..852abc3 100644
--- a/include/eni/adt/bits/HashBase.tcc
+++ b/include/eni/adt/bits/HashBase.tcc
@@ -67,6 +67,8 @@ TableImpl<K, V, H, E>::TableImpl(const TableImpl& pCopy)
     return;
 
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
+  if (nullptr == m_Buckets) //< not enough memory
+    throw BadAlloc<NoMemory>();
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
   // Because TableImpl doesn't handle with entries, here we doesn't copy entries
@@ -104,6 +106,10 @@ TableImpl<K, V, H, E>& TableImpl<K, V, H, E>::operator=(const TableImpl& pCopy)
     return *this;
 
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
+  if (nullptr == m_Buckets) { //< not enough memory
+    clear();
+    throw BadAlloc<NoMemory>();
+  }
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
   // Because TableImpl doesn't handle with entries, here we doesn't copy entries
@@ -142,6 +148,8 @@ bool TableImpl<K, V, H, E>::init(unsigned int pInitSize)
 
   /** calloc also set bucket.Item = Bucket::getEmptyStone() **/
   m_Buckets = (Bucket*)calloc(m_NumOfBuckets, sizeof(Bucket));
+  if (nullptr == m_Buckets) //< not enough memory
+    m_NumOfBuckets = 0;
   return (nullptr != m_Buckets);
 }
 
@@ -161,9 +169,8 @@ void TableImpl<K, V, H, E>::clear()
 template<typename K, typename V, typename H, template<class, class> class E>
 unsigned int TableImpl<K, V, H, E>::lookupBucketFor(const key_type& pKey)
 {
-  if (!isInit()) {
-    init(NumOfInitBuckets);
-  }
+  if (!isInit() && !init(NumOfInitBuckets)) //< not enough memory
+    throw BadAlloc<NoMemory>();
 
   hasher_type hasher;
   unsigned int full_hash = hasher(pKey);
@@ -257,6 +264,8 @@ template<typename K, typename V, typename H, template<class, class> class E>
 void TableImpl<K, V, H, E>::doRehash(unsigned int pNewSize)
 {
   Bucket* new_table = (Bucket*)calloc(pNewSize, sizeof(Bucket));
+  if (nullptr == new_table) //< not enough memory
+    throw BadAlloc<NoMemory>();
 
   // Rehash all the items into their new buckets.  Luckily :) we already have
   // the hash values available, so we don't have to recall hash function again.
diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 3ed967f..a6fd16a 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -21,15 +21,26 @@ HashTable<K, V, H, E, A>::HashTable(const HashTable& pCopy)
     return;
 
   // for all entries in pCopy, allocate an entry.
-  for (unsigned int i=0; i < numOfBuckets(); ++i) {
-    if (EmptyBucket() != super::m_Buckets[i].entry &&
-        Tombstone() != super::m_Buckets[i].entry ) {
+  unsigned int i = 0;
+  try {
+    while (i < numOfBuckets()) {
+      entry_type*& entry = super::m_Buckets[i].entry;
+      if (EmptyBucket() == entry || Tombstone() == entry) {
+        ++i;
+        continue;
+      }
       // copy entry
-      const key_type& key = pCopy.super::m_Buckets[i].entry->key();
-      super::m_Buckets[i].entry = m_EntryAlloc.allocate(1, &key);
-      entry_type* entry = new (super::m_Buckets[i].entry) entry_type(key);
-      entry->setValue(pCopy.m_Buckets[i].entry->value());
+      const entry_type* other = pCopy.m_Buckets[i].entry;
+      entry = createEntry(other->key());
+      ++i;
+      entry->setValue(other->value());
     }
+  } catch (...) {
+    // the rest of the entries belong to pCopy
+    for (; i < numOfBuckets(); ++i)
+      super::m_Buckets[i].entry = EmptyBucket();
+    clear();
+    throw;
   }
 }
 
@@ -59,21 +70,7 @@ HashTable<K, V, H, E, A>::operator=(const HashTable& pCopy)
   if (this == &pCopy)
     return *this;
 
-  clear();
-  super::operator=(pCopy);
-
-  // for all entries in pCopy, allocate an entry.
-  for (unsigned int i=0; i < numOfBuckets(); ++i) {
-    if (EmptyBucket() != super::m_Buckets[i].entry &&
-        Tombstone() != super::m_Buckets[i].entry ) {
-      // copy entry
-      const key_type& key = pCopy.m_Buckets[i].entry->key();
-      super::m_Buckets[i].entry = m_EntryAlloc.allocate(1, &key);
-      entry_type* entry = new (super::m_Buckets[i].entry) entry_type(key);
-      entry->setValue(pCopy.super::m_Buckets[i].entry->value());
-    }
-  }
-  return *this;
+  return *this = HashTable(pCopy); //< copy first, it may fail
 }
 
 // Move assignment
@@ -103,8 +100,7 @@ void HashTable<K, V, H, E, A>::clear()
   for (unsigned int i=0; i < numOfBuckets(); ++i) {
     if (EmptyBucket() != super::m_Buckets[i].entry ) {
       if (Tombstone() != super::m_Buckets[i].entry ) {
-        ((entry_type*)super::m_Buckets[i].entry)->~entry_type();
-        m_EntryAlloc.deallocate(super::m_Buckets[i].entry);
+        destroyEntry(super::m_Buckets[i].entry);
       }
       super::m_Buckets[i].entry = EmptyBucket();
     }
@@ -113,6 +109,33 @@ void HashTable<K, V, H, E, A>::clear()
   super::clear();
 }
 
+/// createEntry - allocate and construct an entry
+template<typename K, typename V, typename H,
+         template<class, class> class E, template<class> class A>
+typename HashTable<K, V, H, E, A>::entry_type*
+HashTable<K, V, H, E, A>::createEntry(const key_type& pKey)
+{
+  entry_type* entry = m_EntryAlloc.allocate(1, &pKey);
+  if (nullptr == entry) //< not enough memory
+    throw BadAlloc<NoMemory>();
+
+  // constructor with key type is necessary.
+  try {
+    return new (entry) entry_type(pKey);
+  } catch (...) {
+    m_EntryAlloc.deallocate(entry);
+    throw;
+  }
+}
+
+template<typename K, typename V, typename H,
+         template<class, class> class E, template<class> class A>
+void HashTable<K, V, H, E, A>::destroyEntry(entry_type* pEntry)
+{
+  pEntry->~entry_type();
+  m_EntryAlloc.deallocate(pEntry);
+}
+
 /// insert - insert a new element to the container. If the element already
 //  exist, return the element.
 template<typename K, typename V, typename H,
@@ -129,21 +152,29 @@ HashTable<K, V, H, E, A>::insert(const key_type& pKey, bool& pExist)
     return entry;
   }
 
-  // find a tombstone
-  if (Tombstone() == entry)
-    --super::m_NumOfTombstones;
-
   // construct an entry
-  entry = m_EntryAlloc.allocate(1, &pKey);
+  entry_type* vacant = entry;
+  entry = createEntry(pKey);
 
-  // constructor with key type is necessary.
-  new (entry) entry_type(pKey);
+  // find a tombstone
+  if (Tombstone() == vacant)
+    --super::m_NumOfTombstones;
 
   // set up the bucket
   bucket.entry = entry;
 
   ++super::m_NumOfEntries;
-  super::mayRehash();
+  try {
+    super::mayRehash();
+  } catch (...) {
+    // a table which can not grow may have no room for the entry
+    bucket.entry = vacant;
+    --super::m_NumOfEntries;
+    if (Tombstone() == vacant)
+      ++super::m_NumOfTombstones;
+    destroyEntry(entry);
+    throw;
+  }
   pExist = false;
   return entry;
 }
@@ -158,13 +189,16 @@ bool HashTable<K, V, H, E, A>::erase(const key_type& pKey)
     return false;
 
   bucket_type& bucket = super::m_Buckets[index];
-  ((entry_type*)bucket.entry)->~entry_type();
-  m_EntryAlloc.deallocate(bucket.entry);
+  destroyEntry(bucket.entry);
   bucket.entry = Tombstone();
 
   --super::m_NumOfEntries;
   ++super::m_NumOfTombstones;
-  super::mayRehash();
+  try {
+    super::mayRehash();
+  } catch (const std::bad_alloc&) {
+    // the element is removed, and the buckets serve as they are
+  }
   return true;
 }
 
-- 
2.43.0


From d3c1d6fa71f79548f44e5a986c647331608adca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 43/54] fix: results were cut short when memory ran out

A string stream that cannot grow keeps quiet about it.
---
 include/eni/eni.h               | 1 +
 tools/eni_crypto/eni_crypto.cpp | 1 +
 tools/eni_scrypt/eni_scrypt.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index b267eae..1c77450 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -62,6 +62,7 @@ public:
       return nullptr;
 
     std::ostringstream os;
+    os.exceptions(std::ios::badbit); //< do not return a part of the values
     m_RetVals.print(os);
     return ::strdup(os.str().c_str());
   }
diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index fd0d98d..886446e 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -29,6 +29,7 @@ static inline unsigned char hex2digit(char h1, char h0)
 bool eni_crypto::str2hex(const std::string& pStr, std::string& pHex)
 {
   std::ostringstream oss;
+  oss.exceptions(std::ios::badbit); //< do not return a part of the digits
   std::string::const_iterator ic, end = pStr.end();
   for (ic = pStr.begin(); ic != end; ++ic)
     oss << std::hex << std::setw(2) << std::setfill('0')
diff --git a/tools/eni_scrypt/eni_scrypt.cpp b/tools/eni_scrypt/eni_scrypt.cpp
index 404c91d..c309525 100644
--- a/tools/eni_scrypt/eni_scrypt.cpp
+++ b/tools/eni_scrypt/eni_scrypt.cpp
@@ -54,6 +54,7 @@ bool Scrypt::run(json::Array& pRetVal)
 
   // hex output hash
   std::ostringstream oss;
+  oss.exceptions(std::ios::badbit); //< do not return a part of the digits
   for (int i = 0; i < 32; i++) {
     oss << std::hex << std::setw(2) << std::setfill('0') << (hash[i] & 0xff);
   }
-- 
2.43.0


From 49dbd51697584ea4ab840df6fab526fcd0182387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 44/54] fix: a failing invocation leaked the operation, and a
 gas query could write to a null pointer

---
 include/eni/eni.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 1c77450..1209d7f 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -10,26 +10,26 @@
 #include <json/Array.h>
 #include <json/Value.h>
 #include <cstdint>
+#include <cstdlib>
 #include <cstring>
+#include <memory>
 #include <string>
 #include <sstream>
 
 #define ENI_GAS(OP, CLZ) \
   extern "C" uint64_t* OP ## _gas(char* pArgStr) {              \
-    eni::EniBase* functor = new CLZ(pArgStr);                   \
+    std::unique_ptr<eni::EniBase> functor(new CLZ(pArgStr));    \
     uint64_t gas = functor->getGas();                           \
     uint64_t* ptrGas = (uint64_t*)::malloc(sizeof(uint64_t));   \
-    *ptrGas = gas;                                              \
-    delete functor;                                             \
+    if (nullptr != ptrGas)                                      \
+      *ptrGas = gas;                                            \
     return ptrGas;                                              \
   }
 
 #define ENI_RUN(OP, CLZ) \
-  extern "C" char* OP ## _run(char* pArgStr) {  \
-    eni::EniBase* functor = new CLZ(pArgStr);   \
-    char* ret = functor->start();               \
-    delete functor;                             \
-    return ret;                                 \
+  extern "C" char* OP ## _run(char* pArgStr) {                \
+    std::unique_ptr<eni::EniBase> functor(new CLZ(pArgStr));  \
+    return functor->start();                                  \
   }
 
 #define ENI_C_INTERFACE(OP, CLZ) \
-- 
2.43.0


From a5a2b8ac7837126f94bb20c58f5324d5353e45dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 45/54] fix: an RSA operation whose parsing was interrupted
 leaked its key on the next try

---
 tools/eni_crypto/eni_crypto.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 886446e..3c29575 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -160,11 +160,9 @@ bool RSAEncrypt::parse(const json::Array& pArgs)
 {
   if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
     return false;
-  m_Key = rsa::create_pubkey(pArgs[0].toString());
-  if (nullptr == m_Key)
-    return false;
   m_Msg = pArgs[1].toString();
-  return true;
+  m_Key = rsa::create_pubkey(pArgs[0].toString()); //< last, parsing may be tried again
+  return nullptr != m_Key;
 }
 
 eni::Gas RSAEncrypt::gas() const
@@ -191,12 +189,10 @@ bool RSADecrypt::parse(const json::Array& pArgs)
 {
   if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
     return false;
-  m_Key = rsa::create_privkey(pArgs[0].toString());
-  if (nullptr == m_Key)
-    return false;
   if (!hex2str(pArgs[1].toString(), m_Msg))
     return false;
-  return true;
+  m_Key = rsa::create_privkey(pArgs[0].toString()); //< last, parsing may be tried again
+  return nullptr != m_Key;
 }
 
 eni::Gas RSADecrypt::gas() const
-- 
2.43.0


From 939b118e556139808b992fd8b350a9de3c1458fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:34 +0000
Subject: [PATCH 46/54] fix: a malformed text was not refused across libraries

The error that the reader raises and catches had a type of an unnamed
namespace, another one in every library and program that includes the
header.  Where the functions that raise it came from one library and the
handler from another, the error was not caught, and ended the process by
std::terminate.
---
 include/eni/json/Parser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 4b2e3a6..07b2f0c 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -30,11 +30,11 @@
 #include <string>
 #include <vector>
 
-namespace {
+namespace json {
+// an unnamed namespace would make it another type in every library that reads
+// texts, and one does not catch what another throws
 class ParserError{};
-}
 
-namespace json {
 // the JSON parser for only JSON text in memory
 // read/write files is not supported yet
 using std::vector;
-- 
2.43.0


From ee488fbbdd6a0bbfdc117ea9c55b8277155b3b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 47/54] fix: hash values, and the order of printed members,
 depended on the signedness of char

---
 include/eni/adt/StringHasher.h | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index a8ffcdc..43054d3 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -31,6 +31,13 @@ enum StringHasherType {
   ES
 };
 
+/// a character as the hash functions take it: signed, also where char is not,
+/// so that a string has the same hash value on all platforms
+inline signed char charAt(const std::string& pKey, std::string::size_type pIdx)
+{
+  return static_cast<signed char>(pKey[pIdx]);
+}
+
 /** \class StringHasher
  *  \brief the template StringHasher class, for specialization
  */
@@ -57,7 +64,7 @@ struct StringHasher<RS> : public std::unary_function<const std::string&, uint32_
     uint32_t hash_val = 0;
 
     for(unsigned int i = 0; i < pKey.size(); ++i) {
-      hash_val = hash_val * a + pKey[i];
+      hash_val = hash_val * a + charAt(pKey, i);
       a = a * b;
     }
     return hash_val;
@@ -75,7 +82,7 @@ struct StringHasher<JS> : public std::unary_function<const std::string&, uint32_
     uint32_t hash_val = 1315423911;
 
     for(unsigned int i = 0; i < pKey.size(); ++i) {
-       hash_val ^= ((hash_val << 5) + pKey[i] + (hash_val >> 2));
+       hash_val ^= ((hash_val << 5) + charAt(pKey, i) + (hash_val >> 2));
     } 
     return hash_val;
   }
@@ -97,7 +104,7 @@ struct StringHasher<PJW> : public std::unary_function<const std::string&, uint32
     uint32_t test = 0;
 
     for(unsigned int i = 0; i < pKey.size(); ++i) {
-      hash_val = (hash_val << OneEighth) + pKey[i];
+      hash_val = (hash_val << OneEighth) + charAt(pKey, i);
 
       if((test = hash_val & HighBits) != 0) {
         hash_val = (( hash_val ^ (test >> ThreeQuarters)) & (~HighBits));
@@ -119,7 +126,7 @@ struct StringHasher<ELF> : public std::unary_function<const std::string&, uint32
     uint32_t x = 0;
 
     for (unsigned int i = 0; i < pKey.size(); ++i) {
-      hash_val = (hash_val << 4) + pKey[i];
+      hash_val = (hash_val << 4) + charAt(pKey, i);
       if((x = hash_val & 0xF0000000L) != 0)
         hash_val ^= (x >> 24); 
       hash_val &= ~x;
@@ -140,7 +147,7 @@ struct StringHasher<BKDR> : public std::unary_function<const std::string&, uint3
     uint32_t hash_val = 0;
 
     for(uint32_t i = 0; i < pKey.size(); ++i)
-      hash_val = (hash_val * seed) + pKey[i];
+      hash_val = (hash_val * seed) + charAt(pKey, i);
     return hash_val;
   }
 };
@@ -158,7 +165,7 @@ struct StringHasher<SDBM> : public std::unary_function<const std::string&, uint3
     uint32_t hash_val = 0;
 
     for(uint32_t i = 0; i < pKey.size(); ++i)
-      hash_val = pKey[i] + (hash_val << 6) + (hash_val << 16) - hash_val;
+      hash_val = charAt(pKey, i) + (hash_val << 6) + (hash_val << 16) - hash_val;
     return hash_val;
   }
 };
@@ -175,7 +182,7 @@ struct StringHasher<DJB> : public std::unary_function<const std::string&, uint32
     uint32_t hash_val = 5381;
 
     for(uint32_t i = 0; i < pKey.size(); ++i)
-      hash_val = ((hash_val << 5) + hash_val) + pKey[i];
+      hash_val = ((hash_val << 5) + hash_val) + charAt(pKey, i);
 
     return hash_val;
   }
@@ -193,7 +200,7 @@ struct StringHasher<DEK> : public std::unary_function<const std::string&, uint32
     uint32_t hash_val = pKey.size();
 
     for(uint32_t i = 0; i < pKey.size(); ++i)
-      hash_val = ((hash_val << 5) ^ (hash_val >> 27)) ^ pKey[i];
+      hash_val = ((hash_val << 5) ^ (hash_val >> 27)) ^ charAt(pKey, i);
 
     return hash_val;
   }
@@ -210,7 +217,7 @@ struct StringHasher<BP> : public std::unary_function<const std::string&, uint32_
   {
     uint32_t hash_val = 0;
     for(uint32_t i = 0; i < pKey.size(); ++i)
-      hash_val = hash_val << 7 ^ pKey[i];
+      hash_val = hash_val << 7 ^ charAt(pKey, i);
 
     return hash_val;
   }
@@ -229,7 +236,7 @@ struct StringHasher<FNV> : public std::unary_function<const std::string&, uint32
     uint32_t hash_val = 0;
     for(uint32_t i = 0; i < pKey.size(); ++i) {
       hash_val *= fnv_prime;
-      hash_val ^= pKey[i];
+      hash_val ^= charAt(pKey, i);
     }
 
     return hash_val;
@@ -249,8 +256,8 @@ struct StringHasher<AP> : public std::unary_function<const std::string&, uint32_
 
     for(uint32_t i = 0; i < pKey.size(); ++i) {  
       hash_val ^= ((i & 1) == 0)?
-                          ((hash_val <<  7) ^ pKey[i] * (hash_val >> 3)):
-                          (~((hash_val << 11) + (pKey[i] ^ (hash_val >> 5))));
+                          ((hash_val <<  7) ^ charAt(pKey, i) * (hash_val >> 3)):
+                          (~((hash_val << 11) + (charAt(pKey, i) ^ (hash_val >> 5))));
     }
 
     return hash_val;
-- 
2.43.0


From b191db00edc4d4899a59562b20732195d9f14ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 48/54] fix: the letters of a characteristic depended on the
 locale

---
 include/eni/adt/StringHasher.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index 43054d3..3fd5a77 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -305,12 +305,12 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
         continue;
       }
 
-      if (isupper(cur_char)) {
+      if ('A' <= cur_char && cur_char <= 'Z') { //< not isupper: in any locale
         result |= (1 << (cur_char - 'A'));
         continue;
       }
 
-      if (islower(cur_char)) {
+      if ('a' <= cur_char && cur_char <= 'z') {
         result |= (1 << (cur_char - 'a'));
         continue;
       }
-- 
2.43.0


From 3e89f8b756257f6ac45562c376d57a5770edae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 49/54] fix: a request beyond max_size() wrapped round to a
 small block

---
 include/eni/support/MallocAllocator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/support/MallocAllocator.h b/include/eni/support/MallocAllocator.h
index 1a7b62a..bfe4584 100644
--- a/include/eni/support/MallocAllocator.h
+++ b/include/eni/support/MallocAllocator.h
@@ -50,6 +50,8 @@ public:
   pointer       address(reference       X) const { return &X; }
 
   pointer allocate(size_type pNumOfElements = 1, const void* pU = NULL) {
+    if (pNumOfElements > max_size()) //< the number of bytes does not fit
+      return NULL;
     return static_cast<pointer>(std::malloc(pNumOfElements*sizeof(DataType)));
   }
 
-- 
2.43.0


From 4332ae30200e4d7ab37a5c958e750c564f8c97c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 50/54] fix: let hex2str decode a string in place

It emptied the result before reading the digits, so that decoding a string into
itself read released contents and gave a string of NUL bytes.
---
 tools/eni_crypto/eni_crypto.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 3c29575..3670dfc 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -44,10 +44,11 @@ bool eni_crypto::hex2str(const std::string& pHex, std::string& pStr)
     return false;
   if (pHex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
     return false;
-  pStr.clear();
+  std::string str; //< pHex and pStr may be the same string
   std::string::const_iterator ic, end = pHex.end();
   for (ic = pHex.begin(); ic != end; ic += 2)
-    pStr.push_back((char)hex2digit(*ic, *(ic + 1)));
+    str.push_back((char)hex2digit(*ic, *(ic + 1)));
+  pStr.swap(str);
   return true;
 }
 
-- 
2.43.0


From 61927091427d9bbc29500573a9c74e0295e71a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:49 +0000
Subject: [PATCH 51/54] fix: include what the hash functions and the allocator
 use

uint32_t and ptrdiff_t were declared only when another header had been included
before.
---
 include/eni/adt/StringHasher.h        | 1 +
 include/eni/support/MallocAllocator.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index 3fd5a77..4ebace2 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -10,6 +10,7 @@
 #include <diagnostic/Exception.h>
 #include <string>
 #include <cctype>
+#include <cstdint>
 #include <cstring>
 #include <functional>
 
diff --git a/include/eni/support/MallocAllocator.h b/include/eni/support/MallocAllocator.h
index bfe4584..1f54898 100644
--- a/include/eni/support/MallocAllocator.h
+++ b/include/eni/support/MallocAllocator.h
@@ -7,6 +7,7 @@
 #ifndef ENI_SUPPORT_MALLOC_ALLOCATOR
 #define ENI_SUPPORT_MALLOC_ALLOCATOR
 
+#include <cstddef>
 #include <cstdlib>
 
 namespace eni {
-- 
2.43.0


From b64435c16279ca59eee344287fb6c28b53fc7385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:05 +0000
Subject: [PATCH 52/54] fix: let an array or object be assigned a part of
 itself

Assigning the contents of an element of an array, or of a member of an object, to
the array or object itself read contents that the assignment had released before.
---
 lib/json/Array.cpp  | 5 +++--
 lib/json/Object.cpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/json/Array.cpp b/lib/json/Array.cpp
index 6524df6..9181a4f 100644
--- a/lib/json/Array.cpp
+++ b/lib/json/Array.cpp
@@ -23,8 +23,9 @@ Array::~Array()
 
 Array& Array::operator=(const Array& pArray)
 {
-  eni::Vector<Value>::operator=(pArray);
-  Notation::operator=(pArray);
+  Array copy(pArray); //< pArray may be a part of this array
+  swap(copy);
+  Notation::operator=(copy);
   return *this;
 }
 
diff --git a/lib/json/Object.cpp b/lib/json/Object.cpp
index 0245afe..c54bfde 100644
--- a/lib/json/Object.cpp
+++ b/lib/json/Object.cpp
@@ -18,8 +18,8 @@ Object::Object(const Object& pCopy)
 
 Object& Object::operator=(const Object& pCopy)
 {
+  Notation::operator=(pCopy); //< first, pCopy may be a part of this object
   eni::StringMap<Value>::operator=(pCopy);
-  Notation::operator=(pCopy);
   return *this;
 }
 
-- 
2.43.0


From 10cbf5eabd8e095fc4ecd49c2df41ba39019cf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:11 +0000
Subject: [PATCH 53/54] fix: print 64-bit integers exactly in every locale

Their digits were grouped where the C++ locale of the process groups digits.
---
 lib/eni_types.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/eni_types.cpp b/lib/eni_types.cpp
index 7ad1006..bc3a736 100644
--- a/lib/eni_types.cpp
+++ b/lib/eni_types.cpp
@@ -15,8 +15,16 @@ std::string to_string(T pValue)
   return boost::lexical_cast<std::string, T>(pValue);
 }
 
+// full specialization
+template<>
+std::string to_string(eni::u64 pValue)
+{
+  // alone among these types it is printed as a built-in integer, whose digits
+  // are grouped in some locales
+  return boost::lexical_cast<std::string>(eni::u128(pValue));
+}
+
 // explicit instantiation
-template std::string to_string(eni::u64);
 template std::string to_string(eni::u128);
 template std::string to_string(eni::u160);
 template std::string to_string(eni::u256);
-- 
2.43.0


From 22eb8f454310fdbe6caedf26f1abca65faebbf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:43 +0000
Subject: [PATCH 54/54] fix: print hexadecimal digits alike in every locale

With a C++ locale that groups digits, the digits of RSA results and of scrypt
hashes could be separated.
---
 tools/eni_crypto/eni_crypto.cpp | 2 ++
 tools/eni_scrypt/eni_scrypt.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 3670dfc..8f255f4 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -5,6 +5,7 @@
 
 ==------------------------------------------------------------------------==*/
 #include "eni_crypto.h"
+#include <locale>
 #include <sstream>
 #include <vector>
 
@@ -30,6 +31,7 @@ bool eni_crypto::str2hex(const std::string& pStr, std::string& pHex)
 {
   std::ostringstream oss;
   oss.exceptions(std::ios::badbit); //< do not return a part of the digits
+  oss.imbue(std::locale::classic()); //< some locales group digits
   std::string::const_iterator ic, end = pStr.end();
   for (ic = pStr.begin(); ic != end; ++ic)
     oss << std::hex << std::setw(2) << std::setfill('0')
diff --git a/tools/eni_scrypt/eni_scrypt.cpp b/tools/eni_scrypt/eni_scrypt.cpp
index c309525..d913246 100644
--- a/tools/eni_scrypt/eni_scrypt.cpp
+++ b/tools/eni_scrypt/eni_scrypt.cpp
@@ -7,6 +7,7 @@
 #include <eni.h>
 #include <cstring>
 #include <cctype>
+#include <locale>
 #include "eni_scrypt.h"
 #include "scrypt.h"
 
@@ -55,6 +56,7 @@ bool Scrypt::run(json::Array& pRetVal)
   // hex output hash
   std::ostringstream oss;
   oss.exceptions(std::ios::badbit); //< do not return a part of the digits
+  oss.imbue(std::locale::classic()); //< some locales group digits
   for (int i = 0; i < 32; i++) {
     oss << std::hex << std::setw(2) << std::setfill('0') << (hash[i] & 0xff);
   }
-- 
2.43.0

