From 0b76f068ebd8b4dcfd0f86f21db92d414c0d4064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 01/39] fix: compare the scan position, not the pattern, with
 the end of the JSON text

'true' and 'false' were accepted or refused depending on where in memory
the text lay relative to the literal in the library.
---
 include/eni/json/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 20cd201..8231840 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -260,7 +260,7 @@ private:
   bool have(const char *pPat) {
     int i = 0;
     for(; pPat[i] != '\0'; ++i){
-      if((m_End <= pPat+i) || (pPat[i] != m_It[i])) return 0;
+      if((m_End <= m_It+i) || (pPat[i] != m_It[i])) return 0;
     }
     m_It += i;
     return 1;
-- 
2.43.0


From 10ce7c8b2c2dd02b9958f1cac227b165903d5162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 02/39] fix: refuse ENI arguments that are not a list

The argument text {} or "abc" was reinterpreted as an array.
---
 include/eni/eni.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 0153398..6c1c420 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -68,7 +68,7 @@ public:
 private:
   bool check(const json::Value& pArgs) {
     if (!m_Parsed) {
-      m_ParseSuccess = parse(pArgs.toArray());
+      m_ParseSuccess = pArgs.isArray() && parse(pArgs.toArray());
       m_Parsed = true;
     }
     return m_ParseSuccess;
-- 
2.43.0


From 96c85332478ba9699d2da20964b0c9bffda161cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 03/39] fix: give every run of an ENI operation an empty result
 list

A second start() on the same object returned the results of both runs.
---
 include/eni/eni.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 6c1c420..b267eae 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -57,6 +57,7 @@ public:
     if (!check(m_Args))
       return nullptr;
 
+    m_RetVals.asArray().clear();
     if (!run(m_RetVals.asArray()))
       return nullptr;
 
-- 
2.43.0


From 77c2e61a2226952087d006ea0daccb10e9dd7549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 04/39] fix: make the value of a failed subscript undefined

Value(UNDEF) converts the enumerator to int and builds the integer 5.
---
 lib/json/Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 1b428b9..8c7f2f9 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -14,7 +14,7 @@
 using namespace eni;
 using namespace json;
 
-static Value g_NullValue(UNDEF); // XXX
+static Value g_NullValue;
 
 Value::Value(const Value& pCopy)
   : Notation(pCopy) {
-- 
2.43.0


From eab5e2d84a3c5cbf222f495a62c680c2677e73b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 05/39] fix: quote and escape object keys when printing JSON

---
 lib/json/Object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/json/Object.cpp b/lib/json/Object.cpp
index 24c388c..0245afe 100644
--- a/lib/json/Object.cpp
+++ b/lib/json/Object.cpp
@@ -33,7 +33,8 @@ void Object::print(std::ostream& pOs) const {
       pOs << ',';
     else
       first = false;
-    pOs << it->key() << ':';
+    Value(it->key()).print(pOs);
+    pOs << ':';
     it->value().print(pOs);
   }
   pOs << '\n';
-- 
2.43.0


From b92030eadd38227d95be3c10ff3a405d8b25a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 06/39] fix: return the object from the assignment operators of
 StringMap

---
 include/eni/adt/StringMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/adt/StringMap.h b/include/eni/adt/StringMap.h
index 4ee8814..f755b85 100644
--- a/include/eni/adt/StringMap.h
+++ b/include/eni/adt/StringMap.h
@@ -49,10 +49,12 @@ public:
 
   StringMap& operator=(const StringMap& pCopy) {
     super::operator=(pCopy);
+    return *this;
   }
 
   StringMap& operator=(StringMap&& pOther) {
     super::operator=(pOther);
+    return *this;
   }
 
   value_type& at(const key_type& pKey) {
-- 
2.43.0


From 66dd63ebba39a7710e278c0ca2c5bc7f96b879b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 07/39] fix: return the iterator from PointerIterator's
 assignment

---
 include/eni/adt/bits/PointerIterator.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eni/adt/bits/PointerIterator.tcc b/include/eni/adt/bits/PointerIterator.tcc
index 5771e0a..9ee7eff 100644
--- a/include/eni/adt/bits/PointerIterator.tcc
+++ b/include/eni/adt/bits/PointerIterator.tcc
@@ -24,6 +24,7 @@ template<typename ItemType> typename PointerIterator<ItemType>::iterator&
 PointerIterator<ItemType>::operator=(const_iterator& pOther)
 {
   m_Ptr = pOther.m_Ptr;
+  return *this;
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::reference
-- 
2.43.0


From 027910e19f5d6900bd9e74e6ccea04d603459d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 08/39] fix: keep the contents of a hash table assigned to
 itself

---
 include/eni/adt/bits/HashTable.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 7a203c9..c7634fe 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -56,6 +56,8 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(const HashTable& pCopy)
 {
+  if (this == &pCopy)
+    return *this;
 
   internal::TableImpl<K, V, H>::operator=(pCopy);
 
-- 
2.43.0


From 0105a6e49c811269bd26a61a4de6319ea81af4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 09/39] fix: keep the copy of a hash table without buckets
 uninitialised

It held a zero-sized bucket array, and the next access divided by zero.
---
 include/eni/adt/bits/HashBase.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/eni/adt/bits/HashBase.tcc b/include/eni/adt/bits/HashBase.tcc
index 2b4a2a6..59e0276 100644
--- a/include/eni/adt/bits/HashBase.tcc
+++ b/include/eni/adt/bits/HashBase.tcc
@@ -63,6 +63,8 @@ TableImpl<K, V, H, E>::TableImpl(const TableImpl& pCopy)
     m_NumOfEntries(pCopy.m_NumOfEntries),
     m_NumOfTombstones(pCopy.m_NumOfTombstones) {
 
+  if (!pCopy.isInit())
+    return;
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
@@ -97,6 +99,8 @@ TableImpl<K, V, H, E>& TableImpl<K, V, H, E>::operator=(const TableImpl& pCopy)
   m_NumOfEntries = pCopy.m_NumOfEntries;
   m_NumOfTombstones = pCopy.m_NumOfTombstones;
 
+  if (!pCopy.isInit())
+    return *this;
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
-- 
2.43.0


From 77b9b7828eaf4da2a24a28f314fddd85cf929834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 10/39] fix: let chain iteration start on tables without the
 key

It divided by zero on a table without buckets, followed the null entry of
an empty bucket for keys whose hash is zero, and did not compile for
constant tables.
---
 include/eni/adt/bits/HashIterator.tcc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/eni/adt/bits/HashIterator.tcc b/include/eni/adt/bits/HashIterator.tcc
index 939e97a..8840e96 100644
--- a/include/eni/adt/bits/HashIterator.tcc
+++ b/include/eni/adt/bits/HashIterator.tcc
@@ -16,14 +16,19 @@ ChainIterBase<HT>::ChainIterBase()
 template<typename HT>
 ChainIterBase<HT>::ChainIterBase(HT* pTable, const key_type& pKey)
   : m_pHashTable(pTable) {
+  if (0 == m_pHashTable->numOfBuckets()) {
+    reset();
+    return;
+  }
   typename HT::hasher_type hasher;
   m_HashValue = hasher(pKey);
   m_EndIndex = m_Index = m_HashValue % m_pHashTable->numOfBuckets();
   const unsigned int probe = 1;
   while(true) {
-    bucket_type &bucket = m_pHashTable->bucket(m_Index);
-    if (hash_table::Tombstone() == bucket.entry) {
-      // Ignore tombstones.
+    const bucket_type &bucket = m_pHashTable->bucket(m_Index);
+    if (hash_table::Tombstone() == bucket.entry ||
+        hash_table::EmptyBucket() == bucket.entry) {
+      // Ignore tombstones and empty buckets.
     }
     else if (m_HashValue == bucket.hash) {
       if (bucket.entry->key() == pKey) {
-- 
2.43.0


From 8a86237091fa6dd08439300017df53fa4da5577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 11/39] fix: let HashTable::count() count the entries of the
 key only

A chain also visits other keys with the same hash value.
---
 include/eni/adt/bits/HashTable.tcc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index c7634fe..2a2a2f2 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -190,11 +190,7 @@ template<typename K, typename V, typename H,
 typename HashTable<K, V, H, E, A>::size_type
 HashTable<K, V, H, E, A>::count(const key_type& pKey) const
 {
-  const_chain_iterator bucket, bEnd = end(pKey);
-  size_type count = 0;
-  for (bucket = begin(pKey); bucket != bEnd; ++bucket)
-    ++count;
-  return count;
+  return (-1 == super::findKey(pKey)) ? 0 : 1;
 }
 
 template<typename K, typename V, typename H,
-- 
2.43.0


From a373a8b8eb5968820652edad4d8843c33c2cd231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 12/39] fix: make hash table iterators dereferenceable

The iterator implementations have no operator->().
---
 include/eni/adt/HashIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/HashIterator.h b/include/eni/adt/HashIterator.h
index fc29f55..36d7256 100644
--- a/include/eni/adt/HashIterator.h
+++ b/include/eni/adt/HashIterator.h
@@ -176,8 +176,8 @@ public:
 
   /// @name C++ Iterator (dereferenceable)
   /// @{
-  const_reference operator*() const { return *m_Impl.operator->(); }
-  reference       operator*()       { return *m_Impl.operator->(); }
+  const_reference operator*() const { return *m_Impl.getEntry(); }
+  reference       operator*()       { return *m_Impl.getEntry(); }
   /// @}
 
   /// @name C++ Iterator (incrementable)
-- 
2.43.0


From 9e47baec580e2d675d222f64b0e3a00ec397ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 13/39] fix: never rehash to fewer buckets than the entries
 need

rehash(0) divided by zero, and rehash(n) to at most the number of entries
never returned or made later look-ups endless.
---
 include/eni/adt/bits/HashTable.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 2a2a2f2..457928e 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -211,6 +211,9 @@ template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 void HashTable<K, V, H, E, A>::rehash(size_type pCount)
 {
+  // keep at least one empty bucket, which every look-up needs to terminate
+  if (pCount <= super::m_NumOfEntries)
+    pCount = super::m_NumOfEntries + 1;
   super::doRehash(pCount);
 }
 
-- 
2.43.0


From 9a910c2724f0780e47b3d72cbc355ec346475c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 14/39] fix: store the full length of string keys

Keys of 65536 bytes and more were read back truncated.
---
 include/eni/adt/StringHashTable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHashTable.h b/include/eni/adt/StringHashTable.h
index 138b396..05c5a86 100644
--- a/include/eni/adt/StringHashTable.h
+++ b/include/eni/adt/StringHashTable.h
@@ -45,7 +45,7 @@ public:
 protected:
   value_type m_Value;
 
-  uint16_t m_KeyLen;
+  size_t m_KeyLen;
 
   char m_Key[];
 };
-- 
2.43.0


From 2f39859784dc950bb66b615769cb57dac7c0b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 15/39] fix: allow erasing a vector's last element

---
 include/eni/adt/bits/Vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 05b6c30..0506b6e 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -342,7 +342,7 @@ Vector<ElementType>::erase(size_type pIndex)
 template<class ElementType> void
 Vector<ElementType>::erase(size_type pFirst, size_type pLast)
 {
-  if (0 > pFirst || pFirst >= pLast || pLast >= size())
+  if (0 > pFirst || pFirst >= pLast || pLast > size())
     throw OutOfRange<InvalidVectorIndex>();
   size_type eraseSize = pLast - pFirst;
   std::copy(m_Data + pLast, m_Data + size(), m_Data + pFirst);
-- 
2.43.0


From 79187685c84b02c2d8c130df9e12bc0e9225b4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 16/39] fix: report the number of elements a vector can hold as
 max_size

reserve() overflowed the byte count for larger requests.
---
 include/eni/adt/bits/Vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 0506b6e..9d9e0a8 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -97,7 +97,7 @@ Vector<ElementType>::size() const
 template<class ElementType> typename Vector<ElementType>::size_type
 Vector<ElementType>::max_size() const
 {
-  return std::numeric_limits<size_t>::max();
+  return std::numeric_limits<difference_type>::max() / sizeof(ElementType);
 }
 
 template<class ElementType> void
-- 
2.43.0


From 10522cd26ab96064bf2fcce6b74542b9e38c1bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 17/39] fix: refuse to insert more elements than a vector can
 hold

The sum of the sizes wrapped around, and memory before the vector was
overwritten.
---
 include/eni/adt/bits/Vector.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 9d9e0a8..a158133 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -290,6 +290,8 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   if (0 > pIndex || pIndex > size()) {
     throw OutOfRange<InvalidVectorIndex>();
   }
+  if (pSize > max_size() - size())
+    throw LengthError<InvalidVectorSize>();
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
-- 
2.43.0


From 9fd344d92f1c97b7f7e4ff4ba422cece67f93924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 18/39] fix: report missing memory in the constructors of
 Vector

They wrote through the null pointer that calloc() returned.
---
 include/eni/adt/Vector.h        |  3 +++
 include/eni/adt/bits/Vector.tcc | 19 ++++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/eni/adt/Vector.h b/include/eni/adt/Vector.h
index 02c153b..c2697da 100644
--- a/include/eni/adt/Vector.h
+++ b/include/eni/adt/Vector.h
@@ -104,6 +104,9 @@ public:
   void swap(Vector& pOther);
   void clear();
 
+private:
+  static pointer allocate(size_type pSize);
+
 private:
   pointer m_Data;
   size_type m_DataSize;
diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index a158133..eeda303 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -13,37 +13,46 @@ Vector<ElementType>::Vector()
 template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize)
   : m_DataSize(pSize), m_AllocSize(pSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
+  m_Data = allocate(m_DataSize);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize, const_reference pValue)
   : m_DataSize(pSize), m_AllocSize(pSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
+  m_Data = allocate(m_DataSize);
   std::fill_n(m_Data, m_DataSize, pValue);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(const std_vector& pVector)
   : m_DataSize(pVector.size()), m_AllocSize(pVector.size()) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
+  m_Data = allocate(m_DataSize);
   std::copy(pVector.begin(), pVector.end(), m_Data);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(const Vector& pOther)
   : m_DataSize(pOther.m_DataSize), m_AllocSize(pOther.m_DataSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
+  m_Data = allocate(m_DataSize);
   std::copy(pOther.begin(), pOther.end(), m_Data);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(initializer_list pIList)
   : m_DataSize(pIList.size()), m_AllocSize(pIList.size()) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
+  m_Data = allocate(m_DataSize);
   std::copy(pIList.begin(), pIList.end(), m_Data);
 }
 
+template<class ElementType> typename Vector<ElementType>::pointer
+Vector<ElementType>::allocate(size_type pSize)
+{
+  pointer ptr = (ElementType*)std::calloc(pSize, sizeof(ElementType));
+  if (nullptr == ptr && 0 != pSize) //< not enough memory
+    throw BadAlloc<NoMemory>();
+  return ptr;
+}
+
 template<class ElementType>
 Vector<ElementType>::~Vector()
 {
-- 
2.43.0


From a81805992850928aa05e7a58d0c23b1d65c769bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 19/39] fix: value-initialise the elements of a vector of a
 given size

JSON values were left as integers without storage.
---
 include/eni/adt/bits/Vector.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index eeda303..301df17 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -14,6 +14,7 @@ template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize)
   : m_DataSize(pSize), m_AllocSize(pSize) {
   m_Data = allocate(m_DataSize);
+  std::fill_n(m_Data, m_DataSize, value_type());
 }
 
 template<class ElementType>
-- 
2.43.0


From 8b2db060daa241512b6b2114bd05d673a2fd2fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 20/39] fix: accept elements of the same vector as operands

push_back(), insert(), resize() and assign() read the operand after the
storage had been reallocated or shifted.
---
 include/eni/adt/bits/Vector.tcc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 301df17..460ead0 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -119,9 +119,10 @@ Vector<ElementType>::resize(size_type pSize)
 template<class ElementType> void
 Vector<ElementType>::resize(size_t pSize, const ElementType& pValue)
 {
+  const value_type value(pValue); //< pValue may be an element of this vector
   reserve(pSize);
   if (pSize > m_DataSize)
-    std::fill_n(end(), pSize - m_DataSize, pValue);
+    std::fill_n(end(), pSize - m_DataSize, value);
   m_DataSize = pSize;
 }
 
@@ -218,8 +219,9 @@ Vector<ElementType>::data()
 template<class ElementType> void
 Vector<ElementType>::assign(size_type pSize, const_reference pValue)
 {
+  const value_type value(pValue); //< pValue may be an element of this vector
   resize(pSize);
-  std::fill_n(m_Data, pSize, pValue);
+  std::fill_n(m_Data, pSize, value);
 }
 
 template<class ElementType> void
@@ -238,8 +240,9 @@ Vector<ElementType>::assign(initializer_list pIList)
 template<class ElementType> void
 Vector<ElementType>::push_back(const_reference pValue)
 {
+  const value_type value(pValue); //< pValue may be an element of this vector
   reserve(size() + 1);
-  m_Data[m_DataSize++] = pValue;
+  m_Data[m_DataSize++] = value;
 }
 
 template<class ElementType> typename Vector<ElementType>::value_type
@@ -252,8 +255,7 @@ template<class ElementType>
 template<class ...Args> void
 Vector<ElementType>::emplace_back(Args&& ...pArgs)
 {
-  reserve(size() + 1);
-  m_Data[m_DataSize++] = *(new ElementType(std::forward<Args>(pArgs)...));
+  push_back(ElementType(std::forward<Args>(pArgs)...));
 }
 
 template<class ElementType> typename Vector<ElementType>::iterator
@@ -302,11 +304,12 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   }
   if (pSize > max_size() - size())
     throw LengthError<InvalidVectorSize>();
+  const value_type value(pValue); //< pValue may be an element of this vector
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
   std::copy_backward(ptr, end - pSize, end);
-  std::fill_n(ptr, pSize, pValue);
+  std::fill_n(ptr, pSize, value);
 }
 
 template<class ElementType> void
-- 
2.43.0


From 04d02f618318ad69bf885648736cd0af8036de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 21/39] fix: let scrypt refuse missing and non-string arguments

---
 tools/eni_scrypt/eni_scrypt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/eni_scrypt/eni_scrypt.cpp b/tools/eni_scrypt/eni_scrypt.cpp
index 7f543a5..404c91d 100644
--- a/tools/eni_scrypt/eni_scrypt.cpp
+++ b/tools/eni_scrypt/eni_scrypt.cpp
@@ -12,6 +12,8 @@
 
 bool Scrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 1 || !pArgs[0].isString())
+    return false;
   m_Str = pArgs[0].toString();
 
   // input validation
-- 
2.43.0


From eead226e0f588a958599562eccbd1316740282cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 22/39] fix: let the RSA operations refuse missing and
 non-string arguments

---
 tools/eni_crypto/eni_crypto.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 6873873..5c0aa13 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -132,6 +132,8 @@ bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 ==------------------------------------------------------------------------==*/
 bool RSAEncrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_pubkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
@@ -161,6 +163,8 @@ bool RSAEncrypt::run(json::Array& pRetVal)
 ==------------------------------------------------------------------------==*/
 bool RSADecrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_privkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
-- 
2.43.0


From ed4ca42ce451b18447141f6708b39b362df9ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 23/39] fix: decode upper-case hexadecimal digits and refuse
 other characters

---
 tools/eni_crypto/eni_crypto.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 5c0aa13..ef19e70 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -17,9 +17,15 @@ using namespace eni_crypto;
 /*==------------------------------------------------------------------------==
   Helper functions
 ==------------------------------------------------------------------------==*/
-static inline unsigned char hex2digit(char h1, char h0)
-{
-  auto h2d = [](char h) { return (h < 'a') ? (h - '0') : (h - 'a' + 10); };
+static inline int hex2digit(char h1, char h0)
+{
+  auto h2d = [](char h) {
+    return ('0' <= h && h <= '9') ? (h - '0') :
+           ('a' <= h && h <= 'f') ? (h - 'a' + 10) :
+           ('A' <= h && h <= 'F') ? (h - 'A' + 10) : -1;
+  };
+  if (h2d(h1) < 0 || h2d(h0) < 0)
+    return -1;
   return h2d(h1) * 16 + h2d(h0);
 }
 
@@ -40,8 +46,12 @@ bool eni_crypto::hex2str(const std::string& pHex, std::string& pStr)
     return false;
   pStr.clear();
   std::string::const_iterator ic, end = pHex.end();
-  for (ic = pHex.begin(); ic != end; ic += 2)
-    pStr.push_back((char)hex2digit(*ic, *(ic + 1)));
+  for (ic = pHex.begin(); ic != end; ic += 2) {
+    int digit = hex2digit(*ic, *(ic + 1));
+    if (digit < 0)
+      return false;
+    pStr.push_back((char)digit);
+  }
   return true;
 }
 
-- 
2.43.0


From 89f6d17bb7a793a1bd97c2cd4a5ff491980544de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 24/39] fix: stop at the end of the buffer when a decrypted
 message fills it

A message as long as the modulus has no terminating zero byte.
---
 tools/eni_crypto/eni_crypto.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index ef19e70..044af04 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -103,7 +103,8 @@ bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
+  std::string result(reinterpret_cast<const char*>(decrypted),
+    ::strnlen(reinterpret_cast<const char*>(decrypted), len));
   pResult.assign(result.c_str(), result.length());
   return true;
 }
@@ -132,7 +133,8 @@ bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
+  std::string result(reinterpret_cast<const char*>(decrypted),
+    ::strnlen(reinterpret_cast<const char*>(decrypted), len));
   pResult.assign(result.c_str(), result.length());
   return true;
 }
-- 
2.43.0


From 50283674793b4c2aec3d30528682f8d0ac82b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 25/39] fix: refuse to encrypt messages longer than the RSA
 modulus

Only their first bytes were encrypted.
---
 tools/eni_crypto/eni_crypto.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 044af04..92cda34 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -82,6 +82,8 @@ void rsa::destroy(RSA*& pKey)
 bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
+  if (pMsg.length() > size)
+    return false;
   unsigned char* encrypted = new unsigned char[size];
   std::string message(pMsg);
   if (message.length() < size)
@@ -112,6 +114,8 @@ bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
+  if (pMsg.length() > size)
+    return false;
   unsigned char* encrypted = new unsigned char[size];
   std::string message(pMsg);
   if (message.length() < size)
-- 
2.43.0


From c2d573751c53f8f7035db37f0919f72bbaf0bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 26/39] fix: saturate the dot count of the character-set hash

More than 15 dots overflowed the four bits, so a string looked like it
could not include its own substrings.
---
 include/eni/adt/StringHasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index 2846d56..a4c116d 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -307,7 +307,7 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
         continue;
       }
     }
-    result |= (dot << 28);
+    result |= ((dot < 15 ? dot : 15) << 28); //< saturate in the four bits
     return result;
   }
 
-- 
2.43.0


From 0daf661658268fe20db2031f93b8ce26344ac6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 27/39] fix: release the gas result with free()

ENI_GAS allocates it with malloc().
---
 tools/eni_cli/eni_gas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/eni_cli/eni_gas.cpp b/tools/eni_cli/eni_gas.cpp
index 0504115..403ac76 100644
--- a/tools/eni_cli/eni_gas.cpp
+++ b/tools/eni_cli/eni_gas.cpp
@@ -35,6 +35,6 @@ int main(int argc, char* argv[])
   ::dlclose(handle);
 
   std::cout << *gas << std::endl;
-  delete gas;
+  ::free(gas);
   return ExitSuccess;
 }
-- 
2.43.0


From 3275e1dd3431e0a2520dbf9ed57d3c61a3527010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 28/39] fix: do not add members to an object that is only read

---
 lib/json/Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 8c7f2f9..8b12e45 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -198,7 +198,7 @@ Value& Value::operator=(const Value& pCopy)
 const Value& Value::operator[](const std::string &key) const
 {
   if (m_Type == OBJECT) {
-    return (*m_Value.object_p)[key];
+    return toObject()[key];
   }
   return g_NullValue;
 }
-- 
2.43.0


From 6b6bfe43319da57c51c8c39367175fb5e85dc9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 29/39] fix: copy the contents before the type when assigning
 values

---
 lib/json/Value.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 8b12e45..aee84ef 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -168,8 +168,8 @@ void Value::printValue(std::ostream &os) const
 
 Value& Value::operator=(const Value& pCopy)
 {
-  Notation::operator=(pCopy);
-  switch (this->type()) {
+  // change the type last, for the source may hold this value
+  switch (pCopy.type()) {
     case INT:
       m_Value.int_p = new eni::s256(*pCopy.m_Value.int_p);
       break;
@@ -188,6 +188,7 @@ Value& Value::operator=(const Value& pCopy)
     case UNDEF:
       break;
   }
+  Notation::operator=(pCopy);
   return *this;
 }
 
-- 
2.43.0


From 434312e371d657cc896f0573188a3c0a05ce976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 30/39] fix: never ask for the passphrase of a key

---
 tools/eni_crypto/eni_crypto.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 92cda34..d817470 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -55,12 +55,18 @@ bool eni_crypto::hex2str(const std::string& pHex, std::string& pStr)
   return true;
 }
 
+// an operation must not ask for the passphrase of an encrypted key
+static int no_passphrase(char*, int, int, void*)
+{
+  return -1;
+}
+
 RSA* rsa::create_pubkey(const std::string& pPemStr)
 {
   BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
   if (NULL == bio)
     return NULL;
-  RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, NULL, NULL);
+  RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, no_passphrase, NULL);
   return key;
 }
 
@@ -69,7 +75,7 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
   BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
   if (NULL == bio)
     return NULL;
-  RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, NULL, NULL);
+  RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, no_passphrase, NULL);
   return key;
 }
 
-- 
2.43.0


From bb8a4e1daf1e1f082f1aa221bacba4f1993d8350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 31/39] fix: one parser error type in all libraries

The type was in an anonymous namespace of the header, so every library had
its own, while they share the parser's functions: a library that includes
the parser threw one type and caught another, and malformed text ended the
process with an uncaught exception.
---
 include/eni/json/Parser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 8231840..cf6bcb1 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -30,11 +30,11 @@
 #include <string>
 #include <vector>
 
-namespace {
+namespace json {
+// one type for all libraries in a process: it may be thrown in one of them and
+// caught in another
 class ParserError{};
-}
 
-namespace json {
 // the JSON parser for only JSON text in memory
 // read/write files is not supported yet
 using std::vector;
-- 
2.43.0


From c7f53b75cfa2bb9779da3eb3f38bcd9893ee3238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 32/39] fix: report output that could not be written

eni_run and eni_gas ended with status 0 although nothing was printed, for
example on a full device.
---
 tools/eni_cli/eni_gas.cpp | 2 +-
 tools/eni_cli/eni_run.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/eni_cli/eni_gas.cpp b/tools/eni_cli/eni_gas.cpp
index 403ac76..28c248a 100644
--- a/tools/eni_cli/eni_gas.cpp
+++ b/tools/eni_cli/eni_gas.cpp
@@ -36,5 +36,5 @@ int main(int argc, char* argv[])
 
   std::cout << *gas << std::endl;
   ::free(gas);
-  return ExitSuccess;
+  return std::cout ? ExitSuccess : ExitFailure;
 }
diff --git a/tools/eni_cli/eni_run.cpp b/tools/eni_cli/eni_run.cpp
index c26ee90..d54dd45 100644
--- a/tools/eni_cli/eni_run.cpp
+++ b/tools/eni_cli/eni_run.cpp
@@ -36,5 +36,5 @@ int main(int argc, char* argv[])
 
   std::cout << str << std::endl;
   ::free(str);
-  return ExitSuccess;
+  return std::cout ? ExitSuccess : ExitFailure;
 }
-- 
2.43.0


From abd75db2b594997e07c299bfe670afa2f91fa951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 33/39] fix: print hexadecimal digits the same way under every
 locale

---
 tools/eni_crypto/eni_crypto.cpp | 1 +
 tools/eni_scrypt/eni_scrypt.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index d817470..285b27d 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -32,6 +32,7 @@ static inline int hex2digit(char h1, char h0)
 bool eni_crypto::str2hex(const std::string& pStr, std::string& pHex)
 {
   std::ostringstream oss;
+  oss.imbue(std::locale::classic());
   std::string::const_iterator ic, end = pStr.end();
   for (ic = pStr.begin(); ic != end; ++ic)
     oss << std::hex << std::setw(2) << std::setfill('0')
diff --git a/tools/eni_scrypt/eni_scrypt.cpp b/tools/eni_scrypt/eni_scrypt.cpp
index 404c91d..6b43176 100644
--- a/tools/eni_scrypt/eni_scrypt.cpp
+++ b/tools/eni_scrypt/eni_scrypt.cpp
@@ -54,6 +54,7 @@ bool Scrypt::run(json::Array& pRetVal)
 
   // hex output hash
   std::ostringstream oss;
+  oss.imbue(std::locale::classic());
   for (int i = 0; i < 32; i++) {
     oss << std::hex << std::setw(2) << std::setfill('0') << (hash[i] & 0xff);
   }
-- 
2.43.0


From 1762c84373051533abef8b91e2ef1338388c3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 34/39] fix: hash tables keep the buckets of an emptied table
 and, when assigned, their old entries

---
 include/eni/adt/bits/HashTable.tcc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 457928e..7de387f 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -59,6 +59,7 @@ HashTable<K, V, H, E, A>::operator=(const HashTable& pCopy)
   if (this == &pCopy)
     return *this;
 
+  HashTable old(std::move(*this)); //< released last, for it may hold pCopy
   internal::TableImpl<K, V, H>::operator=(pCopy);
 
   // for all entries in pCopy, allocate an entry.
@@ -81,6 +82,10 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(HashTable&& pOther)
 {
+  if (this == &pOther)
+    return *this;
+
+  HashTable old(std::move(*this)); //< released last, for it may hold pOther
   internal::TableImpl<K, V, H>::operator=(std::move(pOther));
   if (std::is_move_assignable<allocator_type>::value)
     m_EntryAlloc = std::move(pOther.m_EntryAlloc);
@@ -91,7 +96,7 @@ template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 void HashTable<K, V, H, E, A>::clear()
 {
-  if (empty())
+  if (!super::isInit())
     return;
 
   /** clean up **/
-- 
2.43.0


From bf38247e41341b2867ca2b0fa0a1b71f1312b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 35/39] fix: reading a key keeps the BIO it was read from

---
 tools/eni_crypto/eni_crypto.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 285b27d..adf0e17 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -68,6 +68,7 @@ RSA* rsa::create_pubkey(const std::string& pPemStr)
   if (NULL == bio)
     return NULL;
   RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, no_passphrase, NULL);
+  BIO_free(bio);
   return key;
 }
 
@@ -77,6 +78,7 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
   if (NULL == bio)
     return NULL;
   RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, no_passphrase, NULL);
+  BIO_free(bio);
   return key;
 }
 
-- 
2.43.0


From a65c6e4ac2fe8386d10d839614c1b5c22179bb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 36/39] fix: RSA encryption and decryption never release their
 buffers

---
 tools/eni_crypto/eni_crypto.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index adf0e17..f79dc33 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -6,6 +6,7 @@
 ==------------------------------------------------------------------------==*/
 #include "eni_crypto.h"
 #include <sstream>
+#include <vector>
 
 extern "C" {
 #include <openssl/pem.h>
@@ -93,7 +94,8 @@ bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
   int size = ::RSA_size(&pKey);
   if (pMsg.length() > size)
     return false;
-  unsigned char* encrypted = new unsigned char[size];
+  std::vector<unsigned char> buffer(size);
+  unsigned char* encrypted = buffer.data();
   std::string message(pMsg);
   if (message.length() < size)
       message.append(size - message.length(), '\0');
@@ -108,7 +110,8 @@ bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 
 bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  unsigned char* decrypted = new unsigned char[::RSA_size(&pKey)];
+  std::vector<unsigned char> buffer(::RSA_size(&pKey));
+  unsigned char* decrypted = buffer.data();
   int len = ::RSA_public_decrypt(pMsg.length(),
     reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted, &pKey,
     RSA_NO_PADDING);
@@ -125,7 +128,8 @@ bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
   int size = ::RSA_size(&pKey);
   if (pMsg.length() > size)
     return false;
-  unsigned char* encrypted = new unsigned char[size];
+  std::vector<unsigned char> buffer(size);
+  unsigned char* encrypted = buffer.data();
   std::string message(pMsg);
   if (message.length() < size)
       message.append(size - message.length(), '\0');
@@ -140,7 +144,8 @@ bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 
 bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  unsigned char* decrypted = new unsigned char[::RSA_size(&pKey)];
+  std::vector<unsigned char> buffer(::RSA_size(&pKey));
+  unsigned char* decrypted = buffer.data();
   int len = ::RSA_private_decrypt(pMsg.length(),
     reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted, &pKey,
     RSA_NO_PADDING);
-- 
2.43.0


From 9bf84f7c5fc5a1e7bf700d9b8acd7b16c600c7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 37/39] fix: print integers in decimal, whatever the settings
 of the stream

---
 lib/json/Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index aee84ef..9574221 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -125,7 +125,7 @@ void Value::print(std::ostream &os) const
 {
   switch (this->type()) {
     case INT:
-      os << *m_Value.int_p;
+      os << m_Value.int_p->str();
       break;
     case BOOL:
       os << (m_Value.bool_p? "true": "false");
-- 
2.43.0


From b87bfc65a892df007dc9f729d993e13dd05556d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:59 +0000
Subject: [PATCH 38/39] fix: allocate no storage for more elements than memory
 can hold

---
 include/eni/support/MallocAllocator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/support/MallocAllocator.h b/include/eni/support/MallocAllocator.h
index 1a7b62a..5614a69 100644
--- a/include/eni/support/MallocAllocator.h
+++ b/include/eni/support/MallocAllocator.h
@@ -50,6 +50,8 @@ public:
   pointer       address(reference       X) const { return &X; }
 
   pointer allocate(size_type pNumOfElements = 1, const void* pU = NULL) {
+    if (pNumOfElements > max_size())
+      return NULL;
     return static_cast<pointer>(std::malloc(pNumOfElements*sizeof(DataType)));
   }
 
-- 
2.43.0


From 640ceeec8d8feabfd5b2307ab4e2a1c98b103cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:05 +0000
Subject: [PATCH 39/39] fix: string hashes do not depend on whether characters
 are signed

Objects are printed in the order of the hashes, so a node whose compiler has
unsigned characters printed members with non-ASCII names in another order.
---
 include/eni/adt/StringHasher.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index a4c116d..170b720 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -57,7 +57,7 @@ struct StringHasher<RS> : public std::unary_function<const std::string&, uint32_
     uint32_t hash_val = 0;
 
     for(unsigned int i = 0; i < pKey.size(); ++i) {
-      hash_val = hash_val * a + pKey[i];
+      hash_val = hash_val * a + (signed char)pKey[i];
       a = a * b;
     }
     return hash_val;
@@ -75,7 +75,7 @@ struct StringHasher<JS> : public std::unary_function<const std::string&, uint32_
     uint32_t hash_val = 1315423911;
 
     for(unsigned int i = 0; i < pKey.size(); ++i) {
-       hash_val ^= ((hash_val << 5) + pKey[i] + (hash_val >> 2));
+       hash_val ^= ((hash_val << 5) + (signed char)pKey[i] + (hash_val >> 2));
     } 
     return hash_val;
   }
@@ -97,7 +97,7 @@ struct StringHasher<PJW> : public std::unary_function<const std::string&, uint32
     uint32_t test = 0;
 
     for(unsigned int i = 0; i < pKey.size(); ++i) {
-      hash_val = (hash_val << OneEighth) + pKey[i];
+      hash_val = (hash_val << OneEighth) + (signed char)pKey[i];
 
       if((test = hash_val & HighBits) != 0) {
         hash_val = (( hash_val ^ (test >> ThreeQuarters)) & (~HighBits));
@@ -119,7 +119,7 @@ struct StringHasher<ELF> : public std::unary_function<const std::string&, uint32
     uint32_t x = 0;
 
     for (unsigned int i = 0; i < pKey.size(); ++i) {
-      hash_val = (hash_val << 4) + pKey[i];
+      hash_val = (hash_val << 4) + (signed char)pKey[i];
       if((x = hash_val & 0xF0000000L) != 0)
         hash_val ^= (x >> 24); 
       hash_val &= ~x;
@@ -140,7 +140,7 @@ struct StringHasher<BKDR> : public std::unary_function<const std::string&, uint3
     uint32_t hash_val = 0;
 
     for(uint32_t i = 0; i < pKey.size(); ++i)
-      hash_val = (hash_val * seed) + pKey[i];
+      hash_val = (hash_val * seed) + (signed char)pKey[i];
     return hash_val;
   }
 };
@@ -158,7 +158,7 @@ struct StringHasher<SDBM> : public std::unary_function<const std::string&, uint3
     uint32_t hash_val = 0;
 
     for(uint32_t i = 0; i < pKey.size(); ++i)
-      hash_val = pKey[i] + (hash_val << 6) + (hash_val << 16) - hash_val;
+      hash_val = (signed char)pKey[i] + (hash_val << 6) + (hash_val << 16) - hash_val;
     return hash_val;
   }
 };
@@ -175,7 +175,7 @@ struct StringHasher<DJB> : public std::unary_function<const std::string&, uint32
     uint32_t hash_val = 5381;
 
     for(uint32_t i = 0; i < pKey.size(); ++i)
-      hash_val = ((hash_val << 5) + hash_val) + pKey[i];
+      hash_val = ((hash_val << 5) + hash_val) + (signed char)pKey[i];
 
     return hash_val;
   }
@@ -193,7 +193,7 @@ struct StringHasher<DEK> : public std::unary_function<const std::string&, uint32
     uint32_t hash_val = pKey.size();
 
     for(uint32_t i = 0; i < pKey.size(); ++i)
-      hash_val = ((hash_val << 5) ^ (hash_val >> 27)) ^ pKey[i];
+      hash_val = ((hash_val << 5) ^ (hash_val >> 27)) ^ (signed char)pKey[i];
 
     return hash_val;
   }
@@ -210,7 +210,7 @@ struct StringHasher<BP> : public std::unary_function<const std::string&, uint32_
   {
     uint32_t hash_val = 0;
     for(uint32_t i = 0; i < pKey.size(); ++i)
-      hash_val = hash_val << 7 ^ pKey[i];
+      hash_val = hash_val << 7 ^ (signed char)pKey[i];
 
     return hash_val;
   }
@@ -229,7 +229,7 @@ struct StringHasher<FNV> : public std::unary_function<const std::string&, uint32
     uint32_t hash_val = 0;
     for(uint32_t i = 0; i < pKey.size(); ++i) {
       hash_val *= fnv_prime;
-      hash_val ^= pKey[i];
+      hash_val ^= (signed char)pKey[i];
     }
 
     return hash_val;
@@ -249,8 +249,8 @@ struct StringHasher<AP> : public std::unary_function<const std::string&, uint32_
 
     for(uint32_t i = 0; i < pKey.size(); ++i) {  
       hash_val ^= ((i & 1) == 0)?
-                          ((hash_val <<  7) ^ pKey[i] * (hash_val >> 3)):
-                          (~((hash_val << 11) + (pKey[i] ^ (hash_val >> 5))));
+                          ((hash_val <<  7) ^ (signed char)pKey[i] * (hash_val >> 3)):
+                          (~((hash_val << 11) + ((signed char)pKey[i] ^ (hash_val >> 5))));
     }
 
     return hash_val;
-- 
2.43.0

