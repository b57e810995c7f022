From 6513e121ef39673ccf8a9d9f686a83702fd26e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:29 +0000
Subject: [PATCH 01/60] fix: dereference neither writes through a view nor
 returns a released element

---
 lube/var.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 0d0764c..67fe698 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1276,11 +1276,15 @@ var& var::dereference()
     var& r = varderef();
     if (&r != this)
     {
-        // Set mType to not-a-reference, then let operator=() do the
-        // housekeeping
-        mType = 0;
-        *this = r;
-        return r;
+        // Take over the value.  Not via operator=(), which could take this
+        // for an assignment to a view.
+        IHeap* tmp = mData.hp;
+        mData = r.mData;
+        mType = r.mType;
+        attach();
+
+        // If this was the last handle on the array then r went with it
+        return detach(tmp) ? r : *this;
     }
     else
     {
-- 
2.43.0


From d54d0fb3ca841d0da1f666697c69cd9883197942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 02/60] fix: compare undefined values without dereferencing a
 null heap

---
 lube/var.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 67fe698..b7991f5 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -514,6 +514,9 @@ bool var::operator !=(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        // Undefined values have no heap, and are equal only to each other
+        if (!heap() || !iVar.heap())
+            return heap() || iVar.heap();
         return heap()->neq(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() != iVar.get<char>());
@@ -551,6 +554,9 @@ bool var::operator <(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        // Undefined values have no heap, and are less than any array
+        if (!heap() || !iVar.heap())
+            return !heap() && iVar.heap();
         return heap()->lt(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() < iVar.get<char>());
-- 
2.43.0


From eb7b84c45dbb0a0eca77c0dee742b0065e3123d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:17 +0000
Subject: [PATCH 03/60] fix: comparison of arrays and complex numbers is a
 total order consistent with equality

---
 lube/heap.cpp | 54 +++++++++++++++++++++++++++++++++++++++++++--------
 lube/heap.h   | 16 +++++++++++++++
 lube/var.cpp  |  4 ++--
 3 files changed, 64 insertions(+), 10 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index cd160cf..9829165 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -447,21 +447,59 @@ var& Heap::key(int iIndex)
 
 bool Heap::neq(IHeap* iHeap)
 {
-    for (int i=0; i<mSize; i++)
-        if (at(i) != iHeap->at(i))
-            return true;
+    if (type() != iHeap->type())
+        return true;
+    for (int i=0; i<size(); i++)
+        switch (type())
+        {
+        case TYPE_CDOUBLE:
+            // These become arrays when put in a var
+            if (*ptrcdouble(i) != *iHeap->ptrcdouble(i))
+                return true;
+            break;
+        case TYPE_PAIR:
+            if (key(i) != iHeap->key(i))
+                return true;
+            // fall through
+        default:
+            if (at(i) != iHeap->at(i))
+                return true;
+        }
     return false;
 }
 
 
+/**
+ * Lexicographic order.  Where all common elements are the same, the shorter
+ * array comes first; failing that it's the order of the types.
+ */
 bool Heap::lt(IHeap* iHeap)
 {
-    if ( (mType == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
-        return (std::strcmp(ptrchar(), iHeap->ptrchar()) < 0);
+    if ( (type() == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
+    {
+        int cmp = std::memcmp(
+            ptrchar(), iHeap->ptrchar(), std::min(size(), iHeap->size())
+        );
+        return cmp ? (cmp < 0) : (size() < iHeap->size());
+    }
+    if (type() != iHeap->type())
+        return (type() < iHeap->type());
     for (int i=0; i<std::min(size(), iHeap->size()); i++)
-        if (at(i) < iHeap->at(i))
-            return true;
-    return false;
+    {
+        if (type() == TYPE_CDOUBLE)
+        {
+            // These become arrays when put in a var
+            if (*ptrcdouble(i) != *iHeap->ptrcdouble(i))
+                return less(*ptrcdouble(i), *iHeap->ptrcdouble(i));
+            continue;
+        }
+        if (type() == TYPE_PAIR)
+            if (key(i) != iHeap->key(i))
+                return (key(i) < iHeap->key(i));
+        if (at(i) != iHeap->at(i))
+            return (at(i) < iHeap->at(i));
+    }
+    return (size() < iHeap->size());
 }
 
 
diff --git a/lube/heap.h b/lube/heap.h
index 7ecfd02..c7edbe2 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -24,6 +24,22 @@ namespace libube
 
     class Heap;
 
+    /**
+     * Order of complex numbers: by magnitude, but those of equal magnitude
+     * still have to be distinguished.
+     */
+    template <class T>
+    bool less(const std::complex<T>& iA, const std::complex<T>& iB)
+    {
+        T a = std::abs(iA);
+        T b = std::abs(iB);
+        if (a != b)
+            return (a < b);
+        if (iA.real() != iB.real())
+            return (iA.real() < iB.real());
+        return (iA.imag() < iB.imag());
+    }
+
     /**
      * Heap interface
      */
diff --git a/lube/var.cpp b/lube/var.cpp
index b7991f5..74172a6 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -569,9 +569,9 @@ bool var::operator <(var iVar) const
     case TYPE_DOUBLE:
         return (get<double>() < iVar.get<double>());
     case TYPE_CFLOAT:
-        return (std::abs(get<cfloat>()) < std::abs(iVar.get<cfloat>()));
+        return less(get<cfloat>(), iVar.get<cfloat>());
     case TYPE_CDOUBLE:
-        return (std::abs(get<cdouble>()) < std::abs(iVar.get<cdouble>()));
+        return less(get<cdouble>(), iVar.get<cdouble>());
     default:
         throw error("operator <(): Unknown type");
     }
-- 
2.43.0


From c63adb11f8495a7b02c7e9dbafb5aeabf897e9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 04/60] fix: elements of a view are those it shows, and its
 size is fixed

---
 lube/heap.h   | 20 +++++++++++++++++---
 lube/view.cpp | 24 ++++++++++++++++++++----
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/lube/heap.h b/lube/heap.h
index c7edbe2..e1ab8dd 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -240,9 +240,6 @@ namespace libube
         virtual int& shape(int iDim) const;
         virtual int& stride(int iDim) const;
         virtual bool copyable(IHeap* iHeap);
-        virtual int derefSize(ind iIndex) {
-            return mHeap->derefSize(iIndex + mData.ip[0]);
-        };
         virtual ind derefType(ind iIndex) {
             return mHeap->derefType(iIndex + mData.ip[0]);
         };
@@ -250,6 +247,23 @@ namespace libube
             return mHeap->derefAType(iIndex + mData.ip[0]);
         };
 
+        // The other dereferences follow from this one
+        virtual var* deref(ind iIndex) {
+            return mHeap->deref(iIndex + mData.ip[0]);
+        };
+
+        // Elements are those of the underlying array
+        virtual var at(int iIndex, bool iKey=false) const;
+        virtual var& key(int iIndex);
+
+        // The size of a view is fixed
+        virtual void resize(int iSize) {
+            throw error("View::resize(): cannot change the size of a view");
+        };
+        virtual var shift() {
+            throw error("View::shift(): cannot change the size of a view");
+        };
+
     private:
         void setStrides(int iDim);
         Heap* mHeap;    ///< The real storage
diff --git a/lube/view.cpp b/lube/view.cpp
index 551b9f8..deed784 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -27,7 +27,7 @@ View::View(const IHeap& iHeap, bool iAllocOnly) : Heap()
 {
     assert(iHeap.view());
     mType = TYPE_INT;
-    resize(iHeap.dim()*2+1);
+    Heap::resize(iHeap.dim()*2+1);
     mHeap = new Heap(*iHeap.view(), iAllocOnly);
     mHeap->attach();
     copy(reinterpret_cast<const Heap*>(&iHeap), mSize);
@@ -42,7 +42,7 @@ View::View(IHeap* iHeap) : Heap()
 
     // Initialise the offset with the old one if it was a view
     mType = TYPE_INT;
-    resize(1);
+    Heap::resize(1);
     mData.ip[0] = iHeap->view() ? iHeap->offset() : 0;
 }
 
@@ -71,7 +71,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
     : View(iHeap)
 {
     int dim = iList.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
@@ -93,7 +93,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
 View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
 {
     int dim = iShape.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
@@ -117,6 +117,22 @@ View::~View()
 }
 
 
+var View::at(int iIndex, bool iKey) const
+{
+    if ( (iIndex < 0) || (iIndex >= size()) )
+        throw std::range_error("View::at(): index out of bounds");
+    return mHeap->at(iIndex + mData.ip[0], iKey);
+}
+
+
+var& View::key(int iIndex)
+{
+    if ( (iIndex < 0) || (iIndex >= size()) )
+        throw std::range_error("View::key(): index out of bounds");
+    return mHeap->key(iIndex + mData.ip[0]);
+}
+
+
 int View::offset(int iOffset)
 {
     if (iOffset + size() > mHeap->size())
-- 
2.43.0


From c2a426c85af04911ebf7d3b446163d6d7a1b403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 05/60] fix: refuse negative and overflowing view geometry

---
 lube/heap.h   |  1 +
 lube/view.cpp | 30 ++++++++++++++++++++++++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/lube/heap.h b/lube/heap.h
index e1ab8dd..ad95038 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -265,6 +265,7 @@ namespace libube
         };
 
     private:
+        void addOffset(int iOffset);
         void setStrides(int iDim);
         Heap* mHeap;    ///< The real storage
     };
diff --git a/lube/view.cpp b/lube/view.cpp
index deed784..8315f9a 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -8,6 +8,8 @@
  */
 
 #include <cassert>
+#include <limits>
+#include <stdexcept>
 
 #include "lube/var.h"
 #include "lube/heap.h"
@@ -47,18 +49,34 @@ View::View(IHeap* iHeap) : Heap()
 }
 
 
+/* The offset is relative to that of any existing view */
+void View::addOffset(int iOffset)
+{
+    if (iOffset > std::numeric_limits<int>::max() - mData.ip[0])
+        throw error("View::addOffset(): offset too large");
+    mData.ip[0] += iOffset;
+}
+
+
 /* Common parts of the view() initialiser methods */
 void View::setStrides(int iDim)
 {
     if (iDim < 1)
         throw error("View::setStrides(): view must have dim > 0");
 
+    if (mData.ip[0] < 0)
+        throw error("View::setStrides(): negative offset");
+
     // The second of each pair is the stride
-    int p = 1;
+    long p = 1;
     for (int i=iDim-1; i>=0; i--)
     {
+        if (mData.ip[i*2+1] < 0)
+            throw error("View::setStrides(): negative dimension");
         mData.ip[i*2+2] = p;
         p *= mData.ip[i*2+1];
+        if (p > std::numeric_limits<int>::max())
+            throw error("View::setStrides(): view too large");
     }
 
     // the p that drops out should be the overall size
@@ -74,7 +92,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
     Heap::resize(dim*2+1);
 
     // The first entry is the offset
-    mData.ip[0] += iOffset;;
+    addOffset(iOffset);
 
     // First entry of each subsequent pair is the dimension
     int i = 0;
@@ -96,12 +114,12 @@ View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
     Heap::resize(dim*2+1);
 
     // The first entry is the offset
-    mData.ip[0] += iOffset;;
+    addOffset(iOffset);
 
     // First entry of each subsequent pair is the dimension
     for (int i=0; i<dim; i++)
     {
-        mData.ip[i*2+1] = iShape[i].get<int>();
+        mData.ip[i*2+1] = iShape[i].cast<int>();
         mData.ip[i*2+2] = 0;
     }
 
@@ -135,8 +153,8 @@ var& View::key(int iIndex)
 
 int View::offset(int iOffset)
 {
-    if (iOffset + size() > mHeap->size())
-        throw error("View::offset(): offset too large");
+    if ( (iOffset < 0) || (iOffset > mHeap->size() - size()) )
+        throw error("View::offset(): offset out of bounds");
     mData.ip[0] = iOffset;
     return iOffset;
 }
-- 
2.43.0


From 91143f2721af7c0f1f676b998e750be0134dc20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:46 +0000
Subject: [PATCH 06/60] fix: elements taken out of an array are values rather
 than stale references

---
 lube/var.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 74172a6..d015f3a 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -590,11 +590,14 @@ bool var::operator <(var iVar) const
 var var::copy(bool iAllocOnly) const
 {
     // Deref and return if there's no heap
+    var r;
     if (!heap())
-        return *this;
+    {
+        r = *this;
+        return r;
+    }
 
     // It's a heap
-    var r;
     if (view())
         r.attach(new View(*heap(), iAllocOnly));
     else
@@ -1097,7 +1100,9 @@ var& var::push(var iVar)
 
 var var::pop()
 {
-    var r = at(size()-1);
+    // The element has to be dereferenced before it disappears
+    var r;
+    r = at(size()-1);
     resize(size()-1);
     return r;
 }
-- 
2.43.0


From 8305aed64554a8b2280f453102ad550e9f6db920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 07/60] fix: refuse positions that do not exist in an array

---
 lube/heap.cpp | 2 ++
 lube/var.cpp  | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 9829165..e71e4f4 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -514,6 +514,8 @@ var Heap::shift()
     // var and pair use placement delete on the overwritten element (to delete
     // it) and placement new on the exposed one (to reset it, rather than
     // actually construct a new one).
+    if (mSize < 1)
+        throw std::range_error("Heap::shift(): array is empty");
     var r;
     switch (mType)
     {
diff --git a/lube/var.cpp b/lube/var.cpp
index d015f3a..985d750 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -821,7 +821,11 @@ var var::at(int iIndex) const
     if (!v)
         throw error("var::at(): uninitialised");
     if (v.type() == TYPE_ARRAY)
+    {
+        if ( (iIndex < 0) || (iIndex >= v.size()) )
+            throw error("var::at(): Index out of bounds");
         return v.reference(iIndex);
+    }
     if (iIndex == 0)
         return v;
     throw error("var::at(): Index out of bounds");
@@ -1114,6 +1118,8 @@ var var::pop()
  */
 var& var::insert(var iVar, int iIndex)
 {
+    if (iIndex < 0)
+        throw std::range_error("insert(): negative index");
     if (iIndex > size())
         throw std::range_error("insert(): index too large");
 
@@ -1153,7 +1159,8 @@ var& var::insert(var iVar, int iIndex)
 
 var var::remove(int iIndex)
 {
-    assert(iIndex >= 0);
+    if (iIndex < 0)
+        throw std::range_error("remove(): negative index");
     if (iIndex > size()-1)
         throw std::range_error("remove(): index too large");
 
-- 
2.43.0


From 444eafac786a5d5a3b3d646b551a5d9d2404f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:52 +0000
Subject: [PATCH 08/60] fix: resizing a scalar to nothing gives an empty array,
 and presize keeps the contents

---
 lube/var.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 985d750..3d9d7e9 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -928,12 +928,13 @@ var& var::array()
 var& var::resize(int iSize)
 {
     VDEBUG(std::cout << "var::resize(" << iSize << ")" << std::endl);
-    assert(iSize >= 0);
+    if (iSize < 0)
+        throw error("var::resize(): negative size");
     var& v = dereference();
     if (!v.heap())
     {
         // Not allocated
-        if (((v.type() != TYPE_ARRAY) && (iSize > 1)) ||
+        if (((v.type() != TYPE_ARRAY) && (iSize != 1)) ||
             (v.type() == TYPE_ARRAY) )
         {
             // Need to allocate
@@ -946,7 +947,8 @@ var& var::resize(int iSize)
                 var tmp = v;
                 v.mType = TYPE_ARRAY;
                 v.attach(new Heap(iSize, tmp.mType));
-                v.at(0) = tmp;
+                if (iSize > 0)
+                    v.at(0) = tmp;
             }
         }
     }
@@ -1246,6 +1248,8 @@ var& var::presize(int iSize)
 {
     // There is no doubt a more efficient way
     int s = size();
+    if (defined() && (iSize <= s))
+        return *this;
     resize(iSize);
     resize(s);
     return *this;
-- 
2.43.0


From f79c46dcd1c6132fbfc6b8b70f5ab91ac9fa25b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:55 +0000
Subject: [PATCH 09/60] fix: scalar elements become arrays in place, and a
 scalar shifts like an array of one

---
 lube/var.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 3d9d7e9..b5bd905 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -920,6 +920,10 @@ var& var::array()
         v.mType = TYPE_ARRAY;
         v.attach(new Heap(1, tmp.mType));
         v.at(0) = tmp;
+
+        // If v is an element of another array, we are its handle
+        if (&v != this)
+            *this = v;
     }
     return *this;
 }
@@ -950,6 +954,10 @@ var& var::resize(int iSize)
                 if (iSize > 0)
                     v.at(0) = tmp;
             }
+
+            // If v is an element of another array, we are its handle
+            if (&v != this)
+                *this = v;
         }
     }
     else
@@ -1176,10 +1184,10 @@ var var::remove(int iIndex)
 
 var var::shift()
 {
-    if (heap())
-        return heap()->shift();
-    else
-        return *this;
+    if (!defined())
+        return nil;
+    array();
+    return heap()->shift();
 }
 
 
-- 
2.43.0


From 64914f4a9df58327d4885788d3cdb4a1b140b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:16 +0000
Subject: [PATCH 10/60] fix: appending raw data to an array of another type is
 refused, to undefined makes an array

---
 lube/heap.cpp | 22 ++++++++++++----------
 lube/var.cpp  | 10 +++++++---
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index e71e4f4..bf6f8b5 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -169,18 +169,20 @@ var Heap::derefInt(ind iIndex, int iArrayIndex)
 }
 
 
-#define APPEND(T, P)                                \
-    void Heap::append(int iSize, const T* iData)    \
-    {                                               \
-        int beg = mSize;                            \
-        resize(mSize + iSize);                      \
-        for (int i=0; i<iSize; i++)                 \
-            mData.P[beg+i] = iData[i];              \
+#define APPEND(T, P, TYPE)                                      \
+    void Heap::append(int iSize, const T* iData)                \
+    {                                                           \
+        if (mType != TYPE)                                      \
+            throw error("Heap::append(): incompatible types");  \
+        int beg = mSize;                                        \
+        resize(mSize + iSize);                                  \
+        for (int i=0; i<iSize; i++)                             \
+            mData.P[beg+i] = iData[i];                          \
     }
 
-APPEND(char, cp)
-APPEND(int, ip)
-APPEND(cdouble, cdp)
+APPEND(char, cp, TYPE_CHAR)
+APPEND(int, ip, TYPE_INT)
+APPEND(cdouble, cdp, TYPE_CDOUBLE)
 
 
 /**
diff --git a/lube/var.cpp b/lube/var.cpp
index b5bd905..d0d2b86 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1061,6 +1061,12 @@ var var::atypeStr() const
 #define APPEND(T)                                               \
     template<> var& var::append<T>(int iSize, const T* iData)   \
     {                                                           \
+        if (!defined())                                         \
+        {                                                       \
+            var v;                                              \
+            v.attach(new Heap(iSize, iData));                   \
+            return *this = v;                                   \
+        }                                                       \
         array();                                                \
         heap()->append(iSize, iData);                           \
         return *this;                                           \
@@ -1073,9 +1079,7 @@ APPEND(cdouble)
 var& var::append(const char* iStr)
 {
     // It should be a special case to avoid the strlen
-    array();
-    heap()->append(std::strlen(iStr), iStr);
-    return *this;
+    return append<char>(std::strlen(iStr), iStr);
 }
 
 
-- 
2.43.0


From e35748bb287210e319bed5d79f75360ef9bea039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:46 +0000
Subject: [PATCH 11/60] fix: inserting an array in itself or in undefined gives
 the elements of the array

---
 lube/var.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index d0d2b86..6acee81 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1078,6 +1078,10 @@ APPEND(cdouble)
 
 var& var::append(const char* iStr)
 {
+    // Appending to something other than a string is the general case
+    if (defined() && !atype<char>())
+        return insert(iStr, size());
+
     // It should be a special case to avoid the strlen
     return append<char>(std::strlen(iStr), iStr);
 }
@@ -1160,6 +1164,13 @@ var& var::insert(var iVar, int iIndex)
     else
     {
         // It's a fundamental type, insert the whole array
+        if (!defined())
+        {
+            *this = iVar.copy();
+            return *this;
+        }
+        if (is(iVar))
+            iVar = iVar.copy();
         resize(size()+iVar.size());
         for (int i=size()-1; i>iIndex+iVar.size()-1; i--)
             at(i) = at(i-iVar.size());
-- 
2.43.0


From 444733de47bfee36f379c1d6c4b86d0823483ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 12/60] fix: insert and remove move elements of any kind, and
 keys along with their values

---
 lube/var.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 6acee81..818c398 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1146,7 +1146,12 @@ var& var::insert(var iVar, int iIndex)
         // Implies array; insert a single var
         resize(size()+1);
         for (int i=size()-1; i>iIndex; i--)
+        {
+            // Clear first as the element could be a view
+            at(i).clear();
             at(i) = at(i-1);
+        }
+        at(iIndex).clear();
         at(iIndex) = iVar;
     }
     else if (heap() && atype<pair>())
@@ -1155,10 +1160,11 @@ var& var::insert(var iVar, int iIndex)
         resize(size()+1);
         for (int i=size()-1; i>iIndex; i--)
         {
-            heap()->key(i) = heap()->key(i-1);
+            heap()->key(i).clear() = heap()->key(i-1);
+            at(i).clear();
             at(i) = at(i-1);
         }
-        heap()->key(iIndex) = iVar;
+        heap()->key(iIndex).clear() = iVar;
         at(iIndex).clear();
     }
     else
@@ -1189,9 +1195,21 @@ var var::remove(int iIndex)
     if (iIndex > size()-1)
         throw std::range_error("remove(): index too large");
 
+    if (view())
+        throw error("remove(): cannot change the size of a view");
+
     var r = at(iIndex).copy();
+    bool p = heap() && atype<pair>();
     for (int i=iIndex+1; i<size(); i++)
+    {
+        // Clear first in case the element is a view; assigning to that would
+        // copy into the storage
+        if (p)
+            heap()->key(i-1).clear() = heap()->key(i);
+        if (p || atype<var>())
+            at(i-1).clear();
         at(i-1) = at(i);
+    }
     resize(size()-1);
     return r;
 }
-- 
2.43.0


From 7226579a305afb29710793082c6a10ece52a2b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 13/60] fix: unshift casts to the type of the array, and a
 refusal leaves the array as it was

---
 lube/heap.cpp |  2 ++
 lube/var.cpp  | 15 +++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index bf6f8b5..3b72889 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -576,6 +576,8 @@ var Heap::shift()
  */
 void Heap::unshift(var iVar)
 {
+    if (mType == TYPE_PAIR)
+        throw error("Heap::unshift(): Can't unshift a pair");
     resize(mSize+1);
     switch (mType)
     {
diff --git a/lube/var.cpp b/lube/var.cpp
index 818c398..89ef169 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1226,14 +1226,21 @@ var var::shift()
 
 var& var::unshift(var iVar)
 {
+    // Anything before nothing is the same as anything after nothing
     if (!defined())
-    {
-        *this = iVar;
-        return *this;
-    }
+        return push(iVar);
 
     if (!heap())
         array();
+    if (!atype<var>() && !atype<pair>())
+    {
+        // Cast as for any other assignment to an element; if that can't be
+        // done then the array stays as it is
+        var v;
+        v.attach(new Heap(1, atype()));
+        v.at(0) = iVar;
+        iVar = v.at(0);
+    }
     heap()->unshift(iVar);
     return *this;
 }
-- 
2.43.0


From 2b95230d338cd5ba1c812bfb096abdb27c168010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 14/60] fix: push and insert leave the array as it was when the
 cast is refused

---
 lube/var.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 89ef169..6db128c 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1115,7 +1115,17 @@ var& var::push(var iVar)
             throw error("push(): Incompatible types");
     }
 
-    (*this)[size()] = iVar;
+    int s = size();
+    try
+    {
+        (*this)[s] = iVar;
+    }
+    catch (...)
+    {
+        // It can't be cast to the type of the array, which stays as it was
+        resize(s);
+        throw;
+    }
     return *this;
 }
 
@@ -1175,13 +1185,19 @@ var& var::insert(var iVar, int iIndex)
             *this = iVar.copy();
             return *this;
         }
-        if (is(iVar))
-            iVar = iVar.copy();
-        resize(size()+iVar.size());
-        for (int i=size()-1; i>iIndex+iVar.size()-1; i--)
-            at(i) = at(i-iVar.size());
-        for (int i=0; i<iVar.size(); i++)
-            at(iIndex+i) = iVar[i];
+
+        // Cast the elements before doing anything else, as it might not be
+        // possible.  That it's a copy allows an array to be inserted in itself.
+        var v;
+        v.attach(new Heap(iVar.size(), atype()));
+        for (int i=0; i<v.size(); i++)
+            v.at(i) = iVar[i];
+
+        resize(size()+v.size());
+        for (int i=size()-1; i>iIndex+v.size()-1; i--)
+            at(i) = at(i-v.size());
+        for (int i=0; i<v.size(); i++)
+            at(iIndex+i) = v.at(i);
     }
 
     return *this;
-- 
2.43.0


From f09755f4c1dbccb302b1cdc743a8b973d0ed6502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:22 +0000
Subject: [PATCH 15/60] fix: copy arrays of complex numbers

---
 lube/heap.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 3b72889..448ed8c 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, July 2013
  */
 
+#include <algorithm>
 #include <cassert>
 #include <cstring>
 #include <stdexcept>
@@ -299,6 +300,12 @@ void Heap::copy(const Heap* iHeap, int iSize)
     case TYPE_DOUBLE:
         memcpy(mData.dp, iHeap->mData.dp, mSize*sizeof(double));
         break;
+    case TYPE_CFLOAT:
+        std::copy(iHeap->mData.cfp, iHeap->mData.cfp + mSize, mData.cfp);
+        break;
+    case TYPE_CDOUBLE:
+        std::copy(iHeap->mData.cdp, iHeap->mData.cdp + mSize, mData.cdp);
+        break;
     case TYPE_VAR:
         for (int i=0; i<mSize; i++)
             mData.vp[i] = iHeap->mData.vp[i];
-- 
2.43.0


From 770ea262bde62c7452c8bcb29d20db9de4d6081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:25 +0000
Subject: [PATCH 16/60] fix: release the storage of heaps and views that fail
 to construct

---
 lube/heap.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 448ed8c..af49537 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -53,12 +53,13 @@ Heap::Heap()
  * Destructor
  *
  * The dtor should be called when the reference count hits zero.  So
- * the refcount should already be zero here.  The memory will have
- * been freed by the dealloc().
+ * the refcount should already be zero here.  It also gets called when a
+ * constructor throws.
  */
 Heap::~Heap()
 {
     assert(!mRefCount);
+    dealloc(mData);
 }
 
 
@@ -219,7 +220,6 @@ int Heap::detach()
     int count = --mRefCount;
     if (count == 0)
     {
-        dealloc(mData);
         delete this;
     }
     return count;
-- 
2.43.0


From f5824dda525112ff7a8bf0f8ced6954b3428335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:27 +0000
Subject: [PATCH 17/60] fix: release the elements that a shrinking array drops

---
 lube/heap.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index af49537..a6ef825 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -229,6 +229,17 @@ void Heap::resize(int iSize)
 {
     // It is possible to resize to zero; the capacity stays the same
     assert(mCapacity >= 0);
+
+    // Elements that are no longer visible should not keep hold of storage, or
+    // reappear later
+    for (int i=iSize; i<mSize; i++)
+        if (mType == TYPE_VAR)
+            mData.vp[i].clear();
+        else if (mType == TYPE_PAIR)
+        {
+            mData.pp[i].key.clear();
+            mData.pp[i].val.clear();
+        }
     mSize = iSize;
 
     // strings have an extra '\0'
-- 
2.43.0


From 6909066b371df58899300bb37a3a1fb396d74b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:01 +0000
Subject: [PATCH 18/60] fix: casts keep the imaginary part between complex
 types and refuse arrays

---
 lube/var.cpp | 64 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 6db128c..2f87622 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -126,26 +126,41 @@ namespace libube
     }
 
 
+    /*
+     * Casting gives a scalar from scalars and strings, but it's elementwise
+     * for other arrays; in that case there's no single value to return.
+     */
+    template <class T> T castScalar(const Cast<T>& iCast, const var& iVar)
+    {
+        var v = iCast(iVar);
+        if (!v.defined())
+            return T(0);
+        if (v.heap() && !(v.size() == 1 && v.atype<cdouble>()))
+            throw error("var::cast(): cannot cast an array to a scalar");
+        return v.get<T>();
+    }
+
+
     template<> char var::cast<char>() const {
-        return castChar(*this).get<char>();
+        return castScalar(castChar, *this);
     }
     template<> int var::cast<int>() const {
-        return castInt(*this).get<int>();
+        return castScalar(castInt, *this);
     }
     template<> long var::cast<long>() const {
-        return castLong(*this).get<long>();
+        return castScalar(castLong, *this);
     }
     template<> float var::cast<float>() const {
-        return castFloat(*this).get<float>();
+        return castScalar(castFloat, *this);
     }
     template<> double var::cast<double>() const {
-        return castDouble(*this).get<double>();
+        return castScalar(castDouble, *this);
     }
     template<> cfloat var::cast<cfloat>() const {
-        return castCFloat(*this).get<cfloat>();
+        return castScalar(castCFloat, *this);
     }
     template<> cdouble var::cast<cdouble>() const {
-        return castCDouble(*this).get<cdouble>();
+        return castScalar(castCDouble, *this);
     }
 }
 
@@ -652,13 +667,36 @@ ind var::atype() const
 }
 
 
+/*
+ * Complex numbers cast to other complex numbers in full; to anything else it's
+ * just the real part.
+ */
+template <class T, class C> void castComplex(T& oT, const std::complex<C>& iC)
+{
+    oT = static_cast<T>(iC.real());
+}
+
+template <class T, class C>
+void castComplex(std::complex<T>& oT, const std::complex<C>& iC)
+{
+    oT = std::complex<T>(
+        static_cast<T>(iC.real()), static_cast<T>(iC.imag())
+    );
+}
+
+
 template <class T>
 void Cast<T>::scalar(const var& iVar, var& oVar) const
 {
+    // A single cdouble is not really an array
+    ind type = iVar.type();
+    if (iVar.heap() && (iVar.size() == 1) && iVar.atype<cdouble>())
+        type = TYPE_CDOUBLE;
+
     // Return immediately if no cast is required
-    const T t = 0;
+    T t = 0;
     static var v = t;
-    if (v.type() == iVar.type())
+    if (v.atype() == type)
     {
         if (!iVar.is(oVar))
             oVar = iVar;
@@ -677,7 +715,7 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
     }
 
     // Everything else gets cast<>ed
-    switch (iVar.type())
+    switch (type)
     {
     case TYPE_ARRAY:
         broadcast(iVar, oVar);
@@ -698,10 +736,12 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
         oVar = static_cast<T>(iVar.get<double>());
         break;
     case TYPE_CFLOAT:
-        oVar = static_cast<T>(iVar.get<cfloat>().real());
+        castComplex(t, iVar.get<cfloat>());
+        oVar = t;
         break;
     case TYPE_CDOUBLE:
-        oVar = static_cast<T>(iVar.get<cdouble>().real());
+        castComplex(t, iVar.get<cdouble>());
+        oVar = t;
         break;
     default:
         throw error("Cast::operator(): Unknown type");
-- 
2.43.0


From acd0f7c809deab2d9898304967880e82b339073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:40 +0000
Subject: [PATCH 19/60] fix: arrays of cdouble are operated on elementwise
 rather than as their first element

---
 lube/math.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index ae82f76..7f557e9 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -68,7 +68,8 @@ using namespace libube;
 
 
 /**
- * Report var type, but treating TYPE_CDOUBLE as a type rather than an array.
+ * Report var type, but treating a single TYPE_CDOUBLE as a type rather than an
+ * array.
  *
  * This avoids an infinite loop where arrays are always broadcasted, and
  * broadcasting calls the original unary operator again.
@@ -76,7 +77,7 @@ using namespace libube;
 ind type(var iVar)
 {
     ind type = iVar.type();
-    if (iVar.atype<cdouble>())
+    if (iVar.atype<cdouble>() && (iVar.size() == 1) && !iVar.view())
         type = TYPE_CDOUBLE;
     return type;
 }
-- 
2.43.0


From f57b67d728f19c01aaf80eb83bc731db911637ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:44 +0000
Subject: [PATCH 20/60] fix: array addition and subtraction leave the left
 operand alone and check the shapes

---
 lube/math.cpp | 87 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 53 insertions(+), 34 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 7f557e9..2149ce9 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -360,6 +360,41 @@ void Add::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 }
 
 
+/**
+ * Check that iVar2 can be repeated over the leading dimensions of iVar1, i.e.,
+ * that the trailing dimensions match.
+ */
+static void conform(var iVar1, var iVar2)
+{
+    for (int i=1; i<=iVar2.dim(); i++)
+        if (iVar1.shape(-i) != iVar2.shape(-i))
+            throw error("math: shapes do not conform");
+}
+
+
+/**
+ * The result of addition and subtraction in terms of axpy(), which is in
+ * place; otherwise the first operand has to be copied first.
+ */
+template<class T>
+static void axpy(
+    T iAlpha,
+    var iVar1, ind iOffset1,
+    var iVar2, ind iOffset2,
+    var& oVar, ind iOffsetO
+)
+{
+    int size = iVar2.size();
+    if (!iVar1.is(oVar))
+        blas::copy(
+            size, iVar1.ptr<T>(iOffset1), oVar.ptr<T>(iOffsetO)
+        );
+    blas::axpy(
+        size, iAlpha, iVar2.ptr<T>(iOffset2), oVar.ptr<T>(iOffsetO)
+    );
+}
+
+
 void Add::vector(
     var iVar1, ind iOffset1,
     var iVar2, ind iOffset2,
@@ -367,37 +402,22 @@ void Add::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
-    int size = iVar2.size();
+    conform(iVar1, iVar2);
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-        blas::axpy(
-            size, 1.0f,
-            iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
-        );
+        axpy(1.0f, iVar1, iOffset1, iVar2, iOffset2, oVar, iOffsetO);
         break;
     case TYPE_DOUBLE:
-        blas::axpy(
-            size, 1.0,
-            iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
-        );
+        axpy(1.0, iVar1, iOffset1, iVar2, iOffset2, oVar, iOffsetO);
         break;
     case TYPE_CFLOAT:
-        blas::axpy(
-            size, cfloat(1.0f,0.0f),
-            iVar2.ptr<cfloat>(iOffset2),
-            iVar1.ptr<cfloat>(iOffset1)
-        );
+        axpy(cfloat(1.0f,0.0f),
+             iVar1, iOffset1, iVar2, iOffset2, oVar, iOffsetO);
         break;
     case TYPE_CDOUBLE:
-        blas::axpy(
-            size, cdouble(1.0,0.0),
-            iVar2.ptr<cdouble>(iOffset2),
-            iVar1.ptr<cdouble>(iOffset1)
-        );
+        axpy(cdouble(1.0,0.0),
+             iVar1, iOffset1, iVar2, iOffset2, oVar, iOffsetO);
         break;
     default:
         throw error("Add::vector: Unknown type");
@@ -446,23 +466,22 @@ void Sub::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
-    int size = iVar2.size();
+    conform(iVar1, iVar2);
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-        blas::axpy(
-            size, -1.0f,
-            iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
-        );
+        axpy(-1.0f, iVar1, iOffset1, iVar2, iOffset2, oVar, iOffsetO);
         break;
     case TYPE_DOUBLE:
-        blas::axpy(
-            size, -1.0,
-            iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
-        );
+        axpy(-1.0, iVar1, iOffset1, iVar2, iOffset2, oVar, iOffsetO);
+        break;
+    case TYPE_CFLOAT:
+        axpy(cfloat(-1.0f,0.0f),
+             iVar1, iOffset1, iVar2, iOffset2, oVar, iOffsetO);
+        break;
+    case TYPE_CDOUBLE:
+        axpy(cdouble(-1.0,0.0),
+             iVar1, iOffset1, iVar2, iOffset2, oVar, iOffsetO);
         break;
     default:
         throw error("Sub::vector: Unknown type");
-- 
2.43.0


From 06199d7f41402ffab4f5f7e38e86f9249d7941f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:10 +0000
Subject: [PATCH 21/60] fix: set writes to its output, and multiplication and
 set check the shapes

---
 lube/math.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 2149ce9..a6181e5 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -83,6 +83,18 @@ ind type(var iVar)
 }
 
 
+/**
+ * Check that iVar2 can be repeated over the leading dimensions of iVar1, i.e.,
+ * that the trailing dimensions match.
+ */
+static void conform(var iVar1, var iVar2)
+{
+    for (int i=1; i<=iVar2.dim(); i++)
+        if (iVar1.shape(-i) != iVar2.shape(-i))
+            throw error("math: shapes do not conform");
+}
+
+
 /**
  * Allocator where the output is the same shape but always real
  */
@@ -252,6 +264,7 @@ void Set::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
+    conform(iVar1, iVar2);
     int size = iVar2.size();
     switch(iVar1.atype())
     {
@@ -259,14 +272,14 @@ void Set::vector(
         blas::copy(
             size,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
         blas::copy(
             size,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     default:
@@ -360,18 +373,6 @@ void Add::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 }
 
 
-/**
- * Check that iVar2 can be repeated over the leading dimensions of iVar1, i.e.,
- * that the trailing dimensions match.
- */
-static void conform(var iVar1, var iVar2)
-{
-    for (int i=1; i<=iVar2.dim(); i++)
-        if (iVar1.shape(-i) != iVar2.shape(-i))
-            throw error("math: shapes do not conform");
-}
-
-
 /**
  * The result of addition and subtraction in terms of axpy(), which is in
  * place; otherwise the first operand has to be copied first.
@@ -608,6 +609,7 @@ void Mul::vector(
     // matrix.  In BLAS speak, a diagonal matrix is a band matrix with no
     // superdiagonals.
     assert(type(iVar1) == TYPE_ARRAY);
+    conform(iVar1, iVar2);
     int size = iVar2.size();
     if (iVar1.is(oVar))
     {
-- 
2.43.0


From 3ee0b436a7a6be05af6bf004a068de54ec74638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:06 +0000
Subject: [PATCH 22/60] fix: arithmetic in place with a part of the left
 operand, and operations on nothing

---
 lube/func.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 0812928..8bee195 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -125,7 +125,7 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     int dimO = oVar.dim();
     int stepI = dimI-mDim > 0 ? iVar.stride(dimI-mDim-1) : iVar.size();
     int stepO = dimO-mDim > 0 ? oVar.stride(dimO-mDim-1) : oVar.size();
-    int nOps = iVar.size() / stepI;
+    int nOps = stepI > 0 ? iVar.size() / stepI : 0;
     for (int i=0; i<nOps; i++)
         vector(iVar, stepI*i, oVar, stepO*i);
 }
@@ -242,7 +242,7 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int step1 = cdim > 0 ? iVar1.stride(cdim-1) : 0;
     int step2 = cdim > 0 ? iVar2.stride(cdim-1) : 0;
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = cdim > 0 ? iVar1.size() / step1 : 1;
+    int nOps = cdim > 0 ? (step1 > 0 ? iVar1.size() / step1 : 0) : 1;
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, step2*i, oVar, stepO*i);
 }
@@ -263,11 +263,18 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     // Call back to the unary operator
     if ((dim2 == 1) && (iVar2.size() == 1))
     {
+        // Take the value first; it could be an element that gets overwritten
+        var v2;
+        if (iVar2.heap() && !iVar2.atype<char>())
+            v2 = iVar2.at(0);
+        else
+            v2 = iVar2;
+
         // This could be parallel!
         for (int i=0; i<iVar1.size(); i++)
         {
             var tmp = oVar.at(i);
-            scalar(iVar1.at(i), iVar2, tmp);
+            scalar(iVar1.at(i), v2, tmp);
         }
         return;
     }
@@ -293,9 +300,12 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int dimO = oVar.dim();
     int step1 = dim1-dim2 > 0 ? iVar1.stride(dim1-dim2-1) : iVar1.size();
     int stepO = dimO-dim2 > 0 ? oVar.stride(dimO-dim2-1) : oVar.size();
-    int nOps = iVar1.size() / step1;
+    int nOps = step1 > 0 ? iVar1.size() / step1 : 0;
+
+    // If it's in place, iVar2 could be a part of iVar1 that gets overwritten
+    var v2 = (nOps > 1) && iVar1.is(oVar) ? iVar2.copy() : iVar2;
     for (int i=0; i<nOps; i++)
-        vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
+        vector(iVar1, step1*i, v2, 0, oVar, stepO*i);
 }
 
 
@@ -391,7 +401,7 @@ void NaryFunctor::broadcast(var iVar, var& oVar) const
 
     // Assume that the common dimension is to be broadcast over.
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = cdim > 0 ? oVar.size() / stepO : 1;
+    int nOps = cdim > 0 ? (stepO > 0 ? oVar.size() / stepO : 0) : 1;
     for (int i=0; i<nOps; i++)
     {
         var iv;
-- 
2.43.0


From e6bdc7d4b39a0e0b39fb3c6e634e415b19c8e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:20 +0000
Subject: [PATCH 23/60] fix: products of single elements, of arrays of
 matrices, and of shapes that do not conform

---
 lube/func.cpp | 4 ++--
 lube/math.cpp | 8 +++++---
 lube/math.h   | 2 ++
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 8bee195..2961471 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -259,9 +259,9 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int dim1 = iVar1.dim();
     int dim2 = iVar2.dim();
 
-    // Case 1: iVar2 has size 1
+    // Case 1: iVar2 has size 1 and the operation is dimensionless
     // Call back to the unary operator
-    if ((dim2 == 1) && (iVar2.size() == 1))
+    if ((mDim == 0) && (dim2 == 1) && (iVar2.size() == 1))
     {
         // Take the value first; it could be an element that gets overwritten
         var v2;
diff --git a/lube/math.cpp b/lube/math.cpp
index a6181e5..93e2829 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -693,6 +693,8 @@ void Dot::vector(
         // It's a one dimensional thing, so do it as a dot product with
         // blas::dot()
         int size = iVar2.size();
+        if (iVar1.shape(-1) != size)
+            throw error("Dot::vector: Shapes not compatible");
         switch(iVar1.atype())
         {
         case TYPE_FLOAT:
@@ -735,7 +737,7 @@ void Dot::vector(
     {
         // It's a two dimensional thing, so do it as a matrix multiplication
         // with blas::gemm()
-        if (iVar1.shape(1) != iVar2.shape(0))
+        if (iVar1.shape(-1) != iVar2.shape(0))
         {
             std::cout << iVar1.shape() << iVar2.shape() << std::endl;
             throw error("Dot::vector: Shapes not compatible");
@@ -744,7 +746,7 @@ void Dot::vector(
         {
         case TYPE_FLOAT:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),
                 1.0f,
                 iVar1.ptr<float>(iOffset1),
                 iVar2.ptr<float>(iOffset2),
@@ -754,7 +756,7 @@ void Dot::vector(
             break;
         case TYPE_DOUBLE:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),
                 1.0,
                 iVar1.ptr<double>(iOffset1),
                 iVar2.ptr<double>(iOffset2),
diff --git a/lube/math.h b/lube/math.h
index 3be44ed..88ecd9c 100644
--- a/lube/math.h
+++ b/lube/math.h
@@ -160,6 +160,8 @@ namespace libube
      */
     class Dot : public ArithmeticFunctor
     {
+    public:
+        Dot() { mDim = 1; };
     protected:
         var alloc(var iVar1, var iVar2) const;
         void vector(
-- 
2.43.0


From db55f84d35d18b297546bd58685242ebc5a3ff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:23 +0000
Subject: [PATCH 24/60] fix: absolute sum of a complex value is real

---
 lube/math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 93e2829..89fa53f 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -859,10 +859,10 @@ void ASum::scalar(const var& iVar, var& oVar) const
         *oVar.ptr<double>() = std::abs(iVar.get<double>());
         break;
     case TYPE_CFLOAT:
-        *oVar.ptr<cfloat>() = std::abs(iVar.get<cfloat>());
+        *oVar.ptr<float>() = std::abs(iVar.get<cfloat>());
         break;
     case TYPE_CDOUBLE:
-        *oVar.ptr<cdouble>() = std::abs(iVar.get<cdouble>());
+        *oVar.ptr<double>() = std::abs(iVar.get<cdouble>());
         break;
     default:
         throw error("ASum::operator(): Unknown type");
-- 
2.43.0


From 558f8d2e5f09b6c4a4a48b38a4c8a99114579620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:26 +0000
Subject: [PATCH 25/60] fix: polynomials of cdouble roots are cdouble

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 89fa53f..efcf9e8 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1165,7 +1165,7 @@ var Poly::alloc(var iVar) const
         r = view(s, cfloat(0.0f, 0.0f));
         break;
     case TYPE_CDOUBLE:
-        r = view(s, cfloat(0.0, 0.0));
+        r = view(s, cdouble(0.0, 0.0));
         break;
     }
     return r;
-- 
2.43.0


From c6962119f8f297da2e1c3e9a1075156e2f33a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 26/60] fix: swap exchanges each row once and checks the shapes

---
 lube/math.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index efcf9e8..3b09570 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -302,7 +302,10 @@ void Swap::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    int size = iVar1.size();
+    if (iVar1.dim() != iVar2.dim())
+        throw error("Swap::vector: dimensions differ");
+    conform(iVar1, iVar2);
+    int size = iVar1.shape(-1);
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-- 
2.43.0


From 8f7758252209829acebd950bddf4c458274d4f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 27/60] fix: concatenate refuses arrays of different dimension

---
 lube/math.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/math.cpp b/lube/math.cpp
index 3b09570..3a4052b 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1259,6 +1259,8 @@ var Concatenate::alloc(var iVar) const
     int sum = iVar[0].shape(-1);
     for (int v=1; v<iVar.size(); v++)
     {
+        if (iVar[v].dim() != dim)
+            throw error("Concatenate: dimensions differ");
         for (int d=0; d<dim-1; d++)
             if (iVar[v].shape(d) != iVar[0].shape(d))
                 throw error("Concatenate: dimensions differ");
-- 
2.43.0


From e62a8db9de458c4da4f4b3007536318700803fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 28/60] fix: an unterminated last line has no extra character,
 and a failed stream no line

---
 lube/string.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index eb9353e..3a56a9d 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -107,7 +107,7 @@ var& var::getline(std::istream& iStream)
 {
     // Peek ahead to set eof if necessary, return nil if done
     iStream.peek();
-    if (iStream.eof())
+    if (!iStream.good())
         return clear();
 
     // Start off as a string as an array; re-use the existing array if possible
@@ -123,7 +123,9 @@ var& var::getline(std::istream& iStream)
     char* str = ptr<char>();
     while (!iStream.eof())
     {
-        char c = iStream.get();
+        int c = iStream.get();
+        if (c == std::istream::traits_type::eof())
+            break;
         if (c == '\n') // Unix specific?  ...no, I think c++ will change it to
                        // whatever is appropriate
             break;
-- 
2.43.0


From c9c4769ba6dd82a478f6e9a6a1c3d7b0c9a29508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:02 +0000
Subject: [PATCH 29/60] fix: strip of blank strings, and of one string to
 another

---
 lube/string.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index 3a56a9d..3e5ca64 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -232,20 +232,19 @@ var var::join(const char* iStr) const
 void Strip::string(const var& iVar, var& oVar) const
 {
     char* ip = const_cast<var&>(iVar).ptr<char>();
-    char* op = oVar.ptr<char>();
     int is = iVar.size();
     int leading = 0;
     while ((leading < is) && (isspace(ip[leading])))
         leading++;
     int trailing = 0;
-    while ((trailing < is) && (isspace(ip[is-trailing-1])))
+    while ((trailing < is-leading) && (isspace(ip[is-trailing-1])))
         trailing++;
 
     int newSize = is - leading - trailing;
     if (iVar.is(oVar))
     {
         if (leading > 0)
-            std::memmove(op, op+leading, newSize);
+            std::memmove(ip, ip+leading, newSize);
         if (newSize != oVar.size())
             oVar.resize(newSize);
     }
@@ -253,6 +252,7 @@ void Strip::string(const var& iVar, var& oVar) const
     {
         oVar = "";
         oVar.resize(newSize);
+        char* op = oVar.ptr<char>();
         for (int i=0; i<newSize; i++)
             op[i] = ip[i+leading];
     }
-- 
2.43.0


From dcb70a3c9124d711256aed2df4836917a6e33d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:14 +0000
Subject: [PATCH 30/60] fix: a limit of one piece when splitting on space, and
 splitting on nothing

---
 lube/string.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index 3e5ca64..ef37c80 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -151,6 +151,8 @@ var var::split(const char* iStr, int iMax) const
 {
     var r;
     int strLen = std::strlen(iStr);
+    if (strLen == 0)
+        throw error("var::split(): empty separator");
     const char* source = this->str();
     const char* p;
     if (iMax != 1)
@@ -184,6 +186,11 @@ var var::split(int iMax) const
     while (std::isspace(*p)) { ++p; }
     while (*p)
     {
+        if (iMax && (r.size() >= iMax-1))
+        {
+            r.push(p);
+            break;
+        }
         const char* beg = p;
         while (*p && !std::isspace(*p)) { ++p; }
         const char* end = p;
@@ -194,14 +201,6 @@ var var::split(int iMax) const
             r.push(s);
         }
         while (std::isspace(*p)) { ++p; }
-        if (iMax && (r.size() >= iMax-1))
-        {
-            if (*p)
-            {
-                r.push(p);
-                break;
-            }
-        }
     }
 
     return r;
-- 
2.43.0


From 256b31be72748f668e1f2b905bb175ff3c79fd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:16 +0000
Subject: [PATCH 31/60] fix: variable streams deliver all byte values, and
 refuse positions they do not have

---
 lube/stream.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index 3fc3b76..0cb7952 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -56,7 +56,7 @@ int varbuf::uflow()
     //
     // Following stringstream, this doesn't destroy the string
     if (mInd < mVar.size())
-        return mVar[mInd++].get<char>();
+        return traits_type::to_int_type(mVar[mInd++].get<char>());
     return traits_type::eof();
 }
 
@@ -64,7 +64,7 @@ int varbuf::underflow()
 {
     // Called for reads that do not consume data if not uflow().
     if (mInd < mVar.size())
-        return mVar[mInd].get<char>();
+        return traits_type::to_int_type(mVar[mInd].get<char>());
     return traits_type::eof();
 }
 
@@ -73,7 +73,15 @@ int varbuf::pbackfail(int iInt)
     // istreams are supposed to allow putting back one character.  Putting back
     // will always fail since it's bufferless, in which case this is called.
     if (mInd > 0)
-        return mVar[--mInd].get<char>();
+    {
+        // It has to be the character that was read
+        int c = traits_type::to_int_type(mVar[mInd-1].get<char>());
+        if ((iInt == traits_type::eof()) || (iInt == c))
+        {
+            mInd--;
+            return c;
+        }
+    }
     return traits_type::eof();
 }
 
@@ -82,8 +90,9 @@ std::streampos varbuf::seekpos(
 )
 {
     // Ignore mode for the moment
-    if (iPos < mVar.size())
-        mInd = iPos;
+    if ((iPos < 0) || (iPos > mVar.size()))
+        return std::streampos(std::streamoff(-1));
+    mInd = iPos;
     return iPos;
 }
 
-- 
2.43.0


From 31b5846f4d9341295d7a474907c5f63d42c18ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:18 +0000
Subject: [PATCH 32/60] fix: JSON escapes, decimals, arrays of one or of mixed
 elements, and truncated input

---
 lube/json.cpp | 168 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 151 insertions(+), 17 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index e96ff29..2a3c990 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -11,6 +11,7 @@
 #include <cctype>
 #include <cstring>
 #include <cassert>
+#include <vector>
 
 #include <lube/var.h>
 
@@ -28,10 +29,13 @@ namespace libube
     private:
         void formatArray(std::ostream& iStream, var iVar, int iIndent);
         void formatView(std::ostream& iStream, var iVar, int iIndent);
-        char peek(std::istream& iStream);
+        void formatString(std::ostream& iStream, var iVar);
+        int peek(std::istream& iStream);
+        int doHex(std::istream& iStream);
         var doValue(std::istream& iStream);
         var doObject(std::istream& iStream);
         var doArray(std::istream& iStream);
+        var array(std::vector<var>& iElem);
         var doString(std::istream& iStream);
         var doRaw(std::istream& iStream);
     };
@@ -42,9 +46,9 @@ using namespace libube;
 using namespace std;
 
 /** Find the next character after whitespace */
-char JSON::peek(std::istream& iStream)
+int JSON::peek(std::istream& iStream)
 {
-    char c = iStream.peek();
+    int c = iStream.peek();
     while (isspace(c))
     {
         iStream.get();
@@ -104,12 +108,12 @@ var JSON::doObject(std::istream& iStream)
             throw error("Unknown character");
         }
     }
-    return obj;
+    throw error("Unterminated JSON object");
 }
 
 var JSON::doArray(std::istream& iStream)
 {
-    var arr;
+    std::vector<var> elem;
     char got = iStream.get();
     if (got != '[')
         throw error("JSON array doesn't start with [");
@@ -119,18 +123,75 @@ var JSON::doArray(std::istream& iStream)
         {
         case ']':
             iStream.get();
-            return arr;
+            return array(elem);
             break;
         case ',':
             iStream.get();
             break;
         default:
-            arr.push(doValue(iStream));
+            elem.push_back(doValue(iStream));
+        }
+    }
+    throw error("Unterminated JSON array");
+}
+
+/**
+ * Make an array of the elements.  Numbers are in an array of numbers; anything
+ * else in an array of vars.
+ */
+var JSON::array(std::vector<var>& iElem)
+{
+    var arr;
+    for (size_t i=0; i<iElem.size(); i++)
+    {
+        // Find the widest type
+        if (iElem[i].type() == TYPE_ARRAY)
+        {
+            arr = nil;
+            break;
         }
+        if (!arr || arr.type() < iElem[i].type())
+            arr = iElem[i];
     }
+    arr.resize(iElem.size());
+    arr.array();
+    for (size_t i=0; i<iElem.size(); i++)
+        arr[i] = iElem[i];
     return arr;
 }
 
+/** Read the four hex digits of a unicode escape */
+int JSON::doHex(std::istream& iStream)
+{
+    int code = 0;
+    for (int i=0; i<4; i++)
+    {
+        int c = iStream.get();
+        if (!isxdigit(c))
+            throw error("Malformed JSON unicode escape");
+        code = code * 16 + (isdigit(c) ? c - '0' : (c | 0x20) - 'a' + 10);
+    }
+    return code;
+}
+
+/** Push a unicode code point as UTF-8 */
+static void pushCode(var& ioStr, int iCode)
+{
+    if (iCode < 0x80)
+        ioStr.push((char)iCode);
+    else
+    {
+        int shift = iCode < 0x800 ? 6 : iCode < 0x10000 ? 12 : 18;
+        int lead = iCode < 0x800 ? 0xc0 : iCode < 0x10000 ? 0xe0 : 0xf0;
+        ioStr.push((char)(lead | iCode >> shift));
+        while (shift)
+        {
+            shift -= 6;
+            ioStr.push((char)(0x80 | (iCode >> shift & 0x3f)));
+        }
+    }
+}
+
 var JSON::doString(std::istream& iStream)
 {
     var str = "";
@@ -148,8 +209,43 @@ var JSON::doString(std::istream& iStream)
             switch (got)
             {
             case '\"':
+            case '\\':
+            case '/':
                 str.push(got);
                 break;
+            case 'b':
+                str.push('\b');
+                break;
+            case 'f':
+                str.push('\f');
+                break;
+            case 'n':
+                str.push('\n');
+                break;
+            case 'r':
+                str.push('\r');
+                break;
+            case 't':
+                str.push('\t');
+                break;
+            case 'u':
+            {
+                int code = doHex(iStream);
+                if (code >= 0xd800 && code < 0xdc00)
+                {
+                    // The first half of a surrogate pair
+                    if (iStream.get() != '\\' || iStream.get() != 'u')
+                        throw error("Unpaired JSON surrogate");
+                    int low = doHex(iStream);
+                    if (low < 0xdc00 || low >= 0xe000)
+                        throw error("Unpaired JSON surrogate");
+                    code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+                }
+                else if (code >= 0xdc00 && code < 0xe000)
+                    throw error("Unpaired JSON surrogate");
+                pushCode(str, code);
+                break;
+            }
             default:
                 throw error("Unrecognised JSON string escape");
             }
@@ -167,7 +263,7 @@ var toNumber(var iStr)
     varstream vs(iStr);
     long l;
     vs >> l;
-    if (!vs.fail())
+    if (!vs.fail() && vs.peek() == EOF)
         return l;
 
     // Try for double
@@ -175,7 +271,7 @@ var toNumber(var iStr)
     vs.seekg(0);
     double d;
     vs >> d;
-    if (!vs.fail())
+    if (!vs.fail() && vs.peek() == EOF)
         return d;
 
     // Failed
@@ -186,14 +282,14 @@ var JSON::doRaw(std::istream& iStream)
 {
     // Read up to a space or JSON delimiter
     var val = "";
-    char c;
-    while (iStream.get(c))
+    int c;
+    while ((c = iStream.peek()) != EOF)
     {
         if (isspace(c))
             break;
-        if (strchr(",[]{}", c))
+        if (c && strchr(",:[]{}\"", c))
             break;
-        val.push(c);
+        val.push((char)iStream.get());
     }
 
     // These values have special meanings
@@ -295,9 +391,7 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
     switch (iVar.atype())
     {
     case TYPE_CHAR:
-        iStream << "\"";
-        iStream << iVar.ptr<char>();
-        iStream << "\"";
+        formatString(iStream, iVar);
         break;
     case TYPE_PAIR:
         // Might be empty
@@ -346,7 +440,7 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
             {
                 for (int j=0; j<iIndent+2; j++)
                     iStream << " ";
-                iStream << iVar.ptr<cdouble>(i);
+                iStream << *iVar.ptr<cdouble>(i);
                 if (i < iVar.size()-1)
                     iStream << ",";
                 iStream << "\n";
@@ -368,6 +462,46 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
     }
 }
 
+/** Write a string with the escapes that JSON needs */
+void JSON::formatString(std::ostream& iStream, var iVar)
+{
+    const char* hex = "0123456789abcdef";
+    const char* str = iVar.str();
+    iStream << "\"";
+    for (int i=0; i<iVar.size(); i++)
+    {
+        unsigned char c = str[i];
+        switch (c)
+        {
+        case '\"':
+        case '\\':
+            iStream << '\\' << str[i];
+            break;
+        case '\b':
+            iStream << "\\b";
+            break;
+        case '\f':
+            iStream << "\\f";
+            break;
+        case '\n':
+            iStream << "\\n";
+            break;
+        case '\r':
+            iStream << "\\r";
+            break;
+        case '\t':
+            iStream << "\\t";
+            break;
+        default:
+            if (c < 0x20)
+                iStream << "\\u00" << hex[c >> 4] << hex[c & 0xf];
+            else
+                iStream << str[i];
+        }
+    }
+    iStream << "\"";
+}
+
 // May still be too verbose
 void JSON::formatView(std::ostream& iStream, var iVar, int iIndent)
 {
-- 
2.43.0


From 03b738220a6ce40cfbf6b8aa7a08552d2dc61242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 33/60] fix: a flag given twice on the command line

---
 lube/config.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lube/config.cpp b/lube/config.cpp
index 18ac363..0240eae 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -97,8 +97,12 @@ var Option::parse(int iArgc, char** iArgv)
         var o = (char)get();
         if (o == '?')
             usage(0);
-        var a = mOpts[o] ? arg() : 1;
-        mOpts[o] = a;
+        // The default may be overwritten already, so doesn't say if there is
+        // an argument
+        if (optarg)
+            mOpts[o] = arg();
+        else
+            mOpts[o] = 1;
     }
     return mOpts;
 }
-- 
2.43.0


From be6f9752ff4ef4cb2ca26ebacaeaa78a256909ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 34/60] fix: values in INI files can contain the separator

---
 lube/inifile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index 6bcc125..3a07016 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -58,9 +58,10 @@ var inifile::read(var iFile)
         else
         {
             // It's a 'key [=:] value' line
-            var kv = f.split("=");
+            // Only split once; the value can contain further separators
+            var kv = f.split("=", 2);
             if (kv.size() < 2)
-                kv = f.split(":");
+                kv = f.split(":", 2);
             if (kv.size() < 2)
                 throw error("inifile::read(): couldn't split");
             kv[0].strip();
-- 
2.43.0


From 4fb2fabbe04f62e7af280a25d108f5259cc7f363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:45 +0000
Subject: [PATCH 35/60] fix: sound files of several channels, and handles left
 open

---
 lube/sndfile.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index 38ca37b..ac13630 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -51,13 +51,14 @@ var sndfile::read(var iFile)
     int size = sfInfo.frames * sfInfo.channels;
     var data = 0.0f;
     data.resize(size);
-    int nGot = sf_readf_float(snd, data.ptr<float>(), size);
-    if (nGot != size)
+    sf_count_t nGot = size
+        ? sf_readf_float(snd, data.ptr<float>(), sfInfo.frames) : 0;
+    sf_close(snd);
+    if (nGot != sfInfo.frames)
         throw error("sndfile::read: Size fuckup");
     if (sfInfo.channels != 1)
         // In place transpose for channels > 1
         data = data.view({(int)sfInfo.frames, sfInfo.channels}).transpose();
-    sf_close(snd);
     return data;
 }
 
@@ -68,20 +69,18 @@ void sndfile::write(var iFile, var iVar)
     sfInfo.format = SF_FORMAT_WAV | SF_FORMAT_PCM_16 | SF_ENDIAN_FILE;
     sfInfo.samplerate = mAttr["rate"].get<int>();
     sfInfo.channels = iVar.dim() > 1 ? iVar.shape(0) : 1;
+
+    // Channels are interleaved in the file
+    var data = iVar.dim() > 1 ? transpose(iVar) : iVar;
+    int frames = data.size() / sfInfo.channels;
+    const float* ptr = frames ? data.ptr<float>() : 0;
     SNDFILE* snd = sf_open(iFile.str(), SFM_WRITE, &sfInfo);
     if (!snd)
         throw error("sndfile::write: Failed to open file");
 
     // Write stuff
-    int n;
-    if (iVar.dim() > 1)
-    {
-        var tr = transpose(iVar);
-        n = (int)sf_writef_float(snd, tr.ptr<float>(), tr.size());
-    }
-    else
-        n = (int)sf_writef_float(snd, iVar.ptr<float>(), iVar.size());
+    sf_count_t n = frames ? sf_writef_float(snd, ptr, frames) : 0;
     sf_close(snd);
-    if (iVar.size() != n)
+    if (n != frames)
         throw error("sndfile::write: Size fuckup");
 }
-- 
2.43.0


From a61c48a49a8102e7c89ee8cc323c1a5687154bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:11 +0000
Subject: [PATCH 36/60] fix: back traces with lines that have no function or no
 offset

---
 lube/var.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 2f87622..efc3ac5 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1691,7 +1691,13 @@ void error::backTrace(std::ostream& iStream)
         //   file(function+offset)someotherstuff
         // We want to demangle the function name
         char* paren1 = strchr(symbol[i], '(');
-        char* paren2 = strchr(symbol[i], ')');
+        char* paren2 = paren1 ? strchr(paren1, ')') : 0;
+        if (!paren2)
+        {
+            // There's no function at all
+            iStream << "\n  " << symbol[i];
+            continue;
+        }
         *paren1 = '\0';
         // Just the file, not very helpful
         //iStream << "\n  " << symbol[i] << ":\n    ";
@@ -1699,15 +1705,18 @@ void error::backTrace(std::ostream& iStream)
         {
             // It's an empty name
             iStream << "(undefined)";
-            return;
+            break;
         }
+        *paren2 = '\0';
         char* plus = strchr(paren1+1, '+');
-        *plus = '\0';
-        buffer = abi::__cxa_demangle(paren1+1, buffer, &length, &status);
+        if (plus)
+            *plus = '\0';
+        char* name = abi::__cxa_demangle(paren1+1, buffer, &length, &status);
         iStream << "\n  ";  // Indent
         switch (status)
         {
         case 0:
+            buffer = name;
             iStream << buffer;
             break;
         case -1:
-- 
2.43.0


From 00aad89d6bf88c18cb83d9756876a2cfdb3307cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:12 +0000
Subject: [PATCH 37/60] fix: sound file samples have to be float

---
 lube/sndfile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index ac13630..0fce644 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -70,6 +70,9 @@ void sndfile::write(var iFile, var iVar)
     sfInfo.samplerate = mAttr["rate"].get<int>();
     sfInfo.channels = iVar.dim() > 1 ? iVar.shape(0) : 1;
 
+    if (iVar.atype() != TYPE_FLOAT)
+        throw error("sndfile::write: Samples are not float");
+
     // Channels are interleaved in the file
     var data = iVar.dim() > 1 ? transpose(iVar) : iVar;
     int frames = data.size() / sfInfo.channels;
-- 
2.43.0


From 8478cc47c4f9cf9c0eb4513434f2ea64a1ac0a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:45 +0000
Subject: [PATCH 38/60] fix: close a library without a factory

---
 lube/module.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lube/module.cpp b/lube/module.cpp
index de518bd..c4bc473 100644
--- a/lube/module.cpp
+++ b/lube/module.cpp
@@ -35,7 +35,12 @@ module::module(var iType)
     // Find the factory function
     *(void **)(&mFactory) = dlsym(mHandle, "factory");
     if ((dle = dlerror()) != NULL)
-        throw error(dle);
+    {
+        // The destructor won't run, and dlclose() may overwrite the message
+        error e(dle);
+        dlclose(mHandle);
+        throw e;
+    }
 }
 
 
-- 
2.43.0


From c3d85d51a50524022c78c97f9c4f133cce78f69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:24 +0000
Subject: [PATCH 39/60] fix: Fourier transforms of double, and of rows that are
 too short; release on failure

---
 lube/dft-mkl.cpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 2feb0d4..1a5f229 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -21,6 +21,7 @@ struct libube::DFTImpl
     DFTI_DESCRIPTOR_HANDLE handle;
     var forwardType;
     var inverseType;
+    int iSize;
     int oSize;
     bool inverse;
 };
@@ -46,7 +47,16 @@ void dftiCheck(MKL_LONG iReturn)
  */
 DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 {
-    mImpl = new DFTImpl;
+    // Owned locally until it's complete; the destructor doesn't run on a throw
+    struct Free {
+        DFTImpl* impl;
+        ~Free() {
+            if (impl && impl->handle)
+                DftiFreeDescriptor(&impl->handle);
+            delete impl;
+        }
+    } guard = { new DFTImpl };
+    mImpl = guard.impl;
 
     // It's a 1 dimensional thing (for now)
     mDim = 1;
@@ -56,7 +66,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     // Set the input and output types for a forward transform
     MKL_LONG r;
-    switch (mImpl->forwardType.type())
+    switch (mImpl->forwardType.atype())
     {
     case TYPE_FLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
@@ -91,12 +101,18 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     }
     dftiCheck(r);
 
+    // The complex side of a real transform is shorter
+    bool real = mImpl->forwardType.atype() == TYPE_FLOAT
+        || mImpl->forwardType.atype() == TYPE_DOUBLE;
+    mImpl->iSize = iInverse && real ? iSize / 2 + 1 : iSize;
+
     // Default is to overwrite the input
     r = DftiSetValue(mImpl->handle, DFTI_PLACEMENT, DFTI_NOT_INPLACE);
     dftiCheck(r);
 
     r = DftiCommitDescriptor(mImpl->handle);
     dftiCheck(r);
+    guard.impl = 0;
 }
 
 DFTBase::~DFTBase()
@@ -125,15 +141,19 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
     if (oVar.type() != TYPE_ARRAY)
         throw error("DFTBase::scalar: DFTBase output must be vector");
     if (iVar.atype() != (mImpl->inverse
-                         ? mImpl->inverseType.type()
-                         : mImpl->forwardType.type()
+                         ? mImpl->inverseType.atype()
+                         : mImpl->forwardType.atype()
         ))
         throw error("DFTBase::scalar: wrong input type");
     if (oVar.atype() != (mImpl->inverse
-                          ? mImpl->forwardType.type()
-                          : mImpl->inverseType.type()
+                          ? mImpl->forwardType.atype()
+                          : mImpl->inverseType.atype()
         ))
         throw error("DFTBase::scalar: wrong output type");
+    if (iVar.shape(iVar.dim()-1) < mImpl->iSize)
+        throw error("DFTBase::scalar: input too short");
+    if (oVar.shape(oVar.dim()-1) < mImpl->oSize)
+        throw error("DFTBase::scalar: output too short");
 
     // DFTBase always broadcasts to vector()
     broadcast(iVar, oVar);
@@ -157,7 +177,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
     }
     else
         if (mImpl->inverse)
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 r = DftiComputeBackward(
@@ -191,7 +211,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
                 throw error("DFTBase::vector(): unknown type");
             }
         else
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 r = DftiComputeForward(
-- 
2.43.0


From 0f2628b16510a389f21a40253cff8dc153649dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:28 +0000
Subject: [PATCH 40/60] fix: format views of cdouble

---
 lube/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 2a3c990..9ad5f98 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -369,8 +369,8 @@ void JSON::format(std::ostream& iStream, var iVar, int iIndent)
         iStream << iVar.get<cfloat>();
         break;
     case TYPE_CDOUBLE:
-        //iStream << iVar.get<cdouble>();
-        throw error("var::format(): cdouble should be array");
+        // It's an element of a view; otherwise it's an array of one
+        iStream << iVar.get<cdouble>();
         break;
     default:
         throw error("var::format(): Unknown type");
-- 
2.43.0


From a9698513e300f32f5afe7668d20e6ebaa1aeb9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 41/60] fix: GEDCOM files that are cut short, empty records and
 unknown tags

---
 lube/gedfile.cpp | 79 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 60 insertions(+), 19 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 4619192..5a194de 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -28,6 +28,7 @@ namespace libube
         var family();
         int readLine();
         bool knownToken(var iToken);
+        int skip(int iLevel);
         void doFile(int iLevel);
         int doHeader(int iLevel);
         int doSubmitter(int iLevel);
@@ -156,11 +157,9 @@ var GEDCOM::family()
 int GEDCOM::readLine()
 {
     var line;
-    if (line.getline(mInStream))
-        mField = line.split(" ");
-    else
-        std::cout << "Premature end of file" << std::endl;
-        
+    if (!line.getline(mInStream))
+        throw error("GEDCOM: Premature end of file");
+    mField = line.split(" ");
     int level = mField.shift().cast<int>();
     //std::cout << "[" << level << "]" << mField << std::endl;
     return level;
@@ -168,9 +167,16 @@ int GEDCOM::readLine()
 
 var GEDCOM::loadFile(var iFileName)
 {
+    // There may be something left of a previous file
+    mVar = nil;
+    mIndividualMap = nil;
+    mFamilyMap = nil;
+    mInStream.close();
+    mInStream.clear();
+
     mInStream.open(iFileName.str());
     if (mInStream.fail())
-        std::cout << "Open failed" << std::endl;
+        throw error("GEDCOM: Open failed");
     doFile(readLine());
     mInStream.close();
     return mVar;
@@ -184,9 +190,18 @@ bool GEDCOM::knownToken(var iToken)
     return false;
 }
 
+/** Skip a line that isn't understood, along with everything below it */
+int GEDCOM::skip(int iLevel)
+{
+    int level;
+    do
+        level = readLine();
+    while (level > iLevel);
+    return level;
+}
+
 void GEDCOM::doFile(int iLevel)
 {
-    bool haveTrailer = false;
     int level = iLevel;
     do
     {
@@ -197,28 +212,38 @@ void GEDCOM::doFile(int iLevel)
             var token = mField.shift();
 
             if (!knownToken(token))
-                break;
+            {
+                level = skip(iLevel);
+                continue;
+            }
 
             var entity;
             switch (mTokenMap[token].cast<int>())
             {
             case SUBM:
-                doSubmitter(readLine());
+                level = readLine();
+                if (level > iLevel)
+                    level = doSubmitter(level);
                 break;
             case INDI:
                 entity = individual();
                 mIndividualMap[xref] = mVar["Individual"].size();
                 mVar["Individual"].push(entity);
-                doIndividual(readLine(), entity);
+                level = readLine();
+                if (level > iLevel)
+                    level = doIndividual(level, entity);
                 break;
             case FAM:
                 entity = family();
                 mFamilyMap[xref] = mVar["Family"].size();
                 mVar["Family"].push(entity);
-                doFamily(readLine(), entity);
+                level = readLine();
+                if (level > iLevel)
+                    level = doFamily(level, entity);
                 break;
             default:
                 std::cout << "File: Unknown tag " << mField << std::endl;
+                level = skip(iLevel);
             }
         }
         else
@@ -227,22 +252,27 @@ void GEDCOM::doFile(int iLevel)
             var token = mField.shift();
 
             if (!knownToken(token))
-                break;
+            {
+                level = skip(iLevel);
+                continue;
+            }
             switch (mTokenMap[token].cast<int>())
             {
             case HEAD:
-                level = doHeader(readLine());
+                level = readLine();
+                if (level > iLevel)
+                    level = doHeader(level);
                 continue;
             case TRLR:
                 return;
             default:
                 std::cout << "File: Unknown tag " << token << std::endl;
+                level = skip(iLevel);
             }
         }
     }
     while (level >= iLevel);
-    if (!haveTrailer)
-        std::cout << "Trailer not found" << std::endl;
+    throw error("GEDCOM: Trailer not found");
 }
 
 int GEDCOM::doHeader(int iLevel)
@@ -276,7 +306,10 @@ int GEDCOM::doIndividual(int iLevel, var iInd)
     {
         var token = mField.shift();
         if (!knownToken(token))
-            break;
+        {
+            level = skip(level);
+            continue;
+        }
         switch (mTokenMap[token].cast<int>())
         {
         case NAME:
@@ -327,7 +360,10 @@ int GEDCOM::doBirth(int iLevel)
     {
         var token = mField.shift();
         if (!knownToken(token))
-            break;
+        {
+            level = skip(level);
+            continue;
+        }
         switch (mTokenMap[token].cast<int>())
         {
         case DATE:
@@ -362,7 +398,10 @@ int GEDCOM::doFamily(int iLevel, var iFam)
         var token = mField.shift();
         var indiv;
         if (!knownToken(token))
-            break;
+        {
+            level = skip(level);
+            continue;
+        }
         switch (mTokenMap[token].cast<int>())
         {
         case HUSB:
@@ -391,7 +430,9 @@ int GEDCOM::doFamily(int iLevel, var iFam)
             break;
         case MARR:
             std::cout << "Married" << std::endl;
-            level = doBirth(readLine());
+            level = readLine();
+            if (level > iLevel)
+                level = doBirth(level);
             continue;
         default:
             std::cout << "Family: Unknown tag" << token << std::endl;
-- 
2.43.0


From 248f985e92c3e8d0e7b11277255bd5cd59988641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:23 +0000
Subject: [PATCH 42/60] fix: XML documents that are cut short, line ends within
 tags, space around the root

---
 lube/xmlfile.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index c2bb25e..d509300 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, October 2013
  */
 
+#include <cstring>
 #include <fstream>
 #include <stdexcept>
 #include <lube/module.h>
@@ -92,8 +93,12 @@ static void DefaultHandler(
     void *iUserData, const XML_Char *iStr, int iLen
 )
 {
-    // DOS line ends find their way here.  Why?
-    if ((iLen == 1) && (*iStr == '\r'))
+    // White space outside the root element finds its way here, as do DOS line
+    // ends.
+    int i = 0;
+    while ((i < iLen) && strchr(" \t\r\n", iStr[i]))
+        i++;
+    if (i == iLen)
         return;
 
     var str(iLen, iStr);
@@ -177,11 +182,13 @@ var Expat::parse(const char* iFile)
     XML_Status s;
     while (f.getline(is))
     {
+        // The line end separates too
+        f.push('\n');
         s = XML_Parse(mParser, f.str(), f.size(), 0);
         if (!s)
             throw error("xmlfile::parse(): Error!");
     }
-    s = XML_Parse(mParser, f.str(), 0, 0);
+    s = XML_Parse(mParser, "", 0, 1);
     if (!s)
         throw error("xmlfile::parse(): Error!");
     if (mStack.size() != 0)
@@ -233,6 +240,10 @@ void Expat::endElementHandler(const XML_Char *iName)
 
 void Expat::characterDataHandler(const XML_Char *iStr, int iLen)
 {
+    // Line ends aren't stored (but references to them are)
+    if ((iLen == 1) && (*iStr == '\n')
+        && (XML_GetCurrentByteCount(mParser) <= 2))
+        return;
     var str(iLen, iStr);
     mStack.top()[DATA].push(str);
 }
-- 
2.43.0


From 5949303c800ac9862acde38bb82057a22ee28b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:25 +0000
Subject: [PATCH 43/60] fix: no empty line in the data of a plotted matrix

---
 lube/gnuplot.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lube/gnuplot.cpp b/lube/gnuplot.cpp
index 303b06e..5c93db0 100644
--- a/lube/gnuplot.cpp
+++ b/lube/gnuplot.cpp
@@ -109,14 +109,13 @@ void gnuplot::write(var iFile, var iVar)
             case 2:
             {
                 // It's a matrix; write it out as a transpose
-                varstream vs;
                 for (int j=0; j<line.shape(1); j++)
                 {
+                    varstream vs;
                     for (int i=0; i<line.shape(0); i++)
                         vs << " " << line(i, j);
-                    vs << "\n";
+                    puts(vs.str());
                 }
-                puts(vs.str());
                 puts("e");
                 break;
             }
-- 
2.43.0


From 47df1fb52faecb56114751f24dab60593bf31bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:13 +0000
Subject: [PATCH 44/60] fix: indexing a scalar by key is refused

---
 lube/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index efc3ac5..a6ef5cb 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -790,7 +790,7 @@ var var::operator [](var iVar)
         v.attach(new Heap(0, TYPE_PAIR));
     }
     else
-        if (v.heap() && !v.atype<pair>())
+        if (!v.heap() || !v.atype<pair>())
             // Fall back to normal array if the var can be cast to int
             return operator [](iVar.cast<int>());
     if (!iVar)
-- 
2.43.0


From 0b15667e3b6521b3ffd3a6feaad295f83de504ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 45/60] fix: elements of arrays of cdouble compare equal to the
 same value

---
 lube/var.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index a6ef5cb..abd8689 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -523,7 +523,15 @@ var& var::varderef()
 bool var::operator !=(var iVar) const
 {
     if (type() != iVar.type())
+    {
+        // An element of an array of cdouble compares as the array of one that
+        // a var of the same value is
+        if (type() == TYPE_CDOUBLE)
+            return var(get<cdouble>()) != iVar;
+        if (iVar.type() == TYPE_CDOUBLE)
+            return *this != var(iVar.get<cdouble>());
         return true;
+    }
     if (size() != iVar.size())
         return true;
     switch (type())
@@ -564,7 +572,15 @@ bool var::operator !=(var iVar) const
 bool var::operator <(var iVar) const
 {
     if (type() != iVar.type())
+    {
+        // An element of an array of cdouble compares as the array of one that
+        // a var of the same value is
+        if (type() == TYPE_CDOUBLE)
+            return var(get<cdouble>()) < iVar;
+        if (iVar.type() == TYPE_CDOUBLE)
+            return *this < var(iVar.get<cdouble>());
         return (type() < iVar.type());
+    }
 
     switch (type())
     {
-- 
2.43.0


From bbe612e57b73813a6b97fe076f327c8e8b2820e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:41 +0000
Subject: [PATCH 46/60] fix: string functions on nested arrays, and on what is
 not a string

---
 lube/string.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index ef37c80..1420d68 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -78,6 +78,14 @@ void StringFunctor::string(const var& iVar, var& oVar) const
  */
 void StringFunctor::broadcast(var iVar, var& oVar) const
 {
+    // Anything that isn't a string has to be an array of them
+    if (iVar.defined() && !iVar.heap())
+        throw error("StringFunctor::broadcast: not a string");
+
+    // Elements of a new array are not yet allocated
+    if (iVar.defined() && !oVar.defined())
+        oVar = alloc(iVar);
+
     // This could be parallel!
     for (int i=0; i<iVar.size(); i++)
     {
-- 
2.43.0


From 87c999115c7e906531bb24b8cb033ff280370885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:30 +0000
Subject: [PATCH 47/60] fix: arithmetic and functions on maps and on nested
 arrays

---
 lube/func.cpp | 12 ++++++++++--
 lube/heap.cpp |  7 ++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 2961471..70c612e 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -104,8 +104,12 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
         // This could be parallel!
         for (int i=0; i<iVar.size(); i++)
         {
+            // An element that's an array needs space in a new array
             var ref = oVar.at(i);
-            scalar(iVar.at(i), ref);
+            var elem = iVar.at(i);
+            if (elem.heap() && !ref.defined())
+                ref = alloc(elem);
+            scalar(elem, ref);
         }
         return;
     }
@@ -273,8 +277,12 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
         // This could be parallel!
         for (int i=0; i<iVar1.size(); i++)
         {
+            // An element of a new array of var has no type yet
             var tmp = oVar.at(i);
-            scalar(iVar1.at(i), v2, tmp);
+            var elem = iVar1.at(i);
+            if (!tmp.defined())
+                tmp = alloc(elem, v2);
+            scalar(elem, v2, tmp);
         }
         return;
     }
diff --git a/lube/heap.cpp b/lube/heap.cpp
index a6ef825..e49c49a 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -74,8 +74,13 @@ Heap::Heap(const IHeap& iHeap, bool iAllocOnly) : Heap()
 {
     mType = iHeap.type();
     resize(iHeap.size());
+    const Heap* heap = reinterpret_cast<const Heap*>(&iHeap);
     if (!iAllocOnly)
-        copy(reinterpret_cast<const Heap*>(&iHeap), mSize);
+        copy(heap, mSize);
+    else if (mType == TYPE_PAIR)
+        // The keys are the shape of a map
+        for (int i=0; i<mSize; i++)
+            mData.pp[i].key = heap->mData.pp[i].key;
 }
 
 
-- 
2.43.0


From 56cacfb04b9f826c018b5f9e7c9820195b5a273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 48/60] fix: multiplication by an array of one element

---
 lube/math.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 3a4052b..1949994 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -503,7 +503,13 @@ void Mul::broadcast(var iVar1, var iVar2, var& oVar) const
     // it over the unary operator.
     if ((iVar2.dim() == 1) && (iVar2.size() == 1))
     {
-        scale(iVar1, iVar2, oVar, 0);
+        // An array of one is its value
+        var v2;
+        if (iVar2.heap() && !iVar2.atype<char>())
+            v2 = iVar2.at(0);
+        else
+            v2 = iVar2;
+        scale(iVar1, v2, oVar, 0);
         return;
     }
     else
-- 
2.43.0


From d281b92eaf49fac7faab14fecf1ce837f79b1f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:48 +0000
Subject: [PATCH 49/60] fix: at(key) of an element that is a map

---
 lube/var.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index abd8689..bc3a9c5 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -897,16 +897,17 @@ var var::at(int iIndex) const
  */
 var var::at(var iVar) const
 {
-    if (!defined())
+    var v = *this;
+    v.dereference();
+    if (!v)
         throw error("var::at(): uninitialised");
-    else
-        if (heap() && !atype<pair>())
-            throw error("operator [var]: Not a map");
+    if (!v.heap() || !v.atype<pair>())
+        throw error("var::at(): Not a map");
 
-    int index = binary(iVar);
-    if ( (index >= size()) || (heap()->key(index) != iVar) )
+    int index = v.binary(iVar);
+    if ( (index >= v.size()) || (v.heap()->key(index) != iVar) )
         return nil;
-    return reference(index);
+    return v.reference(index);
 }
 
 
-- 
2.43.0


From 41407f863246346f4a244596733c77cb43e06379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:22 +0000
Subject: [PATCH 50/60] fix: GEDCOM families without any individual

---
 lube/gedfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 5a194de..8cff3b7 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -171,6 +171,7 @@ var GEDCOM::loadFile(var iFileName)
     mVar = nil;
     mIndividualMap = nil;
     mFamilyMap = nil;
+    mIndividualMap[nil]; // Look-ups need a map even if it's empty
     mInStream.close();
     mInStream.clear();
 
-- 
2.43.0


From 91ec7e48260af1211d0af2e8e8e8bce6d3bc4c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 51/60] fix: plotting a matrix after another overwrote the
 first

---
 lube/gnuplot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/gnuplot.cpp b/lube/gnuplot.cpp
index 5c93db0..5c8258f 100644
--- a/lube/gnuplot.cpp
+++ b/lube/gnuplot.cpp
@@ -68,7 +68,6 @@ var gnuplot::read(var iFile)
 
 void gnuplot::write(var iFile, var iVar)
 {
-    var line;
     if (iFile)
     {
         // Default to whatever gnuplot's default is, but if a file is supplied
@@ -82,7 +81,8 @@ void gnuplot::write(var iFile, var iVar)
     // Loop over the input var assuming it's an array of vars
     for (int i=0; i<iVar.size(); i++)
     {
-        line = iVar[i];
+        // A new var each time; assigning to a view would write into its data
+        var line = iVar[i];
         switch (line.atype())
         {
         case TYPE_CHAR:
-- 
2.43.0


From c14d2aa6467744bbb7456ea1443c2c6b35c98860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:18 +0000
Subject: [PATCH 52/60] fix: roots of a polynomial of degree one

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 1949994..077c1b1 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1084,7 +1084,7 @@ void Roots::vector(var iVar, var& oVar) const
 {
     // Form the companion matrix of the polynomial
     int size = oVar.size();
-    var a = var(size*size, iVar.at(0)).view({size, size});
+    var a = libube::view({size, size}, iVar.at(0));
     for (int r=1; r<size; r++)
         a(r, size-1) = 0.0;
     for (int r=0; r<size-1; r++)
-- 
2.43.0


From 4c5f8801b11765964b9fc7c6aee4c25b05459210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:40 +0000
Subject: [PATCH 53/60] fix: atypeStr() of an undefined variable

---
 lube/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index bc3a9c5..d8bd17e 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1098,7 +1098,7 @@ var var::typeStr() const
  */
 var var::atypeStr() const
 {
-    if (type() == TYPE_ARRAY)
+    if (heap())
     {
         varstream s;
         s << "array[" << libube::typeStr(heap()->type()) << "]";
-- 
2.43.0


From 058c2fb2544e754c9dacf27c9be6c05d0d9ab6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:44 +0000
Subject: [PATCH 54/60] fix: a new view does not share the variable giving its
 type

---
 lube/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index d8bd17e..7b63f76 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1532,7 +1532,7 @@ var libube::view(const std::initializer_list<int> iShape, var iType)
     int s = 1;
     for (const int* it=begin(iShape); it!=end(iShape); ++it)
         s *= *it;
-    var v = iType ? iType : 0.0f;
+    var v = iType ? iType.copy() : 0.0f;
     v.array();
     v.resize(s);
     return v.view(iShape);
@@ -1548,7 +1548,7 @@ var libube::view(var iShape, var iType)
     int s = 1;
     for (int i=0; i<iShape.size(); i++)
         s *= iShape[i].cast<int>();
-    var v = iType ? iType : 0.0f;
+    var v = iType ? iType.copy() : 0.0f;
     v.array();
     v.resize(s);
     return v.view(iShape);
-- 
2.43.0


From b0cd5360de0f162eda2ab99c09dec6d0aff025c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:45 +0000
Subject: [PATCH 55/60] fix: XML elements do not share their type string

---
 lube/xmlfile.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index d509300..7db2628 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -209,7 +209,11 @@ var Expat::element()
         elem[ATTR] = nil;
         elem[TYPE] = "text";
     }
-    return elem.copy();
+
+    // The type string isn't shared between elements
+    var e = elem.copy();
+    e[TYPE] = "text";
+    return e;
 }
 
 
-- 
2.43.0


From 13052199d1f563c9e183d7c9d31886e1bb106b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:27 +0000
Subject: [PATCH 56/60] fix: Kiss FFT transforms refuse rows that are too short
 and sizes there are no transforms of

---
 lube/dft-kiss.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/lube/dft-kiss.cpp b/lube/dft-kiss.cpp
index 651cbd5..a806e09 100644
--- a/lube/dft-kiss.cpp
+++ b/lube/dft-kiss.cpp
@@ -29,6 +29,7 @@ struct libube::DFTImpl
     void* config;
     var forwardType;
     var inverseType;
+    int iSize;
     int oSize;
     bool inverse;
 };
@@ -46,7 +47,15 @@ using namespace libube;
  */
 DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 {
-    mImpl = new DFTImpl;
+    if (iSize < 1)
+        throw error("DFTBase::DFTBase: size must be positive");
+
+    // Owned locally until it's complete; the destructor doesn't run on a throw
+    struct Free {
+        DFTImpl* impl;
+        ~Free() { delete impl; }
+    } guard = { new DFTImpl };
+    mImpl = guard.impl;
 
     // It's a 1 dimensional thing (for now)
     mDim = 1;
@@ -83,6 +92,15 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
         throw error("DFTBase::DFTBase: Unknown type");
     }
     
+    // There are no real transforms of odd size
+    if (!mImpl->config)
+        throw error("DFTBase::DFTBase: Kiss FFT does not support the size");
+
+    // The complex side of a real transform is shorter
+    mImpl->iSize = iInverse && mImpl->forwardType.type() == TYPE_FLOAT
+        ? iSize / 2 + 1 : iSize;
+    guard.impl = 0;
+
     // Update the instance count
     kissfft::sInstanceCount++;
 }
@@ -124,6 +142,10 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
                           : mImpl->inverseType.type()
         ))
         throw error("DFTBase::scalar: wrong output type");
+    if (iVar.shape(iVar.dim()-1) < mImpl->iSize)
+        throw error("DFTBase::scalar: input too short");
+    if (oVar.shape(oVar.dim()-1) < mImpl->oSize)
+        throw error("DFTBase::scalar: output too short");
 
     // DFTBase always broadcasts to vector()
     broadcast(iVar, oVar);
-- 
2.43.0


From b6abd85b8c2daa9d394f19fcf340b0b3e7070a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:30 +0000
Subject: [PATCH 57/60] fix: status of the eigenvalue routines

---
 lube/clapack.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lube/clapack.cpp b/lube/clapack.cpp
index a69a0f1..10e5e73 100644
--- a/lube/clapack.cpp
+++ b/lube/clapack.cpp
@@ -234,13 +234,19 @@ namespace blas
 
 namespace lapack
 {
+    // The library may have integers of half the size, and write only those
+    static long status(long iInfo)
+    {
+        return static_cast<int>(iInfo);
+    }
+
     template<>
     long gees<float>(
         long n, float* a, float* wr, float* wi, float* vs
     )
     {
-        long sdim;
-        long info;
+        long sdim = 0;
+        long info = 0;
         long lwork = std::max(1L,n*3);
         float work[lwork];
         sgees_(
@@ -250,7 +256,7 @@ namespace lapack
             (vs ? vs : 0), &n,
             work, &lwork, 0, &info
         );
-        return info;
+        return status(info);
     }
 
     template<>
@@ -258,7 +264,7 @@ namespace lapack
         long n, float* a, float* wr, float* wi, float* vl, float* vr
     )
     {
-        long info;
+        long info = 0;
         long lwork = std::max(1L,n*4);
         float work[lwork];
         sgeev_(
@@ -269,7 +275,7 @@ namespace lapack
             (vl ? vl : 0), &n,
             work, &lwork, &info
         );
-        return info;
+        return status(info);
     }
 
     template<>
@@ -277,7 +283,7 @@ namespace lapack
         long n, double* a, double* wr, double* wi, double* vl, double* vr
     )
     {
-        long info;
+        long info = 0;
         long lwork = std::max(1L,n*4);
         double work[lwork];
         dgeev_(
@@ -288,6 +294,6 @@ namespace lapack
             (vl ? vl : 0), &n,
             work, &lwork, &info
         );
-        return info;
+        return status(info);
     }
 }
-- 
2.43.0


From 0025f0cff72da488bbcaf10fca54492c6c6ec171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:23 +0000
Subject: [PATCH 58/60] fix: division by an empty array of the same type made
 it longer

---
 lube/func.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 70c612e..7504c2e 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -204,9 +204,9 @@ void BinaryFunctor::vector(
     int dimO =  oVar.dim();
     int cdim = dim1 - mDim;
     var iv1 =
-        (dim1 == cdim) ? iVar1[iOffset1] : iVar1.subview(dim1-cdim, iOffset1);
+        (dim1 == cdim) ? iVar1.at(iOffset1) : iVar1.subview(dim1-cdim, iOffset1);
     var iv2 =
-        (dim2 == cdim) ? iVar2[iOffset2] : iVar2.subview(dim2-cdim, iOffset2);
+        (dim2 == cdim) ? iVar2.at(iOffset2) : iVar2.subview(dim2-cdim, iOffset2);
     var ov =
         (dimO == cdim) ?  oVar[iOffsetO] :  oVar.subview(dimO-cdim, iOffsetO);
     vector(iv1, iv2, ov);
-- 
2.43.0


From 92f1b3501502c4c9346b2e3a917b40992a8d5a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:26 +0000
Subject: [PATCH 59/60] fix: inserting an element of an array turned that
 element into an array

---
 lube/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 7b63f76..294169a 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1248,7 +1248,7 @@ var& var::insert(var iVar, int iIndex)
         var v;
         v.attach(new Heap(iVar.size(), atype()));
         for (int i=0; i<v.size(); i++)
-            v.at(i) = iVar[i];
+            v.at(i) = iVar.at(i);
 
         resize(size()+v.size());
         for (int i=size()-1; i>iIndex+v.size()-1; i--)
-- 
2.43.0


From 011eda4b25f08c9899c6d0772ebd11316ba021a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:29 +0000
Subject: [PATCH 60/60] fix: unshift overwrote the element it was given and
 changed a number it refused

---
 lube/var.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 294169a..07e317a 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1303,18 +1303,20 @@ var& var::unshift(var iVar)
     if (!defined())
         return push(iVar);
 
-    if (!heap())
-        array();
     if (!atype<var>() && !atype<pair>())
     {
         // Cast as for any other assignment to an element; if that can't be
-        // done then the array stays as it is
+        // done then the array stays as it is.  iVar is not assigned to as it
+        // could refer to an element of something else.
         var v;
         v.attach(new Heap(1, atype()));
         v.at(0) = iVar;
-        iVar = v.at(0);
+        if (!heap())
+            array();
+        heap()->unshift(v.at(0));
     }
-    heap()->unshift(iVar);
+    else
+        heap()->unshift(iVar);
     return *this;
 }
 
-- 
2.43.0

