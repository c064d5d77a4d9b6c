From cdb275641041e6f701d89b376836d2c15bb856f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:07 +0000
Subject: [PATCH 01/22] fix: resize(0) empties vector/valarray and growth
 value-initializes the new elements

---
 include/nanovalarray.h | 9 +++++----
 include/nanovector.h   | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index dfb92ac..8cf82e7 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -82,10 +82,6 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   void resize(size_type count) {
-    if (count < 1) {
-      return;
-    }
-
     if (count > capacity()) {
       // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
       // resizing.
@@ -111,6 +107,11 @@ class valarray {
       capacity_ = new_capacity;
     }
 
+    // new elements are value-initialized
+    for (size_type i = size_; i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
diff --git a/include/nanovector.h b/include/nanovector.h
index 130f3d9..ba82cfe 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -82,10 +82,6 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void resize(size_type count) {
-    if (count < 1) {
-      return;
-    }
-
     if (count > capacity()) {
       // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
       // resizing.
@@ -111,6 +107,11 @@ class vector {
       capacity_ = new_capacity;
     }
 
+    // new elements are value-initialized
+    for (size_type i = size_; i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
-- 
2.43.0


From 620a311752ca08fb1474425424028fa7f09beaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:07 +0000
Subject: [PATCH 02/22] fix: vector::push_back of one of the vector's own
 elements

---
 include/nanovector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nanovector.h b/include/nanovector.h
index ba82cfe..1b18e00 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -116,8 +116,10 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void push_back(const value_type& val) {
+    // `val` may refer to an element of this vector.
+    const value_type v(val);
     resize(size() + 1);
-    elements_[size_ - 1] = val;
+    elements_[size_ - 1] = v;
   }
 
   // void push_back(value_type &val); // C++11
-- 
2.43.0


From 62f8c90d446f006c5bb729fb97dee9a54f369fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:07 +0000
Subject: [PATCH 03/22] fix: erase returns the position following the removed
 element

---
 include/nanovalarray.h | 3 ++-
 include/nanovector.h   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index 8cf82e7..8b37534 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -150,13 +150,14 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   inline iterator erase(iterator pos) {
+    iterator result = pos;
     while ((pos + 1) != end()) {
       (*pos) = *(pos + 1);
       pos++;
     }
     size_--;
 
-    return pos;
+    return result;
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
diff --git a/include/nanovector.h b/include/nanovector.h
index 1b18e00..d2906bd 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -153,13 +153,14 @@ class vector {
   }
 
   inline iterator erase(iterator pos) {
+    iterator result = pos;
     while ((pos + 1) != end()) {
       (*pos) = *(pos + 1);
       pos++;
     }
     size_--;
 
-    return pos;
+    return result;
   }
 
   template <class InputIterator>
-- 
2.43.0


From cb79594ab93782971c575e8aad95a3e9dc8feed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:33 +0000
Subject: [PATCH 04/22] fix: string(first, last) and string(s, count) hold
 exactly those characters, NUL-terminated

---
 include/nanostring.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 8b99b55..cf654bc 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -79,11 +79,12 @@ class basic_string {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   basic_string(const charT *first, const charT *last) {
-    const char *s = first;
-    while (s && (s <= last)) {
+    const charT *s = first;
+    while (s != last) {
       data_.push_back(*s);
       s++;
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
@@ -91,6 +92,7 @@ class basic_string {
     for (size_type i = 0; i < count; i++) {
       data_.push_back(s[i]);
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From 6893096058a363e06c96b2efacdadfd890b365b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:35 +0000
Subject: [PATCH 05/22] fix: string::empty() is true for the empty string

---
 include/nanostring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index cf654bc..3cfda06 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -96,7 +96,7 @@ class basic_string {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  bool empty() const { return data_.size() == 0; }
+  bool empty() const { return size() == 0; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   size_type size() const {
-- 
2.43.0


From c9ec95d8150a28ae5e96f3d28291a93aed5625e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:37 +0000
Subject: [PATCH 06/22] fix: appending a string to itself

---
 include/nanostring.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 3cfda06..7fe4005 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -203,6 +203,8 @@ basic_string<charT> basic_string<charT>::operator+(
 template <class charT>
 basic_string<charT> &basic_string<charT>::operator+=(
     const basic_string<charT> &s) {
+  const size_type n = s.size();
+
   // remove '\0'
   if (data_.size() < 1) {
     // this should not be happen
@@ -210,15 +212,14 @@ basic_string<charT> &basic_string<charT>::operator+=(
     data_.pop_back();
   }
 
-  const_iterator first = s.data_.begin();
-  const_iterator last = s.data_.end(); // this contains `\0`
-
-  for (; first != last; ++first) {
+  // `s` may be this string: its first n characters stay in place
+  for (size_type i = 0; i < n; i++) {
 #ifdef NANOSTL_DEBUG
-    printf("first = %c\n", *first);
+    printf("s[i] = %c\n", s.data_[i]);
 #endif
-    data_.push_back(*first);
+    data_.push_back(s.data_[i]);
   }
+  data_.push_back('\0');
 
 #ifdef NANOSTL_DEBUG
   printf("data_ = %s\n", &data_.at(0));
-- 
2.43.0


From bdfaf4ef621690447e949469558d99efadbd8850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:38 +0000
Subject: [PATCH 07/22] fix: strings holding a NUL character compare over their
 whole length

---
 include/nanostring.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 7fe4005..47e9118 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -133,11 +133,17 @@ class basic_string {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   int compare(const basic_string &str) const {
-    return compare_(&data_[0], &str[0]);
+    return compare_(&data_[0], size(), &str[0], str.size());
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  int compare(const charT *s) const { return compare_(&data_[0], s); }
+  int compare(const charT *s) const {
+    size_type n = 0;
+    while (s[n]) {
+      n++;
+    }
+    return compare_(&data_[0], size(), s, n);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   iterator erase(iterator pos) { return data_.erase(pos); }
@@ -181,12 +187,21 @@ class basic_string {
  private:
   nanostl::vector<charT> data_;
 
-  inline int compare_(const charT *p, const charT *q) const {
-    while (*p && (*p == *q)) {
+  // A string may hold '\0' as one of its characters, so both lengths count. The
+  // shorter string compares like the NUL at its end, unless that ties.
+  inline int compare_(const charT *p, size_type np, const charT *q,
+                      size_type nq) const {
+    const size_type n = (np < nq) ? np : nq;
+    const charT *last = p + n;
+    while ((p != last) && (*p == *q)) {
       p++;
       q++;
     }
 
+    if ((p == last) && (*p == *q)) {
+      return (np < nq) ? -1 : ((np > nq) ? 1 : 0);
+    }
+
     return *reinterpret_cast<const unsigned char *>(p) -
            *reinterpret_cast<const unsigned char *>(q);
   }
-- 
2.43.0


From 57dd8ada1ca90b2322a2fae1afadb5a3784e1a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:03 +0000
Subject: [PATCH 08/22] fix: to_string of negative extremes and of 64-bit
 integers

---
 include/nanostring.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 47e9118..867c7fc 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -305,13 +305,16 @@ string to_string(int value) {
     }
   };
 
-  char buffer[numeric_limits<int>::digits10 + 2];  // +2 for sign and null
+  // +3 for the digit beyond digits10, sign and null
+  char buffer[numeric_limits<int>::digits10 + 3];
 
-  int n = (value < 0) ? -value : value;  // abs
+  // abs. -value is not representable for the smallest int
+  unsigned int n = (value < 0) ? 0u - static_cast<unsigned int>(value)
+                               : static_cast<unsigned int>(value);
   int i = 0;
-  int base = 10;
+  unsigned int base = 10;
   while (n) {
-    int r = n % base;
+    unsigned int r = n % base;
 
     if (r >= 10) {
       buffer[i++] = 'A' + (r - 10);  //
@@ -353,13 +356,16 @@ string to_string(int64_t value) {
     }
   };
 
-  char buffer[numeric_limits<int64_t>::digits10 + 2];  // +2 for sign and null
+  // +3 for the digit beyond digits10, sign and null
+  char buffer[numeric_limits<int64_t>::digits10 + 3];
 
-  int n = (value < 0) ? -value : value;  // abs
+  // abs. -value is not representable for the smallest int64_t
+  uint64_t n = (value < 0) ? static_cast<uint64_t>(0) - static_cast<uint64_t>(value)
+                           : static_cast<uint64_t>(value);
   int i = 0;
-  int base = 10;
+  unsigned int base = 10;
   while (n) {
-    int r = n % base;
+    unsigned int r = static_cast<unsigned int>(n % base);
 
     if (r >= 10) {
       buffer[i++] = 'A' + (r - 10);  //
-- 
2.43.0


From 11d6e9d26959292875d1cd9ff180244e9bb9f4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:05 +0000
Subject: [PATCH 09/22] fix: define the declared to_string overloads for
 unsigned integers

---
 include/nanostring.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index 867c7fc..95818d0 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -391,6 +391,26 @@ string to_string(int64_t value) {
   return string(buffer);
 }
 
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(uint64_t value) {
+  // digits are produced from the end of the buffer.
+  char buffer[numeric_limits<uint64_t>::digits10 + 2];  // +2 for the digit beyond digits10 and null
+  int i = numeric_limits<uint64_t>::digits10 + 1;
+
+  buffer[i] = '\0';
+  do {
+    buffer[--i] = static_cast<char>('0' + value % 10);
+    value = value / 10;
+  } while (value);
+
+  return string(buffer + i);
+}
+
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(unsigned int value) {
+  return to_string(static_cast<uint64_t>(value));
+}
+
 // TODO: Move implementation to .cc and remove `static`
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(float value) {
-- 
2.43.0


From 2aff4513fb0837b69e6e207dee48e6654dca5be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:29 +0000
Subject: [PATCH 10/22] fix: define nanostl::swap, which was only declared

---
 include/nanotype_traits.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index e80dde9..64748bb 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -1184,14 +1184,24 @@ template <class _Tp>
 inline /*_LIBCPP_INLINE_VISIBILITY*/
 /*_LIBCPP_CONSTEXPR_AFTER_CXX17*/ __swap_result_t<_Tp>
 swap(_Tp& __x, _Tp& __y) __NANOSTL_NOEXCEPT_(is_nothrow_move_constructible<_Tp>::value &&
-                                    is_nothrow_move_assignable<_Tp>::value);
+                                    is_nothrow_move_assignable<_Tp>::value)
+{
+  _Tp __t(move(__x));
+  __x = move(__y);
+  __y = move(__t);
+}
 
 template<class _Tp, size_t _Np>
 inline /*_LIBCPP_INLINE_VISIBILITY*/ /*_LIBCPP_CONSTEXPR_AFTER_CXX17*/
 typename enable_if<
     __is_swappable<_Tp>::value
 >::type
-swap(_Tp (&__a)[_Np], _Tp (&__b)[_Np]) __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_Tp>::value);
+swap(_Tp (&__a)[_Np], _Tp (&__b)[_Np]) __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_Tp>::value)
+{
+  for (size_t __i = 0; __i != _Np; ++__i) {
+    swap(__a[__i], __b[__i]);
+  }
+}
 
 
 namespace __detail
-- 
2.43.0


From 9de223fa68ed7aabee947053f42faa9b00458240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:24:10 +0000
Subject: [PATCH 11/22] fix: fabs(-0.0) is +0

---
 include/nanomath.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 8d23def..d821fa5 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -92,11 +92,9 @@ static inline bool __is_subnormal(double arg) {
 
 template <typename T>
 static inline T fabs(T num) {
-  // TODO(LTE): Handle +0 and -0 case correctly.
-  // TODO(LTE): Handle +inf and -inf case correctly.
-
-  if (num < static_cast<T>(0)) {
-    return -num;
+  // `0 - num` so that both zeros give +0.
+  if (num <= static_cast<T>(0)) {
+    return static_cast<T>(0) - num;
   }
 
   return num;
-- 
2.43.0


From 152d4b602411660ce46480d0aa9198d6f175982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:24:12 +0000
Subject: [PATCH 12/22] fix: floor and ceil are exact for every value

---
 include/nanomath.h | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index d821fa5..560b8d7 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -100,36 +100,26 @@ static inline T fabs(T num) {
   return num;
 }
 
-// https://stackoverflow.com/questions/8377412/ceil-function-how-can-we-implement-it-ourselves
-// FIXME(LTE): Won't work for large float value.
+// Values of magnitude 1/epsilon(2^23 for float, 2^52 for double) and more are
+// integral already. They are returned as they are, and so are inf and NaN.
 template <typename T>
 static inline T ceil(T num) {
-  int inum = int(num);
-  T diff = num - static_cast<T>(inum);
-  if (fabs(diff) < nanostl::numeric_limits<T>::epsilon()) {
-    return inum;
+  if (!(fabs(num) * nanostl::numeric_limits<T>::epsilon() < static_cast<T>(1))) {
+    return num;
   }
 
-  if (num > static_cast<T>(0)) {
-    return inum + 1;
-  } else {
-    return inum;
-  }
+  T inum = static_cast<T>(static_cast<long long>(num));
+  return (inum < num) ? inum + static_cast<T>(1) : inum;
 }
 
-// https://stackoverflow.com/questions/5122993/floor-int-function-implementaton
 template <typename T>
 static inline T floor(T x) {
-  if (x >= static_cast<T>(0)) {
-    return int(x);
-  } else {
-    int y = int(x);
-    if (fabs(static_cast<T>(y) - x) < nanostl::numeric_limits<T>::epsilon()) {
-      return y;
-    } else {
-      return y - 1;
-    }
+  if (!(fabs(x) * nanostl::numeric_limits<T>::epsilon() < static_cast<T>(1))) {
+    return x;
   }
+
+  T y = static_cast<T>(static_cast<long long>(x));
+  return (y > x) ? y - static_cast<T>(1) : y;
 }
 
 static inline bool isfinite(float x) {
-- 
2.43.0


From 7f42f60630f906ca5bf4bc1ee874b13949d5d9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:47:21 +0000
Subject: [PATCH 13/22] fix: map find/upper_bound/end on a const map
 (const_cast)

---
 include/nanomap.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 3c30785..2366912 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -132,7 +132,9 @@ class map {
   iterator end() { return iterator(this, 0); }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  const_iterator end() const { return iterator(this, 0); }
+  const_iterator end() const {
+    return iterator(const_cast<map<Key, T>*>(this), 0);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   bool empty() const { return !root; }
@@ -158,13 +160,13 @@ class map {
   NANOSTL_HOST_AND_DEVICE_QUAL
   const_iterator find(const key_type& key) const {
     Node* t = __find(root, key);
-    return (!t) ? this->end() : iterator(this, t);
+    return (!t) ? this->end() : iterator(const_cast<map<Key, T>*>(this), t);
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   const_iterator upper_bound(const key_type& key) const {
     Node* t = __upper_bound(root, key);
-    return (!t) ? this->end() : iterator(this, t);
+    return (!t) ? this->end() : iterator(const_cast<map<Key, T>*>(this), t);
   }
 
   // debug:
-- 
2.43.0


From 21daea9265a3cd48aeee86e48a6717c5c32f49ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:47:23 +0000
Subject: [PATCH 14/22] fix: map iterator comparison dereferenced the end
 iterator and used the missing pair !=

---
 include/nanomap.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 2366912..a63ce5b 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -98,17 +98,12 @@ class map {
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator==(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd()) return true;
-      return *rhs == this->p->val;
+      return rhs.p == this->p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator!=(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd())
-        return false;
-      else if (rhs.isEnd() || this->isEnd())
-        return true;
-      return *rhs != this->p->val;
+      return rhs.p != this->p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From 250a1fd16449d2a35826e7a944ed3b800fa333b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:47:25 +0000
Subject: [PATCH 15/22] fix: map::begin returned the root, not the smallest key

---
 include/nanomap.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index a63ce5b..14b7c52 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -121,7 +121,7 @@ class map {
   // accessors:
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  iterator begin() { return iterator(this, root); }
+  iterator begin() { return iterator(this, __first(root)); }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   iterator end() { return iterator(this, 0); }
@@ -218,6 +218,12 @@ class map {
     return __upper_bound(t->ch[1], key);
   }
 
+  // the node with the smallest key
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  Node* __first(Node* t) const {
+    return (!t || !t->ch[0]) ? t : __first(t->ch[0]);
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   void __delete(Node* t) {
     if (!t) return;
-- 
2.43.0


From 6bf1b84065fb942d096f8e4a82f1a2ba3d3c56d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:47:27 +0000
Subject: [PATCH 16/22] fix: map copies shared their nodes (double free)

---
 include/nanomap.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/nanomap.h b/include/nanomap.h
index 14b7c52..2089213 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -115,9 +115,22 @@ class map {
   NANOSTL_HOST_AND_DEVICE_QUAL
   map() { root = 0; }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map(const map& rhs) { root = __copy(rhs.root); }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   ~map() { __delete(root); }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map& operator=(const map& rhs) {
+    if (this != &rhs) {
+      Node* t = __copy(rhs.root);
+      __delete(root);
+      root = t;
+    }
+    return *this;
+  }
+
   // accessors:
 
   NANOSTL_HOST_AND_DEVICE_QUAL
@@ -224,6 +237,16 @@ class map {
     return (!t || !t->ch[0]) ? t : __first(t->ch[0]);
   }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  Node* __copy(const Node* t) {
+    if (!t) return 0;
+    Node* n = new Node(t->val);
+    n->pri = t->pri;
+    n->ch[0] = __copy(t->ch[0]);
+    n->ch[1] = __copy(t->ch[1]);
+    return n;
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   void __delete(Node* t) {
     if (!t) return;
-- 
2.43.0


From 083a1235cc3da6d6546c94d3f299ef45b95d5dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:31:42 +0000
Subject: [PATCH 17/22] fix: sqrt of +infinity is +infinity, of -infinity NaN

---
 include/nanomath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 560b8d7..7cb9bca 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -291,8 +291,8 @@ static inline float sqrt(const float x) {
     return 1.0f;               // +0
   }
 
-  // -inf
-  if ((x < 0.0f) && nanostl::isinf(x)) {
+  // +inf
+  if ((x > 0.0f) && nanostl::isinf(x)) {
     return x;
   }
 
-- 
2.43.0


From 4a8f94e533f65f0374e77020c6d34a307caa8382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:31:44 +0000
Subject: [PATCH 18/22] fix: log and log10 of negative numbers, infinity and
 NaN

---
 include/nanomath.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 7cb9bca..f199834 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -467,7 +467,11 @@ static inline float log(const float& x) {
   }
 
   if (x < 0.0f) {
-    return nanostl::numeric_limits<float>::infinity();
+    return nanostl::numeric_limits<float>::quiet_NaN();
+  }
+
+  if (!nanostl::isfinite(x)) {  // +inf, NaN
+    return x;
   }
 
   // Examined 2130706432 values of logf on [1.17549435e-38,3.40282347e+38]:
@@ -489,7 +493,11 @@ static inline float log10(const float& x) {
   }
 
   if (x < 0.0f) {
-    return nanostl::numeric_limits<float>::infinity();
+    return nanostl::numeric_limits<float>::quiet_NaN();
+  }
+
+  if (!nanostl::isfinite(x)) {  // +inf, NaN
+    return x;
   }
 
   // Examined 2130706432 values of log10f on [1.17549435e-38,3.40282347e+38]:
-- 
2.43.0


From ab3057778c1d327b3417b681845039dbf7a74c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:31:46 +0000
Subject: [PATCH 19/22] fix: pow of small nonzero bases and exponents

---
 include/nanomath.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index f199834..32ddbed 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -507,10 +507,8 @@ static inline float log10(const float& x) {
 
 // fast_safe_pow
 static inline float pow(float x, float y) {
-  if (fabs(y) < nanostl::numeric_limits<float>::epsilon())
-    return 1.0f;  // x^0=1
-  if (fabs(x) < nanostl::numeric_limits<float>::epsilon())
-    return 0.0f;  // 0^y=0
+  if (__is_zero(y)) return 1.0f;  // x^0=1
+  if (__is_zero(x)) return 0.0f;  // 0^y=0
   // be cheap & exact for special case of squaring and identity
   if (y == 1.0f) return x;
   if (y == 2.0f) {
-- 
2.43.0


From a291fa8d2680c5b6e83186ea9ebc8b9dc8cc3048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:31:48 +0000
Subject: [PATCH 20/22] fix: pow shifted into the sign bit of an int

---
 include/nanomath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 32ddbed..e988509 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -526,7 +526,7 @@ static inline float pow(float x, float y) {
       int k = (ybits >> 23) - 127;   // get exponent
       int j = ybits >> (23 - k);     // shift out possible fractional bits
       if ((j << (23 - k)) == ybits)  // rebuild number and check for a match
-        sign = IntToFloat(0x3f800000 | (j << 31));  // +1 for even, -1 for odd
+        sign = UintToFloat(0x3f800000u | (static_cast<unsigned int>(j) << 31));  // +1 for even, -1 for odd
       else
         return 0.0f;  // not integer
     } else {
-- 
2.43.0


From e45d13c8164076eaf217d1ef363c75d259087ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:31:50 +0000
Subject: [PATCH 21/22] fix: cbrt of small nonzero values is not 0

---
 include/nanomath.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index e988509..a4ef7ee 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -684,8 +684,7 @@ static inline float cbrt(float x) {
   // 12 max ulp
   a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step.
   a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step again.
-  a = (fabs(x0) < nanostl::numeric_limits<float>::epsilon()) ? 0
-                                                             : a;  // Fix 0 case
+  a = __is_zero(x0) ? 0.0f : a;  // Fix 0 case
   return copysign(a, x);
 }
 
-- 
2.43.0


From 6e02ac81ac5ad29eb28ef63880441e62ffc1d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:31:52 +0000
Subject: [PATCH 22/22] fix: fast_rint overflowed for large values, infinities
 and NaN (sin, cos, tan)

---
 include/nanomath.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nanomath.h b/include/nanomath.h
index a4ef7ee..53b7740 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -388,6 +388,8 @@ static inline float madd(float a, float b, float c) { return a * b + c; }
 
 /// Round to nearest integer, returning as an int.
 static inline int fast_rint(float x) {
+  // no int is near 2^31 and more, infinities and NaN
+  if (!(fabs(x) < 2147483648.0f)) return 0;
   // emulate rounding by adding/substracting 0.5
   return static_cast<int>(x + copysign(0.5f, x));
 }
-- 
2.43.0

