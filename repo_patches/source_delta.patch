From c4f648d3be0ee40f5c93c8eb960dd5d99fc11758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:57 +0000
Subject: [PATCH 01/40] fix: Array move assignment releases the elements and
 storage it replaces

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 941fa4e..4445719 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -132,7 +132,7 @@ public:
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-        if(this!=&a) { this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        if(this!=&a) { this->_destroy_elements(); uninitialized_delete(_ptr); this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
 
     //! \brief True if the Array's size is 0.
     bool empty() const { return _size==0u; }
-- 
2.43.0


From d9c8de684e8feb852aeb5d064c41bbf77b1a9490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:01 +0000
Subject: [PATCH 02/40] fix: SharedArray destructor decrements the use count
 and releases the storage

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 4445719..89f8b6c 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -228,7 +228,7 @@ public:
     typedef ValueType const* ConstIterator;
     size_t* _count; size_t _size; T* _ptr;
 public:
-    ~SharedArray() { --_count; if(*_count==0) { delete[] _ptr; } }
+    ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
     SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(new T[n]) { }
     SharedArray(size_t n, const T& x) : SharedArray(n) {
         for(size_t i=0; i!=n; ++i) { _ptr[i]=x; } }
-- 
2.43.0


From ed53295af5a984afc753599360dfadcf04a18b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:05 +0000
Subject: [PATCH 03/40] fix: Set::restrict keeps the common elements instead of
 removing them

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index aaf3531..74bc38d 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -196,7 +196,7 @@ template<class T> class Set : public std::set<T> {
         return *this; }
     Set<T>& restrict(const std::set<T>& s) {
         auto iter=this->begin();
-        while(iter!=this->end()) { if(s.find(*iter)!=s.end()) { this->erase(iter++); } else { ++iter; } }
+        while(iter!=this->end()) { if(s.find(*iter)==s.end()) { this->erase(iter++); } else { ++iter; } }
         return *this; }
     template<class TT> Set<T>& remove(const std::vector<TT>& l) {
         for(auto iter=l.begin(); iter!=l.end(); ++iter) {
-- 
2.43.0


From 9cd27bf1876cf8c3f40e8f201620de716308063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:08 +0000
Subject: [PATCH 04/40] fix: apply on a Set inserts each result (did not
 compile)

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 74bc38d..c43e5f8 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -205,7 +205,7 @@ template<class T> class Set : public std::set<T> {
 };
 template<class T, Invocable<T> F> inline
 Set<InvokeResult<F,T>> apply(F&& f, Set<T> const& set) {
-    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.adjoin(f(itm)); } return res; }
+    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.insert(f(itm)); } return res; }
 template<class T> inline Set<T> join(Set<T> s1, Set<T> const& s2) {
     s1.adjoin(s2); return s1; }
 template<class T> inline bool contains(const std::set<T>& s, const T& t) {
-- 
2.43.0


From 050f1f58da379eccdeffae98da565c45baba4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:11 +0000
Subject: [PATCH 05/40] fix: make_list of an Array copies its elements (did not
 compile)

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index c43e5f8..feed8b1 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -321,7 +321,7 @@ template<class T> inline Array<T> make_array(const Array<T>& ary) { return Array
 
 template<class T> inline List<T> make_list(const T& t) { return List<T>(1u,t); }
 template<class T> inline List<T> make_list(const std::vector<T>& vec) { return List<T>(vec); }
-template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary); }
+template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary.begin(),ary.end()); }
 template<class T> inline List<T> make_list(const Set<T>& set) { return List<T>(set.begin(),set.end()); }
 
 template<class T> inline Set<T> make_set(const std::vector<T>& lst) { return Set<T>(lst); }
-- 
2.43.0


From c09b374827ab1feb033ab4af6e1fbecf6d799c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:14 +0000
Subject: [PATCH 06/40] fix: LinkedList fill constructor, append and
 concatenate (did not compile)

---
 include/container.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index feed8b1..f89398d 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -142,15 +142,15 @@ template<class T> class LinkedList
     typedef typename std::list<T>::const_iterator ConstIterator;
     LinkedList() : std::list<T>() { }
     LinkedList(unsigned int n) : std::list<T>(n) { }
-    LinkedList(unsigned int n, const T& t) : std::vector<T>(n,t) { }
+    LinkedList(unsigned int n, const T& t) : std::list<T>(n,t) { }
     LinkedList(const std::list<T>& l) : std::list<T>(l) { }
     template<class X> LinkedList(const List<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class X> LinkedList(const LinkedList<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class I> LinkedList(const I& b, const I& e) : std::list<T>(b,e) { }
     // Conversion constructor from an value to a single-element list.
     void append(const T& t) { this->push_back(t); }
-    void append(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
-    void concatenate(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+    void append(const LinkedList<T>& t) { LinkedList<T> tmp(t); this->splice(this->end(),tmp); }
+    void concatenate(const LinkedList<T>& t) { LinkedList<T> tmp(t); this->splice(this->end(),tmp); }
 };
 template<class T> inline ostream&
 operator<< (ostream &os, const std::list<T>& l) {
-- 
2.43.0


From 7ed55f3f8c542001d4622bf9f7eeded298f09696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:16 +0000
Subject: [PATCH 07/40] fix: appending a List to itself terminates

---
 include/container.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index f89398d..0f6eac6 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -87,9 +87,9 @@ template<class T> class List : public std::vector<T> {
         explicit List(const std::vector<TT>& l) : std::vector<T>(l.begin(),l.end()) { }
     void append(const T& t) { this->push_back(t); }
     void append(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        const size_t n=t.size(); for(size_t i=0; i!=n; ++i) { this->push_back(t[i]); } }
     void concatenate(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        const size_t n=t.size(); for(size_t i=0; i!=n; ++i) { this->push_back(t[i]); } }
 };
 template<class T> inline List<T> catenate(const List<T>& l1, const List<T>& l2) {
     List<T> r(l1);
-- 
2.43.0


From 567e4619af35b52318371f5e51d7a33a8fb6c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:44 +0000
Subject: [PATCH 08/40] fix: binary_word.hpp uses standard string types (header
 did not compile)

---
 include/binary_word.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 98fb80c..aeb0ba5 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -76,7 +76,9 @@
 
 #include <limits>
 #include <vector>
-#include <iosfwd>
+#include <algorithm>
+#include <string>
+#include <sstream>
 #include <stdexcept>
 
 #include "macros.hpp"
@@ -101,7 +103,7 @@ class BinaryWord : public std::vector<bool> {
     BinaryWord() : std::vector<bool>() { }
 
     //! \brief Construct from a string literal consisting of zeros and ones.
-    explicit BinaryWord(const StringType& str);
+    explicit BinaryWord(const std::string& str);
 
     //! Comparison operator.
     bool operator<(const BinaryWord& w) const;
@@ -212,14 +214,14 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
 /*! \brief allocates a new binary word created from a string.
  *  The data format is either "[0,1,0,1,1]" or equivalently "01011".
  */
-inline BinaryWord make_binary_word(const StringType& string_data) {
+inline BinaryWord make_binary_word(const std::string& string_data) {
     BinaryWord binary_word;
-    StringStream string_input_stream( string_data );
+    std::stringstream string_input_stream( string_data );
     string_input_stream >> binary_word;
     return binary_word;
 }
 
-inline BinaryWord::BinaryWord(const StringType& str) {
+inline BinaryWord::BinaryWord(const std::string& str) {
     *this=make_binary_word(str); }
 
 /*! \brief Serializes data into a stream.
-- 
2.43.0


From 0281ca64ff526f2c6e2b9349e4583d2cc6097a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:47 +0000
Subject: [PATCH 09/40] fix: HELPER_NOT_IMPLEMENTED builds its message from
 std::string (did not compile)

---
 include/macros.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 81ec20b..dff4445 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -144,7 +144,7 @@
     } \
 
 #define HELPER_NOT_IMPLEMENTED                 \
-    throw std::runtime_error(StringType("Not implemented: ")+HELPER_PRETTY_FUNCTION);
+    throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
 
 #define HELPER_DEPRECATED(fn,msg)          \
     static bool first_time=true; \
-- 
2.43.0


From dd02b688142eec751c2db6c0ead01082f2a6dba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:48 +0000
Subject: [PATCH 10/40] fix: appending a BinaryWord to itself terminates

---
 include/binary_word.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index aeb0ba5..586370b 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -179,7 +179,8 @@ inline void BinaryWord::append( const bool& binarySymbol ) {
 }
 
 inline void BinaryWord::append( const BinaryWord& binaryWord ) {
-    for( size_t i = 0; i < binaryWord.size() ; i++ ){
+    const size_t n = binaryWord.size();
+    for( size_t i = 0; i < n ; i++ ){
         this->push_back( binaryWord[i] );
     }
 }
-- 
2.43.0


From de4efec680abf94ede33d54d87bd032529cc4115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:49 +0000
Subject: [PATCH 11/40] fix: reading a BinaryWord from an exhausted stream does
 not inspect an indeterminate symbol

---
 include/binary_word.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 586370b..7c0d96f 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -193,7 +193,7 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
     //new data and the old one is not needed.
     binary_word.clear();
     //Read the first stream symbol to check the input format
-    char symbol;
+    char symbol=0;
     input_stream >> symbol;
     if( symbol == '[' ) {
         //If it is a standard std:vector input then put
-- 
2.43.0


From 36b7ef5ea2352625268dd535f35c90a911b9b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:51 +0000
Subject: [PATCH 12/40] fix: writing a BinaryWord restores the stream's format
 flags

---
 include/binary_word.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 7c0d96f..d47dfdd 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -232,11 +232,12 @@ inline ostream& operator<<(ostream& os, const BinaryWord& bw) {
     if( bw.empty() ) {
         return os << 'e';
     }
+    const std::ios_base::fmtflags flags = os.flags();
     os << std::noboolalpha;
     for(size_t i=0; i!=bw.size(); ++i) {
         os << bw[i];
     }
-    os << std::boolalpha;
+    os.flags( flags );
     return os;
 }
 
-- 
2.43.0


From 59eb24cd9605adb85a7c29b99119f5fa5abb8601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:52 +0000
Subject: [PATCH 13/40] fix: a BinaryWord ended by the end of the stream is
 read successfully

---
 include/binary_word.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index d47dfdd..864d839 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -207,7 +207,12 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
             binary_word.push_back( symbol == '0' ? 0 : 1);
             input_stream.get( symbol );
         }
-        input_stream.putback( symbol );
+        if( input_stream.eof() && !binary_word.empty() ) {
+            //The word was ended by the end of the stream, so it was read successfully
+            input_stream.clear( std::ios_base::eofbit );
+        } else {
+            input_stream.putback( symbol );
+        }
     }
     return input_stream;
 }
-- 
2.43.0


From 31ef31c45aca37e4244b7d2c459720a5ac240878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:56 +0000
Subject: [PATCH 14/40] fix: tuples of standard types can be written (did not
 compile)

---
 include/stlio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index 93055b4..a7412a3 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -219,7 +219,7 @@ operator<<(std::ostream &os, const std::pair<S,T>& s)
 template<class... TS> inline
 std::ostream& operator<<(std::ostream& os, std::tuple<TS...> const& tup) {
     typename std::tuple_size<std::tuple<TS...>>::type sz;
-    os << "("; write_tuple(os,tup,sz); os << ")"; return os;
+    os << "("; Helper::write_tuple(os,tup,sz); os << ")"; return os;
 }
 
 /*
-- 
2.43.0


From 98f3e6e32ef12870604c9b6633881f3afbed562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:33 +0000
Subject: [PATCH 15/40] fix: LRUCache::put takes its copy of the element before
 evicting another

---
 include/lru_cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lru_cache.hpp b/include/lru_cache.hpp
index aa7a704..a1cfa50 100644
--- a/include/lru_cache.hpp
+++ b/include/lru_cache.hpp
@@ -79,6 +79,9 @@ template<class L, class V> class LRUCache {
     //! \details The element must not already exist; updates ages accordingly
     void put(L const& label, V const& val) {
         HELPER_PRECONDITION(not has_label(label));
+        // Build the new element before changing anything: this may throw, and val may refer to the element to be removed
+        std::map<L,AgeValuePair> inserted;
+        inserted.insert({label,AgeValuePair(0,val)});
         if (_elements.size() < _maximum_size) {
             for (auto& other : _elements) other.second.age++;
         } else {
@@ -89,7 +92,7 @@ template<class L, class V> class LRUCache {
             }
             _elements.erase(to_remove);
         }
-        _elements.insert({label,AgeValuePair(0,val)});
+        _elements.merge(inserted);
     }
 
     //! \brief The current size due to putting elements
-- 
2.43.0


From 14114925588c523857d0ec907278e0bbcf9f2cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:56 +0000
Subject: [PATCH 16/40] fix: operator<< is enabled for types with a const
 _write(ostream&) member

---
 include/writable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/writable.hpp b/include/writable.hpp
index 9a0708e..732520f 100644
--- a/include/writable.hpp
+++ b/include/writable.hpp
@@ -53,7 +53,7 @@ class WritableInterface {
 };
 inline ostream& operator<<(ostream& os, const WritableInterface& w) { w._write(os); return os; }
 
-template<class T, class = decltype(declval<T>()._write(declval<ostream>()))> True has_write(int);
+template<class T, class = decltype(declval<T const&>()._write(declval<ostream&>()))> True has_write(int);
 template<class T> False has_write(...);
 template<class T, class = Fallback> struct IsWritable : decltype(has_write<T>(1)) { };
 
-- 
2.43.0


From a855adafd7aab572ab6a2918205bc01ce18ef484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:37 +0000
Subject: [PATCH 17/40] fix: dynamic_handle_cast can be used on plain and on
 mutable handles (did not compile)

---
 include/handle.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index a05ece2..c7b14a1 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -48,8 +48,6 @@ using std::shared_ptr;
 template<class T> struct HandleObject { };
 
 template<class I> class Handle;
-template<class T, class I> const T& dynamic_handle_cast(const Handle<I>& h);
-template<class T, class I> T& dynamic_handle_cast(Handle<I>& h);
 
 template<class T, class I> class Wrapper
     : public virtual I, public T
@@ -112,8 +110,6 @@ template<class I> class Handle {
   private:
     template<class T, class II> friend T& dynamic_handle_extract(Handle<II>& h);
     template<class T, class II> friend const T& dynamic_handle_extract(const Handle<II>& h);
-    template<class D, class B> friend Handle<D> dynamic_handle_cast(Handle<B>& h);
-    template<class D, class B> friend const Handle<D> dynamic_handle_cast(const Handle<B>& h);
 };
 
 template<class T, class... AS> Handle<T> make_handle(AS&& ... as) {
@@ -129,7 +125,7 @@ inline void write_error(ostream& os, const char* f, const WritableInterface* w,
 template<class D, class B> D dynamic_handle_cast(B const& h) {
     typedef typename B::Interface BI;
     typedef typename D::Interface DI;
-    if constexpr (Same<decltype(h.managed_pointer()),shared_ptr<BI>>) {
+    if constexpr (Same<RemoveConst<decltype(h.managed_pointer())>,shared_ptr<BI>> and not Same<BI,const BI>) {
         shared_ptr<DI> p=std::dynamic_pointer_cast<DI>(h.managed_pointer());
         if(p) { return D(Handle<DI>(p)); }
     } else {
-- 
2.43.0


From de53910bbf169626838326c1e6a6aa45be87061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:43 +0000
Subject: [PATCH 18/40] fix: Array fill constructor and fill accept integral
 values (did not compile)

---
 include/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 89f8b6c..fbe5675 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -97,7 +97,7 @@ public:
         this->_uninitialized_generate(g); }
 
     //! \brief Constructs an Array from the range \a first to \a last.
-    template<class ForwardIterator>
+    template<class ForwardIterator> requires (not BuiltinIntegral<ForwardIterator>)
     Array(ForwardIterator first, ForwardIterator last)
             : _size(static_cast<size_t>(std::distance(first,last))), _ptr(uninitialized_new(_size)) {
         assert(std::distance(first,last) >= 0);
@@ -198,7 +198,7 @@ public:
     void fill(const ValueType& x) {
         ValueType* curr=begin(); ValueType* end=this->end(); while(curr!=end) { *curr=x; ++curr; } }
     //! \brief Fills the Array from the sequence starting at \a first.
-    template<class InputIterator> void fill(InputIterator first) {
+    template<class InputIterator> requires (not BuiltinIntegral<InputIterator>) void fill(InputIterator first) {
         ValueType* curr=begin(); ValueType* end=this->end(); while(curr!=end) { *curr=*first; ++curr; ++first; } }
     //! \brief Assigns the sequence from \a first to \a last.
     template<class ForwardIterator> void assign(ForwardIterator first, ForwardIterator last) {
-- 
2.43.0


From 2b41bbce78db90d70b828dc6f6daa19bb8938739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:37 +0000
Subject: [PATCH 19/40] fix: Array keeps its storage valid when a replacement
 cannot be allocated

---
 include/array.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index fbe5675..6c64822 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -36,6 +36,7 @@
 #define HELPER_ARRAY_HPP
 
 #include <initializer_list>
+#include <new>
 #include <iterator>
 #include <stdexcept>
 #include <cassert>
@@ -52,7 +53,9 @@ struct Uninitialised { };
 template<class T>
 class Array {
 private:
-    static T* uninitialized_new(size_t n) { return static_cast<T*>(::operator new(n*sizeof(T))); }
+    static T* uninitialized_new(size_t n) {
+        if(n>static_cast<size_t>(-1)/sizeof(T)) { throw std::bad_array_new_length(); }
+        return static_cast<T*>(::operator new(n*sizeof(T))); }
     static void uninitialized_delete(T* p) { ::operator delete(p); }
 public:
     typedef T ValueType;
@@ -128,7 +131,7 @@ public:
     //! \brief Copy assignment.
     Array<T>& operator=(const Array<T>& a) {
         if(this->size()==a.size()) { fill(a.begin()); }
-        else { this->_destroy_elements(); uninitialized_delete(_ptr); _size=a.size(); _ptr=uninitialized_new(_size); this->_uninitialized_fill(a.begin()); }
+        else { Array<T> b(a); this->swap(b); }
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
@@ -154,8 +157,7 @@ public:
             for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } }
             this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
     //! \brief Reallocates the Array to hold \a n elements. The new elements are default-constructed.
-    void reallocate(size_t n) { if(size()!=n) { this->_destroy_elements(); uninitialized_delete(_ptr);
-            _size=n; _ptr=uninitialized_new(_size); for(size_t i=0; i!=_size; ++i) { new (_ptr+i) T(); } } }
+    void reallocate(size_t n) { if(size()!=n) { Array<T> b(n); this->swap(b); } }
     //! \brief Efficiently swap two arrays.
     void swap(Array<T>& a) { std::swap(_size,a._size); std::swap(_ptr,a._ptr); }
 
-- 
2.43.0


From 983876ac2ca34a1c3670e58133c28a8faf211061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:40 +0000
Subject: [PATCH 20/40] fix: Array releases the elements already constructed
 when constructing another fails

---
 include/array.hpp | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 6c64822..c109d77 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -57,6 +57,11 @@ private:
         if(n>static_cast<size_t>(-1)/sizeof(T)) { throw std::bad_array_new_length(); }
         return static_cast<T*>(::operator new(n*sizeof(T))); }
     static void uninitialized_delete(T* p) { ::operator delete(p); }
+    // Releases storage in which the elements from first up to curr have been constructed, unless construction completes
+    struct ConstructionGuard {
+        T* first; T*& curr; bool complete=false;
+        ~ConstructionGuard() { if(!complete) { while(curr!=first) { --curr; curr->~T(); } uninitialized_delete(first); } }
+    };
 public:
     typedef T ValueType;
     typedef size_t IndexType;
@@ -81,7 +86,10 @@ public:
     //! \brief Default constructor. Constructs an empty Array.
     Array() : _size(0), _ptr(0) { }
     //! \brief Constructs an Array of size \a n with default-initialised elements.
-    explicit Array(const size_t n) : _size(n), _ptr(uninitialized_new(n)) { for(size_t i=0; i!=n; ++i) { new (_ptr+i) T(); } }
+    explicit Array(const size_t n) : _size(n), _ptr(uninitialized_new(n)) {
+        T* curr=_ptr; ConstructionGuard guard{_ptr,curr};
+        for(size_t i=0; i!=n; ++i) { new (_ptr+i) T(); ++curr; }
+        guard.complete=true; }
     //! \brief Constructs an Array of size \a n with uninitialised elements. The elements should be initialised using placement new.
     explicit Array(const size_t n, Uninitialised) : _size(n), _ptr(uninitialized_new(n)) { }
     //! \brief Constructs an Array of size \a n with elements initialised to \a x.
@@ -148,13 +156,17 @@ public:
         static_assert(DefaultConstructible<T>);
         if(size()!=n) {
             pointer _new_ptr=uninitialized_new(n);
-            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(); } }
+            pointer curr=_new_ptr; ConstructionGuard guard{_new_ptr,curr};
+            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(); } ++curr; }
+            guard.complete=true;
             this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
     //! \brief Resizes the Array to hold \a n elements. If \a n is larger than the current size, the extra elements are initialised with value \a t.
     void resize(size_t n, const T& t) {
         if(size()!=n) {
             pointer _new_ptr=uninitialized_new(n);
-            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } }
+            pointer curr=_new_ptr; ConstructionGuard guard{_new_ptr,curr};
+            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } ++curr; }
+            guard.complete=true;
             this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
     //! \brief Reallocates the Array to hold \a n elements. The new elements are default-constructed.
     void reallocate(size_t n) { if(size()!=n) { Array<T> b(n); this->swap(b); } }
@@ -208,15 +220,21 @@ public:
 private:
     void _destroy_elements() { pointer curr=_ptr+_size; while(curr!=_ptr) { --curr; curr->~T(); } }
     void _uninitialized_fill(const ValueType& x) {
-        pointer curr=_ptr; pointer end=_ptr+_size; while(curr!=end) { new (curr) T(x); ++curr; } }
+        pointer curr=_ptr; pointer end=_ptr+_size; ConstructionGuard guard{_ptr,curr};
+        while(curr!=end) { new (curr) T(x); ++curr; }
+        guard.complete=true; }
     template<class InputIterator> void _uninitialized_fill(InputIterator first) {
-        pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first); ++curr; ++first; } }
+        pointer curr=_ptr; pointer end=_ptr+_size; ConstructionGuard guard{_ptr,curr};
+        while(curr!=end) { new (curr) T(*first); ++curr; ++first; }
+        guard.complete=true; }
     template<class InputIterator, class Parameters> void _uninitialized_fill(InputIterator first, Parameters parameters) {
-        pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first,parameters); ++curr; ++first; } }
+        pointer curr=_ptr; pointer end=_ptr+_size; ConstructionGuard guard{_ptr,curr};
+        while(curr!=end) { new (curr) T(*first,parameters); ++curr; ++first; }
+        guard.complete=true; }
     template<class G> void _uninitialized_generate(G g) {
-        for(size_t i=0u; i!=this->size(); ++i) { new (_ptr+i) T(g(i)); } }
+        pointer curr=_ptr; ConstructionGuard guard{_ptr,curr};
+        for(size_t i=0u; i!=this->size(); ++i) { new (_ptr+i) T(g(i)); ++curr; }
+        guard.complete=true; }
 private:
     size_t _size;
     pointer _ptr;
-- 
2.43.0


From a01f6d1727ac7cb8aafebbe50c9f20721a87b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:42 +0000
Subject: [PATCH 21/40] fix: stack_trace writes demangled names and does not
 invalidate the error stream on unnamed frames

---
 src/stack_trace.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stack_trace.cpp b/src/stack_trace.cpp
index 022568c..977c0fe 100644
--- a/src/stack_trace.cpp
+++ b/src/stack_trace.cpp
@@ -31,6 +31,7 @@
 #ifdef ENABLE_STACK_TRACE
 
 #include <cassert>
+#include <cstdlib>
 #include <iostream>
 
 #include <execinfo.h>
@@ -53,8 +54,9 @@ void stack_trace() {
             char* no_output_buffer = nullptr;
             size_t length;
             int status;
-            char* demangled = abi::__cxa_demangle(symbols[i], no_output_buffer, &length, &status);
-            std::cerr << (status == 0 ? demangled : info.dli_sname) << "\n";
+            const char* name = (info.dli_sname != nullptr ? info.dli_sname : symbols[i]);
+            char* demangled = abi::__cxa_demangle(name, no_output_buffer, &length, &status);
+            std::cerr << (status == 0 ? demangled : name) << "\n";
             free(demangled);
         } else {
             std::cerr << i << " " << callstack[i] << "\n";
-- 
2.43.0


From f7a75fd0ee9977eb2bda902e61474920920a6a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:41 +0000
Subject: [PATCH 22/40] fix: writing a BinaryWord does not depend on the
 stream's format flags

---
 include/binary_word.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 864d839..d15af07 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -237,12 +237,9 @@ inline ostream& operator<<(ostream& os, const BinaryWord& bw) {
     if( bw.empty() ) {
         return os << 'e';
     }
-    const std::ios_base::fmtflags flags = os.flags();
-    os << std::noboolalpha;
     for(size_t i=0; i!=bw.size(); ++i) {
-        os << bw[i];
+        os << ( bw[i] ? '1' : '0' );
     }
-    os.flags( flags );
     return os;
 }
 
-- 
2.43.0


From 228cb3c2f5e5b15f1c607a22572633e8ce8a820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:49 +0000
Subject: [PATCH 23/40] fix: HELPER_DEBUG_PRECONDITION does not shadow a
 variable result in its expression

---
 include/macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index dff4445..3282d79 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -111,8 +111,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_PRECONDITION(expression) \
     { \
-        bool result = static_cast<bool>(expression); \
-        if(!result) { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
         } \
     } \
-- 
2.43.0


From 18fde26b2a97560111fcd5064e263ce2503c5748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:49 +0000
Subject: [PATCH 24/40] fix: HELPER_ASSERT_EQUAL writes expressions with
 operators of any precedence (did not compile)

---
 include/macros.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 3282d79..7c257f8 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -139,7 +139,7 @@
     { \
         bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
         if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<(expression1)<<" != "<<(expression2)); \
         } \
     } \
 
-- 
2.43.0


From 38b084d74c8d39ccab0a7bcfb51d3a64d3223a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:08 +0000
Subject: [PATCH 25/40] fix: HELPER_TEST_WITHIN compares real differences
 without truncating them

---
 include/test.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index c5b395c..29b82e0 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -33,6 +33,7 @@
 #define HELPER_TEST_HPP
 
 #include <cstdlib>
+#include <cmath>
 #include <cstring>
 #include <iostream>
 #include <exception>
@@ -306,8 +307,9 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
-        auto error=abs(expression-expected); \
-        bool ok = (error <= tolerance);                       \
+        using std::abs; \
+        auto error=abs((expression)-(expected)); \
+        bool ok = (error <= (tolerance));                     \
         if(ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
-- 
2.43.0


From becf4f6385b20c27bfd20e101966d75beded3404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:48:19 +0000
Subject: [PATCH 26/40] fix: a shared array whose elements cannot be allocated
 or constructed releases its count (leaked)

---
 include/array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index c109d77..02f34f2 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -249,7 +249,8 @@ public:
     size_t* _count; size_t _size; T* _ptr;
 public:
     ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
-    SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(new T[n]) { }
+    SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(nullptr) {
+        try { _ptr=new T[n]; } catch(...) { delete _count; throw; } }
     SharedArray(size_t n, const T& x) : SharedArray(n) {
         for(size_t i=0; i!=n; ++i) { _ptr[i]=x; } }
     SharedArray(const InitializerList<T>& lst) : SharedArray(lst.size()) {
-- 
2.43.0


From a26022c4325e005a422c5d697851344ae52107cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:54:53 +0000
Subject: [PATCH 27/40] fix: iterator.hpp includes <ostream>, which its
 operators use (did not compile alone)

---
 include/iterator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/iterator.hpp b/include/iterator.hpp
index 08ee013..1ac01fe 100644
--- a/include/iterator.hpp
+++ b/include/iterator.hpp
@@ -34,6 +34,7 @@
 #define HELPER_ITERATOR_HPP
 
 #include <iterator>
+#include <ostream>
 
 namespace Helper {
 
-- 
2.43.0


From f42420187555fc08b54741937e019ae7a321743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:54:53 +0000
Subject: [PATCH 28/40] fix: writable.hpp includes <ostream>, which its
 operators use (did not compile alone)

---
 include/writable.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/writable.hpp b/include/writable.hpp
index 732520f..beb5108 100644
--- a/include/writable.hpp
+++ b/include/writable.hpp
@@ -33,6 +33,8 @@
 #ifndef HELPER_WRITABLE_HPP
 #define HELPER_WRITABLE_HPP
 
+#include <ostream>
+
 #include "metaprogramming.hpp"
 
 namespace Helper {
-- 
2.43.0


From 03a77764de965f200cba00084693a8f9ffec44f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:54:53 +0000
Subject: [PATCH 29/40] fix: variant.inl.hpp includes <cstdlib>, whose abort it
 calls (did not compile alone)

---
 include/variant.inl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/variant.inl.hpp b/include/variant.inl.hpp
index 79bced5..bc1778c 100644
--- a/include/variant.inl.hpp
+++ b/include/variant.inl.hpp
@@ -30,6 +30,8 @@
 #ifndef HELPER_VARIANT_INL_HPP
 #define HELPER_VARIANT_INL_HPP
 
+#include <cstdlib>
+
 #include "variant.hpp"
 
 namespace Helper {
-- 
2.43.0


From 31f135f8c4b9337dee415bdb626823580188f221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:54:53 +0000
Subject: [PATCH 30/40] fix: the globals of test.hpp are inline, so that two
 files of a program may include it (did not link)

---
 include/test.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index 29b82e0..8fc3cdd 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -39,9 +39,9 @@
 #include <exception>
 #include "macros.hpp"
 
-int HELPER_TEST_FAILURES = 0;
-int HELPER_TEST_SKIPPED = 0;
-std::string HELPER_CURRENT_TESTING_CLASS = "???";
+inline int HELPER_TEST_FAILURES = 0;
+inline int HELPER_TEST_SKIPPED = 0;
+inline std::string HELPER_CURRENT_TESTING_CLASS = "???";
 
 // This needs to be a function since we do not want to evaluate the result twice,
 // and can't store it in a variable since we don't know it's type.
@@ -54,7 +54,7 @@ testing_check(std::ostream& os, const R& r, const ER& er) {
 
 //This is the variable that stores counter for the number of test cases
 //The value is used and updated in the next two macro definitions
-int test_case_counter = 0;
+inline int test_case_counter = 0;
 
 /*! \brief Tests a class function */
 #define HELPER_TEST_CLASS(classname,testclassconstruct)                       \
-- 
2.43.0


From 281788aa7b6fb043b35f1f3811df46f088c3899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:46:43 +0000
Subject: [PATCH 31/40] fix: Array releases its storage if copying the
 generator or the parameter fails

---
 include/array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 02f34f2..05fda9f 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -227,12 +227,12 @@ private:
         pointer curr=_ptr; pointer end=_ptr+_size; ConstructionGuard guard{_ptr,curr};
         while(curr!=end) { new (curr) T(*first); ++curr; ++first; }
         guard.complete=true; }
-    template<class InputIterator, class Parameters> void _uninitialized_fill(InputIterator first, Parameters parameters) {
+    template<class InputIterator, class Parameters> void _uninitialized_fill(InputIterator first, Parameters const& parameters) {
         pointer curr=_ptr; pointer end=_ptr+_size; ConstructionGuard guard{_ptr,curr};
         while(curr!=end) { new (curr) T(*first,parameters); ++curr; ++first; }
         guard.complete=true; }
-    template<class G> void _uninitialized_generate(G g) {
-        pointer curr=_ptr; ConstructionGuard guard{_ptr,curr};
+    template<class G> void _uninitialized_generate(G const& generator) {
+        pointer curr=_ptr; ConstructionGuard guard{_ptr,curr}; auto g=generator;
         for(size_t i=0u; i!=this->size(); ++i) { new (_ptr+i) T(g(i)); ++curr; }
         guard.complete=true; }
 private:
-- 
2.43.0


From 32da1126dc13a98365634bf9801325195da92118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:22:38 +0000
Subject: [PATCH 32/40] fix: move-assigning an Array from one held in its own
 elements takes the storage before destroying them

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 05fda9f..8ce82a3 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -143,7 +143,7 @@ public:
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-        if(this!=&a) { this->_destroy_elements(); uninitialized_delete(_ptr); this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        Array<T> b(std::move(a)); this->swap(b); return *this; }
 
     //! \brief True if the Array's size is 0.
     bool empty() const { return _size==0u; }
-- 
2.43.0


From df7aaecf94ed0bdddeeda664b244812ae5394292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:22:45 +0000
Subject: [PATCH 33/40] fix: assigning to a SharedArray from one held in its
 own elements keeps the source until it has been copied

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 8ce82a3..0a2975b 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -257,7 +257,7 @@ public:
         auto from=lst.begin(); auto end=lst.end(); auto to=_ptr; while(from!=end) { *to = *from; ++from; ++to; } }
     SharedArray(const SharedArray<T>& ary) : _count(ary._count), _size(ary._size), _ptr(ary._ptr) { ++ *_count; }
     SharedArray<T>& operator=(const SharedArray<T>& ary) {
-        if(this->_ptr!=ary._ptr) { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } { _count=ary._count; _size=ary._size; _ptr=ary._ptr; } ++ *_count; } return *this; }
+        SharedArray<T> tmp(ary); std::swap(_count,tmp._count); std::swap(_size,tmp._size); std::swap(_ptr,tmp._ptr); return *this; }
     size_t size() const { return _size; }
     T& operator[](size_t i) { return _ptr[i]; }
     const T& operator[](size_t i) const { return _ptr[i]; }
-- 
2.43.0


From db4c5d1b2b3cbb098824c613a3d5c8397dd2659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:23:02 +0000
Subject: [PATCH 34/40] fix: the text of an error may name a variable called ss

---
 include/macros.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 7c257f8..c1d8810 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -48,9 +48,9 @@
 
 #define HELPER_THROW(except,func,msg)          \
     { \
-        std::ostringstream ss; \
-        ss << #except " in " << func << ": " << msg;    \
-        throw except(ss.str()); \
+        std::ostringstream helper_throw_message; \
+        helper_throw_message << #except " in " << func << ": " << msg;    \
+        throw except(helper_throw_message.str()); \
     } \
 
 #define HELPER_ASSERT(expression) \
-- 
2.43.0


From f47e31a457b1410cd14a54daa2f0088d64303e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:23:20 +0000
Subject: [PATCH 35/40] fix: a test check may use a variable called ok, result
 or error

---
 include/test.hpp | 68 ++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index 8fc3cdd..0dbecfd 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -185,8 +185,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_ASSERT(expression)                                 \
     {                                                                   \
         std::cout << #expression << ": " << std::flush;                 \
-        auto result = (expression);                                     \
-        if(result) {                                                    \
+        auto helper_test_result = (expression);                                     \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -200,8 +200,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_CHECK_WARN(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << ": " << std::flush; \
-        bool ok = testing_check(std::cout,expression,expected);         \
-        if(ok) {                                                        \
+        bool helper_test_ok = testing_check(std::cout,expression,expected);         \
+        if(helper_test_ok) {                                                        \
             std::cout << "\n" << std::endl;                             \
         } else {                                                        \
             std::cout << "\nWARNING: expected " << #expression << " = " << #expected << " == " << (expected) << " \n" << std::endl; \
@@ -214,8 +214,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_CHECK(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << ": " << std::flush; \
-        bool ok = testing_check(std::cout,expression,expected);         \
-        if(ok) {                                                        \
+        bool helper_test_ok = testing_check(std::cout,expression,expected);         \
+        if(helper_test_ok) {                                                        \
             std::cout << "\n" << std::endl;                             \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -229,8 +229,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_SAME(expression1,expression2)                         \
     {                                                                   \
         std::cout << "same(" << #expression1 << "," << #expression2 << "): " << std::flush; \
-        bool ok = same((expression1), (expression2));                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = same((expression1), (expression2));                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -244,8 +244,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_SAME_AS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " == " << #expected << ": " << std::flush; \
-        bool ok = same((expression), (expected));                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = same((expression), (expected));                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -261,8 +261,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_EQUAL(expression1,expression2)                         \
     {                                                                   \
         std::cout << #expression1 << " == " << #expression2 << ": " << std::flush; \
-        bool ok = (expression1) == (expression2);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression1) == (expression2);                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -276,8 +276,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_NOT_EQUAL(expression1,expression2)                 \
     {                                                                   \
         std::cout << #expression1 << " != " << #expression2 << ": " << std::flush; \
-        bool ok = (expression1) == (expression2);               \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression1) == (expression2);               \
+        if(helper_test_ok) {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: " << #expression1 << ":\n           " << (expression1) \
                       << "\n     : " << #expression2 << ":\n           " << (expression2) << std::endl; \
@@ -291,8 +291,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_EQUALS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " == " << #expected << ": " << std::flush; \
-        bool ok = (expression) == (expected);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression) == (expected);                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -308,17 +308,17 @@ inline int test_case_counter = 0;
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
         using std::abs; \
-        auto error=abs((expression)-(expected)); \
-        bool ok = (error <= (tolerance));                     \
-        if(ok) {                                                        \
+        auto helper_test_error=abs((expression)-(expected)); \
+        bool helper_test_ok = (helper_test_error <= (tolerance));                     \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: " << #expression << ":\n           " << (expression) \
                       << "\n     : " << #expected << ":\n           " << (expected) \
-                      << "\n     : error: " << (error) \
+                      << "\n     : error: " << (helper_test_error) \
                       << "\n     : tolerance " << (tolerance) << std::endl; \
-            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": ApproximateTag equality `" << #expression << " ~ " << #expected << "' failed; " << #expression << "=" << (expression) << "; " << #expected << "=" << (expected)<< "; error=" << (error) << "; tolerance=" << (tolerance) << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": ApproximateTag equality `" << #expression << " ~ " << #expected << "' failed; " << #expression << "=" << (expression) << "; " << #expected << "=" << (expected)<< "; error=" << (helper_test_error) << "; tolerance=" << (tolerance) << std::endl; \
         }                                                               \
     }                                                                   \
                                                                    \
@@ -328,8 +328,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_LESS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " < " << #expected << ": " << std::flush; \
-        bool ok = (expression) < (expected);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression) < (expected);                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -343,8 +343,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_UNARY_PREDICATE(predicate,argument)    \
     {                                                                   \
         std::cout << #predicate << "(" << #argument << ") with " << #argument << "=" << (argument) << ": " << std::flush; \
-        bool ok = (predicate((argument)));                  \
-        if(ok) {                                                        \
+        bool helper_test_ok = (predicate((argument)));                  \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -358,8 +358,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_BINARY_PREDICATE(predicate,argument1,argument2)    \
     {                                                                   \
         std::cout << #predicate << "(" << (#argument1) << "," << (#argument2) << ") with " << #argument1 << "=" << (argument1) << ", " << #argument2 << "=" << (argument2) << ": " << std::flush; \
-        bool ok = predicate((argument1),(argument2));                  \
-        if(ok) {                                                        \
+        bool helper_test_ok = predicate((argument1),(argument2));                  \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -373,8 +373,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_COMPARE(expression,comparison,expected)           \
     {                                                                   \
         std::cout << #expression << ": " << (expression) << std::flush; \
-        bool ok = ((expression) comparison (expected));               \
-        if(ok) {                                                        \
+        bool helper_test_ok = ((expression) comparison (expected));               \
+        if(helper_test_ok) {                                                        \
             std::cout << " " << #comparison << " " << (expected) << ": true\n" << std::endl; \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -387,15 +387,15 @@ inline int test_case_counter = 0;
 /*! \brief Evaluates \a expression, converts to \a Type, and checks if the result compares correctly with \a expected. */
 #define HELPER_TEST_RESULT_COMPARE(Type,expression,comparison,expected) \
     {                                                                   \
-        Type result=(expression);                                       \
-        std::cout << #expression << ": " << result << std::flush; \
-        bool ok = result comparison (expected);               \
-        if(ok) {                                                        \
+        Type helper_test_result=(expression);                                       \
+        std::cout << #expression << ": " << helper_test_result << std::flush; \
+        bool helper_test_ok = helper_test_result comparison (expected);               \
+        if(helper_test_ok) {                                                        \
             std::cout << " " << #comparison << " " << (expected) << "\n" << std::endl; \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: expected: " << #expression << #comparison << #expected << std::endl; \
-            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": Comparison `" << #expression << #comparison << #expected << "' failed; " << #expression << "=" << result << "; " << #expected << "=" << (expected) << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": Comparison `" << #expression << #comparison << #expected << "' failed; " << #expression << "=" << helper_test_result << "; " << #expected << "=" << (expected) << std::endl; \
         }                                                               \
     }                                                                   \
 
-- 
2.43.0


From 576b1e55f63da4f56fca702a64f34bcafeaa6797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:59 +0000
Subject: [PATCH 36/40] fix: unit-test checks of types and vectors use operands
 called result or i

---
 include/test.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index 0dbecfd..a324ba1 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -517,8 +517,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_STATIC_ASSERT(...)                          \
     {                                                                   \
         std::cout << #__VA_ARGS__ << ": " << std::flush;                 \
-        bool result = ((__VA_ARGS__::value));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((__VA_ARGS__::value));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -533,8 +533,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_CONCEPT(...)                          \
     {                                                                   \
         std::cout << #__VA_ARGS__ << ": " << std::flush;                 \
-        bool result = ((__VA_ARGS__));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((__VA_ARGS__));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -551,8 +551,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_SAME_TYPE(...)                          \
     {                                                                   \
         std::cout << "Same<" << #__VA_ARGS__ << ">: " << std::flush;                 \
-        bool result = ((Same<__VA_ARGS__>));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((Same<__VA_ARGS__>));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -568,8 +568,8 @@ inline int test_case_counter = 0;
 #define HELPER_TEST_EQUIVALENT_TYPE(...)                          \
     {                                                                   \
         std::cout << "IsEquivalent<" << #__VA_ARGS__ << ">: " << std::flush;                 \
-        bool result = ((IsEquivalent<__VA_ARGS__>::value));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((IsEquivalent<__VA_ARGS__>::value));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -601,9 +601,9 @@ inline int test_case_counter = 0;
 /*! \brief clean std::vector, i.e. delete memory of it's non NULL elements and set them to NULL in the vector */
 #define HELPER_CLEAN_TEST_VECTOR( vector ) \
     { \
-        for(size_t i = 0; i < vector.size(); i++ ) { \
-            if( vector[i] != NULL ) { \
-                delete vector[i]; vector[i] = NULL; \
+        for(size_t helper_test_index = 0; helper_test_index < (vector).size(); helper_test_index++ ) { \
+            if( (vector)[helper_test_index] != NULL ) { \
+                delete (vector)[helper_test_index]; (vector)[helper_test_index] = NULL; \
             } \
         } \
     } \
-- 
2.43.0


From 14689bac0c50112410d1d35fbf80264c48725162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 37/40] fix: assertions on a variable called assertion_result
 test that variable

---
 include/macros.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index c1d8810..c69f8b3 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -55,8 +55,8 @@
 
 #define HELPER_ASSERT(expression) \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
         } \
     } \
@@ -65,8 +65,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_ASSERT_MSG(expression,error) \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
         } \
     } \
@@ -80,8 +80,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_ASSERT(expression) \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
         } \
     } \
@@ -94,16 +94,16 @@
 
 #define HELPER_PRECONDITION_MSG(expression,error)             \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
         } \
     } \
 
 #define HELPER_PRECONDITION(expression)             \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
         } \
     } \
@@ -111,8 +111,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_PRECONDITION(expression) \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
         } \
     } \
@@ -129,16 +129,16 @@
 
 #define HELPER_ASSERT_MSG(expression,error)             \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
         } \
     } \
 
 #define HELPER_ASSERT_EQUAL(expression1,expression2)    \
     { \
-        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>((expression1) == (expression2));       \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<(expression1)<<" != "<<(expression2)); \
         } \
     } \
-- 
2.43.0


From 76a20845867475e0e5a5b65d3730d87b969eff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:29 +0000
Subject: [PATCH 38/40] fix: two once-only notices in one function, or one
 about a variable called first_time, do not compile

---
 include/macros.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index c69f8b3..345474c 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -147,10 +147,12 @@
     throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
 
 #define HELPER_DEPRECATED(fn,msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
+    { \
+        static bool helper_first_time=true; \
+        if(helper_first_time) { \
+            helper_first_time=false; \
         std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+        } \
     } \
 
 #define HELPER_NOTIFY(msg)          \
@@ -164,10 +166,12 @@
     }
 
 #define HELPER_WARN_ONCE(msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
+    { \
+        static bool helper_first_time=true; \
+        if(helper_first_time) { \
+            helper_first_time=false; \
         std::cerr << "WARNING: " << msg << "" << std::endl; \
+        } \
     } \
 
 #define HELPER_ERROR(msg)          \
-- 
2.43.0


From 00fbe4280294a1b44b5d6b115301307625d74664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:18 +0000
Subject: [PATCH 39/40] fix: a binary word that ends with the stream is read
 also by a stream with exceptions enabled

---
 include/binary_word.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index d15af07..d297825 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -205,14 +205,13 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
         //Otherwise read a sequence of 0 and 1.
         while( input_stream && ( symbol =='0' || symbol =='1' ) ) {
             binary_word.push_back( symbol == '0' ? 0 : 1);
+            if( input_stream.peek() == std::char_traits<char>::eof() ) {
+                //The word was ended by the end of the stream, so it was read successfully
+                return input_stream;
+            }
             input_stream.get( symbol );
         }
-        if( input_stream.eof() && !binary_word.empty() ) {
-            //The word was ended by the end of the stream, so it was read successfully
-            input_stream.clear( std::ios_base::eofbit );
-        } else {
-            input_stream.putback( symbol );
-        }
+        input_stream.putback( symbol );
     }
     return input_stream;
 }
-- 
2.43.0


From f6d1c01c12d8e2f3d226607f9136c54c275e7af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:05 +0000
Subject: [PATCH 40/40] fix: the notice and warning macros cannot be used
 without including <iostream> as well

---
 include/macros.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/macros.hpp b/include/macros.hpp
index 345474c..af767c0 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -36,6 +36,7 @@
 #ifndef HELPER_MACROS_HPP
 #define HELPER_MACROS_HPP
 
+#include <iostream>
 #include <sstream>
 #include <stdexcept>
 
-- 
2.43.0

