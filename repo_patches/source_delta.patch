From f71aaa529a0c17b483febc6bc49b77982d935f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:21 +0000
Subject: [PATCH 01/28] fix: release the old elements and storage in Array move
 assignment

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 941fa4e..4445719 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -132,7 +132,7 @@ public:
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-        if(this!=&a) { this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        if(this!=&a) { this->_destroy_elements(); uninitialized_delete(_ptr); this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
 
     //! \brief True if the Array's size is 0.
     bool empty() const { return _size==0u; }
-- 
2.43.0


From 4ae08fce901fb4b1744b772187011224efbff5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:21 +0000
Subject: [PATCH 02/28] fix: count owners and release the counter in the
 SharedArray destructor

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 4445719..89f8b6c 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -228,7 +228,7 @@ public:
     typedef ValueType const* ConstIterator;
     size_t* _count; size_t _size; T* _ptr;
 public:
-    ~SharedArray() { --_count; if(*_count==0) { delete[] _ptr; } }
+    ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
     SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(new T[n]) { }
     SharedArray(size_t n, const T& x) : SharedArray(n) {
         for(size_t i=0; i!=n; ++i) { _ptr[i]=x; } }
-- 
2.43.0


From 756f2ffc6a5b34641eaab08327813f7329e69013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:21 +0000
Subject: [PATCH 03/28] fix: refuse Array sizes whose storage size overflows

---
 include/array.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 89f8b6c..0a90040 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -37,6 +37,8 @@
 
 #include <initializer_list>
 #include <iterator>
+#include <limits>
+#include <new>
 #include <stdexcept>
 #include <cassert>
 #include "metaprogramming.hpp"
@@ -52,7 +54,9 @@ struct Uninitialised { };
 template<class T>
 class Array {
 private:
-    static T* uninitialized_new(size_t n) { return static_cast<T*>(::operator new(n*sizeof(T))); }
+    static T* uninitialized_new(size_t n) {
+        if(n>std::numeric_limits<size_t>::max()/sizeof(T)) { throw std::bad_array_new_length(); }
+        return static_cast<T*>(::operator new(n*sizeof(T))); }
     static void uninitialized_delete(T* p) { ::operator delete(p); }
 public:
     typedef T ValueType;
-- 
2.43.0


From 69c532028286e54975ea0672e31dd9ffb47c8f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:21 +0000
Subject: [PATCH 04/28] fix: keep the common elements in Set::restrict

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index aaf3531..74bc38d 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -196,7 +196,7 @@ template<class T> class Set : public std::set<T> {
         return *this; }
     Set<T>& restrict(const std::set<T>& s) {
         auto iter=this->begin();
-        while(iter!=this->end()) { if(s.find(*iter)!=s.end()) { this->erase(iter++); } else { ++iter; } }
+        while(iter!=this->end()) { if(s.find(*iter)==s.end()) { this->erase(iter++); } else { ++iter; } }
         return *this; }
     template<class TT> Set<T>& remove(const std::vector<TT>& l) {
         for(auto iter=l.begin(); iter!=l.end(); ++iter) {
-- 
2.43.0


From f8351f2db57ad3d36c4a01b7a1069c45c6c4d540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:22 +0000
Subject: [PATCH 05/28] fix: make apply on a Set compile

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 74bc38d..c43e5f8 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -205,7 +205,7 @@ template<class T> class Set : public std::set<T> {
 };
 template<class T, Invocable<T> F> inline
 Set<InvokeResult<F,T>> apply(F&& f, Set<T> const& set) {
-    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.adjoin(f(itm)); } return res; }
+    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.insert(f(itm)); } return res; }
 template<class T> inline Set<T> join(Set<T> s1, Set<T> const& s2) {
     s1.adjoin(s2); return s1; }
 template<class T> inline bool contains(const std::set<T>& s, const T& t) {
-- 
2.43.0


From 03696920855b6805445b80cdbadda860030b00e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:22 +0000
Subject: [PATCH 06/28] fix: terminate when a List is appended to itself

---
 include/container.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index c43e5f8..5404a3a 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -87,9 +87,9 @@ template<class T> class List : public std::vector<T> {
         explicit List(const std::vector<TT>& l) : std::vector<T>(l.begin(),l.end()) { }
     void append(const T& t) { this->push_back(t); }
     void append(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        for(size_t i=0, n=t.size(); i!=n; ++i) { this->push_back(t[i]); } }
     void concatenate(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        for(size_t i=0, n=t.size(); i!=n; ++i) { this->push_back(t[i]); } }
 };
 template<class T> inline List<T> catenate(const List<T>& l1, const List<T>& l2) {
     List<T> r(l1);
-- 
2.43.0


From 48e79d156cec4ac7c12d6f51d8c0817da8e16e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:22 +0000
Subject: [PATCH 07/28] fix: make LinkedList construction from a value and
 appending compile

---
 include/container.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index 5404a3a..ba313be 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -142,15 +142,17 @@ template<class T> class LinkedList
     typedef typename std::list<T>::const_iterator ConstIterator;
     LinkedList() : std::list<T>() { }
     LinkedList(unsigned int n) : std::list<T>(n) { }
-    LinkedList(unsigned int n, const T& t) : std::vector<T>(n,t) { }
+    LinkedList(unsigned int n, const T& t) : std::list<T>(n,t) { }
     LinkedList(const std::list<T>& l) : std::list<T>(l) { }
     template<class X> LinkedList(const List<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class X> LinkedList(const LinkedList<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class I> LinkedList(const I& b, const I& e) : std::list<T>(b,e) { }
     // Conversion constructor from an value to a single-element list.
     void append(const T& t) { this->push_back(t); }
-    void append(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
-    void concatenate(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+    void append(const LinkedList<T>& t) {
+        auto iter=t.begin(); for(size_t i=0, n=t.size(); i!=n; ++i, ++iter) { this->push_back(*iter); } }
+    void concatenate(const LinkedList<T>& t) {
+        auto iter=t.begin(); for(size_t i=0, n=t.size(); i!=n; ++i, ++iter) { this->push_back(*iter); } }
 };
 template<class T> inline ostream&
 operator<< (ostream &os, const std::list<T>& l) {
-- 
2.43.0


From 8c8bb3093e66752c9139a950bebb891602412e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:22 +0000
Subject: [PATCH 08/28] fix: make make_list from an Array compile

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index ba313be..17b640d 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -323,7 +323,7 @@ template<class T> inline Array<T> make_array(const Array<T>& ary) { return Array
 
 template<class T> inline List<T> make_list(const T& t) { return List<T>(1u,t); }
 template<class T> inline List<T> make_list(const std::vector<T>& vec) { return List<T>(vec); }
-template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary); }
+template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary.begin(),ary.end()); }
 template<class T> inline List<T> make_list(const Set<T>& set) { return List<T>(set.begin(),set.end()); }
 
 template<class T> inline Set<T> make_set(const std::vector<T>& lst) { return Set<T>(lst); }
-- 
2.43.0


From 2ec1007a3e00ddc72d2bc875782e1060fb11458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:45 +0000
Subject: [PATCH 09/28] fix: make binary_word.hpp compile

---
 include/binary_word.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 98fb80c..323a513 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -76,7 +76,9 @@
 
 #include <limits>
 #include <vector>
-#include <iosfwd>
+#include <string>
+#include <iostream>
+#include <sstream>
 #include <stdexcept>
 
 #include "macros.hpp"
@@ -101,7 +103,7 @@ class BinaryWord : public std::vector<bool> {
     BinaryWord() : std::vector<bool>() { }
 
     //! \brief Construct from a string literal consisting of zeros and ones.
-    explicit BinaryWord(const StringType& str);
+    explicit BinaryWord(const std::string& str);
 
     //! Comparison operator.
     bool operator<(const BinaryWord& w) const;
@@ -212,14 +214,14 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
 /*! \brief allocates a new binary word created from a string.
  *  The data format is either "[0,1,0,1,1]" or equivalently "01011".
  */
-inline BinaryWord make_binary_word(const StringType& string_data) {
+inline BinaryWord make_binary_word(const std::string& string_data) {
     BinaryWord binary_word;
-    StringStream string_input_stream( string_data );
+    std::stringstream string_input_stream( string_data );
     string_input_stream >> binary_word;
     return binary_word;
 }
 
-inline BinaryWord::BinaryWord(const StringType& str) {
+inline BinaryWord::BinaryWord(const std::string& str) {
     *this=make_binary_word(str); }
 
 /*! \brief Serializes data into a stream.
-- 
2.43.0


From 6e99d22f76d060eef805e4ee3dab3c34396810aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:45 +0000
Subject: [PATCH 10/28] fix: do not use an uninitialised symbol when reading a
 BinaryWord from empty input

---
 include/binary_word.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 323a513..51d46b6 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -192,7 +192,7 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
     //new data and the old one is not needed.
     binary_word.clear();
     //Read the first stream symbol to check the input format
-    char symbol;
+    char symbol=0;
     input_stream >> symbol;
     if( symbol == '[' ) {
         //If it is a standard std:vector input then put
-- 
2.43.0


From 4db2f84cb903967f6e3c56ff38b5c54d034016f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:45 +0000
Subject: [PATCH 11/28] fix: leave the stream formatting alone when writing a
 BinaryWord

---
 include/binary_word.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 51d46b6..dcd752b 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -231,11 +231,9 @@ inline ostream& operator<<(ostream& os, const BinaryWord& bw) {
     if( bw.empty() ) {
         return os << 'e';
     }
-    os << std::noboolalpha;
     for(size_t i=0; i!=bw.size(); ++i) {
-        os << bw[i];
+        os << (bw[i] ? '1' : '0');
     }
-    os << std::boolalpha;
     return os;
 }
 
-- 
2.43.0


From 92f29d3d9e442089f5f15bb1bb84ed50b27bdc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:45 +0000
Subject: [PATCH 12/28] fix: terminate when a BinaryWord is appended to itself

---
 include/binary_word.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index dcd752b..74e7a13 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -179,7 +179,7 @@ inline void BinaryWord::append( const bool& binarySymbol ) {
 }
 
 inline void BinaryWord::append( const BinaryWord& binaryWord ) {
-    for( size_t i = 0; i < binaryWord.size() ; i++ ){
+    for( size_t i = 0, n = binaryWord.size(); i < n ; i++ ){
         this->push_back( binaryWord[i] );
     }
 }
-- 
2.43.0


From 8759e295cadd43b3239c4d1c7da844f12e4a5f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:45 +0000
Subject: [PATCH 13/28] fix: do not use a character that was not read in
 read_sequence

---
 include/stlio.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index 93055b4..c203bd4 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -154,14 +154,12 @@ read_sequence(istream& is, Container& v,
     v.clear();
 
     try {
-        is >> c;
-        if(c != opening) {
+        if(!(is >> c) || c != opening) {
             throw std::ios_base::failure(std::string("Helper::Base::read_vector: Input must begin with ")+opening);
         }
 
         /* Handle case of empty list */
-        is >> c;
-        if(c != closing) {
+        if(!(is >> c) || c != closing) {
             is.putback(c);
             c=separator;
         }
-- 
2.43.0


From e5dd0b3ce49298c3edfef750a7196995caa55cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:45 +0000
Subject: [PATCH 14/28] fix: make printing a tuple compile

---
 include/stlio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index c203bd4..f7106f8 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -217,7 +217,7 @@ operator<<(std::ostream &os, const std::pair<S,T>& s)
 template<class... TS> inline
 std::ostream& operator<<(std::ostream& os, std::tuple<TS...> const& tup) {
     typename std::tuple_size<std::tuple<TS...>>::type sz;
-    os << "("; write_tuple(os,tup,sz); os << ")"; return os;
+    os << "("; Helper::write_tuple(os,tup,sz); os << ")"; return os;
 }
 
 /*
-- 
2.43.0


From 8d8b008a1943889f5b3e5a9c258b760b9215b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:45 +0000
Subject: [PATCH 15/28] fix: make HELPER_NOT_IMPLEMENTED compile

---
 include/macros.hpp | 379 +++++++++++++++++++++++----------------------
 1 file changed, 190 insertions(+), 189 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 81ec20b..4b506dd 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -1,189 +1,190 @@
-/***************************************************************************
- *            macros.hpp
- *
- *  Copyright  2023  Luca Geretti
- *
- ****************************************************************************/
-
-/*
- * This file is part of Helper, under the MIT license.
- *
- * Permission is hereby granted, free of charge, to any person obtaining a copy
- * of this software and associated documentation files (the "Software"), to deal
- * in the Software without restriction, including without limitation the rights
- * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
- * copies of the Software, and to permit persons to whom the Software is furnished
- * to do so, subject to the following conditions:
- *
- * The above copyright notice and this permission notice shall be included in all
- * copies or substantial portions of the Software.
- *
- * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
- * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
- * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
- * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
- * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
- * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
- */
-
-
-/*! \file macros.hpp
- *  \brief
- */
-
-
-
-#ifndef HELPER_MACROS_HPP
-#define HELPER_MACROS_HPP
-
-#include <sstream>
-#include <stdexcept>
-
-#define HELPER_USING_CONSTRUCTORS(Class,Base) \
-    template<class T,typename std::enable_if<std::is_convertible<T,Base>::value,int>::type=0> \
-    Class(const T& t) : Base(t) { } \
-    template<class T,typename std::enable_if<std::is_constructible<T,Base>::value and not std::is_convertible<T,Base>::value,int>::type=0> \
-    explicit Class(const T& t) : Base(t) { } \
-    template<class ...Args> Class(Args&&... args) : Base(std::forward<Args>(args)...) { } \
-
-#define HELPER_THROW(except,func,msg)          \
-    { \
-        std::ostringstream ss; \
-        ss << #except " in " << func << ": " << msg;    \
-        throw except(ss.str()); \
-    } \
-
-#define HELPER_ASSERT(expression) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
-        } \
-    } \
-
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
-    { }
-#endif
-
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_ASSERT(expression) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_ASSERT(expression) \
-    { }
-#endif
-
-
-#define HELPER_PRECONDITION_MSG(expression,error)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#define HELPER_PRECONDITION(expression)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
-        } \
-    } \
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_PRECONDITION(expression) \
-    { \
-        bool result = static_cast<bool>(expression); \
-        if(!result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_PRECONDITION(expression) \
-    { }
-#endif
-
-#define HELPER_FAIL_MSG(error)             \
-    { \
-        HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"ErrorTag "<<error); \
-    } \
-
-#define HELPER_ASSERT_MSG(expression,error)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#define HELPER_ASSERT_EQUAL(expression1,expression2)    \
-    { \
-        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
-        } \
-    } \
-
-#define HELPER_NOT_IMPLEMENTED                 \
-    throw std::runtime_error(StringType("Not implemented: ")+HELPER_PRETTY_FUNCTION);
-
-#define HELPER_DEPRECATED(fn,msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
-    } \
-
-#define HELPER_NOTIFY(msg)          \
-    {                                                                \
-        std::cerr << "NOTIFICATION: " << msg << "" << std::endl;                \
-    }
-
-#define HELPER_WARN(msg)          \
-    {                                                                \
-        std::cerr << "WARNING: " << msg << "" << std::endl;                \
-    }
-
-#define HELPER_WARN_ONCE(msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "WARNING: " << msg << "" << std::endl; \
-    } \
-
-#define HELPER_ERROR(msg)          \
-    {                                                                \
-        std::cerr << "ERROR: " << msg << "" << std::endl;                \
-    }
-                                                                  \
-#if defined(linux) || defined(__linux) || defined(__linux__)
-#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
-#elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32)
-#define HELPER_PRETTY_FUNCTION __FUNCTION__
-#elif defined(darwin) || defined(__darwin) || defined(__darwin__) || defined(__APPLE__)
-#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
-#else
-#define HELPER_PRETTY_FUNCTION ""
-#endif
-
-
-#endif // HELPER_MACROS_HPP
+/***************************************************************************
+ *            macros.hpp
+ *
+ *  Copyright  2023  Luca Geretti
+ *
+ ****************************************************************************/
+
+/*
+ * This file is part of Helper, under the MIT license.
+ *
+ * Permission is hereby granted, free of charge, to any person obtaining a copy
+ * of this software and associated documentation files (the "Software"), to deal
+ * in the Software without restriction, including without limitation the rights
+ * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+ * copies of the Software, and to permit persons to whom the Software is furnished
+ * to do so, subject to the following conditions:
+ *
+ * The above copyright notice and this permission notice shall be included in all
+ * copies or substantial portions of the Software.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+ * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
+ * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
+ * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
+ * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+ * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+ */
+
+
+/*! \file macros.hpp
+ *  \brief
+ */
+
+
+
+#ifndef HELPER_MACROS_HPP
+#define HELPER_MACROS_HPP
+
+#include <sstream>
+#include <stdexcept>
+#include <string>
+
+#define HELPER_USING_CONSTRUCTORS(Class,Base) \
+    template<class T,typename std::enable_if<std::is_convertible<T,Base>::value,int>::type=0> \
+    Class(const T& t) : Base(t) { } \
+    template<class T,typename std::enable_if<std::is_constructible<T,Base>::value and not std::is_convertible<T,Base>::value,int>::type=0> \
+    explicit Class(const T& t) : Base(t) { } \
+    template<class ...Args> Class(Args&&... args) : Base(std::forward<Args>(args)...) { } \
+
+#define HELPER_THROW(except,func,msg)          \
+    { \
+        std::ostringstream ss; \
+        ss << #except " in " << func << ": " << msg;    \
+        throw except(ss.str()); \
+    } \
+
+#define HELPER_ASSERT(expression) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
+        } \
+    } \
+
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
+    { }
+#endif
+
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_ASSERT(expression) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_ASSERT(expression) \
+    { }
+#endif
+
+
+#define HELPER_PRECONDITION_MSG(expression,error)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#define HELPER_PRECONDITION(expression)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
+        } \
+    } \
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_PRECONDITION(expression) \
+    { \
+        bool result = static_cast<bool>(expression); \
+        if(!result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_PRECONDITION(expression) \
+    { }
+#endif
+
+#define HELPER_FAIL_MSG(error)             \
+    { \
+        HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"ErrorTag "<<error); \
+    } \
+
+#define HELPER_ASSERT_MSG(expression,error)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#define HELPER_ASSERT_EQUAL(expression1,expression2)    \
+    { \
+        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
+        } \
+    } \
+
+#define HELPER_NOT_IMPLEMENTED                 \
+    throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
+
+#define HELPER_DEPRECATED(fn,msg)          \
+    static bool first_time=true; \
+    if(first_time) { \
+        first_time=false; \
+        std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+    } \
+
+#define HELPER_NOTIFY(msg)          \
+    {                                                                \
+        std::cerr << "NOTIFICATION: " << msg << "" << std::endl;                \
+    }
+
+#define HELPER_WARN(msg)          \
+    {                                                                \
+        std::cerr << "WARNING: " << msg << "" << std::endl;                \
+    }
+
+#define HELPER_WARN_ONCE(msg)          \
+    static bool first_time=true; \
+    if(first_time) { \
+        first_time=false; \
+        std::cerr << "WARNING: " << msg << "" << std::endl; \
+    } \
+
+#define HELPER_ERROR(msg)          \
+    {                                                                \
+        std::cerr << "ERROR: " << msg << "" << std::endl;                \
+    }
+                                                                  \
+#if defined(linux) || defined(__linux) || defined(__linux__)
+#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
+#elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32)
+#define HELPER_PRETTY_FUNCTION __FUNCTION__
+#elif defined(darwin) || defined(__darwin) || defined(__darwin__) || defined(__APPLE__)
+#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
+#else
+#define HELPER_PRETTY_FUNCTION ""
+#endif
+
+
+#endif // HELPER_MACROS_HPP
-- 
2.43.0


From a8ffe68d44186d55eced970b617100d0abca1040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:45 +0000
Subject: [PATCH 16/28] fix: recognise classes with a write member in
 IsWritable

---
 include/writable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/writable.hpp b/include/writable.hpp
index 9a0708e..9a0f22c 100644
--- a/include/writable.hpp
+++ b/include/writable.hpp
@@ -53,7 +53,7 @@ class WritableInterface {
 };
 inline ostream& operator<<(ostream& os, const WritableInterface& w) { w._write(os); return os; }
 
-template<class T, class = decltype(declval<T>()._write(declval<ostream>()))> True has_write(int);
+template<class T, class = decltype(declval<T>()._write(declval<ostream&>()))> True has_write(int);
 template<class T> False has_write(...);
 template<class T, class = Fallback> struct IsWritable : decltype(has_write<T>(1)) { };
 
-- 
2.43.0


From 42f108da826533124c8d22a9695bf5b10e5b4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:45 +0000
Subject: [PATCH 17/28] fix: do not stream a null symbol name in stack_trace

---
 src/stack_trace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_trace.cpp b/src/stack_trace.cpp
index 022568c..8f86b9e 100644
--- a/src/stack_trace.cpp
+++ b/src/stack_trace.cpp
@@ -54,7 +54,7 @@ void stack_trace() {
             size_t length;
             int status;
             char* demangled = abi::__cxa_demangle(symbols[i], no_output_buffer, &length, &status);
-            std::cerr << (status == 0 ? demangled : info.dli_sname) << "\n";
+            std::cerr << (status == 0 ? demangled : (info.dli_sname ? info.dli_sname : "?")) << "\n";
             free(demangled);
         } else {
             std::cerr << i << " " << callstack[i] << "\n";
-- 
2.43.0


From 06c22dbc6e50f933b7da75fbfd649c1130f02b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:45 +0000
Subject: [PATCH 18/28] fix: copy the value before LRUCache::put removes an
 element it may refer to

---
 include/lru_cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru_cache.hpp b/include/lru_cache.hpp
index aa7a704..e23fd48 100644
--- a/include/lru_cache.hpp
+++ b/include/lru_cache.hpp
@@ -79,6 +79,7 @@ template<class L, class V> class LRUCache {
     //! \details The element must not already exist; updates ages accordingly
     void put(L const& label, V const& val) {
         HELPER_PRECONDITION(not has_label(label));
+        typename std::map<L,AgeValuePair>::value_type element(label,AgeValuePair(0,val));
         if (_elements.size() < _maximum_size) {
             for (auto& other : _elements) other.second.age++;
         } else {
@@ -89,7 +90,7 @@ template<class L, class V> class LRUCache {
             }
             _elements.erase(to_remove);
         }
-        _elements.insert({label,AgeValuePair(0,val)});
+        _elements.insert(element);
     }
 
     //! \brief The current size due to putting elements
-- 
2.43.0


From cb93345759662de7d1490eab974f9321f23918ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:45 +0000
Subject: [PATCH 19/28] fix: make dynamic_handle_cast callable

---
 include/handle.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index a05ece2..d16e496 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -48,8 +48,6 @@ using std::shared_ptr;
 template<class T> struct HandleObject { };
 
 template<class I> class Handle;
-template<class T, class I> const T& dynamic_handle_cast(const Handle<I>& h);
-template<class T, class I> T& dynamic_handle_cast(Handle<I>& h);
 
 template<class T, class I> class Wrapper
     : public virtual I, public T
@@ -112,8 +110,6 @@ template<class I> class Handle {
   private:
     template<class T, class II> friend T& dynamic_handle_extract(Handle<II>& h);
     template<class T, class II> friend const T& dynamic_handle_extract(const Handle<II>& h);
-    template<class D, class B> friend Handle<D> dynamic_handle_cast(Handle<B>& h);
-    template<class D, class B> friend const Handle<D> dynamic_handle_cast(const Handle<B>& h);
 };
 
 template<class T, class... AS> Handle<T> make_handle(AS&& ... as) {
@@ -129,7 +125,7 @@ inline void write_error(ostream& os, const char* f, const WritableInterface* w,
 template<class D, class B> D dynamic_handle_cast(B const& h) {
     typedef typename B::Interface BI;
     typedef typename D::Interface DI;
-    if constexpr (Same<decltype(h.managed_pointer()),shared_ptr<BI>>) {
+    if constexpr (Same<RemoveConst<decltype(h.managed_pointer())>,shared_ptr<BI>>) {
         shared_ptr<DI> p=std::dynamic_pointer_cast<DI>(h.managed_pointer());
         if(p) { return D(Handle<DI>(p)); }
     } else {
-- 
2.43.0


From 2fab1c64fd91f0c076f8baa7de06e18f06a867bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:45 +0000
Subject: [PATCH 20/28] fix: make mutable dynamic_handle_extract take its own
 clone

---
 include/handle.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index d16e496..34800d4 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -155,10 +155,8 @@ template<class T, class I> const T& dynamic_handle_extract(const Handle<I>& h) {
 
 template<class T, class I> T& dynamic_handle_extract(Handle<I>& h) {
     const I* i=h.raw_const_pointer();
-    const T* p=dynamic_cast<const T*>(i);
-    if(p) { return const_cast<T&>(*p); }
-    p=dynamic_cast<const Wrapper<T,I>*>(i);
-    if(p) { return const_cast<T&>(*p); }
+    if(dynamic_cast<const T*>(i)) { return const_cast<T&>(dynamic_cast<const T&>(*h.raw_pointer())); }
+    if(dynamic_cast<const Wrapper<T,I>*>(i)) { return const_cast<Wrapper<T,I>&>(dynamic_cast<const Wrapper<T,I>&>(*h.raw_pointer())); }
     const WritableInterface* w=dynamic_cast<const WritableInterface*>(i);
     write_error(std::cerr,"dynamic_handle_extract",w,typeid(*i).name(),typeid(i).name(),typeid(T).name());
     throw std::bad_cast();
-- 
2.43.0


From 8ea35a307bed579a9e9de22e4a7c1036f32139e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:56 +0000
Subject: [PATCH 21/28] fix: measure the true difference in HELPER_TEST_WITHIN

---
 include/test.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index c5b395c..4725734 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -32,10 +32,12 @@
 #ifndef HELPER_TEST_HPP
 #define HELPER_TEST_HPP
 
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <exception>
+#include <type_traits>
 #include "macros.hpp"
 
 int HELPER_TEST_FAILURES = 0;
@@ -50,6 +52,13 @@ testing_check(std::ostream& os, const R& r, const ER& er) {
     os << r << std::flush; return (r==er);
 }
 
+// The distance between two values; the difference of unsigned values is never negative.
+template<class R, class ER>
+auto testing_distance(const R& r, const ER& er) {
+    if constexpr (std::is_unsigned_v<decltype(r-er)>) { return r<er ? er-r : r-er; }
+    else { using std::abs; return abs(r-er); }
+}
+
 
 //This is the variable that stores counter for the number of test cases
 //The value is used and updated in the next two macro definitions
@@ -306,8 +315,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
-        auto error=abs(expression-expected); \
-        bool ok = (error <= tolerance);                       \
+        auto error=testing_distance((expression),(expected)); \
+        bool ok = (error <= (tolerance));                     \
         if(ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
-- 
2.43.0


From 86bfed1e0657eae1d92e664665dbbc78b3c85d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:16 +0000
Subject: [PATCH 22/28] fix: Array keeps its elements when reallocation or copy
 assignment is refused memory

---
 include/array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 0a90040..b478bb8 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -132,7 +132,7 @@ public:
     //! \brief Copy assignment.
     Array<T>& operator=(const Array<T>& a) {
         if(this->size()==a.size()) { fill(a.begin()); }
-        else { this->_destroy_elements(); uninitialized_delete(_ptr); _size=a.size(); _ptr=uninitialized_new(_size); this->_uninitialized_fill(a.begin()); }
+        else { pointer _new_ptr=uninitialized_new(a.size()); this->_destroy_elements(); uninitialized_delete(_ptr); _size=a.size(); _ptr=_new_ptr; this->_uninitialized_fill(a.begin()); }
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
@@ -158,8 +158,8 @@ public:
             for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } }
             this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
     //! \brief Reallocates the Array to hold \a n elements. The new elements are default-constructed.
-    void reallocate(size_t n) { if(size()!=n) { this->_destroy_elements(); uninitialized_delete(_ptr);
-            _size=n; _ptr=uninitialized_new(_size); for(size_t i=0; i!=_size; ++i) { new (_ptr+i) T(); } } }
+    void reallocate(size_t n) { if(size()!=n) { pointer _new_ptr=uninitialized_new(n); this->_destroy_elements(); uninitialized_delete(_ptr);
+            _size=n; _ptr=_new_ptr; for(size_t i=0; i!=_size; ++i) { new (_ptr+i) T(); } } }
     //! \brief Efficiently swap two arrays.
     void swap(Array<T>& a) { std::swap(_size,a._size); std::swap(_ptr,a._ptr); }
 
-- 
2.43.0


From 775b70a2efba2c41d483c47ebd5d13364cff573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:19 +0000
Subject: [PATCH 23/28] fix: HELPER_TEST_WITHIN measures the difference of
 integers without overflow

---
 include/test.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index 4725734..c8af657 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -33,6 +33,7 @@
 #define HELPER_TEST_HPP
 
 #include <cmath>
+#include <cstdint>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
@@ -52,13 +53,22 @@ testing_check(std::ostream& os, const R& r, const ER& er) {
     os << r << std::flush; return (r==er);
 }
 
-// The distance between two values; the difference of unsigned values is never negative.
+// The distance between two values; for integers it is computed in the widest unsigned type, which holds it whatever their sign.
 template<class R, class ER>
 auto testing_distance(const R& r, const ER& er) {
-    if constexpr (std::is_unsigned_v<decltype(r-er)>) { return r<er ? er-r : r-er; }
+    if constexpr (std::is_integral_v<R> && std::is_integral_v<ER>) {
+        bool less = ((r<R(0)) != (er<ER(0))) ? r<R(0) : r<er;
+        return less ? std::uintmax_t(er)-std::uintmax_t(r) : std::uintmax_t(r)-std::uintmax_t(er); }
     else { using std::abs; return abs(r-er); }
 }
 
+// Whether a distance computed by testing_distance is within a tolerance.
+template<class E, class T>
+bool testing_within(const E& error, const T& tolerance) {
+    if constexpr (std::is_integral_v<E> && std::is_integral_v<T>) { return !(tolerance<T(0)) && error<=std::uintmax_t(tolerance); }
+    else { return error<=tolerance; }
+}
+
 
 //This is the variable that stores counter for the number of test cases
 //The value is used and updated in the next two macro definitions
@@ -316,7 +326,7 @@ int test_case_counter = 0;
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
         auto error=testing_distance((expression),(expected)); \
-        bool ok = (error <= (tolerance));                     \
+        bool ok = testing_within(error,(tolerance));          \
         if(ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
-- 
2.43.0


From 99122075107dfca73bb355ef2dc73a9dc1046a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:22 +0000
Subject: [PATCH 24/28] fix: count an exception of unknown type in
 HELPER_TEST_CALL as a failure

---
 include/test.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/test.hpp b/include/test.hpp
index c8af657..030e5e6 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -145,6 +145,13 @@ int test_case_counter = 0;
                       << #function << ": " << except.what() << std::endl; \
             std::cout << std::endl;                                     \
         }                                                               \
+        catch(...) {                                                    \
+            ++HELPER_TEST_FAILURES;                                    \
+            std::cout << "ERROR: unknown exception in " << #function << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": calling " \
+                      << #function << ": unknown exception" << std::endl; \
+            std::cout << std::endl;                                     \
+        }                                                               \
     }                                                                   \
 
 
-- 
2.43.0


From 517e66148633caca17bb160555da22aead7e33d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:18:38 +0000
Subject: [PATCH 25/28] fix: BinaryWord::erase_prefix misjudged words of 2^31
 or more bits

---
 include/binary_word.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 74e7a13..832b610 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -130,9 +130,9 @@ class BinaryWord : public std::vector<bool> {
 };
 
 inline void BinaryWord::erase_prefix(const int prefix_size) {
-    const int total_size = size();
+    const size_t total_size = size();
     //Erase prefix elements until the word is empry or we erased prefix_size elements
-    for( int i = 0; ( i < total_size ) && ( i < prefix_size ) ; i++ ) {
+    for( int i = 0; ( static_cast<size_t>(i) < total_size ) && ( i < prefix_size ) ; i++ ) {
         erase( begin() );
     }
 }
-- 
2.43.0


From 976b15f9aa9daab5b706798401d1b6c3034b2e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:12:03 +0000
Subject: [PATCH 26/28] fix: convert a List to an array or list of its elements

make_array(List<T>) and make_list(List<T>) selected the overload for a single
value and returned a one-element container holding the whole list.
---
 include/container.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/container.hpp b/include/container.hpp
index 17b640d..a79bb86 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -319,10 +319,12 @@ template<class T> Set<T> duplicate_elements(const std::vector<T>& lst) {
 
 template<class T> inline Array<T> make_array(const T& t) { return Array<T>(1u,t); }
 template<class T> inline Array<T> make_array(const std::vector<T>& vec) { return Array<T>(vec.begin(),vec.end()); }
+template<class T> inline Array<T> make_array(const List<T>& lst) { return Array<T>(lst.begin(),lst.end()); }
 template<class T> inline Array<T> make_array(const Array<T>& ary) { return Array<T>(ary); }
 
 template<class T> inline List<T> make_list(const T& t) { return List<T>(1u,t); }
 template<class T> inline List<T> make_list(const std::vector<T>& vec) { return List<T>(vec); }
+template<class T> inline List<T> make_list(const List<T>& lst) { return lst; }
 template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary.begin(),ary.end()); }
 template<class T> inline List<T> make_list(const Set<T>& set) { return List<T>(set.begin(),set.end()); }
 
-- 
2.43.0


From 50ba256b5f1ac26004b02a537f2322a972756ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:12:42 +0000
Subject: [PATCH 27/28] fix: construct an Array of numbers from a size and a
 value of the same type

Array<int>(3,5), and make_array of an unsigned, selected the constructor from a
range of iterators and did not compile.
---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index b478bb8..6e03dba 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -101,7 +101,7 @@ public:
         this->_uninitialized_generate(g); }
 
     //! \brief Constructs an Array from the range \a first to \a last.
-    template<class ForwardIterator>
+    template<class ForwardIterator> requires (not std::is_arithmetic_v<ForwardIterator>)
     Array(ForwardIterator first, ForwardIterator last)
             : _size(static_cast<size_t>(std::distance(first,last))), _ptr(uninitialized_new(_size)) {
         assert(std::distance(first,last) >= 0);
-- 
2.43.0


From bc39dd7be75b50bf271e99554443f3f0da41056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:00:37 +0000
Subject: [PATCH 28/28] fix: give macros.hpp back its original line endings,
 changed by mistake in 8d8b008

---
 include/macros.hpp | 380 ++++++++++++++++++++++-----------------------
 1 file changed, 190 insertions(+), 190 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 4b506dd..7161bd8 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -1,190 +1,190 @@
-/***************************************************************************
- *            macros.hpp
- *
- *  Copyright  2023  Luca Geretti
- *
- ****************************************************************************/
-
-/*
- * This file is part of Helper, under the MIT license.
- *
- * Permission is hereby granted, free of charge, to any person obtaining a copy
- * of this software and associated documentation files (the "Software"), to deal
- * in the Software without restriction, including without limitation the rights
- * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
- * copies of the Software, and to permit persons to whom the Software is furnished
- * to do so, subject to the following conditions:
- *
- * The above copyright notice and this permission notice shall be included in all
- * copies or substantial portions of the Software.
- *
- * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
- * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
- * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
- * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
- * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
- * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
- */
-
-
-/*! \file macros.hpp
- *  \brief
- */
-
-
-
-#ifndef HELPER_MACROS_HPP
-#define HELPER_MACROS_HPP
-
-#include <sstream>
-#include <stdexcept>
-#include <string>
-
-#define HELPER_USING_CONSTRUCTORS(Class,Base) \
-    template<class T,typename std::enable_if<std::is_convertible<T,Base>::value,int>::type=0> \
-    Class(const T& t) : Base(t) { } \
-    template<class T,typename std::enable_if<std::is_constructible<T,Base>::value and not std::is_convertible<T,Base>::value,int>::type=0> \
-    explicit Class(const T& t) : Base(t) { } \
-    template<class ...Args> Class(Args&&... args) : Base(std::forward<Args>(args)...) { } \
-
-#define HELPER_THROW(except,func,msg)          \
-    { \
-        std::ostringstream ss; \
-        ss << #except " in " << func << ": " << msg;    \
-        throw except(ss.str()); \
-    } \
-
-#define HELPER_ASSERT(expression) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
-        } \
-    } \
-
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
-    { }
-#endif
-
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_ASSERT(expression) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_ASSERT(expression) \
-    { }
-#endif
-
-
-#define HELPER_PRECONDITION_MSG(expression,error)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#define HELPER_PRECONDITION(expression)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
-        } \
-    } \
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_PRECONDITION(expression) \
-    { \
-        bool result = static_cast<bool>(expression); \
-        if(!result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_PRECONDITION(expression) \
-    { }
-#endif
-
-#define HELPER_FAIL_MSG(error)             \
-    { \
-        HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"ErrorTag "<<error); \
-    } \
-
-#define HELPER_ASSERT_MSG(expression,error)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#define HELPER_ASSERT_EQUAL(expression1,expression2)    \
-    { \
-        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
-        } \
-    } \
-
-#define HELPER_NOT_IMPLEMENTED                 \
-    throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
-
-#define HELPER_DEPRECATED(fn,msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
-    } \
-
-#define HELPER_NOTIFY(msg)          \
-    {                                                                \
-        std::cerr << "NOTIFICATION: " << msg << "" << std::endl;                \
-    }
-
-#define HELPER_WARN(msg)          \
-    {                                                                \
-        std::cerr << "WARNING: " << msg << "" << std::endl;                \
-    }
-
-#define HELPER_WARN_ONCE(msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "WARNING: " << msg << "" << std::endl; \
-    } \
-
-#define HELPER_ERROR(msg)          \
-    {                                                                \
-        std::cerr << "ERROR: " << msg << "" << std::endl;                \
-    }
-                                                                  \
-#if defined(linux) || defined(__linux) || defined(__linux__)
-#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
-#elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32)
-#define HELPER_PRETTY_FUNCTION __FUNCTION__
-#elif defined(darwin) || defined(__darwin) || defined(__darwin__) || defined(__APPLE__)
-#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
-#else
-#define HELPER_PRETTY_FUNCTION ""
-#endif
-
-
-#endif // HELPER_MACROS_HPP
+/***************************************************************************
+ *            macros.hpp
+ *
+ *  Copyright  2023  Luca Geretti
+ *
+ ****************************************************************************/
+
+/*
+ * This file is part of Helper, under the MIT license.
+ *
+ * Permission is hereby granted, free of charge, to any person obtaining a copy
+ * of this software and associated documentation files (the "Software"), to deal
+ * in the Software without restriction, including without limitation the rights
+ * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+ * copies of the Software, and to permit persons to whom the Software is furnished
+ * to do so, subject to the following conditions:
+ *
+ * The above copyright notice and this permission notice shall be included in all
+ * copies or substantial portions of the Software.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+ * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
+ * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
+ * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
+ * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+ * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+ */
+
+
+/*! \file macros.hpp
+ *  \brief
+ */
+
+
+
+#ifndef HELPER_MACROS_HPP
+#define HELPER_MACROS_HPP
+
+#include <sstream>
+#include <stdexcept>
+#include <string>
+
+#define HELPER_USING_CONSTRUCTORS(Class,Base) \
+    template<class T,typename std::enable_if<std::is_convertible<T,Base>::value,int>::type=0> \
+    Class(const T& t) : Base(t) { } \
+    template<class T,typename std::enable_if<std::is_constructible<T,Base>::value and not std::is_convertible<T,Base>::value,int>::type=0> \
+    explicit Class(const T& t) : Base(t) { } \
+    template<class ...Args> Class(Args&&... args) : Base(std::forward<Args>(args)...) { } \
+
+#define HELPER_THROW(except,func,msg)          \
+    { \
+        std::ostringstream ss; \
+        ss << #except " in " << func << ": " << msg;    \
+        throw except(ss.str()); \
+    } \
+
+#define HELPER_ASSERT(expression) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
+        } \
+    } \
+
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
+    { }
+#endif
+
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_ASSERT(expression) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_ASSERT(expression) \
+    { }
+#endif
+
+
+#define HELPER_PRECONDITION_MSG(expression,error)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#define HELPER_PRECONDITION(expression)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
+        } \
+    } \
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_PRECONDITION(expression) \
+    { \
+        bool result = static_cast<bool>(expression); \
+        if(!result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_PRECONDITION(expression) \
+    { }
+#endif
+
+#define HELPER_FAIL_MSG(error)             \
+    { \
+        HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"ErrorTag "<<error); \
+    } \
+
+#define HELPER_ASSERT_MSG(expression,error)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#define HELPER_ASSERT_EQUAL(expression1,expression2)    \
+    { \
+        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
+        } \
+    } \
+
+#define HELPER_NOT_IMPLEMENTED                 \
+    throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
+
+#define HELPER_DEPRECATED(fn,msg)          \
+    static bool first_time=true; \
+    if(first_time) { \
+        first_time=false; \
+        std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+    } \
+
+#define HELPER_NOTIFY(msg)          \
+    {                                                                \
+        std::cerr << "NOTIFICATION: " << msg << "" << std::endl;                \
+    }
+
+#define HELPER_WARN(msg)          \
+    {                                                                \
+        std::cerr << "WARNING: " << msg << "" << std::endl;                \
+    }
+
+#define HELPER_WARN_ONCE(msg)          \
+    static bool first_time=true; \
+    if(first_time) { \
+        first_time=false; \
+        std::cerr << "WARNING: " << msg << "" << std::endl; \
+    } \
+
+#define HELPER_ERROR(msg)          \
+    {                                                                \
+        std::cerr << "ERROR: " << msg << "" << std::endl;                \
+    }
+                                                                  \
+#if defined(linux) || defined(__linux) || defined(__linux__)
+#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
+#elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32)
+#define HELPER_PRETTY_FUNCTION __FUNCTION__
+#elif defined(darwin) || defined(__darwin) || defined(__darwin__) || defined(__APPLE__)
+#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
+#else
+#define HELPER_PRETTY_FUNCTION ""
+#endif
+
+
+#endif // HELPER_MACROS_HPP
-- 
2.43.0

