From 45fc4b87d3ed7f25230c0d300a0e8b4b393de0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 001/123] fix: base64 encoder mis-padded a final group ending
 in a zero byte

---
 include/convert/base64codecvt.hpp |  2 ++
 src/convert/base64codecvt.cpp     | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/convert/base64codecvt.hpp b/include/convert/base64codecvt.hpp
index 22c8d7c..eeac341 100644
--- a/include/convert/base64codecvt.hpp
+++ b/include/convert/base64codecvt.hpp
@@ -71,6 +71,8 @@ private:
   void consumeOutChar() const;
   char getPreviousChar() const;
   void setPreviousChar(char c) const;
+  void clearPreviousChar() const;
+  bool havePreviousChar() const;
 }; // class base64codecvt
 
 } // namespace convert
diff --git a/src/convert/base64codecvt.cpp b/src/convert/base64codecvt.cpp
index ea31d92..4f2ecd0 100644
--- a/src/convert/base64codecvt.cpp
+++ b/src/convert/base64codecvt.cpp
@@ -8,6 +8,7 @@
 
 static const std::string base64_charset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/");
 static const int NO_MORE = 256;
+static const int HAVE_PREVIOUS = 0x10000;
 
 using namespace Arabica::convert;
 
@@ -29,7 +30,7 @@ std::codecvt_base::result base64codecvt::do_out(std::mbstate_t& state,
   to_next = to;
 
   // generate the quad
-  while((to_next != to_limit) && !((getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0))) 
+  while((to_next != to_limit) && !((getCurrentOutChar() == NO_MORE) && !havePreviousChar())) 
   {
     char c = getCurrentOutChar();
     switch(getState())
@@ -44,18 +45,18 @@ std::codecvt_base::result base64codecvt::do_out(std::mbstate_t& state,
         break;
       case 2:
         *to_next++ = base64_charset[((getPreviousChar() & 15) << 2) + ((c >> 6) & 3)];
-        setPreviousChar(0);
+        clearPreviousChar();
         break;
       case 3:
         *to_next++ = base64_charset[(c & 63)];
         consumeOutChar();
-        setPreviousChar(0);
+        clearPreviousChar();
         break;
     } // switch(s) 
 
     nextState();
 
-    if((getState() == 0) && (getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0))
+    if((getState() == 0) && (getCurrentOutChar() == NO_MORE) && !havePreviousChar())
       break;
   } // while((from_next < from_end) && (to_next != to_end))
 
@@ -66,7 +67,7 @@ std::codecvt_base::result base64codecvt::do_out(std::mbstate_t& state,
     nextState();
   } // while((state != 4) && (to_next != to_limit))
 
-  return ((getState() == 0) && (getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0)) ? std::codecvt_base::ok : std::codecvt_base::partial;
+  return ((getState() == 0) && (getCurrentOutChar() == NO_MORE) && !havePreviousChar()) ? std::codecvt_base::ok : std::codecvt_base::partial;
 } // do_out
 
 std::codecvt_base::result base64codecvt::do_in(std::mbstate_t& state,
@@ -203,8 +204,19 @@ void base64codecvt::setPreviousChar(char c) const
 
   *state_ &= 0xffff00ff;
   *state_ |= bc;
+  *state_ |= HAVE_PREVIOUS;
 } // setPreviousOutChar
 
+void base64codecvt::clearPreviousChar() const
+{
+  *state_ &= ~(HAVE_PREVIOUS | 0xff00);
+} // clearPreviousChar
+
+bool base64codecvt::havePreviousChar() const
+{
+  return (*state_ & HAVE_PREVIOUS) != 0;
+} // havePreviousChar
+
 void base64codecvt::consumeOutChar() const
 {
   if(*from_next_ != *from_end_)
@@ -213,7 +225,7 @@ void base64codecvt::consumeOutChar() const
     *from_next_ = *from_next_ + 1;
   } 
   else
-    setPreviousChar(0);
+    clearPreviousChar();
 }  // consumeOutChar
 
 // end of file
-- 
2.43.0


From ff5363be0a4b5ddb13f5e4b42edb2c43b9a6db3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 002/123] fix: conversions to UTF-8 and UTF-16 refused output
 buffers that fit exactly

---
 src/convert/impl/iso88591_utf8.cpp | 2 +-
 src/convert/impl/ucs2_utf16.cpp    | 2 +-
 src/convert/impl/ucs2_utf8.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/convert/impl/iso88591_utf8.cpp b/src/convert/impl/iso88591_utf8.cpp
index 44277d6..75c6069 100644
--- a/src/convert/impl/iso88591_utf8.cpp
+++ b/src/convert/impl/iso88591_utf8.cpp
@@ -40,7 +40,7 @@ std::codecvt_base::result Arabica::convert::impl::iso88591_2_utf8(
         continue;
 
       // is there enough room in outbuffer?
-      if(to_next + (t - tab) + 1 >= to_limit)
+      if(to_next + (t - tab) + 1 > to_limit)
         return std::codecvt_base::partial;
 
       int c = t->shift;
diff --git a/src/convert/impl/ucs2_utf16.cpp b/src/convert/impl/ucs2_utf16.cpp
index ca1e050..663aba5 100644
--- a/src/convert/impl/ucs2_utf16.cpp
+++ b/src/convert/impl/ucs2_utf16.cpp
@@ -30,7 +30,7 @@ std::codecvt_base::result Arabica::convert::impl::ucs2_2_utf16(bool be,
 
   while(from_next < from_end)
   {
-    if(to_next + 2 >= to_limit)
+    if(to_next + 2 > to_limit)
       return std::codecvt_base::partial;
 
     wchar_t ch = *from_next;
diff --git a/src/convert/impl/ucs2_utf8.cpp b/src/convert/impl/ucs2_utf8.cpp
index 4b9f5d8..a657711 100644
--- a/src/convert/impl/ucs2_utf8.cpp
+++ b/src/convert/impl/ucs2_utf8.cpp
@@ -45,7 +45,7 @@ std::codecvt_base::result Arabica::convert::impl::ucs2_2_utf8(
         continue;
 
       // is there enough room in outbuffer?
-      if(to_next + (t - tab) + 1 >= to_limit)
+      if(to_next + (t - tab) + 1 > to_limit)
         return std::codecvt_base::partial;
 
       int c = t->shift;
-- 
2.43.0


From a44147a8adcf31c7929a4317a3ca9d257fc97398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 003/123] fix: UTF-8 to ISO-8859-1 conversion read past the end
 of truncated input

---
 src/convert/impl/iso88591_utf8.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/convert/impl/iso88591_utf8.cpp b/src/convert/impl/iso88591_utf8.cpp
index 75c6069..64f1a31 100644
--- a/src/convert/impl/iso88591_utf8.cpp
+++ b/src/convert/impl/iso88591_utf8.cpp
@@ -69,6 +69,14 @@ std::codecvt_base::result Arabica::convert::impl::utf8_2_iso88591(
 	{
     char start = *from_next;
     wchar_t next = static_cast<unsigned char>(*from_next);
+
+    // don't run on past the end of a truncated sequence
+    const Tab *lead = tab;
+    while(lead->char_mask && ((start & lead->char_mask) != lead->char_value))
+      ++lead;
+    if((from_end - from_next) <= (lead - tab))
+      break;
+
     for(const Tab *t = tab; t->char_mask; t++)
     {
       if((start & t->char_mask) == t->char_value)
-- 
2.43.0


From 58134c667d073e83ac856529f818dd2ccff3e431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 004/123] fix: default char to wchar_t codecvt ran past the end
 of the shorter buffer

---
 include/convert/impl/codecvt_specialisations.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/convert/impl/codecvt_specialisations.hpp b/include/convert/impl/codecvt_specialisations.hpp
index bb488e2..720095e 100644
--- a/include/convert/impl/codecvt_specialisations.hpp
+++ b/include/convert/impl/codecvt_specialisations.hpp
@@ -77,14 +77,14 @@ protected:
                                       wchar_t* to_limit,
 		                                  wchar_t*& to_next) const
   {
-    int limit = std::max<int>(from_end - from, to_limit - to);
+    int limit = std::min<int>(from_end - from, to_limit - to);
     from_next = from;
     to_next = to;
 
     while(limit--)
       *to_next++ = static_cast<wchar_t>(*from_next++);
 
-    return codecvt_base::ok;
+    return (from_next == from_end) ? codecvt_base::ok : codecvt_base::partial;
   } // do_out
 
 
@@ -96,14 +96,14 @@ protected:
                                      char* to_limit,
                                      char*& to_next) const
   {
-    int limit = std::max<int>(from_end - from, to_limit - to);
+    int limit = std::min<int>(from_end - from, to_limit - to);
     from_next = from;
     to_next = to;
 
     while(limit--)
       *to_next++ = static_cast<char>(*from_next++);
 
-    return codecvt_base::ok;
+    return (from_next == from_end) ? codecvt_base::ok : codecvt_base::partial;
   } // do_in
 
   virtual codecvt_base::result do_unshift(std::mbstate_t&,
-- 
2.43.0


From 21983f347fface1d4e73a69b7075c6279fd94819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 005/123] fix: iconvert_adaptor scaled its put-back copy twice
 for wide characters

---
 include/io/convert_adaptor.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/io/convert_adaptor.hpp b/include/io/convert_adaptor.hpp
index f891a96..03bd5ef 100644
--- a/include/io/convert_adaptor.hpp
+++ b/include/io/convert_adaptor.hpp
@@ -186,9 +186,10 @@ std::streamsize convert_bufadaptor<charT, traitsT, externalCharT, externalTraits
     growInBuffer();
 
   size_t pbCount = std::min<size_t>(streambufT::gptr() - streambufT::eback(), pbSize_);
-  memcpy(&(inBuffer_[0]) + (pbSize_-pbCount)*sizeof(charT),
-         streambufT::gptr() - pbCount*sizeof(charT),
-         pbCount*sizeof(charT));
+  if(pbCount)
+    memmove(&(inBuffer_[0]) + (pbSize_-pbCount),
+            streambufT::gptr() - pbCount,
+            pbCount*sizeof(charT));
 
   const std::codecvt<charT, externalCharT, state_t>& cvt =
       std::use_facet<std::codecvt<charT, externalCharT, std::mbstate_t> >(this->getloc());
-- 
2.43.0


From eb9c29b4c220083de43d49bdbe3a24e9c0116641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 006/123] fix: converting streams started from an uninitialised
 conversion state

---
 include/io/convert_adaptor.hpp | 2 +-
 include/io/convertstream.hpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/io/convert_adaptor.hpp b/include/io/convert_adaptor.hpp
index 03bd5ef..6346f54 100644
--- a/include/io/convert_adaptor.hpp
+++ b/include/io/convert_adaptor.hpp
@@ -38,7 +38,7 @@ class convert_bufadaptor : public std::basic_streambuf<charT, traitsT>
     typedef std::basic_streambuf<externalCharT, externalTraitsT> externalStreambufT;
     typedef std::basic_streambuf<charT, traitsT> streambufT;
 
-    explicit convert_bufadaptor(externalStreambufT& externalbuf) : externalbuf_(&externalbuf), inEof_(false) { }
+    explicit convert_bufadaptor(externalStreambufT& externalbuf) : externalbuf_(&externalbuf), outState_(), inState_(), inEof_(false) { }
     virtual ~convert_bufadaptor() { }
   
     void set_buffer(externalStreambufT& externalbuf) { externalbuf_ = &externalbuf; inEof_ = false; }
diff --git a/include/io/convertstream.hpp b/include/io/convertstream.hpp
index 8459dba..09e553a 100644
--- a/include/io/convertstream.hpp
+++ b/include/io/convertstream.hpp
@@ -136,7 +136,7 @@ public:
     stringT converted;
     const fromCharT* from_next = str.data();
     typename std::codecvt_base::result r;
-    typename traitsT::state_type state;
+    typename traitsT::state_type state = typename traitsT::state_type();
 
     do
     {
@@ -228,7 +228,7 @@ public:
       // we must do code conversion
       const charT* from_next = newstuff.data();
       typename std::codecvt_base::result r;
-      typename traitsT::state_type state;
+      typename traitsT::state_type state = typename traitsT::state_type();
 
       do
       {
-- 
2.43.0


From 760f8e15680b6fc2b0739006d79a0866ff08d40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 007/123] fix: flushing an oconvert_adaptor nothing was written
 to indexed an empty buffer

---
 include/io/convert_adaptor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/io/convert_adaptor.hpp b/include/io/convert_adaptor.hpp
index 6346f54..3875998 100644
--- a/include/io/convert_adaptor.hpp
+++ b/include/io/convert_adaptor.hpp
@@ -137,6 +137,9 @@ void convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::growInB
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 bool convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::flushOut()
 {
+  if(outBuffer_.empty())
+    return true;
+
   size_t length = streambufT::pptr() - &outBuffer_[0];
   if(!length)
     return true;
-- 
2.43.0


From 66d7a113c73d2a6f70581ae63241b47b101f1297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:20 +0000
Subject: [PATCH 008/123] fix: iconvertstream looped forever on input ending in
 an incomplete character

---
 include/io/convertstream.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/io/convertstream.hpp b/include/io/convertstream.hpp
index 09e553a..d223dba 100644
--- a/include/io/convertstream.hpp
+++ b/include/io/convertstream.hpp
@@ -141,6 +141,7 @@ public:
     do
     {
       charT* to_next;
+      const fromCharT* const from_start = from_next;
       r = cvt.in(state, from_next, str.data() + str.length(), from_next, 
                  to_, to_ + toSize_, to_next);
       if(r == std::codecvt_base::noconv)
@@ -149,6 +150,8 @@ public:
         break;
       }
       converted.append(to_, (to_next - to_));
+      if((from_next == from_start) && (to_next == to_))
+        break; // no progress - what's left is an incomplete character
     }
     while(r == std::codecvt_base::partial);
 
-- 
2.43.0


From dd9ffcbbf5f490e44b070a4eb2cd6bf60de17de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:26 +0000
Subject: [PATCH 009/123] fix: text escaping wrote carriage returns that read
 back as line feeds

---
 include/XML/escaper.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/XML/escaper.hpp b/include/XML/escaper.hpp
index 0bc054f..9c62eb8 100644
--- a/include/XML/escaper.hpp
+++ b/include/XML/escaper.hpp
@@ -46,6 +46,16 @@ class text_escaper
 	      return;
       } // if(ch == case UnicodeT::AMPERSAND)
 
+      // a literal carriage return would be read back as a line feed
+      if(ch == UnicodeT::CARRIAGE_RETURN)
+      {
+        stream_ << UnicodeT::AMPERSAND
+                << UnicodeT::NUMBER_SIGN
+                << UnicodeT::LOWERCASE_X
+                << UnicodeT::CAPITAL_D
+                << UnicodeT::SEMI_COLON;
+        return;
+      } // if(ch == UnicodeT::CARRIAGE_RETURN)
       stream_ << ch;
     } // operator()
 
-- 
2.43.0


From 140a49bb422b65084e37c7cd774572f9b8d308d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:07 +0000
Subject: [PATCH 010/123] fix: resolving a relative URI threw or kept dot
 segments when the base had no directory

---
 src/io/uri.cpp | 65 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 24e3cf6..f5981ee 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -1,5 +1,6 @@
 
 #include <algorithm>
+#include <vector>
 #include <io/uri.hpp>
 
 using namespace Arabica::io;
@@ -15,6 +16,8 @@ namespace {
 
   const std::string COLON = ":";
   const char FORWARD_SLASH = '/';
+  const std::string DOT = ".";
+  const std::string DOT_DOT = "..";
   
   const std::string& wellKnownPort(const std::string& scheme)
   {
@@ -171,27 +174,55 @@ void URI::absolutise(URI& relative)
     combinePath(relative.path_);
 } // absolutise
 
+// resolves the "." and ".." segments, keeping any leading ".." of a relative path
+void removeDotSegments(std::string& path)
+{
+  const bool rooted = !path.empty() && (path[0] == FORWARD_SLASH);
+  std::vector<std::string> segments;
+
+  std::string::size_type start = rooted ? 1 : 0;
+  while(start <= path.length())
+  {
+    std::string::size_type end = std::min(path.find(FORWARD_SLASH, start), path.length());
+    const std::string segment = path.substr(start, end - start);
+    const bool last = (end == path.length());
+    start = end + 1;
+
+    if(segment == DOT_DOT)
+    {
+      if(!segments.empty() && (segments.back() != DOT_DOT))
+        segments.pop_back();
+      else if(!rooted)
+        segments.push_back(segment);
+    }
+    else if(segment != DOT)
+    {
+      segments.push_back(segment);
+      continue;
+    }
+
+    if(last)
+      segments.push_back("");
+  } // while ...
+
+  std::string result;
+  for(size_t i = 0; i != segments.size(); ++i)
+  {
+    if(rooted || i)
+      result += FORWARD_SLASH;
+    result += segments[i];
+  } // for ...
+  path.swap(result);
+} // removeDotSegments
+
 void URI::combinePath(const std::string& relPath)
 {
-  if(*(path_.rbegin()) != FORWARD_SLASH)
+  if(path_.empty() && !host_.empty())
+    path_ = FORWARD_SLASH;
+  if(!path_.empty() && (*(path_.rbegin()) != FORWARD_SLASH))
     path_.erase(path_.rfind(FORWARD_SLASH)+1);
 
-  std::string::size_type from = path_.length() - 1;
   path_.append(relPath);
-
-  size_t dots = path_.find("/../", from);
-  while(dots != std::string::npos)
-  {
-    size_t preceding_slash = (dots > 0) ? path_.rfind(FORWARD_SLASH, dots-1) : 0;
-    path_.erase(preceding_slash, dots+3-preceding_slash);
-    dots = path_.find("/../", preceding_slash);
-  } // while
-
-  size_t dot = path_.find("/./");
-  while(dot != std::string::npos)
-  {
-    path_.erase(dot, 2);
-    dot = path_.find("/./", dot);
-  }
+  removeDotSegments(path_);
 } // combinePath
 
-- 
2.43.0


From 23840fea05ec0d09213e626c558e4a7a3bb9670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:02 +0000
Subject: [PATCH 011/123] fix: the port of a URI without a path was taken as
 part of its host

---
 src/io/uri.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index f5981ee..107babb 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -133,13 +133,6 @@ std::string::const_iterator URI::parseAuthority(const std::string::const_iterato
 						const std::string::const_iterator& ue)
 {
   std::string::const_iterator slash = std::find(u, ue, FORWARD_SLASH);
-  if(slash == ue)
-  {
-    // ah, this is easy
-    host_.append(u, ue);
-    return ue;
-  } // if(slash == we)
-
   std::string::const_iterator colon = std::find(u, slash, ':');
   host_.append(u, colon);
 
-- 
2.43.0


From 8bfe66e6306b0fcd2010e0d6dc388651ed7eaba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:02 +0000
Subject: [PATCH 012/123] fix: a colon after a slash in a relative URI was
 taken to end its scheme

---
 src/io/uri.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 107babb..65c0dc9 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -98,6 +98,8 @@ void URI::parse_uri(const std::string& uri)
   // but that would put a Boost Spirit dependence right in the core, which I'm not prepared to do at the moment
 
   size_t d = uri.find_first_of(COLON);
+  if((d != std::string::npos) && (uri.find(FORWARD_SLASH) < d))
+    d = std::string::npos; // a colon in the path, not after a scheme
   if(d == std::string::npos)
   {
     path_ = uri;
-- 
2.43.0


From 92525cdea4371473ada3f51ad7b2b96e69d144e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:03 +0000
Subject: [PATCH 013/123] fix: dot segments in a rooted URI reference were not
 resolved

---
 src/io/uri.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 65c0dc9..5f69659 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -154,21 +154,6 @@ bool compatible_schemes(const std::string& scheme,
   return (scheme == relative);
 } // compatible_schemes
 
-void URI::absolutise(URI& relative)
-{
-  if((relative.is_absolute()) || 
-     !compatible_schemes(scheme_, relative.scheme()))
-  {
-    swap(relative);
-    return;
-  }
-
-  if(relative.path_[0] == FORWARD_SLASH)
-    path_ = relative.path_;
-  else 
-    combinePath(relative.path_);
-} // absolutise
-
 // resolves the "." and ".." segments, keeping any leading ".." of a relative path
 void removeDotSegments(std::string& path)
 {
@@ -210,6 +195,24 @@ void removeDotSegments(std::string& path)
   path.swap(result);
 } // removeDotSegments
 
+void URI::absolutise(URI& relative)
+{
+  if((relative.is_absolute()) || 
+     !compatible_schemes(scheme_, relative.scheme()))
+  {
+    swap(relative);
+    return;
+  }
+
+  if(relative.path_[0] == FORWARD_SLASH)
+  {
+    path_ = relative.path_;
+    removeDotSegments(path_);
+  }
+  else 
+    combinePath(relative.path_);
+} // absolutise
+
 void URI::combinePath(const std::string& relPath)
 {
   if(path_.empty() && !host_.empty())
-- 
2.43.0


From 8f8fce7ad6cfc48f9b6672a7f3d2afb3d423c8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:23 +0000
Subject: [PATCH 014/123] fix: redeclaring a prefix in the same namespace
 context had no effect

---
 include/SAX/helpers/NamespaceSupport.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/SAX/helpers/NamespaceSupport.hpp b/include/SAX/helpers/NamespaceSupport.hpp
index 4f9998c..1d8b9f8 100644
--- a/include/SAX/helpers/NamespaceSupport.hpp
+++ b/include/SAX/helpers/NamespaceSupport.hpp
@@ -178,7 +178,7 @@ class NamespaceSupport
       if((prefix == nsc_.xml) || (prefix == nsc_.xmlns))
         return false;
 
-      contexts_.back().insert(std::make_pair(prefix, uri));
+      contexts_.back()[prefix] = uri;
       return true;
     } // declarePrefix
 
@@ -369,7 +369,7 @@ class NamespaceSupport
     } // getDeclaredPrefixes
 
   private:
-    typedef typename std::multimap<string_type, string_type> stringMapT;
+    typedef typename std::map<string_type, string_type> stringMapT;
     typedef stringMapT Context;
     typedef typename std::vector<Context> contextListT;
 
-- 
2.43.0


From 2fb1e606572643a479cf16c24f98b354d152262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:23 +0000
Subject: [PATCH 015/123] fix: NamespaceSupport listed the default prefix and
 prefixes that were redeclared

---
 include/SAX/helpers/NamespaceSupport.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/SAX/helpers/NamespaceSupport.hpp b/include/SAX/helpers/NamespaceSupport.hpp
index 1d8b9f8..ebbb4fe 100644
--- a/include/SAX/helpers/NamespaceSupport.hpp
+++ b/include/SAX/helpers/NamespaceSupport.hpp
@@ -277,7 +277,7 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(u->second == uri)
+          if((u->second == uri) && isCurrent(i, u->first))
             return u->first;
       } // for ...
 
@@ -304,7 +304,7 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(!string_adaptor::empty(u->first))
+          if(isCurrent(i, u->first))
             prefixes.push_back(u->first);
       } // for ...
        
@@ -339,7 +339,7 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(u->second == uri)
+          if((u->second == uri) && isCurrent(i, u->first))
             prefixes.push_back(u->first);
       } // for ...
 
@@ -373,6 +373,19 @@ class NamespaceSupport
     typedef stringMapT Context;
     typedef typename std::vector<Context> contextListT;
 
+    // is this the declaration of a (non-default) prefix that is in force?
+    bool isCurrent(typename contextListT::const_reverse_iterator context, const string_type& prefix) const
+    {
+      if(string_adaptor::empty(prefix))
+        return false;
+
+      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != context; ++i)
+        if(i->find(prefix) != i->end())
+          return false;
+
+      return true;
+    } // isCurrent
+
     // member variables
     contextListT contexts_;
 
-- 
2.43.0


From 59c6ec2595dd050d09908ad905a885a3d5d705aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:23 +0000
Subject: [PATCH 016/123] fix: assigning Attributes to AttributesImpl fell off
 the end, and cleared on self assignment

---
 include/SAX/helpers/AttributesImpl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/SAX/helpers/AttributesImpl.hpp b/include/SAX/helpers/AttributesImpl.hpp
index 12ae708..16dac4b 100644
--- a/include/SAX/helpers/AttributesImpl.hpp
+++ b/include/SAX/helpers/AttributesImpl.hpp
@@ -93,6 +93,7 @@ public:
   AttributesImpl& operator=(const AttributesT& rhs) 
   {
     setAttributes(rhs);
+    return *this;
   } // operator=
 
   bool operator==(const AttributesImpl& rhs) const
@@ -324,7 +325,10 @@ public:
    */
   void setAttributes(const AttributesT& atts)
   {
-	  clear();
+	  if(&atts == this)
+      return;
+
+    clear();
 	  
     int max = atts.getLength();
 	  for(int i = 0; i < max; ++i) 
-- 
2.43.0


From c990aa17ff7172eceec47ddf620e95ce73afc90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:37 +0000
Subject: [PATCH 017/123] fix: TextCoalescer delivered text after skipped
 entities and prefix mappings that followed it

---
 include/SAX/filter/TextCoalescer.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/SAX/filter/TextCoalescer.hpp b/include/SAX/filter/TextCoalescer.hpp
index e461c87..d219a37 100644
--- a/include/SAX/filter/TextCoalescer.hpp
+++ b/include/SAX/filter/TextCoalescer.hpp
@@ -34,6 +34,24 @@ public:
   {
   } // TextCoalescer
 
+  virtual void endDocument()
+  {
+    flush();
+    XMLFilterT::endDocument();
+  } // endDocument
+
+  virtual void startPrefixMapping(const string_type& prefix, const string_type& uri)
+  {
+    flush();
+    XMLFilterT::startPrefixMapping(prefix, uri);
+  } // startPrefixMapping
+
+  virtual void skippedEntity(const string_type& name)
+  {
+    flush();
+    XMLFilterT::skippedEntity(name);
+  } // skippedEntity
+
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts) 
   { 
-- 
2.43.0


From 811a35b96785b7da28722ffd156a9c3e0323a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:37 +0000
Subject: [PATCH 018/123] fix: XMLBaseTracker put the document location on top
 of xml:base values already in force

---
 include/SAX/filter/XMLBaseTracker.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/SAX/filter/XMLBaseTracker.hpp b/include/SAX/filter/XMLBaseTracker.hpp
index 6a3b170..2535237 100644
--- a/include/SAX/filter/XMLBaseTracker.hpp
+++ b/include/SAX/filter/XMLBaseTracker.hpp
@@ -52,6 +52,8 @@ public:
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts)
   {
+    if(!base_set_ && locator_)
+      setDocLoc(locator_->getSystemId());
     xmlbase_.startElement(atts);
     XMLFilterT::startElement(namespaceURI, localName, qName, atts);
   } // startElement
-- 
2.43.0


From c85b6e868c05e63b154b03f1d4e348ad3fa27d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:37 +0000
Subject: [PATCH 019/123] fix: an error in an external entity was looked up in
 the wrong expat parser

---
 include/SAX/wrappers/saxexpat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index a795550..e10c925 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -500,7 +500,7 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
     if(XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), is.resolve()->eof()) == 0)
     {
       // error
-      reportError(XML_ErrorString(XML_GetErrorCode(parser_)), true);
+      reportError(XML_ErrorString(XML_GetErrorCode(parser)), true);
       return false;
     } // if ...
   } // while
-- 
2.43.0


From 014dce3371ee2fbf6a3bab3470fb8856092daf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:37 +0000
Subject: [PATCH 020/123] fix: expat wrapper ended the enclosing prefix
 mappings with every element

---
 include/SAX/wrappers/saxexpat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index e10c925..76b9709 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -689,14 +689,14 @@ void expat_wrapper<string_type, T0, T1>::endElement(const char* qName)
 
   qualifiedNameT name = processName(SA::construct_from_utf8(qName), false);
   contentHandler_->endElement(name.namespaceUri(), name.localName(), name.rawName());
-  typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
-  for(size_t i = 0, end = prefixes.size(); i < end; ++i)
-    contentHandler_->endPrefixMapping(prefixes[i]);
   
   bool pushedContext = namespaceContextCreated_.back();
   namespaceContextCreated_.pop_back();
   if (pushedContext)
   {
+    typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
+    for(size_t i = 0, end = prefixes.size(); i < end; ++i)
+      contentHandler_->endPrefixMapping(prefixes[i]);
     nsSupport_.popContext();
   }
 } // endElement
-- 
2.43.0


From a831ab3d2b649dcb44b6b1ed4de9f95aa2c6bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:37 +0000
Subject: [PATCH 021/123] fix: attributes whose names merely start with xmlns
 were taken as namespace declarations

---
 include/SAX/wrappers/saxexpat.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 76b9709..bbb2180 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -266,6 +266,12 @@ class expat_wrapper :
 
   private:
     qualifiedNameT processName(const string_type& qName, bool isAttribute);
+    bool isNamespaceDeclaration(const string_type& attQName) const
+    {
+      string_type xmlnsColon(nsc_.xmlns);
+      SA::append(xmlnsColon, nsc_.colon);
+      return (attQName == nsc_.xmlns) || (SA::find(attQName, xmlnsColon) == 0);
+    } // isNamespaceDeclaration
     void reportError(const std::string& message, bool fatal = false);
     void checkNotParsing(const string_type& type, const string_type& name) const;
   
@@ -604,7 +610,7 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
       string_type value = SA::construct_from_utf8(*a1++);
 
       // declaration?
-      if(SA::find(attQName, nsc_.xmlns) == 0) 
+      if(isNamespaceDeclaration(attQName))
       {
         if (!pushedContext)
         {
@@ -634,7 +640,7 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
       string_type value = SA::construct_from_utf8(*atts++);
 
       // declaration?
-      if(SA::find(attQName, nsc_.xmlns) != 0) 
+      if(!isNamespaceDeclaration(attQName))
       {
         qualifiedNameT attName = processName(attQName, true);
         attributes.addAttribute(attName.namespaceUri(), 
-- 
2.43.0


From 648ca8c7d9c893d303f358e41df5e12487fc842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:37 +0000
Subject: [PATCH 022/123] fix: expat wrapper could not be used again after a
 parse that failed

---
 include/SAX/wrappers/saxexpat.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index bbb2180..5726205 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -316,6 +316,24 @@ class expat_wrapper :
 
 
   private:
+    // makes the wrapper ready for another parse, however this one ends
+    struct ParseGuard
+    {
+      ParseGuard(expat_wrapper& wrapper) : wrapper_(wrapper) { }
+      ~ParseGuard()
+      {
+        wrapper_.parsing_ = false;
+        wrapper_.nsSupport_.reset();
+        wrapper_.namespaceContextCreated_.clear();
+        wrapper_.declaredExternalEnts_.clear();
+        XML_ParserReset(wrapper_.parser_, 0);
+      } // ~ParseGuard
+      expat_wrapper& wrapper_;
+    private:
+      ParseGuard(const ParseGuard&);
+      ParseGuard& operator=(const ParseGuard&);
+    }; // struct ParseGuard
+
     void setCallbacks();
     void startElementNoNS(const char* qName, const char** atts);
     void endElementNoNS(const char* qName);
@@ -466,6 +484,7 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
     contentHandler_->setDocumentLocator(*this);
 
   parsing_ = true;
+  ParseGuard reset(*this);
 
   if(contentHandler_)
     contentHandler_->startDocument();
@@ -476,10 +495,6 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 
   if(contentHandler_)
     contentHandler_->endDocument();
-
-  parsing_ = false;
-
-  XML_ParserReset(parser_, 0);
 } // parse
 
 template<class string_type, class T0, class T1>
-- 
2.43.0


From 8ea154b78910bf59b64574d0ea42a1fa6adb652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 023/123] fix: Writer wrote namespace declarations twice when
 they are also reported as attributes

---
 include/SAX/filter/Writer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 213f080..892ae92 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -263,6 +263,9 @@ void Writer<string_type, string_adaptor>::startElementOpen(
   doIndent();
   *stream_ << UnicodeT::LESS_THAN_SIGN << (!qName.empty() ? qName : localName);
 
+  for(int i = prefixMappings_.getLength() - 1; i >= 0; --i)
+    if(atts.getIndex(prefixMappings_.getQName(i)) != -1)
+      prefixMappings_.removeAttribute(i); // reported as an attribute as well
   writeAttributes(prefixMappings_);
   prefixMappings_.clear();
   writeAttributes(atts);
-- 
2.43.0


From 261de32de50209dea73327981e4ec150d7ff7198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 024/123] fix: Writer did not escape attribute defaults and
 entity values in the document type

---
 include/SAX/filter/Writer.hpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 892ae92..de44756 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -144,6 +144,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
   protected:
     /////////////////
     void startEntityDecl(const string_type& name);
+    void entityValue(const string_type& value);
     void publicAndSystem(const string_type& publicId, const string_type& systemId);
     void doIndent();
     bool isDtd(const string_type& name);
@@ -637,9 +638,10 @@ void Writer<string_type, string_adaptor>::attributeDecl(const string_type& eleme
 
     if(!value.empty())
       *stream_ << UnicodeT::SPACE
-               << UnicodeT::QUOTATION_MARK
-               << value
                << UnicodeT::QUOTATION_MARK;
+    std::for_each(value.begin(), value.end(), attribute_escaperT(*stream_));
+    if(!value.empty())
+      *stream_ << UnicodeT::QUOTATION_MARK;
 
     *stream_ << UnicodeT::GREATER_THAN_SIGN
              << std::endl;
@@ -657,9 +659,9 @@ void Writer<string_type, string_adaptor>::internalEntityDecl(const string_type&
     doIndent();
     startEntityDecl(name);
     *stream_ << UnicodeT::SPACE
-             << UnicodeT::QUOTATION_MARK
-             << value
-             << UnicodeT::QUOTATION_MARK
+             << UnicodeT::QUOTATION_MARK;
+    entityValue(value);
+    *stream_ << UnicodeT::QUOTATION_MARK
              << UnicodeT::GREATER_THAN_SIGN
              << std::endl;
   } // if ...
@@ -699,6 +701,22 @@ void Writer<string_type, string_adaptor>::startEntityDecl(const string_type& nam
            << name;
 } // startEntityDecl
 
+// write replacement text as the literal which is read as that text
+template<class string_type, class string_adaptor>
+void Writer<string_type, string_adaptor>::entityValue(const string_type& value)
+{
+  for(size_t i = 0; i < value.length(); ++i)
+  {
+    const charT ch = value[i];
+    if((ch == UnicodeT::QUOTATION_MARK) || (ch == UnicodeT::PERCENT_SIGN) ||
+       (ch == UnicodeT::AMPERSAND) || (ch == UnicodeT::CARRIAGE_RETURN))
+      *stream_ << UnicodeT::AMPERSAND << UnicodeT::NUMBER_SIGN
+               << static_cast<int>(ch) << UnicodeT::SEMI_COLON;
+    else
+      *stream_ << ch;
+  }
+} // entityValue
+
 template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::publicAndSystem(const string_type& publicId, const string_type& systemId)
 {
-- 
2.43.0


From 138f0380cbcaa4d22ee5851376856bdf5661239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 025/123] fix: attribute declarations with a default value were
 reported as #IMPLIED

---
 include/SAX/wrappers/saxexpat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 5726205..62a9e63 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -874,7 +874,7 @@ void expat_wrapper<string_type, T0, T1>::attListDeclaration(const XML_Char* elna
   default is non-NULL, then this is a "#FIXED" default. */
   if(declHandler_)
   {
-    const string_type* defType = &attrDefaults_.implied;
+    const string_type* defType = dflt ? &emptyString_ : &attrDefaults_.implied;
     if(isrequired)
       defType = dflt ? &attrDefaults_.fixed : &attrDefaults_.required;
     declHandler_->attributeDecl(SA::construct_from_utf8(elname), 
-- 
2.43.0


From a63a4c1703c70cbb137a09aee34c67e4002d9e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:03 +0000
Subject: [PATCH 026/123] fix: parameter entities were reported, written and
 added to the DOM as general entities

---
 include/DOM/SAX2DOM/SAX2DOM.hpp   | 10 ++++++++--
 include/SAX/filter/Writer.hpp     |  7 +++++--
 include/SAX/wrappers/saxexpat.hpp |  7 +++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 19152c9..92bc1ba 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -376,9 +376,15 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
         documentType_->addElementId(attributeName);
     } // attributeDecl
 
+    static bool isParameterEntity(const stringT& name)
+    {
+      static const stringT PERCENT = string_adaptorT::construct_from_utf8("%");
+      return string_adaptorT::find(name, PERCENT) == 0;
+    } // isParameterEntity
+
     virtual void internalEntityDecl(const stringT& name, const stringT& value)
     {
-      if(!documentType_)
+      if(!documentType_ || isParameterEntity(name))
         return;
 
       static const stringT LEFT_ANGLE_BRACKET = string_adaptorT::construct_from_utf8("<");
@@ -423,7 +429,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void externalEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId)
     {
-      if(!documentType_)
+      if(!documentType_ || isParameterEntity(name))
         return;
       EntityT* entity = new EntityT(0, name, publicId, systemId, string_adaptorT::construct_from_utf8(""));
       declaredEntities_.insert(std::make_pair(name, entity)); // we'll populate it later
diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index de44756..58c8f32 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -697,8 +697,11 @@ void Writer<string_type, string_adaptor>::startEntityDecl(const string_type& nam
            << UnicodeT::CAPITAL_I
            << UnicodeT::CAPITAL_T
            << UnicodeT::CAPITAL_Y
-           << UnicodeT::SPACE
-           << name;
+           << UnicodeT::SPACE;
+  if(!name.empty() && name[0] == UnicodeT::PERCENT_SIGN) // parameter entity
+    *stream_ << UnicodeT::PERCENT_SIGN << UnicodeT::SPACE << name.substr(1);
+  else
+    *stream_ << name;
 } // startEntityDecl
 
 // write replacement text as the literal which is read as that text
diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 62a9e63..0aa121d 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -887,7 +887,7 @@ void expat_wrapper<string_type, T0, T1>::attListDeclaration(const XML_Char* elna
 
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::entityDeclaration(const XML_Char* entityName,
-                           int /*is_parameter_entity*/,
+                           int is_parameter_entity,
                            const XML_Char* value,
                            int value_length,
                            const XML_Char* /*base*/,
@@ -906,7 +906,10 @@ void expat_wrapper<string_type, T0, T1>::entityDeclaration(const XML_Char* entit
    provided. The notationName argument will have a non-null value only
    for unparsed entity declarations. */
 
-  const string_type s_entityName(SA::construct_from_utf8(entityName));
+  string_type s_entityName;
+  if(is_parameter_entity)
+    s_entityName = SA::construct_from_utf8("%");
+  SA::append(s_entityName, SA::construct_from_utf8(entityName));
   if(!systemId && !publicId && !notationName)
   {
     // internal entity!
-- 
2.43.0


From 9070f51499d95ccbcf35af0eeeec3244aeb89f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:03 +0000
Subject: [PATCH 027/123] fix: Writer quoted system identifiers containing a
 quotation mark with quotation marks

---
 include/SAX/filter/Writer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 58c8f32..2267eca 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -747,10 +747,11 @@ void Writer<string_type, string_adaptor>::publicAndSystem(const string_type& pub
                << UnicodeT::CAPITAL_T
                << UnicodeT::CAPITAL_E
                << UnicodeT::CAPITAL_M;
+    const charT quote = (systemId.find(UnicodeT::QUOTATION_MARK) == string_type::npos) ? UnicodeT::QUOTATION_MARK : UnicodeT::APOSTROPHE;
     *stream_ << UnicodeT::SPACE
-             << UnicodeT::QUOTATION_MARK
+             << quote
              << systemId
-             << UnicodeT::QUOTATION_MARK;
+             << quote;
   } // if ...
 } // publicAndSystem
 
-- 
2.43.0


From 735e8a4d2d3994e75f4802dc4835426460895256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:16 +0000
Subject: [PATCH 028/123] fix: TextOnly filter did not compile

---
 include/SAX/filter/TextOnly.hpp | 37 +++++++++++++++++----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/include/SAX/filter/TextOnly.hpp b/include/SAX/filter/TextOnly.hpp
index a471466..6c33fc6 100644
--- a/include/SAX/filter/TextOnly.hpp
+++ b/include/SAX/filter/TextOnly.hpp
@@ -20,9 +20,10 @@ class TextOnly : public XMLFilterImpl<string_type, string_adaptor>
 
 public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
+  typedef Attributes<string_type, string_adaptor> AttributesT;
 
   TextOnly() : 
-    XMLFilterT(0)
+    XMLFilterT()
   { 
   } // TextOnly
 
@@ -32,32 +33,32 @@ public:
   } // TextOnly
 
   // ContentHandler
-  virtual void startElement(const stringT& namespaceURI, const stringT& localName,
-                            const stringT& qName, const AttributesT& atts) { }
-  virtual void endElement(const stringT& namespaceURI, const stringT& localName,
-                          const stringT& qName) { }
-  virtual void processingInstruction(const stringT& target, const stringT& data) { }
-  virtual void skippedEntity(const stringT& name) { }
+  virtual void startElement(const string_type& namespaceURI, const string_type& localName,
+                            const string_type& qName, const AttributesT& atts) { }
+  virtual void endElement(const string_type& namespaceURI, const string_type& localName,
+                          const string_type& qName) { }
+  virtual void processingInstruction(const string_type& target, const string_type& data) { }
+  virtual void skippedEntity(const string_type& name) { }
 
   // Lexical Handler
-  virtual void startDTD(const stringT& name, const stringT& publicId, const stringT& systemId) { }
+  virtual void startDTD(const string_type& name, const string_type& publicId, const string_type& systemId) { }
   virtual void endDTD() { }
-  virtual void startEntity(const stringT& name) { }
-  virtual void endEntity(const stringT& name) { }
+  virtual void startEntity(const string_type& name) { }
+  virtual void endEntity(const string_type& name) { }
   virtual void startCDATA() { }
   virtual void endCDATA() { }
-  virtual void comment(const stringT& text) { }
+  virtual void comment(const string_type& text) { }
 
   // DTD Handler
-  virtual void notationDecl(const stringT& name, const stringT& publicId, const stringT& systemId) { }
-  virtual void unparsedEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId, const stringT& notationName) { }
+  virtual void notationDecl(const string_type& name, const string_type& publicId, const string_type& systemId) { }
+  virtual void unparsedEntityDecl(const string_type& name, const string_type& publicId, const string_type& systemId, const string_type& notationName) { }
 
   // Decl Handler
-  virtual void elementDecl(const stringT& name, const stringT& model) { }
-  virtual void attributeDecl(const stringT& elementName, const stringT& attributeName,
-                              const stringT& type, const stringT& valueDefault, const stringT& value) { }
-  virtual void internalEntityDecl(const stringT& name, const stringT& value) { }
-  virtual void externalEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId) { }
+  virtual void elementDecl(const string_type& name, const string_type& model) { }
+  virtual void attributeDecl(const string_type& elementName, const string_type& attributeName,
+                              const string_type& type, const string_type& valueDefault, const string_type& value) { }
+  virtual void internalEntityDecl(const string_type& name, const string_type& value) { }
+  virtual void externalEntityDecl(const string_type& name, const string_type& publicId, const string_type& systemId) { }
 }; // class TextOnly
 
 } // namespace SAX
-- 
2.43.0


From 7a166ca239f2346b805e5680760b1bdc3aa79408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:16 +0000
Subject: [PATCH 029/123] fix: TextOnly filter passed on prefix mappings
 without their elements

---
 include/SAX/filter/TextOnly.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/SAX/filter/TextOnly.hpp b/include/SAX/filter/TextOnly.hpp
index 6c33fc6..17ca12f 100644
--- a/include/SAX/filter/TextOnly.hpp
+++ b/include/SAX/filter/TextOnly.hpp
@@ -33,6 +33,8 @@ public:
   } // TextOnly
 
   // ContentHandler
+  virtual void startPrefixMapping(const string_type& prefix, const string_type& uri) { }
+  virtual void endPrefixMapping(const string_type& prefix) { }
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts) { }
   virtual void endElement(const string_type& namespaceURI, const string_type& localName,
-- 
2.43.0


From d5f6af05f666eec8b716032e48e5b9ce08a95965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:16 +0000
Subject: [PATCH 030/123] fix: PYXWriter wrote backslashes and newlines in
 processing instructions unescaped

---
 include/SAX/filter/PYXWriter.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/SAX/filter/PYXWriter.hpp b/include/SAX/filter/PYXWriter.hpp
index a978f32..7f3b20e 100644
--- a/include/SAX/filter/PYXWriter.hpp
+++ b/include/SAX/filter/PYXWriter.hpp
@@ -93,8 +93,9 @@ template<class string_type, class string_adaptor>
 void PYXWriter<string_type, string_adaptor>::processingInstruction(const string_type& target, const string_type& data)
 {
   *stream_ << UnicodeT::QUESTION_MARK << target
-           << UnicodeT::SPACE << data
-           << std::endl;
+           << UnicodeT::SPACE;
+  escape(data);
+  *stream_ << std::endl;
 
   XMLFilterT::processingInstruction(target, data);
 } // processingInstruction
@@ -105,6 +106,8 @@ void PYXWriter<string_type, string_adaptor>::escape(const string_type& ch)
   for(typename string_adaptor::const_iterator s = string_adaptor::begin(ch), se = string_adaptor::end(ch); s != se; ++s)
     if(*s == UnicodeT::LINE_FEED)
       *stream_ << UnicodeT::BACK_SLASH << UnicodeT::LOWERCASE_N;
+    else if(*s == UnicodeT::BACK_SLASH)
+      *stream_ << UnicodeT::BACK_SLASH << UnicodeT::BACK_SLASH;
     else
       *stream_ << *s;
 } // escape
-- 
2.43.0


From 15df41b581700d274ab6a73b7b6ab95bac8d9b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 031/123] fix: expat wrapper looped forever on a stream which
 fails part way through

---
 include/SAX/wrappers/saxexpat.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 0aa121d..f3f21f2 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -518,6 +518,11 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
     } // if ...
 
     is.resolve()->read(buffer, BUFF_SIZE);
+    if(is.resolve()->bad())
+    {
+      reportError("Could not read XML document", true);
+      return false;
+    } // if ...
     if(XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), is.resolve()->eof()) == 0)
     {
       // error
-- 
2.43.0


From 472d7bc2e03b1f628406dc38261a31b44fea7b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:01 +0000
Subject: [PATCH 032/123] fix: assigning an IStreamHandle or InputSource to
 itself lost the stream and crashed

---
 include/SAX/IStreamHandle.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/SAX/IStreamHandle.hpp b/include/SAX/IStreamHandle.hpp
index ede67a3..c5f13d3 100644
--- a/include/SAX/IStreamHandle.hpp
+++ b/include/SAX/IStreamHandle.hpp
@@ -339,7 +339,10 @@ IStreamHandle::~IStreamHandle()
 inline
 IStreamHandle& IStreamHandle::operator=(const IStreamHandle& rhs)
 {
-    // Add to rhs first to avoid self-assignment bug.
+    if(this == &rhs)
+        return *this;
+
+    // Add to rhs first, it may share with this.
     rhs.addRef();
     removeRef();
     is_ = rhs.is_;
-- 
2.43.0


From 3f085cb51f2b31771adc3eae3e2338f3779a9711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:01 +0000
Subject: [PATCH 033/123] fix: InputSource::setByteStream taking ownership did
 not compile

---
 include/SAX/InputSource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/InputSource.hpp b/include/SAX/InputSource.hpp
index cccc879..6c02a14 100644
--- a/include/SAX/InputSource.hpp
+++ b/include/SAX/InputSource.hpp
@@ -263,7 +263,7 @@ public:
    */
   void setByteStream(std::unique_ptr<std::istream> byteStream)
   {
-    byteStream_ = byteStream;
+    byteStream_ = std::move(byteStream);
   } // setByteStream
 
   /**
-- 
2.43.0


From c39dcdc4779113e86cde84c7bc8042ef99f1fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:31 +0000
Subject: [PATCH 034/123] fix: the separator after #PCDATA was left out of
 mixed content models

---
 include/SAX/wrappers/saxexpat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index f3f21f2..5b033dd 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -839,7 +839,7 @@ struct XML_cp {
 
     for(unsigned int i = 0; i < model->numchildren; ++i)
     {
-      if(i != 0)
+      if(i != 0 || model->type == XML_CTYPE_MIXED)
         os << concatenator;
       convertXML_Content(os, &(model->children[i]), true); 
     } // for ... 
-- 
2.43.0


From 5ed44887a34d5f1661ac9d79508cbfa68f86fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:46 +0000
Subject: [PATCH 035/123] fix: failed DOM insertions changed the tree, or were
 let through and corrupted it

---
 include/DOM/Simple/DocumentImpl.hpp | 37 ++++++++++++++++-------
 include/DOM/Simple/NodeImpl.hpp     | 46 ++++++++++++++++-------------
 2 files changed, 51 insertions(+), 32 deletions(-)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index d83761e..9073c9d 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -394,8 +394,7 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMNode_implT* insertBefore(DOMNode_implT* newChild, DOMNode_implT* refChild)
     {
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) && (documentElement_ != 0))
-        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      checkOneElement(newChild, newChild);
       if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ != 0))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
 
@@ -411,27 +410,27 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMNode_implT* replaceChild(DOMNode_implT* newChild, DOMNode_implT* oldChild)
     {
-      checkChildType(newChild);
-
-      if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ == oldChild))
+      if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ != 0))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
-         (documentElement_ != 0) &&
-         (documentElement_ != oldChild))
+      if((documentType_ != 0) && (documentType_ == oldChild))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      checkOneElement(newChild, oldChild);
 
       DOMNode_implT* result = NodeWithChildrenT::replaceChild(newChild, oldChild);
 
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
-         ((documentElement_ == 0) || (documentElement_ == oldChild)))
+      if(documentElement_ == oldChild)
+        documentElement_ = 0;
+      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) && (documentElement_ == 0))
         documentElement_ = dynamic_cast<DOMElement_implT*>(newChild);
+      if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ == 0))
+        documentType_ = dynamic_cast<DOMDocumentType_implT*>(newChild);
 
       return result;
     } // replaceChild
 
     virtual DOMNode_implT* removeChild(DOMNode_implT* oldChild)
     {
-      if(documentType_ == oldChild)
+      if((documentType_ != 0) && (documentType_ == oldChild))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
       DOMNode_implT* result = NodeWithChildrenT::removeChild(oldChild);
 
@@ -512,6 +511,22 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     const stringT& empty_string() const { return empty_; }
 
   private:
+    // there is at most one element, once newChild is here and goingChild is not
+    void checkOneElement(DOMNode_implT* newChild, DOMNode_implT* goingChild) const
+    {
+      unsigned int elements = 0;
+      if((documentElement_ != 0) && (documentElement_ != goingChild) && (documentElement_ != newChild))
+        ++elements;
+      if(newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+        ++elements;
+      if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
+        for(DOMNode_implT* c = newChild->getFirstChild(); c != 0; c = c->getNextSibling())
+          if(c->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+            ++elements;
+      if(elements > 1)
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+    } // checkOneElement
+
     void checkChildType(DOMNode_implT* child)
     {
       typename DOM::Node_base::Type type = child->getNodeType();
diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index e9a8586..77befb8 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -390,6 +390,10 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
     {
       NodeImplT::throwIfReadOnly();
 
+      if(refChild)
+        findChild(refChild);
+      checkCanAdd(newChild);
+
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
         for(NodeImplT* child = newChild->getFirst(); child != 0; child = newChild->getFirst())
@@ -397,7 +401,9 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
         return newChild;
       } // if ...
 
-      checkCanAdd(newChild);
+      if(newChild == refChild)
+        return newChild;
+
       removeIfRequired(newChild);
       if(refChild)
       {
@@ -431,16 +437,20 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
     {
       NodeImplT::throwIfReadOnly();
 
+      findChild(oldChild);
+      checkCanAdd(newChild);
+
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
-        // not exception safe - but the it's not specified to be :(
-        DOMNode_implT* lc = newChild->getLastChild();
-        replaceChild(newChild->removeChild(lc), oldChild);
-        insertBefore(newChild, lc);
+        DOMNode_implT* next = oldChild->getNextSibling();
+        removeChild(oldChild);
+        insertBefore(newChild, next);
         return oldChild;
       } // if ...
 
-      checkCanAdd(newChild);
+      if(newChild == oldChild)
+        return oldChild;
+
       removeIfRequired(newChild);
       typename std::deque<NodeImplT*>::iterator result = findChild(oldChild);
       *result = newChild;
@@ -517,27 +527,21 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
     void checkCanAdd(NodeImplT* child)
     {
       DocumentImplT* childDoc = child->getOwnerDoc();
-      if(childDoc == 0)
-      {
-        child->setOwnerDoc(NodeImplT::getOwnerDoc());
-        return;
-      } //
-
-      if(child->getNodeType() == DOM::Node_base::DOCUMENT_NODE)
-      {
-        if(childDoc != dynamic_cast<DocumentImplT*>(this))
-          throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
-        return;
-      } // if(parent is a Document)
-
-      if(NodeImplT::getOwnerDocument() && childDoc != NodeImplT::getOwnerDocument())
+      if(childDoc != 0 && NodeImplT::getOwnerDoc() != 0 && childDoc != NodeImplT::getOwnerDoc())
         throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
 
       for(DOMNode_implT* n = this; n != 0; n = n->getParentNode())
 	if(n == child)
 	  throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
 
-      checkChildType(child);
+      if(child->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
+        for(NodeImplT* n = child->getFirst(); n != 0; n = n->getNext())
+          checkCanAdd(n);
+      else
+        checkChildType(child);
+
+      if(childDoc == 0)
+        child->setOwnerDoc(NodeImplT::getOwnerDoc());
     } // checkCanAdd
 
     virtual void checkChildType(DOMNode_implT* child) = 0;
-- 
2.43.0


From 5c5d45ade43b53ebb01f030134b72e8571b56fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:09 +0000
Subject: [PATCH 036/123] fix: setAttribute replaced an existing attribute
 instead of changing its value

---
 include/DOM/Simple/AttrMap.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 0462926..d24f11b 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -70,6 +70,13 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void setAttribute(const stringT& name, const stringT& value)    
     {
+      NamedNodeMapImplT::throwIfReadOnly();
+      DOMNode_implT* existing = NamedNodeMapImplT::getNamedItem(name);
+      if(existing)
+      {
+        existing->setNodeValue(value);
+        return;
+      } // if ...
       AttrImplT* a = new AttrImplT(NamedNodeMapImplT::ownerDoc_, name, value);
       a->setOwnerElement(ownerElement_);
       NamedNodeMapImplT::setNamedItem(a);
@@ -106,10 +113,21 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void setAttributeNS(const stringT& namespaceURI, const stringT& qualifiedName, const stringT& value)    
     {
+      NamedNodeMapImplT::throwIfReadOnly();
       AttrNSImplT* a = new AttrNSImplT(NamedNodeMapImplT::ownerDoc_, 
                                        namespaceURI, 
                                        !string_adaptorT::empty(namespaceURI), 
                                        qualifiedName);
+      DOMNode_implT* existing = NamedNodeMapImplT::getNamedItemNS(namespaceURI, a->getLocalName());
+      if(existing)
+      {
+        const stringT prefix = a->getPrefix();
+        delete a;
+        if(existing->hasNamespaceURI())
+          existing->setPrefix(prefix);
+        existing->setNodeValue(value);
+        return;
+      } // if ...
       a->setValue(value);
       a->setOwnerElement(ownerElement_);
       NamedNodeMapImplT::setNamedItemNS(a);
-- 
2.43.0


From 1d5bfa9e12ce3752be87800b1209148d2e4ec34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:09 +0000
Subject: [PATCH 037/123] fix: setNamedItemNS let a node without a local name
 replace any other

---
 include/DOM/Simple/NamedNodeMapImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index 6d60dc7..17d0987 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -138,7 +138,9 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
     {
       throwIfReadOnly();
       checkOwnerDocument(arg);
-      return setNode(findByNamespaceAndName(arg->getNamespaceURI(), arg->getLocalName()), dynamic_cast<NodeImplT*>(arg));
+      // nodes made without a namespace have no local name
+      const stringT& name = string_adaptorT::empty(arg->getLocalName()) ? arg->getNodeName() : arg->getLocalName();
+      return setNode(findByNamespaceAndName(arg->getNamespaceURI(), name), dynamic_cast<NodeImplT*>(arg));
     } // setNamedItemNS
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
-- 
2.43.0


From dfbad77afbc0880d7e5f392cadae8d9812a7e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:09 +0000
Subject: [PATCH 038/123] fix: refused attributes became owned, and attributes
 removed or replaced stayed owned

---
 include/DOM/Simple/AttrImpl.hpp         |  7 ++++
 include/DOM/Simple/AttrMap.hpp          | 45 ++++++++++++++++++-------
 include/DOM/Simple/DocumentImpl.hpp     | 11 ++++++
 include/DOM/Simple/NamedNodeMapImpl.hpp | 12 +++++--
 4 files changed, 60 insertions(+), 15 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index f032206..37a4b6c 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -160,6 +160,13 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
       } // if(ownerDoc_)
     } // setOwnerElement
 
+    void clearOwnerElement()
+    {
+      ownerElement_ = 0;
+      if(NodeT::ownerDoc_)
+        NodeT::ownerDoc_->removeElementId(this);
+    } // clearOwnerElement
+
     void setSpecified(bool specified) { specified_ = specified; }
 
     bool isOrphaned()
diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index d24f11b..02b0e43 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -37,25 +37,23 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     /////////////////////////////////////////////////////
     virtual DOMNode_implT* setNamedItem(DOMNode_implT* newAttr)
     {
-      AttrImplT* attr = dynamic_cast<AttrImplT*>(newAttr);
+      AttrImplT* attr = checkAttr(newAttr);
       if(alreadyHere(attr))
         return attr;
-      NamedNodeMapImplT::throwIfReadOnly();
       checkNotInUse(attr);
-      attr->setOwnerElement(ownerElement_);
-      return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItem(attr));
+      return setOwned(attr, NamedNodeMapImplT::setNamedItem(attr));
     } // setNamedItem
 
     virtual DOMNode_implT* removeNamedItem(const stringT& name)
     {
-      DOMNode_implT* n = NamedNodeMapImplT::removeNamedItem(name);
+      DOMNode_implT* n = disown(NamedNodeMapImplT::removeNamedItem(name));
       createDefault(name);
       return n;
     } // removeNamedItem
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
     {
-      DOMNode_implT* n = NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName);
+      DOMNode_implT* n = disown(NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName));
       createDefault(namespaceURI, localName);
       return n;
     } // removedNamedItemNS   
@@ -99,9 +97,9 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     DOMAttr_implT* removeAttributeNode(DOMAttr_implT* oldAttr)    
     {
-      if(oldAttr->getOwnerElement() != ownerElement_)
-        throw DOM::DOMException(DOM::DOMException::NOT_FOUND_ERR);
-      removeNamedItem(oldAttr->getNodeName());
+      NamedNodeMapImplT::throwIfReadOnly();
+      disown(NamedNodeMapImplT::removeItem(oldAttr));
+      createDefault(oldAttr->getNodeName());
       return oldAttr;
     } // removeAttributeNode
 
@@ -150,13 +148,11 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     virtual DOMNode_implT* setNamedItemNS(DOMNode_implT* newAttr)
     {
-      AttrImplT* attr = dynamic_cast<AttrImplT*>(newAttr);
+      AttrImplT* attr = checkAttr(newAttr);
       if(alreadyHere(attr))
         return attr;
-      NamedNodeMapImplT::throwIfReadOnly();
       checkNotInUse(attr);
-      attr->setOwnerElement(ownerElement_);
-      return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItemNS(newAttr));
+      return setOwned(attr, NamedNodeMapImplT::setNamedItemNS(attr));
     } // setNamedItem
 
     bool hasAttribute(const stringT& name) const    
@@ -233,6 +229,29 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       return 0;
     } // getDefaultAttrs
 
+    AttrImplT* checkAttr(DOMNode_implT* node) const
+    {
+      AttrImplT* attr = dynamic_cast<AttrImplT*>(node);
+      if(!attr)
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      return attr;
+    } // checkAttr
+
+    DOMAttr_implT* setOwned(AttrImplT* attr, DOMNode_implT* replaced)
+    {
+      DOMAttr_implT* oldAttr = disown(replaced);
+      attr->setOwnerElement(ownerElement_);
+      return oldAttr;
+    } // setOwned
+
+    DOMAttr_implT* disown(DOMNode_implT* node)
+    {
+      AttrImplT* attr = dynamic_cast<AttrImplT*>(node);
+      if(attr)
+        attr->clearOwnerElement();
+      return attr;
+    } // disown
+
     bool alreadyHere(AttrImplT* attr)
     {
       return ((!attr->isOrphaned()) && (attr->getOwnerElement() == ownerElement_));
diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index 9073c9d..b5dea0e 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -481,6 +481,17 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     void purge(NodeImplT* node)
     {
       orphans_.erase(node);
+      typename std::set<AttrImplT*>::iterator i = idNodes_.begin();
+      while(i != idNodes_.end())
+      {
+        DOMNode_implT* n = (*i)->getOwnerElement();
+        while((n != 0) && (n != node))
+          n = n->getParentNode();
+        if(n != 0)
+          idNodes_.erase(i++);
+        else
+          ++i;
+      } // while ...
       delete node;
     } // purge
 
diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index 17d0987..a7c43a8 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -165,12 +165,22 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
     } // item
 
   protected:
+    typedef std::deque<NodeImplT*> NodeListT;
+
     void throwIfReadOnly() const
     {
       if(readOnly_)
         throw DOM::DOMException(DOM::DOMException::NO_MODIFICATION_ALLOWED_ERR);
     } // throwIfReadOnly
 
+    NodeImplT* removeItem(const DOMNode_implT* arg)
+    {
+      typename NodeListT::iterator n = nodes_.begin();
+      while((n != nodes_.end()) && (*n != arg))
+        ++n;
+      return removeNode(n);
+    } // removeItem
+
     void checkOwnerDocument(const DOMNode_implT* arg)
     { 
       if(!ownerDoc_)
@@ -180,8 +190,6 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
     } // checkOwnerDocument
 
   private:
-    typedef std::deque<NodeImplT*> NodeListT;
-
     NodeImplT* getNode(typename NodeListT::const_iterator n) const
     {
       if(n == nodes_.end())
-- 
2.43.0


From c674b89a3656cb751b7fe95365d5fb7dfa7efdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:09 +0000
Subject: [PATCH 039/123] fix: an attribute value went stale when its text node
 changed

---
 include/DOM/Simple/AttrImpl.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index 37a4b6c..e68e9b3 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -120,11 +120,8 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
 
     virtual const stringT& getNodeValue() const
     {
-      if(!valueCalculated_)
-      {
-        value_ = concatNodes(NodeT::getFirstChild());
-        valueCalculated_ = true;
-      }
+      // children can change without us knowing
+      value_ = concatNodes(NodeT::getFirstChild());
       return value_;
     } // getNodeValue
 
-- 
2.43.0


From df94705f89b708292941529009ecd179b33ce60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:44 +0000
Subject: [PATCH 040/123] fix: prefixed attributes with a default in the DTD
 appeared twice, and did not come back when removed

---
 include/DOM/Simple/AttrMap.hpp | 63 +++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 02b0e43..8354f8f 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -47,14 +47,14 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     virtual DOMNode_implT* removeNamedItem(const stringT& name)
     {
       DOMNode_implT* n = disown(NamedNodeMapImplT::removeNamedItem(name));
-      createDefault(name);
+      createDefault(n);
       return n;
     } // removeNamedItem
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
     {
       DOMNode_implT* n = disown(NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName));
-      createDefault(namespaceURI, localName);
+      createDefault(n);
       return n;
     } // removedNamedItemNS   
       
@@ -99,7 +99,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     {
       NamedNodeMapImplT::throwIfReadOnly();
       disown(NamedNodeMapImplT::removeItem(oldAttr));
-      createDefault(oldAttr->getNodeName());
+      createDefault(oldAttr);
       return oldAttr;
     } // removeAttributeNode
 
@@ -126,6 +126,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
         existing->setNodeValue(value);
         return;
       } // if ...
+      dropDefault(qualifiedName);
       a->setValue(value);
       a->setOwnerElement(ownerElement_);
       NamedNodeMapImplT::setNamedItemNS(a);
@@ -152,7 +153,10 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       if(alreadyHere(attr))
         return attr;
       checkNotInUse(attr);
-      return setOwned(attr, NamedNodeMapImplT::setNamedItemNS(attr));
+      DOMAttr_implT* oldAttr = setOwned(attr, NamedNodeMapImplT::setNamedItemNS(attr));
+      if(!string_adaptorT::empty(attr->getLocalName()))
+        dropDefault(attr->getNodeName());
+      return oldAttr;
     } // setNamedItem
 
     bool hasAttribute(const stringT& name) const    
@@ -178,26 +182,25 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     } // setOwnerDoc
 
   private:
-    void createDefault(const stringT& name) 
+    // the default takes the name, and the namespace, of the attribute it stands in for
+    void createDefault(const DOMNode_implT* removed)
     {
       DOMNamedNodeMap_implT* attrs = getDefaultAttrs();
-      if(attrs)
-      {
-        DOMNode_implT* attr = attrs->getNamedItem(name);
-        if(attr)
-          setAttributeNode(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
-      }
-    } // createDefault
-
-    void createDefault(const stringT& namespaceURI, const stringT& localName) 
-    {
-      DOMNamedNodeMap_implT* attrs = getDefaultAttrs();
-      if(attrs)
+      DOMNode_implT* attr = attrs ? attrs->getNamedItem(removed->getNodeName()) : 0;
+      if(!attr || getAttributeNode(removed->getNodeName()))
+        return;
+      if(string_adaptorT::empty(removed->getLocalName()))
       {
-        DOMNode_implT* attr = attrs->getNamedItemNS(namespaceURI, localName);
-        if(attr)
-          setAttributeNodeNS(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
-      } 
+        setAttributeNode(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
+        return;
+      } // if ...
+      AttrNSImplT* a = new AttrNSImplT(NamedNodeMapImplT::ownerDoc_,
+                                       removed->getNamespaceURI(),
+                                       removed->hasNamespaceURI(),
+                                       removed->getNodeName());
+      a->setValue(attr->getNodeValue());
+      a->setSpecified(false);
+      setAttributeNodeNS(a);
     } // createDefault
 
     void getDefaults()
@@ -208,8 +211,8 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
         for(unsigned int i = 0; i < attrs->getLength(); ++i)
         {
           DOMNode_implT* attr = attrs->item(i);
-          if(getAttributeNodeNS(attr->getNamespaceURI(), attr->getNodeName()) == 0)
-            setAttributeNodeNS(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
+          if(getAttributeNode(attr->getNodeName()) == 0)
+            setAttributeNode(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
         }
       } 
     } // getDefaults
@@ -229,6 +232,20 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       return 0;
     } // getDefaultAttrs
 
+    // defaults come from the DTD, which knows nothing of namespaces
+    void dropDefault(const stringT& name)
+    {
+      for(unsigned int i = 0; i < NamedNodeMapImplT::getLength(); ++i)
+      {
+        AttrImplT* attr = dynamic_cast<AttrImplT*>(NamedNodeMapImplT::do_item(i));
+        if(!attr->getSpecified() && string_adaptorT::empty(attr->getLocalName()) && (attr->getNodeName() == name))
+        {
+          disown(NamedNodeMapImplT::removeItem(attr));
+          return;
+        } // if ...
+      } // for ...
+    } // dropDefault
+
     AttrImplT* checkAttr(DOMNode_implT* node) const
     {
       AttrImplT* attr = dynamic_cast<AttrImplT*>(node);
-- 
2.43.0


From 7c9a135c8c360b6911ff1a85694db9d1780c17d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:13 +0000
Subject: [PATCH 041/123] fix: copying an element lost one of two attributes
 with the same name

---
 include/DOM/Simple/DocumentImpl.hpp | 5 +----
 include/DOM/Simple/ElementImpl.hpp  | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index b5dea0e..fc16c86 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -272,10 +272,7 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
                 if(a->getSpecified())
                 {
                   DOMAttr_implT* newA = dynamic_cast<DOMAttr_implT*>(importNode(a, true));
-                  if(string_adaptorT::empty(a->getLocalName()))
-                    elem->setAttributeNode(newA);
-                  else
-                    elem->setAttributeNodeNS(newA);
+                  elem->setAttributeNodeNS(newA);
                 } // if ...
               } // for
             newNode = elem;
diff --git a/include/DOM/Simple/ElementImpl.hpp b/include/DOM/Simple/ElementImpl.hpp
index ca6bf40..4100372 100644
--- a/include/DOM/Simple/ElementImpl.hpp
+++ b/include/DOM/Simple/ElementImpl.hpp
@@ -178,10 +178,7 @@ class ElementImpl : public DOM::Element_impl<stringT, string_adaptorT>,
         if(a->getSpecified())
         {
           DOMAttr_implT* newA = dynamic_cast<DOMAttr_implT*>(a->cloneNode(true));
-          if(string_adaptorT::empty(a->getLocalName()))
-            clone->setAttributeNode(newA);
-          else
-            clone->setAttributeNodeNS(newA);
+          clone->setAttributeNodeNS(newA);
         } // if ...
       } // for
 
-- 
2.43.0


From 2f1ed3fa1658ed7e42015d4aba20108e50cb0bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:25 +0000
Subject: [PATCH 042/123] fix: splitText leaked the new node, and crashed on a
 CDATA section, when there was no parent

---
 include/DOM/Simple/CDATASectionImpl.hpp | 6 ++++--
 include/DOM/Simple/TextImpl.hpp         | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/DOM/Simple/CDATASectionImpl.hpp b/include/DOM/Simple/CDATASectionImpl.hpp
index 2dbdda5..59668ec 100644
--- a/include/DOM/Simple/CDATASectionImpl.hpp
+++ b/include/DOM/Simple/CDATASectionImpl.hpp
@@ -34,8 +34,10 @@ class CDATASectionImpl : public DOM::CDATASection_impl<stringT, string_adaptorT>
       stringT second = CharacterDataImplT::substringData(offset, CharacterDataImplT::getLength() - offset);
       CharacterDataImplT::deleteData(offset, CharacterDataImplT::getLength() - offset);
 
-      CDATASectionImpl* splitNode = new CDATASectionImpl(CharacterDataImplT::getOwnerDoc(), second);
-      CharacterDataImplT::getParentNode()->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
+      DOMText_implT* splitNode = CharacterDataImplT::ownerDoc_->createCDATASection(second);
+      DOMNode_implT* parent = CharacterDataImplT::getParentNode();
+      if(parent)
+        parent->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
       return splitNode;
     } // splitText
 
diff --git a/include/DOM/Simple/TextImpl.hpp b/include/DOM/Simple/TextImpl.hpp
index b0f95f7..ae1a4ae 100644
--- a/include/DOM/Simple/TextImpl.hpp
+++ b/include/DOM/Simple/TextImpl.hpp
@@ -35,7 +35,7 @@ class TextImpl : public DOM::Text_impl<stringT, string_adaptorT>,
       stringT second = CharacterDataT::substringData(offset, CharacterDataT::getLength() - offset);
       CharacterDataT::deleteData(offset, CharacterDataT::getLength() - offset);
 
-      TextImpl* splitNode = new TextImpl(CharacterDataT::getOwnerDoc(), second);
+      DOMText_implT* splitNode = CharacterDataT::ownerDoc_->createTextNode(second);
       DOMNode_implT *parent = CharacterDataT::getParentNode();
       if(parent)
         parent->insertBefore(splitNode, CharacterDataT::getNextSibling());
-- 
2.43.0


From 24a344fd5145976998775b2fd4173bf1e9af99e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:25 +0000
Subject: [PATCH 043/123] fix: element lists missed elements, or ran off the
 end, after the document changed

---
 include/DOM/Simple/ElementByTagImpl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/DOM/Simple/ElementByTagImpl.hpp b/include/DOM/Simple/ElementByTagImpl.hpp
index 2607619..923d75a 100644
--- a/include/DOM/Simple/ElementByTagImpl.hpp
+++ b/include/DOM/Simple/ElementByTagImpl.hpp
@@ -74,12 +74,12 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     // DOM::NodeList methods
     virtual DOM::Node_impl<stringT, string_adaptorT>* item(unsigned int index) const
     {
-      if(index >= nodes_.size())
-        return 0;
-
       if(changes_ != ownerDoc_->changes())
         populate();
 
+      if(index >= nodes_.size())
+        return 0;
+
       return nodes_[index];
     } // item
 
@@ -106,7 +106,7 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     {
       if(useNamespace_)
       {
-        if((node->hasNamespaceURI() && namespaceURI_ == node->getNamespaceURI()) || allNamespaces_)
+        if((namespaceURI_ == node->getNamespaceURI()) || allNamespaces_)
         {
           if((tagName_ == node->getLocalName()) || (allNames_ && node->getNodeType() == DOM::Node<stringT, string_adaptorT>::ELEMENT_NODE))
             nodes_.push_back(node);
-- 
2.43.0


From e4494f326e89468a4ab88e285a28105ed7bb208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:25 +0000
Subject: [PATCH 044/123] fix: assigning a DOM proxy to itself could destroy
 the document

---
 include/DOM/Proxy.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/DOM/Proxy.hpp b/include/DOM/Proxy.hpp
index 7ed415c..e5b7d1a 100644
--- a/include/DOM/Proxy.hpp
+++ b/include/DOM/Proxy.hpp
@@ -53,16 +53,12 @@ class Proxy
   private:
     void setImpl(ImplementationT* const impl)
     {
-      if(impl_)
-      {
-        impl_->releaseRef();
-        impl_ = 0;
-      }
       if(impl)
-      {
-        impl_ = impl;
-        impl_->addRef();
-      } // if(impl)
+        impl->addRef(); // first, in case they are one and the same
+      ImplementationT* const old = impl_;
+      impl_ = impl;
+      if(old)
+        old->releaseRef();
     } // setImpl
 
     // the thing that actually does the work!
-- 
2.43.0


From 07b58ef52c07e42ec84f9d18755172eefc13c8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:30 +0000
Subject: [PATCH 045/123] fix: element lists kept elements under names
 setPrefix had changed

---
 include/DOM/Simple/ElementNSImpl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/DOM/Simple/ElementNSImpl.hpp b/include/DOM/Simple/ElementNSImpl.hpp
index 9bc88ff..79db76f 100644
--- a/include/DOM/Simple/ElementNSImpl.hpp
+++ b/include/DOM/Simple/ElementNSImpl.hpp
@@ -76,6 +76,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
 
       if(string_adaptorT::empty(prefix)) 
       {
+        ElementImplT::ownerDoc_->markChanged();
         ElementImplT::tagName_ = localName_;
         prefix_ = &ElementImplT::ownerDoc_->empty_string();
         return;
@@ -87,6 +88,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
       string_adaptorT::append(newTagName, string_adaptorT::construct_from_utf8(":"));
       string_adaptorT::append(newTagName, *localName_);
 
+      ElementImplT::ownerDoc_->markChanged();
       prefix_ = ElementImplT::ownerDoc_->stringPool(prefix);
       ElementImplT::tagName_ = ElementImplT::ownerDoc_->stringPool(newTagName);
     } // setPrefix
-- 
2.43.0


From a963919bec2121e6585e9eb8f4c5bfec91e3982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 046/123] fix: XPath mod divided by zero and ignored fractions

---
 include/XPath/impl/xpath_arithmetic.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_arithmetic.hpp b/include/XPath/impl/xpath_arithmetic.hpp
index 3d4d0f3..c16fa94 100644
--- a/include/XPath/impl/xpath_arithmetic.hpp
+++ b/include/XPath/impl/xpath_arithmetic.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XPATHIC_XPATH_ARITHMETIC_HPP
 
 #include <functional>
+#include <cmath>
 #include "xpath_value.hpp"
 #include "xpath_expression_impl.hpp"
 
@@ -65,10 +66,10 @@ public:
 struct NaN_aware_modulus
 {	
   double operator()(const double& lhs, const double& rhs) const
-	{	// apply operator% to operands 
+	{	// remainder of a truncating division, with the sign of lhs
     if(isNaN(lhs) || isNaN(rhs)) 
       return NaN; 
-    return (static_cast<long>(lhs) % static_cast<long>(rhs)); 
+    return std::fmod(lhs, rhs); 
 	}
 }; // NaN_aware_modulus
 
-- 
2.43.0


From 19a7b3443a53e10799a68d958039a42b74b3711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 047/123] fix: XPath round was wrong for -0.5, just below 0.5
 and large odd numbers

---
 include/XPath/impl/xpath_object.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 7727a0b..c33436a 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -408,10 +408,14 @@ inline double roundNumber(double value)
 { 
   if(!(isNaN(value) || isInfinite(value) || (std::fabs(value) == 0)))
   {
-    if((value < 0.0) && (value > -0.5))
+    if((value < 0.0) && (value >= -0.5))
       value = -0.0;
     else
-      value = std::floor(value + 0.5);
+    {
+      // value + 0.5 might itself be rounded
+      double whole = std::floor(value);
+      value = (value - whole < 0.5) ? whole : whole + 1.0;
+    } // if ...
   } // if ...
   return value;
 } // roundNumber
-- 
2.43.0


From a501a44b4aa83aee25363fdded36b334ca9b0ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:01 +0000
Subject: [PATCH 048/123] fix: strings with exponents, inf and nan became
 numbers in XPath, and very large numbers did not

---
 include/XPath/impl/xpath_object.hpp | 45 +++++++++++++++++++++--------
 include/XPath/impl/xpath_parser.hpp |  2 +-
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index c33436a..79713e8 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -3,6 +3,9 @@
 
 #include <string>
 #include <vector>
+#include <sstream>
+#include <locale>
+#include <limits>
 #include <utility>
 #include <DOM/Node.hpp>
 #include <DOM/Attr.hpp>
@@ -420,22 +423,40 @@ inline double roundNumber(double value)
   return value;
 } // roundNumber
 
+// an optional minus sign, then digits with at most one decimal point among them
+// - no plus sign, exponent, infinity or not-a-number, counter intuitive as that is
+inline bool isXPathNumber(const std::string& str)
+{
+  std::string::const_iterator i = str.begin(), e = str.end();
+  bool digits = false;
+  bool point = false;
+
+  if((i != e) && (*i == '-'))
+    ++i;
+  for(; i != e; ++i)
+    if((*i >= '0') && (*i <= '9'))
+      digits = true;
+    else if((*i == '.') && !point)
+      point = true;
+    else
+      return false;
+
+  return digits;
+} // isXPathNumber
+
 template<class string_type, class string_adaptor>
 double stringAsNumber(const string_type& str)
 {
-  try {
-    static string_type PLUS = string_adaptor::construct_from_utf8("+");
-
-    string_type n_str = Arabica::text::normalize_whitespace<string_type, string_adaptor>(str);
-    // '+1.5' is not a number according to XPath spec, counter intuitive as that is
-    if(string_adaptor::find(n_str, PLUS) == 0)
-      return NaN;
-    
-    return boost::lexical_cast<double>(n_str);
-  } // try
-  catch(const boost::bad_lexical_cast&) {
+  std::string n_str = string_adaptor().asStdString(Arabica::text::normalize_whitespace<string_type, string_adaptor>(str));
+  if(!isXPathNumber(n_str))
     return NaN;
-  } // catch
+
+  std::istringstream is(n_str);
+  is.imbue(std::locale::classic());
+  double value = 0;
+  if(!(is >> value))  // too big
+    return (n_str[0] == '-') ? Negative_Infinity : Infinity;
+  return value;
 } // stringAsNumber
 
 template<class string_type, class string_adaptor>
diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index 45e3319..296a370 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -690,7 +690,7 @@ template<class string_type, class string_adaptor>
 XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_adaptor>::createNumber(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& /* ie */, impl::CompilationContext<string_type, string_adaptor>& /* context */)
 {
   string_type str = string_adaptor::construct(i->value.begin(), i->value.end());
-  return new NumericValue<string_type, string_adaptor>(boost::lexical_cast<double>(str));
+  return new NumericValue<string_type, string_adaptor>(impl::stringAsNumber<string_type, string_adaptor>(str));
 } // createNumber
 
 template<class string_type, class string_adaptor>
-- 
2.43.0


From 91d2ed40f7784a09a4bda49a021a4f12d3cee385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:02 +0000
Subject: [PATCH 049/123] fix: numbers became strings with exponents, surplus
 digits or a negative zero in XPath

---
 include/XPath/impl/xpath_object.hpp | 53 +++++++++++++++++++++++++++++
 include/XPath/impl/xpath_value.hpp  |  8 +----
 2 files changed, 54 insertions(+), 7 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 79713e8..dfba5e8 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -15,6 +15,8 @@
 #include <math>
 #endif
 #include <cmath>
+#include <cstdlib>
+#include <algorithm>
 #include <Arabica/StringAdaptor.hpp>
 #include <text/normalize_whitespace.hpp>
 #include "xpath_axis_enumerator.hpp"
@@ -423,6 +425,57 @@ inline double roundNumber(double value)
   return value;
 } // roundNumber
 
+// decimal digits, never an exponent, and as many as it takes to tell value from its neighbours
+inline std::string numberAsString(double value)
+{
+  if(isNaN(value))
+    return "NaN";
+  if(isInfinity(value))
+    return "Infinity";
+  if(isNegativeInfinity(value))
+    return "-Infinity";
+  if((std::fabs(value) < 1e15) && (std::floor(value) == value))
+  {
+    std::ostringstream os;
+    os.imbue(std::locale::classic());
+    os << static_cast<long long>(value);
+    return os.str();
+  } // if ...
+
+  std::string digits;
+  for(int precision = 0; precision != std::numeric_limits<double>::max_digits10; ++precision)
+  {
+    std::ostringstream os;
+    os.imbue(std::locale::classic());
+    os.setf(std::ios_base::scientific, std::ios_base::floatfield);
+    os.precision(precision);
+    os << std::fabs(value);
+    digits = os.str();
+
+    std::istringstream is(digits);
+    is.imbue(std::locale::classic());
+    double v = 0;
+    if((is >> v) && (v == std::fabs(value)))
+      break;
+  } // for ...
+
+  // digits is d.ddde[+-]dd
+  std::string::size_type e = digits.find('e');
+  int exponent = std::atoi(digits.c_str() + e + 1);
+  digits.erase(e);
+  digits.erase(std::remove(digits.begin(), digits.end(), '.'), digits.end());
+
+  int point = exponent + 1;
+  if(point <= 0)
+    digits = "0." + std::string(-point, '0') + digits;
+  else if(static_cast<std::string::size_type>(point) >= digits.length())
+    digits.append(point - digits.length(), '0');
+  else
+    digits.insert(point, 1, '.');
+
+  return (value < 0) ? "-" + digits : digits;
+} // numberAsString
+
 // an optional minus sign, then digits with at most one decimal point among them
 // - no plus sign, exponent, infinity or not-a-number, counter intuitive as that is
 inline bool isXPathNumber(const std::string& str)
diff --git a/include/XPath/impl/xpath_value.hpp b/include/XPath/impl/xpath_value.hpp
index 27eff4f..10b8205 100644
--- a/include/XPath/impl/xpath_value.hpp
+++ b/include/XPath/impl/xpath_value.hpp
@@ -106,13 +106,7 @@ public:
   virtual double asNumber() const { return value_; }
   virtual string_type asString() const
   {
-    if(isNaN(value_)) 
-      return string_adaptor::construct_from_utf8("NaN");
-    if(isInfinity(value_))
-      return string_adaptor::construct_from_utf8("Infinity");
-    if(isNegativeInfinity(value_))
-      return string_adaptor::construct_from_utf8("-Infinity");
-    return string_adaptor::construct_from_utf8(boost::lexical_cast<std::string>(value_).c_str());
+    return string_adaptor::construct_from_utf8(impl::numberAsString(value_).c_str());
   } // asString
   virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const { static NodeSet<string_type, string_adaptor> empty; return empty; }
 
-- 
2.43.0


From c812699f1f8ea1f3dc1ac90efd7f584e6841c11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:50 +0000
Subject: [PATCH 050/123] fix: XPath substring threw when it started past the
 end, and lost the string when it started at -Infinity

---
 include/XPath/impl/xpath_function.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/XPath/impl/xpath_function.hpp b/include/XPath/impl/xpath_function.hpp
index 7c261d9..a501c76 100644
--- a/include/XPath/impl/xpath_function.hpp
+++ b/include/XPath/impl/xpath_function.hpp
@@ -468,21 +468,20 @@ protected:
                                  const ExecutionContext<string_type, string_adaptor>& executionContext) const
   {
     string_type value = baseT::argAsString(0, context, executionContext);
-    if(string_adaptor::empty(value))
-      return string_adaptor::empty_string();
+    double pastEnd = static_cast<double>(string_adaptor::length(value)) + 1;
 
-    double startAt = roundNumber(baseT::argAsNumber(1, context, executionContext)) - 1;
-    double endAt = roundNumber((baseT::argCount() == 3 ? baseT::argAsNumber(2, context, executionContext) : Infinity)) + startAt;
+    // the characters at startAt <= position < endAt, either of which can be infinite or not a number
+    double startAt = roundNumber(baseT::argAsNumber(1, context, executionContext));
+    double endAt = (baseT::argCount() == 3) ? startAt + roundNumber(baseT::argAsNumber(2, context, executionContext)) : Infinity;
 
-    if((endAt < 0) || (endAt < startAt) || (isNaN(endAt)))
+    if(startAt < 1)
+      startAt = 1;
+    if(endAt > pastEnd)
+      endAt = pastEnd;
+    if(!(startAt < endAt))
       return string_adaptor::empty_string();
 
-    if(startAt < 0)
-      startAt = 0;
-    if((isInfinite(endAt)) || (endAt > string_adaptor::length(value)))
-      endAt = static_cast<double>(string_adaptor::length(value));
-
-    return string_adaptor::substr(value, static_cast<int>(startAt), static_cast<int>(endAt - startAt));
+    return string_adaptor::substr(value, static_cast<size_t>(startAt - 1), static_cast<size_t>(endAt - startAt));
   } // evaluate
 }; // SubstringFn
 
-- 
2.43.0


From 4b919ab3b4f01054e7f9e6638e902235b1c2143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 051/123] fix: XPath < and > read past the end of an empty
 node-set

---
 include/XPath/impl/xpath_object.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index dfba5e8..94ac0aa 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -744,6 +744,8 @@ double maxValue(const NodeSet<string_type, string_adaptor>& ns)
 template<class Op, class string_type, class string_adaptor>
 bool compareNodeSets(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
+  if(lhs.asNodeSet().empty() || rhs.asNodeSet().empty())
+    return false;
   return Op()(minValue<string_type, string_adaptor>(lhs.asNodeSet()), maxValue<string_type, string_adaptor>(rhs.asNodeSet()));
 } // compareNodeSets
 
-- 
2.43.0


From 43100646c30cf5be086f8860d79e179ac47272e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 052/123] fix: XPath < and > compared each node of a node-set
 with a boolean, instead of whether there are any

---
 include/XPath/impl/xpath_object.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 94ac0aa..741c823 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -752,6 +752,9 @@ bool compareNodeSets(const XPathValue<string_type, string_adaptor>& lhs, const X
 template<class Op, class string_type, class string_adaptor>
 bool compareNodeSetWith(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
+  if(rhs.type() == BOOL)
+    return Op()(lhs.asBool() ? 1.0 : 0.0, rhs.asNumber());
+
   const NodeSet<string_type, string_adaptor>& lns = lhs.asNodeSet();
   return std::find_if(lns.begin(), 
                       lns.end(), 
-- 
2.43.0


From 0087aeaac5af0f944ec9b5b49dbf9a0948c94a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:14 +0000
Subject: [PATCH 053/123] fix: XPath translate did not close the gap after a
 character it removed

---
 include/XPath/impl/xpath_function.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_function.hpp b/include/XPath/impl/xpath_function.hpp
index a501c76..e04cecd 100644
--- a/include/XPath/impl/xpath_function.hpp
+++ b/include/XPath/impl/xpath_function.hpp
@@ -542,7 +542,7 @@ protected:
     {
       size_t r = string_adaptor::find(from, *i);
       if(r == string_adaptor::npos())
-        ++p;
+        *p++ = *i;
       else if(r < string_adaptor::length(to))
         *p++ = *(string_adaptor::begin(to) + r);
     } // for ...
-- 
2.43.0


From 44c54bbbe88654e3f747572b4e75e0272c053e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:12 +0000
Subject: [PATCH 054/123] fix: XPath axes gave attributes children, took in the
 document type, repeated adjacent text and crashed outside a document

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 105 ++++++++++++-------
 1 file changed, 67 insertions(+), 38 deletions(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index a654f47..6fc3c79 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -133,10 +133,7 @@ protected:
   static RawNodeT walkDown(const RawNodeT context, 
                            const RawNodeT origin)
   {
-    if(context->getNodeType() == DOM::Node_base::ATTRIBUTE_NODE)
-      return 0;
-
-    RawNodeT next = context->getFirstChild();
+    RawNodeT next = findFirstChild(context);
     if((next == 0) && (context == origin)) // node with no children
       return 0;
 
@@ -147,23 +144,49 @@ protected:
     if(next != 0)
       return next;
             
+    return nextAfterAncestors(context, origin);
+  } // walkDown
+
+  // what comes after the nearest ancestor, inside origin, which has anything after it
+  static RawNodeT nextAfterAncestors(const RawNodeT context,
+                                     const RawNodeT origin)
+  {
+    RawNodeT next = 0;
     RawNodeT parent = context->getParentNode();
-    while(parent != origin && next == 0)
+    while((next == 0) && (parent != 0) && (parent != origin))
     {
-      next = parent->getNextSibling();
+      next = findNextSibling(parent);
       parent = parent->getParentNode();
     } // while ...
 
     return next;
-  } // walkDown
+  } // nextAfterAncestors
+
+  // neither attributes' text nor the document type are nodes to XPath
+  static RawNodeT findFirstChild(const RawNodeT node)
+  {
+    if(node->getNodeType() == DOM::Node_base::ATTRIBUTE_NODE)
+      return 0;
+
+    RawNodeT child = node->getFirstChild();
+    if((child != 0) && nodeIsDocType(child))
+      return findNextSibling(child);
+    return child;
+  } // findFirstChild
+
+  static RawNodeT parentOrOwner(const RawNodeT node)
+  {
+    if(node->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
+      return node->getParentNode();
+    return dynamic_cast<const DOM::Attr_impl<string_type, string_adaptor>*>(node)->getOwnerElement();
+  } // parentOrOwner
 
   static RawNodeT findNextSibling(const RawNodeT node)
   {
-    if(!nodeIsText(node))
-      return node->getNextSibling();
+    bool text = nodeIsText(node);
 
     RawNodeT next = node->getNextSibling();
-    while((next != 0) && nodeIsText(next))
+    while((next != 0) && ((text && nodeIsText(next)) || nodeIsDocType(next)))
       next = next->getNextSibling();
     return next;
   } // findNextSibling
@@ -171,8 +194,19 @@ protected:
   static RawNodeT findPreviousSibling(const RawNodeT node)
   {
     RawNodeT prev = node->getPreviousSibling();
+    while((prev != 0) && nodeIsDocType(prev))
+      prev = prev->getPreviousSibling();
+
+    if(prev == 0)
+      return prev;
+
+    return findFirstOfText(prev);
+  } // findPreviousSibling
 
-    if((prev == 0) || (!nodeIsText(prev)))
+  // adjacent text makes one node, represented by the first
+  static RawNodeT findFirstOfText(RawNodeT prev)
+  {
+    if(!nodeIsText(prev))
       return prev;
 
     RawNodeT prev_again = prev->getPreviousSibling();
@@ -183,9 +217,14 @@ protected:
     } // while
 
     return prev;
-  } // findPreviousSibling
+  } // findFirstOfText
 
 private:
+  static bool nodeIsDocType(const RawNodeT node)
+  {
+    return (node->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE);
+  } // nodeIsDocType
+
   static bool nodeIsText(const RawNodeT node)
   {
     return (node->getNodeType() == DOM::Node_base::TEXT_NODE) ||
@@ -325,7 +364,7 @@ public:
   ChildAxisWalker(const RawNodeT context) : AxisWalker<string_type, string_adaptor>(true)
   {
     if(context != 0)
-      BaseT::set(context->getFirstChild());
+      BaseT::set(BaseT::findFirstChild(context));
   } // ChildAxisWalker
 
   virtual void advance() 
@@ -350,8 +389,8 @@ public:
   DescendantAxisWalker(const RawNodeT context) : AxisWalker<string_type, string_adaptor>(true),
       origin_(context)
   {
-    if((context != 0) && (context->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE))
-      BaseT::set(context->getFirstChild());
+    if(context != 0)
+      BaseT::set(BaseT::findFirstChild(context));
   } // DescendantAxisWalker
 
   virtual void advance()
@@ -364,20 +403,13 @@ public:
 private:
   RawNodeT nextDescendant()
   {
-    RawNodeT next = BaseT::get()->getFirstChild();
+    RawNodeT next = BaseT::findFirstChild(BaseT::get());
     if(next == 0)
       next = BaseT::findNextSibling(BaseT::get());
     if(next != 0)
       return next;
           
-    RawNodeT parent = BaseT::get()->getParentNode();
-    while(parent != origin_ && next == 0)
-    {
-      next = parent->getNextSibling();
-      parent = parent->getParentNode();
-    } // while ...
-
-    return next;
+    return BaseT::nextAfterAncestors(BaseT::get(), origin_);
   } // nextDescendant
 
   DescendantAxisWalker(const DescendantAxisWalker& rhs) : AxisWalker<string_type, string_adaptor>(rhs), origin_(rhs.origin_) { }
@@ -433,9 +465,13 @@ public:
 private:
   RawNodeT firstFollowing(const RawNodeT context) const
   {
-    if(context->getNodeType() == DOM::Node_base::ATTRIBUTE_NODE)
+    if((context->getNodeType() == DOM::Node_base::ATTRIBUTE_NODE) ||
+       (context->getNodeType() == NAMESPACE_NODE_TYPE))
     {
-      RawNodeT owner = dynamic_cast<const DOM::Attr_impl<string_type, string_adaptor>* const>(context)->getOwnerElement();
+      // these come before their element's children
+      RawNodeT owner = BaseT::parentOrOwner(context);
+      if(owner == 0)
+        return 0;
       if(owner->hasChildNodes())
         return owner->getFirstChild();
       return firstFollowing(owner);
@@ -446,14 +482,7 @@ private:
     if(next != 0)
       return next;
           
-    RawNodeT parent = context->getParentNode();
-    while(parent != context->getOwnerDocument() && next == 0)
-    {
-      next = parent->getNextSibling();
-      parent = parent->getParentNode();
-    } // while ...
-
-    return next;
+    return BaseT::nextAfterAncestors(context, context->getOwnerDocument());
   } // firstFollowing
 
   FollowingAxisWalker(const FollowingAxisWalker& rhs) : AxisWalker<string_type, string_adaptor>(rhs) { }
@@ -582,12 +611,12 @@ class PrecedingAxisWalker : public AxisWalker<string_type, string_adaptor>
 public:
   typedef DOM::Node_impl<string_type, string_adaptor>* RawNodeT;
   
-  PrecedingAxisWalker(const RawNodeT context) : BaseT(false)
+  PrecedingAxisWalker(const RawNodeT context) : BaseT(false), nextAncestor_(0)
   {
     if(context->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
       firstPreceding(context);
-    else
-      firstPreceding((dynamic_cast<const DOM::Attr_impl<string_type, string_adaptor>* const>(context))->getOwnerElement());
+    else if(BaseT::parentOrOwner(context) != 0)
+      firstPreceding(BaseT::parentOrOwner(context));
   } // PrecedingAxisWalker
 
   virtual void advance()
@@ -633,7 +662,7 @@ private:
     while(c->getNextSibling() != 0)
       c = c->getNextSibling();
 
-    return getLastDescendant(c);
+    return getLastDescendant(BaseT::findFirstOfText(c));
   } // getLastDescendant
 
   PrecedingAxisWalker(const PrecedingAxisWalker& rhs) : BaseT(rhs), nextAncestor_(rhs.nextAncestor_) { }
-- 
2.43.0


From f351ef8b1bcea144053f0466ae3f42fef92647a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:12 +0000
Subject: [PATCH 055/123] fix: the XPath namespace axis kept overridden and
 undeclared prefixes, and lost its nodes when copied

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 34 +++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index 6fc3c79..7794556 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -1,6 +1,7 @@
 #ifndef ARABICA_XPATHIC_XPATH_AXIS_ENUMERATOR_H
 #define ARABICA_XPATHIC_XPATH_AXIS_ENUMERATOR_H
 
+#include <set>
 #include <DOM/Node.hpp>
 #include <DOM/Document.hpp>
 #include <DOM/NamedNodeMap.hpp>
@@ -526,19 +527,21 @@ public:
     index_(0)
   {
     RawNodeT current = context;
-    if(current->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
-      push_back(context, 
-                string_adaptor::construct_from_utf8("xml"), 
-                string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace"));
-    while(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+    std::set<string_type> seen;  // the innermost declaration is the one in force
+    if(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+      declare(seen,
+              context, 
+              string_adaptor::construct_from_utf8("xml"), 
+              string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace"));
+    while((current != 0) && (current->getNodeType() == DOM::Node_base::ELEMENT_NODE))
     {
       for(unsigned int a = 0, ae = current->getAttributes()->getLength(); a != ae; ++a)
       {
         RawNodeT attr = current->getAttributes()->item(a);
         if(attr->getPrefix() == xmlns_prefix_)
-          push_back(context, attr->getLocalName(), attr->getNodeValue());
+          declare(seen, context, attr->getLocalName(), attr->getNodeValue());
         if(attr->getNodeName() == xmlns_prefix_)
-          push_back(context, string_adaptor::empty_string(), attr->getNodeValue());
+          declare(seen, context, string_adaptor::empty_string(), attr->getNodeValue());
       } // for ...
       current = current->getParentNode();
     } // while
@@ -561,6 +564,12 @@ public:
   virtual BaseT* clone() const { return new NamespaceAxisWalker(*this); }
 
 private:
+  void declare(std::set<string_type>& seen, RawNodeT context, const string_type& prefix, const string_type& uri)
+  {
+    if(seen.insert(prefix).second && !string_adaptor::empty(uri))
+      push_back(context, prefix, uri);
+  } // declare
+
   void push_back(RawNodeT context, const string_type& prefix, const string_type& uri)
   {
     RawNodeT node = new NamespaceNodeImpl<string_type, string_adaptor>(context, prefix, uri);
@@ -568,7 +577,16 @@ private:
     list_.push_back(node);
   } // push_back
 
-  NamespaceAxisWalker(const NamespaceAxisWalker& rhs) : BaseT(rhs) { }
+  NamespaceAxisWalker(const NamespaceAxisWalker& rhs) : 
+    BaseT(rhs), 
+    list_(rhs.list_), 
+    xmlns_prefix_(rhs.xmlns_prefix_), 
+    index_(rhs.index_) 
+  { 
+    for(int i = 0; list_[i] != 0; ++i)
+      list_[i]->addRef();
+  } // NamespaceAxisWalker
+
   std::vector<RawNodeT> list_;
   const string_type xmlns_prefix_;
   unsigned int index_;
-- 
2.43.0


From fdf1aae86904aed3e32a060cd5e13a57b7d34962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:12 +0000
Subject: [PATCH 056/123] fix: nodes from different detached subtrees had no
 consistent order in XPath

---
 include/XPath/impl/xpath_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 741c823..0297c53 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -109,7 +109,7 @@ int resolve_different_subtrees(const DOM::Node<string_type, string_adaptor>& lhs
     return 1;
 
   // otherwise, sort the frags
-  return (lp.underlying_impl() < lp.underlying_impl()) ? -1 : 1;
+  return (lp.underlying_impl() < rp.underlying_impl()) ? -1 : 1;
 } // resolve_different_subtrees
 
 template<class string_type, class string_adaptor>
-- 
2.43.0


From d823449998097cdc9c8ed779fd3a35c1af95a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:12 +0000
Subject: [PATCH 057/123] fix: an element with a thousand attributes had them
 sorted among its children in XPath

---
 include/XPath/impl/xpath_object.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 0297c53..345bf4f 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -70,12 +70,12 @@ unsigned int node_child_position(const DOM::Node<string_type, string_adaptor>& n
       return node_attribute_index(static_cast<DOM::Attr<string_type, string_adaptor> >(node));
     default:
     {
-      unsigned int pos = 0;
+      unsigned int pos = 0x40000000;  // after any number of attributes
       DOM::Node<string_type, string_adaptor> n = node;
       do
       {
         n = n.getPreviousSibling();
-        pos += 1000;
+        ++pos;
       } while(n != 0);
       return pos;
     } // default
-- 
2.43.0


From 306b53948fb6cfd3bdd55626246a5b4aa100bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:12 +0000
Subject: [PATCH 058/123] fix: the same XPath namespace node could be in a
 node-set twice

---
 include/XPath/impl/xpath_object.hpp | 31 +++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 345bf4f..86f2b90 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -134,6 +134,25 @@ DOM::Node<string_type, string_adaptor> get_owner_document(const DOM::Node<string
   return node.getOwnerDocument();
 } // get_owner_document
 
+// namespace nodes are made afresh each time they are asked for, so the same one need not be the same object
+template<class string_type, class string_adaptor>
+int compareNamespaceNodes(const DOM::Node<string_type, string_adaptor>& lhs, 
+                          const DOM::Node<string_type, string_adaptor>& rhs)
+{
+  if((lhs.getNodeType() != NAMESPACE_NODE_TYPE) || (rhs.getNodeType() != NAMESPACE_NODE_TYPE))
+    return 0;
+
+  string_type l = lhs.getLocalName();
+  string_type r = rhs.getLocalName();
+  if(l == r)
+    return 0;
+
+  string_type xml = string_adaptor::construct_from_utf8("xml");
+  if((l == xml) || (r == xml))
+    return (l == xml) ? -1 : 1;
+  return (l < r) ? -1 : 1;
+} // compareNamespaceNodes
+
 template<class string_type, class string_adaptor>
 int compareNodes(const DOM::Node<string_type, string_adaptor>& lhs, 
                  const DOM::Node<string_type, string_adaptor>& rhs)
@@ -169,7 +188,7 @@ int compareNodes(const DOM::Node<string_type, string_adaptor>& lhs,
     return 1;
   if(r != re)
     return -1;
-  return 0;
+  return compareNamespaceNodes(lhs, rhs);
 } // compareNodes
 
 template<class string_type, class string_adaptor>
@@ -179,6 +198,14 @@ bool nodes_less_than(const DOM::Node<string_type, string_adaptor>& n1,
   return compareNodes(n1, n2) < 0; 
 } // nodes_less_than
 
+template<class string_type, class string_adaptor>
+bool nodes_same(const DOM::Node<string_type, string_adaptor>& n1, 
+                const DOM::Node<string_type, string_adaptor>& n2) 
+{ 
+  return (n1 == n2) || 
+         ((n1.getNodeType() == NAMESPACE_NODE_TYPE) && (compareNodes(n1, n2) == 0));
+} // nodes_same
+
 } // namespace impl
 
 ///////////////////////////////////////////////////////////
@@ -285,7 +312,7 @@ public:
     else
       std::sort(nodes_.rbegin(), nodes_.rend(), impl::nodes_less_than<string_type, string_adaptor>);
 
-    nodes_.erase(std::unique(nodes_.begin(), nodes_.end()), nodes_.end());
+    nodes_.erase(std::unique(nodes_.begin(), nodes_.end(), impl::nodes_same<string_type, string_adaptor>), nodes_.end());
     sorted_ = true;
   } // sort
 
-- 
2.43.0


From fe0fccae360d3bd5c8a0a2e3fc9929eebbf322e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:33 +0000
Subject: [PATCH 059/123] fix: names with letters outside ASCII were refused
 when they came in a UTF-8 string

---
 include/DOM/Simple/NodeImpl.hpp |  9 ++++----
 include/XML/strings.hpp         | 41 +++++++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index 77befb8..133a216 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -10,6 +10,7 @@
 #include <DOM/Events/EventListener.hpp>
 #include <DOM/DOMException.hpp>
 #include <XML/XMLCharacterClasses.hpp>
+#include <XML/strings.hpp>
 #include <deque>
 #include <algorithm>
 #include <map>
@@ -213,8 +214,8 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       typedef typename string_adaptorT::const_iterator const_iterator;
       const_iterator i = string_adaptorT::begin(str);
       const_iterator ie = string_adaptorT::end(str);
-      for( ; i != ie; ++i)
-	if(!XML::is_name_char(*i))
+      while(i != ie)
+	if(!XML::is_name_char(XML::impl::next_character(i, ie)))
 	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
     } // checkName
 
@@ -223,8 +224,8 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       typedef typename string_adaptorT::const_iterator const_iterator;
       const_iterator i = string_adaptorT::begin(str);
       const_iterator ie = string_adaptorT::end(str);
-      for( ; i != ie; ++i)
-	if(!XML::is_char(*i))
+      while(i != ie)
+	if(!XML::is_char(XML::impl::next_character(i, ie)))
 	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
     } // checkChars
 
diff --git a/include/XML/strings.hpp b/include/XML/strings.hpp
index fb01057..79a6ead 100755
--- a/include/XML/strings.hpp
+++ b/include/XML/strings.hpp
@@ -20,6 +20,36 @@ namespace Arabica
 {
 namespace XML
 {
+namespace impl
+{
+  // reads the character at s, leaving s at the one which follows it.
+  // A string of single byte characters holds UTF-8; anything in one which
+  // isn't UTF-8 comes back as 0, which is not a character at all.
+  template<typename const_iterator>
+  inline wchar_t next_character(const_iterator& s, const const_iterator& e)
+  {
+    const wchar_t c = static_cast<wchar_t>(*s);
+    const bool is_utf8 = (sizeof(*s) == 1);
+    ++s;
+    if(!is_utf8 || ((c & ~0x7F) == 0))
+      return c;
+
+    const unsigned long lead = static_cast<unsigned long>(c) & 0xFF;
+    int following = (lead >= 0xF0) ? 3 : (lead >= 0xE0) ? 2 : 1;
+    if((lead < 0xC2) || (lead > 0xF4))
+      return 0;
+    const unsigned long smallest = (following == 3) ? 0x10000 : (following == 2) ? 0x800 : 0x80;
+    unsigned long codepoint = lead & (0x3F >> following);
+    for( ; following > 0; --following, ++s)
+    {
+      if((s == e) || ((*s & 0xC0) != 0x80))
+        return 0;
+      codepoint = (codepoint << 6) | (*s & 0x3F);
+    } // for ...
+    return (codepoint >= smallest) ? static_cast<wchar_t>(codepoint) : 0;
+  } // next_character
+} // namespace impl
+
   template<typename string_adaptor>
   inline bool is_ncname(const typename string_adaptor::const_iterator& b,
                         const typename string_adaptor::const_iterator& e)
@@ -32,16 +62,13 @@ namespace XML
       return false;  // zero length
 
     const_iterator s = b;
-    if(!(is_letter(*s) || (*s == Unicode<value_type>::LOW_LINE)))
+    const bool starts_with_low_line = (*s == Unicode<value_type>::LOW_LINE);
+    if(!is_letter(impl::next_character(s, e)) && !starts_with_low_line)
        return false;
 
-    ++s;
-    for( ; s != e; ++s)
-    {
-      value_type c = *s;
-      if(!is_ncname_char(c))
+    while(s != e)
+      if(!is_ncname_char(impl::next_character(s, e)))
         return false;
-    }
     return true;
   } // is_ncname  
 
-- 
2.43.0


From c34e13726bca9fd98ef5f39ccef70215d65e966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 060/123] fix: XPath refused whitespace between minus signs and
 around . and ..

---
 include/XPath/impl/xpath_grammar.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/XPath/impl/xpath_grammar.hpp b/include/XPath/impl/xpath_grammar.hpp
index 1b42f10..5aa80f9 100644
--- a/include/XPath/impl/xpath_grammar.hpp
+++ b/include/XPath/impl/xpath_grammar.hpp
@@ -35,7 +35,7 @@ struct xpath_grammar_definition
     using namespace boost::spirit;
 
     // [1]
-    LocationPath = AbsoluteLocationPath | RelativeLocationPath;
+    LocationPath = discard_node_d[S] >> (AbsoluteLocationPath | RelativeLocationPath) >> discard_node_d[S];
     // [2]
     AbsoluteLocationPath = AbbreviatedAbsoluteLocationPath
                             | (Slash >> !RelativeLocationPath);
@@ -43,7 +43,8 @@ struct xpath_grammar_definition
     RelativeLocationPath = Step >> *((SlashSlash | discard_node_d[Slash]) >> Step);
 
     // [4], [5]
-    Step = AxisSpecifier >> NodeTest >> *Predicate | AbbreviatedStep;
+    Step = AxisSpecifier >> NodeTest >> *Predicate
+         | discard_node_d[S] >> AbbreviatedStep >> discard_node_d[S];
     AxisSpecifier = S >> ( AxisName >> S >> "::" | AbbreviatedAxisSpecifier ) >> S;
 
     // [6]
@@ -116,7 +117,7 @@ struct xpath_grammar_definition
     // [25], [26], [27]
     AdditiveExpr = MultiplicativeExpr >> *((PlusOperator | MinusOperator) >> MultiplicativeExpr);
     MultiplicativeExpr = UnaryExpr >> *((MultiplyOperator | DivOperator | ModOperator) >> UnaryExpr);
-    UnaryExpr = discard_node_d[S] >> *(UnaryMinusOperator) >> UnionExpr;
+    UnaryExpr = discard_node_d[S] >> *(UnaryMinusOperator >> discard_node_d[S]) >> UnionExpr;
 
     // [28] ExprToken not actually used
 
-- 
2.43.0


From 8747c5148be69a3a92df26330d66b45e496c50fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 061/123] fix: XPath refused names with letters outside ASCII

---
 include/XPath/impl/xpath_grammar.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_grammar.hpp b/include/XPath/impl/xpath_grammar.hpp
index 5aa80f9..69a6163 100644
--- a/include/XPath/impl/xpath_grammar.hpp
+++ b/include/XPath/impl/xpath_grammar.hpp
@@ -18,6 +18,7 @@
 #include <boost/spirit/utility/chset.hpp>
 #endif
 
+#include <XML/XMLCharacterClasses.hpp>
 #include "xpath_ast_ids.hpp"
 
 namespace Arabica
@@ -27,6 +28,24 @@ namespace XPath
 namespace impl
 {
 
+// matches one character of a name - for single byte characters, which will
+// be in UTF-8, anything outside ASCII is part of some character in a name
+struct name_char_parser : public boost::spirit::char_parser<name_char_parser>
+{
+  typedef name_char_parser self_t;
+
+  explicit name_char_parser(bool (*is_allowed)(wchar_t)) : is_allowed_(is_allowed) { }
+
+  template<typename CharT>
+  bool test(CharT ch) const
+  {
+    return ((sizeof(CharT) == 1) && ((ch & 0x80) != 0)) || is_allowed_(static_cast<wchar_t>(ch));
+  } // test
+
+private:
+  bool (*is_allowed_)(wchar_t);
+}; // struct name_char_parser
+
 template<typename ScannerT>
 struct xpath_grammar_definition
 {
@@ -145,8 +164,8 @@ struct xpath_grammar_definition
     QName = !(Prefix >> discard_node_d[ch_p(':')]) >> LocalPart;
     Prefix = NCName;
     LocalPart = NCName;
-    NCName = token_node_d[(alpha_p | '_') >> *NCNameChar];
-    NCNameChar = alpha_p | digit_p | '.' | '-' | '_';
+    NCName = token_node_d[(name_char_parser(&Arabica::XML::is_letter) | '_') >> *NCNameChar];
+    NCNameChar = name_char_parser(&Arabica::XML::is_ncname_char);
 
     // things not defined in the spec, but which are just kind of handy :)
     Slash = ch_p('/');
-- 
2.43.0


From b7deb6da1bd0cab1fc14c9042fd96ba1eab1b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:18 +0000
Subject: [PATCH 062/123] fix: XPath expressions which failed to compile leaked
 whatever had been compiled

---
 include/XPath/impl/xpath_parser.hpp | 75 +++++++++++++++++++++--------
 include/XPath/impl/xpath_step.hpp   | 11 +++--
 2 files changed, 62 insertions(+), 24 deletions(-)

diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index 296a370..06bb688 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -16,6 +16,7 @@
 #include <stdexcept>
 #include <algorithm>
 #include <map>
+#include <memory>
 #include "xpath_object.hpp"
 #include "xpath_expression.hpp"
 #include "xpath_ast.hpp"
@@ -58,6 +59,34 @@ namespace impl
 
   template<class string_type, class string_adaptor>
   class StepList : public std::deque<impl::StepExpression<string_type, string_adaptor>*> { };
+
+  // owns the steps in a list until the list is released
+  template<class string_type, class string_adaptor>
+  class StepListOwner
+  {
+  public:
+    StepListOwner() { }
+    ~StepListOwner()
+    {
+      for(typename StepList<string_type, string_adaptor>::const_iterator i = steps_.begin(); i != steps_.end(); ++i)
+        delete *i;
+    } // ~StepListOwner
+
+    StepList<string_type, string_adaptor>& get() { return steps_; }
+
+    StepList<string_type, string_adaptor> release()
+    {
+      StepList<string_type, string_adaptor> released;
+      released.swap(steps_);
+      return released;
+    } // release
+
+  private:
+    StepList<string_type, string_adaptor> steps_;
+
+    StepListOwner(const StepListOwner&);
+    StepListOwner& operator=(const StepListOwner&);
+  }; // class StepListOwner
 } // namespace impl
 
 template<class string_type, class string_adaptor = Arabica::default_string_adaptor<string_type> >
@@ -617,14 +646,16 @@ template<class string_type, class string_adaptor>
 XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_adaptor>::createBinaryExpression(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& /* ie */, impl::CompilationContext<string_type, string_adaptor>& context)
 {
   typename impl::types<string_adaptor>::node_iter_t c = i->children.begin();
-  XPathExpression_impl<string_type, string_adaptor>* p1 = XPath<string_type, string_adaptor>::compile_expression(c, i->children.end(), context);
+  std::unique_ptr<XPathExpression_impl<string_type, string_adaptor> > lhs(XPath<string_type, string_adaptor>::compile_expression(c, i->children.end(), context));
   ++c;
 
   do
   {
     long op = impl::getNodeId<string_adaptor>(c);
     ++c;
-    XPathExpression_impl<string_type, string_adaptor>* p2 = XPath<string_type, string_adaptor>::compile_expression(c, i->children.end(), context);
+    std::unique_ptr<XPathExpression_impl<string_type, string_adaptor> > rhs(XPath<string_type, string_adaptor>::compile_expression(c, i->children.end(), context));
+    XPathExpression_impl<string_type, string_adaptor>* p1 = lhs.release();
+    XPathExpression_impl<string_type, string_adaptor>* p2 = rhs.release();
 
     switch(op)
     {
@@ -671,12 +702,16 @@ XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_ada
         p1 = new impl::UnionExpression<string_type, string_adaptor>(p1, p2);
         break;
       default:
+        delete p1;
+        delete p2;
         throw UnsupportedException(boost::lexical_cast<std::string>(op));
     } // switch
+
+    lhs.reset(p1);
   }
   while(++c != i->children.end());
 
-  return p1;
+  return lhs.release();
 } // createBinaryExpression
 
 template<class string_type, class string_adaptor>
@@ -738,7 +773,7 @@ impl::StepList<string_type, string_adaptor> XPath<string_type, string_adaptor>::
                                                             typename impl::types<string_adaptor>::node_iter_t const& to,
                                                             impl::CompilationContext<string_type, string_adaptor>& context)
 {
-  impl::StepList<string_type, string_adaptor> steps;
+  impl::StepListOwner<string_type, string_adaptor> steps;
 
   typename impl::types<string_adaptor>::node_iter_t c = from;
   typename impl::types<string_adaptor>::node_iter_t end = to;
@@ -752,29 +787,29 @@ impl::StepList<string_type, string_adaptor> XPath<string_type, string_adaptor>::
         break;
 
       case impl::FilterExpr_id:
-        steps.push_back(impl::StepFactory<string_type, string_adaptor>::createFilter(c, context));
+        steps.get().push_back(impl::StepFactory<string_type, string_adaptor>::createFilter(c, context));
         ++c;
         break;
       case impl::RelativeLocationPath_id:
         {
           // might get here when handling an absolute path
           const impl::StepList<string_type, string_adaptor> rel = createStepList(c->children.begin(), c->children.end(), context);
-          std::copy(rel.begin(), rel.end(), std::back_inserter(steps));
+          std::copy(rel.begin(), rel.end(), std::back_inserter(steps.get()));
           ++c;
         }
         break;
       case impl::Step_id:
         {
           typename impl::types<string_adaptor>::node_iter_t step = c->children.begin();
-          steps.push_back(impl::StepFactory<string_type, string_adaptor>::createStep(step, c->children.end(), context));
+          steps.get().push_back(impl::StepFactory<string_type, string_adaptor>::createStep(step, c->children.end(), context));
           ++c;
         }
         break;
       default:
-        steps.push_back(impl::StepFactory<string_type, string_adaptor>::createStep(c, end, context));
+        steps.get().push_back(impl::StepFactory<string_type, string_adaptor>::createStep(c, end, context));
     } // switch(impl::getNodeId(c))
 
-  return steps;
+  return steps.release();
 } // createStepList
 
 template<class string_type, class string_adaptor>
@@ -789,10 +824,10 @@ XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_ada
 {
   typename impl::types<string_adaptor>::node_iter_t n = i;
 
-  impl::StepList<string_type, string_adaptor> steps;
-  steps.push_back(new impl::TestStepExpression<string_type, string_adaptor>(SELF, new impl::NotAttributeNodeTest<string_type, string_adaptor>()));
-  steps.push_back(impl::StepFactory<string_type, string_adaptor>::createSingleStep(n, ie, context, SELF));
-  return new impl::MatchExpressionWrapper<string_type, string_adaptor>(new impl::RelativeLocationPath<string_type, string_adaptor>(steps), defaultPriority(i, ie));
+  impl::StepListOwner<string_type, string_adaptor> steps;
+  steps.get().push_back(new impl::TestStepExpression<string_type, string_adaptor>(SELF, new impl::NotAttributeNodeTest<string_type, string_adaptor>()));
+  steps.get().push_back(impl::StepFactory<string_type, string_adaptor>::createSingleStep(n, ie, context, SELF));
+  return new impl::MatchExpressionWrapper<string_type, string_adaptor>(new impl::RelativeLocationPath<string_type, string_adaptor>(steps.release()), defaultPriority(i, ie));
 } // createSingleMatchStep
 
 template<class string_type, class string_adaptor>
@@ -807,15 +842,15 @@ XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_ada
   // child sequence is test union_op test ...
   typename impl::types<string_adaptor>::node_iter_t n = i->children.begin(), e = i->children.end();
 
-  impl::MatchExpressionWrapper<string_type, string_adaptor>* matches =
-    new impl::MatchExpressionWrapper<string_type, string_adaptor>(compile_match(n++, e, context));
+  std::unique_ptr<impl::MatchExpressionWrapper<string_type, string_adaptor> > matches(
+    new impl::MatchExpressionWrapper<string_type, string_adaptor>(compile_match(n++, e, context)));
   while(n != e)
   {
     ++n; // skip |
     matches->add_matches(compile_match(n++, e, context));
   } // while
 
-  return matches;
+  return matches.release();
 } // createAlternatePattern
 
 template<class string_type, class string_adaptor>
@@ -983,7 +1018,7 @@ impl::StepList<string_type, string_adaptor> XPath<string_type, string_adaptor>::
                                                             typename impl::types<string_adaptor>::node_iter_t const& to,
                                                             impl::CompilationContext<string_type, string_adaptor>& context)
 {
-  impl::StepList<string_type, string_adaptor> steps;
+  impl::StepListOwner<string_type, string_adaptor> steps;
 
   typename impl::types<string_adaptor>::node_iter_t c = from;
 
@@ -991,15 +1026,15 @@ impl::StepList<string_type, string_adaptor> XPath<string_type, string_adaptor>::
   switch(impl::getNodeId<string_adaptor>(c))
   {
   case impl::Slash_id:
-    steps.push_front(impl::StepFactory<string_type, string_adaptor>::createStep(c, to, context, PARENT));
+    steps.get().push_front(impl::StepFactory<string_type, string_adaptor>::createStep(c, to, context, PARENT));
   case impl::SlashSlash_id:
     ++c;
     break;
   } // switch
 
-  createStepsFromPattern(steps, c, to, context);
+  createStepsFromPattern(steps.get(), c, to, context);
 
-  return steps;
+  return steps.release();
 } // createPatternList
 
 
diff --git a/include/XPath/impl/xpath_step.hpp b/include/XPath/impl/xpath_step.hpp
index 3d35a7a..4f4f685 100644
--- a/include/XPath/impl/xpath_step.hpp
+++ b/include/XPath/impl/xpath_step.hpp
@@ -236,10 +236,10 @@ public:
   {
     typename types<string_adaptor>::node_iter_t c = node->children.begin();
     typename types<string_adaptor>::node_iter_t const ce = node->children.end();
-    XPathExpression_impl<string_type, string_adaptor>* step = XPath<string_type, string_adaptor>::compile_expression(c, ce, context);
+    std::unique_ptr<XPathExpression_impl<string_type, string_adaptor> > step(XPath<string_type, string_adaptor>::compile_expression(c, ce, context));
     ++c;
     std::vector<XPathExpression_impl<string_type, string_adaptor>*> preds = createPredicates(c, ce, context);
-    return new ExprStepExpression<string_type, string_adaptor>(step, preds);
+    return new ExprStepExpression<string_type, string_adaptor>(step.release(), preds);
   } // createFilter
 
   static StepExpression<string_type, string_adaptor>* createSingleStep(typename types<string_adaptor>::node_iter_t& node, 
@@ -335,20 +335,23 @@ private:
                                     typename types<string_adaptor>::node_iter_t const& end, 
                                     CompilationContext<string_type, string_adaptor>& context)
   {
-    std::vector<XPathExpression_impl<string_type, string_adaptor>*> preds;
+    std::vector<std::unique_ptr<XPathExpression_impl<string_type, string_adaptor> > > compiled;
 
     while((node != end) && (getNodeId<string_adaptor>(node) == impl::Predicate_id))
     {
       typename types<string_adaptor>::node_iter_t c = node->children.begin();
       assert(getNodeId<string_adaptor>(c) == impl::LeftSquare_id);
       ++c;
-      preds.push_back(XPath<string_type, string_adaptor>::compile_expression(c, node->children.end(), context));
+      compiled.emplace_back(XPath<string_type, string_adaptor>::compile_expression(c, node->children.end(), context));
       ++c;
       assert(getNodeId<string_adaptor>(c) == impl::RightSquare_id);
       
       ++node;
     } // if ...
 
+    std::vector<XPathExpression_impl<string_type, string_adaptor>*> preds;
+    for(size_t p = 0; p != compiled.size(); ++p)
+      preds.push_back(compiled[p].release());
     return preds;
   } // createPredicates
 
-- 
2.43.0


From 6c47444438e3d0d09261efc6d23f05cf183cee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:18 +0000
Subject: [PATCH 063/123] fix: evaluating an XPath variable without a variable
 resolver crashed

---
 include/XPath/impl/xpath_execution_context.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/XPath/impl/xpath_execution_context.hpp b/include/XPath/impl/xpath_execution_context.hpp
index 47c25c7..baa5f10 100644
--- a/include/XPath/impl/xpath_execution_context.hpp
+++ b/include/XPath/impl/xpath_execution_context.hpp
@@ -18,6 +18,8 @@ public:
       position_(-1), 
       last_(-1)
   { 
+    static const NullVariableResolver<string_type, string_adaptor> no_variables;
+    variableResolver_.set(no_variables);
   } // ExecutionContext
 
   ExecutionContext(size_t last, const ExecutionContext<string_type, string_adaptor>& parent) : 
-- 
2.43.0


From 999786ee758b6244bbafcc1b4c7d1887a0a54a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:04 +0000
Subject: [PATCH 064/123] fix: XPath took a boolean, number or string where a
 node-set is needed for an empty node-set

---
 include/XPath/impl/xpath_object.hpp | 7 +++++++
 include/XPath/impl/xpath_parser.hpp | 6 ------
 include/XPath/impl/xpath_value.hpp  | 6 +++---
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 86f2b90..13894ce 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XPATHIC_XPATH_OBJECT_H
 
 #include <string>
+#include <stdexcept>
 #include <vector>
 #include <sstream>
 #include <locale>
@@ -26,6 +27,12 @@ namespace Arabica
 namespace XPath
 {
 
+class RuntimeException : public std::runtime_error
+{
+public:
+  RuntimeException(const std::string& thing) : std::runtime_error("Cannot evaluate XPath: " + thing) { }
+}; // class RuntimeException
+
 enum ValueType
 {
   ANY ,
diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index 06bb688..3da87ea 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -39,12 +39,6 @@ public:
   SyntaxException(const std::string& thing) : std::runtime_error("Bad XPath: " + thing) { }
 }; // class SyntaxException
 
-class RuntimeException : public std::runtime_error
-{
-public:
-  RuntimeException(const std::string& thing) : std::runtime_error("Cannot evaluate XPath: " + thing) { }
-}; // class RuntimeException
-
 class UnsupportedException : public std::runtime_error
 {
 public:
diff --git a/include/XPath/impl/xpath_value.hpp b/include/XPath/impl/xpath_value.hpp
index 10b8205..2ced49f 100644
--- a/include/XPath/impl/xpath_value.hpp
+++ b/include/XPath/impl/xpath_value.hpp
@@ -74,7 +74,7 @@ public:
   virtual bool asBool() const { return value_; }
   virtual double asNumber() const { return value_ ? 1 : 0; }
   virtual string_type asString() const { return string_adaptor::construct_from_utf8(value_ ? "true" : "false"); }
-  virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const { static NodeSet<string_type, string_adaptor> empty; return empty; }
+  virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const { throw RuntimeException("A boolean cannot be converted to a node-set"); }
 
   virtual ValueType type() const { return BOOL; }
 
@@ -108,7 +108,7 @@ public:
   {
     return string_adaptor::construct_from_utf8(impl::numberAsString(value_).c_str());
   } // asString
-  virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const { static NodeSet<string_type, string_adaptor> empty; return empty; }
+  virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const { throw RuntimeException("A number cannot be converted to a node-set"); }
 
   virtual ValueType type() const { return NUMBER; }
 
@@ -139,7 +139,7 @@ public:
     return impl::stringAsNumber<string_type, string_adaptor>(value_);
   } // asNumber
   virtual string_type asString() const { return value_; }
-  virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const { static NodeSet<string_type, string_adaptor> empty; return empty; }
+  virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const { throw RuntimeException("A string cannot be converted to a node-set"); }
  
   virtual ValueType type() const { return STRING; }
 
-- 
2.43.0


From 16d50cfa382ddcc06eac8a9e6f0eb80eb6deba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:03 +0000
Subject: [PATCH 065/123] fix: the XSLT pattern a//b took a node for its own
 ancestor

---
 include/XPath/impl/xpath_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index 3da87ea..ca33828 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -940,7 +940,7 @@ Axis getPatternAxis(typename impl::types<string_adaptor>::node_iter_t const& fro
   int id = impl::getNodeId<string_adaptor>(next);
 
   if(id == impl::SlashSlash_id)
-    return ANCESTOR_OR_SELF;
+    return ANCESTOR;
   if((id == impl::AbbreviatedAxisSpecifier_id) || (id == impl::Attribute_id))
     return static_cast<Axis>(-1);
 
-- 
2.43.0


From 8f3b840f4cff43a51b242ab873ddc3429795dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:03 +0000
Subject: [PATCH 066/123] fix: XSLT patterns were refused, or matched the root,
 for whitespace between their tokens

---
 include/XPath/impl/xpath_grammar.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/XPath/impl/xpath_grammar.hpp b/include/XPath/impl/xpath_grammar.hpp
index 69a6163..d055f72 100644
--- a/include/XPath/impl/xpath_grammar.hpp
+++ b/include/XPath/impl/xpath_grammar.hpp
@@ -377,8 +377,8 @@ struct xpath_grammar_match : public boost::spirit::grammar<xpath_grammar_match>
 
 
       // [3] IdKeyPattern ::= 'id' '(' Literal ')' | 'key' '(' Literal ',' Literal ')'
-      IdKeyPattern = (str_p("id") >> base::LeftBracket >> discard_node_d[base::S] >> base::Literal >> discard_node_d[base::S] >> base::RightBracket) |
-                     (str_p("key") >> base::LeftBracket >> discard_node_d[base::S] >> base::Literal >> discard_node_d[base::S] >> discard_node_d[ch_p(',')] >>discard_node_d[base::S] >>  base::Literal >> discard_node_d[base::S] >> base::RightBracket);
+      IdKeyPattern = (str_p("id") >> discard_node_d[base::S] >> base::LeftBracket >> discard_node_d[base::S] >> base::Literal >> discard_node_d[base::S] >> base::RightBracket) |
+                     (str_p("key") >> discard_node_d[base::S] >> base::LeftBracket >> discard_node_d[base::S] >> base::Literal >> discard_node_d[base::S] >> discard_node_d[ch_p(',')] >>discard_node_d[base::S] >>  base::Literal >> discard_node_d[base::S] >> base::RightBracket);
 
       // [4] RelativePathPattern ::= StepPattern
 	    //                            | RelativePathPattern '/' StepPattern
@@ -386,12 +386,12 @@ struct xpath_grammar_match : public boost::spirit::grammar<xpath_grammar_match>
       RelativePathPattern = StepPattern >> *((base::SlashSlash | base::Slash) >> StepPattern);
 
       // [5] StepPattern ::= ChildOrAttributeAxisSpecifier NodeTest Predicate*
-      StepPattern = ChildOrAttributeAxisSpecifier >> (NodeMatchPattern|base::NodeTest) >> *base::Predicate;
+      StepPattern = discard_node_d[base::S] >> ChildOrAttributeAxisSpecifier >> (NodeMatchPattern|base::NodeTest) >> *base::Predicate;
 
       // [6] ChildOrAttributeAxisSpecifier ::= AbbreviatedAxisSpecifier | ('child' | 'attribute') '::'
-      ChildOrAttributeAxisSpecifier = ((base::Child | base::Attribute) >> discard_node_d[str_p("::")]) | base::AbbreviatedAxisSpecifier;
+      ChildOrAttributeAxisSpecifier = ((base::Child | base::Attribute) >> discard_node_d[base::S] >> discard_node_d[str_p("::")]) | base::AbbreviatedAxisSpecifier;
 
-      NodeMatchPattern = str_p("node()");
+      NodeMatchPattern = token_node_d[*space_p >> str_p("node") >> *space_p >> '(' >> *space_p >> ')' >> *space_p];
     } // definition
 
     boost::spirit::rule<ScannerT, boost::spirit::parser_tag<Pattern_id> > const&
-- 
2.43.0


From 0633d7666126d9d484671c94a02ab478b7601cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:03 +0000
Subject: [PATCH 067/123] fix: whitespace and predicates changed the default
 priority of XSLT patterns

---
 include/XPath/impl/xpath_parser.hpp | 92 +++++++++++++----------------
 1 file changed, 41 insertions(+), 51 deletions(-)

diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index ca33828..1ac3237 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -858,72 +858,62 @@ XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_ada
   return new impl::MatchExpressionWrapper<string_type, string_adaptor>(new impl::RelativeLocationPath<string_type, string_adaptor>(steps), defaultPriority(i, ie));
 } // createIdKeyPattern
 
-template<class string_type, class string_adaptor>
-double XPath<string_type, string_adaptor>::defaultPriority(typename impl::types<string_adaptor>::node_iter_t const& node,
-                                                           typename impl::types<string_adaptor>::node_iter_t const& end)
+template<class string_adaptor>
+double nodeTestPriority(typename impl::types<string_adaptor>::node_iter_t node,
+                        typename impl::types<string_adaptor>::node_iter_t const& end)
 {
-  typename impl::types<string_adaptor>::node_iter_t i = node;
-  impl::skipWhitespace<string_adaptor>(i);
+  impl::skipWhitespace<string_adaptor>(node);
 
-  long id = impl::getNodeId<string_adaptor>(i);
-  size_t child_count = 0;
-  for(typename impl::types<string_adaptor>::node_iter_t c = i->children.begin(), ce = i->children.end(); c != ce; ++c)
-    child_count += (impl::getNodeId<string_adaptor>(c) != impl::S_id);
-
-  switch(id)
+  switch(impl::getNodeId<string_adaptor>(node))
   {
+    case impl::NodeTest_id:
+      return nodeTestPriority<string_adaptor>(node->children.begin(), node->children.end());
+
     case impl::QName_id:
-      return 0;
     case impl::NCName_id:
-      ++i;
-      if(i == end)
-        return 0;
-      impl::skipWhitespace<string_adaptor>(i);
-      if(impl::getNodeId<string_adaptor>(i) == impl::Predicate_id)
-        return 0.5;
-      if(impl::getNodeId<string_adaptor>(i) == impl::AnyName_id)
-        return -0.25;
       return 0;
 
-    case impl::NodeTest_id:
-      {
-        typename impl::types<string_adaptor>::node_iter_t c = i->children.begin();
-        impl::skipWhitespace<string_adaptor>(c);
-        if(impl::getNodeId<string_adaptor>(c) == impl::ProcessingInstruction_id)
-          return 0;
-      }
+    case impl::NameTest_id:
+      return -0.25;
 
-    case impl::NodeMatchPattern_id:
-    case impl::AnyName_id:
-    case impl::Text_id:
-    case impl::Comment_id:
     case impl::ProcessingInstruction_id:
-      ++i;
-      if(i == end)
-        return -0.5;
-      impl::skipWhitespace<string_adaptor>(i);
-      if(impl::getNodeId<string_adaptor>(i) == impl::Predicate_id)
-        return 0.5;
+      for(++node; node != end; ++node)
+        if(impl::getNodeId<string_adaptor>(node) == impl::Literal_id)
+          return 0;
       return -0.5;
+  } // switch
 
-    case impl::NameTest_id:
-    case impl::StepPattern_id:
-      //    case impl::LocationPathPattern_id:
+  return -0.5;
+} // nodeTestPriority
+
+template<class string_type, class string_adaptor>
+double XPath<string_type, string_adaptor>::defaultPriority(typename impl::types<string_adaptor>::node_iter_t const& node,
+                                                           typename impl::types<string_adaptor>::node_iter_t const& end)
+{
+  switch(impl::getNodeId<string_adaptor>(node))
+  {
+    case impl::Slash_id:
+    case impl::IdKeyPattern_id:
+    case impl::LocationPathPattern_id:
     case impl::RelativePathPattern_id:
-      // case impl::Pattern_id:
-      if(child_count <= 2)
-        return defaultPriority(i->children.begin(), i->children.end());
-      break;
+      return 0.5;
 
-    case impl::Child_id:
-    case impl::Attribute_id:
-    case impl::AbbreviatedAxisSpecifier_id:
-      if(child_count == 0)
-        return defaultPriority(i+1, end);
-      break;
+    case impl::StepPattern_id:
+      {
+        typename impl::types<string_adaptor>::node_iter_t test = node->children.begin();
+        while((impl::getNodeId<string_adaptor>(test) == impl::S_id) ||
+              (impl::getNodeId<string_adaptor>(test) == impl::Child_id) ||
+              (impl::getNodeId<string_adaptor>(test) == impl::Attribute_id) ||
+              (impl::getNodeId<string_adaptor>(test) == impl::AbbreviatedAxisSpecifier_id))
+          ++test;
+        for(typename impl::types<string_adaptor>::node_iter_t c = test, ce = node->children.end(); c != ce; ++c)
+          if(impl::getNodeId<string_adaptor>(c) == impl::Predicate_id)
+            return 0.5;
+        return nodeTestPriority<string_adaptor>(test, node->children.end());
+      }
   } // switch
 
-  return 0.5;
+  return nodeTestPriority<string_adaptor>(node, end);
 } // defaultPriority
 
 template<class string_adaptor>
-- 
2.43.0


From 4cd2477d8c7bbfc9c3276510b6045fcaabf78ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:03 +0000
Subject: [PATCH 068/123] fix: XSLT patterns with the position of an attribute
 never matched

---
 include/XPath/impl/xpath_match_rewrite.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/XPath/impl/xpath_match_rewrite.hpp b/include/XPath/impl/xpath_match_rewrite.hpp
index 6cf156c..b3b6f82 100755
--- a/include/XPath/impl/xpath_match_rewrite.hpp
+++ b/include/XPath/impl/xpath_match_rewrite.hpp
@@ -10,10 +10,11 @@ template<class string_type, class string_adaptor>
 class ReplacementExpression : public XPathExpression_impl<string_type, string_adaptor>
 {
 public:
-  ReplacementExpression(impl::NodeTest<string_type, string_adaptor>* test, 
+  ReplacementExpression(Axis axis,
+                        impl::NodeTest<string_type, string_adaptor>* test, 
                         const std::vector<XPathExpression_impl<string_type, string_adaptor>*>& preds) 
   {
-    test_ = new impl::TestStepExpression<string_type, string_adaptor>(CHILD, test, preds);
+    test_ = new impl::TestStepExpression<string_type, string_adaptor>(axis, test, preds);
   } // ReplacementExpression
 
   ~ReplacementExpression()
@@ -27,6 +28,10 @@ public:
                                                            const ExecutionContext<string_type, string_adaptor>& executionContext) const 
   {
     DOM::Node<string_type, string_adaptor> parent = context.getParentNode();
+    if(context.getNodeType() == DOM::Node_base::ATTRIBUTE_NODE)
+      parent = static_cast<DOM::Attr<string_type, string_adaptor> >(context).getOwnerElement();
+    if(parent == 0)
+      return XPathValue<string_type, string_adaptor>(new BoolValue<string_type, string_adaptor>(false));
     NodeSet<string_type, string_adaptor> nodes = test_->evaluateAsNodeSet(parent, executionContext);
     bool found = false;
     for(typename NodeSet<string_type, string_adaptor>::const_iterator n = nodes.begin(), ne = nodes.end(); 
@@ -106,12 +111,17 @@ MatchExpr<string_type, string_adaptor>::MatchExpr(XPathExpression_impl<string_ty
     if(!step || step->has_predicates() == false)
       continue;
 
+    // step is followed by a test for whether it should be an attribute
+    typename StepList::const_iterator kind = s + 1;
+    const Step* const kind_test = (kind != se) ? dynamic_cast<Step*>(*kind) : 0;
+    const bool is_attr = kind_test && (dynamic_cast<impl::AttributeNodeTest<string_type, string_adaptor>*>(kind_test->test_) != 0);
+
     Predicates& predicates = step->predicates_;
     typename Predicates::iterator positional = std::find_if(predicates.begin(), predicates.end(), impl::should_rewrite<string_type, string_adaptor>);
     while(positional != predicates.end())
     {
       Predicates folding(predicates.begin(), positional+1);
-      Expression* replacement_expression = new ReplacementExpression<string_type, string_adaptor>(step->test_->clone(), folding);
+      Expression* replacement_expression = new ReplacementExpression<string_type, string_adaptor>(is_attr ? ATTRIBUTE : CHILD, step->test_->clone(), folding);
       // replacement_expression now owns the leading predicates
       *positional = replacement_expression;
       // so remove the everyting upto the one we've just replaced
-- 
2.43.0


From 05af1bcf35a3fb36841869c57606f4fd70b8a1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:03 +0000
Subject: [PATCH 069/123] fix: XSLT patterns missed positions given by
 variables or inside function calls

---
 include/XPath/impl/xpath_function_holder.hpp | 16 +++++++++++++---
 include/XPath/impl/xpath_match_rewrite.hpp   |  2 +-
 include/XPath/impl/xpath_step.hpp            |  6 ++++++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/XPath/impl/xpath_function_holder.hpp b/include/XPath/impl/xpath_function_holder.hpp
index 6466a1e..388a24f 100644
--- a/include/XPath/impl/xpath_function_holder.hpp
+++ b/include/XPath/impl/xpath_function_holder.hpp
@@ -114,10 +114,12 @@ class FunctionHolder : public XPathExpression_impl<string_type, string_adaptor>
 public:
   FunctionHolder(XPathFunction<string_type, string_adaptor>* func,
                  const string_type& namespace_uri, 
-                 const string_type& name) :
+                 const string_type& name,
+                 const std::vector<XPathExpression<string_type, string_adaptor> >& args) :
     func_(func),
     namespace_uri_(namespace_uri),
-    name_(name)
+    name_(name),
+    args_(args)
   {
   } // FunctionHolder
 
@@ -137,6 +139,13 @@ public:
     return XPathValue<string_type, string_adaptor>(func_->evaluate(context, executionContext));
   } // evaluate
 
+  virtual void scan(Expression_scanner<string_type, string_adaptor>& scanner) const
+  {
+    for(size_t a = 0; a != args_.size(); ++a)
+      args_[a].get()->scan(scanner);
+    scanner.scan(this);
+  } // scan
+
   static FunctionHolder* createFunction(const string_type& namespace_uri,
                                         const string_type& name, 
                                         const std::vector<XPathExpression<string_type, string_adaptor> >& argExprs,
@@ -162,13 +171,14 @@ public:
       throw UndefinedFunctionException(string_adaptor().asStdString(error));
     } // if(func == 0)
     
-    return new FunctionHolder(func, namespace_uri, name);
+    return new FunctionHolder(func, namespace_uri, name, argExprs);
   } // createFunction
 
 private:
   XPathFunction<string_type, string_adaptor>* func_;
   string_type namespace_uri_;
   string_type name_;
+  std::vector<XPathExpression<string_type, string_adaptor> > args_;
 }; // class FunctionHolder
 
 } // namespace impl
diff --git a/include/XPath/impl/xpath_match_rewrite.hpp b/include/XPath/impl/xpath_match_rewrite.hpp
index b3b6f82..4f5d40e 100755
--- a/include/XPath/impl/xpath_match_rewrite.hpp
+++ b/include/XPath/impl/xpath_match_rewrite.hpp
@@ -82,7 +82,7 @@ namespace impl
   template<class string_type, class string_adaptor>
   bool should_rewrite(XPathExpression_impl<string_type, string_adaptor>* expr) 
   {
-    if(expr->type() == NUMBER)
+    if((expr->type() == NUMBER) || (expr->type() == ANY))
       return true;
 
     PositionFnScanner<string_type, string_adaptor> scanner;
diff --git a/include/XPath/impl/xpath_step.hpp b/include/XPath/impl/xpath_step.hpp
index 4f4f685..7cac94e 100644
--- a/include/XPath/impl/xpath_step.hpp
+++ b/include/XPath/impl/xpath_step.hpp
@@ -194,6 +194,12 @@ public:
     return evaluate(c, executionContext);
   } // evaluate
 
+  virtual void scan(Expression_scanner<string_type, string_adaptor>& scanner) const
+  {
+    expr_->scan(scanner);
+    scanner.scan(this);
+  } // scan
+
 private:
   XPathExpression_impl<string_type, string_adaptor>* expr_;
   std::vector<XPathExpression_impl<string_type, string_adaptor>*> predicates_;
-- 
2.43.0


From 3491350d301b3b1cb07beac28d797b2fa1e48216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:03 +0000
Subject: [PATCH 070/123] fix: the XPath node test processing-instruction('')
 selected every processing instruction

---
 include/XPath/impl/xpath_node_test.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/XPath/impl/xpath_node_test.hpp b/include/XPath/impl/xpath_node_test.hpp
index a7de3a1..6f64eb1 100644
--- a/include/XPath/impl/xpath_node_test.hpp
+++ b/include/XPath/impl/xpath_node_test.hpp
@@ -235,22 +235,20 @@ template<class string_type, class string_adaptor>
 class ProcessingInstructionNodeTest : public NodeTest<string_type, string_adaptor>
 {
 public:
-  ProcessingInstructionNodeTest() : target_() { }
-  ProcessingInstructionNodeTest(const string_type& target) : target_(target) { }
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return new ProcessingInstructionNodeTest(target_); }
+  ProcessingInstructionNodeTest() : any_(true), target_() { }
+  ProcessingInstructionNodeTest(const string_type& target) : any_(false), target_(target) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return any_ ? new ProcessingInstructionNodeTest() : new ProcessingInstructionNodeTest(target_); }
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
     if(node.getNodeType() != DOM::Node_base::PROCESSING_INSTRUCTION_NODE)
       return false;
 
-    if(string_adaptor::empty(target_))
-      return true;
-
-    return node.getNodeName() == target_;
+    return any_ || (node.getNodeName() == target_);
   } // test
 
 private:
+  bool any_;
   string_type target_;
 }; // ProcessingInstructionNodeTest
 
-- 
2.43.0


From 3ff7dc8c514049ba7f6064d0660346d92f7ac930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:51 +0000
Subject: [PATCH 071/123] fix: SAX2DOM crashed on entities declared with markup
 it could not parse on its own

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 92bc1ba..c43ac6a 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -414,6 +414,8 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       parser.parse(is);       
 
       DOM::Document<stringT, string_adaptorT> entityDoc = parser.getDocument();
+      if(entityDoc == 0) // might be ill-formed, might refer to other entities - either way, the contents aren't available
+        return;
       DOM::Element<stringT, string_adaptorT> entityElem = entityDoc.getDocumentElement();
       DOM::Node<stringT, string_adaptorT> child = entityElem.getFirstChild();
       while(child != 0)
-- 
2.43.0


From 811c09de72439f640830da7b269b5ff4bc091bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:51 +0000
Subject: [PATCH 072/123] fix: SAX2DOM never heard of notations and unparsed
 entities

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index c43ac6a..6a61754 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -110,6 +110,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       if(entityResolver_)
         parser.setEntityResolver(*entityResolver_);
 
+      parser.setDTDHandler(*this);
       parser.setLexicalHandler(*this);
       parser.setDeclHandler(*this);
 
-- 
2.43.0


From 44bf211ef102703b5858e73ae466a458341a60b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:51 +0000
Subject: [PATCH 073/123] fix: SAX2DOM went wrong in nested entities, after
 errors and when used again

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 39 +++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 6a61754..e420028 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -11,7 +11,9 @@
 #include <DOM/Document.hpp>
 #include <DOM/DOMException.hpp>
 #include <DOM/SAX2DOM/DocumentTypeImpl.hpp>
+#include <algorithm>
 #include <map>
+#include <vector>
 #include <SAX/helpers/FeatureNames.hpp>
 #include <SAX/SAXParseException.hpp>
 
@@ -101,7 +103,9 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       currentNode_ = document_;
       inCDATA_ = false;
       inDTD_ = false;
-      inEntity_ = 0;
+      documentType_ = 0;
+      declaredEntities_.clear();
+      enclosing_.clear();
 
       SAX_parser_type base_parser;
       TextCoalescerT parser(base_parser);
@@ -142,6 +146,10 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     void reset()
     {
       currentNode_ = 0;
+      // these go with the document
+      documentType_ = 0;
+      declaredEntities_.clear();
+      std::fill(enclosing_.begin(), enclosing_.end(), DOM::Node<stringT, string_adaptorT>());
       document_ = 0;
     } // reset
 
@@ -158,14 +166,13 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     DOM::Document<stringT, string_adaptorT> document_;
     DocumentType<stringT, string_adaptorT >* documentType_;
     DOM::Node<stringT, string_adaptorT> currentNode_;
-    DOM::Node<stringT, string_adaptorT> cachedCurrent_;
+    std::vector<DOM::Node<stringT, string_adaptorT> > enclosing_; // where the entities we're in will go
 
     typedef std::map<stringT, bool> Features;
     Features features_;
 
     bool inCDATA_;
     bool inDTD_;
-    int inEntity_;
 
     std::map<stringT, EntityT*> declaredEntities_;
 
@@ -291,6 +298,9 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 			  const stringT& publicId, 
 			  const stringT& systemId)
     {
+      if(currentNode_ == 0)
+        return;
+
       documentType_ = new DocumentType<stringT, string_adaptorT >(name, publicId, systemId);
       document_.insertBefore(documentType_, 0);
       inDTD_ = true;
@@ -298,30 +308,31 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void endDTD()
     {
-      documentType_->setReadOnly(true);
+      if(documentType_)
+        documentType_->setReadOnly(true);
       inDTD_ = false;
     } // endDTD
 
     virtual void startEntity(const stringT& name)
     {
+      enclosing_.push_back(currentNode_);
       if(currentNode_ == 0)
         return;
 
-      if(++inEntity_ == 1)
-      {
-        cachedCurrent_ = currentNode_;
-        currentNode_ = declaredEntities_[name];
-        if(currentNode_ != 0 && currentNode_.hasChildNodes() == true) // already populated
-          currentNode_ = 0;
-      }
+      currentNode_ = declaredEntities_[name];
+      if(currentNode_ != 0 && currentNode_.hasChildNodes() == true) // already populated
+        currentNode_ = 0;
     } // startEntity
 
     virtual void endEntity(const stringT& name)
     {
-      if(--inEntity_ == 0)
-        currentNode_ = cachedCurrent_;
+      if(enclosing_.empty())
+        return;
+
+      currentNode_ = enclosing_.back();
+      enclosing_.pop_back();
 
-      if(this->dtd_pseudo_entity == name)
+      if(currentNode_ == 0 || inDTD_ == true || this->dtd_pseudo_entity == name)
         return;
 	  
 	  const EntityT* declared = declaredEntities_[name];
-- 
2.43.0


From 68b7a91b16d2d4b8940c85a006d38c470b9ea20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:51 +0000
Subject: [PATCH 074/123] fix: SAX2DOM put comments and processing instructions
 from the DTD in the document

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index e420028..cea5786 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -256,7 +256,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void processingInstruction(const stringT& target, const stringT& data)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_ == true)
         return;
 
       currentNode_.appendChild(document_.createProcessingInstruction(target, data));
@@ -359,7 +359,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void comment(const stringT& text)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_ == true)
         return;
 
       currentNode_.appendChild(document_.createComment(text));
-- 
2.43.0


From 5cf74ae72d53654ef4650b85b76c2c8f3e9d5ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:51 +0000
Subject: [PATCH 075/123] fix: XSLT output lost track of namespaces when
 prefixes were hidden or names had none

---
 include/XSLT/impl/xslt_copy.hpp            |   5 ++
 include/XSLT/impl/xslt_namespace_stack.hpp | 100 ++++++++++++++-------
 include/XSLT/impl/xslt_output.hpp          |  46 +++++-----
 3 files changed, 95 insertions(+), 56 deletions(-)

diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index 1e839fd..adaf1fa 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -27,6 +27,11 @@ protected:
     switch(node.getNodeType())
     {
     case DOM::Node_base::ATTRIBUTE_NODE:
+      if((node.getNodeName() == SC::xmlns) || (node.getPrefix() == SC::xmlns))
+      {
+        context.sink().copy_namespace((node.getNodeName() == SC::xmlns) ? string_adaptor::empty_string() : node.getLocalName(), node.getNodeValue());
+        break;
+      } // if ...
       context.sink().add_attribute(node.getNamespaceURI(),
                                    node.getLocalName(),
                                    node.getNodeName(),
diff --git a/include/XSLT/impl/xslt_namespace_stack.hpp b/include/XSLT/impl/xslt_namespace_stack.hpp
index 79516b1..d0457fb 100644
--- a/include/XSLT/impl/xslt_namespace_stack.hpp
+++ b/include/XSLT/impl/xslt_namespace_stack.hpp
@@ -21,61 +21,93 @@ public:
   NamespaceStack() :
     autoNs_(1)
   {
-    prefixStack_.push_back(Scope());
-    uriStack_.push_back(Scope());
+    pushScope();
   } // NamespaceStack
 
   void pushScope()
   {
-    prefixStack_.push_back(Scope());
-    uriStack_.push_back(Scope());
+    declared_.push_back(Scope());
+    used_.push_back(Scope());
   } // pushScope
 
   void popScope()
   {
-    prefixStack_.pop_back();
-    uriStack_.pop_back();
+    declared_.pop_back();
+    used_.pop_back();
   } // popScope
 
-  void declareNamespace(const string_type& given_prefix, const string_type& namespaceURI, bool attr = false)
+  // finds the prefix for a name in the namespace, declaring it if need be
+  string_type declareNamespace(const string_type& given_prefix, const string_type& namespaceURI, bool attr = false)
   {
-    if(findPrefix(namespaceURI) != EMPTY_STRING)
-      return;
+    if(string_adaptor::empty(namespaceURI))
+    {
+      if(!attr)
+      {
+        if(!string_adaptor::empty(findURI(EMPTY_STRING)))
+          declared_.back()[EMPTY_STRING] = EMPTY_STRING;
+        used_.back()[EMPTY_STRING] = EMPTY_STRING;
+      } // if ...
+      return EMPTY_STRING;
+    } // if ...
+
+    if(namespaceURI == SC::xml_uri)
+      return SC::xml;
+
+    string_type prefix = given_prefix;
+    if(!findPrefix(namespaceURI, attr, prefix))
+    {
+      while((attr && string_adaptor::empty(prefix)) || 
+            (prefix == SC::xml) ||
+            (prefix == SC::xmlns) ||
+            (used_.back().find(prefix) != used_.back().end()) ||
+            (prefix != given_prefix && !string_adaptor::empty(findURI(prefix))))
+        prefix = autoNamespacePrefix();
+
+      declared_.back()[prefix] = namespaceURI;
+    } // if ...
+
+    used_.back()[prefix] = namespaceURI;
+    return prefix;
+  } // declareNamespace
 
-    bool remap = (attr && string_adaptor::empty(given_prefix)) || (given_prefix == SC::xmlns);
+  // makes a declaration, unless names in the same tag need the prefix for something else
+  void copyDeclaration(const string_type& prefix, const string_type& namespaceURI)
+  {
+    if((prefix == SC::xml) || (findURI(prefix) == namespaceURI) || (used_.back().find(prefix) != used_.back().end()))
+      return;
 
-    string_type prefix = !remap ? given_prefix : autoNamespacePrefix();
-
-    prefixStack_.back()[prefix] = namespaceURI;
-    uriStack_.back()[namespaceURI] = prefix;
-  } // declareNamespace
+    declared_.back()[prefix] = namespaceURI;
+    used_.back()[prefix] = namespaceURI;
+  } // copyDeclaration
 
   const string_type& findURI(const string_type& prefix) const
   {
-    return searchStack(prefixStack_, prefix);
+    for(typename ScopeStack::const_reverse_iterator ss = declared_.rbegin(), se = declared_.rend(); ss != se; ++ss)
+    {      
+      typename Scope::const_iterator i = ss->find(prefix);
+      if(i != ss->end())
+        return i->second;
+    } // for ...
+    return EMPTY_STRING;
   } // findURI
 
-  const string_type& findPrefix(const string_type& uri) const
-  {
-    return searchStack(uriStack_, uri);
-  } // findPrefix
-
-  typename Scope::const_iterator begin() { return prefixStack_.back().begin(); }
-  typename Scope::const_iterator end() { return prefixStack_.back().end(); }
+  typename Scope::const_iterator begin() { return declared_.back().begin(); }
+  typename Scope::const_iterator end() { return declared_.back().end(); }
 
 private:
   typedef std::vector<Scope> ScopeStack;
 
-  const string_type& searchStack(const ScopeStack& stack, const string_type& key) const
+  bool findPrefix(const string_type& uri, bool attr, string_type& prefix) const
   {
-    for(typename ScopeStack::const_reverse_iterator ss = stack.rbegin(), se = stack.rend(); ss != se; ss++)
-    {      
-      typename Scope::const_iterator i = ss->find(key);
-      if(i != ss->end())
-        return i->second;
-    }
-    return EMPTY_STRING;
-  } // searchStack
+    for(typename ScopeStack::const_reverse_iterator ss = declared_.rbegin(), se = declared_.rend(); ss != se; ++ss)
+      for(typename Scope::const_iterator i = ss->begin(), e = ss->end(); i != e; ++i)
+        if((i->second == uri) && !(attr && string_adaptor::empty(i->first)) && (findURI(i->first) == uri))
+        {
+          prefix = i->first;
+          return true;
+        } // if ...
+    return false;
+  } // findPrefix
 
   string_type autoNamespacePrefix()
   {
@@ -84,8 +116,8 @@ private:
     return string_adaptor::construct(ss.str());
   } // autoNamespacePrefix
 
-  ScopeStack prefixStack_;
-  ScopeStack uriStack_;
+  ScopeStack declared_;
+  ScopeStack used_;
   string_type EMPTY_STRING;
   unsigned int autoNs_;
 }; // class NamespaceStack
diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index f692d80..1ca6a63 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -65,17 +65,13 @@ public:
     flush_current();
 
     namespaceStack_.pushScope();
-    if(!string_adaptor::empty(namespaceURI))
-      namespaceStack_.declareNamespace(prefix, namespaceURI);
-
-    string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
+    string_type mapped_prefix = namespaceStack_.declareNamespace(prefix, namespaceURI);
 
     element_stack_.push(QName<string_type, string_adaptor>(mapped_prefix, localName, namespaceURI));
 
     atts_.clear();
     pending_element_ = true;
 
-    namespaceStack_.pushScope();
     return true;
   } // start_element
 
@@ -85,7 +81,7 @@ public:
     end_element(en.prefix, en.localName, en.namespaceURI);
   } // end_element
 
-  void end_element(const string_type& /* prefix */, const string_type& localName, const string_type& namespaceURI)
+  void end_element(const string_type& /* prefix */, const string_type& /* localName */, const string_type& /* namespaceURI */)
   {
     if(pop_if_buffering())
       return;
@@ -93,12 +89,9 @@ public:
     flush_current();
 
     if(!text_mode_)
-    {
-      string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
-      do_end_element((!string_adaptor::empty(mapped_prefix)) ? makeName(mapped_prefix, localName) : localName, namespaceURI);
-      element_stack_.pop();
-    } // end_element
+      do_end_element(element_stack_.top().qname, element_stack_.top().namespaceURI);
 
+    element_stack_.pop();
     namespaceStack_.popScope();
   } // end_element
 
@@ -127,10 +120,7 @@ public:
       return;
     } // if ...
 
-    if(!string_adaptor::empty(namespaceURI))
-      namespaceStack_.declareNamespace(prefix, namespaceURI, true);
-
-    string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
+    string_type mapped_prefix = namespaceStack_.declareNamespace(prefix, namespaceURI, true);
     string_type qName = (!string_adaptor::empty(mapped_prefix)) ? makeName(mapped_prefix, localName) : localName;
 
     atts_.addOrReplaceAttribute(namespaceURI,
@@ -138,7 +128,7 @@ public:
                                 qName,
                                 string_adaptor::empty_string(),
                                 string_adaptor::empty_string());
-    pending_attribute_ = atts_.getIndex(qName);
+    pending_attribute_ = atts_.getIndex(namespaceURI, localName);
   } // start_attribute
 
   void end_attribute()
@@ -159,15 +149,31 @@ public:
 		                 const string_type& qName,
 		                 const string_type& value) 
   {
+    if(is_buffering())
+      return;
+
     if(!pending_element_)
     {  
       warning(string_adaptor::construct_from_utf8("WARNING: Cannot write attribute, no open element"));
       return;
     } // if ...
 
-    atts_.addAttribute(uri, localName, qName, string_adaptor::empty_string(), value); 
+    string_type prefix = QName<string_type, string_adaptor>::create(qName).prefix;
+    string_type name = !string_adaptor::empty(localName) ? localName : qName;
+    string_type mapped_prefix = namespaceStack_.declareNamespace(prefix, uri, true);
+    atts_.addOrReplaceAttribute(uri, 
+                                name, 
+                                (!string_adaptor::empty(mapped_prefix)) ? makeName(mapped_prefix, name) : name, 
+                                string_adaptor::empty_string(), 
+                                value); 
   } // add_attribute
 
+  void copy_namespace(const string_type& prefix, const string_type& uri)
+  {
+    if(!is_buffering() && pending_element_)
+      namespaceStack_.copyDeclaration(prefix, uri);
+  } // copy_namespace
+
   void characters(const string_type& ch)
   {
     if(buffering_)
@@ -334,11 +340,7 @@ private:
     if(text_mode_)
       return;
 
-    bool want_decs = want_namespace_declarations();
-    if(want_decs)
-      addNamespaceDeclarations();
-    namespaceStack_.popScope();
-    if(want_decs)
+    if(want_namespace_declarations())
       addNamespaceDeclarations();
 
     do_start_element(element_stack_.top().qname, element_stack_.top().namespaceURI, atts_);
-- 
2.43.0


From 5c3b072c9f9300d050f3380cf93f208935a2ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:51 +0000
Subject: [PATCH 076/123] fix: XSLT warnings inside variables crashed

---
 include/XSLT/impl/xslt_execution_context.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 96b48a6..5ef9df4 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -60,6 +60,8 @@ public:
     to_msg_(false)
   {
 		xpathContext_.setVariableResolver(stack_);
+    sink_.set_warning_sink(message_sink_.asOutput());
+    message_sink_.asOutput().set_warning_sink(message_sink_.asOutput());
     xpathContext_.setCurrentNode(rhs.xpathContext().currentNode());
     xpathContext_.setPosition(rhs.xpathContext().position());
     xpathContext_.setLast(rhs.xpathContext().last());
-- 
2.43.0


From 7d916b2927abe025d73c0cf48a11fdbbeacb626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:51 +0000
Subject: [PATCH 077/123] fix: XSLT refused empty attributes in literal result
 elements

---
 include/XSLT/impl/xslt_compilation_context.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/XSLT/impl/xslt_compilation_context.hpp b/include/XSLT/impl/xslt_compilation_context.hpp
index 51ff879..b590767 100644
--- a/include/XSLT/impl/xslt_compilation_context.hpp
+++ b/include/XSLT/impl/xslt_compilation_context.hpp
@@ -85,7 +85,12 @@ public:
     return xpath_match(match);
   } // xpath_match_no_variables
 
-  XPathExpressionPtrT xpath_attribute_value_template(const string_type& expr) const { return xpath_.compile_attribute_value_template(expr); } 
+  XPathExpressionPtrT xpath_attribute_value_template(const string_type& expr) const 
+  { 
+    if(string_adaptor::empty(expr))
+      return XPathExpressionPtrT(new Arabica::XPath::StringValue<string_type, string_adaptor>(expr));
+    return xpath_.compile_attribute_value_template(expr); 
+  } // xpath_attribute_value_template
   CompiledStylesheetT& stylesheet() const { return stylesheet_; }
 
   QualifiedNameT processElementQName(const string_type& qName) const
-- 
2.43.0


From 04186f19f192e6a9621fc308011bf5f371bfaa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:03 +0000
Subject: [PATCH 078/123] fix: XSLT wrote the default namespace declaration of
 a literal result element twice

---
 include/XSLT/impl/handler/xslt_inline_element_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
index 960795e..68aeed9 100644
--- a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
@@ -31,7 +31,7 @@ protected:
     std::vector<InlineAttribute<string_type, string_adaptor> > inlineAtts;
     for(int i = 0; i != atts.getLength(); ++i)
     {      
-      if(string_adaptor::find(atts.getQName(i), SC::xmlns_colon) == 0)
+      if((string_adaptor::find(atts.getQName(i), SC::xmlns_colon) == 0) || (atts.getQName(i) == SC::xmlns))
         continue;
       if(atts.getURI(i) == StylesheetConstant<string_type, string_adaptor>::NamespaceURI)
         continue;
-- 
2.43.0


From 357e7e13ec49cbc0afc7c8d0eac664273ab69096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:03 +0000
Subject: [PATCH 079/123] fix: XSLT namespace aliases of #default made bad
 names

---
 include/XSLT/impl/handler/xslt_inline_element_handler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
index 68aeed9..f55fda0 100644
--- a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
@@ -62,6 +62,9 @@ protected:
 private:
   string_type makeName(const string_type prefix, const string_type localName) const
   {
+    if(string_adaptor::empty(prefix))
+      return localName;
+
     string_type n = prefix;
     string_adaptor::append(n, SC::COLON);
     string_adaptor::append(n, localName);
-- 
2.43.0


From 11dfca236d89841758a2c801ec72eb4adda434eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:04 +0000
Subject: [PATCH 080/123] fix: XSLT took an empty namespace attribute for a
 missing one

---
 include/XSLT/impl/handler/xslt_attribute_handler.hpp | 2 +-
 include/XSLT/impl/handler/xslt_element_handler.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_attribute_handler.hpp b/include/XSLT/impl/handler/xslt_attribute_handler.hpp
index d6621fa..c1bd36d 100644
--- a/include/XSLT/impl/handler/xslt_attribute_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_attribute_handler.hpp
@@ -35,7 +35,7 @@ protected:
     Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> name = 
                          baseT::context().xpath_attribute_value_template(attrs[SC::name]);
 
-    if(attrs[SC::namespace_] == string_adaptor::empty_string())
+    if(atts.getIndex(SC::namespace_) == -1)
       return new Attribute<string_type, string_adaptor>(name, baseT::context().inScopeNamespaces());
 
     return new Attribute<string_type, string_adaptor>(name, baseT::context().xpath_attribute_value_template(attrs[SC::namespace_]));
diff --git a/include/XSLT/impl/handler/xslt_element_handler.hpp b/include/XSLT/impl/handler/xslt_element_handler.hpp
index 08a7aad..535e244 100644
--- a/include/XSLT/impl/handler/xslt_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_element_handler.hpp
@@ -39,7 +39,7 @@ protected:
     if(attrs[SC::use_attribute_sets] != string_adaptor::empty_string())
       throw SAX::SAXException("don't understand use-attribute-sets yet");
     
-    if(attrs[SC::namespace_] == string_adaptor::empty_string())
+    if(atts.getIndex(SC::namespace_) == -1)
       return new Element<string_type, string_adaptor>(name, 
                          baseT::context().inScopeNamespaces(),
                          attrs[SC::use_attribute_sets]);
-- 
2.43.0


From 8dbc81a5304ec36d644ea0285cd898da2b00afea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:44 +0000
Subject: [PATCH 081/123] fix: streaming a CDATA section with several ]]>
 repeated parts of it

---
 include/DOM/io/Stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index ace6cf9..b824e15 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -311,7 +311,7 @@ void streamCDATA(std::basic_ostream<charT, traitsT>& stream, const DOM::Node<str
     do
     {
       breakAt += 2;
-      stream << string_adaptorT::substr(value, start, breakAt);
+      stream << string_adaptorT::substr(value, start, breakAt - start);
       StreamImpl::endCDATA(stream);
       start = breakAt;
       StreamImpl::startCDATA(stream);
-- 
2.43.0


From a00b8a7cec0fb52f051b1ed392d0a5a45cb85887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:44 +0000
Subject: [PATCH 082/123] fix: streaming an element without a parent crashed

---
 include/DOM/io/Stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index b824e15..d0c2c9a 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -145,7 +145,7 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
 
     std::map<stringT, stringT> prefixes;
     for(DOM::Node<stringT, string_adaptorT> p = node.getParentNode(); 
-        p.getNodeType() == DOM::Node_base::ELEMENT_NODE; 
+        (p != 0) && (p.getNodeType() == DOM::Node_base::ELEMENT_NODE); 
         p = p.getParentNode())
     {
       if(string_adaptorT::empty(p.getNamespaceURI()))
-- 
2.43.0


From 51f82953b399678259ad58b1f6c2d01c890bdca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:44 +0000
Subject: [PATCH 083/123] fix: streaming a DOM lost track of namespaces when
 prefixes were declared again or attributes had none

---
 include/DOM/io/Stream.hpp | 191 ++++++++++++++++++++++++++------------
 1 file changed, 133 insertions(+), 58 deletions(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index d0c2c9a..d937881 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -25,6 +25,9 @@
 #include <iostream>
 #include <algorithm>
 #include <map>
+#include <set>
+#include <sstream>
+#include <vector>
 #include <text/UnicodeCharacters.hpp>
 #include <XML/escaper.hpp>
 
@@ -36,60 +39,125 @@ namespace DOM
 namespace StreamImpl
 {
 
+// the namespace declarations made in a start tag, and the prefixes it uses
 template<class stringT>
-void prefix_mapper_callback(std::ios_base::event ev, std::ios_base& stream, int index)
+struct PrefixFrame
 {
-  if(ev == std::ios_base::erase_event)
-    delete static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
-} // boing_callback
+  std::map<stringT, stringT> declared; // prefix to URI
+  std::map<stringT, stringT> used;
+  stringT element_prefix;
+}; // struct PrefixFrame
 
-template<class stringT>
-std::pair<bool, stringT> is_uri_declared(std::vector<std::map<stringT, stringT> >* prefix_stack, const stringT& namespaceURI)
+template<class stringT, class string_adaptorT>
+class PrefixStack
 {
-  stringT declared_prefix;
-  for(typename std::vector<std::map<stringT, stringT> >::reverse_iterator b = prefix_stack->rbegin(), e = prefix_stack->rend();
-        b != e;
-        ++b)
+  typedef std::vector<PrefixFrame<stringT> > Frames;
+  typedef std::map<stringT, stringT> Prefixes;
+
+public:
+  PrefixStack() : 
+    generated_(0) 
+  { 
+    // never needs declaring
+    frames_.push_back(PrefixFrame<stringT>());
+    frames_.back().declared[string_adaptorT::construct_from_utf8("xml")] = string_adaptorT::construct_from_utf8("http://www.w3.org/XML/1998/namespace");
+  } // PrefixStack
+
+  void push() { frames_.push_back(PrefixFrame<stringT>()); }
+  void pop() { frames_.pop_back(); }
+  bool empty() const { return frames_.size() == 1; }
+
+  PrefixFrame<stringT>& current() { return frames_.back(); }
+
+  stringT uri(const stringT& prefix) const
   {
-    typename std::map<stringT, stringT>::const_iterator p = b->find(namespaceURI);
-    if(p != b->end())
-      return std::make_pair(true, p->second);
-  } // for ...
+    for(typename Frames::const_reverse_iterator f = frames_.rbegin(), fe = frames_.rend(); f != fe; ++f)
+    {
+      typename Prefixes::const_iterator p = f->declared.find(prefix);
+      if(p != f->declared.end())
+        return p->second;
+    } // for ...
+    return stringT();
+  } // uri
+
+  // finds a prefix which stands for the URI, declaring one if there is none
+  stringT prefix(const stringT& namespaceURI, const stringT& preferred, bool is_attribute)
+  {
+    bool is_default = false;
+    for(typename Frames::const_reverse_iterator f = frames_.rbegin(), fe = frames_.rend(); f != fe; ++f)
+      for(typename Prefixes::const_iterator p = f->declared.begin(), pe = f->declared.end(); p != pe; ++p)
+        if((p->second == namespaceURI) && (uri(p->first) == namespaceURI))
+        {
+          if(!is_attribute || !string_adaptorT::empty(p->first))
+            return use(p->first, namespaceURI);
+          is_default = true;
+        } // if ...
+
+    // an attribute needs a prefix even when its namespace is the default, but any will do
+    stringT prefix = !is_default ? preferred : stringT();
+    while((is_attribute && string_adaptorT::empty(prefix)) || 
+          (current().used.find(prefix) != current().used.end()) ||
+          (prefix == frames_.front().declared.begin()->first) ||
+          (!(prefix == preferred) && !string_adaptorT::empty(uri(prefix))))
+    {
+      std::ostringstream os;
+      os << 'a' << generated_++;
+      prefix = string_adaptorT::construct_from_utf8(os.str().c_str());
+    } // while ...
+
+    current().declared[prefix] = namespaceURI;
+    return use(prefix, namespaceURI);
+  } // prefix
+
+  // for names in no namespace
+  void no_namespace(bool is_attribute)
+  {
+    if(is_attribute)
+      return;
+    const stringT none;
+    if(!string_adaptorT::empty(uri(none)))
+      current().declared[none] = none;
+    use(none, none);
+  } // no_namespace
+
+private:
+  const stringT& use(const stringT& prefix, const stringT& namespaceURI)
+  {
+    return current().used.insert(std::make_pair(prefix, namespaceURI)).first->first;
+  } // use
+
+  Frames frames_;
+  int generated_;
+}; // class PrefixStack
 
-  return std::make_pair(false, stringT());
-} // is_uri_declared
+template<class stringT, class string_adaptorT, class charT, class traitsT>
+void output_prefix(std::basic_ostream<charT, traitsT>& stream, const stringT& prefix)
+{
+  if(!string_adaptorT::empty(prefix))
+    stream << prefix << Arabica::text::Unicode<charT>::COLON;
+} // output_prefix
 
 template<class stringT, class string_adaptorT, class charT, class traitsT>
 void check_and_output_node_name(std::basic_ostream<charT, traitsT>& stream, 
                                 const DOM::Node<stringT, string_adaptorT>& node, 
-                                std::vector<std::map<stringT, stringT> >* prefix_stack,
-				const bool is_attribute,
-				const long index)
+                                PrefixStack<stringT, string_adaptorT>* prefix_stack,
+                                const bool is_attribute)
 {
-  std::map<stringT, stringT>& current = *(prefix_stack->rbegin());
-
   stringT namespaceURI = node.getNamespaceURI();
   if(!string_adaptorT::empty(namespaceURI))
   {
-    std::pair<bool, stringT> prefix = is_uri_declared(prefix_stack, namespaceURI);
-    
-    if(!prefix.first)
-    {
-      current[namespaceURI] = prefix.second = node.getPrefix();
-      if(is_attribute && string_adaptorT::empty(prefix.second))
-      {
-	std::ostringstream os;
-	os << 'a' << stream.iword(index)++;
-	current[namespaceURI] = prefix.second = string_adaptorT::construct_from_utf8(os.str().c_str());
-      } // if ...
-    } // if ...
+    stringT prefix = prefix_stack->prefix(namespaceURI, node.getPrefix(), is_attribute);
+    if(!is_attribute)
+      prefix_stack->current().element_prefix = prefix;
 
-    if(!string_adaptorT::empty(prefix.second))
-      stream << prefix.second << Arabica::text::Unicode<charT>::COLON;
+    output_prefix<stringT, string_adaptorT>(stream, prefix);
     stream << node.getLocalName();
   }
   else
+  {
+    prefix_stack->no_namespace(is_attribute);
     stream << node.getNodeName();
+  } // if ...
 } // check_and_output_node_name
 
 template<class stringT, class string_adaptorT, class charT>
@@ -129,38 +197,32 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
 {
   typedef Arabica::text::Unicode<charT> UnicodeT;
 
+  typedef PrefixStack<stringT, string_adaptorT> PrefixStackT;
+
   static const int index = std::ios_base::xalloc();
-  std::vector<std::map<stringT, stringT> >* prefix_stack;
+  PrefixStackT* prefix_stack = static_cast<PrefixStackT*>(stream.pword(index));
   
-  if(stream.pword(index) != 0)
-  {
-    prefix_stack = static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
-    prefix_stack->push_back(std::map<stringT, stringT>());
-  }
+  if(prefix_stack != 0)
+    prefix_stack->push();
   else
   {
-    prefix_stack = new std::vector<std::map<stringT, stringT> >;
+    prefix_stack = new PrefixStackT;
     stream.pword(index) = prefix_stack;
-    stream.iword(index) = 0;
+    prefix_stack->push();
 
-    std::map<stringT, stringT> prefixes;
+    std::map<stringT, stringT>& prefixes = prefix_stack->current().declared;
     for(DOM::Node<stringT, string_adaptorT> p = node.getParentNode(); 
         (p != 0) && (p.getNodeType() == DOM::Node_base::ELEMENT_NODE); 
         p = p.getParentNode())
     {
       if(string_adaptorT::empty(p.getNamespaceURI()))
         continue;
-      if(prefixes.find(p.getNamespaceURI()) == prefixes.end())
-        prefixes[p.getNamespaceURI()] = p.getPrefix();
+      prefixes.insert(std::make_pair(p.getPrefix(), p.getNamespaceURI()));
     } // for ...
-
-    prefix_stack->push_back(prefixes);
   } // if ...
 
-  std::map<stringT, stringT>& current = *(prefix_stack->rbegin());
-
   // is element namespace URI declared?
-  check_and_output_node_name(stream, node, prefix_stack, false, index);
+  check_and_output_node_name(stream, node, prefix_stack, false);
   
   const DOM::NamedNodeMap<stringT, string_adaptorT> attrs = node.getAttributes();
   std::vector<DOM::Node<stringT, string_adaptorT> > attrNodes;
@@ -178,7 +240,7 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
        isXmlns<stringT, string_adaptorT, charT>(attr.getPrefix()))
       continue;
     stream << UnicodeT::SPACE;
-    check_and_output_node_name(stream, attr, prefix_stack, true, index);
+    check_and_output_node_name(stream, attr, prefix_stack, true);
     stream  << UnicodeT::EQUALS_SIGN
             << UnicodeT::QUOTATION_MARK;
     stringT value = attr.getNodeValue();
@@ -188,7 +250,12 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
     stream << UnicodeT::QUOTATION_MARK;
   }
 
-  for(typename std::map<stringT, stringT>::const_iterator i = current.begin(), e = current.end();
+  std::set<std::pair<stringT, stringT> > declarations; // URI and prefix
+  const std::map<stringT, stringT>& current = prefix_stack->current().declared;
+  for(typename std::map<stringT, stringT>::const_iterator i = current.begin(), e = current.end(); i != e; ++i)
+    declarations.insert(std::make_pair(i->second, i->first));
+
+  for(typename std::set<std::pair<stringT, stringT> >::const_iterator i = declarations.begin(), e = declarations.end();
       i != e;
       ++i)
   {
@@ -216,16 +283,24 @@ void prefix_mapper_pop(std::basic_ostream<charT, traitsT>& stream,
                        int index, 
                        bool output)
 {
-  std::vector<std::map<stringT, stringT> >* prefix_stack = 
-    static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
+  typedef PrefixStack<stringT, string_adaptorT> PrefixStackT;
+  PrefixStackT* prefix_stack = static_cast<PrefixStackT*>(stream.pword(index));
 
   if(output)
-    check_and_output_node_name(stream, node, prefix_stack, false, index);
+  {
+    if(string_adaptorT::empty(node.getNamespaceURI()))
+      stream << node.getNodeName();
+    else
+    {
+      output_prefix<stringT, string_adaptorT>(stream, prefix_stack->current().element_prefix);
+      stream << node.getLocalName();
+    } // if ...
+  } // if ...
 
-  prefix_stack->pop_back();
+  prefix_stack->pop();
   if(prefix_stack->empty())
   {
-    delete static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
+    delete prefix_stack;
     stream.pword(index) = 0;
   } // if ...
 } // prefix_mapper_pop
-- 
2.43.0


From ad5c81f7bf22044e4502422773b465b39c0dae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:26 +0000
Subject: [PATCH 084/123] fix: the expat wrapper confused external entities
 that share a system identifier

---
 include/SAX/wrappers/saxexpat.hpp | 53 +++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 5b033dd..ec21f5a 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -22,7 +22,9 @@
 #include <Arabica/StringAdaptor.hpp>
 #include <SAX/helpers/AttributeDefaults.hpp>
 #include <typeinfo>
+#include <algorithm>
 #include <map>
+#include <vector>
 #include <Arabica/getparam.hpp>
 
 namespace Arabica
@@ -326,6 +328,7 @@ class expat_wrapper :
         wrapper_.nsSupport_.reset();
         wrapper_.namespaceContextCreated_.clear();
         wrapper_.declaredExternalEnts_.clear();
+        wrapper_.openExternalEnts_.clear();
         XML_ParserReset(wrapper_.parser_, 0);
       } // ~ParseGuard
       expat_wrapper& wrapper_;
@@ -337,6 +340,7 @@ class expat_wrapper :
     void setCallbacks();
     void startElementNoNS(const char* qName, const char** atts);
     void endElementNoNS(const char* qName);
+    string_type externalEntityName(const XML_Char* context, const string_type& id) const;
     void convertXML_Content(std::ostream& os, const XML_Content* model, bool isChild = false);
 
     // member variables
@@ -363,7 +367,9 @@ class expat_wrapper :
     const SAX::NamespaceConstants<string_type, string_adaptor> nsc_;
     const SAX::AttributeDefaults<string_type, string_adaptor> attrDefaults_;
 
-    std::map<string_type, string_type> declaredExternalEnts_;
+    typedef std::multimap<string_type, string_type> ExternalEnts;
+    ExternalEnts declaredExternalEnts_; // several entities can share an identifier
+    std::vector<string_type> openExternalEnts_;
     std::vector<bool> namespaceContextCreated_;
 }; // class expat_wrapper
 
@@ -1006,6 +1012,43 @@ void expat_wrapper<string_type, T0, T1>::skippedEntity(const XML_Char *entityNam
     contentHandler_->skippedEntity(SA::construct_from_utf8(entityName));
 } // skippedEntity
 
+// Which of the entities declared with this identifier is being referred to?
+// When it's a general entity, context names the entities expat has open,
+// while there's no context for parameter entities and the external subset.
+template<class string_type, class T0, class T1>
+string_type expat_wrapper<string_type, T0, T1>::externalEntityName(const XML_Char* context, const string_type& id) const
+{
+  std::vector<string_type> open;
+  for(const XML_Char* c = context; c && *c; )
+  {
+    const XML_Char* end = c;
+    while(*end && *end != '\f')
+      ++end;
+    open.push_back(SA::construct_from_utf8(c, static_cast<int>(end - c)));
+    c = *end ? end + 1 : end;
+  } // for ...
+
+  typedef typename ExternalEnts::const_iterator Iterator;
+  std::pair<Iterator, Iterator> declared = declaredExternalEnts_.equal_range(id);
+  for(Iterator i = declared.first; i != declared.second; ++i)
+  {
+    if(context)
+    {
+      if(std::find(open.begin(), open.end(), i->second) != open.end() &&
+         std::find(openExternalEnts_.begin(), openExternalEnts_.end(), i->second) == openExternalEnts_.end())
+        return i->second;
+    }
+    else
+    {
+      const std::string name = SA::asStdString(i->second);
+      if(name[0] == '%' || name[0] == '[')
+        return i->second;
+    } // if ...
+  } // for ...
+
+  return (declared.first != declared.second) ? declared.first->second : emptyString_;
+} // externalEntityName
+
 template<class string_type, class T0, class T1>
 int expat_wrapper<string_type, T0, T1>::externalEntityRefHandler(XML_Parser parser, 
                                                                       const XML_Char* context,
@@ -1016,11 +1059,7 @@ int expat_wrapper<string_type, T0, T1>::externalEntityRefHandler(XML_Parser pars
   string_type pubId(SA::construct_from_utf8(publicId));
   string_type sysId(SA::construct_from_utf8(systemId));
 
-  string_type entityName;
-  if(systemId)
-    entityName = declaredExternalEnts_[sysId];
-  else if(publicId)
-    entityName = declaredExternalEnts_[pubId];
+  string_type entityName = externalEntityName(context, systemId ? sysId : pubId);
 
   if(!externalResolving_)
   {
@@ -1053,7 +1092,9 @@ int expat_wrapper<string_type, T0, T1>::externalEntityRefHandler(XML_Parser pars
 
   XML_Parser externalParser = XML_ExternalEntityParserCreate(parser, context, 0);
 
+  openExternalEnts_.push_back(entityName);
   bool ok = do_parse(source, externalParser);
+  openExternalEnts_.pop_back();
 
   XML_ParserFree(externalParser);
 
-- 
2.43.0


From 25127f6dbad7b37d9a5843c0b581af918357ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:26 +0000
Subject: [PATCH 085/123] fix: the expat wrapper reported attribute
 declarations that have no effect

---
 include/SAX/wrappers/saxexpat.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index ec21f5a..28a2948 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -24,6 +24,7 @@
 #include <typeinfo>
 #include <algorithm>
 #include <map>
+#include <set>
 #include <vector>
 #include <Arabica/getparam.hpp>
 
@@ -329,6 +330,7 @@ class expat_wrapper :
         wrapper_.namespaceContextCreated_.clear();
         wrapper_.declaredExternalEnts_.clear();
         wrapper_.openExternalEnts_.clear();
+        wrapper_.declaredAttrs_.clear();
         XML_ParserReset(wrapper_.parser_, 0);
       } // ~ParseGuard
       expat_wrapper& wrapper_;
@@ -370,6 +372,7 @@ class expat_wrapper :
     typedef std::multimap<string_type, string_type> ExternalEnts;
     ExternalEnts declaredExternalEnts_; // several entities can share an identifier
     std::vector<string_type> openExternalEnts_;
+    std::set<std::pair<std::string, std::string> > declaredAttrs_;
     std::vector<bool> namespaceContextCreated_;
 }; // class expat_wrapper
 
@@ -883,7 +886,8 @@ void expat_wrapper<string_type, T0, T1>::attListDeclaration(const XML_Char* elna
   The "isrequired" parameter will be true and the default value will
   be NULL in the case of "#REQUIRED". If "isrequired" is true and
   default is non-NULL, then this is a "#FIXED" default. */
-  if(declHandler_)
+  // only the first declaration of an attribute has any effect
+  if(declHandler_ && declaredAttrs_.insert(std::make_pair(std::string(elname), std::string(attname))).second)
   {
     const string_type* defType = dflt ? &emptyString_ : &attrDefaults_.implied;
     if(isrequired)
-- 
2.43.0


From 56566db6ca61907edd86545d995c0314f8bb590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:26 +0000
Subject: [PATCH 086/123] fix: SAX2DOM took attributes whose default is empty
 to have none

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index cea5786..a6948fd 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -4,6 +4,7 @@
 #include <SAX/XMLReader.hpp>
 #include <SAX/helpers/DefaultHandler.hpp>
 #include <SAX/helpers/AttributeTypes.hpp>
+#include <SAX/helpers/AttributeDefaults.hpp>
 #include <SAX/filter/TextCoalescer.hpp>
 #include <DOM/Simple/DOMImplementation.hpp>
 #include <DOM/Simple/NotationImpl.hpp>
@@ -179,6 +180,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     EntityResolverT* entityResolver_;
     ErrorHandlerT* errorHandler_;
     Arabica::SAX::AttributeTypes<stringT, string_adaptorT> attributeTypes_;
+    Arabica::SAX::AttributeDefaults<stringT, string_adaptorT> attributeDefaults_;
 
   protected:
     void setParserFeatures(XMLReaderInterfaceT& parser) const
@@ -377,12 +379,12 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     virtual void attributeDecl(const stringT& elementName,
                                const stringT& attributeName,
                                const stringT& type,
-                               const stringT& /*valueDefault*/,
+                               const stringT& valueDefault,
                                const stringT& value)
     {
       if(!documentType_)
         return;
-      if(!string_adaptorT::empty(value))
+      if((valueDefault != attributeDefaults_.implied) && (valueDefault != attributeDefaults_.required)) // the default can be empty
         documentType_->addDefaultAttr(elementName, attributeName, value);
       if(type == attributeTypes_.id)
         documentType_->addElementId(attributeName);
-- 
2.43.0


From e5713cfd3d8924687a98b22f90b82dec2dfbd65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:47 +0000
Subject: [PATCH 087/123] fix: an attribute declared an ID for one element was
 an ID on every element

---
 include/DOM/SAX2DOM/DocumentTypeImpl.hpp | 4 ++--
 include/DOM/SAX2DOM/SAX2DOM.hpp          | 2 +-
 include/DOM/Simple/AttrImpl.hpp          | 4 ++--
 include/DOM/Simple/DocumentTypeImpl.hpp  | 9 +++++----
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/DOM/SAX2DOM/DocumentTypeImpl.hpp b/include/DOM/SAX2DOM/DocumentTypeImpl.hpp
index f6835a6..a50d420 100644
--- a/include/DOM/SAX2DOM/DocumentTypeImpl.hpp
+++ b/include/DOM/SAX2DOM/DocumentTypeImpl.hpp
@@ -53,9 +53,9 @@ class DocumentType : public Arabica::SimpleDOM::DocumentTypeImpl<stringT, string
       elem->setAttributeNode(attr);
     } // addDefaultAttr
 
-    void addElementId(const stringT& elementName)
+    void addElementId(const stringT& elementName, const stringT& attributeName)
     {
-      BaseDT::addElementId(elementName);
+      BaseDT::addElementId(elementName, attributeName);
     } // addElementId
 }; // class DOMImplementation
 
diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index a6948fd..96af940 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -387,7 +387,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       if((valueDefault != attributeDefaults_.implied) && (valueDefault != attributeDefaults_.required)) // the default can be empty
         documentType_->addDefaultAttr(elementName, attributeName, value);
       if(type == attributeTypes_.id)
-        documentType_->addElementId(attributeName);
+        documentType_->addElementId(elementName, attributeName);
     } // attributeDecl
 
     static bool isParameterEntity(const stringT& name)
diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index e68e9b3..651b5c1 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -151,8 +151,8 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
         DocumentTypeImpl<stringT, string_adaptorT>* docType = dynamic_cast<DocumentTypeImpl<stringT, string_adaptorT>*>(NodeT::ownerDoc_->getDoctype());
         if(!docType || docType->getElementIds()->empty())
           return;
-        std::vector<stringT>* elemIds = docType->getElementIds();
-        if(std::find(elemIds->begin(), elemIds->end(), *name_) != elemIds->end())
+        std::vector<std::pair<stringT, stringT> >* elemIds = docType->getElementIds();
+        if(std::find(elemIds->begin(), elemIds->end(), std::make_pair(element->getNodeName(), *name_)) != elemIds->end())
           NodeT::ownerDoc_->setElementId(this);
       } // if(ownerDoc_)
     } // setOwnerElement
diff --git a/include/DOM/Simple/DocumentTypeImpl.hpp b/include/DOM/Simple/DocumentTypeImpl.hpp
index 568e2e6..19c7886 100644
--- a/include/DOM/Simple/DocumentTypeImpl.hpp
+++ b/include/DOM/Simple/DocumentTypeImpl.hpp
@@ -124,7 +124,8 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
       return &elements_;
     } // getElements
 
-    std::vector<stringT>* getElementIds() 
+    // pairs of element and attribute names
+    std::vector<std::pair<stringT, stringT> >* getElementIds() 
     {
       return &IDs_;
     } // getIDs
@@ -157,9 +158,9 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
       elements_.setNamedItem(element);
     } // addElements
 
-    void addElementId(const stringT& elementId)
+    void addElementId(const stringT& elementName, const stringT& attributeName)
     {
-      IDs_.push_back(elementId);
+      IDs_.push_back(std::make_pair(elementName, attributeName));
     } // addId
 
   private:
@@ -172,7 +173,7 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
     NamedNodeMapT entities_;
     NamedNodeMapT notations_;
     NamedNodeMapT elements_;
-    std::vector<stringT> IDs_;
+    std::vector<std::pair<stringT, stringT> > IDs_;
     unsigned int refCount_;
 }; // class DOMImplementation
 
-- 
2.43.0


From 1debbe7b3f1d17b7a8aef9b1326f968de2f3b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:56 +0000
Subject: [PATCH 088/123] fix: getElementById found elements that are not in
 the document

---
 include/DOM/Simple/DocumentImpl.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index fc16c86..2b6931a 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -366,10 +366,11 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMElement_implT* getElementById(const stringT& elementId) const
     {
-      typename std::set<AttrImplT*>::const_iterator i = std::find_if(idNodes_.begin(), idNodes_.end(), valueIs<stringT, string_adaptorT>(elementId));
-      if(i == idNodes_.end())
-        return 0;
-      return (*i)->getOwnerElement();
+      valueIs<stringT, string_adaptorT> isElementId(elementId);
+      for(typename std::set<AttrImplT*>::const_iterator i = idNodes_.begin(), e = idNodes_.end(); i != e; ++i)
+        if(isElementId(*i) && isInDocument((*i)->getOwnerElement()))
+          return (*i)->getOwnerElement();
+      return 0;
     } // getElementById
 
     ////////////////////////////////////////////////////////
@@ -519,6 +520,13 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     const stringT& empty_string() const { return empty_; }
 
   private:
+    bool isInDocument(const DOMNode_implT* node) const
+    {
+      while((node != 0) && (node->getNodeType() != DOM::Node_base::DOCUMENT_NODE))
+        node = node->getParentNode();
+      return (node != 0);
+    } // isInDocument
+
     // there is at most one element, once newChild is here and goingChild is not
     void checkOneElement(DOMNode_implT* newChild, DOMNode_implT* goingChild) const
     {
-- 
2.43.0


From 6d12e1c6f5892dd2302153f4792b6e73ed9cfdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:39 +0000
Subject: [PATCH 089/123] fix: the expat wrapper leaked a parser when a handler
 threw inside an external entity

---
 include/SAX/wrappers/saxexpat.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 28a2948..030031e 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -339,6 +339,17 @@ class expat_wrapper :
       ParseGuard& operator=(const ParseGuard&);
     }; // struct ParseGuard
 
+    // frees the parser for an external entity, however that entity's parse ends
+    struct ExternalParser
+    {
+      explicit ExternalParser(XML_Parser p) : parser(p) { }
+      ~ExternalParser() { XML_ParserFree(parser); }
+      const XML_Parser parser;
+    private:
+      ExternalParser(const ExternalParser&);
+      ExternalParser& operator=(const ExternalParser&);
+    }; // struct ExternalParser
+
     void setCallbacks();
     void startElementNoNS(const char* qName, const char** atts);
     void endElementNoNS(const char* qName);
@@ -1094,14 +1105,12 @@ int expat_wrapper<string_type, T0, T1>::externalEntityRefHandler(XML_Parser pars
     source.setSystemId(sysId);
   } // if ...
 
-  XML_Parser externalParser = XML_ExternalEntityParserCreate(parser, context, 0);
+  ExternalParser external(XML_ExternalEntityParserCreate(parser, context, 0));
 
   openExternalEnts_.push_back(entityName);
-  bool ok = do_parse(source, externalParser);
+  bool ok = do_parse(source, external.parser);
   openExternalEnts_.pop_back();
 
-  XML_ParserFree(externalParser);
-
   if(!SA::empty(entityName) && lexicalHandler_)
     lexicalHandler_->endEntity(entityName);
 
-- 
2.43.0


From 7aaf846b76d2b9db651afd6b5528f3e2c3b6a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:21 +0000
Subject: [PATCH 090/123] fix: SAX2DOM could not parse prefixed names with
 namespaces off

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 96af940..61acdb5 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -200,7 +200,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     } // endDocument
 
     virtual void startElement(const stringT& namespaceURI, 
-			      const stringT& /*localName*/,
+			      const stringT& localName,
                               const stringT& qName, 
 			      const AttributesT& atts)
     {
@@ -209,7 +209,8 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
       try 
       {
-        DOM::Element<stringT, string_adaptorT> elem = document_.createElementNS(namespaceURI, qName);
+        const bool namespaces = !string_adaptorT::empty(localName);
+        DOM::Element<stringT, string_adaptorT> elem = namespaces ? document_.createElementNS(namespaceURI, qName) : document_.createElement(qName);
         currentNode_.appendChild(elem);
 
         // attributes here
@@ -218,7 +219,10 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
           stringT attName = atts.getQName(i);
           if(string_adaptorT::empty(attName))
             attName = atts.getLocalName(i);
-          elem.setAttributeNS(atts.getURI(i), attName, atts.getValue(i));
+          if(namespaces)
+            elem.setAttributeNS(atts.getURI(i), attName, atts.getValue(i));
+          else
+            elem.setAttribute(attName, atts.getValue(i));
         }
 
         currentNode_ = elem;
-- 
2.43.0


From c886c065d846cc0238f7102e7cd4207cf1e6b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:21 +0000
Subject: [PATCH 091/123] fix: SAX2DOM took references in the value of an
 entity for text

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 61acdb5..d4e4b40 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -406,13 +406,15 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
         return;
 
       static const stringT LEFT_ANGLE_BRACKET = string_adaptorT::construct_from_utf8("<");
+      static const stringT AMPERSAND = string_adaptorT::construct_from_utf8("&");
 
       EntityT* entity = new EntityT(0, name, string_adaptorT::construct_from_utf8(""), string_adaptorT::construct_from_utf8(""), string_adaptorT::construct_from_utf8(""));
       declaredEntities_.insert(std::make_pair(name, entity));
       documentType_->addEntity(entity);
       DOM::Node<stringT, string_adaptorT> n = entity;
 
-      if(string_adaptorT::find(value, LEFT_ANGLE_BRACKET) == string_adaptorT::npos())
+      if(string_adaptorT::find(value, LEFT_ANGLE_BRACKET) == string_adaptorT::npos() &&
+         string_adaptorT::find(value, AMPERSAND) == string_adaptorT::npos())
       {
         n.appendChild(document_.createTextNode(value));
         return;
-- 
2.43.0


From 88a4655141d0c0963e9c192d4f8d9bf4c7defd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:42 +0000
Subject: [PATCH 092/123] fix: processing-instruction('') selects nothing,
 decided where the node test is chosen

---
 include/XPath/impl/xpath_node_test.hpp | 12 +++++++-----
 include/XPath/impl/xpath_step.hpp      |  2 ++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/XPath/impl/xpath_node_test.hpp b/include/XPath/impl/xpath_node_test.hpp
index 6f64eb1..a7de3a1 100644
--- a/include/XPath/impl/xpath_node_test.hpp
+++ b/include/XPath/impl/xpath_node_test.hpp
@@ -235,20 +235,22 @@ template<class string_type, class string_adaptor>
 class ProcessingInstructionNodeTest : public NodeTest<string_type, string_adaptor>
 {
 public:
-  ProcessingInstructionNodeTest() : any_(true), target_() { }
-  ProcessingInstructionNodeTest(const string_type& target) : any_(false), target_(target) { }
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return any_ ? new ProcessingInstructionNodeTest() : new ProcessingInstructionNodeTest(target_); }
+  ProcessingInstructionNodeTest() : target_() { }
+  ProcessingInstructionNodeTest(const string_type& target) : target_(target) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new ProcessingInstructionNodeTest(target_); }
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
     if(node.getNodeType() != DOM::Node_base::PROCESSING_INSTRUCTION_NODE)
       return false;
 
-    return any_ || (node.getNodeName() == target_);
+    if(string_adaptor::empty(target_))
+      return true;
+
+    return node.getNodeName() == target_;
   } // test
 
 private:
-  bool any_;
   string_type target_;
 }; // ProcessingInstructionNodeTest
 
diff --git a/include/XPath/impl/xpath_step.hpp b/include/XPath/impl/xpath_step.hpp
index 7cac94e..6582848 100644
--- a/include/XPath/impl/xpath_step.hpp
+++ b/include/XPath/impl/xpath_step.hpp
@@ -428,6 +428,8 @@ private:
           
           string_type target = string_adaptor::construct(node->value.begin(), node->value.end());
           ++node;
+          if(string_adaptor::empty(target)) // no target is, while to the node test it means any target at all
+            return new FailNodeTest<string_type, string_adaptor>();
           return new ProcessingInstructionNodeTest<string_type, string_adaptor>(target);
         } // case ProcessingInstruction_id
       
-- 
2.43.0


From 3ca3bf7da0d3143dab5c98acf0584dd36dd28c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:55 +0000
Subject: [PATCH 093/123] fix: XSLT output wrote the text of CDATA sections
 twice when it split them, and did not split text given in pieces

---
 include/XSLT/impl/xslt_output.hpp |  2 +-
 include/XSLT/impl/xslt_sink.hpp   | 44 ++++++++++++++-----------------
 2 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index 1ca6a63..efffea4 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -349,7 +349,7 @@ private:
 
   bool isCDATA()
   {
-    if(element_stack_.empty())
+    if(text_mode_ || element_stack_.empty())
       return false;
     QName<string_type, string_adaptor> currentElement = element_stack_.top();
     return cdataElements_.find(currentElement) != cdataElements_.end();
diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 6cf42ab..12acb70 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -178,29 +178,10 @@ protected:
   { 
     close_element_if_empty();
 
-    if(!disable_output_escaping_ && !in_cdata_)
+    if(in_cdata_)
+      string_adaptor::append(cdata_, ch);
+    else if(!disable_output_escaping_)
       std::for_each(string_adaptor::begin(ch), string_adaptor::end(ch), Arabica::XML::text_escaper<typename string_adaptor::value_type>(stream_));
-    else if(in_cdata_) 
-    {
-      size_t breakAt = string_adaptor::find(ch, SC::CDATAEnd);
-      if(breakAt == string_adaptor::npos())
-      {
-        stream_ << ch;
-        return;
-      }
-      size_t start = 0;
-      do
-      {
-        breakAt += 2;
-        stream_ << string_adaptor::substr(ch, start, breakAt);
-        do_end_CDATA();
-        start = breakAt;
-        do_start_CDATA();
-        breakAt = string_adaptor::find(ch, SC::CDATAEnd, breakAt);
-      }
-      while(breakAt != string_adaptor::npos());
-      stream_ << string_adaptor::substr(ch, start);
-    }
     else
       stream_ << ch;
   } // characters
@@ -210,13 +191,27 @@ protected:
     close_element_if_empty();
 
     in_cdata_ = true;
-    stream_ << SC::CDATAStart;
+    cdata_ = string_adaptor::empty_string();
   } // do_start_CDATA
 
   void do_end_CDATA()
   {
     in_cdata_ = false;
-    stream_ << SC::CDATAEnd;
+
+    stream_ << SC::CDATAStart;
+    size_t start = 0;
+    size_t breakAt = string_adaptor::find(cdata_, SC::CDATAEnd);
+    while(breakAt != string_adaptor::npos())
+    {
+      breakAt += 2;
+      stream_ << string_adaptor::substr(cdata_, start, breakAt - start)
+              << SC::CDATAEnd
+              << SC::CDATAStart;
+      start = breakAt;
+      breakAt = string_adaptor::find(cdata_, SC::CDATAEnd, start);
+    } // while ...
+    stream_ << string_adaptor::substr(cdata_, start)
+            << SC::CDATAEnd;
   } // do_end_CDATA
 
   void do_comment(const string_type& ch)
@@ -337,6 +332,7 @@ private:
   std::basic_ostream<typename string_adaptor::value_type>& stream_;
   bool disable_output_escaping_;
   bool in_cdata_;
+  string_type cdata_;
   bool empty_;
   bool seen_root_;
   int indent_;
-- 
2.43.0


From 369ab882253e9d964773d53384cacb3f7e43c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:55 +0000
Subject: [PATCH 094/123] fix: empty text closed the start tag in XSLT output,
 losing the attributes after it

---
 include/XSLT/impl/xslt_output.hpp | 14 ++++++++++++++
 include/XSLT/impl/xslt_sink.hpp   |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index efffea4..e6fb5e8 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -24,6 +24,7 @@ protected:
   Output() :
     buffering_(0),
     pending_element_(false),
+    empty_text_(false),
     pending_text_(false),
     pending_attribute_(-1),
     text_mode_(false),
@@ -71,6 +72,7 @@ public:
 
     atts_.clear();
     pending_element_ = true;
+    empty_text_ = false;
 
     return true;
   } // start_element
@@ -86,8 +88,12 @@ public:
     if(pop_if_buffering())
       return;
 
+    bool empty_text = pending_element_ && empty_text_;
     flush_current();
 
+    if(empty_text && !text_mode_)
+      do_characters(string_adaptor::empty_string());
+
     if(!text_mode_)
       do_end_element(element_stack_.top().qname, element_stack_.top().namespaceURI);
 
@@ -176,6 +182,13 @@ public:
 
   void characters(const string_type& ch)
   {
+    if(string_adaptor::empty(ch))
+    {
+      if(!buffering_ && (pending_attribute_ == -1))
+        empty_text_ = true;
+      return;
+    } // if ...
+
     if(buffering_)
     {
       if(buffering_ == 1)
@@ -379,6 +392,7 @@ private:
 
   int buffering_;
   bool pending_element_;
+  bool empty_text_;
   bool pending_text_;
   int pending_attribute_;
   bool text_mode_;
diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 12acb70..654263a 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -378,6 +378,9 @@ protected:
 
   void do_characters(const string_type& ch)
   {
+    if(string_adaptor::empty(ch))
+      return;
+
     DOM::Node<string_type, string_adaptor> lc = current().getLastChild();
     if(lc == 0 || lc.getNodeType() != DOM::Node_base::TEXT_NODE)
       current().appendChild(document().createTextNode(ch));
-- 
2.43.0


From 70faa9a83a2cfe986441fdd5919e0bc8b8750e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:55 +0000
Subject: [PATCH 095/123] fix: XSLT output lost the document type after a
 comment, or when the XML declaration was omitted

---
 include/XSLT/impl/xslt_sink.hpp | 50 ++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 654263a..3c2d410 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -90,6 +90,7 @@ public:
     disable_output_escaping_(false),
     in_cdata_(false),
     empty_(false),
+    seen_decl_(true),
     seen_root_(true),
     indent_(-1),
     out_again_(false)
@@ -101,6 +102,7 @@ public:
     disable_output_escaping_(rhs.disable_output_escaping_),
     in_cdata_(rhs.in_cdata_),
     empty_(false),
+    seen_decl_(rhs.seen_decl_),
     seen_root_(rhs.seen_root_),
     indent_(rhs.indent_),
     out_again_(rhs.out_again_),
@@ -124,6 +126,7 @@ protected:
 
   void do_start_document(const Settings& settings)
   {
+    seen_decl_ = false;
     seen_root_ = false;
     settings_ = settings;
     if(setting(SC::indent) == SC::yes)
@@ -138,8 +141,10 @@ protected:
                         const string_type& /* namespaceURI */,
                         const SAX::Attributes<string_type, string_adaptor>& atts)
   {
+    if(!seen_decl_)
+      do_decl();
     if(!seen_root_)
-      do_decl(qName);
+      do_doctype(qName);
 
     if(empty_)
       stream_ << ">";
@@ -159,9 +164,6 @@ protected:
   void do_end_element(const string_type& qName, 
 		                  const string_type& /* namespaceURI */)
   { 
-    if(!seen_root_)
-      do_decl(string_adaptor::empty_string());
-
     preoutdent(empty_);
 
     if(empty_)
@@ -248,8 +250,8 @@ private:
       empty_ = false;
     }
 
-    if(!seen_root_)
-      do_decl(string_adaptor::empty_string());
+    if(!seen_decl_)
+      do_decl();
   } // close_element_if_empty
 
   void indent()
@@ -286,8 +288,10 @@ private:
     out_again_ = true;
   } // outdent
  
-  void do_decl(const string_type& qName)
+  void do_decl()
   {
+    seen_decl_ = true;
+
     if((setting(SC::method) == SC::text) || (setting(SC::omit_xml_declaration) == SC::yes))
       return;
 
@@ -303,23 +307,24 @@ private:
         stream_ << " standalone=\"" << s << "\"";
     }
     stream_ << "?>\n";
+  } // do_decl 
 
-    if(!string_adaptor::empty(qName))
-    {
-      string_type pub = setting(SC::doctype_public);
-      string_type sys = setting(SC::doctype_system);
-
-      if(!string_adaptor::empty(sys))
-      {
-        stream_ << "<!DOCTYPE " << qName << "\n";
-        if(!string_adaptor::empty(pub))
-          stream_ << "  PUBLIC \"" << pub << "\" \"" << sys << "\">\n";
-	else
-          stream_ << "  SYSTEM \"" << sys << "\">\n";
-      } // if(!sys.empty())
-    }
+  void do_doctype(const string_type& qName)
+  {
     seen_root_ = true;
-  } // do_decl 
+
+    string_type pub = setting(SC::doctype_public);
+    string_type sys = setting(SC::doctype_system);
+    if(string_adaptor::empty(sys))
+      return;
+
+    const char quote = (string_adaptor::find(sys, string_adaptor::construct_from_utf8("\"")) == string_adaptor::npos()) ? '\"' : '\'';
+    stream_ << "<!DOCTYPE " << qName << "\n";
+    if(!string_adaptor::empty(pub))
+      stream_ << "  PUBLIC \"" << pub << "\" " << quote << sys << quote << ">\n";
+    else
+      stream_ << "  SYSTEM " << quote << sys << quote << ">\n";
+  } // do_doctype
 
   string_type setting(const string_type& name)
   {
@@ -334,6 +339,7 @@ private:
   bool in_cdata_;
   string_type cdata_;
   bool empty_;
+  bool seen_decl_;
   bool seen_root_;
   int indent_;
   bool out_again_;
-- 
2.43.0


From d729974c424b09cbbafa6a99bbc090a400400885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:55 +0000
Subject: [PATCH 096/123] fix: XSLT sinks used again kept state from the
 transformation before

---
 include/XSLT/impl/xslt_output.hpp | 12 ++++++++++--
 include/XSLT/impl/xslt_sink.hpp   | 12 +++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index e6fb5e8..82c55df 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -40,8 +40,16 @@ public:
   {
     typename Settings::const_iterator method = settings.find(SC::method);
     text_mode_ = (method != settings.end() && method->second == SC::text);
-    if(text_mode_)
-      do_disableOutputEscaping(true);
+    do_disableOutputEscaping(text_mode_);
+
+    // forget anything an earlier transformation left behind
+    buffering_ = 0;
+    pending_element_ = false;
+    pending_text_ = false;
+    pending_attribute_ = -1;
+    element_stack_ = std::stack<QName<string_type, string_adaptor> >();
+    atts_.clear();
+    namespaceStack_ = NamespaceStack<string_type, string_adaptor>();
 
     cdataElements_ = cdataElements;
     do_start_document(settings);
diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 3c2d410..e5a0154 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -128,9 +128,11 @@ protected:
   {
     seen_decl_ = false;
     seen_root_ = false;
+    in_cdata_ = false;
+    empty_ = false;
+    out_again_ = false;
     settings_ = settings;
-    if(setting(SC::indent) == SC::yes)
-      indent_ = 0;
+    indent_ = (setting(SC::indent) == SC::yes) ? 0 : -1;
   } // do_start_document
 
   void do_end_document()
@@ -373,9 +375,9 @@ protected:
   void do_start_document(const Settings& settings)
   {
     typename Settings::const_iterator i = settings.find(SC::indent);
-    if((i != settings.end()) &&
-       (i->second == SC::yes))
-      indent_ = 0;
+    indent_ = ((i != settings.end()) && (i->second == SC::yes)) ? 0 : -1;
+    out_again_ = false;
+    current_ = documentFrag_;
   } // do_start_document
 
   void do_end_document()
-- 
2.43.0


From 1dc16d19a4a4b245bbc9d2a8ede8c2475d1d6a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:55 +0000
Subject: [PATCH 097/123] fix: XSLT indented inside text

---
 include/XSLT/impl/xslt_sink.hpp | 43 +++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index e5a0154..50f810c 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -93,7 +93,8 @@ public:
     seen_decl_(true),
     seen_root_(true),
     indent_(-1),
-    out_again_(false)
+    out_again_(false),
+    after_text_(false)
   { 
   } // StreamSink
 
@@ -106,6 +107,7 @@ public:
     seen_root_(rhs.seen_root_),
     indent_(rhs.indent_),
     out_again_(rhs.out_again_),
+    after_text_(rhs.after_text_),
     settings_(rhs.settings_)
   {
   } // StreamSink
@@ -131,6 +133,7 @@ protected:
     in_cdata_ = false;
     empty_ = false;
     out_again_ = false;
+    after_text_ = false;
     settings_ = settings;
     indent_ = (setting(SC::indent) == SC::yes) ? 0 : -1;
   } // do_start_document
@@ -161,6 +164,7 @@ protected:
       stream_ << '\"';
     }
     empty_ = true;
+    after_text_ = false;
   } // do_start_element
 
   void do_end_element(const string_type& qName, 
@@ -176,12 +180,16 @@ protected:
     outdent(empty_);
 
     empty_ = false;
+    after_text_ = false;
   } // do_end_element
 
   void do_characters(const string_type& ch)
   { 
     close_element_if_empty();
 
+    if(!string_adaptor::empty(ch))
+      after_text_ = true;
+
     if(in_cdata_)
       string_adaptor::append(cdata_, ch);
     else if(!disable_output_escaping_)
@@ -225,6 +233,8 @@ protected:
     stream_ << SC::CommentStart
 	    << ch
 	    << SC::CommentEnd;
+
+    after_text_ = false;
   } // do_comment
 
   void do_processing_instruction(const string_type& target,
@@ -237,6 +247,8 @@ protected:
 	    << " "
 	    << data
 	    << SC::PIEnd;
+
+    after_text_ = false;
   } // do_processing_instruction
 
   void do_disableOutputEscaping(bool disable) { disable_output_escaping_ = disable; }
@@ -261,11 +273,15 @@ private:
     if(indent_ == -1)
       return;
 
-    if(indent_ != 0)
-      stream_ << "\n";
+    // space next to text would be part of it
+    if(!after_text_)
+    {
+      if(indent_ != 0)
+        stream_ << "\n";
 
-    for(int i = 0; i != indent_; ++i)
-      stream_ << " "; 
+      for(int i = 0; i != indent_; ++i)
+        stream_ << " "; 
+    } // if ...
 
     indent_ += 2;
 
@@ -274,7 +290,7 @@ private:
 
   void preoutdent(bool empty)
   {
-    if(out_again_ && !empty)
+    if(out_again_ && !empty && !after_text_)
       stream_ << "\n";
   } // preoutdent
 
@@ -345,6 +361,7 @@ private:
   bool seen_root_;
   int indent_;
   bool out_again_;
+  bool after_text_;
   Settings settings_;
 
   bool operator==(const StreamSink&) const;
@@ -470,11 +487,10 @@ private:
     if(indent_ == -1)
       return;
 
-    string_type sps;
-    if(indent_ != 0)
+    if(indent_ != 0 && !after_text())
     {
       std::basic_string<typename string_adaptor::value_type> sps;
-      sps += SC::CARRIAGE_RETURN;
+      sps += SC::LINE_FEED;
       std::fill_n(std::back_inserter<std::basic_string<typename string_adaptor::value_type> >(sps), indent_, SC::SPACE);
       do_characters(string_adaptor::construct(sps));
     } // if ...
@@ -489,13 +505,20 @@ private:
     if(indent_ == -1)
       return;
 
-    if(out_again_)
+    if(out_again_ && !after_text())
       do_characters(SC::newline);
 
     indent_ -= 2;
     out_again_ = true;
   } // outdent
 
+  // space next to text would be part of it
+  bool after_text()
+  {
+    DOM::Node<string_type, string_adaptor> lc = current().getLastChild();
+    return (lc != 0) && (lc.getNodeType() == DOM::Node_base::TEXT_NODE || lc.getNodeType() == DOM::Node_base::CDATA_SECTION_NODE);
+  } // after_text
+
   DOM::Document<string_type, string_adaptor> document_;
   DOM::DocumentFragment<string_type, string_adaptor> documentFrag_;
   DOM::Node<string_type, string_adaptor> current_;
-- 
2.43.0


From 56a43d48231fdfee74a71cefe4c98e7f4465b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:55 +0000
Subject: [PATCH 098/123] fix: xsl:attribute could write a namespace
 declaration

---
 include/XSLT/impl/xslt_attribute.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/XSLT/impl/xslt_attribute.hpp b/include/XSLT/impl/xslt_attribute.hpp
index 8b8a141..e6f87e7 100644
--- a/include/XSLT/impl/xslt_attribute.hpp
+++ b/include/XSLT/impl/xslt_attribute.hpp
@@ -11,6 +11,8 @@ namespace XSLT
 template<class stringT, class adaptorT>
 class Attribute : public ItemContainer<stringT, adaptorT>
 {
+  typedef StylesheetConstant<stringT, adaptorT> SC;
+
 public:
   typedef stringT string_type;
   typedef adaptorT string_adaptor; 
@@ -52,6 +54,8 @@ public:
           throw SAX::SAXException("xsl:attribute Runtime Error - Undeclared prefix " + string_adaptor::asStdString(qn.prefix));
         namesp = ns->second;
       } // if(!qn.prefix.empty())
+      else if(name == SC::xmlns)
+        throw SAX::SAXException("xsl:attribute name attribute can not be xmlns");
     } // if ...
 
     context.sink().start_attribute(name, namesp);
-- 
2.43.0


From 788e6215243eb98acbb0eabf581b835783a5256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:00 +0000
Subject: [PATCH 099/123] fix: position() and current() were not restored after
 a nested xsl:for-each or xsl:apply-templates

---
 include/XSLT/impl/xslt_compiled_stylesheet.hpp |  3 +++
 include/XSLT/impl/xslt_execution_context.hpp   | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 86f1763..f468947 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -104,6 +104,9 @@ public:
 
     ExecutionContext<string_type, string_adaptor> context(*this, output_.get(), *error_output_);
 
+    LastFrame<string_type, string_adaptor> last(context, ns.size());
+    context.setPosition(initialNode, 1);
+
     // set up variables and so forth
     for(ParamListIterator pi = params_.begin(), pe = params_.end(); pi != pe; ++pi)
       (*pi)->declare(context);
diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 5ef9df4..02dca18 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -256,22 +256,33 @@ class LastFrame
 public:
   LastFrame(ExecutionContext<string_type, string_adaptor>& context, int last) : context_(context) 
   { 
+    save();
     oldLast_ = context_.setLast(last);
   } // LastFrame
 
   LastFrame(ExecutionContext<string_type, string_adaptor>& context, size_t last) : context_(context) 
   { 
+    save();
     oldLast_ = context_.setLast(static_cast<int>(last));
   } // LastFrame
 
   ~LastFrame()
   {
     context_.setLast(oldLast_);
+    context_.setPosition(oldCurrent_, oldPosition_);
   } // ~LastFrame
 
 private:
+  void save()
+  {
+    oldCurrent_ = context_.xpathContext().currentNode();
+    oldPosition_ = context_.xpathContext().position();
+  } // save
+
   ExecutionContext<string_type, string_adaptor>& context_;
   int oldLast_;
+  DOM::Node<string_type, string_adaptor> oldCurrent_;
+  int oldPosition_;
 
   LastFrame(const LastFrame&);
   LastFrame& operator=(const LastFrame&);
-- 
2.43.0


From 441e22386d6fb2b38be9d48f3bef68ed51ffa712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:11 +0000
Subject: [PATCH 100/123] fix: xsl:sort evaluated its keys at the wrong
 position, and kept the order of reverse axes

---
 include/XSLT/impl/xslt_sort.hpp | 129 ++++++++++++++++++++------------
 1 file changed, 82 insertions(+), 47 deletions(-)

diff --git a/include/XSLT/impl/xslt_sort.hpp b/include/XSLT/impl/xslt_sort.hpp
index b02aa77..331cfd3 100644
--- a/include/XSLT/impl/xslt_sort.hpp
+++ b/include/XSLT/impl/xslt_sort.hpp
@@ -2,6 +2,8 @@
 #define ARABICA_XSLT_SORT_HPP
 
 #include <algorithm>
+#include <vector>
+#include "xslt_execution_context.hpp"
 
 namespace Arabica
 {
@@ -49,7 +51,8 @@ public:
     validate(SC::order, allowed_orders, order);
     validate(SC::case_order, allowed_case_orders, caseorder);
 
-    if(datatype == SC::number)
+    is_number_ = (datatype == SC::number);
+    if(is_number_)
       if(order == SC::ascending)
         sort_fn_ = &Sort::numberAscending;
       else
@@ -64,10 +67,32 @@ public:
       sub_sort_->set_context(node, context);
   } // set_context
 
-  bool operator()(const DOMNode& n1, const DOMNode& n2) const
+  // what each node is ordered by, found once with the node current in the list being sorted
+  struct Value
   {
-    return (this->*sort_fn_)(n1, n2);
-  } // operator()
+    Value() : number(0) { }
+    string_type text;
+    double number;
+  }; // struct Value
+  typedef std::vector<Value> Values;
+
+  void values(const DOMNode& node, Values& found) const
+  {
+    Value v;
+    if(is_number_)
+      v.number = select_->evaluateAsNumber(node, context_->xpathContext());
+    else
+      v.text = select_->evaluateAsString(node, context_->xpathContext());
+    found.push_back(v);
+
+    if(sub_sort_)
+      sub_sort_->values(node, found);
+  } // values
+
+  bool less_than(const Values& v1, const Values& v2, size_t level = 0) const
+  {
+    return (this->*sort_fn_)(v1, v2, level);
+  } // less_than
 
   void add_sub_sort(Sort* sort)
   {
@@ -89,14 +114,14 @@ private:
 
   } // validate
 
-  typedef bool(Sort::*sortFn)(const DOMNode& n1, const DOMNode& n2) const;
-  bool numberAscending(const DOMNode& n1, const DOMNode& n2) const
+  typedef bool(Sort::*sortFn)(const Values& v1, const Values& v2, size_t level) const;
+  bool numberAscending(const Values& v1, const Values& v2, size_t level) const
   {
-    return numberSort(n1, n2, nanAscending, std::less<double>());
+    return numberSort(v1, v2, level, nanAscending, std::less<double>());
   } // numberAscending
-  bool numberDescending(const DOMNode& n1, const DOMNode& n2) const
+  bool numberDescending(const Values& v1, const Values& v2, size_t level) const
   {
-    return numberSort(n1, n2, nanDescending, std::greater<double>());
+    return numberSort(v1, v2, level, nanDescending, std::greater<double>());
   } // numberDescending
   static bool nanAscending(bool, bool nan2) 
   {
@@ -107,58 +132,49 @@ private:
     return !nan1;
   } // nanDescending
   template<class NanCompare, class NumberCompare>
-  bool numberSort(const DOMNode& n1, 
-                  const DOMNode& n2, 
+  bool numberSort(const Values& v1, 
+                  const Values& v2, 
+                  size_t level,
                   NanCompare nanCompare, 
                   NumberCompare compare) const
   {
-    double v1 = grabAsNumber(n1);
-    double v2 = grabAsNumber(n2);
+    double n1 = v1[level].number;
+    double n2 = v2[level].number;
 
-    bool nan1 = Arabica::XPath::isNaN(v1);
-    bool nan2 = Arabica::XPath::isNaN(v2);
+    bool nan1 = Arabica::XPath::isNaN(n1);
+    bool nan2 = Arabica::XPath::isNaN(n2);
 
-    if(((nan1 && nan2) || (v1 == v2)) && (sub_sort_))
-      return (*sub_sort_)(n1, n2);
+    if(((nan1 && nan2) || (n1 == n2)) && (sub_sort_))
+      return sub_sort_->less_than(v1, v2, level+1);
 
     if(nan1 || nan2)
       return nanCompare(nan1, nan2);
 
-    return compare(v1, v2);
+    return compare(n1, n2);
   } // numberSort
-  bool stringAscending(const DOMNode& n1, const DOMNode& n2) const
+  bool stringAscending(const Values& v1, const Values& v2, size_t level) const
   {
-    return stringSort(n1, n2, std::less<string_type>());
+    return stringSort(v1, v2, level, std::less<string_type>());
   } // stringAscending
-  bool stringDescending(const DOMNode& n1, const DOMNode& n2) const
+  bool stringDescending(const Values& v1, const Values& v2, size_t level) const
   {
-    return stringSort(n1, n2, std::greater<string_type>());
+    return stringSort(v1, v2, level, std::greater<string_type>());
   } // stringAscending
   template<class StringCompare>
-  bool stringSort(const DOMNode& n1, 
-                  const DOMNode& n2, 
+  bool stringSort(const Values& v1, 
+                  const Values& v2, 
+                  size_t level,
                   StringCompare compare) const
   {
-    string_type v1 = grabAsString(n1);
-    string_type v2 = grabAsString(n2);
+    const string_type& s1 = v1[level].text;
+    const string_type& s2 = v2[level].text;
 
-    if((v1 == v2) && (sub_sort_))
-      return (*sub_sort_)(n1, n2);
+    if((s1 == s2) && (sub_sort_))
+      return sub_sort_->less_than(v1, v2, level+1);
 
-    return compare(v1, v2);
+    return compare(s1, s2);
   } // stringSort
 
-  string_type grabAsString(const DOMNode& n) const
-  {
-    context_->setPosition(n, 1);
-    return select_->evaluateAsString(n, context_->xpathContext());
-  } // grabAsString
-  double grabAsNumber(const DOMNode& n) const
-  {
-    context_->setPosition(n, 1);
-    return select_->evaluateAsNumber(n, context_->xpathContext());
-  } // grabAsString
-
   XPathExpressionPtr select_;
   XPathExpressionPtr lang_;
   XPathExpressionPtr datatype_;
@@ -167,6 +183,7 @@ private:
   Sort* sub_sort_;
   ExecutionContext<string_type, string_adaptor>* context_;
   sortFn sort_fn_;
+  bool is_number_;
 
   Sort& operator=(const Sort&);
   bool operator==(const Sort&) const;
@@ -195,15 +212,27 @@ protected:
             NodeSet& nodes, 
             ExecutionContext<string_type, string_adaptor>& context) const
   {
+    if(!nodes.forward())
+      nodes.to_document_order();
     if(!sort_)
-    {
-      if(!nodes.forward())
-        nodes.to_document_order();
       return;
-    }
 
     sort_->set_context(node, context);
-    std::stable_sort(nodes.begin(), nodes.end(), SortP(*sort_));
+
+    std::vector<Entry> entries(nodes.size());
+    {
+      LastFrame<string_type, string_adaptor> last(context, nodes.size());
+      for(size_t n = 0, e = nodes.size(); n != e; ++n)
+      {
+        context.setPosition(nodes[n], n+1);
+        entries[n].node = nodes[n];
+        sort_->values(nodes[n], entries[n].values);
+      } // for ...
+    }
+
+    std::stable_sort(entries.begin(), entries.end(), SortP(*sort_));
+    for(size_t n = 0, e = entries.size(); n != e; ++n)
+      *(nodes.begin() + n) = entries[n].node;
   } // sort
 
   bool has_sort() const { return sort_ != 0; }
@@ -220,12 +249,18 @@ public:
 private:
   SortT* sort_;
 
+  struct Entry
+  {
+    DOMNode node;
+    typename SortT::Values values;
+  }; // struct Entry
+
   struct SortP
   {
     SortP(SortT& sort) : sort_(sort) { }
-    bool operator()(const DOMNode& n1, const DOMNode& n2)
+    bool operator()(const Entry& e1, const Entry& e2)
     {
-      return sort_(n1, n2);
+      return sort_.less_than(e1.values, e2.values);
     } // operator()
 
   private:
-- 
2.43.0


From 93b0091c8cdfb171f0c1120b6d5d9fff437741a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:58 +0000
Subject: [PATCH 101/123] fix: result tree fragments were the set of their
 top-level nodes, so their string was only the first's

---
 include/XSLT/impl/xslt_copy.hpp          |  9 +++++
 include/XSLT/impl/xslt_item.hpp          |  2 +
 include/XSLT/impl/xslt_sink.hpp          |  1 +
 include/XSLT/impl/xslt_variable_impl.hpp | 49 +++++++++++++++++++-----
 4 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index adaf1fa..32728dd 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XSLT_COPY_HPP
 
 #include "xslt_item.hpp"
+#include "xslt_variable_impl.hpp"
 
 namespace Arabica
 {
@@ -117,6 +118,14 @@ public:
   virtual void execute(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
     Arabica::XPath::XPathValue<string_type, string_adaptor> value = select_->evaluate(node, context.xpathContext());
+    const Arabica::XPath::XPathValuePtr<string_type, string_adaptor> valuePtr(value);
+    const ResultTreeFragmentValue<string_type, string_adaptor>* tree = dynamic_cast<const ResultTreeFragmentValue<string_type, string_adaptor>*>(valuePtr.operator->());
+    if(tree != 0)
+    {
+      this->copy(tree->fragment(), context);
+      return;
+    } // if ...
+
     if(value.type() != Arabica::XPath::NODE_SET)
     {
       context.sink().characters(value.asString());
diff --git a/include/XSLT/impl/xslt_item.hpp b/include/XSLT/impl/xslt_item.hpp
index 7f5762d..93e183d 100644
--- a/include/XSLT/impl/xslt_item.hpp
+++ b/include/XSLT/impl/xslt_item.hpp
@@ -29,6 +29,8 @@ protected:
       delete *ci;
   } // ~ItemContainer
 
+  bool has_children() const { return !children_.empty(); }
+
   void execute_children(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
     for(ChildrenIterator ci = children_.begin(), ce = children_.end(); ci != ce; ++ci)
diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 50f810c..09d373e 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -399,6 +399,7 @@ protected:
 
   void do_end_document()
   {
+    current();
   } // do_end_document
 
   void do_characters(const string_type& ch)
diff --git a/include/XSLT/impl/xslt_variable_impl.hpp b/include/XSLT/impl/xslt_variable_impl.hpp
index 529dde5..8303a2f 100644
--- a/include/XSLT/impl/xslt_variable_impl.hpp
+++ b/include/XSLT/impl/xslt_variable_impl.hpp
@@ -11,6 +11,41 @@ namespace Arabica
 namespace XSLT
 {
 
+// A result tree fragment: behaves as a string which is true however short it is,
+// except that xsl:copy-of can see the tree
+template<class string_type, class string_adaptor>
+class ResultTreeFragmentValue : public Arabica::XPath::Value_base<string_type, string_adaptor>
+{
+public:
+  typedef Arabica::XPath::XPathValue<string_type, string_adaptor> XPathValue;
+  typedef DOM::Node<string_type, string_adaptor> DOMNode;
+
+  static XPathValue createValue(const DOMNode& fragment) { return XPathValue(new ResultTreeFragmentValue(fragment)); }
+
+  virtual XPathValue evaluate(const DOMNode& /* context */, 
+                              const Arabica::XPath::ExecutionContext<string_type, string_adaptor>& /* executionContext */) const
+  {
+    return createValue(fragment_);
+  } // evaluate
+
+  virtual bool asBool() const { return true; }
+  virtual double asNumber() const { return Arabica::XPath::impl::stringAsNumber<string_type, string_adaptor>(asString()); }
+  virtual string_type asString() const { return Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(fragment_); }
+  virtual const Arabica::XPath::NodeSet<string_type, string_adaptor>& asNodeSet() const 
+  { 
+    throw Arabica::XPath::RuntimeException("A result tree fragment cannot be converted to a node-set"); 
+  } // asNodeSet
+
+  virtual Arabica::XPath::ValueType type() const { return Arabica::XPath::STRING; }
+
+  const DOMNode& fragment() const { return fragment_; }
+
+private:
+  ResultTreeFragmentValue(const DOMNode& fragment) : fragment_(fragment) { }
+
+  DOMNode fragment_;
+}; // class ResultTreeFragmentValue
+
 template<class string_type, class string_adaptor>
 class Variable_impl : public ItemContainer<string_type, string_adaptor>, public Variable_declaration<string_type, string_adaptor>
 {
@@ -18,8 +53,6 @@ protected:
   typedef Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> XPathExpressionPtr;
   typedef Arabica::XPath::XPathValue<string_type, string_adaptor> XPathValue;
   typedef Arabica::XPath::StringValue<string_type, string_adaptor> StringValue;
-  typedef Arabica::XPath::NodeSetValue<string_type, string_adaptor> NodeSetValue;
-  typedef Arabica::XPath::NodeSet<string_type, string_adaptor> NodeSet;
   typedef DOM::Node<string_type, string_adaptor> DOMNode;
 
   Variable_impl(const string_type& name, 
@@ -43,16 +76,14 @@ public:
     if(select_)
       return select_->evaluate(node, context.xpathContext());
 
-    this->execute_children(node, context);
-
-    if(sink.node() == 0)
+    if(!this->has_children())
       return StringValue::createValue(string_adaptor::empty_string());
 
-    NodeSet nodeset;
-    for(DOMNode n = sink.node().getFirstChild(); n != 0; n = n.getNextSibling())
-      nodeset.push_back(n);
+    ChainStackFrame<string_type, string_adaptor> frame(context);
+    this->execute_children(node, context);
+    sink.asOutput().end_document();
 
-    return NodeSetValue::createValue(nodeset);
+    return ResultTreeFragmentValue<string_type, string_adaptor>::createValue(sink.node());
   } // value
 
   virtual const Precedence& precedence() const { return precedence_; }
-- 
2.43.0


From 173ea691853be2ade1914ee2fc12714bd37ea700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:58 +0000
Subject: [PATCH 102/123] fix: parameters already gathered for a template were
 passed to templates called in the content of the next xsl:with-param

---
 include/XSLT/impl/xslt_variable_stack.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/XSLT/impl/xslt_variable_stack.hpp b/include/XSLT/impl/xslt_variable_stack.hpp
index c896a3a..376b345 100644
--- a/include/XSLT/impl/xslt_variable_stack.hpp
+++ b/include/XSLT/impl/xslt_variable_stack.hpp
@@ -62,6 +62,8 @@ public:
     stack_(rhs.stack_),
     params_(rhs.params_)
   {
+    // parameters being gathered for a template aren't for those called while working out their values
+    params_.back().clear();
   } // VariableStack
 
   void pushScope()
-- 
2.43.0


From 07c234c4fec8ddad0c8f0e30dca9735785c8a710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:58 +0000
Subject: [PATCH 103/123] fix: a parameter passed to a stylesheet which
 declares it more than once was a duplicate of itself

---
 include/XSLT/impl/xslt_execution_context.hpp | 37 +++++++++++++++++++-
 include/XSLT/impl/xslt_variable_stack.hpp    | 13 +++----
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 02dca18..07b4b49 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -174,6 +174,38 @@ private:
   const VariableClosure& operator==(const VariableClosure&) const;
 }; // class VariableClosure
 
+///////////////////////////
+// the value passed for a parameter, with the precedence of the xsl:param which receives it
+template<class string_type, class string_adaptor>
+class PassedParam : public Variable_instance<string_type, string_adaptor>
+{
+public:
+  typedef typename ScopeType<string_type, string_adaptor>::Variable_instance_ptr Variable_instance_ptr;
+  typedef typename ScopeType<string_type, string_adaptor>::Scope Scope;
+
+  static Variable_instance_ptr create(const Variable_declaration<string_type, string_adaptor>& param, 
+                                      const Variable_instance_ptr& passed)
+  {
+    return Variable_instance_ptr(new PassedParam(param, passed));
+  } // create
+
+  virtual const string_type& name() const { return param_.name(); }
+  virtual const Precedence& precedence() const { return param_.precedence(); }
+  virtual Arabica::XPath::XPathValue<string_type, string_adaptor> value() const { return passed_->value(); }
+  virtual void injectGlobalScope(const Scope& scope) const { passed_->injectGlobalScope(scope); }
+
+private:
+  PassedParam(const Variable_declaration<string_type, string_adaptor>& param, 
+              const Variable_instance_ptr& passed) :
+      param_(param),
+      passed_(passed)
+  {
+  } // PassedParam
+
+  const Variable_declaration<string_type, string_adaptor>& param_;
+  const Variable_instance_ptr passed_;
+}; // class PassedParam
+
 ///////////////////////////
 template<class string_type, class string_adaptor>
 void ExecutionContext<string_type, string_adaptor>::topLevelParam(const DOM::Node<string_type, string_adaptor>& node, const Variable_declaration<string_type, string_adaptor>& param)
@@ -196,7 +228,10 @@ void ExecutionContext<string_type, string_adaptor>::unpassParam(const string_typ
 template<class string_type, class string_adaptor>
 void ExecutionContext<string_type, string_adaptor>::declareParam(const DOM::Node<string_type, string_adaptor>& node, const Variable_declaration<string_type, string_adaptor>& param) 
 {
-  if(!stack_.findPassedParam(param.name()))
+  typename ScopeType<string_type, string_adaptor>::Variable_instance_ptr passed = stack_.findPassedParam(param.name());
+  if(passed)
+    stack_.declareParam(PassedParam<string_type, string_adaptor>::create(param, passed));
+  else
     stack_.declareParam(VariableClosure<string_type, string_adaptor>::create(param, node, *this)); 
 } // declareParam
 
diff --git a/include/XSLT/impl/xslt_variable_stack.hpp b/include/XSLT/impl/xslt_variable_stack.hpp
index 376b345..3524940 100644
--- a/include/XSLT/impl/xslt_variable_stack.hpp
+++ b/include/XSLT/impl/xslt_variable_stack.hpp
@@ -105,14 +105,11 @@ public:
     params_.back().erase(name);
   } // unpassParam
 
-  bool findPassedParam(const string_type& name)
-  {
-    typename ScopeStack::reverse_iterator p = params_.rbegin()+1;    
-    typename Scope::iterator i = p->find(name);
-    if(i == p->end())
-      return false;
-    declareVariable(i->second);
-    return true;
+  Variable_instance_ptr findPassedParam(const string_type& name) const
+  {
+    typename ScopeStack::const_reverse_iterator p = params_.rbegin()+1;    
+    typename Scope::const_iterator i = p->find(name);
+    return (i != p->end()) ? i->second : Variable_instance_ptr();
   } // findPassedParam
 
   void declareParam(Variable_instance_ptr param)
-- 
2.43.0


From 20d4e9406028e373cbb4d9ea51ee7505fe2d5449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:58 +0000
Subject: [PATCH 104/123] fix: the top level variables of a stylesheet were
 leaked each time it was executed

---
 include/XSLT/impl/xslt_compiled_stylesheet.hpp |  1 +
 include/XSLT/impl/xslt_execution_context.hpp   | 17 +++++++++++++++++
 include/XSLT/impl/xslt_variable_stack.hpp      |  9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index f468947..76379ba 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -108,6 +108,7 @@ public:
     context.setPosition(initialNode, 1);
 
     // set up variables and so forth
+    TopLevelFrame<string_type, string_adaptor> top(context);
     for(ParamListIterator pi = params_.begin(), pe = params_.end(); pi != pe; ++pi)
       (*pi)->declare(context);
     for(VariableDeclListIterator ci = topLevelVars_.begin(), ce = topLevelVars_.end(); ci != ce; ++ci)
diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 07b4b49..4b5eb69 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -88,6 +88,7 @@ public:
   void declareParam(const DOM::Node<string_type, string_adaptor>& node, const Variable_declaration<string_type, string_adaptor>& param); 
   void declareVariable(const DOM::Node<string_type, string_adaptor>& node, const Variable_declaration<string_type, string_adaptor>& variable); 
   void freezeTopLevel();
+  void releaseTopLevel() { stack_.releaseTopLevel(); }
   void injectGlobalScope(const typename ScopeType<string_type, string_adaptor>::Scope& scope);
 
   void setPosition(const DOM::Node<string_type, string_adaptor>& current, size_t pos) { setPosition(current, static_cast<int>(pos)); }
@@ -284,6 +285,22 @@ private:
   bool operator==(const ChainStackFrame&) const;
 }; // class ChainStackFrame
 
+///////////////////////////
+template<class string_type, class string_adaptor>
+class TopLevelFrame
+{
+public:
+  TopLevelFrame(ExecutionContext<string_type, string_adaptor>& context) : context_(context) { }
+  ~TopLevelFrame() { context_.releaseTopLevel(); }
+
+private:
+  ExecutionContext<string_type, string_adaptor>& context_;
+
+  TopLevelFrame(const TopLevelFrame&);
+  TopLevelFrame& operator=(const TopLevelFrame&);
+  bool operator==(const TopLevelFrame&) const;
+}; // class TopLevelFrame
+
 ///////////////////////////
 template<class string_type, class string_adaptor>
 class LastFrame
diff --git a/include/XSLT/impl/xslt_variable_stack.hpp b/include/XSLT/impl/xslt_variable_stack.hpp
index 3524940..52d150d 100644
--- a/include/XSLT/impl/xslt_variable_stack.hpp
+++ b/include/XSLT/impl/xslt_variable_stack.hpp
@@ -148,6 +148,15 @@ public:
       lookup(top, v->first);
   } // freezeTopLevel
   
+  // top level variables refer to the scope they're in, which would keep them all alive 
+  void releaseTopLevel()
+  {
+    Scope top;
+    top.swap(stack_.front());
+    for(typename Scope::const_iterator v = top.begin(), ve = top.end(); v != ve; ++v)
+      v->second->injectGlobalScope(Scope());
+  } // releaseTopLevel
+
   void injectGlobalScope(const Scope& scope)
   {
     stack_.front() = scope;
-- 
2.43.0


From ef5db7cec7cb1090555d369475935b7878b4f051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:58 +0000
Subject: [PATCH 105/123] fix: xsl:apply-imports after xsl:apply-templates
 looked for the rules of the last template applied

---
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 76379ba..688871c 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -249,12 +249,12 @@ private:
         lower_precedences.push_back(ts->first);
     std::sort(lower_precedences.rbegin(), lower_precedences.rend());
 
-    current_mode_ = mode;
+    CurrentRule rule(*this, mode);
 
     for(std::vector<Precedence>::const_iterator p = lower_precedences.begin(), pe = lower_precedences.end(); p != pe; ++p)
     { 
       current_generation_ = *p;
-      ModeTemplates ts = templates_.find(current_generation_)->second;
+      const ModeTemplates& ts = templates_.find(current_generation_)->second;
       ModeTemplatesIterator mt = ts.find(mode);
       if(mt != ts.end())
       {
@@ -270,6 +270,34 @@ private:
     defaultAction(node, context, mode);
   } // doApplyTemplates
 
+  // which rule xsl:apply-imports is in, once the templates applied in between are done
+  class CurrentRule
+  {
+  public:
+    CurrentRule(const CompiledStylesheet& stylesheet, const string_type& mode) : 
+        stylesheet_(stylesheet),
+        old_mode_(stylesheet.current_mode_),
+        old_generation_(stylesheet.current_generation_)
+    {
+      stylesheet_.current_mode_ = mode;
+    } // CurrentRule
+
+    ~CurrentRule()
+    {
+      stylesheet_.current_mode_ = old_mode_;
+      stylesheet_.current_generation_ = old_generation_;
+    } // ~CurrentRule
+
+  private:
+    const CompiledStylesheet& stylesheet_;
+    const string_type old_mode_;
+    const Precedence old_generation_;
+
+    CurrentRule(const CurrentRule&);
+    CurrentRule& operator=(const CurrentRule&);
+  }; // class CurrentRule
+  friend class CurrentRule;
+
   void defaultAction(const DOMNode& node, 
                      ExecutionContext<string_type, string_adaptor>& context, 
                      const string_type& mode) const
-- 
2.43.0


From 99385b4b47d87cf88d12f1b8ccb1c3566a4e991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:15 +0000
Subject: [PATCH 106/123] fix: XSLT applied templates to and copied DOM
 children, rather than the children XPath sees

---
 include/XSLT/impl/xslt_apply_templates.hpp    | 11 ++--------
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    | 20 ++++++++-----------
 include/XSLT/impl/xslt_copy.hpp               |  6 +++---
 3 files changed, 13 insertions(+), 24 deletions(-)

diff --git a/include/XSLT/impl/xslt_apply_templates.hpp b/include/XSLT/impl/xslt_apply_templates.hpp
index 1a423ef..b2f301f 100644
--- a/include/XSLT/impl/xslt_apply_templates.hpp
+++ b/include/XSLT/impl/xslt_apply_templates.hpp
@@ -30,17 +30,10 @@ public:
   {
     ParamPasser<string_type, string_adaptor> passer(*this, node, context);
 
-    if(!SortableT::has_sort() && select_ == 0)
-    {
-      if(node.hasChildNodes())
-        context.stylesheet().applyTemplates(node.getChildNodes(), context, mode_);
-      return;
-    }
-
     Arabica::XPath::NodeSet<string_type, string_adaptor> nodes;
     if(select_ == 0)
-      for(DOM::Node<string_type, string_adaptor> n = node.getFirstChild(); n != 0; n = n.getNextSibling())
-        nodes.push_back(n);
+      for(Arabica::XPath::AxisEnumerator<string_type, string_adaptor> child(node, Arabica::XPath::CHILD); *child != 0; ++child)
+        nodes.push_back(*child);
     else
     {
       Arabica::XPath::XPathValue<string_type, string_adaptor> value = select_->evaluate(node, context.xpathContext());
diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 688871c..a9e5e1b 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -48,7 +48,6 @@ public:
   typedef Arabica::XPath::XPathValue<string_type, string_adaptor> Value;
   typedef Arabica::XPath::NodeSet<string_type, string_adaptor> NodeSet;
   typedef DOM::Node<string_type, string_adaptor> DOMNode;
-  typedef DOM::NodeList<string_type, string_adaptor> DOMNodeList;
 
   CompiledStylesheet() :
       output_(new StreamSink<string_type, string_adaptor>(streams::out())),
@@ -196,16 +195,13 @@ public:
     }
   } // applyTemplates
 
-  void applyTemplates(const DOMNodeList& nodes, ExecutionContext<string_type, string_adaptor>& context, const string_type& mode) const 
+  void applyTemplatesToChildren(const DOMNode& node, ExecutionContext<string_type, string_adaptor>& context, const string_type& mode) const 
   {
-    // entirely simple so far
-    LastFrame<string_type, string_adaptor> last(context, (size_t)nodes.getLength());
-    for(int i = 0, ie = nodes.getLength(); i != ie; ++i)
-    {
-      context.setPosition(nodes.item(i), i+1);
-      doApplyTemplates(nodes.item(i), context, mode, Precedence::FrozenPrecedence());
-    }
-  } // applyTemplates
+    NodeSet children;
+    for(Arabica::XPath::AxisEnumerator<string_type, string_adaptor> child(node, Arabica::XPath::CHILD); *child != 0; ++child)
+      children.push_back(*child);
+    applyTemplates(children, context, mode);
+  } // applyTemplatesToChildren
 
   void applyTemplates(const DOMNode& node, ExecutionContext<string_type, string_adaptor>& context, const string_type& mode) const
   {
@@ -307,12 +303,12 @@ private:
       case DOM::Node_base::DOCUMENT_NODE:
       case DOM::Node_base::DOCUMENT_FRAGMENT_NODE:
       case DOM::Node_base::ELEMENT_NODE:
-        applyTemplates(node.getChildNodes(), context, mode);
+        applyTemplatesToChildren(node, context, mode);
         break;
       case DOM::Node_base::ATTRIBUTE_NODE:
       case DOM::Node_base::TEXT_NODE:
       case DOM::Node_base::CDATA_SECTION_NODE:
-        context.sink().characters(node.getNodeValue());
+        context.sink().characters(Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(node));
 	/*
         {
           const string_type& ch = node.getNodeValue();
diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index 32728dd..26bb89e 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -61,7 +61,7 @@ protected:
       break;
     case DOM::Node_base::TEXT_NODE:
     case DOM::Node_base::CDATA_SECTION_NODE:
-      context.sink().characters(node.getNodeValue());
+      context.sink().characters(Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(node));
       break;
     } // switch
   } // execute
@@ -147,8 +147,8 @@ protected:
         this->copy(attrs.item(a), context);
     } // if ...
 
-    for(DOM::Node<string_type, string_adaptor> n = node.getFirstChild(); n != 0; n = n.getNextSibling())
-      this->copy(n, context);
+    for(Arabica::XPath::AxisEnumerator<string_type, string_adaptor> n(node, Arabica::XPath::CHILD); *n != 0; ++n)
+      this->copy(*n, context);
   } // process_content
 
 private:
-- 
2.43.0


From 1a9ade0f97f421f1660b968531f31470e8c7c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:15 +0000
Subject: [PATCH 107/123] fix: variables declared in xsl:copy, xsl:comment,
 xsl:processing-instruction and xsl:message stayed in scope after them

---
 include/XSLT/impl/xslt_comment.hpp                | 1 +
 include/XSLT/impl/xslt_copy.hpp                   | 1 +
 include/XSLT/impl/xslt_message.hpp                | 1 +
 include/XSLT/impl/xslt_processing_instruction.hpp | 1 +
 4 files changed, 4 insertions(+)

diff --git a/include/XSLT/impl/xslt_comment.hpp b/include/XSLT/impl/xslt_comment.hpp
index 014d6a1..91aac9d 100644
--- a/include/XSLT/impl/xslt_comment.hpp
+++ b/include/XSLT/impl/xslt_comment.hpp
@@ -22,6 +22,7 @@ public:
   {
     context.sink().start_comment();
 
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
 
     context.sink().end_comment();
diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index 26bb89e..10e8e32 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -94,6 +94,7 @@ public:
 protected:
   virtual void process_content(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
   } // process_content
 
diff --git a/include/XSLT/impl/xslt_message.hpp b/include/XSLT/impl/xslt_message.hpp
index 15379ef..a4f05de 100644
--- a/include/XSLT/impl/xslt_message.hpp
+++ b/include/XSLT/impl/xslt_message.hpp
@@ -25,6 +25,7 @@ public:
   virtual void execute(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
     RedirectionFrame toMessageSink(context);
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
 
     if(terminate_)
diff --git a/include/XSLT/impl/xslt_processing_instruction.hpp b/include/XSLT/impl/xslt_processing_instruction.hpp
index 0e61490..41948af 100644
--- a/include/XSLT/impl/xslt_processing_instruction.hpp
+++ b/include/XSLT/impl/xslt_processing_instruction.hpp
@@ -30,6 +30,7 @@ public:
     validate_name(name);
 
     context.sink().start_processing_instruction(name);
+    ChainStackFrame<string_type, string_adaptor> frame(context);
     this->execute_children(node, context);
     context.sink().end_processing_instruction();
   } // execute
-- 
2.43.0


From a3c85c397b752c812ed1439318c3f44d562ee4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:15 +0000
Subject: [PATCH 108/123] fix: keys missed attributes and string values,
 counted nodes twice and outlived changes to the document

---
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    |  2 +
 include/XSLT/impl/xslt_functions.hpp          |  7 +-
 include/XSLT/impl/xslt_key.hpp                | 77 +++++++++++++------
 3 files changed, 61 insertions(+), 25 deletions(-)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index a9e5e1b..1fecda0 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -106,6 +106,8 @@ public:
     LastFrame<string_type, string_adaptor> last(context, ns.size());
     context.setPosition(initialNode, 1);
 
+    keys_.reset();
+
     // set up variables and so forth
     TopLevelFrame<string_type, string_adaptor> top(context);
     for(ParamListIterator pi = params_.begin(), pe = params_.end(); pi != pe; ++pi)
diff --git a/include/XSLT/impl/xslt_functions.hpp b/include/XSLT/impl/xslt_functions.hpp
index 376fe30..2b583cc 100644
--- a/include/XSLT/impl/xslt_functions.hpp
+++ b/include/XSLT/impl/xslt_functions.hpp
@@ -112,20 +112,21 @@ protected:
 
     XPathValue a1 = baseT::arg(1, context, executionContext);
     if(a1.type() == Arabica::XPath::NODE_SET)
-      return nodeSetUnion(keyClarkName, a1.asNodeSet(), executionContext);
+      return nodeSetUnion(keyClarkName, a1.asNodeSet(), context, executionContext);
 
-    return keys_.lookup(keyClarkName, a1.asString(), executionContext);
+    return keys_.lookup(keyClarkName, a1.asString(), context, executionContext);
   } // doEvaluate
 
   NodeSet nodeSetUnion(const string_type& keyClarkName, 
                        const NodeSet nodes,
+                       const DOMNode& context,
 			      			     const XPathExecutionContext& executionContext) const
   {
     NodeSet results;
     for(typename NodeSet::const_iterator n = nodes.begin(), ne = nodes.end(); n != ne; ++n)
     {
       string_type id = Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*n);
-      results.push_back(keys_.lookup(keyClarkName, id, executionContext));
+      results.push_back(keys_.lookup(keyClarkName, id, context, executionContext));
     } // for ...
     results.to_document_order();
     return results;
diff --git a/include/XSLT/impl/xslt_key.hpp b/include/XSLT/impl/xslt_key.hpp
index 2f820ac..27b8b86 100644
--- a/include/XSLT/impl/xslt_key.hpp
+++ b/include/XSLT/impl/xslt_key.hpp
@@ -25,12 +25,16 @@ public:
   {
   } // Key
 
-  NodeSet lookup(const string_type& value, const XPathContext& context) const
+  NodeSet lookup(const string_type& value, const DOMNode& node, const XPathContext& context) const
   {
-    DOMNode doc = XPath::impl::get_owner_document(context.currentNode());
+    DOMNode doc = XPath::impl::get_owner_document(node);
     DocumentNodeMapIterator nm = nodesPerDocument_.find(doc.underlying_impl());
     if(nm == nodesPerDocument_.end())
-      populate(nodesPerDocument_[doc.underlying_impl()], context);
+    {
+      NodeMap found;
+      populate(found, doc, context);
+      nodesPerDocument_[doc.underlying_impl()].swap(found);
+    } // if ...
 
     const NodeMap& nodes = nodesPerDocument_[doc.underlying_impl()];
     NodeMapIterator f = nodes.find(value);
@@ -40,37 +44,56 @@ public:
     return f->second;
   } // lookup
 
+  void reset() const { nodesPerDocument_.clear(); }
+
 private:
   typedef std::map<string_type, NodeSet> NodeMap;
   typedef typename NodeMap::const_iterator NodeMapIterator;
   typedef std::map<DOM::Node_impl<string_type, string_adaptor>*, NodeMap> DocumentNodeMap;
   typedef typename DocumentNodeMap::const_iterator DocumentNodeMapIterator;
-  typedef typename NodeSet::iterator NodeSetIterator;
   typedef typename MatchExprList::const_iterator MatchExprListIterator;
  
-  void populate(NodeMap& nodes, const XPathContext& context) const
+  void populate(NodeMap& nodes, const DOMNode& doc, const XPathContext& context) const
   {
     typedef XPath::AxisEnumerator<string_type, string_adaptor> AxisEnum;
 
-    DOMNode current = XPath::impl::get_owner_document(context.currentNode());
-
-    for(AxisEnum ae(current, XPath::DESCENDANT_OR_SELF); *ae != 0; ++ae)
+    for(AxisEnum ae(doc, XPath::DESCENDANT_OR_SELF); *ae != 0; ++ae)
     {
-      DOMNode node = *ae;
-      for(MatchExprListIterator me = matches_.begin(), mee = matches_.end(); me != mee; ++me)
-        if(me->evaluate(node, context))
-        {
-	        NodeSet ids = use_.evaluateAsNodeSet(node, context);
-	        for(NodeSetIterator i = ids.begin(), ie = ids.end(); i != ie; ++i)
-	        {
-	          string_type id = Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*i);
-	          nodes[id].push_back(node);
-	        } // for ...
-          break;
-        } // if ...
+      add(nodes, *ae, context);
+      for(AxisEnum attr(*ae, XPath::ATTRIBUTE); *attr != 0; ++attr)
+        add(nodes, *attr, context);
     } // for 
   } // populate
 
+  void add(NodeMap& nodes, const DOMNode& node, const XPathContext& context) const
+  {
+    XPathContext nodeContext(1, context);
+    nodeContext.setCurrentNode(node);
+    nodeContext.setPosition(1);
+
+    for(MatchExprListIterator me = matches_.begin(), mee = matches_.end(); me != mee; ++me)
+      if(me->evaluate(node, nodeContext))
+      {
+        Arabica::XPath::XPathValue<string_type, string_adaptor> use = use_.evaluate(node, nodeContext);
+        if(use.type() != Arabica::XPath::NODE_SET)
+        {
+          add(nodes[use.asString()], node);
+          return;
+        } // if ...
+
+        const NodeSet& ids = use.asNodeSet();
+        for(typename NodeSet::const_iterator i = ids.begin(), ie = ids.end(); i != ie; ++i)
+          add(nodes[Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*i)], node);
+        return;
+      } // if ...
+  } // add
+
+  void add(NodeSet& nodes, const DOMNode& node) const
+  {
+    if(nodes.empty() || nodes[nodes.size()-1] != node)
+      nodes.push_back(node);
+  } // add
+
   MatchExprList matches_;
   XPathExpression use_;
   mutable DocumentNodeMap nodesPerDocument_;
@@ -83,6 +106,7 @@ class DeclaredKeys
 public:
   typedef Arabica::XPath::NodeSet<string_type, string_adaptor> NodeSet;
   typedef Arabica::XPath::ExecutionContext<string_type, string_adaptor> XPathContext;
+  typedef DOM::Node<string_type, string_adaptor> DOMNode;
 
   DeclaredKeys() { }
   ~DeclaredKeys() 
@@ -99,6 +123,7 @@ public:
 
   NodeSet lookup(const string_type& name,
 	               const string_type& id,
+                 const DOMNode& node,
                  const XPathContext& context) const
   {
     const KeysIterator k = keys_.find(name);
@@ -106,15 +131,23 @@ public:
       throw SAX::SAXException("No key named '" + string_adaptor::asStdString(name) + "' has been defined.");
     
     if(k->second.size() == 1)
-      return k->second[0]->lookup(id, context);
+      return k->second[0]->lookup(id, node, context);
     
     NodeSet nodes;
     for(KeyListIterator key = k->second.begin(), keye = k->second.end(); key != keye; ++key)    
-      nodes.push_back((*key)->lookup(id, context));
+      nodes.push_back((*key)->lookup(id, node, context));
     nodes.to_document_order();
     return nodes;
   } // lookup
 
+  // forget what was found, as the documents may have changed since 
+  void reset() const
+  {
+    for(KeysIterator i = keys_.begin(), ie = keys_.end(); i != ie; ++i)
+      for(KeyListIterator k = i->second.begin(), ke = i->second.end(); k != ke; ++k)
+        (*k)->reset();
+  } // reset
+
 private:
   typedef std::vector<Key<string_type, string_adaptor>*> KeyList;
   typedef typename std::vector<Key<string_type, string_adaptor>*>::const_iterator KeyListIterator;
-- 
2.43.0


From e0251b85138a3fa54e7388dbac715d45d7cf4099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:15 +0000
Subject: [PATCH 109/123] fix: generate-id() did not start with a letter

---
 include/XSLT/impl/xslt_functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XSLT/impl/xslt_functions.hpp b/include/XSLT/impl/xslt_functions.hpp
index 2b583cc..0604ec7 100644
--- a/include/XSLT/impl/xslt_functions.hpp
+++ b/include/XSLT/impl/xslt_functions.hpp
@@ -236,7 +236,7 @@ protected:
     } // if ...
 
     std::basic_ostringstream<typename string_adaptor::value_type> os;
-    os << node.underlying_impl();
+    os << "id" << node.underlying_impl();
     return string_adaptor::construct(os.str());
   } // doEvaluate
 }; // class GenerateIdFunction
-- 
2.43.0


From 4d5b3992c47502ea24b370fbc6d7fa863ad9a727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:15 +0000
Subject: [PATCH 110/123] fix: copies of elements without a local name had no
 name

---
 include/XSLT/impl/xslt_copy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index 10e8e32..7b757b8 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -48,10 +48,10 @@ protected:
       process_content(node, context);
       break;
     case DOM::Node_base::ELEMENT_NODE:
-      if(context.sink().start_element(node.getPrefix(), node.getLocalName(), node.getNamespaceURI()))
+      if(context.sink().start_element(node.getNodeName(), node.getNamespaceURI()))
       {
         process_content(node, context);
-        context.sink().end_element(node.getPrefix(), node.getLocalName(), node.getNamespaceURI());
+        context.sink().end_element(node.getNodeName(), node.getNamespaceURI());
       }
       break;
     case DOM::Node_base::PROCESSING_INSTRUCTION_NODE:
-- 
2.43.0


From 86e44b4fee4a75da474ca47d547d1519541063eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:57 +0000
Subject: [PATCH 111/123] fix: xsl:copy and xsl:copy-of did not copy namespace
 nodes

---
 include/XSLT/impl/xslt_copy.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index 7b757b8..6ce6015 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -14,11 +14,7 @@ class Copy_base : public ItemContainer<string_type, string_adaptor>
 {
   typedef StylesheetConstant<string_type, string_adaptor> SC;
 protected:
-  Copy_base()
-  {
-    Arabica::XPath::XPath<string_type, string_adaptor> compiler;
-    namespace_select_ = compiler.compile(SC::namespace_xpath);
-  } // Copy_base
+  Copy_base() { }
 
   virtual ~Copy_base() { }
 
@@ -50,6 +46,8 @@ protected:
     case DOM::Node_base::ELEMENT_NODE:
       if(context.sink().start_element(node.getNodeName(), node.getNamespaceURI()))
       {
+        for(Arabica::XPath::AxisEnumerator<string_type, string_adaptor> ns(node, Arabica::XPath::NAMESPACE); *ns != 0; ++ns)
+          copy(*ns, context);
         process_content(node, context);
         context.sink().end_element(node.getNodeName(), node.getNamespaceURI());
       }
@@ -59,6 +57,9 @@ protected:
       context.sink().characters(node.getNodeValue());
       context.sink().end_processing_instruction();
       break;
+    case Arabica::XPath::NAMESPACE_NODE_TYPE:
+      context.sink().copy_namespace(node.getLocalName(), node.getNodeValue());
+      break;
     case DOM::Node_base::TEXT_NODE:
     case DOM::Node_base::CDATA_SECTION_NODE:
       context.sink().characters(Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(node));
@@ -67,9 +68,6 @@ protected:
   } // execute
 
   virtual void process_content(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const = 0;
-
-private:
-  Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> namespace_select_;
 }; // class Copy_base
 
 template<class stringT, class adaptorT>
-- 
2.43.0


From 7941a4cacf7c87fa4cd2f3e65d92e6eb008be776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:57 +0000
Subject: [PATCH 112/123] fix: current() was unknown until the first pattern of
 the stylesheet

---
 include/XSLT/impl/xslt_compilation_context.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/XSLT/impl/xslt_compilation_context.hpp b/include/XSLT/impl/xslt_compilation_context.hpp
index b590767..3b67c4a 100644
--- a/include/XSLT/impl/xslt_compilation_context.hpp
+++ b/include/XSLT/impl/xslt_compilation_context.hpp
@@ -43,7 +43,7 @@ public:
     parser_(parser),
     stylesheet_(stylesheet),
     autoNs_(1),
-    current_allowed_(false),
+    current_allowed_(true),
     variables_allowed_(true),    
     precedence_(Precedence::InitialPrecedence())
   {
@@ -288,10 +288,11 @@ private:
   class Disallow
   { 
     public:
-      Disallow(bool& allow) : allow_(allow) { allow_ = false; }
-      ~Disallow() { allow_ = true; }
+      Disallow(bool& allow) : allow_(allow), was_(allow) { allow_ = false; }
+      ~Disallow() { allow_ = was_; }
     private:
       bool& allow_;
+      const bool was_;
   }; // DisallowCurrent 
 }; // class CompilationContext
 
-- 
2.43.0


From f95c556cfa750bd44efa87e3ab487b1801c53d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:02 +0000
Subject: [PATCH 113/123] fix: compiling a stylesheet which is refused leaked
 what had been compiled of it

---
 .../impl/handler/xslt_apply_imports_handler.hpp  |  8 ++++----
 .../handler/xslt_apply_templates_handler.hpp     |  8 ++++----
 .../impl/handler/xslt_call_template_handler.hpp  |  8 ++++----
 .../XSLT/impl/handler/xslt_choose_handler.hpp    | 16 ++++++++--------
 include/XSLT/impl/handler/xslt_copy_handler.hpp  |  8 ++++----
 .../XSLT/impl/handler/xslt_create_handler.hpp    |  1 +
 .../impl/handler/xslt_inline_element_handler.hpp |  4 ++--
 .../impl/handler/xslt_item_container_handler.hpp | 15 ++++++++-------
 include/XSLT/impl/handler/xslt_key_handler.hpp   |  8 ++++----
 include/XSLT/impl/handler/xslt_sort_handler.hpp  | 10 +++++-----
 .../XSLT/impl/handler/xslt_template_handler.hpp  |  2 +-
 include/XSLT/impl/handler/xslt_text_handler.hpp  |  8 ++++----
 .../XSLT/impl/handler/xslt_value_of_handler.hpp  | 10 +++++-----
 .../XSLT/impl/handler/xslt_variable_handler.hpp  |  2 +-
 .../impl/handler/xslt_with_param_handler.hpp     |  2 +-
 15 files changed, 56 insertions(+), 54 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_apply_imports_handler.hpp b/include/XSLT/impl/handler/xslt_apply_imports_handler.hpp
index 3aca8f9..0110f34 100644
--- a/include/XSLT/impl/handler/xslt_apply_imports_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_apply_imports_handler.hpp
@@ -17,7 +17,7 @@ public:
 
   ApplyImportsHandler(CompilationContext<string_type, string_adaptor>& context):
     context_(context),
-    applyImports_(0)
+    applyImports_()
   {
   } // ApplyImportsHandler
 
@@ -34,7 +34,7 @@ public:
     {
       if(atts.getLength() != 0)
 	      throw SAX::SAXException("xsl:apply-imports element does not have any attributes");
-      applyImports_ = new ApplyImports<string_type, string_adaptor>();
+      applyImports_.reset(new ApplyImports<string_type, string_adaptor>());
       return;
     } // if(applyImports_ == 0)
 
@@ -45,7 +45,7 @@ public:
 			  const string_type& /* localName */,
 			  const string_type& /* qName */)
   {
-    context_.parentContainer().add_item(applyImports_);
+    context_.parentContainer().add_item(applyImports_.release());
     context_.pop();
   } // endElement
 
@@ -56,7 +56,7 @@ public:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  ApplyImports<string_type, string_adaptor>* applyImports_;
+  std::unique_ptr<ApplyImports<string_type, string_adaptor> > applyImports_;
 }; // class ApplyImportsHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp b/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
index af3281e..6935a13 100644
--- a/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
@@ -22,7 +22,7 @@ public:
 
   ApplyTemplatesHandler(CompilationContext<string_type, string_adaptor>& context) :
     context_(context),
-    applyTemplates_(0)
+    applyTemplates_()
   {
   } // ApplyTemplatesHandler
 
@@ -46,7 +46,7 @@ public:
       string_type mode;
       if(attrs[SC::mode] != string_adaptor::empty_string())
         mode = context_.processInternalQName(attrs[SC::mode]).clarkName();
-      applyTemplates_ = new ApplyTemplates<string_type, string_adaptor>(xpath, mode);
+      applyTemplates_.reset(new ApplyTemplates<string_type, string_adaptor>(xpath, mode));
 
       return;
     } // if(applyTemplates_ == 0)
@@ -84,7 +84,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    context_.parentContainer().add_item(applyTemplates_);
+    context_.parentContainer().add_item(applyTemplates_.release());
     context_.pop();
   } // endElement
 
@@ -95,7 +95,7 @@ public:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  ApplyTemplates<string_type, string_adaptor>* applyTemplates_;
+  std::unique_ptr<ApplyTemplates<string_type, string_adaptor> > applyTemplates_;
 }; // class ApplyTemplatesHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_call_template_handler.hpp b/include/XSLT/impl/handler/xslt_call_template_handler.hpp
index 0d817f2..acaa02a 100644
--- a/include/XSLT/impl/handler/xslt_call_template_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_call_template_handler.hpp
@@ -20,7 +20,7 @@ public:
 
   CallTemplateHandler(CompilationContext<string_type, string_adaptor>& context) :
     context_(context),
-    callTemplate_(0)
+    callTemplate_()
   {
   } // CallTemplateHandler
 
@@ -37,7 +37,7 @@ public:
 
       string_type name = context_.processInternalQName(attrs[SC::name]).clarkName();
 
-      callTemplate_ = new CallTemplate<string_type, string_adaptor>(name);
+      callTemplate_.reset(new CallTemplate<string_type, string_adaptor>(name));
       return;
     } // if(callTemplate_ == 0)
 
@@ -59,7 +59,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    context_.parentContainer().add_item(callTemplate_);
+    context_.parentContainer().add_item(callTemplate_.release());
     context_.pop();
   } // endElement
 
@@ -69,7 +69,7 @@ public:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  CallTemplate<string_type, string_adaptor>* callTemplate_;
+  std::unique_ptr<CallTemplate<string_type, string_adaptor> > callTemplate_;
 }; // class CallTemplateHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_choose_handler.hpp b/include/XSLT/impl/handler/xslt_choose_handler.hpp
index 928700e..1c64735 100644
--- a/include/XSLT/impl/handler/xslt_choose_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_choose_handler.hpp
@@ -42,7 +42,7 @@ public:
 			  const string_type& /* localName */, 
 			  const string_type& /* qName */)
   {
-    choose_->add_when(baseT::container());
+    choose_->add_when(baseT::release());
     baseT::context().pop();
   } // endElement
 
@@ -79,7 +79,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    choose_->set_otherwise(baseT::container());
+    choose_->set_otherwise(baseT::release());
     baseT::context().pop();
   } // endElement
 
@@ -94,7 +94,7 @@ class ChooseHandler : public SAX::DefaultHandler<string_type, string_adaptor>
 public:
   ChooseHandler(CompilationContext<string_type, string_adaptor>& context) :
       context_(context),
-      choose_(0),
+      choose_(),
       seenWhere_(false),
       seenOtherwise_(false)
   {
@@ -110,7 +110,7 @@ public:
       if(atts.getLength() != 0)
         throw SAX::SAXException("xsl:choose can not have attributes");
 
-      choose_ = new Choose<string_type, string_adaptor>();
+      choose_.reset(new Choose<string_type, string_adaptor>());
       return;
     } // if ...
 
@@ -123,7 +123,7 @@ public:
           throw SAX::SAXException("xsl:otherwise must be the last element in an xsl:choose");
 
         context_.push(0,
-                      new WhenHandler<string_type, string_adaptor>(choose_, context_), 
+                      new WhenHandler<string_type, string_adaptor>(choose_.get(), context_), 
                       namespaceURI,
                       localName,
                       qName, 
@@ -137,7 +137,7 @@ public:
           throw SAX::SAXException("xsl:choose may only have one xsl:otherwise element");
         seenOtherwise_ = true;
         context_.push(0,
-                      new OtherwiseHandler<string_type, string_adaptor>(choose_, context_), 
+                      new OtherwiseHandler<string_type, string_adaptor>(choose_.get(), context_), 
                       namespaceURI,
                       localName,
                       qName, 
@@ -154,7 +154,7 @@ public:
   {
     if(!seenWhere_)
       throw SAX::SAXException("xsl:choose must contain at least one xsl:where element");
-    context_.parentContainer().add_item(choose_);
+    context_.parentContainer().add_item(choose_.release());
     context_.pop();
   } // endElement
 
@@ -165,7 +165,7 @@ public:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  Choose<string_type, string_adaptor>* choose_;
+  std::unique_ptr<Choose<string_type, string_adaptor> > choose_;
   bool seenWhere_;
   bool seenOtherwise_;
 }; // class ChooseHandler
diff --git a/include/XSLT/impl/handler/xslt_copy_handler.hpp b/include/XSLT/impl/handler/xslt_copy_handler.hpp
index a4ebf50..07305ef 100644
--- a/include/XSLT/impl/handler/xslt_copy_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_copy_handler.hpp
@@ -39,7 +39,7 @@ class CopyOfHandler : public SAX::DefaultHandler<string_type, string_adaptor>
 public:
   CopyOfHandler(CompilationContext<string_type, string_adaptor>& context) : 
     context_(context),
-    copyOf_(0)
+    copyOf_()
   {
   } // CopyOfHandler
 
@@ -53,7 +53,7 @@ public:
       static const AV rules = AV::rule(SC::select, true);
       string_type select = rules.gather(qName, atts)[SC::select];
 
-      copyOf_ = new CopyOf<string_type, string_adaptor>(context_.xpath_expression(select));
+      copyOf_.reset(new CopyOf<string_type, string_adaptor>(context_.xpath_expression(select)));
 
       return;
     } // if(copyOf_ == 0)
@@ -65,7 +65,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    context_.parentContainer().add_item(copyOf_);
+    context_.parentContainer().add_item(copyOf_.release());
     context_.pop();
   } // endElement
 
@@ -76,7 +76,7 @@ public:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  CopyOf<string_type, string_adaptor>* copyOf_;
+  std::unique_ptr<CopyOf<string_type, string_adaptor> > copyOf_;
 }; // class CopyOfHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_create_handler.hpp b/include/XSLT/impl/handler/xslt_create_handler.hpp
index 07f9764..c3d9a63 100644
--- a/include/XSLT/impl/handler/xslt_create_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_create_handler.hpp
@@ -1,6 +1,7 @@
 #ifndef ARABICA_XSLT_CREATE_HANDLER_HPP
 #define ARABICA_XSLT_CREATE_HANDLER_HPP
 
+#include <memory>
 #include <SAX/XMLReader.hpp>
 #include <SAX/helpers/DefaultHandler.hpp>
 #include <XPath/XPath.hpp>
diff --git a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
index f55fda0..8017d8b 100644
--- a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
@@ -89,12 +89,12 @@ public:
                           const string_type& localName,
                           const string_type& qName)
   {
-    baseT::context().stylesheet().add_template(lreStylesheet_);
+    baseT::context().stylesheet().add_template(lreStylesheet_.release());
     baseT::endElement(namespaceURI, localName, qName);
   } // endElement
 
 private:
-  Template<string_type, string_adaptor>* lreStylesheet_;
+  std::unique_ptr<Template<string_type, string_adaptor> > lreStylesheet_;
 }; // class LREStylesheetHandler
 
 
diff --git a/include/XSLT/impl/handler/xslt_item_container_handler.hpp b/include/XSLT/impl/handler/xslt_item_container_handler.hpp
index daccc18..99dcb7a 100644
--- a/include/XSLT/impl/handler/xslt_item_container_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_item_container_handler.hpp
@@ -25,7 +25,7 @@ public:
 protected:
   ItemContainerHandler(CompilationContext<string_type, string_adaptor>& context) :
          context_(context),
-         container_(0)
+         container_()
   {
   } // ItemContainerHandler
 
@@ -41,7 +41,8 @@ protected:
                                          const SAX::Attributes<string_type, string_adaptor>& atts) = 0;
 
   CompilationContext<string_type, string_adaptor>& context() const { return context_; }
-  container_type* container() const { return container_; }
+  container_type* container() const { return container_.get(); }
+  container_type* release() { return container_.release(); }
 
 public:
   virtual void startElement(const string_type& namespaceURI,
@@ -51,7 +52,7 @@ public:
   {
     if(container_ == 0)
     {
-      container_ = createContainer(namespaceURI, localName, qName, atts);
+      container_.reset(createContainer(namespaceURI, localName, qName, atts));
       return;
     } // if(item_ == 0)
 
@@ -65,7 +66,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    context_.parentContainer().add_item(container_);
+    context_.parentContainer().add_item(container_.release());
     context_.pop();
   } // endElement
 
@@ -91,13 +92,13 @@ protected:
 
       if(child != 0)
       {
-        context_.push(container_, child, namespaceURI, localName, qName, atts);
+        context_.push(container_.get(), child, namespaceURI, localName, qName, atts);
         return true;
       }
       return false;
     } // if(namespaceURI ...
 
-    context_.push(container_,
+    context_.push(container_.get(),
                   createInlineElementHandler(context_),
                   namespaceURI, 
                   localName, 
@@ -108,7 +109,7 @@ protected:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  container_type* container_;
+  std::unique_ptr<container_type> container_;
 }; // class ItemContainerHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_key_handler.hpp b/include/XSLT/impl/handler/xslt_key_handler.hpp
index 7287974..0541a62 100644
--- a/include/XSLT/impl/handler/xslt_key_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_key_handler.hpp
@@ -18,7 +18,7 @@ class KeyHandler : public SAX::DefaultHandler<string_type, string_adaptor>
 public:
   KeyHandler(CompilationContext<string_type, string_adaptor>& context) :
     context_(context),
-    key_(0)
+    key_()
   {
   } // KeyHandler
 
@@ -41,7 +41,7 @@ public:
       MatchExprList matches = context_.xpath_match_no_variables(attrs[SC::match]);
       Arabica::XPath::XPathExpression<string_type, string_adaptor> use = context_.xpath_expression_no_variables(attrs[SC::use]);
 
-      key_ = new Key<string_type, string_adaptor>(matches, use);
+      key_.reset(new Key<string_type, string_adaptor>(matches, use));
     } // try
     catch(const Arabica::XPath::UnboundVariableException&)
     {
@@ -53,7 +53,7 @@ public:
 		                      const string_type& /* localName */,
 		                      const string_type& /* qName */)
   {
-    context_.stylesheet().add_key(name_, key_);
+    context_.stylesheet().add_key(name_, key_.release());
     context_.pop();
   } // endElement
 
@@ -65,7 +65,7 @@ public:
 private:
   CompilationContext<string_type, string_adaptor>& context_;
   string_type name_;
-  Key<string_type, string_adaptor>* key_;
+  std::unique_ptr<Key<string_type, string_adaptor> > key_;
 }; // class KeyHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_sort_handler.hpp b/include/XSLT/impl/handler/xslt_sort_handler.hpp
index 035ed90..7fb5116 100644
--- a/include/XSLT/impl/handler/xslt_sort_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_sort_handler.hpp
@@ -18,7 +18,7 @@ public:
               Sortable<string_type, string_adaptor>& sortee) : 
     context_(context),
     sortee_(sortee),
-    sort_(0)
+    sort_()
   {
   } // SortHandler
 
@@ -46,11 +46,11 @@ public:
       if(string_adaptor::length(attr[SC::lang]) != 0)
 	      std::cerr << "Sorry!  Don't support xsl:sort lang attribute yet" << std::endl;
  
-      sort_ = new Sort<string_type, string_adaptor>(select,
+      sort_.reset(new Sort<string_type, string_adaptor>(select,
                        lang, 
                        datatype, 
                        order,
-                       caseorder);
+                       caseorder));
       return;
     } // if(sort_ == 0)
 
@@ -61,7 +61,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    sortee_.add_sort(sort_);
+    sortee_.add_sort(sort_.release());
     context_.pop();
   } // endElement
 
@@ -73,7 +73,7 @@ public:
 private:
   CompilationContext<string_type, string_adaptor>& context_;
   Sortable<string_type, string_adaptor>& sortee_;
-  Sort<string_type, string_adaptor>* sort_;
+  std::unique_ptr<Sort<string_type, string_adaptor> > sort_;
 }; // SortHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_template_handler.hpp b/include/XSLT/impl/handler/xslt_template_handler.hpp
index c66852c..18e99bd 100644
--- a/include/XSLT/impl/handler/xslt_template_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_template_handler.hpp
@@ -119,7 +119,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    baseT::context().stylesheet().add_template(baseT::container());
+    baseT::context().stylesheet().add_template(baseT::release());
     baseT::context().pop();
   } // endElement
 
diff --git a/include/XSLT/impl/handler/xslt_text_handler.hpp b/include/XSLT/impl/handler/xslt_text_handler.hpp
index ff98bcd..5870b8d 100644
--- a/include/XSLT/impl/handler/xslt_text_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_text_handler.hpp
@@ -16,7 +16,7 @@ class TextHandler : public SAX::DefaultHandler<string_type, string_adaptor>
 public:
   TextHandler(CompilationContext<string_type, string_adaptor>& context) :
     context_(context),
-    text_(0)
+    text_()
   {
   } // TextHandler
 
@@ -28,7 +28,7 @@ public:
     if(text_ == 0)
     {
       static const AV rules = AV::rule(SC::disable_output_escaping, false, SC::no, AllowedValues<string_type>(SC::yes, SC::no));
-      text_ = new Text<string_type, string_adaptor>(rules.gather(qName, atts)[SC::disable_output_escaping] == SC::yes);
+      text_.reset(new Text<string_type, string_adaptor>(rules.gather(qName, atts)[SC::disable_output_escaping] == SC::yes));
       return;
     } // if(text_ == 0)
 
@@ -40,7 +40,7 @@ public:
                           const string_type& /* qName */)
   {
     text_->set(buffer_);
-    context_.parentContainer().add_item(text_);
+    context_.parentContainer().add_item(text_.release());
     context_.pop();
   } // endElement
 
@@ -51,7 +51,7 @@ public:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  Text<string_type, string_adaptor>* text_;
+  std::unique_ptr<Text<string_type, string_adaptor> > text_;
   string_type buffer_;
 }; // class TextHandler
 
diff --git a/include/XSLT/impl/handler/xslt_value_of_handler.hpp b/include/XSLT/impl/handler/xslt_value_of_handler.hpp
index 4f974a6..99bb1b0 100644
--- a/include/XSLT/impl/handler/xslt_value_of_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_value_of_handler.hpp
@@ -17,7 +17,7 @@ class ValueOfHandler : public SAX::DefaultHandler<string_type, string_adaptor>
 public:
   ValueOfHandler(CompilationContext<string_type, string_adaptor>& context) : 
     context_(context),
-    valueOf_(0)
+    valueOf_()
   {
   } // ValueOfHandler
 
@@ -32,8 +32,8 @@ public:
                                  .rule(SC::disable_output_escaping, false, SC::no, AllowedValues<string_type>(SC::yes, SC::no));
 
       std::map<string_type, string_type> attrs = rules.gather(qName, atts);
-      valueOf_ = new ValueOf<string_type, string_adaptor>(context_.xpath_expression(attrs[SC::select]), 
-			                                               attrs[SC::disable_output_escaping] == SC::yes);
+      valueOf_.reset(new ValueOf<string_type, string_adaptor>(context_.xpath_expression(attrs[SC::select]), 
+			                                               attrs[SC::disable_output_escaping] == SC::yes));
       return;
     } // if(valueOf_ == 0)
 
@@ -44,7 +44,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    context_.parentContainer().add_item(valueOf_);
+    context_.parentContainer().add_item(valueOf_.release());
     context_.pop();
   } // endElement
 
@@ -55,7 +55,7 @@ public:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  ValueOf<string_type, string_adaptor>* valueOf_;
+  std::unique_ptr<ValueOf<string_type, string_adaptor> > valueOf_;
 }; // class ValueOfHandler
 
 } //namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_variable_handler.hpp b/include/XSLT/impl/handler/xslt_variable_handler.hpp
index 5c3f7be..e19bfdc 100644
--- a/include/XSLT/impl/handler/xslt_variable_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_variable_handler.hpp
@@ -92,7 +92,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    baseT::context().stylesheet().add_variable(baseT::container());
+    baseT::context().stylesheet().add_variable(baseT::release());
     baseT::context().pop();
   } // endElement
 
diff --git a/include/XSLT/impl/handler/xslt_with_param_handler.hpp b/include/XSLT/impl/handler/xslt_with_param_handler.hpp
index f23d912..6a3d6ad 100644
--- a/include/XSLT/impl/handler/xslt_with_param_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_with_param_handler.hpp
@@ -25,7 +25,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    paramee_.add_with_param(baseT::container());
+    paramee_.add_with_param(baseT::release());
     baseT::context().pop();
   } // endElement
 
-- 
2.43.0


From 8bc5067d134530b4d81c597a335554589a4452d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:31 +0000
Subject: [PATCH 114/123] fix: variables which refer to themselves through a
 template overflowed the stack

---
 include/XSLT/impl/xslt_execution_context.hpp | 25 +++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 4b5eb69..d621d76 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -143,7 +143,10 @@ public:
   virtual Arabica::XPath::XPathValue<string_type, string_adaptor> value() const 
   {
     if(!value_)
+    {
+      ResolvingFrame frame(var_.name(), resolving_);
       value_ = var_.value(node_, context_, sink_);
+    } // if ...
     return value_;
   } // value
 
@@ -159,15 +162,35 @@ private:
       var_(var),
       sink_(),
       node_(node),
-      context_(sink_, context)
+      context_(sink_, context),
+      resolving_(false)
   {
   } // VariableClosure
 
+  class ResolvingFrame
+  {
+  public:
+    ResolvingFrame(const string_type& name, bool& resolving) : resolving_(resolving) 
+    { 
+      if(resolving_)
+        throw std::runtime_error("Circular dependency: " + string_adaptor::asStdString(name) + " refers to itself directly or indirectly.");
+      resolving_ = true; 
+    } // ResolvingFrame
+    ~ResolvingFrame() { resolving_ = false; }
+
+  private:
+    bool& resolving_;
+
+    ResolvingFrame(const ResolvingFrame&);
+    ResolvingFrame& operator=(const ResolvingFrame&);
+  }; // class ResolvingFrame
+
   const Variable_declaration<string_type, string_adaptor>& var_;
   mutable DOMSink<string_type, string_adaptor> sink_;
   const DOM::Node<string_type, string_adaptor> node_;
   mutable ExecutionContext<string_type, string_adaptor> context_;
   mutable Arabica::XPath::XPathValue<string_type, string_adaptor> value_;
+  mutable bool resolving_;
 
   VariableClosure();
   VariableClosure(const VariableClosure&);
-- 
2.43.0


From 1331c9cf394124f2bce193f312bac87ea2b84ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:23 +0000
Subject: [PATCH 115/123] fix: tree walkers went backwards for the next
 sibling, and lost their way among skipped nodes

---
 include/DOM/Traversal/TreeWalkerImpl.hpp | 188 +++++++++--------------
 1 file changed, 74 insertions(+), 114 deletions(-)

diff --git a/include/DOM/Traversal/TreeWalkerImpl.hpp b/include/DOM/Traversal/TreeWalkerImpl.hpp
index 79226a0..9f4bc4f 100644
--- a/include/DOM/Traversal/TreeWalkerImpl.hpp
+++ b/include/DOM/Traversal/TreeWalkerImpl.hpp
@@ -53,7 +53,12 @@ public:
 
   node_t getCurrentNode() { return currentNode_; }
 
-  void setCurrentNode(const node_t& currentNode) { currentNode_ = currentNode; }
+  void setCurrentNode(const node_t& currentNode) 
+  { 
+    if(currentNode == 0)
+      throw DOM::DOMException(DOM::DOMException::NOT_SUPPORTED_ERR);
+    currentNode_ = currentNode; 
+  }
 
   node_t parentNode()
   {
@@ -81,7 +86,7 @@ public:
 
   node_t previousSibling()
   {
-    node_t n = getPreviousSiblingImpl(currentNode_);
+    node_t n = getPreviousSiblingImpl(currentNode_, root_);
     if(n != 0)
       currentNode_ = n;
     return n;
@@ -89,7 +94,7 @@ public:
 
   node_t nextSibling()
   {
-    node_t n = getPreviousSiblingImpl(currentNode_);
+    node_t n = getNextSiblingImpl(currentNode_, root_);
     if(n != 0)
       currentNode_ = n;
     return n;
@@ -97,16 +102,17 @@ public:
 
   node_t previousNode()
   {
-    node_t n = getPreviousSiblingImpl(currentNode_);
+    node_t n = getPreviousSiblingImpl(currentNode_, root_);
     if(n != 0)
     {
-      node_t last_child = getLastChildImpl(n);
-      currentNode_ = (last_child != 0) ? last_child : n;
-      return currentNode_;
+      for(node_t last_child = getLastChildImpl(n); last_child != 0; last_child = getLastChildImpl(n))
+        n = last_child;
+      currentNode_ = n;
+      return n;
     }
     else
     {
-      n = getParentNodeImpl(n);
+      n = getParentNodeImpl(currentNode_);
       if(n != 0)
         currentNode_ = n;
       return n;
@@ -122,16 +128,9 @@ public:
       return n;
     }
 
-    n = getNextSiblingImpl(currentNode_);
-    if(n != 0)
-    {
-      currentNode_ = n;
-      return n;
-    }
-
-    for(node_t parent = getParentNodeImpl(currentNode_); parent != 0; parent = getParentNodeImpl(parent))
+    for(node_t from = currentNode_; from != 0; from = getParentNodeImpl(from))
     { 
-      n = getNextSiblingImpl(parent);
+      n = getNextSiblingImpl(from, root_);
       if(n != 0)
       {
         currentNode_ = n;
@@ -149,124 +148,85 @@ public:
   }
 
 protected:
-  node_t getParentNodeImpl(node_t& node)
-  {
-    if(node == 0 || node == root_)
-      return empty_node();
-
-    node_t new_node = node.getParentNode();
-    if (new_node == 0|| new_node == root_) //todo: check for root here?
-      return empty_node();
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else
-      return getParentNodeImpl(new_node);
-  }
-
-  node_t getNextSiblingImpl(node_t& node)
+  node_t getParentNodeImpl(const node_t& node)
   {
-    if(node == 0 || node == root_)
-      return empty_node();
-
-    node_t new_node = node.getNextSibling();
-    if (new_node == 0)
+    for(node_t n = node; n != 0 && n != root_; )
     {
-      new_node = node.getParentNode();
-      if (new_node == 0 || new_node == root_)
-        return empty_node();
-
-      filter_result_t accept = acceptNode(new_node);
-      if (filter_t::FILTER_SKIP == accept)
-        return getNextSiblingImpl(new_node);
-      else
-        return empty_node();
+      n = n.getParentNode();
+      if(n != 0 && filter_t::FILTER_ACCEPT == acceptNode(n))
+        return n;
     }
+    return empty_node();
+  }
 
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept)
-    {
-      node_t child = getFirstChildImpl(new_node);
-      if (child == 0 && !new_node.hasChildNodes())
-        return getNextSiblingImpl(new_node);
-      else
-        return child;
-    }
-    else
-      return getNextSiblingImpl(new_node);
+  node_t getNextSiblingImpl(const node_t& node, const node_t& limit)
+  {
+    return getSiblingImpl(node, limit, true);
   }
   
-  node_t getPreviousSiblingImpl(node_t& node)
+  node_t getPreviousSiblingImpl(const node_t& node, const node_t& limit)
   {
-    if(node == 0 || node == root_)
-      return empty_node();
-
-    node_t new_node = node.getPreviousSibling();
-    if (new_node == 0)
-    {
-      new_node = node.getParentNode();
-      if (new_node == 0 || new_node == root_)
-        return empty_node();
-     
-      filter_result_t accept = acceptNode(new_node);
-      if (filter_t::FILTER_SKIP == accept)
-        return getPreviousSiblingImpl(new_node);
-      else
-        return empty_node();
-    }
+    return getSiblingImpl(node, limit, false);
+  }
 
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept)
-    {
-      node_t child = getLastChildImpl(new_node);
-      if (child == 0 && !new_node.hasChildNodes())
-        return getPreviousSiblingImpl(new_node);
-      else
-        return child;
-    }
-    else
-      return getPreviousSiblingImpl(new_node);
+  node_t getFirstChildImpl(const node_t& node)
+  {
+    return getChildImpl(node, true);
   }
 
-  node_t getFirstChildImpl(node_t& node)
+  node_t getLastChildImpl(const node_t& node)
   {
-    if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
-      return empty_node();
+    return getChildImpl(node, false);
+  }
 
-    node_t new_node = node.getFirstChild();
-    if (new_node == 0)
-      return empty_node();
+  // the children of a node which is skipped take its place, so look 
+  // there too, but no further up than limit 
+  node_t getSiblingImpl(const node_t& node, const node_t& limit, bool forwards)
+  {
+    for(node_t n = node; n != 0 && n != limit; )
+    {
+      node_t sibling = forwards ? n.getNextSibling() : n.getPreviousSibling();
+      if(sibling == 0)
+      {
+        n = n.getParentNode();
+        if(n == 0 || n == limit || filter_t::FILTER_SKIP != acceptNode(n))
+          return empty_node();
+        continue;
+      }
 
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept && new_node.hasChildNodes())
-      return getFirstChildImpl(new_node);
-    else
-      return getNextSiblingImpl(new_node);
+      n = sibling;
+      filter_result_t accept = acceptNode(n);
+      if(filter_t::FILTER_ACCEPT == accept)
+        return n;
+      if(filter_t::FILTER_SKIP == accept)
+      {
+        node_t child = getChildImpl(n, forwards);
+        if(child != 0)
+          return child;
+      }
+    }
+    return empty_node();
   }
 
-  node_t getLastChildImpl(node_t& node)
+  node_t getChildImpl(const node_t& node, bool first)
   {
     if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
       return empty_node();
 
-    node_t new_node = node.getLastChild();
-    if (new_node == 0)
+    node_t child = first ? node.getFirstChild() : node.getLastChild();
+    if(child == 0)
       return empty_node();
 
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept && new_node.hasChildNodes())
-      return getLastChildImpl(new_node);
-    else
-      return getPreviousSiblingImpl(new_node);
+    filter_result_t accept = acceptNode(child);
+    if(filter_t::FILTER_ACCEPT == accept)
+      return child;
+    if(filter_t::FILTER_SKIP == accept)
+    {
+      node_t grandchild = getChildImpl(child, first);
+      if(grandchild != 0)
+        return grandchild;
+    }
+    return getSiblingImpl(child, node, first);
   }
   
   //node-filter will only be checked if what-to-show succeeds
-- 
2.43.0


From f3541a82edb48933b30ced531d8f692c687d3b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:23 +0000
Subject: [PATCH 116/123] fix: a tree walker could be made without a root

---
 include/DOM/Traversal/DocumentTraversalImpl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/DOM/Traversal/DocumentTraversalImpl.hpp b/include/DOM/Traversal/DocumentTraversalImpl.hpp
index 4f44b85..a70f8b4 100644
--- a/include/DOM/Traversal/DocumentTraversalImpl.hpp
+++ b/include/DOM/Traversal/DocumentTraversalImpl.hpp
@@ -42,6 +42,8 @@ class DocumentTraversalImpl : public DocumentTraversal_impl<stringT, string_adap
                                  NodeFilterT* filter,
                                  bool entityRefExpansion)
     {
+      if(root == 0)
+        throw DOM::DOMException(DOM::DOMException::NOT_SUPPORTED_ERR);
       return new TreeWalkerImplT(root, whatToShow, filter, entityRefExpansion);
     }
 }; // class DocumentTraversalImpl
-- 
2.43.0


From f718c406aecf9d8929f874b6e9edcba262b6a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:57 +0000
Subject: [PATCH 117/123] fix: Taggle gave out its locator after the document
 had started

---
 include/Taggle/impl/Parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 41d4b0e..5c47c8f 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -466,12 +466,12 @@ public:
       return;
     } // if(is.resolver() == 0)
 
-    contentHandler_->startDocument();
     scanner_->resetDocumentLocator(string_adaptor::asStdString(input.getPublicId()), string_adaptor::asStdString(input.getSystemId()));
 
     if(dynamic_cast<LocatorT*>(scanner_) != 0) 
       contentHandler_->setDocumentLocator(*(dynamic_cast<LocatorT*>(scanner_)));
 
+    contentHandler_->startDocument();
     if(schema_->getURI() != "")
       contentHandler_->startPrefixMapping(S(schema_->getPrefix()), 
                                           S(schema_->getURI()));
-- 
2.43.0


From b5d64293abc3849df99cee94114d9de4e4097c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:57 +0000
Subject: [PATCH 118/123] fix: Taggle could not report a referenced character
 outside ASCII

---
 include/Taggle/impl/Parser.hpp           | 23 +++++++---------
 include/Taggle/impl/ScanHandler.hpp      | 34 ++++++++++++++++++++++++
 include/Taggle/impl/SchemaImpl.hpp       |  4 +--
 include/Taggle/impl/html/HTMLScanner.hpp | 24 ++---------------
 4 files changed, 47 insertions(+), 38 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 5c47c8f..6779a20 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -575,17 +575,10 @@ private:
       {
         // properly terminated ref
         int ent = lookupEntity(dst.substr(refStart, dst.size() - refStart - 1));
-        if(ent > 0xFFFF) 
+        if(ent != 0) 
         {
-          ent -= 0x10000;
-          dst[refStart - 1] = (char)((ent>>10) + 0xD800);
-          dst[refStart] = (char)((ent&0x3FF) + 0xDC00);
-          dst.erase(refStart + 1);
-        }
-        else if(ent != 0) 
-        {
-          dst[refStart - 1] = (char)ent;
-          dst.erase(refStart);  
+          dst.erase(refStart - 1);
+          dst += referenced_character(ent);
         }
         refStart = std::string::npos;
       }
@@ -613,11 +606,13 @@ private:
 
     if(buff[0] == '#') 
     {
-      const char* b = buff.c_str();
+      bool hex = (buff.length() > 1 && (buff[1] == 'x' || buff[1] == 'X'));
+      const char* b = buff.c_str() + (hex ? 2 : 1);
       char* end;
-      if(buff.length() > 1 && (buff[1] == 'x' || buff[1] == 'X')) 
-        return strtol(b + 2, &end, 16);
-      return strtol(b + 1, &end, 10);
+      long ch = strtol(b, &end, hex ? 16 : 10);
+      if(*end != 0 || ch < 0 || ch > 0x10FFFF)
+        return result;
+      return static_cast<int>(ch);
     }
     return schema_->getEntity(buff);
   } // lookupEntity
diff --git a/include/Taggle/impl/ScanHandler.hpp b/include/Taggle/impl/ScanHandler.hpp
index 1f42c3b..eb1ebae 100755
--- a/include/Taggle/impl/ScanHandler.hpp
+++ b/include/Taggle/impl/ScanHandler.hpp
@@ -101,6 +101,40 @@ public:
 	virtual int getEntity() = 0;
 }; // class ScanHandler
 
+/**
+ The text, in UTF-8, which a reference to a character stands for.  Controls
+ become spaces, and surrogates and non-characters are dropped.
+*/
+inline std::string referenced_character(int ch)
+{
+  std::string utf8;
+  if(ch < 0x20)
+    utf8 += ' ';
+  else if(ch < 0x80)
+    utf8 += static_cast<char>(ch);
+  else if(ch < 0x800)
+  {
+    utf8 += static_cast<char>(0xC0 | (ch >> 6));
+    utf8 += static_cast<char>(0x80 | (ch & 0x3F));
+  }
+  else if(ch < 0x10000)
+  {
+    if((ch >= 0xD800 && ch <= 0xDFFF) || ch >= 0xFFFE)
+      return utf8;
+    utf8 += static_cast<char>(0xE0 | (ch >> 12));
+    utf8 += static_cast<char>(0x80 | ((ch >> 6) & 0x3F));
+    utf8 += static_cast<char>(0x80 | (ch & 0x3F));
+  }
+  else
+  {
+    utf8 += static_cast<char>(0xF0 | (ch >> 18));
+    utf8 += static_cast<char>(0x80 | ((ch >> 12) & 0x3F));
+    utf8 += static_cast<char>(0x80 | ((ch >> 6) & 0x3F));
+    utf8 += static_cast<char>(0x80 | (ch & 0x3F));
+  }
+  return utf8;
+} // referenced_character
+
 } // namespace SAX
 
 } // namespace Arabica
diff --git a/include/Taggle/impl/SchemaImpl.hpp b/include/Taggle/impl/SchemaImpl.hpp
index 6e35994..9be435f 100644
--- a/include/Taggle/impl/SchemaImpl.hpp
+++ b/include/Taggle/impl/SchemaImpl.hpp
@@ -22,7 +22,7 @@ Based on code from John Cowan's super TagSoup package
 class SchemaImpl : public Schema
 {
 private:
-  std::map<std::string, char> entities_;
+  std::map<std::string, int> entities_;
   std::map<std::string, ElementType*> elementTypes_;
 
 	std::string URI_;
@@ -129,7 +129,7 @@ public:
 	**/
 	int getEntity(const std::string& name) const
   {
-    std::map<std::string, char>::const_iterator ent = entities_.find(name);
+    std::map<std::string, int>::const_iterator ent = entities_.find(name);
     if(ent == entities_.end())
       return 0;
 		return ent->second;
diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index 1001b2d..a3af02f 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -6,6 +6,7 @@
 #include <SAX/Locator.hpp>
 #include <XML/XMLCharacterClasses.hpp>
 #include "../Scanner.hpp"
+#include "../ScanHandler.hpp"
 
 namespace Arabica
 {
@@ -344,28 +345,7 @@ public:
               {
                 //ent = WinCharMap[ent-0x80];
               }
-              if (ent < 0x20) 
-              {
-                // Control becomes space
-                ent = 0x20;
-              }
-              else if (ent >= 0xD800 && ent <= 0xDFFF) 
-              {
-                // Surrogates get dropped
-                ent = 0;
-              }
-              else if (ent <= 0xFFFF) 
-              {
-                // BMP character
-                save(ent, h);
-              }
-              else 
-              {
-                // Astral converted to two surrogates
-                ent -= 0x10000;
-                save((ent>>10) + 0xD800, h);
-                save((ent&0x3FF) + 0xDC00, h);
-              }
+              outputBuffer_ += referenced_character(ent);
               if (ch != ';') 
               {
                 r.unget();
-- 
2.43.0


From 0ade49b369906a1faf4e5da7cf7482c07c09457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:57 +0000
Subject: [PATCH 119/123] fix: Taggle split long text in the middle of
 characters

---
 include/Taggle/impl/html/HTMLScanner.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index a3af02f..b00bfe8 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -486,7 +486,8 @@ private:
 
   void save(int ch, ScanHandler& h)
   {
-    if (outputBuffer_.size() >= outputBuffer_.capacity() - 20) 
+    // chunks hold whole characters
+    if (outputBuffer_.size() >= outputBuffer_.capacity() - 20 && (ch & 0xC0) != 0x80) 
     {
       if (state_ == S_PCDATA || state_ == S_CDATA) 
       {
-- 
2.43.0


From e00ae712380fb194725c28d3cbfacf8a69f3a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:57 +0000
Subject: [PATCH 120/123] fix: Taggle misread document types, and did not
 report that of a second document

---
 include/Taggle/impl/Parser.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 6779a20..6898317 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -513,6 +513,7 @@ private:
     saved_ = Element::Null;
     entity_ = 0;
     virginStack = true;
+    doctypeIsPresent_ = false;
     doctypeName_ = doctypePublicId_ = doctypeSystemId_ = "";
   } // setup
 
@@ -850,19 +851,19 @@ private:
     std::string systemid;
     std::string publicid;
     std::vector<std::string> v = split(buff);
-    if((v.size() > 0) && ("DOCTYPE" == v[0])) 
+    if((v.size() > 0) && ("doctype" == lower_case(v[0]))) 
     {
-      if(doctypeIsPresent_) 
-        return;    // one doctype only!
+      if(doctypeIsPresent_ || !virginStack) 
+        return;    // one doctype only, ahead of everything!
       doctypeIsPresent_ = true;
       if(v.size() > 1) 
       {
-        name = v[1];
-        if(v.size()>3 && "SYSTEM" == v[2]) 
+        name = makeName(v[1]);
+        if(v.size()>3 && "system" == lower_case(v[2])) 
         {
           systemid = v[3];
         }
-        else if(v.size() > 3 && "PUBLIC" == v[2]) 
+        else if(v.size() > 3 && "public" == lower_case(v[2])) 
         {
           publicid = v[3];
           if(v.size() > 4) 
@@ -901,8 +902,8 @@ private:
       return in;
     char s = in[0];
     char e = in[length - 1];
-    if(s == e && (s == '\'' || s == '"')) 
-      return in.substr(1, length - 1);
+    if(length > 1 && s == e && (s == '\'' || s == '"')) 
+      return in.substr(1, length - 2);
     return in;
   } // trimquotes
 
@@ -944,7 +945,7 @@ private:
       {
         if(Arabica::XML::is_space(c)) 
         {
-          splits.push_back(v.substr(s, e));
+          splits.push_back(v.substr(s, e - s));
 				  s = std::string::npos;
 				}
         else if(s == std::string::npos && c != ' ') 
@@ -954,7 +955,7 @@ private:
       }
       lastc = c;
     } // for ...
-    splits.push_back(v.substr(s, e));
+    splits.push_back(v.substr(s, e - s));
 
     return splits;
   } // split
-- 
2.43.0


From d247768463ae2a2ad13364fe9189b7f6d2066792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:57 +0000
Subject: [PATCH 121/123] fix: Taggle declared prefixes more than once for an
 element, and declared xml

---
 include/Taggle/impl/Parser.hpp | 44 ++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 6898317..ecb9e8e 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -749,17 +749,9 @@ private:
     contentHandler_->endElement(S(namespaceName), 
                                 S(localName), 
                                 S(name));
-    if(foreign(prefix, namespaceName)) 
-      contentHandler_->endPrefixMapping(S(prefix));
-
-    const Attributes<std::string>& atts = stack_.atts();
-    for (int i = atts.getLength() - 1; i >= 0; i--) 
-    {
-      std::string attNamespace = atts.getURI(i);
-      std::string attPrefix = prefixOf(atts.getQName(i));
-      if(foreign(attPrefix, attNamespace)) 
-        contentHandler_->endPrefixMapping(S(attPrefix));
-    } // for ...
+    MappingsT mappings = foreignMappings(prefix, namespaceName, stack_.atts());
+    for (MappingsT::const_reverse_iterator i = mappings.rbegin(), ie = mappings.rend(); i != ie; ++i)
+      contentHandler_->endPrefixMapping(S(i->first));
     stack_ = stack_.next();
   } // pop
 
@@ -789,18 +781,14 @@ private:
       namespaceName = localName = "";
     if(virginStack && (lower_case(localName) == lower_case(doctypeName_))) 
       entityResolver_->resolveEntity(S(doctypePublicId_), S(doctypeSystemId_));
-    if(foreign(prefix, namespaceName)) 
-      contentHandler_->startPrefixMapping(S(prefix), S(namespaceName));
-    
+    MappingsT mappings = foreignMappings(prefix, namespaceName, e.atts());
+    for (MappingsT::const_iterator i = mappings.begin(), ie = mappings.end(); i != ie; ++i)
+      contentHandler_->startPrefixMapping(S(i->first), S(i->second));
+
     AttributesImpl<string_type, string_adaptor> atts;
     int len = e.atts().getLength();
     for (int i = 0; i != len; ++i) 
     {
-      std::string attNamespace = e.atts().getURI(i);
-      std::string attPrefix = prefixOf(e.atts().getQName(i));
-      if(foreign(attPrefix, attNamespace)) 
-        contentHandler_->startPrefixMapping(S(attPrefix), S(attNamespace));
-
       atts.addAttribute(S(e.atts().getURI(i)),
                         S(e.atts().getLocalName(i)),
                         S(e.atts().getQName(i)),
@@ -829,10 +817,26 @@ private:
   // Return true if we have a foreign name
   bool foreign(std::string prefix, std::string namespaceName) 
   {
-    bool foreign = !((prefix == "") || (namespaceName == "") || (namespaceName == schema_->getURI()));
+    bool foreign = !((prefix == "") || (prefix == "xml") || (namespaceName == "") || (namespaceName == schema_->getURI()));
     return foreign;
   } // foreign
 
+  // The foreign prefixes an element and its attributes use, once each
+  typedef std::map<std::string, std::string> MappingsT;
+  MappingsT foreignMappings(const std::string& prefix, const std::string& namespaceName, const Attributes<std::string>& atts)
+  {
+    MappingsT mappings;
+    if(foreign(prefix, namespaceName))
+      mappings[prefix] = namespaceName;
+    for (int i = 0, len = atts.getLength(); i != len; ++i)
+    {
+      std::string attPrefix = prefixOf(atts.getQName(i));
+      if(foreign(attPrefix, atts.getURI(i)))
+        mappings[attPrefix] = atts.getURI(i);
+    } // for ...
+    return mappings;
+  } // foreignMappings
+
   /**
    * Parsing the complete XML Document Type Definition is way too complex,
    * but for many simple cases we can extract something useful from it.
-- 
2.43.0


From d27a70fc74b3a100b1d0ad57dcfdec922eafa938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:57 +0000
Subject: [PATCH 122/123] fix: Taggle did not see the end of input after the
 slash of an empty tag

---
 include/Taggle/impl/html/HTMLScanner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index b00bfe8..a91a080 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -595,6 +595,7 @@ const int HTMLScanner::statetable[] = {
     S_DECL2, -1, A_SKIP, S_DONE,
     S_EMPTYTAG, '>', A_EMPTYTAG, S_PCDATA,
     S_EMPTYTAG, 0, A_SAVE, S_ANAME,
+    S_EMPTYTAG, -1, A_EMPTYTAG, S_DONE,
     S_EMPTYTAG, ' ', A_SKIP, S_TAGWS,
     S_EMPTYTAG, '\n', A_SKIP, S_TAGWS,
     S_EMPTYTAG, '\t', A_SKIP, S_TAGWS,
-- 
2.43.0


From fd1996d52d0817f82f94e5d17c01b1de39a26542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:55 +0000
Subject: [PATCH 123/123] fix: Taggle knew no character entities outside
 Latin-1

---
 include/Taggle/impl/html/HTMLSchema.hpp | 3924 +++++++++++------------
 1 file changed, 1962 insertions(+), 1962 deletions(-)

diff --git a/include/Taggle/impl/html/HTMLSchema.hpp b/include/Taggle/impl/html/HTMLSchema.hpp
index 010714b..e9a5a08 100644
--- a/include/Taggle/impl/html/HTMLSchema.hpp
+++ b/include/Taggle/impl/html/HTMLSchema.hpp
@@ -830,2117 +830,2117 @@ private:
 
   void entities()
   {
-		//entity("aacgr", 0x03AC);
-		//entity("Aacgr", 0x0386);
+		entity("aacgr", 0x03AC);
+		entity("Aacgr", 0x0386);
 		entity("aacute", 0x00E1);
 		entity("Aacute", 0x00C1);
-		//entity("abreve", 0x0103);
-		//entity("Abreve", 0x0102);
-		//entity("ac", 0x223E);
-		//entity("acd", 0x223F);
+		entity("abreve", 0x0103);
+		entity("Abreve", 0x0102);
+		entity("ac", 0x223E);
+		entity("acd", 0x223F);
 		entity("acirc", 0x00E2);
 		entity("Acirc", 0x00C2);
 		entity("acute", 0x00B4);
-		//entity("acy", 0x0430);
-		//entity("Acy", 0x0410);
+		entity("acy", 0x0430);
+		entity("Acy", 0x0410);
 		entity("aelig", 0x00E6);
 		entity("AElig", 0x00C6);
-		//entity("af", 0x2061);
-		//entity("afr", 0x1D51E);
-		//entity("Afr", 0x1D504);
-		//entity("agr", 0x03B1);
-		//entity("Agr", 0x0391);
+		entity("af", 0x2061);
+		entity("afr", 0x1D51E);
+		entity("Afr", 0x1D504);
+		entity("agr", 0x03B1);
+		entity("Agr", 0x0391);
 		entity("agrave", 0x00E0);
 		entity("Agrave", 0x00C0);
-		//entity("alefsym", 0x2135);
-		//entity("aleph", 0x2135);
-		//entity("alpha", 0x03B1);
-		//entity("Alpha", 0x0391);
-		//entity("amacr", 0x0101);
-		//entity("Amacr", 0x0100);
-		//entity("amalg", 0x2A3F);
+		entity("alefsym", 0x2135);
+		entity("aleph", 0x2135);
+		entity("alpha", 0x03B1);
+		entity("Alpha", 0x0391);
+		entity("amacr", 0x0101);
+		entity("Amacr", 0x0100);
+		entity("amalg", 0x2A3F);
 		entity("amp", 0x0026);
-		//entity("and", 0x2227);
-		//entity("And", 0x2A53);
-		//entity("andand", 0x2A55);
-		//entity("andd", 0x2A5C);
-		//entity("andslope", 0x2A58);
-		//entity("andv", 0x2A5A);
-		//entity("ang", 0x2220);
-		//entity("ange", 0x29A4);
-		//entity("angle", 0x2220);
-		//entity("angmsd", 0x2221);
-		//entity("angmsdaa", 0x29A8);
-		//entity("angmsdab", 0x29A9);
-		//entity("angmsdac", 0x29AA);
-		//entity("angmsdad", 0x29AB);
-		//entity("angmsdae", 0x29AC);
-		//entity("angmsdaf", 0x29AD);
-		//entity("angmsdag", 0x29AE);
-		//entity("angmsdah", 0x29AF);
-		//entity("angrt", 0x221F);
-		//entity("angrtvb", 0x22BE);
-		//entity("angrtvbd", 0x299D);
-		//entity("angsph", 0x2222);
-		//entity("angst", 0x212B);
-		//entity("angzarr", 0x237C);
-		//entity("aogon", 0x0105);
-		//entity("Aogon", 0x0104);
-		//entity("aopf", 0x1D552);
-		//entity("Aopf", 0x1D538);
-		//entity("ap", 0x2248);
-		//entity("apacir", 0x2A6F);
-		//entity("ape", 0x224A);
-		//entity("apE", 0x2A70);
-		//entity("apid", 0x224B);
+		entity("and", 0x2227);
+		entity("And", 0x2A53);
+		entity("andand", 0x2A55);
+		entity("andd", 0x2A5C);
+		entity("andslope", 0x2A58);
+		entity("andv", 0x2A5A);
+		entity("ang", 0x2220);
+		entity("ange", 0x29A4);
+		entity("angle", 0x2220);
+		entity("angmsd", 0x2221);
+		entity("angmsdaa", 0x29A8);
+		entity("angmsdab", 0x29A9);
+		entity("angmsdac", 0x29AA);
+		entity("angmsdad", 0x29AB);
+		entity("angmsdae", 0x29AC);
+		entity("angmsdaf", 0x29AD);
+		entity("angmsdag", 0x29AE);
+		entity("angmsdah", 0x29AF);
+		entity("angrt", 0x221F);
+		entity("angrtvb", 0x22BE);
+		entity("angrtvbd", 0x299D);
+		entity("angsph", 0x2222);
+		entity("angst", 0x212B);
+		entity("angzarr", 0x237C);
+		entity("aogon", 0x0105);
+		entity("Aogon", 0x0104);
+		entity("aopf", 0x1D552);
+		entity("Aopf", 0x1D538);
+		entity("ap", 0x2248);
+		entity("apacir", 0x2A6F);
+		entity("ape", 0x224A);
+		entity("apE", 0x2A70);
+		entity("apid", 0x224B);
 		entity("apos", 0x0027);
-		//entity("ApplyFunction", 0x2061);
-		//entity("approx", 0x2248);
-		//entity("approxeq", 0x224A);
+		entity("ApplyFunction", 0x2061);
+		entity("approx", 0x2248);
+		entity("approxeq", 0x224A);
 		entity("aring", 0x00E5);
 		entity("Aring", 0x00C5);
-		//entity("ascr", 0x1D4B6);
-		//entity("Ascr", 0x1D49C);
-		//entity("Assign", 0x2254);
+		entity("ascr", 0x1D4B6);
+		entity("Ascr", 0x1D49C);
+		entity("Assign", 0x2254);
 		entity("ast", 0x002A);
-		//entity("asymp", 0x2248);
-		//entity("asympeq", 0x224D);
+		entity("asymp", 0x2248);
+		entity("asympeq", 0x224D);
 		entity("atilde", 0x00E3);
 		entity("Atilde", 0x00C3);
 		entity("auml", 0x00E4);
 		entity("Auml", 0x00C4);
-		//entity("awconint", 0x2233);
-		//entity("awint", 0x2A11);
-		//entity("b.alpha", 0x1D6C2);
-		//entity("b.beta", 0x1D6C3);
-		//entity("b.chi", 0x1D6D8);
-		//entity("b.delta", 0x1D6C5);
-		//entity("b.Delta", 0x1D6AB);
-		//entity("b.epsi", 0x1D6C6);
-		//entity("b.epsiv", 0x1D6DC);
-		//entity("b.eta", 0x1D6C8);
-		//entity("b.gamma", 0x1D6C4);
-		//entity("b.Gamma", 0x1D6AA);
-		//entity("b.gammad", 0x1D7CB);
-		//entity("b.Gammad", 0x1D7CA);
-		//entity("b.iota", 0x1D6CA);
-		//entity("b.kappa", 0x1D6CB);
-		//entity("b.kappav", 0x1D6DE);
-		//entity("b.lambda", 0x1D6CC);
-		//entity("b.Lambda", 0x1D6B2);
-		//entity("b.mu", 0x1D6CD);
-		//entity("b.nu", 0x1D6CE);
-		//entity("b.omega", 0x1D6DA);
-		//entity("b.Omega", 0x1D6C0);
-		//entity("b.phi", 0x1D6D7);
-		//entity("b.Phi", 0x1D6BD);
-		//entity("b.phiv", 0x1D6DF);
-		//entity("b.pi", 0x1D6D1);
-		//entity("b.Pi", 0x1D6B7);
-		//entity("b.piv", 0x1D6E1);
-		//entity("b.psi", 0x1D6D9);
-		//entity("b.Psi", 0x1D6BF);
-		//entity("b.rho", 0x1D6D2);
-		//entity("b.rhov", 0x1D6E0);
-		//entity("b.sigma", 0x1D6D4);
-		//entity("b.Sigma", 0x1D6BA);
-		//entity("b.sigmav", 0x1D6D3);
-		//entity("b.tau", 0x1D6D5);
-		//entity("b.Theta", 0x1D6AF);
-		//entity("b.thetas", 0x1D6C9);
-		//entity("b.thetav", 0x1D6DD);
-		//entity("b.upsi", 0x1D6D6);
-		//entity("b.Upsi", 0x1D6BC);
-		//entity("b.xi", 0x1D6CF);
-		//entity("b.Xi", 0x1D6B5);
-		//entity("b.zeta", 0x1D6C7);
-		//entity("backcong", 0x224C);
-		//entity("backepsilon", 0x03F6);
-		//entity("backprime", 0x2035);
-		//entity("backsim", 0x223D);
-		//entity("backsimeq", 0x22CD);
-		//entity("Backslash", 0x2216);
-		//entity("Barv", 0x2AE7);
-		//entity("barvee", 0x22BD);
-		//entity("barwed", 0x2305);
-		//entity("Barwed", 0x2306);
-		//entity("barwedge", 0x2305);
-		//entity("bbrk", 0x23B5);
-		//entity("bbrktbrk", 0x23B6);
-		//entity("bcong", 0x224C);
-		//entity("bcy", 0x0431);
-		//entity("Bcy", 0x0411);
-		//entity("bdquo", 0x201E);
-		//entity("becaus", 0x2235);
-		//entity("because", 0x2235);
-		//entity("bemptyv", 0x29B0);
-		//entity("bepsi", 0x03F6);
-		//entity("bernou", 0x212C);
-		//entity("Bernoullis", 0x212C);
-		//entity("beta", 0x03B2);
-		//entity("Beta", 0x0392);
-		//entity("beth", 0x2136);
-		//entity("between", 0x226C);
-		//entity("bfr", 0x1D51F);
-		//entity("Bfr", 0x1D505);
-		//entity("bgr", 0x03B2);
-		//entity("Bgr", 0x0392);
-		//entity("bigcap", 0x22C2);
-		//entity("bigcirc", 0x25EF);
-		//entity("bigcup", 0x22C3);
-		//entity("bigodot", 0x2A00);
-		//entity("bigoplus", 0x2A01);
-		//entity("bigotimes", 0x2A02);
-		//entity("bigsqcup", 0x2A06);
-		//entity("bigstar", 0x2605);
-		//entity("bigtriangledown", 0x25BD);
-		//entity("bigtriangleup", 0x25B3);
-		//entity("biguplus", 0x2A04);
-		//entity("bigvee", 0x22C1);
-		//entity("bigwedge", 0x22C0);
-		//entity("bkarow", 0x290D);
-		//entity("blacklozenge", 0x29EB);
-		//entity("blacksquare", 0x25AA);
-		//entity("blacktriangle", 0x25B4);
-		//entity("blacktriangledown", 0x25BE);
-		//entity("blacktriangleleft", 0x25C2);
-		//entity("blacktriangleright", 0x25B8);
-		//entity("blank", 0x2423);
-		//entity("blk12", 0x2592);
-		//entity("blk14", 0x2591);
-		//entity("blk34", 0x2593);
-		//entity("block", 0x2588);
-		//entity("bnot", 0x2310);
-		//entity("bNot", 0x2AED);
-		//entity("bopf", 0x1D553);
-		//entity("Bopf", 0x1D539);
-		//entity("bot", 0x22A5);
-		//entity("bottom", 0x22A5);
-		//entity("bowtie", 0x22C8);
-		//entity("boxbox", 0x29C9);
-		//entity("boxdl", 0x2510);
-		//entity("boxdL", 0x2555);
-		//entity("boxDl", 0x2556);
-		//entity("boxDL", 0x2557);
-		//entity("boxdr", 0x250C);
-		//entity("boxdR", 0x2552);
-		//entity("boxDr", 0x2553);
-		//entity("boxDR", 0x2554);
-		//entity("boxh", 0x2500);
-		//entity("boxH", 0x2550);
-		//entity("boxhd", 0x252C);
-		//entity("boxhD", 0x2565);
-		//entity("boxHd", 0x2564);
-		//entity("boxHD", 0x2566);
-		//entity("boxhu", 0x2534);
-		//entity("boxhU", 0x2568);
-		//entity("boxHu", 0x2567);
-		//entity("boxHU", 0x2569);
-		//entity("boxminus", 0x229F);
-		//entity("boxplus", 0x229E);
-		//entity("boxtimes", 0x22A0);
-		//entity("boxul", 0x2518);
-		//entity("boxuL", 0x255B);
-		//entity("boxUl", 0x255C);
-		//entity("boxUL", 0x255D);
-		//entity("boxur", 0x2514);
-		//entity("boxuR", 0x2558);
-		//entity("boxUr", 0x2559);
-		//entity("boxUR", 0x255A);
-		//entity("boxv", 0x2502);
-		//entity("boxV", 0x2551);
-		//entity("boxvh", 0x253C);
-		//entity("boxvH", 0x256A);
-		//entity("boxVh", 0x256B);
-		//entity("boxVH", 0x256C);
-		//entity("boxvl", 0x2524);
-		//entity("boxvL", 0x2561);
-		//entity("boxVl", 0x2562);
-		//entity("boxVL", 0x2563);
-		//entity("boxvr", 0x251C);
-		//entity("boxvR", 0x255E);
-		//entity("boxVr", 0x255F);
-		//entity("boxVR", 0x2560);
-		//entity("bprime", 0x2035);
-		//entity("breve", 0x02D8);
+		entity("awconint", 0x2233);
+		entity("awint", 0x2A11);
+		entity("b.alpha", 0x1D6C2);
+		entity("b.beta", 0x1D6C3);
+		entity("b.chi", 0x1D6D8);
+		entity("b.delta", 0x1D6C5);
+		entity("b.Delta", 0x1D6AB);
+		entity("b.epsi", 0x1D6C6);
+		entity("b.epsiv", 0x1D6DC);
+		entity("b.eta", 0x1D6C8);
+		entity("b.gamma", 0x1D6C4);
+		entity("b.Gamma", 0x1D6AA);
+		entity("b.gammad", 0x1D7CB);
+		entity("b.Gammad", 0x1D7CA);
+		entity("b.iota", 0x1D6CA);
+		entity("b.kappa", 0x1D6CB);
+		entity("b.kappav", 0x1D6DE);
+		entity("b.lambda", 0x1D6CC);
+		entity("b.Lambda", 0x1D6B2);
+		entity("b.mu", 0x1D6CD);
+		entity("b.nu", 0x1D6CE);
+		entity("b.omega", 0x1D6DA);
+		entity("b.Omega", 0x1D6C0);
+		entity("b.phi", 0x1D6D7);
+		entity("b.Phi", 0x1D6BD);
+		entity("b.phiv", 0x1D6DF);
+		entity("b.pi", 0x1D6D1);
+		entity("b.Pi", 0x1D6B7);
+		entity("b.piv", 0x1D6E1);
+		entity("b.psi", 0x1D6D9);
+		entity("b.Psi", 0x1D6BF);
+		entity("b.rho", 0x1D6D2);
+		entity("b.rhov", 0x1D6E0);
+		entity("b.sigma", 0x1D6D4);
+		entity("b.Sigma", 0x1D6BA);
+		entity("b.sigmav", 0x1D6D3);
+		entity("b.tau", 0x1D6D5);
+		entity("b.Theta", 0x1D6AF);
+		entity("b.thetas", 0x1D6C9);
+		entity("b.thetav", 0x1D6DD);
+		entity("b.upsi", 0x1D6D6);
+		entity("b.Upsi", 0x1D6BC);
+		entity("b.xi", 0x1D6CF);
+		entity("b.Xi", 0x1D6B5);
+		entity("b.zeta", 0x1D6C7);
+		entity("backcong", 0x224C);
+		entity("backepsilon", 0x03F6);
+		entity("backprime", 0x2035);
+		entity("backsim", 0x223D);
+		entity("backsimeq", 0x22CD);
+		entity("Backslash", 0x2216);
+		entity("Barv", 0x2AE7);
+		entity("barvee", 0x22BD);
+		entity("barwed", 0x2305);
+		entity("Barwed", 0x2306);
+		entity("barwedge", 0x2305);
+		entity("bbrk", 0x23B5);
+		entity("bbrktbrk", 0x23B6);
+		entity("bcong", 0x224C);
+		entity("bcy", 0x0431);
+		entity("Bcy", 0x0411);
+		entity("bdquo", 0x201E);
+		entity("becaus", 0x2235);
+		entity("because", 0x2235);
+		entity("bemptyv", 0x29B0);
+		entity("bepsi", 0x03F6);
+		entity("bernou", 0x212C);
+		entity("Bernoullis", 0x212C);
+		entity("beta", 0x03B2);
+		entity("Beta", 0x0392);
+		entity("beth", 0x2136);
+		entity("between", 0x226C);
+		entity("bfr", 0x1D51F);
+		entity("Bfr", 0x1D505);
+		entity("bgr", 0x03B2);
+		entity("Bgr", 0x0392);
+		entity("bigcap", 0x22C2);
+		entity("bigcirc", 0x25EF);
+		entity("bigcup", 0x22C3);
+		entity("bigodot", 0x2A00);
+		entity("bigoplus", 0x2A01);
+		entity("bigotimes", 0x2A02);
+		entity("bigsqcup", 0x2A06);
+		entity("bigstar", 0x2605);
+		entity("bigtriangledown", 0x25BD);
+		entity("bigtriangleup", 0x25B3);
+		entity("biguplus", 0x2A04);
+		entity("bigvee", 0x22C1);
+		entity("bigwedge", 0x22C0);
+		entity("bkarow", 0x290D);
+		entity("blacklozenge", 0x29EB);
+		entity("blacksquare", 0x25AA);
+		entity("blacktriangle", 0x25B4);
+		entity("blacktriangledown", 0x25BE);
+		entity("blacktriangleleft", 0x25C2);
+		entity("blacktriangleright", 0x25B8);
+		entity("blank", 0x2423);
+		entity("blk12", 0x2592);
+		entity("blk14", 0x2591);
+		entity("blk34", 0x2593);
+		entity("block", 0x2588);
+		entity("bnot", 0x2310);
+		entity("bNot", 0x2AED);
+		entity("bopf", 0x1D553);
+		entity("Bopf", 0x1D539);
+		entity("bot", 0x22A5);
+		entity("bottom", 0x22A5);
+		entity("bowtie", 0x22C8);
+		entity("boxbox", 0x29C9);
+		entity("boxdl", 0x2510);
+		entity("boxdL", 0x2555);
+		entity("boxDl", 0x2556);
+		entity("boxDL", 0x2557);
+		entity("boxdr", 0x250C);
+		entity("boxdR", 0x2552);
+		entity("boxDr", 0x2553);
+		entity("boxDR", 0x2554);
+		entity("boxh", 0x2500);
+		entity("boxH", 0x2550);
+		entity("boxhd", 0x252C);
+		entity("boxhD", 0x2565);
+		entity("boxHd", 0x2564);
+		entity("boxHD", 0x2566);
+		entity("boxhu", 0x2534);
+		entity("boxhU", 0x2568);
+		entity("boxHu", 0x2567);
+		entity("boxHU", 0x2569);
+		entity("boxminus", 0x229F);
+		entity("boxplus", 0x229E);
+		entity("boxtimes", 0x22A0);
+		entity("boxul", 0x2518);
+		entity("boxuL", 0x255B);
+		entity("boxUl", 0x255C);
+		entity("boxUL", 0x255D);
+		entity("boxur", 0x2514);
+		entity("boxuR", 0x2558);
+		entity("boxUr", 0x2559);
+		entity("boxUR", 0x255A);
+		entity("boxv", 0x2502);
+		entity("boxV", 0x2551);
+		entity("boxvh", 0x253C);
+		entity("boxvH", 0x256A);
+		entity("boxVh", 0x256B);
+		entity("boxVH", 0x256C);
+		entity("boxvl", 0x2524);
+		entity("boxvL", 0x2561);
+		entity("boxVl", 0x2562);
+		entity("boxVL", 0x2563);
+		entity("boxvr", 0x251C);
+		entity("boxvR", 0x255E);
+		entity("boxVr", 0x255F);
+		entity("boxVR", 0x2560);
+		entity("bprime", 0x2035);
+		entity("breve", 0x02D8);
 		entity("brvbar", 0x00A6);
-		//entity("bscr", 0x1D4B7);
-		//entity("Bscr", 0x212C);
-		//entity("bsemi", 0x204F);
-		//entity("bsim", 0x223D);
-		//entity("bsime", 0x22CD);
+		entity("bscr", 0x1D4B7);
+		entity("Bscr", 0x212C);
+		entity("bsemi", 0x204F);
+		entity("bsim", 0x223D);
+		entity("bsime", 0x22CD);
 		entity("bsol", 0x005C);
-		//entity("bsolb", 0x29C5);
-		//entity("bull", 0x2022);
-		//entity("bullet", 0x2022);
-		//entity("bump", 0x224E);
-		//entity("bumpe", 0x224F);
-		//entity("bumpE", 0x2AAE);
-		//entity("bumpeq", 0x224F);
-		//entity("Bumpeq", 0x224E);
-		//entity("cacute", 0x0107);
-		//entity("Cacute", 0x0106);
-		//entity("cap", 0x2229);
-		//entity("Cap", 0x22D2);
-		//entity("capand", 0x2A44);
-		//entity("capbrcup", 0x2A49);
-		//entity("capcap", 0x2A4B);
-		//entity("capcup", 0x2A47);
-		//entity("capdot", 0x2A40);
-		//entity("CapitalDifferentialD", 0x2145);
-		//entity("caret", 0x2041);
-		//entity("caron", 0x02C7);
-		//entity("Cayleys", 0x212D);
-		//entity("ccaps", 0x2A4D);
-		//entity("ccaron", 0x010D);
-		//entity("Ccaron", 0x010C);
+		entity("bsolb", 0x29C5);
+		entity("bull", 0x2022);
+		entity("bullet", 0x2022);
+		entity("bump", 0x224E);
+		entity("bumpe", 0x224F);
+		entity("bumpE", 0x2AAE);
+		entity("bumpeq", 0x224F);
+		entity("Bumpeq", 0x224E);
+		entity("cacute", 0x0107);
+		entity("Cacute", 0x0106);
+		entity("cap", 0x2229);
+		entity("Cap", 0x22D2);
+		entity("capand", 0x2A44);
+		entity("capbrcup", 0x2A49);
+		entity("capcap", 0x2A4B);
+		entity("capcup", 0x2A47);
+		entity("capdot", 0x2A40);
+		entity("CapitalDifferentialD", 0x2145);
+		entity("caret", 0x2041);
+		entity("caron", 0x02C7);
+		entity("Cayleys", 0x212D);
+		entity("ccaps", 0x2A4D);
+		entity("ccaron", 0x010D);
+		entity("Ccaron", 0x010C);
 		entity("ccedil", 0x00E7);
 		entity("Ccedil", 0x00C7);
-		//entity("ccirc", 0x0109);
-		//entity("Ccirc", 0x0108);
-		//entity("Cconint", 0x2230);
-		//entity("ccups", 0x2A4C);
-		//entity("ccupssm", 0x2A50);
-		//entity("cdot", 0x010B);
-		//entity("Cdot", 0x010A);
+		entity("ccirc", 0x0109);
+		entity("Ccirc", 0x0108);
+		entity("Cconint", 0x2230);
+		entity("ccups", 0x2A4C);
+		entity("ccupssm", 0x2A50);
+		entity("cdot", 0x010B);
+		entity("Cdot", 0x010A);
 		entity("cedil", 0x00B8);
 		entity("Cedilla", 0x00B8);
-		//entity("cemptyv", 0x29B2);
+		entity("cemptyv", 0x29B2);
 		entity("cent", 0x00A2);
 		entity("centerdot", 0x00B7);
-		//entity("cfr", 0x1D520);
-		//entity("Cfr", 0x212D);
-		//entity("chcy", 0x0447);
-		//entity("CHcy", 0x0427);
-		//entity("check", 0x2713);
-		//entity("checkmark", 0x2713);
-		//entity("chi", 0x03C7);
-		//entity("Chi", 0x03A7);
-		//entity("cir", 0x25CB);
-		//entity("circ", 0x02C6);
-		//entity("circeq", 0x2257);
-		//entity("circlearrowleft", 0x21BA);
-		//entity("circlearrowright", 0x21BB);
-		//entity("circledast", 0x229B);
-		//entity("circledcirc", 0x229A);
-		//entity("circleddash", 0x229D);
-		//entity("CircleDot", 0x2299);
+		entity("cfr", 0x1D520);
+		entity("Cfr", 0x212D);
+		entity("chcy", 0x0447);
+		entity("CHcy", 0x0427);
+		entity("check", 0x2713);
+		entity("checkmark", 0x2713);
+		entity("chi", 0x03C7);
+		entity("Chi", 0x03A7);
+		entity("cir", 0x25CB);
+		entity("circ", 0x02C6);
+		entity("circeq", 0x2257);
+		entity("circlearrowleft", 0x21BA);
+		entity("circlearrowright", 0x21BB);
+		entity("circledast", 0x229B);
+		entity("circledcirc", 0x229A);
+		entity("circleddash", 0x229D);
+		entity("CircleDot", 0x2299);
 	  entity("circledR", 0x00AE);
-		//entity("circledS", 0x24C8);
-		//entity("CircleMinus", 0x2296);
-		//entity("CirclePlus", 0x2295);
-		//entity("CircleTimes", 0x2297);
-		//entity("cire", 0x2257);
-		//entity("cirE", 0x29C3);
-		//entity("cirfnint", 0x2A10);
-		//entity("cirmid", 0x2AEF);
-		//entity("cirscir", 0x29C2);
-		//entity("ClockwiseContourIntegral", 0x2232);
-		//entity("CloseCurlyDoubleQuote", 0x201D);
-		//entity("CloseCurlyQuote", 0x2019);
-		//entity("clubs", 0x2663);
-		//entity("clubsuit", 0x2663);
+		entity("circledS", 0x24C8);
+		entity("CircleMinus", 0x2296);
+		entity("CirclePlus", 0x2295);
+		entity("CircleTimes", 0x2297);
+		entity("cire", 0x2257);
+		entity("cirE", 0x29C3);
+		entity("cirfnint", 0x2A10);
+		entity("cirmid", 0x2AEF);
+		entity("cirscir", 0x29C2);
+		entity("ClockwiseContourIntegral", 0x2232);
+		entity("CloseCurlyDoubleQuote", 0x201D);
+		entity("CloseCurlyQuote", 0x2019);
+		entity("clubs", 0x2663);
+		entity("clubsuit", 0x2663);
 		entity("colon", 0x003A);
-		//entity("Colon", 0x2237);
-		//entity("colone", 0x2254);
-		//entity("Colone", 0x2A74);
-		//entity("coloneq", 0x2254);
+		entity("Colon", 0x2237);
+		entity("colone", 0x2254);
+		entity("Colone", 0x2A74);
+		entity("coloneq", 0x2254);
 		entity("comma", 0x002C);
 		entity("commat", 0x0040);
-		//entity("comp", 0x2201);
-		//entity("compfn", 0x2218);
-		//entity("complement", 0x2201);
-		//entity("complexes", 0x2102);
-		//entity("cong", 0x2245);
-		//entity("congdot", 0x2A6D);
-		//entity("Congruent", 0x2261);
-		//entity("conint", 0x222E);
-		//entity("Conint", 0x222F);
-		//entity("ContourIntegral", 0x222E);
-		//entity("copf", 0x1D554);
-		//entity("Copf", 0x2102);
-		//entity("coprod", 0x2210);
-		//entity("Coproduct", 0x2210);
+		entity("comp", 0x2201);
+		entity("compfn", 0x2218);
+		entity("complement", 0x2201);
+		entity("complexes", 0x2102);
+		entity("cong", 0x2245);
+		entity("congdot", 0x2A6D);
+		entity("Congruent", 0x2261);
+		entity("conint", 0x222E);
+		entity("Conint", 0x222F);
+		entity("ContourIntegral", 0x222E);
+		entity("copf", 0x1D554);
+		entity("Copf", 0x2102);
+		entity("coprod", 0x2210);
+		entity("Coproduct", 0x2210);
 		entity("copy", 0x00A9);
-		//entity("copysr", 0x2117);
-		//entity("CounterClockwiseContourIntegral", 0x2233);
-		//entity("crarr", 0x21B5);
-		//entity("cross", 0x2717);
-		//entity("Cross", 0x2A2F);
-		//entity("cscr", 0x1D4B8);
-		//entity("Cscr", 0x1D49E);
-		//entity("csub", 0x2ACF);
-		//entity("csube", 0x2AD1);
-		//entity("csup", 0x2AD0);
-		//entity("csupe", 0x2AD2);
-		//entity("ctdot", 0x22EF);
-		//entity("cudarrl", 0x2938);
-		//entity("cudarrr", 0x2935);
-		//entity("cuepr", 0x22DE);
-		//entity("cuesc", 0x22DF);
-		//entity("cularr", 0x21B6);
-		//entity("cularrp", 0x293D);
-		//entity("cup", 0x222A);
-		//entity("Cup", 0x22D3);
-		//entity("cupbrcap", 0x2A48);
-		//entity("cupcap", 0x2A46);
-		//entity("CupCap", 0x224D);
-		//entity("cupcup", 0x2A4A);
-		//entity("cupdot", 0x228D);
-		//entity("cupor", 0x2A45);
-		//entity("curarr", 0x21B7);
-		//entity("curarrm", 0x293C);
-		//entity("curlyeqprec", 0x22DE);
-		//entity("curlyeqsucc", 0x22DF);
-		//entity("curlyvee", 0x22CE);
-		//entity("curlywedge", 0x22CF);
+		entity("copysr", 0x2117);
+		entity("CounterClockwiseContourIntegral", 0x2233);
+		entity("crarr", 0x21B5);
+		entity("cross", 0x2717);
+		entity("Cross", 0x2A2F);
+		entity("cscr", 0x1D4B8);
+		entity("Cscr", 0x1D49E);
+		entity("csub", 0x2ACF);
+		entity("csube", 0x2AD1);
+		entity("csup", 0x2AD0);
+		entity("csupe", 0x2AD2);
+		entity("ctdot", 0x22EF);
+		entity("cudarrl", 0x2938);
+		entity("cudarrr", 0x2935);
+		entity("cuepr", 0x22DE);
+		entity("cuesc", 0x22DF);
+		entity("cularr", 0x21B6);
+		entity("cularrp", 0x293D);
+		entity("cup", 0x222A);
+		entity("Cup", 0x22D3);
+		entity("cupbrcap", 0x2A48);
+		entity("cupcap", 0x2A46);
+		entity("CupCap", 0x224D);
+		entity("cupcup", 0x2A4A);
+		entity("cupdot", 0x228D);
+		entity("cupor", 0x2A45);
+		entity("curarr", 0x21B7);
+		entity("curarrm", 0x293C);
+		entity("curlyeqprec", 0x22DE);
+		entity("curlyeqsucc", 0x22DF);
+		entity("curlyvee", 0x22CE);
+		entity("curlywedge", 0x22CF);
 		entity("curren", 0x00A4);
-		//entity("curvearrowleft", 0x21B6);
-		//entity("curvearrowright", 0x21B7);
-		//entity("cuvee", 0x22CE);
-		//entity("cuwed", 0x22CF);
-		//entity("cwconint", 0x2232);
-		//entity("cwint", 0x2231);
-		//entity("cylcty", 0x232D);
-		//entity("dagger", 0x2020);
-		//entity("Dagger", 0x2021);
-		//entity("daleth", 0x2138);
-		//entity("darr", 0x2193);
-		//entity("dArr", 0x21D3);
-		//entity("Darr", 0x21A1);
-		//entity("dash", 0x2010);
-		//entity("dashv", 0x22A3);
-		//entity("Dashv", 0x2AE4);
-		//entity("dbkarow", 0x290F);
-		//entity("dblac", 0x02DD);
-		//entity("dcaron", 0x010F);
-		//entity("Dcaron", 0x010E);
-		//entity("dcy", 0x0434);
-		//entity("Dcy", 0x0414);
-		//entity("dd", 0x2146);
-		//entity("DD", 0x2145);
-		//entity("ddagger", 0x2021);
-		//entity("ddarr", 0x21CA);
-		//entity("DDotrahd", 0x2911);
-		//entity("ddotseq", 0x2A77);
+		entity("curvearrowleft", 0x21B6);
+		entity("curvearrowright", 0x21B7);
+		entity("cuvee", 0x22CE);
+		entity("cuwed", 0x22CF);
+		entity("cwconint", 0x2232);
+		entity("cwint", 0x2231);
+		entity("cylcty", 0x232D);
+		entity("dagger", 0x2020);
+		entity("Dagger", 0x2021);
+		entity("daleth", 0x2138);
+		entity("darr", 0x2193);
+		entity("dArr", 0x21D3);
+		entity("Darr", 0x21A1);
+		entity("dash", 0x2010);
+		entity("dashv", 0x22A3);
+		entity("Dashv", 0x2AE4);
+		entity("dbkarow", 0x290F);
+		entity("dblac", 0x02DD);
+		entity("dcaron", 0x010F);
+		entity("Dcaron", 0x010E);
+		entity("dcy", 0x0434);
+		entity("Dcy", 0x0414);
+		entity("dd", 0x2146);
+		entity("DD", 0x2145);
+		entity("ddagger", 0x2021);
+		entity("ddarr", 0x21CA);
+		entity("DDotrahd", 0x2911);
+		entity("ddotseq", 0x2A77);
 		entity("deg", 0x00B0);
-		//entity("Del", 0x2207);
-		//entity("delta", 0x03B4);
-		//entity("Delta", 0x0394);
-		//entity("demptyv", 0x29B1);
-		//entity("dfisht", 0x297F);
-		//entity("dfr", 0x1D521);
-		//entity("Dfr", 0x1D507);
-		//entity("dgr", 0x03B4);
-		//entity("Dgr", 0x0394);
-		//entity("dHar", 0x2965);
-		//entity("dharl", 0x21C3);
-		//entity("dharr", 0x21C2);
+		entity("Del", 0x2207);
+		entity("delta", 0x03B4);
+		entity("Delta", 0x0394);
+		entity("demptyv", 0x29B1);
+		entity("dfisht", 0x297F);
+		entity("dfr", 0x1D521);
+		entity("Dfr", 0x1D507);
+		entity("dgr", 0x03B4);
+		entity("Dgr", 0x0394);
+		entity("dHar", 0x2965);
+		entity("dharl", 0x21C3);
+		entity("dharr", 0x21C2);
 		entity("DiacriticalAcute", 0x00B4);
-		//entity("DiacriticalDot", 0x02D9);
-		//entity("DiacriticalDoubleAcute", 0x02DD);
+		entity("DiacriticalDot", 0x02D9);
+		entity("DiacriticalDoubleAcute", 0x02DD);
 		entity("DiacriticalGrave", 0x0060);
-		//entity("DiacriticalTilde", 0x02DC);
-		//entity("diam", 0x22C4);
-		//entity("diamond", 0x22C4);
-		//entity("diamondsuit", 0x2666);
-		//entity("diams", 0x2666);
+		entity("DiacriticalTilde", 0x02DC);
+		entity("diam", 0x22C4);
+		entity("diamond", 0x22C4);
+		entity("diamondsuit", 0x2666);
+		entity("diams", 0x2666);
 		entity("die", 0x00A8);
-		//entity("DifferentialD", 0x2146);
-		//entity("digamma", 0x03DD);
-		//entity("disin", 0x22F2);
+		entity("DifferentialD", 0x2146);
+		entity("digamma", 0x03DD);
+		entity("disin", 0x22F2);
 		entity("div", 0x00F7);
 		entity("divide", 0x00F7);
-		//entity("divideontimes", 0x22C7);
-		//entity("divonx", 0x22C7);
-		//entity("djcy", 0x0452);
-		//entity("DJcy", 0x0402);
-		//entity("dlcorn", 0x231E);
-		//entity("dlcrop", 0x230D);
+		entity("divideontimes", 0x22C7);
+		entity("divonx", 0x22C7);
+		entity("djcy", 0x0452);
+		entity("DJcy", 0x0402);
+		entity("dlcorn", 0x231E);
+		entity("dlcrop", 0x230D);
 		entity("dollar", 0x0024);
-		//entity("dopf", 0x1D555);
-		//entity("Dopf", 0x1D53B);
-		//entity("dot", 0x02D9);
+		entity("dopf", 0x1D555);
+		entity("Dopf", 0x1D53B);
+		entity("dot", 0x02D9);
 		entity("Dot", 0x00A8);
-		//entity("doteq", 0x2250);
-		//entity("doteqdot", 0x2251);
-		//entity("DotEqual", 0x2250);
-		//entity("dotminus", 0x2238);
-		//entity("dotplus", 0x2214);
-		//entity("dotsquare", 0x22A1);
-		//entity("doublebarwedge", 0x2306);
-		//entity("DoubleContourIntegral", 0x222F);
+		entity("doteq", 0x2250);
+		entity("doteqdot", 0x2251);
+		entity("DotEqual", 0x2250);
+		entity("dotminus", 0x2238);
+		entity("dotplus", 0x2214);
+		entity("dotsquare", 0x22A1);
+		entity("doublebarwedge", 0x2306);
+		entity("DoubleContourIntegral", 0x222F);
 		entity("DoubleDot", 0x00A8);
-		//entity("DoubleDownArrow", 0x21D3);
-		//entity("DoubleLeftArrow", 0x21D0);
-		//entity("DoubleLeftRightArrow", 0x21D4);
-		//entity("DoubleLeftTee", 0x2AE4);
-		//entity("DoubleLongLeftArrow", 0x27F8);
-		//entity("DoubleLongLeftRightArrow", 0x27FA);
-		//entity("DoubleLongRightArrow", 0x27F9);
-		//entity("DoubleRightArrow", 0x21D2);
-		//entity("DoubleRightTee", 0x22A8);
-		//entity("DoubleUpArrow", 0x21D1);
-		//entity("DoubleUpDownArrow", 0x21D5);
-		//entity("DoubleVerticalBar", 0x2225);
-		//entity("downarrow", 0x2193);
-		//entity("Downarrow", 0x21D3);
-		//entity("DownArrowBar", 0x2913);
-		//entity("DownArrowUpArrow", 0x21F5);
-		//entity("downdownarrows", 0x21CA);
-		//entity("downharpoonleft", 0x21C3);
-		//entity("downharpoonright", 0x21C2);
-		//entity("DownLeftRightVector", 0x2950);
-		//entity("DownLeftTeeVector", 0x295E);
-		//entity("DownLeftVector", 0x21BD);
-		//entity("DownLeftVectorBar", 0x2956);
-		//entity("DownRightTeeVector", 0x295F);
-		//entity("DownRightVector", 0x21C1);
-		//entity("DownRightVectorBar", 0x2957);
-		//entity("DownTee", 0x22A4);
-		//entity("DownTeeArrow", 0x21A7);
-		//entity("drbkarow", 0x2910);
-		//entity("drcorn", 0x231F);
-		//entity("drcrop", 0x230C);
-		//entity("dscr", 0x1D4B9);
-		//entity("Dscr", 0x1D49F);
-		//entity("dscy", 0x0455);
-		//entity("DScy", 0x0405);
-		//entity("dsol", 0x29F6);
-		//entity("dstrok", 0x0111);
-		//entity("Dstrok", 0x0110);
-		//entity("dtdot", 0x22F1);
-		//entity("dtri", 0x25BF);
-		//entity("dtrif", 0x25BE);
-		//entity("duarr", 0x21F5);
-		//entity("duhar", 0x296F);
-		//entity("dwangle", 0x29A6);
-		//entity("dzcy", 0x045F);
-		//entity("DZcy", 0x040F);
-		//entity("dzigrarr", 0x27FF);
-		//entity("eacgr", 0x03AD);
-		//entity("Eacgr", 0x0388);
+		entity("DoubleDownArrow", 0x21D3);
+		entity("DoubleLeftArrow", 0x21D0);
+		entity("DoubleLeftRightArrow", 0x21D4);
+		entity("DoubleLeftTee", 0x2AE4);
+		entity("DoubleLongLeftArrow", 0x27F8);
+		entity("DoubleLongLeftRightArrow", 0x27FA);
+		entity("DoubleLongRightArrow", 0x27F9);
+		entity("DoubleRightArrow", 0x21D2);
+		entity("DoubleRightTee", 0x22A8);
+		entity("DoubleUpArrow", 0x21D1);
+		entity("DoubleUpDownArrow", 0x21D5);
+		entity("DoubleVerticalBar", 0x2225);
+		entity("downarrow", 0x2193);
+		entity("Downarrow", 0x21D3);
+		entity("DownArrowBar", 0x2913);
+		entity("DownArrowUpArrow", 0x21F5);
+		entity("downdownarrows", 0x21CA);
+		entity("downharpoonleft", 0x21C3);
+		entity("downharpoonright", 0x21C2);
+		entity("DownLeftRightVector", 0x2950);
+		entity("DownLeftTeeVector", 0x295E);
+		entity("DownLeftVector", 0x21BD);
+		entity("DownLeftVectorBar", 0x2956);
+		entity("DownRightTeeVector", 0x295F);
+		entity("DownRightVector", 0x21C1);
+		entity("DownRightVectorBar", 0x2957);
+		entity("DownTee", 0x22A4);
+		entity("DownTeeArrow", 0x21A7);
+		entity("drbkarow", 0x2910);
+		entity("drcorn", 0x231F);
+		entity("drcrop", 0x230C);
+		entity("dscr", 0x1D4B9);
+		entity("Dscr", 0x1D49F);
+		entity("dscy", 0x0455);
+		entity("DScy", 0x0405);
+		entity("dsol", 0x29F6);
+		entity("dstrok", 0x0111);
+		entity("Dstrok", 0x0110);
+		entity("dtdot", 0x22F1);
+		entity("dtri", 0x25BF);
+		entity("dtrif", 0x25BE);
+		entity("duarr", 0x21F5);
+		entity("duhar", 0x296F);
+		entity("dwangle", 0x29A6);
+		entity("dzcy", 0x045F);
+		entity("DZcy", 0x040F);
+		entity("dzigrarr", 0x27FF);
+		entity("eacgr", 0x03AD);
+		entity("Eacgr", 0x0388);
 		entity("eacute", 0x00E9);
 		entity("Eacute", 0x00C9);
-		//entity("easter", 0x2A6E);
-		//entity("ecaron", 0x011B);
-		//entity("Ecaron", 0x011A);
-		//entity("ecir", 0x2256);
+		entity("easter", 0x2A6E);
+		entity("ecaron", 0x011B);
+		entity("Ecaron", 0x011A);
+		entity("ecir", 0x2256);
 		entity("ecirc", 0x00EA);
 		entity("Ecirc", 0x00CA);
-		//entity("ecolon", 0x2255);
-		//entity("ecy", 0x044D);
-		//entity("Ecy", 0x042D);
-		//entity("eDDot", 0x2A77);
-		//entity("edot", 0x0117);
-		//entity("eDot", 0x2251);
-		//entity("Edot", 0x0116);
-		//entity("ee", 0x2147);
-		//entity("eeacgr", 0x03AE);
-		//entity("EEacgr", 0x0389);
-		//entity("eegr", 0x03B7);
-		//entity("EEgr", 0x0397);
-		//entity("efDot", 0x2252);
-		//entity("efr", 0x1D522);
-		//entity("Efr", 0x1D508);
-		//entity("eg", 0x2A9A);
-		//entity("egr", 0x03B5);
-		//entity("Egr", 0x0395);
+		entity("ecolon", 0x2255);
+		entity("ecy", 0x044D);
+		entity("Ecy", 0x042D);
+		entity("eDDot", 0x2A77);
+		entity("edot", 0x0117);
+		entity("eDot", 0x2251);
+		entity("Edot", 0x0116);
+		entity("ee", 0x2147);
+		entity("eeacgr", 0x03AE);
+		entity("EEacgr", 0x0389);
+		entity("eegr", 0x03B7);
+		entity("EEgr", 0x0397);
+		entity("efDot", 0x2252);
+		entity("efr", 0x1D522);
+		entity("Efr", 0x1D508);
+		entity("eg", 0x2A9A);
+		entity("egr", 0x03B5);
+		entity("Egr", 0x0395);
 		entity("egrave", 0x00E8);
 		entity("Egrave", 0x00C8);
-		//entity("egs", 0x2A96);
-		//entity("egsdot", 0x2A98);
-		//entity("el", 0x2A99);
-		//entity("Element", 0x2208);
-		//entity("elinters", 0x23E7);
-		//entity("ell", 0x2113);
-		//entity("els", 0x2A95);
-		//entity("elsdot", 0x2A97);
-		//entity("emacr", 0x0113);
-		//entity("Emacr", 0x0112);
-		//entity("empty", 0x2205);
-		//entity("emptyset", 0x2205);
-		//entity("EmptySmallSquare", 0x25FB);
-		//entity("emptyv", 0x2205);
-		//entity("EmptyVerySmallSquare", 0x25AB);
-		//entity("emsp", 0x2003);
-		//entity("emsp13", 0x2004);
-		//entity("emsp14", 0x2005);
-		//entity("eng", 0x014B);
-		//entity("ENG", 0x014A);
-		//entity("ensp", 0x2002);
-		//entity("eogon", 0x0119);
-		//entity("Eogon", 0x0118);
-		//entity("eopf", 0x1D556);
-		//entity("Eopf", 0x1D53C);
-		//entity("epar", 0x22D5);
-		//entity("eparsl", 0x29E3);
-		//entity("eplus", 0x2A71);
-		//entity("epsi", 0x03F5);
-		//entity("epsilon", 0x03B5);
-		//entity("Epsilon", 0x0395);
-		//entity("epsiv", 0x03B5);
-		//entity("eqcirc", 0x2256);
-		//entity("eqcolon", 0x2255);
-		//entity("eqsim", 0x2242);
-		//entity("eqslantgtr", 0x2A96);
-		//entity("eqslantless", 0x2A95);
-		//entity("Equal", 0x2A75);
+		entity("egs", 0x2A96);
+		entity("egsdot", 0x2A98);
+		entity("el", 0x2A99);
+		entity("Element", 0x2208);
+		entity("elinters", 0x23E7);
+		entity("ell", 0x2113);
+		entity("els", 0x2A95);
+		entity("elsdot", 0x2A97);
+		entity("emacr", 0x0113);
+		entity("Emacr", 0x0112);
+		entity("empty", 0x2205);
+		entity("emptyset", 0x2205);
+		entity("EmptySmallSquare", 0x25FB);
+		entity("emptyv", 0x2205);
+		entity("EmptyVerySmallSquare", 0x25AB);
+		entity("emsp", 0x2003);
+		entity("emsp13", 0x2004);
+		entity("emsp14", 0x2005);
+		entity("eng", 0x014B);
+		entity("ENG", 0x014A);
+		entity("ensp", 0x2002);
+		entity("eogon", 0x0119);
+		entity("Eogon", 0x0118);
+		entity("eopf", 0x1D556);
+		entity("Eopf", 0x1D53C);
+		entity("epar", 0x22D5);
+		entity("eparsl", 0x29E3);
+		entity("eplus", 0x2A71);
+		entity("epsi", 0x03F5);
+		entity("epsilon", 0x03B5);
+		entity("Epsilon", 0x0395);
+		entity("epsiv", 0x03B5);
+		entity("eqcirc", 0x2256);
+		entity("eqcolon", 0x2255);
+		entity("eqsim", 0x2242);
+		entity("eqslantgtr", 0x2A96);
+		entity("eqslantless", 0x2A95);
+		entity("Equal", 0x2A75);
 		entity("equals", 0x003D);
-		//entity("EqualTilde", 0x2242);
-		//entity("equest", 0x225F);
-		//entity("Equilibrium", 0x21CC);
-		//entity("equiv", 0x2261);
-		//entity("equivDD", 0x2A78);
-		//entity("eqvparsl", 0x29E5);
-		//entity("erarr", 0x2971);
-		//entity("erDot", 0x2253);
-		//entity("escr", 0x212F);
-		//entity("Escr", 0x2130);
-		//entity("esdot", 0x2250);
-		//entity("esim", 0x2242);
-		//entity("Esim", 0x2A73);
-		//entity("eta", 0x03B7);
-		//entity("Eta", 0x0397);
+		entity("EqualTilde", 0x2242);
+		entity("equest", 0x225F);
+		entity("Equilibrium", 0x21CC);
+		entity("equiv", 0x2261);
+		entity("equivDD", 0x2A78);
+		entity("eqvparsl", 0x29E5);
+		entity("erarr", 0x2971);
+		entity("erDot", 0x2253);
+		entity("escr", 0x212F);
+		entity("Escr", 0x2130);
+		entity("esdot", 0x2250);
+		entity("esim", 0x2242);
+		entity("Esim", 0x2A73);
+		entity("eta", 0x03B7);
+		entity("Eta", 0x0397);
 		entity("eth", 0x00F0);
 		entity("ETH", 0x00D0);
 		entity("euml", 0x00EB);
 		entity("Euml", 0x00CB);
-		//entity("euro", 0x20AC);
+		entity("euro", 0x20AC);
 		entity("excl", 0x0021);
-		//entity("exist", 0x2203);
-		//entity("Exists", 0x2203);
-		//entity("expectation", 0x2130);
-		//entity("exponentiale", 0x2147);
-		//entity("fallingdotseq", 0x2252);
-		//entity("fcy", 0x0444);
-		//entity("Fcy", 0x0424);
-		//entity("female", 0x2640);
-		//entity("ffilig", 0xFB03);
-		//entity("fflig", 0xFB00);
-		//entity("ffllig", 0xFB04);
-		//entity("ffr", 0x1D523);
-		//entity("Ffr", 0x1D509);
-		//entity("filig", 0xFB01);
-		//entity("FilledSmallSquare", 0x25FC);
-		//entity("FilledVerySmallSquare", 0x25AA);
-		//entity("flat", 0x266D);
-		//entity("fllig", 0xFB02);
-		//entity("fltns", 0x25B1);
-		//entity("fnof", 0x0192);
-		//entity("fopf", 0x1D557);
-		//entity("Fopf", 0x1D53D);
-		//entity("forall", 0x2200);
-		//entity("fork", 0x22D4);
-		//entity("forkv", 0x2AD9);
-		//entity("Fouriertrf", 0x2131);
-		//entity("fpartint", 0x2A0D);
+		entity("exist", 0x2203);
+		entity("Exists", 0x2203);
+		entity("expectation", 0x2130);
+		entity("exponentiale", 0x2147);
+		entity("fallingdotseq", 0x2252);
+		entity("fcy", 0x0444);
+		entity("Fcy", 0x0424);
+		entity("female", 0x2640);
+		entity("ffilig", 0xFB03);
+		entity("fflig", 0xFB00);
+		entity("ffllig", 0xFB04);
+		entity("ffr", 0x1D523);
+		entity("Ffr", 0x1D509);
+		entity("filig", 0xFB01);
+		entity("FilledSmallSquare", 0x25FC);
+		entity("FilledVerySmallSquare", 0x25AA);
+		entity("flat", 0x266D);
+		entity("fllig", 0xFB02);
+		entity("fltns", 0x25B1);
+		entity("fnof", 0x0192);
+		entity("fopf", 0x1D557);
+		entity("Fopf", 0x1D53D);
+		entity("forall", 0x2200);
+		entity("fork", 0x22D4);
+		entity("forkv", 0x2AD9);
+		entity("Fouriertrf", 0x2131);
+		entity("fpartint", 0x2A0D);
 		entity("frac12", 0x00BD);
-		//entity("frac13", 0x2153);
+		entity("frac13", 0x2153);
 		entity("frac14", 0x00BC);
-		//entity("frac15", 0x2155);
-		//entity("frac16", 0x2159);
-		//entity("frac18", 0x215B);
-		//entity("frac23", 0x2154);
-		//entity("frac25", 0x2156);
+		entity("frac15", 0x2155);
+		entity("frac16", 0x2159);
+		entity("frac18", 0x215B);
+		entity("frac23", 0x2154);
+		entity("frac25", 0x2156);
 		entity("frac34", 0x00BE);
-		//entity("frac35", 0x2157);
-		//entity("frac38", 0x215C);
-		//entity("frac45", 0x2158);
-		//entity("frac56", 0x215A);
-		//entity("frac58", 0x215D);
-		//entity("frac78", 0x215E);
-		//entity("frasl", 0x2044);
-		//entity("frown", 0x2322);
-		//entity("fscr", 0x1D4BB);
-		//entity("Fscr", 0x2131);
-		//entity("gacute", 0x01F5);
-		//entity("gamma", 0x03B3);
-		//entity("Gamma", 0x0393);
-		//entity("gammad", 0x03DD);
-		//entity("Gammad", 0x03DC);
-		//entity("gap", 0x2A86);
-		//entity("gbreve", 0x011F);
-		//entity("Gbreve", 0x011E);
-		//entity("Gcedil", 0x0122);
-		//entity("gcirc", 0x011D);
-		//entity("Gcirc", 0x011C);
-		//entity("gcy", 0x0433);
-		//entity("Gcy", 0x0413);
-		//entity("gdot", 0x0121);
-		//entity("Gdot", 0x0120);
-		//entity("ge", 0x2265);
-		//entity("gE", 0x2267);
-		//entity("gel", 0x22DB);
-		//entity("gEl", 0x2A8C);
-		//entity("geq", 0x2265);
-		//entity("geqq", 0x2267);
-		//entity("geqslant", 0x2A7E);
-		//entity("ges", 0x2A7E);
-		//entity("gescc", 0x2AA9);
-		//entity("gesdot", 0x2A80);
-		//entity("gesdoto", 0x2A82);
-		//entity("gesdotol", 0x2A84);
-		//entity("gesles", 0x2A94);
-		//entity("gfr", 0x1D524);
-		//entity("Gfr", 0x1D50A);
-		//entity("gg", 0x226B);
-		//entity("Gg", 0x22D9);
-		//entity("ggg", 0x22D9);
-		//entity("ggr", 0x03B3);
-		//entity("Ggr", 0x0393);
-		//entity("gimel", 0x2137);
-		//entity("gjcy", 0x0453);
-		//entity("GJcy", 0x0403);
-		//entity("gl", 0x2277);
-		//entity("gla", 0x2AA5);
-		//entity("glE", 0x2A92);
-		//entity("glj", 0x2AA4);
-		//entity("gnap", 0x2A8A);
-		//entity("gnapprox", 0x2A8A);
-		//entity("gne", 0x2A88);
-		//entity("gnE", 0x2269);
-		//entity("gneq", 0x2A88);
-		//entity("gneqq", 0x2269);
-		//entity("gnsim", 0x22E7);
-		//entity("gopf", 0x1D558);
-		//entity("Gopf", 0x1D53E);
+		entity("frac35", 0x2157);
+		entity("frac38", 0x215C);
+		entity("frac45", 0x2158);
+		entity("frac56", 0x215A);
+		entity("frac58", 0x215D);
+		entity("frac78", 0x215E);
+		entity("frasl", 0x2044);
+		entity("frown", 0x2322);
+		entity("fscr", 0x1D4BB);
+		entity("Fscr", 0x2131);
+		entity("gacute", 0x01F5);
+		entity("gamma", 0x03B3);
+		entity("Gamma", 0x0393);
+		entity("gammad", 0x03DD);
+		entity("Gammad", 0x03DC);
+		entity("gap", 0x2A86);
+		entity("gbreve", 0x011F);
+		entity("Gbreve", 0x011E);
+		entity("Gcedil", 0x0122);
+		entity("gcirc", 0x011D);
+		entity("Gcirc", 0x011C);
+		entity("gcy", 0x0433);
+		entity("Gcy", 0x0413);
+		entity("gdot", 0x0121);
+		entity("Gdot", 0x0120);
+		entity("ge", 0x2265);
+		entity("gE", 0x2267);
+		entity("gel", 0x22DB);
+		entity("gEl", 0x2A8C);
+		entity("geq", 0x2265);
+		entity("geqq", 0x2267);
+		entity("geqslant", 0x2A7E);
+		entity("ges", 0x2A7E);
+		entity("gescc", 0x2AA9);
+		entity("gesdot", 0x2A80);
+		entity("gesdoto", 0x2A82);
+		entity("gesdotol", 0x2A84);
+		entity("gesles", 0x2A94);
+		entity("gfr", 0x1D524);
+		entity("Gfr", 0x1D50A);
+		entity("gg", 0x226B);
+		entity("Gg", 0x22D9);
+		entity("ggg", 0x22D9);
+		entity("ggr", 0x03B3);
+		entity("Ggr", 0x0393);
+		entity("gimel", 0x2137);
+		entity("gjcy", 0x0453);
+		entity("GJcy", 0x0403);
+		entity("gl", 0x2277);
+		entity("gla", 0x2AA5);
+		entity("glE", 0x2A92);
+		entity("glj", 0x2AA4);
+		entity("gnap", 0x2A8A);
+		entity("gnapprox", 0x2A8A);
+		entity("gne", 0x2A88);
+		entity("gnE", 0x2269);
+		entity("gneq", 0x2A88);
+		entity("gneqq", 0x2269);
+		entity("gnsim", 0x22E7);
+		entity("gopf", 0x1D558);
+		entity("Gopf", 0x1D53E);
 		entity("grave", 0x0060);
-		//entity("GreaterEqual", 0x2265);
-		//entity("GreaterEqualLess", 0x22DB);
-		//entity("GreaterFullEqual", 0x2267);
-		//entity("GreaterGreater", 0x2AA2);
-		//entity("GreaterLess", 0x2277);
-		//entity("GreaterSlantEqual", 0x2A7E);
-		//entity("GreaterTilde", 0x2273);
-		//entity("gscr", 0x210A);
-		//entity("Gscr", 0x1D4A2);
-		//entity("gsim", 0x2273);
-		//entity("gsime", 0x2A8E);
-		//entity("gsiml", 0x2A90);
+		entity("GreaterEqual", 0x2265);
+		entity("GreaterEqualLess", 0x22DB);
+		entity("GreaterFullEqual", 0x2267);
+		entity("GreaterGreater", 0x2AA2);
+		entity("GreaterLess", 0x2277);
+		entity("GreaterSlantEqual", 0x2A7E);
+		entity("GreaterTilde", 0x2273);
+		entity("gscr", 0x210A);
+		entity("Gscr", 0x1D4A2);
+		entity("gsim", 0x2273);
+		entity("gsime", 0x2A8E);
+		entity("gsiml", 0x2A90);
 		entity("gt", 0x003E);
-		//entity("Gt", 0x226B);
-		//entity("gtcc", 0x2AA7);
-		//entity("gtcir", 0x2A7A);
-		//entity("gtdot", 0x22D7);
-		//entity("gtlPar", 0x2995);
-		//entity("gtquest", 0x2A7C);
-		//entity("gtrapprox", 0x2A86);
-		//entity("gtrarr", 0x2978);
-		//entity("gtrdot", 0x22D7);
-		//entity("gtreqless", 0x22DB);
-		//entity("gtreqqless", 0x2A8C);
-		//entity("gtrless", 0x2277);
-		//entity("gtrsim", 0x2273);
-		//entity("Hacek", 0x02C7);
-		//entity("hairsp", 0x200A);
+		entity("Gt", 0x226B);
+		entity("gtcc", 0x2AA7);
+		entity("gtcir", 0x2A7A);
+		entity("gtdot", 0x22D7);
+		entity("gtlPar", 0x2995);
+		entity("gtquest", 0x2A7C);
+		entity("gtrapprox", 0x2A86);
+		entity("gtrarr", 0x2978);
+		entity("gtrdot", 0x22D7);
+		entity("gtreqless", 0x22DB);
+		entity("gtreqqless", 0x2A8C);
+		entity("gtrless", 0x2277);
+		entity("gtrsim", 0x2273);
+		entity("Hacek", 0x02C7);
+		entity("hairsp", 0x200A);
 		entity("half", 0x00BD);
-		//entity("hamilt", 0x210B);
-		//entity("hardcy", 0x044A);
-		//entity("HARDcy", 0x042A);
-		//entity("harr", 0x2194);
-		//entity("hArr", 0x21D4);
-		//entity("harrcir", 0x2948);
-		//entity("harrw", 0x21AD);
+		entity("hamilt", 0x210B);
+		entity("hardcy", 0x044A);
+		entity("HARDcy", 0x042A);
+		entity("harr", 0x2194);
+		entity("hArr", 0x21D4);
+		entity("harrcir", 0x2948);
+		entity("harrw", 0x21AD);
 		entity("Hat", 0x005E);
-		//entity("hbar", 0x210F);
-		//entity("hcirc", 0x0125);
-		//entity("Hcirc", 0x0124);
-		//entity("hearts", 0x2665);
-		//entity("heartsuit", 0x2665);
-		//entity("hellip", 0x2026);
-		//entity("hercon", 0x22B9);
-		//entity("hfr", 0x1D525);
-		//entity("Hfr", 0x210C);
-		//entity("HilbertSpace", 0x210B);
-		//entity("hksearow", 0x2925);
-		//entity("hkswarow", 0x2926);
-		//entity("hoarr", 0x21FF);
-		//entity("homtht", 0x223B);
-		//entity("hookleftarrow", 0x21A9);
-		//entity("hookrightarrow", 0x21AA);
-		//entity("hopf", 0x1D559);
-		//entity("Hopf", 0x210D);
-		//entity("horbar", 0x2015);
-		//entity("HorizontalLine", 0x2500);
-		//entity("hscr", 0x1D4BD);
-		//entity("Hscr", 0x210B);
-		//entity("hslash", 0x210F);
-		//entity("hstrok", 0x0127);
-		//entity("Hstrok", 0x0126);
-		//entity("HumpDownHump", 0x224E);
-		//entity("HumpEqual", 0x224F);
-		//entity("hybull", 0x2043);
-		//entity("hyphen", 0x2010);
-		//entity("iacgr", 0x03AF);
-		//entity("Iacgr", 0x038A);
+		entity("hbar", 0x210F);
+		entity("hcirc", 0x0125);
+		entity("Hcirc", 0x0124);
+		entity("hearts", 0x2665);
+		entity("heartsuit", 0x2665);
+		entity("hellip", 0x2026);
+		entity("hercon", 0x22B9);
+		entity("hfr", 0x1D525);
+		entity("Hfr", 0x210C);
+		entity("HilbertSpace", 0x210B);
+		entity("hksearow", 0x2925);
+		entity("hkswarow", 0x2926);
+		entity("hoarr", 0x21FF);
+		entity("homtht", 0x223B);
+		entity("hookleftarrow", 0x21A9);
+		entity("hookrightarrow", 0x21AA);
+		entity("hopf", 0x1D559);
+		entity("Hopf", 0x210D);
+		entity("horbar", 0x2015);
+		entity("HorizontalLine", 0x2500);
+		entity("hscr", 0x1D4BD);
+		entity("Hscr", 0x210B);
+		entity("hslash", 0x210F);
+		entity("hstrok", 0x0127);
+		entity("Hstrok", 0x0126);
+		entity("HumpDownHump", 0x224E);
+		entity("HumpEqual", 0x224F);
+		entity("hybull", 0x2043);
+		entity("hyphen", 0x2010);
+		entity("iacgr", 0x03AF);
+		entity("Iacgr", 0x038A);
 		entity("iacute", 0x00ED);
 		entity("Iacute", 0x00CD);
-		//entity("ic", 0x2063);
+		entity("ic", 0x2063);
 		entity("icirc", 0x00EE);
 		entity("Icirc", 0x00CE);
-		//entity("icy", 0x0438);
-		//entity("Icy", 0x0418);
-		//entity("idiagr", 0x0390);
-		//entity("idigr", 0x03CA);
-		//entity("Idigr", 0x03AA);
-		//entity("Idot", 0x0130);
-		//entity("iecy", 0x0435);
-		//entity("IEcy", 0x0415);
+		entity("icy", 0x0438);
+		entity("Icy", 0x0418);
+		entity("idiagr", 0x0390);
+		entity("idigr", 0x03CA);
+		entity("Idigr", 0x03AA);
+		entity("Idot", 0x0130);
+		entity("iecy", 0x0435);
+		entity("IEcy", 0x0415);
 		entity("iexcl", 0x00A1);
-		//entity("iff", 0x21D4);
-		//entity("ifr", 0x1D526);
-		//entity("Ifr", 0x2111);
-		//entity("igr", 0x03B9);
-		//entity("Igr", 0x0399);
+		entity("iff", 0x21D4);
+		entity("ifr", 0x1D526);
+		entity("Ifr", 0x2111);
+		entity("igr", 0x03B9);
+		entity("Igr", 0x0399);
 		entity("igrave", 0x00EC);
 		entity("Igrave", 0x00CC);
-		//entity("ii", 0x2148);
-		//entity("iiiint", 0x2A0C);
-		//entity("iiint", 0x222D);
-		//entity("iinfin", 0x29DC);
-		//entity("iiota", 0x2129);
-		//entity("ijlig", 0x0133);
-		//entity("IJlig", 0x0132);
-		//entity("Im", 0x2111);
-		//entity("imacr", 0x012B);
-		//entity("Imacr", 0x012A);
-		//entity("image", 0x2111);
-		//entity("ImaginaryI", 0x2148);
-		//entity("imagline", 0x2110);
-		//entity("imagpart", 0x2111);
-		//entity("imath", 0x0131);
-		//entity("imof", 0x22B7);
-		//entity("imped", 0x01B5);
-		//entity("Implies", 0x21D2);
-		//entity("in", 0x2208);
-		//entity("incare", 0x2105);
-		//entity("infin", 0x221E);
-		//entity("infintie", 0x29DD);
-		//entity("inodot", 0x0131);
-		//entity("int", 0x222B);
-		//entity("Int", 0x222C);
-		//entity("intcal", 0x22BA);
-		//entity("integers", 0x2124);
-		//entity("Integral", 0x222B);
-		//entity("intercal", 0x22BA);
-		//entity("Intersection", 0x22C2);
-		//entity("intlarhk", 0x2A17);
-		//entity("intprod", 0x2A3C);
-		//entity("InvisibleComma", 0x2063);
-		//entity("InvisibleTimes", 0x2062);
-		//entity("iocy", 0x0451);
-		//entity("IOcy", 0x0401);
-		//entity("iogon", 0x012F);
-		//entity("Iogon", 0x012E);
-		//entity("iopf", 0x1D55A);
-		//entity("Iopf", 0x1D540);
-		//entity("iota", 0x03B9);
-		//entity("Iota", 0x0399);
-		//entity("iprod", 0x2A3C);
+		entity("ii", 0x2148);
+		entity("iiiint", 0x2A0C);
+		entity("iiint", 0x222D);
+		entity("iinfin", 0x29DC);
+		entity("iiota", 0x2129);
+		entity("ijlig", 0x0133);
+		entity("IJlig", 0x0132);
+		entity("Im", 0x2111);
+		entity("imacr", 0x012B);
+		entity("Imacr", 0x012A);
+		entity("image", 0x2111);
+		entity("ImaginaryI", 0x2148);
+		entity("imagline", 0x2110);
+		entity("imagpart", 0x2111);
+		entity("imath", 0x0131);
+		entity("imof", 0x22B7);
+		entity("imped", 0x01B5);
+		entity("Implies", 0x21D2);
+		entity("in", 0x2208);
+		entity("incare", 0x2105);
+		entity("infin", 0x221E);
+		entity("infintie", 0x29DD);
+		entity("inodot", 0x0131);
+		entity("int", 0x222B);
+		entity("Int", 0x222C);
+		entity("intcal", 0x22BA);
+		entity("integers", 0x2124);
+		entity("Integral", 0x222B);
+		entity("intercal", 0x22BA);
+		entity("Intersection", 0x22C2);
+		entity("intlarhk", 0x2A17);
+		entity("intprod", 0x2A3C);
+		entity("InvisibleComma", 0x2063);
+		entity("InvisibleTimes", 0x2062);
+		entity("iocy", 0x0451);
+		entity("IOcy", 0x0401);
+		entity("iogon", 0x012F);
+		entity("Iogon", 0x012E);
+		entity("iopf", 0x1D55A);
+		entity("Iopf", 0x1D540);
+		entity("iota", 0x03B9);
+		entity("Iota", 0x0399);
+		entity("iprod", 0x2A3C);
 		entity("iquest", 0x00BF);
-		//entity("iscr", 0x1D4BE);
-		//entity("Iscr", 0x2110);
-		//entity("isin", 0x2208);
-		//entity("isindot", 0x22F5);
-		//entity("isinE", 0x22F9);
-		//entity("isins", 0x22F4);
-		//entity("isinsv", 0x22F3);
-		//entity("isinv", 0x2208);
-		//entity("it", 0x2062);
-		//entity("itilde", 0x0129);
-		//entity("Itilde", 0x0128);
-		//entity("iukcy", 0x0456);
-		//entity("Iukcy", 0x0406);
+		entity("iscr", 0x1D4BE);
+		entity("Iscr", 0x2110);
+		entity("isin", 0x2208);
+		entity("isindot", 0x22F5);
+		entity("isinE", 0x22F9);
+		entity("isins", 0x22F4);
+		entity("isinsv", 0x22F3);
+		entity("isinv", 0x2208);
+		entity("it", 0x2062);
+		entity("itilde", 0x0129);
+		entity("Itilde", 0x0128);
+		entity("iukcy", 0x0456);
+		entity("Iukcy", 0x0406);
 		entity("iuml", 0x00EF);
 		entity("Iuml", 0x00CF);
-		//entity("jcirc", 0x0135);
-		//entity("Jcirc", 0x0134);
-		//entity("jcy", 0x0439);
-		//entity("Jcy", 0x0419);
-		//entity("jfr", 0x1D527);
-		//entity("Jfr", 0x1D50D);
-		//entity("jmath", 0x0237);
-		//entity("jopf", 0x1D55B);
-		//entity("Jopf", 0x1D541);
-		//entity("jscr", 0x1D4BF);
-		//entity("Jscr", 0x1D4A5);
-		//entity("jsercy", 0x0458);
-		//entity("Jsercy", 0x0408);
-		//entity("jukcy", 0x0454);
-		//entity("Jukcy", 0x0404);
-		//entity("kappa", 0x03BA);
-		//entity("Kappa", 0x039A);
-		//entity("kappav", 0x03F0);
-		//entity("kcedil", 0x0137);
-		//entity("Kcedil", 0x0136);
-		//entity("kcy", 0x043A);
-		//entity("Kcy", 0x041A);
-		//entity("kfr", 0x1D528);
-		//entity("Kfr", 0x1D50E);
-		//entity("kgr", 0x03BA);
-		//entity("Kgr", 0x039A);
-		//entity("kgreen", 0x0138);
-		//entity("khcy", 0x0445);
-		//entity("KHcy", 0x0425);
-		//entity("khgr", 0x03C7);
-		//entity("KHgr", 0x03A7);
-		//entity("kjcy", 0x045C);
-		//entity("KJcy", 0x040C);
-		//entity("kopf", 0x1D55C);
-		//entity("Kopf", 0x1D542);
-		//entity("kscr", 0x1D4C0);
-		//entity("Kscr", 0x1D4A6);
-		//entity("lAarr", 0x21DA);
-		//entity("lacute", 0x013A);
-		//entity("Lacute", 0x0139);
-		//entity("laemptyv", 0x29B4);
-		//entity("lagran", 0x2112);
-		//entity("lambda", 0x03BB);
-		//entity("Lambda", 0x039B);
-		//entity("lang", 0x2329);
-		//entity("Lang", 0x27EA);
-		//entity("langd", 0x2991);
-		//entity("langle", 0x2329);
-		//entity("lap", 0x2A85);
-		//entity("Laplacetrf", 0x2112);
+		entity("jcirc", 0x0135);
+		entity("Jcirc", 0x0134);
+		entity("jcy", 0x0439);
+		entity("Jcy", 0x0419);
+		entity("jfr", 0x1D527);
+		entity("Jfr", 0x1D50D);
+		entity("jmath", 0x0237);
+		entity("jopf", 0x1D55B);
+		entity("Jopf", 0x1D541);
+		entity("jscr", 0x1D4BF);
+		entity("Jscr", 0x1D4A5);
+		entity("jsercy", 0x0458);
+		entity("Jsercy", 0x0408);
+		entity("jukcy", 0x0454);
+		entity("Jukcy", 0x0404);
+		entity("kappa", 0x03BA);
+		entity("Kappa", 0x039A);
+		entity("kappav", 0x03F0);
+		entity("kcedil", 0x0137);
+		entity("Kcedil", 0x0136);
+		entity("kcy", 0x043A);
+		entity("Kcy", 0x041A);
+		entity("kfr", 0x1D528);
+		entity("Kfr", 0x1D50E);
+		entity("kgr", 0x03BA);
+		entity("Kgr", 0x039A);
+		entity("kgreen", 0x0138);
+		entity("khcy", 0x0445);
+		entity("KHcy", 0x0425);
+		entity("khgr", 0x03C7);
+		entity("KHgr", 0x03A7);
+		entity("kjcy", 0x045C);
+		entity("KJcy", 0x040C);
+		entity("kopf", 0x1D55C);
+		entity("Kopf", 0x1D542);
+		entity("kscr", 0x1D4C0);
+		entity("Kscr", 0x1D4A6);
+		entity("lAarr", 0x21DA);
+		entity("lacute", 0x013A);
+		entity("Lacute", 0x0139);
+		entity("laemptyv", 0x29B4);
+		entity("lagran", 0x2112);
+		entity("lambda", 0x03BB);
+		entity("Lambda", 0x039B);
+		entity("lang", 0x2329);
+		entity("Lang", 0x27EA);
+		entity("langd", 0x2991);
+		entity("langle", 0x2329);
+		entity("lap", 0x2A85);
+		entity("Laplacetrf", 0x2112);
 		entity("laquo", 0x00AB);
-		//entity("larr", 0x2190);
-		//entity("lArr", 0x21D0);
-		//entity("Larr", 0x219E);
-		//entity("larrb", 0x21E4);
-		//entity("larrbfs", 0x291F);
-		//entity("larrfs", 0x291D);
-		//entity("larrhk", 0x21A9);
-		//entity("larrlp", 0x21AB);
-		//entity("larrpl", 0x2939);
-		//entity("larrsim", 0x2973);
-		//entity("larrtl", 0x21A2);
-		//entity("lat", 0x2AAB);
-		//entity("latail", 0x2919);
-		//entity("lAtail", 0x291B);
-		//entity("late", 0x2AAD);
-		//entity("lbarr", 0x290C);
-		//entity("lBarr", 0x290E);
-		//entity("lbbrk", 0x2997);
+		entity("larr", 0x2190);
+		entity("lArr", 0x21D0);
+		entity("Larr", 0x219E);
+		entity("larrb", 0x21E4);
+		entity("larrbfs", 0x291F);
+		entity("larrfs", 0x291D);
+		entity("larrhk", 0x21A9);
+		entity("larrlp", 0x21AB);
+		entity("larrpl", 0x2939);
+		entity("larrsim", 0x2973);
+		entity("larrtl", 0x21A2);
+		entity("lat", 0x2AAB);
+		entity("latail", 0x2919);
+		entity("lAtail", 0x291B);
+		entity("late", 0x2AAD);
+		entity("lbarr", 0x290C);
+		entity("lBarr", 0x290E);
+		entity("lbbrk", 0x2997);
 		entity("lbrace", 0x007B);
 		entity("lbrack", 0x005B);
-		//entity("lbrke", 0x298B);
-		//entity("lbrksld", 0x298F);
-		//entity("lbrkslu", 0x298D);
-		//entity("lcaron", 0x013E);
-		//entity("Lcaron", 0x013D);
-		//entity("lcedil", 0x013C);
-		//entity("Lcedil", 0x013B);
-		//entity("lceil", 0x2308);
+		entity("lbrke", 0x298B);
+		entity("lbrksld", 0x298F);
+		entity("lbrkslu", 0x298D);
+		entity("lcaron", 0x013E);
+		entity("Lcaron", 0x013D);
+		entity("lcedil", 0x013C);
+		entity("Lcedil", 0x013B);
+		entity("lceil", 0x2308);
 		entity("lcub", 0x007B);
-		//entity("lcy", 0x043B);
-		//entity("Lcy", 0x041B);
-		//entity("ldca", 0x2936);
-		//entity("ldquo", 0x201C);
-		//entity("ldquor", 0x201E);
-		//entity("ldrdhar", 0x2967);
-		//entity("ldrushar", 0x294B);
-		//entity("ldsh", 0x21B2);
-		//entity("le", 0x2264);
-		//entity("lE", 0x2266);
-		//entity("LeftAngleBracket", 0x2329);
-		//entity("leftarrow", 0x2190);
-		//entity("Leftarrow", 0x21D0);
-		//entity("LeftArrowBar", 0x21E4);
-		//entity("LeftArrowRightArrow", 0x21C6);
-		//entity("leftarrowtail", 0x21A2);
-		//entity("LeftCeiling", 0x2308);
-		//entity("LeftDoubleBracket", 0x27E6);
-		//entity("LeftDownTeeVector", 0x2961);
-		//entity("LeftDownVector", 0x21C3);
-		//entity("LeftDownVectorBar", 0x2959);
-		//entity("LeftFloor", 0x230A);
-		//entity("leftharpoondown", 0x21BD);
-		//entity("leftharpoonup", 0x21BC);
-		//entity("leftleftarrows", 0x21C7);
-		//entity("leftrightarrow", 0x2194);
-		//entity("Leftrightarrow", 0x21D4);
-		//entity("leftrightarrows", 0x21C6);
-		//entity("leftrightharpoons", 0x21CB);
-		//entity("leftrightsquigarrow", 0x21AD);
-		//entity("LeftRightVector", 0x294E);
-		//entity("LeftTee", 0x22A3);
-		//entity("LeftTeeArrow", 0x21A4);
-		//entity("LeftTeeVector", 0x295A);
-		//entity("leftthreetimes", 0x22CB);
-		//entity("LeftTriangle", 0x22B2);
-		//entity("LeftTriangleBar", 0x29CF);
-		//entity("LeftTriangleEqual", 0x22B4);
-		//entity("LeftUpDownVector", 0x2951);
-		//entity("LeftUpTeeVector", 0x2960);
-		//entity("LeftUpVector", 0x21BF);
-		//entity("LeftUpVectorBar", 0x2958);
-		//entity("LeftVector", 0x21BC);
-		//entity("LeftVectorBar", 0x2952);
-		//entity("leg", 0x22DA);
-		//entity("lEg", 0x2A8B);
-		//entity("leq", 0x2264);
-		//entity("leqq", 0x2266);
-		//entity("leqslant", 0x2A7D);
-		//entity("les", 0x2A7D);
-		//entity("lescc", 0x2AA8);
-		//entity("lesdot", 0x2A7F);
-		//entity("lesdoto", 0x2A81);
-		//entity("lesdotor", 0x2A83);
-		//entity("lesges", 0x2A93);
-		//entity("lessapprox", 0x2A85);
-		//entity("lessdot", 0x22D6);
-		//entity("lesseqgtr", 0x22DA);
-		//entity("lesseqqgtr", 0x2A8B);
-		//entity("LessEqualGreater", 0x22DA);
-		//entity("LessFullEqual", 0x2266);
-		//entity("LessGreater", 0x2276);
-		//entity("lessgtr", 0x2276);
-		//entity("LessLess", 0x2AA1);
-		//entity("lesssim", 0x2272);
-		//entity("LessSlantEqual", 0x2A7D);
-		//entity("LessTilde", 0x2272);
-		//entity("lfisht", 0x297C);
-		//entity("lfloor", 0x230A);
-		//entity("lfr", 0x1D529);
-		//entity("Lfr", 0x1D50F);
-		//entity("lg", 0x2276);
-		//entity("lgE", 0x2A91);
-		//entity("lgr", 0x03BB);
-		//entity("Lgr", 0x039B);
-		//entity("lHar", 0x2962);
-		//entity("lhard", 0x21BD);
-		//entity("lharu", 0x21BC);
-		//entity("lharul", 0x296A);
-		//entity("lhblk", 0x2584);
-		//entity("ljcy", 0x0459);
-		//entity("LJcy", 0x0409);
-		//entity("ll", 0x226A);
-		//entity("Ll", 0x22D8);
-		//entity("llarr", 0x21C7);
-		//entity("llcorner", 0x231E);
-		//entity("Lleftarrow", 0x21DA);
-		//entity("llhard", 0x296B);
-		//entity("lltri", 0x25FA);
-		//entity("lmidot", 0x0140);
-		//entity("Lmidot", 0x013F);
-		//entity("lmoust", 0x23B0);
-		//entity("lmoustache", 0x23B0);
-		//entity("lnap", 0x2A89);
-		//entity("lnapprox", 0x2A89);
-		//entity("lne", 0x2A87);
-		//entity("lnE", 0x2268);
-		//entity("lneq", 0x2A87);
-		//entity("lneqq", 0x2268);
-		//entity("lnsim", 0x22E6);
-		//entity("loang", 0x27EC);
-		//entity("loarr", 0x21FD);
-		//entity("lobrk", 0x27E6);
-		//entity("longleftarrow", 0x27F5);
-		//entity("Longleftarrow", 0x27F8);
-		//entity("longleftrightarrow", 0x27F7);
-		//entity("Longleftrightarrow", 0x27FA);
-		//entity("longmapsto", 0x27FC);
-		//entity("longrightarrow", 0x27F6);
-		//entity("Longrightarrow", 0x27F9);
-		//entity("looparrowleft", 0x21AB);
-		//entity("looparrowright", 0x21AC);
-		//entity("lopar", 0x2985);
-		//entity("lopf", 0x1D55D);
-		//entity("Lopf", 0x1D543);
-		//entity("loplus", 0x2A2D);
-		//entity("lotimes", 0x2A34);
-		//entity("lowast", 0x2217);
+		entity("lcy", 0x043B);
+		entity("Lcy", 0x041B);
+		entity("ldca", 0x2936);
+		entity("ldquo", 0x201C);
+		entity("ldquor", 0x201E);
+		entity("ldrdhar", 0x2967);
+		entity("ldrushar", 0x294B);
+		entity("ldsh", 0x21B2);
+		entity("le", 0x2264);
+		entity("lE", 0x2266);
+		entity("LeftAngleBracket", 0x2329);
+		entity("leftarrow", 0x2190);
+		entity("Leftarrow", 0x21D0);
+		entity("LeftArrowBar", 0x21E4);
+		entity("LeftArrowRightArrow", 0x21C6);
+		entity("leftarrowtail", 0x21A2);
+		entity("LeftCeiling", 0x2308);
+		entity("LeftDoubleBracket", 0x27E6);
+		entity("LeftDownTeeVector", 0x2961);
+		entity("LeftDownVector", 0x21C3);
+		entity("LeftDownVectorBar", 0x2959);
+		entity("LeftFloor", 0x230A);
+		entity("leftharpoondown", 0x21BD);
+		entity("leftharpoonup", 0x21BC);
+		entity("leftleftarrows", 0x21C7);
+		entity("leftrightarrow", 0x2194);
+		entity("Leftrightarrow", 0x21D4);
+		entity("leftrightarrows", 0x21C6);
+		entity("leftrightharpoons", 0x21CB);
+		entity("leftrightsquigarrow", 0x21AD);
+		entity("LeftRightVector", 0x294E);
+		entity("LeftTee", 0x22A3);
+		entity("LeftTeeArrow", 0x21A4);
+		entity("LeftTeeVector", 0x295A);
+		entity("leftthreetimes", 0x22CB);
+		entity("LeftTriangle", 0x22B2);
+		entity("LeftTriangleBar", 0x29CF);
+		entity("LeftTriangleEqual", 0x22B4);
+		entity("LeftUpDownVector", 0x2951);
+		entity("LeftUpTeeVector", 0x2960);
+		entity("LeftUpVector", 0x21BF);
+		entity("LeftUpVectorBar", 0x2958);
+		entity("LeftVector", 0x21BC);
+		entity("LeftVectorBar", 0x2952);
+		entity("leg", 0x22DA);
+		entity("lEg", 0x2A8B);
+		entity("leq", 0x2264);
+		entity("leqq", 0x2266);
+		entity("leqslant", 0x2A7D);
+		entity("les", 0x2A7D);
+		entity("lescc", 0x2AA8);
+		entity("lesdot", 0x2A7F);
+		entity("lesdoto", 0x2A81);
+		entity("lesdotor", 0x2A83);
+		entity("lesges", 0x2A93);
+		entity("lessapprox", 0x2A85);
+		entity("lessdot", 0x22D6);
+		entity("lesseqgtr", 0x22DA);
+		entity("lesseqqgtr", 0x2A8B);
+		entity("LessEqualGreater", 0x22DA);
+		entity("LessFullEqual", 0x2266);
+		entity("LessGreater", 0x2276);
+		entity("lessgtr", 0x2276);
+		entity("LessLess", 0x2AA1);
+		entity("lesssim", 0x2272);
+		entity("LessSlantEqual", 0x2A7D);
+		entity("LessTilde", 0x2272);
+		entity("lfisht", 0x297C);
+		entity("lfloor", 0x230A);
+		entity("lfr", 0x1D529);
+		entity("Lfr", 0x1D50F);
+		entity("lg", 0x2276);
+		entity("lgE", 0x2A91);
+		entity("lgr", 0x03BB);
+		entity("Lgr", 0x039B);
+		entity("lHar", 0x2962);
+		entity("lhard", 0x21BD);
+		entity("lharu", 0x21BC);
+		entity("lharul", 0x296A);
+		entity("lhblk", 0x2584);
+		entity("ljcy", 0x0459);
+		entity("LJcy", 0x0409);
+		entity("ll", 0x226A);
+		entity("Ll", 0x22D8);
+		entity("llarr", 0x21C7);
+		entity("llcorner", 0x231E);
+		entity("Lleftarrow", 0x21DA);
+		entity("llhard", 0x296B);
+		entity("lltri", 0x25FA);
+		entity("lmidot", 0x0140);
+		entity("Lmidot", 0x013F);
+		entity("lmoust", 0x23B0);
+		entity("lmoustache", 0x23B0);
+		entity("lnap", 0x2A89);
+		entity("lnapprox", 0x2A89);
+		entity("lne", 0x2A87);
+		entity("lnE", 0x2268);
+		entity("lneq", 0x2A87);
+		entity("lneqq", 0x2268);
+		entity("lnsim", 0x22E6);
+		entity("loang", 0x27EC);
+		entity("loarr", 0x21FD);
+		entity("lobrk", 0x27E6);
+		entity("longleftarrow", 0x27F5);
+		entity("Longleftarrow", 0x27F8);
+		entity("longleftrightarrow", 0x27F7);
+		entity("Longleftrightarrow", 0x27FA);
+		entity("longmapsto", 0x27FC);
+		entity("longrightarrow", 0x27F6);
+		entity("Longrightarrow", 0x27F9);
+		entity("looparrowleft", 0x21AB);
+		entity("looparrowright", 0x21AC);
+		entity("lopar", 0x2985);
+		entity("lopf", 0x1D55D);
+		entity("Lopf", 0x1D543);
+		entity("loplus", 0x2A2D);
+		entity("lotimes", 0x2A34);
+		entity("lowast", 0x2217);
 		entity("lowbar", 0x005F);
-		//entity("LowerLeftArrow", 0x2199);
-		//entity("LowerRightArrow", 0x2198);
-		//entity("loz", 0x25CA);
-		//entity("lozenge", 0x25CA);
-		//entity("lozf", 0x29EB);
+		entity("LowerLeftArrow", 0x2199);
+		entity("LowerRightArrow", 0x2198);
+		entity("loz", 0x25CA);
+		entity("lozenge", 0x25CA);
+		entity("lozf", 0x29EB);
 		entity("lpar", 0x0028);
-		//entity("lparlt", 0x2993);
-		//entity("lrarr", 0x21C6);
-		//entity("lrcorner", 0x231F);
-		//entity("lrhar", 0x21CB);
-		//entity("lrhard", 0x296D);
-		//entity("lrm", 0x200E);
-		//entity("lrtri", 0x22BF);
-		//entity("lsaquo", 0x2039);
-		//entity("lscr", 0x1D4C1);
-		//entity("Lscr", 0x2112);
-		//entity("lsh", 0x21B0);
-		//entity("lsim", 0x2272);
-		//entity("lsime", 0x2A8D);
-		//entity("lsimg", 0x2A8F);
+		entity("lparlt", 0x2993);
+		entity("lrarr", 0x21C6);
+		entity("lrcorner", 0x231F);
+		entity("lrhar", 0x21CB);
+		entity("lrhard", 0x296D);
+		entity("lrm", 0x200E);
+		entity("lrtri", 0x22BF);
+		entity("lsaquo", 0x2039);
+		entity("lscr", 0x1D4C1);
+		entity("Lscr", 0x2112);
+		entity("lsh", 0x21B0);
+		entity("lsim", 0x2272);
+		entity("lsime", 0x2A8D);
+		entity("lsimg", 0x2A8F);
 		entity("lsqb", 0x005B);
-		//entity("lsquo", 0x2018);
-		//entity("lsquor", 0x201A);
-		//entity("lstrok", 0x0142);
-		//entity("Lstrok", 0x0141);
+		entity("lsquo", 0x2018);
+		entity("lsquor", 0x201A);
+		entity("lstrok", 0x0142);
+		entity("Lstrok", 0x0141);
 		entity("lt", 0x003C);
-		//entity("Lt", 0x226A);
-		//entity("ltcc", 0x2AA6);
-		//entity("ltcir", 0x2A79);
-		//entity("ltdot", 0x22D6);
-		//entity("lthree", 0x22CB);
-		//entity("ltimes", 0x22C9);
-		//entity("ltlarr", 0x2976);
-		//entity("ltquest", 0x2A7B);
-		//entity("ltri", 0x25C3);
-		//entity("ltrie", 0x22B4);
-		//entity("ltrif", 0x25C2);
-		//entity("ltrPar", 0x2996);
-		//entity("lurdshar", 0x294A);
-		//entity("luruhar", 0x2966);
+		entity("Lt", 0x226A);
+		entity("ltcc", 0x2AA6);
+		entity("ltcir", 0x2A79);
+		entity("ltdot", 0x22D6);
+		entity("lthree", 0x22CB);
+		entity("ltimes", 0x22C9);
+		entity("ltlarr", 0x2976);
+		entity("ltquest", 0x2A7B);
+		entity("ltri", 0x25C3);
+		entity("ltrie", 0x22B4);
+		entity("ltrif", 0x25C2);
+		entity("ltrPar", 0x2996);
+		entity("lurdshar", 0x294A);
+		entity("luruhar", 0x2966);
 		entity("macr", 0x00AF);
-		//entity("male", 0x2642);
-		//entity("malt", 0x2720);
-		//entity("maltese", 0x2720);
-		//entity("map", 0x21A6);
-		//entity("Map", 0x2905);
-		//entity("mapsto", 0x21A6);
-		//entity("mapstodown", 0x21A7);
-		//entity("mapstoleft", 0x21A4);
-		//entity("mapstoup", 0x21A5);
-		//entity("marker", 0x25AE);
-		//entity("mcomma", 0x2A29);
-		//entity("mcy", 0x043C);
-		//entity("Mcy", 0x041C);
-		//entity("mdash", 0x2014);
-		//entity("mDDot", 0x223A);
-		//entity("measuredangle", 0x2221);
-		//entity("MediumSpace", 0x205F);
-		//entity("Mellintrf", 0x2133);
-		//entity("mfr", 0x1D52A);
-		//entity("Mfr", 0x1D510);
-		//entity("mgr", 0x03BC);
-		//entity("Mgr", 0x039C);
-		//entity("mho", 0x2127);
+		entity("male", 0x2642);
+		entity("malt", 0x2720);
+		entity("maltese", 0x2720);
+		entity("map", 0x21A6);
+		entity("Map", 0x2905);
+		entity("mapsto", 0x21A6);
+		entity("mapstodown", 0x21A7);
+		entity("mapstoleft", 0x21A4);
+		entity("mapstoup", 0x21A5);
+		entity("marker", 0x25AE);
+		entity("mcomma", 0x2A29);
+		entity("mcy", 0x043C);
+		entity("Mcy", 0x041C);
+		entity("mdash", 0x2014);
+		entity("mDDot", 0x223A);
+		entity("measuredangle", 0x2221);
+		entity("MediumSpace", 0x205F);
+		entity("Mellintrf", 0x2133);
+		entity("mfr", 0x1D52A);
+		entity("Mfr", 0x1D510);
+		entity("mgr", 0x03BC);
+		entity("Mgr", 0x039C);
+		entity("mho", 0x2127);
 		entity("micro", 0x00B5);
-		//entity("mid", 0x2223);
-		//entity("midast", 0x002A);
-		//entity("midcir", 0x2AF0);
+		entity("mid", 0x2223);
+		entity("midast", 0x002A);
+		entity("midcir", 0x2AF0);
 		entity("middot", 0x00B7);
-		//entity("minus", 0x2212);
-		//entity("minusb", 0x229F);
-		//entity("minusd", 0x2238);
-		//entity("minusdu", 0x2A2A);
-		//entity("MinusPlus", 0x2213);
-		//entity("mlcp", 0x2ADB);
-		//entity("mldr", 0x2026);
-		//entity("mnplus", 0x2213);
-		//entity("models", 0x22A7);
-		//entity("mopf", 0x1D55E);
-		//entity("Mopf", 0x1D544);
-		//entity("mp", 0x2213);
-		//entity("mscr", 0x1D4C2);
-		//entity("Mscr", 0x2133);
-		//entity("mstpos", 0x223E);
-		//entity("mu", 0x03BC);
-		//entity("Mu", 0x039C);
-		//entity("multimap", 0x22B8);
-		//entity("mumap", 0x22B8);
-		//entity("nabla", 0x2207);
-		//entity("nacute", 0x0144);
-		//entity("Nacute", 0x0143);
-		//entity("nap", 0x2249);
-		//entity("napos", 0x0149);
-		//entity("napprox", 0x2249);
-		//entity("natur", 0x266E);
-		//entity("natural", 0x266E);
-		//entity("naturals", 0x2115);
+		entity("minus", 0x2212);
+		entity("minusb", 0x229F);
+		entity("minusd", 0x2238);
+		entity("minusdu", 0x2A2A);
+		entity("MinusPlus", 0x2213);
+		entity("mlcp", 0x2ADB);
+		entity("mldr", 0x2026);
+		entity("mnplus", 0x2213);
+		entity("models", 0x22A7);
+		entity("mopf", 0x1D55E);
+		entity("Mopf", 0x1D544);
+		entity("mp", 0x2213);
+		entity("mscr", 0x1D4C2);
+		entity("Mscr", 0x2133);
+		entity("mstpos", 0x223E);
+		entity("mu", 0x03BC);
+		entity("Mu", 0x039C);
+		entity("multimap", 0x22B8);
+		entity("mumap", 0x22B8);
+		entity("nabla", 0x2207);
+		entity("nacute", 0x0144);
+		entity("Nacute", 0x0143);
+		entity("nap", 0x2249);
+		entity("napos", 0x0149);
+		entity("napprox", 0x2249);
+		entity("natur", 0x266E);
+		entity("natural", 0x266E);
+		entity("naturals", 0x2115);
 		entity("nbsp", 0x00A0);
-		//entity("ncap", 0x2A43);
-		//entity("ncaron", 0x0148);
-		//entity("Ncaron", 0x0147);
-		//entity("ncedil", 0x0146);
-		//entity("Ncedil", 0x0145);
-		//entity("ncong", 0x2247);
-		//entity("ncup", 0x2A42);
-		//entity("ncy", 0x043D);
-		//entity("Ncy", 0x041D);
-		//entity("ndash", 0x2013);
-		//entity("ne", 0x2260);
-		//entity("nearhk", 0x2924);
-		//entity("nearr", 0x2197);
-		//entity("neArr", 0x21D7);
-		//entity("nearrow", 0x2197);
-		//entity("NegativeMediumSpace", 0x200B);
-		//entity("NegativeThickSpace", 0x200B);
-		//entity("NegativeThinSpace", 0x200B);
-		//entity("NegativeVeryThinSpace", 0x200B);
-		//entity("nequiv", 0x2262);
-		//entity("nesear", 0x2928);
-		//entity("NestedGreaterGreater", 0x226B);
-		//entity("NestedLessLess", 0x226A);
+		entity("ncap", 0x2A43);
+		entity("ncaron", 0x0148);
+		entity("Ncaron", 0x0147);
+		entity("ncedil", 0x0146);
+		entity("Ncedil", 0x0145);
+		entity("ncong", 0x2247);
+		entity("ncup", 0x2A42);
+		entity("ncy", 0x043D);
+		entity("Ncy", 0x041D);
+		entity("ndash", 0x2013);
+		entity("ne", 0x2260);
+		entity("nearhk", 0x2924);
+		entity("nearr", 0x2197);
+		entity("neArr", 0x21D7);
+		entity("nearrow", 0x2197);
+		entity("NegativeMediumSpace", 0x200B);
+		entity("NegativeThickSpace", 0x200B);
+		entity("NegativeThinSpace", 0x200B);
+		entity("NegativeVeryThinSpace", 0x200B);
+		entity("nequiv", 0x2262);
+		entity("nesear", 0x2928);
+		entity("NestedGreaterGreater", 0x226B);
+		entity("NestedLessLess", 0x226A);
 		entity("NewLine", 0x000A);
-		//entity("nexist", 0x2204);
-		//entity("nexists", 0x2204);
-		//entity("nfr", 0x1D52B);
-		//entity("Nfr", 0x1D511);
-		//entity("nge", 0x2271);
-		//entity("ngeq", 0x2271);
-		//entity("ngr", 0x03BD);
-		//entity("Ngr", 0x039D);
-		//entity("ngsim", 0x2275);
-		//entity("ngt", 0x226F);
-		//entity("ngtr", 0x226F);
-		//entity("nharr", 0x21AE);
-		//entity("nhArr", 0x21CE);
-		//entity("nhpar", 0x2AF2);
-		//entity("ni", 0x220B);
-		//entity("nis", 0x22FC);
-		//entity("nisd", 0x22FA);
-		//entity("niv", 0x220B);
-		//entity("njcy", 0x045A);
-		//entity("NJcy", 0x040A);
-		//entity("nlarr", 0x219A);
-		//entity("nlArr", 0x21CD);
-		//entity("nldr", 0x2025);
-		//entity("nle", 0x2270);
-		//entity("nleftarrow", 0x219A);
-		//entity("nLeftarrow", 0x21CD);
-		//entity("nleftrightarrow", 0x21AE);
-		//entity("nLeftrightarrow", 0x21CE);
-		//entity("nleq", 0x2270);
-		//entity("nless", 0x226E);
-		//entity("nlsim", 0x2274);
-		//entity("nlt", 0x226E);
-		//entity("nltri", 0x22EA);
-		//entity("nltrie", 0x22EC);
-		//entity("nmid", 0x2224);
-		//entity("NoBreak", 0x2060);
+		entity("nexist", 0x2204);
+		entity("nexists", 0x2204);
+		entity("nfr", 0x1D52B);
+		entity("Nfr", 0x1D511);
+		entity("nge", 0x2271);
+		entity("ngeq", 0x2271);
+		entity("ngr", 0x03BD);
+		entity("Ngr", 0x039D);
+		entity("ngsim", 0x2275);
+		entity("ngt", 0x226F);
+		entity("ngtr", 0x226F);
+		entity("nharr", 0x21AE);
+		entity("nhArr", 0x21CE);
+		entity("nhpar", 0x2AF2);
+		entity("ni", 0x220B);
+		entity("nis", 0x22FC);
+		entity("nisd", 0x22FA);
+		entity("niv", 0x220B);
+		entity("njcy", 0x045A);
+		entity("NJcy", 0x040A);
+		entity("nlarr", 0x219A);
+		entity("nlArr", 0x21CD);
+		entity("nldr", 0x2025);
+		entity("nle", 0x2270);
+		entity("nleftarrow", 0x219A);
+		entity("nLeftarrow", 0x21CD);
+		entity("nleftrightarrow", 0x21AE);
+		entity("nLeftrightarrow", 0x21CE);
+		entity("nleq", 0x2270);
+		entity("nless", 0x226E);
+		entity("nlsim", 0x2274);
+		entity("nlt", 0x226E);
+		entity("nltri", 0x22EA);
+		entity("nltrie", 0x22EC);
+		entity("nmid", 0x2224);
+		entity("NoBreak", 0x2060);
 		entity("NonBreakingSpace", 0x00A0);
-		//entity("nopf", 0x1D55F);
-		//entity("Nopf", 0x2115);
+		entity("nopf", 0x1D55F);
+		entity("Nopf", 0x2115);
 		entity("not", 0x00AC);
-		//entity("Not", 0x2AEC);
-		//entity("NotCongruent", 0x2262);
-		//entity("NotCupCap", 0x226D);
-		//entity("NotDoubleVerticalBar", 0x2226);
-		//entity("NotElement", 0x2209);
-		//entity("NotEqual", 0x2260);
-		//entity("NotExists", 0x2204);
-		//entity("NotGreater", 0x226F);
-		//entity("NotGreaterEqual", 0x2271);
-		//entity("NotGreaterLess", 0x2279);
-		//entity("NotGreaterTilde", 0x2275);
-		//entity("notin", 0x2209);
-		//entity("notinva", 0x2209);
-		//entity("notinvb", 0x22F7);
-		//entity("notinvc", 0x22F6);
-		//entity("NotLeftTriangle", 0x22EA);
-		//entity("NotLeftTriangleEqual", 0x22EC);
-		//entity("NotLess", 0x226E);
-		//entity("NotLessEqual", 0x2270);
-		//entity("NotLessGreater", 0x2278);
-		//entity("NotLessTilde", 0x2274);
-		//entity("notni", 0x220C);
-		//entity("notniva", 0x220C);
-		//entity("notnivb", 0x22FE);
-		//entity("notnivc", 0x22FD);
-		//entity("NotPrecedes", 0x2280);
-		//entity("NotPrecedesSlantEqual", 0x22E0);
-		//entity("NotReverseElement", 0x220C);
-		//entity("NotRightTriangle", 0x22EB);
-		//entity("NotRightTriangleEqual", 0x22ED);
-		//entity("NotSquareSubsetEqual", 0x22E2);
-		//entity("NotSquareSupersetEqual", 0x22E3);
-		//entity("NotSubsetEqual", 0x2288);
-		//entity("NotSucceeds", 0x2281);
-		//entity("NotSucceedsSlantEqual", 0x22E1);
-		//entity("NotSupersetEqual", 0x2289);
-		//entity("NotTilde", 0x2241);
-		//entity("NotTildeEqual", 0x2244);
-		//entity("NotTildeFullEqual", 0x2247);
-		//entity("NotTildeTilde", 0x2249);
-		//entity("NotVerticalBar", 0x2224);
-		//entity("npar", 0x2226);
-		//entity("nparallel", 0x2226);
-		//entity("npolint", 0x2A14);
-		//entity("npr", 0x2280);
-		//entity("nprcue", 0x22E0);
-		//entity("nprec", 0x2280);
-		//entity("nrarr", 0x219B);
-		//entity("nrArr", 0x21CF);
-		//entity("nrightarrow", 0x219B);
-		//entity("nRightarrow", 0x21CF);
-		//entity("nrtri", 0x22EB);
-		//entity("nrtrie", 0x22ED);
-		//entity("nsc", 0x2281);
-		//entity("nsccue", 0x22E1);
-		//entity("nscr", 0x1D4C3);
-		//entity("Nscr", 0x1D4A9);
-		//entity("nshortmid", 0x2224);
-		//entity("nshortparallel", 0x2226);
-		//entity("nsim", 0x2241);
-		//entity("nsime", 0x2244);
-		//entity("nsimeq", 0x2244);
-		//entity("nsmid", 0x2224);
-		//entity("nspar", 0x2226);
-		//entity("nsqsube", 0x22E2);
-		//entity("nsqsupe", 0x22E3);
-		//entity("nsub", 0x2284);
-		//entity("nsube", 0x2288);
-		//entity("nsubseteq", 0x2288);
-		//entity("nsucc", 0x2281);
-		//entity("nsup", 0x2285);
-		//entity("nsupe", 0x2289);
-		//entity("nsupseteq", 0x2289);
-		//entity("ntgl", 0x2279);
+		entity("Not", 0x2AEC);
+		entity("NotCongruent", 0x2262);
+		entity("NotCupCap", 0x226D);
+		entity("NotDoubleVerticalBar", 0x2226);
+		entity("NotElement", 0x2209);
+		entity("NotEqual", 0x2260);
+		entity("NotExists", 0x2204);
+		entity("NotGreater", 0x226F);
+		entity("NotGreaterEqual", 0x2271);
+		entity("NotGreaterLess", 0x2279);
+		entity("NotGreaterTilde", 0x2275);
+		entity("notin", 0x2209);
+		entity("notinva", 0x2209);
+		entity("notinvb", 0x22F7);
+		entity("notinvc", 0x22F6);
+		entity("NotLeftTriangle", 0x22EA);
+		entity("NotLeftTriangleEqual", 0x22EC);
+		entity("NotLess", 0x226E);
+		entity("NotLessEqual", 0x2270);
+		entity("NotLessGreater", 0x2278);
+		entity("NotLessTilde", 0x2274);
+		entity("notni", 0x220C);
+		entity("notniva", 0x220C);
+		entity("notnivb", 0x22FE);
+		entity("notnivc", 0x22FD);
+		entity("NotPrecedes", 0x2280);
+		entity("NotPrecedesSlantEqual", 0x22E0);
+		entity("NotReverseElement", 0x220C);
+		entity("NotRightTriangle", 0x22EB);
+		entity("NotRightTriangleEqual", 0x22ED);
+		entity("NotSquareSubsetEqual", 0x22E2);
+		entity("NotSquareSupersetEqual", 0x22E3);
+		entity("NotSubsetEqual", 0x2288);
+		entity("NotSucceeds", 0x2281);
+		entity("NotSucceedsSlantEqual", 0x22E1);
+		entity("NotSupersetEqual", 0x2289);
+		entity("NotTilde", 0x2241);
+		entity("NotTildeEqual", 0x2244);
+		entity("NotTildeFullEqual", 0x2247);
+		entity("NotTildeTilde", 0x2249);
+		entity("NotVerticalBar", 0x2224);
+		entity("npar", 0x2226);
+		entity("nparallel", 0x2226);
+		entity("npolint", 0x2A14);
+		entity("npr", 0x2280);
+		entity("nprcue", 0x22E0);
+		entity("nprec", 0x2280);
+		entity("nrarr", 0x219B);
+		entity("nrArr", 0x21CF);
+		entity("nrightarrow", 0x219B);
+		entity("nRightarrow", 0x21CF);
+		entity("nrtri", 0x22EB);
+		entity("nrtrie", 0x22ED);
+		entity("nsc", 0x2281);
+		entity("nsccue", 0x22E1);
+		entity("nscr", 0x1D4C3);
+		entity("Nscr", 0x1D4A9);
+		entity("nshortmid", 0x2224);
+		entity("nshortparallel", 0x2226);
+		entity("nsim", 0x2241);
+		entity("nsime", 0x2244);
+		entity("nsimeq", 0x2244);
+		entity("nsmid", 0x2224);
+		entity("nspar", 0x2226);
+		entity("nsqsube", 0x22E2);
+		entity("nsqsupe", 0x22E3);
+		entity("nsub", 0x2284);
+		entity("nsube", 0x2288);
+		entity("nsubseteq", 0x2288);
+		entity("nsucc", 0x2281);
+		entity("nsup", 0x2285);
+		entity("nsupe", 0x2289);
+		entity("nsupseteq", 0x2289);
+		entity("ntgl", 0x2279);
 		entity("ntilde", 0x00F1);
 		entity("Ntilde", 0x00D1);
-		//entity("ntlg", 0x2278);
-		//entity("ntriangleleft", 0x22EA);
-		//entity("ntrianglelefteq", 0x22EC);
-		//entity("ntriangleright", 0x22EB);
-		//entity("ntrianglerighteq", 0x22ED);
-		//entity("nu", 0x03BD);
-		//entity("Nu", 0x039D);
+		entity("ntlg", 0x2278);
+		entity("ntriangleleft", 0x22EA);
+		entity("ntrianglelefteq", 0x22EC);
+		entity("ntriangleright", 0x22EB);
+		entity("ntrianglerighteq", 0x22ED);
+		entity("nu", 0x03BD);
+		entity("Nu", 0x039D);
 		entity("num", 0x0023);
-		//entity("numero", 0x2116);
-		//entity("numsp", 0x2007);
-		//entity("nvdash", 0x22AC);
-		//entity("nvDash", 0x22AD);
-		//entity("nVdash", 0x22AE);
-		//entity("nVDash", 0x22AF);
-		//entity("nvHarr", 0x2904);
-		//entity("nvinfin", 0x29DE);
-		//entity("nvlArr", 0x2902);
-		//entity("nvrArr", 0x2903);
-		//entity("nwarhk", 0x2923);
-		//entity("nwarr", 0x2196);
-		//entity("nwArr", 0x21D6);
-		//entity("nwarrow", 0x2196);
-		//entity("nwnear", 0x2927);
-		//entity("oacgr", 0x03CC);
-		//entity("Oacgr", 0x038C);
+		entity("numero", 0x2116);
+		entity("numsp", 0x2007);
+		entity("nvdash", 0x22AC);
+		entity("nvDash", 0x22AD);
+		entity("nVdash", 0x22AE);
+		entity("nVDash", 0x22AF);
+		entity("nvHarr", 0x2904);
+		entity("nvinfin", 0x29DE);
+		entity("nvlArr", 0x2902);
+		entity("nvrArr", 0x2903);
+		entity("nwarhk", 0x2923);
+		entity("nwarr", 0x2196);
+		entity("nwArr", 0x21D6);
+		entity("nwarrow", 0x2196);
+		entity("nwnear", 0x2927);
+		entity("oacgr", 0x03CC);
+		entity("Oacgr", 0x038C);
 		entity("oacute", 0x00F3);
 		entity("Oacute", 0x00D3);
-		//entity("oast", 0x229B);
-		//entity("ocir", 0x229A);
+		entity("oast", 0x229B);
+		entity("ocir", 0x229A);
 		entity("ocirc", 0x00F4);
 		entity("Ocirc", 0x00D4);
-		//entity("ocy", 0x043E);
-		//entity("Ocy", 0x041E);
-		//entity("odash", 0x229D);
-		//entity("odblac", 0x0151);
-		//entity("Odblac", 0x0150);
-		//entity("odiv", 0x2A38);
-		//entity("odot", 0x2299);
-		//entity("odsold", 0x29BC);
-		//entity("oelig", 0x0153);
-		//entity("OElig", 0x0152);
-		//entity("ofcir", 0x29BF);
-		//entity("ofr", 0x1D52C);
-		//entity("Ofr", 0x1D512);
-		//entity("ogon", 0x02DB);
-		//entity("ogr", 0x03BF);
-		//entity("Ogr", 0x039F);
+		entity("ocy", 0x043E);
+		entity("Ocy", 0x041E);
+		entity("odash", 0x229D);
+		entity("odblac", 0x0151);
+		entity("Odblac", 0x0150);
+		entity("odiv", 0x2A38);
+		entity("odot", 0x2299);
+		entity("odsold", 0x29BC);
+		entity("oelig", 0x0153);
+		entity("OElig", 0x0152);
+		entity("ofcir", 0x29BF);
+		entity("ofr", 0x1D52C);
+		entity("Ofr", 0x1D512);
+		entity("ogon", 0x02DB);
+		entity("ogr", 0x03BF);
+		entity("Ogr", 0x039F);
 		entity("ograve", 0x00F2);
 		entity("Ograve", 0x00D2);
-		//entity("ogt", 0x29C1);
-		//entity("ohacgr", 0x03CE);
-		//entity("OHacgr", 0x038F);
-		//entity("ohbar", 0x29B5);
-		//entity("ohgr", 0x03C9);
-		//entity("OHgr", 0x03A9);
-		//entity("ohm", 0x2126);
-		//entity("oint", 0x222E);
-		//entity("olarr", 0x21BA);
-		//entity("olcir", 0x29BE);
-		//entity("olcross", 0x29BB);
-		//entity("oline", 0x203E);
-		//entity("olt", 0x29C0);
-		//entity("omacr", 0x014D);
-		//entity("Omacr", 0x014C);
-		//entity("omega", 0x03C9);
-		//entity("Omega", 0x03A9);
-		//entity("omicron", 0x03BF);
-		//entity("Omicron", 0x039F);
-		//entity("omid", 0x29B6);
-		//entity("ominus", 0x2296);
-		//entity("oopf", 0x1D560);
-		//entity("Oopf", 0x1D546);
-		//entity("opar", 0x29B7);
-		//entity("OpenCurlyDoubleQuote", 0x201C);
-		//entity("OpenCurlyQuote", 0x2018);
-		//entity("operp", 0x29B9);
-		//entity("oplus", 0x2295);
-		//entity("or", 0x2228);
-		//entity("Or", 0x2A54);
-		//entity("orarr", 0x21BB);
-		//entity("ord", 0x2A5D);
-		//entity("order", 0x2134);
-		//entity("orderof", 0x2134);
+		entity("ogt", 0x29C1);
+		entity("ohacgr", 0x03CE);
+		entity("OHacgr", 0x038F);
+		entity("ohbar", 0x29B5);
+		entity("ohgr", 0x03C9);
+		entity("OHgr", 0x03A9);
+		entity("ohm", 0x2126);
+		entity("oint", 0x222E);
+		entity("olarr", 0x21BA);
+		entity("olcir", 0x29BE);
+		entity("olcross", 0x29BB);
+		entity("oline", 0x203E);
+		entity("olt", 0x29C0);
+		entity("omacr", 0x014D);
+		entity("Omacr", 0x014C);
+		entity("omega", 0x03C9);
+		entity("Omega", 0x03A9);
+		entity("omicron", 0x03BF);
+		entity("Omicron", 0x039F);
+		entity("omid", 0x29B6);
+		entity("ominus", 0x2296);
+		entity("oopf", 0x1D560);
+		entity("Oopf", 0x1D546);
+		entity("opar", 0x29B7);
+		entity("OpenCurlyDoubleQuote", 0x201C);
+		entity("OpenCurlyQuote", 0x2018);
+		entity("operp", 0x29B9);
+		entity("oplus", 0x2295);
+		entity("or", 0x2228);
+		entity("Or", 0x2A54);
+		entity("orarr", 0x21BB);
+		entity("ord", 0x2A5D);
+		entity("order", 0x2134);
+		entity("orderof", 0x2134);
 		entity("ordf", 0x00AA);
 		entity("ordm", 0x00BA);
-		//entity("origof", 0x22B6);
-		//entity("oror", 0x2A56);
-		//entity("orslope", 0x2A57);
-		//entity("orv", 0x2A5B);
-		//entity("oS", 0x24C8);
-		//entity("oscr", 0x2134);
-		//entity("Oscr", 0x1D4AA);
+		entity("origof", 0x22B6);
+		entity("oror", 0x2A56);
+		entity("orslope", 0x2A57);
+		entity("orv", 0x2A5B);
+		entity("oS", 0x24C8);
+		entity("oscr", 0x2134);
+		entity("Oscr", 0x1D4AA);
 		entity("oslash", 0x00F8);
 		entity("Oslash", 0x00D8);
-		//entity("osol", 0x2298);
+		entity("osol", 0x2298);
 		entity("otilde", 0x00F5);
 		entity("Otilde", 0x00D5);
-		//entity("otimes", 0x2297);
-		//entity("Otimes", 0x2A37);
-		//entity("otimesas", 0x2A36);
+		entity("otimes", 0x2297);
+		entity("Otimes", 0x2A37);
+		entity("otimesas", 0x2A36);
 		entity("ouml", 0x00F6);
 		entity("Ouml", 0x00D6);
-		//entity("ovbar", 0x233D);
+		entity("ovbar", 0x233D);
 		entity("OverBar", 0x00AF);
-		//entity("OverBrace", 0xFE37);
-		//entity("OverBracket", 0x23B4);
-		//entity("OverParenthesis", 0xFE35);
-		//entity("par", 0x2225);
+		entity("OverBrace", 0xFE37);
+		entity("OverBracket", 0x23B4);
+		entity("OverParenthesis", 0xFE35);
+		entity("par", 0x2225);
 		entity("para", 0x00B6);
-		//entity("parallel", 0x2225);
-		//entity("parsim", 0x2AF3);
-		//entity("parsl", 0x2AFD);
-		//entity("part", 0x2202);
-		//entity("PartialD", 0x2202);
-		//entity("pcy", 0x043F);
-		//entity("Pcy", 0x041F);
+		entity("parallel", 0x2225);
+		entity("parsim", 0x2AF3);
+		entity("parsl", 0x2AFD);
+		entity("part", 0x2202);
+		entity("PartialD", 0x2202);
+		entity("pcy", 0x043F);
+		entity("Pcy", 0x041F);
 		entity("percnt", 0x0025);
 		entity("period", 0x002E);
-		//entity("permil", 0x2030);
-		//entity("perp", 0x22A5);
-		//entity("pertenk", 0x2031);
-		//entity("pfr", 0x1D52D);
-		//entity("Pfr", 0x1D513);
-		//entity("pgr", 0x03C0);
-		//entity("Pgr", 0x03A0);
-		//entity("phgr", 0x03C6);
-		//entity("PHgr", 0x03A6);
-		//entity("phi", 0x03D5);
-		//entity("Phi", 0x03A6);
-		//entity("phiv", 0x03C6);
-		//entity("phmmat", 0x2133);
-		//entity("phone", 0x260E);
-		//entity("pi", 0x03C0);
-		//entity("Pi", 0x03A0);
-		//entity("pitchfork", 0x22D4);
-		//entity("piv", 0x03D6);
-		//entity("planck", 0x210F);
-		//entity("planckh", 0x210E);
-		//entity("plankv", 0x210F);
+		entity("permil", 0x2030);
+		entity("perp", 0x22A5);
+		entity("pertenk", 0x2031);
+		entity("pfr", 0x1D52D);
+		entity("Pfr", 0x1D513);
+		entity("pgr", 0x03C0);
+		entity("Pgr", 0x03A0);
+		entity("phgr", 0x03C6);
+		entity("PHgr", 0x03A6);
+		entity("phi", 0x03D5);
+		entity("Phi", 0x03A6);
+		entity("phiv", 0x03C6);
+		entity("phmmat", 0x2133);
+		entity("phone", 0x260E);
+		entity("pi", 0x03C0);
+		entity("Pi", 0x03A0);
+		entity("pitchfork", 0x22D4);
+		entity("piv", 0x03D6);
+		entity("planck", 0x210F);
+		entity("planckh", 0x210E);
+		entity("plankv", 0x210F);
 		entity("plus", 0x002B);
-		//entity("plusacir", 0x2A23);
-		//entity("plusb", 0x229E);
-		//entity("pluscir", 0x2A22);
-		//entity("plusdo", 0x2214);
-		//entity("plusdu", 0x2A25);
-		//entity("pluse", 0x2A72);
+		entity("plusacir", 0x2A23);
+		entity("plusb", 0x229E);
+		entity("pluscir", 0x2A22);
+		entity("plusdo", 0x2214);
+		entity("plusdu", 0x2A25);
+		entity("pluse", 0x2A72);
 		entity("PlusMinus", 0x00B1);
 		entity("plusmn", 0x00B1);
-		//entity("plussim", 0x2A26);
-		//entity("plustwo", 0x2A27);
+		entity("plussim", 0x2A26);
+		entity("plustwo", 0x2A27);
 		entity("pm", 0x00B1);
-		//entity("Poincareplane", 0x210C);
-		//entity("pointint", 0x2A15);
-		//entity("popf", 0x1D561);
-		//entity("Popf", 0x2119);
+		entity("Poincareplane", 0x210C);
+		entity("pointint", 0x2A15);
+		entity("popf", 0x1D561);
+		entity("Popf", 0x2119);
 		entity("pound", 0x00A3);
-		//entity("pr", 0x227A);
-		//entity("Pr", 0x2ABB);
-		//entity("prap", 0x2AB7);
-		//entity("prcue", 0x227C);
-		//entity("pre", 0x2AAF);
-		//entity("prE", 0x2AB3);
-		//entity("prec", 0x227A);
-		//entity("precapprox", 0x2AB7);
-		//entity("preccurlyeq", 0x227C);
-		//entity("Precedes", 0x227A);
-		//entity("PrecedesEqual", 0x2AAF);
-		//entity("PrecedesSlantEqual", 0x227C);
-		//entity("PrecedesTilde", 0x227E);
-		//entity("preceq", 0x2AAF);
-		//entity("precnapprox", 0x2AB9);
-		//entity("precneqq", 0x2AB5);
-		//entity("precnsim", 0x22E8);
-		//entity("precsim", 0x227E);
-		//entity("prime", 0x2032);
-		//entity("Prime", 0x2033);
-		//entity("primes", 0x2119);
-		//entity("prnap", 0x2AB9);
-		//entity("prnE", 0x2AB5);
-		//entity("prnsim", 0x22E8);
-		//entity("prod", 0x220F);
-		//entity("Product", 0x220F);
-		//entity("profalar", 0x232E);
-		//entity("profline", 0x2312);
-		//entity("profsurf", 0x2313);
-		//entity("prop", 0x221D);
-		//entity("Proportion", 0x2237);
-		//entity("Proportional", 0x221D);
-		//entity("propto", 0x221D);
-		//entity("prsim", 0x227E);
-		//entity("prurel", 0x22B0);
-		//entity("pscr", 0x1D4C5);
-		//entity("Pscr", 0x1D4AB);
-		//entity("psgr", 0x03C8);
-		//entity("PSgr", 0x03A8);
-		//entity("psi", 0x03C8);
-		//entity("Psi", 0x03A8);
-		//entity("puncsp", 0x2008);
-		//entity("qfr", 0x1D52E);
-		//entity("Qfr", 0x1D514);
-		//entity("qint", 0x2A0C);
-		//entity("qopf", 0x1D562);
-		//entity("Qopf", 0x211A);
-		//entity("qprime", 0x2057);
-		//entity("qscr", 0x1D4C6);
-		//entity("Qscr", 0x1D4AC);
-		//entity("quaternions", 0x210D);
-		//entity("quatint", 0x2A16);
+		entity("pr", 0x227A);
+		entity("Pr", 0x2ABB);
+		entity("prap", 0x2AB7);
+		entity("prcue", 0x227C);
+		entity("pre", 0x2AAF);
+		entity("prE", 0x2AB3);
+		entity("prec", 0x227A);
+		entity("precapprox", 0x2AB7);
+		entity("preccurlyeq", 0x227C);
+		entity("Precedes", 0x227A);
+		entity("PrecedesEqual", 0x2AAF);
+		entity("PrecedesSlantEqual", 0x227C);
+		entity("PrecedesTilde", 0x227E);
+		entity("preceq", 0x2AAF);
+		entity("precnapprox", 0x2AB9);
+		entity("precneqq", 0x2AB5);
+		entity("precnsim", 0x22E8);
+		entity("precsim", 0x227E);
+		entity("prime", 0x2032);
+		entity("Prime", 0x2033);
+		entity("primes", 0x2119);
+		entity("prnap", 0x2AB9);
+		entity("prnE", 0x2AB5);
+		entity("prnsim", 0x22E8);
+		entity("prod", 0x220F);
+		entity("Product", 0x220F);
+		entity("profalar", 0x232E);
+		entity("profline", 0x2312);
+		entity("profsurf", 0x2313);
+		entity("prop", 0x221D);
+		entity("Proportion", 0x2237);
+		entity("Proportional", 0x221D);
+		entity("propto", 0x221D);
+		entity("prsim", 0x227E);
+		entity("prurel", 0x22B0);
+		entity("pscr", 0x1D4C5);
+		entity("Pscr", 0x1D4AB);
+		entity("psgr", 0x03C8);
+		entity("PSgr", 0x03A8);
+		entity("psi", 0x03C8);
+		entity("Psi", 0x03A8);
+		entity("puncsp", 0x2008);
+		entity("qfr", 0x1D52E);
+		entity("Qfr", 0x1D514);
+		entity("qint", 0x2A0C);
+		entity("qopf", 0x1D562);
+		entity("Qopf", 0x211A);
+		entity("qprime", 0x2057);
+		entity("qscr", 0x1D4C6);
+		entity("Qscr", 0x1D4AC);
+		entity("quaternions", 0x210D);
+		entity("quatint", 0x2A16);
 		entity("quest", 0x003F);
-		//entity("questeq", 0x225F);
+		entity("questeq", 0x225F);
 		entity("quot", 0x0022);
-		//entity("rAarr", 0x21DB);
-		//entity("race", 0x29DA);
-		//entity("racute", 0x0155);
-		//entity("Racute", 0x0154);
-		//entity("radic", 0x221A);
-		//entity("raemptyv", 0x29B3);
-		//entity("rang", 0x232A);
-		//entity("Rang", 0x27EB);
-		//entity("rangd", 0x2992);
-		//entity("range", 0x29A5);
-		//entity("rangle", 0x232A);
+		entity("rAarr", 0x21DB);
+		entity("race", 0x29DA);
+		entity("racute", 0x0155);
+		entity("Racute", 0x0154);
+		entity("radic", 0x221A);
+		entity("raemptyv", 0x29B3);
+		entity("rang", 0x232A);
+		entity("Rang", 0x27EB);
+		entity("rangd", 0x2992);
+		entity("range", 0x29A5);
+		entity("rangle", 0x232A);
 		entity("raquo", 0x00BB);
-		//entity("rarr", 0x2192);
-		//entity("rArr", 0x21D2);
-		//entity("Rarr", 0x21A0);
-		//entity("rarrap", 0x2975);
-		//entity("rarrb", 0x21E5);
-		//entity("rarrbfs", 0x2920);
-		//entity("rarrc", 0x2933);
-		//entity("rarrfs", 0x291E);
-		//entity("rarrhk", 0x21AA);
-		//entity("rarrlp", 0x21AC);
-		//entity("rarrpl", 0x2945);
-		//entity("rarrsim", 0x2974);
-		//entity("rarrtl", 0x21A3);
-		//entity("Rarrtl", 0x2916);
-		//entity("rarrw", 0x219D);
-		//entity("ratail", 0x291A);
-		//entity("rAtail", 0x291C);
-		//entity("ratio", 0x2236);
-		//entity("rationals", 0x211A);
-		//entity("rbarr", 0x290D);
-		//entity("rBarr", 0x290F);
-		//entity("RBarr", 0x2910);
-		//entity("rbbrk", 0x2998);
+		entity("rarr", 0x2192);
+		entity("rArr", 0x21D2);
+		entity("Rarr", 0x21A0);
+		entity("rarrap", 0x2975);
+		entity("rarrb", 0x21E5);
+		entity("rarrbfs", 0x2920);
+		entity("rarrc", 0x2933);
+		entity("rarrfs", 0x291E);
+		entity("rarrhk", 0x21AA);
+		entity("rarrlp", 0x21AC);
+		entity("rarrpl", 0x2945);
+		entity("rarrsim", 0x2974);
+		entity("rarrtl", 0x21A3);
+		entity("Rarrtl", 0x2916);
+		entity("rarrw", 0x219D);
+		entity("ratail", 0x291A);
+		entity("rAtail", 0x291C);
+		entity("ratio", 0x2236);
+		entity("rationals", 0x211A);
+		entity("rbarr", 0x290D);
+		entity("rBarr", 0x290F);
+		entity("RBarr", 0x2910);
+		entity("rbbrk", 0x2998);
 		entity("rbrace", 0x007D);
 		entity("rbrack", 0x005D);
-		//entity("rbrke", 0x298C);
-		//entity("rbrksld", 0x298E);
-		//entity("rbrkslu", 0x2990);
-		//entity("rcaron", 0x0159);
-		//entity("Rcaron", 0x0158);
-		//entity("rcedil", 0x0157);
-		//entity("Rcedil", 0x0156);
-		//entity("rceil", 0x2309);
+		entity("rbrke", 0x298C);
+		entity("rbrksld", 0x298E);
+		entity("rbrkslu", 0x2990);
+		entity("rcaron", 0x0159);
+		entity("Rcaron", 0x0158);
+		entity("rcedil", 0x0157);
+		entity("Rcedil", 0x0156);
+		entity("rceil", 0x2309);
 		entity("rcub", 0x007D);
-		//entity("rcy", 0x0440);
-		//entity("Rcy", 0x0420);
-		//entity("rdca", 0x2937);
-		//entity("rdldhar", 0x2969);
-		//entity("rdquo", 0x201D);
-		//entity("rdquor", 0x201D);
-		//entity("rdsh", 0x21B3);
-		//entity("Re", 0x211C);
-		//entity("real", 0x211C);
-		//entity("realine", 0x211B);
-		//entity("realpart", 0x211C);
-		//entity("reals", 0x211D);
-		//entity("rect", 0x25AD);
+		entity("rcy", 0x0440);
+		entity("Rcy", 0x0420);
+		entity("rdca", 0x2937);
+		entity("rdldhar", 0x2969);
+		entity("rdquo", 0x201D);
+		entity("rdquor", 0x201D);
+		entity("rdsh", 0x21B3);
+		entity("Re", 0x211C);
+		entity("real", 0x211C);
+		entity("realine", 0x211B);
+		entity("realpart", 0x211C);
+		entity("reals", 0x211D);
+		entity("rect", 0x25AD);
 		entity("reg", 0x00AE);
-		//entity("ReverseElement", 0x220B);
-		//entity("ReverseEquilibrium", 0x21CB);
-		//entity("ReverseUpEquilibrium", 0x296F);
-		//entity("rfisht", 0x297D);
-		//entity("rfloor", 0x230B);
-		//entity("rfr", 0x1D52F);
-		//entity("Rfr", 0x211C);
-		//entity("rgr", 0x03C1);
-		//entity("Rgr", 0x03A1);
-		//entity("rHar", 0x2964);
-		//entity("rhard", 0x21C1);
-		//entity("rharu", 0x21C0);
-		//entity("rharul", 0x296C);
-		//entity("rho", 0x03C1);
-		//entity("Rho", 0x03A1);
-		//entity("rhov", 0x03F1);
-		//entity("RightAngleBracket", 0x232A);
-		//entity("rightarrow", 0x2192);
-		//entity("Rightarrow", 0x21D2);
-		//entity("RightArrowBar", 0x21E5);
-		//entity("RightArrowLeftArrow", 0x21C4);
-		//entity("rightarrowtail", 0x21A3);
-		//entity("RightCeiling", 0x2309);
-		//entity("RightDoubleBracket", 0x27E7);
-		//entity("RightDownTeeVector", 0x295D);
-		//entity("RightDownVector", 0x21C2);
-		//entity("RightDownVectorBar", 0x2955);
-		//entity("RightFloor", 0x230B);
-		//entity("rightharpoondown", 0x21C1);
-		//entity("rightharpoonup", 0x21C0);
-		//entity("rightleftarrows", 0x21C4);
-		//entity("rightleftharpoons", 0x21CC);
-		//entity("rightrightarrows", 0x21C9);
-		//entity("rightsquigarrow", 0x219D);
-		//entity("RightTee", 0x22A2);
-		//entity("RightTeeArrow", 0x21A6);
-		//entity("RightTeeVector", 0x295B);
-		//entity("rightthreetimes", 0x22CC);
-		//entity("RightTriangle", 0x22B3);
-		//entity("RightTriangleBar", 0x29D0);
-		//entity("RightTriangleEqual", 0x22B5);
-		//entity("RightUpDownVector", 0x294F);
-		//entity("RightUpTeeVector", 0x295C);
-		//entity("RightUpVector", 0x21BE);
-		//entity("RightUpVectorBar", 0x2954);
-		//entity("RightVector", 0x21C0);
-		//entity("RightVectorBar", 0x2953);
-		//entity("ring", 0x02DA);
-		//entity("risingdotseq", 0x2253);
-		//entity("rlarr", 0x21C4);
-		//entity("rlhar", 0x21CC);
-		//entity("rlm", 0x200F);
-		//entity("rmoust", 0x23B1);
-		//entity("rmoustache", 0x23B1);
-		//entity("rnmid", 0x2AEE);
-		//entity("roang", 0x27ED);
-		//entity("roarr", 0x21FE);
-		//entity("robrk", 0x27E7);
-		//entity("ropar", 0x2986);
-		//entity("ropf", 0x1D563);
-		//entity("Ropf", 0x211D);
-		//entity("roplus", 0x2A2E);
-		//entity("rotimes", 0x2A35);
-		//entity("RoundImplies", 0x2970);
+		entity("ReverseElement", 0x220B);
+		entity("ReverseEquilibrium", 0x21CB);
+		entity("ReverseUpEquilibrium", 0x296F);
+		entity("rfisht", 0x297D);
+		entity("rfloor", 0x230B);
+		entity("rfr", 0x1D52F);
+		entity("Rfr", 0x211C);
+		entity("rgr", 0x03C1);
+		entity("Rgr", 0x03A1);
+		entity("rHar", 0x2964);
+		entity("rhard", 0x21C1);
+		entity("rharu", 0x21C0);
+		entity("rharul", 0x296C);
+		entity("rho", 0x03C1);
+		entity("Rho", 0x03A1);
+		entity("rhov", 0x03F1);
+		entity("RightAngleBracket", 0x232A);
+		entity("rightarrow", 0x2192);
+		entity("Rightarrow", 0x21D2);
+		entity("RightArrowBar", 0x21E5);
+		entity("RightArrowLeftArrow", 0x21C4);
+		entity("rightarrowtail", 0x21A3);
+		entity("RightCeiling", 0x2309);
+		entity("RightDoubleBracket", 0x27E7);
+		entity("RightDownTeeVector", 0x295D);
+		entity("RightDownVector", 0x21C2);
+		entity("RightDownVectorBar", 0x2955);
+		entity("RightFloor", 0x230B);
+		entity("rightharpoondown", 0x21C1);
+		entity("rightharpoonup", 0x21C0);
+		entity("rightleftarrows", 0x21C4);
+		entity("rightleftharpoons", 0x21CC);
+		entity("rightrightarrows", 0x21C9);
+		entity("rightsquigarrow", 0x219D);
+		entity("RightTee", 0x22A2);
+		entity("RightTeeArrow", 0x21A6);
+		entity("RightTeeVector", 0x295B);
+		entity("rightthreetimes", 0x22CC);
+		entity("RightTriangle", 0x22B3);
+		entity("RightTriangleBar", 0x29D0);
+		entity("RightTriangleEqual", 0x22B5);
+		entity("RightUpDownVector", 0x294F);
+		entity("RightUpTeeVector", 0x295C);
+		entity("RightUpVector", 0x21BE);
+		entity("RightUpVectorBar", 0x2954);
+		entity("RightVector", 0x21C0);
+		entity("RightVectorBar", 0x2953);
+		entity("ring", 0x02DA);
+		entity("risingdotseq", 0x2253);
+		entity("rlarr", 0x21C4);
+		entity("rlhar", 0x21CC);
+		entity("rlm", 0x200F);
+		entity("rmoust", 0x23B1);
+		entity("rmoustache", 0x23B1);
+		entity("rnmid", 0x2AEE);
+		entity("roang", 0x27ED);
+		entity("roarr", 0x21FE);
+		entity("robrk", 0x27E7);
+		entity("ropar", 0x2986);
+		entity("ropf", 0x1D563);
+		entity("Ropf", 0x211D);
+		entity("roplus", 0x2A2E);
+		entity("rotimes", 0x2A35);
+		entity("RoundImplies", 0x2970);
 		entity("rpar", 0x0029);
-		//entity("rpargt", 0x2994);
-		//entity("rppolint", 0x2A12);
-		//entity("rrarr", 0x21C9);
-		//entity("Rrightarrow", 0x21DB);
-		//entity("rsaquo", 0x203A);
-		//entity("rscr", 0x1D4C7);
-		//entity("Rscr", 0x211B);
-		//entity("rsh", 0x21B1);
+		entity("rpargt", 0x2994);
+		entity("rppolint", 0x2A12);
+		entity("rrarr", 0x21C9);
+		entity("Rrightarrow", 0x21DB);
+		entity("rsaquo", 0x203A);
+		entity("rscr", 0x1D4C7);
+		entity("Rscr", 0x211B);
+		entity("rsh", 0x21B1);
 		entity("rsqb", 0x005D);
-		//entity("rsquo", 0x2019);
-		//entity("rsquor", 0x2019);
-		//entity("rthree", 0x22CC);
-		//entity("rtimes", 0x22CA);
-		//entity("rtri", 0x25B9);
-		//entity("rtrie", 0x22B5);
-		//entity("rtrif", 0x25B8);
-		//entity("rtriltri", 0x29CE);
-		//entity("RuleDelayed", 0x29F4);
-		//entity("ruluhar", 0x2968);
-		//entity("rx", 0x211E);
-		//entity("sacute", 0x015B);
-		//entity("Sacute", 0x015A);
-		//entity("sbquo", 0x201A);
-		//entity("sc", 0x227B);
-		//entity("Sc", 0x2ABC);
-		//entity("scap", 0x2AB8);
-		//entity("scaron", 0x0161);
-		//entity("Scaron", 0x0160);
-		//entity("sccue", 0x227D);
-		//entity("sce", 0x2AB0);
-		//entity("scE", 0x2AB4);
-		//entity("scedil", 0x015F);
-		//entity("Scedil", 0x015E);
-		//entity("scirc", 0x015D);
-		//entity("Scirc", 0x015C);
-		//entity("scnap", 0x2ABA);
-		//entity("scnE", 0x2AB6);
-		//entity("scnsim", 0x22E9);
-		//entity("scpolint", 0x2A13);
-		//entity("scsim", 0x227F);
-		//entity("scy", 0x0441);
-		//entity("Scy", 0x0421);
-		//entity("sdot", 0x22C5);
-		//entity("sdotb", 0x22A1);
-		//entity("sdote", 0x2A66);
-		//entity("searhk", 0x2925);
-		//entity("searr", 0x2198);
-		//entity("seArr", 0x21D8);
-		//entity("searrow", 0x2198);
+		entity("rsquo", 0x2019);
+		entity("rsquor", 0x2019);
+		entity("rthree", 0x22CC);
+		entity("rtimes", 0x22CA);
+		entity("rtri", 0x25B9);
+		entity("rtrie", 0x22B5);
+		entity("rtrif", 0x25B8);
+		entity("rtriltri", 0x29CE);
+		entity("RuleDelayed", 0x29F4);
+		entity("ruluhar", 0x2968);
+		entity("rx", 0x211E);
+		entity("sacute", 0x015B);
+		entity("Sacute", 0x015A);
+		entity("sbquo", 0x201A);
+		entity("sc", 0x227B);
+		entity("Sc", 0x2ABC);
+		entity("scap", 0x2AB8);
+		entity("scaron", 0x0161);
+		entity("Scaron", 0x0160);
+		entity("sccue", 0x227D);
+		entity("sce", 0x2AB0);
+		entity("scE", 0x2AB4);
+		entity("scedil", 0x015F);
+		entity("Scedil", 0x015E);
+		entity("scirc", 0x015D);
+		entity("Scirc", 0x015C);
+		entity("scnap", 0x2ABA);
+		entity("scnE", 0x2AB6);
+		entity("scnsim", 0x22E9);
+		entity("scpolint", 0x2A13);
+		entity("scsim", 0x227F);
+		entity("scy", 0x0441);
+		entity("Scy", 0x0421);
+		entity("sdot", 0x22C5);
+		entity("sdotb", 0x22A1);
+		entity("sdote", 0x2A66);
+		entity("searhk", 0x2925);
+		entity("searr", 0x2198);
+		entity("seArr", 0x21D8);
+		entity("searrow", 0x2198);
 		entity("sect", 0x00A7);
 		entity("semi", 0x003B);
-		//entity("seswar", 0x2929);
-		//entity("setminus", 0x2216);
-		//entity("setmn", 0x2216);
-		//entity("sext", 0x2736);
-		//entity("sfgr", 0x03C2);
-		//entity("sfr", 0x1D530);
-		//entity("Sfr", 0x1D516);
-		//entity("sfrown", 0x2322);
-		//entity("sgr", 0x03C3);
-		//entity("Sgr", 0x03A3);
-		//entity("sharp", 0x266F);
-		//entity("shchcy", 0x0449);
-		//entity("SHCHcy", 0x0429);
-		//entity("shcy", 0x0448);
-		//entity("SHcy", 0x0428);
-		//entity("ShortDownArrow", 0x2193);
-		//entity("ShortLeftArrow", 0x2190);
-		//entity("shortmid", 0x2223);
-		//entity("shortparallel", 0x2225);
-		//entity("ShortRightArrow", 0x2192);
-		//entity("ShortUpArrow", 0x2191);
+		entity("seswar", 0x2929);
+		entity("setminus", 0x2216);
+		entity("setmn", 0x2216);
+		entity("sext", 0x2736);
+		entity("sfgr", 0x03C2);
+		entity("sfr", 0x1D530);
+		entity("Sfr", 0x1D516);
+		entity("sfrown", 0x2322);
+		entity("sgr", 0x03C3);
+		entity("Sgr", 0x03A3);
+		entity("sharp", 0x266F);
+		entity("shchcy", 0x0449);
+		entity("SHCHcy", 0x0429);
+		entity("shcy", 0x0448);
+		entity("SHcy", 0x0428);
+		entity("ShortDownArrow", 0x2193);
+		entity("ShortLeftArrow", 0x2190);
+		entity("shortmid", 0x2223);
+		entity("shortparallel", 0x2225);
+		entity("ShortRightArrow", 0x2192);
+		entity("ShortUpArrow", 0x2191);
 		entity("shy", 0x00AD);
-		//entity("sigma", 0x03C3);
-		//entity("Sigma", 0x03A3);
-		//entity("sigmaf", 0x03C2);
-		//entity("sigmav", 0x03C2);
-		//entity("sim", 0x223C);
-		//entity("simdot", 0x2A6A);
-		//entity("sime", 0x2243);
-		//entity("simeq", 0x2243);
-		//entity("simg", 0x2A9E);
-		//entity("simgE", 0x2AA0);
-		//entity("siml", 0x2A9D);
-		//entity("simlE", 0x2A9F);
-		//entity("simne", 0x2246);
-		//entity("simplus", 0x2A24);
-		//entity("simrarr", 0x2972);
-		//entity("slarr", 0x2190);
-		//entity("SmallCircle", 0x2218);
-		//entity("smallsetminus", 0x2216);
-		//entity("smashp", 0x2A33);
-		//entity("smeparsl", 0x29E4);
-		//entity("smid", 0x2223);
-		//entity("smile", 0x2323);
-		//entity("smt", 0x2AAA);
-		//entity("smte", 0x2AAC);
-		//entity("softcy", 0x044C);
-		//entity("SOFTcy", 0x042C);
+		entity("sigma", 0x03C3);
+		entity("Sigma", 0x03A3);
+		entity("sigmaf", 0x03C2);
+		entity("sigmav", 0x03C2);
+		entity("sim", 0x223C);
+		entity("simdot", 0x2A6A);
+		entity("sime", 0x2243);
+		entity("simeq", 0x2243);
+		entity("simg", 0x2A9E);
+		entity("simgE", 0x2AA0);
+		entity("siml", 0x2A9D);
+		entity("simlE", 0x2A9F);
+		entity("simne", 0x2246);
+		entity("simplus", 0x2A24);
+		entity("simrarr", 0x2972);
+		entity("slarr", 0x2190);
+		entity("SmallCircle", 0x2218);
+		entity("smallsetminus", 0x2216);
+		entity("smashp", 0x2A33);
+		entity("smeparsl", 0x29E4);
+		entity("smid", 0x2223);
+		entity("smile", 0x2323);
+		entity("smt", 0x2AAA);
+		entity("smte", 0x2AAC);
+		entity("softcy", 0x044C);
+		entity("SOFTcy", 0x042C);
 		entity("sol", 0x002F);
-		//entity("solb", 0x29C4);
-		//entity("solbar", 0x233F);
-		//entity("sopf", 0x1D564);
-		//entity("Sopf", 0x1D54A);
-		//entity("spades", 0x2660);
-		//entity("spadesuit", 0x2660);
-		//entity("spar", 0x2225);
-		//entity("sqcap", 0x2293);
-		//entity("sqcup", 0x2294);
-		//entity("Sqrt", 0x221A);
-		//entity("sqsub", 0x228F);
-		//entity("sqsube", 0x2291);
-		//entity("sqsubset", 0x228F);
-		//entity("sqsubseteq", 0x2291);
-		//entity("sqsup", 0x2290);
-		//entity("sqsupe", 0x2292);
-		//entity("sqsupset", 0x2290);
-		//entity("sqsupseteq", 0x2292);
-		//entity("squ", 0x25A1);
-		//entity("square", 0x25A1);
-		//entity("SquareIntersection", 0x2293);
-		//entity("SquareSubset", 0x228F);
-		//entity("SquareSubsetEqual", 0x2291);
-		//entity("SquareSuperset", 0x2290);
-		//entity("SquareSupersetEqual", 0x2292);
-		//entity("SquareUnion", 0x2294);
-		//entity("squarf", 0x25AA);
-		//entity("squf", 0x25AA);
-		//entity("srarr", 0x2192);
-		//entity("sscr", 0x1D4C8);
-		//entity("Sscr", 0x1D4AE);
-		//entity("ssetmn", 0x2216);
-		//entity("ssmile", 0x2323);
-		//entity("sstarf", 0x22C6);
-		//entity("star", 0x2606);
-		//entity("Star", 0x22C6);
-		//entity("starf", 0x2605);
-		//entity("straightepsilon", 0x03F5);
-		//entity("straightphi", 0x03D5);
+		entity("solb", 0x29C4);
+		entity("solbar", 0x233F);
+		entity("sopf", 0x1D564);
+		entity("Sopf", 0x1D54A);
+		entity("spades", 0x2660);
+		entity("spadesuit", 0x2660);
+		entity("spar", 0x2225);
+		entity("sqcap", 0x2293);
+		entity("sqcup", 0x2294);
+		entity("Sqrt", 0x221A);
+		entity("sqsub", 0x228F);
+		entity("sqsube", 0x2291);
+		entity("sqsubset", 0x228F);
+		entity("sqsubseteq", 0x2291);
+		entity("sqsup", 0x2290);
+		entity("sqsupe", 0x2292);
+		entity("sqsupset", 0x2290);
+		entity("sqsupseteq", 0x2292);
+		entity("squ", 0x25A1);
+		entity("square", 0x25A1);
+		entity("SquareIntersection", 0x2293);
+		entity("SquareSubset", 0x228F);
+		entity("SquareSubsetEqual", 0x2291);
+		entity("SquareSuperset", 0x2290);
+		entity("SquareSupersetEqual", 0x2292);
+		entity("SquareUnion", 0x2294);
+		entity("squarf", 0x25AA);
+		entity("squf", 0x25AA);
+		entity("srarr", 0x2192);
+		entity("sscr", 0x1D4C8);
+		entity("Sscr", 0x1D4AE);
+		entity("ssetmn", 0x2216);
+		entity("ssmile", 0x2323);
+		entity("sstarf", 0x22C6);
+		entity("star", 0x2606);
+		entity("Star", 0x22C6);
+		entity("starf", 0x2605);
+		entity("straightepsilon", 0x03F5);
+		entity("straightphi", 0x03D5);
 		entity("strns", 0x00AF);
-		//entity("sub", 0x2282);
-		//entity("Sub", 0x22D0);
-		//entity("subdot", 0x2ABD);
-		//entity("sube", 0x2286);
-		//entity("subE", 0x2AC5);
-		//entity("subedot", 0x2AC3);
-		//entity("submult", 0x2AC1);
-		//entity("subne", 0x228A);
-		//entity("subnE", 0x2ACB);
-		//entity("subplus", 0x2ABF);
-		//entity("subrarr", 0x2979);
-		//entity("subset", 0x2282);
-		//entity("Subset", 0x22D0);
-		//entity("subseteq", 0x2286);
-		//entity("subseteqq", 0x2AC5);
-		//entity("SubsetEqual", 0x2286);
-		//entity("subsetneq", 0x228A);
-		//entity("subsetneqq", 0x2ACB);
-		//entity("subsim", 0x2AC7);
-		//entity("subsub", 0x2AD5);
-		//entity("subsup", 0x2AD3);
-		//entity("succ", 0x227B);
-		//entity("succapprox", 0x2AB8);
-		//entity("succcurlyeq", 0x227D);
-		//entity("Succeeds", 0x227B);
-		//entity("SucceedsEqual", 0x2AB0);
-		//entity("SucceedsSlantEqual", 0x227D);
-		//entity("SucceedsTilde", 0x227F);
-		//entity("succeq", 0x2AB0);
-		//entity("succnapprox", 0x2ABA);
-		//entity("succneqq", 0x2AB6);
-		//entity("succnsim", 0x22E9);
-		//entity("succsim", 0x227F);
-		//entity("SuchThat", 0x220B);
-		//entity("sum", 0x2211);
-		//entity("sung", 0x266A);
-		//entity("sup", 0x2283);
-		//entity("Sup", 0x22D1);
+		entity("sub", 0x2282);
+		entity("Sub", 0x22D0);
+		entity("subdot", 0x2ABD);
+		entity("sube", 0x2286);
+		entity("subE", 0x2AC5);
+		entity("subedot", 0x2AC3);
+		entity("submult", 0x2AC1);
+		entity("subne", 0x228A);
+		entity("subnE", 0x2ACB);
+		entity("subplus", 0x2ABF);
+		entity("subrarr", 0x2979);
+		entity("subset", 0x2282);
+		entity("Subset", 0x22D0);
+		entity("subseteq", 0x2286);
+		entity("subseteqq", 0x2AC5);
+		entity("SubsetEqual", 0x2286);
+		entity("subsetneq", 0x228A);
+		entity("subsetneqq", 0x2ACB);
+		entity("subsim", 0x2AC7);
+		entity("subsub", 0x2AD5);
+		entity("subsup", 0x2AD3);
+		entity("succ", 0x227B);
+		entity("succapprox", 0x2AB8);
+		entity("succcurlyeq", 0x227D);
+		entity("Succeeds", 0x227B);
+		entity("SucceedsEqual", 0x2AB0);
+		entity("SucceedsSlantEqual", 0x227D);
+		entity("SucceedsTilde", 0x227F);
+		entity("succeq", 0x2AB0);
+		entity("succnapprox", 0x2ABA);
+		entity("succneqq", 0x2AB6);
+		entity("succnsim", 0x22E9);
+		entity("succsim", 0x227F);
+		entity("SuchThat", 0x220B);
+		entity("sum", 0x2211);
+		entity("sung", 0x266A);
+		entity("sup", 0x2283);
+		entity("Sup", 0x22D1);
 		entity("sup1", 0x00B9);
 		entity("sup2", 0x00B2);
 		entity("sup3", 0x00B3);
-		//entity("supdot", 0x2ABE);
-		//entity("supdsub", 0x2AD8);
-		//entity("supe", 0x2287);
-		//entity("supE", 0x2AC6);
-		//entity("supedot", 0x2AC4);
-		//entity("Superset", 0x2283);
-		//entity("SupersetEqual", 0x2287);
-		//entity("suphsub", 0x2AD7);
-		//entity("suplarr", 0x297B);
-		//entity("supmult", 0x2AC2);
-		//entity("supne", 0x228B);
-		//entity("supnE", 0x2ACC);
-		//entity("supplus", 0x2AC0);
-		//entity("supset", 0x2283);
-		//entity("Supset", 0x22D1);
-		//entity("supseteq", 0x2287);
-		//entity("supseteqq", 0x2AC6);
-		//entity("supsetneq", 0x228B);
-		//entity("supsetneqq", 0x2ACC);
-		//entity("supsim", 0x2AC8);
-		//entity("supsub", 0x2AD4);
-		//entity("supsup", 0x2AD6);
-		//entity("swarhk", 0x2926);
-		//entity("swarr", 0x2199);
-		//entity("swArr", 0x21D9);
-		//entity("swarrow", 0x2199);
-		//entity("swnwar", 0x292A);
+		entity("supdot", 0x2ABE);
+		entity("supdsub", 0x2AD8);
+		entity("supe", 0x2287);
+		entity("supE", 0x2AC6);
+		entity("supedot", 0x2AC4);
+		entity("Superset", 0x2283);
+		entity("SupersetEqual", 0x2287);
+		entity("suphsub", 0x2AD7);
+		entity("suplarr", 0x297B);
+		entity("supmult", 0x2AC2);
+		entity("supne", 0x228B);
+		entity("supnE", 0x2ACC);
+		entity("supplus", 0x2AC0);
+		entity("supset", 0x2283);
+		entity("Supset", 0x22D1);
+		entity("supseteq", 0x2287);
+		entity("supseteqq", 0x2AC6);
+		entity("supsetneq", 0x228B);
+		entity("supsetneqq", 0x2ACC);
+		entity("supsim", 0x2AC8);
+		entity("supsub", 0x2AD4);
+		entity("supsup", 0x2AD6);
+		entity("swarhk", 0x2926);
+		entity("swarr", 0x2199);
+		entity("swArr", 0x21D9);
+		entity("swarrow", 0x2199);
+		entity("swnwar", 0x292A);
 		entity("szlig", 0x00DF);
 		entity("Tab", 0x0009);
-		//entity("target", 0x2316);
-		//entity("tau", 0x03C4);
-		//entity("Tau", 0x03A4);
-		//entity("tbrk", 0x23B4);
-		//entity("tcaron", 0x0165);
-		//entity("Tcaron", 0x0164);
-		//entity("tcedil", 0x0163);
-		//entity("Tcedil", 0x0162);
-		//entity("tcy", 0x0442);
-		//entity("Tcy", 0x0422);
-		//entity("telrec", 0x2315);
-		//entity("tfr", 0x1D531);
-		//entity("Tfr", 0x1D517);
-		//entity("tgr", 0x03C4);
-		//entity("Tgr", 0x03A4);
-		//entity("there4", 0x2234);
-		//entity("therefore", 0x2234);
-		//entity("theta", 0x03B8);
-		//entity("Theta", 0x0398);
-		//entity("thetasym", 0x03D1);
-		//entity("thetav", 0x03D1);
-		//entity("thgr", 0x03B8);
-		//entity("THgr", 0x0398);
-		//entity("thickapprox", 0x2248);
-		//entity("thicksim", 0x223C);
-		//entity("thinsp", 0x2009);
-		//entity("ThinSpace", 0x2009);
-		//entity("thkap", 0x2248);
-		//entity("thksim", 0x223C);
+		entity("target", 0x2316);
+		entity("tau", 0x03C4);
+		entity("Tau", 0x03A4);
+		entity("tbrk", 0x23B4);
+		entity("tcaron", 0x0165);
+		entity("Tcaron", 0x0164);
+		entity("tcedil", 0x0163);
+		entity("Tcedil", 0x0162);
+		entity("tcy", 0x0442);
+		entity("Tcy", 0x0422);
+		entity("telrec", 0x2315);
+		entity("tfr", 0x1D531);
+		entity("Tfr", 0x1D517);
+		entity("tgr", 0x03C4);
+		entity("Tgr", 0x03A4);
+		entity("there4", 0x2234);
+		entity("therefore", 0x2234);
+		entity("theta", 0x03B8);
+		entity("Theta", 0x0398);
+		entity("thetasym", 0x03D1);
+		entity("thetav", 0x03D1);
+		entity("thgr", 0x03B8);
+		entity("THgr", 0x0398);
+		entity("thickapprox", 0x2248);
+		entity("thicksim", 0x223C);
+		entity("thinsp", 0x2009);
+		entity("ThinSpace", 0x2009);
+		entity("thkap", 0x2248);
+		entity("thksim", 0x223C);
 		entity("thorn", 0x00FE);
 		entity("THORN", 0x00DE);
-		//entity("tilde", 0x02DC);
-		//entity("Tilde", 0x223C);
-		//entity("TildeEqual", 0x2243);
-		//entity("TildeFullEqual", 0x2245);
-		//entity("TildeTilde", 0x2248);
+		entity("tilde", 0x02DC);
+		entity("Tilde", 0x223C);
+		entity("TildeEqual", 0x2243);
+		entity("TildeFullEqual", 0x2245);
+		entity("TildeTilde", 0x2248);
 		entity("times", 0x00D7);
-		//entity("timesb", 0x22A0);
-		//entity("timesbar", 0x2A31);
-		//entity("timesd", 0x2A30);
-		//entity("tint", 0x222D);
-		//entity("toea", 0x2928);
-		//entity("top", 0x22A4);
-		//entity("topbot", 0x2336);
-		//entity("topcir", 0x2AF1);
-		//entity("topf", 0x1D565);
-		//entity("Topf", 0x1D54B);
-		//entity("topfork", 0x2ADA);
-		//entity("tosa", 0x2929);
-		//entity("tprime", 0x2034);
-		//entity("trade", 0x2122);
-		//entity("triangle", 0x25B5);
-		//entity("triangledown", 0x25BF);
-		//entity("triangleleft", 0x25C3);
-		//entity("trianglelefteq", 0x22B4);
-		//entity("triangleq", 0x225C);
-		//entity("triangleright", 0x25B9);
-		//entity("trianglerighteq", 0x22B5);
-		//entity("tridot", 0x25EC);
-		//entity("trie", 0x225C);
-		//entity("triminus", 0x2A3A);
-		//entity("triplus", 0x2A39);
-		//entity("trisb", 0x29CD);
-		//entity("tritime", 0x2A3B);
-		//entity("trpezium", 0x23E2);
-		//entity("tscr", 0x1D4C9);
-		//entity("Tscr", 0x1D4AF);
-		//entity("tscy", 0x0446);
-		//entity("TScy", 0x0426);
-		//entity("tshcy", 0x045B);
-		//entity("TSHcy", 0x040B);
-		//entity("tstrok", 0x0167);
-		//entity("Tstrok", 0x0166);
-		//entity("twixt", 0x226C);
-		//entity("twoheadleftarrow", 0x219E);
-		//entity("twoheadrightarrow", 0x21A0);
-		//entity("uacgr", 0x03CD);
-		//entity("Uacgr", 0x038E);
+		entity("timesb", 0x22A0);
+		entity("timesbar", 0x2A31);
+		entity("timesd", 0x2A30);
+		entity("tint", 0x222D);
+		entity("toea", 0x2928);
+		entity("top", 0x22A4);
+		entity("topbot", 0x2336);
+		entity("topcir", 0x2AF1);
+		entity("topf", 0x1D565);
+		entity("Topf", 0x1D54B);
+		entity("topfork", 0x2ADA);
+		entity("tosa", 0x2929);
+		entity("tprime", 0x2034);
+		entity("trade", 0x2122);
+		entity("triangle", 0x25B5);
+		entity("triangledown", 0x25BF);
+		entity("triangleleft", 0x25C3);
+		entity("trianglelefteq", 0x22B4);
+		entity("triangleq", 0x225C);
+		entity("triangleright", 0x25B9);
+		entity("trianglerighteq", 0x22B5);
+		entity("tridot", 0x25EC);
+		entity("trie", 0x225C);
+		entity("triminus", 0x2A3A);
+		entity("triplus", 0x2A39);
+		entity("trisb", 0x29CD);
+		entity("tritime", 0x2A3B);
+		entity("trpezium", 0x23E2);
+		entity("tscr", 0x1D4C9);
+		entity("Tscr", 0x1D4AF);
+		entity("tscy", 0x0446);
+		entity("TScy", 0x0426);
+		entity("tshcy", 0x045B);
+		entity("TSHcy", 0x040B);
+		entity("tstrok", 0x0167);
+		entity("Tstrok", 0x0166);
+		entity("twixt", 0x226C);
+		entity("twoheadleftarrow", 0x219E);
+		entity("twoheadrightarrow", 0x21A0);
+		entity("uacgr", 0x03CD);
+		entity("Uacgr", 0x038E);
 		entity("uacute", 0x00FA);
 		entity("Uacute", 0x00DA);
-		//entity("uarr", 0x2191);
-		//entity("uArr", 0x21D1);
-		//entity("Uarr", 0x219F);
-		//entity("Uarrocir", 0x2949);
-		//entity("ubrcy", 0x045E);
-		//entity("Ubrcy", 0x040E);
-		//entity("ubreve", 0x016D);
-		//entity("Ubreve", 0x016C);
+		entity("uarr", 0x2191);
+		entity("uArr", 0x21D1);
+		entity("Uarr", 0x219F);
+		entity("Uarrocir", 0x2949);
+		entity("ubrcy", 0x045E);
+		entity("Ubrcy", 0x040E);
+		entity("ubreve", 0x016D);
+		entity("Ubreve", 0x016C);
 		entity("ucirc", 0x00FB);
 		entity("Ucirc", 0x00DB);
-		//entity("ucy", 0x0443);
-		//entity("Ucy", 0x0423);
-		//entity("udarr", 0x21C5);
-		//entity("udblac", 0x0171);
-		//entity("Udblac", 0x0170);
-		//entity("udhar", 0x296E);
-		//entity("udiagr", 0x03B0);
-		//entity("udigr", 0x03CB);
-		//entity("Udigr", 0x03AB);
-		//entity("ufisht", 0x297E);
-		//entity("ufr", 0x1D532);
-		//entity("Ufr", 0x1D518);
-		//entity("ugr", 0x03C5);
-		//entity("Ugr", 0x03A5);
+		entity("ucy", 0x0443);
+		entity("Ucy", 0x0423);
+		entity("udarr", 0x21C5);
+		entity("udblac", 0x0171);
+		entity("Udblac", 0x0170);
+		entity("udhar", 0x296E);
+		entity("udiagr", 0x03B0);
+		entity("udigr", 0x03CB);
+		entity("Udigr", 0x03AB);
+		entity("ufisht", 0x297E);
+		entity("ufr", 0x1D532);
+		entity("Ufr", 0x1D518);
+		entity("ugr", 0x03C5);
+		entity("Ugr", 0x03A5);
 		entity("ugrave", 0x00F9);
 		entity("Ugrave", 0x00D9);
-		//entity("uHar", 0x2963);
-		//entity("uharl", 0x21BF);
-		//entity("uharr", 0x21BE);
-		//entity("uhblk", 0x2580);
-		//entity("ulcorn", 0x231C);
-		//entity("ulcorner", 0x231C);
-		//entity("ulcrop", 0x230F);
-		//entity("ultri", 0x25F8);
-		//entity("umacr", 0x016B);
-		//entity("Umacr", 0x016A);
+		entity("uHar", 0x2963);
+		entity("uharl", 0x21BF);
+		entity("uharr", 0x21BE);
+		entity("uhblk", 0x2580);
+		entity("ulcorn", 0x231C);
+		entity("ulcorner", 0x231C);
+		entity("ulcrop", 0x230F);
+		entity("ultri", 0x25F8);
+		entity("umacr", 0x016B);
+		entity("Umacr", 0x016A);
 		entity("uml", 0x00A8);
-		//entity("UnderBrace", 0xFE38);
-		//entity("UnderBracket", 0x23B5);
-		//entity("UnderParenthesis", 0xFE36);
-		//entity("Union", 0x22C3);
-		//entity("UnionPlus", 0x228E);
-		//entity("uogon", 0x0173);
-		//entity("Uogon", 0x0172);
-		//entity("uopf", 0x1D566);
-		//entity("Uopf", 0x1D54C);
-		//entity("uparrow", 0x2191);
-		//entity("Uparrow", 0x21D1);
-		//entity("UpArrowBar", 0x2912);
-		//entity("UpArrowDownArrow", 0x21C5);
-		//entity("updownarrow", 0x2195);
-		//entity("Updownarrow", 0x21D5);
-		//entity("UpEquilibrium", 0x296E);
-		//entity("upharpoonleft", 0x21BF);
-		//entity("upharpoonright", 0x21BE);
-		//entity("uplus", 0x228E);
-		//entity("UpperLeftArrow", 0x2196);
-		//entity("UpperRightArrow", 0x2197);
-		//entity("upsi", 0x03C5);
-		//entity("Upsi", 0x03D2);
-		//entity("upsih", 0x03D2);
-		//entity("upsilon", 0x03C5);
-		//entity("Upsilon", 0x03A5);
-		//entity("UpTee", 0x22A5);
-		//entity("UpTeeArrow", 0x21A5);
-		//entity("upuparrows", 0x21C8);
-		//entity("urcorn", 0x231D);
-		//entity("urcorner", 0x231D);
-		//entity("urcrop", 0x230E);
-		//entity("uring", 0x016F);
-		//entity("Uring", 0x016E);
-		//entity("urtri", 0x25F9);
-		//entity("uscr", 0x1D4CA);
-		//entity("Uscr", 0x1D4B0);
-		//entity("utdot", 0x22F0);
-		//entity("utilde", 0x0169);
-		//entity("Utilde", 0x0168);
-		//entity("utri", 0x25B5);
-		//entity("utrif", 0x25B4);
-		//entity("uuarr", 0x21C8);
+		entity("UnderBrace", 0xFE38);
+		entity("UnderBracket", 0x23B5);
+		entity("UnderParenthesis", 0xFE36);
+		entity("Union", 0x22C3);
+		entity("UnionPlus", 0x228E);
+		entity("uogon", 0x0173);
+		entity("Uogon", 0x0172);
+		entity("uopf", 0x1D566);
+		entity("Uopf", 0x1D54C);
+		entity("uparrow", 0x2191);
+		entity("Uparrow", 0x21D1);
+		entity("UpArrowBar", 0x2912);
+		entity("UpArrowDownArrow", 0x21C5);
+		entity("updownarrow", 0x2195);
+		entity("Updownarrow", 0x21D5);
+		entity("UpEquilibrium", 0x296E);
+		entity("upharpoonleft", 0x21BF);
+		entity("upharpoonright", 0x21BE);
+		entity("uplus", 0x228E);
+		entity("UpperLeftArrow", 0x2196);
+		entity("UpperRightArrow", 0x2197);
+		entity("upsi", 0x03C5);
+		entity("Upsi", 0x03D2);
+		entity("upsih", 0x03D2);
+		entity("upsilon", 0x03C5);
+		entity("Upsilon", 0x03A5);
+		entity("UpTee", 0x22A5);
+		entity("UpTeeArrow", 0x21A5);
+		entity("upuparrows", 0x21C8);
+		entity("urcorn", 0x231D);
+		entity("urcorner", 0x231D);
+		entity("urcrop", 0x230E);
+		entity("uring", 0x016F);
+		entity("Uring", 0x016E);
+		entity("urtri", 0x25F9);
+		entity("uscr", 0x1D4CA);
+		entity("Uscr", 0x1D4B0);
+		entity("utdot", 0x22F0);
+		entity("utilde", 0x0169);
+		entity("Utilde", 0x0168);
+		entity("utri", 0x25B5);
+		entity("utrif", 0x25B4);
+		entity("uuarr", 0x21C8);
 		entity("uuml", 0x00FC);
 		entity("Uuml", 0x00DC);
-		//entity("uwangle", 0x29A7);
-		//entity("vangrt", 0x299C);
-		//entity("varepsilon", 0x03B5);
-		//entity("varkappa", 0x03F0);
-		//entity("varnothing", 0x2205);
-		//entity("varphi", 0x03C6);
-		//entity("varpi", 0x03D6);
-		//entity("varpropto", 0x221D);
-		//entity("varr", 0x2195);
-		//entity("vArr", 0x21D5);
-		//entity("varrho", 0x03F1);
-		//entity("varsigma", 0x03C2);
-		//entity("vartheta", 0x03D1);
-		//entity("vartriangleleft", 0x22B2);
-		//entity("vartriangleright", 0x22B3);
-		//entity("vBar", 0x2AE8);
-		//entity("Vbar", 0x2AEB);
-		//entity("vBarv", 0x2AE9);
-		//entity("vcy", 0x0432);
-		//entity("Vcy", 0x0412);
-		//entity("vdash", 0x22A2);
-		//entity("vDash", 0x22A8);
-		//entity("Vdash", 0x22A9);
-		//entity("VDash", 0x22AB);
-		//entity("Vdashl", 0x2AE6);
-		//entity("vee", 0x2228);
-		//entity("Vee", 0x22C1);
-		//entity("veebar", 0x22BB);
-		//entity("veeeq", 0x225A);
-		//entity("vellip", 0x22EE);
+		entity("uwangle", 0x29A7);
+		entity("vangrt", 0x299C);
+		entity("varepsilon", 0x03B5);
+		entity("varkappa", 0x03F0);
+		entity("varnothing", 0x2205);
+		entity("varphi", 0x03C6);
+		entity("varpi", 0x03D6);
+		entity("varpropto", 0x221D);
+		entity("varr", 0x2195);
+		entity("vArr", 0x21D5);
+		entity("varrho", 0x03F1);
+		entity("varsigma", 0x03C2);
+		entity("vartheta", 0x03D1);
+		entity("vartriangleleft", 0x22B2);
+		entity("vartriangleright", 0x22B3);
+		entity("vBar", 0x2AE8);
+		entity("Vbar", 0x2AEB);
+		entity("vBarv", 0x2AE9);
+		entity("vcy", 0x0432);
+		entity("Vcy", 0x0412);
+		entity("vdash", 0x22A2);
+		entity("vDash", 0x22A8);
+		entity("Vdash", 0x22A9);
+		entity("VDash", 0x22AB);
+		entity("Vdashl", 0x2AE6);
+		entity("vee", 0x2228);
+		entity("Vee", 0x22C1);
+		entity("veebar", 0x22BB);
+		entity("veeeq", 0x225A);
+		entity("vellip", 0x22EE);
 		entity("verbar", 0x007C);
-		//entity("Verbar", 0x2016);
+		entity("Verbar", 0x2016);
 		entity("vert", 0x007C);
-		//entity("Vert", 0x2016);
-		//entity("VerticalBar", 0x2223);
+		entity("Vert", 0x2016);
+		entity("VerticalBar", 0x2223);
 		entity("VerticalLine", 0x007C);
-		//entity("VerticalSeparator", 0x2758);
-		//entity("VerticalTilde", 0x2240);
-		//entity("VeryThinSpace", 0x200A);
-		//entity("vfr", 0x1D533);
-		//entity("Vfr", 0x1D519);
-		//entity("vltri", 0x22B2);
-		//entity("vopf", 0x1D567);
-		//entity("Vopf", 0x1D54D);
-		//entity("vprop", 0x221D);
-		//entity("vrtri", 0x22B3);
-		//entity("vscr", 0x1D4CB);
-		//entity("Vscr", 0x1D4B1);
-		//entity("Vvdash", 0x22AA);
-		//entity("vzigzag", 0x299A);
-		//entity("wcirc", 0x0175);
-		//entity("Wcirc", 0x0174);
-		//entity("wedbar", 0x2A5F);
-		//entity("wedge", 0x2227);
-		//entity("Wedge", 0x22C0);
-		//entity("wedgeq", 0x2259);
-		//entity("weierp", 0x2118);
-		//entity("wfr", 0x1D534);
-		//entity("Wfr", 0x1D51A);
-		//entity("wopf", 0x1D568);
-		//entity("Wopf", 0x1D54E);
-		//entity("wp", 0x2118);
-		//entity("wr", 0x2240);
-		//entity("wreath", 0x2240);
-		//entity("wscr", 0x1D4CC);
-		//entity("Wscr", 0x1D4B2);
-		//entity("xcap", 0x22C2);
-		//entity("xcirc", 0x25EF);
-		//entity("xcup", 0x22C3);
-		//entity("xdtri", 0x25BD);
-		//entity("xfr", 0x1D535);
-		//entity("Xfr", 0x1D51B);
-		//entity("xgr", 0x03BE);
-		//entity("Xgr", 0x039E);
-		//entity("xharr", 0x27F7);
-		//entity("xhArr", 0x27FA);
-		//entity("xi", 0x03BE);
-		//entity("Xi", 0x039E);
-		//entity("xlarr", 0x27F5);
-		//entity("xlArr", 0x27F8);
-		//entity("xmap", 0x27FC);
-		//entity("xnis", 0x22FB);
-		//entity("xodot", 0x2A00);
-		//entity("xopf", 0x1D569);
-		//entity("Xopf", 0x1D54F);
-		//entity("xoplus", 0x2A01);
-		//entity("xotime", 0x2A02);
-		//entity("xrarr", 0x27F6);
-		//entity("xrArr", 0x27F9);
-		//entity("xscr", 0x1D4CD);
-		//entity("Xscr", 0x1D4B3);
-		//entity("xsqcup", 0x2A06);
-		//entity("xuplus", 0x2A04);
-		//entity("xutri", 0x25B3);
-		//entity("xvee", 0x22C1);
-		//entity("xwedge", 0x22C0);
+		entity("VerticalSeparator", 0x2758);
+		entity("VerticalTilde", 0x2240);
+		entity("VeryThinSpace", 0x200A);
+		entity("vfr", 0x1D533);
+		entity("Vfr", 0x1D519);
+		entity("vltri", 0x22B2);
+		entity("vopf", 0x1D567);
+		entity("Vopf", 0x1D54D);
+		entity("vprop", 0x221D);
+		entity("vrtri", 0x22B3);
+		entity("vscr", 0x1D4CB);
+		entity("Vscr", 0x1D4B1);
+		entity("Vvdash", 0x22AA);
+		entity("vzigzag", 0x299A);
+		entity("wcirc", 0x0175);
+		entity("Wcirc", 0x0174);
+		entity("wedbar", 0x2A5F);
+		entity("wedge", 0x2227);
+		entity("Wedge", 0x22C0);
+		entity("wedgeq", 0x2259);
+		entity("weierp", 0x2118);
+		entity("wfr", 0x1D534);
+		entity("Wfr", 0x1D51A);
+		entity("wopf", 0x1D568);
+		entity("Wopf", 0x1D54E);
+		entity("wp", 0x2118);
+		entity("wr", 0x2240);
+		entity("wreath", 0x2240);
+		entity("wscr", 0x1D4CC);
+		entity("Wscr", 0x1D4B2);
+		entity("xcap", 0x22C2);
+		entity("xcirc", 0x25EF);
+		entity("xcup", 0x22C3);
+		entity("xdtri", 0x25BD);
+		entity("xfr", 0x1D535);
+		entity("Xfr", 0x1D51B);
+		entity("xgr", 0x03BE);
+		entity("Xgr", 0x039E);
+		entity("xharr", 0x27F7);
+		entity("xhArr", 0x27FA);
+		entity("xi", 0x03BE);
+		entity("Xi", 0x039E);
+		entity("xlarr", 0x27F5);
+		entity("xlArr", 0x27F8);
+		entity("xmap", 0x27FC);
+		entity("xnis", 0x22FB);
+		entity("xodot", 0x2A00);
+		entity("xopf", 0x1D569);
+		entity("Xopf", 0x1D54F);
+		entity("xoplus", 0x2A01);
+		entity("xotime", 0x2A02);
+		entity("xrarr", 0x27F6);
+		entity("xrArr", 0x27F9);
+		entity("xscr", 0x1D4CD);
+		entity("Xscr", 0x1D4B3);
+		entity("xsqcup", 0x2A06);
+		entity("xuplus", 0x2A04);
+		entity("xutri", 0x25B3);
+		entity("xvee", 0x22C1);
+		entity("xwedge", 0x22C0);
 		entity("yacute", 0x00FD);
 		entity("Yacute", 0x00DD);
-		//entity("yacy", 0x044F);
-		//entity("YAcy", 0x042F);
-		//entity("ycirc", 0x0177);
-		//entity("Ycirc", 0x0176);
-		//entity("ycy", 0x044B);
-		//entity("Ycy", 0x042B);
+		entity("yacy", 0x044F);
+		entity("YAcy", 0x042F);
+		entity("ycirc", 0x0177);
+		entity("Ycirc", 0x0176);
+		entity("ycy", 0x044B);
+		entity("Ycy", 0x042B);
 		entity("yen", 0x00A5);
-		//entity("yfr", 0x1D536);
-		//entity("Yfr", 0x1D51C);
-		//entity("yicy", 0x0457);
-		//entity("YIcy", 0x0407);
-		//entity("yopf", 0x1D56A);
-		//entity("Yopf", 0x1D550);
-		//entity("yscr", 0x1D4CE);
-		//entity("Yscr", 0x1D4B4);
-		//entity("yucy", 0x044E);
-		//entity("YUcy", 0x042E);
+		entity("yfr", 0x1D536);
+		entity("Yfr", 0x1D51C);
+		entity("yicy", 0x0457);
+		entity("YIcy", 0x0407);
+		entity("yopf", 0x1D56A);
+		entity("Yopf", 0x1D550);
+		entity("yscr", 0x1D4CE);
+		entity("Yscr", 0x1D4B4);
+		entity("yucy", 0x044E);
+		entity("YUcy", 0x042E);
 		entity("yuml", 0x00FF);
-		//entity("Yuml", 0x0178);
-		//entity("zacute", 0x017A);
-		//entity("Zacute", 0x0179);
-		//entity("zcaron", 0x017E);
-		//entity("Zcaron", 0x017D);
-		//entity("zcy", 0x0437);
-		//entity("Zcy", 0x0417);
-		//entity("zdot", 0x017C);
-		//entity("Zdot", 0x017B);
-		//entity("zeetrf", 0x2128);
-		//entity("ZeroWidthSpace", 0x200B);
-		//entity("zeta", 0x03B6);
-		//entity("Zeta", 0x0396);
-		//entity("zfr", 0x1D537);
-		//entity("Zfr", 0x2128);
-		//entity("zgr", 0x03B6);
-		//entity("Zgr", 0x0396);
-		//entity("zhcy", 0x0436);
-		//entity("ZHcy", 0x0416);
-		//entity("zigrarr", 0x21DD);
-		//entity("zopf", 0x1D56B);
-		//entity("Zopf", 0x2124);
-		//entity("zscr", 0x1D4CF);
-		//entity("Zscr", 0x1D4B5);
-		//entity("zwj", 0x200D);
-		//entity("zwnj", 0x200C);
+		entity("Yuml", 0x0178);
+		entity("zacute", 0x017A);
+		entity("Zacute", 0x0179);
+		entity("zcaron", 0x017E);
+		entity("Zcaron", 0x017D);
+		entity("zcy", 0x0437);
+		entity("Zcy", 0x0417);
+		entity("zdot", 0x017C);
+		entity("Zdot", 0x017B);
+		entity("zeetrf", 0x2128);
+		entity("ZeroWidthSpace", 0x200B);
+		entity("zeta", 0x03B6);
+		entity("Zeta", 0x0396);
+		entity("zfr", 0x1D537);
+		entity("Zfr", 0x2128);
+		entity("zgr", 0x03B6);
+		entity("Zgr", 0x0396);
+		entity("zhcy", 0x0436);
+		entity("ZHcy", 0x0416);
+		entity("zigrarr", 0x21DD);
+		entity("zopf", 0x1D56B);
+		entity("Zopf", 0x2124);
+		entity("zscr", 0x1D4CF);
+		entity("Zscr", 0x1D4B5);
+		entity("zwj", 0x200D);
+		entity("zwnj", 0x200C);
   } // entities
 
   HTMLSchema(const HTMLSchema&);
-- 
2.43.0

