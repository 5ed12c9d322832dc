From 9de0595c11415325fcae3eb86ad89b872ec3810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 01/14] fix: MailBox::subscribe no longer deadlocks or leaves a
 stray queue when memory runs out

---
 include/MailBox.hxx | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 81ec389..66ffa9b 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -305,15 +305,22 @@ namespace SoDa {
      */
     Subscription subscribe() {
       std::lock_guard<std::mutex> lock(mtx);	      
-      // what will the subscriber number be? 
-      Subscription ret(new SubscriptionCl(this,
-					  subscription_counter));
-
       // make a subscriber queue
-      message_queues[subscription_counter] = std::queue<std::shared_ptr<T>>();
-      
-      subscription_counter++;
-      return ret;
+      message_queues[subscription_counter];
+
+      // If the handle can't be allocated, take the queue away again. (The
+      // handle's destructor would call unsubscribe, which needs the lock
+      // that we are holding.)
+      try {
+	Subscription ret(new SubscriptionCl(this,
+					    subscription_counter));
+	subscription_counter++;
+	return ret;
+      }
+      catch(...) {
+	message_queues.erase(subscription_counter);
+	throw;
+      }
     }
 
 
-- 
2.43.0


From 8152df55cb6d4c1bc5ee757305d4b6046d8e9a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 02/14] fix: Barrier::wait reads the round number only while it
 holds the lock

---
 src/Barrier.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index ca3d689..a83e9f0 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -55,9 +55,10 @@ namespace SoDa {
     }
     
     // bump the waiting count
-    auto old_barrier_count = barrier_count; 
     {
       std::unique_lock<std::mutex> lock(mtx);
+      // which round are we in? Nobody can change that while we hold the lock.
+      auto old_barrier_count = barrier_count; 
       
       waiting++; 
       if(waiting == num_waiters) {
-- 
2.43.0


From d2100478e153b45db75149b45f6df1c6e96d4440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 03/14] fix: a Barrier timeout makes every other waiter and
 late arrival throw Corrupt

---
 src/Barrier.cxx | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index a83e9f0..c57306f 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -59,6 +59,11 @@ namespace SoDa {
       std::unique_lock<std::mutex> lock(mtx);
       // which round are we in? Nobody can change that while we hold the lock.
       auto old_barrier_count = barrier_count; 
+
+      // somebody has already timed out: this barrier is done for.
+      if(corrupted) {
+	throw Barrier::Corrupt(*this);
+      }
       
       waiting++; 
       if(waiting == num_waiters) {
@@ -72,14 +77,14 @@ namespace SoDa {
 	// and does the right thing wrt the race between bumping
 	// the barrier_count and getting to the point where we're
 	// testing things. 
-	bool is_ok = cv.wait_for(lock, 
-				 timeout,
-				 [old_barrier_count, this]() {
-				   return old_barrier_count != barrier_count; 
-				 });
+	cv.wait_for(lock, 
+		    timeout,
+		    [old_barrier_count, this]() {
+		      return (old_barrier_count != barrier_count) || corrupted; 
+		    });
 	
-	// if the barrier hasn't advanced, then we timed out.
-	if (!is_ok) {
+	// if the barrier hasn't advanced, then we or somebody else timed out.
+	if (old_barrier_count == barrier_count) {
 	  // that's really bad, as we've got a broken barrier.
 	  // If we return it will be truly broken, and everyone will
 	  // hang. Though it is likely that everyone is hung already.
@@ -90,8 +95,7 @@ namespace SoDa {
 	  else {
 	    // we're the first one to timout. 
 	    corrupted = true; 
-	    // set the barrier count to infinity, and wake everyone up
-	    barrier_count = 0xffffffff;
+	    // wake everyone up, they'll see that we're corrupted
 	    cv.notify_all();
 	    throw Barrier::Timeout(*this, timeout);
 	  }
-- 
2.43.0


From 1228c70ca7f01585fa5cee05f81ed8000d139419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 04/14] fix: dropping a cancelled MailBox subscription no
 longer terminates the program

---
 include/MailBox.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 66ffa9b..6670d5d 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -276,7 +276,12 @@ namespace SoDa {
       }
 
       ~SubscriptionCl() {
-	this_mbox->unsubscribe(subscriber_index);
+	// The subscription may have been cancelled already. 
+	try {
+	  this_mbox->unsubscribe(subscriber_index);
+	}
+	catch(...) {
+	}
       }
 
       int getIndex(MailBox<T> * mbox) const {
-- 
2.43.0


From 5b568ea6335f31c5514e9f4fa38f09b2289e3d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 05/14] fix: formatting throws when memory runs out instead of
 inserting truncated text

---
 src/Format.cxx | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 81c5fe9..051f28a 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -39,6 +39,12 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 namespace SoDa {
   char Format::separator = '.';
 
+  // A stream swallows bad_alloc and carries on with truncated text, 
+  // unless it is told to throw.
+  struct FieldStream : public std::stringstream {
+    FieldStream() { exceptions(std::ios_base::badbit); }
+  };
+
   Format::FmtStringSeg::FmtStringSeg(const std::string & str) {
     seg_type = LITERAL;
     val = str; 
@@ -142,7 +148,7 @@ namespace SoDa {
   }
 
   Format & Format::addI(int v, unsigned int w, char sep, char fill) {
-    std::stringstream ss;
+    FieldStream ss;
     if(fill != '\000') {
       ss << std::setfill(fill);
     }
@@ -154,7 +160,7 @@ namespace SoDa {
     }
     else {
       // print with comma separators
-      std::stringstream pre_ss;
+      FieldStream pre_ss;
       pre_ss << v;
       std::string vstr(pre_ss.str());
       std::reverse(vstr.begin(), vstr.end());
@@ -184,8 +190,8 @@ namespace SoDa {
 			char sep,
 			unsigned int group_count)
 {
-    std::stringstream ss;
-    std::stringstream pre_ss;
+    FieldStream ss;
+    FieldStream pre_ss;
     std::string result; 
     std::string valstr; 
     bool not_hex = true; 
@@ -256,7 +262,7 @@ namespace SoDa {
   std::string Format::toHex(unsigned long v, int width, bool uppercase) {
     // first build the string
     std::string ret;
-    std::stringstream ss;
+    FieldStream ss;
     if(uppercase) {
       ss << std::uppercase; 
     }
@@ -270,7 +276,7 @@ namespace SoDa {
 
   std::string Format::toOct(unsigned long v, int width) {
     std::string ret;
-    std::stringstream ss;
+    FieldStream ss;
     ss.setf(std::ios::showbase);
     ss << std::right << std::setfill('0');    
     ss << std::setw(width) << std::oct << v; 
@@ -390,7 +396,7 @@ namespace SoDa {
   }
   
   Format & Format::addF(double v, char fmt, unsigned int width, unsigned int significant_digits) {
-    std::stringstream ss;    
+    FieldStream ss;    
     //std::cerr << "v = " << v << " width = " << width 
     //	      << " significant_digits = " << significant_digits
     //	      << "\n";
@@ -522,14 +528,14 @@ namespace SoDa {
   }
 
   Format & Format::addC(char c) {
-    std::stringstream ss;
+    FieldStream ss;
     ss << c; 
     insertField(ss.str());
     return *this;
   }
 
   Format & Format::addB(bool v) {
-    std::stringstream ss;
+    FieldStream ss;
     ss << (v ? "T" : "F");
     insertField(ss.str());
     return *this;
@@ -564,7 +570,7 @@ namespace SoDa {
 	ret_string = ret_string + fld.val;
       }
       else if(fld.seg_type == FmtStringSeg::FMT_VAL) {
-	std::stringstream ss;
+	FieldStream ss;
 	ss << '%' << fld.idx;
 	ret_string = ret_string + ss.str();
 	unfilled_count++; 
-- 
2.43.0


From 26811e32223dfa2251d05174c293afafa4d91b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 06/14] fix: a parse that stopped at a signed option no longer
 poisons the next parse

---
 src/Options.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index 59fa849..18e7172 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -175,6 +175,8 @@ namespace SoDa {
 
   bool Options::parse(std::list<std::string> tokens) {
     OptBase_p arg_p = nullptr;
+    // an earlier parse may have stopped while it waited for a value
+    waiting_for_signed = false;
     try {
     while(!tokens.empty()) {
       std::string tkn = tokens.front();
-- 
2.43.0


From 88d4b9a23542a7f5ec940dcde4288c9650fbded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 07/14] fix: property lookup descends into the named property
 instead of staying where it is

---
 src/PropertyTree.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 9494a63..f64faf5 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -72,9 +72,10 @@ namespace SoDa {
     if(pathlist.size() == 0) {
       return this; 
     }
-    else if(dictionary.find(pathlist.front()) != dictionary.end()) {
+    auto entry = dictionary.find(pathlist.front());
+    if(entry != dictionary.end()) {
 	pathlist.pop_front();
-	return getPropRecursive(pathlist, orig_pathname, throw_exception);
+	return entry->second->getPropRecursive(pathlist, orig_pathname, throw_exception);
     }
     else {
       if(throw_exception) {
-- 
2.43.0


From 09324178c5cc0fee2eb644f13a4482dbabb011b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 08/14] fix: PropertyTree::get returns false for a missing
 property unless exceptions are asked for

---
 include/PropertyTree.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 36b7fb4..f8629bb 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -133,7 +133,8 @@ namespace SoDa {
       PropNode * pn = root->getProp(pathname, throw_exception); 
       
       if(pn == nullptr) {
-	throw PropNode::PropertyNotFound(pathname); 
+	// getProp has already thrown, if it was asked to
+	return false; 
       }
       
       return pn->get<T>(v, throw_exception);
-- 
2.43.0


From 7d0d9db5c6ee55f0c430b1d894d2737b12485381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:16 +0000
Subject: [PATCH 09/14] fix: an I/O error while reading a property file is
 reported instead of taken for the end of the file

---
 src/PropertyTreeYAML.cxx | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index d73b2ac..dab984a 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -1,6 +1,8 @@
 #include "PropertyTreeYAML.hxx"
 #include <iostream>
 #include <sstream>
+#include <fstream>
+#include <iterator>
 #include <yaml-cpp/yaml.h>
 
 /*
@@ -44,12 +46,22 @@ namespace SoDa {
   void PropertyTreeYAML::readFile(const std::string & filename) {
     YAML::Node TopNode; ///< the root node for the current file. 
     
+    // Read the whole file here: YAML::LoadFile takes a read error for
+    // the end of the file. 
+    std::string text; 
+    std::ifstream in(filename); 
+    if(!in) {
+      throw PropertyTree::FileNotFound("bad file: " + filename);
+    }
     try {
-      TopNode = YAML::LoadFile(filename);
+      text.assign(std::istreambuf_iterator<char>(in), 
+		  std::istreambuf_iterator<char>());
     }
-    catch(YAML::BadFile & e) {
-      throw PropertyTree::FileNotFound(e.what());
+    catch(std::ios_base::failure & e) {
+      throw PropertyTree::FileNotFound("error reading file: " + filename);
     }
+
+    TopNode = YAML::Load(text);
     
     // now recursively create the tree
     fillRecurse(TopNode, root);
-- 
2.43.0


From a54544acc320bbe9ac9218f1924aeea801584afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 10/14] fix: a property file that fails to load leaves nothing
 of itself in the tree

---
 src/PropertyTreeYAML.cxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index dab984a..fb88eee 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -63,8 +63,18 @@ namespace SoDa {
 
     TopNode = YAML::Load(text);
     
-    // now recursively create the tree
-    fillRecurse(TopNode, root);
+    // Now recursively create the tree.  If that fails part way, put
+    // back what was there before.
+    auto old_list = root->prop_list;
+    auto old_dictionary = root->dictionary;
+    try {
+      fillRecurse(TopNode, root);
+    }
+    catch(...) {
+      root->prop_list.swap(old_list);
+      root->dictionary.swap(old_dictionary);
+      throw;
+    }
   }
   
   void PropertyTreeYAML::fillRecurse(const YAML::Node & node,
-- 
2.43.0


From e19f705b999ca2a93b4db1933958532504b1b78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:33 +0000
Subject: [PATCH 11/14] fix: minReadyCount no longer copies every subscriber's
 queue

It copied all queued messages while it held the lock, so a subscriber who
never reads made it slower and slower for everybody else.
---
 include/MailBox.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 6670d5d..04f7b5b 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -400,7 +400,7 @@ namespace SoDa {
     unsigned int minReadyCount() {
       std::lock_guard<std::mutex> lock(mtx);	      
       unsigned int ret = ~0;
-      for(auto q : message_queues) {
+      for(auto & q : message_queues) {
 	auto qs = q.second.size();
 	ret = (ret < qs) ? ret : qs; 
       }
-- 
2.43.0


From 1ab35e51d9ff4f2df7231d4752f18823aea5feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:08 +0000
Subject: [PATCH 12/14] fix: give back the type names of a failed mailbox
 conversion

MailBoxBase::convert never freed the strings that __cxa_demangle
allocates, and handed a null pointer to std::string when the demangler
ran out of memory.
---
 include/MailBox.hxx | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 04f7b5b..9962e7f 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -3,8 +3,10 @@
 #include <map>
 #include <queue>
 #include <memory>
+#include <new>
 #include <mutex>
 #include <typeinfo>
+#include <cstdlib>
 #include <cxxabi.h>
 
 #include "Format.hxx"
@@ -209,17 +211,28 @@ namespace SoDa {
     }
   }; 
     
+    /**
+     * @brief A readable name for a type.  The storage that the demangler
+     * allocates belongs to us: copy the name out of it and give it back.
+     */
+    static std::string typeName(const std::type_info & type)
+    {
+      int status = 0;
+      std::unique_ptr<char, void (*)(void *)> 
+	readable(abi::__cxa_demangle(type.name(), nullptr, nullptr, &status), std::free);
+      if(readable == nullptr) {
+	if(status == -1) throw std::bad_alloc();
+	return type.name();
+      }
+      return readable.get();
+    }
+
     template<typename T>
     static std::shared_ptr<T> convert(std::shared_ptr<MailBoxBase> p)
     {
       auto ret = std::dynamic_pointer_cast<T>(p);
       if(ret == nullptr) {
-	int st1, st2; 
-	// this demangling is pretty dicey... 
-	throw BadConversion(p->name, abi::__cxa_demangle(typeid(p).name(), 
-						nullptr, nullptr, &st1), 
-			    abi::__cxa_demangle(typeid(ret).name(), 
-						nullptr, nullptr, &st2));
+	throw BadConversion(p->name, typeName(typeid(p)), typeName(typeid(ret)));
       }
       return ret; 
     }
-- 
2.43.0


From 212c3de41e55ccf05d7ebc7391b12a40f206e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 13/14] fix: a barrier limit beyond what the clock can count is
 not already over

wait(ULONG_MAX) became a limit of -1 ms, and limits of more than 292
years overflowed the clock: both timed out at once and broke the barrier.
---
 src/Barrier.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index c57306f..62ae00d 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -42,7 +42,10 @@ namespace SoDa {
       wait(std::chrono::seconds(3600 * 24 * 1000));
     }
     else {
-      wait(std::chrono::milliseconds(timeout_ms));    
+      // a count that milliseconds can't hold would turn negative
+      auto longest = std::chrono::milliseconds::max(); 
+      wait((timeout_ms < (unsigned long) longest.count()) ? 
+	   std::chrono::milliseconds(timeout_ms) : longest);
     }
     return;
   }
@@ -53,6 +56,12 @@ namespace SoDa {
     if(timeout.count() == 0) {
       return wait(std::chrono::seconds(3600 * 24 * 1000));
     }
+    // The clock counts nanoseconds and can't reach past 292 years: a
+    // limit beyond that would appear to have passed already. 
+    const std::chrono::hours century(100 * 365 * 24); 
+    if(timeout > century) {
+      return wait(century);
+    }
     
     // bump the waiting count
     {
-- 
2.43.0


From 0d096a54ae0eb1647f2b53ba4fbc08888a8ebee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:42 +0000
Subject: [PATCH 14/14] fix: running out of memory in PropNode::get is not a
 missing property

---
 include/PropertyTree.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index f8629bb..3eb959b 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -168,6 +168,8 @@ namespace SoDa {
        */
       template<typename T> bool get(T & v, bool throw_exception = false) {
 	std::stringstream ss(val_string, std::ios_base::in);
+	// let an exception (no memory) through: it says nothing about the value
+	ss.exceptions(std::ios_base::badbit);
 	ss >> v; 
 	if(ss.fail()) {
 	  if(throw_exception) {
-- 
2.43.0

