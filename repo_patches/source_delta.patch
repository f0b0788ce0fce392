From 3b6439e6898f3bd3dbc662fa1429c5de514515b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 01/14] fix: do not lose the wake-up of a worker thread

A worker checked its queue under data_mutex, but waited on main_mutex. A
package assigned (or a shutdown requested) between the check and the wait
was never noticed, and the census hung.
---
 src/threaded/thread.cc | 37 ++++++++++++++-----------------------
 src/threaded/thread.hh |  1 -
 2 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/threaded/thread.cc b/src/threaded/thread.cc
index 2431679..49f49e5 100644
--- a/src/threaded/thread.cc
+++ b/src/threaded/thread.cc
@@ -54,34 +54,25 @@ main_thread(
     const shared_ptr<StoreFactoryInterface> store_factory
     )
 {
-  unique_lock<mutex> main_lock(thread->main_mutex);
-
   while ( true ) {
-    while ( true ) {
-      thread->data_mutex.lock();
-      bool shutting_down = thread->shutting_down;
-      bool blocks_empty = thread->blocks.empty();
-      thread->data_mutex.unlock();
-
-      if ( shutting_down )
-        return;
-
-      if ( blocks_empty )
-        thread->main_cond_var.wait(main_lock);
-      else
-        break;
-    }
-
-
     vuu_block block;
     shared_ptr<FqElementTable> fq_table;
     vector<shared_ptr<ReductionTable>> reduction_tables;
 
-    thread->data_mutex.lock();
-    tie(block, fq_table, reduction_tables) =
-      thread->blocks.front();
-    thread->blocks.pop_front();
-    thread->data_mutex.unlock();
+    {
+      // wait on data_mutex, which protects the condition, so that no
+      // notification is lost between checking the condition and waiting
+      unique_lock<mutex> data_lock(thread->data_mutex);
+      while ( !thread->shutting_down && thread->blocks.empty() )
+        thread->main_cond_var.wait(data_lock);
+
+      if ( thread->shutting_down )
+        return;
+
+      tie(block, fq_table, reduction_tables) =
+        thread->blocks.front();
+      thread->blocks.pop_front();
+    }
 
     auto store = store_factory->create();
     for ( BlockIterator iter(block); !iter.is_end(); iter.step() ) {
diff --git a/src/threaded/thread.hh b/src/threaded/thread.hh
index 8f43297..79c63c7 100644
--- a/src/threaded/thread.hh
+++ b/src/threaded/thread.hh
@@ -81,7 +81,6 @@ class Thread :
     thread main_std_thread;
     bool shutting_down;
 
-    mutex main_mutex;
     mutex data_mutex;
     condition_variable main_cond_var;
 
-- 
2.43.0


From a6710fe687d1e76083b88a9c1f4293d3379aae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 02/14] fix: accept configurations without WithMarkedPoint

The key is optional for decode, which nevertheless converted the undefined
node and aborted.
---
 src/config/config_node.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/config_node.cc b/src/config/config_node.cc
index ff4f0e9..8273ced 100644
--- a/src/config/config_node.cc
+++ b/src/config/config_node.cc
@@ -92,7 +92,10 @@ namespace YAML
     config.prime_exponent = node["PrimeExponent"].as<int>();
   
     config.genus = node["Genus"].as<int>();
-    config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    if ( node["WithMarkedPoint"] )
+      config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    else
+      config.with_marked_point = false;
 
     if ( node["CountExponent"] )
       config.count_exponent = node["CountExponent"].as<int>();
-- 
2.43.0


From 6cccc54fa7e26ecf978fc407f8903ebb3f203c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 03/14] fix: copy counters of arbitrary size

Count::ValueType was copied member by member. For counters that do not fit
a machine word two objects then owned the same mpz, which was freed twice.
---
 src/store/store_data.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/store/store_data.hh b/src/store/store_data.hh
index c65ab54..f772bf1 100644
--- a/src/store/store_data.hh
+++ b/src/store/store_data.hh
@@ -83,6 +83,17 @@ class Count
 
       ValueType(const string & str);
 
+      ValueType(const ValueType & value)
+      {
+        fmpz_init_set(this->counter, value.counter);
+      };
+
+      ValueType & operator=(const ValueType & value)
+      {
+        fmpz_set(this->counter, value.counter);
+        return *this;
+      };
+
       ~ValueType()
       {
         fmpz_clear(this->counter);
-- 
2.43.0


From 852a8483a553f96a1ac1a4dd181b13550306c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 04/14] fix: schedule saving by a steady clock

If the system time was set back, results were not saved until it had
caught up.
---
 src/worker_pool/mpi.cc        | 4 ++--
 src/worker_pool/mpi.hh        | 6 +++---
 src/worker_pool/standalone.cc | 4 ++--
 src/worker_pool/standalone.hh | 6 +++---
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/worker_pool/mpi.cc b/src/worker_pool/mpi.cc
index 8ae494c..c74b32a 100644
--- a/src/worker_pool/mpi.cc
+++ b/src/worker_pool/mpi.cc
@@ -55,7 +55,7 @@ MPIWorkerPool(
     unsigned int nmb_threads_per_gpu
     ) :
   mpi_world ( mpi_world ),
-  next_save_time ( system_clock::now() + delay_save_time )
+  next_save_time ( steady_clock::now() + delay_save_time )
 {
   MPIWorkerPool::broadcast_initialization( mpi_world,
       store_type, nmb_working_threads, nmb_threads_per_gpu );
@@ -250,7 +250,7 @@ save_global_stores_to_file()
   if ( !this->file_store )
     return;
 
-  this->next_save_time = system_clock::now() + delay_save_time;
+  this->next_save_time = steady_clock::now() + delay_save_time;
 
   this->file_store->save(master_thread_pool->flush_global_store());
 
diff --git a/src/worker_pool/mpi.hh b/src/worker_pool/mpi.hh
index 064ca65..c76e084 100644
--- a/src/worker_pool/mpi.hh
+++ b/src/worker_pool/mpi.hh
@@ -35,7 +35,7 @@
 
 
 namespace mpi = boost::mpi;
-using std::chrono::system_clock;
+using std::chrono::steady_clock;
 using std::deque;
 using std::map;
 using std::set;
@@ -78,7 +78,7 @@ class MPIWorkerPool
     void
     delayed_save_global_stores_to_file()
     {
-      if ( system_clock::now() > this->next_save_time )
+      if ( steady_clock::now() > this->next_save_time )
         this->save_global_stores_to_file();
     };
 
@@ -96,7 +96,7 @@ class MPIWorkerPool
     map<u_process_id, set<vuu_block>> assigned_blocks;
 
     shared_ptr<FileStore> file_store;
-    system_clock::time_point next_save_time;
+    steady_clock::time_point next_save_time;
     static const std::chrono::minutes delay_save_time;
 };
 
diff --git a/src/worker_pool/standalone.cc b/src/worker_pool/standalone.cc
index 216e697..854f529 100644
--- a/src/worker_pool/standalone.cc
+++ b/src/worker_pool/standalone.cc
@@ -42,7 +42,7 @@ StandaloneWorkerPool(
     int nmb_working_threads,
     unsigned int nmb_threads_per_gpu
     ) :
-  next_save_time ( system_clock::now() + delay_save_time )
+  next_save_time ( steady_clock::now() + delay_save_time )
 {
   this->master_thread_pool = make_shared<ThreadPool>(store_factory);
   this->master_thread_pool->spark_threads(nmb_working_threads, nmb_threads_per_gpu);
@@ -165,7 +165,7 @@ save_global_stores_to_file()
   if ( !this->file_store )
     return;
 
-  this->next_save_time = system_clock::now() + this->delay_save_time;
+  this->next_save_time = steady_clock::now() + this->delay_save_time;
 
   this->file_store->save(master_thread_pool->flush_global_store());
 }
diff --git a/src/worker_pool/standalone.hh b/src/worker_pool/standalone.hh
index 3f6d075..6cd5e51 100644
--- a/src/worker_pool/standalone.hh
+++ b/src/worker_pool/standalone.hh
@@ -31,7 +31,7 @@
 #include "store/file_store.hh"
 
 
-using std::chrono::system_clock;
+using std::chrono::steady_clock;
 using std::set;
 using std::shared_ptr;
 
@@ -67,7 +67,7 @@ class StandaloneWorkerPool
     void
     delayed_save_global_stores_to_file()
     {
-      if ( system_clock::now() > this->next_save_time ) {
+      if ( steady_clock::now() > this->next_save_time ) {
         this->save_global_stores_to_file();
       }
     };
@@ -80,7 +80,7 @@ class StandaloneWorkerPool
     set<vuu_block> assigned_blocks;
 
     shared_ptr<FileStore> file_store;
-    system_clock::time_point next_save_time;
+    steady_clock::time_point next_save_time;
     static const std::chrono::minutes delay_save_time;
 };
 
-- 
2.43.0


From 3c2ba481281275a8b78f8ff7c474ad6f58aeb642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:08 +0000
Subject: [PATCH 05/14] fix: notice that results could not be written

Errors when writing stores and records were ignored, so that hycu reported
success although results had been lost.
---
 src/store/file_store.cc | 19 +++++++++++++++++--
 src/store/file_store.hh |  1 +
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 1bb4d4c..a2854d5 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -22,6 +22,7 @@
 
 #include <fstream>
 #include <random>
+#include <stdexcept>
 
 #include "store/file_store.hh"
 
@@ -69,8 +70,22 @@ save(
   tie(path_record, path_store) = this->new_filenames();
 
   // save record second as a witness to successful writing
-  fstream(path_store.native(),  ios_base::out) << get<1>(record_store);
-  fstream(path_record.native(), ios_base::out) << get<0>(record_store);
+  FileStore::write_file(path_store, get<1>(record_store));
+  FileStore::write_file(path_record, get<0>(record_store));
+}
+
+void
+FileStore::
+write_file(
+    const path & filepath,
+    const string & content
+    )
+{
+  ofstream stream(filepath.native());
+  stream << content;
+  stream.close();
+  if ( !stream )
+    throw runtime_error("could not write " + filepath.native());
 }
 
 tuple<path, path>
diff --git a/src/store/file_store.hh b/src/store/file_store.hh
index 035bb2c..d9f3ed6 100644
--- a/src/store/file_store.hh
+++ b/src/store/file_store.hh
@@ -57,6 +57,7 @@ class FileStore
     }
 
     void save( tuple<string, string> record_store );
+    static void write_file(const path & filepath, const string & content);
     tuple<path, path> new_filenames();
 
     inline
-- 
2.43.0


From 918e3393fd097d9a566a27ab549ad900e860a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:09 +0000
Subject: [PATCH 06/14] fix: never leave a partially written record

A crash while the record was written left a record that listed part of the
packages in the store, or a package that was cut off. The others were
counted again by the next run.
---
 src/store/file_store.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index a2854d5..c2b3546 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -81,11 +81,16 @@ write_file(
     const string & content
     )
 {
-  ofstream stream(filepath.native());
+  // the file is renamed to its final name only when it is complete
+  const path path_tmp(filepath.native() + ".tmp");
+
+  ofstream stream(path_tmp.native());
   stream << content;
   stream.close();
   if ( !stream )
     throw runtime_error("could not write " + filepath.native());
+
+  filesys::rename(path_tmp, filepath);
 }
 
 tuple<path, path>
-- 
2.43.0


From efaafc2af8719d386320671d46eb169a3f27718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:09 +0000
Subject: [PATCH 07/14] fix: make results durable

After a power loss the record could be found without the store that it
vouches for. Sync the store before the record becomes visible.
---
 src/store/file_store.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index c2b3546..26cad23 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -20,9 +20,12 @@
 
 ===============================================================================*/
 
+#include <cerrno>
+#include <fcntl.h>
 #include <fstream>
 #include <random>
 #include <stdexcept>
+#include <unistd.h>
 
 #include "store/file_store.hh"
 
@@ -74,6 +77,23 @@ save(
   FileStore::write_file(path_record, get<0>(record_store));
 }
 
+static
+void
+sync_path(
+    const path & filepath
+    )
+{
+  const int fd = ::open(filepath.c_str(), O_RDONLY);
+  if ( fd == -1 )
+    throw runtime_error("could not open " + filepath.native());
+
+  // some file systems cannot sync folders, and say so by EINVAL
+  const bool synced = ::fsync(fd) == 0 || errno == EINVAL;
+  ::close(fd);
+  if ( !synced )
+    throw runtime_error("could not sync " + filepath.native());
+}
+
 void
 FileStore::
 write_file(
@@ -90,7 +110,9 @@ write_file(
   if ( !stream )
     throw runtime_error("could not write " + filepath.native());
 
+  sync_path(path_tmp);
   filesys::rename(path_tmp, filepath);
+  sync_path(filepath.has_parent_path() ? filepath.parent_path() : path("."));
 }
 
 tuple<path, path>
-- 
2.43.0


From 9567bd18ad0c289008b2c9290545ebbd25cf852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:13 +0000
Subject: [PATCH 08/14] fix: refuse records that cannot be read

A record that could not be opened was read forever, and a read error in the
middle of a record cut it off silently, so that packages were computed and
counted a second time.
---
 src/store/file_store.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 26cad23..e51d2f7 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -166,11 +166,16 @@ extract(
   vuu_block block;
 
   stream.peek();
-  while ( !stream.eof() ) {
+  while ( stream.good() ) {
     block.clear();
     FileStore::extract(stream, block);
-    record.insert(block);
+    if ( !stream.fail() )
+      record.insert(block);
+    stream.peek();
   }
+
+  if ( !stream.eof() || stream.bad() )
+    throw runtime_error("could not read record");
 }
 
 ostream &
-- 
2.43.0


From e3f0c9019c7cebfab1105ac45bce4a4f54de2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:13 +0000
Subject: [PATCH 09/14] fix: let the merger notice read and write errors

It reported success if part of the input could not be read, or if the
output could not be written.
---
 src/executables/merger.cc | 9 +++++++--
 src/store/store.cc        | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/executables/merger.cc b/src/executables/merger.cc
index f941620..87bf9ee 100644
--- a/src/executables/merger.cc
+++ b/src/executables/merger.cc
@@ -25,6 +25,7 @@
 #include <boost/program_options.hpp>
 #include <fstream>
 #include <iostream>
+#include <sstream>
 #include <vector>
 
 #include "store/curve_data.hh"
@@ -156,9 +157,13 @@ merge(
     store.extract( fstream(store_file.native(), ios_base::in) );
   }
 
+  stringstream record_ss, store_ss;
+  FileStore::insert(record_ss, record);
+  store.insert(store_ss);
+
   // save record second as a witness to successful writing
-  store.insert( fstream(store_output_file.native(), ios_base::out) );
-  FileStore::insert( fstream(record_output_file.native(), ios_base::out), record );
+  FileStore::write_file(store_output_file, store_ss.str());
+  FileStore::write_file(record_output_file, record_ss.str());
 
   return 0;
 }
diff --git a/src/store/store.cc b/src/store/store.cc
index a52d679..f333f69 100644
--- a/src/store/store.cc
+++ b/src/store/store.cc
@@ -23,6 +23,7 @@
 #include <boost/filesystem.hpp>
 #include <fstream>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 
 #include "store/curve_data.hh"
@@ -136,6 +137,9 @@ extract(
     else
       store[curve_value] = store_value;
   }
+
+  if ( !stream.eof() || stream.bad() )
+    throw runtime_error("could not read store");
 }
 
 template<
-- 
2.43.0


From f89c72ac8cb1a68bd24da620cf9352285b812c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:14 +0000
Subject: [PATCH 10/14] fix: withdraw the old record before merging again

When merging to an existing output, a crash left the old record next to the
new store.
---
 src/executables/merger.cc |  3 +++
 src/store/file_store.cc   | 21 ++++++++++++++++++++-
 src/store/file_store.hh   |  1 +
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/executables/merger.cc b/src/executables/merger.cc
index 87bf9ee..8d5fa43 100644
--- a/src/executables/merger.cc
+++ b/src/executables/merger.cc
@@ -161,6 +161,9 @@ merge(
   FileStore::insert(record_ss, record);
   store.insert(store_ss);
 
+  // the record of an earlier merge does not vouch for the new store
+  FileStore::remove_file(record_output_file);
+
   // save record second as a witness to successful writing
   FileStore::write_file(store_output_file, store_ss.str());
   FileStore::write_file(record_output_file, record_ss.str());
diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index e51d2f7..085a187 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -77,6 +77,15 @@ save(
   FileStore::write_file(path_record, get<0>(record_store));
 }
 
+static
+path
+folder(
+    const path & filepath
+    )
+{
+  return filepath.has_parent_path() ? filepath.parent_path() : path(".");
+}
+
 static
 void
 sync_path(
@@ -94,6 +103,16 @@ sync_path(
     throw runtime_error("could not sync " + filepath.native());
 }
 
+void
+FileStore::
+remove_file(
+    const path & filepath
+    )
+{
+  if ( filesys::remove(filepath) )
+    sync_path(folder(filepath));
+}
+
 void
 FileStore::
 write_file(
@@ -112,7 +131,7 @@ write_file(
 
   sync_path(path_tmp);
   filesys::rename(path_tmp, filepath);
-  sync_path(filepath.has_parent_path() ? filepath.parent_path() : path("."));
+  sync_path(folder(filepath));
 }
 
 tuple<path, path>
diff --git a/src/store/file_store.hh b/src/store/file_store.hh
index d9f3ed6..92c3693 100644
--- a/src/store/file_store.hh
+++ b/src/store/file_store.hh
@@ -57,6 +57,7 @@ class FileStore
     }
 
     void save( tuple<string, string> record_store );
+    static void remove_file(const path & filepath);
     static void write_file(const path & filepath, const string & content);
     tuple<path, path> new_filenames();
 
-- 
2.43.0


From ec334967bd4991c2cdbeea7a0cfa191e4edd9d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:14 +0000
Subject: [PATCH 11/14] fix: fail when running out of memory while saving

Streams swallow bad_alloc, so that records and stores were cut off.
---
 src/executables/merger.cc | 2 ++
 src/store/file_store.cc   | 1 +
 src/store/store.cc        | 4 ++++
 3 files changed, 7 insertions(+)

diff --git a/src/executables/merger.cc b/src/executables/merger.cc
index 8d5fa43..b0503da 100644
--- a/src/executables/merger.cc
+++ b/src/executables/merger.cc
@@ -158,6 +158,8 @@ merge(
   }
 
   stringstream record_ss, store_ss;
+  record_ss.exceptions(ios_base::badbit | ios_base::failbit);
+  store_ss.exceptions(ios_base::badbit | ios_base::failbit);
   FileStore::insert(record_ss, record);
   store.insert(store_ss);
 
diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 085a187..b06db58 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -168,6 +168,7 @@ extract(
   string line;
   getline(stream, line);
   stringstream line_stream(line);
+  line_stream.exceptions(ios_base::badbit);
 
   while ( line_stream >> lbd >> ubd )
     block.push_back(make_tuple(lbd, ubd));
diff --git a/src/store/store.cc b/src/store/store.cc
index f333f69..d95c9e1 100644
--- a/src/store/store.cc
+++ b/src/store/store.cc
@@ -100,11 +100,14 @@ flush_static_store()
 {
   unique_lock<mutex> static_lock(this->static_mutex);
 
+  // streams otherwise hide that they ran out of memory
   stringstream record_ss;
+  record_ss.exceptions(ios_base::badbit | ios_base::failbit);
   FileStore::insert(record_ss, this->static_record);
   this->static_record.clear();
 
   stringstream store_ss;
+  store_ss.exceptions(ios_base::badbit | ios_base::failbit);
   this->insert(store_ss, this->static_store);
   this->static_store.clear();
 
@@ -124,6 +127,7 @@ extract(
 {
   for ( string line; getline(stream, line); ) {
     stringstream line_stream(line);
+    line_stream.exceptions(ios_base::badbit);
 
     string curve_str, store_str;
     getline(line_stream, curve_str, ':');
-- 
2.43.0


From 23becb05a8e5766599a9ce676faefe923ccccd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:16 +0000
Subject: [PATCH 12/14] fix: do not leave MPI processes waiting after a
 rejected invocation

Only the root process knows that arguments or configuration are unusable.
It left, while the others waited for their initialization.
---
 src/executables/mpi.cc | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/executables/mpi.cc b/src/executables/mpi.cc
index 437f77b..01116c2 100644
--- a/src/executables/mpi.cc
+++ b/src/executables/mpi.cc
@@ -44,6 +44,19 @@ using boost::filesystem::is_regular_file;
 using popt::value;
 
 
+// tell the other processes, which wait for instructions, to finish
+static
+int
+abandon(
+    shared_ptr<mpi::communicator> mpi_world,
+    int exit_code
+    )
+{
+  bool accepted = false;
+  mpi::broadcast(*mpi_world, accepted, MPIWorkerPool::master_process_id);
+  return exit_code;
+}
+
 int
 main(
     int argc,
@@ -53,8 +66,11 @@ main(
   mpi::environment mpi_environment(argc, argv, mpi::threading::funneled);
   auto mpi_world = make_shared<mpi::communicator>();
 
-  if ( mpi_world->rank() != 0 )
-    return main_mpi_worker(mpi_world);
+  if ( mpi_world->rank() != 0 ) {
+    bool accepted;
+    mpi::broadcast(*mpi_world, accepted, MPIWorkerPool::master_process_id);
+    return accepted ? main_mpi_worker(mpi_world) : 0;
+  }
 
 
   popt::options_description visible_options("Available options"), all_options;
@@ -85,31 +101,31 @@ main(
 
   if ( options_map.count("help") ) {
     cerr << visible_options;
-    return 0;
+    return abandon(mpi_world, 0);
   }
 
   if ( !options_map.count("config-file") ) {
     cerr << "configuration file required" << endl;
-    return 1;
+    return abandon(mpi_world, 1);
   }
 
   if ( !options_map.count("output-path") ) {
     cerr << "output path required" << endl;
-    return 1;
+    return abandon(mpi_world, 1);
   }
 
 
   path output_path(options_map["output-path"].as<string>());
   if ( !( is_directory(output_path) || create_directories(output_path) ) ) {
     cerr << "could not create output path" << endl;
-    return 1;
+    return abandon(mpi_world, 1);
   }
 
 
   path config_file(options_map["config-file"].as<string>());
   if ( !is_regular_file(config_file) ) {
     cerr << "could not find configuration file or it is not a regular file" << endl;
-    return 1;
+    return abandon(mpi_world, 1);
   }
   auto config_yaml = YAML::LoadFile(config_file.native());
 
@@ -123,7 +139,7 @@ main(
       store_type = StoreType::EC;
     else {
       cerr << "Invalid store type given" << endl;
-      return 1;
+      return abandon(mpi_world, 1);
     }
   }
 
@@ -136,6 +152,9 @@ main(
       config.emplace_back(node.as<ConfigNode>());
 
 
+  bool accepted = true;
+  mpi::broadcast(*mpi_world, accepted, MPIWorkerPool::master_process_id);
+
   MPIWorkerPool worker_pool(
       mpi_world, store_type,
       options_map["nmb-threads"].as<int>(),
-- 
2.43.0


From da11554b85ce9b23ce666a118dfc3db0681fadfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 13/14] fix: fail when running out of memory while naming
 results

The streams that composed the file names swallowed bad_alloc, so that
record and store could end up under different names.
---
 src/store/file_store.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index b06db58..0bd1983 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -142,13 +142,11 @@ new_filenames()
   uniform_int_distribution<long int> dist;
 
   while ( true ) {
-    stringstream id_ss, filename_store_ss, filename_record_ss;
-    id_ss << dist(gen);
-    filename_record_ss << id_ss.str() << ".hycu_record";
-    filename_store_ss  << id_ss.str() << ".hycu_store";
+    // strings, in contrast to streams, report that they ran out of memory
+    const string id = to_string(dist(gen));
 
-    path path_record = this->full_path(filename_record_ss.str());
-    path path_store = this->full_path(filename_store_ss.str());
+    path path_record = this->full_path(id + FileStore::record_extension);
+    path path_store = this->full_path(id + FileStore::store_extension);
     if ( is_regular_file(path_record) || is_regular_file(path_store) )
       continue;
 
-- 
2.43.0


From 9aa38795ac21840258b618f761ad6a94db51ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:21 +0000
Subject: [PATCH 14/14] fix: set up FLINT's method tables before threads use
 them

FLINT sets these tables up when they are first needed, without protection.
Two threads that start at the same time can thus see half of a table: about
one in eight runs with eight threads over F_9 aborted or crashed, and others
could count wrongly and still succeed.
---
 src/threaded/thread_pool.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/threaded/thread_pool.cc b/src/threaded/thread_pool.cc
index a116eb1..de21f78 100644
--- a/src/threaded/thread_pool.cc
+++ b/src/threaded/thread_pool.cc
@@ -26,12 +26,29 @@
 #include <tuple>
 
 #include "threaded/thread_pool.hh"
+#include "curve.hh"
 #include "opencl/interface.hh"
 
 
 using namespace std;
 
 
+// FLINT sets up the method tables of its rings when they are first used, and
+// does not protect this against other threads that use them at the same time
+static
+void
+setup_flint_method_tables()
+{
+  for ( unsigned int prime_exponent : {1, 2} ) {
+    auto table = make_shared<FqElementTable>(3, prime_exponent);
+    auto zero = table->zero_index();
+    // X^6 + X^5 + X^2 + X has several factors of the same degree
+    Curve curve(table, {zero, 0, 0, zero, zero, 0, 0});
+    curve.has_squarefree_rhs();
+    curve.ramification_type();
+  }
+}
+
 void
 ThreadPool::
 spark_threads(
@@ -48,6 +65,8 @@ spark_threads(
   if ( nmb_working_threads < 0 )
     nmb_working_threads = thread::hardware_concurrency();
 
+  setup_flint_method_tables();
+
 #ifdef WITH_OPENCL
   for ( const auto & device : OpenCLInterface::devices() )
     for ( unsigned int ix = 0; ix < nmb_threads_per_gpu; ++ix )
-- 
2.43.0

