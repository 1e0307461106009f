From 8855e08477e172f1ad491b973524ab7d50ab787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:45 +0000
Subject: [PATCH 01/97] fix: run tasks through their future when the thread
 pool is disabled

With ThreadPool::Enable=false the functor was called directly, so the future
that enqueue returned was never satisfied (broken promise on get) and an
exception of the task escaped from enqueue.
---
 AmpGen/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/ThreadPool.h b/AmpGen/ThreadPool.h
index 5b2d1ee..1a210c1 100644
--- a/AmpGen/ThreadPool.h
+++ b/AmpGen/ThreadPool.h
@@ -68,7 +68,7 @@ namespace AmpGen
     using return_type = typename std::invoke_result_t<F, Args...>;
     auto task = std::make_shared< std::packaged_task<return_type()> >( f, args... );
     std::future<return_type> res = task->get_future();
-    if(! m_enableThreadPool ) {  f(args...); return res; } 
+    if(! m_enableThreadPool ) { (*task)(); return res; } 
     else
     {
       {
-- 
2.43.0


From 8e71a69b1a3fe7cd5c7784ecf1b79c1b94ff3e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:45 +0000
Subject: [PATCH 02/97] fix: allow waiting for a thread pool before destroying
 it

waitForStoppedThreads left the joined threads in place, so a second call (the
destructor makes one) joined them again and terminated the process. It also
re-opened the queue with no worker left, so later tasks were accepted and
never run; the pool now stays stopped and enqueue throws as documented there.
---
 src/ThreadPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThreadPool.cpp b/src/ThreadPool.cpp
index b0489cf..e30a4fb 100644
--- a/src/ThreadPool.cpp
+++ b/src/ThreadPool.cpp
@@ -37,5 +37,5 @@ void ThreadPool::waitForStoppedThreads()
   }
   m_condition.notify_all();
   for(std::thread &worker: m_workers) worker.join();
-  m_stop = false;
+  m_workers.clear();
 }
-- 
2.43.0


From 258591f72648a1854af04a82a394fa27d35ce700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:00 +0000
Subject: [PATCH 03/97] fix: let the thread pool live with fewer workers than
 asked for

Failing to start a thread in the constructor destroyed joinable threads, i.e.
terminated the process, and a pool of zero workers (what
hardware_concurrency() returns when it is unknown) accepted tasks that were
never run.
---
 src/ThreadPool.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ThreadPool.cpp b/src/ThreadPool.cpp
index e30a4fb..cbbab84 100644
--- a/src/ThreadPool.cpp
+++ b/src/ThreadPool.cpp
@@ -1,6 +1,8 @@
 #include "AmpGen/ThreadPool.h"
 
+#include <algorithm>
 #include <iostream>
+#include <system_error>
 
 #include "AmpGen/MsgService.h"
 
@@ -8,7 +10,9 @@ using namespace AmpGen;
 
 ThreadPool::ThreadPool(const size_t& nt)
 { 
-  for ( size_t i = 0; i < nt; ++i )
+  const size_t nWorkers = std::max( nt, size_t(1) ); // hardware_concurrency() is allowed to return zero
+  m_workers.reserve( nWorkers );
+  for ( size_t i = 0; i < nWorkers; ++i ) try {
     m_workers.emplace_back( [this] {
      for(;;){
         std::function<void()> task;
@@ -22,6 +26,12 @@ ThreadPool::ThreadPool(const size_t& nt)
         task();  
       }
     } );
+  }
+  catch( const std::system_error& error ){
+    if( m_workers.empty() ) throw;
+    WARNING("Could only start " << m_workers.size() << " of " << nWorkers << " threads: " << error.what() );
+    break;
+  }
 }
 
 ThreadPool::~ThreadPool()
-- 
2.43.0


From 438990ae8c7b02d21a9ef7d929b5ea1e9a3254b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:58 +0000
Subject: [PATCH 04/97] fix: end the recursion of parallel_sort for ranges of
 one element

With a grain size of zero or one a range that cannot be split any further was
split forever.
---
 AmpGen/Utilities.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Utilities.h b/AmpGen/Utilities.h
index e34f5c9..f7fa587 100644
--- a/AmpGen/Utilities.h
+++ b/AmpGen/Utilities.h
@@ -136,7 +136,7 @@ namespace AmpGen {
           const size_t& grainsize)
       {
         const size_t len   = end - begin; 
-        if(len < grainsize) std::sort(begin, end, comp);
+        if(len < grainsize || len < 2) std::sort(begin, end, comp);
         else
         {
           const auto  middle = begin + len/2;
-- 
2.43.0


From 85e3f1dcce438a5686ef489ae8d7754dd568f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:58 +0000
Subject: [PATCH 05/97] fix: report an exception from the concurrent half of
 parallel_sort

Waiting for the future discards an exception thrown by the comparison, and the
range was then merged as if both halves were sorted.
---
 AmpGen/Utilities.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Utilities.h b/AmpGen/Utilities.h
index f7fa587..edee2ff 100644
--- a/AmpGen/Utilities.h
+++ b/AmpGen/Utilities.h
@@ -142,7 +142,7 @@ namespace AmpGen {
           const auto  middle = begin + len/2;
           auto future = std::async(parallel_sort<iterator,comparator>, begin, middle, comp, grainsize);
           parallel_sort(middle, end, comp, grainsize);
-          future.wait();
+          future.get();
           std::inplace_merge(begin, middle, end, comp);
         }
       }
-- 
2.43.0


From a921a88fb579e152da5c5c07113ff1455872202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:56 +0000
Subject: [PATCH 06/97] fix: close the temporary file of each just-in-time
 compilation

generateFilename leaked the descriptor that mkstemps returns, one per compiled
expression, and carried on with a useless name if there was none.
---
 src/CompilerWrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CompilerWrapper.cpp b/src/CompilerWrapper.cpp
index 216051c..20eb10e 100644
--- a/src/CompilerWrapper.cpp
+++ b/src/CompilerWrapper.cpp
@@ -71,8 +71,9 @@ std::string CompilerWrapper::generateFilename()
   char buffer[] = "/tmp/libAmpGen-XXXXXX.cpp";
   int status    = mkstemps( buffer, 4);
   if ( status == -1 ) {
-    ERROR( "Failed to generate temporary filename " << status );
+    FATAL( "Failed to generate temporary filename " << status );
   }
+  close( status );
   std::remove( buffer );
   return buffer;
 }
-- 
2.43.0


From a90aa7b7851d96e476f2aa0d0abf05bf21617b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:56 +0000
Subject: [PATCH 07/97] fix: notice when the just-in-time compiler cannot be
 run or fails

A failed fork, an interrupted wait, a compiler that cannot be executed (whose
child then ran this process' exit handlers and reported success) and a
compiler that fails were all ignored.
---
 src/CompilerWrapper.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CompilerWrapper.cpp b/src/CompilerWrapper.cpp
index 20eb10e..cadbae2 100644
--- a/src/CompilerWrapper.cpp
+++ b/src/CompilerWrapper.cpp
@@ -5,6 +5,8 @@
 #include <sys/wait.h>
 #include <sys/stat.h>
 #include <stdlib.h>
+#include <errno.h>
+#include <string.h>
 #include <chrono>
 #include <fstream>
 #include <ratio>
@@ -192,14 +194,18 @@ void CompilerWrapper::compileSource( const std::string& fname, const std::string
   }
   argp.push_back( NULL );
   pid_t childPID = fork();
+  if( childPID == -1 ) FATAL( "Cannot start compiler: " << strerror(errno) );
   if( childPID == 0 )
   {
     execv( argp[0], const_cast<char**>( &argp[0] ) );
     perror( "execv() in ../src/CompilerWrapper.cpp" ); // add "CompilerWrapper::Verbose true" to .opt file to diagnose
-    exit( 0 );
+    _exit( 127 ); // this is a copy of the whole process, do not run its exit handlers
   }
   int status = 0;   
-  waitpid( childPID, &status, 0 );
+  while( waitpid( childPID, &status, 0 ) == -1 ){
+    if( errno != EINTR ) FATAL( "Lost track of compiler: " << strerror(errno) );
+  }
+  if( status != 0 ) FATAL( "Compilation of " << fname << " failed, status = " << status );
 }
 
 void CompilerWrapper::preamble( std::ostream& os ) const 
-- 
2.43.0


From 5d2fb3ec4ee8964e21f31aea574d26b98f16a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:56 +0000
Subject: [PATCH 08/97] fix: do not compile a source file that could not be
 written completely

A full disk left a truncated file, which can still be a valid program with
fewer functions than expected.
---
 src/CompilerWrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CompilerWrapper.cpp b/src/CompilerWrapper.cpp
index cadbae2..5cc05c6 100644
--- a/src/CompilerWrapper.cpp
+++ b/src/CompilerWrapper.cpp
@@ -66,6 +66,7 @@ void CompilerWrapper::generateSource( const CompiledExpressionBase& expression,
   else if( signature.find("ARM128d") != std::string::npos )  output << "#include \"AmpGen/simd/arm128d_types.h\"\n; using namespace AmpGen::ARM128d;\n;" ;
   output << expression << std::endl; 
   output.close();
+  if( !output ) FATAL( "Failed to write " << filename );
 }
 
 std::string CompilerWrapper::generateFilename()
@@ -125,6 +126,7 @@ bool CompilerWrapper::compile( std::vector<CompiledExpressionBase*>& expressions
   for ( const auto& [k,v] : metadata_functions ) output << "extern \"C\" const char* " << k << "(){ return \"" << v << "\";}\n"; 
 
   output.close();
+  if( !output ) FATAL( "Failed to write " << cname );
   compileSource( cname, oname );
   
   
-- 
2.43.0


From bdb4c45d43d4b3542f92bcf2c072c980563efbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:56 +0000
Subject: [PATCH 09/97] fix: let a compiled library appear under its name only
 when it is complete

The library is looked up by name in later runs, and by other processes that
share the directory. If the compiler was interrupted, or was still writing,
they loaded a truncated library.
---
 src/CompilerWrapper.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/CompilerWrapper.cpp b/src/CompilerWrapper.cpp
index 5cc05c6..cda5997 100644
--- a/src/CompilerWrapper.cpp
+++ b/src/CompilerWrapper.cpp
@@ -7,6 +7,7 @@
 #include <stdlib.h>
 #include <errno.h>
 #include <string.h>
+#include <atomic>
 #include <chrono>
 #include <fstream>
 #include <ratio>
@@ -186,7 +187,9 @@ void CompilerWrapper::compileSource( const std::string& fname, const std::string
 
   argp.push_back( fname.c_str() );
   argp.push_back( "-o");
-  argp.push_back( oname.c_str() );
+  static std::atomic<unsigned> counter{0};
+  const std::string tmp = oname + "." + std::to_string(getpid()) + "_" + std::to_string(counter++);
+  argp.push_back( tmp.c_str() ); 
 
   if(NamedParameter<bool>("CompilerWrapper::Verbose", false)) {
     std::string result = std::accumulate(std::begin(argp), std::end(argp),
@@ -207,7 +210,14 @@ void CompilerWrapper::compileSource( const std::string& fname, const std::string
   while( waitpid( childPID, &status, 0 ) == -1 ){
     if( errno != EINTR ) FATAL( "Lost track of compiler: " << strerror(errno) );
   }
-  if( status != 0 ) FATAL( "Compilation of " << fname << " failed, status = " << status );
+  if( status != 0 ){
+    std::remove( tmp.c_str() );
+    FATAL( "Compilation of " << fname << " failed, status = " << status );
+  }
+  if( std::rename( tmp.c_str(), oname.c_str() ) != 0 ){
+    std::remove( tmp.c_str() );
+    FATAL( "Failed to write " << oname );
+  }
 }
 
 void CompilerWrapper::preamble( std::ostream& os ) const 
-- 
2.43.0


From 284e270f3f0a4452a75780a64c695f183404dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:20 +0000
Subject: [PATCH 10/97] fix: rebuild a library that cannot be used and report
 one that cannot be linked

A library left by an earlier run that does not load or lacks a function ended
the program on every run instead of being rebuilt, a library that failed to
load was replaced by a search of the whole program for the symbol, and a
missing batch function was not reported before it was called.
---
 AmpGen/CompiledExpression.h | 6 ++++--
 src/CompilerWrapper.cpp     | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/AmpGen/CompiledExpression.h b/AmpGen/CompiledExpression.h
index 90919ef..96612bf 100644
--- a/AmpGen/CompiledExpression.h
+++ b/AmpGen/CompiledExpression.h
@@ -184,14 +184,16 @@ namespace AmpGen
         {
           const std::string symbol = progName() ;
           bool status = true;
-          status &= m_fcn.set(handle, symbol, true);
+          status &= m_fcn.set(handle, symbol);
           status &= m_db.size() == 0 || m_fdb.set(handle, symbol + "_DB");
           if( !m_disableBatch ) status &= m_batchFcn.set(handle, symbol + "_batch");
           return status;
         }
         bool link( const std::string& handle ) override
         {
-          return link( dlopen( handle.c_str(), RTLD_NOW ) );
+          void* library = dlopen( handle.c_str(), RTLD_NOW );
+          if( library == nullptr ) ERROR( "Failed to load: " << handle << " error: " << dlerror() );
+          return library != nullptr && link( library );
         };
         std::string arg_type(const unsigned& i ) const override
         {
diff --git a/src/CompilerWrapper.cpp b/src/CompilerWrapper.cpp
index cda5997..1c4a9a6 100644
--- a/src/CompilerWrapper.cpp
+++ b/src/CompilerWrapper.cpp
@@ -103,7 +103,7 @@ bool CompilerWrapper::compile( CompiledExpressionBase& expression, const std::st
   auto twall_begin  = std::chrono::high_resolution_clock::now();
   generateSource( expression, cname );
   compileSource(cname, oname);
-  expression.link( oname );
+  if( !expression.link( oname ) ) FATAL( "Failed to link " << expression.name() << " from " << oname );
   auto twall_end  = std::chrono::high_resolution_clock::now();
   double tWall    = std::chrono::duration<double, std::milli>( twall_end - twall_begin ).count();
   if( print_all ) INFO( expression.name() << " " << cname << " Compile time = " << tWall / 1000. << " [size = " << fileSize(cname)/1024 << ", " << fileSize(oname)/1024 << "] kB" );
@@ -131,7 +131,8 @@ bool CompilerWrapper::compile( std::vector<CompiledExpressionBase*>& expressions
   compileSource( cname, oname );
   
   
-  for( auto& expression : expressions ) expression->link( oname );
+  for( auto& expression : expressions ) 
+    if( !expression->link( oname ) ) FATAL( "Failed to link " << expression->name() << " from " << oname );
   auto twall_end  = std::chrono::high_resolution_clock::now();
   double tWall    = std::chrono::duration<double, std::milli>( twall_end - twall_begin ).count();
   if( print_all ) INFO( cname << " Compile time = " << tWall / 1000. << " [size = " << fileSize(cname)/1024 << ", " << fileSize(oname)/1024 << "] kB" );
-- 
2.43.0


From 35cdd9e4afe69caecde0f455ea5733639670c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:20 +0000
Subject: [PATCH 11/97] fix: do not overwrite a source file that another
 compilation is reading

Threads or processes that compile the same expression into the same directory
truncated each other's source while the compiler was reading it.
---
 src/CompilerWrapper.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/CompilerWrapper.cpp b/src/CompilerWrapper.cpp
index 1c4a9a6..c11fa57 100644
--- a/src/CompilerWrapper.cpp
+++ b/src/CompilerWrapper.cpp
@@ -54,9 +54,19 @@ CompilerWrapper::CompilerWrapper( const bool& verbose ) :
   }
 }
 
+namespace {
+  // name next to a file to write it before it is complete; differs between threads and processes 
+  std::string temporaryName( const std::string& name )
+  {
+    static std::atomic<unsigned> counter{0};
+    return name + "." + std::to_string(getpid()) + "_" + std::to_string(counter++);
+  }
+}
+
 void CompilerWrapper::generateSource( const CompiledExpressionBase& expression, const std::string& filename )
 {
-  std::ofstream output( filename );
+  const std::string tmp = temporaryName( filename );
+  std::ofstream output( tmp );
   preamble(output);
   auto signature = expression.fcnSignature(); 
   if( signature.find("Complex")        != std::string::npos ){  output << "#include \"AmpGen/Complex.h\"\n" ; output << "using namespace AmpGen;\n";  }
@@ -67,7 +77,10 @@ void CompilerWrapper::generateSource( const CompiledExpressionBase& expression,
   else if( signature.find("ARM128d") != std::string::npos )  output << "#include \"AmpGen/simd/arm128d_types.h\"\n; using namespace AmpGen::ARM128d;\n;" ;
   output << expression << std::endl; 
   output.close();
-  if( !output ) FATAL( "Failed to write " << filename );
+  if( !output || std::rename( tmp.c_str(), filename.c_str() ) != 0 ){
+    std::remove( tmp.c_str() );
+    FATAL( "Failed to write " << filename );
+  }
 }
 
 std::string CompilerWrapper::generateFilename()
@@ -188,8 +201,7 @@ void CompilerWrapper::compileSource( const std::string& fname, const std::string
 
   argp.push_back( fname.c_str() );
   argp.push_back( "-o");
-  static std::atomic<unsigned> counter{0};
-  const std::string tmp = oname + "." + std::to_string(getpid()) + "_" + std::to_string(counter++);
+  const std::string tmp = temporaryName( oname );
   argp.push_back( tmp.c_str() ); 
 
   if(NamedParameter<bool>("CompilerWrapper::Verbose", false)) {
-- 
2.43.0


From d9f384eccc8bcbb6ff3af58949ebe710eec7551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 12/97] fix: construct options and particle table once when
 first used by several threads

---
 AmpGen/OptionsParser.h          | 1 -
 AmpGen/ParticlePropertiesList.h | 1 -
 src/OptionsParser.cpp           | 4 +---
 src/ParticlePropertiesList.cpp  | 9 ++-------
 4 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/AmpGen/OptionsParser.h b/AmpGen/OptionsParser.h
index d1b35f9..303de33 100644
--- a/AmpGen/OptionsParser.h
+++ b/AmpGen/OptionsParser.h
@@ -42,7 +42,6 @@ namespace AmpGen
     std::map<std::string, std::function<void(std::vector<std::string>)> > m_keywords;
     bool m_printHelp = {false};  
     bool m_quiet     = {false}; 
-    static OptionsParser* gOptionsParser;
     
     OptionsParser();
     bool ignoreThisLine( const std::string& line );
diff --git a/AmpGen/ParticlePropertiesList.h b/AmpGen/ParticlePropertiesList.h
index c17af33..c9222d7 100644
--- a/AmpGen/ParticlePropertiesList.h
+++ b/AmpGen/ParticlePropertiesList.h
@@ -15,7 +15,6 @@ namespace AmpGen
 {
   class ParticlePropertiesList
   {
-    static ParticlePropertiesList* ptr;
     std::map<int, std::pair<std::string, std::string>> m_latexLabels;
     std::string m_fname;
     std::vector<ParticleProperties> m_theList;
diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 2bdafe7..855da0e 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -10,8 +10,6 @@
 
 using namespace AmpGen;
 
-OptionsParser* OptionsParser::gOptionsParser = nullptr; 
-
 OptionsParser::OptionsParser()
 {
   m_keywords["Import"]                         = [this](const auto& tokens){ if( tokens.size() != 2) return; this->import(expandGlobals(tokens[1] ) ) ; };
@@ -22,7 +20,7 @@ OptionsParser::OptionsParser()
 
 OptionsParser* OptionsParser::getMe()
 {
-  if( gOptionsParser == nullptr ) gOptionsParser = new OptionsParser();
+  static OptionsParser* gOptionsParser = new OptionsParser(); // constructed once, also if first used by several threads
   return gOptionsParser;
 }
 
diff --git a/src/ParticlePropertiesList.cpp b/src/ParticlePropertiesList.cpp
index 78d5c74..f3d2201 100644
--- a/src/ParticlePropertiesList.cpp
+++ b/src/ParticlePropertiesList.cpp
@@ -13,19 +13,14 @@
 
 using namespace AmpGen;
 
-ParticlePropertiesList* ParticlePropertiesList::ptr = nullptr;
-
 const ParticlePropertiesList* ParticlePropertiesList::getMe()
 {
-  if(!ptr) ptr = new ParticlePropertiesList();
-  if(nullptr == ptr) FATAL("Couldn't get ParticlePropertiesList (i.e. myself)" );
-  return ptr;
+  return getMutable();
 }
 
 ParticlePropertiesList* ParticlePropertiesList::getMutable()
 {
-  if(!ptr) ptr = new ParticlePropertiesList();
-  if(ptr == nullptr) FATAL( "Couldn't get ParticlePropertiesList (i.e. myself)" );
+  static ParticlePropertiesList* ptr = new ParticlePropertiesList(); // constructed once, also if first used by several threads
   return ptr;
 }
 
-- 
2.43.0


From 9977b3822b00c1335563f9633b799b6b6583cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 13/97] fix: keep the particle table usable when particles are
 imported into it

---
 AmpGen/ParticlePropertiesList.h | 8 +++++---
 src/OptionsParser.cpp           | 2 +-
 src/ParticlePropertiesList.cpp  | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/AmpGen/ParticlePropertiesList.h b/AmpGen/ParticlePropertiesList.h
index c9222d7..c9902de 100644
--- a/AmpGen/ParticlePropertiesList.h
+++ b/AmpGen/ParticlePropertiesList.h
@@ -3,6 +3,7 @@
 // author: Jonas Rademacker (Jonas.Rademacker@bristol.ac.uk)
 // status:  Mon 9 Feb 2009 19:18:04 GMT
 
+#include <deque>
 #include <iostream>
 #include <map>
 #include <string>
@@ -17,7 +18,8 @@ namespace AmpGen
   {
     std::map<int, std::pair<std::string, std::string>> m_latexLabels;
     std::string m_fname;
-    std::vector<ParticleProperties> m_theList;
+    std::deque<ParticleProperties> m_theList; /// pointers to elements stay valid when particles are added
+    size_t m_nMapped = {0};                   /// number of elements of the list already known to the maps
     std::map<std::string, ParticleProperties*> m_byName;
     std::map<int, ParticleProperties*> m_byID;
     double m_quasiStableThreshold;
@@ -41,8 +43,8 @@ namespace AmpGen
     std::vector<std::string> getParticleNames() const;
     std::vector<int> getParticleIds() const;
     
-    std::vector<ParticleProperties>::const_iterator begin() const { return m_theList.cbegin() ; }
-    std::vector<ParticleProperties>::const_iterator   end() const { return m_theList.cend() ; }
+    std::deque<ParticleProperties>::const_iterator begin() const { return m_theList.cbegin() ; }
+    std::deque<ParticleProperties>::const_iterator   end() const { return m_theList.cend() ; }
     void print( std::ostream& out = std::cout ) const;
     bool readLatexLabels( const std::string& name );
     void makeMappings();
diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 855da0e..1e8f81e 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -15,7 +15,7 @@ OptionsParser::OptionsParser()
   m_keywords["Import"]                         = [this](const auto& tokens){ if( tokens.size() != 2) return; this->import(expandGlobals(tokens[1] ) ) ; };
   m_keywords["ParticleProperties"]             = [this](const auto& tokens){ ParticlePropertiesList::getMutable()->addParticle( tokens ); };
   m_keywords["ParticlePropertiesList::Alias"]  = [this](const auto& tokens){ if( tokens.size() != 3) return; ParticlePropertiesList::getMutable()->makeAlias( tokens[1], tokens[2] ); };
-  m_keywords["ParticlePropertiesList::Import"] = [this](const auto& tokens){ if( tokens.size() != 2) return; ParticlePropertiesList::getMutable()->readFile( tokens[1] ); }; 
+  m_keywords["ParticlePropertiesList::Import"] = [this](const auto& tokens){ if( tokens.size() != 2) return; auto list = ParticlePropertiesList::getMutable(); list->readFile( tokens[1] ); list->makeMappings(); }; 
 }
 
 OptionsParser* OptionsParser::getMe()
diff --git a/src/ParticlePropertiesList.cpp b/src/ParticlePropertiesList.cpp
index f3d2201..9671f2b 100644
--- a/src/ParticlePropertiesList.cpp
+++ b/src/ParticlePropertiesList.cpp
@@ -113,7 +113,8 @@ bool ParticlePropertiesList::readFile( const std::string& name )
 
 void ParticlePropertiesList::makeMappings()
 {
-  for ( auto& it : m_theList ) {
+  for ( ; m_nMapped < m_theList.size(); ++m_nMapped ) {
+    auto& it = m_theList[m_nMapped];
     m_byName[it.name()] = &it;
     if ( it.pdgID() != 0 ) {
       auto found = m_byID.find( it.pdgID() );
-- 
2.43.0


From 423b5c2fb4fa255fc702a147c77ed54e4a7f19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 14/97] fix: do not read past the end of an incomplete list of
 particle properties

---
 src/ParticlePropertiesList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParticlePropertiesList.cpp b/src/ParticlePropertiesList.cpp
index 9671f2b..af12a73 100644
--- a/src/ParticlePropertiesList.cpp
+++ b/src/ParticlePropertiesList.cpp
@@ -203,7 +203,7 @@ void ParticlePropertiesList::addParticle( const std::vector<std::string>& tokens
     pp = new ParticleProperties();
     pp->setProperty("name", name );
   }
-  for( int i = 2; i != tokens.size(); i+=2 )
+  for( size_t i = 2; i + 1 < tokens.size(); i+=2 )
   {
     pp->setProperty( tokens[i], tokens[i+1] );
   } 
-- 
2.43.0


From 73c6cd31f1e0676e43cf5e7f558d3079cd2d18d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 15/97] fix: report a file that cannot be read instead of using
 a part of it

---
 AmpGen/Utilities.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/AmpGen/Utilities.h b/AmpGen/Utilities.h
index edee2ff..de97e60 100644
--- a/AmpGen/Utilities.h
+++ b/AmpGen/Utilities.h
@@ -111,13 +111,17 @@ namespace AmpGen {
   template <> unsigned long int lexical_cast( const std::string& word, bool& status );
   template <> long int          lexical_cast( const std::string& word, bool& status );
 
+  bool fileExists( const std::string& name );
+
   template <typename functor_type>
     void processFile( const std::string& filename, functor_type&& toDo, const char ignoreLinesThatBeginWith = '#' )
     {
       std::string tmp;
       std::ifstream inFile( filename.c_str() );
+      if( !inFile.is_open() && fileExists( filename ) ) FATAL( "Cannot open " << filename );
       while ( inFile.good() ) {
         std::getline( inFile, tmp );
+        if( inFile.bad() ) FATAL( "Error reading " << filename );
         tmp.erase( std::remove_if( tmp.begin(), tmp.end(), [](const char c){ return c == '\r'; }), tmp.end() );
         if ( ignoreLinesThatBeginWith != '\0' && ( tmp.size() == 0 || tmp[0] == ignoreLinesThatBeginWith ) ) continue;
         toDo( tmp );
-- 
2.43.0


From 3fcc874c8ce4c262cb551a0f8e0874a3209f13cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 16/97] fix: list an option that is set several times only once
 in the ordered input

---
 src/OptionsParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 1e8f81e..847bdd6 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -117,8 +117,8 @@ void OptionsParser::addArg( const std::vector<std::string>& tokens )
   DEBUG("Adding arg with key: " << key );
   if( m_keywords.count(key) != 0 ) m_keywords[key]( tokens );
   else { 
+    if( m_parsedLines.count(key) == 0 ) m_orderedKeys.push_back(key); 
     m_parsedLines[key] = tokens; 
-    m_orderedKeys.push_back(key); 
   }
 }
 
-- 
2.43.0


From 08c3470c711e50d382c879674f07f834411b9da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:54 +0000
Subject: [PATCH 17/97] fix: do not add a second parameter of the same name to
 a parameter set

---
 src/MinuitParameterSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 549974f..cbd5a67 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -31,12 +31,12 @@ bool MinuitParameterSet::addToEnd( MinuitParameter* parPtr )
 {
   bool success = true;
   if ( nullptr == parPtr ) return false;
-  m_parameters.push_back( parPtr );
   if ( m_keyAccess.find( parPtr->name() ) != m_keyAccess.end() ) {
     WARNING( "Parameter with name " << parPtr->name() << " already exists!, skipping" );
     return false; 
   }
   DEBUG( "Adding: " << parPtr->name() ); 
+  m_parameters.push_back( parPtr );
   m_keyAccess[parPtr->name()] = parPtr;
   return success;
 }
-- 
2.43.0


From 5186095215b838476a154cbbae9bf3cb608aa631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:54 +0000
Subject: [PATCH 18/97] fix: forget the name of a parameter that is removed
 from a parameter set

---
 src/MinuitParameterSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index cbd5a67..2a81a42 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -57,6 +57,8 @@ bool MinuitParameterSet::unregister( MinuitParameter* parPtr )
     return false;
   }
   m_parameters.erase( remove( m_parameters.begin(), m_parameters.end(), parPtr ), m_parameters.end() );
+  auto it = m_keyAccess.find( parPtr->name() );
+  if ( it != m_keyAccess.end() && it->second == parPtr ) m_keyAccess.erase( it );
   return true;
 }
 
-- 
2.43.0


From 1d43efa24da84def52d972fcc0dcc964698f92c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:54 +0000
Subject: [PATCH 19/97] fix: report a parameter that is not in the set instead
 of following a bad pointer

---
 src/MinuitParameterSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 2a81a42..0944210 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -84,6 +84,7 @@ MinuitParameter* MinuitParameterSet::operator[]( const std::string& key )
   auto it = m_keyAccess.find( key );
   if ( it == m_keyAccess.end() ) {
     WARNING( "Parameter: " << key << " not found" );
+    return nullptr;
   }
   return it->second;
 }
@@ -93,6 +94,7 @@ MinuitParameter* MinuitParameterSet::operator[]( const std::string& key ) const
   auto it = m_keyAccess.find( key );
   if ( it == m_keyAccess.end() ) {
     WARNING( "Parameter: " << key << " not found" );
+    return nullptr;
   }
   return it->second;
 }
@@ -259,7 +261,7 @@ MinuitParameter* MinuitParameterSet::find( const std::string& key ) const
 double MinuitParameterSet::operator()( const std::string& name )
 {
   if ( m_keyAccess.find(name) == m_keyAccess.end() ) {
-    ERROR( "Cannot find parameter " << name );
+    FATAL( "Cannot find parameter " << name );
   }
   return m_keyAccess[name]->mean();
 }
-- 
2.43.0


From bc0c8fa1c1adfc7684f070563485592a771874e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:54 +0000
Subject: [PATCH 20/97] fix: use the values given to construct a free parameter

---
 src/MinuitParameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MinuitParameter.cpp b/src/MinuitParameter.cpp
index 0ef9140..c00ff87 100644
--- a/src/MinuitParameter.cpp
+++ b/src/MinuitParameter.cpp
@@ -22,7 +22,7 @@ MinuitParameter::MinuitParameter( const std::string& name, const Flag& fix, cons
 }
 
 MinuitParameter::MinuitParameter( const std::string& name, const double& mean, const double& step, const double& mi, const double& ma )
-  : MinuitParameter(name, Flag::Free, m_meanInit, m_stepInit, m_minInit, m_maxInit ) 
+  : MinuitParameter(name, Flag::Free, mean, step, mi, ma ) 
 {
   DEBUG( "Building parameter : " << name );
   resetToInit();
-- 
2.43.0


From 95745489f911be001a0a8e00cb95840f6f5d5862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:02 +0000
Subject: [PATCH 21/97] fix: measure durations with a clock that is never set
 back

---
 AmpGen/ProfileClock.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/AmpGen/ProfileClock.h b/AmpGen/ProfileClock.h
index 11bce51..c974405 100644
--- a/AmpGen/ProfileClock.h
+++ b/AmpGen/ProfileClock.h
@@ -7,22 +7,22 @@
 
 namespace AmpGen{
   struct ProfileClock {
-    std::chrono::time_point<std::chrono::high_resolution_clock>       t_start;
-    std::chrono::time_point<std::chrono::high_resolution_clock>       t_end;
+    std::chrono::time_point<std::chrono::steady_clock>       t_start;
+    std::chrono::time_point<std::chrono::steady_clock>       t_end;
     double t_duration = {0}; 
     
-    ProfileClock() : t_start(std::chrono::high_resolution_clock::now()) {}
+    ProfileClock() : t_start(std::chrono::steady_clock::now()) {}
     void stop() 
     { 
-      t_end      = std::chrono::high_resolution_clock::now() ; 
+      t_end      = std::chrono::steady_clock::now() ; 
       t_duration += std::chrono::duration<double, std::milli>( t_end - t_start ).count();
     }
     double count() const 
     {
-      auto now = std::chrono::high_resolution_clock::now() ; 
+      auto now = std::chrono::steady_clock::now() ; 
       return std::chrono::duration<double, std::milli>(now - t_start ).count();
     }
-    void start(){ t_start = std::chrono::high_resolution_clock::now() ; }
+    void start(){ t_start = std::chrono::steady_clock::now() ; }
     operator double() const { return t_duration; } ; 
   };
 
-- 
2.43.0


From 595e7b95a754c8c410a793f49008f03df968e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:45 +0000
Subject: [PATCH 22/97] fix: write parameter values into generated code with
 full precision

---
 src/ASTResolver.cpp            | 4 ++--
 src/CompiledExpressionBase.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ASTResolver.cpp b/src/ASTResolver.cpp
index 7dcdfc0..2da193c 100644
--- a/src/ASTResolver.cpp
+++ b/src/ASTResolver.cpp
@@ -113,7 +113,7 @@ template <> void ASTResolver::resolve<Parameter>( const Parameter& parameter )
     auto it = m_mps->find(parameter.name());
     if( it != nullptr ){
       if( m_enable_compileTimeConstants && it->flag() == Flag::CompileTimeConstant ){
-        addResolvedParameter( &parameter, "("+std::to_string(it->mean()) +")" );
+        addResolvedParameter( &parameter, "("+mysprintf("%#.17g", it->mean()) +")" );
       }
       else addResolvedParameter( &parameter, addCacheFunction<ParameterTransfer>( parameter.name(), it )  );
       return;
@@ -121,7 +121,7 @@ template <> void ASTResolver::resolve<Parameter>( const Parameter& parameter )
     DEBUG("Could not find parameter: " << parameter.name() << " amongst the MPS ");
   }
   else if( m_enable_compileTimeConstants ){
-    addResolvedParameter( &parameter, std::to_string( parameter.defaultValue() ) );
+    addResolvedParameter( &parameter, "("+mysprintf("%#.17g", parameter.defaultValue() )+")" );
     return;
   }
   auto address = addCacheFunction<CacheTransfer>( parameter.name(), parameter.defaultValue() );
diff --git a/src/CompiledExpressionBase.cpp b/src/CompiledExpressionBase.cpp
index fd4ed52..c873a08 100644
--- a/src/CompiledExpressionBase.cpp
+++ b/src/CompiledExpressionBase.cpp
@@ -229,6 +229,6 @@ void CompiledExpressionBase::compileWithParameters( std::ostream& stream ) const
   tl.erase(tl.begin() + ( use_rto() ? 2 : 0 ) ); 
   stream << "extern \"C\" " << returnTypename() << " " << progName() << "_wParams" << "(" << fcnSignature(tl) << " ){" << std::endl;
   auto buf = externBuffer(); 
-  stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return std::to_string(line); }) ) <<"};\n" ;
+  stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return mysprintf("%#.17g", line); }) ) <<"};\n" ;
   stream << "  return " << progName() << "( externalParameters, x0 ); \n}\n";
 }
-- 
2.43.0


From ea040beb840ac0137019449c867f28e3bcdb0255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:44 +0000
Subject: [PATCH 23/97] fix: write constants into generated code with full
 precision

---
 src/Expression.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index aa11146..53bd045 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -56,6 +56,7 @@ bool isZero( const complex_t& A ){
 std::string Constant::to_string(const ASTResolver* resolver) const {  
   auto rounded_string = [](const double& val ){
     std::string str = mysprintf("%g", val);
+    if( std::strtod( str.c_str(), nullptr ) != val ) str = mysprintf("%.17g", val);
     return  str.find(".") != std::string::npos or str.find("e") != std::string::npos ? str : str + ".";
   };
   std::string complex_type = type_string<complex_t>();
-- 
2.43.0


From 79af92cbf2e6a2ac97ce146fd1c69cfbdcbc816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:58 +0000
Subject: [PATCH 24/97] fix: ignore an argument without any token

---
 src/OptionsParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 847bdd6..681f3d0 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -113,6 +113,7 @@ void OptionsParser::addArg( const std::string& arg )
 
 void OptionsParser::addArg( const std::vector<std::string>& tokens )
 {
+  if( tokens.empty() ) return; // nothing but quotes, braces or comments
   const auto& key = tokens[0];
   DEBUG("Adding arg with key: " << key );
   if( m_keywords.count(key) != 0 ) m_keywords[key]( tokens );
-- 
2.43.0


From e678699863949984ec21016baf395645b4c49c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:58 +0000
Subject: [PATCH 25/97] fix: do not recurse without end into an options file
 that imports itself

---
 AmpGen/OptionsParser.h | 1 +
 src/OptionsParser.cpp  | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/AmpGen/OptionsParser.h b/AmpGen/OptionsParser.h
index 303de33..cd7b2fe 100644
--- a/AmpGen/OptionsParser.h
+++ b/AmpGen/OptionsParser.h
@@ -38,6 +38,7 @@ namespace AmpGen
     }; 
     std::vector<std::string>                          m_allowedArguments; 
     std::vector<std::string>                          m_orderedKeys; 
+    std::vector<std::string>                          m_importing; 
     std::map<std::string, std::vector<std::string>>   m_parsedLines; 
     std::map<std::string, std::function<void(std::vector<std::string>)> > m_keywords;
     bool m_printHelp = {false};  
diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 681f3d0..f87a6d9 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -86,6 +86,15 @@ void OptionsParser::import( const std::string& fName )
     ERROR( "Cannot find file: " << fName );
     return;
   }
+  if ( std::find( m_importing.begin(), m_importing.end(), fName ) != m_importing.end() ) {
+    ERROR( "File imports itself: " << fName );
+    return;
+  }
+  struct Importing { // the files being imported, also if reading one of them fails
+    std::vector<std::string>& files;
+    Importing( std::vector<std::string>& files, const std::string& name ) : files( files ) { files.push_back( name ); }
+    ~Importing() { files.pop_back(); }
+  } importing( m_importing, fName );
   int braceDepth = 0 ; 
   std::vector<std::string> currentTokens; 
   processFile( fName, [this, &currentTokens, &braceDepth]( const auto& line ) mutable {
-- 
2.43.0


From 96869d9427176677be0ecf6571dc2dac8e8130b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:58 +0000
Subject: [PATCH 26/97] fix: keep the character that follows ${VARIABLE} in a
 path

---
 src/Utilities.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 1b1948a..1a7b3d8 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -343,7 +343,6 @@ std::string AmpGen::expandGlobals( std::string path )
     if ( path[pos + 1] == '{' ) {
       end_pos       = path.find( "}", pos );
       variable_name = path.substr( pos + 2, end_pos - pos - 2 );
-      end_pos       = end_pos + 1;
     } else {
       end_pos       = find_next_of( path, {".", "/"}, pos );
       variable_name = path.substr( pos + 1, end_pos - pos - 1 );
-- 
2.43.0


From c9d5dd59a10c1080c23771cfc1f5abddceb4ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:58 +0000
Subject: [PATCH 27/97] fix: ignore the lines that the caller of vectorFromFile
 asked to ignore

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 1a7b3d8..9599710 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -18,7 +18,7 @@
 std::vector<std::string> AmpGen::vectorFromFile( const std::string& filename, const char ignoreLinesThatBeginWith )
 {
   std::vector<std::string> output;
-  processFile( filename, [&output](const std::string& line) mutable -> void {output.push_back(line);} ); 
+  processFile( filename, [&output](const std::string& line) mutable -> void {output.push_back(line);}, ignoreLinesThatBeginWith ); 
   return output;
 }
 
-- 
2.43.0


From ac3d13928ff35c22cb38f91ea683c57a64b8fe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:09 +0000
Subject: [PATCH 28/97] fix: let a wildcard stand for any characters, whatever
 follows it

---
 src/Utilities.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 9599710..f2e9da4 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -230,10 +230,10 @@ bool AmpGen::stringMatchesWildcard( const std::string& input, const std::string&
     const std::string pattern2 = wildcard_string.substr( pos + 1 );
     bool match1 = stringMatchesWildcard( input, pattern1, wildcard_character );
     if ( !match1 ) return false;
-    auto pos2             = pattern2.find( wildcard_character );
-    auto posInInputString = input.find( pattern2.substr( 0, pos2 ) );
-    if ( posInInputString == std::string::npos ) return false;
-    return stringMatchesWildcard( input.substr( posInInputString ), pattern2, wildcard_character );
+    for ( auto begin = pos; begin <= input.size(); ++begin ) { /// the wildcard can stand for any number of characters
+      if ( stringMatchesWildcard( input.substr( begin ), pattern2, wildcard_character ) ) return true;
+    }
+    return false;
   }
   return false;
 }
-- 
2.43.0


From ab5146fdcafe284e36cc2e18e0252ace892515aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:09 +0000
Subject: [PATCH 29/97] fix: keep the value that is directly followed by a
 comment

---
 src/OptionsParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index f87a6d9..a296661 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -145,7 +145,10 @@ std::vector<std::string> OptionsParser::makeParsedStrings( const std::string& li
   std::vector<std::string> fillThisList;
 
   for ( std::string::const_iterator it = s.begin(); it != s.end(); ++it ) {
-    if ( !insideQuotes && *it == '#' ) break; /// indicates a comment, except in speech marks ///
+    if ( !insideQuotes && *it == '#' ) { /// indicates a comment, except in speech marks ///
+      if ( !prevBlank ) fillThisList.push_back( std::string( prev, it ) );
+      break;
+    }
     if ( ( ( !insideQuotes ) && std::isblank( *it ) ) || *it == '"' || ignore ) {
       if ( !prevBlank ) {
         std::string tmp_s( prev, it );
-- 
2.43.0


From 8468eb88fc763c215a0f418f61e718244c4dddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:12 +0000
Subject: [PATCH 30/97] fix: keep apart expressions of different functions that
 share a closure type

---
 AmpGen/Expression.h | 4 +++-
 src/Expression.cpp  | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/AmpGen/Expression.h b/AmpGen/Expression.h
index 8ee7101..9ee8523 100644
--- a/AmpGen/Expression.h
+++ b/AmpGen/Expression.h
@@ -214,13 +214,15 @@ namespace AmpGen
   class LambdaExpression : public IExpression {
     public: 
       template <typename function_type>
-      LambdaExpression( const function_type& function) : m_function(function), m_name(type_string<function_type>()) {}
+      LambdaExpression( const function_type& function) : m_function(function), m_name(type_string<function_type>()+"_"+std::to_string(newIndex())) {}
       std::string to_string(const ASTResolver* resolver = nullptr) const override; 
       void resolve( ASTResolver& resolver) const override;
       operator Expression() const; 
       complex_t operator()() const override; 
       std::function<double(void)> m_function; 
       std::string m_name; 
+    private:
+      static unsigned newIndex(); ///< closures of one type can hold different values, so the type does not identify the function
   }; 
 
   /** @ingroup ExpressionEngine class Ternary 
diff --git a/src/Expression.cpp b/src/Expression.cpp
index 53bd045..4697db6 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -1,4 +1,5 @@
 #include <memory.h>
+#include <atomic>
 #include <cmath>
 #include <complex>
 #include <iosfwd>
@@ -348,6 +349,12 @@ complex_t ComplexParameter::operator()() const
   return m_real() + 1i * m_imag();
 }
 
+unsigned LambdaExpression::newIndex()
+{
+  static std::atomic<unsigned> counter{0};
+  return counter++;
+}
+
 std::string LambdaExpression::to_string(const ASTResolver* resolver) const 
 {
   return resolver == nullptr ?programatic_name(m_name) : resolver->resolvedParameter(this);
-- 
2.43.0


From 9589da32128afdf6a024dc790a89190a1da34cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:33 +0000
Subject: [PATCH 31/97] fix: fill the table of quark positions once when first
 used by several threads

---
 src/QuarkContent.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/QuarkContent.cpp b/src/QuarkContent.cpp
index 0ecef78..6fc055c 100644
--- a/src/QuarkContent.cpp
+++ b/src/QuarkContent.cpp
@@ -45,10 +45,11 @@ QuarkState::QuarkState( const std::string& str ) : QuarkState() {
 
 bool QuarkState::initPositions()
 {
-  if ( gPositions.empty() ) {
+  static const bool filled = []{ // filled once, also if first used by several threads
     for ( int i = 0; i < 6; i++ ) gPositions[gNames[i]] = i;
-  }
-  return true;
+    return true;
+  }();
+  return filled;
 }
 
 void QuarkState::antiThis()
-- 
2.43.0


From f91874f5589bfb502d65a287a97773b3a2dee09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:27 +0000
Subject: [PATCH 32/97] fix: let tasks of the thread pool be submitted with
 arguments

---
 AmpGen/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/ThreadPool.h b/AmpGen/ThreadPool.h
index 1a210c1..65eb8cf 100644
--- a/AmpGen/ThreadPool.h
+++ b/AmpGen/ThreadPool.h
@@ -66,7 +66,7 @@ namespace AmpGen
   template<typename F, typename... Args> auto ThreadPool::enqueue(F&& f, Args&&... args) -> std::future<typename std::invoke_result_t<F,Args...>>
   {
     using return_type = typename std::invoke_result_t<F, Args...>;
-    auto task = std::make_shared< std::packaged_task<return_type()> >( f, args... );
+    auto task = std::make_shared< std::packaged_task<return_type()> >( [f, args...]() mutable { return std::invoke(f, args...); } );
     std::future<return_type> res = task->get_future();
     if(! m_enableThreadPool ) { (*task)(); return res; } 
     else
-- 
2.43.0


From 0a64c2729a91415bac7b1ab6a97b8583f5d7015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:53 +0000
Subject: [PATCH 33/97] fix: list the remaining directories when one of them
 cannot be opened

---
 src/Utilities.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index f2e9da4..4b9bb49 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -408,7 +408,6 @@ std::vector<std::string> AmpGen::getListOfFiles( const std::string& directory, c
     } else {
       /* could not open directory */
       perror( "" );
-      return files;
     }
   }
   return files;
-- 
2.43.0


From d50ca3c1657b61b8982100e998aaf3cffb986c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:05 +0000
Subject: [PATCH 34/97] fix: initialise the imaginary part of a vectorised
 complex number made from a real one

---
 AmpGen/Complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Complex.h b/AmpGen/Complex.h
index 6508b8f..e0aff20 100644
--- a/AmpGen/Complex.h
+++ b/AmpGen/Complex.h
@@ -14,7 +14,7 @@ namespace AmpGen {
     // Complex( const float&   re, const float& im) : re(re), im(im) {}
     Complex( const std::complex<double>& f ) : re( f.real() ), im( f.imag() ) {}
     Complex( const std::complex<float>& f  ) : re( f.real() ), im( f.imag() ) {}
-    explicit Complex( const real_t& arg ) : re(arg) {};
+    explicit Complex( const real_t& arg ) : re(arg), im( real_t(0.) ) {};
     Complex(const real_t& re, const double& im  ) : re(re), im(im) {} 
     // explicit Complex( const double& arg ) : re(arg) {};
     inline Complex operator+=(const Complex& rhs ); 
-- 
2.43.0


From ac515dff0b7780172767dab7c5caf49dbf2f547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:37 +0000
Subject: [PATCH 35/97] fix: unload a cached library that lacks some of the
 functions before it is replaced

---
 AmpGen/CompiledExpression.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/AmpGen/CompiledExpression.h b/AmpGen/CompiledExpression.h
index 96612bf..1b75b4d 100644
--- a/AmpGen/CompiledExpression.h
+++ b/AmpGen/CompiledExpression.h
@@ -192,8 +192,14 @@ namespace AmpGen
         bool link( const std::string& handle ) override
         {
           void* library = dlopen( handle.c_str(), RTLD_NOW );
-          if( library == nullptr ) ERROR( "Failed to load: " << handle << " error: " << dlerror() );
-          return library != nullptr && link( library );
+          if( library == nullptr ){
+            ERROR( "Failed to load: " << handle << " error: " << dlerror() );
+            return false;
+          }
+          if( link( library ) ) return true;
+          m_fcn = {}; m_fdb = {}; m_batchFcn = {};
+          dlclose( library ); // otherwise a library that replaces it at the same path would not be loaded
+          return false;
         };
         std::string arg_type(const unsigned& i ) const override
         {
-- 
2.43.0


From 44fb15d94de984551f82a5d707b026396b1618a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:29 +0000
Subject: [PATCH 36/97] fix: the padding of a vectorised list of events has no
 weight

The weights of the lanes beyond the last event were meant to be zero, but a
default of zero made gather repeat the last event, which was then counted up to
four times in likelihoods and integrals.
---
 AmpGen/simd/utils.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/AmpGen/simd/utils.h b/AmpGen/simd/utils.h
index ce8498d..bb2b087 100644
--- a/AmpGen/simd/utils.h
+++ b/AmpGen/simd/utils.h
@@ -63,12 +63,16 @@ namespace AmpGen {
         template <>        struct is_vector_type <AVX::int_v>   : std::true_type {}; 
     #endif
     template <typename simd_type, typename container_type, typename functor_type> simd_type gather(
-        const container_type& container, const functor_type& functor, unsigned offset=0, typename simd_type::scalar_type df =0.)
+        const container_type& container, const functor_type& functor, unsigned offset=0)
     {
       std::array<typename simd_type::scalar_type, simd_type::size> rv; 
-      if( df == 0. )
       for( unsigned k = 0 ; k != simd_type::size; ++k ) rv[k] = offset + k < container.size() ? functor(container[offset+k]) : functor(container[container.size()-1]); 
-      else 
+      return simd_type( rv.data() );
+    } 
+    template <typename simd_type, typename container_type, typename functor_type> simd_type gather(
+        const container_type& container, const functor_type& functor, unsigned offset, typename simd_type::scalar_type df)
+    {
+      std::array<typename simd_type::scalar_type, simd_type::size> rv; 
       for( unsigned k = 0 ; k != simd_type::size; ++k ) rv[k] = offset + k < container.size() ? functor(container[offset+k]) : df; 
       return simd_type( rv.data() );
     } 
-- 
2.43.0


From 7f23010ce1d924f4b5763b8100c5a080fed5fc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:41 +0000
Subject: [PATCH 37/97] fix: a model frees the events it copied, and only those

After setting events from a plain list, the model deleted whatever list it was
given before or after that, and copies of the model deleted it again.
---
 AmpGen/CoherentSum.h  | 4 ++--
 AmpGen/PolarisedSum.h | 4 ++--
 src/CoherentSum.cpp   | 7 ++-----
 src/PolarisedSum.cpp  | 7 ++-----
 4 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/AmpGen/CoherentSum.h b/AmpGen/CoherentSum.h
index d9644bf..a8fb3ab 100644
--- a/AmpGen/CoherentSum.h
+++ b/AmpGen/CoherentSum.h
@@ -79,7 +79,7 @@ namespace AmpGen
     #if ENABLE_AVX
       void setEvents( const EventList& list) { 
         WARNING("Setting events from a AoS container, will need to make a copy");
-        m_ownEvents = true; setEvents( *(new EventListSIMD(list)) ) ; } 
+        auto copy = std::make_shared<const EventListSIMD>(list); setEvents( *copy ); m_ownedEvents = copy; } 
       void setMC    ( const EventList& list) { 
         WARNING("Setting integration events from a AoS container, will need to make a copy");
         setMC( *(new EventListSIMD(list)) ) ; } 
@@ -111,7 +111,7 @@ namespace AmpGen
     const EventList_type*  m_events       = {nullptr};        ///< Data events to evaluate PDF on
     FunctionCache<EventList_type, complex_v, Alignment::AoS> m_cache; ///< Store of intermediate values for the PDF calculation 
 
-    bool             m_ownEvents    = {false};                ///< Flag as to whether events are owned by this PDF or not  
+    std::shared_ptr<const EventList_type> m_ownedEvents;      ///< Copy of the events made for this PDF, if there is one
     EventType        m_eventType;                               ///< Final state for this amplitude
     size_t           m_prepareCalls = {0};                    ///< Number of times prepare has been called
     size_t           m_lastPrint    = {0};                    ///< Last time verbose PDF info was printed
diff --git a/AmpGen/PolarisedSum.h b/AmpGen/PolarisedSum.h
index 61b18b5..66c7ef2 100644
--- a/AmpGen/PolarisedSum.h
+++ b/AmpGen/PolarisedSum.h
@@ -43,7 +43,7 @@ namespace AmpGen
       void setEvents(EventList_type&);
       void setMC(EventList_type&);
       #if ENABLE_AVX
-        void setEvents(EventList& evts){ m_ownEvents = true; setEvents( *new EventList_type(evts)) ; };
+        void setEvents(EventList& evts){ auto copy = std::make_shared<EventList_type>(evts); setEvents( *copy ); m_ownedEvents = copy; };
         void setMC(EventList& evts){ setMC( *new EventList_type(evts)) ; };
         double operator()(const double*, const unsigned) const; 
       #endif
@@ -77,7 +77,7 @@ namespace AmpGen
       EventList_type*               m_events      = {nullptr};
       FunctionCache<EventList_type, complex_v, Alignment::AoS> m_cache    = {};
       FunctionCache<FunctionCache<EventList_type, complex_v, Alignment::AoS>, real_v, Alignment::AoS>  m_pdfCache = {}; 
-      bool                          m_ownEvents   = {false};
+      std::shared_ptr<EventList_type> m_ownedEvents;
       MinuitParameterSet*           m_mps         = {nullptr};
       MinuitProxy                   m_weight      = {nullptr,1}; 
       MinuitParameter*              m_polParam    = {nullptr};
diff --git a/src/CoherentSum.cpp b/src/CoherentSum.cpp
index a81703c..52372a3 100644
--- a/src/CoherentSum.cpp
+++ b/src/CoherentSum.cpp
@@ -229,7 +229,7 @@ void CoherentSum::setEvents( const EventList_type& list )
   DEBUG( "Setting event list with:" << list.size() << " events for " << this );
   reset();
   for( auto& me : m_matrixElements ){ DEBUG("Registering: " << me.name() ) ; }
-  if( m_ownEvents && m_events != nullptr ) delete m_events; 
+  if( &list != m_ownedEvents.get() ) m_ownedEvents.reset(); 
   m_events = &list;
   m_cache.allocate(m_events, m_matrixElements); 
 }
@@ -394,7 +394,4 @@ KeyedFunctors<double(Event)> CoherentSum::componentEvaluator(const EventList_typ
   return rt; 
 }
 
-CoherentSum::~CoherentSum()
-{
-  if( m_ownEvents && m_events !=nullptr ) delete m_events; 
-}
+CoherentSum::~CoherentSum() = default;
diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index 1d0c18b..83d39cf 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -211,7 +211,7 @@ void PolarisedSum::debug_norm()
 void   PolarisedSum::setEvents( PolarisedSum::EventList_type& events )
 { 
   reset();
-  if( m_events != nullptr && m_ownEvents ) delete m_events; 
+  if( &events != m_ownedEvents.get() ) m_ownedEvents.reset(); 
   m_events = &events;
   m_cache.allocate( m_events, m_matrixElements); 
   m_pdfCache.allocate(&m_cache, m_probExpression); 
@@ -473,10 +473,7 @@ std::vector<FitFraction> PolarisedSum::fitFractions(const LinearErrorPropagator&
   return outputFractions;
 }
 
-PolarisedSum::~PolarisedSum()
-{
-  if( m_ownEvents && m_events !=nullptr ) delete m_events; 
-}
+PolarisedSum::~PolarisedSum() = default;
 
 
 void PolarisedSum::transferParameters()
-- 
2.43.0


From 9b29088111df7ec8582c2933e2c075d5e84ce154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:41 +0000
Subject: [PATCH 38/97] fix: count each event of a plain list once in the
 likelihood of vectorised builds

The value was put in every lane, all of which are summed, so the likelihood was
four times what it should be.
---
 AmpGen/SumPDF.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/SumPDF.h b/AmpGen/SumPDF.h
index 03e7ad6..71646c4 100644
--- a/AmpGen/SumPDF.h
+++ b/AmpGen/SumPDF.h
@@ -74,7 +74,7 @@ namespace AmpGen
         for ( unsigned int i = 0; i < m_events->size(); ++i ) {
           auto prob = ((*this))(( *m_events)[i] );
           auto w = (*m_events)[i].weight();
-          output[i] = w * std::log(prob);  
+          output[i] = w * std::log(prob) / utils::size<real_v>::value;  
         }
       }
       #if ENABLE_AVX 
-- 
2.43.0


From 2caace8aeb9719c643231551181ff4f94ee28412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:41 +0000
Subject: [PATCH 39/97] fix: normalise incoherent sums with their own integral

norm() was not virtual, so preparing an incoherent sum stored the normalisation
of the coherent sum of its amplitudes.
---
 AmpGen/CoherentSum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/CoherentSum.h b/AmpGen/CoherentSum.h
index a8fb3ab..7c35bb2 100644
--- a/AmpGen/CoherentSum.h
+++ b/AmpGen/CoherentSum.h
@@ -60,7 +60,7 @@ namespace AmpGen
     size_t size()                          const { return m_matrixElements.size(); }
     real_t getWeight()                     const { return m_weight; }
     real_t norm( const Bilinears& norms )  const;
-    real_t norm() const;
+    virtual real_t norm() const;
     real_t getNorm( const Bilinears& normalisations );
 
     complex_t norm( const size_t& x, const size_t& y ) const;
-- 
2.43.0


From 3b88668e0a4b7618befc2717a3561188c3ab96e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:13 +0000
Subject: [PATCH 40/97] fix: a copied polarised sum evaluates its own cache

The probabilities of a copy were computed from the cache of the pdf it was
copied from, which may be out of date or gone.
---
 src/PolarisedSum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index 83d39cf..0e94a21 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -179,6 +179,7 @@ void   PolarisedSum::prepare()
   {
     if( m_nCalls % 10000 == 0 ) debug_norm();
   }
+  m_pdfCache.m_input = &m_cache; // a copied pdf has its own cache
   m_pdfCache.update(m_probExpression); 
  // INFO( std::setprecision(15) << " " << m_norm << " " << m_pdfCache[0] );
   m_nCalls++; 
-- 
2.43.0


From 7badbbfbd69fbad747f5939b5ea9d7a1dd0a26d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:10 +0000
Subject: [PATCH 41/97] fix: the tasks of a model in a flavour space keep their
 own copy of what they read

---
 src/PolarisedSum.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index 0e94a21..18d00f8 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -98,12 +98,12 @@ PolarisedSum::PolarisedSum(const EventType& type,
     m_matrixElements.resize( r1.size() + r2.size() );
     for(unsigned i = 0 ; i != m_matrixElements.size(); ++i)
     {
-      tp.enqueue( [i, this, &r1, &r2] () mutable {
+      const auto& rule = i < r1.size() ? r1[i] : r2[i-r1.size()];
+      tp.enqueue( [i, this, p = rule.first, coupling = rule.second, isConj = i >= r1.size()] () mutable {
         Tensor thisExpression( Tensor::dim(2) );
         DebugSymbols syms;  
-        auto& [p,coupling] = i < r1.size() ? r1[i] : r2[i-r1.size()];
-        thisExpression[0] = i < r1.size() ? make_cse( p.getExpression(&syms) ) : 0;
-        thisExpression[1] = i < r1.size() ? 0 : make_cse( p.getExpression(&syms) ); 
+        thisExpression[0] = isConj ? 0 : make_cse( p.getExpression(&syms) );
+        thisExpression[1] = isConj ? make_cse( p.getExpression(&syms) ) : 0; 
         this->m_matrixElements[i] = MatrixElement( 
             p, coupling, 
             CompiledExpression<void(complex_v*, const size_t*, const real_t*, const real_v*)>(
-- 
2.43.0


From 7f043f45bc3ada5e672d49623250e5ff39be0e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:53 +0000
Subject: [PATCH 42/97] fix: a vectorised complex number can be made from a
 literal

---
 AmpGen/Complex.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/AmpGen/Complex.h b/AmpGen/Complex.h
index e0aff20..257e35a 100644
--- a/AmpGen/Complex.h
+++ b/AmpGen/Complex.h
@@ -2,6 +2,7 @@
 #define AMPGEN_COMPLEX_H 1 
 
 #include <complex>
+#include <type_traits>
 
 namespace AmpGen {
   template <typename real_t>
@@ -16,7 +17,8 @@ namespace AmpGen {
     Complex( const std::complex<float>& f  ) : re( f.real() ), im( f.imag() ) {}
     explicit Complex( const real_t& arg ) : re(arg), im( real_t(0.) ) {};
     Complex(const real_t& re, const double& im  ) : re(re), im(im) {} 
-    // explicit Complex( const double& arg ) : re(arg) {};
+    template <typename arg_t, typename = std::enable_if_t<std::is_arithmetic<arg_t>::value && !std::is_same<arg_t, real_t>::value>>
+    explicit Complex( const arg_t& arg ) : re( real_t(arg) ), im( real_t(0.) ) {};
     inline Complex operator+=(const Complex& rhs ); 
     inline Complex operator-=(const Complex& rhs ); 
     inline Complex operator*=(const Complex& rhs ); 
-- 
2.43.0


From 52ba42058e5cfb3bd306d3ffeec46adb11daf6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:31 +0000
Subject: [PATCH 43/97] fix: report amplitudes that were not compiled instead
 of crashing

---
 src/CoherentSum.cpp  | 5 +----
 src/PolarisedSum.cpp | 1 +
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/CoherentSum.cpp b/src/CoherentSum.cpp
index 52372a3..08a56db 100644
--- a/src/CoherentSum.cpp
+++ b/src/CoherentSum.cpp
@@ -74,10 +74,7 @@ void CoherentSum::prepare()
   transferParameters(); 
   ProfileClock clockEval; 
   for (auto& t : m_matrixElements ) {
-    if( not t.isReady() ){
-      raise(SIGSEGV);
-      FATAL( t.decayDescriptor() << " not ready, fix me"); 
-    }
+    if( not t.isReady() ) FATAL( t.decayDescriptor() << " not ready, fix me"); 
     t.prepare();
     if ( m_prepareCalls != 0 && !t.hasExternalsChanged() ) continue;
     if ( m_events != nullptr ) m_cache.update(t);
diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index 18d00f8..5e088cc 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -172,6 +172,7 @@ void   PolarisedSum::prepare()
   auto updateData  = [this](auto& t) mutable { if( t.workToDo && this->m_events != nullptr ){ this->m_cache.update(t); }; };
   auto updateInteg = [this](auto& t) mutable { if( t.workToDo ) this->m_integrator.updateCache(t) ; };
   transferParameters();
+  for( auto& t : m_matrixElements ) if( not t.isReady() ) FATAL( t.decayDescriptor() << " not ready, fix me"); 
   for_each_sequence(m_matrixElements.begin(), m_matrixElements.end(), flagUpdate, updateData, updateInteg); 
   if( m_integrator.isReady() ) updateNorms();
   std::for_each( m_matrixElements.begin(), m_matrixElements.end(), resetFlags );
-- 
2.43.0


From a3c43da37a8c7ce1e86eb13f4dd725d788ff5657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:47 +0000
Subject: [PATCH 44/97] fix: add up the weights of a list of events as real
 numbers

---
 src/EventList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventList.cpp b/src/EventList.cpp
index 33e9069..8077be4 100644
--- a/src/EventList.cpp
+++ b/src/EventList.cpp
@@ -207,7 +207,7 @@ TH2D* EventList::makeProjection( const Projection2D& projection, const ArgumentP
 
 double EventList::integral() const
 {
-  return std::accumulate( std::begin(*this), std::end(*this), 0, [](double rv, const auto& evt){ return rv + evt.weight(); } );
+  return std::accumulate( std::begin(*this), std::end(*this), 0., [](double rv, const auto& evt){ return rv + evt.weight(); } );
 }
 
 void EventList::add( const EventList& evts )
-- 
2.43.0


From a960263b7180d0fcb7a55e44b09b9468cadfa1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:27 +0000
Subject: [PATCH 45/97] fix: pad a vectorised list read from a tree with whole
 events

---
 src/EventListSIMD.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/EventListSIMD.cpp b/src/EventListSIMD.cpp
index 9e07147..e9d1417 100644
--- a/src/EventListSIMD.cpp
+++ b/src/EventListSIMD.cpp
@@ -129,7 +129,10 @@ void EventListSIMD::loadFromTree( TTree* tree, const ArgumentPack& args )
         if( applySym ) symmetriser( temp );
         buffer[k] = temp;  
       } 
-      else buffer[k].setWeight(0);
+      else {
+        buffer[k] = temp;
+        buffer[k].setWeight(0);
+      }
     }
     gather( buffer, block );
   }
-- 
2.43.0


From 8aade62ed43cabb5384e707d9435a43a3ff75538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:27 +0000
Subject: [PATCH 46/97] fix: a cleared vectorised list has no events

---
 src/EventListSIMD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventListSIMD.cpp b/src/EventListSIMD.cpp
index e9d1417..880b7f1 100644
--- a/src/EventListSIMD.cpp
+++ b/src/EventListSIMD.cpp
@@ -212,7 +212,7 @@ TH2D* EventListSIMD::makeProjection( const Projection2D& projection, const Argum
 
 void EventListSIMD::clear() 
 { 
-  m_data.clear(); 
+  resize(0); 
 }
 
 const Event EventListSIMD::operator[]( const size_t& pos ) const 
-- 
2.43.0


From 54d2aba5f9b2fbc88d6e56617c41ae0bb619e8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:27 +0000
Subject: [PATCH 47/97] fix: iterating over a vectorised list stays inside it
 and keeps every change

---
 AmpGen/simd/iterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AmpGen/simd/iterator.h b/AmpGen/simd/iterator.h
index 3949a0a..2144866 100644
--- a/AmpGen/simd/iterator.h
+++ b/AmpGen/simd/iterator.h
@@ -11,7 +11,7 @@ namespace AmpGen {
     scatter_iterator( const size_t& pos, store_type* store ) : 
       m_store(store), 
       m_pos(pos) { 
-        if( m_store != nullptr && pos < m_store->aligned_size()) m_buffer = m_store->scatter(pos / simd_size );
+        if( m_store != nullptr && pos < m_store->aligned_size()) m_buffer = m_store->scatter( pos );
       }
     stored_type* operator->() const { return &( m_buffer )[m_pos % simd_size]; }
     stored_type   operator*() const { return    m_buffer  [m_pos % simd_size]; }
@@ -22,7 +22,7 @@ namespace AmpGen {
       if ( m_pos % simd_size == 0 )
       { 
         if constexpr(modifiable == true ) m_store->gather(m_buffer, (m_pos-1) / simd_size); 
-        m_buffer = m_store->scatter( m_pos );
+        if( m_pos < m_store->size() ) m_buffer = m_store->scatter( m_pos );
       }
       return *this;  
     }
@@ -30,7 +30,7 @@ namespace AmpGen {
     {
       if constexpr(modifiable == true)
       {
-        if(m_store != nullptr && m_pos % simd_size != 0 ){
+        if(m_store != nullptr && ( m_pos % simd_size != 0 || m_pos < m_store->size() ) ){
           m_store->gather(m_buffer, m_pos/simd_size); 
         }
       }
-- 
2.43.0


From 8d0b53d167fa7c8df7a44a624e5016ac43107dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:27 +0000
Subject: [PATCH 48/97] fix: renumber the events that remain in a list after
 some were removed

---
 AmpGen/EventList.h | 1 +
 src/EventList.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/AmpGen/EventList.h b/AmpGen/EventList.h
index cf739ed..3ea78c9 100644
--- a/AmpGen/EventList.h
+++ b/AmpGen/EventList.h
@@ -149,6 +149,7 @@ namespace AmpGen
     {
       unsigned currentSize = size();
       m_data.erase( std::remove_if( m_data.begin(), m_data.end(), fcn ) , m_data.end() );
+      for( unsigned i = 0 ; i != m_data.size(); ++i ) m_data[i].setIndex(i);
       INFO("Filter retains " << size() << " / " << currentSize << " events");
     }
 
diff --git a/src/EventList.cpp b/src/EventList.cpp
index 8077be4..00df275 100644
--- a/src/EventList.cpp
+++ b/src/EventList.cpp
@@ -230,6 +230,7 @@ void EventList::erase(const std::vector<Event>::iterator& begin,
     const std::vector<Event>::iterator& end)
 {
   m_data.erase( begin, end );
+  for( unsigned i = 0 ; i != m_data.size(); ++i ) m_data[i].setIndex(i);
 }
 
 void EventList::reserve( const size_t& size ) 
-- 
2.43.0


From 139be23e7b4026c1498554fed6d1249588d99177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:23 +0000
Subject: [PATCH 49/97] fix: reading a tree stops at its last entry

---
 AmpGen/TreeReader.h | 2 +-
 src/TreeReader.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/AmpGen/TreeReader.h b/AmpGen/TreeReader.h
index 1e64d1f..d0a783a 100644
--- a/AmpGen/TreeReader.h
+++ b/AmpGen/TreeReader.h
@@ -46,7 +46,7 @@ namespace AmpGen
         Iterator& operator++()
         {
           m_position++;
-          m_parent->getEntry( m_position );
+          if( m_position < m_parent->nEntries() ) m_parent->getEntry( m_position );
           return *this;
         }
         bool operator==( const Iterator& rhs ) const { return m_position == rhs.m_position; }
diff --git a/src/TreeReader.cpp b/src/TreeReader.cpp
index c09aace..ef63376 100644
--- a/src/TreeReader.cpp
+++ b/src/TreeReader.cpp
@@ -43,5 +43,5 @@ TreeReader::~TreeReader()
   for ( auto& branch : m_branches ) delete branch;
 }
 
-TreeReader::Iterator TreeReader::begin() { getEntry(0); return Iterator( 0, this ); }
+TreeReader::Iterator TreeReader::begin() { if( nEntries() != 0 ) getEntry(0); return Iterator( 0, this ); }
 TreeReader::Iterator TreeReader::end()   { return Iterator( nEntries(), this ); }
-- 
2.43.0


From c3824602f65a1296c2fa473a17d580577aa496fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:40 +0000
Subject: [PATCH 50/97] fix: the padding of a resized vectorised list has no
 weight, and its events none from before

---
 AmpGen/EventListSIMD.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/AmpGen/EventListSIMD.h b/AmpGen/EventListSIMD.h
index db65cee..35621b4 100644
--- a/AmpGen/EventListSIMD.h
+++ b/AmpGen/EventListSIMD.h
@@ -79,8 +79,12 @@ namespace AmpGen
     void resize( const unsigned nEvents )
     {
       m_data = Store<real_v, Alignment::AoS>(nEvents, m_eventType.eventSize());
-      m_weights.resize( aligned_size(), 1.f);
-      m_genPDF.resize( aligned_size(), 1.f );
+      m_weights.assign( nBlocks(), 1.f );
+      m_genPDF.assign( nBlocks(), 1.f );
+      if( nEvents % utils::size<real_v>::value == 0 ) return; 
+      std::array<real_v::scalar_type, utils::size<real_v>::value> weights = {0}; // the padding has no weight
+      std::fill( weights.begin(), weights.begin() + nEvents % utils::size<real_v>::value, 1 );
+      m_weights.back() = real_v( weights.data() );
     }
     const Event operator[]( const size_t&) const;
     std::array<Event, utils::size<real_v>::value> scatter(unsigned) const;
-- 
2.43.0


From 2cbea59b175e7c3e838280db52ac17ccb09115bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:26 +0000
Subject: [PATCH 51/97] fix: generating a sample from a model compiles in
 vectorised builds

---
 AmpGen/Generator.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/AmpGen/Generator.h b/AmpGen/Generator.h
index b848a86..16b7697 100644
--- a/AmpGen/Generator.h
+++ b/AmpGen/Generator.h
@@ -161,10 +161,8 @@ namespace AmpGen
         template <typename pdf_t, typename = typename std::enable_if<!std::is_integral<pdf_t>::value>::type>
           EventList generate(pdf_t& pdf, const size_t& nEvents )
           {
-            eventlist_t evts( m_eventType );
-            fillEventList( pdf, evts, nEvents );
             EventList output( m_eventType );
-            for( const auto& event : evts ) output.emplace_back( event );
+            fillEventList( pdf, output, nEvents );
             return output; 
           }
         EventList generate(const size_t& nEvents)
-- 
2.43.0


From 8b5d2974307f6c507feba052248913ba12e03e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:26 +0000
Subject: [PATCH 52/97] fix: adding generated events to a list that has some
 does not print without end

---
 AmpGen/Generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Generator.h b/AmpGen/Generator.h
index 16b7697..623bf56 100644
--- a/AmpGen/Generator.h
+++ b/AmpGen/Generator.h
@@ -144,7 +144,7 @@ namespace AmpGen
             /// if constexpr ( std::is_same<phaseSpace_t, TreePhaseSpace>::value ) maxProb = 0; 
             t_acceptReject.stop(); 
             double efficiency = 100. * ( list.size() - previousSize ) / (double)m_generatorBlock;
-            pb.print( double(list.size()) / double(N), " ε[gen] = " + mysprintf("%.4f",efficiency) + "% , " + std::to_string(int(t_total.count()/1000.))  + " seconds" );
+            pb.print( double(list.size() - size0) / double(N), " ε[gen] = " + mysprintf("%.4f",efficiency) + "% , " + std::to_string(int(t_total.count()/1000.))  + " seconds" );
             if ( list.size() == previousSize ) {
               ERROR( "No events generated, PDF: " << type_string<pdf_t>() << " is likely to be malformed" );
               break;
-- 
2.43.0


From b025c0c830582f76575ee16d96bcd0193b3d8eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:09 +0000
Subject: [PATCH 53/97] fix: a model forgets the candidates it generated events
 from

---
 AmpGen/Generator.h   | 1 +
 src/PolarisedSum.cpp | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/AmpGen/Generator.h b/AmpGen/Generator.h
index 623bf56..beb52a5 100644
--- a/AmpGen/Generator.h
+++ b/AmpGen/Generator.h
@@ -150,6 +150,7 @@ namespace AmpGen
               break;
             }
           } 
+          pdf.reset( true ); // the candidates are gone
           pb.finish();
           t_total.stop();
           INFO("Generated " << N << " events in " << t_total << " ms");
diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index 5e088cc..ccc9044 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -233,7 +233,11 @@ size_t PolarisedSum::size() const
   return m_dim.first * m_dim.second * m_matrixElements.size(); 
 }
 
-void   PolarisedSum::reset( const bool& flag ){ m_nCalls = 0 ; }
+void   PolarisedSum::reset( const bool& flag )
+{ 
+  m_nCalls = 0 ; 
+  if( flag ) m_events = nullptr; 
+}
 
 Tensor PolarisedSum::transitionMatrix() const 
 { 
-- 
2.43.0


From 6112b5bc956d3159b3bfc3ac9f9f1695077604a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:27 +0000
Subject: [PATCH 54/97] fix: a polarised sum can be prepared before it has
 events

---
 src/PolarisedSum.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index ccc9044..de4f595 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -180,8 +180,10 @@ void   PolarisedSum::prepare()
   {
     if( m_nCalls % 10000 == 0 ) debug_norm();
   }
-  m_pdfCache.m_input = &m_cache; // a copied pdf has its own cache
-  m_pdfCache.update(m_probExpression); 
+  if( m_events != nullptr ){
+    m_pdfCache.m_input = &m_cache; // a copied pdf has its own cache
+    m_pdfCache.update(m_probExpression); 
+  }
  // INFO( std::setprecision(15) << " " << m_norm << " " << m_pdfCache[0] );
   m_nCalls++; 
 }
-- 
2.43.0


From eafd7097dc736f0b2149717b5bf4f9c1cf20648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:38 +0000
Subject: [PATCH 55/97] fix: a binning can be made from fewer than two events

---
 src/BinDT.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BinDT.cpp b/src/BinDT.cpp
index 9d60ebb..8b9b6c6 100644
--- a/src/BinDT.cpp
+++ b/src/BinDT.cpp
@@ -24,6 +24,7 @@ double nearestNeighbourVariance( std::vector<double*> evts, const size_t& index)
                 , [index]( const double* evt1, const double* evt2 ) { return *( evt1 + index ) > *( evt2 + index ); }
                 , std::max(256ul, evts.size() / 4) );
   size_t size                 = evts.size();
+  if ( size < 2 ) return 0;
   double x   = dist(evts[0], evts[1]) + dist(evts[size-1], evts[size-2]); 
   double x2  = dist2(evts[0], evts[1]) + dist2(evts[size-1], evts[size-2]); 
   for ( size_t i = 1; i < size-1; ++i ) {
-- 
2.43.0


From 00ff6bf6085c73d68840d00f1c84d763e84c40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:38 +0000
Subject: [PATCH 56/97] fix: a binning made from events and a pack of arguments
 keeps its nodes

---
 src/BinDT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BinDT.cpp b/src/BinDT.cpp
index 8b9b6c6..9cab3f5 100644
--- a/src/BinDT.cpp
+++ b/src/BinDT.cpp
@@ -100,7 +100,7 @@ BinDT::BinDT( const ArgumentPack& args )
 
 BinDT::BinDT( const EventList& events, const ArgumentPack& args ) : BinDT(args) 
 {
-  makeNodes( events.begin(), events.end() );
+  m_top = makeNodes( events.begin(), events.end() );
 }
 
 void BinDT::readFromStream( std::istream& stream )
-- 
2.43.0


From 785b7f01369da69e9d329860608ae82f017b675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:38 +0000
Subject: [PATCH 57/97] fix: report binnings that cannot be written, read or
 are incomplete

---
 src/BinDT.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/BinDT.cpp b/src/BinDT.cpp
index 9cab3f5..a2291ce 100644
--- a/src/BinDT.cpp
+++ b/src/BinDT.cpp
@@ -94,6 +94,7 @@ BinDT::BinDT( const ArgumentPack& args )
   auto fname            = args.getArg<File>("").val;
   if ( fname != "" ) {
     auto stream = std::ifstream(fname);
+    if ( !stream.good() ) FATAL( "Could not open file: " << fname );
     readFromStream(stream);
   }
 }
@@ -110,8 +111,10 @@ void BinDT::readFromStream( std::istream& stream )
   std::string topAddress = "";
   while ( getline( stream, line ) ) {
     if( line == "end" ) break; 
+    if( stream.eof() ) FATAL( "Binning ends in the middle of a line: " << line );
     auto tokens = split( line, ' ' );
     try { 
+      if ( tokens.size() != 2 && tokens.size() != 3 && tokens.size() != 5 ) throw std::runtime_error("Unrecognised number of tokens");
       std::string address                = tokens[0];
       if ( topAddress == "" ) topAddress = address;
       if ( tokens.size() == 5 ) {
@@ -125,9 +128,10 @@ void BinDT::readFromStream( std::istream& stream )
         m_endNodes.push_back( node );
       }
     } catch(...){
-      ERROR("Could not parse line: " << line );
+      FATAL("Could not parse line: " << line );
     }
   }
+  if ( stream.bad() || nodes.size() == 0 ) FATAL( "Could not read binning" );
   DEBUG( "Read: " << nodes.size()
      << " nodes from plain-text file" ); // , now re-establishing tree structure; EndNodes=" << edc );
   m_top = nodes[topAddress].second;
@@ -135,7 +139,10 @@ void BinDT::readFromStream( std::istream& stream )
     Decision* node_ptr = dynamic_cast<Decision*>( node.second.second.get() );
     if ( node_ptr != nullptr ) {
       auto tokens = split( node.second.first, ' ' );
-      node_ptr->setChildren( nodes[tokens[3]].second, nodes[tokens[4]].second );
+      auto left   = nodes.find( tokens[3] );
+      auto right  = nodes.find( tokens[4] );
+      if ( left == nodes.end() || right == nodes.end() ) FATAL( "Binning is incomplete, missing nodes of: " << node.second.first );
+      node_ptr->setChildren( left->second.second, right->second.second );
     }
   }
 }
@@ -153,6 +160,7 @@ void BinDT::serialize( const std::string& filename )
   output.open( filename );
   serialize( output );
   output.close();
+  if ( output.fail() ) FATAL( "Could not write binning to file: " << filename );
 }
 
 std::shared_ptr<BinDT::INode> BinDT::makeNodes( const std::vector<double*>& evts )
-- 
2.43.0


From 373b07c0763a5146f1925c71beffbab9e9411989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:39 +0000
Subject: [PATCH 58/97] fix: a flat binning is written with the precision it
 has

---
 src/FastDT.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FastDT.cpp b/src/FastDT.cpp
index 39986d0..daf1acb 100644
--- a/src/FastDT.cpp
+++ b/src/FastDT.cpp
@@ -25,6 +25,7 @@ void FastDT::readFromStream( std::ifstream& stream, const int& n_nodes )
 
 void FastDT::serialise( std::ofstream& stream )
 {
+  stream << std::setprecision( 17 );
   for( auto& node : m_nodes ) stream << node.index << " " << node.left << " " << node.right << " " << node.cutValue << std::endl; 
 }
 
-- 
2.43.0


From b6c387d5852a0057a991e864cdea9d0d629f78ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:40 +0000
Subject: [PATCH 59/97] fix: an undivided flat binning has one bin

---
 src/FastDT.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FastDT.cpp b/src/FastDT.cpp
index daf1acb..e68d0ad 100644
--- a/src/FastDT.cpp
+++ b/src/FastDT.cpp
@@ -40,6 +40,7 @@ FastDT::FastDT( const ArgumentPack& args )
 
 int FastDT::findNode( const double* event ) const
 {
+  if( m_nodes.empty() ) return 0;
   int address = m_nodes.size()-1;
   while( m_nodes[address].index != 0 )
   {
-- 
2.43.0


From e85e1c492e3df57b4a055faddc713ee6d087b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:40 +0000
Subject: [PATCH 60/97] fix: a flat binning divides in the coordinate that was
 found to be best

---
 src/FastDT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FastDT.cpp b/src/FastDT.cpp
index e68d0ad..cff2d58 100644
--- a/src/FastDT.cpp
+++ b/src/FastDT.cpp
@@ -205,8 +205,8 @@ int FastDT::makeNodes( std::vector<double*> source, std::vector<double*> target,
       } 
       chi2_v[i] = chi2; 
     }
-    bestIndex = *it; 
-    *it = -1;
+    bestIndex = *bestIt; 
+    *bestIt = -1;
     auto sorter = [bestIndex]( auto& a, auto& b ) { return *( a + bestIndex ) < *( b + bestIndex ); };
     parallel_sort(source.begin(), source.end(), sorter, std::max(256ul, source.size() / 4) );
     parallel_sort(target.begin(), target.end(), sorter, std::max(256ul, target.size() / 4) );
-- 
2.43.0


From b4908d86dfc3ce390104d6db7cfb2135b8a38a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:40 +0000
Subject: [PATCH 61/97] fix: a binning of two samples is not divided where no
 cut leaves enough events

---
 src/BinDT.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/BinDT.cpp b/src/BinDT.cpp
index a2291ce..f577de5 100644
--- a/src/BinDT.cpp
+++ b/src/BinDT.cpp
@@ -8,6 +8,7 @@
 #include <iomanip>
 #include <iostream>
 #include <ratio>
+#include <tuple>
 
 #include "AmpGen/Utilities.h"
 #include "AmpGen/Event.h"
@@ -204,7 +205,7 @@ std::shared_ptr<BinDT::INode> BinDT::makeNodes( const std::vector<double*>& sour
   m_top     = makeNodes(source, target, iq, 0);
   return m_top;
 }
-double bestCut_lineSearch(const std::vector<double*>& source, 
+std::pair<double, double> bestCut_lineSearch(const std::vector<double*>& source, 
                           const std::vector<double*>& target, 
                           int index, 
                           const size_t& dim,
@@ -237,7 +238,7 @@ double bestCut_lineSearch(const std::vector<double*>& source,
       optPos  = pos;
     }
   }
-  return optPos;
+  return {optPos, maxChi2};
 }
 double BinDT::getBestPost( const std::vector<double*>& source, const std::vector<double*>& target, int index, bool verbose )
 {
@@ -292,7 +293,14 @@ std::shared_ptr<BinDT::INode> BinDT::makeNodes( std::vector<double*> source, std
   auto sorter = [&index]( const auto& a, const auto& b ) { return *( a + index ) < *( b + index ); };
   parallel_sort(source.begin(), source.end(), sorter, std::max(256ul, source.size() / 4) );
   parallel_sort(target.begin(), target.end(), sorter, std::max(256ul, target.size() / 4) );
-  double optPos = bestCut_lineSearch(source, target, index, m_dim, m_minEvents);
+  double optPos, maxChi2;
+  std::tie(optPos, maxChi2) = bestCut_lineSearch(source, target, index, m_dim, m_minEvents);
+  if ( maxChi2 == -9999 ) {
+    DEBUG( "No cut leaves enough events on both sides" );
+    auto node = std::make_shared<EndNode>( m_endNodes.size() );
+    m_endNodes.push_back( node );
+    return node;
+  }
   auto sc = std::lower_bound( source.begin(), source.end(), optPos, [index](const auto& a, const auto& b){return b > *(a+index); } );
   auto tc = std::lower_bound( target.begin(), target.end(), optPos, [index](const auto& a, const auto& b){return b > *(a+index); } );
   std::vector<double*> sourceLeft(source.begin(), sc); 
-- 
2.43.0


From ab50dc02d3b5f196f44627234c59e4e27211d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:02 +0000
Subject: [PATCH 62/97] fix: a flat binning is not divided where no cut leaves
 enough events

---
 src/FastDT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FastDT.cpp b/src/FastDT.cpp
index cff2d58..22e92d7 100644
--- a/src/FastDT.cpp
+++ b/src/FastDT.cpp
@@ -182,7 +182,7 @@ int FastDT::makeNodes( std::vector<double*> source, std::vector<double*> target,
     return --m_endNodeCounter;
   }
   unsigned bestIndex = 0; 
-  double bestChi2 = 0; 
+  double bestChi2 = -9999; 
   double optPos = 0;
   if( std::all_of( indexQueue.begin(), indexQueue.end(), [](auto& arg){ return arg ==-1 ; } ) ) indexQueue = makeQueue();
   std::vector<double> chi2_v( m_dim ); 
-- 
2.43.0


From ef73092c3d400c4aa031c57ad8301c5d69f29aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:51 +0000
Subject: [PATCH 63/97] fix: an event on the cut of a flat binning is counted
 on the side where it is found

---
 src/FastDT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FastDT.cpp b/src/FastDT.cpp
index 22e92d7..0906d54 100644
--- a/src/FastDT.cpp
+++ b/src/FastDT.cpp
@@ -83,7 +83,7 @@ std::pair<std::vector<double*>, std::vector<double*>> _splitEvents(std::vector<d
     evts.size() % 2 == 0
     ? ( *( evts[midpoint-1] + index ) + *( evts[midpoint] + index ) ) / 2
     : ( *( evts[midpoint+1] + index ) + *( evts[midpoint-1] + index ) + *( evts[midpoint] + index ) ) / 3;
-  midpoint += midposition > *( evts[midpoint] + index );
+  midpoint += midposition >= *( evts[midpoint] + index );
   std::vector<double*> leftEvents( evts.begin(), evts.begin() + midpoint );
   std::vector<double*> rightEvents( evts.begin() + midpoint, evts.end() );
   return std::make_pair(leftEvents, rightEvents);
-- 
2.43.0


From eac86b813d79af2d999b31da560aef8145d0ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:26 +0000
Subject: [PATCH 64/97] fix: a copy of the result of a fit knows its
 covariances by name

---
 src/FitResult.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 97dd601..81d2b35 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -31,9 +31,11 @@ FitResult::FitResult( const FitResult& other )
   , m_nBins( other.nBins() )
   , m_nParam( other.nParam() )
   , m_status( other.status() )
+  , m_fitted( other.m_fitted )
   , m_observables( other.observables() )
   , m_fitFractions( other.fitFractions() )
   , m_covarianceMatrix(other.cov())
+  , m_covMapping( other.m_covMapping )
 {
 }
 
-- 
2.43.0


From 5a0791b68007615a07d1ea220147bdb9931f7ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:26 +0000
Subject: [PATCH 65/97] fix: calculating asymmetric errors after a fit does not
 change its result

---
 src/Minimiser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Minimiser.cpp b/src/Minimiser.cpp
index c06745d..a4f1234 100644
--- a/src/Minimiser.cpp
+++ b/src/Minimiser.cpp
@@ -227,14 +227,16 @@ bool Minimiser::doFit()
   bool runMinos = NamedParameter<bool>("Minimiser::RunMinos",false);
   if(runMinos)
   {
+    const std::vector<double> values( m_minimiser->X(), m_minimiser->X() + m_nParams );
     for( unsigned i = 0 ; i != m_nParams; ++i ){
       double low  = 0;
       double high = 0;
       int status  = 0;
       m_minimiser->GetMinosError(i, low, high, status);
       auto param = m_parSet->at( m_mapping[i] );
-      param->setResult( *param, param->err(), low, high  );
+      param->setResult( values[i], param->err(), low, high  );
     }
+    for( unsigned i = 0 ; i != m_nParams; ++i ) m_parSet->at( m_mapping[i] )->setCurrentFitVal( values[i] );
   }
 
   if( m_printLevel >= PrintLevel::Info )
-- 
2.43.0


From d76a5458c05c97bbc78cb799b6bfc41eeb814312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:00 +0000
Subject: [PATCH 66/97] fix: read the limits of a parameter from where they are
 written

---
 src/FitResult.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 81d2b35..526b1ed 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -85,7 +85,7 @@ bool FitResult::readFile( const std::string& fname )
       return nullptr;
     }
     auto args = to_vector_of_doubles( tokens.begin() + 3, tokens.end() ); 
-    auto p = new MinuitParameter( tokens[1], parse<Flag>(tokens[2]), args[0], args[1], args[5], args[6] );
+    auto p = new MinuitParameter( tokens[1], parse<Flag>(tokens[2]), args[0], args[1], args[4], args[5] );
     p->setResult(args[0], args[1], args[2], args[3]);
     return p;
   }; 
-- 
2.43.0


From 7f4e0867db04fb0b0f0ae13a893fcf3e97f5d766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:00 +0000
Subject: [PATCH 67/97] fix: report missing and incomplete results of fits, and
 match covariances to parameters by name

---
 src/FitResult.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 526b1ed..f60b1ff 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -43,6 +43,7 @@ FitResult::FitResult( const std::string& filename ) :
   m_mps( new MinuitParameterSet() ) 
 {
   m_fitted = readFile( filename );
+  if( !m_fitted ) FATAL("Could not read fit result: " << filename );
 }
 
 FitResult::FitResult( const Minimiser& mini )
@@ -90,10 +91,13 @@ bool FitResult::readFile( const std::string& fname )
     return p;
   }; 
   std::vector<std::vector<double>> covarianceLines; 
+  std::vector<std::string> paramsOrder; 
   bool isInCovariance = false; 
+  bool isComplete     = false; 
   unsigned j = 0; 
-  processFile( fname, [&isInCovariance, &j, this, to_parameter, to_vector_of_doubles, &covarianceLines](auto& line ) mutable {
+  processFile( fname, [&isInCovariance, &isComplete, &j, this, to_parameter, to_vector_of_doubles, &covarianceLines, &paramsOrder](auto& line ) mutable {
     const auto tokens = split( line, ' ' );
+    if ( tokens.size() == 0 ) return;
     const auto name = tokens[0]; 
     if ( name == "Parameter" ){ 
       auto param = to_parameter(tokens); 
@@ -102,16 +106,30 @@ bool FitResult::readFile( const std::string& fname )
     else if ( name == "FitQuality"  )  this->setFitQuality( line );
     else if ( name == "FitFraction" )  this->m_fitFractions.emplace_back(line);
     else if ( name == "Observable"  )  this->addToObservables( line );
-    else if ( name == "ParamsOrder" ){  isInCovariance = false; } 
+    else if ( name == "ParamsOrder" ){
+      isInCovariance = false;
+      for( size_t i = 1; i < tokens.size(); i += 2 ) paramsOrder.push_back( tokens[i] );
+    } 
+    else if ( line == "End Log" ) isComplete = true;
     else if ( name == "CovarianceMatrix"  ){  isInCovariance = true; return; }
     if( isInCovariance ){
       auto v = to_vector_of_doubles(tokens.begin(), tokens.end() ); 
       covarianceLines.push_back( to_vector_of_doubles(tokens.begin(), tokens.end() ) ); 
     }
   } ); 
+  if( !isComplete )
+  {
+    ERROR("Fit result is missing or incomplete: " << fname );
+    return false; 
+  }
   m_covarianceMatrix.ResizeTo(j,j); 
-  for (size_t i = 0; i < m_covarianceMatrix.GetNcols(); ++i ) {
-    for (size_t j = 0; j < m_covarianceMatrix.GetNrows(); ++j ) m_covarianceMatrix(i, j) = covarianceLines[i][j];
+  for ( size_t x = 0; x < paramsOrder.size(); ++x ) {
+    auto px = m_covMapping.find( paramsOrder[x] );
+    if( px == m_covMapping.end() ) continue; 
+    for ( size_t y = 0; y < paramsOrder.size(); ++y ) {
+      auto py = m_covMapping.find( paramsOrder[y] );
+      if( py != m_covMapping.end() ) m_covarianceMatrix( px->second, py->second ) = covarianceLines.at(x).at(y);
+    }
   }
   return true;
 }
-- 
2.43.0


From 48db3b7d48a2e04a465638c5f8673bd16a8e8ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:00 +0000
Subject: [PATCH 68/97] fix: report results of fits that could not be written

---
 src/FitResult.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index f60b1ff..7d2803e 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -196,6 +196,7 @@ void FitResult::writeToFile( const std::string& fname )
   }
   outlog << "\nEnd Log\n";
   outlog.close();
+  if( outlog.fail() ) FATAL("Could not write fit result: " << fname );
 }
 
 void FitResult::print() const
@@ -334,6 +335,8 @@ void FitResult::writeOptions( const std::string& output, const std::string& inpu
 {
   std::ofstream output_stream( output);
   writeOptions(output_stream, input); 
+  output_stream.close();
+  if( output_stream.fail() ) FATAL("Could not write options: " << output );
 }
 
 void FitResult::writeOptions( std::ostream& output_stream, const std::string& input)
-- 
2.43.0


From 5a2f67fb646514aab5617f4e65c3cf6979e4b381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:00 +0000
Subject: [PATCH 69/97] fix: the options of a fit keep limits of which one is
 zero, and those of one part of a complex parameter

---
 src/FitResult.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 7d2803e..8150046 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -342,16 +342,17 @@ void FitResult::writeOptions( const std::string& output, const std::string& inpu
 void FitResult::writeOptions( std::ostream& output_stream, const std::string& input)
 {
   std::set<std::string> keys;
-  auto print_param = [&](auto& param) mutable {
+  auto has_limits  = [](const auto& param){ return param->minInit() != 0. || param->maxInit() != 0.; };
+  auto print_param = [](auto& param, const bool limits) {
     std::string rt= mysprintf( " %-7s %-12lf %-12lf", to_string<Flag>(param->flag()).c_str(), param->mean(), param->err() );
-    if( param->minInit() != 0. && param->maxInit() != 0. ) rt += mysprintf(" %-12lf %-12lf", param->minInit(), param->maxInit()); 
+    if( limits ) rt += mysprintf(" %-12lf %-12lf", param->minInit(), param->maxInit()); 
     return rt; 
   };
   auto try_add_real    = [&](const auto& key) mutable
   {
     auto param = this->m_mps->find(key);
     if( param == nullptr ) return false; 
-    output_stream << mysprintf("%-50s", param->name().c_str() ) << print_param(param) << "\n"; 
+    output_stream << mysprintf("%-50s", param->name().c_str() ) << print_param(param, has_limits(param)) << "\n"; 
     keys.insert(key); 
     return true;  
   };
@@ -360,7 +361,8 @@ void FitResult::writeOptions( std::ostream& output_stream, const std::string& in
      auto param_re = this->m_mps->find(key+"_Re");
      auto param_im = this->m_mps->find(key+"_Im");
      if( param_re == nullptr || param_im == nullptr ) return false; 
-     output_stream << mysprintf("%-50s", key.c_str()) << print_param(param_re) << print_param(param_im) << "\n"; 
+     const bool limits = has_limits(param_re) || has_limits(param_im); 
+     output_stream << mysprintf("%-50s", key.c_str()) << print_param(param_re, limits) << print_param(param_im, limits) << "\n"; 
      keys.insert(key+"_Re"); 
      keys.insert(key+"_Im"); 
      return true; 
-- 
2.43.0


From 067381de1c7bf909585ae393a4fd8d16cf8b4af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:00 +0000
Subject: [PATCH 70/97] fix: the options of a fit replace lines that are
 separated by tabs, and keep lines of one word

---
 src/FitResult.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 8150046..4a8fd3b 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -373,8 +373,8 @@ void FitResult::writeOptions( std::ostream& output_stream, const std::string& in
     processFile(input, [&](const std::string& line)
     {
       bool success = true; 
-      auto tokens = split(line, ' ');
-      if( tokens.size() == 0 ) { output_stream << line << "\n" ; return ;  } 
+      auto tokens = split(line, {' ', '\t'});
+      if( tokens.size() < 2 ) { output_stream << line << "\n" ; return ;  } 
       auto key = tokens[0];
       if( ( m_mps->find(key) or m_mps->find(key +"_Re") or m_mps->find(key+"_Im") ) && tokens[1] != "=" )
       {
-- 
2.43.0


From 7e90046b465ff6cf057e8f7c119aec371176d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:40 +0000
Subject: [PATCH 71/97] fix: report lines of the result of a fit that are
 incomplete

---
 src/FitFraction.cpp | 1 +
 src/FitResult.cpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/FitFraction.cpp b/src/FitFraction.cpp
index f064e2d..19a32a2 100644
--- a/src/FitFraction.cpp
+++ b/src/FitFraction.cpp
@@ -14,6 +14,7 @@ using namespace AmpGen;
 FitFraction::FitFraction( const std::string& line )
 {
   auto tokens = split( line, ' ' );
+  if( tokens.size() != 4 ) FATAL("Cannot parse FitFraction line: " << line );
   m_name      = tokens[1];
   m_value     = stod( tokens[2] );
   m_error     = stod( tokens[3] );
diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 4a8fd3b..21e2fef 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -152,6 +152,7 @@ void FitResult::setFitQuality( const std::string& line )
 void FitResult::addToObservables( const std::string& line )
 {
   auto tokens              = split( line, ' ' );
+  if( tokens.size() != 3 ) FATAL("Cannot parse Observable line: " << line );
   m_observables[tokens[1]] = stod( tokens[2] );
 }
 
-- 
2.43.0


From df4a37cf73eb3cec17b6d8e43b26cd147ee3f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:14 +0000
Subject: [PATCH 72/97] fix: the options of a fit have parameters that only
 look like parts of complex ones

---
 src/FitResult.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 21e2fef..a8c4637 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -391,9 +391,9 @@ void FitResult::writeOptions( std::ostream& output_stream, const std::string& in
       auto name = param->name(); 
       if( keys.count(name) ) continue; 
       if( name.find("_Re") != std::string::npos && m_mps->find( replaceAll( name, "_Re", "_Im") ) ) 
-        try_add_complex(replaceAll(name,"_Re","")); 
+        { if( !try_add_complex(replaceAll(name,"_Re","")) ) try_add_real(name); }
       else if( name.find("_Im") != std::string::npos && m_mps->find( replaceAll( name, "_Im", "_Re") ) ) 
-        try_add_complex(replaceAll(name,"_Re",""));
+        { if( !try_add_complex(replaceAll(name,"_Im","")) ) try_add_real(name); }
       else try_add_real(name); 
     }
   }
-- 
2.43.0


From 220f80046931bb1dba90bc26ab9fe2a166503667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:38 +0000
Subject: [PATCH 73/97] fix: interference fractions only pair the amplitudes of
 the sum itself

Without a prefix the rules for the head include those of every other
prefix, so processes of other sums were paired under the same names.
---
 src/CoherentSum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CoherentSum.cpp b/src/CoherentSum.cpp
index 08a56db..010348f 100644
--- a/src/CoherentSum.cpp
+++ b/src/CoherentSum.cpp
@@ -157,6 +157,7 @@ std::vector<FitFraction> CoherentSum::fitFractions(const LinearErrorPropagator&
     std::transform( fractions.begin(), fractions.end(), std::back_inserter(outputFractions),[](auto& p){ return p;} );
   };
   auto ffForHead = rules->rulesForDecay(m_eventType.mother(), m_prefix);
+  ffForHead.erase( std::remove_if( ffForHead.begin(), ffForHead.end(), [this](auto& p){ return p.prefix() != m_prefix; } ), ffForHead.end() );
   FitFractionCalculator<CoherentSum> iCalc(this, findIndices(m_matrixElements, m_eventType.mother()), recomputeIntegrals);
   for ( size_t i = 0; i < ffForHead.size(); ++i ) 
   {
-- 
2.43.0


From a4549926f33154cceaa28eb898648952ffdf8448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:01 +0000
Subject: [PATCH 74/97] fix: make the expression parser once, whoever uses it
 first

Threads that parsed their first expressions at the same time each made a
parser, and used the one another thread was still filling.
---
 AmpGen/ExpressionParser.h | 5 ++---
 src/ExpressionParser.cpp  | 2 --
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/AmpGen/ExpressionParser.h b/AmpGen/ExpressionParser.h
index 201c6a7..0949ed3 100644
--- a/AmpGen/ExpressionParser.h
+++ b/AmpGen/ExpressionParser.h
@@ -70,11 +70,10 @@ namespace AmpGen
       static Expression parse(std::vector<std::string>::const_iterator begin,
                               std::vector<std::string>::const_iterator end  ,
                                const MinuitParameterSet* mps = nullptr ); 
-      static ExpressionParser* gExpressionParser;
       static ExpressionParser* getMe()
       {
-        if ( !gExpressionParser ) gExpressionParser = new ExpressionParser();
-        return gExpressionParser;
+        static ExpressionParser* parser = new ExpressionParser();
+        return parser;
       }
     private:
       ExpressionParser();
diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 49edf95..e97d539 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -213,8 +213,6 @@ Expression ExpressionParser::parse(
   return getMe()->parseTokens(tokens.cbegin(), tokens.cend() , mps ); 
 }
 
-ExpressionParser* ExpressionParser::gExpressionParser = nullptr;
-
 Expression ExpressionParser::processEndPoint( const std::string& name, const MinuitParameterSet* mps )
 {
   bool status  = true;
-- 
2.43.0


From 8d6e47958bb8493dcbc2068f3f68fb8156b71056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:01 +0000
Subject: [PATCH 75/97] fix: report expressions that lack an operand or a
 bracket

An operator without its second operand, a function without argument, empty
brackets and a bracket opened by the last token were read beyond the end of
what had been parsed.
---
 src/ExpressionParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index e97d539..7d262f9 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -33,6 +33,7 @@ void ExpressionParser::processBinaryOperators( std::vector<std::string>& opCodes
   for ( auto& fcn : m_binaryFunctions ) {
     for ( int pos = 0; pos < int(opCodes.size()); ++pos ) {
       if ( opCodes[pos] != fcn.first ) continue;
+      if ( pos + 1 >= int(expressions.size()) ) FATAL( "Operator " << opCodes[pos] << " is missing an operand" );
       expressions[pos] = fcn.second( expressions[pos], expressions[pos + 1] );
       expressions.erase( expressions.begin() + pos + 1 );
       opCodes.erase( opCodes.begin() + pos );
@@ -47,6 +48,7 @@ void ExpressionParser::processUnaryOperators( std::vector<std::string>& opCodes,
     auto fcn = m_unaryFunctions.find( opCodes[pos] );
     DEBUG( " op = " << opCodes[pos] << " pos = " << pos );
     if ( fcn == m_unaryFunctions.end() ) continue;
+    if ( pos >= int(expressions.size()) ) FATAL( "Function " << opCodes[pos] << " is missing an argument" );
     expressions[pos] = fcn->second( expressions[pos] );
     opCodes.erase( opCodes.begin() + pos );
     pos--;
@@ -58,7 +60,6 @@ using iterator = std::vector<std::string>::const_iterator;
 template <char open= '(', char close = ')' > iterator findMatchingBracket(iterator begin, iterator end )
 {
   int openedBrackets = 1;
-  if( begin + 1 >= end ) return end; 
   for( auto it = begin+1; it != end; ++it )
   {
     openedBrackets += ( it->at(0) == open) -( it->at(0) == close );
@@ -80,7 +81,7 @@ std::vector< std::pair<iterator, iterator> > split_it( iterator begin, iterator
   rt.emplace_back(begin, begin);
   int b1l = 0;
   int b2l = 0;
-  for( auto it = begin; it != end-1; ++it )
+  for( auto it = begin; it < end-1; ++it )
   {
     b1l += ( it->at(0) == '(') - (it->at(0) == ')');
     b2l += ( it->at(0) == '{') - (it->at(0) == '}');
@@ -142,6 +143,7 @@ Expression ExpressionParser::parseTokens(std::vector<std::string>::const_iterato
   if( expressions.size() != 1 ){
     ERROR("Could not process expression: n = " << expressions.size() << " " << merge(begin, end) );
   }
+  if( expressions.empty() ) FATAL( "Empty expression" );
   return expressions[0];
 }
 
-- 
2.43.0


From db91052ca3ef369d5a6163b75d35a986093b5eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:45 +0000
Subject: [PATCH 76/97] fix: keep the expression of a parameter together in
 generated code

A parameter given by an expression was inserted without brackets, so that in
the product of a parameter with a sum only the first term was multiplied.
---
 src/ExpressionParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 7d262f9..b3c0a70 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -242,7 +242,7 @@ MinuitParameterLink::MinuitParameterLink( MinuitParameter* param ) : m_parameter
 std::string MinuitParameterLink::to_string(const ASTResolver* resolver) const
 {
   auto as_expression = dynamic_cast<const MinuitExpression*>( this->m_parameter );
-  if( as_expression != nullptr ) return as_expression->expression().to_string(resolver);
+  if( as_expression != nullptr ) return "(" + as_expression->expression().to_string(resolver) + ")";
 
   if( resolver == nullptr ) return m_parameter->name();
   if( resolver->enableCompileConstants() && m_parameter != nullptr && m_parameter->flag () == Flag::CompileTimeConstant )
-- 
2.43.0


From 48bbfdd47067de3c5301727234c811cf02e57422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:45 +0000
Subject: [PATCH 77/97] fix: compile expressions of parameters that are
 compile-time constants

Unless the option for such constants was set they were neither resolved nor
written out, and the generated code had a gap instead of a number; with the
option they were rounded to six decimal places.
---
 src/ExpressionParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index b3c0a70..1170700 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -246,7 +246,7 @@ std::string MinuitParameterLink::to_string(const ASTResolver* resolver) const
 
   if( resolver == nullptr ) return m_parameter->name();
   if( resolver->enableCompileConstants() && m_parameter != nullptr && m_parameter->flag () == Flag::CompileTimeConstant )
-    return std::to_string( m_parameter->mean() ); 
+    return "(" + mysprintf("%#.17g", m_parameter->mean()) + ")"; 
   return resolver->resolvedParameter(this);
 
 }
@@ -259,7 +259,7 @@ void MinuitParameterLink::resolve( ASTResolver& resolver ) const
 {
   auto as_expression = dynamic_cast<const MinuitExpression*>( this->m_parameter );
   if( as_expression != nullptr ) return as_expression->expression().resolve(resolver);
-  if( m_parameter->flag() != Flag::CompileTimeConstant ) resolver.resolve(*this);
+  if( !resolver.enableCompileConstants() || m_parameter->flag() != Flag::CompileTimeConstant ) resolver.resolve(*this);
 }
 
 complex_t MinuitParameterLink::operator()() const 
-- 
2.43.0


From 749f37949111248536695bb3f599e87906331a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:30 +0000
Subject: [PATCH 78/97] fix: use the complex value of a parameter that is given
 by an expression

Wherever one expression refers to another, as those of conjugate couplings do,
the imaginary part was dropped, although it is there in generated code.
---
 src/ExpressionParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 1170700..185719c 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -265,6 +265,8 @@ void MinuitParameterLink::resolve( ASTResolver& resolver ) const
 complex_t MinuitParameterLink::operator()() const 
 { 
   if( m_parameter == nullptr ) ERROR("Parameter does not have end-point");
+  auto as_expression = dynamic_cast<const MinuitExpression*>( m_parameter );
+  if( as_expression != nullptr ) return as_expression->getVal();
   return m_parameter->mean(); 
 }
 
-- 
2.43.0


From c5336a7bd33e9734d4eb2b545083a1f665ad1228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:10 +0000
Subject: [PATCH 79/97] fix: do not add a nameless conjugate for parameters
 that have none

Parameters that belong to no particle got a conjugate without a name, and a
complex parameter that is not the coupling of a decay was taken for a particle
that does not exist.
---
 src/AddCPConjugate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/AddCPConjugate.cpp b/src/AddCPConjugate.cpp
index c6ec1b3..9366f44 100644
--- a/src/AddCPConjugate.cpp
+++ b/src/AddCPConjugate.cpp
@@ -49,6 +49,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
     std::string new_name = ""; 
     int sgn=1;
     if ( reOrIm == "Re" || reOrIm == "Im" ){
+      if( ! Particle::isValidDecayDescriptor(pname) ) continue; 
       auto test_particle = Particle(pname);
       //DEBUG( test_particle.name() << "->" << test_particle ); 
       if( std::count( forbidden.begin(), forbidden.end(), test_particle.name() ) != 0 ){
@@ -65,6 +66,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
       auto props = AmpGen::ParticlePropertiesList::get(pname, true);
       if( props != 0  ) new_name = props->anti().name() + "_" + tokens[1]; 
     }
+    if( new_name == "" ) continue; 
     tmp.push_back( new MinuitExpression(new_name, sgn * MinuitParameterLink(param) )) ;  
   }
   for( auto& p : tmp ){
-- 
2.43.0


From ae4a773a96fa45050ce6dd5caefa597265a8bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 80/97] fix: accept a coupling with a prefix that is given by
 an expression

The prefix was taken for a part of the name of the particle, which then does
not exist.
---
 src/AmplitudeRules.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/AmplitudeRules.cpp b/src/AmplitudeRules.cpp
index ca0bec6..3431b4f 100644
--- a/src/AmplitudeRules.cpp
+++ b/src/AmplitudeRules.cpp
@@ -51,8 +51,15 @@ Coupling::Coupling(MinuitParameter* re, MinuitParameter* im) :
 
 Coupling::Coupling(MinuitExpression* expression) : 
   m_name(expression->name()),
-  m_expr(expression),
-  m_particle(m_name){}
+  m_expr(expression)
+{
+  auto tokens = split( m_name, '_' );
+  if ( tokens.size() == 2 ) {
+    m_prefix = tokens[0];
+    m_name   = tokens[1];
+  }
+  m_particle = Particle(m_name);
+}
 
 AmplitudeRules::AmplitudeRules(const MinuitParameterSet& mps)
 {
-- 
2.43.0


From d2670b9f0410d2c0ad5bf3a90c9dff148a03dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:19 +0000
Subject: [PATCH 81/97] fix: call the function of a precompiled library with
 its own signature

The sign that the final states with odd parity take is passed by reference,
and was given as a number that was then used as an address.
---
 apps/AmpGen.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/AmpGen.cpp b/apps/AmpGen.cpp
index 293d49a..9e23c0e 100644
--- a/apps/AmpGen.cpp
+++ b/apps/AmpGen.cpp
@@ -49,7 +49,7 @@ namespace AmpGen {
 struct FixedLibPDF 
 {
   void* lib = {nullptr};
-  DynamicFCN<double( const double*, int )> PDF;
+  DynamicFCN<double( const double*, const int& )> PDF;
   void debug( const Event& /*event*/) {};
   void prepare(){};
   void setEvents( AmpGen::EventList& /*evts*/ ){};
@@ -63,7 +63,7 @@ struct FixedLibPDF
   {
     void* handle = dlopen( lib.c_str(), RTLD_NOW );
     if ( handle == nullptr ) ERROR( dlerror() );
-    PDF = DynamicFCN<double( const double*, int )>( handle, "FCN" );
+    PDF = DynamicFCN<double( const double*, const int& )>( handle, "FCN" );
   }
   size_t size() { return 0; }
   void reset( const bool&  ){};
-- 
2.43.0


From bcbd965daf8f3f87db1232b21f7b060ed0b4a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:44 +0000
Subject: [PATCH 82/97] fix: generate incoherent models with the incoherent sum

---
 apps/AmpGen.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/AmpGen.cpp b/apps/AmpGen.cpp
index 9e23c0e..18ccd33 100644
--- a/apps/AmpGen.cpp
+++ b/apps/AmpGen.cpp
@@ -21,6 +21,7 @@
 #include "AmpGen/Utilities.h"
 #include "AmpGen/EventType.h"
 #include "AmpGen/CoherentSum.h"
+#include "AmpGen/IncoherentSum.h"
 #include "AmpGen/Generator.h"
 #include "AmpGen/MinuitParameterSet.h"
 #include "AmpGen/NamedParameter.h"
@@ -277,7 +278,7 @@ int main( int argc, char** argv )
     generateEvents(accepted, pdf, phspType , nEvents, blockSize, &rand );
   }
   else if ( pdfType == pdfTypes::IncoherentSum ){
-    CoherentSum pdf( eventType, MPS, "Inco");
+    IncoherentSum pdf( eventType, MPS, "Inco");
     if( pdf.size() == 0 ) FATAL("Requested model has no amplitudes") ;
     generateEvents(accepted, pdf, phspType , nEvents, blockSize, &rand );
   }
-- 
2.43.0


From 0db9adcdb9fdd62c313638d4d0d4b19953e729df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:42 +0000
Subject: [PATCH 83/97] fix: prepare models with spin before they are
 normalised

---
 apps/AmpGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/AmpGen.cpp b/apps/AmpGen.cpp
index 18ccd33..3f0b0e4 100644
--- a/apps/AmpGen.cpp
+++ b/apps/AmpGen.cpp
@@ -86,7 +86,7 @@ template <class T> void generateSource(T& pdf, const std::string& sourceFile, Mi
     Generator<PhaseSpace> phsp(pdf.eventType());
     phsp.setRandom(&rnd);
     EventList_t normEvents = phsp.generate(nEvents);
-    if constexpr( std::is_same<T, CoherentSum>::value ) pdf.prepare();
+    pdf.prepare();
     double pMax = 0;
     for ( auto& evt : normEvents ) 
     {
-- 
2.43.0


From 1e5ac193e2b84526b7137989e5ad0225a9608d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:42 +0000
Subject: [PATCH 84/97] fix: report that the output of the generator cannot be
 written

---
 apps/AmpGen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/AmpGen.cpp b/apps/AmpGen.cpp
index 3f0b0e4..6043705 100644
--- a/apps/AmpGen.cpp
+++ b/apps/AmpGen.cpp
@@ -298,6 +298,7 @@ int main( int argc, char** argv )
   }
   if( accepted.size() == 0 ) return -1;
   TFile* f = TFile::Open( outfile.c_str(), "RECREATE" );
+  if( f == nullptr ) FATAL("Cannot write output: " << outfile );
   accepted.tree( "DalitzEventList" )->Write();
   auto plots = accepted.makeDefaultProjections(PlotOptions::Bins(nBins), PlotOptions::LineColor(kBlack));
   for ( auto& plot : plots ) plot->Write();
-- 
2.43.0


From 4f2a53067e471352b0bee33ec23171f1d3d2de7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:42 +0000
Subject: [PATCH 85/97] fix: a selection that no entry passes gives no events
 instead of all

---
 src/EventList.cpp     | 5 +++++
 src/EventListSIMD.cpp | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/EventList.cpp b/src/EventList.cpp
index 00df275..cf715f7 100644
--- a/src/EventList.cpp
+++ b/src/EventList.cpp
@@ -120,10 +120,15 @@ void EventList::loadFromTree( TTree* tree, const ArgumentPack& args )
     tr.prepare();
     tree->Draw(">>evtList", filter.c_str() );
     TEventList* evtList = (TEventList*)gDirectory->Get("evtList");
+    entryList.clear();
     for( int i = 0 ; i < evtList->GetN(); ++i ) 
       entryList.push_back( evtList->GetEntry(i) );
   }
   if( entryList.size() != 0 ) tr.setEntryList( entryList );
+  else if( filter != "" ){
+    WARNING("No entries of the tree are selected");
+    return;
+  }
   m_data.reserve( tr.nEntries() );
   auto symmetriser = m_eventType.symmetriser();
   auto automaticOrdering = m_eventType.automaticOrdering();
diff --git a/src/EventListSIMD.cpp b/src/EventListSIMD.cpp
index 880b7f1..77fef61 100644
--- a/src/EventListSIMD.cpp
+++ b/src/EventListSIMD.cpp
@@ -110,9 +110,10 @@ void EventListSIMD::loadFromTree( TTree* tree, const ArgumentPack& args )
     tr.prepare();
     tree->Draw(">>evtList", filter.c_str() );
     TEventList* evtList = (TEventList*)gDirectory->Get("evtList");
+    entryList.clear();
     for( int i = 0 ; i < evtList->GetN(); ++i ) entryList.push_back( evtList->GetEntry(i) );
   }
-  bool hasEventList    = entryList.size() != 0;
+  bool hasEventList    = filter != "" || entryList.size() != 0;
   size_t nEvents       = hasEventList ? entryList.size() : tree->GetEntries();
   std::array<Event, real_v::size> buffer;
   
-- 
2.43.0


From fa33a7dd6442308d4e1a4b95bd40f84574b54a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:42 +0000
Subject: [PATCH 86/97] fix: order events of antiparticles with self-conjugate
 particles, and report ids that do not match

---
 src/EventType.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/EventType.cpp b/src/EventType.cpp
index 8b0e524..69edf28 100644
--- a/src/EventType.cpp
+++ b/src/EventType.cpp
@@ -243,35 +243,40 @@ std::function<void( Event& )> EventType::symmetriser() const
 
 std::function<bool(Event&, const std::vector<int>&)> EventType::automaticOrdering() const 
 {
-  std::vector<int> ids;
-  for( unsigned i = 0 ; i != m_particleNames.size(); ++i ) ids.push_back( ParticleProperties::get(m_particleNames[i])->pdgID() );
-  auto matches = [](const auto& c1, const auto& c2 , unsigned sgn = +1)
+  std::vector<int> particle_ids, anti_ids;
+  for( unsigned i = 0 ; i != m_particleNames.size(); ++i )
+  {
+    auto props = ParticleProperties::get(m_particleNames[i]);
+    particle_ids.push_back( props->pdgID() );
+    anti_ids.push_back( props->hasDistinctAnti() ? -props->pdgID() : props->pdgID() );
+  }
+  auto matches = [](const auto& c1, const auto& c2)
   {
     std::vector<bool> used( c1.size(), false );
     for(unsigned i = 0; i != c1.size(); ++i )
     {
       for( unsigned j = 0; j != c2.size(); ++j )
       {
-        if( c1[i] == sgn * c2[j] && ! used[j] ) used[j] = true;
+        if( c1[i] == c2[j] && ! used[j] ){ used[j] = true; break; }
       }
     }
     return std::all_of( std::begin(used), std::end(used), [](auto b) { return b; }  ) ;
   };
 
-  return [ids, matches](auto& event, const auto& actual_ids) -> bool {
-    std::vector<unsigned> new_addresses( ids.size(), 999 ); 
-    int sgn = +1; 
-    if( matches(ids, actual_ids ) ) sgn = +1;
-    else if( matches(ids, actual_ids, -1 ) ) sgn = -1;
-    else { ERROR("Ids: " << vectorToString(actual_ids, " ") << " do not match either particle or antiparticle ["<< vectorToString(ids, " ") << "]" );
+  return [particle_ids, anti_ids, matches](auto& event, const auto& actual_ids) -> bool {
+    std::vector<unsigned> new_addresses( particle_ids.size(), 999 ); 
+    bool particle = matches(particle_ids, actual_ids );
+    if( ! particle && ! matches(anti_ids, actual_ids ) )
+    {
+      ERROR("Ids: " << vectorToString(actual_ids, " ") << " do not match either particle or antiparticle ["<< vectorToString(particle_ids, " ") << "]" );
       return false; 
     }
-    
+    const auto& ids = particle ? particle_ids : anti_ids; 
     for( unsigned i = 0 ; i != ids.size(); ++i )
     {
       for( unsigned j = 0 ; j != actual_ids.size(); ++j )
       {
-        if( actual_ids[j] ==  sgn * ids[i] && new_addresses[j]==999 ){ new_addresses[j] = i; break ; }
+        if( actual_ids[j] == ids[i] && new_addresses[j]==999 ){ new_addresses[j] = i; break ; }
       }
     }
     event.reorder( new_addresses );
-- 
2.43.0


From 61e213146f241806cec4e62e98523c6ec885fdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:42 +0000
Subject: [PATCH 87/97] fix: the converter reports missing inputs, empty
 selections and outputs that cannot be written

---
 apps/DataConverter.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/apps/DataConverter.cpp b/apps/DataConverter.cpp
index d59511c..9146b58 100644
--- a/apps/DataConverter.cpp
+++ b/apps/DataConverter.cpp
@@ -59,25 +59,24 @@ int main( int argc, char* argv[] )
   std::vector<std::string> branches; 
   for( auto& particle : particles ) for(auto& bf : branchFormat) branches.push_back( mysprintf(bf, particle.c_str()));
 
+  if(inputFilename  == "") FATAL("No input specified in options" );
+  if(treeName       == "") FATAL("No tree specified in options" );
+  if(outputFilename == "") FATAL("No output specified in options" );
+
   INFO( "Reading file " << inputFilename );
   INFO( "Outputting file: " << outputFilename);
   TFile* f = TFile::Open( inputFilename.c_str(), "READ" );
+  if( f == nullptr ) FATAL(inputFilename + " not found" );
   INFO( "Reading tree " << treeName );
 
   TTree* in_tree = (TTree*)f->Get( treeName.c_str() );
+  if( in_tree == nullptr ) FATAL(treeName + " not found" );
   in_tree->SetBranchStatus( "*", 1 );
   for( auto& frie : friends ){
     auto tokens = split( frie, ':');
     in_tree->AddFriend( tokens[1].c_str(), tokens[0].c_str() );
   }
 
-
-  if(inputFilename  == "") FATAL("No input specified in options" );
-  if(treeName       == "") FATAL("No tree specified in options" );
-  if(outputFilename == "") FATAL("No output specified in options" );
-  if(f       == nullptr  ) FATAL(inputFilename + " not found" );
-  if(in_tree == nullptr  ) FATAL(treeName + " not found" );
-  
   INFO( "Got tree " << inputFilename << ":" << treeName );
   std::string cut = "";
   for( auto& i : cuts ) cut += i;
@@ -130,6 +129,7 @@ int main( int argc, char* argv[] )
     }
   }
 
+  if( eventsToTake.size() == 0 ) FATAL("No events selected from " << inputFilename );
   EventList evts( in_tree, evtType, Branches(branches), 
                                     EntryList(eventsToTake), 
                                     GetGenPdf(false), 
@@ -166,7 +166,9 @@ int main( int argc, char* argv[] )
     std::vector<Float_t> weights( particles.size(), 0 );
     for ( unsigned int i = 0; i < particles.size(); ++i ) {
       files.push_back( TFile::Open( ( stub_path + "/pidCalib_" + particles[i] + "_repacked.root" ).c_str() ) );
+      if( *files.rbegin() == nullptr ) FATAL( "Weights of " << particles[i] << " not found" );
       trees.push_back( (TTree*)( *files.rbegin() )->Get( "CalibTool_PIDCalibTree" ) );
+      if( *trees.rbegin() == nullptr ) FATAL( "Weights of " << particles[i] << " not found" );
       ( *trees.rbegin() )->SetBranchAddress( ( particles[i] + "_PIDCalibEffWeight" ).c_str(), &( weights[i] ) );
     }
     for ( unsigned int i = 0; i < eventsToTake.size(); ++i ) {
@@ -198,6 +200,7 @@ int main( int argc, char* argv[] )
   }
   INFO("Writing file: " << outputFilename);
   TFile* outputFile = TFile::Open( outputFilename.c_str(), "RECREATE" );
+  if( outputFile == nullptr ) FATAL("Cannot write output: " << outputFilename );
   INFO("Made file :-> " );
 
   TTree* outputTree = evts.tree("DalitzEventList");
@@ -206,6 +209,7 @@ int main( int argc, char* argv[] )
   INFO("Closing file...");
   outputFile->Close();
   TFile* outputPlotFile = TFile::Open( plotsName.c_str(), "RECREATE" );
+  if( outputPlotFile == nullptr ) FATAL("Cannot write plots: " << plotsName );
   auto projections = evtType.defaultProjections();
   for ( auto& p : projections ) {
     p( evts ) -> Write();
-- 
2.43.0


From 3a77c8484a788cc6b1c9b215554330a1a8154876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:20 +0000
Subject: [PATCH 88/97] fix: the fitter changes the units of the simulation
 only if those of the data are changed

---
 apps/Fitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/Fitter.cpp b/apps/Fitter.cpp
index b13451e..e639e89 100644
--- a/apps/Fitter.cpp
+++ b/apps/Fitter.cpp
@@ -222,12 +222,12 @@ int main( int argc, char* argv[] )
   EventList events( dataFile, !BAR ? evtType : evtType.conj() , Filter(cut) );
   EventList eventsMC = mcFile == "" ? EventList( evtType) : EventList( mcFile, !BAR ? evtType : evtType.conj(), Filter(simCut) ) ;
   
-    auto scale_transform = [](auto& event){ for( size_t x = 0 ; x < event.size(); ++x ) event[x] /= 1000.; };
+  auto scale_transform = [](auto& event){ for( size_t x = 0 ; x < event.size(); ++x ) event[x] /= 1000.; };
   if( NamedParameter<std::string>("Units", "GeV").getVal()  == "MeV") {
     INFO("Changing units from MeV -> GeV");
     events.transform( scale_transform );
-  }
     eventsMC.transform( scale_transform );
+  }
   
   INFO( "Data events: " << events.size() );  
   INFO( "MC events  : " << eventsMC.size() );
-- 
2.43.0


From b9f0547f4fa56ec09d7adef75641ce3f6d65807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:20 +0000
Subject: [PATCH 89/97] fix: the fitter keeps parameters that are released
 later fixed, and fits them once they are released

---
 apps/Fitter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/Fitter.cpp b/apps/Fitter.cpp
index e639e89..d3f4ebb 100644
--- a/apps/Fitter.cpp
+++ b/apps/Fitter.cpp
@@ -116,6 +116,7 @@ FitResult* doFit( PDF&& pdf, EventList& data, EventList& mc, MinuitParameterSet&
   }
   INFO( "Fitting PDF with " << pdf.nPDFs() << " components, iterating " << " " << nIterations + 1 << " times" );
   for ( unsigned int iteration = 0; iteration < nIterations + 1; ++iteration ) {
+    mini.prepare(); // parameters may have been fixed or released 
     mini.doFit();
     if ( iteration == 0 && nIterations != 0 ) {
       for ( auto& shape : threeBodyShapes ) shape.updateRunningWidth( MPS );
-- 
2.43.0


From bed08ca38d97cb7b6357fd556458b7a4f83f6dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:21 +0000
Subject: [PATCH 90/97] fix: the fitter reports missing fractions and plots
 that cannot be written

---
 apps/Fitter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/Fitter.cpp b/apps/Fitter.cpp
index d3f4ebb..35ff413 100644
--- a/apps/Fitter.cpp
+++ b/apps/Fitter.cpp
@@ -208,6 +208,9 @@ int main( int argc, char* argv[] )
   IncoherentSum bkg( evtType, MPS, "Inco" );
   CoherentSum misID( evtType.conj(true) , MPS );
 
+  for( const auto& name : {"fPDF", "fComb", "fMisID"} )
+    if( MPS.find(name) == nullptr ) FATAL("Fraction: " << name << " is not specified in options" );
+
   INFO( "fPDF = " << MPS["fPDF"]->mean() << " "
       << "fComb = " << MPS["fComb"]->mean() << " "
       << "fMisID = " << MPS["fMisID"]->mean() );
@@ -242,6 +245,7 @@ int main( int argc, char* argv[] )
   misID.setMC( eventsMC );
 
   TFile* output = TFile::Open( plotFile.c_str(), "RECREATE" );
+  if( output == nullptr ) FATAL("Cannot write plots: " << plotFile );
   output->cd();
   FitResult* fr = nullptr;
 
-- 
2.43.0


From fc9179965eeda1a41590571f0c2d96bf6315633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:29 +0000
Subject: [PATCH 91/97] fix: the fitter weights the simulation by the density
 at its own events in plots and chi2

---
 apps/Fitter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/apps/Fitter.cpp b/apps/Fitter.cpp
index 35ff413..dd6be7c 100644
--- a/apps/Fitter.cpp
+++ b/apps/Fitter.cpp
@@ -132,8 +132,9 @@ FitResult* doFit( PDF&& pdf, EventList& data, EventList& mc, MinuitParameterSet&
 
     unsigned int counter = 1;
     for_each( pdf.pdfs(), [&]( auto& f ) {
+        f.prepare();
         auto tStartIntegral2 = std::chrono::high_resolution_clock::now();
-        auto mc_plot3 = mc.makeProjections( mc.eventType().defaultProjections(100), WeightFunction(f), PlotOptions::Prefix("tMC_Category"+std::to_string(counter) ) );
+        auto mc_plot3 = mc.makeProjections( mc.eventType().defaultProjections(100), WeightFunction(f.evaluator()), PlotOptions::Prefix("tMC_Category"+std::to_string(counter) ) );
         auto tEndIntegral2   = std::chrono::high_resolution_clock::now();
         double t2            = std::chrono::duration<double, std::milli>( tEndIntegral2 - tStartIntegral2 ).count();
         INFO( "Time for plots = " << t2 );
@@ -145,7 +146,13 @@ FitResult* doFit( PDF&& pdf, EventList& data, EventList& mc, MinuitParameterSet&
         counter++;
         } );
   }
-  Chi2Estimator chi2( data, mc, pdf, MinEvents(15) );
+  std::vector<double> density( mc.size(), 0 ); // the pdfs themselves only know the events of the data
+  for_each( pdf.pdfs(), [&]( auto& f ) { 
+    f.prepare();
+    auto eval = f.evaluator();
+    for( unsigned i = 0 ; i != mc.size(); ++i ) density[i] += eval( mc[i] ); 
+  } );
+  Chi2Estimator chi2( data, mc, [&density]( const Event& evt ){ return density[evt.index()]; }, MinEvents(15) );
   fr->addChi2( chi2.chi2(), chi2.nBins() );
 
   auto twall_end  = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 81e411ec0592643d4d50833f2748ea39fabba24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:12 +0000
Subject: [PATCH 92/97] fix: the fitter runs without three-body widths to
 integrate

---
 apps/Fitter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/Fitter.cpp b/apps/Fitter.cpp
index dd6be7c..5dd83a3 100644
--- a/apps/Fitter.cpp
+++ b/apps/Fitter.cpp
@@ -49,7 +49,7 @@ using namespace AmpGen;
 
 std::vector<ThreeBodyCalculator> threeBodyCalculators( MinuitParameterSet& mps )
 {
-  std::vector<std::string> threeBodiesToIntegrate = NamedParameter<std::string>( "ThreeBodiesToIntegrate" ).getVector();
+  std::vector<std::string> threeBodiesToIntegrate = NamedParameter<std::string>( "ThreeBodiesToIntegrate", std::vector<std::string>() ).getVector();
   std::vector<ThreeBodyCalculator> calculators;
   for ( auto& v : threeBodiesToIntegrate ) calculators.emplace_back( v, mps );
   return calculators;
-- 
2.43.0


From 18975fa3191ae9c3e1edda18640155d528860f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:07 +0000
Subject: [PATCH 93/97] fix: the fitter bins events by as many coordinates as
 their decay has

---
 apps/Fitter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/Fitter.cpp b/apps/Fitter.cpp
index 5dd83a3..f8b0704 100644
--- a/apps/Fitter.cpp
+++ b/apps/Fitter.cpp
@@ -152,7 +152,7 @@ FitResult* doFit( PDF&& pdf, EventList& data, EventList& mc, MinuitParameterSet&
     auto eval = f.evaluator();
     for( unsigned i = 0 ; i != mc.size(); ++i ) density[i] += eval( mc[i] ); 
   } );
-  Chi2Estimator chi2( data, mc, [&density]( const Event& evt ){ return density[evt.index()]; }, MinEvents(15) );
+  Chi2Estimator chi2( data, mc, [&density]( const Event& evt ){ return density[evt.index()]; }, MinEvents(15), Dim(data.eventType().dof()) );
   fr->addChi2( chi2.chi2(), chi2.nBins() );
 
   auto twall_end  = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From bab74b85f798ae1921c9ed7f94626481f1979e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:52 +0000
Subject: [PATCH 94/97] fix: PolarisedSum components include the final-state
 polarisation fraction

---
 src/PolarisedSum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index de4f595..fb9b444 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -561,7 +561,8 @@ KeyedFunctors<double(Event)> PolarisedSum::componentEvaluator(const EventList_ty
           auto psiIndex  = (x-f) / s2;
           auto m2        = psiIndex % s1;
           auto m1        = (psiIndex-m2)/s1;
-          total          += this->m_rho[psiIndex] * ci * cache->get<complex_t>(event.index(),R * i + m1 * s2 + f) 
+          double polFrac = m_pfVector.size() == 0 ? 1 : f == 0 ? double(m_pfVector[0]) : 1 - double(m_pfVector[0]);
+          total          += polFrac * this->m_rho[psiIndex] * ci * cache->get<complex_t>(event.index(),R * i + m1 * s2 + f) 
                                        * std::conj( cj * cache->get<complex_t>(event.index(),R * j + m2 * s2 + f) );
         }
         return s * std::real(total);
-- 
2.43.0


From ec357980658b8a4f1c63f21a6f3822e3fe0ecc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:52 +0000
Subject: [PATCH 95/97] fix: exporting the model of a spin-1 decay read past
 the end of the polarisation vector

---
 src/PolarisedSum.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index fb9b444..af0c8e7 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -378,7 +378,9 @@ void PolarisedSum::generateSourceCode(const std::string& fname, const double& no
   functions.push_back( new CompiledExpression<double(const double*,  const int&)>( amp / normalisation, "FCN", m_mps, disableBatch(), includePythonBindings() ) ); 
 
   if( m_dim.first > 1 ) {
-    auto amp_extPol = probExpression(T_matrix, {Parameter("x2",0,true), Parameter("x3",0,true), Parameter("x4",0,true)}, {} );  
+    std::vector<Expression> extPol = {Parameter("x2",0,true), Parameter("x3",0,true), Parameter("x4",0,true)};
+    for( size_t i = 3; i < m_pVector.size(); ++i ) extPol.push_back( double(m_pVector[i]) ); 
+    auto amp_extPol = probExpression(T_matrix, extPol, {} );  
     functions.push_back( new CompiledExpression<double(const double*, const int&, const double&, const double&, const double&)>(amp_extPol / normalisation, "FCN_extPol", m_mps, disableBatch() ) );
   }
   CompilerWrapper().compile( functions, fname,{{"EventType", m_eventType.constructor_string()},{ "MatrixElements", matrixElementNames}}  );
-- 
2.43.0


From aba774da760e9269f58abd3e2bb5b4bba5b38d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:36 +0000
Subject: [PATCH 96/97] fix: a vectorised list read from several files kept
 only the events of the last one

---
 AmpGen/EventListSIMD.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/AmpGen/EventListSIMD.h b/AmpGen/EventListSIMD.h
index 35621b4..72375db 100644
--- a/AmpGen/EventListSIMD.h
+++ b/AmpGen/EventListSIMD.h
@@ -51,7 +51,12 @@ namespace AmpGen
     }
     template < class ... ARGS > EventListSIMD( const std::vector<std::string>& fname, const EventType& evtType, const ARGS&... args ) : EventListSIMD(evtType) 
     {
-      for( auto& f : fname ) loadFromFile( f, ArgumentPack(args...) );
+      EventList events( evtType );
+      for( auto& f : fname ){
+        loadFromFile( f, ArgumentPack(args...) ); // replaces the events of this list
+        for( const auto& event : *this ) events.push_back( event );
+      }
+      *this = EventListSIMD( events );
     }
     template < class ... ARGS > EventListSIMD( TTree* tree, const EventType& evtType, const ARGS&... args ) : EventListSIMD(evtType)
     {
-- 
2.43.0


From 34ec14f805a3df8560dd5c7ee6c217f4527e8bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:14 +0000
Subject: [PATCH 97/97] fix: exporting a model without amplitudes is reported
 instead of reading past an empty tensor

---
 src/CoherentSum.cpp  | 1 +
 src/PolarisedSum.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/CoherentSum.cpp b/src/CoherentSum.cpp
index 010348f..280deb1 100644
--- a/src/CoherentSum.cpp
+++ b/src/CoherentSum.cpp
@@ -176,6 +176,7 @@ std::vector<FitFraction> CoherentSum::fitFractions(const LinearErrorPropagator&
 
 void CoherentSum::generateSourceCode(const std::string& fname, const double& normalisation, bool add_mt)
 {
+  if( m_matrixElements.size() == 0 ) FATAL("No amplitudes to write to: " << fname );
   std::vector<CompiledExpressionBase*> functions; 
   transferParameters();
   Tensor rt( std::vector<unsigned>{unsigned(m_matrixElements.size())} ); 
diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index af0c8e7..83aacbc 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -346,6 +346,7 @@ void PolarisedSum::debug(const Event& evt)
 
 void PolarisedSum::generateSourceCode(const std::string& fname, const double& normalisation, bool add_mt)
 {
+  if( m_matrixElements.size() == 0 ) FATAL("No amplitudes to write to: " << fname );
   std::vector<CompiledExpressionBase*> functions; 
   unsigned size = m_dim.first * m_dim.second; 
   Tensor rt( Tensor::Dim(size * m_matrixElements.size()) ); 
-- 
2.43.0

