From 4778c9022803dd085a745ab444e739c99e934cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:17 +0000
Subject: [PATCH 01/78] fix: format long printf-style log messages from a fresh
 argument list

StringUtil::vform reused a consumed va_list when a message did not fit the
first 1024 byte buffer, so long messages were garbled, empty, or crashed.
---
 3rd/log4cpp/src/StringUtil.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/StringUtil.cpp b/3rd/log4cpp/src/StringUtil.cpp
index e30890a..bb1d8f2 100644
--- a/3rd/log4cpp/src/StringUtil.cpp
+++ b/3rd/log4cpp/src/StringUtil.cpp
@@ -39,7 +39,11 @@ namespace log4cpp {
 	char* buffer = new char[size];
             
 	while (1) {
-	    int n = VSNPRINTF(buffer, size, format, args);
+	    // every attempt needs its own copy, formatting consumes the list
+	    va_list attemptArgs;
+	    va_copy(attemptArgs, args);
+	    int n = VSNPRINTF(buffer, size, format, attemptArgs);
+	    va_end(attemptArgs);
                 
 	    // If that worked, return a string.
 	    if ((n > -1) && (static_cast<size_t>(n) < size)) {
-- 
2.43.0


From 7693643513a726666ffc5680d9afc61182fa603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:17 +0000
Subject: [PATCH 02/78] fix: do not share the broken-down time between threads
 formatting log lines

PatternLayout formatted %d from std::localtime's static buffer; two threads
logging to destinations of different categories could write each other's date.
---
 3rd/log4cpp/src/PatternLayout.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/3rd/log4cpp/src/PatternLayout.cpp b/3rd/log4cpp/src/PatternLayout.cpp
index 8f5db7f..2fd65dc 100644
--- a/3rd/log4cpp/src/PatternLayout.cpp
+++ b/3rd/log4cpp/src/PatternLayout.cpp
@@ -174,7 +174,13 @@ namespace log4cpp {
         virtual void append(std::ostringstream& out, const LoggingEvent& event) {
             struct tm *currentTime;
             time_t t = event.timeStamp.getSeconds();
+#ifdef WIN32
             currentTime = std::localtime(&t);
+#else
+            // std::localtime shares one static buffer between all threads
+            struct tm timeBuffer;
+            currentTime = ::localtime_r(&t, &timeBuffer);
+#endif
             char formatted[100];
             std::string timeFormat;
             if (_printMillis) {
-- 
2.43.0


From 984d51ee02485b94395af0812227bb819a62130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:31 +0000
Subject: [PATCH 03/78] fix: keep chained priorities consistent when levels
 change concurrently

Creating a category while another thread sets a level above it, or setting two
levels on one path at once, could leave an outdated chained priority behind.
---
 3rd/log4cpp/src/Category.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/3rd/log4cpp/src/Category.cpp b/3rd/log4cpp/src/Category.cpp
index bdf9d56..1e42669 100644
--- a/3rd/log4cpp/src/Category.cpp
+++ b/3rd/log4cpp/src/Category.cpp
@@ -20,6 +20,17 @@
 
 namespace log4cpp {
 
+    namespace {
+        /* Levels propagate from parents to children. Changing a level and
+           linking a new child must not interleave, otherwise a child can be
+           left with an outdated chained priority. Never destroyed, because
+           categories may be used until the very end of the program. */
+        threading::Mutex& priorityMutex() {
+            static threading::Mutex* mutex = new threading::Mutex();
+            return *mutex;
+        }
+    }
+
     Category& Category::getRoot() {
         return getInstance("");
     }
@@ -56,6 +67,7 @@ namespace log4cpp {
 		_chainedPriority(priority),
         _isAdditive(true) {
 		if (parent != NULL) {
+			threading::ScopedLock lock(priorityMutex());
 			if (_chainedPriority == Priority::NOTSET)
 				_chainedPriority = parent->getChainedPriority();
 			parent->_addChild( this );
@@ -68,6 +80,7 @@ namespace log4cpp {
 
     void Category::setPriority(Priority::Value priority)
     throw(std::invalid_argument) {
+        threading::ScopedLock priorityLock(priorityMutex());
         if (priority < Priority::NOTSET) 
             _priority = _chainedPriority = priority;
 		else
-- 
2.43.0


From 3a9df1cc5cc590c36a862c9b6062a237a5251d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:32 +0000
Subject: [PATCH 04/78] fix: unlink a destroyed FixedContextCategory from its
 parent

The parent kept a pointer to the destroyed object and wrote through it on the
next level change.
---
 3rd/log4cpp/include/log4cpp/Category.hh  |  5 +++++
 3rd/log4cpp/src/Category.cpp             | 10 ++++++++++
 3rd/log4cpp/src/FixedContextCategory.cpp |  1 +
 3 files changed, 16 insertions(+)

diff --git a/3rd/log4cpp/include/log4cpp/Category.hh b/3rd/log4cpp/include/log4cpp/Category.hh
index 1c60a00..c13b072 100644
--- a/3rd/log4cpp/include/log4cpp/Category.hh
+++ b/3rd/log4cpp/include/log4cpp/Category.hh
@@ -678,6 +678,11 @@ namespace log4cpp {
 		 */
 		void _addChild(Category* child) throw();
 
+		/**
+		 * Remove this category from the list of children of its parent.
+		 */
+		void _detachFromParent() throw();
+
 		/**
 		 * Propagate a change in the parent priority.
 		 */
diff --git a/3rd/log4cpp/src/Category.cpp b/3rd/log4cpp/src/Category.cpp
index 1e42669..59cb564 100644
--- a/3rd/log4cpp/src/Category.cpp
+++ b/3rd/log4cpp/src/Category.cpp
@@ -13,6 +13,7 @@
 #    include <unistd.h>
 #endif
 
+#include <algorithm>
 #include <log4cpp/Category.hh>
 #include <log4cpp/HierarchyMaintainer.hh>
 #include <log4cpp/NDC.hh>
@@ -262,6 +263,15 @@ namespace log4cpp {
 		threading::ScopedLock lock(_childrenListMutex);
 		_children.push_back(child);
 	}
+
+	void Category::_detachFromParent() throw() {
+		if (_parent != NULL) {
+			threading::ScopedLock priorityLock(priorityMutex());
+			threading::ScopedLock lock(_parent->_childrenListMutex);
+			ChildrenList& siblings = _parent->_children;
+			siblings.erase(std::remove(siblings.begin(), siblings.end(), this), siblings.end());
+		}
+	}
 	
     void Category::_logUnconditionally(Priority::Value priority, 
                                        const char* format, 
diff --git a/3rd/log4cpp/src/FixedContextCategory.cpp b/3rd/log4cpp/src/FixedContextCategory.cpp
index f447150..7ba01d1 100644
--- a/3rd/log4cpp/src/FixedContextCategory.cpp
+++ b/3rd/log4cpp/src/FixedContextCategory.cpp
@@ -20,6 +20,7 @@ namespace log4cpp {
     }
 
     FixedContextCategory::~FixedContextCategory() {
+        _detachFromParent();
     }
 
     void FixedContextCategory::setContext(const std::string& context) {
-- 
2.43.0


From 7a28e2373229c8cd0d7a25acbda88c158db5c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:45 +0000
Subject: [PATCH 05/78] fix: write log lines completely when a write is short
 or interrupted

FileAppender ignored the result of write(): an interrupted write lost the line
and a short write tore it.
---
 3rd/log4cpp/src/FileAppender.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/3rd/log4cpp/src/FileAppender.cpp b/3rd/log4cpp/src/FileAppender.cpp
index 7c8a67b..61d08ad 100644
--- a/3rd/log4cpp/src/FileAppender.cpp
+++ b/3rd/log4cpp/src/FileAppender.cpp
@@ -15,6 +15,7 @@
 #    include <unistd.h>
 #endif
 
+#include <errno.h>
 #include <stdio.h>
 #include <time.h>
 #include <log4cpp/FileAppender.hh>
@@ -76,8 +77,17 @@ namespace log4cpp {
 
     void FileAppender::_append(const LoggingEvent& event) {
         std::string message(_getLayout().format(event));
-        if (!::write(_fd, message.data(), message.length())) {
-            // XXX help! help!
+        const char* data = message.data();
+        std::string::size_type left = message.length();
+        // a write may be interrupted or accept only part of the line
+        while (left > 0) {
+            int written = ::write(_fd, data, left);
+            if (written > 0) {
+                data += written;
+                left -= written;
+            } else if (written == 0 || errno != EINTR) {
+                break; // XXX help! help!
+            }
         }
     }
 
-- 
2.43.0


From 6eb99c764a6ca26ac63d6fbb8314e68c5e72667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:45 +0000
Subject: [PATCH 06/78] fix: do not lose log lines while a file destination is
 reopened

reopen() closed the descriptor before installing the new one, so lines written
by other threads in between went to a closed or foreign descriptor.
---
 3rd/log4cpp/src/FileAppender.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/3rd/log4cpp/src/FileAppender.cpp b/3rd/log4cpp/src/FileAppender.cpp
index 61d08ad..3956b2c 100644
--- a/3rd/log4cpp/src/FileAppender.cpp
+++ b/3rd/log4cpp/src/FileAppender.cpp
@@ -97,10 +97,15 @@ namespace log4cpp {
             if (fd < 0)
                 return false;
             else {
-	        if (_fd != -1)
-                    ::close(_fd);
-                _fd = fd;
-                return true;
+	        if (_fd == -1) {
+                    _fd = fd;
+                    return true;
+                }
+                // replace the file behind the descriptor in one step, other
+                // threads may be writing to it
+                bool replaced = ::dup2(fd, _fd) != -1;
+                ::close(fd);
+                return replaced;
             }
         } else {
             return true;
-- 
2.43.0


From 470a079f9a1e27bb99fefa1cdae0d2ccc32f783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:41 +0000
Subject: [PATCH 07/78] fix: send remote syslog messages to the configured host

Only the first byte of the resolved address was copied.
---
 3rd/log4cpp/src/RemoteSyslogAppender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/RemoteSyslogAppender.cpp b/3rd/log4cpp/src/RemoteSyslogAppender.cpp
index fff7723..89ff326 100644
--- a/3rd/log4cpp/src/RemoteSyslogAppender.cpp
+++ b/3rd/log4cpp/src/RemoteSyslogAppender.cpp
@@ -108,7 +108,7 @@ namespace log4cpp {
                     return; // fail silently                    
                 }
             }
-	    _ipAddr = *(pent->h_addr);
+	    memcpy (&_ipAddr, pent->h_addr, sizeof(_ipAddr));
 	}
 	// Get a datagram socket.
 	
-- 
2.43.0


From 62d1f81477674bb0c350ba737aa26ae6595878ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:41 +0000
Subject: [PATCH 08/78] fix: do not use descriptor 0 when a remote syslog
 socket could not be opened

The not-open state was 0, a valid descriptor: messages were sent to and
descriptor -1 or a socket numbered 0 was (not) closed.
---
 3rd/log4cpp/src/RemoteSyslogAppender.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/3rd/log4cpp/src/RemoteSyslogAppender.cpp b/3rd/log4cpp/src/RemoteSyslogAppender.cpp
index 89ff326..866e565 100644
--- a/3rd/log4cpp/src/RemoteSyslogAppender.cpp
+++ b/3rd/log4cpp/src/RemoteSyslogAppender.cpp
@@ -61,7 +61,7 @@ namespace log4cpp {
 	_relayer(relayer),
         _facility((facility == -1) ? LOG_USER : facility),
 	_portNumber((portNumber == -1) ? 514 : portNumber),
-	_socket (0),
+	_socket (-1),
 	_ipAddr (0),
 	_cludge (0)
     {
@@ -119,17 +119,20 @@ namespace log4cpp {
     }
 
     void RemoteSyslogAppender::close() {
-	if (_socket) {
+	if (_socket != -1) {
 #ifdef WIN32
 	    closesocket (_socket);
 #else
 	    ::close (_socket);
 #endif
-	    _socket = 0;
+	    _socket = -1;
 	}
     }
 
     void RemoteSyslogAppender::_append(const LoggingEvent& event) {
+	if (_socket == -1)
+	    return; // could not be opened, fail silently
+
 	const std::string message(_getLayout().format(event));
         size_t messageLength = message.length();
 	char *buf = new char [messageLength + 16];
-- 
2.43.0


From f138bd090dd0a6fc5f415fb784d38beab15c9ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:36 +0000
Subject: [PATCH 09/78] fix: read log configuration lines of any length

A line of 256 or more characters made the stream fail, and the rest of the
configuration file was silently ignored.
---
 3rd/log4cpp/src/Properties.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/3rd/log4cpp/src/Properties.cpp b/3rd/log4cpp/src/Properties.cpp
index e27c2cb..94e3297 100644
--- a/3rd/log4cpp/src/Properties.cpp
+++ b/3rd/log4cpp/src/Properties.cpp
@@ -23,12 +23,9 @@ namespace log4cpp {
 
         std::string fullLine, command;
         std::string leftSide, rightSide;
-        char line[256];
         std::string::size_type length;
 
-        while (in.getline(line, 256)) {
-            fullLine = line;
-
+        while (std::getline(in, fullLine)) {
             /* if the line contains a # then it is a comment
                if we find it anywhere other than the beginning, then we assume 
                there is a command on that line, and it we don't find it at all
-- 
2.43.0


From 7a2c3a79ff163142122298e7bba03d0070d857bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:36 +0000
Subject: [PATCH 10/78] fix: treat a log configuration without a usable root
 level as a configuration error

The std::invalid_argument thrown for the root category escaped an exception
specification and terminated the program instead of falling back to defaults.
---
 3rd/log4cpp/src/PropertyConfiguratorImpl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
index 90d0815..dcd5d53 100644
--- a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
+++ b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
@@ -162,7 +162,12 @@ namespace log4cpp {
             }
         }
 
-        category.setPriority(priority);
+        try {
+            category.setPriority(priority);
+        } catch(std::invalid_argument& e) {
+            throw ConfigureFailure(std::string(e.what()) + 
+                " for category '" + categoryName + "'");
+        }
 
         bool additive = _properties.getBool("additivity." + categoryName, true);
         category.setAdditivity(additive);
-- 
2.43.0


From 33f2c99b04f923efc60247cb8bd6ffdc035db601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:50 +0000
Subject: [PATCH 11/78] fix: do not use a log configuration that could only be
 read in part

---
 3rd/log4cpp/src/PropertyConfiguratorImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
index dcd5d53..59c5fd2 100644
--- a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
+++ b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
@@ -76,6 +76,9 @@ namespace log4cpp {
     void PropertyConfiguratorImpl::doConfigure(std::istream& in) throw (ConfigureFailure) {
         // parse the file to get all of the configuration
         _properties.load(in);
+        if (in.bad()) {
+            throw ConfigureFailure(std::string("Error while reading the configuration"));
+        }
 
         instantiateAllAppenders();
         // get categories
-- 
2.43.0


From aab1341d7599da19dc104e20b6aee268d1491214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:35 +0000
Subject: [PATCH 12/78] fix: report unreadable calibration measurements with a
 Ubitrack exception

The archive header was read outside the try block, so a damaged or empty file
raised a boost exception instead.
---
 src/utUtil/CalibFile.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 5349785..8f0c155 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -115,10 +115,10 @@ void readCalibFile( const std::string& sFile, Measurement::Measurement< T >& res
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
     try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
+
 	    // read data
 	    archive >> result;
     } catch (std::exception& ) {
@@ -146,10 +146,10 @@ void readCalibFileDropMeasurement( const std::string& sFile, T& result )
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
 	try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
+
 	    // read data
 	    archive >> interResult;
     } catch (std::exception& ) {
-- 
2.43.0


From a73ffd0ae8003a1118105e2c6e09fa5c5761ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 13/78] fix: report calibration files that could not be written
 completely

---
 src/utUtil/CalibFile.h | 46 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 8f0c155..0192f95 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -173,11 +173,26 @@ void writeCalibFile( const std::string& sFile, const T& data )
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for writing" );
 
-	// create iarchive
-	boost::archive::text_oarchive archive( stream );
+	try {
+		// create oarchive
+		boost::archive::text_oarchive archive( stream );
+
+		// write data
+		archive << data;
+	}
+	catch (std::exception& ) {
+		stream.setstate( std::ios::badbit );
+	}
 
-	// read data
-	archive << data;
+	// make sure that everything has arrived in the file
+	try {
+		stream.close();
+	}
+	catch (std::exception& ) {
+		stream.setstate( std::ios::badbit );
+	}
+	if ( !stream.good() )
+		UBITRACK_THROW( "Could not write file " + sFile );
 }
 
 /**
@@ -193,11 +208,26 @@ void writeBinaryCalibFile(const std::string& sFile, const T& data)
 	if (!stream.good())
 		UBITRACK_THROW("Could not open file " + sFile + " for writing");
 
-	// create iarchive
-	boost::archive::binary_oarchive archive(stream);
+	try {
+		// create oarchive
+		boost::archive::binary_oarchive archive(stream);
+
+		// write data
+		archive << data;
+	}
+	catch (std::exception& ) {
+		stream.setstate( std::ios::badbit );
+	}
 
-	// read data
-	archive << data;
+	// make sure that everything has arrived in the file
+	try {
+		stream.close();
+	}
+	catch (std::exception& ) {
+		stream.setstate( std::ios::badbit );
+	}
+	if ( !stream.good() )
+		UBITRACK_THROW( "Could not write file " + sFile );
 }
 } } // namespace Ubitrack::Util
 
-- 
2.43.0


From 67ea2ce96a631ecc36bdb0a19360e46c56d529a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 14/78] fix: keep all radial distortion parameters of a camera
 when it is saved

---
 src/utMath/CameraIntrinsics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index da35e1b..5623bea 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -155,7 +155,7 @@ public:
 		: calib_type( OPENCV_3_2 )
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
-		, radial_size( 2 )
+		, radial_size( 3 )
 		, radial_params( radial_type::zeros() )
 		, tangential_params( _tangential )
 		{
@@ -181,6 +181,7 @@ public:
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
 		, radial_size( 4 )
+		, radial_params( radial_type::zeros() )
 		, tangential_params( tangential_type::zeros() )
 		{
 			radial_params( 0 ) = _radial( 0 );
-- 
2.43.0


From 690adbca26a286d543451e3c4a42cc5d2d02eee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 15/78] fix: reject cameras with more radial distortion
 parameters than there is room for

---
 src/utMath/CameraIntrinsics.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index 5623bea..8509487 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -43,6 +43,7 @@
 //Ubitrack
 #include <utMath/Vector.h>
 #include <utMath/Matrix.h>
+#include <utUtil/Exception.h>
 
 namespace Ubitrack { namespace Math {
 
@@ -287,6 +288,8 @@ protected:
 		ar & dimension( 0 );
 		ar & dimension( 1 );		
 		ar & radial_size;
+		if( radial_size > 6 )
+			UBITRACK_THROW( "Invalid number of radial distortion parameters" );
 		
 		for( std::size_t i = 0; i < radial_size; ++i )
 			ar & radial_params[ i ];
-- 
2.43.0


From 10a8e7fb41dd091ce3a730515fecc4ed1384cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:12 +0000
Subject: [PATCH 16/78] fix: notice a failed write before the calibration
 archive is closed

---
 src/utUtil/CalibFile.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 0192f95..ebbeee7 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -179,6 +179,7 @@ void writeCalibFile( const std::string& sFile, const T& data )
 
 		// write data
 		archive << data;
+		stream.flush();
 	}
 	catch (std::exception& ) {
 		stream.setstate( std::ios::badbit );
@@ -214,6 +215,7 @@ void writeBinaryCalibFile(const std::string& sFile, const T& data)
 
 		// write data
 		archive << data;
+		stream.flush();
 	}
 	catch (std::exception& ) {
 		stream.setstate( std::ios::badbit );
-- 
2.43.0


From 29827ee5671987d914dd4106ba68fd619f07ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:48 +0000
Subject: [PATCH 17/78] fix: take the value of a msgpack measurement from its
 second element

---
 src/utSerialization/MsgpackSerializer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index bb0231e..2b22f72 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -132,12 +132,12 @@ template<typename T>
 struct as<Ubitrack::Measurement::Measurement<T>, typename std::enable_if<msgpack::has_as<T>::value>::type> {
   Ubitrack::Measurement::Measurement<T> operator()(msgpack::object const& o) const
   {
-      if (o.is_nil()) return nullptr;
+      if (o.is_nil()) return Ubitrack::Measurement::Measurement<T>();
       if (o.type!=msgpack::type::ARRAY) throw msgpack::type_error();
       if (o.via.array.size!=2) throw msgpack::type_error();
       return Ubitrack::Measurement::Measurement<T>(
               o.via.array.ptr[0].as<unsigned long long>(),
-              boost::shared_ptr<T>(o.via.array.ptr[0].as<T>())
+              o.via.array.ptr[1].as<T>()
       );
   }
 };
-- 
2.43.0


From 4835dd75e8d91c12e6565c01bb33fa1470a0d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:48 +0000
Subject: [PATCH 18/78] fix: read non-square matrices from msgpack in the order
 they are written

---
 src/utSerialization/MsgpackSerializer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 2b22f72..63969eb 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -334,7 +334,7 @@ struct as<Ubitrack::Math::Matrix<T, M, N>, typename std::enable_if<msgpack::has_
       Ubitrack::Math::Matrix<T, M, N> result(M, N);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               result(i,j) = o.via.array.ptr[idx].as<T>();
           }
       }
@@ -357,7 +357,7 @@ struct convert<Ubitrack::Math::Matrix<T, M, N> > {
       }
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
 			  msgpack::adaptor::convert<T>()(o.via.array.ptr[idx], v(i, j));
               //v(i,j) = o.via.array.ptr[idx].as<T>();
           }
@@ -379,7 +379,7 @@ struct pack<Ubitrack::Math::Matrix<T, M, N> > {
       o.pack_array((uint32_t)num_elements);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               o.pack(v(i,j));
           }
       }
@@ -402,7 +402,7 @@ struct object_with_zone<Ubitrack::Math::Matrix<T, M, N> > {
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               o.via.array.ptr[idx] = msgpack::object(v(i,j), o.zone);
           }
       }
-- 
2.43.0


From 1aaab75078c7fb8a467a6cdf02ba60cd0b7fce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:48 +0000
Subject: [PATCH 19/78] fix: convert all elements of a vector to a msgpack
 object

---
 src/utSerialization/MsgpackSerializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 63969eb..47cd0fe 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -309,7 +309,7 @@ struct object_with_zone<Ubitrack::Math::Vector<T, N> > {
       o.via.array.ptr = static_cast<msgpack::object*>(
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<num_elements; ++i) {
-          o.via.array.ptr[0] = msgpack::object(v(i), o.zone);
+          o.via.array.ptr[i] = msgpack::object(v(i), o.zone);
       }
   }
 };
-- 
2.43.0


From 97b7babdf9944a39cb7b68ed55788681b4355fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:08 +0000
Subject: [PATCH 20/78] fix: report msgpack messages that have not arrived
 completely

---
 src/utSerialization/MsgpackSerializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 47cd0fe..753901f 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -75,7 +75,7 @@ struct MsgpackSerializationFormat {
           msgpack::object obj = oh.get();
           obj.convert<T>(t);
       } else {
-          // throw ??
+          UBITRACK_THROW("Incomplete msgpack message");
       }
   }
 
-- 
2.43.0


From a61596bba202c35ff1eb02490f33bca85a4043b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:47 +0000
Subject: [PATCH 21/78] fix: reject msgpack cameras of an unknown kind or with
 too many parameters

---
 src/utSerialization/MsgpackSerializer.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 753901f..cedaa24 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -712,10 +712,13 @@ struct as<Ubitrack::Math::CameraIntrinsics<T> > {
       if (o.type!=msgpack::type::ARRAY) throw msgpack::type_error();
       if (o.via.array.size != 6) throw msgpack::type_error();
       Ubitrack::Math::CameraIntrinsics<T> result;
-      result.calib_type = static_cast<typename Ubitrack::Math::CameraIntrinsics<T>::CalibType>(o.via.array.ptr[0].as<int>());
+      const int calib_type = o.via.array.ptr[0].as<int>();
+      if ((calib_type < 0) || (calib_type > Ubitrack::Math::CameraIntrinsics<T>::OPENCV_4_0_FISHEYE)) throw msgpack::type_error();
+      result.calib_type = static_cast<typename Ubitrack::Math::CameraIntrinsics<T>::CalibType>(calib_type);
       result.dimension = o.via.array.ptr[1].as<Ubitrack::Math::Vector< std::size_t, 2 > >();
       result.matrix = o.via.array.ptr[2].as<Ubitrack::Math::Matrix< T, 3, 3 > >();
       result.radial_size = o.via.array.ptr[3].as<std::size_t>();
+      if (result.radial_size > 6) throw msgpack::type_error();
       result.radial_params = o.via.array.ptr[4].as<Ubitrack::Math::Vector< T, 6 > >();
       result.tangential_params = o.via.array.ptr[5].as<Ubitrack::Math::Vector< T, 2 > >();
       return result;
@@ -731,10 +734,12 @@ struct convert<Ubitrack::Math::CameraIntrinsics<T> > {
       if (o.via.array.size != 6) throw msgpack::type_error();
 	  int calib_type;
 	  msgpack::adaptor::convert<int>()(o.via.array.ptr[0], calib_type);
+      if ((calib_type < 0) || (calib_type > Ubitrack::Math::CameraIntrinsics<T>::OPENCV_4_0_FISHEYE)) throw msgpack::type_error();
       v.calib_type = static_cast<typename Ubitrack::Math::CameraIntrinsics<T>::CalibType>(calib_type);
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector<std::size_t, 2> >()(o.via.array.ptr[1], v.dimension);
 	  msgpack::adaptor::convert<Ubitrack::Math::Matrix< T, 3, 3 > >()(o.via.array.ptr[2], v.matrix);
 	  msgpack::adaptor::convert<std::size_t >()(o.via.array.ptr[3], v.radial_size);
+      if (v.radial_size > 6) throw msgpack::type_error();
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector< T, 6 > >()(o.via.array.ptr[4], v.radial_params);
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector< T, 2 > >()(o.via.array.ptr[5], v.tangential_params);
       return o;
-- 
2.43.0


From 5df4213e36c48481594490d40547ae21fb476791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:44 +0000
Subject: [PATCH 22/78] fix: apply the configured data bits and parity to
 serial ports

---
 src/utUtil/SerialPort.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 8f15fc1..6c25dd1 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -300,13 +300,15 @@ void SerialPort::open( int vtime, int vmin )
 
 	m_termiosOriginal = m_termiosCurrent;
 
-	m_termiosCurrent.c_cflag = baud | size | parity | stop | CLOCAL | CREAD;
 	m_termiosCurrent.c_oflag = 0;
 	m_termiosCurrent.c_iflag = IGNBRK | IGNPAR;
 	m_termiosCurrent.c_lflag = 0;
 
 	cfmakeraw( &m_termiosCurrent );
 
+	// must follow cfmakeraw, which selects 8 data bits without parity
+	m_termiosCurrent.c_cflag = baud | size | parity | stop | CLOCAL | CREAD;
+
 	m_termiosCurrent.c_cc[VTIME] = vtime;
 	m_termiosCurrent.c_cc[VMIN]  = vmin;
 
-- 
2.43.0


From d8827dd001670ea2d807a925b69aec73df4cd675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:44 +0000
Subject: [PATCH 23/78] fix: mark a serial port as closed when it has been
 closed

---
 src/utUtil/SerialPort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 6c25dd1..e08447c 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -334,6 +334,7 @@ void SerialPort::close()
 	}
 
 	::close( m_fileDescriptor );
+	m_portOpen = false;
 }
 
 unsigned long SerialPort::read( unsigned char* buffer, unsigned long size )
-- 
2.43.0


From 2ad68062cb3334e8ef7f32ef31520a4f94d6a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:44 +0000
Subject: [PATCH 24/78] fix: do not leak the descriptor of a serial port that
 cannot be configured

---
 src/utUtil/SerialPort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index e08447c..25adcbd 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -296,7 +296,10 @@ void SerialPort::open( int vtime, int vmin )
 		UBITRACK_THROW( "Cannot open special file" );
 
 	if ( tcgetattr( m_fileDescriptor, &m_termiosCurrent ) )
+	{
+		::close( m_fileDescriptor );
 		UBITRACK_THROW( "Cannot get port parameter" );
+	}
 
 	m_termiosOriginal = m_termiosCurrent;
 
@@ -316,7 +319,10 @@ void SerialPort::open( int vtime, int vmin )
 	cfsetispeed( &m_termiosCurrent, baud );
 
 	if ( tcsetattr( m_fileDescriptor, TCSANOW, &m_termiosCurrent ) < 0 )
+	{
+		::close( m_fileDescriptor );
 		UBITRACK_THROW( "Cannot set port parameter" );
+	}
 
 	m_portOpen = true;
 }
-- 
2.43.0


From 913c39064388cb7dcb8af334b4099c9fc3691c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:44 +0000
Subject: [PATCH 25/78] fix: report failing serial port writes and queries

---
 src/utUtil/SerialPort.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 25adcbd..e8eca34 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -367,6 +367,9 @@ unsigned long SerialPort::send( const unsigned char* buffer, unsigned long size
 
 	writtenBytes = write ( m_fileDescriptor, buffer, size );
 
+	if ( writtenBytes < 0 )
+		UBITRACK_THROW( "Error writing bytes" );
+
 	return writtenBytes;
 }
 
@@ -376,7 +379,8 @@ unsigned long SerialPort::bytesOnRead()
 		UBITRACK_THROW( "Port is not open" );
 
 	int onread;
-	ioctl( m_fileDescriptor, FIONREAD, (char*) &onread );
+	if ( ioctl( m_fileDescriptor, FIONREAD, (char*) &onread ) < 0 )
+		UBITRACK_THROW( "Error querying available bytes" );
 
 	return onread;
 }
-- 
2.43.0


From 2e3cc517d21ec383cafd7c359a30a1aac9b8c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:44 +0000
Subject: [PATCH 26/78] fix: do not use an arbitrary descriptor when a serial
 port is not open

---
 src/utUtil/SerialPort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index e8eca34..3bc9bdc 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -387,11 +387,17 @@ unsigned long SerialPort::bytesOnRead()
 
 void SerialPort::sendBreak()
 {
+	if ( !m_portOpen )
+		UBITRACK_THROW( "Port is not open" );
+
 	tcsendbreak( m_fileDescriptor, 0 );
 }
 
 void SerialPort::flush()
 {
+	if ( !m_portOpen )
+		UBITRACK_THROW( "Port is not open" );
+
 	tcflush( m_fileDescriptor, TCIOFLUSH );
 }
 
-- 
2.43.0


From 7c2b2700cc17c6f49a14e292f02b8399a4d7ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:14 +0000
Subject: [PATCH 27/78] fix: sleep for the whole requested time

---
 src/utUtil/OS.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/utUtil/OS.cpp b/src/utUtil/OS.cpp
index 95e3627..ad20d63 100644
--- a/src/utUtil/OS.cpp
+++ b/src/utUtil/OS.cpp
@@ -33,6 +33,7 @@
 #ifdef WIN32
 #include "CleanWindows.h"
 #else
+#include <errno.h>
 #include <time.h>
 #include <sys/time.h>
 #endif
@@ -67,9 +68,17 @@ double getHighPerformanceFrequency()
 void sleep( unsigned ms, unsigned ns )
 {	
 	timespec t;
-	t.tv_sec = ms / 1000;
-	t.tv_nsec = ( ms % 1000 ) * 1000000 + ns;
-	nanosleep( &t, NULL );
+	t.tv_sec = ms / 1000 + ns / 1000000000;
+	t.tv_nsec = ( ms % 1000 ) * 1000000 + ns % 1000000000;
+	if ( t.tv_nsec >= 1000000000 )
+	{
+		t.tv_sec++;
+		t.tv_nsec -= 1000000000;
+	}
+
+	// continue with the remaining time when interrupted by a signal
+	while ( nanosleep( &t, &t ) != 0 && errno == EINTR )
+		;
 }
 
 
-- 
2.43.0


From ce809497c93bb839bb16a43250670b25f10f5ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:46 +0000
Subject: [PATCH 28/78] fix: use the elapsed time in the derivative of a
 rotation by its velocity

---
 src/utTracking/Function/QuaternionTimeUpdate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utTracking/Function/QuaternionTimeUpdate.h b/src/utTracking/Function/QuaternionTimeUpdate.h
index ddf6a1e..c051a12 100644
--- a/src/utTracking/Function/QuaternionTimeUpdate.h
+++ b/src/utTracking/Function/QuaternionTimeUpdate.h
@@ -75,7 +75,6 @@ public:
 		{
 			Math::RotationVelocity v( ublas::subrange( input, 4 + 3 * i, 4 + 3 * ( i + 1 ) ) );
 			r = r * v.integrate( t );
-			t *= m_deltaTime;
 			
 			jacobian( 0, 4 + i * 3 + 0 ) =  t * q.w() / 2;
 			jacobian( 0, 4 + i * 3 + 1 ) = -t * q.z() / 2;
@@ -92,6 +91,8 @@ public:
 			jacobian( 3, 4 + i * 3 + 0 ) = -t * q.x() / 2;
 			jacobian( 3, 4 + i * 3 + 1 ) = -t * q.y() / 2;
 			jacobian( 3, 4 + i * 3 + 2 ) = -t * q.z() / 2;
+
+			t *= m_deltaTime;
 		}
 		
 		r.toVector( result );
-- 
2.43.0


From ab0b81f22938e1b189b639d3e110964cad05eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:46 +0000
Subject: [PATCH 29/78] fix: integrate rotation velocities to unit quaternions

---
 src/utMath/Optimization/Function/RotationVelocityIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/Function/RotationVelocityIntegration.h b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
index ea504aa..55a8e87 100644
--- a/src/utMath/Optimization/Function/RotationVelocityIntegration.h
+++ b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
@@ -72,7 +72,7 @@ struct RotationVelocityIntegration
 		typedef typename VT1::value_type T;
 		T fNorm = boost::numeric::ublas::norm_2( q );
 		T s;
-		if ( fabs( fNorm * m_dt ) > 1e12 )
+		if ( fabs( fNorm * m_dt ) > 1e-12 )
 			s = sin( fNorm * m_dt * T( 0.5 ) ) / fNorm;
 		else
 			s = m_dt * T( 0.5 );
-- 
2.43.0


From 2cf9be51337e91ac376c9f063539764f9e6083fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:46 +0000
Subject: [PATCH 30/78] fix: predict rotations for times before the last
 measurement

---
 src/utTracking/RotationOnlyKf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/RotationOnlyKf.cpp b/src/utTracking/RotationOnlyKf.cpp
index b0af0fa..3419d25 100644
--- a/src/utTracking/RotationOnlyKf.cpp
+++ b/src/utTracking/RotationOnlyKf.cpp
@@ -126,7 +126,7 @@ void RotationOnlyKF::timeUpdate( Measurement::Timestamp t )
 Measurement::Rotation RotationOnlyKF::predict( Measurement::Timestamp t )
 {
 	// time update: forward filter to requested timestamp
-	double dt = ( t - m_time ) * 1e-9;
+	double dt = ( (long long int)( t - m_time ) ) * 1e-9;
 	Math::ErrorVector< double, 4 > result = Math::Stochastic::transformWithCovariance< 4, 7 >( Function::QuaternionTimeUpdate( dt ), m_state );
 	
 	return Measurement::Rotation( t, Math::Quaternion::fromVector( result.value ).normalize() );
-- 
2.43.0


From 1a6cbbaeeb71c02039ad677fb27a5235ec0c5f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:55 +0000
Subject: [PATCH 31/78] fix: keep the covariance of Kalman filters symmetric

---
 src/utMath/Stochastic/Kalman.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utMath/Stochastic/Kalman.h b/src/utMath/Stochastic/Kalman.h
index a3bf96c..46437ca 100644
--- a/src/utMath/Stochastic/Kalman.h
+++ b/src/utMath/Stochastic/Kalman.h
@@ -131,6 +131,11 @@ void kalmanMeasurementUpdate( VState& state, MStateCov& stateCov, const MF& meas
 	noalias( state ) += ublas::prod( kalmanGain, measurement - predicted );
 	noalias( stateCov ) -= ublas::prod( kalmanGain, ublas::trans( matTemp ) );
 	
+	// keep the covariance symmetric, rounding errors are amplified otherwise
+	for ( std::size_t i = 0; i < stateSize; i++ )
+		for ( std::size_t j = 0; j < i; j++ )
+			stateCov( i, j ) = stateCov( j, i ) = ( stateCov( i, j ) + stateCov( j, i ) ) / 2;
+	
 	KALMAN_LOG_DEBUG( "state after: " << state );
 	KALMAN_LOG_DEBUG( "covariance after: " << stateCov );
 }
@@ -213,6 +218,11 @@ void kalmanMeasurementUpdateIdentity( VState& state, MStateCov& stateCov,
 	// update state
 	noalias( state ) += ublas::prod( kalmanGain, measurement - predicted );
 	noalias( stateCov ) -= ublas::prod( kalmanGain, ublas::trans( matTemp ) );
+	
+	// keep the covariance symmetric, rounding errors are amplified otherwise
+	for ( std::size_t i = 0; i < stateSize; i++ )
+		for ( std::size_t j = 0; j < i; j++ )
+			stateCov( i, j ) = stateCov( j, i ) = ( stateCov( i, j ) + stateCov( j, i ) ) / 2;
 
 	KALMAN_LOG_DEBUG( "state after: " << state );
 	KALMAN_LOG_DEBUG( "covariance after: " << stateCov );
-- 
2.43.0


From 243805abf852038dbf981b4356f1c8c59a8cb4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:35 +0000
Subject: [PATCH 32/78] fix: ransac reported success although the final
 estimation failed

---
 src/utMath/Optimization/Ransac.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Optimization/Ransac.h b/src/utMath/Optimization/Ransac.h
index 7c11954..54db6c5 100644
--- a/src/utMath/Optimization/Ransac.h
+++ b/src/utMath/Optimization/Ransac.h
@@ -231,7 +231,11 @@ std::size_t ransac( const InputIterator iBegin, const InputIterator iEnd
 		for ( ; it < itEnd; ++it )
 			list.push_back( *(*it) );
 
-		typename RansacFunctor::Estimator()( result, list.begin(), list.end() );
+		if( ! typename RansacFunctor::Estimator()( result, list.begin(), list.end() ) )
+		{
+			OPT_LOG_DEBUG( "RANSAC: final estimation from the inliers failed" );
+			return 0;
+		}
 		OPT_LOG_DEBUG( "Estimated " << nBestInliers << " inlier after " << iRun + 1 << " iterations."  );
 		return nBestInliers;
 	}
@@ -385,7 +389,11 @@ std::size_t ransac( const InputIterator1 iBegin1, const InputIterator1 iEnd1
 		}
 			
 
-		typename RansacFunctor::Estimator()( result, list1.begin(), list1.end(), list2.begin(), list2.end() );
+		if( ! typename RansacFunctor::Estimator()( result, list1.begin(), list1.end(), list2.begin(), list2.end() ) )
+		{
+			OPT_LOG_DEBUG( "RANSAC: final estimation from the inliers failed" );
+			return 0;
+		}
 		OPT_LOG_DEBUG( "Estimated " << nBestInliers << " inlier after " << iRun + 1 << " iterations."  );
 		return nBestInliers;
 	}
-- 
2.43.0


From ecbc7e0bbfa367c0d23e074065d886717107c054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:35 +0000
Subject: [PATCH 33/78] fix: k_means turned the centroid of an empty cluster
 into NaN

---
 src/utMath/Stochastic/k_means.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/k_means.h b/src/utMath/Stochastic/k_means.h
index e08e87e..4745d91 100644
--- a/src/utMath/Stochastic/k_means.h
+++ b/src/utMath/Stochastic/k_means.h
@@ -318,7 +318,13 @@ typename std::iterator_traits< OutputIterator >::value_type::value_type k_means(
 		
 		// reset the amount of gathered values for the means, could be done nicer...
 		for( std::size_t k = 0; k<n_cluster; ++k )
-			means_temp[ k ] /= std::count ( indices.begin(), indices.end(), k );
+		{
+			const std::size_t n_values = std::count ( indices.begin(), indices.end(), k );
+			if( n_values > 0 )
+				means_temp[ k ] /= n_values;
+			else // no value belongs to this cluster, there is no average, the centroid stays where it was
+				means_temp[ k ] = *(itMeanBegin + k);
+		}
 		
 		// calculate the summarized difference
 		std::vector< value_type > norms1;
-- 
2.43.0


From 37683fec946e34ed76440be10e06152aa5f4696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:58 +0000
Subject: [PATCH 34/78] fix: hemisphere_alignment inverted rotations of more
 than 180 degrees

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
index a9e6df0..4901e62 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
@@ -312,7 +312,7 @@ struct hemisphere_alignment< Math::Vector< T, 6 >, true >
 		if( angle > 3.1415926535897932384626433832795 )
 		{
 			const T new_angle = (2*3.1415926535897932384626433832795) - angle;
-			const T ratio = new_angle/angle;
+			const T ratio = -new_angle/angle; // the same rotation is the opposite turn by the remaining angle
 			result[ 0 ] *= ratio;
 			result[ 1 ] *= ratio;
 			result[ 2 ] *= ratio;
-- 
2.43.0


From 9c36bfe31a006746c28e380a5ee1c0e4cb4f915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:29 +0000
Subject: [PATCH 35/78] fix: select_6DPoses used clusters that were not found
 and empty ones

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
index 2718ad8..ed9cffe 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
@@ -97,9 +97,10 @@ void pose6D_selection_impl( const InputIterator itBeginEye, const InputIterator
 	
 	
 	typename std::vector< pose_type >::iterator itCodebook = means.begin();
-	for( std::size_t i = 0; i<n_cluster; ++i, ++itCodebook )
+	for( std::size_t i = 0; i<n_cluster && itCodebook != means.end(); ++i, ++itCodebook ) // <- there can be less means than clusters
 	{
 		T max_dist( 10000 );  // <- important: should be bigger than PI
+		bool found( false );
 		pose_type nearestPoseA;
 		pose_type nearestPoseB;
 		
@@ -117,11 +118,14 @@ void pose6D_selection_impl( const InputIterator itBeginEye, const InputIterator
 				if( d < max_dist )
 				{
 					max_dist = d;
+					found = true;
 					nearestPoseA = *itPoseA;
 					nearestPoseB = *itPoseB;
 				}
 			}
 		}
+		if( !found ) // <- nothing belongs to this cluster
+			continue;
 		*itEye++ = Math::pose_cast< output_type >()( nearestPoseA );
 		*itHand++ = Math::pose_cast< output_type >()( nearestPoseB );
 		// selected_a.push_back( nearestPoseA );
-- 
2.43.0


From a1bd52e862f4c4e19b6255f089f7719933dc2294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:15 +0000
Subject: [PATCH 36/78] fix: hand-eye rotation filter chose the wrong
 quaternion sign for large movements

---
 src/utAlgorithm/RotationHecKalmanFilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/RotationHecKalmanFilter.cpp b/src/utAlgorithm/RotationHecKalmanFilter.cpp
index 522f211..cefe80b 100644
--- a/src/utAlgorithm/RotationHecKalmanFilter.cpp
+++ b/src/utAlgorithm/RotationHecKalmanFilter.cpp
@@ -57,7 +57,8 @@ void RotationHecKalmanFilter::addMeasurement( const Math::Quaternion& a, const M
 	// TODO: for error propagation use RotHecCombine
 
 	// do the filter update
-	Function::RotHecMeasurement mf( a, b.negateIfCloser( a ) );
+	// a and b describe the same angle of rotation: the signs match when the scalar parts have the same sign
+	Function::RotHecMeasurement mf( a, ( a.w() < 0 ) != ( b.w() < 0 ) ? Math::Quaternion( -b ) : b );
 	Math::Stochastic::kalmanMeasurementUpdate< 4, 4 >( m_state, mf, kalmanMeasurement, 0, m_state.value.size() );
 
 	// normalize the result to ensure quaternion properties
-- 
2.43.0


From f3a5a1e8e826e7400c4b02ee962fb9cb7637634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:15 +0000
Subject: [PATCH 37/78] fix: Munkres never stored the position of the uncovered
 zero it found

---
 src/utMath/Graph/Munkres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index 3f1310f..ccbf1e8 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -138,9 +138,9 @@ Munkres< T >::Munkres( Math::Matrix< T, 0, 0 > & matrix)
 
 template< typename T >
 bool Munkres< T >::find_uncovered_in_matrix(T item, std::size_t & row, std::size_t & col) {
-	for ( std::size_t row( 0 ) ; row < m_max ; ++row )
+	for ( row = 0 ; row < m_max ; ++row )
 		if ( !row_mask[row] )
-			for ( std::size_t col( 0 ) ; col < m_max ; ++col )
+			for ( col = 0 ; col < m_max ; ++col )
 				if ( !col_mask[col] )
 					if ( m_matrix( row, col ) == item )
 						return true;
-- 
2.43.0


From 4ad67ff9ce1e0d1971489c78fa5fad86d2557c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:15 +0000
Subject: [PATCH 38/78] fix: Munkres padded non-square matrices at the wrong
 place

---
 src/utMath/Graph/Munkres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index ccbf1e8..28563c2 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -376,14 +376,14 @@ void Munkres< T >::setMatrix( Math::Matrix< T, 0, 0 > & matrix )
 	{
 		m_matrix.resize( matrix.size1(), matrix.size1() );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() - matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size1(), matrix.size1() - matrix.size2(), vMax );
 	}
 	else
 	{
 		m_matrix.resize( matrix.size2(), matrix.size2(), false );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2() - matrix.size1(), 0, matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2(), 0, matrix.size2() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size2() - matrix.size1(), matrix.size2(), vMax );
 	}
 
-- 
2.43.0


From 3da4e2446bc4faa38bcfdebb7ba9680442d301d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:15 +0000
Subject: [PATCH 39/78] fix: Munkres leaked its cover masks

---
 src/utMath/Graph/Munkres.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index 28563c2..4563f1e 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -113,8 +113,8 @@ private:
 	int step6();
 	boost::numeric::ublas::matrix< int > mask_matrix;
 	Math::Matrix< T, 0, 0 > m_matrix;
-	bool *row_mask;
-	bool *col_mask;
+	std::vector< bool > row_mask;
+	std::vector< bool > col_mask;
 	std::size_t saverow, savecol;
 	std::size_t m_max;
 };
@@ -416,13 +416,8 @@ void Munkres< T >::solve()
 	int step ( 1 );
 
 	// Z_STAR == 1 == starred, Z_PRIME == 2 == primed
-	row_mask = new bool[m_max];
-	col_mask = new bool[m_max];
-	for ( std::size_t i( 0 ) ; i < m_max ; ++i ) 
-	{
-		row_mask[i] = false;
-		col_mask[i] = false;
-	}
+	row_mask.assign( m_max, false );
+	col_mask.assign( m_max, false );
 
 	while ( notdone ) 
 	{
-- 
2.43.0


From ab0640211eabc092d559132ca61cdad2c926e5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:19 +0000
Subject: [PATCH 40/78] fix: initial pose from many cameras used the camera
 pose the wrong way round

The pose computed from one camera is relative to that camera and the camera
pose transforms from world to camera (as the objective function uses it), so
it has to be inverted to get from the camera back to the world.
---
 src/utAlgorithm/MultipleCameraPoseOptimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
index bd57117..c624276 100644
--- a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
+++ b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
@@ -130,7 +130,7 @@ std::pair < Math::ErrorPose , double >
 		// Compute initial pose
 		if (!hasInitialPoseProvided) {
 			OPT_LOG_DEBUG(  "Compute initial pose with "<<p2dLocal.at(maxObsIndex).size() << " observations for camera " << maxObsIndex );
-			initialPose = camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
+			initialPose = ~camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
 				camMatrices.at( maxObsIndex ), PoseEstimation2D3D::PLANAR_HOMOGRAPHY ); // there are no scoped enums in C++98 (only in C++0x onwards)
 			OPT_LOG_DEBUG(  "Initial pose "<<initialPose );
 		}
-- 
2.43.0


From 6d8eb58e1ef54b6f477231ce75abc1e79dad6e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:22 +0000
Subject: [PATCH 41/78] fix: bundle adjustment normalized the rotations without
 scaling the translations

The optimized quaternions are not of unit length, and their length scales the
rotated points. Normalizing them afterwards without scaling the translation
accordingly changed the projections that had just been optimized.
---
 src/utAlgorithm/BundleAdjustment.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/BundleAdjustment.cpp b/src/utAlgorithm/BundleAdjustment.cpp
index f137c7c..df8d124 100644
--- a/src/utAlgorithm/BundleAdjustment.cpp
+++ b/src/utAlgorithm/BundleAdjustment.cpp
@@ -319,8 +319,11 @@ void simpleBundleAdjustmentImpl (
 	for ( std::size_t cameraIndex = 0; cameraIndex < n_cams; ++cameraIndex, ++poseIter )
 	{
 		const std::size_t index = 7*cameraIndex;
-		const Math::Quaternion quat = Math::Quaternion::fromVector( boost::numeric::ublas::subrange( paramVector, index, index+4 ) ).normalize();
-		const Math::Vector< value_type, 3 > trans ( boost::numeric::ublas::subrange( paramVector, index+4, index+7 ) );
+		Math::Quaternion quat = Math::Quaternion::fromVector( boost::numeric::ublas::subrange( paramVector, index, index+4 ) );
+		// the length of the quaternion scales the rotated points, normalizing it has to scale the translation as well
+		const value_type scale = static_cast< value_type >( quat.x()*quat.x() + quat.y()*quat.y() + quat.z()*quat.z() + quat.w()*quat.w() );
+		quat.normalize();
+		const Math::Vector< value_type, 3 > trans ( boost::numeric::ublas::subrange( paramVector, index+4, index+7 ) / scale );
 		*poseIter = Math::Pose( quat, trans );
 		LOG4CPP_TRACE( logger, "Camera #" << cameraIndex << " translation: " << poseIter->translation() << ", quaternion: " << poseIter->rotation() << " (updated)." );
 	}
-- 
2.43.0


From abec7e35632dc4ebd714f55fcee9410d11d0aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:29 +0000
Subject: [PATCH 42/78] fix: wrong derivative in the refinement of the absolute
 orientation

The derivative of the transformed z coordinate with respect to the z component
of the quaternion had a wrong sign in its last term, so that the refinement
stopped away from the optimum.
---
 src/utAlgorithm/PoseEstimation3D3D/Optimization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
index 2ac36fe..981b213 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
@@ -174,7 +174,7 @@ public:
 			J( i*3+2, 2 ) = 1;
 			J( i*3+2, 3 ) = t14;
 			J( i*3+2, 4 ) = -t8+t9+t15;
-			J( i*3+2, 5 ) = t4+t5-t6;
+			J( i*3+2, 5 ) = t7;
 			J( i*3+2, 6 ) = t2+t3-t16;
 			
 			J( i*3+0, 1 ) = J( i*3+0, 2 ) = 0;
-- 
2.43.0


From e48fbe47315036474d6770c939c2d028a5c96d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:29 +0000
Subject: [PATCH 43/78] fix: refinement of the tool tip divided by zero where a
 residual vanishes

The derivatives of the distance were NaN as soon as one coordinate of one
residual was exactly zero, which ended in an error of the solver or a NaN
result for perfect measurements.
---
 src/utAlgorithm/ToolTip/Optimization.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utAlgorithm/ToolTip/Optimization.h b/src/utAlgorithm/ToolTip/Optimization.h
index 76c2609..5fdda67 100644
--- a/src/utAlgorithm/ToolTip/Optimization.h
+++ b/src/utAlgorithm/ToolTip/Optimization.h
@@ -179,10 +179,10 @@ public:
 			const VType t32 = t18*t18;
 			const VType t40 = t23*t23;
 			const VType t41 = t31+t32+t40;
-			const VType t42 = 1.0/sqrt(t41);
-			const VType t43 = (t14/fabs(t14));
-			const VType t44 = (t30/fabs(t30));
-			const VType t45 = (t39/fabs(t39));
+			const VType t42 = t41 > 0 ? 1.0/sqrt(t41) : 0;
+			const VType t43 = t14 < 0 ? -1.0 : 1.0;
+			const VType t44 = t30 < 0 ? -1.0 : 1.0;
+			const VType t45 = t39 < 0 ? -1.0 : 1.0;
 			J( i, 0 ) = static_cast< typename MT::value_type >( t17*t42*t43 );
 			J( i, 1 ) = static_cast< typename MT::value_type >( t18*t42*t44 );
 			J( i, 2 ) = static_cast< typename MT::value_type >( t23*t42*t45 );
-- 
2.43.0


From 287ba6fb7261bdc8b615f1525fdfb1971656d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:58 +0000
Subject: [PATCH 44/78] fix: decomposing a projection matrix ignored its scale
 in the translation

The intrinsic matrix is normalized, so the last column of the projection matrix
has to be scaled in the same way before the translation is computed from it.
Projection matrices are only defined up to scale (e.g. the result of
projectionDLT).
---
 src/utAlgorithm/Projection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/Projection.cpp b/src/utAlgorithm/Projection.cpp
index 50cb7a5..f2fe2ce 100644
--- a/src/utAlgorithm/Projection.cpp
+++ b/src/utAlgorithm/Projection.cpp
@@ -200,7 +200,7 @@ template< typename T > void decomposeProjectionImpl( Math::Matrix< T, 3, 3 >& k,
 	k *= f;
 
 	// compute translation vector: t = K^-1 p^4
-	Math::Matrix< T, 3, 1 > ttmp = ublas::subrange( P, 0, 3, 3, 4 );
+	Math::Matrix< T, 3, 1 > ttmp = f * ublas::subrange( P, 0, 3, 3, 4 );
 	blas::trsm( 'L', 'U', 'N', 'N', 1.0f, k, ttmp );
 	t = ublas::column( ttmp, 0 );
 }
-- 
2.43.0


From 86c0dcf0978b276f7ff137f8f91725db6f30f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:35 +0000
Subject: [PATCH 45/78] fix: refinement of the absolute orientation ignored the
 normalization of the quaternion

The quaternion is normalized before it is applied, but the derivatives were
those of the unnormalized rotation, so that the optimizer could stall away from
the optimum.
---
 src/utAlgorithm/PoseEstimation3D3D/Optimization.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
index 981b213..f9882a0 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
@@ -181,6 +181,16 @@ public:
 			J( i*3+1, 0 ) = J( i*3+1, 2 ) = 0;
 			J( i*3+2, 0 ) = J( i*3+2, 1 ) = 0;
 			
+			// the quaternion is normalized before it is applied, include the derivative of the normalization
+			for ( std::size_t k = 0; k < 3; ++k )
+			{
+				const VType radial = J( i*3+k, 3 )*qx + J( i*3+k, 4 )*qy + J( i*3+k, 5 )*qz + J( i*3+k, 6 )*qw;
+				J( i*3+k, 3 ) = ( J( i*3+k, 3 ) - radial*qx ) / n;
+				J( i*3+k, 4 ) = ( J( i*3+k, 4 ) - radial*qy ) / n;
+				J( i*3+k, 5 ) = ( J( i*3+k, 5 ) - radial*qz ) / n;
+				J( i*3+k, 6 ) = ( J( i*3+k, 6 ) - radial*qw ) / n;
+			}
+			
 			// const VType t2 = qy*qy;
 			// const VType t3 = qz*qz;
 			// const VType t4 = qw*qw;
-- 
2.43.0


From b0d11b05e94683614e73b75bad0df7cea4984f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:03 +0000
Subject: [PATCH 46/78] fix: optimizations did not terminate when the residual
 is exactly zero

The relative change of a residual that stays zero is not smaller than zero, so
an optimization without iteration limit never ended, and one with a limit went
on increasing the damping until it overflowed and the solver failed.
---
 src/utMath/Optimization/Optimization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/Optimization.h b/src/utMath/Optimization/Optimization.h
index 8258a03..780b845 100644
--- a/src/utMath/Optimization/Optimization.h
+++ b/src/utMath/Optimization/Optimization.h
@@ -72,7 +72,7 @@ public:
 	bool operator()( const std::size_t iterations, const double resPrev, const double resNow ) const
 	{ 
 		return ( m_maxIterations > 0 && iterations >= m_maxIterations ) ||
-			( m_precision != 0.0 && fabs( resPrev - resNow ) < m_precision * resNow );
+			( m_precision != 0.0 && fabs( resPrev - resNow ) <= m_precision * resNow );
 	}
 
 protected:
-- 
2.43.0


From 1bdc165145ed48caa30ce6938082912401f55c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:41 +0000
Subject: [PATCH 47/78] fix: tinyxml reads behind the end of text that stops
 inside an attribute, comment or CDATA section

---
 3rd/tinyxml/tinyxmlparser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 9c91b4f..3816caa 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -631,9 +631,9 @@ const char* TiXmlBase::ReadText(	const char* p,
 			}
 		}
 	}
-	if ( p ) 
+	if ( p && *p )
 		p += strlen( endTag );
-	return p;
+	return ( p && *p ) ? p : 0;
 }
 
 #ifdef TIXML_USE_STL
@@ -1379,7 +1379,7 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 		value.append( p, 1 );
 		++p;
 	}
-	if ( p ) 
+	if ( p && *p )
 		p += strlen( endTag );
 
 	return p;
-- 
2.43.0


From 9c7be252020010760e136679665fc3f3af9789cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:41 +0000
Subject: [PATCH 48/78] fix: tinyxml reads behind the end of text that stops
 inside an UTF-8 character

---
 3rd/tinyxml/tinyxml.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/3rd/tinyxml/tinyxml.h b/3rd/tinyxml/tinyxml.h
index c6f40cc..e8c0902 100644
--- a/3rd/tinyxml/tinyxml.h
+++ b/3rd/tinyxml/tinyxml.h
@@ -349,10 +349,12 @@ protected:
 		{
 			//strncpy( _value, p, *length );	// lots of compilers don't like this function (unsafe),
 												// and the null terminator isn't needed
-			for( int i=0; p[i] && i<*length; ++i ) {
+			int i;
+			for( i=0; i<*length && p[i]; ++i ) {
 				_value[i] = p[i];
 			}
-			return p + (*length);
+			*length = i;	// less if the text ends inside the character
+			return p + i;
 		}
 		else
 		{
-- 
2.43.0


From 413c5d665623ebac7dff244f35edefa962706e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:41 +0000
Subject: [PATCH 49/78] fix: tinyxml hangs on text that ends inside an UTF-8
 character starting with 0xef

---
 3rd/tinyxml/tinyxmlparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 3816caa..968e6ac 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -274,6 +274,12 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+					{
+						// The text ends inside the character.
+						++p;
+						++col;
+					}
 				}
 				else
 				{
-- 
2.43.0


From caeb3dd18d0372a528b9bf74ad122d3686283e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:41 +0000
Subject: [PATCH 50/78] fix: tinyxml takes a document that ends inside an
 unknown tag as complete

---
 3rd/tinyxml/tinyxmlparser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 968e6ac..6dd2642 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -1301,9 +1301,10 @@ const char* TiXmlUnknown::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 		++p;
 	}
 
-	if ( !p )
+	if ( !p || !*p )
 	{
 		if ( document )	document->SetError( TIXML_ERROR_PARSING_UNKNOWN, 0, 0, encoding );
+		return 0;
 	}
 	if ( *p == '>' )
 		return p+1;
-- 
2.43.0


From fb44fa7e38c2cd61cf29ab8bd83418e5b2723e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:41 +0000
Subject: [PATCH 51/78] fix: tinyxml drops the rest of a document behind a
 repeated attribute without an error

---
 3rd/tinyxml/tinyxmlparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 6dd2642..0c79f6a 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -1168,7 +1168,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			#endif
 			if ( node )
 			{
-				node->SetValue( attrib->Value() );
+				if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, pErr, data, encoding );
 				delete attrib;
 				return 0;
 			}
-- 
2.43.0


From 54b4830b27a31aeda3e8e27eb6037233ca662642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:08 +0000
Subject: [PATCH 52/78] fix: tinyxml reports a file as saved when writing the
 last of it fails

---
 3rd/tinyxml/tinyxml.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/3rd/tinyxml/tinyxml.cpp b/3rd/tinyxml/tinyxml.cpp
index 5de21f6..808a450 100644
--- a/3rd/tinyxml/tinyxml.cpp
+++ b/3rd/tinyxml/tinyxml.cpp
@@ -1092,7 +1092,9 @@ bool TiXmlDocument::SaveFile( const char * filename ) const
 	if ( fp )
 	{
 		bool result = SaveFile( fp );
-		fclose( fp );
+		// the last of the data is written only now
+		if ( fclose( fp ) != 0 )
+			result = false;
 		return result;
 	}
 	return false;
-- 
2.43.0


From 1aa61d9879ac37df32a5ed89d2a59357a65df5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:08 +0000
Subject: [PATCH 53/78] fix: tinyxml hangs reading a stream with a null inside
 text

---
 3rd/tinyxml/tinyxmlparser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 0c79f6a..e3f7ce8 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -961,6 +961,15 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
 				TiXmlText text( "" );
 				text.StreamIn( in, tag );
 
+				// Text stops at a null, which never goes away.
+				if ( in->good() && in->peek() == 0 )
+				{
+					TiXmlDocument* document = GetDocument();
+					if ( document )
+						document->SetError( TIXML_ERROR_EMBEDDED_NULL, 0, 0, TIXML_ENCODING_UNKNOWN );
+					return;
+				}
+
 				// What follows text is a closing tag or another node.
 				// Go around again and figure it out.
 				continue;
-- 
2.43.0


From 69b145e6b87c744c54fad4aa3f0b2dbfc35e166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:57 +0000
Subject: [PATCH 54/78] fix: Levenberg-Marquardt accepts a step to where the
 problem is not defined (NaN)

---
 src/utMath/Optimization/LevenbergMarquardt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/LevenbergMarquardt.h b/src/utMath/Optimization/LevenbergMarquardt.h
index 0acd021..fad0f6c 100644
--- a/src/utMath/Optimization/LevenbergMarquardt.h
+++ b/src/utMath/Optimization/LevenbergMarquardt.h
@@ -208,7 +208,7 @@ typename X::value_type weightedLevenbergMarquardt( P& problem, X& params, const
 		bTerminate = terminationCriteria( iteration, fErr, fErrPrev );
 
 		// update parameters
-		if ( fErr >= fErrPrev )
+		if ( !( fErr < fErrPrev ) ) // also if the error is not a number
 			fLambda *= T( fStepFactor );
 		else
 		{
-- 
2.43.0


From ff61289ed25f93827092dea93a1bcf39c819735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:09 +0000
Subject: [PATCH 55/78] fix: LAPACK bindings crash when there is no memory for
 a work array

---
 .../numeric/bindings/traits/detail/array_impl.hpp   | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/3rd/boost-bindings/boost/numeric/bindings/traits/detail/array_impl.hpp b/3rd/boost-bindings/boost/numeric/bindings/traits/detail/array_impl.hpp
index c51afaa..f8f63cd 100644
--- a/3rd/boost-bindings/boost/numeric/bindings/traits/detail/array_impl.hpp
+++ b/3rd/boost-bindings/boost/numeric/bindings/traits/detail/array_impl.hpp
@@ -38,6 +38,8 @@
  constructor uses `new (nothrow)' which returns 0 if allocation fails. 
  So I can check whether array::storage == 0 and return appropriate error 
  in `info'.
+ Most bindings functions never did, though, and passed the null pointer on
+ to LAPACK; so allocation failures are now reported by an exception.
  */
 
 #include <new>
@@ -52,17 +54,18 @@ namespace boost { namespace numeric { namespace bindings {
     public:
 
       array (int n) {
-        stg = new (std::nothrow) T[n]; 
-        sz = (stg != 0) ? n : 0; 
+        stg = new T[n]; 
+        sz = n; 
       }
       ~array() { delete[] stg; }
 
       int size() const { return sz; }
       bool valid() const { return stg != 0; } 
       void resize (int n) {
-        delete[] stg; 
-        stg = new (std::nothrow) T[n]; 
-        sz = (stg != 0) ? n : 0; 
+        T* const old = stg; 
+        stg = new T[n]; 
+        sz = n; 
+        delete[] old; 
       }
 
       T* storage() { return stg; }
-- 
2.43.0


From 6071290564f3b71b717998b26c03ac94b9935731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:17 +0000
Subject: [PATCH 56/78] fix: log stream manipulators on a stream of a disabled
 priority dereferenced a null buffer

---
 3rd/log4cpp/src/CategoryStream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/3rd/log4cpp/src/CategoryStream.cpp b/3rd/log4cpp/src/CategoryStream.cpp
index a01f9ab..11925d2 100644
--- a/3rd/log4cpp/src/CategoryStream.cpp
+++ b/3rd/log4cpp/src/CategoryStream.cpp
@@ -48,19 +48,19 @@ namespace log4cpp {
                 }
             }
         }
-        return _buffer->width(wide); 
+        return _buffer ? _buffer->width(wide) : 0; 
     }
     CategoryStream& CategoryStream::operator<< (cspf pf) {
 		return (*pf)(*this);
     }
     CategoryStream& eol (CategoryStream& os) {
-        if  (os._buffer->good()) {
+        if  (os._buffer && os._buffer->good()) {
 			os.flush();
         }
         return os;
     }
     CategoryStream& left (CategoryStream& os) {
-        if  (os._buffer->good()) {
+        if  (os._buffer && os._buffer->good()) {
             os._buffer->setf(std::ios::left);
         }
         return os;
-- 
2.43.0


From a0cada726b0161f7e31e5a05ee4a18c1d2602a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:02 +0000
Subject: [PATCH 57/78] fix: incremental hand-eye calibration asserted, kept
 old selections and selected by the wrong pose

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.h      | 4 ++--
 src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
index 4901e62..7a55c6e 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
@@ -466,7 +466,7 @@ protected:
 	{
 		const std::size_t nIn = std::distance ( itBegin, itEnd );
 		const std::size_t nIs = std::distance ( relPoseList.begin(), relPoseList.end() );
-		assert( nIn <= nIs );
+		assert( nIn >= nIs );
 		
 		InputIterator it = itBegin;
 		std::advance( it, nIs );
@@ -506,7 +506,7 @@ protected:
 		IndexListType::const_iterator itIndex = indices.begin();
 		const IndexListType::const_iterator itIndexEnd = indices.end();
 		
-		for( std::size_t i = 0; itIndex != itIndexEnd; ++itIndex, *itPose , ++i )
+		for( std::size_t i = 0; itIndex != itIndexEnd; ++itIndex, ++itPose, ++i )
 		{
 			// choose codebook entry to lookup corresponding pose measurement
 			InputIterator2 itCodebook = itBeginCluster;	
diff --git a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
index fea1a31..e59f680 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
@@ -159,7 +159,9 @@ protected:
 		const std::size_t n = m ? m : static_cast< std::size_t >( sqrt( nRel/2. ) );
 		
 		// std::cerr << "n " << n << "\n";
+		relativePosesBestMatchA.clear();
 		relativePosesBestMatchA.reserve( n );
+		relativePosesBestMatchB.clear();
 		relativePosesBestMatchB.reserve( n );
 		m_DataSelection.resetComparisonPoses( n, relativePosesAllA );
 		m_DataSelection.getSelection( relativePosesAllA, std::back_inserter( relativePosesBestMatchA ) );
-- 
2.43.0


From 03a1212aca8702d720eafd93c58bcbe35f910cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:06 +0000
Subject: [PATCH 58/78] fix: wrong sign in the derivative of the refinement of
 the absolute orientation

---
 src/utAlgorithm/PoseEstimation3D3D/Optimization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
index f9882a0..0e8a288 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
@@ -173,7 +173,7 @@ public:
 			J( i*3+1, 6 ) = t14;
 			J( i*3+2, 2 ) = 1;
 			J( i*3+2, 3 ) = t14;
-			J( i*3+2, 4 ) = -t8+t9+t15;
+			J( i*3+2, 4 ) = t15-t8-t9;
 			J( i*3+2, 5 ) = t7;
 			J( i*3+2, 6 ) = t2+t3-t16;
 			
-- 
2.43.0


From 555ae2e746d8cd2e4967cedfcb8ccf98548a0d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 59/78] fix: wrong sign of the rotation part of the covariance
 of an inverted pose

---
 src/utMath/ErrorPose.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index d34f432..517fe04 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -114,21 +114,21 @@ void inversionJacobian( Matrix< double, 6, 6 >& j, const Pose& p )
 	j( 3, 0 ) = 0.;
 	j( 3, 1 ) = 0.;
 	j( 3, 2 ) = 0.;
-	j( 3, 3 ) = 1. + t5445 + t5446;
-	j( 3, 4 ) = 2. * t5364 * t5369 - 2. * t5362 * t5371;
-	j( 3, 5 ) = 2. * t5430;
+	j( 3, 3 ) =  - 1. - t5445 - t5446;
+	j( 3, 4 ) =  - 2. * t5364 * t5369 + 2. * t5362 * t5371;
+	j( 3, 5 ) =  - 2. * t5430;
 	j( 4, 0 ) = 0.;
 	j( 4, 1 ) = 0.;
 	j( 4, 2 ) = 0.;
-	j( 4, 3 ) = 2. * t5373;
-	j( 4, 4 ) = 1. + t5446 + t5453;
-	j( 4, 5 ) =  - 2. * t5362 * t5364 + 2. * t5369 * t5371;
+	j( 4, 3 ) =  - 2. * t5373;
+	j( 4, 4 ) =  - 1. - t5446 - t5453;
+	j( 4, 5 ) = 2. * t5362 * t5364 - 2. * t5369 * t5371;
 	j( 5, 0 ) = 0.;
 	j( 5, 1 ) = 0.;
 	j( 5, 2 ) = 0.;
-	j( 5, 3 ) =  - 2. * t5362 * t5369 + 2. * t5364 * t5371;
-	j( 5, 4 ) = 2. * t5410;
-	j( 5, 5 ) = 1. + t5445 + t5453;
+	j( 5, 3 ) = 2. * t5362 * t5369 - 2. * t5364 * t5371;
+	j( 5, 4 ) =  - 2. * t5410;
+	j( 5, 5 ) =  - 1. - t5445 - t5453;
 }
 
 
-- 
2.43.0


From 1e2b6fe6c6bb7aef3ff9285f2a49ccc3e24300e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 60/78] fix: invertMultiply propagated the covariance of the
 product without the inversion

---
 src/utMath/ErrorPose.cpp | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 517fe04..bef70d6 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -590,20 +590,7 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector<
 
 ErrorPose invertMultiply( const ErrorPose& a, const ErrorPose& b )
 {
-	// covariance transform
-	Matrix< double, 6, 6 > jacobian1;
-	Matrix< double, 6, 6 > jacobian2;
-	Matrix< double, 6, 6 > tmp;
-	Matrix< double, 6, 6 > newCovariance;
-	multiplicationJacobians( jacobian1, jacobian2, a, b );
-	
-	// here we could save some time by regarding the zero and identity blocks of the jacobians...
-	noalias( tmp ) = ublas::prod( jacobian1, a.covariance() );
-	noalias( newCovariance ) = ublas::prod( tmp, ublas::trans( jacobian1 ) );
-	noalias( tmp ) = ublas::prod( jacobian2, b.covariance() );
-	noalias( newCovariance ) += ublas::prod( tmp, ublas::trans( jacobian2 ) );
-
-	return ErrorPose( ~static_cast< const Pose& >( a ) * static_cast< const Pose& >( b ), newCovariance );
+	return ~a * b;
 }
 
 
-- 
2.43.0


From 4f56696ba013f64dca704892a36fcbe94a815a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 61/78] fix: covariance of a transformed uncertain vector
 ignored the covariance of the vector

---
 src/utMath/ErrorPose.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index bef70d6..36a7438 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -569,11 +569,8 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::Vector< doub
 	return ErrorVector< double, 3 >( static_cast< const Pose& >( a ) * b, newCovariance );
 }
 
-//TODO
-
 ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector< double, 3 >& b )
 {
-	
 	// covariance transform
 	Matrix< double, 3, 6 > jacobian;
 	errorPoseTimesVectorJacobian( jacobian, a, b.value );
@@ -584,6 +581,13 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector<
 	noalias( tmp ) = ublas::prod( jacobian, a.covariance() );
 	noalias( newCovariance ) = ublas::prod( tmp, ublas::trans( jacobian ) );
 
+	// add the covariance of the vector, rotated
+	Matrix< double, 3, 3 > rotation;
+	a.rotation().toMatrix( rotation );
+	Matrix< double, 3, 3 > tmp2;
+	noalias( tmp2 ) = ublas::prod( rotation, b.covariance );
+	noalias( newCovariance ) += ublas::prod( tmp2, ublas::trans( rotation ) );
+
 	return ErrorVector< double, 3 >( static_cast< const Pose& >( a ) * b.value, newCovariance );
 }
 
-- 
2.43.0


From ab78381ad7ff6fd0c231beeb7d86a79e279825be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 62/78] fix: derivative of the w component in the integration
 of rotation velocities lacked a factor

---
 src/utMath/Optimization/Function/RotationVelocityIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/Function/RotationVelocityIntegration.h b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
index 55a8e87..b1d19c8 100644
--- a/src/utMath/Optimization/Function/RotationVelocityIntegration.h
+++ b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
@@ -102,7 +102,7 @@ struct RotationVelocityIntegration
 	{
 		typedef typename MT1::value_type T;
 		boost::numeric::ublas::subrange( jac, 0, 3, 0, 3 ) = T( m_dt * 0.5 ) * boost::numeric::ublas::identity_matrix< T >( 3 );
-		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * -0.25 ) * v;
+		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * m_dt * -0.25 ) * v;
 	}
 
 	double m_dt;
-- 
2.43.0


From 6f0dc62dbe1d39b7551a9a90516a507fe9a68f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 63/78] fix: backwardPropagationDiagonal weighted only as many
 measurements as there are parameters

---
 src/utMath/Stochastic/BackwardPropagation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/BackwardPropagation.h b/src/utMath/Stochastic/BackwardPropagation.h
index fbc25f0..68e9b15 100644
--- a/src/utMath/Stochastic/BackwardPropagation.h
+++ b/src/utMath/Stochastic/BackwardPropagation.h
@@ -235,7 +235,7 @@ void backwardPropagationDiagonal( MT1& result, const VT2& input, MT3& jacobian )
 	typedef typename Math::Matrix< VType, 0, 0 > MatType;
 
 	// multiply jacobian with E^(-1/2)
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	for ( unsigned i = 0; i < jacobian.size1(); i++ )
 		ublas::row( jacobian, i ) *= VType( 1 ) / sqrt( input( i ) );
 
 	// perform SVD on jacobian
-- 
2.43.0


From 7d9d9a92cc7d8179d247f4675183ab73ab2f4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 64/78] fix: conversion between pose covariance and additive
 quaternion covariance rotated the wrong way

---
 src/utMath/ErrorPose.cpp        | 4 ++--
 src/utMath/Stochastic/Average.h | 6 +-----
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 36a7438..6a7b31f 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -608,7 +608,7 @@ void ErrorPose::toAdditiveErrorVector( ErrorVector< double, 7 >& v )
 	// set the w variance to the sum of the x, y, and z rotation errors
 	v.covariance( 6, 6 ) = v.covariance( 3, 3 ) + v.covariance( 4, 4 ) + v.covariance( 5, 5 );
 
-	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( rotation() ), v, 3, 7, 3, 7 );
+	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( ~rotation() ), v, 3, 7, 3, 7 );
 }
 
 
@@ -616,7 +616,7 @@ ErrorPose ErrorPose::fromAdditiveErrorVector( const ErrorVector< double, 7 >& v
 {
 	Math::ErrorVector< double, 7 > p( v );
 	Quaternion q( Quaternion::fromVector( ublas::subrange( v.value, 3, 7 ) ) );
-	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( ~q ), p, 3, 7, 3, 7 );
+	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( q ), p, 3, 7, 3, 7 );
 	
 	return ErrorPose( Pose::fromVector( p.value ), ublas::subrange( p.covariance, 0, 6, 0, 6 ) );
 }
diff --git a/src/utMath/Stochastic/Average.h b/src/utMath/Stochastic/Average.h
index 8c94588..6d4bf24 100644
--- a/src/utMath/Stochastic/Average.h
+++ b/src/utMath/Stochastic/Average.h
@@ -303,14 +303,10 @@ public:
 		super::mean_type meanVec;
 		Util::castToVector( meanPose, meanVec );
 		
-		super::mean_type invMeanVec;
-		Util::castToVector( (~meanPose), invMeanVec );
-		
 		
 		const varianz_type covarianz = ( m_covariance / m_counter );
-		Math::ErrorVector< precision_type, 7 > ev( invMeanVec, covarianz - Math::outer_product( meanVec, meanVec ) );
+		Math::ErrorVector< precision_type, 7 > ev( meanVec, covarianz - Math::outer_product( meanVec, meanVec ) );
 		const Math::ErrorPose invEp = Math::ErrorPose::fromAdditiveErrorVector( ev );
-		// We created the error pose from the inverted mean value above, to obtain the transformed 6x6 covariance
 		// Now, we recreate the error pose with the computed mean value.	
 		return value_type( meanPose, invEp.covariance() );
 	};
-- 
2.43.0


From 04667098a0e21b23356d3c20b11354fd2e4c8a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 65/78] fix: covariance of a planar pose was computed from the
 sum of squared errors instead of their variance

---
 src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
index de771dd..cbe6e15 100644
--- a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
+++ b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
@@ -505,8 +505,10 @@ Math::ErrorPose computePose(
 		OPT_LOG_DEBUG( "NOT refined pose: " << pose << ", residual of 2D image measurements: " << residual);	
 	}
 	
+	// from the sum of squared errors to the variance of an image coordinate
+	residual /= n_points * 2;
 	covMatrix = Algorithm::PoseEstimation2D3D::singleCameraPoseError( pose, p3d, cam, residual );	
-	residual = sqrt( residual / ( n_points * 2 ) );
+	residual = sqrt( residual );
 	
 	return Math::ErrorPose( pose, covMatrix );
 }
-- 
2.43.0


From 8f59e715e91b20d3fbcea85a8bd5ff2c31c9d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 66/78] fix: covariance of an absolute orientation was computed
 from the mean distance instead of the variance

---
 .../PoseEstimation3D3D/CovarianceEstimation.h      | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h b/src/utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h
index 7057a4d..352baae 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h
@@ -138,12 +138,20 @@ bool estimatePose6DCovariance( const InputIterator iBeginA, const InputIterator
 	typedef typename std::iterator_traits< InputIterator >::value_type vector_type;
 	typedef typename vector_type::value_type T;
 
-	// const std::size_t n = std::distance( iBeginA, iEndA );
+	const std::size_t n = std::distance( iBeginA, iEndA );
 	
 	// const Math::Matrix< T, 3, 4 > mat( pose );
 
-	// estimate residual error
-	const T err = estimatePose6DResidual< T >( iBeginA, iEndA, pose, iBeginB, iEndB );
+	// estimate the variance of a point's coordinate from the residual errors
+	const ErrorFunction< T > distance( pose );
+	T err( 0 );
+	InputIterator itB( iBeginB );
+	for ( InputIterator itA( iBeginA ); itA != iEndA; ++itA, ++itB )
+	{
+		const T d = distance( *itA, *itB );
+		err += d * d;
+	}
+	err /= 3 * n;
 	
 	// copy rot & trans to parameter vector
 	Math::Vector< T, 7 > params;
-- 
2.43.0


From e32a835030c49b3d256f5534378f48e638eab97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 67/78] fix: derivative of the rotation hand-eye function by
 its second rotation was wrong

---
 src/utAlgorithm/Function/RotHecFunction.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/Function/RotHecFunction.h b/src/utAlgorithm/Function/RotHecFunction.h
index 8f7d6e7..9700683 100644
--- a/src/utAlgorithm/Function/RotHecFunction.h
+++ b/src/utAlgorithm/Function/RotHecFunction.h
@@ -128,7 +128,25 @@ public:
 		jacobian1( 3, 2 ) = -m_x.z();
 		jacobian1( 3, 3 ) =  m_x.w();
 		
-		jacobian2 = -jacobian1;
+		jacobian2( 0, 0 ) = -m_x.w();
+		jacobian2( 0, 1 ) =  m_x.z();
+		jacobian2( 0, 2 ) = -m_x.y();
+		jacobian2( 0, 3 ) = -m_x.x();
+		
+		jacobian2( 1, 0 ) = -m_x.z();
+		jacobian2( 1, 1 ) = -m_x.w();
+		jacobian2( 1, 2 ) =  m_x.x();
+		jacobian2( 1, 3 ) = -m_x.y();
+
+		jacobian2( 2, 0 ) =  m_x.y();
+		jacobian2( 2, 1 ) = -m_x.x();
+		jacobian2( 2, 2 ) = -m_x.w();
+		jacobian2( 2, 3 ) = -m_x.z();
+
+		jacobian2( 3, 0 ) =  m_x.x();
+		jacobian2( 3, 1 ) =  m_x.y();
+		jacobian2( 3, 2 ) =  m_x.z();
+		jacobian2( 3, 3 ) = -m_x.w();
 	}
 	
 protected:
-- 
2.43.0


From 05810485290d68cd9845d014259ea605446710d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 68/78] fix: backwardPropagation rotated and weighted the
 derivative wrongly

---
 src/utMath/Stochastic/BackwardPropagation.h | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/utMath/Stochastic/BackwardPropagation.h b/src/utMath/Stochastic/BackwardPropagation.h
index 68e9b15..5315636 100644
--- a/src/utMath/Stochastic/BackwardPropagation.h
+++ b/src/utMath/Stochastic/BackwardPropagation.h
@@ -56,9 +56,6 @@ namespace Ubitrack { namespace Math { namespace Stochastic {
  * @ingroup math
  * Performs backward propagation of covariance.
  * 
- * FIXME: this function doesn't seeem to work correctly. 
- * Use backwardPropagationIdentity, which gives different (and more plausible) results.
- *
  * Given a function y = f(x), known parameters x and a covariance matrix E of y, the backward propagation
  * computes the covariance C of the parameters x. size(E) >= size(C).
  *
@@ -70,9 +67,6 @@ namespace Ubitrack { namespace Math { namespace Stochastic {
 template< class MT1, class MT2, class F, class VT1 > 
 void backwardPropagation( MT1& result, const MT2& input, const F& function, const VT1& params )
 {
-	// !!!! FIXME: this function doesn't seeem to work.  !!!!!
-	// Use backwardPropagationIdentity, which gives different results
-	
 	namespace lapack = boost::numeric::bindings::lapack;
 	namespace blas = boost::numeric::bindings::blas;
 	namespace ublas = boost::numeric::ublas;
@@ -84,25 +78,25 @@ void backwardPropagation( MT1& result, const MT2& input, const F& function, cons
 	MatType jacobian( input.size1(), result.size1() );
 	function.jacobian( params, jacobian );
 	
-	// factorize E into Q^T * T * Q
+	// factorize E into Q * T * Q^T
 	MatType Q( input );
 	Math::Vector< VType > t( input.size1() );
 	lapack::syev( 'V', 'U', Q, t, lapack::minimal_workspace() );
 	
-	// compute Q * J
+	// compute Q^T * J
 	MatType QJ( jacobian.size1(), jacobian.size2() );
-	blas::gemm( Q, jacobian, QJ );
+	blas::gemm( 'T', 'N', VType( 1 ), Q, jacobian, VType( 0 ), QJ );
 
     // compute T^(-1/2)	
-	VType precision( t( 0 ) * VType( 1e-8 ) );
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	VType precision( t( t.size() - 1 ) * VType( 1e-8 ) );
+	for ( unsigned i = 0; i < t.size(); i++ )
 		if ( t( i ) < precision )
 			t( i ) = 0;
 		else
 			t( i ) = 1 / sqrt( t( i ) );
 
-	// compute J' = T^(-1/2) * Q * J
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	// compute J' = T^(-1/2) * Q^T * J
+	for ( unsigned i = 0; i < t.size(); i++ )
 		ublas::row( QJ, i ) *= t( i );
 
 	// perform SVD on QJ
-- 
2.43.0


From 4a548f070fd5d1387b23b9c8a8280b1df6587e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:11 +0000
Subject: [PATCH 69/78] fix: density of a normal distribution was not
 normalised

---
 src/utMath/Stochastic/expectation_maximization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/expectation_maximization.h b/src/utMath/Stochastic/expectation_maximization.h
index 02a9245..33a02eb 100644
--- a/src/utMath/Stochastic/expectation_maximization.h
+++ b/src/utMath/Stochastic/expectation_maximization.h
@@ -77,7 +77,7 @@ struct Probability
 			{
 				// UBITRACK_THROW( "Cannot calculate covariance inverse, determinant is NaN or zero." );
 			
-				const value_type tmpconstant = 1 / std::sqrt( std::pow( static_cast< value_type >( 2.0 * 3.14159 ), size * static_cast< value_type >( 0.5 ) ) * std::fabs ( det ) );
+				const value_type tmpconstant = 1 / std::sqrt( std::pow( static_cast< value_type >( 2.0 * 3.14159265358979323846 ), static_cast< value_type >( size ) ) * std::fabs ( det ) );
 				constant = tmpconstant;
 				// if( constant != constant ) //trick to check if the value is valid
 					// UBITRACK_THROW( "Cannot reliable determine constant value of probability density function, it is NaN." );
-- 
2.43.0


From e8768d293a44e0ce36c389e45e1e09ec71f40ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:51 +0000
Subject: [PATCH 70/78] fix: a value far from every normal distribution of a
 mixture destroyed the mixture (weights zero, NaN)

---
 .../Stochastic/expectation_maximization.h     | 60 +++++++++++++------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/utMath/Stochastic/expectation_maximization.h b/src/utMath/Stochastic/expectation_maximization.h
index 33a02eb..1cff111 100644
--- a/src/utMath/Stochastic/expectation_maximization.h
+++ b/src/utMath/Stochastic/expectation_maximization.h
@@ -90,9 +90,16 @@ struct Probability
 	
 	template< typename vector_type >
 	value_type operator()( const vector_type& vec ) const
+	{
+		return std::exp( logarithm( vec ) );
+	}
+	
+	/// the logarithm of the probability, also of values that are too far away for a probability other than zero
+	template< typename vector_type >
+	value_type logarithm( const vector_type& vec ) const
 	{
 		if( constant != constant || constant == 0 ) //trick to check if the value is valid
-			return 0;
+			return -std::numeric_limits< value_type >::infinity();
 			// UBITRACK_THROW( "Cannot reliable determine probability of value belonging to the distribution, constant is NaN." );
 			
 		value_type value[ size ];
@@ -110,9 +117,7 @@ struct Probability
 		for( std::size_t i( 0 ); i<size; ++i )
 			sum_value += sol_vec[ i ] * value[ i ];
 			
-		const value_type return_value = constant * std::exp( -0.5 * sum_value );
-
-		return return_value;//( return_value == return_value ) ? ( return_value > 1 ? 1 : return_value ) : 0 ;
+		return std::log( constant ) - static_cast< value_type >( 0.5 ) * sum_value;
 	}
 };
 
@@ -126,21 +131,31 @@ T log_likelihood( const InputIterator1 ipBegin, const InputIterator1 ipEnd, cons
 	// number of values
 	const std::size_t n ( std::distance( ivBegin, ivLast ) ) ;
 
-	// initialize the final result with zeros
-	std::vector< T > summen( n , 0 );
+	// logarithm of each value's probability, for each (weighted) Gaussian
+	const T impossible( -std::numeric_limits< T >::infinity() );
+	std::vector< T > logs;
+	logs.reserve( n * std::distance( ipBegin, ipEnd ) );
 	
-	// calculate for each (weighted) Gaussian
 	for( InputIterator1 pdfIter( ipBegin ) ; pdfIter != ipEnd; ++pdfIter )
 	{
-		std::vector< T > summen_tmp;
-		summen_tmp.reserve( n );
-		// std::cout << "Input : " << (*pdfIter ) << "\n";
-		std::transform( ivBegin, ivLast, std::back_inserter( summen_tmp ), Probability< pd_type > ( *pdfIter ) );
-		std::transform( summen_tmp.begin(), summen_tmp.end(), summen_tmp.begin(), std::bind1st( std::multiplies< T >(), pdfIter->weight ) );
-		std::transform( summen_tmp.begin(), summen_tmp.end(), summen.begin(), summen.begin(), std::plus< T >() );
+		const Probability< pd_type > pdf( *pdfIter );
+		for( InputIterator2 valueIter( ivBegin ); valueIter != ivLast; ++valueIter )
+			logs.push_back( std::log( pdfIter->weight ) + pdf.logarithm( *valueIter ) );
+	}
+	
+	T loglikelihood( 0 );
+	for( std::size_t v( 0 ); v < n; ++v )
+	{
+		// relative to the largest one, as the probabilities themselves may be too small
+		T largest( impossible );
+		for( std::size_t i( v ); i < logs.size(); i += n )
+			largest = std::max( largest, logs[ i ] );
+			
+		T sum( 0 );
+		for( std::size_t i( v ); i < logs.size() && largest != impossible; i += n )
+			sum += std::exp( logs[ i ] - largest );
+		loglikelihood += largest != impossible ? largest + std::log( sum ) : impossible;
 	}
-	std::transform( summen.begin(), summen.end(), summen.begin(), std::ptr_fun< T, T >( std::log ) );
-	const T loglikelihood = std::accumulate( summen.begin(), summen.end(), static_cast< T >( 0 ) );
 	return loglikelihood /  static_cast< T >( n );
 }
 
@@ -212,15 +227,24 @@ typename std::iterator_traits< OutputIterator >::value_type::value_type expectat
 		for( OutputIterator pdfIter( itBeginGauss ); pdfIter< itEndGauss; ++pdfIter )
 		{
 			const Probability< pdf_type > pdf( *pdfIter );
-			NumIterator normIter( norms.begin() );
-			for( InputIterator valueIter( itBegin ); valueIter != itEnd; ++valueIter, ++normIter, ++gammaIter  )
+			for( InputIterator valueIter( itBegin ); valueIter != itEnd; ++valueIter, ++gammaIter  )
 			{
-				(*normIter) += (*gammaIter) = pdfIter->weight * pdf( *valueIter );
+				(*gammaIter) = std::log( pdfIter->weight ) + pdf.logarithm( *valueIter );
 				// std::cout << "Probability of " << *valueIter << " at " << *pdfIter << ":\n" << pdf( *valueIter ) << "\n";
 			}
 		}
 			
 		
+		// relative to the largest one, as all probabilities of a value may be too small
+		for( std::size_t v( 0 ); v < n; ++v )
+		{
+			numeric_type largest( gammas[ v ] );
+			for( std::size_t g( v + n ); g < gammas.size(); g += n )
+				largest = std::max( largest, gammas[ g ] );
+			for( std::size_t g( v ); g < gammas.size(); g += n )
+				norms[ v ] += gammas[ g ] = std::exp( gammas[ g ] - largest );
+		}
+		
 		// const numeric_type summe_all = std::accumulate( gammas.begin(), gammas.end(), static_cast< numeric_type >( 0 ) );
 		//std::transform( norms.begin(), norms.end(), norms.begin(), std::bind1st( std::divides< numeric_type >(), 1./static_cast< numeric_type > ( n ) ) );
 		
-- 
2.43.0


From bf601db8418d2662a19229e16e4393d61b35134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:54 +0000
Subject: [PATCH 71/78] fix: a component of a mixture that nearly no value
 belongs to got NaN as its mean

---
 src/utMath/Stochastic/expectation_maximization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/expectation_maximization.h b/src/utMath/Stochastic/expectation_maximization.h
index 1cff111..857f9ae 100644
--- a/src/utMath/Stochastic/expectation_maximization.h
+++ b/src/utMath/Stochastic/expectation_maximization.h
@@ -263,7 +263,7 @@ typename std::iterator_traits< OutputIterator >::value_type::value_type expectat
 			
 
 			// std::cout << " Distance " << std::distance( gammas.begin(), gammaIter ) << "\n";
-			std::transform( gammaIter, gammaIter+n, gammaIter, std::bind2nd( std::multiplies< numeric_type >(), 1./summe ) );
+			std::transform( gammaIter, gammaIter+n, gammaIter, std::bind2nd( std::divides< numeric_type >(), summe ) );
 			
 			// std::cout << " Sum for the PDFS " << std::accumulate( gammaIter, gammaIter+n, static_cast< numeric_type >( 0 ) )  << std::endl;
 			pdfIter->weight = summe / n ;
-- 
2.43.0


From 38926ab88c33f5bc5b88cf7a2cc98355101923ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:22 +0000
Subject: [PATCH 72/78] fix: a read error in a simple logging configuration was
 taken for the end of the file

---
 3rd/log4cpp/src/SimpleConfigurator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/3rd/log4cpp/src/SimpleConfigurator.cpp b/3rd/log4cpp/src/SimpleConfigurator.cpp
index 72fb79d..e7058cc 100644
--- a/3rd/log4cpp/src/SimpleConfigurator.cpp
+++ b/3rd/log4cpp/src/SimpleConfigurator.cpp
@@ -209,6 +209,10 @@ namespace log4cpp {
                 throw ConfigureFailure("Invalid format in logging configuration file. Command: " + nextCommand);
             }
         }
+
+        if (initFile.bad()) {
+            throw ConfigureFailure("Error while reading the logging configuration file");
+        }
     }
 }
 
-- 
2.43.0


From 0fd1dffc7e57d1a3ac0e119a5b709e20a33aa2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:50 +0000
Subject: [PATCH 73/78] fix: system log destinations configured without a
 facility used -8 as their facility

---
 3rd/log4cpp/src/PropertyConfiguratorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
index 59c5fd2..90d3de2 100644
--- a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
+++ b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
@@ -225,7 +225,7 @@ namespace log4cpp {
         else if (appenderType == "SyslogAppender") {
             std::string syslogName = _properties.getString(appenderPrefix + ".syslogName", "syslog");
             std::string syslogHost = _properties.getString(appenderPrefix + ".syslogHost", "localhost");
-            int facility = _properties.getInt(appenderPrefix + ".facility", -1) * 8; // * 8 to get LOG_KERN, etc. compatible values. 
+            int facility = _properties.getInt(appenderPrefix + ".facility", LOG_USER / 8) * 8; // * 8 to get LOG_KERN, etc. compatible values. 
             int portNumber = _properties.getInt(appenderPrefix + ".portNumber", -1);
             appender = new RemoteSyslogAppender(appenderName, syslogName, 
                                                 syslogHost, facility, portNumber);
@@ -233,7 +233,7 @@ namespace log4cpp {
 #ifdef LOG4CPP_HAVE_SYSLOG
         else if (appenderType == "LocalSyslogAppender") {
             std::string syslogName = _properties.getString(appenderPrefix + ".syslogName", "syslog");
-            int facility = _properties.getInt(appenderPrefix + ".facility", -1) * 8; // * 8 to get LOG_KERN, etc. compatible values. 
+            int facility = _properties.getInt(appenderPrefix + ".facility", LOG_USER / 8) * 8; // * 8 to get LOG_KERN, etc. compatible values. 
             appender = new SyslogAppender(appenderName, syslogName, facility);
         }
 #endif // LOG4CPP_HAVE_SYSLOG
-- 
2.43.0


From 5c7968e2eb7099fa9672ffeb0254e1f59c043974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:36 +0000
Subject: [PATCH 74/78] fix: rotations made of matrices of (almost) half a turn
 were rounding noise

---
 src/utMath/Quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index 793c624..6572bac 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -37,7 +37,7 @@ Quaternion::Quaternion( const Math::Matrix< double, 0, 0 >& mat )
 	double S, X, Y, Z, W;
 	double T = 1.0 + mat(0,0) + mat(1,1) + mat(2,2);
 
-	if (T > 0) {
+	if (T > 1e-8) { // nearer to half a turn S is lost in rounding errors
 		S = sqrt(T) * 2;
 		X = ( mat(1,2) - mat(2,1) ) / S;
 		Y = ( mat(2,0) - mat(0,2) ) / S;
-- 
2.43.0


From fd6b99903887c619f8850c4c24ff3f713140408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:36 +0000
Subject: [PATCH 75/78] fix: averages of rotations near half a turn cancelled
 out

---
 src/utMath/Stochastic/Average.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/utMath/Stochastic/Average.h b/src/utMath/Stochastic/Average.h
index 6d4bf24..af1e756 100644
--- a/src/utMath/Stochastic/Average.h
+++ b/src/utMath/Stochastic/Average.h
@@ -156,7 +156,9 @@ void Average< Math::Quaternion >::operator() ( const value_type& value )
 	++m_counter;
 	mean_type tmp;
 	Util::castToVector( value, tmp );
-	m_mean += (( value.w() >= 0 ) ? tmp : tmp * (-1) );
+	// the first one decides about the hemisphere, since the sign of a real part close to zero does not tell
+	const double side = m_counter > 1 ? m_mean[ 0 ] * tmp[ 0 ] + m_mean[ 1 ] * tmp[ 1 ] + m_mean[ 2 ] * tmp[ 2 ] + m_mean[ 3 ] * tmp[ 3 ] : tmp[ 3 ];
+	m_mean += (( side >= 0 ) ? tmp : tmp * (-1) );
 };
 
 /// overloaded getAverage function for Quaternion measurements, when new struct is available this should not be necessary anymore.
@@ -175,8 +177,9 @@ void Average< Math::Pose >::operator() ( const value_type& value )
 	mean_type tmp;
 	Util::castToVector( value, tmp );
 	// The order is tx, ty, tz, qx, qy, qz, qw.
-	// check now for real part (==qw) being positive and correct if necessary:
-	if( tmp[ 6 ] < 0 )
+	// bring the rotation in the hemisphere of the previous ones, or the first one in that with positive real part (==qw):
+	const double side = m_counter > 1 ? m_mean[ 3 ] * tmp[ 3 ] + m_mean[ 4 ] * tmp[ 4 ] + m_mean[ 5 ] * tmp[ 5 ] + m_mean[ 6 ] * tmp[ 6 ] : tmp[ 6 ];
+	if( side < 0 )
 	{
 		tmp[ 3 ] *= (-1);
 		tmp[ 4 ] *= (-1);
@@ -256,8 +259,9 @@ public:
 		Util::castToVector( value, tmp );
 		
 		// The order is tx, ty, tz, qx, qy, qz, qw.
-		// check now for real part (==qw) being positive and correct if necessary:
-		if( tmp[ 6 ] < 0 )
+		// bring the rotation in the hemisphere of the previous ones, or the first one in that with positive real part (==qw):
+		const double side = m_counter > 0 ? m_mean[ 3 ] * tmp[ 3 ] + m_mean[ 4 ] * tmp[ 4 ] + m_mean[ 5 ] * tmp[ 5 ] + m_mean[ 6 ] * tmp[ 6 ] : tmp[ 6 ];
+		if( side < 0 )
 		{
 			tmp[ 3 ] *= (-1);
 			tmp[ 4 ] *= (-1);
-- 
2.43.0


From 1a9d542834116645915e74ef73b445ca76a5e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:36 +0000
Subject: [PATCH 76/78] fix: Euler angles close to a pole were those of another
 rotation

---
 src/utMath/Quaternion.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index 6572bac..375c0a2 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -177,7 +177,7 @@ Vector< double, 3 > Quaternion::getEulerAngles( Quaternion::t_EulerSequence seq
 	double beta  = 2 * ( w_*y_ + sign*x_*z_ );
 
 	// Singularity at north pole
-	if ( beta > 0.998 ) 
+	if ( beta > 1 - 1e-12 ) 
 	{
 		alpha = 2 * atan2( x_, w_ );
 		beta  = boost::math::constants::pi<double>() / 2;
@@ -186,9 +186,9 @@ Vector< double, 3 > Quaternion::getEulerAngles( Quaternion::t_EulerSequence seq
 		return Vector< double, 3 >( alpha, beta, gamma );
 	}
 	// Singularity at south pole
-	if ( beta < -0.998 ) 
+	if ( beta < -1 + 1e-12 ) 
 	{
-		alpha = -2 * atan2( x_, w_ );
+		alpha = 2 * atan2( x_, w_ );
 		beta  = -boost::math::constants::pi<double>() / 2;
 		gamma = 0;
 
-- 
2.43.0


From 71c8015a4110163d804a479853a7c2b58e87c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:36 +0000
Subject: [PATCH 77/78] fix: the angle of a rotation was NaN when rounding made
 its real part exceed one

---
 src/utMath/Quaternion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Quaternion.h b/src/utMath/Quaternion.h
index 2588f54..d872c4f 100644
--- a/src/utMath/Quaternion.h
+++ b/src/utMath/Quaternion.h
@@ -177,7 +177,7 @@ class UBITRACK_EXPORT Quaternion
 		 * @return the angle of the rotation represented by the quaternion
 		 */
 		double angle() const
-		{ return 2 * acos( w() > 0 ? w() : -w() ); }
+		{ return fabs( w() ) > 1.0 ? 0.0 : 2 * acos( fabs( w() ) ); } // rounding may exceed one
 
 		/** 
 		 * sets the rotation of a given matrix to the value of the quaternion
-- 
2.43.0


From cc513f0df9b391cd55881aa924683b5c8428679e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:36 +0000
Subject: [PATCH 78/78] fix: a rotation about no axis, which toAxisAngle gives
 for the identity, was NaN

---
 src/utMath/Quaternion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Quaternion.h b/src/utMath/Quaternion.h
index d872c4f..0ce271f 100644
--- a/src/utMath/Quaternion.h
+++ b/src/utMath/Quaternion.h
@@ -97,7 +97,7 @@ class UBITRACK_EXPORT Quaternion
 		Quaternion( const Vector< double, 3 >& axis, const double angle )
 		{
 			double length = ::boost::numeric::ublas::norm_2(axis);
-			Vector< double, 3 > normAxis = axis*(sin(angle/2.0)/length);
+			Vector< double, 3 > normAxis = axis*(length > 0 ? sin(angle/2.0)/length : 0.0); // toAxisAngle gives no axis for the identity
 
 			a = cos(angle/2.0);
 			b = normAxis(0);
-- 
2.43.0

