From 7643a1bd687ef080b5868faac6f837a292d6ce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 01/57] fix: BitVector::invert leaves each element 0 or 1, so
 that inverted vectors compare and read back correctly

---
 BitVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BitVector.cpp b/BitVector.cpp
index f29ef52..1a5f764 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -155,7 +155,7 @@ void BitVector::writeFieldReversed(size_t& writeIndex, uint64_t value, unsigned
 void BitVector::invert()
 {
 	for (size_t i=0; i<size(); i++) {
-		mStart[i] = ~mStart[i];
+		mStart[i] = ~mStart[i] & 0x01;
 	}
 }
 
-- 
2.43.0


From e5542c105f2d6d5252ffb37740f48de0fff4023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 02/57] fix: BitVector::unhex refuses white space instead of
 reading the digit after it, possibly past the end

---
 BitVector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BitVector.cpp b/BitVector.cpp
index 1a5f764..b62b1ff 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -32,6 +32,7 @@
 #include <stdio.h>
 #include <sstream>
 #include <string.h>
+#include <ctype.h>
 #include <Logger.h>
 
 using namespace std;
@@ -430,7 +431,7 @@ bool BitVector::unhex(const char* src)
 	unsigned int val;
 	unsigned digits = size()/4;
 	for (unsigned i=0; i<digits; i++) {
-		if (sscanf(src+i, "%1x", &val) < 1) {
+		if (!isxdigit((unsigned char)src[i]) || sscanf(src+i, "%1x", &val) < 1) {
 			return false;
 		}
 		fillField(i*4,val,4);
@@ -438,7 +439,7 @@ bool BitVector::unhex(const char* src)
 	unsigned whole = digits*4;
 	unsigned rem = size() - whole;
 	if (rem>0) {
-		if (sscanf(src+digits, "%1x", &val) < 1) {
+		if (!isxdigit((unsigned char)src[digits]) || sscanf(src+digits, "%1x", &val) < 1) {
 			return false;
 		}
 		fillField(whole,val,rem);
-- 
2.43.0


From fa6c264d1c0c3e0eed4da4badbd38bbe9c762a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 03/57] fix: assigning a vector to itself, or cloning it from
 its own content, no longer discards the content

---
 Vector.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Vector.h b/Vector.h
index 91b850b..c27ef46 100644
--- a/Vector.h
+++ b/Vector.h
@@ -150,6 +150,7 @@ template <class T> class VectorBase
 	void shiftMem(VectorBase<T>&other)
 	{
 		VECTORDEBUG("VectorBase::shiftMem(%p)",(void*)&other);
+		if (this == &other) return;
 		this->clear();
 		this->mData=other.mData;
 		this->mStart=other.mStart;
@@ -195,8 +196,13 @@ template <class T> class VectorBase
 
 	/** Copy data from another vector. */
 	void clone(const VectorBase<T>& other) {
-		this->resize(other.size());
-		memcpy(mData,other.mStart,other.bytes());
+		// Copy before releasing: other may be this vector, or an alias into it.
+		const VectorDataType old = mData;
+		const T* const src = other.mStart;
+		const size_t elements = other.size();
+		vInit(elements);
+		if (elements) memcpy(mData,src,elements*sizeof(T));
+		if (old!=NULL) delete[] old;
 	}
 
 	void vConcat(const VectorBase<T>&other1, const VectorBase<T>&other2) {
-- 
2.43.0


From bc76cb0073930176e6346d7fc08da08064edb33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 04/57] fix: sqlite helpers quote key and attribute text, so
 quotes, column names and long text are data

---
 sqlite3util.cpp | 50 +++++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index b7ebd43..5a74f59 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -85,18 +85,23 @@ int sqlite3_run_query(sqlite3* DB, sqlite3_stmt *stmt, unsigned retries)
 	return src;
 }
 
-// condition buffer is size 100 minimum.
-static const unsigned sqlBufferSize = 100;
-static const char *condition_c(char *resultBuffer,const char *keyName, const char*keyValue)
+// Take over a string allocated by sqlite3_mprintf.
+static string takeSqlString(char *sqlText)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == '%s'",keyName,keyValue);
-	return resultBuffer;
+	string result(sqlText ? sqlText : "");
+	sqlite3_free(sqlText);
+	return result;
+}
+
+// The key value is data of any text and length, so it must be quoted (%Q) and not truncated.
+static string condition_c(const char *keyName, const char*keyValue)
+{
+	return takeSqlString(sqlite3_mprintf("WHERE %s == %Q",keyName,keyValue));
 }
 
-static const char *condition_u(char *resultBuffer,const char *keyName, unsigned keyValue)
+static string condition_u(const char *keyName, unsigned keyValue)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == %u",keyName,keyValue);
-	return resultBuffer;
+	return takeSqlString(sqlite3_mprintf("WHERE %s == %u",keyName,keyValue));
 }
 
 void sqlQuery::queryStart(sqlite3*db, const char *tableName,const char *resultColumns, const char*condition)
@@ -132,14 +137,12 @@ sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,c
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, unsigned keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_u(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_u(keyName,keyData).c_str());
 }
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, const char *keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_c(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_c(keyName,keyData).c_str());
 }
 
 sqlQuery::~sqlQuery()
@@ -166,12 +169,10 @@ sqlite3_int64 sqlQuery::getResultInt(int colNum)
 bool sqlite3_exists(sqlite3* DB, const char *tableName,
 		const char* keyName, const char* keyData, unsigned retries)
 {
-	size_t stringSize = 100 + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	sprintf(query,"SELECT * FROM %s WHERE %s == \"%s\"",tableName,keyName,keyData);
+	string query = takeSqlString(sqlite3_mprintf("SELECT * FROM %s WHERE %s == %Q",tableName,keyName,keyData));
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	sqlite3_finalize(stmt);
@@ -185,12 +186,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char *tableName,
 		const char* keyName, const char* keyData,
 		const char* valueName, unsigned &valueData, unsigned retries)
 {
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	sprintf(query,"SELECT %s FROM %s WHERE %s == \"%s\"",valueName,tableName,keyName,keyData);
+	string query = takeSqlString(sqlite3_mprintf("SELECT %s FROM %s WHERE %s == %Q",valueName,tableName,keyName,keyData));
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
@@ -317,12 +316,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
 		const char* valueName, char* &valueData, unsigned retries)
 {
 	valueData=NULL;
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	snprintf(query,stringSize,"SELECT %s FROM %s WHERE %s == \"%s\"",valueName,tableName,keyName,keyData);
+	string query = takeSqlString(sqlite3_mprintf("SELECT %s FROM %s WHERE %s == %Q",valueName,tableName,keyName,keyData));
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
@@ -370,9 +367,8 @@ bool sqlite_set_attr(sqlite3*db,const char *attr_name,const char*attr_value)
 		_LOG(WARNING) << "Could not create ATTR_TABLE in database file ";// <<(fn?fn:"");
 		return false;
 	}
-	char query[100];
-	snprintf(query,100,"REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES('%s','%s')",attr_name,attr_value);
-	if (! sqlite3_command(db,query)) {
+	string query = takeSqlString(sqlite3_mprintf("REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES(%Q,%Q)",attr_name,attr_value));
+	if (! sqlite3_command(db,query.c_str())) {
 		// (mike) 2014-06: to free ourselves of the in-tree sqlite3 code, the system library must be used.
 		//        However, sqlite3_db_filename is not available in Ubuntu 12.04. Removing dependence for now.
 		//const char *fn = sqlite3_db_filename(db,"main");
-- 
2.43.0


From 2900774417f8b5bdba5304083e04acb3586325de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 05/57] fix: ConfigurationTable set, remove and find quote
 their text, so quotes in keys, values and descriptions are data

---
 Configuration.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 2488a6b..dbe568c 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -833,8 +833,10 @@ bool ConfigurationTable::remove(const string& key)
 	ConfigurationMap::iterator where = mCache.find(key);
 	if (where!=mCache.end()) mCache.erase(where);
 	// Really remove it.
-	string cmd = "DELETE FROM CONFIG WHERE KEYSTRING=='"+key+"'";
-	return sqlite3_command(mDB,cmd.c_str());
+	char *cmd = sqlite3_mprintf("DELETE FROM CONFIG WHERE KEYSTRING==%Q",key.c_str());
+	bool success = sqlite3_command(mDB,cmd);
+	sqlite3_free(cmd);
+	return success;
 }
 
 
@@ -842,9 +844,11 @@ bool ConfigurationTable::remove(const string& key)
 void ConfigurationTable::find(const string& pat, ostream& os) const
 {
 	// Prepare the statement.
-	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE \"%" + pat + "%\"";
+	char *cmd = sqlite3_mprintf("SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE '%%%q%%'",pat.c_str());
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(mDB,&stmt,cmd.c_str())) return;
+	int rc = sqlite3_prepare_statement(mDB,&stmt,cmd);
+	sqlite3_free(cmd);
+	if (rc) return;
 	// Read the result.
 	int src = sqlite3_run_query(mDB,stmt);
 	while (src==SQLITE_ROW) {
@@ -893,14 +897,16 @@ bool ConfigurationTable::set(const string& key, const string& value)
 {
 	assert(mDB);
 	ScopedLock lock(mLock);
-	string cmd;
+	char *cmd;
 	if (keyDefinedInSchema(key)) {
-		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES (\"" + key + "\",\"" + value + "\",1,\'" + mSchema[key].getDescription() + "\')";
+		cmd = sqlite3_mprintf("INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES (%Q,%Q,1,%Q)",
+			key.c_str(),value.c_str(),mSchema[key].getDescription().c_str());
 	} else {
-		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES (\"" + key + "\",\"" + value + "\",1)";
+		cmd = sqlite3_mprintf("INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES (%Q,%Q,1)",key.c_str(),value.c_str());
 	}
 	
-	bool success = sqlite3_command(mDB,cmd.c_str());
+	bool success = sqlite3_command(mDB,cmd);
+	sqlite3_free(cmd);
 	// Cache the result.
 	if (success) mCache[key] = ConfigurationRecord(key,value);
 	return success;
-- 
2.43.0


From 4a8b89eaa917e37d7995d968218b747f453aa1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 06/57] fix: ConfigurationTable::remove returns true only if
 something was actually removed, as documented

---
 Configuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index dbe568c..05d13f8 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -834,7 +834,7 @@ bool ConfigurationTable::remove(const string& key)
 	if (where!=mCache.end()) mCache.erase(where);
 	// Really remove it.
 	char *cmd = sqlite3_mprintf("DELETE FROM CONFIG WHERE KEYSTRING==%Q",key.c_str());
-	bool success = sqlite3_command(mDB,cmd);
+	bool success = sqlite3_command(mDB,cmd) && sqlite3_changes(mDB) > 0;
 	sqlite3_free(cmd);
 	return success;
 }
-- 
2.43.0


From f6c27fd7b9b00248800a1ccc358f609bab86663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 07/57] fix: getDefaultSQL quotes keys, defaults and
 descriptions, so the generated SQL loads whatever they contain

---
 Configuration.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 05d13f8..5624d62 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -210,6 +210,17 @@ ConfigurationTable::ConfigurationTable(const char* filename, const char *wCmdNam
 
 }
 
+// Quote text as an SQL string.
+static string sqlQuoted(const string& text)
+{
+	string result("'");
+	for (size_t i=0; i<text.size(); i++) {
+		if (text[i] == '\'') result += '\'';
+		result += text[i];
+	}
+	return result + "'";
+}
+
 string ConfigurationTable::getDefaultSQL(const std::string& program, const std::string& version)
 {
 	stringstream ss;
@@ -231,9 +242,9 @@ string ConfigurationTable::getDefaultSQL(const std::string& program, const std::
 	while (mp != mSchema.end()) {
 		ss << "INSERT OR IGNORE INTO \"CONFIG\" VALUES(";
 			// name
-			ss << "'" << mp->first << "',";
+			ss << sqlQuoted(mp->first) << ",";
 			// default
-			ss << "'" << mp->second.getDefaultValue() << "',";
+			ss << sqlQuoted(mp->second.getDefaultValue()) << ",";
 			// static
 			if (mp->second.isStatic()) {
 				ss << "1";
@@ -244,19 +255,14 @@ string ConfigurationTable::getDefaultSQL(const std::string& program, const std::
 			// optional
 			ss << "0,";
 			// description
-			const string description = mp->second.getDescription();
-			// Try to use a quote that will work: if the description contains ' quote with " else '.
-			// This is not perfect because these quotes could themselves be quoted.
-			const char * quote = string::npos != description.find('\'') ? "\"" : "'";
-			ss << quote;
+			string description = mp->second.getDescription();
 			if (mp->second.getType() == ConfigurationKey::BOOLEAN) {
-				ss << "1=enabled, 0=disabled - ";
+				description = "1=enabled, 0=disabled - " + description;
 			}
-			ss << mp->second.getDescription();
 			if (mp->second.isStatic()) {
-				ss << "  Static.";
+				description += "  Static.";
 			}
-			ss << quote;
+			ss << sqlQuoted(description);
 		ss << ");" << endl;
 		mp++;
 	}
-- 
2.43.0


From f22a1398777c0a689101ace8a258c86dc20c4e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 08/57] fix: each ConfigurationTable ages its own cache; one
 table purging no longer keeps another stale

---
 Configuration.cpp | 6 +++---
 Configuration.h   | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 5624d62..d1b5780 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -94,6 +94,7 @@ float ConfigurationRecord::floatNumber() const
 
 
 ConfigurationTable::ConfigurationTable(const char* filename, const char *wCmdName, ConfigurationKeyMap wSchema)
+	:mTimeOfLastPurge(0)
 {
 	gLogEarly(LOG_INFO, "opening configuration table from path %s", filename);
 	// Connect to the database.
@@ -928,12 +929,11 @@ bool ConfigurationTable::set(const string& key, long value)
 void ConfigurationTable::checkCacheAge()
 {
 	// mLock is set by caller 
-	static time_t timeOfLastPurge = 0;
 	time_t now = time(NULL);
 	// purge every 3 seconds
 	// purge period cannot be configuration parameter
-	if (now - timeOfLastPurge < 3) return;
-	timeOfLastPurge = now;
+	if (now - mTimeOfLastPurge < 3) return;
+	mTimeOfLastPurge = now;
 	// this is purge() without the lock
 	ConfigurationMap::iterator mp = mCache.begin();
 	while (mp != mCache.end()) {
diff --git a/Configuration.h b/Configuration.h
index 5f6004d..8646da7 100644
--- a/Configuration.h
+++ b/Configuration.h
@@ -37,6 +37,7 @@
 #include <arpa/inet.h>
 #include <regex.h>
 
+#include <time.h>
 #include <map>
 #include <vector>
 #include <string>
@@ -196,6 +197,7 @@ class ConfigurationTable {
 
 	sqlite3* mDB;				///< database connection
 	ConfigurationMap mCache;	///< cache of recently access configuration values
+	time_t mTimeOfLastPurge;	///< when the cache was last emptied because of its age
 	mutable Mutex mLock;		///< control for multithreaded access to the cache
 	std::vector<std::string> (*mCrossCheck)(const std::string&);	///< cross check callback pointer
 
-- 
2.43.0


From f167ea5d8b59cd0c310f6a70f99cf3dbf36ee00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 09/57] fix: validating a value for an unknown key is refused
 and no longer adds the key to the schema

---
 Configuration.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index d1b5780..1f68ade 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -368,7 +368,9 @@ bool ConfigurationTable::keyDefinedInSchema(const std::string& name)
 bool ConfigurationTable::isValidValue(const std::string& name, const std::string& val) {
 	bool ret = false;
 
-	ConfigurationKey key = mSchema[name];
+	ConfigurationKeyMap::const_iterator found = mSchema.find(name);
+	if (found == mSchema.end()) return false;	// mSchema[name] would add the key to the schema.
+	ConfigurationKey key = found->second;
 
 	switch (key.getType()) {
 		case ConfigurationKey::BOOLEAN: {
-- 
2.43.0


From 8f9a647ff7ebdbebc789f4aa3d1dd9e6046a26a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 10/57] fix: value validation handles missing separators, plain
 choices and lists of addresses with ports (string::npos kept in 32 bits)

---
 Configuration.cpp | 65 ++++++++++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 1f68ade..07ebba0 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -387,26 +387,21 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::CHOICE: {
-			int startPos = -1;
-			uint endPos = 0;
+			size_t startPos = 0;
 
 			std::string tmp = key.getValidValues();
 
-			do {
-				startPos++;
-				if ((endPos = tmp.find('|', startPos)) != std::string::npos) {
-					if (val == tmp.substr(startPos, endPos-startPos)) {
-						ret = true;
-						break;
-					}
-				} else {
-					if (val == tmp.substr(startPos, tmp.find(',', startPos)-startPos)) {
-						ret = true;
-						break;
-					}
+			while (true) {
+				// Each choice is <value> [ '|' <description> ]
+				size_t comma = tmp.find(',', startPos);
+				size_t endPos = std::min(tmp.find('|', startPos), comma);
+				if (val == tmp.substr(startPos, endPos-startPos)) {
+					ret = true;
+					break;
 				}
-
-			} while ((startPos = tmp.find(',', startPos)) != (int)std::string::npos);
+				if (comma == std::string::npos) break;
+				startPos = comma + 1;
+			}
 			break;
 		}
 
@@ -417,7 +412,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::CIDR: {
-			uint delimiter;
+			size_t delimiter;
 			std::string ip;
 			int cidr = -1;
 
@@ -461,7 +456,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::HOSTANDPORT: {
-			uint delimiter;
+			size_t delimiter;
 			std::string host;
 			int port = -1;
 			bool validHost = false;
@@ -506,7 +501,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 		}
 
 		case ConfigurationKey::IPANDPORT: {
-			uint delimiter;
+			size_t delimiter;
 			std::string ip;
 			int port = -1;
 
@@ -528,24 +523,24 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::MIPADDRESS: {
-			int startPos = -1;
-			uint endPos = 0;
-			uint delimiter;
+			size_t startPos = 0;
+			size_t endPos = 0;
+			size_t delimiter;
 			std::string ip;
 			int port = -1;
 
-			do {
-				startPos++;
+			while (true) {
 				endPos = val.find(' ', startPos);
+				const std::string entry = val.substr(startPos, endPos-startPos);
 				port = -1;
 
-				if (ConfigurationKey::isValidIP(val.substr(startPos, endPos-startPos))) {
+				if (ConfigurationKey::isValidIP(entry)) {
 					ret = true;
 				} else {
-					delimiter = val.find(':');
+					delimiter = entry.find(':');
 					if (delimiter != std::string::npos) {
-						ip = val.substr(startPos, delimiter);
-						std::stringstream(val.substr(delimiter+1, endPos)) >> port;
+						ip = entry.substr(0, delimiter);
+						std::stringstream(entry.substr(delimiter+1)) >> port;
 						if (ConfigurationKey::isValidIP(ip) && 1 <= port && port <= 65535) {
 							ret = true;
 						} else {
@@ -558,7 +553,9 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 					}
 				}
 
-			} while ((startPos = endPos) != (int)std::string::npos);
+				if (endPos == std::string::npos) break;
+				startPos = endPos + 1;
+			}
 			break;
 		}
 
@@ -569,7 +566,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::PORT: {
-			int intVal;
+			int intVal = 0;
 
 			std::stringstream(val) >> intVal;
 
@@ -1056,16 +1053,16 @@ bool ConfigurationKey::isValidIP(const std::string& ip) {
 
 
 void ConfigurationKey::getMinMaxStepping(const ConfigurationKey &key, std::string &min, std::string &max, std::string &stepping) {
-	uint delimiter;
-	int startPos;
-	uint endPos;
+	size_t delimiter;
+	size_t startPos;
+	size_t endPos;
 
 	std::string tmp = key.getValidValues();
 	stepping = "1";
 
 	// grab steps if they're defined
 	startPos = tmp.find('(');
-	if (startPos != (int)std::string::npos) {
+	if (startPos != std::string::npos) {
 		endPos = tmp.find(')');
 		stepping = tmp.substr(startPos+1, endPos-startPos-1);
 		tmp = tmp.substr(0, startPos);
-- 
2.43.0


From ff8497580a445ce867a576b77c8850333bdf1c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 11/57] fix: printDescription lists plain choices one by one

---
 Configuration.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 07ebba0..fd9fc1f 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -1237,7 +1237,7 @@ void ConfigurationKey::printDescription(const ConfigurationKey &key, ostream& os
 	tmp = key.getValidValues();
 	if (key.getType() == ConfigurationKey::VALRANGE) {
 		int startPos = tmp.find('(');
-		uint delimiter = 0;
+		size_t delimiter = 0;
 		if (startPos != (int)std::string::npos) {
 			tmp = tmp.substr(0, startPos);
 		}
@@ -1253,11 +1253,12 @@ void ConfigurationKey::printDescription(const ConfigurationKey &key, ostream& os
 
 	} else if (key.getType() == ConfigurationKey::CHOICE) {
 		int startPos = -1;
-		uint endPos = 0;
+		size_t endPos = 0;
 
 		do {
 			startPos++;
-			if ((endPos = tmp.find('|', startPos)) != std::string::npos) {
+			endPos = tmp.find('|', startPos);
+			if (endPos != std::string::npos && endPos < tmp.find(',', startPos)) {
 				os << " - valid values:     " << tmp.substr(startPos, endPos-startPos);
 				os << " = " << tmp.substr(endPos+1, tmp.find(',', endPos)-endPos-1) << std::endl;
 			} else {
-- 
2.43.0


From cbc42d92e828d2f2d180b1b3c9ff7336603b0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 12/57] fix: HashString operator> compares greater, not less

---
 Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Configuration.h b/Configuration.h
index 8646da7..67a2715 100644
--- a/Configuration.h
+++ b/Configuration.h
@@ -172,7 +172,7 @@ class HashString : public std::string {
 
 	bool operator>(const HashString& other)
 	{
-		return mHash<other.mHash;
+		return mHash>other.mHash;
 	}
 
 	uint64_t hash() const { return mHash; }
-- 
2.43.0


From a55404bda9eb9d2a621e54de2034d4528e3bf270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 13/57] fix: SimpleKeyValue releases its working copies

---
 Configuration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index fd9fc1f..6834fe4 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -995,7 +995,7 @@ void SimpleKeyValue::addItem(const char* pair_orig)
 	char *pair = strdup(pair_orig);
 	char *key = pair;
 	char *mark = strchr(pair,'=');
-	if (!mark) return;
+	if (!mark) { free(pair); return; }
 	*mark = '\0';
 	char *value = mark+1;
 	mMap[key] = value;
@@ -1038,8 +1038,9 @@ long SimpleKeyValue::getNum(const char *key, bool &valid) const
 void SimpleKeyValue::addItems(const char* pairs_orig)
 {
 	char *pairs = strdup(pairs_orig);
+	char *next = pairs;	// strsep moves this along, and leaves it NULL at the end.
 	char *thisPair;
-	while ((thisPair=strsep(&pairs," "))!=NULL) {
+	while ((thisPair=strsep(&next," "))!=NULL) {
 		addItem(thisPair);
 	}
 	free(pairs);
-- 
2.43.0


From d02990eae24fe6e3c409cbe9685c7854d3a1ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 14/57] fix: URLEncode writes the right hexadecimal digits and
 escapes NUL bytes

---
 URLEncode.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/URLEncode.cpp b/URLEncode.cpp
index a993ac6..4d26c72 100644
--- a/URLEncode.cpp
+++ b/URLEncode.cpp
@@ -32,12 +32,12 @@ using namespace std;
 //based on javascript encodeURIComponent()
 string URLEncode(const string &c)
 {
-	static const char *digits = "01234567890ABCDEF";
+	static const char *digits = "0123456789ABCDEF";
 	string retVal="";
 	for (size_t i=0; i<c.length(); i++)
 	{
-		const char ch = c[i];
-		if (isalnum(ch) || strchr("-_.!~'()",ch)) {
+		const unsigned char ch = c[i];
+		if (isalnum(ch) || (ch && strchr("-_.!~'()",ch))) {
 			retVal += ch;
 		} else {
 			retVal += '%';
-- 
2.43.0


From ca2463361e0e1ffbb4e37f29e38706276ce00b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 15/57] fix: F16 assignment returns the assigned number, not
 its raw bits converted again

---
 F16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F16.h b/F16.h
index 374c91a..2d98c63 100644
--- a/F16.h
+++ b/F16.h
@@ -82,7 +82,7 @@ class F16 {
 	F16 operator=(const F16& other)
 	{
 		mV = other.mV;
-		return mV;
+		return *this;
 	}
 
 	F16 operator+(const F16& other) const
-- 
2.43.0


From c806996c51298854f8f885450ab626dfcf6406f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 16/57] fix: Timeval::future carries a full million of
 microseconds into the seconds

---
 Timeval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index e0ec49d..c0f9dbd 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -38,7 +38,7 @@ void Timeval::future(unsigned offset)	// In msecs
 	unsigned msec = offset%1000;
 	mTimeval.tv_usec += msec*1000;
 	mTimeval.tv_sec += sec;
-	if (mTimeval.tv_usec>1000000) {
+	if (mTimeval.tv_usec>=1000000) {
 		mTimeval.tv_usec -= 1000000;
 		mTimeval.tv_sec += 1;
 	}
-- 
2.43.0


From 9e5840c19f1ff238c449a589193b0108579b1cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 17/57] fix: Timeval::delta no longer overflows for differences
 beyond 24 days

---
 Timeval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index c0f9dbd..6f0655a 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -75,7 +75,7 @@ long Timeval::delta(const Timeval& other) const
 	// 2^31 milliseconds is just over 4 years.
 	int32_t deltaS = other.sec() - sec();
 	int32_t deltaUs = other.usec() - usec();
-	return 1000*deltaS + deltaUs/1000;
+	return 1000L*deltaS + deltaUs/1000;
 }
 	
 
-- 
2.43.0


From 5b134331fda427c37d66741a2d1c30e55876e70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 18/57] fix: format no longer drops the last character of a 199
 character result

---
 Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index aed42c7..952283b 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -134,7 +134,7 @@ string format(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
@@ -177,7 +177,7 @@ string format1(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
-- 
2.43.0


From 3e12f981e669dc40aa1d717bdb47231295eb68cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 19/57] fix: Statistic::text does not copy overlapping text
 with strcpy

---
 Utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.h b/Utils.h
index 988235b..861876b 100644
--- a/Utils.h
+++ b/Utils.h
@@ -150,7 +150,7 @@ template<class Type> struct Statistic {
 			} else { // Shorten this up:
 				char buf[10], *ep;
 				sprintf(buf,"%.3g",round(mCnt));
-				if ((ep = strchr(buf,'e')) && ep[1] == '+') { strcpy(ep+1,ep+2); }
+				if ((ep = strchr(buf,'e')) && ep[1] == '+') { memmove(ep+1,ep+2,strlen(ep+2)+1); }
 				os << LOGVAR2("N",buf);
 			}
 			// os<<LOGVAR2("sd",getSD())  standard deviation not interesting
-- 
2.43.0


From 094cba03aa22aff435f164a02bf0df584fd1e124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 20/57] fix: cstrSplit gives the final argument the rest of the
 input instead of losing it

---
 Utils.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index 952283b..d34caf6 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -355,7 +355,7 @@ int gcd(int x, int y)
 // Split a C string into an argc,argv array in place; the input string is modified.
 // Returns argc, and places results in argv, up to maxargc elements.
 // The final argv receives the rest of the input string from maxargc on,
-// even if it contains additional splitchars.
+// even if it contains additional splitchars, except for splitchars at its very end.
 // The correct idiom for use is to make a copy of your string, like this:
 // char *copy = strcpy((char*)alloca(the_string.length()+1),the_string.c_str());
 // char *argv[2];
@@ -372,6 +372,12 @@ int cstrSplit(char *in, char **pargv,int maxargc, const char *splitchars)
 		while (*in && strchr(splitchars,*in)) {in++;}	// scan past any splitchars
 		if (! *in) return argc;					// return if finished.
 		pargv[argc++] = in;						// save ptr to start of arg.
+		if (argc == maxargc) {					// the final arg receives the rest.
+			char *end = in + strlen(in);
+			while (end > in && strchr(splitchars,end[-1])) {end--;}
+			*end = 0;
+			return argc;
+		}
 		in = strpbrk(in,splitchars);			// go to end of arg.
 		if (!in) return	argc;					// return if finished.
 		*in++ = 0;								// zero terminate this arg.
-- 
2.43.0


From f8186384b8c07e56626d0d7d952fbaf01963504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 21/57] fix: replaceAll keeps string::npos in a size_t and
 returns when the search text is empty

---
 Utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index d34caf6..64d59eb 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -483,7 +483,9 @@ ostream& operator<<(std::ostream& os, const Statistic<double> &stat) { stat.text
 string replaceAll(const std::string input, const std::string search, const std::string replace)
 {
 	string output = input;
- 	unsigned index1 = 0;
+ 	size_t index1 = 0;
+
+	if (search.empty()) { return output; }	// There is nothing to look for.
 
 	while (index1 < output.size()) {
 	  try {
-- 
2.43.0


From e53bbe554838bcfa52361e0329e17a6c50317e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 22/57] fix: myscanf leaves its string alone when nothing was
 converted

---
 Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index 64d59eb..2840dc8 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -199,7 +199,7 @@ int myscanf(const char *str, const char *fmt, string *s1)
 	int maxlen = strlen(str)+1;
 	char *a1 = (char*)alloca(maxlen);
 	int n = sscanf(str,fmt,a1);
-	s1->assign(a1);
+	if (n >= 1) { s1->assign(a1); }
 	return n;
 }
 int myscanf(const char *str, const char *fmt, string *s1, string *s2)
-- 
2.43.0


From d1ca61e168c5c0da92ebfcf0e48f1bb86389eea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 23/57] fix: InterthreadQueue::qGetLock and its iterators use
 the lock that is really taken after iqConnect

---
 Interthread.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index b6057d2..2968ead 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -132,13 +132,13 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 	}
 
 	// (pat) This provides a client the ability to lock the InterthreadQueue and iterate it.
-	Mutex &qGetLock() const { return mLock; }
+	Mutex &qGetLock() const { return *mLockPointer; }
 	typedef typename Fifo::iterator iterator;
 	typedef typename Fifo::const_iterator const_iterator;
-	iterator begin() { assert(mLock.lockcnt()); return mQ.begin(); }
-	iterator end() { assert(mLock.lockcnt()); return mQ.end(); }
-	const_iterator begin() const { assert(mLock.lockcnt()); return mQ.begin(); }
-	const_iterator end() const { assert(mLock.lockcnt()); return mQ.end(); }
+	iterator begin() { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	iterator end() { assert(mLockPointer->lockcnt()); return mQ.end(); }
+	const_iterator begin() const { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	const_iterator end() const { assert(mLockPointer->lockcnt()); return mQ.end(); }
 
 #if USE_SCOPED_ITERATORS
 	// The Iterator locks the InterthreadQueue until the Iterator falls out of scope.
-- 
2.43.0


From bd11da58117fb5f004f656692b8b9f80caa09d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 24/57] fix: InterthreadQueue::iqWaitForEither returns when its
 timeout has passed instead of spinning

---
 Interthread.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index 2968ead..010110f 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -222,7 +222,9 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 		if (timeout) {
 			Timeval waitTime(timeout);
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-				mWriteSignalPointer->wait(*mLockPointer,waitTime.remaining());
+				long remaining = waitTime.remaining();
+				if (remaining < 2) { return; }
+				mWriteSignalPointer->wait(*mLockPointer,remaining);
 			}
 		} else {	// Wait forever.
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-- 
2.43.0


From 32be3c5a6e98851c8987ff7c57aa8078325c280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 25/57] fix: InterthreadQueueWithWait wakes every thread
 waiting for it to drain, not just one of them

---
 Interthread.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index 010110f..1a219cb 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -345,7 +345,7 @@ template <class T> class InterthreadQueueWithWait {
 	{
 		ScopedLock lock(mLock);
 		while (mQ.size()>0) freeElement((T*)mQ.get());
-		mReadSignal.signal();
+		mReadSignal.broadcast();
 	}
 
 
@@ -372,7 +372,7 @@ template <class T> class InterthreadQueueWithWait {
 			mWriteSignal.wait(mLock);
 			retVal = (T*)mQ.get();
 		}
-		mReadSignal.signal();
+		mReadSignal.broadcast();
 		return retVal;
 	}
 
@@ -397,7 +397,7 @@ template <class T> class InterthreadQueueWithWait {
 			mWriteSignal.wait(mLock,remaining);
 		}
 		T* retVal = (T*)mQ.get();
-		if (retVal!=NULL) mReadSignal.signal();
+		if (retVal!=NULL) mReadSignal.broadcast();
 		return retVal;
 	}
 
@@ -409,7 +409,7 @@ template <class T> class InterthreadQueueWithWait {
 	{
 		ScopedLock lock(mLock);
 		T* retVal = (T*)mQ.get();
-		if (retVal!=NULL) mReadSignal.signal();
+		if (retVal!=NULL) mReadSignal.broadcast();
 		return retVal;
 	}
 
-- 
2.43.0


From 52510cfbcdbd7de44023da1610529c8f6a316867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 26/57] fix: InterthreadMap1::size takes the lock (it did not
 compile)

---
 Interthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index 1a219cb..d402be2 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -597,7 +597,7 @@ public:
 	}
 
 	// pat added.
-	unsigned size() const { ScopedLock(mLock); return mMap.size(); }
+	unsigned size() const { ScopedLock lock(mLock); return mMap.size(); }
 
 	// WARNING: These iterators are not intrinsically thread safe.
 	// Caller must use ScopedIterator or the modification lock or enclose the entire iteration in some higher level lock.
-- 
2.43.0


From 155a6b8ac6a6c974d38a8282d2fc42f91e446a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 27/57] fix: destroying an InterthreadMap deletes the elements
 it still holds

---
 Interthread.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Interthread.h b/Interthread.h
index d402be2..2adca2c 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -614,6 +614,15 @@ public:
 template <class K, class D > class InterthreadMap : public InterthreadMap1<K,D*>
 {
 	void vdelete(D* foo) { delete foo; }
+	public:
+	// The base class destructor cannot call the vdelete above, so the elements have to be deleted here.
+	~InterthreadMap() {
+		ScopedLock lock(this->mLock);
+		for (typename std::map<K,D*>::iterator iter = this->mMap.begin(); iter != this->mMap.end(); ++iter) {
+			vdelete(iter->second);
+		}
+		this->mMap.clear();
+	}
 };
 
 
-- 
2.43.0


From 5512bd9ea5a6a28d8f2875388fd88ba70efdcd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 28/57] fix: Mutex::timedlock counts the lock it acquired and
 reports success only when it has it

---
 Threads.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index b20e158..696c858 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -125,7 +125,12 @@ bool Mutex::timedlock(int msecs) // Wait this long in milli-seconds.
 {
 	Timeval future(msecs);
 	struct timespec timeout = future.timespec();
-	return ETIMEDOUT != pthread_mutex_timedlock(&mMutex, &timeout);
+	if (pthread_mutex_timedlock(&mMutex, &timeout) != 0) { return false; }
+	if (mLockCnt >= 0 && mLockCnt < maxLocks) {
+		mLockerFile[mLockCnt] = NULL; mLockerLine[mLockCnt] = 0;
+	}
+	mLockCnt++;
+	return true;
 }
 
 // There is a chance here that the mLockerFile&mLockerLine
@@ -162,7 +167,9 @@ void Mutex::lock(const char *file, unsigned line)
 	if (file) {
 		LOCKLOG(DEBUG,"start at %s %u",file,line);
 		// If we wait more than a second, print an error message.
-		if (!timedlock(1000)) {
+		if (timedlock(1000)) {
+			mLockCnt--;					// It is counted below.
+		} else {
 			string backtrace = rn_backtrace();
 			LOCKLOG(ERR, "Blocked more than one second at %s %u by %s %s",file,line,mutext().c_str(),backtrace.c_str());
 			printf("WARNING: %s Blocked more than one second at %s %u by %s %s\n",timestr(4).c_str(),file,line,mutext().c_str(),backtrace.c_str());
-- 
2.43.0


From 1681cec0949a528f1068a2c2f700075e3b972de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 29/57] fix: a mutex given up for a signal wait is not counted
 as held by the waiter

---
 Threads.cpp | 2 ++
 Threads.h   | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/Threads.cpp b/Threads.cpp
index 696c858..e9e3abc 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -280,7 +280,9 @@ void Signal::wait(Mutex& wMutex, long timeout) const
 	if (timeout <= 0) { return; }	// (pat) Timeout passed already
 	Timeval then(timeout);
 	struct timespec waitTime = then.timespec();
+	wMutex.mLockCnt--;		// The mutex is not held during the wait.
 	pthread_cond_timedwait(&mSignal,&wMutex.mMutex,&waitTime);
+	wMutex.mLockCnt++;
 }
 
 struct wrapArgs
diff --git a/Threads.h b/Threads.h
index 6e004ba..07c7321 100644
--- a/Threads.h
+++ b/Threads.h
@@ -249,7 +249,11 @@ class Signal {
 		Under Linux, spurious returns are possible.
 	*/
 	void wait(Mutex& wMutex) const
-		{ pthread_cond_wait(&mSignal,&wMutex.mMutex); }
+	{
+		wMutex.mLockCnt--;		// The mutex is not held during the wait.
+		pthread_cond_wait(&mSignal,&wMutex.mMutex);
+		wMutex.mLockCnt++;
+	}
 
 	void signal() { pthread_cond_signal(&mSignal); }
 
-- 
2.43.0


From 5d54d7a762e0241d30b0c27b5d0e75ccb44ad762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 30/57] fix: ScopedLockMultiple never waits for one mutex while
 holding another, also when the caller owns some on entry

---
 Threads.cpp | 18 +++++++++---------
 Threads.h   |  1 +
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index e9e3abc..7580a83 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -249,24 +249,24 @@ void ScopedLockMultiple::_restoreState() {
 		else if (ownA[i] && ! state[i]) _lock(i);
 	}
 }
+// Lock this one, never waiting for it while holding any of the others.
+void ScopedLockMultiple::_lockOnly(int which) {
+	if (_trylock(which)) return;
+	for (int i = 0; i <= 2; i++) { _unlock(i); }
+	_lock(which);
+}
 void ScopedLockMultiple::_lockAll() {
 	// Do not return until we have locked all three mutexes.
 	for (int n=0; true; n++) {
 		// Attempt to lock in order 0,1,2.
-		_lock(0); 						// Wait on 0, unless it was locked by us on entry.
+		_lockOnly(0); 					// Wait on 0, unless it was locked by us on entry.
 		if (_trylock(1) && _trylock(2)) return;			// Then try to acquire 1 and 2
-		_unlock(1);										// If failure, release all.
-		_unlock(0);
 		// Attempt to lock in order 1,0,2.
-		_lock(1);
+		_lockOnly(1);
 		if (_trylock(0) && _trylock(2)) return;
-		_unlock(0);
-		_unlock(1);
 		// Attempt to lock in order 2,1,0.
-		_lock(2);
+		_lockOnly(2);
 		if (_trylock(0) && _trylock(1)) return;
-		_unlock(0);
-		_unlock(2);	
 		LOCKLOG(DEBUG,"Multiple lock attempt %d",n);	// Seeing this message is a hint we are having contention issues.
 	}
 }
diff --git a/Threads.h b/Threads.h
index 07c7321..3fa778b 100644
--- a/Threads.h
+++ b/Threads.h
@@ -185,6 +185,7 @@ class ScopedLockMultiple {
 	void _lock(int which);
 	bool _trylock(int which);
 	void _unlock(int which);
+	void _lockOnly(int which);
 	void _saveState();
 	void _restoreState();
 	void _lockAll();
-- 
2.43.0


From 79960f04c9484ea8c181bb31a7cecb577a83fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:38 +0000
Subject: [PATCH 31/57] fix: sqlQuery no longer cuts queries with long key text
 at 5000 characters

---
 sqlite3util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index 5a74f59..199b5b2 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -113,7 +113,8 @@ void sqlQuery::queryStart(sqlite3*db, const char *tableName,const char *resultCo
 	//char query[stringSize];
 	//snprintf(query,stringSize,"SELECT %s FROM %s %s",resultColumns,tableName,condition);
 	// We save the query in a string so the caller can print it out in error messages if the query fails.
-	mQueryString = format("SELECT %s FROM %s %s",resultColumns,tableName,condition);
+	// (format would cut it at 5000 characters.)
+	mQueryString = string("SELECT ") + resultColumns + " FROM " + tableName + " " + condition;
 	// Prepare the statement.
 	if (sqlite3_prepare_statement(mdb,&mStmt,mQueryString.c_str(),retries)) { mStmt = NULL; return; }
 	// Read the result.
-- 
2.43.0


From 79631177ad17221c4ef4188aa49ae1fa1c0973e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:41 +0000
Subject: [PATCH 32/57] fix: group log levels are read from the configured
 text, not from a freed string

---
 Logger.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index 3bc858d..5eeba4f 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -374,12 +374,12 @@ void LogGroup::LogGroupInit()
 }
 
 
-static const char*getNonEmptyStrIfDefined(string param)
+// The "unconfig" command does not remove the value, it just gives it an empty value,
+// so an empty result means the parameter is not defined or has been unset.
+static string getNonEmptyStrIfDefined(string param)
 {
-	if (! gConfig.defines(param)) { return NULL; }
-	string result = gConfig.getStr(param);
-	// (pat) The "unconfig" command does not remove the value, it just gives it an empty value, so check for that.
-	return result.size() ? result.c_str() : NULL;
+	if (! gConfig.defines(param)) { return string(); }
+	return gConfig.getStr(param);
 }
 
 // Set all the Log.Group debug levels based on database settings
@@ -392,7 +392,8 @@ void LogGroup::setAll()
 		{
 		string param = groupprefix + mGroupNames[g];
 		int level = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(param)) {
+		string levelName = getNonEmptyStrIfDefined(param);
+		if (levelName.size()) {
 			level = lookupLevel2(param,levelName);
 		}
 		mDebugLevel[g] = level;
@@ -401,7 +402,8 @@ void LogGroup::setAll()
 		{
 		string watchparam = watchprefix + mGroupNames[g];
 		int watchlevel = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(watchparam)) {
+		string levelName = getNonEmptyStrIfDefined(watchparam);
+		if (levelName.size()) {
 			watchlevel = lookupLevel2(watchparam,levelName);
 		}
 		mWatchLevel[g] = watchlevel;
-- 
2.43.0


From 2dcfddb065dc38fe9939c929b162a17d6033bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:02 +0000
Subject: [PATCH 33/57] fix: report names of any length and text no longer
 overflow stack buffers or change the SQL around them

---
 Reporting.cpp | 64 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index b77c4e0..9fcf842 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -27,6 +27,9 @@
 #include "Logger.h"
 #include <stdio.h>
 #include <string.h>
+#include <sstream>
+
+using namespace std;
 
 static const char* createReportingTable = {
 	"CREATE TABLE IF NOT EXISTS REPORTING ("
@@ -38,6 +41,26 @@ static const char* createReportingTable = {
 };
 
 
+// Quote text as an SQL string.
+static string sqlQuoted(const char* text)
+{
+	string result("'");
+	for (; *text; text++) {
+		if (*text == '\'') result += '\'';
+		result += *text;
+	}
+	return result + "'";
+}
+
+// The name of one parameter of an indexed set.
+static string indexedName(const char* baseName, unsigned index)
+{
+	ostringstream name;
+	name << baseName << "." << index;
+	return name.str();
+}
+
+
 ReportingTable::ReportingTable(const char* filename)
 {
 	gLogEarly(LOG_INFO | mFacility, "opening reporting table from path %s", filename);
@@ -72,9 +95,9 @@ bool ReportingTable::create(const char* paramName)
 	mLock.unlock();
 
 	// and to the database
-	char cmd[200];
-	sprintf(cmd,"INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (\"%s\",%ld)", paramName, time(NULL));
-	if (!sqlite3_command(mDB,cmd)) {
+	ostringstream cmd;
+	cmd << "INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (" << sqlQuoted(paramName) << "," << time(NULL) << ")";
+	if (!sqlite3_command(mDB,cmd.str().c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot create reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -96,9 +119,9 @@ bool ReportingTable::incr(const char* paramName)
 
 bool ReportingTable::max(const char* paramName, unsigned newVal)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=MAX(VALUE,%u), UPDATETIME=%ld WHERE NAME=\"%s\"", newVal, time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	ostringstream cmd;
+	cmd << "UPDATE REPORTING SET VALUE=MAX(VALUE," << newVal << "), UPDATETIME=" << time(NULL) << " WHERE NAME=" << sqlQuoted(paramName);
+	if (!sqlite3_command(mDB,cmd.str().c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot maximize reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -108,9 +131,9 @@ bool ReportingTable::max(const char* paramName, unsigned newVal)
 
 bool ReportingTable::clear(const char* paramName)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=\"%s\"", time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	ostringstream cmd;
+	cmd << "UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=" << time(NULL) << " WHERE NAME=" << sqlQuoted(paramName);
+	if (!sqlite3_command(mDB,cmd.str().c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -133,36 +156,27 @@ bool ReportingTable::clear()
 
 bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned maxIndex)
 {
-	size_t sz = strlen(baseName);
 	for (unsigned i = minIndex; i<=maxIndex; i++) {
-		char name[sz+10];
-		sprintf(name,"%s.%u",baseName,i);
-		if (!create(name)) return false;
+		if (!create(indexedName(baseName,i).c_str())) return false;
 	}
 	return true;
 }
 
 bool ReportingTable::incr(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
-	sprintf(name,"%s.%u",baseName,index);
-	return incr(name);
+	return incr(indexedName(baseName,index).c_str());
 }
 
 
 bool ReportingTable::max(const char* baseName, unsigned index, unsigned newVal)
 {
-	char name[strlen(baseName)+10];
-	sprintf(name,"%s.%u",baseName,index);
-	return max(name,newVal);
+	return max(indexedName(baseName,index).c_str(),newVal);
 }
 
 
 bool ReportingTable::clear(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
-	sprintf(name,"%s.%u",baseName,index);
-	return clear(name);
+	return clear(indexedName(baseName,index).c_str());
 }
 
 bool ReportingTable::commit()
@@ -187,13 +201,13 @@ bool ReportingTable::commit()
 	// now actually write them into the db if needed
 	if (oustandingCount > 0) {
 		Timeval timer;
-		char cmd[200];
 
 		// TODO : could wrap this in a BEGIN; COMMIT; pair to transactionize these X UPDATEs
 		mp = oustanding.begin();
 		while (mp != oustanding.end()) {
-			sprintf(cmd,"UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=\"%s\"", mp->second, time(NULL), mp->first.c_str());
-			if (!sqlite3_command(mDB,cmd)) {
+			ostringstream cmd;
+			cmd << "UPDATE REPORTING SET VALUE=VALUE+" << mp->second << ", UPDATETIME=" << time(NULL) << " WHERE NAME=" << sqlQuoted(mp->first.c_str());
+			if (!sqlite3_command(mDB,cmd.str().c_str())) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
 			}
 			mp++;
-- 
2.43.0


From ce44c87482ab3f669df216d1b75fc2184a9095a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:02 +0000
Subject: [PATCH 34/57] fix: creating an indexed report set that ends at the
 largest index terminates

---
 Reporting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 9fcf842..44be47b 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -156,7 +156,7 @@ bool ReportingTable::clear()
 
 bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned maxIndex)
 {
-	for (unsigned i = minIndex; i<=maxIndex; i++) {
+	for (unsigned long i = minIndex; i<=maxIndex; i++) {	// long, so that it can pass the largest maxIndex
 		if (!create(indexedName(baseName,i).c_str())) return false;
 	}
 	return true;
-- 
2.43.0


From 836700cb1e80590af45c7995af7fda00799cd5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:02 +0000
Subject: [PATCH 35/57] fix: increments that a commit could not write are kept
 for the next commit instead of being lost

---
 Reporting.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 44be47b..80a98f1 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -184,6 +184,7 @@ bool ReportingTable::commit()
 	ReportBatch oustanding;
 	ReportBatch::iterator mp;
 	unsigned oustandingCount = 0;
+	bool result = true;
 
 	// copy out to free up access to mBatch as quickly as possible
 	mLock.lock();
@@ -209,6 +210,11 @@ bool ReportingTable::commit()
 			cmd << "UPDATE REPORTING SET VALUE=VALUE+" << mp->second << ", UPDATETIME=" << time(NULL) << " WHERE NAME=" << sqlQuoted(mp->first.c_str());
 			if (!sqlite3_command(mDB,cmd.str().c_str())) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
+				// keep it for the next commit
+				mLock.lock();
+				mBatch[mp->first] += mp->second;
+				mLock.unlock();
+				result = false;
 			}
 			mp++;
 		}
@@ -216,7 +222,7 @@ bool ReportingTable::commit()
 		LOG(INFO) << "wrote " << oustandingCount << " entries in " << timer.elapsed() << "ms";
 	}
 
-	return true;
+	return result;
 }
 
 extern ReportingTable gReports;
-- 
2.43.0


From b9f1b5d9a8fd9f2d1189603dd96c74bd85c1e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:31 +0000
Subject: [PATCH 36/57] fix: clearing a report counter also clears its
 increments that are not yet committed

---
 Reporting.cpp | 9 +++++++++
 Reporting.h   | 1 +
 2 files changed, 10 insertions(+)

diff --git a/Reporting.cpp b/Reporting.cpp
index 80a98f1..0c3e72d 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -131,12 +131,17 @@ bool ReportingTable::max(const char* paramName, unsigned newVal)
 
 bool ReportingTable::clear(const char* paramName)
 {
+	ScopedLock commitLock(mCommitLock);	// a commit under way must not write older increments after the clear
 	ostringstream cmd;
 	cmd << "UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=" << time(NULL) << " WHERE NAME=" << sqlQuoted(paramName);
 	if (!sqlite3_command(mDB,cmd.str().c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
+	// the increments not yet written are cleared, too
+	ScopedLock lock(mLock);
+	ReportBatch::iterator mp = mBatch.find(paramName);
+	if (mp != mBatch.end()) mp->second = 0;
 	return true;
 }
 
@@ -144,12 +149,15 @@ bool ReportingTable::clear(const char* paramName)
 
 bool ReportingTable::clear()
 {
+	ScopedLock commitLock(mCommitLock);
 	char cmd[200];
 	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld", time(NULL));
 	if (!sqlite3_command(mDB,cmd)) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting table, error message: %s", sqlite3_errmsg(mDB));
 		return false;
 	}
+	ScopedLock lock(mLock);
+	for (ReportBatch::iterator mp = mBatch.begin(); mp != mBatch.end(); mp++) mp->second = 0;
 	return true;
 }
 
@@ -181,6 +189,7 @@ bool ReportingTable::clear(const char* baseName, unsigned index)
 
 bool ReportingTable::commit()
 {
+	ScopedLock commitLock(mCommitLock);
 	ReportBatch oustanding;
 	ReportBatch::iterator mp;
 	unsigned oustandingCount = 0;
diff --git a/Reporting.h b/Reporting.h
index c6bbc08..55af156 100644
--- a/Reporting.h
+++ b/Reporting.h
@@ -47,6 +47,7 @@ class ReportingTable {
 	int mFacility;				///< rsyslogd facility
 	ReportBatch mBatch;			///< batch of report updates, not yet stored in the db
 	mutable Mutex mLock;		///< control for multithreaded read/write access to the batch
+	mutable Mutex mCommitLock;	///< held while the batch is written, so that a clear cannot fall in between
 	Thread mBatchCommitter;		///< thread responsible for committing batches of report updates to the db
 
 
-- 
2.43.0


From 0690254684d83f834363ccdf706df8db02e29e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 37/57] fix: a UDDSocket destination carries its address family
 (every write failed without it)

---
 Sockets.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 8464616..08da2aa 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -353,6 +353,7 @@ void UDDSocket::open(const char* localPath)
 void UDDSocket::destination(const char* remotePath)
 {
 	struct sockaddr_un* unAddr = (struct sockaddr_un*)mDestination;
+	unAddr->sun_family = AF_UNIX;
 	strcpy(unAddr->sun_path,remotePath);
 }
 
-- 
2.43.0


From e35209de7942fe5ad68d930d214b25b389ee0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 38/57] fix: resolveAddress releases its copy of an address
 without a port

---
 Sockets.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 08da2aa..c86716b 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -59,6 +59,7 @@ bool resolveAddress(struct sockaddr_in *address, const char *hostAndPort)
 	char *colon = strchr(copy,':');
 	if (!colon) {
 		LOG(WARNING) << "missing port number in:"<<hostAndPort;
+		free(copy);
 		return false;
 	}
 	*colon = '\0';
-- 
2.43.0


From 42c520828d7d66601271c07228e975de8f752863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 39/57] fix: a closed or never opened DatagramSocket does not
 close descriptors that are not its own, and re-opening does not leak one

---
 Sockets.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index c86716b..909011a 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -117,6 +117,7 @@ bool resolveAddress(struct sockaddr_in *address, const char *host, unsigned shor
 
 
 DatagramSocket::DatagramSocket()
+	:mSocketFD(-1)
 {
 	memset(mDestination, 0, sizeof(mDestination));
 }
@@ -137,7 +138,8 @@ void DatagramSocket::blocking()
 
 void DatagramSocket::close()
 {
-	::close(mSocketFD);
+	if (mSocketFD>=0) ::close(mSocketFD);
+	mSocketFD = -1;		// the number may belong to someone else from now on
 }
 
 
@@ -267,6 +269,7 @@ void UDPSocket::destination( unsigned short wDestPort, const char * wDestIP )
 
 void UDPSocket::open(unsigned short localPort)
 {
+	close();	// in case it is open already
 	// create
 	mSocketFD = socket(AF_INET,SOCK_DGRAM,0);
 	if (mSocketFD<0) {
@@ -325,6 +328,7 @@ UDDSocket::UDDSocket(const char* localPath, const char* remotePath)
 
 void UDDSocket::open(const char* localPath)
 {
+	close();	// in case it is open already
 	// create
 	mSocketFD = socket(AF_UNIX,SOCK_DGRAM,0);
 	if (mSocketFD<0) {
-- 
2.43.0


From 693a6171a5efa480f3c6a8e807613ccc08b079cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 40/57] fix: socket paths that do not fit an address are
 refused instead of overrunning it

---
 Sockets.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 909011a..74344e3 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -326,6 +326,18 @@ UDDSocket::UDDSocket(const char* localPath, const char* remotePath)
 
 
 
+// Copy a path into an address, refusing one that does not fit.
+static void setPath(struct sockaddr_un* address, const char* path)
+{
+	if (strlen(path) >= sizeof(address->sun_path)) {
+		LOG(ERR) << "socket path too long: " << path;
+		throw SocketError();
+	}
+	strcpy(address->sun_path,path);
+}
+
+
+
 void UDDSocket::open(const char* localPath)
 {
 	close();	// in case it is open already
@@ -342,7 +354,7 @@ void UDDSocket::open(const char* localPath)
 	size_t length = sizeof(address);
 	bzero(&address,length);
 	address.sun_family = AF_UNIX;
-	strcpy(address.sun_path,localPath);
+	setPath(&address,localPath);
 	unlink(localPath);
 	if (bind(mSocketFD,(struct sockaddr*)&address,length)<0) {
 		char buf[1100];
@@ -359,7 +371,7 @@ void UDDSocket::destination(const char* remotePath)
 {
 	struct sockaddr_un* unAddr = (struct sockaddr_un*)mDestination;
 	unAddr->sun_family = AF_UNIX;
-	strcpy(unAddr->sun_path,remotePath);
+	setPath(unAddr,remotePath);
 }
 
 
-- 
2.43.0


From 48eca4daa7375ee0ffd91ddb189964f63d3a8723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 41/57] fix: UnixSignal does not save files unless asked to
 (mSaveFiles was not initialised)

---
 UnixSignal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/UnixSignal.cpp b/UnixSignal.cpp
index de55b3c..0d1ef4c 100644
--- a/UnixSignal.cpp
+++ b/UnixSignal.cpp
@@ -115,6 +115,7 @@ UnixSignal::UnixSignal(void)
 	//signal(i, _sigHandler);
     }
     mAddPid = false;
+    mSaveFiles = false;
     mCoreFile = "core";
 }
 
-- 
2.43.0


From 61fb57f85e3902f1863aa1f8cb49e52992ada2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 42/57] fix: of two instances of a program starting at once
 only one gets the pid file

---
 SelfDetect.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index dd99d25..ab0d16c 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -30,6 +30,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <string.h>
 
 #include "UnixSignal.h"
@@ -62,15 +63,16 @@ void SelfDetect::RegisterProgram(const char *argv0)
     LOG(NOTICE) << "*** Registering program " << argv0 << " to " << buf;
 
     // first, verify we aren't already running.
-    struct stat stbuf;
-    if (stat(buf, &stbuf) >= 0)
+    // (O_EXCL, so that of two instances starting at once only one gets the file.)
+    int fd = open(buf, O_WRONLY|O_CREAT|O_EXCL, 0666);
+    if (fd < 0 && errno == EEXIST)
     {
 	LOG(CRIT) << "*** An instance of " << p << " is already running. ";
 	LOG(CRIT) << "*** If this is not the case, deleting this file will allow " << p << " to start: " << buf << " exiting...";
 	Exit::exit(Exit::DETECTFILE);
     }
     
-    FILE *fp = fopen(buf, "w");
+    FILE *fp = fd < 0 ? NULL : fdopen(fd, "w");
     if (fp == NULL)
     {
     	LOG(CRIT) << "*** Unable to create " << buf << ": " << strerror(errno) << " exiting...";
-- 
2.43.0


From 1f1f34fcdd1577ac34b5182fb8684931be10e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:39 +0000
Subject: [PATCH 43/57] fix: signals that do not end the program do not remove
 its pid file

---
 SelfDetect.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index ab0d16c..42cdae9 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -100,6 +100,12 @@ void SelfDetect::RegisterProgram(const char *argv0)
 			//		openbts: NOTICE 3073816320 05:03:50.4 SelfDetect.cpp:105:Exit: *** Removing pid file /var/run/OpenBTS.pid
 			case SIGCONT:
 			case SIGCHLD:
+			// Nor do these end the program, so it must not clean up for them.
+			case SIGURG:
+			case SIGWINCH:
+			case SIGTSTP:
+			case SIGTTIN:
+			case SIGTTOU:
 				break;
 			default:
 				gSigVec.Register(sigfcn, i);
-- 
2.43.0


From 87cb76a7c947a7dd32e889d9888b200af44aee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 44/57] fix: RefCntBase::getRefCnt reads the count under its
 lock (it raced with copies in other threads)

---
 Utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.h b/Utils.h
index 861876b..e508a75 100644
--- a/Utils.h
+++ b/Utils.h
@@ -215,7 +215,7 @@ class RefCntBase {
 	public:
 	virtual ~RefCntBase();
 	RefCntBase() : mRefCnt(0) {}
-	int getRefCnt() const { return mRefCnt; }
+	int getRefCnt() const { ScopedLock lock(mRefMutex); return mRefCnt; }
 };
 
 // This is basically the same as a C++11 shared_ptr, but we cannot use C++ 11 yet.
-- 
2.43.0


From b8f51d5f5d5706e87a829e1e5c78217b6980534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:47 +0000
Subject: [PATCH 45/57] fix: listing or searching the configuration holds the
 table's lock, so that a change cannot come in between two rows

---
 Configuration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Configuration.cpp b/Configuration.cpp
index 6834fe4..0860f14 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -849,6 +849,8 @@ bool ConfigurationTable::remove(const string& key)
 
 void ConfigurationTable::find(const string& pat, ostream& os) const
 {
+	// A change made between two rows could show a key twice, or both or neither of two values.
+	ScopedLock lock(mLock);
 	// Prepare the statement.
 	char *cmd = sqlite3_mprintf("SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE '%%%q%%'",pat.c_str());
 	sqlite3_stmt *stmt;
@@ -876,6 +878,8 @@ ConfigurationRecordMap ConfigurationTable::getAllPairs() const
 {
 	ConfigurationRecordMap tmp;
 
+	// A change made between two rows could show only part of what was there before or after it.
+	ScopedLock lock(mLock);
 	// Prepare the statement.
 	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG";
 	sqlite3_stmt *stmt;
-- 
2.43.0


From 3eb83ea5baf8db082ab9ddbfb16aa8c88dae8d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:32 +0000
Subject: [PATCH 46/57] fix: a log statement does not throw when its file's
 level is removed from the configuration meanwhile

---
 Logger.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index 5eeba4f..7cd21cc 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -127,7 +127,9 @@ int getLoggingLevel(const char* filename)
 	keyName.append("Log.Level.");
 	keyName.append(filename);
 	if (gConfig.defines(keyName)) {
-		string keyVal = gConfig.getStr(keyName);
+		string keyVal;
+		// Another thread may have removed the key since.
+		try { keyVal = gConfig.getStr(keyName); } catch (ConfigurationTableKeyNotFound) { }
 		// (pat 4-2014) The CLI 'unconfig' command does not unset the value, it just gives an empty value,
 		// so check for that and treat it as an unset value, ie, do nothing.
 		if (keyVal.size()) {
@@ -379,7 +381,8 @@ void LogGroup::LogGroupInit()
 static string getNonEmptyStrIfDefined(string param)
 {
 	if (! gConfig.defines(param)) { return string(); }
-	return gConfig.getStr(param);
+	// Another thread may have removed the parameter since.
+	try { return gConfig.getStr(param); } catch (ConfigurationTableKeyNotFound) { return string(); }
 }
 
 // Set all the Log.Group debug levels based on database settings
-- 
2.43.0


From 5af0242916941ca962899cad59e42f63cd2dc6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:32 +0000
Subject: [PATCH 47/57] fix: an alarm's echo to stderr holds the sink lock, so
 that it does not mix with other threads' messages

---
 Logger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Logger.cpp b/Logger.cpp
index 7cd21cc..2f4e425 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -214,7 +214,9 @@ Log::~Log()
 	// Save alarms in the local list and echo them to stderr.
 	if (mPriority <= LOG_CRIT) {
 		if (sLoggerInited) addAlarm(mStream.str().c_str());
+		gLogToLock.lock();	// so that messages of other threads do not come in between
 		cerr << mStream.str() << endl;
+		gLogToLock.unlock();
 	}
 	// Current logging level was already checked by the macro.
 	// So just log.
-- 
2.43.0


From be4aba6e3545c7d6e9aa32c9069438c08564a2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:42 +0000
Subject: [PATCH 48/57] fix: a change that finds the database busy does not
 hold up, and lose, other threads' changes on the same connection

---
 sqlite3util.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index 199b5b2..a893b02 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -72,7 +72,14 @@ int sqlite3_run_query(sqlite3* DB, sqlite3_stmt *stmt, unsigned retries)
 	int src = SQLITE_BUSY;
 
         for (unsigned i = 0; i < retries; i++) {
+		// A change that found the database busy must not stay active while we wait: until it ends, what other
+		// threads change through this connection is not committed, and would be lost if we give up.
+		sqlite3_mutex_enter(sqlite3_db_mutex(DB));
                 src = sqlite3_step(stmt);
+		if ((src == SQLITE_BUSY || src == SQLITE_LOCKED) && !sqlite3_stmt_readonly(stmt)) {
+			sqlite3_reset(stmt);
+		}
+		sqlite3_mutex_leave(sqlite3_db_mutex(DB));
 		if (src != SQLITE_BUSY && src != SQLITE_LOCKED) {
                         break;
                 }
-- 
2.43.0


From bc0b53147adc8f791249a2c576d52f2dda118968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:06 +0000
Subject: [PATCH 49/57] fix: ReportingTable::mFacility is initialised (it is
 or'ed into the priority of every message)

---
 Reporting.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reporting.cpp b/Reporting.cpp
index 0c3e72d..5250870 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -62,6 +62,7 @@ static string indexedName(const char* baseName, unsigned index)
 
 
 ReportingTable::ReportingTable(const char* filename)
+	:mFacility(LOG_USER)
 {
 	gLogEarly(LOG_INFO | mFacility, "opening reporting table from path %s", filename);
 	// Connect to the database.
-- 
2.43.0


From c1079d8cec873cc3be6004c9bdb57d84963584d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:07 +0000
Subject: [PATCH 50/57] fix: a report shutdown that comes before the committer
 thread has begun is not lost

---
 Reporting.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 5250870..f11600d 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -82,6 +82,7 @@ ReportingTable::ReportingTable(const char* filename)
 		gLogEarly(LOG_EMERG | mFacility, "Cannot enable WAL mode on database at %s, error message: %s", filename, sqlite3_errmsg(mDB));
 	}
 	// Start the commit thread
+	mReportRunning = true;
 	mBatchCommitter.start((void*(*)(void*))reportingBatchCommitter,NULL);
 }
 
@@ -238,11 +239,10 @@ bool ReportingTable::commit()
 extern ReportingTable gReports;
 void* reportingBatchCommitter(void*)
 {
-	gReports.mReportRunning = true;
-	while (gReports.mReportRunning) {
+	do {
 		sleep(10);
 		gReports.commit();
-	}
+	} while (gReports.mReportRunning);
 
 	return NULL;
 }
-- 
2.43.0


From 6bb1a7da99bff24a56bed6e4a6556bc1c408f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:40 +0000
Subject: [PATCH 51/57] fix: count references in an int, a short overflows at
 32767

---
 Utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.h b/Utils.h
index e508a75..0bcedad 100644
--- a/Utils.h
+++ b/Utils.h
@@ -200,7 +200,7 @@ extern string uintToString(uint32_t x);
 class RefCntBase {
 	template <class Type> friend class RefCntPointer;
 	mutable Mutex mRefMutex;
-	mutable short mRefCnt;		// signed, not unsigned!
+	mutable int mRefCnt;		// signed, not unsigned!
 	int setRefCnt(int val) { return mRefCnt = val; }
 	// The semantics of reference counting mean you cannot copy an object that has reference counts;
 	// they are only manipulated by pointers.  This constructor is private, which makes C++ whine if you do this.
-- 
2.43.0


From e9d03a621ad3559aa4b25cc8f22b187dec5a47d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:40 +0000
Subject: [PATCH 52/57] fix: handle signal 64, the last real-time signal

---
 UnixSignal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnixSignal.h b/UnixSignal.h
index 2c3f29e..80736d5 100644
--- a/UnixSignal.h
+++ b/UnixSignal.h
@@ -27,7 +27,7 @@
 class UnixSignal
 {
 public:
-    static const int C_NSIG = 64;
+    static const int C_NSIG = 65;
 private:
     std::list<sighandler_t>  mListHandlers[C_NSIG]; // list of signal handlers to call for all signals
     Mutex mLock[C_NSIG];
-- 
2.43.0


From 94ea319e4c54ecf46f8c389be0b1a426708bc24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:55 +0000
Subject: [PATCH 53/57] fix: range assertions of vectors hold for numbers that
 wrap the address too

---
 BitVector.cpp |  6 +++---
 BitVector.h   | 18 +++++++++---------
 Vector.h      | 19 ++++++++++---------
 3 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/BitVector.cpp b/BitVector.cpp
index b62b1ff..a218034 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -74,8 +74,8 @@ uint64_t BitVector::peekField(size_t readIndex, unsigned length) const
 uint64_t BitVector::peekFieldReversed(size_t readIndex, unsigned length) const
 {
 	uint64_t accum = 0;
+	assert(readIndex<=size() && length<=size()-readIndex);
 	char *dp = mStart + readIndex + length - 1;
-	assert(dp<mEnd);
 	for (int i=(length-1); i>=0; i--) {
 		accum = (accum<<1) | ((*dp--) & 0x01);
 	}
@@ -108,9 +108,9 @@ uint64_t BitVector::readFieldReversed(size_t& readIndex, unsigned length) const
 void BitVector::fillField(size_t writeIndex, uint64_t value, unsigned length)
 {
 	if (length != 0) {
+		assert(writeIndex<=size() && length<=size()-writeIndex);
 		char *dpBase = mStart + writeIndex;
 		char *dp = dpBase + length - 1;
-		assert(dp < mEnd);
 		while (dp>=dpBase) {
 			*dp-- = value & 0x01;
 			value >>= 1;
@@ -122,9 +122,9 @@ void BitVector::fillField(size_t writeIndex, uint64_t value, unsigned length)
 void BitVector::fillFieldReversed(size_t writeIndex, uint64_t value, unsigned length)
 {
 	if (length != 0) {
+		assert(writeIndex<=size() && length<=size()-writeIndex);
 		char *dp = mStart + writeIndex;
 		char *dpEnd = dp + length - 1;
-		assert(dpEnd < mEnd);
 		while (dp<=dpEnd) {
 			*dp++ = value & 0x01;
 			value >>= 1;
diff --git a/BitVector.h b/BitVector.h
index 0f78b97..101feab 100644
--- a/BitVector.h
+++ b/BitVector.h
@@ -159,9 +159,9 @@ class BitVector : public VectorBase<char>
 	// (pat) Please DO NOT add a const anywhere in this method.  Use cloneSegment instead.
 	BitVector segment(size_t start, size_t span)
 	{
+		assert(start<=size() && span<=size()-start);
 		char* wStart = this->begin() + start;
 		char* wEnd = wStart + span;
-		assert(wEnd<=this->end());
 #if BITVECTOR_REFCNTS
 		return BitVector(mData,wStart,wEnd);
 #else
@@ -282,28 +282,28 @@ class BitVector : public VectorBase<char>
 	bool bit(size_t index) const
 	{
 		// We put this code in .h for fast inlining.
+		assert(index<size());
 		const char *dp = this->begin()+index;
-		assert(dp<this->end());
 		return (*dp) & 0x01;
 	}
 
 	char& operator[](size_t index)
 	{
-		assert(this->mStart+index<this->mEnd);
+		assert(index<size());
 		return this->mStart[index];
 	}
 
 	const char& operator[](size_t index) const
 	{
-		assert(this->mStart+index<this->mEnd);
+		assert(index<size());
 		return this->mStart[index];
 	}
 
 	/** Set a bit */
 	void settfb(size_t index, int value)
 	{
+		assert(index<size());
 		char *dp = this->mStart+index;
-		assert(dp<this->mEnd);
 		*dp = value;
 	}
 
@@ -364,9 +364,9 @@ class SoftVector: public Vector<float> {
 	//@{
 	SoftVector segment(size_t start, size_t span)
 	{
+		assert(start<=size() && span<=size()-start);
 		float* wStart = mStart + start;
 		float* wEnd = wStart + span;
-		assert(wEnd<=mEnd);
 		return SoftVector(NULL,wStart,wEnd);
 	}
 
@@ -394,8 +394,8 @@ class SoftVector: public Vector<float> {
 	/** Return a hard bit value from a given index by slicing. */
 	bool bit(size_t index) const
 	{
+		assert(index<size());
 		const float *dp = mStart+index;
-		assert(dp<mEnd);
 		return (*dp)>0.5F;
 	}
 
@@ -408,16 +408,16 @@ class SoftVector: public Vector<float> {
 	/** Return a soft bit. */
 	float softbit(size_t index) const
 	{
+		assert(index<size());
 		const float *dp = mStart+index;
-		assert(dp<mEnd);
 		return *dp;
 	}
 
 	/** Set a soft bit */
 	void settfb(size_t index, float value)
 	{
+		assert(index<size());
 		float *dp = mStart+index;
-		assert(dp<mEnd);
 		*dp = value;
 	}
 };
diff --git a/Vector.h b/Vector.h
index c27ef46..67a0951 100644
--- a/Vector.h
+++ b/Vector.h
@@ -247,9 +247,10 @@ template <class T> class VectorBase
 	*/
 	void copyToSegment(VectorBase<T>& other, size_t start, size_t span) const
 	{
+		// (Compare numbers, not pointers: a large offset wraps around to an address that looks fine.)
+		assert(start<=other.size() && span<=other.size()-start);
+		assert(span<=size());
 		T* base = other.mStart + start;
-		assert(base+span<=other.mEnd);
-		assert(mStart+span<=mEnd);
 		memcpy(base,mStart,span*sizeof(T));
 	}
 
@@ -267,9 +268,9 @@ template <class T> class VectorBase
 	*/
 	void segmentCopyTo(VectorBase<T>& other, size_t start, size_t span) const
 	{
+		assert(start<=size() && span<=size()-start);
+		assert(span<=other.size());
 		const T* base = mStart + start;
-		assert(base+span<=mEnd);
-		assert(other.mStart+span<=other.mEnd);
 		memcpy(other.mStart,base,span*sizeof(T));
 	}
 
@@ -281,9 +282,9 @@ template <class T> class VectorBase
 
 	void fill(const T& val, unsigned start, unsigned length)
 	{
+		assert(start<=size() && length<=size()-start);
 		T* dp=mStart+start;
 		T* end=dp+length;
-		assert(end<=mEnd);
 		while (dp<end) *dp++=val;
 	}
 
@@ -303,13 +304,13 @@ template <class T> class VectorBase
 
 	T& operator[](size_t index)
 	{
-		assert(mStart+index<mEnd);
+		assert(index<size());
 		return mStart[index];
 	}
 
 	const T& operator[](size_t index) const
 	{
-		assert(mStart+index<mEnd);
+		assert(index<size());
 		return mStart[index];
 	}
 
@@ -361,18 +362,18 @@ template <class T> class Vector : public VectorBase<T>
 	/** Return an alias to a segment of this Vector. */
 	Vector<T> segment(size_t start, size_t span)
 	{
+		assert(start<=this->size() && span<=this->size()-start);
 		T* wStart = this->mStart + start;
 		T* wEnd = wStart + span;
-		assert(wEnd<=this->mEnd);
 		return Vector<T>(NULL,wStart,wEnd);
 	}
 
 	/** Return an alias to a segment of this Vector. */
 	const Vector<T> segment(size_t start, size_t span) const
 	{
+		assert(start<=this->size() && span<=this->size()-start);
 		T* wStart = this->mStart + start;
 		T* wEnd = wStart + span;
-		assert(wEnd<=this->mEnd);
 		return Vector<T>(NULL,wStart,wEnd);
 	}
 
-- 
2.43.0


From deb40f2199c4ac697539473ab61194c56f664c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:08 +0000
Subject: [PATCH 54/57] fix: a timed socket read works with descriptor numbers
 beyond FD_SETSIZE

---
 Sockets.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 74344e3..04c5c3f 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -30,7 +30,7 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <cstdio>
-#include <sys/select.h>
+#include <poll.h>
 
 #include "Defines.h"
 #include "Threads.h"
@@ -222,21 +222,22 @@ int DatagramSocket::read(char* buffer)
 
 int DatagramSocket::read(char* buffer, unsigned timeout)
 {
-	fd_set fds;
-	FD_ZERO(&fds);
-	FD_SET(mSocketFD,&fds);
-	struct timeval tv;
+	// (Not select: the descriptor's number may be beyond FD_SETSIZE.)
+	struct pollfd fds;
+	fds.fd = mSocketFD;
+	fds.events = POLLIN;
+	fds.revents = 0;
+	struct timespec tv;
 	tv.tv_sec = timeout/1000;
-	tv.tv_usec = (timeout%1000)*1000;
-	int sel = select(mSocketFD+1,&fds,NULL,NULL,&tv);
+	tv.tv_nsec = (timeout%1000)*1000000L;
+	int sel = ppoll(&fds,1,&tv,NULL);
 	if (sel<0) {
-		perror("DatagramSocket::read() select() failed");
+		perror("DatagramSocket::read() poll() failed");
 		devassert(0);
 		throw SocketError();
 	}
 	if (sel==0) return -1;
-	if (FD_ISSET(mSocketFD,&fds)) return read(buffer);
-	return -1;
+	return read(buffer);
 }
 
 
-- 
2.43.0


From 571f3b0663a1de35894d374e35b0f0d1d4c57681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:17 +0000
Subject: [PATCH 55/57] fix: peekField checks its range as the other field
 functions do

---
 BitVector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BitVector.cpp b/BitVector.cpp
index a218034..f8f7d11 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -60,6 +60,7 @@ BitVector::BitVector(const char *valString)
 uint64_t BitVector::peekField(size_t readIndex, unsigned length) const
 {
 	uint64_t accum = 0;
+	assert(readIndex<=size() && length<=size()-readIndex);
 	char *dp = mStart + readIndex;
 
 	for (unsigned i=0; i<length; i++) {
-- 
2.43.0


From ff2d9c760d98f59108789311c81aa87ff188f726 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:57 +0000
Subject: [PATCH 56/57] fix: resolveAddress copies gethostbyname's answer
 before letting other threads resolve

---
 Sockets.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 04c5c3f..7971a0a 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -94,10 +94,10 @@ bool resolveAddress(struct sockaddr_in *address, const char *host, unsigned shor
 	// Ideally it should be a global mutex for all non thread-safe socket
 	// operations and it should protect access to variables such as
 	// global h_errno.
-	sGethostbynameMutex.lock();
+	// The answer is static data, too, so the mutex is held until it has been copied.
+	ScopedLock lock(sGethostbynameMutex);
 	hp = gethostbyname(host);
 	h_errno_local = h_errno;
-	sGethostbynameMutex.unlock();
 #endif
  	if (hp==NULL) {
 		LOG(WARNING) << "gethostbyname() failed for " << host << ", " << hstrerror(h_errno_local);
-- 
2.43.0


From 7881ada030dcd741586801834b075713a467faa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:31 +0000
Subject: [PATCH 57/57] fix: the log level cache is keyed by file name, not by
 its hash, which others share

---
 Logger.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index 2f4e425..7eda2d4 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -145,14 +145,13 @@ int gGetLoggingLevel(const char* filename)
 	// This is called a lot and needs to be efficient.
 
 	static Mutex sLogCacheLock;
-	static map<uint64_t,int>  sLogCache;
+	static map<string,int>  sLogCache;
 	static unsigned sCacheCount;
 	static const unsigned sCacheRefreshCount = 1000;
 
 	if (filename==NULL) return gGetLoggingLevel("");
 
-	HashString hs(filename);
-	uint64_t key = hs.hash();
+	string key(filename);	// (Not its hash: other names have the same.)
 
 	sLogCacheLock.lock();
 	// Time for a cache flush?
@@ -161,7 +160,7 @@ int gGetLoggingLevel(const char* filename)
 		sCacheCount=0;
 	}
 	// Is it cached already?
-	map<uint64_t,int>::const_iterator where = sLogCache.find(key);
+	map<string,int>::const_iterator where = sLogCache.find(key);
 	sCacheCount++;
 	if (where!=sLogCache.end()) {
 		int retVal = where->second;
@@ -174,7 +173,7 @@ int gGetLoggingLevel(const char* filename)
 	sLogCacheLock.unlock();
 	int level = getLoggingLevel(filename);
 	sLogCacheLock.lock();
-	sLogCache.insert(pair<uint64_t,int>(key,level));
+	sLogCache.insert(pair<string,int>(key,level));
 	sLogCacheLock.unlock();
 	return level;
 }
-- 
2.43.0

