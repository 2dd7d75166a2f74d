From 78879ffaff36904f95cad7a9bf34710a355f272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 01/30] fix: read the minus sign when a number field is built
 from text

---
 src/tool1cd/BinaryDecimalNumber.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index 91ff9fe..fd55274 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -87,6 +87,8 @@ BinaryDecimalNumber::BinaryDecimalNumber(const std::string &presentation, bool h
 	for (char c : presentation) {
 		if (c == '.') {
 			part_no++;
+		} else if (c == '-') {
+			sign = -1;
 		} else {
 			parts[part_no].push_back(c - '0');
 		}
-- 
2.43.0


From 906d0e71d51c8481d0ec4392463925288810933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 02/30] fix: read a stored date from its 7 bytes only

---
 src/tool1cd/BinaryDecimalNumber.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index fd55274..82a4197 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -63,7 +63,7 @@ BinaryDecimalNumber::BinaryDecimalNumber(const void *raw_data, int length, int p
 		builder.push2(first_byte);
 	}
 	++byte_data;
-	int i = 1;
+	int i = data.size();
 	while (i < length) {
 		if (i + 1 < length) {
 			builder.push2(*byte_data);
@@ -212,7 +212,7 @@ BinaryDecimalNumber::BinaryDecimalNumber()
 }
 
 BinaryDecimalDate::BinaryDecimalDate(const void *raw_data)
-	: BinaryDecimalNumber(raw_data, 19, 0, false)
+	: BinaryDecimalNumber(raw_data, 14, 0, false)
 {}
 
 BinaryDecimalDate::BinaryDecimalDate(const std::string &presentation, const std::string &format)
-- 
2.43.0


From 403de378a3e42839863e589cef0500a5f37437d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 03/30] fix: escape every special character of text exported to
 XML

---
 src/tool1cd/Common.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index 140261a..a14feab 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -152,11 +152,11 @@ string hexstring(TStream *str)
 std::string toXML(const std::string &in)
 {
 	string result(in);
-	result = StringReplace(result, "&", "&amp;");
-	result = StringReplace(result, "<", "&lt;");
-	result = StringReplace(result, ">", "&gt;");
-	result = StringReplace(result, "'", "&apos;");
-	result = StringReplace(result, "\"", "&quot;");
+	result = StringReplace(result, "&", "&amp;", rfReplaceAll);
+	result = StringReplace(result, "<", "&lt;", rfReplaceAll);
+	result = StringReplace(result, ">", "&gt;", rfReplaceAll);
+	result = StringReplace(result, "'", "&apos;", rfReplaceAll);
+	result = StringReplace(result, "\"", "&quot;", rfReplaceAll);
 	return result;
 }
 
-- 
2.43.0


From b6b15c93d1a2bc3a9861567b2f0c143a7d049f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 04/30] fix: convert file times with both halves and in ticks
 of 100 ns

---
 src/tool1cd/SystemClasses/System.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/tool1cd/SystemClasses/System.cpp b/src/tool1cd/SystemClasses/System.cpp
index 0653fa8..9981946 100644
--- a/src/tool1cd/SystemClasses/System.cpp
+++ b/src/tool1cd/SystemClasses/System.cpp
@@ -41,19 +41,10 @@ uint64_t UInt32x32To64(int64_t a, int64_t b)
 // Преобразование времени FILETIME to POSIX
 uint64_t FileTime_to_POSIX(System::FILETIME * pft)
 {
-	// takes the last modified date
-	LARGE_INTEGER date, adjust;
-	date.HighPart = pft -> dwHighDateTime;
-	date.LowPart  = pft -> dwLowDateTime;
+	uint64_t ticks = (uint64_t)pft->dwHighDateTime << 32 | pft->dwLowDateTime;
 
-	// 100-nanoseconds = milliseconds * 10000
-	adjust.QuadPart = SEC_TO_UNIX_EPOCH * 10000;
-
-	// removes the diff between 1970 and 1601
-	date.QuadPart -= adjust.QuadPart;
-
-	// converts back from 100-nanoseconds to seconds
-	return date.QuadPart / 10000000;
+	// converts back from 100-nanoseconds to seconds and removes the diff between 1970 and 1601
+	return ticks / WINDOWS_TICK - SEC_TO_UNIX_EPOCH;
 }
 
 //---------------------------------------------------------------------------
@@ -61,7 +52,7 @@ uint64_t FileTime_to_POSIX(System::FILETIME * pft)
 void UnixTimeToFileTime(time_t t, System::FILETIME * pft)
 {
 
-	uint64_t ll = UInt32x32To64(t, 10000000) + SEC_TO_UNIX_EPOCH;
+	uint64_t ll = ((uint64_t)t + SEC_TO_UNIX_EPOCH) * WINDOWS_TICK;
 
 	pft->dwLowDateTime = (uint32_t)ll;
 	pft->dwHighDateTime = ll >> 32;
-- 
2.43.0


From 8e84abcb55cf8e49bbbe038a770902366f75a12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 05/30] fix: take the time zone into account once when file
 times are converted

---
 src/tool1cd/SystemClasses/System.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/SystemClasses/System.cpp b/src/tool1cd/SystemClasses/System.cpp
index 9981946..61be44e 100644
--- a/src/tool1cd/SystemClasses/System.cpp
+++ b/src/tool1cd/SystemClasses/System.cpp
@@ -20,6 +20,10 @@
 */
 #include "System.hpp"
 
+#ifdef _WIN32
+#define timegm _mkgmtime
+#endif
+
 namespace System {
 
 //---------------------------------------------------------------------------
@@ -74,7 +78,7 @@ bool SystemTimeToFileTime(const SYSTEMTIME *lpSystemTime, System::FILETIME * lpF
 	ttm.tm_wday  = 0; // возможно здесь что-то не то, надо проверять; days since Sunday - [0, 6] 
 	ttm.tm_yday  = 0; // возможно здесь что-то не то, надо проверять; days since January 1 - [0, 365]
 	
-	UnixTime = mktime(&ttm);
+	UnixTime = timegm(&ttm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 
 	return true; 
@@ -98,7 +102,7 @@ bool FileTimeToLocalFileTime(const FILETIME *lpLocalFileTime, System::FILETIME *
 	
 	time_t rawtime  = FileTime_to_POSIX((System::FILETIME *)lpLocalFileTime);
 	struct tm * ptm = localtime(&rawtime);
-	time_t UnixTime = mktime(ptm);
+	time_t UnixTime = timegm(ptm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 
 	return true; 
@@ -109,7 +113,7 @@ void GetSystemTime(System::SYSTEMTIME * lpSystemTime)
 {
 	
 	time_t CurrTime = time(NULL);
-	tm *ttm = localtime(&CurrTime);
+	tm *ttm = gmtime(&CurrTime);
 
 	lpSystemTime->wYear   = ttm->tm_year + 1900;
 	lpSystemTime->wMonth  = ttm->tm_mon + 1;
-- 
2.43.0


From 3054afdb1acf27365a0064afd154e0e840da4ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 06/30] fix: read exactly the eight digits of a container block
 header number

---
 src/tool1cd/cfapi/APIcfBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/cfapi/APIcfBase.cpp b/src/tool1cd/cfapi/APIcfBase.cpp
index b18a80c..74b901b 100755
--- a/src/tool1cd/cfapi/APIcfBase.cpp
+++ b/src/tool1cd/cfapi/APIcfBase.cpp
@@ -33,7 +33,7 @@ unsigned WindowsTickToUnixSeconds(long long windowsTicks)
 
 int32_t stBlockHeader::get_data_size() const {
 	string hex("0x");
-	hex.append(data_size_hex);
+	hex.append(data_size_hex, sizeof(data_size_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
@@ -49,7 +49,7 @@ void stBlockHeader::set_data_size(int32_t value) {
 
 int32_t stBlockHeader::get_page_size() const {
 	string hex("0x");
-	hex.append(page_size_hex);
+	hex.append(page_size_hex, sizeof(page_size_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
@@ -65,7 +65,7 @@ void stBlockHeader::set_page_size(int32_t value) {
 
 int32_t stBlockHeader::get_next_page_addr() const {
 	string hex("0x");
-	hex.append(next_page_addr_hex);
+	hex.append(next_page_addr_hex, sizeof(next_page_addr_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
-- 
2.43.0


From f681e50e94563173d38b36adbf85e7e6a96b23de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 07/30] fix: refuse a stream position before the beginning,
 keep the position when a seek is refused

---
 src/tool1cd/SystemClasses/TStream.cpp | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 1499856..c9df319 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -57,28 +57,20 @@ void TStream::SetPosition(int64_t NewPosition)
 
 int64_t TStream::Seek(const int64_t offset, const TSeekOrigin Origin)
 {
-	if (Origin == soFromBeginning) {
-
-		if (offset > GetSize()) {
-			throw Exception("Wrong offset");
-		}
-		m_position = offset;
+	int64_t new_position;
 
+	if (Origin == soFromBeginning) {
+		new_position = offset;
 	} else if (Origin == soFromEnd) {
-
-		m_position = GetSize() - offset;
-
-		if (GetSize() < offset) {
-			throw Exception("Wrong offset");
-		}
-
+		new_position = GetSize() - offset;
 	} else {
+		new_position = m_position + offset;
+	}
 
-		if (m_position + offset < 0 || m_position + offset > GetSize()) {
-			throw Exception("Wrong offset");
-		}
-		m_position += offset;
+	if (new_position < 0 || new_position > GetSize()) {
+		throw Exception("Wrong offset");
 	}
+	m_position = new_position;
 	return m_position;
 }
 
-- 
2.43.0


From e238afeda586e0e502ab2f3494aeca3a9d5178be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 08/30] fix: copy nothing from a stream that has no data left

---
 src/tool1cd/SystemClasses/TStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index c9df319..da06ef7 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -101,6 +101,9 @@ int64_t TStream::CopyFrom(TStream *Source, const int64_t Count)
 	}
 	std::vector<uint8_t> _data;
 	auto resultCount = Source->Read(_data, Count);
+	if (resultCount == 0) {
+		return 0; // у источника больше нет данных
+	}
 	return Write(_data, resultCount);
 }
 
-- 
2.43.0


From 9fcdf97306538c044991bb574ef0d6a98991030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 09/30] fix: V8Object: a range outside a cached object is
 refused, as it is for an object that is not cached

---
 src/tool1cd/V8Object.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 163aa01..aecb54d 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -412,7 +412,18 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 
 	lastdataget = GetTickCount();
 
-	if(data) memcpy(buf, data + _start, _length);
+	if(data)
+	{
+		if(_start + _length > get_len())
+		{
+			throw DetailedException("Попытка чтения данных за пределами объекта")
+				.add_detail("Номер блока объекта", to_hex_string(block))
+				.add_detail("Длина объекта", get_len())
+				.add_detail("Начало читаемых данных", _start)
+				.add_detail("Длина читаемых данных", _length);
+		}
+		memcpy(buf, data + _start, _length);
+	}
 	else
 	{
 		if(type == v8objtype::free80)
-- 
2.43.0


From 1cf6f80705c2e696321aff6ff1ddaebd1570d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 10/30] fix: V8Object::get_fileoffset: offsets of 4 GB and more
 are not cut to 32 bits

---
 src/tool1cd/V8Object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index aecb54d..055b3ab 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -597,7 +597,7 @@ void V8Object::savetofile(const boost::filesystem::path &path)
 //---------------------------------------------------------------------------
 uint64_t V8Object::get_fileoffset(uint64_t offset)
 {
-	uint32_t _start = offset;
+	uint64_t _start = offset;
 	objtab* b;
 	objtab838* bb;
 	uint32_t curblock;
-- 
2.43.0


From 79c6c59394223c12abaf8414471d569c702ed58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 11/30] fix: V8Object::get_data: reading nothing at the end of
 an object does not look past its placement table

---
 src/tool1cd/V8Object.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 055b3ab..e00adc6 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -472,6 +472,10 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 			curoffblock = _start - (curblock << 12);
 			curlen = std::min(static_cast<uint64_t>(DEFAULT_PAGE_SIZE - curoffblock), _length);
 
+			if(!_length) {
+				return (char*)buf;
+			}
+
 			curobjblock = curblock / 1023;
 			curoffobjblock = curblock - curobjblock * 1023;
 
@@ -517,6 +521,10 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 			curlen = std::min(static_cast<uint64_t>(base->get_pagesize() - curoffblock), _length);
 			if(fatlevel)
 			{
+				if(!_length) {
+					return (char*)buf;
+				}
+
 				curobjblock = curblock / offsperpage;
 				curoffobjblock = curblock - curobjblock * offsperpage;
 
-- 
2.43.0


From f3d4bd905bee4aa902bd2e6089d95375e3e716f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 12/30] fix: V8Object: a header whose length needs more table
 entries than the page holds is refused

---
 src/tool1cd/V8Object.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index e00adc6..c2d7ecd 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -128,7 +128,14 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 			// в таблице свободных блоков в разделе blocks может быть больше блоков, чем numblocks
 			// numblocks - кол-во блоков с реальными данными
 			// оставшиеся real_numblocks - numblocks блоки принадлежат объекту, но не содержат данных
-			while(t->blocks[real_numblocks]) real_numblocks++;
+			while(real_numblocks < sizeof(t->blocks) / sizeof(t->blocks[0]) && t->blocks[real_numblocks]) real_numblocks++;
+			if(numblocks > real_numblocks)
+			{
+				delete t;
+				init();
+				throw DetailedException("Ошибка получения объекта из блока. Длина объекта больше допустимой.")
+					.add_detail("Блок", to_hex_string(blockNum));
+			}
 			if(real_numblocks > 0)
 			{
 				blocks.clear();
@@ -147,6 +154,13 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 				numblocks = 0;
 			}
 
+			if(numblocks > sizeof(t->blocks) / sizeof(t->blocks[0])) {
+				delete t;
+				init();
+				throw DetailedException("Ошибка получения объекта из блока. Длина объекта больше допустимой.")
+					.add_detail("Блок", to_hex_string(blockNum));
+			}
+
 			if(numblocks > 0) {
 				blocks.clear();
 				blocks.resize(numblocks);
@@ -184,6 +198,14 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 				.add_detail("Блок", to_hex_string(blockNum))
 				.add_detail("Длина файла", len);
 		}
+		if(fatlevel && len > uint64_t(base->get_pagesize() / 4 - 6) * (base->get_pagesize() / 4) * base->get_pagesize())
+		{
+			delete[] b;
+			init();
+			throw DetailedException("Ошибка получения файла из страницы. Длина файла больше допустимой при двухуровневой таблице размещения.")
+				.add_detail("Блок", to_hex_string(blockNum))
+				.add_detail("Длина файла", len);
+		}
 		version.version_1 = t->version.version_1;
 		version.version_2 = t->version.version_2;
 		version.version_3 = t->version.version_3;
@@ -248,7 +270,7 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		// в таблице свободных блоков в разделе blocks может быть больше блоков, чем numblocks
 		// numblocks - кол-во блоков с реальными данными
 		// оставшиеся real_numblocks - numblocks блоки принадлежат объекту, но не содержат данных
-		while(t->blocks[real_numblocks]) real_numblocks++;
+		while(real_numblocks < base->get_pagesize() / 4 - 2 && t->blocks[real_numblocks]) real_numblocks++;
 		if(real_numblocks > 0) {
 			blocks.clear();
 			blocks.resize(real_numblocks);
-- 
2.43.0


From fad3dba728e0d5d975ce716732e2187bbe76d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 13/30] fix: V8Object: an object whose header is refused does
 not stay in the list of objects

---
 src/tool1cd/V8Object.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index c2d7ecd..acb5037 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -79,12 +79,6 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 	base = _base;
 	lockinmemory = false;
 
-	prev = last;
-	next = nullptr;
-	if(last) last->next = this;
-	else first = this;
-	last = this;
-
 	if(blockNum == 1)
 	{
 		if(base->get_version() < db_ver::ver8_3_8_0) type = v8objtype::free80;
@@ -284,6 +278,12 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		delete[] b;
 	}
 
+	prev = last;
+	next = nullptr;
+	if(last) last->next = this;
+	else first = this;
+	last = this;
+
 
 	msreg_g.AddDebugMessage("Создан объект", MessageState::Info)
 			.with("Номер блока", to_hex_string(blockNum))
-- 
2.43.0


From f3ac25ab06c4962ccf53c6e15b3b820d2b1c47a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 14/30] fix: V8Object: the last page of an object is
 transferred when it is the first of its placement table

---
 src/tool1cd/V8Object.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index acb5037..0b857e3 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -368,11 +368,11 @@ char* V8Object::get_data()
 			{
 				curlen = std::min(DEFAULT_PAGE_SIZE, l);
 				base->get_block(tt, b->blocks[j], curlen);
-				if(l <= curlen) break;
 				l -= curlen;
+				if(!l) break;
 				tt += DEFAULT_PAGE_SIZE;
 			}
-			if(l <= curlen) break;
+			if(!l) break;
 		}
 	}
 	else if(type == v8objtype::data838)
@@ -391,11 +391,11 @@ char* V8Object::get_data()
 				{
 					curlen = ll > pagesize ? pagesize : ll;
 					base->get_block(tt, bb->blocks[j], curlen);
-					if(ll <= curlen) break;
 					ll -= curlen;
+					if(!ll) break;
 					tt += pagesize;
 				}
-				if(ll <= curlen) break;
+				if(!ll) break;
 			}
 		}
 		else
@@ -832,12 +832,12 @@ bool V8Object::set_data(const void* _buf, uint64_t _length)
 				char *tt = base->get_block_for_write(b->blocks[j], false);
 				memcpy(tt, buf, curlen);
 				buf += DEFAULT_PAGE_SIZE;
-				if(_length <= curlen) {
+				_length -= curlen;
+				if(!_length) {
 					break;
 				}
-				_length -= curlen;
 			}
-			if(_length <= curlen) {
+			if(!_length) {
 				break;
 			}
 		}
@@ -929,12 +929,12 @@ bool V8Object::set_data(TStream* stream)
 				curlen = std::min(static_cast<uint64_t>(DEFAULT_PAGE_SIZE),_length);
 				char *tt = base->get_block_for_write(b->blocks[j], false);
 				stream->ReadBuffer(tt, curlen);
-				if(_length <= curlen) {
+				_length -= curlen;
+				if(!_length) {
 					break;
 				}
-				_length -= curlen;
 			}
-			if(_length <= curlen) {
+			if(!_length) {
 				break;
 			}
 		}
-- 
2.43.0


From f3d4f677037b5cc0354c574aa78bf524bad934de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 15/30] fix: V8Object::set_data: writing nothing does not look
 past the placement table

---
 src/tool1cd/V8Object.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 0b857e3..c1d8fb2 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -724,7 +724,7 @@ bool V8Object::set_data(const void* buf, uint64_t _start, uint64_t _length)
 		curobjblock = curblock / 1023;
 		curoffobjblock = curblock - curobjblock * 1023;
 
-		objtab *b = (objtab*) base->get_block(blocks[curobjblock++]);
+		objtab *b = _length ? (objtab*) base->get_block(blocks[curobjblock++]) : nullptr;
 		while(_length)
 		{
 			memcpy((char*)(base->get_block_for_write(b->blocks[curoffobjblock++], curlen != DEFAULT_PAGE_SIZE)) + curoffblock, _buf, curlen);
@@ -757,7 +757,7 @@ bool V8Object::set_data(const void* buf, uint64_t _start, uint64_t _length)
 			curobjblock = curblock / offsperpage;
 			curoffobjblock = curblock - curobjblock * offsperpage;
 
-			objtab838 *bb = (objtab838*) base->get_block(blocks[curobjblock++]);
+			objtab838 *bb = _length ? (objtab838*) base->get_block(blocks[curobjblock++]) : nullptr;
 			while(_length)
 			{
 				memcpy((char*)(base->get_block_for_write(bb->blocks[curoffobjblock++], curlen != base->get_pagesize())) + curoffblock, _buf, curlen);
@@ -856,7 +856,7 @@ bool V8Object::set_data(const void* _buf, uint64_t _length)
 			curobjblock = 0;
 			curoffobjblock = 0;
 
-			objtab838 *bb = (objtab838*) base->get_block(blocks[curobjblock++]);
+			objtab838 *bb = _length ? (objtab838*) base->get_block(blocks[curobjblock++]) : nullptr;
 			while(_length)
 			{
 				memcpy((char*)(base->get_block_for_write(bb->blocks[curoffobjblock++], false)), buf, curlen);
@@ -953,7 +953,7 @@ bool V8Object::set_data(TStream* stream)
 			curobjblock = 0;
 			curoffobjblock = 0;
 
-			objtab838 *bb = (objtab838*) base->get_block(blocks[curobjblock++]);
+			objtab838 *bb = _length ? (objtab838*) base->get_block(blocks[curobjblock++]) : nullptr;
 			while(_length)
 			{
 				stream->ReadBuffer(base->get_block_for_write(bb->blocks[curoffobjblock++], false), curlen);
@@ -1024,7 +1024,7 @@ bool V8Object::set_data(TStream* stream, uint64_t _start, uint64_t _length)
 		curobjblock = curblock / 1023;
 		curoffobjblock = curblock - curobjblock * 1023;
 
-		objtab *b = (objtab*) base->get_block(blocks[curobjblock++]);
+		objtab *b = _length ? (objtab*) base->get_block(blocks[curobjblock++]) : nullptr;
 		while(_length)
 		{
 			stream->ReadBuffer((char*)(base->get_block_for_write(b->blocks[curoffobjblock++], curlen != DEFAULT_PAGE_SIZE)) + curoffblock, curlen);
@@ -1055,7 +1055,7 @@ bool V8Object::set_data(TStream* stream, uint64_t _start, uint64_t _length)
 			curobjblock = curblock / offsperpage;
 			curoffobjblock = curblock - curobjblock * offsperpage;
 
-			objtab838 *bb = (objtab838*) base->get_block(blocks[curobjblock++]);
+			objtab838 *bb = _length ? (objtab838*) base->get_block(blocks[curobjblock++]) : nullptr;
 			while(_length)
 			{
 				stream->ReadBuffer((char*)(base->get_block_for_write(bb->blocks[curoffobjblock++], curlen != base->get_pagesize())) + curoffblock, curlen);
-- 
2.43.0


From 68008da5b829b7e09dfdcf491466b80e8e850498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:15 +0000
Subject: [PATCH 16/30] fix: base64_encode: a line break is two 16-bit
 characters

---
 src/tool1cd/Base64.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Base64.cpp b/src/tool1cd/Base64.cpp
index 8e92473..52228e7 100644
--- a/src/tool1cd/Base64.cpp
+++ b/src/tool1cd/Base64.cpp
@@ -32,6 +32,9 @@ static const char cb64[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz01
 //// Translation Table to decode (created by author)
 static const char cd64[]="|$$$}rstuvwxyz{$$$$$$$>?@ABCDEFGHIJKLMNOPQRSTUVW$$$$$$XYZ[\\]^_`abcdefghijklmnopq";
 
+// перенос строки в двухбайтной кодировке
+static const WCHART line_break[] = { '\r', '\n' };
+
 // encode
 // base64 encode a stream adding padding and line breaks as per spec.
 // linesize - длина строки. Если linesize = 0, выводится всё в одну строку, без переносов
@@ -50,7 +53,7 @@ void base64_encode(TStream* infile, TStream* outfile, int linesize)
 	{
 		if(blocksout >= linesize/4 && linesize)
 		{
-			outfile->Write(L"\r\n", 4);
+			outfile->Write(line_break, sizeof(line_break));
 			blocksout = 0;
 		}
 		blocksout++;
@@ -65,7 +68,7 @@ void base64_encode(TStream* infile, TStream* outfile, int linesize)
 	len = infile->GetSize() - infile->GetPosition();
 	if(len > 0)
 	{
-		if(blocksout >= linesize / 4 && linesize) outfile->Write(L"\r\n", 4);
+		if(blocksout >= linesize / 4 && linesize) outfile->Write(line_break, sizeof(line_break));
 		in[1] = 0;
 		in[2] = 0;
 		infile->Read(in, len);
-- 
2.43.0


From dd459a41afe0861b0df10c02d861a6abb0cbe960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 17/30] fix: a binary field value is shown as the digits of its
 bytes only

---
 src/tool1cd/FieldType.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index be9ac05..59407f6 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -40,7 +40,7 @@ namespace Convert {
 string from_binary(const uint8_t *fr, int32_t length)
 {
 	string result;
-	result.resize((length + 1) * 2);
+	result.resize(length * 2);
 
 	for(int32_t i = 0; i < length; i++) {
 		char sym = '0' + (fr[i] >> 4);
@@ -55,17 +55,17 @@ string from_binary(const uint8_t *fr, int32_t length)
 		result[(i << 1) + 1] = sym;
 	}
 
-	result[length << 1] = 0;
-
 	return result;
 }
 
 string from_varbinary(const uint8_t *fr, int32_t length)
 {
 	string result;
-	result.resize((length + 1) * 2);
 
 	int32_t m = *(int16_t*)fr; // длина + смещение
+	m = std::max(0, std::min(m, length));
+	result.resize(m * 2);
+
 	for(int32_t i = 0; i < m; i++) {
 		char sym = '0' + (fr[i + 2] >> 4);
 		if(sym > '9') {
@@ -79,8 +79,6 @@ string from_varbinary(const uint8_t *fr, int32_t length)
 		result[(i << 1) + 1] = sym;
 	}
 
-	result[m << 1] = 0;
-
 	return result;
 }
 
-- 
2.43.0


From 4760f20fbd907197db931e1a043e8f085d3dd18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 18/30] fix: a stored variable length text is not read past the
 end of its field

---
 src/tool1cd/FieldType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 59407f6..80f813f 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -683,8 +683,8 @@ string CommonFieldType::get_presentation(const char *rec, bool EmptyNull, wchar_
 			int16_t length = *(int16_t *) fr;
 			fr += sizeof(length);
 			auto full_size = length * sizeof(WCHART);
-			if (full_size > get_size()) {
-				full_size = get_size();
+			if (full_size > get_size() - sizeof(length)) {
+				full_size = get_size() - sizeof(length);
 			}
 			return TEncoding::Unicode->toUtf8(vector<uint8_t>(fr, fr + full_size));
 		}
-- 
2.43.0


From 4546464ffec9cded72e580279af20b0f2a89758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 19/30] fix: building a field value clears the bytes of the
 field also before its size was asked for

---
 src/tool1cd/FieldType.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 80f813f..f16cc8e 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -304,7 +304,7 @@ public:
 bool BinaryFieldType::get_binary_value(char *binary_value, const string &value) const
 {
 	unsigned char* fr = (unsigned char*)binary_value;
-	memset(fr, 0, len);
+	memset(fr, 0, get_size());
 
 	switch(type)
 	{
@@ -538,7 +538,7 @@ uint32_t NumericFieldType::get_sort_key(const char* rec, unsigned char* SortKey,
 bool DatetimeFieldType::get_binary_value(char* binary_value, const string& value) const
 {
 	unsigned char* fr = (unsigned char*)binary_value;
-	memset(fr, 0, len);
+	memset(fr, 0, get_size());
 
 	if (value.size() < 19) {
 		fr[1] = 1;
@@ -613,7 +613,7 @@ uint32_t DatetimeFieldType::get_sort_key(const char* rec, unsigned char* SortKey
 bool CommonFieldType::get_binary_value(char *binary_value, const string &value) const
 {
 	unsigned char* fr = (unsigned char*)binary_value;
-	memset(fr, 0, len);
+	memset(fr, 0, get_size());
 
 	switch(type)
 	{
-- 
2.43.0


From d2aa91905e672ce24e4f140e5376fb77e3e4f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 20/30] fix: a binary field value is read from the first digit
 of its text

---
 src/tool1cd/FieldType.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index f16cc8e..c516ff1 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -312,30 +312,35 @@ bool BinaryFieldType::get_binary_value(char *binary_value, const string &value)
 			if(value.size() == 0) {
 				break;
 			}
-			int32_t j = 1;
+			int32_t j = 0;
 			if(length == GUID_BINARY_SIZE && showGUID) // TODO Надо доделать для showGUIDasMS
 			{
 				if(value.size() < GUID_LEN) {
 					break;
 				}
 				for(int32_t ind = 12; ind < GUID_BINARY_SIZE; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = (from_hex_digit(value[j]) << 4) + from_hex_digit(value[j + 1]);
+					j += 2;
 				}
 				j++;
 				for(int32_t ind = 10; ind < 12; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = (from_hex_digit(value[j]) << 4) + from_hex_digit(value[j + 1]);
+					j += 2;
 				}
 				j++;
 				for(int32_t ind = 8; ind < 10; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = (from_hex_digit(value[j]) << 4) + from_hex_digit(value[j + 1]);
+					j += 2;
 				}
 				j++;
 				for(int32_t ind = 0; ind < 2; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = (from_hex_digit(value[j]) << 4) + from_hex_digit(value[j + 1]);
+					j += 2;
 				}
 				j++;
 				for(int32_t ind = 2; ind < 8; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = (from_hex_digit(value[j]) << 4) + from_hex_digit(value[j + 1]);
+					j += 2;
 				}
 			}
 			else {
@@ -343,7 +348,8 @@ bool BinaryFieldType::get_binary_value(char *binary_value, const string &value)
 					break;
 				}
 				for(int32_t ind = 0; ind < length; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = (from_hex_digit(value[j]) << 4) + from_hex_digit(value[j + 1]);
+					j += 2;
 				}
 			}
 			break;
-- 
2.43.0


From 564d4d210ff9430e8e30685af827b1d515fc72d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 21/30] fix: a text field is stored in its two-byte encoding

---
 src/tool1cd/FieldType.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index c516ff1..2c4ae6f 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -635,17 +635,19 @@ bool CommonFieldType::get_binary_value(char *binary_value, const string &value)
 		}
 
 		case type_fields::tf_char: {
-			int32_t i = std::min(value.size(), (size_t)length);
-			memcpy(fr, value.c_str(), i << 1);
+			auto text = TEncoding::Unicode->fromUtf8(value);
+			int32_t i = std::min(text.size() / sizeof(WCHART), (size_t)length);
+			memcpy(fr, text.data(), i << 1);
 			while(i < length) {
 				((WCHART*)fr)[i++] = L' ';
 			}
 			break;
 		}
 		case type_fields::tf_varchar: {
-			int32_t i = std::min(value.size(), (size_t)length);
+			auto text = TEncoding::Unicode->fromUtf8(value);
+			int32_t i = std::min(text.size() / sizeof(WCHART), (size_t)length);
 			*(int16_t*)fr = i;
-			memcpy(fr + 2, value.c_str(), i * 2);
+			memcpy(fr + 2, text.data(), i * 2);
 			while(i < length) {
 				((WCHART*)(fr + 2))[i++] = L' ';
 			}
-- 
2.43.0


From 8732e96b14d76c72fb01f75f3a5353dbbfef6473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 22/30] fix: TableRecord::set_data: a value of a nullable field
 does not overwrite the next byte

---
 src/tool1cd/TableRecord.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/TableRecord.cpp b/src/tool1cd/TableRecord.cpp
index 7ded7bf..24e975d 100644
--- a/src/tool1cd/TableRecord.cpp
+++ b/src/tool1cd/TableRecord.cpp
@@ -150,11 +150,13 @@ void TableRecord::set_null(const Field *field)
 void TableRecord::set_data(const Field *field, const void *new_data)
 {
 	char *data_start = &data[field->get_offset()];
+	size_t value_size = field->get_size();
 	if (field->get_null_exists()) {
 		data_start[0] = '\001';
 		data_start++;
+		value_size--;
 	}
-	memcpy(data_start, new_data, field->get_size());
+	memcpy(data_start, new_data, value_size);
 }
 
 std::string TableRecord::get_xml_string(const Field *field) const
-- 
2.43.0


From ecfb1b3742fe56ec201f3ea44f4518637da4147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 23/30] fix: Packdata::get_data: a stored object without bytes
 does not give the rest of the pack

---
 src/tool1cd/Packdata.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Packdata.cpp b/src/tool1cd/Packdata.cpp
index 782ff81..5900b71 100755
--- a/src/tool1cd/Packdata.cpp
+++ b/src/tool1cd/Packdata.cpp
@@ -64,7 +64,9 @@ TStream* Packdata::get_data(const char* datahash, bool &found) {
 			int64_t packlen = 0;
 			pack->Read(&packlen, sizeof(packlen));
 			buffer = new TTempStream;
-			buffer->CopyFrom(pack.get(), packlen);
+			if (packlen != 0) { // 0 означает для CopyFrom весь поток
+				buffer->CopyFrom(pack.get(), packlen);
+			}
 			buffer->Close();
 			found = true;
 		}
-- 
2.43.0


From d51dee8dacf14b1ed17164b4427253cc64c658d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:29 +0000
Subject: [PATCH 24/30] fix: T_1CD::open: a page size that does not exist is
 refused

---
 src/tool1cd/Class_1CD.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 5b05f56..a651343 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -300,6 +300,11 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		version = db_ver::ver8_3_8_0;
 		readonly = !_monopoly;
 		pagesize = cont->pagesize;
+		// страница от 4 до 64 КБ, степень двойки
+		if(pagesize < PAGE_SIZE_4K || pagesize > PAGE_SIZE_64K || (pagesize & (pagesize - 1)) != 0)
+		{
+			throw DetailedException("Неподдерживаемый размер страницы базы").add_detail("Размер страницы", to_hex_string(pagesize));
+		}
 	}
 	else
 	{
-- 
2.43.0


From e6b4487e1ffd563e1358fa9594b15ea64c0d3a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:29 +0000
Subject: [PATCH 25/30] fix: T_1CD::open: the header of a file that is too
 short is not taken from uninitialised memory

---
 src/tool1cd/Class_1CD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index a651343..d26de3c 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -259,7 +259,7 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		throw DetailedException("Ошибка открытия файла базы (файл открыт другой программой?)");
 	}
 
-	v8con* cont = new v8con;
+	v8con* cont = new v8con();
 	base_file->Read(cont, sizeof(v8con));
 
 	if(memcmp(&(cont->sig), SIG_CON, 8) != 0)
-- 
2.43.0


From 0fc76f12e8b8d8066fe6296dfb9460d1a3407d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:06 +0000
Subject: [PATCH 26/30] fix: ZDeflateStream: empty data and exact multiples of
 the buffer are packed to the end

---
 src/tool1cd/UZLib.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index 25a0e47..e294dbc 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -61,9 +61,6 @@ bool ZDeflateStream(TStream* src, TStream* dst)
 	// compress until end of file
 	do {
 		strm.avail_in = static_cast<unsigned int>(src->Read(in, CHUNKSIZE));
-		if (strm.avail_in == 0) {
-			return false;
-		}
 		/* TODO: ZDeflateStream проверка ошибок */
 
 		flush = (strm.avail_in < CHUNKSIZE) ? Z_FINISH : Z_NO_FLUSH;
-- 
2.43.0


From e0e47b6e94b58a11c033381f1b55b203e9c34460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:06 +0000
Subject: [PATCH 27/30] fix: Table::get_record: the place of a record beyond 4
 GB is not cut to 32 bits

---
 src/tool1cd/Table.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index ae78734..72f8f47 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -442,7 +442,7 @@ void Table::init(int32_t block_descr)
 
 	if(file_data)
 	{
-		if(phys_numrecords * recordlen != file_data->get_len())
+		if(static_cast<uint64_t>(phys_numrecords) * recordlen != file_data->get_len())
 		{
 			throw DetailedException("Длина таблицы не кратна длине записи.")
 				.add_detail("Блок", to_hex_string(block_descr))
@@ -638,7 +638,7 @@ uint32_t Table::get_added_numrecords() const
 //---------------------------------------------------------------------------
 void Table::get_record(uint32_t phys_numrecord, char *buf)
 {
-	file_data->get_data(buf, phys_numrecord * recordlen, recordlen);
+	file_data->get_data(buf, static_cast<uint64_t>(phys_numrecord) * recordlen, recordlen);
 }
 
 //---------------------------------------------------------------------------
@@ -648,7 +648,7 @@ TableRecord * Table::get_record(uint32_t phys_numrecord) const
 	tr_syn->BeginWrite();
 	#endif
 	char *buf = new char[recordlen];
-	char* b = file_data->get_data(buf, phys_numrecord * recordlen, recordlen);
+	char* b = file_data->get_data(buf, static_cast<uint64_t>(phys_numrecord) * recordlen, recordlen);
 	#ifndef getcfname
 	tr_syn->EndWrite();
 	#endif
-- 
2.43.0


From 1c6c570c1bf26ff0400de3e2b575d5546b2dbe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:06 +0000
Subject: [PATCH 28/30] fix: readBlob: blocks beyond 4 GB of the store are read
 from their place

---
 src/tool1cd/Table.cpp    | 16 +++++++++-------
 src/tool1cd/V8Object.cpp |  6 +++---
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 72f8f47..6f0e6f7 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -731,8 +731,9 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 	uint32_t _curblock;
 	char* _curb;
 	uint16_t _curlen;
-	uint32_t _filelen, _numblock;
-	uint32_t startlen;
+	uint64_t _filelen;
+	uint32_t _numblock;
+	int64_t startlen;
 
 	if(rewrite) _str->SetSize(0);
 	startlen = _str->GetPosition();
@@ -747,7 +748,7 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 	{
 		_filelen = file_blob->get_len();
 		_numblock = _filelen >> 8;
-		if(_numblock << 8 != _filelen)
+		if(static_cast<uint64_t>(_numblock) << 8 != _filelen)
 			throw DetailedException("Длина файла Blob не кратна 0x100")
 				.add_detail("Таблица", name)
 				.add_detail("Длина файла", to_hex_string(_filelen));
@@ -763,7 +764,7 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
-			file_blob->get_data(_curb, _curblock << 8, BLOB_RECORD_LEN);
+			file_blob->get_data(_curb, static_cast<uint64_t>(_curblock) << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
@@ -804,7 +805,8 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 	char* _curb;
 	char* _buf;
 	uint16_t _curlen;
-	uint32_t _filelen, _numblock;
+	uint64_t _filelen;
+	uint32_t _numblock;
 	uint32_t readed;
 
 	if(!_startblock && _length)
@@ -819,7 +821,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 	{
 		_filelen = file_blob->get_len();
 		_numblock = _filelen >> 8;
-		if(_numblock << 8 != _filelen) {
+		if(static_cast<uint64_t>(_numblock) << 8 != _filelen) {
 			throw DetailedException("Длина файла Blob не кратна 0x100")
 					.add_detail("Таблица", name)
 					.add_detail("Длина файла", to_hex_string(_filelen));
@@ -836,7 +838,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
-			file_blob->get_data(_curb, _curblock << 8, BLOB_RECORD_LEN);
+			file_blob->get_data(_curb, static_cast<uint64_t>(_curblock) << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index c1d8fb2..459f6d6 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1459,7 +1459,7 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 	uint32_t _curblock;
 	char* _curb;
 	uint32_t _numblock;
-	uint32_t startlen;
+	int64_t startlen;
 
 	if(rewrite) _str->SetSize(0);
 	startlen = _str->GetPosition();
@@ -1471,7 +1471,7 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 	}
 
 	_numblock = len >> 8;
-	if(_numblock << 8 != len)
+	if(static_cast<uint64_t>(_numblock) << 8 != len)
 	{
 		throw DetailedException("Длина файла Blob не кратна 0x100")
 			.add_detail("Номер страницы файла", to_hex_string(block))
@@ -1489,7 +1489,7 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 				.add_detail("Всего блоков", _numblock)
 				.add_detail("Читаемый блок", _curblock);
 		}
-		get_data(_curb, _curblock << 8, 0x100);
+		get_data(_curb, static_cast<uint64_t>(_curblock) << 8, 0x100);
 		_curblock = *(uint32_t*)_curb;
 		uint16_t _curlen = *(uint16_t*)(_curb + 4);
 		if(_curlen > 0xfa)
-- 
2.43.0


From cc14b143a58fd57a233c76ef5028d9e53f4a2c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:06 +0000
Subject: [PATCH 29/30] fix: Table::readBlob: a chain longer than recorded is
 not written past the given memory

---
 src/tool1cd/Table.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 6f0e6f7..889d0f4 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -848,11 +848,11 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 					.add_detail("Индекс блока", _curblock)
 					.add_detail("Читаемых байт", _curlen);
 			}
-			memcpy(_buf, _curb + 6, _curlen);
-			_buf += _curlen;
 			readed += _curlen;
-
 			if(readed > _length) break; // аварийный выход из возможного ошибочного зацикливания
+
+			memcpy(_buf, _curb + 6, _curlen);
+			_buf += _curlen;
 		}
 		delete[] _curb;
 
-- 
2.43.0


From 413e331398b68c793457ae1c2325d58a80ed10ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:06 +0000
Subject: [PATCH 30/30] fix: EndsWithIC: an ending that would begin inside a
 character is not cut there

---
 src/tool1cd/SystemClasses/String.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/SystemClasses/String.cpp b/src/tool1cd/SystemClasses/String.cpp
index a8c8272..e68618f 100644
--- a/src/tool1cd/SystemClasses/String.cpp
+++ b/src/tool1cd/SystemClasses/String.cpp
@@ -178,6 +178,9 @@ bool EndsWithIC(const std::string &str, const std::string &substr)
 	if (str.size() < substr.size()) {
 		return false;
 	}
+	if ((static_cast<unsigned char>(str[str.size() - substr.size()]) & 0xC0) == 0x80) {
+		return false; // окончание начинается с середины символа
+	}
 	return CompareIC(str.substr(str.size() - substr.size(), substr.size()), substr) == 0;
 }
 
-- 
2.43.0

