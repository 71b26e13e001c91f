From a5122f8e18f31e28be07479a80216323f079ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 01/14] fix: include the element offset when gathering vertex
 bounds

The pass that gathers the bounds read every element of an input stream from the start of the
vertex, so any element after the first reported (and was normalized with) the first's bounds.
---
 lib/src/Converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 75f4e0a..8120aed 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -688,7 +688,8 @@ bool Converter::convert()
 				}
 
 				VertexValue value;
-				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride();
+				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
+					element.offset;
 				value.fromData(stream.vertexData + offset, element.layout, element.type);
 				value.expandBounds(elementRef.minVal, elementRef.maxVal);
 			}
-- 
2.43.0


From b187c975ed0097c0bbb12f660c9b30589f444775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 02/14] fix: reject index count mismatch after an empty vertex
 stream

A first stream with no indices didn't take part in the index count check, so a later stream could
set a larger count that read past the end of the first stream's data.
---
 lib/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 8120aed..fb75ad1 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -516,7 +516,7 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	}
 
 	std::uint32_t finalIndexCount = hasIndices ? indexCount : vertexCount;
-	if (m_indexCount > 0 && m_indexCount != finalIndexCount)
+	if ((m_indexCount > 0 || !m_vertexStreams.empty()) && m_indexCount != finalIndexCount)
 	{
 		if (hasIndices)
 			logError("Mismatch between number of indices for vertex streams.");
-- 
2.43.0


From 65917b13ee18c0feaac28060a0bc233c06448939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 03/14] fix: don't add vertex streams to an invalid converter

A PatchList converter that was rejected for having no patch points took the index count modulo
zero when a vertex stream was added.
---
 lib/src/Converter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index fb75ad1..d431335 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -508,6 +508,12 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	std::uint32_t vertexCount, IndexType indexType, const void* indexData,
 	std::uint32_t indexCount)
 {
+	if (!isValid())
+	{
+		logError("Converter is invalid.");
+		return false;
+	}
+
 	bool hasIndices = indexType != IndexType::NoIndices;
 	if (!vertexData || (hasIndices && !indexData))
 	{
-- 
2.43.0


From f38f151e267a44e94c54be73efdac273a8c385e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 04/14] fix: reject a max index value that collides with the
 primitive restart value

For strip and fan primitives a vertex with the index primitiveRestartIndexValue() was output as a
primitive restart.
---
 lib/src/Converter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index d431335..1a803b7 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -484,7 +484,9 @@ Converter::Converter(std::vector<VertexFormat> vertexFormat, IndexType indexType
 			logError("Max index value is too small to hold any primitives.");
 			error = true;
 		}
-		else if (m_maxIndexValue > primitiveRestartIndexValue(indexType))
+		else if (m_maxIndexValue > primitiveRestartIndexValue(indexType) ||
+			isPrimitiveRestart(m_maxIndexValue, primitiveRestartIndexValue(indexType),
+				primitiveType))
 		{
 			logError("Max index value is higher than the maximum for the type.");
 			error = true;
-- 
2.43.0


From dc80270e4514533fd31eaff552d4046e1a18f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 05/14] fix: limit values before casting to integers when
 packing

NaN, and values at or beyond the limits of 64-bit integers, were cast to integer types that cannot
represent them, which is undefined (e.g. 1e30 packed as a 64-bit UInt was 0).
---
 lib/src/VertexValue.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 3d9fd59..5957e7f 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -161,10 +161,25 @@ inline typename std::make_signed<T>::type makeSigned(T value, T signBit)
 	return static_cast<SignedT>((value ^ signBit) - signBit);
 }
 
+template <typename T>
+inline T packInteger(double value, T minVal, T maxVal)
+{
+	// Limit before casting since NaN and out of range values are undefined. The limits for 64-bit
+	// types aren't exactly representable as doubles, so cannot clamp and then cast.
+	if (std::isnan(value))
+		return 0;
+	value = std::round(value);
+	if (value <= static_cast<double>(minVal))
+		return minVal;
+	if (value >= static_cast<double>(maxVal))
+		return maxVal;
+	return static_cast<T>(value);
+}
+
 template <typename T>
 inline T packUNorm(double value, T maxValue)
 {
-	return static_cast<T>(std::round(glm::clamp(value, 0.0, 1.0)*static_cast<double>(maxValue)));
+	return packInteger<T>(glm::clamp(value, 0.0, 1.0)*static_cast<double>(maxValue), 0, maxValue);
 }
 
 inline void packUNormValues(std::uint8_t* data, const double* values, unsigned int count)
@@ -191,7 +206,8 @@ inline T packSNorm(double value, U absMinValue, V range)
 {
 	using UnsignedT = typename std::make_unsigned<T>::type;
 	double unormVal = glm::clamp(value, -1.0, 1.0)*0.5 + 0.5;
-	auto baseRange = static_cast<UnsignedT>(std::round(unormVal*static_cast<double>(range)));
+	auto baseRange = packInteger<UnsignedT>(unormVal*static_cast<double>(range), 0,
+		static_cast<UnsignedT>(range));
 	return static_cast<T>(baseRange - absMinValue);
 }
 
@@ -217,13 +233,6 @@ inline void packSNormValues(T* data, const double* values, unsigned int count)
 	std::memcpy(data, alignedData, sizeof(T)*count);
 }
 
-template <typename T>
-inline T packInteger(double value, T minVal, T maxVal)
-{
-	return static_cast<T>(std::round(glm::clamp(value, static_cast<double>(minVal),
-		static_cast<double>(maxVal))));
-}
-
 inline void packIntegers(std::uint8_t* data, const double* values, unsigned int count)
 {
 	constexpr auto minValue = std::numeric_limits<std::uint8_t>::min();
-- 
2.43.0


From a4f9f1dbcf1287760363e4521e8322a1dcbe93fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 06/14] fix: don't discard the bounds when expanding by NaN

std::min() and std::max() return the first argument when unordered, so a NaN value replaced the
bounds gathered so far and the next value restarted them.
---
 lib/include/VFC/VertexValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/VFC/VertexValue.h b/lib/include/VFC/VertexValue.h
index cca79cc..bfcd392 100644
--- a/lib/include/VFC/VertexValue.h
+++ b/lib/include/VFC/VertexValue.h
@@ -117,8 +117,8 @@ public:
 	{
 		for (unsigned int i = 0; i < count; ++i)
 		{
-			minVal.m_values[i] = std::min(m_values[i], minVal.m_values[i]);
-			maxVal.m_values[i] = std::max(m_values[i], maxVal.m_values[i]);
+			minVal.m_values[i] = std::min(minVal.m_values[i], m_values[i]);
+			maxVal.m_values[i] = std::max(maxVal.m_values[i], m_values[i]);
 		}
 	}
 
-- 
2.43.0


From 06bffc384868470459b929ce5f1c5c71c9233a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 07/14] fix: don't pass negative characters to std::tolower()
 when hashing names

---
 lib/src/VertexFormat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/VertexFormat.cpp b/lib/src/VertexFormat.cpp
index f8492fb..3e76606 100644
--- a/lib/src/VertexFormat.cpp
+++ b/lib/src/VertexFormat.cpp
@@ -57,7 +57,7 @@ public:
 	{
 		std::size_t value = 5381;
 		const char* str = m_str;
-		while (int c = *str++)
+		while (int c = static_cast<unsigned char>(*str++))
 		{
 			c = std::tolower(c);
 			value = ((value << 5) + value) + c; // value*33 + c
-- 
2.43.0


From 61c74fce06743b14ddb36f8d5801f90864340598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 08/14] fix: keep the index data strings alive while writing
 the result

The index data pointed to the contents of local strings that were moved from, so short base64 data
or paths were output as empty strings.
---
 tool/main.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index e01ec50..39f4276 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -320,7 +320,7 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 	std::vector<IndexFileData> indexFileData;
 	std::vector<std::string> indexStrings;
 	indexFileData.reserve(converter.getIndices().size());
-	indexStrings.reserve(indexFileData.size());
+	indexStrings.reserve(converter.getIndices().size());
 	if (outputDir.empty())
 	{
 		for (const vfc::IndexData& indexData : converter.getIndices())
@@ -329,9 +329,9 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				static_cast<std::size_t>(indexData.count)*vfc::indexSize(indexData.type);
 			std::string encodedData = "base64:";
 			encodedData.append(base64::encode(indexData.data, indexSize));
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, encodedData.c_str()});
 			indexStrings.push_back(std::move(encodedData));
+			indexFileData.push_back(
+				IndexFileData{indexData.count, indexData.baseVertex, indexStrings.back().c_str()});
 		}
 	}
 	else
@@ -352,9 +352,9 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				return "";
 			}
 
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, indexDataPath.c_str()});
 			indexStrings.push_back(std::move(indexDataPath));
+			indexFileData.push_back(
+				IndexFileData{indexData.count, indexData.baseVertex, indexStrings.back().c_str()});
 		}
 	}
 
-- 
2.43.0


From c6ea3fe64242bc0f47183b00eb900d91dd24c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 09/14] fix: report errors when flushing the output

Data files and the result were buffered, so errors when finally written (e.g. a full disk) were
ignored and the tool exited successfully.
---
 tool/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 39f4276..4372804 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -269,6 +269,7 @@ bool writeFile(const void* data, std::size_t size, const std::string& fileName)
 		return false;
 
 	stream.write(reinterpret_cast<const char*>(data), size);
+	stream.close();
 	return stream.good();
 }
 
@@ -442,6 +443,10 @@ int main(int argc, const char** argv)
 	if (result.empty())
 		return 1;
 
-	std::printf("%s\n", result.c_str());
+	if (std::printf("%s\n", result.c_str()) < 0 || std::fflush(stdout) != 0)
+	{
+		std::fprintf(stderr, "error: Couldn't write output.\n");
+		return 1;
+	}
 	return 0;
 }
-- 
2.43.0


From e6ff35b20dff8be8ddfa0d96a02740765ccfc484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 10/14] fix: report an error when the result can't be
 represented as JSON

Infinite bounds cannot be written as JSON, which stopped writing the result part way through and
output the truncated document successfully.
---
 tool/ResultFile.cpp | 3 ++-
 tool/main.cpp       | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tool/ResultFile.cpp b/tool/ResultFile.cpp
index 22b6388..d1d8d98 100644
--- a/tool/ResultFile.cpp
+++ b/tool/ResultFile.cpp
@@ -111,6 +111,7 @@ std::string resultFile(const std::vector<vfc::VertexFormat>& vertexFormat,
 
 	rapidjson::StringBuffer buffer;
 	rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(buffer);
-	document.Accept(writer);
+	if (!document.Accept(writer))
+		return std::string();
 	return buffer.GetString();
 }
diff --git a/tool/main.cpp b/tool/main.cpp
index 4372804..bd4de41 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -359,8 +359,11 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 		}
 	}
 
-	return resultFile(converter.getVertexFormat(), bounds, vertexData, converter.getVertexCount(),
-		converter.getIndexType(), indexFileData);
+	std::string result = resultFile(converter.getVertexFormat(), bounds, vertexData,
+		converter.getVertexCount(), converter.getIndexType(), indexFileData);
+	if (result.empty())
+		std::fprintf(stderr, "error: Couldn't represent the vertex bounds in the result.\n");
+	return result;
 }
 
 int main(int argc, const char** argv)
-- 
2.43.0


From b0c94442c3d7bcc1cdc695c1bc1c744d4b8e6948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 11/14] fix: parse the JSON config iteratively

Deeply nested JSON overflowed the stack in the recursive parser.
---
 tool/ConfigFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 3f2b5b2..bf1a113 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -564,7 +564,8 @@ bool ConfigFile::load(const char* json, const char* fileName,
 {
 	assert(errorFunction);
 	rapidjson::Document document;
-	if (document.Parse(json).HasParseError())
+	// Parse iteratively so deeply nested values cannot overflow the stack.
+	if (document.Parse<rapidjson::kParseIterativeFlag>(json).HasParseError())
 	{
 		std::string message = errorMessageStart(json, fileName, document.GetErrorOffset());
 		message += getErrorString(document.GetParseError());
-- 
2.43.0


From 8e8dd1b3455e69efbb99646f368b58ae153f58c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 12/14] fix: report read errors rather than terminating

Reading a path that can be opened but not read (e.g. a directory) threw an exception from the stream
iterators that nothing catches, aborting the tool.
---
 tool/ConfigFile.cpp | 17 ++++++++++++++++-
 tool/main.cpp       | 10 ++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index bf1a113..4439033 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -555,7 +555,22 @@ bool ConfigFile::load(const char* fileName, const vfc::Converter::ErrorFunction&
 bool ConfigFile::load(std::istream& stream, const char* fileName,
 	const vfc::Converter::ErrorFunction& errorFunction)
 {
-	std::string json(std::istreambuf_iterator<char>(stream), {});
+	// Use read() rather than stream iterators, which throw an exception on read errors.
+	std::string json;
+	char buffer[4096];
+	do
+	{
+		stream.read(buffer, sizeof(buffer));
+		json.append(buffer, static_cast<std::size_t>(stream.gcount()));
+	} while (stream.good());
+	if (stream.bad())
+	{
+		std::string message = fileName;
+		message += ": error: Couldn't read config file.";
+		errorFunction(message.c_str());
+		return false;
+	}
+
 	return load(json.c_str(), fileName, errorFunction);
 }
 
diff --git a/tool/main.cpp b/tool/main.cpp
index bd4de41..284bf5f 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -185,8 +185,14 @@ bool loadData(std::vector<std::uint8_t>& outData,  const std::string& configFile
 	std::ifstream stream(dataFilePath, std::ios_base::in | std::ios_base::binary);
 	if (stream.is_open())
 	{
-		outData.insert(outData.end(), std::istreambuf_iterator<char>(stream), {});
-		if (stream.good() || stream.eof())
+		// Use read() rather than stream iterators, which throw an exception on read errors.
+		char buffer[4096];
+		do
+		{
+			stream.read(buffer, sizeof(buffer));
+			outData.insert(outData.end(), buffer, buffer + stream.gcount());
+		} while (stream.good());
+		if (!stream.bad())
 			return true;
 	}
 
-- 
2.43.0


From a7aa46060f2624aec2a28d4315ea99de030a5762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 13/14] fix: don't treat a null character as path separator

---
 tool/Path.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tool/Path.cpp b/tool/Path.cpp
index 4ac3824..fb2b8b6 100644
--- a/tool/Path.cpp
+++ b/tool/Path.cpp
@@ -26,9 +26,10 @@ static char prefPathSep = '/';
 
 static bool isPathSep(char c)
 {
-	for (char s : pathSeps)
+	// Skip the null terminator of the string, which isn't a separator.
+	for (const char* s = pathSeps; *s; ++s)
 	{
-		if (c == s)
+		if (c == *s)
 			return true;
 	}
 
-- 
2.43.0


From 598eb1aa62f32e48659e34b78fdef6dc02e6c952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 14/14] fix: don't keep vertex transforms of a previously
 loaded configuration

---
 tool/ConfigFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 4439033..1c60dd5 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -628,6 +628,7 @@ bool ConfigFile::load(const char* json, const char* fileName,
 	if (m_vertexStreams.empty())
 		return false;
 
+	m_transforms.clear();
 	auto vertexTransformIt = document.FindMember("vertexTransforms");
 	if (vertexTransformIt != document.MemberEnd() &&
 		!readVertexTransforms(m_transforms, vertexTransformIt->value, fileName, errorFunction))
-- 
2.43.0

