From 3d6c98d6251e9777849128f26374864074666308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 01/19] fix: Use the element offset when gathering bounds

The bounds of every element of an input stream were computed from the bytes at the start of the
vertex, so they were wrong (as were Bounds transforms) for any element but the first.
---
 lib/src/Converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 75f4e0a..8120aed 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -688,7 +688,8 @@ bool Converter::convert()
 				}
 
 				VertexValue value;
-				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride();
+				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
+					element.offset;
 				value.fromData(stream.vertexData + offset, element.layout, element.type);
 				value.expandBounds(elementRef.minVal, elementRef.maxVal);
 			}
-- 
2.43.0


From 4791a7562079e7a5b409217da8c8eba2efa4b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 02/19] fix: Don't let NaN values reset the vertex bounds

With std::min(value, bound) a NaN value replaced the bound, and the next value then replaced the
NaN, so the bounds only covered the values after the last NaN.
---
 lib/include/VFC/VertexValue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/include/VFC/VertexValue.h b/lib/include/VFC/VertexValue.h
index cca79cc..50de5a1 100644
--- a/lib/include/VFC/VertexValue.h
+++ b/lib/include/VFC/VertexValue.h
@@ -117,8 +117,9 @@ public:
 	{
 		for (unsigned int i = 0; i < count; ++i)
 		{
-			minVal.m_values[i] = std::min(m_values[i], minVal.m_values[i]);
-			maxVal.m_values[i] = std::max(m_values[i], maxVal.m_values[i]);
+			// Ordered so NaN values are ignored rather than replacing the bounds.
+			minVal.m_values[i] = std::min(minVal.m_values[i], m_values[i]);
+			maxVal.m_values[i] = std::max(maxVal.m_values[i], m_values[i]);
 		}
 	}
 
-- 
2.43.0


From 31dc44461b8c3d43af1856941ce726760d420002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 03/19] fix: Don't reference moved index data strings in the
 result

The result took a pointer to the string before it was moved. For strings short enough to be stored
inline the pointer referred to a destroyed string, such as 'indices.0.dat' with the output directory
'.', or short base64 data.
---
 tool/main.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index e01ec50..97de3bd 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -320,7 +320,7 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 	std::vector<IndexFileData> indexFileData;
 	std::vector<std::string> indexStrings;
 	indexFileData.reserve(converter.getIndices().size());
-	indexStrings.reserve(indexFileData.size());
+	indexStrings.reserve(converter.getIndices().size());
 	if (outputDir.empty())
 	{
 		for (const vfc::IndexData& indexData : converter.getIndices())
@@ -329,9 +329,10 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				static_cast<std::size_t>(indexData.count)*vfc::indexSize(indexData.type);
 			std::string encodedData = "base64:";
 			encodedData.append(base64::encode(indexData.data, indexSize));
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, encodedData.c_str()});
+			// Pointer must be to the string that is kept. It won't be moved since space was reserved.
 			indexStrings.push_back(std::move(encodedData));
+			indexFileData.push_back(
+				IndexFileData{indexData.count, indexData.baseVertex, indexStrings.back().c_str()});
 		}
 	}
 	else
@@ -352,9 +353,10 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				return "";
 			}
 
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, indexDataPath.c_str()});
+			// Pointer must be to the string that is kept. It won't be moved since space was reserved.
 			indexStrings.push_back(std::move(indexDataPath));
+			indexFileData.push_back(
+				IndexFileData{indexData.count, indexData.baseVertex, indexStrings.back().c_str()});
 		}
 	}
 
-- 
2.43.0


From c988b45227b5042972168622b8c0a941a974d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 04/19] fix: Report output file errors found when flushing or
 closing

Small files stay in the stream buffer until the stream is closed by the destructor, which ignores
errors, so a full disk went unnoticed.
---
 tool/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tool/main.cpp b/tool/main.cpp
index 97de3bd..4cdf6d3 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -269,6 +269,8 @@ bool writeFile(const void* data, std::size_t size, const std::string& fileName)
 		return false;
 
 	stream.write(reinterpret_cast<const char*>(data), size);
+	// Close explicitly, since buffered data is written and errors may be reported on close.
+	stream.close();
 	return stream.good();
 }
 
-- 
2.43.0


From c429aee17291f92ea90aeb66e561fe67dab10238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 05/19] fix: Exit with an error if the result can't be written
 to stdout

The exit status was 0 even though the result was lost or truncated.
---
 tool/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 4cdf6d3..b840294 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -446,6 +446,10 @@ int main(int argc, const char** argv)
 	if (result.empty())
 		return 1;
 
-	std::printf("%s\n", result.c_str());
+	if (std::printf("%s\n", result.c_str()) < 0 || std::fflush(stdout) != 0)
+	{
+		std::fprintf(stderr, "error: Couldn't write the result to stdout.\n");
+		return 1;
+	}
 	return 0;
 }
-- 
2.43.0


From 5a0d2e3857e9778f43b208312aca8feeddbce147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 06/19] fix: Report errors when reading files instead of
 terminating

A read error, or passing a directory as the input, threw an exception from the stream buffer
iterator that was never caught, so the tool was aborted.
---
 tool/ConfigFile.cpp | 18 +++++++++++++++++-
 tool/main.cpp       | 10 ++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 3f2b5b2..a94c224 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -555,7 +555,23 @@ bool ConfigFile::load(const char* fileName, const vfc::Converter::ErrorFunction&
 bool ConfigFile::load(std::istream& stream, const char* fileName,
 	const vfc::Converter::ErrorFunction& errorFunction)
 {
-	std::string json(std::istreambuf_iterator<char>(stream), {});
+	// Read with the stream functions, since errors escape stream buffer iterators as exceptions.
+	std::string json;
+	char buffer[4096];
+	do
+	{
+		stream.read(buffer, sizeof(buffer));
+		json.append(buffer, static_cast<std::size_t>(stream.gcount()));
+	} while (stream.good());
+	if (stream.bad())
+	{
+		std::string message = "error: Couldn't read config file '";
+		message += fileName;
+		message += "'.";
+		errorFunction(message.c_str());
+		return false;
+	}
+
 	return load(json.c_str(), fileName, errorFunction);
 }
 
diff --git a/tool/main.cpp b/tool/main.cpp
index b840294..1199bde 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -185,8 +185,14 @@ bool loadData(std::vector<std::uint8_t>& outData,  const std::string& configFile
 	std::ifstream stream(dataFilePath, std::ios_base::in | std::ios_base::binary);
 	if (stream.is_open())
 	{
-		outData.insert(outData.end(), std::istreambuf_iterator<char>(stream), {});
-		if (stream.good() || stream.eof())
+		// Read with the stream functions, since errors escape stream buffer iterators as exceptions.
+		char buffer[4096];
+		do
+		{
+			stream.read(buffer, sizeof(buffer));
+			outData.insert(outData.end(), buffer, buffer + stream.gcount());
+		} while (stream.good());
+		if (!stream.bad())
 			return true;
 	}
 
-- 
2.43.0


From 4446a7f8040671048f22e728d0bf73cbbaae751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 07/19] fix: Exit with an error when out of memory instead of
 terminating

Nothing caught std::bad_alloc or std::length_error, so the tool was aborted.
---
 tool/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tool/main.cpp b/tool/main.cpp
index 1199bde..6e48a34 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -23,6 +23,7 @@
 
 #include <cstdio>
 #include <cstring>
+#include <exception>
 #include <fstream>
 #include <iostream>
 
@@ -373,6 +374,7 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 }
 
 int main(int argc, const char** argv)
+try
 {
 	std::string input;
 	std::string output;
@@ -459,3 +461,8 @@ int main(int argc, const char** argv)
 	}
 	return 0;
 }
+catch (const std::exception& e)
+{
+	std::fprintf(stderr, "error: %s\n", e.what());
+	return 1;
+}
-- 
2.43.0


From 6f4866622c375c2db40e58afb98d84f70b1280b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:53 +0000
Subject: [PATCH 08/19] fix: Report an error when the vertex bounds aren't
 finite

The JSON writer stops when it's given infinity or NaN, so a truncated result was printed and the
exit status was 0.
---
 tool/main.cpp | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 6e48a34..fd1a9f8 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -21,6 +21,7 @@
 #include "Path.h"
 #include "ResultFile.h"
 
+#include <cmath>
 #include <cstdio>
 #include <cstring>
 #include <exception>
@@ -283,6 +284,29 @@ bool writeFile(const void* data, std::size_t size, const std::string& fileName)
 
 std::string writeOutput(const vfc::Converter& converter, const std::string& outputDir)
 {
+	// JSON can't hold infinity or NaN. Check this before any file is written.
+	const std::vector<vfc::VertexFormat>& vertexFormat = converter.getVertexFormat();
+	std::vector<std::vector<Bounds>> bounds(vertexFormat.size());
+	for (std::size_t i = 0; i < vertexFormat.size(); ++i)
+	{
+		const vfc::VertexFormat& curFormat = vertexFormat[i];
+		std::vector<Bounds>& curBounds = bounds[i];
+		curBounds.resize(curFormat.size());
+		for (std::size_t j = 0; j < curFormat.size(); ++j)
+		{
+			converter.getVertexElementBounds(curBounds[j].min, curBounds[j].max, i, j);
+			for (unsigned int k = 0; k < vfc::VertexValue::count; ++k)
+			{
+				if (std::isfinite(curBounds[j].min[k]) && std::isfinite(curBounds[j].max[k]))
+					continue;
+
+				std::fprintf(stderr, "error: Bounds for vertex element '%s' aren't finite.\n",
+					curFormat[j].name.c_str());
+				return "";
+			}
+		}
+	}
+
 	const std::vector<std::vector<std::uint8_t>>& vertices = converter.getVertices();
 	std::vector<std::string> vertexData;
 	vertexData.reserve(vertices.size());
@@ -315,17 +339,6 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 		}
 	}
 
-	const std::vector<vfc::VertexFormat>& vertexFormat = converter.getVertexFormat();
-	std::vector<std::vector<Bounds>> bounds(vertexFormat.size());
-	for (std::size_t i = 0; i < vertexFormat.size(); ++i)
-	{
-		const vfc::VertexFormat& curFormat = vertexFormat[i];
-		std::vector<Bounds>& curBounds = bounds[i];
-		curBounds.resize(curFormat.size());
-		for (std::size_t j = 0; j < curFormat.size(); ++j)
-			converter.getVertexElementBounds(curBounds[j].min, curBounds[j].max, i, j);
-	}
-
 	std::vector<IndexFileData> indexFileData;
 	std::vector<std::string> indexStrings;
 	indexFileData.reserve(converter.getIndices().size());
-- 
2.43.0


From dc78fa05250f2a2fef5d556a607d911e93600423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 09/19] fix: Don't overflow the stack with deeply nested JSON

The parser recursed for each nested array or object, so a damaged configuration could crash the
tool.
---
 tool/ConfigFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index a94c224..be309e8 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -580,7 +580,8 @@ bool ConfigFile::load(const char* json, const char* fileName,
 {
 	assert(errorFunction);
 	rapidjson::Document document;
-	if (document.Parse(json).HasParseError())
+	// Parse iteratively, since deeply nested JSON overflows the stack with the recursive parser.
+	if (document.Parse<rapidjson::kParseIterativeFlag>(json).HasParseError())
 	{
 		std::string message = errorMessageStart(json, fileName, document.GetErrorOffset());
 		message += getErrorString(document.GetParseError());
-- 
2.43.0


From 22add6b90d04178111c3b20f2e87b454c114210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 10/19] fix: Saturate 64-bit integers rather than overflowing

The maximum 64-bit values round up to 2^63 or 2^64 as doubles, so values that should have been
clamped to the maximum overflowed, for example to the minimum int64_t.
---
 lib/src/VertexValue.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 3d9fd59..0c2d1ff 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -220,8 +220,11 @@ inline void packSNormValues(T* data, const double* values, unsigned int count)
 template <typename T>
 inline T packInteger(double value, T minVal, T maxVal)
 {
-	return static_cast<T>(std::round(glm::clamp(value, static_cast<double>(minVal),
-		static_cast<double>(maxVal))));
+	// The maximum for 64-bit types is rounded up when converted to double, in which case it would
+	// overflow when converted back.
+	double roundedVal = std::round(glm::clamp(value, static_cast<double>(minVal),
+		static_cast<double>(maxVal)));
+	return roundedVal >= static_cast<double>(maxVal) ? maxVal : static_cast<T>(roundedVal);
 }
 
 inline void packIntegers(std::uint8_t* data, const double* values, unsigned int count)
-- 
2.43.0


From 4ca0c5cbb3dc5438395502b5b0bb268ae57faaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:40 +0000
Subject: [PATCH 11/19] fix: Don't swap the vertices a triangle strip continues
 with

When a triangle strip was split across index buffers after an even number of triangles the last two
vertices were copied in reverse order, so the second triangle in the new index buffer used the wrong
vertex.
---
 lib/src/Converter.cpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 8120aed..315a7ed 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -363,22 +363,11 @@ void copyConnectedVertices(std::vector<std::vector<std::uint8_t>>& vertices,
 			}
 			else
 			{
-				// Reverse every other primitive.
-				std::uint32_t primitiveCount = stripIndexCount - 2;
-				if (primitiveCount & 1)
-				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 1, prevBaseVertex);
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 2, prevBaseVertex);
-				}
-				else
-				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 2, prevBaseVertex);
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 1, prevBaseVertex);
-				}
+				// Keep the order of the last two vertices, since the following primitives share them.
+				copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
+					baseVertex, indexCount - 2, prevBaseVertex);
+				copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
+					baseVertex, indexCount - 1, prevBaseVertex);
 				curIndexCount += 2;
 			}
 			break;
-- 
2.43.0


From 9c6e7aa5a2e3bf3ecb0bb787fae9f4ccc0336ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 12/19] fix: Compare index counts with empty streams and ignore
 rejected ones.

A stream with a count of zero was treated as if no stream had been added, so later streams
with a different count were accepted and read out of bounds. A stream rejected for duplicate
elements fixed the count for the streams after it.
---
 lib/include/VFC/Converter.h | 1 +
 lib/src/Converter.cpp       | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/include/VFC/Converter.h b/lib/include/VFC/Converter.h
index 8e164ae..6e83a03 100644
--- a/lib/include/VFC/Converter.h
+++ b/lib/include/VFC/Converter.h
@@ -419,6 +419,7 @@ private:
 	std::vector<std::uint8_t> m_indices;
 	std::vector<IndexData> m_indexData;
 	std::uint32_t m_indexCount;
+	bool m_hasIndexCount;
 };
 
 } // namespace vfc
diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 315a7ed..b0d4276 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -437,6 +437,7 @@ Converter::Converter(std::vector<VertexFormat> vertexFormat, IndexType indexType
 	, m_maxIndexValue(maxIndexValue)
 	, m_errorFunction(std::move(errorFunction))
 	, m_indexCount(0)
+	, m_hasIndexCount(false)
 {
 	bool error = false;
 	if (m_vertexFormat.empty())
@@ -505,7 +506,7 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	}
 
 	std::uint32_t finalIndexCount = hasIndices ? indexCount : vertexCount;
-	if (m_indexCount > 0 && m_indexCount != finalIndexCount)
+	if (m_hasIndexCount && m_indexCount != finalIndexCount)
 	{
 		if (hasIndices)
 			logError("Mismatch between number of indices for vertex streams.");
@@ -547,10 +548,12 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 		}
 	}
 
-	m_indexCount = finalIndexCount;
 	if (duplicateElements)
 		return false;
-	else if (!hasElements)
+
+	m_indexCount = finalIndexCount;
+	m_hasIndexCount = true;
+	if (!hasElements)
 		return true;
 
 	auto streamIndex = static_cast<std::uint32_t>(m_vertexStreams.size());
-- 
2.43.0


From f26027018dd72f82443382d929edaee4671b6701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:26 +0000
Subject: [PATCH 13/19] fix: Don't leave dangling elements when adding a stream
 fails.

Elements were mapped to the stream before it was stored, so an exception when storing it
left a converter that pointed to the freed format and to a stream that doesn't exist.
---
 lib/src/Converter.cpp | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index b0d4276..463cc03 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -551,29 +551,32 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	if (duplicateElements)
 		return false;
 
-	m_indexCount = finalIndexCount;
-	m_hasIndexCount = true;
-	if (!hasElements)
-		return true;
-
-	auto streamIndex = static_cast<std::uint32_t>(m_vertexStreams.size());
-	for (std::size_t i = 0; i < m_vertexFormat.size(); ++i)
+	if (hasElements)
 	{
-		const VertexFormat& curFormat = m_vertexFormat[i];
-		std::vector<VertexElementRef>& curElementMapping = m_elementMapping[i];
-		for (std::size_t j = 0; j < curFormat.size(); ++j)
+		// Add the stream first so nothing is changed if this throws an exception.
+		auto streamIndex = static_cast<std::uint32_t>(m_vertexStreams.size());
+		m_vertexStreams.push_back(VertexStream{reinterpret_cast<const std::uint8_t*>(vertexData),
+			indexData, std::move(vertexFormat), vertexCount, indexType});
+
+		const VertexFormat& streamFormat = m_vertexStreams.back().vertexFormat;
+		for (std::size_t i = 0; i < m_vertexFormat.size(); ++i)
 		{
-			auto it = vertexFormat.find(curFormat[j].name);
-			if (it == vertexFormat.end())
-				continue;
+			const VertexFormat& curFormat = m_vertexFormat[i];
+			std::vector<VertexElementRef>& curElementMapping = m_elementMapping[i];
+			for (std::size_t j = 0; j < curFormat.size(); ++j)
+			{
+				auto it = streamFormat.find(curFormat[j].name);
+				if (it == streamFormat.end())
+					continue;
 
-			curElementMapping[j].streamIndex = streamIndex;
-			curElementMapping[j].element = &*it;
+				curElementMapping[j].streamIndex = streamIndex;
+				curElementMapping[j].element = &*it;
+			}
 		}
 	}
 
-	m_vertexStreams.push_back(VertexStream{reinterpret_cast<const std::uint8_t*>(vertexData),
-		indexData, std::move(vertexFormat), vertexCount, indexType});
+	m_indexCount = finalIndexCount;
+	m_hasIndexCount = true;
 	return true;
 }
 
-- 
2.43.0


From 0dd255043bd6e50522ffb9ccee9c12dcf19cf33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 14/19] fix: Reject streams for an invalid converter.

Converters that are invalid due to having no patch points divided by zero.
---
 lib/src/Converter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 463cc03..f015c26 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -498,6 +498,12 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	std::uint32_t vertexCount, IndexType indexType, const void* indexData,
 	std::uint32_t indexCount)
 {
+	if (!isValid())
+	{
+		logError("Converter is invalid.");
+		return false;
+	}
+
 	bool hasIndices = indexType != IndexType::NoIndices;
 	if (!vertexData || (hasIndices && !indexData))
 	{
-- 
2.43.0


From 25cab7279b0a3e9177aed392c45036e52ab79f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:30 +0000
Subject: [PATCH 15/19] fix: Restore the converter when a conversion doesn't
 complete.

A conversion that failed or was interrupted by an exception left partially expanded bounds,
partial vertices and indices, and prevented it from being attempted again.
---
 lib/src/Converter.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index f015c26..ad76d27 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -657,6 +657,31 @@ bool Converter::convert()
 	if (!hasAllElements)
 		return false;
 
+	// Restore the initial state if the conversion doesn't complete.
+	struct ConvertGuard
+	{
+		~ConvertGuard()
+		{
+			if (!converter)
+				return;
+
+			for (std::vector<VertexElementRef>& curElementMapping : converter->m_elementMapping)
+			{
+				for (VertexElementRef& elementRef : curElementMapping)
+				{
+					elementRef.minVal = VertexValue::initialBoundsMin;
+					elementRef.maxVal = VertexValue::initialBoundsMax;
+				}
+			}
+			converter->m_vertices.clear();
+			converter->m_indices.clear();
+			converter->m_indexData.clear();
+		}
+
+		Converter* converter;
+	};
+	ConvertGuard guard{this};
+
 	// First need to gather the bounds. Loop over the streams first for better cache efficiency.
 	for (std::vector<VertexElementRef>& curElementMapping : m_elementMapping)
 	{
@@ -839,6 +864,7 @@ bool Converter::convert()
 	for (IndexData& indexData : m_indexData)
 		indexData.data = m_indices.data() + reinterpret_cast<std::size_t>(indexData.data);
 
+	guard.converter = nullptr;
 	return true;
 }
 
-- 
2.43.0


From 8f268f00e087f17ee90ccae6904d0bb6dff0ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:41 +0000
Subject: [PATCH 16/19] fix: Don't use the primitive restart index for
 vertices.

When the maximum index value was the primitive restart index, strips and fans with enough
vertices used it as a normal index.
---
 lib/src/Converter.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index ad76d27..f35d184 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -739,6 +739,12 @@ bool Converter::convert()
 		indexData = &m_indexData.back();
 	}
 
+	// The primitive restart index cannot be used for a vertex.
+	std::uint32_t primitiveRestartIndex = primitiveRestartIndexValue(m_indexType);
+	std::uint32_t maxVertexIndex = m_maxIndexValue;
+	if (isPrimitiveRestart(maxVertexIndex, primitiveRestartIndex, m_primitiveType))
+		--maxVertexIndex;
+
 	unsigned int indexStride = primitiveIndexStride(m_primitiveType, m_patchPoints);
 	for (std::uint32_t i = 0; i < m_indexCount; i += indexStride)
 	{
@@ -746,7 +752,7 @@ bool Converter::convert()
 		auto vertexCount =
 			static_cast<std::uint32_t>(m_vertices[0].size()/m_vertexFormat[0].stride());
 		if (m_indexType != IndexType::NoIndices &&
-			vertexCount + indexStride - 1 - indexData->baseVertex > m_maxIndexValue)
+			vertexCount + indexStride - 1 - indexData->baseVertex > maxVertexIndex)
 		{
 			std::int32_t baseVertex = vertexCount;
 			m_indexData.push_back(IndexData{reinterpret_cast<void*>(m_indices.size()),
@@ -853,7 +859,7 @@ bool Converter::convert()
 				std::uint32_t vertexIndex =
 					addVertex(m_vertices, m_vertexFormat, vertexData, vertexSet);
 				std::uint32_t indexValue = vertexIndex - indexData->baseVertex;
-				assert(indexValue <= m_maxIndexValue);
+				assert(indexValue <= maxVertexIndex);
 				addIndex(m_indices, m_indexType, sizeofIndex, indexValue);
 				++indexData->count;
 			}
-- 
2.43.0


From dec2d8af1b0581174e0fa0f14222a27e261740e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 17/19] fix: Report when the help can't be printed.

---
 tool/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tool/main.cpp b/tool/main.cpp
index fd1a9f8..204b24f 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -396,6 +396,11 @@ try
 		if (std::strcmp(argv[i], "-h") == 0 || std::strcmp(argv[i], "--help") == 0)
 		{
 			printHelp(argv[0]);
+			if (std::fflush(stdout) != 0 || std::ferror(stdout))
+			{
+				std::fprintf(stderr, "error: Couldn't write the help to stdout.\n");
+				return 1;
+			}
 			return 0;
 		}
 		else if (std::strcmp(argv[i], "-i") == 0 || std::strcmp(argv[i], "--input") == 0)
-- 
2.43.0


From 64989628bee738e765e56e8f44c795abb6a77d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 18/19] fix: leave a VertexFormat unchanged when assigning to
 it runs out of memory

The implicit copy assignment assigned the elements one by one in place, so an
exception from copying a name left the elements of both formats mixed and the
stride of the old one.
---
 lib/include/VFC/VertexFormat.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/include/VFC/VertexFormat.h b/lib/include/VFC/VertexFormat.h
index b573255..32b8b9a 100644
--- a/lib/include/VFC/VertexFormat.h
+++ b/lib/include/VFC/VertexFormat.h
@@ -320,6 +320,21 @@ public:
 	{
 	}
 
+	VertexFormat(const VertexFormat&) = default;
+	VertexFormat(VertexFormat&&) = default;
+	VertexFormat& operator=(VertexFormat&&) = default;
+
+	/**
+	 * @brief Assigns another vertex format to this.
+	 * @remark If an exception is thrown, this format is left unchanged.
+	 * @param other The other format to assign.
+	 * @return A reference to this.
+	 */
+	VertexFormat& operator=(const VertexFormat& other)
+	{
+		return *this = VertexFormat(other);
+	}
+
 	/**
 	 * @brief Appends an element to the vertex format.
 	 * @param name The name of the element. This must be unique.
-- 
2.43.0


From 3bc432847516b25a377ee769af81f717f3f597b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 19/19] fix: Reject configuration strings with embedded null
 characters.

---
 tool/ConfigFile.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index be309e8..1719743 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -72,6 +72,12 @@ static const char* getErrorString(rapidjson::ParseErrorCode error)
 	return "Unknown error";
 }
 
+// Embedded null characters would silently truncate names and file paths.
+static bool isString(const rapidjson::Value& value)
+{
+	return value.IsString() && strlen(value.GetString()) == value.GetStringLength();
+}
+
 static std::pair<unsigned int, unsigned int> getLineColumn(const char* json, std::size_t offset)
 {
 	std::pair<unsigned int, unsigned int> lineColumn(1, 1);
@@ -139,7 +145,7 @@ static vfc::VertexFormat readVertexFormat(const rapidjson::Value& value, const c
 		}
 
 		auto nameIt = it->FindMember("name");
-		if (nameIt == it->MemberEnd() || !nameIt->value.IsString())
+		if (nameIt == it->MemberEnd() || !isString(nameIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex format element must contain 'name' string member.";
@@ -149,7 +155,7 @@ static vfc::VertexFormat readVertexFormat(const rapidjson::Value& value, const c
 		}
 
 		auto layoutIt = it->FindMember("layout");
-		if (layoutIt == it->MemberEnd() || !layoutIt->value.IsString())
+		if (layoutIt == it->MemberEnd() || !isString(layoutIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex format element must contain 'layout' string member.";
@@ -171,7 +177,7 @@ static vfc::VertexFormat readVertexFormat(const rapidjson::Value& value, const c
 		}
 
 		auto typeIt = it->FindMember("type");
-		if (typeIt == it->MemberEnd() || !typeIt->value.IsString())
+		if (typeIt == it->MemberEnd() || !isString(typeIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex format element must contain 'type' string member.";
@@ -294,7 +300,7 @@ static bool readIndexType(vfc::IndexType& outIndexType, const rapidjson::Value&
 		return true;
 	}
 
-	if (!indexTypeIt->value.IsString())
+	if (!isString(indexTypeIt->value))
 	{
 		std::string message = fileName;
 		message += ": error: Index type must be a string.";
@@ -336,7 +342,7 @@ static bool readPrimitiveType(vfc::PrimitiveType& outPrimitiveType, std::uint32_
 		return true;
 	}
 
-	if (!primitiveTypeIt->value.IsString())
+	if (!isString(primitiveTypeIt->value))
 	{
 		std::string message = fileName;
 		message += ": error: Primitive type must be a string.";
@@ -426,7 +432,7 @@ static std::vector<ConfigFile::VertexStream> readVertexStreams(const rapidjson::
 		}
 
 		auto vertexDataIt = it->FindMember("vertexData");
-		if (vertexDataIt == it->MemberEnd() || !vertexDataIt->value.IsString())
+		if (vertexDataIt == it->MemberEnd() || !isString(vertexDataIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex stream element must contain 'vertexData' string member.";
@@ -446,7 +452,7 @@ static std::vector<ConfigFile::VertexStream> readVertexStreams(const rapidjson::
 		if (stream.indexType != vfc::IndexType::NoIndices)
 		{
 			auto indexDataIt = it->FindMember("indexData");
-			if (indexDataIt == it->MemberEnd() || !indexDataIt->value.IsString())
+			if (indexDataIt == it->MemberEnd() || !isString(indexDataIt->value))
 			{
 				std::string message = fileName;
 				message += ": error: Vertex stream element must contain 'indexData' string member.";
@@ -493,7 +499,7 @@ static bool readVertexTransforms(
 		}
 
 		auto nameIt = it->FindMember("name");
-		if (nameIt == it->MemberEnd() || !nameIt->value.IsString())
+		if (nameIt == it->MemberEnd() || !isString(nameIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex transform element must contain 'name' string member.";
@@ -502,7 +508,7 @@ static bool readVertexTransforms(
 		}
 
 		auto transformIt = it->FindMember("transform");
-		if (transformIt == it->MemberEnd() || !transformIt->value.IsString())
+		if (transformIt == it->MemberEnd() || !isString(transformIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex transform element must contain 'transform' string member.";
-- 
2.43.0

