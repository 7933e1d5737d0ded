From 982498eaf4d61ec7bcc6675d4e782dbf494b55ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 01/13] fix: BLAKE1: count message bits correctly when padding
 spans two blocks

A tail of 56..63 bytes (112..127 for the 384/512 variants) needs two final
blocks; the padding length was applied to each of them, so the block holding
message bits was compressed with a wrong counter and the digest was wrong.
---
 src/blake1_224.h | 7 ++++++-
 src/blake1_256.h | 7 ++++++-
 src/blake1_384.h | 7 ++++++-
 src/blake1_512.h | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/blake1_224.h b/src/blake1_224.h
index 697524b..bb99964 100644
--- a/src/blake1_224.h
+++ b/src/blake1_224.h
@@ -464,7 +464,12 @@ namespace Blake1_224_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const uint32_t nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			// paddings are at the end of `data` and may span more than 1 block
+			const size_t trailingBytes = data.size() - ((iter + 1) * BLOCK_SIZE);
+			const size_t totalPaddings = static_cast<size_t>(paddingLen);
+			const size_t blockPaddings = (totalPaddings > trailingBytes) ? std::min<size_t>((totalPaddings - trailingBytes), BLOCK_SIZE) : 0;
+
+			const uint32_t nonPaddingBits = static_cast<uint32_t>((BLOCK_SIZE - blockPaddings) * 8);
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_256.h b/src/blake1_256.h
index 31e21d8..9781b68 100644
--- a/src/blake1_256.h
+++ b/src/blake1_256.h
@@ -466,7 +466,12 @@ namespace Blake1_256_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			// paddings are at the end of `data` and may span more than 1 block
+			const size_t trailingBytes = data.size() - ((iter + 1) * BLOCK_SIZE);
+			const size_t totalPaddings = static_cast<size_t>(paddingLen);
+			const size_t blockPaddings = (totalPaddings > trailingBytes) ? std::min<size_t>((totalPaddings - trailingBytes), BLOCK_SIZE) : 0;
+
+			const int nonPaddingBits = static_cast<int>((BLOCK_SIZE - blockPaddings) * 8);
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_384.h b/src/blake1_384.h
index 066d426..d84dbeb 100644
--- a/src/blake1_384.h
+++ b/src/blake1_384.h
@@ -531,7 +531,12 @@ namespace Blake1_384_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			// paddings are at the end of `data` and may span more than 1 block
+			const size_t trailingBytes = data.size() - ((iter + 1) * BLOCK_SIZE);
+			const size_t totalPaddings = static_cast<size_t>(paddingLen);
+			const size_t blockPaddings = (totalPaddings > trailingBytes) ? std::min<size_t>((totalPaddings - trailingBytes), BLOCK_SIZE) : 0;
+
+			const int nonPaddingBits = static_cast<int>((BLOCK_SIZE - blockPaddings) * 8);
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_512.h b/src/blake1_512.h
index e2ffe38..af944ec 100644
--- a/src/blake1_512.h
+++ b/src/blake1_512.h
@@ -533,7 +533,12 @@ namespace Blake1_512_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			// paddings are at the end of `data` and may span more than 1 block
+			const size_t trailingBytes = data.size() - ((iter + 1) * BLOCK_SIZE);
+			const size_t totalPaddings = static_cast<size_t>(paddingLen);
+			const size_t blockPaddings = (totalPaddings > trailingBytes) ? std::min<size_t>((totalPaddings - trailingBytes), BLOCK_SIZE) : 0;
+
+			const int nonPaddingBits = static_cast<int>((BLOCK_SIZE - blockPaddings) * 8);
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
-- 
2.43.0


From b3dad90e062690450233bddc302b4162dac1bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 02/13] fix: FNV-0: restore the initial state in reset()

FNV32_0/FNV64_0 kept the accumulated hash across reset().
---
 src/fnv.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnv.h b/src/fnv.h
index 7b42bae..2dc9f5f 100644
--- a/src/fnv.h
+++ b/src/fnv.h
@@ -146,6 +146,8 @@ namespace FNVHASH_NS
 	template <typename DigestType, int Variant>
 	constexpr void FNVHash<DigestType, Variant>::reset()
 	{
+		m_hash = 0;
+
 		if (Variant >= 1)
 		{
 			switch (sizeof(DigestType))
-- 
2.43.0


From 1501f58b43545259bebbf11af3c4539389ce8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 03/13] fix: Tiger: don't write past the end of truncated
 digests

toArray() of the 128 and 160 bit variants stored all 24 state bytes into an
array of 16 or 20 bytes.
---
 src/tiger.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/tiger.h b/src/tiger.h
index 34cbb61..2b1dba9 100644
--- a/src/tiger.h
+++ b/src/tiger.h
@@ -515,12 +515,8 @@ namespace Tiger_NS
 		const int dataSize = sizeof(typename decltype(state)::value_type);
 
 		ResultArrayType ret {};
-		auto retPtr = ret.data();
-		for (const auto i : state)
-		{
-			for (int j = 0, jMax = dataSize; j < jMax; ++j)
-				*(retPtr++) = ror<Byte>(i, (j * 8));
-		}
+		for (size_t i = 0; i < ret.size(); ++i)
+			ret[i] = ror<Byte>(state[i / dataSize], ((i % dataSize) * 8));  // may be truncated
 		return ret;
 	}
 
-- 
2.43.0


From 47857e5d724d01f916406480b89486a678923871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 04/13] fix: cSHAKE: keep name and customization string across
 reset()

reset() dropped the encoded parameters, so a reset hasher (and a reset
TupleHash) produced the digest of another function.
---
 src/cshake.h | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index a20afe3..674aadf 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -120,8 +120,11 @@ namespace CShake_NS
 			}
 
 		private:
+			constexpr void absorbParameters();
 			constexpr void addDataImpl(Span<const Byte> data);
 
+			std::string m_name;
+			std::string m_customize;
 			bool m_customized = false;
 
 			std::unique_ptr<S> m_shake;
@@ -145,7 +148,9 @@ namespace CShake_NS
 	//
 	template <typename S, typename K, int P>
 	constexpr CShake<S, K, P>::CShake(const int digestLength, const std::string &name, const std::string &customize)
-		: m_customized(!(name.empty() && customize.empty()))
+		: m_name(name)
+		, m_customize(customize)
+		, m_customized(!(name.empty() && customize.empty()))
 	{
 		static_assert((P >= 0), "Template parameter value invalid: P");
 		static_assert((CHAR_BIT == 8), "Sorry, we don't support exotic CPUs");
@@ -157,7 +162,12 @@ namespace CShake_NS
 		}
 
 		m_keccak = std::make_unique<K>(digestLength);
+		absorbParameters();
+	}
 
+	template <typename S, typename K, int P>
+	constexpr void CShake<S, K, P>::absorbParameters()
+	{
 		const auto processString = [this](const std::string &str, size_t &length) -> void
 		{
 			const auto encodedStr = leftEncode(str.size() * 8);
@@ -177,8 +187,8 @@ namespace CShake_NS
 		addData({encodedW.data(), encodedW.size()});
 		length += encodedW.size();
 
-		processString(name, length);
-		processString(customize, length);
+		processString(m_name, length);
+		processString(m_customize, length);
 
 		const Buffer<Byte, 1> zero {0};
 		for (int i = 0; i < static_cast<int>(bytepadCount(length, P)); ++i)
@@ -187,7 +197,9 @@ namespace CShake_NS
 
 	template <typename S, typename K, int P>
 	constexpr CShake<S, K, P>::CShake(const CShake<S, K, P> &other)
-		: m_customized(other.m_customized)
+		: m_name(other.m_name)
+		, m_customize(other.m_customize)
+		, m_customized(other.m_customized)
 	{
 		if (!m_customized)
 			m_shake = std::make_unique<S>(*other.m_shake);
@@ -198,6 +210,8 @@ namespace CShake_NS
 	template <typename S, typename K, int P>
 	constexpr CShake<S, K, P>::CShake(CShake<S, K, P> &&other) noexcept
 	{
+		std::swap(m_name, other.m_name);
+		std::swap(m_customize, other.m_customize);
 		std::swap(m_customized, other.m_customized);
 		if (!m_customized)
 			std::swap(m_shake, other.m_shake);
@@ -210,6 +224,8 @@ namespace CShake_NS
 	{
 		if (this != &other)
 		{
+			m_name = other.m_name;
+			m_customize = other.m_customize;
 			m_customized = other.m_customized;
 			if (!m_customized)
 				*m_shake = *other.m_shake;
@@ -224,6 +240,8 @@ namespace CShake_NS
 	{
 		if (this != &other)
 		{
+			std::swap(m_name, other.m_name);
+			std::swap(m_customize, other.m_customize);
 			std::swap(m_customized, other.m_customized);
 			if (!m_customized)
 				std::swap(m_shake, other.m_shake);
@@ -237,9 +255,13 @@ namespace CShake_NS
 	constexpr void CShake<S, K, P>::reset()
 	{
 		if (!m_customized)
+		{
 			m_shake->reset();
-		else
-			m_keccak->reset();
+			return;
+		}
+
+		m_keccak->reset();
+		absorbParameters();
 	}
 
 	template <typename S, typename K, int P>
-- 
2.43.0


From 243ad8f6f9ea3f43a7d944f7e2181f8ae617d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 05/13] fix: cSHAKE: assignment between hashers of different
 kinds

Copy assignment dereferenced a null pointer when only one side was customized
or when the target had been moved from; move assignment swapped only one of
the two pointers.
---
 src/cshake.h | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index 674aadf..3cdbe96 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -224,13 +224,8 @@ namespace CShake_NS
 	{
 		if (this != &other)
 		{
-			m_name = other.m_name;
-			m_customize = other.m_customize;
-			m_customized = other.m_customized;
-			if (!m_customized)
-				*m_shake = *other.m_shake;
-			else
-				*m_keccak = *other.m_keccak;
+			// `this` may be of the other kind or moved-from
+			*this = CShake(other);
 		}
 		return *this;
 	}
@@ -243,10 +238,8 @@ namespace CShake_NS
 			std::swap(m_name, other.m_name);
 			std::swap(m_customize, other.m_customize);
 			std::swap(m_customized, other.m_customized);
-			if (!m_customized)
-				std::swap(m_shake, other.m_shake);
-			else
-				std::swap(m_keccak, other.m_keccak);
+			std::swap(m_shake, other.m_shake);
+			std::swap(m_keccak, other.m_keccak);
 		}
 		return *this;
 	}
-- 
2.43.0


From 47e8503a1ee2c5730f30f104887279551012e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 06/13] fix: program: pass the customization string to cSHAKE
 as such

It was passed as the function name.
---
 src/program/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 519f261..9e8c74c 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -290,7 +290,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 			}
 
-			readNPrint(Chocobo1::CSHAKE_128(digestLength, argv[3]), argv[4]);
+			readNPrint(Chocobo1::CSHAKE_128(digestLength, {}, argv[3]), argv[4]);
 			return true;
 		}
 
@@ -309,7 +309,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 			}
 
-			readNPrint(Chocobo1::CSHAKE_256(digestLength, argv[3]), argv[4]);
+			readNPrint(Chocobo1::CSHAKE_256(digestLength, {}, argv[3]), argv[4]);
 			return true;
 		}
 
-- 
2.43.0


From 56ca64232cfa6af931a2639fbea7c4f08781b5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 07/13] fix: program: report input that can't be read

A missing or unreadable file, a directory or a read error in the middle of the
input printed the digest of whatever had been read and exited with success.
---
 src/program/main.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 9e8c74c..17dc7a0 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -168,7 +168,18 @@ Hash getHash(const std::string &hash)
 
 bool runHash(const Hash hash, const int argc, const char *argv[])
 {
-	const auto readNPrint = [](auto hash, const std::string &filename) -> void
+	const auto ensureFullyRead = [](const std::istream &inStream, const std::string &filename) -> void
+	{
+		// `std::cin` doesn't tell apart EOF and errors
+		const bool isStdinError = (filename == "-") && (ferror(stdin) != 0);
+		if (!inStream.eof() || inStream.bad() || isStdinError)
+		{
+			fprintf(stderr, "Error: failed to read from: %s\n", filename.c_str());
+			exit(EXIT_FAILURE);
+		}
+	};
+
+	const auto readNPrint = [&ensureFullyRead](auto hash, const std::string &filename) -> void
 	{
 		std::unique_ptr<std::istream, void (*)(std::istream *)> inStream {nullptr, [](auto) {}};
 		if (filename == "-")
@@ -183,11 +194,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			inStream->read(buf.get(), bufSize);
 			hash.addData(buf.get(), inStream->gcount());
 		}
+		ensureFullyRead(*inStream, filename);
 
 		printf("%s  %s\n", hash.finalize().toString().c_str(), filename.c_str());
 	};
 
-	const auto readAllNPrint = [](auto hash, const std::string &filename) -> void
+	const auto readAllNPrint = [&ensureFullyRead](auto hash, const std::string &filename) -> void
 	{
 		std::unique_ptr<std::istream, void (*)(std::istream *)> inStream {nullptr, [](auto) {}};
 		if (filename == "-")
@@ -205,6 +217,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			inStream->read(tmp.get(), tmpSize);
 			buf.insert(buf.end(), tmp.get(), (tmp.get() + inStream->gcount()));
 		}
+		ensureFullyRead(*inStream, filename);
 
 		printf("%s  %s\n", hash.nextData(buf.data(), buf.size()).finalize().toString().c_str(), filename.c_str());
 	};
-- 
2.43.0


From 0bf051a7483c6e85db6a02af5947539c919227df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 08/13] fix: program: report failure to write the result

A full disk or closed pipe lost the digest while exiting with success.
---
 src/program/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 17dc7a0..d7dde24 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -100,6 +100,12 @@ int main(const int argc, const char *argv[])
 	const bool ret = runHash(hash, argc, argv);
 	goToFail(!ret);
 
+	if ((fflush(stdout) != 0) || (ferror(stdout) != 0))
+	{
+		fprintf(stderr, "Error: failed to write the result\n");
+		return EXIT_FAILURE;
+	}
+
 	return 0;
 }
 
-- 
2.43.0


From 03466c13532b70512e34f34fcdd298381b1744c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 09/13] fix: SHAKE: hashers of different digest lengths are not
 equal

---
 src/sha3.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sha3.h b/src/sha3.h
index ada4988..2f090df 100644
--- a/src/sha3.h
+++ b/src/sha3.h
@@ -233,6 +233,9 @@ namespace SHA3_NS
 
 			friend constexpr bool operator==(const Keccak &left, const Keccak &right)
 			{
+				if (left.m_digestLength != right.m_digestLength)
+					return false;
+
 				for (int y = 0; y < 5; ++y)
 				{
 					for (int x = 0; x < 5; ++x)
-- 
2.43.0


From 2cb96768cd732cafd9dd33bcda59f349a00d72d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 10/13] fix: Keccak based hashes: don't allocate in noexcept
 integer conversion

---
 src/cshake.h     | 10 ++--------
 src/sha3.h       |  2 +-
 src/tuple_hash.h |  9 +--------
 3 files changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index 3cdbe96..8b7b8c5 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -291,14 +291,8 @@ namespace CShake_NS
 	{
 		static_assert(std::is_unsigned<T>::value, "");
 
-		const auto digest = toVector();
-		T ret = 0;
-		for (int i = 0, iMax = static_cast<int>(std::min(sizeof(T), digest.size())); i < iMax; ++i)
-		{
-			ret <<= 8;
-			ret |= digest[i];
-		}
-		return ret;
+		// must not allocate, this function is noexcept
+		return m_customized ? static_cast<T>(*m_keccak) : static_cast<T>(*m_shake);
 	}
 
 	template <typename S, typename K, int P>
diff --git a/src/sha3.h b/src/sha3.h
index 2f090df..a9bf6e0 100644
--- a/src/sha3.h
+++ b/src/sha3.h
@@ -394,7 +394,7 @@ namespace SHA3_NS
 	{
 		static_assert(std::is_unsigned<T>::value, "");
 
-		const auto digest = toVector();
+		const auto &digest = m_final;  // must not allocate, this function is noexcept
 		T ret = 0;
 		for (int i = 0, iMax = static_cast<int>(std::min(sizeof(T), digest.size())); i < iMax; ++i)
 		{
diff --git a/src/tuple_hash.h b/src/tuple_hash.h
index f5390c8..8dfa639 100644
--- a/src/tuple_hash.h
+++ b/src/tuple_hash.h
@@ -175,14 +175,7 @@ namespace TupleHash_NS
 	{
 		static_assert(std::is_unsigned<T>::value, "");
 
-		const auto digest = toVector();
-		T ret = 0;
-		for (int i = 0, iMax = static_cast<int>(std::min(sizeof(T), digest.size())); i < iMax; ++i)
-		{
-			ret <<= 8;
-			ret |= digest[i];
-		}
-		return ret;
+		return static_cast<T>(m_cshake);
 	}
 
 	template <typename Alg>
-- 
2.43.0


From 8aa28bd21cab41c045299d9e470eba34ccd2ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:39 +0000
Subject: [PATCH 11/13] fix: program: reject digest lengths out of range

---
 src/program/main.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index d7dde24..b69c258 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -45,6 +45,7 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -304,10 +305,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::CSHAKE_128(digestLength, {}, argv[3]), argv[4]);
 			return true;
@@ -323,10 +326,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::CSHAKE_256(digestLength, {}, argv[3]), argv[4]);
 			return true;
@@ -542,10 +547,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::SHAKE_128(digestLength), argv[3]);
 			return true;
@@ -561,10 +568,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::SHAKE_256(digestLength), argv[3]);
 			return true;
@@ -643,10 +652,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readAllNPrint(Chocobo1::TupleHash_128(digestLength, argv[3]), argv[4]);
 			return true;
@@ -662,10 +673,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readAllNPrint(Chocobo1::TupleHash_256(digestLength, argv[3]), argv[4]);
 			return true;
-- 
2.43.0


From 5e2f393877140cd0417864b11aa22f86399cecc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:39 +0000
Subject: [PATCH 12/13] fix: TupleHash: don't overflow when encoding the digest
 length

---
 src/tuple_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple_hash.h b/src/tuple_hash.h
index 8dfa639..e84af62 100644
--- a/src/tuple_hash.h
+++ b/src/tuple_hash.h
@@ -151,7 +151,7 @@ namespace TupleHash_NS
 	template <typename Alg>
 	constexpr TupleHash<Alg>& TupleHash<Alg>::finalize()
 	{
-		const auto encoded = rightEncode(m_digestLength * 8);
+		const auto encoded = rightEncode(static_cast<uint64_t>(m_digestLength) * 8);
 		addDataImpl({encoded.data(), encoded.size()});
 		m_cshake.finalize();
 		return (*this);
-- 
2.43.0


From 0779eec0df9eeea2739adac38c7f01ca5f019069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:01 +0000
Subject: [PATCH 13/13] fix: do not crash when started with an empty argument
 vector

With argc 0, argv[0] is a null pointer, and constructing the program name
from it for the usage text ended in std::terminate.
---
 src/program/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index b69c258..33e8a79 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -85,11 +85,11 @@ static bool runHash(const Hash hash, const int argc, const char *argv[]);
 
 int main(const int argc, const char *argv[])
 {
-	const auto goToFail = [&argv](const bool failPred) -> void
+	const auto goToFail = [argc, &argv](const bool failPred) -> void
 	{
 		if (failPred)
 		{
-			printUsage(argv[0]);
+			printUsage((argc > 0) ? argv[0] : "hash");
 			exit(0);
 		}
 	};
-- 
2.43.0

