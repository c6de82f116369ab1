From 6d815df9a7e7417f813318224e7025230ac3b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 01/16] fix: BLAKE1 counter when the paddings span two blocks

---
 src/blake1_224.h | 4 +++-
 src/blake1_256.h | 4 +++-
 src/blake1_384.h | 4 +++-
 src/blake1_512.h | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/blake1_224.h b/src/blake1_224.h
index 697524b..9f62790 100644
--- a/src/blake1_224.h
+++ b/src/blake1_224.h
@@ -464,7 +464,9 @@ namespace Blake1_224_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const uint32_t nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			const size_t messageLen = data.size() - paddingLen;  // the paddings may span over 2 blocks
+			const size_t messagePos = iter * BLOCK_SIZE;
+			const uint32_t nonPaddingBits = (messagePos < messageLen) ? static_cast<uint32_t>(std::min<size_t>((messageLen - messagePos), BLOCK_SIZE) * 8) : 0;
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_256.h b/src/blake1_256.h
index 31e21d8..4c632ad 100644
--- a/src/blake1_256.h
+++ b/src/blake1_256.h
@@ -466,7 +466,9 @@ namespace Blake1_256_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			const size_t messageLen = data.size() - paddingLen;  // the paddings may span over 2 blocks
+			const size_t messagePos = iter * BLOCK_SIZE;
+			const int nonPaddingBits = (messagePos < messageLen) ? static_cast<int>(std::min<size_t>((messageLen - messagePos), BLOCK_SIZE) * 8) : 0;
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_384.h b/src/blake1_384.h
index 066d426..4430055 100644
--- a/src/blake1_384.h
+++ b/src/blake1_384.h
@@ -531,7 +531,9 @@ namespace Blake1_384_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			const size_t messageLen = data.size() - paddingLen;  // the paddings may span over 2 blocks
+			const size_t messagePos = iter * BLOCK_SIZE;
+			const int nonPaddingBits = (messagePos < messageLen) ? static_cast<int>(std::min<size_t>((messageLen - messagePos), BLOCK_SIZE) * 8) : 0;
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_512.h b/src/blake1_512.h
index e2ffe38..0e941d0 100644
--- a/src/blake1_512.h
+++ b/src/blake1_512.h
@@ -533,7 +533,9 @@ namespace Blake1_512_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			const size_t messageLen = data.size() - paddingLen;  // the paddings may span over 2 blocks
+			const size_t messagePos = iter * BLOCK_SIZE;
+			const int nonPaddingBits = (messagePos < messageLen) ? static_cast<int>(std::min<size_t>((messageLen - messagePos), BLOCK_SIZE) * 8) : 0;
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
-- 
2.43.0


From 81c7ecfea8646513937f020966b137dd0a57d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 02/16] fix: FNV-0 reset() does not restore the initial state

---
 src/fnv.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnv.h b/src/fnv.h
index 7b42bae..2dc9f5f 100644
--- a/src/fnv.h
+++ b/src/fnv.h
@@ -146,6 +146,8 @@ namespace FNVHASH_NS
 	template <typename DigestType, int Variant>
 	constexpr void FNVHash<DigestType, Variant>::reset()
 	{
+		m_hash = 0;
+
 		if (Variant >= 1)
 		{
 			switch (sizeof(DigestType))
-- 
2.43.0


From 787289003dbb8991b41042d2a3d693e055460bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 03/16] fix: reset() of a customized cSHAKE drops its name and
 customization

---
 src/cshake.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/cshake.h b/src/cshake.h
index a20afe3..4dd7061 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -126,6 +126,7 @@ namespace CShake_NS
 
 			std::unique_ptr<S> m_shake;
 			std::unique_ptr<K> m_keccak;
+			std::unique_ptr<K> m_initial;  // `m_keccak` state after absorbing `name` & `customize`
 	};
 
 
@@ -183,6 +184,8 @@ namespace CShake_NS
 		const Buffer<Byte, 1> zero {0};
 		for (int i = 0; i < static_cast<int>(bytepadCount(length, P)); ++i)
 			addData({zero.data(), zero.size()});
+
+		m_initial = std::make_unique<K>(*m_keccak);
 	}
 
 	template <typename S, typename K, int P>
@@ -192,7 +195,10 @@ namespace CShake_NS
 		if (!m_customized)
 			m_shake = std::make_unique<S>(*other.m_shake);
 		else
+		{
 			m_keccak = std::make_unique<K>(*other.m_keccak);
+			m_initial = std::make_unique<K>(*other.m_initial);
+		}
 	}
 
 	template <typename S, typename K, int P>
@@ -202,7 +208,10 @@ namespace CShake_NS
 		if (!m_customized)
 			std::swap(m_shake, other.m_shake);
 		else
+		{
 			std::swap(m_keccak, other.m_keccak);
+			std::swap(m_initial, other.m_initial);
+		}
 	}
 
 	template <typename S, typename K, int P>
@@ -214,7 +223,10 @@ namespace CShake_NS
 			if (!m_customized)
 				*m_shake = *other.m_shake;
 			else
+			{
 				*m_keccak = *other.m_keccak;
+				*m_initial = *other.m_initial;
+			}
 		}
 		return *this;
 	}
@@ -228,7 +240,10 @@ namespace CShake_NS
 			if (!m_customized)
 				std::swap(m_shake, other.m_shake);
 			else
+			{
 				std::swap(m_keccak, other.m_keccak);
+				std::swap(m_initial, other.m_initial);
+			}
 		}
 		return *this;
 	}
@@ -239,7 +254,7 @@ namespace CShake_NS
 		if (!m_customized)
 			m_shake->reset();
 		else
-			m_keccak->reset();
+			*m_keccak = *m_initial;
 	}
 
 	template <typename S, typename K, int P>
-- 
2.43.0


From 126117bcb67c7a7ae465782c0c0b106e36f3243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 04/16] fix: cSHAKE copy assignment between customized and
 plain objects

---
 src/cshake.h | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index 4dd7061..93a985f 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -218,16 +218,7 @@ namespace CShake_NS
 	constexpr CShake<S, K, P>& CShake<S, K, P>::operator=(const CShake<S, K, P> &other)
 	{
 		if (this != &other)
-		{
-			m_customized = other.m_customized;
-			if (!m_customized)
-				*m_shake = *other.m_shake;
-			else
-			{
-				*m_keccak = *other.m_keccak;
-				*m_initial = *other.m_initial;
-			}
-		}
+			*this = CShake(other);
 		return *this;
 	}
 
-- 
2.43.0


From ce05c7fb4ac5bcd06d02ffc7dadc754f12211801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 05/16] fix: TupleHash overflows int when encoding digest
 lengths of 2^28 bytes and more

---
 src/tuple_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple_hash.h b/src/tuple_hash.h
index f5390c8..a5d403c 100644
--- a/src/tuple_hash.h
+++ b/src/tuple_hash.h
@@ -151,7 +151,7 @@ namespace TupleHash_NS
 	template <typename Alg>
 	constexpr TupleHash<Alg>& TupleHash<Alg>::finalize()
 	{
-		const auto encoded = rightEncode(m_digestLength * 8);
+		const auto encoded = rightEncode(static_cast<uint64_t>(m_digestLength) * 8);
 		addDataImpl({encoded.data(), encoded.size()});
 		m_cshake.finalize();
 		return (*this);
-- 
2.43.0


From ca67edbc9b6f7f475c12d78faaf647742a06dd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 06/16] fix: SHAKE objects of different digest lengths compare
 equal

---
 src/sha3.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sha3.h b/src/sha3.h
index ada4988..2f090df 100644
--- a/src/sha3.h
+++ b/src/sha3.h
@@ -233,6 +233,9 @@ namespace SHA3_NS
 
 			friend constexpr bool operator==(const Keccak &left, const Keccak &right)
 			{
+				if (left.m_digestLength != right.m_digestLength)
+					return false;
+
 				for (int y = 0; y < 5; ++y)
 				{
 					for (int x = 0; x < 5; ++x)
-- 
2.43.0


From da3414433076482d39b35209930416a21637ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 07/16] fix: toString() of an empty SHAKE digest calls front()
 on an empty string

---
 src/sha3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha3.h b/src/sha3.h
index 2f090df..9929c97 100644
--- a/src/sha3.h
+++ b/src/sha3.h
@@ -369,7 +369,7 @@ namespace SHA3_NS
 		std::string ret;
 		ret.resize(2 * v.size());
 
-		auto *retPtr = &ret.front();
+		auto *retPtr = &ret[0];
 		for (const auto c : v)
 		{
 			const Byte upper = ror<Byte>(c, 4);
-- 
2.43.0


From 3e2482013f8a18568a79d37fc7310f2615e8cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 08/16] fix: hash program passes the cSHAKE customization
 string as function name

---
 src/program/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 519f261..9e8c74c 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -290,7 +290,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 			}
 
-			readNPrint(Chocobo1::CSHAKE_128(digestLength, argv[3]), argv[4]);
+			readNPrint(Chocobo1::CSHAKE_128(digestLength, {}, argv[3]), argv[4]);
 			return true;
 		}
 
@@ -309,7 +309,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 			}
 
-			readNPrint(Chocobo1::CSHAKE_256(digestLength, argv[3]), argv[4]);
+			readNPrint(Chocobo1::CSHAKE_256(digestLength, {}, argv[3]), argv[4]);
 			return true;
 		}
 
-- 
2.43.0


From e47669d07c91c26d57cdfcca2d736e062aea36c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 09/16] fix: hash program aborts on out of range digest lengths

---
 src/program/main.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 9e8c74c..c602446 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -285,10 +285,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::CSHAKE_128(digestLength, {}, argv[3]), argv[4]);
 			return true;
@@ -304,10 +306,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::CSHAKE_256(digestLength, {}, argv[3]), argv[4]);
 			return true;
@@ -523,10 +527,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::SHAKE_128(digestLength), argv[3]);
 			return true;
@@ -542,10 +548,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::SHAKE_256(digestLength), argv[3]);
 			return true;
@@ -624,10 +632,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readAllNPrint(Chocobo1::TupleHash_128(digestLength, argv[3]), argv[4]);
 			return true;
@@ -643,10 +653,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readAllNPrint(Chocobo1::TupleHash_256(digestLength, argv[3]), argv[4]);
 			return true;
-- 
2.43.0


From 46c1e4275d58a52d5b795660efabc8df4111dd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 10/16] fix: hash program prints a digest for inputs it cannot
 read

---
 src/program/main.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index c602446..3022640 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -168,7 +168,16 @@ Hash getHash(const std::string &hash)
 
 bool runHash(const Hash hash, const int argc, const char *argv[])
 {
-	const auto readNPrint = [](auto hash, const std::string &filename) -> void
+	const auto checkStream = [](const bool failed, const std::string &filename) -> void
+	{
+		if (failed)
+		{
+			fprintf(stderr, "Cannot read: %s\n", filename.c_str());
+			exit(1);
+		}
+	};
+
+	const auto readNPrint = [&checkStream](auto hash, const std::string &filename) -> void
 	{
 		std::unique_ptr<std::istream, void (*)(std::istream *)> inStream {nullptr, [](auto) {}};
 		if (filename == "-")
@@ -176,6 +185,8 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 		else
 			inStream = {new std::ifstream(filename, (std::ios_base::in | std::ios_base::binary)), [](std::istream *p) {delete p;}};
 
+		checkStream(inStream->fail(), filename);
+
 		const int bufSize = 1024 * 1024;
 		auto buf = std::make_unique<char[]>(bufSize);
 		while (inStream->good())
@@ -184,10 +195,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			hash.addData(buf.get(), inStream->gcount());
 		}
 
+		checkStream(inStream->bad(), filename);
+
 		printf("%s  %s\n", hash.finalize().toString().c_str(), filename.c_str());
 	};
 
-	const auto readAllNPrint = [](auto hash, const std::string &filename) -> void
+	const auto readAllNPrint = [&checkStream](auto hash, const std::string &filename) -> void
 	{
 		std::unique_ptr<std::istream, void (*)(std::istream *)> inStream {nullptr, [](auto) {}};
 		if (filename == "-")
@@ -195,6 +208,8 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 		else
 			inStream = {new std::ifstream(filename), [](std::istream *p) {delete p;}};
 
+		checkStream(inStream->fail(), filename);
+
 		const int tmpSize = 1024 * 1024;
 		auto tmp = std::make_unique<char[]>(tmpSize);
 
@@ -206,6 +221,8 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			buf.insert(buf.end(), tmp.get(), (tmp.get() + inStream->gcount()));
 		}
 
+		checkStream(inStream->bad(), filename);
+
 		printf("%s  %s\n", hash.nextData(buf.data(), buf.size()).finalize().toString().c_str(), filename.c_str());
 	};
 
-- 
2.43.0


From 213c927ceeafbae0801542417161d563142a0811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 11/16] fix: Tiger with 128 and 160 bit digests writes past the
 end of the result

---
 src/tiger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tiger.h b/src/tiger.h
index 34cbb61..5191a23 100644
--- a/src/tiger.h
+++ b/src/tiger.h
@@ -516,9 +516,10 @@ namespace Tiger_NS
 
 		ResultArrayType ret {};
 		auto retPtr = ret.data();
+		const auto retEnd = retPtr + ret.size();  // the digest may be shorter than the state
 		for (const auto i : state)
 		{
-			for (int j = 0, jMax = dataSize; j < jMax; ++j)
+			for (int j = 0, jMax = dataSize; (j < jMax) && (retPtr != retEnd); ++j)
 				*(retPtr++) = ror<Byte>(i, (j * 8));
 		}
 		return ret;
-- 
2.43.0


From 659ef045bd6d3cf5f25478078ac243706ebcc512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 12/16] fix: hash program prints a digest when standard input
 cannot be read

---
 src/program/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 3022640..2e95b3e 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -195,7 +195,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			hash.addData(buf.get(), inStream->gcount());
 		}
 
-		checkStream(inStream->bad(), filename);
+		checkStream((inStream->bad() || ((filename == "-") && ferror(stdin))), filename);
 
 		printf("%s  %s\n", hash.finalize().toString().c_str(), filename.c_str());
 	};
@@ -221,7 +221,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			buf.insert(buf.end(), tmp.get(), (tmp.get() + inStream->gcount()));
 		}
 
-		checkStream(inStream->bad(), filename);
+		checkStream((inStream->bad() || ((filename == "-") && ferror(stdin))), filename);
 
 		printf("%s  %s\n", hash.nextData(buf.data(), buf.size()).finalize().toString().c_str(), filename.c_str());
 	};
-- 
2.43.0


From 1b91109a8a5c40f4780e81a9927bbb1a23265188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 13/16] fix: noexcept conversions of Keccak based digests
 allocate memory

---
 src/cshake.h     | 12 ++++--------
 src/sha3.h       |  2 +-
 src/tuple_hash.h |  9 +--------
 3 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index 93a985f..607ef14 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -282,14 +282,10 @@ namespace CShake_NS
 	{
 		static_assert(std::is_unsigned<T>::value, "");
 
-		const auto digest = toVector();
-		T ret = 0;
-		for (int i = 0, iMax = static_cast<int>(std::min(sizeof(T), digest.size())); i < iMax; ++i)
-		{
-			ret <<= 8;
-			ret |= digest[i];
-		}
-		return ret;
+		if (!m_customized)
+			return static_cast<T>(*m_shake);
+		else
+			return static_cast<T>(*m_keccak);
 	}
 
 	template <typename S, typename K, int P>
diff --git a/src/sha3.h b/src/sha3.h
index 9929c97..ae81fa3 100644
--- a/src/sha3.h
+++ b/src/sha3.h
@@ -394,7 +394,7 @@ namespace SHA3_NS
 	{
 		static_assert(std::is_unsigned<T>::value, "");
 
-		const auto digest = toVector();
+		const auto &digest = m_final;  // no copy: allocating could throw
 		T ret = 0;
 		for (int i = 0, iMax = static_cast<int>(std::min(sizeof(T), digest.size())); i < iMax; ++i)
 		{
diff --git a/src/tuple_hash.h b/src/tuple_hash.h
index a5d403c..e84af62 100644
--- a/src/tuple_hash.h
+++ b/src/tuple_hash.h
@@ -175,14 +175,7 @@ namespace TupleHash_NS
 	{
 		static_assert(std::is_unsigned<T>::value, "");
 
-		const auto digest = toVector();
-		T ret = 0;
-		for (int i = 0, iMax = static_cast<int>(std::min(sizeof(T), digest.size())); i < iMax; ++i)
-		{
-			ret <<= 8;
-			ret |= digest[i];
-		}
-		return ret;
+		return static_cast<T>(m_cshake);
 	}
 
 	template <typename Alg>
-- 
2.43.0


From c833362579a96d0b240dc54acd58286e169dbf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:33 +0000
Subject: [PATCH 14/16] fix: encode bit lengths in 64 bits where size_t has 32

---
 src/cshake.h     | 2 +-
 src/tuple_hash.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index 607ef14..f6f143a 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -161,7 +161,7 @@ namespace CShake_NS
 
 		const auto processString = [this](const std::string &str, size_t &length) -> void
 		{
-			const auto encodedStr = leftEncode(str.size() * 8);
+			const auto encodedStr = leftEncode(static_cast<uint64_t>(str.size()) * 8);
 			addData({encodedStr.data(), encodedStr.size()});
 			length += encodedStr.size();
 			addData(str.data(), str.size());
diff --git a/src/tuple_hash.h b/src/tuple_hash.h
index e84af62..1cbb6e6 100644
--- a/src/tuple_hash.h
+++ b/src/tuple_hash.h
@@ -181,7 +181,7 @@ namespace TupleHash_NS
 	template <typename Alg>
 	constexpr TupleHash<Alg>& TupleHash<Alg>::nextData(const Span<const Byte> inData)
 	{
-		const auto encoded = Chocobo1::Hash::CShake_NS::leftEncode(inData.size() * 8);
+		const auto encoded = Chocobo1::Hash::CShake_NS::leftEncode(static_cast<uint64_t>(inData.size()) * 8);
 		addDataImpl({encoded.data(), encoded.size()});
 		addDataImpl(inData);
 
-- 
2.43.0


From f44302cf8b9877684b1cea1730474e7f424f2f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:33 +0000
Subject: [PATCH 15/16] fix: reject moving a span iterator by PTRDIFF_MIN

---
 src/gsl/span | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsl/span b/src/gsl/span
index cef8a77..32f8e19 100644
--- a/src/gsl/span
+++ b/src/gsl/span
@@ -195,7 +195,7 @@ namespace details
         {
             if (n != 0) Expects(begin_ && current_ && end_);
             if (n > 0) Expects(end_ - current_ >= n);
-            if (n < 0) Expects(current_ - begin_ >= -n);
+            if (n < 0) Expects(begin_ - current_ <= n);
             // clang-format off
             GSL_SUPPRESS(bounds.1) // NO-FORMAT: attribute
             // clang-format on
@@ -220,7 +220,7 @@ namespace details
         {
             if (n != 0) Expects(begin_ && current_ && end_);
             if (n > 0) Expects(current_ - begin_ >= n);
-            if (n < 0) Expects(end_ - current_ >= -n);
+            if (n < 0) Expects(current_ - end_ <= n);
             GSL_SUPPRESS(bounds .1)
             current_ -= n;
             return *this;
@@ -312,7 +312,7 @@ namespace details
         { // test that *this + n is within the range of this call
             if (n != 0) Expects(begin_ && current_ && end_);
             if (n > 0) Expects(end_ - current_ >= n);
-            if (n < 0) Expects(current_ - begin_ >= -n);
+            if (n < 0) Expects(begin_ - current_ <= n);
         }
 
         // clang-format off
-- 
2.43.0


From f41404a9018c65511ea76b2d3deb91418be91e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 16/16] fix: hash program reports success when its output
 cannot be written

---
 src/program/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 2e95b3e..c0287a8 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -100,6 +100,12 @@ int main(const int argc, const char *argv[])
 	const bool ret = runHash(hash, argc, argv);
 	goToFail(!ret);
 
+	if ((fflush(stdout) != 0) || ferror(stdout))
+	{
+		fprintf(stderr, "Cannot write output\n");
+		return 1;
+	}
+
 	return 0;
 }
 
-- 
2.43.0

