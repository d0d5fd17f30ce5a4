From a237cfd72a71b8e6dff9223023125b2c0ebf7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:19 +0000
Subject: [PATCH 01/19] fix: magma BlkShifted shifts 32-bit halves by up to 63
 bits

The carry between the 32-bit halves is value.first >> (32 - n); shifting a
32-bit value by 64 - n is undefined behaviour for every n below 33.
---
 goost/magma/BlkShifted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goost/magma/BlkShifted.cpp b/goost/magma/BlkShifted.cpp
index 020d1d5..83220ac 100644
--- a/goost/magma/BlkShifted.cpp
+++ b/goost/magma/BlkShifted.cpp
@@ -16,5 +16,5 @@ BlkShifted::BlkShifted(const shared_ptr<const Block> &block, int n)
 pair<uint32_t, uint32_t> BlkShifted::value() const
 {
 	const auto value = block->value();
-	return {value.first << n, value.second << n | value.first >> (64 - n)};
+	return {value.first << n, value.second << n | value.first >> (32 - n)};
 }
-- 
2.43.0


From d89778c83657327a68d90feacae5b67893ef9bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:19 +0000
Subject: [PATCH 02/19] fix: gost89 CFBSink::finalize writes past a partial
 last block

The last block holds 1 to 7 bytes, but all 8 were xored (heap overflow), and
with the halves of gamma swapped, so CFBSource could not decrypt it.
---
 goost/gost89/CFBSink.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 1ffb168..9f3f4bb 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -70,9 +70,9 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		const auto gamma = (uint64_t(e.second) << 32) | e.first;
+		for (size_t i = 0; i < c.size(); i++) {
+			c[i] ^= static_cast<byte>(gamma >> (i * 8));
 		}
 		s = s->write(c);
 	}
-- 
2.43.0


From 8d9fac15a3b1b1d896d4b58a3246cd10b0223012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:19 +0000
Subject: [PATCH 03/19] fix: magma CFBSink::finalize writes past a partial last
 block

The last block holds 1 to 7 bytes, but all 8 were xored (heap overflow). GOST
R 34.13-2015 5.5 takes the most significant part of gamma for it.
---
 goost/magma/CFBSink.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 14642af..69992bf 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -71,9 +71,10 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		// The last, shorter block takes the most significant bytes of gamma
+		const auto gamma = ((uint64_t(e.second) << 32) | e.first) >> ((Block::size - c.size()) * 8);
+		for (size_t i = 0; i < c.size(); i++) {
+			c[i] ^= static_cast<byte>(gamma >> (i * 8));
 		}
 		s = s->write(c);
 	}
-- 
2.43.0


From dcdd36e5f4b452a2c7d30087b06af44ec63b5a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:19 +0000
Subject: [PATCH 04/19] fix: gost89 CFBSource reads and writes past a partial
 last block

memcpy took at least 8 bytes from a shorter block, and the length tests were
off by one.
---
 goost/gost89/CFBSource.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index d021f15..53ab654 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -58,13 +58,13 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 			break;
 		}
 
-		memcpy(&r, &p[0], max(sizeof(r), p.size()));
+		memcpy(&r, &p[0], min(sizeof(r), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
-- 
2.43.0


From 756a341397981c7c0676aaf953b0551bb503633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:19 +0000
Subject: [PATCH 05/19] fix: magma CFBSource reads and writes past a partial
 last block

memcpy took at least 8 bytes from a shorter block, and the length tests were
off by one. GOST R 34.13-2015 5.5 takes the most significant part of gamma
for the last block, as CFBSink does.
---
 goost/magma/CFBSource.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index deb8099..ff4bdab 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -61,15 +61,12 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 		}
 
 		rl = rr;
-		memcpy(&rr, &p[0], max(sizeof(rr), p.size()));
+		memcpy(&rr, &p[0], min(sizeof(rr), p.size()));
 
-		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
-				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
-			}
-			if (p.size() >= 4 + i) {
-				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			}
+		// The last, shorter block takes the most significant bytes of gamma
+		const auto gamma = ((uint64_t(e.second) << 32) | e.first) >> ((Block::size - p.size()) * 8);
+		for (size_t i = 0; i < p.size(); i++) {
+			p[i] ^= static_cast<byte>(gamma >> (i * 8));
 		}
 	}
 
-- 
2.43.0


From bd0888645d9e0e377ec91c894081fc94c644ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:19 +0000
Subject: [PATCH 06/19] fix: ECBSource decrypts past the end of a partial block

When the ciphertext is not a multiple of the block size, 8 bytes were read
from and written to a shorter buffer. Report it as ECBSink does.
---
 goost/magma/ECBSource.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 71ca1aa..18d1551 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -45,6 +45,9 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 		// Decryption is done
 		return {p, s};
 	}
+	if (p.size() != Block::size) {
+		throw runtime_error("Unaligned ECB decryption");
+	}
 
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
-- 
2.43.0


From 6c104b0667d0f54bad7b2e3a5803c0a35f0d8073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 07/19] fix: magma Imit does not pad a partial last block

GOST R 34.13-2015 5.6 pads a last block shorter than 64 bits with a one bit
and zeros. Without the one bit M and M || 00 have the same imit.
---
 goost/magma/Imit.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index db0588a..a1aedab 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -88,6 +88,10 @@ pair<uint32_t, uint32_t> Imit::value() const
 		k = make_shared<BlkImitFinalKey>(key, b.size());
 		uint64_t v = 0;
 		memcpy(&v, &b[0], b.size());
+		if (b.size() < Block::size) {
+			// Padding: P || 1 || 0...0
+			v = ((v << 8) | 0x80) << ((Block::size - b.size() - 1) * 8);
+		}
 		block = make_shared<BlkXored>(block, make_shared<BlkRaw>(v));
 		if (b.size() < Block::size) {
 			break;
-- 
2.43.0


From 0fa08b238b9556920a83432c7891197f053da8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 08/19] fix: magma Imit overflows the stack on long messages

The blocks were chained and evaluated recursively at the end, one level of
recursion per block of the message; a 1 MB message crashed.
---
 goost/magma/Imit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index a1aedab..8203244 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -100,7 +100,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 		if (b.empty()) {
 			break;
 		}
-		block = make_shared<BlkEncrypted>(block, key);
+		block = make_shared<BlkRaw>(make_shared<BlkEncrypted>(block, key));
 	}
 
 	return BlkEncrypted(make_shared<BlkXored>(block, k), key).value();
-- 
2.43.0


From a4d02db565d6ff80b1e1302434938592dae42417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 09/19] fix: kuznyechik Imit overflows the stack on long
 messages

The blocks were chained and evaluated recursively at the end, one level of
recursion per block of the message; an 8 kB message crashed.
---
 goost/kuznyechik/Imit.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/goost/kuznyechik/Imit.cpp b/goost/kuznyechik/Imit.cpp
index bfae3ca..18a3d3c 100644
--- a/goost/kuznyechik/Imit.cpp
+++ b/goost/kuznyechik/Imit.cpp
@@ -54,9 +54,11 @@ std::pair<uint64_t, uint64_t> Imit::value() const
 	shared_ptr<const Block> block = make_shared<const BlkRaw>();
 
 	while (!iter->last()) {
-		block = make_shared<const BlkEncrypted>(
-			make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
-			key
+		block = make_shared<const BlkRaw>(
+			make_shared<const BlkEncrypted>(
+				make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
+				key
+			)
 		);
 		iter = iter->next();
 	}
-- 
2.43.0


From 2760d8cf63338f297d32a63bc22d597726c8e268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 10/19] fix: kuznyechik Imit dereferences null on an empty
 stream

---
 goost/kuznyechik/Imit.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/goost/kuznyechik/Imit.cpp b/goost/kuznyechik/Imit.cpp
index 18a3d3c..688b625 100644
--- a/goost/kuznyechik/Imit.cpp
+++ b/goost/kuznyechik/Imit.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "Imit.h"
+#include <stdexcept>
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
 #include "BlkShifted.h"
@@ -51,6 +52,9 @@ Imit::Imit(const shared_ptr<const Stream> &data, const shared_ptr<const Key> &ke
 std::pair<uint64_t, uint64_t> Imit::value() const
 {
 	auto iter = data->iter();
+	if (!iter) {
+		throw runtime_error("Imit of an empty stream");
+	}
 	shared_ptr<const Block> block = make_shared<const BlkRaw>();
 
 	while (!iter->last()) {
-- 
2.43.0


From 346f176f7460f4b8edecd7271fd6dc268d1e0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 11/19] fix: kuznyechik CTR overflows the stack on long streams

The counter of the n-th block was a chain of n increments, evaluated
recursively for each block.
---
 goost/kuznyechik/StCTREncrypted.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 09b757c..7cb25cc 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -57,7 +57,11 @@ size_t ItCTREncrypted::size() const
 
 shared_ptr<const Iterator> ItCTREncrypted::next() const
 {
-	return make_shared<ItCTREncrypted>(iter->next(), key, make_shared<BlkIncremented>(ctr));
+	return make_shared<ItCTREncrypted>(
+		iter->next(),
+		key,
+		make_shared<BlkRaw>(make_shared<BlkIncremented>(ctr))
+	);
 }
 
 StCTREncrypted::StCTREncrypted(
-- 
2.43.0


From b877c8a58137c103aba3f5535c54af4f20c32db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 12/19] fix: kuznyechik CTR wraps the null end iterator of its
 stream

Behind the last block (and for an empty stream) the underlying iterator is
null; the CTR iterator over it was not, and dereferenced it.
---
 goost/kuznyechik/StCTREncrypted.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 7cb25cc..7203cb3 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -57,8 +57,12 @@ size_t ItCTREncrypted::size() const
 
 shared_ptr<const Iterator> ItCTREncrypted::next() const
 {
+	const auto next_iter = iter->next();
+	if (!next_iter) {
+		return {};
+	}
 	return make_shared<ItCTREncrypted>(
-		iter->next(),
+		next_iter,
 		key,
 		make_shared<BlkRaw>(make_shared<BlkIncremented>(ctr))
 	);
@@ -74,5 +78,9 @@ StCTREncrypted::StCTREncrypted(
 
 shared_ptr<const Iterator> StCTREncrypted::iter() const
 {
-	return make_shared<const ItCTREncrypted>(stream->iter(), key, make_unique<BlkRaw>(0, iv));
+	const auto first_iter = stream->iter();
+	if (!first_iter) {
+		return {};
+	}
+	return make_shared<const ItCTREncrypted>(first_iter, key, make_unique<BlkRaw>(0, iv));
 }
-- 
2.43.0


From 742f205767b8ab7a1becf71d2a628938e21062b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 13/19] fix: iterator of StMemory dereferences null when the
 stream is gone

The iterator kept only a weak reference to the stream it reads from.
---
 goost/kuznyechik/StMemory.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index 90393ab..42935b7 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -16,7 +16,7 @@ namespace kuznyechik {
 class ItMemory final : public Iterator {
 public:
 	ItMemory(
-		const weak_ptr<const StMemory> &stream,
+		const shared_ptr<const StMemory> &stream,
 		size_t offset,
 		const shared_ptr<const Block> &data
 	);
@@ -26,7 +26,7 @@ public:
 	size_t size() const override;
 	shared_ptr<const Iterator> next() const override;
 private:
-	const weak_ptr<const StMemory> stream;
+	const shared_ptr<const StMemory> stream;
 	const size_t offset;
 	const shared_ptr<const Block> data;
 };
@@ -35,7 +35,7 @@ private:
 }  // namespace goost
 
 ItMemory::ItMemory(
-	const weak_ptr<const StMemory> &stream,
+	const shared_ptr<const StMemory> &stream,
 	size_t offset,
 	const shared_ptr<const Block> &data
 ) : stream(stream), offset(offset), data(data)
@@ -59,8 +59,7 @@ size_t ItMemory::size() const
 
 shared_ptr<const Iterator> ItMemory::next() const
 {
-	const auto stream_ptr = stream.lock();
-	return stream_ptr->next_iter(offset + Block::size);
+	return stream->next_iter(offset + Block::size);
 }
 
 StMemory::StMemory(const vector<uint64_t> &data)
-- 
2.43.0


From cd4393d16f081e65f08a4541b3f96967db35aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 14/19] fix: StMemory reads past the end of data with an odd
 number of words

---
 goost/kuznyechik/StMemory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index 42935b7..4a0ffa5 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "StMemory.h"
+#include <stdexcept>
 #include "BlkRaw.h"
 #include "Iterator.h"
 
@@ -74,6 +75,9 @@ shared_ptr<const Iterator> StMemory::iter() const
 
 shared_ptr<const Iterator> StMemory::next_iter(size_t offset) const
 {
+	if (data.size() * sizeof(uint64_t) % Block::size != 0) {
+		throw runtime_error("Unaligned stream");
+	}
 	if (data.size() <= offset / sizeof(uint64_t)) {
 		return {};
 	}
-- 
2.43.0


From f62e13618ce0c1cedd2b806df68643496c78811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 15/19] fix: magma modes dereference null with a key that is
 not a LazyKey

CFBSink, CFBSource and ECBSource accept any Key, but cast it down to LazyKey
without a check. The block transformations need no more than Key.
---
 goost/gost89/CFBSink.cpp      | 4 ++--
 goost/gost89/CFBSource.cpp    | 2 +-
 goost/magma/BlkBackwarded.cpp | 4 ++--
 goost/magma/BlkBackwarded.h   | 6 +++---
 goost/magma/BlkDecrypted.cpp  | 2 +-
 goost/magma/BlkDecrypted.h    | 4 ++--
 goost/magma/BlkEncrypted.cpp  | 2 +-
 goost/magma/BlkEncrypted.h    | 4 ++--
 goost/magma/BlkForwarded.cpp  | 4 ++--
 goost/magma/BlkForwarded.h    | 6 +++---
 goost/magma/CFBSink.cpp       | 4 ++--
 goost/magma/CFBSource.cpp     | 2 +-
 goost/magma/ECBSource.cpp     | 2 +-
 goost/magma/Imit.cpp          | 1 +
 goost/magma/Key.h             | 1 +
 15 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 9f3f4bb..e08f02c 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -44,7 +44,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(l),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -67,7 +67,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(iv),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		const auto gamma = (uint64_t(e.second) << 32) | e.first;
diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index 53ab654..469866e 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -50,7 +50,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(r),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		tie(p, s) = s->read(8);
diff --git a/goost/magma/BlkBackwarded.cpp b/goost/magma/BlkBackwarded.cpp
index e58e8a7..6d6e77d 100644
--- a/goost/magma/BlkBackwarded.cpp
+++ b/goost/magma/BlkBackwarded.cpp
@@ -4,12 +4,12 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkBackwarded.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkBackwarded.h b/goost/magma/BlkBackwarded.h
index 4431d6a..5c88742 100644
--- a/goost/magma/BlkBackwarded.h
+++ b/goost/magma/BlkBackwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, trancformed over key in backward direction
 class BlkBackwarded final : public Block {
 public:
 	BlkBackwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/BlkDecrypted.cpp b/goost/magma/BlkDecrypted.cpp
index 6dfe193..b5dab90 100644
--- a/goost/magma/BlkDecrypted.cpp
+++ b/goost/magma/BlkDecrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkDecrypted.h b/goost/magma/BlkDecrypted.h
index bd27a07..e5c8793 100644
--- a/goost/magma/BlkDecrypted.h
+++ b/goost/magma/BlkDecrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkDecrypted final : public Block {
 public:
 	BlkDecrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkEncrypted.cpp b/goost/magma/BlkEncrypted.cpp
index 578805c..59fc078 100644
--- a/goost/magma/BlkEncrypted.cpp
+++ b/goost/magma/BlkEncrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkEncrypted.h b/goost/magma/BlkEncrypted.h
index b0260db..aa42044 100644
--- a/goost/magma/BlkEncrypted.h
+++ b/goost/magma/BlkEncrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkEncrypted final : public Block {
 public:
 	BlkEncrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkForwarded.cpp b/goost/magma/BlkForwarded.cpp
index 0b358c8..09826e8 100644
--- a/goost/magma/BlkForwarded.cpp
+++ b/goost/magma/BlkForwarded.cpp
@@ -5,12 +5,12 @@
 
 #include "BlkForwarded.h"
 #include "BlkRaw.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkForwarded.h b/goost/magma/BlkForwarded.h
index b202cf5..b3eeb47 100644
--- a/goost/magma/BlkForwarded.h
+++ b/goost/magma/BlkForwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, transformed over key in forward direction
 class BlkForwarded final : public Block {
 public:
 	BlkForwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 69992bf..5545ebd 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -44,7 +44,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(rl),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -68,7 +68,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(ivl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		// The last, shorter block takes the most significant bytes of gamma
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index ff4bdab..d3836d9 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -52,7 +52,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(rl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		tie(p, s) = s->read(8);
diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 18d1551..acacfc6 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -51,7 +51,7 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
-		dynamic_pointer_cast<const LazyKey>(key)
+		key
 	).value();
 
 	memcpy(&p[0], &e.first, Block::size);
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index 8203244..e7e1d0e 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -11,6 +11,7 @@
 #include "BlkShifted.h"
 #include "BlkXored.h"
 #include "Iterator.h"
+#include "LazyKey.h"
 
 using namespace std;
 using namespace goost::magma;
diff --git a/goost/magma/Key.h b/goost/magma/Key.h
index 590fba1..ba36df7 100644
--- a/goost/magma/Key.h
+++ b/goost/magma/Key.h
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #pragma once
+#include <cstdint>
 
 namespace goost {
 namespace magma {
-- 
2.43.0


From fc998340beb87fc55a3eae70c0d6b02ab1a53863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 16/19] fix: magma KeyDataString accepts keys that are not
 hexadecimal

Anything that does not parse was silently taken as another key (mostly zeros).
---
 goost/magma/KeyDataString.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/goost/magma/KeyDataString.cpp b/goost/magma/KeyDataString.cpp
index 5bf3b80..b6e1603 100644
--- a/goost/magma/KeyDataString.cpp
+++ b/goost/magma/KeyDataString.cpp
@@ -20,6 +20,9 @@ uint32_t KeyDataString::key(int index) const
 	if (key_data.size() != 64) {
 		throw runtime_error("Wrong key size");
 	}
+	if (key_data.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong key digit");
+	}
 	if (index < 0 || index > 7) {
 		throw runtime_error("Wrong key index");
 	}
-- 
2.43.0


From acd5574dedb351dd7f306ea8ac69389d493208ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 17/19] fix: kuznyechik KeyDataString accepts keys of wrong
 size or digits

A short key was silently completed with zeros, a long one cut, and a key with
other characters taken up to the first of them.
---
 goost/kuznyechik/KeyDataString.cpp | 16 ++++++++++++++--
 goost/kuznyechik/KeyDataString.h   |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/goost/kuznyechik/KeyDataString.cpp b/goost/kuznyechik/KeyDataString.cpp
index a2d0092..62d9edf 100644
--- a/goost/kuznyechik/KeyDataString.cpp
+++ b/goost/kuznyechik/KeyDataString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataString.h"
+#include <stdexcept>
 #include <string>
 #include "BlkString.h"
 
@@ -17,10 +18,21 @@ KeyDataString::KeyDataString(const string &key_data)
 
 shared_ptr<const Block> KeyDataString::low() const
 {
-	return make_shared<BlkString>(string(key_data, 32, 32));
+	return make_shared<BlkString>(string(checked(), 32, 32));
 }
 
 shared_ptr<const Block> KeyDataString::high() const
 {
-	return make_shared<BlkString>(string(key_data, 0, 32));
+	return make_shared<BlkString>(string(checked(), 0, 32));
+}
+
+string KeyDataString::checked() const
+{
+	if (key_data.size() != 64) {
+		throw runtime_error("Wrong key size");
+	}
+	if (key_data.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong key digit");
+	}
+	return key_data;
 }
diff --git a/goost/kuznyechik/KeyDataString.h b/goost/kuznyechik/KeyDataString.h
index 1744e0f..1c72e29 100644
--- a/goost/kuznyechik/KeyDataString.h
+++ b/goost/kuznyechik/KeyDataString.h
@@ -17,6 +17,7 @@ public:
 	std::shared_ptr<const Block> high() const override;
 private:
 	const std::string key_data;
+	std::string checked() const;
 };
 
 }  // namespace kuznyechik
-- 
2.43.0


From f5c43a253c33393dd6832fe3f9c66578410ecd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 18/19] fix: KeyCachedData reads outside of the cache with a
 wrong index

The data it caches may reject the index; the cache did not check it.
---
 goost/magma/KeyCachedData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goost/magma/KeyCachedData.cpp b/goost/magma/KeyCachedData.cpp
index 6041a00..b1370dd 100644
--- a/goost/magma/KeyCachedData.cpp
+++ b/goost/magma/KeyCachedData.cpp
@@ -21,5 +21,5 @@ uint32_t KeyCachedData::key(int index) const
 		}
 		cache->cached = true;
 	}
-	return cache->key[index];
+	return cache->key.at(index);
 }
-- 
2.43.0


From fc21d1ee8a07d9d0b86eb43117731e678e5ec893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 19/19] fix: threads that share a key no longer race for its
 caches

KeyCachedData and BlkCached filled their caches without synchronisation, so
two threads that used a key for the first time at the same time could see a
cache marked as filled before its contents and compute with a wrong key.
---
 goost/kuznyechik/BlkCached.cpp | 5 ++++-
 goost/magma/KeyCachedData.cpp  | 1 +
 goost/magma/KeyCachedData.h    | 6 ++++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/goost/kuznyechik/BlkCached.cpp b/goost/kuznyechik/BlkCached.cpp
index 3b5552e..aef5681 100644
--- a/goost/kuznyechik/BlkCached.cpp
+++ b/goost/kuznyechik/BlkCached.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkCached.h"
+#include <mutex>
 
 using namespace std;
 using namespace goost::kuznyechik;
@@ -11,12 +12,13 @@ using namespace goost::kuznyechik;
 class BlkCached::BlockCache final {
 public:
 	explicit BlockCache(const shared_ptr<const Block> &block)
-		: loaded(false), state(), block(block)
+		: mutex(), loaded(false), state(), block(block)
 	{
 	}
 
 	pair<uint64_t, uint64_t> value()
 	{
+		const lock_guard<std::mutex> lock(mutex);
 		if (!loaded) {
 			state = block->value();
 			loaded = true;
@@ -24,6 +26,7 @@ public:
 		return state;
 	}
 private:
+	std::mutex mutex;
 	bool loaded;
 	pair<uint64_t, uint64_t> state;
 	const shared_ptr<const Block> block;
diff --git a/goost/magma/KeyCachedData.cpp b/goost/magma/KeyCachedData.cpp
index b1370dd..a856bfb 100644
--- a/goost/magma/KeyCachedData.cpp
+++ b/goost/magma/KeyCachedData.cpp
@@ -15,6 +15,7 @@ KeyCachedData::KeyCachedData(unique_ptr<const KeyData> keydata)
 
 uint32_t KeyCachedData::key(int index) const
 {
+	const lock_guard<mutex> lock(cache->mutex);
 	if (!cache->cached) {
 		for (size_t i = 0; i < cache->key.size(); i++) {
 			cache->key[i] = keydata->key(i);
diff --git a/goost/magma/KeyCachedData.h b/goost/magma/KeyCachedData.h
index fde79be..15cfbce 100644
--- a/goost/magma/KeyCachedData.h
+++ b/goost/magma/KeyCachedData.h
@@ -6,6 +6,7 @@
 #pragma once
 #include "KeyData.h"
 #include <memory>
+#include <mutex>
 
 namespace goost {
 namespace magma {
@@ -16,8 +17,9 @@ public:
 	uint32_t key(int index) const override;
 private:
 	struct CachedData {
-		bool cached;
-		std::array<uint32_t, 8> key;
+		std::mutex mutex{};
+		bool cached{};
+		std::array<uint32_t, 8> key{};
 	};
 	const std::unique_ptr<CachedData> cache;
 	const std::unique_ptr<const KeyData> keydata;
-- 
2.43.0

