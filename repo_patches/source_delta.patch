From 8d0b4d860cbedda03f63b2fbfc10a48cf49d5c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 001/137] fix: memory_file::read() past the end of file must
 report EOF rather than read out of bounds

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 60a0cdb..c95ac82 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3555,7 +3555,7 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = time_point::now();
 #endif
-				size_t available = m_size - m_offset;
+				size_t available = m_offset < m_size ? m_size - m_offset : 0;
 				if (length <= available) {
 					memcpy(data, &m_data[m_offset], length);
 					m_offset += length;
-- 
2.43.0


From 36ed915051e8070f0b66873a5114e9dab2834462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 002/137] fix: memory_file must not expose uninitialized memory
 when extended past its end

---
 include/stdex/stream.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index c95ac82..46155e9 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3671,6 +3671,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return 0;
 				}
+				zero_gap();
 				memcpy(&m_data[m_offset], data, length);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3693,6 +3694,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return;
 				}
+				zero_gap();
 				memset(&m_data[m_offset], byte, amount);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3728,6 +3730,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				zero_gap();
 				(*reinterpret_cast<T*>(&m_data[m_offset])) = HE2LE(data);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3771,6 +3774,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				zero_gap();
 				auto p = &m_data[m_offset];
 				*reinterpret_cast<uint32_t*>(p) = HE2LE((uint32_t)num_chars);
 				memcpy(p + sizeof(uint32_t), data, size_chars);
@@ -3816,6 +3820,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				zero_gap();
 				auto p = &m_data[m_offset];
 				*reinterpret_cast<uint32_t*>(p) = HE2LE((uint32_t)num_chars);
 				memcpy(p + sizeof(uint32_t), data.data(), size_chars);
@@ -3877,9 +3882,12 @@ namespace stdex
 						}
 					};
 				}
-				m_offset = dst_offset;
-				if (m_offset > m_size)
-					m_size = m_offset;
+				if (num_copied) {
+					zero_gap();
+					m_offset = dst_offset;
+					if (m_offset > m_size)
+						m_size = m_offset;
+				}
 				return num_copied;
 			}
 
@@ -3928,8 +3936,11 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
-				m_size = m_offset;
 				reserve(m_offset);
+				if (!ok()) _Unlikely_
+					return;
+				zero_gap();
+				m_size = m_offset;
 			}
 
 #if SET_FILE_OP_TIMES
@@ -4066,6 +4077,15 @@ namespace stdex
 			memory_file& operator <<(_In_ const std::basic_string<T, TR, AX>& data) { return write_str(data); }
 
 		protected:
+			///
+			/// Zero-fills the gap between the end of the file and the file pointer, when the pointer is past the end of the file.
+			///
+			void zero_gap()
+			{
+				if (m_offset > m_size)
+					memset(&m_data[m_size], 0, m_offset - m_size);
+			}
+
 			uint8_t* m_data; ///< file data
 			bool m_manage; ///< may reallocate m_data?
 			size_t m_offset; ///< file pointer
-- 
2.43.0


From 9dbd811e19fd19ca505955429a9d994332caef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 003/137] fix: memory_file::read_str() must not leave stale
 data in the string on EOF

---
 include/stdex/stream.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 46155e9..062aab0 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3650,9 +3650,10 @@ namespace stdex
 #endif
 						return *this;
 					}
-					if (end_offset <= m_size)
-						data.assign(start, reinterpret_cast<T*>(&m_data[m_size]));
+					data.assign(start, start + (m_size - m_offset) / sizeof(T));
 				}
+				else
+					data.clear();
 				m_offset = m_size;
 				m_state = state_t::eof;
 				return *this;
-- 
2.43.0


From c8c5537562cbd108213052a8607cf7aa1cabe3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 004/137] fix: stream::basic::read_array() must not count a
 partially read element

---
 include/stdex/stream.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 062aab0..2b463ed 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -375,13 +375,14 @@ namespace stdex
 			///
 			size_t read_array(_Out_writes_bytes_(size* count) void* array, _In_ size_t size, _In_ size_t count)
 			{
-				for (size_t to_read = mul(size, count);;) {
+				const size_t total = mul(size, count);
+				for (size_t to_read = total;;) {
 					size_t num_read = read(array, to_read);
 					to_read -= num_read;
 					if (!to_read)
 						return count;
 					if (!ok()) _Unlikely_
-						return count - to_read / size;
+						return (total - to_read) / size;
 					reinterpret_cast<uint8_t*&>(array) += num_read;
 				}
 			}
-- 
2.43.0


From f01ebe407d42f2950990d88d826d2480c817eac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 005/137] fix: cache::write() must not fail when a previous
 read hit EOF, nor ignore a failed seek

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 2b463ed..8c68bd7 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1969,8 +1969,10 @@ namespace stdex
 						if (m_offset / m_cache.capacity < end_max / m_cache.capacity) {
 							// Write spans multiple cache blocks. Bypass cache to the last block.
 							m_source->seekbeg(m_offset);
-							if (!ok()) _Unlikely_
+							if (!m_source->ok()) _Unlikely_ {
+								m_state = state_t::fail;
 								return length - to_write;
+							}
 							size_t num_written = m_source->write(data, to_write - static_cast<size_t>(end_max % m_cache.capacity));
 							m_offset += num_written;
 							m_state = m_source->state();
-- 
2.43.0


From c0548d55aaa1eeab18c50873486145a0818f7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 006/137] fix: cache must drop the cached block when a write
 bypasses it

---
 include/stdex/stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 8c68bd7..11fba04 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1973,6 +1973,7 @@ namespace stdex
 								m_state = state_t::fail;
 								return length - to_write;
 							}
+							m_cache.status = cache_t::cache_t::status_t::empty; // The cached block might get overwritten.
 							size_t num_written = m_source->write(data, to_write - static_cast<size_t>(end_max % m_cache.capacity));
 							m_offset += num_written;
 							m_state = m_source->state();
-- 
2.43.0


From 0150afc5b489803b7fe3d8570a6c056c5549125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 007/137] fix: cache must zero-fill the gap when writing past
 the end of the cached data

---
 include/stdex/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 11fba04..bf30e9c 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1944,6 +1944,10 @@ namespace stdex
 					if (m_cache.status != cache_t::cache_t::status_t::empty) {
 						fpos_t end_max = m_cache.region.start + m_cache.capacity;
 						if (m_cache.region.start <= m_offset && m_offset < end_max) {
+							if (m_cache.region.end < m_offset) {
+								// Writing past the end of file: what is skipped reads as zero.
+								memset(m_cache.data + static_cast<size_t>(m_cache.region.end - m_cache.region.start), 0, static_cast<size_t>(m_offset - m_cache.region.end));
+							}
 							size_t remaining_cache = static_cast<size_t>(end_max - m_offset);
 							if (to_write <= remaining_cache) {
 								memcpy(m_cache.data + static_cast<size_t>(m_offset - m_cache.region.start), data, to_write);
-- 
2.43.0


From cee31be9eb58c2fdb6e3ba1907d9f173bc8b506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 008/137] fix: cache::size() must not report a block loaded
 past the end of file

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index bf30e9c..df728ac 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2058,7 +2058,7 @@ namespace stdex
 
 			virtual fsize_t size() const
 			{
-				return m_cache.status != cache_t::cache_t::status_t::empty ?
+				return m_cache.status != cache_t::cache_t::status_t::empty && !m_cache.region.empty() ?
 					std::max(m_source->size(), m_cache.region.end) :
 					m_source->size();
 			}
-- 
2.43.0


From f80bda1eed9cb882b34fb55eb26a236f5788dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 009/137] fix: cache::read() of zero bytes at EOF must succeed

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index df728ac..1d28a6a 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1927,7 +1927,7 @@ namespace stdex
 						return length - to_read;
 					}
 					if (m_cache.region.end <= m_offset) _Unlikely_ {
-						m_state = to_read < length ? state_t::ok : state_t::eof;
+						m_state = to_read < length || !length ? state_t::ok : state_t::eof;
 						return length - to_read;
 					}
 				}
-- 
2.43.0


From 0ba94c47b32340f910ef9a233901cc90c1c26dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 010/137] fix: cache must report errors of the underlying file
 on load, write-back, flush and truncate

---
 include/stdex/stream.hpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 1d28a6a..1f09b66 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2011,6 +2011,7 @@ namespace stdex
 				if (!ok()) _Unlikely_
 					return;
 				m_source->flush();
+				m_state = m_source->state();
 			}
 
 			virtual fpos_t seek(_In_ foff_t offset, _In_ seek_t how = seek_t::beg)
@@ -2069,6 +2070,14 @@ namespace stdex
 				m_atime = m_mtime = time_point::now();
 #endif
 				m_source->seekbeg(m_offset);
+				if (!m_source->ok()) _Unlikely_ {
+					m_state = state_t::fail;
+					return;
+				}
+				m_source->truncate();
+				m_state = m_source->state();
+				if (!ok()) _Unlikely_
+					return;
 				if (m_cache.region.end <= m_offset) {
 					// Truncation does not affect cache.
 				}
@@ -2080,8 +2089,6 @@ namespace stdex
 					// Truncation invalidates cache.
 					m_cache.status = cache_t::cache_t::status_t::empty;
 				}
-				m_source->truncate();
-				m_state = m_source->state();
 			}
 
 			virtual time_point ctime() const
@@ -2160,20 +2167,27 @@ namespace stdex
 			{
 				stdex_assert(m_cache.status != cache_t::cache_t::status_t::dirty);
 				start -= start % m_cache.capacity; // Align to cache block size.
+				m_cache.status = cache_t::cache_t::status_t::empty;
 				m_source->seekbeg(m_cache.region.start = start);
 				if (m_source->ok()) {
-					m_cache.region.end = start + m_source->read(m_cache.data, m_cache.capacity);
-					m_cache.status = cache_t::cache_t::status_t::loaded;
-					m_state = state_t::ok; // Regardless the read failure, we still might have cached some data.
+					m_cache.region.end = start + m_source->read_array(m_cache.data, sizeof(uint8_t), m_cache.capacity);
+					if (m_source->state() != state_t::fail) {
+						m_cache.status = cache_t::cache_t::status_t::loaded;
+						m_state = state_t::ok; // EOF is not an error, we still might have cached some data.
+						return;
+					}
 				}
-				else
-					m_state = state_t::fail;
+				m_state = state_t::fail;
 			}
 
 			void write_cache()
 			{
 				stdex_assert(m_cache.status == cache_t::cache_t::status_t::dirty);
 				m_source->seekbeg(m_cache.region.start);
+				if (!m_source->ok()) _Unlikely_ {
+					m_state = state_t::fail;
+					return;
+				}
 				m_source->write(m_cache.data, static_cast<size_t>(m_cache.region.size()));
 				m_state = m_source->state();
 			}
-- 
2.43.0


From b7d823f66a8daef173a1e239ba0f4e3ed039965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 011/137] fix: stream::basic::skip() must report EOF in the
 stream state rather than throw

---
 include/stdex/stream.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 1f09b66..620c5ed 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -147,11 +147,10 @@ namespace stdex
 			///
 			virtual void skip(_In_ fsize_t amount)
 			{
-				if (amount == 1)
-					read_byte();
-				else if (amount < iterate_count) {
+				if (amount < iterate_count) {
+					uint8_t dummy;
 					for (size_t i = 0; i < static_cast<size_t>(amount); i++) {
-						read_byte();
+						read_array(&dummy, sizeof(dummy), 1);
 						if (!ok()) _Unlikely_
 							break;
 					}
-- 
2.43.0


From cfe3efef19c1fee89c4dfdb383c4fe38140e2dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 012/137] fix: file_window positions must be relative to the
 window

---
 include/stdex/stream.hpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 620c5ed..b0989d9 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1740,27 +1740,40 @@ namespace stdex
 
 			virtual fpos_t seek(_In_ foff_t offset, _In_ seek_t how = seek_t::beg)
 			{
-				m_offset = m_source.seek(offset, how);
+				switch (how) {
+				case seek_t::beg: offset = static_cast<foff_t>(m_region.start) + offset; break;
+				case seek_t::cur: offset = static_cast<foff_t>(m_offset) + offset; break;
+				case seek_t::end: offset = static_cast<foff_t>(m_region.end) + offset; break;
+				default: throw std::invalid_argument("unknown seek origin");
+				}
+				if (offset < static_cast<foff_t>(m_region.start)) _Unlikely_
+					throw std::invalid_argument("negative file offset");
+				fpos_t result = m_source.seek(offset, seek_t::beg);
 				m_state = m_source.state();
-				return ok() ? m_offset - m_region.start : fpos_max;
+				if (!ok()) _Unlikely_
+					return fpos_max;
+				m_offset = result;
+				return m_offset - m_region.start;
 			}
 
 			virtual void skip(_In_ fsize_t amount)
 			{
 				m_source.skip(amount);
 				m_state = m_source.state();
+				if (ok())
+					m_offset += amount;
 			}
 
 			virtual fpos_t tell() const
 			{
 				fpos_t offset = m_source.tell();
-				return m_region.contains(offset) ? offset - m_region.start : fpos_max;
+				return m_region.start <= offset && offset <= m_region.end ? offset - m_region.start : fpos_max;
 			}
 
 			virtual void lock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_region.contains(offset)) {
-					m_source.lock(m_region.start + offset, std::min<fsize_t>(length, m_region.end - offset));
+				if (offset < m_region.size()) {
+					m_source.lock(m_region.start + offset, std::min<fsize_t>(length, m_region.size() - offset));
 					m_state = m_source.state();
 				}
 				else
@@ -1769,8 +1782,8 @@ namespace stdex
 
 			virtual void unlock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_region.contains(offset)) {
-					m_source.unlock(m_region.start + offset, std::min<fsize_t>(length, m_region.end - offset));
+				if (offset < m_region.size()) {
+					m_source.unlock(m_region.start + offset, std::min<fsize_t>(length, m_region.size() - offset));
 					m_state = m_source.state();
 				}
 				else
-- 
2.43.0


From faf2a5bed14035c6077b73ced5a060081836843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 013/137] fix: fifo nodes must be released the way they were
 allocated

---
 include/stdex/stream.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index b0989d9..8c4dc4f 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4151,7 +4151,7 @@ namespace stdex
 				while (m_head) {
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 			}
 
@@ -4180,7 +4180,7 @@ namespace stdex
 					to_read -= remaining;
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 			}
 
@@ -4189,15 +4189,15 @@ namespace stdex
 			{
 				stdex_assert(data || !length);
 				try {
-					std::unique_ptr<node_t> n(reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]));
+					auto n = reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]);
 					n->next = nullptr;
 					n->size = length;
 					memcpy(n->data, data, length);
 					m_size += length;
 					if (m_head)
-						m_tail = m_tail->next = n.release();
+						m_tail = m_tail->next = n;
 					else
-						m_head = m_tail = n.release();
+						m_head = m_tail = n;
 					m_state = state_t::ok;
 					return length;
 				}
@@ -4213,7 +4213,7 @@ namespace stdex
 				while (m_head) {
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 				m_state = state_t::ok;
 			}
-- 
2.43.0


From 1686720be67bc7e2f3caffdeaf52a05074ef49df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 014/137] fix: stream operator >> for std::vector and std::set
 must return the stream

---
 include/stdex/stream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 8c4dc4f..3085fdd 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -707,6 +707,7 @@ namespace stdex
 						return *this;
 					data.push_back(std::move(el));
 				}
+				return *this;
 			}
 
 			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
@@ -736,6 +737,7 @@ namespace stdex
 						return *this;
 					data.insert(std::move(el));
 				}
+				return *this;
 			}
 
 			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
-- 
2.43.0


From bd7ec6a53e2c09f529da6f3a9f37e3726a65d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 015/137] fix: stream::basic::write_stream() must report a
 failed write

---
 include/stdex/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 3085fdd..d20b9ca 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -567,6 +567,10 @@ namespace stdex
 					size_t num_written = write(data.get(), num_read);
 					num_copied += num_written;
 					to_write -= num_written;
+					if (num_written < num_read) _Unlikely_ {
+						m_state = state_t::fail;
+						break;
+					}
 					if (stream.m_state == state_t::eof) {
 						// EOF is not an error.
 						m_state = state_t::ok;
-- 
2.43.0


From e849e017c50ea7797044600ef319f939ee7ad6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 016/137] fix: ring::back() must report quit() even when there
 is space

---
 include/stdex/ring.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/stdex/ring.hpp b/include/stdex/ring.hpp
index d596437..a2f4ef2 100644
--- a/include/stdex/ring.hpp
+++ b/include/stdex/ring.hpp
@@ -43,11 +43,10 @@ namespace stdex
 		std::tuple<T*, size_t> back()
 		{
 			std::unique_lock<std::mutex> lk(m_mutex);
-			if (!space()) {
+			if (!space())
 				m_head_moved.wait(lk, [&]{return m_quit || space();});
-				if (m_quit) _Unlikely_
-					return { nullptr, 0 };
-			}
+			if (m_quit) _Unlikely_
+				return { nullptr, 0 };
 			size_t tail = wrap(m_head + m_size);
 			return { &m_data[tail], m_head <= tail ? N_cap - tail : m_head - tail };
 		}
-- 
2.43.0


From d912bd2a73fc49a3da496be4dba6c53be6144720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 017/137] fix: ring must wake every waiter when the head moves

---
 include/stdex/ring.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/ring.hpp b/include/stdex/ring.hpp
index a2f4ef2..92cd431 100644
--- a/include/stdex/ring.hpp
+++ b/include/stdex/ring.hpp
@@ -102,7 +102,7 @@ namespace stdex
 				m_head = wrap(m_head + size);
 				m_size -= size;
 			}
-			m_head_moved.notify_one();
+			m_head_moved.notify_all();
 		}
 
 		///
@@ -114,8 +114,8 @@ namespace stdex
 				const std::lock_guard<std::mutex> lg(m_mutex);
 				m_quit = true;
 			}
-			m_head_moved.notify_one();
-			m_tail_moved.notify_one();
+			m_head_moved.notify_all();
+			m_tail_moved.notify_all();
 		}
 
 		///
-- 
2.43.0


From b9dc2decd2ff7d523fb92cc82a7d667f67f5af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 018/137] fix: async_writer::flush() must report failed
 background writes and not race with the worker

---
 include/stdex/stream.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index d20b9ca..ab0236d 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1328,6 +1328,7 @@ namespace stdex
 		public:
 			async_writer(_Inout_ basic& source) :
 				converter(source),
+				m_worker_state(state_t::ok),
 				m_worker([](_Inout_ async_writer& w) { w.process(); }, std::ref(*this))
 			{}
 
@@ -1364,6 +1365,10 @@ namespace stdex
 			virtual void flush()
 			{
 				m_ring.sync();
+				if (m_worker_state != state_t::ok) _Unlikely_ {
+					m_state = m_worker_state;
+					return;
+				}
 				converter::flush();
 			}
 
@@ -1376,8 +1381,10 @@ namespace stdex
 					if (!ptr)
 						break;
 					num_read = m_source->write(ptr, num_read);
+					// Once popped, flush() may continue and use m_source. Don't touch it past this point.
+					const state_t state = m_worker_state = m_source->state();
 					m_ring.pop(num_read);
-					if (!m_source->ok()) {
+					if (state != state_t::ok) {
 						m_ring.quit();
 						break;
 					}
@@ -1386,6 +1393,7 @@ namespace stdex
 
 		protected:
 			ring<uint8_t, N_cap> m_ring;
+			state_t m_worker_state; ///< State of the last background write
 			std::thread m_worker;
 		};
 
-- 
2.43.0


From 5a2f528c4df6f1bcc8e00bf1935accbbb638143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 019/137] fix: async_writer::close() must write pending data
 before closing the stream

---
 include/stdex/stream.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index ab0236d..76bbf67 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1372,6 +1372,14 @@ namespace stdex
 				converter::flush();
 			}
 
+			virtual void close()
+			{
+				m_ring.sync();
+				converter::close();
+				if (m_worker_state != state_t::ok) _Unlikely_
+					m_state = m_worker_state;
+			}
+
 		protected:
 			void process()
 			{
-- 
2.43.0


From f1c2abbc8e963488346fce8726ab859c6694cc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 020/137] fix: buffer::close() must write pending data before
 closing the stream

---
 include/stdex/stream.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 76bbf67..676c421 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1527,6 +1527,15 @@ namespace stdex
 					converter::flush();
 			}
 
+			virtual void close()
+			{
+				flush_write();
+				const state_t state = m_state;
+				converter::close();
+				if (state != state_t::ok) _Unlikely_
+					m_state = state;
+			}
+
 		protected:
 			void flush_write()
 			{
-- 
2.43.0


From 228ed8a22c7d8aed6111ceda9624954c5d6d83d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 021/137] fix: aggregate_progress must serialize calls to the
 host and not leave it with stale values

---
 include/stdex/progress.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/stdex/progress.hpp b/include/stdex/progress.hpp
index 6245c04..b5c19c9 100644
--- a/include/stdex/progress.hpp
+++ b/include/stdex/progress.hpp
@@ -8,6 +8,7 @@
 #include "compat.hpp"
 #include "interval.hpp"
 #include <atomic>
+#include <mutex>
 #include <chrono>
 #include <shared_mutex>
 #include <vector>
@@ -403,7 +404,7 @@ namespace stdex
 			///
 			virtual void set_text(_In_ const char* msg)
 			{
-				std::shared_lock<std::shared_mutex> lk(m_host.m_mutex);
+				std::unique_lock<std::shared_mutex> lk(m_host.m_mutex);
 				if (m_host.m_host)
 					m_host.m_host->set_text(msg);
 			}
@@ -416,12 +417,12 @@ namespace stdex
 			///
 			virtual void set_range(_In_ T start, _In_ T end)
 			{
+				std::unique_lock<std::shared_mutex> lk(m_host.m_mutex);
 				T
 					combined_start = m_host.m_start += start - m_start,
 					combined_end = m_host.m_end += end - m_end;
 				m_start = start;
 				m_end = end;
-				std::shared_lock<std::shared_mutex> lk(m_host.m_mutex);
 				if (m_host.m_host)
 					m_host.m_host->set_range(combined_start, combined_end);
 			}
@@ -433,9 +434,9 @@ namespace stdex
 			///
 			virtual void set(_In_ T value)
 			{
+				std::unique_lock<std::shared_mutex> lk(m_host.m_mutex);
 				T combined_value = m_host.m_value += value - m_value;
 				m_value = value;
-				std::shared_lock<std::shared_mutex> lk(m_host.m_mutex);
 				if (m_host.m_host)
 					m_host.m_host->set(combined_value);
 			}
@@ -447,7 +448,7 @@ namespace stdex
 			///
 			virtual void show(_In_ bool show = true)
 			{
-				std::shared_lock<std::shared_mutex> lk(m_host.m_mutex);
+				std::unique_lock<std::shared_mutex> lk(m_host.m_mutex);
 				if (m_host.m_host)
 					m_host.m_host->show(show);
 			}
@@ -457,7 +458,7 @@ namespace stdex
 			///
 			virtual bool cancel()
 			{
-				std::shared_lock<std::shared_mutex> lk(m_host.m_mutex);
+				std::unique_lock<std::shared_mutex> lk(m_host.m_mutex);
 				return m_host.m_host && m_host.m_host->cancel();
 			}
 		};
-- 
2.43.0


From 8f77ec436b140df73a60dc807b188471229970aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 022/137] fix: window::write() must not count data past a
 failed write as written

---
 include/stdex/stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 676c421..e9c1be3 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1703,8 +1703,9 @@ namespace stdex
 					m_state = state_t::ok;
 				}
 				else {
-					num_skipped += length - static_cast<size_t>(write_limit);
 					num_written = converter::write(data, static_cast<size_t>(write_limit));
+					if (num_written == write_limit)
+						num_skipped += length - num_written;
 					write_limit -= num_written;
 				}
 				return num_skipped + num_written;
-- 
2.43.0


From 660e876600743fd8b4789cbdb3b2dedc3b408299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 023/137] fix: readln() must not mistake a truncated code unit
 for a line end

---
 include/stdex/stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index e9c1be3..8c55d6c 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -341,7 +341,8 @@ namespace stdex
 				bool initial = true;
 				T chr = static_cast<T>(0), previous = static_cast<T>(0);
 				do {
-					read_array(&chr, sizeof(T), 1);
+					if (read_array(&chr, sizeof(T), 1) != 1) _Unlikely_
+						chr = static_cast<T>(0); // Might be partially read
 					if (!initial && !(previous == static_cast<T>('\r') && chr == static_cast<T>('\n')))
 						str += previous;
 					else
-- 
2.43.0


From 5a872615a94b146972185cb44e62785aea4c3b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 024/137] fix: basic_file::read_remainder() must not underflow
 when positioned past the end

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 8c55d6c..61487dd 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -823,7 +823,9 @@ namespace stdex
 		public:
 			virtual std::vector<uint8_t> read_remainder(_In_ size_t max_length = SIZE_MAX)
 			{
-				size_t length = std::min<size_t>(max_length, static_cast<size_t>(size() - tell()));
+				const fsize_t end = size();
+				const fpos_t offset = tell();
+				size_t length = static_cast<size_t>(std::min<fsize_t>(max_length, offset < end ? end - offset : 0));
 				std::vector<uint8_t> result;
 				try { result.resize(length); }
 				catch (const std::bad_alloc&) {
-- 
2.43.0


From e2623115924923f102117ac5da95b7ca6f47c5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 025/137] fix: file::lock() must report a failure to lock

---
 include/stdex/stream.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 61487dd..66b88aa 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2950,7 +2950,6 @@ namespace stdex
 						throw std::invalid_argument("file section length too big");
 					m_state = lseek64(m_h, static_cast<off64_t>(offset), SEEK_SET) >= 0 && lockf64(m_h, F_LOCK, static_cast<off64_t>(length)) >= 0 ? state_t::ok : state_t::fail;
 					lseek64(m_h, orig, SEEK_SET);
-					m_state = state_t::ok;
 					return;
 				}
 #endif
-- 
2.43.0


From 5ea2f316ffcbb045f5df0b409abc6c3a36640e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 026/137] fix: file::set_atime() and set_mtime() must not take
 clock ticks for seconds

---
 include/stdex/stream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 66b88aa..99b70b7 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3109,7 +3109,7 @@ namespace stdex
 				throw std::system_error(GetLastError(), std::system_category(), "SetFileTime failed");
 #else
 				struct timespec ts[2] = {
-					{ date.time_since_epoch().count(), 0 },
+					{ clock::to_time_t(date), 0 },
 					{ 0, UTIME_OMIT },
 				};
 				if (futimens(m_h, ts) >= 0)
@@ -3129,7 +3129,7 @@ namespace stdex
 #else
 				struct timespec ts[2] = {
 					{ 0, UTIME_OMIT },
-					{ date.time_since_epoch().count(), 0 },
+					{ clock::to_time_t(date), 0 },
 				};
 				if (futimens(m_h, ts) >= 0)
 					return;
-- 
2.43.0


From 9305b3d403aa8edd2cde48068dc7d71efcd3efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 027/137] fix: a cached_file that cannot write pending data
 must throw from its destructor rather than terminate

---
 include/stdex/stream.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 99b70b7..2596f5b 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1875,15 +1875,16 @@ namespace stdex
 			void done()
 			{
 				if (m_source) {
+					auto source = m_source;
 					flush_cache();
+					m_source = nullptr; // ~cache() must not use the source any more, even when we throw.
 					if (!ok()) _Unlikely_
 						throw std::system_error(sys_error(), std::system_category(), "failed to flush cache"); // Data loss occurred
-					m_source->seekbeg(m_offset);
+					source->seekbeg(m_offset);
 #if SET_FILE_OP_TIMES
-					m_source->set_atime(m_atime);
-					m_source->set_mtime(m_mtime);
+					source->set_atime(m_atime);
+					source->set_mtime(m_mtime);
 #endif
-					m_source = nullptr;
 				}
 			}
 			/// \endcond
-- 
2.43.0


From 79e4b8837432c6db623df4a4c1f323f0ded1774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 028/137] fix: cache::write() of zero bytes must not dirty or
 extend the cached block

---
 include/stdex/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 2596f5b..8d54d87 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1988,6 +1988,10 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
+				if (!length) _Unlikely_ {
+					m_state = state_t::ok;
+					return 0;
+				}
 				for (size_t to_write = length;;) {
 					if (m_cache.status != cache_t::cache_t::status_t::empty) {
 						fpos_t end_max = m_cache.region.start + m_cache.capacity;
-- 
2.43.0


From b5ccb9cc55773c79a54c006f2664445e0a045a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 029/137] fix: basic_sys_object must not close a handle twice
 or hold a closed one when closing or duplicating fails

---
 include/stdex/system.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stdex/system.hpp b/include/stdex/system.hpp
index 737a8fc..5480cf4 100644
--- a/include/stdex/system.hpp
+++ b/include/stdex/system.hpp
@@ -148,9 +148,10 @@ namespace stdex
 		basic_sys_object& operator =(_In_ const basic_sys_object<T, TR>& other)
 		{
 			if (this != std::addressof(other)) {
-				if (m_h != TR::invalid_handle)
-					TR::close(m_h);
+				T h = m_h;
 				m_h = other.m_h != TR::invalid_handle ? TR::duplicate(other.m_h) : TR::invalid_handle;
+				if (h != TR::invalid_handle)
+					TR::close(h);
 			}
 			return *this;
 		}
@@ -183,8 +184,9 @@ namespace stdex
 		virtual void close()
 		{
 			if (m_h != TR::invalid_handle) {
-				TR::close(m_h);
+				T h = m_h;
 				m_h = TR::invalid_handle;
+				TR::close(h);
 			}
 		}
 
-- 
2.43.0


From e18c65a1cfc4fa9e615f83200224a05102946f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 030/137] fix: file::size() must report a failure to restore
 the position

---
 include/stdex/stream.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 8d54d87..4d0e799 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3002,8 +3002,7 @@ namespace stdex
 				off64_t orig = lseek64(m_h, 0, SEEK_CUR);
 				if (orig >= 0) {
 					off64_t length = lseek64(m_h, 0, SEEK_END);
-					lseek64(m_h, orig, SEEK_SET);
-					if (length >= 0)
+					if (lseek64(m_h, orig, SEEK_SET) >= 0 && length >= 0)
 						return static_cast<fsize_t>(length);
 				}
 				return fsize_max;
-- 
2.43.0


From 10bfbe828dced75ef38af2750d91927ed100a21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 031/137] fix: memory_file::load() and save() must report
 errors of the file

---
 include/stdex/stream.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 4d0e799..f756998 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3546,7 +3546,7 @@ namespace stdex
 					return;
 				}
 				fsize_t size = f.size();
-				if (size > SIZE_MAX) {
+				if (size >= SIZE_MAX) {
 					m_state = state_t::fail;
 					return;
 				}
@@ -3556,6 +3556,8 @@ namespace stdex
 				}
 				m_offset = m_size = 0;
 				write_stream(f);
+				if (f.state() == state_t::fail) _Unlikely_
+					m_state = state_t::fail;
 				if (ok())
 					m_offset = 0;
 #if SET_FILE_OP_TIMES
@@ -3596,6 +3598,10 @@ namespace stdex
 					return;
 				}
 				f.truncate();
+				if (!f.ok()) {
+					m_state = state_t::fail;
+					return;
+				}
 #if SET_FILE_OP_TIMES
 				f.set_ctime(m_ctime);
 				f.set_atime(m_atime);
-- 
2.43.0


From d0cdc6e8b17f77e39beb37726b72237b12c8262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 032/137] fix: base64_reader must count the bytes of the last
 block and report a partial read as such

---
 include/stdex/base64.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index 28c1108..4befa8d 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -410,7 +410,7 @@ namespace stdex
 					uint8_t x;
 					*m_source >> x;
 					if (!m_source->ok()) _Unlikely_ {
-						m_state = m_source->state();
+						m_state = to_read < length ? stdex::stream::state_t::ok : m_source->state();
 						return length - to_read; // [1] Code analysis misses `length - to_read` bytes were written to data in previous loop iterations.
 					}
 					if ((m_buf[m_num] = base64_dec_lookup[x]) != 255)
@@ -420,9 +420,9 @@ namespace stdex
 				if (m_temp_len < 3 && to_read >= 3) {
 					// If Base64 indicates end of data, truncate read to hint the client, end of Base64 data has been reached.
 					memcpy(data, m_temp + m_temp_off, m_temp_len);
+					to_read -= m_temp_len;
 					m_temp_off = 0;
 					m_temp_len = 0;
-					to_read -= m_temp_len;
 					m_state = stdex::stream::state_t::ok;
 					return length - to_read; // [1] Code analysis misses `length - to_read` bytes were written to data in previous loop iterations.
 				}
-- 
2.43.0


From 6cdb4e43131ebdc68be8591a70594c78567bb279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 033/137] fix: base64_writer::write() must return the number of
 bytes written when it fails

---
 include/stdex/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index 4befa8d..ce780fc 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -205,7 +205,7 @@ namespace stdex
 					encode();
 					if (!m_source->ok()) _Unlikely_ {
 						m_state = m_source->state();
-						return length - i;
+						return i > m_num ? i - m_num : 0;
 					}
 					m_num = 0;
 				}
-- 
2.43.0


From 568eb6b759669d09936600600dc01b05935a525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 034/137] fix: zlib_writer must release the compressor when it
 throws from its destructor

---
 include/stdex/zlib.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/stdex/zlib.hpp b/include/stdex/zlib.hpp
index 1d2ad70..7e1a232 100644
--- a/include/stdex/zlib.hpp
+++ b/include/stdex/zlib.hpp
@@ -66,10 +66,16 @@ namespace stdex
 			do {
 				m_zlib.avail_out = m_block_size;
 				m_zlib.next_out = m_block.get();
-				throw_on_zlib_error(deflate(&m_zlib, Z_FINISH));
+				int result = deflate(&m_zlib, Z_FINISH);
+				if (result < 0) _Unlikely_ {
+					deflateEnd(&m_zlib);
+					throw_on_zlib_error(result);
+				}
 				m_source->write(m_block.get(), m_block_size - m_zlib.avail_out);
-				if (!m_source->ok()) _Unlikely_
+				if (!m_source->ok()) _Unlikely_ {
+					deflateEnd(&m_zlib);
 					throw std::system_error(sys_error(), std::system_category(), "failed to flush compressed stream"); // Data loss occured
+				}
 			} while (m_zlib.avail_out == 0);
 			// m_zlib.avail_out = m_block_size;
 			// m_zlib.next_out = m_block.get();
-- 
2.43.0


From 630d73552abe04d307f321d9a6b000a250162781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 035/137] fix: zlib_reader must stop at the end of the
 compressed data and report truncated data

---
 include/stdex/zlib.hpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/stdex/zlib.hpp b/include/stdex/zlib.hpp
index 7e1a232..a59b2a8 100644
--- a/include/stdex/zlib.hpp
+++ b/include/stdex/zlib.hpp
@@ -128,7 +128,8 @@ namespace stdex
 		zlib_reader(_Inout_ stdex::stream::basic& source, _In_ uInt block_size = 0x10000) :
 			stdex::stream::converter(source),
 			m_block_size(block_size),
-			m_block(new Byte[block_size])
+			m_block(new Byte[block_size]),
+			m_end(false)
 		{
 			memset(&m_zlib, 0, sizeof(m_zlib));
 			throw_on_zlib_error(inflateInit(&m_zlib));
@@ -150,20 +151,23 @@ namespace stdex
 				m_zlib.avail_out = num_deflated;
 				m_zlib.next_out = reinterpret_cast<Bytef*>(data);
 				do {
-					if (m_zlib.avail_in == 0) {
+					if (!m_end && m_zlib.avail_in == 0) {
 						m_zlib.next_in = m_block.get();
 						m_zlib.avail_in = static_cast<uInt>(m_source->read(m_block.get(), m_block_size));
-						if (!m_zlib.avail_in) {
-							num_read += num_deflated - m_zlib.avail_out; // [1] Code analysis misses `num_deflated - m_zlib.avail_out` bytes were written to data in previous loop iterations.
-							if (num_read) {
-								m_state = stdex::stream::state_t::ok;
-								return num_read;
-							}
-							m_state = m_source->state();
-							return 0;
+					}
+					if (m_end || !m_zlib.avail_in) {
+						num_read += num_deflated - m_zlib.avail_out; // [1] Code analysis misses `num_deflated - m_zlib.avail_out` bytes were written to data in previous loop iterations.
+						if (num_read) {
+							m_state = stdex::stream::state_t::ok;
+							return num_read;
 						}
+						// Source ending before the compressed data does is an error.
+						m_state = m_end ? stdex::stream::state_t::eof : stdex::stream::state_t::fail;
+						return 0;
 					}
-					throw_on_zlib_error(inflate(&m_zlib, Z_NO_FLUSH));
+					int result = inflate(&m_zlib, Z_NO_FLUSH);
+					throw_on_zlib_error(result == Z_NEED_DICT ? Z_DATA_ERROR : result);
+					m_end = result == Z_STREAM_END;
 				} while (m_zlib.avail_out);
 				num_read += num_deflated;
 				reinterpret_cast<Bytef*&>(data) += num_deflated;
@@ -177,6 +181,7 @@ namespace stdex
 		z_stream m_zlib;
 		uInt m_block_size;
 		std::unique_ptr<Byte[]> m_block;
+		bool m_end; ///< Has the end of the compressed data been reached?
 	};
 }
 
-- 
2.43.0


From cd3e3c1338b37fdfde9199755f5cb8cef27a73bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 036/137] fix: diag_file must not dereference a file when there
 are none

---
 include/stdex/stream.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index f756998..5296c45 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4391,8 +4391,10 @@ namespace stdex
 
 			virtual void lock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->lock(offset, length);
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
@@ -4404,8 +4406,10 @@ namespace stdex
 
 			virtual void unlock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->unlock(offset, length);
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
@@ -4429,8 +4433,10 @@ namespace stdex
 
 			virtual void truncate()
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->truncate();
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
-- 
2.43.0


From 3de4e47974a78a1af781b8c94d4fd9ed792fbad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 037/137] fix: block_hash must count messages hashed in pieces
 of 4 GiB and more

---
 include/stdex/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/hash.hpp b/include/stdex/hash.hpp
index 4947ec0..f7a0e2a 100644
--- a/include/stdex/hash.hpp
+++ b/include/stdex/hash.hpp
@@ -89,7 +89,7 @@ namespace stdex
 			// Update number of m_counter[1].
 			if ((m_counter[0] += (static_cast<uint32_t>(length) << 3)) < (static_cast<uint32_t>(length) << 3))
 				m_counter[1]++;
-			m_counter[1] += static_cast<uint32_t>(length) >> 29;
+			m_counter[1] += static_cast<uint32_t>(static_cast<uint64_t>(length) >> 29);
 
 			// Transform as many times as possible.
 			size_t i, remainder = 64 - j;
-- 
2.43.0


From 1930827480523f9473668eab0d52b2d106a6888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 038/137] fix: idrec must skip records whose padded size
 overflows the size field

---
 include/stdex/idrec.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 6856f7d..8802727 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -86,8 +86,7 @@ namespace stdex {
 			if (!stream.good()) _Unlikely_ return false;
 
 			// Skip the record data.
-			size += padding<T_size, N_align>(size);
-			stream.ignore(size);
+			stream.ignore(static_cast<std::streamsize>(size) + padding<T_size, N_align>(size));
 			if (!stream.good()) _Unlikely_ return false;
 
 			return true;
@@ -111,9 +110,10 @@ namespace stdex {
 			if (!stream.ok()) _Unlikely_ return false;
 
 			// Skip the record data.
-			size += padding<T_size, N_align>(size);
 			stream.skip(size);
 			if (!stream.ok()) _Unlikely_ return false;
+			stream.skip(padding<T_size, N_align>(size));
+			if (!stream.ok()) _Unlikely_ return false;
 
 			return true;
 		}
@@ -492,8 +492,7 @@ namespace stdex {
 				stream >> r.data; // TODO: operator >> should not read past the record data! Make a size limited stream and read from it instead.
 				if (!stream.good()) _Unlikely_ return stream;
 
-				size += padding<T_size, N_align>(size);
-				stream.seekg(start + size);
+				stream.seekg(start + static_cast<std::streamoff>(size) + padding<T_size, N_align>(size));
 
 				return stream;
 			}
@@ -523,8 +522,7 @@ namespace stdex {
 					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ return stream;
 				}
 
-				size += padding<T_size, N_align>(size);
-				stream.seekbeg(start + static_cast<stdex::stream::fpos_t>(size));
+				stream.seekbeg(start + static_cast<stdex::stream::fpos_t>(size) + padding<T_size, N_align>(size));
 
 				return stream;
 			}
-- 
2.43.0


From 8ae870f0e0021b6757eecf22063049a04f2284a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 039/137] fix: record operator >> must report a record
 truncated by the end of the file

---
 include/stdex/idrec.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 8802727..178bf8e 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -521,6 +521,7 @@ namespace stdex {
 					limiter >> r.data;
 					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ return stream;
 				}
+				if (!stream.ok()) _Unlikely_ return stream;
 
 				stream.seekbeg(start + static_cast<stdex::stream::fpos_t>(size) + padding<T_size, N_align>(size));
 
@@ -550,6 +551,7 @@ namespace stdex {
 					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ return stream;
 					limiter.skip(limiter.read_limit);
 				}
+				if (!stream.ok()) _Unlikely_ return stream;
 				stream.skip(padding<T_size, N_align>(size));
 
 				return stream;
-- 
2.43.0


From 8a570c38dcb0bc02aebb640648489fd7c0dc9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 040/137] fix: idrec::close() must report a failure to write
 data or header

---
 include/stdex/idrec.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 178bf8e..2b4990d 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -267,6 +267,7 @@ namespace stdex {
 				size      = static_cast<T_size>(end - start - sizeof(T_id) - sizeof(T_size)),
 				remainder = padding<T_size, N_align>(size);
 
+			if (!stream.ok()) _Unlikely_ return stdex::stream::fpos_max;
 			if (remainder) {
 				// Append padding.
 				static const char padding[N_align] = {};
@@ -278,6 +279,7 @@ namespace stdex {
 			if (!stream.ok()) _Unlikely_ return stdex::stream::fpos_max;
 			stream.seekbeg(start + sizeof(T_id));
 			stream << size;
+			if (!stream.ok()) _Unlikely_ return stdex::stream::fpos_max;
 			stream.seekbeg(end);
 
 			return end;
-- 
2.43.0


From 09ee9bc10923ca5b6675abd690730ffc0c46cba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 041/137] fix: toupper() must clear the case bit of lower-case
 letters

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index ac00a05..ff74edc 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -302,7 +302,7 @@ namespace stdex
 	template <class T>
 	T toupper(_In_ T chr)
 	{
-		return islower(chr) ? chr | ~0x20 : chr;
+		return islower(chr) ? chr & ~0x20 : chr;
 	}
 
 	///
-- 
2.43.0


From ac468b6ae56e63a769aa78837003ee8aebd96f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 042/137] fix: read_cues() must end when there are no more cues
 or labels

---
 include/stdex/wav.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 5bc8f9d..5d5d93c 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -519,6 +519,7 @@ namespace stdex
 					length_t size;
 					dat >> size;
 					if (!dat.ok()) _Unlikely_ return false;
+					stdex::stream::fpos_t end = dat.tell() + size;
 					stdex::stream::file_window _dat(dat, dat.tell(), size);
 					uint32_t num_cues;
 					_dat >> num_cues;
@@ -536,7 +537,10 @@ namespace stdex
 					cues.resize(i);
 					if (!ordered)
 						std::sort(cues.begin(), cues.end(), cue_less);
+					dat.seekbeg(end + stdex::idrec::padding<length_t, align>(size));
 				}
+				else
+					break;
 			}
 
 			// Cues are loaded. Add other data.
@@ -587,6 +591,8 @@ namespace stdex
 							return false;
 					}
 				}
+				else
+					break;
 			}
 
 			dat.seekbeg(start);
-- 
2.43.0


From d8756680284b0f0c21c99c97031774f4a50a7bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 043/137] fix: reading cues must not allocate memory for cues
 that are not in the file

---
 include/stdex/wav.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 5d5d93c..7152752 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -250,8 +250,14 @@ namespace stdex
 			uint32_t num_cues;
 			dat >> num_cues;
 			if (!dat.ok()) _Unlikely_ goto error1;
-			data.resize(num_cues);
-			data.resize(dat.read_array(data.data(), sizeof(cue), num_cues));
+			data.clear();
+			for (uint32_t i = 0; i < num_cues; i++) {
+				cue c;
+				dat.read_array(&c, sizeof(cue), 1);
+				if (!dat.ok()) _Unlikely_
+					break;
+				data.push_back(c);
+			}
 			return dat;
 
 		error1:
@@ -524,17 +530,17 @@ namespace stdex
 					uint32_t num_cues;
 					_dat >> num_cues;
 					if (!_dat.ok()) _Unlikely_ return false;
-					cues.resize(num_cues);
-					size_t i;
+					cues.clear();
 					bool ordered = true;
-					for (i = 0; i < num_cues; i++) {
-						_dat.read_array(static_cast<cue*>(&cues[i]), sizeof(cue), 1);
+					for (size_t i = 0; i < num_cues; i++) {
+						cue_ex c;
+						_dat.read_array(static_cast<cue*>(&c), sizeof(cue), 1);
 						if (!_dat.ok()) _Unlikely_
 							break;
+						cues.push_back(c);
 						if (i && cue_less(cues[i], cues[i - 1]))
 							ordered = false;
 					}
-					cues.resize(i);
 					if (!ordered)
 						std::sort(cues.begin(), cues.end(), cue_less);
 					dat.seekbeg(end + stdex::idrec::padding<length_t, align>(size));
-- 
2.43.0


From 665831b836552081760deea425636e43c172ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 044/137] fix: remove_cues() must remove cues and keep
 everything else

---
 include/stdex/wav.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 7152752..ce32ddb 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -621,22 +621,22 @@ namespace stdex
 				id_t id;
 				input >> id;
 				if (!input.ok()) break;
+				bool remove = false;
 				for (size_t i = 0; i < _countof(removable); i++)
 					if (id == removable[i])
-						goto remove;
-				if (!stdex::idrec::ignore<length_t, align>(input)) _Unlikely_
-					return false;
-				continue;
+						remove = true;
+				if (remove) {
+					if (!stdex::idrec::ignore<length_t, align>(input)) _Unlikely_
+						return false;
+					continue;
+				}
 
-			remove:
 				length_t size;
 				input >> size;
 				if (!input.ok()) _Unlikely_ return false;
 				auto start = stdex::idrec::open<id_t, length_t>(output, id);
-				id_t id2 = id;
-				stdex::strupr(reinterpret_cast<char*>(&id2), sizeof(id_t) / sizeof(char));
-				if (id != id2 || id == *reinterpret_cast<const id_t*>("ICRD")) {
-					// ID is not all uppercase (or is an exception). Element is trivial and may be copied.
+				if (id != header::record::id() && id != list::record::id()) {
+					// Element is trivial and may be copied.
 					if (!output.ok()) _Unlikely_ return false;
 					output.write_stream(input, size);
 					if (!input.ok()) _Unlikely_ return false;
@@ -646,7 +646,7 @@ namespace stdex
 						input.seekcur(size);
 				}
 				else {
-					// ID is all uppercase. Needs recursive treatment.
+					// Element contains other elements. Needs recursive treatment.
 					id_t id3;
 					input >> id3;
 					if (!input.ok()) _Unlikely_ return false;
-- 
2.43.0


From 998c92ae9c594dfc6be4d9f499b33a702e53d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 045/137] fix: remove_cues() must report failures of the files

---
 include/stdex/wav.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index ce32ddb..817e230 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -620,6 +620,7 @@ namespace stdex
 			while (input.tell() < block_end) {
 				id_t id;
 				input >> id;
+				if (input.state() == stdex::stream::state_t::fail) _Unlikely_ return false;
 				if (!input.ok()) break;
 				bool remove = false;
 				for (size_t i = 0; i < _countof(removable); i++)
@@ -660,10 +661,11 @@ namespace stdex
 					else
 						output.seekbeg(start);
 				}
+				if (!input.ok() || !output.ok()) _Unlikely_ return false;
 			}
 
 			output.truncate();
-			return true;
+			return output.ok();
 		}
 	}
 }
-- 
2.43.0


From 561890b6fccb7c949205558b747e448f4b423802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 046/137] fix: find_first() must pad blocks by their size

---
 include/stdex/wav.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 817e230..5be1949 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -486,7 +486,7 @@ namespace stdex
 				}
 
 				// Block was found, but sub-ID is different.
-				end += (align - end) % align;
+				end += stdex::idrec::padding<length_t, align>(size);
 				dat.seekbeg(end);
 			}
 			return false;
-- 
2.43.0


From e1f4439912fbcac06ffac963952b6a90b3e4098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 047/137] fix: charset_encoder must complete stateful encodings

---
 include/stdex/unicode.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/stdex/unicode.hpp b/include/stdex/unicode.hpp
index 404e2d3..c530d28 100644
--- a/include/stdex/unicode.hpp
+++ b/include/stdex/unicode.hpp
@@ -312,8 +312,15 @@ namespace stdex
 					break;
 				if (errno == E2BIG)
 					continue;
-				throw std::system_error(errno, std::system_category(), "iconv failed");
+				int error = errno;
+				clear();
+				throw std::system_error(error, std::system_category(), "iconv failed");
 			}
+			// Return to the initial shift state.
+			T_to* output = &buf[0];
+			size_t output_size = sizeof(buf);
+			iconv(m_handle, NULL, NULL, reinterpret_cast<char**>(&output), &output_size);
+			dst.append(buf, reinterpret_cast<T_to*>(reinterpret_cast<char*>(buf) + sizeof(buf) - output_size));
 #endif
 		}
 
-- 
2.43.0


From 5730e4337d3453549036263d1fa635b6d6dab0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:56 +0000
Subject: [PATCH 048/137] fix: str2sgmlcat() must not write past a bounded
 buffer

The space numeric character references take was compared with the size of
the whole buffer rather than of what is left of it.
---
 include/stdex/sgml.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 0618c26..3da5c1a 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -744,7 +744,7 @@ namespace stdex
 						char tmp[3 + 8 + 1 + 1];
 						int m = snprintf(tmp, _countof(tmp), "&#x%x;", static_cast<unsigned int>(src[i++]));
 						stdex_assert(m >= 0);
-						if (static_cast<size_t>(m) >= count_dst)
+						if (j + static_cast<size_t>(m) >= count_dst)
 							throw buffer_overrun;
 						memcpy(dst + j, tmp, static_cast<size_t>(m) * sizeof(char));
 						j += static_cast<size_t>(m);
@@ -772,7 +772,7 @@ namespace stdex
 							char tmp[3 + 8 + 1 + 1];
 							int m = snprintf(tmp, _countof(tmp), "&#x%x;", static_cast<unsigned int>(wstr_to_utf32(src, i, end)));
 							stdex_assert(m >= 0);
-							if (static_cast<size_t>(m) >= count_dst)
+							if (j + static_cast<size_t>(m) >= count_dst)
 								throw buffer_overrun;
 							memcpy(dst + j, tmp, static_cast<size_t>(m) * sizeof(char));
 							j += static_cast<size_t>(m);
-- 
2.43.0


From 0c172cf2a9f1b222bddc60925c34d6cfac226e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:56 +0000
Subject: [PATCH 049/137] fix: keep SGML numeric references that are not valid

References without a number, with trailing garbage, to the terminator or past
U+10FFFF silently disappeared or decoded to something that is no character.
---
 include/stdex/sgml.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 3da5c1a..d14593a 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -49,9 +49,13 @@ namespace stdex
 			return nullptr;
 		}
 
-		buf[0] = entity[1] == 'x' || entity[1] == 'X' ?
-			static_cast<utf32_t>(strtou32(&entity[2], count - 2, nullptr, 16)) :
-			static_cast<utf32_t>(strtou32(&entity[1], count - 1, nullptr, 10));
+		const bool hex = entity[1] == 'x' || entity[1] == 'X';
+		const size_t offset = hex ? 2 : 1;
+		size_t end;
+		const uint32_t value = strtou32(entity + offset, count - offset, &end, hex ? 16 : 10);
+		if (offset + end != count || !value || value > 0x10ffff) // Not a number or not a code point.
+			return nullptr;
+		buf[0] = static_cast<utf32_t>(value);
 		buf[1] = 0;
 		return buf;
 	}
-- 
2.43.0


From f10519cf9b68ef8b475cd11682715ea16b32f97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 050/137] fix: do not encode characters as SGML entities of
 others

Seven characters were encoded as entities that decode to an unrelated
character, because the entity lists use the same name for both: a text with
one of them did not survive str2sgml() and sgml2str().
---
 include/stdex/sgml_unicode.hpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/include/stdex/sgml_unicode.hpp b/include/stdex/sgml_unicode.hpp
index 03d214c..1771fc9 100644
--- a/include/stdex/sgml_unicode.hpp
+++ b/include/stdex/sgml_unicode.hpp
@@ -1967,7 +1967,6 @@ namespace stdex
 		0x3f3,
 		0x3dc,
 		0x3c4,
-		0x3ce,
 		0x3f8,
 		0x3c7,
 		0x3c5,
@@ -1997,7 +1996,6 @@ namespace stdex
 		0x488,
 		0x47b,
 		0x463,
-		0x46e,
 		0x48b,
 		0x466,
 		0x464,
@@ -2037,7 +2035,6 @@ namespace stdex
 		0x53a,
 		0x525,
 		0x4fe,
-		0x512,
 		0x541,
 		0x503,
 		0x4ff,
@@ -2047,7 +2044,6 @@ namespace stdex
 		0x570,
 		0x568,
 		0x54f,
-		0x557,
 		0x571,
 		0x552,
 		0x550,
@@ -2083,7 +2079,6 @@ namespace stdex
 		0x5bb,
 		0x5d0,
 		0x5c7,
-		0x5cc,
 		0x5d7,
 		0x5d5,
 		0x5c8,
@@ -2344,7 +2339,6 @@ namespace stdex
 		0x508,
 		0x50b,
 		0x509,
-		0x1fc,
 		0x290,
 		0x27f,
 		0x271,
@@ -3089,7 +3083,6 @@ namespace stdex
 		0x2a5,
 		0x3fd,
 		0x3e5,
-		0x3e4,
 		0x517,
 		0x318,
 		0x31b,
-- 
2.43.0


From fd505b62899de65e2b5c2b74936106e037043c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 051/137] fix: islbreak() must recognise a line break at the
 end of a string

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index ff74edc..33a99dd 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -131,7 +131,7 @@ namespace stdex
 		stdex_assert(chr || !count);
 		if (count >= 2 && ((chr[0] == '\r' && chr[1] == '\n') || (chr[0] == '\n' && chr[1] == '\r')))
 			return 2;
-		if (count > 1 && (chr[0] == '\n' || chr[0] == '\r'))
+		if (count && (chr[0] == '\n' || chr[0] == '\r'))
 			return 1;
 		return 0;
 	}
-- 
2.43.0


From 3811432c548bb1f8c5c5f39963e7da040ad101b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 052/137] fix: glyphrlen() for UTF-32 must return the last
 glyph only

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 33a99dd..b5f835f 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -274,7 +274,7 @@ namespace stdex
 		stdex_assert(count && str && str[count - 1]);
 		for (size_t i = count; i--;) {
 			if (!iscombining(str[i]))
-				return count - (i == 0 ? i : i - 1);
+				return count - i;
 		}
 		return count;
 	}
-- 
2.43.0


From 87d3c7891ffea4164924797c47e47c3cb3a35c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 053/137] fix: strnicmp() for arrays must return the result

---
 include/stdex/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index b5f835f..c844f88 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1307,7 +1307,7 @@ namespace stdex
 		_In_ const T1 (&str1)[N1],
 		_In_ const T2 (&str2)[N2])
 	{
-		strnicmp(str1, N1, str2, N2);
+		return strnicmp(str1, N1, str2, N2);
 	}
 
 	///
@@ -1325,7 +1325,7 @@ namespace stdex
 		_In_ const T2 (&str2)[N2],
 		_In_ const std::locale& locale)
 	{
-		strnicmp(str1, N1, str2, N2, locale);
+		return strnicmp(str1, N1, str2, N2, locale);
 	}
 
 	///
-- 
2.43.0


From 679628b34bdcd87b38cabc49f920819b805e454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 054/137] fix: strncat() must terminate the string when the
 source is cut

---
 include/stdex/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index c844f88..758d492 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1796,8 +1796,10 @@ namespace stdex
 		stdex_assert(dst || !count);
 		stdex_assert(src || !count);
 		for (size_t i = 0, j = stdex::strlen<T1>(dst); ; ++i, ++j) {
-			if (i >= count)
+			if (i >= count) {
+				dst[j] = 0;
 				return j;
+			}
 			if ((dst[j] = static_cast<T1>(src[i])) == 0)
 				return j;
 		}
-- 
2.43.0


From f18383c3e5b36152de4e05971a61dd5ff5ceaf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 055/137] fix: strndup() must terminate the duplicate

The duplicate of a string that was cut, or of an array without a terminator,
had none.
---
 include/stdex/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 758d492..83d95bc 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1872,8 +1872,9 @@ namespace stdex
 		_In_reads_or_z_opt_(count) const T* str,
 		_In_ size_t count)
 	{
-		T* dst = new T[count];
-		strncpy(dst, count, str, SIZE_MAX);
+		count = strnlen(str, count);
+		T* dst = new T[count + 1];
+		strncpy(dst, count + 1, str, count);
 		return dst;
 	}
 
-- 
2.43.0


From 8c4c6dc77d889313cb5f8967a8a09c2aabfa0a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 056/137] fix: signed strto*() must saturate positive values

A positive value that only fits the unsigned type came out negative.
---
 include/stdex/string.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 83d95bc..e562a2f 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2080,7 +2080,7 @@ namespace stdex
 		switch (sizeof(T_bin)) {
 		case 1:
 			value = (T_bin)strtoint<T, uint8_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x80)) {
+			if (value & 0x80) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2090,7 +2090,7 @@ namespace stdex
 
 		case 2:
 			value = (T_bin)strtoint<T, uint16_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x8000)) {
+			if (value & 0x8000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2100,7 +2100,7 @@ namespace stdex
 
 		case 4:
 			value = (T_bin)strtoint<T, uint32_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x80000000)) {
+			if (value & 0x80000000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2110,7 +2110,7 @@ namespace stdex
 
 		case 8:
 			value = (T_bin)strtoint<T, uint64_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x8000000000000000)) {
+			if (value & 0x8000000000000000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
-- 
2.43.0


From 3479663181fa1999793a66c75e426c9709a11aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 057/137] fix: unsigned strto*() must negate negative values

The one's complement was returned: "-1" gave the maximum less one, "-0" the
maximum.
---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index e562a2f..3c99dd4 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2171,7 +2171,7 @@ namespace stdex
 
 		return (flags & 0x02) ?
 			(flags & 0x01) ? (T_bin)0 : (T_bin)-1 :
-			(flags & 0x01) ? ~value : value;
+			(flags & 0x01) ? (T_bin)0 - value : value;
 	}
 
 	///
-- 
2.43.0


From 9061d64c0dbccc3e804426c7976f572ac502eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 058/137] fix: formatting must not depend on the length of the
 result

Text of exactly the size of the stack buffer lost its last character, longer
narrow text was an error unless errno happened to be EOVERFLOW, and so was
wide text that outgrew the first heap buffer for a reason that left errno
alone.
---
 include/stdex/string.hpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 3c99dd4..de1cf90 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2675,7 +2675,7 @@ namespace stdex
 
 		// Try with stack buffer first.
 		int count = vsnprintf(buf, _countof(buf), format, locale, arg);
-		if (0 <= count && static_cast<size_t>(count) <= _countof(buf)) {
+		if (0 <= count && static_cast<size_t>(count) < _countof(buf)) {
 			// Copy from stack.
 			str.append(buf, static_cast<size_t>(count));
 			return static_cast<size_t>(count);
@@ -2699,19 +2699,20 @@ namespace stdex
 #else
 		size_t offset = str.size();
 		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
-			switch (errno) {
-			case EOVERFLOW:
-				// Allocate on heap and retry.
-				str.resize(offset + capacity);
-				count = vsnprintf(&str[offset], capacity, format, locale, arg);
-				if (0 <= count && static_cast<size_t>(count) <= capacity) {
-					str.resize(offset + static_cast<size_t>(count));
-					return static_cast<size_t>(count);
+			if (count < 0) {
+				switch (errno) {
+				case EOVERFLOW: break;
+				case EINVAL: throw std::invalid_argument("invalid vsnprintf arguments");
+				case EILSEQ: throw std::runtime_error("encoding error");
+				default: throw std::runtime_error("failed to format string");
 				}
-				break;
-			case EINVAL: throw std::invalid_argument("invalid vsnprintf arguments");
-			case EILSEQ: throw std::runtime_error("encoding error");
-			default: throw std::runtime_error("failed to format string");
+			}
+			// Allocate on heap and retry.
+			str.resize(offset + capacity);
+			count = vsnprintf(&str[offset], capacity, format, locale, arg);
+			if (0 <= count && static_cast<size_t>(count) < capacity) {
+				str.resize(offset + static_cast<size_t>(count));
+				return static_cast<size_t>(count);
 			}
 		}
 #endif
-- 
2.43.0


From 4d1f0316c279546940c02e6a92ed977b5301a7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 059/137] fix: strcatftime() must end when the result is empty

An empty result was taken for a lack of space and retried with an ever larger
buffer.
---
 include/stdex/string.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index de1cf90..9fd96b4 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2837,20 +2837,24 @@ namespace stdex
 	{
 		T buf[1024 / sizeof(T)];
 
+		// A result of zero means lack of space. Add a character to make sure the result is never empty.
+		std::basic_string<T> format_nonempty(format);
+		format_nonempty += static_cast<T>(' ');
+
 		// Try with stack buffer first.
-		size_t count = strftime(buf, _countof(buf), format, time, locale);
+		size_t count = strftime(buf, _countof(buf), format_nonempty.c_str(), time, locale);
 		if (count) {
 			// Copy from stack.
-			str.append(buf, count);
+			str.append(buf, count - 1);
 			return;
 		}
 		size_t offset = str.size();
 		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
 			// Allocate on heap and retry.
 			str.resize(offset + capacity);
-			count = strftime(&str[offset], capacity + 1, format, time, locale);
+			count = strftime(&str[offset], capacity + 1, format_nonempty.c_str(), time, locale);
 			if (count) {
-				str.resize(offset + count);
+				str.resize(offset + count - 1);
 				return;
 			}
 		}
-- 
2.43.0


From 327508f026ef6b1aef3ea08208e90e8449567f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 060/137] fix: vector_queue::push_front() must wrap around at
 any capacity

abs(-1) is off for capacities that are not powers of two: the element went to another
element's place or past the head. Also, leave the queue alone when assignment throws.
---
 include/stdex/vector_queue.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index 007dc29..345a7ff 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -316,11 +316,12 @@ namespace stdex
 		///
 		size_type push_front(_In_ const value_type &v)
 		{
-			m_head = abs(-1);
+			size_type pos = abs(m_size_max - 1);
+			m_data[pos] = v;
+			m_head = pos;
 			if (m_count < m_size_max)
 				m_count++;
-			m_data[m_head] = v;
-			return m_head;
+			return pos;
 		}
 
 		///
@@ -332,11 +333,12 @@ namespace stdex
 		///
 		size_type push_front(_Inout_ value_type&&v)
 		{
-			m_head = abs(-1);
+			size_type pos = abs(m_size_max - 1);
+			m_data[pos] = std::move(v);
+			m_head = pos;
 			if (m_count < m_size_max)
 				m_count++;
-			m_data[m_head] = std::move(v);
-			return m_head;
+			return pos;
 		}
 
 		///
-- 
2.43.0


From f2d5d116c54b9bc919390785549ec5f4ef21e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 061/137] fix: vector_queue assignment must not leak or leave
 deleted elements behind

Move assignment leaked the previous elements. Copy assignment left a pointer to deleted
elements when allocating or copying threw, and so did the copy constructor leak.
---
 include/stdex/vector_queue.hpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index 345a7ff..e2b0ee4 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -73,9 +73,15 @@ namespace stdex
 			m_size_max(other.m_size_max)
 		{
 			// Copy elements.
-			for (size_type i = 0; i < m_count; i++) {
-				size_type i_l = abs(i);
-				m_data[i_l] =  other.m_data[i_l];
+			try {
+				for (size_type i = 0; i < m_count; i++) {
+					size_type i_l = abs(i);
+					m_data[i_l] =  other.m_data[i_l];
+				}
+			}
+			catch (...) {
+				delete [] m_data;
+				throw;
 			}
 		}
 
@@ -113,17 +119,8 @@ namespace stdex
 		vector_queue<value_type>& operator=(_In_ const vector_queue<value_type> &other)
 		{
 			if (this != std::addressof(other)) {
-				m_head     = other.m_head;
-				m_count    = other.m_count;
-				m_size_max = other.m_size_max;
-
-				// Copy elements.
-				if (m_data) delete [] m_data;
-				m_data = new value_type[other.m_size_max];
-				for (size_type i = 0; i < m_count; i++) {
-					size_type i_l = abs(i);
-					m_data[i_l] =  other.m_data[i_l];
-				}
+				vector_queue<value_type> copy(other);
+				*this = std::move(copy);
 			}
 
 			return *this;
@@ -137,6 +134,7 @@ namespace stdex
 		vector_queue<value_type>& operator=(_Inout_ vector_queue<value_type> &&other)
 		{
 			if (this != std::addressof(other)) {
+				if (m_data) delete [] m_data;
 				m_data     = std::move(other.m_data    );
 				m_head     = std::move(other.m_head    );
 				m_count    = std::move(other.m_count   );
-- 
2.43.0


From e6626a6fd44a7ee9eb0762d5d876941605816353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 062/137] fix: rol() must rotate by any number of bits

Rotating by zero bits shifted by the width of the type, which is undefined.
---
 include/stdex/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/math.hpp b/include/stdex/math.hpp
index d513322..ff9449b 100644
--- a/include/stdex/math.hpp
+++ b/include/stdex/math.hpp
@@ -80,7 +80,7 @@ namespace stdex
 #ifdef _WIN32
 		return _rotl(value, bits);
 #else
-		return (value << bits) | (value >> (32 - bits));
+		return (value << (bits & 31)) | (value >> (-bits & 31));
 #endif
 	}
 
-- 
2.43.0


From f148d4ff73f095d0d50e2f89b42197390de6225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 063/137] fix: 64-bit muldiv() must not overflow when the
 result does not

---
 include/stdex/math.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/stdex/math.hpp b/include/stdex/math.hpp
index ff9449b..a87ac3a 100644
--- a/include/stdex/math.hpp
+++ b/include/stdex/math.hpp
@@ -123,7 +123,11 @@ namespace stdex
 	///
 	inline constexpr int64_t muldiv(int64_t n, int64_t k, int64_t q)
 	{
+#ifdef __SIZEOF_INT128__
+		return static_cast<int64_t>(static_cast<__int128>(n) * k / q);
+#else
 		return n * k / q;
+#endif
 	}
 
 	///
@@ -137,6 +141,10 @@ namespace stdex
 	///
 	inline constexpr uint64_t muldiv(uint64_t n, uint64_t k, uint64_t q)
 	{
+#ifdef __SIZEOF_INT128__
+		return static_cast<uint64_t>(static_cast<unsigned __int128>(n) * k / q);
+#else
 		return n * k / q;
+#endif
 	}
 }
-- 
2.43.0


From 6b091f7b418f527cd67bb090a158564ce599879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 064/137] fix: sanitizing must not be optimized away

Compilers drop a memset() of memory which is about to be released, so the content of
sanitizing_allocator blocks and sanitizing_blob stayed in memory in optimized builds.
---
 include/stdex/memory.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/memory.hpp b/include/stdex/memory.hpp
index 97c6f05..919a711 100644
--- a/include/stdex/memory.hpp
+++ b/include/stdex/memory.hpp
@@ -108,6 +108,7 @@ namespace stdex
 			SecureZeroMemory(p, sizeof(T) * n);
 #else
 			memset(p, 0, sizeof(T) * n);
+			__asm__ __volatile__("" : : "r"(p) : "memory"); // The compiler must not drop memset() of memory about to be released.
 #endif
 			std::allocator<T>::deallocate(p, n);
 		}
@@ -133,6 +134,7 @@ namespace stdex
 			SecureZeroMemory(m_data, N);
 #else
 			memset(m_data, 0, N);
+			__asm__ __volatile__("" : : "r"(m_data) : "memory"); // The compiler must not drop memset() of memory about to be released.
 #endif
 		}
 
-- 
2.43.0


From 6d527beb298c59f8a917bf4d6585a8cdcf877ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 065/137] fix: aosn_timestamp::from_system() must convert
 nanoseconds to milliseconds

---
 include/stdex/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 77c0681..0c35d24 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -299,7 +299,7 @@ namespace stdex {
 			///
 			static time_point from_system(_In_ const struct timespec& t) noexcept
 			{
-				return time_point(duration(static_cast<rep>(from_time_t(t.tv_sec).time_since_epoch().count() + t.tv_nsec / 1000)));
+				return time_point(duration(static_cast<rep>(from_time_t(t.tv_sec).time_since_epoch().count() + t.tv_nsec / 1000000)));
 			}
 #endif
 
-- 
2.43.0


From 05e7a23e16ccb84205900b2ddafbe61c3a8bd7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 066/137] fix: aosn_timestamp::to_system() must set the day of
 the year

---
 include/stdex/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 0c35d24..7a5e878 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -316,7 +316,7 @@ namespace stdex {
 				date.tm_mon = month - 1;
 				date.tm_year = year - 1900;
 				date.tm_wday = (static_cast<int>(aosn_date::day_of_week(to_date(tp))) + 1) % 7;
-				date.tm_yday = 0;
+				date.tm_yday = to_date(tp).time_since_epoch().count() - aosn_date::from_dmy(1, 1, year).time_since_epoch().count();
 				date.tm_isdst = 0;
 			}
 
-- 
2.43.0


From c2f350d99b9953401f403d562fb6a5dd08b7ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 067/137] fix: aosn_timestamp::to_str() must delete the array
 as such

---
 include/stdex/chrono.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 7a5e878..bb1c442 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -431,7 +431,7 @@ namespace stdex {
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
-					std::unique_ptr<char> buf(new char[num_chars]);
+					std::unique_ptr<char[]> buf(new char[num_chars]);
 #if _WIN32
 					n = _strftime_l(buf.get(), num_chars, format, &date, locale);
 #else
@@ -464,7 +464,7 @@ namespace stdex {
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
-					std::unique_ptr<wchar_t> buf(new wchar_t[num_chars]);
+					std::unique_ptr<wchar_t[]> buf(new wchar_t[num_chars]);
 #if _WIN32
 					n = _wcsftime_l(buf.get(), num_chars, format, &date, locale);
 #else
-- 
2.43.0


From 0a3942b1fe81fe8356f7ff4c29cf69e710c5a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 068/137] fix: aosn_timestamp::to_str() must end when the
 result is empty

An empty result was taken for a lack of space and retried with an ever larger buffer.
---
 include/stdex/chrono.hpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index bb1c442..f43c97f 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -14,6 +14,7 @@
 #include <ctime>
 #include <memory>
 #include <stdexcept>
+#include <string>
 
 namespace stdex {
 	namespace chrono
@@ -420,25 +421,28 @@ namespace stdex {
 				std::basic_string<char, TR, AX> str;
 				char stack_buffer[1024 / sizeof(char)];
 				size_t n;
+				// A result of zero means lack of space. Add a character to make sure the result is never empty.
+				std::basic_string<char> format_nonempty(format);
+				format_nonempty += static_cast<char>(' ');
 #if _WIN32
-				n = _strftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
+				n = _strftime_l(stack_buffer, _countof(stack_buffer), format_nonempty.c_str(), &date, locale);
 #else
-				n = strftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
+				n = strftime_l(stack_buffer, _countof(stack_buffer), format_nonempty.c_str(), &date, locale);
 #endif
 				if (n) {
-					str.assign(stack_buffer, stack_buffer + n);
+					str.assign(stack_buffer, stack_buffer + n - 1);
 					return str;
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
 					std::unique_ptr<char[]> buf(new char[num_chars]);
 #if _WIN32
-					n = _strftime_l(buf.get(), num_chars, format, &date, locale);
+					n = _strftime_l(buf.get(), num_chars, format_nonempty.c_str(), &date, locale);
 #else
-					n = strftime_l(buf.get(), num_chars, format, &date, locale);
+					n = strftime_l(buf.get(), num_chars, format_nonempty.c_str(), &date, locale);
 #endif
 					if (n) {
-						str.assign(buf.get(), buf.get() + n);
+						str.assign(buf.get(), buf.get() + n - 1);
 						return str;
 					}
 					num_chars = stdex::mul(num_chars, 2);
@@ -453,25 +457,28 @@ namespace stdex {
 				std::basic_string<wchar_t, TR, AX> str;
 				wchar_t stack_buffer[1024 / sizeof(wchar_t)];
 				size_t n;
+				// A result of zero means lack of space. Add a character to make sure the result is never empty.
+				std::basic_string<wchar_t> format_nonempty(format);
+				format_nonempty += static_cast<wchar_t>(' ');
 #if _WIN32
-				n = _wcsftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
+				n = _wcsftime_l(stack_buffer, _countof(stack_buffer), format_nonempty.c_str(), &date, locale);
 #else
-				n = wcsftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
+				n = wcsftime_l(stack_buffer, _countof(stack_buffer), format_nonempty.c_str(), &date, locale);
 #endif
 				if (n) {
-					str.assign(stack_buffer, stack_buffer + n);
+					str.assign(stack_buffer, stack_buffer + n - 1);
 					return str;
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
 					std::unique_ptr<wchar_t[]> buf(new wchar_t[num_chars]);
 #if _WIN32
-					n = _wcsftime_l(buf.get(), num_chars, format, &date, locale);
+					n = _wcsftime_l(buf.get(), num_chars, format_nonempty.c_str(), &date, locale);
 #else
-					n = wcsftime_l(buf.get(), num_chars, format, &date, locale);
+					n = wcsftime_l(buf.get(), num_chars, format_nonempty.c_str(), &date, locale);
 #endif
 					if (n) {
-						str.assign(buf.get(), buf.get() + n);
+						str.assign(buf.get(), buf.get() + n - 1);
 						return str;
 					}
 					num_chars = stdex::mul(num_chars, 2);
-- 
2.43.0


From a1febb8779fa80e67f20862dc1326a63fc1b9f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 069/137] fix: wide uuidtostr() must not print a stray argument

---
 include/stdex/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 7a81877..2f2f9ca 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -69,7 +69,7 @@ namespace stdex
 			static_cast<unsigned int>(id.Data4[0]), static_cast<unsigned int>(id.Data4[1]),
 			static_cast<unsigned int>(id.Data4[2]), static_cast<unsigned int>(id.Data4[3]), static_cast<unsigned int>(id.Data4[4]), static_cast<unsigned int>(id.Data4[5]), static_cast<unsigned int>(id.Data4[6]), static_cast<unsigned int>(id.Data4[7]));
 #else
-		swprintf(str, uuid_str_max, L"{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}", NULL,
+		swprintf(str, uuid_str_max, L"{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}",
 			*reinterpret_cast<const uint32_t*>(&id[0]),
 			static_cast<unsigned int>(*reinterpret_cast<const uint16_t*>(&id[4])),
 			static_cast<unsigned int>(*reinterpret_cast<const uint16_t*>(&id[6])),
-- 
2.43.0


From 2ff39b3eba5372034c0430de94f7994fdff63ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 070/137] fix: strtouuid() must require the last dash

Any character was accepted instead, and text ending there was read past its end.
---
 include/stdex/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 2f2f9ca..1f4d384 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -146,7 +146,7 @@ namespace stdex
 #endif
 		i += j;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
-		if (i >= count && str[i] != '-') return false;
+		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-- 
2.43.0


From e088026cca3cd8a4825b61918286a659978298a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:49 +0000
Subject: [PATCH 071/137] fix: parse_minisig() must not skip a last line
 without a line break

---
 include/stdex/minisign.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/minisign.hpp b/include/stdex/minisign.hpp
index 987535e..db9cea8 100644
--- a/include/stdex/minisign.hpp
+++ b/include/stdex/minisign.hpp
@@ -106,7 +106,7 @@ namespace stdex
 			std::string line;
 			for (;;) {
 				minisig.readln(line);
-				if (!minisig.ok())
+				if (minisig.state() == stdex::stream::state_t::fail || (!minisig.ok() && line.empty()))
 					break;
 				if (line.empty() ||
 					untrusted_comment.match(line.data(), 0, line.size()))
-- 
2.43.0


From 93390d570cdd0492185b5a19555360390498effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 072/137] fix: scoped_executor must keep the lambda it executes
 when exiting the scope

It kept a reference to a lambda that is gone by the end of the statement which defines
the scoped_executor. Also, include what std::forward() needs.
---
 include/stdex/scoped_executor.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stdex/scoped_executor.hpp b/include/stdex/scoped_executor.hpp
index 7819367..77f6ea3 100644
--- a/include/stdex/scoped_executor.hpp
+++ b/include/stdex/scoped_executor.hpp
@@ -6,6 +6,7 @@
 #pragma once
 
 #include "compat.hpp"
+#include <utility>
 
 namespace stdex
 {
@@ -18,7 +19,10 @@ namespace stdex
 	template <typename F_init, typename F_done>
 	class scoped_executor
 	{
-		F_done&& m_done;
+		F_done m_done;
+
+		scoped_executor(const scoped_executor&) = delete;
+		scoped_executor& operator=(const scoped_executor&) = delete;
 
 	public:
 		///
-- 
2.43.0


From 3c66f05e75fbd36342b1b44572fe7f0d1afd1a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 073/137] fix: aosn_date must convert dates before the year 1

The day zero of aosn_date is in the year -4713, but division truncating towards zero
spoiled conversion of dates before 1 March 0000. Count from the year -4800 instead, which is
a multiple of 400 years earlier.
---
 include/stdex/chrono.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index f43c97f..55b40df 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -151,18 +151,18 @@ namespace stdex {
 				int32_t mtmp, ytmp;
 				if (month > 2) {
 					mtmp = month - 3;
-					ytmp = year;
+					ytmp = year + 4800;
 				}
 				else {
 					mtmp = month + 9;
-					ytmp = year - 1;
+					ytmp = year + 4800 - 1;
 				}
 				int32_t ctmp = (ytmp / 100);
 				int32_t dtmp = ytmp - (100 * ctmp);
 				int32_t result1 = 146097L * ctmp / 4;
 				int32_t result2 = (1461 * dtmp) / 4;
 				int32_t result3 = (153 * mtmp + 2) / 5;
-				return time_point(duration(static_cast<int32_t>(result1) + day + result2 + 1721119L + result3));
+				return time_point(duration(static_cast<int32_t>(result1) + day + result2 - 32045L + result3));
 			}
 
 			///
@@ -170,7 +170,7 @@ namespace stdex {
 			///
 			static void to_dmy(_In_ const time_point tp, _Out_opt_ uint8_t* day, _Out_opt_ uint8_t* month, _Out_opt_ int32_t* year) noexcept
 			{
-				int32_t mtmp = tp.time_since_epoch().count() - 1721119L;
+				int32_t mtmp = tp.time_since_epoch().count() + 32045L;
 				int32_t yr = (4 * mtmp - 1) / 146097L;
 				mtmp = 4 * mtmp - 1 - 146097L * yr;
 				int32_t da = mtmp / 4;
@@ -189,7 +189,7 @@ namespace stdex {
 				}
 				if (day) *day = static_cast<uint8_t>(da);
 				if (month) *month = static_cast<uint8_t>(mo);
-				if (year) *year = yr;
+				if (year) *year = yr - 4800;
 			}
 
 			///
-- 
2.43.0


From d9411cf84965036211abb62cbec7c8a6f55be08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 074/137] fix: search() leaves a stale interval when the range
 is empty

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 03e6f13..5ca6610 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -92,6 +92,7 @@ namespace stdex
 				for (size_t i = start; i < end && text[i]; i++)
 					if (match(text, i, end, flags))
 						return true;
+				invalidate();
 				return false;
 			}
 
-- 
2.43.0


From 35aed2b1d8816eba5e6efdbd2a5ba96985375f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 075/137] fix: string parser reads past the end when the range
 is empty

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 5ca6610..c894978 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -833,7 +833,7 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				size_t
 					m = m_str.size(),
-					n = std::min<size_t>(end - start, m);
+					n = start < end ? std::min<size_t>(end - start, m) : 0;
 				bool r = ((flags & match_case_insensitive) ?
 					stdex::strnicmp(text + start, n, m_str.data(), m, this->m_locale) :
 					stdex::strncmp(text + start, n, m_str.data(), m)) == 0;
-- 
2.43.0


From a2dbb7dff58e531ab15fb3f59614c7defb5fe7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 076/137] fix: scientific numeral keeps a stale value when it
 fails to match

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index c894978..fadfd25 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2156,6 +2156,7 @@ namespace stdex
 					if (positive_exp_sign) positive_exp_sign->invalidate();
 					if (negative_exp_sign) negative_exp_sign->invalidate();
 					if (exponent) exponent->invalidate();
+					value = std::numeric_limits<double>::quiet_NaN();
 					this->interval.invalidate();
 					return false;
 				}
-- 
2.43.0


From 37721f84f3eaf50c60d894f092608af1576937b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 077/137] fix: monetary numeral dereferences absent sign
 parsers

---
 include/stdex/parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index fadfd25..8a25d03 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2265,17 +2265,17 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				this->interval.end = start;
 
-				if (positive_sign->match(text, this->interval.end, end, flags)) {
+				if (positive_sign && positive_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = positive_sign->interval.end;
 					if (negative_sign) negative_sign->invalidate();
 					if (special_sign) special_sign->invalidate();
 				}
-				else if (negative_sign->match(text, this->interval.end, end, flags)) {
+				else if (negative_sign && negative_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = negative_sign->interval.end;
 					if (positive_sign) positive_sign->invalidate();
 					if (special_sign) special_sign->invalidate();
 				}
-				else if (special_sign->match(text, this->interval.end, end, flags)) {
+				else if (special_sign && special_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = special_sign->interval.end;
 					if (positive_sign) positive_sign->invalidate();
 					if (negative_sign) negative_sign->invalidate();
-- 
2.43.0


From f70cf820fde22898c234b19f327d254554a82470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 078/137] fix: IPv6 address value is never filled in

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 8a25d03..a239047 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2708,6 +2708,7 @@ namespace stdex
 						goto error;
 					}
 					components[i].end = this->interval.end;
+					this->value.s6_words[i] = (uint16_t)x;
 					HE2BE(reinterpret_cast<uint16_t&>(this->value.s6_words[i]));
 				}
 
-- 
2.43.0


From ac33f0f74febd9cd6c11d469c634177ced1f9edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 079/137] fix: IPv6 address with zero compaction includes a
 trailing colon

---
 include/stdex/parser.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index a239047..dfff585 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2643,6 +2643,7 @@ namespace stdex
 				size_t i, compaction_i = SIZE_MAX, compaction_start = start;
 				for (i = 0; i < 8; i++) {
 					bool is_empty = true;
+					size_t last_end = this->interval.end;
 
 					if (m_separator->match(text, this->interval.end, end, flags)) {
 						// : found
@@ -2657,6 +2658,7 @@ namespace stdex
 							}
 							else {
 								// More than one zero compaction
+								this->interval.end = last_end;
 								break;
 							}
 						}
@@ -2703,6 +2705,8 @@ namespace stdex
 					if (is_empty) {
 						if (compaction_i != SIZE_MAX) {
 							// Zero compaction active: no sweat.
+							if (i != compaction_i)
+								this->interval.end = last_end; // Colon not followed by digits is not a part of the address.
 							break;
 						}
 						goto error;
-- 
2.43.0


From 2413b06e5234338f3fb2ab33afba142d2efc8355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 080/137] fix: IPv6 zero compaction may not be added to eight
 groups

---
 include/stdex/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index dfff585..855efd5 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2641,7 +2641,7 @@ namespace stdex
 				memset(&value, 0, sizeof(value));
 
 				size_t i, compaction_i = SIZE_MAX, compaction_start = start;
-				for (i = 0; i < 8; i++) {
+				for (i = 0; i < (compaction_i == SIZE_MAX ? 8 : 7); i++) {
 					bool is_empty = true;
 					size_t last_end = this->interval.end;
 
@@ -2655,6 +2655,8 @@ namespace stdex
 								compaction_i = i;
 								compaction_start = m_separator->interval.start;
 								this->interval.end = m_separator->interval.end;
+								if (i == 7)
+									break;
 							}
 							else {
 								// More than one zero compaction
-- 
2.43.0


From cb19564d99f82b8b76150ba41a02e4f88de34e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 081/137] fix: username without a password is not recognized in
 ftp URLs

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 855efd5..24f3a26 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -3555,7 +3555,7 @@ namespace stdex
 							// Username and password
 							this->interval.end = m_at->interval.end;
 						}
-						else if (m_at->match(text, this->interval.end, end, flags)) {
+						else if (m_at->match(text, username->interval.end, end, flags)) {
 							// Username only
 							this->interval.end = m_at->interval.end;
 							password->invalidate();
-- 
2.43.0


From 97b00530823e02f095cb84760ccac21b8f59aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 082/137] fix: emoticon leaves the hit offset of a mouth that
 did not match

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 24f3a26..c557bb1 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -3945,6 +3945,7 @@ namespace stdex
 						for (this->interval.end = mouth->interval.end; mouth->match(text, this->interval.end, end, flags) && mouth->hit_offset == hit_offset; this->interval.end = mouth->interval.end);
 						mouth->interval.start = start_mouth;
 						mouth->interval.end = this->interval.end;
+						mouth->hit_offset = hit_offset;
 						this->interval.start = start;
 						return true;
 					}
@@ -3957,6 +3958,7 @@ namespace stdex
 						if (nose) nose->invalidate();
 						mouth->interval.start = start_mouth;
 						mouth->interval.end = this->interval.end;
+						mouth->hit_offset = hit_offset;
 						this->interval.start = start;
 						return true;
 					}
-- 
2.43.0


From 0e88d75ef5ba111386293765274b534237b8487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 083/137] fix: phone number dereferences absent parenthesis
 parsers

---
 include/stdex/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index c557bb1..5b453fa 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -4534,8 +4534,8 @@ namespace stdex
 
 				this->interval.end = start;
 				value.clear();
-				m_lparenthesis->invalidate();
-				m_rparenthesis->invalidate();
+				if (m_lparenthesis) m_lparenthesis->invalidate();
+				if (m_rparenthesis) m_rparenthesis->invalidate();
 
 				if (m_plus_sign && m_plus_sign->match(text, this->interval.end, end, flags)) {
 					value.append(text + m_plus_sign->interval.start, text + m_plus_sign->interval.end);
-- 
2.43.0


From 83e7bd8f1379bff095f687b3b6c138736ce67d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 084/137] fix: creditor reference of letters overruns the
 normalization buffer

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 5b453fa..70b042c 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5012,7 +5012,7 @@ namespace stdex
 					this->reference[--j] = '0';
 
 				// Normalize creditor reference.
-				T normalized[47];
+				T normalized[49];
 				available = 0;
 				for (size_t i = 0; ; ++i) {
 					if (!this->reference[i]) {
-- 
2.43.0


From a7c2ce70411a9cde1cc14aca5aeae89d12123ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 085/137] fix: creditor reference includes the whitespace that
 follows it

---
 include/stdex/parser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 70b042c..3640747 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -4968,7 +4968,7 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				const auto& ctype = std::use_facet<std::ctype<T>>(this->m_locale);
 				const bool case_insensitive = flags & match_case_insensitive ? true : false;
-				size_t n, available, next;
+				size_t n, available, next, last_end = start;
 				uint32_t nominator;
 
 				this->interval.end = start;
@@ -4996,7 +4996,7 @@ namespace stdex
 							if (n >= _countof(reference) - 1)
 								goto error; // reference overflow
 							this->reference[n++] = chr;
-							this->interval.end++;
+							last_end = ++this->interval.end;
 						}
 						else
 							goto out;
@@ -5005,6 +5005,7 @@ namespace stdex
 			out:
 				if (!n)
 					goto error; // reference too short
+				this->interval.end = last_end;
 				this->reference[_countof(this->reference) - 1] = 0;
 				for (size_t i = n, j = _countof(this->reference) - 1; i;)
 					this->reference[--j] = this->reference[--i];
-- 
2.43.0


From b2b76d4aa8ac7523edcfe2500661c1a28896330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 086/137] fix: SI reference control digit of multiple parts

---
 include/stdex/parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 3640747..f2f99f2 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5455,7 +5455,7 @@ namespace stdex
 				for (size_t i = num_part1; i--; ++ponder)
 					nominator += static_cast<uint32_t>(part1[i] - '0') * ponder;
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
-				if (control == 10)
+				if (control >= 10)
 					control = 0;
 				return control == part2[num_part2 - 1] - '0';
 			}
@@ -5476,9 +5476,9 @@ namespace stdex
 				for (size_t i = num_part1; i--; ++ponder)
 					nominator += static_cast<uint32_t>(part1[i] - '0') * ponder;
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
-				if (control == 10)
+				if (control >= 10)
 					control = 0;
-				return control == part2[num_part3 - 1] - '0';
+				return control == part3[num_part3 - 1] - '0';
 			}
 
 			std::shared_ptr<basic_parser<T>> m_space;
-- 
2.43.0


From 645f2ccaed5d55f2f8d8c96b8298e08f3c074364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 087/137] fix: HTTP text excludes octets above 0x7f where char
 is signed

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index f2f99f2..4d118f7 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5668,7 +5668,7 @@ namespace stdex
 					this->interval.end = m_space.interval.end;
 					return true;
 				}
-				else if (this->interval.end < end && text[this->interval.end] && text[this->interval.end] >= 0x20) {
+				else if (this->interval.end < end && text[this->interval.end] && static_cast<unsigned char>(text[this->interval.end]) >= 0x20) {
 					this->interval.start = start;
 					this->interval.end++;
 					return true;
-- 
2.43.0


From f96bc585cda3a43d4984be21b53b61685021ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 088/137] fix: HTTP parameter without an equal sign is accepted
 and with space after it is not

---
 include/stdex/parser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 4d118f7..c6921b2 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5876,8 +5876,9 @@ namespace stdex
 				if (this->interval.end < end && text[this->interval.end] == '=')
 					this->interval.end++;
 				else
-					while (m_space.match(text, this->interval.end, end, flags))
-						this->interval.end = m_space.interval.end;
+					goto error;
+				while (m_space.match(text, this->interval.end, end, flags))
+					this->interval.end = m_space.interval.end;
 				if (value.match(text, this->interval.end, end, flags))
 					this->interval.end = value.interval.end;
 				else
-- 
2.43.0


From 3165bb1b3726ba8e041e17a7c41db3e53b63f6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 089/137] fix: HTTP URL path matches beyond the end of the text

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index c6921b2..3bd5e09 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6186,7 +6186,7 @@ namespace stdex
 				this->interval.end = start;
 				segments.clear();
 				stdex_assert(text || this->interval.end >= end);
-				if (this->interval.end < end && text[this->interval.end] != '/')
+				if (this->interval.end >= end || text[this->interval.end] != '/')
 					goto error;
 				this->interval.end++;
 				s.match(text, this->interval.end, end, flags);
-- 
2.43.0


From 8a016bc35f387ebb53e62b18f4b778d253f2bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 090/137] fix: HTTP URL parameter reads and matches beyond the
 end of the text

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 3bd5e09..c387038 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6261,7 +6261,7 @@ namespace stdex
 					name.end = this->interval.end;
 				else
 					goto error;
-				if (text[this->interval.end] == '=') {
+				if (this->interval.end < end && text[this->interval.end] == '=') {
 					this->interval.end++;
 					value.start = this->interval.end;
 					for (;;) {
-- 
2.43.0


From 0d47a25df8598303759720570de0b47893618e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 091/137] fix: HTTP weighted value keeps the weight of the
 previous match

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index c387038..19cabaf 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6578,6 +6578,7 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				size_t konec_vrednosti;
 				this->interval.end = start;
+				factor.invalidate();
 				if (asterisk.match(text, this->interval.end, end, flags)) {
 					this->interval.end = konec_vrednosti = asterisk.interval.end;
 					value.invalidate();
-- 
2.43.0


From a5ef9b9b33a092573afa6994352f66e431a0c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 092/137] fix: HTTP agent keeps the version of the previous
 match

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 19cabaf..b566661 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6780,6 +6780,8 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				this->interval.end = start;
 				type.start = this->interval.end;
+				version.start = 1;
+				version.end = 0;
 				for (;;) {
 					if (this->interval.end < end && text[this->interval.end]) {
 						if (text[this->interval.end] == '/') {
-- 
2.43.0


From 3b578f29e34aad120efd405980014146e2834937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 093/137] fix: escaped backslash before the closing quote of a
 CSS string

---
 include/stdex/parser.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index b566661..7ebbca4 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7539,9 +7539,9 @@ namespace stdex
 						}
 						if (this->interval.end + 1 < end &&
 							text[this->interval.end] == '\\' &&
-							(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+							text[this->interval.end + 1])
 						{
-							// Escaped quote
+							// Escaped character
 							this->interval.end = this->interval.end + 2;
 						}
 						else
@@ -7618,9 +7618,9 @@ namespace stdex
 							}
 							if (this->interval.end + 1 < end &&
 								text[this->interval.end] == '\\' &&
-								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+								text[this->interval.end + 1])
 							{
-								// Escaped quote
+								// Escaped character
 								this->interval.end = this->interval.end + 2;
 							}
 							else
@@ -7732,9 +7732,9 @@ namespace stdex
 							}
 							if (this->interval.end + 1 < end &&
 								text[this->interval.end] == '\\' &&
-								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+								text[this->interval.end + 1])
 							{
-								// Escaped quote
+								// Escaped character
 								this->interval.end = this->interval.end + 2;
 							}
 							else
-- 
2.43.0


From 750c5ae61be7d34493cae7cc4191516a7ff370b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:38 +0000
Subject: [PATCH 094/137] fix: HTML tag parser never ends on '/>' in an ending
 tag or declaration

---
 include/stdex/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 7ebbca4..1f83b19 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -8221,7 +8221,9 @@ namespace stdex
 
 						// Attributes follow...
 						html_attribute* a = nullptr;
-						if (this->m_ident.match(text, this->interval.end, end, flags)) {
+						if (this->m_ident.match(text, this->interval.end, end, flags) &&
+							(!this->m_ident.interval.empty() || text[this->interval.end] == '='))
+						{
 							this->attributes.push_back(std::move(html_attribute{ this->m_ident.interval }));
 							a = &this->attributes.back();
 							stdex_assert(a);
-- 
2.43.0


From 3eaa570dce4fe839eed6cd1b8d4d477879d5e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 095/137] fix: text before a marked section is lost

---
 include/stdex/html.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 5657416..8b256b5 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1706,6 +1706,8 @@ namespace stdex
 						else
 							m_num_valid_conditions++;
 
+						if (m_num_parsed < i)
+							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));
 						i = m_num_parsed = m_condition_start.interval.end;
 						continue;
 					}
-- 
2.43.0


From 211289d26a8563f90d53d00c67cf2732316b8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 096/137] fix: CDATA section is also counted as a valid
 condition

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 8b256b5..11b627f 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1699,7 +1699,7 @@ namespace stdex
 							m_is_cdata = true;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "RCDATA", SIZE_MAX) == 0)
 							m_is_rcdata = true;
-						if (m_num_invalid_conditions)
+						else if (m_num_invalid_conditions)
 							m_num_invalid_conditions++;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "IGNORE", SIZE_MAX) == 0)
 							m_num_invalid_conditions++;
-- 
2.43.0


From d50d0544a2bdba2840afa36bfa19625654554ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 097/137] fix: HTML parser dereferences null on unclosed
 non-localizable element

---
 include/stdex/html.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 11b627f..205e0f9 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2539,23 +2539,24 @@ namespace stdex
 							{
 								// Non-localizable
 								auto s_end = s_el_start->end;
-								stdex_assert(s_end);
+								// Elements not ended before the end of document extend to the end of it.
+								auto content_end = s_end ? s_end->interval.start : m_document.source().size();
 
-								if (s->interval.end < s_end->interval.start) {
+								if (s->interval.end < content_end && m_offset != end) {
 									if (s_el_start->code != element_t::style) {
 										rel.from = s->interval.start;
 										token->mapping.push_back(rel);
 										rel.to += append_token(std::move(std::unique_ptr<text_token<T, TR, AX>>(
 											new text_token<T, TR, AX>(
 												token_t::complete,
-												m_source + s->interval.end, s_end->interval.start - s->interval.end,
+												m_source + s->interval.end, content_end - s->interval.end,
 												0,
 												m_offset->get()))),
 											token->text);
 									}
 									else {
 										// Partially parse CSS. It may contain URLs we need to make absolute.
-										auto t = parse_css(s->interval.end, s_end->interval.start);
+										auto t = parse_css(s->interval.end, content_end);
 										stdex_assert(t);
 										rel.from = s->interval.start;
 										token->mapping.push_back(rel);
-- 
2.43.0


From 0a2434263ee2b0e96b4373fa1e6900b7e27578cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 098/137] fix: elements ended by the end of an outer element
 have no end

---
 include/stdex/html.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 205e0f9..9b08844 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1815,7 +1815,8 @@ namespace stdex
 								{
 									e->start = starting_tag;
 									e->parent = starting_tag->parent;
-									starting_tag->end = e.get();
+									for (size_t k = m_element_stack.size(); k-- > j; )
+										m_element_stack[k]->end = e.get();
 									m_element_stack.resize(j);
 									break;
 								}
-- 
2.43.0


From 2415748906d2b0451263e587fc2abb62c583af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 099/137] fix: merging token lists never adds any token

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 9b08844..5cc39bb 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2367,7 +2367,7 @@ namespace stdex
 			{
 				for (auto i2 = b.begin(); i2 != b.end(); ++i2) {
 					auto t2 = *i2;
-					for (auto i1 = a.begin(); i1 != a.end(); ++i1) {
+					for (auto i1 = a.begin(); ; ++i1) {
 						if (i1 == a.end()) {
 							a.push_back(t2);
 							break;
-- 
2.43.0


From 04760044b6a5bd08751a58f01cbcc9ec5e710b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 100/137] fix: unescaping an URL reads past the end

---
 include/stdex/html.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 5cc39bb..aed6c62 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -250,11 +250,13 @@ namespace stdex
 					i++;
 
 					char chr;
-					if ('0' <= src[i] && src[i] <= '9') chr = static_cast<char>((src[i++] - '0') << 4);
+					if (i >= num_chars) { dst += '%'; continue; }
+					else if ('0' <= src[i] && src[i] <= '9') chr = static_cast<char>((src[i++] - '0') << 4);
 					else if ('A' <= src[i] && src[i] <= 'F') chr = static_cast<char>((src[i++] - 'A' + 10) << 4);
 					else if ('a' <= src[i] && src[i] <= 'f') chr = static_cast<char>((src[i++] - 'a' + 10) << 4);
 					else { dst += '%'; continue; }
-					if ('0' <= src[i] && src[i] <= '9') chr |= static_cast<char>((src[i++] - '0'));
+					if (i >= num_chars) { dst += '%'; dst += src[i - 1]; continue; }
+					else if ('0' <= src[i] && src[i] <= '9') chr |= static_cast<char>((src[i++] - '0'));
 					else if ('A' <= src[i] && src[i] <= 'F') chr |= static_cast<char>((src[i++] - 'A' + 10));
 					else if ('a' <= src[i] && src[i] <= 'f') chr |= static_cast<char>((src[i++] - 'a' + 10));
 					else { dst += '%'; dst += src[i - 1]; continue; }
-- 
2.43.0


From 25a3f7be7b9e30d5aa1d6af07b71de18eb2ba209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 101/137] fix: unescaping CSS never ends on a trailing
 backslash

---
 include/stdex/html.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index aed6c62..b9ded72 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -393,9 +393,9 @@ namespace stdex
 		{
 			stdex_assert(src || !num_chars);
 			for (size_t i = 0; i < num_chars && src[i];) {
-				if (src[i] != '\\')
+				if (src[i] != '\\' || i + 1 >= num_chars || !src[i + 1])
 					dst += src[i++];
-				else if (i + 1 < num_chars) {
+				else {
 					i++;
 
 					switch (src[i]) {
-- 
2.43.0


From 88115d3c19954f27aecc2549ffc3cc717970f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 102/137] fix: unescaping CSS keeps the space after an escape
 of six digits

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index b9ded72..3d5616e 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -436,7 +436,7 @@ namespace stdex
 
 						dst += static_cast<T>(chr);
 
-						if (i < end && src[i] == ' ') {
+						if (i < num_chars && src[i] == ' ') {
 							// Skip space after `\nnnn`.
 							i++;
 						}
-- 
2.43.0


From d4051e8febcf57de1bf1086231439c159e28688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:45 +0000
Subject: [PATCH 103/137] fix: SGML parsers read a numeric entity from the
 stack of a function that has returned

---
 include/stdex/sgml.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index d14593a..95c86f2 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -80,8 +80,10 @@ namespace stdex
 
 	inline const utf32_t* utf32_to_wstr(_In_opt_z_ const utf32_t* str, utf32_t* buf)
 	{
-		_Unreferenced_(buf);
-		return str;
+		if (!str)
+			return nullptr;
+		for (size_t i = 0; (buf[i] = str[i]) != 0; ++i);
+		return buf;
 	}
 
 	template <class T>
-- 
2.43.0


From ed30413e642cc993f3e0745c200903abfc59d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:34 +0000
Subject: [PATCH 104/137] fix: IPv4 and IPv6 address values are not in network
 byte order

---
 include/stdex/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 1f83b19..1036ee9 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2444,7 +2444,7 @@ namespace stdex
 				if (i < 4)
 					goto error;
 
-				HE2BE(reinterpret_cast<uint32_t&>(value.s_addr));
+				value.s_addr = HE2BE(static_cast<uint32_t>(value.s_addr));
 				this->interval.start = start;
 				return true;
 
@@ -2715,7 +2715,7 @@ namespace stdex
 					}
 					components[i].end = this->interval.end;
 					this->value.s6_words[i] = (uint16_t)x;
-					HE2BE(reinterpret_cast<uint16_t&>(this->value.s6_words[i]));
+					this->value.s6_words[i] = HE2BE(static_cast<uint16_t>(this->value.s6_words[i]));
 				}
 
 				if (compaction_i != SIZE_MAX) {
-- 
2.43.0


From 36ef831edade0d5f12978d2358f6081d1028733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:16 +0000
Subject: [PATCH 105/137] fix: JSON surrogate pairs are not combined to the
 character they stand for

---
 include/stdex/parser.hpp | 44 +++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 1036ee9..a998bb0 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7304,22 +7304,46 @@ namespace stdex
 								m_hex->interval.size() == 4 /* JSON requests 4-digit Unicode sequneces: \u.... */)
 							{
 								stdex_assert(m_hex->value <= 0xffff);
+								utf32_t chr = static_cast<utf32_t>(m_hex->value);
+								this->interval.end = m_hex->interval.end;
+								if (is_high_surrogate(static_cast<utf16_t>(chr)) &&
+									m_escape->match(text, this->interval.end, end, flags) &&
+									m_uni->match(text, m_escape->interval.end, end, flags) &&
+									m_hex->match(text, m_uni->interval.end, std::min(m_uni->interval.end + 4, end), flags | match_case_insensitive) &&
+									m_hex->interval.size() == 4 &&
+									is_low_surrogate(static_cast<utf16_t>(m_hex->value)))
+								{
+									const utf16_t pair[2] = { static_cast<utf16_t>(chr), static_cast<utf16_t>(m_hex->value) };
+									chr = surrogate_pair_to_ucs4(pair);
+									this->interval.end = m_hex->interval.end;
+								}
 								if (sizeof(T) == 1) {
-									if (m_hex->value > 0x7ff) {
-										value += (T)(0xe0 | ((m_hex->value >> 12) & 0x0f));
-										value += (T)(0x80 | ((m_hex->value >> 6) & 0x3f));
-										value += (T)(0x80 | (m_hex->value & 0x3f));
+									if (chr > 0xffff) {
+										value += (T)(0xf0 | ((chr >> 18) & 0x07));
+										value += (T)(0x80 | ((chr >> 12) & 0x3f));
+										value += (T)(0x80 | ((chr >> 6) & 0x3f));
+										value += (T)(0x80 | (chr & 0x3f));
 									}
-									else if (m_hex->value > 0x7f) {
-										value += (T)(0xc0 | ((m_hex->value >> 6) & 0x1f));
-										value += (T)(0x80 | (m_hex->value & 0x3f));
+									else if (chr > 0x7ff) {
+										value += (T)(0xe0 | ((chr >> 12) & 0x0f));
+										value += (T)(0x80 | ((chr >> 6) & 0x3f));
+										value += (T)(0x80 | (chr & 0x3f));
+									}
+									else if (chr > 0x7f) {
+										value += (T)(0xc0 | ((chr >> 6) & 0x1f));
+										value += (T)(0x80 | (chr & 0x3f));
 									}
 									else
-										value += (T)(m_hex->value & 0x7f);
+										value += (T)(chr & 0x7f);
+								}
+								else if (sizeof(T) == 2 && chr > 0xffff) {
+									utf16_t pair[2];
+									ucs4_to_surrogate_pair(pair, chr);
+									value += (T)pair[0];
+									value += (T)pair[1];
 								}
 								else
-									value += (T)m_hex->value;
-								this->interval.end = m_hex->interval.end;
+									value += (T)chr;
 								continue;
 							}
 							if (m_escape->match(text, m_escape->interval.end, end, flags)) {
-- 
2.43.0


From 6b42ad3469e55c2decc8a4fd7f5c085e931bdbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 106/137] fix: escaped parenthesis ends an unquoted CSS URI

---
 include/stdex/parser.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index a998bb0..0652bce 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7675,7 +7675,14 @@ namespace stdex
 								this->interval.end++;
 								return true;
 							}
-							if (ctype.is(ctype.space, text[this->interval.end]))
+							if (this->interval.end + 1 < end &&
+								text[this->interval.end] == '\\' &&
+								text[this->interval.end + 1])
+							{
+								// Escaped character
+								this->content.end = this->interval.end = this->interval.end + 2;
+							}
+							else if (ctype.is(ctype.space, text[this->interval.end]))
 								this->interval.end++;
 							else
 								this->content.end = ++this->interval.end;
-- 
2.43.0


From 73103d6ffdfb539f09015053b4d26a492b8822bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 107/137] fix: MIME charset includes the parameters that follow
 it

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 0652bce..635ef2f 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7895,6 +7895,7 @@ namespace stdex
 							this->charset.start = this->interval.end;
 							for (;;) {
 								if (this->interval.end >= end || !text[this->interval.end] ||
+									text[this->interval.end] == ';' ||
 									ctype.is(ctype.space, text[this->interval.end])) {
 									this->charset.end = this->interval.end;
 									break;
-- 
2.43.0


From 58e8f0617553e344a8cecc166ddb83bb3aa382dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:17 +0000
Subject: [PATCH 108/137] fix: marked section start extends past the end of a
 declaration

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 635ef2f..5dff022 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -8357,6 +8357,8 @@ namespace stdex
 							this->interval.end++;
 							return true;
 						}
+						if (text[this->interval.end] == '>')
+							break;
 						if (ctype.is(ctype.space, text[this->interval.end]))
 							this->interval.end++;
 						else
-- 
2.43.0


From 22bf463851de77411165bfea14fe6a55479afdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:17 +0000
Subject: [PATCH 109/137] fix: sections nested in an ignored section are not
 counted

---
 include/stdex/html.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 3d5616e..3829739 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1683,6 +1683,11 @@ namespace stdex
 							i = m_num_parsed = m_condition_end.interval.end;
 							continue;
 						}
+						if (m_condition_start.match(source, i, num_chars)) {
+							m_num_invalid_conditions++;
+							i = m_num_parsed = m_condition_start.interval.end;
+							continue;
+						}
 						goto next_char;
 					}
 
@@ -1701,8 +1706,6 @@ namespace stdex
 							m_is_cdata = true;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "RCDATA", SIZE_MAX) == 0)
 							m_is_rcdata = true;
-						else if (m_num_invalid_conditions)
-							m_num_invalid_conditions++;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "IGNORE", SIZE_MAX) == 0)
 							m_num_invalid_conditions++;
 						else
-- 
2.43.0


From d666c11f88bf3b767dd77fc65e761d015059028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:17 +0000
Subject: [PATCH 110/137] fix: value of an entity includes its quotes

---
 include/stdex/html.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 3829739..5921cac 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1840,7 +1840,18 @@ namespace stdex
 								{
 									std::unique_ptr<entity<T, TR, AX>> e(new entity<T, TR, AX>());
 									e->name = m_tag.attributes[2].name;
-									e->value = std::move(replace_entities(source + m_tag.attributes[3].name.start, m_tag.attributes[3].name.size()));
+									stdex::interval<size_t> value = m_tag.attributes[3].name;
+									T quote = source[value.start];
+									if (quote == '\"' || quote == '\'') {
+										for (size_t j = value.start + 1; j < i; j++) {
+											if (source[j] == quote) {
+												value.start++;
+												value.end = j;
+												break;
+											}
+										}
+									}
+									e->value = std::move(replace_entities(source + value.start, value.size()));
 									m_entities.push_back(std::move(e));
 								}
 
-- 
2.43.0


From 50355fdde749464ac51d58aca2f006d73c1da648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:17 +0000
Subject: [PATCH 111/137] fix: HTML parser drops the markers of a CDATA section

---
 include/stdex/html.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 5921cac..5a00a89 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2611,8 +2611,24 @@ namespace stdex
 						token->text_type |= has_tokens;
 						++m_offset;
 					}
+					else if (s->type == stdex::parser::html_sequence_t::CDATA || s->type == stdex::parser::html_sequence_t::PCDATA) {
+						// The sequence covers section content only. Without the markers, the content would become markup.
+						static const char cdata_start[] = "<![CDATA[", rcdata_start[] = "<![RCDATA[", section_end[] = "]]>";
+						std::unique_ptr<text_token<T, TR, AX>> t(new text_token<T, TR, AX>(token_t::complete, nullptr, 0, 0, s.get()));
+						if (s->type == stdex::parser::html_sequence_t::CDATA)
+							t->text.append(cdata_start, cdata_start + _countof(cdata_start) - 1);
+						else
+							t->text.append(rcdata_start, rcdata_start + _countof(rcdata_start) - 1);
+						t->text.append(m_source + s->interval.start, s->interval.size());
+						t->text.append(section_end, section_end + _countof(section_end) - 1);
+						rel.from = s->interval.start;
+						token->mapping.push_back(rel);
+						rel.to += append_token(std::move(t), token->text);
+						token->text_type |= has_tokens;
+						++m_offset;
+					}
 					else {
-						// Declaration, instruction, (P)CDATA section, comment...
+						// Declaration, instruction, comment...
 						rel.from = s->interval.start;
 						token->mapping.push_back(rel);
 						rel.to += append_token(std::move(std::unique_ptr<text_token<T, TR, AX>>(
-- 
2.43.0


From 79279c115fb8bacbd8ebeb5d0faff398ada87995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:17 +0000
Subject: [PATCH 112/137] fix: tag split between chunks is parsed differently

---
 include/stdex/html.hpp | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 5a00a89..240cf4b 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1660,8 +1660,19 @@ namespace stdex
 			{
 				stdex_assert(source || !num_chars);
 				m_source.append(source, stdex::strnlen(source, num_chars));
-				source = m_source.data();
-				num_chars = m_source.size();
+				parse_source(false);
+			}
+
+		protected:
+			///
+			/// Parses appended HTML source code
+			///
+			/// \param[in] final  No more HTML source code is to be appended. When `false`, parsing stops at the tag that might be continued in the next chunk.
+			///
+			void parse_source(_In_ bool final)
+			{
+				const T* source = m_source.data();
+				size_t num_chars = m_source.size();
 
 				for (size_t i = m_num_parsed; i < num_chars;) {
 					if (m_is_cdata || m_is_rcdata) {
@@ -1724,6 +1735,8 @@ namespace stdex
 							m_tag.type == stdex::parser::html_sequence_t::element_end &&
 							element::element_code(source + m_tag.name.start, m_tag.name.size()) == parent->code)
 						{
+							if (!final && is_quote_open())
+								break;
 							if (m_num_parsed < i)
 								m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, parent))));
 							i = m_num_parsed = m_tag.interval.end;
@@ -1738,6 +1751,8 @@ namespace stdex
 					}
 
 					if (m_tag.match(source, i, num_chars)) {
+						if (!final && is_quote_open())
+							break;
 						if (m_num_parsed < i)
 							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));
 						i = m_num_parsed = m_tag.interval.end;
@@ -1871,6 +1886,10 @@ namespace stdex
 
 						continue;
 					}
+					if (!final && source[i] == '<') {
+						// Tag has not been completed yet.
+						break;
+					}
 
 				next_char:
 					if (m_any_char.match(source, i, num_chars)) {
@@ -1882,11 +1901,30 @@ namespace stdex
 				}
 			}
 
+			///
+			/// Is there an attribute value with a missing ending quote in the last matched tag?
+			///
+			bool is_quote_open() const
+			{
+				for (auto& a : m_tag.attributes) {
+					if (a.name.empty() ||
+						(m_source[a.name.start] != '\"' && m_source[a.name.start] != '\''))
+						continue;
+					size_t i = a.name.start;
+					for (; i > m_tag.interval.start && stdex::isspace(m_source[i - 1]); i--);
+					if (i > m_tag.interval.start && m_source[i - 1] == '=')
+						return true;
+				}
+				return false;
+			}
+
+		public:
 			///
 			/// Finalizes document when no more appending is planned
 			///
 			void finalize()
 			{
+				parse_source(true);
 				size_t i = m_source.size();
 				if (m_num_parsed < i)
 					m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));
-- 
2.43.0


From bde3975d1a4e3e0ccfce5492100ca371b8f51a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 113/137] fix: HTML text mapping counts preceding text twice

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 240cf4b..71bc5a6 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2521,7 +2521,7 @@ namespace stdex
 					if (s->type == stdex::parser::html_sequence_t::text) {
 						rel.from = s->interval.start;
 						token->mapping.push_back(rel);
-						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, rel, &token->mapping);
+						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, stdex::mapping<size_t>(s->interval.start, 0), &token->mapping);
 						rel.to = token->text.size();
 						if (!(token->text_type & has_text) &&
 							!stdex::isblank(m_source + s->interval.start, s->interval.size()))
-- 
2.43.0


From 18e72550beb9297681258d2a38ee2e3f9149471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 114/137] fix: quotes in HTML attributes are not escaped when
 linking

---
 include/stdex/html.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 71bc5a6..61970f1 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2130,6 +2130,7 @@ namespace stdex
 			has_text = 1 << 1,   ///< Token text contains text
 			is_title = 1 << 2,   ///< Token text contains title text
 			is_bullet = 1 << 3,  ///< Token text contains bullet text
+			is_attribute = 1 << 4, ///< Token text contains value of an element attribute
 		};
 
 		///
@@ -2309,7 +2310,10 @@ namespace stdex
 							}
 						}
 						else if (t->text_type & has_text) {
-							escape_min(source, root[i]);
+							if (t->text_type & is_attribute)
+								escape(source, &root[i], 1);
+							else
+								escape_min(source, root[i]);
 							i++;
 						}
 						else
@@ -2318,7 +2322,10 @@ namespace stdex
 				}
 				else if (t->text_type & has_text) {
 					// Token contains no references to other tokens. But, it does contain text that requires escaping.
-					escape_min(source, t->text.data(), t->text.size());
+					if (t->text_type & is_attribute)
+						escape(source, t->text.data(), t->text.size());
+					else
+						escape_min(source, t->text.data(), t->text.size());
 				}
 				else
 					source += t->text;
@@ -2563,7 +2570,7 @@ namespace stdex
 									std::unique_ptr<text_token<T, TR, AX>> t_value(new text_token<T, TR, AX>(
 										token_t::complete,
 										nullptr, 0,
-										has_text | is_title,
+										has_text | is_title | is_attribute,
 										s.get()));
 									stdex::mapping<size_t> rel_value(a.value.start, 0);
 									t_value->mapping.push_back(rel_value);
-- 
2.43.0


From 52913e861a35f686ea8dec3fefc0fc3035e7f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:00 +0000
Subject: [PATCH 115/137] fix: unquoted HTML attribute is broken by a value
 decoded or translated to text with spaces

---
 include/stdex/html.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 61970f1..a85fb5c 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2555,18 +2555,26 @@ namespace stdex
 									continue;
 
 								if (element_traits::is_uri(s_el->code, m_source + a.name.start, a.name.size())) {
+									const bool quoted = m_source[a.value.start - 1] == '\"' || m_source[a.value.start - 1] == '\'';
 									t->text.append(m_source + offset, a.value.start - offset);
+									if (!quoted)
+										t->text += '\"';
 									std::unique_ptr<url_token<T, TR, AX>> t_url(new url_token<T, TR, AX>(
 										nullptr, 0,
 										token_url_t::sgml,
 										s.get()));
 									stdex::sgml2strcat(t_url->url, m_source + a.value.start, a.value.size());
 									append_token(std::move(t_url), t->text);
+									if (!quoted)
+										t->text += '\"';
 									t->text_type |= has_tokens;
 									offset = a.value.end;
 								}
 								else if (element_traits::is_localizable(s_el->code, m_source + a.name.start, a.name.size())) {
+									const bool quoted = m_source[a.value.start - 1] == '\"' || m_source[a.value.start - 1] == '\'';
 									t->text.append(m_source + offset, a.value.start - offset);
+									if (!quoted)
+										t->text += '\"';
 									std::unique_ptr<text_token<T, TR, AX>> t_value(new text_token<T, TR, AX>(
 										token_t::complete,
 										nullptr, 0,
@@ -2576,6 +2584,8 @@ namespace stdex
 									t_value->mapping.push_back(rel_value);
 									stdex::sgml2strcat(t_value->text, m_source + a.value.start, a.value.size(), 0, rel_value, &t_value->mapping);
 									append_token(std::move(t_value), t->text);
+									if (!quoted)
+										t->text += '\"';
 									t->text_type |= has_tokens;
 									offset = a.value.end;
 								}
-- 
2.43.0


From c61313e8ce794b67d658fc426bb16e31c629b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:48 +0000
Subject: [PATCH 116/137] fix: CSS escaping leaves parentheses that end an
 unquoted URL

---
 include/stdex/html.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index a85fb5c..e96d16d 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -498,6 +498,8 @@ namespace stdex
 				case '\t': dst += "\\t"; break;
 				case '\"': dst += "\\\""; break;
 				case '\'': dst += "\\'"; break;
+				case '(': dst += "\\("; break;
+				case ')': dst += "\\)"; break;
 				default: dst += src[i]; break;
 				}
 			}
@@ -524,6 +526,8 @@ namespace stdex
 				case L'\t': dst += L"\\t"; break;
 				case L'\"': dst += L"\\\""; break;
 				case L'\'': dst += L"\\'"; break;
+				case L'(': dst += L"\\("; break;
+				case L')': dst += L"\\)"; break;
 				default: dst += src[i]; break;
 				}
 			}
-- 
2.43.0


From 249ce29cc4decbc0955da8ffa2ba79f6a4b842e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:32 +0000
Subject: [PATCH 117/137] fix: end tag of an unknown element ends any unknown
 element

---
 include/stdex/html.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index e96d16d..7e291e9 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1834,8 +1834,8 @@ namespace stdex
 							for (size_t j = m_element_stack.size(); j--; ) {
 								auto starting_tag = m_element_stack[j];
 								stdex_assert(starting_tag && starting_tag->type == stdex::parser::html_sequence_t::element_start);
-								if (starting_tag->code == e->code ||
-									(starting_tag->code == element_t::unknown && e->code == element_t::unknown && stdex::strnicmp(source + starting_tag->name.start, starting_tag->name.size(), source + e->name.start, e->name.size()) == 0))
+								if (starting_tag->code == e->code &&
+									(e->code != element_t::unknown || stdex::strnicmp(source + starting_tag->name.start, starting_tag->name.size(), source + e->name.start, e->name.size()) == 0))
 								{
 									e->start = starting_tag;
 									e->parent = starting_tag->parent;
-- 
2.43.0


From 65f8a2dd8f9bff720fb5e60a7bf2b9e2112aaffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 118/137] fix: digits of SGML numerals are counted in code
 units

---
 include/stdex/parser.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 5dff022..f70ae7c 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -1276,17 +1276,20 @@ namespace stdex
 		public:
 			basic_integer(_In_ const std::locale& locale = std::locale()) :
 				basic_parser<T>(locale),
-				value(0)
+				value(0),
+				digit_count(0)
 			{}
 
 			virtual void invalidate()
 			{
 				value = 0;
+				digit_count = 0;
 				basic_parser<T>::invalidate();
 			}
 
 		public:
 			size_t value; ///< Calculated value of the numeral
+			size_t digit_count; ///< Total number of digits in the numeral. 0 when not a positional numeral.
 		};
 
 		///
@@ -1329,7 +1332,7 @@ namespace stdex
 				_In_ int flags = match_default)
 			{
 				stdex_assert(text || start >= end);
-				for (this->interval.end = start, this->value = 0; this->interval.end < end && text[this->interval.end];) {
+				for (this->interval.end = start, this->value = 0, this->digit_count = 0; this->interval.end < end && text[this->interval.end];) {
 					size_t dig;
 					if (m_digit_0->match(text, this->interval.end, end, flags)) { dig = 0; this->interval.end = m_digit_0->interval.end; }
 					else if (m_digit_1->match(text, this->interval.end, end, flags)) { dig = 1; this->interval.end = m_digit_1->interval.end; }
@@ -1343,6 +1346,7 @@ namespace stdex
 					else if (m_digit_9->match(text, this->interval.end, end, flags)) { dig = 9; this->interval.end = m_digit_9->interval.end; }
 					else break;
 					this->value = this->value * 10 + dig;
+					this->digit_count++;
 				}
 				if (start < this->interval.end) {
 					this->interval.start = start;
@@ -1386,7 +1390,6 @@ namespace stdex
 				_In_ const std::shared_ptr<basic_set<T>>& separator,
 				_In_ const std::locale& locale = std::locale()) :
 				basic_integer<T>(locale),
-				digit_count(0),
 				has_separators(false),
 				m_digits(digits),
 				m_separator(separator)
@@ -1394,12 +1397,10 @@ namespace stdex
 
 			virtual void invalidate()
 			{
-				digit_count = 0;
 				has_separators = false;
 				basic_integer<T>::invalidate();
 			}
 
-			size_t digit_count; ///< Total number of digits in integer
 			bool has_separators; ///< Did integer have any separators?
 
 		protected:
@@ -1413,21 +1414,21 @@ namespace stdex
 				if (m_digits->match(text, start, end, flags)) {
 					// Leading part match.
 					this->value = m_digits->value;
-					digit_count = m_digits->interval.size();
+					this->digit_count = m_digits->digit_count;
 					has_separators = false;
 					this->interval.start = start;
 					this->interval.end = m_digits->interval.end;
-					if (m_digits->interval.size() <= 3) {
+					if (m_digits->digit_count <= 3) {
 						// Maybe separated with thousand separators?
 						size_t hit_offset = SIZE_MAX;
 						while (m_separator->match(text, this->interval.end, end, flags) &&
 							(hit_offset == SIZE_MAX || hit_offset == m_separator->hit_offset) && // All separators must be the same, no mixing.
 							m_digits->match(text, m_separator->interval.end, end, flags) &&
-							m_digits->interval.size() == 3)
+							m_digits->digit_count == 3)
 						{
 							// Thousand separator and three-digit integer followed.
 							this->value = this->value * 1000 + m_digits->value;
-							digit_count += 3;
+							this->digit_count += 3;
 							has_separators = true;
 							this->interval.end = m_digits->interval.end;
 							hit_offset = m_separator->hit_offset;
@@ -1437,6 +1438,7 @@ namespace stdex
 					return true;
 				}
 				this->value = 0;
+				this->digit_count = 0;
 				this->interval.invalidate();
 				return false;
 			}
@@ -1506,7 +1508,7 @@ namespace stdex
 				_In_ int flags = match_default)
 			{
 				stdex_assert(text || start >= end);
-				for (this->interval.end = start, this->value = 0; this->interval.end < end && text[this->interval.end];) {
+				for (this->interval.end = start, this->value = 0, this->digit_count = 0; this->interval.end < end && text[this->interval.end];) {
 					size_t dig;
 					if (m_digit_0->match(text, this->interval.end, end, flags)) { dig = 0; this->interval.end = m_digit_0->interval.end; }
 					else if (m_digit_1->match(text, this->interval.end, end, flags)) { dig = 1; this->interval.end = m_digit_1->interval.end; }
@@ -1526,6 +1528,7 @@ namespace stdex
 					else if (m_digit_15->match(text, this->interval.end, end, flags)) { dig = 15; this->interval.end = m_digit_15->interval.end; }
 					else break;
 					this->value = this->value * 16 + dig;
+					this->digit_count++;
 				}
 				if (start < this->interval.end) {
 					this->interval.start = start;
@@ -2185,7 +2188,7 @@ namespace stdex
 
 				value = (double)integer->value;
 				if (decimal->interval)
-					value += (double)decimal->value * pow(10.0, -(double)decimal->interval.size());
+					value += (double)decimal->value * pow(10.0, -(double)(decimal->digit_count ? decimal->digit_count : decimal->interval.size()));
 				if (negative_sign && negative_sign->interval)
 					value = -value;
 				if (exponent && exponent->interval) {
-- 
2.43.0


From 44a5fc101a6881aabb5785a78332652f9d95b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:40 +0000
Subject: [PATCH 119/137] fix: memory file keeps its content when there is no
 memory for a copy

---
 include/stdex/stream.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 5296c45..b5b6fe0 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3415,14 +3415,15 @@ namespace stdex
 			memory_file& operator=(_In_ const memory_file& other)
 			{
 				if (this != std::addressof(other)) {
-					*static_cast<basic_file*>(this) = other;
-					if (m_manage && m_data)
-						free(m_data);
-					m_data = reinterpret_cast<uint8_t*>(malloc(other.m_size));
-					if (!m_data) {
+					auto data = reinterpret_cast<uint8_t*>(malloc(other.m_size));
+					if (!data) {
 						m_state = state_t::fail;
 						throw std::bad_alloc();
 					}
+					*static_cast<basic_file*>(this) = other;
+					if (m_manage && m_data)
+						free(m_data);
+					m_data = data;
 					memcpy(m_data, other.m_data, other.m_size);
 					m_offset = other.m_offset;
 					m_size = other.m_size;
-- 
2.43.0


From 5d2e3cfb301345215e6295004542fe733968e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:06 +0000
Subject: [PATCH 120/137] fix: formatting that fails leaves the string as it
 was

---
 include/stdex/string.hpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 9fd96b4..759ee5f 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2698,22 +2698,29 @@ namespace stdex
 			throw std::runtime_error("failed to format string");
 #else
 		size_t offset = str.size();
-		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
-			if (count < 0) {
-				switch (errno) {
-				case EOVERFLOW: break;
-				case EINVAL: throw std::invalid_argument("invalid vsnprintf arguments");
-				case EILSEQ: throw std::runtime_error("encoding error");
-				default: throw std::runtime_error("failed to format string");
+		try {
+			for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
+				if (count < 0) {
+					switch (errno) {
+					case EOVERFLOW: break;
+					case EINVAL: throw std::invalid_argument("invalid vsnprintf arguments");
+					case EILSEQ: throw std::runtime_error("encoding error");
+					default: throw std::runtime_error("failed to format string");
+					}
+				}
+				// Allocate on heap and retry.
+				str.resize(offset + capacity);
+				count = vsnprintf(&str[offset], capacity, format, locale, arg);
+				if (0 <= count && static_cast<size_t>(count) < capacity) {
+					str.resize(offset + static_cast<size_t>(count));
+					return static_cast<size_t>(count);
 				}
 			}
-			// Allocate on heap and retry.
-			str.resize(offset + capacity);
-			count = vsnprintf(&str[offset], capacity, format, locale, arg);
-			if (0 <= count && static_cast<size_t>(count) < capacity) {
-				str.resize(offset + static_cast<size_t>(count));
-				return static_cast<size_t>(count);
-			}
+		}
+		catch (...) {
+			// Do not leave unfinished text behind.
+			str.resize(offset);
+			throw;
 		}
 #endif
 		return static_cast<size_t>(count);
-- 
2.43.0


From fdb31bc2024ea7e16122203e16f9c2f622f7c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:06 +0000
Subject: [PATCH 121/137] fix: formatting of time that fails leaves the string
 as it was

---
 include/stdex/string.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 759ee5f..0ef4294 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2856,15 +2856,22 @@ namespace stdex
 			return;
 		}
 		size_t offset = str.size();
-		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
-			// Allocate on heap and retry.
-			str.resize(offset + capacity);
-			count = strftime(&str[offset], capacity + 1, format_nonempty.c_str(), time, locale);
-			if (count) {
-				str.resize(offset + count - 1);
-				return;
+		try {
+			for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
+				// Allocate on heap and retry.
+				str.resize(offset + capacity);
+				count = strftime(&str[offset], capacity + 1, format_nonempty.c_str(), time, locale);
+				if (count) {
+					str.resize(offset + count - 1);
+					return;
+				}
 			}
 		}
+		catch (...) {
+			// Do not leave unfinished text behind.
+			str.resize(offset);
+			throw;
+		}
 	}
 
 	///
-- 
2.43.0


From 5dafe31b1678c199c85e3b740846b62a970ff42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:06 +0000
Subject: [PATCH 122/137] fix: charset conversion that runs out of memory does
 not spoil the next one

---
 include/stdex/unicode.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/stdex/unicode.hpp b/include/stdex/unicode.hpp
index c530d28..be780e4 100644
--- a/include/stdex/unicode.hpp
+++ b/include/stdex/unicode.hpp
@@ -307,12 +307,18 @@ namespace stdex
 				size_t output_size = sizeof(buf);
 				errno = 0;
 				iconv(m_handle, const_cast<char**>(reinterpret_cast<const char**>(&src)), &src_size, reinterpret_cast<char**>(&output), &output_size);
-				dst.append(buf, reinterpret_cast<T_to*>(reinterpret_cast<char*>(buf) + sizeof(buf) - output_size));
-				if (!errno)
+				int error = errno;
+				try {
+					dst.append(buf, reinterpret_cast<T_to*>(reinterpret_cast<char*>(buf) + sizeof(buf) - output_size));
+				}
+				catch (...) {
+					clear();
+					throw;
+				}
+				if (!error)
 					break;
-				if (errno == E2BIG)
+				if (error == E2BIG)
 					continue;
-				int error = errno;
 				clear();
 				throw std::system_error(error, std::system_category(), "iconv failed");
 			}
-- 
2.43.0


From 6396d4a8df03f8328249776c79136b818d0c8017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:20 +0000
Subject: [PATCH 123/137] fix: record data that could not be read for reasons
 other than the stream is reported

---
 include/stdex/idrec.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 2b4990d..0d00a93 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -521,7 +521,10 @@ namespace stdex {
 				{
 					stdex::stream::limiter limiter(stream, size, 0);
 					limiter >> r.data;
-					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ return stream;
+					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ {
+						if (stream.ok()) throw std::runtime_error("failed to read record data");
+						return stream;
+					}
 				}
 				if (!stream.ok()) _Unlikely_ return stream;
 
@@ -550,7 +553,10 @@ namespace stdex {
 				{
 					stdex::stream::limiter limiter(stream, size, 0);
 					limiter >> r.data;
-					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ return stream;
+					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ {
+						if (stream.ok()) throw std::runtime_error("failed to read record data");
+						return stream;
+					}
 					limiter.skip(limiter.read_limit);
 				}
 				if (!stream.ok()) _Unlikely_ return stream;
-- 
2.43.0


From 419fd0742762fd80824061d85a8d16bef6fd168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:20 +0000
Subject: [PATCH 124/137] fix: WAV content there is no memory for is reported

---
 include/stdex/wav.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 5be1949..af03088 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -134,6 +134,10 @@ namespace stdex
 				if (!dat.ok() || !tmp16) goto error7;
 				data.extra.seek(0);
 				data.extra.write_stream(dat, tmp16);
+				if (!data.extra.ok() && dat.state() != stdex::stream::state_t::fail) _Unlikely_ {
+					data.extra.truncate();
+					throw std::bad_alloc();
+				}
 				data.extra.truncate();
 
 				return dat;
@@ -172,6 +176,10 @@ namespace stdex
 			{
 				data.content.seek(0);
 				data.content.write_stream(dat);
+				if (!data.content.ok() && dat.state() != stdex::stream::state_t::fail) _Unlikely_ {
+					data.content.truncate();
+					throw std::bad_alloc();
+				}
 				data.content.truncate();
 				return dat;
 			}
-- 
2.43.0


From 1b61171ab9c437a7783d46e21c6987da63fbee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 125/137] fix: record too long for its size field is refused

---
 include/stdex/idrec.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 0d00a93..53afc3a 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -9,7 +9,9 @@
 #include "stream.hpp"
 #include <ios>
 #include <istream>
+#include <limits>
 #include <ostream>
+#include <stdexcept>
 
 namespace stdex {
 	namespace idrec {
@@ -231,8 +233,12 @@ namespace stdex {
 		std::streamoff close(_In_ std::ostream& stream, _In_ std::streamoff start)
 		{
 			std::streamoff end = stream.tellp();
+			if (stream.fail()) _Unlikely_ return (std::streamoff)-1;
+			auto length = end - start - sizeof(T_id) - sizeof(T_size);
+			if (length > (std::numeric_limits<T_size>::max)())
+				throw std::invalid_argument("record too long");
 			T_size
-				size      = static_cast<T_size>(end - start - sizeof(T_id) - sizeof(T_size)),
+				size      = static_cast<T_size>(length),
 				remainder = padding<T_size, N_align>(size);
 
 			if (remainder) {
@@ -263,11 +269,14 @@ namespace stdex {
 		stdex::stream::fpos_t close(_In_ stdex::stream::basic_file& stream, _In_ stdex::stream::fpos_t start)
 		{
 			auto end = stream.tell();
+			if (!stream.ok()) _Unlikely_ return stdex::stream::fpos_max;
+			auto length = end - start - sizeof(T_id) - sizeof(T_size);
+			if (length > (std::numeric_limits<T_size>::max)())
+				throw std::invalid_argument("record too long");
 			T_size
-				size      = static_cast<T_size>(end - start - sizeof(T_id) - sizeof(T_size)),
+				size      = static_cast<T_size>(length),
 				remainder = padding<T_size, N_align>(size);
 
-			if (!stream.ok()) _Unlikely_ return stdex::stream::fpos_max;
 			if (remainder) {
 				// Append padding.
 				static const char padding[N_align] = {};
-- 
2.43.0


From 2bd752642afb2076562ff5867b3862149cbccbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:01 +0000
Subject: [PATCH 126/137] fix: record there is no memory for is not dropped
 silently

---
 include/stdex/idrec.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 53afc3a..5283132 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -10,6 +10,7 @@
 #include <ios>
 #include <istream>
 #include <limits>
+#include <new>
 #include <ostream>
 #include <stdexcept>
 
@@ -472,9 +473,10 @@ namespace stdex {
 
 				stdex::stream::memory_file temp;
 				auto start = r.open(temp);
-				if (!temp.ok()) _Unlikely_ return stream;
+				if (!temp.ok()) _Unlikely_ throw std::bad_alloc();
 				temp << r.data;
-				r.close(temp, start);
+				if (r.close(temp, start) == stdex::stream::fpos_max) _Unlikely_
+					throw std::bad_alloc();
 				temp.seekbeg(0);
 				stream.write_stream(temp);
 
-- 
2.43.0


From 6b35e6a83fc95f710bcdf4ff39842b6c6e0343ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:07 +0000
Subject: [PATCH 127/137] fix: checks of the stream state can be turned off as
 documented

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index b5b6fe0..5b9089e 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -49,7 +49,7 @@
 #if !defined(CHECK_STREAM_STATE) && defined(RDAT_NE_PREVERJAJ_STANJA_VER)
 #define CHECK_STREAM_STATE 0
 #pragma message("RDAT_NE_PREVERJAJ_EOF_VER is deprecated. Use CHECK_STREAM_STATE=0 instead.")
-#else
+#elif !defined(CHECK_STREAM_STATE)
 #define CHECK_STREAM_STATE 1
 #endif
 
-- 
2.43.0


From 2c179018cc30e2238a2a9c12a34f50621c75f167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:39 +0000
Subject: [PATCH 128/137] fix: replicator does not end the program when a
 stream cannot be added

---
 include/stdex/stream.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 5b9089e..bab0359 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1112,7 +1112,13 @@ namespace stdex
 			///
 			void push_back(_In_ basic* source)
 			{
-				m_workers.push_back(std::unique_ptr<worker>(new worker(source)));
+				// Make room first: a worker that is running must not be left without a place on the list.
+				m_workers.push_back(nullptr);
+				try { m_workers.back().reset(new worker(source)); }
+				catch (...) {
+					m_workers.pop_back();
+					throw;
+				}
 			}
 
 			///
-- 
2.43.0


From f137b4673732c1eba653dd48d6cfe3cbacf2a04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:26 +0000
Subject: [PATCH 129/137] fix: cues that could not be read are not reported as
 read

---
 include/stdex/wav.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index af03088..f3c4206 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -549,16 +549,19 @@ namespace stdex
 						if (i && cue_less(cues[i], cues[i - 1]))
 							ordered = false;
 					}
+					if (_dat.state() == stdex::stream::state_t::fail) _Unlikely_ return false;
 					if (!ordered)
 						std::sort(cues.begin(), cues.end(), cue_less);
 					dat.seekbeg(end + stdex::idrec::padding<length_t, align>(size));
 				}
+				else if (dat.state() == stdex::stream::state_t::fail) _Unlikely_
+					return false;
 				else
 					break;
 			}
 
 			// Cues are loaded. Add other data.
-			dat.seekbeg(start);
+			if (dat.seekbeg(start) != start) _Unlikely_ return false;
 			while (dat.tell() < block_end) {
 				stdex::stream::fpos_t found_block_end;
 				if (find_first<list>(dat, *(const id_t*)"adtl", block_end, &found_block_end)) {
@@ -603,14 +606,17 @@ namespace stdex
 						}
 						else if (!stdex::idrec::ignore<length_t, align>(dat)) _Unlikely_
 							return false;
+						if (dat.state() == stdex::stream::state_t::fail) _Unlikely_ return false;
 					}
+					if (dat.state() == stdex::stream::state_t::fail) _Unlikely_ return false;
 				}
+				else if (dat.state() == stdex::stream::state_t::fail) _Unlikely_
+					return false;
 				else
 					break;
 			}
 
-			dat.seekbeg(start);
-			return true;
+			return dat.seekbeg(start) == start;
 		}
 
 		inline _Success_(return != 0) bool remove_cues(
-- 
2.43.0


From 263fe73cd5767f1a94cd63445bf632f7c473224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:29 +0000
Subject: [PATCH 130/137] fix: reserving more than memory can hold does not cut
 a memory file

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index bab0359..9358612 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3526,7 +3526,7 @@ namespace stdex
 					m_state = state_t::fail;
 					return;
 				}
-				size_t reserved = tight ? required : ((required + required / 4 + (default_block_size - 1)) / default_block_size) * default_block_size;
+				size_t reserved = tight || required > (SIZE_MAX - default_block_size) / 5 * 4 ? required : ((required + required / 4 + (default_block_size - 1)) / default_block_size) * default_block_size;
 				auto data = reinterpret_cast<uint8_t*>(realloc(m_data, reserved));
 				if (!data && reserved) _Unlikely_ {
 					m_state = state_t::fail;
-- 
2.43.0


From 206ec2e6b23de797b3b8a66cb564a4ed68e79bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:44 +0000
Subject: [PATCH 131/137] fix: character references in an HTML text are taken
 for token tags

---
 include/stdex/html.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 7e291e9..8e9799f 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2498,6 +2498,19 @@ namespace stdex
 				return n;
 			}
 
+			///
+			/// Replaces characters the document had as character references, that would be taken for token tags
+			///
+			/// \param[in,out] text    Text
+			/// \param[in    ] offset  Offset of the text to start replacing at
+			///
+			static void replace_tag_chars(_Inout_ std::basic_string<T, TR, AX>& text, _In_ size_t offset)
+			{
+				for (; offset < text.size(); ++offset)
+					if (text[offset] == static_cast<T>(token_tag_start) || text[offset] == static_cast<T>(token_tag_end))
+						text[offset] = static_cast<T>('\x1a');
+			}
+
 			///
 			/// Recursively parses HTML document
 			///
@@ -2532,7 +2545,9 @@ namespace stdex
 					if (s->type == stdex::parser::html_sequence_t::text) {
 						rel.from = s->interval.start;
 						token->mapping.push_back(rel);
+						const size_t offset = token->text.size();
 						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, stdex::mapping<size_t>(s->interval.start, 0), &token->mapping);
+						replace_tag_chars(token->text, offset);
 						rel.to = token->text.size();
 						if (!(token->text_type & has_text) &&
 							!stdex::isblank(m_source + s->interval.start, s->interval.size()))
@@ -2587,6 +2602,7 @@ namespace stdex
 									stdex::mapping<size_t> rel_value(a.value.start, 0);
 									t_value->mapping.push_back(rel_value);
 									stdex::sgml2strcat(t_value->text, m_source + a.value.start, a.value.size(), 0, rel_value, &t_value->mapping);
+									replace_tag_chars(t_value->text, 0);
 									append_token(std::move(t_value), t->text);
 									if (!quoted)
 										t->text += '\"';
-- 
2.43.0


From 45570bab88981d2db1fbf8903227a6dbfe78d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:05 +0000
Subject: [PATCH 132/137] fix: progress of a section overflows when the local
 range is large

---
 include/stdex/progress.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/stdex/progress.hpp b/include/stdex/progress.hpp
index b5c19c9..093def2 100644
--- a/include/stdex/progress.hpp
+++ b/include/stdex/progress.hpp
@@ -7,10 +7,13 @@
 
 #include "compat.hpp"
 #include "interval.hpp"
+#include "math.hpp"
 #include <atomic>
 #include <mutex>
 #include <chrono>
 #include <shared_mutex>
+#include <stdint.h>
+#include <type_traits>
 #include <vector>
 
 namespace stdex
@@ -316,10 +319,8 @@ namespace stdex
 		{
 			if (m_host) {
 				T size = m_local.size();
-				if (size != 0) {
-					// TODO: Implement with muldiv.
-					m_host->set(((value - m_local.start) * m_section.size() / size) + m_section.start);
-				}
+				if (size != 0)
+					m_host->set(scale(value - m_local.start, m_section.size(), size) + m_section.start);
 			}
 		}
 
@@ -342,6 +343,18 @@ namespace stdex
 			return m_host && m_host->cancel();
 		}
 
+	protected:
+		static T scale(_In_ T value, _In_ T section, _In_ T local)
+		{
+			// The product may overflow T.
+			if constexpr (!std::is_integral<T>::value)
+				return value * section / local;
+			else if constexpr (std::is_signed<T>::value)
+				return static_cast<T>(muldiv(static_cast<int64_t>(value), static_cast<int64_t>(section), static_cast<int64_t>(local)));
+			else
+				return static_cast<T>(muldiv(static_cast<uint64_t>(value), static_cast<uint64_t>(section), static_cast<uint64_t>(local)));
+		}
+
 	protected:
 		progress<T>* m_host;
 		interval<T> m_local, m_global, m_section;
-- 
2.43.0


From d61f30a3ca948e5478baaf0748429e70619130e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:11 +0000
Subject: [PATCH 133/137] fix: a moved socket forgets that it failed

---
 include/stdex/stream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 9358612..acb854d 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2449,7 +2449,9 @@ namespace stdex
 			socket& operator =(_In_ const socket& other);
 
 		public:
-			socket(_Inout_ socket&& other) noexcept : m_h(other.m_h)
+			socket(_Inout_ socket&& other) noexcept :
+				basic(other.m_state),
+				m_h(other.m_h)
 			{
 				other.m_h = stdex::invalid_socket;
 			}
@@ -2459,6 +2461,7 @@ namespace stdex
 				if (this != std::addressof(other)) {
 					if (m_h != stdex::invalid_socket)
 						closesocket(m_h);
+					m_state = other.m_state;
 					m_h = other.m_h;
 					other.m_h = stdex::invalid_socket;
 				}
-- 
2.43.0


From b36a898c2d65f3906d2653d3c018d26aef3691a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:38 +0000
Subject: [PATCH 134/137] fix: integers too large for their type are read as
 small ones

18446744073709551617.2.2024 was the first of February. Values out of range are
the largest one now, like everywhere else in the library.
---
 include/stdex/parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index f70ae7c..cbb78fa 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -1345,7 +1345,7 @@ namespace stdex
 					else if (m_digit_8->match(text, this->interval.end, end, flags)) { dig = 8; this->interval.end = m_digit_8->interval.end; }
 					else if (m_digit_9->match(text, this->interval.end, end, flags)) { dig = 9; this->interval.end = m_digit_9->interval.end; }
 					else break;
-					this->value = this->value * 10 + dig;
+					this->value = this->value <= (SIZE_MAX - dig) / 10 ? this->value * 10 + dig : SIZE_MAX;
 					this->digit_count++;
 				}
 				if (start < this->interval.end) {
@@ -1427,7 +1427,7 @@ namespace stdex
 							m_digits->digit_count == 3)
 						{
 							// Thousand separator and three-digit integer followed.
-							this->value = this->value * 1000 + m_digits->value;
+							this->value = this->value <= (SIZE_MAX - m_digits->value) / 1000 ? this->value * 1000 + m_digits->value : SIZE_MAX;
 							this->digit_count += 3;
 							has_separators = true;
 							this->interval.end = m_digits->interval.end;
@@ -1527,7 +1527,7 @@ namespace stdex
 					else if (m_digit_14->match(text, this->interval.end, end, flags)) { dig = 14; this->interval.end = m_digit_14->interval.end; }
 					else if (m_digit_15->match(text, this->interval.end, end, flags)) { dig = 15; this->interval.end = m_digit_15->interval.end; }
 					else break;
-					this->value = this->value * 16 + dig;
+					this->value = this->value <= (SIZE_MAX - dig) / 16 ? this->value * 16 + dig : SIZE_MAX;
 					this->digit_count++;
 				}
 				if (start < this->interval.end) {
-- 
2.43.0


From 3804493d4114a14ac96623ec00c83e05efa89661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:38 +0000
Subject: [PATCH 135/137] fix: zero with a large exponent is not a number

---
 include/stdex/parser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index cbb78fa..c0d2a6f 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2195,7 +2195,8 @@ namespace stdex
 					double e = (double)exponent->value;
 					if (negative_exp_sign && negative_exp_sign->interval)
 						e = -e;
-					value *= pow(10.0, e);
+					if (value != 0.0) // Zero times infinity is not a number.
+						value *= pow(10.0, e);
 				}
 
 				this->interval.start = start;
-- 
2.43.0


From b362e0a133ed585024107b631f9064a334ba6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:28 +0000
Subject: [PATCH 136/137] fix: largest integer is taken for a valid day and
 month

---
 include/stdex/parser.hpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index c0d2a6f..6c656f3 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -4134,7 +4134,7 @@ namespace stdex
 						if (m_separator->match(text, this->interval.end, end, flags)) {
 							for (this->interval.end = m_separator->interval.end; m_space->match(text, this->interval.end, end, space_match_flags); this->interval.end = m_space->interval.end);
 							if (month->match(text, this->interval.end, end, flags) &&
-								is_valid(SIZE_MAX, month->value))
+								is_valid(1, month->value))
 							{
 								if (day) day->invalidate();
 								this->interval.start = start;
@@ -4152,7 +4152,7 @@ namespace stdex
 						if (m_separator->match(text, this->interval.end, end, flags)) {
 							for (this->interval.end = m_separator->interval.end; m_space->match(text, this->interval.end, end, space_match_flags); this->interval.end = m_space->interval.end);
 							if (year->match(text, this->interval.end, end, flags) &&
-								is_valid(SIZE_MAX, month->value))
+								is_valid(1, month->value))
 							{
 								if (day) day->invalidate();
 								this->interval.start = start;
@@ -4222,15 +4222,6 @@ namespace stdex
 
 			static bool is_valid(size_t day, size_t month)
 			{
-				if (month == SIZE_MAX) {
-					// Default to January. This allows validating day only, as January has all 31 days.
-					month = 1;
-				}
-				if (day == SIZE_MAX) {
-					// Default to 1st day in month. This allows validating month only, as each month has 1st day.
-					day = 1;
-				}
-
 				switch (month) {
 				case 1:
 				case 3:
-- 
2.43.0


From ef90f50d7fe87d8503e99b53f277246f2b9c553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:17 +0000
Subject: [PATCH 137/137] fix: long weights of HTTP values overflow

---
 include/stdex/parser.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 6c656f3..3476a80 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6475,12 +6475,12 @@ namespace stdex
 				_In_ int flags = match_default)
 			{
 				stdex_assert(text || start >= end);
-				size_t celi_del = 0, decimalni_del = 0, decimalni_del_n = 1;
+				double celi_del = 0, decimalni_del = 0, decimalni_del_n = 1;
 				this->interval.end = start;
 				for (;;) {
 					if (this->interval.end < end && text[this->interval.end]) {
 						if ('0' <= text[this->interval.end] && text[this->interval.end] <= '9') {
-							celi_del = celi_del * 10 + static_cast<size_t>(text[this->interval.end] - '0');
+							celi_del = celi_del * 10 + static_cast<double>(text[this->interval.end] - '0');
 							this->interval.end++;
 						}
 						else if (text[this->interval.end] == '.') {
@@ -6488,8 +6488,10 @@ namespace stdex
 							for (;;) {
 								if (this->interval.end < end && text[this->interval.end]) {
 									if ('0' <= text[this->interval.end] && text[this->interval.end] <= '9') {
-										decimalni_del = decimalni_del * 10 + static_cast<size_t>(text[this->interval.end] - '0');
-										decimalni_del_n *= 10;
+										if (decimalni_del_n < 1e300) { // Further digits are insignificant.
+											decimalni_del = decimalni_del * 10 + static_cast<double>(text[this->interval.end] - '0');
+											decimalni_del_n *= 10;
+										}
 										this->interval.end++;
 									}
 									else
@@ -6507,7 +6509,7 @@ namespace stdex
 						break;
 				}
 				if (start < this->interval.end) {
-					value = (float)((double)celi_del + (double)decimalni_del / decimalni_del_n);
+					value = (float)(celi_del + decimalni_del / decimalni_del_n);
 					this->interval.start = start;
 					return true;
 				}
-- 
2.43.0

