From 1f7408f1a4fec7041c8f327af24c0f6f31b6a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 01/94] fix: a write after read_back must not use the cached
 writes of the old position

---
 tpie/compressed/stream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/compressed/stream.h b/tpie/compressed/stream.h
index e0bcf8c..8180e6b 100644
--- a/tpie/compressed/stream.h
+++ b/tpie/compressed/stream.h
@@ -475,6 +475,7 @@ public:
 	const T & read_back() {
 		if (m_seekState != seek_state::none || m_nextItem == m_bufferBegin) read_back_unlikely();
 		++m_cachedReads;
+		m_cachedWrites = 0;
 		--m_offset;
 		m_nextItem -= sizeof(T);
 		return *reinterpret_cast<const T *>(m_nextItem);
-- 
2.43.0


From 23548457abc44dd8ffce48ad4f5b2ae819dc6761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 02/94] fix: set_position within the loaded block must drop the
 cached reads and writes

---
 tpie/compressed/stream_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index ee6a856..bf6a0d9 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1212,6 +1212,7 @@ void compressed_stream_base::set_position(const stream_position & pos) {
 			// pos.read_offset() is correct.
 		}
 		
+		m_p->uncache_read_writes();
 		m_p->m_readOffset = pos.read_offset();
 		m_offset = pos.offset();
 		m_nextItem = m_bufferBegin + m_p->m_itemSize * m_p->block_item_index();
-- 
2.43.0


From 862ef45a3dec49596f83cb974ab4de8cd8b4b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 03/94] fix: stream buffers must be as large as the blocks of
 the stream that uses them

---
 tpie/compressed/buffer.cpp | 16 ++++++++--------
 tpie/compressed/buffer.h   |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/tpie/compressed/buffer.cpp b/tpie/compressed/buffer.cpp
index 25c341a..5037585 100644
--- a/tpie/compressed/buffer.cpp
+++ b/tpie/compressed/buffer.cpp
@@ -35,8 +35,8 @@ public:
 		}
 	}
 
-	buffer_t allocate_own_buffer() {
-		return std::make_shared<compressor_buffer>(block_size());
+	buffer_t allocate_own_buffer(memory_size_type capacity) {
+		return std::make_shared<compressor_buffer>(capacity);
 	}
 
 	void release_own_buffer(buffer_t & b) {
@@ -46,8 +46,8 @@ public:
 		buffer_t().swap(b);
 	}
 
-	bool can_take_shared_buffer() {
-		return !m_extraBuffers.empty();
+	bool can_take_shared_buffer(memory_size_type capacity) {
+		return !m_extraBuffers.empty() && m_extraBuffers.back()->capacity() >= capacity;
 	}
 
 	buffer_t take_shared_buffer() {
@@ -84,16 +84,16 @@ stream_buffer_pool::~stream_buffer_pool() {
 	delete pimpl;
 }
 
-stream_buffer_pool::buffer_t stream_buffer_pool::allocate_own_buffer() {
-	return pimpl->allocate_own_buffer();
+stream_buffer_pool::buffer_t stream_buffer_pool::allocate_own_buffer(memory_size_type capacity) {
+	return pimpl->allocate_own_buffer(capacity);
 }
 
 void stream_buffer_pool::release_own_buffer(buffer_t & b) {
 	pimpl->release_own_buffer(b);
 }
 
-bool stream_buffer_pool::can_take_shared_buffer() {
-	return pimpl->can_take_shared_buffer();
+bool stream_buffer_pool::can_take_shared_buffer(memory_size_type capacity) {
+	return pimpl->can_take_shared_buffer(capacity);
 }
 
 stream_buffer_pool::buffer_t stream_buffer_pool::take_shared_buffer() {
diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index 2a97afe..cfc0a8d 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -218,10 +218,10 @@ public:
 	stream_buffer_pool();
 	~stream_buffer_pool();
 
-	buffer_t allocate_own_buffer();
+	buffer_t allocate_own_buffer(memory_size_type capacity);
 	void release_own_buffer(buffer_t &);
 
-	bool can_take_shared_buffer();
+	bool can_take_shared_buffer(memory_size_type capacity);
 	buffer_t take_shared_buffer();
 	void release_shared_buffer(buffer_t &);
 
@@ -381,7 +381,7 @@ private:
 	}
 
 	bool can_take_shared_buffer() {
-		return the_stream_buffer_pool().can_take_shared_buffer();
+		return the_stream_buffer_pool().can_take_shared_buffer(m_blockSize);
 	}
 
 	buffer_t take_shared_buffer() {
@@ -390,7 +390,7 @@ private:
 
 	buffer_t allocate_own_buffer() {
 		++m_ownBuffers;
-		return the_stream_buffer_pool().allocate_own_buffer();
+		return the_stream_buffer_pool().allocate_own_buffer(m_blockSize);
 	}
 
 	compressor_thread & compressor() {
-- 
2.43.0


From 4def958ffed06c1c573a5306bc2959779f3fd988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 04/94] fix: truncate(0) must forget the block info of writes
 still in progress

---
 tpie/compressed/stream_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index bf6a0d9..091904a 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -400,10 +400,11 @@ public:
 	void truncate_zero() {
 		// No need to flush block
 		m_buffer.reset();
-		m_response.clear_block_info();
 		m_updateReadOffsetFromWrite = false;
 		compressor_thread_lock l(compressor());
 		finish_requests(l);
+		// Writes that were still in progress have set the block info.
+		m_response.clear_block_info();
 		get_buffer(l, 0);
 		m_o->m_size = 0;
 		m_streamBlocks = 0;
-- 
2.43.0


From 0343e2e14679d53ee761166cb6024f01524c3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 05/94] fix: get_position at the end of a full block must leave
 a valid read offset for read_back

---
 tpie/compressed/stream_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 091904a..48ce59b 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1158,6 +1158,8 @@ stream_position compressed_stream_base::get_position() {
 			m_p->flush_block(lock);
 			m_p->get_buffer(lock, m_p->m_streamBlocks);
 			m_nextItem = m_bufferBegin;
+			// A read_back from here starts where the flushed block ends.
+			m_p->m_readOffset = m_p->current_file_size(lock);
 		}
 		break;
 	case seek_state::end:
-- 
2.43.0


From 7af617a5a2017ccc36409bcbfb2057f136ac60bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 06/94] fix: user data must not be accessed while the
 compressor thread uses the file

The accessor seeks and then reads or writes, so a block written by the
compressor thread at the same time ends up at the wrong offset of the file.
---
 tpie/compressed/buffer.h        |  4 ++++
 tpie/compressed/stream_base.cpp | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index cfc0a8d..67c8aaf 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -342,6 +342,10 @@ public:
 		return m_buffers.empty();
 	}
 
+	memory_size_type size() const {
+		return m_buffers.size();
+	}
+
 	void clean() {
 		buffermapit i = m_buffers.begin();
 		while (i != m_buffers.end()) {
diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 48ce59b..6c2350e 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -370,6 +370,22 @@ public:
 		}
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Wait for the compressor thread to be done with our file.
+	///
+	/// Unlike finish_requests, this may be called while our own buffer is held.
+	/// Call this before accessing the file from this thread, since the file
+	/// accessor has only one file position.
+	///////////////////////////////////////////////////////////////////////////
+	void finish_file_access() {
+		compressor_thread_lock l(compressor());
+		m_buffers.clean();
+		while (m_buffers.size() > (m_buffer.get() != 0 ? 1u : 0u)) {
+			compressor().wait_for_request_done(l);
+			m_buffers.clean();
+		}
+	}
+
 	compressor_thread & compressor() { return the_compressor_thread(); }
 
 	///////////////////////////////////////////////////////////////////////////
@@ -805,11 +821,13 @@ memory_size_type compressed_stream_base::block_size() const {
 
 memory_size_type compressed_stream_base::read_user_data(void * data, memory_size_type count) {
 	tp_assert(is_open(), "read_user_data: !is_open");
+	m_p->finish_file_access();
 	return m_p->m_byteStreamAccessor.read_user_data(data, count);
 }
 
 void compressed_stream_base::write_user_data(const void * data, memory_size_type count) {
 	tp_assert(is_open(), "write_user_data: !is_open");
+	m_p->finish_file_access();
 	m_p->m_byteStreamAccessor.write_user_data(data, count);
 }
 
-- 
2.43.0


From 97f372b3054a2aed0248ec9d637d344bd5c1ef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 07/94] fix: truncating to a block boundary must not leave an
 empty dirty block

---
 tpie/compressed/stream_base.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 6c2350e..31a511c 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -449,7 +449,8 @@ public:
 					static_cast<memory_size_type>(offset - m_streamBlocks * m_blockItems);
 				m_o->m_nextItem = m_o->m_bufferBegin + m_itemSize * blockItemIndex;
 			}
-			m_bufferDirty = true;
+			// The block may be empty now, in which case there is nothing to write.
+			m_bufferDirty = offset > m_streamBlocks * m_blockItems;
 			m_o->m_seekState = compressed_stream_base::seek_state::none;
 			// No need to update m_streamBlocks
 		} else {
@@ -481,15 +482,22 @@ public:
 		stream_size_type offset = pos.offset();
 		stream_position finalDestination = (offset < m_o->offset()) ? pos : m_o->get_position();
 	
-		if (m_buffer.get() == 0 || block_number(offset) != buffer_block_number()) {
-			m_o->set_position(pos);
-			perform_seek();
+		// If no item of the block at pos is kept, the previous block becomes the
+		// last block, and we have to load it to get to know its read offset.
+		const bool keepsFullBlocks = block_item_index(offset) == 0;
+	
+		if (m_buffer.get() == 0 || keepsFullBlocks
+			|| block_number(offset) != buffer_block_number())
+		{
+			m_nextPosition = pos;
+			m_o->m_seekState = compressed_stream_base::seek_state::position;
+			perform_seek(keepsFullBlocks ? read_direction::backward : read_direction::forward);
 		}
 	
 		// We are truncating into the currently loaded block.
 		if (buffer_block_number() < m_streamBlocks) {
 			m_streamBlocks = buffer_block_number() + 1;
-			m_lastBlockReadOffset = pos.read_offset();
+			m_lastBlockReadOffset = keepsFullBlocks ? m_readOffset : pos.read_offset();
 			m_currentFileSize = std::numeric_limits<stream_size_type>::max();
 			compressor_thread_lock l(compressor());
 			m_response.clear_block_info();
@@ -498,11 +506,16 @@ public:
 		m_o->m_size = offset;
 		if (offset < m_o->m_offset) {
 			m_o->m_offset = offset;
-			memory_size_type blockItemIndex =
-				static_cast<memory_size_type>(offset - m_streamBlocks * m_blockItems);
-			m_o->m_nextItem = m_o->m_bufferBegin + m_itemSize * blockItemIndex;
+			m_o->m_nextItem = m_o->m_bufferBegin + m_itemSize * block_item_index(offset);
+		}
+		if (keepsFullBlocks) {
+			// The last block is unchanged; the next block is appended after it.
+			m_byteStreamAccessor.truncate_bytes(pos.read_offset());
+			m_currentFileSize = pos.read_offset();
+			m_bufferDirty = false;
+		} else {
+			m_bufferDirty = true;
 		}
-		m_bufferDirty = true;
 	
 		m_o->set_position(finalDestination);
 	}
-- 
2.43.0


From 07a3b4564b5cff8f0ee31e1021b3e13148bc0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 08/94] fix: get_position at the end of a rewritten full block
 must not use the old block size

---
 tpie/compressed/stream_base.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 31a511c..f9170d4 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1174,15 +1174,8 @@ stream_position compressed_stream_base::get_position() {
 	case seek_state::beginning:
 		return stream_position(0, 0);
 	case seek_state::none:
-		if (m_p->buffer_block_number() != m_p->m_streamBlocks) {
-			if (m_nextItem == m_bufferEnd)
-				return stream_position(m_p->m_nextReadOffset, m_offset);
-			else
-				return stream_position(m_p->m_readOffset, m_offset);
-		}
-		// We are in a new block at the end of the stream.
-		if (m_nextItem == m_bufferEnd) {
-			tp_assert(m_p->m_bufferDirty, "At end of buffer, but bufferDirty is false?");
+		if (m_nextItem == m_bufferEnd && m_p->m_bufferDirty) {
+			// The last block is full, but we do not know where it is going to end in the file.
 			// Make sure the position we get is not at the end of a block
 			compressor_thread_lock lock(m_p->compressor());
 			m_p->m_updateReadOffsetFromWrite = false;
@@ -1191,7 +1184,13 @@ stream_position compressed_stream_base::get_position() {
 			m_nextItem = m_bufferBegin;
 			// A read_back from here starts where the flushed block ends.
 			m_p->m_readOffset = m_p->current_file_size(lock);
+		} else if (m_p->buffer_block_number() != m_p->m_streamBlocks) {
+			if (m_nextItem == m_bufferEnd)
+				return stream_position(m_p->m_nextReadOffset, m_offset);
+			else
+				return stream_position(m_p->m_readOffset, m_offset);
 		}
+		// We are in a new block at the end of the stream.
 		break;
 	case seek_state::end:
 		// Figure out the size of the file below.
-- 
2.43.0


From 8745e18cafd99f9ef5db4d18618e52151f2e1f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 09/94] fix: reading a block must not return when an earlier
 write request completes

---
 tpie/compressed/stream_base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index f9170d4..bab5e5e 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -650,7 +650,9 @@ public:
 		m_buffer->transition_state(compressor_buffer_state::dirty,
 								   compressor_buffer_state::reading);
 		compressor().request(r);
-		while (!m_response.done()) {
+		// A write request that was made earlier may complete while we wait,
+		// so look at the state of the buffer instead of m_response.done().
+		while (m_buffer->is_busy()) {
 			m_response.wait(lock);
 		}
 	}
-- 
2.43.0


From 06a34e31b5c3b9b1ab12fd921cee76c9d3fc001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 10/94] fix: reading past the end of a file must fail instead
 of looping forever

---
 tpie/file_accessor/posix.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 1c08c44..feee7b5 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -75,6 +75,8 @@ inline void posix::read_i(void * data, memory_size_type size) {
 		memory_offset_type bytesRead = ::read(m_fd, data, size);
 		if (bytesRead == -1)
 			throw_errno();
+		if (bytesRead == 0 && size != 0)
+			throw io_exception("Unexpected end of file");
 		data = static_cast<char *>(data) + bytesRead;
 		size -= bytesRead;
 		increment_bytes_read(bytesRead);
-- 
2.43.0


From 9e5dd80f66faefe0aa877a74c570a82c7a5c41d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 11/94] fix: a stream that fails to open must not leave its
 file open

---
 tpie/file_accessor/stream_accessor_base.inl | 30 ++++++++++++---------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index d3bcf21..830e45e 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -134,22 +134,28 @@ void stream_accessor_base<file_accessor_t>::open(const std::string & path,
 	m_lastBlockReadOffset = std::numeric_limits<stream_size_type>::max();
 	if (!write && !read)
 		throw invalid_argument_exception("Either read or write must be specified");
-	if (write && !read) {
-		m_fileAccessor.open_wo(path);
-		write_header(false);
-		write_user_data(0, 0);
-	} else if (!write && read) {
-		m_fileAccessor.open_ro(path);
-		read_header();
-	} else {
-		if (!m_fileAccessor.try_open_rw(path)) {
-			m_fileAccessor.open_rw_new(path);
+	try {
+		if (write && !read) {
+			m_fileAccessor.open_wo(path);
 			write_header(false);
 			write_user_data(0, 0);
-		} else {
+		} else if (!write && read) {
+			m_fileAccessor.open_ro(path);
 			read_header();
-			write_header(false);
+		} else {
+			if (!m_fileAccessor.try_open_rw(path)) {
+				m_fileAccessor.open_rw_new(path);
+				write_header(false);
+				write_user_data(0, 0);
+			} else {
+				read_header();
+				write_header(false);
+			}
 		}
+	} catch (...) {
+		// The file may be open even though the stream is not.
+		m_fileAccessor.close_i();
+		throw;
 	}
 	m_open = true;
 	if (write && m_maxUserDataSize < maxUserDataSize) {
-- 
2.43.0


From 3983d5ada5b2b2761102ce3f86bf196aa823a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 12/94] fix: a relative seek must not leave the stream or
 ignore a pending seek

---
 tpie/stream_crtp.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index 3edd784..e68bfa8 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -54,11 +54,13 @@ public:
 			offset += self().size();
 		else if (whence == current) {
 			// are we seeking into the current block?
-			if (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index) {
+			self().update_vars();
+			if (m_nextBlock == std::numeric_limits<stream_size_type>::max()
+				&& (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index)) {
 				stream_size_type new_index = static_cast<stream_offset_type>(offset+m_index);
 
-				if (new_index < self().get_file().block_items()) {
-					self().update_vars();
+				if (new_index < self().get_file().block_items()
+					&& new_index <= self().get_block().size) {
 					m_index = static_cast<memory_size_type>(new_index);
 					return;
 				}
-- 
2.43.0


From e8a626e6199cf4d75f825b9e9b5fd6d59653fd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 13/94] fix: a read at the end of the stream must not move the
 stream to the next block

---
 tpie/file.h                | 2 +-
 tpie/uncompressed_stream.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/file.h b/tpie/file.h
index 9ba4e10..928214c 100644
--- a/tpie/file.h
+++ b/tpie/file.h
@@ -101,10 +101,10 @@ public:
  		inline item_type & read_mutable() {
 			assert(get_file().is_open());
 			if (m_index >= m_block->size) {
-				update_block();
 				if (offset() >= get_file().size()) {
 					throw end_of_stream_exception();
 				}
+				update_block();
 			}
 			return reinterpret_cast<T*>(m_block->data)[m_index++];
 		}
diff --git a/tpie/uncompressed_stream.h b/tpie/uncompressed_stream.h
index 4c1bb82..f7ee015 100644
--- a/tpie/uncompressed_stream.h
+++ b/tpie/uncompressed_stream.h
@@ -123,10 +123,10 @@ public:
 	const item_type & peek() {
 		assert(m_open);
 		if (m_index >= m_block.size) {
-			update_block();
 			if (offset() >= size()) {
 				throw end_of_stream_exception();
 			}
+			update_block();
 		}
 		return reinterpret_cast<item_type*>(m_block.data)[m_index];
 	}
-- 
2.43.0


From 4c62e281232a123c77c19c2dc562391e5846911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 14/94] fix: reading an array must not run past the items of
 the last block

---
 tpie/stream_crtp.h | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index e68bfa8..126ffb0 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -167,20 +167,14 @@ protected:
 	template <typename IT, typename Stream>
 	static inline void read_array(Stream & stream, const IT & start, const IT & end) {
 		typedef typename Stream::item_type T;
+		// check to make sure we have enough items in the stream
+		if (stream.offset() + (end-start) > stream.size())
+			throw end_of_stream_exception();
+
 		IT i = start;
 		while (i != end) {
-			if (stream.m_index >= stream.block_items()) {
-				// check to make sure we have enough items in the stream
-				stream_size_type offs = stream.offset();
-				if (offs >= stream.size()
-					|| offs + (end-i) > stream.size()) {
-
-					throw end_of_stream_exception();
-				}
-
-				// fetch next block from disk
-				stream.update_block();
-			}
+			// fetch next block from disk
+			if (stream.m_index >= stream.block_items()) stream.update_block();
 
 			T * src = reinterpret_cast<T*>(stream.get_block().data) + stream.m_index;
 
-- 
2.43.0


From b53deebc770806d3d1add237b600fdc0d6c20600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 15/94] fix: a file stream that cannot be constructed must give
 back its block

---
 tpie/file_base.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tpie/file_base.cpp b/tpie/file_base.cpp
index aecbd2b..266da86 100644
--- a/tpie/file_base.cpp
+++ b/tpie/file_base.cpp
@@ -138,8 +138,14 @@ void file_base::stream::update_block_core() {
 file_base::stream::stream(file_base & f, stream_size_type offset):
 	m_file(0) {
 	attach_inner(f);
-	if (m_file->m_open)
-		seek(offset);
+	try {
+		if (m_file->m_open)
+			seek(offset);
+	} catch (...) {
+		// The destructor is not going to give the block back to the file.
+		free();
+		throw;
+	}
 }
 
 void file_base::stream::free() {
-- 
2.43.0


From c537b683050ff86503833736260213038741c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 16/94] fix: reopening a serialization writer must write what
 its buffer holds

---
 tpie/serialization_stream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 128b292..3fc56f4 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -239,12 +239,14 @@ void serialization_writer::write_block() {
 }
 
 void serialization_writer::open(std::string path) {
+	close();
 	p_t::open(path, false);
 	m_block.resize(block_size());
 	m_index = 0;
 }
 
 void serialization_writer::open(temp_file & tempFile) {
+	close();
 	p_t::open(tempFile, false);
 	m_block.resize(block_size());
 	m_index = 0;
@@ -274,12 +276,14 @@ void serialization_reverse_writer::write_block() {
 }
 
 void serialization_reverse_writer::open(std::string path) {
+	close();
 	p_t::open(path, true);
 	m_block.resize(block_size());
 	m_index = 0;
 }
 
 void serialization_reverse_writer::open(temp_file & tempFile) {
+	close();
 	p_t::open(tempFile, true);
 	m_block.resize(block_size());
 	m_index = 0;
-- 
2.43.0


From a945a0295ae697e57875b1bedff4d29be2c9c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 17/94] fix: reading past the end of a serialization stream
 must not move its offset

---
 tpie/serialization_stream.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 3fc56f4..be1f5fc 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -355,12 +355,9 @@ stream_size_type serialization_reader_base::size() {
 } // namespace bits
 
 void serialization_reader::next_block() /*override*/ {
-	if (m_blockSize == 0) {
-		m_blockNumber = 0;
-	} else {
-		++m_blockNumber;
-	}
-	read_block(m_blockNumber);
+	const stream_size_type blk = m_blockSize == 0 ? 0 : m_blockNumber + 1;
+	read_block(blk);
+	m_blockNumber = blk;
 }
 
 serialization_reader::serialization_reader()
-- 
2.43.0


From e9833b4cabaadb7a1156809ed30c5f4e405a9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 18/94] fix: a failed block read must not leave a serialization
 reader with a block it did not read

---
 tpie/serialization_stream.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index be1f5fc..a661260 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -330,11 +330,11 @@ void serialization_reader_base::read_block(const stream_size_type blk) {
 	stream_size_type from = blk * block_size();
 	stream_size_type to = std::min(from + block_size(), m_size);
 	if (to <= from) throw end_of_stream_exception();
-	m_index = 0;
-	m_blockSize = to-from;
 	m_fileAccessor.seek_i(bits::serialization_header::header_size()
 						  + from);
-	m_fileAccessor.read_i(m_block.get(), m_blockSize);
+	m_fileAccessor.read_i(m_block.get(), to-from);
+	m_index = 0;
+	m_blockSize = to-from;
 }
 
 void serialization_reader_base::close() {
@@ -384,8 +384,8 @@ stream_size_type serialization_reader::offset() {
 void serialization_reverse_reader::next_block() /*override*/ {
 	if (m_blockNumber == 0)
 		throw end_of_stream_exception();
+	read_block(m_blockNumber - 1);
 	--m_blockNumber;
-	read_block(m_blockNumber);
 	std::reverse(m_block.begin(), m_block.begin() + m_blockSize);
 }
 
-- 
2.43.0


From cc579eb285e55c3475498678c578c6dd15a20b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 19/94] fix: a failed pop from a queue must not change its size

---
 tpie/queue.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tpie/queue.h b/tpie/queue.h
index 3af8aee..44a26de 100644
--- a/tpie/queue.h
+++ b/tpie/queue.h
@@ -99,20 +99,24 @@ public:
 	/// \return The dequeued item
 	////////////////////////////////////////////////////////////////////
 	const T & pop() {
-		--m_size;
 		if(pop_queue().can_read()) {
 			// The front of the queue is the pop stream
-			return pop_queue().read();
+			const T & i = pop_queue().read();
+			--m_size;
+			return i;
 		} else if (!m_centerQueue.empty()) {
 			// The front of the queue is the center queue
 			const T & i = m_centerQueue.front();
 			m_centerQueue.pop();
+			--m_size;
 			return i;
 		} else {
 			// The front of the queue is the push stream,
 			// so we swap the push stream and the pop stream.
 			swap_file_streams();
-			return pop_queue().read();
+			const T & i = pop_queue().read();
+			--m_size;
+			return i;
 		}
 	}
 
-- 
2.43.0


From e6f9d04aa8ac3877153402c9bf329994fd479efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 20/94] fix: a written block must be in the file before its
 buffer is reported clean

---
 tpie/compressed/thread.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index c7c09da..51baaa5 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -264,18 +264,18 @@ private:
 			wr.file_accessor().truncate_bytes(wr.write_offset());
 			//log_debug() << "File size is now " << wr.file_accessor().file_size() << std::endl;
 		}
-		{
-			compressor_thread_lock::lock_t lock(mutex());
-			wr.buffer()->transition_state(compressor_buffer_state::writing,
-										  compressor_buffer_state::clean);
-			wr.buffer()->set_block_size(writeSize);
-			wr.buffer()->set_read_offset(wr.file_accessor().file_size());
-			const stream_size_type offset = wr.file_accessor().file_size();
-			wr.set_block_info(offset, writeSize);
-			const stream_size_type newSize = offset + writeSize;
-			wr.update_recorded_size(newSize);
-		}
+		const stream_size_type offset = wr.file_accessor().file_size();
 		wr.file_accessor().append(scratch.get(), writeSize);
+
+		// The stream may access the file as soon as the buffer is clean.
+		compressor_thread_lock::lock_t lock(mutex());
+		wr.buffer()->transition_state(compressor_buffer_state::writing,
+									  compressor_buffer_state::clean);
+		wr.buffer()->set_block_size(writeSize);
+		wr.buffer()->set_read_offset(offset);
+		wr.set_block_info(offset, writeSize);
+		const stream_size_type newSize = offset + writeSize;
+		wr.update_recorded_size(newSize);
 	}
 
 public:
-- 
2.43.0


From 7812400cc950f45b83fd3940eafbd492430c24b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 21/94] fix: truncating a compressed stream must wait for the
 writes of its earlier blocks

---
 tpie/compressed/stream_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index bab5e5e..ceb5bd7 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -496,6 +496,8 @@ public:
 	
 		// We are truncating into the currently loaded block.
 		if (buffer_block_number() < m_streamBlocks) {
+			// Writes that are still in progress set the block info.
+			finish_file_access();
 			m_streamBlocks = buffer_block_number() + 1;
 			m_lastBlockReadOffset = keepsFullBlocks ? m_readOffset : pos.read_offset();
 			m_currentFileSize = std::numeric_limits<stream_size_type>::max();
-- 
2.43.0


From 74038afbcc40d13b3b687404661d8c23a8a6ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 22/94] fix: evacuating a serialization_sorter must not write
 items already pulled

---
 tpie/serialization_sorter.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index 13fe8e0..910ebeb 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -843,7 +843,9 @@ public:
 			case state_2:
 			case state_3:
 				if (m_reportInternal) {
-					end_run();
+					// Only the items that have not been pulled yet.
+					if (m_nextInternalItem != 0) write_run(m_nextInternalItem);
+					m_nextInternalItem = 0;
 					m_sorter.free();
 					m_reportInternal = false;
 					log_debug() << "Evacuate out of internal reporting mode." << std::endl;
@@ -949,12 +951,16 @@ private:
 	void end_run() {
 		m_sorter.sort();
 		if (m_sorter.begin() == m_sorter.end()) return;
+		write_run(m_sorter.begin());
+		m_sorter.reset();
+	}
+
+	void write_run(const T * first) {
 		m_files.open_new_writer();
-		for (const T * item = m_sorter.begin(); item != m_sorter.end(); ++item) {
+		for (const T * item = first; item != m_sorter.end(); ++item) {
 			m_files.write(*item);
 		}
 		m_files.close_writer();
-		m_sorter.reset();
 	}
 
 	void initialize_merger(size_t fanout) {
-- 
2.43.0


From c5becbf4042d8d58d1d048d88d1cfc009c71d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 23/94] fix: btree find must return the first of several items
 with the key

---
 tpie/btree/btree.h | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/tpie/btree/btree.h b/tpie/btree/btree.h
index 293fe29..685d17b 100644
--- a/tpie/btree/btree.h
+++ b/tpie/btree/btree.h
@@ -377,28 +377,11 @@ public:
 	 */
 	template <typename K, typename X=enab>
 	iterator find(K v, enable<X, is_ordered> =enab()) const {
-		iterator itr(&m_state);
-
-		if(m_state.store().height() == 0) {
-			itr.goto_end();
-			return itr;
-		}
-
-		std::vector<internal_type> path;
-		leaf_type l = find_leaf<true>(path, v);
-	
-		size_t i=0;
-		size_t z = m_state.store().count(l);
-		while (true) {
-			if (i == z) {
-				itr.goto_end();
-				return itr;
-			}
-			if (!m_comp(m_state.min_key(l, i), v) &&
-				!m_comp(v, m_state.min_key(l, i))) break;
-			++i;
-		}
-		itr.goto_item(path, l, i);
+		// The items with the given key may begin in an earlier leaf than the
+		// last one they occur in.
+		iterator itr = lower_bound(v);
+		if (itr == end() || m_comp(v, m_state.min_key(itr.m_leaf, itr.m_index)))
+			return end();
 		return itr;
 	}
 
-- 
2.43.0


From 4159071bf11779aeee23a008e275861af3615f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 24/94] fix: a btree node split could leave less than the
 minimum fanout when the maximum is odd

---
 tpie/btree/btree.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/btree/btree.h b/tpie/btree/btree.h
index 685d17b..378f663 100644
--- a/tpie/btree/btree.h
+++ b/tpie/btree/btree.h
@@ -165,6 +165,10 @@ private:
 		tp_assert(m_state.store().count(left) == max_size(left), "Node not full");
 		
 		size_t left_size = max_size(left)/2;
+		const bool insert_left = index <= left_size;
+		// With an odd maximum the part the item is not inserted into must get the
+		// larger half, or it could be left with less than the minimum.
+		if (!insert_left) left_size = max_size(left) - left_size;
 		size_t right_size = max_size(left)-left_size;
 		NT right = m_state.store().create(left);
 		for (size_t i=0; i < right_size; ++i)
@@ -172,7 +176,7 @@ private:
 		m_state.store().set_count(left, left_size);
 		m_state.store().set_count(right, right_size);
 
-		if (index <= left_size)
+		if (insert_left)
 			insert_part(left, c, index);
 		else
 			insert_part(right, c, index - left_size);
-- 
2.43.0


From 6446c7cff6376a12c6e31c705156612ff1523acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 25/94] fix: serialized btree metadata was read from wherever
 the last node read ended

---
 tpie/btree/serialized_store.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 11568b7..1bc186a 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -602,6 +602,7 @@ private:
 		if (metadata_offset == 0 || metadata_size == 0)
 			return {};
 		std::string data(metadata_size, '\0');
+		f->seekg(metadata_offset);
 		f->read(&data[0], metadata_size);
 		return data;
 	}
-- 
2.43.0


From d7e6eec99ec542206722277dc6e1fa901877ea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 26/94] fix: comparing iterators of an empty, newly built
 serialized btree crashed

---
 tpie/btree/serialized_store.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 1bc186a..c8ed74e 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -299,6 +299,8 @@ private:
 		}
 
 		bool operator==(const leaf_type & o) const noexcept {
+			// The root of a tree without items may not exist.
+			if (!ptr || !o.ptr) return ptr == o.ptr;
 			return ptr->my_offset == o->my_offset;
 		}
 
-- 
2.43.0


From 94f886e112adcf6344962deb739bb5ec4c2cd39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 27/94] fix: a serialized btree file cut short was opened as a
 tree with items missing

---
 tpie/btree/serialized_store.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index c8ed74e..0703feb 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -200,6 +200,11 @@ private:
 		s.write(compressed_buffer.data(), compressed_size);
 	}
 
+	template <typename D>
+	static void check_read(const D & d) {
+		if (!d) throw invalid_file_exception("Unable to read B-tree node");
+	}
+
 	template <typename D, typename N>
 	void unserialize(D & d, N & i) const {
 		using tpie::unserialize;
@@ -209,15 +214,18 @@ private:
 		if (compression_type == btree_flags::compress_none) {
 			unserialize(d, i.count);
 			unserialize(d, i.values, i.values + i.count);
+			check_read(d);
 			return;
 		}
 
 		int32_t uncompressed_size, compressed_size;
 		d.read(reinterpret_cast<char *>(&uncompressed_size), sizeof(uncompressed_size));
 		d.read(reinterpret_cast<char *>(&compressed_size), sizeof(compressed_size));
+		check_read(d);
 
 		std::vector<char> compressed_buffer((size_t)compressed_size);
 		d.read(compressed_buffer.data(), compressed_size);
+		check_read(d);
 
 		serilization_buffer uncompressed_buffer((size_t)uncompressed_size);
 
@@ -390,6 +398,8 @@ private:
 				h.flags = btree_flags::defaults_v0;
 			} else if (h.version == 1) {
 				f->read(reinterpret_cast<char *>(&h.flags), sizeof(h.flags));
+				if (!*f)
+					throw invalid_file_exception("Unable to read header");
 			} else {
 				throw invalid_file_exception("Bad version");
 			}
-- 
2.43.0


From 7df6f6afc9c270e4d23e7924402cfd0f8e000903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:06 +0000
Subject: [PATCH 28/94] fix: tiny map and multimap took the mapped type for
 their key type

---
 tpie/tiny.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 52f7c6e..15709bf 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -701,7 +701,7 @@ template <typename Key,
 		  typename T,
 		  typename Comp=std::less<Key>,
 		  typename Alloc=std::allocator<std::pair<Key, T> > >
-using multimap = set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::MultiInsertHelp>;
+using multimap = set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::MultiInsertHelp>;
 
 /**
  * \brief A std::map compatible map, useful when we do not have many elements (less then 512)
@@ -710,9 +710,9 @@ template <typename Key,
 		  typename T,
 		  typename Comp=std::less<Key>,
 		  typename Alloc=std::allocator<std::pair<Key, T> >
-		  > class map: public set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> {
+		  > class map: public set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> {
 private:
-	typedef set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> P;
+	typedef set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> P;
 public:
 
 	map() {}
-- 
2.43.0


From 548c68700e83e8c8110b0974aa917cd7bf49bd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:06 +0000
Subject: [PATCH 29/94] fix: tiny multiset and multimap ignored their
 comparator on insertion

---
 tpie/tiny.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 15709bf..7bf0037 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -106,8 +106,8 @@ struct MultiInsertHelp {
 		typedef iterator result;
 		
 		template <typename Comp>
-		static result handle(Inner & inner, const Comp &) {
-			iterator y=std::upper_bound(inner.begin(), inner.end()-1, inner.back());
+		static result handle(Inner & inner, const Comp & comp) {
+			iterator y=std::upper_bound(inner.begin(), inner.end()-1, inner.back(), comp);
 			std::rotate(y, inner.end()-1, inner.end());
 			return y;
 		}
-- 
2.43.0


From 03ddc1773334de1468c8b6d2defb47d2e9bb3271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:06 +0000
Subject: [PATCH 30/94] fix: erasing a range of a tiny container returned its
 beginning

---
 tpie/tiny.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 7bf0037..936952a 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -317,7 +317,7 @@ public:
 	iterator erase(iterator first, iterator last) {
 		std::rotate(first, last, inner.end());
 		inner.resize(size() - (last-first));
-		return begin();
+		return first;
 	}
 
 	/**
-- 
2.43.0


From ec92f18fad450b1a7bb122fa43e0ad0504bf1355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:06 +0000
Subject: [PATCH 31/94] fix: <= and > of tiny containers disagreed with < about
 the order

---
 tpie/tiny.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 936952a..e5ca702 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -530,7 +530,7 @@ public:
 	 * less than or equal the contents of rhs, false otherwise.
 	 */
 	friend bool operator<=(const set_impl & lhs, const set_impl & rhs) {
-		return !std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end());
+		return !std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end(), lhs.comp);
 		
 	}
 
@@ -539,7 +539,7 @@ public:
 	 * greater than the contents of rhs, false otherwise.
 	 */
 	friend bool operator>(const set_impl & lhs, const set_impl & rhs) {
-		return std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end());
+		return std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end(), lhs.comp);
 	}
 
 	/**
-- 
2.43.0


From c58b3bb832b91e793fa0250962448eddfafa73f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:06 +0000
Subject: [PATCH 32/94] fix: std::copy with reverse array iterators copied the
 wrong memory

---
 tpie/array.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 5142951..f655c19 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -713,11 +713,11 @@ void swap(tpie::array<T> & a, tpie::array<T> & b) {
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT1, bool forward1, typename TT2, bool forward2>
-tpie::array_iter_base<TT2, forward2>
-copy(tpie::array_iter_base<TT1, forward1> first,
-     tpie::array_iter_base<TT1, forward1> last,
-	 tpie::array_iter_base<TT2, forward2> d_first) {
+template <typename TT1, typename TT2>
+tpie::array_iter_base<TT2, true>
+copy(tpie::array_iter_base<TT1, true> first,
+     tpie::array_iter_base<TT1, true> last,
+	 tpie::array_iter_base<TT2, true> d_first) {
 
 	ptrdiff_t dist = copy(&*first, &*last, &*d_first) - &*d_first;
 	return d_first + dist;
@@ -726,10 +726,10 @@ copy(tpie::array_iter_base<TT1, forward1> first,
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array as input.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT, bool forward, typename OutputIterator>
+template <typename TT, typename OutputIterator>
 OutputIterator
-copy(tpie::array_iter_base<TT, forward> first,
-     tpie::array_iter_base<TT, forward> last,
+copy(tpie::array_iter_base<TT, true> first,
+     tpie::array_iter_base<TT, true> last,
 	 OutputIterator d_first) {
 
 	return copy(&*first, &*last, d_first);
@@ -738,11 +738,11 @@ copy(tpie::array_iter_base<TT, forward> first,
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array as output.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT, bool forward, typename InputIterator>
-tpie::array_iter_base<TT, forward>
+template <typename TT, typename InputIterator>
+tpie::array_iter_base<TT, true>
 copy(InputIterator first,
 	 InputIterator last,
-	 tpie::array_iter_base<TT, forward> d_first) {
+	 tpie::array_iter_base<TT, true> d_first) {
 
 	ptrdiff_t dist = copy(first, last, &*d_first) - &*d_first;
 	return d_first + dist;
-- 
2.43.0


From d4cd55cb13e5c7d9075364729cafc4b4b73b8f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:06 +0000
Subject: [PATCH 33/94] fix: assigning an array to itself lost its content

---
 tpie/array.h        | 1 +
 tpie/packed_array.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tpie/array.h b/tpie/array.h
index f655c19..1b4d656 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -212,6 +212,7 @@ public:
 	/// \return A reference to this array.
 	///////////////////////////////////////////////////////////////////////////
 	array & operator=(const array & other) {
+		if (this == &other) return *this;
 		resize(other.size());
 		for (size_t i=0; i < size(); ++i) m_elements[i] = other[i];
 		return *this;
diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 567d806..290d78e 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -325,6 +325,7 @@ public:
 	/// \return a reference to this array
 	/////////////////////////////////////////////////////////
 	packed_array & operator=(const packed_array & a) {
+		if (this == &a) return *this;
 		resize(a.m_size);
 		for(size_t i=0;i<words(m_size);++i)
 			m_elements[i] = a.m_elements[i];
-- 
2.43.0


From 052ce38d32a47653965e71a400449ade63119c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:06 +0000
Subject: [PATCH 34/94] fix: subtracting from a packed_array iterator moved it
 forwards

---
 tpie/packed_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 290d78e..4133bdc 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -64,7 +64,7 @@ public:
 	CT operator+(difference_type n) const {CT x=self(); return x += n;}
 	CT operator-(difference_type n) const {CT x=self(); return x -= n;}
 	CT & operator+=(difference_type n) {self().index() += (forward?n:-n); return self();}
-	CT & operator-=(difference_type n) {self().index() += (forward?n:-n); return self();}
+	CT & operator-=(difference_type n) {self().index() += (forward?-n:n); return self();}
 	RT operator[](difference_type n) {return *(self() + n);}
 };
 
-- 
2.43.0


From 0076204099a53b73ce2d1391434c6fbd1026e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:06 +0000
Subject: [PATCH 35/94] fix: assigning between packed_array iterator references
 did not copy the item

---
 tpie/packed_array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 4133bdc..efcc6f1 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -146,6 +146,8 @@ private:
 		size_t index;
 	public:
 		template <typename, int> friend class packed_array;
+		iter_return_type(const iter_return_type & o) = default;
+		iter_return_type & operator=(const iter_return_type & o) {return *this = static_cast<T>(o);}
 		operator T() const {return static_cast<T>((elms[high(index)] >> low(index))&mask());}
 	 	iter_return_type & operator=(const T b) {
 			storage_type * p = elms+high(index);
-- 
2.43.0


From b9d2b2f5b137ff0b4b29015c3b712ecb5eac62ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 36/94] fix: a request refused by an enforced resource limit
 was still counted as used

---
 tpie/resource_manager.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/tpie/resource_manager.cpp b/tpie/resource_manager.cpp
index 49a54cd..08e889b 100644
--- a/tpie/resource_manager.cpp
+++ b/tpie/resource_manager.cpp
@@ -55,13 +55,16 @@ void resource_manager::register_increased_usage(size_t amount) {
 		m_used.fetch_add(amount);
 		break;
 	case ENFORCE_THROW: {
-		size_t usage = m_used.fetch_add(amount) + amount;
-		if (usage > m_limit && m_limit > 0) {
-			std::stringstream ss;
-			print_resource_complaint(ss, amount, usage);
-			throw_out_of_resource_error(ss.str());
-			throw out_of_resource_error(ss.str());
-		}
+		size_t used = m_used.load();
+		do {
+			size_t usage = used + amount;
+			if (usage > m_limit && m_limit > 0) {
+				std::stringstream ss;
+				print_resource_complaint(ss, amount, usage);
+				throw_out_of_resource_error(ss.str());
+				throw out_of_resource_error(ss.str());
+			}
+		} while (!m_used.compare_exchange_weak(used, used + amount));
 		break; }
 	case ENFORCE_DEBUG:
 	case ENFORCE_WARN: {
-- 
2.43.0


From 4ff3866695b4d6981bf2be44e45c2f2e47fcff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 37/94] fix: a file whose opening the file limit refused stayed
 open, uncounted and truncated

---
 tpie/file_accessor/posix.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index feee7b5..9354e01 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -107,11 +107,14 @@ inline stream_size_type posix::file_size_i() {
 }
 
 void posix::_open(const std::string & path, int flags, mode_t mode = 0755) {
+	get_file_manager().increment_open_file_count();
 	m_fd = ::open(path.c_str(), flags, mode);
 	if (m_fd == -1) {
+		int error = errno;
+		get_file_manager().decrement_open_file_count();
+		errno = error;
 		return;
 	}
-	get_file_manager().increment_open_file_count();
 	give_advice();
 }
 
-- 
2.43.0


From 9e7ff2e00543e0e3925b5f8111666b70e800ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 38/94] fix: user statistics were read and written beyond the
 end of their array

---
 tpie/stats.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/stats.cpp b/tpie/stats.cpp
index 1c36d70..da11665 100644
--- a/tpie/stats.cpp
+++ b/tpie/stats.cpp
@@ -64,11 +64,11 @@ namespace tpie {
 	}
 
 	stream_size_type get_user(size_t i) {
-		return (i < sizeof(user)) ? user[i].load() : 0;
+		return (i < sizeof(user)/sizeof(user[0])) ? user[i].load() : 0;
 	}
 
 	void increment_user(size_t i, stream_size_type delta) {
-		if (i < sizeof(user)) user[i].fetch_add(delta);
+		if (i < sizeof(user)/sizeof(user[0])) user[i].fetch_add(delta);
 	}
 }  //  tpie namespace
 
-- 
2.43.0


From 14c758d7282ec199462588232b63d4d286752f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 39/94] fix: tpie_new crashed when the constructor of a class
 with virtual functions threw

---
 tpie/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index 2f5a5d7..c58048b 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -235,7 +235,9 @@ struct allocation_scope_magic {
 	}
 	
 	~allocation_scope_magic() {
-		tpie_deallocate(data);
+		// No object was constructed, so its dynamic type must not be used.
+		if (data != 0)
+			delete[] (reinterpret_cast<uint8_t *>(data) - (std::is_polymorphic<T>::value ? sizeof(size_t) : 0));
 		if (deregister) get_memory_manager().register_deallocation(deregister, typeid(T));
 	}
 };
-- 
2.43.0


From 3acfd32cafa6d105aa10f92b3411b489a0353932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 40/94] fix: a failed allocation through tpie::allocator stayed
 accounted

---
 tpie/memory.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index c58048b..34cc00e 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -401,8 +401,13 @@ public:
     T * allocate(size_t size) {
 		get_memory_manager().register_allocation(size * sizeof(T), typeid(T));
 		if (bucket) bucket->count += size * sizeof(T);
-		T * res = a.allocate(size);
-		return res;
+		try {
+			return a.allocate(size);
+		} catch (...) {
+			if (bucket) bucket->count -= size * sizeof(T);
+			get_memory_manager().register_deallocation(size * sizeof(T), typeid(T));
+			throw;
+		}
     }
 
     void deallocate(T * p, size_t n) {
-- 
2.43.0


From 40c74fa3368383bd614e5cf1676631d01a959b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 41/94] fix: an array whose allocation or construction failed
 leaked or was freed twice

---
 tpie/array.h | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 1b4d656..d17389a 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -491,9 +491,15 @@ public:
 	void resize(size_t size, const T & elm) {
 		if (size != m_size) {
 			destruct_and_dealloc();
+			m_elements = 0;
 			m_size = size;
 
-			alloc_fill(elm);
+			try {
+				alloc_fill(elm);
+			} catch (...) {
+				m_size = 0;
+				throw;
+			}
 		} else {
 			std::fill(m_elements+0, m_elements+m_size, elm);
 		}
@@ -520,8 +526,14 @@ public:
 	///////////////////////////////////////////////////////////////////////////
 	void resize(size_t s) {
 		destruct_and_dealloc();
+		m_elements = 0;
 		m_size = s;
-		alloc_dfl();
+		try {
+			alloc_dfl();
+		} catch (...) {
+			m_size = 0;
+			throw;
+		}
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -598,7 +610,12 @@ struct allocator_usage<T, allocator<T> > {
 		if (host.m_allocator.bucket)
 			host.m_allocator.bucket->count += sizeof(T) * host.m_size;
 			
-		std::uninitialized_copy(copy_from+0, copy_from+host.m_size, host.m_elements+0);
+		try {
+			std::uninitialized_copy(copy_from+0, copy_from+host.m_size, host.m_elements+0);
+		} catch (...) {
+			dealloc_unconstructed(host);
+			throw;
+		}
 	}
 
 	static void alloc_fill(array<T, allocator<T> > & host, const T & elm) {
@@ -609,7 +626,20 @@ struct allocator_usage<T, allocator<T> > {
 			host.m_allocator.bucket->count += sizeof(T) * host.m_size;
 		
 		// call copy constructors manually
-		std::uninitialized_fill(host.m_elements+0, host.m_elements+host.m_size, elm);
+		try {
+			std::uninitialized_fill(host.m_elements+0, host.m_elements+host.m_size, elm);
+		} catch (...) {
+			dealloc_unconstructed(host);
+			throw;
+		}
+	}
+
+	// Called when constructing the elements failed.
+	static void dealloc_unconstructed(array<T, allocator<T> > & host) {
+		if (host.m_allocator.bucket)
+			host.m_allocator.bucket->count -= sizeof(T) * host.m_size;
+		tpie_delete_array(reinterpret_cast<trivial_same_size<T>*>(host.m_elements), host.m_size);
+		host.m_elements = 0;
 	}
 
 	static void alloc_dfl(array<T, allocator<T> > & host) {
-- 
2.43.0


From 9773a88378f70936c629c38a9f496de3ddc16950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 42/94] fix: a packed_array whose resizing failed was freed
 twice

---
 tpie/packed_array.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index efcc6f1..b6da186 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -356,8 +356,10 @@ public:
 	void resize(size_t s) {
 		if (s == m_size) return;
 		tpie_delete_array(m_elements, words(m_size));
+		m_elements = nullptr;
+		m_size = 0;
+		if (s) m_elements = tpie_new_array<storage_type>(words(s));
 		m_size = s;
-		m_elements = m_size?tpie_new_array<storage_type>(words(m_size)):nullptr;
 	}
 
 	/////////////////////////////////////////////////////////
-- 
2.43.0


From 46a4189524964732754a37144ba9736f851bfe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 43/94] fix: a stream that could not allocate its buffer ended
 the process when closed

---
 tpie/compressed/buffer.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index 67c8aaf..bcf4acc 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -315,7 +315,13 @@ public:
 			if (i == m_buffers.end()) {
 				// No free found: allocate new buffer.
 				if (m_ownBuffers < OWN_BUFFERS) {
-					target->second = allocate_own_buffer();
+					try {
+						target->second = allocate_own_buffer();
+					} catch (...) {
+						// Do not leave the insertion point behind.
+						m_buffers.erase(target);
+						throw;
+					}
 				} else if (can_take_shared_buffer()) {
 					target->second = take_shared_buffer();
 				} else {
@@ -393,8 +399,9 @@ private:
 	}
 
 	buffer_t allocate_own_buffer() {
+		buffer_t b = the_stream_buffer_pool().allocate_own_buffer(m_blockSize);
 		++m_ownBuffers;
-		return the_stream_buffer_pool().allocate_own_buffer(m_blockSize);
+		return b;
 	}
 
 	compressor_thread & compressor() {
-- 
2.43.0


From a29341b4cd05baea5d655656eb4e0f7b68a84f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:52 +0000
Subject: [PATCH 44/94] fix: destroying a stack ended the process after a
 failed push had closed its stream

---
 tpie/stack.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/stack.h b/tpie/stack.h
index 5360d84..3b6c61f 100644
--- a/tpie/stack.h
+++ b/tpie/stack.h
@@ -92,6 +92,8 @@ public:
     /// end of the stack.
     ////////////////////////////////////////////////////////////////////
 	~stack() {
+		// A failed operation closes the stream.
+		if (!m_stream.is_open()) return;
 		empty_buffer();
 		m_stream.truncate(m_stream.get_position());
 	}
-- 
2.43.0


From 19cd08b94b45f22d8163a180df8362661f6d62d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 45/94] fix: an error in the compression thread ended the
 process instead of being reported to the stream

---
 tpie/compressed/request.h                   |  57 +++++++++++
 tpie/compressed/stream_base.cpp             | 101 +++++++++++++++-----
 tpie/compressed/thread.cpp                  |  47 +++++++--
 tpie/file_accessor/posix.inl                |   6 +-
 tpie/file_accessor/stream_accessor_base.h   |   5 +
 tpie/file_accessor/stream_accessor_base.inl |  15 ++-
 6 files changed, 195 insertions(+), 36 deletions(-)

diff --git a/tpie/compressed/request.h b/tpie/compressed/request.h
index 077bd60..7883981 100644
--- a/tpie/compressed/request.h
+++ b/tpie/compressed/request.h
@@ -24,6 +24,7 @@
 /// \file compressed/request.h  Compressor thread requests and responses.
 ///////////////////////////////////////////////////////////////////////////////
 
+#include <exception>
 #include <memory>
 #include <thread>
 #include <condition_variable>
@@ -58,6 +59,8 @@ public:
 		, m_endOfStream(false)
 		, m_nextReadOffset(0)
 		, m_nextBlockSize(0)
+		, m_writeFailed(false)
+		, m_errorReported(false)
 	{
 	}
 
@@ -71,6 +74,45 @@ public:
 		m_nextReadOffset = m_nextBlockSize = 0;
 	}
 
+	// any, thread
+	void set_error(std::exception_ptr error, bool write) {
+		if (!m_error) {
+			m_error = error;
+			m_errorReported = false;
+		}
+		if (write) m_writeFailed = true;
+		m_done = true;
+		m_changed.notify_all();
+	}
+
+	// any, stream
+	// If a request failed, throws the exception that made it fail.
+	void check_error() {
+		if (!m_error) return;
+		std::exception_ptr error = m_error;
+		m_errorReported = true;
+		// If a block could not be written, the contents of the stream are lost.
+		if (!m_writeFailed) m_error = nullptr;
+		std::rethrow_exception(error);
+	}
+
+	// any, stream
+	// Like check_error, but does not throw an exception that was thrown already.
+	void check_unreported_error() {
+		if (!m_errorReported) check_error();
+	}
+
+	// any, any
+	bool write_failed() {
+		return m_writeFailed;
+	}
+
+	// any, stream
+	void clear_error() {
+		m_error = nullptr;
+		m_writeFailed = m_errorReported = false;
+	}
+
 	// write, stream
 	void clear_block_info() {
 		m_blockNumber = std::numeric_limits<stream_size_type>::max();
@@ -168,6 +210,11 @@ private:
 	bool m_endOfStream;
 	stream_size_type m_nextReadOffset;
 	memory_size_type m_nextBlockSize;
+
+	// Information about a failed request
+	std::exception_ptr m_error;
+	bool m_writeFailed;
+	bool m_errorReported;
 };
 
 #ifdef __GNUC__
@@ -194,6 +241,16 @@ public:
 		m_response->initiate_request();
 	}
 
+	// must have lock!
+	void set_error(std::exception_ptr error, bool write) {
+		m_response->set_error(error, write);
+	}
+
+	// must have lock!
+	bool write_failed() {
+		return m_response->write_failed();
+	}
+
 protected:
 	compressor_response * m_response;
 };
diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index ceb5bd7..db85904 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -91,7 +91,12 @@ public:
 	}
 
 	~close_on_fail_guard() {
-		if (!m_committed) m_stream->close();
+		if (m_committed) return;
+		try {
+			m_stream->close();
+		} catch (...) {
+			// The method is already exiting by throwing an exception.
+		}
 	}
 
 	void commit() {
@@ -221,6 +226,7 @@ public:
 		m_lastBlockReadOffset = m_byteStreamAccessor.get_last_block_read_offset();
 		m_currentFileSize = m_byteStreamAccessor.file_size();
 		m_response.clear_block_info();
+		m_response.clear_error();
 		
 		m_o->seek(0);
 	}
@@ -247,6 +253,7 @@ public:
 	///////////////////////////////////////////////////////////////////////////
 	void flush_block(compressor_thread_lock & lock) {
 		uncache_read_writes();
+		m_response.check_error();
 		stream_size_type blockNumber = buffer_block_number();
 		stream_size_type writeOffset;
 		if (!use_compression()) {
@@ -357,12 +364,17 @@ public:
 		// We assume that streamBlocks is monotonically increasing over time;
 		// the response object might throw otherwise.
 		while (!m_response.has_block_info(m_streamBlocks - 1))
-			m_response.wait(l);
+			wait_for_response(l);
 		return m_response.get_read_offset(m_streamBlocks - 1);
 	}
 
-	void finish_requests(compressor_thread_lock & l) {
-		tp_assert(!(m_buffer.get() != 0), "finish_requests called when own buffer is still held");
+	void wait_for_response(compressor_thread_lock & l) {
+		m_response.check_error();
+		m_response.wait(l);
+	}
+
+	void wait_for_requests(compressor_thread_lock & l) {
+		tp_assert(!(m_buffer.get() != 0), "wait_for_requests called when own buffer is still held");
 		m_buffers.clean();
 		while (!m_buffers.empty()) {
 			compressor().wait_for_request_done(l);
@@ -370,6 +382,11 @@ public:
 		}
 	}
 
+	void finish_requests(compressor_thread_lock & l) {
+		wait_for_requests(l);
+		m_response.check_error();
+	}
+
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief  Wait for the compressor thread to be done with our file.
 	///
@@ -384,6 +401,18 @@ public:
 			compressor().wait_for_request_done(l);
 			m_buffers.clean();
 		}
+		m_response.check_error();
+	}
+
+	void closed() {
+		m_open = false;
+		m_bufferDirty = false;
+		m_tempFile = NULL;
+		m_ownedTempFile.reset();
+
+		// If read/write is called on the closed stream,
+		// perform_seek throws an exception.
+		m_o->m_seekState = compressed_stream_base::seek_state::beginning;
 	}
 
 	compressor_thread & compressor() { return the_compressor_thread(); }
@@ -404,7 +433,7 @@ public:
 		// We assume that streamBlocks is monotonically increasing over time;
 		// the response object might throw otherwise.
 		while (!m_response.has_block_info(m_streamBlocks - 1))
-			m_response.wait(l);
+			wait_for_response(l);
 		return m_response.get_read_offset(m_streamBlocks - 1)
 			+ m_response.get_block_size(m_streamBlocks - 1);
 	}
@@ -414,7 +443,9 @@ public:
 	/// \brief  Truncate to zero size.
 	///////////////////////////////////////////////////////////////////////////
 	void truncate_zero() {
+		close_on_fail_guard closeOnFail(m_o);
 		// No need to flush block
+		m_bufferDirty = false;
 		m_buffer.reset();
 		m_updateReadOffsetFromWrite = false;
 		compressor_thread_lock l(compressor());
@@ -431,6 +462,7 @@ public:
 		m_o->m_nextItem = m_o->m_bufferBegin;
 		m_o->m_seekState = compressed_stream_base::seek_state::none;
 		uncache_read_writes();
+		closeOnFail.commit();
 	}
 
 	void truncate_uncompressed(stream_size_type offset) {
@@ -456,6 +488,7 @@ public:
 		} else {
 			// We need to do a truncate on the file accessor.
 			// Get rid of the current block first.
+			close_on_fail_guard closeOnFail(m_o);
 			compressor_thread_lock l(compressor());
 			if (offset < buffer_block_number() * m_blockItems) {
 				// No need to flush current block, since we are truncating it away.
@@ -472,6 +505,7 @@ public:
 			m_byteStreamAccessor.truncate(offset);
 			m_o->m_size = offset;
 			m_streamBlocks = (offset + m_blockItems - 1) / m_blockItems;
+			closeOnFail.commit();
 		}
 		m_o->seek(std::min(currentOffset, offset));
 	}
@@ -494,6 +528,7 @@ public:
 			perform_seek(keepsFullBlocks ? read_direction::backward : read_direction::forward);
 		}
 	
+		close_on_fail_guard closeOnFail(m_o);
 		// We are truncating into the currently loaded block.
 		if (buffer_block_number() < m_streamBlocks) {
 			// Writes that are still in progress set the block info.
@@ -518,6 +553,7 @@ public:
 		} else {
 			m_bufferDirty = true;
 		}
+		closeOnFail.commit();
 	
 		m_o->set_position(finalDestination);
 	}
@@ -542,6 +578,7 @@ public:
 			while (!m_response.done()) {
 				m_response.wait(lock);
 			}
+			m_response.check_error();
 			if (m_response.has_block_info(m_lastWriteBlockNumber)) {
 				m_readOffset = m_response.get_read_offset(m_lastWriteBlockNumber);
 				m_nextReadOffset = m_readOffset + m_response.get_block_size(m_lastWriteBlockNumber);
@@ -657,6 +694,7 @@ public:
 		while (m_buffer->is_busy()) {
 			m_response.wait(lock);
 		}
+		m_response.check_error();
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -891,27 +929,36 @@ void compressed_stream_base::close() {
 	m_p->uncache_read_writes();
 	if (m_p->m_open) {
 		compressor_thread_lock l(m_p->compressor());
+		try {
+			if (m_p->m_bufferDirty && !m_p->m_response.write_failed())
+				m_p->flush_block(l);
 
-		if (m_p->m_bufferDirty)
-			m_p->flush_block(l);
-
-		m_p->m_buffer.reset();
+			m_p->m_buffer.reset();
+			m_p->wait_for_requests(l);
 
-		m_p->finish_requests(l);
-
-		if (m_p->use_compression()) {
-			m_p->m_byteStreamAccessor.set_last_block_read_offset(m_p->last_block_read_offset(l));
+			if (m_p->m_response.write_failed()) {
+				m_p->m_byteStreamAccessor.abandon();
+				m_p->m_response.check_unreported_error();
+			} else {
+				if (m_p->use_compression()) {
+					m_p->m_byteStreamAccessor.set_last_block_read_offset(m_p->last_block_read_offset(l));
+				}
+				m_p->m_byteStreamAccessor.set_size(m_size);
+				m_p->m_byteStreamAccessor.close();
+			}
+		} catch (...) {
+			m_p->m_buffer.reset();
+			m_p->wait_for_requests(l);
+			try {
+				m_p->m_byteStreamAccessor.abandon();
+			} catch (...) {
+				// Report what went wrong first.
+			}
+			m_p->closed();
+			throw;
 		}
-		m_p->m_byteStreamAccessor.set_size(m_size);
-		m_p->m_byteStreamAccessor.close();
 	}
-	m_p->m_open = false;
-	m_p->m_tempFile = NULL;
-	m_p->m_ownedTempFile.reset();
-
-	// If read/write is called on the closed stream,
-	// perform_seek throws an exception.
-	m_seekState = seek_state::beginning;
+	m_p->closed();
 }
 
 
@@ -938,6 +985,7 @@ void compressed_stream_base::peak_unlikely() {
 	if (m_seekState != seek_state::none) m_p->perform_seek();
 	if (m_offset == m_size) throw end_of_stream_exception();
 	if (m_nextItem == m_bufferEnd) {
+		close_on_fail_guard closeOnFail(this);
 		compressor_thread_lock l(m_p->compressor());
 		if (m_p->m_bufferDirty) {
 			m_p->m_updateReadOffsetFromWrite = false;
@@ -945,6 +993,7 @@ void compressed_stream_base::peak_unlikely() {
 		}
 		// At this point, block_number() == buffer_block_number() + 1
 		m_p->read_next_block(l, m_p->block_number());
+		closeOnFail.commit();
 	}
 }
 
@@ -956,6 +1005,7 @@ void compressed_stream_base::read_back_unlikely() {
 	if (m_nextItem == m_bufferBegin) {
 		if (m_offset == 0) throw end_of_stream_exception();
 		m_p->uncache_read_writes();
+		close_on_fail_guard closeOnFail(this);
 		compressor_thread_lock l(m_p->compressor());
 		if (m_p->m_bufferDirty) {
 			m_p->m_updateReadOffsetFromWrite = true;
@@ -967,6 +1017,7 @@ void compressed_stream_base::read_back_unlikely() {
 			m_p->read_next_block(l, m_p->block_number() - 1);
 			m_nextItem = m_bufferEnd;
 		}
+		closeOnFail.commit();
 	}
 }
 
@@ -976,6 +1027,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 	
 	if (!m_p->use_compression()) {
 		if (m_nextItem == m_bufferEnd) {
+			close_on_fail_guard closeOnFail(this);
 			compressor_thread_lock lock(m_p->compressor());
 			if (m_p->m_bufferDirty) {
 				m_p->m_updateReadOffsetFromWrite = true;
@@ -987,6 +1039,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 			} else {
 				m_p->read_next_block(lock, m_p->block_number());
 			}
+			closeOnFail.commit();
 		}
 		if (offset() == m_size) ++m_size;
 		memcpy(m_nextItem, item, m_p->m_itemSize);
@@ -1001,6 +1054,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 		throw stream_exception("Non-appending write attempted");
 	
 	if (m_nextItem == m_bufferEnd) {
+		close_on_fail_guard closeOnFail(this);
 		compressor_thread_lock l(m_p->compressor());
 		if (m_p->m_bufferDirty) {
 			m_p->m_updateReadOffsetFromWrite = true;
@@ -1008,6 +1062,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 		}
 		m_p->get_buffer(l, m_p->m_streamBlocks);
 		m_nextItem = m_bufferBegin;
+		closeOnFail.commit();
 	}
 	
 	memcpy(m_nextItem, item, m_p->m_itemSize);
@@ -1181,6 +1236,7 @@ stream_position compressed_stream_base::get_position() {
 		if (m_nextItem == m_bufferEnd && m_p->m_bufferDirty) {
 			// The last block is full, but we do not know where it is going to end in the file.
 			// Make sure the position we get is not at the end of a block
+			close_on_fail_guard closeOnFail(this);
 			compressor_thread_lock lock(m_p->compressor());
 			m_p->m_updateReadOffsetFromWrite = false;
 			m_p->flush_block(lock);
@@ -1188,6 +1244,7 @@ stream_position compressed_stream_base::get_position() {
 			m_nextItem = m_bufferBegin;
 			// A read_back from here starts where the flushed block ends.
 			m_p->m_readOffset = m_p->current_file_size(lock);
+			closeOnFail.commit();
 		} else if (m_p->buffer_block_number() != m_p->m_streamBlocks) {
 			if (m_nextItem == m_bufferEnd)
 				return stream_position(m_p->m_nextReadOffset, m_offset);
diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index 51baaa5..f88e304 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -119,15 +119,20 @@ public:
 				m_requests.pop();
 				lock.unlock();
 
-				switch (r.kind()) {
-					case compressor_request_kind::NONE:
-						throw exception("Invalid request");
-					case compressor_request_kind::READ:
-						process_read_request(r.get_read_request());
-						break;
-					case compressor_request_kind::WRITE:
-						process_write_request(r.get_write_request());
-						break;
+				try {
+					switch (r.kind()) {
+						case compressor_request_kind::NONE:
+							throw exception("Invalid request");
+						case compressor_request_kind::READ:
+							process_read_request(r.get_read_request());
+							break;
+						case compressor_request_kind::WRITE:
+							process_write_request(r.get_write_request());
+							break;
+					}
+				} catch (...) {
+					// The stream throws the exception when it needs the result.
+					request_failed(r, std::current_exception());
 				}
 			}
 			lock.lock();
@@ -136,6 +141,22 @@ public:
 	}
 
 private:
+	void request_failed(compressor_request & r, std::exception_ptr error) {
+		compressor_thread_lock::lock_t lock(mutex());
+		switch (r.kind()) {
+			case compressor_request_kind::NONE:
+				break;
+			case compressor_request_kind::READ:
+				r.get_read_request().buffer()->set_state(compressor_buffer_state::dirty);
+				r.get_read_request().set_error(error, false);
+				break;
+			case compressor_request_kind::WRITE:
+				r.get_write_request().buffer()->set_state(compressor_buffer_state::dirty);
+				r.get_write_request().set_error(error, true);
+				break;
+		}
+	}
+
 	void checked_read(read_request & rr, stream_size_type readOffset, void * buf, memory_size_type count) {
 		memory_size_type nRead = rr.file_accessor().read(readOffset, buf, count);
 		if (nRead != count) {
@@ -155,7 +176,7 @@ private:
 			if (blockSize > rr.buffer()->capacity()) {
 				throw stream_exception("Internal error; blockSize > buffer capacity");
 			}
-			rr.file_accessor().read(readOffset, rr.buffer()->get(), blockSize);
+			checked_read(rr, readOffset, rr.buffer()->get(), blockSize);
 			rr.buffer()->set_size(blockSize);
 			compressor_thread_lock::lock_t lock(mutex());
 			// Notify that reading has completed.
@@ -221,6 +242,12 @@ private:
 
 	void process_write_request(write_request & wr) {
 		stat_timer t(4); // Time writing
+		{
+			// Nothing may be written after a block that is missing.
+			compressor_thread_lock::lock_t lock(mutex());
+			if (wr.write_failed())
+				throw stream_exception("An earlier block could not be written");
+		}
 		size_t inputLength = wr.buffer()->size();
 		if (!wr.file_accessor().get_compressed()) {
 			// Uncompressed case
diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 9354e01..40b15ce 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -148,9 +148,11 @@ bool posix::is_open() const {
 
 void posix::close_i() {
 	if (m_fd == -1) return;
-	if (::close(m_fd) == -1) throw_errno();
-	get_file_manager().decrement_open_file_count();
+	// Even if an error is reported, the file descriptor is closed.
+	int fd = m_fd;
 	m_fd = -1;
+	get_file_manager().decrement_open_file_count();
+	if (::close(fd) == -1) throw_errno();
 }
 
 void posix::truncate_i(stream_size_type bytes) {
diff --git a/tpie/file_accessor/stream_accessor_base.h b/tpie/file_accessor/stream_accessor_base.h
index d1e8e24..8779c55 100644
--- a/tpie/file_accessor/stream_accessor_base.h
+++ b/tpie/file_accessor/stream_accessor_base.h
@@ -131,6 +131,11 @@ public:
 
 	inline void close();
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Close the file without marking it as properly closed.
+	///////////////////////////////////////////////////////////////////////////
+	inline void abandon();
+
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Read the given number of items from the given block into the
 	/// given buffer.
diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index 830e45e..cebc4bc 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -168,10 +168,21 @@ template <typename file_accessor_t>
 void stream_accessor_base<file_accessor_t>::close() {
 	if (!m_open)
 		return;
-	if (m_write)
-		write_header(true);
+	try {
+		if (m_write)
+			write_header(true);
+	} catch (...) {
+		abandon();
+		throw;
+	}
+	m_open = false;
 	m_fileAccessor.close_i();
+}
+
+template <typename file_accessor_t>
+void stream_accessor_base<file_accessor_t>::abandon() {
 	m_open = false;
+	m_fileAccessor.close_i();
 }
 
 template <typename file_accessor_t>
-- 
2.43.0


From 26ba4b6c66237fee31fd53c4e5de7741a4a94a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 46/94] fix: a file block whose write failed was left half
 freed

---
 tpie/file_base.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tpie/file_base.cpp b/tpie/file_base.cpp
index 266da86..e579a41 100644
--- a/tpie/file_base.cpp
+++ b/tpie/file_base.cpp
@@ -98,14 +98,16 @@ file_base::block_t * file_base::get_block(stream_size_type block) {
 
 void file_base::free_block(block_t * block) {
 	assert(block->usage > 0);
-	--block->usage;
-	if (block->usage > 0) return;
-
-	if (block->dirty || !m_canRead) {
+	if (block->usage == 1 && (block->dirty || !m_canRead)) {
 		assert(m_canWrite);
+		// If this throws, the block is still in use.
 		m_fileAccessor->write_block(block->data, block->number, block->size);
+		block->dirty = false;
 	}
 
+	--block->usage;
+	if (block->usage > 0) return;
+
 	boost::intrusive::list<block_t>::iterator i = m_used.iterator_to(*block);
 
 	m_used.erase(i);
-- 
2.43.0


From 3404534b1d135df0fdcbf57c843736ebbb6a4f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 47/94] fix: uncompressed_stream took a block it failed to read
 for the block in its buffer

---
 tpie/file_stream_base.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tpie/file_stream_base.cpp b/tpie/file_stream_base.cpp
index 4cb4f1c..a636c8b 100644
--- a/tpie/file_stream_base.cpp
+++ b/tpie/file_stream_base.cpp
@@ -38,7 +38,14 @@ file_stream_base::file_stream_base(memory_size_type itemSize,
 
 void file_stream_base::get_block(stream_size_type block) {
 	get_block_check(block);
-	read_block(m_block, block);
+	try {
+		read_block(m_block, block);
+	} catch (...) {
+		// The buffer does not hold the block, so don't seek into it.
+		m_block.number = std::numeric_limits<stream_size_type>::max();
+		m_block.size = 0;
+		throw;
+	}
 }
 
 void file_stream_base::update_block_core() {
-- 
2.43.0


From 3d9c0faaadb7b1bbf20ac271651322633044dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 48/94] fix: a file stayed open without its buffer when closing
 it failed

---
 tpie/file_base_crtp.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpie/file_base_crtp.h b/tpie/file_base_crtp.h
index 0a78d7d..a664ddc 100644
--- a/tpie/file_base_crtp.h
+++ b/tpie/file_base_crtp.h
@@ -245,10 +245,12 @@ public:
 	/// Note all streams into the file must be freed before you call close.
 	/////////////////////////////////////////////////////////////////////////
 	inline void close() {
-		if (m_open) m_fileAccessor->close();
+		const bool wasOpen = m_open;
 		m_open = false;
 		m_tempFile = NULL;
-		m_ownedTempFile.reset();
+		// The temporary file must not be removed before it is closed.
+		tpie::unique_ptr<temp_file> ownedTempFile(std::move(m_ownedTempFile));
+		if (wasOpen) m_fileAccessor->close();
 	}
 
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From d398d7713c1289bb81d1a16b59e9b9405872602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 49/94] fix: uncompressed_stream lost its position and size
 when truncating it failed

---
 tpie/file_stream_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/file_stream_base.h b/tpie/file_stream_base.h
index 2608d94..4c99e77 100644
--- a/tpie/file_stream_base.h
+++ b/tpie/file_stream_base.h
@@ -67,12 +67,13 @@ public:
 	inline void truncate(stream_size_type size) {
 		stream_size_type o=offset();
 		flush_block();
+		// If this throws, the stream is as it was.
+		m_fileAccessor->truncate(size);
 		m_block.number = std::numeric_limits<stream_size_type>::max();
 		m_nextBlock = std::numeric_limits<stream_size_type>::max();
 		m_nextIndex = std::numeric_limits<memory_size_type>::max();
 		m_index = std::numeric_limits<memory_size_type>::max();
 		m_size = size;
-		m_fileAccessor->truncate(size);
 		if (m_tempFile)
 			m_tempFile->update_recorded_size(m_fileAccessor->byte_size());
 		seek(std::min(o, size));
-- 
2.43.0


From 70fe6c23ab25448e5a8019c7b5744c22b03750c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 50/94] fix: a serialization file that lost a block was closed
 as a whole one, and a writer whose close failed stayed open without its
 buffer

---
 tpie/serialization_stream.cpp | 27 +++++++++++++++++++++------
 tpie/serialization_stream.h   |  7 +++++++
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index a661260..a4cf0cf 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -199,8 +199,14 @@ void serialization_writer_base::open(temp_file & tempFile, bool reverse) {
 void serialization_writer_base::write_block(const char * const s, const memory_size_type n) {
 	assert(n <= block_size());
 	stream_size_type offset = m_blocksWritten * block_size();
-	m_fileAccessor.seek_i(bits::serialization_header::header_size() + offset);
-	m_fileAccessor.write_i(s, n);
+	try {
+		m_fileAccessor.seek_i(bits::serialization_header::header_size() + offset);
+		m_fileAccessor.write_i(s, n);
+	} catch (...) {
+		// The stream lacks (a part of) an item from now on.
+		abandon();
+		throw;
+	}
 	++m_blocksWritten;
 	m_size = offset + n;
 	if (m_tempFile)
@@ -212,10 +218,19 @@ void serialization_writer_base::close(bool reverse) {
 	bits::serialization_header header(m_fileAccessor);
 	header.set_size(m_size);
 	header.set_reverse(reverse);
-	header.write(true);
-	m_fileAccessor.close_i();
+	try {
+		header.write(true);
+	} catch (...) {
+		abandon();
+		throw;
+	}
+	abandon();
+}
+
+void serialization_writer_base::abandon() {
 	m_open = false;
 	m_tempFile = 0;
+	m_fileAccessor.close_i();
 }
 
 stream_size_type serialization_writer_base::file_size() {
@@ -253,7 +268,7 @@ void serialization_writer::open(temp_file & tempFile) {
 }
 
 void serialization_writer::close() {
-	if (m_index > 0) write_block();
+	if (is_open() && m_index > 0) write_block();
 	m_block.resize(0);
 	m_index = 0;
 	p_t::close(false);
@@ -290,7 +305,7 @@ void serialization_reverse_writer::open(temp_file & tempFile) {
 }
 
 void serialization_reverse_writer::close() {
-	if (m_index > 0) write_block();
+	if (is_open() && m_index > 0) write_block();
 	m_block.resize(0);
 	m_index = 0;
 	p_t::close(true);
diff --git a/tpie/serialization_stream.h b/tpie/serialization_stream.h
index f0674c9..204cb6b 100644
--- a/tpie/serialization_stream.h
+++ b/tpie/serialization_stream.h
@@ -73,6 +73,13 @@ protected:
 
 	void close(bool reverse);
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Close the file without marking it as properly closed.
+	///////////////////////////////////////////////////////////////////////////
+	void abandon();
+
+	bool is_open() const { return m_open; }
+
 public:
 	static memory_size_type memory_usage() { return block_size(); }
 
-- 
2.43.0


From 1a1577a523874be2c1fce55f5c060eb32d1c226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 51/94] fix: a failing write ended the process when
 serialization_reverse_writer::serialize ran into it

---
 tpie/serialization_stream.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tpie/serialization_stream.h b/tpie/serialization_stream.h
index 204cb6b..d49057c 100644
--- a/tpie/serialization_stream.h
+++ b/tpie/serialization_stream.h
@@ -191,6 +191,13 @@ public:
 		}
 
 		~serializer() {
+			wr.m_serializationBuffer.resize(0);
+		}
+
+		///////////////////////////////////////////////////////////////////////
+		/// \brief  Put what has been written in front of the stream.
+		///////////////////////////////////////////////////////////////////////
+		void commit() {
 			std::vector<char> & data = wr.m_serializationBuffer;
 			const memory_size_type n = data.size();
 			const char * const s = data.data();
@@ -214,7 +221,6 @@ public:
 					wr.m_index += writeSize;
 				}
 			}
-			data.resize(0);
 		}
 	};
 
@@ -238,6 +244,7 @@ public:
 		using tpie::serialize;
 		serializer s(*this);
 		serialize(s, v);
+		s.commit();
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -252,6 +259,7 @@ public:
 		using tpie::serialize;
 		serializer s(*this);
 		serialize(s, a, b);
+		s.commit();
 	}
 };
 
-- 
2.43.0


From d287d2c915b7d234d9f9401096266b03e7efe249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 52/94] fix: a compressed stream whose truncation failed was
 closed as a whole file

---
 tpie/compressed/stream_base.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index db85904..7bdb294 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -79,6 +79,8 @@ typedef std::shared_ptr<compressor_buffer> buffer_t;
 ///
 /// At every proper exit point from the method, commit() must be called.
 /// If the method exits without committing, close() is called.
+/// After begin_damage(flag), the flag is set before that, which makes close()
+/// leave the file marked as not properly closed.
 /// Care should be taken to ensure that the compressor lock is not held when
 /// this object is destructed!
 ///////////////////////////////////////////////////////////////////////////////
@@ -87,11 +89,13 @@ public:
 	close_on_fail_guard(compressed_stream_base * s)
 		: m_committed(false)
 		, m_stream(s)
+		, m_damaged(nullptr)
 	{
 	}
 
 	~close_on_fail_guard() {
 		if (m_committed) return;
+		if (m_damaged) *m_damaged = true;
 		try {
 			m_stream->close();
 		} catch (...) {
@@ -103,9 +107,14 @@ public:
 		m_committed = true;
 	}
 
+	void begin_damage(bool & damaged) {
+		m_damaged = &damaged;
+	}
+
 private:
 	bool m_committed;
 	compressed_stream_base * m_stream;
+	bool * m_damaged;
 };
 
 
@@ -118,6 +127,8 @@ public:
 	 * If block_number() is m_streamBlocks, m_bufferDirty is true.
 	 */
 	bool m_bufferDirty;
+	/** A truncation failed half way: what is in the file is not the stream. */
+	bool m_damaged;
 	/** Number of items in a logical block. */
 	memory_size_type m_blockItems;
 	/** Size (in bytes) of a logical (uncompressed) block. */
@@ -182,6 +193,7 @@ public:
 	
 	compressed_stream_base_p(memory_size_type itemSize, double blockFactor, compressed_stream_base * outer)
 		: m_bufferDirty(false)
+		, m_damaged(false)
 		, m_blockItems(block_size(blockFactor) / itemSize)
 		, m_blockSize(block_size(blockFactor))
 		, m_canRead(false)
@@ -227,6 +239,7 @@ public:
 		m_currentFileSize = m_byteStreamAccessor.file_size();
 		m_response.clear_block_info();
 		m_response.clear_error();
+		m_damaged = false;
 		
 		m_o->seek(0);
 	}
@@ -444,6 +457,8 @@ public:
 	///////////////////////////////////////////////////////////////////////////
 	void truncate_zero() {
 		close_on_fail_guard closeOnFail(m_o);
+		finish_file_access();
+		closeOnFail.begin_damage(m_damaged);
 		// No need to flush block
 		m_bufferDirty = false;
 		m_buffer.reset();
@@ -489,18 +504,21 @@ public:
 			// We need to do a truncate on the file accessor.
 			// Get rid of the current block first.
 			close_on_fail_guard closeOnFail(m_o);
-			compressor_thread_lock l(compressor());
 			if (offset < buffer_block_number() * m_blockItems) {
 				// No need to flush current block, since we are truncating it away.
 			} else {
 				// Changes to the current block may still be visible after the truncate.
 				if (m_bufferDirty) {
 					m_updateReadOffsetFromWrite = false;
+					compressor_thread_lock l(compressor());
 					flush_block(l);
 				}
 			}
+			finish_file_access();
+			closeOnFail.begin_damage(m_damaged);
 			m_buffer.reset();
 			m_bufferDirty = false;
+			compressor_thread_lock l(compressor());
 			finish_requests(l);
 			m_byteStreamAccessor.truncate(offset);
 			m_o->m_size = offset;
@@ -533,6 +551,7 @@ public:
 		if (buffer_block_number() < m_streamBlocks) {
 			// Writes that are still in progress set the block info.
 			finish_file_access();
+			closeOnFail.begin_damage(m_damaged);
 			m_streamBlocks = buffer_block_number() + 1;
 			m_lastBlockReadOffset = keepsFullBlocks ? m_readOffset : pos.read_offset();
 			m_currentFileSize = std::numeric_limits<stream_size_type>::max();
@@ -540,6 +559,7 @@ public:
 			m_response.clear_block_info();
 			m_updateReadOffsetFromWrite = false;
 		}
+		closeOnFail.begin_damage(m_damaged);
 		m_o->m_size = offset;
 		if (offset < m_o->m_offset) {
 			m_o->m_offset = offset;
@@ -930,13 +950,13 @@ void compressed_stream_base::close() {
 	if (m_p->m_open) {
 		compressor_thread_lock l(m_p->compressor());
 		try {
-			if (m_p->m_bufferDirty && !m_p->m_response.write_failed())
+			if (m_p->m_bufferDirty && !m_p->m_response.write_failed() && !m_p->m_damaged)
 				m_p->flush_block(l);
 
 			m_p->m_buffer.reset();
 			m_p->wait_for_requests(l);
 
-			if (m_p->m_response.write_failed()) {
+			if (m_p->m_response.write_failed() || m_p->m_damaged) {
 				m_p->m_byteStreamAccessor.abandon();
 				m_p->m_response.check_unreported_error();
 			} else {
-- 
2.43.0


From 0860fc1444f9722fe2fc43fd20ff655584625d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 53/94] fix: block_collection_cache lost a block it failed to
 write, and leaked one it failed to read

---
 tpie/blocks/block_collection_cache.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tpie/blocks/block_collection_cache.cpp b/tpie/blocks/block_collection_cache.cpp
index 79dba63..d2d77c4 100644
--- a/tpie/blocks/block_collection_cache.cpp
+++ b/tpie/blocks/block_collection_cache.cpp
@@ -43,9 +43,10 @@ block_collection_cache::~block_collection_cache() {
 }
 
 block_handle block_collection_cache::get_free_block() {
+	prepare_cache(); // make space in the cache for the new block
+
 	block_handle h = m_collection.get_free_block();
 	block * cache_b = tpie_new<block>(m_blockSize);
-	prepare_cache();
 	add_to_cache(h, cache_b, true);
 	return h;
 }
@@ -72,11 +73,11 @@ void block_collection_cache::prepare_cache() {
 
 	// write the last accessed block to disk
 	block_handle handle = m_blockList.front();
-	m_blockList.pop_front();
 
 	block_map_t::iterator i = m_blockMap.find(handle);
-	if(i->second.dirty)
+	if(i->second.dirty) // if this throws, the block stays in the cache
 		m_collection.write_block(i->first, *(i->second.pointer));
+	m_blockList.pop_front();
 	tpie_delete(i->second.pointer);
 	--m_curSize;
 	m_blockMap.erase(i);
@@ -110,7 +111,12 @@ block * block_collection_cache::read_block(block_handle handle) {
 	prepare_cache(); // make space in the cache for the new block
 
 	block * cache_b = tpie_new<block>();
-	m_collection.read_block(handle, *cache_b);
+	try {
+		m_collection.read_block(handle, *cache_b);
+	} catch (...) {
+		tpie_delete(cache_b);
+		throw;
+	}
 	add_to_cache(handle, cache_b, false);
 
 	return cache_b;
-- 
2.43.0


From c7882c85ba5f3951060f698891e73fb2b6ad3b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:51 +0000
Subject: [PATCH 54/94] fix: jobs were never run without workers, and a job
 spawning jobs while the pool is resized ended the process

---
 tpie/job.cpp | 49 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/tpie/job.cpp b/tpie/job.cpp
index 3ee1ed6..2474a29 100644
--- a/tpie/job.cpp
+++ b/tpie/job.cpp
@@ -41,20 +41,24 @@ public:
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Default constructor.
 	///////////////////////////////////////////////////////////////////////////
-	job_manager() : m_jobs(128), m_kill_job_pool(false) {}
+	job_manager() : m_jobs(128), m_kill_job_pool(false), m_finished(false) {}
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Initialize the thread pool.
 	///////////////////////////////////////////////////////////////////////////
 	void init_pool(size_t threads) {
-		m_kill_job_pool = false;
-		m_thread_pool.resize(threads);
+		{
+			std::lock_guard<std::mutex> lock(jobs_mutex);
+			m_kill_job_pool = false;
+			m_thread_pool.resize(threads);
+		}
 		for (size_t i = 0; i < threads; ++i) {
 			std::function<void()> f(worker);
 			std::thread t(f);
 			// thread is move-constructible
 			m_thread_pool[i].swap(t);
 		}
+		if (threads == 0) run_queued();
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -70,6 +74,14 @@ public:
 		}
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Accept no more jobs. Must be followed by shutdown_pool().
+	///////////////////////////////////////////////////////////////////////////
+	void finish() {
+		std::lock_guard<std::mutex> lock(jobs_mutex);
+		m_finished = true;
+	}
+
 	size_t worker_count() const noexcept {
 		return m_thread_pool.size();
 	}
@@ -93,6 +105,11 @@ private:
 	///////////////////////////////////////////////////////////////////////////
 	bool m_kill_job_pool;
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief True when the pool is going away and no more jobs are accepted.
+	///////////////////////////////////////////////////////////////////////////
+	bool m_finished;
+
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Worker thread entry point.
 	///////////////////////////////////////////////////////////////////////////
@@ -108,6 +125,11 @@ private:
 		}
 	};
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Run the jobs that were left in the queue in this thread.
+	///////////////////////////////////////////////////////////////////////////
+	void run_queued();
+
 	friend class tpie::job;
 };
 
@@ -124,6 +146,7 @@ void init_job() {
 }
 
 void finish_job() {
+	the_job_manager->finish();
 	the_job_manager->shutdown_pool();
 	tpie_delete(the_job_manager);
 	the_job_manager = 0;
@@ -136,6 +159,17 @@ void set_worker_count(memory_size_type workers) {
 	}
 }
 
+void job_manager::run_queued() {
+	for (;;) {
+		std::unique_lock<std::mutex> lock(jobs_mutex);
+		if (m_jobs.empty()) break;
+		tpie::job * j = m_jobs.front();
+		m_jobs.pop();
+		lock.unlock();
+		j->run();
+	}
+}
+
 job::job()
 	: m_dependencies(0)
 	, m_parent(0)
@@ -156,17 +190,16 @@ bool job::is_done() {
 }
 
 void job::enqueue(job * parent) {
+	std::unique_lock<std::mutex> lock(the_job_manager->jobs_mutex);
 	if (m_state != job_idle)
 		throw tpie::exception("Bad job state");
-
+	if (the_job_manager->m_finished) throw job_manager_exception();
 	m_state = job_enqueued;
-
-	std::unique_lock<std::mutex> lock(the_job_manager->jobs_mutex);
-	if (the_job_manager->m_kill_job_pool) throw job_manager_exception();
 	m_parent = parent;
 	m_dependencies = 1;
 	if (m_parent) ++m_parent->m_dependencies;
-	if (the_job_manager->m_jobs.full()) {
+	if (the_job_manager->m_jobs.full() || the_job_manager->worker_count() == 0) {
+		// No room in the queue, or nobody to run the job for us.
 		lock.unlock();
 		run();
 		return;
-- 
2.43.0


From 215a2ca9359506b750d9748b4b9b7cb99bb27a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 55/94] fix: a moved progress_indicator_subindicator no longer
 advanced its parent

---
 tpie/progress_indicator_base.cpp         | 3 +++
 tpie/progress_indicator_subindicator.cpp | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/tpie/progress_indicator_base.cpp b/tpie/progress_indicator_base.cpp
index 89e7845..6fcabbe 100644
--- a/tpie/progress_indicator_base.cpp
+++ b/tpie/progress_indicator_base.cpp
@@ -31,6 +31,7 @@ struct progress_indicator_base::refresh_impl {
 progress_indicator_base::progress_indicator_base(stream_size_type range)
 	: m_range(range)
 	, m_current(0)
+	, m_remainingSteps(1)
 	, m_predictor(nullptr)
 {
 	m_refreshImpl = new progress_indicator_base::refresh_impl;
@@ -39,6 +40,7 @@ progress_indicator_base::progress_indicator_base(stream_size_type range)
 progress_indicator_base::progress_indicator_base(progress_indicator_base&& o)
 	: m_range(o.m_range)
 	, m_current(o.m_current)
+	, m_remainingSteps(o.m_remainingSteps)
 	, m_predictor(o.m_predictor)
 	, m_refreshImpl(o.m_refreshImpl) {
 	o.m_predictor = nullptr;
@@ -48,6 +50,7 @@ progress_indicator_base::progress_indicator_base(progress_indicator_base&& o)
 progress_indicator_base & progress_indicator_base::operator=(progress_indicator_base&& o) {
 	std::swap(m_range, o.m_range);
 	std::swap(m_current, o.m_current);
+	std::swap(m_remainingSteps, o.m_remainingSteps);
 	std::swap(m_predictor, o.m_predictor);
 	std::swap(m_refreshImpl, o.m_refreshImpl);
 	return *this;
diff --git a/tpie/progress_indicator_subindicator.cpp b/tpie/progress_indicator_subindicator.cpp
index 560f330..6dd0b1b 100644
--- a/tpie/progress_indicator_subindicator.cpp
+++ b/tpie/progress_indicator_subindicator.cpp
@@ -73,9 +73,9 @@ progress_indicator_subindicator::progress_indicator_subindicator(progress_indica
 #endif
 {
 #ifndef TPIE_NDEBUG
-	m_init_called = false;
+	o.m_init_called = false;
 #endif
-	m_parent = nullptr;
+	o.m_parent = nullptr;
 }
 
 progress_indicator_subindicator & progress_indicator_subindicator::operator=(progress_indicator_subindicator && o) {
@@ -88,7 +88,7 @@ progress_indicator_subindicator & progress_indicator_subindicator::operator=(pro
 	std::swap(m_logGroupMode, o.m_logGroupMode);
 #ifndef TPIE_NDEBUG
 	std::swap(m_init_called, o.m_init_called);
-	std::swap(m_done_called, m_done_called);
+	std::swap(m_done_called, o.m_done_called);
 #endif
 	return *this;
 }
-- 
2.43.0


From c4fb76f2d61642405043b228feca80b860599dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 56/94] fix: a progress_indicator_subindicator with no steps to
 take never advanced its parent

---
 tpie/progress_indicator_subindicator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpie/progress_indicator_subindicator.cpp b/tpie/progress_indicator_subindicator.cpp
index 6dd0b1b..e269078 100644
--- a/tpie/progress_indicator_subindicator.cpp
+++ b/tpie/progress_indicator_subindicator.cpp
@@ -163,6 +163,12 @@ void progress_indicator_subindicator::done() {
 	if (!m_crumb.empty() && m_parent) m_parent->pop_breadcrumb();
 	progress_indicator_base::done();
 	m_current = m_range; 
+	if (get_range() == 0 && m_parent) {
+		// There were no steps to take; our share of the parent is done anyway.
+		m_parent->raw_step(m_outerRange - m_oldValue);
+		m_oldValue = m_outerRange;
+		return;
+	}
 	refresh();
 }
 
-- 
2.43.0


From a5209ccd9afee1147b24e8feaab0e50044fe9ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 57/94] fix: the terminal progress indicators divided by a
 range of zero

---
 tpie/progress_indicator_arrow.h    | 2 +-
 tpie/progress_indicator_terminal.h | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tpie/progress_indicator_arrow.h b/tpie/progress_indicator_arrow.h
index c74fec4..173ca96 100644
--- a/tpie/progress_indicator_arrow.h
+++ b/tpie/progress_indicator_arrow.h
@@ -105,7 +105,7 @@ namespace tpie {
 			status << std::string(l-progress-1, ' ');
 			status << "] ";
 
-			status << m_current * 100 / m_range << '%';
+			status << percentage() << '%';
 
 			for (std::deque<std::string>::iterator i = m_crumbs.begin(); i != m_crumbs.end(); ++i) {
 				if (i == m_crumbs.begin()) status << ' ';
diff --git a/tpie/progress_indicator_terminal.h b/tpie/progress_indicator_terminal.h
index 5b4b17d..5f5b521 100644
--- a/tpie/progress_indicator_terminal.h
+++ b/tpie/progress_indicator_terminal.h
@@ -147,8 +147,12 @@ protected:
 	    //else {
 		//		std::cout << 
 	    //}
-		stream_size_type r = (m_current) * 100 / (m_range);
-		m_os << r << '%';
+		m_os << percentage() << '%';
+	}
+
+	/** The part of the range that is done; all of it when there is nothing to do. */
+	stream_size_type percentage() const {
+		return m_range != 0 ? m_current * 100 / m_range : 100;
 	}
 	
 	/**  A string holding the description of the title */
-- 
2.43.0


From beb0f90df43470d53b4aa9cf25531acec850c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 58/94] fix: truncating a temporary stream recorded its number
 of items as its size in bytes

---
 tpie/compressed/stream_base.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 7bdb294..1090de9 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -455,6 +455,14 @@ public:
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief  Truncate to zero size.
 	///////////////////////////////////////////////////////////////////////////
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Record the size of a temporary file that was truncated. There
+	/// must be no requests in progress.
+	///////////////////////////////////////////////////////////////////////////
+	void record_file_size() {
+		if (m_tempFile) m_tempFile->update_recorded_size(m_byteStreamAccessor.file_size());
+	}
+
 	void truncate_zero() {
 		close_on_fail_guard closeOnFail(m_o);
 		finish_file_access();
@@ -471,6 +479,7 @@ public:
 		m_o->m_size = 0;
 		m_streamBlocks = 0;
 		m_byteStreamAccessor.truncate(0);
+		record_file_size();
 	
 		m_readOffset = 0;
 		m_o->m_offset = 0;
@@ -521,6 +530,7 @@ public:
 			compressor_thread_lock l(compressor());
 			finish_requests(l);
 			m_byteStreamAccessor.truncate(offset);
+			record_file_size();
 			m_o->m_size = offset;
 			m_streamBlocks = (offset + m_blockItems - 1) / m_blockItems;
 			closeOnFail.commit();
@@ -568,6 +578,7 @@ public:
 		if (keepsFullBlocks) {
 			// The last block is unchanged; the next block is appended after it.
 			m_byteStreamAccessor.truncate_bytes(pos.read_offset());
+			record_file_size();
 			m_currentFileSize = pos.read_offset();
 			m_bufferDirty = false;
 		} else {
@@ -1224,8 +1235,6 @@ void compressed_stream_base::truncate(stream_size_type offset) {
 		m_p->truncate_uncompressed(offset);
 	else
 		throw stream_exception("Arbitrary truncate is not supported");
-	
-	if (m_p->m_tempFile) m_p->m_tempFile->update_recorded_size(m_size);
 }
 
 void compressed_stream_base::truncate(const stream_position & pos) {
@@ -1239,8 +1248,6 @@ void compressed_stream_base::truncate(const stream_position & pos) {
 		m_p->truncate_uncompressed(pos.offset());
 	else
 		m_p->truncate_compressed(pos);
-	
-	if (m_p->m_tempFile) m_p->m_tempFile->update_recorded_size(m_size);
 }
 
 stream_position compressed_stream_base::get_position() {
-- 
2.43.0


From a9a6800413f2a84f81e1b532f1eed9192531b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 59/94] fix: a temporary file that was already gone stayed in
 the reported usage

---
 tpie/tempname.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 7c84c21..6289df4 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -300,11 +300,13 @@ namespace tpie {
 namespace bits {
 
 temp_file_inner::~temp_file_inner() {
-	if (m_path.empty() || m_persist || !std::filesystem::exists(m_path))
+	if (m_path.empty() || m_persist)
 		return;
 
-	std::filesystem::remove(m_path);
+	// The file may be gone already.
 	update_recorded_size(0);
+	std::error_code c;
+	std::filesystem::remove(m_path, c);
 }
 
 temp_file_inner::temp_file_inner() : m_persist(false), m_recordedSize(0), m_count(0) {}
-- 
2.43.0


From 16b1a750700d27058fb72475820188c679a48cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 60/94] fix: the directory used when the one given for
 temporary files is unusable

---
 tpie/tempname.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 6289df4..fdca192 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -265,13 +265,15 @@ void tempname::set_default_path(const std::string&  path, const std::string& sub
 			default_path = path;
 			subdirs.push(""); // signals that the current global subdirectory has not been created yet
 			TP_LOG_WARNING_ID("Could not use " << p << " as directory for temporary files, trying " << path);
+			return;
 		}
 
 		default_path = p.string();
 		subdirs.push(""); // signals that the current global subdirectory has not been created yet
 	} catch (std::filesystem::filesystem_error &) {
 		TP_LOG_WARNING_ID("Could not use " << p << " as directory for temporary files, trying " << path);
-		default_path = path; 
+		default_path = path;
+		subdirs.push(""); // signals that the current global subdirectory has not been created yet
 	}	
 }
 
-- 
2.43.0


From 33b5b024b5963d5a59137c7774f0061ef3b6b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 61/94] fix: the default extension for temporary files was
 ignored

---
 tpie/tempname.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index fdca192..704e187 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -201,8 +201,9 @@ namespace tpie {
 }
 
 std::string tempname::tpie_name(const std::string& post_base, const std::string& dir, const std::string& ext) {
-	if (ext.empty()) return gen_temp(post_base, dir, ".tpie");
-	else return gen_temp(post_base, dir, "." + ext);
+	if (!ext.empty()) return gen_temp(post_base, dir, "." + ext);
+	else if (!default_extension.empty()) return gen_temp(post_base, dir, "." + default_extension);
+	else return gen_temp(post_base, dir, ".tpie");
 }
 
 std::string tempname::tpie_dir_name(const std::string& post_base, const std::string& dir) {
-- 
2.43.0


From d757a3674489aea57785608415ae15fb22f4c134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 62/94] fix: compressed streams hung after the library had been
 shut down and started again

---
 tpie/compressed/thread.cpp | 13 +++++++++++++
 tpie/compressed/thread.h   |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index f88e304..c540ffc 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -89,6 +89,10 @@ public:
 	{
 	}
 
+	void start(compressor_thread_lock & /*lock*/) {
+		m_done = false;
+	}
+
 	void stop(compressor_thread_lock & /*lock*/) {
 		m_done = true;
 		m_newRequest.notify_one();
@@ -365,6 +369,11 @@ void init_compressor() {
 		log_debug() << "Attempted to initiate compressor thread twice" << std::endl;
 		return;
 	}
+	{
+		// It may have been stopped by an earlier finish_compressor().
+		compressor_thread_lock lock(the_compressor_thread());
+		the_compressor_thread().start(lock);
+	}
 	std::thread t(run_the_compressor_thread);
 	the_compressor_thread_handle.swap(t);
 	compressor_thread_already_finished = false;
@@ -414,6 +423,10 @@ void compressor_thread::wait_for_request_done(compressor_thread_lock & l) {
 	pimpl->wait_for_request_done(l);
 }
 
+void compressor_thread::start(compressor_thread_lock & lock) {
+	pimpl->start(lock);
+}
+
 void compressor_thread::stop(compressor_thread_lock & lock) {
 	pimpl->stop(lock);
 }
diff --git a/tpie/compressed/thread.h b/tpie/compressed/thread.h
index ce18034..aa808e4 100644
--- a/tpie/compressed/thread.h
+++ b/tpie/compressed/thread.h
@@ -59,6 +59,8 @@ public:
 
 	void run();
 
+	void start(compressor_thread_lock & lock);
+
 	void stop(compressor_thread_lock & lock);
 
 	void set_preferred_compression(compressor_thread_lock &, compression_scheme::type);
-- 
2.43.0


From 5b66ac8b5330b925e4251c92e06490634c489d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:16 +0000
Subject: [PATCH 63/94] fix: a temporary file that was overwritten kept its old
 recorded size

---
 tpie/serialization_stream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index a4cf0cf..7d38e88 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -194,6 +194,8 @@ void serialization_writer_base::open(std::string path, bool reverse) {
 void serialization_writer_base::open(temp_file & tempFile, bool reverse) {
 	m_tempFile = &tempFile;
 	open_inner(tempFile.path(), reverse);
+	// What was in the file before is gone.
+	m_tempFile->update_recorded_size(m_size);
 }
 
 void serialization_writer_base::write_block(const char * const s, const memory_size_type n) {
-- 
2.43.0


From 7d52f65140fd135f4a1b0cf80b3c262854a6eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:26 +0000
Subject: [PATCH 64/94] fix: a node could not ask for the memory of its data
 structures unless its node map was the authority

---
 tpie/pipelining/node.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/node.cpp b/tpie/pipelining/node.cpp
index bb43ff0..a0385cb 100644
--- a/tpie/pipelining/node.cpp
+++ b/tpie/pipelining/node.cpp
@@ -322,7 +322,8 @@ void node::set_datastructure_memory_limits(const std::string & name, memory_size
 }
 
 memory_size_type node::get_datastructure_memory(const std::string & name) {
-	const bits::node_map::datastructuremap_t & structures = get_node_map()->get_datastructures();
+	const bits::node_map::ptr nodeMap = get_node_map()->find_authority();
+	const bits::node_map::datastructuremap_t & structures = nodeMap->get_datastructures();
 	bits::node_map::datastructuremap_t::const_iterator i = structures.find(name);
 
 	if(i == structures.end())
-- 
2.43.0


From 1dbabe5412500dc97d65b45a014f258b21c6c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:08 +0000
Subject: [PATCH 65/94] fix: two nodes of a phase could not both share memory
 with nodes of another phase without evacuation

---
 tpie/pipelining/runtime.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index 2eee67e..522da87 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1490,10 +1490,13 @@ void runtime::get_phases(const std::map<node *, size_t> & phaseMap,
 			// Green edge
 			log_pipe_debug() << "Green edge: " << fromPhase << " -> " << toPhase << std::endl;
 
-			// Check if we already have a green edge from fromPhase or to toPhase
-			// If so one of edges can't be satisfied, but all green edges must be satisfied
-			if (greenEdges.find(fromPhase) != greenEdges.end() ||
-				revGreenEdges.find(toPhase) != revGreenEdges.end()) {
+			// Check if we already have a green edge from fromPhase to another phase or to toPhase
+			// from another phase. If so one of edges can't be satisfied, but all green edges must
+			// be satisfied
+			auto out = greenEdges.find(fromPhase);
+			auto in = revGreenEdges.find(toPhase);
+			if ((out != greenEdges.end() && out->second != toPhase) ||
+				(in != revGreenEdges.end() && in->second != fromPhase)) {
 				throw tpie::exception("get_phases: can't satisfy all green edges");
 			}
 			greenEdges[fromPhase] = toPhase;
-- 
2.43.0


From 68e82f097a5a3eb423e73f7c62704ab38095cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:44 +0000
Subject: [PATCH 66/94] fix: phases that depend on each other were run if one
 of the dependencies shared memory

---
 tpie/pipelining/runtime.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index 522da87..346ccc6 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1504,6 +1504,15 @@ void runtime::get_phases(const std::map<node *, size_t> & phaseMap,
 		}
 	}
 
+	// A cycle may disappear when the green edges are contracted
+	graph<size_t> dependencies;
+	for (const auto * edges : {&blackEdges, &redEdges})
+		for (const auto & p : *edges) dependencies.add_edge(p.first, p.second);
+	for (const auto & p : greenEdges) dependencies.add_edge(p.first, p.second);
+	if (!dependencies.check_acyclical()) {
+		throw tpie::exception("get_phases: phases depend on each other");
+	}
+
 	disjoint_sets<size_t> contractedNodes(phaseGraph.size());
 	for (size_t i : phaseGraph.get_node_set()) {
 		contractedNodes.make_set(i);
-- 
2.43.0


From 9fc3813e799130b6ee9882122c011c22d289fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:20 +0000
Subject: [PATCH 67/94] fix: memory and files that nodes could use were left
 unassigned when others were at their maximum

---
 tpie/pipelining/runtime.cpp | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index 346ccc6..70e75e7 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1770,6 +1770,9 @@ void runtime::reassign_files(const std::vector<std::vector<node *> > & phases,
 	set_resource_being_assigned(phases[phase], NO_RESOURCE);
 }
 
+// Where nodes that still get no more with larger factors are taken to be at their maximum.
+static const double max_resource_factor = 1e15;
+
 /*static*/
 double runtime::get_files_factor(memory_size_type files, const file_runtime & frt) {
 	memory_size_type min = frt.sum_minimum_usage();
@@ -1788,21 +1791,19 @@ double runtime::get_files_factor(memory_size_type files, const file_runtime & fr
 
 	double c_lo = 0.0;
 	double c_hi = 1.0;
-	// Exponential search
-	memory_size_type oldFilesAssigned = 0;
-	while (true) {
+	// Exponential search. A larger factor need not assign more at once: some nodes may be
+	// at their maximum and the others not yet above their minimum.
+	while (c_hi < max_resource_factor) {
 		double factor = files * c_hi / fraction_sum;
 		memory_size_type filesAssigned = frt.sum_assigned_usage(factor);
-		if (filesAssigned < files && filesAssigned != oldFilesAssigned)
-			c_hi *= 2;
-		else
-			break;
-		oldFilesAssigned = filesAssigned;
+		if (filesAssigned >= files) break;
+		c_hi *= 2;
 	}
 
 	// Binary search
 	while (c_hi - c_lo > 1e-6) {
 		double c = c_lo + (c_hi-c_lo)/2;
+		if (c <= c_lo || c >= c_hi) break;
 		double factor = files * c / fraction_sum;
 		memory_size_type filesAssigned = frt.sum_assigned_usage(factor);
 
@@ -1874,21 +1875,19 @@ double runtime::get_memory_factor(memory_size_type memory, memory_size_type phas
 
 	double c_lo = 0.0;
 	double c_hi = 1.0;
-	// Exponential search
-	memory_size_type oldMemoryAssigned = 0;
-	while (true) {
+	// Exponential search. A larger factor need not assign more at once: some nodes may be
+	// at their maximum and the others not yet above their minimum.
+	while (c_hi < max_resource_factor) {
 		double factor = memory * c_hi / fraction_sum;
 		memory_size_type memoryAssigned = mrt.sum_assigned_usage(factor) + (datastructures_locked ? drt.sum_assigned_memory(phase) : drt.sum_assigned_memory(factor, phase));
-		if (memoryAssigned < memory && memoryAssigned != oldMemoryAssigned)
-			c_hi *= 2;
-		else
-			break;
-		oldMemoryAssigned = memoryAssigned;
+		if (memoryAssigned >= memory) break;
+		c_hi *= 2;
 	}
 
 	// Binary search
 	while (c_hi - c_lo > 1e-6) {
 		double c = c_lo + (c_hi-c_lo)/2;
+		if (c <= c_lo || c >= c_hi) break;
 		double factor = memory * c / fraction_sum;
 		memory_size_type memoryAssigned = mrt.sum_assigned_usage(factor) + (datastructures_locked ? drt.sum_assigned_memory(phase) : drt.sum_assigned_memory(factor, phase));
 
-- 
2.43.0


From 0e5862369ef0ae146bef5edef84d59ab4f3d90f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:33 +0000
Subject: [PATCH 68/94] fix: joining node maps could use a map that joining had
 just freed

---
 tpie/pipelining/tokens.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpie/pipelining/tokens.cpp b/tpie/pipelining/tokens.cpp
index 129001e..1b89a74 100644
--- a/tpie/pipelining/tokens.cpp
+++ b/tpie/pipelining/tokens.cpp
@@ -72,9 +72,10 @@ node_map::ptr node_map::find_authority() {
 	ptr result(i);
 
 	// path compression
-	node_map * j = m_authority.get();
+	node_map::ptr j = m_authority;
 	while (j->m_authority) {
-		node_map * k = j->m_authority.get();
+		// the reference that is replaced may have been the last one
+		node_map::ptr k = j->m_authority;
 		j->m_authority = result;
 		j = k;
 	}
-- 
2.43.0


From 2b1208b8709692626a4eb85c64dbef0613292b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 69/94] fix: an internal reverser could not be compiled

---
 tpie/pipelining/reverse.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/reverse.h b/tpie/pipelining/reverse.h
index bfc0023..89118a3 100644
--- a/tpie/pipelining/reverse.h
+++ b/tpie/pipelining/reverse.h
@@ -166,7 +166,8 @@ public:
 
 	void go() override {
 		while (!m_stack->empty()) {
-			dest.push(m_stack->pop());
+			dest.push(m_stack->top());
+			m_stack->pop();
 			step();
 		}
 	}
-- 
2.43.0


From b5d2cd7ce33cf992afce09f1d123825e8db026d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 70/94] fix: pull_tee could not be compiled

---
 tpie/pipelining/file_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/pipelining/file_stream.h b/tpie/pipelining/file_stream.h
index aaaf028..c519bf5 100644
--- a/tpie/pipelining/file_stream.h
+++ b/tpie/pipelining/file_stream.h
@@ -345,7 +345,7 @@ private:
 };
 
 template <typename source_t, typename T>
-class pull_tee_t {
+class pull_tee_t: public node {
 public:
 	typedef T item_type;
 	pull_tee_t(source_t source, file_stream<item_type> & fs): fs(fs), source(std::move(source)) {
-- 
2.43.0


From 8793068dacc1f4edcac4d35386483607fb015f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:04 +0000
Subject: [PATCH 71/94] fix: a pull node without explicit edges in a virtual
 chunk was connected as if it pushed

---
 tpie/pipelining/virtual.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/pipelining/virtual.h b/tpie/pipelining/virtual.h
index 90d84a1..ed1aa9f 100644
--- a/tpie/pipelining/virtual.h
+++ b/tpie/pipelining/virtual.h
@@ -844,7 +844,7 @@ public:
 		input_type temp(m_input);
 		this->m_nodeMap = temp.get_node_map();
 		fact_t f = std::move(pipe.factory);
-		f.set_destination_kind_push();
+		f.set_destination_kind_pull();
 		m_output = new bits::virtpullsrc_impl<constructed_type, Output>(f.construct(std::move(temp)));
 		this->m_node = bits::virt_node::take_own(m_output);
 		return *this;
-- 
2.43.0


From 1d9d2e8456e3213a76e4608511ba1d1465ec84ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:04 +0000
Subject: [PATCH 72/94] fix: devirtualizing a pull chunk whose input and output
 differ could not be compiled

---
 tpie/pipelining/virtual.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/pipelining/virtual.h b/tpie/pipelining/virtual.h
index ed1aa9f..be865f4 100644
--- a/tpie/pipelining/virtual.h
+++ b/tpie/pipelining/virtual.h
@@ -1254,7 +1254,7 @@ public:
 	explicit devirtualization_pull_factory(virtual_chunk_pull<Input, Output> chunk) : chunk(chunk) {}
 
 	template <typename src_t>
-	bits::devirtualize_pull_begin_node<Input> construct(src_t && src) {
+	bits::devirtualize_pull_begin_node<Output> construct(src_t && src) {
 		auto srcnode = std::make_unique<bits::devirtualize_pull_end_node<src_t, Input>>(std::move(src), chunk);
 		this->init_sub_node(*srcnode);
 		bits::devirtualize_pull_begin_node<Output> r(chunk, std::move(srcnode));
-- 
2.43.0


From 886f78bdb0ea251d8f841fb859f8473eea052b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:04 +0000
Subject: [PATCH 73/94] fix: input of a closed stream forwarded the number of
 items with another type than its readers expect

---
 tpie/pipelining/file_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/pipelining/file_stream.h b/tpie/pipelining/file_stream.h
index c519bf5..fa6df45 100644
--- a/tpie/pipelining/file_stream.h
+++ b/tpie/pipelining/file_stream.h
@@ -63,7 +63,7 @@ public:
 			forward("items", fs.size() - fs.offset());
 			set_steps(fs.size() - fs.offset());
 		} else {
-			forward("items", 0);
+			forward("items", stream_size_type(0));
 		}
 	}
 
-- 
2.43.0


From d67f764d8214e1fec2e9209a32892e1c2d7f83f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:33 +0000
Subject: [PATCH 74/94] fix: pull_output called begin and end of its source a
 second time

---
 tpie/pipelining/file_stream.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tpie/pipelining/file_stream.h b/tpie/pipelining/file_stream.h
index fa6df45..076e878 100644
--- a/tpie/pipelining/file_stream.h
+++ b/tpie/pipelining/file_stream.h
@@ -315,11 +315,9 @@ public:
 	}
 
 	void go() override {
-		source.begin();
 		while (source.can_pull()) {
 			fs.write(source.pull());
 		}
-		source.end();
 	}
 	
 private:
-- 
2.43.0


From 654da4509b2eaea00916ab5d19a5ca3514de3e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:54 +0000
Subject: [PATCH 75/94] fix: items left in a sorter using pointer_store were
 never freed

---
 tpie/pipelining/store.h | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/tpie/pipelining/store.h b/tpie/pipelining/store.h
index d4d7a37..0977de3 100644
--- a/tpie/pipelining/store.h
+++ b/tpie/pipelining/store.h
@@ -172,24 +172,16 @@ struct pointer_store {
 	template <typename element_t>
 	struct specific {
 		typedef element_t element_type;
-		typedef element_t * store_type;
+		typedef tpie::unique_ptr<element_t> store_type;
 		typedef element_t outer_type;
 
 		static const size_t item_size = sizeof(element_t) + sizeof(store_type);
 
-		element_type store_to_element(const store_type e) {
-			element_type ans=*e;
-			tpie_delete(e);
-			return ans;
-		}
-		store_type element_to_store(const element_type & e) {return tpie_new<element_type>(e);}
-		static const element_type & store_as_element(const store_type e) {return *e;}
-		store_type outer_to_store(const outer_type & e) {return tpie_new<element_type>(e);}
-		outer_type store_to_outer(const store_type & e) {
-			outer_type ans=*e;
-			tpie_delete(e);
-			return ans;
-		}
+		element_type store_to_element(store_type e) {return *e;}
+		store_type element_to_store(const element_type & e) {return store_type(tpie_new<element_type>(e));}
+		static const element_type & store_as_element(const store_type & e) {return *e;}
+		store_type outer_to_store(const outer_type & e) {return store_type(tpie_new<element_type>(e));}
+		outer_type store_to_outer(store_type e) {return *e;}
 	};
 
 	template <typename element_t>
-- 
2.43.0


From 807ed5d21d4cea029852b9b55d0351d3ba5902fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 76/94] fix: internal reversers and internal buffers leaked
 when the pipeline was aborted

---
 tpie/pipelining/internal_buffer.h | 13 ++++++++-----
 tpie/pipelining/reverse.h         | 19 ++++++++++++-------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/tpie/pipelining/internal_buffer.h b/tpie/pipelining/internal_buffer.h
index e07efec..529a891 100644
--- a/tpie/pipelining/internal_buffer.h
+++ b/tpie/pipelining/internal_buffer.h
@@ -27,6 +27,7 @@
 #include <tpie/pipelining/node.h>
 #include <tpie/pipelining/factory_helpers.h>
 #include <tpie/internal_queue.h>
+#include <tpie/maybe.h>
 #include <tpie/tpie_assert.h>
 
 namespace tpie::pipelining {
@@ -34,6 +35,7 @@ namespace bits {
 
 template <typename T>
 class internal_buffer_pull_output_t: public node {
+	tpie::maybe<internal_queue<T> > * m_queue_ptr;
 	internal_queue<T> * m_queue;
 public:
 	typedef T item_type;
@@ -45,7 +47,8 @@ public:
 	}
 
 	void propagate() override {
-		m_queue = fetch<internal_queue<T> *>("queue");
+		m_queue_ptr = fetch<tpie::maybe<internal_queue<T> > *>("queue");
+		m_queue = &**m_queue_ptr;
 	}
 
 	bool can_pull() const {
@@ -59,7 +62,7 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_queue);
+		m_queue_ptr->destruct();
 		m_queue=NULL;
 	}
 };
@@ -77,8 +80,8 @@ public:
 	}
 
 	void propagate() override {
-		m_queue = tpie::tpie_new<internal_queue<item_type> >(size);
-		forward("queue", m_queue, 1);
+		m_queue.construct(size);
+		forward("queue", &m_queue, 1);
 	}
 
 	void push(const T & item) {
@@ -87,7 +90,7 @@ public:
 	}
 
 private:
-	internal_queue<item_type> * m_queue;
+	tpie::maybe<internal_queue<item_type> > m_queue;
 	size_t size;
 };
 
diff --git a/tpie/pipelining/reverse.h b/tpie/pipelining/reverse.h
index 89118a3..d090c02 100644
--- a/tpie/pipelining/reverse.h
+++ b/tpie/pipelining/reverse.h
@@ -23,6 +23,7 @@
 #include <tpie/pipelining/node.h>
 #include <tpie/pipelining/pipe_base.h>
 #include <tpie/pipelining/factory_helpers.h>
+#include <tpie/maybe.h>
 #include <tpie/stack.h>
 #include <stack>
 
@@ -83,8 +84,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = tpie_new<std::stack<item_type> >();
-		forward("stack", m_stack, 1);
+		m_stack.construct();
+		forward("stack", &m_stack, 1);
 	}
 
 	///////////////////////////////////////////////////////////////////////////////
@@ -94,7 +95,7 @@ public:
 		m_stack->push(t);
 	}
 private:
-	std::stack<item_type> * m_stack;
+	tpie::maybe<std::stack<item_type> > m_stack;
 	std::shared_ptr<node> m_output;
 };
 
@@ -159,7 +160,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = fetch<std::stack<item_type> *>("stack");
+		m_stack_ptr = fetch<tpie::maybe<std::stack<item_type> > *>("stack");
+		m_stack = &**m_stack_ptr;
 		forward("items", m_stack->size());
 		set_steps(m_stack->size());
 	}
@@ -173,10 +175,11 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_stack);
+		m_stack_ptr->destruct();
 	}
 private:
 	dest_t dest;
+	tpie::maybe<std::stack<item_type> > * m_stack_ptr;
 	std::stack<item_type> * m_stack;
 };
 
@@ -239,7 +242,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = fetch<std::stack<item_type> *>("stack");
+		m_stack_ptr = fetch<tpie::maybe<std::stack<item_type> > *>("stack");
+		m_stack = &**m_stack_ptr;
 		forward("items", m_stack->size());
 	}
 
@@ -260,9 +264,10 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_stack);
+		m_stack_ptr->destruct();
 	}
 private:
+	tpie::maybe<std::stack<item_type> > * m_stack_ptr;
 	std::stack<item_type> * m_stack;
 };
 
-- 
2.43.0


From f7466e8abdc27603e56d54a6f1d6ede6c6ef00c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:24 +0000
Subject: [PATCH 77/94] fix: a sorter used the memory counters of a node after
 the node was destroyed

---
 tpie/pipelining/merge_sorter.cpp |  4 ++--
 tpie/pipelining/merge_sorter.h   |  2 +-
 tpie/pipelining/node.h           |  4 ++--
 tpie/serialization_sorter.h      | 12 ++++++------
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/tpie/pipelining/merge_sorter.cpp b/tpie/pipelining/merge_sorter.cpp
index 89245a5..da6b31f 100644
--- a/tpie/pipelining/merge_sorter.cpp
+++ b/tpie/pipelining/merge_sorter.cpp
@@ -250,10 +250,10 @@ void merge_sorter_base::set_items(stream_size_type n) {
 
 void merge_sorter_base::set_owner(tpie::pipelining::node * n) {
 	if (m_owning_node != nullptr)
-		m_bucketPtr = std::move(m_owning_node->bucket(0));
+		m_owning_node->bucket(0).reset();
 	
 	if (n != nullptr)
-		n->bucket(0) = std::move(m_bucketPtr);
+		n->bucket(0) = m_bucketPtr;
 	
 	m_owning_node = n;
 }
diff --git a/tpie/pipelining/merge_sorter.h b/tpie/pipelining/merge_sorter.h
index 45a58e1..1e380fd 100644
--- a/tpie/pipelining/merge_sorter.h
+++ b/tpie/pipelining/merge_sorter.h
@@ -339,7 +339,7 @@ protected:
 	const linear_memory_usage m_fanout_memory_usage;
     const memory_size_type m_item_size, m_element_file_stream_memory_usage;
 	
-	std::unique_ptr<memory_bucket> m_bucketPtr;
+	std::shared_ptr<memory_bucket> m_bucketPtr;
 	memory_bucket_ref m_bucket;
 
 	array<temp_file> m_runFiles;
diff --git a/tpie/pipelining/node.h b/tpie/pipelining/node.h
index ec1db43..f241993 100644
--- a/tpie/pipelining/node.h
+++ b/tpie/pipelining/node.h
@@ -775,7 +775,7 @@ public:
 	///////////////////////////////////////////////////////////////////////////////
 	/// \brief Access a memory bucket
 	///////////////////////////////////////////////////////////////////////////////
-	std::unique_ptr<memory_bucket> & bucket(size_t i) {
+	std::shared_ptr<memory_bucket> & bucket(size_t i) {
 		if (m_buckets.size() <= i) m_buckets.resize(i+1);
 		if (!m_buckets[i]) m_buckets[i].reset(new memory_bucket());
 		return m_buckets[i];
@@ -799,7 +799,7 @@ private:
 	node_token token;
 
 	node_parameters m_parameters;
-	std::vector<std::unique_ptr<memory_bucket> > m_buckets;
+	std::vector<std::shared_ptr<memory_bucket> > m_buckets;
 	
 	std::map<std::string, any_noncopyable> m_forwardedFromHere;
 	std::map<std::string, node_token::id_t> m_forwardedToHere;
diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index 910ebeb..75ba61e 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -505,9 +505,9 @@ public:
 private:
 	enum sorter_state { state_initial, state_1, state_2, state_3 };
 
-	std::unique_ptr<memory_bucket> m_buffer_bucket_ptr;
+	std::shared_ptr<memory_bucket> m_buffer_bucket_ptr;
 	memory_bucket_ref m_buffer_bucket;
-	std::unique_ptr<memory_bucket> m_item_bucket_ptr;
+	std::shared_ptr<memory_bucket> m_item_bucket_ptr;
 	memory_bucket_ref m_item_bucket;
 	pipelining::node * m_owning_node;
 
@@ -654,13 +654,13 @@ public:
 
 	void set_owner(pipelining::node * n) {
 		if (m_owning_node != nullptr) {
-			m_buffer_bucket_ptr = std::move(m_owning_node->bucket(0));
-			m_item_bucket_ptr = std::move(m_owning_node->bucket(1));
+			m_owning_node->bucket(0).reset();
+			m_owning_node->bucket(1).reset();
 		}
 
 		if (n != nullptr) {
-			n->bucket(0) = std::move(m_buffer_bucket_ptr);
-			n->bucket(1) = std::move(m_item_bucket_ptr);
+			n->bucket(0) = m_buffer_bucket_ptr;
+			n->bucket(1) = m_item_bucket_ptr;
 		}
 
 		m_owning_node = n;
-- 
2.43.0


From 1acedf73f59df2b7776e2b24a1c4582a8bae62e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:35 +0000
Subject: [PATCH 78/94] fix: the memory a serialization sorter declared as its
 minimum was not enough for it

---
 tpie/serialization_sorter.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index 75ba61e..77e352d 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -636,11 +636,12 @@ public:
 
 	static memory_size_type minimum_memory_phase_2() {
 		return serialization_writer::memory_usage()
-			+ 2*serialization_reader::memory_usage();
+			+ 2*(sizeof(T) + serialization_reader::memory_usage());
 	}
 
 	static memory_size_type minimum_memory_phase_3() {
-		return 2*serialization_reader::memory_usage();
+		// calculate_parameters demands as much as for phase 2
+		return minimum_memory_phase_2();
 	}
 
 	memory_size_type actual_memory_phase_3() {
-- 
2.43.0


From b2eed34fe79e873169348497c594538c4f7b5ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:47 +0000
Subject: [PATCH 79/94] fix: an exception from begin() next to a parallel
 section could hang or abort the program

When a node begun after the first worker threads of a parallel section threw,
~before joined a worker thread that had not started its work while holding the
mutex the worker needs, or found the worker idle where it expected it to be
done. The producer now waits for the workers that were started before it stops
them.
---
 tpie/pipelining/parallel/base.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tpie/pipelining/parallel/base.h b/tpie/pipelining/parallel/base.h
index cd538da..67cc7ad 100644
--- a/tpie/pipelining/parallel/base.h
+++ b/tpie/pipelining/parallel/base.h
@@ -237,6 +237,11 @@ public:
 	/** Shared state, must have mutex to write. */
 	size_t runningWorkers;
 
+	/** Number of worker threads that were started, but are not running yet.
+	 *
+	 * Shared state, must have mutex to write. */
+	size_t startingWorkers;
+
 	/** Exception thrown in worker thread to be rethrown in main thread. */
 	std::exception_ptr eptr;
 
@@ -295,6 +300,7 @@ protected:
 	state_base(const options opts)
 		: opts(opts)
 		, runningWorkers(0)
+		, startingWorkers(0)
 		, m_inputs(opts.numJobs, 0)
 		, m_outputs(opts.numJobs, 0)
 		, m_states(opts.numJobs, INITIALIZING)
@@ -604,8 +610,12 @@ public:
 
 	void begin() override {
 		node::begin();
+		// The lock keeps the worker from starting its work
+		// before it is counted.
+		state_base::lock_t lock(st.mutex);
 		std::thread t(run_worker, this);
 		m_worker.swap(t);
+		++st.startingWorkers;
 	}
 
 	void end() override {
@@ -672,6 +682,7 @@ private:
 		st.output(parId).worker_initialize();
 
 		st.transition_state(parId, INITIALIZING, IDLE);
+		--st.startingWorkers;
 		running_signal _(st.runningWorkers, st.producerCond);
 		while (true) {
 			// wait for transition IDLE -> PROCESSING
@@ -928,6 +939,11 @@ private:
 	/// even if no exception has been thrown from the main thread.
 	///////////////////////////////////////////////////////////////////////////
 	void stop_workers(state_base::lock_t & lock) {
+		// If begin() of some node has thrown an exception, we may get here
+		// before all the workers have made it to the state IDLE.
+		while (st->startingWorkers > 0)
+			st->producerCond.wait(lock);
+
 		if (st->runningWorkers == 0) return;
 
 		bool done = false;
-- 
2.43.0


From 29f72406bb994778906d4f494b27f01e994ead97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:58 +0000
Subject: [PATCH 80/94] fix: running out of memory in a worker of a parallel
 section ended the process

The buffers of a worker are allocated in its thread, where nobody caught the
exception. It is now passed to the main thread as those thrown by the nodes
are.
---
 tpie/pipelining/parallel/base.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/tpie/pipelining/parallel/base.h b/tpie/pipelining/parallel/base.h
index 67cc7ad..d86326b 100644
--- a/tpie/pipelining/parallel/base.h
+++ b/tpie/pipelining/parallel/base.h
@@ -675,11 +675,21 @@ private:
 	void worker() {
 		state_base::lock_t lock(st.mutex);
 
-		m_buffer.reset(new parallel_input_buffer<T>(st.opts));
-		m_inputBuffers[parId] = m_buffer.get();
+		try {
+			m_buffer.reset(new parallel_input_buffer<T>(st.opts));
+			m_inputBuffers[parId] = m_buffer.get();
 
-		// virtual invocation
-		st.output(parId).worker_initialize();
+			// virtual invocation
+			st.output(parId).worker_initialize();
+		} catch (...) {
+			// We could not allocate the buffers.
+			// Pass the exception to the main thread.
+			st.eptr = std::current_exception();
+			st.transition_state(parId, INITIALIZING, DONE);
+			--st.startingWorkers;
+			st.producerCond.notify_one();
+			return;
+		}
 
 		st.transition_state(parId, INITIALIZING, IDLE);
 		--st.startingWorkers;
@@ -1046,7 +1056,8 @@ public:
 		inputBuffer.resize(st->opts.bufSize);
 
 		state_base::lock_t lock(st->mutex);
-		while (st->runningWorkers != st->opts.numJobs) {
+		// Wait for the workers to get to the state IDLE or to fail.
+		while (st->startingWorkers > 0) {
 			st->producerCond.wait(lock);
 		}
 
-- 
2.43.0


From 7ff3efde9ca9da19f004aa9990332893153b87ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:32 +0000
Subject: [PATCH 81/94] fix: a temporary file emptied by opening a stream
 write-only kept its old size in the usage

get_temp_file_usage() went on counting the old contents of the file until
something was written to the stream.
---
 tpie/compressed/stream_base.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 1090de9..b4f2844 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -240,7 +240,11 @@ public:
 		m_response.clear_block_info();
 		m_response.clear_error();
 		m_damaged = false;
-		
+
+		// Opening may have created or emptied the file.
+		if (m_currentFileSize == 0)
+			record_file_size();
+
 		m_o->seek(0);
 	}
 
-- 
2.43.0


From 5a04d859ea56f1c1ecfb02e2f618e4dd467de295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:31 +0000
Subject: [PATCH 82/94] fix: adding two linear memory usages multiplied their
 overheads

---
 tpie/util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/util.h b/tpie/util.h
index a908d1b..9ab3f1f 100644
--- a/tpie/util.h
+++ b/tpie/util.h
@@ -79,7 +79,7 @@ struct linear_memory_usage {
 	}
 
     constexpr friend linear_memory_usage operator + (const linear_memory_usage & l, const linear_memory_usage & r) noexcept {
-		return linear_memory_usage(l.coefficient + r.coefficient, l.overhead * r.overhead);
+		return linear_memory_usage(l.coefficient + r.coefficient, l.overhead + r.overhead);
 	}
 };
 
-- 
2.43.0


From 67078ed308f0dc17fd48acf9f96f4cec068acb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:31 +0000
Subject: [PATCH 83/94] fix: merge_sorter's minimum memory was computed from an
 overflowing fanout

---
 tpie/pipelining/merge_sorter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/pipelining/merge_sorter.cpp b/tpie/pipelining/merge_sorter.cpp
index da6b31f..767bd44 100644
--- a/tpie/pipelining/merge_sorter.cpp
+++ b/tpie/pipelining/merge_sorter.cpp
@@ -369,6 +369,8 @@ void merge_sorter_base::calculate_parameters() {
 
 memory_size_type merge_sorter_base::calculate_fanout(
 	memory_size_type availableMemory, memory_size_type availableFiles) noexcept {
+	// As in calculate_parameters, no number of files means the default.
+	if (!availableFiles) availableFiles = defaultFiles;
 	memory_size_type fanout_lo = 2;
 	memory_size_type fanout_hi = availableFiles - 2;
 	// binary search
-- 
2.43.0


From 3d89b91f3b775a3cb0b097a197081621df86672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:09 +0000
Subject: [PATCH 84/94] fix: priority_queue opened one file more than there
 were available

---
 tpie/priority_queue.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpie/priority_queue.inl b/tpie/priority_queue.inl
index 9db8370..7976e35 100644
--- a/tpie/priority_queue.inl
+++ b/tpie/priority_queue.inl
@@ -142,8 +142,10 @@ void priority_queue<T, Comparator, OPQType>::init(memory_size_type mm_avail, str
 			const stream_size_type denominator = 2*sq_fanout_overhead;
 			setting_k = static_cast<memory_size_type>(nominator/denominator); //Set fanout
 
-			// Don't open too many files
-			setting_k = std::min(get_file_manager().available(), setting_k);
+			// Don't open too many files; a merge of setting_k streams
+			// writes to one more.
+			const memory_size_type files = get_file_manager().available();
+			setting_k = std::min(files > 0 ? files - 1 : 0, setting_k);
 
 			// Performance degrades with more than around 250 open files
 			setting_k = std::min(static_cast<memory_size_type>(250), setting_k);
-- 
2.43.0


From 9bba0834c468cb01619a5082d8c48e03731129b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:34 +0000
Subject: [PATCH 85/94] fix: sort of an uncompressed_stream did not compile

---
 tpie/sort.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpie/sort.h b/tpie/sort.h
index bdeb6d9..fb12762 100644
--- a/tpie/sort.h
+++ b/tpie/sort.h
@@ -140,7 +140,7 @@ void generic_sort(Stream & instream, Stream & outstream, Compare comp,
 template<typename T, typename Compare>
 void sort(uncompressed_stream<T> &instream, uncompressed_stream<T> &outstream,
 		  Compare comp, progress_indicator_base & indicator) {
-	bits::generic_sort<uncompressed_stream<T>, T, Compare>(instream, outstream, &comp, &indicator);
+	bits::generic_sort<uncompressed_stream<T>, T, Compare>(instream, outstream, comp, &indicator);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -150,7 +150,7 @@ template<typename T>
 void sort(uncompressed_stream<T> &instream, uncompressed_stream<T> &outstream,
 		  tpie::progress_indicator_base* indicator=NULL) {
 	std::less<T> comp;
-	sort(instream, outstream, comp, indicator);
+	bits::generic_sort<uncompressed_stream<T>, T>(instream, outstream, comp, indicator);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -178,7 +178,7 @@ void sort(file_stream<T> &instream, file_stream<T> &outstream,
 template<typename T, typename Compare>
 void sort(uncompressed_stream<T> &instream, Compare comp,
 		  progress_indicator_base & indicator) {
-	sort(instream, instream, comp, &indicator);
+	sort(instream, instream, comp, indicator);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From f1a1a5b7733933801253fd14d4843f1d5255e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:34 +0000
Subject: [PATCH 86/94] fix: sort opened up to 253 files, however few were
 available

---
 tpie/sort.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tpie/sort.h b/tpie/sort.h
index fb12762..a9bb779 100644
--- a/tpie/sort.h
+++ b/tpie/sort.h
@@ -52,12 +52,23 @@
 
 #include <tpie/pipelining/merge_sorter.h>
 #include <tpie/file_stream.h>
+#include <tpie/file_manager.h>
 #include <tpie/uncompressed_stream.h>
 
 namespace tpie {
 
 namespace bits {
 
+///////////////////////////////////////////////////////////////////////////////
+/// \brief Number of files that a sort may have open.
+///////////////////////////////////////////////////////////////////////////////
+template <typename Sorter>
+memory_size_type sort_files() {
+	const memory_size_type minimum = Sorter::minimumFilesPhase2;
+	const memory_size_type preferred = Sorter::defaultFiles;
+	return std::max(minimum, std::min(preferred, get_file_manager().available()));
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief Sort elements of a stream in-place using the given STL-style
 /// comparator object.
@@ -78,6 +89,7 @@ void generic_sort(Stream & instream, Compare comp,
 
 	merge_sorter<T, true, Compare> s(comp);
 	s.set_available_memory(get_memory_manager().available());
+	s.set_available_files(sort_files<merge_sorter<T, true, Compare> >());
 	s.begin();
 	push.init(sz);
 	while (instream.can_read()) s.push(instream.read()), push.step();
@@ -115,6 +127,7 @@ void generic_sort(Stream & instream, Stream & outstream, Compare comp,
 
 	merge_sorter<T, true, Compare> s(comp);
 	s.set_available_memory(get_memory_manager().available());
+	s.set_available_files(sort_files<merge_sorter<T, true, Compare> >());
 	s.begin();
 	push.init(sz);
 	while (instream.can_read()) s.push(instream.read()), push.step();
-- 
2.43.0


From 62505b09dd8cec2f3de3779237189bb4fd2efe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:11 +0000
Subject: [PATCH 87/94] fix: a finished sub-indicator closes its log group in
 release builds too

begin_log_group was called unconditionally but end_log_group only without
TPIE_NDEBUG, so every later log line nested one group deeper.
---
 tpie/progress_indicator_subindicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/progress_indicator_subindicator.cpp b/tpie/progress_indicator_subindicator.cpp
index e269078..435e044 100644
--- a/tpie/progress_indicator_subindicator.cpp
+++ b/tpie/progress_indicator_subindicator.cpp
@@ -156,10 +156,10 @@ void progress_indicator_subindicator::done() {
 	softassert(m_init_called);
 	softassert(!m_done_called);
 	m_done_called=true;
+#endif
 
 	if(m_logGroupMode == log_group_mode::enabled)
 		end_log_group();
-#endif
 	if (!m_crumb.empty() && m_parent) m_parent->pop_breadcrumb();
 	progress_indicator_base::done();
 	m_current = m_range; 
-- 
2.43.0


From 59a8bf6e50f89ee72cbe335934563d106cc58d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:11 +0000
Subject: [PATCH 88/94] fix: a log target added inside a group survives the end
 of the group

end_group popped an empty stack.
---
 tpie/tpie_log.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/tpie_log.cpp b/tpie/tpie_log.cpp
index fd93c32..75e7c8b 100644
--- a/tpie/tpie_log.cpp
+++ b/tpie/tpie_log.cpp
@@ -59,6 +59,7 @@ void tpie::file_log_target::begin_group(const std::string & name) {
 
 void tpie::file_log_target::end_group() {
 	if(LOG_DEBUG > m_threshold) return;
+	if(groups.empty()) return; // the group began before this target was added
 
 	m_out << build_prefix(groups.size()-1) << "x " << "Leaving " << groups.top() << std::endl;
 	groups.pop();
@@ -101,6 +102,7 @@ void tpie::stderr_log_target::begin_group(const std::string & name) {
 
 void tpie::stderr_log_target::end_group() {
 	if(LOG_DEBUG > m_threshold) return;
+	if(groups.empty()) return; // the group began before this target was added
 
 	std::string text = "Leaving " + groups.top() + "\n";
 	std::string prefix = build_prefix(groups.size()-1) + "x ";
-- 
2.43.0


From 42b05493cfa82ec860d159c06e1a2d327a96cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:33 +0000
Subject: [PATCH 89/94] fix: composed types nested in each other can be
 unserialized and sized

serialize/unserialize of vectors, strings, pairs, ... were looked up before
they were declared unless argument-dependent lookup found them, which it does
for serialization_writer but neither for serialization_reader nor for
serialized_size: a vector of strings could be written but not read back.
---
 tpie/serialization2.h | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/tpie/serialization2.h b/tpie/serialization2.h
index a594439..630a6ca 100644
--- a/tpie/serialization2.h
+++ b/tpie/serialization2.h
@@ -110,6 +110,43 @@ void unserialize(S & src, T & v,
 	src.read((char *)&v, sizeof(T));
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// The overloads for composed types are declared before any of them is defined,
+// so that they may be nested in each other in any way.
+///////////////////////////////////////////////////////////////////////////////
+template <typename D, typename T>
+void serialize(D & dst, T start, T end);
+template <typename D, typename T>
+void unserialize(D & dst, T start, T end);
+template <typename D, typename T, std::size_t size>
+void serialize(D & dst, const T (&x)[size]);
+template <typename S, typename T, std::size_t size>
+void unserialize(S & src, T (&x)[size]);
+template <typename D, typename T, std::size_t size>
+void serialize(D & dst, const std::array<T, size> & v);
+template <typename S, typename T, std::size_t size>
+void unserialize(S & src, std::array<T, size> & v);
+template <typename D, typename T, typename alloc_t>
+void serialize(D & dst, const std::vector<T, alloc_t> & v);
+template <typename S, typename T, typename alloc_t>
+void unserialize(S & src, std::vector<T, alloc_t> & v);
+template <typename D, typename T>
+void serialize(D & dst, const tpie::array<T> & v);
+template <typename S, typename T>
+void unserialize(S & src, tpie::array<T> & v);
+template <typename D, typename T>
+void serialize(D & dst, const std::basic_string<T> & v);
+template <typename S, typename T>
+void unserialize(S & src, std::basic_string<T> & v);
+template <typename D, typename T, typename U>
+void serialize(D & dst, const std::pair<T,U> & v);
+template <typename S, typename T, typename U>
+void unserialize(S & src, std::pair<T,U> & v);
+template <typename D, typename... Ts>
+void serialize(D & dst, const std::tuple<Ts...> & t);
+template <typename S, typename... Ts>
+void unserialize(S & src, std::tuple<Ts...> & t);
+
 namespace bits {
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From f3d8ade138b363a383b91cea9e94f9f5bb806266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:40 +0000
Subject: [PATCH 90/94] fix: loading fractions forgot that others were recorded
 but not saved

load() cleared the dirty flag, so a later save() without force wrote nothing;
the flag was also not initialized.
---
 tpie/fractional_progress.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpie/fractional_progress.cpp b/tpie/fractional_progress.cpp
index e485482..e417460 100644
--- a/tpie/fractional_progress.cpp
+++ b/tpie/fractional_progress.cpp
@@ -40,7 +40,7 @@ public:
 	bool dirty;
 	const bool capture;
 
-	inline fraction_db_impl(bool capture) : capture(capture) {
+	inline fraction_db_impl(bool capture) : dirty(false), capture(capture) {
 	}
 
 	void update(std::string name, float frac, stream_size_type n) {
@@ -52,7 +52,8 @@ public:
 
 	void load(const std::string & path) {
 		std::locale::global(std::locale::classic());
-		dirty=false;
+		// What was recorded before and not yet saved still has to be.
+		const bool wasDirty = dirty;
 		std::fstream f;
 		f.open(path.c_str(), std::fstream::in | std::fstream::binary);
 		if (f.is_open()) {
@@ -81,7 +82,7 @@ public:
 				}
 			}
 		}
-		dirty=false;
+		dirty=wasDirty;
 		f.close();
 	}
 
-- 
2.43.0


From bc8ea01d1572ed03fe2daf8acfbdadf53ac27ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:49 +0000
Subject: [PATCH 91/94] fix: long function names overflowed a buffer when
 fractions are named

---
 tpie/fractional_progress.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tpie/fractional_progress.cpp b/tpie/fractional_progress.cpp
index e417460..a30ef6b 100644
--- a/tpie/fractional_progress.cpp
+++ b/tpie/fractional_progress.cpp
@@ -142,7 +142,7 @@ inline std::string fname(const char * file, const char * function, const char *
 	for(const char * z=file; *z; ++z)
 		if (*z=='\\' || *z == '/') y=(z+1);
 
-	char f[256];
+	std::string f;
 	{
 		const char * z=function+strlen(function)-1;
 		//Skip nested <> template function arguments emitted by vs
@@ -161,13 +161,10 @@ inline std::string fname(const char * file, const char * function, const char *
 		while (x != function && *x != ':') --x;
 		if (*x == ':') ++x;
 		//Copy result to f removing any whitespace (vs likes to write "operater ()")
-		char * k=f;
 		for(const char * i=x; i != z; ++i) {
 			if (*i == ' ') continue;
-			*k = *i;
-			++k;
+			f += *i;
 		}
-		*k = 0;
 	}	
 	std::string x;
 	x += y;
-- 
2.43.0


From c7310f64d367dc28b311568828e12bc39ed4ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:59 +0000
Subject: [PATCH 92/94] fix: block_collection_cache: freeing a block that is
 not cached is no assertion failure

---
 tpie/blocks/block_collection_cache.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tpie/blocks/block_collection_cache.cpp b/tpie/blocks/block_collection_cache.cpp
index d2d77c4..6613291 100644
--- a/tpie/blocks/block_collection_cache.cpp
+++ b/tpie/blocks/block_collection_cache.cpp
@@ -53,7 +53,6 @@ block_handle block_collection_cache::get_free_block() {
 
 void block_collection_cache::free_block(block_handle handle) {
 	tp_assert(handle.size == m_blockSize, "the size of the handle is not correct")
-	tp_assert(m_curSize > 0, "the current size of the cache is 0");
 
 	block_map_t::iterator i = m_blockMap.find(handle);
 
-- 
2.43.0


From 448181488c254b2b028f2daf5cd6fdd7ca4100bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:19 +0000
Subject: [PATCH 93/94] fix: the file log target ignored the message size,
 cutting text at NUL and reading past its end

---
 tpie/tpie_log.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpie/tpie_log.cpp b/tpie/tpie_log.cpp
index 75e7c8b..42ba65c 100644
--- a/tpie/tpie_log.cpp
+++ b/tpie/tpie_log.cpp
@@ -32,16 +32,17 @@ tpie::file_log_target::file_log_target(log_level threshold): m_threshold(thresho
 	m_out.open(m_path.c_str(), std::ios::trunc | std::ios::out);
 }
 
-void tpie::file_log_target::log(log_level level, const char * message, size_t) {
+void tpie::file_log_target::log(log_level level, const char * message, size_t size) {
 	if (level > m_threshold) return;
 
 	if(LOG_DEBUG > level) { // print without indentation
-		m_out << message;
+		m_out.write(message, size);
 		m_out.flush();
 		return;
 	}
 
-	m_out << build_prefix(groups.size()) << " " << message;
+	m_out << build_prefix(groups.size()) << " ";
+	m_out.write(message, size);
 	m_out.flush();
 }
 
-- 
2.43.0


From 5442cae2275f11e04d7011449077c7ddc228f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:15 +0000
Subject: [PATCH 94/94] fix: parts of pull pipelines can be grouped

---
 tpie/pipelining/pair_factory.h | 2 +-
 tpie/pipelining/pipe_base.h    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tpie/pipelining/pair_factory.h b/tpie/pipelining/pair_factory.h
index 5909455..52133be 100644
--- a/tpie/pipelining/pair_factory.h
+++ b/tpie/pipelining/pair_factory.h
@@ -125,7 +125,7 @@ public:
 	/// \brief
 	///////////////////////////////////////////////////////////////////////////
 	void set_destination_kind_pull() {
-		self().fact1.set_destination_kind_pull();
+		self().fact2.set_destination_kind_pull();
 	}
 
 private:
diff --git a/tpie/pipelining/pipe_base.h b/tpie/pipelining/pipe_base.h
index b7c1490..6b9c6ef 100644
--- a/tpie/pipelining/pipe_base.h
+++ b/tpie/pipelining/pipe_base.h
@@ -421,18 +421,18 @@ public:
 
 	template <typename fact2_t>
 	pullpipe_middle<bits::pair_factory<fact2_t, fact_t> >
-	operator|(pipe_middle<fact2_t> && r) {
+	operator|(pullpipe_middle<fact2_t> && r) {
 		fact2_t f = std::move(r.factory);
 		f.set_destination_kind_pull();
 		return bits::pair_factory<fact2_t, fact_t>(std::move(f), std::move(factory));
 	}
 
 	template <typename fact2_t>
-	pullpipe_end<bits::termpair_factory<fact2_t, fact_t> >
-	operator|(pipe_end<fact2_t> && r) {
+	pullpipe_end<bits::pair_factory<fact2_t, fact_t> >
+	operator|(pullpipe_end<fact2_t> && r) {
 		fact2_t f = std::move(r.factory);
 		f.set_destination_kind_pull();
-		return bits::termpair_factory<fact2_t, fact_t>(std::move(f), std::move(factory));
+		return bits::pair_factory<fact2_t, fact_t>(std::move(f), std::move(factory));
 	}
 
 	fact_t factory;
-- 
2.43.0

