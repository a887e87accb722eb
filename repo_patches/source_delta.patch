From 9582249e18512e1c3b1204e44e687362ad9b8d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:57 +0000
Subject: [PATCH 001/132] fix: report end of input of C and C++ streams like
 memory streams do

---
 src/Stream.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index efedbc2..1a17e0d 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -227,7 +227,12 @@ namespace zenkit {
 			}
 
 			[[nodiscard]] bool eof() const noexcept override {
-				return feof(_m_stream);
+				// `feof` only reports the end after a read has already failed, so look ahead one character.
+				int c = fgetc(_m_stream);
+				if (c == EOF) return true;
+
+				ungetc(c, _m_stream);
+				return false;
 			}
 
 		private:
@@ -240,7 +245,11 @@ namespace zenkit {
 
 			size_t read(void* buf, size_t len) noexcept override {
 				_m_stream->read(static_cast<char*>(buf), static_cast<long>(len));
-				return static_cast<size_t>(_m_stream->gcount());
+				auto count = static_cast<size_t>(_m_stream->gcount());
+
+				// A short read must not make later calls to `seek` and `tell` fail.
+				if (_m_stream->eof()) _m_stream->clear();
+				return count;
 			}
 
 			void seek(ssize_t off, Whence whence) noexcept override {
@@ -252,7 +261,9 @@ namespace zenkit {
 			}
 
 			[[nodiscard]] bool eof() const noexcept override {
-				return _m_stream->eof();
+				bool end = _m_stream->peek() == std::istream::traits_type::eof();
+				if (_m_stream->eof()) _m_stream->clear();
+				return end;
 			}
 
 		private:
-- 
2.43.0


From 78b44ea1b2b747ea5872ca742f1e257bd0b7faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:57 +0000
Subject: [PATCH 002/132] fix: detect failing memory mappings

---
 src/MmapPosix.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/MmapPosix.cc b/src/MmapPosix.cc
index f6d289c..fa97271 100644
--- a/src/MmapPosix.cc
+++ b/src/MmapPosix.cc
@@ -17,15 +17,26 @@ namespace zenkit {
 
 		struct stat st {};
 		if (fstat(handle, &st) != 0) {
+			close(handle);
 			throw std::runtime_error {"Failed to stat " + path.string()};
 		}
 
-		_m_data =
-		    static_cast<std::byte*>(mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_SHARED, handle, 0));
-		if (_m_data == nullptr) {
+		// Empty files cannot be mapped. They are represented as an empty mapping without any data.
+		if (S_ISREG(st.st_mode) && st.st_size == 0) {
+			_m_data = nullptr;
+			_m_size = 0;
+
+			close(handle);
+			return;
+		}
+
+		auto* data = mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_SHARED, handle, 0);
+		if (data == MAP_FAILED) {
+			close(handle);
 			throw std::runtime_error {"Failed to mmap " + path.string()};
 		}
 
+		_m_data = static_cast<std::byte*>(data);
 		_m_size = static_cast<std::size_t>(st.st_size);
 		_m_platform_handle = (void*) _m_data;
 
-- 
2.43.0


From d525afe15ade56c23b3c1efa9cea127858745bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:46 +0000
Subject: [PATCH 003/132] fix: resolving a path below a file finds nothing
 instead of terminating

---
 src/Vfs.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 690a702..0766117 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -183,6 +183,9 @@ namespace zenkit {
 				continue;
 			}
 
+			// Files don't have children, so nothing can be resolved below them.
+			if (context->type() != VfsNodeType::DIRECTORY) return nullptr;
+
 			auto name = path.substr(0, next);
 			context = context->child(name);
 
-- 
2.43.0


From 0acb813b6c8a0e297186a33b888ca7732123d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:46 +0000
Subject: [PATCH 004/132] fix: removing a path below a file reports failure

---
 src/Vfs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 0766117..173ca3b 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -536,7 +536,7 @@ namespace zenkit {
 		auto childName = path.substr(lastSlash + 1);
 
 		VfsNode* pNode = this->resolve(parentPath);
-		if (pNode == nullptr) return false;
+		if (pNode == nullptr || pNode->type() != VfsNodeType::DIRECTORY) return false;
 		return pNode->remove(childName);
 	}
 
-- 
2.43.0


From e0cff06c2e8aacd306a638a1e88d087129b7b0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:06 +0000
Subject: [PATCH 005/132] fix: assigning file descriptors keeps track of shared
 ownership

---
 include/zenkit/Vfs.hh |  1 +
 src/Vfs.cc            | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/zenkit/Vfs.hh b/include/zenkit/Vfs.hh
index 2d326eb..8e5d133 100644
--- a/include/zenkit/Vfs.hh
+++ b/include/zenkit/Vfs.hh
@@ -44,6 +44,7 @@ namespace zenkit {
 
 		VfsFileDescriptor(std::byte const* mem, size_t len, bool del, bool zipped = false, size_t raw_size = 0);
 		VfsFileDescriptor(VfsFileDescriptor const& cpy);
+		VfsFileDescriptor& operator=(VfsFileDescriptor const& cpy);
 		~VfsFileDescriptor() noexcept;
 
 	private:
diff --git a/src/Vfs.cc b/src/Vfs.cc
index 173ca3b..08239f3 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -47,6 +47,16 @@ namespace zenkit {
 		*this->refcnt += 1;
 	}
 
+	VfsFileDescriptor& VfsFileDescriptor::operator=(VfsFileDescriptor const& cpy) {
+		VfsFileDescriptor tmp {cpy};
+		std::swap(memory, tmp.memory);
+		std::swap(size, tmp.size);
+		std::swap(raw_size, tmp.raw_size);
+		std::swap(zipped, tmp.zipped);
+		std::swap(refcnt, tmp.refcnt);
+		return *this;
+	}
+
 	VfsFileDescriptor::~VfsFileDescriptor() noexcept {
 		if (this->refcnt == nullptr) return;
 		*this->refcnt -= 1;
-- 
2.43.0


From 4645e37b487eefb7e44639ba3c8cb7306a19fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:13 +0000
Subject: [PATCH 006/132] fix: use the Unix epoch for timestamps of host files

---
 src/Vfs.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 08239f3..c16cc48 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -550,6 +550,14 @@ namespace zenkit {
 		return pNode->remove(childName);
 	}
 
+	/// Converts a host file timestamp, which may use any epoch, to seconds since the Unix epoch.
+	static std::time_t vfs_host_to_unix_time(std::filesystem::file_time_type time) {
+		auto file_now = std::filesystem::file_time_type::clock::now();
+		auto unix_now = std::chrono::system_clock::now();
+		auto since_epoch = (time - file_now) + unix_now.time_since_epoch();
+		return std::chrono::floor<std::chrono::seconds>(since_epoch).count();
+	}
+
 	void Vfs::mount_host(std::filesystem::path const& sourcePath,
 	                     std::string_view mountPoint,
 	                     VfsOverwriteBehavior overwrite) {
@@ -559,18 +567,17 @@ namespace zenkit {
 		    [this, &load_directory](VfsNode* parent, std::filesystem::path const& host) {
 			    for (auto const& ref : std::filesystem::directory_iterator(host)) {
 				    auto const& path = ref.path();
-				    auto time =
-				        std::chrono::duration_cast<std::chrono::seconds>(ref.last_write_time().time_since_epoch());
+				    auto time = vfs_host_to_unix_time(ref.last_write_time());
 
 				    if (ref.is_directory()) {
-					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time.count()));
+					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time));
 					    load_directory(newP, path);
 				    } else if (ref.file_size() > 0) {
 #ifdef _ZK_WITH_MMAP
 					    auto& mem = this->_m_data_mapped.emplace_back(path);
 					    parent->create(VfsNode::file(path.filename().string(),
 					                                 VfsFileDescriptor {mem.data(), mem.size(), false},
-					                                 time.count()));
+					                                 time));
 #else
 					    std::ifstream stream {path, std::ios::in | std::ios::ate | std::ios::binary};
 					    auto size = stream.tellg();
@@ -581,7 +588,7 @@ namespace zenkit {
 
 					    parent->create(VfsNode::file(path.filename().string(),
 					                                 VfsFileDescriptor {data.get(), static_cast<size_t>(size), false},
-					                                 time.count()));
+					                                 time));
 #endif
 				    }
 			    }
-- 
2.43.0


From 9d233a544d2019f17deaa1c1d6a6597086911e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:13 +0000
Subject: [PATCH 007/132] fix: mount single host files as documented

---
 src/Vfs.cc | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index c16cc48..eabd571 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -563,8 +563,30 @@ namespace zenkit {
 	                     VfsOverwriteBehavior overwrite) {
 		auto root = VfsNode::directory(sourcePath.filename().string());
 
+		auto load_file = [this](VfsNode* parent, std::filesystem::directory_entry const& ref) {
+			auto const& path = ref.path();
+			auto time = vfs_host_to_unix_time(ref.last_write_time());
+
+#ifdef _ZK_WITH_MMAP
+			auto& mem = this->_m_data_mapped.emplace_back(path);
+			parent->create(
+			    VfsNode::file(path.filename().string(), VfsFileDescriptor {mem.data(), mem.size(), false}, time));
+#else
+			std::ifstream stream {path, std::ios::in | std::ios::ate | std::ios::binary};
+			auto size = stream.tellg();
+			stream.seekg(0);
+
+			auto& data = _m_data.emplace_back(new std::byte[(size_t) size]);
+			stream.read((char*) data.get(), size);
+
+			parent->create(VfsNode::file(path.filename().string(),
+			                             VfsFileDescriptor {data.get(), static_cast<size_t>(size), false},
+			                             time));
+#endif
+		};
+
 		std::function<void(VfsNode*, std::filesystem::path const&)> load_directory =
-		    [this, &load_directory](VfsNode* parent, std::filesystem::path const& host) {
+		    [&load_file, &load_directory](VfsNode* parent, std::filesystem::path const& host) {
 			    for (auto const& ref : std::filesystem::directory_iterator(host)) {
 				    auto const& path = ref.path();
 				    auto time = vfs_host_to_unix_time(ref.last_write_time());
@@ -573,28 +595,16 @@ namespace zenkit {
 					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time));
 					    load_directory(newP, path);
 				    } else if (ref.file_size() > 0) {
-#ifdef _ZK_WITH_MMAP
-					    auto& mem = this->_m_data_mapped.emplace_back(path);
-					    parent->create(VfsNode::file(path.filename().string(),
-					                                 VfsFileDescriptor {mem.data(), mem.size(), false},
-					                                 time));
-#else
-					    std::ifstream stream {path, std::ios::in | std::ios::ate | std::ios::binary};
-					    auto size = stream.tellg();
-					    stream.seekg(0);
-
-					    auto& data = _m_data.emplace_back(new std::byte[(size_t) size]);
-					    stream.read((char*) data.get(), size);
-
-					    parent->create(VfsNode::file(path.filename().string(),
-					                                 VfsFileDescriptor {data.get(), static_cast<size_t>(size), false},
-					                                 time));
-#endif
+					    load_file(parent, ref);
 				    }
 			    }
 		    };
 
-		load_directory(&root, sourcePath);
+		if (!std::filesystem::is_directory(sourcePath)) {
+			load_file(&root, std::filesystem::directory_entry {sourcePath});
+		} else {
+			load_directory(&root, sourcePath);
+		}
 
 		for (auto& child : root.children()) {
 			this->mount(child, mountPoint, overwrite);
-- 
2.43.0


From 7d043441f5af343318d4685f01409c2fb8b97a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:13 +0000
Subject: [PATCH 008/132] fix: mount empty host files

---
 src/Vfs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index eabd571..4f2b0dc 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -594,7 +594,7 @@ namespace zenkit {
 				    if (ref.is_directory()) {
 					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time));
 					    load_directory(newP, path);
-				    } else if (ref.file_size() > 0) {
+				    } else if (ref.is_regular_file()) {
 					    load_file(parent, ref);
 				    }
 			    }
-- 
2.43.0


From b69f9b62651b12ba7f6735f6d5766f1bba529744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:33 +0000
Subject: [PATCH 009/132] fix: reject disks with truncated or cyclic catalogs

---
 src/Vfs.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 4f2b0dc..fcce01e 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -452,8 +452,9 @@ namespace zenkit {
 		auto mem = std::make_unique<std::byte[]>(size);
 		buf->read(mem.get(), size);
 
-		this->mount_disk(mem.get(), size, overwrite);
-		_m_data.push_back(std::move(mem));
+		// Take ownership first, since entries mounted before an error occurs stay mounted.
+		auto& data = _m_data.emplace_back(std::move(mem));
+		this->mount_disk(data.get(), size, overwrite);
 	}
 
 	VfsNode const& Vfs::root() const noexcept {
@@ -654,8 +655,16 @@ namespace zenkit {
 			catalog_offset = r->tell();
 		}
 
+		// Every catalog entry can be visited at most once, otherwise the directories form a cycle.
+		auto entries_left = size / 80;
+
 		std::function<bool(VfsNode*)> load_entry =
-		    [&load_entry, overwrite, catalog_offset, timestamp, zipped, &r, buf, size](VfsNode* parent) {
+		    [&load_entry, &entries_left, overwrite, catalog_offset, timestamp, zipped, &r, buf, size](VfsNode* parent) {
+			    if (entries_left == 0 || size - r->tell() < 80) {
+				    throw VfsBrokenDiskError {"catalog is damaged"};
+			    }
+			    entries_left -= 1;
+
 			    auto e_name = r->read_string(64);
 			    auto e_offset = r->read_uint();
 			    auto e_size = r->read_uint();
@@ -711,7 +720,10 @@ namespace zenkit {
 				    }
 
 				    auto self_offset = r->tell();
-				    r->seek(catalog_offset + e_offset * 80, Whence::BEG);
+				    auto child_offset = catalog_offset + static_cast<uint64_t>(e_offset) * 80;
+				    if (child_offset > size) throw VfsBrokenDiskError {"catalog is damaged"};
+
+				    r->seek(static_cast<ssize_t>(child_offset), Whence::BEG);
 				    while (!load_entry(existing))
 					    ;
 				    r->seek(static_cast<ssize_t>(self_offset), Whence::BEG);
@@ -757,6 +769,8 @@ namespace zenkit {
 			    return last;
 		    };
 
+		if (catalog_offset > size) throw VfsBrokenDiskError {"catalog is damaged"};
+
 		r->seek(catalog_offset, Whence::BEG);
 		while (!load_entry(&_m_root))
 			;
-- 
2.43.0


From 19fe9ff977ac62f644dbf83590dde3ae942a087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:33 +0000
Subject: [PATCH 010/132] fix: ignore disk entries with overflowing extents

---
 src/Vfs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index fcce01e..aefed1f 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -731,7 +731,7 @@ namespace zenkit {
 				    // For zipped VDFs, entry.Size is the uncompressed size; the actual
 				    // compressed data at e_offset is smaller. Only check offset validity.
 				    // For normal VDFs, the full extent must fit within the archive.
-				    if (zipped ? (e_offset >= size) : (e_offset + e_size > size)) {
+				    if (zipped ? (e_offset >= size) : (static_cast<uint64_t>(e_offset) + e_size > size)) {
 					    return last;
 				    }
 
-- 
2.43.0


From a790417ed11d90d9951405561d67570a8d8ce902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:33 +0000
Subject: [PATCH 011/132] fix: mount disks without any entries

---
 src/Vfs.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index aefed1f..6396540 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -617,7 +617,7 @@ namespace zenkit {
 
 		auto comment = r->read_string(256);
 		auto signature = r->read_string(16);
-		[[maybe_unused]] auto entry_count = r->read_uint();
+		auto entry_count = r->read_uint();
 		[[maybe_unused]] auto file_count = r->read_uint();
 		auto timestamp = vfs_dos_to_unix_time(r->read_uint());
 		[[maybe_unused]] auto archive_size = r->read_uint();
@@ -655,6 +655,9 @@ namespace zenkit {
 			catalog_offset = r->tell();
 		}
 
+		// Disks without any entries don't have a catalog.
+		if (entry_count == 0) return;
+
 		// Every catalog entry can be visited at most once, otherwise the directories form a cycle.
 		auto entries_left = size / 80;
 
-- 
2.43.0


From 208b1bf79e74b49ddb6700167a7104c83988a850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:22 +0000
Subject: [PATCH 012/132] fix: don't save empty directories, which disks can't
 represent

---
 src/Vfs.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 6396540..1282e53 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -235,11 +235,18 @@ namespace zenkit {
 		return const_cast<VfsNode*>(const_cast<Vfs const*>(this)->find(name));
 	}
 
+	/// Directories which don't contain any files can't be represented in the catalog of a disk.
+	static bool vfs_is_empty(VfsNode const& node) {
+		if (node.type() == VfsNodeType::FILE) return false;
+		return std::all_of(node.children().begin(), node.children().end(), vfs_is_empty);
+	}
+
 	static uint32_t count_nodes(VfsNode const* node) {
 		uint32_t count = 1; /* self */
 
 		if (node->type() == VfsNodeType::DIRECTORY) {
 			for (auto& child : node->children()) {
+				if (vfs_is_empty(child)) continue;
 				count += count_nodes(&child);
 			}
 		}
@@ -338,8 +345,12 @@ namespace zenkit {
 		std::function<void(VfsNode const*)> write_node = [&](VfsNode const* node) {
 			unsigned i = 0;
 			std::vector<std::pair<uint32_t, VfsNode const*>> dirs;
+			auto child_count = node->children().size() -
+			    std::count_if(node->children().begin(), node->children().end(), vfs_is_empty);
 
 			for (auto& child : node->children()) {
+				if (vfs_is_empty(child)) continue;
+
 				name = child.name();
 				name.resize(64, '\x20');
 
@@ -356,7 +367,7 @@ namespace zenkit {
 
 					write_catalog->write_uint(w->tell()); // Offset
 					write_catalog->write_uint(sz);        // Size (always uncompressed)
-					write_catalog->write_uint(i + 1 == node->children().size() ? 0x40000000 : 0); // Type
+					write_catalog->write_uint(i + 1 == child_count ? 0x40000000 : 0); // Type
 
 #ifdef _ZK_WITH_ZIPPED_VDF
 					if (compressed && !vfs_is_wave_file(child.name())) {
@@ -373,7 +384,7 @@ namespace zenkit {
 					dirs.emplace_back(write_catalog->tell(), &child);
 					write_catalog->write_uint(0);                                                          // Offset
 					write_catalog->write_uint(0);                                                          // Size
-					write_catalog->write_uint(i + 1 == node->children().size() ? 0xC0000000 : 0x80000000); // Type
+					write_catalog->write_uint(i + 1 == child_count ? 0xC0000000 : 0x80000000); // Type
 				}
 
 				write_catalog->write_uint(0); // Attributes
-- 
2.43.0


From fc9941fe7106b813b1da8e0132eec9833baa9459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:22 +0000
Subject: [PATCH 013/132] fix: save disks to streams which can't seek past
 their end

---
 src/Vfs.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 1282e53..6a8b603 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -335,7 +335,8 @@ namespace zenkit {
 		// Skip the header, we'll write it at the end.
 		unsigned header_size = 256 + 16 + 6 * 4;
 		unsigned catalog_size = (count_nodes(&_m_root) - 1) * (64 + 4 * 4); // -1 because the root node is not counted
-		w->seek(header_size + catalog_size, Whence::BEG);
+		w->seek(0, Whence::BEG);
+		w->write_string(std::string(header_size + catalog_size, '\0')); // Some streams can't seek past their end.
 
 		std::vector<std::byte> cache;
 		std::string name;
-- 
2.43.0


From 97aa5f1ab8b0537262d7478d3f66888b73424ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:22 +0000
Subject: [PATCH 014/132] fix: read empty files of compressed disks as empty

---
 src/Vfs.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 6a8b603..5ca2333 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -698,6 +698,7 @@ namespace zenkit {
 
 			    VfsNode* existing = parent->child(e_name);
 			    bool dir = (e_type & 0x80000000) != 0;
+			    bool e_zipped = zipped && e_size != 0; // Empty files don't have any compressed data.
 			    bool last = (e_type & 0x40000000) != 0;
 
 			    ZKLOGT("Vfs",
@@ -746,7 +747,7 @@ namespace zenkit {
 				    // For zipped VDFs, entry.Size is the uncompressed size; the actual
 				    // compressed data at e_offset is smaller. Only check offset validity.
 				    // For normal VDFs, the full extent must fit within the archive.
-				    if (zipped ? (e_offset >= size) : (static_cast<uint64_t>(e_offset) + e_size > size)) {
+				    if (e_zipped ? (e_offset >= size) : (static_cast<uint64_t>(e_offset) + e_size > size)) {
 					    return last;
 				    }
 
@@ -774,10 +775,10 @@ namespace zenkit {
 				    // For zipped files, the descriptor gets the full remaining buffer
 				    // so ReadZipped can read the compressed stream. raw_size preserves
 				    // the catalog entry size for fallback (e.g. raw audio files).
-				    auto desc_size = zipped ? (size - e_offset) : static_cast<std::size_t>(e_size);
+				    auto desc_size = e_zipped ? (size - e_offset) : static_cast<std::size_t>(e_size);
 				    (void) parent->create(
 				        VfsNode::file(e_name,
-				                      VfsFileDescriptor {buf + e_offset, desc_size, false, zipped, e_size},
+				                      VfsFileDescriptor {buf + e_offset, desc_size, false, e_zipped, e_size},
 				                      timestamp));
 			    }
 
-- 
2.43.0


From 79b3465ec09db2f10403663a194a63f14f830131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:22 +0000
Subject: [PATCH 015/132] fix: read disk timestamps in UTC like they are saved

---
 src/Vfs.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 5ca2333..1b97cd2 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -444,16 +444,18 @@ namespace zenkit {
 	}
 
 	static std::time_t vfs_dos_to_unix_time(std::uint32_t dos) noexcept {
-		tm t {};
-
-		t.tm_year = static_cast<int32_t>((dos >> 25) & 0x7F) + 80;
-		t.tm_mon = static_cast<int32_t>((dos >> 21) & 0xF) - 1;
-		t.tm_mday = static_cast<int32_t>((dos >> 16) & 0x1F);
-		t.tm_hour = static_cast<int32_t>((dos >> 11) & 0x1F);
-		t.tm_min = static_cast<int32_t>((dos >> 5) & 0x3F);
-		t.tm_sec = static_cast<int32_t>((dos >> 0) & 0x1F) * 2;
-
-		return mktime(&t);
+		// Timestamps are saved in UTC, so they must not be interpreted as local time.
+		std::chrono::year_month month {std::chrono::year {static_cast<int32_t>((dos >> 25) & 0x7F) + 1980},
+		                               std::chrono::January};
+		month += std::chrono::months {static_cast<int32_t>((dos >> 21) & 0xF) - 1};
+
+		std::chrono::sys_seconds t = std::chrono::sys_days {month / 1};
+		t += std::chrono::days {static_cast<int32_t>((dos >> 16) & 0x1F) - 1};
+		t += std::chrono::hours {(dos >> 11) & 0x1F};
+		t += std::chrono::minutes {(dos >> 5) & 0x3F};
+		t += std::chrono::seconds {((dos >> 0) & 0x1F) * 2};
+
+		return std::chrono::system_clock::to_time_t(t);
 	}
 
 	void Vfs::mount_disk(Read* buf, VfsOverwriteBehavior overwrite) {
-- 
2.43.0


From f32fcbc331f17a6bddafacf2611bf872bdeb1c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:17 +0000
Subject: [PATCH 016/132] fix: never read uncompressed files behind the end of
 a compressed disk

---
 src/Vfs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 1b97cd2..eaadf87 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -146,7 +146,7 @@ namespace zenkit {
 
 			// ZippedStream header validation failed (e.g. raw Ogg Vorbis audio).
 			// Fall back to raw data using the catalog entry size.
-			return Read::from(fd.memory, fd.raw_size);
+			return Read::from(fd.memory, std::min(fd.raw_size, fd.size));
 		}
 #endif
 
-- 
2.43.0


From 615af65062b5bd6f34b807a56ef50ad97fb17574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:17 +0000
Subject: [PATCH 017/132] fix: validate the block headers of compressed streams

---
 src/Stream.cc | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index 1a17e0d..9555d90 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -599,15 +599,28 @@ namespace zenkit {
 					// Validate: blocks_count must be consistent with the header.
 					// In a valid ZippedStream, blocks_count == ceil(length / block_size).
 					// Reject if it doesn't match — the data is not a ZippedStream.
-					uint32_t expected_blocks =
-					    (_m_header.length_uncompressed + _m_header.block_size - 1) / _m_header.block_size;
+					uint64_t expected_blocks =
+					    (static_cast<uint64_t>(_m_header.length_uncompressed) + _m_header.block_size - 1) /
+					    _m_header.block_size;
 					if (_m_header.blocks_count != expected_blocks) {
-						ZKLOGE("ReadZipped", "Block count mismatch: expected %u, got %u", expected_blocks,
-									_m_header.blocks_count);
+						ZKLOGE("ReadZipped", "Block count mismatch: expected %u, got %u",
+									static_cast<uint32_t>(expected_blocks), _m_header.blocks_count);
+						return false;
+					}
+
+					// Validate: the block headers must fit into the underlying stream.
+					auto start = _m_stream->tell();
+					_m_stream->seek(0, Whence::END);
+					auto end = _m_stream->tell();
+					_m_stream->seek(static_cast<ssize_t>(start), Whence::BEG);
+
+					if (_m_header.blocks_count > (end - start) / 12) {
+						ZKLOGE("ReadZipped", "Too many blocks: %u", _m_header.blocks_count);
 						return false;
 					}
 
 					_m_blocks.resize(_m_header.blocks_count);
+					uint32_t remaining = _m_header.length_uncompressed;
 
 					// Scan through the interleaved block headers to record each
 					// block's compressed data offset, then skip past its data.
@@ -616,6 +629,15 @@ namespace zenkit {
 						blk.len_cmp = _m_stream->read_uint();
 						blk.size_blk = _m_stream->read_uint();
 						blk.offset = _m_stream->tell(); // compressed data starts here
+
+						// Validate: all blocks but the last one are full and their data is within the stream.
+						if (blk.len_src != std::min(remaining, _m_header.block_size) ||
+						    blk.len_cmp > end - blk.offset) {
+							ZKLOGE("ReadZipped", "Invalid block header: source=%u, compressed=%u", blk.len_src, blk.len_cmp);
+							return false;
+						}
+
+						remaining -= blk.len_src;
 						_m_stream->seek(static_cast<ssize_t>(blk.len_cmp), Whence::CUR);
 					}
 
@@ -658,12 +680,18 @@ namespace zenkit {
 				std::vector<uint8_t> cmp_data(blk.len_cmp);
 				if (_m_stream->read(cmp_data.data(), blk.len_cmp) != blk.len_cmp) return false;
 
-				_m_cache.resize(blk.len_src);
+				_m_cache_valid = false;
+
+				try {
+					_m_cache.resize(blk.len_src);
+				} catch (std::bad_alloc const&) {
+					return false;
+				}
 
 				mz_ulong out_len = static_cast<mz_ulong>(blk.len_src);
 				int res = mz_uncompress(_m_cache.data(), &out_len, cmp_data.data(), static_cast<mz_ulong>(blk.len_cmp));
 
-				if (res != MZ_OK) return false;
+				if (res != MZ_OK || out_len != blk.len_src) return false;
 
 				_m_cache_idx = idx;
 				_m_cache_valid = true;
-- 
2.43.0


From 314869a0c331ee5e72fe7b2a1555b954989d7ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:41 +0000
Subject: [PATCH 018/132] fix: write bytes and words to ASCII archives like
 they are read

---
 src/archive/ArchiveAscii.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index baa3e39..ad7880c 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -313,12 +313,12 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_byte(std::string_view name, std::uint8_t v) {
 		std::array<char, std::numeric_limits<uint8_t>::digits10 + 1> buf {};
-		this->write_entry(name, "byte", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_word(std::string_view name, std::uint16_t v) {
 		std::array<char, std::numeric_limits<uint16_t>::digits10 + 1> buf {};
-		this->write_entry(name, "word", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_enum(std::string_view name, std::uint32_t v) {
-- 
2.43.0


From c65a77c1dd721a778bcddff1c2f7d6495804d001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:41 +0000
Subject: [PATCH 019/132] fix: write all digits of large negative integers to
 ASCII archives

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index ad7880c..3388a67 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -303,7 +303,7 @@ namespace zenkit {
 	}
 
 	void WriteArchiveAscii::write_int(std::string_view name, std::int32_t v) {
-		std::array<char, std::numeric_limits<int32_t>::digits10 + 1> buf {};
+		std::array<char, std::numeric_limits<int32_t>::digits10 + 2> buf {};
 		this->write_entry(name, "int", intosv(buf, v));
 	}
 
-- 
2.43.0


From 906baa7dc53cd214ff185486bd6a327ed7a19829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:42 +0000
Subject: [PATCH 020/132] fix: write matrices to ASCII archives like they are
 read

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 3388a67..0f242b0 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -360,7 +360,7 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_mat3x3(std::string_view name, Mat3 const& v) {
 		auto vT = v.transpose();
-		this->write_raw_float(name, vT.pointer(), 9);
+		this->write_raw(name, reinterpret_cast<std::byte const*>(vT.pointer()), 9 * sizeof(float));
 	}
 
 	void WriteArchiveAscii::write_raw(std::string_view name, std::vector<std::byte> const& v) {
-- 
2.43.0


From bbaf28e447bd3cd8ad19717f77a33ee3ae09b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:42 +0000
Subject: [PATCH 021/132] fix: don't mix up digits of raw data in ASCII
 archives

---
 src/archive/ArchiveAscii.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 0f242b0..6ed9d3c 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -372,9 +372,8 @@ namespace zenkit {
 		this->_m_write->write_string(name);
 		this->_m_write->write_string("=raw:");
 
-		std::array<char, 3> buf {};
-		buf[2] = '\0';
 		for (auto i = 0u; i < length; ++i) {
+			std::array<char, 3> buf {};
 			std::to_chars(buf.data(), buf.data() + buf.size(), static_cast<unsigned char>(v[i]), 16);
 
 			if (buf[1] == '\0') {
-- 
2.43.0


From ecb2eb0aecdc1a6af8e6b0267a0fdb9802821819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:42 +0000
Subject: [PATCH 022/132] fix: don't read behind names which aren't
 null-terminated

---
 src/archive/ArchiveAscii.cc   |  2 +-
 src/archive/ArchiveBinsafe.cc | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 6ed9d3c..375d7a3 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -263,7 +263,7 @@ namespace zenkit {
 		this->_m_write->write_char('[');
 		this->_m_write->write_string(object_name);
 		this->_m_write->write_char(' ');
-		this->_m_write->write_string(empty_class ? "%" : class_name.data());
+		this->_m_write->write_string(empty_class ? "%" : class_name);
 		this->_m_write->write_char(' ');
 		this->_m_write->write_string(intosv(buf, version));
 		this->_m_write->write_char(' ');
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 604a890..1499657 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -286,9 +286,11 @@ namespace zenkit {
 		char buf[6 + 127 * 2 + 10 * 2];
 		auto n = snprintf(buf,
 		                  sizeof buf - 1,
-		                  "[%.127s %.127s %d %d]",
+		                  "[%.*s %.*s %d %d]",
+		                  static_cast<int>(std::min(object_name.length(), size_t {127})),
 		                  object_name.data(),
-		                  class_name.empty() ? "%" : class_name.data(),
+		                  empty_class ? 1 : static_cast<int>(std::min(class_name.length(), size_t {127})),
+		                  empty_class ? "%" : class_name.data(),
 		                  version,
 		                  empty_class ? 0 : _m_index);
 
@@ -308,7 +310,14 @@ namespace zenkit {
 		this->_m_write->write_ubyte(static_cast<uint8_t>(ArchiveEntryType::STRING));
 
 		char buf[6 + 127 * 2 + 10 * 2];
-		auto n = snprintf(buf, sizeof buf - 1, "[%.127s %.127s %d %d]", object_name.data(), "\xA7", 0, index);
+		auto n = snprintf(buf,
+		                  sizeof buf - 1,
+		                  "[%.*s %s %d %d]",
+		                  static_cast<int>(std::min(object_name.length(), size_t {127})),
+		                  object_name.data(),
+		                  "\xA7",
+		                  0,
+		                  index);
 
 		this->_m_write->write_ushort(n);
 		this->_m_write->write_string(buf);
-- 
2.43.0


From 86b98968734583cfd5fad5c554a9f14ae6d687af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:42 +0000
Subject: [PATCH 023/132] fix: don't consume the start of the first object of
 binary archives

---
 src/archive/ArchiveBinary.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 6175abc..42e2997 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -22,9 +22,14 @@ namespace zenkit {
 			}
 		}
 
-		if (read->read_line_then_ignore("\n") != "END") {
+		if (read->read_line(false) != "END") {
 			throw ParserError {"ReadArchiveBinary", "second END missing"};
 		}
+
+		// Only a single empty line follows, the bytes after that already belong to the first object.
+		if (auto mark = read->tell(); !read->eof() && read->read_char() != '\n') {
+			read->seek(static_cast<ssize_t>(mark), Whence::BEG);
+		}
 	}
 
 	bool ReadArchiveBinary::read_object_begin(ArchiveObject& obj) {
-- 
2.43.0


From 52815a4ad6fa62dc6f651c9e32e0125207893588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:54 +0000
Subject: [PATCH 024/132] fix: keep the size of archive headers when the date
 changes

---
 src/archive/ArchiveAscii.cc   | 5 ++---
 src/archive/ArchiveAscii.hh   | 3 +++
 src/archive/ArchiveBinary.cc  | 5 ++---
 src/archive/ArchiveBinary.hh  | 2 ++
 src/archive/ArchiveBinsafe.cc | 5 ++---
 src/archive/ArchiveBinsafe.hh | 2 ++
 6 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 375d7a3..6a31160 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -424,9 +424,8 @@ namespace zenkit {
 		if (username == nullptr) username = "Anonymous";
 
 		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
+		// The header is written again when the archive is complete, so it may never change its size.
+		auto* time = std::localtime(&_m_time);
 		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
 
 		this->_m_write->write_line("ZenGin Archive");
diff --git a/src/archive/ArchiveAscii.hh b/src/archive/ArchiveAscii.hh
index 5bbc4c0..d6906df 100644
--- a/src/archive/ArchiveAscii.hh
+++ b/src/archive/ArchiveAscii.hh
@@ -4,6 +4,8 @@
 #include "zenkit/Archive.hh"
 #include "zenkit/Stream.hh"
 
+#include <ctime>
+
 namespace zenkit {
 	class ReadArchiveAscii final : public ReadArchive {
 	public:
@@ -77,5 +79,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::uint32_t _m_indent {0};
 		std::size_t _m_head;
+		std::time_t _m_time {std::time(nullptr)};
 	};
 } // namespace zenkit
diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 42e2997..bfe0f3f 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -246,9 +246,8 @@ namespace zenkit {
 		if (username == nullptr) username = "Anonymous";
 
 		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
+		// The header is written again when the archive is complete, so it may never change its size.
+		auto* time = std::localtime(&_m_time);
 		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
 
 		this->_m_write->write_line("ZenGin Archive");
diff --git a/src/archive/ArchiveBinary.hh b/src/archive/ArchiveBinary.hh
index d09c8da..2373e27 100644
--- a/src/archive/ArchiveBinary.hh
+++ b/src/archive/ArchiveBinary.hh
@@ -4,6 +4,7 @@
 #include "zenkit/Archive.hh"
 #include "zenkit/Stream.hh"
 
+#include <ctime>
 #include <stack>
 
 namespace zenkit {
@@ -77,5 +78,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::stack<size_t> _m_objects {};
 		std::size_t _m_head;
+		std::time_t _m_time {std::time(nullptr)};
 	};
 } // namespace zenkit
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 1499657..2a96c6a 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -415,9 +415,8 @@ namespace zenkit {
 		if (username == nullptr) username = "Anonymous";
 
 		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
+		// The header is written again when the archive is complete, so it may never change its size.
+		auto* time = std::localtime(&_m_time);
 		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
 
 		this->_m_write->write_line("ZenGin Archive");
diff --git a/src/archive/ArchiveBinsafe.hh b/src/archive/ArchiveBinsafe.hh
index 3b46b53..9c9ddf1 100644
--- a/src/archive/ArchiveBinsafe.hh
+++ b/src/archive/ArchiveBinsafe.hh
@@ -4,6 +4,7 @@
 #include "zenkit/Archive.hh"
 #include "zenkit/Stream.hh"
 
+#include <ctime>
 #include <map>
 #include <vector>
 
@@ -124,5 +125,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::map<std::string, std::uint16_t, std::less<>> _m_hash_keys;
 		std::size_t _m_head;
+		std::time_t _m_time {std::time(nullptr)};
 	};
 } // namespace zenkit
-- 
2.43.0


From e38bbfb18d165e9f18575839d58164d92a3952e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:06 +0000
Subject: [PATCH 025/132] fix: don't mistake skipped strings of BINSAFE
 archives for object boundaries

---
 src/archive/ArchiveBinsafe.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 2a96c6a..047bfd3 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -219,7 +219,15 @@ namespace zenkit {
 	}
 
 	void ReadArchiveBinsafe::skip_entry() {
-		switch (static_cast<ArchiveEntryType>(read->read_ubyte())) {
+		auto type = static_cast<ArchiveEntryType>(read->read_ubyte());
+
+		// The value following the key belongs to this entry, it might look like the start or end of an object.
+		if (type == ArchiveEntryType::HASH) {
+			(void) read->read_uint();
+			type = static_cast<ArchiveEntryType>(read->read_ubyte());
+		}
+
+		switch (type) {
 		case ArchiveEntryType::STRING:
 		case ArchiveEntryType::RAW:
 		case ArchiveEntryType::RAW_FLOAT:
-- 
2.43.0


From d3a2fd6828bd348bed7e618254184cd5f4d83b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:43 +0000
Subject: [PATCH 026/132] fix: stop skipping objects at the end of truncated
 archives

---
 src/Archive.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Archive.cc b/src/Archive.cc
index 8797a87..e3c3f91 100644
--- a/src/Archive.cc
+++ b/src/Archive.cc
@@ -538,7 +538,7 @@ namespace zenkit {
 			} else {
 				skip_entry();
 			}
-		} while (level > 0);
+		} while (level > 0 && !read->eof());
 	}
 
 	std::unique_ptr<WriteArchive> WriteArchive::to(Write* w, ArchiveFormat format) {
-- 
2.43.0


From bbab73fff9397d78eb3b3a3800be290463d6a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:57 +0000
Subject: [PATCH 027/132] fix: keep the animation mode and bias of VObs

---
 src/vobs/VirtualObject.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 6c23fd2..a8ad4da 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -106,7 +106,7 @@ namespace zenkit {
 			this->physics_enabled = static_cast<bool>((bit1 & 0b000000001000000u) >> 6u);
 
 			if (version == GameVersion::GOTHIC_2) {
-				this->anim_mode = static_cast<AnimationType>(bit1 & 0b000000110000000u >> 7u);
+				this->anim_mode = static_cast<AnimationType>((bit1 & 0b000000110000000u) >> 7u);
 				this->bias = static_cast<std::int32_t>((bit1 & 0b011111000000000u) >> 9u);
 				this->ambient = static_cast<bool>((bit1 & 0b100000000000000u) >> 14u);
 
@@ -239,8 +239,8 @@ namespace zenkit {
 			}
 
 			if (version == GameVersion::GOTHIC_2) {
-				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 2) << 7u;
-				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 13u;
+				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 3) << 7u;
+				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 9u;
 				bit1 |= this->ambient << 14u;
 
 				pw->write_ushort(bit1);
-- 
2.43.0


From 9822fd64b02ce8610774e5fb41bfa69bd5d94457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:57 +0000
Subject: [PATCH 028/132] fix: write unpacked VObs like they are read

---
 src/vobs/VirtualObject.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index a8ad4da..8598a0e 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -258,7 +258,7 @@ namespace zenkit {
 			w.write_mat3x3("trafoOSToWSRot", this->rotation);
 			w.write_vec3("trafoOSToWSPos", this->position);
 			w.write_string("vobName", this->vob_name);
-			w.write_string("visual", this->visual_name);
+			w.write_string("visual", this->visual ? this->visual->name : std::string {});
 			w.write_bool("showVisual", this->show_visual);
 			w.write_enum("visualCamAlign", static_cast<int>(this->sprite_camera_facing_mode));
 
@@ -280,23 +280,26 @@ namespace zenkit {
 			}
 		}
 
-		if (!this->preset_name.empty()) {
+		// Unpacked VObs already contain their names and always contain the visual and AI, even if there is none.
+		if (pack && !this->preset_name.empty()) {
 			w.write_string("presetName", this->preset_name);
 		}
 
-		if (!this->vob_name.empty()) {
+		if (pack && !this->vob_name.empty()) {
 			w.write_string("vobName", this->vob_name);
 		}
 
-		if (this->visual && !this->visual->name.empty()) {
+		if (pack && this->visual && !this->visual->name.empty()) {
 			w.write_string("visual", this->visual->name);
 		}
 
 		if (this->visual && this->visual->type != VisualType::UNKNOWN) {
 			w.write_object("visual", this->visual, version);
+		} else if (!pack) {
+			w.write_object("visual", nullptr, version);
 		}
 
-		if (this->ai) {
+		if (this->ai || !pack) {
 			w.write_object("ai", this->ai, version);
 		}
 
-- 
2.43.0


From 6add8be6e19354d9ab4121a9778045e02dbff9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:57 +0000
Subject: [PATCH 029/132] fix: only write event managers if they are going to
 be read

---
 src/vobs/VirtualObject.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 8598a0e..8f12604 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -303,7 +303,8 @@ namespace zenkit {
 			w.write_object("ai", this->ai, version);
 		}
 
-		if (this->event_manager) {
+		// Event managers are only present in packed VObs of save-games.
+		if (this->event_manager && pack && w.is_save_game()) {
 			w.write_object(this->event_manager, version);
 		}
 
-- 
2.43.0


From eed2ec10ecd849e68b68f1f976bcb395314d0808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:57 +0000
Subject: [PATCH 030/132] fix: write the rigid body of every VOb which has
 physics enabled

---
 src/vobs/VirtualObject.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 8f12604..a5913b0 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -231,12 +231,7 @@ namespace zenkit {
 			bit1 |= (!!this->ai) << 4u;
 			bit1 |= (!!this->event_manager) << 5u;
 
-			// Gothic 1 does not store rigid-body information.
-			if (version == GameVersion::GOTHIC_1) {
-				bit1 |= this->physics_enabled << 6u;
-			} else {
-				bit1 |= (this->physics_enabled && this->rigid_body) << 6u;
-			}
+			bit1 |= this->physics_enabled << 6u;
 
 			if (version == GameVersion::GOTHIC_2) {
 				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 3) << 7u;
@@ -312,9 +307,8 @@ namespace zenkit {
 			w.write_byte("sleepMode", this->sleep_mode);
 			w.write_float("nextOnTimer", this->next_on_timer);
 
-			// Gothic 1 does not store rigid-body information.
-			if (this->physics_enabled && this->rigid_body) {
-				this->rigid_body->save(w, version);
+			if (this->physics_enabled) {
+				this->rigid_body.value_or(RigidBody {}).save(w, version);
 			}
 		}
 	}
-- 
2.43.0


From a3abeb47a8fa14b122b726da650f4894998456d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:57 +0000
Subject: [PATCH 031/132] fix: keep the visual name of VObs without a visual
 object

---
 src/vobs/VirtualObject.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index a5913b0..30c7da3 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -203,6 +203,11 @@ namespace zenkit {
 	void VirtualObject::save(WriteArchive& w, GameVersion version) const {
 		Object::save(w, version);
 
+		// Some VObs only have the name of a visual but no visual object.
+		bool has_visual = this->visual && this->visual->type != VisualType::UNKNOWN;
+		auto const& visual_name = has_visual || (this->visual && !this->visual->name.empty()) ? this->visual->name
+		                                                                                      : this->visual_name;
+
 		if (pack) {
 			w.write_int("pack", 1);
 			std::vector<std::byte> packed;
@@ -226,8 +231,8 @@ namespace zenkit {
 			std::uint16_t bit1 = 0;
 			bit1 |= !preset_name.empty() << 0u;
 			bit1 |= !vob_name.empty() << 1u;
-			bit1 |= (this->visual && !this->visual->name.empty()) << 2u;
-			bit1 |= (!!this->visual && this->visual->type != VisualType::UNKNOWN) << 3u;
+			bit1 |= !visual_name.empty() << 2u;
+			bit1 |= has_visual << 3u;
 			bit1 |= (!!this->ai) << 4u;
 			bit1 |= (!!this->event_manager) << 5u;
 
@@ -253,7 +258,7 @@ namespace zenkit {
 			w.write_mat3x3("trafoOSToWSRot", this->rotation);
 			w.write_vec3("trafoOSToWSPos", this->position);
 			w.write_string("vobName", this->vob_name);
-			w.write_string("visual", this->visual ? this->visual->name : std::string {});
+			w.write_string("visual", visual_name);
 			w.write_bool("showVisual", this->show_visual);
 			w.write_enum("visualCamAlign", static_cast<int>(this->sprite_camera_facing_mode));
 
@@ -284,11 +289,11 @@ namespace zenkit {
 			w.write_string("vobName", this->vob_name);
 		}
 
-		if (pack && this->visual && !this->visual->name.empty()) {
-			w.write_string("visual", this->visual->name);
+		if (pack && !visual_name.empty()) {
+			w.write_string("visual", visual_name);
 		}
 
-		if (this->visual && this->visual->type != VisualType::UNKNOWN) {
+		if (has_visual) {
 			w.write_object("visual", this->visual, version);
 		} else if (!pack) {
 			w.write_object("visual", nullptr, version);
-- 
2.43.0


From b5972d29ed02de93e859fb2f0b8376d387a76ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:57 +0000
Subject: [PATCH 032/132] fix: save the flags of triggers

---
 src/vobs/Trigger.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/vobs/Trigger.cc b/src/vobs/Trigger.cc
index 23f9c29..64e472e 100644
--- a/src/vobs/Trigger.cc
+++ b/src/vobs/Trigger.cc
@@ -45,9 +45,22 @@ namespace zenkit {
 
 	void VTrigger::save(WriteArchive& w, GameVersion version) const {
 		VirtualObject::save(w, version);
+
+		auto flags = static_cast<uint8_t>(this->flags & ~0x5u);
+		flags |= this->start_enabled << 0u;
+		flags |= this->send_untrigger << 2u;
+
+		auto filter_flags = static_cast<uint8_t>(this->filter_flags & ~0x3Fu);
+		filter_flags |= this->react_to_on_trigger << 0u;
+		filter_flags |= this->react_to_on_touch << 1u;
+		filter_flags |= this->react_to_on_damage << 2u;
+		filter_flags |= this->respond_to_object << 3u;
+		filter_flags |= this->respond_to_pc << 4u;
+		filter_flags |= this->respond_to_npc << 5u;
+
 		w.write_string("triggerTarget", this->target);
-		w.write_raw("flags", reinterpret_cast<std::byte const*>(&this->flags), 1);
-		w.write_raw("filterFlags", reinterpret_cast<std::byte const*>(&this->filter_flags), 1);
+		w.write_raw("flags", reinterpret_cast<std::byte const*>(&flags), 1);
+		w.write_raw("filterFlags", reinterpret_cast<std::byte const*>(&filter_flags), 1);
 		w.write_string("respondToVobName", this->vob_target);
 		w.write_int("numCanBeActivated", this->max_activation_count);
 		w.write_float("retriggerWaitSec", this->retrigger_delay_sec);
-- 
2.43.0


From daab9a03be372984c5afb05eb8072ed5edcff550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:57 +0000
Subject: [PATCH 033/132] fix: write the triggered slaves of code masters

---
 src/vobs/Misc.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index c711191..cf9e440 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -161,7 +161,12 @@ namespace zenkit {
 		}
 
 		if (w.is_save_game() && version == GameVersion::GOTHIC_2) {
-			// FIXME: This is not implemented because its behavior is unknown.
+			w.write_byte("numSlavesTriggered", this->s_num_triggered_slaves);
+
+			// FIXME: The triggered slaves themselves are not implemented because their behavior is unknown.
+			for (auto i = 0u; i < (this->slaves.size() & 0xffu); ++i) {
+				w.write_object("slaveTriggered" + std::to_string(i), nullptr, version);
+			}
 		}
 	}
 
-- 
2.43.0


From 2c5f471fb89cf9b94cd4528487c229d5aedaf697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:57 +0000
Subject: [PATCH 034/132] fix: don't prepend range animations to color
 animations of lights

---
 src/vobs/Light.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/Light.cc b/src/vobs/Light.cc
index 5183385..9b34b2d 100644
--- a/src/vobs/Light.cc
+++ b/src/vobs/Light.cc
@@ -101,7 +101,7 @@ namespace zenkit {
 			w.write_float("rangeAniFPS", this->range_animation_fps);
 			w.write_bool("rangeAniSmooth", this->range_animation_smooth);
 
-			os.clear();
+			os.str("");
 			for (auto& c : this->color_animation_list) {
 				os << "(" << static_cast<int>(c.r) << " " << static_cast<int>(c.g) << " " << static_cast<int>(c.b)
 				   << ") ";
-- 
2.43.0


From 6653b2f9efa5aaf412b5a7cb115d1978f61029da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:57 +0000
Subject: [PATCH 035/132] fix: save the original pose of camera frames like it
 is loaded

---
 src/vobs/Camera.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vobs/Camera.cc b/src/vobs/Camera.cc
index 97c037c..86a9627 100644
--- a/src/vobs/Camera.cc
+++ b/src/vobs/Camera.cc
@@ -44,9 +44,10 @@ namespace zenkit {
 		w.write_float("continuity", this->continuity);
 		w.write_float("timeScale", this->time_scale);
 		w.write_bool("timeIsFixed", this->time_fixed);
-		w.write_raw("originalPose",
-		            reinterpret_cast<std::byte const*>(this->original_pose.pointer()),
-		            4 * 4 * sizeof(float));
+
+		std::vector<std::byte> pose;
+		Write::to(&pose)->write_mat4(this->original_pose);
+		w.write_raw("originalPose", pose);
 	}
 
 	void VCutsceneCamera::parse(VCutsceneCamera& obj, ReadArchive& r, GameVersion version) {
-- 
2.43.0


From 90ea03eb623c0f3fa4a8180f43a01d7ff60d03f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:57 +0000
Subject: [PATCH 036/132] fix: split the packed inventory of Gothic 2 NPCs

---
 src/vobs/Misc.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index cf9e440..3c66d57 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -371,8 +371,9 @@ namespace zenkit {
 			do {
 				auto next = std::find(it, pack.end(), ';');
 				this->packed[idx++].assign(it, next);
-				it = next;
-			} while (it != pack.end() && idx < 9);
+				if (next == pack.end()) break;
+				it = next + 1;
+			} while (idx < 9);
 		}
 
 		auto item_count = static_cast<size_t>(r.read_int()); // itemCount
-- 
2.43.0


From 7465cc9b185c15a064b830c43af2a1605116d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:57 +0000
Subject: [PATCH 037/132] fix: only write item short keys of NPCs if they are
 going to be read

---
 src/vobs/Misc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index 3c66d57..30ed078 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -382,7 +382,7 @@ namespace zenkit {
 		for (auto i = 0u; i < item_count; ++i) {
 			this->items[i] = r.read_object<VItem>(version); // item0
 
-			if ((this->items[i]->s_flags & 0x200) != 0) {
+			if (this->items[i] != nullptr && (this->items[i]->s_flags & 0x200) != 0) {
 				(void) r.read_int(); // shortKey<n> // TODO
 			}
 		}
@@ -544,7 +544,7 @@ namespace zenkit {
 			auto& item = this->items[i];
 			w.write_object("item" + std::to_string(i), item, version);
 
-			if ((item->s_flags & 0x200) != 0) {
+			if (item != nullptr && w.is_save_game() && (item->s_flags & 0x200) != 0) {
 				w.write_int("shortKey" + std::to_string(i), 0); // TODO
 			}
 		}
-- 
2.43.0


From 162129324db90accf0acaeb3d0e5948c0fbb56eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:22 +0000
Subject: [PATCH 038/132] fix: write the rigid body of unpacked VObs, which is
 always read

---
 src/vobs/VirtualObject.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 30c7da3..dea5a8a 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -312,7 +312,8 @@ namespace zenkit {
 			w.write_byte("sleepMode", this->sleep_mode);
 			w.write_float("nextOnTimer", this->next_on_timer);
 
-			if (this->physics_enabled) {
+			// Unpacked VObs don't store whether physics are enabled, so the rigid body is always expected.
+			if (this->physics_enabled || !pack) {
 				this->rigid_body.value_or(RigidBody {}).save(w, version);
 			}
 		}
-- 
2.43.0


From 8dea9aafc7d8dde5e150131773da4a3e5172829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:19 +0000
Subject: [PATCH 039/132] fix: keep objects alive while they can be referenced
 by an archive

---
 include/zenkit/Archive.hh | 1 +
 src/Archive.cc            | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/zenkit/Archive.hh b/include/zenkit/Archive.hh
index 661ba57..1c0fdc8 100644
--- a/include/zenkit/Archive.hh
+++ b/include/zenkit/Archive.hh
@@ -301,6 +301,7 @@ namespace zenkit {
 
 	private:
 		std::unordered_map<Object const*, uint32_t> _m_cache {};
+		std::vector<std::shared_ptr<Object>> _m_objects {};
 		bool _m_save {false};
 	};
 } // namespace zenkit
diff --git a/src/Archive.cc b/src/Archive.cc
index e3c3f91..7778052 100644
--- a/src/Archive.cc
+++ b/src/Archive.cc
@@ -570,6 +570,11 @@ namespace zenkit {
 			return;
 		}
 
+		// Objects are identified by their address, so it may not be re-used while the archive is being written.
+		if (obj != nullptr) {
+			_m_objects.push_back(obj);
+		}
+
 		this->write_object(name, obj.get(), version);
 	}
 
-- 
2.43.0


From a13f6c85c0329e0f550c0522646f1356af3244be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:13 +0000
Subject: [PATCH 040/132] fix: don't crash when dividing the smallest integer
 by -1 in scripts

---
 src/DaedalusVm.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 0b4420e..33677f8 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -75,6 +75,18 @@ namespace zenkit {
 		bool _m_inhibited {false};
 	};
 
+	/// \brief Divides two integers, wrapping around instead of trapping if the result is not representable.
+	static std::int32_t vm_divide(std::int32_t a, std::int32_t b) {
+		if (b == 0) throw DaedalusVmException {"vm: division by zero"};
+		return static_cast<std::int32_t>(static_cast<std::int64_t>(a) / b);
+	}
+
+	/// \brief Calculates the remainder of a division without trapping if the quotient is not representable.
+	static std::int32_t vm_modulo(std::int32_t a, std::int32_t b) {
+		if (b == 0) throw DaedalusVmException {"vm: division by zero"};
+		return static_cast<std::int32_t>(static_cast<std::int64_t>(a) % b);
+	}
+
 	DaedalusVm::DaedalusVm(DaedalusScript&& scr, std::uint8_t flags) : DaedalusScript(std::move(scr)), _m_flags(flags) {
 		_m_temporary_strings = add_temporary_strings_symbol();
 		_m_temporary_strings_free.push(0);
@@ -148,18 +160,12 @@ namespace zenkit {
 			case DaedalusOpcode::DIV:
 				a = pop_int();
 				b = pop_int();
-
-				if (b == 0) throw DaedalusVmException {"vm: division by zero"};
-
-				push_int(a / b);
+				push_int(vm_divide(a, b));
 				break;
 			case DaedalusOpcode::MOD:
 				a = pop_int();
 				b = pop_int();
-
-				if (b == 0) throw DaedalusVmException {"vm: division by zero"};
-
-				push_int(a % b);
+				push_int(vm_modulo(a, b));
 				break;
 			case DaedalusOpcode::OR:
 				push_int(pop_int() | pop_int());
@@ -384,7 +390,7 @@ namespace zenkit {
 
 				if (!ref->is_member() || context != nullptr ||
 				    !(_m_flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS)) {
-					auto result = ref->get_int(idx, context.get()) / value;
+					auto result = vm_divide(ref->get_int(idx, context.get()), value);
 					ref->set_int(result, idx, context.get());
 				} else if (ref->is_member()) {
 					ZKLOGE("DaedalusVm", "Accessing member \"%s\" without an instance set", ref->name().c_str());
-- 
2.43.0


From 5697dae6ae1efe56b239694e9df7783c76ca9aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:13 +0000
Subject: [PATCH 041/132] fix: release the temporary strings of discarded stack
 frames

---
 include/zenkit/DaedalusVm.hh | 10 +++++++---
 src/DaedalusVm.cc            | 33 ++++++++++++++++++++++++---------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 17a81ee..0611d9c 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -154,7 +154,7 @@ namespace zenkit {
 			if constexpr (std::same_as<R, IgnoreReturnValue>) {
 				if (sym->has_return()) {
 					// Make sure to still pop the return value off of the stack.
-					_m_stack_ptr--;
+					reset_stack(_m_stack_ptr > 0 ? _m_stack_ptr - 1u : 0u);
 				}
 
 				return {};
@@ -320,14 +320,14 @@ namespace zenkit {
 		ZKAPI void push_int(std::int32_t value);
 		ZKAPI void push_float(float value);
 		ZKAPI void push_instance(std::shared_ptr<DaedalusInstance> value);
-		ZKAPI void push_reference(DaedalusSymbol* value, std::uint8_t index = 0);
+		ZKAPI void push_reference(DaedalusSymbol* value, std::uint16_t index = 0);
 		ZKAPI void push_string(std::string_view value);
 
 		[[nodiscard]] ZKAPI std::int32_t pop_int();
 		[[nodiscard]] ZKAPI float pop_float();
 		[[nodiscard]] ZKAPI std::shared_ptr<DaedalusInstance> pop_instance();
 		[[nodiscard]] ZKAPI std::string const& pop_string();
-		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint8_t, std::shared_ptr<DaedalusInstance>>
+		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>>
 		pop_reference();
 		[[nodiscard]] ZKAPI bool top_is_reference() const;
 
@@ -718,6 +718,10 @@ namespace zenkit {
 		/// call stack entry refers to was called.
 		ZKINT void pop_call();
 
+		/// \brief Moves the stack pointer to the given position, discarding all values above it.
+		/// \param stack_ptr The position to move the stack pointer to.
+		ZKAPI void reset_stack(std::uint32_t stack_ptr);
+
 		/// \brief Pushes a function local variables onto the call stack.
 		///
 		/// Part of #push_call implementation
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 33677f8..57b1552 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -4,6 +4,7 @@
 
 #include "Internal.hh"
 
+#include <algorithm>
 #include <utility>
 
 namespace zenkit {
@@ -464,10 +465,24 @@ namespace zenkit {
 		if (sym->has_local_variables_enabled()) {
 			push_local_variables(sym);
 		}
-		auto var_count = this->find_parameters_for_function(sym).size();
+		auto var_count = std::min<std::size_t>(this->find_parameters_for_function(sym).size(), _m_stack_ptr);
 		_m_call_stack.push_back({sym, _m_pc, _m_stack_ptr - static_cast<uint32_t>(var_count), _m_instance});
 	}
 
+	void DaedalusVm::reset_stack(std::uint32_t stack_ptr) {
+		while (_m_stack_ptr > stack_ptr) {
+			DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
+			if (v.reference && std::get<DaedalusSymbol*>(v.value) == _m_temporary_strings) {
+				this->mark_free_string(v.index);
+			}
+		}
+
+		// Something popped more values than it was supposed to. They are lost, but the stack must stay balanced.
+		while (_m_stack_ptr < stack_ptr) {
+			push_int(0);
+		}
+	}
+
 	void DaedalusVm::pop_call() {
 		auto const& call = _m_call_stack.back();
 
@@ -475,18 +490,18 @@ namespace zenkit {
 		if (!call.function->has_return()) {
 			// No special logic needed, there are supposed to be no more stack frames for
 			// this function, so just reset the stack for the caller.
-			_m_stack_ptr = call.stack_ptr;
+			reset_stack(call.stack_ptr);
 		} else {
-			auto remaining_locals = _m_stack_ptr - call.stack_ptr;
-			if (remaining_locals == 0) {
+			if (_m_stack_ptr <= call.stack_ptr) {
 				// The function is supposed to have a return value, but it does not seem to have one.
 				// To fix this, we just insert a default value (either 0, "" or NULL).
+				reset_stack(call.stack_ptr);
 				StackGuard::fix(this, call.function->rtype());
-			} else if (remaining_locals > 1) {
+			} else if (_m_stack_ptr - call.stack_ptr > 1) {
 				// Now we have too many items left on the stack. Remove all of them, except the topmost one,
 				// since that one is supposed to be the return value of the function.
-				DaedalusStackFrame frame = _m_stack[--_m_stack_ptr];
-				_m_stack_ptr = call.stack_ptr;
+				DaedalusStackFrame frame = std::move(_m_stack[--_m_stack_ptr]);
+				reset_stack(call.stack_ptr);
 				_m_stack[_m_stack_ptr++] = std::move(frame);
 			}
 			// else {
@@ -657,7 +672,7 @@ namespace zenkit {
 		_m_stack[_m_stack_ptr++] = {nullptr, false, value};
 	}
 
-	void DaedalusVm::push_reference(DaedalusSymbol* value, std::uint8_t index) {
+	void DaedalusVm::push_reference(DaedalusSymbol* value, std::uint16_t index) {
 		if (_m_stack_ptr == stack_size) {
 			throw DaedalusVmException {"stack overflow"};
 		}
@@ -735,7 +750,7 @@ namespace zenkit {
 		throw DaedalusVmException {"tried to pop_float but frame does not contain a float."};
 	}
 
-	std::tuple<DaedalusSymbol*, std::uint8_t, std::shared_ptr<DaedalusInstance>> DaedalusVm::pop_reference() {
+	std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>> DaedalusVm::pop_reference() {
 		if (_m_stack_ptr == 0) {
 			throw DaedalusVmException {"popping reference from empty stack"};
 		}
-- 
2.43.0


From caa867c2b16a7c28c5d37fe4f8ff8cb643b2a710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:26 +0000
Subject: [PATCH 042/132] fix: restore the VM state if a call fails

---
 include/zenkit/DaedalusVm.hh | 28 ++++++++--
 src/DaedalusVm.cc            | 99 +++++++++++++++++++++++++-----------
 2 files changed, 93 insertions(+), 34 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 0611d9c..3a6cddf 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -146,7 +146,14 @@ namespace zenkit {
 			}
 
 			if constexpr (sizeof...(P) > 0) {
-				push_call_parameters<0, P...>(params, args...);
+				auto stack_ptr = _m_stack_ptr;
+
+				try {
+					push_call_parameters<0, P...>(params, args...);
+				} catch (...) {
+					reset_stack(stack_ptr);
+					throw;
+				}
 			}
 
 			unsafe_call(sym);
@@ -221,7 +228,13 @@ namespace zenkit {
 
 			if (_m_self_sym) _m_self_sym->set_instance(_m_instance);
 
-			unsafe_call(sym);
+			try {
+				unsafe_call(sym);
+			} catch (...) {
+				_m_instance = old_instance;
+				if (_m_self_sym) _m_self_sym->set_instance(old_self_instance);
+				throw;
+			}
 
 			// reset the VM state
 			_m_instance = old_instance;
@@ -718,6 +731,15 @@ namespace zenkit {
 		/// call stack entry refers to was called.
 		ZKINT void pop_call();
 
+		/// \brief Invokes the given callback, restoring the interpreter's state if it fails.
+		///
+		/// If the callback throws an exception, the interpreter's state is reset to what it was before the arguments
+		/// of the function were pushed onto the stack and the exception is re-thrown.
+		///
+		/// \param sym The symbol referring to the function called.
+		/// \param call The callback performing the call.
+		ZKINT void guarded_call(DaedalusSymbol const* sym, std::function<void()> const& call);
+
 		/// \brief Moves the stack pointer to the given position, discarding all values above it.
 		/// \param stack_ptr The position to move the stack pointer to.
 		ZKAPI void reset_stack(std::uint32_t stack_ptr);
@@ -731,7 +753,7 @@ namespace zenkit {
 		/// \brief Pops a function-local variables from the call stack.
 		///
 		/// Part of #pop_call implementation
-		ZKINT void pop_local_variables(DaedalusSymbol const* sym);
+		ZKINT void pop_local_variables(DaedalusSymbol const* sym, bool has_return);
 
 		/// \brief Checks that the type of each symbol in the given set of defined symbols matches the given type
 		/// parameters.
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 57b1552..3120df0 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -37,7 +37,11 @@ namespace zenkit {
 		~StackGuard() {
 			if (_m_inhibited) return;
 
-			StackGuard::fix(_m_machine, _m_type);
+			try {
+				StackGuard::fix(_m_machine, _m_type);
+			} catch (DaedalusScriptError const&) {
+				// There is no more space on the stack. The original error is still being propagated.
+			}
 		}
 
 		/// \brief Inhibits this guard.
@@ -117,14 +121,45 @@ namespace zenkit {
 	}
 
 	void DaedalusVm::unsafe_call(DaedalusSymbol const* sym) {
-		push_call(sym);
-		jump(sym->address());
+		guarded_call(sym, [this, sym] {
+			push_call(sym);
+			jump(sym->address());
+
+			// execute until an op_return is reached
+			while (exec())
+				;
+
+			pop_call();
+		});
+	}
+
+	void DaedalusVm::guarded_call(DaedalusSymbol const* sym, std::function<void()> const& call) {
+		auto depth = _m_call_stack.size();
+		auto pc = _m_pc;
+		auto instance = _m_instance;
+		auto params = std::min<std::size_t>(find_parameters_for_function(sym).size(), _m_stack_ptr);
+		auto stack_ptr = static_cast<std::uint32_t>(_m_stack_ptr - params);
+
+		try {
+			call();
+		} catch (...) {
+			// Discard everything the call left behind, so that it is as if it had never happened.
+			while (_m_call_stack.size() > depth) {
+				auto function = _m_call_stack.back().function;
+				reset_stack(_m_call_stack.back().stack_ptr);
+
+				if (function->has_local_variables_enabled()) {
+					pop_local_variables(function, false);
+				}
 
-		// execute until an op_return is reached
-		while (exec())
-			;
+				_m_call_stack.pop_back();
+			}
 
-		pop_call();
+			reset_stack(stack_ptr);
+			_m_pc = pc;
+			_m_instance = instance;
+			throw;
+		}
 	}
 
 	void DaedalusVm::unsafe_jump(uint32_t address) {
@@ -240,21 +275,22 @@ namespace zenkit {
 			case DaedalusOpcode::BL: {
 				// Check if the function is overridden and if it is, call the resulting external.
 				sym = find_symbol_by_address(instr.address);
+				if (sym == nullptr) {
+					throw DaedalusVmException {"bl: no symbol found for address " + std::to_string(instr.address)};
+				}
+
+				// Guard against exceptions during invocation.
+				StackGuard guard {this, sym->rtype()};
+
 				if (auto cb = _m_function_overrides.find(instr.address); cb != _m_function_overrides.end()) {
-					// Guard against exceptions during external invocation.
-					StackGuard guard {this, sym->rtype()};
 					// Call maybe naked.
-					cb->second(*this);
-					// The stack is left intact.
-					guard.inhibit();
+					guarded_call(sym, [this, &cb] { cb->second(*this); });
 				} else {
-					if (sym == nullptr) {
-						throw DaedalusVmException {"bl: no symbol found for address " + std::to_string(instr.address)};
-					}
-
 					unsafe_call(sym);
 				}
 
+				// The stack is left intact.
+				guard.inhibit();
 				break;
 			}
 			case DaedalusOpcode::BE: {
@@ -266,20 +302,21 @@ namespace zenkit {
 				// Guard against exceptions during external invocation.
 				StackGuard guard {this, sym->rtype()};
 
-				auto cb = _m_externals.find(sym);
-				if (cb == _m_externals.end()) {
-					if (_m_default_external.has_value()) {
+				guarded_call(sym, [this, sym] {
+					auto cb = _m_externals.find(sym);
+					if (cb == _m_externals.end()) {
+						if (!_m_default_external.has_value()) {
+							throw DaedalusVmException {"be: no external registered for " + sym->name()};
+						}
+
 						(*_m_default_external)(*this, *sym);
-						guard.inhibit();
-						break;
+						return;
 					}
 
-					throw DaedalusVmException {"be: no external registered for " + sym->name()};
-				}
-
-				push_call(sym);
-				cb->second(*this);
-				pop_call();
+					push_call(sym);
+					cb->second(*this);
+					pop_call();
+				});
 
 				// The stack is left intact.
 				guard.inhibit();
@@ -512,7 +549,7 @@ namespace zenkit {
 		}
 
 		if (call.function->has_local_variables_enabled()) {
-			pop_local_variables(call.function);
+			pop_local_variables(call.function, call.function->has_return());
 		}
 
 		// Second, reset PC and context, then remove the call stack frame
@@ -606,7 +643,7 @@ namespace zenkit {
 		_m_stack_ptr += params.size();
 	}
 
-	void DaedalusVm::pop_local_variables(DaedalusSymbol const* sym) {
+	void DaedalusVm::pop_local_variables(DaedalusSymbol const* sym, bool has_return) {
 		int has_recursion = 0;
 		for (auto& i : _m_call_stack) {
 			if (i.function == sym) {
@@ -619,7 +656,7 @@ namespace zenkit {
 		}
 
 		DaedalusStackFrame ret;
-		if (sym->has_return()) {
+		if (has_return) {
 			ret = std::move(_m_stack[--_m_stack_ptr]);
 		}
 
@@ -659,7 +696,7 @@ namespace zenkit {
 			}
 		}
 
-		if (sym->has_return()) {
+		if (has_return) {
 			_m_stack[_m_stack_ptr++] = std::move(ret);
 		}
 	}
-- 
2.43.0


From c19251d1de475c62820bd939f28363d2f28098e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:26 +0000
Subject: [PATCH 043/132] fix: pop function and instance arguments of unknown
 externals

---
 src/DaedalusVm.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 3120df0..122cb00 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -870,18 +870,20 @@ namespace zenkit {
 			auto params = find_parameters_for_function(&sym);
 			for (int i = static_cast<int>(params.size()) - 1; i >= 0; --i) {
 				auto& par = params[static_cast<unsigned>(i)];
-				if (par.type() == DaedalusDataType::INT)
+				if (par.type() == DaedalusDataType::INT || par.type() == DaedalusDataType::FUNCTION)
 					(void) v.pop_int();
 				else if (par.type() == DaedalusDataType::FLOAT)
 					(void) v.pop_float();
-				else if (par.type() == DaedalusDataType::INSTANCE || par.type() == DaedalusDataType::STRING)
-					(void) v.pop_reference();
+				else if (par.type() == DaedalusDataType::INSTANCE)
+					(void) v.pop_instance();
+				else if (par.type() == DaedalusDataType::STRING)
+					(void) v.pop_string();
 			}
 
 			if (sym.has_return()) {
 				if (sym.rtype() == DaedalusDataType::FLOAT)
 					v.push_float(0.0f);
-				else if (sym.rtype() == DaedalusDataType::INT)
+				else if (sym.rtype() == DaedalusDataType::INT || sym.rtype() == DaedalusDataType::FUNCTION)
 					v.push_int(0);
 				else if (sym.rtype() == DaedalusDataType::STRING)
 					v.push_string("");
-- 
2.43.0


From 6ce7851d40e7c7df3c9f8b58676d1c60b5620117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:26 +0000
Subject: [PATCH 044/132] fix: keep arguments and returned locals of recursive
 functions

---
 src/DaedalusVm.cc | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 122cb00..eb2dff3 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -606,8 +606,11 @@ namespace zenkit {
 		// Move function arguments further back, since we're currently at the call instruction and the
 		// arguments for the next call have already been pushed.
 		_m_stack_ptr -= params.size();
-		for (size_t i = 0; i < params.size(); ++i) {
-			_m_stack[_m_stack_ptr + locals_size + i] = std::move(_m_stack[_m_stack_ptr + i]);
+		if (locals_size > 0) {
+			std::move_backward(_m_stack.begin() + _m_stack_ptr,
+			                   _m_stack.begin() + _m_stack_ptr + static_cast<std::ptrdiff_t>(params.size()),
+			                   _m_stack.begin() + _m_stack_ptr + locals_size +
+			                       static_cast<std::ptrdiff_t>(params.size()));
 		}
 
 		for (auto& l : locals) {
@@ -661,6 +664,35 @@ namespace zenkit {
 		}
 
 		auto locals = this->find_locals_for_function(sym);
+
+		if (has_return && ret.reference) {
+			// If one of the local variables is returned, its value must be kept, since it is about to be overwritten.
+			auto* ref = std::get<DaedalusSymbol*>(ret.value);
+			if (std::any_of(locals.begin(), locals.end(), [ref](DaedalusSymbol const& l) { return &l == ref; })) {
+				_m_stack[_m_stack_ptr++] = std::move(ret);
+
+				switch (ref->type()) {
+				case DaedalusDataType::FLOAT:
+					push_float(pop_float());
+					break;
+				case DaedalusDataType::FUNCTION:
+				case DaedalusDataType::INT:
+					push_int(pop_int());
+					break;
+				case DaedalusDataType::STRING:
+					push_string(pop_string());
+					break;
+				case DaedalusDataType::INSTANCE:
+					push_instance(pop_instance());
+					break;
+				default:
+					break;
+				}
+
+				ret = std::move(_m_stack[--_m_stack_ptr]);
+			}
+		}
+
 		for (size_t i = locals.size(); i > 0;) {
 			--i;
 			auto& l = locals[i];
-- 
2.43.0


From ed3c835d0728e9e32a5412d5b62ed8820681c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:26 +0000
Subject: [PATCH 045/132] fix: never fail while printing stack traces

---
 src/DaedalusVm.cc | 61 ++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index eb2dff3..83ef622 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -968,31 +968,35 @@ namespace zenkit {
 				auto ref = std::get<DaedalusSymbol*>(v.value);
 				std::string value;
 
-				switch (ref->type()) {
-				case DaedalusDataType::FLOAT:
-					value = std::to_string(ref->get_float(v.index, _m_instance.get()));
-					break;
-				case DaedalusDataType::INT:
-					value = std::to_string(ref->get_int(v.index, _m_instance.get()));
-					break;
-				case DaedalusDataType::STRING:
-					value = "'" + ref->get_string(v.index, _m_instance.get()) + "'";
-					break;
-				case DaedalusDataType::FUNCTION: {
-					auto index = ref->get_int(v.index, _m_instance.get());
-					auto sym = find_symbol_by_index(static_cast<uint32_t>(index));
-					value = "&" + sym->name();
-					break;
-				}
-				case DaedalusDataType::INSTANCE: {
-					if (auto& inst = ref->get_instance(); inst != nullptr) {
-						value = "<instance of '" + std::string(inst->_m_type->name()) + "'>";
-					} else {
-						value = "NULL";
+				try {
+					switch (ref->type()) {
+					case DaedalusDataType::FLOAT:
+						value = std::to_string(ref->get_float(v.index, v.context.get()));
+						break;
+					case DaedalusDataType::INT:
+						value = std::to_string(ref->get_int(v.index, v.context.get()));
+						break;
+					case DaedalusDataType::STRING:
+						value = "'" + ref->get_string(v.index, v.context.get()) + "'";
+						break;
+					case DaedalusDataType::FUNCTION: {
+						auto index = ref->get_int(v.index, v.context.get());
+						auto sym = find_symbol_by_index(static_cast<uint32_t>(index));
+						value = sym != nullptr ? "&" + sym->name() : "NULL";
+						break;
 					}
-					break;
-				}
-				default:
+					case DaedalusDataType::INSTANCE: {
+						if (auto& inst = ref->get_instance(); inst != nullptr) {
+							value = "<instance of '" + std::string(inst->_m_type ? inst->_m_type->name() : "?") + "'>";
+						} else {
+							value = "NULL";
+						}
+						break;
+					}
+					default:
+						value = "<invalid stack frame>";
+					}
+				} catch (std::exception const&) {
 					value = "<invalid stack frame>";
 				}
 
@@ -1014,7 +1018,7 @@ namespace zenkit {
 						ZKLOGE("DaedalusVm",
 						       "%d: [IMMEDIATE INSTANCE] = <instance of '%s'>",
 						       tmp_stack_ptr,
-						       inst->_m_type->name());
+						       inst->_m_type ? inst->_m_type->name() : "?");
 					}
 				}
 			}
@@ -1039,7 +1043,7 @@ namespace zenkit {
 				ZKLOGE("DaedalusVm",
 				       "%s = %s (%u)",
 				       sym->name().c_str(),
-				       instance_symbol->name().c_str(),
+				       instance_symbol != nullptr ? instance_symbol->name().c_str() : "?",
 				       instance->symbol_index());
 			} else if (instance == nullptr) {
 				ZKLOGE("DaedalusVm", "%s = NULL", sym->name().c_str());
@@ -1050,7 +1054,10 @@ namespace zenkit {
 
 		if (_m_instance != nullptr && _m_instance->symbol_index() != static_cast<uint32_t>(-1)) {
 			auto instance_symbol = find_symbol_by_instance(_m_instance);
-			ZKLOGE("DaedalusVm", "<__THIS__> = %s (%u)", instance_symbol->name().c_str(), _m_instance->symbol_index());
+			ZKLOGE("DaedalusVm",
+			       "<__THIS__> = %s (%u)",
+			       instance_symbol != nullptr ? instance_symbol->name().c_str() : "?",
+			       _m_instance->symbol_index());
 		} else if (_m_instance == nullptr) {
 			ZKLOGE("DaedalusVm", "<__THIS__> = NULL");
 		} else {
-- 
2.43.0


From 4a9a7da062c0391dae469853f0e5e12266b4770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:07 +0000
Subject: [PATCH 046/132] fix: don't access the type of unregistered instances

---
 include/zenkit/DaedalusVm.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 3a6cddf..69df93e 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -816,8 +816,8 @@ namespace zenkit {
 					auto& expected = typeid(typename T::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
@@ -834,8 +834,8 @@ namespace zenkit {
 					auto& expected = typeid(std::remove_pointer_t<T>);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
@@ -996,8 +996,8 @@ namespace zenkit {
 					auto& expected = typeid(typename R::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
-- 
2.43.0


From 501ba7e2fbb312d346b0a952599ed13662748807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:07 +0000
Subject: [PATCH 047/132] fix: limit the call depth of scripts

---
 src/DaedalusVm.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 83ef622..0ad59be 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -499,6 +499,11 @@ namespace zenkit {
 	}
 
 	void DaedalusVm::push_call(DaedalusSymbol const* sym) {
+		// Every script call also uses native stack space, so an infinite recursion must be stopped.
+		if (_m_call_stack.size() >= stack_size) {
+			throw DaedalusVmException {"call stack overflow"};
+		}
+
 		if (sym->has_local_variables_enabled()) {
 			push_local_variables(sym);
 		}
-- 
2.43.0


From 055f948975b7f30b20bdb7a19898839de9f10761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:07 +0000
Subject: [PATCH 048/132] fix: reject unregistered classes and instances
 instead of crashing

---
 include/zenkit/DaedalusScript.hh | 6 ++++--
 include/zenkit/DaedalusVm.hh     | 4 ++--
 src/DaedalusVm.cc                | 4 ++++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 1b55f89..55acff8 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -677,7 +677,7 @@ namespace zenkit {
 		}
 
 		[[nodiscard]] ZKAPI std::type_info const& registered_to() const noexcept {
-			return *_m_registered_to;
+			return _m_registered_to != nullptr ? *_m_registered_to : typeid(void);
 		}
 
 		ZKAPI void grow(uint32_t n);
@@ -904,7 +904,9 @@ namespace zenkit {
 		[[nodiscard]] ZKAPI std::vector<DaedalusSymbol*> find_class_members(DaedalusSymbol const& cls);
 
 		ZKAPI void register_as_opaque(std::string_view class_name) {
-			return register_as_opaque(find_symbol_by_name(class_name));
+			auto* sym = find_symbol_by_name(class_name);
+			if (sym == nullptr) throw DaedalusSymbolNotFound {std::string {class_name}};
+			return register_as_opaque(sym);
 		}
 
 		void register_as_opaque(DaedalusSymbol* sym);
diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 69df93e..7a49111 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -315,11 +315,11 @@ namespace zenkit {
 				                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 			}
 
-			while (parent->type() != DaedalusDataType::CLASS) {
+			while (parent != nullptr && parent->type() != DaedalusDataType::CLASS) {
 				parent = find_symbol_by_index(parent->parent());
 			}
 
-			if (parent->registered_to() != typeid(_instance_t)) {
+			if (parent == nullptr || parent->registered_to() != typeid(_instance_t)) {
 				throw DaedalusVmException {"Cannot init " + sym->name() +
 				                           ": parent class is not registered or is "
 				                           "registered to a different instance class"};
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 0ad59be..bc2e988 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -114,6 +114,10 @@ namespace zenkit {
 			                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 		}
 
+		if (cls->registered_to() != typeid(DaedalusOpaqueInstance)) {
+			throw DaedalusVmException {"Cannot init " + sym->name() + ": parent class is not registered as opaque"};
+		}
+
 		// create the instance
 		auto inst = std::make_shared<DaedalusOpaqueInstance>(*cls, find_class_members(*cls));
 		init_instance(inst, sym);
-- 
2.43.0


From 83735f5c4cde949e9e281c8c9cd0666c16766167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:07 +0000
Subject: [PATCH 049/132] fix: reject instances of other opaque classes and of
 unknown types as member context

---
 include/zenkit/DaedalusScript.hh | 10 +++++++---
 src/DaedalusScript.cc            | 16 +++++++++++++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 55acff8..de3840d 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -314,7 +314,7 @@ namespace zenkit {
 		ZKAPI ~DaedalusOpaqueInstance() override;
 
 	protected:
-		friend class symbol;
+		friend class DaedalusSymbol;
 
 		ZKAPI std::uint8_t* data() override {
 			return _m_storage.get();
@@ -328,6 +328,7 @@ namespace zenkit {
 		template <typename T, typename... Args>
 		ZKINT T* construct_at(size_t offset, Args&&... args);
 
+		std::uint32_t _m_class_index;
 		std::unique_ptr<std::uint8_t[]> _m_storage;
 		std::vector<std::string*> _m_strings;
 	};
@@ -686,7 +687,7 @@ namespace zenkit {
 		template <typename T>
 		T const* get_member_ptr(std::uint16_t index, DaedalusInstance const* context) const {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
-			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
+			check_context(context);
 
 			auto data_ptr = context->data();
 			std::uint32_t target_offset = offset_as_member() + index * sizeof(T);
@@ -696,13 +697,16 @@ namespace zenkit {
 		template <typename T>
 		T* get_member_ptr(std::uint16_t index, DaedalusInstance* context) {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
-			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
+			check_context(context);
 
 			auto data_ptr = context->data();
 			std::uint32_t target_offset = offset_as_member() + index * sizeof(T);
 			return reinterpret_cast<T*>(data_ptr + target_offset);
 		}
 
+		/// \brief Makes sure that this member can be accessed on the given instance.
+		ZKAPI void check_context(DaedalusInstance const* context) const;
+
 	private:
 		friend class DaedalusScript;
 		std::string _m_name;
diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index f40ae33..00ec697 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -572,6 +572,19 @@ namespace zenkit {
 		std::get<std::shared_ptr<DaedalusInstance>>(_m_value) = inst;
 	}
 
+	void DaedalusSymbol::check_context(DaedalusInstance const* context) const {
+		if (context->_m_type == nullptr) throw DaedalusIllegalContextType {this, typeid(*context)};
+		if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
+
+		// All opaque instances share the same C++ type but the layout of their data depends on their class.
+		if (*_m_registered_to == typeid(DaedalusOpaqueInstance)) {
+			auto* opaque = static_cast<DaedalusOpaqueInstance const*>(context);
+			if (opaque->_m_class_index != this->parent()) {
+				throw DaedalusIllegalInstanceAccess {this, opaque->_m_class_index};
+			}
+		}
+	}
+
 	void DaedalusSymbol::grow(uint32_t n) {
 		auto& value = this->_m_value;
 
@@ -620,7 +633,8 @@ namespace zenkit {
 	}
 
 	DaedalusOpaqueInstance::DaedalusOpaqueInstance(DaedalusSymbol const& sym,
-	                                               std::vector<DaedalusSymbol*> const& members) {
+	                                               std::vector<DaedalusSymbol*> const& members)
+	    : _m_class_index(sym.index()) {
 		size_t str_count = 0;
 		for (auto* member : members) {
 			if (member->type() != DaedalusDataType::STRING) continue;
-- 
2.43.0


From 0a262713bd27ade34950eb6b7acd52954cefe8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:07 +0000
Subject: [PATCH 050/132] fix: provide storage for every element of function
 variables

---
 src/DaedalusScript.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 00ec697..281ac4e 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -369,7 +369,7 @@ namespace zenkit {
 				break;
 			case DaedalusDataType::FUNCTION:
 				if (!this->is_const()) {
-					this->_m_value = std::unique_ptr<std::int32_t[]>(new int32_t[1]);
+					this->_m_value = std::make_unique<std::int32_t[]>(std::max(this->_m_count, 1u));
 				}
 				this->_m_address = r->read_int();
 				break;
@@ -451,7 +451,7 @@ namespace zenkit {
 				return reinterpret_cast<DaedalusTransientInstance const&>(*context).get_float(*this, index);
 			}
 
-			return *get_member_ptr<float>(static_cast<uint8_t>(index), context);
+			return *get_member_ptr<float>(index, context);
 		}
 
 		return std::get<std::unique_ptr<float[]>>(_m_value)[index];
@@ -478,7 +478,13 @@ namespace zenkit {
 			return *get_member_ptr<std::int32_t>(index, context);
 		}
 
-		return std::get<std::unique_ptr<std::int32_t[]>>(_m_value)[index];
+		auto& values = std::get<std::unique_ptr<std::int32_t[]>>(_m_value);
+		if (values == nullptr) {
+			// Constant functions don't have a value.
+			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INT);
+		}
+
+		return values[index];
 	}
 
 	void DaedalusSymbol::set_string(std::string_view value, std::uint16_t index, DaedalusInstance* context) {
@@ -552,7 +558,13 @@ namespace zenkit {
 
 			*get_member_ptr<std::int32_t>(index, context) = value;
 		} else {
-			std::get<std::unique_ptr<std::int32_t[]>>(_m_value)[index] = value;
+			auto& values = std::get<std::unique_ptr<std::int32_t[]>>(_m_value);
+			if (values == nullptr) {
+				// Constant functions don't have a value.
+				throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INT);
+			}
+
+			values[index] = value;
 		}
 	}
 
-- 
2.43.0


From 8da899448732f6d95e38572183112d0ad80da87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:07 +0000
Subject: [PATCH 051/132] fix: keep the parent of constant strings if no string
 terminator is missing

---
 src/DaedalusScript.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 281ac4e..f0f6353 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -403,7 +403,6 @@ namespace zenkit {
 			if (byte == 0) {
 				// We didn't find any match.
 				r->seek(static_cast<ssize_t>(savepoint), Whence::BEG);
-				this->_m_parent = r->read_int();
 				ZKLOGW("DaedalusSymbol", "Heuristic: No valid endpoint found. Aborting search. Issues might arise.");
 			}
 		}
-- 
2.43.0


From 11e5adc1dbb20f08d962d6db12366634da30f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:07 +0000
Subject: [PATCH 052/132] fix: find local variables at the end of the symbol
 table

---
 src/DaedalusScript.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index f0f6353..7609e2d 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -207,7 +207,8 @@ namespace zenkit {
 			}
 			return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.begin() + i);
 		}
-		return {};
+		if (first >= _m_symbols.size()) return {};
+		return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.end());
 	}
 
 	std::span<DaedalusSymbol const> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) const {
-- 
2.43.0


From 8baa095e4d626297feea0e60054d2bd92a61aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:58 +0000
Subject: [PATCH 053/132] fix: stop executing scripts at the end of their code

---
 src/DaedalusScript.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 7609e2d..0552ea0 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -120,7 +120,16 @@ namespace zenkit {
 
 	DaedalusInstruction DaedalusScript::instruction_at(std::uint32_t address) const {
 		_m_text->seek(address, Whence::BEG);
-		return DaedalusInstruction::decode(_m_text.get());
+		if (_m_text->tell() != address) {
+			throw DaedalusScriptError {"no instruction at address " + std::to_string(address)};
+		}
+
+		auto instruction = DaedalusInstruction::decode(_m_text.get());
+		if (_m_text->tell() - address != instruction.size) {
+			throw DaedalusScriptError {"incomplete instruction at address " + std::to_string(address)};
+		}
+
+		return instruction;
 	}
 
 	DaedalusSymbol const* DaedalusScript::find_symbol_by_index(std::uint32_t index) const {
-- 
2.43.0


From bf61b4977b9ab4d73971256bfe820877a2eb197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 054/132] fix: save the polygon indices of Gothic 2 meshes

---
 src/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index 0462c4a..db315ca 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -328,8 +328,8 @@ namespace zenkit {
 						c->write_ushort(this->polygon_vertex_indices[poly.index_offset + i]);
 						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					} else {
-						c->write_uint(this->polygons.vertex_indices[poly.index_offset + i]);
-						c->write_uint(this->polygons.feature_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_vertex_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					}
 				}
 			}
-- 
2.43.0


From 5ecf0da97a98c14d530619d3c037388e15cc37ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 055/132] fix: read and write both bits of the polygon normal
 axis

---
 src/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index db315ca..f05db24 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -117,7 +117,7 @@ namespace zenkit {
 						    pflags.is_lod = (flags1 & 0b00010000) >> 4;
 						    pflags.is_outdoor = (flags1 & 0b00100000) >> 5;
 						    pflags.is_ghost_occluder = (flags1 & 0b01000000) >> 6;
-						    pflags.normal_axis = ((flags1 & 0b10000000) >> 7) | (flags2 & 0b00000001);
+						    pflags.normal_axis = ((flags1 & 0b10000000) >> 7) | ((flags2 & 0b00000001) << 1);
 						    pflags.sector_index = c->read_short();
 					    }
 
@@ -318,7 +318,7 @@ namespace zenkit {
 					               ((flags.is_sector & 1) << 3) | ((flags.is_lod & 1) << 4) |
 					               ((flags.is_outdoor & 1) << 5) | ((flags.is_ghost_occluder & 1) << 6) |
 					               ((flags.normal_axis & 1) << 7));
-					c->write_ubyte(flags.normal_axis & 2);
+					c->write_ubyte((flags.normal_axis >> 1) & 1);
 					c->write_short(flags.sector_index);
 				}
 
-- 
2.43.0


From 89fcddbc1d0423e2cc7ee143ca7fb6524014f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 056/132] fix: save element counts of sub-mesh sections instead
 of byte sizes

---
 src/MultiResolutionMesh.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index e3bed8c..ccc15e8 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -274,7 +274,7 @@ namespace zenkit {
 			w->write_ushort(tri.wedges[1]);
 			w->write_ushort(tri.wedges[2]);
 		}
-		section.triangles.size = w->tell() - section.triangles.offset;
+		section.triangles.size = static_cast<std::uint32_t>(this->triangles.size());
 
 		// wedges
 		section.wedges.offset = w->tell();
@@ -284,21 +284,21 @@ namespace zenkit {
 			w->write_ushort(wedge.index);
 			w->write_ushort(0); // padding
 		}
-		section.wedges.size = w->tell() - section.wedges.offset;
+		section.wedges.size = static_cast<std::uint32_t>(this->wedges.size());
 
 		// colors
 		section.colors.offset = w->tell();
 		for (auto color : this->colors) {
 			w->write_float(color);
 		}
-		section.colors.size = w->tell() - section.colors.offset;
+		section.colors.size = static_cast<std::uint32_t>(this->colors.size());
 
 		// triangle_plane_indices
 		section.triangle_plane_indices.offset = w->tell();
 		for (auto i : this->triangle_plane_indices) {
 			w->write_ushort(i);
 		}
-		section.triangle_plane_indices.size = w->tell() - section.triangle_plane_indices.offset;
+		section.triangle_plane_indices.size = static_cast<std::uint32_t>(this->triangle_plane_indices.size());
 
 		// triangle_planes
 		section.triangle_planes.offset = w->tell();
@@ -306,7 +306,7 @@ namespace zenkit {
 			w->write_float(plane.distance);
 			w->write_vec3(plane.normal);
 		}
-		section.triangle_planes.size = w->tell() - section.triangle_planes.offset;
+		section.triangle_planes.size = static_cast<std::uint32_t>(this->triangle_planes.size());
 
 		// triangle_edges
 		section.triangle_edges.offset = w->tell();
@@ -315,7 +315,7 @@ namespace zenkit {
 			w->write_ushort(edge.edges[1]);
 			w->write_ushort(edge.edges[2]);
 		}
-		section.triangle_edges.size = w->tell() - section.triangle_edges.offset;
+		section.triangle_edges.size = static_cast<std::uint32_t>(this->triangle_edges.size());
 
 		// edges
 		section.edges.offset = w->tell();
@@ -323,21 +323,25 @@ namespace zenkit {
 			w->write_ushort(edge.edges[0]);
 			w->write_ushort(edge.edges[1]);
 		}
-		section.edges.size = w->tell() - section.edges.offset;
+		section.edges.size = static_cast<std::uint32_t>(this->edges.size());
 
 		// edge_scores
 		section.edge_scores.offset = w->tell();
 		for (auto score : edge_scores) {
 			w->write_float(score);
 		}
-		section.edge_scores.size = w->tell() - section.edge_scores.offset;
+		section.edge_scores.size = static_cast<std::uint32_t>(this->edge_scores.size());
 
 		// wedge_map
 		section.wedge_map.offset = w->tell();
 		for (auto wedge : this->wedge_map) {
 			w->write_ushort(wedge);
 		}
-		section.wedge_map.size = w->tell() - section.wedge_map.offset;
+		section.wedge_map.size = static_cast<std::uint32_t>(this->wedge_map.size());
+
+		// vertex_updates (not supported, always empty)
+		section.vertex_updates.offset = w->tell();
+		section.vertex_updates.size = 0;
 
 		return section;
 	}
-- 
2.43.0


From 4d15ed2865ac50cd813344e69010c4615e42398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 057/132] fix: save the correct content size and padding of
 multi-resolution meshes

---
 src/MultiResolutionMesh.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index ccc15e8..74ff804 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -129,7 +129,7 @@ namespace zenkit {
 
 		auto off_end = static_cast<ssize_t>(w->tell());
 		w->seek(off_size, Whence::BEG);
-		w->write_uint(off_end - off_size);
+		w->write_uint(off_end - static_cast<ssize_t>(off_content));
 		w->seek(off_end, Whence::BEG);
 
 		w->write_ubyte(this->sub_meshes.size());    // submeshCount
@@ -184,8 +184,8 @@ namespace zenkit {
 		this->bbox.save(w);
 		this->obbox.save(w);
 
-		char padding[10] {0};
-		w->write(padding, 10);
+		char padding[0x10] {0};
+		w->write(padding, sizeof padding);
 	}
 
 	void SubMesh::load(Read* r, SubMeshSection const& map) {
-- 
2.43.0


From 913f3c621f3176cac3faa35eadb7a2e24fa3384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 058/132] fix: save the node chunk and weight buffer size of
 soft-skin meshes correctly

---
 src/SoftSkinMesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 8612179..80684ca 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -88,7 +88,7 @@ namespace zenkit {
 			this->mesh.save_to_section(wr, version);
 		});
 
-		proto::write_chunk(w, SoftSkinMeshChunkType::HEADER, [&](Write* wr) {
+		proto::write_chunk(w, SoftSkinMeshChunkType::NODES, [&](Write* wr) {
 			auto off_size = static_cast<ssize_t>(wr->tell());
 			wr->write_uint(0);
 
@@ -104,7 +104,7 @@ namespace zenkit {
 
 			auto off_end = static_cast<ssize_t>(wr->tell());
 			wr->seek(off_size, Whence::BEG);
-			wr->write_uint(off_end - off_size);
+			wr->write_uint(off_end - off_size - static_cast<ssize_t>(sizeof(uint32_t)));
 			wr->seek(off_end, Whence::BEG);
 
 			wr->write_uint(this->wedge_normals.size());
-- 
2.43.0


From 32b11ef3f3877cfac40d971ac90c10c8049ba594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 059/132] fix: save each attachment and the soft-skin meshes of
 model meshes in their own chunks

---
 src/ModelMesh.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 47122c7..ebc144b 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -90,20 +90,20 @@ namespace zenkit {
 			}
 		});
 
-		proto::write_chunk(w, ModelMeshChunkType::PROTO, [&](Write* wr) {
-			for (auto& [_, v] : this->attachments) {
-				v.save_to_section(wr, version);
-			}
-		});
+		for (auto& [_, v] : this->attachments) {
+			v.save(w, version);
+		}
 
 		proto::write_chunk(w, ModelMeshChunkType::SOFTSKINS, [&](Write* wr) {
 			wr->write_uint(this->checksum);
-
-			for (auto& msh : this->meshes) {
-				msh.save(wr, version);
-			}
+			wr->write_ushort(this->meshes.size());
 		});
 
+		// Quirk: the meshes are not embedded within the chunk (see `load`).
+		for (auto& msh : this->meshes) {
+			msh.save(w, version);
+		}
+
 		proto::write_chunk(w, ModelMeshChunkType::END, [](Write*) {});
 	}
 } // namespace zenkit
-- 
2.43.0


From df55f9f670e17601d71e1bfee87ba1a8b3bdf0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 060/132] fix: save the alpha function of materials as an
 enumeration

---
 src/Material.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Material.cc b/src/Material.cc
index 35fd893..7b86d5e 100644
--- a/src/Material.cc
+++ b/src/Material.cc
@@ -116,7 +116,7 @@ namespace zenkit {
 			w.write_float("waveMaxAmplitude", this->wave_max_amplitude);
 			w.write_float("waveGridSize", this->wave_grid_size);
 			w.write_bool("ignoreSunLight", this->ignore_sun);
-			w.write_bool("alphaFunc", static_cast<bool>(this->alpha_func));
+			w.write_enum("alphaFunc", static_cast<uint32_t>(this->alpha_func));
 		}
 
 		w.write_vec2("defaultMapping", this->default_mapping);
-- 
2.43.0


From 22db7828db25534e6f3909a06e073f7565613113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 061/132] fix: compute bounding boxes of boxes with negative
 coordinates correctly

---
 src/Boxes.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Boxes.cc b/src/Boxes.cc
index 1e4433a..6d23ff4 100644
--- a/src/Boxes.cc
+++ b/src/Boxes.cc
@@ -57,9 +57,9 @@ namespace zenkit {
 		           std::numeric_limits<float>::max(),
 		           std::numeric_limits<float>::max()};
 
-		box.max = {std::numeric_limits<float>::min(),
-		           std::numeric_limits<float>::min(),
-		           std::numeric_limits<float>::min()};
+		box.max = {std::numeric_limits<float>::lowest(),
+		           std::numeric_limits<float>::lowest(),
+		           std::numeric_limits<float>::lowest()};
 
 		for (auto i : sign) {
 			auto point = center;
-- 
2.43.0


From 390cdb8e105f27d0c12f777dfeaea905d3fad285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 062/132] fix: read fonts with an empty name or one that starts
 with whitespace

---
 src/Font.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Font.cc b/src/Font.cc
index 8358089..90a881f 100644
--- a/src/Font.cc
+++ b/src/Font.cc
@@ -13,7 +13,7 @@ namespace zenkit {
 	    : name(std::move(font_name)), height(font_height), glyphs(std::move(font_glyphs)) {}
 
 	void Font::load(Read* r) {
-		if (auto version = r->read_line(true); version != "1") {
+		if (auto version = r->read_line(false); version != "1") {
 			throw ParserError {"Font", "version mismatch: expected version 1, got " + version};
 		}
 
-- 
2.43.0


From b2916c7f80bb27d420698e5565b7fc6e9266454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 063/132] fix: read attachment names of model meshes without
 skipping whitespace

---
 src/ModelMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index ebc144b..71c61d2 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -39,7 +39,7 @@ namespace zenkit {
 				    auto node_count = c->read_ushort();
 
 				    for (std::uint32_t i = 0; i < node_count; ++i) {
-					    attachment_names.push_back(c->read_line(true));
+					    attachment_names.push_back(c->read_line(false));
 				    }
 				    break;
 			    }
-- 
2.43.0


From c9d21d7133ae884111cba2ad7bb08526388e7318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 064/132] fix: do not keep the contents of a previously loaded
 mesh

---
 src/Mesh.cc      | 5 +++++
 src/ModelMesh.cc | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index f05db24..fb3af9f 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -38,6 +38,11 @@ namespace zenkit {
 	void Mesh::load(Read* r, bool force_wide_indices) {
 		std::uint16_t version {};
 
+		this->lightmaps.clear();
+		this->polygon_vertex_indices.clear();
+		this->polygon_feature_indices.clear();
+		this->polygons = {};
+
 		proto::read_chunked<MeshChunkType>(
 		    r,
 		    "Mesh",
diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 71c61d2..f78c636 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -19,6 +19,9 @@ namespace zenkit {
 
 	void ModelMesh::load(Read* r) {
 		std::vector<std::string> attachment_names {};
+		this->attachments.clear();
+		this->meshes.clear();
+
 		proto::read_chunked<ModelMeshChunkType>(
 		    r,
 		    "ModelMesh",
-- 
2.43.0


From c2441fb903799571f9b965c254aa58597e23eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 065/132] fix: do not keep the mipmaps of a previously loaded
 texture

---
 src/Texture.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index bc5106c..050490c 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -303,6 +303,8 @@ namespace zenkit {
 			}
 		}
 
+		this->_m_textures.clear();
+
 		// Lowest mipmap-level first
 		for (std::int64_t level = this->_m_mipmap_count - 1; level >= 0; --level) {
 			auto size =
-- 
2.43.0


From 8f92cc3718fb294ba44f002eb494e84841f08883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:28 +0000
Subject: [PATCH 066/132] fix: load worlds without any BSP nodes

---
 src/world/BspTree.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index d82cf23..feb34c7 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -95,7 +95,9 @@ namespace zenkit {
 				this->nodes.reserve(node_count);
 				this->leaf_node_indices.reserve(leaf_count);
 
-				_parse_bsp_nodes(c, this->nodes, this->leaf_node_indices, version, -1, node_count == 1);
+				if (node_count != 0) {
+					_parse_bsp_nodes(c, this->nodes, this->leaf_node_indices, version, -1, node_count == 1);
+				}
 
 				for (auto idx : this->leaf_node_indices) {
 					auto& node = this->nodes[idx];
-- 
2.43.0


From b9468c4d0c9f70fd88e0c152ed74f87ee2d7376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:28 +0000
Subject: [PATCH 067/132] fix: do not keep references to BSP nodes while adding
 nodes

---
 src/world/BspTree.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index feb34c7..648bd58 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -28,13 +28,14 @@ namespace zenkit {
 	                             bool leaf = false) {
 		std::uint64_t self_index = nodes.size();
 
-		auto& node = nodes.emplace_back();
+		BspNode node {};
 		node.parent_index = parent_index;
 		node.bbox.load(in);
 		node.polygon_index = in->read_uint();
 		node.polygon_count = in->read_uint();
 
 		if (leaf) {
+			nodes.push_back(node);
 			indices.push_back(self_index);
 		} else {
 			auto flags = in->read_ubyte();
@@ -49,8 +50,10 @@ namespace zenkit {
 				node.lod = in->read_ubyte(); // "lod-flag"
 			}
 
+			nodes.push_back(node);
+
 			if ((flags & 0x01) != 0) {
-				node.front_index = static_cast<std::int32_t>(nodes.size());
+				nodes[self_index].front_index = static_cast<std::int32_t>(nodes.size());
 				_parse_bsp_nodes(in,
 				                 nodes,
 				                 indices,
@@ -60,7 +63,7 @@ namespace zenkit {
 			}
 
 			if ((flags & 0x02) != 0) {
-				node.back_index = static_cast<std::int32_t>(nodes.size());
+				nodes[self_index].back_index = static_cast<std::int32_t>(nodes.size());
 				_parse_bsp_nodes(in,
 				                 nodes,
 				                 indices,
-- 
2.43.0


From 818274be34661e88336a1a84d3c725480d69b1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:28 +0000
Subject: [PATCH 068/132] fix: reject BSP leaves which refer to missing
 polygons

---
 src/world/BspTree.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index 648bd58..284b573 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -1,6 +1,7 @@
 // Copyright © 2021-2024 GothicKit Contributors.
 // SPDX-License-Identifier: MIT
 #include "zenkit/world/BspTree.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 #include "../Internal.hh"
@@ -105,6 +106,11 @@ namespace zenkit {
 				for (auto idx : this->leaf_node_indices) {
 					auto& node = this->nodes[idx];
 
+					if (node.polygon_index > this->polygon_indices.size() ||
+					    node.polygon_count > this->polygon_indices.size() - node.polygon_index) {
+						throw ParserError {"BspTree", "leaf node refers to missing polygons"};
+					}
+
 					for (uint32_t i = 0; i < node.polygon_count; ++i) {
 						this->leaf_polygons.push_back(this->polygon_indices[node.polygon_index + i]);
 					}
-- 
2.43.0


From 8347b0fc2e3267c67acb0625b922842caeb43f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:28 +0000
Subject: [PATCH 069/132] fix: do not save light points of BSP trees which have
 none

---
 src/world/BspTree.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index 284b573..56c7824 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -219,11 +219,13 @@ namespace zenkit {
 			}
 		});
 
-		proto::write_chunk(w, BspChunkType::LIGHT, [this](Write* c) {
-			for (auto& point : this->light_points) {
-				c->write_vec3(point);
-			}
-		});
+		if (!this->light_points.empty()) {
+			proto::write_chunk(w, BspChunkType::LIGHT, [this](Write* c) {
+				for (auto& point : this->light_points) {
+					c->write_vec3(point);
+				}
+			});
+		}
 
 		proto::write_chunk(w, BspChunkType::OUTDOORS, [this](Write* c) {
 			c->write_uint(static_cast<uint32_t>(this->sectors.size()));
-- 
2.43.0


From 74c030ea73ac3b1bc4a0b4dc9190b91086e7be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:28 +0000
Subject: [PATCH 070/132] fix: do not keep the contents of a previously loaded
 world

---
 src/World.cc         | 2 ++
 src/world/BspTree.cc | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/World.cc b/src/World.cc
index 90c30e6..c7a8870 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -113,6 +113,8 @@ namespace zenkit {
 
 				raw->seek(static_cast<ssize_t>(end), Whence::BEG);
 			} else if (hdr.object_name == "VobTree") {
+				this->world_vobs.clear();
+
 				auto count = r.read_int(); // childs0
 				for (auto i = 0; i < count; ++i) {
 					auto child = parse_vob_tree(r, version);
diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index 56c7824..3fb7c2d 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -76,6 +76,12 @@ namespace zenkit {
 	}
 
 	void BspTree::load(Read* r, std::uint32_t version) {
+		this->nodes.clear();
+		this->leaf_node_indices.clear();
+		this->leaf_polygons.clear();
+		this->light_points.clear();
+		this->sectors.clear();
+
 		proto::read_chunked<BspChunkType>(r, "BspTree", [this, version](Read* c, BspChunkType type) {
 			ZKLOGI("BspTree", "Parsing chunk %x", static_cast<std::uint16_t>(type));
 
-- 
2.43.0


From 6339b0ccb25fb8d0046bc512296e3293e966568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:28 +0000
Subject: [PATCH 071/132] fix: save the spawn flags of worlds as an integer

---
 src/World.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/World.cc b/src/World.cc
index c7a8870..c1b3e94 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -243,7 +243,7 @@ namespace zenkit {
 			w.write_bool("spawningEnabled", this->npc_spawn_enabled);
 
 			if (version == GameVersion::GOTHIC_2) {
-				w.write_bool("spawnFlags", this->npc_spawn_flags);
+				w.write_int("spawnFlags", this->npc_spawn_flags);
 			}
 		}
 	}
-- 
2.43.0


From 842fc9ba5f0abe307cd03c1bd358555c9ee9c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:28 +0000
Subject: [PATCH 072/132] fix: keep way points whose only edge leads back to
 themselves

---
 src/world/WayNet.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/world/WayNet.cc b/src/world/WayNet.cc
index 1711aaa..fb4ca31 100644
--- a/src/world/WayNet.cc
+++ b/src/world/WayNet.cc
@@ -38,10 +38,10 @@ namespace zenkit {
 
 		for (auto i = 0; i < count_edges; ++i) {
 			auto wayl = r.read_object<WayPoint>(version);
-			auto wayr = r.read_object<WayPoint>(version);
+			if (wayl != nullptr && wayl.use_count() < 3) this->points.push_back(wayl);
 
-			if (wayl.use_count() < 3) this->points.push_back(wayl);
-			if (wayr.use_count() < 3) this->points.push_back(wayr);
+			auto wayr = r.read_object<WayPoint>(version);
+			if (wayr != nullptr && wayr.use_count() < 3) this->points.push_back(wayr);
 
 			this->edges.emplace_back(wayl, wayr);
 		}
-- 
2.43.0


From 8526193d616c359b912a22bd132643c6535248fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:28 +0000
Subject: [PATCH 073/132] fix: ignore free way points which are not way points

---
 src/world/WayNet.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/world/WayNet.cc b/src/world/WayNet.cc
index fb4ca31..fe945ef 100644
--- a/src/world/WayNet.cc
+++ b/src/world/WayNet.cc
@@ -29,8 +29,11 @@ namespace zenkit {
 		this->points.reserve(count_points);
 
 		for (auto i = 0; i < count_points; ++i) {
-			this->points.push_back(r.read_object<WayPoint>(version));
-			this->points.back()->free_point = true;
+			auto point = r.read_object<WayPoint>(version);
+			if (point == nullptr) continue;
+
+			point->free_point = true;
+			this->points.push_back(std::move(point));
 		}
 
 		auto count_edges = r.read_int(); // numWays
-- 
2.43.0


From 42dfccedd567bb030fad23c0bd12573d4e0e9af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:28 +0000
Subject: [PATCH 074/132] fix: stop looking for the end of the world mesh at
 the end of the file

---
 src/World.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/World.cc b/src/World.cc
index c1b3e94..5b6ec5c 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -98,7 +98,7 @@ namespace zenkit {
 				do {
 					chunk_type = raw->read_ushort();
 					raw->seek(raw->read_uint(), Whence::CUR);
-				} while (chunk_type != 0xB060);
+				} while (chunk_type != 0xB060 && !raw->eof());
 
 				auto is_xzen = r.get_header().user == "XZEN";
 				if (is_xzen) {
-- 
2.43.0


From af1538aa858104b37e08994ffca0482233e3545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 075/132] fix: decode palette textures into a buffer of the
 right size

---
 src/Texture.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index 050490c..98e6cea 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -326,6 +326,7 @@ namespace zenkit {
 
 		if (_m_format == TextureFormat::P8) {
 			std::vector<std::uint8_t> conv;
+			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
 				auto palentry = _m_palette[map[i]];
 				conv[i * 4 + 0] = palentry.r;
-- 
2.43.0


From 2e257398417a3e10000dfc06ff53b565ab9475f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 076/132] fix: mipmap levels are never smaller than one pixel

---
 include/zenkit/Texture.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/Texture.hh b/include/zenkit/Texture.hh
index 6b430b9..e686e06 100644
--- a/include/zenkit/Texture.hh
+++ b/include/zenkit/Texture.hh
@@ -4,6 +4,7 @@
 #include "zenkit/Error.hh"
 #include "zenkit/Library.hh"
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <vector>
@@ -82,13 +83,13 @@ namespace zenkit {
 		/// \param level The mipmap level to use (beginning from 0).
 		/// \return The width in pixels of the given mipmap level.
 		[[nodiscard]] ZKAPI std::uint32_t mipmap_width(std::uint32_t level) const noexcept {
-			return _m_width >> level;
+			return std::max(1u, level < 32 ? _m_width >> level : 0u);
 		}
 
 		/// \param level The mipmap level to use (beginning from 0).
 		/// \return The height in pixels of the given mipmap level.
 		[[nodiscard]] ZKAPI std::uint32_t mipmap_height(std::uint32_t level) const noexcept {
-			return _m_height >> level;
+			return std::max(1u, level < 32 ? _m_height >> level : 0u);
 		}
 
 		/// \return The width of the texture in-engine.
-- 
2.43.0


From e1bcf6d90bd79e1070f9c383460dfc3b9d4b5865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 077/132] fix: report missing mipmap levels as an error

---
 include/zenkit/Texture.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zenkit/Texture.hh b/include/zenkit/Texture.hh
index e686e06..b2976a0 100644
--- a/include/zenkit/Texture.hh
+++ b/include/zenkit/Texture.hh
@@ -119,7 +119,7 @@ namespace zenkit {
 
 		/// \param mipmap_level The mipmap level to get.
 		/// \return The texture data at the given mipmap level.
-		[[nodiscard]] ZKAPI std::vector<std::uint8_t> const& data(std::uint32_t mipmap_level = 0) const noexcept {
+		[[nodiscard]] ZKAPI std::vector<std::uint8_t> const& data(std::uint32_t mipmap_level = 0) const {
 			return _m_textures.at(_m_mipmap_count - 1 - mipmap_level);
 		}
 
-- 
2.43.0


From d752b94916358602000aba92c2ca9c0007e8cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 078/132] fix: convert to B8G8R8A8 and A8R8G8B8 textures pixel
 by pixel

---
 src/Texture.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 98e6cea..5b03f03 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -187,10 +187,10 @@ namespace zenkit {
 		case TextureFormat::B8G8R8A8:
 			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
-				conv[i + 0] = bytes[i + 2];
-				conv[i + 1] = bytes[i + 1];
-				conv[i + 2] = bytes[i + 0];
-				conv[i + 3] = bytes[i + 3];
+				conv[i * 4 + 0] = bytes[i * 4 + 2];
+				conv[i * 4 + 1] = bytes[i * 4 + 1];
+				conv[i * 4 + 2] = bytes[i * 4 + 0];
+				conv[i * 4 + 3] = bytes[i * 4 + 3];
 			}
 
 			break;
@@ -209,10 +209,10 @@ namespace zenkit {
 		case TextureFormat::A8R8G8B8:
 			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
-				conv[i * 4 + 0] = bytes[i * 4 + 1];
-				conv[i * 4 + 1] = bytes[i * 4 + 2];
-				conv[i * 4 + 2] = bytes[i * 4 + 3];
-				conv[i * 4 + 3] = bytes[i * 4 + 0];
+				conv[i * 4 + 0] = bytes[i * 4 + 3];
+				conv[i * 4 + 1] = bytes[i * 4 + 0];
+				conv[i * 4 + 2] = bytes[i * 4 + 1];
+				conv[i * 4 + 3] = bytes[i * 4 + 2];
 			}
 			break;
 		case TextureFormat::B8G8R8:
-- 
2.43.0


From 67144c650e04330e1d8b691dcfec37376b2aeffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 079/132] fix: convert to R5G6B5 textures using the nearest
 color

---
 src/Texture.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 5b03f03..e5a9a8e 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -236,9 +236,9 @@ namespace zenkit {
 
 			for (std::uint32_t i = 0; i < width * height; ++i) {
 				r5g6b5 rgb {
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 0]) / (5. / 8.)),
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 1]) / (6. / 8.)),
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 2]) / (5. / 8.)),
+				    static_cast<uint8_t>((bytes[i * 4 + 2] * 31u + 127u) / 255u),
+				    static_cast<uint8_t>((bytes[i * 4 + 1] * 63u + 127u) / 255u),
+				    static_cast<uint8_t>((bytes[i * 4 + 0] * 31u + 127u) / 255u),
 				};
 
 				memcpy(conv.data() + i * 2, &rgb, sizeof(rgb));
-- 
2.43.0


From 5911170bfd24b15c22406a53500460fe6bbf802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 080/132] fix: allocate memory for compressed textures

---
 src/Texture.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index e5a9a8e..6ffeea4 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -246,12 +246,15 @@ namespace zenkit {
 
 			break;
 		case TextureFormat::DXT1:
+			conv.resize(_ztex_mipmap_size(dest, width, height, 0));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt1);
 			break;
 		case TextureFormat::DXT3:
+			conv.resize(_ztex_mipmap_size(dest, width, height, 0));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt3);
 			break;
 		case TextureFormat::DXT5:
+			conv.resize(_ztex_mipmap_size(dest, width, height, 0));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt5);
 			break;
 		default:
-- 
2.43.0


From c9d8e05348a2071897cf3c7bfe5dcca188f2217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 081/132] fix: compressed textures consist of whole blocks

---
 src/Texture.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 6ffeea4..73a74ad 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -59,12 +59,12 @@ namespace zenkit {
 		case TextureFormat::P8:
 			return x * y;
 		case TextureFormat::DXT1:
-			return std::max(1u, x / 4) * std::max(1u, y / 4) * 8;
+			return ((x + 3) / 4) * ((y + 3) / 4) * 8;
 		case TextureFormat::DXT2:
 		case TextureFormat::DXT3:
 		case TextureFormat::DXT4:
 		case TextureFormat::DXT5:
-			return std::max(1u, x / 4) * std::max(1u, y / 4) * 16;
+			return ((x + 3) / 4) * ((y + 3) / 4) * 16;
 		default:
 			return 0;
 		}
-- 
2.43.0


From 16f18b31468132e5da90fdd3de6d459667037c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 082/132] fix: build textures with the largest mipmap level at
 the end

---
 src/Texture.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 73a74ad..a2cc6e8 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -396,7 +396,12 @@ namespace zenkit {
 
 		for (auto i = 0u; i < _m_mipmaps.size(); ++i) {
 			auto& [data, fmt] = _m_mipmaps[i];
-			tex._m_textures.push_back(_ztex_convert_format(data.data(), _m_width >> i, _m_height >> i, fmt, format));
+			auto width = tex.mipmap_width(i);
+			auto height = tex.mipmap_height(i);
+
+			// Lowest mipmap-level first
+			tex._m_textures.insert(tex._m_textures.begin(),
+			                       _ztex_convert_format(data.data(), width, height, fmt, format));
 		}
 
 		return tex;
-- 
2.43.0


From c0b3b17fe23d34b6fdf4d25a9c45f9b81d61e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 083/132] fix: reject textures with impossible sizes

---
 src/Texture.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index a2cc6e8..807836d 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -297,6 +297,10 @@ namespace zenkit {
 		this->_m_reference_height = r->read_uint();
 		this->_m_average_color = r->read_uint();
 
+		if (this->_m_mipmap_count > 32 || static_cast<uint64_t>(std::max(1u, this->_m_width)) * std::max(1u, this->_m_height) > 0x10000000u) {
+			throw ParserError {"texture", "invalid size"};
+		}
+
 		if (this->_m_format == TextureFormat::P8) {
 			for (auto& i : this->_m_palette) {
 				i.b = r->read_ubyte();
-- 
2.43.0


From a1a2bc8ea9f2881e70b7fc7841b0bc17bf552c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:38 +0000
Subject: [PATCH 084/132] fix: decode R5G6B5 textures without rounding errors

---
 src/Texture.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 807836d..d1f2463 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -153,9 +153,9 @@ namespace zenkit {
 		case TextureFormat::R5G6B5: {
 			for (auto i = 0u; i < width * height; ++i) {
 				auto* rgb = reinterpret_cast<r5g6b5 const*>(&bytes[i * 2]);
-				conv[i * 4 + 0] = static_cast<uint8_t>(static_cast<float>(rgb->r) * 8.225806452f);
-				conv[i * 4 + 1] = static_cast<uint8_t>(static_cast<float>(rgb->g) * 4.047619048f);
-				conv[i * 4 + 2] = static_cast<uint8_t>(static_cast<float>(rgb->b) * 8.225806452f);
+				conv[i * 4 + 0] = static_cast<uint8_t>(rgb->r * 255u / 31u);
+				conv[i * 4 + 1] = static_cast<uint8_t>(rgb->g * 255u / 63u);
+				conv[i * 4 + 2] = static_cast<uint8_t>(rgb->b * 255u / 31u);
 				conv[i * 4 + 3] = 0xff;
 			}
 
-- 
2.43.0


From 64580489617bfb9a94effda81abe7b4d16bf7e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:01 +0000
Subject: [PATCH 085/132] fix: stop at the end of the file when reading model
 script tokens

---
 src/ModelScriptDsl.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 6282087..2b30f5d 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -30,6 +30,7 @@ namespace zenkit {
 
 	MdsToken MdsTokenizer::next() {
 		_m_value.clear();
+		_m_mark = _m_buffer->tell();
 		while (!_m_buffer->eof()) {
 			_m_mark = _m_buffer->tell();
 			auto chr = static_cast<unsigned char>(_m_buffer->read_char());
@@ -54,7 +55,7 @@ namespace zenkit {
 				}
 
 				// skip everything until the end of the line
-				while (_m_buffer->read_char() != '\n')
+				while (!_m_buffer->eof() && _m_buffer->read_char() != '\n')
 					_m_column += 1;
 
 				_m_line += 1;
@@ -66,6 +67,8 @@ namespace zenkit {
 			if (std::isalpha(chr) || chr == '*' || chr == '_' || chr == '.') {
 				do {
 					_m_value.push_back(static_cast<char>(chr));
+					if (_m_buffer->eof()) return MdsToken::KEYWORD;
+
 					chr = static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
 				} while (std::isalnum(chr) || chr == '_' || chr == '-' || chr == '.');
@@ -113,6 +116,8 @@ namespace zenkit {
 
 				do {
 					_m_value.push_back(static_cast<char>(chr));
+					if (_m_buffer->eof()) return floating_point ? MdsToken::FLOAT : MdsToken::INTEGER;
+
 					chr = static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
 
@@ -121,6 +126,8 @@ namespace zenkit {
 						floating_point = true;
 
 						_m_value.push_back(static_cast<char>(chr));
+						if (_m_buffer->eof()) return MdsToken::FLOAT;
+
 						chr = static_cast<unsigned char>(_m_buffer->read_char());
 						_m_column += 1;
 					}
@@ -156,7 +163,7 @@ namespace zenkit {
 	}
 
 	void MdsTokenizer::next_line() {
-		while (_m_buffer->read_char() != '\n') {}
+		while (!_m_buffer->eof() && _m_buffer->read_char() != '\n') {}
 	}
 
 	void MdsTokenizer::backtrack() {
@@ -410,7 +417,10 @@ namespace zenkit {
 	}
 
 	void MdsParser::ignore_block() {
-		while (this->_m_stream.next() != MdsToken::RBRACE) {}
+		auto token = this->_m_stream.next();
+		while (token != MdsToken::RBRACE && token != MdsToken::END_OF_FILE) {
+			token = this->_m_stream.next();
+		}
 	}
 
 	MdsEventTag MdsParser::parse_eventTag() {
-- 
2.43.0


From 43237b2ec2dfcdabe3dbd20cf3fc90def29ea2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:01 +0000
Subject: [PATCH 086/132] fix: keep closing parentheses and drop line ends in
 model script strings

---
 src/ModelScriptDsl.cc | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 2b30f5d..869bf28 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -82,9 +82,6 @@ namespace zenkit {
 
 			// parse strings
 			if (chr == '"') {
-				chr = static_cast<unsigned char>(_m_buffer->read_char());
-				_m_column += 1;
-
 				// Modded. Some mods may include `(` and/or `)` in their strings. For this reason we need to handle
 				// all of these cases:
 				//			registerMesh ("Some_File Name(WithBrackets).ASC")
@@ -92,21 +89,33 @@ namespace zenkit {
 				//			registerMesh ("Some_File Name.ASC"
 				//			registerMesh ("Some_File Name.ASC)
 				//			registerMesh ("Some_File Name.ASC
-				unsigned char prev = '\0';
-				while (chr != '"' && chr != '\n') {
-					if (!std::isspace(chr)) prev = chr;
-					_m_value.push_back(static_cast<char>(chr));
+				while (!_m_buffer->eof()) {
 					chr = static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
+					if (chr == '"') return MdsToken::STRING;
+
+					if (chr == '\n') {
+						_m_buffer->seek(-1, Whence::CUR);
+						_m_column -= 1;
+						break;
+					}
+
+					_m_value.push_back(static_cast<char>(chr));
 				}
 
-				if (chr != '"') {
-					WARN_SYNTAX("String not terminated");
-					_m_buffer->seek(-1, Whence::CUR);
-					_m_column -= 1;
+				WARN_SYNTAX("String not terminated");
+				auto trim = [this] {
+					while (!_m_value.empty() && std::isspace(static_cast<unsigned char>(_m_value.back()))) {
+						_m_value.pop_back();
+					}
+				};
+
+				trim();
+				if (!_m_value.empty() && _m_value.back() == ')') {
+					_m_value.pop_back();
+					trim();
 				}
 
-				if (prev == ')') _m_value.pop_back();
 				return MdsToken::STRING;
 			}
 
-- 
2.43.0


From 1f4ab64edc15526e6e6a1d24fba00294ba85059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:01 +0000
Subject: [PATCH 087/132] fix: recognize keywords after an aniBlend in any
 letter case

---
 src/ModelScriptDsl.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 869bf28..edb1a10 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -250,7 +250,12 @@ namespace zenkit {
 			return std::nullopt;
 		}
 
-		if (kw->find("ani") != std::string::npos || kw->find("model") != std::string::npos) {
+		auto lower = *kw;
+		for (auto& c : lower) {
+			c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
+		}
+
+		if (lower.find("ani") != std::string::npos || lower.find("model") != std::string::npos) {
 			this->_m_stream.backtrack();
 			return std::nullopt;
 		}
-- 
2.43.0


From 360c90247ab360fbc9a974c2cf73f7b5b24b7864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:01 +0000
Subject: [PATCH 088/132] fix: only read numbers from the frame list of model
 script events

---
 src/ModelScript.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 71907dd..de01d7a 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -133,8 +133,7 @@ namespace zenkit {
 				std::istringstream stream {frames};
 
 				int32_t fr = 0;
-				while (!stream.eof() && !stream.fail()) {
-					stream >> fr;
+				while (stream >> fr) {
 					evt.frames.push_back(fr);
 				}
 				break;
@@ -363,8 +362,7 @@ namespace zenkit {
 					    std::istringstream stream {frames};
 
 					    int32_t frame = 0;
-					    while (!stream.eof()) {
-						    stream >> frame;
+					    while (stream >> frame) {
 						    event.frames.push_back(frame);
 					    }
 					    break;
-- 
2.43.0


From f402322238e6b51a3c0211eae820f6784a35c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:01 +0000
Subject: [PATCH 089/132] fix: read the slot of all event tags from model
 script sources

---
 src/ModelScript.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index de01d7a..a8a3031 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -122,6 +122,13 @@ namespace zenkit {
 				evt.slot2 = b.value_or("");
 				break;
 			case MdsEventType::HIT_LIMB:
+			case MdsEventType::HIT_DIRECTION:
+			case MdsEventType::SOUND_DRAW:
+			case MdsEventType::SOUND_UNDRAW:
+			case MdsEventType::MUNITION_REMOVE:
+			case MdsEventType::ITEM_DESTROY:
+			case MdsEventType::TORCH_INVENTORY:
+			case MdsEventType::ITEM_REMOVE:
 				evt.slot = a.value_or("");
 				break;
 			case MdsEventType::DAMAGE_MULTIPLIER:
-- 
2.43.0


From ed8ec09236fae98eb1ded39c3227552962281568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:01 +0000
Subject: [PATCH 090/132] fix: read empty strings of compiled event tags

---
 src/ModelScript.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index a8a3031..769ff16 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -317,8 +317,8 @@ namespace zenkit {
 				    switch (event.type) {
 				    case MdsEventType::ITEM_CREATE:
 				    case MdsEventType::ITEM_EXCHANGE:
-					    event.slot = c->read_line(true);
-					    event.item = c->read_line(true);
+					    event.slot = c->read_line(false);
+					    event.item = c->read_line(false);
 					    break;
 				    case MdsEventType::ITEM_INSERT:
 				    case MdsEventType::MUNITION_PLACE:
@@ -343,8 +343,8 @@ namespace zenkit {
 					    break;
 				    }
 				    case MdsEventType::MESH_SWAP:
-					    event.slot = c->read_line(true);
-					    event.slot2 = c->read_line(true);
+					    event.slot = c->read_line(false);
+					    event.slot2 = c->read_line(false);
 					    break;
 				    case MdsEventType::HIT_LIMB:
 					    event.slot = c->read_line(true); // TODO
-- 
2.43.0


From f014ab440683893b0c3ba5633f9b5a91be593278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:01 +0000
Subject: [PATCH 091/132] fix: reject compiled events which do not belong to an
 animation

---
 src/ModelScript.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 769ff16..5ceb744 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/ModelScript.hh"
 #include "zenkit/Date.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 #include "Internal.hh"
@@ -191,6 +192,22 @@ namespace zenkit {
 		    r,
 		    "ModelScript.Binary",
 		    [&script, &ani_index](Read* c, ModelScriptBinaryChunkType type) {
+			    switch (type) {
+			    case ModelScriptBinaryChunkType::EVENT_SFX:
+			    case ModelScriptBinaryChunkType::EVENT_SFX_GROUND:
+			    case ModelScriptBinaryChunkType::EVENT_TAG:
+			    case ModelScriptBinaryChunkType::EVENT_PFX:
+			    case ModelScriptBinaryChunkType::EVENT_PFX_STOP:
+			    case ModelScriptBinaryChunkType::EVENT_MM_ANI:
+			    case ModelScriptBinaryChunkType::EVENT_CAMERA_TREMOR:
+				    if (script.animations.empty()) {
+					    throw ParserError {"ModelScript.Binary", "event without an animation"};
+				    }
+				    break;
+			    default:
+				    break;
+			    }
+
 			    switch (type) {
 			    case ModelScriptBinaryChunkType::MESH_AND_TREE: {
 				    MdsSkeleton mat {};
-- 
2.43.0


From 729ed3bca83fe1d3481343b5f2a912443687538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:01 +0000
Subject: [PATCH 092/132] fix: do not end the aniEnum block with an animation
 without events

---
 src/ModelScriptDsl.cc | 13 ++++++++++---
 src/ModelScriptDsl.hh |  2 +-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index edb1a10..8c87e0e 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -400,8 +400,15 @@ namespace zenkit {
 		}
 	}
 
-	void MdsParser::parse_events(MdsAnimation& ani) {
+	void MdsParser::parse_events(MdsAnimation& ani, bool has_block) {
 		while (!this->eof()) {
+			// The closing brace belongs to the surrounding block if there are no events at all.
+			if (!has_block && this->maybe<MdsToken::RBRACE>()) {
+				_m_stream.backtrack();
+				break;
+			}
+
+			has_block = true;
 			if (this->maybe<MdsToken::RBRACE>() || this->maybe<MdsToken::END_OF_FILE>()) {
 				break;
 			}
@@ -532,8 +539,8 @@ namespace zenkit {
 
 		// Optional events block.
 		// Note: Due to #122 the curly parens are actually optional
-		this->maybe<MdsToken::LBRACE>();
-		this->parse_events(ani);
+		auto has_block = this->maybe<MdsToken::LBRACE>();
+		this->parse_events(ani, has_block);
 
 		return ani;
 	}
diff --git a/src/ModelScriptDsl.hh b/src/ModelScriptDsl.hh
index 67ec5e6..0f18dca 100644
--- a/src/ModelScriptDsl.hh
+++ b/src/ModelScriptDsl.hh
@@ -52,7 +52,7 @@ namespace zenkit {
 		MdsSkeleton parse_meshAndTree();
 		std::string parse_registerMesh();
 		void parse_aniEnum(ModelScript& into);
-		void parse_events(MdsAnimation& ani);
+		void parse_events(MdsAnimation& ani, bool has_block);
 		void ignore_block();
 		MdsEventTag parse_eventTag();
 		MdsSoundEffect parse_eventSFX();
-- 
2.43.0


From acc42b122e09a598d8026400ba8c212add9db22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:01 +0000
Subject: [PATCH 093/132] fix: do not keep the contents of a previously loaded
 model script

---
 src/ModelScript.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 5ceb744..f87310f 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -456,6 +456,8 @@ namespace zenkit {
 	}
 
 	void ModelScript::load(Read* r) {
+		*this = ModelScript {};
+
 		auto potential_chunk_type = r->read_ushort();
 		r->seek(-2, Whence::CUR);
 
-- 
2.43.0


From 8d3415f5ec4c12b764d10b22a053af7b3d0e7d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:26 +0000
Subject: [PATCH 094/132] fix: read strings of animation events as they are
 stored

---
 src/ModelAnimation.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ModelAnimation.cc b/src/ModelAnimation.cc
index 236727b..2f66b64 100644
--- a/src/ModelAnimation.cc
+++ b/src/ModelAnimation.cc
@@ -97,10 +97,10 @@ namespace zenkit {
 				for (auto& event : this->events) {
 					event.type = static_cast<AnimationEventType>(c->read_uint());
 					event.frame = c->read_uint();
-					event.tag = c->read_line(true);
+					event.tag = c->read_line(false);
 
 					for (auto& j : event.content) {
-						j = c->read_line(true);
+						j = c->read_line(false);
 					}
 
 					for (float& value : event.values) {
-- 
2.43.0


From 7d87e409454649b9d510113537baceb3906bcdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:26 +0000
Subject: [PATCH 095/132] fix: do not keep the contents of a previously loaded
 animation

---
 src/ModelAnimation.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ModelAnimation.cc b/src/ModelAnimation.cc
index 2f66b64..f034199 100644
--- a/src/ModelAnimation.cc
+++ b/src/ModelAnimation.cc
@@ -68,6 +68,8 @@ namespace zenkit {
 	}
 
 	void ModelAnimation::load(Read* r) {
+		*this = {};
+
 		proto::read_chunked<AnimationChunkType>(r, "ModelAnimation", [this](Read* c, AnimationChunkType type) {
 			switch (type) {
 			case AnimationChunkType::MARKER:
-- 
2.43.0


From a362efa668b27a1c1fa6e4baf5646cac1c33e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:26 +0000
Subject: [PATCH 096/132] fix: read the names of morph mesh sources as they are
 stored

---
 src/MorphMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MorphMesh.cc b/src/MorphMesh.cc
index 2e1e15a..e0b9e62 100644
--- a/src/MorphMesh.cc
+++ b/src/MorphMesh.cc
@@ -21,7 +21,7 @@ namespace zenkit {
 
 				for (auto i = 0u; i < count; ++i) {
 					this->sources[i].file_date.load(c);
-					this->sources[i].file_name = c->read_line(true);
+					this->sources[i].file_name = c->read_line(false);
 				}
 
 				break;
-- 
2.43.0


From 3f7179ebac75be1e3b6b6e25690b983966a4f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:26 +0000
Subject: [PATCH 097/132] fix: do not keep the contents of a previously loaded
 morph mesh

---
 src/MorphMesh.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MorphMesh.cc b/src/MorphMesh.cc
index e0b9e62..cf511f4 100644
--- a/src/MorphMesh.cc
+++ b/src/MorphMesh.cc
@@ -13,6 +13,8 @@ namespace zenkit {
 	};
 
 	void MorphMesh::load(Read* r) {
+		*this = {};
+
 		proto::read_chunked<MorphMeshChunkType>(r, "MorphMesh", [this](Read* c, MorphMeshChunkType type) {
 			switch (type) {
 			case MorphMeshChunkType::SOURCES: {
-- 
2.43.0


From f73889ca62cda302a8c420e8e4cf32891eeb3125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:37 +0000
Subject: [PATCH 098/132] fix: do not mix the contents of saved games when
 loading one after another

---
 src/SaveGame.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 7327e5a..fad678f 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -275,7 +275,9 @@ namespace zenkit {
 	}
 
 	void SaveGame::load(std::filesystem::path const& path) {
-		this->_m_path = path;
+		SaveMetadata new_metadata {};
+		SaveState new_state {};
+		std::optional<Texture> new_thumbnail {};
 
 		if (!std::filesystem::is_directory(path)) {
 			throw ParserError {"SaveGame", "save game path does not exist or is not a directory"};
@@ -297,7 +299,7 @@ namespace zenkit {
 
 			auto r = Read::from(*file_save_info);
 			auto ar = ReadArchive::from(r.get());
-			this->metadata = *ar->read_object<SaveMetadata>(_m_version);
+			new_metadata = *ar->read_object<SaveMetadata>(_m_version);
 		}
 
 		// Load THUMB.SAV
@@ -306,8 +308,8 @@ namespace zenkit {
 			if (auto file_thumb = find_file_matching(entries, "THUMB.SAV")) {
 				auto r = Read::from(*file_thumb);
 
-				this->thumbnail.emplace();
-				this->thumbnail->load(r.get());
+				new_thumbnail.emplace();
+				new_thumbnail->load(r.get());
 			}
 		}
 
@@ -322,8 +324,13 @@ namespace zenkit {
 
 			auto r = Read::from(*file_save_dat);
 			auto ar = ReadArchive::from(r.get());
-			this->state.load(*ar, _m_version);
+			new_state.load(*ar, _m_version);
 		}
+
+		this->metadata = std::move(new_metadata);
+		this->state = std::move(new_state);
+		this->thumbnail = std::move(new_thumbnail);
+		this->_m_path = path;
 	}
 
 	void SaveGame::save(std::filesystem::path const& path, World& world, std::string const& world_name) {
-- 
2.43.0


From 1de00cfaa16bb84262d3854dbb3eb14115c8c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:37 +0000
Subject: [PATCH 099/132] fix: load saved games which were saved without a
 thumbnail

---
 src/SaveGame.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index fad678f..c4e7acd 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -305,7 +305,9 @@ namespace zenkit {
 		// Load THUMB.SAV
 		{
 			ZKLOGI("SaveGame", "Loading THUMB.SAV");
-			if (auto file_thumb = find_file_matching(entries, "THUMB.SAV")) {
+			// NOTE: The file is empty if the game was saved without a thumbnail.
+			auto file_thumb = find_file_matching(entries, "THUMB.SAV");
+			if (file_thumb && std::filesystem::file_size(*file_thumb) > 0) {
 				auto r = Read::from(*file_thumb);
 
 				new_thumbnail.emplace();
-- 
2.43.0


From 3f338f20766294a918253a72e351e6977baaf318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:37 +0000
Subject: [PATCH 100/132] fix: do not delete the current saved game when saving
 to another spelling of its path

---
 src/SaveGame.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index c4e7acd..5f27010 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -337,15 +337,16 @@ namespace zenkit {
 
 	void SaveGame::save(std::filesystem::path const& path, World& world, std::string const& world_name) {
 		// Copy over the current save if necessary.
-		if (_m_path != path) {
-			if (std::filesystem::exists(path)) {
-				std::filesystem::remove_all(path);
-			}
+		std::error_code ec;
+		if (!std::filesystem::equivalent(_m_path, path, ec)) {
+			auto target = path.lexically_normal();
+			auto copy_files = !_m_path.empty() && std::filesystem::exists(_m_path);
 
-			if (!_m_path.empty() && std::filesystem::exists(_m_path)) {
-				std::filesystem::copy(_m_path, path, std::filesystem::copy_options::recursive);
-			} else {
-				std::filesystem::create_directories(path);
+			std::filesystem::remove_all(target);
+			std::filesystem::create_directories(target);
+
+			if (copy_files) {
+				std::filesystem::copy(_m_path, target, std::filesystem::copy_options::recursive);
 			}
 		}
 
-- 
2.43.0


From fa95300ddd5857677b0d5e0fafb89c88814af2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:22 +0000
Subject: [PATCH 101/132] fix: do not read a missing value when saving script
 symbols

---
 src/SaveGame.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 5f27010..0c85865 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -225,7 +225,7 @@ namespace zenkit {
 
 			// For Gothic II saves, there is additional data stored
 			if (version == GameVersion::GOTHIC_1) {
-				w.write_int("symValue" + iStr, sym.values[0]);
+				w.write_int("symValue" + iStr, sym.values.empty() ? 0 : sym.values[0]);
 			} else {
 				w.write_int("symName" + iStr + "cnt", sym.values.size());
 				for (auto v : sym.values) {
-- 
2.43.0


From 36202d67b05aa5adf9ff2d764de4a5bc5efad642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:14 +0000
Subject: [PATCH 102/132] fix: reject out of range hash table indices in
 bin-safe archives

---
 src/archive/ArchiveBinsafe.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 047bfd3..869f616 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -28,6 +28,10 @@ namespace zenkit {
 				auto hash_value = read->read_uint();
 				auto key = read->read_string(key_length);
 
+				if (insertion_index >= _m_hash_table_entries.size()) {
+					throw ParserError {"ReadArchive.Binsafe", "hash table index out of range"};
+				}
+
 				_m_hash_table_entries[insertion_index] = hash_table_entry {key, hash_value};
 			}
 
@@ -103,6 +107,10 @@ namespace zenkit {
 		}
 
 		auto hash = read->read_uint();
+		if (hash >= _m_hash_table_entries.size()) {
+			throw ParserError {"ReadArchive.Binsafe", "hash table index out of range"};
+		}
+
 		return _m_hash_table_entries[hash].key;
 	}
 
-- 
2.43.0


From 63b523226ea8f73d7ffe1cfa2a2698ddfde62ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:14 +0000
Subject: [PATCH 103/132] fix: reject cutscene blocks without content

---
 src/CutsceneLibrary.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 49bd4cd..414a97a 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -80,6 +80,10 @@ namespace zenkit {
 		}
 
 		auto blk = r.read_object(version);
+		if (blk == nullptr) {
+			throw ParserError {"CutsceneLibrary", "missing block for " + this->name};
+		}
+
 		if (blk->get_object_type() == ObjectType::zCCSAtomicBlock) {
 			this->block = std::static_pointer_cast<CutsceneAtomicBlock>(blk);
 		} else if (blk->get_object_type() == ObjectType::zCCSBlock) {
-- 
2.43.0


From b6734a101883a554405e3aece8c3c06b515bb265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:15 +0000
Subject: [PATCH 104/132] fix: do not keep or look up missing blocks in
 cutscene libraries

---
 src/CutsceneLibrary.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 414a97a..fa9403a 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -122,10 +122,14 @@ namespace zenkit {
 
 	void CutsceneLibrary::load(ReadArchive& r, GameVersion version) {
 		auto item_count = r.read_int(); // NumOfItems
-		this->blocks.reserve(static_cast<std::uint64_t>(item_count));
 
 		for (auto i = 0; i < item_count; ++i) {
-			this->blocks.push_back(r.read_object<CutsceneBlock>(version));
+			auto block = r.read_object<CutsceneBlock>(version);
+			if (block == nullptr) {
+				throw ParserError {"CutsceneLibrary", "missing block"};
+			}
+
+			this->blocks.push_back(std::move(block));
 		}
 
 		// Prepare blocks for binary search in block_by_name
-- 
2.43.0


From 851f96a9c395cb925bb08fc1a5148ce1c20fabc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:15 +0000
Subject: [PATCH 105/132] fix: do not pretend to find cutscene blocks which do
 not exist

---
 src/CutsceneLibrary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index fa9403a..2c241e5 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -113,7 +113,7 @@ namespace zenkit {
 			return it->name < n;
 		});
 
-		if (result == this->blocks.end()) {
+		if (result == this->blocks.end() || (*result)->name != name) {
 			return nullptr;
 		}
 
-- 
2.43.0


From a2a054d4fc9cde61d05e31264fe29a40e83b64ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:15 +0000
Subject: [PATCH 106/132] fix: do not leave more objects than were entered in
 binary archives

---
 src/archive/ArchiveBinary.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index bfe0f3f..8da73ff 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -46,7 +46,7 @@ namespace zenkit {
 	}
 
 	bool ReadArchiveBinary::read_object_end() {
-		if (read->tell() == _m_object_end.top()) {
+		if (!_m_object_end.empty() && read->tell() == _m_object_end.top()) {
 			_m_object_end.pop();
 			return true;
 		}
@@ -121,6 +121,10 @@ namespace zenkit {
 
 	void ReadArchiveBinary::skip_object(bool skip_current) {
 		if (skip_current) {
+			if (_m_object_end.empty()) {
+				throw ParserError {"ReadArchive.Binary", "no object to skip"};
+			}
+
 			read->seek(static_cast<ssize_t>(_m_object_end.top()), Whence::BEG);
 			_m_object_end.pop();
 		} else {
-- 
2.43.0


From 408406305c9fb01545fc24e548bca9ef1d1159d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:47 +0000
Subject: [PATCH 107/132] fix: stop looking for the world version when there
 are no more objects

---
 src/World.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/World.cc b/src/World.cc
index 5b6ec5c..7448a61 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -28,10 +28,14 @@ namespace zenkit {
 		}
 
 		ArchiveObject chnk {};
-		archive->read_object_begin(chnk);
+		if (!archive->read_object_begin(chnk)) {
+			throw ParserError {"World", "expected object"};
+		}
 
 		while (!archive->read_object_end()) {
-			archive->read_object_begin(chnk);
+			if (!archive->read_object_begin(chnk)) {
+				throw ParserError {"World", "expected object, got field"};
+			}
 
 			if (chnk.object_name == "MeshAndBsp") {
 				auto bsp_version = buf->read_uint();
-- 
2.43.0


From bbfdcc34c42f130f14879cdc3112f852f03114e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:47 +0000
Subject: [PATCH 108/132] fix: reject saved games without metadata

---
 src/SaveGame.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 0c85865..57359ee 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -299,7 +299,12 @@ namespace zenkit {
 
 			auto r = Read::from(*file_save_info);
 			auto ar = ReadArchive::from(r.get());
-			new_metadata = *ar->read_object<SaveMetadata>(_m_version);
+			auto read_metadata = ar->read_object<SaveMetadata>(_m_version);
+			if (read_metadata == nullptr) {
+				throw ParserError {"SaveGame", "SAVEINFO.SAV does not contain any metadata"};
+			}
+
+			new_metadata = std::move(*read_metadata);
 		}
 
 		// Load THUMB.SAV
-- 
2.43.0


From c940f877db97fa3be46ebf1be01a436f36e90f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:47 +0000
Subject: [PATCH 109/132] fix: reject light maps which refer to missing
 textures

---
 src/Mesh.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index fb3af9f..d384525 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -160,6 +160,10 @@ namespace zenkit {
 					    auto normal_b = c->read_vec3();
 					    std::uint32_t texture_index = c->read_uint();
 
+					    if (texture_index >= lightmap_textures.size()) {
+						    throw ParserError {"Mesh", "light map refers to a missing texture"};
+					    }
+
 					    this->lightmaps.emplace_back(
 					        LightMap {lightmap_textures[texture_index], {normal_a, normal_b}, origin});
 				    }
-- 
2.43.0


From 6c843a45e8ba464229ab9e5dbf9f28c1734ca535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:47 +0000
Subject: [PATCH 110/132] fix: reject model meshes with more attachments than
 names

---
 src/ModelMesh.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index f78c636..9ed2b6f 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/ModelMesh.hh"
 #include "zenkit/Date.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 namespace zenkit {
@@ -47,6 +48,10 @@ namespace zenkit {
 				    break;
 			    }
 			    case ModelMeshChunkType::PROTO:
+				    if (this->attachments.size() >= attachment_names.size()) {
+					    throw ParserError {"ModelMesh", "attachment without a name"};
+				    }
+
 				    this->attachments[attachment_names[this->attachments.size()]].load_from_section(c);
 				    break;
 			    case ModelMeshChunkType::SOFTSKINS: {
-- 
2.43.0


From b29595b61d2fa40b7e118b936aa52f90f9e9203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:47 +0000
Subject: [PATCH 111/132] fix: reject binary archive objects which end before
 they begin

---
 src/archive/ArchiveBinary.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 8da73ff..c47591c 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -42,6 +42,11 @@ namespace zenkit {
 		obj.index = read->read_uint();
 		obj.object_name = read->read_line(false);
 		obj.class_name = read->read_line(false);
+
+		if (_m_object_end.top() < read->tell()) {
+			throw ParserError {"ReadArchive.Binary", "invalid object size"};
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From 74cf90735232956c37cc0d09d6543b9d6f63b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:47 +0000
Subject: [PATCH 112/132] fix: do not read objects past the end of an archive

---
 src/Archive.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Archive.cc b/src/Archive.cc
index 7778052..6f3587f 100644
--- a/src/Archive.cc
+++ b/src/Archive.cc
@@ -254,6 +254,10 @@ namespace zenkit {
 
 	std::shared_ptr<Object> ReadArchive::read_object(GameVersion version) {
 		ArchiveObject obj;
+		if (this->read->eof()) {
+			throw ParserError {"ReadArchive", "expected object, got end of archive"};
+		}
+
 		if (!this->read_object_begin(obj)) {
 			ZKLOGE("ReadArchive", "Expected object, got entry.");
 			return nullptr;
-- 
2.43.0


From 1b0b7dcf9a3ed0146b654e57675fa0e3597d8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:47 +0000
Subject: [PATCH 113/132] fix: do not skip more children than an archive
 contains

---
 src/world/VobTree.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/world/VobTree.cc b/src/world/VobTree.cc
index 37134c9..712f0bd 100644
--- a/src/world/VobTree.cc
+++ b/src/world/VobTree.cc
@@ -2,6 +2,8 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/world/VobTree.hh"
 #include "zenkit/Archive.hh"
+#include "zenkit/Error.hh"
+#include "zenkit/Stream.hh"
 #include "zenkit/vobs/VirtualObject.hh"
 
 namespace zenkit {
@@ -18,7 +20,11 @@ namespace zenkit {
 		if (object == nullptr) {
 			std::function<void(size_t)> skip;
 			skip = [&skip, &in](size_t count) {
-				for (auto i = 0u; i < count; ++i) {
+				for (size_t i = 0; i < count; ++i) {
+					if (in.get_stream()->eof()) {
+						throw ParserError {"VobTree", "expected object, got end of archive"};
+					}
+
 					in.skip_object(false);
 
 					auto num_children = static_cast<size_t>(in.read_int());
@@ -32,7 +38,7 @@ namespace zenkit {
 
 		object->children.reserve(child_count);
 
-		for (auto i = 0u; i < child_count; ++i) {
+		for (size_t i = 0; i < child_count; ++i) {
 			auto child = parse_vob_tree(in, version);
 			if (child == nullptr) continue;
 
-- 
2.43.0


From 8248095cdc07147c284f63406b22323c8401f88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:47 +0000
Subject: [PATCH 114/132] fix: do not use uninitialized color and matrix
 elements of ASCII archives

---
 src/archive/ArchiveAscii.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 6a31160..851a4a5 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -155,7 +155,7 @@ namespace zenkit {
 	Color ReadArchiveAscii::read_color() {
 		std::stringstream in {read_entry("color")};
 
-		std::uint16_t r, g, b, a;
+		std::uint16_t r = 0, g = 0, b = 0, a = 0;
 		in >> r >> g >> b >> a;
 		return Color {static_cast<std::uint8_t>(r),
 		              static_cast<std::uint8_t>(g),
@@ -202,7 +202,7 @@ namespace zenkit {
 
 		Mat3 v {};
 		for (int32_t i = 0; i < 9; ++i) {
-			std::uint8_t tmp[4];
+			std::uint8_t tmp[4] {};
 			std::from_chars(beg_it + 0, beg_it + 2, tmp[0], 16);
 			std::from_chars(beg_it + 2, beg_it + 4, tmp[1], 16);
 			std::from_chars(beg_it + 4, beg_it + 6, tmp[2], 16);
-- 
2.43.0


From c6223a7fcd1fbbe9e0277e62a7bbe44b1249cd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:04 +0000
Subject: [PATCH 115/132] fix: do not read values past the end of binary
 archives

---
 src/archive/ArchiveBinary.cc | 20 ++++++++++++++++++++
 src/archive/ArchiveBinary.hh |  2 ++
 2 files changed, 22 insertions(+)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index c47591c..1108e59 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -59,35 +59,49 @@ namespace zenkit {
 		return read->eof();
 	}
 
+	void ReadArchiveBinary::ensure_not_at_end() const {
+		if (read->eof()) {
+			throw ParserError {"ReadArchive.Binary", "expected value, got end of archive"};
+		}
+	}
+
 	std::string ReadArchiveBinary::read_string() {
+		ensure_not_at_end();
 		return read->read_line(false);
 	}
 
 	std::int32_t ReadArchiveBinary::read_int() {
+		ensure_not_at_end();
 		return read->read_int();
 	}
 
 	float ReadArchiveBinary::read_float() {
+		ensure_not_at_end();
 		return read->read_float();
 	}
 
 	std::uint8_t ReadArchiveBinary::read_byte() {
+		ensure_not_at_end();
 		return read->read_ubyte();
 	}
 
 	std::uint16_t ReadArchiveBinary::read_word() {
+		ensure_not_at_end();
 		return read->read_ushort();
 	}
 
 	std::uint32_t ReadArchiveBinary::read_enum() {
+		ensure_not_at_end();
 		return read->read_ubyte();
 	}
 
 	bool ReadArchiveBinary::read_bool() {
+		ensure_not_at_end();
 		return read->read_ubyte() != 0;
 	}
 
 	Color ReadArchiveBinary::read_color() {
+		ensure_not_at_end();
 		auto b = read->read_ubyte();
 		auto g = read->read_ubyte();
 		auto r = read->read_ubyte();
@@ -97,24 +111,30 @@ namespace zenkit {
 	}
 
 	Vec3 ReadArchiveBinary::read_vec3() {
+		ensure_not_at_end();
 		return read->read_vec3();
 	}
 
 	Vec2 ReadArchiveBinary::read_vec2() {
+		ensure_not_at_end();
 		return read->read_vec2();
 	}
 
 	AxisAlignedBoundingBox ReadArchiveBinary::read_bbox() {
+		ensure_not_at_end();
 		AxisAlignedBoundingBox aabb {};
 		aabb.load(read);
 		return aabb;
 	}
 
 	Mat3 ReadArchiveBinary::read_mat3x3() {
+		ensure_not_at_end();
 		return read->read_mat3();
 	}
 
 	std::unique_ptr<Read> ReadArchiveBinary::read_raw(std::size_t size) {
+		if (size > 0) ensure_not_at_end();
+
 		std::vector bytes(size, std::byte {});
 		read->read(bytes.data(), bytes.size());
 		return Read::from(std::move(bytes));
diff --git a/src/archive/ArchiveBinary.hh b/src/archive/ArchiveBinary.hh
index 2373e27..c6c8605 100644
--- a/src/archive/ArchiveBinary.hh
+++ b/src/archive/ArchiveBinary.hh
@@ -39,6 +39,8 @@ namespace zenkit {
 		void skip_entry() override;
 
 	private:
+		void ensure_not_at_end() const;
+
 		std::stack<uint64_t> _m_object_end {};
 		int32_t _m_objects {0};
 	};
-- 
2.43.0


From 62e6b477c5cb67ac144e2d2c220287ed7f7337fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:04 +0000
Subject: [PATCH 116/132] fix: do not treat arbitrary objects as visuals, AIs
 or VObs

---
 src/vobs/VirtualObject.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index dea5a8a..bce5083 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -167,7 +167,7 @@ namespace zenkit {
 				}
 
 				this->visual->name = visual_name;
-				this->visual->type = it->second;
+				this->visual->type = this->associated_visual_type;
 				if (this->visual->type == VisualType::DECAL) {
 					this->visual_decal.emplace(*reinterpret_cast<VisualDecal*>(this->visual.get()));
 				}
@@ -179,9 +179,7 @@ namespace zenkit {
 		}
 
 		if (has_ai_object) {
-			// NOTE(lmichaelis): The NDK does not seem to support `reinterpret_pointer_cast`.
-			auto obj = r.read_object(version);
-			this->ai = std::shared_ptr<Ai>(obj, reinterpret_cast<Ai*>(obj.get()));
+			this->ai = std::dynamic_pointer_cast<Ai>(r.read_object(version));
 		}
 
 		if (has_event_manager_object) {
@@ -396,10 +394,8 @@ namespace zenkit {
 	}
 
 	void AiMove::load(ReadArchive& r, GameVersion version) {
-		// NOTE(lmichaelis): The NDK does not seem to support `reinterpret_pointer_cast`.
-		auto obj = r.read_object(version);
-		vob = std::shared_ptr<VirtualObject>(obj, reinterpret_cast<VirtualObject*>(obj.get())); // vob
-		owner = r.read_object<VNpc>(version);                                                   // owner
+		vob = std::dynamic_pointer_cast<VirtualObject>(r.read_object(version)); // vob
+		owner = r.read_object<VNpc>(version);                                   // owner
 	}
 
 	void AiMove::save(WriteArchive& w, GameVersion version) const {
-- 
2.43.0


From e01faa8e56ef405db8dd97488b7cd1178011cfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:16 +0000
Subject: [PATCH 117/132] fix: do not look for function parameters behind the
 last symbol

---
 src/DaedalusScript.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 0552ea0..76e8b95 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -202,8 +202,9 @@ namespace zenkit {
 	}
 
 	std::span<DaedalusSymbol> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) {
-		return std::span<DaedalusSymbol>(_m_symbols.begin() + parent->index() + 1,
-		                                 _m_symbols.begin() + parent->index() + parent->count() + 1);
+		auto first = std::min<std::size_t>(std::size_t {parent->index()} + 1, _m_symbols.size());
+		auto last = std::min<std::size_t>(first + parent->count(), _m_symbols.size());
+		return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.begin() + last);
 	}
 
 	std::span<DaedalusSymbol> DaedalusScript::find_locals_for_function(DaedalusSymbol const* parent) {
@@ -221,8 +222,9 @@ namespace zenkit {
 	}
 
 	std::span<DaedalusSymbol const> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) const {
-		return std::span<DaedalusSymbol const>(_m_symbols.begin() + parent->index() + 1,
-		                                       _m_symbols.begin() + parent->index() + parent->count() + 1);
+		auto first = std::min<std::size_t>(std::size_t {parent->index()} + 1, _m_symbols.size());
+		auto last = std::min<std::size_t>(first + parent->count(), _m_symbols.size());
+		return std::span<DaedalusSymbol const>(_m_symbols.begin() + first, _m_symbols.begin() + last);
 	}
 
 	std::vector<DaedalusSymbol*> DaedalusScript::find_class_members(DaedalusSymbol const& cls) {
-- 
2.43.0


From d68a7a3f49c35b145d9e73bc2a9a1ec86cb30a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:43 +0000
Subject: [PATCH 118/132] fix: do not read child boxes past the end of the data

---
 src/Boxes.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Boxes.cc b/src/Boxes.cc
index 6d23ff4..82d95c8 100644
--- a/src/Boxes.cc
+++ b/src/Boxes.cc
@@ -1,6 +1,7 @@
 // Copyright © 2022-2024 GothicKit Contributors.
 // SPDX-License-Identifier: MIT
 #include "zenkit/Boxes.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 #include <limits>
@@ -25,6 +26,10 @@ namespace zenkit {
 
 		children.resize(r->read_ushort());
 		for (auto& child : children) {
+			if (r->eof()) {
+				throw ParserError {"OrientedBoundingBox", "missing child box"};
+			}
+
 			child.load(r);
 		}
 	}
-- 
2.43.0


From 01565462d44d2438a67bcecbbf1e56cfbc5ae5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:56 +0000
Subject: [PATCH 119/132] fix: do not share the log message buffer between
 threads

---
 src/Logger.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Logger.cc b/src/Logger.cc
index f8efbd5..a24378c 100644
--- a/src/Logger.cc
+++ b/src/Logger.cc
@@ -18,8 +18,6 @@
 #define PREFIX "[" ANSI_MAGENTA ANSI_BOLD "ZenKit" ANSI_RESET "]"
 
 namespace zenkit {
-	static char zk_global_logger_buffer[4096];
-
 	std::function<void(LogLevel, char const*, char const*)> Logger::_s_callback {};
 	LogLevel Logger::_s_level {LogLevel::INFO};
 
@@ -75,8 +73,10 @@ namespace zenkit {
 	void Logger::logv(LogLevel lvl, char const* name, char const* fmt, va_list ap) {
 		if (!_s_callback) return;
 		if (lvl > _s_level) return;
-		vsnprintf(zk_global_logger_buffer, sizeof zk_global_logger_buffer - 1, fmt, ap);
-		_s_callback(lvl, name, zk_global_logger_buffer);
+
+		char buffer[4096];
+		vsnprintf(buffer, sizeof buffer - 1, fmt, ap);
+		_s_callback(lvl, name, buffer);
 	}
 
 	void Logger::set(LogLevel lvl, std::function<void(LogLevel, char const*, char const*)> const& cb) {
-- 
2.43.0


From 4fc948a5171e3cb10fd2b59857f1af24f6c8b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:56 +0000
Subject: [PATCH 120/132] fix: parse object headers of bin-safe archives
 without global state

---
 src/archive/ArchiveBinsafe.cc | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 869f616..128e285 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -56,26 +56,29 @@ namespace zenkit {
 			return false;
 		}
 
-		char* it = line.data();
-		if (*it++ != '[') {
+		if (line[0] != '[') {
 			read->seek(static_cast<ssize_t>(mark), Whence::BEG);
 			return false;
 		}
 
-		auto* object_name = strtok(it, " ]");
-		auto* class_name = strtok(nullptr, " ]");
-		auto* version = strtok(nullptr, " ]");
-		auto* index = strtok(nullptr, " ]");
-
-		if (object_name == nullptr || class_name == nullptr || version == nullptr || index == nullptr) {
-			read->seek(static_cast<ssize_t>(mark), Whence::BEG);
-			return false;
+		// NOTE: `strtok` keeps its state in a global variable, so it can't be used here.
+		std::string_view rest = std::string_view {line.c_str()}.substr(1);
+		std::string tokens[4] {};
+		for (auto& token : tokens) {
+			rest.remove_prefix(std::min(rest.find_first_not_of(" ]"), rest.size()));
+			token = rest.substr(0, rest.find_first_of(" ]"));
+			rest.remove_prefix(token.size());
+
+			if (token.empty()) {
+				read->seek(static_cast<ssize_t>(mark), Whence::BEG);
+				return false;
+			}
 		}
 
-		obj.version = static_cast<uint16_t>(atoi(version));
-		obj.index = static_cast<uint32_t>(atoi(index));
-		obj.object_name = object_name;
-		obj.class_name = class_name;
+		obj.version = static_cast<uint16_t>(atoi(tokens[2].c_str()));
+		obj.index = static_cast<uint32_t>(atoi(tokens[3].c_str()));
+		obj.object_name = std::move(tokens[0]);
+		obj.class_name = std::move(tokens[1]);
 		return true;
 	}
 
-- 
2.43.0


From fc7bab097abf713c080863371cdea687548ba610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:56 +0000
Subject: [PATCH 121/132] fix: convert times without global state

---
 src/Internal.hh               | 24 ++++++++++++++++++++++++
 src/Logger.cc                 | 17 +++++++++--------
 src/Vfs.cc                    |  2 +-
 src/archive/ArchiveAscii.cc   |  4 ++--
 src/archive/ArchiveBinary.cc  |  6 ++++--
 src/archive/ArchiveBinsafe.cc |  4 ++--
 6 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/Internal.hh b/src/Internal.hh
index f64ba71..b0bc657 100644
--- a/src/Internal.hh
+++ b/src/Internal.hh
@@ -3,6 +3,7 @@
 #pragma once
 #include "zenkit/Logger.hh"
 #include <cstdint>
+#include <ctime>
 
 #ifndef _MSC_VER
 	#define ZKLOGT(...) zenkit::Logger::log(zenkit::LogLevel::TRACE, __VA_ARGS__)
@@ -17,3 +18,26 @@
 	#define ZKLOGW(...) zenkit::Logger::log(zenkit::LogLevel::WARNING, ##__VA_ARGS__)
 	#define ZKLOGE(...) zenkit::Logger::log(zenkit::LogLevel::ERROR, ##__VA_ARGS__)
 #endif
+
+namespace zenkit {
+	// NOTE: `std::localtime` and `std::gmtime` return a pointer to a global variable.
+	inline std::tm local_time(std::time_t time) noexcept {
+		std::tm result {};
+#ifdef _WIN32
+		localtime_s(&result, &time);
+#else
+		localtime_r(&time, &result);
+#endif
+		return result;
+	}
+
+	inline std::tm utc_time(std::time_t time) noexcept {
+		std::tm result {};
+#ifdef _WIN32
+		gmtime_s(&result, &time);
+#else
+		gmtime_r(&time, &result);
+#endif
+		return result;
+	}
+} // namespace zenkit
diff --git a/src/Logger.cc b/src/Logger.cc
index a24378c..88b1614 100644
--- a/src/Logger.cc
+++ b/src/Logger.cc
@@ -2,6 +2,8 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/Logger.hh"
 
+#include "Internal.hh"
+
 #include <cstdarg>
 #include <cstdio>
 #include <ctime>
@@ -22,17 +24,16 @@ namespace zenkit {
 	LogLevel Logger::_s_level {LogLevel::INFO};
 
 	ZKINT static void zk_internal_logger_default(LogLevel level, char const* name, char const* message) {
-		time_t now_t = time(nullptr);
-		tm* now = gmtime(&now_t);
+		tm now = utc_time(time(nullptr));
 
 		fprintf(stderr,
 		        ANSI_GRAY "%04d-%02d-%02d %02d:%02d:%02d " ANSI_RESET,
-		        now->tm_year + 1900,
-		        now->tm_mon + 1,
-		        now->tm_mday,
-		        now->tm_hour,
-		        now->tm_min,
-		        now->tm_sec);
+		        now.tm_year + 1900,
+		        now.tm_mon + 1,
+		        now.tm_mday,
+		        now.tm_hour,
+		        now.tm_min,
+		        now.tm_sec);
 
 		switch (level) {
 		case LogLevel::ERROR:
diff --git a/src/Vfs.cc b/src/Vfs.cc
index eaadf87..c51daa1 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -255,7 +255,7 @@ namespace zenkit {
 	}
 
 	static std::uint32_t vfs_unix_to_dos_time(std::time_t unix_) noexcept {
-		tm t = *gmtime(&unix_);
+		tm t = utc_time(unix_);
 
 		uint32_t dos = 0;
 		dos |= (t.tm_year - 80) << 25;
diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 851a4a5..c2dc08c 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -425,8 +425,8 @@ namespace zenkit {
 
 		char date_buffer[20];
 		// The header is written again when the archive is complete, so it may never change its size.
-		auto* time = std::localtime(&_m_time);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		auto time = local_time(_m_time);
+		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", &time);
 
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 1108e59..a8f1d75 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -3,6 +3,8 @@
 #include "ArchiveBinary.hh"
 #include "zenkit/Error.hh"
 
+#include "../Internal.hh"
+
 #include <charconv>
 #include <cstring>
 #include <stdexcept>
@@ -276,8 +278,8 @@ namespace zenkit {
 
 		char date_buffer[20];
 		// The header is written again when the archive is complete, so it may never change its size.
-		auto* time = std::localtime(&_m_time);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		auto time = local_time(_m_time);
+		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", &time);
 
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 128e285..582b4fc 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -435,8 +435,8 @@ namespace zenkit {
 
 		char date_buffer[20];
 		// The header is written again when the archive is complete, so it may never change its size.
-		auto* time = std::localtime(&_m_time);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		auto time = local_time(_m_time);
+		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", &time);
 
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
-- 
2.43.0


From 8beec5481a152cbda6a117dd57497c2d115d1f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:52 +0000
Subject: [PATCH 122/132] fix: do not lose the slots of temporary strings
 popped as another type or not pushed

---
 include/zenkit/DaedalusVm.hh |  1 +
 src/DaedalusVm.cc            | 26 +++++++++++++++++---------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 7a49111..6d87180 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -1018,6 +1018,7 @@ namespace zenkit {
 
 		/// \brief Mark the temporary string at the given index as free.
 		void mark_free_string(uint32_t index);
+		void release_string(DaedalusStackFrame const& frame);
 
 		/// \brief Obtain a random free temporary string index.
 		uint32_t get_free_string();
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index bc2e988..4341a83 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -518,9 +518,7 @@ namespace zenkit {
 	void DaedalusVm::reset_stack(std::uint32_t stack_ptr) {
 		while (_m_stack_ptr > stack_ptr) {
 			DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
-			if (v.reference && std::get<DaedalusSymbol*>(v.value) == _m_temporary_strings) {
-				this->mark_free_string(v.index);
-			}
+			this->release_string(v);
 		}
 
 		// Something popped more values than it was supposed to. They are lost, but the stack must stay balanced.
@@ -761,6 +759,10 @@ namespace zenkit {
 	void DaedalusVm::push_string(std::string_view value) {
 		// We need to push strings without an explicitly attached variable to a
 		// virtual string container variable.
+		if (_m_stack_ptr == stack_size) {
+			throw DaedalusVmException {"stack overflow"};
+		}
+
 		auto index = this->get_free_string();
 
 		_m_temporary_strings->set_string(value, index);
@@ -791,6 +793,7 @@ namespace zenkit {
 		DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
 
 		if (v.reference) {
+			this->release_string(v);
 			return this->get_int(v.context, v.value, v.index);
 		}
 
@@ -809,6 +812,7 @@ namespace zenkit {
 		DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
 
 		if (v.reference) {
+			this->release_string(v);
 			return this->get_float(v.context, v.value, v.index);
 		}
 
@@ -839,12 +843,9 @@ namespace zenkit {
 			throw DaedalusVmException {"tried to pop_reference but frame does not contain a reference."};
 		}
 
-		auto sym = std::get<DaedalusSymbol*>(v.value);
-		if (sym->index() == _m_temporary_strings->index()) {
-			// For virtual strings, we'll mark this string as free when it's popped.
-			// This is likely unreliable but until it causes issues, it'll stay as-is.
-			this->mark_free_string(v.index);
-		}
+		// For virtual strings, we'll mark this string as free when it's popped.
+		// This is likely unreliable but until it causes issues, it'll stay as-is.
+		this->release_string(v);
 
 		return {std::get<DaedalusSymbol*>(v.value), v.index, v.context};
 	}
@@ -865,6 +866,7 @@ namespace zenkit {
 		DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
 
 		if (v.reference) {
+			this->release_string(v);
 			return std::get<DaedalusSymbol*>(v.value)->get_instance();
 		}
 
@@ -1257,6 +1259,12 @@ namespace zenkit {
 		this->_m_temporary_strings_free.push(index);
 	}
 
+	void DaedalusVm::release_string(DaedalusStackFrame const& frame) {
+		if (frame.reference && std::get<DaedalusSymbol*>(frame.value) == _m_temporary_strings) {
+			this->mark_free_string(frame.index);
+		}
+	}
+
 	uint32_t DaedalusVm::get_free_string() {
 		if (_m_temporary_strings_free.size() == 0) {
 			// Like a normal array, we'll grow exponentially.
-- 
2.43.0


From 791a6b6a96931e3c12484d244bfe9bd0e2e14917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:52 +0000
Subject: [PATCH 123/132] fix: remove entries of the virtual file system by
 paths with trailing separators

---
 src/Vfs.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index c51daa1..ef7f768 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -556,6 +556,11 @@ namespace zenkit {
 	}
 
 	bool Vfs::remove(std::string_view path) {
+		// Like for all other paths, trailing separators don't matter.
+		while (!path.empty() && path.back() == '/') {
+			path.remove_suffix(1);
+		}
+
 		auto lastSlash = path.rfind('/');
 		auto parentPath = path.substr(0, lastSlash == std::string_view::npos ? 0 : lastSlash);
 		auto childName = path.substr(lastSlash + 1);
-- 
2.43.0


From 6aac4daf58fbb85a190e10c9dbee5ac2167786fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:27 +0000
Subject: [PATCH 124/132] fix: merge host directories whose names differ only
 in case

---
 src/Vfs.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index ef7f768..ba003f8 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -612,7 +612,14 @@ namespace zenkit {
 				    auto time = vfs_host_to_unix_time(ref.last_write_time());
 
 				    if (ref.is_directory()) {
-					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time));
+					    auto name = path.filename().string();
+					    VfsNode* newP = parent->child(name);
+
+					    // The host might tell apart directories which are the same one here.
+					    if (newP == nullptr || newP->type() != VfsNodeType::DIRECTORY) {
+						    newP = parent->create(VfsNode::directory(name, time));
+					    }
+
 					    load_directory(newP, path);
 				    } else if (ref.is_regular_file()) {
 					    load_file(parent, ref);
-- 
2.43.0


From c6103ba570c9e095861a74618c89f89f697ac72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:27 +0000
Subject: [PATCH 125/132] fix: keep the arguments of script callbacks alive and
 unchanged until the callback returns

---
 include/zenkit/DaedalusVm.hh | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 6d87180..8974a6f 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -29,6 +29,31 @@ namespace zenkit {
 	template <typename T>
 	concept DaedalusInstancePointerRaw = std::derived_from<std::remove_pointer_t<T>, DaedalusInstance>;
 
+	/// \brief Determines how arguments of externals are stored while the external is executed.
+	///
+	/// Strings and instances are removed from the stack before the external is called, so the stack does not keep
+	/// them alive and the external might overwrite them by using the VM.
+	template <typename T>
+	struct DaedalusExternalArgument {
+		using type = T;
+	};
+
+	template <>
+	struct DaedalusExternalArgument<std::string_view> {
+		using type = std::string;
+	};
+
+	template <DaedalusInstancePointerRaw T>
+	struct DaedalusExternalArgument<T> {
+		struct type {
+			std::shared_ptr<DaedalusInstance> instance;
+
+			operator T() const {
+				return static_cast<T>(instance.get());
+			}
+		};
+	};
+
 	/// \brief An exception thrown if the definition of an external is incorrect.
 	class DaedalusIllegalExternalDefinition : public DaedalusScriptError {
 	public:
@@ -808,7 +833,7 @@ namespace zenkit {
 		             std::same_as<T, DaedalusFunction> || //
 		             DaedalusInstancePointer<T> ||        //
 		             DaedalusInstancePointerRaw<T>)
-		T pop_value_for_external() {
+		typename DaedalusExternalArgument<T>::type pop_value_for_external() {
 			if constexpr (DaedalusInstancePointer<T>) {
 				auto r = pop_instance();
 
@@ -844,7 +869,7 @@ namespace zenkit {
 					}
 				}
 
-				return reinterpret_cast<T>(r.get());
+				return {std::move(r)};
 			} else if constexpr (std::same_as<float, T>) {
 				return pop_float();
 			} else if constexpr (std::same_as<std::int32_t, T>) {
@@ -915,7 +940,8 @@ namespace zenkit {
 		/// \tparam Px more value types to pop.
 		/// \return
 		template <typename P, typename... Px>
-		std::tuple<P, Px...> pop_values_for_external() {
+		std::tuple<typename DaedalusExternalArgument<P>::type, typename DaedalusExternalArgument<Px>::type...>
+		pop_values_for_external() {
 			// TODO: find a way to actually retain constref-ness of strings and instances through this chain of
 			//  tuple-making
 			if constexpr (sizeof...(Px) > 0) {
-- 
2.43.0


From d81d3b6d91fb9d270ad8d8d59dfd5465b45a7cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:27 +0000
Subject: [PATCH 126/132] fix: return functions and instances of any class from
 script calls

---
 include/zenkit/DaedalusVm.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 8974a6f..8182631 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -1018,7 +1018,7 @@ namespace zenkit {
 			if constexpr (DaedalusInstancePointer<R>) {
 				auto r = pop_instance();
 
-				if (r != nullptr) {
+				if (r != nullptr && !std::same_as<R, std::shared_ptr<DaedalusInstance>>) {
 					auto& expected = typeid(typename R::element_type);
 
 					if (!r->_m_type) {
@@ -1039,6 +1039,8 @@ namespace zenkit {
 				return pop_int();
 			} else if constexpr (std::same_as<std::string, R>) {
 				return pop_string();
+			} else if constexpr (std::same_as<DaedalusFunction, R>) {
+				return pop_value_for_external<DaedalusFunction>();
 			}
 		}
 
-- 
2.43.0


From deec60d6ab780d35054d6cfe6849398df7492cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:27 +0000
Subject: [PATCH 127/132] fix: forget the previous contents of a script when
 loading another one into it

---
 src/DaedalusScript.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 76e8b95..edf56f9 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -91,6 +91,10 @@ namespace zenkit {
 		this->_m_version = r->read_ubyte();
 		auto symbol_count = r->read_uint();
 
+		this->_m_symbols.clear();
+		this->_m_symbols_by_name.clear();
+		this->_m_symbols_by_address.clear();
+
 		this->_m_symbols.resize(symbol_count);
 		this->_m_symbols_by_name.reserve(symbol_count + 1);
 		this->_m_symbols_by_address.reserve(symbol_count);
-- 
2.43.0


From 0eb604c1044039cf3d3c06690959091d3669ae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:27 +0000
Subject: [PATCH 128/132] fix: find symbols which are not stored in upper case
 by name

---
 src/DaedalusScript.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index edf56f9..e51d0fd 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -106,7 +106,10 @@ namespace zenkit {
 			auto& sym = this->_m_symbols[i];
 			sym.load(r);
 
-			this->_m_symbols_by_name[sym.name()] = i;
+			std::string up {sym.name()};
+			std::transform(up.begin(), up.end(), up.begin(), toupper);
+
+			this->_m_symbols_by_name[std::move(up)] = i;
 			sym._m_index = i;
 
 			if (sym.type() == DaedalusDataType::PROTOTYPE || sym.type() == DaedalusDataType::INSTANCE ||
-- 
2.43.0


From 2dbff674c5341b6ec88ed9fcd23b6ddb8c60cb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:27 +0000
Subject: [PATCH 129/132] fix: initialize the stack of script machines

---
 include/zenkit/DaedalusVm.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 8182631..e741d47 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -96,7 +96,7 @@ namespace zenkit {
 	/// \brief A stack frame in the VM.
 	struct DaedalusStackFrame {
 		std::shared_ptr<DaedalusInstance> context;
-		bool reference;
+		bool reference {false};
 		std::variant<int32_t, float, DaedalusSymbol*, std::shared_ptr<DaedalusInstance>> value;
 		uint16_t index {0};
 	};
-- 
2.43.0


From 1c1a6414563176b080e9c86819df2620a2e467ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:27 +0000
Subject: [PATCH 130/132] fix: forget the previous contents of a cutscene
 library when loading another one into it

---
 src/CutsceneLibrary.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 2c241e5..9bd8f40 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -123,6 +123,7 @@ namespace zenkit {
 	void CutsceneLibrary::load(ReadArchive& r, GameVersion version) {
 		auto item_count = r.read_int(); // NumOfItems
 
+		this->blocks.clear();
 		for (auto i = 0; i < item_count; ++i) {
 			auto block = r.read_object<CutsceneBlock>(version);
 			if (block == nullptr) {
-- 
2.43.0


From dea76e3b633385fc943a69d171451ed0b2ab4df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:27 +0000
Subject: [PATCH 131/132] fix: report files which can not be opened for writing

---
 src/Stream.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Stream.cc b/src/Stream.cc
index 9555d90..7d320f2 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -348,6 +348,10 @@ namespace zenkit {
 			explicit WriteStream(std::ostream* stream) : _m_stream(stream), _m_own(false) {}
 			explicit WriteStream(std::filesystem::path const& path)
 			    : _m_stream(new std::ofstream(path, std::ios::binary | std::ios::out | std::ios::trunc)), _m_own(true) {
+				if (!*_m_stream) {
+					delete _m_stream;
+					throw std::runtime_error {"Failed to open " + path.string()};
+				}
 			}
 
 			~WriteStream() noexcept override {
-- 
2.43.0


From f0cc678a60cf49b2eaafbd24f66e9c9d19403560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:27 +0000
Subject: [PATCH 132/132] fix: report failed writes to streams

---
 src/Stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index 7d320f2..419e3fc 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -365,7 +365,7 @@ namespace zenkit {
 
 			size_t write(void const* buf, size_t len) noexcept override {
 				_m_stream->write(static_cast<char const*>(buf), static_cast<long>(len));
-				return len;
+				return _m_stream->good() ? len : 0;
 			}
 
 			void seek(ssize_t off, Whence whence) noexcept override {
-- 
2.43.0

