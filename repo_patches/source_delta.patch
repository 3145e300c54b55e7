From 26fb8d135fdc32c01f582ff20db4df4a5d398e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 01/24] fix: report failed writes in
 FileSystemManager::WriteFile

The state of the stream was never looked at after writing and closing, so
a truncated file (e.g., on a full disk) was reported as written.
---
 src/buildtool/file_system/file_system_manager.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buildtool/file_system/file_system_manager.hpp b/src/buildtool/file_system/file_system_manager.hpp
index 146e6db..289686f 100644
--- a/src/buildtool/file_system/file_system_manager.hpp
+++ b/src/buildtool/file_system/file_system_manager.hpp
@@ -1104,6 +1104,11 @@ class FileSystemManager {
             }
             writer << content;
             writer.close();
+            if (not writer.good()) {
+                Logger::Log(
+                    LogLevel::Error, "writing to {} failed", file.string());
+                return false;
+            }
             return true;
         } catch (std::exception const& e) {
             Logger::Log(
-- 
2.43.0


From ef99be84963796bb717869baf428f968217b2491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 02/24] fix: a killed copy or write child is a failed copy or
 write

The exit status of a child terminated by a signal reads as 0, and so does
the status if waitpid fails; both were taken for success.
---
 .../file_system/file_system_manager.hpp       | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/buildtool/file_system/file_system_manager.hpp b/src/buildtool/file_system/file_system_manager.hpp
index 289686f..4f9831a 100644
--- a/src/buildtool/file_system/file_system_manager.hpp
+++ b/src/buildtool/file_system/file_system_manager.hpp
@@ -343,7 +343,15 @@ class FileSystemManager {
             }
 
             int status{};
-            ::waitpid(pid, &status, 0);
+            // NOLINTNEXTLINE(hicpp-signed-bitwise)
+            if (::waitpid(pid, &status, 0) != pid or not WIFEXITED(status)) {
+                Logger::Log(LogLevel::Error,
+                            "Failed copying file {} to {}: child process did "
+                            "not terminate normally",
+                            src.string(),
+                            dst.string());
+                return false;
+            }
 
             // NOLINTNEXTLINE(hicpp-signed-bitwise)
             int retval = WEXITSTATUS(status);
@@ -920,7 +928,14 @@ class FileSystemManager {
             }
 
             int status{};
-            ::waitpid(pid, &status, 0);
+            // NOLINTNEXTLINE(hicpp-signed-bitwise)
+            if (::waitpid(pid, &status, 0) != pid or not WIFEXITED(status)) {
+                Logger::Log(LogLevel::Error,
+                            "Failed writing file {}: child process did not "
+                            "terminate normally",
+                            file.string());
+                return false;
+            }
 
             // NOLINTNEXTLINE(hicpp-signed-bitwise)
             int retval = WEXITSTATUS(status);
-- 
2.43.0


From 4dc9e71e6cdb37d9e8e7e350d6b561f109cb6b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 03/24] fix: never run a command in the wrong directory or
 without its files

If changing to the working directory or redirecting the standard files
failed in the child, the command was executed nevertheless, in the working
directory of the build tool. The stdin file is now also closed if forking
fails, and its stream is released.
---
 src/buildtool/system/system_command.hpp | 28 +++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/buildtool/system/system_command.hpp b/src/buildtool/system/system_command.hpp
index 86f63e6..5f428b3 100644
--- a/src/buildtool/system/system_command.hpp
+++ b/src/buildtool/system/system_command.hpp
@@ -163,6 +163,14 @@ class SystemCommand {
         // file system and will be removed automatically once the descriptor is
         // closed.
         gsl::owner<FILE*> in_file = std::tmpfile();
+        if (in_file == nullptr) {
+            logger_.Emit(LogLevel::Error,
+                         "Failed to execute '{}': cannot open stdin file with "
+                         "error: {}",
+                         *cmd,
+                         strerror(errno));
+            return std::nullopt;
+        }
         auto in_fd = fileno(in_file);
 
         // fork child process
@@ -171,17 +179,25 @@ class SystemCommand {
             logger_.Emit(LogLevel::Error,
                          "Failed to execute '{}': cannot fork a child process.",
                          *cmd);
+            std::fclose(in_file);
             return std::nullopt;
         }
 
         // dispatch child/parent process
         if (pid == 0) {
-            ::chdir(cwd_cstr);
+            // redirect fds and change to working directory
+            if (::dup2(in_fd, STDIN_FILENO) == -1 or
+                ::dup2(out_fd, STDOUT_FILENO) == -1 or
+                ::dup2(err_fd, STDERR_FILENO) == -1 or
+                ::chdir(cwd_cstr) != 0) {
+                // NOLINTNEXTLINE
+                printf("Failed to set up execution of '%s' with error: %s\n",
+                       *cmd,
+                       strerror(errno));
+                System::ExitWithoutCleanup(EXIT_FAILURE);
+            }
 
-            // redirect and close fds
-            ::dup2(in_fd, STDIN_FILENO);
-            ::dup2(out_fd, STDOUT_FILENO);
-            ::dup2(err_fd, STDERR_FILENO);
+            // close redirected fds
             ::close(in_fd);
             ::close(out_fd);
             ::close(err_fd);
@@ -198,7 +214,7 @@ class SystemCommand {
             System::ExitWithoutCleanup(EXIT_FAILURE);
         }
 
-        ::close(in_fd);
+        std::fclose(in_file);
 
         // wait for child to finish and obtain return value
         int status{};
-- 
2.43.0


From af191359b1d93cbb37aed22c0bba45ec33d48ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 04/24] fix: report failures while creating and extracting
 archives

An exception, a failed write of an entry's data, and a failure to write out
buffered data were reported as success.
---
 src/utils/archive/archive_ops.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/utils/archive/archive_ops.cpp b/src/utils/archive/archive_ops.cpp
index 83090ea..ec7a721 100644
--- a/src/utils/archive/archive_ops.cpp
+++ b/src/utils/archive/archive_ops.cpp
@@ -112,7 +112,10 @@ auto ArchiveOps::WriteEntry(archive_entry* entry,
         }
         if (not content->empty()) {
             auto content_size = content->size();
-            archive_write_data(aw, content->c_str(), content_size);
+            if (archive_write_data(aw, content->c_str(), content_size) < 0) {
+                return std::string("ArchiveOps: ") +
+                       std::string(archive_error_string(aw));
+            }
         }
     }
 #endif  // BOOTSTRAP_BUILD_TOOL
@@ -294,7 +297,12 @@ auto ArchiveOps::CreateArchive(ArchiveType type,
             }
             int r = archive_read_next_header2(disk.get(), entry.get());
             if (r == ARCHIVE_EOF) {
-                return std::nullopt;  // nothing left to archive; success!
+                // nothing left to archive; write out what is still buffered
+                if (archive_write_close(a_out.get()) != ARCHIVE_OK) {
+                    return std::string("ArchiveOps: ") +
+                           std::string(archive_error_string(a_out.get()));
+                }
+                return std::nullopt;  // success!
             }
             if (r != ARCHIVE_OK) {
                 return std::string("ArchiveOps: ") +
@@ -317,7 +325,7 @@ auto ArchiveOps::CreateArchive(ArchiveType type,
     } catch (std::exception const& ex) {
         Logger::Log(
             LogLevel::Error, "archive create failed with:\n{}", ex.what());
-        return std::nullopt;
+        return "ArchiveOps: archive create failed";
     }
 #endif  // BOOTSTRAP_BUILD_TOOL
 }
@@ -417,7 +425,7 @@ auto ArchiveOps::ExtractArchive(ArchiveType type,
     } catch (std::exception const& ex) {
         Logger::Log(
             LogLevel::Error, "archive extract failed with:\n{}", ex.what());
-        return std::nullopt;
+        return "ArchiveOps: archive extract failed";
     }
 #endif  // BOOTSTRAP_BUILD_TOOL
 }
-- 
2.43.0


From acf56f6d9919492a60873eb5ee2113dc5c67373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 05/24] fix: extract no archive entry outside of the
 destination directory

An entry with an absolute or upwards path was written wherever it pointed.
---
 src/utils/archive/TARGETS         |  1 +
 src/utils/archive/archive_ops.cpp | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/utils/archive/TARGETS b/src/utils/archive/TARGETS
index 896da0f..343ded8 100644
--- a/src/utils/archive/TARGETS
+++ b/src/utils/archive/TARGETS
@@ -9,6 +9,7 @@
     , ["src/buildtool/file_system", "file_system_manager"]
     , ["src/buildtool/logging", "log_level"]
     , ["src/buildtool/logging", "logging"]
+    , ["src/utils/cpp", "path"]
     ]
   }
 }
diff --git a/src/utils/archive/archive_ops.cpp b/src/utils/archive/archive_ops.cpp
index ec7a721..90487d4 100644
--- a/src/utils/archive/archive_ops.cpp
+++ b/src/utils/archive/archive_ops.cpp
@@ -21,6 +21,7 @@
 #include "src/buildtool/file_system/file_system_manager.hpp"
 #include "src/buildtool/logging/log_level.hpp"
 #include "src/buildtool/logging/logger.hpp"
+#include "src/utils/cpp/path.hpp"
 
 extern "C" {
 #include <archive.h>
@@ -393,14 +394,24 @@ auto ArchiveOps::ExtractArchive(ArchiveType type,
                        std::string(archive_error_string(a_in.get()));
             }
             // set correct destination path
-            auto new_entry_path =
-                destDir / std::filesystem::path(archive_entry_pathname(entry));
+            auto const entry_path =
+                std::filesystem::path(archive_entry_pathname(entry));
+            if (not PathIsNonUpwards(entry_path)) {
+                return std::string("ArchiveOps: entry outside of archive: ") +
+                       entry_path.string();
+            }
+            auto new_entry_path = destDir / entry_path;
             archive_entry_set_pathname(entry, new_entry_path.c_str());
 
             // hardlinks must point to real files, make sure its relative file
             // path is properly "rebased" on the destDir.
             auto const* hardlink = archive_entry_hardlink(entry);
             if (hardlink != nullptr) {
+                if (not PathIsNonUpwards(hardlink)) {
+                    return std::string(
+                               "ArchiveOps: hard link outside of archive: ") +
+                           hardlink;
+                }
                 auto new_hardlink = destDir / hardlink;
                 archive_entry_set_hardlink(entry, new_hardlink.c_str());
             }
-- 
2.43.0


From e60182af54372882c1ce4abc7bb3e6660d06f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 06/24] fix: a download that could not be written is a failed
 download

---
 src/other_tools/utils/curl_easy_handle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/other_tools/utils/curl_easy_handle.cpp b/src/other_tools/utils/curl_easy_handle.cpp
index 844e478..6eb3b8a 100644
--- a/src/other_tools/utils/curl_easy_handle.cpp
+++ b/src/other_tools/utils/curl_easy_handle.cpp
@@ -99,7 +99,7 @@ auto CurlEasyHandle::EasyWriteToFile(gsl::owner<char*> data,
     auto actual_size = static_cast<std::streamsize>(size * nmemb);
     auto* file = static_cast<std::ofstream*>(userptr);
     file->write(data, actual_size);  // append chunk
-    return actual_size;
+    return file->good() ? actual_size : -1;
 }
 
 auto CurlEasyHandle::EasyWriteToString(gsl::owner<char*> data,
@@ -163,7 +163,7 @@ auto CurlEasyHandle::DownloadToFile(
         file.close();
 
         // check result
-        if (res != CURLE_OK) {
+        if (res != CURLE_OK or not file.good()) {
             // cleanup failed downloaded file, if created
             [[maybe_unused]] auto tmp_res =
                 FileSystemManager::RemoveFile(file_path);
-- 
2.43.0


From b47da5e595a9bdeec730d58ea667a0dd00f10e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 07/24] fix: ignore special entries at every level of a path
 looked up in a tree

The flag was dropped at the second level, so that paths of three and more
segments could not be found below a tree with a special entry.
---
 src/buildtool/file_system/git_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buildtool/file_system/git_tree.cpp b/src/buildtool/file_system/git_tree.cpp
index 3b9f3a8..f3a7b8c 100644
--- a/src/buildtool/file_system/git_tree.cpp
+++ b/src/buildtool/file_system/git_tree.cpp
@@ -46,7 +46,7 @@ namespace {
         if (not subtree) {
             return nullptr;
         }
-        return LookupEntryPyPath(*subtree, it, end);
+        return LookupEntryPyPath(*subtree, it, end, ignore_special);
     }
     return entry;
 }
-- 
2.43.0


From bb98f37127bb09c50293767896ef5a9f1a74d734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 08/24] fix: hashing a missing file must not terminate the
 process

The throwing overload of file_size was called in a noexcept function, outside
of the try block.
---
 src/buildtool/crypto/hash_function.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/buildtool/crypto/hash_function.cpp b/src/buildtool/crypto/hash_function.cpp
index 985ef88..6564d58 100644
--- a/src/buildtool/crypto/hash_function.cpp
+++ b/src/buildtool/crypto/hash_function.cpp
@@ -17,6 +17,7 @@
 #include <cstddef>
 #include <exception>
 #include <string_view>
+#include <system_error>
 
 #include "src/buildtool/logging/log_level.hpp"
 #include "src/buildtool/logging/logger.hpp"
@@ -71,7 +72,15 @@ auto HashFunction::HashTreeFile(std::filesystem::path const& path) const
 auto HashFunction::HashTaggedFile(std::filesystem::path const& path,
                                   TagCreator const& tag_creator) const noexcept
     -> std::optional<std::pair<Hasher::HashDigest, std::uintmax_t>> {
-    auto const size = std::filesystem::file_size(path);
+    std::error_code ec{};
+    auto const size = std::filesystem::file_size(path, ec);
+    if (ec) {
+        Logger::Log(LogLevel::Debug,
+                    "Failed to determine the size of {}: {}",
+                    path.string(),
+                    ec.message());
+        return std::nullopt;
+    }
 
     static constexpr std::size_t kChunkSize{4048};
     auto hasher = MakeHasher();
-- 
2.43.0


From 0e2671cd32a659e722cf822acbc4d0d16c1e7ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 09/24] fix: data race on the readiness of map nodes

Whether the value is present was read without holding the lock under which
it is set, so a reader could see the value as present before its content.
---
 src/buildtool/multithreading/async_map_node.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buildtool/multithreading/async_map_node.hpp b/src/buildtool/multithreading/async_map_node.hpp
index f449d9c..487187b 100644
--- a/src/buildtool/multithreading/async_map_node.hpp
+++ b/src/buildtool/multithreading/async_map_node.hpp
@@ -47,6 +47,7 @@ class AsyncMapNode {
             return;
         }
         value_ = std::move(value);
+        is_ready_ = true;
         for (auto& task : awaiting_tasks_) {
             ts->QueueTask(std::move(task));
         }
@@ -166,7 +167,7 @@ class AsyncMapNode {
     [[nodiscard]] auto GetKey() && noexcept -> Key { return std::move(key_); }
 
     [[nodiscard]] auto IsReady() const noexcept -> bool {
-        return value_.has_value();
+        return is_ready_;
     }
 
   private:
@@ -176,6 +177,7 @@ class AsyncMapNode {
     std::vector<Task> failure_tasks_;
     std::mutex m_;
     std::atomic<bool> is_queued_to_be_processed_{false};
+    std::atomic<bool> is_ready_{false};
     bool failed_{false};
 
     /// \brief Sets node as queued to be processed
-- 
2.43.0


From 37d956956b7a4b9e778704f63908c966d9086927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 10/24] fix: release the lock held by a lock file that is
 assigned to

The handle was overwritten without being closed, so the lock was held until
the process ended.
---
 src/utils/cpp/file_locking.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/utils/cpp/file_locking.cpp b/src/utils/cpp/file_locking.cpp
index 3467070..2d37966 100644
--- a/src/utils/cpp/file_locking.cpp
+++ b/src/utils/cpp/file_locking.cpp
@@ -127,8 +127,13 @@ LockFile::LockFile(LockFile&& other) noexcept
 }
 
 auto LockFile::operator=(LockFile&& other) noexcept -> LockFile& {
-    file_handle_ = other.file_handle_;
-    other.file_handle_ = nullptr;
-    lock_file_ = std::move(other.lock_file_);
+    if (this != &other) {
+        if (file_handle_ != nullptr) {
+            std::fclose(file_handle_);
+        }
+        file_handle_ = other.file_handle_;
+        other.file_handle_ = nullptr;
+        lock_file_ = std::move(other.lock_file_);
+    }
     return *this;
 }
-- 
2.43.0


From 7253254a1b96572ddcc3b8bc9cf78e6e05bf8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 11/24] fix: do not report an object as split if its large
 entry is not stored

Compactification removes an object that was split; if storing the entry that
lists the parts failed, the object was lost.
---
 src/buildtool/storage/large_object_cas.tpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buildtool/storage/large_object_cas.tpp b/src/buildtool/storage/large_object_cas.tpp
index adc9570..a4fdf73 100644
--- a/src/buildtool/storage/large_object_cas.tpp
+++ b/src/buildtool/storage/large_object_cas.tpp
@@ -177,7 +177,13 @@ auto LargeObjectCAS<kDoGlobalUplink, kType>::Split(ArtifactDigest const& digest)
                              fmt::format("could not split {}", digest.hash())}};
     }
 
-    std::ignore = WriteEntry(digest, parts);
+    // An object that consists of a single part has no large entry.
+    if (parts.size() > 1 and not WriteEntry(digest, parts)) {
+        return unexpected{
+            LargeObjectError{LargeObjectErrorCode::Internal,
+                             fmt::format("could not store the large entry {}",
+                                         digest.hash())}};
+    }
     return parts;
 }
 
-- 
2.43.0


From 956ed98c1f5cd6eab37c5d091d4ffb0b58ef0afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 12/24] fix: a git entry whose size cannot be read is not a
 known artifact

The absent size of an entry missing in the object database was dereferenced.
---
 src/buildtool/file_system/file_root.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/buildtool/file_system/file_root.hpp b/src/buildtool/file_system/file_root.hpp
index cb4ce06..c2f4786 100644
--- a/src/buildtool/file_system/file_root.hpp
+++ b/src/buildtool/file_system/file_root.hpp
@@ -718,6 +718,10 @@ class FileRoot {
                     }
                 }
                 if (IsBlobObject(entry->Type())) {
+                    auto const size = entry->Size();
+                    if (not size) {
+                        return std::nullopt;
+                    }
                     if (not ProtocolTraits::IsNative(hash_type)) {
                         // read blob content, if not read already
                         if (not blob) {
@@ -732,7 +736,7 @@ class FileRoot {
                         auto digest =
                             ArtifactDigestFactory::Create(hash_type,
                                                           compatible_hash,
-                                                          *entry->Size(),
+                                                          *size,
                                                           /*is_tree=*/false);
                         if (not digest) {
                             return std::nullopt;
@@ -743,7 +747,7 @@ class FileRoot {
                     auto digest =
                         ArtifactDigestFactory::Create(hash_type,
                                                       entry->Hash(),
-                                                      *entry->Size(),
+                                                      *size,
                                                       /*is_tree=*/false);
                     if (not digest) {
                         return std::nullopt;
-- 
2.43.0


From 06df9180daf5168f512e8f087df43297d70a91b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 13/24] fix: report a fatal error when the temporary Git
 repository cannot be set up

The remote operations run via a temporary repository document that the
logger is called exactly once with fatal on failure; they returned
silently if the repository could not be initialized or its object
database backend not be added.
---
 src/buildtool/file_system/git_repo.cpp             |  5 +++++
 src/other_tools/git_operations/git_repo_remote.cpp | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/buildtool/file_system/git_repo.cpp b/src/buildtool/file_system/git_repo.cpp
index b5df417..3e4f209 100644
--- a/src/buildtool/file_system/git_repo.cpp
+++ b/src/buildtool/file_system/git_repo.cpp
@@ -1637,6 +1637,11 @@ auto GitRepo::LocalFetchViaTmpRepo(StorageConfig const& storage_config,
         // explicitly.
         auto tmp_repo = GitRepo::InitAndOpen(tmp_path, /*is_bare=*/true);
         if (tmp_repo == std::nullopt) {
+            std::invoke(*logger,
+                        fmt::format("Could not initialize temporary Git "
+                                    "repository {}",
+                                    tmp_path.string()),
+                        /*fatal=*/true);
             return false;
         }
         // add backend, with max priority
diff --git a/src/other_tools/git_operations/git_repo_remote.cpp b/src/other_tools/git_operations/git_repo_remote.cpp
index 15740b9..78ac631 100644
--- a/src/other_tools/git_operations/git_repo_remote.cpp
+++ b/src/other_tools/git_operations/git_repo_remote.cpp
@@ -425,6 +425,10 @@ auto GitRepoRemote::UpdateCommitViaTmpRepo(
             auto tmp_repo =
                 GitRepoRemote::InitAndOpen(tmp_path / "git", /*is_bare=*/true);
             if (tmp_repo == std::nullopt) {
+                (*logger)(fmt::format("could not initialize temporary git "
+                                      "repository {}",
+                                      (tmp_path / "git").string()),
+                          /*fatal=*/true);
                 return std::nullopt;
             }
             // setup wrapped logger
@@ -564,6 +568,10 @@ auto GitRepoRemote::FetchViaTmpRepo(StorageConfig const& storage_config,
             auto tmp_repo =
                 GitRepoRemote::InitAndOpen(tmp_path / "git", /*is_bare=*/true);
             if (tmp_repo == std::nullopt) {
+                (*logger)(fmt::format("could not initialize temporary git "
+                                      "repository {}",
+                                      (tmp_path / "git").string()),
+                          /*fatal=*/true);
                 return false;
             }
             // add backend, with max priority
@@ -595,6 +603,10 @@ auto GitRepoRemote::FetchViaTmpRepo(StorageConfig const& storage_config,
                 return tmp_repo->FetchFromRemote(
                     cfg, repo_url, branch, wrapped_logger);
             }
+            (*logger)(fmt::format("adding backend for branch fetch via tmp "
+                                  "repo failed with:\n{}",
+                                  GitLastError()),
+                      /*fatal=*/true);
             return false;
         }
         // default to shelling out to git for non-explicitly supported protocols
-- 
2.43.0


From 66615debff2c4f1a060f681f2b8ab77afe1d35d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 14/24] fix: remove the temporary file if it cannot be written
 or renamed

---
 src/buildtool/file_system/atomic.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buildtool/file_system/atomic.cpp b/src/buildtool/file_system/atomic.cpp
index 4d7ddc2..0c7eff8 100644
--- a/src/buildtool/file_system/atomic.cpp
+++ b/src/buildtool/file_system/atomic.cpp
@@ -47,6 +47,7 @@ auto FileSystemAtomic::WriteFile(std::string const& filename,
         auto written = write(fd, buf, to_write);
         if (written < 0) {
             (void)close(fd);
+            (void)unlink(filename_tmp);
             free(filename_tmp);  // NOLINT
             return false;
         }
@@ -54,10 +55,12 @@ auto FileSystemAtomic::WriteFile(std::string const& filename,
         buf = &buf[written];  // NOLINT
     }
     if (close(fd) != 0) {
+        (void)unlink(filename_tmp);
         free(filename_tmp);  // NOLINT
         return false;
     }
     if (rename(filename_tmp, filename.c_str()) != 0) {
+        (void)unlink(filename_tmp);
         free(filename_tmp);  // NOLINT
         return false;
     }
-- 
2.43.0


From db772d60895dca1a750a4c75090bad1bd928b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 15/24] fix: fail the download if no temporary file for the
 curl log can be created

---
 src/other_tools/utils/curl_easy_handle.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/other_tools/utils/curl_easy_handle.cpp b/src/other_tools/utils/curl_easy_handle.cpp
index 6eb3b8a..c00fd1f 100644
--- a/src/other_tools/utils/curl_easy_handle.cpp
+++ b/src/other_tools/utils/curl_easy_handle.cpp
@@ -117,6 +117,11 @@ auto CurlEasyHandle::DownloadToFile(
     std::filesystem::path const& file_path) noexcept -> int {
     // create temporary file to capture curl debug output
     gsl::owner<std::FILE*> tmp_file = std::tmpfile();
+    if (tmp_file == nullptr) {
+        Logger::Log(log_level_,
+                    "creating temporary file for curl log failed.");
+        return 1;
+    }
     try {
         // set URL
         // NOLINTNEXTLINE(cppcoreguidelines-pro-type-vararg, hicpp-vararg)
@@ -199,6 +204,11 @@ auto CurlEasyHandle::DownloadToString(std::string const& url) noexcept
     -> std::optional<std::string> {
     // create temporary file to capture curl debug output
     gsl::owner<std::FILE*> tmp_file = std::tmpfile();
+    if (tmp_file == nullptr) {
+        Logger::Log(log_level_,
+                    "creating temporary file for curl log failed.");
+        return std::nullopt;
+    }
     try {
         // set URL
         // NOLINTNEXTLINE(cppcoreguidelines-pro-type-vararg, hicpp-vararg)
-- 
2.43.0


From 4a52b71f20d4645d29ce27ae8f0fbb4daa89fe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 16/24] fix: recognise a failing initialisation of libcurl

---
 src/other_tools/utils/curl_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/other_tools/utils/curl_context.cpp b/src/other_tools/utils/curl_context.cpp
index 7006d72..be2f962 100644
--- a/src/other_tools/utils/curl_context.cpp
+++ b/src/other_tools/utils/curl_context.cpp
@@ -22,7 +22,7 @@ extern "C" {
 }
 
 CurlContext::CurlContext() noexcept
-    : initialized_{curl_global_init(CURL_GLOBAL_DEFAULT) >= 0} {
+    : initialized_{curl_global_init(CURL_GLOBAL_DEFAULT) == CURLE_OK} {
     if (not initialized_) {
         Logger::Log(LogLevel::Error, "initializing libcurl failed");
     }
-- 
2.43.0


From 98ae11263673634372f5daac64e5dc7613fcc863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 17/24] fix: compare the target fields of two target nodes with
 each other

TargetNode::operator== compared the target fields of one node with the
string fields of the other, so that equal nodes were considered different
and, in rare cases, different ones equal.
---
 src/buildtool/build_engine/expression/target_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buildtool/build_engine/expression/target_node.hpp b/src/buildtool/build_engine/expression/target_node.hpp
index 955a6fb..c2a969a 100644
--- a/src/buildtool/build_engine/expression/target_node.hpp
+++ b/src/buildtool/build_engine/expression/target_node.hpp
@@ -74,7 +74,7 @@ class TargetNode {
             auto const& abs_r = other.GetAbstract();
             return abs_l.node_type == abs_r.node_type and
                    abs_l.string_fields == abs_r.string_fields and
-                   abs_l.target_fields == abs_r.string_fields;
+                   abs_l.target_fields == abs_r.target_fields;
         } catch (...) {
             // should never happen
             return false;
-- 
2.43.0


From eca10f18ed183d9551f838e38c81237c154b0eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 18/24] fix: reject explicit tree references outside the module

---
 src/buildtool/build_engine/target_map/target_map.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/buildtool/build_engine/target_map/target_map.cpp b/src/buildtool/build_engine/target_map/target_map.cpp
index 5fa9f0e..89ffc1f 100644
--- a/src/buildtool/build_engine/target_map/target_map.cpp
+++ b/src/buildtool/build_engine/target_map/target_map.cpp
@@ -1720,6 +1720,13 @@ void TreeTarget(
     const gsl::not_null<BuildMaps::Base::DirectoryEntriesMap*>&
         directory_entries) {
     const auto& target = key.target.GetNamedTarget();
+    if (not PathIsNonUpwards(target.name)) {
+        (*logger)(
+            fmt::format("Tree reference outside current module: {}",
+                        target.name),
+            /*fatal=*/true);
+        return;
+    }
     const auto dir_name = std::filesystem::path{target.module} / target.name;
     auto target_module =
         BuildMaps::Base::ModuleName{target.repository, dir_name};
-- 
2.43.0


From af1246df4abfd891c971ffd3446de9ea3e10a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 19/24] fix: reject names of generated blobs and trees outside
 the output directory

---
 .../build_engine/target_map/built_in_rules.cpp     | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/buildtool/build_engine/target_map/built_in_rules.cpp b/src/buildtool/build_engine/target_map/built_in_rules.cpp
index abcd376..1dbcebf 100644
--- a/src/buildtool/build_engine/target_map/built_in_rules.cpp
+++ b/src/buildtool/build_engine/target_map/built_in_rules.cpp
@@ -258,6 +258,13 @@ void BlobGenRuleWithDeps(
                   true);
         return;
     }
+    if (not PathIsNonUpwards(name_val->String())) {
+        (*logger)(fmt::format("name should evaluate to a non-upwards relative "
+                              "path, but got {}",
+                              name_val->ToString()),
+                  true);
+        return;
+    }
     auto data_exp =
         desc->ReadOptionalExpression("data", ExpressionPtr{std::string{""}});
     if (not data_exp) {
@@ -668,6 +675,13 @@ void CommonTreeRule(
             true);
         return;
     }
+    if (not PathIsNonUpwards(name_value->String())) {
+        (*logger)(fmt::format("Expected name to evaluate to a non-upwards "
+                              "relative path, but got {}",
+                              name_value->ToString()),
+                  true);
+        return;
+    }
     (*subcaller)(
         dependency_keys,
         [name = name_value->String(),
-- 
2.43.0


From 8c49b434cfe1211ea66b04ba7cf0ea680635ea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 20/24] fix: look for staging conflicts between normalised
 paths

---
 .../target_map/built_in_rules.cpp             | 21 +++++++++++++++++--
 .../build_engine/target_map/target_map.cpp    | 10 ++++++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/buildtool/build_engine/target_map/built_in_rules.cpp b/src/buildtool/build_engine/target_map/built_in_rules.cpp
index 1dbcebf..bb06d44 100644
--- a/src/buildtool/build_engine/target_map/built_in_rules.cpp
+++ b/src/buildtool/build_engine/target_map/built_in_rules.cpp
@@ -29,7 +29,8 @@
 #include <type_traits>
 #include <unordered_map>
 #include <unordered_set>
-#include <utility>  // std::move
+#include <utility>
+#include <variant>
 #include <vector>
 
 #include "fmt/core.h"
@@ -556,6 +557,14 @@ void TreeRuleWithDeps(
         }
 
         // Result is the associated tree, located at name
+        auto normal = BuildMaps::Target::Utils::artifacts_tree(stage);
+        if (std::holds_alternative<std::string>(normal)) {
+            (*logger)(fmt::format("TREE conflict on path {}",
+                                  std::get<std::string>(normal)),
+                      true);
+            return;
+        }
+        stage = std::get<ExpressionPtr>(normal);
         auto conflict = BuildMaps::Target::Utils::tree_conflict(stage);
         if (conflict) {
             (*logger)(fmt::format("TREE conflict on subtree {}", *conflict),
@@ -890,7 +899,15 @@ void InstallRuleWithDeps(
         stage = ExpressionPtr{Expression::map_t{stage, to_stage}};
     }
 
-    auto conflict = BuildMaps::Target::Utils::tree_conflict(stage);
+    auto const normal = BuildMaps::Target::Utils::artifacts_tree(stage);
+    if (std::holds_alternative<std::string>(normal)) {
+        (*logger)(fmt::format("Staging conflict for path {}",
+                              std::get<std::string>(normal)),
+                  true);
+        return;
+    }
+    auto conflict = BuildMaps::Target::Utils::tree_conflict(
+        std::get<ExpressionPtr>(normal));
     if (conflict) {
         (*logger)(fmt::format("TREE conflict on subtree {}", *conflict), true);
         return;
diff --git a/src/buildtool/build_engine/target_map/target_map.cpp b/src/buildtool/build_engine/target_map/target_map.cpp
index 89ffc1f..787f3f3 100644
--- a/src/buildtool/build_engine/target_map/target_map.cpp
+++ b/src/buildtool/build_engine/target_map/target_map.cpp
@@ -351,7 +351,15 @@ auto ExprToTree(std::string const& context,
         auto norm_path = ToNormalPath(std::filesystem::path{input_path});
         artifacts.emplace(std::move(norm_path), artifact->Artifact());
     }
-    auto conflict = BuildMaps::Target::Utils::tree_conflict(val);
+    auto normal = BuildMaps::Target::Utils::artifacts_tree(val);
+    if (std::holds_alternative<std::string>(normal)) {
+        throw Evaluator::EvaluationError{
+            fmt::format("Tree conflicts on path {} of {}",
+                        std::get<std::string>(normal),
+                        context)};
+    }
+    auto conflict = BuildMaps::Target::Utils::tree_conflict(
+        std::get<ExpressionPtr>(normal));
     if (conflict) {
         throw Evaluator::EvaluationError{fmt::format(
             "Tree conflicts on subtree {} of {}", *conflict, context)};
-- 
2.43.0


From 439c94002ad418ec929814cfc62ce5a74d618775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 21/24] fix: recognise null characters in file names

---
 src/utils/cpp/path.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/cpp/path.hpp b/src/utils/cpp/path.hpp
index ba3d125..62406ce 100644
--- a/src/utils/cpp/path.hpp
+++ b/src/utils/cpp/path.hpp
@@ -17,6 +17,7 @@
 
 #include <filesystem>
 #include <string>
+#include <string_view>
 
 [[nodiscard]] static inline auto ToNormalPath(
     std::filesystem::path const& p) noexcept -> std::filesystem::path {
@@ -61,7 +62,7 @@
 
 /// \brief Predicate if a given string is a valid filename.
 [[nodiscard]] static inline auto IsValidFileName(const std::string& s) -> bool {
-    if (s.find_first_of("/\0") != std::string::npos) {
+    if (s.find_first_of(std::string_view{"/\0", 2}) != std::string::npos) {
         return false;
     }
     if (s.empty() or s == "." or s == "..") {
-- 
2.43.0


From 0d52e2c4b89733eb5a4e0e34487f8a0aff60d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 22/24] fix: do not extract archive entries through symbolic
 links

---
 src/utils/archive/archive_ops.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/archive/archive_ops.cpp b/src/utils/archive/archive_ops.cpp
index 90487d4..79ba178 100644
--- a/src/utils/archive/archive_ops.cpp
+++ b/src/utils/archive/archive_ops.cpp
@@ -374,6 +374,8 @@ auto ArchiveOps::ExtractArchive(ArchiveType type,
         uint flags = ARCHIVE_EXTRACT_TIME;
         flags |= static_cast<uint>(ARCHIVE_EXTRACT_PERM);
         flags |= static_cast<uint>(ARCHIVE_EXTRACT_FFLAGS);
+        // do not follow symbolic links contained in the archive
+        flags |= static_cast<uint>(ARCHIVE_EXTRACT_SECURE_SYMLINKS);
         archive_write_disk_set_options(disk.get(), static_cast<int>(flags));
         archive_write_disk_set_standard_lookup(disk.get());
         // make sure destination directory exists
@@ -383,6 +385,9 @@ auto ArchiveOps::ExtractArchive(ArchiveType type,
                    destDir.string();
         }
         // extract the archive
+        // the path of the destination itself may contain symbolic links
+        auto const dest_dir = std::filesystem::canonical(destDir);
+
         archive_entry* entry{nullptr};
         while (true) {
             int r = archive_read_next_header(a_in.get(), &entry);
@@ -400,7 +405,7 @@ auto ArchiveOps::ExtractArchive(ArchiveType type,
                 return std::string("ArchiveOps: entry outside of archive: ") +
                        entry_path.string();
             }
-            auto new_entry_path = destDir / entry_path;
+            auto new_entry_path = dest_dir / entry_path;
             archive_entry_set_pathname(entry, new_entry_path.c_str());
 
             // hardlinks must point to real files, make sure its relative file
@@ -412,7 +417,7 @@ auto ArchiveOps::ExtractArchive(ArchiveType type,
                                "ArchiveOps: hard link outside of archive: ") +
                            hardlink;
                 }
-                auto new_hardlink = destDir / hardlink;
+                auto new_hardlink = dest_dir / hardlink;
                 archive_entry_set_hardlink(entry, new_hardlink.c_str());
             }
 
-- 
2.43.0


From f28c7f378c75a47a8732c99c11b050326b9a2516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:12 +0000
Subject: [PATCH 23/24] fix: do not use the dependencies of a generic target if
 their evaluation failed

---
 src/buildtool/build_engine/target_map/built_in_rules.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buildtool/build_engine/target_map/built_in_rules.cpp b/src/buildtool/build_engine/target_map/built_in_rules.cpp
index bb06d44..950ae30 100644
--- a/src/buildtool/build_engine/target_map/built_in_rules.cpp
+++ b/src/buildtool/build_engine/target_map/built_in_rules.cpp
@@ -1584,6 +1584,9 @@ void GenericRule(
         deps_exp.Evaluate(param_config, {}, [&logger](auto const& msg) {
             (*logger)(fmt::format("While evaluating deps:\n{}", msg), true);
         });
+    if (not deps_value) {
+        return;
+    }
     if (not deps_value->IsList()) {
         (*logger)(fmt::format("Expected deps to evaluate to a list of targets, "
                               "but found {}",
-- 
2.43.0


From a0592a84d03593d5723a4211b77f15191198ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:03 +0000
Subject: [PATCH 24/24] fix: do not hand logging options on to just version,
 which has none

---
 src/other_tools/just_mr/launch.cpp | 11 +++++++----
 src/other_tools/just_mr/utils.hpp  | 10 ++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/other_tools/just_mr/launch.cpp b/src/other_tools/just_mr/launch.cpp
index 43bce9c..7052f5e 100644
--- a/src/other_tools/just_mr/launch.cpp
+++ b/src/other_tools/just_mr/launch.cpp
@@ -82,6 +82,7 @@ auto CallJust(std::optional<std::filesystem::path> const& config_file,
     bool use_config{false};
     bool use_build_root{false};
     bool use_launcher{false};
+    bool supports_log{true};
     bool supports_defines{false};
     bool supports_remote{false};
     bool supports_remote_properties{false};
@@ -133,6 +134,7 @@ auto CallJust(std::optional<std::filesystem::path> const& config_file,
         }
         use_build_root = flags.build_root;
         use_launcher = flags.launch;
+        supports_log = flags.log;
         supports_defines = flags.defines;
         supports_remote = flags.remote;
         supports_remote_properties = flags.remote_props;
@@ -159,26 +161,27 @@ auto CallJust(std::optional<std::filesystem::path> const& config_file,
         cmd.emplace_back(nlohmann::json(*common_args.local_launcher).dump());
     }
     // forward logging arguments
-    if (not log_args.log_files.empty()) {
+    if (supports_log and not log_args.log_files.empty()) {
         cmd.emplace_back("--log-append");
         for (auto const& log_file : log_args.log_files) {
             cmd.emplace_back("-f");
             cmd.emplace_back(log_file.string());
         }
     }
-    if (log_args.log_limit and *log_args.log_limit != kDefaultLogLevel) {
+    if (supports_log and log_args.log_limit and
+        *log_args.log_limit != kDefaultLogLevel) {
         cmd.emplace_back("--log-limit");
         cmd.emplace_back(
             std::to_string(static_cast<std::underlying_type_t<LogLevel>>(
                 *log_args.log_limit)));
     }
-    if (log_args.restrict_stderr_log_limit) {
+    if (supports_log and log_args.restrict_stderr_log_limit) {
         cmd.emplace_back("--restrict-stderr-log-limit");
         cmd.emplace_back(
             std::to_string(static_cast<std::underlying_type_t<LogLevel>>(
                 *log_args.restrict_stderr_log_limit)));
     }
-    if (log_args.plain_log) {
+    if (supports_log and log_args.plain_log) {
         cmd.emplace_back("--plain-log");
     }
     if (supports_defines) {
diff --git a/src/other_tools/just_mr/utils.hpp b/src/other_tools/just_mr/utils.hpp
index 04f342e..bacb2b8 100644
--- a/src/other_tools/just_mr/utils.hpp
+++ b/src/other_tools/just_mr/utils.hpp
@@ -51,6 +51,7 @@ struct JustSubCmdFlags {
     bool config;        // requires setup
     bool build_root;    // supports the local build root arg
     bool launch;        // supports the local launcher arg
+    bool log;           // supports the logging args
     bool defines;       // supports defines arg
     bool remote;        // supports remote exec args, including client-side auth
     bool remote_props;  // supports remote-execution properties
@@ -66,6 +67,7 @@ std::map<std::string, JustSubCmdFlags> const kKnownJustSubcommands{
      {.config = false,
       .build_root = false,
       .launch = false,
+      .log = false,
       .defines = false,
       .remote = false,
       .remote_props = false,
@@ -76,6 +78,7 @@ std::map<std::string, JustSubCmdFlags> const kKnownJustSubcommands{
      {.config = true,
       .build_root = true,
       .launch = false,
+      .log = true,
       .defines = true,
       .remote = true,
       .remote_props = false,
@@ -86,6 +89,7 @@ std::map<std::string, JustSubCmdFlags> const kKnownJustSubcommands{
      {.config = true,
       .build_root = true,
       .launch = true,
+      .log = true,
       .defines = true,
       .remote = true,
       .remote_props = true,
@@ -96,6 +100,7 @@ std::map<std::string, JustSubCmdFlags> const kKnownJustSubcommands{
      {.config = true,
       .build_root = true,
       .launch = true,
+      .log = true,
       .defines = true,
       .remote = true,
       .remote_props = true,
@@ -106,6 +111,7 @@ std::map<std::string, JustSubCmdFlags> const kKnownJustSubcommands{
      {.config = true,
       .build_root = true,
       .launch = true,
+      .log = true,
       .defines = true,
       .remote = true,
       .remote_props = true,
@@ -116,6 +122,7 @@ std::map<std::string, JustSubCmdFlags> const kKnownJustSubcommands{
      {.config = true,
       .build_root = true,
       .launch = true,
+      .log = true,
       .defines = true,
       .remote = true,
       .remote_props = true,
@@ -126,6 +133,7 @@ std::map<std::string, JustSubCmdFlags> const kKnownJustSubcommands{
      {.config = false,
       .build_root = true,
       .launch = false,
+      .log = true,
       .defines = false,
       .remote = true,
       .remote_props = false,
@@ -136,6 +144,7 @@ std::map<std::string, JustSubCmdFlags> const kKnownJustSubcommands{
      {.config = false,
       .build_root = true,
       .launch = false,
+      .log = true,
       .defines = false,
       .remote = true,
       .remote_props = false,
@@ -146,6 +155,7 @@ std::map<std::string, JustSubCmdFlags> const kKnownJustSubcommands{
      {.config = false,
       .build_root = true,
       .launch = false,
+      .log = true,
       .defines = false,
       .remote = false,
       .remote_props = false,
-- 
2.43.0

