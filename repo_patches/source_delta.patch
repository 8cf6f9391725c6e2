From c8c497f4498b530a8829e243610a0a3b468b75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 01/56] fix: stop a merged query when the consumer asks to stop

---
 arki/dataset/merged.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/dataset/merged.cc b/arki/dataset/merged.cc
index ce85994..5524d81 100644
--- a/arki/dataset/merged.cc
+++ b/arki/dataset/merged.cc
@@ -351,10 +351,11 @@ bool Reader::impl_query_data(const query::Data& query, metadata_dest_func dest)
         {
             canceled = true;
             readers.cancel();
+            break;
         }
     }
 
-    return track.done(canceled);
+    return track.done(!canceled);
 }
 
 void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
-- 
2.43.0


From 072d14fa9b94ab476067a7dce0e72abd7774bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 02/56] fix: propagate the consumer's stop request through
 sorted query results

---
 arki/dataset/simple/reader.cc | 6 ++++--
 arki/metadata/sort.cc         | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/arki/dataset/simple/reader.cc b/arki/dataset/simple/reader.cc
index 17d1a80..a923bf3 100644
--- a/arki/dataset/simple/reader.cc
+++ b/arki/dataset/simple/reader.cc
@@ -67,8 +67,10 @@ bool Reader::impl_query_data(const query::Data& q, metadata_dest_func dest)
         auto segment = dataset().segment_session->segment_from_relpath(
             segmentinfo.relpath);
         auto reader = segment->reader(lock);
-        reader->query_data(
-            q, [&](std::shared_ptr<Metadata> md) { return sorter.add(md); });
+        if (!reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
+                return sorter.add(md);
+            }))
+            return track.done(false);
         if (!sorter.flush())
             return track.done(false);
     }
diff --git a/arki/metadata/sort.cc b/arki/metadata/sort.cc
index 43c985b..19df1f6 100644
--- a/arki/metadata/sort.cc
+++ b/arki/metadata/sort.cc
@@ -203,7 +203,8 @@ bool Stream::add(std::shared_ptr<Metadata> m)
         auto time = rt->get_Position();
         if (hasInterval && (!endofperiod.get() || time > *endofperiod))
         {
-            flush();
+            if (!flush())
+                return false;
             buffer.push_back(m);
             setEndOfPeriod(time);
         }
@@ -212,8 +213,8 @@ bool Stream::add(std::shared_ptr<Metadata> m)
     }
     else
     {
-        if (hasInterval)
-            flush();
+        if (hasInterval && !flush())
+            return false;
         buffer.push_back(m);
     }
     return true;
-- 
2.43.0


From b4a6bcff0bce4b93489ffe421b4f2d48f032c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 03/56] fix: stop iterating months when the callback returns
 false

---
 arki/core/time.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/core/time.cc b/arki/core/time.cc
index 26230a5..7aa6454 100644
--- a/arki/core/time.cc
+++ b/arki/core/time.cc
@@ -599,7 +599,8 @@ void Interval::iter_months(std::function<bool(const Interval&)> f) const
         }
         else
         {
-            f(Interval(pos, next));
+            if (!f(Interval(pos, next)))
+                break;
             pos = next;
         }
     }
-- 
2.43.0


From cb9a2fd11144255bdd15cbf8fdb36a93d74f7e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:48 +0000
Subject: [PATCH 04/56] fix: report errors when building the form of a remote
 query

---
 arki/core/curl.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/arki/core/curl.cc b/arki/core/curl.cc
index 4ca5d08..a51e57b 100644
--- a/arki/core/curl.cc
+++ b/arki/core/curl.cc
@@ -60,7 +60,12 @@ void CurlEasy::reset()
     // CURLOPT_PROGRESSFUNCTION / CURLOPT_PROGRESSDATA ?
 }
 
-CurlForm::CurlForm(CurlEasy& curl) { post = curl_mime_init(curl); }
+CurlForm::CurlForm(CurlEasy& curl)
+{
+    post = curl_mime_init(curl);
+    if (!post)
+        throw std::runtime_error("cannot initialize a form to POST data");
+}
 
 CurlForm::~CurlForm() { clear(); }
 
@@ -74,15 +79,20 @@ void CurlForm::clear()
 void CurlForm::add_string(const std::string& key, const std::string& val)
 {
     curl_mimepart* part = curl_mime_addpart(post);
-    curl_mime_data(part, val.data(), val.size());
-    curl_mime_name(part, key.c_str());
+    if (!part)
+        throw std::runtime_error("cannot add a field to the form to POST");
+    checked("setting form field data",
+            curl_mime_data(part, val.data(), val.size()));
+    checked("setting form field name", curl_mime_name(part, key.c_str()));
 }
 
 void CurlForm::add_file(const std::string& key, const std::string& pathname)
 {
     curl_mimepart* part = curl_mime_addpart(post);
-    curl_mime_filedata(part, pathname.c_str());
-    curl_mime_name(part, key.c_str());
+    if (!part)
+        throw std::runtime_error("cannot add a file to the form to POST");
+    checked("setting form file", curl_mime_filedata(part, pathname.c_str()));
+    checked("setting form file name", curl_mime_name(part, key.c_str()));
 }
 
 Request::Request(CurlEasy& curl) : curl(curl), method("GET"), post_data(curl) {}
-- 
2.43.0


From c760b806d01c3b700546f06c80ae97fce30fdd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 05/56] fix: detect short writes when repairing terminator
 signatures

---
 arki/dataset/iseg/checker.cc   | 4 +++-
 arki/dataset/simple/checker.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/iseg/checker.cc b/arki/dataset/iseg/checker.cc
index f119fed..2f81fe6 100644
--- a/arki/dataset/iseg/checker.cc
+++ b/arki/dataset/iseg/checker.cc
@@ -344,7 +344,9 @@ void Checker::check_issue51(CheckerConfig& opts)
                 if (blob.format != DataFormat::GRIB &&
                     blob.format != DataFormat::BUFR)
                     return;
-                datafile.pwrite("7", 1, blob.offset + blob.size - 1);
+                if (datafile.pwrite("7", 1, blob.offset + blob.size - 1) != 1)
+                    datafile.throw_runtime_error(
+                        "cannot write the terminator signature");
             }
             opts.reporter->segment_issue51(
                 name(), i.first, "fixed corrupted terminator signatures");
diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 6568bed..21f051b 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -474,7 +474,9 @@ void Checker::check_issue51(CheckerConfig& opts)
                 if (blob.format != DataFormat::GRIB &&
                     blob.format != DataFormat::BUFR)
                     return;
-                datafile.pwrite("7", 1, blob.offset + blob.size - 1);
+                if (datafile.pwrite("7", 1, blob.offset + blob.size - 1) != 1)
+                    datafile.throw_runtime_error(
+                        "cannot write the terminator signature");
             }
             opts.reporter->segment_issue51(
                 name(), i.first, "fixed corrupted terminator signatures");
-- 
2.43.0


From ba7030697e5ac6dd44dbe57be563aba69e5fb871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 06/56] fix: do not lose data on short writes of metadata and
 summaries

---
 arki/metadata/collection.cc | 6 +++---
 arki/summary.cc             | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/arki/metadata/collection.cc b/arki/metadata/collection.cc
index f02b687..68157b2 100644
--- a/arki/metadata/collection.cc
+++ b/arki/metadata/collection.cc
@@ -139,12 +139,12 @@ static void compressAndWrite(const std::vector<uint8_t>& buf,
         enc.add_unsigned(0u, 2);              // Version 0: LZO compressed
         enc.add_unsigned(obuf.size() + 4, 4); // Compressed len
         enc.add_unsigned(buf.size(), 4);      // Uncompressed len
-        out.write(tmp.data(), tmp.size());
-        out.write((const char*)obuf.data(), obuf.size());
+        out.write_all_or_retry(tmp.data(), tmp.size());
+        out.write_all_or_retry(obuf.data(), obuf.size());
     }
     else
         // Write the plain metadata
-        out.write(buf.data(), buf.size());
+        out.write_all_or_retry(buf.data(), buf.size());
 }
 
 static stream::SendResult compressAndWrite(const std::vector<uint8_t>& buf,
diff --git a/arki/summary.cc b/arki/summary.cc
index 8fccee6..4ed911e 100644
--- a/arki/summary.cc
+++ b/arki/summary.cc
@@ -243,7 +243,7 @@ void Summary::write(NamedFileDescriptor& out) const
     iotrace::trace_file(out, 0, encoded.size(), "write summary");
 
     // Write out
-    out.write(encoded.data(), encoded.size());
+    out.write_all_or_retry(encoded.data(), encoded.size());
 }
 
 stream::SendResult Summary::write(StreamOutput& out) const
-- 
2.43.0


From 618dc7fe1272ad9442aa7269a9bd6eb541560b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 07/56] fix: detect truncated inline data when reading from an
 abstract input

---
 arki/metadata.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index 669de8b..fb26a5f 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -585,7 +585,16 @@ size_t Metadata::read_inline_data(core::AbstractInputFile& fd)
     iotrace::trace_file(fd, 0, si->size, "read inline data");
 
     // Read the inline data
-    fd.read(buf.data(), si->size);
+    size_t pos = 0;
+    while (pos < buf.size())
+    {
+        size_t res = fd.read(buf.data() + pos, buf.size() - pos);
+        if (res == 0)
+            throw std::runtime_error(fd.path().native() +
+                                     ": inline data not found after arkimet "
+                                     "metadata");
+        pos += res;
+    }
     m_data = metadata::DataManager::get().to_data(s.format, std::move(buf));
 
     return si->size;
-- 
2.43.0


From 5b7bb65843b02c6e7fc4ff20ea5a780e92bd93b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:08 +0000
Subject: [PATCH 08/56] fix: look for issue51 in all segments even if one is
 empty or truncated

---
 arki/dataset/simple/checker.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 21f051b..4dd0306 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -381,7 +381,7 @@ void Checker::check_issue51(CheckerConfig& opts)
         auto csegment            = segment_from_relpath(info.relpath);
         metadata::Collection mds = csegment->segment_checker->scan();
         if (mds.empty())
-            return;
+            continue;
         File datafile(csegment->segment->abspath(), O_RDONLY);
         // Iterate all metadata in the segment
         unsigned count_otherformat = 0;
@@ -406,7 +406,7 @@ void Checker::check_issue51(CheckerConfig& opts)
                     name(), csegment->segment->relpath(),
                     "cannot read 4 bytes at position " +
                         std::to_string(blob.offset + blob.size - 4));
-                return;
+                break;
             }
             // Check if it ends with 7777
             if (memcmp(tail, "7777", 4) == 0)
-- 
2.43.0


From 9ca9b36302e211b9051dde34788befd58f143d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:08 +0000
Subject: [PATCH 09/56] fix: hold the write lock while repairing terminator
 signatures

---
 arki/dataset/iseg/checker.cc   | 6 ++++++
 arki/dataset/simple/checker.cc | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/arki/dataset/iseg/checker.cc b/arki/dataset/iseg/checker.cc
index 2f81fe6..663671b 100644
--- a/arki/dataset/iseg/checker.cc
+++ b/arki/dataset/iseg/checker.cc
@@ -246,6 +246,9 @@ void Checker::check_issue51(CheckerConfig& opts)
     // Broken metadata for each segment
     std::map<std::filesystem::path, metadata::Collection> broken_mds;
 
+    // Locks of the segments to fix, held so that they do not change meanwhile
+    std::map<std::filesystem::path, std::shared_ptr<core::CheckLock>> locks;
+
     // Iterate all segments
     list_segments([&](std::shared_ptr<const Segment> segment) {
         auto csegment = this->segment(segment);
@@ -290,6 +293,7 @@ void Checker::check_issue51(CheckerConfig& opts)
             {
                 ++count_issue51;
                 broken_mds[segment->relpath()].push_back(*md);
+                locks[segment->relpath()] = csegment->lock;
             }
             else
             {
@@ -317,6 +321,8 @@ void Checker::check_issue51(CheckerConfig& opts)
     {
         for (const auto& i : broken_mds)
         {
+            auto wlock = locks.at(i.first)->write_lock();
+
             // Make a backup copy with .issue51 extension, if it doesn't already
             // exist
             auto abspath = dataset().path / i.first;
diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 4dd0306..68971f9 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -446,6 +446,8 @@ void Checker::check_issue51(CheckerConfig& opts)
     {
         for (const auto& i : broken_mds)
         {
+            auto wlock = lock->write_lock();
+
             // Make a backup copy with .issue51 extension, if it doesn't already
             // exist
             auto abspath = dataset().path / i.first;
-- 
2.43.0


From bbe4999090e981ffd5cb2284081b7a6411737c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 10/56] fix: invalidate the dataset summary when a segment is
 removed

---
 arki/dataset/simple/checker.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 68971f9..9fd7dab 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -160,6 +160,7 @@ public:
     {
         dataset_checker.manifest.remove(segment->relpath());
         dataset_checker.manifest.flush();
+        invalidate_dataset_summary();
     }
 
     void post_convert(std::shared_ptr<segment::Fixer>,
-- 
2.43.0


From ce6199a54e8108f82816528de3122a5df28fb411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:53 +0000
Subject: [PATCH 11/56] fix: invalidate cached summaries when segments of an
 iseg dataset change

---
 arki/dataset/index/summarycache.cc | 10 +++-------
 arki/dataset/iseg/checker.cc       | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/arki/dataset/index/summarycache.cc b/arki/dataset/index/summarycache.cc
index e20446a..59bc773 100644
--- a/arki/dataset/index/summarycache.cc
+++ b/arki/dataset/index/summarycache.cc
@@ -132,14 +132,10 @@ void SummaryCache::invalidate(const metadata::InboundBatch& batch)
 
 void SummaryCache::invalidate(const Time& tmin, const Time& tmax)
 {
-    bool deleted = false;
     for (Time t = tmin; t <= tmax; t = t.start_of_next_month())
-    {
-        if (std::filesystem::remove(summary_pathname(t.ye, t.mo)))
-            deleted = true;
-    }
-    if (deleted)
-        std::filesystem::remove(m_scache_root / "all.summary");
+        std::filesystem::remove(summary_pathname(t.ye, t.mo));
+    // The global summary is affected even if the months were not cached
+    std::filesystem::remove(m_scache_root / "all.summary");
 }
 
 bool SummaryCache::check(const dataset::Base& ds, Reporter& reporter) const
diff --git a/arki/dataset/iseg/checker.cc b/arki/dataset/iseg/checker.cc
index 663671b..cbe4d8a 100644
--- a/arki/dataset/iseg/checker.cc
+++ b/arki/dataset/iseg/checker.cc
@@ -65,6 +65,22 @@ public:
             dataset_checker.archive());
     }
 
+    /// Delete the cached summaries of the months covered by the segment
+    void invalidate_summary_cache()
+    {
+        index::SummaryCache scache(dataset().summary_cache_pathname);
+        core::Interval interval;
+        if (dataset().relpath_timespan(segment->relpath(), interval))
+            scache.invalidate(interval.begin, interval.end);
+        else if (std::filesystem::exists(dataset().summary_cache_pathname))
+            scache.invalidate();
+    }
+
+    void pre_remove(std::shared_ptr<segment::Fixer>) override
+    {
+        invalidate_summary_cache();
+    }
+
     segmented::SegmentState fsck(dataset::Reporter& reporter,
                                  bool quick = true) override
     {
@@ -114,6 +130,7 @@ public:
         // Remove .metadata and .summary files
         std::filesystem::remove(segment->abspath_metadata());
         std::filesystem::remove(segment->abspath_summary());
+        invalidate_summary_cache();
     }
 
     void rescan(dataset::Reporter& reporter) override
@@ -130,6 +147,7 @@ public:
 
         auto fixer = segment_checker->fixer();
         fixer->reindex(mds);
+        invalidate_summary_cache();
     }
 
     arki::metadata::Collection
@@ -140,6 +158,7 @@ public:
         auto fixer               = segment_checker->fixer();
         fixer->move_data(
             new_segment_session->segment_from_relpath(new_relpath));
+        invalidate_summary_cache();
         return mds;
     }
 };
-- 
2.43.0


From 1bc835a26111ccf333e712b1dfa8cb27145c38cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:34 +0000
Subject: [PATCH 12/56] fix: repack of compressed segments replaces the
 compressed file

With a group size, commit renamed the repacked file over the uncompressed name
of the segment, leaving the old compressed file and hiding it
---
 arki/segment/data/gz.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/segment/data/gz.cc b/arki/segment/data/gz.cc
index 0bab34b..43f32f6 100644
--- a/arki/segment/data/gz.cc
+++ b/arki/segment/data/gz.cc
@@ -271,7 +271,7 @@ core::Pending Checker<Data>::repack(Collection& mds, const RepackConfig& cfg)
         finalize->tmpfiles.push_back(tmpidxabspath);
         finalize->on_commit =
             [&](const std::vector<std::filesystem::path>& tmpfiles) {
-                std::filesystem::rename(tmpfiles[0], this->segment().abspath());
+                std::filesystem::rename(tmpfiles[0], gzabspath);
                 if (!sys::rename_ifexists(tmpfiles[1], gzidxabspath))
                     std::filesystem::remove(gzidxabspath);
             };
-- 
2.43.0


From 40aa0e2bd1bf02ffcccd831b59d58ef7f6d33234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:58 +0000
Subject: [PATCH 13/56] fix: never leave the index of the old file next to a
 repacked compressed one

A crash or an error between the two renames left seek offsets that do not
match the compressed data
---
 arki/segment/data/gz.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/arki/segment/data/gz.cc b/arki/segment/data/gz.cc
index 43f32f6..6cc91d6 100644
--- a/arki/segment/data/gz.cc
+++ b/arki/segment/data/gz.cc
@@ -254,8 +254,10 @@ core::Pending Checker<Data>::repack(Collection& mds, const RepackConfig& cfg)
     {
         finalize->on_commit =
             [&](const std::vector<std::filesystem::path>& tmpfiles) {
+                // Data can be read without an index, but not with the index of
+                // a different file
+                std::filesystem::remove(gzidxabspath);
                 std::filesystem::rename(tmpfiles[0], gzabspath);
-                std::filesystem::remove(sys::with_suffix(gzabspath, ".idx"));
             };
 
         Creator creator(this->segment(), mds, tmpabspath);
@@ -271,9 +273,11 @@ core::Pending Checker<Data>::repack(Collection& mds, const RepackConfig& cfg)
         finalize->tmpfiles.push_back(tmpidxabspath);
         finalize->on_commit =
             [&](const std::vector<std::filesystem::path>& tmpfiles) {
+                // Data can be read without an index, but not with the index of
+                // a different file
+                std::filesystem::remove(gzidxabspath);
                 std::filesystem::rename(tmpfiles[0], gzabspath);
-                if (!sys::rename_ifexists(tmpfiles[1], gzidxabspath))
-                    std::filesystem::remove(gzidxabspath);
+                sys::rename_ifexists(tmpfiles[1], gzidxabspath);
             };
 
         Creator creator(this->segment(), mds, tmpabspath, tmpidxabspath,
-- 
2.43.0


From 40d9503f0fa9c3235731df62a00d8e4c0db0f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:25 +0000
Subject: [PATCH 14/56] fix: flush repacked data to disk before replacing a
 segment

---
 arki/segment/data/fd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arki/segment/data/fd.cc b/arki/segment/data/fd.cc
index 216a23f..a61ebe0 100644
--- a/arki/segment/data/fd.cc
+++ b/arki/segment/data/fd.cc
@@ -617,6 +617,8 @@ core::Pending Checker::repack(Collection& mds, const RepackConfig&)
         core::File in(this->segment().abspath(), O_RDONLY);
         core::File out(tmpabspath, O_WRONLY | O_CREAT | O_TRUNC, 0666);
         plan.execute(in, out);
+        out.fdatasync();
+        out.close();
     }
 
     // Release locks on the source segment, which is about to go away
-- 
2.43.0


From 6e20ed6f7493c2b1444a21a6b5c6933208439075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:49 +0000
Subject: [PATCH 15/56] fix: a leftover temporary file does not prevent writing
 metadata

Metadata and summary files are written to a fixed temporary name: if a process
is interrupted while doing it, all later imports and checks of that segment
failed because the file existed
---
 arki/metadata/collection.cc | 2 +-
 arki/segment/metadata.cc    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/metadata/collection.cc b/arki/metadata/collection.cc
index 68157b2..c3f9764 100644
--- a/arki/metadata/collection.cc
+++ b/arki/metadata/collection.cc
@@ -81,7 +81,7 @@ struct AtomicWriter
 
     explicit AtomicWriter(const std::filesystem::path& fname)
         : destfname(fname),
-          out(path_tmp(fname), O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666)
+          out(path_tmp(fname), O_WRONLY | O_TRUNC | O_CREAT, 0666)
     {
     }
 
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 0e37b2e..cf397a6 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -93,9 +93,9 @@ struct AtomicWriterWithSummary
 
     explicit AtomicWriterWithSummary(const Segment& segment)
         : segment(segment), out_md(path_tmp(segment.abspath_metadata()),
-                                   O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666),
+                                   O_WRONLY | O_TRUNC | O_CREAT, 0666),
           out_sum(path_tmp(segment.abspath_summary()),
-                  O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666)
+                  O_WRONLY | O_TRUNC | O_CREAT, 0666)
     {
     }
 
-- 
2.43.0


From e5a0a13057b1336534bbd066cbd1e6382a104b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:32 +0000
Subject: [PATCH 16/56] fix: an interrupted repack does not prevent repacking a
 directory segment

Leftover files in the temporary directory made all later repacks fail
---
 arki/segment/data/dir.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 639c0ef..7294b11 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -762,6 +762,9 @@ core::Pending BaseChecker<Data>::repack(Collection& mds,
     filesystem::path tmpabspath =
         sys::with_suffix(this->segment().abspath(), ".repack");
 
+    // Remove what may have been left by an interrupted repack
+    sys::rmtree_ifexists(tmpabspath);
+
     core::Pending p(new Rename(tmpabspath, this->segment().abspath()));
 
     Creator creator(this->segment(), mds, tmpabspath);
-- 
2.43.0


From 8ae7c5227f55ebe40d343dacce0dcdc16c19dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:55 +0000
Subject: [PATCH 17/56] fix: rolling back a database transaction does not kill
 the process

---
 arki/utils/sqlite.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/arki/utils/sqlite.cc b/arki/utils/sqlite.cc
index 71152f0..0ec5841 100644
--- a/arki/utils/sqlite.cc
+++ b/arki/utils/sqlite.cc
@@ -396,7 +396,6 @@ void SqliteTransaction::commit()
 
 void SqliteTransaction::rollback()
 {
-    abort();
     committer.rollback();
     fired = true;
 }
-- 
2.43.0


From e41ee23ff972d3e080447e4ccf8732d79c35683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:16 +0000
Subject: [PATCH 18/56] fix: a database transaction that cannot be rolled back
 does not end the program

---
 arki/utils/sqlite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/utils/sqlite.h b/arki/utils/sqlite.h
index d8c93b9..1a7a7f3 100644
--- a/arki/utils/sqlite.h
+++ b/arki/utils/sqlite.h
@@ -359,7 +359,7 @@ struct SqliteTransaction : public core::Transaction
     ~SqliteTransaction()
     {
         if (!fired)
-            committer.rollback();
+            rollback_nothrow();
     }
 
     void commit() override;
-- 
2.43.0


From 16dea747a02698df4da8d5fba98848a4011a5c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:32 +0000
Subject: [PATCH 19/56] fix: an interrupted conversion does not leave an
 incomplete segment

---
 arki/segment/data/gz.cc  | 46 +++++++++++++++++++++++++++++++---------
 arki/segment/data/tar.cc |  6 +++++-
 arki/segment/data/zip.cc |  6 +++++-
 3 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/arki/segment/data/gz.cc b/arki/segment/data/gz.cc
index 6cc91d6..14949d9 100644
--- a/arki/segment/data/gz.cc
+++ b/arki/segment/data/gz.cc
@@ -371,19 +371,32 @@ std::shared_ptr<data::Checker> Data::checker() const
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
+    auto gzabspath     = sys::with_suffix(segment.abspath(), ".gz");
+    auto gzidxabspath  = sys::with_suffix(segment.abspath(), ".gz.idx");
+    auto tmpabspath    = sys::with_suffix(gzabspath, ".tmp");
+    auto tmpidxabspath = sys::with_suffix(gzidxabspath, ".tmp");
+    auto finalize      = new files::FinalizeTempfilesTransaction;
+    core::Pending p(finalize);
+    finalize->tmpfiles.push_back(tmpabspath);
+    finalize->tmpfiles.push_back(tmpidxabspath);
+    finalize->on_commit =
+        [&](const std::vector<std::filesystem::path>& tmpfiles) {
+            std::filesystem::rename(tmpfiles[0], gzabspath);
+            sys::rename_ifexists(tmpfiles[1], gzidxabspath);
+        };
+
     if (cfg.gz_group_size == 0)
     {
-        gz::Creator creator(segment, mds,
-                            sys::with_suffix(segment.abspath(), ".gz"));
+        gz::Creator creator(segment, mds, tmpabspath);
         creator.create();
     }
     else
     {
-        gz::Creator creator(
-            segment, mds, sys::with_suffix(segment.abspath(), ".gz"),
-            sys::with_suffix(segment.abspath(), ".gz.idx"), cfg.gz_group_size);
+        gz::Creator creator(segment, mds, tmpabspath, tmpidxabspath,
+                            cfg.gz_group_size);
         creator.create();
     }
+    p.commit();
 
     return std::make_shared<const Data>(segment.shared_from_this());
 }
@@ -414,21 +427,34 @@ std::shared_ptr<data::Checker> Data::checker() const
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
+    auto gzabspath     = sys::with_suffix(segment.abspath(), ".gz");
+    auto gzidxabspath  = sys::with_suffix(segment.abspath(), ".gz.idx");
+    auto tmpabspath    = sys::with_suffix(gzabspath, ".tmp");
+    auto tmpidxabspath = sys::with_suffix(gzidxabspath, ".tmp");
+    auto finalize      = new files::FinalizeTempfilesTransaction;
+    core::Pending p(finalize);
+    finalize->tmpfiles.push_back(tmpabspath);
+    finalize->tmpfiles.push_back(tmpidxabspath);
+    finalize->on_commit =
+        [&](const std::vector<std::filesystem::path>& tmpfiles) {
+            std::filesystem::rename(tmpfiles[0], gzabspath);
+            sys::rename_ifexists(tmpfiles[1], gzidxabspath);
+        };
+
     if (cfg.gz_group_size == 0)
     {
-        gz::Creator creator(segment, mds,
-                            sys::with_suffix(segment.abspath(), ".gz"));
+        gz::Creator creator(segment, mds, tmpabspath);
         creator.padding.push_back('\n');
         creator.create();
     }
     else
     {
-        gz::Creator creator(
-            segment, mds, sys::with_suffix(segment.abspath(), ".gz"),
-            sys::with_suffix(segment.abspath(), ".gz.idx"), cfg.gz_group_size);
+        gz::Creator creator(segment, mds, tmpabspath, tmpidxabspath,
+                            cfg.gz_group_size);
         creator.padding.push_back('\n');
         creator.create();
     }
+    p.commit();
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
diff --git a/arki/segment/data/tar.cc b/arki/segment/data/tar.cc
index a81cd5a..cb77c74 100644
--- a/arki/segment/data/tar.cc
+++ b/arki/segment/data/tar.cc
@@ -163,8 +163,12 @@ bool Data::can_store(DataFormat format) { return true; }
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
-    Creator creator(segment, mds, sys::with_suffix(segment.abspath(), ".tar"));
+    auto tarabspath = sys::with_suffix(segment.abspath(), ".tar");
+    auto tmpabspath = sys::with_suffix(tarabspath, ".tmp");
+    core::Pending p(new files::RenameTransaction(tmpabspath, tarabspath));
+    Creator creator(segment, mds, tmpabspath);
     creator.create();
+    p.commit();
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
diff --git a/arki/segment/data/zip.cc b/arki/segment/data/zip.cc
index 4bfa45e..d9fdfc4 100644
--- a/arki/segment/data/zip.cc
+++ b/arki/segment/data/zip.cc
@@ -276,8 +276,12 @@ bool Data::can_store(DataFormat) { return true; }
 std::shared_ptr<const Data> Data::create(const Segment& segment,
                                          Collection& mds, const RepackConfig&)
 {
-    Creator creator(segment, mds, sys::with_suffix(segment.abspath(), ".zip"));
+    auto zipabspath = sys::with_suffix(segment.abspath(), ".zip");
+    auto tmpabspath = sys::with_suffix(zipabspath, ".tmp");
+    core::Pending p(new files::RenameTransaction(tmpabspath, zipabspath));
+    Creator creator(segment, mds, tmpabspath);
     creator.create();
+    p.commit();
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
-- 
2.43.0


From e57087f654ea13ba2e50b3952edfe84973b639cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 20/56] fix: scanning a compressed segment does not leave or
 show an uncompressed file in its place

---
 arki/segment/data/gz.cc |  6 +++---
 arki/utils/compress.cc  | 23 +++++++++++++++++------
 arki/utils/compress.h   |  5 +++--
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/arki/segment/data/gz.cc b/arki/segment/data/gz.cc
index 14949d9..74ec3c1 100644
--- a/arki/segment/data/gz.cc
+++ b/arki/segment/data/gz.cc
@@ -174,12 +174,12 @@ template <typename Data> bool Reader<Data>::scan_data(metadata_dest_func dest)
     const auto& segment = this->segment();
     auto scanner        = arki::data::Scanner::get(segment.format());
     compress::TempUnzip uncompressed(segment.abspath());
-    auto uncompressed_reader = segment.reader(this->lock);
+    auto segment_reader = segment.reader(this->lock);
     return scanner->scan_file_multi(
-        segment.abspath(), [&](std::shared_ptr<Metadata> md, off_t offset,
+        uncompressed.fname, [&](std::shared_ptr<Metadata> md, off_t offset,
                                std::vector<uint8_t>&& data) {
             md->set_source(
-                Source::createBlob(uncompressed_reader, offset, data.size()));
+                Source::createBlob(segment_reader, offset, data.size()));
             md->set_cached_data(metadata::DataManager::get().to_data(
                 segment.format(), std::move(data)));
             return dest(md);
diff --git a/arki/utils/compress.cc b/arki/utils/compress.cc
index 8540afd..6692064 100644
--- a/arki/utils/compress.cc
+++ b/arki/utils/compress.cc
@@ -166,17 +166,28 @@ std::vector<uint8_t> gunzip(const std::filesystem::path& abspath,
     return res;
 }
 
-TempUnzip::TempUnzip(const std::filesystem::path& fname) : fname(fname)
+TempUnzip::TempUnzip(const std::filesystem::path& orig)
 {
     // zcat gzfname > fname
-    auto gzfname = sys::with_suffix(fname, ".gz");
+    auto gzfname = sys::with_suffix(orig, ".gz");
     sys::File rdfd(gzfname, O_RDONLY);
 
-    sys::File wrfd(fname, O_WRONLY | O_CREAT | O_EXCL, 0666);
+    // Use a name of its own: while a file with the name of the uncompressed
+    // segment exists, it is used instead of the compressed one
+    sys::File wrfd = sys::File::mkstemp(sys::with_suffix(orig, ".tmp"));
+    fname          = wrfd.path();
 
-    gunzip(rdfd, gzfname, wrfd, fname);
-    rdfd.close();
-    wrfd.close();
+    try
+    {
+        gunzip(rdfd, gzfname, wrfd, fname);
+        rdfd.close();
+        wrfd.close();
+    }
+    catch (...)
+    {
+        ::unlink(fname.c_str());
+        throw;
+    }
 
     // Set the same timestamp as the compressed file
     std::unique_ptr<struct stat> st = sys::stat(gzfname);
diff --git a/arki/utils/compress.h b/arki/utils/compress.h
index 161841d..e8523f5 100644
--- a/arki/utils/compress.h
+++ b/arki/utils/compress.h
@@ -93,13 +93,14 @@ std::vector<uint8_t> gunzip(const std::filesystem::path& abspath,
  */
 struct TempUnzip
 {
+    /// Path to the uncompressed version
     std::filesystem::path fname;
 
     /**
-     * @param fname
+     * @param orig
      *   Refers to the uncompressed file name (i.e. without the trailing .gz)
      */
-    TempUnzip(const std::filesystem::path& fname);
+    TempUnzip(const std::filesystem::path& orig);
     ~TempUnzip();
 };
 
-- 
2.43.0


From c31234c501f058554416f49558b745f357654e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 21/56] fix: checking a directory segment does not open its
 sequence file for writing

---
 arki/segment/data/dir.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 7294b11..c83a827 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -184,8 +184,8 @@ struct CheckBackend : public AppendCheckBackend
         size_t cur_sequence = 0;
         {
             SequenceFile sf(segment.abspath());
-            sf.open();
-            cur_sequence = sf.read_sequence();
+            if (sf.open_ifexists(O_RDONLY | O_CLOEXEC))
+                cur_sequence = sf.read_sequence();
         }
 
         scanner.list_files();
-- 
2.43.0


From 1f3fe98239f15f1c71ceb685b164159d5919ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 22/56] fix: removing old data does not remove all the data in
 archives

---
 arki/dataset/archive.cc   | 2 +-
 arki/dataset/segmented.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/archive.cc b/arki/dataset/archive.cc
index 50b8cfb..236e080 100644
--- a/arki/dataset/archive.cc
+++ b/arki/dataset/archive.cc
@@ -400,7 +400,7 @@ void Checker::segments_recursive(
 void Checker::remove_old(CheckerConfig& opts)
 {
     archives->iter([&](dataset::Checker& a) {
-        a.remove_all(opts);
+        a.remove_old(opts);
         return true;
     });
 }
diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 134e204..14790d6 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -377,7 +377,7 @@ void Checker::remove_old(CheckerConfig& opts)
         }
     });
 
-    local::Checker::remove_all(opts);
+    local::Checker::remove_old(opts);
 }
 
 void Checker::remove_all(CheckerConfig& opts)
-- 
2.43.0


From fa0b3b0af1f355a8ba0e606fbc95534ca9fc1c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 23/56] fix: let the time range of a match expression span all
 its alternatives

With reftime:A or B the range used to select segments and index rows was the
intersection of A and B, so that datasets found nothing
---
 arki/matcher/utils.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index d0ed774..740a6b5 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -1,6 +1,7 @@
 #include "utils.h"
 #include "aliases.h"
 #include "arki/core/binary.h"
+#include "arki/core/time.h"
 #include "arki/metadata.h"
 #include "arki/types.h"
 #include "arki/types/itemset.h"
@@ -193,14 +194,30 @@ std::string OR::toStringValueOnlyExpanded() const
 
 bool OR::intersect_interval(core::Interval& interval) const
 {
+    if (components.empty())
+        return true;
+
+    // Any of the components can match: use the smallest interval that spans
+    // what each of them leaves of the original
+    core::Interval res;
+    bool found = false;
     for (auto i : components)
     {
         const matcher::MatchReftime* rt =
             dynamic_cast<const matcher::MatchReftime*>(i.get());
         assert(rt != nullptr);
-        if (!rt->intersect_interval(interval))
-            return false;
+        core::Interval part(interval);
+        if (!rt->intersect_interval(part))
+            continue;
+        if (found)
+            res.extend(part);
+        else
+            res = part;
+        found = true;
     }
+    if (!found)
+        return false;
+    interval = res;
     return true;
 }
 
-- 
2.43.0


From c0cf421afb133b45c3c46f329873572f8dbe38c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 24/56] fix: honour the requested order when data comes from a
 function

arki-scan --sort reading from standard input ignored the order
---
 arki/dataset/fromfunction.cc | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/arki/dataset/fromfunction.cc b/arki/dataset/fromfunction.cc
index bb82dcf..25408ad 100644
--- a/arki/dataset/fromfunction.cc
+++ b/arki/dataset/fromfunction.cc
@@ -1,5 +1,6 @@
 #include "fromfunction.h"
 #include "arki/core/time.h"
+#include "arki/metadata/sort.h"
 #include "arki/query.h"
 #include "arki/query/progress.h"
 
@@ -18,11 +19,24 @@ bool Reader::impl_query_data(const query::Data& q, metadata_dest_func dest)
 {
     query::TrackProgress track(q.progress);
     dest = track.wrap(dest);
-    return track.done(generator([&](std::shared_ptr<Metadata> md) {
-        if (!q.matcher(*md))
-            return true;
-        return dest(md);
-    }));
+
+    // Wrap with a stream sorter if we need sorting
+    std::unique_ptr<metadata::sort::Stream> sorter;
+    if (q.sorter)
+        sorter = std::make_unique<metadata::sort::Stream>(*q.sorter, dest);
+
+    if (!generator([&](std::shared_ptr<Metadata> md) {
+            if (!q.matcher(*md))
+                return true;
+            if (sorter)
+                return sorter->add(md);
+            return dest(md);
+        }))
+        return track.done(false);
+
+    if (sorter)
+        return track.done(sorter->flush());
+    return track.done(true);
 }
 
 core::Interval Reader::get_stored_time_interval()
-- 
2.43.0


From ba3b6434323cb48c4cc91975618d73d458b4b718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 25/56] fix: sort inside intervals, with intervals in order of
 time

---
 arki/metadata/sort.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/arki/metadata/sort.cc b/arki/metadata/sort.cc
index 19df1f6..0e68b7b 100644
--- a/arki/metadata/sort.cc
+++ b/arki/metadata/sort.cc
@@ -111,8 +111,32 @@ struct IntervalCompare : public Items
 
     Interval interval() const override { return m_interval; }
 
+    /// Beginning of the interval the metadata is in
+    Time period(const Reftime& reftime) const
+    {
+        Time res = reftime.get_Position();
+        switch (m_interval)
+        {
+            case YEAR:   res.mo = 1; // Falls through
+            case MONTH:  res.da = 1; // Falls through
+            case DAY:    res.ho = 0; // Falls through
+            case HOUR:   res.mi = 0; // Falls through
+            case MINUTE: res.se = 0; // Falls through
+            case NONE:   break;
+        }
+        return res;
+    }
+
     int compare(const Metadata& a, const Metadata& b) const override
     {
+        // Intervals come in order of time, and data is sorted inside them
+        const Reftime* ra = a.get<Reftime>();
+        const Reftime* rb = b.get<Reftime>();
+        if (!ra != !rb)
+            return ra ? 1 : -1;
+        if (ra)
+            if (int res = period(*ra).compare(period(*rb)))
+                return res;
         return Items::compare(a, b);
     }
 
-- 
2.43.0


From a15c391f996b8317b4e72946a0f283b84d1faa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 26/56] fix: order what comes from different segments and
 archives as requested

---
 arki/dataset.cc | 16 ++++++++++++++++
 arki/dataset.h  |  5 +----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/arki/dataset.cc b/arki/dataset.cc
index 2843cce..cc73f3e 100644
--- a/arki/dataset.cc
+++ b/arki/dataset.cc
@@ -6,6 +6,7 @@
 #include "arki/metadata.h"
 #include "arki/metadata/data.h"
 #include "arki/metadata/postprocess.h"
+#include "arki/metadata/sort.h"
 #include "arki/query.h"
 #include "arki/stream.h"
 #include "arki/stream/filter.h"
@@ -175,6 +176,21 @@ bool Reader::query_data(const std::string& q, metadata_dest_func dest)
     return impl_query_data(dq, dest);
 }
 
+bool Reader::query_data(const query::Data& q, metadata_dest_func dest)
+{
+    if (!q.sorter)
+        return impl_query_data(q, dest);
+
+    // Datasets order the data of each of their segments: put in order what
+    // comes from different segments, or from archives
+    metadata::sort::Stream sorter(*q.sorter, dest);
+    if (!impl_query_data(q, [&](std::shared_ptr<Metadata> md) {
+            return sorter.add(md);
+        }))
+        return false;
+    return sorter.flush();
+}
+
 void Reader::query_summary(const std::string& matcher, Summary& summary)
 {
     impl_query_summary(dataset().session->matcher(matcher), summary);
diff --git a/arki/dataset.h b/arki/dataset.h
index e07a138..d169969 100644
--- a/arki/dataset.h
+++ b/arki/dataset.h
@@ -188,10 +188,7 @@ public:
      * Returns true if dest always returned true, false if iteration stopped
      * because dest returned false.
      */
-    bool query_data(const query::Data& q, metadata_dest_func dest)
-    {
-        return impl_query_data(q, dest);
-    }
+    bool query_data(const query::Data& q, metadata_dest_func dest);
 
     /**
      * Add to summary the summary of the data that would be extracted with the
-- 
2.43.0


From 05ae9a0d4b7bab36b1ea5eb175c01a82ac3d5bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 27/56] fix: weekly and biweekly segments have a period and can
 be listed

---
 arki/dataset/step.cc | 127 +++++++++++++++++++++++++++++++++----------
 1 file changed, 99 insertions(+), 28 deletions(-)

diff --git a/arki/dataset/step.cc b/arki/dataset/step.cc
index 62cb1a0..f00adbf 100644
--- a/arki/dataset/step.cc
+++ b/arki/dataset/step.cc
@@ -251,6 +251,81 @@ struct MonthDayFiles : public BaseFiles
     }
 };
 
+/// Part of a month that is stored in the given weekly segment
+static core::Interval weekly_period(int year, int month, int week)
+{
+    core::Time begin =
+        core::Time::create_lowerbound(year, month, (week - 1) * 7 + 1);
+    core::Time end   = begin;
+    end.da += 7;
+    end.normalise();
+    // The last week ends with the month
+    return core::Interval(begin, min(end, begin.start_of_next_month()));
+}
+
+/// Part of a month that is stored in the given biweekly segment
+static core::Interval biweekly_period(int year, int month, int biweek)
+{
+    core::Time begin =
+        core::Time::create_lowerbound(year, month, biweek == 1 ? 1 : 16);
+    if (biweek == 1)
+        return core::Interval(
+            begin, core::Time::create_lowerbound(year, month, 16));
+    return core::Interval(begin, begin.start_of_next_month());
+}
+
+/// Segments named with the month and the number of a part of it
+struct MonthPartFiles : public BaseFiles
+{
+    using BaseFiles::BaseFiles;
+
+    virtual std::string parts() const                          = 0;
+    virtual core::Interval period(int month, int part) const = 0;
+
+    std::unique_ptr<Regexp> make_regexp() const override
+    {
+        string re = "^(([[:digit:]]{2})-(" + parts() + ")\\.([^.]+))" +
+                    dirs.query.extension_re;
+        return unique_ptr<Regexp>(new ERegexp(re, 5));
+    }
+
+    core::Interval to_period(const Regexp& re) const override
+    {
+        return period(std::stoul(re[2]), std::stoul(re[3]));
+    }
+
+    DataFormat to_format(const Regexp& re) const override
+    {
+        return format_from_string(re[4]);
+    }
+    std::filesystem::path to_relpath(const Regexp& re) const override
+    {
+        return re[1];
+    }
+};
+
+struct WeeklyFiles : public MonthPartFiles
+{
+    using MonthPartFiles::MonthPartFiles;
+
+    std::string parts() const override { return "[1-5]"; }
+    core::Interval period(int month, int part) const override
+    {
+        return weekly_period(value, month, part);
+    }
+};
+
+struct BiweeklyFiles : public MonthPartFiles
+{
+    using MonthPartFiles::MonthPartFiles;
+
+    std::string parts() const override { return "[12]"; }
+    core::Interval period(int month, int part) const override
+    {
+        return biweekly_period(value, month, part);
+    }
+};
+
 Dirs::Dirs(const SegmentQuery& query) : query(query) {}
 
 struct BaseDirs : public Dirs
@@ -648,26 +723,22 @@ struct Biweekly : public BaseStep
 {
     static const char* name() { return "biweekly"; }
 
+    std::unique_ptr<step::Dirs>
+    explore(const step::SegmentQuery& query) const override
+    {
+        return std::unique_ptr<step::Dirs>(
+            new step::YearDirs<step::BiweeklyFiles>(query));
+    }
+
     bool path_timespan(const std::filesystem::path& path,
                        core::Interval& interval) const override
     {
-        int ye, mo = -1, biweek = -1;
-        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &biweek) != 2)
+        int ye, mo, biweek;
+        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &biweek) != 3)
             return false;
-
-        switch (biweek)
-        {
-            case 1:
-                interval.begin.set_lowerbound(ye, mo, 1);
-                interval.end.set_lowerbound(ye, mo, 15);
-                break;
-            case 2:
-                interval.begin.set_lowerbound(ye, mo, 15);
-                interval.end.set_lowerbound(ye, mo + 1, 1);
-                interval.end.normalise();
-                break;
-            default: break;
-        }
+        if (biweek < 1 || biweek > 2)
+            return false;
+        interval = step::biweekly_period(ye, mo, biweek);
         return true;
     }
 
@@ -687,22 +758,22 @@ struct Weekly : public BaseStep
 {
     static const char* name() { return "weekly"; }
 
+    std::unique_ptr<step::Dirs>
+    explore(const step::SegmentQuery& query) const override
+    {
+        return std::unique_ptr<step::Dirs>(
+            new step::YearDirs<step::WeeklyFiles>(query));
+    }
+
     bool path_timespan(const std::filesystem::path& path,
                        core::Interval& interval) const override
     {
-        int ye, mo = -1, week = -1;
-        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &week) != 2)
+        int ye, mo, week;
+        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &week) != 3)
             return false;
-        int min_da = -1;
-        int max_da = -1;
-        if (week != -1)
-        {
-            min_da = (week - 1) * 7 + 1;
-            max_da = min_da + 7;
-        }
-        // TODO: are these normalised?
-        interval.begin.set_lowerbound(ye, mo, min_da);
-        interval.end.set_lowerbound(ye, mo, max_da);
+        if (week < 1 || week > 5)
+            return false;
+        interval = step::weekly_period(ye, mo, week);
         return true;
     }
 
-- 
2.43.0


From 46a2e670da9034f6c1db82aa5a888accedff72aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 28/56] fix: read back ODIMH5 products with empty strings

A product ODIMH5 with empty object and product strings takes 3 bytes, but
decoding it insisted on at least 4.
---
 arki/types/product.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/types/product.cc b/arki/types/product.cc
index 6f973d8..bb6c409 100644
--- a/arki/types/product.cc
+++ b/arki/types/product.cc
@@ -206,7 +206,7 @@ unique_ptr<Product> Product::decode(core::BinaryDecoder& dec, bool reuse_buffer)
             dec.skip(dec.size);
             break;
         case product::Style::ODIMH5:
-            dec.ensure_size(4, "ODIMH5 data");
+            dec.ensure_size(3, "ODIMH5 data");
             if (reuse_buffer)
                 res.reset(new product::ODIMH5(dec.buf, dec.size, false));
             else
-- 
2.43.0


From b5277e47046fa6c3d2266f8f2a6c4d72bd1d2f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 29/56] fix: check the size of metadata in groups before
 reading it

A corrupt group could declare metadata longer than what is left of it, which
was then read out of bounds.
---
 arki/core/binary.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arki/core/binary.cc b/arki/core/binary.cc
index 70e1fbc..675654d 100644
--- a/arki/core/binary.cc
+++ b/arki/core/binary.cc
@@ -100,6 +100,7 @@ BinaryDecoder BinaryDecoder::pop_metadata_bundle(std::string& signature,
     // Get length from next 4 bytes
     size_t len = pop_uint(4, "size of metadata bundle");
 
+    ensure_size(len, "metadata bundle");
     BinaryDecoder res(buf, len);
 
     // Move to the end of the inner data
-- 
2.43.0


From a9bf18be49cb06fbbf4a60523a36c805e7828683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 30/56] fix: refuse items with an unknown type code

Codes found in stored data were used as index of the table of decoders
without checking that they are in it.
---
 arki/types/utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/types/utils.cc b/arki/types/utils.cc
index 813a55d..b927116 100644
--- a/arki/types/utils.cc
+++ b/arki/types/utils.cc
@@ -47,7 +47,7 @@ void MetadataType::register_type(MetadataType* type)
 
 const MetadataType* MetadataType::get(types::Code code)
 {
-    if (!decoders || decoders[code] == 0)
+    if (!decoders || (size_t)code >= decoders_size || decoders[code] == 0)
     {
         stringstream ss;
         ss << "cannot parse binary data: no decoder found for item type "
-- 
2.43.0


From 4fec54bccec1aed9217879c2f19e80f6a0d83d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 31/56] fix: refuse version 1 summaries with too many items

They were written past the end of the row.
---
 arki/summary/codec.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arki/summary/codec.cc b/arki/summary/codec.cc
index f4f1baa..f20f1bf 100644
--- a/arki/summary/codec.cc
+++ b/arki/summary/codec.cc
@@ -71,7 +71,13 @@ struct Format1Decoder : public DecoderBase
 
         // Decode the metadata stripe
         for (size_t i = 0; i < stripelen; ++i)
-            row.items[scanpos + i] = decodeUItem(scanpos + i, dec);
+        {
+            size_t pos = scanpos + i;
+            if (pos >= row.items.size())
+                throw std::runtime_error("cannot parse summary: found more "
+                                         "items than a summary can have");
+            row.items[pos] = decodeUItem(pos, dec);
+        }
 
         size_t childnum = dec.pop_uint(2, "Number of child stripes");
         codeclog("Found " << childnum << " children");
-- 
2.43.0


From 6c0685f5af68e0b2d2288c0a7d36db9cfb48dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 32/56] fix: read 64 bit sizes from the index of compressed
 data

pop_uint only has 32 bits and shifts the others out of range.
---
 arki/utils/compress.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arki/utils/compress.cc b/arki/utils/compress.cc
index 6692064..4a17a57 100644
--- a/arki/utils/compress.cc
+++ b/arki/utils/compress.cc
@@ -233,8 +233,8 @@ void SeekIndex::read(sys::File& fd)
     core::BinaryDecoder dec(diskidx);
     for (size_t i = 0; i < idxcount; ++i)
     {
-        ofs_unc.push_back(ofs_unc[i] + dec.pop_uint(8, "uncompressed index"));
-        ofs_comp.push_back(ofs_comp[i] + dec.pop_uint(8, "compressed index"));
+        ofs_unc.push_back(ofs_unc[i] + dec.pop_ulint(8, "uncompressed index"));
+        ofs_comp.push_back(ofs_comp[i] + dec.pop_ulint(8, "compressed index"));
     }
 }
 
-- 
2.43.0


From c8c8ea994c1d4c1bb68de37b3a46790e57e09740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 33/56] fix: do not truncate 64bit differences when comparing
 sources and GRIB2 timeranges

---
 arki/types/source/blob.cc   | 9 ++++++---
 arki/types/source/inline.cc | 5 ++++-
 arki/types/timerange.cc     | 9 ++++++---
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/arki/types/source/blob.cc b/arki/types/source/blob.cc
index 6eb6b23..c35d1dd 100644
--- a/arki/types/source/blob.cc
+++ b/arki/types/source/blob.cc
@@ -76,9 +76,12 @@ int Blob::compare_local(const Source& o) const
         return -1;
     if (filename > v->filename)
         return 1;
-    if (int res = offset - v->offset)
-        return res;
-    return size - v->size;
+    // These are 64bit unsigned values: their difference may not fit in an int
+    if (offset != v->offset)
+        return offset < v->offset ? -1 : 1;
+    if (size != v->size)
+        return size < v->size ? -1 : 1;
+    return 0;
 }
 
 bool Blob::equals(const Type& o) const
diff --git a/arki/types/source/inline.cc b/arki/types/source/inline.cc
index 01192e9..bf8df1e 100644
--- a/arki/types/source/inline.cc
+++ b/arki/types/source/inline.cc
@@ -55,7 +55,10 @@ int Inline::compare_local(const Source& o) const
             string("second element claims to be a Inline Source, but is a ") +
                 typeid(&o).name() + " instead");
 
-    return size - v->size;
+    // This is a 64bit unsigned value: the difference may not fit in an int
+    if (size != v->size)
+        return size < v->size ? -1 : 1;
+    return 0;
 }
 bool Inline::equals(const Type& o) const
 {
diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index 25515f7..946d285 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -1367,9 +1367,12 @@ int GRIB2::compare_local(const GRIB2& o) const
         return res;
     if (int res = un - vun)
         return res;
-    if (int res = p1 - vp1)
-        return res;
-    return p2 - vp2;
+    // The difference of these values may not fit in an int
+    if (p1 != vp1)
+        return p1 < vp1 ? -1 : 1;
+    if (p2 != vp2)
+        return p2 < vp2 ? -1 : 1;
+    return 0;
 }
 
 std::ostream& GRIB2::writeToOstream(std::ostream& o) const
-- 
2.43.0


From 3f1d7a01bd1eb9228b83584de709e0815206f01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 34/56] fix: evaluate all the conditions of timedef matches on
 data without a forecast step

---
 arki/matcher/timerange.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/timerange.cc b/arki/matcher/timerange.cc
index 9866f5c..1af26b0 100644
--- a/arki/matcher/timerange.cc
+++ b/arki/matcher/timerange.cc
@@ -470,8 +470,11 @@ bool MatchTimerangeTimedef::matchItem(const Type& o) const
         int v_step;
         bool v_is_seconds;
         if (!v->get_forecast_step(v_step, v_is_seconds))
-            return step.value == -1;
-        if (step.value != v_step || step_is_seconds != v_is_seconds)
+        {
+            if (step.value != -1)
+                return false;
+        }
+        else if (step.value != v_step || step_is_seconds != v_is_seconds)
             return false;
     }
 
-- 
2.43.0


From 9eb00086f0571345fee795bcb3d9c45bef7dfc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 35/56] fix: do not silently ignore repeated groups of
 expressions in a matcher

---
 arki/matcher/utils.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index 740a6b5..ec37bab 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -529,8 +529,13 @@ unique_ptr<AND> AND::parse(const AliasDatabase& aliases,
                 "cannot parse matcher subexpression: unknown match type: '" +
                 type + "'");
 
-        res->components.insert(
-            make_pair(mt->code, OR::parse(aliases.get(type), *mt, patterns)));
+        if (!res->components
+                 .insert(make_pair(mt->code, OR::parse(aliases.get(type), *mt,
+                                                       patterns)))
+                 .second)
+            throw std::invalid_argument(
+                "cannot parse matcher: match type '" + type +
+                "' is used in more than one group of expressions");
     }
 
     return res;
-- 
2.43.0


From 6cc346d424dbaea393e925fff5400922f2964e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 36/56] fix: match time of day expressions with all intervals
 that contain a matching time

---
 arki/matcher/reftime/parser.cc | 71 ++++++++++++----------------------
 1 file changed, 24 insertions(+), 47 deletions(-)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index 8d026ac..1a1413a 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -66,6 +66,25 @@ static int time_to_seconds(const Time& t)
     return t.ho * 3600 + t.mi * 60 + t.se;
 }
 
+/**
+ * Check if a time interval contains a time of day between first and last
+ * (inclusive), in seconds since midnight
+ */
+static bool contains_time_of_day(const Interval& interval, int first, int last)
+{
+    // If the times are more than 24hours apart, then we necessarily cover a
+    // whole day
+    if (Time::duration(interval) >= 3600 * 24)
+        return true;
+
+    int rb = time_to_seconds(interval.begin);
+    int re = time_to_seconds(interval.end);
+    if (rb <= re)
+        return rb <= last && first <= re;
+    // The interval crosses midnight
+    return rb <= last || first <= re;
+}
+
 struct DateInterval : public DTMatch
 {
     Interval interval;
@@ -153,13 +172,7 @@ struct TimeLE : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) <= ref)
-            return true;
-        if (time_to_seconds(interval.end) <= ref)
-            return true;
-        return false;
+        return contains_time_of_day(interval, 0, ref);
     }
     string sql(const std::string& column) const override
     {
@@ -178,13 +191,7 @@ struct TimeLT : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) < ref)
-            return true;
-        if (time_to_seconds(interval.end) < ref)
-            return true;
-        return false;
+        return contains_time_of_day(interval, 0, ref - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -203,13 +210,7 @@ struct TimeGT : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) > ref)
-            return true;
-        if (time_to_seconds(interval.end) > ref)
-            return true;
-        return false;
+        return contains_time_of_day(interval, ref + 1, 3600 * 24 - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -228,13 +229,7 @@ struct TimeGE : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) >= ref)
-            return true;
-        if (time_to_seconds(interval.end) >= ref)
-            return true;
-        return false;
+        return contains_time_of_day(interval, ref, 3600 * 24 - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -260,25 +255,7 @@ struct TimeEQ : public DTMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        // If the times are more than 24hours apart, then we necessarily cover a
-        // whole day
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-
-        int rb = time_to_seconds(interval.begin);
-        int re = time_to_seconds(interval.end);
-        if (rb <= re)
-        {
-            if (rb <= geref && leref <= re)
-                return true;
-        }
-        else
-        {
-            if (leref <= re || rb <= geref)
-                return true;
-        }
-
-        return false;
+        return contains_time_of_day(interval, geref, leref);
     }
     string sql(const std::string& column) const override
     {
-- 
2.43.0


From 89672d31b1195b4cc1d52fe36482113fa53d3e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 37/56] fix: do not dispatch data left from a source that
 failed together with the next one

---
 arki/python/arki-scan/dispatch.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arki/python/arki-scan/dispatch.cc b/arki/python/arki-scan/dispatch.cc
index 8d6f654..185f012 100644
--- a/arki/python/arki-scan/dispatch.cc
+++ b/arki/python/arki-scan/dispatch.cc
@@ -44,6 +44,11 @@ DispatchResults MetadataDispatch::process(dataset::Reader& ds,
 
     results->clear();
 
+    // Discard what is left of previous sources that failed to be read or
+    // dispatched
+    partial_batch->clear();
+    partial_batch_data_size = 0;
+
     copyok_stream.reset();
     if (!dir_copyok.empty())
         copyok = std::make_shared<core::File>(dir_copyok / name.filename());
-- 
2.43.0


From c7f117b84dc148763d7ccde918221258f7211f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 38/56] fix: arki-scan --ignore-duplicates is not an error when
 all the data is duplicated

---
 arki/python/arki-scan.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/python/arki-scan.cc b/arki/python/arki-scan.cc
index e224284..09191ec 100644
--- a/arki/python/arki-scan.cc
+++ b/arki/python/arki-scan.cc
@@ -298,7 +298,7 @@ compute_result(bool all_processed, bool ignore_duplicates,
             have_issues = true;
             continue;
         }
-        if (!res.successful)
+        if (!res.successful && !res.duplicates)
         {
             have_issues = true;
             continue;
-- 
2.43.0


From dba34b093adec36ce317537b556b9dc2260af56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 39/56] fix: dispatch duplicates to the error dataset when
 there is no duplicates dataset

---
 arki/dispatcher.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arki/dispatcher.cc b/arki/dispatcher.cc
index 8303dc9..393ffaf 100644
--- a/arki/dispatcher.cc
+++ b/arki/dispatcher.cc
@@ -168,8 +168,10 @@ void Dispatcher::dispatch(metadata::InboundBatch& batch,
             }
     }
 
-    raw_dispatch_dataset("duplicates", duplicate_batch,
-                         drop_cached_data_on_commit);
+    // If there is no duplicates dataset, use the error dataset instead
+    if (pool->has_dataset("duplicates"))
+        raw_dispatch_dataset("duplicates", duplicate_batch,
+                             drop_cached_data_on_commit);
     for (auto& e : duplicate_batch)
         if (e->result != metadata::Inbound::Result::OK)
             // If insertion in the duplicates dataset failed, insert in the
-- 
2.43.0


From f222f2f96a356f026da3824b49495294a268c29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 40/56] fix: remove data from the segment that its source names

Checker::remove computed the segment from the reference time, ignoring the
file name in the source. Data in the archive was looked for among online
segments, so other data could be removed in its place, and data in
compressed, tar or zip segments was silently not removed.
---
 arki/dataset/segmented.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 14790d6..93a863e 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -420,12 +420,14 @@ void Checker::remove(const metadata::Collection& mds)
                 source->basedir.native() + " but this dataset is at " +
                 dataset().path.native());
 
-        core::Time time = md->get<types::reftime::Position>()->get_Position();
-        auto relpath    = sys::with_suffix(dataset().step()(time),
-                                           "."s + format_name(source->format));
+        // The source tells which segment has the data: it can be compressed, or
+        // it can come from a different step than the one currently configured
+        const auto& relpath = source->filename;
 
-        if (!dataset().segment_session->is_segment(relpath))
-            continue;
+        if (!relpath.empty() && *relpath.begin() == ".archive")
+            throw std::runtime_error(
+                "cannot remove metadata from dataset: " + relpath.native() +
+                " is archived");
 
         by_segment[relpath].emplace(source->offset);
     }
@@ -434,6 +436,8 @@ void Checker::remove(const metadata::Collection& mds)
     {
         auto segment = dataset().segment_session->segment_from_relpath(i.first);
         auto seg     = this->segment(segment);
+        if (!seg->segment_checker->has_data())
+            continue;
         seg->remove_data(i.second);
         arki::nag::verbose("%s: %s: %zu data marked as deleted", name().c_str(),
                            i.first.c_str(), i.second.size());
-- 
2.43.0


From 9fd4b8485859909cc06a1ab9b7ef04f38fea4c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 41/56] fix: wait for the threads of a merged query before
 destroying what they use

The base class destructor joined the thread after the members of the derived
class were already gone, and a thread waiting for room in the queue was never
released: a query that failed to start all of its threads, or failed while
merging their results, would hang or crash.
---
 arki/dataset/merged.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/arki/dataset/merged.cc b/arki/dataset/merged.cc
index 5524d81..393520b 100644
--- a/arki/dataset/merged.cc
+++ b/arki/dataset/merged.cc
@@ -135,6 +135,17 @@ public:
     SyncBuffer mdbuf;
 
     MetadataReader() {}
+    ~MetadataReader()
+    {
+        // The thread uses our members: make sure it ends before they are
+        // destroyed, also if it is waiting for room in mdbuf
+        if (!thread.joinable())
+            return;
+        stop_producing();
+        while (mdbuf.get())
+            mdbuf.pop();
+        thread.join();
+    }
 
     void main() override
     {
@@ -175,6 +186,13 @@ public:
     string errorbuf;
 
     SummaryReader() {}
+    ~SummaryReader()
+    {
+        // The thread uses our members: make sure it ends before they are
+        // destroyed
+        if (thread.joinable())
+            thread.join();
+    }
 
     void main() override
     {
-- 
2.43.0


From 83e401ed28afa7bd3ffb01eb329a4b57e9014c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 42/56] fix: accept replace = usn as documented

Documentation asks for replace = usn, but only the uppercase spelling was
accepted, and opening a dataset configured as documented failed.
---
 arki/dataset/segmented.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 93a863e..d493d9d 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -77,7 +77,7 @@ Dataset::Dataset(std::shared_ptr<Session> session,
     string repl = cfg.value("replace");
     if (repl == "yes" || repl == "true" || repl == "always")
         default_replace_strategy = ReplaceStrategy::ALWAYS;
-    else if (repl == "USN")
+    else if (repl == "USN" || repl == "usn")
         default_replace_strategy = ReplaceStrategy::HIGHER_USN;
     else if (repl == "" || repl == "no" || repl == "never")
         default_replace_strategy = ReplaceStrategy::NEVER;
-- 
2.43.0


From 44d1ee2048f44d75381f207e511d918ef1cd72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 43/56] fix: convert the data format while the Python lock is
 held

dataformat_from_python was evaluated after ReleaseGIL.
---
 arki/python/arki-query.cc | 4 ++--
 arki/python/arki-scan.cc  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/arki/python/arki-query.cc b/arki/python/arki-query.cc
index 2389b66..925abc6 100644
--- a/arki/python/arki-query.cc
+++ b/arki/python/arki-query.cc
@@ -66,12 +66,12 @@ struct query_file : public MethKwargs<query_file, arkipy_ArkiQuery>
             };
 
             bool all_successful = true;
+            auto data_format = dataformat_from_python(format);
             {
                 BinaryInputFile in(file);
                 ReleaseGIL rg;
                 all_successful =
-                    foreach_file(self->pool->session(), in,
-                                 dataformat_from_python(format), dest);
+                    foreach_file(self->pool->session(), in, data_format, dest);
                 self->processor->end();
             }
 
diff --git a/arki/python/arki-scan.cc b/arki/python/arki-scan.cc
index 09191ec..c57e532 100644
--- a/arki/python/arki-scan.cc
+++ b/arki/python/arki-scan.cc
@@ -225,11 +225,12 @@ struct scan_file : public MethKwargs<scan_file, arkipy_ArkiScan>
         try
         {
             bool all_successful;
+            auto data_format = dataformat_from_python(format);
             {
                 BinaryInputFile in(file);
                 ReleaseGIL rg;
                 all_successful = foreach_file(
-                    self->pool->session(), in, dataformat_from_python(format),
+                    self->pool->session(), in, data_format,
                     [&](arki::dataset::Reader& reader) {
                         self->processor->process(reader, reader.name());
                     });
@@ -337,12 +338,13 @@ struct dispatch_file : public MethKwargs<dispatch_file, arkipy_ArkiScan>
         {
             std::vector<arki_scan::DispatchResults> results;
             bool all_processed = false;
+            auto data_format = dataformat_from_python(format);
             {
                 BinaryInputFile in(file);
                 ReleaseGIL rg;
 
                 all_processed = foreach_file(
-                    self->pool->session(), in, dataformat_from_python(format),
+                    self->pool->session(), in, data_format,
                     [&](arki::dataset::Reader& reader) {
                         auto stats =
                             self->dispatcher->process(reader, reader.name());
-- 
2.43.0


From da7a640f0eb207e3f904d0f8659d390595d22337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 44/56] fix: release the Python lock while querying summaries

The threads of a merged query may need it, and query_summary waits for them.
---
 arki/python/dataset/reader.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/arki/python/dataset/reader.cc b/arki/python/dataset/reader.cc
index 1af13e7..682ceb5 100644
--- a/arki/python/dataset/reader.cc
+++ b/arki/python/dataset/reader.cc
@@ -176,14 +176,20 @@ struct query_summary : public MethKwargs<query_summary, arkipy_DatasetReader>
 
             if (summary)
             {
-                self->ptr->query_summary(matcher, *summary);
+                {
+                    ReleaseGIL gil;
+                    self->ptr->query_summary(matcher, *summary);
+                }
                 Py_INCREF(arg_summary);
                 return (PyObject*)arg_summary;
             }
             else
             {
                 py_unique_ptr<arkipy_Summary> res(summary_create());
-                self->ptr->query_summary(matcher, *res->summary);
+                {
+                    ReleaseGIL gil;
+                    self->ptr->query_summary(matcher, *res->summary);
+                }
                 return (PyObject*)res.release();
             }
         }
-- 
2.43.0


From 747f3c56603cb014ad7720197439026981b91f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 45/56] fix: release the Python lock while the sorted data of a
 Python dataset is delivered

The consumer may wait for other threads of a merged query that need it.
---
 arki/python/dataset/python.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arki/python/dataset/python.cc b/arki/python/dataset/python.cc
index 8979c92..91ff2dd 100644
--- a/arki/python/dataset/python.cc
+++ b/arki/python/dataset/python.cc
@@ -89,7 +89,11 @@ struct PyDatasetReader
             throw_ifnull(PyObject_Call(meth_query_data, args, kwargs)));
 
         if (sorter)
+        {
+            // The consumer may wait for other threads, that may need python
+            ReleaseGIL rg;
             return track.done(sorter->flush());
+        }
         else
         {
             if (res == Py_None)
-- 
2.43.0


From a731cca065a507c0fcc6d866951e0685b86802f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 46/56] fix: release the Python lock while calling a metadata
 consumer from Python

The consumer may wait for other threads of a merged query that need it.
---
 arki/python/metadata.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arki/python/metadata.cc b/arki/python/metadata.cc
index 3db4a41..2cae64b 100644
--- a/arki/python/metadata.cc
+++ b/arki/python/metadata.cc
@@ -1060,7 +1060,12 @@ callback for producing one metadata element
         {
             std::shared_ptr<Metadata> md(
                 ((arkipy_Metadata*)py_md)->md->clone());
-            bool res = self->func(std::move(md));
+            bool res;
+            {
+                // The consumer may wait for other threads, that may need python
+                ReleaseGIL gil;
+                res = self->func(std::move(md));
+            }
             if (res)
                 Py_RETURN_TRUE;
             else
-- 
2.43.0


From 71f53b8020c1a49eb9e66eade09220483baba65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 47/56] fix: use the pathname argument of Metadata.read_bundle

---
 arki/python/metadata.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/python/metadata.cc b/arki/python/metadata.cc
index 2cae64b..47eea49 100644
--- a/arki/python/metadata.cc
+++ b/arki/python/metadata.cc
@@ -445,7 +445,7 @@ struct read_bundle : public ClassMethKwargs<read_bundle>
 
             std::filesystem::path pathname;
             if (py_pathname)
-                pathname = std::string(py_basedir, py_basedir_len);
+                pathname = std::string(py_pathname, py_pathname_len);
 
             bool res;
             if (PyBytes_Check(py_src))
-- 
2.43.0


From c121f37a0a83529da4a44ad8c1b5fad02826f801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 48/56] fix: a Python formatter that raises falls back to the
 default formatting

A null pointer was converted to a string.
---
 arki/python/formatter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/python/formatter.cc b/arki/python/formatter.cc
index 3689c71..407867a 100644
--- a/arki/python/formatter.cc
+++ b/arki/python/formatter.cc
@@ -87,7 +87,7 @@ struct PythonFormatter : public arki::Formatter
 
             arki::nag::warning("python formatter failed: %s",
                                exc_type.str().c_str());
-            return from_python<std::string>(obj);
+            return v.to_string();
         }
 
         if (obj == Py_None)
-- 
2.43.0


From 1c17369cba23c414a78b519d88d5487b37a11772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 49/56] fix: do not let C++ exceptions leave functions called
 by Python

---
 arki/python/cfg.cc             | 64 +++++++++++++++++++++-------------
 arki/python/dataset/checker.cc |  4 +--
 arki/python/dataset/reader.cc  |  4 +--
 arki/python/matcher.cc         | 10 ++++--
 arki/python/metadata.cc        | 16 ++++++---
 5 files changed, 63 insertions(+), 35 deletions(-)

diff --git a/arki/python/cfg.cc b/arki/python/cfg.cc
index b244614..b8b1caa 100644
--- a/arki/python/cfg.cc
+++ b/arki/python/cfg.cc
@@ -288,14 +288,17 @@ struct parse_sections : public ClassMethKwargs<parse_sections>
                 args, kw, "O", const_cast<char**>(kwlist), &arg_input))
             return nullptr;
 
-        pyo_unique_ptr pathlib(throw_ifnull(PyImport_ImportModule("pathlib")));
-        pyo_unique_ptr Path(
-            throw_ifnull(PyObject_GetAttrString(pathlib, "Path")));
-
         try
         {
-            if (PyUnicode_Check(arg_input) or
-                PyObject_IsInstance(arg_input, Path))
+            pyo_unique_ptr pathlib(
+                throw_ifnull(PyImport_ImportModule("pathlib")));
+            pyo_unique_ptr Path(
+                throw_ifnull(PyObject_GetAttrString(pathlib, "Path")));
+            int is_path = PyObject_IsInstance(arg_input, Path);
+            if (is_path == -1)
+                throw PythonException();
+
+            if (PyUnicode_Check(arg_input) or is_path)
             {
                 auto path = from_python<std::filesystem::path>(arg_input);
                 arki::utils::sys::File in(path, O_RDONLY);
@@ -342,14 +345,17 @@ struct parse_section : public ClassMethKwargs<parse_section>
                 args, kw, "O", const_cast<char**>(kwlist), &arg_input))
             return nullptr;
 
-        pyo_unique_ptr pathlib(throw_ifnull(PyImport_ImportModule("pathlib")));
-        pyo_unique_ptr Path(
-            throw_ifnull(PyObject_GetAttrString(pathlib, "Path")));
-
         try
         {
-            if (PyUnicode_Check(arg_input) or
-                PyObject_IsInstance(arg_input, Path))
+            pyo_unique_ptr pathlib(
+                throw_ifnull(PyImport_ImportModule("pathlib")));
+            pyo_unique_ptr Path(
+                throw_ifnull(PyObject_GetAttrString(pathlib, "Path")));
+            int is_path = PyObject_IsInstance(arg_input, Path);
+            if (is_path == -1)
+                throw PythonException();
+
+            if (PyUnicode_Check(arg_input) or is_path)
             {
                 auto fname = from_python<std::filesystem::path>(arg_input);
                 arki::utils::sys::File in(fname, O_RDONLY);
@@ -505,12 +511,17 @@ Arkimet configuration, as multiple sections of key/value options
 
     static PyObject* _iter(Impl* self)
     {
-        py_unique_ptr<PyTupleObject> res(
-            (PyTupleObject*)PyTuple_New(self->ptr->size()));
-        unsigned pos = 0;
-        for (const auto& si : *(self->ptr))
-            PyTuple_SET_ITEM(res.get(), pos++, to_python(si.first));
-        return PyObject_GetIter((PyObject*)res.get());
+        try
+        {
+            py_unique_ptr<PyTupleObject> res(
+                (PyTupleObject*)throw_ifnull(
+                    PyTuple_New(self->ptr->size())));
+            unsigned pos = 0;
+            for (const auto& si : *(self->ptr))
+                PyTuple_SET_ITEM(res.get(), pos++, to_python(si.first));
+            return PyObject_GetIter((PyObject*)res.get());
+        }
+        ARKI_CATCH_RETURN_PYO
     }
 
     static Py_ssize_t mp_length(Impl* self) { return self->ptr->size(); }
@@ -630,12 +641,17 @@ Arkimet configuration, as a section of key/value options
 
     static PyObject* _iter(Impl* self)
     {
-        py_unique_ptr<PyTupleObject> res(
-            (PyTupleObject*)PyTuple_New(self->ptr->size()));
-        unsigned pos = 0;
-        for (const auto& si : *self->ptr)
-            PyTuple_SET_ITEM(res.get(), pos++, to_python(si.first));
-        return PyObject_GetIter((PyObject*)res.get());
+        try
+        {
+            py_unique_ptr<PyTupleObject> res(
+                (PyTupleObject*)throw_ifnull(
+                    PyTuple_New(self->ptr->size())));
+            unsigned pos = 0;
+            for (const auto& si : *self->ptr)
+                PyTuple_SET_ITEM(res.get(), pos++, to_python(si.first));
+            return PyObject_GetIter((PyObject*)res.get());
+        }
+        ARKI_CATCH_RETURN_PYO
     }
 
     static Py_ssize_t mp_length(Impl* self) { return self->ptr->size(); }
diff --git a/arki/python/dataset/checker.cc b/arki/python/dataset/checker.cc
index 4e542a5..11f23aa 100644
--- a/arki/python/dataset/checker.cc
+++ b/arki/python/dataset/checker.cc
@@ -197,7 +197,7 @@ Examples::
                                         self->ptr->type().c_str(),
                                         self->ptr->name().c_str());
         else
-            return to_python("dataset.Checker(<out of scope>)");
+            return PyUnicode_FromString("dataset.Checker(<out of scope>)");
     }
 
     static PyObject* _repr(Impl* self)
@@ -207,7 +207,7 @@ Examples::
                                         self->ptr->type().c_str(),
                                         self->ptr->name().c_str());
         else
-            return to_python("dataset.Checker(<out of scope>)");
+            return PyUnicode_FromString("dataset.Checker(<out of scope>)");
     }
 
     static int _init(Impl* self, PyObject* args, PyObject* kw)
diff --git a/arki/python/dataset/reader.cc b/arki/python/dataset/reader.cc
index 682ceb5..fc2a9e0 100644
--- a/arki/python/dataset/reader.cc
+++ b/arki/python/dataset/reader.cc
@@ -361,7 +361,7 @@ Examples::
                                         self->ptr->type().c_str(),
                                         self->ptr->name().c_str());
         else
-            return to_python("dataset.Reader(<out of scope>)");
+            return PyUnicode_FromString("dataset.Reader(<out of scope>)");
     }
 
     static PyObject* _repr(Impl* self)
@@ -371,7 +371,7 @@ Examples::
                                         self->ptr->type().c_str(),
                                         self->ptr->name().c_str());
         else
-            return to_python("dataset.Reader(<out of scope>)");
+            return PyUnicode_FromString("dataset.Reader(<out of scope>)");
     }
 
     static int _init(Impl* self, PyObject* args, PyObject* kw)
diff --git a/arki/python/matcher.cc b/arki/python/matcher.cc
index d5a5ce5..aeaa8d8 100644
--- a/arki/python/matcher.cc
+++ b/arki/python/matcher.cc
@@ -152,9 +152,13 @@ Precompiled matcher for arkimet metadata
 
     static PyObject* _repr(Impl* self)
     {
-        std::string res = qual_name;
-        res += "(" + self->matcher.toString() + ")";
-        return PyUnicode_FromString(res.c_str());
+        try
+        {
+            std::string res = qual_name;
+            res += "(" + self->matcher.toString() + ")";
+            return PyUnicode_FromString(res.c_str());
+        }
+        ARKI_CATCH_RETURN_PYO;
     }
 
     static int _init(Impl* self, PyObject* args, PyObject* kw)
diff --git a/arki/python/metadata.cc b/arki/python/metadata.cc
index 47eea49..bd91532 100644
--- a/arki/python/metadata.cc
+++ b/arki/python/metadata.cc
@@ -816,14 +816,22 @@ For example::
 
     static PyObject* _str(Impl* self)
     {
-        std::string yaml = self->md->to_yaml();
-        return PyUnicode_FromStringAndSize(yaml.data(), yaml.size());
+        try
+        {
+            std::string yaml = self->md->to_yaml();
+            return PyUnicode_FromStringAndSize(yaml.data(), yaml.size());
+        }
+        ARKI_CATCH_RETURN_PYO
     }
 
     static PyObject* _repr(Impl* self)
     {
-        std::string yaml = self->md->to_yaml();
-        return PyUnicode_FromStringAndSize(yaml.data(), yaml.size());
+        try
+        {
+            std::string yaml = self->md->to_yaml();
+            return PyUnicode_FromStringAndSize(yaml.data(), yaml.size());
+        }
+        ARKI_CATCH_RETURN_PYO
     }
 
     static int _init(Impl* self, PyObject* args, PyObject* kw)
-- 
2.43.0


From 6caa73326fe52aa11d2a430385907b7d6dcb8164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:09 +0000
Subject: [PATCH 50/56] fix: notice failed calls to the Python API

---
 arki/python/bbox.cc           |  2 ++
 arki/python/common.cc         |  2 ++
 arki/python/dataset/writer.cc |  6 +++---
 arki/python/structured.cc     |  7 +++++++
 arki/python/utils/core.h      | 10 ++++++++++
 5 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/arki/python/bbox.cc b/arki/python/bbox.cc
index 2335d19..7cd61bb 100644
--- a/arki/python/bbox.cc
+++ b/arki/python/bbox.cc
@@ -64,6 +64,8 @@ void load_bbox_object()
 std::pair<double, double> get_coord_pair(PyObject* obj)
 {
     Py_ssize_t size = PyTuple_Size(obj);
+    if (size == -1)
+        throw PythonException();
     if (size != 2)
         throw std::invalid_argument(
             "python bbox function did not return a list of coordinate pairs");
diff --git a/arki/python/common.cc b/arki/python/common.cc
index 9075a33..98abcf6 100644
--- a/arki/python/common.cc
+++ b/arki/python/common.cc
@@ -161,6 +161,8 @@ int common_init()
      */
     if (!PyDateTimeAPI)
         PyDateTime_IMPORT;
+    if (!PyDateTimeAPI)
+        throw PythonException();
 
 #if 0
     if (!wrpy)
diff --git a/arki/python/dataset/writer.cc b/arki/python/dataset/writer.cc
index e84c2a6..59ac191 100644
--- a/arki/python/dataset/writer.cc
+++ b/arki/python/dataset/writer.cc
@@ -190,7 +190,7 @@ representing the outcome: "ok", "duplicate", or "error".
                 self->ptr->acquire_batch(batch, cfg);
             }
 
-            pyo_unique_ptr res(PyTuple_New(batch.size()));
+            pyo_unique_ptr res(throw_ifnull(PyTuple_New(batch.size())));
             unsigned offset = 0;
             for (const auto& el : batch)
             {
@@ -272,7 +272,7 @@ Examples::
                                         self->ptr->type().c_str(),
                                         self->ptr->name().c_str());
         else
-            return to_python("dataset.Writer(<out of scope>)");
+            return PyUnicode_FromString("dataset.Writer(<out of scope>)");
     }
 
     static PyObject* _repr(Impl* self)
@@ -282,7 +282,7 @@ Examples::
                                         self->ptr->type().c_str(),
                                         self->ptr->name().c_str());
         else
-            return to_python("dataset.Writer(<out of scope>)");
+            return PyUnicode_FromString("dataset.Writer(<out of scope>)");
     }
 
     static int _init(Impl* self, PyObject* args, PyObject* kw)
diff --git a/arki/python/structured.cc b/arki/python/structured.cc
index 1847302..5dd056d 100644
--- a/arki/python/structured.cc
+++ b/arki/python/structured.cc
@@ -150,6 +150,11 @@ std::string PythonReader::repr() const
     }
     Py_ssize_t size;
     const char* res = PyUnicode_AsUTF8AndSize(py_repr, &size);
+    if (!res)
+    {
+        PyErr_Clear();
+        return "(python repr failed)";
+    }
     return std::string(res, size);
 }
 
@@ -368,6 +373,8 @@ void init()
      */
     if (!PyDateTimeAPI)
         PyDateTime_IMPORT;
+    if (!PyDateTimeAPI)
+        throw PythonException();
 }
 
 } // namespace structured
diff --git a/arki/python/utils/core.h b/arki/python/utils/core.h
index cc8694c..4f6ad7d 100644
--- a/arki/python/utils/core.h
+++ b/arki/python/utils/core.h
@@ -72,6 +72,11 @@ public:
         }
         Py_ssize_t size;
         const char* res = PyUnicode_AsUTF8AndSize(py_repr, &size);
+        if (!res)
+        {
+            PyErr_Clear();
+            return "(repr failed)";
+        }
         return std::string(res, size);
     }
 
@@ -88,6 +93,11 @@ public:
         }
         Py_ssize_t size;
         const char* res = PyUnicode_AsUTF8AndSize(py_repr, &size);
+        if (!res)
+        {
+            PyErr_Clear();
+            return "(str failed)";
+        }
         return std::string(res, size);
     }
 
-- 
2.43.0


From e6c40dfcab4e905c8351331f6ef4f0bceb207dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:27 +0000
Subject: [PATCH 51/56] fix: check that Python objects for sessions and
 datasets could be created

---
 arki/python/dataset/querymacro.cc | 4 ++--
 arki/python/dataset/session.cc    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/arki/python/dataset/querymacro.cc b/arki/python/dataset/querymacro.cc
index 883ce3c..954df1e 100644
--- a/arki/python/dataset/querymacro.cc
+++ b/arki/python/dataset/querymacro.cc
@@ -37,8 +37,8 @@ instantiate_qmacro_pydataset(const std::filesystem::path& source,
         throw_ifnull(PyObject_GetAttrString(module, "Querymacro")));
 
     // Create a python proxy for the dataset session
-    pyo_unique_ptr session(
-        (PyObject*)dataset_session_create(dataset->session, dataset->pool));
+    pyo_unique_ptr session(throw_ifnull(
+        (PyObject*)dataset_session_create(dataset->session, dataset->pool)));
 
     // Instantiate obj = Querymacro(macro_cfg, datasets_cfg, args, query)
     pyo_unique_ptr obj(throw_ifnull(PyObject_CallFunction(
diff --git a/arki/python/dataset/session.cc b/arki/python/dataset/session.cc
index d4ed7f2..6225935 100644
--- a/arki/python/dataset/session.cc
+++ b/arki/python/dataset/session.cc
@@ -59,8 +59,8 @@ struct datasets : public MethNoargs<datasets, arkipy_DatasetSession>
             PyObject* list = res.get();
             self->pool->foreach_dataset(
                 [&](std::shared_ptr<arki::dataset::Dataset> dataset) {
-                    pyo_unique_ptr ds(
-                        (PyObject*)dataset_dataset_create(dataset));
+                    pyo_unique_ptr ds(throw_ifnull(
+                        (PyObject*)dataset_dataset_create(dataset)));
                     if (PyList_Append(list, ds))
                         throw PythonException();
                     return true;
-- 
2.43.0


From 173e878f454603a7700e5926829b032724ea20e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 52/56] fix: read all the output of a filter before closing it

A hangup on the filter's stdout was taken for its end also when there
were data still to be read from it.
---
 arki/stream/concrete-parts.tcc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/arki/stream/concrete-parts.tcc b/arki/stream/concrete-parts.tcc
index e48d9b3..e6f3769 100644
--- a/arki/stream/concrete-parts.tcc
+++ b/arki/stream/concrete-parts.tcc
@@ -216,10 +216,18 @@ struct FromFilter
 
     bool setup_poll()
     {
+        // Also skip polling for a hangup if we know there is data to read, or
+        // poll would keep returning immediately
         if (filter_stdout_available)
+        {
+            pfd_filter_stdout->fd = -1;
             pfd_filter_stdout->events = 0;
+        }
         else
+        {
+            pfd_filter_stdout->fd = stream.filter_process->cmd.get_stdout();
             pfd_filter_stdout->events = POLLIN;
+        }
 
         trace_streaming("  FromFilter.setup_poll: filter_stdout: %d:%x\n", stream.filter_process->cmd.get_stdout(), (int)pfd_filter_stdout->events);
         return stream.filter_process->cmd.get_stdout() != -1;
@@ -350,7 +358,7 @@ struct FromFilterSplice : public FromFilterConcrete<Backend>
                 case TransferResult::WOULDBLOCK:
                     break;
             }
-        } else if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
+        } else if (!this->filter_stdout_available && this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
             trace_streaming("  FromFilterSplice.on_poll: filter stdout closed\n");
             // Filter stdout closed its endpoint
             this->stream.filter_process->cmd.close_stdout();
@@ -465,7 +473,7 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
             moved_data = true;
         }
 
-        if (!moved_data && this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
+        if (!moved_data && !this->filter_stdout_available && this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
             // Filter stdout closed its endpoint
             trace_streaming("  FromFilterReadWrite.on_poll: POLLERR|POLLUP on filter_stdout: closing it\n");
             this->stream.filter_process->cmd.close_stdout();
@@ -563,8 +571,7 @@ struct FromFilterAbstract : public FromFilter<Backend>
                     break;
             }
         }
-
-        if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP))
+        else if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP))
         {
             // Filter stdout closed its endpoint
             this->stream.filter_process->cmd.close_stdout();
-- 
2.43.0


From 9c3a8569d421f8dcd4b2b818b094d07563df181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:55 +0000
Subject: [PATCH 53/56] fix: don't send data twice when falling back to another
 way to transfer it

The whole buffer was given again to the filter when splice() turned out
not to be supported by the destination.
---
 arki/stream/concrete.cc    | 17 ++++++++++++++---
 arki/stream/loops-send.tcc |  2 +-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/arki/stream/concrete.cc b/arki/stream/concrete.cc
index 5449ae6..ab416fb 100644
--- a/arki/stream/concrete.cc
+++ b/arki/stream/concrete.cc
@@ -107,16 +107,20 @@ SendResult ConcreteStreamOutputBase<Backend>::send_buffer(const void* data,
 
     if (filter_process)
     {
+        size_t start = filter_process->size_stdin;
         try
         {
             return filter_sender->send_buffer(data, size);
         }
         catch (SpliceNotAvailable&)
         {
+            // Do not send again what the filter has already received
+            size_t sent = filter_process->size_stdin - start;
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_buffer(data, size);
+            return filter_sender->send_buffer(
+                static_cast<const uint8_t*>(data) + sent, size - sent);
         }
     }
     else
@@ -135,16 +139,20 @@ SendResult ConcreteStreamOutputBase<Backend>::send_line(const void* data,
 
     if (filter_process)
     {
+        size_t start = filter_process->size_stdin;
         try
         {
             return filter_sender->send_line(data, size);
         }
         catch (SpliceNotAvailable&)
         {
+            // Do not send again what the filter has already received
+            size_t sent = filter_process->size_stdin - start;
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_line(data, size);
+            return filter_sender->send_line(
+                static_cast<const uint8_t*>(data) + sent, size - sent);
         }
     }
     else
@@ -164,16 +172,19 @@ SendResult ConcreteStreamOutputBase<Backend>::send_file_segment(
 
     if (filter_process)
     {
+        size_t start = filter_process->size_stdin;
         try
         {
             return filter_sender->send_file_segment(fd, offset, size);
         }
         catch (SpliceNotAvailable&)
         {
+            // Do not send again what the filter has already received
+            size_t sent = filter_process->size_stdin - start;
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_file_segment(fd, offset, size);
+            return filter_sender->send_file_segment(fd, offset + sent, size - sent);
         }
     }
     else
diff --git a/arki/stream/loops-send.tcc b/arki/stream/loops-send.tcc
index cee6812..623e6d7 100644
--- a/arki/stream/loops-send.tcc
+++ b/arki/stream/loops-send.tcc
@@ -172,7 +172,7 @@ struct FileToPipeSendfile : public ToPipe<Backend>
                  (int)src_fd, (int)out, (int)orig_offset, (int)offset, (int)(size - pos), (int)res);
         if (res < 0)
         {
-            if (errno == EINVAL || errno == ENOSYS)
+            if (pos == 0 && (errno == EINVAL || errno == ENOSYS))
                 throw SendfileNotAvailable();
             else if (errno == EPIPE)
                 return TransferResult::EOF_DEST;
-- 
2.43.0


From fc6e49c39063483e7c25bbbb8b71a46603d4eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:27 +0000
Subject: [PATCH 54/56] fix: close the pipes of a filter before waiting for it
 when aborting

A filter that reads its standard input until its end was waited for
for ever, and was left running when its output could not be flushed.
---
 arki/stream/base.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/arki/stream/base.cc b/arki/stream/base.cc
index e91a3ed..26b0aca 100644
--- a/arki/stream/base.cc
+++ b/arki/stream/base.cc
@@ -44,7 +44,16 @@ std::unique_ptr<FilterProcess> BaseStreamOutput::stop_filter()
     if (filter_process->cmd.get_stdin() != -1)
         filter_process->cmd.close_stdin();
 
-    flush_filter_output();
+    try
+    {
+        flush_filter_output();
+    }
+    catch (...)
+    {
+        // Do not leave the filter running
+        abort_filter();
+        throw;
+    }
 
     std::unique_ptr<FilterProcess> proc = std::move(filter_process);
     proc->stop();
@@ -60,6 +69,13 @@ void BaseStreamOutput::abort_filter()
         return;
 
     std::unique_ptr<FilterProcess> proc = std::move(filter_process);
+    // The filter waits for us if we don't close our end of its pipes
+    if (proc->cmd.get_stdin() != -1)
+        proc->cmd.close_stdin();
+    if (proc->cmd.get_stdout() != -1)
+        proc->cmd.close_stdout();
+    if (proc->cmd.get_stderr() != -1)
+        proc->cmd.close_stderr();
     proc->stop();
 }
 
-- 
2.43.0


From bb3fe5c3de291c12b285c2c018edb5f59da16d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 55/56] fix: report data that cannot be streamed whole because
 the file is too short

The result that says so was not looked at by any caller.
---
 arki/metadata.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index fb26a5f..c50500b 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -917,7 +917,11 @@ stream::SendResult Metadata::stream_data(StreamOutput& out)
             if (!blob->reader)
                 throw runtime_error(
                     "cannot stream data: BLOB source has no reader associated");
-            return blob->stream_data(out);
+            stream::SendResult res = blob->stream_data(out);
+            if (res.flags & stream::SendResult::SEND_PIPE_EOF_SOURCE)
+                throw runtime_error(
+                    "cannot stream data: data file ends before the data");
+            return res;
         }
         default:
             throw_consistency_error(
-- 
2.43.0


From 705b9146c3742a461168c6caa219a47d18e7fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:31 +0000
Subject: [PATCH 56/56] fix: the date range of a summary did not include its
 last instant

Summary::expand_date_range used the last time, which is part of the summary, as
the end of an interval, which is not
---
 arki/summary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/summary.cc b/arki/summary.cc
index 4ed911e..a39638a 100644
--- a/arki/summary.cc
+++ b/arki/summary.cc
@@ -102,7 +102,7 @@ void Summary::expand_date_range(core::Interval& interval) const
     if (root->empty())
         return;
 
-    interval.extend(Interval(root->stats.begin, root->stats.end));
+    interval.extend(root->stats.make_interval());
 }
 
 arki::utils::geos::Geometry Summary::getConvexHull() const
-- 
2.43.0

