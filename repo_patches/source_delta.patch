From 04e03e17e8721421c196ec3eab79949f2ba0c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 01/69] fix: StringStream must not limit reads when max < min,
 nor truncate large skips

---
 include/strigi/stringstream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/strigi/stringstream.h b/include/strigi/stringstream.h
index 64440d0..ae10aab 100644
--- a/include/strigi/stringstream.h
+++ b/include/strigi/stringstream.h
@@ -111,7 +111,8 @@ StringStream<T>::read(const T*& start, int32_t min, int32_t max) {
         return -1;
     }
     if (min < 0) min = 0;
-    int32_t nread = (max > left || max < 1) ?(int32_t)left :max;
+    // if max is smaller than min, there is no upper limit
+    int32_t nread = (max > left || max < 1 || max < min) ?(int32_t)left :max;
     start = data + StreamBase<T>::m_position;
     StreamBase<T>::m_position += nread;
     if (StreamBase<T>::m_position == StreamBase<T>::m_size) {
@@ -123,6 +124,8 @@ template <class T>
 int64_t
 StringStream<T>::skip(int64_t ntoskip) {
     if (ntoskip == 0) return 0;
+    const int64_t left = StreamBase<T>::m_size - StreamBase<T>::m_position;
+    if (ntoskip > left && left > 0) ntoskip = left;
     const T* start;
     return read(start, (int32_t)ntoskip, (int32_t)ntoskip);
 }
-- 
2.43.0


From fb21bf4eef1c51629a833497e7ede82cbd95a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 02/69] fix: BufferedStream must not end cleanly before its
 announced size

---
 include/strigi/bufferedstream.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/strigi/bufferedstream.h b/include/strigi/bufferedstream.h
index 05f5500..5d35e38 100644
--- a/include/strigi/bufferedstream.h
+++ b/include/strigi/bufferedstream.h
@@ -151,6 +151,12 @@ BufferedStream<T>::read(const T*& start, int32_t min, int32_t max) {
         nread = -2;
     } else if (StreamBase<T>::m_status == Ok && buffer.avail == 0
             && finishedWritingToBuffer) {
+        if (StreamBase<T>::m_position < StreamBase<T>::m_size) {
+            // error: the data ended before the specified size was reached
+            StreamBase<T>::m_status = Error;
+            StreamBase<T>::m_error = "Stream is shorter than specified.";
+            return -2;
+        }
         StreamBase<T>::m_status = Eof;
         if (StreamBase<T>::m_size == -1) {
             StreamBase<T>::m_size = StreamBase<T>::m_position;
-- 
2.43.0


From d81f332fbb63041f8a49c37f07079c4092b4b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 03/69] fix: FileInputStream must report seek and read failures
 while opening

---
 include/strigi/fileinputstream.h |  1 +
 lib/fileinputstream.cpp          | 26 ++++++++++++++++++++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/strigi/fileinputstream.h b/include/strigi/fileinputstream.h
index 70d86af..2139121 100644
--- a/include/strigi/fileinputstream.h
+++ b/include/strigi/fileinputstream.h
@@ -33,6 +33,7 @@ private:
     std::string filepath;
 
     int32_t fillBuffer(char* start, int32_t space);
+    void setReadError();
     /** The default buffer size, only used as a default argument to the constructor */
     static const int32_t defaultBufferSize;
 protected:
diff --git a/lib/fileinputstream.cpp b/lib/fileinputstream.cpp
index 820b831..f48545a 100644
--- a/lib/fileinputstream.cpp
+++ b/lib/fileinputstream.cpp
@@ -65,7 +65,10 @@ FileInputStream::open(FILE* f, const char* path, int32_t buffersize) {
         m_size = -1;
     } else {
         m_size = ftello(file);
-        fseeko(file, 0, SEEK_SET);
+        if (m_size < 0 || fseeko(file, 0, SEEK_SET) == -1) {
+            setReadError();
+            return;
+        }
         // if the file has size 0, make sure that it's really empty
         // this is useful for filesystems like /proc that report files as size 0
         // for files that do contain content
@@ -74,7 +77,13 @@ FileInputStream::open(FILE* f, const char* path, int32_t buffersize) {
             size_t n = fread(dummy, 1, 1, file);
             if (n == 1) {
                 m_size = -1;
-                fseeko(file, 0, SEEK_SET);
+                if (fseeko(file, 0, SEEK_SET) == -1) {
+                    setReadError();
+                    return;
+                }
+            } else if (ferror(file)) {
+                setReadError();
+                return;
             } else {
                 fclose(file);
                 file = 0;
@@ -95,6 +104,14 @@ FileInputStream::~FileInputStream() {
         }
     }
 }
+void
+FileInputStream::setReadError() {
+    m_error = "Could not read from file '" + filepath + "'.";
+    fclose(file);
+    file = 0;
+    m_size = -1;
+    m_status = Error;
+}
 int32_t
 FileInputStream::fillBuffer(char* start, int32_t space) {
     if (file == 0) return -1;
@@ -102,10 +119,7 @@ FileInputStream::fillBuffer(char* start, int32_t space) {
     int32_t nwritten = (int32_t)fread(start, 1, space, file);
     // check the file stream status
     if (ferror(file)) {
-        m_error = "Could not read from file '" + filepath + "'.";
-        fclose(file);
-        file = 0;
-        m_status = Error;
+        setReadError();
         return -1;
     }
     if (feof(file)) {
-- 
2.43.0


From 05788df34930e1185959cc6ef9685cf919b82645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 04/69] fix: SkippingFileInputStream error, end-of-file and
 size-change handling

---
 lib/skippingfileinputstream.cpp | 75 ++++++++++++++++++++++-----------
 lib/skippingfileinputstream.h   |  1 +
 2 files changed, 51 insertions(+), 25 deletions(-)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index 9759c54..a2a2073 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -61,7 +61,10 @@ SkippingFileInputStream::open(FILE* f, const char* path) {
         m_size = -1;
     } else {
         m_size = ftello(file);
-        fseeko(file, 0, SEEK_SET);
+        if (m_size < 0 || fseeko(file, 0, SEEK_SET) == -1) {
+            setReadError();
+            return;
+        }
         // if the file has size 0, make sure that it's really empty
         // this is useful for filesystems like /proc that report files as size 0
         // for files that do contain content
@@ -70,7 +73,11 @@ SkippingFileInputStream::open(FILE* f, const char* path) {
             size_t n = fread(dummy, 1, 1, file);
             if (n == 1) {
                 m_size = -1;
-                fseeko(file, 0, SEEK_SET);
+                if (fseeko(file, 0, SEEK_SET) == -1) {
+                    setReadError();
+                }
+            } else if (ferror(file)) {
+                setReadError();
             }
         }
     }
@@ -84,60 +91,78 @@ SkippingFileInputStream::~SkippingFileInputStream() {
     }
     free(buffer);
 }
+void
+SkippingFileInputStream::setReadError() {
+    m_error = "Could not read from file '" + filepath + "'.";
+    m_status = Error;
+}
 int32_t
 SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
-    if (!file) {
+    if (m_status == Error || !file) {
          m_status = Error;
          return -2; // error
     }
+    if (m_status == Eof) return -1;
     // take a decent buffersize that can hold the request
-    int32_t n = max(_min, _max);
-    if (_max <= 0) {
+    int32_t n = _max;
+    if (_max < _min || _max <= 0) {
         n = max(1024, max(buffersize, _min));
-    }
-    if (n > buffersize) {
-        if (_max <= 0) {
+        if (n > buffersize) {
             n = max(n, 2 * buffersize);
-            if (m_size != -1 && n > m_size - m_position) {
-                n = m_size - m_position + 1;
-            }
         }
+    }
+    // do not read more than the size that was announced
+    if (m_size != -1 && n > m_size - m_position) {
+        n = (int32_t)(m_size - m_position);
+        if (n == 0) {
+            m_status = Eof;
+            return -1;
+        }
+    }
+    if (n > buffersize) {
         buffer = (char*)realloc(buffer, n);
         buffersize = n;
     }
     int32_t nr = (int32_t)fread(buffer, 1, n, file);
-    m_position = ftell(file);
+    if (nr != n && (ferror(file) || m_size != -1)) {
+        // a file that is shorter than announced is an error too
+        setReadError();
+        return -2;
+    }
+    m_position += nr;
     if (nr != n) {
-        if (ferror(file)) {
-            m_status = Error;
-        } else {
-            m_status = Eof;
-            if (m_size == -1) {
-                m_size = m_position;
-            }
-        }
+        m_size = m_position;
+    }
+    if (m_position == m_size) {
+        m_status = Eof;
     }
     start = buffer;
-    return nr;
+    return (nr == 0) ?-1 :nr;
 }
 int64_t
 SkippingFileInputStream::skip(int64_t ntoskip) {
+    // if the size is not known, seeking might go past the end of the file
+    if (m_size == -1) return InputStream::skip(ntoskip);
     int64_t oldpos = m_position;
     if (reset(m_position + ntoskip) == -2) return -2;
     return m_position - oldpos;
 }
 int64_t
 SkippingFileInputStream::reset(int64_t pos) {
-    if (!file) {
+    if (m_status == Error || !file) {
          m_status = Error;
          return -2; // error
     }
     if (m_size >= 0 && pos > m_size) pos = m_size;
-    if (fseek(file, pos, SEEK_SET)) {
-        m_status = Error;
+    if (m_size == -1 && pos > m_position) {
+        InputStream::skip(pos - m_position);
+        return (m_status == Error) ?-2 :m_position;
+    }
+    if (fseeko(file, pos, SEEK_SET)) {
+        setReadError();
         return -2;
     }
-    m_position = ftell(file);
+    m_position = pos;
     m_status = (m_position == m_size) ?Eof :Ok;
     return m_position;
 }
diff --git a/lib/skippingfileinputstream.h b/lib/skippingfileinputstream.h
index b504a57..cfb6c44 100644
--- a/lib/skippingfileinputstream.h
+++ b/lib/skippingfileinputstream.h
@@ -35,6 +35,7 @@ private:
     int32_t buffersize;
 
     void open(FILE* f, const char* path);
+    void setReadError();
 
     int32_t read(const char*& start, int32_t min, int32_t max);
     int64_t skip(int64_t ntoskip);
-- 
2.43.0


From 42b8c5e87a46a85f4f9a594cde18172e1f68531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 05/69] fix: SubInputStream reset beyond its end, unknown size
 at the end, skip accounting

---
 lib/subinputstream.cpp | 46 +++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index ca81173..e53b223 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -35,7 +35,7 @@ int32_t
 SubInputStream::read(const char*& start, int32_t min, int32_t max) {
     if (m_size != -1) {
         const int64_t left = m_size - m_position;
-        if (left == 0) {
+        if (left <= 0) {
             m_status = Eof;
             return -1;
         }
@@ -56,8 +56,8 @@ SubInputStream::read(const char*& start, int32_t min, int32_t max) {
             m_status = Eof;
             if (nread > 0) {
                 m_position += nread;
-                m_size = m_position;
             }
+            m_size = m_position;
         } else {
 //            fprintf(stderr, "!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!! nread %i min %i max %i m_size %li\n", nread, min, max, m_size);
 //            fprintf(stderr, "pos %li parentpos %li\n", m_position, m_input->position());
@@ -80,15 +80,29 @@ SubInputStream::reset(int64_t newpos) {
     assert(newpos >= 0);
 //    fprintf(stderr, "subreset pos: %li newpos: %li m_offset: %li m_size: %li\n",
 //         m_position, newpos, m_offset, m_size);
-    m_position = m_input->reset(newpos + m_offset);
-    if (m_position < m_offset) {
-        cerr << "########### m_position " << m_position << " newpos " << newpos
-            << endl;
+    // do not leave the part of the input that belongs to this stream
+    if (m_size != -1 && newpos > m_size) {
+        newpos = m_size;
+    }
+    const int64_t pos = m_input->reset(newpos + m_offset);
+    if (pos < m_offset) {
         m_status = Error;
         m_error = m_input->error();
+        return -2;
+    }
+    m_position = pos - m_offset;
+    if (m_position == m_size) {
+        m_status = Eof;
+    } else if (m_size != -1 && m_input->status() == Eof) {
+        // there is less data than announced: the next read will report that
+        m_status = Ok;
     } else {
-        m_position -= m_offset;
         m_status = m_input->status();
+        if (m_status == Eof) {
+            m_size = m_position;
+        } else if (m_status == Error) {
+            m_error = m_input->error();
+        }
     }
     return m_position;
 }
@@ -97,9 +111,9 @@ SubInputStream::skip(int64_t ntoskip) {
 //    fprintf(stderr, "subskip pos: %li ntoskip: %li m_offset: %li m_size: %li\n", m_position, ntoskip, m_offset, m_size);
     if (m_size == m_position) {
         m_status = Eof;
-        return -1;
+        return (ntoskip > 0) ?-1 :0;
     }
-    if (ntoskip == 0) return 0;
+    if (ntoskip <= 0) return 0;
     if (m_size != -1) {
         const int64_t left = m_size - m_position;
         // restrict the amount of data that can be skipped
@@ -111,11 +125,19 @@ SubInputStream::skip(int64_t ntoskip) {
     if (m_input->status() == Error) {
         m_status = Error;
         m_error = m_input->error();
-    } else {
+        return -2;
+    }
+    if (skipped > 0) {
         m_position += skipped;
-        if (m_position == m_size) {
+    }
+    if (m_position == m_size) {
+        m_status = Eof;
+    } else if (skipped <= 0
+            || (skipped < ntoskip && m_input->status() == Eof)) {
+        if (m_size == -1) {
             m_status = Eof;
-        } else if (skipped <= 0) {
+            m_size = m_position;
+        } else {
             m_status = Error;
             m_error = "Premature end of stream\n";
             skipped = -2;
-- 
2.43.0


From 825a2ba25eab1c040d1fd58cefda600548a32567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 06/69] fix: StringTerminatedSubStream limits, size at the end,
 moves beyond the terminator

---
 lib/stringterminatedsubstream.cpp | 63 ++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index a0c3484..7ae0774 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -35,9 +35,10 @@ public:
     const int64_t m_offset;
     int64_t furthest;
     InputStream* m_input;
+    bool found; // true if the terminator was found
 
     Private(InputStream* i, const std::string& terminator)
-            : m_offset(i->position()), furthest(0), m_input(i) {
+            : m_offset(i->position()), furthest(0), m_input(i), found(false) {
         m_searcher.setQuery(terminator);
     }
 };
@@ -58,20 +59,35 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     if (m_status == Error) return -2;
     int32_t nread;
 
-    // check if we already read enough
+    // a maximum that is smaller than the minimum means: no maximum
+    if (max < min) max = 0;
+
+    // check if we already know how far we can read without meeting the
+    // terminator
     const int64_t pos = p->m_input->position();
-    nread = (int32_t)(p->furthest - pos);
-    if (min <= nread) {
-        if (max <= 0 || max > nread) {
-            max = nread;
+    const int64_t known = (m_size == -1) ?p->furthest - pos
+        :m_size - m_position;
+    if (known > 0 && (min <= known || m_size != -1)) {
+        if (min > known) min = (int32_t)known;
+        if (max <= 0 || max > known) {
+            max = (known > INT32_MAX) ?INT32_MAX :(int32_t)known;
+        }
+        if (p->found && max == known) {
+            // read the terminator too, so that the input ends up behind it
+            min = max = (int32_t)(known + p->m_searcher.queryLength());
         }
         nread = p->m_input->read(start, min, max);
-        assert(nread >= -1);
+        if (nread > known) nread = (int32_t)known;
         if (nread > 0) {
             m_position += nread;
             if (m_position == m_size) {
                 m_status = Eof;
             }
+        } else {
+            m_status = Error;
+            m_error = p->m_input->error();
+            if (m_error.empty()) m_error = "Premature end of stream\n";
+            nread = -2;
         }
         return nread;
     }
@@ -82,8 +98,10 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     // increase min and max to accommodate for the length of the terminator
     int32_t tlmin = min;
     int32_t tlmax = max;
-    if (tlmin == 0) {
+    if (tlmin <= 0) {
         tlmin = 1 + tl;
+    } else if (tlmin > INT32_MAX - tl) {
+        tlmin = INT32_MAX;
     } else {
         tlmin += tl;
     }
@@ -92,6 +110,7 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     nread = p->m_input->read(start, tlmin, tlmax);
     if (nread == -1) {
         m_status = Eof;
+        m_size = m_position;
         return nread;
     }
     if (nread < -1) {
@@ -103,6 +122,7 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     const char* end = p->m_searcher.search(start, nread);
     if (end) {
         // the end signature was found
+        p->found = true;
         nread = (int32_t)(end - start);
         // signal the end of stream at the next call
         m_status = Eof;
@@ -130,19 +150,34 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     if (nread > 0) m_position += nread;
     if (m_status == Eof) {
         m_size = m_position;
+        if (nread == 0) nread = -1;
     }
     return nread;
 }
 int64_t
 StringTerminatedSubStream::reset(int64_t newpos) {
-    m_position = p->m_input->reset(newpos + p->m_offset);
-    if (m_position >= p->m_offset) {
-        m_position -= p->m_offset;
-        if (m_position != m_size) m_status = Ok;
-    } else {
+    if (m_status == Error) return -2;
+    // do not go beyond the terminator or to where it might be
+    if (m_size != -1) {
+        if (newpos > m_size) newpos = m_size;
+    } else if (newpos > m_position && newpos > p->furthest - p->m_offset) {
+        return m_position;
+    }
+    if (newpos == m_position) return m_position;
+    const int64_t pos = p->m_input->reset(newpos + p->m_offset);
+    if (pos < p->m_offset) {
         // the stream is not positioned at a valid m_position
         m_status = Error;
-        m_position = -1;
+        m_error = p->m_input->error();
+        return -2;
+    }
+    m_position = pos - p->m_offset;
+    if (m_size != -1 && m_position >= m_size) {
+        // the input could not be moved back and is still after the terminator
+        m_position = m_size;
+        m_status = Eof;
+    } else {
+        m_status = Ok;
     }
     return m_position;
 }
-- 
2.43.0


From ca74cf876143f7f2d9ae5449e20ea5504836da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 07/69] fix: ArInputStream reports cut-off entries, special
 entries without recursion

---
 include/strigi/substreamprovider.h | 22 ++++++++++++++
 lib/arinputstream.cpp              | 49 ++++++++++++++++++++++++------
 2 files changed, 61 insertions(+), 10 deletions(-)

diff --git a/include/strigi/substreamprovider.h b/include/strigi/substreamprovider.h
index 3036d32..f7b32d9 100644
--- a/include/strigi/substreamprovider.h
+++ b/include/strigi/substreamprovider.h
@@ -79,6 +79,28 @@ protected:
     InputStream *m_entrystream;
     /** Information about the current substream */
     EntryInfo m_entryinfo;
+    /**
+     * @brief Skip the part of an entry that has not been read yet
+     *
+     * If the entry cannot be skipped completely, the status of the provider
+     * is set to Error.
+     *
+     * @param entry the stream that should be skipped to its end
+     * @return true if the end of the entry was reached
+     */
+    bool skipEntry(InputStream* entry)
+    {
+        while (entry->status() == Ok) {
+            if (entry->skip(1048576) <= 0 && entry->status() == Ok) break;
+        }
+        if (entry->status() == Eof) return true;
+        m_status = Error;
+        m_error = entry->error();
+        if (m_error.empty()) {
+            m_error = "Premature end of archive entry.";
+        }
+        return false;
+    }
 public:
     /**
      * @brief Initialize the SubStreamProvider
diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 65c3fda..b2539fc 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -25,6 +25,9 @@
 
 using namespace Strigi;
 
+// the largest table of file names that is accepted
+static const int64_t maxNamesSize = 16777216;
+
 bool
 ArInputStream::checkHeader(const char* data, int32_t datasize) {
     static const char magic[] = {0x21,0x3c,0x61,0x72,0x63,0x68,0x3e,0x0a};
@@ -38,6 +41,10 @@ ArInputStream::ArInputStream(InputStream* input)
     const char*b;
     if (input->read(b, 8, 8) != 8 || !checkHeader(b, 8)) {
         m_status = Error;
+        m_error = input->error();
+        if (m_error.empty()) {
+            m_error = "Invalid ar header.";
+        }
     }
 }
 ArInputStream::~ArInputStream() {
@@ -46,12 +53,16 @@ InputStream*
 ArInputStream::nextEntry() {
     if (m_status) return 0;
     if (m_entrystream) {
-        m_entrystream->skip(m_entrystream->size());
+        skipEntry(m_entrystream);
         delete m_entrystream;
         m_entrystream = 0;
+        if (m_status) return 0;
     }
-    readHeader();
-    if (m_status) return 0;
+    // names and symbol tables are stored as special entries without a name
+    do {
+        readHeader();
+        if (m_status) return 0;
+    } while (m_entryinfo.filename.empty());
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
     return m_entrystream;
 }
@@ -96,7 +107,9 @@ ArInputStream::readHeader() {
     char bc[61];
     std::memcpy(bc, b, 60);
     bc[60] = '\0';
-    m_entryinfo.size = atoi(bc+48);
+    m_entryinfo.filename.resize(0);
+    bc[58] = '\0';
+    m_entryinfo.size = strtoll(bc+48, 0, 10);
     if (m_entryinfo.size < 0) {
         m_error = "Error: negative file size.";
         m_status = Error;
@@ -106,17 +119,28 @@ ArInputStream::readHeader() {
     if (len == 0) {
         if (b[1] == '/') {
             // fprintf(stderr, "SIZE: %lli\n", m_entryinfo.size);
-            nread = m_input->read(b, (int32_t)m_entryinfo.size, (int32_t)m_entryinfo.size);
-            if (nread != m_entryinfo.size) {
+            if (m_entryinfo.size > maxNamesSize) {
+                m_error = "Error: the table of file names is too large.";
+                m_status = Error;
+                return;
+            }
+            gnufilenames.resize(0);
+            toread = (int32_t)m_entryinfo.size;
+            if (toread == 0) return;
+            nread = m_input->read(b, toread, toread);
+            if (nread != toread) {
                 m_error = "premature end of stream";
                 m_status = Error;
                 return;
             }
-            gnufilenames.assign(b, (unsigned int)m_entryinfo.size);
-            readHeader();
+            gnufilenames.assign(b, toread);
+            return;
         } else if (b[1] == ' ') {
-            m_input->skip(m_entryinfo.size);
-            readHeader();
+            if (m_input->skip(m_entryinfo.size) != m_entryinfo.size) {
+                m_error = "premature end of stream";
+                m_status = Error;
+            }
+            return;
         } else {
             uint p = atoi(bc+1);
             if (gnufilenames.length() <= p) {
@@ -131,6 +155,11 @@ ArInputStream::readHeader() {
             } else {
                 m_entryinfo.filename = c;
             }
+            if (m_entryinfo.filename.empty()) {
+                m_error = "Invalid name field.";
+                m_status = Error;
+                return;
+            }
         }
     } else {
         m_entryinfo.filename = std::string(b, len);
-- 
2.43.0


From 31f57f7de5f914d07fcf95ecb62a4aa99813369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 08/69] fix: TarInputStream cut-off entries, errors without
 message, large sizes, LongLink

---
 include/strigi/tarinputstream.h |  3 +-
 lib/tarinputstream.cpp          | 90 +++++++++++++++++++++++----------
 2 files changed, 66 insertions(+), 27 deletions(-)

diff --git a/include/strigi/tarinputstream.h b/include/strigi/tarinputstream.h
index 41692a7..c6d0c99 100644
--- a/include/strigi/tarinputstream.h
+++ b/include/strigi/tarinputstream.h
@@ -46,7 +46,8 @@ private:
     void readFileName(int32_t len);
     const char* readHeader();
     void parseHeader();
-    int32_t readOctalField(const char *b, int32_t offset);
+    void prematureEnd();
+    int64_t readOctalField(const char *b, int32_t offset);
     void readLongLink(const char *b);
 public:
     explicit TarInputStream(InputStream *input);
diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index ecda8d7..8916fde 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -26,6 +26,9 @@
 using namespace Strigi;
 using namespace std;
 
+// the longest file name that is accepted
+static const int64_t maxNameSize = 1048576;
+
 TarInputStream::TarInputStream(InputStream* input)
         : SubStreamProvider(input) {
 }
@@ -36,13 +39,17 @@ InputStream*
 TarInputStream::nextEntry() {
     if (m_status) return 0;
     if (m_entrystream) {
-        m_entrystream->skip(m_entrystream->size());
-        m_input->skip(numPaddingBytes);
+        if (skipEntry(m_entrystream)) {
+            m_input->skip(numPaddingBytes);
+        }
         delete m_entrystream;
         m_entrystream = 0;
+        if (m_status) return 0;
     }
-    parseHeader();
-    if (m_status) return 0;
+    do {
+        parseHeader();
+        if (m_status) return 0;
+    } while (m_entryinfo.filename.empty());
     if (m_entryinfo.size >= 0) {
         m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
     }
@@ -53,10 +60,13 @@ TarInputStream::readHeader() {
     // read the first 512 characters
     const char *begin;
     int32_t nread = m_input->read(begin, 512, 512);
-    if (nread == 0 || m_input->status() == Eof) {
-        m_status = Eof;
-    } else if (nread != 512) {
-        m_status = Error;
+    if (nread != 512) {
+        if (m_input->status() == Error) {
+            m_status = Error;
+            m_error = m_input->error();
+        } else {
+            m_status = Eof;
+        }
     }
     return begin;
 }
@@ -95,8 +105,7 @@ TarInputStream::parseHeader() {
 
     hb = readHeader();
     if (m_status) {
-        m_status = Error;
-        m_error = "Premature end of file.";
+        prematureEnd();
         return;
     }
     // a tar file should end with at least 2 blocks of '\0' bytes
@@ -109,8 +118,7 @@ TarInputStream::parseHeader() {
         numZeroBlocks++;
         hb = readHeader();
         if (numZeroBlocks == 1 && m_status == Eof) {
-            m_status = Error;
-            m_error = "Premature end of file.";
+            prematureEnd();
             return;
         } else if (m_status == Error || m_status == Eof) {
             return;
@@ -138,18 +146,28 @@ TarInputStream::parseHeader() {
         m_status = Eof;
         return;
     }
-    if (len > 100) len = 100;
     m_entryinfo.filename.resize(0);
-    if (len == 13 && strncmp(hb, "././@LongLink", 13) == 0) {
+    // a name that is too long for the header comes before it
+    while (strncmp(hb, "././@LongLink", 14) == 0) {
         readLongLink(hb);
         if (m_status) return;
         hb = readHeader();
-        if (m_status) return;
+        if (m_status) {
+            prematureEnd();
+            return;
+        }
+        if (!checkHeader(hb, 257)) {
+            m_error = "Invalid tar header.\n";
+            m_status = Error;
+            return;
+        }
+    }
+    len = strnlen(hb, 100);
+    if (m_entryinfo.filename.length()) {
+        // the name was given by a LongLink
     } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
         // skip initial './' part of filename
-        if (len == 2) { // skip entry './'
-            return parseHeader();
-        }
+        // an entry './' has no name left and is skipped by nextEntry()
         m_entryinfo.filename.append(hb, 2, len-2);
     } else {
         m_entryinfo.filename.append(hb, 0, len);
@@ -167,7 +185,7 @@ TarInputStream::parseHeader() {
     }
 
     len = m_entryinfo.filename.length();
-    if (m_entryinfo.filename[len-1] == '/') {
+    if (len > 1 && m_entryinfo.filename[len-1] == '/') {
         m_entryinfo.filename.resize(len-1);
     }
     // read file type
@@ -180,11 +198,21 @@ TarInputStream::parseHeader() {
     }
 //    printf("!%s %i\n", m_entryinfo.filename.c_str(), hb[156]);
 }
-int32_t
+void
+TarInputStream::prematureEnd() {
+    if (m_status == Error && m_error.length()) return;
+    m_status = Error;
+    m_error = "Premature end of file.";
+}
+int64_t
 TarInputStream::readOctalField(const char *b, int32_t offset) {
-    int32_t val;
-    int r = sscanf(b+offset, "%o", &val);
-    if (r != 1) {
+    // the fields for size and time are 12 bytes long
+    char field[13];
+    memcpy(field, b+offset, 12);
+    field[12] = '\0';
+    char* end;
+    int64_t val = strtoll(field, &end, 8);
+    if (end == field || val < 0) {
         m_status = Error;
         m_error = "Error reading header: octal field is not a valid integer.";
         return 0;
@@ -193,13 +221,21 @@ TarInputStream::readOctalField(const char *b, int32_t offset) {
 }
 void
 TarInputStream::readLongLink(const char *b) {
-    int32_t toread = readOctalField(b, 124);
+    int64_t size = readOctalField(b, 124);
+    if (m_status) return;
+    if (size == 0 || size > maxNameSize) {
+        m_status = Error;
+        m_error = "Error reading LongLink: invalid size.";
+        return;
+    }
+    // 'K' means that the target of a link is given and not a name
+    const bool isName = b[156] != 'K';
+    int32_t toread = (int32_t)size;
     int32_t left = toread%512;
     if (left) {
         left = 512 - left;
     }
     const char *begin;
-    if (m_status) return;
     int32_t nread = m_input->read(begin, toread, toread);
     if (nread != toread) {
             m_status = Error;
@@ -211,7 +247,9 @@ TarInputStream::readLongLink(const char *b) {
             }
             return;
     }
-    m_entryinfo.filename.append(begin, nread);
+    if (isName) {
+        m_entryinfo.filename.assign(begin, strnlen(begin, nread));
+    }
 
     int64_t skipped = m_input->skip(left);
     if (skipped != left) {
-- 
2.43.0


From 3ff3ce72592c48c10200cd148f79d1677accdaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 09/69] fix: CpioInputStream cut-off entries, size and name
 length checks

---
 lib/cpioinputstream.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 5ae2f13..1fb40e7 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -27,6 +27,9 @@
 using namespace std;
 using namespace Strigi;
 
+// the longest file name that is accepted
+static const int32_t maxNameSize = 1048576;
+
 const char unsigned* CpioInputStream::magic = (const char unsigned *)"070701";
 
 bool
@@ -50,21 +53,16 @@ CpioInputStream::nextEntry() {
         return 0;
     }
     if (m_entrystream) {
-        while (m_entrystream->status() == Ok) {
-            m_entrystream->skip(m_entrystream->size());
+        if (skipEntry(m_entrystream) && padding) {
+            m_input->skip(padding);
         }
         delete m_entrystream;
         m_entrystream = 0;
-        if (padding) {
-            m_input->skip(padding);
-        }
+        if (m_status) return 0;
     }
     readHeader();
+    if (m_status) return 0;
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
-    if (m_status) {
-        delete m_entrystream;
-        m_entrystream = 0;
-    }
     return m_entrystream;
 }
 void
@@ -78,12 +76,13 @@ CpioInputStream::readHeader() {
     toread = 110;
     nread = m_input->read(b, toread, toread);
     if (nread != toread) {
-        m_status = m_input->status();
-        if (m_status == Eof) {
+        if (m_input->status() != Error && nread <= 0) {
+            m_status = Eof;
             return;
         }
+        m_status = Error;
         m_error = "Error reading cpio entry: ";
-        if (nread == -1) {
+        if (m_input->status() == Error) {
             m_error += m_input->error();
         } else {
             m_error += " premature end of file.";
@@ -97,10 +96,11 @@ CpioInputStream::readHeader() {
         m_error.append(b, 6);
         return;
     }
-    m_entryinfo.size = readHexField(b+54);
-    m_entryinfo.mtime = readHexField(b+46);
+    m_entryinfo.size = (uint32_t)readHexField(b+54);
+    m_entryinfo.mtime = (uint32_t)readHexField(b+46);
     int32_t filenamesize = readHexField(b+94);
-    if (m_status) {
+    if (filenamesize < 1 || filenamesize > maxNameSize) {
+        m_status = Error;
         m_error = "Error parsing entry field.";
         return;
     }
@@ -120,6 +120,7 @@ CpioInputStream::readHeader() {
     int32_t len = filenamesize - 1;
     if (len > 2 && b[0] == '.' && b[1] == '/') {
         b += 2;
+        filenamesize -= 2;
     }
     // check if the name is not shorter than specified
     len = 0;
@@ -133,7 +134,7 @@ CpioInputStream::readHeader() {
 }
 int32_t
 CpioInputStream::readHexField(const char *b) {
-    int32_t val = 0;
+    uint32_t val = 0;
     char c;
     for (unsigned char i=0; i<8; ++i) {
         val <<= 4;
-- 
2.43.0


From fc5403b91f21f9b50dad75ceda60f92681e94ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 10/69] fix: ZipInputStream cut-off entries, file name errors

---
 lib/zipinputstream.cpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index bd2a20c..27f6635 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -58,31 +58,25 @@ ZipInputStream::nextEntry() {
 	// if this entry is a compressed entry of know size, we can skip to
 	// the end by skipping in the compressed stream, without decompressing
         if (compressedEntryStream) {
-            compressedEntryStream->skip(compressedEntryStream->size());
+            skipEntry(compressedEntryStream);
             delete compressedEntryStream;
             compressedEntryStream = 0;
             delete uncompressionStream;
             uncompressionStream = 0;
 
             // check for a potential signature and skip it if it is there
-            const char* c;
-            int64_t p = m_input->position();
-            int32_t n = m_input->read(c, 16, 16);
-            if (n == 16) {
-                n = readLittleEndianUInt32((const unsigned char*)c);
-                if (n != 0x08074b50) {
+            if (m_status == Ok) {
+                const char* c;
+                int64_t p = m_input->position();
+                int32_t n = m_input->read(c, 16, 16);
+                if (n > 0 && (n != 16
+                        || readLittleEndianUInt32((const unsigned char*)c)
+                            != 0x08074b50)) {
                     m_input->reset(p);
                 }
             }
         } else {
-            int64_t size = m_entrystream->size();
-            if (size < 1) {
-                size = 1024;
-            }
-            while (m_entrystream->status() == Ok) {
-                m_entrystream->skip(size);
-            }
-            if (m_entryinfo.size < 0) {
+            if (skipEntry(m_entrystream) && m_entryinfo.size < 0) {
                 // skip the data descriptor that occurs after the data
                 const char* c;
                 int32_t n = m_input->read(c, 4, 4);
@@ -99,12 +93,12 @@ ZipInputStream::nextEntry() {
                 if (n != 4) {
                     m_status = Error;
                     m_error = "No valid data descriptor after entry data.";
-                    return 0;
                 }
             }
         }
         delete m_entrystream;
         m_entrystream = 0;
+        if (m_status) return NULL;
     }
     // are we at the end of the zip file?
     if (m_input->status() == Eof) {
@@ -150,7 +144,7 @@ ZipInputStream::readHeader() {
     nread = m_input->read(b, toread, toread);
     if (nread != toread) {
         m_error = "Error reading zip header: ";
-        if (nread == -1) {
+        if (m_input->status() == Error) {
             m_error += m_input->error();
         } else {
             m_error += " premature end of file.";
@@ -230,8 +224,10 @@ void
 ZipInputStream::readFileName(int32_t len) {
     m_entryinfo.filename.resize(0);
     const char *begin;
+    if (len <= 0) return;
     int32_t nread = m_input->read(begin, len, len);
     if (nread != len) {
+        m_status = Error;
         m_error = "Error reading filename: ";
         if (nread == -1) {
             m_error += m_input->error();
-- 
2.43.0


From cf16633308b3f358c6a63a7343626c90df9f2419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 11/69] fix: DataEventInputStream end notification, early end
 of input, forward moves

---
 lib/dataeventinputstream.cpp | 51 ++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/lib/dataeventinputstream.cpp b/lib/dataeventinputstream.cpp
index 91da8ee..3c261f7 100644
--- a/lib/dataeventinputstream.cpp
+++ b/lib/dataeventinputstream.cpp
@@ -48,7 +48,10 @@ DataEventInputStream::read(const char*& start, int32_t min, int32_t max) {
         // determined
         if (m_size != -1 && m_position + nread > m_size) {
             nread = (int32_t)(m_size - m_position);
+            if (nread <= 0) nread = -1;
         }
+    }
+    if (nread > 0) {
         m_position += nread;
         // value of -1 for totalread means data should not be reported anymore
         if (totalread != -1 && totalread < m_position) {
@@ -67,19 +70,13 @@ DataEventInputStream::read(const char*& start, int32_t min, int32_t max) {
 //            fprintf(stderr, "set m_size: %lli\n", m_position);
             m_size = m_position;
         }
-#ifndef NDEBUG
-        if (totalread != -1 && (m_size != m_position || m_size != totalread)) {
-            cerr << "m_size: " << m_size << " m_position: " << m_position
-                << " totalread: " << totalread << " nread: " << nread << endl;
-            cerr << input->status() << " " << input->error() << endl;
+        if (m_size != m_position) {
+            m_error = "Premature end of stream\n";
+            m_status = Error;
+            return -2;
         }
-#endif
-        assert(m_size == m_position);
         assert(totalread == -1 || totalread == m_size);
-        if (!finished) {
-            finish();
-            finished = true;
-        }
+        finish();
     }
     return nread;
 }
@@ -90,7 +87,24 @@ DataEventInputStream::skip(int64_t ntoskip) {
         skipped = input->skip(ntoskip);
         m_status = input->status();
         m_position = input->position();
-        m_size = input->size();
+        // ignore bytes that might have been added since the file size was
+        // determined
+        if (m_size != -1 && m_position > m_size) {
+            skipped -= m_position - m_size;
+            m_position = m_size;
+            m_status = Eof;
+        }
+        if (m_status == Eof) {
+            if (m_size == -1) m_size = m_position;
+            if (m_size != m_position) {
+                m_error = "Premature end of stream\n";
+                m_status = Error;
+                return -2;
+            }
+            finish();
+        } else if (m_status == Error) {
+            m_error = input->error();
+        }
     } else {
         // we call the default implementation because it calls
         // read() which is required for sending the signals
@@ -101,19 +115,26 @@ DataEventInputStream::skip(int64_t ntoskip) {
 int64_t
 DataEventInputStream::reset(int64_t np) {
 //    fprintf(stderr, "DataEventInputStream::reset from %lli to %lli.\n", m_position, np);
-    if (np > m_position) {
+    if (np > m_position && totalread != -1 && np > totalread) {
         // advance to the new position, using skip ensure we actually read
         // the files
         skip(np - m_position);
         return m_position;
     }
+    if (m_size != -1 && np > m_size) np = m_size;
 //    fprintf(stderr, "DataEventInputStream::reset\n");
     int64_t newpos = input->reset(np);
     if (newpos < 0) {
         m_status = Error;
         m_error = input->error();
+        return newpos;
+    }
+    if (newpos == m_size) {
+        m_status = Eof;
+        // the data was reported, unless the handler did not want it
+        if (totalread == -1 || totalread == m_size) finish();
     } else {
-        m_status = (newpos == m_size) ?Eof :Ok;
+        m_status = Ok;
     }
 //    fprintf(stderr, "np %lli newpos %lli status %i\n", np, newpos, m_status);
     m_position = newpos;
@@ -121,5 +142,7 @@ DataEventInputStream::reset(int64_t np) {
 }
 void
 DataEventInputStream::finish() {
+    if (finished) return;
+    finished = true;
     handler.handleEnd();
 }
-- 
2.43.0


From f7e8596ea1eb20e032c13bf5910077e72e7201f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 12/69] fix: BZ2InputStream and LZMAInputStream failure
 handling

---
 lib/bz2inputstream.cpp  | 12 +++++-------
 lib/lzmainputstream.cpp |  2 +-
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/bz2inputstream.cpp b/lib/bz2inputstream.cpp
index d4ec6b4..249ad35 100644
--- a/lib/bz2inputstream.cpp
+++ b/lib/bz2inputstream.cpp
@@ -52,19 +52,17 @@ BZ2InputStream::Private::Private(BZ2InputStream* bis, InputStream* i)
     // initialize values that signal state
     this->input = input;
 
+    // dealloc() may be called before the decompressor is initialized
+    memset(&bzstream, 0, sizeof(bzstream));
+
     // check first bytes of stream before allocating buffer
     if (!checkMagic()) {
         p->m_error = "Magic bytes for bz2 are wrong.";
         p->m_status = Error;
-        input = NULL;
+        this->input = NULL;
         return;
     }
 
-    bzstream.bzalloc = NULL;
-    bzstream.bzfree = NULL;
-    bzstream.opaque = NULL;
-    bzstream.avail_in = 0;
-    bzstream.next_in = NULL;
     int r;
     r = BZ2_bzDecompressInit(&bzstream, 1, 0);
     if (r != BZ_OK) {
@@ -111,7 +109,7 @@ BZ2InputStream::Private::readFromStream() {
     const char* inStart;
     int32_t nread;
     nread = input->read(inStart, 1, 0);
-    if (nread <= -1) {
+    if (nread < -1) {
         p->m_status = Error;
         p->m_error = input->error();
     } else if (nread < 1) {
diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index bfec55a..594f42c 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -107,7 +107,7 @@ void
 LZMAInputStream::Private::readFromStream() {
     // read data from the input stream
     avail_in = input->read(next_in, 1, 0);
-    if (avail_in <= -1) {
+    if (avail_in < -1) {
         p->m_status = Error;
         p->m_error = input->error();
     } else if (avail_in < 1) {
-- 
2.43.0


From a82aa89ed47e98d91a6fb8d6464af83a6fe81319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 13/69] fix: DataEventInputStream must not read beyond the
 announced size

---
 lib/dataeventinputstream.cpp | 45 ++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/lib/dataeventinputstream.cpp b/lib/dataeventinputstream.cpp
index 3c261f7..e537b6d 100644
--- a/lib/dataeventinputstream.cpp
+++ b/lib/dataeventinputstream.cpp
@@ -36,6 +36,30 @@ DataEventInputStream::DataEventInputStream(InputStream *i,
 int32_t
 DataEventInputStream::read(const char*& start, int32_t min, int32_t max) {
 //    fprintf(stderr, "input->position(): %lli\n", input->position());
+    if (m_size != -1) {
+        // ignore bytes that might have been added since the file size was
+        // determined
+        const int64_t left = m_size - m_position;
+        if (left <= 0) {
+            m_status = Eof;
+            if (!finished) {
+                // let the input notice that the end was reached
+                if (input->read(start, 1, 1) > 0) {
+                    input->reset(m_position);
+                } else if (input->status() == Error) {
+                    m_error = input->error();
+                    m_status = Error;
+                    return -2;
+                }
+                finish();
+            }
+            return -1;
+        }
+        if (min > left) min = (int32_t)left;
+        if (max < min || max > left) {
+            max = (left > INT32_MAX) ?INT32_MAX :(int32_t)left;
+        }
+    }
     int32_t nread = input->read(start, min, max);
 //    fprintf(stderr, "%p pos: %lli min %i max %i nread %i\n", this, m_position, min, max, nread);
     if (nread < -1) {
@@ -43,14 +67,6 @@ DataEventInputStream::read(const char*& start, int32_t min, int32_t max) {
         m_status = Error;
         return -2;
     }
-    if (nread > 0) {
-        // ignore bytes that might have been added since the file size was
-        // determined
-        if (m_size != -1 && m_position + nread > m_size) {
-            nread = (int32_t)(m_size - m_position);
-            if (nread <= 0) nread = -1;
-        }
-    }
     if (nread > 0) {
         m_position += nread;
         // value of -1 for totalread means data should not be reported anymore
@@ -64,7 +80,7 @@ DataEventInputStream::read(const char*& start, int32_t min, int32_t max) {
             }
         }
     }
-    if (nread < min) {
+    if (nread < min || m_position == m_size) {
         m_status = Eof;
         if (m_size == -1) {
 //            fprintf(stderr, "set m_size: %lli\n", m_position);
@@ -84,14 +100,13 @@ int64_t
 DataEventInputStream::skip(int64_t ntoskip) {
     int64_t skipped;
     if (totalread == -1) { // done reporting, we can use fast skipping
+        if (m_size != -1 && ntoskip > m_size - m_position) {
+            ntoskip = m_size - m_position;
+        }
         skipped = input->skip(ntoskip);
         m_status = input->status();
         m_position = input->position();
-        // ignore bytes that might have been added since the file size was
-        // determined
-        if (m_size != -1 && m_position > m_size) {
-            skipped -= m_position - m_size;
-            m_position = m_size;
+        if (m_position == m_size) {
             m_status = Eof;
         }
         if (m_status == Eof) {
@@ -124,7 +139,7 @@ DataEventInputStream::reset(int64_t np) {
     if (m_size != -1 && np > m_size) np = m_size;
 //    fprintf(stderr, "DataEventInputStream::reset\n");
     int64_t newpos = input->reset(np);
-    if (newpos < 0) {
+    if (newpos < 0 || input->status() == Error) {
         m_status = Error;
         m_error = input->error();
         return newpos;
-- 
2.43.0


From c84e50cd61a53fc74e7e2d0cdc4bcc2a5a5fbcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 14/69] fix: MMapFileInputStream answers -1 at the end and
 stays in the error state

---
 lib/kmpsearcher.cpp         | 2 +-
 lib/mmapfileinputstream.cpp | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/kmpsearcher.cpp b/lib/kmpsearcher.cpp
index f3e9983..7ff9b0f 100644
--- a/lib/kmpsearcher.cpp
+++ b/lib/kmpsearcher.cpp
@@ -114,7 +114,7 @@ KmpSearcher::setQuery(const string& query) {
 }
 const char*
 KmpSearcher::search(const char* haystack, int32_t haylen) const {
-    if (table == 0) return 0;
+    if (table == 0 || haylen < len) return 0;
     const char* needle = m_query.c_str();
 
     int32_t i = 0;
diff --git a/lib/mmapfileinputstream.cpp b/lib/mmapfileinputstream.cpp
index 8552f60..fe49607 100644
--- a/lib/mmapfileinputstream.cpp
+++ b/lib/mmapfileinputstream.cpp
@@ -71,6 +71,10 @@ int32_t
 MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     if (m_status == Error) return -2;
     if (m_status == Eof) return -1;
+    if (m_position == m_size) {
+        m_status = Eof;
+        return -1;
+    }
     int32_t n = max(_min, _max);
     if (n >= m_size - m_position) {
         m_status = Eof;
@@ -82,6 +86,8 @@ MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
 }
 int64_t
 MMapFileInputStream::skip(int64_t ntoskip) {
+    if (m_status == Error) return -2;
+    if (ntoskip <= 0) return 0;
     if (ntoskip >= m_size - m_position) {
         ntoskip = m_size - m_position;
         m_status = Eof;
-- 
2.43.0


From 4f159a6803eec65026f0b1b778242df0089688c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 15/69] fix: StringTerminatedSubStream leaves its input behind
 the terminator after a move to the end

---
 lib/stringterminatedsubstream.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index 7ae0774..acd9279 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -164,7 +164,18 @@ StringTerminatedSubStream::reset(int64_t newpos) {
         return m_position;
     }
     if (newpos == m_position) return m_position;
-    const int64_t pos = p->m_input->reset(newpos + p->m_offset);
+    // the end of this stream lies behind the terminator in the input
+    int64_t pos = -1;
+    if (p->found && newpos == m_size) {
+        const int64_t end = p->m_offset + m_size + p->m_searcher.queryLength();
+        pos = p->m_input->reset(end);
+        if (pos == end) {
+            m_position = m_size;
+            m_status = Eof;
+            return m_position;
+        }
+    }
+    pos = p->m_input->reset(newpos + p->m_offset);
     if (pos < p->m_offset) {
         // the stream is not positioned at a valid m_position
         m_status = Error;
@@ -172,8 +183,9 @@ StringTerminatedSubStream::reset(int64_t newpos) {
         return -2;
     }
     m_position = pos - p->m_offset;
-    if (m_size != -1 && m_position >= m_size) {
-        // the input could not be moved back and is still after the terminator
+    if (m_size != -1 && m_position >= m_size && (!p->found
+            || m_position == m_size + p->m_searcher.queryLength())) {
+        // the input could not be moved back and is still at the end
         m_position = m_size;
         m_status = Eof;
     } else {
-- 
2.43.0


From 303a7563b142a86d21a6b00b1f27c3fc50a8aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 16/69] fix: RpmInputStream must check header sizes and pass on
 errors

---
 lib/rpminputstream.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/lib/rpminputstream.cpp b/lib/rpminputstream.cpp
index 9673284..6ca2aea 100644
--- a/lib/rpminputstream.cpp
+++ b/lib/rpminputstream.cpp
@@ -32,6 +32,16 @@ using namespace Strigi;
 
 class RpmInputStream::RpmHeaderInfo {
 };
+namespace {
+/**
+ * Rpm itself accepts at most 65535 index entries and 256 MB of data.
+ **/
+bool
+headerSizeIsSane(int32_t nindex, int32_t hsize) {
+    return nindex >= 0 && nindex <= 0xffff
+        && hsize >= 0 && hsize <= 256*1024*1024;
+}
+}
 /**
  * RPM files as specified here:
  * http://www.freestandards.org/spec/refspecs/LSB_1.3.0/gLSB/gLSB/swinstall.html
@@ -68,11 +78,15 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     int32_t nindex = readBigEndianInt32(b+8);
     int32_t hsize = readBigEndianInt32(b+12);
+    if (!headerSizeIsSane(nindex, hsize)) {
+        m_error = "invalid size of signature\n";
+        return;
+    }
     int32_t sz = nindex*16+hsize;
     if (sz%8) {
         sz+=8-sz%8;
     }
-    if (m_input->read(b, sz, sz) != sz) {
+    if (sz > 0 && m_input->read(b, sz, sz) != sz) {
         m_error = "RPM seems to be truncated or corrupted.";
         return;
     }
@@ -84,8 +98,12 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     nindex = readBigEndianInt32(b+8);
     hsize = readBigEndianInt32(b+12);
+    if (!headerSizeIsSane(nindex, hsize)) {
+        m_error = "invalid size of header\n";
+        return;
+    }
     int32_t size = nindex*16+hsize;
-    if (m_input->read(b, size, size) != size) {
+    if (size > 0 && m_input->read(b, size, size) != size) {
         m_error = "could not read header\n";
         return;
     }
@@ -139,10 +157,14 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     cpio = new CpioInputStream(uncompressionStream);
     m_status = cpio->status();
+    if (m_status == Error) {
+        m_error = cpio->error();
+    }
 }
 RpmInputStream::~RpmInputStream() {
-    delete uncompressionStream;
+    // the cpio stream reads from the uncompressionStream
     delete cpio;
+    delete uncompressionStream;
     delete headerinfo;
     m_entrystream = 0;
 }
-- 
2.43.0


From 2304a0b91adc292b38ec113dd037b2514f28684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 17/69] fix: SdfInputStream finds every delimiter on any input
 and reports errors

---
 include/strigi/sdfinputstream.h |   1 +
 lib/sdfinputstream.cpp          | 115 ++++++++++++++++++--------------
 2 files changed, 67 insertions(+), 49 deletions(-)

diff --git a/include/strigi/sdfinputstream.h b/include/strigi/sdfinputstream.h
index e4af8d6..77babd0 100644
--- a/include/strigi/sdfinputstream.h
+++ b/include/strigi/sdfinputstream.h
@@ -37,6 +37,7 @@ private:
     KmpSearcher m_searcher;
     static const std::string delimiter;
     static const std::string label;
+    InputStream* inputError();
 public:
     explicit SdfInputStream(InputStream* input);
     ~SdfInputStream();
diff --git a/lib/sdfinputstream.cpp b/lib/sdfinputstream.cpp
index 16e41d7..d8bc64f 100644
--- a/lib/sdfinputstream.cpp
+++ b/lib/sdfinputstream.cpp
@@ -29,6 +29,8 @@ using namespace Strigi;
 
 const string SdfInputStream::delimiter("$$$$");
 const string SdfInputStream::label("V2000");
+// upper limit on the part of the input that is kept to find a delimiter
+static const int32_t maxMoleculeSize = 64*1024*1024;
 
 SdfInputStream::SdfInputStream(InputStream* input)
         : SubStreamProvider(input), substream(0), entrynumber(0),
@@ -82,72 +84,75 @@ InputStream*
 SdfInputStream::nextEntry() {
     if (m_status != Ok) return 0;
 
-    m_input->reset(previousStartOfDelimiter);
-    int32_t nread = 0;
-
     // read anything that's left over in the previous substream
     if (substream) {
-        substream->reset(0);
-        const char* dummy;
-        while (substream->status() == Ok) {
-            substream->read(dummy, 1, 0);
-        }
-        if (substream->status() == Error) {
-            m_status = Error;
-        }
-        if (substream && substream != m_entrystream) {
+        skipEntry(substream);
+        if (substream != m_entrystream) {
             delete substream;
         }
         substream = 0;
         delete m_entrystream;
         m_entrystream = 0;
-    
-        m_input->reset(previousStartOfDelimiter);
-    
-        // eat delimiter and following newlines
-        if (m_input->status() == Ok) {
-            nread = m_input->read(dummy, 4, 4);
-            if (nread == 4 && strncmp(dummy, delimiter.c_str(), 4) == 0) {
-                m_input->read(dummy, 1, 1);
-                while (m_input->status() == Ok && (
-                        strncmp(dummy, "\n", 1) == 0
-                        || strncmp(dummy, "\r", 1) == 0)) {
-                    m_input->read(dummy, 1, 1);
-                }
-            }
+        if (m_status != Ok) return 0;
+    }
+
+    int64_t pos = previousStartOfDelimiter;
+    if (m_input->reset(pos) != pos) {
+        return inputError();
+    }
+
+    // eat delimiter and following newlines
+    const char* start;
+    int32_t nread;
+    if (entrynumber) {
+        nread = m_input->read(start, 4, 4);
+        if (nread == 4 && strncmp(start, delimiter.c_str(), 4) == 0) {
+            do {
+                pos = m_input->position();
+                nread = m_input->read(start, 1, 1);
+            } while (nread == 1 && (*start == '\n' || *start == '\r'));
+        }
+        if (m_input->status() == Error) {
+            return inputError();
+        }
+        // the last byte read was not a newline
+        if (nread == 1 && m_input->reset(pos) != pos) {
+            return inputError();
         }
     }
     // make sure it is not a MOL
     // we can not check it in checkHeader due to low header size limit
     // There is only one way to destinguish between MOL and SD:
     // MOL does not have $$$$ delimiter. Return no entries if it is a MOL.
-    const char* start;
-    const char* end;
-    int32_t total = 0;
-    const int64_t pos = m_input->position();
-    int64_t len=0;
-    
-    while (m_input->status() == Ok) {
-        nread = m_input->read(start, 1024, 0);
+    // Each attempt reads from the start of the molecule, so that the delimiter
+    // is found wherever it is and so that it is possible to move back.
+    const char* end = 0;
+    int32_t toread = 1024;
+    pos = m_input->position();
+    do {
+        nread = m_input->read(start, toread, 0);
         if (nread > 0) {
             end = m_searcher.search(start, nread);
-            if (end) {
-                len = end - start + total;
-                break;
-            }
-            total += nread;
-        }    
-    }    
-    if (m_input->status() == Error) {
-        m_status = Error;
-        m_entrystream = 0;
-        return 0;
+        }
+        if (m_input->status() == Error) {
+            return inputError();
+        }
+        if (end || nread < toread) break;
+        if (nread >= maxMoleculeSize) {
+            m_status = Error;
+            m_error = "Molecule is too large.";
+            return 0;
+        }
+        toread = 2*nread;
+    } while (m_input->reset(pos) == pos);
+
+    if (m_input->reset(pos) != pos) {
+        return inputError();
     }
-    
-    m_input->reset(pos);
-    
-    if (len > 0) {
+
+    if (end && end > start) {
         // this stream is an SD
+        const int64_t len = end - start;
         substream = new SubInputStream(m_input, len);
         previousStartOfDelimiter = m_input->position() + len;
         m_entryinfo.type = EntryInfo::File;
@@ -168,3 +173,15 @@ SdfInputStream::nextEntry() {
         return 0;
     }
 }
+/**
+ * Report that the input failed or that it cannot move back.
+ **/
+InputStream*
+SdfInputStream::inputError() {
+    m_status = Error;
+    m_error = m_input->error();
+    if (m_error.empty()) {
+        m_error = "Error reading SD file.";
+    }
+    return 0;
+}
-- 
2.43.0


From e167a9ee785387a0d16d6be7dbabd987f4f5227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 18/69] fix: OleInputStream bounds checks, small blocks, double
 delete of the entry stream

---
 lib/oleinputstream.cpp | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 343e1d5..734f9e8 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -114,13 +114,17 @@ OleEntryStream::fillBuffer(char* start, int32_t space) {
         d = parent->getCurrentSmallBlock();
         if (d == 0) {
             m_status = Error;
+            m_error = "Invalid OLE stream: error in small blocks.";
             fprintf(stderr, "error in small blocks\n");
 	    return -1;
         }
+    } else if (parent->currentDataBlock < 0
+            || parent->currentDataBlock > parent->maxindex) {
+        d = 0;
     } else {
         d = parent->data+(1+parent->currentDataBlock)*512;
     }
-    if (d < parent->data || parent->data + parent->size < d + n) {
+    if (d < parent->data || parent->data + parent->size < d + blockoffset + n) {
         m_status = Error;
         m_error = "Invalid OLE stream.";
         cerr << "not 0 < " << d-parent->data << " < " << m_size << " "
@@ -143,6 +147,7 @@ OleEntryStream::fillBuffer(char* start, int32_t space) {
             if (parent->currentDataBlock != -2 || done != m_size) {
                 fprintf(stderr, "error: %i\n", parent->currentDataBlock);
                 m_status = Error;
+                m_error = "Invalid OLE stream: broken chain of blocks.";
                 n = -1;
             }
         }
@@ -180,8 +185,11 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     int32_t sBatOffset = readLittleEndianInt32(data+0x3c);
     int32_t xBatOffset = readLittleEndianInt32(data+0x44);
     int32_t nXBat = readLittleEndianInt32(data+0x48);
-    if (!checkHeader(data, size) || nBat < 0 || nBat > 128*nXBat+109
-            || nXBat < 0) {
+    // more blocks than fit in 2GB are not possible
+    const int32_t maxblocks = INT32_MAX/512 - 2;
+    if (!checkHeader(data, size) || nXBat < 0 || nXBat > maxblocks/128
+            || nBat < 0 || nBat > 128*nXBat+109 || nBat > maxblocks/128
+            || ptOffset < 0 || ptOffset > maxblocks) {
         stream->m_status = Error;
         stream->m_error = "Invalid OLE file.";
         return;
@@ -193,6 +201,11 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         int32_t p;
         if (!readInt32(4*i, p)) { return; }
         batIndex.push_back(p);
+        if (p > maxblocks) {
+            stream->m_status = Error;
+            stream->m_error = "Invalid OLE file.";
+            return;
+        }
         if (p > max) max = p;
     }
     if (ptOffset > max) max = ptOffset;
@@ -214,6 +227,11 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         return;
     }
     maxindex = size/512-2;
+    if (ptOffset > maxindex) {
+        stream->m_status = Error;
+        stream->m_error = "File is incomplete.";
+        return;
+    }
 
     // read any remaining BAT entries from XBAT blocks
     xBatOffset = 512 + 512 * xBatOffset;
@@ -266,6 +284,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     currentTableIndex = 0;
 }
 OleInputStream::~OleInputStream() {
+    // the entry stream is owned by p
+    m_entrystream = 0;
     delete p;
 }
 OleInputStream::Private::~Private() {
@@ -334,6 +354,9 @@ OleInputStream::Private::getCurrentSmallBlock() {
     if (i < 0 || i >= (int32_t)sbatbIndex.size()) {
         return 0;
     }
+    if (sbatbIndex[i] > maxindex) {
+        return 0;
+    }
     i = 512*(1+sbatbIndex[i]) + (currentDataBlock%8)*64;
     return (i > size-64) ?0 :d+i;
 }
@@ -372,14 +395,17 @@ OleInputStream::Private::readEntryInfo() {
     currentDataBlock = readLittleEndianInt32(d+0x74);
     currentStreamSize = readLittleEndianInt32(d+0x78);
     stream->m_entryinfo.size = currentStreamSize;
-    if (currentDataBlock > maxindex || currentStreamSize <= 0) {
+    // streams of less than 4096 bytes are stored in small blocks
+    const int32_t maxblock = (currentStreamSize < 4096) ?maxsindex :maxindex;
+    if (currentDataBlock > maxblock || currentStreamSize <= 0) {
         currentDataBlock = -1;
     }
 }
 InputStream*
 OleInputStream::nextEntry() {
+    if (m_status != Ok) return 0;
     m_entrystream = p->nextEntry();
-    if (!m_entrystream) m_status = Eof;
+    if (!m_entrystream && m_status == Ok) m_status = Eof;
     return m_entrystream;
 }
 InputStream*
@@ -389,6 +415,10 @@ OleInputStream::Private::nextEntry() {
         if (++currentTableIndex == 4) {
             currentTableBlock = nextBlock(currentTableBlock);
             if (currentTableBlock < 0) {
+                if (currentTableBlock != -2) {
+                    stream->m_status = Error;
+                    stream->m_error = "Invalid OLE directory.";
+                }
                 return 0;
             }
             currentTableIndex = 0;
-- 
2.43.0


From 49b8f903956c5035051542fc1db8ef64172f5363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 19/69] fix: MailInputStream reports input errors, body starts
 behind the header

---
 lib/mailinputstream.cpp | 79 +++++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 22 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index de95840..efb4bb2 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -335,6 +335,7 @@ public:
     bool checkHeaderLine() const;
     void clearHeaders();
     void ensureFileName();
+    void inputError();
     std::string value(const char* n, const std::string& headerline) const;
 
     Private(MailInputStream* mail);
@@ -379,19 +380,30 @@ MailInputStream::Private::readHeaderLine() {
     bool completeLine = false;
     char c = 0;
 
-    m->m_input->reset(nextLineStartPosition);
+    linestart = lineend = 0;
+    if (m->m_input->reset(nextLineStartPosition) != nextLineStartPosition) {
+        inputError();
+        return;
+    }
     do {
         nread = m->m_input->read(linestart, linepos+1, maxlinesize);
+        if (m->m_input->status() == Error) {
+            linestart = lineend = 0;
+            inputError();
+            return;
+        }
         if (nread < linepos+1) {
-            completeLine = true;
-            lineend = linestart + nread;
+            if (nread <= 0) {
+                linestart = lineend = 0;
+            } else {
+                lineend = linestart + nread;
+            }
             m->m_status = Eof;
             return;
         }
-        m->m_input->reset(nextLineStartPosition);
-        if (m->m_input->status() == Error) {
-            m->m_status = Error;
-            m->m_error = m->m_input->error();
+        if (m->m_input->reset(nextLineStartPosition)
+                != nextLineStartPosition) {
+            inputError();
             return;
         } else if (linepos >= maxlinesize) {
             // error line is too long
@@ -413,7 +425,7 @@ MailInputStream::Private::readHeaderLine() {
                 } else if (state == 1) { // '\r'
                     if (c == '\n') {
                         state = 3;
-                    } else if (c == '\r' || !isspace(c)) { // end
+                    } else if (c == '\r' || linepos == 1 || !isspace(c)) { // end
                         completeLine = true;
                         lineend = linestart + linepos - 1;
                         break;
@@ -421,7 +433,7 @@ MailInputStream::Private::readHeaderLine() {
                         state = 0;
                     }
                 } else if (state == 2) { // '\n'
-                    if (c == '\n' || !isspace(c)) { // end
+                    if (c == '\n' || linepos == 1 || !isspace(c)) { // end
                         completeLine = true;
                         lineend = linestart + linepos - 1;
                         break;
@@ -460,13 +472,25 @@ MailInputStream::Private::value(const char* n, const string& headerline) const {
     if (vend == 0) {
         vend = hl + headerline.length();
     }
-    if (*v == '"' && vend-v > 2) {
-        value.assign(v+1, vend-v-2);
+    const char* quote = (*v == '"') ?strchr(v+1, '"') :0;
+    if (quote) {
+        value.assign(v+1, quote-v-1);
     } else {
         value.assign(v, vend-v);
     }
     return value;
 }
+/**
+ * Report that the input failed or that it cannot move back.
+ **/
+void
+MailInputStream::Private::inputError() {
+    m->m_status = Error;
+    m->m_error = m->m_input->error();
+    if (m->m_error.empty()) {
+        m->m_error = "Error reading mail.";
+    }
+}
 void
 MailInputStream::Private::readHeader() {
     maxlinesize = 1024*1024;
@@ -603,10 +627,14 @@ MailInputStream::Private::handleBodyLine() {
     if (boundary.size() > n) {
         return false;
     }
-    readHeaderLine();
     if (m->m_status != Ok) {
         return false;
     }
+    // the content starts behind the empty line
+    if (m->m_input->reset(nextLineStartPosition) != nextLineStartPosition) {
+        inputError();
+        return false;
+    }
 
     // get the filename
     m->m_entryinfo.filename = value("filename", m_contentdisposition);
@@ -645,21 +673,28 @@ MailInputStream::nextEntry() {
     // if the mail does not consist of multiple parts, we give a pointer to
     // the input stream
     if (p->boundary.size() == 0) {
-        // signal eof because we only return eof once
-        m_status = Eof;
+        if (m_entrystream) {
+            // the body is the only entry
+            if (skipEntry(m_entrystream)) {
+                m_status = Eof;
+            }
+            delete m_entrystream;
+            m_entrystream = 0;
+            return 0;
+        }
+        // the body starts behind the empty line
+        if (m_input->reset(p->nextLineStartPosition)
+                != p->nextLineStartPosition) {
+            p->inputError();
+            return 0;
+        }
         m_entrystream = new SubInputStream(m_input);
         m_entryinfo.filename = "body";
         return m_entrystream;
     }
     // read anything that's left over in the previous stream
     if (p->substream) {
-        const char* dummy;
-        while (p->substream->status() == Ok) {
-            p->substream->read(dummy, 1, 0);
-        }
-        if (p->substream->status() == Error) {
-            m_status = Error;
-        } else {
+        if (skipEntry(p->substream)) {
             p->nextLineStartPosition = p->substream->offset()
                 + p->substream->size();
         }
@@ -676,7 +711,7 @@ MailInputStream::nextEntry() {
     }
     p->scanBody();
 
-    if (m_entrystream == 0) {
+    if (m_entrystream == 0 && m_status == Ok) {
         m_status = Eof;
     }
     p->ensureFileName();
-- 
2.43.0


From 5bacd6be254556ffa241ebba7c99b50a3d3c401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 20/69] fix: SubStreamProviderProvider must not print header
 bytes that were not read

---
 lib/substreamproviderprovider.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lib/substreamproviderprovider.cpp b/lib/substreamproviderprovider.cpp
index b6b3ec8..c8d0b34 100644
--- a/lib/substreamproviderprovider.cpp
+++ b/lib/substreamproviderprovider.cpp
@@ -38,18 +38,14 @@ SubStreamProviderProvider::subStreamProvider(InputStream* input) {
     if (headersize <= 0) {
         return 0;
     }
-    fprintf(stderr, "%x%x%x%x\n", header[0], header[1], header[2], header[3]);
     if (MailInputStream::checkHeader(header, headersize)) {
         return new MailInputStream(input);
     }
     if (ZipInputStream::checkHeader(header, headersize)) {
-        fprintf(stderr, "zip!\n");
         return new ZipInputStream(input);
     }
     if (SdfInputStream::checkHeader(header, headersize)) {
-        fprintf(stderr, "sdf!\n");
         return new SdfInputStream(input);
     }
-    fprintf(stderr, "no match %i\n", headersize);
     return 0;
 }
-- 
2.43.0


From f913a9a123c4367a565dcc080c4a53bd399e8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 21/69] fix: OleInputStream reports entries with missing data
 instead of hiding them

---
 lib/oleinputstream.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 734f9e8..ee42788 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -395,9 +395,8 @@ OleInputStream::Private::readEntryInfo() {
     currentDataBlock = readLittleEndianInt32(d+0x74);
     currentStreamSize = readLittleEndianInt32(d+0x78);
     stream->m_entryinfo.size = currentStreamSize;
-    // streams of less than 4096 bytes are stored in small blocks
-    const int32_t maxblock = (currentStreamSize < 4096) ?maxsindex :maxindex;
-    if (currentDataBlock > maxblock || currentStreamSize <= 0) {
+    // an entry whose data is not in the file is reported when it is read
+    if (currentStreamSize <= 0) {
         currentDataBlock = -1;
     }
 }
-- 
2.43.0


From 2ee94a48ae40ae3ddd0bf012dd5a8eb14eb71a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 22/69] fix: character decoders keep output that does not fit
 and flush the converter

---
 include/strigi/inputstreamreader.h |  4 ++
 lib/encodinginputstream.cpp        | 77 +++++++++++++++++++++++-------
 lib/inputstreamreader.cpp          | 48 +++++++++++++++++--
 3 files changed, 109 insertions(+), 20 deletions(-)

diff --git a/include/strigi/inputstreamreader.h b/include/strigi/inputstreamreader.h
index 9ddba16..e9977f1 100644
--- a/include/strigi/inputstreamreader.h
+++ b/include/strigi/inputstreamreader.h
@@ -44,7 +44,11 @@ private:
     int32_t charsLeft;
 
     StreamBuffer<char> charbuf;
+    // decoded characters that did not fit in the buffer of the caller
+    std::wstring pending;
     void readFromStream();
+    int32_t flush(wchar_t* start, int32_t space);
+    int32_t fill(wchar_t* start, int32_t space);
     int32_t decode(wchar_t* start, int32_t space);
     int32_t fillBuffer(wchar_t* start, int32_t space);
 public:
diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index 7aca985..e9cf4ee 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -40,6 +40,8 @@ public:
     iconv_t converter;
     int32_t charsLeft;
     bool finishedEncoding;
+    // converted bytes that did not fit in the buffer of the caller
+    std::string pending;
 
     Private(EncodingInputStream* eis, InputStream* i, const char* inenc,
             const char* outenc) :p(eis), input(i),
@@ -47,7 +49,9 @@ public:
         if (outenc == 0) {
             outenc = "UTF-8";
         }
-        converter = iconv_open(outenc, inenc);
+        if (inenc) {
+            converter = iconv_open(outenc, inenc);
+        }
     }
     ~Private() {
         if (converter != (iconv_t) -1) {
@@ -55,7 +59,11 @@ public:
         }
     }
     int32_t decode(char* start, int32_t space);
+    int32_t fill(char* start, int32_t space);
+    void flush();
 };
+// no character takes more space than this
+static const int32_t maxCharSize = 64;
 
 EncodingInputStream::EncodingInputStream(InputStream* s, const char* inenc,
         const char* outenc)
@@ -109,7 +117,7 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            nwritten = (int32_t)(outbuf - start);
             break;
         default:
             char tmp[10];
@@ -130,35 +138,72 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
     }
     return nwritten;
 }
+/**
+ * Get what the converter has kept back at the end of the input.
+ **/
+void
+EncodingInputStream::Private::flush() {
+    char tmp[maxCharSize];
+    char* outbuf = tmp;
+    size_t outbytesleft = sizeof(tmp);
+    if (iconv(converter, 0, 0, &outbuf, &outbytesleft) != (size_t)-1) {
+        pending.assign(tmp, outbuf - tmp);
+    }
+}
 int32_t
-EncodingInputStream::fillBuffer(char* start, int32_t space) {
+EncodingInputStream::Private::fill(char* start, int32_t space) {
     // fill up charbuf
-    if (p->input && p->charbuf.readPos == p->charbuf.start) {
+    if (input && charbuf.readPos == charbuf.start
+            && charbuf.avail < charbuf.size) {
         const char *begin;
         int32_t numRead;
-        numRead = p->input->read(begin, 1, p->charbuf.size - p->charbuf.avail);
+        numRead = input->read(begin, 1, charbuf.size - charbuf.avail);
         //printf("filled up charbuf\n");
         if (numRead < -1) {
-            m_error = p->input->error();
-            m_status = Error;
-            p->input = 0;
+            p->m_error = input->error();
+            p->m_status = Error;
+            input = 0;
             return numRead;
         }
         if (numRead < 1) {
             // signal end of input buffer
-            p->input = 0;
-            if (p->charbuf.avail) {
-                m_error = "stream ends on incomplete character";
-                m_status = Error;
+            input = 0;
+            if (charbuf.avail) {
+                p->m_error = "stream ends on incomplete character";
+                p->m_status = Error;
+                return -1;
             }
-            return -1;
+            flush();
+            return pending.empty() ?-1 :0;
         }
         // copy data into other buffer
-        std::memmove(p->charbuf.start + p->charbuf.avail, begin, numRead);
-        p->charbuf.avail = numRead + p->charbuf.avail;
+        std::memmove(charbuf.start + charbuf.avail, begin, numRead);
+        charbuf.avail = numRead + charbuf.avail;
     }
+    if (!input) return -1;
     // decode
-    int32_t n = p->decode(start, space);
+    int32_t n = decode(start, space);
     //printf("decoded %i\n", n);
     return n;
 }
+int32_t
+EncodingInputStream::fillBuffer(char* start, int32_t space) {
+    int32_t n = 0;
+    if (p->pending.empty()) {
+        if (space >= maxCharSize) {
+            n = p->fill(start, space);
+        } else {
+            // there might be too little space for a complete character
+            char tmp[4*maxCharSize];
+            n = p->fill(tmp, sizeof(tmp));
+            if (n > 0) p->pending.assign(tmp, n);
+        }
+    }
+    if (!p->pending.empty()) {
+        n = (int32_t)p->pending.length();
+        if (n > space) n = space;
+        std::memcpy(start, p->pending.data(), n);
+        p->pending.erase(0, n);
+    }
+    return n;
+}
diff --git a/lib/inputstreamreader.cpp b/lib/inputstreamreader.cpp
index 43e471e..64c11be 100644
--- a/lib/inputstreamreader.cpp
+++ b/lib/inputstreamreader.cpp
@@ -35,6 +35,9 @@
 
 using namespace Strigi;
 
+// one step of the converter yields no more characters than this
+static const int32_t maxDecodedSize = 16;
+
 InputStreamReader::InputStreamReader(InputStream* i, const char* enc) {
     m_status = Ok;
     finishedDecoding = false;
@@ -96,7 +99,7 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            nwritten = (int32_t)(((wchar_t*)outbuf) - start);
             break;
         default:
             char tmp[10];
@@ -117,10 +120,24 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
     }
     return nwritten;
 }
+/**
+ * Get what the converter has kept back at the end of the input.
+ **/
 int32_t
-InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
+InputStreamReader::flush(wchar_t* start, int32_t space) {
+    char* outbuf = (char*)start;
+    size_t outbytesleft = sizeof(wchar_t)*space;
+    if (iconv(converter, 0, 0, &outbuf, &outbytesleft) == (size_t)-1) {
+        return -1;
+    }
+    int32_t n = (int32_t)(((wchar_t*)outbuf) - start);
+    return (n) ?n :-1;
+}
+int32_t
+InputStreamReader::fill(wchar_t* start, int32_t space) {
     // fill up charbuf
-    if (input && charbuf.readPos == charbuf.start) {
+    if (input && charbuf.readPos == charbuf.start
+            && charbuf.avail < charbuf.size) {
         const char *begin;
         int32_t numRead;
         numRead = input->read(begin, 1, charbuf.size - charbuf.avail);
@@ -137,15 +154,38 @@ InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
             if (charbuf.avail) {
                 m_error = "stream ends on incomplete character";
                 m_status = Error;
+                return -1;
             }
-            return -1;
+            return flush(start, space);
         }
         // copy data into other buffer
         std::memmove(charbuf.start + charbuf.avail, begin, numRead);
         charbuf.avail = numRead + charbuf.avail;
     }
+    if (!input) return -1;
     // decode
     int32_t n = decode(start, space);
     //printf("decoded %i\n", n);
     return n;
 }
+int32_t
+InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
+    int32_t n = 0;
+    if (pending.empty()) {
+        if (space >= maxDecodedSize) {
+            n = fill(start, space);
+        } else {
+            // there might be too little space for all that one step yields
+            wchar_t tmp[maxDecodedSize];
+            n = fill(tmp, maxDecodedSize);
+            if (n > 0) pending.assign(tmp, n);
+        }
+    }
+    if (!pending.empty()) {
+        n = (int32_t)pending.length();
+        if (n > space) n = space;
+        std::memcpy(start, pending.data(), n*sizeof(wchar_t));
+        pending.erase(0, n);
+    }
+    return n;
+}
-- 
2.43.0


From 31a106fe577f07c167478d25970f78e1da8f7c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 23/69] fix: SubInputStream and DataEventInputStream stay in
 the error state

---
 lib/dataeventinputstream.cpp | 3 +++
 lib/subinputstream.cpp       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/dataeventinputstream.cpp b/lib/dataeventinputstream.cpp
index e537b6d..e65d09a 100644
--- a/lib/dataeventinputstream.cpp
+++ b/lib/dataeventinputstream.cpp
@@ -35,6 +35,7 @@ DataEventInputStream::DataEventInputStream(InputStream *i,
 }
 int32_t
 DataEventInputStream::read(const char*& start, int32_t min, int32_t max) {
+    if (m_status == Error) return -2;
 //    fprintf(stderr, "input->position(): %lli\n", input->position());
     if (m_size != -1) {
         // ignore bytes that might have been added since the file size was
@@ -98,6 +99,7 @@ DataEventInputStream::read(const char*& start, int32_t min, int32_t max) {
 }
 int64_t
 DataEventInputStream::skip(int64_t ntoskip) {
+    if (m_status == Error) return -2;
     int64_t skipped;
     if (totalread == -1) { // done reporting, we can use fast skipping
         if (m_size != -1 && ntoskip > m_size - m_position) {
@@ -129,6 +131,7 @@ DataEventInputStream::skip(int64_t ntoskip) {
 }
 int64_t
 DataEventInputStream::reset(int64_t np) {
+    if (m_status == Error) return -2;
 //    fprintf(stderr, "DataEventInputStream::reset from %lli to %lli.\n", m_position, np);
     if (np > m_position && totalread != -1 && np > totalread) {
         // advance to the new position, using skip ensure we actually read
diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index e53b223..9fd7d00 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -33,6 +33,7 @@ SubInputStream::SubInputStream(InputStream *i, int64_t length)
 }
 int32_t
 SubInputStream::read(const char*& start, int32_t min, int32_t max) {
+    if (m_status == Error) return -2;
     if (m_size != -1) {
         const int64_t left = m_size - m_position;
         if (left <= 0) {
@@ -78,6 +79,7 @@ SubInputStream::read(const char*& start, int32_t min, int32_t max) {
 int64_t
 SubInputStream::reset(int64_t newpos) {
     assert(newpos >= 0);
+    if (m_status == Error) return -2;
 //    fprintf(stderr, "subreset pos: %li newpos: %li m_offset: %li m_size: %li\n",
 //         m_position, newpos, m_offset, m_size);
     // do not leave the part of the input that belongs to this stream
@@ -108,6 +110,7 @@ SubInputStream::reset(int64_t newpos) {
 }
 int64_t
 SubInputStream::skip(int64_t ntoskip) {
+    if (m_status == Error) return -2;
 //    fprintf(stderr, "subskip pos: %li ntoskip: %li m_offset: %li m_size: %li\n", m_position, ntoskip, m_offset, m_size);
     if (m_size == m_position) {
         m_status = Eof;
-- 
2.43.0


From 6e45ea70ee4bbdc6097e37a1ae74f0932697fef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 24/69] fix: opening unseekable and unsized files, failing
 seeks while opening

---
 lib/fileinputstream.cpp         | 13 +++++++++++++
 lib/skippingfileinputstream.cpp |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/lib/fileinputstream.cpp b/lib/fileinputstream.cpp
index f48545a..3c44146 100644
--- a/lib/fileinputstream.cpp
+++ b/lib/fileinputstream.cpp
@@ -26,6 +26,8 @@
 #include <iostream>
 #include <cerrno>
 #include <cstring>
+#include <sys/types.h>
+#include <sys/stat.h>
 
 using namespace Strigi;
 using namespace std;
@@ -62,6 +64,10 @@ FileInputStream::open(FILE* f, const char* path, int32_t buffersize) {
     }
     // determine file size. if the stream is not seekable, the size will be -1
     if (fseeko(file, 0, SEEK_END) == -1) {
+        if (errno != ESPIPE) {
+            setReadError();
+            return;
+        }
         m_size = -1;
     } else {
         m_size = ftello(file);
@@ -132,6 +138,13 @@ FileInputStream::fillBuffer(char* start, int32_t space) {
 InputStream*
 FileInputStream::open(const char* filepath, StreamTypeHint hint,
         int32_t buffersize) {
+    // files that cannot be mapped or repositioned, or do not tell their size
+    // (pipes, files in /proc), and names that cannot be opened at all
+    struct stat s;
+    if (filepath == 0 || (stat(filepath, &s) == 0
+            && ((s.st_mode & S_IFMT) != S_IFREG || s.st_size == 0))) {
+        hint = Buffered;
+    }
     switch (hint) {
     case Buffered:
         return new FileInputStream(filepath, buffersize);
diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index a2a2073..ad12ec5 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -58,6 +58,10 @@ SkippingFileInputStream::open(FILE* f, const char* path) {
     }
     // determine file size. if the stream is not seekable, the size will be -1
     if (fseeko(file, 0, SEEK_END) == -1) {
+        if (errno != ESPIPE) {
+            setReadError();
+            return;
+        }
         m_size = -1;
     } else {
         m_size = ftello(file);
-- 
2.43.0


From a5743efeb69e45dfda11767b4818d4422540fbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 25/69] fix: DataEventInputStream reports a file that ends
 before data already reported

---
 lib/dataeventinputstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/dataeventinputstream.cpp b/lib/dataeventinputstream.cpp
index e65d09a..c1dd4a4 100644
--- a/lib/dataeventinputstream.cpp
+++ b/lib/dataeventinputstream.cpp
@@ -85,7 +85,8 @@ DataEventInputStream::read(const char*& start, int32_t min, int32_t max) {
         m_status = Eof;
         if (m_size == -1) {
 //            fprintf(stderr, "set m_size: %lli\n", m_position);
-            m_size = m_position;
+            // a file that became shorter ends before the data already reported
+            m_size = (totalread > m_position) ?totalread :m_position;
         }
         if (m_size != m_position) {
             m_error = "Premature end of stream\n";
-- 
2.43.0


From fe0bac9f87402f7132d74b0ace870a064a1d3ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 26/69] fix: FileStreamOpener opens no directories

A directory can be opened with fopen() but not be read. The stream for it was
in the state Ok, so the path of a directory was taken for a file.
---
 lib/filestreamopener.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/filestreamopener.cpp b/lib/filestreamopener.cpp
index a4a07ff..d4623e0 100644
--- a/lib/filestreamopener.cpp
+++ b/lib/filestreamopener.cpp
@@ -36,6 +36,11 @@ using namespace Strigi;
 
 InputStream*
 FileStreamOpener::openStream(const string& url) {
+    // a directory can be opened but not be read
+    struct stat st;
+    if (::stat(url.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
+        return 0;
+    }
     InputStream* stream = new FileInputStream(url.c_str());
     if (stream->status() != Ok) {
         delete stream;
-- 
2.43.0


From 351dcadfbdd32e4b87465daf19cf51e2406e6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 27/69] fix: ArchiveReader mistook an entry for another that
 its name is a prefix of

When looking for 'archive/ab', the entry 'a' matched.
---
 lib/archivereader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index c5d1340..764b6b0 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -262,7 +262,9 @@ ArchiveReader::ArchiveReaderPrivate::positionedProvider(const string& url) {
             if (e.type == EntryInfo::File
                     && e.filename.length() < len
                     && strncmp(e.filename.c_str(), sn,
-                           e.filename.length()) == 0) {
+                           e.filename.length()) == 0
+                    && (sn[e.filename.length()] == '/'
+                        || sn[e.filename.length()] == '\0')) {
                 nextstream = true;
                 // skip the number of entries that are matched
                 size_t end = *i + e.filename.length();
-- 
2.43.0


From ffdbbdf4a7f765a51f0b30dc56192ff008c0c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 28/69] fix: ArchiveReader::isArchive() was true for every file
 and directory

An archive is something that is a file and a directory at the same time.
---
 lib/archivereader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 764b6b0..5c24038 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -421,7 +421,7 @@ ArchiveReader::isArchive(const std::string& url) {
     if (p->localStat(url, e) != 0) {
         return false;
     }
-    return ((e.type & (EntryInfo::File | EntryInfo::Dir)) != 0);
+    return (e.type & EntryInfo::File) && (e.type & EntryInfo::Dir);
 }
 std::vector<EntryInfo>
 convert(const ArchiveEntryCache::SubEntry* entry) {
-- 
2.43.0


From 231386aa2a228e907539400cb7ec980a05edd66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 29/69] fix: ArchiveReader returned wrong entries for changed
 files and shared listings

Entries of a changed file were kept, mixed with new ones or freed while in use:
the cache erased them under a wrong name, and listings that had been started
were never compared to the file. A second lister for a listing that was done
lost its root entry. Copies of a DirLister did not share the ownership. An
entry that occurred as a directory already was overwritten and its children
were lost, archives that were not read completely leaked an entry, the header
of lzma data was looked for in two bytes, and the result of a listing that had
failed was kept as the complete one.
---
 lib/archiveentrycache.h   |   8 ++-
 lib/archivereader.cpp     | 133 +++++++++++++++++++++++++++-----------
 lib/listinginprogress.cpp |  41 +++++++++---
 lib/listinginprogress.h   |   6 +-
 4 files changed, 140 insertions(+), 48 deletions(-)

diff --git a/lib/archiveentrycache.h b/lib/archiveentrycache.h
index 5c61f83..576fda3 100644
--- a/lib/archiveentrycache.h
+++ b/lib/archiveentrycache.h
@@ -52,9 +52,13 @@ public:
      * @brief Represents a top-level entry in the cache
      */
     class RootSubEntry : public SubEntry {
+    private:
+        int refcount;
     public:
         /** Constructor */
-        RootSubEntry() :SubEntry() {}
+        RootSubEntry() :SubEntry(), refcount(0) {}
+        void ref() { refcount++; }
+        bool unref() { return --refcount == 0; }
         /** Whether this entry and its subentries have been indexed yet */
         bool indexed;
         const SubEntry* findEntry(const std::string& rootpath,
@@ -63,7 +67,7 @@ public:
     ~ArchiveEntryCache() {
        std::map<std::string, RootSubEntry*>::const_iterator i;
        for (i = cache.begin(); i != cache.end(); ++i) {
-           delete i->second;
+           if (i->second->unref()) delete i->second;
        }
     }
     /**
diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 5c24038..79ad724 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -40,7 +40,7 @@ private:
     const ArchiveEntryCache::SubEntry* entry;
     set<std::string> done;
 public:
-    const std::string url;
+    std::string url;
     explicit Private(const vector<EntryInfo>& v, int p = 0)
         :pos(p), entries(v), listing(NULL), entry(NULL) {
     }
@@ -51,14 +51,20 @@ public:
     ~Private() {
         if (listing && listing->unref()) delete listing;
     }
+    Private(const Private& a)
+            :pos(a.pos), entries(a.entries), listing(a.listing),
+             entry(a.entry), done(a.done), url(a.url) {
+        if (listing) listing->ref();
+    }
     void operator=(const Private& a) {
         pos = a.pos;
         entries = a.entries;
+        if (a.listing) a.listing->ref();
         if (listing && listing->unref()) delete listing;
         listing = a.listing;
-        if (listing) listing->ref();
         entry = a.entry;
         done = a.done;
+        url = a.url;
     }
     bool
     nextEntry(EntryInfo& e) {
@@ -167,6 +173,9 @@ public:
      * @return 0 on success, -1 if the url was not found
      */
     int localStat(const std::string& url, EntryInfo& e);
+    int fileStat(const std::string& url, EntryInfo& e) const;
+    void forgetChangedFile(const std::string& url);
+    void forgetListing(ListingInProgress* lip);
     ArchiveReaderPrivate();
     ~ArchiveReaderPrivate();
     ListingInProgress* findListingInProgress(const string& url) const;
@@ -326,14 +335,8 @@ ArchiveReader::ArchiveReaderPrivate::localStat(const std::string& url,
             map<string, ArchiveEntryCache::RootSubEntry*>::const_iterator se
                 = cache.cache.find(url);
             if (se != cache.cache.end()) {
-                if (se->second->entry.mtime == e.mtime) {
-                    e.type = se->second->entry.type;
-                    return 0;
-                }
-                // the file has changed: it is removed from the cache
-                ArchiveEntryCache::RootSubEntry* rse = se->second;
-                cache.cache.erase(se->second->entry.filename);
-                delete rse;
+                e.type = se->second->entry.type;
+                return 0;
             }
 
             // The file exists, but is it an archive?
@@ -360,6 +363,59 @@ ArchiveReader::ArchiveReaderPrivate::localStat(const std::string& url,
     }
     return -1;
 }
+/**
+ * Query the openers about a physical file.
+ **/
+int
+ArchiveReader::ArchiveReaderPrivate::fileStat(const std::string& url,
+        EntryInfo& e) const {
+    list<StreamOpener*>::const_iterator i;
+    for (i = openers.begin(); i != openers.end(); ++i) {
+        if ((*i)->stat(url, e) == 0) return 0;
+    }
+    return -1;
+}
+/**
+ * If the physical file to which @p url belongs was changed or removed, what is
+ * known about it has to be forgotten.
+ **/
+void
+ArchiveReader::ArchiveReaderPrivate::forgetChangedFile(const string& url) {
+    string name(url);
+    size_t p;
+    do {
+        ArchiveEntryCache::RootCache::iterator c = cache.cache.find(name);
+        map<string, ListingInProgress*>::iterator l
+            = listingsInProgress.find(name);
+        if (c != cache.cache.end() || l != listingsInProgress.end()) {
+            EntryInfo e;
+            bool found = fileStat(name, e) == 0;
+            if (c != cache.cache.end() && (!found
+                    || c->second->entry.mtime != e.mtime
+                    || c->second->entry.size != e.size)) {
+                ArchiveEntryCache::RootSubEntry* root = c->second;
+                cache.cache.erase(c);
+                if (root->unref()) delete root;
+            }
+            if (l != listingsInProgress.end() && (!found
+                    || l->second->root->entry.mtime != e.mtime
+                    || l->second->root->entry.size != e.size)) {
+                forgetListing(l->second);
+            }
+            return;
+        }
+        // remove the last element in the path, and look for that
+        p = name.rfind('/');
+        if (p != string::npos) {
+            name.resize(p);
+        }
+    } while (p != string::npos);
+}
+void
+ArchiveReader::ArchiveReaderPrivate::forgetListing(ListingInProgress* lip) {
+    listingsInProgress.erase(lip->url);
+    if (lip->unref()) delete lip;
+}
 ArchiveReader::ArchiveReader() :p(new ArchiveReaderPrivate()) {
 }
 ArchiveReader::~ArchiveReader() {
@@ -367,6 +423,8 @@ ArchiveReader::~ArchiveReader() {
 }
 int
 ArchiveReader::stat(const std::string& url, EntryInfo& e) {
+    p->forgetChangedFile(url);
+
     // try to stat the url as a physical file
     if (p->localStat(url, e) == 0) return 0;
 
@@ -417,6 +475,8 @@ ArchiveReader::closeStream(InputStream* s) {
 }
 bool
 ArchiveReader::isArchive(const std::string& url) {
+    p->forgetChangedFile(url);
+
     EntryInfo e;
     if (p->localStat(url, e) != 0) {
         return false;
@@ -435,16 +495,29 @@ convert(const ArchiveEntryCache::SubEntry* entry) {
 }
 ArchiveReader::DirLister
 ArchiveReader::dirEntries(const std::string& url) {
-    // find the entry in the cache
-    const ArchiveEntryCache::SubEntry* subentry = p->cache.findEntry(url);
+    p->forgetChangedFile(url);
 
     // look for a ListingInProgress
-    ListingInProgress* lip = NULL;
-    if (subentry == NULL) {
-        lip = p->findListingInProgress(url);
+    ListingInProgress* lip = p->findListingInProgress(url);
+    if (lip && lip->isDone()) {
+        // keep the result of a complete listing in the cache
+        if (!lip->failed()) {
+            lip->root->ref();
+            ArchiveEntryCache::RootSubEntry*& root = p->cache.cache[lip->url];
+            if (root && root->unref()) delete root;
+            root = lip->root;
+        }
+        p->forgetListing(lip);
+        lip = NULL;
     }
     std::vector<EntryInfo> v;
-    if (subentry == NULL && lip == NULL) {
+    if (lip == NULL) {
+        // look in the cache
+        if (p->cache.findRootEntry(url) != p->cache.cache.end()) {
+            v = convert(p->cache.findEntry(url));
+            return DirLister(new DirLister::Private(v));
+        }
+
         // this entry is not in the cache, we try to open it
         InputStream* s = 0;
         vector<size_t> l = p->cullName(url, s);
@@ -458,35 +531,23 @@ ArchiveReader::dirEntries(const std::string& url) {
             // let name be the name of physical file
             name.resize(l[l.size()-1]-1);
         }
+        // get the properties of the physical file before it is opened, so that
+        // a later change will be noticed
+        delete s;
         EntryInfo e;
-        // get the properties of the physical file
         p->localStat(name, e);
+        s = p->open(name);
+        if (!s) return DirLister(new DirLister::Private(v));
         lip = new ListingInProgress(p->subs, e, name, s);
         lip->ref();
         p->listingsInProgress[name] = lip;
     }
-
-    if (lip) {
-        if (lip->isDone()) {
-            p->cache.cache[lip->url] = lip->root;
-            lip->root = 0;
-            p->listingsInProgress.erase(lip->url);
-            if (lip->unref()) delete lip;
-        } else {
-            return DirLister(new DirLister::Private(lip, url));
-        }
-    }
-
-    if (subentry == NULL) {
-        subentry = p->cache.findEntry(url);
-    }
-    if (subentry) {
-        v = convert(subentry);
-    }
-    return DirLister(new DirLister::Private(v));
+    return DirLister(new DirLister::Private(lip, url));
 }
 bool
 ArchiveReader::canHandle(const std::string& url) {
+    p->forgetChangedFile(url);
+
     // remove parts from the back of url until url matches a physical file
     // return true of the physical file is an archive, i.e. contains
     // substreams
diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index d813d03..c1cce6b 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -64,7 +64,25 @@ addEntry(ArchiveEntryCache::SubEntry* parent,
         parent = child;
     }
     // this is what we came for: add the entry to the parent
-    parent->entries[name] = se;
+    ArchiveEntryCache::SubEntry*& place = parent->entries[name];
+    if (place == NULL) {
+        place = se;
+        return;
+    }
+    // There is an entry with this name already. It may be in use, so it has to
+    // stay. If it is a directory, it might be there because of its children.
+    if (place->entry.type == EntryInfo::Dir) {
+        place->entry = se->entry;
+    }
+    ArchiveEntryCache::SubEntryMap::iterator i;
+    for (i = se->entries.begin(); i != se->entries.end(); ++i) {
+        ArchiveEntryCache::SubEntry*& sub = place->entries[i->first];
+        if (sub == NULL) {
+            sub = i->second;
+            i->second = NULL;
+        }
+    }
+    delete se;
 }
 }
 
@@ -115,7 +133,7 @@ subStreamProvider(const Subs& subs, InputStream* input,
                 s->reset(0);
             }
         }
-        n = s->read(c, 2, 0);
+        n = s->read(c, 16, 0);
         s->reset(0);
         if (LZMAInputStream::checkHeader(c, n)) {
             InputStream* ns = new LZMAInputStream(s);
@@ -148,8 +166,8 @@ subStreamProvider(const Subs& subs, InputStream* input,
             }
             // even though the header was good, this stream has no substream
             delete ss;
-            s->reset(0);
-            n = s->read(c, 1, 0);
+            if (s->reset(0) != 0) break;
+            n = s->read(c, 1024, 0);
             s->reset(0);
         }
     }
@@ -159,8 +177,9 @@ subStreamProvider(const Subs& subs, InputStream* input,
 
 ListingInProgress::ListingInProgress(const Subs& sbs,
         const EntryInfo& entry, const std::string& u, InputStream* s)
-        :subs(sbs), stream(s), refcount(0), url(u) {
+        :subs(sbs), stream(s), refcount(0), inputFailed(false), url(u) {
     root = new ArchiveEntryCache::RootSubEntry();
+    root->ref();
     root->entry = entry;
     root->indexed = true;
     stack.resize(10);
@@ -178,8 +197,10 @@ ListingInProgress::ListingInProgress(const Subs& sbs,
 ListingInProgress::~ListingInProgress() {
     for (size_t i=0; i<stack.size(); ++i) {
         free(stack[i].streams);
+        // entries of archives that were not read completely
+        if (i > 0) delete stack[i].entry;
     }
-    delete root;
+    if (root->unref()) delete root;
     delete stream;
 }
 void
@@ -199,8 +220,8 @@ ListingInProgress::fillEntry(InputStream* s) {
 }
 int
 ListingInProgress::nextEntry(int depth) {
-    if (stack.size() < (size_t)(depth+1)) {
-        stack.resize(depth+1);
+    if (stack.size() < (size_t)(depth+2)) {
+        stack.resize(depth+2);
     }
     StackEntry* e = &stack[depth];
     StackEntry* ce = &stack[depth+1];
@@ -228,6 +249,7 @@ ListingInProgress::nextEntry(int depth) {
             ce->entry->entry.size = max(es->size(), (int64_t)0);
         }
         addEntry(e->entry, ce->entry);
+        ce->entry = 0;
         if (!e->p->nextEntry()) {
             free(e->streams);
             e->p = 0;
@@ -240,7 +262,8 @@ ListingInProgress::nextEntry() {
     if (currentdepth >= 0) {
         currentdepth = nextEntry(currentdepth);
     }
-    if (currentdepth < 0) {
+    if (currentdepth < 0 && stream) {
+        inputFailed = stream->status() == Error;
         delete stream;
         stream = 0;
     }
diff --git a/lib/listinginprogress.h b/lib/listinginprogress.h
index a7070fe..6853f4e 100644
--- a/lib/listinginprogress.h
+++ b/lib/listinginprogress.h
@@ -55,7 +55,8 @@ class StackEntry {
 public:
     std::list<StreamPtr> streams; // stream stack that lead to this SubStreamProvider
     Strigi::SubStreamProvider* p;
-    ArchiveEntryCache::SubEntry* entry; // the current entry
+    ArchiveEntryCache::SubEntry* entry; // the current entry, 0 when it has
+                                        // been added to its parent
 };
 
 /*
@@ -76,6 +77,7 @@ private:
     std::vector<StackEntry> stack;
     int currentdepth;
     int refcount;
+    bool inputFailed;
 public:
     ArchiveEntryCache::RootSubEntry* root;
     const std::string url;
@@ -84,6 +86,8 @@ public:
         const std::string& u, Strigi::InputStream* s);
     ~ListingInProgress();
     bool isDone() const;
+    /** Could the physical file not be read to the end? */
+    bool failed() const { return inputFailed; }
     void fillEntry(Strigi::InputStream* s);
     int nextEntry(int depth);
     bool nextEntry();
-- 
2.43.0


From 4ecf65b00f1766a68ae1ab858ea4a1235631a075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 30/69] fix: ArInputStream cut names at an embedded space

A name of up to 15 characters may contain spaces. Only those that pad the
field do not belong to it.
---
 lib/arinputstream.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index b2539fc..4ae7992 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -95,13 +95,17 @@ ArInputStream::readHeader() {
         m_status = Error;
         return;
     }
+    // the name is ended by '/' or '\0' or padded with spaces
     int len;
     for (len=0; len<16; len++) {
         char c = b[len];
-        if (c == ' ' || c == '/' || c == '\0') {
+        if (c == '/' || c == '\0') {
             break;
         }
     }
+    while (len > 0 && b[len-1] == ' ') {
+        len--;
+    }
 
     // we must copy this string to safely call atoi
     char bc[61];
-- 
2.43.0


From 0d85bb2dfd1a0a4421d9c18d35b8d9dcfbbac2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 31/69] fix: MailInputStream gave the body of a simple mail no
 type

ArchiveReader opens only entries of type File, so the body could not be read
from there.
---
 lib/mailinputstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index efb4bb2..7cafac3 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -690,6 +690,7 @@ MailInputStream::nextEntry() {
         }
         m_entrystream = new SubInputStream(m_input);
         m_entryinfo.filename = "body";
+        m_entryinfo.type = EntryInfo::File;
         return m_entrystream;
     }
     // read anything that's left over in the previous stream
-- 
2.43.0


From 25fb32b0ca34d05486bcc2f1dd7873c3cf6f8643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 32/69] fix: ArchiveReader chose between matching formats by
 function address

The formats were kept in a map ordered by the address of the check function. A
zip file with a stored SD file in front could be listed as an SD file.
---
 lib/archivereader.cpp     | 25 +++++++++++--------------
 lib/listinginprogress.cpp |  3 +--
 lib/listinginprogress.h   |  7 +++++--
 3 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 79ad724..9deb5d5 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -149,10 +149,8 @@ public:
     std::list<StreamOpener*> openers;
     /** Cache of EntryInfo object to files that have been read. **/
     ArchiveEntryCache cache;
-    /** Map with pointers to a headerCheck function as key and a factory
-     *  function as value. */
-    std::map<bool (*)(const char*, int32_t),
-        SubStreamProvider* (*)(InputStream*)> subs;
+    /** List with pointers to a headerCheck function and a factory function. **/
+    Subs subs;
     /**
      * A list of dir listings in progress. Each ListingInProgress has a physical
      * file in common. The url of the physical file is the key.
@@ -181,21 +179,20 @@ public:
     ListingInProgress* findListingInProgress(const string& url) const;
 };
 ArchiveReader::ArchiveReaderPrivate::ArchiveReaderPrivate() {
-    typedef std::pair<bool (*)(const char*, int32_t),
-        SubStreamProvider* (*)(InputStream*)> SubsPair;
-
-    subs.insert(SubsPair(MailInputStream::checkHeader,
-        MailInputStream::factory));
-    subs.insert(SubsPair(RpmInputStream::checkHeader,
+    // formats with a magic number come first, because the other checks may
+    // also be true for a file that merely contains such an entry
+    subs.push_back(Subs::value_type(RpmInputStream::checkHeader,
         RpmInputStream::factory));
-    subs.insert(SubsPair(ArInputStream::checkHeader,
+    subs.push_back(Subs::value_type(ArInputStream::checkHeader,
         ArInputStream::factory));
-    subs.insert(SubsPair(ZipInputStream::checkHeader,
+    subs.push_back(Subs::value_type(ZipInputStream::checkHeader,
         ZipInputStream::factory));
-    subs.insert(SubsPair(TarInputStream::checkHeader,
+    subs.push_back(Subs::value_type(TarInputStream::checkHeader,
         TarInputStream::factory));
-    subs.insert(SubsPair(SdfInputStream::checkHeader,
+    subs.push_back(Subs::value_type(SdfInputStream::checkHeader,
         SdfInputStream::factory));
+    subs.push_back(Subs::value_type(MailInputStream::checkHeader,
+        MailInputStream::factory));
 }
 ArchiveReader::ArchiveReaderPrivate::~ArchiveReaderPrivate() {
     if (openstreams.size() > 0) {
diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index c1cce6b..732cb5b 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -152,8 +152,7 @@ subStreamProvider(const Subs& subs, InputStream* input,
     int32_t n = s->read(c, 1024, 0);
     s->reset(0);
     SubStreamProvider* ss;
-    map<bool (*)(const char*, int32_t),
-        SubStreamProvider* (*)(InputStream*)>::const_iterator i;
+    Subs::const_iterator i;
     for (i = subs.begin(); i != subs.end(); ++i) {
         // check if the header matches for each substreamprovider
         if (i->first(c, n)) {
diff --git a/lib/listinginprogress.h b/lib/listinginprogress.h
index 6853f4e..2c405ba 100644
--- a/lib/listinginprogress.h
+++ b/lib/listinginprogress.h
@@ -23,10 +23,13 @@
 #include "archiveentrycache.h"
 #include <strigi/archivereader.h>
 #include <list>
+#include <utility>
 #include <vector>
 
-typedef std::map<bool (*)(const char*, int32_t),
-    Strigi::SubStreamProvider* (*)(Strigi::InputStream*)> Subs;
+/** Pairs of a headerCheck function and a factory function. They are tried in
+ *  the order of the list. **/
+typedef std::list<std::pair<bool (*)(const char*, int32_t),
+    Strigi::SubStreamProvider* (*)(Strigi::InputStream*)> > Subs;
 
 /** Convenience class that holds a pointer to either a stream or a
  *  SubStreamProvider. It ensures proper destruction of the objects pointed
-- 
2.43.0


From 03bc77183f6bab5477e636859d184c3f1e5e27d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:58 +0000
Subject: [PATCH 33/69] fix: ArchiveReader kept using a listing whose file
 could not be read

---
 lib/archivereader.cpp     | 15 +++++++--------
 lib/listinginprogress.cpp |  7 ++++++-
 lib/listinginprogress.h   |  6 +++++-
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 9deb5d5..e6744f9 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -373,8 +373,8 @@ ArchiveReader::ArchiveReaderPrivate::fileStat(const std::string& url,
     return -1;
 }
 /**
- * If the physical file to which @p url belongs was changed or removed, what is
- * known about it has to be forgotten.
+ * If the physical file to which @p url belongs was changed or removed or could
+ * not be read, what is known about it has to be forgotten.
  **/
 void
 ArchiveReader::ArchiveReaderPrivate::forgetChangedFile(const string& url) {
@@ -395,6 +395,7 @@ ArchiveReader::ArchiveReaderPrivate::forgetChangedFile(const string& url) {
                 if (root->unref()) delete root;
             }
             if (l != listingsInProgress.end() && (!found
+                    || l->second->failed()
                     || l->second->root->entry.mtime != e.mtime
                     || l->second->root->entry.size != e.size)) {
                 forgetListing(l->second);
@@ -498,12 +499,10 @@ ArchiveReader::dirEntries(const std::string& url) {
     ListingInProgress* lip = p->findListingInProgress(url);
     if (lip && lip->isDone()) {
         // keep the result of a complete listing in the cache
-        if (!lip->failed()) {
-            lip->root->ref();
-            ArchiveEntryCache::RootSubEntry*& root = p->cache.cache[lip->url];
-            if (root && root->unref()) delete root;
-            root = lip->root;
-        }
+        lip->root->ref();
+        ArchiveEntryCache::RootSubEntry*& root = p->cache.cache[lip->url];
+        if (root && root->unref()) delete root;
+        root = lip->root;
         p->forgetListing(lip);
         lip = NULL;
     }
diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 732cb5b..cd0f36a 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -192,6 +192,7 @@ ListingInProgress::ListingInProgress(const Subs& sbs,
     } else {
         currentdepth = -1;
     }
+    closeWhenDone();
 }
 ListingInProgress::~ListingInProgress() {
     for (size_t i=0; i<stack.size(); ++i) {
@@ -261,12 +262,16 @@ ListingInProgress::nextEntry() {
     if (currentdepth >= 0) {
         currentdepth = nextEntry(currentdepth);
     }
+    closeWhenDone();
+    return currentdepth >= 0;
+}
+void
+ListingInProgress::closeWhenDone() {
     if (currentdepth < 0 && stream) {
         inputFailed = stream->status() == Error;
         delete stream;
         stream = 0;
     }
-    return currentdepth >= 0;
 }
 const ArchiveEntryCache::SubEntry*
 ListingInProgress::nextEntry(const std::string& url) {
diff --git a/lib/listinginprogress.h b/lib/listinginprogress.h
index 2c405ba..46cae82 100644
--- a/lib/listinginprogress.h
+++ b/lib/listinginprogress.h
@@ -81,6 +81,7 @@ private:
     int currentdepth;
     int refcount;
     bool inputFailed;
+    void closeWhenDone();
 public:
     ArchiveEntryCache::RootSubEntry* root;
     const std::string url;
@@ -90,7 +91,10 @@ public:
     ~ListingInProgress();
     bool isDone() const;
     /** Could the physical file not be read to the end? */
-    bool failed() const { return inputFailed; }
+    bool failed() const {
+        return inputFailed
+            || (stream && stream->status() == Strigi::Error);
+    }
     void fillEntry(Strigi::InputStream* s);
     int nextEntry(int depth);
     bool nextEntry();
-- 
2.43.0


From 0429a60881415c055b4c59565611921146d4fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 34/69] fix: ListingInProgress recursed without limit into
 nested archives

---
 lib/listinginprogress.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index cd0f36a..8d1098e 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -28,6 +28,8 @@ using namespace Strigi;
 using namespace std;
 
 namespace {
+/** How many archives inside each other are listed. **/
+const int maxNestingDepth = 64;
 /**
  * Add the entry @p se to the cache.
  * The filename of @p se contains the complete path.
@@ -229,7 +231,9 @@ ListingInProgress::nextEntry(int depth) {
         // create a child entry
         ce->entry = new ArchiveEntryCache::SubEntry();
         ce->entry->entry = e->p->entryInfo();
-        ce->p = subStreamProvider(subs, e->p->currentEntry(), ce->streams);
+        // the entries of archives that are nested too deeply are not listed
+        ce->p = (depth + 1 < maxNestingDepth)
+            ?subStreamProvider(subs, e->p->currentEntry(), ce->streams) :0;
         if (ce->p) {
             // the child has substreams too
             ce->entry->entry.type
-- 
2.43.0


From 4700895ea1f17ea440da4c8f8c9d6f1d94bacdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 35/69] fix: ProcessInputStream signalled a wrong process and
 could leave its child behind

The arguments of kill() were swapped, an interrupted waitpid() left a
zombie, and descriptor 0 was never closed.
---
 lib/processinputstream.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 73dde00..761c584 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -56,16 +56,16 @@ ProcessInputStream::ProcessInputStream(const vector<string>& a,
     }
 }
 ProcessInputStream::~ProcessInputStream() {
-    if (fdin > 0) {
+    if (fdin >= 0) {
         close(fdin);
     }
-    if (fdout > 0) {
+    if (fdout >= 0) {
         close(fdout);
     }
     if (pid != -1) {
-        kill(SIGTERM, pid);
+        kill(pid, SIGTERM);
         int status;
-        waitpid(pid, &status , 0);
+        while (waitpid(pid, &status , 0) == -1 && errno == EINTR) {}
     }
     const char* const* p = args;
     while (*p) {
@@ -103,7 +103,7 @@ ProcessInputStream::writeToPipe() {
 }
 int32_t
 ProcessInputStream::fillBuffer(char* start, int32_t space) {
-    if (fdout <= 0) return -1;
+    if (fdout < 0) return -1;
     if (input && input->status() == Ok) {
         writeToPipe();
     }
@@ -115,7 +115,7 @@ ProcessInputStream::fillBuffer(char* start, int32_t space) {
     }
     if (n <= 0) {
         close(fdout);
-        fdout = 0;
+        fdout = -1;
     }
     return (int32_t)n;
 }
-- 
2.43.0


From 10b7b94571144c66b45dcf60b38d320b9b7b9e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 36/69] fix: ProcessInputStream ended normally when the command
 could not be started

A failing pipe() or fork() is an error of the stream. A failing second
pipe() leaked the first.
---
 lib/processinputstream.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 761c584..f714b2e 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -123,13 +123,15 @@ void
 ProcessInputStream::runCmd() {
     int p[2];
     if (pipe(p) == -1) {
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         return;
     }
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         close (p[0]);
         close (p[1]);
         return;
@@ -154,14 +156,23 @@ void
 ProcessInputStream::runCmdWithInput() {
     int pin[2];
     int pout[2];
-    if (pipe(pin) == -1 || pipe(pout) == -1) {
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+    if (pipe(pin) == -1) {
+        m_error = strerror(errno);
+        m_status = Error;
+        return;
+    }
+    if (pipe(pout) == -1) {
+        m_error = strerror(errno);
+        m_status = Error;
+        close(pin[0]);
+        close(pin[1]);
         return;
     }
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
-        fprintf(stderr,"ProcessInputStream::runCmdWithInput: fork error\n");
+        m_error = strerror(errno);
+        m_status = Error;
         close (pin[0]);
         close (pin[1]);
         close (pout[0]);
-- 
2.43.0


From 1ef9ac859c90cd5aa1fa464f2219543277614aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 37/69] fix: ProcessInputStream lost input and could wedge or
 raise SIGPIPE

The part of the input that a short write left over was skipped, as was
input that arrived together with the end of the input. With both pipes
full, or with input that had ended already, parent and child waited for
each other. Interrupted calls were reported as errors and a command that
stopped reading raised SIGPIPE in the application.
---
 lib/processinputstream.cpp | 67 +++++++++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 8 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index f714b2e..7790a17 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -20,6 +20,8 @@
 #include <strigi/processinputstream.h>
 #include <strigi/strigiconfig.h>
 #include <errno.h>
+#include <fcntl.h>
+#include <poll.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
@@ -35,6 +37,31 @@ using namespace Strigi;
 extern char **environ;
 #endif
 
+namespace {
+// write() to a pipe that may have no reader any more without raising SIGPIPE
+ssize_t
+writeWithoutSignal(int fd, const char* b, size_t n) {
+    sigset_t sigpipe, old, pending;
+    sigemptyset(&sigpipe);
+    sigaddset(&sigpipe, SIGPIPE);
+    sigpending(&pending);
+    bool wasPending = sigismember(&pending, SIGPIPE) == 1;
+    pthread_sigmask(SIG_BLOCK, &sigpipe, &old);
+    ssize_t m = write(fd, b, n);
+    int error = errno;
+    if (m < 0 && error == EPIPE && !wasPending) {
+        sigpending(&pending);
+        if (sigismember(&pending, SIGPIPE) == 1) {
+            int sig;
+            sigwait(&sigpipe, &sig);
+        }
+    }
+    pthread_sigmask(SIG_SETMASK, &old, 0);
+    errno = error;
+    return m;
+}
+}
+
 ProcessInputStream::ProcessInputStream(const vector<string>& a,
         InputStream* input) {
     this->input = input;
@@ -79,7 +106,7 @@ ProcessInputStream::writeToPipe() {
     int64_t pos = input->position();
     const char* b;
     int32_t n = input->read(b, 1, 0);
-    if (n <= 0 || input->status() == Eof) {
+    if (n <= 0) {
         if (input->status() == Error) {
             m_status = Error;
             m_error = input->error();
@@ -91,23 +118,46 @@ ProcessInputStream::writeToPipe() {
         fdin = -1;
     } else {
         // write into the pipe
-        ssize_t m = write(fdin, b, n);
+        ssize_t m = writeWithoutSignal(fdin, b, n);
+        if (m < 0 && (errno == EAGAIN || errno == EINTR)) {
+            m = 0;
+        }
         if (m < 0) {
-            m_error = strerror(errno);
-            m_status = Error;
+            // a command that does not want more input is not an error
+            if (errno != EPIPE) {
+                m_error = strerror(errno);
+                m_status = Error;
+            }
             input = 0;
+            close(fdin);
+            fdin = -1;
         } else if (m != n) {
-            input->reset(pos+n);
+            input->reset(pos+m);
         }
     }
 }
 int32_t
 ProcessInputStream::fillBuffer(char* start, int32_t space) {
     if (fdout < 0) return -1;
-    if (input && input->status() == Ok) {
-        writeToPipe();
+    // feed the command until it has output, never block on one of the pipes
+    while (fdin >= 0) {
+        struct pollfd p[2] = { { fdin, POLLOUT, 0 }, { fdout, POLLIN, 0 } };
+        if (poll(p, 2, -1) == -1) {
+            if (errno == EINTR) continue;
+            m_error = strerror(errno);
+            m_status = Error;
+            return -1;
+        }
+        if (p[0].revents) {
+            writeToPipe();
+            if (m_status == Error) return -1;
+        }
+        if (p[1].revents) break;
     }
-    ssize_t n = ::read(fdout, start, space);
+    ssize_t n;
+    do {
+        n = ::read(fdout, start, space);
+    } while (n < 0 && errno == EINTR);
     if (n < 0) {
         m_error = strerror(errno);
         m_status = Error;
@@ -197,4 +247,5 @@ ProcessInputStream::runCmdWithInput() {
     close(pout[1]);
     fdout = pout[0];
     fdin = pin[1];
+    fcntl(fdin, F_SETFL, fcntl(fdin, F_GETFL) | O_NONBLOCK);
 }
-- 
2.43.0


From e59d353f179c9bd0691c4972c4c0db106001e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 38/69] fix: ProcessInputStream let commands inherit each
 other's pipes

A second command kept the first one's input open, which then never saw
its end. With standard descriptors closed, the pipes were lost in the
child.
---
 lib/processinputstream.cpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 7790a17..dc1f01e 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -38,6 +38,32 @@ extern char **environ;
 #endif
 
 namespace {
+// opens a pipe that other commands do not inherit and that leaves the
+// descriptors of standard input, output and error alone
+int
+openPipe(int p[2]) {
+#ifdef __APPLE__
+    if (pipe(p) == -1) return -1;
+    fcntl(p[0], F_SETFD, FD_CLOEXEC);
+    fcntl(p[1], F_SETFD, FD_CLOEXEC);
+#else
+    if (pipe2(p, O_CLOEXEC) == -1) return -1;
+#endif
+    for (int i = 0; i < 2; ++i) {
+        if (p[i] > 2) continue;
+        int fd = fcntl(p[i], F_DUPFD_CLOEXEC, 3);
+        if (fd == -1) {
+            int error = errno;
+            close(p[0]);
+            close(p[1]);
+            errno = error;
+            return -1;
+        }
+        close(p[i]);
+        p[i] = fd;
+    }
+    return 0;
+}
 // write() to a pipe that may have no reader any more without raising SIGPIPE
 ssize_t
 writeWithoutSignal(int fd, const char* b, size_t n) {
@@ -172,7 +198,7 @@ ProcessInputStream::fillBuffer(char* start, int32_t space) {
 void
 ProcessInputStream::runCmd() {
     int p[2];
-    if (pipe(p) == -1) {
+    if (openPipe(p) == -1) {
         m_error = strerror(errno);
         m_status = Error;
         return;
@@ -206,12 +232,12 @@ void
 ProcessInputStream::runCmdWithInput() {
     int pin[2];
     int pout[2];
-    if (pipe(pin) == -1) {
+    if (openPipe(pin) == -1) {
         m_error = strerror(errno);
         m_status = Error;
         return;
     }
-    if (pipe(pout) == -1) {
+    if (openPipe(pout) == -1) {
         m_error = strerror(errno);
         m_status = Error;
         close(pin[0]);
-- 
2.43.0


From 9c906418d93ba2869515734fa800541200126c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 39/69] fix: ProcessInputStream ended normally when the command
 could not be executed

exit() in the child also wrote unflushed output of the parent into the
stream.
---
 include/strigi/processinputstream.h |  1 +
 lib/processinputstream.cpp          | 53 ++++++++++++++++++++++++++---
 2 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/include/strigi/processinputstream.h b/include/strigi/processinputstream.h
index a75615b..de6030f 100644
--- a/include/strigi/processinputstream.h
+++ b/include/strigi/processinputstream.h
@@ -37,6 +37,7 @@ private:
     void runCmd();
     void runCmdWithInput();
     void writeToPipe();
+    void waitForCommand(int started[2]);
 protected:
     int32_t fillBuffer(char* start, int32_t space);
 public:
diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index dc1f01e..894b73a 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -64,6 +64,14 @@ openPipe(int p[2]) {
     }
     return 0;
 }
+// called in the child when the command could not be executed
+void
+reportToParent(int fd) {
+    int error = errno;
+    while (write(fd, &error, sizeof(error)) == -1 && errno == EINTR) {}
+    // exit() would write the buffered output of the parent into the pipe
+    _exit(EXIT_FAILURE);
+}
 // write() to a pipe that may have no reader any more without raising SIGPIPE
 ssize_t
 writeWithoutSignal(int fd, const char* b, size_t n) {
@@ -162,6 +170,21 @@ ProcessInputStream::writeToPipe() {
         }
     }
 }
+void
+ProcessInputStream::waitForCommand(int started[2]) {
+    // the pipe is closed without an error code when the command is executed
+    int error;
+    ssize_t n;
+    close(started[1]);
+    do {
+        n = ::read(started[0], &error, sizeof(error));
+    } while (n == -1 && errno == EINTR);
+    close(started[0]);
+    if (n == (ssize_t)sizeof(error)) {
+        m_error = strerror(error);
+        m_status = Error;
+    }
+}
 int32_t
 ProcessInputStream::fillBuffer(char* start, int32_t space) {
     if (fdout < 0) return -1;
@@ -198,11 +221,19 @@ ProcessInputStream::fillBuffer(char* start, int32_t space) {
 void
 ProcessInputStream::runCmd() {
     int p[2];
+    int started[2];
     if (openPipe(p) == -1) {
         m_error = strerror(errno);
         m_status = Error;
         return;
     }
+    if (openPipe(started) == -1) {
+        m_error = strerror(errno);
+        m_status = Error;
+        close(p[0]);
+        close(p[1]);
+        return;
+    }
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
@@ -210,6 +241,8 @@ ProcessInputStream::runCmd() {
         m_status = Error;
         close (p[0]);
         close (p[1]);
+        close (started[0]);
+        close (started[1]);
         return;
     }
     
@@ -222,16 +255,17 @@ ProcessInputStream::runCmd() {
         close(2);
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
-        fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        reportToParent(started[1]);
     }
     close(p[1]);
     fdout = p[0];
+    waitForCommand(started);
 }
 void
 ProcessInputStream::runCmdWithInput() {
     int pin[2];
     int pout[2];
+    int started[2];
     if (openPipe(pin) == -1) {
         m_error = strerror(errno);
         m_status = Error;
@@ -244,6 +278,15 @@ ProcessInputStream::runCmdWithInput() {
         close(pin[1]);
         return;
     }
+    if (openPipe(started) == -1) {
+        m_error = strerror(errno);
+        m_status = Error;
+        close (pin[0]);
+        close (pin[1]);
+        close (pout[0]);
+        close (pout[1]);
+        return;
+    }
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
@@ -253,6 +296,8 @@ ProcessInputStream::runCmdWithInput() {
         close (pin[1]);
         close (pout[0]);
         close (pout[1]);
+        close (started[0]);
+        close (started[1]);
         return;
     }
  
@@ -266,12 +311,12 @@ ProcessInputStream::runCmdWithInput() {
         close(2);
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
-        fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        reportToParent(started[1]);
     }
     close(pin[0]);
     close(pout[1]);
     fdout = pout[0];
     fdin = pin[1];
     fcntl(fdin, F_SETFL, fcntl(fdin, F_GETFL) | O_NONBLOCK);
+    waitForCommand(started);
 }
-- 
2.43.0


From a5069bff1ac9cab1db139161343f9344e5c7f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 40/69] fix: Base64InputStream used its tables before they were
 filled in

The flag for the tables was set before the tables were, so that another
thread decoding its first data at that moment read an incomplete table.
---
 lib/base64inputstream.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/lib/base64inputstream.cpp b/lib/base64inputstream.cpp
index 1b344a5..0a1590e 100644
--- a/lib/base64inputstream.cpp
+++ b/lib/base64inputstream.cpp
@@ -48,24 +48,27 @@ const unsigned char alphabet[]
     = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
 bool inalphabet[256];
 unsigned char decoder[133];
-bool initializedAlphabet = false;
 void initialize();
 string decode(const char* in, string::size_type length);
 
 
+static bool
+initializeTables() {
+    // initialize the translation arrays
+    for (int i=64; i<256; ++i) {
+        inalphabet[i] = 0;
+    }
+    for (unsigned char i=0; i<64; ++i) {
+        inalphabet[alphabet[i]] = true;
+        decoder[alphabet[i]] = i;
+    }
+    return true;
+}
 void
 initialize() {
-    if (!initializedAlphabet) {
-        initializedAlphabet = true;
-        // initialize the translation arrays
-        for (int i=64; i<256; ++i) {
-            inalphabet[i] = 0;
-        }
-        for (unsigned char i=0; i<64; ++i) {
-            inalphabet[alphabet[i]] = true;
-            decoder[alphabet[i]] = i;
-        }
-    }
+    // the tables must be complete before any other thread uses them
+    static const bool initialized = initializeTables();
+    (void)initialized;
 }
 
 Base64InputStream::Base64InputStream(InputStream* i) 
-- 
2.43.0


From d3bc349349bc7135248829c05963f9b816d75bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 41/69] fix: times in zip entries lost 16 hours and depended on
 earlier conversions

The mask for the hour had four bits instead of five.  mktime() answers
with the offset it used last for a local time that occurs twice.
---
 lib/dostime.cpp | 64 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/lib/dostime.cpp b/lib/dostime.cpp
index 8076068..85c2669 100644
--- a/lib/dostime.cpp
+++ b/lib/dostime.cpp
@@ -34,29 +34,55 @@
  * min<<5       (min is tm_min, 0-59)
  * sec>>1       (sec is tm_sec, 0-59, that's right, we throw away the LSB)
  *
- * DOS uses local time, so the localtime() call is used to turn the time_t
- * into a struct tm.
+ * DOS uses local time.  mktime() is not used to convert it: for a local time
+ * that occurs twice, its answer depends on the conversions done before.
  */
 
-time_t
-dos2unixtime (unsigned long dostime)
+/* seconds from 1970-01-01 to the given date and time, without a time zone */
+static long long
+secondsSince1970 (int year, int month, int day, int hour, int min, int sec)
 {
-  struct tm ltime;
-  time_t now = time (NULL);
-
-  /* Call localtime to initialize timezone in TIME.  */
-  ltime = *localtime (&now);
+  /* let years start in March, so that the leap day comes last */
+  month -= 3;
+  year += (month < 0) ? -1 : month / 12;
+  month = (month + 12) % 12;
+  const long long days = 365LL * year + year / 4 - year / 100 + year / 400
+      + (153 * month + 2) / 5 + (day - 1) - 719468;
+  return days * 86400 + hour * 3600L + min * 60 + sec;
+}
 
-  ltime.tm_year = (int)(dostime >> 25) + 80;
-  ltime.tm_mon = ((int)(dostime >> 21) & 0x0f) - 1;
-  ltime.tm_mday = (int)(dostime >> 16) & 0x1f;
-  ltime.tm_hour = (int)(dostime >> 11) & 0x0f;
-  ltime.tm_min = (int)(dostime >> 5) & 0x3f;
-  ltime.tm_sec = (int)(dostime & 0x1f) << 1;
+/* seconds that local time is ahead of UTC at the given moment */
+static long long
+utcOffset (long long moment)
+{
+  const time_t t = (time_t)moment;
+  struct tm ltime;
+#ifdef _WIN32
+  const struct tm* l = localtime (&t);
+  if (l == 0)
+    return 0;
+  ltime = *l;
+#else
+  if (localtime_r (&t, &ltime) == 0)
+    return 0;
+#endif
+  return secondsSince1970 (ltime.tm_year + 1900, ltime.tm_mon + 1,
+      ltime.tm_mday, ltime.tm_hour, ltime.tm_min, ltime.tm_sec) - moment;
+}
 
-  ltime.tm_wday = -1;
-  ltime.tm_yday = -1;
-  ltime.tm_isdst = -1;
+time_t
+dos2unixtime (unsigned long dostime)
+{
+  const long long local = secondsSince1970 ((int)((dostime >> 25) & 0x7f) + 1980,
+      (int)(dostime >> 21) & 0x0f, (int)(dostime >> 16) & 0x1f,
+      (int)(dostime >> 11) & 0x1f, (int)(dostime >> 5) & 0x3f,
+      (int)(dostime & 0x1f) << 1);
 
-  return mktime (&ltime);
+  tzset ();
+  const long long before = utcOffset (local - 86400);
+  const long long after = utcOffset (local + 86400);
+  /* the first of two moments with this local time, if there are two */
+  if (utcOffset (local - before) != before && utcOffset (local - after) == after)
+    return (time_t)(local - after);
+  return (time_t)(local - before);
 }
-- 
2.43.0


From b6257e9201e7a6b9ede514d7533c74a5cc6ee6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 42/69] fix: ArInputStream misread modification times after
 2038

atoi() on a field that is not terminated.
---
 lib/arinputstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 4ae7992..93639c5 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -119,7 +119,9 @@ ArInputStream::readHeader() {
         m_status = Error;
         return;
     }
-    m_entryinfo.mtime = atoi(bc+16);
+    // the field for the time is 12 bytes long
+    bc[28] = '\0';
+    m_entryinfo.mtime = (time_t)strtoll(bc+16, 0, 10);
     if (len == 0) {
         if (b[1] == '/') {
             // fprintf(stderr, "SIZE: %lli\n", m_entryinfo.size);
-- 
2.43.0


From 54ab45ff5a77d7547b9562d85da554f607f8cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 43/69] fix: EncodingInputStream lost what the converter could
 not write at the end

A character that the converter keeps back until the end of the input and
that the output character set cannot express was dropped without an error.
---
 lib/encodinginputstream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index e9cf4ee..06bf9de 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -146,9 +146,12 @@ EncodingInputStream::Private::flush() {
     char tmp[maxCharSize];
     char* outbuf = tmp;
     size_t outbytesleft = sizeof(tmp);
-    if (iconv(converter, 0, 0, &outbuf, &outbytesleft) != (size_t)-1) {
-        pending.assign(tmp, outbuf - tmp);
+    if (iconv(converter, 0, 0, &outbuf, &outbytesleft) == (size_t)-1) {
+        p->m_error = "Invalid multibyte sequence.";
+        p->m_status = Error;
+        return;
     }
+    pending.assign(tmp, outbuf - tmp);
 }
 int32_t
 EncodingInputStream::Private::fill(char* start, int32_t space) {
-- 
2.43.0


From 64e07962e6f9c7268eb91990b0666eb337208b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 44/69] fix: folded mail headers lost characters and encoded
 words

Unfolding skipped the character behind the white space, so that the second
of two encoded words was not decoded, and did not know LF line ends.  Words
in an unknown encoding were dropped.
---
 lib/mailinputstream.cpp | 42 +++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 7cafac3..658e788 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -135,6 +135,25 @@ QuotedPrintableDecoder::decodeQuotedPrintable(const char* v, uint32_t len) {
     }
     return decoded;
 }
+/**
+ * Append text without the line ends that fold a header line.
+ **/
+static void
+appendUnfolded(string& out, const char* p, const char* e) {
+    for (; p < e; ++p) {
+        const char* n = (*p == '\r' && e - p > 1 && p[1] == '\n') ?p+1 :p;
+        if (*n == '\n' && e - n > 1 && isblank(n[1])) {
+            p = n;
+        } else {
+            out.append(p, 1);
+        }
+    }
+}
+static bool
+isWhiteSpace(const char* p, const char* e) {
+    while (p < e && isspace(*p)) p++;
+    return p == e;
+}
 /**
  * This function can decode a mail header if it contains utf8 encoded in base64.
  **/
@@ -161,8 +180,16 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
                 s++;
                 continue;
             }
-            // save the stuff from before the encoding
-            decoded.append(p, s-p);
+            if (strchr("bBqQ", q1[1]) == 0) {
+                // not a known encoding
+                s++;
+                continue;
+            }
+            // save the stuff from before the encoding, but not the white space
+            // between two encoded words
+            if (p == v || !isWhiteSpace(p, s)) {
+                appendUnfolded(decoded, p, s);
+            }
             s += 2;
             q1++;
             q2++;
@@ -181,24 +208,15 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
                     decode(encoding, str);
                 }
                 decoded.append(str);
-            } else {
-                s -= 1;
             }
 
             // continue after the quoted data
             s = p = end + 2;
-        } else if (e-s > 3 && s[0] == 13 && s[1] == 10
-                && (s[2] == 9 || s[2] == 32)) {
-            // skip the CRLF WSP used for folding the header lines
-            decoded.append(p, s-p);
-            s = p = s + 4;
         } else {
             s++;
         }
     }
-    if (p < e) {
-        decoded.append(p, e-p);
-    }
+    appendUnfolded(decoded, p, e);
     return decoded;
 }
 
-- 
2.43.0


From 30450a1a76ae7621a363e1fcd86e6a5dd9cbb6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 45/69] fix: mail headers were decoded with the state of
 earlier headers

The converter was not reset, and not asked for what it keeps back.
---
 lib/mailinputstream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 658e788..446ac53 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -87,8 +87,11 @@ Decoder::decode(const string& enc, string& data) {
     if (olen > 0) {
         char* out = buffer;
         char* mem = out;
+        // forget what earlier values have left behind in the converter
+        iconv(conv, 0, 0, 0, 0);
         size_t r = iconv(conv, &in, &ilen, &out, &olen);
-        if (r != (size_t)-1) {
+        // get what the converter has kept back
+        if (r != (size_t)-1 && iconv(conv, 0, 0, &out, &olen) != (size_t)-1) {
             data.assign(mem, out-mem);
         }
     }
-- 
2.43.0


From 95f803c6e2c756db3308cfaf990ce938e67ed190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 46/69] fix: mail header lines with less than eight characters
 were ignored

---
 lib/mailinputstream.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 446ac53..b03e1eb 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -566,9 +566,7 @@ MailInputStream::Private::handleHeaderLine() {
     static const char* contentdisposition = "Content-Disposition:";
     int32_t len = (int32_t)(lineend - linestart);
     if (len < 2) return;
-    if (len < 8) {
-        return;
-    } else if (strncasecmp(linestart, subject, 8) == 0) {
+    if (strncasecmp(linestart, subject, 8) == 0) {
         int32_t offset = 8;
         while (offset < len && isspace(linestart[offset])) offset++;
         m->m_subject = decoder.decodedHeaderValue(linestart+offset, len-offset);
-- 
2.43.0


From 1fea9efc0f7ddcd81bdf4c937635850262b77c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 47/69] fix: recognising an archive depended on how much the
 stream had at hand

---
 lib/listinginprogress.cpp         | 3 ++-
 lib/substreamproviderprovider.cpp | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 8d1098e..a511ba7 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -157,7 +157,8 @@ subStreamProvider(const Subs& subs, InputStream* input,
     Subs::const_iterator i;
     for (i = subs.begin(); i != subs.end(); ++i) {
         // check if the header matches for each substreamprovider
-        if (i->first(c, n)) {
+        // the answer may not depend on how much the stream happens to have
+        if (i->first(c, (n > 1024) ?1024 :n)) {
             // create a new SubStreamProvider
             ss = i->second(s);
             if (ss->nextEntry()) {
diff --git a/lib/substreamproviderprovider.cpp b/lib/substreamproviderprovider.cpp
index c8d0b34..51f4572 100644
--- a/lib/substreamproviderprovider.cpp
+++ b/lib/substreamproviderprovider.cpp
@@ -38,6 +38,10 @@ SubStreamProviderProvider::subStreamProvider(InputStream* input) {
     if (headersize <= 0) {
         return 0;
     }
+    // the answer may not depend on how much the stream happens to have at hand
+    if (headersize > 1024) {
+        headersize = 1024;
+    }
     if (MailInputStream::checkHeader(header, headersize)) {
         return new MailInputStream(input);
     }
-- 
2.43.0


From d35d3b22c34fe98bbd023e3b80f9023106abf3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 48/69] fix: StreamBuffer lost its buffer when it could not
 grow

---
 include/strigi/streambuffer.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/strigi/streambuffer.h b/include/strigi/streambuffer.h
index 5b26435..43b5a19 100644
--- a/include/strigi/streambuffer.h
+++ b/include/strigi/streambuffer.h
@@ -23,6 +23,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <cassert>
+#include <new>
 
 namespace Strigi {
 
@@ -129,7 +130,11 @@ StreamBuffer<T>::setSize(int32_t size) {
     assert(avail+offset <= size); // catch broken offset and avail values when shrinking the buffer
 
     // allocate memory in the buffer
-    start = (T*)std::realloc(start, size*sizeof(T));
+    T* newStart = (T*)std::realloc(start, size*sizeof(T));
+    if (newStart == 0 && size > 0) {
+        throw std::bad_alloc();
+    }
+    start = newStart;
     this->size = size;
 
     // restore pointer information
-- 
2.43.0


From 08ed4bafaa5ba01b28db8a7c29998b6861c86d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 49/69] fix: GZipCompressInputStream used memory it did not get

---
 lib/gzipcompressstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/gzipcompressstream.cpp b/lib/gzipcompressstream.cpp
index 02cf43a..15feba4 100644
--- a/lib/gzipcompressstream.cpp
+++ b/lib/gzipcompressstream.cpp
@@ -36,6 +36,11 @@ GZipCompressInputStream::GZipCompressInputStream(InputStream* input, int level)
 
     // initialize the z_stream
     zstream = (z_stream_s*)malloc(sizeof(z_stream_s));
+    if (zstream == 0) {
+        m_error = "Error initializing GZipCompressInputStream.";
+        m_status = Error;
+        return;
+    }
     zstream->zalloc = Z_NULL;
     zstream->zfree = Z_NULL;
     zstream->opaque = Z_NULL;
-- 
2.43.0


From a1e6feb98b6c8a6836276801861cf6d3ec40b66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 50/69] fix: KmpSearcher used memory it did not get

---
 lib/kmpsearcher.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/kmpsearcher.cpp b/lib/kmpsearcher.cpp
index 7ff9b0f..11ed1df 100644
--- a/lib/kmpsearcher.cpp
+++ b/lib/kmpsearcher.cpp
@@ -20,6 +20,7 @@
 #include <strigi/kmpsearcher.h>
 #include <strigi/strigiconfig.h>
 #include <algorithm>
+#include <new>
 
 /* This is not the KMP algorigthm. We're now using the faster (turbo)
    Boyer-Moore algorithm:
@@ -99,13 +100,12 @@ KmpSearcher::setQuery(const string& query) {
     len = (int32_t)query.length();
     const char* p = query.c_str();
     int32_t tablesize = 4 * (257+len);
-    if (table) {
-        if (len > maxlen) {
-            table = (int32_t*)realloc(table, tablesize);
-            maxlen = len;
+    if (table == 0 || len > maxlen) {
+        int32_t* newTable = (int32_t*)realloc(table, tablesize);
+        if (newTable == 0) {
+            throw bad_alloc();
         }
-    } else {
-        table = (int32_t*)malloc(tablesize);
+        table = newTable;
         maxlen = len;
     }
 
-- 
2.43.0


From 6ec0263cec661b77a749e4ab2d5eb1c9763e19bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 51/69] fix: mail header decoder used memory it did not get

---
 lib/mailinputstream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index b03e1eb..a924f4f 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -29,6 +29,7 @@
 #include "base64inputstream.h"
 #include "iconv.h"
 #include <cstring>
+#include <new>
 #include <sstream>
 #include <iostream>
 
@@ -81,8 +82,12 @@ Decoder::decode(const string& enc, string& data) {
     size_t ilen = data.length();
     size_t olen = 4*ilen;
     if (olen > bufferlen) {
+        char* newBuffer = (char*)realloc(buffer, olen);
+        if (newBuffer == 0) {
+            throw bad_alloc();
+        }
+        buffer = newBuffer;
         bufferlen = olen;
-        buffer = (char*)realloc(buffer, bufferlen);
     }
     if (olen > 0) {
         char* out = buffer;
-- 
2.43.0


From 8ce951afea3b07e65b6aba77e3bbeec208d28923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 52/69] fix: SkippingFileInputStream used memory it did not get

---
 lib/skippingfileinputstream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index ad12ec5..350d1f8 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -124,7 +124,13 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
         }
     }
     if (n > buffersize) {
-        buffer = (char*)realloc(buffer, n);
+        char* newBuffer = (char*)realloc(buffer, n);
+        if (newBuffer == 0) {
+            m_error = "Could not allocate memory to read from " + filepath + '.';
+            m_status = Error;
+            return -2;
+        }
+        buffer = newBuffer;
         buffersize = n;
     }
     int32_t nr = (int32_t)fread(buffer, 1, n, file);
-- 
2.43.0


From 79a1e1099beb6d1e11afa97a4a50f63b3224ac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 53/69] fix: ProcessInputStream used memory it did not get

---
 lib/processinputstream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 894b73a..82f48f8 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -105,6 +105,12 @@ ProcessInputStream::ProcessInputStream(const vector<string>& a,
     char** ar = new char*[a.size()+1];
     for (uint i = 0; i < a.size(); ++i) {
         ar[i] = (char*)malloc(a[i].length()+1);
+        if (ar[i] == 0) {
+            args = ar;
+            m_error = "Could not allocate memory for the command.";
+            m_status = Error;
+            return;
+        }
         memcpy(ar[i], a[i].c_str(), a[i].length()+1);
     }
     ar[a.size()] = 0;
-- 
2.43.0


From 7294eb8afae73274b47725eb2417f148da85f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 54/69] fix: listings interrupted by an exception left null
 entries and were taken for complete

---
 lib/listinginprogress.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index a511ba7..4156a50 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -54,8 +54,11 @@ addEntry(ArchiveEntryCache::SubEntry* parent,
     // find the right entry
     ArchiveEntryCache::SubEntry* child;
     for (size_t i=0; i<names.size(); ++i) {
-        child = parent->entries[names[i]];
-        if (child == NULL) {
+        ArchiveEntryCache::SubEntryMap::iterator ci
+            = parent->entries.find(names[i]);
+        if (ci != parent->entries.end()) {
+            child = ci->second;
+        } else {
             // create a new directory entry if it is not yet in the cache
             child = new ArchiveEntryCache::SubEntry();
             child->entry.filename = names[i];
@@ -265,7 +268,14 @@ ListingInProgress::nextEntry(int depth) {
 bool
 ListingInProgress::nextEntry() {
     if (currentdepth >= 0) {
-        currentdepth = nextEntry(currentdepth);
+        try {
+            currentdepth = nextEntry(currentdepth);
+        } catch (...) {
+            // the listing cannot go on and must not be taken for complete
+            inputFailed = true;
+            currentdepth = -1;
+            throw;
+        }
     }
     closeWhenDone();
     return currentdepth >= 0;
@@ -273,7 +283,7 @@ ListingInProgress::nextEntry() {
 void
 ListingInProgress::closeWhenDone() {
     if (currentdepth < 0 && stream) {
-        inputFailed = stream->status() == Error;
+        inputFailed = inputFailed || stream->status() == Error;
         delete stream;
         stream = 0;
     }
-- 
2.43.0


From 89a52dd33640ce78034ff261cfb2979f00fc09be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:30 +0000
Subject: [PATCH 55/69] fix: OleInputStream could not read the last four bytes
 of a file as a table entry

---
 lib/oleinputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index ee42788..c0fcb3c 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -160,7 +160,7 @@ OleInputStream::OleInputStream(InputStream* input) :SubStreamProvider(input),
 }
 bool
 OleInputStream::Private::readInt32(int32_t offset, int32_t& val) {
-    if (offset < 0 || offset + 4 >= size) {
+    if (offset < 0 || offset > size - 4) {
         stream->m_status = Error;
         stream->m_error = string("pointer out of range.");
         return false;
-- 
2.43.0


From e4d53842e42d637088d4321a80a57c6386851976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:23 +0000
Subject: [PATCH 56/69] fix: ZipInputStream rejected files with members of 2 GB
 or more

---
 include/strigi/zipinputstream.h | 2 +-
 lib/zipinputstream.cpp          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strigi/zipinputstream.h b/include/strigi/zipinputstream.h
index ef0c964..90667c6 100644
--- a/include/strigi/zipinputstream.h
+++ b/include/strigi/zipinputstream.h
@@ -40,7 +40,7 @@ private:
     // information relating to the current entry
     InputStream* compressedEntryStream;
     GZipInputStream *uncompressionStream;
-    int32_t entryCompressedSize;
+    uint32_t entryCompressedSize;
     int32_t compressionMethod;
 
     void readFileName(int32_t len);
diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index 27f6635..fb35d28 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -179,9 +179,9 @@ ZipInputStream::readHeader() {
     m_entryinfo.size = readLittleEndianUInt32(hb + 22);
     // read 4 bytes into the length of the compressed size
     entryCompressedSize = readLittleEndianUInt32(hb + 18);
-    if (entryCompressedSize < 0) {
+    if (entryCompressedSize == 0xffffffff) {
         m_status = Error;
-        m_error = "Corrupt zip file with negative compressed size.";
+        m_error = "Zip file with 64 bit sizes is not supported.";
         return;
     }
     compressionMethod = readLittleEndianUInt16(hb + 8);
@@ -198,7 +198,7 @@ ZipInputStream::readHeader() {
             return;
         }
         m_entryinfo.size = -1;
-        entryCompressedSize = -1;
+        entryCompressedSize = 0;
     }
     unsigned long dost = readLittleEndianUInt32(hb+10);
     m_entryinfo.mtime = dos2unixtime(dost);
-- 
2.43.0


From a8791fedb9191e4848ae09a1838b6dcb60174ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:39 +0000
Subject: [PATCH 57/69] fix: SkippingFileInputStream read as much as the upper
 limit into memory

---
 lib/skippingfileinputstream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index 350d1f8..94077b1 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -29,6 +29,9 @@
 using namespace Strigi;
 using namespace std;
 
+// larger pieces are only read when that much is asked for
+static const int32_t maxbuffersize = 1048576;
+
 SkippingFileInputStream::SkippingFileInputStream(const char* filepath) {
     buffer = 0;
     buffersize = 0;
@@ -114,6 +117,9 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
         if (n > buffersize) {
             n = max(n, 2 * buffersize);
         }
+    } else if (n > maxbuffersize && n > _min) {
+        // the upper limit can be much more than fits in memory
+        n = max(maxbuffersize, _min);
     }
     // do not read more than the size that was announced
     if (m_size != -1 && n > m_size - m_position) {
-- 
2.43.0


From 5cd1cc33865ba515bbc51037211b828d5e4e2343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:01 +0000
Subject: [PATCH 58/69] fix: lzma: an end mark before the announced size is an
 error

A .lzma stream that announces its size and whose end mark comes earlier was
accepted as complete, with less data than announced.
---
 lib/lzmainputstream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index 594f42c..0ea58be 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -165,6 +165,12 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
         }
         p->m_size = bytesDecompressed;
     } else if (status == LZMA_STATUS_FINISHED_WITH_MARK) {
+        if (p->m_size != -1 && p->m_size != bytesDecompressed) {
+            // the data is shorter than announced
+            p->m_error = "unexpected end";
+            p->m_status = Error;
+            return -1;
+        }
         p->m_size = bytesDecompressed;
     }
     return (int32_t)outProcessed;
-- 
2.43.0


From 65f8fdc8d42cf4a8d216120c42f963eacaa65662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:57 +0000
Subject: [PATCH 59/69] fix: TarInputStream kept './' at the start of long
 names

The './' was removed from names in the header only, so that the long names
of an archive made with 'tar c .' did not match the other ones.
---
 lib/tarinputstream.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index 8916fde..fde7cb5 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -165,13 +165,14 @@ TarInputStream::parseHeader() {
     len = strnlen(hb, 100);
     if (m_entryinfo.filename.length()) {
         // the name was given by a LongLink
-    } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
-        // skip initial './' part of filename
-        // an entry './' has no name left and is skipped by nextEntry()
-        m_entryinfo.filename.append(hb, 2, len-2);
     } else {
         m_entryinfo.filename.append(hb, 0, len);
     }
+    if (m_entryinfo.filename.compare(0, 2, "./") == 0) {
+        // skip initial './' part of filename
+        // an entry './' has no name left and is skipped by nextEntry()
+        m_entryinfo.filename.erase(0, 2);
+    }
 
     // read the file size which is in octal format
     m_entryinfo.size = readOctalField(hb, 124);
-- 
2.43.0


From a75b6e0979fd9ab7f9cea757dc17076ea79d879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:57 +0000
Subject: [PATCH 60/69] fix: TarInputStream ignored the prefix field of ustar
 headers

Names of more than 100 bytes are split over two fields in POSIX archives.
Only the last part was used.
---
 lib/tarinputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index fde7cb5..8766ad5 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -166,6 +166,11 @@ TarInputStream::parseHeader() {
     if (m_entryinfo.filename.length()) {
         // the name was given by a LongLink
     } else {
+        if (memcmp(hb+257, "ustar", 6) == 0 && hb[345]) {
+            // the directories of a name that is too long for the name field
+            m_entryinfo.filename.assign(hb+345, strnlen(hb+345, 155));
+            m_entryinfo.filename.append("/");
+        }
         m_entryinfo.filename.append(hb, 0, len);
     }
     if (m_entryinfo.filename.compare(0, 2, "./") == 0) {
-- 
2.43.0


From e9167e107ddcf561bea35d647b815c369abb0a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:57 +0000
Subject: [PATCH 61/69] fix: ZipInputStream passed off compressed data as
 content

Entries with another compression method than deflate were treated as
uncompressed: the client got compressed bytes, followed by the next entries.
---
 lib/zipinputstream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index fb35d28..c24e31b 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -127,8 +127,11 @@ ZipInputStream::nextEntry() {
             m_entrystream = new GZipInputStream(m_input,
                 GZipInputStream::ZIPFORMAT);
         }
-    } else {
+    } else if (compressionMethod == 0) {
         m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
+    } else {
+        m_status = Error;
+        m_error = "Zip compression method is not supported.";
     }
     return m_entrystream;
 }
-- 
2.43.0


From c9c0f61e79da976d45fafa3927524282d99610a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:46 +0000
Subject: [PATCH 62/69] fix: mail: white space behind a boundary hid the part

RFC 2046 allows white space between a boundary and the end of the line.
---
 lib/mailinputstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index a924f4f..c350ffe 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -537,6 +537,8 @@ MailInputStream::Private::scanBody() {
         readHeaderLine();
         int32_t len = (int32_t)(lineend - linestart);
         if (len > 2 && strncmp("--", linestart, 2) == 0) {
+            // white space may follow the boundary
+            while (isblank(linestart[len-1])) len--;
             int32_t blen = (int32_t)boundary.top().length();
             if (len == blen + 4 && strncmp(linestart + 2 + blen, "--", 2) == 0
                     && strncmp(linestart + 2, boundary.top().c_str(), blen)
-- 
2.43.0


From 459cef01e47575df2ed625cbf148f36a485fcaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 63/69] fix: mail: fields of a part replaced those of the mail

A part may have a Subject or a From field of its own. They have no meaning
there (RFC 2045), but subject() and the others returned them as soon as that
part was reached.
---
 lib/mailinputstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index c350ffe..14c1545 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -646,7 +646,8 @@ MailInputStream::Private::handleBodyLine() {
     do {
         readHeaderLine();
         validheader = m->m_status == Ok && checkHeaderLine();
-        if (validheader) {
+        // the other fields are about the mail, not about the part
+        if (validheader && strncasecmp(linestart, "Content-", 8) == 0) {
             handleHeaderLine();
         }
     } while (m->m_status == Ok && validheader);
-- 
2.43.0


From 34ba501438776834ad28eb08f76be30b4247319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:05 +0000
Subject: [PATCH 64/69] fix: listing gave entries of a file that is hidden by
 another of its name

If an archive has several files with one name, opening it and its attributes
refer to the first one. The entries of the later ones were added to it as
well, although no path leads to them.
---
 lib/listinginprogress.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 4156a50..38138f1 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -78,15 +78,17 @@ addEntry(ArchiveEntryCache::SubEntry* parent,
     // stay. If it is a directory, it might be there because of its children.
     if (place->entry.type == EntryInfo::Dir) {
         place->entry = se->entry;
-    }
-    ArchiveEntryCache::SubEntryMap::iterator i;
-    for (i = se->entries.begin(); i != se->entries.end(); ++i) {
-        ArchiveEntryCache::SubEntry*& sub = place->entries[i->first];
-        if (sub == NULL) {
-            sub = i->second;
-            i->second = NULL;
+        ArchiveEntryCache::SubEntryMap::iterator i;
+        for (i = se->entries.begin(); i != se->entries.end(); ++i) {
+            ArchiveEntryCache::SubEntry*& sub = place->entries[i->first];
+            if (sub == NULL) {
+                sub = i->second;
+                i->second = NULL;
+            }
         }
     }
+    // Of several files with the same name, the first one is the one that can
+    // be opened. The entries in the others cannot be reached.
     delete se;
 }
 }
-- 
2.43.0


From 5af5108ccbdb721280f13d8d62a9cc975027df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:01 +0000
Subject: [PATCH 65/69] fix: listing gave entries below a file of an archive

If a file of an archive hides an entry, because the path of the entry leads
through the name of the file, the entry cannot be opened and is no longer
listed.
---
 lib/listinginprogress.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 38138f1..59adf51 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -58,6 +58,11 @@ addEntry(ArchiveEntryCache::SubEntry* parent,
             = parent->entries.find(names[i]);
         if (ci != parent->entries.end()) {
             child = ci->second;
+            if (child->entry.type & EntryInfo::File) {
+                // the path leads into that file, not to this entry
+                delete se;
+                return;
+            }
         } else {
             // create a new directory entry if it is not yet in the cache
             child = new ArchiveEntryCache::SubEntry();
-- 
2.43.0


From f5d43ae81826efc0a094c4f5e1b87ca86a1276d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:01 +0000
Subject: [PATCH 66/69] fix: CpioInputStream gave directories as files

The facade took a directory in an rpm for the file in which the entries below
that directory are, so none of these entries could be opened.
---
 lib/cpioinputstream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 1fb40e7..fc6c713 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -96,6 +96,9 @@ CpioInputStream::readHeader() {
         m_error.append(b, 6);
         return;
     }
+    // the kind of the file is part of its mode
+    m_entryinfo.type = ((readHexField(b+14) & 0170000) == 0040000)
+        ?EntryInfo::Dir :EntryInfo::File;
     m_entryinfo.size = (uint32_t)readHexField(b+54);
     m_entryinfo.mtime = (uint32_t)readHexField(b+46);
     int32_t filenamesize = readHexField(b+94);
-- 
2.43.0


From 2fe9d796d17c096eb5f9d01f30b144480811505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:01 +0000
Subject: [PATCH 67/69] fix: TarInputStream gave the directories of old
 archives as files

Before POSIX, a directory was a member of which the name ends in '/'.
---
 lib/tarinputstream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index 8766ad5..033c845 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -191,12 +191,14 @@ TarInputStream::parseHeader() {
     }
 
     len = m_entryinfo.filename.length();
-    if (len > 1 && m_entryinfo.filename[len-1] == '/') {
+    bool slash = len > 1 && m_entryinfo.filename[len-1] == '/';
+    if (slash) {
         m_entryinfo.filename.resize(len-1);
     }
     // read file type
     if (hb[156] == 0 || hb[156] == '0') {
-        m_entryinfo.type = EntryInfo::File;
+        // old archives have no type for directories
+        m_entryinfo.type = (slash) ?EntryInfo::Dir :EntryInfo::File;
     } else if (hb[156] == '5') {
         m_entryinfo.type = EntryInfo::Dir;
     } else {
-- 
2.43.0


From b203264624c64d86f3fa0388f49ac000c2ef940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:13 +0000
Subject: [PATCH 68/69] fix: mail: do not look for a boundary in a line that
 could not be read

The length of such a line is not known, and skipping the white space at its
end read memory outside of the buffer.
---
 lib/mailinputstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 14c1545..9674796 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -535,6 +535,7 @@ void
 MailInputStream::Private::scanBody() {
     while (m->m_status == Ok) {
         readHeaderLine();
+        if (m->m_status == Error) return;
         int32_t len = (int32_t)(lineend - linestart);
         if (len > 2 && strncmp("--", linestart, 2) == 0) {
             // white space may follow the boundary
-- 
2.43.0


From 5082d8ef85d5d4664e1dff9d114646da6cfe1db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 69/69] fix: a file whose kind is not known was opened
 unbuffered

If stat() fails, the file may still be one that cannot be repositioned or does
not tell its size.
---
 lib/fileinputstream.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/fileinputstream.cpp b/lib/fileinputstream.cpp
index 3c44146..d37f023 100644
--- a/lib/fileinputstream.cpp
+++ b/lib/fileinputstream.cpp
@@ -139,10 +139,11 @@ InputStream*
 FileInputStream::open(const char* filepath, StreamTypeHint hint,
         int32_t buffersize) {
     // files that cannot be mapped or repositioned, or do not tell their size
-    // (pipes, files in /proc), and names that cannot be opened at all
+    // (pipes, files in /proc), or might be of that kind, and names that cannot
+    // be opened at all
     struct stat s;
-    if (filepath == 0 || (stat(filepath, &s) == 0
-            && ((s.st_mode & S_IFMT) != S_IFREG || s.st_size == 0))) {
+    if (filepath == 0 || stat(filepath, &s) != 0
+            || (s.st_mode & S_IFMT) != S_IFREG || s.st_size == 0) {
         hint = Buffered;
     }
     switch (hint) {
-- 
2.43.0

