From 6e8002f852e6a57ad591ed8b42ae7fb5656cb348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 01/49] fix: int_vector_buffer reports failed reads and seeks

A failing read was cleared together with the end-of-file state, a failing
seek never reached the stream state, and moving or swapping a buffer whose
file operation had failed made it good() again.
---
 include/sdsl/int_vector_buffer.hpp | 40 ++++++++++++++++++++++--------
 lib/sfstream.cpp                   |  3 +++
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index 6017015..fa262c0 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -62,9 +62,12 @@ class int_vector_buffer
             } else {
                 m_ifile.seekg(m_offset+(m_begin*width())/8);
                 assert(m_ifile.good());
-                m_ifile.read((char*) m_buffer.data(), (m_buffersize*width())/8);
-                if ((uint64_t)m_ifile.gcount() < (m_buffersize*width())/8) {
-                    m_ifile.clear();
+                if (m_ifile.good()) {
+                    m_ifile.read((char*) m_buffer.data(), (m_buffersize*width())/8);
+                    // reaching the end of the file is fine for the last block, a read error is not
+                    if ((uint64_t)m_ifile.gcount() < (m_buffersize*width())/8 and !m_ifile.bad()) {
+                        m_ifile.clear();
+                    }
                 }
                 assert(m_ifile.good());
                 for (uint64_t i=m_size-m_begin; i<m_buffersize; ++i) {
@@ -92,6 +95,22 @@ class int_vector_buffer
             }
         }
 
+        //! Whether a file operation of an open buffer has failed.
+        bool has_failed()
+        {
+            return is_open() and !good();
+        }
+
+        //! (Re)open the files of a buffer whose content is moved to this one. An earlier failure stays visible.
+        void reopen(const bool failed)
+        {
+            m_ifile.open(m_filename, std::ios::in|std::ios::binary);
+            m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
+            if (failed) {
+                m_ofile.setstate(std::ios::failbit);
+            }
+        }
+
         //! Read value from idx.
         uint64_t read(const uint64_t idx)
         {
@@ -183,10 +202,10 @@ class int_vector_buffer
             m_size(ivb.m_size),
             m_begin(ivb.m_begin)
         {
+            bool failed = ivb.has_failed();
             ivb.m_ifile.close();
             ivb.m_ofile.close();
-            m_ifile.open(m_filename, std::ios::in|std::ios::binary);
-            m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
+            reopen(failed);
             assert(m_ifile.good());
             assert(m_ofile.good());
             // set ivb to default-constructor state
@@ -209,11 +228,11 @@ class int_vector_buffer
         int_vector_buffer<t_width>& operator=(int_vector_buffer&& ivb)
         {
             close();
+            bool failed = ivb.has_failed();
             ivb.m_ifile.close();
             ivb.m_ofile.close();
             m_filename = ivb.m_filename;
-            m_ifile.open(m_filename, std::ios::in|std::ios::binary);
-            m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
+            reopen(failed);
             assert(m_ifile.good());
             assert(m_ofile.good());
             // assign the values of ivb to this
@@ -372,18 +391,17 @@ class int_vector_buffer
         void swap(int_vector_buffer<t_width>& ivb)
         {
             if (this != &ivb) {
+                bool failed = has_failed(), ivb_failed = ivb.has_failed();
                 m_ifile.close();
                 ivb.m_ifile.close();
                 m_ofile.close();
                 ivb.m_ofile.close();
                 std::swap(m_filename, ivb.m_filename);
-                m_ifile.open(m_filename, std::ios::in|std::ios::binary);
+                reopen(ivb_failed);
                 assert(m_ifile.good());
-                m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
                 assert(m_ofile.good());
-                ivb.m_ifile.open(ivb.m_filename, std::ios::in|std::ios::binary);
+                ivb.reopen(failed);
                 assert(ivb.m_ifile.good());
-                ivb.m_ofile.open(ivb.m_filename, std::ios::in|std::ios::out|std::ios::binary);
                 assert(ivb.m_ofile.good());
                 std::swap(m_buffer, ivb.m_buffer);
                 std::swap(m_need_to_write, ivb.m_need_to_write);
diff --git a/lib/sfstream.cpp b/lib/sfstream.cpp
index 848e5d8..a4ce77e 100644
--- a/lib/sfstream.cpp
+++ b/lib/sfstream.cpp
@@ -216,6 +216,7 @@ isfstream::seekg(pos_type pos)
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
@@ -242,6 +243,7 @@ isfstream::seekg(off_type off, std::ios_base::seekdir way)
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
@@ -267,6 +269,7 @@ isfstream::tellg()
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
-- 
2.43.0


From efbc031054270c11069a4df3d96cc03baa2cdbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 02/49] fix: int_vector_buffer::iterator::operator- returned a
 reference to a local

---
 include/sdsl/int_vector_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index fa262c0..b87943b 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -567,7 +567,7 @@ class int_vector_buffer
                     return it += i;
                 }
 
-                iterator& operator-(difference_type i) const
+                iterator operator-(difference_type i) const
                 {
                     iterator it = *this;
                     return it -= i;
-- 
2.43.0


From 4ecb94ed6cc86df25a4eca647d5ca097c2be5438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 03/49] fix: int_vector keeps its value when a resize runs out
 of memory

---
 include/sdsl/memory_management.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 75f83d2..4e8a902 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -346,17 +346,18 @@ class memory_manager
             uint64_t old_size_in_bytes = ((v.m_size + 63) >> 6) << 3;
             uint64_t new_size_in_bytes = ((size + 63) >> 6) << 3;
             bool do_realloc = old_size_in_bytes != new_size_in_bytes;
-            v.m_size = size;
             if (do_realloc || v.m_data == nullptr) {
                 // Note that we allocate 8 additional bytes if m_size % 64 == 0.
                 // We need this padding since rank data structures do a memory
                 // access to this padding to answer rank(size()) if size()%64 ==0.
                 // Note that this padding is not counted in the serialize method!
                 size_t allocated_bytes = (size_t)(((size + 64) >> 6) << 3);
-                v.m_data = memory_manager::realloc_mem(v.m_data, allocated_bytes);
-                if (allocated_bytes != 0 && v.m_data == nullptr) {
+                uint64_t* data = memory_manager::realloc_mem(v.m_data, allocated_bytes);
+                if (allocated_bytes != 0 && data == nullptr) {
                     throw std::bad_alloc();
                 }
+                v.m_data = data;
+                v.m_size = size;
                 // update and fill with 0s
                 if (v.bit_size() < v.capacity()) {
                     uint8_t len = (uint8_t)(v.capacity() - v.bit_size());
@@ -372,6 +373,7 @@ class memory_manager
                     memory_monitor::record((int64_t)new_size_in_bytes - (int64_t)old_size_in_bytes);
                 }
             }
+            v.m_size = size;
         }
         template<class t_vec>
         static void clear(t_vec& v)
-- 
2.43.0


From 3aefbba6a47a4db2818115fddea283903111eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 04/49] fix: store functions report a failed write or close

---
 include/sdsl/io.hpp | 23 ++++++++++++++++++++++-
 lib/io.cpp          | 13 ++++++++-----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 53a618e..48c4c41 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -272,7 +272,8 @@ bool store_to_plain_array(t_int_vec& v, const std::string& file)
             int_type x = v[i];
             out.write((char*)&x, sizeof(int_type));
         }
-        return true;
+        out.close();
+        return !out.fail();
     } else {
         return false;
     }
@@ -664,6 +665,12 @@ bool store_to_file(const T& t, const std::string& file)
     }
     serialize(t,out);
     out.close();
+    if (out.fail()) {
+        if (util::verbose) {
+            std::cerr<<"ERROR: store_to_file not successful for: `"<<file<<"`"<<std::endl;
+        }
+        return false;
+    }
     if (util::verbose) {
         std::cerr<<"INFO: store_to_file: `"<<file<<"`"<<std::endl;
     }
@@ -683,6 +690,12 @@ bool store_to_checked_file(const T& t, const std::string& file)
     }
     add_hash(t, out);
     out.close();
+    if (out.fail()) {
+        if (util::verbose) {
+            std::cerr<<"ERROR: store_to_checked_file not successful for: `"<<checkfile<<"`"<<std::endl;
+        }
+        return false;
+    }
     return store_to_file(t, file);
 }
 
@@ -704,6 +717,10 @@ bool store_to_file(const int_vector<t_width>& v, const std::string& file, bool w
     }
     v.serialize(out, nullptr, "", write_fixed_as_variable);
     out.close();
+    if (out.fail()) {
+        std::cerr<<"ERROR: util::store_to_file:: Could not write file `"<<file<<"`"<<std::endl;
+        return false;
+    }
     return true;
 }
 
@@ -722,6 +739,10 @@ bool store_to_checked_file(const int_vector<t_width>& v, const std::string& file
     }
     add_hash(v, out);
     out.close();
+    if (out.fail()) {
+        std::cerr<<"ERROR: util::store_to_checked_file: Could not write check file `"<<checkfile<<"`"<<std::endl;
+        return false;
+    }
     return store_to_file(v, file, write_fixed_as_variable);
 }
 
diff --git a/lib/io.cpp b/lib/io.cpp
index 695f780..e5b4157 100644
--- a/lib/io.cpp
+++ b/lib/io.cpp
@@ -13,13 +13,13 @@ bool store_to_file(const char* v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file(const char *v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     uint64_t n = strlen((const char*)v);
     out.write(v, n);
     out.close();
-    return true;
+    return !out.fail();
 }
 
 bool store_to_file(const std::string& v, const std::string& file)
@@ -28,12 +28,12 @@ bool store_to_file(const std::string& v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file(const std::string& v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     out.write(v.data(),v.size());
     out.close();
-    return true;
+    return !out.fail();
 }
 
 
@@ -44,11 +44,14 @@ bool store_to_checked_file(const char* v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_checked_file(const char *v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     add_hash(v, out);
     out.close();
+    if (out.fail()) {
+        return false;
+    }
     return store_to_file(v, file);
 }
 
-- 
2.43.0


From 185487eddf5f8e14c3efb1ce550a79f1cd038efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 05/49] fix: load functions report truncated, missing and
 unreadable files

---
 include/sdsl/int_vector.hpp | 11 ++++++++---
 include/sdsl/io.hpp         | 24 ++++++++++++++++++++++--
 lib/io.cpp                  |  6 ++----
 lib/util.cpp                |  4 +++-
 4 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/include/sdsl/int_vector.hpp b/include/sdsl/int_vector.hpp
index 2b2a3a3..c3f2592 100644
--- a/include/sdsl/int_vector.hpp
+++ b/include/sdsl/int_vector.hpp
@@ -1580,10 +1580,15 @@ typename int_vector<t_width>::size_type int_vector<t_width>::serialize(std::ostr
 template<uint8_t t_width>
 void int_vector<t_width>::load(std::istream& in)
 {
-    size_type size;
-    int_vector<t_width>::read_header(size, m_width, in);
-
+    size_type size = 0;
+    int_width_type int_width = m_width;
+    int_vector<t_width>::read_header(size, int_width, in);
+    if (in.fail()) { // no complete header: leave an empty vector
+        bit_resize(0);
+        return;
+    }
     bit_resize(size);
+    width(int_width);
     uint64_t* p = m_data;
     size_type idx = 0;
     while (idx+conf::SDSL_BLOCK_SIZE < (capacity()>>6)) {
diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 48c4c41..a3d35d7 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -25,6 +25,7 @@
 #include "sdsl_concepts.hpp"
 #include "structure_tree.hpp"
 #include <algorithm>
+#include <cstring>
 #include <string>
 #include <vector>
 #include <iostream>
@@ -101,6 +102,9 @@ template<class T>
 void read_member(T& t, std::istream& in)
 {
     in.read((char*)&t, sizeof(t));
+    if (in.fail()) { // never leave a partially read (or uninitialised) value
+        std::memset((char*)&t, 0, sizeof(t));
+    }
 }
 
 // Specialization for std::string
@@ -193,11 +197,15 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
             for (size_t i=0; i < tmp.size(); ++i) {
                 v[i] = tmp[i];
             }
-            return true;
+            return !in.bad();
         }
     } else {
         off_t file_size = util::file_size(file);
         if (file_size == 0) {
+            isfstream in(file, std::ios::in | std::ios::binary);
+            if (!in or in.peek() != isfstream::traits_type::eof() or in.bad()) {
+                return false; // missing or unreadable file
+            }
             v.resize(0);
             return true;
         }
@@ -212,6 +220,9 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
             v.resize(file_size / num_bytes);
             if (8 == t_int_vec::fixed_int_width and 1 == num_bytes) {  // if int_vector<8> is created from byte alphabet file
                 in.read((char*)v.data(), file_size);
+                if (in.gcount() != file_size) {
+                    return false;
+                }
             } else {
                 size_t idx=0;
                 const size_t block_size = conf::SDSL_BLOCK_SIZE*num_bytes;
@@ -223,6 +234,9 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
                 do {
                     in.read((char*)buf.data(), block_size);
                     size_t read = in.gcount();
+                    if (read == 0) {
+                        return false;
+                    }
                     uint8_t* begin = buf.data();
                     uint8_t* end   = begin+read;
                     while (begin < end) {
@@ -758,6 +772,12 @@ bool load_from_file(T& v, const std::string& file)
     }
     load(v, in);
     in.close();
+    if (in.fail()) {
+        if (util::verbose) {
+            std::cerr << "Could not load file `" << file << "`" << std::endl;
+        }
+        return false;
+    }
     if (util::verbose) {
         std::cerr << "Load file `" << file << "`" << std::endl;
     }
@@ -776,7 +796,7 @@ bool load_from_checked_file(T& v, const std::string& file)
     }
     uint64_t hash_value;
     read_member(hash_value, in);
-    if (hash_value != util::hashvalue_of_classname(v)) {
+    if (in.fail() or hash_value != util::hashvalue_of_classname(v)) {
         if (util::verbose) {
             std::cerr << "File `" << file << "` is not an instance of the class `" << sdsl::util::demangle2(typeid(T).name()) << "`" << std::endl;
         }
diff --git a/lib/io.cpp b/lib/io.cpp
index e5b4157..cf03a79 100644
--- a/lib/io.cpp
+++ b/lib/io.cpp
@@ -73,10 +73,8 @@ void read_member<std::string>(std::string& t, std::istream& in)
 {
     std::string::size_type size;
     read_member(size, in);
-    char* buf = new char[size];
-    in.read(buf, size);
-    std::string temp(buf, size);
-    delete [] buf;
+    std::string temp(size, '\0');
+    in.read(&temp[0], size);
     t.swap(temp);
 }
 
diff --git a/lib/util.cpp b/lib/util.cpp
index 4847a65..6c8e9aa 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -171,7 +171,9 @@ size_t file_size(const std::string& file)
         return ram_fs::file_size(file);
     } else {
         struct stat fs;
-        stat(file.c_str(), &fs);
+        if (stat(file.c_str(), &fs) != 0) {
+            return 0;
+        }
         return fs.st_size;
     }
 }
-- 
2.43.0


From a3309118ec6f87e352bbf3c3b6822be31f1caa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 06/49] fix: renaming or removing a missing RAM file failed
 silently, renaming it to itself lost it

---
 lib/ram_fs.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/ram_fs.cpp b/lib/ram_fs.cpp
index 532f808..bff89fa 100644
--- a/lib/ram_fs.cpp
+++ b/lib/ram_fs.cpp
@@ -72,16 +72,21 @@ int
 ram_fs::remove(const std::string& name)
 {
     std::lock_guard<std::recursive_mutex> lock(m_rlock);
-    m_map.erase(name);
-    return 0;
+    return m_map.erase(name) > 0 ? 0 : -1;
 }
 
 int
 ram_fs::rename(const std::string old_filename, const std::string new_filename)
 {
     std::lock_guard<std::recursive_mutex> lock(m_rlock);
-    m_map[new_filename] = std::move(m_map[old_filename]);
-    remove(old_filename);
+    auto it = m_map.find(old_filename);
+    if (it == m_map.end()) {
+        return -1;
+    }
+    if (old_filename != new_filename) {
+        m_map[new_filename] = std::move(it->second);
+        m_map.erase(old_filename);
+    }
     return 0;
 }
 
-- 
2.43.0


From c2094917357d31bdd2996fdc7ce67a42930f3064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 07/49] fix: RAM file streams honour open modes and positions
 like file streams

---
 include/sdsl/ram_filebuf.hpp |   7 ++
 lib/ram_filebuf.cpp          | 145 +++++++++++++++++++----------------
 2 files changed, 85 insertions(+), 67 deletions(-)

diff --git a/include/sdsl/ram_filebuf.hpp b/include/sdsl/ram_filebuf.hpp
index 04ccfe1..a4c4929 100644
--- a/include/sdsl/ram_filebuf.hpp
+++ b/include/sdsl/ram_filebuf.hpp
@@ -12,7 +12,10 @@ class ram_filebuf : public std::streambuf
 {
     private:
         ram_fs::content_type* m_ram_file = nullptr;  // file handle
+        std::ios_base::openmode m_mode = std::ios_base::in;
+        std::ptrdiff_t m_beyond = 0;  // distance of the position from the end of the file, if it lies behind the end
         void pbump64(std::ptrdiff_t);
+        void set_position(size_t pos);
 
     public:
         virtual ~ram_filebuf();
@@ -32,6 +35,10 @@ class ram_filebuf : public std::streambuf
         seekpos(pos_type sp,
                 std::ios_base::openmode which = std::ios_base::in | std::ios_base::out) override;
 
+        pos_type
+        seekoff(off_type off, std::ios_base::seekdir way,
+                std::ios_base::openmode which = std::ios_base::in | std::ios_base::out) override;
+
         pos_type
         pubseekoff(off_type off, std::ios_base::seekdir way,
                    std::ios_base::openmode which = std::ios_base::in | std::ios_base::out);
diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index eacb8a0..dd4ff4b 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -19,45 +19,52 @@ ram_filebuf::ram_filebuf(std::vector<char>& ram_file) : m_ram_file(&ram_file)
 {
     char* begin = m_ram_file->data();
     char* end   = begin + m_ram_file->size();
+    m_mode = std::ios_base::in;
     setg(begin, begin, end); // set get pointers eback(), eptr(), egptr()
 }
 
 std::streambuf*
 ram_filebuf::open(const std::string name, std::ios_base::openmode mode)
 {
-    // open ram_file
-    if ((mode & std::ios_base::in) and !(mode & std::ios_base::trunc)) {
-        // file must exist, initial position at the start
-        if (!ram_fs::exists(name)) {
-            m_ram_file = nullptr;
-        } else {
-            m_ram_file = &ram_fs::content(name);
-        }
-    } else { // existence of file not required
-        if (!ram_fs::exists(name)) {
-            // create empty file, if it does not yet exist
-            ram_fs::store(name, ram_fs::content_type());// TODO: create method in ram_fs?? or store w 1 arg?
-        }
-        m_ram_file = &ram_fs::content(name);
-        if ((mode & std::ios_base::out) and !(mode & std::ios_base::app)) {
-            m_ram_file->clear();
+    const bool in    = mode & std::ios_base::in;
+    const bool out   = mode & std::ios_base::out;
+    const bool app   = mode & std::ios_base::app;
+    const bool trunc = mode & std::ios_base::trunc;
+    // accept the same combinations of flags as std::filebuf
+    if (app ? trunc : !(out or (in and !trunc))) {
+        return nullptr;
+    }
+    if (!ram_fs::exists(name)) {
+        if (in and !trunc and !app) { // file must exist
+            return nullptr;
         }
+        // create empty file, if it does not yet exist
+        ram_fs::store(name, ram_fs::content_type());
     }
-
-    if (m_ram_file and(mode & std::ios_base::trunc)) {
+    m_ram_file = &ram_fs::content(name);
+    m_mode = mode;
+    if (trunc or (out and !in and !app)) {
         m_ram_file->clear();
     }
-    if (m_ram_file) {
-        if (mode & std::ios_base::ate) {
-            // TODO: move put pointer to the end of the file
-        } else {
+    set_position((mode & std::ios_base::ate) ? m_ram_file->size() : 0);
+// ATTENTION: if m_ram_file->size() == 0, then data might be nullptr !!!
+    return this;
+}
 
-        }
-        setg(m_ram_file->data(), m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-        setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
+void
+ram_filebuf::set_position(size_t pos)
+{
+    char* begin = m_ram_file->data();
+    size_t size = m_ram_file->size();
+    m_beyond = pos > size ? pos - size : 0;
+    setg(begin, begin + (pos - m_beyond), begin + size);
+    if (m_mode & (std::ios_base::out | std::ios_base::app)) {
+        setp(begin, begin + size);
+        // in append mode all writes go to the end of the file
+        pbump64((m_mode & std::ios_base::app) ? size : pos - m_beyond);
+    } else {
+        setp(nullptr, nullptr);
     }
-// ATTENTION: if m_ram_file->size() == 0, then data might be nullptr !!!
-    return m_ram_file ? this : nullptr;
 }
 
 bool
@@ -78,55 +85,47 @@ ram_filebuf::close()
 }
 
 ram_filebuf::pos_type
-ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
+ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode)
 {
-    if (sp >= (pos_type)0 and sp <= (pos_type)m_ram_file->size()) {
-        setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
-        setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-        pbump64(sp);
-    } else {
-        if (mode & std::ios_base::out) {
-            // extend buffer
-            m_ram_file->resize(sp, 0);
-            setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
-            setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-            pbump64(sp);
-        } else {
-            return pos_type(off_type(-1));
-        }
+    if (!m_ram_file or (off_type)sp < 0) {
+        return pos_type(off_type(-1));
     }
+    set_position((off_type)sp);
     return sp;
 }
 
 ram_filebuf::pos_type
-ram_filebuf::pubseekoff(off_type off, std::ios_base::seekdir way,
-                        std::ios_base::openmode which)
+ram_filebuf::seekoff(off_type off, std::ios_base::seekdir way,
+                     std::ios_base::openmode which)
 {
-    if (std::ios_base::beg == way) {
-        if (seekpos(off, which) == pos_type(-1)) {
-            return pos_type(-1);
-        }
-    } else if (std::ios_base::cur == way) {
-        if (seekpos(gptr()-eback()+off, which) == pos_type(-1)) {
-            return pos_type(-1);
+    if (!m_ram_file) {
+        return pos_type(off_type(-1));
+    }
+    if (std::ios_base::cur == way) {
+        if (which & std::ios_base::in) {
+            off += gptr()-eback();
+        } else {
+            off += pptr()-pbase();
         }
+        off += m_beyond;
     } else if (std::ios_base::end == way) {
-        if (seekpos(egptr()-eback()+off, which) == pos_type(-1)) {
-            return pos_type(-1);
-        }
+        off += m_ram_file->size();
     }
-    return gptr()-eback();
+    return seekpos(off, which);
+}
+
+ram_filebuf::pos_type
+ram_filebuf::pubseekoff(off_type off, std::ios_base::seekdir way,
+                        std::ios_base::openmode which)
+{
+    return seekoff(off, way, which);
 }
 
 
 ram_filebuf::pos_type
 ram_filebuf::pubseekpos(pos_type sp, std::ios_base::openmode which)
 {
-    if (seekpos(sp, which) == pos_type(-1)) {
-        return pos_type(-1);
-    } else {
-        return gptr()-eback();
-    }
+    return seekpos(sp, which);
 }
 
 int
@@ -138,14 +137,26 @@ ram_filebuf::sync()
 ram_filebuf::int_type
 ram_filebuf::overflow(int_type c)
 {
-    if (m_ram_file) {
-        m_ram_file->push_back(c);
-        setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-        std::ptrdiff_t add = epptr()-pbase();
-        pbump64(add);
-        setg(m_ram_file->data(), gptr(), m_ram_file->data()+m_ram_file->size());
+    if (!m_ram_file or !(m_mode & (std::ios_base::out | std::ios_base::app))) {
+        return traits_type::eof();
+    }
+    if (traits_type::eq_int_type(c, traits_type::eof())) {
+        return traits_type::not_eof(c);
     }
-    return traits_type::to_int_type(c);
+    std::ptrdiff_t gpos = gptr()-eback();
+    if (m_beyond > 0) { // writing behind a gap
+        if (!(m_mode & std::ios_base::app)) {
+            m_ram_file->resize(m_ram_file->size() + m_beyond, 0);
+        }
+        m_beyond = 0;
+    }
+    m_ram_file->push_back(traits_type::to_char_type(c));
+    char* begin = m_ram_file->data();
+    char* end   = begin + m_ram_file->size();
+    setp(begin, end);
+    pbump64(end - begin);
+    setg(begin, begin + gpos, end);
+    return c;
 }
 
 void ram_filebuf::pbump64(std::ptrdiff_t x)
-- 
2.43.0


From 7b3aa29f3eef7dec76249657637d79c762b7eee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 08/49] fix: concurrent queries of csa_sada shared a mutable
 buffer

---
 include/sdsl/csa_sada.hpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index 7ccf724..7960358 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -33,6 +33,7 @@
 #include <cassert>
 #include <cstring> // for strlen
 #include <iomanip>
+#include <memory>
 #include <iterator>
 
 namespace sdsl
@@ -117,8 +118,6 @@ class csa_sada
         isa_sample_type m_isa_sample; // inverse suffix array samples
         alphabet_type   m_alphabet;   // alphabet component
 
-        mutable std::vector<uint64_t> m_psi_buf; // buffer for decoded psi values
-
         void copy(const csa_sada& csa)
         {
             m_psi        = csa.m_psi;
@@ -128,13 +127,6 @@ class csa_sada
             m_alphabet   = csa.m_alphabet;
         };
 
-        void create_buffer()
-        {
-            if (enc_vector_type::sample_dens < linear_decode_limit) {
-                m_psi_buf = std::vector<uint64_t>(enc_vector_type::sample_dens+1);
-            }
-        }
-
     public:
         const typename alphabet_type::char2comp_type& char2comp  = m_alphabet.char2comp;
         const typename alphabet_type::comp2char_type& comp2char  = m_alphabet.comp2char;
@@ -154,7 +146,6 @@ class csa_sada
         //! Default Constructor
         csa_sada()
         {
-            create_buffer();
         }
         //! Default Destructor
         ~csa_sada() { }
@@ -162,7 +153,6 @@ class csa_sada
         //! Copy constructor
         csa_sada(const csa_sada& csa)
         {
-            create_buffer();
             copy(csa);
         }
 
@@ -264,7 +254,6 @@ class csa_sada
                 m_sa_sample  = std::move(csa.m_sa_sample);
                 m_isa_sample = std::move(csa.m_isa_sample);
                 m_alphabet   = std::move(csa.m_alphabet);
-                m_psi_buf    = std::move(csa.m_psi_buf);
             }
             return *this;
         }
@@ -323,24 +312,26 @@ class csa_sada
 // TODO: don't use get_inter_sampled_values if t_dens is really
 //       large
                 lower_b = lower_sb*sd;
-                if (0 == m_psi_buf.size()) {
+                if (sd >= linear_decode_limit) {
                     upper_b = std::min(upper_sb*sd, C[cc+1]);
                     goto finish;
                 }
-                uint64_t* p = m_psi_buf.data();
+                // buffer for decoded psi values; local, as queries may run concurrently
+                std::unique_ptr<uint64_t[]> psi_buf(new uint64_t[sd+1]);
+                uint64_t* p = psi_buf.get();
                 // extract the psi values between two samples
                 m_psi.get_inter_sampled_values(lower_sb, p);
-                p = m_psi_buf.data();
+                p = psi_buf.get();
                 uint64_t smpl = m_psi.sample(lower_sb);
                 // handle border cases
                 if (lower_b + m_psi.get_sample_dens() >= C[cc+1])
-                    m_psi_buf[ C[cc+1]-lower_b ] = size()-smpl;
+                    psi_buf[ C[cc+1]-lower_b ] = size()-smpl;
                 else
-                    m_psi_buf[ m_psi.get_sample_dens() ] = size()-smpl;
+                    psi_buf[ m_psi.get_sample_dens() ] = size()-smpl;
                 // search the result linear
                 while ((*p++)+smpl < i);
 
-                return p-1-m_psi_buf.data() + lower_b - C[cc];
+                return p-1-psi_buf.get() + lower_b - C[cc];
             } else { // lower_b == (m_C[cc]+sd-1)/sd and lower_sb < upper_sb
                 if (m_psi.sample(lower_sb) >= i) {
                     lower_b = C[cc];
@@ -394,7 +385,6 @@ finish:
 template<class t_enc_vec, uint32_t t_dens, uint32_t t_inv_dens, class t_sa_sample_strat, class t_isa, class t_alphabet_strat>
 csa_sada<t_enc_vec, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat>::csa_sada(cache_config& config)
 {
-    create_buffer();
     if (!cache_file_exists(key_trait<alphabet_type::int_width>::KEY_BWT, config)) {
         return;
     }
-- 
2.43.0


From 0c2910cfaa64cc5b9e4deafc5b0362975589b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 09/49] fix: moved csa_sada and csa_wt kept pointing to the
 samples of the source

---
 include/sdsl/csa_sada.hpp | 1 +
 include/sdsl/csa_wt.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index 7960358..9599f66 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -253,6 +253,7 @@ class csa_sada
                 m_psi        = std::move(csa.m_psi);
                 m_sa_sample  = std::move(csa.m_sa_sample);
                 m_isa_sample = std::move(csa.m_isa_sample);
+                m_isa_sample.set_vector(&m_sa_sample);
                 m_alphabet   = std::move(csa.m_alphabet);
             }
             return *this;
diff --git a/include/sdsl/csa_wt.hpp b/include/sdsl/csa_wt.hpp
index dd49365..2b0534f 100644
--- a/include/sdsl/csa_wt.hpp
+++ b/include/sdsl/csa_wt.hpp
@@ -364,6 +364,7 @@ auto csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat
         m_wavelet_tree = std::move(csa.m_wavelet_tree);
         m_sa_sample    = std::move(csa.m_sa_sample);
         m_isa_sample   = std::move(csa.m_isa_sample);
+        m_isa_sample.set_vector(&m_sa_sample);
         m_alphabet     = std::move(csa.m_alphabet);
     }
     return *this;
-- 
2.43.0


From 66631650fb7c1eb97b67d4902c51bf374b7d5f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 10/49] fix: util::id handed out the same identifier to
 concurrent callers

---
 include/sdsl/util.hpp | 2 +-
 lib/util.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index d33b6b0..8ce7881 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -237,7 +237,7 @@ char* str_from_errno();
 class _id_helper
 {
     private:
-        static uint64_t id;
+        static std::atomic<uint64_t> id;
     public:
         static uint64_t getId()
         {
diff --git a/lib/util.cpp b/lib/util.cpp
index 6c8e9aa..08a91ae 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -35,7 +35,7 @@ namespace sdsl
 namespace util
 {
 
-uint64_t _id_helper::id = 0;
+std::atomic<uint64_t> _id_helper::id(0);
 
 std::string basename(std::string file)
 {
-- 
2.43.0


From bf5971551e16be6b106f097793c35f348bf4db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 11/49] fix: huge-page allocator read behind blocks and handed
 out too small blocks

---
 lib/memory_management.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 6c8401b..18660ca 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -346,8 +346,8 @@ hugepage_allocator::split_block(mm_block_t* bptr,size_t size)
 uint8_t*
 hugepage_allocator::hsbrk(size_t size)
 {
-    ptrdiff_t left = (ptrdiff_t) m_total_size - (m_top - m_base);
-    if (left < (ptrdiff_t) size) {  // enough space left?
+    size_t left = m_total_size - (size_t)(m_top - m_base);
+    if (left < size) {  // enough space left?
         throw std::system_error(ENOMEM,std::system_category(),
                                 "hugepage_allocator: not enough hugepage memory available");
     }
@@ -451,7 +451,12 @@ hugepage_allocator::mm_alloc(size_t size_in_bytes)
 {
     //std::cout << "ALLOC(" << size_in_bytes << ")" << std::endl;
     mm_block_t* bptr = nullptr;
-    if ((bptr=find_free_block(size_in_bytes + MM_BLOCK_OVERHEAD)) != nullptr) {
+    if (size_in_bytes > m_total_size) { // can never be satisfied; avoid overflows below
+        throw std::system_error(ENOMEM,std::system_category(),
+                                "hugepage_allocator: not enough hugepage memory available");
+    }
+    // keys of the free blocks carry the free flag, so the size has to be aligned
+    if ((bptr=find_free_block(ALIGN(size_in_bytes) + MM_BLOCK_OVERHEAD)) != nullptr) {
         //std::cout << "found free block = " << (void*)bptr << std::endl;
         block_markused(bptr);
         /* split if we have a block too large for us? */
@@ -506,6 +511,10 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
         mm_free(ptr);
         return nullptr;
     }
+    if (size > m_total_size) { // can never be satisfied; avoid overflows below
+        throw std::system_error(ENOMEM,std::system_category(),
+                                "hugepage_allocator: not enough hugepage memory available");
+    }
     mm_block_t* bptr = block_cur(ptr);
 
     bool need_malloc = 0;
@@ -574,7 +583,7 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
     if (need_malloc) {
         //std::cout << "need_alloc in REALLOC!" << std::endl;
         void* newptr = mm_alloc(size);
-        memcpy(newptr,ptr,size);
+        memcpy(newptr,ptr,blockdatasize); // the old block is smaller than size
         mm_free(ptr);
         ptr = newptr;
     }
-- 
2.43.0


From 22dc5ff510e96a8b96a290f7e320abcaa9eabda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 12/49] fix: int_vector_mapper lost files, data and descriptors
 on moves and failures

---
 include/sdsl/int_vector_mapper.hpp | 125 ++++++++++++++++++++---------
 1 file changed, 86 insertions(+), 39 deletions(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 296cfd6..6c1d9ab 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -29,7 +29,34 @@ class int_vector_mapper
         int m_fd = -1;
         int_vector<t_width> m_wrapper;
         std::string m_file_name;
-        bool m_delete_on_close;
+        bool m_delete_on_close = false;
+        // exchange everything with another mapper
+        void swap_members(int_vector_mapper& ivm)
+        {
+            std::swap(m_mapped_data, ivm.m_mapped_data);
+            std::swap(m_file_size_bytes, ivm.m_file_size_bytes);
+            std::swap(m_data_offset, ivm.m_data_offset);
+            std::swap(m_fd, ivm.m_fd);
+            m_wrapper.swap(ivm.m_wrapper);
+            m_file_name.swap(ivm.m_file_name);
+            std::swap(m_delete_on_close, ivm.m_delete_on_close);
+        }
+        void resize_file(size_type new_file_size)
+        {
+            int tret = memory_manager::truncate_file_mmap(m_fd, new_file_size);
+            if (tret == -1) {
+                std::string truncate_error
+                    = std::string("int_vector_mapper: truncate error. ")
+                      + std::string(util::str_from_errno());
+                throw std::runtime_error(truncate_error);
+            }
+        }
+        // bytes which are needed for bit_size bits in the file;
+        // plain files contain no padding
+        size_type file_data_size(size_type bit_size) const
+        {
+            return m_data_offset ? ((bit_size + 63) >> 6) << 3 : (bit_size + 7) >> 3;
+        }
     public:
         int_vector_mapper() = delete;
         int_vector_mapper(const int_vector_mapper&) = delete;
@@ -66,7 +93,7 @@ class int_vector_mapper
                 if (t_mode&std::ios_base::out) {
                     // do we have to truncate?
                     size_type current_bit_size = m_wrapper.m_size;
-                    size_type data_size_in_bytes = ((current_bit_size + 63) >> 6) << 3;
+                    size_type data_size_in_bytes = file_data_size(current_bit_size);
                     if (m_file_size_bytes != data_size_in_bytes + m_data_offset) {
                         int tret = memory_manager::truncate_file_mmap(m_fd, data_size_in_bytes + m_data_offset);
                         if (tret == -1) {
@@ -92,32 +119,22 @@ class int_vector_mapper
                     }
                 }
             }
-            m_wrapper.m_data = nullptr;
-            m_wrapper.m_size = 0;
+            if (m_mapped_data) { // the wrapper does not own mapped memory
+                m_wrapper.m_data = nullptr;
+                m_wrapper.m_size = 0;
+            }
         }
         int_vector_mapper(int_vector_mapper&& ivm)
         {
-            m_wrapper.m_data = ivm.m_wrapper.m_data;
-            m_wrapper.m_size = ivm.m_wrapper.m_size;
-            m_wrapper.width(ivm.m_wrapper.width());
-            m_file_name = ivm.m_file_name;
-            m_delete_on_close = ivm.m_delete_on_close;
-            ivm.m_wrapper.m_data = nullptr;
-            ivm.m_wrapper.m_size = 0;
-            ivm.m_mapped_data = nullptr;
-            ivm.m_fd = -1;
+            swap_members(ivm);
         }
         int_vector_mapper& operator=(int_vector_mapper&& ivm)
         {
-            m_wrapper.m_data = ivm.m_wrapper.m_data;
-            m_wrapper.m_size = ivm.m_wrapper.m_size;
-            m_wrapper.width(ivm.m_wrapper.width());
-            m_file_name = ivm.m_file_name;
-            m_delete_on_close = ivm.m_delete_on_close;
-            ivm.m_wrapper.m_data = nullptr;
-            ivm.m_wrapper.m_size = 0;
-            ivm.m_mapped_data = nullptr;
-            ivm.m_fd = -1;
+            if (this != &ivm) {
+                // the file mapped so far is completed and closed by tmp
+                int_vector_mapper tmp(std::move(ivm));
+                swap_members(tmp);
+            }
             return (*this);
         }
         int_vector_mapper(const std::string& key,const cache_config& config)
@@ -139,12 +156,20 @@ class int_vector_mapper
                 }
                 if (!is_plain) {
                     int_vector<t_width>::read_header(size_in_bits, int_width, f);
+                    if (!f) {
+                        throw std::runtime_error(
+                            "int_vector_mapper: file contains no vector.");
+                    }
                 }
             }
             m_file_size_bytes = util::file_size(m_file_name);
 
             if (!is_plain) {
                 m_data_offset = t_width ? 8 : 9;
+                if (m_file_size_bytes < m_data_offset + file_data_size(size_in_bits)) {
+                    throw std::runtime_error(
+                        "int_vector_mapper: file is shorter than its vector.");
+                }
             } else {
                 if (8 != t_width and 16 != t_width and 32 != t_width and 64 != t_width) {
                     throw std::runtime_error("int_vector_mapper: plain vector can "
@@ -178,9 +203,11 @@ class int_vector_mapper
                 std::string mmap_error
                     = std::string("int_vector_mapper: mmap error. ")
                       + std::string(util::str_from_errno());
+                memory_manager::close_file_for_mmap(m_fd);
                 throw std::runtime_error(mmap_error);
             }
 
+            memory_manager::clear(m_wrapper); // the wrapper only refers to the mapping
             m_wrapper.m_size = size_in_bits;
             m_wrapper.m_data = (uint64_t*)(m_mapped_data + m_data_offset);
 
@@ -202,30 +229,50 @@ class int_vector_mapper
             static_assert(t_mode & std::ios_base::out,"int_vector_mapper: must be opened in in+out mode for 'bit_resize'");
             size_type new_size_in_bytes = ((bit_size + 63) >> 6) << 3;
             if (m_file_size_bytes != new_size_in_bytes + m_data_offset) {
-                if (m_mapped_data) {
-                    auto ret = memory_manager::mem_unmap(m_mapped_data,m_file_size_bytes);
-                    if (ret != 0) {
-                        std::cerr << "int_vector_mapper: error unmapping file mapping'"
-                                  << m_file_name << "': " << ret << std::endl;
-                    }
+                const size_type old_file_size = m_file_size_bytes;
+                const size_type new_file_size = new_size_in_bytes + m_data_offset;
+                uint8_t* old_mapped_data = m_mapped_data;
+#ifdef MSVC_COMPILER // a mapped file can not be resized
+                if (old_mapped_data) {
+                    memory_manager::mem_unmap(old_mapped_data,old_file_size);
+                    old_mapped_data = nullptr;
+                    m_mapped_data    = nullptr;
+                    m_wrapper.m_data = nullptr;
+                    m_wrapper.m_size = 0;
                 }
-                int tret = memory_manager::truncate_file_mmap(m_fd, new_size_in_bytes + m_data_offset);
-                if (tret == -1) {
-                    std::string truncate_error
-                        = std::string("int_vector_mapper: truncate error. ")
-                          + std::string(util::str_from_errno());
-                    throw std::runtime_error(truncate_error);
+#endif
+                // Keep the old mapping (and everything it contains) until
+                // the file is resized and the new mapping is established.
+                if (new_file_size > old_file_size) {
+                    resize_file(new_file_size);
                 }
-                m_file_size_bytes = new_size_in_bytes + m_data_offset;
-
-                // perform the actual mapping
-                m_mapped_data = (uint8_t*)memory_manager::mmap_file(m_fd,m_file_size_bytes, t_mode);
-                if (m_mapped_data == nullptr) {
+                uint8_t* new_mapped_data = (uint8_t*)memory_manager::mmap_file(m_fd,new_file_size, t_mode);
+                if (new_mapped_data == nullptr) {
                     std::string mmap_error
                         = std::string("int_vector_mapper: mmap error. ")
                           + std::string(util::str_from_errno());
+                    if (new_file_size > old_file_size) {
+                        memory_manager::truncate_file_mmap(m_fd, old_file_size);
+                    }
                     throw std::runtime_error(mmap_error);
                 }
+                if (new_file_size < old_file_size) {
+                    try {
+                        resize_file(new_file_size);
+                    } catch (...) {
+                        memory_manager::mem_unmap(new_mapped_data,new_file_size);
+                        throw;
+                    }
+                }
+                if (old_mapped_data) {
+                    auto ret = memory_manager::mem_unmap(old_mapped_data,old_file_size);
+                    if (ret != 0) {
+                        std::cerr << "int_vector_mapper: error unmapping file mapping'"
+                                  << m_file_name << "': " << ret << std::endl;
+                    }
+                }
+                m_mapped_data = new_mapped_data;
+                m_file_size_bytes = new_file_size;
 
                 // update wrapper
                 m_wrapper.m_data = (uint64_t*)(m_mapped_data + m_data_offset);
-- 
2.43.0


From aa42daae3a0efd53598f9491ab9acde6eb326f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 13/49] fix: creating a mapped vector over an existing file
 that can not be written showed the old content

write_out_buffer::create and temp_file_buffer::create ignored the result of
store_to_file and mapped whatever the file contained before.
---
 include/sdsl/int_vector_mapper.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 6c1d9ab..f765114 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -426,7 +426,9 @@ class temp_file_buffer
         {
             //write empty int_vector to init the file
             int_vector<t_width> tmp_vector;
-            store_to_file(tmp_vector,file_name);
+            if (!store_to_file(tmp_vector,file_name)) {
+                throw std::runtime_error("int_vector_mapper: could not create file.");
+            }
             return int_vector_mapper<t_width,std::ios_base::out|std::ios_base::in>(file_name,false,true);
         }
 };
@@ -447,7 +449,9 @@ class write_out_buffer
         {
             //write empty int_vector to init the file
             int_vector<t_width> tmp_vector;
-            store_to_file(tmp_vector,file_name);
+            if (!store_to_file(tmp_vector,file_name)) {
+                throw std::runtime_error("int_vector_mapper: could not create file.");
+            }
             return int_vector_mapper<t_width,std::ios_base::out|std::ios_base::in>(file_name,false,false);
         }
 };
-- 
2.43.0


From 7567323a7778d4c0d2dfdd5de439e49066dcdde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 14/49] fix: huge-page realloc of the last block failed
 although a free block was large enough

---
 lib/memory_management.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 18660ca..96ed62d 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -539,9 +539,13 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
             // we are the last block so we just expand
             blockdatasize = block_getdatasize(bptr);
             size_t needed = ALIGN(size - blockdatasize);
-            hsbrk(needed);
-            block_update(bptr,UNMASK_SIZE(bptr->size)+needed);
-            return block_data(bptr);
+            if (m_total_size - (size_t)(m_top - m_base) >= needed) {
+                hsbrk(needed);
+                block_update(bptr,UNMASK_SIZE(bptr->size)+needed);
+                return block_data(bptr);
+            }
+            // no space left behind the last block, but a free block might be large enough
+            need_malloc = true;
         } else {
             // we are not the last block
             //std::cout << "try combine next" << std::endl;
-- 
2.43.0


From 95405b227447aa37a71c9de1cafeab2c03284d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 15/49] fix: k2_treap and k2_tree could not be copied from
 constant objects

The copy assignment took a non-const reference, so the copy constructors
did not compile.
---
 include/sdsl/k2_treap.hpp | 2 +-
 include/sdsl/k2_tree.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/k2_treap.hpp b/include/sdsl/k2_treap.hpp
index 111cefc..b22a4ab 100644
--- a/include/sdsl/k2_treap.hpp
+++ b/include/sdsl/k2_treap.hpp
@@ -131,7 +131,7 @@ class k2_treap
         }
 
         //! Assignment operator
-        k2_treap& operator=(k2_treap& tr)
+        k2_treap& operator=(const k2_treap& tr)
         {
             if (this != &tr) {
                 m_t = tr.m_t;
diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index f8b8f6e..371990f 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -381,7 +381,7 @@ class k2_tree
         }
 
         //! Assignment operator
-        k2_tree& operator=(k2_tree& tr)
+        k2_tree& operator=(const k2_tree& tr)
         {
             if (this != &tr) {
                 k_t = tr.k_t;
-- 
2.43.0


From 5d0f87e42ffb26229316337d6316471aaa7e656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 16/49] fix: louds_tree could not be swapped or serialised,
 copies of louds_node referred to their source

---
 include/sdsl/louds_tree.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/louds_tree.hpp b/include/sdsl/louds_tree.hpp
index 6d6d6e9..b7d89ee 100644
--- a/include/sdsl/louds_tree.hpp
+++ b/include/sdsl/louds_tree.hpp
@@ -30,6 +30,14 @@ class louds_node
 
         louds_node(size_type f_nr=0, size_type f_pos=0):m_nr(f_nr), m_pos(f_pos),nr(m_nr),pos(m_pos) {}
 
+        louds_node(const louds_node& v):m_nr(v.m_nr), m_pos(v.m_pos),nr(m_nr),pos(m_pos) {}
+
+        louds_node& operator=(const louds_node& v) {
+            m_nr  = v.m_nr;
+            m_pos = v.m_pos;
+            return *this;
+        }
+
         bool operator==(const louds_node& v)const {
             return m_nr == v.m_nr and m_pos ==v.m_pos;
         }
@@ -179,16 +187,16 @@ class louds_tree
 
         void swap(louds_tree& tree) {
             m_bv.swap(tree.m_bv);
-            util::swap_support(m_bv_select1, tree.m_select1, &m_bv, &(tree.m_bv));
-            util::swap_support(m_bv_select0, tree.m_select0, &m_bv, &(tree.m_bv));
+            util::swap_support(m_bv_select1, tree.m_bv_select1, &m_bv, &(tree.m_bv));
+            util::swap_support(m_bv_select0, tree.m_bv_select0, &m_bv, &(tree.m_bv));
         }
 
         size_type serialize(std::ostream& out, structure_tree_node* v=nullptr, std::string name="")const {
             structure_tree_node* child = structure_tree::add_child(v, name, util::class_name(*this));
             size_type written_bytes = 0;
-            m_bv.serialize(out, child, "bitvector");
-            m_bv_select1(out, child, "select1");
-            m_bv_select0(out, child, "select0");
+            written_bytes += m_bv.serialize(out, child, "bitvector");
+            written_bytes += m_bv_select1.serialize(out, child, "select1");
+            written_bytes += m_bv_select0.serialize(out, child, "select0");
             structure_tree::add_size(child, written_bytes);
             return written_bytes;
         }
-- 
2.43.0


From 5e415373830f802aeac6086188d9062b3e5f8dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 17/49] fix: copied wt_gmr referred to the permutation of its
 source, default constructed ones had no defined size

---
 include/sdsl/wt_gmr.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/sdsl/wt_gmr.hpp b/include/sdsl/wt_gmr.hpp
index d4aabcc..cd3fe72 100644
--- a/include/sdsl/wt_gmr.hpp
+++ b/include/sdsl/wt_gmr.hpp
@@ -63,7 +63,7 @@ class inv_multi_perm_support
     private:
 
         const iv_type*  m_perm = nullptr;// pointer to supported permutation
-        uint64_t        m_chunksize;     // size of one permutation
+        uint64_t        m_chunksize = 0; // size of one permutation
         int_vector<>    m_back_pointer;  // back pointers
         bit_vector_type m_marked;        // back pointer marking
         rank_type       m_marked_rank;   // rank support for back pointer marking
@@ -321,9 +321,9 @@ class wt_gmr_rs
         t_rac m_e;
         t_select m_bv_blocks_select1;
         t_select_zero m_bv_blocks_select0;
-        uint64_t m_size; // input length
+        uint64_t m_size = 0; // input length
         uint64_t m_block_size = 0; // size of the blocks
-        uint64_t m_blocks; // blocks per character
+        uint64_t m_blocks = 0; // blocks per character
         uint64_t m_sigma = 0;
 
     public:
@@ -661,10 +661,10 @@ class wt_gmr
         t_select m_bv_blocks_select1, m_bv_chunks_select1;
         t_select_zero m_bv_blocks_select0, m_bv_chunks_select0;
 
-        uint64_t m_size; // input length
+        uint64_t m_size = 0; // input length
         uint64_t m_max_symbol = 0; // maximum character + 1
-        uint64_t m_chunks; // number of chunks
-        uint64_t m_chunksize;
+        uint64_t m_chunks = 0; // number of chunks
+        uint64_t m_chunksize = 0;
         uint64_t m_sigma = 0;
 
     public:
@@ -773,6 +773,7 @@ class wt_gmr
             m_bv_chunks         = wt.m_bv_chunks;
             m_perm              = wt.m_perm;
             m_ips               = wt.m_ips;
+            m_ips.set_vector(&m_perm);
             m_bv_blocks_select1 = wt.m_bv_blocks_select1;
             m_bv_blocks_select1.set_vector(&m_bv_blocks);
             m_bv_chunks_select1 = wt.m_bv_chunks_select1;
-- 
2.43.0


From 3444e6a4b13a21662253ffec69000264c5187cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 18/49] hook: the simulator (SDSL_SIM) chooses the default
 buffer size of int_vector_buffer

---
 include/sdsl/int_vector_buffer.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index b87943b..3cbc149 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -29,6 +29,14 @@
 #include <stdio.h>
 #include <string>
 
+#ifdef SDSL_SIM
+// Simulation hook: the simulator chooses the default buffer size.
+uint64_t sdsl_sim_buffer_size();
+#define SDSL_DEFAULT_BUFFER_SIZE sdsl_sim_buffer_size()
+#else
+#define SDSL_DEFAULT_BUFFER_SIZE (1024*1024)
+#endif
+
 namespace sdsl
 {
 
@@ -158,7 +166,7 @@ class int_vector_buffer
          *                    If true the file will be interpreted as plain array with t_width bits per integer.
          *                    In second case (is_plain==true), t_width must be 8, 16, 32 or 64.
          */
-        int_vector_buffer(const std::string filename, std::ios::openmode mode=std::ios::in, const uint64_t buffer_size=1024*1024, const uint8_t int_width=t_width, const bool is_plain=false)
+        int_vector_buffer(const std::string filename, std::ios::openmode mode=std::ios::in, const uint64_t buffer_size=SDSL_DEFAULT_BUFFER_SIZE, const uint8_t int_width=t_width, const bool is_plain=false)
         {
             m_filename = filename;
             assert(!(mode&std::ios::app));
-- 
2.43.0


From b1c5f3b4186188e642f906ae9c1f83ee7e07e245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 19/49] fix: rmq_support_sparse_table wrote outside its table
 for vectors of two elements

---
 include/sdsl/rmq_support_sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/rmq_support_sparse_table.hpp b/include/sdsl/rmq_support_sparse_table.hpp
index e09be17..8c8bf1f 100644
--- a/include/sdsl/rmq_support_sparse_table.hpp
+++ b/include/sdsl/rmq_support_sparse_table.hpp
@@ -79,7 +79,7 @@ class rmq_support_sparse_table
             if (m_v == nullptr)
                 return;
             const size_type n = m_v->size();
-            if (n < 2)  // for n<2 the queries could be answerd without any table
+            if (n < 3)  // for n<3 the queries could be answerd without any table
                 return;
             size_type k=0;
             while (2*(1ULL<<k) < n) ++k;  // calculate maximal
-- 
2.43.0


From 388a96e149caf99c56604d759aaa19ec3be17e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:52 +0000
Subject: [PATCH 20/49] fix: int_vector resized to a multiple of 64 bits could
 lack the padding word rank supports read

---
 include/sdsl/memory_management.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 4e8a902..81c795d 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -346,7 +346,9 @@ class memory_manager
             uint64_t old_size_in_bytes = ((v.m_size + 63) >> 6) << 3;
             uint64_t new_size_in_bytes = ((size + 63) >> 6) << 3;
             bool do_realloc = old_size_in_bytes != new_size_in_bytes;
-            if (do_realloc || v.m_data == nullptr) {
+            // the padding described below can be missing although the data fits
+            bool needs_padding = ((size + 64) >> 6) > ((v.m_size + 64) >> 6);
+            if (do_realloc || needs_padding || v.m_data == nullptr) {
                 // Note that we allocate 8 additional bytes if m_size % 64 == 0.
                 // We need this padding since rank data structures do a memory
                 // access to this padding to answer rank(size()) if size()%64 ==0.
-- 
2.43.0


From 80da0c90e13dce4d003220b6ff343b43b5786f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 21/49] fix: int_vector_buffer showed zeros for elements
 missing in a truncated file

---
 include/sdsl/int_vector_buffer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index 3cbc149..a0343cb 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -23,6 +23,7 @@
 
 #include "int_vector.hpp"
 #include "iterators.hpp"
+#include <algorithm>
 #include <cassert>
 #include <fstream>
 #include <iostream>
@@ -72,8 +73,10 @@ class int_vector_buffer
                 assert(m_ifile.good());
                 if (m_ifile.good()) {
                     m_ifile.read((char*) m_buffer.data(), (m_buffersize*width())/8);
-                    // reaching the end of the file is fine for the last block, a read error is not
-                    if ((uint64_t)m_ifile.gcount() < (m_buffersize*width())/8 and !m_ifile.bad()) {
+                    // reaching the end of the file behind the last element is fine, a read error
+                    // or an element that is missing in the file is not
+                    uint64_t needed = (std::min(m_buffersize, m_size-m_begin)*width()+7)/8;
+                    if ((uint64_t)m_ifile.gcount() >= needed and !m_ifile.bad()) {
                         m_ifile.clear();
                     }
                 }
-- 
2.43.0


From 6b13b4579ea401656ec3d67df0340d469fff163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 22/49] fix: default constructed and empty structures stored
 uninitialised memory

---
 include/sdsl/cst_fully.hpp       | 4 ++--
 include/sdsl/cst_sct3.hpp        | 2 +-
 include/sdsl/dac_vector.hpp      | 4 ++--
 include/sdsl/nn_dict_dynamic.hpp | 4 ++--
 include/sdsl/wt_helper.hpp       | 7 ++++++-
 5 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index ef73457..db48cb9 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -144,8 +144,8 @@ class cst_fully
         typedef cst_tag                                   index_category;
 
     private:
-        size_type        m_delta;
-        size_type        m_nodes;
+        size_type        m_delta = 0;
+        size_type        m_nodes = 0;
         csa_type         m_csa;
         bit_vector       m_s;
         s_support_type   m_s_support;
diff --git a/include/sdsl/cst_sct3.hpp b/include/sdsl/cst_sct3.hpp
index b8ed964..4b7ae68 100644
--- a/include/sdsl/cst_sct3.hpp
+++ b/include/sdsl/cst_sct3.hpp
@@ -131,7 +131,7 @@ class cst_sct3
         bv_type         m_first_child;
         rank_type       m_first_child_rank;
         sel_type        m_first_child_select;
-        size_type       m_nodes;
+        size_type       m_nodes = 0;
 
         void copy(const cst_sct3& cst)
         {
diff --git a/include/sdsl/dac_vector.hpp b/include/sdsl/dac_vector.hpp
index 1079a8c..7b0795d 100644
--- a/include/sdsl/dac_vector.hpp
+++ b/include/sdsl/dac_vector.hpp
@@ -61,7 +61,7 @@ class dac_vector_dp
         typedef int_vector<>::size_type                  size_type;
         typedef ptrdiff_t                                difference_type;
     private:
-        size_t m_size;
+        size_t m_size = 0;
         bit_vector m_overflow_tmp;
         overflow_bv m_overflow;
         overflow_bv_rank1 m_overflow_rank;
@@ -354,7 +354,7 @@ class dac_vector
         bit_vector        m_overflow;       // mark non-end bytes
         rank_support_type m_overflow_rank;  // rank for m_overflow
         int_vector<64>    m_level_pointer_and_rank = int_vector<64>(4,0);
-        uint8_t           m_max_level;      // maximum level < (log n)/b+1
+        uint8_t           m_max_level = 0;      // maximum level < (log n)/b+1
 
         void copy(const dac_vector& v)
         {
diff --git a/include/sdsl/nn_dict_dynamic.hpp b/include/sdsl/nn_dict_dynamic.hpp
index b3474e3..ff5660a 100644
--- a/include/sdsl/nn_dict_dynamic.hpp
+++ b/include/sdsl/nn_dict_dynamic.hpp
@@ -48,8 +48,8 @@ class nn_dict_dynamic
         friend class reference;
         friend void util::set_zero_bits(nn_dict_dynamic& nn);
     private:
-        uint64_t m_depth;				// Depth of the tree (1 level corresonds to 0, 2 levels corresponds to 1,...)
-        uint64_t m_v_begin_leaves;		// Virtual begin of leaves
+        uint64_t m_depth = 0;				// Depth of the tree (1 level corresonds to 0, 2 levels corresponds to 1,...)
+        uint64_t m_v_begin_leaves = 0;		// Virtual begin of leaves
         size_type m_size;
         int_vector<64> m_offset;	 	// Number of nodes to skip on each level
         int_vector<64> m_tree; 			// Tree
diff --git a/include/sdsl/wt_helper.hpp b/include/sdsl/wt_helper.hpp
index ae9a161..aa31c85 100644
--- a/include/sdsl/wt_helper.hpp
+++ b/include/sdsl/wt_helper.hpp
@@ -159,7 +159,12 @@ struct _byte_tree {
             m_path[i] = bt.m_path[i];
     }
 
-    _byte_tree() {}
+    _byte_tree() {
+        for (uint32_t i=0; i<fixed_sigma; ++i) {
+            m_c_to_leaf[i] = undef; // no symbol occurs in an empty text
+            m_path[i] = 0;
+        }
+    }
 
     _byte_tree(const std::vector<pc_node>& temp_nodes, uint64_t& bv_size, const t_wt*) {
         m_nodes.resize(temp_nodes.size());
-- 
2.43.0


From 8af7b901d21b87c43dc94cd51e72970c44b94095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 23/49] hook: the simulator (SDSL_SIM) may limit explicit
 buffer sizes of int_vector_buffer

---
 include/sdsl/int_vector_buffer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index a0343cb..23bfad4 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -31,8 +31,9 @@
 #include <string>
 
 #ifdef SDSL_SIM
-// Simulation hook: the simulator chooses the default buffer size.
+// Simulation hooks: the simulator chooses the default buffer size and may limit explicit ones.
 uint64_t sdsl_sim_buffer_size();
+uint64_t sdsl_sim_buffer_limit(uint64_t buffersize);
 #define SDSL_DEFAULT_BUFFER_SIZE sdsl_sim_buffer_size()
 #else
 #define SDSL_DEFAULT_BUFFER_SIZE (1024*1024)
@@ -292,6 +293,9 @@ class int_vector_buffer
         //! Set the buffersize in bytes
         void buffersize(uint64_t buffersize)
         {
+#ifdef SDSL_SIM
+            buffersize = sdsl_sim_buffer_limit(buffersize);
+#endif
             if (0ULL == buffersize)
                 buffersize = 8;
             write_block();
-- 
2.43.0


From 366b87f63dfb4c383a01af1ffcbe7a47a46b8b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 24/49] fix: memory monitor lost peaks shorter than the log
 granularity or after a clock jump

---
 include/sdsl/memory_management.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 81c795d..232f9f0 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -182,8 +182,10 @@ class memory_monitor
                 } else {
                     if (m.event_stack.top().allocations.size()) {
                         m.current_usage = m.current_usage + delta;
-                        m.event_stack.top().allocations.back().usage = m.current_usage;
-                        m.event_stack.top().allocations.back().timestamp = cur;
+                        // keep the largest usage, so that no peak gets lost
+                        auto& last = m.event_stack.top().allocations.back();
+                        last.usage = std::max(last.usage, m.current_usage);
+                        last.timestamp = cur;
                     }
                 }
             }
-- 
2.43.0


From cc45cd1d34e6cfdbd6c7d14d7644eae898061e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 25/49] fix: memory monitor crashed when stopped while events
 were open or other threads allocated

---
 include/sdsl/memory_management.hpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 232f9f0..35a5789 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -8,6 +8,7 @@
 #include "uintx_t.hpp"
 #include "util.hpp"
 
+#include <atomic>
 #include <map>
 #include <iostream>
 #include <cstdlib>
@@ -68,13 +69,19 @@ class memory_monitor
         };
         struct mm_event_proxy {
             bool add;
+            uint64_t recording = 0; // the recording the event belongs to
             timer::time_point created;
-            mm_event_proxy(const std::string& name, int64_t usage, bool a) : add(a)
+            mm_event_proxy(const std::string& name, bool a) : add(a)
             {
                 if (add) {
                     auto& m = the_monitor();
                     std::lock_guard<util::spin_lock> lock(m.spinlock);
-                    m.event_stack.emplace(name, usage);
+                    if (m.track_usage) {
+                        m.event_stack.emplace(name, m.current_usage);
+                        recording = m.recording;
+                    } else {
+                        add = false; // monitor was stopped in the meantime
+                    }
                 }
             }
             ~mm_event_proxy()
@@ -82,6 +89,9 @@ class memory_monitor
                 if (add) {
                     auto& m = the_monitor();
                     std::lock_guard<util::spin_lock> lock(m.spinlock);
+                    if (!m.track_usage or m.recording != recording) {
+                        return; // stop() has already completed the event
+                    }
                     auto& cur = m.event_stack.top();
                     auto cur_time = timer::now();
                     cur.allocations.emplace_back(cur_time, m.current_usage);
@@ -100,7 +110,8 @@ class memory_monitor
         };
         std::chrono::milliseconds log_granularity = std::chrono::milliseconds(20ULL);
         int64_t current_usage = 0;
-        bool track_usage = false;
+        std::atomic<bool> track_usage{false};
+        uint64_t recording = 0; // number of calls of start()
         std::vector<mm_event> completed_events;
         std::stack<mm_event> event_stack;
         timer::time_point start_log;
@@ -132,6 +143,7 @@ class memory_monitor
         static int64_t peak()
         {
             auto& m = the_monitor();
+            std::lock_guard<util::spin_lock> lock(m.spinlock);
             int64_t max = 0;
             for (auto events : m.completed_events) {
                 for (auto alloc : events.allocations) {
@@ -146,7 +158,8 @@ class memory_monitor
         static void start()
         {
             auto& m = the_monitor();
-            m.track_usage = true;
+            std::lock_guard<util::spin_lock> lock(m.spinlock);
+            ++m.recording;
             // clear if there is something there
             if (m.completed_events.size()) {
                 m.completed_events.clear();
@@ -158,10 +171,12 @@ class memory_monitor
             m.current_usage = 0;
             m.last_event = m.start_log;
             m.event_stack.emplace("unknown", 0);
+            m.track_usage = true;
         }
         static void stop()
         {
             auto& m = the_monitor();
+            std::lock_guard<util::spin_lock> lock(m.spinlock);
             while (!m.event_stack.empty()) {
                 m.completed_events.emplace_back(std::move(m.event_stack.top()));
                 m.event_stack.pop();
@@ -173,6 +188,9 @@ class memory_monitor
             auto& m = the_monitor();
             if (m.track_usage) {
                 std::lock_guard<util::spin_lock> lock(m.spinlock);
+                if (!m.track_usage) {
+                    return; // monitor was stopped in the meantime
+                }
                 auto cur = timer::now();
                 if (m.last_event + m.log_granularity < cur) {
                     m.event_stack.top().allocations.emplace_back(cur, m.current_usage);
@@ -194,9 +212,9 @@ class memory_monitor
         {
             auto& m = the_monitor();
             if (m.track_usage) {
-                return mm_event_proxy(name, m.current_usage, true);
+                return mm_event_proxy(name, true);
             }
-            return mm_event_proxy(name, m.current_usage, false);
+            return mm_event_proxy(name, false);
         }
         template<format_type F>
         static void write_memory_log(std::ostream& out)
-- 
2.43.0


From 9c0ec3c8122b8d172bc2cb4f81dd82ddfd5beadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 26/49] fix: serialised bytes of cst_sada depended on
 uninitialised memory

---
 include/sdsl/cst_sada.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/cst_sada.hpp b/include/sdsl/cst_sada.hpp
index 49185da..5d8b78e 100644
--- a/include/sdsl/cst_sada.hpp
+++ b/include/sdsl/cst_sada.hpp
@@ -169,7 +169,7 @@ class cst_sada
                 const bool c_par = !o_par;
 
                 //trim bps to maximal size of tree
-                m_bp.resize( 4 * lcp.size() );
+                m_bp = bit_vector(4 * lcp.size(), 0);
 
                 if (lcp.size() > 0) {
                     //run from back to front of lcp, enumerate intervals and count
-- 
2.43.0


From f738c7c3ae7ae4d3df0517d13fa59317a24ef74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 27/49] fix: memory monitor lost the usage an event resumes
 with when an inner event ends

---
 include/sdsl/memory_management.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 35a5789..60ea7d4 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -97,12 +97,10 @@ class memory_monitor
                     cur.allocations.emplace_back(cur_time, m.current_usage);
                     m.completed_events.emplace_back(std::move(cur));
                     m.event_stack.pop();
-                    // add a point to the new "top" with the same memory
-                    // as before but just ahead in time
+                    // add a point to the new "top" with the current memory usage
                     if (!m.event_stack.empty()) {
                         if (m.event_stack.top().allocations.size()) {
-                            auto last_usage = m.event_stack.top().allocations.back().usage;
-                            m.event_stack.top().allocations.emplace_back(cur_time, last_usage);
+                            m.event_stack.top().allocations.emplace_back(cur_time, m.current_usage);
                         }
                     }
                 }
-- 
2.43.0


From 2e268def01e3d34a91af3e8a1f2c4164a852c591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 28/49] hook: the simulator (SDSL_SIM) uses small blocks when
 vectors are stored and loaded

---
 include/sdsl/config.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sdsl/config.hpp b/include/sdsl/config.hpp
index 3cc258f..78fe7df 100644
--- a/include/sdsl/config.hpp
+++ b/include/sdsl/config.hpp
@@ -10,7 +10,11 @@ namespace sdsl
 namespace conf  // namespace for library constant
 {
 // size of the buffer for reading and writing data in elements (not in bytes)
+#ifdef SDSL_SIM // Simulation hook: small blocks, so that small vectors consist of several of them.
+const uint64_t SDSL_BLOCK_SIZE = 8;
+#else
 const uint64_t SDSL_BLOCK_SIZE = (uint64_t)1<<22;
+#endif
 
 const char KEY_BWT[] 		= "bwt";
 const char KEY_BWT_INT[]	= "bwt_int";
-- 
2.43.0


From 3f798f729971cd47d90077ccd8d90f10b33354b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 29/49] hook: small growth of a mapped vector under SDSL_SIM

---
 include/sdsl/int_vector_mapper.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index f765114..9b8e8b6 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -21,7 +21,11 @@ class int_vector_mapper
         typedef typename int_vector<t_width>::size_type size_type;
         typedef typename int_vector<t_width>::int_width_type width_type;
     public:
+#ifdef SDSL_SIM // Simulation hook: small steps, so that short histories of push_backs contain several of them.
+        const size_type append_block_size = 50;
+#else
         const size_type append_block_size = 1000000;
+#endif
     private:
         uint8_t* m_mapped_data = nullptr;
         uint64_t m_file_size_bytes = 0;
-- 
2.43.0


From 5f64cdc59908617d6b9fdb096eb6b45181b3aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 30/49] fix: a file stream whose opening throws leaked its
 buffer

---
 lib/sfstream.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/lib/sfstream.cpp b/lib/sfstream.cpp
index a4ce77e..93c4dca 100644
--- a/lib/sfstream.cpp
+++ b/lib/sfstream.cpp
@@ -1,6 +1,7 @@
 #include "sdsl/sfstream.hpp"
 #include "sdsl/util.hpp"
 #include <iostream>
+#include <memory>
 
 namespace sdsl
 {
@@ -21,23 +22,24 @@ osfstream::osfstream(const std::string& file, std::ios_base::openmode mode) : st
 osfstream::buf_ptr_type
 osfstream::open(const std::string& file, std::ios_base::openmode mode)
 {
+    this->rdbuf(nullptr);
     delete m_streambuf;
     m_streambuf = nullptr;
     m_file = file;
+    std::unique_ptr<std::streambuf> buf; // opening may throw
     std::streambuf* success = nullptr;
     if (is_ram_file(file)) {
-        m_streambuf = new ram_filebuf();
-        success = ((ram_filebuf*)m_streambuf)->open(m_file, mode);
+        buf.reset(new ram_filebuf());
+        success = ((ram_filebuf*)buf.get())->open(m_file, mode);
     } else {
-        m_streambuf = new std::filebuf();
-        success = ((std::filebuf*)m_streambuf)->open(m_file, mode);
+        buf.reset(new std::filebuf());
+        success = ((std::filebuf*)buf.get())->open(m_file, mode);
     }
     if (success) {
         this->clear();
+        m_streambuf = buf.release();
     } else {
         this->setstate(std::ios_base::failbit);
-        delete m_streambuf;
-        m_streambuf = nullptr;
     }
     this->rdbuf(m_streambuf);
     return m_streambuf;
@@ -151,23 +153,24 @@ isfstream::isfstream(const std::string& file, std::ios_base::openmode mode) : st
 isfstream::buf_ptr_type
 isfstream::open(const std::string& file, std::ios_base::openmode mode)
 {
+    this->rdbuf(nullptr);
     delete m_streambuf;
     m_streambuf = nullptr;
     m_file = file;
+    std::unique_ptr<std::streambuf> buf; // opening may throw
     std::streambuf* success = nullptr;
     if (is_ram_file(file)) {
-        m_streambuf = new ram_filebuf();
-        success = ((ram_filebuf*)m_streambuf)->open(m_file, mode);
+        buf.reset(new ram_filebuf());
+        success = ((ram_filebuf*)buf.get())->open(m_file, mode);
     } else {
-        m_streambuf = new std::filebuf();
-        success = ((std::filebuf*)m_streambuf)->open(m_file, mode);
+        buf.reset(new std::filebuf());
+        success = ((std::filebuf*)buf.get())->open(m_file, mode);
     }
     if (success) {
         this->clear();
+        m_streambuf = buf.release();
     } else {
         this->setstate(std::ios_base::failbit);
-        delete m_streambuf;
-        m_streambuf = nullptr;
     }
     this->rdbuf(m_streambuf);
     return m_streambuf;
-- 
2.43.0


From 28cae4bab9b90e262a471aa4bad1c361b5ed09be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 31/49] fix: select_support_mcl leaked its blocks or freed them
 twice when an allocation failed

---
 include/sdsl/select_support_mcl.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/select_support_mcl.hpp b/include/sdsl/select_support_mcl.hpp
index 3cd826c..529ba1f 100644
--- a/include/sdsl/select_support_mcl.hpp
+++ b/include/sdsl/select_support_mcl.hpp
@@ -86,6 +86,10 @@ class select_support_mcl : public select_support
         void copy(const select_support_mcl<t_b, t_pat_len>& ss);
         void initData();
         void init_fast(const bit_vector* v=nullptr);
+        // An empty structure. Constructors delegate to it, so that the destructor
+        // releases the blocks if an allocation fails in their bodies.
+        struct empty_tag {};
+        select_support_mcl(const bit_vector* v, empty_tag):select_support(v) {}
     public:
         explicit select_support_mcl(const bit_vector* v=nullptr);
         select_support_mcl(const select_support_mcl<t_b,t_pat_len>& ss);
@@ -106,7 +110,7 @@ class select_support_mcl : public select_support
 
 
 template<uint8_t t_b, uint8_t t_pat_len>
-select_support_mcl<t_b,t_pat_len>::select_support_mcl(const bit_vector* f_v):select_support(f_v)
+select_support_mcl<t_b,t_pat_len>::select_support_mcl(const bit_vector* f_v):select_support_mcl(f_v, empty_tag())
 {
     if (t_pat_len>1 or(vv!=nullptr and  vv->size() < 100000))
         init_slow(vv);
@@ -116,7 +120,7 @@ select_support_mcl<t_b,t_pat_len>::select_support_mcl(const bit_vector* f_v):sel
 }
 
 template<uint8_t t_b, uint8_t t_pat_len>
-select_support_mcl<t_b,t_pat_len>::select_support_mcl(const select_support_mcl& ss):select_support(ss.m_v)
+select_support_mcl<t_b,t_pat_len>::select_support_mcl(const select_support_mcl& ss):select_support_mcl(ss.m_v, empty_tag())
 {
     copy(ss);
 }
@@ -222,6 +226,7 @@ void select_support_mcl<t_b,t_pat_len>::init_slow(const bit_vector* v)
 
     size_type sb = (m_arg_cnt+SUPER_BLOCK_SIZE-1)/SUPER_BLOCK_SIZE; // number of superblocks
     delete [] m_miniblock;
+    m_miniblock = nullptr;
     m_miniblock = new int_vector<0>[sb];
 
     m_superblock = int_vector<0>(sb, 0, m_logn);
@@ -275,6 +280,7 @@ void select_support_mcl<t_b,t_pat_len>::init_fast(const bit_vector* v)
 //    size_type sb = (m_arg_cnt+63+SUPER_BLOCK_SIZE-1)/SUPER_BLOCK_SIZE; // number of superblocks, add 63 as the last block could contain 63 uninitialized bits
     size_type sb = (m_arg_cnt+SUPER_BLOCK_SIZE-1)/SUPER_BLOCK_SIZE; // number of superblocks
     delete [] m_miniblock;
+    m_miniblock = nullptr;
     m_miniblock = new int_vector<0>[sb];
 
     m_superblock = int_vector<0>(sb, 0, m_logn);// TODO: hier koennte man logn noch optimieren...s
-- 
2.43.0


From b9800cd445144d7859261cee556096cacc6ea7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 32/49] fix: bp_support_gg freed its pioneer structure twice
 when an allocation failed in a copy

---
 include/sdsl/bp_support_gg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/bp_support_gg.hpp b/include/sdsl/bp_support_gg.hpp
index 74d1632..e900c61 100644
--- a/include/sdsl/bp_support_gg.hpp
+++ b/include/sdsl/bp_support_gg.hpp
@@ -109,6 +109,7 @@ class bp_support_gg
                 m_pioneer_bp_support = nullptr;
             } else {
                 delete m_pioneer_bp_support;
+                m_pioneer_bp_support = nullptr; // the copy may fail
                 m_pioneer_bp_support = new bp_support_type(*(bp_support.m_pioneer_bp_support));
                 assert(m_pioneer_bp_support != nullptr);
                 m_pioneer_bp_support->set_vector(&m_pioneer_bp);
-- 
2.43.0


From 1c3b20dc33d5a6eb525be75cc201cff57b85f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 33/49] fix: the destructor of int_vector_buffer terminated the
 program when closing threw

---
 include/sdsl/int_vector_buffer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index 23bfad4..6aa6459 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -233,7 +233,10 @@ class int_vector_buffer
         //! Destructor.
         ~int_vector_buffer()
         {
-            close();
+            try {
+                close();
+            } catch (...) { // like std::filebuf: a destructor must not throw
+            }
         }
 
         //! Move assignment operator.
-- 
2.43.0


From 84a6c407da888f78547f7929dc27848040152812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 34/49] fix: sa_bwt_sampling multiplied its samples, which are
 not divided, by the sampling rate

---
 include/sdsl/csa_sampling_strategy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/csa_sampling_strategy.hpp b/include/sdsl/csa_sampling_strategy.hpp
index 8209fcc..e8e057b 100644
--- a/include/sdsl/csa_sampling_strategy.hpp
+++ b/include/sdsl/csa_sampling_strategy.hpp
@@ -550,7 +550,7 @@ class _bwt_sampling : public int_vector<t_width>
         //! Return the suffix array value for the sampled index i
         inline value_type operator[](size_type i) const
         {
-            return base_type::operator[](m_rank_marked(i)) * sample_dens;
+            return base_type::operator[](m_rank_marked(i));
         }
 
         //! Assignment operation
-- 
2.43.0


From 198e048b4ac4a36b443bdfef1533e12b50afa614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 35/49] fix: constructing a suffix tree from a cache that holds
 the CSA but not its input failed or gave an empty LCP array

---
 include/sdsl/construct.hpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/sdsl/construct.hpp b/include/sdsl/construct.hpp
index f6ab84b..eefa652 100644
--- a/include/sdsl/construct.hpp
+++ b/include/sdsl/construct.hpp
@@ -116,14 +116,13 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
     }
 }
 
-// Specialization for CSAs
-template<class t_index>
-void construct(t_index& idx, const std::string& file, cache_config& config, uint8_t num_bytes, csa_tag)
+// Stores the text, its suffix array and its BWT in the cache, unless they are already there
+template<uint8_t t_width>
+void construct_text_sa_bwt(const std::string& file, cache_config& config, uint8_t num_bytes)
 {
-    auto event = memory_monitor::event("construct CSA");
-    const char* KEY_TEXT = key_text_trait<t_index::alphabet_category::WIDTH>::KEY_TEXT;
-    const char* KEY_BWT  = key_bwt_trait<t_index::alphabet_category::WIDTH>::KEY_BWT;
-    typedef int_vector<t_index::alphabet_category::WIDTH> text_type;
+    const char* KEY_TEXT = key_text_trait<t_width>::KEY_TEXT;
+    const char* KEY_BWT  = key_bwt_trait<t_width>::KEY_BWT;
+    typedef int_vector<t_width> text_type;
     {
         auto event = memory_monitor::event("parse input text");
         // (1) check, if the text is cached
@@ -141,7 +140,7 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
         // (2) check, if the suffix array is cached
         auto event = memory_monitor::event("SA");
         if (!cache_file_exists(conf::KEY_SA, config)) {
-            construct_sa<t_index::alphabet_category::WIDTH>(config);
+            construct_sa<t_width>(config);
         }
         register_cache_file(conf::KEY_SA, config);
     }
@@ -149,10 +148,19 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
         //  (3) construct BWT
         auto event = memory_monitor::event("BWT");
         if (!cache_file_exists(KEY_BWT, config)) {
-            construct_bwt<t_index::alphabet_category::WIDTH>(config);
+            construct_bwt<t_width>(config);
         }
         register_cache_file(KEY_BWT, config);
     }
+}
+
+// Specialization for CSAs
+template<class t_index>
+void construct(t_index& idx, const std::string& file, cache_config& config, uint8_t num_bytes, csa_tag)
+{
+    auto event = memory_monitor::event("construct CSA");
+    // (1)-(3) parse the text, construct SA and BWT
+    construct_text_sa_bwt<t_index::alphabet_category::WIDTH>(file, config, num_bytes);
     {
         //  (4) use BWT to construct the CSA
         auto event = memory_monitor::event("construct CSA");
@@ -246,6 +254,8 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
             auto event = memory_monitor::event("store CSA");
             config.file_map = csa_config.file_map;
             store_to_cache(csa,std::string(conf::KEY_CSA)+"_"+util::class_to_hash(csa), config);
+        } else { // the following steps read the input of the CSA, which might not be cached
+            construct_text_sa_bwt<t_index::alphabet_category::WIDTH>(file, config, num_bytes);
         }
         register_cache_file(std::string(conf::KEY_CSA)+"_"+util::class_to_hash(csa), config);
     }
-- 
2.43.0


From 6d561e24690dedf5ef426da82f60d92898c32613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 36/49] fix: construct_lcp_bwt_based lost the end of the array
 between its phases

---
 lib/construct_lcp_helper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/construct_lcp_helper.cpp b/lib/construct_lcp_helper.cpp
index 0c83878..d1d5ae5 100644
--- a/lib/construct_lcp_helper.cpp
+++ b/lib/construct_lcp_helper.cpp
@@ -35,6 +35,8 @@ void insert_lcp_values(int_vector<>& partial_lcp, bit_vector& index_done, std::s
                 // Insert value
                 out_buf[i] = partial_lcp[calc_idx]+lcp_value_offset;
                 index_done[i] = true;
+            } else {
+                out_buf[i] = 0; // Not known yet
             }
             ++calc_idx;
         }
-- 
2.43.0


From 8d9c29cd46572a07cb4158fdfe832dfd32816407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 37/49] fix: construct_lcp_bwt_based wrote an old header over
 its output in the RAM store

---
 lib/construct_lcp_helper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/construct_lcp_helper.cpp b/lib/construct_lcp_helper.cpp
index d1d5ae5..2f2b02e 100644
--- a/lib/construct_lcp_helper.cpp
+++ b/lib/construct_lcp_helper.cpp
@@ -41,7 +41,8 @@ void insert_lcp_values(int_vector<>& partial_lcp, bit_vector& index_done, std::s
             ++calc_idx;
         }
     }
-    // Close file and replace old file with new one
+    // Close files and replace old file with new one
+    lcp_buffer.close();
     out_buf.close();
     sdsl::rename(tmp_lcp_file, lcp_file);
 }
-- 
2.43.0


From 06afc4f7f8841a49f373c5a1a5cf1a7ab49cf560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 38/49] fix: construct_lcp_bwt_based divided by zero when a
 phase ends with the last value

---
 lib/construct_lcp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/construct_lcp.cpp b/lib/construct_lcp.cpp
index 9a8cb21..70be753 100644
--- a/lib/construct_lcp.cpp
+++ b/lib/construct_lcp.cpp
@@ -819,7 +819,7 @@ void construct_lcp_bwt_based(cache_config& config)
             lcp_value_offset = lcp_value_max-1;
             size_type remaining_lcp_values = index_done.size()-ds_rank_support.rank(index_done.size());
 
-            uint8_t int_width_new = std::min(space_in_bit_for_lcp / remaining_lcp_values , (size_type)bits::hi(n-1)+1);
+            uint8_t int_width_new = std::min(space_in_bit_for_lcp / std::max(remaining_lcp_values, (size_type)1), (size_type)bits::hi(n-1)+1);
             lcp_value_max = lcp_value_offset + (1ULL<<int_width_new);
 #ifdef STUDY_INFORMATIONS
             std::cout << "# l=" << remaining_lcp_values << " b=" << (int)int_width_new << " lcp_value_max=" << lcp_value_max << std::endl;
-- 
2.43.0


From a3a39985673b35f97fbcd0e71769a8b2b8c5aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 39/49] fix: construct_lcp_bwt_based reserved too few bits per
 value for some text lengths

---
 lib/construct_lcp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/construct_lcp.cpp b/lib/construct_lcp.cpp
index 70be753..6f7fcce 100644
--- a/lib/construct_lcp.cpp
+++ b/lib/construct_lcp.cpp
@@ -652,7 +652,7 @@ void construct_lcp_bwt_based(cache_config& config)
     if (n*20 < size_in_bytes(wt_bwt)*8*1.25+5*n) {
         bb = 6;
     }
-    bb = std::min(bb, (size_type)8);
+    bb = std::max(std::min(bb, (size_type)8), (size_type)2); // two values are calculated before the first check
 
     size_type lcp_value_max = (1ULL<<bb)-1;       // Largest LCP value that can be stored into the LCP array
     size_type space_in_bit_for_lcp = n*bb;        // Space for the LCP array in main memory
-- 
2.43.0


From 5ddb90e212c8321f2074f4b6f947d45d9bbed08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:53 +0000
Subject: [PATCH 40/49] fix: copied depth first iterators of suffix trees freed
 the same stack twice

---
 include/sdsl/cst_iterators.hpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/cst_iterators.hpp b/include/sdsl/cst_iterators.hpp
index e531a44..63bba07 100644
--- a/include/sdsl/cst_iterators.hpp
+++ b/include/sdsl/cst_iterators.hpp
@@ -21,6 +21,9 @@
 #ifndef INCLUDED_SDSL_CST_ITERATORS
 #define INCLUDED_SDSL_CST_ITERATORS
 
+#include <algorithm>
+#include <utility>
+
 namespace sdsl
 {
 
@@ -77,26 +80,40 @@ class cst_dfs_const_forward_iterator: public std::iterator<std::forward_iterator
         }
 
         //! Default constructor
-        cst_dfs_const_forward_iterator():m_cst(nullptr),m_visited(false),m_valid(false), m_stack_cache(nullptr)
+        cst_dfs_const_forward_iterator():m_cst(nullptr),m_visited(false),m_valid(false), m_stack_cache(nullptr), m_stack_size(0)
         {}
     public:
 
         //! Constructor
-        cst_dfs_const_forward_iterator(const Cst* cst, const value_type node, bool visited=false, bool valid=true):m_visited(visited), m_valid(valid), m_stack_cache(nullptr) {
+        cst_dfs_const_forward_iterator(const Cst* cst, const value_type node, bool visited=false, bool valid=true):m_visited(visited), m_valid(valid), m_stack_cache(nullptr), m_stack_size(0) {
             m_cst = cst;
             m_v = node;
             if (m_cst == nullptr) {
                 m_valid = false;
             } else if (m_v == m_cst->root() and !m_visited and m_valid) { // if the iterator equal cst.begin()
                 m_stack_cache = new node_type[cache_size];
-                m_stack_size  = 0;
 //			std::cerr<<"#creating stack "<<m_cst->lb(m_v)<<" "<<m_cst->rb(m_v)<<std::endl;
             }
         }
 
         //! Copy Constructor
-//	cst_dfs_const_forward_iterator(const cst_dfs_const_forward_iterator &it):m_cst(it.cst),m_v(it.m_v),m_valid(m_valid), m_stack_cache(nullptr),m_stack_size(0){
-//	}
+        cst_dfs_const_forward_iterator(const cst_dfs_const_forward_iterator& it):m_cst(it.m_cst), m_v(it.m_v), m_visited(it.m_visited), m_valid(it.m_valid), m_stack_cache(nullptr), m_stack_size(it.m_stack_size) {
+            if (it.m_stack_cache != nullptr) {
+                m_stack_cache = new node_type[cache_size];
+                std::copy(it.m_stack_cache, it.m_stack_cache+cache_size, m_stack_cache);
+            }
+        }
+
+        //! Assignment operator
+        cst_dfs_const_forward_iterator& operator=(cst_dfs_const_forward_iterator it) {
+            std::swap(m_cst, it.m_cst);
+            std::swap(m_v, it.m_v);
+            std::swap(m_visited, it.m_visited);
+            std::swap(m_valid, it.m_valid);
+            std::swap(m_stack_cache, it.m_stack_cache);
+            std::swap(m_stack_size, it.m_stack_size);
+            return *this;
+        }
 
         ~cst_dfs_const_forward_iterator() {
             if (m_stack_cache != nullptr) {
-- 
2.43.0


From d7c1552f3e92ecc4cdc72362d6bcaafbc01727bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 41/49] fix: an int_vector_buffer that was only read rewrote
 the header of its file

---
 include/sdsl/int_vector_buffer.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index 6aa6459..dbbf687 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -57,6 +57,7 @@ class int_vector_buffer
         std::string         m_filename;
         int_vector<t_width> m_buffer;
         bool                m_need_to_write = false;
+        bool                m_need_header   = false; // header in the file does not match the content
         // length of int_vector header in bytes: 0 for plain, 8 for int_vector<t_width> (0 < t_width), 9 for int_vector<0>
         uint64_t            m_offset     = 0;
         uint64_t            m_buffersize = 8;    // in elements! m_buffersize*width() must be a multiple of 8!
@@ -148,6 +149,7 @@ class int_vector_buffer
                 m_size = idx+1;
             }
             m_need_to_write = true;
+            m_need_header = true;
             m_buffer[idx-m_begin] = value;
         }
 
@@ -188,6 +190,7 @@ class int_vector_buffer
             assert(m_ofile.good());
             m_ifile.open(m_filename, std::ios::in|std::ios::binary);
             assert(m_ifile.good());
+            m_need_header = !(mode & std::ios::in);
             if (mode & std::ios::in) {
                 uint64_t size  = 0;
                 if (is_plain) {
@@ -209,6 +212,7 @@ class int_vector_buffer
             m_filename(std::move(ivb.m_filename)),
             m_buffer(std::move(ivb.m_buffer)),
             m_need_to_write(ivb.m_need_to_write),
+            m_need_header(ivb.m_need_header),
             m_offset(ivb.m_offset),
             m_buffersize(ivb.m_buffersize),
             m_size(ivb.m_size),
@@ -224,6 +228,7 @@ class int_vector_buffer
             ivb.m_filename = "";
             ivb.m_buffer = int_vector<t_width>();
             ivb.m_need_to_write = false;
+            ivb.m_need_header = false;
             ivb.m_offset = 0;
             ivb.m_buffersize = 8;
             ivb.m_size = 0;
@@ -253,6 +258,7 @@ class int_vector_buffer
             // assign the values of ivb to this
             m_buffer = (int_vector<t_width>&&)ivb.m_buffer;
             m_need_to_write = ivb.m_need_to_write;
+            m_need_header = ivb.m_need_header;
             m_offset = ivb.m_offset;
             m_buffersize = ivb.m_buffersize;
             m_size = ivb.m_size;
@@ -261,6 +267,7 @@ class int_vector_buffer
             ivb.m_filename = "";
             ivb.m_buffer = int_vector<t_width>();
             ivb.m_need_to_write = false;
+            ivb.m_need_header = false;
             ivb.m_offset = 0;
             ivb.m_buffersize = 8;
             ivb.m_size = 0;
@@ -339,6 +346,7 @@ class int_vector_buffer
             assert(m_ofile.good());
             // reset member variables
             m_need_to_write = false;
+            m_need_header = true;
             m_size = 0;
             // reset buffer
             read_block(0);
@@ -371,7 +379,7 @@ class int_vector_buffer
             if (is_open()) {
                 if (!remove_file) {
                     write_block();
-                    if (0 < m_offset) { // in case of int_vector, write header and trailing zeros
+                    if (0 < m_offset and m_need_header) { // in case of int_vector, write header and trailing zeros
                         uint64_t size = m_size*width();
                         m_ofile.seekp(0, std::ios::beg);
                         int_vector<t_width>::write_header(size, width(), m_ofile);
@@ -423,6 +431,7 @@ class int_vector_buffer
                 assert(ivb.m_ofile.good());
                 std::swap(m_buffer, ivb.m_buffer);
                 std::swap(m_need_to_write, ivb.m_need_to_write);
+                std::swap(m_need_header, ivb.m_need_header);
                 std::swap(m_offset, ivb.m_offset);
                 std::swap(m_buffersize, ivb.m_buffersize);
                 std::swap(m_size, ivb.m_size);
-- 
2.43.0


From f87cb670156ce5e1e67197dbad52c322b5d0af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:20 +0000
Subject: [PATCH 42/49] fix: construct() returned an index of incomplete data
 if a file operation failed

---
 include/sdsl/construct.hpp             |  8 ++--
 include/sdsl/csa_sada.hpp              |  1 +
 include/sdsl/csa_sampling_strategy.hpp |  2 +-
 include/sdsl/csa_wt.hpp                |  1 +
 include/sdsl/int_vector_buffer.hpp     |  7 +++
 include/sdsl/io.hpp                    |  6 +++
 include/sdsl/io_guard.hpp              | 62 ++++++++++++++++++++++++++
 include/sdsl/k2_treap_algorithm.hpp    |  1 +
 include/sdsl/lcp_support_tree2.hpp     |  3 ++
 include/sdsl/sfstream.hpp              |  1 +
 include/sdsl/wm_int.hpp                |  1 +
 include/sdsl/wt_int.hpp                |  1 +
 12 files changed, 90 insertions(+), 4 deletions(-)
 create mode 100644 include/sdsl/io_guard.hpp

diff --git a/include/sdsl/construct.hpp b/include/sdsl/construct.hpp
index eefa652..d8613bc 100644
--- a/include/sdsl/construct.hpp
+++ b/include/sdsl/construct.hpp
@@ -85,9 +85,11 @@ void construct_im(t_index& idx, t_data data, uint8_t num_bytes=0)
 template<class t_index>
 void construct(t_index& idx, const std::string& file, cache_config& config, uint8_t num_bytes=0)
 {
+    io_guard guard; // an index of incomplete intermediate files would be wrong
     // delegate to CSA or CST construction
     typename t_index::index_category 		index_tag;
     construct(idx, file, config, num_bytes, index_tag);
+    io_guard::check(true, file);
 }
 
 // Specialization for WTs
@@ -102,7 +104,7 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
         idx.swap(tmp);
     } else {
         int_vector<t_index::alphabet_category::WIDTH> text;
-        load_vector_from_file(text, file, num_bytes);
+        io_guard::check(load_vector_from_file(text, file, num_bytes), file);
         std::string tmp_key = util::to_string(util::pid())+"_"+util::to_string(util::id());
         std::string tmp_file_name = cache_file_name(tmp_key, config);
         store_to_file(text, tmp_file_name);
@@ -128,7 +130,7 @@ void construct_text_sa_bwt(const std::string& file, cache_config& config, uint8_
         // (1) check, if the text is cached
         if (!cache_file_exists(KEY_TEXT, config)) {
             text_type text;
-            load_vector_from_file(text, file, num_bytes);
+            io_guard::check(load_vector_from_file(text, file, num_bytes), file);
             if (contains_no_zero_symbol(text, file)) {
                 append_zero_symbol(text);
                 store_to_cache(text,KEY_TEXT, config);
@@ -189,7 +191,7 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
                 // (1) check, if the text is cached
                 if (!cache_file_exists(KEY_TEXT, config)) {
                     text_type text;
-                    load_vector_from_file(text, file, num_bytes);
+                    io_guard::check(load_vector_from_file(text, file, num_bytes), file);
                     if (contains_no_zero_symbol(text, file)) {
                         append_zero_symbol(text);
                         store_to_cache(text,KEY_TEXT, config);
diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index 9599f66..594ec9c 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -387,6 +387,7 @@ template<class t_enc_vec, uint32_t t_dens, uint32_t t_inv_dens, class t_sa_sampl
 csa_sada<t_enc_vec, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat>::csa_sada(cache_config& config)
 {
     if (!cache_file_exists(key_trait<alphabet_type::int_width>::KEY_BWT, config)) {
+        io_guard::check(false, cache_file_name(key_trait<alphabet_type::int_width>::KEY_BWT, config));
         return;
     }
     int_vector_buffer<alphabet_type::int_width> bwt_buf(cache_file_name(key_trait<alphabet_type::int_width>::KEY_BWT,config));
diff --git a/include/sdsl/csa_sampling_strategy.hpp b/include/sdsl/csa_sampling_strategy.hpp
index e8e057b..84183ae 100644
--- a/include/sdsl/csa_sampling_strategy.hpp
+++ b/include/sdsl/csa_sampling_strategy.hpp
@@ -504,7 +504,7 @@ class _bwt_sampling : public int_vector<t_width>
             int_vector<> sample_char;
             typedef typename t_csa::char_type char_type;
             std::set<char_type> char_map;
-            if (load_from_cache(sample_char, conf::KEY_SAMPLE_CHAR,cconfig)) {
+            if (cache_file_exists(conf::KEY_SAMPLE_CHAR,cconfig) and load_from_cache(sample_char, conf::KEY_SAMPLE_CHAR,cconfig)) {
                 for (uint64_t i=0; i<sample_char.size(); ++i) {
                     char_map.insert((char_type)sample_char[i]);
                 }
diff --git a/include/sdsl/csa_wt.hpp b/include/sdsl/csa_wt.hpp
index 2b0534f..36641a7 100644
--- a/include/sdsl/csa_wt.hpp
+++ b/include/sdsl/csa_wt.hpp
@@ -302,6 +302,7 @@ template<class t_wt, uint32_t t_dens, uint32_t t_inv_dens, class t_sa_sample_str
 csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat>::csa_wt(cache_config& config)
 {
     if (!cache_file_exists(key_trait<alphabet_type::int_width>::KEY_BWT, config)) {
+        io_guard::check(false, cache_file_name(key_trait<alphabet_type::int_width>::KEY_BWT, config));
         return;
     }
     {
diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index dbbf687..cb8b3df 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -83,6 +83,7 @@ class int_vector_buffer
                     }
                 }
                 assert(m_ifile.good());
+                io_guard::check(m_ifile.good() or !m_ifile.is_open(), m_filename);
                 for (uint64_t i=m_size-m_begin; i<m_buffersize; ++i) {
                     m_buffer[i] = 0;
                 }
@@ -105,6 +106,7 @@ class int_vector_buffer
                 m_ofile.flush();
                 assert(m_ofile.good());
                 m_need_to_write = false;
+                io_guard::check(m_ofile.good(), m_filename);
             }
         }
 
@@ -190,6 +192,8 @@ class int_vector_buffer
             assert(m_ofile.good());
             m_ifile.open(m_filename, std::ios::in|std::ios::binary);
             assert(m_ifile.good());
+            // a file which is only read does not have to be writable
+            io_guard::check(m_ifile.good() and (m_ofile.good() or !(mode & std::ios::out)), m_filename);
             m_need_header = !(mode & std::ios::in);
             if (mode & std::ios::in) {
                 uint64_t size  = 0;
@@ -202,6 +206,7 @@ class int_vector_buffer
                     m_buffer.width(width);
                 }
                 assert(m_ifile.good());
+                io_guard::check(m_ifile.good(), m_filename);
                 m_size = size/width();
             }
             buffersize(buffer_size);
@@ -399,6 +404,8 @@ class int_vector_buffer
                 assert(m_ofile.good());
                 if (remove_file) {
                     sdsl::remove(m_filename);
+                } else {
+                    io_guard::check(m_ofile.good(), m_filename);
                 }
             }
         }
diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index a3d35d7..fd8ade5 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -675,6 +675,7 @@ bool store_to_file(const T& t, const std::string& file)
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file not successful for: `"<<file<<"`"<<std::endl;
         }
+        io_guard::check(false, file);
         return false;
     }
     serialize(t,out);
@@ -683,6 +684,7 @@ bool store_to_file(const T& t, const std::string& file)
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file not successful for: `"<<file<<"`"<<std::endl;
         }
+        io_guard::check(false, file);
         return false;
     }
     if (util::verbose) {
@@ -723,6 +725,7 @@ bool store_to_file(const int_vector<t_width>& v, const std::string& file, bool w
     osfstream out(file, std::ios::binary | std::ios::trunc | std::ios::out);
     if (!out) {
         std::cerr<<"ERROR: util::store_to_file:: Could not open file `"<<file<<"`"<<std::endl;
+        io_guard::check(false, file);
         return false;
     } else {
         if (util::verbose) {
@@ -733,6 +736,7 @@ bool store_to_file(const int_vector<t_width>& v, const std::string& file, bool w
     out.close();
     if (out.fail()) {
         std::cerr<<"ERROR: util::store_to_file:: Could not write file `"<<file<<"`"<<std::endl;
+        io_guard::check(false, file);
         return false;
     }
     return true;
@@ -768,6 +772,7 @@ bool load_from_file(T& v, const std::string& file)
         if (util::verbose) {
             std::cerr << "Could not load file `" << file << "`" << std::endl;
         }
+        io_guard::check(false, file);
         return false;
     }
     load(v, in);
@@ -776,6 +781,7 @@ bool load_from_file(T& v, const std::string& file)
         if (util::verbose) {
             std::cerr << "Could not load file `" << file << "`" << std::endl;
         }
+        io_guard::check(false, file);
         return false;
     }
     if (util::verbose) {
diff --git a/include/sdsl/io_guard.hpp b/include/sdsl/io_guard.hpp
new file mode 100644
index 0000000..c8625d1
--- /dev/null
+++ b/include/sdsl/io_guard.hpp
@@ -0,0 +1,62 @@
+/*! \file io_guard.hpp
+    \brief io_guard.hpp contains a class which reports failing file operations of a construction.
+*/
+#ifndef INCLUDED_SDSL_IO_GUARD
+#define INCLUDED_SDSL_IO_GUARD
+
+#include <ios>
+#include <string>
+
+namespace sdsl
+{
+
+//! While an io_guard lives, file operations of the library in its thread throw std::ios_base::failure if they fail.
+/*! The construction methods use intermediate files. They would continue with wrong
+ *  data if such a file could not be written or read. Without a guard a failing
+ *  operation is only visible in a return value or in the state of a stream.
+ */
+class io_guard
+{
+    private:
+        enum state_type { OFF, ON, FAILED };
+        state_type m_outer;
+
+        static state_type& state()
+        {
+            static thread_local state_type s = OFF;
+            return s;
+        }
+
+    public:
+        io_guard() : m_outer(state())
+        {
+            if (m_outer == OFF) {
+                state() = ON;
+            }
+        }
+
+        ~io_guard()
+        {
+            if (m_outer == OFF) {
+                state() = OFF;
+            }
+        }
+
+        io_guard(const io_guard&) = delete;
+        io_guard& operator=(const io_guard&) = delete;
+
+        //! Report the result of an operation on `file`.
+        /*! Throws if a guard lives and this operation or an earlier one,
+         *  which could not throw as it was part of a destruction, failed.
+         */
+        static void check(bool success, const std::string& file)
+        {
+            if (state() != OFF and (!success or state() == FAILED)) {
+                state() = FAILED;
+                throw std::ios_base::failure("file operation failed: `"+file+"`");
+            }
+        }
+};
+
+} // end namespace sdsl
+#endif
diff --git a/include/sdsl/k2_treap_algorithm.hpp b/include/sdsl/k2_treap_algorithm.hpp
index 89a43dd..e52e820 100644
--- a/include/sdsl/k2_treap_algorithm.hpp
+++ b/include/sdsl/k2_treap_algorithm.hpp
@@ -381,6 +381,7 @@ template<uint8_t  t_k,
 void
 construct(k2_treap<t_k, t_bv, t_rank, t_max_vec>& idx, std::string file)
 {
+    io_guard guard; // an index of incomplete input or intermediate files would be wrong
     int_vector_buffer<> buf_x(file+".x", std::ios::in);
     int_vector_buffer<> buf_y(file+".y", std::ios::in);
     int_vector_buffer<> buf_w(file+".w", std::ios::in);
diff --git a/include/sdsl/lcp_support_tree2.hpp b/include/sdsl/lcp_support_tree2.hpp
index 83a6aa3..3b56423 100644
--- a/include/sdsl/lcp_support_tree2.hpp
+++ b/include/sdsl/lcp_support_tree2.hpp
@@ -285,8 +285,10 @@ void construct_first_child_and_lf_lcp(int_vector_buffer<>& lcp_buf,
     bit_size = 8*fc_cnt;
     sml_lcp_out.write((char*) &bit_size, sizeof(bit_size));
     sml_lcp_out.close();
+    io_guard::check(sml_lcp_out.good(), small_lcp_file);
 
     big_lcp_out.close();
+    io_guard::check(big_lcp_out.good(), big_lcp_file);
     isfstream big_lcp_in(big_lcp_file, std::ios::in | std::ios::binary);
     big_lcp.width(bits::hi(max_lcp)+1);
     big_lcp.resize(fc_cnt_big);
@@ -295,6 +297,7 @@ void construct_first_child_and_lf_lcp(int_vector_buffer<>& lcp_buf,
         big_lcp_in.read((char*)&y, sizeof(y));
         big_lcp[i] = y;
     }
+    io_guard::check(big_lcp_in.good(), big_lcp_file);
 }
 
 } // end namespace
diff --git a/include/sdsl/sfstream.hpp b/include/sdsl/sfstream.hpp
index ceef470..e32e87f 100644
--- a/include/sdsl/sfstream.hpp
+++ b/include/sdsl/sfstream.hpp
@@ -10,6 +10,7 @@
 #include <string>
 #include "sdsl/ram_fs.hpp"
 #include "sdsl/ram_filebuf.hpp"
+#include "sdsl/io_guard.hpp"
 
 namespace sdsl
 {
diff --git a/include/sdsl/wm_int.hpp b/include/sdsl/wm_int.hpp
index cab4632..eccfa6b 100644
--- a/include/sdsl/wm_int.hpp
+++ b/include/sdsl/wm_int.hpp
@@ -204,6 +204,7 @@ class wm_int
             }
             sdsl::remove(zero_buf_file_name);
             tree_out_buf.close();
+            io_guard::check(tree_out_buf.good(), tree_out_buf_file_name);
             m_sigma = std::unique(rac.begin(), rac.end()) - rac.begin();
             rac.resize(0);
             bit_vector tree;
diff --git a/include/sdsl/wt_int.hpp b/include/sdsl/wt_int.hpp
index 500dc42..7dd9d69 100644
--- a/include/sdsl/wt_int.hpp
+++ b/include/sdsl/wt_int.hpp
@@ -245,6 +245,7 @@ class wt_int
             }
             buf1.close(true); // remove temporary file
             tree_out_buf.close();
+            io_guard::check(tree_out_buf.good(), tree_out_buf_file_name);
             rac.resize(0);
             bit_vector tree;
             load_from_file(tree, tree_out_buf_file_name);
-- 
2.43.0


From 85f5873b47cb6ddcb5b3f2f46a325146a27217b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:20 +0000
Subject: [PATCH 43/49] fix: a failed construction left unfinished files in the
 cache

---
 include/sdsl/construct.hpp | 28 +++++++++++++++++++++-------
 include/sdsl/io.hpp        | 10 +++++++++-
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/sdsl/construct.hpp b/include/sdsl/construct.hpp
index d8613bc..1b65e16 100644
--- a/include/sdsl/construct.hpp
+++ b/include/sdsl/construct.hpp
@@ -118,6 +118,20 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
     }
 }
 
+// Builds a file of the cache. It is removed, if it could not be completed, as the next construction would use it.
+template<class t_build>
+void construct_cache_file(const std::string& key, cache_config& config, t_build build)
+{
+    std::string file = cache_file_name(key, config);
+    try {
+        build(config);
+        io_guard::check(true, file);
+    } catch (...) {
+        sdsl::remove(file);
+        throw;
+    }
+}
+
 // Stores the text, its suffix array and its BWT in the cache, unless they are already there
 template<uint8_t t_width>
 void construct_text_sa_bwt(const std::string& file, cache_config& config, uint8_t num_bytes)
@@ -142,7 +156,7 @@ void construct_text_sa_bwt(const std::string& file, cache_config& config, uint8_
         // (2) check, if the suffix array is cached
         auto event = memory_monitor::event("SA");
         if (!cache_file_exists(conf::KEY_SA, config)) {
-            construct_sa<t_width>(config);
+            construct_cache_file(conf::KEY_SA, config, construct_sa<t_width>);
         }
         register_cache_file(conf::KEY_SA, config);
     }
@@ -150,7 +164,7 @@ void construct_text_sa_bwt(const std::string& file, cache_config& config, uint8_
         //  (3) construct BWT
         auto event = memory_monitor::event("BWT");
         if (!cache_file_exists(KEY_BWT, config)) {
-            construct_bwt<t_width>(config);
+            construct_cache_file(KEY_BWT, config, construct_bwt<t_width>);
         }
         register_cache_file(KEY_BWT, config);
     }
@@ -203,14 +217,14 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
                 // (2) check, if the suffix array is cached
                 auto event = memory_monitor::event("SA");
                 if (!cache_file_exists(conf::KEY_SA, config)) {
-                    construct_sa<t_width>(config);
+                    construct_cache_file(conf::KEY_SA, config, construct_sa<t_width>);
                 }
                 register_cache_file(conf::KEY_SA, config);
             }
             if (t_width==8) {
-                construct_lcp_semi_extern_PHI(config);
+                construct_cache_file(conf::KEY_LCP, config, construct_lcp_semi_extern_PHI);
             } else {
-                construct_lcp_PHI<t_width>(config);
+                construct_cache_file(conf::KEY_LCP, config, construct_lcp_PHI<t_width>);
             }
         }
         register_cache_file(conf::KEY_LCP, config);
@@ -269,9 +283,9 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
         register_cache_file(conf::KEY_SA, config);
         if (!cache_file_exists(conf::KEY_LCP, config)) {
             if (t_index::alphabet_category::WIDTH==8) {
-                construct_lcp_semi_extern_PHI(config);
+                construct_cache_file(conf::KEY_LCP, config, construct_lcp_semi_extern_PHI);
             } else {
-                construct_lcp_PHI<t_index::alphabet_category::WIDTH>(config);
+                construct_cache_file(conf::KEY_LCP, config, construct_lcp_PHI<t_index::alphabet_category::WIDTH>);
             }
         }
         register_cache_file(conf::KEY_LCP, config);
diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index fd8ade5..bcfab2a 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -636,10 +636,18 @@ bool store_to_cache(const T& v, const std::string& key, cache_config& config, bo
     } else {
         file = cache_file_name(key, config);
     }
-    if (store_to_file(v, file)) {
+    bool stored = false;
+    try {
+        stored = store_to_file(v, file);
+    } catch (...) {
+        sdsl::remove(file);
+        throw;
+    }
+    if (stored) {
         config.file_map[std::string(key)] = file;
         return true;
     } else {
+        sdsl::remove(file); // an incomplete file would be used by the next construction
         std::cerr<<"WARNING: store_to_cache: could not store file `"<< file <<"`" << std::endl;
         return false;
     }
-- 
2.43.0


From c8f9774acbde4d48834fdf9feeb2da5007cff039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:20 +0000
Subject: [PATCH 44/49] fix: util::next_bit found set bits behind the end of
 the vector

---
 include/sdsl/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index 8ce7881..9058c41 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -576,12 +576,12 @@ typename t_int_vec::size_type util::next_bit(const t_int_vec& v, uint64_t idx)
     uint64_t node = v.data()[pos];
     node >>= (idx&0x3F);
     if (node) {
-        return idx+bits::lo(node);
+        return std::min((uint64_t)v.bit_size(), idx+bits::lo(node)); // ignore the unused bits of the last word
     } else {
         ++pos;
         while ((pos<<6) < v.bit_size()) {
             if (v.data()[pos]) {
-                return (pos<<6)|bits::lo(v.data()[pos]);
+                return std::min((uint64_t)v.bit_size(), (pos<<6)|bits::lo(v.data()[pos]));
             }
             ++pos;
         }
-- 
2.43.0


From 8a7c1f7da1112b978cf0e942090f3e1a44946d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:20 +0000
Subject: [PATCH 45/49] fix: vlc_vector could not be built from the largest
 value of a 32-bit vector

---
 include/sdsl/vlc_vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/vlc_vector.hpp b/include/sdsl/vlc_vector.hpp
index ce0f938..5c12b50 100644
--- a/include/sdsl/vlc_vector.hpp
+++ b/include/sdsl/vlc_vector.hpp
@@ -196,10 +196,10 @@ vlc_vector<t_coder, t_dens, t_width>::vlc_vector(const Container& c)
     size_type samples = 0, z_size = 0;
 //  (1) Calculate size of z
     for (size_type i=0; i < c.size(); ++i) {
-        if (c[i]+1<1) {
+        if ((uint64_t)c[i]+1<1) {
             throw std::logic_error("vlc_vector cannot decode values smaller than 1!");
         }
-        z_size += t_coder::encoding_length(c[i]+1);
+        z_size += t_coder::encoding_length((uint64_t)c[i]+1);
     }
     samples = (c.size()+get_sample_dens()-1)/get_sample_dens();
 //    (2) Write z
@@ -215,8 +215,8 @@ vlc_vector<t_coder, t_dens, t_width>::vlc_vector(const Container& c)
             no_sample = get_sample_dens();
             m_sample_pointer[sample_cnt++] = z_size;
         }
-        t_coder::encode(c[i]+1, z_data, offset);
-        z_size += t_coder::encoding_length(c[i]+1);
+        t_coder::encode((uint64_t)c[i]+1, z_data, offset);
+        z_size += t_coder::encoding_length((uint64_t)c[i]+1);
     }
     m_size = c.size();
 }
-- 
2.43.0


From 2126a8318c072b41d178ee6712e094dc3105ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 46/49] fix: construct() ignored a failed allocation while an
 intermediate file was closed

---
 include/sdsl/int_vector_buffer.hpp | 1 +
 include/sdsl/io_guard.hpp          | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index cb8b3df..bda14e7 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -246,6 +246,7 @@ class int_vector_buffer
             try {
                 close();
             } catch (...) { // like std::filebuf: a destructor must not throw
+                io_guard::note_failure();
             }
         }
 
diff --git a/include/sdsl/io_guard.hpp b/include/sdsl/io_guard.hpp
index c8625d1..5fbf37a 100644
--- a/include/sdsl/io_guard.hpp
+++ b/include/sdsl/io_guard.hpp
@@ -45,6 +45,14 @@ class io_guard
         io_guard(const io_guard&) = delete;
         io_guard& operator=(const io_guard&) = delete;
 
+        //! Note a failure which can not be reported at once, as a destructor must not throw.
+        static void note_failure()
+        {
+            if (state() != OFF) {
+                state() = FAILED;
+            }
+        }
+
         //! Report the result of an operation on `file`.
         /*! Throws if a guard lives and this operation or an earlier one,
          *  which could not throw as it was part of a destruction, failed.
-- 
2.43.0


From a51a0a66127e0632f979b72f500a433f2e764f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:59 +0000
Subject: [PATCH 47/49] fix: a suffix array was used although divsufsort failed
 to allocate memory

---
 include/sdsl/construct_sa.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/construct_sa.hpp b/include/sdsl/construct_sa.hpp
index cacb862..b7ffcfb 100644
--- a/include/sdsl/construct_sa.hpp
+++ b/include/sdsl/construct_sa.hpp
@@ -88,7 +88,9 @@ void calculate_sa(const unsigned char* c, typename int_vector<fixedIntWidth>::si
         if (32 == fixedIntWidth or(0==fixedIntWidth and 32 >= oldIntWidth)) {
             sa.width(32);
             sa.resize(len);
-            divsufsort(c, (int32_t*)sa.data(), len);
+            if (divsufsort(c, (int32_t*)sa.data(), len) != 0) {
+                throw std::bad_alloc(); // divsufsort could not allocate its buckets
+            }
             // copy integers back to the right positions
             if (oldIntWidth!=32) {
                 for (size_type i=0; i<len; ++i) {
@@ -102,7 +104,9 @@ void calculate_sa(const unsigned char* c, typename int_vector<fixedIntWidth>::si
                 throw std::logic_error("width of int_vector is to small for the text!!!");
             }
             int_vector<> sufarray(len,0,32);
-            divsufsort(c, (int32_t*)sufarray.data(), len);
+            if (divsufsort(c, (int32_t*)sufarray.data(), len) != 0) {
+                throw std::bad_alloc(); // divsufsort could not allocate its buckets
+            }
             for (size_type i=0; i<len; ++i) {
                 sa[i] = sufarray[i];
             }
@@ -111,7 +115,9 @@ void calculate_sa(const unsigned char* c, typename int_vector<fixedIntWidth>::si
         uint8_t oldIntWidth = sa.width();
         sa.width(64);
         sa.resize(len);
-        divsufsort64(c, (int64_t*)sa.data(), len);
+        if (divsufsort64(c, (int64_t*)sa.data(), len) != 0) {
+            throw std::bad_alloc(); // divsufsort could not allocate its buckets
+        }
         // copy integers back to the right positions
         if (oldIntWidth!=64) {
             for (size_type i=0; i<len; ++i) {
-- 
2.43.0


From 8cf4c7b98946839be577da1beba8f7e9ccf9ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 48/49] fix: bwt.select() of csa_wt did not compile

---
 include/sdsl/suffix_array_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index 97c6bf5..8c20766 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -456,7 +456,7 @@ class bwt_of_csa_wt
          */
         size_type select(size_type i, const char_type c)const
         {
-            return m_csa.select(i, c);
+            return m_csa.select_bwt(i, c);
         }
 
 
-- 
2.43.0


From a7618589c45b64357caec6d9ab64172dc408079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 49/49] fix: forward_search read outside of the alphabet for
 char patterns with symbols above 127

---
 include/sdsl/suffix_array_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_algorithm.hpp b/include/sdsl/suffix_array_algorithm.hpp
index 02b4be4..3035388 100644
--- a/include/sdsl/suffix_array_algorithm.hpp
+++ b/include/sdsl/suffix_array_algorithm.hpp
@@ -73,7 +73,7 @@ forward_search(
     auto compare = [&](typename t_csa::size_type i) -> int {
         for (auto current = begin; current != end; current++)
         {
-            auto index = csa.char2comp[*current];
+            auto index = csa.char2comp[(typename t_csa::char_type)*current];
             if (index == 0) return -1;
             if (csa.C[index + 1] - 1 < i) return -1;
             if (csa.C[index] > i) return 1;
-- 
2.43.0

