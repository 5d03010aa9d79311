From 3eb1ffee52552a2393bb3160db1a1b7c0cd676d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 01/46] fix: CircularBufferRaw loses track of the data at the
 end of the memory block

A block ending at the end of the memory left the read pointer wrapped while
the write pointer was not (popping old data forever), an exact fit made a full
buffer look empty, the wrap marker could be written past the end of the memory,
and small blocks in the last bytes were skipped by the reader.
---
 gmlc/containers/CircularBuffer.hpp | 53 +++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 7b91658..af784df 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -29,7 +29,7 @@ namespace containers {
         int capacity() const { return capacity_; }
         bool isSpaceAvailable(int sz) const
         {
-            if (next_write >= next_read) {
+            if (!isWrapped()) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(sz) + 4) {
                     return true;
@@ -50,16 +50,17 @@ namespace containers {
             if (blockSize <= 0 || data == nullptr) {
                 return false;
             }
-            if (next_write >= next_read) {
+            if (!isWrapped()) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
                     memcpy(next_write, &blockSize, sizeof(int));
                     // *(reinterpret_cast<int *>(next_write)) = blockSize;
                     memcpy(next_write + 4, data, blockSize);
                     next_write += static_cast<ptrdiff_t>(blockSize) + 4;
-                    // loop around if there isn't really space for another block
-                    // of at least 4 bytes and the next_read>origin
-                    if (((capacity_ - (next_write - origin)) < 8) &&
+                    ++blockCount;
+                    // loop around if there isn't space for another block and
+                    // the next_read>origin
+                    if (((capacity_ - (next_write - origin)) < minBlockSize) &&
                         (next_read > origin)) {
                         next_write = origin;
                     }
@@ -67,11 +68,16 @@ namespace containers {
                 } else if (
                     (next_read - origin) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
-                    int loc = -1;
-                    memcpy(next_write, &loc, sizeof(int));
+                    // mark the unused tail, a tail too small for a block is
+                    // skipped by the reader without a marker
+                    if ((capacity_ - (next_write - origin)) >= minBlockSize) {
+                        int loc = -1;
+                        memcpy(next_write, &loc, sizeof(int));
+                    }
                     memcpy(origin, &blockSize, sizeof(int));
                     memcpy(origin + 4, data, blockSize);
                     next_write = origin + blockSize + 4;
+                    ++blockCount;
                     return true;
                 }
             } else if (
@@ -80,13 +86,14 @@ namespace containers {
                 memcpy(next_write, &blockSize, sizeof(int));
                 memcpy(next_write + 4, data, blockSize);
                 next_write += static_cast<ptrdiff_t>(blockSize) + 4;
+                ++blockCount;
                 return true;
             }
             return false;
         }
         int nextDataSize() const
         {
-            if (next_write == next_read) {
+            if (blockCount == 0) {
                 return 0;
             }
             int size;
@@ -100,7 +107,7 @@ namespace containers {
         /// insuffient space available
         int pop(unsigned char* data, int maxSize)
         {
-            if (next_write == next_read) {
+            if (blockCount == 0) {
                 return 0;
             }
             int size;
@@ -112,7 +119,10 @@ namespace containers {
             if (size <= maxSize) {
                 memcpy(data, next_read + sizeof(int), size);
                 next_read += static_cast<size_t>(size) + sizeof(int);
-                if ((capacity_ - (next_read - origin)) < 8) {
+                if (--blockCount == 0) {
+                    // nothing left, start over with the whole buffer available
+                    next_read = next_write = origin;
+                } else if ((capacity_ - (next_read - origin)) < minBlockSize) {
                     next_read = origin;
                 }
                 return size;
@@ -120,15 +130,32 @@ namespace containers {
             return -size;
         }
         /** check if the block is Empty or not*/
-        bool empty() const { return (next_write == next_read); }
+        bool empty() const { return (blockCount == 0); }
         /** clear the buffer*/
-        void clear() { next_write = next_read = origin; }
+        void clear()
+        {
+            next_write = next_read = origin;
+            blockCount = 0;
+        }
+
+      private:
+        /** check if the stored data wraps around the end of the memory, if the
+         * pointers are equal the buffer is either empty or completely full*/
+        bool isWrapped() const
+        {
+            return (next_write < next_read) ||
+                (next_write == next_read && blockCount > 0);
+        }
 
       private:
+        /// the size of the smallest block that can be stored, including the
+        /// size header
+        static constexpr std::ptrdiff_t minBlockSize{5};
         unsigned char* origin;
         unsigned char* next_write;
         unsigned char* next_read;
         int capacity_{0};
+        int blockCount{0};  //!< the number of blocks currently stored
 
       private:
         friend class CircularBuffer;
@@ -160,6 +187,7 @@ namespace containers {
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
+            cb.buffer.blockCount = 0;
         }
         CircularBuffer(const CircularBuffer& cb) :
             data{new unsigned char[cb.actualSize]}, actualSize{cb.actualSize},
@@ -194,6 +222,7 @@ namespace containers {
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
+            cb.buffer.blockCount = 0;
             cb.data = nullptr;
             cb.actualSize = 0;
             cb.actualCapacity = 0;
-- 
2.43.0


From d781c2b6d45afbb3a8b82dfe6b19651ab2fc3870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 02/46] fix: CircularBuffer copied from a buffer without memory
 kept a dangling pointer

The copy of a default constructed buffer kept a pointer to memory it had just
released (double free on a later move assignment), and a buffer of size 0 leaked
its memory.
---
 gmlc/containers/CircularBuffer.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index af784df..106e4a8 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -170,12 +170,7 @@ namespace containers {
             actualCapacity{size}, buffer(data, size)
         {
         }
-        ~CircularBuffer()
-        {
-            if (actualCapacity > 0) {
-                delete[] data;
-            }
-        }
+        ~CircularBuffer() { delete[] data; }
         CircularBuffer(CircularBuffer&& cb) noexcept :
             data{cb.data}, actualSize(cb.actualSize),
             actualCapacity(cb.actualCapacity), buffer(std::move(cb.buffer))
@@ -202,8 +197,10 @@ namespace containers {
                 buffer.next_write = buffer.origin + write_offset;
             } else {
                 delete[] data;
+                data = nullptr;
                 actualSize = 0;
                 actualCapacity = 0;
+                buffer = CircularBufferRaw(nullptr, 0);
             }
         }
 
@@ -344,13 +341,10 @@ namespace containers {
         {
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, actualSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, actualSize);
                 }
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
-- 
2.43.0


From 1ef3e66b40a3fb8f0d49df6555ac0bda733c6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:20 +0000
Subject: [PATCH 03/46] fix: StackBuffer::resize moved the next write position
 to the end of the memory

The blocks pushed after a resize of a non empty stack were rejected for lack of
space or overwrote the index.
---
 gmlc/containers/StackBuffer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 7659a00..80d452d 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -229,6 +229,7 @@ blocks of raw data
                 resizeMemory(newsize);
                 int indexOffset = stack.dataSize - diSize * stack.dataCount;
                 int newOffset = newsize - diSize * stack.dataCount;
+                auto dataOffset = stack.next - stack.origin;
                 memmove(
                     data + newOffset,
                     data + indexOffset,
@@ -236,7 +237,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
@@ -257,7 +258,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
-- 
2.43.0


From 221c56ca917fcd4b163654a2ad14961e2662be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 04/46] fix: StackBuffer move assignment left the capacity of
 the released memory in the source

---
 gmlc/containers/StackBuffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 80d452d..b919ab4 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -192,6 +192,7 @@ blocks of raw data
             stack = std::move(sq.stack);
             sq.data = nullptr;
             sq.statedSize = 0;
+            sq.actualCapacity = 0;
             sq.stack.dataSize = 0;
             sq.stack.origin = nullptr;
             sq.stack.next = nullptr;
-- 
2.43.0


From aaa67196183818f499781b73bd7fcba1ae2e86d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 05/46] fix: a moved from StableBlockVector was not usable

---
 gmlc/containers/StableBlockVector.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index c7b3bd7..ad70ff0 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -100,8 +100,9 @@ no erase or insert
             sbv.freeSlotsAvailable = 0;
             sbv.dataSlotsAvailable = 0;
             sbv.dataptr = nullptr;
-            sbv.bsize = 0;
-            sbv.dataSlotIndex = -1;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
+            sbv.freeIndex = 0;
             sbv.csize = 0;
         }
 
@@ -126,6 +127,10 @@ no erase or insert
             sbv.freeSlotsAvailable = 0;
             sbv.dataSlotsAvailable = 0;
             sbv.dataptr = nullptr;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
+            sbv.freeIndex = 0;
+            sbv.csize = 0;
 
             return *this;
         }
-- 
2.43.0


From 7826d50bca8e849d91491de23caaab51ede42596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 06/46] fix: copying an empty StableBlockVector destroyed
 memory before its first block

The copy left elements behind if an element copy threw as well.
---
 gmlc/containers/StableBlockVector.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index ad70ff0..07f3cb4 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -79,14 +79,9 @@ no erase or insert
             }
         }
 
-        StableBlockVector(const StableBlockVector& sbv)
+        StableBlockVector(const StableBlockVector& sbv) : StableBlockVector()
         {
-            if (sbv.dataptr != nullptr) {
-                dataptr = new X*[sbv.dataSlotsAvailable];
-                dataSlotsAvailable = sbv.dataSlotsAvailable;
-                dataSlotIndex = -1;
-                assign(sbv.begin(), sbv.end());
-            }
+            assign(sbv.begin(), sbv.end());
         }
 
         StableBlockVector(StableBlockVector&& sbv) noexcept :
-- 
2.43.0


From bb47fcd129cf1265a79079c4e14bfc58df950fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 07/46] fix: StableBlockVector end iterator read past the slot
 array

---
 gmlc/containers/StableBlockVector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 07f3cb4..068a770 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -53,7 +53,7 @@ no erase or insert
             const X& init =
                 X{}) noexcept(std::is_nothrow_copy_constructible<X>::value) :
             csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 1, size_t{64})]),
+            dataptr(new X*[std::max((startSize >> N) + 1, size_t{64}) + 1]{}),
             dataSlotsAvailable(
                 std::max(static_cast<int>(startSize >> N) + 1, 64)),
             dataSlotIndex(static_cast<int>(startSize >> N)),
@@ -379,12 +379,13 @@ no erase or insert
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
+                    dataptr = new X*[64 + 1]{};
                     dataSlotsAvailable = 64;
                     dataSlotIndex = -1;
                 } else if (dataSlotIndex >= dataSlotsAvailable - 1) {
                     auto mem =
-                        new X*[static_cast<size_t>(dataSlotsAvailable) * 2];
+                        new X*[static_cast<size_t>(dataSlotsAvailable) * 2 +
+                               1]{};
                     std::copy(dataptr, dataptr + dataSlotsAvailable, mem);
                     delete[] dataptr;
                     dataptr = mem;
@@ -424,6 +425,8 @@ no erase or insert
 
       private:
         size_t csize{0};  // 8
+        /// the memory always holds one slot more than dataSlotsAvailable since
+        /// the end iterator can refer to the slot after the last block
         X** dataptr{nullptr};  // 16
         int dataSlotsAvailable{0};  // 20
         int dataSlotIndex{0};  // 24
-- 
2.43.0


From 22dd0305bd63183cd619fd11751626b89db9c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:18 +0000
Subject: [PATCH 08/46] fix: StableBlockVector counted an element whose
 constructor threw

---
 gmlc/containers/StableBlockVector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 068a770..0a334dc 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -136,8 +136,9 @@ no erase or insert
         void emplace_back(Args&&... args)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++]))
+            new (&(dataptr[dataSlotIndex][bsize]))
                 X(std::forward<Args>(args)...);
+            ++bsize;
             ++csize;
         }
 
@@ -145,14 +146,16 @@ no erase or insert
             std::is_nothrow_copy_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++])) X{val};
+            new (&(dataptr[dataSlotIndex][bsize])) X{val};
+            ++bsize;
             ++csize;
         }
         void push_back(X&& val) noexcept(
             std::is_nothrow_move_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++])) X{std::move(val)};
+            new (&(dataptr[dataSlotIndex][bsize])) X{std::move(val)};
+            ++bsize;
             ++csize;
         }
 
-- 
2.43.0


From 60a88a503b07a6fa5a346a444a2ca4773fbdb412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:29 +0000
Subject: [PATCH 09/46] fix: StableBlockVector sized constructor leaked when an
 element copy threw

---
 gmlc/containers/StableBlockVector.hpp | 31 ++++++++-------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 0a334dc..a1c2d17 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -52,30 +52,17 @@ no erase or insert
             size_t startSize,
             const X& init =
                 X{}) noexcept(std::is_nothrow_copy_constructible<X>::value) :
-            csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 1, size_t{64}) + 1]{}),
-            dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 1, 64)),
-            dataSlotIndex(static_cast<int>(startSize >> N)),
-            bsize(static_cast<int>(startSize & cntmask))
+            StableBlockVector()
         {
             Allocator a;
-            if (startSize == 0) {
-                dataptr[0] = a.allocate(blockSize);
-            } else {
-                for (int ii = 0; ii <= dataSlotIndex; ++ii) {
-                    dataptr[ii] = a.allocate(blockSize);
-                    if (ii < dataSlotIndex) {
-                        for (int jj = 0; jj < static_cast<int>(blockSize);
-                             ++jj) {
-                            new (&dataptr[ii][jj]) X{init};
-                        }
-                    } else {
-                        for (int jj = 0; jj < bsize; ++jj) {
-                            new (&dataptr[ii][jj]) X{init};
-                        }
-                    }
-                }
+            dataSlotsAvailable =
+                std::max(static_cast<int>(startSize >> N) + 1, 64);
+            dataptr =
+                new X*[static_cast<size_t>(dataSlotsAvailable) + 1]{};
+            bsize = 0;
+            dataptr[0] = a.allocate(blockSize);
+            while (csize < startSize) {
+                push_back(init);
             }
         }
 
-- 
2.43.0


From ddb52648610ec52910ff7b1653f6361a36e8de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 10/46] fix: an empty StableBlockDeque from the sized or copy
 constructor was off by one

---
 gmlc/containers/StableBlockDeque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 7414757..2e33488 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -58,7 +58,8 @@ and deallocate methods)*/
             if (startSize == 0) {
                 dataSlotFront = dataSlotBack = 30;
                 dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
+                fsize = blockSize / 2;
+                bsize = fsize + 1;
             } else {
                 int blocks = static_cast<int>((startSize >> N));
                 if (blocks > 0) {
@@ -127,7 +128,8 @@ and deallocate methods)*/
                 Allocator a;
                 dataSlotFront = dataSlotBack = 30;
                 dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
+                fsize = blockSize / 2;
+                bsize = fsize + 1;
             }
         }
         StableBlockDeque(StableBlockDeque&& sbd) noexcept :
-- 
2.43.0


From d8b59ce0942190d266284e92bd0554cde6f70be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 11/46] fix: StableBlockDeque clear destroyed elements that
 were never constructed

---
 gmlc/containers/StableBlockDeque.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 2e33488..f3b81e5 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -323,7 +323,9 @@ and deallocate methods)*/
             if (dataSlotsAvailable == 0 || csize == 0) {
                 return;
             }
-            for (int jj = bsize - 1; jj >= 0;
+            // with a single block the elements start after fsize
+            const int first = (dataSlotFront == dataSlotBack) ? fsize + 1 : 0;
+            for (int jj = bsize - 1; jj >= first;
                  --jj) {  // call destructors on the last block
                 dataptr[dataSlotBack][jj].~X();
             }
-- 
2.43.0


From 7fbcd9121c9a64034a574fe24a1dda6bde191560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:00 +0000
Subject: [PATCH 12/46] fix: StableBlockDeque push_front before the block with
 a block size of 1

---
 gmlc/containers/StableBlockDeque.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index f3b81e5..c5a67ad 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -518,7 +518,7 @@ and deallocate methods)*/
                     dataptr = new X*[64];
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
-                    fsize = blockSize / 2 - 1;
+                    fsize = blockSize / 2;
                     bsize = fsize + 1;
                     dataptr[dataSlotBack] = getNewBlock();
                     return;
-- 
2.43.0


From 86386e1a5f48a5b773088ebf57a717511a4a185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:09 +0000
Subject: [PATCH 13/46] fix: a moved from StableBlockDeque was not usable

---
 gmlc/containers/StableBlockDeque.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index c5a67ad..8157605 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -144,7 +144,11 @@ and deallocate methods)*/
             sbd.freeSlotsAvailable = 0;
             sbd.dataSlotsAvailable = 0;
             sbd.dataptr = nullptr;
+            sbd.dataSlotBack = 0;
+            sbd.dataSlotFront = 0;
+            sbd.bsize = blockSize;
             sbd.fsize = -1;
+            sbd.freeIndex = 0;
             sbd.csize = 0;
         }
 
@@ -171,7 +175,11 @@ and deallocate methods)*/
             sbd.freeSlotsAvailable = 0;
             sbd.dataSlotsAvailable = 0;
             sbd.dataptr = nullptr;
+            sbd.dataSlotBack = 0;
+            sbd.dataSlotFront = 0;
+            sbd.bsize = blockSize;
             sbd.fsize = -1;
+            sbd.freeIndex = 0;
             sbd.csize = 0;
             return *this;
         }
-- 
2.43.0


From 1ad5b98e247676c6665c6be3b9a9c50c0a05fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:20 +0000
Subject: [PATCH 14/46] fix: StableBlockDeque end iterator read past the slot
 array

---
 gmlc/containers/StableBlockDeque.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 8157605..a5d51fd 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -50,7 +50,7 @@ and deallocate methods)*/
         /** construct with a specified size*/
         StableBlockDeque(size_t startSize, const X& init = X{}) :
             csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64})]),
+            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64}) + 1]{}),
             dataSlotsAvailable(
                 std::max(static_cast<int>(startSize >> N) + 2, 64))
         {
@@ -113,8 +113,9 @@ and deallocate methods)*/
 
         StableBlockDeque(const StableBlockDeque& sbd) :
             dataptr(new X*[std::max(
-                static_cast<size_t>(sbd.dataSlotsAvailable),
-                size_t{64})]),
+                               static_cast<size_t>(sbd.dataSlotsAvailable),
+                               size_t{64}) +
+                           1]{}),
             dataSlotsAvailable(std::max(sbd.dataSlotsAvailable, 64))
         {
             if (sbd.dataptr != nullptr) {
@@ -488,7 +489,7 @@ and deallocate methods)*/
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
+                    dataptr = new X*[64 + 1]{};
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
                     fsize = blockSize / 2 - 1;
@@ -507,7 +508,8 @@ and deallocate methods)*/
                         dataSlotBack = dataSlotFront + diff;
                     } else {
                         auto mem =
-                            new X*[static_cast<size_t>(dataSlotsAvailable) * 2];
+                            new X*[static_cast<size_t>(dataSlotsAvailable) * 2 +
+                                   1]{};
                         std::copy(dataptr, dataptr + dataSlotsAvailable, mem);
                         delete[] dataptr;
                         dataptr = mem;
@@ -523,7 +525,7 @@ and deallocate methods)*/
         {
             if (fsize < 0) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
+                    dataptr = new X*[64 + 1]{};
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
                     fsize = blockSize / 2;
@@ -543,7 +545,9 @@ and deallocate methods)*/
                         dataSlotFront = (dataSlotsAvailable - dataSlotBack) / 2;
                     } else {
                         auto mem =
-                            new X*[static_cast<std::size_t>(dataSlotsAvailable) * 2];
+                            new X*[static_cast<std::size_t>(dataSlotsAvailable) *
+                                       2 +
+                                   1]{};
                         std::copy(
                             dataptr,
                             dataptr + dataSlotBack + 1,
@@ -628,6 +632,8 @@ and deallocate methods)*/
 
       private:
         size_t csize{0};  // 8
+        /// the memory always holds one slot more than dataSlotsAvailable since
+        /// the end iterator can refer to the slot after the last block
         X** dataptr{nullptr};  // 16
         int dataSlotsAvailable{0};  // 20
         int dataSlotBack{0};  // 24
-- 
2.43.0


From 67c2f36c76e830e6b982455eb4f2441dd3e88ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 15/46] fix: StableBlockDeque counted an element whose
 constructor threw

---
 gmlc/containers/StableBlockDeque.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index a5d51fd..4545ce3 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -191,21 +191,24 @@ and deallocate methods)*/
         void emplace_back(Args&&... args)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++]))
+            new (&(dataptr[dataSlotBack][bsize]))
                 X(std::forward<Args>(args)...);
+            ++bsize;
             ++csize;
         }
 
         void push_back(const X& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++])) X{val};
+            new (&(dataptr[dataSlotBack][bsize])) X{val};
+            ++bsize;
             ++csize;
         }
         void push_back(X&& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++])) X{std::move(val)};
+            new (&(dataptr[dataSlotBack][bsize])) X{std::move(val)};
+            ++bsize;
             ++csize;
         }
 
@@ -228,21 +231,24 @@ and deallocate methods)*/
         void emplace_front(Args&&... args)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--]))
+            new (&(dataptr[dataSlotFront][fsize]))
                 X(std::forward<Args>(args)...);
+            --fsize;
             ++csize;
         }
 
         void push_front(const X& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--])) X{val};
+            new (&(dataptr[dataSlotFront][fsize])) X{val};
+            --fsize;
             ++csize;
         }
         void push_front(X&& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--])) X{std::move(val)};
+            new (&(dataptr[dataSlotFront][fsize])) X{std::move(val)};
+            --fsize;
             ++csize;
         }
 
-- 
2.43.0


From 4fd208950b05d2c813b262aaff6a962ce747b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 16/46] fix: StableBlockDeque constructors leaked when an
 element copy threw

---
 gmlc/containers/StableBlockDeque.hpp | 58 +++++++---------------------
 1 file changed, 13 insertions(+), 45 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 4545ce3..9077f65 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -49,11 +49,12 @@ and deallocate methods)*/
 
         /** construct with a specified size*/
         StableBlockDeque(size_t startSize, const X& init = X{}) :
-            csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64}) + 1]{}),
-            dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 2, 64))
+            StableBlockDeque()
         {
+            dataSlotsAvailable =
+                std::max(static_cast<int>(startSize >> N) + 2, 64);
+            dataptr =
+                new X*[static_cast<size_t>(dataSlotsAvailable) + 1]{};
             Allocator a;
             if (startSize == 0) {
                 dataSlotFront = dataSlotBack = 30;
@@ -85,53 +86,20 @@ and deallocate methods)*/
                     bsize = static_cast<int>(med - (med / 2));
                 }
 
+                // fill the blocks from the front one, the destructor cleans up
+                // if one of the element constructors throws
+                dataSlotBack = dataSlotFront;
+                bsize = fsize + 1;
                 dataptr[dataSlotFront] = a.allocate(blockSize);
-                if (dataSlotBack > dataSlotFront) {
-                    for (int jj = fsize + 1; jj < static_cast<int>(blockSize);
-                         ++jj) {
-                        new (&dataptr[dataSlotFront][jj]) X{init};
-                    }
-                } else {
-                    for (int jj = fsize + 1; jj < bsize; ++jj) {
-                        new (&dataptr[dataSlotFront][jj]) X{init};
-                    }
-                }
-                for (int ii = dataSlotFront + 1; ii <= dataSlotBack - 1; ++ii) {
-                    dataptr[ii] = a.allocate(blockSize);
-                    for (int jj = 0; jj < static_cast<int>(blockSize); ++jj) {
-                        new (&dataptr[ii][jj]) X{init};
-                    }
-                }
-                if (dataSlotBack > dataSlotFront) {
-                    dataptr[dataSlotBack] = a.allocate(blockSize);
-                    for (int jj = 0; jj < bsize; ++jj) {
-                        new (&dataptr[dataSlotBack][jj]) X{init};
-                    }
+                while (csize < startSize) {
+                    push_back(init);
                 }
             }
         }
 
-        StableBlockDeque(const StableBlockDeque& sbd) :
-            dataptr(new X*[std::max(
-                               static_cast<size_t>(sbd.dataSlotsAvailable),
-                               size_t{64}) +
-                           1]{}),
-            dataSlotsAvailable(std::max(sbd.dataSlotsAvailable, 64))
+        StableBlockDeque(const StableBlockDeque& sbd) : StableBlockDeque()
         {
-            if (sbd.dataptr != nullptr) {
-                dataSlotFront = sbd.dataSlotFront;
-                dataSlotBack = dataSlotFront;
-                fsize = sbd.fsize;
-                bsize = sbd.fsize + 1;
-                dataptr[dataSlotFront] = getNewBlock();
-                assign(sbd.begin(), sbd.end());
-            } else {
-                Allocator a;
-                dataSlotFront = dataSlotBack = 30;
-                dataptr[30] = a.allocate(blockSize);
-                fsize = blockSize / 2;
-                bsize = fsize + 1;
-            }
+            assign(sbd.begin(), sbd.end());
         }
         StableBlockDeque(StableBlockDeque&& sbd) noexcept :
             csize(sbd.csize), dataptr(sbd.dataptr),
-- 
2.43.0


From 3543f5afe69bbff413bbc589e5eb6cbeaea54fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 17/46] fix: BlockIterator moved by a negative amount did not
 change blocks

---
 gmlc/containers/BlockIterator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gmlc/containers/BlockIterator.hpp b/gmlc/containers/BlockIterator.hpp
index f848f92..2e0edab 100644
--- a/gmlc/containers/BlockIterator.hpp
+++ b/gmlc/containers/BlockIterator.hpp
@@ -76,6 +76,7 @@ namespace containers {
             ptr += movement;
             offset += static_cast<int>(movement);
             check();
+            checkNeg();
             return (*this);
         }
         BlockIterator& operator++()
@@ -102,6 +103,7 @@ namespace containers {
             ptr -= movement;
             offset -= static_cast<int>(movement);
             checkNeg();
+            check();
             return (*this);
         }
         BlockIterator& operator--()
-- 
2.43.0


From 685cfec97413e695c41af565eb8f44bda59ed305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 18/46] fix: mapped vectors kept search terms of removed
 elements or dropped unrelated ones

Only one of the search terms of the element was removed, the others referred to
a different or no element afterwards, and an element without a search term
removed the element name equal to a default constructed search value.
---
 gmlc/containers/MappedPointerVector.hpp | 29 ++++++++++---------------
 gmlc/containers/MappedVector.hpp        | 29 +++++++++----------------
 gmlc/containers/StringMappedVector.hpp  | 29 +++++++++----------------
 3 files changed, 31 insertions(+), 56 deletions(-)

diff --git a/gmlc/containers/MappedPointerVector.hpp b/gmlc/containers/MappedPointerVector.hpp
index d2ee9fc..d29f102 100644
--- a/gmlc/containers/MappedPointerVector.hpp
+++ b/gmlc/containers/MappedPointerVector.hpp
@@ -137,19 +137,19 @@ class MappedPointerVector {
             return;
         }
         dataStorage.erase(dataStorage.begin() + index);
-        searchType ind;
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            } else if (el2.second == index) {
-                ind = el2.first;
+        // remove all the search terms of the element
+        for (auto el2 = lookup.begin(); el2 != lookup.end();) {
+            if (el2->second == index) {
+                el2 = lookup.erase(el2);
+                continue;
             }
-        }
-        auto fnd = lookup.find(ind);
-        if (fnd != lookup.end()) {
-            lookup.erase(fnd);
+            if (el2->second > index) {
+                el2->second -= 1;
+            }
+            ++el2;
         }
     }
+
     /** remove an element based on the lookup index*/
     void remove(const searchType& search)
     {
@@ -157,14 +157,7 @@ class MappedPointerVector {
         if (el == lookup.end()) {
             return;
         }
-        auto index = el->second;
-        dataStorage.erase(dataStorage.begin() + index);
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            }
-        }
-        lookup.erase(el);
+        removeIndex(el->second);
     }
 
     /** apply a function to all the values
diff --git a/gmlc/containers/MappedVector.hpp b/gmlc/containers/MappedVector.hpp
index 0266b70..e5d63ff 100644
--- a/gmlc/containers/MappedVector.hpp
+++ b/gmlc/containers/MappedVector.hpp
@@ -135,17 +135,16 @@ limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            searchType ind;
-            for (auto& el2 : lookup) {
-                if (erased && el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind = el2.first;
+            // remove all the search terms of the element
+            for (auto el2 = lookup.begin(); el2 != lookup.end();) {
+                if (el2->second == index) {
+                    el2 = lookup.erase(el2);
+                    continue;
                 }
-            }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
+                if (erased && el2->second > index) {
+                    el2->second -= 1;
+                }
+                ++el2;
             }
         }
 
@@ -155,15 +154,7 @@ limited to no removal since removal is a rather expensive operation
             if (el == lookup.end()) {
                 return;
             }
-            auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 2fce174..0381e01 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -124,17 +124,16 @@ with limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            std::string_view ind;
-            for (auto& el2 : lookup) {
-                if (erased && el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind = el2.first;
+            // remove all the search terms of the element
+            for (auto el2 = lookup.begin(); el2 != lookup.end();) {
+                if (el2->second == index) {
+                    el2 = lookup.erase(el2);
+                    continue;
                 }
-            }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
+                if (erased && el2->second > index) {
+                    el2->second -= 1;
+                }
+                ++el2;
             }
         }
 
@@ -144,15 +143,7 @@ with limited to no removal since removal is a rather expensive operation
             if (el == lookup.end()) {
                 return;
             }
-            auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
-- 
2.43.0


From 4f007d95e5412526cc48596c4e13d949d36bdd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 19/46] fix: DualMappedPointerVector kept search terms of
 removed elements or dropped unrelated ones

---
 gmlc/containers/DualMappedPointerVector.hpp | 79 +++++----------------
 1 file changed, 19 insertions(+), 60 deletions(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 5f47c19..8b5639d 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -251,29 +251,26 @@ namespace containers {
                 return;
             }
             dataStorage.erase(dataStorage.begin() + index);
-            searchType1 ind1;
-            searchType2 ind2;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1 = el2.first;
+            // remove all the search terms of the element
+            for (auto el2 = lookup1.begin(); el2 != lookup1.end();) {
+                if (el2->second == index) {
+                    el2 = lookup1.erase(el2);
+                    continue;
                 }
-            }
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2 = el2.first;
+                if (el2->second > index) {
+                    el2->second -= 1;
                 }
+                ++el2;
             }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
-            }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
+            for (auto el2 = lookup2.begin(); el2 != lookup2.end();) {
+                if (el2->second == index) {
+                    el2 = lookup2.erase(el2);
+                    continue;
+                }
+                if (el2->second > index) {
+                    el2->second -= 1;
+                }
+                ++el2;
             }
         }
 
@@ -283,26 +280,7 @@ namespace containers {
             if (el == lookup1.end()) {
                 return;
             }
-            auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup1.erase(el);
-            searchType2 ind2;
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2 = el2.first;
-                }
-            }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
-            }
+            removeIndex(el->second);
         }
 
         void remove(const searchType2& search)
@@ -311,26 +289,7 @@ namespace containers {
             if (el == lookup2.end()) {
                 return;
             }
-            auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup2.erase(el);
-            searchType1 ind1;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1 = el2.first;
-                }
-            }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
-            }
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
-- 
2.43.0


From a2c8f0d7ee9f0cdaa565e0dd798f99ea2dbb73e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:18 +0000
Subject: [PATCH 20/46] fix: DualMappedPointerVector::at did not compile

---
 gmlc/containers/DualMappedPointerVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 8b5639d..71acf26 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -239,7 +239,7 @@ namespace containers {
                                                   nullptr;
         }
 
-        VType* at(size_t index) const { return dataStorage.at(index); }
+        VType* at(size_t index) const { return dataStorage.at(index).get(); }
 
         /** get a pointer to the last element inserted*/
         VType* back() { return dataStorage.back().get(); }
-- 
2.43.0


From 85707cc5e43d99a2502509ea76d0b989755851f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 21/46] fix: copies of the string mapped vectors referred to
 the names of the source

---
 gmlc/containers/DualStringMappedVector.hpp | 19 +++++++++++++++++++
 gmlc/containers/StringMappedVector.hpp     | 19 +++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index 1664a3d..b5e5ee4 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -34,6 +34,25 @@ or by numerical index
         int BLOCK_ORDER = 5>
     class DualStringMappedVector {
       public:
+        DualStringMappedVector() = default;
+        /** copy constructor, the lookup refers to the names stored in the
+         * object so it needs to be regenerated*/
+        DualStringMappedVector(const DualStringMappedVector& other) :
+            dataStorage(other.dataStorage), lookup2(other.lookup2)
+        {
+            for (const auto& el : other.lookup1) {
+                names.emplace_back(el.first);
+                lookup1.emplace(names.back(), el.second);
+            }
+        }
+        DualStringMappedVector(DualStringMappedVector&& other) noexcept = default;
+        DualStringMappedVector& operator=(const DualStringMappedVector& other)
+        {
+            return *this = DualStringMappedVector(other);
+        }
+        DualStringMappedVector& operator=(DualStringMappedVector&& other) = default;
+        ~DualStringMappedVector() = default;
+
         static_assert(
             !std::is_same<std::string, searchType2>::value,
             "searchType1 and searchType2 cannot be the same type");
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 0381e01..7b34378 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -30,6 +30,25 @@ with limited to no removal since removal is a rather expensive operation
         int BLOCK_ORDER = 5>
     class StringMappedVector {
       public:
+        StringMappedVector() = default;
+        /** copy constructor, the lookup refers to the names stored in the
+         * object so it needs to be regenerated*/
+        StringMappedVector(const StringMappedVector& other) :
+            dataStorage(other.dataStorage)
+        {
+            for (const auto& el : other.lookup) {
+                names.emplace_back(el.first);
+                lookup.emplace(names.back(), el.second);
+            }
+        }
+        StringMappedVector(StringMappedVector&& other) noexcept = default;
+        StringMappedVector& operator=(const StringMappedVector& other)
+        {
+            return *this = StringMappedVector(other);
+        }
+        StringMappedVector& operator=(StringMappedVector&& other) = default;
+        ~StringMappedVector() = default;
+
         /** insert an element into the mapped vector
     @param searchValue the unique name to use for the value if it exists the
     existing value is replaced
-- 
2.43.0


From d3a1c690b9616c3fd1ce206981f6bbe7420579f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 22/46] fix: removal from the string mapped vectors with
 unstable storage did not compile

---
 gmlc/containers/DualStringMappedVector.hpp | 5 +++++
 gmlc/containers/StringMappedVector.hpp     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index b5e5ee4..31ccc3e 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -431,6 +431,11 @@ or by numerical index
         }
 
       private:
+        bool localErase(std::vector<VType>& vect, size_t index)
+        {
+            vect.erase(vect.begin() + index);
+            return true;
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 7b34378..89f7745 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -211,6 +211,11 @@ with limited to no removal since removal is a rather expensive operation
         }
 
       private:
+        bool localErase(std::vector<VType>& vect, size_t index)
+        {
+            vect.erase(vect.begin() + index);
+            return true;
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
-- 
2.43.0


From b87ba6d1bdc7eb59271c2b7bab3579d501b1cc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:55 +0000
Subject: [PATCH 23/46] fix: BlockingQueue pop that did not find its element at
 once lost later wakeups

---
 gmlc/containers/BlockingQueue.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 339c5f2..a6e5ae8 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -118,26 +118,26 @@ contention the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-                bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag) {
                     // release the push lock so we don't get a potential
-                    // deadlock condition
+                    // deadlock condition, the flag stays set until the element
+                    // is actually in the queue
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.push_back(std::forward<Z>(val));
                     } else {
                         pushLock.lock();
                         pushElements.push_back(std::forward<Z>(val));
                     }
+                    queueEmptyFlag = false;
                     // pullLock.unlock ();
                     condition.notify_all();
                     return;
                 } else {
                     pushElements.push_back(std::forward<Z>(val));
-                    expEmpty = true;
+                    bool expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
                         condition.notify_all();
@@ -155,27 +155,27 @@ contention the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-                bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag) {
                     // release the push lock so we don't get a potential
-                    // deadlock condition
+                    // deadlock condition, the flag stays set until the element
+                    // is actually in the queue
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.emplace_back(std::forward<Args>(args)...);
                     } else {
                         pushLock.lock();
                         pushElements.emplace_back(std::forward<Args>(args)...);
                     }
+                    queueEmptyFlag = false;
 
                     // pullLock.unlock ();
                     condition.notify_all();
                     return;
                 } else {
                     pushElements.emplace_back(std::forward<Args>(args)...);
-                    expEmpty = true;
+                    bool expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
                         condition.notify_all();
@@ -220,6 +220,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
@@ -227,6 +228,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -248,6 +250,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -255,6 +258,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -287,6 +291,7 @@ contention the two locks will reduce contention in most cases.
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -294,6 +299,7 @@ contention the two locks will reduce contention in most cases.
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
-- 
2.43.0


From c3a84f70c778654787d613000666a3894cd0bb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:14 +0000
Subject: [PATCH 24/46] fix: a moved from queue reported that it was not empty

---
 gmlc/containers/BlockingPriorityQueue.hpp | 2 ++
 gmlc/containers/BlockingQueue.hpp         | 2 ++
 gmlc/containers/SimpleQueue.hpp           | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index d025373..6c0d819 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -78,6 +78,7 @@ the two locks will reduce contention in most cases.
             priorityQueue(std::move(bq.priorityQueue))
         {
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            bq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -89,6 +90,7 @@ the two locks will reduce contention in most cases.
             pullElements = std::move(sq.pullElements);
             priorityQueue = std::move(sq.priorityQueue);
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index a6e5ae8..79e2e72 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -71,6 +71,7 @@ contention the two locks will reduce contention in most cases.
             pullElements(std::move(bq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            bq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -81,6 +82,7 @@ contention the two locks will reduce contention in most cases.
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index 67a9467..d9e2aff 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -64,6 +64,7 @@ atomic flag indicating the queue is empty
             pullElements(std::move(sq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -74,6 +75,7 @@ atomic flag indicating the queue is empty
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
-- 
2.43.0


From 01f987ce6add8006881003eaab6a6236c67fa631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:32 +0000
Subject: [PATCH 25/46] fix: pushing an empty vector marked an empty
 SimpleQueue as not empty

---
 gmlc/containers/SimpleQueue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index d9e2aff..b67ae03 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -145,6 +145,9 @@ atomic flag indicating the queue is empty
         */
         void pushVector(const std::vector<X>& val)  // universal reference
         {
+            if (val.empty()) {
+                return;
+            }
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-- 
2.43.0


From c3d5e100a7b1370e2f7185fac3ed12b4b5467c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:46 +0000
Subject: [PATCH 26/46] fix: BlockingPriorityQueue lost wakeups and stayed
 marked not empty after priority elements were taken

---
 gmlc/containers/BlockingPriorityQueue.hpp | 64 ++++++++++-------------
 1 file changed, 28 insertions(+), 36 deletions(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 6c0d819..8133225 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -119,14 +119,13 @@ the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-                bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag) {
                     // release the push lock so we don't get a potential
-                    // deadlock condition
+                    // deadlock condition, the flag stays set until the element
+                    // is actually in the queue
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.push_back(std::forward<Z>(val));
                         // pullLock.unlock ();
@@ -134,11 +133,12 @@ the two locks will reduce contention in most cases.
                         pushLock.lock();
                         pushElements.push_back(std::forward<Z>(val));
                     }
+                    queueEmptyFlag = false;
                     condition.notify_all();
                     return;
                 } else {
                     pushElements.push_back(std::forward<Z>(val));
-                    expEmpty = true;
+                    bool expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
                         condition.notify_all();
@@ -155,21 +155,11 @@ the two locks will reduce contention in most cases.
         template<class Z>
         void pushPriority(Z&& val)  // forwarding reference
         {
+            std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
+            priorityQueue.push(std::forward<Z>(val));
             bool expEmpty = true;
             if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
-                queueEmptyFlag = false;  // need to set the flag again just in
-                                         // case after we get the lock
-                priorityQueue.push(std::forward<Z>(val));
-                // pullLock.unlock ();
                 condition.notify_all();
-            } else {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);
-                priorityQueue.push(std::forward<Z>(val));
-                expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                    condition.notify_all();
-                }
             }
         }
 
@@ -180,27 +170,26 @@ the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-                bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag) {
                     // release the push lock so we don't get a potential
-                    // deadlock condition
+                    // deadlock condition, the flag stays set until the element
+                    // is actually in the queue
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;  // need to set the flag again after
-                                             // we get the lock
                     if (pullElements.empty()) {
                         pullElements.emplace_back(std::forward<Args>(args)...);
                     } else {
                         pushLock.lock();
                         pushElements.emplace_back(std::forward<Args>(args)...);
                     }
+                    queueEmptyFlag = false;
 
                     condition.notify_all();
                     return;
                 } else {
                     pushElements.emplace_back(std::forward<Args>(args)...);
-                    expEmpty = true;
+                    bool expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
                         condition.notify_all();
@@ -217,21 +206,11 @@ the two locks will reduce contention in most cases.
         template<class... Args>
         void emplacePriority(Args&&... args)
         {
+            std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
+            priorityQueue.emplace(std::forward<Args>(args)...);
             bool expEmpty = true;
             if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
-                queueEmptyFlag = false;  // need to set the flag again just in
-                                         // case after we get the lock
-                priorityQueue.emplace(std::forward<Args>(args)...);
-                // pullLock.unlock ();
                 condition.notify_all();
-            } else {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);
-                priorityQueue.emplace(std::forward<Args>(args)...);
-                expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                    condition.notify_all();
-                }
             }
         }
         /** try to peek at an object without popping it from the stack
@@ -270,24 +249,28 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -309,12 +292,14 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     break;
                 }
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -322,12 +307,14 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     break;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -360,6 +347,7 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
@@ -367,6 +355,7 @@ the two locks will reduce contention in most cases.
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -374,11 +363,13 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -409,7 +400,7 @@ any meaning depending on the number of consumers
                     // after the swap call;
                     pushLock.unlock();
                     std::reverse(pullElements.begin(), pullElements.end());
-                } else {
+                } else if (priorityQueue.empty()) {
                     queueEmptyFlag = true;
                 }
             }
@@ -423,6 +414,7 @@ any meaning depending on the number of consumers
         if (!priorityQueue.empty()) {
             std::optional<T> val(std::move(priorityQueue.front()));
             priorityQueue.pop();
+            checkPullAndSwap();
             return val;
         }
         checkPullAndSwap();
-- 
2.43.0


From 8ff5e461d60cfa1799ce4f7d0dae5b4e231301ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:59 +0000
Subject: [PATCH 27/46] fix: WorkQueue without workers dereferenced null
 entries of a vector of work blocks

---
 gmlc/containers/WorkQueue.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 29f58f1..44f7af9 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -398,7 +398,9 @@ value)
                 queueCondition.notify_all();
             } else {
                 for (auto& wb : newWork) {
-                    wb->execute();
+                    if ((wb) && (!wb->isFinished())) {
+                        wb->execute();
+                    }
                 }
             }
         }
-- 
2.43.0


From 2a6eb9ef6884f156632d7582ad84016930adb739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:16 +0000
Subject: [PATCH 28/46] fix: WorkQueue worker slept through the notification of
 new work

---
 gmlc/containers/WorkQueue.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 44f7af9..c3685fa 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -350,26 +350,25 @@ value)
                 return;
             }
             if (numWorkers > 0) {
-                size_t ccount;
                 switch (priority) {
                     case WorkPriority::high:
                     case WorkPriority::required:
-                        ccount = workToDoHigh.size();
                         workToDoHigh.push(std::move(newWork));
                         break;
                     case WorkPriority::medium:
-                        ccount = workToDoMed.size();
                         workToDoMed.push(std::move(newWork));
                         break;
                     case WorkPriority::low:
                     default:
-                        ccount = workToDoLow.size();
                         workToDoLow.push(std::move(newWork));
                         break;
                 }
-                if (static_cast<int>(ccount) <= numWorkers) {
-                    queueCondition.notify_one();
+                {
+                    // a worker holding the lock sees the new block or is
+                    // waiting by the time the lock is available
+                    std::lock_guard<std::mutex> lv(queueLock);
                 }
+                queueCondition.notify_one();
             } else {
                 newWork->execute();
             }
@@ -395,6 +394,11 @@ value)
                         workToDoLow.pushVector(newWork);
                         break;
                 }
+                {
+                    // a worker holding the lock sees the new blocks or is
+                    // waiting by the time the lock is available
+                    std::lock_guard<std::mutex> lv(queueLock);
+                }
                 queueCondition.notify_all();
             } else {
                 for (auto& wb : newWork) {
@@ -476,8 +480,11 @@ value)
                     if (halt.load()) {
                         return;
                     }
-                    queueCondition.wait_for(
-                        lv, std::chrono::milliseconds(5000));
+                    // work added since the first check is not signaled again
+                    if (isEmpty()) {
+                        queueCondition.wait_for(
+                            lv, std::chrono::milliseconds(5000));
+                    }
                     if (halt) {
                         return;
                     }
-- 
2.43.0


From 1afafa163407c5ee576e31316581903f382bed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:32 +0000
Subject: [PATCH 29/46] fix: the default constructor of WorkBlock always threw

---
 gmlc/containers/WorkQueue.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index c3685fa..c421174 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -126,7 +126,9 @@ that can be executed, functionoid, or something that implements operator()
                 task.reset();
             }
             finished = false;
-            future_ret = task.get_future();
+            if (task.valid()) {
+                future_ret = task.get_future();
+            }
         };
         /** get the shared future object*/
         std::shared_future<retType> get_future() { return future_ret; }
@@ -201,7 +203,9 @@ that can be executed
                 task.reset();
             }
             finished = false;
-            future_ret = task.get_future();
+            if (task.valid()) {
+                future_ret = task.get_future();
+            }
         };
         std::shared_future<void> get_future() { return future_ret; }
 
-- 
2.43.0


From 8f6b4bb0200734b02478550194995b8aa4cc6339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:14 +0000
Subject: [PATCH 30/46] fix: the finished flag of WorkBlock was read and
 written without synchronization

---
 gmlc/containers/WorkQueue.hpp | 36 +++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index c421174..52c7e68 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -23,6 +23,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include "SimpleQueue.hpp"
 
+#include <atomic>
 #include <future>
 #include <memory>
 #include <thread>
@@ -62,7 +63,11 @@ that can be executed, functionoid, or something that implements operator()
         WorkBlock() { reset(); }
         // copy constructor intentionally omitted*/
         /** move constructor*/
-        WorkBlock(WorkBlock&& wb) = default;
+        WorkBlock(WorkBlock&& wb) :
+            task(std::move(wb.task)), future_ret(std::move(wb.future_ret)),
+            finished(wb.finished.load()), loaded(wb.loaded)
+        {
+        }
         /** constructor from a packaged task*/
         WorkBlock(std::packaged_task<retType()>&& newTask) :
             task(std::move(newTask)), loaded(true)
@@ -80,7 +85,14 @@ that can be executed, functionoid, or something that implements operator()
             reset();
         }
         /** move assignment*/
-        WorkBlock& operator=(WorkBlock&& wb) = default;
+        WorkBlock& operator=(WorkBlock&& wb)
+        {
+            task = std::move(wb.task);
+            future_ret = std::move(wb.future_ret);
+            finished = wb.finished.load();
+            loaded = wb.loaded;
+            return *this;
+        }
         /** execute the work block*/
         virtual void execute() override
         {
@@ -136,7 +148,8 @@ that can be executed, functionoid, or something that implements operator()
       private:
         std::packaged_task<retType()> task;  //!< the task to do
         std::shared_future<retType> future_ret;  //!< shared future object
-        bool finished;  //!< flag indicating the work has been done
+        std::atomic<bool> finished;  //!< flag indicating the work has been
+                                     //!< done, read from other threads
         bool loaded = false;  //!< flag indicating that the task is loaded
     };
 
@@ -164,8 +177,19 @@ that can be executed
             reset();
         }
 
-        WorkBlock(WorkBlock&& wb) = default;
-        WorkBlock& operator=(WorkBlock&& wb) = default;
+        WorkBlock(WorkBlock&& wb) :
+            task(std::move(wb.task)), future_ret(std::move(wb.future_ret)),
+            finished(wb.finished.load()), loaded(wb.loaded)
+        {
+        }
+        WorkBlock& operator=(WorkBlock&& wb)
+        {
+            task = std::move(wb.task);
+            future_ret = std::move(wb.future_ret);
+            finished = wb.finished.load();
+            loaded = wb.loaded;
+            return *this;
+        }
         virtual void execute() override
         {
             if (!finished) {
@@ -212,7 +236,7 @@ that can be executed
       private:
         std::packaged_task<void()> task;
         std::shared_future<void> future_ret;
-        bool finished;
+        std::atomic<bool> finished;
         bool loaded = false;
     };
 
-- 
2.43.0


From c0fbb5217dc662c3f48113d9b8c5a805debd684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:52 +0000
Subject: [PATCH 31/46] fix: StackBuffer leaked the allocation of a buffer of
 size 0 when it was resized

---
 gmlc/containers/StackBuffer.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index b919ab4..b33805c 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -317,13 +317,11 @@ blocks of raw data
             }
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, statedSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, statedSize);
                 }
+                // a buffer of size 0 also holds an allocation
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
-- 
2.43.0


From f5c0899cbe3df06b41f64669b532ecaee88ed850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:39 +0000
Subject: [PATCH 32/46] fix: SimpleQueue pushVector with a throwing copy lost
 queued elements

---
 gmlc/containers/SimpleQueue.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index b67ae03..86c01bb 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -13,6 +13,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include <algorithm>
 #include <atomic>
+#include <iterator>
 #include <mutex>
 #include <type_traits>
 #include <utility>
@@ -165,7 +166,13 @@ atomic flag indicating the queue is empty
                 pushLock.lock();
                 // LCOV_EXCL_STOP
             }
-            pushElements.insert(pushElements.end(), val.begin(), val.end());
+            // copy the values first so a copy that throws leaves the elements
+            // already in the queue alone
+            std::vector<X> values(val);
+            pushElements.insert(
+                pushElements.end(),
+                std::make_move_iterator(values.begin()),
+                std::make_move_iterator(values.end()));
         }
 
         /** emplace an element onto the queue
-- 
2.43.0


From 0748a7688efd84f4dc7b8d6f87f7862f941f5734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:07 +0000
Subject: [PATCH 33/46] fix: AirLock load that throws stranded other waiting
 loads

---
 gmlc/containers/AirLock.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/AirLock.hpp b/gmlc/containers/AirLock.hpp
index 7cba1fe..bcaa108 100644
--- a/gmlc/containers/AirLock.hpp
+++ b/gmlc/containers/AirLock.hpp
@@ -67,7 +67,14 @@ class AirLock {
             while (loaded.load(std::memory_order_acquire)) {
                 condition.wait(lock);
             }
-            data = std::forward<Z>(val);
+            try {
+                data = std::forward<Z>(val);
+            }
+            catch (...) {
+                // the airlock is still empty, let another waiting load proceed
+                condition.notify_one();
+                throw;
+            }
             loaded.store(true, std::memory_order_release);
         }
     }
-- 
2.43.0


From ac3e49c6b350a54c5fc8d1da1eb302e88c8bf684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:19 +0000
Subject: [PATCH 34/46] fix: StableBlock containers were left unusable when the
 first block could not be allocated

---
 gmlc/containers/StableBlockDeque.hpp  | 14 +++++++++-----
 gmlc/containers/StableBlockVector.hpp | 12 +++++++++---
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 9077f65..902f707 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -58,9 +58,9 @@ and deallocate methods)*/
             Allocator a;
             if (startSize == 0) {
                 dataSlotFront = dataSlotBack = 30;
-                dataptr[30] = a.allocate(blockSize);
                 fsize = blockSize / 2;
                 bsize = fsize + 1;
+                dataptr[30] = a.allocate(blockSize);
             } else {
                 int blocks = static_cast<int>((startSize >> N));
                 if (blocks > 0) {
@@ -463,12 +463,14 @@ and deallocate methods)*/
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64 + 1]{};
+                    // nothing is changed if there is no memory for the block
+                    std::unique_ptr<X*[]> table(new X*[64 + 1]{});
+                    table[30] = getNewBlock();
+                    dataptr = table.release();
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
                     fsize = blockSize / 2 - 1;
                     bsize = fsize + 1;
-                    dataptr[dataSlotBack] = getNewBlock();
                     return;
                 }
                 if (dataSlotBack >= dataSlotsAvailable - 1) {
@@ -499,12 +501,14 @@ and deallocate methods)*/
         {
             if (fsize < 0) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64 + 1]{};
+                    // nothing is changed if there is no memory for the block
+                    std::unique_ptr<X*[]> table(new X*[64 + 1]{});
+                    table[30] = getNewBlock();
+                    dataptr = table.release();
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
                     fsize = blockSize / 2;
                     bsize = fsize + 1;
-                    dataptr[dataSlotBack] = getNewBlock();
                     return;
                 }
                 if (dataSlotFront == 0) {
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index a1c2d17..1280a4a 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -369,10 +369,16 @@ no erase or insert
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64 + 1]{};
+                    // nothing is changed if there is no memory for the block
+                    std::unique_ptr<X*[]> table(new X*[64 + 1]{});
+                    table[0] = getNewBlock();
+                    dataptr = table.release();
                     dataSlotsAvailable = 64;
-                    dataSlotIndex = -1;
-                } else if (dataSlotIndex >= dataSlotsAvailable - 1) {
+                    dataSlotIndex = 0;
+                    bsize = 0;
+                    return;
+                }
+                if (dataSlotIndex >= dataSlotsAvailable - 1) {
                     auto mem =
                         new X*[static_cast<size_t>(dataSlotsAvailable) * 2 +
                                1]{};
-- 
2.43.0


From d884ae9621cf5e7992a26fff7a911a52dbbbe205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:10 +0000
Subject: [PATCH 35/46] fix: StableBlock containers failed to remove elements
 when memory had run out

---
 gmlc/containers/StableBlockDeque.hpp  | 24 ++++++++++++++----------
 gmlc/containers/StableBlockVector.hpp | 24 ++++++++++++++----------
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 902f707..35ab79e 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -12,6 +12,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include <algorithm>
 #include <memory>
+#include <new>
 #include <stdexcept>
 #include <type_traits>
 #include <utility>
@@ -545,17 +546,20 @@ and deallocate methods)*/
         void moveBlocktoAvailable(X* ptr)
         {
             if (freeIndex >= freeSlotsAvailable) {
-                if (0 == freeSlotsAvailable) {
-                    freeblocks = new X*[64];
-                    freeSlotsAvailable = 64;
-                } else {
-                    auto mem =
-                        new X*[static_cast<size_t>(freeSlotsAvailable) * 2];
-                    std::copy(freeblocks, freeblocks + freeSlotsAvailable, mem);
-                    delete[] freeblocks;
-                    freeblocks = mem;
-                    freeSlotsAvailable *= 2;
+                const int slots =
+                    (0 == freeSlotsAvailable) ? 64 : freeSlotsAvailable * 2;
+                auto mem = new (std::nothrow) X*[static_cast<size_t>(slots)];
+                if (mem == nullptr) {
+                    // removing elements must not fail, so if the block can
+                    // not be kept it is released
+                    Allocator a;
+                    a.deallocate(ptr, blockSize);
+                    return;
                 }
+                std::copy(freeblocks, freeblocks + freeSlotsAvailable, mem);
+                delete[] freeblocks;
+                freeblocks = mem;
+                freeSlotsAvailable = slots;
             }
             freeblocks[freeIndex++] = ptr;
         }
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 1280a4a..08b4420 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -12,6 +12,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include <algorithm>
 #include <memory>
+#include <new>
 #include <type_traits>
 #include <utility>
 
@@ -395,17 +396,20 @@ no erase or insert
         void moveBlocktoAvailable(X* ptr)
         {
             if (freeIndex >= freeSlotsAvailable) {
-                if (0 == freeSlotsAvailable) {
-                    freeblocks = new X*[64];
-                    freeSlotsAvailable = 64;
-                } else {
-                    auto mem =
-                        new X*[static_cast<size_t>(freeSlotsAvailable) * 2];
-                    std::copy(freeblocks, freeblocks + freeSlotsAvailable, mem);
-                    delete[] freeblocks;
-                    freeblocks = mem;
-                    freeSlotsAvailable *= 2;
+                const int slots =
+                    (0 == freeSlotsAvailable) ? 64 : freeSlotsAvailable * 2;
+                auto mem = new (std::nothrow) X*[static_cast<size_t>(slots)];
+                if (mem == nullptr) {
+                    // removing elements must not fail, so if the block can
+                    // not be kept it is released
+                    Allocator a;
+                    a.deallocate(ptr, blockSize);
+                    return;
                 }
+                std::copy(freeblocks, freeblocks + freeSlotsAvailable, mem);
+                delete[] freeblocks;
+                freeblocks = mem;
+                freeSlotsAvailable = slots;
             }
             freeblocks[freeIndex++] = ptr;
         }
-- 
2.43.0


From 8ce4d9f1678577ced32bb1be49f8a4c1df1fda23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:58 +0000
Subject: [PATCH 36/46] fix: buffer copy assignment without memory left a
 pointer to the memory of the source

---
 gmlc/containers/CircularBuffer.hpp | 3 ++-
 gmlc/containers/StackBuffer.hpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 106e4a8..b0cf50f 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -227,8 +227,9 @@ namespace containers {
         }
         CircularBuffer& operator=(const CircularBuffer& cb)
         {
-            buffer = cb.buffer;
+            // get the memory first, nothing is changed if there is none
             resizeMemory(cb.actualSize, false);
+            buffer = cb.buffer;
             std::memcpy(data, cb.data, cb.actualSize);
 
             auto read_offset = buffer.next_read - buffer.origin;
diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index b33805c..9506b1f 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -202,8 +202,9 @@ blocks of raw data
         }
         StackBuffer& operator=(const StackBuffer& sq)
         {
-            stack = sq.stack;
+            // get the memory first, nothing is changed if there is none
             resizeMemory(sq.statedSize, false);
+            stack = sq.stack;
             std::memcpy(data, sq.data, sq.statedSize);
 
             auto offset = stack.next - stack.origin;
-- 
2.43.0


From d71c3307faba64a81f32bbc2dea5e04899d420e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:03 +0000
Subject: [PATCH 37/46] fix: WorkQueue: closing the queue from two threads at
 once no longer deadlocks

The second caller joined the workers while holding the queueLock, which the
workers and the first caller need, and both joined the same threads.
---
 gmlc/containers/WorkQueue.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 52c7e68..c4ec04b 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -355,7 +355,12 @@ value)
                     addWorkBlock(dummyWork, WorkPriority::required);
                 }
                 queueCondition.notify_all();
+            } else {
+                // the workers need the lock to notice the halt
+                lv.unlock();
             }
+            // only one thread at a time can join the workers
+            std::lock_guard<std::mutex> joining(joinLock);
             for (auto& thrd : threadpool) {
                 if (thrd.joinable()) {
                     thrd.join();
@@ -548,6 +553,7 @@ value)
             0};  //!< the counter to use low instead of Med
         std::vector<std::thread> threadpool;  //!< the threads
         std::mutex queueLock;  //!< mutex for condition variable and halt
+        std::mutex joinLock;  //!< mutex for joining the threads
         std::condition_variable queueCondition;  //!< condition variable for
                                                  //!< waking the threads
         std::atomic<bool> halt{
-- 
2.43.0


From b4418b5422e89ea51bc805160a0d4b292d55066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:43 +0000
Subject: [PATCH 38/46] fix: DualMappedVector, DualStringMappedVector: an
 element removed while memory had run out left its keys behind

---
 gmlc/containers/DualMappedVector.hpp       | 40 ++++++++--------------
 gmlc/containers/DualStringMappedVector.hpp | 40 ++++++++--------------
 2 files changed, 30 insertions(+), 50 deletions(-)

diff --git a/gmlc/containers/DualMappedVector.hpp b/gmlc/containers/DualMappedVector.hpp
index 4e12cf6..f3ee9e9 100644
--- a/gmlc/containers/DualMappedVector.hpp
+++ b/gmlc/containers/DualMappedVector.hpp
@@ -303,36 +303,26 @@ or by numerical index
                 return;
             }
             auto erased = localErase(dataStorage, index);
-
-            std::vector<searchType1> ind1;
-            for (auto& searchterm : lookup1) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind1.push_back(searchterm.first);
+            // remove all the search terms of the element
+            for (auto el2 = lookup1.begin(); el2 != lookup1.end();) {
+                if (el2->second == index) {
+                    el2 = lookup1.erase(el2);
+                    continue;
                 }
-            }
-            std::vector<searchType2> ind2;
-            for (auto& searchterm : lookup2) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind2.push_back(searchterm.first);
+                if (erased && el2->second > index) {
+                    el2->second -= 1;
                 }
+                ++el2;
             }
-
-            for (auto& ind : ind1) {
-                auto fnd1 = lookup1.find(ind);
-                if (fnd1 != lookup1.end()) {
-                    lookup1.erase(fnd1);
+            for (auto el2 = lookup2.begin(); el2 != lookup2.end();) {
+                if (el2->second == index) {
+                    el2 = lookup2.erase(el2);
+                    continue;
                 }
-            }
-
-            for (auto& ind : ind2) {
-                auto fnd2 = lookup2.find(ind);
-                if (fnd2 != lookup2.end()) {
-                    lookup2.erase(fnd2);
+                if (erased && el2->second > index) {
+                    el2->second -= 1;
                 }
+                ++el2;
             }
         }
 
diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index 31ccc3e..b81ff4a 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -329,36 +329,26 @@ or by numerical index
                 return;
             }
             auto erased = localErase(dataStorage, index);
-
-            StableBlockVector<std::string_view, BLOCK_ORDER> ind1;
-            for (auto& searchterm : lookup1) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind1.push_back(searchterm.first);
+            // remove all the search terms of the element
+            for (auto el2 = lookup1.begin(); el2 != lookup1.end();) {
+                if (el2->second == index) {
+                    el2 = lookup1.erase(el2);
+                    continue;
                 }
-            }
-            StableBlockVector<searchType2, BLOCK_ORDER> ind2;
-            for (auto& searchterm : lookup2) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind2.push_back(searchterm.first);
+                if (erased && el2->second > index) {
+                    el2->second -= 1;
                 }
+                ++el2;
             }
-
-            for (auto& ind : ind1) {
-                auto fnd1 = lookup1.find(ind);
-                if (fnd1 != lookup1.end()) {
-                    lookup1.erase(fnd1);
+            for (auto el2 = lookup2.begin(); el2 != lookup2.end();) {
+                if (el2->second == index) {
+                    el2 = lookup2.erase(el2);
+                    continue;
                 }
-            }
-
-            for (auto& ind : ind2) {
-                auto fnd2 = lookup2.find(ind);
-                if (fnd2 != lookup2.end()) {
-                    lookup2.erase(fnd2);
+                if (erased && el2->second > index) {
+                    el2->second -= 1;
                 }
+                ++el2;
             }
         }
 
-- 
2.43.0


From 7c3563ec204cf99ecc4676d83138882e695eed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:23 +0000
Subject: [PATCH 39/46] fix: WorkQueue: a constructor that could not start all
 its threads terminated the process

---
 gmlc/containers/WorkQueue.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index c4ec04b..00f99eb 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -317,8 +317,16 @@ value)
         {
             if (numWorkers != 0) {
                 threadpool.resize(numWorkers);
-                for (int kk = 0; kk < numWorkers; ++kk) {
-                    threadpool[kk] = std::thread(&WorkQueue::workerLoop, this);
+                try {
+                    for (int kk = 0; kk < numWorkers; ++kk) {
+                        threadpool[kk] =
+                            std::thread(&WorkQueue::workerLoop, this);
+                    }
+                }
+                catch (...) {
+                    // stop the workers that did start
+                    closeWorkerQueue();
+                    throw;
                 }
             }
         }
-- 
2.43.0


From dafa4cda1a0142d8d5a5f79f1f681e6fd90b7d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:23 +0000
Subject: [PATCH 40/46] fix: WorkQueue: closing needed memory, the destructor
 terminated the process when there was none

---
 gmlc/containers/WorkQueue.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 00f99eb..422ff7f 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -352,16 +352,13 @@ value)
             if (!halt.load()) {
                 halt.store(true);
                 lv.unlock();
-                auto dummyWork = std::make_shared<NullWorkBlock>();
 
                 workToDoHigh.clear();
                 workToDoMed.clear();
                 workToDoLow.clear();
 
-                queueCondition.notify_all();
-                for (int ii = 0; ii < numWorkers; ++ii) {
-                    addWorkBlock(dummyWork, WorkPriority::required);
-                }
+                // closing must not need any memory, the workers are either
+                // awake or waiting and woken up by this
                 queueCondition.notify_all();
             } else {
                 // the workers need the lock to notice the halt
-- 
2.43.0


From 872b05ac3168982b4863eaee960ea1697619b181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:23 +0000
Subject: [PATCH 41/46] fix: WorkQueue: a failed updateWorkFunction left the
 block without any task

---
 gmlc/containers/WorkQueue.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 422ff7f..1c1b567 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -113,8 +113,10 @@ that can be executed, functionoid, or something that implements operator()
             static_assert(
                 std::is_same<decltype(newWork()), retType>::value,
                 "work does not match type");
+            // the block keeps its task if the new one cannot be made
+            std::packaged_task<retType()> newTask(std::forward<Func>(newWork));
             loaded = false;
-            task = std::packaged_task<retType()>(std::forward<Func>(newWork));
+            task = std::move(newTask);
             reset();
             loaded = true;
         }
@@ -207,8 +209,10 @@ that can be executed
             static_assert(
                 std::is_same<decltype(newWork()), void>::value,
                 "work does not match type");
+            // the block keeps its task if the new one cannot be made
+            std::packaged_task<void()> newTask(std::forward<Func>(newWork));
             loaded = false;
-            task = std::packaged_task<void()>(std::forward<Func>(newWork));
+            task = std::move(newTask);
             reset();
             loaded = true;
         }
-- 
2.43.0


From 33e8a8739fa881126d15008be349409fe002819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:23 +0000
Subject: [PATCH 42/46] fix: StableBlockVector, StableBlockDeque: a sized
 constructor without memory for its first block gave a null block to the
 allocator

---
 gmlc/containers/StableBlockDeque.hpp  | 11 +++++++----
 gmlc/containers/StableBlockVector.hpp |  8 +++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 35ab79e..10700ac 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -54,14 +54,17 @@ and deallocate methods)*/
         {
             dataSlotsAvailable =
                 std::max(static_cast<int>(startSize >> N) + 2, 64);
-            dataptr =
-                new X*[static_cast<size_t>(dataSlotsAvailable) + 1]{};
+            // without memory for the first block there is nothing to free
+            std::unique_ptr<X*[]> table(
+                new X*[static_cast<size_t>(dataSlotsAvailable) + 1]{});
             Allocator a;
+            X* firstBlock = a.allocate(blockSize);
+            dataptr = table.release();
             if (startSize == 0) {
                 dataSlotFront = dataSlotBack = 30;
                 fsize = blockSize / 2;
                 bsize = fsize + 1;
-                dataptr[30] = a.allocate(blockSize);
+                dataptr[30] = firstBlock;
             } else {
                 int blocks = static_cast<int>((startSize >> N));
                 if (blocks > 0) {
@@ -91,7 +94,7 @@ and deallocate methods)*/
                 // if one of the element constructors throws
                 dataSlotBack = dataSlotFront;
                 bsize = fsize + 1;
-                dataptr[dataSlotFront] = a.allocate(blockSize);
+                dataptr[dataSlotFront] = firstBlock;
                 while (csize < startSize) {
                     push_back(init);
                 }
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 08b4420..106d2d1 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -58,10 +58,12 @@ no erase or insert
             Allocator a;
             dataSlotsAvailable =
                 std::max(static_cast<int>(startSize >> N) + 1, 64);
-            dataptr =
-                new X*[static_cast<size_t>(dataSlotsAvailable) + 1]{};
+            // without memory for the first block there is nothing to free
+            std::unique_ptr<X*[]> table(
+                new X*[static_cast<size_t>(dataSlotsAvailable) + 1]{});
+            table[0] = a.allocate(blockSize);
+            dataptr = table.release();
             bsize = 0;
-            dataptr[0] = a.allocate(blockSize);
             while (csize < startSize) {
                 push_back(init);
             }
-- 
2.43.0


From bef9ee9a37ddf6ba95553d364578358c793aa4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:23 +0000
Subject: [PATCH 43/46] fix: StableBlockVector: running out of memory
 terminated the process when elements are copied or moved without exceptions

---
 gmlc/containers/StableBlockVector.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 106d2d1..9bda915 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -51,8 +51,7 @@ no erase or insert
         /** construct with a specified size*/
         explicit StableBlockVector(
             size_t startSize,
-            const X& init =
-                X{}) noexcept(std::is_nothrow_copy_constructible<X>::value) :
+            const X& init = X{}) :
             StableBlockVector()
         {
             Allocator a;
@@ -132,16 +131,14 @@ no erase or insert
             ++csize;
         }
 
-        void push_back(const X& val) noexcept(
-            std::is_nothrow_copy_constructible<X>::value)
+        void push_back(const X& val)
         {
             blockCheck();
             new (&(dataptr[dataSlotIndex][bsize])) X{val};
             ++bsize;
             ++csize;
         }
-        void push_back(X&& val) noexcept(
-            std::is_nothrow_move_constructible<X>::value)
+        void push_back(X&& val)
         {
             blockCheck();
             new (&(dataptr[dataSlotIndex][bsize])) X{std::move(val)};
-- 
2.43.0


From 6659bfee49c1a75d595e92e83d146dd54bb68475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:23 +0000
Subject: [PATCH 44/46] fix: StableBlockVector, StableBlockDeque: pushing an
 element that can be made from an initializer list stored a list of it

---
 gmlc/containers/StableBlockDeque.hpp  | 8 ++++----
 gmlc/containers/StableBlockVector.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 10700ac..8009ab6 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -172,14 +172,14 @@ and deallocate methods)*/
         void push_back(const X& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize])) X{val};
+            new (&(dataptr[dataSlotBack][bsize])) X(val);
             ++bsize;
             ++csize;
         }
         void push_back(X&& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize])) X{std::move(val)};
+            new (&(dataptr[dataSlotBack][bsize])) X(std::move(val));
             ++bsize;
             ++csize;
         }
@@ -212,14 +212,14 @@ and deallocate methods)*/
         void push_front(const X& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize])) X{val};
+            new (&(dataptr[dataSlotFront][fsize])) X(val);
             --fsize;
             ++csize;
         }
         void push_front(X&& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize])) X{std::move(val)};
+            new (&(dataptr[dataSlotFront][fsize])) X(std::move(val));
             --fsize;
             ++csize;
         }
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 9bda915..1efbaa0 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -134,14 +134,14 @@ no erase or insert
         void push_back(const X& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize])) X{val};
+            new (&(dataptr[dataSlotIndex][bsize])) X(val);
             ++bsize;
             ++csize;
         }
         void push_back(X&& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize])) X{std::move(val)};
+            new (&(dataptr[dataSlotIndex][bsize])) X(std::move(val));
             ++bsize;
             ++csize;
         }
-- 
2.43.0


From 0c5c2e733d3c1c8e61aec30cbd23f9fd07cc0eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:41 +0000
Subject: [PATCH 45/46] fix: BlockingQueue, BlockingPriorityQueue: popping a
 truth value kept a reference into the packed elements while another thread
 changes them

---
 gmlc/containers/BlockingPriorityQueue.hpp | 8 ++++----
 gmlc/containers/BlockingQueue.hpp         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 8133225..6cb9bdc 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -345,7 +345,7 @@ the two locks will reduce contention in most cases.
                 callOnWaitFunction();
                 std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
                 if (!priorityQueue.empty()) {
-                    auto actval = std::move(priorityQueue.front());
+                    T actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
                     checkPullAndSwap();
                     return actval;
@@ -353,7 +353,7 @@ the two locks will reduce contention in most cases.
                 if (!pullElements.empty()) {
                     // the callback may fill the queue or it may have been
                     // filled in the meantime
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
@@ -361,13 +361,13 @@ the two locks will reduce contention in most cases.
                 condition.wait(pullLock);
                 // need to check again to handle spurious wake-up
                 if (!priorityQueue.empty()) {
-                    auto actval = std::move(priorityQueue.front());
+                    T actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
                     checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 79e2e72..01a55df 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -220,7 +220,7 @@ contention the two locks will reduce contention in most cases.
                     m_pullLock);  // get the lock then wait
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
@@ -228,7 +228,7 @@ contention the two locks will reduce contention in most cases.
                 condition.wait(pullLock);  // now wait
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
@@ -291,7 +291,7 @@ contention the two locks will reduce contention in most cases.
                 if (!pullElements.empty()) {
                     // the callback may fill the queue or it may have been
                     // filled in the meantime
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
@@ -299,7 +299,7 @@ contention the two locks will reduce contention in most cases.
                 condition.wait(pullLock);
                 // need to check again to handle spurious wake-up
                 if (!pullElements.empty()) {
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
-- 
2.43.0


From fe3edebee008c09fc40aea0def757e8cc7849c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:41 +0000
Subject: [PATCH 46/46] fix: StackBuffer: index entries were accessed as if
 aligned in memory of any size and position

---
 gmlc/containers/StackBuffer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 9506b1f..c727cc2 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -18,10 +18,13 @@ SPDX-License-Identifier: BSD-3-Clause
 
 namespace gmlc {
 namespace containers {
+    // the index is kept at the end of the memory block, which need not be aligned
+#pragma pack(push, 1)
     struct dataIndex {
         int32_t offset;
         int32_t dataSize;
     };
+#pragma pack(pop)
 
     /// Helper for size information on the data index
     constexpr int diSize = static_cast<int>(sizeof(dataIndex));
-- 
2.43.0

