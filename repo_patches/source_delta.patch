From 423659b30de5cd431b881f3ea08e0bf711a2b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:47 +0000
Subject: [PATCH 01/24] fix: unlock the nodes in the right roles when aborting
 a delete that merges a child node

---
 delete.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index b7537db..5042ad2 100644
--- a/delete.go
+++ b/delete.go
@@ -341,7 +341,7 @@ func (op *DeleteOperation) Abort() {
 	case deleteLeaf, replaceNodeWithLeaf:
 		op.unlock()
 	case replaceNodeWithNode:
-		op.idx.unlockNodes3(op.parent, op.node, op.child)
+		op.unlock3()
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
-- 
2.43.0


From 7316e452971e50e60c4af5466dd2f29505967e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:10 +0000
Subject: [PATCH 02/24] fix: compare generations when locked nodes share a lock

---
 locks.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/locks.go b/locks.go
index ad61f9e..9e44618 100644
--- a/locks.go
+++ b/locks.go
@@ -62,6 +62,10 @@ func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen i
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
 		}
+	} else if nodeGen != childGen {
+		// same lock, but possibly read at another generation
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		return false
 	}
 	// lock parent, if needed
 	block3 := parent >> blockSlotsShift
@@ -75,6 +79,19 @@ func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen i
 			}
 			return false
 		}
+	} else {
+		// same lock as child or node, but possibly read at another generation
+		sharedGen := nodeGen
+		if lock3 == lock && block3 == block {
+			sharedGen = childGen
+		}
+		if parentGen != sharedGen {
+			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+			if lock2Unique {
+				atomic.AddInt32(&idx.blocks[block2].locks[lock2], -1)
+			}
+			return false
+		}
 	}
 	return true
 }
@@ -135,6 +152,10 @@ func (idx *Tree) lockNodes2(node uint64, nodeGen int32, parent uint64, parentGen
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
 		}
+	} else if parentGen != nodeGen {
+		// same lock, but possibly read at another generation
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		return false
 	}
 	return true
 }
-- 
2.43.0


From 6f62747ad21e9e68c2e652de36821a2c673b9cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 03/24] fix: do not recycle a node of 258 slots past the end of
 the recycler

---
 allocator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator.go b/allocator.go
index 6db5d74..b79dbc1 100644
--- a/allocator.go
+++ b/allocator.go
@@ -178,7 +178,7 @@ func (a *Allocator) endOp() {
 }
 
 func (a *Allocator) recycle(node uint64, slots int) {
-	if slots > len(a.recycler) {
+	if slots >= len(a.recycler) {
 		return
 	}
 	e := atomic.LoadUint64(a.globalEpoch)
-- 
2.43.0


From 3da11cb947240044766426f7c791fba9721f05fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 04/24] fix: searching an empty index must not look for a root
 node

---
 radix.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radix.go b/radix.go
index d8479c0..2729ac9 100644
--- a/radix.go
+++ b/radix.go
@@ -313,7 +313,7 @@ func (idx *Tree) getNodeFromRaw(raw uint64) (count, prefixLen int, data []uint64
 
 func (idx *Tree) partialSearch(searchPrefix []byte) (raw uint64, depth int) {
 	root := atomic.LoadUint64(&idx.root)
-	if len(searchPrefix) == 0 {
+	if root == 0 || len(searchPrefix) == 0 {
 		return root, 0
 	}
 	if isLeaf(root) {
@@ -508,6 +508,9 @@ func (idx *Tree) Count(searchPrefix []byte) (nodes, leaves int) {
 func (idx *Tree) search(key []byte) (uint64, bool) {
 	depth := 0
 	root := atomic.LoadUint64(&idx.root)
+	if root == 0 {
+		return 0, false
+	}
 	if isLeaf(root) {
 		if byte(root) == key[0] {
 			return getLeafValue(root), true
-- 
2.43.0


From 5f3241b10d84305827437d4555364899cd72b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 05/24] fix: looking up or deleting the empty key in an index
 with one item

---
 delete.go | 2 +-
 radix.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/delete.go b/delete.go
index 5042ad2..f2bd5df 100644
--- a/delete.go
+++ b/delete.go
@@ -83,7 +83,7 @@ S:
 		return false
 	}
 	if isLeaf(root) {
-		if byte(root) == key[0] {
+		if len(key) > 0 && byte(root) == key[0] {
 			if !op.idx.lockLeafRoot(root) {
 				runtime.Gosched()
 				goto S
diff --git a/radix.go b/radix.go
index 2729ac9..336e817 100644
--- a/radix.go
+++ b/radix.go
@@ -512,7 +512,7 @@ func (idx *Tree) search(key []byte) (uint64, bool) {
 		return 0, false
 	}
 	if isLeaf(root) {
-		if byte(root) == key[0] {
+		if len(key) > 0 && byte(root) == key[0] {
 			return getLeafValue(root), true
 		}
 		return 0, false
-- 
2.43.0


From 59fcc551a8687f1446e269da10a8a8ffa8fad876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 06/24] fix: hold the node locks while deleting a leaf from a
 node-256

---
 delete.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index f2bd5df..5a24201 100644
--- a/delete.go
+++ b/delete.go
@@ -155,6 +155,10 @@ searchLoop:
 				return false
 			}
 			if isLeaf(a) {
+				if !op.lock() {
+					runtime.Gosched()
+					goto S
+				}
 				op.raw = a
 				op.leafPtr = p
 				op.kind = deleteLeaf256
@@ -323,6 +327,7 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		if deleted {
 			op.allocator.itemCounter--
 		}
+		op.unlock()
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
@@ -338,7 +343,7 @@ func (op *DeleteOperation) Abort() {
 	switch op.kind {
 	case deleteRoot:
 		op.idx.unlockRoot()
-	case deleteLeaf, replaceNodeWithLeaf:
+	case deleteLeaf, deleteLeaf256, replaceNodeWithLeaf:
 		op.unlock()
 	case replaceNodeWithNode:
 		op.unlock3()
-- 
2.43.0


From 41dc439c2f22c29315a133688168dc9f96108a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 07/24] fix: recycle the node replaced when a delete merges its
 child

---
 delete.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index 5a24201..1bf61b1 100644
--- a/delete.go
+++ b/delete.go
@@ -295,8 +295,13 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		atomic.StoreUint64(op.nodePtr, buildNode(byte(op.raw), newNode, op.count, len(op.prefix)))
 		// unlock
 		op.unlock3()
-		// recycle the old child node
+		// recycle the old child node, and the replaced node with its two children
 		op.allocator.recycle(op.child, op.count+op.prefixSlots)
+		nodeSlots := 2 + (op.prefixLen+7)>>3
+		if op.prefixLen >= 255 {
+			nodeSlots++
+		}
+		op.allocator.recycle(op.node, nodeSlots)
 		op.allocator.itemCounter--
 		deleted = true
 
-- 
2.43.0


From dbdcc065c9aff9221138c302e4c70fd9be91d819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 08/24] fix: count each node once in the statistics of a
 counter

---
 counter.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/counter.go b/counter.go
index 8b32ef6..8f5d46a 100644
--- a/counter.go
+++ b/counter.go
@@ -69,17 +69,23 @@ searchLoop:
 		if prefixLen > 0 {
 			prefixSlots := ((prefixLen + 7) >> 3)
 			if prefixLen == 255 {
-				c.LargePrefixes++
+				if p.nextChild == 0 {
+					c.LargePrefixes++
+				}
 				prefixLen = int(data[0])
 				prefixSlots = ((prefixLen + 15) >> 3)
 			}
-			c.NodesWithPrefix++
-			c.TotalPrefixBytes += prefixSlots * 8
-			c.TotalPrefixLength += prefixLen
+			if p.nextChild == 0 {
+				c.NodesWithPrefix++
+				c.TotalPrefixBytes += prefixSlots * 8
+				c.TotalPrefixLength += prefixLen
+			}
 			data = data[prefixSlots:]
 		}
 
-		c.NodeSizes[count]++
+		if p.nextChild == 0 {
+			c.NodeSizes[count]++
+		}
 
 		for k := p.nextChild; k < count; k++ {
 			a := atomic.LoadUint64(&data[k])
-- 
2.43.0


From ae0208f3b7568548a80776ed6b089579e3f3e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:15 +0000
Subject: [PATCH 09/24] fix: save the newest block even if the block allocator
 has not moved on

---
 state.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/state.go b/state.go
index 8f63d92..ae911c7 100644
--- a/state.go
+++ b/state.go
@@ -19,8 +19,16 @@ import (
 func (idx *Tree) writeState(out io.Writer) (int, error) {
 	written := 0
 
+	// a block can be in use by an allocator before the block allocator has prepared the next one
+	blocks := atomic.LoadUint64(&idx.nextFreeBlock)
+	for _, a := range idx.allocators {
+		if !a.empty && uint64(a.block) >= blocks {
+			blocks = uint64(a.block) + 1
+		}
+	}
+
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
-	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
+	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, blocks, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
 		return 0, err
 	}
@@ -88,8 +96,7 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 		writerDone <- nil
 	}()
 
-	next := int(atomic.LoadUint64(&idx.nextFreeBlock))
-	for i := 0; i < next; i++ {
+	for i := 0; i < int(blocks); i++ {
 		toCompress <- i
 	}
 	close(toCompress)
-- 
2.43.0


From 645a62d08518ccb32161337bc5b29ef7c2d08b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:16 +0000
Subject: [PATCH 10/24] fix: include the unflushed counters of the allocators
 in the saved number of objects

---
 state.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/state.go b/state.go
index ae911c7..b1bbe13 100644
--- a/state.go
+++ b/state.go
@@ -19,6 +19,11 @@ import (
 func (idx *Tree) writeState(out io.Writer) (int, error) {
 	written := 0
 
+	objects := atomic.LoadInt64(&idx.liveObjects)
+	for _, a := range idx.allocators {
+		objects += a.itemCounter
+	}
+
 	// a block can be in use by an allocator before the block allocator has prepared the next one
 	blocks := atomic.LoadUint64(&idx.nextFreeBlock)
 	for _, a := range idx.allocators {
@@ -28,7 +33,7 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 	}
 
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
-	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, blocks, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
+	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", objects, blockSize, blocks, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From bdc00e0f311e7b16986eb8a372f887454ab9e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:16 +0000
Subject: [PATCH 11/24] fix: do not hang when the writer of a state fails

---
 state.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/state.go b/state.go
index b1bbe13..fa45518 100644
--- a/state.go
+++ b/state.go
@@ -81,24 +81,29 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 	go func() {
 		// writer
 		var writeTime time.Duration
+		var failed error
 		for job := range toWrite {
+			if failed != nil {
+				// keep receiving, or the workers will block
+				continue
+			}
 			n, err := out.Write([]byte(fmt.Sprintf("block %d\ncompression snappy\nsize %d\n", job.block, len(job.buf))))
 			if err != nil {
-				writerDone <- err
-				return
+				failed = err
+				continue
 			}
 			written += n
 			start := time.Now()
 			n, err = out.Write(job.buf)
 			jobPool.Put(job)
 			if err != nil {
-				writerDone <- err
-				return
+				failed = err
+				continue
 			}
 			written += n
 			writeTime += time.Since(start)
 		}
-		writerDone <- nil
+		writerDone <- failed
 	}()
 
 	for i := 0; i < int(blocks); i++ {
-- 
2.43.0


From 47dd802c0994e25c386c895bf6675813f193b0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:16 +0000
Subject: [PATCH 12/24] fix: refuse to load an incomplete state

---
 state.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/state.go b/state.go
index fa45518..61c36ee 100644
--- a/state.go
+++ b/state.go
@@ -126,21 +126,31 @@ func (idx *Tree) loadState(data io.Reader) error {
 		allocators int
 		nextBlock  = -1
 		readBuf    []byte
+		blocks     uint64
+		headers    = make(map[string]bool)
+		loaded     = make(map[int]bool)
 	)
 	// reset block map
 	idx.blockMap = make(map[int]int)
 	for {
 		line, err := reader.ReadBytes('\n')
-		if err == io.EOF {
+		if err == io.EOF && len(line) == 0 {
 			break
 		}
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return err
 		}
 		// trim \n
 		line = line[:len(line)-1]
 		space := bytes.IndexByte(line, ' ')
+		if space < 0 {
+			return fmt.Errorf("Corrupted index state file? Bad line %q", line)
+		}
 		v, _ := strconv.ParseUint(string(line[space+1:]), 10, 64)
+		headers[string(line[:space])] = true
 
 		switch string(line[:space]) {
 		case "objects":
@@ -154,6 +164,7 @@ func (idx *Tree) loadState(data io.Reader) error {
 
 		case "allocated_blocks":
 			idx.nextFreeBlock = v
+			blocks = v
 
 		case "epoch":
 			atomic.StoreUint64(idx.manager.globalEpoch, v)
@@ -179,6 +190,7 @@ func (idx *Tree) loadState(data io.Reader) error {
 				return err
 			}
 			idx.blockMap[idx.allocators[v].block] = blockAllocated
+			loaded[int(v)] = true
 
 		case "block":
 			// block X
@@ -217,5 +229,19 @@ func (idx *Tree) loadState(data io.Reader) error {
 			}
 		}
 	}
+	// verify nothing is missing
+	for _, h := range []string{"objects", "blocksize", "allocated_blocks", "allocators", "root_node", "epoch"} {
+		if !headers[h] {
+			return fmt.Errorf("Incomplete index state file: no %s header", h)
+		}
+	}
+	if len(loaded) < allocators {
+		return fmt.Errorf("Incomplete index state file: %d of %d allocators", len(loaded), allocators)
+	}
+	for i := uint64(0); i < blocks; i++ {
+		if i >= uint64(len(idx.blocks)) || idx.blocks[i] == nil {
+			return fmt.Errorf("Incomplete index state file: no data for block %d", i)
+		}
+	}
 	return nil
 }
-- 
2.43.0


From 39767ee003b92cf80d1d69e736daa239ef58e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:45 +0000
Subject: [PATCH 13/24] fix: restore the empty flag of an allocator

---
 allocator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator.go b/allocator.go
index b79dbc1..1363a11 100644
--- a/allocator.go
+++ b/allocator.go
@@ -281,7 +281,7 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 
 		switch string(line[:space]) {
 		case "empty":
-			a.empty = bytes.Equal(line[space+1:], []byte("true"))
+			a.empty = bytes.Equal(values, []byte("true"))
 		case "next_free":
 			a.nextFree = v
 		case "block":
-- 
2.43.0


From c25d5c944e7dff119c2495bedb89fcd4a4ba1468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:46 +0000
Subject: [PATCH 14/24] fix: Len, Stop, Start and listing the allocators must
 not interfere with each other

---
 admin.go | 14 ++++++--------
 radix.go | 44 +++++++++++++++++++++++++++++++++-----------
 2 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/admin.go b/admin.go
index 207ca6e..baca7ef 100644
--- a/admin.go
+++ b/admin.go
@@ -31,18 +31,16 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 	case "allocators":
 		switch {
 		case len(argv) == 1:
-			// withdraw all allocators
-			var a []int
-			for i := 0; i < len(idx.allocators); i++ {
-				a = append(a, idx.allocatorQueue.get())
+			// withdraw all allocators, unless the index is stopped
+			idx.stopLock.Lock()
+			defer idx.stopLock.Unlock()
+			if !idx.stopped {
+				idx.withdrawAllocators()
+				defer idx.releaseAllocators()
 			}
 			for i, a := range idx.allocators {
 				a.printStats(out, i)
 			}
-			// release allocators again
-			for i := range a {
-				idx.allocatorQueue.put(a[i])
-			}
 
 			// case argv[1] == "reservations":
 			// 	printReservations(out)
diff --git a/radix.go b/radix.go
index 336e817..8b285e4 100644
--- a/radix.go
+++ b/radix.go
@@ -83,7 +83,9 @@ type Tree struct {
 	blockMap     map[int]int
 	blockMapLock sync.RWMutex
 
-	stopped int32
+	// stopLock is held by anyone withdrawing all allocators, and protects stopped
+	stopLock sync.Mutex
+	stopped  bool
 
 	// this value is not guaranteed to be correct until the tree is still and all allocators have flushed their counters
 	liveObjects int64
@@ -135,36 +137,56 @@ func NewTreeFromState(data io.Reader) (*Tree, error) {
 // Len returns the current number of items in the tree
 // It needs to query all allocators for their counters, so it will block if an allocator is constantly reserved...
 func (idx *Tree) Len() (count int) {
-	idx.Stop()
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if !idx.stopped {
+		idx.withdrawAllocators()
+		defer idx.releaseAllocators()
+	}
 	count = int(idx.liveObjects)
 	for _, a := range idx.allocators {
 		count += int(a.itemCounter)
 	}
-	idx.Start()
 	return
 }
 
+// withdrawAllocators blocks until it gets all allocators.
+// Called with stopLock held, since two callers could otherwise block each other.
+func (idx *Tree) withdrawAllocators() {
+	for i := 0; i < len(idx.allocators); i++ {
+		_ = idx.allocatorQueue.get()
+	}
+}
+
+func (idx *Tree) releaseAllocators() {
+	for i := 0; i < len(idx.allocators); i++ {
+		idx.allocatorQueue.put(i)
+	}
+}
+
 // Stop withdraws all allocators to prevent any more write or reads.
 // It will blocks until it gets all allocators.
 // If already stopped, it returns silently.
 func (idx *Tree) Stop() {
-	if !atomic.CompareAndSwapInt32(&idx.stopped, 0, 1) {
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if idx.stopped {
 		return
 	}
-	for i := 0; i < len(idx.allocators); i++ {
-		_ = idx.allocatorQueue.get()
-	}
+	idx.withdrawAllocators()
+	idx.stopped = true
 }
 
 // Start releases all allocators withdrawn through a previous call to Stop.
 // In case the indexed is not stopped in returns silently.
 func (idx *Tree) Start() {
-	if !atomic.CompareAndSwapInt32(&idx.stopped, 1, 0) {
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if !idx.stopped {
 		return
 	}
-	for i := 0; i < len(idx.allocators); i++ {
-		idx.allocatorQueue.put(i)
-	}
+	idx.stopped = false
+	idx.releaseAllocators()
 }
 
 // Close stops the index, and then terminates the memory allocation goroutine, which will otherwise leak.
-- 
2.43.0


From e0845731c165b60ee71a428c8e3b94725a1d4eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:30 +0000
Subject: [PATCH 15/24] fix: end the iteration when a batch ends at the last
 item

---
 iterator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/iterator.go b/iterator.go
index 6954a4f..7baeb72 100644
--- a/iterator.go
+++ b/iterator.go
@@ -233,12 +233,17 @@ searchLoop:
 func (i *Iterator) storeResumePosition() {
 	// first trim consecutive items without any more children from end of stack
 	var j int
-	for j = len(i.stack) - 1; j > 0; j-- {
+	for j = len(i.stack) - 1; j >= 0; j-- {
 		if i.stack[j].more {
 			break
 		}
 	}
 	i.stack = i.stack[:j+1]
+	if len(i.stack) == 0 {
+		// there is nothing left to resume at
+		i.done = true
+		return
+	}
 
 	// traverse stack from start to end to build the partial key we should continue from
 	i.resumeAt = i.resumeAt[:0]
-- 
2.43.0


From af067e58709a81e1beaeb41a44d29ce8e05d3f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:09 +0000
Subject: [PATCH 16/24] fix: resume an iteration correctly when the tree has
 changed since the last batch

---
 iterator.go | 82 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 61 insertions(+), 21 deletions(-)

diff --git a/iterator.go b/iterator.go
index 7baeb72..ba4a5fa 100644
--- a/iterator.go
+++ b/iterator.go
@@ -1,6 +1,7 @@
 package radix
 
 import (
+	"bytes"
 	"sync"
 	"sync/atomic"
 )
@@ -28,6 +29,8 @@ type Iterator struct {
 	pp           int
 	searchPrefix []byte
 	resumeAt     []byte
+	prefix       []byte
+	depth        int // number of bytes of searchPrefix located above the node we search from
 	done         bool
 }
 
@@ -70,8 +73,9 @@ func (i *Iterator) Next() bool {
 
 	// 2. seek to start
 	var raw uint64
+	i.depth = 0
 	if len(i.searchPrefix) > 0 {
-		raw, _ = i.idx.partialSearch(i.searchPrefix)
+		raw, i.depth = i.idx.partialSearch(i.searchPrefix)
 	} else {
 		raw = atomic.LoadUint64(&i.idx.root)
 	}
@@ -84,29 +88,40 @@ func (i *Iterator) Next() bool {
 	if isLeaf(raw) {
 		alloc.endOp()
 		i.idx.ReleaseAllocator(alloc)
+		i.done = true
+		if len(i.resumeAt) > 0 && i.returned(raw) {
+			return false
+		}
+		i.prefetched = i.prefetched[:0]
 		i.pp = 0
 		i.value = getLeafValue(raw)
-		i.done = true
 		return true
 	}
 
 	// 3. seek to the partial key where we last left of, while building stack
 	// we traverse i.resumeAt to reposition raw & nextChild
+	// the tree might have changed since then, so we position on the first item not before i.resumeAt
 	nextChild := 0
 preSearchLoop:
-	for k := 0; k < len(i.resumeAt); k++ {
+	for k := i.depth; k < len(i.resumeAt); k++ {
 		_, node, count, prefixLen := explodeNode(raw)
 		data := i.idx.getNodeData(node)
 		if prefixLen > 0 {
 			var prefixSlots int
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = ((prefixLen + 15) >> 3)
-			} else {
-				prefixSlots = ((prefixLen + 7) >> 3)
-			}
+			i.prefix, prefixSlots = appendPrefix(i.prefix[:0], data, prefixLen)
 			data = data[prefixSlots:]
-			k += prefixLen
+			rest := i.resumeAt[k:]
+			if len(rest) > len(i.prefix) {
+				rest = rest[:len(i.prefix)]
+			}
+			if c := bytes.Compare(i.prefix[:len(rest)], rest); c != 0 {
+				if c < 0 {
+					// the whole node is located before i.resumeAt
+					nextChild = count
+				}
+				break preSearchLoop
+			}
+			k += len(i.prefix)
 			if k >= len(i.resumeAt) {
 				break preSearchLoop
 			}
@@ -115,10 +130,13 @@ preSearchLoop:
 		char := i.resumeAt[k]
 		if count >= fullAllocFrom {
 			// check a fixed size node-256
+			nextChild = int(char)
 			a := atomic.LoadUint64(&data[int(char)])
 			if a != 0 && byte(a) == char {
 				if isLeaf(a) {
-					nextChild = int(char)
+					if k < len(i.resumeAt)-1 && i.returned(a) {
+						nextChild++
+					}
 					break preSearchLoop
 				}
 				// child node found
@@ -132,29 +150,35 @@ preSearchLoop:
 				// go down into this node, saving the current position on the stack
 				i.stack = append(i.stack, position{raw, next, next < count})
 				raw = a
+				nextChild = 0
 				continue preSearchLoop
 			}
 			// if no node was found, it means that this subtree might have been deleted since last iteration
-			// what are our options in this case ?
+			// we continue with the next child
 			break preSearchLoop
 		} else {
 			// scan a variable sized node
 			for l := range data[:count] {
 				a := atomic.LoadUint64(&data[l])
-				if byte(a) == char {
-					if isLeaf(a) {
-						nextChild = l
-						break preSearchLoop
-					}
+				if byte(a) == char && !isLeaf(a) {
 					// go down into this node, saving the current position on the stack
 					i.stack = append(i.stack, position{raw, l + 1, l+1 < count})
 					raw = a
+					nextChild = 0
 					continue preSearchLoop
 				}
+				if byte(a) >= char {
+					nextChild = l
+					if byte(a) == char && k < len(i.resumeAt)-1 && i.returned(a) {
+						nextChild++
+					}
+					break preSearchLoop
+				}
 			}
 			// if no node was found, it means that this subtree might have been deleted since last iteration
-			// what are our options in this case ?
-			break
+			// there are no more children in this node
+			nextChild = count
+			break preSearchLoop
 		}
 	}
 
@@ -230,6 +254,17 @@ searchLoop:
 	return false
 }
 
+// returned reports if the leaf was part of the last batch. It is used when all of a subtree we were about to resume in,
+// except for one item, has been deleted: the remaining item might be one we have already returned.
+func (i *Iterator) returned(leaf uint64) bool {
+	for _, v := range i.prefetched {
+		if v == getLeafValue(leaf) {
+			return true
+		}
+	}
+	return false
+}
+
 func (i *Iterator) storeResumePosition() {
 	// first trim consecutive items without any more children from end of stack
 	var j int
@@ -246,9 +281,9 @@ func (i *Iterator) storeResumePosition() {
 	}
 
 	// traverse stack from start to end to build the partial key we should continue from
-	i.resumeAt = i.resumeAt[:0]
+	i.resumeAt = append(i.resumeAt[:0], i.searchPrefix[:i.depth]...)
 	for j, pos := range i.stack {
-		key, node, _, prefixLen := explodeNode(pos.node)
+		key, node, count, prefixLen := explodeNode(pos.node)
 		data := i.idx.getNodeData(node)
 		if j > 0 {
 			i.resumeAt = append(i.resumeAt, key)
@@ -259,6 +294,11 @@ func (i *Iterator) storeResumePosition() {
 		}
 		// for the last stack item, we need to add the nextChild too
 		if j == len(i.stack)-1 {
+			if count >= fullAllocFrom {
+				// the child might have been deleted since we found it
+				i.resumeAt = append(i.resumeAt, byte(pos.k))
+				break
+			}
 			a := atomic.LoadUint64(&data[prefixSlots+pos.k])
 			i.resumeAt = append(i.resumeAt, byte(a))
 		}
-- 
2.43.0


From ff45cb22e8a8e0fbbb5ce728c50234a89e36967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 17/24] fix: reserve the epoch while searching for the minimum
 or maximum

---
 radix.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/radix.go b/radix.go
index 8b285e4..b372bda 100644
--- a/radix.go
+++ b/radix.go
@@ -417,6 +417,10 @@ searchLoop:
 // For example, if we store temperature readings using the key "temp_TIMESTAMP" where timestamp is an 8 byte BigEndian ns timestamp
 // MaxKey([]byte("temp_")) returns the last made reading.
 func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
+	alloc := idx.GetAllocator()
+	defer idx.ReleaseAllocator(alloc)
+	alloc.startOp()
+	defer alloc.endOp()
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
 		return 0, false
@@ -469,6 +473,10 @@ searchLoop:
 // Minimum means the first key in the lexicographic order. If keys are uint64 in BigEndian it is also the smallest number.
 // If ok is false the index is empty.
 func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
+	alloc := idx.GetAllocator()
+	defer idx.ReleaseAllocator(alloc)
+	alloc.startOp()
+	defer alloc.endOp()
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
 		return 0, false
-- 
2.43.0


From 807469fa0fddbbfd375157d41a75c6cf2fdb21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 18/24] fix: find the minimum and maximum even if a node-256
 has been emptied

---
 radix.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/radix.go b/radix.go
index b372bda..47c853d 100644
--- a/radix.go
+++ b/radix.go
@@ -429,6 +429,7 @@ func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
 		return getLeafValue(raw), true
 	}
 	// now find the max
+	top := raw
 searchLoop:
 	for {
 		_, node, count, prefixLen := explodeNode(raw)
@@ -457,8 +458,8 @@ searchLoop:
 					continue searchLoop
 				}
 			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
-			return 0, false
+			// all children in the node have been deleted (we currently don't shrink node-256), go back in the tree
+			return idx.lastLeaf(top)
 		}
 		// load the last child (since they are ordered)
 		a := atomic.LoadUint64(&data[count-1])
@@ -485,6 +486,7 @@ func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
 		return getLeafValue(raw), true
 	}
 	// now find the min
+	top := raw
 searchLoop:
 	for {
 		_, node, count, prefixLen := explodeNode(raw)
@@ -513,8 +515,8 @@ searchLoop:
 					continue searchLoop
 				}
 			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
-			return 0, false
+			// all children in the node have been deleted (we currently don't shrink node-256), go back in the tree
+			return idx.firstLeaf(top)
 		}
 		// load first child (since they are ordered)
 		a := atomic.LoadUint64(&data[0])
@@ -525,6 +527,34 @@ searchLoop:
 	}
 }
 
+// firstLeaf returns the value of the first leaf below raw, skipping nodes without any leaves.
+func (idx *Tree) firstLeaf(raw uint64) (v uint64, ok bool) {
+	if isLeaf(raw) {
+		return getLeafValue(raw), true
+	}
+	count, _, data := idx.getNodeFromRaw(raw)
+	for k := 0; k < count && !ok; k++ {
+		if a := atomic.LoadUint64(&data[k]); a != 0 {
+			v, ok = idx.firstLeaf(a)
+		}
+	}
+	return
+}
+
+// lastLeaf returns the value of the last leaf below raw, skipping nodes without any leaves.
+func (idx *Tree) lastLeaf(raw uint64) (v uint64, ok bool) {
+	if isLeaf(raw) {
+		return getLeafValue(raw), true
+	}
+	count, _, data := idx.getNodeFromRaw(raw)
+	for k := count - 1; k >= 0 && !ok; k-- {
+		if a := atomic.LoadUint64(&data[k]); a != 0 {
+			v, ok = idx.lastLeaf(a)
+		}
+	}
+	return
+}
+
 // NewIterator returns an Iterator for iterating in order over all keys having the given prefix, or the complete index if searchPrefix is nil.
 func (idx *Tree) NewIterator(searchPrefix []byte) *Iterator {
 	return NewIterator(idx, searchPrefix)
-- 
2.43.0


From d2a696d4d299def4b8bd280b9d8d45e358b062cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 19/24] fix: do not panic on an invalid node id in Admin

---
 admin.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/admin.go b/admin.go
index baca7ef..a6ccb1c 100644
--- a/admin.go
+++ b/admin.go
@@ -72,8 +72,13 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 			fmt.Fprint(out, "usage: node <id>\n")
 			return
 		}
-		node, _ := strconv.Atoi(argv[1])
-		idx.debugPrintNode(out, uint64(node))
+		node, err := strconv.ParseUint(argv[1], 10, 64)
+		// only look into memory blocks already handed out
+		if err != nil || !isLeaf(node) && getNodeValue(node)>>blockSlotsShift >= atomic.LoadUint64(&idx.nextFreeBlock) {
+			fmt.Fprint(out, "Invalid node\n")
+			return
+		}
+		idx.debugPrintNode(out, node)
 
 	default:
 		fmt.Fprintf(out, "Unknown command '%s'\n", argv[0])
@@ -91,13 +96,25 @@ func (idx *Tree) debugPrintNode(out io.Writer, node uint64) {
 	block := value >> blockSlotsShift
 	offset := value & blockSlotsOffsetMask
 
-	if int(block) > len(idx.blocks) || int(offset) > len(idx.blocks[block].data) {
+	if block >= uint64(len(idx.blocks)) || idx.blocks[block] == nil {
 		fmt.Fprintf(out, "Invalid node\n")
 		return
 	}
 
 	data := idx.blocks[block].data[offset:]
 
+	slots := uint64(prefixLen+7) >> 3
+	if prefixLen == 255 {
+		slots = 1 + data[0]>>3
+		if data[0]&7 != 0 {
+			slots++
+		}
+	}
+	if slots+uint64(count) > uint64(len(data)) {
+		fmt.Fprintf(out, "Invalid node\n")
+		return
+	}
+
 	fmt.Fprintf(out, "NODE %d (%064b): key=%s, data=%d, count=%d, prefixLen=%d\n", node, node, printableChar(key), value, count, prefixLen)
 
 	var prefix []byte
-- 
2.43.0


From dc97a95575419e1b3d7350bffe91b34cdd9643f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 20/24] fix: do not list the empty slots of a node-256 in Admin

---
 admin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/admin.go b/admin.go
index a6ccb1c..86798fb 100644
--- a/admin.go
+++ b/admin.go
@@ -128,7 +128,7 @@ func (idx *Tree) debugPrintNode(out io.Writer, node uint64) {
 		a := atomic.LoadUint64(&data[i])
 		if isLeaf(a) {
 			debugPrintLeaf(out, a)
-		} else {
+		} else if a != 0 {
 			key, value, count, prefixLen := explodeNode(a)
 			fmt.Fprintf(out, "[%s] NODE: 0x%016x %d (data=%d, count=%d, prefixLen=%d)\n", printableChar(key), a, a, value, count, prefixLen)
 		}
-- 
2.43.0


From d3f3827cb4c90ec6fc0c665af935a62c8dc5c4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:07 +0000
Subject: [PATCH 21/24] fix: unlock a merged node before its child, even if the
 child shares a lock with the parent

---
 locks.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/locks.go b/locks.go
index 9e44618..ad2431a 100644
--- a/locks.go
+++ b/locks.go
@@ -103,18 +103,19 @@ func (idx *Tree) unlockNodes3(child, node, parent uint64) {
 		idx.unlockNodes2(child, node)
 		return
 	}
-	// unlock from top to bottom
-	block := parent >> blockSlotsShift
-	lock := parent & lockOffsetMask
+	// node must be unlocked before child, even when child and parent share a lock: a writer who passed through node while
+	// it was locked relies on the generation of node to notice that child has been detached
+	block := node >> blockSlotsShift
+	lock := node & lockOffsetMask
 	if atomic.AddInt32(&idx.blocks[block].locks[lock], 1)&1 != 0 {
-		panic("Unlock of unlocked parent")
+		panic("Unlock of unlocked node")
 	}
-	block2 := node >> blockSlotsShift
-	lock2 := node & lockOffsetMask
+	block2 := parent >> blockSlotsShift
+	lock2 := parent & lockOffsetMask
 	lock2Unique := lock2 != lock || block2 != block
 	if lock2Unique {
 		if atomic.AddInt32(&idx.blocks[block2].locks[lock2], 1)&1 != 0 {
-			panic("Unlock of unlocked node")
+			panic("Unlock of unlocked parent")
 		}
 	}
 	block3 := child >> blockSlotsShift
-- 
2.43.0


From 078bd678934906940bc37b685db2e3e788aa5e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:09 +0000
Subject: [PATCH 22/24] fix: describing an update operation prepared at the
 root must not panic

---
 update.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/update.go b/update.go
index 70680de..b87be8b 100644
--- a/update.go
+++ b/update.go
@@ -101,6 +101,7 @@ func (op *UpdateOperation) prepareUpdate(key []byte) (found bool) {
 	op.Match = false
 	op.Value = 0
 	op.FetchedKey = op.FetchedKey[:0]
+	op.depth = 0
 	op.allocator.startOp()
 S:
 	root := atomic.LoadUint64(&op.idx.root)
-- 
2.43.0


From bbf930fde71bc3656337ba0aa5cc027ba29f50a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:10 +0000
Subject: [PATCH 23/24] fix: reporting a node in Admin must not panic when it
 is reused meanwhile

---
 admin.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/admin.go b/admin.go
index 86798fb..2a992a2 100644
--- a/admin.go
+++ b/admin.go
@@ -103,10 +103,12 @@ func (idx *Tree) debugPrintNode(out io.Writer, node uint64) {
 
 	data := idx.blocks[block].data[offset:]
 
-	slots := uint64(prefixLen+7) >> 3
+	// the node might be recycled and reused while we print it, so the length of a long prefix is only read once
+	start, slots, length := uint64(0), uint64(prefixLen+7)>>3, uint64(prefixLen)
 	if prefixLen == 255 {
-		slots = 1 + data[0]>>3
-		if data[0]&7 != 0 {
+		length = data[0]
+		start, slots = 1, 1+length>>3
+		if length&7 != 0 {
 			slots++
 		}
 	}
@@ -117,9 +119,11 @@ func (idx *Tree) debugPrintNode(out io.Writer, node uint64) {
 
 	fmt.Fprintf(out, "NODE %d (%064b): key=%s, data=%d, count=%d, prefixLen=%d\n", node, node, printableChar(key), value, count, prefixLen)
 
-	var prefix []byte
 	if prefixLen > 0 {
-		prefix, slots := appendPrefix(prefix, data, prefixLen)
+		var prefix []byte
+		if length > 0 {
+			prefix = append(prefix, byteSliceFromUint64(data[start:slots])[:length]...)
+		}
 		fmt.Fprintf(out, "Prefix: %s\n", prefix)
 		data = data[slots:]
 	}
-- 
2.43.0


From 31630a637fa82b83bf823208babb50d2e9b4fda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:42 +0000
Subject: [PATCH 24/24] fix: make room for a node whose prefix does not fit
 into a memory block

Keys may have any length, but a node that shares a prefix longer than a block (2 MB) between its children was written
past the end of its block.
---
 allocator.go |  4 ++++
 state.go     | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/allocator.go b/allocator.go
index 1363a11..e1204d0 100644
--- a/allocator.go
+++ b/allocator.go
@@ -252,6 +252,10 @@ func (a *Allocator) allocateNode(slots int) (n uint64) {
 		n = a.offset >> 3
 		a.nextFree = uint64(slots) * 8
 		a.empty = false
+		if a.nextFree >= blockSize {
+			// a node with a very long prefix does not fit into a block, so make room for it
+			a.idx.blocks[a.block].data = make([]uint64, slots+1)
+		}
 	}
 	//a.slotsAllocated += uint64(slots)
 	return
diff --git a/state.go b/state.go
index 61c36ee..2061e2d 100644
--- a/state.go
+++ b/state.go
@@ -215,8 +215,16 @@ func (idx *Tree) loadState(data io.Reader) error {
 				return err
 			}
 
+			// a block is larger than usual if it holds a node with a very long prefix
+			length, err := snappy.DecodedLen(readBuf)
+			if err != nil {
+				return fmt.Errorf("Corrupted index state file? Decompressing data block failed : %w", err)
+			}
+			if length < blockSize {
+				length = blockSize
+			}
 			idx.blocks[nextBlock] = &nodeBlock{
-				data: make([]uint64, blockSize>>3),
+				data: make([]uint64, (length+7)>>3),
 			}
 
 			dst := byteSliceFromUint64(idx.blocks[nextBlock].data)
-- 
2.43.0

