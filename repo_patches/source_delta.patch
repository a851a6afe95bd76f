From c31c973a0a46c062c0fd3438358c88cfc2ea5eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:40 +0000
Subject: [PATCH 01/62] fix: stl queue loses data when a full ring buffer has
 to grow

---
 stl/gp/queue.gp     | 16 ++++++++--------
 stl/gp/queue.gp.go  | 16 ++++++++--------
 stl/queue.gp_int.go | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/stl/gp/queue.gp b/stl/gp/queue.gp
index 23094be..81d9359 100644
--- a/stl/gp/queue.gp
+++ b/stl/gp/queue.gp
@@ -78,14 +78,14 @@ func (this *<GLOBAL_NAME_PREFIX>Queue) Push(v <VALUE_TYPE>) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
diff --git a/stl/gp/queue.gp.go b/stl/gp/queue.gp.go
index 1a4fc92..b95af18 100644
--- a/stl/gp/queue.gp.go
+++ b/stl/gp/queue.gp.go
@@ -175,14 +175,14 @@ func (this *GOGPGlobalNamePrefixQueue) Push(v GOGPValueType) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
diff --git a/stl/queue.gp_int.go b/stl/queue.gp_int.go
index 6e1c95e..84fe823 100644
--- a/stl/queue.gp_int.go
+++ b/stl/queue.gp_int.go
@@ -72,14 +72,14 @@ func (this *IntQueue) Push(v int) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
-- 
2.43.0


From 64b1ac01d811dea6e90d7f4a2bb402337680c98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:40 +0000
Subject: [PATCH 02/62] fix: stl queue Shrink drops elements and never reports
 success

---
 stl/gp/queue.gp     | 6 +++---
 stl/gp/queue.gp.go  | 6 +++---
 stl/queue.gp_int.go | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/stl/gp/queue.gp b/stl/gp/queue.gp
index 81d9359..9caef41 100644
--- a/stl/gp/queue.gp
+++ b/stl/gp/queue.gp
@@ -126,16 +126,16 @@ func (this *<GLOBAL_NAME_PREFIX>Queue) Back() (back <VALUE_TYPE>, ok bool) {
 func (this *<GLOBAL_NAME_PREFIX>Queue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/queue.gp.go b/stl/gp/queue.gp.go
index b95af18..89860a2 100644
--- a/stl/gp/queue.gp.go
+++ b/stl/gp/queue.gp.go
@@ -223,16 +223,16 @@ func (this *GOGPGlobalNamePrefixQueue) Back() (back GOGPValueType, ok bool) {
 func (this *GOGPGlobalNamePrefixQueue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/queue.gp_int.go b/stl/queue.gp_int.go
index 84fe823..514955b 100644
--- a/stl/queue.gp_int.go
+++ b/stl/queue.gp_int.go
@@ -120,16 +120,16 @@ func (this *IntQueue) Back() (back int, ok bool) {
 func (this *IntQueue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
-- 
2.43.0


From b4075c23e83a3604522b13d8ac633f442d4b68ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:40 +0000
Subject: [PATCH 03/62] fix: stl deque overwrites its elements when a wrapped
 buffer is copied

---
 stl/deque.gp_int.go | 8 ++++----
 stl/gp/deque.gp     | 8 ++++----
 stl/gp/deque.gp.go  | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/stl/deque.gp_int.go b/stl/deque.gp_int.go
index 92f337f..79389a7 100644
--- a/stl/deque.gp_int.go
+++ b/stl/deque.gp_int.go
@@ -81,7 +81,7 @@ func (this *IntDeque) PushFront(v int) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -101,7 +101,7 @@ func (this *IntDeque) PushBack(v int) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -147,7 +147,7 @@ func (this *IntDeque) Back() (back int, ok bool) {
 func (this *IntDeque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
@@ -156,7 +156,7 @@ func (this *IntDeque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/deque.gp b/stl/gp/deque.gp
index eddd2c8..0296e60 100644
--- a/stl/gp/deque.gp
+++ b/stl/gp/deque.gp
@@ -85,7 +85,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) PushFront(v <VALUE_TYPE>) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -105,7 +105,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) PushBack(v <VALUE_TYPE>) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -151,7 +151,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) Back() (back <VALUE_TYPE>, ok bool) {
 func (this *<GLOBAL_NAME_PREFIX>Deque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
@@ -160,7 +160,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/deque.gp.go b/stl/gp/deque.gp.go
index e1b76af..c0434be 100644
--- a/stl/gp/deque.gp.go
+++ b/stl/gp/deque.gp.go
@@ -85,7 +85,7 @@ func (this *GOGPGlobalNamePrefixDeque) PushFront(v GOGPValueType) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -105,7 +105,7 @@ func (this *GOGPGlobalNamePrefixDeque) PushBack(v GOGPValueType) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -151,7 +151,7 @@ func (this *GOGPGlobalNamePrefixDeque) Back() (back GOGPValueType, ok bool) {
 func (this *GOGPGlobalNamePrefixDeque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
@@ -160,7 +160,7 @@ func (this *GOGPGlobalNamePrefixDeque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
-- 
2.43.0


From 09e7de133a23963ce23eac9c7e1e2dedd9ef24bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:01 +0000
Subject: [PATCH 04/62] fix: stl sort slice Insert overwrites the element at
 the insert position

---
 fs/sort_slice.gp_#filehashtreenodef199.go | 6 +++---
 stl/gp/sort_slice.gp                      | 6 +++---
 stl/gp/sort_slice.gp.go                   | 6 +++---
 stl/sort_slice.gp_#inttreenodeb60b.go     | 6 +++---
 stl/sort_slice.gp_int.go                  | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/fs/sort_slice.gp_#filehashtreenodef199.go b/fs/sort_slice.gp_#filehashtreenodef199.go
index 2c83af8..0b34498 100644
--- a/fs/sort_slice.gp_#filehashtreenodef199.go
+++ b/fs/sort_slice.gp_#filehashtreenodef199.go
@@ -70,9 +70,9 @@ func (this *FileHashSortSlice) Push(v *FileHashTreeNode) int {
 //insert
 func (this *FileHashSortSlice) Insert(v *FileHashTreeNode, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/gp/sort_slice.gp b/stl/gp/sort_slice.gp
index 35e2942..1601ae9 100644
--- a/stl/gp/sort_slice.gp
+++ b/stl/gp/sort_slice.gp
@@ -76,9 +76,9 @@ func (this *<GLOBAL_NAME_PREFIX>SortSlice) Push(v <VALUE_TYPE>) int {
 //insert
 func (this *<GLOBAL_NAME_PREFIX>SortSlice) Insert(v <VALUE_TYPE>, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/gp/sort_slice.gp.go b/stl/gp/sort_slice.gp.go
index ac6a660..d0c1010 100644
--- a/stl/gp/sort_slice.gp.go
+++ b/stl/gp/sort_slice.gp.go
@@ -173,9 +173,9 @@ func (this *GOGPGlobalNamePrefixSortSlice) Push(v GOGPValueType) int {
 //insert
 func (this *GOGPGlobalNamePrefixSortSlice) Insert(v GOGPValueType, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/sort_slice.gp_#inttreenodeb60b.go b/stl/sort_slice.gp_#inttreenodeb60b.go
index 8700512..2318223 100644
--- a/stl/sort_slice.gp_#inttreenodeb60b.go
+++ b/stl/sort_slice.gp_#inttreenodeb60b.go
@@ -70,9 +70,9 @@ func (this *IntTreeNodeSortSlice) Push(v *IntTreeNode) int {
 //insert
 func (this *IntTreeNodeSortSlice) Insert(v *IntTreeNode, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/sort_slice.gp_int.go b/stl/sort_slice.gp_int.go
index 65e0f3c..c7e8bb2 100644
--- a/stl/sort_slice.gp_int.go
+++ b/stl/sort_slice.gp_int.go
@@ -70,9 +70,9 @@ func (this *IntSortSlice) Push(v int) int {
 //insert
 func (this *IntSortSlice) Insert(v int, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
-- 
2.43.0


From a42ed7657ad5b1cad1b862803cf9c7c0e930198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:01 +0000
Subject: [PATCH 05/62] fix: stl sort slice Pop panics on an empty slice

---
 fs/sort_slice.gp_#filehashtreenodef199.go | 2 +-
 stl/gp/sort_slice.gp                      | 2 +-
 stl/gp/sort_slice.gp.go                   | 2 +-
 stl/sort_slice.gp_#inttreenodeb60b.go     | 2 +-
 stl/sort_slice.gp_int.go                  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/fs/sort_slice.gp_#filehashtreenodef199.go b/fs/sort_slice.gp_#filehashtreenodef199.go
index 0b34498..5f81b1e 100644
--- a/fs/sort_slice.gp_#filehashtreenodef199.go
+++ b/fs/sort_slice.gp_#filehashtreenodef199.go
@@ -92,8 +92,8 @@ func (this *FileHashSortSlice) Remove(idx int) (r *FileHashTreeNode, ok bool) {
 func (this *FileHashSortSlice) Pop() (r *FileHashTreeNode, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/gp/sort_slice.gp b/stl/gp/sort_slice.gp
index 1601ae9..caf9a03 100644
--- a/stl/gp/sort_slice.gp
+++ b/stl/gp/sort_slice.gp
@@ -98,8 +98,8 @@ func (this *<GLOBAL_NAME_PREFIX>SortSlice) Remove(idx int) (r <VALUE_TYPE>, ok b
 func (this *<GLOBAL_NAME_PREFIX>SortSlice) Pop() (r <VALUE_TYPE>, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/gp/sort_slice.gp.go b/stl/gp/sort_slice.gp.go
index d0c1010..dc608e2 100644
--- a/stl/gp/sort_slice.gp.go
+++ b/stl/gp/sort_slice.gp.go
@@ -195,8 +195,8 @@ func (this *GOGPGlobalNamePrefixSortSlice) Remove(idx int) (r GOGPValueType, ok
 func (this *GOGPGlobalNamePrefixSortSlice) Pop() (r GOGPValueType, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/sort_slice.gp_#inttreenodeb60b.go b/stl/sort_slice.gp_#inttreenodeb60b.go
index 2318223..95d20e4 100644
--- a/stl/sort_slice.gp_#inttreenodeb60b.go
+++ b/stl/sort_slice.gp_#inttreenodeb60b.go
@@ -92,8 +92,8 @@ func (this *IntTreeNodeSortSlice) Remove(idx int) (r *IntTreeNode, ok bool) {
 func (this *IntTreeNodeSortSlice) Pop() (r *IntTreeNode, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/sort_slice.gp_int.go b/stl/sort_slice.gp_int.go
index c7e8bb2..d6b02bb 100644
--- a/stl/sort_slice.gp_int.go
+++ b/stl/sort_slice.gp_int.go
@@ -92,8 +92,8 @@ func (this *IntSortSlice) Remove(idx int) (r int, ok bool) {
 func (this *IntSortSlice) Pop() (r int, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
-- 
2.43.0


From b4321baa4e01b5c92b36b6ac8735c9eff3d6549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:01 +0000
Subject: [PATCH 06/62] fix: stl heap Reverse panics on an empty slice

---
 stl/gp/heap.gp     | 2 +-
 stl/gp/heap.gp.go  | 2 +-
 stl/heap.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/heap.gp b/stl/gp/heap.gp
index b98a3d5..a7fc6ee 100644
--- a/stl/gp/heap.gp
+++ b/stl/gp/heap.gp
@@ -140,7 +140,7 @@ func (this *<GLOBAL_NAME_PREFIX>Heap) MakeHeap(b []<VALUE_TYPE>) {
 //reverse order of b
 func (this *<GLOBAL_NAME_PREFIX>Heap) Reverse(b []<VALUE_TYPE>) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := len(b)/2 - 1; i >= 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
diff --git a/stl/gp/heap.gp.go b/stl/gp/heap.gp.go
index 90dd76d..326b88d 100644
--- a/stl/gp/heap.gp.go
+++ b/stl/gp/heap.gp.go
@@ -237,7 +237,7 @@ func (this *GOGPGlobalNamePrefixHeap) MakeHeap(b []GOGPValueType) {
 //reverse order of b
 func (this *GOGPGlobalNamePrefixHeap) Reverse(b []GOGPValueType) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := len(b)/2 - 1; i >= 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
diff --git a/stl/heap.gp_int.go b/stl/heap.gp_int.go
index 92eff7a..4a25c05 100644
--- a/stl/heap.gp_int.go
+++ b/stl/heap.gp_int.go
@@ -123,7 +123,7 @@ func (this *IntHeap) MakeHeap(b []int) {
 //reverse order of b
 func (this *IntHeap) Reverse(b []int) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := len(b)/2 - 1; i >= 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
-- 
2.43.0


From ec8775b8e6df60bc2ef1dcd40d760783e740c9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:42 +0000
Subject: [PATCH 07/62] fix: stl list InsertFrontList puts only one node in
 front

---
 stl/gp/list.gp     | 6 +++---
 stl/gp/list.gp.go  | 6 +++---
 stl/list.gp_int.go | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index d6f28f6..00ff6ea 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -191,9 +191,9 @@ func (this *<GLOBAL_NAME_PREFIX>List) PopBack() (v <VALUE_TYPE>, ok bool) {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) InsertFrontList(other *<GLOBAL_NAME_PREFIX>List) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index ca7275a..b501dd4 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -288,9 +288,9 @@ func (this *GOGPGlobalNamePrefixList) PopBack() (v GOGPValueType, ok bool) {
 }
 
 func (this *GOGPGlobalNamePrefixList) InsertFrontList(other *GOGPGlobalNamePrefixList) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 7009afe..d176fa7 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -185,9 +185,9 @@ func (this *IntList) PopBack() (v int, ok bool) {
 }
 
 func (this *IntList) InsertFrontList(other *IntList) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
-- 
2.43.0


From bda55c8d628d992683928dfecd0f3cad590ee1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:42 +0000
Subject: [PATCH 08/62] fix: stl list InsertAfter does not link the following
 node back

---
 stl/gp/list.gp     | 3 ++-
 stl/gp/list.gp.go  | 3 ++-
 stl/list.gp_int.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 00ff6ea..87e71c8 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -244,9 +244,10 @@ func (this *<GLOBAL_NAME_PREFIX>List) InsertBefore(node, mark *<GLOBAL_NAME_PREF
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) InsertAfter(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (n *<GLOBAL_NAME_PREFIX>ListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index b501dd4..c123621 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -341,9 +341,10 @@ func (this *GOGPGlobalNamePrefixList) InsertBefore(node, mark *GOGPGlobalNamePre
 }
 
 func (this *GOGPGlobalNamePrefixList) InsertAfter(node, mark *GOGPGlobalNamePrefixListNode) (n *GOGPGlobalNamePrefixListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index d176fa7..b624eb2 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -238,9 +238,10 @@ func (this *IntList) InsertBefore(node, mark *IntListNode) (n *IntListNode) {
 }
 
 func (this *IntList) InsertAfter(node, mark *IntListNode) (n *IntListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
-- 
2.43.0


From 610640ebc25e19eb73483747948e84554c71725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:42 +0000
Subject: [PATCH 09/62] fix: stl list Reachable and IsValidNode only recognise
 the start node

---
 stl/gp/list.gp     | 2 +-
 stl/gp/list.gp.go  | 2 +-
 stl/list.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 87e71c8..ce695c1 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -278,7 +278,7 @@ func (this *<GLOBAL_NAME_PREFIX>List) Remove(node *<GLOBAL_NAME_PREFIX>ListNode)
 
 func (this *<GLOBAL_NAME_PREFIX>List) Reachable(node, dest *<GLOBAL_NAME_PREFIX>ListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index c123621..3d85243 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -375,7 +375,7 @@ func (this *GOGPGlobalNamePrefixList) Remove(node *GOGPGlobalNamePrefixListNode)
 
 func (this *GOGPGlobalNamePrefixList) Reachable(node, dest *GOGPGlobalNamePrefixListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index b624eb2..a41d8bf 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -272,7 +272,7 @@ func (this *IntList) Remove(node *IntListNode) (n *IntListNode) {
 
 func (this *IntList) Reachable(node, dest *IntListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
-- 
2.43.0


From 95b559208e01ce14785403f9279d6df1f14f5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:42 +0000
Subject: [PATCH 10/62] fix: stl list MoveBack and MoveFront of the first node
 corrupt the list

---
 stl/gp/list.gp     | 18 +++++++++++-------
 stl/gp/list.gp.go  | 18 +++++++++++-------
 stl/list.gp_int.go | 18 +++++++++++-------
 3 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index ce695c1..349ea09 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -299,13 +299,17 @@ func (this *<GLOBAL_NAME_PREFIX>List) MoveFront(node *<GLOBAL_NAME_PREFIX>ListNo
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveBack(node *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
-		node.next.prev = node.prev
-		node.prev.next = node.next
-		node.next = this.head
-		node.prev = this.head.prev
-		this.head.prev.next = node
-		this.head.prev = node
+	if node != nil && node.next != nil && node.prev != nil && node.next != node {
+		if node == this.head {
+			this.RotateForward()
+		} else {
+			node.next.prev = node.prev
+			node.prev.next = node.next
+			node.next = this.head
+			node.prev = this.head.prev
+			this.head.prev.next = node
+			this.head.prev = node
+		}
 		r = node
 	}
 	return
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 3d85243..3b18940 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -396,13 +396,17 @@ func (this *GOGPGlobalNamePrefixList) MoveFront(node *GOGPGlobalNamePrefixListNo
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveBack(node *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
-		node.next.prev = node.prev
-		node.prev.next = node.next
-		node.next = this.head
-		node.prev = this.head.prev
-		this.head.prev.next = node
-		this.head.prev = node
+	if node != nil && node.next != nil && node.prev != nil && node.next != node {
+		if node == this.head {
+			this.RotateForward()
+		} else {
+			node.next.prev = node.prev
+			node.prev.next = node.next
+			node.next = this.head
+			node.prev = this.head.prev
+			this.head.prev.next = node
+			this.head.prev = node
+		}
 		r = node
 	}
 	return
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index a41d8bf..9bf6c5e 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -293,13 +293,17 @@ func (this *IntList) MoveFront(node *IntListNode) (r *IntListNode) {
 }
 
 func (this *IntList) MoveBack(node *IntListNode) (r *IntListNode) {
-	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
-		node.next.prev = node.prev
-		node.prev.next = node.next
-		node.next = this.head
-		node.prev = this.head.prev
-		this.head.prev.next = node
-		this.head.prev = node
+	if node != nil && node.next != nil && node.prev != nil && node.next != node {
+		if node == this.head {
+			this.RotateForward()
+		} else {
+			node.next.prev = node.prev
+			node.prev.next = node.next
+			node.next = this.head
+			node.prev = this.head.prev
+			this.head.prev.next = node
+			this.head.prev = node
+		}
 		r = node
 	}
 	return
-- 
2.43.0


From 0ef7e18048dabcd9d35aa5be0daf3d2b4383af01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:42 +0000
Subject: [PATCH 11/62] fix: stl list MoveBefore ignores a move to the front of
 the list

---
 stl/gp/list.gp     | 7 ++-----
 stl/gp/list.gp.go  | 7 ++-----
 stl/list.gp_int.go | 7 ++-----
 3 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 349ea09..5a9f322 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -316,12 +316,9 @@ func (this *<GLOBAL_NAME_PREFIX>List) MoveBack(node *<GLOBAL_NAME_PREFIX>ListNod
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveBefore(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
-			node.next = mark.prev.next
-			node.prev = mark.prev
-			mark.prev.next = node
-			mark.prev = node
+			this.InsertBefore(node, mark)
 		}
 	}
 	return
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 3b18940..59cbfff 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -413,12 +413,9 @@ func (this *GOGPGlobalNamePrefixList) MoveBack(node *GOGPGlobalNamePrefixListNod
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveBefore(node, mark *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
-			node.next = mark.prev.next
-			node.prev = mark.prev
-			mark.prev.next = node
-			mark.prev = node
+			this.InsertBefore(node, mark)
 		}
 	}
 	return
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 9bf6c5e..8d9e568 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -310,12 +310,9 @@ func (this *IntList) MoveBack(node *IntListNode) (r *IntListNode) {
 }
 
 func (this *IntList) MoveBefore(node, mark *IntListNode) (r *IntListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
-			node.next = mark.prev.next
-			node.prev = mark.prev
-			mark.prev.next = node
-			mark.prev = node
+			this.InsertBefore(node, mark)
 		}
 	}
 	return
-- 
2.43.0


From 782d962f3f35aa7fa7079488efe2471d0f232187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:42 +0000
Subject: [PATCH 12/62] fix: stl list MoveAfter ignores a move of the first
 node to the back

---
 stl/gp/list.gp     | 2 +-
 stl/gp/list.gp.go  | 2 +-
 stl/list.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 5a9f322..420af4a 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -325,7 +325,7 @@ func (this *<GLOBAL_NAME_PREFIX>List) MoveBefore(node, mark *<GLOBAL_NAME_PREFIX
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveAfter(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 59cbfff..80054de 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -422,7 +422,7 @@ func (this *GOGPGlobalNamePrefixList) MoveBefore(node, mark *GOGPGlobalNamePrefi
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveAfter(node, mark *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 8d9e568..fb44449 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -319,7 +319,7 @@ func (this *IntList) MoveBefore(node, mark *IntListNode) (r *IntListNode) {
 }
 
 func (this *IntList) MoveAfter(node, mark *IntListNode) (r *IntListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
-- 
2.43.0


From cc7aa67bff6d6ac0d6c8e6f78bea68cbf2d87e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:42 +0000
Subject: [PATCH 13/62] fix: stl list Reverse loses all nodes but the first

---
 stl/gp/list.gp     | 8 ++++----
 stl/gp/list.gp.go  | 8 ++++----
 stl/list.gp_int.go | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 420af4a..c618c45 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -341,11 +341,11 @@ func (this *<GLOBAL_NAME_PREFIX>List) Empty() bool {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	var r <GLOBAL_NAME_PREFIX>List
+	for n := this.RemoveFront(); n != nil; n = this.RemoveFront() {
+		r.InsertFront(n)
 	}
+	this.head = r.head
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) Sort() {
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 80054de..41f8bb9 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -438,11 +438,11 @@ func (this *GOGPGlobalNamePrefixList) Empty() bool {
 }
 
 func (this *GOGPGlobalNamePrefixList) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	var r GOGPGlobalNamePrefixList
+	for n := this.RemoveFront(); n != nil; n = this.RemoveFront() {
+		r.InsertFront(n)
 	}
+	this.head = r.head
 }
 
 func (this *GOGPGlobalNamePrefixList) Sort() {
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index fb44449..2be1e25 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -335,11 +335,11 @@ func (this *IntList) Empty() bool {
 }
 
 func (this *IntList) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	var r IntList
+	for n := this.RemoveFront(); n != nil; n = this.RemoveFront() {
+		r.InsertFront(n)
 	}
+	this.head = r.head
 }
 
 func (this *IntList) Sort() {
-- 
2.43.0


From ae6191e31dbd4d07782674df2eba19b60b846e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:14 +0000
Subject: [PATCH 14/62] fix: stl slist visitor never reports a node

---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 1a85b5a..2c487ba 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -79,7 +79,7 @@ func (this *<GLOBAL_NAME_PREFIX>SListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SListNodeVisitor) Get() *<GLOBAL_NAME_PREFIX>SListNode {
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 361b1d0..719391c 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -176,7 +176,7 @@ func (this *GOGPGlobalNamePrefixSListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *GOGPGlobalNamePrefixSListNodeVisitor) Get() *GOGPGlobalNamePrefixSListNode {
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index af27744..ec1b712 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -73,7 +73,7 @@ func (this *IntSListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *IntSListNodeVisitor) Get() *IntSListNode {
-- 
2.43.0


From 329e79ace112e20fec67c723d0015882e919ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:14 +0000
Subject: [PATCH 15/62] fix: stl slist Empty is inverted, which also breaks
 Sort

---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 2c487ba..8cb9103 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -103,7 +103,7 @@ func New<GLOBAL_NAME_PREFIX>SList() *<GLOBAL_NAME_PREFIX>SList {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Len() (n int) {
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 719391c..4074e90 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -200,7 +200,7 @@ func NewGOGPGlobalNamePrefixSList() *GOGPGlobalNamePrefixSList {
 }
 
 func (this *GOGPGlobalNamePrefixSList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *GOGPGlobalNamePrefixSList) Len() (n int) {
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index ec1b712..6e1977f 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -94,7 +94,7 @@ func NewIntSList() *IntSList {
 }
 
 func (this *IntSList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *IntSList) Len() (n int) {
-- 
2.43.0


From 75bcca38d6328d65db3a6b1c0acf38dbaa5b7e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:14 +0000
Subject: [PATCH 16/62] fix: stl slist PushFrontList leaves its nodes in both
 lists

---
 stl/gp/slist.gp     | 1 +
 stl/gp/slist.gp.go  | 1 +
 stl/slist.gp_int.go | 1 +
 3 files changed, 3 insertions(+)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 8cb9103..9006a59 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -189,6 +189,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) PushFrontList(other *<GLOBAL_NAME_PREFIX>
 			this.tail = t
 		} //
 		//#GOGP_ENDIF
+		other.Clear()
 	}
 }
 
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 4074e90..02e2360 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -286,6 +286,7 @@ func (this *GOGPGlobalNamePrefixSList) PushFrontList(other *GOGPGlobalNamePrefix
 			this.tail = t
 		} //
 		//#GOGP_ENDIF
+		other.Clear()
 	}
 }
 
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index 6e1977f..97906ec 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -140,6 +140,7 @@ func (this *IntSList) PushFrontList(other *IntSList) {
 		t.next = this.head.next
 		this.head.next = other.head.next
 
+		other.Clear()
 	}
 }
 
-- 
2.43.0


From b882e46b31941759c9d5d2c3a62dd624ef96209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:14 +0000
Subject: [PATCH 17/62] fix: stl slist HasCycle panics on lists without a cycle

---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 9006a59..2bc3f36 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -330,7 +330,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) Reverse() {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) HasCycle(head *<GLOBAL_NAME_PREFIX>SListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
+	for slow, fast := head, head; fast != nil; {
 		fast = fast.next
 		if ok = fast != nil; !ok {
 			break
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 02e2360..942b7fa 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -427,7 +427,7 @@ func (this *GOGPGlobalNamePrefixSList) Reverse() {
 }
 
 func (this *GOGPGlobalNamePrefixSList) HasCycle(head *GOGPGlobalNamePrefixSListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
+	for slow, fast := head, head; fast != nil; {
 		fast = fast.next
 		if ok = fast != nil; !ok {
 			break
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index 97906ec..d526805 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -239,7 +239,7 @@ func (this *IntSList) Reverse() {
 }
 
 func (this *IntSList) HasCycle(head *IntSListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
+	for slow, fast := head, head; fast != nil; {
 		fast = fast.next
 		if ok = fast != nil; !ok {
 			break
-- 
2.43.0


From 13c910d4d51b2cb04d993a7b1db81a98d7352cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:14 +0000
Subject: [PATCH 18/62] fix: stl slist Reachable and IsValidNode only recognise
 the start node

---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 2bc3f36..7eeebd2 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -352,7 +352,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) HasCycle(head *<GLOBAL_NAME_PREFIX>SListN
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Reachable(node, dest *<GLOBAL_NAME_PREFIX>SListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 942b7fa..4024be3 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -449,7 +449,7 @@ func (this *GOGPGlobalNamePrefixSList) HasCycle(head *GOGPGlobalNamePrefixSListN
 
 func (this *GOGPGlobalNamePrefixSList) Reachable(node, dest *GOGPGlobalNamePrefixSListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index d526805..7559c7f 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -261,7 +261,7 @@ func (this *IntSList) HasCycle(head *IntSListNode) (ok bool) {
 
 func (this *IntSList) Reachable(node, dest *IntSListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
-- 
2.43.0


From 14a7029f7ec18d6822427c633f628f322f406497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:37 +0000
Subject: [PATCH 19/62] fix: math ranged integers never report out of range
 errors

---
 math/range_uint32.go | 18 +++++++++---------
 math/range_uint64.go | 20 ++++++++++----------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/math/range_uint32.go b/math/range_uint32.go
index 21be19c..126c00f 100644
--- a/math/range_uint32.go
+++ b/math/range_uint32.go
@@ -41,7 +41,7 @@ func (me *RangeUint32) Init(_val, _min, _max uint32) (err error) {
 
 func (me *RangeUint32) Add(other uint32) (r uint32, err error) {
 	if math.MaxUint32-other < me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Add(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Add(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val + other
 	r, err = v, me.verify(v)
@@ -49,7 +49,7 @@ func (me *RangeUint32) Add(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Sub(other uint32) (r uint32, err error) {
 	if me.val < other {
-		//return me.min, aerr.Newf(errid_ru32_full, "Sub(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Sub(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val - other
 	r, err = v, me.verify(v)
@@ -58,7 +58,7 @@ func (me *RangeUint32) Sub(other uint32) (r uint32, err error) {
 
 func (me *RangeUint32) Mul(other uint32) (r uint32, err error) {
 	if other > 0 && math.MaxUint32/other < me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Mul(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Mul(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val * other
 	r, err = v, me.verify(v)
@@ -66,7 +66,7 @@ func (me *RangeUint32) Mul(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Div(other uint32) (r uint32, err error) {
 	if 0 == other {
-		//return me.min, aerr.Newf(errid_ru32_full, "Div(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Div(%d) error:%s", other, me.Info())
 	}
 	v := me.val / other
 	r, err = v, me.verify(v)
@@ -82,14 +82,14 @@ func (me *RangeUint32) Mod(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Inc() (r uint32, err error) {
 	if math.MaxUint32 == me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Inc() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Inc() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val + 1)
 	return
 }
 func (me *RangeUint32) Dec(other uint32) (r uint32, err error) {
 	if 0 == me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Dec() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Dec() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val - 1)
 	return
@@ -135,16 +135,16 @@ func (me *RangeUint32) Info() string {
 
 func (me *RangeUint32) verify(_val uint32) (err error) {
 	if !me.InRange(_val) {
-		//err = aerr.Newf(errid_ru32_full, "val(%d) out of range[%d,%d]", _val, me.min, me.max)
+		err = fmt.Errorf("[RangeUint32] val(%d) out of range[%d,%d]", _val, me.min, me.max)
 	}
 	return
 }
 
 func verifyRangeUint32(_val, _min, _max uint32) (err error) {
 	if _min > _max {
-		//err = aerr.New(errid_min_max_error)
+		err = fmt.Errorf("[RangeUint32] min(%d) > max(%d)", _min, _max)
 	} else if _val < _min || _val > _max {
-		//err = aerr.Newf(errid_ru32_full, "val(%d) out of range[%d,%d]", _val, _min, _max)
+		err = fmt.Errorf("[RangeUint32] val(%d) out of range[%d,%d]", _val, _min, _max)
 	}
 	return
 }
diff --git a/math/range_uint64.go b/math/range_uint64.go
index 4fb12fe..26c0292 100644
--- a/math/range_uint64.go
+++ b/math/range_uint64.go
@@ -47,7 +47,7 @@ func (me *RangeUInt64) Init(_val, _min, _max uint64) (err error) {
 
 func (me *RangeUInt64) Add(other uint64) (r uint64, err error) {
 	if math.MaxUint64-other < me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Add(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Add(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val + other
 	r, err = v, me.verify(v)
@@ -55,7 +55,7 @@ func (me *RangeUInt64) Add(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Sub(other uint64) (r uint64, err error) {
 	if me.val < other {
-		//return me.min, aerr.Newf(errid_ru64_full, "Sub(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Sub(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val - other
 	r, err = v, me.verify(v)
@@ -64,7 +64,7 @@ func (me *RangeUInt64) Sub(other uint64) (r uint64, err error) {
 
 func (me *RangeUInt64) Mul(other uint64) (r uint64, err error) {
 	if other > 0 && math.MaxUint64/other < me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Mul(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Mul(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val * other
 	r, err = v, me.verify(v)
@@ -72,7 +72,7 @@ func (me *RangeUInt64) Mul(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Div(other uint64) (r uint64, err error) {
 	if 0 == other {
-		//return me.min, aerr.Newf(errid_ru64_full, "Div(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Div(%d) error:%s", other, me.Info())
 	}
 	v := me.val / other
 	r, err = v, me.verify(v)
@@ -80,7 +80,7 @@ func (me *RangeUInt64) Div(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Mod(other uint64) (r uint64, err error) {
 	if 0 == other {
-		//return me.min, fmt.Errorf("[RangeUInt64] Mod(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Mod(%d) error:%s", other, me.Info())
 	}
 	v := me.val % other
 	r, err = v, me.verify(v)
@@ -88,14 +88,14 @@ func (me *RangeUInt64) Mod(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Inc() (r uint64, err error) {
 	if math.MaxUint64 == me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Inc() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Inc() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val + 1)
 	return
 }
 func (me *RangeUInt64) Dec(other uint64) (r uint64, err error) {
 	if 0 == me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Dec() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Dec() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val - 1)
 	return
@@ -136,16 +136,16 @@ func (me *RangeUInt64) Info() string {
 
 func (me *RangeUInt64) verify(_val uint64) (err error) {
 	if !me.InRange(_val) {
-		//err = aerr.Newf(errid_ru64_full, "val(%d) out of range[%d,%d]", _val, me.min, me.max)
+		err = fmt.Errorf("[RangeUInt64] val(%d) out of range[%d,%d]", _val, me.min, me.max)
 	}
 	return
 }
 
 func verifyRangeUInt64(_val, _min, _max uint64) (err error) {
 	if _min > _max {
-		//err = aerr.New(errid_min_max_error)
+		err = fmt.Errorf("[RangeUInt64] min(%d) > max(%d)", _min, _max)
 	} else if _val < _min || _val > _max {
-		//err = aerr.Newf(errid_ru64_full, "val(%d) out of range[%d,%d]", _val, _min, _max)
+		err = fmt.Errorf("[RangeUInt64] val(%d) out of range[%d,%d]", _val, _min, _max)
 	}
 	return
 }
-- 
2.43.0


From 678cc5d58cc0511defcdb47d490646fda9aa02e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:37 +0000
Subject: [PATCH 20/62] fix: math/prime IsPrime accepts composite numbers

---
 math/prime/prime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/prime/prime.go b/math/prime/prime.go
index 9889ddf..0b23baf 100644
--- a/math/prime/prime.go
+++ b/math/prime/prime.go
@@ -11,7 +11,7 @@ func IsPrime(num uint32) bool {
 	if mod != 1 && mod != 5 {
 		return false
 	}
-	max := uint32(0) //uint64(math.Floor(math.Sqrt(float64(num))))
+	max := SqrtUint32(num)
 	for i := 2; i < len(g_primes); i++ {
 		prime := g_primes[i]
 		if prime > max {
-- 
2.43.0


From 1cccf45b3ac662946e5e55350eec19bf0bfffc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:37 +0000
Subject: [PATCH 21/62] fix: hash Fingerprint Reset keeps the length written
 before

---
 hash/finger_print.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hash/finger_print.go b/hash/finger_print.go
index f0b3859..d7e9024 100644
--- a/hash/finger_print.go
+++ b/hash/finger_print.go
@@ -63,6 +63,7 @@ func (this *Fingerprint) Reset() {
 	this.hs1.Reset()
 	this.hs2.Reset()
 	this.hs3.Reset()
+	this.size = 0
 }
 
 func (this *Fingerprint) Size() int {
-- 
2.43.0


From dfe4f65d9ebd036fec24c938069a4662798490c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:37 +0000
Subject: [PATCH 22/62] fix: hash Fingerprint Sum drops the slice it must
 append to

---
 hash/finger_print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/finger_print.go b/hash/finger_print.go
index d7e9024..34dc705 100644
--- a/hash/finger_print.go
+++ b/hash/finger_print.go
@@ -56,7 +56,7 @@ func (this *Fingerprint) Sum(b []byte) []byte {
 	buf.Write(this.hs1.Sum(nil)[4:10])
 	buf.Write(this.hs2.Sum(nil)[7:13])
 	buf.Write(this.hs3.Sum(nil)[1:7])
-	return buf.Bytes()
+	return append(b, buf.Bytes()...)
 }
 
 func (this *Fingerprint) Reset() {
-- 
2.43.0


From 3ada9b4f8bff8d791b4f869055500c765051f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:37 +0000
Subject: [PATCH 23/62] fix: hash Fingerprint Size is not the size of its sum

---
 hash/finger_print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/finger_print.go b/hash/finger_print.go
index 34dc705..b963e5c 100644
--- a/hash/finger_print.go
+++ b/hash/finger_print.go
@@ -67,7 +67,7 @@ func (this *Fingerprint) Reset() {
 }
 
 func (this *Fingerprint) Size() int {
-	return int(this.size)
+	return 24
 }
 
 func (this *Fingerprint) BlockSize() int {
-- 
2.43.0


From 00e0573bef45d04afbbd535e1511e25175e475e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:37 +0000
Subject: [PATCH 24/62] fix: hash NoneHash ids are not unique under concurrent
 creation

---
 hash/none_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hash/none_hash.go b/hash/none_hash.go
index 7c08ca2..a08f57f 100644
--- a/hash/none_hash.go
+++ b/hash/none_hash.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"hash"
 	"io"
+	"sync/atomic"
 )
 
 var (
@@ -15,8 +16,7 @@ type NoneHash struct {
 }
 
 func NewNoneHash() hash.Hash {
-	gId++
-	return &NoneHash{id: gId}
+	return &NoneHash{id: atomic.AddUint32(&gId, 1)}
 }
 
 func (this *NoneHash) ReadFrom(r io.Reader) (n int64, err error) {
-- 
2.43.0


From c39bdb2baa0dfeda450aa153a7bb0b1d9b13e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:37 +0000
Subject: [PATCH 25/62] fix: io Copys sends a WriterTo source only to the first
 destination

---
 io/io.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/io/io.go b/io/io.go
index 19d3567..03d6bf0 100644
--- a/io/io.go
+++ b/io/io.go
@@ -13,12 +13,7 @@ func Copys(src io.Reader, dsts ...io.Writer) (written int64, err error) {
 //copy src to multi dsts
 func CopysBuffer(src io.Reader, buf []byte, dsts ...io.Writer) (written int64, err error) {
 	if wt, ok := src.(io.WriterTo); ok {
-		for _, dst := range dsts {
-			if written, err = wt.WriteTo(dst); err != nil {
-				break
-			}
-		}
-		return
+		return wt.WriteTo(io.MultiWriter(dsts...))
 	}
 
 	if buf == nil {
-- 
2.43.0


From 402dad0c69aa7abbfa2b09005bfa289b1633ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:37 +0000
Subject: [PATCH 26/62] fix: io Copys misses a short write of any destination
 but the last

---
 io/io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/io.go b/io/io.go
index 03d6bf0..7e1c95c 100644
--- a/io/io.go
+++ b/io/io.go
@@ -29,6 +29,9 @@ ReadAll:
 					err = ew
 					break ReadAll
 				}
+				if nr != nw {
+					break
+				}
 			}
 			if nw > 0 {
 				written += int64(nw)
-- 
2.43.0


From 4a0c57e1f0dcbad67ada1297e75469059bfbf4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:37 +0000
Subject: [PATCH 27/62] fix: crypto padding overwrites bytes behind the given
 slice

---
 crypto/padding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/padding.go b/crypto/padding.go
index 798ffe1..bfa1090 100644
--- a/crypto/padding.go
+++ b/crypto/padding.go
@@ -5,7 +5,7 @@ import "bytes"
 func ZeroPadding(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func ZeroUnPadding(origData []byte) []byte {
@@ -17,7 +17,7 @@ func ZeroUnPadding(origData []byte) []byte {
 func PKCS5Padding(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func PKCS5UnPadding(origData []byte) []byte {
-- 
2.43.0


From 27628289bb036e3003a107c17420d59ed2fe42e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:37 +0000
Subject: [PATCH 28/62] fix: factory never stores or removes creaters

---
 factory/factoryi.go | 2 ++
 factory/factorys.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/factory/factoryi.go b/factory/factoryi.go
index 0febb58..e525c00 100644
--- a/factory/factoryi.go
+++ b/factory/factoryi.go
@@ -9,10 +9,12 @@ type FactoryI struct {
 }
 
 func (me *FactoryI) AddCreater(nType int, creater Creater) error {
+	me.cmap[nType] = creater
 	return nil
 }
 
 func (me *FactoryI) RemoveCreater(nType int) error {
+	delete(me.cmap, nType)
 	return nil
 }
 
diff --git a/factory/factorys.go b/factory/factorys.go
index a66e9a6..575a06d 100644
--- a/factory/factorys.go
+++ b/factory/factorys.go
@@ -9,10 +9,12 @@ type FactoryS struct {
 }
 
 func (me *FactoryS) AddCreater(typename string, creater Creater) error {
+	me.cmap[typename] = creater
 	return nil
 }
 
 func (me *FactoryS) RemoveCreater(typename string) error {
+	delete(me.cmap, typename)
 	return nil
 }
 
-- 
2.43.0


From df369caf5796bd43fef28150bfbe136ec638bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:46 +0000
Subject: [PATCH 29/62] fix: hash NoneHash breaks the hash.Hash contract

---
 hash/none_hash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/none_hash.go b/hash/none_hash.go
index a08f57f..26be196 100644
--- a/hash/none_hash.go
+++ b/hash/none_hash.go
@@ -24,7 +24,7 @@ func (this *NoneHash) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (this *NoneHash) Write(p []byte) (n int, err error) {
-	return
+	return len(p), nil
 }
 
 func (this *NoneHash) Sum(b []byte) []byte {
@@ -33,14 +33,14 @@ func (this *NoneHash) Sum(b []byte) []byte {
 	for i := uint(4); i > 0; i-- {
 		buf.WriteByte(byte(id >> ((i - 1) * 8) & 0xff))
 	}
-	return buf.Bytes()
+	return append(b, buf.Bytes()...)
 }
 
 func (this *NoneHash) Reset() {
 }
 
 func (this *NoneHash) Size() int {
-	return 0
+	return 4
 }
 
 func (this *NoneHash) BlockSize() int {
-- 
2.43.0


From 3d3e62a3567db13643fccb8c181218e77070eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:17 +0000
Subject: [PATCH 30/62] fix: crypto/ecb imports its padding from a path that
 does not exist

---
 crypto/ecb/ecb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/ecb/ecb.go b/crypto/ecb/ecb.go
index ca2a0af..ba50a61 100644
--- a/crypto/ecb/ecb.go
+++ b/crypto/ecb/ecb.go
@@ -4,7 +4,7 @@ import (
 	"crypto/des"
 	"errors"
 
-	"gitee.com/vipally/gx/crypto"
+	"github.com/vipally/gx/crypto"
 )
 
 // 3DES加密
-- 
2.43.0


From 333a3c8225bc8ab58a7a9a52dd23c8825e533764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:17 +0000
Subject: [PATCH 31/62] fix: crypto/rsa does not compile

---
 crypto/rsa/code.go | 2 +-
 crypto/rsa/rsa.go  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crypto/rsa/code.go b/crypto/rsa/code.go
index e1f5981..ce43d83 100644
--- a/crypto/rsa/code.go
+++ b/crypto/rsa/code.go
@@ -5,7 +5,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 
-	"gitee.com/vipally/gx/crypto/ecb"
+	"github.com/vipally/gx/crypto/ecb"
 )
 
 var key = []byte("ac643718-9730-e711-59210")
diff --git a/crypto/rsa/rsa.go b/crypto/rsa/rsa.go
index 805b891..f53bb75 100644
--- a/crypto/rsa/rsa.go
+++ b/crypto/rsa/rsa.go
@@ -104,7 +104,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	//generate private key
 	priKey, _err := rsa.GenerateKey(rand.Reader, bits)
 	if _err != nil {
-		return "", "", _err
+		return nil, nil, _err
 	}
 	derStream := x509.MarshalPKCS1PrivateKey(priKey)
 	block := &pem.Block{
@@ -115,7 +115,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	var bufPri bytes.Buffer
 	err = pem.Encode(&bufPri, block)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	privateKey = bufPri.Bytes()
 
@@ -123,7 +123,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	pubKey := &priKey.PublicKey
 	derPkix, err := x509.MarshalPKIXPublicKey(pubKey)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	block = &pem.Block{
 		Type:  "public key",
@@ -132,7 +132,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	var bufPub bytes.Buffer
 	err = pem.Encode(&bufPub, block)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	publicKey = bufPub.Bytes()
 	return
-- 
2.43.0


From 78c38d6a50b8425e492e2f0199b15a967e0220f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:17 +0000
Subject: [PATCH 32/62] fix: crypto/rsa NewClient panics on a public key that
 is not RSA

---
 crypto/rsa/rsa.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/rsa/rsa.go b/crypto/rsa/rsa.go
index f53bb75..a650faf 100644
--- a/crypto/rsa/rsa.go
+++ b/crypto/rsa/rsa.go
@@ -36,7 +36,10 @@ func NewClient(publicKey []byte) (*RsaClient, error) {
 	if err != nil {
 		return nil, err
 	}
-	pub := pubInterface.(*rsa.PublicKey)
+	pub, ok := pubInterface.(*rsa.PublicKey)
+	if !ok {
+		return nil, errPublicKey
+	}
 	c := &RsaClient{publicKey: pub}
 	return c, nil
 }
-- 
2.43.0


From eeb9540b54eb4e58c4db5de1f7db7ba244371cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:17 +0000
Subject: [PATCH 33/62] fix: sync RWSpinLock deadlocks and lets readers in
 beside a writer

---
 sync/spinrwlock.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sync/spinrwlock.go b/sync/spinrwlock.go
index 3d5e8c0..5efddc7 100644
--- a/sync/spinrwlock.go
+++ b/sync/spinrwlock.go
@@ -15,8 +15,14 @@ type RWSpinLock struct {
 }
 
 func (this *RWSpinLock) Lock() {
-	this.w.Lock()                                             //get writer lock first
-	atomic.AddInt32(&this.readerCount, -rwSpinLockMaxReaders) //tell readers there is a writer
+	this.w.Lock()                                                  //get writer lock first
+	r := atomic.AddInt32(&this.readerCount, -rwSpinLockMaxReaders) //tell readers there is a writer
+	for i := 0; r != -rwSpinLockMaxReaders; i++ {                  //wait for active readers
+		if i > spinLockMaxLoop {
+			panic("[sync] maybe dead lock on RWSpinLock.Lock")
+		}
+		r = atomic.LoadInt32(&this.readerCount)
+	}
 }
 
 func (this *RWSpinLock) Unlock() {
@@ -33,10 +39,9 @@ func (this *RWSpinLock) RLock() {
 		}
 
 		if r := atomic.LoadInt32(&this.readerCount); r >= 0 { // A writer is pending, wait for it.
-			if atomic.AddInt32(&this.readerCount, 1) == 1 {
-				this.w.Lock() //first waiter reader, block writer
+			if atomic.CompareAndSwapInt32(&this.readerCount, r, r+1) {
+				break
 			}
-			break
 		}
 	}
 }
@@ -45,9 +50,5 @@ func (this *RWSpinLock) RUnlock() {
 		if r+1 == 0 || r+1 == -rwSpinLockMaxReaders {
 			panic("sync: RUnlock of unlocked RWSpinLock")
 		}
-		if r == 0 {
-			// The last reader unblocks the writer.
-			this.w.Unlock()
-		}
 	}
 }
-- 
2.43.0


From 9511da1dde37b5c7d8295368a664508eefa5da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:59 +0000
Subject: [PATCH 34/62] fix: time does not compile because a method is declared
 twice

---
 time/time_sys.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/time/time_sys.go b/time/time_sys.go
index 3154fde..6226460 100644
--- a/time/time_sys.go
+++ b/time/time_sys.go
@@ -55,11 +55,6 @@ func (this *timeSys) UpdateAdjust(_unix_time int64) error {
 	return nil
 }
 
-//auto update local time
-func (this *timeSys) autoUpdate() {
-
-}
-
 //autoUpdate is autoUpdateTime duration
 func StartSys(autoUpdate Duration) {
 }
-- 
2.43.0


From a2821332feb302836b3d9a24cacae18f6f4d5e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:59 +0000
Subject: [PATCH 35/62] fix: math/rand RandRange over the whole value range
 divides by zero

---
 math/rand/rand.gp       | 3 +++
 math/rand/rand.gp_32.go | 3 +++
 math/rand/rand.gp_64.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/math/rand/rand.gp b/math/rand/rand.gp
index e958077..fe32322 100644
--- a/math/rand/rand.gp
+++ b/math/rand/rand.gp
@@ -67,6 +67,9 @@ func (me *Rand<BITS>T) RandRange(min, max <SEED_TYPE>) <SEED_TYPE> {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //the whole value range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
diff --git a/math/rand/rand.gp_32.go b/math/rand/rand.gp_32.go
index 4d3cfbd..11626d6 100644
--- a/math/rand/rand.gp_32.go
+++ b/math/rand/rand.gp_32.go
@@ -87,6 +87,9 @@ func (me *Rand32T) RandRange(min, max uint32) uint32 {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //the whole value range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
diff --git a/math/rand/rand.gp_64.go b/math/rand/rand.gp_64.go
index b286e57..e7399ca 100644
--- a/math/rand/rand.gp_64.go
+++ b/math/rand/rand.gp_64.go
@@ -87,6 +87,9 @@ func (me *Rand64T) RandRange(min, max uint64) uint64 {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //the whole value range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
-- 
2.43.0


From a1c3d8e01677e90f4fa46aed81b71372b973edc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:25 +0000
Subject: [PATCH 36/62] fix: debug backtraces name the wrong function and line
 of a frame

---
 debug/backtrace.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/debug/backtrace.go b/debug/backtrace.go
index 59a99e5..58ef446 100644
--- a/debug/backtrace.go
+++ b/debug/backtrace.go
@@ -60,12 +60,12 @@ func Bts() (bts string) {
 	var buf bytes.Buffer
 	var __pcs [maxBtListLen]uintptr
 	n := runtime.Callers(BtMe, __pcs[0:])
-	for i := 0; i < n; i++ {
-		_pc := __pcs[i]
-		_f := runtime.FuncForPC(_pc)
-		_file, _line := _f.FileLine(_pc)
+	frames := runtime.CallersFrames(__pcs[:n])
+	for i, more := 0, n > 0; more; i++ {
+		var _f runtime.Frame
+		_f, more = frames.Next()
 		s := fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{%0X}\n",
-			i, _f.Name(), _file, _line, _pc)
+			i, _f.Function, _f.File, _f.Line, _f.PC)
 		buf.WriteString(s)
 	}
 
@@ -97,12 +97,12 @@ func CallStackList(nDepth int) []string {
 	var __pcs [maxBtListLen]uintptr
 	n := runtime.Callers(nDepth, __pcs[0:])
 	cs := make([]string, 0, n)
-	for i := 0; i < n; i++ {
-		_pc := __pcs[i]
-		_f := runtime.FuncForPC(_pc)
-		_file, _line := _f.FileLine(_pc)
+	frames := runtime.CallersFrames(__pcs[:n])
+	for more := n > 0; more; {
+		var _f runtime.Frame
+		_f, more = frames.Next()
 		s := fmt.Sprintf("Func{%s} FileLine{%s : %d} pc{%0X}",
-			_f.Name(), _file, _line, _pc)
+			_f.Function, _f.File, _f.Line, _f.PC)
 		cs = append(cs, s)
 	}
 	return cs
-- 
2.43.0


From b9a50be40469e2f5a366c2c418543935f28600ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:23 +0000
Subject: [PATCH 37/62] fix: errors does not compile because Reg is declared
 twice

---
 errors/interface.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/errors/interface.go b/errors/interface.go
index 35f5d87..dfd2bbd 100644
--- a/errors/interface.go
+++ b/errors/interface.go
@@ -15,11 +15,6 @@ type ErrorObj struct {
 	Para []interface{}
 }
 
-//regist an error
-func Reg(moduleId uint16, name, content string, handle Handler) ErrorId {
-	return 0
-}
-
 type ErrorInfo struct {
 	content string
 	name    string
-- 
2.43.0


From 1175286d7a067881a345ecd0e6eef583b1c9de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:23 +0000
Subject: [PATCH 38/62] fix: errors gives the standard error the id and name of
 the unknown error

---
 errors/errors.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index f5d496d..0147fd7 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -37,10 +37,6 @@ type ErrorDef struct {
 //}
 
 //-------------------------------------------------------------------
-func init() {
-	g_id2err = []string{"unknown error"}
-}
-
 const (
 	//unknown error id
 	ERRID_UNKNOWN = errId(g_id_min)
@@ -52,9 +48,9 @@ var (
 
 var (
 	//registered error mapping
-	g_id2err      = make([]string, 0, g_init_err)
+	g_id2err      = append(make([]string, 0, g_init_err), "unknown error")
 	g_id2err_lock sync.RWMutex
-	g_id_cur_max  errId = g_id_invalid
+	g_id_cur_max  errId = g_id_min
 )
 
 const (
-- 
2.43.0


From 12167fa22ed9a07693b6a5b2439dee9188659190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:23 +0000
Subject: [PATCH 39/62] fix: errors StdErr mangles messages with format verbs

---
 errors/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors/errors.go b/errors/errors.go
index 0147fd7..9d16cf5 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -132,5 +132,5 @@ func (cp errId) String() string {
 }
 
 func StdErr(e error) (err WithIdErr) {
-	return Newf(ERRID_STD, e.Error())
+	return Newf(ERRID_STD, "%s", e.Error())
 }
-- 
2.43.0


From 237e9b4c76ba0b796ba92cd47f3a735b2c133e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:44 +0000
Subject: [PATCH 40/62] fix: regable does not compile because of its imports

---
 regable/reg.go     | 4 ++--
 regable/reg.gp     | 4 ++--
 regable/regable.go | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 01dce47..43fe26b 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -25,8 +25,8 @@ import (
 	"fmt"
 	"sync"
 	"github.com/vipally/gx/consts"
-	"github.com/vipally/gx/errors"
-	xmath "github.com/vipally/gx/math"
+	aerr "github.com/vipally/gx/errors"
+	amath "github.com/vipally/gx/math"
 )
 
 const (
diff --git a/regable/reg.gp b/regable/reg.gp
index 96c711d..6b1063f 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -5,8 +5,8 @@ import (
 	"fmt"
 	<LOCK_COMMENT>"sync"
 	"github.com/vipally/gx/consts"
-	"github.com/vipally/gx/errors"
-	xmath "github.com/vipally/gx/math"
+	aerr "github.com/vipally/gx/errors"
+	amath "github.com/vipally/gx/math"
 )
 
 const (
diff --git a/regable/regable.go b/regable/regable.go
index 8a15053..43a9452 100644
--- a/regable/regable.go
+++ b/regable/regable.go
@@ -8,8 +8,8 @@ import (
 	"bytes"
 	"fmt"
 
-	acst "vipally.gmail.com/basic/consts"
-	aerr "vipally.gmail.com/basic/errors"
+	"github.com/vipally/gx/consts"
+	aerr "github.com/vipally/gx/errors"
 )
 
 const (
@@ -48,7 +48,7 @@ func ShowAllRegs() string {
 	var buf bytes.Buffer
 	buf.WriteString(str_head)
 	for _, f := range g_show_reg_funcs {
-		buf.WriteString(acst.NEW_LINE)
+		buf.WriteString(consts.NewLine)
 		buf.WriteString(f())
 	}
 	return buf.String()
-- 
2.43.0


From b8b8f08b40dfe9611deb1c011f27d2004eb1b4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:44 +0000
Subject: [PATCH 41/62] fix: regable ids that were never registered crash
 instead of failing

---
 regable/reg.go | 6 ++++--
 regable/reg.gp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 43fe26b..34706cb 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -189,12 +189,14 @@ type Uint32Id regedId
 func (cp Uint32Id) get() (rg *Uint32Reger, r *_uint32Record, err error) {
 	idrgr, id := regedId(cp).ids()
 	idregidx, idx := idrgr-g_invalid_id-1, id-g_invalid_id-1
-	if idrgr == g_invalid_id || !g_u32_rgr_id_gen.InCurrentRange(idrgr) {
+	if idrgr == g_invalid_id || idregidx >= uint32(len(g_u32_reger_list)) {
 		err = aerr.New(errid_u32_id)
+		return
 	}
 	rg = g_u32_reger_list[idregidx]
-	if id == g_invalid_id || !rg.id_gen.InCurrentRange(id) {
+	if id == g_invalid_id || idx >= uint32(len(rg.reg_list)) {
 		err = aerr.New(errid_u32_id)
+		return
 	}
 	r = rg.reg_list[idx]
 	return
diff --git a/regable/reg.gp b/regable/reg.gp
index 6b1063f..6d1473f 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -169,12 +169,14 @@ type <TYPENAME_U>Id regedId
 func (cp <TYPENAME_U>Id) get() (rg *<TYPENAME_U>Reger, r *_<TYPENAME_L>Record, err error) {
 	idrgr, id := regedId(cp).ids()
 	idregidx, idx := idrgr-g_invalid_id-1, id-g_invalid_id-1
-	if idrgr == g_invalid_id || !g_<TYPENAME_L_SHORT>_rgr_id_gen.InCurrentRange(idrgr) {
+	if idrgr == g_invalid_id || idregidx >= uint32(len(g_<TYPENAME_L_SHORT>_reger_list)) {
 		err = aerr.New(errid_<TYPENAME_L_SHORT>_id)
+		return
 	}
 	rg = g_<TYPENAME_L_SHORT>_reger_list[idregidx]
-	if id == g_invalid_id || !rg.id_gen.InCurrentRange(id) {
+	if id == g_invalid_id || idx >= uint32(len(rg.reg_list)) {
 		err = aerr.New(errid_<TYPENAME_L_SHORT>_id)
+		return
 	}
 	r = rg.reg_list[idx]
 	return
-- 
2.43.0


From 305d4e0269770eb5d6659e0fa410076cfdd91eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:44 +0000
Subject: [PATCH 42/62] fix: regable objects report an id that drops their
 register

---
 regable/reg.go | 2 +-
 regable/reg.gp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 34706cb..6e01cc6 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -138,7 +138,7 @@ func (me *Uint32Reger) Reg(name string, val uint32) (r Uint32Id, err error) {
 		return
 	}
 	p := me.new_rec(name, val)
-	p.id = id
+	p.id = MakeRegedId(uint32(me.reger_id), id)
 	me.reg_list = append(me.reg_list, p)
 	r = Uint32Id(MakeRegedId(uint32(me.reger_id), id))
 	return
diff --git a/regable/reg.gp b/regable/reg.gp
index 6d1473f..0555520 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -118,7 +118,7 @@ func (me *<TYPENAME_U>Reger) Reg(<NAME_COMMENT_B>name string,<NAME_COMMENT_E> va
 		return
 	}
 	p := me.new_rec(<NAME_COMMENT_B>name,<NAME_COMMENT_E> val)
-	p.id = id
+	p.id = MakeRegedId(uint32(me.reger_id), id)
 	me.reg_list = append(me.reg_list, p)
 	r = <TYPENAME_U>Id(MakeRegedId(uint32(me.reger_id), id))
 	return
-- 
2.43.0


From e6e0d5e9fe12c9cb7e47206764806481287bf01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:12 +0000
Subject: [PATCH 43/62] fix: fs does not compile because it misnames its tree
 node fields

---
 fs/file_path.go            | 26 +++++++++++++-------------
 fs/tree.gp_filehash38b3.go |  2 +-
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index d353667..efe3334 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -415,21 +415,21 @@ func (me FilePathObject) Fingerprint() (root *FileHashTreeNode, err error) {
 					}
 					root.SortChildren()
 					for _, v := range root.Children() {
-						r := strings.NewReader(v.Hash)
+						r := strings.NewReader(v.val.Hash)
 						io.Copy(h, r)
-						root.Size += v.Size
+						root.val.Size += v.val.Size
 					}
-					root.IsDir = true
+					root.val.IsDir = true
 				}
 			} else {
 				r := io.Reader(f)
 				io.Copy(h, r)
-				root.Size = FileSize(fi.Size())
+				root.val.Size = FileSize(fi.Size())
 			}
-			h.Resetsize(int64(root.Size))
+			h.Resetsize(int64(root.val.Size))
 			p := h.String()
-			root.Path = me.String()
-			root.Hash = p
+			root.val.Path = me.String()
+			root.val.Hash = p
 		}
 	}
 	return
@@ -464,20 +464,20 @@ func (me FilePathObject) Hash(method xhash.HashMethod, salt string) (root *FileH
 					}
 					root.SortChildren()
 					for _, v := range root.Children() {
-						r := strings.NewReader(v.Hash)
+						r := strings.NewReader(v.val.Hash)
 						io.Copy(h, r)
-						root.Size += v.Size
+						root.val.Size += v.val.Size
 					}
-					root.IsDir = true
+					root.val.IsDir = true
 				}
 			} else {
 				r := io.Reader(f)
 				io.Copy(h, r)
-				root.Size = FileSize(fi.Size())
+				root.val.Size = FileSize(fi.Size())
 			}
 			p := fmt.Sprintf("%x", h.Sum(nil))
-			root.Path = me.String()
-			root.Hash = p
+			root.val.Path = me.String()
+			root.val.Hash = p
 		}
 	}
 	return
diff --git a/fs/tree.gp_filehash38b3.go b/fs/tree.gp_filehash38b3.go
index 8b17bd3..b54c1b1 100644
--- a/fs/tree.gp_filehash38b3.go
+++ b/fs/tree.gp_filehash38b3.go
@@ -38,7 +38,7 @@ func NewFileHashTree() *FileHashTree {
 //tree node
 type FileHashTreeNode struct {
 	val      FileHash
-	children FileHashTreeNodeSortSlice
+	children FileHashSortSlice
 }
 
 func (this *FileHashTreeNode) Less(right *FileHashTreeNode) (ok bool) {
-- 
2.43.0


From f8306eb49d118c65f9240479eb2eeeadd2a08d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:12 +0000
Subject: [PATCH 44/62] fix: fs CollectSubs hides that a directory cannot be
 read

---
 fs/fs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fs/fs.go b/fs/fs.go
index 82de1d0..f0aa364 100644
--- a/fs/fs.go
+++ b/fs/fs.go
@@ -55,9 +55,11 @@ func GetDeepFiles(dir string) (subs []string, err error) {
 }
 
 func CollectSubs(dir string, opt FsOption) (subs []string, err error) {
-	if _f, err := os.Open(dir); err == nil {
+	var _f *os.File
+	if _f, err = os.Open(dir); err == nil {
 		defer _f.Close()
-		if _subs, err := _f.Readdir(0); err == nil {
+		var _subs []os.FileInfo
+		if _subs, err = _f.Readdir(0); err == nil {
 			_has_sub_dir := false
 			for _, _v := range _subs {
 				_sub_name := _v.Name()
-- 
2.43.0


From 687c86da26bf97aa6967611aa3c8f8af67789ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:12 +0000
Subject: [PATCH 45/62] fix: fs SplitAll panics on a path without root

---
 fs/file_path.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fs/file_path.go b/fs/file_path.go
index efe3334..2cd58de 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -205,6 +205,9 @@ func (me FilePathObject) SplitAll() []string {
 			break
 		}
 	}
+	if i < 0 { //path without root
+		i = 0
+	}
 	return b[i:]
 }
 
-- 
2.43.0


From 48f8b79a09e78f8c901e45a2f71b2bd4dd4a4569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:12 +0000
Subject: [PATCH 46/62] fix: fs SplitAll drops the root of an absolute path

---
 fs/file_path.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index 2cd58de..fc6b147 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -193,7 +193,9 @@ func (me FilePathObject) SplitAll() []string {
 	i := maxn - 1
 	for ; i >= 0; i-- {
 		p, f := filepath.Split(s)
-		s = strings.TrimSuffix(p, "/")
+		if s = strings.TrimSuffix(p, "/"); s == "" { //keep root
+			s = p
+		}
 		if f != "" {
 			b[i] = f
 		} else {
-- 
2.43.0


From 4a903ed083b5f0d64f7606360822dcc9300e214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:12 +0000
Subject: [PATCH 47/62] fix: fs Rename, Link, Symlink and Move treat absolute
 unix paths as relative

---
 fs/file_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index fc6b147..cfcdfbc 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -344,7 +344,7 @@ func (me FilePathObject) Stat() (os.FileInfo, error) {
 //if _destPath is related path, then calculate from me.Dir
 func (me FilePathObject) relateThisPath(_destPath string) FilePathObject {
 	n := FilePath(_destPath)
-	if n.VolumeName() == "" { //related path, then calculate from me.Dir
+	if !filepath.IsAbs(n.String()) { //related path, then calculate from me.Dir
 		n.Set(Joins(me.Dir(), n.String()))
 	}
 	return n
-- 
2.43.0


From ee3927e65bd0f6619390e1f21dc1632cd52756f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:08 +0000
Subject: [PATCH 48/62] fix: unsafe StringBytes does not keep the memory of the
 string alive

---
 unsafe/string.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unsafe/string.go b/unsafe/string.go
index e2d7607..74a5d0b 100644
--- a/unsafe/string.go
+++ b/unsafe/string.go
@@ -47,10 +47,11 @@ func (me String) Pointer() Pointer {
 
 //return GoString's buffer slice(enable modify string)
 func StringBytes(s string) Bytes {
-	var bh reflect.SliceHeader
+	var b Bytes //a real slice, so that it keeps the string's buffer alive
 	sh := (*reflect.StringHeader)(unsafe.Pointer(&s))
+	bh := (*reflect.SliceHeader)(unsafe.Pointer(&b))
 	bh.Data, bh.Len, bh.Cap = sh.Data, sh.Len, sh.Len
-	return *(*Bytes)(unsafe.Pointer(&bh))
+	return b
 }
 
 // convert b to string without copy
-- 
2.43.0


From 0d11c4089b05ccb646a7bf82b06652ca95c5d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:20 +0000
Subject: [PATCH 49/62] fix: fs leaf listings of a directory written with a
 trailing slash

---
 fs/fs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fs/fs.go b/fs/fs.go
index f0aa364..00e8a1f 100644
--- a/fs/fs.go
+++ b/fs/fs.go
@@ -88,7 +88,8 @@ func CollectSubs(dir string, opt FsOption) (subs []string, err error) {
 				}
 			}
 			if !_has_sub_dir && opt.has(FsLeaf|FsDir) {
-				subs = append(subs, opt.choose_name(dir, FileName(dir)))
+				_dir := FormatPath(dir)
+				subs = append(subs, opt.choose_name(_dir, FileName(_dir)))
 			}
 		}
 	}
-- 
2.43.0


From dc57ba181f6b9176ac75fc1992bc3ed8cc86be9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:06 +0000
Subject: [PATCH 50/62] fix: fs Move of a relative path resolves the new name
 twice

---
 fs/file_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index cfcdfbc..76185e8 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -498,7 +498,7 @@ func (me FilePathObject) Copy(destPath string) (FilePathObject, error) {
 func (me FilePathObject) Move(destPath string) (FilePathObject, error) {
 	n := me.relateThisPath(destPath)
 	if me.VolumeName() == n.VolumeName() { //not cross disk,use rename operation
-		return me.Rename(n.String())
+		return n, os.Rename(string(me), n.String())
 	}
 	return "", nil
 }
-- 
2.43.0


From 950f48684956c618ef4a67191db1a1413bf2e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:33 +0000
Subject: [PATCH 51/62] fix: heap template without GOGP_ImproveSTL builds
 broken heaps

---
 stl/gp/heap.gp    | 10 +++++++++-
 stl/gp/heap.gp.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/stl/gp/heap.gp b/stl/gp/heap.gp
index a7fc6ee..ae20d1f 100644
--- a/stl/gp/heap.gp
+++ b/stl/gp/heap.gp
@@ -105,6 +105,7 @@ func (this *<GLOBAL_NAME_PREFIX>Heap) adjustDown(b []<VALUE_TYPE>, hole int, v <
 	//#GOGP_ELSE
 	//C++ stl's adjust down algorithm
 	//it seems to cost more move, to get probably less cmpare
+	top := hole
 	for l := this.lchild(hole); l < size; l = this.lchild(hole) {
 		c := l                                              //index that need to be new root
 		if r := l + 1; r < size && !this.cmpV(b[r], b[l]) { //let the most proper child to compare with v
@@ -112,7 +113,14 @@ func (this *<GLOBAL_NAME_PREFIX>Heap) adjustDown(b []<VALUE_TYPE>, hole int, v <
 		}
 		b[hole], hole = b[c], c
 	}
-	this.adjustUp(b, hole, v) //adjust up from leaf hole
+	for hole > top { //adjust up from leaf hole, but not above the subtree
+		parent := this.parent(hole)
+		if this.cmpV(v, b[parent]) {
+			break
+		}
+		b[hole], hole = b[parent], parent
+	}
+	b[hole] = v //put v to last hole
 	//#GOGP_ENDIF
 }
 
diff --git a/stl/gp/heap.gp.go b/stl/gp/heap.gp.go
index 326b88d..c320032 100644
--- a/stl/gp/heap.gp.go
+++ b/stl/gp/heap.gp.go
@@ -202,6 +202,7 @@ func (this *GOGPGlobalNamePrefixHeap) adjustDown(b []GOGPValueType, hole int, v
 	//#GOGP_ELSE
 	//C++ stl's adjust down algorithm
 	//it seems to cost more move, to get probably less cmpare
+	top := hole
 	for l := this.lchild(hole); l < size; l = this.lchild(hole) {
 		c := l                                              //index that need to be new root
 		if r := l + 1; r < size && !this.cmpV(b[r], b[l]) { //let the most proper child to compare with v
@@ -209,7 +210,14 @@ func (this *GOGPGlobalNamePrefixHeap) adjustDown(b []GOGPValueType, hole int, v
 		}
 		b[hole], hole = b[c], c
 	}
-	this.adjustUp(b, hole, v) //adjust up from leaf hole
+	for hole > top { //adjust up from leaf hole, but not above the subtree
+		parent := this.parent(hole)
+		if this.cmpV(v, b[parent]) {
+			break
+		}
+		b[hole], hole = b[parent], parent
+	}
+	b[hole] = v //put v to last hole
 	//#GOGP_ENDIF
 }
 
-- 
2.43.0


From 38059f1cf8970d21aa972752f254a25beb5c224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:33 +0000
Subject: [PATCH 52/62] fix: lfqueue template counts pops of the empty queue
 and forgets the count on Clear

---
 stl/gp/lfqueue.gp    | 7 +++++--
 stl/gp/lfqueue.gp.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/stl/gp/lfqueue.gp b/stl/gp/lfqueue.gp
index be666a6..b923136 100644
--- a/stl/gp/lfqueue.gp
+++ b/stl/gp/lfqueue.gp
@@ -97,16 +97,19 @@ func (this *<GLOBAL_NAME_PREFIX>LFQueue) PopFront() (v <VALUE_TYPE>, ok bool) {
 			next := n.next
 			if atomic.CompareAndSwapPointer(&this.head.next, t, next) {
 				v, ok = n.val, true
+				atomic.AddInt32(&this.size, -1)
 				break
 			}
 		}
 	}
-	atomic.AddInt32(&this.size, -1)
 	return
 }
 
 func (this *<GLOBAL_NAME_PREFIX>LFQueue) Clear() {
-	atomic.StorePointer(&this.head.next, nil)
+	n := (*<GLOBAL_NAME_PREFIX>LFQueueNode)(atomic.SwapPointer(&this.head.next, nil))
+	for ; n != nil; n = (*<GLOBAL_NAME_PREFIX>LFQueueNode)(n.next) {
+		atomic.AddInt32(&this.size, -1)
+	}
 	//atomic.StorePointer(&this.tail, nil)
 }
 
diff --git a/stl/gp/lfqueue.gp.go b/stl/gp/lfqueue.gp.go
index d95984d..58462a0 100644
--- a/stl/gp/lfqueue.gp.go
+++ b/stl/gp/lfqueue.gp.go
@@ -97,16 +97,19 @@ func (this *GOGPGlobalNamePrefixLFQueue) PopFront() (v GOGPValueType, ok bool) {
 			next := n.next
 			if atomic.CompareAndSwapPointer(&this.head.next, t, next) {
 				v, ok = n.val, true
+				atomic.AddInt32(&this.size, -1)
 				break
 			}
 		}
 	}
-	atomic.AddInt32(&this.size, -1)
 	return
 }
 
 func (this *GOGPGlobalNamePrefixLFQueue) Clear() {
-	atomic.StorePointer(&this.head.next, nil)
+	n := (*GOGPGlobalNamePrefixLFQueueNode)(atomic.SwapPointer(&this.head.next, nil))
+	for ; n != nil; n = (*GOGPGlobalNamePrefixLFQueueNode)(n.next) {
+		atomic.AddInt32(&this.size, -1)
+	}
 	//atomic.StorePointer(&this.tail, nil)
 }
 
-- 
2.43.0


From 313e1576e9954a03f88eb25be30495a3119ad050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:33 +0000
Subject: [PATCH 53/62] fix: lfdeque template steps before the first place of
 its buffer

---
 stl/gp/lfdeque.gp    | 2 +-
 stl/gp/lfdeque.gp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl/gp/lfdeque.gp b/stl/gp/lfdeque.gp
index f7c5b8d..6814339 100644
--- a/stl/gp/lfdeque.gp
+++ b/stl/gp/lfdeque.gp
@@ -212,7 +212,7 @@ func (this *<GLOBAL_NAME_PREFIX>LFDeque) next(idx uint32) (r uint32) {
 
 //prev buff
 func (this *<GLOBAL_NAME_PREFIX>LFDeque) prev(idx uint32) (r uint32) {
-	if r = idx - 1; r < 0 {
+	if r = idx - 1; idx == 0 {
 		r = this.Cap() - 1
 	}
 	return
diff --git a/stl/gp/lfdeque.gp.go b/stl/gp/lfdeque.gp.go
index 5566815..767d220 100644
--- a/stl/gp/lfdeque.gp.go
+++ b/stl/gp/lfdeque.gp.go
@@ -212,7 +212,7 @@ func (this *GOGPGlobalNamePrefixLFDeque) next(idx uint32) (r uint32) {
 
 //prev buff
 func (this *GOGPGlobalNamePrefixLFDeque) prev(idx uint32) (r uint32) {
-	if r = idx - 1; r < 0 {
+	if r = idx - 1; idx == 0 {
 		r = this.Cap() - 1
 	}
 	return
-- 
2.43.0


From 74a5e428ca2e7bbc4beff0a1556405fc7051f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:01 +0000
Subject: [PATCH 54/62] fix: regable registers take one value less than their
 limit

---
 regable/reg.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 6e01cc6..976fbd8 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -101,7 +101,7 @@ type Uint32Reger struct {
 
 func (me *Uint32Reger) init(name string) (err error) {
 	me.name = name
-	if err = me.id_gen.Init(g_invalid_id+1, g_invalid_id,
+	if err = me.id_gen.Init(g_invalid_id, g_invalid_id,
 		g_invalid_id+default_u32_reg_cnt); err != nil {
 		return
 	}
@@ -134,9 +134,10 @@ func (me *Uint32Reger) Reg(name string, val uint32) (r Uint32Id, err error) {
 	if err = check_lock(); err != nil {
 		return
 	}
-	if id, err = me.id_gen.Inc(); err != nil {
+	if _, err = me.id_gen.Inc(); err != nil {
 		return
 	}
+	id = me.id_gen.Val()
 	p := me.new_rec(name, val)
 	p.id = MakeRegedId(uint32(me.reger_id), id)
 	me.reg_list = append(me.reg_list, p)
-- 
2.43.0


From f4df16176f83e58e40a44ddc429847266e4cd825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:39 +0000
Subject: [PATCH 55/62] fix: registers generated from the regable template take
 one value less than their limit

---
 regable/reg.gp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regable/reg.gp b/regable/reg.gp
index 0555520..d9584c4 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -81,7 +81,7 @@ type <TYPENAME_U>Reger struct {
 
 func (me *<TYPENAME_U>Reger) init(name string) (err error) {
 	me.name = name
-	if err = me.id_gen.Init(g_invalid_id+1, g_invalid_id,
+	if err = me.id_gen.Init(g_invalid_id, g_invalid_id,
 		g_invalid_id+default_<TYPENAME_L_SHORT>_reg_cnt); err != nil {
 		return
 	}
@@ -114,9 +114,10 @@ func (me *<TYPENAME_U>Reger) Reg(<NAME_COMMENT_B>name string,<NAME_COMMENT_E> va
 	if err = check_lock(); err != nil {
 		return
 	}
-	if id, err = me.id_gen.Inc(); err != nil {
+	if _, err = me.id_gen.Inc(); err != nil {
 		return
 	}
+	id = me.id_gen.Val()
 	p := me.new_rec(<NAME_COMMENT_B>name,<NAME_COMMENT_E> val)
 	p.id = MakeRegedId(uint32(me.reger_id), id)
 	me.reg_list = append(me.reg_list, p)
-- 
2.43.0


From 74138e4febcecc05a1ef4b2f4e7fac2ded2b3277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:53 +0000
Subject: [PATCH 56/62] fix: errors ShowAll reads the registry without its lock
 while others register

---
 errors/errors.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index 9d16cf5..98c4488 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -95,9 +95,12 @@ func Reg(_err_name string) (id errId, err error) {
 
 func ShowAll() string {
 	var buf bytes.Buffer
-	s := fmt.Sprintf("[errors] Count:%d", g_id_cur_max-g_id_min+1)
+	g_id2err_lock.RLock()
+	max := g_id_cur_max
+	g_id2err_lock.RUnlock()
+	s := fmt.Sprintf("[errors] Count:%d", max-g_id_min+1)
 	buf.WriteString(s)
-	for id := errId(g_id_min); id <= g_id_cur_max; id++ {
+	for id := errId(g_id_min); id <= max; id++ {
 		buf.WriteString(consts.NewLine)
 		buf.WriteString(id.String())
 	}
-- 
2.43.0


From 21e8e37af643e1f8e5943dbb1d66af10bc0f2249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:41 +0000
Subject: [PATCH 57/62] fix: ring buffer: Init makes a buffer of the size asked
 for

The loop that rounds the size up declared its own variable, so every ring had room for one value.
---
 stl/gp/ringbuffer.gp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl/gp/ringbuffer.gp.go b/stl/gp/ringbuffer.gp.go
index b1eec5a..a030d38 100644
--- a/stl/gp/ringbuffer.gp.go
+++ b/stl/gp/ringbuffer.gp.go
@@ -38,7 +38,7 @@ func (this *GOGPGlobalNamePrefixRingBuffer) Init(bufSize int) {
 			bufSize = defaultRingBufferCap //default buffer size
 		}
 		sizeRndUp := 1
-		for sizeRndUp := 1; sizeRndUp < bufSize; sizeRndUp *= 2 { //body do nothing
+		for ; sizeRndUp < bufSize; sizeRndUp *= 2 { //body do nothing
 		}
 		this.mask = uint64(sizeRndUp - 1)
 		this.newBuf(sizeRndUp)
-- 
2.43.0


From f2fd2a73450452d6eee36df76a7268583664ff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:41 +0000
Subject: [PATCH 58/62] fix: ring buffer: Push returns false when full and true
 otherwise

It wrote over values not yet read, one place too far, and always returned false.
---
 stl/gp/ringbuffer.gp.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/stl/gp/ringbuffer.gp.go b/stl/gp/ringbuffer.gp.go
index a030d38..a744799 100644
--- a/stl/gp/ringbuffer.gp.go
+++ b/stl/gp/ringbuffer.gp.go
@@ -86,10 +86,17 @@ func (this *GOGPGlobalNamePrefixRingBuffer) MustPop() (val GOGPValueType, ok boo
 
 //push to back of deque, will return false when full
 func (this *GOGPGlobalNamePrefixRingBuffer) Push(v GOGPValueType) (ok bool) {
-	tail_r := atomic.AddUint64(&this.tail_r, 1)
-	idx := tail_r & this.mask
-	this.d[idx] = v
-	for old := tail_r - 1; !atomic.CompareAndSwapUint64(&this.tail, old, tail_r); { //body do nothing
+	var old uint64
+	for reserved := false; !reserved; reserved = atomic.CompareAndSwapUint64(&this.tail_r, old, old+1) {
+		old = atomic.LoadUint64(&this.tail_r)
+		if old+1 > atomic.LoadUint64(&this.head)+this.mask+1 { //full
+			return
+		}
+	}
+
+	idx := old & this.mask
+	this.d[idx], ok = v, true
+	for !atomic.CompareAndSwapUint64(&this.tail, old, old+1) { //body do nothing
 	}
 	return
 }
-- 
2.43.0


From 7c9d49e3268fefb498e90067fc4755c0d5bcb542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:41 +0000
Subject: [PATCH 59/62] fix: ring buffer: Pop returns false when empty

It returned true with a stale value, read from one place too far, and made the size negative.
---
 stl/gp/ringbuffer.gp.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/stl/gp/ringbuffer.gp.go b/stl/gp/ringbuffer.gp.go
index a744799..2a82ca7 100644
--- a/stl/gp/ringbuffer.gp.go
+++ b/stl/gp/ringbuffer.gp.go
@@ -103,10 +103,17 @@ func (this *GOGPGlobalNamePrefixRingBuffer) Push(v GOGPValueType) (ok bool) {
 
 //pop front of deque, will return false when empty
 func (this *GOGPGlobalNamePrefixRingBuffer) Pop() (val GOGPValueType, ok bool) {
-	head_r := atomic.AddUint64(&this.head_r, 1)
-	idx := head_r & this.mask
+	var old uint64
+	for reserved := false; !reserved; reserved = atomic.CompareAndSwapUint64(&this.head_r, old, old+1) {
+		old = atomic.LoadUint64(&this.head_r)
+		if old >= atomic.LoadUint64(&this.tail) { //empty
+			return
+		}
+	}
+
+	idx := old & this.mask
 	val, ok = this.d[idx], true
-	for old := head_r - 1; !atomic.CompareAndSwapUint64(&this.head, old, head_r); { //body do nothing
+	for !atomic.CompareAndSwapUint64(&this.head, old, old+1) { //body do nothing
 	}
 	return
 }
-- 
2.43.0


From 224b83b42cff43d76c3b4a93c6532586a53d8af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:09 +0000
Subject: [PATCH 60/62] fix: fs Hash and Fingerprint ignore errors of reading a
 file

A file that opens but cannot be read to its end was hashed as if it ended there.
---
 fs/file_path.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index 76185e8..ae31689 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -428,7 +428,9 @@ func (me FilePathObject) Fingerprint() (root *FileHashTreeNode, err error) {
 				}
 			} else {
 				r := io.Reader(f)
-				io.Copy(h, r)
+				if _, err = io.Copy(h, r); err != nil {
+					return
+				}
 				root.val.Size = FileSize(fi.Size())
 			}
 			h.Resetsize(int64(root.val.Size))
@@ -477,7 +479,9 @@ func (me FilePathObject) Hash(method xhash.HashMethod, salt string) (root *FileH
 				}
 			} else {
 				r := io.Reader(f)
-				io.Copy(h, r)
+				if _, err = io.Copy(h, r); err != nil {
+					return
+				}
 				root.val.Size = FileSize(fi.Size())
 			}
 			p := fmt.Sprintf("%x", h.Sum(nil))
-- 
2.43.0


From 3f00c9713d12f901321d29931adb97b14708f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:44 +0000
Subject: [PATCH 61/62] fix: ini New returns no error when reading the file
 fails

A directory, or a file that fails half way, was taken for an empty or shorter file.
---
 encoding/ini/ini.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/encoding/ini/ini.go b/encoding/ini/ini.go
index 3129f01..0313501 100644
--- a/encoding/ini/ini.go
+++ b/encoding/ini/ini.go
@@ -41,11 +41,20 @@ func New(path string) (*IniFile, error) {
 	defer func() {
 		f.Close()
 	}()
-	r := Load(f)
+	r, err := load(f)
+	if err != nil {
+		return nil, err
+	}
 	return r, nil
 }
 
 func Load(f io.Reader) *IniFile {
+	r, _ := load(f)
+	return r
+}
+
+//err is the error that ended reading, if it is not the end of the file
+func load(f io.Reader) (*IniFile, error) {
 	m := make(map[string]section)
 	r := bufio.NewReader(f)
 	sec := ""
@@ -83,7 +92,10 @@ func Load(f io.Reader) *IniFile {
 		}
 		m[sec][key] = val
 	}
-	return &IniFile{m}
+	if err == io.EOF {
+		err = nil
+	}
+	return &IniFile{m}, err
 }
 
 func (p *IniFile) Sections() []string {
-- 
2.43.0


From 6dc3f2711b4942cb1583bf3eda75584e3e5b73bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:03 +0000
Subject: [PATCH 62/62] fix: the GOPATH list is separated as the system does

On systems other than Windows the list is separated by colons, and the
source path was that of all its entries together.
---
 fs/file_line.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fs/file_line.go b/fs/file_line.go
index aa0e1ec..9017c0e 100644
--- a/fs/file_line.go
+++ b/fs/file_line.go
@@ -45,9 +45,10 @@ func Func() (f string) {
 func goPath() (p string) {
 	//get GoPath
 	s := os.Getenv("GOPATH")
-	if ss := strings.Split(s, ";"); ss != nil && len(ss) > 0 {
-		p = FormatPath(ss[0] + "/src/")
+	if i := strings.IndexByte(s, os.PathListSeparator); i >= 0 {
+		s = s[:i]
 	}
+	p = FormatPath(s + "/src/")
 	return
 }
 
-- 
2.43.0

