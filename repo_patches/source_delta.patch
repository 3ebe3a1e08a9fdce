From 9e35c8fd8ba7aa60276991ec0c2c59d43acd3276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 01/47] fix: GuavaMap: deleting an absent key with an unload
 function panics

---
 collections/guava_map.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 4f2257e..f06e12e 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -117,15 +117,15 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 }
 
 func (m *GuavaMap[K, V]) safeDelete(key K) {
+	v, ok := m.stored[key]
+	if !ok {
+		return
+	}
 	if m.unloadFunc != nil {
-		v := m.stored[key].v
-		go m.unloadFunc(key, v)
+		go m.unloadFunc(key, v.v)
 	}
-	if m.readTimeout > 0 || m.writeTimeout > 0 {
-		v := m.stored[key]
-		if v != nil && v.cancelFn != nil {
-			v.cancelFn()
-		}
+	if v.cancelFn != nil {
+		v.cancelFn()
 	}
 
 	delete(m.stored, key)
-- 
2.43.0


From 60acdb92dc7f1ff89e14f7fd24b95d787c9cf33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 02/47] fix: GuavaMap: a timer that fired for an old entry
 removes the newer entry of the key

---
 collections/guava_map.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index f06e12e..7f24e4e 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -74,9 +74,10 @@ func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
 				return
 			case <-res.timer.C:
 				m.mu.Lock()
-				m.safeDelete(key)
+				if m.stored[key] == res {
+					m.safeDelete(key)
+				}
 				m.mu.Unlock()
-
 			}
 		}()
 	}
-- 
2.43.0


From 260eee4f7df93472439ebb10f90009a9fb3e3158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 03/47] fix: GuavaMap: Set on a cached key races with Get and
 is lost when the old value is just expiring

---
 collections/guava_map.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 7f24e4e..5dec25a 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -291,14 +291,10 @@ func (m *GuavaMap[K, V]) Set(key K, val V) {
 		}
 		return
 	} else {
-		if v.timer != nil {
-			if m.writeTimeout > 0 {
-				v.timer.Reset(m.writeTimeout)
-			} else {
-				v.timer.Reset(m.readTimeout)
-			}
+		if v.cancelFn != nil {
+			v.cancelFn()
 		}
-		v.v = val
+		m.stored[key] = m.createHolder(key, val)
 		return
 	}
 
-- 
2.43.0


From 03a8d42cf5fe552e45cb7598349c513391c375a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 04/47] fix: GuavaMap: Clear without an unload function leaves
 the timers of the entries running

---
 collections/guava_map.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 5dec25a..4b4f24b 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -192,12 +192,12 @@ func (m *GuavaMap[K, V]) Delete(key K) {
 func (m *GuavaMap[K, V]) Clear() {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	if m.unloadFunc != nil {
-		for k, v := range m.stored {
+	for k, v := range m.stored {
+		if m.unloadFunc != nil {
 			go m.unloadFunc(k, v.v)
-			if v.cancelFn != nil {
-				v.cancelFn()
-			}
+		}
+		if v.cancelFn != nil {
+			v.cancelFn()
 		}
 	}
 	m.stored = make(map[K]*guavaHolder[V])
-- 
2.43.0


From 67ee06ab0f1f822658894dd1fcc96d5115a7a378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 05/47] fix: GuavaMap: with load locking a key is loaded twice,
 or a zero value is cached for a skipped load

---
 collections/guava_map.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 4b4f24b..7dcfff2 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -235,14 +235,20 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 	var loadedVal V
 
 	if m.lockLoad != nil {
+		// held until the value is stored, otherwise the next caller loads it again
 		m.lockLoad.Lock(key)
-		if !m.Has(key) {
-			loadedVal, err = m.loadFunc(key)
+		defer m.lockLoad.Unlock(key)
+		m.mu.RLock()
+		val, ok = m.stored[key]
+		m.mu.RUnlock()
+		if ok {
+			if val.timer != nil && m.readTimeout > 0 {
+				val.timer.Reset(m.readTimeout)
+			}
+			return val.v, nil
 		}
-		m.lockLoad.Unlock(key)
-	} else {
-		loadedVal, err = m.loadFunc(key)
 	}
+	loadedVal, err = m.loadFunc(key)
 
 	if err != nil {
 		var v V
-- 
2.43.0


From 234a6469898512fd3eb272f8058205a88c11eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 06/47] fix: GuavaMap: LockForUpdate ignores the maximum count
 and leaves the old timer running

---
 collections/guava_map.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 7dcfff2..b1c3139 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -179,6 +179,16 @@ func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) V {
 	res := update()
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	if v, ok := m.stored[key]; ok {
+		if v.cancelFn != nil {
+			v.cancelFn()
+		}
+	} else if m.maxCount > 0 {
+		if len(m.storedSlice) >= m.maxCount {
+			m.safeDelete(m.storedSlice[0])
+		}
+		m.storedSlice = append(m.storedSlice, key)
+	}
 	m.stored[key] = m.createHolder(key, res)
 	return res
 }
-- 
2.43.0


From 47873771231e90a39d85937b83023089e5fea8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 07/47] fix: GuavaMap: LockForUpdate does not exclude another
 update when the entry is removed meanwhile

---
 collections/guava_map.go | 71 ++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index b1c3139..99b91d3 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -142,39 +142,28 @@ func (m *GuavaMap[K, V]) safeDelete(key K) {
 		}
 	}
 
-	if m.updateLockMap != nil {
-		m.updateLockMapMu.RLock()
-		_, ok := m.updateLockMap[key]
-		m.updateLockMapMu.RUnlock()
-		if ok {
-			m.updateLockMapMu.Lock()
-			delete(m.updateLockMap, key)
-			m.updateLockMapMu.Unlock()
-		}
+	m.dropKeyLock(key)
+}
+
+// dropKeyLock forgets the update lock of the key unless an update is running under it
+func (m *GuavaMap[K, V]) dropKeyLock(key K) {
+	m.updateLockMapMu.Lock()
+	defer m.updateLockMapMu.Unlock()
+	if lock, ok := m.updateLockMap[key]; ok && lock.TryLock() {
+		delete(m.updateLockMap, key)
+		lock.Unlock()
 	}
 }
 
 func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) V {
-	if m.updateLockMap == nil {
-		m.updateLockMapMu.Lock()
-		if m.updateLockMap == nil {
-			m.updateLockMap = make(map[K]*sync.Mutex)
-		}
-		m.updateLockMapMu.Unlock()
-	}
-	m.updateLockMapMu.RLock()
-	lock, ok := m.updateLockMap[key]
-	m.updateLockMapMu.RUnlock()
-	if !ok {
-		m.updateLockMapMu.Lock()
-		lock, ok = m.updateLockMap[key]
-		if !ok {
-			lock = &sync.Mutex{}
-			m.updateLockMap[key] = lock
-		}
-		m.updateLockMapMu.Unlock()
-	}
+	lock := m.getKeyLock(key)
 	lock.Lock()
+	for current := m.getKeyLock(key); current != lock; current = m.getKeyLock(key) {
+		// the lock was dropped together with its entry while we waited for it
+		lock.Unlock()
+		lock = current
+		lock.Lock()
+	}
 	defer lock.Unlock()
 	res := update()
 	m.mu.Lock()
@@ -214,10 +203,13 @@ func (m *GuavaMap[K, V]) Clear() {
 	if m.maxCount > 0 {
 		m.storedSlice = make([]K, 0, m.maxCount)
 	}
-	if m.updateLockMap != nil {
-		m.updateLockMapMu.Lock()
-		defer m.updateLockMapMu.Unlock()
-		m.updateLockMap = make(map[K]*sync.Mutex)
+	m.updateLockMapMu.Lock()
+	defer m.updateLockMapMu.Unlock()
+	for key, lock := range m.updateLockMap {
+		if lock.TryLock() {
+			delete(m.updateLockMap, key)
+			lock.Unlock()
+		}
 	}
 }
 
@@ -369,13 +361,14 @@ func (b *GuavaMapBuilder[K, V]) WithReadTimeout(readTimeout time.Duration) *Guav
 
 func (b *GuavaMapBuilder[K, V]) Build() *GuavaMap[K, V] {
 	res := &GuavaMap[K, V]{
-		stored:       make(map[K]*guavaHolder[V]),
-		loadFunc:     b.loadFunc,
-		maxCount:     b.maxCount,
-		unloadFunc:   b.unloadFunc,
-		writeTimeout: b.writeTimeout,
-		readTimeout:  b.readTimeout,
-		ctx:          b.ctx,
+		stored:        make(map[K]*guavaHolder[V]),
+		updateLockMap: make(map[K]*sync.Mutex),
+		loadFunc:      b.loadFunc,
+		maxCount:      b.maxCount,
+		unloadFunc:    b.unloadFunc,
+		writeTimeout:  b.writeTimeout,
+		readTimeout:   b.readTimeout,
+		ctx:           b.ctx,
 	}
 	if b.lockLoad {
 		res.lockLoad = NewMapMutex[K]()
-- 
2.43.0


From 67aff7e8feb189bb9cd9cd601e32bc523814769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 08/47] fix: GuavaMap: GetStored reads the map without its lock

---
 collections/guava_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 99b91d3..5d9dffb 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -276,8 +276,8 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 }
 
 func (m *GuavaMap[K, V]) GetStored() map[K]V {
-	resStored := make(map[K]V, len(m.stored))
 	m.mu.RLock()
+	resStored := make(map[K]V, len(m.stored))
 	for k, v := range m.stored {
 		resStored[k] = v.v
 	}
-- 
2.43.0


From d4fe7a9865158937b82a938e6672305fe83ca104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 09/47] fix: GuavaMap: HasOrCreate without a maximum count
 collects keys for ever

---
 collections/guava_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 5d9dffb..8a130da 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -107,8 +107,8 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 			if len(m.storedSlice) >= m.maxCount {
 				m.safeDelete(m.storedSlice[0])
 			}
+			m.storedSlice = append(m.storedSlice, key)
 		}
-		m.storedSlice = append(m.storedSlice, key)
 	} else {
 		if m.stored[key].timer != nil && m.readTimeout > 0 {
 			m.stored[key].timer.Reset(m.readTimeout)
-- 
2.43.0


From e3bd6c9cafd3a905af7c8ad8a66b866e981cb77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 10/47] fix: HashSet: adding a present key records it again, so
 that a member is evicted too early or never

---
 collections/hash_set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/hash_set.go b/collections/hash_set.go
index c8377c6..9ce29fd 100644
--- a/collections/hash_set.go
+++ b/collections/hash_set.go
@@ -27,6 +27,9 @@ func (s *HashSet[K]) Add(key K) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	if _, ok := s.m[key]; ok {
+		return
+	}
 	s.m[key] = true
 	s.ml = append(s.ml, key)
 	if s.maxCount > 0 && len(s.m) > s.maxCount {
-- 
2.43.0


From e67e9bd900e8f3f4af545d9ea2334bfa2a798766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 11/47] fix: HolderMap: a Wait that joins while the outcome is
 delivered blocks for ever

---
 collections/holder_map.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index e0b1935..7b16b96 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -46,11 +46,12 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok { // Has holder
+		h.mu.Lock()
 		if h.released {
+			h.mu.Unlock()
 			return h.Err
 		} else {
 			waitChan := make(chan error, 1)
-			h.mu.Lock()
 			h.releaseChanList = append(h.releaseChanList, waitChan)
 			h.mu.Unlock()
 			return <-waitChan
@@ -60,11 +61,12 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 		h, ok = c.m[trx]
 		if ok {
 			c.mu.Unlock()
+			h.mu.Lock()
 			if h.released {
+				h.mu.Unlock()
 				return h.Err
 			} else {
 				waitChan := make(chan error, 1)
-				h.mu.Lock()
 				h.releaseChanList = append(h.releaseChanList, waitChan)
 				h.mu.Unlock()
 				return <-waitChan
-- 
2.43.0


From 895e2ed199c40747c02126e47724dfc3018e0c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 12/47] fix: HolderMap: Get races with Update and with the
 outcome

---
 collections/holder_map.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index 7b16b96..9a3448b 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -29,6 +29,8 @@ func (c *HolderMap[K, V]) Get(trx K) (V, error) {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
+		h.mu.Lock()
+		defer h.mu.Unlock()
 		return h.Object, h.Err
 	}
 	var defaultV V
-- 
2.43.0


From 387ddf5daf85cada783745f5f032c76d6175cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 13/47] fix: HolderMap: cancelling the context leaves the
 waiters blocked

---
 collections/holder_map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index 9a3448b..9c68b77 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -89,7 +89,9 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 					h.released = true
 					h.Err = errors.New("timeout")
 				case <-c.ctx.Done():
-					return
+					h.mu.Lock()
+					h.released = true
+					h.Err = c.ctx.Err()
 				case errInChan := <-h.inChan:
 					h.mu.Lock()
 					h.released = true
-- 
2.43.0


From 3534b1395a0e094317b4ce4afe945df195565659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 14/47] fix: HolderMap: Release and Error block for ever once
 the key has its outcome

---
 collections/holder_map.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index 9c68b77..8b6cbca 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -134,7 +134,10 @@ func (c *HolderMap[K, V]) Release(trx K) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
-		h.inChan <- nil
+		select {
+		case h.inChan <- nil:
+		default: // there is an outcome already
+		}
 		return nil
 	} else {
 		return errors.New("not found")
@@ -146,7 +149,10 @@ func (c *HolderMap[K, V]) Error(trx K, err error) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
-		h.inChan <- err
+		select {
+		case h.inChan <- err:
+		default: // there is an outcome already
+		}
 		return nil
 	} else {
 		return errors.New("not found")
-- 
2.43.0


From 9ff3767ccca7bc6995d05b384ac473d11241aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 15/47] fix: RequestMap: a result that expired already is
 dropped again, together with a newer one of its key

---
 collections/request_map.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collections/request_map.go b/collections/request_map.go
index e882ea6..9e9768a 100644
--- a/collections/request_map.go
+++ b/collections/request_map.go
@@ -71,6 +71,7 @@ func (rm *RequestMap[K, V]) rmWorker() {
 			}
 			delete(rm.response, r.key)
 		}
+		rm.resultSlice = nil
 	}
 
 	for {
-- 
2.43.0


From 8187c2c25ea9ef63b57491de443623688a298477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 16/47] fix: RequestMap: preloaded results never expire

---
 collections/request_map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/request_map.go b/collections/request_map.go
index 9e9768a..d056c74 100644
--- a/collections/request_map.go
+++ b/collections/request_map.go
@@ -41,7 +41,9 @@ func NewRequestMap[K comparable, V any](ctx context.Context, ttl time.Duration,
 	}
 	if len(init) > 0 {
 		for _, i := range init {
-			res.response[i.Key] = resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: time.Now()}
+			r := resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: time.Now()}
+			res.response[i.Key] = r
+			res.resultSlice = append(res.resultSlice, r)
 		}
 	}
 	go res.rmWorker()
-- 
2.43.0


From 94be4a83a3378bb9a3013f48c14df9e36d6c53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 17/47] fix: StructUniqSet: the cleaner panics on an empty set

---
 collections/struct_uniq_set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 2ce3ff9..4041047 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -77,6 +77,10 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 				return
 			case <-time.After(res.checkInterval):
 				res.elementsMu.RLock()
+				if len(res.ttlElements) == 0 {
+					res.elementsMu.RUnlock()
+					continue
+				}
 				first := res.ttlElements[0]
 				res.elementsMu.RUnlock()
 				if time.Since(first.createdAt) < res.ttl {
-- 
2.43.0


From 1b2efa60d810ce8d62ed1bb881f5e95988b4c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 18/47] fix: StructUniqSet: an element added again is dropped
 with the expiry of its earlier stay

---
 collections/struct_uniq_set.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 4041047..705e0bf 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -87,13 +87,17 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 					continue
 				}
 				res.elementsMu.Lock()
-				for i, el := range res.ttlElements {
+				expired := 0
+				for _, el := range res.ttlElements {
 					if time.Since(el.createdAt) < res.ttl {
-						res.ttlElements = res.ttlElements[i:]
 						break
 					}
-					delete(res.elements, el.hash)
+					if res.elements[el.hash] == el {
+						delete(res.elements, el.hash)
+					}
+					expired++
 				}
+				res.ttlElements = res.ttlElements[expired:]
 				res.elementsMu.Unlock()
 			}
 		}
-- 
2.43.0


From 65982cacf8fe34235b9f21383ca12614f9bf1ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 19/47] fix: StructUniqSet: the configured build function is
 ignored

---
 collections/struct_uniq_set.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 705e0bf..f21b5b1 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -106,14 +106,7 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 }
 
 func (s *StructUniqSet[V]) getHashCode(v V) ([16]byte, error) {
-	var buffer bytes.Buffer
-	enc := gob.NewEncoder(&buffer)
-	err := enc.Encode(v)
-	if err != nil {
-		return [16]byte{}, err
-	}
-	md5.Sum(buffer.Bytes())
-	return md5.Sum(buffer.Bytes()), nil
+	return s.build(v)
 }
 
 func (s *StructUniqSet[V]) Count() int {
-- 
2.43.0


From 5ce496a0641a225546627672182d57402f63d006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 20/47] fix: TwoKeyMap: Put leaves stale associations of both
 keys behind

---
 collections/two_key_map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collections/two_key_map.go b/collections/two_key_map.go
index 1b73024..5d3b917 100644
--- a/collections/two_key_map.go
+++ b/collections/two_key_map.go
@@ -28,6 +28,12 @@ func NewTwoKeyMap[K1, K2 comparable, V any]() *TwoKeyMap[K1, K2, V] {
 func (m *TwoKeyMap[K1, K2, V]) Put(k1 K1, k2 K2, v V) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	if old, ok := m.k1Tok2[k1]; ok && old != k2 {
+		delete(m.k2Tok1, old)
+	}
+	if owner, ok := m.k2Tok1[k2]; ok && owner != k1 {
+		delete(m.k1Tok2, owner)
+	}
 	m.data[k1] = v
 	m.k1Tok2[k1] = k2
 	m.k2Tok1[k2] = k1
-- 
2.43.0


From 40cb778d1fb043783a4ca40fd1c642329a39f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 21/47] fix: TwoKeyMap: removing by an absent key removes the
 entry of the zero key

---
 collections/two_key_map.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/collections/two_key_map.go b/collections/two_key_map.go
index 5d3b917..a9a730c 100644
--- a/collections/two_key_map.go
+++ b/collections/two_key_map.go
@@ -62,15 +62,21 @@ func (m *TwoKeyMap[K1, K2, V]) Remove(k1 K1) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
 	delete(m.data, k1)
-	delete(m.k2Tok1, m.k1Tok2[k1])
+	if k2, ok := m.k1Tok2[k1]; ok {
+		delete(m.k2Tok1, k2)
+	}
 	delete(m.k1Tok2, k1)
 }
 
 func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(k2 K2) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	delete(m.data, m.k2Tok1[k2])
-	delete(m.k1Tok2, m.k2Tok1[k2])
+	k1, ok := m.k2Tok1[k2]
+	if !ok {
+		return
+	}
+	delete(m.data, k1)
+	delete(m.k1Tok2, k1)
 	delete(m.k2Tok1, k2)
 }
 
-- 
2.43.0


From d230724be1b204329d728ddf7d7a8db846602ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 22/47] fix: WaitMap: the request timeout of an answered Wait
 stores a zero value or ends a later Wait early

---
 collections/wait_map.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/collections/wait_map.go b/collections/wait_map.go
index aaaf10f..85c1d61 100644
--- a/collections/wait_map.go
+++ b/collections/wait_map.go
@@ -64,8 +64,13 @@ func (wm *WaitMap[K, V]) Wait(key K) V {
 				}
 				wm.mu.Unlock()
 			case <-time.After(wm.requestTimeout): // TIMEOUT
-				var v V
-				wm.Set(key, v)
+				wm.mu.Lock()
+				// only if ch still is the first waiter: later rounds have a timeout of their own
+				if chans := wm.waiterChannels[key]; len(chans) > 0 && chans[0] == ch {
+					var v V
+					wm.set(key, v)
+				}
+				wm.mu.Unlock()
 			}
 		}()
 	}
@@ -79,7 +84,10 @@ func (wm *WaitMap[K, V]) Wait(key K) V {
 func (wm *WaitMap[K, V]) Set(key K, value V) {
 	wm.mu.Lock()
 	defer wm.mu.Unlock()
+	wm.set(key, value)
+}
 
+func (wm *WaitMap[K, V]) set(key K, value V) {
 	if _, ok := wm.dataHolder[key]; ok {
 		return
 	}
-- 
2.43.0


From 2c2285076296ae180e7abdbe71fac36aaf4b243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 23/47] fix: ResponseMap: Set and Wait block, panic or race
 when the key is answered twice, times out or is cleaned up

---
 collections/response_map.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/collections/response_map.go b/collections/response_map.go
index ccf1803..2c170d9 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -73,6 +73,7 @@ type chansHolder[K comparable, V any] struct {
 	createdAt time.Time
 	mu        sync.RWMutex
 	isExist   bool
+	closed    bool
 	data      V
 	dataCh    chan V
 	listeners []chan V
@@ -93,24 +94,30 @@ func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHol
 		for {
 			select {
 			case <-h.ctx.Done():
-				close(h.dataCh)
+				h.mu.Lock()
 				for _, ch := range h.listeners {
 					close(ch)
 				}
+				h.listeners = nil
+				h.closed = true
+				h.mu.Unlock()
 				return
 			case <-h.t.C:
+				h.mu.Lock()
 				for _, ch := range h.listeners {
 					close(ch)
 				}
-				h.mu.Lock()
 				h.listeners = nil
 				h.mu.Unlock()
 			case d := <-h.dataCh:
 				h.mu.Lock()
-				h.data = d
-				h.isExist = true
-				for _, ch := range h.listeners {
-					ch <- d
+				if !h.isExist {
+					h.data = d
+					h.isExist = true
+					for _, ch := range h.listeners {
+						ch <- d
+					}
+					h.listeners = nil
 				}
 				h.mu.Unlock()
 			}
@@ -126,21 +133,24 @@ func (h *chansHolder[K, V]) set(data V) {
 	if exist {
 		return
 	}
-	h.dataCh <- data
+	select {
+	case h.dataCh <- data:
+	case <-h.ctx.Done():
+	}
 }
 
 func (h *chansHolder[K, V]) wait() V {
 	h.mu.RLock()
-	e := h.isExist
+	e, data := h.isExist, h.data
 	h.mu.RUnlock()
 	if e {
-		return h.data
+		return data
 	}
 	h.mu.Lock()
-	e = h.isExist
-	if e {
+	if h.isExist || h.closed {
+		data = h.data
 		h.mu.Unlock()
-		return h.data
+		return data
 	}
 	ch := make(chan V, 1)
 	h.listeners = append(h.listeners, ch)
-- 
2.43.0


From c4f37ddec57aa7ab64ce6261185b71758834b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 24/47] fix: ResponseMap: a Wait that starts after an earlier
 one timed out never times out

---
 collections/response_map.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/collections/response_map.go b/collections/response_map.go
index 2c170d9..c4fb01c 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -70,6 +70,8 @@ type chansHolder[K comparable, V any] struct {
 	cancelCtx context.CancelFunc
 	trx       K
 	t         *time.Timer
+	timeout   time.Duration
+	deadline  time.Time
 	createdAt time.Time
 	mu        sync.RWMutex
 	isExist   bool
@@ -86,6 +88,8 @@ func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHol
 		cancelCtx: cancel,
 		trx:       trx,
 		t:         time.NewTimer(timeout),
+		timeout:   timeout,
+		deadline:  time.Now().Add(timeout),
 		createdAt: time.Now(),
 		dataCh:    make(chan V, 1),
 	}
@@ -104,6 +108,10 @@ func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHol
 				return
 			case <-h.t.C:
 				h.mu.Lock()
+				if time.Now().Before(h.deadline) { // armed again meanwhile
+					h.mu.Unlock()
+					continue
+				}
 				for _, ch := range h.listeners {
 					close(ch)
 				}
@@ -152,6 +160,10 @@ func (h *chansHolder[K, V]) wait() V {
 		h.mu.Unlock()
 		return data
 	}
+	if len(h.listeners) == 0 {
+		h.deadline = time.Now().Add(h.timeout)
+		h.t.Reset(h.timeout)
+	}
 	ch := make(chan V, 1)
 	h.listeners = append(h.listeners, ch)
 	h.mu.Unlock()
-- 
2.43.0


From 39e2d0e8bc7d19258c7b533a1387b87c99383948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 25/47] fix: ResponseMap: the cleaner reads the map without its
 lock

---
 collections/response_map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/response_map.go b/collections/response_map.go
index c4fb01c..edf32eb 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -206,9 +206,9 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-t.C:
-			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
 			var remove []*chansHolder[K, V]
 			r.mu.RLock()
+			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
 			for _, holder := range r.m {
 				if time.Now().After(holder.createdAt.Add(r.clearTimeout)) {
 					remove = append(remove, holder)
@@ -221,8 +221,8 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 				holder.cancelCtx()
 				delete(r.m, holder.trx)
 			}
-			r.mu.Unlock()
 			r.logger.Debug().Int("holders count", len(r.m)).Msg("successfully cleaned expired holders")
+			r.mu.Unlock()
 		}
 	}
 }
-- 
2.43.0


From 410c74242770c0fa287863c76d18acaffe28c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 26/47] fix: ChunkChan: the goroutine stays blocked after
 cancellation when nobody reads

---
 chans/chunk_chan.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index 689a321..70dc1f0 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -41,13 +41,21 @@ func (c *ChunkChan[T]) run() {
 			return
 		case <-t.C:
 			if len(chunk) > 0 {
-				c.outgoingChan <- chunk
+				select {
+				case <-c.ctx.Done():
+					return
+				case c.outgoingChan <- chunk:
+				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
 		case item := <-c.incomingChan:
 			chunk = append(chunk, item)
 			if len(chunk) >= c.chunkSize {
-				c.outgoingChan <- chunk
+				select {
+				case <-c.ctx.Done():
+					return
+				case c.outgoingChan <- chunk:
+				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
 		}
-- 
2.43.0


From 6d06addf82aa5e8c1d6bb0aec1716f13df69bdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 27/47] fix: ChunkChan: Add stays blocked after cancellation

---
 chans/chunk_chan.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index 70dc1f0..ff6d71c 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -16,7 +16,10 @@ type ChunkChan[T any] struct {
 }
 
 func (c *ChunkChan[T]) Add(item T) {
-	c.incomingChan <- item
+	select {
+	case <-c.ctx.Done():
+	case c.incomingChan <- item:
+	}
 }
 
 func (c *ChunkChan[T]) Incoming() chan T {
-- 
2.43.0


From ffb1179e48469b8d3eba3d3ad61d6407691fef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 28/47] fix: ShardChan: a message with a negative shard value
 blocks the dispatcher for ever

---
 chans/shard_chan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index a967941..2145ccd 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -132,6 +132,9 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 				return
 			case msg := <-res.incomingChan:
 				key := res.shardFunc(msg) % res.shardCount
+				if key < 0 {
+					key += res.shardCount
+				}
 				res.outgoingChans[key] <- msg
 			}
 		}
-- 
2.43.0


From 28b872f7c277655ce4dde874d71b95ac6d7b41d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 29/47] fix: ShardChan: the dispatcher stays blocked after
 cancellation when nobody reads

---
 chans/shard_chan.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 2145ccd..967afe2 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -135,7 +135,11 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 				if key < 0 {
 					key += res.shardCount
 				}
-				res.outgoingChans[key] <- msg
+				select {
+				case <-res.ctx.Done():
+					return
+				case res.outgoingChans[key] <- msg:
+				}
 			}
 		}
 	}()
-- 
2.43.0


From 823d9ec19129fe65b6961f7b32099778b298f43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 30/47] fix: Runner: Run and RunWithContext stay blocked after
 cancellation

---
 workers/runner.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/workers/runner.go b/workers/runner.go
index 4b20cc0..5ab7731 100644
--- a/workers/runner.go
+++ b/workers/runner.go
@@ -20,11 +20,17 @@ type Runner struct {
 }
 
 func (r *Runner) Run(fn RunnerFn) {
-	r.runners <- fn
+	select {
+	case <-r.ctx.Done():
+	case r.runners <- fn:
+	}
 }
 
 func (r *Runner) RunWithContext(fn RunnerContextFn) {
-	r.runnersCtx <- fn
+	select {
+	case <-r.ctx.Done():
+	case r.runnersCtx <- fn:
+	}
 }
 
 type RunnerBuilder struct {
-- 
2.43.0


From 8318753a88a66898ce12aea284d6b50d15bd17c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 31/47] fix: AES: Decrypt panics on a ciphertext shorter than
 the nonce

---
 crypto/aes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/aes.go b/crypto/aes.go
index a848755..14dc3b8 100644
--- a/crypto/aes.go
+++ b/crypto/aes.go
@@ -4,6 +4,7 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"errors"
 )
 
 type AES struct {
@@ -54,6 +55,9 @@ func (a *AES) Decrypt(cipherData []byte) ([]byte, error) {
 	// Since we know the ciphertext is actually nonce+ciphertext
 	// And len(nonce) == NonceSize(). We can separate the two.
 	nonceSize := gcm.NonceSize()
+	if len(cipherData) < nonceSize {
+		return nil, errors.New("ciphertext too short")
+	}
 	nonce, ciphertext := cipherData[:nonceSize], cipherData[nonceSize:]
 
 	plaintext, err := gcm.Open(nil, nonce, ciphertext, nil)
-- 
2.43.0


From 2e5bfbbdeb1f654c9c9ba32815660209112bd2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 32/47] fix: net: UnpackUint panics when the data is too short

---
 net/to_bytes.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/net/to_bytes.go b/net/to_bytes.go
index 264a016..50d0254 100644
--- a/net/to_bytes.go
+++ b/net/to_bytes.go
@@ -14,6 +14,7 @@ zed (14.03.2024)
 */
 
 var ErrUnsupportedType = errors.New("unsupported type")
+var ErrShortData = errors.New("data too short")
 
 func GetBytesFromInt(data int, count int) []byte {
 	bs := make([]byte, count)
@@ -51,6 +52,12 @@ func PackUint(order binary.ByteOrder, v interface{}) (data []byte) {
 }
 
 func UnpackUint(order binary.ByteOrder, data []byte, v interface{}) error {
+	switch v.(type) {
+	case *uint64, *uint32, *uint16, *uint8:
+		if len(data) < binary.Size(v) {
+			return ErrShortData
+		}
+	}
 	switch val := v.(type) {
 	case *uint64:
 		*val = order.Uint64(data)
-- 
2.43.0


From 7ba33e5a68f4f0b8676a058f89e3d9c9e1a93a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 33/47] fix: crypto_fs: reading a file starts over with each
 Read and never ends

---
 crypto_fs/crypto_fs.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 570e972..52a420a 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -170,7 +170,7 @@ func (c *cryptoFS) Open(path string) (fs.File, error) {
 	if !ok {
 		return nil, fs.ErrNotExist
 	}
-	return f, nil
+	return &openFile{file: f, reader: bytes.NewReader(f.Data)}, nil
 }
 
 func (c *cryptoFS) ReadDir(name string) ([]fs.DirEntry, error) {
@@ -232,9 +232,14 @@ func (f file) Stat() (fs.FileInfo, error) {
 	return f, nil
 }
 
-func (f file) Read(i []byte) (int, error) {
-	buf := bytes.NewBuffer(f.Data)
-	return buf.Read(i)
+// openFile is an opened file with a read position of its own
+type openFile struct {
+	file
+	reader *bytes.Reader
+}
+
+func (f *openFile) Read(i []byte) (int, error) {
+	return f.reader.Read(i)
 }
 
-func (f file) Close() error { return nil }
+func (f *openFile) Close() error { return nil }
-- 
2.43.0


From cb9845f0356bdf1fd25607b8234801339f2d7c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 34/47] fix: crypto_fs: AddFolder panics on a missing folder

---
 crypto_fs/crypto_fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 52a420a..1a31ea0 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -49,6 +49,9 @@ func (b *CryptoFSBuilder) AddFile(path string) *CryptoFSBuilder {
 func (b *CryptoFSBuilder) AddFolder(folderPath string) *CryptoFSBuilder {
 	folderPath = path.Join(b.rootDir, folderPath)
 	err := filepath.Walk(folderPath, func(root string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			entries, err := os.ReadDir(root)
 			if err != nil {
-- 
2.43.0


From c1468fafe8821d2deb7508c32512cceaf799ef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 35/47] fix: crypto_fs: the name of a file added by AddFile is
 its whole path

---
 crypto_fs/crypto_fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 1a31ea0..9620d40 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -38,7 +38,7 @@ func (b *CryptoFSBuilder) AddFile(path string) *CryptoFSBuilder {
 		return b
 	}
 	f := file{
-		FileName: of.Name(),
+		FileName: filepath.Base(of.Name()),
 		Path:     path,
 		Data:     data,
 	}
-- 
2.43.0


From b8ff77a81304bc74a27fc769939ed57ffd7bac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 36/47] fix: crypto_fs: the mode of a folder does not say that
 it is one

---
 crypto_fs/crypto_fs.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 9620d40..a1aa390 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -200,7 +200,7 @@ type file struct {
 }
 
 func (f file) Type() fs.FileMode {
-	return fs.FileMode(0755)
+	return f.Mode().Type()
 }
 
 func (f file) Info() (fs.FileInfo, error) {
@@ -216,7 +216,10 @@ func (f file) Size() int64 {
 }
 
 func (f file) Mode() fs.FileMode {
-	return fs.FileMode(0)
+	if f.IsDirFlag {
+		return fs.ModeDir | 0755
+	}
+	return fs.FileMode(0755)
 }
 
 func (f file) ModTime() time.Time {
-- 
2.43.0


From 73f6371d8a2ccac87399b17867191b10b9cb03c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 37/47] fix: crypto_fs: the entries of a folder have size zero

---
 crypto_fs/crypto_fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index a1aa390..8e53ca5 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -187,6 +187,9 @@ func (c *cryptoFS) ReadDir(name string) ([]fs.DirEntry, error) {
 	entries := make([]fs.DirEntry, len(f.Entries))
 	for i := 0; i < len(f.Entries); i++ {
 		entries[i] = f.Entries[i]
+		if stored, ok := c.files[f.Entries[i].Path]; ok {
+			entries[i] = stored
+		}
 	}
 	return entries, nil
 }
-- 
2.43.0


From 4118e20ee04591d18bd526a3c7aa617a00d10a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 38/47] fix: StructUniqSet: hashing a nil pointer panics
 instead of giving an error

---
 collections/struct_uniq_set.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index f21b5b1..4374b7d 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -5,6 +5,8 @@ import (
 	"context"
 	"crypto/md5"
 	"encoding/gob"
+	"errors"
+	"reflect"
 	"sync"
 	"time"
 )
@@ -162,6 +164,9 @@ func (s *StructUniqSet[V]) Remove(v V) (bool, error) {
 }
 
 func getHashCode(v any) ([16]byte, error) {
+	if rv := reflect.ValueOf(v); rv.Kind() == reflect.Pointer && rv.IsNil() {
+		return [16]byte{}, errors.New("nil pointer has no hash") // gob panics on it
+	}
 	var buffer bytes.Buffer
 	enc := gob.NewEncoder(&buffer)
 	err := enc.Encode(v)
-- 
2.43.0


From 6613f2dca9815e6c04c6b84fbe2dd962fa77a4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:20 +0000
Subject: [PATCH 39/47] fix: Runner: workers go on with queued functions after
 cancellation

---
 workers/runner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/workers/runner.go b/workers/runner.go
index 5ab7731..899e6f9 100644
--- a/workers/runner.go
+++ b/workers/runner.go
@@ -67,6 +67,9 @@ func (b *RunnerBuilder) Build() *Runner {
 	for i := 0; i < b.workerCount; i++ {
 		go func() {
 			for {
+				if r.ctx.Err() != nil {
+					return
+				}
 				select {
 				case <-r.ctx.Done():
 					return
-- 
2.43.0


From f7c731de097642730946af6d5d09eb620ebc9b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 40/47] fix: IntPointMove: huge shifts give a wrong result or
 take for ever

---
 math/decimal_int.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/decimal_int.go b/math/decimal_int.go
index 7b737b5..cf38dcf 100644
--- a/math/decimal_int.go
+++ b/math/decimal_int.go
@@ -13,11 +13,11 @@ func IntPointMove(value int, shift int) int {
 		return value
 	}
 	if shift > 0 {
-		for i := 0; i < shift; i++ {
+		for ; shift > 0 && value != 0; shift-- {
 			value *= 10
 		}
 	} else {
-		for i := 0; i < -shift; i++ {
+		for ; shift < 0 && value != 0; shift++ {
 			value /= 10
 		}
 	}
-- 
2.43.0


From e0279e1eb15a7a2ffa488a4f8af51363174b19d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 41/47] fix: ChunkChanBuilder: every Build after the first
 shares the first one's incoming channel

---
 chans/chunk_chan.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index ff6d71c..b0c5b9c 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -121,14 +121,15 @@ func (b *ChunkChanBuilder[T]) WithIncomingChan(incomingChan chan T) *ChunkChanBu
 }
 
 func (b *ChunkChanBuilder[T]) Build() *ChunkChan[T] {
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	incomingChan := b.incomingChan
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
 	res := &ChunkChan[T]{
 		ctx:          b.ctx,
 		chunkSize:    b.chunkSize,
 		chunkTimeout: b.chunkTimeout,
-		incomingChan: b.incomingChan,
+		incomingChan: incomingChan,
 		outgoingChan: make(chan []T, b.outgoingBufferSize),
 	}
 
-- 
2.43.0


From 0843a12133d5439659d6f84e41903a0277b1bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 42/47] fix: ShardChanBuilder: every Build after the first
 shares the first one's incoming channel

---
 chans/shard_chan.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 967afe2..e841f5f 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -112,13 +112,14 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 	if b.shardFunc == nil {
 		return nil, ErrShardFuncIsNil
 	}
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	incomingChan := b.incomingChan
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
 	res := &ShardChan[T]{
 		ctx:           b.ctx,
 		shardFunc:     b.shardFunc,
-		incomingChan:  b.incomingChan,
+		incomingChan:  incomingChan,
 		shardCount:    b.shardCount,
 		outgoingChans: make(map[int]chan T, b.shardCount),
 	}
-- 
2.43.0


From abaef2727c663e532841b5dbea84cd64f24b4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 43/47] fix: ChunkChan: the worker follows what the builder is
 set to later

---
 chans/chunk_chan.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index b0c5b9c..841dac0 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -134,14 +134,14 @@ func (b *ChunkChanBuilder[T]) Build() *ChunkChan[T] {
 	}
 
 	go res.run()
-	if b.chunkFunc != nil {
+	if chunkFunc := b.chunkFunc; chunkFunc != nil {
 		go func() {
 			for {
 				select {
-				case <-b.ctx.Done():
+				case <-res.ctx.Done():
 					return
 				case chunk := <-res.outgoingChan:
-					b.chunkFunc(chunk)
+					chunkFunc(chunk)
 				}
 			}
 		}()
-- 
2.43.0


From c6cf3a0ef70d7bdf271c373492f72d94697f19ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 44/47] fix: ShardChan: the workers follow what the builder is
 set to later

---
 chans/shard_chan.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index e841f5f..b1b5b81 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -144,7 +144,7 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 			}
 		}
 	}()
-	if b.workerFunc != nil {
+	if workerFunc := b.workerFunc; workerFunc != nil {
 		for i := 0; i < b.shardCount; i++ {
 			go func(k int) {
 				for {
@@ -152,7 +152,7 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 					case <-res.ctx.Done():
 						return
 					case msg := <-res.outgoingChans[k]:
-						b.workerFunc(k, msg)
+						workerFunc(k, msg)
 					}
 				}
 			}(i)
-- 
2.43.0


From c73853fc459f8e112d419a3489cfa39b18e79528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 45/47] fix: ShardChunk: the goroutines follow what the builder
 is set to later

---
 chans/shard_chunk_chan.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/chans/shard_chunk_chan.go b/chans/shard_chunk_chan.go
index 95f2f53..d835bb0 100644
--- a/chans/shard_chunk_chan.go
+++ b/chans/shard_chunk_chan.go
@@ -112,6 +112,7 @@ func (b *ShardChunkBuilder[T]) WithIncomingChan(incomingChan chan T) *ShardChunk
 }
 
 func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
+	ctx, shardWorker := b.ctx, b.shardWorker
 	if b.incomingChan == nil {
 		b.incomingChan = make(chan T, b.incomingBufferSize)
 	}
@@ -125,7 +126,7 @@ func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
 		go func(k int) {
 			for {
 				select {
-				case <-b.ctx.Done():
+				case <-ctx.Done():
 					return
 				case m := <-sharder.C(k):
 					chunkers[k].Add(m)
@@ -133,15 +134,15 @@ func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
 			}
 		}(i)
 	}
-	if b.shardWorker != nil {
+	if shardWorker != nil {
 		for i := 0; i < b.shardCount; i++ {
 			go func(k int) {
 				for {
 					select {
-					case <-b.ctx.Done():
+					case <-ctx.Done():
 						return
 					case batch := <-chunkers[k].C():
-						b.shardWorker(k, batch)
+						shardWorker(k, batch)
 					}
 				}
 			}(i)
-- 
2.43.0


From e1b87b3a3eccb33618ae3cf53ca18ac2db7858c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 46/47] fix: ResponseMap: cancelling the context leaves the
 goroutines of its records behind

---
 collections/response_map.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/collections/response_map.go b/collections/response_map.go
index edf32eb..7316e2a 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -47,6 +47,7 @@ func (b *ResponseMapBuilder[K, V]) WithClearTimeout(timeout time.Duration) *Resp
 
 func (b *ResponseMapBuilder[K, V]) Build() *ResponseMap[K, V] {
 	rm := &ResponseMap[K, V]{
+		ctx:             b.ctx,
 		logger:          b.logger,
 		responseTimeout: b.responseTimeout,
 		clearTimeout:    b.clearTimeout,
@@ -58,6 +59,7 @@ func (b *ResponseMapBuilder[K, V]) Build() *ResponseMap[K, V] {
 }
 
 type ResponseMap[K comparable, V any] struct {
+	ctx             context.Context
 	logger          zerolog.Logger
 	responseTimeout time.Duration
 	clearTimeout    time.Duration
@@ -81,8 +83,8 @@ type chansHolder[K comparable, V any] struct {
 	listeners []chan V
 }
 
-func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHolder[K, V] {
-	ctx, cancel := context.WithCancel(context.Background())
+func newChansHolder[K comparable, V any](parent context.Context, trx K, timeout time.Duration) *chansHolder[K, V] {
+	ctx, cancel := context.WithCancel(parent)
 	h := &chansHolder[K, V]{
 		ctx:       ctx,
 		cancelCtx: cancel,
@@ -193,7 +195,7 @@ func (r *ResponseMap[K, V]) getHolder(key K) *chansHolder[K, V] {
 	if ok {
 		return holder
 	}
-	holder = newChansHolder[K, V](key, r.responseTimeout)
+	holder = newChansHolder[K, V](r.ctx, key, r.responseTimeout)
 	r.m[key] = holder
 	return holder
 }
-- 
2.43.0


From e8c17df97420862063f56bf95399f245aadfe40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:34 +0000
Subject: [PATCH 47/47] fix: a closed incoming channel of ChunkChan and
 ShardChan delivers no zero values

---
 chans/chunk_chan.go | 7 ++++++-
 chans/shard_chan.go | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index 841dac0..0863535 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -38,6 +38,7 @@ func (c *ChunkChan[T]) run() {
 	t := time.NewTicker(c.chunkTimeout)
 	defer t.Stop()
 	chunk := make([]T, 0, c.chunkSize)
+	incomingChan := c.incomingChan
 	for {
 		select {
 		case <-c.ctx.Done():
@@ -51,7 +52,11 @@ func (c *ChunkChan[T]) run() {
 				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
-		case item := <-c.incomingChan:
+		case item, ok := <-incomingChan:
+			if !ok { // closed: nothing more comes
+				incomingChan = nil
+				continue
+			}
 			chunk = append(chunk, item)
 			if len(chunk) >= c.chunkSize {
 				select {
diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index b1b5b81..9879eae 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -131,7 +131,10 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 			select {
 			case <-res.ctx.Done():
 				return
-			case msg := <-res.incomingChan:
+			case msg, ok := <-res.incomingChan:
+				if !ok { // closed: nothing more comes
+					return
+				}
 				key := res.shardFunc(msg) % res.shardCount
 				if key < 0 {
 					key += res.shardCount
-- 
2.43.0

