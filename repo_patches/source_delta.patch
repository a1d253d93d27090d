From 50df5964c62cd426e88266ff1bed7bfb07ca90ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:26 +0000
Subject: [PATCH 01/74] fix: retry the swap in ResourceReplace when another
 replacement won

The compare and swap returns the previous pointer, so comparing the result
with false ended the loop even when the swap had not taken place, and the
replacement was silently dropped and its resource leaked.
---
 resource.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource.c b/resource.c
index 833140c..04c35b1 100644
--- a/resource.c
+++ b/resource.c
@@ -344,7 +344,7 @@ void fiftyoneDegreesResourceReplace(
 	} while (INTERLOCK_EXCHANGE_PTR(
 		manager->active,
 		*newResourceHandle,
-		oldHandle) == false);
+		oldHandle) != oldHandle);
 #else
 	oldHandle = ResourceHandleIncUse(manager);
 	manager->active = *newResourceHandle;
-- 
2.43.0


From e772ab5cd3d1e9afef72a927b0103b24dc7498e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 02/74] fix: allow a pool of the largest concurrency

concurrency + 1 was held in 16 bits, so a concurrency of 65535 allocated no
stack and wrote outside it.
---
 pool.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pool.c b/pool.c
index d23cd84..94d3f54 100644
--- a/pool.c
+++ b/pool.c
@@ -31,13 +31,13 @@ fiftyoneDegreesPool* fiftyoneDegreesPoolInit(
 	fiftyoneDegreesPoolResourceCreate resourceCreate,
 	fiftyoneDegreesPoolResourceFree resourceFree,
 	fiftyoneDegreesException *exception) {
-	uint16_t i = 1;
+	uint32_t i = 1;
 	PoolItem *item;
 
 	// Add one to the concurrency value so that a NULL marker can be 
 	// written as the last item in the linked list that if returned
 	// indicates that the concurrency has been exceeded.
-	uint16_t listItems = concurrency + 1;
+	uint32_t listItems = (uint32_t)concurrency + 1;
 
 	// Set the stack and head of the linked list.
 	pool->count = 0;
@@ -62,7 +62,7 @@ fiftyoneDegreesPool* fiftyoneDegreesPoolInit(
 			item->resource = resourceCreate(pool, state, exception);
 			pool->count++;
 			item->next = pool->head.values.index;
-			pool->head.values.index = i;
+			pool->head.values.index = (uint16_t)i;
 			i++;
 		}
 	}
@@ -133,7 +133,7 @@ void fiftyoneDegreesPoolReset(fiftyoneDegreesPool *pool) {
 
 void fiftyoneDegreesPoolFree(fiftyoneDegreesPool *pool) {
 	void *resource;
-	uint16_t i;
+	uint32_t i;
 	if (pool->stack != NULL) {
 		if (pool->resourceFree != NULL) {
 			for (i = 0; i <= pool->count; i++) {
-- 
2.43.0


From f44a36ad214fdd2f5d2334204ce1f42a07dfe148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 03/74] fix: keep the cache shard index in range for every key

abs() of INT_MIN is negative, so a key whose hash is INT_MIN selected a shard
before the array when the concurrency is not a power of two.
---
 cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache.c b/cache.c
index 279e989..d42656b 100644
--- a/cache.c
+++ b/cache.c
@@ -385,7 +385,8 @@ fiftyoneDegreesCacheNode* fiftyoneDegreesCacheGet(
 	fiftyoneDegreesException *exception) {
 	CacheNode *node;
 	int64_t keyHash = cache->hash(key);
-	CacheShard *shard = &cache->shards[abs((int)keyHash) % cache->concurrency];
+	CacheShard *shard = &cache->shards[
+		abs((int)(keyHash % cache->concurrency))];
 
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	FIFTYONE_DEGREES_MUTEX_LOCK(&shard->lock);
-- 
2.43.0


From 2fef8197a5c39ddd8539f207967e6b4427260029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:11 +0000
Subject: [PATCH 04/74] fix: give the cache entry of a failed load back to its
 shard

A load that failed left its entry marked as in use without anybody to release
it, so every failure reduced the capacity of the shard until all gets failed.
---
 cache.c | 51 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/cache.c b/cache.c
index d42656b..b46e5d8 100644
--- a/cache.c
+++ b/cache.c
@@ -206,6 +206,27 @@ static void cacheAddToHead(CacheNode *node) {
 	assert(node->shard->last->listNext == NULL);
 }
 
+/**
+ * Adds the node to the end of the linked list so that it is the next one to be
+ * reused. Used when the node does not contain data for a key.
+ * @param node to add
+ */
+static void cacheAddToTail(CacheNode *node) {
+	CacheShard *shard = node->shard;
+	assert(node->listNext == NULL);
+	assert(node->listPrevious == NULL);
+	node->listPrevious = shard->last;
+	if (shard->last != NULL) {
+		shard->last->listNext = node;
+	}
+
+	shard->last = node;
+
+	if (shard->first == NULL) {
+		shard->first = shard->last;
+	}
+}
+
 /**
  * Returns the next free node from the cache which can be used to add a
  * new entry to. Once the cache is full then the node returned is the one
@@ -239,15 +260,18 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
 		assert(node->activeCount == 0);
 		cacheRemoveFromList(node);
 
-		// Remove the last result from the binary tree.
-		#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
-		countBefore = TreeCount(&shard->root);
-		#endif
-		TreeDelete(&node->tree);
-		#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
-		countAfter = TreeCount(&shard->root);
-		assert(countBefore - 1 == countAfter);
-		#endif
+		// Remove the last result from the binary tree. A node whose last load
+		// failed is not part of the tree.
+		if (node->tree.parent != &shard->root.empty) {
+			#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
+			countBefore = TreeCount(&shard->root);
+			#endif
+			TreeDelete(&node->tree);
+			#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
+			countAfter = TreeCount(&shard->root);
+			assert(countBefore - 1 == countAfter);
+			#endif
+		}
 	}
 
 	// Set the pointers of the node to null indicating that the
@@ -263,7 +287,7 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
  * @param shard dictated by the key
  * @param key to get or load
  * @return pointer to the node with data for the key, or NULL if there are no 
- * free nodes
+ * free nodes or the load failed
  */
 static CacheNode* cacheLoad(
 	CacheShard *shard, 
@@ -286,6 +310,13 @@ static CacheNode* cacheLoad(
 			node->tree.key = shard->cache->hash(key);
 			TreeInsert(&node->tree);
 		}
+		else {
+			// The node can't be released by the caller, so return it to the
+			// shard as the next one to be used.
+			node->activeCount = 0;
+			cacheAddToTail(node);
+			node = NULL;
+		}
 	}
 	return node;
 }
-- 
2.43.0


From 8edd920657060e1260b06679073445a4af2063cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 05/74] fix: count cache hits and misses atomically

The shards have separate locks, so increments made at the same time were lost.
---
 cache.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cache.c b/cache.c
index b46e5d8..62eac43 100644
--- a/cache.c
+++ b/cache.c
@@ -430,13 +430,21 @@ fiftyoneDegreesCacheNode* fiftyoneDegreesCacheGet(
 		// The node was found in the cache, so increment the active count and
 		// remove from the shard's linked list if required.
 		cacheIncremenetCheckAndRemove(node);
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+		INTERLOCK_INC((volatile long*)&cache->hits);
+#else
 		cache->hits++;
+#endif
 	}
 	else {
 
 		// The key does not exist so load it.
 		node = cacheLoad(shard, key, exception);
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+		INTERLOCK_INC((volatile long*)&cache->misses);
+#else
 		cache->misses++;
+#endif
 	}
 
 #ifndef FIFTYONE_DEGREES_NO_THREADING
-- 
2.43.0


From f598396dee1fb24b45d105020c3502cab7cb2c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 06/74] fix: return what the next collection found from a
 partly loaded collection

The pointer left in the item by an earlier get was returned when the next
collection in the chain had nothing for the index or offset.
---
 collection.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/collection.c b/collection.c
index 5014005..5a8b9a5 100644
--- a/collection.c
+++ b/collection.c
@@ -238,7 +238,11 @@ static void* getPartialVariable(
 		item->collection = collection;
 	}
 	else if (collection->next != NULL) {
-		collection->next->get(collection->next, offset, item, exception);
+		return collection->next->get(
+			collection->next,
+			offset,
+			item,
+			exception);
 	}
 	else {
 		GET_EXCEPTION_SET(COLLECTION_OFFSET_OUT_OF_RANGE);
@@ -261,7 +265,11 @@ static void* getPartialFixed(
 		item->collection = collection;
 	}
 	else if (collection->next != NULL) {
-		collection->next->get(collection->next, index, item, exception);
+		return collection->next->get(
+			collection->next,
+			index,
+			item,
+			exception);
 	}
 	else {
 		GET_EXCEPTION_SET(COLLECTION_INDEX_OUT_OF_RANGE);
-- 
2.43.0


From 6ee889d41ccc994978dc1e2be984e5aa959ebc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 07/74] fix: reset the item released to a cached collection

The item kept a pointer to memory of the cache marked as allocated, which
another collection then reused or freed.
---
 collection.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collection.c b/collection.c
index 5a8b9a5..fa01306 100644
--- a/collection.c
+++ b/collection.c
@@ -106,6 +106,10 @@ static void releaseNothing(Item *item) {
 static void releaseCache(Item *item) {
 	if (item->handle != NULL) {
 		CacheRelease((CacheNode*)item->handle);
+
+		// The memory belongs to the cache, so must not be reused or freed when
+		// the item is next used.
+		DataReset(&item->data);
 		item->handle = NULL;
 	}
 }
-- 
2.43.0


From 47dc35edbd16c28beced9272bfb8bedea6c2597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 08/74] fix: forget the memory freed after a failed collection
 read

The data was left marked as allocated, so the next use of the item wrote to
or freed it again.
---
 collection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collection.c b/collection.c
index fa01306..d2609b5 100644
--- a/collection.c
+++ b/collection.c
@@ -1026,6 +1026,7 @@ void* fiftyoneDegreesCollectionReadFileFixed(
 					// The read failed so free the memory allocated and set the
 					// status code.
 					Free(data->ptr);
+					DataReset(data);
 					EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 				}
 			}
@@ -1090,6 +1091,7 @@ static void* readFileVariable(
 					}
 					else {
 						Free(data->ptr);
+						DataReset(data);
 						EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 					}
 				}
-- 
2.43.0


From 70a1c6e635e43bc154467a561085c71b2a61bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 09/74] fix: report why a cached collection returned no item

When no memory was available for the copy held by the cache an empty entry was
kept, and when all entries were in use null was returned with no error status.
---
 collection.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/collection.c b/collection.c
index d2609b5..60e3dc4 100644
--- a/collection.c
+++ b/collection.c
@@ -349,6 +349,12 @@ static void* getFromCache(
 	else {
 		item->data.used = 0;
 		item->handle = NULL;
+
+		// If the load did not fail then all the entries of the cache are in
+		// use.
+		if (EXCEPTION_OKAY) {
+			EXCEPTION_SET(COLLECTION_FAILURE);
+		}
 	}
 
 	return ptr;
@@ -384,17 +390,21 @@ static void loaderCache(
 
 		// If the item from the source collection has bytes then copy them into
 		// the cache node item ensuring sufficient memory is allocated first.
-		if (item.data.used > 0 &&
-			DataMalloc(data, item.data.allocated) != NULL) {
+		if (item.data.used > 0) {
+			if (DataMalloc(data, item.data.allocated) != NULL) {
 
-			// Copy the data from the collection into the cache.
-			if (memcpy(
-				data->ptr,
-				item.data.ptr,
-				item.data.used) == data->ptr) {
+				// Copy the data from the collection into the cache.
+				if (memcpy(
+					data->ptr,
+					item.data.ptr,
+					item.data.used) == data->ptr) {
 
-				// Set the number of used bytes to match the loaded item.
-				data->used = item.data.used;
+					// Set the number of used bytes to match the loaded item.
+					data->used = item.data.used;
+				}
+			}
+			else {
+				EXCEPTION_SET(INSUFFICIENT_MEMORY);
 			}
 		}
 
-- 
2.43.0


From 09cf86f064c43673286f65805b6341f9adc66707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 10/74] fix: handle failed allocations when creating
 collections

---
 collection.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/collection.c b/collection.c
index 60e3dc4..28053f2 100644
--- a/collection.c
+++ b/collection.c
@@ -558,6 +558,9 @@ static Collection* createFromFile(
 	Collection *collection = createCollection(
 		sizeof(CollectionFile),
 		header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionFile *fileCollection = (CollectionFile*)collection->state;
 	fileCollection->collection = collection;
 	fileCollection->reader = reader;
@@ -590,9 +593,16 @@ static Collection* createFromFilePartial(
 
 	// Create a file collection to populate the memory collection.
 	Collection *source = createFromFile(file, reader, header, read);
+	if (source == NULL) {
+		return NULL;
+	}
 
 	// Allocate the memory for the collection and implementation.
 	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	if (collection == NULL) {
+		source->freeCollection(source);
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 	memory->memoryToFree = NULL;
 	memory->collection = collection;
@@ -673,6 +683,9 @@ static Collection* createFromFileCached(
 
 	// Allocate the memory for the collection and implementation.
 	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionCache *cache = (CollectionCache*)collection->state;
 	cache->cache = NULL;
 
@@ -692,6 +705,7 @@ static Collection* createFromFileCached(
 		cache->source);
 
 	if (cache->cache == NULL) {
+		cache->source->freeCollection(cache->source);
 		freeCacheCollection(collection);
 		return NULL;
 	}
@@ -792,6 +806,9 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromMemory(
 	Collection *collection = createCollection(
 		sizeof(CollectionMemory),
 		&header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 
 	// Configure the fields for the collection.
-- 
2.43.0


From 83a224a6b8b1a405e5e84a995669f65cdc045a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 11/74] fix: release the item when the comparison of a binary
 search fails

---
 collection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collection.c b/collection.c
index 28053f2..26cd340 100644
--- a/collection.c
+++ b/collection.c
@@ -1243,6 +1243,7 @@ long fiftyoneDegreesCollectionBinarySearch(
 		// just returned.
 		comparisonResult = comparer(state, item, middle, exception);
 		if (EXCEPTION_OKAY == false) {
+			COLLECTION_RELEASE(collection, item);
 			return 0;
 		}
 
-- 
2.43.0


From 77bba5f77b48f5059a151a73cd6cc42288175e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 12/74] fix: never advance a memory reader past its last byte

A refused advance left the position beyond the buffer, and an amount large
enough to wrap the pointer was accepted.
---
 memory.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 50ba167..5bb79f4 100644
--- a/memory.c
+++ b/memory.c
@@ -60,10 +60,11 @@ bool fiftyoneDegreesMemoryAdvance(
 	if (reader == NULL || reader->current == NULL) {
 		return false;
 	}
-	reader->current += advanceBy;
-	if (reader->current > reader->lastByte) {
+	if (reader->current > reader->lastByte ||
+		advanceBy > (size_t)(reader->lastByte - reader->current)) {
 		return false;
 	}
+	reader->current += advanceBy;
 	return true;
 }
 
-- 
2.43.0


From 555a55a49b0a480e9b97e114c5581bbf1a741b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:45 +0000
Subject: [PATCH 13/74] fix: refuse collection headers that can not be read or
 represented

A header beyond the end of the memory was read anyway, one beyond the end of a
file was left uninitialised, and a count overflowing the length gave a
collection of other elements.
---
 collection.c | 72 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/collection.c b/collection.c
index 26cd340..f4f6834 100644
--- a/collection.c
+++ b/collection.c
@@ -765,28 +765,56 @@ static Collection* createFromFileSecond(
 
 #endif
 
-fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
-	fiftyoneDegreesMemoryReader *reader,
+/**
+ * Sets the length and count of the header from the integer read.
+ * @param header to be set
+ * @param sizeOrCount integer read from the data source
+ * @param elementSize in bytes of each item, or 0 for variable width items
+ * @param isCount true if the integer is the number of items, false if it is
+ * the number of bytes
+ * @return true if the header was set, or false if the length of the collection
+ * is more than can be represented
+ */
+static bool setHeader(
+	CollectionHeader *header,
+	uint32_t sizeOrCount,
 	uint32_t elementSize,
 	bool isCount) {
-	CollectionHeader header;
 	if (isCount) {
-		// The next integer is the count of items in the data structure.
-		header.count = *(uint32_t*)reader->current;
-		header.length = header.count * elementSize;
+		// The integer is the count of items in the data structure.
+		if (elementSize > 0 && sizeOrCount > UINT32_MAX / elementSize) {
+			return false;
+		}
+		header->count = sizeOrCount;
+		header->length = sizeOrCount * elementSize;
 	}
 	else {
-		// The next integer is the size of the data structure.
-		header.length = *(const uint32_t*)reader->current;
-		header.count = elementSize > 0 ? header.length / elementSize : 0;
+		// The integer is the size of the data structure in bytes.
+		header->length = sizeOrCount;
+		header->count = elementSize > 0 ? sizeOrCount / elementSize : 0;
 	}
+	return true;
+}
+
+fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
+	fiftyoneDegreesMemoryReader *reader,
+	uint32_t elementSize,
+	bool isCount) {
+	CollectionHeader header;
+	const byte *start = reader->current;
 
-	// Advance the memory reader and record the start of the collection.
-	if (MemoryAdvance(reader, sizeof(uint32_t))) {
+	// Advance the memory reader and record the start of the collection if the
+	// integer is inside the memory, and describes a possible collection.
+	if (MemoryAdvance(reader, sizeof(uint32_t)) &&
+		setHeader(&header, *(const uint32_t*)start, elementSize, isCount)) {
 		header.startPosition = (uint32_t)(reader->current - reader->startByte);
 	}
 	else {
-		header.startPosition = 0;
+
+		// No reader can be at this position, so no collection can be created.
+		header.startPosition = UINT32_MAX;
+		header.length = 0;
+		header.count = 0;
 	}
 	
 	return header;
@@ -856,21 +884,14 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromFile(
 	uint32_t sizeOrCount;
 
 	// Get the size or count of the data structure in bytes.
-	if (fread((void*)&sizeOrCount, sizeof(uint32_t), 1, file) == 1) {
-		if (isCount) {
-			// The integer is the count of items in the data structure.
-			header.count = sizeOrCount;
-			header.length = header.count * elementSize;
-		}
-		else {
-			// The integer is the size of the data structure.
-			header.length = sizeOrCount;
-			header.count = elementSize > 0 ? header.length / elementSize : 0;
-		}
+	if (fread((void*)&sizeOrCount, sizeof(uint32_t), 1, file) == 1 &&
+		setHeader(&header, sizeOrCount, elementSize, isCount)) {
 		header.startPosition = (uint32_t)ftell(file);
 	}
 	else {
 		header.startPosition = 0;
+		header.length = 0;
+		header.count = 0;
 	}
 
 	return header;
@@ -887,6 +908,11 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 	fiftyoneDegreesCollectionFileRead read) {
 	Collection *result = NULL;
 
+	// There is no collection if the header could not be read.
+	if (header.startPosition == 0) {
+		return NULL;
+	}
+
 #ifndef FIFTYONE_DEGREES_MEMORY_ONLY
 
 	Collection **next = &result;
-- 
2.43.0


From 9aef14c1c44ce1d67d217ab757a178a4c1ab63fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 14/74] fix: check the file position when creating collections
 from file

A failing ftell was taken as the position of the collection, so that other bytes
were returned as its items, or items after the loaded ones were missing.
---
 collection.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/collection.c b/collection.c
index f4f6834..a328728 100644
--- a/collection.c
+++ b/collection.c
@@ -539,6 +539,9 @@ static CollectionFile* readFile(CollectionFile *fileCollection, FILE *file) {
 
 	// Record the offset in the source file to the collection.
 	fileCollection->offset = ftell(file);
+	if (fileCollection->offset < 0) {
+		return NULL;
+	}
 
 	// Move the file handle past the collection.
 	if (fseek(file, fileCollection->collection->size, SEEK_CUR) != 0) {
@@ -882,11 +885,13 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromFile(
 	bool isCount) {
 	fiftyoneDegreesCollectionHeader header;
 	uint32_t sizeOrCount;
+	long position;
 
 	// Get the size or count of the data structure in bytes.
 	if (fread((void*)&sizeOrCount, sizeof(uint32_t), 1, file) == 1 &&
-		setHeader(&header, sizeOrCount, elementSize, isCount)) {
-		header.startPosition = (uint32_t)ftell(file);
+		setHeader(&header, sizeOrCount, elementSize, isCount) &&
+		(position = ftell(file)) > 0) {
+		header.startPosition = (uint32_t)position;
 	}
 	else {
 		header.startPosition = 0;
@@ -940,7 +945,7 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 
 	if (result == NULL || (
 		result->count == config->loaded &&
-		(long)result->size < (long)(ftell(file) - header.startPosition))) {
+		result->size < header.length)) {
 
 		// Create the next collection if one is needed.
 		*next = createFromFileSecond(file, reader, config, header, read);
-- 
2.43.0


From 8236414de93458295aa3ac267caca3fe96a78fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 15/74] fix: handle failed allocations in the resource manager

---
 resource.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/resource.c b/resource.c
index 04c35b1..e1342be 100644
--- a/resource.c
+++ b/resource.c
@@ -137,6 +137,10 @@ static void setupResource(
 		MallocAligned(
 			sizeof(InterlockDoubleWidth),
 			sizeof(ResourceHandle));
+	if (handle == NULL) {
+		*resourceHandle = NULL;
+		return;
+	}
 
 	// Set the handle and the number of users of the resource to zero.
 	handle->counter = emptyCounter();
@@ -183,15 +187,14 @@ void fiftyoneDegreesResourceManagerFree(
 	// active handle won't change at this point.
 	// Thus, it is safe to perform assertion directly
 	// to the active handle here. 
-	assert(getInUse(&manager->active->counter) >= 0);
 	if (manager->active != NULL) {
+		assert(getInUse(&manager->active->counter) >= 0);
 
-		ResourceHandle* newHandlePointer;
-		fiftyoneDegreesResourceReplace(
-			manager,
-			NULL,
-			&newHandlePointer);
-		FreeAligned(newHandlePointer);
+		// Remove the active handle from the manager, then release it so that
+		// it's freed once nothing else is holding onto a reference to it.
+		ResourceHandle* handle = ResourceHandleIncUse(manager);
+		manager->active = NULL;
+		ResourceHandleDecUse(handle);
 	}
 }
 
@@ -332,6 +335,10 @@ void fiftyoneDegreesResourceReplace(
 		newResource,
 		newResourceHandle,
 		manager->active->freeResource);
+	if (*newResourceHandle == NULL) {
+		// There is no handle for the new resource so keep the existing one.
+		return;
+	}
 	assert(getInUse(&(*newResourceHandle)->counter) == 0);
 	assert(getHandle(&(*newResourceHandle)->counter) == *newResourceHandle);
 #ifndef FIFTYONE_DEGREES_NO_THREADING
-- 
2.43.0


From 5dd97aebc544b1c649c044db24800db34f1858ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:40 +0000
Subject: [PATCH 16/74] fix: report every failed write, copy and read of a file

---
 file.c | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/file.c b/file.c
index b518a4b..c2465fd 100644
--- a/file.c
+++ b/file.c
@@ -149,8 +149,8 @@ static StatusCode fileOpen(
 static StatusCode fileCopy(FILE *source, FILE *destination) {
 	unsigned char buffer[8192];
 	size_t lengthRead, lengthWritten = 0;
-	if (fseek(source, 0L, SEEK_END) == 0) {
-		fseek(source, 0L, SEEK_SET);
+	if (fseek(source, 0L, SEEK_END) == 0 &&
+		fseek(source, 0L, SEEK_SET) == 0) {
 		lengthRead = fread(buffer, 1, sizeof(buffer), source);
 		while (lengthRead > 0) {
 			lengthWritten = fwrite(buffer, 1, lengthRead, destination);
@@ -159,8 +159,12 @@ static StatusCode fileCopy(FILE *source, FILE *destination) {
 			}
 			lengthRead = fread(buffer, 1, sizeof(buffer), source);
 		}
+		if (ferror(source) != 0) {
+			return FILE_COPY_ERROR;
+		}
+		return SUCCESS;
 	}
-	return SUCCESS;
+	return FILE_COPY_ERROR;
 }
 
 /**
@@ -584,10 +588,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileWrite(
 	FILE *file;
 	StatusCode status = fileOpen(fileName, &file, "wb");
 	if (status == SUCCESS) {
-		if (fwrite(data, length, 1, file) != 1) {
+		if (fwrite(data, 1, length, file) != length) {
+			status = FILE_FAILURE;
+		}
+		// Closing the file writes any data still buffered.
+		if (fclose(file) != 0) {
 			status = FILE_FAILURE;
 		}
-		fclose(file);
 	}
 	return status;
 }
@@ -1031,7 +1038,10 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCopy(
 			return status;
 		}
 		status = fileCopy(sourceFile, destinationFile);
-		fclose(destinationFile);
+		// Closing the file writes any data still buffered.
+		if (fclose(destinationFile) != 0) {
+			status = FILE_COPY_ERROR;
+		}
 		// Delete the destination file if the status code is not success.
 		if (status != SUCCESS) {
 			FileDelete(destination);
@@ -1059,15 +1069,23 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileReadToByteArray(
 	if (status == SUCCESS) {
 		// Get the size of the file and allocate sufficient memory.
 		reader->length = fileGetSize(sourceFile);
+		if (reader->length < 0) {
+			reader->startByte = NULL;
+			reader->current = NULL;
+			reader->length = 0;
+			fclose(sourceFile);
+			return FILE_FAILURE;
+		}
 		reader->current = reader->startByte = (byte*)Malloc(
-			sizeof(char) * reader->length);
+			reader->length > 0 ? sizeof(char) * reader->length : 1);
 		if (reader->current != NULL) {
 			if (fseek(sourceFile, 0L, SEEK_SET) != 0 ||
-				fread(reader->current, reader->length, 1, sourceFile) != 1) {
+				fread(reader->current, 1, reader->length, sourceFile) !=
+				(size_t)reader->length) {
 				// The file could not be loaded into memory. Release the 
 				// memory allocated earlier and set the status to file 
 				// failure.
-				free(reader->current);
+				Free(reader->current);
 				reader->startByte = NULL;
 				reader->current = NULL;
 				reader->length = 0;
-- 
2.43.0


From 0a840599253113f803876423449d88164a76be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 17/74] fix: close the handles of a file pool which failed to
 initialise

---
 file.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index c2465fd..43091d5 100644
--- a/file.c
+++ b/file.c
@@ -982,7 +982,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFilePoolInit(
 			freeFileHandle,
 			exception) != NULL &&
 		EXCEPTION_OKAY) {
-		if (setLength(filePool, exception) == 0) {
+		if (setLength(filePool, exception) <= 0) {
 			status = FILE_FAILURE;
 		}
 	}
@@ -992,6 +992,10 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFilePoolInit(
 	else {
 		status = INSUFFICIENT_MEMORY;
 	}
+	if (status != SUCCESS) {
+		// Close any file handles which were opened.
+		PoolFree(&filePool->pool);
+	}
 	return status;
 }
 
-- 
2.43.0


From a6b20ee42e7b59c55794d179daa43ee099156b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:02 +0000
Subject: [PATCH 18/74] fix: create a temporary file in the first usable path
 only

---
 file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 43091d5..e11e785 100644
--- a/file.c
+++ b/file.c
@@ -846,8 +846,13 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 			}
 		}
 
+		// Only the first path which can be written to is used.
+		if (status == SUCCESS) {
+			return status;
+		}
+
 		// Reset the destination
-		if (status != SUCCESS && length > 0) {
+		if (length > 0) {
 			memset(destination, 0, length);
 		}
 	}
-- 
2.43.0


From bf95c71409460e49fb2bae249ef8e994b1c18ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:24 +0000
Subject: [PATCH 19/74] fix: search every path given for temporary files

---
 file.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/file.c b/file.c
index e11e785..2fd5588 100644
--- a/file.c
+++ b/file.c
@@ -419,7 +419,8 @@ static bool iterateFiles(
 #else
 	DIR *dir;
 	struct dirent *ent;
-	dir = opendir(path);
+	// An empty path is the working directory.
+	dir = opendir(nameStart == 0 ? "." : path);
 	if (dir != NULL) {
 		// Iterate over all files.
 		while ((ent = readdir(dir)) != NULL) {
@@ -682,7 +683,7 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileDelete);
@@ -720,7 +721,7 @@ bool fiftyoneDegreesFileGetExistingTempFile(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			if (iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileMatch) == true) {
-- 
2.43.0


From 963c40d4e3b74d1002539426b6842ccf70421c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:45 +0000
Subject: [PATCH 20/74] fix: compare temporary files with the master correctly
 for every size

---
 file.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/file.c b/file.c
index 2fd5588..2291576 100644
--- a/file.c
+++ b/file.c
@@ -264,12 +264,12 @@ static bool compareFiles(
 	long bytesToCompare) {
 	StatusCode status;
 	FILE *file, *otherFile;
-	long size, read;
+	long size, read, position = 0;
 	byte buffer[1024], otherBuffer[1024];
 
 	// Compare the sizes.
 	size = FileGetSize(fileName);
-	if (size > 0 && size != FileGetSize(otherFileName)) {
+	if (size < 0 || size != FileGetSize(otherFileName)) {
 		return false;
 	}
 	// Open both files.
@@ -283,11 +283,15 @@ static bool compareFiles(
 		return false;
 	}
 
-	while (ftell(file) < size &&
-		(bytesToCompare < 0 || ftell(file) < bytesToCompare)) {
-		read = bytesToCompare > 0 ? bytesToCompare : (long)sizeof(buffer);
-		if (size - ftell(file) < read) {
-			read = size - ftell(file);
+	// Only compare the number of bytes requested.
+	if (bytesToCompare >= 0 && bytesToCompare < size) {
+		size = bytesToCompare;
+	}
+
+	while (position < size) {
+		read = (long)sizeof(buffer);
+		if (size - position < read) {
+			read = size - position;
 		}
 
 		if (fread(buffer, read, 1, file) != 1) {
@@ -305,6 +309,7 @@ static bool compareFiles(
 			fclose(otherFile);
 			return false;
 		}
+		position += read;
 	}
 	fclose(file);
 	fclose(otherFile);
-- 
2.43.0


From 8fccf95c548ee9e16fed7fc71f3e9491c48ebb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:05 +0000
Subject: [PATCH 21/74] fix: count more than 255 deleted temporary files

---
 file.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/file.c b/file.c
index 2291576..a822408 100644
--- a/file.c
+++ b/file.c
@@ -555,8 +555,9 @@ static bool isFileInUse(const char *pathName) {
 #endif
 
 /**
- * Deletes the file is it is not in use. The first byte of state->destination
- * is used as a counter to indicate how many files were successfully deleted.
+ * Deletes the file is it is not in use. The state->destination is used as a
+ * pointer to an integer counter to indicate how many files were successfully
+ * deleted.
  * @param fileName path to matching file
  * @param state pointer to the file iterator state with the destination pointer
  * @return false to indicate that the search should continue
@@ -573,7 +574,7 @@ static bool iteratorFileDelete(const char *fileName, void *state) {
 	if (isFileInUse(fileName) == false) {
 #endif
 		if (fiftyoneDegreesFileDelete(fileName) == SUCCESS) {
-			((byte*)fileState->destination)[0]++;
+			(*(int*)fileState->destination)++;
 		}
 #ifdef __linux__
 	}
@@ -661,11 +662,11 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 	int count,
 	long bytesToCompare) {
 	int i;
-	byte deleted = 0;
+	int deleted = 0;
 	fileIteratorState state;
 	state.masterFileName = masterFileName;
-	// The iteratorFileDelete method will use the first byte of
-	// state.destination to keep track of the number of files deleted. This is
+	// The iteratorFileDelete method will use state.destination as an integer
+	// to keep track of the number of files deleted. This is
 	// a slight misuse of the structure, but we'll allow it as the structure
 	// is internal only.
 	state.destination = (const char*)&deleted;
@@ -694,7 +695,7 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 				iteratorFileDelete);
 		}
 	}
-	return (int)deleted;
+	return deleted;
 }
 
 bool fiftyoneDegreesFileGetExistingTempFile(
-- 
2.43.0


From 5a82258a479aaee6f90fec01578c36dbdb2c4e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:19 +0000
Subject: [PATCH 22/74] fix: keep file names whole and paths inside their
 buffers

---
 file.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/file.c b/file.c
index a822408..7c840b1 100644
--- a/file.c
+++ b/file.c
@@ -364,9 +364,13 @@ static bool iterateFiles(
 	fileMatch match) {
 	char tempPath[FIFTYONE_DEGREES_FILE_MAX_PATH];
 	size_t nameStart;
+	// Check there is space for the path and a slash.
+	nameStart = strlen(path);
+	if (nameStart + 2 > sizeof(tempPath)) {
+		return false;
+	}
 	// Append a slash to the path if one is not there already.
 	strcpy(tempPath, path);
-	nameStart = strlen(path);
 	if (nameStart != 0 &&
 		tempPath[nameStart - 1] != '/' &&
 		tempPath[nameStart - 1] != '\\') {
@@ -429,7 +433,10 @@ static bool iterateFiles(
 	if (dir != NULL) {
 		// Iterate over all files.
 		while ((ent = readdir(dir)) != NULL) {
-			// Append the name to the path.
+			// Append the name to the path if it will fit.
+			if (nameStart + strlen(ent->d_name) + 1 > sizeof(tempPath)) {
+				continue;
+			}
 			strcpy(tempPath + nameStart, ent->d_name);
 			// Call match and return if the file is a match.
 			if (compare(tempPath, state)) {
@@ -639,7 +646,7 @@ static fiftyoneDegreesStatusCode getBasenameWithoutExtension(
 	size_t length) {
 	StatusCode status = NOT_SET;
 	const char* pos = getNameFromPath(path);
-	char* dot = strrchr(path, '.');
+	char* dot = strrchr(pos, '.');
 	size_t end = strlen(pos);
 	if (dot != NULL) {
 		end = dot - pos;
@@ -769,7 +776,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileAddTempFileName(
 		if (charsAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charsAdded > length) {
+		else if ((size_t)charsAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
@@ -841,12 +848,12 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 		if (charAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charAdded > length) {
+		else if ((size_t)charAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
 			status = fiftyoneDegreesFileAddTempFileName(
-				masterFileName, destination, nameStart, length - nameStart - 1);
+				masterFileName, destination, nameStart, length - nameStart);
 			if (status == SUCCESS) {
 				// Create the temp file
 				status = FileCopy(masterFile, destination);
@@ -907,8 +914,12 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCreateTempFile(
 	}
 	else if (paths != NULL) {
 		for (i = 0; i < count; i++) {
-			strcpy(tempPath, paths[i]);
 			nameStart = strlen(paths[i]);
+			if (nameStart + 2 > sizeof(tempPath)) {
+				status = FILE_PATH_TOO_LONG;
+				continue;
+			}
+			strcpy(tempPath, paths[i]);
 			if (nameStart != 0 &&
 				tempPath[nameStart - 1] != '/' &&
 				tempPath[nameStart - 1] != '\\') {
@@ -1130,9 +1141,5 @@ void fiftyoneDegreesFilePoolReset(fiftyoneDegreesFilePool *filePool) {
 }
 
 const char* fiftyoneDegreesFileGetFileName(const char *filePath) {
-	char *c = (char*)filePath + strlen(filePath);
-	while (*c != '\\' && *c != '/' && c != filePath) {
-		c--;
-	}
-	return c + 1;
+	return getNameFromPath(filePath);
 }
-- 
2.43.0


From dd805b10b70793db8be27066753e727a1e6e188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:18 +0000
Subject: [PATCH 23/74] fix: HeadersCreate frees and bounds what it built when
 a header can not be retrieved

---
 headers.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/headers.c b/headers.c
index 4b50964..cbfa246 100644
--- a/headers.c
+++ b/headers.c
@@ -199,7 +199,11 @@ static bool setHeaderFromDataSet(
 	header->isDataSet = true;
 	header->uniqueId = uniqueId;
 	header->segments = createSegmentArray(header->name);
-	return header->segments != NULL;
+	if (header->segments == NULL) {
+		Free((void*)header->name);
+		return false;
+	}
+	return true;
 }
 
 /**
@@ -274,12 +278,16 @@ static bool addHeadersFromDataSet(
 			countHeaderSegments(name) > 0 &&
 			getHeaderIndex(headers, name, nameLength) < 0) {
 
-			// Set the next header from the data set name item.
-			if (setHeaderFromDataSet(
+			// Set the next header from the data set name item. There may not
+			// be space for it if the names could not all be retrieved from the
+			// data set when they were counted.
+			if (headers->count >= headers->capacity ||
+				setHeaderFromDataSet(
 				&headers->items[headers->count],
 				name,
 				nameLength,
 				(HeaderID)uniqueId) == false) {
+				COLLECTION_RELEASE(item.collection, &item);
 				return false;
 			}
 
@@ -311,7 +319,8 @@ static bool addHeadersFromSegments(HeaderArray* headers) {
 			segment = &header->segments->items[s];
 			existing = getHeader(headers, segment->segment, segment->length);
 			if (existing == NULL) {
-				if (setHeaderFromSegment(
+				if (headers->count >= headers->capacity ||
+					setHeaderFromSegment(
 					&headers->items[headers->count],
 					segment) == false) {
 					return false;
-- 
2.43.0


From 9f90918fcc41fa2ae64d0d7e452b56588a40501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:24 +0000
Subject: [PATCH 24/74] fix: PropertiesCreate copes with property names that
 can not be retrieved

---
 properties.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/properties.c b/properties.c
index 4443158..2c78b5c 100644
--- a/properties.c
+++ b/properties.c
@@ -109,7 +109,10 @@ static bool resultsContain(
 static void addRequiredProperty(
 	PropertiesAvailable *available,
 	uint32_t propertyIndex) {
-	if (resultsContain(available, propertyIndex) == false) {
+	// There may not be space for the property if it could not be retrieved from
+	// the source when the properties were counted.
+	if (available->count < available->capacity &&
+		resultsContain(available, propertyIndex) == false) {
 		available->items[available->count++].propertyIndex = propertyIndex;
 	}
 }
@@ -358,7 +361,11 @@ static int comparePropertyNamesAscending(const void *a, const void *b) {
 	PropertyAvailable *bi = (PropertyAvailable*)b;
 	const char *as = STRING(ai->name.data.ptr);
 	const char *bs = STRING(bi->name.data.ptr);
-	assert(as != NULL && bs != NULL);
+	if (as == NULL || bs == NULL) {
+		// A name that could not be retrieved from the source is placed at the
+		// end. The caller checks for missing names.
+		return (as == NULL) - (bs == NULL);
+	}
 	return _stricmp(as, bs);
 }
 
-- 
2.43.0


From 202746272f4abe27226f09a67e2461bf6e008bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 25/74] fix: hold the current data set during a reload and free
 a replacement that could not be managed

---
 dataset.c  | 62 ++++++++++++++++++++++++++++++++++++------------------
 resource.c |  5 +++--
 resource.h |  5 ++++-
 3 files changed, 48 insertions(+), 24 deletions(-)

diff --git a/dataset.c b/dataset.c
index c0f0ec9..5ab0619 100644
--- a/dataset.c
+++ b/dataset.c
@@ -35,13 +35,17 @@ static StatusCode allocate(
 
 static StatusCode replace(
 	ResourceManager *manager,
-	DataSetBase *replacement) {
-
-	// Switch the active data set for the new one.
-	ResourceReplace(manager, replacement, &replacement->handle);
-	if (replacement->handle == NULL) {
-		DataSetFree(replacement);
-		Free(replacement);
+	DataSetBase *replacement,
+	void(*freeResource)(void*)) {
+
+	// Switch the active data set for the new one. Once this is done the
+	// replacement might already have been replaced and freed by another
+	// thread so must not be used.
+	if (ResourceReplace(
+		manager, 
+		replacement, 
+		&replacement->handle) == false) {
+		freeResource(replacement);
 		return INSUFFICIENT_MEMORY;
 	}
 
@@ -267,16 +271,22 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromMemory(
 	fiftyoneDegreesException *exception) {
 	DataSetBase *replacement = NULL;
 	const void *config;
+	DataSetBase *current;
+	ResourceHandle *handle;
 	PropertiesRequired properties = PropertiesDefault;
 
 	// Reference the properties and config from the existing data set in the
-	// replacement.
-	properties.existing = ((DataSetBase*)manager->active->resource)->available;
-	config = ((DataSetBase*)manager->active->resource)->config;
+	// replacement. The existing data set is in use until the replacement has
+	// been initialised so that another thread can't free it.
+	handle = ResourceHandleIncUse(manager);
+	current = (DataSetBase*)handle->resource;
+	properties.existing = current->available;
+	config = current->config;
 
 	// Allocate memory for the replacement dataset.
 	StatusCode status = allocate(&replacement, dataSetSize);
 	if (status != SUCCESS) {
+		ResourceHandleDecUse(handle);
 		return status;
 	}
 
@@ -295,10 +305,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromMemory(
 		exception);
 	if (status != SUCCESS) {
 		Free(replacement);
-		return status;
 	}
-	
-	return replace(manager, replacement);
+	else {
+		status = replace(manager, replacement, handle->freeResource);
+	}
+
+	ResourceHandleDecUse(handle);
+	return status;
 }
 
 fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
@@ -309,17 +322,23 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
 	fiftyoneDegreesException *exception) {
 	DataSetBase *replacement = NULL;
 	const void *config;
+	DataSetBase *current;
+	ResourceHandle *handle;
 	PropertiesRequired properties = PropertiesDefault;
 
 	// Reference the properties and config from the existing data set in the
-	// replacement.
-	properties.existing = ((DataSetBase*)manager->active->resource)->available;
-	config = ((DataSetBase*)manager->active->resource)->config;
+	// replacement. The existing data set is in use until the replacement has
+	// been initialised so that another thread can't free it.
+	handle = ResourceHandleIncUse(manager);
+	current = (DataSetBase*)handle->resource;
+	properties.existing = current->available;
+	config = current->config;
 	
 	// Allocate memory for the replacement dataset.
 	StatusCode status = allocate(&replacement, dataSetSize);
 	if (status != SUCCESS) {
-		return status; 
+		ResourceHandleDecUse(handle);
+		return status;
 	}
 
 	// Initialise the new data set with the properties of the current one.
@@ -329,9 +348,10 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
 		&properties,
 		fileName,
 		exception);
-	if (status != SUCCESS) {
-		return status;
+	if (status == SUCCESS) {
+		status = replace(manager, replacement, handle->freeResource);
 	}
-	
-	return replace(manager, replacement);
+
+	ResourceHandleDecUse(handle);
+	return status;
 }
\ No newline at end of file
diff --git a/resource.c b/resource.c
index e1342be..983ef82 100644
--- a/resource.c
+++ b/resource.c
@@ -323,7 +323,7 @@ int32_t fiftyoneDegreesResourceHandleGetUse(
 // of COUNTER and HANDLE macros.
 #pragma warning (disable: 4090)
 #endif
-void fiftyoneDegreesResourceReplace(
+bool fiftyoneDegreesResourceReplace(
 	fiftyoneDegreesResourceManager *manager,
 	void *newResource,
 	fiftyoneDegreesResourceHandle **newResourceHandle) {
@@ -337,7 +337,7 @@ void fiftyoneDegreesResourceReplace(
 		manager->active->freeResource);
 	if (*newResourceHandle == NULL) {
 		// There is no handle for the new resource so keep the existing one.
-		return;
+		return false;
 	}
 	assert(getInUse(&(*newResourceHandle)->counter) == 0);
 	assert(getHandle(&(*newResourceHandle)->counter) == *newResourceHandle);
@@ -359,6 +359,7 @@ void fiftyoneDegreesResourceReplace(
 	// Release the existing resource can be freed. If nothing else is
 	// holding onto a reference to it then free it will be freed.
 	ResourceHandleDecUse(oldHandle);
+	return true;
 }
 #ifdef _MSC_VER
 #pragma warning (default: 4090)
diff --git a/resource.h b/resource.h
index 3300772..b620039 100644
--- a/resource.h
+++ b/resource.h
@@ -248,8 +248,11 @@ EXTERNAL int32_t fiftyoneDegreesResourceHandleGetUse(
  * access to
  * @param newResourceHandle points to the location the new handle should be
  * stored
+ * @return true if the new resource is now managed, or false if there was
+ * insufficient memory for a handle to it in which case the existing resource
+ * remains active and the new resource still belongs to the caller
  */
-EXTERNAL void fiftyoneDegreesResourceReplace(
+EXTERNAL bool fiftyoneDegreesResourceReplace(
 	fiftyoneDegreesResourceManager *manager,
 	void *newResource,
 	fiftyoneDegreesResourceHandle **newResourceHandle);
-- 
2.43.0


From e4e23694d4c6ddafa33281608677d5d8a6b57f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:46 +0000
Subject: [PATCH 26/74] fix: memory tracking counts only memory given since the
 last reset, of any size, and copes with failed requests and untracked memory

---
 memory.c | 79 +++++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 67 insertions(+), 12 deletions(-)

diff --git a/memory.c b/memory.c
index 5bb79f4..38ca3e5 100644
--- a/memory.c
+++ b/memory.c
@@ -39,7 +39,7 @@ static bool initialised = false;
 
 typedef struct memory_allocation_t {
 	fiftyoneDegreesTreeNode tree; /* Tree node data structure */
-	uint32_t size; /* The amount of memory allocated at pointer */
+	size_t size; /* The amount of memory allocated at pointer */
 } allocation;
 
 typedef struct memory_allocation_tree_t {
@@ -72,8 +72,16 @@ void* fiftyoneDegreesMemoryStandardMalloc(size_t size) {
 	return malloc(size);
 }
 
+/**
+ * Rounds the size up to the next multiple of the alignment.
+ */
+static size_t getAlignedSize(int alignment, size_t size) {
+	size_t remainder = size % alignment;
+	return remainder == 0 ? size : size + (alignment - remainder);
+}
+
 void* fiftyoneDegreesMemoryStandardMallocAligned(int alignment, size_t size) {
-	size += size % alignment;
+	size = getAlignedSize(alignment, size);
 #if defined( _MSC_VER) || defined(__MINGW32__) || defined(__MINGW64__)
 	return _aligned_malloc(size, alignment);
 #elif defined (__APPLE__)
@@ -108,12 +116,18 @@ static void tryInit() {
 	}
 }
 
-static void trackAllocation(void* pointer, size_t size) {
+/**
+ * Records the allocation. Returns false if there was not enough memory for the
+ * record.
+ */
+static bool trackAllocation(void* pointer, size_t size) {
 	// Create a new tree node to record the allocation.
 	allocation* record = (allocation*)malloc(sizeof(allocation));
 	int shard = getShardFromPointer(pointer);
-	assert(record != NULL);
 	assert(shard < FIFTYONE_DEGREES_MEMORY_TRACKER_SHARDS);
+	if (record == NULL) {
+		return false;
+	}
 	fiftyoneDegreesTreeNodeInit(&record->tree, &state.roots[shard]);
 #ifdef __GNUC__
 #pragma GCC diagnostic push
@@ -123,7 +137,7 @@ static void trackAllocation(void* pointer, size_t size) {
 #ifdef __GNUC__
 #pragma GCC diagnostic pop
 #endif
-	record->size = (uint32_t)size;
+	record->size = size;
 
 	// Update the tracking tree with the new allocation.
 #ifndef FIFTYONE_DEGREES_NO_THREADING
@@ -145,11 +159,11 @@ static void trackAllocation(void* pointer, size_t size) {
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.lock);
 #endif
-
+	return true;
 }
 
 static void untrackAllocation(void *pointer) {
-	uint32_t size;
+	size_t size;
 	int shard = getShardFromPointer(pointer);
 
 	// Get the size of the memory being freed and free the tracking memory.
@@ -166,12 +180,18 @@ static void untrackAllocation(void *pointer) {
 #ifdef __GNUC__
 #pragma GCC diagnostic pop
 #endif
-	assert(record != NULL);
-	size = record->size;
-	fiftyoneDegreesTreeDelete(&record->tree);
+	if (record != NULL) {
+		fiftyoneDegreesTreeDelete(&record->tree);
+	}
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.locks[shard]);
 #endif
+	if (record == NULL) {
+		// The memory was not allocated since tracking was last reset so does
+		// not contribute to the current total.
+		return;
+	}
+	size = record->size;
 	free(record);
 
 #ifndef FIFTYONE_DEGREES_NO_THREADING
@@ -195,7 +215,11 @@ void* fiftyoneDegreesMemoryTrackingMallocAligned(
 		size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size + size % alignment);
+	if (pointer != NULL &&
+		trackAllocation(pointer, getAlignedSize(alignment, size)) == false) {
+		MemoryStandardFreeAligned(pointer);
+		pointer = NULL;
+	}
 	return pointer;
 }
 
@@ -208,7 +232,10 @@ void* fiftyoneDegreesMemoryTrackingMalloc(size_t size) {
 	void* pointer = MemoryStandardMalloc(size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size);
+	if (pointer != NULL && trackAllocation(pointer, size) == false) {
+		MemoryStandardFree(pointer);
+		pointer = NULL;
+	}
 	return pointer;
 }
 
@@ -244,6 +271,17 @@ size_t fiftyoneDegreesMemoryTrackingGetAllocated() {
 	return state.allocated;
 }
 
+#ifdef _MSC_VER
+#pragma warning (push)
+#pragma warning (disable: 4100)
+#endif
+static void freeRecord(void* unused, fiftyoneDegreesTreeNode* node) {
+	free(node);
+}
+#ifdef _MSC_VER
+#pragma warning (pop)
+#endif
+
 void fiftyoneDegreesMemoryTrackingReset() {
 	int i;
 	if (initialised == false) {
@@ -257,6 +295,23 @@ void fiftyoneDegreesMemoryTrackingReset() {
 		FIFTYONE_DEGREES_MUTEX_CREATE(state.lock);
 #endif
 	}
+	else {
+		// Forget the existing allocations so that freeing them does not alter
+		// the totals.
+		for (i = 0; i < FIFTYONE_DEGREES_MEMORY_TRACKER_SHARDS; i++) {
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+			FIFTYONE_DEGREES_MUTEX_LOCK(&state.locks[i]);
+#endif
+			fiftyoneDegreesTreeIterateNodes(
+				&state.roots[i],
+				NULL,
+				freeRecord);
+			fiftyoneDegreesTreeRootInit(&state.roots[i]);
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+			FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.locks[i]);
+#endif
+		}
+	}
 	state.allocated = 0;
 	state.max = 0;
 	initialised = true;
-- 
2.43.0


From a128b30d2e1d9c22d06cea44ab7553cac3892702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:48 +0000
Subject: [PATCH 27/74] fix: HeadersCreate makes room for a name with a
 separator but one segment

---
 headers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/headers.c b/headers.c
index cbfa246..51bb9f8 100644
--- a/headers.c
+++ b/headers.c
@@ -70,9 +70,9 @@ static int countAllSegments(void* state, HeadersGetMethod get) {
 		segments = countHeaderSegments(STRING(name.data.ptr));
 		count += segments;
 
-		// If there are more than one segment then this is a pseudo header and 
+		// If the name contains separators then it isn't one of its segments so
 		// the count should also include the full header.
-		if (segments > 1) {
+		if (HeadersIsPseudo(STRING(name.data.ptr))) {
 			count++;
 		}
 		COLLECTION_RELEASE(name.collection, &name);
-- 
2.43.0


From c691d07a394f03e8fc71b18e389b680336b07f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:48 +0000
Subject: [PATCH 28/74] fix: HeaderGetIndex accepts the HTTP_ form of one
 character names

---
 headers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers.c b/headers.c
index 51bb9f8..baa6a59 100644
--- a/headers.c
+++ b/headers.c
@@ -386,7 +386,7 @@ int fiftyoneDegreesHeaderGetIndex(
 	// Check if header is from a Perl or PHP wrapper in the form of HTTP_*
 	// and if present skip these characters.
 	if (headers->expectUpperPrefixedHeaders == true &&
-		length > sizeof(HTTP_PREFIX_UPPER) &&
+		length > sizeof(HTTP_PREFIX_UPPER) - 1 &&
 		StringCompareLength(
 			httpHeaderName,
 			HTTP_PREFIX_UPPER,
-- 
2.43.0


From 93fabf648ae50c05526f34adb10170eae84423f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:48 +0000
Subject: [PATCH 29/74] fix: PseudoHeadersAddEvidence stays within the pseudo
 evidence capacity

---
 pseudoheader.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pseudoheader.c b/pseudoheader.c
index c2f14ec..daa0be7 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -175,8 +175,13 @@ fiftyoneDegreesPseudoHeadersAddEvidence(
     int charAdded;
     uint32_t i;
     if (evidence != NULL && acceptedHeaders != NULL) {
+        // Only add evidence while there is space for it.
         for (i = 0;
-            i < acceptedHeaders->count && EXCEPTION_OKAY;
+            i < acceptedHeaders->count &&
+            evidence->pseudoEvidence != NULL &&
+            evidence->pseudoEvidence->count <
+            evidence->pseudoEvidence->capacity &&
+            EXCEPTION_OKAY;
             i++) {
             header = &acceptedHeaders->items[i];
             // Only add evidence for pseudo header
-- 
2.43.0


From 8be2a9bf3501509d0dd30ed70094edda6d8ae040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:09 +0000
Subject: [PATCH 30/74] fix: truncated pseudo evidence still needs every
 segment

---
 pseudoheader.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pseudoheader.c b/pseudoheader.c
index daa0be7..957bd1a 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -111,6 +111,17 @@ static int constructPseudoEvidence(
 			return added;
 		}
 		else if (added >= max - current) {
+            // The remaining segments also need evidence for the header to be
+            // constructed.
+            for (i = i + 1; i < header->segments->count; i++) {
+                if (getEvidenceValueForHeader(
+                    &header->segments->items[i],
+                    evidence,
+                    prefix) == NULL) {
+                    memset(buffer, '\0', bufferSize);
+                    return 0;
+                }
+            }
             // Don't nullify the buffer in this case, just report that
             // it is truncated.
             return (int)(current - buffer + added);
-- 
2.43.0


From 4c8379ba62674702ae4bc3bfbe7e07677015e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:38 +0000
Subject: [PATCH 31/74] fix: keep overrides consistent when full or out of
 memory, and count those extracted

---
 overrides.c | 50 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/overrides.c b/overrides.c
index 675e84c..f0ceca5 100644
--- a/overrides.c
+++ b/overrides.c
@@ -36,6 +36,7 @@ typedef struct add_state_t {
 									   overridden */
 	OverrideValueArray *values; /* Values from evidence to use when fetching
 								overridden properties */
+	uint32_t count; /* Number of values which have been extracted */
 } addState;
 
 #ifdef _MSC_VER
@@ -132,9 +133,10 @@ bool fiftyoneDegreesOverridesAdd(
 	const char *value) {
 	uint32_t currentOverrideIndex = 0;
 	size_t length;
+	Data data;
 	String *copy;
 	OverrideValue *override;
-	if (requiredPropertyIndex >= 0 && values->count < values->capacity) {
+	if (requiredPropertyIndex >= 0) {
 
 		// Set the override either as a new item, or override an existing
 		// one if there is already one with the same required property
@@ -144,8 +146,28 @@ bool fiftyoneDegreesOverridesAdd(
 			requiredPropertyIndex) {
 			currentOverrideIndex++;
 		}
+		if (currentOverrideIndex >= values->capacity) {
+			// There is no space for a new override.
+			return false;
+		}
 		override = &values->items[currentOverrideIndex];
 
+		// Ensure there is sufficient memory for the string being copied
+		// before any changes are made to the override.
+		length = strlen(value);
+		if (override->string.allocated < sizeof(String) + length) {
+			DataReset(&data);
+			if (fiftyoneDegreesDataMalloc(
+				&data,
+				sizeof(String) + length) == NULL) {
+				return false;
+			}
+			if (override->string.allocated > 0) {
+				Free(override->string.ptr);
+			}
+			override->string = data;
+		}
+
 		if (currentOverrideIndex == values->count) {
 			// Increment the override count and set the required property
 			// index.
@@ -153,19 +175,15 @@ bool fiftyoneDegreesOverridesAdd(
 			override->requiredPropertyIndex = requiredPropertyIndex;
 		}
 
-		// Ensure there is sufficient memory for the string being copied.
-		length = strlen(value);
-		copy = (String*)fiftyoneDegreesDataMalloc(
-			&override->string,
-			sizeof(String) + length);
-
 		// Copy the string from the evidence pair to the override data 
 		// item.
+		copy = (String*)override->string.ptr;
 		memcpy(&copy->value, value, length + 1);
 		copy->size = (int16_t)(length + 1);
+		return true;
 	}
 
-	return values->count < values->capacity;
+	return false;
 }
 
 
@@ -177,10 +195,16 @@ static bool addOverrideToResults(void *state, EvidenceKeyValuePair *pair) {
 		add->properties,
 		pair->field);
 
-	return fiftyoneDegreesOverridesAdd(
+	if (fiftyoneDegreesOverridesAdd(
 		add->values,
 		requiredPropertyIndex,
-		(const char*)pair->parsedValue);
+		(const char*)pair->parsedValue)) {
+		add->count++;
+	}
+
+	// Continue even if the values are full as there might be more evidence for
+	// one of the properties which has already been overridden.
+	return true;
 }
 
 static uint32_t countOverridableProperties(
@@ -256,18 +280,18 @@ uint32_t fiftyoneDegreesOverridesExtractFromEvidence(
 	fiftyoneDegreesOverrideValueArray *values,
 	fiftyoneDegreesEvidenceKeyValuePairArray *evidence) {
 	addState state;
-	uint32_t count = 0;
+	state.count = 0;
 	if (properties != NULL && values != NULL) {
 		state.values = values;
 		state.properties = properties;
-		count = EvidenceIterate(
+		EvidenceIterate(
 			evidence,
 			FIFTYONE_DEGREES_EVIDENCE_COOKIE | 
 			FIFTYONE_DEGREES_EVIDENCE_QUERY,
 			&state,
 			addOverrideToResults);
 	}
-	return count;
+	return state.count;
 }
 
 fiftyoneDegreesString* fiftyoneDegreesOverrideValuesGetFirst(
-- 
2.43.0


From 2fb6d137ceba171eed8aface997a1e1ec3a5b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:38 +0000
Subject: [PATCH 32/74] fix: remove the override prefix from names with a
 single character

---
 overrides.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/overrides.c b/overrides.c
index f0ceca5..2abfe63 100644
--- a/overrides.c
+++ b/overrides.c
@@ -95,7 +95,7 @@ static bool startsWith(String *string, String *prefix) {
  */
 static const char* skipPrefix(bool prefixed, const char *field) {
 	char *result = (char*)field;
-	if (prefixed == true && strlen(result) > sizeof(OVERRIDE_PREFIX) &&
+	if (prefixed == true && strlen(result) > sizeof(OVERRIDE_PREFIX) - 1 &&
 		StringCompareLength(
 			field,
 			OVERRIDE_PREFIX,
-- 
2.43.0


From 55668b692acfc476aaab4af954225bdc797a3b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:38 +0000
Subject: [PATCH 33/74] fix: do not override with a different profile id when
 the id is too large

---
 overrides.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/overrides.c b/overrides.c
index 2abfe63..11e92c7 100644
--- a/overrides.c
+++ b/overrides.c
@@ -429,9 +429,9 @@ void fiftyoneDegreesOverrideValuesReset(
 
 static void extractProfileId(char *value, overrideProfileIds *state) {
 	if (*value >= 0 && isdigit(*value) != 0) {
-		int profileId = atoi(value);
-		if (profileId >= 0) {
-			state->override(state->state, profileId);
+		unsigned long long profileId = strtoull(value, NULL, 10);
+		if (profileId <= UINT32_MAX) {
+			state->override(state->state, (uint32_t)profileId);
 		}
 	}
 }
-- 
2.43.0


From c07ac89106206b1e0ed068f0c372ae7c4a87c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 34/74] fix: free the IP address structures which were
 allocated

---
 ip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ip.c b/ip.c
index aebc4ab..e771163 100644
--- a/ip.c
+++ b/ip.c
@@ -202,7 +202,7 @@ void fiftyoneDegreesIpFreeAddresses(
 	while (current != NULL) {
 		prev = current;
 		current = current->next;
-		free(prev->address);
+		free(prev);
 	}
 }
 
-- 
2.43.0


From f595a490b4250a635bd4ff99a7100f4986615a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 35/74] fix: never write past an IP address or report one which
 is incomplete

---
 ip.c | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/ip.c b/ip.c
index e771163..36c73ba 100644
--- a/ip.c
+++ b/ip.c
@@ -66,6 +66,30 @@ static byte getIpByte(int parsedValue) {
 	return (byte)parsedValue;
 }
 
+/*
+ * Get the number of bytes in an address of the type provided.
+ * @param type of the IP address
+ * @return the number of bytes available to store the address
+ */
+static size_t getIpLength(EvidenceIpType type) {
+	return type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ?
+		FIFTYONE_DEGREES_IPV4_LENGTH :
+		FIFTYONE_DEGREES_IPV6_LENGTH;
+}
+
+/*
+ * Add the next byte to the address. Any bytes found after the address is
+ * complete are ignored.
+ * @param address being built
+ * @param value of the byte to add
+ */
+static void addIpByte(EvidenceIpAddress *address, byte value) {
+	if (address->current < address->address + getIpLength(address->type)) {
+		*address->current = value;
+		address->current++;
+	}
+}
+
 static void parseIpV6Segment(
 	EvidenceIpAddress *address,
 	const char *start,
@@ -75,8 +99,7 @@ static void parseIpV6Segment(
 	if (start > end) {
 		// This is an abbreviation, so fill it in.
 		for (i = 0; i < 16 - address->bytesPresent; i++) {
-			*address->current = (byte)0;
-			address->current++;
+			addIpByte(address, (byte)0);
 		}
 	}
 	else {
@@ -90,10 +113,8 @@ static void parseIpV6Segment(
 			if (i < 2) second[1 - i] = val;
 			else first[3 - i] = val;
 		}
-		*address->current = getIpByte((int)strtol(first, NULL, 16));
-		address->current++;
-		*address->current = getIpByte((int)strtol(second, NULL, 16));
-		address->current++;
+		addIpByte(address, getIpByte((int)strtol(first, NULL, 16)));
+		addIpByte(address, getIpByte((int)strtol(second, NULL, 16)));
 	}
 }
 
@@ -104,8 +125,7 @@ static void callbackIpAddressBuild(
 	const char *end) {
 	EvidenceIpAddress *address = (EvidenceIpAddress*)state;
 	if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4) {
-		*address->current = getIpByte(atoi(start));
-		address->current++;
+		addIpByte(address, getIpByte(atoi(start)));
 	}
 	else if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6) {
 		parseIpV6Segment(address, start, end);
@@ -236,6 +256,10 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddress(
 			address,
 			type,
 			callbackIpAddressBuild);
+		// If there were not enough bytes then this is not an IP address.
+		if (address->current < address->address + getIpLength(type)) {
+			address->type = FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID;
+		}
 		address->next = NULL;
 	}
 	return address;
-- 
2.43.0


From a963ddc73e3292fe53e2cc4fee032ba372f87cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 36/74] fix: copy the whole IP address

---
 IpAddress.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IpAddress.cpp b/IpAddress.cpp
index a3933d0..36d3368 100644
--- a/IpAddress.cpp
+++ b/IpAddress.cpp
@@ -74,8 +74,8 @@ void IpAddress::init(const unsigned char * const ipAddressData,
 
 void IpAddress::getCopyOfIpAddress(unsigned char copy[], const uint32_t size) const {
     const uint32_t dataSize = ((type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4)
-        ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4
-        : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6);
+        ? FIFTYONE_DEGREES_IPV4_LENGTH
+        : FIFTYONE_DEGREES_IPV6_LENGTH);
 	const uint32_t copySize = (size < dataSize) ? size : dataSize;
 	memcpy(copy, ipAddress, copySize);
 }
-- 
2.43.0


From de5443eebf514fb9bed85e27599c532ce818f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:49 +0000
Subject: [PATCH 37/74] fix: do not include separators in IP addresses parsed
 from a list

---
 ip.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ip.c b/ip.c
index 36c73ba..9fd1b35 100644
--- a/ip.c
+++ b/ip.c
@@ -272,13 +272,17 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddresses(
 	EvidenceIpAddress *head = NULL;
 	EvidenceIpAddress *last = NULL;
 	EvidenceIpAddress *item = NULL;
-	while (*current != '\0') {
-		current++;
+	bool complete = false;
+	while (complete == false) {
+		complete = *current == '\0';
 		if (*current == ' ' ||
 		    *current == ',' ||
 		    *current == '\0') {
-			// We have reached the end of a probable IP address.
-			item = fiftyoneDegreesIpParseAddress(malloc, start, current);
+			// We have reached the end of a probable IP address unless there
+			// was nothing since the last separator.
+			item = current > start ?
+				fiftyoneDegreesIpParseAddress(malloc, start, current) :
+				NULL;
 			if (item != NULL) {
 				if (last == NULL && head == NULL) {
 					// Add the first item to the list.
@@ -294,6 +298,7 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddresses(
 			}
 			start = current + 1;
 		}
+		current++;
 	}
 	return head;
 }
-- 
2.43.0


From 93b73f4580a6f20dbff7939d358b7640ea0463a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 38/74] fix: do not find a string which is cut off by the end
 of the one searched

---
 string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.c b/string.c
index 180eb69..9395b56 100644
--- a/string.c
+++ b/string.c
@@ -101,7 +101,7 @@ char *fiftyoneDegreesStringSubString(const char *a, const char *b) {
 					break;
 				}
 			}
-			if (d == 0) {
+			if (d == 0 && *b1 == '\0') {
 				return (char *)a;
 			}
 		}
-- 
2.43.0


From 3810e138398f03796912091fe4e1f0365de5b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 39/74] fix: do not compare characters after the end of both
 strings

---
 string.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/string.c b/string.c
index 9395b56..d650643 100644
--- a/string.c
+++ b/string.c
@@ -83,6 +83,10 @@ int fiftyoneDegreesStringCompareLength(
 		if (d != 0) {
 			return d;
 		}
+		if (*a == '\0') {
+			// Both strings ended before the length was reached.
+			return 0;
+		}
 	}
 	return 0;
 }
-- 
2.43.0


From 4f65bd9cf77e82e6a63601c825b09e6d78b8ad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 40/74] fix: convert subnormal floats with the right mantissa

---
 float.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/float.c b/float.c
index 56dc875..0138368 100644
--- a/float.c
+++ b/float.c
@@ -96,13 +96,14 @@ fiftyoneDegreesFloatInternal fiftyoneDegreesNativeToFloat(float f) {
 		break;
 	case FP_SUBNORMAL:
 		// If subnormal, leave exponent to 0
-		significand = (float)frexp(f, &exponent);
 		floatU.parts.sign = (f >= 0) ? 0 : -1;
 		/*
-		 * Significand is fractional so time with 2 to power of number of mantissa bits
-		 * to get its integer
+		 * The exponent of a subnormal value is always (1 - bias). Remove it, and
+		 * times with 2 to power of number of mantissa bits to get its integer
 		 */
-		floatU.parts.mantissa = (int)(fabsf(significand) * powf(FIFTYONE_DEGREES_FLOAT_RADIX, FIFTYONE_DEGREES_FLOAT_MANT_SIZE));
+		floatU.parts.mantissa = (int)ldexpf(
+			fabsf(f),
+			FIFTYONE_DEGREES_FLOAT_BIAS - 1 + FIFTYONE_DEGREES_FLOAT_MANT_SIZE);
 		break;
 	case FP_NORMAL:
 		significand = (float)frexp(f, &exponent);
-- 
2.43.0


From f847ea25202430eba78e000d4027014f460412c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 41/74] fix: return no status message when there is no memory,
 and all of the default message

---
 status.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/status.c b/status.c
index 8ba7735..0a83fb6 100644
--- a/status.c
+++ b/status.c
@@ -153,9 +153,12 @@ const char* fiftyoneDegreesStatusGetMessage(
 		}
 	}
 	if( message == NULL) {
-		messageSize = sizeof(defaultMessage) + 5;
+		// message + longest integer + '\0' - "%i"
+		messageSize = sizeof(defaultMessage) + 9;
 		message = (char*)Malloc(messageSize);
-		Snprintf(message, messageSize, defaultMessage, (int)status);
+		if (message != NULL) {
+			Snprintf(message, messageSize, defaultMessage, (int)status);
+		}
 	}
 	return message;
 }
\ No newline at end of file
-- 
2.43.0


From 225ef266a678a94f4d26ddaf12ffb27afbd86f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 42/74] fix: return no exception message when there is no
 memory

---
 exceptionsc.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/exceptionsc.c b/exceptionsc.c
index ad5db21..87c453b 100644
--- a/exceptionsc.c
+++ b/exceptionsc.c
@@ -44,14 +44,16 @@ const char* fiftyoneDegreesExceptionGetMessage(
 		length += exception->func != NULL ? strlen(exception->func) : 0;
 		length += 10; // add 10 for line number
 		exceptionMessage = (char*)Malloc(length);
-		Snprintf(
-			exceptionMessage,
-			length,
-			format,
-			statusMessage,
-			exception->file,
-			exception->func,
-			exception->line);
+		if (exceptionMessage != NULL) {
+			Snprintf(
+				exceptionMessage,
+				length,
+				format,
+				statusMessage,
+				exception->file != NULL ? exception->file : "",
+				exception->func != NULL ? exception->func : "",
+				exception->line);
+		}
 		Free((void*)statusMessage);
 	}
 	return exceptionMessage;
-- 
2.43.0


From 5f7d52704fe2af28f59302105ecf671e54c68fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 43/74] fix: always set the status code of an exception

---
 Exceptions.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Exceptions.cpp b/Exceptions.cpp
index fd9d9e0..9d26aa5 100644
--- a/Exceptions.cpp
+++ b/Exceptions.cpp
@@ -25,15 +25,17 @@
 
 using namespace FiftyoneDegrees::Common;
 
-StatusCodeException::StatusCodeException() {}
+StatusCodeException::StatusCodeException() : exception() {
+	this->statusCode = FIFTYONE_DEGREES_STATUS_NOT_SET;
+}
 
 StatusCodeException::StatusCodeException(
 	fiftyoneDegreesStatusCode code) : exception() {
 	const char *statusMessage = StatusGetMessage(code, nullptr);
+	this->statusCode = code;
 	if (statusMessage != nullptr) {
 		message.append(statusMessage);
 		Free((void*)statusMessage);
-		this->statusCode = code;
 	}
 }
 
@@ -41,10 +43,10 @@ StatusCodeException::StatusCodeException(
 	fiftyoneDegreesStatusCode code,
 	const char *fileName) : exception() {
 	const char *statusMessage = StatusGetMessage(code, fileName);
+	this->statusCode = code;
 	if (statusMessage != nullptr) {
 		message.append(statusMessage);
 		Free((void*)statusMessage);
-		this->statusCode = code;
 	}
 }
 StatusCodeException::~StatusCodeException() {}
@@ -60,6 +62,9 @@ fiftyoneDegreesStatusCode StatusCodeException::getCode() const noexcept {
 FatalException::FatalException(
 	fiftyoneDegreesException *exception) : StatusCodeException() {
 	const char *exceptionMessage = ExceptionGetMessage(exception);
+#ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
+	this->statusCode = exception->status;
+#endif
 	if (exceptionMessage != nullptr) {
 		message.append(exceptionMessage);
 		Free((void*)exceptionMessage);
-- 
2.43.0


From 06d1d89d2f6b54abee1f6ec60c0ce2f4570c4f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:26 +0000
Subject: [PATCH 44/74] fix: deliver every line of a text file once whatever
 the size of the buffer

---
 textfile.c | 96 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 50 insertions(+), 46 deletions(-)

diff --git a/textfile.c b/textfile.c
index 60fc7fe..2cb1926 100644
--- a/textfile.c
+++ b/textfile.c
@@ -24,13 +24,22 @@
 
 #include "fiftyone.h"
 
+// Returns the first line in the characters between start and end. Where there
+// is no complete line then start is returned having skipped any new lines.
 static char* returnNextLine(
-	char* buffer, 
-	char* end, 
-	char* current, 
-	void* state, 
+	char* start,
+	char* end,
+	int* counter,
+	void* state,
 	void(*callback)(const char*, void*)) {
+	char* current;
 
+	// Move to the next printable character.
+	while (start < end && (*start == '\r' || *start == '\n')) {
+		start++;
+	}
+
+	current = start;
 	while (current < end && *current != '\r' && *current != '\n') {
 		current++;
 	}
@@ -39,16 +48,12 @@ static char* returnNextLine(
 	// call the callback.
 	if (current < end) {
 		*current = '\0';
-		callback(buffer, state);
+		callback(start, state);
+		(*counter)++;
 		// Move to the next character
-		current++;
-	}
-
-	// Move to the next printable character.
-	while (current < end && (*current == '\r' || *current == '\n')) {
-		current++;
+		return current + 1;
 	}
-	return current;
+	return start;
 }
 
 void fiftyoneDegreesTextFileIterateWithLimit(
@@ -58,46 +63,45 @@ void fiftyoneDegreesTextFileIterateWithLimit(
 	int limit,
 	void *state,
 	void(*callback)(const char*, void *)) {
-	char* end = buffer + length;
-	char* current = buffer;
-	size_t bufferRead = 0;
+	char* end = buffer; // The end of the characters in the buffer
+	char* current;
+	char* next;
+	size_t available;
+	size_t bufferRead;
+	bool finished = false;
 	int counter = 0;
 	FILE *handle;
-	if (FileOpen(fileName, &handle) == SUCCESS) {
-		while ((limit < 0 || counter < limit) &&
-			(bufferRead = fread(current, sizeof(char), end - current, handle))
-			== (size_t)(end - current)) {
+	if (length > 0 && FileOpen(fileName, &handle) == SUCCESS) {
+		while (finished == false && (limit < 0 || counter < limit)) {
 
-			// Return the next line.
-			current = returnNextLine(buffer, end, buffer, state, callback);
-			counter++;
+			// Load the next characters.
+			available = (size_t)(buffer + length - end);
+			bufferRead = fread(end, sizeof(char), available, handle);
+			end += bufferRead;
+			if (bufferRead < available) {
+				// There might not be a new line or carriage return at the end
+				// of the last line, so add one. This is safe as fewer
+				// characters were read than the buffer can hold.
+				*end = '\n';
+				end++;
+				finished = true;
+			}
 
-			// Shift the buffer to the left and load the next characters.
-			size_t shift = end - current;
-			memmove(buffer, current, shift);
-			current = buffer + shift;
-		}
-		// Update end to the last line read
-		end = current + bufferRead;
-		if ((limit < 0 || counter < limit) && 
-			(*(end - 1) != '\r' && *(end - 1) != '\n')) {
-			// If there isn't a new line or carriage return at the end
-			// we won't be able to determine the end of last line, so
-			// set the end byte to '\n' and increase the end by 1.
-			// This is safe as the buffer read at this point is always
-			// smaller than the allocated size.
-			*end = '\n';
-			end++;
-		}
-		fclose(handle);
+			// Return the lines held in the buffer.
+			current = NULL;
+			next = buffer;
+			while (current != next && (limit < 0 || counter < limit)) {
+				current = next;
+				next = returnNextLine(current, end, &counter, state, callback);
+			}
 
-		// Return any final lines held in the buffer.
-		while (current < end && 
-			(limit < 0 || counter < limit)) {
-			current = returnNextLine(buffer, end, buffer, state, callback);
-			buffer = current;
-			counter++;
+			// Shift the incomplete line to the left. If it fills the buffer
+			// then there is no space for its line ending, so ignore it.
+			available = next > buffer ? (size_t)(end - next) : 0;
+			memmove(buffer, next, available);
+			end = buffer + available;
 		}
+		fclose(handle);
 	}
 }
 
-- 
2.43.0


From 9ff595df8dec9d3f620402c1250f8f1e9c423186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 45/74] fix: only write to the pairs available when reading a
 yaml file

---
 yamlfile.c | 49 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index 6a5933c..9f698af 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -29,7 +29,8 @@ const size_t CONTROL_LENGTH = 3;
 typedef struct pair_state_t {
 	KeyValuePair* pairs; // array of key value evidence pairs
 	uint16_t size; // total available keyValuePairs
-	int16_t index; // current index being populated in the keyValuePairs
+	int32_t index; // current index being populated in the keyValuePairs
+	char* start; // first pointer that is valid
 	char* current; // current pointer to character in the pair
 	char* end; // last pointer that is valid
 } PairState;
@@ -82,16 +83,27 @@ static char* readNext(FileState* fileState) {
 	return fileState->current;
 }
 
-// Sets the current and end pointers to the current key.
+// True if the current index relates to a pair which can be populated.
+static bool isPair(PairState* state) {
+	return state->index >= 0 && state->index < state->size;
+}
+
+// Sets the current and end pointers to the current key, and ensures there is 
+// an empty value for the key if there is a pair available.
 static void setCurrentKey(PairState* state) {
 	KeyValuePair* current = state->pairs + state->index;
-	state->current = current->key;
-	state->end = current->key + current->keyLength - 1;
+	if (isPair(state)) {
+		state->start = current->key;
+		state->current = current->key;
+		state->end = current->key + current->keyLength - 1;
+		*current->value = '\0';
+	}
 }
 
 // Sets the current and end pointers to the current value.
 static void setCurrentValue(PairState* state) {
 	KeyValuePair* current = state->pairs + state->index;
+	state->start = current->value;
 	state->current = current->value;
 	state->end = current->value + current->valueLength - 1;
 }
@@ -99,15 +111,21 @@ static void setCurrentValue(PairState* state) {
 // Switches from writing to the current key to the current value. Ensures that
 // the current string being written is null terminated.
 static void switchKeyValue(PairState* state) {
-	*state->current = '\0';
-	setCurrentValue(state);
+	if (isPair(state)) {
+		*state->current = '\0';
+		setCurrentValue(state);
+	}
 }
 
 // Advances to the next key value pair. Ensures that the current string being 
 // written is null terminated.
 static void nextPair(PairState* state) {
-	*state->current = '\0';
-	state->index++;
+	if (isPair(state)) {
+		*state->current = '\0';
+	}
+	if (state->index < state->size) {
+		state->index++;
+	}
 	setCurrentKey(state);
 }
 
@@ -143,7 +161,7 @@ static void addCharacter(
 	FileState* fileState, 
 	char* current) {
 	if (pairState->current < pairState->end &&
-		pairState->index < pairState->size &&
+		isPair(pairState) &&
 		isValue(fileState)) {
 		*pairState->current = *current;
 		pairState->current++;
@@ -185,8 +203,10 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		keyValuePairs,
 		collectionSize,
 		0,
-		keyValuePairs[0].key,
-		keyValuePairs[0].key + keyValuePairs[0].keyLength - 1 };
+		NULL,
+		NULL,
+		NULL };
+	setCurrentKey(&pairState);
 
 	// If there is no limit then set the limit to the largest value to 
 	// avoid checking for negative values in the loop.
@@ -204,6 +224,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 				// If there was a quote earlier in the string and the last one
 				// is also a quote then remove the last quote.
 				if (fileState.quote > 0 && 
+					pairState.current > pairState.start &&
 					*(pairState.current - 1) == '\'') {
 					pairState.current--;
 				}
@@ -216,7 +237,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 			else {
 				// EOF
 				if (pairState.index > 0) {
-					callback(keyValuePairs, pairState.index, state);
+					callback(keyValuePairs, (uint16_t)pairState.index, state);
 				}
 				break;
 			}
@@ -230,7 +251,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 			if (fileState.dashCount == CONTROL_LENGTH) {
 				if (pairState.index > 0)
 				{
-					callback(keyValuePairs, pairState.index, state);
+					callback(keyValuePairs, (uint16_t)pairState.index, state);
 					count++;
 					if (count >= limit) {
 						break;
@@ -247,7 +268,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 			if (fileState.dotCount == CONTROL_LENGTH) {
 				if (pairState.index > 0)
 				{
-					callback(keyValuePairs, pairState.index, state);
+					callback(keyValuePairs, (uint16_t)pairState.index, state);
 				}
 				break;
 			}
-- 
2.43.0


From 801a98f10164ec599b8ff2ab028c15c974a368be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 46/74] fix: do not return a pair for a new line at the start
 of a yaml file, or a document when the limit is zero

---
 yamlfile.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yamlfile.c b/yamlfile.c
index 9f698af..d0e7681 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -199,6 +199,9 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		0,
 		false };
 
+	// Nothing is read until the first character of a line.
+	fileState.newLineCount = 1;
+
 	PairState pairState = {
 		keyValuePairs,
 		collectionSize,
@@ -214,7 +217,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		limit = INT_MAX;
 	}
 
-	while (true) {
+	while (count < limit) {
 		current = readNext(&fileState);
 
 		// If EOF or the first new line then move to the next pair.
-- 
2.43.0


From ef4f0655358b21b692b3c9e4b9d0b00ebae98ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 47/74] fix: report a failure to read a yaml file

---
 yamlfile.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index d0e7681..131f20f 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -56,12 +56,12 @@ static StatusCode readNextBlock(FileState* fileState) {
 		sizeof(char),
 		fileState->bufferLength,
 		fileState->handle);
-	if (bytesRead == 0 && !feof(fileState->handle)) {
-		status = INSUFFICIENT_MEMORY;
-	}
-	else if (ferror(fileState->handle)) {
+	if (ferror(fileState->handle)) {
 		status = FILE_READ_ERROR;
 	}
+	else if (bytesRead == 0 && !feof(fileState->handle)) {
+		status = INSUFFICIENT_MEMORY;
+	}
 	else if (bytesRead == 0) {
 		status = FILE_END_OF_FILE;
 	}
@@ -71,12 +71,11 @@ static StatusCode readNextBlock(FileState* fileState) {
 }
 
 // Read the next character or null if there are no more characters to be read.
-static char* readNext(FileState* fileState) {
-	StatusCode status = SUCCESS;
+static char* readNext(FileState* fileState, StatusCode* status) {
 	fileState->current++;
 	if (fileState->current > fileState->end) {
-		status = readNextBlock(fileState);
-		if (status != SUCCESS) {
+		*status = readNextBlock(fileState);
+		if (*status != SUCCESS) {
 			return NULL;
 		}
 	}
@@ -218,7 +217,10 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 	}
 
 	while (count < limit) {
-		current = readNext(&fileState);
+		current = readNext(&fileState, &status);
+		if (status != SUCCESS && status != FILE_END_OF_FILE) {
+			break;
+		}
 
 		// If EOF or the first new line then move to the next pair.
 		if (!current || *current == '\n' || *current == '\r') {
@@ -239,6 +241,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 			}
 			else {
 				// EOF
+				status = SUCCESS;
 				if (pairState.index > 0) {
 					callback(keyValuePairs, (uint16_t)pairState.index, state);
 				}
-- 
2.43.0


From 874ab98919526f7323c8eaeae4297f41f7e9af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 48/74] fix: keep dots at the start of a yaml key

---
 yamlfile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yamlfile.c b/yamlfile.c
index 131f20f..5be011d 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -270,6 +270,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		// If a dot and control length then return and exit.
 		else if (*current == '.' && fileState.position == fileState.dotCount) {
 			advance(&fileState);
+			addCharacter(&pairState, &fileState, current);
 			fileState.dotCount++;
 			if (fileState.dotCount == CONTROL_LENGTH) {
 				if (pairState.index > 0)
-- 
2.43.0


From 230228b09dcedb7d41d451cc99f0407c6c9472ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 49/74] fix: do not use a profile offset that could not be read

The binary search returns zero with an exception when an item can not be read. The item was then used and released again.
---
 profile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.c b/profile.c
index 8a1a2c0..d20e4d6 100644
--- a/profile.c
+++ b/profile.c
@@ -166,7 +166,7 @@ uint32_t* fiftyoneDegreesProfileGetOffsetForProfileId(
 		CollectionGetCount(profileOffsets) - 1,
 		(void*)&profileId,
 		compareProfileId,
-		exception) >= 0) {
+		exception) >= 0 && EXCEPTION_OKAY) {
 		*profileOffset = ((ProfileOffset*)profileOffsetItem.data.ptr)->offset;
 		COLLECTION_RELEASE(profileOffsets, &profileOffsetItem);
 		return profileOffset;
-- 
2.43.0


From 606f400088df05a7e6c58925d832ecbd49e8c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 50/74] fix: do not read beyond the last value index of a
 profile

---
 profile.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/profile.c b/profile.c
index d20e4d6..f4ffaf4 100644
--- a/profile.c
+++ b/profile.c
@@ -128,8 +128,8 @@ static uint32_t iterateValues(
 	// Loop through until the last value for the property has been returned
 	// or the callback doesn't need to continue.
 	while (cont == true &&
-		*valueIndex <= property->lastValueIndex &&
 		valueIndex < maxValueIndex &&
+		*valueIndex <= property->lastValueIndex &&
 		EXCEPTION_OKAY) {
 
 		// Reset the items as they should never share the same memory.
@@ -323,9 +323,9 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 						if (profileValueIndex != NULL) {
 							maxProfileValueIndex = ((uint32_t*)(profile + 1)) +
 								profile->valueCount;
-							while (*profileValueIndex <=
-								property->lastValueIndex &&
-								profileValueIndex < maxProfileValueIndex) {
+							while (profileValueIndex < maxProfileValueIndex &&
+								*profileValueIndex <=
+								property->lastValueIndex) {
 								if ((uint32_t)valueIndex ==
 									*profileValueIndex) {
 									callback(state, &profileItem);
-- 
2.43.0


From 4d5c5d8d447f9a8bb806e63e8c68e71f5fe3beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 51/74] fix: release profiles to the profiles collection

---
 profile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.c b/profile.c
index f4ffaf4..be5a929 100644
--- a/profile.c
+++ b/profile.c
@@ -335,7 +335,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 								profileValueIndex++;
 							}
 						}
-						COLLECTION_RELEASE(profileOffsets, &profileItem);
+						COLLECTION_RELEASE(profiles, &profileItem);
 					}
 					COLLECTION_RELEASE(profileOffsets, &offsetItem);
 				}
-- 
2.43.0


From 475a69c660ff3c685596d0e55b87f9736e61d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 52/74] fix: stop iterating profiles when an item can not be
 read

The items fetched after the failure were not released.
---
 profile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.c b/profile.c
index be5a929..96a9e4a 100644
--- a/profile.c
+++ b/profile.c
@@ -304,7 +304,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 			DataReset(&offsetItem.data);
 			DataReset(&profileItem.data);
 			uint32_t profileOffsetsCount = CollectionGetCount(profileOffsets);
-			for (i = 0; i < profileOffsetsCount; i++) {
+			for (i = 0; i < profileOffsetsCount && EXCEPTION_OKAY; i++) {
 				profileOffset = (ProfileOffset*)profileOffsets->get(
 					profileOffsets,
 					i,
-- 
2.43.0


From 697b7953cd26a8bafaa9dccba1b884909f954eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 53/74] fix: stop iterating profiles when the callback asks to

The result of the callback was ignored.
---
 profile.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/profile.c b/profile.c
index 96a9e4a..cf4d031 100644
--- a/profile.c
+++ b/profile.c
@@ -281,6 +281,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 	fiftyoneDegreesProfileIterateMethod callback,
 	fiftyoneDegreesException *exception) {
 	uint32_t i, count = 0;
+	bool cont = true;
 	Item propertyItem, offsetItem, profileItem;
 	uint32_t *profileValueIndex, *maxProfileValueIndex;
 	Property *property;
@@ -304,7 +305,9 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 			DataReset(&offsetItem.data);
 			DataReset(&profileItem.data);
 			uint32_t profileOffsetsCount = CollectionGetCount(profileOffsets);
-			for (i = 0; i < profileOffsetsCount && EXCEPTION_OKAY; i++) {
+			for (i = 0;
+				i < profileOffsetsCount && cont == true && EXCEPTION_OKAY;
+				i++) {
 				profileOffset = (ProfileOffset*)profileOffsets->get(
 					profileOffsets,
 					i,
@@ -328,7 +331,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 								property->lastValueIndex) {
 								if ((uint32_t)valueIndex ==
 									*profileValueIndex) {
-									callback(state, &profileItem);
+									cont = callback(state, &profileItem);
 									count++;
 									break;
 								}
-- 
2.43.0


From 3dc9bf17fdb29511a0c2f9be0662bfe554a99a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 54/74] fix: release property names to the strings collection

---
 property.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/property.c b/property.c
index 9ee0eb6..681a77c 100644
--- a/property.c
+++ b/property.c
@@ -137,7 +137,7 @@ fiftyoneDegreesProperty* fiftyoneDegreesPropertyGetByName(
 				}
 
 				// Release the property name as this is not needed again.
-				COLLECTION_RELEASE(properties, &propertyNameItem);
+				COLLECTION_RELEASE(strings, &propertyNameItem);
 			}
 		}
 	}
-- 
2.43.0


From 5b0aae0b1fcd21c3f4e5ca2914f61d2314f26a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 55/74] fix: do not return a property whose name could not be
 read

---
 property.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/property.c b/property.c
index 681a77c..9ca0b47 100644
--- a/property.c
+++ b/property.c
@@ -139,6 +139,11 @@ fiftyoneDegreesProperty* fiftyoneDegreesPropertyGetByName(
 				// Release the property name as this is not needed again.
 				COLLECTION_RELEASE(strings, &propertyNameItem);
 			}
+			else {
+				// The name could not be retrieved so this is not a match.
+				property = NULL;
+				COLLECTION_RELEASE(properties, item);
+			}
 		}
 	}
 	return property;
-- 
2.43.0


From 6ac049638ef777f0d32187df869c5edfd97f8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 56/74] fix: do not release a value that was not found

The binary search had already released the last item compared.
---
 value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.c b/value.c
index 16bdbbc..32ef169 100644
--- a/value.c
+++ b/value.c
@@ -215,7 +215,7 @@ long fiftyoneDegreesValueGetIndexByName(
 		(void*)&search,
 		compareValueByName,
 		exception);
-	if (EXCEPTION_OKAY) {
+	if (index >= 0 && EXCEPTION_OKAY) {
 		COLLECTION_RELEASE(values, &item);
 	}
 	return index;
-- 
2.43.0


From 2e3a5eaebd574b3a3b27ecc670aab0dba7ed56ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 57/74] fix: report no value index for a property without
 values

The search failed with an index out of range.
---
 value.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/value.c b/value.c
index 32ef169..2ecb436 100644
--- a/value.c
+++ b/value.c
@@ -204,6 +204,10 @@ long fiftyoneDegreesValueGetIndexByName(
 	Item item;
 	valueSearch search;
 	long index;
+	if ((int)property->firstValueIndex == -1) {
+		// There are no values for the property.
+		return -1;
+	}
 	DataReset(&item.data);
 	search.valueName = valueName;
 	search.strings = strings;
-- 
2.43.0


From 86e2271ef6be62fa3e06e8a382db434e1d101410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 58/74] fix: report insufficient memory when comparing IP
 address values

The value compared was taken for a match.
---
 value.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/value.c b/value.c
index 2ecb436..05be04c 100644
--- a/value.c
+++ b/value.c
@@ -78,10 +78,14 @@ static int compareCoordinate(String *value, const char *target) {
  * @param value the current String item
  * @param target the target search value. This should
  * be in string readable format of an IP address.
+ * @param exception set when there is not enough memory
  * @return 0 if they are equal, otherwise negative
  * for smaller and positive for bigger
  */
-static int compareIpAddress(String *value, const char *target) {
+static int compareIpAddress(
+	String *value,
+	const char *target,
+	Exception *exception) {
 	int result = 0;
 	fiftyoneDegreesEvidenceIpAddress *ipAddress
 		= fiftyoneDegreesIpParseAddress(
@@ -116,6 +120,9 @@ static int compareIpAddress(String *value, const char *target) {
 		}
 		Free(ipAddress);
 	}
+	else {
+		EXCEPTION_SET(INSUFFICIENT_MEMORY);
+	}
 	return result;
 }
 
@@ -141,7 +148,10 @@ static int compareValueByName(void *state, Item *item, long curIndex, Exception
 			result = compareCoordinate(value,search->valueName);
 			break;
 		case FIFTYONE_DEGREES_STRING_IP_ADDRESS:
-			result = compareIpAddress(value, search->valueName);
+			result = compareIpAddress(
+				value,
+				search->valueName,
+				exception);
 			break;
 		default:
 			result = strcmp(&value->value, search->valueName);
-- 
2.43.0


From 87c5a8b00538d37eb0d5ef4fd6a9dc0397f4e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 59/74] fix: refuse the key value pair index one beyond the
 last

---
 component.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component.c b/component.c
index 34de863..922eb0e 100644
--- a/component.c
+++ b/component.c
@@ -67,7 +67,7 @@ const fiftyoneDegreesComponentKeyValuePair* fiftyoneDegreesComponentGetKeyValueP
 	uint16_t index,
 	fiftyoneDegreesException *exception) {
 #ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
-	if (index > component->keyValuesCount) {
+	if (index >= component->keyValuesCount) {
 		EXCEPTION_SET(COLLECTION_INDEX_OUT_OF_RANGE);
 		return NULL;
 	}
-- 
2.43.0


From 44c7f73e2ac4c333895ab50cd497536d2c0ac59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 60/74] fix: report insufficient memory when a component list
 can not be created

---
 component.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/component.c b/component.c
index 922eb0e..ceaa86d 100644
--- a/component.c
+++ b/component.c
@@ -103,7 +103,10 @@ void fiftyoneDegreesComponentInitList(
 	uint32_t offset = 0;
 	Item item;
 	Component *component;
-	if (ListInit(list, count) == list) {
+	if (ListInit(list, count) != list) {
+		EXCEPTION_SET(INSUFFICIENT_MEMORY);
+	}
+	else {
 		while (list->count < count && EXCEPTION_OKAY) {
 
 			// Get the component and add it to the list.
-- 
2.43.0


From 99fbdb01722f8baa966963523d3efb3206c97f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 61/74] fix: release the condition when the mutex of a signal
 can not be created

This is what the documentation of SignalCreate promises.
---
 threading.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/threading.c b/threading.c
index f91e787..8465c65 100644
--- a/threading.c
+++ b/threading.c
@@ -98,8 +98,12 @@ fiftyoneDegreesSignal* fiftyoneDegreesSignalCreate() {
 	Signal *signal = (Signal*)Malloc(sizeof(Signal));
 	if (signal != NULL) {
 		signal->wait = false;
-		if (pthread_cond_init(&signal->cond, NULL) != 0 ||
-			pthread_mutex_init(&signal->mutex, NULL) != 0) {
+		if (pthread_cond_init(&signal->cond, NULL) != 0) {
+			Free(signal);
+			signal = NULL;
+		}
+		else if (pthread_mutex_init(&signal->mutex, NULL) != 0) {
+			pthread_cond_destroy(&signal->cond);
 			Free(signal);
 			signal = NULL;
 		}
-- 
2.43.0


From 30ab8f7bc4ca75be8f335e30fe81eb5a5ea427ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 62/74] fix: release the memory of a signal when it is closed

The memory is allocated by SignalCreate and nothing released it. The Windows implementation already releases everything when the handle is closed.
---
 threading.c | 1 +
 threading.h | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/threading.c b/threading.c
index 8465c65..3905479 100644
--- a/threading.c
+++ b/threading.c
@@ -115,6 +115,7 @@ void fiftyoneDegreesSignalClose(fiftyoneDegreesSignal *signal) {
 	if (signal != NULL) {
 		pthread_mutex_destroy(&signal->mutex);
 		pthread_cond_destroy(&signal->cond);
+		Free(signal);
 	}
 }
 
diff --git a/threading.h b/threading.h
index 9221fde..40200d3 100644
--- a/threading.h
+++ b/threading.h
@@ -129,8 +129,7 @@ typedef struct fiftyone_degrees_signal_t {
  * Initialises the signal pointer by setting the condition first followed by
  * the mutex if the condition was set correctly. Destroyed is set to false to
  * indicate to the other methods that the signal is still valid. The memory
- * used by the signal should be part of another structure and will be released
- * when that structure is released. If there is a problem creating the mutex
+ * used by the signal is released when the signal is closed. If there is a problem creating the mutex
  * the condition is also released.
  * @return new signal
  */
-- 
2.43.0


From 1af479a7f0ed368742e7932ae8048dba753cfcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:05 +0000
Subject: [PATCH 63/74] fix: do not alter the required properties when they are
 queried

strtok truncated the string at the first property, so later queries and the data set only saw the first one.
---
 RequiredPropertiesConfig.cpp | 41 ++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index 3e7c1c2..3b9bbf2 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -90,7 +90,8 @@ RequiredPropertiesConfig::~RequiredPropertiesConfig() {
 
 vector<string> RequiredPropertiesConfig::getProperties() const {
 	int i;
-	char *current;
+	size_t length;
+	const char *current;
 	vector<string> result;
 	if (conf.array != nullptr) {
 		for (i = 0; i < conf.count; i++) {
@@ -98,10 +99,18 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 		}
 	}
 	else if (conf.string != nullptr) {
-		current = strtok((char*)conf.string, ",");
-		while (current != NULL) {
-			result.insert(result.end(), current);
-			current = strtok(NULL, ",");
+		// Do not use strtok as it would alter the string which is also used to
+		// create the available properties.
+		current = conf.string;
+		while (*current != '\0') {
+			length = strcspn(current, ",");
+			if (length > 0) {
+				result.insert(result.end(), string(current, length));
+			}
+			current += length;
+			if (*current == ',') {
+				current++;
+			}
 		}
 	}
 	return result;
@@ -109,22 +118,12 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 
 bool RequiredPropertiesConfig::containsProperty(
 	const char *property) const {
-	int i;
-	char *current;
-	if (conf.array != nullptr) {
-		for (i = 0; i < conf.count; i++) {
-			if (_stricmp(property, conf.array[i]) == 0) {
-				return true;
-			}
-		}
-	}
-	else if (conf.string != nullptr) {
-		current = strtok((char*)conf.string, ",");
-		while (current != NULL) {
-			if (_stricmp(property, current) == 0) {
-				return true;
-			}
-			current = strtok(NULL, ",");
+	const vector<string> properties = getProperties();
+	for (vector<string>::const_iterator it = properties.begin();
+		it != properties.end();
+		it++) {
+		if (_stricmp(property, it->c_str()) == 0) {
+			return true;
 		}
 	}
 	return false;
-- 
2.43.0


From 5e10859bec94e137ed95f51e207da57736e1d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:05 +0000
Subject: [PATCH 64/74] fix: count the last of the required properties in a
 string

---
 RequiredPropertiesConfig.cpp | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index 3b9bbf2..b4a3abe 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -135,23 +135,7 @@ bool RequiredPropertiesConfig::containsProperty(
 }
 
 int RequiredPropertiesConfig::getCount() const {
-	int count;
-	char *current;
-	if (conf.array != nullptr) {
-		return conf.count;
-	}
-	else if (conf.string != nullptr) {
-		count = 0;
-		current = (char*)conf.string;
-		while (*current != '\0') {
-			if (*current == ',') {
-				count++;
-			}
-			current++;
-		}
-		return count;
-	}
-	return 0;
+	return (int)getProperties().size();
 }
 
 PropertiesRequired* RequiredPropertiesConfig::getConfig() {
-- 
2.43.0


From 046a06fb5b433182e817b27d38dbf1b2af4b93a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:05 +0000
Subject: [PATCH 65/74] fix: copy the memory of required properties with the
 instance

The memory was shared by the copies and freed by each of them.
---
 RequiredPropertiesConfig.cpp | 40 ++++++++++++++++++++++++++++++++++++
 RequiredPropertiesConfig.hpp | 27 ++++++++++++++++++++++++
 2 files changed, 67 insertions(+)

diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index b4a3abe..cb9e372 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -75,16 +75,56 @@ RequiredPropertiesConfig::RequiredPropertiesConfig(
 	const string *properties) : RequiredPropertiesConfig(
 	properties == nullptr ? nullptr : properties->c_str()) {}
 
+RequiredPropertiesConfig::RequiredPropertiesConfig(
+	const RequiredPropertiesConfig &other) : RequiredPropertiesConfig() {
+	copyFrom(other);
+}
+
+RequiredPropertiesConfig& RequiredPropertiesConfig::operator=(
+	const RequiredPropertiesConfig &other) {
+	if (this != &other) {
+		freeConfig();
+		copyFrom(other);
+	}
+	return *this;
+}
+
 RequiredPropertiesConfig::~RequiredPropertiesConfig() {
+	freeConfig();
+}
+
+void RequiredPropertiesConfig::copyFrom(
+	const RequiredPropertiesConfig &other) {
+	int i;
+	if (other.conf.array != nullptr) {
+		conf.count = other.conf.count;
+		conf.array = (const char**)Malloc(
+			conf.count * sizeof(const char*));
+		for (i = 0; i < conf.count; i++) {
+			conf.array[i] = (char*)Malloc(strlen(other.conf.array[i]) + 1);
+			strcpy((char*)conf.array[i], other.conf.array[i]);
+		}
+	}
+	if (other.conf.string != nullptr) {
+		conf.string = (const char*)Malloc(strlen(other.conf.string) + 1);
+		strcpy((char*)conf.string, other.conf.string);
+	}
+	conf.existing = other.conf.existing;
+}
+
+void RequiredPropertiesConfig::freeConfig() {
 	int i;
 	if (conf.array != nullptr) {
 		for (i = 0; i < conf.count; i++) {
 			Free((void*)conf.array[i]);
 		}
 		Free(conf.array);
+		conf.array = nullptr;
 	}
+	conf.count = 0;
 	if (conf.string != nullptr) {
 		Free((void*)conf.string);
+		conf.string = nullptr;
 	}
 }
 
diff --git a/RequiredPropertiesConfig.hpp b/RequiredPropertiesConfig.hpp
index dec372c..3e3d555 100644
--- a/RequiredPropertiesConfig.hpp
+++ b/RequiredPropertiesConfig.hpp
@@ -109,6 +109,21 @@ namespace FiftyoneDegrees {
 			 */
 			RequiredPropertiesConfig(const string *properties);
 
+			/**
+			 * Construct a new instance with a copy of the properties in
+			 * another instance.
+			 * @param other instance to copy
+			 */
+			RequiredPropertiesConfig(const RequiredPropertiesConfig &other);
+
+			/**
+			 * Replace the properties with a copy of those in another instance.
+			 * @param other instance to copy
+			 * @return this instance
+			 */
+			RequiredPropertiesConfig& operator=(
+				const RequiredPropertiesConfig &other);
+
 			/**
 			 * Destroy the configuration, freeing all the memory allocated
 			 * within it.
@@ -162,6 +177,18 @@ namespace FiftyoneDegrees {
 			 */
 			bool containsProperty(const string property) const;
 		private:
+			/**
+			 * Copy the properties from another instance into this one, which
+			 * must not contain any.
+			 * @param other instance to copy
+			 */
+			void copyFrom(const RequiredPropertiesConfig &other);
+
+			/**
+			 * Free all the memory allocated within the configuration.
+			 */
+			void freeConfig();
+
 			/** The underlying C configuration structure. */
 			fiftyoneDegreesPropertiesRequired conf;
 		};
-- 
2.43.0


From 5130a5558ecc47aa2d817c4d837cce56c0f737e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:05 +0000
Subject: [PATCH 66/74] fix: free the previous temporary directories when
 setting new ones

---
 ConfigBase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ConfigBase.cpp b/ConfigBase.cpp
index 1b827c0..f972d8b 100644
--- a/ConfigBase.cpp
+++ b/ConfigBase.cpp
@@ -81,6 +81,7 @@ void ConfigBase::freeTempDirectories() {
 }
 
 void ConfigBase::mapTempDirectories() {
+	freeTempDirectories();
 	config->tempDirCount = (int)tempDirs.size();
 	config->tempDirs = (const char**)Malloc(
 		config->tempDirCount * sizeof(const char*));
-- 
2.43.0


From 47fd9a6b1fdb860704012939c38ed444553f2613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:05 +0000
Subject: [PATCH 67/74] fix: do not share the underlying evidence when copying
 evidence

The C structure was freed by each of the copies and referenced the strings of the original.
---
 EvidenceBase.cpp | 14 ++++++++++++++
 EvidenceBase.hpp | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/EvidenceBase.cpp b/EvidenceBase.cpp
index 2d213dd..a173f55 100644
--- a/EvidenceBase.cpp
+++ b/EvidenceBase.cpp
@@ -30,6 +30,20 @@ EvidenceBase::EvidenceBase() {
 	evidence = NULL;
 }
 
+EvidenceBase::EvidenceBase(const EvidenceBase &other)
+	: map<string, string>(other) {
+	evidence = NULL;
+}
+
+EvidenceBase& EvidenceBase::operator=(const EvidenceBase &other) {
+	map<string, string>::operator=(other);
+	if (evidence != NULL) {
+		EvidenceFree(evidence);
+		evidence = NULL;
+	}
+	return *this;
+}
+
 EvidenceBase::~EvidenceBase() {
 	if (evidence != NULL) {
 		EvidenceFree(evidence);
diff --git a/EvidenceBase.hpp b/EvidenceBase.hpp
index 3dd7c5c..cfcbbd5 100644
--- a/EvidenceBase.hpp
+++ b/EvidenceBase.hpp
@@ -76,6 +76,20 @@ namespace FiftyoneDegrees {
 			 */
 			EvidenceBase();
 
+			/**
+			 * Construct a new instance with a copy of the evidence in another
+			 * instance.
+			 * @param other instance to copy
+			 */
+			EvidenceBase(const EvidenceBase &other);
+
+			/**
+			 * Replace the evidence with a copy of that in another instance.
+			 * @param other instance to copy
+			 * @return this instance
+			 */
+			EvidenceBase& operator=(const EvidenceBase &other);
+
 			/**
 			 * Free all the underlying memory containing the evidence.
 			 */
-- 
2.43.0


From 7725c853c56efcf08c02b50e1c9823d1161dc508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:05 +0000
Subject: [PATCH 68/74] fix: set the message when there are too many values to
 convert

The message was null, although it is documented as always explaining why there is no value.
---
 ResultsBase.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ResultsBase.cpp b/ResultsBase.cpp
index 5e07802..417be1e 100644
--- a/ResultsBase.cpp
+++ b/ResultsBase.cpp
@@ -130,7 +130,8 @@ FiftyoneDegrees::Common::Value<bool> ResultsBase::getValueAsBool(int requiredPro
 		if (values.size() > 1) {
 			result.setNoValueReason(
 				FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES,
-				nullptr);
+				getNoValueMessageInternal(
+					FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES));
 		}
 		else if (values.size() != 0) {
 			result.setValue((*values.begin()).compare("True") == 0);
@@ -166,7 +167,8 @@ FiftyoneDegrees::Common::Value<int> ResultsBase::getValueAsInteger(int requiredP
 		if (values.size() > 1) {
 			result.setNoValueReason(
 				FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES,
-				nullptr);
+				getNoValueMessageInternal(
+					FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES));
 		}
 		else if (values.size() != 0) {
 			result.setValue(atoi(values.begin()->c_str()));
@@ -202,7 +204,8 @@ FiftyoneDegrees::Common::Value<double> ResultsBase::getValueAsDouble(int require
 		if (values.size() > 1) {
 			result.setNoValueReason(
 				FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES,
-				nullptr);
+				getNoValueMessageInternal(
+					FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES));
 		}
 		else if (values.size() != 0) {
 			result.setValue(strtod(values.begin()->c_str(), nullptr));
-- 
2.43.0


From d248331e3c8c045df8927fce8e6576545296ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:43 +0000
Subject: [PATCH 69/74] fix: PoolInit returns NULL when the pool was not
 initialised

The documented result of a failure is NULL, and the file pool relies on it
when exceptions are disabled, but the pool was always returned.
---
 pool.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pool.c b/pool.c
index 94d3f54..df05281 100644
--- a/pool.c
+++ b/pool.c
@@ -68,9 +68,12 @@ fiftyoneDegreesPool* fiftyoneDegreesPoolInit(
 	}
 	else {
 		EXCEPTION_SET(INSUFFICIENT_MEMORY);
+		return NULL;
 	}
 
-	return pool;
+	// If any of the resources could not be created then the pool is not
+	// initialised. The caller frees any resources which were created.
+	return EXCEPTION_OKAY ? pool : NULL;
 }
 
 fiftyoneDegreesPoolItem* fiftyoneDegreesPoolItemGet(
-- 
2.43.0


From 7ea905017f4b042cf248be1147997f5883412285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:43 +0000
Subject: [PATCH 70/74] fix: report insufficient memory when properties can not
 be allocated

PropertiesCreate only returns NULL if memory could not be allocated. This was
reported as a required property not being present in the data set.
---
 dataset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataset.c b/dataset.c
index 5ab0619..f0795b1 100644
--- a/dataset.c
+++ b/dataset.c
@@ -134,7 +134,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetInitProperties(
 
 	// Check the properties were initialised.
 	if (dataSet->available == NULL) {
-		return REQ_PROP_NOT_PRESENT;
+		return INSUFFICIENT_MEMORY;
 	}
 
 	// Check there are properties available for retrieval.
-- 
2.43.0


From 46e3eefabbd3104b925f5b8fef9362a8f31059c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:31 +0000
Subject: [PATCH 71/74] fix: find files in use by identity instead of the end
 of their path

An open file was taken as not in use, and removed, when the directory was given
relative to . or with doubled separators or through a link. Another open file
whose path ended with that of the temporary file kept it from being removed. A
directory which could not be opened was closed.
---
 file.c | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/file.c b/file.c
index 7c840b1..a7ce360 100644
--- a/file.c
+++ b/file.c
@@ -503,9 +503,14 @@ static bool iteratorFileMatch(const char *fileName, void *state) {
 static bool isFileInUse(const char *pathName) {
 	DIR *procDir;
 	struct dirent *ent1, *ent2;
+	struct stat pathStat, openStat;
 	char fdPath[FILE_MAX_PATH];
 	char linkFile[FILE_MAX_PATH];
-	char linkPath[FILE_MAX_PATH];
+	if (stat(pathName, &pathStat) != 0) {
+		// It is not known which file this is. So to be safe, lets report true
+		// so it is not deleted.
+		return true;
+	}
 	procDir = opendir("/proc");
 	if (procDir != NULL) {
 		// Iterate over all directories in /proc
@@ -518,33 +523,25 @@ static bool isFileInUse(const char *pathName) {
 					// Check that the file is not '.' or '..'
 					if (strcmp(ent2->d_name, ".") != 0 &&
 						strcmp(ent2->d_name, "..") != 0) {
-						// Get the path which the symlink is pointing to
+						// Check if the open file is the same file, whichever
+						// path it was opened with.
 						if (Snprintf(
 							linkFile,
 							FILE_MAX_PATH,
 							"%s/%s",
 							fdPath,
-							ent2->d_name) >= 0) {
-							ssize_t written =
-								readlink(linkFile, linkPath, FILE_MAX_PATH);
-							if (written >= 0) {
-								linkPath[written] = '\0';
-								size_t linkPathLen = strlen(linkPath);
-								size_t pathNameLen = strlen(pathName);
-								if (pathNameLen <= linkPathLen &&
-									strncmp(linkPath + linkPathLen - pathNameLen,
-										pathName,
-										pathNameLen) == 0) {
-									closedir(fdDir);
-									closedir(procDir);
-									return true;
-								}
-							}
+							ent2->d_name) >= 0 &&
+							stat(linkFile, &openStat) == 0 &&
+							openStat.st_dev == pathStat.st_dev &&
+							openStat.st_ino == pathStat.st_ino) {
+							closedir(fdDir);
+							closedir(procDir);
+							return true;
 						}
 					}
 				}
+				closedir(fdDir);
 			}
-			closedir(fdDir);
 		}
 		closedir(procDir);
 	}
-- 
2.43.0


From 26a297946e18cf8b8bf3ecca7ed94bc53a0448f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:58 +0000
Subject: [PATCH 72/74] fix: refuse variable width items shorter than their own
 header

A string with a negative length in a data file wrote past the memory allocated
for it.
---
 collection.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collection.c b/collection.c
index a328728..adb0934 100644
--- a/collection.c
+++ b/collection.c
@@ -1127,10 +1127,15 @@ static void* readFileVariable(
 			// Calculate the number of bytes needed to store the item.
 			bytesNeeded = getFinalSize(initial);
 
+			// Check that the item is not shorter than its own header.
+			if (bytesNeeded < initialSize) {
+				EXCEPTION_SET(CORRUPT_DATA);
+			}
+
 			// Ensure sufficient memory is allocated for the item being
 			// read and that the header is copied to the data buffer
 			// provided by the caller.
-			if (DataMalloc(data, bytesNeeded) != NULL &&
+			else if (DataMalloc(data, bytesNeeded) != NULL &&
 				memcpy(data->ptr, initial, initialSize) == data->ptr) {
 
 				// Read the rest of the item into the item's data 
-- 
2.43.0


From 430649cd2415062c9faecb55ef4e7c1616fdb37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:58 +0000
Subject: [PATCH 73/74] fix: refuse profiles with more values than can be
 represented

The size of a profile in a data file overflowed, so that a profile with a part
of its values was returned and iterated past its end.
---
 profile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/profile.c b/profile.c
index cf4d031..49072e3 100644
--- a/profile.c
+++ b/profile.c
@@ -27,6 +27,11 @@ MAP_TYPE(Collection)
 
 static uint32_t getFinalProfileSize(void *initial) {
 	Profile *profile = (Profile*)initial;
+	if (profile->valueCount > (UINT32_MAX - sizeof(Profile)) /
+		sizeof(uint32_t)) {
+		// There can't be this many values, so the profile is not valid.
+		return 0;
+	}
 	return sizeof(Profile) +
 		(profile->valueCount * sizeof(uint32_t));
 }
-- 
2.43.0


From cf05ddee919b21252e69ff77b8c63c3f3dba338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:43 +0000
Subject: [PATCH 74/74] fix: return the memory of a failed memory-only
 collection to its allocator

Memory obtained with the configured allocator was given to free when compiled
for memory only operation.
---
 collection.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collection.c b/collection.c
index adb0934..174be25 100644
--- a/collection.c
+++ b/collection.c
@@ -984,13 +984,13 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 
 	// Position the file reader at the start of the collection.
 	if (fseek(file, header.startPosition, SEEK_SET) != 0) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
 	// Read the portion of the file into memory.
 	if (fread(memory.startByte, 1, header.length, file) != header.length) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
@@ -998,7 +998,7 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 	result = CollectionCreateFromMemory(&memory, header);
 
 	if (result == NULL) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
-- 
2.43.0

