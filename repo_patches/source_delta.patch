From 10793b3a82b77654cbdc1c18d6ee7fd75d28091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:07 +0000
Subject: [PATCH 01/27] fix: switch pods only after the new pod was opened

---
 pkg/document/document.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 0733c82..425e6cb 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -111,21 +111,25 @@ func (c *Client) Login(username, password string) error {
 func (c *Client) OpenPod(pod string) error {
 	c.lock.Lock()
 	defer c.lock.Unlock()
-	c.pod = pod
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
 	}
-	if !c.api.IsPodExist(c.pod, c.sessionId) {
-		_, err := c.api.CreatePod(c.pod, c.sessionId)
+	if !c.api.IsPodExist(pod, c.sessionId) {
+		_, err := c.api.CreatePod(pod, c.sessionId)
 		if err != nil {
 			return err
 		}
 	}
-	pi, err := c.api.OpenPod(c.pod, c.sessionId)
+	pi, err := c.api.OpenPod(pod, c.sessionId)
 	if err != nil {
 		return err
 	}
+	c.pod = pod
 	c.podInfo = pi
+	// the indexes belong to the pod that was open before
+	c.hnswLock.Lock()
+	c.indices = map[string]h.VectorIndex{}
+	c.hnswLock.Unlock()
 
 	//docs, _ := c.api.DocList(c.sessionId, c.pod)
 	//fmt.Println("docs", docs)
-- 
2.43.0


From 867a78bd3363bdf8a43369660bcad5c93d8c7357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:20 +0000
Subject: [PATCH 02/27] fix: open a collection, its index and the session check
 in one place, under the client's lock

---
 pkg/document/document.go | 253 ++++++++++++++-------------------------
 1 file changed, 92 insertions(+), 161 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 425e6cb..ca8d223 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -162,13 +162,6 @@ func (c *Client) CreateCollection(col *Collection) error {
 	namespacedCollection := namespace + col.Name
 	kvStore := c.podInfo.GetKVStore()
 
-	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-		// check if the document is in the cache
-		if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-			return v.([]float32), nil
-		}
-		return nil, fmt.Errorf("document not found")
-	}
 	err := c.api.DocCreate(c.sessionId, c.pod, namespacedCollection, col.Indexes, true)
 	if err != nil && !errors.Is(err, collection.ErrDocumentDBAlreadyPresent) && !errors.Is(err, collection.ErrDocumentDBAlreadyOpened) {
 		return err
@@ -189,6 +182,76 @@ func (c *Client) CreateCollection(col *Collection) error {
 		return err
 	}
 
+	_, err = c.indexFor(namespacedCollection)
+	return err
+}
+
+// openedCollection is what an operation on the documents of a collection needs
+type openedCollection struct {
+	index     h.VectorIndex
+	sessionId string
+	pod       string
+}
+
+// openCollection refuses to work without a session and an open pod. Otherwise it
+// makes sure that the tables and the index of the collection are open.
+func (c *Client) openCollection(namespacedCollection string) (*openedCollection, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	if c.sessionId == "" {
+		return nil, dfs.ErrUserNotLoggedIn
+	}
+	if c.podInfo == nil {
+		return nil, dfs.ErrPodNotOpen
+	}
+
+	// check if kv and doc table is open or not
+	kvStore := c.podInfo.GetKVStore()
+	_, err := kvStore.KVCount(namespacedCollection)
+	if err != nil {
+		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
+		if err != nil {
+			return nil, err
+		}
+	}
+	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	if err != nil {
+		return nil, err
+	}
+	if !docIsOpen {
+		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
+		if err != nil {
+			return nil, err
+		}
+	}
+	index, err := c.indexFor(namespacedCollection)
+	if err != nil {
+		return nil, err
+	}
+	return &openedCollection{index: index, sessionId: c.sessionId, pod: c.pod}, nil
+}
+
+// indexFor returns the index of a collection whose tables are open, and creates
+// it first when this client has not used the collection before. The caller holds
+// c.lock.
+func (c *Client) indexFor(namespacedCollection string) (h.VectorIndex, error) {
+	c.hnswLock.Lock()
+	defer c.hnswLock.Unlock()
+
+	if index, ok := c.indices[namespacedCollection]; ok {
+		return index, nil
+	}
+
+	pod := c.pod
+	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
+		// check if the document is in the cache
+		if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", pod, namespacedCollection, id)); ok {
+			return v.([]float32), nil
+		}
+		return nil, fmt.Errorf("document not found")
+	}
+
 	makeCL := h.MakeNoopCommitLogger
 	index, err := h.New(h.Config{
 		RootPath:              "not-used",
@@ -200,15 +263,16 @@ func (c *Client) CreateCollection(col *Collection) error {
 	}, h.UserConfig{
 		MaxConnections: 30,
 		EFConstruction: 60,
-	}, kvStore)
+	}, c.podInfo.GetKVStore())
 	if err != nil {
-		return err
+		return nil, err
+	}
+	err = index.LoadEntrypoint()
+	if err != nil {
+		return nil, err
 	}
-
-	c.hnswLock.Lock()
 	c.indices[namespacedCollection] = index
-	c.hnswLock.Unlock()
-	return nil
+	return index, nil
 }
 
 func (c *Client) DeleteCollection(collection string) error {
@@ -291,55 +355,12 @@ func (c *Client) GetCollections() ([]*Collection, error) {
 func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
 	namespacedCollection := namespace + collection
 
-	// check if kv and doc table is open or not
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	opened, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return err
 	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return err
-		}
-	}
+	index := opened.index
 
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	count, err := index.GetDocCount()
 	if err != nil {
 		count = 0
@@ -382,7 +403,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
 					continue
 				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector)
+				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", opened.pod, namespacedCollection, indexId), vector)
 
 				indexId++
 			} else if slice, ok := doc.Properties["vector"].([]float32); ok {
@@ -392,7 +413,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
 					continue
 				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), slice)
+				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", opened.pod, namespacedCollection, indexId), slice)
 
 				indexId++
 			} else {
@@ -425,7 +446,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
 					continue
 				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector.ToArray())
+				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", opened.pod, namespacedCollection, indexId), vector.ToArray())
 
 				indexId++
 			} else {
@@ -439,7 +460,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 			continue
 		}
 
-		err = c.api.DocPut(c.sessionId, c.pod, namespacedCollection, data)
+		err = c.api.DocPut(opened.sessionId, opened.pod, namespacedCollection, data)
 		if err != nil {
 			c.logger.Errorf("DocPut failed :%v\n", err.Error())
 			return err
@@ -450,7 +471,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if err != nil {
 		return err
 	}
-	err = c.api.CommitPodFeeds(c.pod, c.sessionId)
+	err = c.api.CommitPodFeeds(opened.pod, opened.sessionId)
 	if err != nil {
 		return err
 	}
@@ -459,50 +480,11 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	opened, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return nil, nil, err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, nil, err
-		}
-	}
+	index := opened.index
 	if c.lookup == nil {
 		return nil, nil, fmt.Errorf("vectorizer is not initialized")
 	}
@@ -510,9 +492,6 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -533,7 +512,7 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 		go func(i int, id uint64) {
 			defer wg.Done()
 			expr := fmt.Sprintf("%s=%d", hnswIndexName, id)
-			docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
+			docs, err := c.api.DocFind(opened.sessionId, opened.pod, namespacedCollection, expr, 1)
 			if err != nil {
 				fmt.Println("doc find error", err, id, expr, ids)
 				errCh <- err
@@ -561,54 +540,12 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
 
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	opened, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return nil, nil, err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, nil, err
-		}
-	}
+	index := opened.index
 
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -630,7 +567,7 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 		go func(i int, id uint64) {
 			defer wg.Done()
 			expr := fmt.Sprintf("%s=%d", hnswIndexName, id)
-			docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
+			docs, err := c.api.DocFind(opened.sessionId, opened.pod, namespacedCollection, expr, 1)
 			if err != nil {
 				errCh <- err
 				return
@@ -656,22 +593,16 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 
 func (c *Client) GetDocument(collection, property, value string) ([]byte, error) {
 	namespacedCollection := namespace + collection
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	opened, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, err
 	}
-	if !docIsOpen {
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, err
-		}
-	}
 
 	expr := ""
 	if property != "" && value != "" {
 		expr = fmt.Sprintf("%s=%s", property, value)
 	}
-	docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
+	docs, err := c.api.DocFind(opened.sessionId, opened.pod, namespacedCollection, expr, 1)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b01d90ea937133da9cffa4274f12bcc46f8f5b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:58 +0000
Subject: [PATCH 03/27] fix: report every document that could not be added,
 never hand out an id twice

---
 pkg/document/document.go | 205 +++++++++++++++++++++++----------------
 1 file changed, 120 insertions(+), 85 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index ca8d223..989f56c 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"math"
 	"os"
 	"strings"
 	"sync"
@@ -37,6 +38,7 @@ type Config struct {
 
 type Client struct {
 	lock          sync.Mutex
+	addLock       sync.Mutex // one batch of documents at a time, ids are handed out from the persisted count
 	hnswLock      sync.RWMutex
 	api           *dfs.API
 	indices       map[string]h.VectorIndex
@@ -355,6 +357,8 @@ func (c *Client) GetCollections() ([]*Collection, error) {
 func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
 	namespacedCollection := namespace + collection
 
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
 	opened, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return err
@@ -363,110 +367,62 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 
 	count, err := index.GetDocCount()
 	if err != nil {
-		count = 0
+		return err
+	}
+
+	// reserve the ids, they must not be handed out again if this batch fails half way
+	err = index.Flush(count + uint64(len(documents)))
+	if err != nil {
+		return err
 	}
 
 	indexId := count
+	var addErr error
 	for _, doc := range documents {
-		doc.Properties["id"] = doc.ID
+		vector, err := c.vectorOf(doc, propertiesToIndex)
+		if err != nil {
+			addErr = err
+			break
+		}
 
-		//check if vector is already present in the properties
-		if doc.Properties["vector"] != nil {
+		doc.Properties["id"] = doc.ID
+		delete(doc.Properties, "vector")
+		if vector != nil {
 			doc.Properties[hnswIndexName] = indexId
-
-			if slice, ok := doc.Properties["vector"].([]interface{}); ok {
-
-				vector := make([]float32, len(slice))
-				for j, v := range slice {
-					var result float32
-
-					switch value := v.(type) {
-					case json.Number:
-						f64Val, err := value.Float64()
-						if err != nil {
-							return fmt.Errorf("vector is not []float32")
-						} else {
-							result = float32(f64Val)
-						}
-					case float32:
-						result = value
-					case float64:
-						result = float32(value)
-					default:
-						return fmt.Errorf("vector is not []float32")
-					}
-					vector[j] = result
-				}
-				delete(doc.Properties, "vector")
-				err = index.Add(indexId, vector)
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
-				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", opened.pod, namespacedCollection, indexId), vector)
-
-				indexId++
-			} else if slice, ok := doc.Properties["vector"].([]float32); ok {
-				delete(doc.Properties, "vector")
-				err = index.Add(indexId, slice)
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
-				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", opened.pod, namespacedCollection, indexId), slice)
-
-				indexId++
-			} else {
-				return fmt.Errorf("vector format is now supported")
-			}
 		} else {
-			// vectorize the properties
-			// add the vector in the properties before adding the document in the collection
-			vectorData := ""
-			for _, property := range propertiesToIndex {
-				dt, ok := doc.Properties[property]
-				if ok {
-					vectorData += dt.(string) + " "
-				}
-			}
-
-			if vectorData != "" {
-				if c.lookup == nil {
-					return fmt.Errorf("vectorizer is not initialized")
-				}
-				vector, err := c.lookup.Corpi([]string{vectorData})
-				if err != nil {
-					c.logger.Errorf("corpi failed :%s\n", err.Error())
-					continue
-				}
-
-				doc.Properties[hnswIndexName] = indexId
-				err = index.Add(indexId, vector.ToArray())
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
-				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", opened.pod, namespacedCollection, indexId), vector.ToArray())
-
-				indexId++
-			} else {
-				doc.Properties[hnswIndexName] = -1
-			}
+			doc.Properties[hnswIndexName] = -1
 		}
 
 		data, err := json.Marshal(doc.Properties)
 		if err != nil {
 			c.logger.Errorf("marshal document failed :%s\n", err.Error())
-			continue
+			addErr = err
+			break
 		}
 
+		// the document has to be there before a search can find its vector
 		err = c.api.DocPut(opened.sessionId, opened.pod, namespacedCollection, data)
 		if err != nil {
 			c.logger.Errorf("DocPut failed :%v\n", err.Error())
-			return err
+			addErr = err
+			break
+		}
+
+		if vector != nil {
+			id := indexId
+			// the id is taken, even if indexing fails half way
+			indexId++
+			err = index.Add(id, vector)
+			if err != nil {
+				c.logger.Errorf("index.Add failed :%s\n", err.Error())
+				addErr = err
+				break
+			}
+			c.documentCache.Add(fmt.Sprintf("%s/%s/%d", opened.pod, namespacedCollection, id), vector)
 		}
 		fmt.Println("added document", indexId)
 	}
+	// also after a failure, what was added before it must survive
 	err = index.Flush(indexId)
 	if err != nil {
 		return err
@@ -475,7 +431,86 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if err != nil {
 		return err
 	}
-	return nil
+	return addErr
+}
+
+// vectorOf returns the vector a document is indexed with: the one it comes with,
+// or the one of the properties to index. It is nil if there is nothing to index.
+func (c *Client) vectorOf(doc *Document, propertiesToIndex []string) ([]float32, error) {
+	if doc == nil || doc.Properties == nil {
+		return nil, fmt.Errorf("document has no properties")
+	}
+
+	//check if vector is already present in the properties
+	if doc.Properties["vector"] != nil {
+		if slice, ok := doc.Properties["vector"].([]interface{}); ok {
+
+			vector := make([]float32, len(slice))
+			for j, v := range slice {
+				var result float32
+
+				switch value := v.(type) {
+				case json.Number:
+					f64Val, err := value.Float64()
+					if err != nil {
+						return nil, fmt.Errorf("vector is not []float32")
+					} else {
+						result = float32(f64Val)
+					}
+				case float32:
+					result = value
+				case float64:
+					result = float32(value)
+				default:
+					return nil, fmt.Errorf("vector is not []float32")
+				}
+				vector[j] = result
+			}
+			return checkedVector(vector)
+		} else if slice, ok := doc.Properties["vector"].([]float32); ok {
+			return checkedVector(slice)
+		}
+		return nil, fmt.Errorf("vector format is now supported")
+	}
+
+	// vectorize the properties
+	vectorData := ""
+	for _, property := range propertiesToIndex {
+		dt, ok := doc.Properties[property]
+		if ok {
+			text, ok := dt.(string)
+			if !ok {
+				return nil, fmt.Errorf("property %s is not a string", property)
+			}
+			vectorData += text + " "
+		}
+	}
+
+	if vectorData == "" {
+		return nil, nil
+	}
+	if c.lookup == nil {
+		return nil, fmt.Errorf("vectorizer is not initialized")
+	}
+	vector, err := c.lookup.Corpi([]string{vectorData})
+	if err != nil {
+		c.logger.Errorf("corpi failed :%s\n", err.Error())
+		return nil, err
+	}
+	return checkedVector(vector.ToArray())
+}
+
+// checkedVector refuses vectors that can neither be compared nor stored
+func checkedVector(vector []float32) ([]float32, error) {
+	if len(vector) == 0 {
+		return nil, fmt.Errorf("vector is empty")
+	}
+	for _, v := range vector {
+		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
+			return nil, fmt.Errorf("vector has values that are not finite")
+		}
+	}
+	return vector, nil
 }
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
-- 
2.43.0


From 53f13a01f74f5937fd1942d176cd4641ee0c505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:59 +0000
Subject: [PATCH 04/27] fix: report a failed deletion of a collection

---
 pkg/document/document.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 989f56c..46d8606 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -289,13 +289,14 @@ func (c *Client) DeleteCollection(collection string) error {
 
 	namespacedCollection := namespace + collection
 
+	var docErr, kvErr error
 	wg := sync.WaitGroup{}
 	wg.Add(2)
 	go func() {
 		defer wg.Done()
-		err := c.api.DocDelete(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			c.logger.Errorf("delete collection failed :%s\n", err.Error())
+		docErr = c.api.DocDelete(c.sessionId, c.pod, namespacedCollection)
+		if docErr != nil {
+			c.logger.Errorf("delete collection failed :%s\n", docErr.Error())
 		}
 	}()
 
@@ -303,16 +304,19 @@ func (c *Client) DeleteCollection(collection string) error {
 		defer wg.Done()
 		kvStore := c.podInfo.GetKVStore()
 
-		err := kvStore.DeleteKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			c.logger.Errorf("delete kv table failed :%s\n", err.Error())
+		kvErr = kvStore.DeleteKVTable(namespacedCollection, c.podInfo.GetPodPassword())
+		if kvErr != nil {
+			c.logger.Errorf("delete kv table failed :%s\n", kvErr.Error())
 		}
 	}()
 	wg.Wait()
 	c.hnswLock.Lock()
 	delete(c.indices, namespacedCollection)
 	c.hnswLock.Unlock()
-	return nil
+	if docErr != nil {
+		return docErr
+	}
+	return kvErr
 }
 
 func (c *Client) GetCollections() ([]*Collection, error) {
-- 
2.43.0


From 7d76e07d5c012c04839aa28a8eb335806b3f8faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:21 +0000
Subject: [PATCH 05/27] fix: never index a document with a cached vector of a
 deleted collection

---
 pkg/document/document.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 46d8606..5ae3541 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -416,13 +416,14 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 			id := indexId
 			// the id is taken, even if indexing fails half way
 			indexId++
+			// the index looks vectors up here, it must not find one of a deleted collection
+			c.documentCache.Add(fmt.Sprintf("%s/%s/%d", opened.pod, namespacedCollection, id), vector)
 			err = index.Add(id, vector)
 			if err != nil {
 				c.logger.Errorf("index.Add failed :%s\n", err.Error())
 				addErr = err
 				break
 			}
-			c.documentCache.Add(fmt.Sprintf("%s/%s/%d", opened.pod, namespacedCollection, id), vector)
 		}
 		fmt.Println("added document", indexId)
 	}
-- 
2.43.0


From 22166c1828ee97f57716ce7efd1f57ee21018e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:22 +0000
Subject: [PATCH 06/27] fix: accept every limit in nearest-document searches

---
 pkg/document/document.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 5ae3541..425a9a2 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -28,6 +28,9 @@ const (
 
 	hnswIndexName = "hnswId"
 	namespace     = "fave_"
+
+	// searchEF is the number of candidates a search looks at
+	searchEF = 800
 )
 
 // Config for fairOS-dfs
@@ -519,6 +522,9 @@ func checkedVector(vector []float32) ([]float32, error) {
 }
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
+	if limit < 0 {
+		return nil, nil, fmt.Errorf("limit cannot be negative")
+	}
 	namespacedCollection := namespace + collection
 	opened, err := c.openCollection(namespacedCollection)
 	if err != nil {
@@ -536,7 +542,7 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, limit, nil)
+	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, searchEF, nil)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -578,6 +584,9 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 }
 
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
+	if limit < 0 {
+		return nil, nil, fmt.Errorf("limit cannot be negative")
+	}
 	namespacedCollection := namespace + collection
 
 	opened, err := c.openCollection(namespacedCollection)
@@ -590,7 +599,7 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	if err != nil {
 		return nil, nil, err
 	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, 800, nil)
+	ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, searchEF, nil)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 8e9ee0e5dfd0c84f906700fc5e1056bdd49b1505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:42 +0000
Subject: [PATCH 07/27] fix: take only an embedding sent with a success status
 for a result of the vectorizer

---
 pkg/vectorizer/rest/vectorizer.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/vectorizer/rest/vectorizer.go b/pkg/vectorizer/rest/vectorizer.go
index 6613e36..fd4a67f 100644
--- a/pkg/vectorizer/rest/vectorizer.go
+++ b/pkg/vectorizer/rest/vectorizer.go
@@ -18,7 +18,8 @@ var (
 )
 
 type Vectorizer struct {
-	url string
+	url    string
+	client *http.Client
 }
 
 func NewVectorizer(url string) (*Vectorizer, error) {
@@ -37,7 +38,7 @@ func NewVectorizer(url string) (*Vectorizer, error) {
 		return nil, ErrServiceUnavailable
 	}
 
-	return &Vectorizer{url: url}, nil
+	return &Vectorizer{url: url, client: client}, nil
 }
 
 func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
@@ -50,14 +51,14 @@ func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
 		return nil, err
 	}
 
-	resp, err := http.Post(fmt.Sprintf("%s%s", v.url, corpiPath), "application/json", bytes.NewBuffer(payload))
+	resp, err := v.client.Post(fmt.Sprintf("%s%s", v.url, corpiPath), "application/json", bytes.NewBuffer(payload))
 	if err != nil {
 		return nil, err
 	}
 	defer resp.Body.Close()
 
 	if resp.StatusCode != http.StatusOK {
-		return nil, err
+		return nil, ErrServiceUnavailable
 	}
 
 	var result map[string][]float32
@@ -65,6 +66,10 @@ func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
 		return nil, err
 	}
 
+	if len(result["vector"]) == 0 {
+		return nil, errors.New("vectorizer sent no vector")
+	}
+
 	vector := vctrzr.NewVector(result["vector"])
 	return &vector, nil
 }
-- 
2.43.0


From f3dc933dac986b9b210beff109de2fa451fba30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:55 +0000
Subject: [PATCH 08/27] fix: answer requests with missing or null parts instead
 of panicking or dropping them

---
 adapters/handlers/collections.go | 4 +++-
 adapters/handlers/documents.go   | 7 +++++--
 pkg/document/document.go         | 3 +++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/adapters/handlers/collections.go b/adapters/handlers/collections.go
index 6281488..fc95e29 100644
--- a/adapters/handlers/collections.go
+++ b/adapters/handlers/collections.go
@@ -18,6 +18,9 @@ func (s *Handler) FaveCreateCollectionHandler(request operations.FaveCreateColle
 	}
 	indexes := make(map[string]collection.IndexType)
 	for _, v := range collectionRaw.Indexes {
+		if v == nil {
+			return operations.NewFaveCreateCollectionBadRequest().WithPayload(createErrorResponseObject("Index cannot be null"))
+		}
 		switch v.FieldType {
 		case "string":
 			indexes[v.FieldName] = collection.StringIndex
@@ -27,7 +30,6 @@ func (s *Handler) FaveCreateCollectionHandler(request operations.FaveCreateColle
 			indexes[v.FieldName] = collection.MapIndex
 		case "list":
 			indexes[v.FieldName] = collection.ListIndex
-		case "bytes":
 		default:
 			return operations.NewFaveCreateCollectionBadRequest().WithPayload(createErrorResponseObject("Wrong index type"))
 		}
diff --git a/adapters/handlers/documents.go b/adapters/handlers/documents.go
index 0b43155..7ba119e 100644
--- a/adapters/handlers/documents.go
+++ b/adapters/handlers/documents.go
@@ -24,9 +24,12 @@ func (s *Handler) FaveAddDocumentsHandler(request operations.FaveAddDocumentsPar
 	documents := make([]*document.Document, len(documentsRaw.Documents))
 
 	for i, v := range documentsRaw.Documents {
+		if v == nil {
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Document cannot be null"))
+		}
 		props, ok := v.Properties.(map[string]interface{})
-		if !ok {
-			continue
+		if !ok || props == nil {
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Document properties should be an object"))
 		}
 		d := &document.Document{
 			ID:         string(v.ID),
diff --git a/pkg/document/document.go b/pkg/document/document.go
index 425a9a2..cfa5eff 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -162,6 +162,9 @@ func (c *Client) CreateCollection(col *Collection) error {
 	if c.podInfo == nil {
 		return dfs.ErrPodNotOpen
 	}
+	if col.Indexes == nil {
+		col.Indexes = map[string]collection.IndexType{}
+	}
 	col.Indexes[hnswIndexName] = collection.NumberIndex
 
 	namespacedCollection := namespace + col.Name
-- 
2.43.0


From ce5d30c19d006612a7725fad4975816eedb3419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:25 +0000
Subject: [PATCH 09/27] fix: tell an empty index from one whose storage fails,
 search an empty index

---
 pkg/hnsw/compress.go             |  8 +++-
 pkg/hnsw/delete.go               |  6 ++-
 pkg/hnsw/index.go                | 17 ++++---
 pkg/hnsw/insert.go               | 79 +++++++++++++++++++++-----------
 pkg/hnsw/search.go               | 11 ++++-
 pkg/hnsw/search_with_max_dist.go | 12 ++++-
 6 files changed, 94 insertions(+), 39 deletions(-)

diff --git a/pkg/hnsw/compress.go b/pkg/hnsw/compress.go
index dac2d08..a2faff1 100644
--- a/pkg/hnsw/compress.go
+++ b/pkg/hnsw/compress.go
@@ -38,10 +38,14 @@ func (h *hnsw) initCompressedStore() error {
 }
 
 func (h *hnsw) Compress(segments int, centroids int, useBitsEncoding bool, encoderType int, encoderDistribution int) error {
-	if h.isEmpty() {
+	empty, err := h.isEmpty()
+	if err != nil {
+		return errors.Wrap(err, "check if index is empty")
+	}
+	if empty {
 		return errors.New("Compress command cannot be executed before inserting some data. Please, insert your data first.")
 	}
-	err := h.initCompressedStore()
+	err = h.initCompressedStore()
 	if err != nil {
 		return errors.Wrap(err, "Initializing compressed vector store")
 	}
diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index 4d13c75..defb2ca 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -90,7 +90,11 @@ func (h *hnsw) resetIfEmpty() (empty bool, err error) {
 	defer h.Unlock()
 	defer h.resetLock.Unlock()
 
-	if h.isEmptyUnsecured() {
+	empty, err = h.isEmptyUnsecured()
+	if err != nil {
+		return false, err
+	}
+	if empty {
 		return true, h.resetUnsecured()
 	}
 	return false, nil
diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 814e4f9..b85520c 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -576,19 +576,24 @@ func (h *hnsw) Stats() {
 	//}
 }
 
-func (h *hnsw) isEmpty() bool {
+func (h *hnsw) isEmpty() (bool, error) {
 	h.RLock()
 	defer h.RUnlock()
 
 	return h.isEmptyUnsecured()
 }
 
-func (h *hnsw) isEmptyUnsecured() bool {
-	isEmpty, err := h.nodes.IsEmpty(h.className)
-	if err != nil {
-		return true
+// the index is empty as long as there is no node in memory and no entrypoint was
+// ever stored
+func (h *hnsw) isEmptyUnsecured() (bool, error) {
+	if h.indexCache.Len() > 0 {
+		return false, nil
+	}
+	_, _, err := h.nodes.KVGet(h.className, entrypointKey)
+	if errors.Is(err, collection.ErrEntryNotFound) {
+		return true, nil
 	}
-	return isEmpty
+	return false, err
 }
 
 func (h *hnsw) nodeByID(id uint64) *vertex {
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index d817847..9ae34cf 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -18,6 +18,7 @@ import (
 	"math"
 	"time"
 
+	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
 	"github.com/pkg/errors"
 	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
 	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
@@ -37,11 +38,15 @@ type count struct {
 }
 
 func (h *hnsw) ValidateBeforeInsert(vector []float32) error {
-	if h.isEmpty() {
+	empty, err := h.isEmpty()
+	if err != nil {
+		return err
+	}
+	if empty {
 		return nil
 	}
 	// check if vector length is the same as existing nodes
-	existingNodeVector, err := h.cache.get(context.Background(), h.entryPointID)
+	existingNodeVector, err := h.cache.get(context.Background(), h.getEntrypoint())
 	if err != nil {
 		return err
 	}
@@ -137,16 +142,22 @@ func (h *hnsw) Flush(docCount uint64) error {
 		node.Committed = true
 		h.indexCache.Add(node.Id, node)
 	}
-	ep := &entrypoint{
-		ID: h.entryPointID,
-	}
-	epBytes, err := json.Marshal(ep)
+	empty, err := h.isEmpty()
 	if err != nil {
-		return errors.Wrapf(err, "marshal entrypoint %d", h.entryPointID)
+		return errors.Wrap(err, "check if index is empty")
 	}
-	err = h.nodes.KVPut(h.className, entrypointKey, epBytes)
-	if err != nil {
-		return errors.Wrapf(err, "put entrypoint %d", h.entryPointID)
+	if !empty {
+		ep := &entrypoint{
+			ID: h.getEntrypoint(),
+		}
+		epBytes, err := json.Marshal(ep)
+		if err != nil {
+			return errors.Wrapf(err, "marshal entrypoint %d", ep.ID)
+		}
+		err = h.nodes.KVPut(h.className, entrypointKey, epBytes)
+		if err != nil {
+			return errors.Wrapf(err, "put entrypoint %d", ep.ID)
+		}
 	}
 
 	c := &count{
@@ -154,19 +165,23 @@ func (h *hnsw) Flush(docCount uint64) error {
 	}
 	cBytes, err := json.Marshal(c)
 	if err != nil {
-		return errors.Wrapf(err, "marshal count %d", h.entryPointID)
+		return errors.Wrapf(err, "marshal count %d", docCount)
 	}
 	err = h.nodes.KVPut(h.className, countKey, cBytes)
 	if err != nil {
-		return errors.Wrapf(err, "put count %d", h.entryPointID)
+		return errors.Wrapf(err, "put count %d", docCount)
 	}
 	return h.commitLog.Flush()
 }
 
 func (h *hnsw) GetDocCount() (uint64, error) {
 	_, cBytes, err := h.nodes.KVGet(h.className, countKey)
+	if errors.Is(err, collection.ErrEntryNotFound) {
+		// nothing was ever flushed
+		return 0, nil
+	}
 	if err != nil {
-		return 0, errors.Wrapf(err, "put count %d", h.entryPointID)
+		return 0, errors.Wrap(err, "get count")
 	}
 
 	c := &count{}
@@ -179,19 +194,21 @@ func (h *hnsw) GetDocCount() (uint64, error) {
 }
 
 func (h *hnsw) LoadEntrypoint() error {
-	h.RLock()
-	defer h.RUnlock()
+	h.Lock()
+	defer h.Unlock()
 
 	_, v, err := h.nodes.KVGet(h.className, entrypointKey)
-	if err != nil {
-		h.entryPointID = 0
+	if errors.Is(err, collection.ErrEntryNotFound) {
+		// nothing was ever flushed
 		return nil
 	}
+	if err != nil {
+		return errors.Wrap(err, "get entrypoint")
+	}
 	ep := &entrypoint{}
 	err = json.Unmarshal(v, ep)
 	if err != nil {
-		h.entryPointID = 0
-		return nil
+		return errors.Wrap(err, "unmarshal entrypoint")
 	}
 
 	h.entryPointID = ep.ID
@@ -204,16 +221,24 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 
 	before := time.Now()
 
-	wasFirst := false
-	var firstInsertError error
-	h.initialInsertOnce.Do(func() {
-		if h.isEmpty() {
+	empty, err := h.isEmpty()
+	if err != nil {
+		return errors.Wrap(err, "check if index is empty")
+	}
+	if empty {
+		h.RLock()
+		initialInsertOnce := h.initialInsertOnce
+		h.RUnlock()
+
+		wasFirst := false
+		var firstInsertError error
+		initialInsertOnce.Do(func() {
 			wasFirst = true
 			firstInsertError = h.insertInitialElement(node, nodeVec)
+		})
+		if wasFirst {
+			return firstInsertError
 		}
-	})
-	if wasFirst {
-		return firstInsertError
 	}
 
 	node.markAsMaintenance()
@@ -251,7 +276,7 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 	// before = time.Now()
 	h.Lock()
 	// m.addBuildingLocking(before)
-	err := h.growIndexToAccomodateNode(node.Id, h.logger)
+	err = h.growIndexToAccomodateNode(node.Id, h.logger)
 	if err != nil {
 		h.Unlock()
 		return errors.Wrapf(err, "grow HNSW index to accommodate node %d", node.Id)
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 1b39198..3b62b1c 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -464,10 +464,17 @@ func (h *hnsw) handleDeletedNode(docID uint64) {
 func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 	ef int, allowList helpers.AllowList,
 ) ([]uint64, []float32, error) {
-	if h.isEmpty() {
+	empty, err := h.isEmpty()
+	if err != nil {
+		return nil, nil, errors.Wrap(err, "knn search: check if index is empty")
+	}
+	if empty {
 		return nil, nil, nil
 	}
+	h.RLock()
 	entryPointID := h.entryPointID
+	currentMaximumLayer := h.currentMaximumLayer
+	h.RUnlock()
 	entryPointDistance, ok, err := h.distBetweenNodeAndVec(entryPointID, searchVec)
 	if err != nil {
 		return nil, nil, errors.Wrap(err, "knn search: distance between entrypoint and query node")
@@ -477,7 +484,7 @@ func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 			"it has been flagged for cleanup and should be fixed in the next cleanup cycle")
 	}
 	// stop at layer 1, not 0!
-	for level := h.currentMaximumLayer; level >= 1; level-- {
+	for level := currentMaximumLayer; level >= 1; level-- {
 		eps := priorityqueue.NewMin(10)
 		eps.Insert(entryPointID, entryPointDistance)
 		res, err := h.searchLayerByVector(searchVec, eps, 1, level, nil)
diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 6cf2ab7..542e386 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -27,7 +27,17 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 		// similarity are only identical if the vector is normalized
 		searchVec = distancer.Normalize(searchVec)
 	}
+	empty, err := h.isEmpty()
+	if err != nil {
+		return nil, nil, errors.Wrap(err, "knn search: check if index is empty")
+	}
+	if empty {
+		return nil, nil, nil
+	}
+	h.RLock()
 	entryPointID := h.entryPointID
+	currentMaximumLayer := h.currentMaximumLayer
+	h.RUnlock()
 	entryPointDistance, ok, err := h.distBetweenNodeAndVec(entryPointID, searchVec)
 	if err != nil {
 		return nil, nil, errors.Wrap(err, "knn search: distance between entrypoint and query node")
@@ -38,7 +48,7 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	}
 
 	// stop at layer 1, not 0!
-	for level := h.currentMaximumLayer; level >= 1; level-- {
+	for level := currentMaximumLayer; level >= 1; level-- {
 		eps := priorityqueue.NewMin(1)
 		eps.Insert(entryPointID, entryPointDistance)
 		// ignore allowList on layers > 0
-- 
2.43.0


From cfbd3f7fd4ebbb43a8d27610c7c933df501cd818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:29 +0000
Subject: [PATCH 10/27] fix: return every vector within the distance together
 with its own distance

---
 pkg/hnsw/search_with_max_dist.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 542e386..48ad79b 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -81,9 +81,6 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	dists := make([]float32, len(all))
 	i = 0
 	for _, elem := range all {
-		if elem.Dist < 0 {
-			continue
-		}
 		if elem.Dist > dist {
 			break
 		}
@@ -93,5 +90,5 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	}
 
 	h.pools.pqResults.Put(res)
-	return out[:i], dists, nil
+	return out[:i], dists[:i], nil
 }
-- 
2.43.0


From dd90be57ad4336672ca06e9f59cb2b931a2a892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:55 +0000
Subject: [PATCH 11/27] fix: tell a missing node from one that could not be
 read, report the latter

---
 pkg/hnsw/delete.go               | 10 ++++++--
 pkg/hnsw/flat_search.go          |  6 ++++-
 pkg/hnsw/heuristic.go            |  5 +++-
 pkg/hnsw/index.go                | 43 ++++++++++++++++++++++++--------
 pkg/hnsw/neighbor_connections.go | 12 ++++++---
 pkg/hnsw/search.go               | 25 ++++++++++++++++---
 6 files changed, 79 insertions(+), 22 deletions(-)

diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index defb2ca..130b8f3 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -60,7 +60,10 @@ func (h *hnsw) Delete(ids ...uint64) error {
 		// connect it to (the entrypoint). With that one being tombstoned, the new
 		// node would be guaranteed to have zero edges
 
-		node := h.nodeByID(id)
+		node, err := h.loadNode(id)
+		if err != nil {
+			return err
+		}
 		if node == nil {
 			// node was already deleted/cleaned up
 			continue
@@ -302,10 +305,13 @@ func (h *hnsw) reassignNeighbor(neighbor uint64, deleteList helpers.AllowList, b
 	}
 
 	h.RLock()
-	neighborNode := h.nodeByID(neighbor)
+	neighborNode, err := h.loadNode(neighbor)
 	currentEntrypoint := h.entryPointID
 	currentMaximumLayer := h.currentMaximumLayer
 	h.RUnlock()
+	if err != nil {
+		return false, err
+	}
 
 	if neighborNode == nil || deleteList.Contains(neighborNode.Id) {
 		return true, nil
diff --git a/pkg/hnsw/flat_search.go b/pkg/hnsw/flat_search.go
index 141b7ce..77d849d 100644
--- a/pkg/hnsw/flat_search.go
+++ b/pkg/hnsw/flat_search.go
@@ -33,7 +33,11 @@ func (h *hnsw) flatSearch(queryVector []float32, limit int,
 		//	h.RUnlock()
 		//	continue
 		//}
-		c := h.nodeByID(candidate)
+		c, err := h.loadNode(candidate)
+		if err != nil {
+			h.RUnlock()
+			return nil, nil, err
+		}
 		if c == nil || h.hasTombstone(candidate) {
 			h.RUnlock()
 			continue
diff --git a/pkg/hnsw/heuristic.go b/pkg/hnsw/heuristic.go
index a4430da..527219a 100644
--- a/pkg/hnsw/heuristic.go
+++ b/pkg/hnsw/heuristic.go
@@ -103,8 +103,11 @@ func (h *hnsw) selectNeighborsHeuristic(input *priorityqueue.Queue,
 			}
 			good := true
 			for _, item := range returnList {
-				peerDist, _, _ := h.distancerProvider.SingleDist(currVec,
+				peerDist, _, err := h.distancerProvider.SingleDist(currVec,
 					vecs[item.Index])
+				if err != nil {
+					return err
+				}
 
 				if peerDist < distToQuery {
 					good = false
diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index b85520c..4fd69b9 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -414,7 +414,10 @@ func (h *hnsw) findBestEntrypointForNode(currentMaxLevel, targetLevel int,
 			// if we could find a new entrypoint, use it
 			// in case everything was tombstoned, stick with the existing one
 			elem := res.Pop()
-			n := h.nodeByID(elem.ID)
+			n, err := h.loadNode(elem.ID)
+			if err != nil {
+				return 0, err
+			}
 			if n != nil && !n.isUnderMaintenance() {
 				// but not if the entrypoint is under Maintenance
 				entryPointID = elem.ID
@@ -530,7 +533,10 @@ func (h *hnsw) distBetweenNodeAndVec(nodeId uint64, vecB []float32) (float32, bo
 		return h.pq.DistanceBetweenCompressedAndUncompressedVectors(vecB, v1), true, nil
 	}
 
-	node := h.nodeByID(nodeId)
+	node, err := h.loadNode(nodeId)
+	if err != nil {
+		return 0, false, err
+	}
 	if node == nil {
 		return 0, false, fmt.Errorf("could not get node at docID %d", nodeId)
 	}
@@ -597,6 +603,16 @@ func (h *hnsw) isEmptyUnsecured() (bool, error) {
 }
 
 func (h *hnsw) nodeByID(id uint64) *vertex {
+	node, err := h.loadNode(id)
+	if err != nil {
+		fmt.Println("nodeByID: could not get node", id, h.className, err)
+		return nil
+	}
+	return node
+}
+
+// loadNode returns nil if there is no such node, and an error if it cannot be read
+func (h *hnsw) loadNode(id uint64) (*vertex, error) {
 	var (
 		value []byte
 		v     *vertex
@@ -606,24 +622,29 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 	if ok {
 		if vertexValue, ok := val.(*vertex); ok {
 			// Now vertexValue is a pointer to the cached vertex object
-			return vertexValue
+			return vertexValue, nil
 		} else {
-			fmt.Println("Value is not a vertex.")
-			return nil
+			return nil, fmt.Errorf("value is not a vertex")
 		}
 	} else {
 		_, value, err = h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
+		if errors.Is(err, collection.ErrEntryNotFound) {
+			return nil, nil
+		}
 		if err != nil {
-			fmt.Println("nodeByID: could not get node", id, h.className, err)
-			return nil
+			return nil, errors.Wrapf(err, "get node %d", id)
 		}
 		err = json.Unmarshal(value, &v)
 		if err != nil {
-			fmt.Println("nodeByID: could not Unmarshal node", err)
-			return nil
+			return nil, errors.Wrapf(err, "unmarshal node %d", id)
+		}
+		// somebody else may have read it, and changed it, in the meantime
+		if previous, ok, _ := h.indexCache.PeekOrAdd(id, v); ok {
+			if vertexValue, ok := previous.(*vertex); ok {
+				return vertexValue, nil
+			}
 		}
-		h.indexCache.Add(id, v)
-		return v
+		return v, nil
 	}
 }
 
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index b83bd2f..bacbe85 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -112,7 +112,7 @@ func (n *neighborFinderConnector) doAtLevel(level int) error {
 
 	err = n.graph.commitLog.ReplaceLinksAtLevel(n.node.Id, level, neighbors)
 	if err != nil {
-		n.graph.logger.Error(errors.Wrapf(err, "replace links at Level %d", level))
+		return errors.Wrapf(err, "replace links at Level %d", level)
 	}
 	for _, neighborID := range neighbors {
 		if err := n.connectNeighborAtLevel(neighborID, level); err != nil {
@@ -138,7 +138,10 @@ func (n *neighborFinderConnector) doAtLevel(level int) error {
 func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 	level int,
 ) error {
-	neighbor := n.graph.nodeByID(neighborID)
+	neighbor, err := n.graph.loadNode(neighborID)
+	if err != nil {
+		return err
+	}
 	if skip := n.skipNeighbor(neighbor); skip {
 		return nil
 	}
@@ -290,7 +293,10 @@ func (n *neighborFinderConnector) pickEntrypoint() error {
 }
 
 func (n *neighborFinderConnector) tryEpCandidate(candidate uint64) (bool, error) {
-	node := n.graph.nodeByID(candidate)
+	node, err := n.graph.loadNode(candidate)
+	if err != nil {
+		return false, err
+	}
 	if node == nil {
 		return false, nil
 	}
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 3b62b1c..ac6c805 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -204,8 +204,11 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 			break
 		}
 		//h.RLock()
-		candidateNode := h.nodeByID(candidate.ID)
+		candidateNode, err := h.loadNode(candidate.ID)
 		//h.RUnlock()
+		if err != nil {
+			return nil, err
+		}
 		if candidateNode == nil {
 			// could have been a node that already had a tombstone attached and was
 			// just cleaned up while we were waiting for a read lock
@@ -243,6 +246,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 		candidateNode.Unlock()
 
 		nds := []neighbourDistance{}
+		var neighborErr error
 		wg := sync.WaitGroup{}
 		lock := sync.Mutex{}
 		for i, neighborID := range connectionsReusable {
@@ -265,6 +269,9 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 					distance, ok, err = h.distanceToFloatNode(floatDistancer, neighborID)
 				}
 				if err != nil {
+					lock.Lock()
+					neighborErr = err
+					lock.Unlock()
 					return
 				}
 				if !ok {
@@ -277,6 +284,9 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 			}(i, neighborID)
 		}
 		wg.Wait()
+		if neighborErr != nil {
+			return nil, errors.Wrap(neighborErr, "calculate distance of neighbor")
+		}
 		for _, nd := range nds {
 			distance, neighborID := nd.dist, nd.id
 			if distance < worstResultDistance || results.Len() < ef {
@@ -419,9 +429,13 @@ func (h *hnsw) distanceToByteNode(distancer *ssdhelpers.PQDistancer,
 func (h *hnsw) distanceToFloatNode(distancer distancer.Distancer,
 	nodeID uint64,
 ) (float32, bool, error) {
-	node := h.nodeByID(nodeID)
+	node, err := h.loadNode(nodeID)
+	if err != nil {
+		return 0, false, errors.Wrapf(err, "get vector of ID %d", nodeID)
+	}
 	if node == nil {
-		return 0, false, fmt.Errorf("get vector of ID %d failed\n", nodeID)
+		// was deleted in the meantime
+		return 0, false, nil
 	}
 
 	dist, _, err := distancer.Distance(node.Vector)
@@ -500,7 +514,10 @@ func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 		// deleted), and not under Maintenance is a viable candidate
 		for res.Len() > 0 {
 			cand := res.Pop()
-			n := h.nodeByID(cand.ID)
+			n, err := h.loadNode(cand.ID)
+			if err != nil {
+				return nil, nil, err
+			}
 			if n == nil {
 				// we have found a node in results that is nil. This means it was
 				// deleted, but not cleaned up properly. Make sure to add a tombstone to
-- 
2.43.0


From daac89dab83c63e1ebd60a7fdd6a96497dafb19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:24 +0000
Subject: [PATCH 12/27] fix: grow the vector caches with the index and lock
 them for every access

---
 pkg/hnsw/compressed_vector_cache.go | 38 +++++++++++++++++++++++-----
 pkg/hnsw/vector_cache.go            | 39 ++++++++++++++++++++++++-----
 2 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/pkg/hnsw/compressed_vector_cache.go b/pkg/hnsw/compressed_vector_cache.go
index 97bfc25..ee73879 100644
--- a/pkg/hnsw/compressed_vector_cache.go
+++ b/pkg/hnsw/compressed_vector_cache.go
@@ -60,7 +60,10 @@ func newCompressedShardedLockCache(maxSize int, logger logrus.FieldLogger) *comp
 //nolint:unused
 func (n *compressedShardedLockCache) get(ctx context.Context, id uint64) ([]byte, error) {
 	n.shardedLocks[id%shardFactor].RLock()
-	vec := n.cache[id]
+	var vec []byte
+	if id < uint64(len(n.cache)) {
+		vec = n.cache[id]
+	}
 	n.shardedLocks[id%shardFactor].RUnlock()
 
 	if vec != nil {
@@ -72,7 +75,11 @@ func (n *compressedShardedLockCache) get(ctx context.Context, id uint64) ([]byte
 
 //nolint:unused
 func (n *compressedShardedLockCache) all() [][]byte {
-	return n.cache
+	n.maintenanceLock.Lock()
+	defer n.maintenanceLock.Unlock()
+	n.obtainAllLocks()
+	defer n.releaseAllLocks()
+	return append([][]byte(nil), n.cache...)
 }
 
 //nolint:unused
@@ -100,7 +107,10 @@ func (n *compressedShardedLockCache) multiGet(ctx context.Context, ids []uint64)
 
 	for i, id := range ids {
 		n.shardedLocks[id%shardFactor].RLock()
-		vec := n.cache[id]
+		var vec []byte
+		if id < uint64(len(n.cache)) {
+			vec = n.cache[id]
+		}
 		n.shardedLocks[id%shardFactor].RUnlock()
 
 		if vec == nil {
@@ -120,13 +130,17 @@ func (n *compressedShardedLockCache) prefetch(id uint64) {
 	n.shardedLocks[id%shardFactor].RLock()
 	defer n.shardedLocks[id%shardFactor].RUnlock()
 
+	if id >= uint64(len(n.cache)) {
+		return
+	}
 	prefetchFunc(uintptr(unsafe.Pointer(&n.cache[id])))
 }
 
 //nolint:unused
 func (n *compressedShardedLockCache) preload(id uint64, vec []byte) {
-	n.shardedLocks[id%shardFactor].RLock()
-	defer n.shardedLocks[id%shardFactor].RUnlock()
+	n.grow(id)
+	n.shardedLocks[id%shardFactor].Lock()
+	defer n.shardedLocks[id%shardFactor].Unlock()
 	atomic.AddInt64(&n.count, 1)
 	n.trackDimensionsOnce.Do(func() {
 		atomic.StoreInt32(&n.dims, int32(len(vec)))
@@ -137,7 +151,10 @@ func (n *compressedShardedLockCache) preload(id uint64, vec []byte) {
 
 //nolint:unused
 func (n *compressedShardedLockCache) grow(node uint64) {
-	if node < uint64(len(n.cache)) {
+	n.shardedLocks[0].RLock()
+	size := uint64(len(n.cache))
+	n.shardedLocks[0].RUnlock()
+	if node < size {
 		return
 	}
 
@@ -147,6 +164,10 @@ func (n *compressedShardedLockCache) grow(node uint64) {
 	n.obtainAllLocks()
 	defer n.releaseAllLocks()
 
+	// somebody else may have grown it in the meantime
+	if node < uint64(len(n.cache)) {
+		return
+	}
 	newSize := node + minimumIndexGrowthDelta
 	newCache := make([][]byte, newSize)
 	copy(newCache, n.cache)
@@ -156,6 +177,9 @@ func (n *compressedShardedLockCache) grow(node uint64) {
 
 //nolint:unused
 func (n *compressedShardedLockCache) len() int32 {
+	// the size changes only while all locks are held
+	n.shardedLocks[0].RLock()
+	defer n.shardedLocks[0].RUnlock()
 	return int32(len(n.cache))
 }
 
@@ -166,7 +190,9 @@ func (n *compressedShardedLockCache) countVectors() int64 {
 
 //nolint:unused
 func (n *compressedShardedLockCache) drop() {
+	n.maintenanceLock.Lock()
 	n.deleteAllVectors()
+	n.maintenanceLock.Unlock()
 	n.cancel <- true
 }
 
diff --git a/pkg/hnsw/vector_cache.go b/pkg/hnsw/vector_cache.go
index 1f6e7b1..2b89e9f 100644
--- a/pkg/hnsw/vector_cache.go
+++ b/pkg/hnsw/vector_cache.go
@@ -69,12 +69,19 @@ func newShardedLockCache(vecForID VectorForID, maxSize int,
 
 //nolint:unused
 func (s *shardedLockCache) all() [][]float32 {
-	return s.cache
+	s.maintenanceLock.Lock()
+	defer s.maintenanceLock.Unlock()
+	s.obtainAllLocks()
+	defer s.releaseAllLocks()
+	return append([][]float32(nil), s.cache...)
 }
 
 func (s *shardedLockCache) get(ctx context.Context, id uint64) ([]float32, error) {
 	s.shardedLocks[id%shardFactor].RLock()
-	vec := s.cache[id]
+	var vec []float32
+	if id < uint64(len(s.cache)) {
+		vec = s.cache[id]
+	}
 	s.shardedLocks[id%shardFactor].RUnlock()
 
 	if vec != nil {
@@ -112,6 +119,7 @@ func (s *shardedLockCache) handleCacheMiss(ctx context.Context, id uint64) ([]fl
 	}
 
 	atomic.AddInt64(&s.count, 1)
+	s.grow(id)
 	s.shardedLocks[id%shardFactor].Lock()
 	s.cache[id] = vec
 	s.shardedLocks[id%shardFactor].Unlock()
@@ -125,7 +133,10 @@ func (s *shardedLockCache) multiGet(ctx context.Context, ids []uint64) ([][]floa
 
 	for i, id := range ids {
 		s.shardedLocks[id%shardFactor].RLock()
-		vec := s.cache[id]
+		var vec []float32
+		if id < uint64(len(s.cache)) {
+			vec = s.cache[id]
+		}
 		s.shardedLocks[id%shardFactor].RUnlock()
 
 		if vec == nil {
@@ -151,13 +162,17 @@ func (s *shardedLockCache) prefetch(id uint64) {
 	s.shardedLocks[id%shardFactor].RLock()
 	defer s.shardedLocks[id%shardFactor].RUnlock()
 
+	if id >= uint64(len(s.cache)) {
+		return
+	}
 	prefetchFunc(uintptr(unsafe.Pointer(&s.cache[id])))
 }
 
 //nolint:unused
 func (s *shardedLockCache) preload(id uint64, vec []float32) {
-	s.shardedLocks[id%shardFactor].RLock()
-	defer s.shardedLocks[id%shardFactor].RUnlock()
+	s.grow(id)
+	s.shardedLocks[id%shardFactor].Lock()
+	defer s.shardedLocks[id%shardFactor].Unlock()
 
 	atomic.AddInt64(&s.count, 1)
 	s.trackDimensionsOnce.Do(func() {
@@ -169,7 +184,10 @@ func (s *shardedLockCache) preload(id uint64, vec []float32) {
 
 //nolint:unused
 func (s *shardedLockCache) grow(node uint64) {
-	if node < uint64(len(s.cache)) {
+	s.shardedLocks[0].RLock()
+	size := uint64(len(s.cache))
+	s.shardedLocks[0].RUnlock()
+	if node < size {
 		return
 	}
 	s.maintenanceLock.Lock()
@@ -178,6 +196,10 @@ func (s *shardedLockCache) grow(node uint64) {
 	s.obtainAllLocks()
 	defer s.releaseAllLocks()
 
+	// somebody else may have grown it in the meantime
+	if node < uint64(len(s.cache)) {
+		return
+	}
 	newSize := node + minimumIndexGrowthDelta
 	newCache := make([][]float32, newSize)
 	copy(newCache, s.cache)
@@ -187,6 +209,9 @@ func (s *shardedLockCache) grow(node uint64) {
 
 //nolint:unused
 func (s *shardedLockCache) len() int32 {
+	// the size changes only while all locks are held
+	s.shardedLocks[0].RLock()
+	defer s.shardedLocks[0].RUnlock()
 	return int32(len(s.cache))
 }
 
@@ -197,7 +222,9 @@ func (s *shardedLockCache) countVectors() int64 {
 
 //nolint:unused
 func (s *shardedLockCache) drop() {
+	s.maintenanceLock.Lock()
 	s.deleteAllVectors()
+	s.maintenanceLock.Unlock()
 	s.cancel <- true
 }
 
-- 
2.43.0


From b4c9d070e95ce6de90e389688a6f303f0ea59e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:28 +0000
Subject: [PATCH 13/27] fix: find the vectors of nodes that are no longer
 cached

---
 pkg/hnsw/index.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 4fd69b9..fd8e75e 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -229,12 +229,28 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 		normalizeOnRead = true
 	}
 
-	vectorCache := newShardedLockCache(cfg.VectorForIDThunk, uc.VectorCacheMaxObjects,
+	var index *hnsw
+	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
+		vec, err := cfg.VectorForIDThunk(ctx, id)
+		if err == nil {
+			return vec, nil
+		}
+		// the nodes are stored with their vectors
+		node, nodeErr := index.loadNode(id)
+		if nodeErr != nil {
+			return nil, nodeErr
+		}
+		if node == nil || len(node.Vector) == 0 {
+			return nil, err
+		}
+		return node.Vector, nil
+	}
+	vectorCache := newShardedLockCache(vectorForID, uc.VectorCacheMaxObjects,
 		cfg.Logger, normalizeOnRead, defaultDeletionInterval)
 
 	compressedVectorsCache := newCompressedShardedLockCache(uc.VectorCacheMaxObjects, cfg.Logger)
 	resetCtx, resetCtxCancel := context.WithCancel(context.Background())
-	index := &hnsw{
+	index = &hnsw{
 		maximumConnections: uc.MaxConnections,
 
 		// inspired by original paper and other implementations
-- 
2.43.0


From b77c8aea23f7caeadf5823a224c49ebb93888c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:18 +0000
Subject: [PATCH 14/27] fix: never link a node to itself

---
 pkg/hnsw/neighbor_connections.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index bacbe85..65878cd 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -102,6 +102,10 @@ func (n *neighborFinderConnector) doAtLevel(level int) error {
 	neighbors := make([]uint64, 0, results.Len())
 	for results.Len() > 0 {
 		id := results.Pop().ID
+		if id == n.node.Id {
+			// don't connect to self
+			continue
+		}
 		neighbors = append(neighbors, id)
 	}
 
@@ -286,8 +290,11 @@ func (n *neighborFinderConnector) pickEntrypoint() error {
 		localDeny.Insert(candidate)
 		// now find a new one
 
+		n.graph.RLock()
+		currentMaximumLayer := n.graph.currentMaximumLayer
+		n.graph.RUnlock()
 		alternative, _ := n.graph.findNewLocalEntrypoint(localDeny,
-			n.graph.currentMaximumLayer, candidate)
+			currentMaximumLayer, candidate)
 		candidate = alternative
 	}
 }
-- 
2.43.0


From 1a6c65e5fd498581c74692657814c0520a3f71da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:22 +0000
Subject: [PATCH 15/27] fix: write every node changed since the last flush, and
 lock it meanwhile

---
 pkg/hnsw/delete.go |  3 +++
 pkg/hnsw/insert.go | 34 +++++++++++++++++++++-------------
 pkg/hnsw/vertex.go |  4 ++++
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index 130b8f3..e39f16d 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -361,6 +361,7 @@ func (h *hnsw) reassignNeighbor(neighbor uint64, deleteList helpers.AllowList, b
 			neighborNode.Lock()
 			// delete all existing Connections before re-assigning
 			neighborLevel = neighborNode.Level
+			neighborNode.Committed = false
 			neighborNode.Connections = make([][]uint64, neighborLevel+1)
 			neighborNode.Unlock()
 
@@ -378,6 +379,7 @@ func (h *hnsw) reassignNeighbor(neighbor uint64, deleteList helpers.AllowList, b
 		if level > neighborLevel {
 			neighborNode.Lock()
 			// reset Connections according to Level
+			neighborNode.Committed = false
 			neighborNode.Connections = make([][]uint64, level+1)
 			neighborNode.Unlock()
 		}
@@ -388,6 +390,7 @@ func (h *hnsw) reassignNeighbor(neighbor uint64, deleteList helpers.AllowList, b
 	neighborNode.markAsMaintenance()
 	neighborNode.Lock()
 	// delete all existing Connections before re-assigning
+	neighborNode.Committed = false
 	for level := range neighborNode.Connections {
 		neighborNode.Connections[level] = neighborNode.Connections[level][:0]
 	}
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 9ae34cf..3202caf 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -127,20 +127,9 @@ func (h *hnsw) Flush(docCount uint64) error {
 		if !ok {
 			continue
 		}
-		node := iNode.(*vertex)
-		if node.Committed {
-			continue
-		}
-		nodeBytes, err := json.Marshal(node)
-		if err != nil {
-			return errors.Wrapf(err, "marshal node %d", node.Id)
-		}
-		err = h.nodes.KVPut(h.className, fmt.Sprintf("%d", node.Id), nodeBytes)
-		if err != nil {
-			return errors.Wrapf(err, "put node %d", node.Id)
+		if err := h.flushNode(iNode.(*vertex)); err != nil {
+			return err
 		}
-		node.Committed = true
-		h.indexCache.Add(node.Id, node)
 	}
 	empty, err := h.isEmpty()
 	if err != nil {
@@ -174,6 +163,25 @@ func (h *hnsw) Flush(docCount uint64) error {
 	return h.commitLog.Flush()
 }
 
+func (h *hnsw) flushNode(node *vertex) error {
+	node.Lock()
+	defer node.Unlock()
+	if node.Committed {
+		return nil
+	}
+	nodeBytes, err := json.Marshal(node)
+	if err != nil {
+		return errors.Wrapf(err, "marshal node %d", node.Id)
+	}
+	err = h.nodes.KVPut(h.className, fmt.Sprintf("%d", node.Id), nodeBytes)
+	if err != nil {
+		return errors.Wrapf(err, "put node %d", node.Id)
+	}
+	node.Committed = true
+	h.indexCache.Add(node.Id, node)
+	return nil
+}
+
 func (h *hnsw) GetDocCount() (uint64, error) {
 	_, cBytes, err := h.nodes.KVGet(h.className, countKey)
 	if errors.Is(err, collection.ErrEntryNotFound) {
diff --git a/pkg/hnsw/vertex.go b/pkg/hnsw/vertex.go
index 5242958..112f06d 100644
--- a/pkg/hnsw/vertex.go
+++ b/pkg/hnsw/vertex.go
@@ -52,6 +52,7 @@ func (v *vertex) connectionsAtLevelNoLock(level int) []uint64 {
 func (v *vertex) upgradeToLevelNoLock(level int) {
 	newConnections := make([][]uint64, level+1)
 	copy(newConnections, v.Connections)
+	v.Committed = false
 	v.Level = level
 	v.Connections = newConnections
 }
@@ -59,6 +60,7 @@ func (v *vertex) upgradeToLevelNoLock(level int) {
 func (v *vertex) setConnectionsAtLevel(level int, connections []uint64) {
 	v.Lock()
 	defer v.Unlock()
+	v.Committed = false
 	// before we simply copy the Connections let's check how much smaller the new
 	// list is. If it's considerably smaller, we might want to downsize the
 	// current allocation
@@ -113,9 +115,11 @@ func (v *vertex) appendConnectionAtLevelNoLock(level int, connection uint64, max
 		copy(newConns, v.Connections[level])
 		v.Connections[level] = newConns
 	}
+	v.Committed = false
 	v.Connections[level] = append(v.Connections[level], connection)
 }
 
 func (v *vertex) resetConnectionsAtLevelNoLock(level int) {
+	v.Committed = false
 	v.Connections[level] = v.Connections[level][:0]
 }
-- 
2.43.0


From 15b84b58a1641e7626b2e24d3af4f3ac6015b577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:26 +0000
Subject: [PATCH 16/27] fix: release the locks of the tombstone cleanup on
 every path, report failing storage instead of panicking

---
 pkg/hnsw/delete.go               | 50 ++++++++++++--------------------
 pkg/hnsw/index.go                |  2 ++
 pkg/hnsw/neighbor_connections.go |  5 +++-
 3 files changed, 25 insertions(+), 32 deletions(-)

diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index e39f16d..eaf666e 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -13,7 +13,6 @@ package hnsw
 
 import (
 	"context"
-	"encoding/json"
 	"fmt"
 	"sync"
 	"time"
@@ -241,31 +240,13 @@ func (h *hnsw) replaceDeletedEntrypoint(deleteList helpers.AllowList, breakClean
 			// Level, we need to find an entrypoint on a lower Level
 			// 2. there is a risk that this is the only node in the entire graph. In
 			// this case we must reset the graph
-			h.RLock()
-			var (
-				value []byte
-				node  *vertex
-				err   error
-			)
-			val, ok := h.indexCache.Get(id)
-			if ok {
-				node, ok = val.(*vertex)
-				if !ok {
-					// Now vertexValue is a pointer to the cached vertex object
-					return false, fmt.Errorf("failed to get vertex")
-				}
-			} else {
-				_, value, err = h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
-				if err != nil {
-					return false, err
-				}
-				err = json.Unmarshal(value, &node)
-				if err != nil {
-					return false, err
-				}
+			node, err := h.loadNode(id)
+			if err != nil {
+				return false, err
+			}
+			if node == nil {
+				return false, fmt.Errorf("failed to get vertex")
 			}
-
-			h.RUnlock()
 			if err := h.deleteEntrypoint(node, deleteList); err != nil {
 				return false, errors.Wrap(err, "delete entrypoint")
 			}
@@ -374,8 +355,11 @@ func (h *hnsw) reassignNeighbor(neighbor uint64, deleteList helpers.AllowList, b
 		tmpDenyList := deleteList.DeepCopy()
 		tmpDenyList.Insert(entryPointID)
 
-		alternative, level := h.findNewLocalEntrypoint(tmpDenyList, currentMaximumLayer,
+		alternative, level, err := h.findNewLocalEntrypoint(tmpDenyList, currentMaximumLayer,
 			entryPointID)
+		if err != nil {
+			return false, errors.Wrap(err, "find alternative entrypoint")
+		}
 		if level > neighborLevel {
 			neighborNode.Lock()
 			// reset Connections according to Level
@@ -518,18 +502,20 @@ func (h *hnsw) findNewGlobalEntrypoint(denyList helpers.AllowList, targetLevel i
 // returns entryPointID, Level and whether a change occurred
 func (h *hnsw) findNewLocalEntrypoint(denyList helpers.AllowList, targetLevel int,
 	oldEntrypoint uint64,
-) (uint64, int) {
+) (uint64, int, error) {
 	if h.getEntrypoint() != oldEntrypoint {
 		// the current global entrypoint is different from our local entrypoint, so
 		// we can just use the global one, as the global one is guaranteed to be
 		// present on every Level, i.e. it is always chosen from the highest
 		// currently available Level
-		return h.getEntrypoint(), h.currentMaximumLayer
+		h.RLock()
+		defer h.RUnlock()
+		return h.entryPointID, h.currentMaximumLayer, nil
 	}
 
 	kvCount, err := h.nodes.KVCount(h.className)
 	if err != nil {
-		panic(err)
+		return 0, 0, err
 	}
 	maxNodes := int(kvCount.Count)
 
@@ -563,11 +549,11 @@ func (h *hnsw) findNewLocalEntrypoint(denyList helpers.AllowList, targetLevel in
 			}
 
 			// we have a node that matches
-			return uint64(i), l
+			return uint64(i), l, nil
 		}
 	}
 	// TODO this is a temp fix for panic
-	return 0, 0
+	return 0, 0, nil
 	//panic("findNewLocalEntrypoint called on an empty hnsw graph")
 }
 
@@ -622,8 +608,10 @@ func (h *hnsw) removeTombstonesAndNodes(deleteList helpers.AllowList, breakClean
 		if !breakCleanUpTombstonedNodes() {
 			_, err = h.nodes.KVDelete(h.className, fmt.Sprintf("%d", id))
 			if err != nil {
+				h.resetLock.Unlock()
 				return false, err
 			}
+			h.indexCache.Remove(id)
 			if h.compressed.Load() {
 				h.compressedVectorsCache.delete(context.TODO(), id)
 			} else {
diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index fd8e75e..1c2f6f6 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -572,7 +572,9 @@ func (h *hnsw) distBetweenNodeAndVec(nodeId uint64, vecB []float32) (float32, bo
 
 func (h *hnsw) Stats() {
 	fmt.Println("hnsw stats:", "TODO")
+	h.RLock()
 	fmt.Printf("levels: %d\n", h.currentMaximumLayer)
+	h.RUnlock()
 	//
 	//perLevelCount := map[int]uint{}
 	//
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index 65878cd..04e4f2e 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -293,8 +293,11 @@ func (n *neighborFinderConnector) pickEntrypoint() error {
 		n.graph.RLock()
 		currentMaximumLayer := n.graph.currentMaximumLayer
 		n.graph.RUnlock()
-		alternative, _ := n.graph.findNewLocalEntrypoint(localDeny,
+		alternative, _, err := n.graph.findNewLocalEntrypoint(localDeny,
 			currentMaximumLayer, candidate)
+		if err != nil {
+			return err
+		}
 		candidate = alternative
 	}
 }
-- 
2.43.0


From fee99008572e7c22480ba198a06dee1c804b9e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:45 +0000
Subject: [PATCH 17/27] fix: report compressed vectors that could not be stored

---
 pkg/hnsw/compress.go | 13 ++++++++++---
 pkg/hnsw/insert.go   |  8 ++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/pkg/hnsw/compress.go b/pkg/hnsw/compress.go
index a2faff1..4e7d309 100644
--- a/pkg/hnsw/compress.go
+++ b/pkg/hnsw/compress.go
@@ -98,12 +98,18 @@ func (h *hnsw) Compress(segments int, centroids int, useBitsEncoding bool, encod
 
 	h.compressActionLock.Lock()
 	defer h.compressActionLock.Unlock()
+	storeErrs := make([]error, len(cleanData))
 	ssdhelpers.Concurrently(uint64(len(cleanData)),
 		func(index uint64) {
 			encoded := h.pq.Encode(cleanData[index])
-			h.storeCompressedVector(index, encoded)
+			storeErrs[index] = h.storeCompressedVector(index, encoded)
 			h.compressedVectorsCache.preload(index, encoded)
 		})
+	for _, err := range storeErrs {
+		if err != nil {
+			return err
+		}
+	}
 	if err := h.commitLog.AddPQ(h.pq.ExposeFields()); err != nil {
 		return errors.Wrap(err, "Adding PQ to the commit logger")
 	}
@@ -118,11 +124,12 @@ func (h *hnsw) encodedVector(id uint64) ([]byte, error) {
 	return h.compressedVectorsCache.get(context.Background(), id)
 }
 
-func (h *hnsw) storeCompressedVector(index uint64, vector []byte) {
+func (h *hnsw) storeCompressedVector(index uint64, vector []byte) error {
 	Id := make([]byte, 8)
 	binary.LittleEndian.PutUint64(Id, index)
 	err := h.compressedStore.Bucket(helpers.CompressedObjectsBucketLSM).Put(Id, vector)
 	if err != nil {
-		h.logger.Error(errors.Wrapf(err, "Storing compressed vector with ID %d", index))
+		return errors.Wrapf(err, "Storing compressed vector with ID %d", index)
 	}
+	return nil
 }
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 3202caf..be377c2 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -110,7 +110,9 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 
 	if h.compressed.Load() {
 		compressed := h.pq.Encode(nodeVec)
-		h.storeCompressedVector(node.Id, compressed)
+		if err := h.storeCompressedVector(node.Id, compressed); err != nil {
+			return err
+		}
 		h.compressedVectorsCache.preload(node.Id, compressed)
 	} else {
 		h.cache.preload(node.Id, nodeVec)
@@ -295,7 +297,9 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 	// // have to read it from disk again
 	if h.compressed.Load() {
 		compressed := h.pq.Encode(nodeVec)
-		h.storeCompressedVector(node.Id, compressed)
+		if err := h.storeCompressedVector(node.Id, compressed); err != nil {
+			return err
+		}
 		h.compressedVectorsCache.preload(node.Id, compressed)
 	} else {
 		h.cache.preload(node.Id, nodeVec)
-- 
2.43.0


From 439885908b441514407f1034faca3ab649868506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:46 +0000
Subject: [PATCH 18/27] fix: close the commit log under its lock, accept a log
 directory with only temporary files

---
 pkg/hnsw/commit_logger.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/commit_logger.go b/pkg/hnsw/commit_logger.go
index 0c3eb65..a1db787 100644
--- a/pkg/hnsw/commit_logger.go
+++ b/pkg/hnsw/commit_logger.go
@@ -183,6 +183,10 @@ func getCurrentCommitLogFileName(dirPath string) (string, bool, error) {
 		return "", false, errors.Wrap(err, "clean up tmp combining files")
 	}
 
+	if len(files) == 0 {
+		return "", false, nil
+	}
+
 	ec := &errorcompounder.ErrorCompounder{}
 	sort.Slice(files, func(a, b int) bool {
 		ts1, err := asTimeStamp(files[a].Name())
@@ -579,7 +583,10 @@ func (l *hnswCommitLogger) combineLogs() (bool, error) {
 }
 
 func (l *hnswCommitLogger) Drop(ctx context.Context) error {
-	if err := l.commitLogger.Close(); err != nil {
+	l.Lock()
+	err := l.commitLogger.Close()
+	l.Unlock()
+	if err != nil {
 		return errors.Wrap(err, "close hnsw commit logger prior to delete")
 	}
 
-- 
2.43.0


From 0fad204857fd9ac683b09f8c51a578501d548760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:46 +0000
Subject: [PATCH 19/27] fix: never append to a half-written condensed log,
 close log files on every path

---
 pkg/hnsw/commit_log_combiner.go   | 2 ++
 pkg/hnsw/condensor.go             | 4 +++-
 pkg/hnsw/condensor_mmap_reader.go | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/commit_log_combiner.go b/pkg/hnsw/commit_log_combiner.go
index 29003a4..ac95c0d 100644
--- a/pkg/hnsw/commit_log_combiner.go
+++ b/pkg/hnsw/commit_log_combiner.go
@@ -147,6 +147,8 @@ func (c *CommitLogCombiner) mergeFiles(outName, first, second string) error {
 	if err != nil {
 		return errors.Wrapf(err, "open target file %q", outName)
 	}
+	// closing it once more after it was closed below does no harm
+	defer out.Close()
 
 	source1, err := os.Open(first)
 	if err != nil {
diff --git a/pkg/hnsw/condensor.go b/pkg/hnsw/condensor.go
index 6453a33..84857ee 100644
--- a/pkg/hnsw/condensor.go
+++ b/pkg/hnsw/condensor.go
@@ -43,10 +43,12 @@ func (c *MemoryCondensor) Do(fileName string) error {
 	}
 
 	newLogFile, err := os.OpenFile(fmt.Sprintf("%s.condensed", fileName),
-		os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o666)
+		os.O_WRONLY|os.O_TRUNC|os.O_CREATE, 0o666)
 	if err != nil {
 		return errors.Wrap(err, "open new commit log file for writing")
 	}
+	// closing it once more after it was closed below does no harm
+	defer newLogFile.Close()
 
 	c.newLogFile = newLogFile
 
diff --git a/pkg/hnsw/condensor_mmap_reader.go b/pkg/hnsw/condensor_mmap_reader.go
index 806c212..337c984 100644
--- a/pkg/hnsw/condensor_mmap_reader.go
+++ b/pkg/hnsw/condensor_mmap_reader.go
@@ -37,6 +37,8 @@ func (r *MmapCondensorReader) Do(source *os.File, index mmapIndex,
 	if err != nil {
 		return err
 	}
+	// closing it once more after it was closed below does no harm
+	defer scratchFile.Close()
 
 	size := index.Size()
 	if err := scratchFile.Truncate(int64(index.Size())); err != nil {
-- 
2.43.0


From e1aec3ddf191dcccbdcc9e9dede7215c3a31399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:47 +0000
Subject: [PATCH 20/27] fix: account for every byte of a PQ record, never use a
 partially read entry point, never write more links than announced

---
 pkg/hnsw/condensor.go    |  7 +++++++
 pkg/hnsw/deserializer.go | 36 +++++++++++++++++++++---------------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/pkg/hnsw/condensor.go b/pkg/hnsw/condensor.go
index 84857ee..762e1a7 100644
--- a/pkg/hnsw/condensor.go
+++ b/pkg/hnsw/condensor.go
@@ -189,6 +189,13 @@ func (c *MemoryCondensor) SetLinksAtLevel(nodeid uint64, level int, targets []ui
 }
 
 func (c *MemoryCondensor) AddLinksAtLevel(nodeid uint64, level uint16, targets []uint64) error {
+	if len(targets) > math.MaxUint16 {
+		c.logger.WithField("action", "condense_commit_log").
+			WithField("original_length", len(targets)).
+			WithField("maximum_length", math.MaxUint16).
+			Warning("condensor length of Connections would overflow uint16, cutting off")
+		targets = targets[:math.MaxUint16]
+	}
 	toWrite := make([]byte, 13+len(targets)*8)
 	toWrite[0] = byte(AddLinksAtLevel)
 	binary.LittleEndian.PutUint64(toWrite[1:9], nodeid)
diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index a4b91d6..2d5e474 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -110,9 +110,11 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			var entrypoint uint64
 			var level uint16
 			entrypoint, level, err = c.ReadEP(fd)
-			out.Entrypoint = entrypoint
-			out.Level = level
-			out.EntrypointChanged = true
+			if err == nil {
+				out.Entrypoint = entrypoint
+				out.Level = level
+				out.EntrypointChanged = true
+			}
 			readThisRound = 10
 		case AddLinkAtLevel:
 			err = c.ReadLink(fd, out)
@@ -141,8 +143,7 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			out.Level = 0
 			out.Nodes = make([]*vertex, initialSize)
 		case AddPQ:
-			err = c.ReadPQ(fd, out)
-			readThisRound = 9
+			readThisRound, err = c.ReadPQ(fd, out)
 		default:
 			err = errors.Errorf("unrecognized commit type %d", ct)
 		}
@@ -507,30 +508,30 @@ func (c *Deserializer) ReadKMeansEncoder(r io.Reader, res *DeserializationResult
 	return kms, nil
 }
 
-func (c *Deserializer) ReadPQ(r io.Reader, res *DeserializationResult) error {
+func (c *Deserializer) ReadPQ(r io.Reader, res *DeserializationResult) (int, error) {
 	dims, err := c.readUint16(r)
 	if err != nil {
-		return err
+		return 0, err
 	}
 	enc, err := c.readByte(r)
 	if err != nil {
-		return err
+		return 0, err
 	}
 	ks, err := c.readUint16(r)
 	if err != nil {
-		return err
+		return 0, err
 	}
 	m, err := c.readUint16(r)
 	if err != nil {
-		return err
+		return 0, err
 	}
 	dist, err := c.readByte(r)
 	if err != nil {
-		return err
+		return 0, err
 	}
 	useBitsEncoding, err := c.readByte(r)
 	if err != nil {
-		return err
+		return 0, err
 	}
 	encoder := ssdhelpers.Encoder(enc)
 	res.PQData = ssdhelpers.PQData{
@@ -542,24 +543,29 @@ func (c *Deserializer) ReadPQ(r io.Reader, res *DeserializationResult) error {
 		UseBitsEncoding:     useBitsEncoding != 0,
 	}
 	var encoderReader func(io.Reader, *DeserializationResult, uint16) (ssdhelpers.PQEncoder, error)
+	read := 9
 	switch encoder {
 	case ssdhelpers.UseTileEncoder:
 		encoderReader = c.ReadTileEncoder
+		read += int(m) * (6*8 + 2 + 1)
 	case ssdhelpers.UseKMeansEncoder:
 		encoderReader = c.ReadKMeansEncoder
+		if m > 0 {
+			read += int(m) * int(ks) * int(dims/m) * 4
+		}
 	default:
-		return errors.New("Unsuported encoder type")
+		return 0, errors.New("Unsuported encoder type")
 	}
 	for i := uint16(0); i < m; i++ {
 		encoder, err := encoderReader(r, res, i)
 		if err != nil {
-			return err
+			return 0, err
 		}
 		res.PQData.Encoders = append(res.PQData.Encoders, encoder)
 	}
 	res.Compressed = true
 
-	return nil
+	return read, nil
 }
 
 func (c *Deserializer) readUint64(r io.Reader) (uint64, error) {
-- 
2.43.0


From 05b52504ed5c7868dd7cc89d1d6c01fdefab5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:37 +0000
Subject: [PATCH 21/27] fix: report a node that cannot be read while looking
 for an entry point

---
 pkg/hnsw/delete.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index eaf666e..6454ca6 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -533,8 +533,11 @@ func (h *hnsw) findNewLocalEntrypoint(denyList helpers.AllowList, targetLevel in
 				continue
 			}
 			h.RLock()
-			candidate := h.nodeByID(uint64(i))
+			candidate, err := h.loadNode(uint64(i))
 			h.RUnlock()
+			if err != nil {
+				return 0, 0, err
+			}
 			if candidate == nil {
 				continue
 			}
-- 
2.43.0


From 3a7dc45ca3c8450cd7c4d46e4facc3c86f67bd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:58 +0000
Subject: [PATCH 22/27] fix: report why the commit log could not be shut down

---
 pkg/hnsw/backup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hnsw/backup.go b/pkg/hnsw/backup.go
index 0293a3d..70bba6d 100644
--- a/pkg/hnsw/backup.go
+++ b/pkg/hnsw/backup.go
@@ -33,7 +33,7 @@ func (h *hnsw) PauseMaintenance(ctx context.Context) error {
 
 	go func() {
 		if err := h.commitLog.Shutdown(ctx); err != nil {
-			commitLogShutdown <- errors.Wrap(ctx.Err(), "long-running commitlog shutdown in progress")
+			commitLogShutdown <- errors.Wrap(err, "long-running commitlog shutdown in progress")
 			return
 		}
 		commitLogShutdown <- nil
-- 
2.43.0


From 0771ff5e6f837d43208a391f4c256f838d402694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:55 +0000
Subject: [PATCH 23/27] fix: release the reset context of an index that could
 not be initialised

---
 pkg/hnsw/index.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 1c2f6f6..653547e 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -299,6 +299,7 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 	index.insertMetrics = newInsertMetrics(index.metrics)
 
 	if err := index.init(cfg); err != nil {
+		resetCtxCancel()
 		return nil, errors.Wrapf(err, "init index %q", index.id)
 	}
 
-- 
2.43.0


From cf09eac688691ad05cc51a73f3ed54947f59654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:27 +0000
Subject: [PATCH 24/27] fix: keep the tombstone of a deleted vector until its
 node is removed

When removing the node failed or was interrupted, the tombstone was already
gone and searches returned the deleted vector again.
---
 pkg/hnsw/delete.go | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/pkg/hnsw/delete.go b/pkg/hnsw/delete.go
index 6454ca6..cab5736 100644
--- a/pkg/hnsw/delete.go
+++ b/pkg/hnsw/delete.go
@@ -602,31 +602,34 @@ func (h *hnsw) addTombstone(ids ...uint64) error {
 func (h *hnsw) removeTombstonesAndNodes(deleteList helpers.AllowList, breakCleanUpTombstonedNodes breakCleanUpTombstonedNodesFunc) (ok bool, err error) {
 	it := deleteList.Iterator()
 	for id, ok := it.Next(); ok; id, ok = it.Next() {
+		h.resetLock.Lock()
+		if breakCleanUpTombstonedNodes() {
+			h.resetLock.Unlock()
+			return false, nil
+		}
+		_, err = h.nodes.KVDelete(h.className, fmt.Sprintf("%d", id))
+		if err != nil {
+			h.resetLock.Unlock()
+			return false, err
+		}
+		h.indexCache.Remove(id)
+		if h.compressed.Load() {
+			h.compressedVectorsCache.delete(context.TODO(), id)
+		} else {
+			h.cache.delete(context.TODO(), id)
+		}
+		if err := h.commitLog.DeleteNode(id); err != nil {
+			h.resetLock.Unlock()
+			return false, err
+		}
+		h.resetLock.Unlock()
+
+		// only now that the node is gone: without its tombstone it would be found again
 		h.metrics.RemoveTombstone()
 		h.tombstoneLock.Lock()
 		delete(h.tombstones, id)
 		h.tombstoneLock.Unlock()
 
-		h.resetLock.Lock()
-		if !breakCleanUpTombstonedNodes() {
-			_, err = h.nodes.KVDelete(h.className, fmt.Sprintf("%d", id))
-			if err != nil {
-				h.resetLock.Unlock()
-				return false, err
-			}
-			h.indexCache.Remove(id)
-			if h.compressed.Load() {
-				h.compressedVectorsCache.delete(context.TODO(), id)
-			} else {
-				h.cache.delete(context.TODO(), id)
-			}
-			if err := h.commitLog.DeleteNode(id); err != nil {
-				h.resetLock.Unlock()
-				return false, err
-			}
-		}
-		h.resetLock.Unlock()
-
 		if err := h.commitLog.RemoveTombstone(id); err != nil {
 			return false, err
 		}
-- 
2.43.0


From 350f0fb97fa939ab3fd5768dba9a84fc69ca9bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:42 +0000
Subject: [PATCH 25/27] fix: reject index settings that are not numbers instead
 of taking them for zero

---
 pkg/hnsw/user_config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/hnsw/user_config.go b/pkg/hnsw/user_config.go
index 8fd42a5..26e7ca1 100644
--- a/pkg/hnsw/user_config.go
+++ b/pkg/hnsw/user_config.go
@@ -229,6 +229,8 @@ func optionalIntFromMap(in map[string]interface{}, name string,
 		asInt64, err = typed.Int64()
 	case float64:
 		asInt64 = int64(typed)
+	default:
+		return errors.Errorf("%q must be a number, got %T", name, value)
 	}
 	if err != nil {
 		// try to recover from error
-- 
2.43.0


From 11a82360433f764a655fedcdf14d85c29f8b0e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:43 +0000
Subject: [PATCH 26/27] fix: do not combine condensed commit logs whose
 original still exists

Condensing may fail or be interrupted, which leaves both the log and an
incomplete condensed version of it. Combining the incomplete version
renamed the result over the original log, which was lost.
---
 pkg/hnsw/commit_log_combiner.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/commit_log_combiner.go b/pkg/hnsw/commit_log_combiner.go
index ac95c0d..8cf061e 100644
--- a/pkg/hnsw/commit_log_combiner.go
+++ b/pkg/hnsw/commit_log_combiner.go
@@ -47,7 +47,7 @@ func (c *CommitLogCombiner) Do() (bool, error) {
 			return executed, errors.Wrap(err, "obtain files names")
 		}
 
-		ok, err := c.combineFirstMatch(fileNames)
+		ok, err := c.combineFirstMatch(withoutIncomplete(fileNames))
 		if err != nil {
 			return executed, err
 		}
@@ -62,6 +62,26 @@ func (c *CommitLogCombiner) Do() (bool, error) {
 	return executed, nil
 }
 
+// withoutIncomplete leaves out condensed files whose original still exists:
+// condensing them failed or was interrupted, so they may be incomplete
+func withoutIncomplete(fileNames []string) []string {
+	present := make(map[string]struct{}, len(fileNames))
+	for _, fileName := range fileNames {
+		present[fileName] = struct{}{}
+	}
+
+	var out []string
+	for _, fileName := range fileNames {
+		if strings.HasSuffix(fileName, ".condensed") {
+			if _, ok := present[strings.TrimSuffix(fileName, ".condensed")]; ok {
+				continue
+			}
+		}
+		out = append(out, fileName)
+	}
+	return out
+}
+
 func (c *CommitLogCombiner) combineFirstMatch(fileNames []string) (bool, error) {
 	for i, fileName := range fileNames {
 		if !strings.HasSuffix(fileName, ".condensed") {
-- 
2.43.0


From e36be6a61e98092600244ba1dd252731c9837229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:03 +0000
Subject: [PATCH 27/27] fix: mark entry points on the search's own list of
 visited nodes

The list was passed by value: when an entry point's id lay beyond the end
of the list, only the copy grew and was marked, so the search visited the
entry point again and returned it twice.
---
 pkg/hnsw/search.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index ac6c805..c694119 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -180,7 +180,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 	}
 
 	h.insertViableEntrypointsAsCandidatesAndResults(entrypoints, candidates,
-		results, level, visited, allowList)
+		results, level, &visited, allowList)
 
 	var worstResultDistance float32
 	var err error
@@ -336,7 +336,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 
 func (h *hnsw) insertViableEntrypointsAsCandidatesAndResults(
 	entrypoints, candidates, results *priorityqueue.Queue, level int,
-	visitedList visited.ListSet, allowList helpers.AllowList,
+	visitedList *visited.ListSet, allowList helpers.AllowList,
 ) {
 	for entrypoints.Len() > 0 {
 		ep := entrypoints.Pop()
-- 
2.43.0

