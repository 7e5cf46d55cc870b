From 0df9aa293166d076b14822d405c711a3d2e5ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 01/36] fix: release segments lock when replaceSegment rejects
 an index

---
 segments.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/segments.go b/segments.go
index 71ddfd1..3f091a6 100644
--- a/segments.go
+++ b/segments.go
@@ -279,6 +279,7 @@ func (s *Segments) replaceSegment(ctx context.Context, bs blobstore.WithSet, ls
 	s.SegmentsLock.Lock()
 	ls.seg.elementsUpdated(ls.elements)
 	if ls.index >= len(s.Segments) || ls.index < 0 {
+		defer s.SegmentsLock.Unlock()
 		return fmt.Errorf("internal error: locked segment index (%d) out of range (0:%d)", ls.index, len(s.Segments))
 	}
 	s.Segments[ls.index] = *ls.seg
-- 
2.43.0


From f3181281fef3fa203d8558f5fa2fce54eca29bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 02/36] fix: release segments lock when a list backup fails to
 write

---
 list.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/list.go b/list.go
index 08a3ee9..a5ba7be 100644
--- a/list.go
+++ b/list.go
@@ -1876,6 +1876,7 @@ func (l *List) Backup(ctx context.Context, bs blobstore.Store, w *WriterMsgp) er
 	scores.SegmentsLock.RLock()
 	err = scores.EncodeMsg(w.Writer())
 	if err != nil {
+		scores.SegmentsLock.RUnlock()
 		return err
 	}
 
-- 
2.43.0


From 01fa4382a95fa769a250248e32c351edd078f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 03/36] fix: release list lock, and segments once, when
 populate cannot write the index

---
 list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.go b/list.go
index a5ba7be..1df89b4 100644
--- a/list.go
+++ b/list.go
@@ -950,7 +950,7 @@ func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, seg
 	split = ids.SplitSize(wantSize)
 	idx, err := NewSegmentsElements(ctx, store, split, nil)
 	if err != nil {
-		segs.unlock()
+		l.Unlock()
 		return segs, err
 	}
 	idx.cache = l.cache
-- 
2.43.0


From 66c062e3e81704aa369aa5b9a5b0f6f0f1abcdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 04/36] fix: leave unlocking to the caller when reindex cannot
 save segments

---
 list.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/list.go b/list.go
index 1df89b4..0eb90ba 100644
--- a/list.go
+++ b/list.go
@@ -773,7 +773,6 @@ func (l *List) reindex(ctx context.Context, bs blobstore.Store, segs *segments)
 	segs.index = newIdx
 	err = l.saveSegments(ctx, bs, segs)
 	if err != nil {
-		segs.unlock()
 		return err
 	}
 
-- 
2.43.0


From a3978d4e15af7a77e4e647a63d68c36c7250f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 05/36] fix: do not take the segments lock recursively in Stats

---
 list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/list.go b/list.go
index 0eb90ba..9bc4cdf 100644
--- a/list.go
+++ b/list.go
@@ -1035,13 +1035,13 @@ func (l *List) Stats(ctx context.Context, bs blobstore.Store, elements bool) (*L
 		res.CachePct = 100 * float64(res.CacheHits) / float64(res.CacheMisses+res.CacheHits)
 	}
 	if elements {
-		es, err := l.GetRankTop(ctx, bs, 0, 1)
+		es, err := l.getRankTop(ctx, bs, 0, 1, segs)
 		if err == nil && len(es) > 0 {
 			top := RankedElement{Element: es[0]}
 			top.CalculateFromBottom(res.Elements)
 			res.Top = &top
 		}
-		es, err = l.GetRankBottom(ctx, bs, 0, 1)
+		es, err = l.getRankBottom(ctx, bs, 0, 1, segs)
 		if err == nil && len(es) > 0 {
 			bottom := RankedElement{Element: es[0], FromTop: res.Elements - 1}
 			res.Bottom = &bottom
-- 
2.43.0


From e7d32905a292cc3c67b48e3af35cff42253f999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 06/36] fix: do not take a segment lock recursively when
 getting elements from score

---
 segments.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/segments.go b/segments.go
index 3f091a6..822c621 100644
--- a/segments.go
+++ b/segments.go
@@ -1069,11 +1069,16 @@ func (s *Segments) getElementsFromScore(ctx context.Context, bs blobstore.WithSe
 	seg := ls.seg
 	for i, elem := range ls.elements {
 		if elem.Score <= score {
-			e, err := s.getElementsOffset(ctx, bs, segIdx, i, elements)
+			// We hold the lock of this segment, so take its elements from here.
+			e := ls.elements[i:]
+			if len(e) > elements {
+				e = e[:elements]
+			}
+			next, err := s.getElementsOffset(ctx, bs, segIdx+1, 0, elements-len(e))
 			if err != nil {
 				return nil, err
 			}
-			return e.Ranked(i, seg.N), nil
+			return append(e[:len(e):len(e)], next...).Ranked(i, seg.N), nil
 		}
 	}
 
-- 
2.43.0


From eb5b5e8b8019a1f232d61ccbc21ff6fd5ce8d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 07/36] fix: release both segments when saving the first half
 of a split fails

---
 list.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/list.go b/list.go
index 9bc4cdf..94184fa 100644
--- a/list.go
+++ b/list.go
@@ -2163,6 +2163,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			// Save changed segments
 			err = scores.replaceSegment(ctx, store, ls)
 			if err != nil {
+				newSeg.unlock()
 				return err
 			}
 			err = scores.replaceSegment(ctx, store, newSeg)
@@ -2262,6 +2263,7 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 			// Save updated segments.
 			err = index.replaceSegment(ctx, store, newSeg)
 			if err != nil {
+				ls.unlock()
 				return err
 			}
 			err = index.replaceSegment(ctx, store, ls)
-- 
2.43.0


From c28e8392952f19db673dfca20017eaaff305c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 08/36] fix: populate acquires segments before the list lock

---
 list.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 94184fa..d1eb2bc 100644
--- a/list.go
+++ b/list.go
@@ -900,6 +900,9 @@ func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, seg
 		return segs, err
 	}
 
+	// Get segments before the list lock, which comes last in the lock order.
+	segs = l.newSegments(ctx, 0, false, segs)
+
 	// Retain full lock while populating.
 	l.Lock()
 
@@ -933,7 +936,6 @@ func (l *List) populate(ctx context.Context, bs blobstore.Store, e Elements, seg
 
 	// Split input
 	split := e.SplitSize(wantSize)
-	segs = l.newSegments(ctx, 0, false, segs)
 
 	ids := IndexElements{make(Elements, 0, len(e))}
 	scores, err := NewSegmentsElements(ctx, store, split, &ids)
-- 
2.43.0


From d6423fc4cc80b2a999a144d426017b605581a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:14 +0000
Subject: [PATCH 09/36] fix: hold one segment lock at the time when reading
 neighbors and ranges

Readers held a segment while locking the ones next to it. Updates lock score
segments in any order, so the two could wait for each other forever.
---
 segments.go | 130 +++++++++++++++++++++++++---------------------------
 1 file changed, 62 insertions(+), 68 deletions(-)

diff --git a/segments.go b/segments.go
index 822c621..30c7f90 100644
--- a/segments.go
+++ b/segments.go
@@ -938,7 +938,6 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 				errch <- err
 				return
 			}
-			defer ls.unlock()
 			var res []RankedElement
 			for _, id := range ids {
 				re, err := s.findRanked(ctx, bs, ls, id, offsets[segIdx], radius)
@@ -949,6 +948,10 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 				re.CalculateFromBottom(total)
 				res = append(res, *re)
 			}
+			ls.unlock()
+			for i := range res {
+				s.addNeighbors(ctx, bs, &res[i], segIdx, radius)
+			}
 			resch <- res
 		}(segIdx, id)
 	}
@@ -967,19 +970,22 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 // getElementIndex returns element the element at supplied index in supplied segment.
 // Must hold Read Lock
 func (s *Segments) getElementIndex(ctx context.Context, bs blobstore.WithSet, segIdx, elementOff, offset, radius int) (*RankedElement, error) {
-	ls, err := s.elementFullIdx(ctx, bs, segIdx, true)
-	if err != nil {
-		return nil, err
-	}
-	defer ls.unlock()
+	re, err := func() (*RankedElement, error) {
+		ls, err := s.elementFullIdx(ctx, bs, segIdx, true)
+		if err != nil {
+			return nil, err
+		}
+		defer ls.unlock()
 
-	if elementOff >= len(ls.elements) {
-		elementOff = len(ls.elements) - 1
-	}
-	re, err := s.findRanked(ctx, bs, ls, ls.elements[elementOff].ID, offset, radius)
+		if elementOff >= len(ls.elements) {
+			elementOff = len(ls.elements) - 1
+		}
+		return s.findRanked(ctx, bs, ls, ls.elements[elementOff].ID, offset, radius)
+	}()
 	if err != nil {
 		return nil, err
 	}
+	s.addNeighbors(ctx, bs, re, segIdx, radius)
 	return re, nil
 }
 
@@ -1002,57 +1008,45 @@ func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *loc
 	if radius <= 0 {
 		return &r, nil
 	}
-	segIdx := ls.index
+	for i := eidx + 1; i < len(ls.elements) && len(r.Below) < radius; i++ {
+		r.Below = append(r.Below, ls.elements[i])
+	}
+	for i := eidx - 1; i >= 0 && len(r.Above) < radius; i-- {
+		r.Above = append(r.Above, ls.elements[i])
+	}
+	return &r, nil
+}
 
+// addNeighbors will add elements from the segments around segIdx until there are radius elements
+// above and below r, or there are no more.
+// Caller must hold read lock to Segments, but no segment lock,
+// since updates lock segments in any order.
+func (s *Segments) addNeighbors(ctx context.Context, bs blobstore.WithSet, r *RankedElement, segIdx, radius int) {
 	// Below
-	func() {
-		bidx, bLS, bsegIdx := eidx, ls, segIdx
-		for i := 1; i < radius+1; i++ {
-			bidx++
-			for bidx == len(bLS.elements) {
-				// Load next
-				bsegIdx++
-				if bsegIdx == len(s.Segments) {
-					return
-				}
-				ls, err := s.elementFullIdx(ctx, bs, bsegIdx, true)
-				if err != nil {
-					log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", bsegIdx)
-					return
-				}
-				defer ls.unlock()
-				bLS = ls
-				bidx = 0
-			}
-			r.Below = append(r.Below, bLS.elements[bidx])
+	for i := segIdx + 1; i < len(s.Segments) && len(r.Below) < radius; i++ {
+		ls, err := s.elementFullIdx(ctx, bs, i, true)
+		if err != nil {
+			log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", i)
+			break
 		}
-	}()
+		for j := 0; j < len(ls.elements) && len(r.Below) < radius; j++ {
+			r.Below = append(r.Below, ls.elements[j])
+		}
+		ls.unlock()
+	}
 
 	// Above
-	func() {
-		aidx, aLS, asegIdx := eidx, ls, segIdx
-		for i := 1; i < radius+1; i++ {
-			aidx--
-			for aidx < 0 {
-				// Load previous
-				asegIdx--
-				if asegIdx == -1 {
-					return
-				}
-				ls, err := s.elementFullIdx(ctx, bs, asegIdx, true)
-				if err != nil {
-					log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", asegIdx)
-					return
-				}
-				aLS = ls
-				aidx = len(aLS.elements) - 1
-				defer ls.unlock()
-			}
-			r.Above = append(r.Above, aLS.elements[aidx])
+	for i := segIdx - 1; i >= 0 && len(r.Above) < radius; i-- {
+		ls, err := s.elementFullIdx(ctx, bs, i, true)
+		if err != nil {
+			log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", i)
+			break
 		}
-	}()
-
-	return &r, nil
+		for j := len(ls.elements) - 1; j >= 0 && len(r.Above) < radius; j-- {
+			r.Above = append(r.Above, ls.elements[j])
+		}
+		ls.unlock()
+	}
 }
 
 // getElementsOffset returns elements from a specific segment+element offset.
@@ -1065,29 +1059,29 @@ func (s *Segments) getElementsFromScore(ctx context.Context, bs blobstore.WithSe
 		return nil, err
 	}
 
-	defer ls.unlock()
-	seg := ls.seg
+	// Copy what we need from this segment, so only one segment is locked at the time.
+	var e Elements
+	n := ls.seg.N
+	first := n
 	for i, elem := range ls.elements {
-		if elem.Score <= score {
-			// We hold the lock of this segment, so take its elements from here.
-			e := ls.elements[i:]
+		if elements > 0 && elem.Score <= score {
+			first = i
+			e = ls.elements[i:]
 			if len(e) > elements {
 				e = e[:elements]
 			}
-			next, err := s.getElementsOffset(ctx, bs, segIdx+1, 0, elements-len(e))
-			if err != nil {
-				return nil, err
-			}
-			return append(e[:len(e):len(e)], next...).Ranked(i, seg.N), nil
+			e = append(Elements{}, e...)
+			break
 		}
 	}
+	ls.unlock()
 
-	// Return first of next segment.
-	e, err := s.getElementsOffset(ctx, bs, segIdx+1, 0, elements)
+	// Add first of next segments.
+	next, err := s.getElementsOffset(ctx, bs, segIdx+1, 0, elements-len(e))
 	if err != nil {
 		return nil, err
 	}
-	return e.Ranked(seg.N, seg.N), nil
+	return append(e, next...).Ranked(first, n), nil
 }
 
 // getElementsOffset returns elements from a specific segment+element offset.
-- 
2.43.0


From 56d06eae18656cc3c872f4822e418ee2ad042a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 10/36] fix: onEveryList waits for started lists and reports
 the rest when cancelled

---
 api/multilist.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/multilist.go b/api/multilist.go
index a0ab575..f924c3a 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -479,7 +479,11 @@ func onEveryList(ctx context.Context, lists rankdb.ListIDs, limit int, fn func(l
 	}
 	for i, id := range lists {
 		if err := ctx.Err(); err != nil {
-			return nil
+			mu.Lock()
+			results.Errors[string(id)] = err.Error()
+			mu.Unlock()
+			wg.Done()
+			continue
 		}
 		if limit > 0 {
 			<-tokens
-- 
2.43.0


From c3b5460d089c40b8bb9a80fe52b84bbac4d7d589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 11/36] fix: give each list its own copy of the elements in
 multi list updates

---
 api/multilist.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/api/multilist.go b/api/multilist.go
index f924c3a..21023f9 100644
--- a/api/multilist.go
+++ b/api/multilist.go
@@ -76,7 +76,8 @@ func (c *MultilistController) Create(ctx *app.CreateMultilistContext) error {
 			return nil, ErrConflict("element(s) already exists", "element_ids", elems.IDs())
 		}
 
-		err = lst.Insert(ctx, db.Storage, in)
+		// The elements are sorted in place, so each list needs its own copy.
+		err = lst.Insert(ctx, db.Storage, in.Clone(true))
 		if err != nil {
 			return nil, err
 		}
@@ -215,7 +216,8 @@ func (c *MultilistController) Put(ctx *app.PutMultilistContext) error {
 	// Execute
 
 	res := onEveryList(ctx, lists, 32, func(lst *rankdb.List) (*app.RankdbOperationSuccess, error) {
-		elems, err := lst.UpdateElements(ctx, db.Storage, in, 0, ctx.Results)
+		// The elements are sorted in place, so each list needs its own copy.
+		elems, err := lst.UpdateElements(ctx, db.Storage, in.Clone(true), 0, ctx.Results)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 7366523a075be900b68d594283e93366f26d208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 12/36] fix: report errors other than a missing blob from
 MaxSizeStore.Delete

---
 blobstore/maxsize.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blobstore/maxsize.go b/blobstore/maxsize.go
index 1ec61e5..e12dc4d 100644
--- a/blobstore/maxsize.go
+++ b/blobstore/maxsize.go
@@ -163,9 +163,12 @@ func (r *MaxSizeStore) Delete(ctx context.Context, set, key string) error {
 
 	if n == 0 {
 		b, err := r.store.Get(ctx, set, key)
-		if err != nil {
+		if err == ErrBlobNotFound {
 			return nil
 		}
+		if err != nil {
+			return err
+		}
 		var size int
 		n, size = binary.Uvarint(b)
 		if size < 1 {
-- 
2.43.0


From 83d6aa9bbf15ea684c22ee57338720605a10d083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 13/36] fix: return storage errors from element updates,
 deletes and clones

---
 list.go     | 24 ++++++++++++++++++------
 segments.go |  6 +++++-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/list.go b/list.go
index d1eb2bc..dac5dd9 100644
--- a/list.go
+++ b/list.go
@@ -537,6 +537,7 @@ func (l *List) cloneElements(ctx context.Context, bs blobstore.Store, org *List)
 		err = newSegments.scores.replaceSegment(ctx, bsDst, dst)
 		if err != nil {
 			log.Error(ctx, err.Error())
+			return err
 		}
 	}
 	dstIdx.Sort()
@@ -1373,7 +1374,8 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 				scores.SegmentsLock.RUnlock()
 				ss := segmentScoresLoad(segIdx)
 				if ss == nil {
-					continue
+					errs <- errors.New("could not load score segment")
+					return
 				}
 				if results {
 					// Record rank of old element.
@@ -1395,11 +1397,14 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		unlockAll()
 		return nil, err
 	}
+	// Storage error to return when all that can be saved has been.
+	var updateErr error
 	// Split incoming elements to get destination score segments.
 	for sidx, elems := range scores.splitElementsIdx(elems) {
 		// The element should end up in this segment
 		scoreDstSeg := segmentScoresLoad(sidx)
 		if scoreDstSeg == nil {
+			updateErr = errors.New("could not load score segment")
 			continue
 		}
 
@@ -1453,11 +1458,13 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 			eSid := scores.idx[SegmentID(existing.TieBreaker)]
 			scores.SegmentsLock.RUnlock()
 			rem := segmentScoresLoad(eSid)
-			if rem != nil {
-				err := rem.elements.Delete(elem.ID)
-				if err != nil {
-					log.Info(ctx, "Could not delete existing", "error", err.Error())
-				}
+			if rem == nil {
+				updateErr = errors.New("could not load score segment")
+				continue
+			}
+			err := rem.elements.Delete(elem.ID)
+			if err != nil {
+				log.Info(ctx, "Could not delete existing", "error", err.Error())
 			}
 		}
 	}
@@ -1466,6 +1473,7 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		err := index.replaceSegment(ctx, store, ls)
 		if err != nil {
 			log.Error(ctx, "Error saving updated index elements", "error", err.Error())
+			updateErr = err
 		}
 	}
 
@@ -1473,9 +1481,13 @@ func (l *List) UpdateElements(ctx context.Context, bs blobstore.Store, elems Ele
 		err := scores.replaceSegment(ctx, store, ls)
 		if err != nil {
 			log.Error(ctx, "Error saving updated score elements", "error", err.Error())
+			updateErr = err
 		}
 	}
 	wg.Wait()
+	if updateErr != nil {
+		return nil, updateErr
+	}
 	l.checkSanity(ctx, bs, "update", segs)
 
 	// Get updated when everything is said and done.
diff --git a/segments.go b/segments.go
index 30c7f90..e032c40 100644
--- a/segments.go
+++ b/segments.go
@@ -445,7 +445,11 @@ func (s *Segments) DeleteElements(ctx context.Context, bs blobstore.WithSet, e E
 				log.Info(ctx, "Did not find all elements", "left", len(toDelete)-ndeleted)
 			}
 			ls.elements = ls.elements[:wrtto]
-			s.replaceSegment(ctx, bs, ls)
+			err = s.replaceSegment(ctx, bs, ls)
+			if err != nil {
+				errC <- err
+				return
+			}
 			if withIdx {
 				deleted.Sort()
 				idxC <- deleted
-- 
2.43.0


From 7a0d688bb248c2c28bd35c0320e94a3a3bb44fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 14/36] fix: return flush and close errors from the badger
 store

---
 blobstore/badgerstore/badger.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blobstore/badgerstore/badger.go b/blobstore/badgerstore/badger.go
index 931a489..5b26af5 100644
--- a/blobstore/badgerstore/badger.go
+++ b/blobstore/badgerstore/badger.go
@@ -43,9 +43,9 @@ func (b *BadgerStore) Close() error {
 	err := b.flush()
 	err2 := b.db.Close()
 	if err != nil {
-		return err2
+		return err
 	}
-	return err
+	return err2
 }
 
 func (b *BadgerStore) key(set, key string) []byte {
@@ -89,6 +89,9 @@ func (b *BadgerStore) flush() error {
 	for k, v := range b.queue {
 		if err := txn.Set([]byte(k), v); err == badger.ErrTxnTooBig {
 			err = txn.Commit()
+			if err != nil {
+				return err
+			}
 			txn = b.db.NewTransaction(true)
 			err = txn.Set([]byte(k), v)
 			if err != nil {
-- 
2.43.0


From 4a10349d9a76b63fb357db91fb8eb1ccef335448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 15/36] fix: return flush and compression errors when saving
 and backing up lists

---
 backup/job.go |  5 ++++-
 lists.go      | 20 +++++++++++++++-----
 msgppool.go   |  4 ++--
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/backup/job.go b/backup/job.go
index 8018529..5965fcd 100644
--- a/backup/job.go
+++ b/backup/job.go
@@ -261,7 +261,10 @@ func backupList(ctx context.Context, db *rankdb.Manager, lst *rankdb.List, write
 		return err
 	}
 	// Flush writer
-	msg.Flush()
+	err = msg.Flush()
+	if err != nil {
+		return err
+	}
 
 	// ok, add record.
 	err = writer.Writer().WriteBool(true)
diff --git a/lists.go b/lists.go
index 7be2d7d..2bd676e 100644
--- a/lists.go
+++ b/lists.go
@@ -96,21 +96,26 @@ func (l Lists) Save(ctx context.Context, w io.Writer) error {
 	wm.ReplaceWriter(wc)
 
 	c := compressionNone
+	var enc *zstd.Encoder
 	if compressLists {
 		c = compressionZstd
-		enc, err := zstd.NewWriter(wc)
+		var err error
+		enc, err = zstd.NewWriter(wc)
 		if err != nil {
 			return err
 		}
 		wm.ReplaceWriter(enc)
-		defer enc.Close()
+		defer func() {
+			if enc != nil {
+				enc.Close()
+			}
+		}()
 	}
 	_, err := wc.Write([]byte{c})
 	if err != nil {
 		return err
 	}
 
-	defer wm.Flush()
 	err = wm.SetVersion(listVersion)
 	if err != nil {
 		return err
@@ -138,8 +143,13 @@ func (l Lists) Save(ctx context.Context, w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	wm.Flush()
-	return nil
+	err = wm.Flush()
+	if err != nil || enc == nil {
+		return err
+	}
+	e := enc
+	enc = nil
+	return e.Close()
 }
 
 // Load the lists. Overwrites all existing lists.
diff --git a/msgppool.go b/msgppool.go
index 1f12153..e7b7b8a 100644
--- a/msgppool.go
+++ b/msgppool.go
@@ -66,8 +66,8 @@ func (w WriterMsgp) Buffer() *bytes.Buffer {
 }
 
 // Flush the messagepack writer.
-func (w WriterMsgp) Flush() {
-	w.w.Flush()
+func (w WriterMsgp) Flush() error {
+	return w.w.Flush()
 }
 
 // Call Close to signify you are done with serialization and you no longer
-- 
2.43.0


From 4a704788c0662b4c03b3a5f65b3a6c10d450083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 16/36] fix: report errors when finishing a backup

---
 backup/job.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/backup/job.go b/backup/job.go
index 5965fcd..b0bc875 100644
--- a/backup/job.go
+++ b/backup/job.go
@@ -158,6 +158,11 @@ func (req Request) Start(bg context.Context) ID {
 
 	// Start backup
 	go func() {
+		fail := func(what string, err error) {
+			job.mu.Lock()
+			job.status.Errors[what] = err.Error()
+			job.mu.Unlock()
+		}
 		// unlock and set status when done.
 		defer func() {
 			if req.ErrCh != nil {
@@ -183,17 +188,25 @@ func (req Request) Start(bg context.Context) ID {
 		msg := rankdb.NewWriterMsg()
 		dst, err := job.dst.Save(ctx)
 		if err != nil {
-			job.status.Errors["saver"] = err.Error()
+			fail("saver", err)
 			return
 		}
-		defer dst.Close()
+		defer func() {
+			if err := dst.Close(); err != nil {
+				fail("closing", err)
+			}
+		}()
 		wc.w = dst
 		zw, err := zstd.NewWriter(&wc)
 		if err != nil {
-			job.status.Errors["compress"] = err.Error()
+			fail("compress", err)
 			return
 		}
-		defer zw.Close()
+		defer func() {
+			if err := zw.Close(); err != nil {
+				fail("compress", err)
+			}
+		}()
 		msg.ReplaceWriter(zw)
 		defer msg.Close()
 		db := job.db
@@ -235,12 +248,12 @@ func (req Request) Start(bg context.Context) ID {
 			job.mu.Unlock()
 		}
 		err = msg.Writer().WriteBool(false)
+		if err == nil {
+			err = msg.Flush()
+		}
 		if err != nil {
-			job.mu.Lock()
-			job.status.Errors["finalizing"] = err.Error()
-			job.mu.Unlock()
+			fail("finalizing", err)
 		}
-		msg.Flush()
 	}()
 
 	log.Info(ctx, "Backup started")
-- 
2.43.0


From 2a1737a4ec377969dbda42783c7688501a425fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 17/36] fix: copy the state of a running backup and cancel it
 at shutdown

---
 backup/job.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/backup/job.go b/backup/job.go
index b0bc875..592de0d 100644
--- a/backup/job.go
+++ b/backup/job.go
@@ -38,7 +38,7 @@ func (id ID) Status() *Status {
 		return nil
 	}
 	job.mu.Lock()
-	status := job.status
+	status := job.status.clone()
 	job.mu.Unlock()
 	return &status
 }
@@ -102,6 +102,22 @@ type Status struct {
 	Finished  *time.Time
 }
 
+// clone returns a copy that shares nothing with s.
+func (s Status) clone() Status {
+	custom := make(map[string]string, len(s.Custom))
+	for k, v := range s.Custom {
+		custom[k] = v
+	}
+	errs := make(map[string]string, len(s.Errors))
+	for k, v := range s.Errors {
+		errs[k] = v
+	}
+	s.Custom = custom
+	s.Errors = errs
+	s.Success = append([]string{}, s.Success...)
+	return s
+}
+
 // writeCounter counts the number of written bytes written to 'w'.
 // The count 'n' can be accessed safely when holding the lock.
 type writeCounter struct {
@@ -144,7 +160,7 @@ func (req Request) Start(bg context.Context) ID {
 	}
 	jobID := job.id
 	ctx = log.WithValues(ctx, "backup_id", job.id)
-	defer shutdown.FirstFn(job.cancel, "Cancel Backup").Cancel()
+	onShutdown := shutdown.FirstFn(job.cancel, "Cancel Backup")
 	var wc writeCounter
 
 	// Sort lists, for a bit better compression
@@ -165,6 +181,7 @@ func (req Request) Start(bg context.Context) ID {
 		}
 		// unlock and set status when done.
 		defer func() {
+			onShutdown.Cancel()
 			if req.ErrCh != nil {
 				err := <-req.ErrCh
 				if err != nil {
-- 
2.43.0


From 5009d7c9148749cd0f5c76735360cee7f6414028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 18/36] fix: return errors from loading neighbors

---
 segments.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/segments.go b/segments.go
index e032c40..266e32f 100644
--- a/segments.go
+++ b/segments.go
@@ -954,7 +954,11 @@ func (s *Segments) FindElements(ctx context.Context, bs blobstore.WithSet, ids I
 			}
 			ls.unlock()
 			for i := range res {
-				s.addNeighbors(ctx, bs, &res[i], segIdx, radius)
+				err := s.addNeighbors(ctx, bs, &res[i], segIdx, radius)
+				if err != nil {
+					errch <- err
+					return
+				}
 			}
 			resch <- res
 		}(segIdx, id)
@@ -989,7 +993,10 @@ func (s *Segments) getElementIndex(ctx context.Context, bs blobstore.WithSet, se
 	if err != nil {
 		return nil, err
 	}
-	s.addNeighbors(ctx, bs, re, segIdx, radius)
+	err = s.addNeighbors(ctx, bs, re, segIdx, radius)
+	if err != nil {
+		return nil, err
+	}
 	return re, nil
 }
 
@@ -1025,13 +1032,13 @@ func (s *Segments) findRanked(ctx context.Context, bs blobstore.WithSet, ls *loc
 // above and below r, or there are no more.
 // Caller must hold read lock to Segments, but no segment lock,
 // since updates lock segments in any order.
-func (s *Segments) addNeighbors(ctx context.Context, bs blobstore.WithSet, r *RankedElement, segIdx, radius int) {
+func (s *Segments) addNeighbors(ctx context.Context, bs blobstore.WithSet, r *RankedElement, segIdx, radius int) error {
 	// Below
 	for i := segIdx + 1; i < len(s.Segments) && len(r.Below) < radius; i++ {
 		ls, err := s.elementFullIdx(ctx, bs, i, true)
 		if err != nil {
 			log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", i)
-			break
+			return err
 		}
 		for j := 0; j < len(ls.elements) && len(r.Below) < radius; j++ {
 			r.Below = append(r.Below, ls.elements[j])
@@ -1044,13 +1051,14 @@ func (s *Segments) addNeighbors(ctx context.Context, bs blobstore.WithSet, r *Ra
 		ls, err := s.elementFullIdx(ctx, bs, i, true)
 		if err != nil {
 			log.Error(ctx, "Unable to load segment", "error", err, "segment_idx", i)
-			break
+			return err
 		}
 		for j := len(ls.elements) - 1; j >= 0 && len(r.Above) < radius; j-- {
 			r.Above = append(r.Above, ls.elements[j])
 		}
 		ls.unlock()
 	}
+	return nil
 }
 
 // getElementsOffset returns elements from a specific segment+element offset.
-- 
2.43.0


From 39f5a13a565628549fc659139cd921161c9ba321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 19/36] fix: do not report lists as missing when only the
 backup is

---
 manager.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/manager.go b/manager.go
index 701c451..706831a 100644
--- a/manager.go
+++ b/manager.go
@@ -175,9 +175,13 @@ func (m *Manager) LoadLists(ctx context.Context, cache Cache) error {
 	}
 	// Load backup.
 	log.Error(ctx, "Unable to load master list, loading from backup", "error", err.Error())
-	blob, err = m.Backup.Get(ctx, backupListStorageKey)
-	if err != nil {
-		return err
+	blob, berr := m.Backup.Get(ctx, backupListStorageKey)
+	if berr != nil {
+		if err != blobstore.ErrBlobNotFound {
+			// Lists exist, so do not let the missing backup decide.
+			return err
+		}
+		return berr
 	}
 	return m.Lists.Load(ctx, m.Storage, blob)
 }
-- 
2.43.0


From 50d40d835e85556b949c51b47ae3371ee6104f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 20/36] fix: repair lists that stats cannot read

---
 list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index dac5dd9..2825edd 100644
--- a/list.go
+++ b/list.go
@@ -1829,7 +1829,10 @@ func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool)
 	l.Lock()
 	segs.scores.SegmentsLock.Lock()
 	segments := segs.scores.Segments
-	allElements := make(Elements, 0, stats.Elements)
+	var allElements Elements
+	if stats != nil {
+		allElements = make(Elements, 0, stats.Elements)
+	}
 	for i := range segments {
 		seg, err := segs.scores.elementFullIdx(ctx, store, i, true)
 		if err != nil {
-- 
2.43.0


From 42f2ca490f7a98100e46b0237037701e6efe8b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 21/36] fix: deny access when a token restriction is not a
 string

A token with only_lists or only_elements given as array or number had
unrestricted access.
---
 api/jwt.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/api/jwt.go b/api/jwt.go
index eb4bc7a..75bd112 100644
--- a/api/jwt.go
+++ b/api/jwt.go
@@ -90,7 +90,11 @@ func HasAccessToList(ctx context.Context, ids ...rankdb.ListID) error {
 	if !ok {
 		return goajwt.ErrJWTError("unsupported claims shape")
 	}
-	if val, ok := claims["only_lists"].(string); ok {
+	if claim, ok := claims["only_lists"]; ok {
+		val, ok := claim.(string)
+		if !ok {
+			return goajwt.ErrJWTError("unsupported only_lists claim")
+		}
 		// Check all ids
 		for _, id := range ids {
 			ok := false
@@ -120,7 +124,11 @@ func HasAccessToElement(ctx context.Context, ids ...rankdb.ElementID) error {
 	if !ok {
 		return goajwt.ErrJWTError("unsupported claims shape")
 	}
-	if val, ok := claims["only_elements"].(string); ok {
+	if claim, ok := claims["only_elements"]; ok {
+		val, ok := claim.(string)
+		if !ok {
+			return goajwt.ErrJWTError("unsupported only_elements claim")
+		}
 		lists := strings.Split(val, ",")
 		for _, id := range ids {
 			ok := false
-- 
2.43.0


From 556c8114f614ae59ea81af5d603ff7f5f7b98c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 22/36] fix: treat freshly loaded segments as read-only after
 downgrading the lock

---
 list.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/list.go b/list.go
index 2825edd..dbf3153 100644
--- a/list.go
+++ b/list.go
@@ -395,6 +395,7 @@ func (l *List) loadSegments(ctx context.Context, bs blobstore.Store, fl loadFlag
 	if readOnly {
 		l.segmentsLock.Unlock()
 		l.segmentsLock.RLock()
+		s.readOnly = true
 		s.unlock = func() {
 			l.segmentsLock.RUnlock()
 			if updateLock {
-- 
2.43.0


From 7c64a6613e1140d43488645c69310c45dfe3de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 23/36] fix: copy segment descriptions before releasing their
 lock

---
 list.go     | 4 ++--
 segments.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/list.go b/list.go
index dbf3153..63d467c 100644
--- a/list.go
+++ b/list.go
@@ -627,7 +627,7 @@ func (l *List) verify(ctx context.Context, bs blobstore.Store, segs *segments) e
 	psegn := lMergeSize
 	for i := range segs.scores.Segments {
 		segs.scores.SegmentsLock.RLock()
-		seg := &segs.scores.Segments[i]
+		seg := segs.scores.Segments[i]
 		segs.scores.SegmentsLock.RUnlock()
 		if seg.Parent != lScores {
 			return ScoreError(fmt.Errorf("Scores Segment %d Parent ID mismatch. List: %v, Segment:%v", i, lScores, seg.Parent))
@@ -650,7 +650,7 @@ func (l *List) verify(ctx context.Context, bs blobstore.Store, segs *segments) e
 	psegn = lMergeSize
 	for i := range segs.index.Segments {
 		segs.index.SegmentsLock.RLock()
-		seg := &l.index.Segments[i]
+		seg := segs.index.Segments[i]
 		segs.index.SegmentsLock.RUnlock()
 		if seg.Parent != lIndex {
 			return IndexError(fmt.Errorf("Index Segment %d Parent ID mismatch. List: %v, Segment:%v", i, lIndex, seg.Parent))
diff --git a/segments.go b/segments.go
index 266e32f..904970f 100644
--- a/segments.go
+++ b/segments.go
@@ -676,7 +676,7 @@ func (s *Segments) Verify(ctx context.Context, bs blobstore.WithSet) error {
 	for i := range s.Segments {
 		err := func(i int) error {
 			s.SegmentsLock.RLock()
-			v := &s.Segments[i]
+			v := s.Segments[i]
 			s.SegmentsLock.RUnlock()
 
 			prefix := fmt.Sprintf("Segment %v:", v.ID)
@@ -696,7 +696,7 @@ func (s *Segments) Verify(ctx context.Context, bs blobstore.WithSet) error {
 				}
 			} else {
 				s.SegmentsLock.RLock()
-				prev := &s.Segments[i-1]
+				prev := s.Segments[i-1]
 				s.SegmentsLock.RUnlock()
 				// Maximum of this should be just after minimum of previous
 				wantScore, wantTie := Element{Score: prev.Min, TieBreaker: prev.MinTie}.PrevMax()
@@ -1255,7 +1255,7 @@ func (s *Segments) splitScores(ctx context.Context, scores []uint64) []segmentMa
 	// Loop through segments and find the ones that match.
 	for i := range s.Segments {
 		s.SegmentsLock.RLock()
-		seg := &s.Segments[i]
+		seg := s.Segments[i]
 		s.SegmentsLock.RUnlock()
 
 		if len(scores) == 0 {
-- 
2.43.0


From c538353a03363aaaba63d8fa94f8d05c143740bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 24/36] fix: read the loaded segments under their lock in
 Repair

---
 list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 63d467c..ad28081 100644
--- a/list.go
+++ b/list.go
@@ -1810,7 +1810,10 @@ func (l *List) Repair(ctx context.Context, bs blobstore.Store, clearIfErr bool)
 
 	segs, err := l.loadSegments(ctx, bs, segsWritable|segsLockUpdates)
 	if err != nil {
-		if (err == blobstore.ErrBlobNotFound && l.scores == nil) || (clearIfErr && l.scores == nil) {
+		l.segmentsLock.RLock()
+		notLoaded := l.scores == nil
+		l.segmentsLock.RUnlock()
+		if notLoaded && (err == blobstore.ErrBlobNotFound || clearIfErr) {
 			log.Logger(ctx).Error("Repair: Could not load segments. list cleared", "list_id", l.ID)
 			segs, err := l.initEmptyList(ctx, bs, segs)
 			if segs != nil {
-- 
2.43.0


From e5458780f53f13a8a1bb83c2bd4f1f59e782fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 25/36] fix: drop cached elements of a segment until its change
 is saved

---
 segments.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/segments.go b/segments.go
index 904970f..0a11e15 100644
--- a/segments.go
+++ b/segments.go
@@ -275,6 +275,10 @@ func (s *Segments) replaceSegment(ctx context.Context, bs blobstore.WithSet, ls
 	if ls.seg.loader == nil {
 		ls.seg.loader = &elementLoader{}
 	}
+	if s.cache != nil {
+		// The cached elements may have been changed. Drop them until the change is saved.
+		s.cache.Remove(ls.seg.cacheID())
+	}
 
 	s.SegmentsLock.Lock()
 	ls.seg.elementsUpdated(ls.elements)
-- 
2.43.0


From 493d4acdd49fe40d800193270060a4ef1970a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 26/36] fix: score splits store the new segment before the one
 it was split from

---
 list.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/list.go b/list.go
index ad28081..0a1a018 100644
--- a/list.go
+++ b/list.go
@@ -2181,13 +2181,14 @@ func (l *List) split(ctx context.Context, bs blobstore.Store, segs *segments, me
 				ls.unlock()
 				return nil
 			}
-			// Save changed segments
-			err = scores.replaceSegment(ctx, store, ls)
+			// Save changed segments, the new one first,
+			// so the elements moved to it are never missing from storage.
+			err = scores.replaceSegment(ctx, store, newSeg)
 			if err != nil {
-				newSeg.unlock()
+				ls.unlock()
 				return err
 			}
-			err = scores.replaceSegment(ctx, store, newSeg)
+			err = scores.replaceSegment(ctx, store, ls)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 151052603c32c8e2f1800ae90375fb2f486b5518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 27/36] fix: MemBlobStore.Get returns a copy of the stored blob

---
 blobstore/memstore/memstore.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blobstore/memstore/memstore.go b/blobstore/memstore/memstore.go
index cf6c51b..ee92ff3 100644
--- a/blobstore/memstore/memstore.go
+++ b/blobstore/memstore/memstore.go
@@ -57,7 +57,8 @@ func (m *MemBlobStore) Get(ctx context.Context, set, key string) ([]byte, error)
 	if !ok {
 		return nil, blobstore.ErrBlobNotFound
 	}
-	return blob, nil
+	// The caller owns the returned slice.
+	return append([]byte{}, blob...), nil
 }
 
 func (m *MemBlobStore) Set(ctx context.Context, set, key string, val []byte) error {
-- 
2.43.0


From 94c2783a6359557cf3170787837612edc59c95a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 28/36] fix: badger keeps queued blobs readable until they are
 committed

---
 blobstore/badgerstore/badger.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/blobstore/badgerstore/badger.go b/blobstore/badgerstore/badger.go
index 5b26af5..f4790c4 100644
--- a/blobstore/badgerstore/badger.go
+++ b/blobstore/badgerstore/badger.go
@@ -86,27 +86,34 @@ func (b *BadgerStore) Get(ctx context.Context, set, key string) ([]byte, error)
 
 func (b *BadgerStore) flush() error {
 	txn := b.db.NewTransaction(true)
+	// Blobs stay in the queue, where Get finds them, until they are committed.
+	var pending []string
+	commit := func() error {
+		if err := txn.Commit(); err != nil {
+			return err
+		}
+		for _, k := range pending {
+			delete(b.queue, k)
+		}
+		pending = pending[:0]
+		return nil
+	}
 	for k, v := range b.queue {
-		if err := txn.Set([]byte(k), v); err == badger.ErrTxnTooBig {
-			err = txn.Commit()
-			if err != nil {
+		err := txn.Set([]byte(k), v)
+		if err == badger.ErrTxnTooBig {
+			if err := commit(); err != nil {
 				return err
 			}
 			txn = b.db.NewTransaction(true)
 			err = txn.Set([]byte(k), v)
-			if err != nil {
-				txn.Discard()
-				return err
-			}
-			delete(b.queue, k)
-		} else if err == nil {
-			delete(b.queue, k)
-		} else {
+		}
+		if err != nil {
 			txn.Discard()
 			return err
 		}
+		pending = append(pending, k)
 	}
-	return txn.Commit()
+	return commit()
 }
 
 func (b *BadgerStore) Set(ctx context.Context, set, key string, val []byte) error {
-- 
2.43.0


From 9ee22206c81c7cc3ab59d6a2e73beca39f886a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 29/36] fix: Deduplicate keeps the element with the highest
 score on equal update times

---
 elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elements.go b/elements.go
index 6f4c8ab..e14d9f7 100644
--- a/elements.go
+++ b/elements.go
@@ -85,7 +85,7 @@ func (l *Elements) Deduplicate() (changed bool) {
 		j := i
 		// If updated time equal, use highest score
 		if prev.Updated == e.Updated {
-			if prev.Score > e.Score {
+			if prev.Score < e.Score {
 				j = i - 1
 			}
 		} else {
-- 
2.43.0


From 567bb413e8d063369e04cb33ae7135946ac9f54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 30/36] fix: HTTPLoader closes the body of a refused response

---
 backup/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/backup/provider.go b/backup/provider.go
index dc01ca0..fab69a1 100644
--- a/backup/provider.go
+++ b/backup/provider.go
@@ -52,6 +52,7 @@ func (h HTTPLoader) Load(ctx context.Context) (io.ReadCloser, error) {
 		return nil, err
 	}
 	if resp.StatusCode > 299 {
+		resp.Body.Close()
 		return nil, errors.New(resp.Status)
 	}
 	return resp.Body, nil
-- 
2.43.0


From 56cd1cce25c95a483cb1a3f18b66c6ef8462742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 31/36] fix: NewRankDB closes the health response

---
 backup/server/rankdb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/backup/server/rankdb.go b/backup/server/rankdb.go
index 61fb397..bafa780 100644
--- a/backup/server/rankdb.go
+++ b/backup/server/rankdb.go
@@ -27,6 +27,7 @@ func NewRankDB(ctx context.Context, host string) (*RankDB, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
 		return nil, errors.New("Could not reach destination server")
 	}
-- 
2.43.0


From 6290b24efefee3765557030c7c126c3666f6e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 32/36] fix: interval saver and list pruner stop their tickers

---
 manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/manager.go b/manager.go
index 706831a..98b05d6 100644
--- a/manager.go
+++ b/manager.go
@@ -64,6 +64,7 @@ func (m *Manager) StartIntervalSaver(ctx context.Context, every time.Duration, s
 	var lastBackup int
 	go func() {
 		ticker := time.NewTicker(every)
+		defer ticker.Stop()
 		log.Info(ctx, "Starting", "interval", every)
 		defer log.Info(ctx, "Stopped")
 		for {
@@ -109,6 +110,7 @@ func (m *Manager) StartListPruner(ctx context.Context, every time.Duration, shut
 	}
 	go func() {
 		ticker := time.NewTicker(every)
+		defer ticker.Stop()
 		log.Info(ctx, "Starting", "interval", every)
 		for {
 			select {
-- 
2.43.0


From 39dba9ac71976f6a6e2ba43d35b7a50fe9d5efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 33/36] fix: restore records lists that could not be restored

Writing to the nil map of failed lists made the whole restore panic.
---
 backup/restore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backup/restore.go b/backup/restore.go
index 9fd485e..9366d17 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -96,6 +96,9 @@ func (ri *RestoreInfo) Restore(ctx context.Context) (*RestoreResult, error) {
 
 		lst, err := rankdb.RestoreList(ctx, db.Storage, rankdb.NewReaderMsgp(b), ri.Cache, &dstLstID)
 		if err != nil {
+			if res.Failed == nil {
+				res.Failed = make(map[string]string)
+			}
 			res.Failed[string(dstLstID)] = err.Error()
 			log.Error(ctx, "Error Restoring List", "list_id", dstLstID, "error", err.Error())
 			continue
-- 
2.43.0


From 1aa404d783ed024bff4de8a3295363a5748b5492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:05 +0000
Subject: [PATCH 34/36] fix: SaveLists without a backup store does not panic

---
 manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/manager.go b/manager.go
index 98b05d6..66ae8c2 100644
--- a/manager.go
+++ b/manager.go
@@ -195,7 +195,7 @@ func (m *Manager) SaveLists(ctx context.Context, backup bool) error {
 	if err != nil {
 		return err
 	}
-	if backup {
+	if backup && m.Backup != nil {
 		// If storing backup, do that first.
 		err := m.Backup.Set(ctx, backupListStorageKey, buf.Bytes())
 		if err != nil {
-- 
2.43.0


From fca2f1dc3f312e6e7181c5f58570fbb002973c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 35/36] fix: Badger.NoSync turns synchronous writes off, not on

---
 api/rankdb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/rankdb.go b/api/rankdb.go
index e9c41d3..2726fa0 100644
--- a/api/rankdb.go
+++ b/api/rankdb.go
@@ -279,7 +279,7 @@ func newBlobstore(ctx context.Context, s string) (store blobstore.Store, closers
 	switch s {
 	case "Badger":
 		opts := badger.DefaultOptions(config.Badger.Path)
-		opts = opts.WithSyncWrites(config.Badger.NoSync).WithTruncate(config.Badger.NoSync)
+		opts = opts.WithSyncWrites(!config.Badger.NoSync).WithTruncate(config.Badger.NoSync)
 		opts = opts.WithLogger(badgerstore.BadgerLogger(ctx))
 		bs, err := badgerstore.New(opts)
 		if err != nil {
-- 
2.43.0


From 69d85fb359008cea810ab9ee68052a3779797606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 36/36] fix: PermanentErr adds the errors to its own store only

---
 blobstore/retry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blobstore/retry.go b/blobstore/retry.go
index 87fcaf2..9b71f89 100644
--- a/blobstore/retry.go
+++ b/blobstore/retry.go
@@ -84,7 +84,7 @@ func (l RetryOpt) PermanentErr(errs ...error) RetryStoreOption {
 		}
 		for _, err := range errs {
 			if err != nil {
-				o.permanent[err] = struct{}{}
+				perm[err] = struct{}{}
 			}
 		}
 		o.permanent = perm
-- 
2.43.0

