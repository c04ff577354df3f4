From 8ad5c1ed267f959ef28bed56f5a7edd943433edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 01/94] fix: refuse AddAttributeToAttributeGroup once storage
 is allocated

Growing a group after Extend changed its row size and so re-read every
already stored cell at the wrong offset.
---
 base/dense.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/dense.go b/base/dense.go
index d3a87df..abce75b 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -242,6 +242,12 @@ func (inst *DenseInstances) AddAttributeToAttributeGroup(newAttribute Attribute,
 		return AttributeSpec{-1, 0, nil}, fmt.Errorf("AttributeGroup '%s' doesn't exist. Call CreateAttributeGroup() first", ag)
 	}
 
+	// Adding an Attribute changes the row size, so it can't be done
+	// once storage has been allocated
+	if inst.fixed {
+		return AttributeSpec{-1, 0, nil}, fmt.Errorf("Can't add additional Attributes")
+	}
+
 	id := inst.agMap[ag]
 	p := inst.ags[id]
 	for i, a := range p.Attributes() {
-- 
2.43.0


From 6822d0165a4b2438b7b573fe4035190d84840f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 02/94] fix: InstancesView.MapOverRows honours the row mapping

Views made by NewInstancesViewFromRows passed the source's rows through
unmapped, and masked views were visited in map order, so serialising one
shuffled its rows.
---
 base/view.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/view.go b/base/view.go
index 99d59d8..030d1b6 100644
--- a/base/view.go
+++ b/base/view.go
@@ -205,10 +205,11 @@ func (v *InstancesView) Get(as AttributeSpec, row int) []byte {
 // IMPORTANT: MapOverRows is not guaranteed to be ordered, but this one
 // especially so.
 func (v *InstancesView) MapOverRows(as []AttributeSpec, rowFunc func([][]byte, int) (bool, error)) error {
-	if v.maskRows {
+	if v.rows != nil {
 		rowBuf := make([][]byte, len(as))
-		for r := range v.rows {
-			row := v.rows[r]
+		_, rows := v.Size()
+		for r := 0; r < rows; r++ {
+			row := v.resolveRow(r)
 			for i, a := range as {
 				rowBuf[i] = v.src.Get(a, row)
 			}
-- 
2.43.0


From c34067d5f9387b707d4efa9de36b988ef639b31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 03/94] fix: LazilyFilteredInstances.MapOverRows leaves
 unfiltered Attributes alone

Get returns them untouched; MapOverRows ran them through the filter.
---
 base/filtered.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/filtered.go b/base/filtered.go
index 0d4f77f..cf25f59 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -186,6 +186,10 @@ func (l *LazilyFilteredInstances) MapOverRows(asv []AttributeSpec, mapFunc func(
 	newRowBuf := make([][]byte, len(asv))
 	return l.src.MapOverRows(oldAsv, func(oldRow [][]byte, oldRowNo int) (bool, error) {
 		for i, b := range oldRow {
+			if l.unfilteredMap[asv[i].attr] {
+				newRowBuf[i] = b
+				continue
+			}
 			newField := l.filter.Transform(oldAsv[i].attr, asv[i].attr, b)
 			newRowBuf[i] = newField
 		}
-- 
2.43.0


From 539b15cac3d06dce8fa93aed9f41002073524063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 04/94] fix: Mat64Instances.MapOverRows stops on an error
 whatever the status

---
 base/mat.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/mat.go b/base/mat.go
index f644cf3..11f35ff 100644
--- a/base/mat.go
+++ b/base/mat.go
@@ -99,9 +99,12 @@ func (m *Mat64Instances) MapOverRows(as []AttributeSpec, f func([][]byte, int) (
 			PackFloatToBytesInline(m.Data.At(i, as.position), rowData[j])
 		}
 		stat, err := f(rowData, i)
-		if !stat {
+		if err != nil {
 			return err
 		}
+		if !stat {
+			break
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 7db20c2fc11c205c10cd89885a7fd82a30029233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 05/94] fix: LazilyFilteredInstances.Size counts the filtered
 Attributes

A filter may replace one Attribute with several (or none).
---
 base/filtered.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/filtered.go b/base/filtered.go
index cf25f59..0c0d806 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -221,7 +221,8 @@ func (l *LazilyFilteredInstances) RowString(row int) string {
 // Size returns the number of Attributes and rows of the underlying
 // FixedDataGrid.
 func (l *LazilyFilteredInstances) Size() (int, int) {
-	return l.src.Size()
+	_, rows := l.src.Size()
+	return len(l.AllAttributes()), rows
 }
 
 // String returns a human-readable summary of this FixedDataGrid
-- 
2.43.0


From 6baf49764d1d44470121c56ac4db0d2a3356bfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 06/94] fix: InstancesAreEqual compares with the other
 instances

Both sides were read from the first argument, so it was always true.
---
 base/util_instances.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 2def385..766c871 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -505,14 +505,18 @@ func CheckStrictlyCompatible(s1 FixedDataGrid, s2 FixedDataGrid) bool {
 // InstancesAreEqual checks whether a given Instance set is exactly
 // the same as another (i.e. has the same size and values).
 func InstancesAreEqual(inst, other FixedDataGrid) bool {
-	_, rows := inst.Size()
+	cols, rows := inst.Size()
+	otherCols, otherRows := other.Size()
+	if cols != otherCols || rows != otherRows {
+		return false
+	}
 
 	for _, a := range inst.AllAttributes() {
 		as1, err := inst.GetAttribute(a)
 		if err != nil {
 			panic(err) // That indicates some kind of error
 		}
-		as2, err := inst.GetAttribute(a)
+		as2, err := other.GetAttribute(a)
 		if err != nil {
 			return false // Obviously has different Attributes
 		}
@@ -523,7 +527,7 @@ func InstancesAreEqual(inst, other FixedDataGrid) bool {
 
 		for i := 0; i < rows; i++ {
 			b1 := inst.Get(as1, i)
-			b2 := inst.Get(as2, i)
+			b2 := other.Get(as2, i)
 			if !byteSeqEqual(b1, b2) {
 				return false
 			}
-- 
2.43.0


From 65d618b17f54fca7f05b39e5d0b4e52d75040b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 07/94] fix: CheckStrictlyCompatible compares the number of
 Attributes per group

---
 base/util_instances.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/util_instances.go b/base/util_instances.go
index 766c871..ad32f66 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -490,6 +490,9 @@ func CheckStrictlyCompatible(s1 FixedDataGrid, s2 FixedDataGrid) bool {
 		ag2 := d2ags[a]
 		a1 := ag1.Attributes()
 		a2 := ag2.Attributes()
+		if len(a1) != len(a2) {
+			return false
+		}
 		for i := range a1 {
 			at1 := a1[i]
 			at2 := a2[i]
-- 
2.43.0


From 2427b56a45301a8d46c2c889bcf536d64fcd4d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 08/94] fix: class distributions count every row, not only the
 first

---
 base/util_instances.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index ad32f66..2c60a39 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -146,7 +146,7 @@ func GetClassDistributionByBinaryFloatValue(inst FixedDataGrid) []int {
 			ret[0]++
 		}
 
-		return false, nil
+		return true, nil
 	})
 
 	return ret
@@ -177,7 +177,7 @@ func GetClassDistributionByCategoricalValue(inst FixedDataGrid) []int {
 	inst.MapOverRows(specs, func(vals [][]byte, row int) (bool, error) {
 		index := UnpackBytesToU64(vals[0])
 		ret[int(index)]++
-		return false, nil
+		return true, nil
 	})
 
 	return ret
-- 
2.43.0


From 9fc54dbd27572d0cf9999a30df7199e45fe12ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:09 +0000
Subject: [PATCH 09/94] fix: sort float and categorical keys by value

The sign fix-up flipped one bit of the wrong byte of one key only, so
negative floats and some category indices came out in the wrong place.
---
 base/sort.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/base/sort.go b/base/sort.go
index 1cbfa57..3fcaaca 100644
--- a/base/sort.go
+++ b/base/sort.go
@@ -5,11 +5,21 @@ import (
 	"encoding/binary"
 )
 
-func sortXorOp(b []byte) []byte {
-	ret := make([]byte, len(b))
-	copy(ret, b)
-	ret[0] ^= 0x80
-	return ret
+// sortKey converts a stored value into a byte sequence with
+// the same order when compared as a little-endian integer.
+func sortKey(attr Attribute, b []byte) []byte {
+	if _, ok := attr.(*FloatAttribute); !ok {
+		return b
+	}
+	// Positive floats sort above negative ones, and
+	// the larger a negative's magnitude, the lower it sorts
+	bits := UnpackBytesToU64(b)
+	if bits&(1<<63) != 0 {
+		bits = ^bits
+	} else {
+		bits |= 1 << 63
+	}
+	return PackU64ToBytes(bits)
 }
 
 type sortSpec struct {
@@ -47,11 +57,7 @@ func createSortSpec(inst FixedDataGrid, attrsArg []AttributeSpec) []sortSpec {
 		byteBuf := make([]byte, rowSize)
 
 		for i, r := range row {
-			if i == 0 {
-				binary.Write(buf, binary.LittleEndian, sortXorOp(r))
-			} else {
-				binary.Write(buf, binary.LittleEndian, r)
-			}
+			binary.Write(buf, binary.LittleEndian, sortKey(attrs[i].attr, r))
 		}
 
 		buf.Read(byteBuf)
-- 
2.43.0


From 31af913dda97db30d4b820b49c4ab9f56ab1274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 10/94] fix: InstancesAreEqual matches Attributes by name and
 categories by value

---
 base/util_instances.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 2c60a39..dc4a4d2 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -519,19 +519,24 @@ func InstancesAreEqual(inst, other FixedDataGrid) bool {
 		if err != nil {
 			panic(err) // That indicates some kind of error
 		}
-		as2, err := other.GetAttribute(a)
-		if err != nil {
+		// Categories may be numbered differently on either side
+		o := GetAttributeByName(other, a.GetName())
+		if o == nil || o.GetType() != a.GetType() {
 			return false // Obviously has different Attributes
 		}
-
-		if !as1.GetAttribute().Equals(as2.GetAttribute()) {
+		as2, err := other.GetAttribute(o)
+		if err != nil {
 			return false
 		}
 
 		for i := 0; i < rows; i++ {
 			b1 := inst.Get(as1, i)
 			b2 := other.Get(as2, i)
-			if !byteSeqEqual(b1, b2) {
+			if a.GetType() == CategoricalType {
+				if a.GetStringFromSysVal(b1) != o.GetStringFromSysVal(b2) {
+					return false
+				}
+			} else if !byteSeqEqual(b1, b2) {
 				return false
 			}
 		}
-- 
2.43.0


From c3b94ed89f5de369a44c3fba881324eec55793b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 11/94] fix: LazyShuffle is a permutation of the rows

The map entries were overwritten instead of swapped, so some rows
appeared twice and others vanished.
---
 base/util_instances.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index dc4a4d2..9e42a48 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -402,8 +402,8 @@ func LazyShuffle(from FixedDataGrid) FixedDataGrid {
 	rowMap := make(map[int]int)
 	for i := 0; i < rows; i++ {
 		j := rand.Intn(i + 1)
-		rowMap[i] = j
-		rowMap[j] = i
+		rowMap[i] = i
+		rowMap[i], rowMap[j] = rowMap[j], rowMap[i]
 	}
 	return NewInstancesViewFromRows(from, rowMap)
 }
-- 
2.43.0


From c8210137eccc80bb2e91019db7e672e9bad7e556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 12/94] fix: SampleWithReplacement returns exactly the sampled
 rows

Asking for fewer rows than the source had returned the unsampled tail
of the source as well.
---
 base/util_instances.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 9e42a48..0080fa5 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -429,13 +429,12 @@ func Shuffle(from FixedDataGrid) FixedDataGrid {
 // IMPORTANT: There's a high chance of seeing duplicate rows
 // whenever size is close to the row count.
 func SampleWithReplacement(from FixedDataGrid, size int) FixedDataGrid {
-	rowMap := make(map[int]int)
+	sample := make([]int, size)
 	_, rows := from.Size()
-	for i := 0; i < size; i++ {
-		srcRow := rand.Intn(rows)
-		rowMap[i] = srcRow
+	for i := range sample {
+		sample[i] = rand.Intn(rows)
 	}
-	return NewInstancesViewFromRows(from, rowMap)
+	return NewInstancesViewFromVisible(from, sample, from.AllAttributes())
 }
 
 // CheckCompatible checks whether two DataGrids have the same Attributes
-- 
2.43.0


From c4ed6852ca64f6dabd58a169e77b1d7b91272ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:09 +0000
Subject: [PATCH 13/94] fix: grouped CSV parsing does not count the header as a
 row

---
 base/csv.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/csv.go b/base/csv.go
index 93bb63d..0cee9b7 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -295,6 +295,10 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 		return nil, err
 	}
 
+	if hasHeaders {
+		rowCount--
+	}
+
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
 	for i := range attrs {
-- 
2.43.0


From 6a626bbb1edfffd5facf4edae2f5050a95218e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 14/94] fix: ARFF row count accepts trailing space after @data

---
 base/arff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/arff.go b/base/arff.go
index 996201b..ac8d07a 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -101,7 +101,7 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			continue
 		}
 		if line[0] == '@' {
-			line = strings.ToLower(line)
+			line = strings.TrimSpace(strings.ToLower(line))
 			if line == "@data" {
 				counting = true
 			}
-- 
2.43.0


From a648444d783fb3788e500e1409322de7a4301ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 15/94] fix: serialising to a file replaces its old contents

---
 base/arff.go                | 2 +-
 base/serialize_instances.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index ac8d07a..326bf4e 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -31,7 +31,7 @@ func SerializeInstancesToDenseARFF(inst FixedDataGrid, path, relation string) er
 func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []Attribute, path, relation string) error {
 
 	// Open output file
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 7239776..65ce163 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -12,7 +12,7 @@ import (
 )
 
 func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
@@ -30,7 +30,7 @@ func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
 
 // SerializesInstancesToCSV converts a FixedDataGrid into a CSV file format.
 func SerializeInstancesToCSV(inst FixedDataGrid, path string) error {
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 214564f2394d068f826a24d3e34f60e2ba3e19bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:19 +0000
Subject: [PATCH 16/94] fix: bagging counts votes in model order, so ties are
 decided the same way every time

---
 meta/bagging.go | 71 +++++++++++++++++++------------------------------
 1 file changed, 27 insertions(+), 44 deletions(-)

diff --git a/meta/bagging.go b/meta/bagging.go
index f509463..9a063b5 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -102,35 +102,10 @@ func (b *BaggedModel) Fit(from base.FixedDataGrid) {
 // achieved the tie value is output.
 func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, error) {
 	n := runtime.NumCPU()
-	// Channel to receive the results as they come in
-	votes := make(chan base.DataGrid, n)
-	// Count the votes for each class
-	voting := make(map[int](map[string]int))
-
-	// Create a goroutine to collect the votes
-	var votingwait sync.WaitGroup
-	votingwait.Add(1)
-	go func() {
-		for { // Need to resolve the voting problem
-			incoming, ok := <-votes
-			if ok {
-				cSpecs := base.ResolveAttributes(incoming, incoming.AllClassAttributes())
-				incoming.MapOverRows(cSpecs, func(row [][]byte, predRow int) (bool, error) {
-					// Check if we've seen this class before...
-					if _, ok := voting[predRow]; !ok {
-						// If we haven't, create an entry
-						voting[predRow] = make(map[string]int)
-						// Continue on the current row
-					}
-					voting[predRow][base.GetClass(incoming, predRow)]++
-					return true, nil
-				})
-			} else {
-				votingwait.Done()
-				break
-			}
-		}
-	}()
+	// One slot per model, so that the votes can be counted in model order
+	// whatever order the predictions come in
+	votes := make([]base.FixedDataGrid, len(b.Models))
+	errs := make([]error, len(b.Models))
 
 	// Create workers to process the predictions
 	processpipe := make(chan int, n)
@@ -142,8 +117,7 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 				if i, ok := <-processpipe; ok {
 					c := b.Models[i]
 					l := b.generatePredictionInstances(i, from)
-					v, _ := c.Predict(l)
-					votes <- v
+					votes[i], errs[i] = c.Predict(l)
 				} else {
 					processwait.Done()
 					break
@@ -158,23 +132,32 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 	}
 	close(processpipe) // Finished sending models to be predicted
 	processwait.Wait() // Predictors all finished processing
-	close(votes)       // Close the vote channel and allow it to drain
-	votingwait.Wait()  // All the votes are in
 
-	// Generate the overall consensus
+	// Count the votes for each class, and keep the class which
+	// was the first to reach the highest count
 	ret := base.GeneratePredictionVector(from)
-	for i := range voting {
-		maxClass := ""
-		maxCount := 0
-		// Find the most popular class
-		for c := range voting[i] {
-			votes := voting[i][c]
-			if votes > maxCount {
-				maxClass = c
-				maxCount = votes
+	_, rows := from.Size()
+	voting := make([]map[string]int, rows)
+	maxClass := make([]string, rows)
+	for m, incoming := range votes {
+		if errs[m] != nil {
+			return nil, errs[m]
+		}
+		for i := range voting {
+			if voting[i] == nil {
+				voting[i] = make(map[string]int)
+			}
+			c := base.GetClass(incoming, i)
+			voting[i][c]++
+			if voting[i][c] > voting[i][maxClass[i]] {
+				maxClass[i] = c
 			}
 		}
-		base.SetClass(ret, i, maxClass)
+	}
+	if len(votes) > 0 {
+		for i := range maxClass {
+			base.SetClass(ret, i, maxClass[i])
+		}
 	}
 	return ret, nil
 }
-- 
2.43.0


From df2e2594beaf9241c3594ea464c89af418562036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 17/94] fix: trees send values without a branch down the same
 branch every time

---
 trees/id3.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index 8574d48..f32e88f 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -352,6 +352,22 @@ func (d *DecisionTreeNode) Prune(using base.FixedDataGrid) {
 	}
 }
 
+// fallbackChild names the branch taken by a value which has none of its own:
+// the next one in order, or the last.
+func (d *DecisionTreeNode) fallbackChild(value string) string {
+	keys := make([]string, 0, len(d.Children))
+	for k := range d.Children {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	for _, k := range keys {
+		if k > value {
+			return k
+		}
+	}
+	return keys[len(keys)-1]
+}
+
 // Predict outputs a base.Instances containing predictions from this tree
 func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid, error) {
 	predictions := base.GeneratePredictionVector(what)
@@ -394,15 +410,7 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 				if next, ok := cur.Children[classVar]; ok {
 					cur = next
 				} else {
-					// Suspicious of this
-					var bestChild string
-					for c := range cur.Children {
-						bestChild = c
-						if c > classVar {
-							break
-						}
-					}
-					cur = cur.Children[bestChild]
+					cur = cur.Children[cur.fallbackChild(classVar)]
 				}
 			}
 		}
@@ -480,15 +488,7 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 				if next, ok := cur.Children[classVar]; ok {
 					cur = next
 				} else {
-					// Suspicious of this
-					var bestChild string
-					for c := range cur.Children {
-						bestChild = c
-						if c > classVar {
-							break
-						}
-					}
-					cur = cur.Children[bestChild]
+					cur = cur.Children[cur.fallbackChild(classVar)]
 				}
 			}
 		}
-- 
2.43.0


From b40a36dcbea536c67bafbad5a8a6e629f044d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 18/94] fix: BinaryConvertFilter maps every non-zero float to 1

---
 filters/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/binary.go b/filters/binary.go
index 291ac7d..de95b09 100644
--- a/filters/binary.go
+++ b/filters/binary.go
@@ -93,7 +93,7 @@ func (b *BinaryConvertFilter) Transform(a base.Attribute, n base.Attribute, attr
 	} else if _, ok := a.(*base.FloatAttribute); ok {
 		// Float: check for non-zero
 		val := base.UnpackBytesToFloat(attrBytes)
-		if val > 0 {
+		if val != 0 {
 			ret[0] = 1
 		} else {
 			ret[0] = 0
-- 
2.43.0


From 7d45ff479ef50c1345546d3650d7ac89f1700dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 19/94] fix: removing a filtered class Attribute removes
 everything it was expanded to

---
 base/filtered.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index 0c0d806..789f825 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -113,13 +113,17 @@ func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
 		l.classAttrs[cls] = false
 		return nil
 	}
+	matched := false
 	for _, a := range l.attrs {
 		if a.Old.Equals(cls) || a.New.Equals(cls) {
 			l.classAttrs[a.New] = false
-			return nil
+			matched = true
 		}
 	}
-	return fmt.Errorf("Attribute %s could not be resolved", cls)
+	if !matched {
+		return fmt.Errorf("Attribute %s could not be resolved", cls)
+	}
+	return nil
 }
 
 // AllClassAttributes returns details of all Attributes currently specified
-- 
2.43.0


From 35288b85e224fcb00faaad844c6885badbeb4468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 20/94] fix: BinningFilter puts values above the training range
 into the last bin

---
 filters/binning.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filters/binning.go b/filters/binning.go
index fb9ebf6..2cdeacc 100644
--- a/filters/binning.go
+++ b/filters/binning.go
@@ -88,8 +88,11 @@ func (b *BinningFilter) Transform(a base.Attribute, n base.Attribute, field []by
 	// Casts to float64 to replicate a floating point precision error
 	delta := float64(maxVal-minVal) / float64(b.bins)
 	val := float64(af.GetFloatFromSysVal(field))
-	if val <= minVal {
+	if val <= minVal || delta == 0 {
 		disc = 0
+	} else if val >= maxVal {
+		// Values above those seen in training share the last bin
+		disc = b.bins
 	} else {
 		disc = int(math.Floor(float64(float64(val-minVal)/delta + 0.0001)))
 	}
-- 
2.43.0


From bf265b3e37549c3237b7cce355552277d32bc834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 21/94] fix: chi-squared percentile for one degree of freedom

---
 filters/chimerge_funcs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filters/chimerge_funcs.go b/filters/chimerge_funcs.go
index 6b649c1..6fa3e48 100644
--- a/filters/chimerge_funcs.go
+++ b/filters/chimerge_funcs.go
@@ -54,6 +54,10 @@ func chiSquaredPercentile(k int, x float64) float64 {
 	// Implements Yahya et al.'s "A Numerical Procedure
 	//  for Computing Chi-Square Percentage Points"
 	// InterStat Journal 01/2007; April 25:page:1-8.
+	if k == 1 {
+		// The density has a pole at zero, so it can't be integrated below
+		return math.Erf(math.Sqrt(x / 2))
+	}
 	steps := 32
 	intervals := 4 * steps
 	w := x / (4.0 * float64(steps))
-- 
2.43.0


From d38583747698a63e081962ac9088a4102495c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 22/94] fix: ChiMergeFilter puts a value on an interval's lower
 bound into that interval

---
 filters/chimerge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/chimerge.go b/filters/chimerge.go
index 826e8d0..d197c51 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -173,7 +173,7 @@ func (c *ChiMergeFilter) Transform(a base.Attribute, n base.Attribute, field []b
 	dis := 0
 	val := base.UnpackBytesToFloat(field)
 	for j, k := range table {
-		if k.Value < val {
+		if k.Value <= val {
 			dis = j
 			continue
 		}
-- 
2.43.0


From 3f4b7c64be28d84527643145cbb6c99635b38c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 23/94] fix: ChiMerge never merges below the minimum number of
 rows

---
 filters/chimerge.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filters/chimerge.go b/filters/chimerge.go
index d197c51..da2a99e 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -107,6 +107,9 @@ func chiMerge(inst base.FixedDataGrid, attr base.Attribute, sig float64, minrows
 		//  The higher of the two things as the value
 		//  Combining the class frequencies
 		for i, v := range minChiIndexes {
+			if len(freq) <= minrows {
+				break
+			}
 			freq = chiMergeMergeZipAdjacent(freq, v-i)
 		}
 	}
-- 
2.43.0


From 193e7778b09db07c45a5951873688bb414172e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 24/94] fix: BinningFilter gives every bin its own label

---
 filters/binning.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/filters/binning.go b/filters/binning.go
index 2cdeacc..3415069 100644
--- a/filters/binning.go
+++ b/filters/binning.go
@@ -3,6 +3,7 @@ package filters
 import (
 	"fmt"
 	"math"
+	"strconv"
 
 	"github.com/sjwhitworth/golearn/base"
 )
@@ -111,10 +112,7 @@ func (b *BinningFilter) GetAttributesAfterFiltering() []base.FilteredAttribute {
 			maxVal := b.maxVals[a]
 			delta := float64(maxVal-minVal) / float64(b.bins)
 			retAttr.SetName(a.GetName())
-			for i := 0; i <= b.bins; i++ {
-				floatVal := float64(i)*delta + minVal
-				fmtStr := fmt.Sprintf("%%.%df", a.(*base.FloatAttribute).Precision)
-				binVal := fmt.Sprintf(fmtStr, floatVal)
+			for _, binVal := range b.binLabels(a.(*base.FloatAttribute).Precision, minVal, delta) {
 				retAttr.GetSysValFromString(binVal)
 			}
 			ret[i] = base.FilteredAttribute{a, retAttr}
@@ -124,3 +122,21 @@ func (b *BinningFilter) GetAttributesAfterFiltering() []base.FilteredAttribute {
 	}
 	return ret
 }
+
+// binLabels returns the lower bound of each bin as text. It uses the precision
+// of the original Attribute, unless that would give two bins the same label.
+func (b *BinningFilter) binLabels(precision int, minVal float64, delta float64) []string {
+	ret := make([]string, 0)
+	fmtStr := fmt.Sprintf("%%.%df", precision)
+	for i := 0; i <= b.bins; i++ {
+		ret = append(ret, fmt.Sprintf(fmtStr, float64(i)*delta+minVal))
+		if i > 0 && ret[i] == ret[i-1] {
+			// Too coarse: use as many digits as it takes
+			for j := 0; j <= b.bins; j++ {
+				ret = append(ret[:j], strconv.FormatFloat(float64(j)*delta+minVal, 'g', -1, 64))
+			}
+			break
+		}
+	}
+	return ret
+}
-- 
2.43.0


From bf9daaaf7d06b55660d172c3d05ea917aae865c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:54 +0000
Subject: [PATCH 25/94] fix: micro precision and the printed matrix include
 classes that were only predicted

---
 evaluation/confusion.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/evaluation/confusion.go b/evaluation/confusion.go
index eb71faf..c9f374e 100644
--- a/evaluation/confusion.go
+++ b/evaluation/confusion.go
@@ -129,12 +129,31 @@ func GetAccuracy(c ConfusionMatrix) float64 {
 	return float64(correct) / float64(total)
 }
 
+// predictedClasses lists the classes of a ConfusionMatrix: those of the reference,
+// followed by those which only occur as predictions.
+func predictedClasses(c ConfusionMatrix) []string {
+	ret := make([]string, 0)
+	for k := range c {
+		ret = append(ret, k)
+	}
+	seen := make(map[string]bool)
+	for k := range c {
+		for l := range c[k] {
+			if _, ok := c[l]; !ok && !seen[l] {
+				seen[l] = true
+				ret = append(ret, l)
+			}
+		}
+	}
+	return ret
+}
+
 // GetMicroPrecision assesses Classifier performance across
 // all classes using the total true positives and false positives.
 func GetMicroPrecision(c ConfusionMatrix) float64 {
 	truePositives := 0.0
 	falsePositives := 0.0
-	for k := range c {
+	for _, k := range predictedClasses(c) {
 		truePositives += GetTruePositives(k, c)
 		falsePositives += GetFalsePositives(k, c)
 	}
@@ -206,16 +225,17 @@ func ShowConfusionMatrix(c ConfusionMatrix) string {
 	w := new(tabwriter.Writer)
 	w.Init(&buffer, 0, 8, 0, '\t', 0)
 
-	ref := make([]string, 0)
+	// Reference classes come first
+	pred := predictedClasses(c)
+	ref := pred[:len(c)]
 	fmt.Fprintf(w, "Reference Class\t")
-	for k := range c {
+	for _, k := range pred {
 		fmt.Fprintf(w, "%s\t", k)
-		ref = append(ref, k)
 	}
 	fmt.Fprintf(w, "\n")
 
 	fmt.Fprintf(w, "---------------\t")
-	for _, v := range ref {
+	for _, v := range pred {
 		for t := 0; t < len(v); t++ {
 			fmt.Fprintf(w, "-")
 		}
@@ -225,7 +245,7 @@ func ShowConfusionMatrix(c ConfusionMatrix) string {
 
 	for _, v := range ref {
 		fmt.Fprintf(w, "%s\t", v)
-		for _, v2 := range ref {
+		for _, v2 := range pred {
 			fmt.Fprintf(w, "%d\t", c[v][v2])
 		}
 		fmt.Fprintf(w, "\n")
-- 
2.43.0


From 229a62e0331ea56d8511c1275f46578e2984172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 26/94] fix: kd-tree search no longer returns the empty right
 child of a node as a point

---
 kdtree/kdtree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kdtree/kdtree.go b/kdtree/kdtree.go
index 6bddbe8..3b3347c 100644
--- a/kdtree/kdtree.go
+++ b/kdtree/kdtree.go
@@ -192,6 +192,10 @@ func (t *Tree) searchHandle(k int, disType pairwise.PairwiseDistanceFunc, target
 }
 
 func (t *Tree) searchAllNodes(k int, disType pairwise.PairwiseDistanceFunc, target []float64, h *heap, n *node) {
+	if n.feature == -2 {
+		return
+	}
+
 	vectorX := mat.NewDense(len(target), 1, target)
 	vectorY := mat.NewDense(len(target), 1, n.value)
 	length := disType.Distance(vectorX, vectorY)
-- 
2.43.0


From 7d4852278b38b00d1c3738cb827b9a90bd0d2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 27/94] fix: kd-tree search does not prune subtrees by one-axis
 cosine distance

---
 kdtree/kdtree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kdtree/kdtree.go b/kdtree/kdtree.go
index 3b3347c..7652955 100644
--- a/kdtree/kdtree.go
+++ b/kdtree/kdtree.go
@@ -181,7 +181,10 @@ func (t *Tree) searchHandle(k int, disType pairwise.PairwiseDistanceFunc, target
 		vectorY = mat.NewDense(1, 1, []float64{n.value[n.feature]})
 		length = disType.Distance(vectorX, vectorY)
 
-		if h.maximum().length > length {
+		// The distance along one axis bounds the distance to the points beyond it
+		// from below, except for the cosine distance.
+		_, isCosine := disType.(*pairwise.Cosine)
+		if isCosine || h.maximum().length > length {
 			if dir {
 				t.searchAllNodes(k, disType, target, h, n.right)
 			} else {
-- 
2.43.0


From 6e8c2828abb11a0cf5fbdef5a100bdd536fcba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 28/94] fix: KNN reports an error when there are fewer training
 rows than neighbours

---
 knn/knn.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/knn/knn.go b/knn/knn.go
index 0ce44fa..e9cc8a9 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -125,6 +125,11 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		return nil, errors.New("attributes not compatible")
 	}
 
+	// There have to be enough neighbours
+	if _, trainRows := KNN.TrainingData.Size(); KNN.NearestNeighbours > trainRows {
+		return nil, errors.New("more neighbours asked for than there are training rows")
+	}
+
 	// Use optimised version if permitted
 	if KNN.Algorithm == "linear" && KNN.AllowOptimisations {
 		if KNN.DistanceFunc == "euclidean" {
@@ -192,7 +197,7 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	}
 
 	// Iterate over all outer rows
-	what.MapOverRows(whatAttrSpecs, func(predRow [][]byte, predRowNo int) (bool, error) {
+	err := what.MapOverRows(whatAttrSpecs, func(predRow [][]byte, predRowNo int) (bool, error) {
 
 		if (curRow%1) == 0 && curRow > 0 {
 			fmt.Printf("KNN: %.2f %% done\r", float64(curRow)*100.0/float64(maxRow))
@@ -261,6 +266,9 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		return true, nil
 
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return ret, nil
 }
-- 
2.43.0


From a7da2c95c9d5a764697a759e385e240e63e42d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 29/94] fix: weighted KNN is not replaced by the unweighted
 optimised search

---
 knn/knn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knn/knn.go b/knn/knn.go
index e9cc8a9..a2ca058 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -131,7 +131,7 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	}
 
 	// Use optimised version if permitted
-	if KNN.Algorithm == "linear" && KNN.AllowOptimisations {
+	if KNN.Algorithm == "linear" && KNN.AllowOptimisations && !KNN.Weighted {
 		if KNN.DistanceFunc == "euclidean" {
 			if KNN.canUseOptimisations(what) {
 				return KNN.optimisedEuclideanPredict(what.(*base.DenseInstances)), nil
-- 
2.43.0


From ad19ce198c5b9e6ed420534e4f85f99da02b1889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 30/94] fix: KNN does not use the class attribute as a feature

---
 knn/knn.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index a2ca058..a10c742 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -139,20 +139,15 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		}
 	}
 
-	// Remove the Attributes which aren't numeric
+	// Keep the numeric Attributes, except those we are trying to predict
+	classAttrs := KNN.TrainingData.AllClassAttributes()
 	allNumericAttrs := make([]base.Attribute, 0)
-	for _, a := range allAttrs {
+	for _, a := range base.AttributeDifference(allAttrs, classAttrs) {
 		if fAttr, ok := a.(*base.FloatAttribute); ok {
 			allNumericAttrs = append(allNumericAttrs, fAttr)
 		}
 	}
 
-	// If every Attribute is a FloatAttribute, then we remove the last one
-	// because that is the Attribute we are trying to predict.
-	if len(allNumericAttrs) == len(allAttrs) {
-		allNumericAttrs = allNumericAttrs[:len(allNumericAttrs)-1]
-	}
-
 	// Generate return vector
 	ret := base.GeneratePredictionVector(what)
 
-- 
2.43.0


From 40a8d02d9afaee47d8e8ccae9d3a175c950c9622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:41 +0000
Subject: [PATCH 31/94] fix: DBSCAN adds border points that were visited as
 noise to the cluster that reaches them

---
 clustering/dbscan.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/clustering/dbscan.go b/clustering/dbscan.go
index 82861f1..3870080 100644
--- a/clustering/dbscan.go
+++ b/clustering/dbscan.go
@@ -96,15 +96,13 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 					neighbours = neighbours.Or(neighbours, newNeighbours)
 					reset = true
 				}
-			} else {
-				continue
 			}
 			if clustered.Bit(i) == 0 {
 				clusterMap[c] = append(clusterMap[c], i)
 				clustered = clustered.SetBit(clustered, i, 1)
 			}
 			if reset {
-				i = 0
+				i = -1 // Start again from the first point
 			}
 		}
 	}
@@ -118,8 +116,7 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 		neighbours := big.NewInt(0)
 		neighbours = regionQuery(i, neighbours, dist, params.Eps)
 		if BitCount(neighbours) < params.MinCount {
-			// Noise, cluster 0
-			clustered = clustered.Or(clustered, neighbours)
+			// Noise, unless a cluster reaches it later
 			continue
 		}
 		c = c + 1 // Increment cluster count
-- 
2.43.0


From 1dbf493d7ad6eca61f74e269161a136ec6b9a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:41 +0000
Subject: [PATCH 32/94] fix: ClusterMap.Equals compares whole clusters

---
 clustering/clustering.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clustering/clustering.go b/clustering/clustering.go
index 3636d5b..14ada76 100644
--- a/clustering/clustering.go
+++ b/clustering/clustering.go
@@ -80,6 +80,10 @@ func (ref ClusterMap) Equals(other ClusterMap) (bool, error) {
 	// Check that after transformation, key contains the same points
 	arraysEqual := func(a1, a2 []int) bool {
 
+		if len(a1) != len(a2) {
+			return false
+		}
+
 		cnt := make(map[int]bool)
 		for _, a := range a1 {
 			cnt[a] = true
@@ -96,6 +100,9 @@ func (ref ClusterMap) Equals(other ClusterMap) (bool, error) {
 	}
 	newMap := ClusterMap(make(map[int][]int))
 	for cOld := range other {
+		if len(other[cOld]) == 0 {
+			continue // Empty clusters correspond to each other
+		}
 		cNew := clusterIdMap[cOld]
 		if !arraysEqual(ref[cNew], other[cOld]) {
 			return false, fmt.Errorf("Re-labelled cluster %d => %d doesn't contain the same points (%d, %d)", cOld, cNew, ref[cNew], other[cOld])
-- 
2.43.0


From 8977ef34eae2f1e765803a94e321e54a6cd9649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:03 +0000
Subject: [PATCH 33/94] fix: EM keeps the parameters of a component without
 rows instead of panicking

---
 clustering/em.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustering/em.go b/clustering/em.go
index 70894df..6f60563 100644
--- a/clustering/em.go
+++ b/clustering/em.go
@@ -313,6 +313,9 @@ func where(X *mat.Dense, y mat.Vector, target int) *mat.Dense {
 			rows++
 		}
 	}
+	if rows == 0 {
+		return &mat.Dense{}
+	}
 	X_i := mat.NewDense(rows, n_feats, result)
 	return X_i
 }
-- 
2.43.0


From 3aa8935b5d7807e24638423cf5ce3f09da6416d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:03 +0000
Subject: [PATCH 34/94] fix: EM uses the shrunk covariance whenever the sample
 covariance must be singular

---
 clustering/em.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustering/em.go b/clustering/em.go
index 6f60563..898ab5e 100644
--- a/clustering/em.go
+++ b/clustering/em.go
@@ -142,7 +142,7 @@ func maximization(X *mat.Dense, y mat.Vector, p Params, n_comps int) Params {
 		if n_obs <= 1 {
 			p_new.Means.SetRow(k, p.Means.RawRowView(k))
 			covs_k_reg = p.Covs[k]
-		} else if n_obs < n_feats {
+		} else if n_obs <= n_feats {
 			p_new.Means.SetRow(k, means(X_yk))
 			covs_k_reg = shrunkCovariance(X_yk)
 		} else {
-- 
2.43.0


From 9080a47d45f76c1b2450095b23c74fd432c83da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:03 +0000
Subject: [PATCH 35/94] fix: EM clusters by the numeric attributes only

---
 clustering/em.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustering/em.go b/clustering/em.go
index 898ab5e..925d9af 100644
--- a/clustering/em.go
+++ b/clustering/em.go
@@ -41,7 +41,7 @@ func NewExpectationMaximization(n_comps int) (*ExpectationMaximization, error) {
 // Fit method - generates the component parameters (means and covariance matrices)
 func (em *ExpectationMaximization) Fit(inst base.FixedDataGrid) error {
 	// Numeric Attrs
-	attrs := base.NonClassAttributes(inst)
+	attrs := base.NonClassFloatAttributes(inst)
 	attrSpecs := base.ResolveAttributes(inst, attrs)
 
 	_, n_obs := inst.Size()
-- 
2.43.0


From 674f4266175875649d3fc2bfbe346cf15d8cdf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:02 +0000
Subject: [PATCH 36/94] fix: reading serialised instances copes with short
 reads from the decompressor

---
 base/serialize_instances.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 65ce163..68b1cda 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -166,15 +166,13 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 	for i := 0; i < rowCount; i++ {
 		for j, s := range specs {
 			r := ret.Get(s, i)
-			n, err := reader.Read(r)
+			// Read may return early (e.g. at a gzip block boundary)
+			n, err := io.ReadFull(reader, r)
 			if n != len(r) {
 				return nil, WrapError(fmt.Errorf("Expected %d bytes (read %d) on row %d", len(r), n, i))
 			}
 			ret.Set(s, i, r)
 			if err != nil {
-				if i == rowCount-1 && j == len(specs)-1 && err == io.EOF {
-					break
-				}
 				return nil, WrapError(fmt.Errorf("Read error in data section (at row %d from %d, attr %d from %d): %s", i, rowCount, j, len(specs), err))
 			}
 		}
-- 
2.43.0


From 23c95cde2d82e5234d916ee386d3c34e0bcfa9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:57 +0000
Subject: [PATCH 37/94] fix: Gini impurity is computed from the class
 proportions

---
 trees/gini.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trees/gini.go b/trees/gini.go
index 23b1569..4ac7444 100644
--- a/trees/gini.go
+++ b/trees/gini.go
@@ -71,12 +71,13 @@ func (g *GiniCoefficientRuleGenerator) GetSplitRuleFromSelection(consideredAttri
 // computeGini computes the Gini impurity measure
 func computeGini(s map[string]int) float64 {
 	// Compute probability map
+	total := 0
+	for i := range s {
+		total += s[i]
+	}
 	p := make(map[string]float64)
 	for i := range s {
-		if p[i] == 0 {
-			continue
-		}
-		p[i] = 1.0 / float64(p[i])
+		p[i] = float64(s[i]) / float64(total)
 	}
 	// Compute overall sum
 	sum := 0.0
-- 
2.43.0


From f679b8df35bdd353eb67ccd9c2b43aea23f6557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:57 +0000
Subject: [PATCH 38/94] fix: numeric splits consider every threshold between
 distinct values

---
 trees/entropy.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/trees/entropy.go b/trees/entropy.go
index faa6613..3b9de3a 100644
--- a/trees/entropy.go
+++ b/trees/entropy.go
@@ -122,8 +122,6 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 
 	minSplitEntropy := math.Inf(1)
 	minSplitVal := math.Inf(1)
-	prevVal := math.NaN()
-	prevInd := 0
 
 	splitDist := [2][]int{make([]int, numClasses), make([]int, numClasses)}
 	// Before first split all refs are not smaller than val
@@ -132,22 +130,20 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 	}
 
 	// Consider each possible function
-	for i := 0; i < len(refs)-1; {
-		val := refs[i].val + refs[i+1].val
-		val /= 2
-		if val == prevVal {
-			i++
+	for i := 0; i < len(refs)-1; i++ {
+		// refs is sorted, so only this one moves to the lower side
+		splitDist[0][refs[i].class]++
+		splitDist[1][refs[i].class]--
+		if refs[i].val == refs[i+1].val {
+			// No threshold separates equal values
 			continue
 		}
-		// refs is sorted, so we only need to update values that are
-		// bigger than prevVal, but are lower than val
-		for j := prevInd; j < len(refs) && refs[j].val < val; j++ {
-			splitDist[0][refs[j].class]++
-			splitDist[1][refs[j].class]--
-			i++
-			prevInd++
+		val := refs[i].val + refs[i+1].val
+		val /= 2
+		if !(val < refs[i+1].val) {
+			// There's nothing in between the two (or it's out of range)
+			val = refs[i].val
 		}
-		prevVal = val
 		splitEntropy := getSplitEntropyFast(splitDist)
 		if splitEntropy < minSplitEntropy {
 			minSplitEntropy = splitEntropy
-- 
2.43.0


From 8e5d4e3031a383df17b4a9e48db435e26a7dd436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:57 +0000
Subject: [PATCH 39/94] fix: gain ratio divides by the information of the split
 itself

---
 trees/gr.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/trees/gr.go b/trees/gr.go
index 46577f5..80afdf4 100644
--- a/trees/gr.go
+++ b/trees/gr.go
@@ -56,14 +56,20 @@ func (r *InformationGainRatioRuleGenerator) GetSplitRuleFromSelection(considered
 		var informationGain float64
 		var localEntropy float64
 		var splitVal float64
+		var proposedClassDist map[string]map[string]int
 		if fAttr, ok := s.(*base.FloatAttribute); ok {
 			localEntropy, splitVal = getNumericAttributeEntropy(f, fAttr)
+			proposedClassDist = base.GetClassDistributionAfterThreshold(f, fAttr, splitVal)
 		} else {
-			proposedClassDist := base.GetClassDistributionAfterSplit(f, s)
+			proposedClassDist = base.GetClassDistributionAfterSplit(f, s)
 			localEntropy = getSplitEntropy(proposedClassDist)
 		}
 		informationGain = baseEntropy - localEntropy
-		informationGainRatio := informationGain / localEntropy
+		// An Attribute which doesn't split the rows tells nothing
+		informationGainRatio := 0.0
+		if len(proposedClassDist) > 1 {
+			informationGainRatio = informationGain / getSplitInformation(proposedClassDist)
+		}
 		if informationGainRatio > maxRatio {
 			maxRatio = informationGainRatio
 			selectedAttribute = s
@@ -74,3 +80,15 @@ func (r *InformationGainRatioRuleGenerator) GetSplitRuleFromSelection(considered
 	// Pick the one which maximises IG
 	return &DecisionTreeRule{selectedAttribute, selectedVal}
 }
+
+// getSplitInformation determines the entropy of the sizes of the parts
+// a split divides the rows into.
+func getSplitInformation(s map[string]map[string]int) float64 {
+	sizes := make(map[string]int)
+	for a := range s {
+		for c := range s[a] {
+			sizes[a] += s[a][c]
+		}
+	}
+	return getBaseEntropy(sizes)
+}
-- 
2.43.0


From 1c716fd00c86b10332a40f149d614487b7199582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 40/94] fix: random trees consider at most the attributes there
 are

---
 trees/random.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trees/random.go b/trees/random.go
index c5b44ed..6760433 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -24,7 +24,7 @@ func (r *RandomTreeRuleGenerator) GenerateSplitRule(f base.FixedDataGrid) *Decis
 
 	attrCounter := 0
 	for {
-		if len(consideredAttributes) >= r.Attributes {
+		if len(consideredAttributes) >= r.Attributes || len(consideredAttributes) >= maximumAttribute {
 			break
 		}
 		selectedAttrIndex := rand.Intn(maximumAttribute)
-- 
2.43.0


From 5b8501afaa94fe16bc8838e9dba3a530256fd495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 41/94] fix: decision trees split on the last remaining
 attribute too

---
 trees/id3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index f32e88f..b34e611 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -222,8 +222,7 @@ func InferID3Tree(from base.FixedDataGrid, with RuleGenerator) *DecisionTreeNode
 
 	// If there are no more Attributes left to split on,
 	// return a DecisionTreeLeaf with the majority class
-	cols, _ := from.Size()
-	if cols == 2 {
+	if len(base.NonClassAttributes(from)) == 0 {
 		ret := &DecisionTreeNode{
 			LeafNode,
 			nil,
@@ -249,6 +248,7 @@ func InferID3Tree(from base.FixedDataGrid, with RuleGenerator) *DecisionTreeNode
 	splitRule := with.GenerateSplitRule(from)
 	if splitRule == nil || splitRule.SplitAttr == nil {
 		// Can't determine, just return what we have
+		ret.Type = LeafNode
 		return ret
 	}
 
-- 
2.43.0


From 67c9e2caf52bc5898882ec2efd32ea48098289e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 42/94] fix: pruning splits numeric attributes at the node's
 threshold

---
 trees/id3.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index b34e611..3c90eeb 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -101,6 +101,14 @@ func (d *DecisionTreeRule) String() string {
 	return fmt.Sprintf("DecisionTreeRule(%s)", d.SplitAttr.GetName())
 }
 
+// decompose divides the instances into those belonging to each child.
+func (d *DecisionTreeRule) decompose(from base.FixedDataGrid) map[string]base.FixedDataGrid {
+	if _, ok := d.SplitAttr.(*base.FloatAttribute); ok {
+		return base.DecomposeOnNumericAttributeThreshold(from, d.SplitAttr, d.SplitVal)
+	}
+	return base.DecomposeOnAttributeValues(from, d.SplitAttr)
+}
+
 // DecisionTreeNode represents a given portion of a decision tree.
 type DecisionTreeNode struct {
 	Type      NodeType                     `json:"node_type"`
@@ -253,13 +261,7 @@ func InferID3Tree(from base.FixedDataGrid, with RuleGenerator) *DecisionTreeNode
 	}
 
 	// Split the attributes based on this attribute's value
-	var splitInstances map[string]base.FixedDataGrid
-	if _, ok := splitRule.SplitAttr.(*base.FloatAttribute); ok {
-		splitInstances = base.DecomposeOnNumericAttributeThreshold(from,
-			splitRule.SplitAttr, splitRule.SplitVal)
-	} else {
-		splitInstances = base.DecomposeOnAttributeValues(from, splitRule.SplitAttr)
-	}
+	splitInstances := splitRule.decompose(from)
 	// Create new children from these attributes
 	ret.Children = make(map[string]*DecisionTreeNode)
 	for k := range splitInstances {
@@ -323,7 +325,7 @@ func (d *DecisionTreeNode) Prune(using base.FixedDataGrid) {
 	}
 
 	// Recursively prune children of this node
-	sub := base.DecomposeOnAttributeValues(using, d.SplitRule.SplitAttr)
+	sub := d.SplitRule.decompose(using)
 	for k := range d.Children {
 		if sub[k] == nil {
 			continue
-- 
2.43.0


From ba8a7ee95128758640df752f0a9d305b9740094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 43/94] fix: saving an ID3 tree finishes the file

---
 trees/id3.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index 3c90eeb..6ffefff 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -572,8 +572,12 @@ func (t *ID3DecisionTree) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Printf("writer: %v", writer)
-	return t.SaveWithPrefix(writer, "")
+	err = t.SaveWithPrefix(writer, "")
+	if err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (t *ID3DecisionTree) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
-- 
2.43.0


From eeac3f9fdb167ab571259f07db76a8975d1330c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 44/94] fix: CART classifiers predict the majority label when
 there is no split

---
 trees/cart_classifier.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index daf6a29..cc8a143 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -192,13 +192,8 @@ func (tree *CARTDecisionTreeClassifier) Fit(X base.FixedDataGrid) error {
 // Stop If depth reaches maxDepth or nodes are pure
 func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []int64, labels []int64, upperNode classifierNode, criterion string, maxDepth int64, depth int64) (classifierNode, error) {
 
-	// Ensure that we have not reached maxDepth. maxDepth =-1 means split until nodes are pure
 	depth++
 
-	if maxDepth != -1 && depth > maxDepth {
-		return upperNode, nil
-	}
-
 	numFeatures := len(data[0])
 	var bestGini, origGini float64
 	var err error
@@ -207,6 +202,13 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 	if err != nil {
 		return upperNode, err
 	}
+	// Until there's a split, both sides predict the same
+	upperNode.RightLabel = upperNode.LeftLabel
+
+	// Ensure that we have not reached maxDepth. maxDepth =-1 means split until nodes are pure
+	if maxDepth != -1 && depth > maxDepth {
+		return upperNode, nil
+	}
 
 	bestGini = origGini
 
-- 
2.43.0


From 7d2855a71c081a3a9ceff9b4a83e72cea0244d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 45/94] fix: CART regressors predict the mean when there is no
 split

---
 trees/cart_regressor.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 69ae9d6..6426977 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -179,13 +179,8 @@ func (tree *CARTDecisionTreeRegressor) Fit(X base.FixedDataGrid) error {
 // Recursive function - stops if maxDepth is reached or nodes are pure
 func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []float64, upperNode regressorNode, criterion string, maxDepth int64, depth int64) (regressorNode, error) {
 
-	// Ensure that we have not reached maxDepth. maxDepth =-1 means split until nodes are pure
 	depth++
 
-	if depth > maxDepth && maxDepth != -1 {
-		return upperNode, nil
-	}
-
 	numFeatures := len(data[0])
 	var bestLoss, origLoss float64
 	var err error
@@ -193,6 +188,13 @@ func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []fl
 	if err != nil {
 		return upperNode, err
 	}
+	// Until there's a split, both sides predict the same
+	upperNode.RightPred = upperNode.LeftPred
+
+	// Ensure that we have not reached maxDepth. maxDepth =-1 means split until nodes are pure
+	if depth > maxDepth && maxDepth != -1 {
+		return upperNode, nil
+	}
 
 	bestLoss = origLoss
 
-- 
2.43.0


From 64429b996437a7d961ba2945f285fd787df60f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 46/94] fix: isolation trees which cannot be split count as
 leaves of all their rows

---
 trees/isolation.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trees/isolation.go b/trees/isolation.go
index 3f83c90..2655c29 100644
--- a/trees/isolation.go
+++ b/trees/isolation.go
@@ -81,6 +81,8 @@ func buildTree(data [][]float64, upperNode regressorNode, depth int, maxDepth in
 	upperNode.isNodeNeeded = true
 	if (depth > maxDepth) || (len(data) <= 1) || !checkData(data) {
 		upperNode.isNodeNeeded = false
+		upperNode.LeftPred = float64(len(data))
+		upperNode.RightPred = float64(len(data))
 		return upperNode
 	}
 
@@ -154,6 +156,14 @@ func (iForest *IsolationForest) Fit(X base.FixedDataGrid) {
 
 // Calculate the path length to reach a leaf node for a datapoint. Outliers have smaller path lengths than standard data points.
 func pathLength(tree regressorNode, instance []float64, path float64) float64 {
+	// A tree without any split is a single leaf
+	if !tree.isNodeNeeded {
+		if tree.LeftPred <= 1 {
+			return path
+		}
+		return path + cFactor(int(tree.LeftPred))
+	}
+
 	path++
 
 	if instance[tree.Feature] <= tree.Threshold {
-- 
2.43.0


From e3bb2669b9610aba1d5aee51ac9d0a13a4e4fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 47/94] fix: bagging stops drawing attributes when all are
 selected

---
 meta/bagging.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/bagging.go b/meta/bagging.go
index 9a063b5..4749289 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -29,7 +29,7 @@ func (b *BaggedModel) generateTrainingAttrs(model int, from base.FixedDataGrid)
 		ret = attrs
 	} else {
 		for {
-			if len(ret) >= b.RandomFeatures {
+			if len(ret) >= b.RandomFeatures || len(ret) >= len(attrs) {
 				break
 			}
 			attrIndex := rand.Intn(len(attrs))
-- 
2.43.0


From 64fce6f55d50c68e864a5646a950cbf173138b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 48/94] fix: saving a one-vs-all model inside another leaves
 the file open

---
 meta/one_v_all.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index e6a7e6f..8a24289 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -254,7 +254,11 @@ func (m *OneVsAllModel) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	return m.SaveWithPrefix(writer, "")
+	if err := m.SaveWithPrefix(writer, ""); err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -324,7 +328,7 @@ func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix
 		}
 	}
 
-	return writer.Close()
+	return nil
 }
 
 func (m *OneVsAllModel) generateAttributes(from base.FixedDataGrid) map[base.Attribute]base.Attribute {
-- 
2.43.0


From 659c7124e60fe4efac24cd5e32ee499bd8ecee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 49/94] fix: naive Bayes accepts classes without any feature

---
 naive/bernoulli_nb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 767a90a..d040023 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -251,8 +251,10 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 	for c, _ := range nb.classInstances {
 		nb.condProb[c] = make([]float64, nb.features)
 		for feat := 0; feat < nb.features; feat++ {
-			classTerms, _ := docsContainingTerm[c]
-			numDocs := classTerms[feat]
+			numDocs := 0
+			if classTerms, ok := docsContainingTerm[c]; ok {
+				numDocs = classTerms[feat]
+			}
 			docsInClass, _ := nb.classInstances[c]
 
 			classCondProb, _ := nb.condProb[c]
-- 
2.43.0


From 034377c52d3d28eededd663c3992c955f8bea029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 50/94] fix: perceptrons write negative answers to the row they
 belong to

---
 perceptron/average.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index b4d0249..25786e9 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -132,7 +132,7 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 		if result > 0.0 {
 			ret.Set(classSpec, i, base.PackU64ToBytes(1))
 		} else {
-			ret.Set(classSpec, 1, []byte{0, 0, 0, 0, 0, 0, 0, 0})
+			ret.Set(classSpec, i, []byte{0, 0, 0, 0, 0, 0, 0, 0})
 		}
 	}
 
-- 
2.43.0


From ab45a881bedad8e6769fa1bd746bc49651120cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 51/94] fix: linear models see negative feature values when
 predicting

---
 linear_models/liblinear.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_models/liblinear.go b/linear_models/liblinear.go
index 47e7456..d13ff38 100644
--- a/linear_models/liblinear.go
+++ b/linear_models/liblinear.go
@@ -90,7 +90,7 @@ func Predict(model *Model, x []float64) float64 {
 func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 	n_ele := 0
 	for i := 0; i < len(x); i++ {
-		if x[i] > 0 {
+		if x[i] != 0 {
 			n_ele++
 		}
 	}
@@ -99,7 +99,7 @@ func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 	c_x := make([]C.struct_feature_node, n_ele)
 	j := 0
 	for i := 0; i < len(x); i++ {
-		if x[i] > 0 {
+		if x[i] != 0 {
 			c_x[j].index = C.int(i + 1)
 			c_x[j].value = C.double(x[i])
 			j++
-- 
2.43.0


From 8ad56ad1f817e2b2dc8185dc2d2ac4966fc02525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 52/94] fix: LazilyFilteredInstances lists class attributes in
 column order

---
 base/filtered.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/filtered.go b/base/filtered.go
index 789f825..43e8ab2 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -133,7 +133,7 @@ func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
 // by the Filter.
 func (l *LazilyFilteredInstances) AllClassAttributes() []Attribute {
 	ret := make([]Attribute, 0)
-	for a := range l.classAttrs {
+	for _, a := range l.AllAttributes() {
 		if l.classAttrs[a] {
 			ret = append(ret, a)
 		}
-- 
2.43.0


From 746ee7cac9dcf8637a2e4ea043dcb75cb7495a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 53/94] fix: layered networks with hidden layers predict from
 the output nodes

---
 neural/layered.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural/layered.go b/neural/layered.go
index c1daee9..bdfef8d 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -197,7 +197,7 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 		m.attrs[a] = attrCounter
 		trainingAttrs[a] = attrCounter
 	}
-	m.classAttrOffset = attrCounter + 1
+	m.classAttrOffset = attrCounter + 1 + hiddenSize
 	for _, a := range classAttrsVec {
 		attrCounter++
 		m.attrs[a] = attrCounter + hiddenSize
-- 
2.43.0


From 39fcaee3464570a5c99764b26608ed5b67cf25b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 54/94] fix: layered networks can be fitted again

---
 neural/layered.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural/layered.go b/neural/layered.go
index bdfef8d..f1eacfe 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -192,6 +192,8 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 	trainingAttrs := make(map[base.Attribute]int)
 	classAttrs := make(map[base.Attribute]int)
 	attrCounter := 0
+	m.attrs = make(map[base.Attribute]int)
+	m.classAttrCount = 0
 	for i, a := range inputAttrsVec {
 		attrCounter = i
 		m.attrs[a] = attrCounter
-- 
2.43.0


From a3dd5f4cc72803fab507edc78860ce49c0f32e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 55/94] fix: layered networks predict both values of two-valued
 classes

---
 neural/layered.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neural/layered.go b/neural/layered.go
index f1eacfe..1d227a4 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -147,6 +147,13 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 				}
 			}
 			maxIndex -= m.classAttrOffset
+			if m.classAttrCount == 1 {
+				// A two-valued class has a single output
+				maxIndex = 0
+				if a.At(m.classAttrOffset, 0) > 0.5 {
+					maxIndex = 1
+				}
+			}
 			ret.Set(outputAs[0], rc, base.PackU64ToBytes(uint64(maxIndex)))
 		}
 		return true, nil
-- 
2.43.0


From bcc2b68b8887613597853ff2e809fa36587354ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 56/94] fix: layered networks recognise attributes that were
 converted anew

---
 neural/layered.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index 1d227a4..52b16d3 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -64,6 +64,19 @@ func (m *MultiLayerNet) convertToFloatInsts(X base.FixedDataGrid) base.FixedData
 	return insts
 }
 
+// node returns the index of the node which stands for an Attribute
+func (m *MultiLayerNet) node(a base.Attribute) (int, bool) {
+	if i, ok := m.attrs[a]; ok {
+		return i, true
+	}
+	for b, i := range m.attrs {
+		if b.Equals(a) {
+			return i, true
+		}
+	}
+	return 0, false
+}
+
 // Predict uses the underlying network to produce predictions for the
 // class variables of X.
 //
@@ -121,7 +134,7 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 		}
 		// Build the activation vector
 		for i, vb := range row {
-			if cIndex, ok := m.attrs[inputAs[i].GetAttribute()]; !ok {
+			if cIndex, ok := m.node(inputAs[i].GetAttribute()); !ok {
 				panic("Can't resolve the Attribute!")
 			} else {
 				a.Set(cIndex, 0, base.UnpackBytesToFloat(vb))
@@ -133,7 +146,10 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 		// Decide which class to set
 		if floatMode > 0 {
 			for _, as := range outputAs {
-				cIndex := m.attrs[as.GetAttribute()]
+				cIndex, ok := m.node(as.GetAttribute())
+				if !ok {
+					panic("Can't resolve the Attribute!")
+				}
 				ret.Set(as, rc, base.PackFloatToBytes(a.At(cIndex, 0)))
 			}
 		} else {
-- 
2.43.0


From 517037cafe36391ef937b5b569535ca10cb4b4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 57/94] fix: layered networks initialise the biases of their
 output nodes

---
 neural/layered.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural/layered.go b/neural/layered.go
index 52b16d3..8b9d7f5 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -266,7 +266,7 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 	}
 
 	// Initialise biases for output layer
-	for i := 0; i < len(classAttrsVec); i++ {
+	for i := 1; i <= len(classAttrsVec); i++ {
 		nodeOffset := layerOffset + i
 		m.network.SetBias(nodeOffset, rand.NormFloat64()*0.1)
 	}
-- 
2.43.0


From 0eb781a05637d419acf7fc785605856718e30327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:59 +0000
Subject: [PATCH 58/94] fix: KNN classifiers can be saved inside another model

---
 knn/knn.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index a10c742..351eb36 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -352,18 +352,22 @@ func (KNN *KNNClassifier) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Printf("writer: %v", writer)
-	return KNN.SaveWithPrefix(writer, "")
+	if err := KNN.SaveWithPrefix(writer, ""); err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 // SaveWithPrefix outputs KNN as part of another file.
 func (KNN *KNNClassifier) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
-	err := writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
-	if err != nil {
-		return err
+	// The file's own METADATA has already been written
+	if prefix != "" {
+		if err := writer.WriteMetadataAtPrefix(prefix, KNN.GetMetadata()); err != nil {
+			return err
+		}
 	}
-	err = writer.Close()
-	return err
+	return writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
 }
 
 // Load reloads a given KNN classifier when it's the only thing in the output file.
-- 
2.43.0


From 4a94c62f5d0b01af14ea110a31218f45dae2f6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:16 +0000
Subject: [PATCH 59/94] fix: a layered network whose outputs are all zero
 predicts a class of the attribute

---
 neural/layered.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index 8b9d7f5..830cefd 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -153,8 +153,8 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 				ret.Set(as, rc, base.PackFloatToBytes(a.At(cIndex, 0)))
 			}
 		} else {
-			maxIndex := 0
-			maxVal := 0.0
+			maxIndex := m.classAttrOffset
+			maxVal := math.Inf(-1)
 			for i := m.classAttrOffset; i < m.classAttrOffset+m.classAttrCount; i++ {
 				val := a.At(i, 0)
 				if val > maxVal {
-- 
2.43.0


From dda0f81fc653ea215a487dde3cfd6c32e478eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:16 +0000
Subject: [PATCH 60/94] fix: the softplus rectifier's derivative in terms of
 its output

---
 neural/funcs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural/funcs.go b/neural/funcs.go
index 48bf3db..344f8b7 100644
--- a/neural/funcs.go
+++ b/neural/funcs.go
@@ -22,5 +22,5 @@ var Linear NeuralFunction = NeuralFunction{
 // https://www.wikiwand.com/en/Rectifier_(neural_networks)
 var SoftplusRectifier NeuralFunction = NeuralFunction{
 	func(v float64) float64 { return math.Log(1 + math.Exp(v)) },
-	func(v float64) float64 { return v * (1 - v) },
+	func(v float64) float64 { return 1 - math.Exp(-v) },
 }
-- 
2.43.0


From 307e2c6e88ac34a42300cde06e21d512c0bf4874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:46 +0000
Subject: [PATCH 61/94] fix: data frames keep the full precision of their
 numbers

---
 base/dataframe_go.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/base/dataframe_go.go b/base/dataframe_go.go
index b5a186f..39385c7 100644
--- a/base/dataframe_go.go
+++ b/base/dataframe_go.go
@@ -1,7 +1,6 @@
 package base
 
 import (
-	"fmt"
 	"reflect"
 	"strconv"
 
@@ -53,9 +52,9 @@ func ConvertDataFrameToInstances(df *dataframe.DataFrame, classAttrIndex int) Fi
 			case int64:
 				val = strconv.FormatInt(v, 10)
 			case float64:
-				val = fmt.Sprintf("%f", v)
+				val = strconv.FormatFloat(v, 'g', -1, 64)
 			case float32:
-				val = fmt.Sprintf("%f", v)
+				val = strconv.FormatFloat(float64(v), 'g', -1, 32)
 			}
 
 			newInst.Set(newSpecs[j], i, newSpecs[j].GetAttribute().GetSysValFromString(val))
-- 
2.43.0


From bb00f0c10a8f3b6f69cc095bc4129818bb27d832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:18 +0000
Subject: [PATCH 62/94] fix: PCA centres the data it transforms and leaves the
 caller's matrix alone

---
 pca/pca.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pca/pca.go b/pca/pca.go
index c6c6837..9924e28 100644
--- a/pca/pca.go
+++ b/pca/pca.go
@@ -8,6 +8,7 @@ import (
 type PCA struct {
 	Num_components int
 	svd            *mat.SVD
+	mean           *mat.Dense
 }
 
 // Number of components. 0 - by default, use number of features as number of components
@@ -24,8 +25,8 @@ func (pca *PCA) FitTransform(X *mat.Dense) *mat.Dense {
 // Fit PCA model
 func (pca *PCA) Fit(X *mat.Dense) *PCA {
 	// Mean to input data
-	M := mean(X)
-	X = matrixSubVector(X, M)
+	pca.mean = mean(X)
+	X = matrixSubVector(mat.DenseCopyOf(X), pca.mean)
 
 	// Get SVD decomposition from data
 	pca.svd = &mat.SVD{}
@@ -47,6 +48,7 @@ func (pca *PCA) Transform(X *mat.Dense) *mat.Dense {
 	}
 
 	num_samples, num_features := X.Dims()
+	X = matrixSubVector(mat.DenseCopyOf(X), pca.mean)
 
 	vTemp := new(mat.Dense)
 	pca.svd.VTo(vTemp)
-- 
2.43.0


From e398d4f4093a6f6c341077834604b9182d3b2e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:07 +0000
Subject: [PATCH 63/94] fix: a random forest loads with the trees it was saved
 with

---
 ensemble/randomforest.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index 0d9492a..734c6b0 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -95,11 +95,21 @@ func (f *RandomForest) Load(filePath string) error {
 }
 
 func (f *RandomForest) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix string) error {
+	size, err := reader.GetU64ForKey(reader.Prefix(prefix, "NUM_CLASSIFIERS"))
+	if err != nil {
+		return base.DescribeError("Can't read NUM_CLASSIFIERS", err)
+	}
+
+	f.ForestSize = int(size)
 	f.Model = new(meta.BaggedModel)
 	for i := 0; i < f.ForestSize; i++ {
 		tree := trees.NewID3DecisionTree(0.00)
 		f.Model.AddModel(tree)
 	}
 
-	return f.Model.LoadWithPrefix(reader, prefix)
+	if err := f.Model.LoadWithPrefix(reader, prefix); err != nil {
+		return err
+	}
+	f.Features = f.Model.RandomFeatures
+	return nil
 }
-- 
2.43.0


From cdb52d7483a09a910d0646ea2e9f36fbb9a56fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:07 +0000
Subject: [PATCH 64/94] fix: bagged models refuse files with another number of
 members

---
 meta/bagging.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/meta/bagging.go b/meta/bagging.go
index 4749289..3f002a2 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -289,6 +289,15 @@ func (b *BaggedModel) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 
 	b.RandomFeatures = int(randomFeatures)
 
+	// Check that there is a model for every classifier
+	numClassifiers, err := reader.GetU64ForKey(reader.Prefix(prefix, "NUM_CLASSIFIERS"))
+	if err != nil {
+		return base.DescribeError("Can't read NUM_CLASSIFIERS", err)
+	}
+	if numClassifiers != uint64(len(b.Models)) {
+		return fmt.Errorf("there are %d models to load %d classifiers into", len(b.Models), numClassifiers)
+	}
+
 	// Reload the classifiers
 	for i, m := range b.Models {
 		clsPrefix := fmt.Sprintf("%s/", pI("CLASSIFIERS", i))
-- 
2.43.0


From 361d00c5df18871f6f4a423d2d77008d007d1d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:07 +0000
Subject: [PATCH 65/94] fix: random trees, random forests and naive Bayes
 models are not saved as KNN classifiers

---
 ensemble/randomforest.go | 2 +-
 naive/bernoulli_nb.go    | 2 +-
 trees/random.go          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index 734c6b0..351ad2b 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -65,7 +65,7 @@ func (f *RandomForest) String() string {
 func (f *RandomForest) GetMetadata() base.ClassifierMetadataV1 {
 	return base.ClassifierMetadataV1{
 		FormatVersion:      1,
-		ClassifierName:     "KNN",
+		ClassifierName:     "RandomForest",
 		ClassifierVersion:  "1.0",
 		ClassifierMetadata: nil,
 	}
diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index d040023..90c6c46 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -63,7 +63,7 @@ func (nb *BernoulliNBClassifier) String() string {
 func (nb *BernoulliNBClassifier) GetMetadata() base.ClassifierMetadataV1 {
 	return base.ClassifierMetadataV1{
 		FormatVersion:      1,
-		ClassifierName:     "KNN",
+		ClassifierName:     "BernoulliNB",
 		ClassifierVersion:  "1.0",
 		ClassifierMetadata: nil,
 	}
diff --git a/trees/random.go b/trees/random.go
index 6760433..aa1cfe4 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -125,7 +125,7 @@ func (rt *RandomTree) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 func (rt *RandomTree) GetMetadata() base.ClassifierMetadataV1 {
 	return base.ClassifierMetadataV1{
 		FormatVersion:      1,
-		ClassifierName:     "KNN",
+		ClassifierName:     "RandomTree",
 		ClassifierVersion:  "1.0",
 		ClassifierMetadata: nil,
 	}
-- 
2.43.0


From 72151b625e26462fd9ff21a57e5a494b6d28b987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:34 +0000
Subject: [PATCH 66/94] fix: views recognise class attributes that are equal to
 theirs

---
 base/view.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/view.go b/base/view.go
index 030d1b6..231693a 100644
--- a/base/view.go
+++ b/base/view.go
@@ -155,13 +155,16 @@ func (v *InstancesView) AddClassAttribute(a Attribute) error {
 	matched := false
 	for _, r := range v.AllAttributes() {
 		if r.Equals(a) {
+			a = r
 			matched = true
+			break
 		}
 	}
 	if !matched {
 		return fmt.Errorf("Attribute has been filtered")
 	}
 
+	v.RemoveClassAttribute(a)
 	v.classAttrs[a] = true
 	return nil
 }
@@ -169,7 +172,11 @@ func (v *InstancesView) AddClassAttribute(a Attribute) error {
 // RemoveClassAttribute removes the given Attribute from the set of
 // class Attributes.
 func (v *InstancesView) RemoveClassAttribute(a Attribute) error {
-	v.classAttrs[a] = false
+	for c := range v.classAttrs {
+		if c.Equals(a) {
+			v.classAttrs[c] = false
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 79e874aa3e62d470b3f3a3d946d4eb88e4b48864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:27 +0000
Subject: [PATCH 67/94] fix: views list their class attributes in the order of
 their attributes

---
 base/view.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/view.go b/base/view.go
index 231693a..dc23969 100644
--- a/base/view.go
+++ b/base/view.go
@@ -189,7 +189,8 @@ func (v *InstancesView) AllClassAttributes() []Attribute {
 			ret = append(ret, a)
 		}
 	}
-	return ret
+	// The map is not ordered, but the Attributes are
+	return AttributeIntersect(v.AllAttributes(), ret)
 }
 
 // Get returns a sequence of bytes stored under a given Attribute
-- 
2.43.0


From a9fcb22ec7a26b5518b28b633778c334c5955874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:55 +0000
Subject: [PATCH 68/94] fix: a decision tree inferred from no rows is a leaf

---
 trees/id3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index 6ffefff..04a9369 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -201,8 +201,8 @@ func InferID3Tree(from base.FixedDataGrid, with RuleGenerator) *DecisionTreeNode
 	classes := base.GetClassDistribution(from)
 	classAttr := getClassAttr(from)
 	// If there's only one class, return a DecisionTreeLeaf with
-	// the only class available
-	if len(classes) == 1 {
+	// the only class available (or without one if there are no rows)
+	if len(classes) <= 1 {
 		maxClass := ""
 		for i := range classes {
 			maxClass = i
-- 
2.43.0


From e60e0b4b9d5d346ff5a5b15bfab9594036740bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:55 +0000
Subject: [PATCH 69/94] fix: ChiMerge merges intervals if there is only one
 class

---
 filters/chimerge.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filters/chimerge.go b/filters/chimerge.go
index da2a99e..0637c18 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -95,8 +95,10 @@ func chiMerge(inst base.FixedDataGrid, attr base.Attribute, sig float64, minrows
 		}
 		// Compute the degress of freedom |classes - 1| * |rows - 1|
 		degsOfFree := len(classes) - 1
-		sigVal := chiSquaredPercentile(degsOfFree, minChiVal)
-		if sigVal < sig {
+		if degsOfFree < 1 {
+			// There's only one class, so nothing tells the rows apart
+			merge = true
+		} else if sigVal := chiSquaredPercentile(degsOfFree, minChiVal); sigVal < sig {
 			merge = true
 		}
 		// If we don't need to merge, then break
-- 
2.43.0


From 87e7b6613af8dd3244737410fbd34d77f073d098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:26 +0000
Subject: [PATCH 70/94] fix: writing instances to a CSV file hides write errors

---
 base/serialize_instances.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 68b1cda..3cdc22b 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -34,12 +34,15 @@ func SerializeInstancesToCSV(inst FixedDataGrid, path string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
-		f.Sync()
-		f.Close()
-	}()
+	defer f.Close()
 
-	return SerializeInstancesToCSVStream(inst, f)
+	if err := SerializeInstancesToCSVStream(inst, f); err != nil {
+		return err
+	}
+	if err := f.Sync(); err != nil {
+		return fmt.Errorf("Couldn't flush file: %s", err)
+	}
+	return f.Close()
 }
 
 // SerializeInstancesToCSVStream outputs a FixedDataGrid into a CSV file format, via the io.Writer stream.
@@ -60,21 +63,26 @@ func SerializeInstancesToCSVStream(inst FixedDataGrid, f io.Writer) error {
 	for i, v := range allAttrs {
 		headerRow[i] = v.GetName()
 	}
-	w.Write(headerRow)
+	if err := w.Write(headerRow); err != nil {
+		return err
+	}
 
 	specs := ResolveAttributes(inst, allAttrs)
 	curRow := make([]string, colCount)
-	inst.MapOverRows(specs, func(row [][]byte, rowNo int) (bool, error) {
+	err := inst.MapOverRows(specs, func(row [][]byte, rowNo int) (bool, error) {
 		for i, v := range row {
 			attr := allAttrs[i]
 			curRow[i] = attr.GetStringFromSysVal(v)
 		}
-		w.Write(curRow)
-		return true, nil
+		err := w.Write(curRow)
+		return err == nil, err
 	})
+	if err != nil {
+		return err
+	}
 
 	w.Flush()
-	return nil
+	return w.Error()
 }
 
 // DeserializeInstancesFromTarReader returns DenseInstances from a FunctionalTarReader with the name prefix.
-- 
2.43.0


From 59d04a5ee02a86b2136ae585ef587c0923cb6d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:26 +0000
Subject: [PATCH 71/94] fix: writing instances to an ARFF file hides write
 errors

---
 base/arff.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 326bf4e..2e7370d 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -37,11 +37,16 @@ func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []
 	}
 	defer f.Close()
 
-	return SerializeInstancesToWriterDenseARFFWithAttributes(f, inst, rawAttrs, relation)
-
+	if err := SerializeInstancesToWriterDenseARFFWithAttributes(f, inst, rawAttrs, relation); err != nil {
+		return err
+	}
+	return f.Close()
 }
 
-func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDataGrid, rawAttrs []Attribute, relation string) error {
+func SerializeInstancesToWriterDenseARFFWithAttributes(out io.Writer, inst FixedDataGrid, rawAttrs []Attribute, relation string) error {
+	// The buffer remembers the first write error
+	w := bufio.NewWriter(out)
+
 	// Write @relation header
 	fmt.Fprintf(w, "@relation %s\n\n", relation)
 
@@ -61,7 +66,7 @@ func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDa
 	fmt.Fprint(w, "\n@data\n")
 
 	buf := make([]string, len(attrs))
-	inst.MapOverRows(attrs, func(val [][]byte, row int) (bool, error) {
+	err := inst.MapOverRows(attrs, func(val [][]byte, row int) (bool, error) {
 		for i, v := range val {
 			buf[i] = attrs[i].attr.GetStringFromSysVal(v)
 		}
@@ -69,8 +74,11 @@ func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDa
 		fmt.Fprint(w, "\n")
 		return true, nil
 	})
+	if err != nil {
+		return err
+	}
 
-	return nil
+	return w.Flush()
 }
 
 // ParseARFFGetRows returns the number of data rows in an ARFF file.
-- 
2.43.0


From 725e6d821ec28be10f3a3bed92a791dc80973c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:26 +0000
Subject: [PATCH 72/94] fix: instances written to a file leave it open after an
 error

---
 base/serialize_instances.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 3cdc22b..ce28f9a 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -16,6 +16,8 @@ func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
+
 	err = SerializeInstances(inst, f)
 	if err != nil {
 		return err
@@ -24,8 +26,7 @@ func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
 	if err != nil {
 		return fmt.Errorf("Couldn't flush file: %s", err)
 	}
-	f.Close()
-	return nil
+	return f.Close()
 }
 
 // SerializesInstancesToCSV converts a FixedDataGrid into a CSV file format.
-- 
2.43.0


From ccfe6947cab6ada3b6c5c6709f5d426eb362a8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:26 +0000
Subject: [PATCH 73/94] fix: saving a model hides errors of writing its end

---
 ensemble/multisvc.go       |  4 ++--
 ensemble/randomforest.go   |  8 +++++---
 linear_models/linearsvc.go | 10 +++++-----
 meta/bagging.go            |  8 +++++---
 naive/bernoulli_nb.go      |  8 +++++---
 trees/random.go            |  7 ++++---
 6 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 2f29780..61c52b7 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -99,10 +99,10 @@ func (m *MultiLinearSVC) Save(filePath string) error {
 	}
 	err = m.SaveWithPrefix(serializer, "")
 	if err != nil {
+		serializer.Close()
 		return fmt.Errorf("Unable to Save(): %v", err)
 	}
-	serializer.Close()
-	return err
+	return serializer.Close()
 }
 
 func (m *MultiLinearSVC) SaveWithPrefix(serializer *base.ClassifierSerializer, prefix string) error {
diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index 351ad2b..38597ea 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -77,9 +77,11 @@ func (f *RandomForest) Save(filePath string) error {
 		return err
 	}
 
-	err = f.SaveWithPrefix(writer, "model")
-	writer.Close()
-	return err
+	if err := f.SaveWithPrefix(writer, "model"); err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (f *RandomForest) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 6166198..cf9f431 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -241,11 +241,11 @@ func (lr *LinearSVC) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
+	if err := lr.SaveWithPrefix(writer, ""); err != nil {
 		writer.Close()
-	}()
-	fmt.Printf("writer: %v", writer)
-	return lr.SaveWithPrefix(writer, "")
+		return err
+	}
+	return writer.Close()
 }
 
 func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -283,7 +283,7 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	if err != nil {
 		return base.DescribeError("Error writing model parameters", err)
 	}
-	writer.WriteBytesForKey(writer.Prefix(prefix, "MODEL"), bytes)
+	err = writer.WriteBytesForKey(writer.Prefix(prefix, "MODEL"), bytes)
 	if err != nil {
 		return base.DescribeError("Error writing model", err)
 	}
diff --git a/meta/bagging.go b/meta/bagging.go
index 3f002a2..943a740 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -189,9 +189,11 @@ func (b *BaggedModel) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	err = b.SaveWithPrefix(writer, "")
-	writer.Close()
-	return err
+	if err := b.SaveWithPrefix(writer, ""); err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (b *BaggedModel) Load(filePath string) error {
diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 90c6c46..c4b9b72 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -74,9 +74,11 @@ func (nb *BernoulliNBClassifier) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	err = nb.SaveWithPrefix(writer, "")
-	writer.Close()
-	return err
+	if err := nb.SaveWithPrefix(writer, ""); err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (nb *BernoulliNBClassifier) Load(filePath string) error {
diff --git a/trees/random.go b/trees/random.go
index aa1cfe4..79300dc 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -95,10 +95,11 @@ func (rt *RandomTree) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
+	if err := rt.SaveWithPrefix(writer, ""); err != nil {
 		writer.Close()
-	}()
-	return rt.SaveWithPrefix(writer, "")
+		return err
+	}
+	return writer.Close()
 }
 
 // SaveWithPrefix outputs this model to a file with a prefix.
-- 
2.43.0


From efc742d38edbe437d42f7959047f7977396aa7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:26 +0000
Subject: [PATCH 74/94] fix: filtered views do not filter attributes that are
 equal to the filter's

---
 base/filtered.go | 51 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index 43e8ab2..181c23f 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -30,9 +30,11 @@ func NewLazilyFilteredInstances(src FixedDataGrid, f Filter) *LazilyFilteredInst
 	unFilteredMap := make(map[Attribute]bool)
 	for _, a := range src.AllAttributes() {
 		unFilteredMap[a] = true
-	}
-	for _, a := range attrs {
-		unFilteredMap[a.Old] = false
+		for _, b := range attrs {
+			if b.Old.Equals(a) {
+				unFilteredMap[a] = false
+			}
+		}
 	}
 
 	// Create the return structure
@@ -65,9 +67,23 @@ func (l *LazilyFilteredInstances) GetAttribute(target Attribute) (AttributeSpec,
 			return ret, nil
 		}
 	}
+	if a := l.unfilteredAttribute(target); a != nil {
+		return l.src.GetAttribute(a)
+	}
 	return ret, fmt.Errorf("Couldn't resolve %s", target)
 }
 
+// unfilteredAttribute returns the Attribute which equals the target and is
+// passed through from the source, or nil.
+func (l *LazilyFilteredInstances) unfilteredAttribute(target Attribute) Attribute {
+	for _, a := range l.src.AllAttributes() {
+		if l.unfilteredMap[a] && a.Equals(target) {
+			return a
+		}
+	}
+	return nil
+}
+
 // AllAttributes returns every Attribute defined in the source datagrid,
 // in addition to the revised Attributes created by the filter.
 func (l *LazilyFilteredInstances) AllAttributes() []Attribute {
@@ -100,6 +116,10 @@ func (l *LazilyFilteredInstances) AddClassAttribute(cls Attribute) error {
 			matched = true
 		}
 	}
+	if a := l.unfilteredAttribute(cls); !matched && a != nil {
+		l.classAttrs[a] = true
+		return nil
+	}
 	if !matched {
 		return fmt.Errorf("Attribute %s could not be resolved", cls)
 	}
@@ -120,6 +140,10 @@ func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
 			matched = true
 		}
 	}
+	if a := l.unfilteredAttribute(cls); !matched && a != nil {
+		l.classAttrs[a] = false
+		return nil
+	}
 	if !matched {
 		return fmt.Errorf("Attribute %s could not be resolved", cls)
 	}
@@ -141,25 +165,26 @@ func (l *LazilyFilteredInstances) AllClassAttributes() []Attribute {
 	return ret
 }
 
-func (l *LazilyFilteredInstances) transformNewToOldAttribute(as AttributeSpec) (AttributeSpec, error) {
+// transformNewToOldAttribute finds the source of an Attribute, and what the filter calls it.
+func (l *LazilyFilteredInstances) transformNewToOldAttribute(as AttributeSpec) (AttributeSpec, Attribute, error) {
 	if l.unfilteredMap[as.GetAttribute()] {
-		return as, nil
+		return as, as.attr, nil
 	}
 	for _, a := range l.attrs {
 		if a.Old.Equals(as.attr) || a.New.Equals(as.attr) {
 			as, err := l.src.GetAttribute(a.Old)
 			if err != nil {
-				return AttributeSpec{}, fmt.Errorf("Internal error in Attribute resolution: '%s'", err)
+				return AttributeSpec{}, nil, fmt.Errorf("Internal error in Attribute resolution: '%s'", err)
 			}
-			return as, nil
+			return as, a.Old, nil
 		}
 	}
-	return AttributeSpec{}, fmt.Errorf("No matching Attribute")
+	return AttributeSpec{}, nil, fmt.Errorf("No matching Attribute")
 }
 
 // Get returns a transformed byte slice stored at a given AttributeSpec and row.
 func (l *LazilyFilteredInstances) Get(as AttributeSpec, row int) []byte {
-	asOld, err := l.transformNewToOldAttribute(as)
+	asOld, old, err := l.transformNewToOldAttribute(as)
 	if err != nil {
 		panic(fmt.Sprintf("Attribute %s could not be resolved. (Error: %s)", as.String(), err.Error()))
 	}
@@ -167,7 +192,7 @@ func (l *LazilyFilteredInstances) Get(as AttributeSpec, row int) []byte {
 	if l.unfilteredMap[as.attr] {
 		return byteSeq
 	}
-	newByteSeq := l.filter.Transform(asOld.attr, as.attr, byteSeq)
+	newByteSeq := l.filter.Transform(old, as.attr, byteSeq)
 	return newByteSeq
 }
 
@@ -178,12 +203,14 @@ func (l *LazilyFilteredInstances) MapOverRows(asv []AttributeSpec, mapFunc func(
 	// Have to transform each item of asv into an
 	// AttributeSpec in the original
 	oldAsv := make([]AttributeSpec, len(asv))
+	oldAttrs := make([]Attribute, len(asv))
 	for i, a := range asv {
-		old, err := l.transformNewToOldAttribute(a)
+		old, attr, err := l.transformNewToOldAttribute(a)
 		if err != nil {
 			return fmt.Errorf("Couldn't fetch old Attribute: '%s'", a.String())
 		}
 		oldAsv[i] = old
+		oldAttrs[i] = attr
 	}
 
 	// Then map over each row in the original
@@ -194,7 +221,7 @@ func (l *LazilyFilteredInstances) MapOverRows(asv []AttributeSpec, mapFunc func(
 				newRowBuf[i] = b
 				continue
 			}
-			newField := l.filter.Transform(oldAsv[i].attr, asv[i].attr, b)
+			newField := l.filter.Transform(oldAttrs[i], asv[i].attr, b)
 			newRowBuf[i] = newField
 		}
 		return mapFunc(newRowBuf, oldRowNo)
-- 
2.43.0


From 595b34b79397892b8e1593d6acaf8d273dd68007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:15 +0000
Subject: [PATCH 75/94] fix: discretisers ignore chosen attributes that are
 equal to those of their data

---
 filters/disc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/disc.go b/filters/disc.go
index 940829e..f564692 100644
--- a/filters/disc.go
+++ b/filters/disc.go
@@ -17,11 +17,11 @@ func (d *AbstractDiscretizeFilter) AddAttribute(a base.Attribute) error {
 	if _, ok := a.(*base.FloatAttribute); !ok {
 		return fmt.Errorf("%s is not a FloatAttribute", a)
 	}
-	_, err := d.train.GetAttribute(a)
+	as, err := d.train.GetAttribute(a)
 	if err != nil {
 		return fmt.Errorf("invalid attribute")
 	}
-	d.attrs[a] = true
+	d.attrs[as.GetAttribute()] = true
 	return nil
 }
 
-- 
2.43.0


From af418aebf7840cb6fe955e6bf08d5c935d63b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:12 +0000
Subject: [PATCH 76/94] fix: linear classifiers leave temporary files behind
 and hide errors of writing them

---
 linear_models/linearsvc.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index cf9f431..953566e 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -266,6 +266,7 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	}
 	defer func() {
 		f.Close()
+		os.Remove(f.Name())
 	}()
 
 	err = Export(lr.model, f.Name())
@@ -315,11 +316,17 @@ func (lr *LinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 	}
 
 	f, err := ioutil.TempFile(os.TempDir(), "linear")
+	if err != nil {
+		return base.DescribeError("Unable to reload the model", err)
+	}
 	defer func() {
 		f.Close()
+		os.Remove(f.Name())
 	}()
 
-	f.WriteAt(modelBytes, 0)
+	if _, err := f.WriteAt(modelBytes, 0); err != nil {
+		return base.DescribeError("Unable to reload the model", err)
+	}
 
 	lr.model = &Model{}
 
-- 
2.43.0


From e398df94a0a91771e3508e883032df8bd11eae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:01 +0000
Subject: [PATCH 77/94] fix: instances saved without their data can't be read,
 nor anything after them

---
 base/serialize_instances.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index ce28f9a..2e0e2f4 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -277,6 +277,9 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 
 	// Now write the dimensions of the dataset
 	attrCount, rowCount := inst.Size()
+	if !includeData {
+		rowCount = 0
+	}
 	hdr = &tar.Header{
 		Name: p("DIMS"),
 		Size: 16,
@@ -316,12 +319,14 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 
 	// First, estimate the amount of data we'll need...
 	dataLength := int64(0)
-	inst.MapOverRows(allSpecs, func(val [][]byte, row int) (bool, error) {
-		for _, v := range val {
-			dataLength += int64(len(v))
-		}
-		return true, nil
-	})
+	if includeData {
+		inst.MapOverRows(allSpecs, func(val [][]byte, row int) (bool, error) {
+			for _, v := range val {
+				dataLength += int64(len(v))
+			}
+			return true, nil
+		})
+	}
 
 	// Then write the header
 	hdr = &tar.Header{
-- 
2.43.0


From 299e2ddb4222ca7f04a3e9190561ba8b20b9cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:36 +0000
Subject: [PATCH 78/94] fix: ARFF files with very long lines are read without
 their end

---
 base/arff.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 2e7370d..c1be7f2 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -115,7 +115,7 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			}
 		}
 	}
-	return count, nil
+	return count, scanner.Err()
 }
 
 // ParseARFFGetAttributes returns the set of Attributes represented in this ARFF
@@ -191,6 +191,10 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 		ret = append(ret, attr)
 	}
 
+	if err := scanner.Err(); err != nil {
+		panic(err)
+	}
+
 	maxPrecision, err := ParseCSVEstimateFilePrecision(filepath)
 	if err != nil {
 		panic(err)
@@ -254,7 +258,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
 
 // ParseDenseARFFToInstances parses the dense ARFF File into a FixedDataGrid
-- 
2.43.0


From 616ec18ed213800857221328561880bed66160ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:36 +0000
Subject: [PATCH 79/94] fix: rows of ARFF files are counted and read by
 different rules

---
 base/arff.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index c1be7f2..31c597c 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -95,24 +95,16 @@ func ParseARFFGetRows(filepath string) (int, error) {
 	scanner := bufio.NewScanner(f)
 	for scanner.Scan() {
 		line := scanner.Text()
-		if len(line) == 0 {
+		if strings.HasPrefix(line, "%") {
 			continue
 		}
+		line = strings.TrimSpace(line)
 		if counting {
-			if line[0] == '@' {
-				continue
-			}
-			if line[0] == '%' {
-				continue
-			}
-			count++
-			continue
-		}
-		if line[0] == '@' {
-			line = strings.TrimSpace(strings.ToLower(line))
-			if line == "@data" {
-				counting = true
+			if len(line) > 0 {
+				count++
 			}
+		} else if strings.ToLower(line) == "@data" {
+			counting = true
 		}
 	}
 	return count, scanner.Err()
@@ -229,6 +221,9 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 			continue
 		}
 		if reading {
+			if len(strings.TrimSpace(line)) == 0 {
+				continue
+			}
 			buf := bytes.NewBuffer([]byte(line))
 			reader := csv.NewReader(buf)
 			for {
-- 
2.43.0


From 7de4185611fdd5a02e93cb187d3bcb1b682356d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:36 +0000
Subject: [PATCH 80/94] fix: ARFF rows with missing values are read as zeros,
 those with too many crash

---
 base/arff.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/arff.go b/base/arff.go
index 31c597c..78aeb28 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -206,7 +206,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
-				panic(err)
+				panic(r)
 			}
 			err = fmt.Errorf("Error at line %d (error %s)", rowCounter, r.(error))
 		}
@@ -233,6 +233,9 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 				} else if err != nil {
 					return err
 				}
+				if len(r) != len(specs) {
+					return fmt.Errorf("Expected %d value(s), found %d on line '%s'", len(specs), len(r), line)
+				}
 				for i, v := range r {
 					v = strings.TrimSpace(v)
 					if a, ok := specs[i].attr.(*CategoricalAttribute); ok {
-- 
2.43.0


From 550fcc027b82a3307d65e0df2ac9046fd80630d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:36 +0000
Subject: [PATCH 81/94] fix: ARFF rows which begin like a comment are lost

---
 base/arff.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/arff.go b/base/arff.go
index 78aeb28..9777c3d 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -70,6 +70,9 @@ func SerializeInstancesToWriterDenseARFFWithAttributes(out io.Writer, inst Fixed
 		for i, v := range val {
 			buf[i] = attrs[i].attr.GetStringFromSysVal(v)
 		}
+		if len(buf) > 0 && strings.HasPrefix(buf[0], "%") {
+			buf[0] = fmt.Sprintf("\"%s\"", strings.Replace(buf[0], "\"", "\"\"", -1))
+		}
 		fmt.Fprint(w, strings.Join(buf, ","))
 		fmt.Fprint(w, "\n")
 		return true, nil
-- 
2.43.0


From ff0c4543897d4aa607a56f7d437bed94a774d631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:02 +0000
Subject: [PATCH 82/94] fix: empty CSV files crash

---
 base/csv.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/base/csv.go b/base/csv.go
index 0cee9b7..3c95a66 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -200,9 +200,21 @@ func ParseCSVBuildInstancesFromReader(r io.ReadSeeker, attrs []Attribute, hasHea
 	return nil
 }
 
+// recoverError turns a panic with an error into that error.
+func recoverError(err *error) {
+	if r := recover(); r != nil {
+		e, ok := r.(error)
+		if _, crash := r.(runtime.Error); crash || !ok {
+			panic(r)
+		}
+		*err = e
+	}
+}
+
 // ParseCSVToInstancesFromReader reads the reader containing CSV and returns
 // the read Instances.
 func ParseCSVToInstancesFromReader(r io.ReadSeeker, hasHeaders bool) (instances *DenseInstances, err error) {
+	defer recoverError(&err)
 	// Read the number of rows in the file
 	rowCount, err := ParseCSVGetRowsFromReader(r)
 	if err != nil {
@@ -251,6 +263,7 @@ func ParseMatchAttributes(attrs, templateAttrs []Attribute) {
 // ParseCSVToTemplatedInstancesFromReader reads the reader containing CSV and returns
 // the read Instances, using another already read DenseInstances as a template.
 func ParseCSVToTemplatedInstancesFromReader(r io.ReadSeeker, hasHeaders bool, template *DenseInstances) (instances *DenseInstances, err error) {
+	defer recoverError(&err)
 	// Read the number of rows in the file
 	rowCount, err := ParseCSVGetRowsFromReader(r)
 	if err != nil {
@@ -289,6 +302,7 @@ func ParseCSVToTemplatedInstancesFromReader(r io.ReadSeeker, hasHeaders bool, te
 // and returns the read DenseInstances, but also makes sure to group any Attributes
 // specified in the first argument and also any class Attributes specified in the second
 func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroups, classAttrGroups map[string]string, attrOverrides map[int]Attribute, hasHeaders bool) (instances *DenseInstances, err error) {
+	defer recoverError(&err)
 	// Read row count
 	rowCount, err := ParseCSVGetRowsFromReader(r)
 	if err != nil {
-- 
2.43.0


From 1d42f3d153f99ad21018b2613177f714d011c12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:02 +0000
Subject: [PATCH 83/94] fix: ARFF files without attributes crash

---
 base/arff.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/arff.go b/base/arff.go
index 9777c3d..f88503f 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -282,6 +282,10 @@ func ParseDenseARFFToInstances(filepath string) (ret *DenseInstances, err error)
 	// Get the Attributes we want
 	attrs := ParseARFFGetAttributes(filepath)
 
+	if len(attrs) == 0 {
+		return nil, fmt.Errorf("No attributes in '%s'", filepath)
+	}
+
 	// Allocate return value
 	ret = NewDenseInstances()
 
-- 
2.43.0


From 7f1c2c11843db0bb56189b9348ffda095aec64cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:25 +0000
Subject: [PATCH 84/94] fix: optimised KNN prediction of no rows crashes

---
 knn/knn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/knn/knn.go b/knn/knn.go
index 351eb36..5ec3a88 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -53,6 +53,12 @@ func (KNN *KNNClassifier) canUseOptimisations(what base.FixedDataGrid) bool {
 	if !base.CheckStrictlyCompatible(what, KNN.TrainingData) {
 		return false
 	}
+	// Check that there are rows to compare
+	_, whatRows := what.Size()
+	_, trainRows := KNN.TrainingData.Size()
+	if whatRows == 0 || trainRows == 0 {
+		return false
+	}
 	// Check that the two are DenseInstances
 	whatd, ok1 := what.(*base.DenseInstances)
 	_, ok2 := KNN.TrainingData.(*base.DenseInstances)
-- 
2.43.0


From 3c22083c18af00cbe134019f2ef8baeff2d924a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:25 +0000
Subject: [PATCH 85/94] fix: DBSCAN crashes without rows

---
 clustering/dbscan.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clustering/dbscan.go b/clustering/dbscan.go
index 3870080..9d017b8 100644
--- a/clustering/dbscan.go
+++ b/clustering/dbscan.go
@@ -57,14 +57,17 @@ func computePairwiseDistances(inst base.FixedDataGrid, attrs []base.Attribute, m
 // DBSCAN clusters inst using the parameters allowed in and produces a ClusterId->[RowId] map
 func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error) {
 
+	_, rows := inst.Size()
+	if rows == 0 {
+		return make(ClusterMap), nil
+	}
+
 	// Compute the distances between each possible point
 	dist, err := computePairwiseDistances(inst, params.Attributes, params.Metric)
 	if err != nil {
 		return nil, err
 	}
 
-	_, rows := inst.Size()
-
 	clusterMap := make(map[int][]int)
 	visited := big.NewInt(0)
 	clustered := big.NewInt(0)
-- 
2.43.0


From 72cb881dcb15e7d2553c47d6bf4cb1c7df626159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:42 +0000
Subject: [PATCH 86/94] fix: class attributes come in any order

---
 base/dense.go | 16 ++++++++++++++--
 base/mat.go   |  4 ++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/base/dense.go b/base/dense.go
index abce75b..3c2ba02 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"os"
+	"sort"
 	"sync"
 )
 
@@ -337,11 +338,22 @@ func (inst *DenseInstances) AllClassAttributes() []Attribute {
 // allClassAttributes returns a slice of Attributes which have
 // been designated class Attributes (doesn't lock)
 func (inst *DenseInstances) allClassAttributes() []Attribute {
-	var ret []Attribute
+	var specs []AttributeSpec
 	for a := range inst.classAttrs {
 		if inst.classAttrs[a] {
-			ret = append(ret, a.attr)
+			specs = append(specs, a)
+		}
+	}
+	// The map is not ordered, but the Attributes are
+	sort.Slice(specs, func(i, j int) bool {
+		if specs[i].pond != specs[j].pond {
+			return specs[i].pond < specs[j].pond
 		}
+		return specs[i].position < specs[j].position
+	})
+	var ret []Attribute
+	for _, a := range specs {
+		ret = append(ret, a.attr)
 	}
 	return ret
 }
diff --git a/base/mat.go b/base/mat.go
index 11f35ff..97d22fa 100644
--- a/base/mat.go
+++ b/base/mat.go
@@ -72,9 +72,9 @@ func (m *Mat64Instances) RemoveClassAttribute(a Attribute) error {
 // AllClassAttributes returns every class attribute.
 func (m *Mat64Instances) AllClassAttributes() []Attribute {
 	ret := make([]Attribute, 0)
-	for i := range m.classAttrs {
+	for i, a := range m.attributes {
 		if m.classAttrs[i] {
-			ret = append(ret, m.attributes[i])
+			ret = append(ret, a)
 		}
 	}
 
-- 
2.43.0


From 8afac5eaefb4a42052b004e31e856db033fc6363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:06 +0000
Subject: [PATCH 87/94] fix: loading a MultiLinearSVC keeps its old class
 weights

---
 ensemble/multisvc.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 61c52b7..24d1336 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -159,6 +159,8 @@ func (m *MultiLinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, pre
 		return fmt.Errorf("Can't load parameters: %v", err)
 	}
 
+	// Decoding into a map would keep the weights it has already
+	m.weights = nil
 	err = reader.GetJSONForKey(p("weights"), &m.weights)
 	if err != nil {
 		return fmt.Errorf("Can't load parameters: %v", err)
-- 
2.43.0


From 7e745337d2ae0bc9850d4781aa852221a6226899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:32 +0000
Subject: [PATCH 88/94] fix: predicting adds classes to the queries' attribute

---
 base/util_instances.go | 5 +++++
 trees/id3.go           | 5 ++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 0080fa5..557f3f0 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -15,6 +15,11 @@ func GeneratePredictionVector(from FixedDataGrid) UpdatableDataGrid {
 	_, rowCount := from.Size()
 	ret := NewDenseInstances()
 	for _, a := range classAttrs {
+		// Predictions may be of classes which "from" doesn't have, and
+		// those mustn't be added to an Attribute which others are reading
+		if c, ok := a.(*CategoricalAttribute); ok {
+			a = &CategoricalAttribute{c.Name, append([]string{}, c.values...)}
+		}
 		ret.AddAttribute(a)
 		ret.AddClassAttribute(a)
 	}
diff --git a/trees/id3.go b/trees/id3.go
index 04a9369..e198371 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -378,7 +378,7 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	if err != nil {
 		panic(err)
 	}
-	predAttrs := base.AttributeDifferenceReferences(what.AllAttributes(), predictions.AllClassAttributes())
+	predAttrs := base.AttributeDifferenceReferences(what.AllAttributes(), what.AllClassAttributes())
 	predAttrSpecs := base.ResolveAttributes(what, predAttrs)
 	what.MapOverRows(predAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		cur := d
@@ -441,8 +441,7 @@ func (o ClassesProba) Less(i, j int) bool {
 // Predict class probabilities of the input samples what, returns a sorted array (by probability) of classes, and another array representing it's probabilities
 func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, error) {
 	d := t.Root
-	predictions := base.GeneratePredictionVector(what)
-	predAttrs := base.AttributeDifferenceReferences(what.AllAttributes(), predictions.AllClassAttributes())
+	predAttrs := base.AttributeDifferenceReferences(what.AllAttributes(), what.AllClassAttributes())
 	predAttrSpecs := base.ResolveAttributes(what, predAttrs)
 
 	_, rowCount := what.Size()
-- 
2.43.0


From 7e5e19445395a1e38f0e1160aa7d8b75a439e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:29 +0000
Subject: [PATCH 89/94] fix: reading CSV by a template fails if its categories
 differ by column

---
 base/util_instances.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 557f3f0..43bc84a 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -49,10 +49,16 @@ func CopyDenseInstances(template *DenseInstances, templateAttrs []Attribute) *De
 		if ag, ok := template.agRevMap[s.pond]; !ok {
 			panic(ag)
 		} else {
-			_, err := instances.AddAttributeToAttributeGroup(a, ag)
+			// The template holds these Attributes in one group already, even
+			// where they aren't Compatible (e.g. have different categories)
+			group, err := instances.GetAttributeGroup(ag)
 			if err != nil {
 				panic(err)
 			}
+			if err := group.AddAttribute(a); err != nil {
+				panic(err)
+			}
+			instances.attributes = append(instances.attributes, a)
 		}
 	}
 	return instances
-- 
2.43.0


From 7f0308a86decb692ecb62425b20576e991f47f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:33 +0000
Subject: [PATCH 90/94] fix: linear classifiers panic on data they cannot use,
 and untrained

---
 linear_models/linearsvc.go | 12 +++++++++---
 linear_models/logistic.go  | 12 +++++++++---
 linear_models/util.go      | 21 +++++++++++++++++++++
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 953566e..a08bf1a 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -148,6 +148,9 @@ func NewLinearSVCFromParams(params *LinearSVCParams) (*LinearSVC, error) {
 // Fit automatically weights the class vector (if configured to do so)
 // converts the FixedDataGrid into the right format and trains the model.
 func (lr *LinearSVC) Fit(X base.FixedDataGrid) error {
+	if err := checkTrainingData(X); err != nil {
+		return err
+	}
 
 	var weightVec []float64
 	var weightClasses []C.int
@@ -185,12 +188,15 @@ func (lr *LinearSVC) Fit(X base.FixedDataGrid) error {
 
 // Predict issues predictions from a trained LinearSVC.
 func (lr *LinearSVC) Predict(X base.FixedDataGrid) (base.FixedDataGrid, error) {
+	if lr.model == nil {
+		return nil, NoTrainingDataError
+	}
 
 	// Only support 1 class Attribute
-	classAttrs := X.AllClassAttributes()
-	if len(classAttrs) != 1 {
-		panic(fmt.Sprintf("%d Wrong number of classes", len(classAttrs)))
+	if err := checkNumericClass(X); err != nil {
+		return nil, err
 	}
+	classAttrs := X.AllClassAttributes()
 	// Generate return structure
 	ret := base.GeneratePredictionVector(X)
 	classAttrSpecs := base.ResolveAttributes(ret, classAttrs)
diff --git a/linear_models/logistic.go b/linear_models/logistic.go
index 96c3206..c5cbadc 100644
--- a/linear_models/logistic.go
+++ b/linear_models/logistic.go
@@ -28,6 +28,9 @@ func NewLogisticRegression(penalty string, C float64, eps float64) (*LogisticReg
 }
 
 func (lr *LogisticRegression) Fit(X base.FixedDataGrid) error {
+	if err := checkTrainingData(X); err != nil {
+		return err
+	}
 	problemVec := convertInstancesToProblemVec(X)
 	labelVec := convertInstancesToLabelVec(X)
 	prob := NewProblem(problemVec, labelVec, 0)
@@ -36,12 +39,15 @@ func (lr *LogisticRegression) Fit(X base.FixedDataGrid) error {
 }
 
 func (lr *LogisticRegression) Predict(X base.FixedDataGrid) (base.FixedDataGrid, error) {
+	if lr.model == nil {
+		return nil, NoTrainingDataError
+	}
 
 	// Only support 1 class Attribute
-	classAttrs := X.AllClassAttributes()
-	if len(classAttrs) != 1 {
-		panic(fmt.Sprintf("%d Wrong number of classes", len(classAttrs)))
+	if err := checkNumericClass(X); err != nil {
+		return nil, err
 	}
+	classAttrs := X.AllClassAttributes()
 	// Generate return structure
 	ret := base.GeneratePredictionVector(X)
 	classAttrSpecs := base.ResolveAttributes(ret, classAttrs)
diff --git a/linear_models/util.go b/linear_models/util.go
index ac6b2ce..d6acf82 100644
--- a/linear_models/util.go
+++ b/linear_models/util.go
@@ -5,6 +5,27 @@ import (
 	"github.com/sjwhitworth/golearn/base"
 )
 
+// checkNumericClass returns an error unless there's exactly one class
+// Attribute, and that is a FloatAttribute.
+func checkNumericClass(X base.FixedDataGrid) error {
+	classAttrs := X.AllClassAttributes()
+	if len(classAttrs) != 1 {
+		return fmt.Errorf("%d ClassAttributes (1 expected)", len(classAttrs))
+	}
+	if _, ok := classAttrs[0].(*base.FloatAttribute); !ok {
+		return fmt.Errorf("%s: ClassAttribute must be a FloatAttribute", classAttrs[0])
+	}
+	return nil
+}
+
+// checkTrainingData returns an error unless X has rows and a numeric class.
+func checkTrainingData(X base.FixedDataGrid) error {
+	if _, rows := X.Size(); rows == 0 {
+		return NotEnoughDataError
+	}
+	return checkNumericClass(X)
+}
+
 func generateClassWeightVectorFromDist(X base.FixedDataGrid) []float64 {
 	classDist := base.GetClassDistributionByBinaryFloatValue(X)
 	ret := make([]float64, len(classDist))
-- 
2.43.0


From 7986d767c885ce8e95e660296c6ea7ae48fcbc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:50 +0000
Subject: [PATCH 91/94] fix: corrupt archives panic instead of being reported

---
 base/serialize.go           |  3 +++
 base/serialize_instances.go | 19 ++++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/base/serialize.go b/base/serialize.go
index 5cf7ebe..5de7a47 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -205,6 +205,9 @@ func (c *ClassifierDeserializer) GetU64ForKey(key string) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
+	if len(b) != 8 {
+		return 0, WrapError(fmt.Errorf("%s: expected 8 bytes, got %d", key, len(b)))
+	}
 	return UnpackBytesToU64(b), nil
 }
 
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 2e0e2f4..dd0d822 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -131,6 +131,10 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 		return nil, DescribeError("Unable to deserialize normal attributes", err)
 	}
 
+	if attrCount != len(normalAttrs)+len(cAttrs) {
+		return nil, WrapError(fmt.Errorf("DIMS: expected %d attribute(s), got %d", attrCount, len(normalAttrs)+len(cAttrs)))
+	}
+
 	// Create the return instances
 	ret = NewDenseInstances()
 
@@ -148,11 +152,6 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 		}
 		allAttributes[i+len(normalAttrs)] = v
 	}
-	// Allocate memory
-	err = ret.Extend(int(rowCount))
-	if err != nil {
-		return nil, WrapError(fmt.Errorf("Could not allocate memory"))
-	}
 
 	// Seek through the TAR file until we get to the DATA section
 	reader := tr.Regenerate()
@@ -164,10 +163,20 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 			return nil, WrapError(fmt.Errorf("Error seeking to DATA section: %s", err))
 		}
 		if hdr.Name == p("DATA") {
+			// Every row needs at least a byte per Attribute
+			if rowCount < 0 || (attrCount > 0 && int64(rowCount) > hdr.Size/int64(attrCount)) {
+				return nil, WrapError(fmt.Errorf("DATA section too short for %d row(s)", rowCount))
+			}
 			break
 		}
 	}
 
+	// Allocate memory
+	err = ret.Extend(int(rowCount))
+	if err != nil {
+		return nil, WrapError(fmt.Errorf("Could not allocate memory"))
+	}
+
 	// Resolve AttributeSpecs
 	specs := ResolveAttributes(ret, allAttributes)
 
-- 
2.43.0


From 20f04e85109978e0491402091e165ff58bd7b742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:09 +0000
Subject: [PATCH 92/94] fix: ARFF categories are misread if spaced in ways the
 format allows

---
 base/arff.go | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index f88503f..d367685 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -149,27 +149,13 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 		default:
 			if fields[2][0] == '{' {
 				if strings.HasSuffix(fields[len(fields)-1], "}") {
-					var cats []string
-					if len(fields) > 3 {
-						cats = fields[2:len(fields)]
-					} else {
-						cats = strings.Split(fields[2], ",")
-					}
-					if len(cats) == 0 {
-						panic(fmt.Errorf("Empty categorical field on line '%s'", line))
-					}
-					cats[0] = cats[0][1:]                                            // Remove leading '{'
-					cats[len(cats)-1] = cats[len(cats)-1][:len(cats[len(cats)-1])-1] // Remove trailing '}'
-					for i, v := range cats {                                         // Miaow
-						cats[i] = strings.TrimSpace(v)
-						if strings.HasSuffix(cats[i], ",") {
-							// Strip end comma
-							cats[i] = cats[i][0 : len(cats[i])-1]
-						}
-					}
+					// Everything after the name, spaces and all
+					cats := strings.TrimSpace(line)[len(fields[0]):]
+					cats = strings.TrimSpace(cats)[len(fields[1]):]
+					cats = strings.TrimSpace(cats)
 					attr = NewCategoricalAttribute()
-					for _, v := range cats {
-						attr.GetSysValFromString(v)
+					for _, v := range strings.Split(cats[1:len(cats)-1], ",") {
+						attr.GetSysValFromString(strings.TrimSpace(v))
 					}
 				} else {
 					panic(fmt.Errorf("Missing categorical bracket on line '%s'", line))
-- 
2.43.0


From 15c82da3e595a6acbe3e9d3d94986e5eb5447df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:21 +0000
Subject: [PATCH 93/94] fix: optimised nearest neighbours mistake distances
 which differ little

---
 knn/knn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knn/knn.h b/knn/knn.h
index e785b99..99c67b5 100644
--- a/knn/knn.h
+++ b/knn/knn.h
@@ -4,7 +4,7 @@
 #include <stdint.h>
 
 struct dist {
-    float dist;
+    double dist;
     uint32_t p;
 };
 
-- 
2.43.0


From 7b01a4e536c06cf3214106236cef9683f276f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:49 +0000
Subject: [PATCH 94/94] fix: CART trees can't split at numbers which are huge
 or next to each other

---
 trees/cart_classifier.go |  2 +-
 trees/cart_regressor.go  |  2 +-
 trees/cart_utils.go      | 10 ++++++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index cc8a143..09cb48c 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -238,7 +238,7 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 		// Iterate over all possible thresholds for that feature
 		for j := 0; j < len(unique)-1; j++ {
 
-			threshold := (unique[j] + unique[j+1]) / 2
+			threshold := thresholdBetween(unique[j], unique[j+1])
 			// Ensure that same split has not been made before
 			if validate(tree.triedSplits, int64(i), threshold) {
 				// We need to split data from fresh when considering new feature for the first time.
diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 6426977..cb350f4 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -222,7 +222,7 @@ func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []fl
 		var leftY, rightY []float64
 
 		for j := 0; j < len(unique)-1; j++ {
-			threshold := (unique[j] + unique[j+1]) / 2
+			threshold := thresholdBetween(unique[j], unique[j+1])
 			if validate(tree.triedSplits, int64(i), threshold) {
 				if firstTime {
 					left, right, leftY, rightY = regressorCreateSplit(sortData, int64(i), sortY, threshold)
diff --git a/trees/cart_utils.go b/trees/cart_utils.go
index 251dee9..3809cd2 100644
--- a/trees/cart_utils.go
+++ b/trees/cart_utils.go
@@ -26,6 +26,16 @@ func getFeature(data [][]float64, feature int64) []float64 {
 	return featureVals
 }
 
+// thresholdBetween returns a threshold above low and not above high.
+func thresholdBetween(low, high float64) float64 {
+	threshold := (low + high) / 2
+	if low < threshold && threshold <= high {
+		return threshold
+	}
+	// There's nothing in between the two (or it's out of range)
+	return high
+}
+
 // Make sure that split being considered has not been done before.
 // Else we will unnecessarily try splits that won't improve Impurity.
 func validate(triedSplits [][]float64, feature int64, threshold float64) bool {
-- 
2.43.0

