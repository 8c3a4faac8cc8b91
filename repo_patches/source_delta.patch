From 69a49243c03adaaf1b4dcf4a34ad91ac78538228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 01/21] fix: parallel functions wait for all goroutines also
 when the left half panics

---
 parallel/parallel.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 53291d8..f3acff9 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -32,6 +32,7 @@ func Reduce(
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left half panics
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -80,6 +81,7 @@ func ReduceFloat64(
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left half panics
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -127,6 +129,7 @@ func ReduceFloat64Sum(functions ...func() float64) float64 {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left half panics
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -175,6 +178,7 @@ func ReduceFloat64Product(functions ...func() float64) float64 {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left half panics
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -224,6 +228,7 @@ func ReduceInt(
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left half panics
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -271,6 +276,7 @@ func ReduceIntSum(functions ...func() int) int {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left half panics
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -319,6 +325,7 @@ func ReduceIntProduct(functions ...func() int) int {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left half panics
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -368,6 +375,7 @@ func ReduceString(
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left half panics
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -415,6 +423,7 @@ func ReduceStringSum(functions ...func() string) string {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left half panics
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -461,6 +470,7 @@ func Do(thunks ...func()) {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left half panics
 	switch len(thunks) {
 	case 2:
 		go func() {
@@ -507,6 +517,7 @@ func And(predicates ...func() bool) bool {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left half panics
 	switch len(predicates) {
 	case 2:
 		go func() {
@@ -554,6 +565,7 @@ func Or(predicates ...func() bool) bool {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left half panics
 	switch len(predicates) {
 	case 2:
 		go func() {
@@ -620,6 +632,7 @@ func Range(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left half panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -679,6 +692,7 @@ func RangeAnd(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left half panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -738,6 +752,7 @@ func RangeOr(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left half panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -799,6 +814,7 @@ func RangeReduce(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left half panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -861,6 +877,7 @@ func RangeReduceInt(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left half panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -921,6 +938,7 @@ func RangeReduceIntSum(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left half panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -981,6 +999,7 @@ func RangeReduceIntProduct(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left half panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1043,6 +1062,7 @@ func RangeReduceFloat64(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left half panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1103,6 +1123,7 @@ func RangeReduceFloat64Sum(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left half panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1163,6 +1184,7 @@ func RangeReduceFloat64Product(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left half panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1225,6 +1247,7 @@ func RangeReduceString(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left half panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1285,6 +1308,7 @@ func RangeReduceStringSum(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left half panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
-- 
2.43.0


From 70ff71770fea482f1091d7090cef6e01ec2ec498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 02/21] fix: Map.ParallelReduce* wait for all goroutines also
 when the left half panics

---
 sync/map.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sync/map.go b/sync/map.go
index dda4163..ce87810 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -689,6 +689,7 @@ func (m *Map) ParallelReduce(
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left half panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -752,6 +753,7 @@ func (m *Map) ParallelReduceFloat64(
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left half panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -811,6 +813,7 @@ func (m *Map) ParallelReduceFloat64Sum(reduce func(map[interface{}]interface{})
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left half panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -870,6 +873,7 @@ func (m *Map) ParallelReduceFloat64Product(reduce func(map[interface{}]interface
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left half panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -930,6 +934,7 @@ func (m *Map) ParallelReduceInt(
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left half panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -989,6 +994,7 @@ func (m *Map) ParallelReduceIntSum(reduce func(map[interface{}]interface{}) int)
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left half panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -1048,6 +1054,7 @@ func (m *Map) ParallelReduceIntProduct(reduce func(map[interface{}]interface{})
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left half panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -1111,6 +1118,7 @@ func (m *Map) ParallelReduceString(
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left half panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -1170,6 +1178,7 @@ func (m *Map) ParallelReduceStringSum(reduce func(map[interface{}]interface{}) s
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left half panics
 		switch len(splits) {
 		case 2:
 			go func() {
-- 
2.43.0


From bbe9a790b7ae099a7821c999919b8db227c2437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 03/21] fix: Map.SpeculativeRange stops when f returns false,
 not when it returns true

---
 sync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index ce87810..b7beeaf 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -274,10 +274,10 @@ func (m *Map) SpeculativeRange(f func(key, value interface{}) bool) {
 	speculative.Range(0, len(splits), 0, func(low, high int) bool {
 		for i := low; i < high; i++ {
 			if !splits[i].srange(f) {
-				return false
+				return true
 			}
 		}
-		return true
+		return false
 	})
 }
 
-- 
2.43.0


From d7a52bf16c15a0e8e29778b59dd978ed78ca0bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 04/21] fix: Map.DeleteOrCompute and Map.Modify release the
 lock when the user function panics

---
 sync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index b7beeaf..a1a9578 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -159,13 +159,13 @@ func (m *Map) DeleteOrStore(key Hasher, value interface{}) (actual interface{},
 func (m *Map) DeleteOrCompute(key Hasher, computer func() interface{}) (actual interface{}, deleted bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock()
 	if actual, deleted = split.Map[key]; deleted {
 		delete(split.Map, key)
 	} else {
 		actual = computer()
 		split.Map[key] = actual
 	}
-	split.Unlock()
 	return
 }
 
@@ -187,13 +187,13 @@ func (m *Map) Modify(
 ) (replacement interface{}, storeNotDelete bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock()
 	value, ok := split.Map[key]
 	if replacement, storeNotDelete = modifier(value, ok); storeNotDelete {
 		split.Map[key] = replacement
 	} else {
 		delete(split.Map, key)
 	}
-	split.Unlock()
 	return
 }
 
-- 
2.43.0


From 71d20d2125726c48a2471dd0cf264bde87c0c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 05/21] fix: range functions panic for a negative number of
 batches also on empty ranges

---
 internal/internal.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/internal.go b/internal/internal.go
index 9fe961d..d0cfcf8 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -10,15 +10,15 @@ import (
 // ComputeNofBatches divides the size of the range (high - low) by n. If n is 0,
 // a default is used that takes runtime.GOMAXPROCS(0) into account.
 func ComputeNofBatches(low, high, n int) (batches int) {
+	if n < 0 {
+		panic(fmt.Sprintf("invalid number of batches: %v", n))
+	}
 	switch size := high - low; {
 	case size > 0:
-		switch {
-		case n == 0:
+		if n == 0 {
 			batches = 2 * runtime.GOMAXPROCS(0)
-		case n > 0:
+		} else {
 			batches = n
-		default:
-			panic(fmt.Sprintf("invalid number of batches: %v", n))
 		}
 		if batches > size {
 			batches = size
-- 
2.43.0


From da542ce859b246325bc573f8bd5627830a51f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 06/21] fix: pipeline.Skip reports the remaining size, not the
 number of skipped elements

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 26bbcda..5fa336d 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -341,7 +341,7 @@ func Skip(n int) Node {
 		case n == 0: // nothing to skip
 		case (*size < 0) || (*size > n):
 			if *size > 0 {
-				*size = n
+				*size -= n
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-- 
2.43.0


From 48058f942b20766025992e2d7ad588b48e603ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 07/21] fix: pipeline.Limit and Skip accept batches that a
 preceding filter emptied

---
 pipeline/filters.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 5fa336d..8900c59 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -305,7 +305,7 @@ func Limit(limit int, cancelWhenReached bool) Node {
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-				if seen >= limit {
+				if (seen >= limit) || (data == nil) {
 					return
 				}
 				d := reflect.ValueOf(data)
@@ -349,6 +349,9 @@ func Skip(n int) Node {
 					result = data
 					return
 				}
+				if data == nil {
+					return
+				}
 				d := reflect.ValueOf(data)
 				l := d.Len()
 				if (seen + l) > n {
-- 
2.43.0


From 2a944c35c86d889c8924a9ed92786830283bcc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 08/21] fix: pipeline.Slice sets an error for any result that
 is not a settable slice

---
 pipeline/filters.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 8900c59..8776e24 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -222,9 +222,12 @@ func NotAny(result *bool, cancelWhenKnown bool, predicate Predicate) Filter {
 // result. The result must represent a settable slice, for example by using the
 // address operator & on a given slice.
 func Slice(result interface{}) Filter {
-	res := reflect.ValueOf(result).Elem()
+	res := reflect.ValueOf(result)
+	if res.Kind() == reflect.Ptr {
+		res = res.Elem()
+	}
 	return func(pipeline *Pipeline, kind NodeKind, _ *int) (receiver Receiver, finalizer Finalizer) {
-		if (res.Kind() != reflect.Slice) && !res.CanSet() {
+		if (res.Kind() != reflect.Slice) || !res.CanSet() {
 			pipeline.SetErr(errors.New("result is not a settable slice in Pipeline.ToSlice"))
 			return
 		}
-- 
2.43.0


From eba733dc34d97d505555a73b1085f65d74bcdd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 09/21] fix: pipeline.Count starts from zero in sequential and
 ordered nodes

---
 pipeline/filters.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 8776e24..601e8c2 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -275,6 +275,7 @@ func Count(result *int) Filter {
 				*result = int(atomic.LoadInt64(&res))
 			}
 		default:
+			*result = 0
 			receiver = func(_ int, data interface{}) interface{} {
 				if data != nil {
 					d := reflect.ValueOf(data)
-- 
2.43.0


From 0e77e21f79a3e820b50169c98a05dc03f301f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 10/21] fix: pipeline nodes forward batches with the index they
 were fed, also after nodes have merged

---
 pipeline/lparnode.go      | 10 +++++-----
 pipeline/seqnode.go       | 19 ++++++++++---------
 pipeline/strictordnode.go |  8 ++++----
 3 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index aff3d1d..5156b2f 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -48,7 +48,7 @@ func (node *lparnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -77,7 +77,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 							node.cond.L.Unlock()
 							node.cond.Broadcast()
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -87,7 +87,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *lparnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	if node.ordered {
 		node.cond.L.Lock()
 		defer node.cond.L.Unlock()
@@ -96,7 +96,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 				select {
 				case <-p.ctx.Done():
 					return
-				case node.channel <- dataBatch{seqNo, data}:
+				case node.channel <- dataBatch{index, seqNo, data}:
 					return
 				}
 			}
@@ -111,7 +111,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index a049358..fff11e8 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -6,6 +6,7 @@ import (
 
 type (
 	dataBatch struct {
+		index int
 		seqNo int
 		data  interface{}
 	}
@@ -45,7 +46,7 @@ func (node *seqnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *seqnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, node.kind, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,14 +64,14 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						if !ok {
 							return
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
 		case Ordered:
 			go func() {
 				defer node.waitGroup.Done()
-				stash := make(map[int]interface{})
+				stash := make(map[int]dataBatch)
 				run := 0
 				for {
 					select {
@@ -83,9 +84,9 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						case batch.seqNo < run:
 							panic("Invalid receive order in an ordered pipeline node.")
 						case batch.seqNo > run:
-							stash[batch.seqNo] = batch.data
+							stash[batch.seqNo] = batch
 						default:
-							feed(p, node.receivers, index, batch.seqNo, batch.data)
+							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 						checkStash:
 							for {
 								select {
@@ -93,12 +94,12 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 									return
 								default:
 									run++
-									data, ok := stash[run]
+									batch, ok := stash[run]
 									if !ok {
 										break checkStash
 									}
 									delete(stash, run)
-									feed(p, node.receivers, index, run, data)
+									feed(p, node.receivers, batch.index, run, batch.data)
 								}
 							}
 						}
@@ -113,11 +114,11 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *seqnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *seqnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 74a1915..24402b3 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -38,7 +38,7 @@ func (node *strictordnode) TryMerge(next Node) bool {
 }
 
 //Implements the Begin method of the Node interface.
-func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Ordered, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +63,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 					node.run++
 					node.cond.L.Unlock()
 					node.cond.Broadcast()
-					feed(p, node.receivers, index, batch.seqNo, batch.data)
+					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 				}
 			}
 		}()
@@ -72,7 +72,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 }
 
 // Implements the Feed method of the Node interface.
-func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *strictordnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	node.cond.L.Lock()
 	defer node.cond.L.Unlock()
 	for {
@@ -80,7 +80,7 @@ func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{})
 			select {
 			case <-p.ctx.Done():
 				return
-			case node.channel <- dataBatch{seqNo, data}:
+			case node.channel <- dataBatch{index, seqNo, data}:
 				return
 			}
 		}
-- 
2.43.0


From 7db6500a1b624d53dde383a15c641bf2820b0906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 11/21] fix: pipeline nodes before a strictly ordered node are
 made ordered before they start

---
 pipeline/pipeline.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index ebe329b..c70f6aa 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -274,6 +274,20 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
+	// Nodes before a strictly ordered node must be ordered. Begin relies on this.
+	for index := len(p.nodes) - 1; index >= 0; index-- {
+		if _, ok := p.nodes[index].(*strictordnode); ok {
+			for index = index - 1; index >= 0; index-- {
+				switch node := p.nodes[index].(type) {
+				case *seqnode:
+					node.kind = Ordered
+				case *lparnode:
+					node.makeOrdered()
+				}
+			}
+			break
+		}
+	}
 	dataSize := p.source.Prepare(p.ctx)
 	filteredSize := dataSize
 	for index := 0; index < len(p.nodes); {
@@ -294,19 +308,6 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 				index++
 			}
 		}
-		for index := len(p.nodes) - 1; index >= 0; index-- {
-			if _, ok := p.nodes[index].(*strictordnode); ok {
-				for index = index - 1; index >= 0; index-- {
-					switch node := p.nodes[index].(type) {
-					case *seqnode:
-						node.kind = Ordered
-					case *lparnode:
-						node.makeOrdered()
-					}
-				}
-				break
-			}
-		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
 			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
-- 
2.43.0


From eb972ce5c489888cc8d5a1765491dfe5a6fdde24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 12/21] fix: ordered pipeline nodes do not lose the wakeup on
 cancellation

---
 pipeline/lparnode.go      | 2 ++
 pipeline/strictordnode.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 5156b2f..1c72605 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -61,7 +61,9 @@ func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 					select {
 					case <-p.ctx.Done():
 						if node.ordered {
+							node.cond.L.Lock()
 							node.cond.Broadcast()
+							node.cond.L.Unlock()
 						}
 						return
 					case batch, ok := <-node.channel:
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 24402b3..47e876a 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -50,7 +50,9 @@ func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool)
 			for {
 				select {
 				case <-p.ctx.Done():
+					node.cond.L.Lock()
 					node.cond.Broadcast()
+					node.cond.L.Unlock()
 					return
 				case batch, ok := <-node.channel:
 					if !ok {
-- 
2.43.0


From 5397d98e92f3cac52a804cb0895e0bbfc0908699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:53 +0000
Subject: [PATCH 13/21] fix: arrays can be used as pipeline sources

---
 pipeline/source.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index f365b33..e89e9e8 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -110,7 +110,11 @@ func (src *chanSource) Data() interface{} {
 
 func reflectSource(source interface{}) Source {
 	switch value := reflect.ValueOf(source); value.Kind() {
-	case reflect.Array, reflect.Slice, reflect.String:
+	case reflect.Array:
+		array := reflect.New(value.Type()).Elem() // arrays must be addressable to be sliced
+		array.Set(value)
+		return newSliceSource(array)
+	case reflect.Slice, reflect.String:
 		return newSliceSource(value)
 	case reflect.Chan:
 		return newChanSource(value)
-- 
2.43.0


From 0a9561f46890b17c78c715ac61d75925b3544603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:53 +0000
Subject: [PATCH 14/21] fix: the first variable batch of a pipeline respects
 the maximum batch size

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index c70f6aa..660378d 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -310,7 +310,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
-			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
+			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
-- 
2.43.0


From 22c8506e77f6269350b501468e5344187361f9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 15/21] fix: a cancelled pipeline stops fetching from its
 source

---
 pipeline/pipeline.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 660378d..dd84d90 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -310,7 +310,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
-			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
+			for seqNo, batchSize := 0, p.nextBatchSize(0); (p.ctx.Err() == nil) && (p.source.Fetch(batchSize) > 0); seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
@@ -324,7 +324,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 			if batchSize == 0 {
 				batchSize = 1
 			}
-			for seqNo := 0; p.source.Fetch(batchSize) > 0; seqNo++ {
+			for seqNo := 0; (p.ctx.Err() == nil) && (p.source.Fetch(batchSize) > 0); seqNo++ {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
-- 
2.43.0


From 94fc333378e471c0f867a41d5718da195b730115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 16/21] fix: Float64Slice.Less orders NaN values as
 SequentialSort does

---
 sort/sort.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sort/sort.go b/sort/sort.go
index 2a6e8bf..9d00e13 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -112,8 +112,9 @@ func (s Float64Slice) Len() int {
 	return len(s)
 }
 
+// Less orders NaN values before other values, as SequentialSort does.
 func (s Float64Slice) Less(i, j int) bool {
-	return s[i] < s[j]
+	return s[i] < s[j] || (s[i] != s[i] && s[j] == s[j])
 }
 
 func (s Float64Slice) Swap(i, j int) {
-- 
2.43.0


From 50bd15c6f9b1c271991d0b206a684639c899f918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 17/21] fix: IsSorted does not use the collection after it
 returned

---
 sort/sort.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index 9d00e13..67e08f9 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -5,7 +5,7 @@ import (
 	"sort"
 	"sync/atomic"
 
-	"github.com/exascience/pargo/speculative"
+	"github.com/exascience/pargo/parallel"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,7 +34,6 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
-	defer atomic.StoreInt32(&done, 1)
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
@@ -43,13 +42,14 @@ func IsSorted(data sort.Interface) bool {
 					return false
 				}
 				if data.Less(i, i-1) {
+					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		result := speculative.And(
+		result := parallel.And(
 			func() bool { return pTest(index, half) },
 			func() bool { return pTest(index+half, size-half) },
 		)
-- 
2.43.0


From 82658031cf818a21e8d21e9aaa75a69a3f7064f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 18/21] fix: range functions do not split ranges that end near
 the maximum int at an overflowed index

---
 parallel/parallel.go       | 24 ++++++++++++------------
 sequential/sequential.go   | 24 ++++++++++++------------
 speculative/speculative.go | 14 +++++++-------
 3 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index f3acff9..4c9700b 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -625,7 +625,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				f(low, high)
 				return
 			}
@@ -685,7 +685,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -745,7 +745,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -807,7 +807,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			var left, right interface{}
@@ -870,7 +870,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			var left, right int
@@ -931,7 +931,7 @@ func RangeReduceIntSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			var left, right int
@@ -992,7 +992,7 @@ func RangeReduceIntProduct(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			var left, right int
@@ -1055,7 +1055,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1116,7 +1116,7 @@ func RangeReduceFloat64Sum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1177,7 +1177,7 @@ func RangeReduceFloat64Product(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1240,7 +1240,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			var left, right string
@@ -1301,7 +1301,7 @@ func RangeReduceStringSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			var left, right string
diff --git a/sequential/sequential.go b/sequential/sequential.go
index 2f97399..21fa40f 100755
--- a/sequential/sequential.go
+++ b/sequential/sequential.go
@@ -180,7 +180,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				f(low, high)
 				return
 			}
@@ -219,7 +219,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return f(low, high)
 			}
 			b0 := recur(low, mid, half)
@@ -258,7 +258,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return f(low, high)
 			}
 			b0 := recur(low, mid, half)
@@ -297,7 +297,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -337,7 +337,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -375,7 +375,7 @@ func RangeReduceIntSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -413,7 +413,7 @@ func RangeReduceIntProduct(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -453,7 +453,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -491,7 +491,7 @@ func RangeReduceFloat64Sum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -529,7 +529,7 @@ func RangeReduceFloat64Product(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -569,7 +569,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -607,7 +607,7 @@ func RangeReduceStringSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
diff --git a/speculative/speculative.go b/speculative/speculative.go
index 4da1598..dea7559 100755
--- a/speculative/speculative.go
+++ b/speculative/speculative.go
@@ -434,7 +434,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return f(low, high)
 			}
 			var b1 bool
@@ -496,7 +496,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return f(low, high)
 			}
 			var b1 bool
@@ -558,7 +558,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return f(low, high)
 			}
 			var b1 bool
@@ -626,7 +626,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			var left, right interface{}
@@ -699,7 +699,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			var left, right int
@@ -772,7 +772,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -845,7 +845,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low { // mid may overflow
 				return reduce(low, high)
 			}
 			var left, right string
-- 
2.43.0


From 59d26e69be96731dcb349584a9d7934db46992d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 19/21] fix: the end of a pipeline run does not overwrite an
 error that is set at the same time

---
 pipeline/pipeline.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index dd84d90..8453179 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -338,9 +338,12 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 	for _, node := range p.nodes {
 		node.End()
 	}
+	err := p.source.Err()
+	p.mutex.Lock()
 	if p.err == nil {
-		p.err = p.source.Err()
+		p.err = err
 	}
+	p.mutex.Unlock()
 }
 
 // Run initiates pipeline execution by calling
-- 
2.43.0


From 71148be680fdb60836417b9e42ac57492c4fdfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 20/21] fix: variable batch sizes do not overflow for large
 increments

---
 pipeline/pipeline.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 8453179..8499144 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -245,11 +245,10 @@ func (p *Pipeline) finalizeVariableBatchSize() {
 }
 
 func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
-	result = batchSize + p.batchInc
-	if result > p.maxBatchSize {
-		result = p.maxBatchSize
+	if p.batchInc > p.maxBatchSize-batchSize { // the sum might overflow
+		return p.maxBatchSize
 	}
-	return
+	return batchSize + p.batchInc
 }
 
 // RunWithContext initiates pipeline execution.
-- 
2.43.0


From 13fefbd4882ab41ee7bb7a5cb40e76b236d7700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 21/21] fix: runs of pipelines do not race with errors that are
 set concurrently

---
 pipeline/pipeline.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 8499144..8dec3a5 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -269,7 +269,7 @@ func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
 // data source and sends them to the nodes. Once the data source is depleted,
 // the nodes are informed that the end of the data source has been reached.
 func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc) {
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
@@ -296,7 +296,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 			p.nodes = append(p.nodes[:index], p.nodes[index+1:]...)
 		}
 	}
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	if len(p.nodes) > 0 {
-- 
2.43.0

