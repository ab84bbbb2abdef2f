From 4fee816c322ae82a51cf5a5bcb718e029ac45b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:52 +0000
Subject: [PATCH 01/28] fix: data buffer never blocks on a large backlog and
 keeps push order

Staging more than 2000 elements while the algorithm is ready or idle blocked
forever, a synchronous push overtook elements staged before, and concurrent
synchronous pushes were unsynchronised.
---
 core/buffer.go | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/core/buffer.go b/core/buffer.go
index dce1fbd..8468499 100644
--- a/core/buffer.go
+++ b/core/buffer.go
@@ -1,5 +1,7 @@
 package core
 
+import "sync"
+
 // Buffer interface
 type Buffer interface {
 	Push(elemt Elemt, running bool) error
@@ -12,20 +14,16 @@ type Buffer interface {
 // In asynchronous mode, when pushed() is called data are staged.
 // Staged data are stored when apply() is called.
 type DataBuffer struct {
-	pipe     chan Elemt
+	mutex    sync.Mutex
+	staged   []Elemt
 	data     []Elemt
 	strategy bufferSizeStrategy
 }
 
-// Maximal default pipe size
-const pipeSize = 2000
-
 // NewDataBuffer creates a fixed size buffer if given size > 0.
 // Otherwise creates an infinite size buffer.
 func NewDataBuffer(data []Elemt, size int) Buffer {
-	var db = DataBuffer{
-		pipe: make(chan Elemt, pipeSize),
-	}
+	var db = DataBuffer{}
 
 	switch {
 	case size > len(data):
@@ -52,9 +50,13 @@ func NewDataBuffer(data []Elemt, size int) Buffer {
 
 // Push stores or stages an element depending on synchronous / asynchronous mode.
 func (b *DataBuffer) Push(elmt Elemt, running bool) (err error) {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
 	if running {
-		b.pipe <- elmt
+		b.staged = append(b.staged, elmt)
 	} else {
+		// elements staged before come first
+		b.applyStaged()
 		b.data = b.strategy.push(b.data, elmt)
 	}
 	return
@@ -62,30 +64,25 @@ func (b *DataBuffer) Push(elmt Elemt, running bool) (err error) {
 
 // Data returns buffer data
 func (b *DataBuffer) Data() (data []Elemt) {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
 	return b.data
 }
 
 // Apply all staged data in asynchronous mode, otherwise do nothing
 func (b *DataBuffer) Apply() (err error) {
-	for b.applyNext() {
-	}
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	b.applyStaged()
 	return
 }
 
-// Applies next staged data if available and returns true.
-// Otherwise returns false.
-func (b *DataBuffer) applyNext() (ok bool) {
-	var elmt Elemt
-
-	select {
-	case elmt, ok = <-b.pipe:
-		if ok {
-			b.data = b.strategy.push(b.data, elmt)
-		}
-	default:
+// Applies staged data, the mutex must be held.
+func (b *DataBuffer) applyStaged() {
+	for _, elmt := range b.staged {
+		b.data = b.strategy.push(b.data, elmt)
 	}
-
-	return
+	b.staged = nil
 }
 
 // Handle the way data are stored, i.e. infinite or fixed size buffer.
-- 
2.43.0


From a3a234fe6eeeca62c11ce0a8c4aea3317ecd80c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 02/28] fix: weighted choice always returns an index of
 positive weight

A draw of exactly 0 returned -1, and a rounding residue on the cursor ran past
the last weight.
---
 kmeans/init.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index 600abe1..bb0f35f 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -106,15 +106,20 @@ func WeightedChoice(weights []float64, rand *rand.Rand) (int, error) {
 		sum += x
 	}
 
-	if sum == 0 {
+	if !(sum > 0) {
 		return 0, ErrNullSet
 	}
 
 	var cursor = rand.Float64() * sum
-	for cursor > 0 {
-		cursor -= weights[idx]
-		idx++
+	for i, x := range weights {
+		if x > 0 {
+			idx = i
+			cursor -= x
+			if cursor <= 0 {
+				break
+			}
+		}
 	}
 
-	return idx - 1, nil
+	return idx, nil
 }
-- 
2.43.0


From 6a07304fde7b62aad6f8207d8034362baf28eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 03/28] fix: initializers return no centroids on error and copy
 the first one

kmeans++ and random initializers panicked for a negative k and returned lists
holding nil centroids with their error; kmeans++ aliased a data element.
---
 kmeans/init.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index bb0f35f..8e91450 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -49,15 +49,18 @@ func GivenInitializer(k int, elemts []core.Elemt, space core.Space, _ *rand.Rand
 // PPInitializer initializes a clustering algorithm with kmeans++
 func PPInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
 	err = check(k, elemts)
-	centroids = make(core.Clust, k)
 
 	if err == nil {
+		centroids = make(core.Clust, k)
 		var draw = src.Intn(len(elemts))
-		centroids[0] = elemts[draw]
+		centroids[0] = space.Copy(elemts[draw])
 
 		for i := 1; i < k && err == nil; i++ {
 			centroids[i], err = PPIter(centroids[:i], elemts, space, src)
 		}
+		if err != nil {
+			centroids = nil
+		}
 	}
 
 	return
@@ -76,9 +79,9 @@ var ErrNullSet = errors.New("cannot draw over an empty set")
 // RandInitializer initializes a clustering with random testPoints
 func RandInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
 	err = check(k, elemts)
-	centroids = make(core.Clust, k)
 
 	if err == nil {
+		centroids = make(core.Clust, k)
 		var chosen = make(map[int]int)
 		var i int
 
-- 
2.43.0


From 939f234d526ee9859325794308c746f0c81dce0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 04/28] fix: cosine distance is never negative

Rounding could give a cosine slightly above 1, hence a negative distance that
nearest-centroid search takes for 'no centroid yet' and weighted draws reject.
---
 cosinus/cosinus.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cosinus/cosinus.go b/cosinus/cosinus.go
index ff23d8e..bfd2197 100644
--- a/cosinus/cosinus.go
+++ b/cosinus/cosinus.go
@@ -60,6 +60,12 @@ func (space Space) Dim(data []core.Elemt) int {
 // Cosinus returns the cosinus similarity between two vectors
 func Cosinus(v1, v2 []float64) (cos float64) {
 	cos = ScalarProduct(v1, v2) / Norm(v1) / Norm(v2)
+	// rounding must not leave [-1, 1]: distances would be negative
+	if cos > 1 {
+		cos = 1
+	} else if cos < -1 {
+		cos = -1
+	}
 	return
 }
 
-- 
2.43.0


From d1d8d5b093b8485025b671d36ca51b3c5022a482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 05/28] fix: unwindowed DTW accepts a first series longer than
 the second

Without window the band was as wide as the second series only, so the distance
was infinite when the first one is longer by more than one point.
---
 dtw/cost.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtw/cost.go b/dtw/cost.go
index 7f59c2f..ee9633a 100644
--- a/dtw/cost.go
+++ b/dtw/cost.go
@@ -51,6 +51,9 @@ func (cumCost *CumCostMatrix) Path() []Ends {
 func (cumCost *CumCostMatrix) setStride(shortest int, longest int) {
 	if cumCost.window == 0 {
 		cumCost.window = longest
+		if shortest > longest { // no window: whatever series is the longest
+			cumCost.window = shortest
+		}
 	}
 	var maxWindow = 2*cumCost.window + 1
 	cumCost.stride0 = shortest
-- 
2.43.0


From c4b11a84ab5a6ed49a5bcf52eb048e6a2c120f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 06/28] fix: multivariate t density does not overflow in high
 dimension

Gamma((dim+nu)/2) overflows above dimension ~340 and made densities infinite.
---
 mcmc/multivt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mcmc/multivt.go b/mcmc/multivt.go
index d873187..7eb1104 100644
--- a/mcmc/multivt.go
+++ b/mcmc/multivt.go
@@ -45,7 +45,9 @@ func NewMultivT(conf MultivTConf) MultivT {
 	m.normal, _ = distmv.NewNormal(mu, sigma, m.RGen)
 	m.chi2 = &distuv.ChiSquared{K: m.Nu, Src: m.RGen}
 	m.power = (float64(m.Dim) + m.Nu) / 2.
-	m.gammaFactor = math.Log(math.Gamma(m.power) / math.Gamma(float64(m.Nu)/2.))
+	var lgammaPower, _ = math.Lgamma(m.power)
+	var lgammaNu, _ = math.Lgamma(float64(m.Nu) / 2.)
+	m.gammaFactor = lgammaPower - lgammaNu
 
 	return m
 }
-- 
2.43.0


From 8a1c3655d94e26ffc000b2c6a63bbbe7168f7c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:56 +0000
Subject: [PATCH 07/28] fix: late distribution initialisation is free of data
 races

The initialised flag was read without holding the mutex that protects it.
---
 mcmc/latedistrib.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mcmc/latedistrib.go b/mcmc/latedistrib.go
index 488910f..5d763c9 100644
--- a/mcmc/latedistrib.go
+++ b/mcmc/latedistrib.go
@@ -38,9 +38,7 @@ func (d *LateDistrib) Pdf(x, mu core.Elemt, time int) float64 {
 }
 
 func (d *LateDistrib) initialize(elemt core.Elemt) {
-	if !d.initialized {
-		d.tryInitialize(elemt)
-	}
+	d.tryInitialize(elemt)
 }
 
 func (d *LateDistrib) tryInitialize(elemt core.Elemt) {
-- 
2.43.0


From b8d289e469cdac35cf5523f1826dbf4640084cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 08/28] fix: mcmc acceptations restart from zero at
 initialisation

Iterations are reset when a finished algorithm is played again, acceptations
were not and exceeded them.
---
 mcmc/impl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mcmc/impl.go b/mcmc/impl.go
index 9e6d469..be5054b 100644
--- a/mcmc/impl.go
+++ b/mcmc/impl.go
@@ -56,6 +56,7 @@ func (impl *Impl) Init(model core.OCModel) (centroids core.Clust, err error) {
 			pdf:     impl.proba(*mcmcConf, space, centroids, centroids, currentTime),
 		}
 		impl.time = currentTime
+		impl.acc = 0
 	}
 	return
 }
-- 
2.43.0


From 050ec28aa3c7bc52c24243877e90173b3f12f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 09/28] fix: mcmc starts from the number of centroids really
 initialised

A user initializer may return another number of centroids than InitK; the first
k move and acceptance ratio were computed from InitK.
---
 mcmc/impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcmc/impl.go b/mcmc/impl.go
index be5054b..a4ed3be 100644
--- a/mcmc/impl.go
+++ b/mcmc/impl.go
@@ -50,7 +50,7 @@ func (impl *Impl) Init(model core.OCModel) (centroids core.Clust, err error) {
 		impl.dim = space.Dim(centroids)
 		var currentTime = impl.getCurrentTime(data)
 		impl.current = proposal{
-			k:       mcmcConf.InitK,
+			k:       len(centroids),
 			centers: centroids,
 			loss:    impl.strategy.Loss(*mcmcConf, space, centroids, data),
 			pdf:     impl.proba(*mcmcConf, space, centroids, centroids, currentTime),
-- 
2.43.0


From a8636ee1841313284c0efce4eee8dbd3765d1d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:27 +0000
Subject: [PATCH 10/28] fix: mcmc compares losses measured on the same data

The loss and density of the current centers were those of the data held when
they were accepted: after pushes, proposals evaluated on more data could hardly
be accepted any more.
---
 mcmc/impl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mcmc/impl.go b/mcmc/impl.go
index a4ed3be..88cbd95 100644
--- a/mcmc/impl.go
+++ b/mcmc/impl.go
@@ -67,6 +67,11 @@ func (impl *Impl) Iterate(model core.OCModel) (clust core.Clust, runtimeFigures
 
 	var data = impl.buffer.Data()
 	var currentTime = impl.getCurrentTime(data)
+	if currentTime != impl.time || mcmcConf.FrameSize > 0 {
+		// data may have changed since the current centers were evaluated
+		impl.current.loss = impl.strategy.Loss(*mcmcConf, model.Space(), impl.current.centers, data)
+		impl.current.pdf = impl.proba(*mcmcConf, model.Space(), impl.current.centers, impl.current.centers, currentTime)
+	}
 	impl.current, clust = impl.doIter(*mcmcConf, model.Space(), impl.current, model.Centroids(), data, currentTime)
 	impl.time = currentTime
 	return clust, impl.runtimeFigures(), impl.buffer.Apply()
-- 
2.43.0


From 43e8360ba13b9f90ded1172b39ec082e2ca8dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 11/28] fix: streaming publishes centroids that do not change
 afterwards

Published centroids shared the working slice, updated in place by every later
iteration.
---
 streaming/impl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streaming/impl.go b/streaming/impl.go
index 84b3730..b1482f2 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -62,7 +62,8 @@ func (impl *Impl) Iterate(model core.OCModel) (clust core.Clust, runtimeFigures
 	select {
 	case elemt := <-impl.c:
 		impl.Process(elemt, model.Space())
-		clust = impl.clust
+		// published centroids must not change with next updates
+		clust = append(core.Clust{}, impl.clust...)
 	default:
 	}
 	runtimeFigures = impl.runtimeFigures()
-- 
2.43.0


From 0926f2e205e1c7afab2449b91b15ea7894bd4eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:24 +0000
Subject: [PATCH 12/28] fix: streaming starts afresh when it is initialised
 again

A second initialisation published one center while the previous ones, their
weights and the maximal distance were kept and came back at the next iteration.
---
 streaming/impl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streaming/impl.go b/streaming/impl.go
index b1482f2..8c8bedf 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -48,6 +48,8 @@ func (impl *Impl) Init(model core.OCModel) (clust core.Clust, err error) {
 	select {
 	case centroids := <-impl.c:
 		clust = core.Clust{centroids}
+		impl.clust, impl.cards = nil, nil
+		impl.maxDistance, impl.count = 0, 0
 		for i := range clust {
 			impl.AddCenter(clust[i], 0.)
 		}
-- 
2.43.0


From 8f2d4e2d5e92e3f32e9fdfac5436d179c545627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:44 +0000
Subject: [PATCH 13/28] fix: runtime figures are snapshots

RuntimeFigures and the iteration model exposed the live map that Push and the
run update: reading it while pushing is a concurrent map access that crashes.
---
 core/ctrl.go  | 11 ++++++-----
 core/model.go |  7 ++++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index f1889c3..33585ad 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -279,7 +279,7 @@ func (algo *Algo) run() {
 			// newData = algo.newData
 			centroids, runtimeFigures, err = algo.impl.Iterate(
 				NewSimpleOCModel(
-					algo.conf, algo.space, algo.status, algo.runtimeFigures, algo.centroids,
+					algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.centroids,
 				),
 			)
 			duration = time.Now().Sub(start)
@@ -317,12 +317,13 @@ func (algo *Algo) updateRuntimeFigures() {
 }
 
 func (algo *Algo) saveIterContext(centroids Clust, runtimeFigures RuntimeFigures, duration time.Duration) {
-	if runtimeFigures == nil {
-		runtimeFigures = RuntimeFigures{}
+	// the implementation keeps its own figures
+	algo.runtimeFigures = RuntimeFigures{}
+	for name, value := range runtimeFigures {
+		algo.runtimeFigures[name] = value
 	}
-	runtimeFigures[Duration] = float64(algo.duration + duration)
+	algo.runtimeFigures[Duration] = float64(algo.duration + duration)
 	algo.centroids = centroids
-	algo.runtimeFigures = runtimeFigures
 	algo.updateRuntimeFigures()
 }
 
diff --git a/core/model.go b/core/model.go
index 6a422f0..78cd836 100644
--- a/core/model.go
+++ b/core/model.go
@@ -28,7 +28,12 @@ func (algo *Algo) Space() Space {
 func (algo *Algo) RuntimeFigures() (figures RuntimeFigures) {
 	algo.modelMutex.RLock()
 	defer algo.modelMutex.RUnlock()
-	return algo.runtimeFigures
+	// a copy: figures are updated by iterations and pushes
+	figures = make(RuntimeFigures, len(algo.runtimeFigures))
+	for name, value := range algo.runtimeFigures {
+		figures[name] = value
+	}
+	return
 }
 
 // Conf returns configuration
-- 
2.43.0


From 497f13184d4e6c81fc3bf77f129a0694bbc80f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 14/28] fix: a status notifier may query the algorithm

Statuses were sent to the notifier on an unbuffered channel while holding the
status mutex: a notifier calling Status, or just a slow one, blocked the
algorithm for good. Each algorithm also leaked its notification go routine.
---
 core/algo.go | 32 ++++++++++++++++++++++++--------
 core/ctrl.go |  4 ----
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/core/algo.go b/core/algo.go
index 214f9a3..959a9a2 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -23,7 +23,8 @@ type Algo struct {
 	status         OCStatus
 	statusChannel  chan OCStatus
 	ackChannel     chan bool
-	notifChannel   chan OCStatus
+	notifications  []OCStatus // statuses to notify, in order
+	notifying      bool       // true while a go routine notifies
 	runtimeFigures RuntimeFigures
 	newData        int
 	pushedData     int
@@ -34,6 +35,7 @@ type Algo struct {
 
 	modelMutex  sync.RWMutex // algo model mutex
 	statusMutex sync.RWMutex // algo model mutex
+	notifMutex  sync.Mutex   // notifications mutex
 }
 
 // NewAlgo creates a new algorithm instance
@@ -61,12 +63,10 @@ func NewAlgo(conf Conf, impl Impl, space Space) (algo *Algo) {
 func (algo *Algo) setStatus(status OCStatus, safe bool) {
 	if safe {
 		algo.statusMutex.Lock()
-		algo.status = status
-		algo.statusMutex.Unlock()
-	} else {
-		algo.status = status
+		defer algo.statusMutex.Unlock()
 	}
-	algo.notifChannel <- status
+	algo.status = status
+	algo.pushNotification(status)
 }
 
 // receiveStatus status from main routine
@@ -92,12 +92,28 @@ func (algo *Algo) notify(status OCStatus) {
 	}
 }
 
+// pushNotification schedules a notification without waiting for the notifier, which may query the algo
+func (algo *Algo) pushNotification(status OCStatus) {
+	algo.notifMutex.Lock()
+	defer algo.notifMutex.Unlock()
+	algo.notifications = append(algo.notifications, status)
+	if !algo.notifying {
+		algo.notifying = true
+		go algo.notificationLoop()
+	}
+}
+
 func (algo *Algo) notificationLoop() {
 	for {
-		var status, ok = <-algo.notifChannel
-		if !ok {
+		algo.notifMutex.Lock()
+		if len(algo.notifications) == 0 {
+			algo.notifying = false
+			algo.notifMutex.Unlock()
 			return
 		}
+		var status = algo.notifications[0]
+		algo.notifications = algo.notifications[1:]
+		algo.notifMutex.Unlock()
 		algo.notify(status)
 	}
 }
diff --git a/core/ctrl.go b/core/ctrl.go
index 33585ad..51d2a7c 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -76,10 +76,6 @@ func (algo *Algo) init() (err error) {
 		algo.modelMutex.Unlock()
 		fallthrough
 	case Created:
-		if algo.status.Value == Created {
-			algo.notifChannel = make(chan OCStatus)
-			go algo.notificationLoop()
-		}
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
 		centroids, err = algo.impl.Init(algo)
-- 
2.43.0


From f4b47a6523f50e0c60cdd6114c5ec33a735110bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:38 +0000
Subject: [PATCH 15/28] fix: pushing does not deadlock with control calls

Push read the status while holding the model mutex, the opposite order of Init
and of the end of a run, and called Play while still holding it for reading.
It also started a run one element later than the configured DataPerIter.
---
 core/ctrl.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 51d2a7c..18f8587 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -22,21 +22,21 @@ type OCCtrl interface {
 func (algo *Algo) Push(elemt Elemt) (err error) {
 	err = algo.impl.Push(elemt, algo)
 	if err == nil {
+		// status and model mutexes are never held together here: Play and Init take them in this order
+		var ready = algo.Status().Value == Ready
 		algo.modelMutex.Lock()
 		algo.pushedData++
 		algo.lastDataTime = time.Now().Unix()
 		var conf = algo.conf.Ctrl()
-		if algo.Status().Value == Ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData {
+		algo.newData++
+		var play = ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData
+		if play {
 			algo.newData = 0
-		} else {
-			algo.newData++
 		}
 		algo.updateRuntimeFigures()
 		algo.modelMutex.Unlock()
 		// try to play if waiting
-		algo.modelMutex.RLock()
-		defer algo.modelMutex.RUnlock()
-		if algo.newData == 0 {
+		if play {
 			algo.Play()
 		}
 	}
-- 
2.43.0


From 895036e640c36272824cd869bd174772ec500a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:33 +0000
Subject: [PATCH 16/28] fix: control commands never meet a run that is over

Commands were handed to the run through channels shared by all runs and drained
after a 100 ms sleep at its end. A Pause or Play accepted there left the
algorithm Idle or Running without any run; concurrent Plays started two runs;
a second Play, Pause or Stop could wait forever for its acknowledgement, or the
end of a run close the channel of the next one; a failed initialisation in Play
kept the status mutex locked; a Stop could replace an iteration error.
Each run now has its own channels and tells its clients when it is over.
---
 core/algo.go |  49 +++++++++++++++------
 core/ctrl.go | 120 ++++++++++++++++++++++++++++-----------------------
 2 files changed, 102 insertions(+), 67 deletions(-)

diff --git a/core/algo.go b/core/algo.go
index 959a9a2..06a91c7 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -21,8 +21,7 @@ type Algo struct {
 	space          Space
 	centroids      Clust
 	status         OCStatus
-	statusChannel  chan OCStatus
-	ackChannel     chan bool
+	run            *run       // current or last run
 	notifications  []OCStatus // statuses to notify, in order
 	notifying      bool       // true while a go routine notifies
 	runtimeFigures RuntimeFigures
@@ -51,8 +50,6 @@ func NewAlgo(conf Conf, impl Impl, space Space) (algo *Algo) {
 		impl:           impl,
 		space:          space,
 		status:         OCStatus{Value: Created},
-		statusChannel:  make(chan OCStatus),
-		ackChannel:     make(chan bool),
 		runtimeFigures: RuntimeFigures{},
 	}
 
@@ -69,17 +66,43 @@ func (algo *Algo) setStatus(status OCStatus, safe bool) {
 	algo.pushNotification(status)
 }
 
-// receiveStatus status from main routine
-func (algo *Algo) receiveStatus() {
-	var status = <-algo.statusChannel
-	algo.setStatus(status, true)
-	algo.ackChannel <- true
+// run holds the channels that link one run go routine to its clients
+type run struct {
+	statusChannel chan OCStatus
+	ackChannel    chan bool
+	done          chan bool // closed when the run is over and its final status set
 }
 
-// sendStatus status to run go routine
-func (algo *Algo) sendStatus(status OCStatus) (ok bool) {
-	algo.statusChannel <- status
-	_, ok = <-algo.ackChannel
+func newRun() *run {
+	return &run{
+		statusChannel: make(chan OCStatus),
+		ackChannel:    make(chan bool),
+		done:          make(chan bool),
+	}
+}
+
+// receiveStatus applies a status from client in the run go routine.
+// A final status is returned, to be set when the run is over.
+func (algo *Algo) receiveStatus(r *run, status OCStatus) (final *OCStatus) {
+	if status.Value == Finished {
+		final = &status
+	} else {
+		var change = status.Value != algo.status.Value
+		if change {
+			algo.setStatus(status, true)
+		}
+		r.ackChannel <- change
+	}
+	return
+}
+
+// sendStatus status to run go routine, ok is false if the run is over or refuses it
+func (algo *Algo) sendStatus(r *run, status OCStatus) (ok bool) {
+	select {
+	case r.statusChannel <- status:
+		ok = <-r.ackChannel
+	case <-r.done:
+	}
 	return
 }
 
diff --git a/core/ctrl.go b/core/ctrl.go
index 18f8587..570305e 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -37,7 +37,7 @@ func (algo *Algo) Push(elemt Elemt) (err error) {
 		algo.modelMutex.Unlock()
 		// try to play if waiting
 		if play {
-			algo.Play()
+			algo.playReady()
 		}
 	}
 	return
@@ -95,11 +95,22 @@ func (algo *Algo) init() (err error) {
 
 // Play the algorithm in online mode
 func (algo *Algo) Play() (err error) {
+	var paused *run
+	for paused, err = algo.play(); paused != nil; paused, err = algo.play() {
+		if algo.sendStatus(paused, NewOCStatus(Running)) {
+			break
+		} // otherwise another command came first
+	}
+	return
+}
+
+// play starts a run or returns the paused one
+func (algo *Algo) play() (paused *run, err error) {
 	algo.statusMutex.Lock()
+	defer algo.statusMutex.Unlock()
 	switch algo.status.Value {
 	case Idle:
-		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatus(Running))
+		paused = algo.run
 	case Finished:
 		fallthrough
 	case Created:
@@ -110,29 +121,43 @@ func (algo *Algo) Play() (err error) {
 		err = nil
 		fallthrough
 	case Ready:
-		go algo.run()
-		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatus(Running))
-		if algo.timeout != nil {
-			algo.timeout.Disable()
-		}
-		var interruptionTimeout = algo.Conf().Ctrl().Timeout
-		if interruptionTimeout > 0 {
-			algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
-		}
+		algo.start()
 	case Running:
-		algo.statusMutex.Unlock()
 		err = ErrRunning
 	}
 	return
 }
 
+// playReady starts a run only if the algorithm is ready
+func (algo *Algo) playReady() {
+	algo.statusMutex.Lock()
+	defer algo.statusMutex.Unlock()
+	if algo.status.Value == Ready {
+		algo.start()
+	}
+}
+
+// start a run, status mutex must be held and status be ready
+func (algo *Algo) start() {
+	algo.run = newRun()
+	algo.setStatus(NewOCStatus(Running), false)
+	if algo.timeout != nil {
+		algo.timeout.Disable()
+	}
+	var interruptionTimeout = algo.Conf().Ctrl().Timeout
+	if interruptionTimeout > 0 {
+		algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
+	}
+	go algo.doRun(algo.run)
+}
+
 // Pause the algorithm and set status to idle
 func (algo *Algo) Pause() (err error) {
 	algo.statusMutex.Lock()
 	if algo.status.Value == Running {
+		var current = algo.run
 		algo.statusMutex.Unlock()
-		if !algo.sendStatus(NewOCStatus(Idle)) {
+		if !algo.sendStatus(current, NewOCStatus(Idle)) {
 			err = ErrNotRunning
 		}
 	} else {
@@ -178,9 +203,13 @@ func (algo *Algo) interrupt(interruption error) (err error) {
 	case Idle:
 		fallthrough
 	case Running:
+		var current = algo.run
 		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatusError(interruption))
-		err = algo.status.Error
+		if algo.sendStatus(current, NewOCStatusError(interruption)) {
+			err = interruption
+		} else { // the run has just ended by itself
+			err = algo.interrupt(interruption)
+		}
 	default:
 		algo.statusMutex.Unlock()
 		err = ErrNotAlive
@@ -200,16 +229,12 @@ func (algo *Algo) Predict(elemt Elemt) (pred Elemt, label int, dist float64) {
 	return
 }
 
-func (algo *Algo) recover(start time.Time) {
-	algo.statusMutex.Lock()
-	defer algo.statusMutex.Unlock()
+// terminate a run: final is the status asked by a client, if any
+func (algo *Algo) terminate(r *run, start time.Time, final **OCStatus, err *error) {
 	var recovery = recover()
 	if recovery != nil {
-		var err = fmt.Errorf("%v", recovery)
-		algo.setStatus(NewOCStatusError(err), false)
+		*err = fmt.Errorf("%v", recovery)
 	}
-	// wait a few between client time processing between releasing statusMutex and sendStatus
-	time.Sleep(100 * time.Millisecond)
 	// update algo runtime figures
 	algo.modelMutex.Lock()
 	// algo.newData = int(math.Max(0, float64(algo.newData-newData)))
@@ -217,27 +242,22 @@ func (algo *Algo) recover(start time.Time) {
 	algo.duration += duration
 	algo.runtimeFigures[Duration] = float64(algo.duration)
 	algo.modelMutex.Unlock()
-	// clean up channels
-	select {
-	// get client status if client quiered to stop or timeout interruption
-	case status := <-algo.statusChannel:
-		if recovery == nil {
-			algo.setStatus(status, false)
-		}
+	switch {
+	case *err != nil:
+		algo.setStatus(NewOCStatusError(*err), true)
+	case *final != nil:
+		algo.setStatus(**final, true)
 	default:
+		algo.setStatus(NewOCStatus(Ready), true)
 	}
-	// free client ack channel
-	select { // close ack channel
-	case <-algo.ackChannel:
-	default:
-		close(algo.ackChannel)
+	if *final != nil {
+		r.ackChannel <- true
 	}
+	close(r.done)
 }
 
 // Initialize the algorithm, if success run it synchronously otherwise return an error
-func (algo *Algo) run() {
-	algo.ackChannel = make(chan bool)
-
+func (algo *Algo) doRun(r *run) {
 	var err error
 	var conf = algo.conf.Ctrl()
 	var centroids = algo.centroids
@@ -258,17 +278,16 @@ func (algo *Algo) run() {
 		finishing = NewOrFinishing(finishing, conf.Finishing)
 	}
 
-	defer algo.recover(start)
+	var final *OCStatus
 
-	algo.receiveStatus()
+	defer algo.terminate(r, start, &final, &err)
 
-	for err == nil && algo.status.Value == Running && !IsFinished(finishing, algo) {
+	for err == nil && final == nil && !IsFinished(finishing, algo) {
 		select { // check for algo status update
-		case status := <-algo.statusChannel:
-			algo.setStatus(status, true)
-			if status.Value == Idle {
-				algo.ackChannel <- true
-				algo.receiveStatus()
+		case status := <-r.statusChannel:
+			final = algo.receiveStatus(r, status)
+			for final == nil && algo.status.Value == Idle {
+				final = algo.receiveStatus(r, <-r.statusChannel)
 			}
 		default:
 			// run implementation
@@ -297,13 +316,6 @@ func (algo *Algo) run() {
 			}
 		}
 	}
-	if err == nil {
-		if algo.status.Value == Running {
-			algo.setStatus(NewOCStatus(Ready), true)
-		}
-	} else {
-		algo.setStatus(NewOCStatusError(err), true)
-	}
 }
 
 func (algo *Algo) updateRuntimeFigures() {
-- 
2.43.0


From 420ee3e960e3d90668132549972cbdf864d7424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 17/28] fix: Batch returns the error of a run that failed
 quickly

Wait returns nil on an algorithm that is already finished, so Batch returned nil
when the run failed before Wait was called.
---
 core/ctrl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ctrl.go b/core/ctrl.go
index 570305e..6af73a1 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -49,6 +49,9 @@ func (algo *Algo) Batch() (err error) {
 	err = algo.Play()
 	if err == nil {
 		err = algo.Wait(nil, 0)
+		if err == nil { // the run may have failed before waiting
+			err = algo.Status().Error
+		}
 		if err == nil {
 			algo.Stop()
 		}
-- 
2.43.0


From 78eacf61f6c235d617133ca57b5a9bb31dcac358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 18/28] fix: a failed initialisation exposes no centroids

Centroids returned with an error may be partial (nil elements) and made Predict
panic.
---
 core/ctrl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ctrl.go b/core/ctrl.go
index 6af73a1..0e9d25e 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -82,6 +82,9 @@ func (algo *Algo) init() (err error) {
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
 		centroids, err = algo.impl.Init(algo)
+		if err != nil { // possibly partial
+			centroids = nil
+		}
 		algo.modelMutex.Lock()
 		algo.centroids = centroids
 		algo.modelMutex.Unlock()
-- 
2.43.0


From 1b498f0b8ddf913446a1a18f0f145c740a04cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 19/28] fix: the timeout of a stopped run does not finish a new
 initialisation

After Stop then Init, the timer of the previous run still turned the ready
algorithm into a timed out one.
---
 core/ctrl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ctrl.go b/core/ctrl.go
index 0e9d25e..464ea74 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -77,6 +77,9 @@ func (algo *Algo) init() (err error) {
 		algo.runtimeFigures = RuntimeFigures{}
 		algo.updateRuntimeFigures()
 		algo.modelMutex.Unlock()
+		if algo.timeout != nil { // of the previous run
+			algo.timeout.Disable()
+		}
 		fallthrough
 	case Created:
 		algo.setStatus(NewOCStatus(Initializing), false)
-- 
2.43.0


From 705b0e399e072b363d70f9aa83dbfe75ca68b46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:16 +0000
Subject: [PATCH 20/28] fix: Copy builds the implementation with the new
 configuration and space

Implementations were copied with the configuration of the original, so that
frame size, parallelism, generator or buffer size of the new one were ignored,
and an invalid configuration panicked instead of returning an error.
---
 core/ctrl.go      | 9 ++++++++-
 streaming/impl.go | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 464ea74..67b9e38 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -390,7 +390,14 @@ func (algo *Algo) SetSpace(space Space) (err error) {
 
 // Copy make a copy of this algo with new conf and space
 func (algo *Algo) Copy(conf Conf, space Space) (oc OnlineClust, err error) {
-	impl, err := algo.impl.Copy(algo)
+	err = PrepareConf(conf)
+	if err != nil {
+		return
+	}
+	// the implementation is copied for the new conf and space
+	impl, err := algo.impl.Copy(
+		NewSimpleOCModel(conf, space, algo.Status(), algo.RuntimeFigures(), algo.Centroids()),
+	)
 	if err == nil {
 		oc = NewAlgo(conf, impl, space)
 	}
diff --git a/streaming/impl.go b/streaming/impl.go
index 8c8bedf..d518ac6 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -22,6 +22,9 @@ type Impl struct {
 // Copy impl
 func (impl *Impl) Copy(model core.OCModel) (core.Impl, error) {
 	var conf = model.Conf().(*Conf)
+	if conf.BufferSize < len(impl.clust) {
+		return nil, errors.New("buffer size must be greater than the number of clusters")
+	}
 	var algo = NewAlgo(*conf, model.Space(), impl.clust)
 	return algo.Impl(), nil
 }
-- 
2.43.0


From 050295136680c808e2a7da455261a1f220b9281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 21/28] fix: an initialised MCMC forgets the centers stored by
 previous runs

---
 mcmc/impl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcmc/impl.go b/mcmc/impl.go
index 88cbd95..82258bb 100644
--- a/mcmc/impl.go
+++ b/mcmc/impl.go
@@ -57,6 +57,8 @@ func (impl *Impl) Init(model core.OCModel) (centroids core.Clust, err error) {
 		}
 		impl.time = currentTime
 		impl.acc = 0
+		// centers of a previous run are forgotten
+		impl.store = NewCenterStore(impl.store.rgen)
 	}
 	return
 }
-- 
2.43.0


From 4d87b9b6c78ecdfb6499be53ba45312c82b3e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 22/28] fix: framed data stay in push order and data got before
 are not overwritten

Copies of an algorithm with a full frame kept the elements in rotated order, so
that they forgot others than the oldest ones, and a push made while a run starts
overwrote the data an iteration was reading.
---
 core/buffer.go | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/core/buffer.go b/core/buffer.go
index 8468499..9de2f7b 100644
--- a/core/buffer.go
+++ b/core/buffer.go
@@ -28,13 +28,13 @@ func NewDataBuffer(data []Elemt, size int) Buffer {
 	switch {
 	case size > len(data):
 		// fixed size buffer, less data than buffer size
-		db.strategy = &fixedSizeStrategy{size, len(data)}
+		db.strategy = &fixedSizeStrategy{size}
 		db.data = make([]Elemt, len(data), size)
 		copy(db.data[:len(data)], data)
 
 	case size > 0:
 		// fixed size buffer, more data than buffer size
-		db.strategy = &fixedSizeStrategy{size, size}
+		db.strategy = &fixedSizeStrategy{size}
 		db.data = make([]Elemt, size)
 		copy(db.data, data[len(data)-size:])
 
@@ -92,24 +92,15 @@ type bufferSizeStrategy interface {
 
 // Fixed size buffer
 type fixedSizeStrategy struct {
-	size     int
-	position int
+	size int
 }
 
 func (s *fixedSizeStrategy) push(data []Elemt, elemt Elemt) []Elemt {
-	if s.position == s.size {
-		s.position = 0
+	if len(data) == s.size {
+		// forget the oldest element, data got before are not altered
+		data = data[1:]
 	}
-
-	if s.position < len(data) {
-		data[s.position] = elemt
-	} else {
-		data = append(data, elemt)
-	}
-
-	s.position++
-
-	return data
+	return append(data, elemt)
 }
 
 // Infinite size buffer
-- 
2.43.0


From 3bbe45737a477c0493f3c78bf7f23141113e0b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 23/28] fix: the timeout of a run never interrupts a later one

---
 core/ctrl.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 67b9e38..5a21911 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -80,6 +80,7 @@ func (algo *Algo) init() (err error) {
 		if algo.timeout != nil { // of the previous run
 			algo.timeout.Disable()
 		}
+		algo.run = nil
 		fallthrough
 	case Created:
 		algo.setStatus(NewOCStatus(Initializing), false)
@@ -155,7 +156,10 @@ func (algo *Algo) start() {
 	}
 	var interruptionTimeout = algo.Conf().Ctrl().Timeout
 	if interruptionTimeout > 0 {
-		algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
+		var current = algo.run
+		algo.timeout = InterruptionTimeout(interruptionTimeout, func(interruption error) error {
+			return algo.interrupt(current, interruption)
+		})
 	}
 	go algo.doRun(algo.run)
 }
@@ -202,9 +206,13 @@ func (algo *Algo) Wait(finishing Finishing, timeout time.Duration) (err error) {
 	return
 }
 
-// interrupt the algorithm
-func (algo *Algo) interrupt(interruption error) (err error) {
+// interrupt the algorithm, only if target is its current or last run unless target is nil
+func (algo *Algo) interrupt(target *run, interruption error) (err error) {
 	algo.statusMutex.Lock()
+	if target != nil && target != algo.run {
+		algo.statusMutex.Unlock()
+		return ErrNotAlive
+	}
 	switch algo.status.Value {
 	case Ready:
 		algo.setStatus(NewOCStatusError(interruption), false)
@@ -217,7 +225,7 @@ func (algo *Algo) interrupt(interruption error) (err error) {
 		if algo.sendStatus(current, NewOCStatusError(interruption)) {
 			err = interruption
 		} else { // the run has just ended by itself
-			err = algo.interrupt(interruption)
+			err = algo.interrupt(target, interruption)
 		}
 	default:
 		algo.statusMutex.Unlock()
@@ -228,7 +236,7 @@ func (algo *Algo) interrupt(interruption error) (err error) {
 
 // Stop the algorithm
 func (algo *Algo) Stop() (err error) {
-	return algo.interrupt(nil)
+	return algo.interrupt(nil, nil)
 }
 
 // Predict the cluster for a new observation
-- 
2.43.0


From d2dd64c694f76230e8459680f299b9d6b7578065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:44 +0000
Subject: [PATCH 24/28] fix: a running streaming algorithm is copied from its
 published centroids

---
 streaming/impl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streaming/impl.go b/streaming/impl.go
index d518ac6..870b237 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -22,10 +22,12 @@ type Impl struct {
 // Copy impl
 func (impl *Impl) Copy(model core.OCModel) (core.Impl, error) {
 	var conf = model.Conf().(*Conf)
-	if conf.BufferSize < len(impl.clust) {
+	// a run may be updating the clusters of this implementation: published ones do not change
+	var clust = model.Centroids()
+	if conf.BufferSize < len(clust) {
 		return nil, errors.New("buffer size must be greater than the number of clusters")
 	}
-	var algo = NewAlgo(*conf, model.Space(), impl.clust)
+	var algo = NewAlgo(*conf, model.Space(), clust)
 	return algo.Impl(), nil
 }
 
-- 
2.43.0


From 3061d5123858afb2bc717387b0dae628afe7efec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:13 +0000
Subject: [PATCH 25/28] fix: a failing initialisation never starts a run,
 whatever its error

---
 core/ctrl.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 5a21911..f094be5 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -125,10 +125,9 @@ func (algo *Algo) play() (paused *run, err error) {
 		fallthrough
 	case Created:
 		err = algo.init()
-		if err != nil && err != ErrAlreadyCreated {
+		if err != nil {
 			return
 		}
-		err = nil
 		fallthrough
 	case Ready:
 		algo.start()
-- 
2.43.0


From ab7e440df7b7ef27b9aca8569478232c2382659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:31 +0000
Subject: [PATCH 26/28] fix: an implementation may query its model while
 initialising

---
 core/ctrl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index f094be5..261f760 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -85,7 +85,9 @@ func (algo *Algo) init() (err error) {
 	case Created:
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
-		centroids, err = algo.impl.Init(algo)
+		centroids, err = algo.impl.Init(SimpleOCModel{ // which may query its model
+			algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.centroids, algo.impl,
+		})
 		if err != nil { // possibly partial
 			centroids = nil
 		}
-- 
2.43.0


From e15cff1f368b9fcf059133427561d0caa5c7e8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:15 +0000
Subject: [PATCH 27/28] fix: a panic in a parallel worker ends the run, not the
 process

---
 core/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/util.go b/core/util.go
index ac1e020..53dfe8f 100644
--- a/core/util.go
+++ b/core/util.go
@@ -10,9 +10,11 @@ func Par(process func(int, int, int), size int, degree int) {
 	var wg = &sync.WaitGroup{}
 	var offset = size / degree
 	var remainder = size % degree
+	var panics = make([]interface{}, degree)
 	wg.Add(degree)
 	var launch = func(start int, end int, rank int) {
 		defer wg.Done()
+		defer func() { panics[rank] = recover() }()
 		process(start, end, rank)
 	}
 	var start = 0
@@ -28,4 +30,10 @@ func Par(process func(int, int, int), size int, degree int) {
 		start = end
 	}
 	wg.Wait()
+
+	for _, cause := range panics { // of a process, for the caller to recover
+		if cause != nil {
+			panic(cause)
+		}
+	}
 }
-- 
2.43.0


From 173b4878397f7bb742bb7d6a7957ada8af4158e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:15 +0000
Subject: [PATCH 28/28] fix: a panicking initialisation fails like a panicking
 iteration

---
 core/ctrl.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 261f760..7d964da 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -85,9 +85,7 @@ func (algo *Algo) init() (err error) {
 	case Created:
 		algo.setStatus(NewOCStatus(Initializing), false)
 		var centroids Clust
-		centroids, err = algo.impl.Init(SimpleOCModel{ // which may query its model
-			algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.centroids, algo.impl,
-		})
+		centroids, err = algo.initImpl()
 		if err != nil { // possibly partial
 			centroids = nil
 		}
@@ -105,6 +103,19 @@ func (algo *Algo) init() (err error) {
 	return
 }
 
+// initImpl initializes the implementation, its panic is an error as those of its iterations
+func (algo *Algo) initImpl() (centroids Clust, err error) {
+	defer func() {
+		var recovery = recover()
+		if recovery != nil {
+			err = fmt.Errorf("%v", recovery)
+		}
+	}()
+	return algo.impl.Init(SimpleOCModel{ // which may query its model
+		algo.conf, algo.space, algo.status, algo.RuntimeFigures(), algo.centroids, algo.impl,
+	})
+}
+
 // Play the algorithm in online mode
 func (algo *Algo) Play() (err error) {
 	var paused *run
-- 
2.43.0

