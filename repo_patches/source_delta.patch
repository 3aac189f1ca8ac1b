From b4442b2c12ef0c64e2ee7f43cba6d39aee7c3984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 01/14] fix: do not use encoded JSON as a format string in HTTP
 responses

---
 healthd/api.go            | 2 +-
 json_polling_sink_http.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/healthd/api.go b/healthd/api.go
index 0334f22..9bcf928 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -185,7 +185,7 @@ func renderJson(rw http.ResponseWriter, data interface{}) {
 		renderError(rw, err)
 		return
 	}
-	fmt.Fprintf(rw, string(jsonData))
+	rw.Write(jsonData)
 }
 
 func renderNotFound(rw http.ResponseWriter) {
diff --git a/json_polling_sink_http.go b/json_polling_sink_http.go
index 7bd4a0c..40dac13 100644
--- a/json_polling_sink_http.go
+++ b/json_polling_sink_http.go
@@ -31,7 +31,7 @@ func (s *JsonPollingSink) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
 			renderError(rw, err)
 			return
 		}
-		fmt.Fprintf(rw, string(jsonData))
+		rw.Write(jsonData)
 	} else {
 		renderNotFound(rw)
 	}
-- 
2.43.0


From fe669d76c84ebc17f13c0ea7ae249d7acbd42dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 02/14] fix: merging timers ignores min/max of a side without
 samples

---
 interval_aggregation_merge.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/interval_aggregation_merge.go b/interval_aggregation_merge.go
index eaa776e..2349f4e 100644
--- a/interval_aggregation_merge.go
+++ b/interval_aggregation_merge.go
@@ -27,15 +27,17 @@ func (intoJob *JobAggregation) merge(fromJob *JobAggregation) {
 }
 
 func (intoTa *TimerAggregation) merge(fromTa *TimerAggregation) {
+	if fromTa.Count > 0 {
+		if intoTa.Count == 0 || fromTa.NanosMin < intoTa.NanosMin {
+			intoTa.NanosMin = fromTa.NanosMin
+		}
+		if intoTa.Count == 0 || fromTa.NanosMax > intoTa.NanosMax {
+			intoTa.NanosMax = fromTa.NanosMax
+		}
+	}
 	intoTa.Count += fromTa.Count
 	intoTa.NanosSum += fromTa.NanosSum
 	intoTa.NanosSumSquares += fromTa.NanosSumSquares
-	if fromTa.NanosMin < intoTa.NanosMin {
-		intoTa.NanosMin = fromTa.NanosMin
-	}
-	if fromTa.NanosMax > intoTa.NanosMax {
-		intoTa.NanosMax = fromTa.NanosMax
-	}
 }
 
 func (intoAm *aggregationMaps) merge(fromAm *aggregationMaps) {
-- 
2.43.0


From a83ee7bf9740edce66f94da785b8fb1d6f2101ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 03/14] fix: bugsnag sink copies the key/values it queues

---
 sinks/bugsnag/sink.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sinks/bugsnag/sink.go b/sinks/bugsnag/sink.go
index 16a2c9f..5ba7695 100644
--- a/sinks/bugsnag/sink.go
+++ b/sinks/bugsnag/sink.go
@@ -46,7 +46,12 @@ func (s *Sink) EmitEventErr(job string, event string, inputErr error, kvs map[st
 	switch inputErr := inputErr.(type) {
 	case *health.UnmutedError:
 		if !inputErr.Emitted {
-			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: kvs}
+			// The report is sent later, and the caller may change its map by then.
+			kvsCopy := make(map[string]string, len(kvs))
+			for k, v := range kvs {
+				kvsCopy[k] = v
+			}
+			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: kvsCopy}
 		}
 	case *health.MutedError:
 	// Do nothing!
-- 
2.43.0


From d5b6bed2c623736b2dbea1482206f58e4878e6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 04/14] fix: close HTTP response bodies in the bugsnag and
 librato sinks

---
 sinks/bugsnag/api.go  | 1 +
 sinks/librato/sink.go | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sinks/bugsnag/api.go b/sinks/bugsnag/api.go
index f5d6539..49cfe7c 100644
--- a/sinks/bugsnag/api.go
+++ b/sinks/bugsnag/api.go
@@ -112,6 +112,7 @@ func Notify(config *Config, jobName string, eventName string, err error, trace *
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return err
diff --git a/sinks/librato/sink.go b/sinks/librato/sink.go
index a015cd2..8801287 100644
--- a/sinks/librato/sink.go
+++ b/sinks/librato/sink.go
@@ -303,11 +303,14 @@ func (s *Sink) send() error {
 	}
 	req.Header.Add("Content-Type", "application/json")
 	req.SetBasicAuth(s.libratoUser, s.libratoApiKey)
-	_, err = s.httpClient.Do(req)
+	resp, err := s.httpClient.Do(req)
+	if nil != err {
+		return err
+	}
 
 	//fmt.Println(resp.Status)
 
-	return err
+	return resp.Body.Close()
 }
 
 // valid librato charactors: A-Za-z0-9.:-_
-- 
2.43.0


From 828f990bd617772e52be94888442d1d78007604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 05/14] fix: polling sink keeps at least the current interval

---
 aggregator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aggregator.go b/aggregator.go
index 951aacc..0bb2b62 100644
--- a/aggregator.go
+++ b/aggregator.go
@@ -55,6 +55,9 @@ AGGREGATE_LOOP:
 
 func newAggregator(intervalDuration time.Duration, retain time.Duration) *aggregator {
 	maxIntervals := int(retain / intervalDuration)
+	if maxIntervals < 1 {
+		maxIntervals = 1 // always keep the current interval
+	}
 	return &aggregator{
 		intervalDuration:     intervalDuration,
 		retain:               retain,
-- 
2.43.0


From 6768ed7fa276c3e20250df46c0b59bd7920fecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 06/14] fix: apply the documented bugsnag release stage and
 hostname defaults

---
 sinks/bugsnag/sink.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sinks/bugsnag/sink.go b/sinks/bugsnag/sink.go
index 5ba7695..00276f2 100644
--- a/sinks/bugsnag/sink.go
+++ b/sinks/bugsnag/sink.go
@@ -26,6 +26,12 @@ func NewSink(config *Config) *Sink {
 	if config.Endpoint == "" {
 		config.Endpoint = "https://notify.bugsnag.com/"
 	}
+	if config.ReleaseStage == "" {
+		config.ReleaseStage = "production"
+	}
+	if config.Hostname == "" {
+		config.Hostname, _ = os.Hostname()
+	}
 
 	s := &Sink{
 		Config:   config,
-- 
2.43.0


From ad24e74b8186bbe31e35a221ed86da7488fe984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 07/14] fix: polling sink does not read an error wrapper while
 it is being marked emitted

---
 json_polling_sink.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json_polling_sink.go b/json_polling_sink.go
index f0cc401..6da402a 100644
--- a/json_polling_sink.go
+++ b/json_polling_sink.go
@@ -58,6 +58,11 @@ func (s *JsonPollingSink) EmitEvent(job string, event string, kvs map[string]str
 }
 
 func (s *JsonPollingSink) EmitEventErr(job string, event string, inputErr error, kvs map[string]string) {
+	// The aggregator compares errors later, when the caller may already be marking its wrapper as emitted.
+	// Only hand over the error inside it.
+	if unmutedErr, ok := inputErr.(*UnmutedError); ok {
+		inputErr = unmutedErr.Err
+	}
 	s.cmdChan <- &emitCmd{Kind: cmdKindEventErr, Job: job, Event: event, Err: inputErr}
 }
 
-- 
2.43.0


From 797209b2c7bc982d13f395cce806dcda8db93d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 08/14] fix: healthd merges intervals of hosts in different
 time zones

---
 healthd/healthd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index b2013cb..46e66ca 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -245,6 +245,9 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		}
 
 		for _, intAgg := range resp.IntervalAggregations {
+			// Hosts may report the same instant in different time zones.
+			intAgg.IntervalStart = intAgg.IntervalStart.UTC()
+
 			key := hostAggregationKey{
 				Time:       intAgg.IntervalStart,
 				InstanceId: resp.InstanceId,
-- 
2.43.0


From 393c4c5d45220352a1109e2cac94ca1cfd8ca107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 09/14] fix: standard deviation of nearly equal samples is not
 NaN

---
 healthd/api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/healthd/api.go b/healthd/api.go
index 9bcf928..44d6743 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -322,6 +322,9 @@ func filterJobs(overall *health.IntervalAggregation, sort string, limit int) []*
 				stddev = 0
 			} else {
 				num := (float64(j.Count) * j.NanosSumSquares) - math.Pow(float64(j.NanosSum), 2)
+				if num < 0 { // rounding
+					num = 0
+				}
 				div := float64(j.Count * (j.Count - 1))
 				stddev = math.Sqrt(num / div)
 			}
-- 
2.43.0


From 8d85db9bc1bdc765671456f5c2a082afc3a77bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 10/14] fix: healthd worker never waits for the debouncer

---
 healthd/healthd.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index 46e66ca..e466b9c 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -140,7 +140,11 @@ AGGREGATE_LOOP:
 				hd.recalculateIntervals()
 			} else {
 				hd.consumePollResponse(resp)
-				recalcIntervalsRequest <- struct{}{}
+				select {
+				case recalcIntervalsRequest <- struct{}{}:
+				default:
+					// The debouncer has requests pending and may be waiting for us; never wait for it.
+				}
 			}
 		case <-recalcIntervals:
 			hd.recalculateIntervals()
-- 
2.43.0


From a7503028bb82c5a1366b7fe7d2d73f2dabdebac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 11/14] fix: healthd API reads the interval duration atomically

---
 healthd/api.go     |  8 ++++----
 healthd/healthd.go | 13 ++++++++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/healthd/api.go b/healthd/api.go
index 44d6743..70f392e 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -133,7 +133,7 @@ func (c *apiContext) HealthMiddleware(rw web.ResponseWriter, r *web.Request, nex
 func (c *apiContext) Aggregations(rw web.ResponseWriter, r *web.Request) {
 	aggregations := c.hd.getAggregationSequence()
 	resp := &ApiResponseAggregations{
-		apiResponse:  getApiResponse(c.hd.intervalDuration),
+		apiResponse:  getApiResponse(c.hd.getIntervalDuration()),
 		Aggregations: aggregations,
 	}
 	renderJson(rw, resp)
@@ -143,7 +143,7 @@ func (c *apiContext) Overall(rw web.ResponseWriter, r *web.Request) {
 	aggregations := c.hd.getAggregationSequence()
 	overall := combineAggregations(aggregations)
 	resp := &ApiResponseAggregationsOverall{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Overall:     overall,
 	}
 	renderJson(rw, resp)
@@ -156,7 +156,7 @@ func (c *apiContext) Jobs(rw web.ResponseWriter, r *web.Request) {
 	overall := combineAggregations(aggregations)
 	jobs := filterJobs(overall, sort, limit)
 	resp := &ApiResponseJobs{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Jobs:        jobs,
 	}
 	renderJson(rw, resp)
@@ -166,7 +166,7 @@ func (c *apiContext) Hosts(rw web.ResponseWriter, r *web.Request) {
 	hosts := c.hd.getHosts()
 	sort.Sort(HostStatusByHostPort(hosts))
 	resp := &ApiResponseHosts{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Hosts:       hosts,
 	}
 	renderJson(rw, resp)
diff --git a/healthd/healthd.go b/healthd/healthd.go
index e466b9c..68d3b60 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -10,11 +10,12 @@ import (
 )
 
 type HealthD struct {
-	stream *health.Stream
-
 	// How long is each aggregation interval. Eg, 1 minute
+	// Accessed atomically; first in the struct so that it is aligned on 32-bit platforms.
 	intervalDuration time.Duration
 
+	stream *health.Stream
+
 	// Retain controls how many metrics interval we keep. Eg, 5 minutes
 	retain time.Duration
 
@@ -99,6 +100,12 @@ func (hd *HealthD) Stop() {
 	hd.stopHTTP()
 }
 
+// getIntervalDuration returns the interval duration learned from polled hosts, or 0 if it's not known yet.
+// It may be called from any goroutine.
+func (hd *HealthD) getIntervalDuration() time.Duration {
+	return time.Duration(atomic.LoadInt64((*int64)(&hd.intervalDuration)))
+}
+
 // shouldStop returns true if we've been flagged to stop
 func (hd *HealthD) shouldStop() bool {
 	v := atomic.LoadInt64(&hd.stopFlag)
@@ -241,7 +248,7 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 	// Add resp to hostAggregations
 	if resp.Code == 200 && resp.Err == nil {
 		if hd.intervalDuration == 0 {
-			hd.intervalDuration = resp.IntervalDuration // TODO: validate this
+			atomic.StoreInt64((*int64)(&hd.intervalDuration), int64(resp.IntervalDuration)) // TODO: validate this
 			hd.maxIntervals = int(hd.retain / hd.intervalDuration)
 		} else if hd.intervalDuration != resp.IntervalDuration {
 			fmt.Println("interval duration mismatch: agg.intervalDuration=", hd.intervalDuration, " but resp.IntervalDuration=", resp.IntervalDuration)
-- 
2.43.0


From c754514fbc2c9d8fd923acf848157894babcc3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 12/14] fix: healthd survives hosts answering with null entries
 or no interval duration

---
 healthd/healthd.go            | 10 +++++++++-
 interval_aggregation_clone.go |  9 +++++++++
 interval_aggregation_merge.go |  9 +++++++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index 68d3b60..52be2b0 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -247,8 +247,12 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 
 	// Add resp to hostAggregations
 	if resp.Code == 200 && resp.Err == nil {
+		if resp.IntervalDuration <= 0 {
+			fmt.Println("invalid interval duration: ", resp.IntervalDuration)
+			return
+		}
 		if hd.intervalDuration == 0 {
-			atomic.StoreInt64((*int64)(&hd.intervalDuration), int64(resp.IntervalDuration)) // TODO: validate this
+			atomic.StoreInt64((*int64)(&hd.intervalDuration), int64(resp.IntervalDuration))
 			hd.maxIntervals = int(hd.retain / hd.intervalDuration)
 		} else if hd.intervalDuration != resp.IntervalDuration {
 			fmt.Println("interval duration mismatch: agg.intervalDuration=", hd.intervalDuration, " but resp.IntervalDuration=", resp.IntervalDuration)
@@ -256,6 +260,10 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		}
 
 		for _, intAgg := range resp.IntervalAggregations {
+			if intAgg == nil {
+				continue
+			}
+
 			// Hosts may report the same instant in different time zones.
 			intAgg.IntervalStart = intAgg.IntervalStart.UTC()
 
diff --git a/interval_aggregation_clone.go b/interval_aggregation_clone.go
index 15356e9..66c0d35 100644
--- a/interval_aggregation_clone.go
+++ b/interval_aggregation_clone.go
@@ -9,6 +9,9 @@ func (ia *IntervalAggregation) Clone() *IntervalAggregation {
 
 	dup.Jobs = make(map[string]*JobAggregation)
 	for k, v := range ia.Jobs {
+		if v == nil {
+			continue
+		}
 		dup.Jobs[k] = v.Clone()
 	}
 
@@ -29,10 +32,16 @@ func (am *aggregationMaps) Clone() *aggregationMaps {
 	}
 
 	for k, v := range am.Timers {
+		if v == nil {
+			continue
+		}
 		dup.Timers[k] = v.Clone()
 	}
 
 	for k, v := range am.EventErrs {
+		if v == nil {
+			continue
+		}
 		dup.EventErrs[k] = v.Clone()
 	}
 
diff --git a/interval_aggregation_merge.go b/interval_aggregation_merge.go
index 2349f4e..600bf57 100644
--- a/interval_aggregation_merge.go
+++ b/interval_aggregation_merge.go
@@ -6,6 +6,9 @@ func (ia *IntervalAggregation) Merge(intAgg *IntervalAggregation) {
 	ia.aggregationMaps.merge(&intAgg.aggregationMaps)
 
 	for k, v := range intAgg.Jobs {
+		if v == nil {
+			continue
+		}
 		if existingJob, ok := ia.Jobs[k]; ok {
 			existingJob.merge(v)
 		} else {
@@ -50,6 +53,9 @@ func (intoAm *aggregationMaps) merge(fromAm *aggregationMaps) {
 	}
 
 	for k, v := range fromAm.Timers {
+		if v == nil {
+			continue
+		}
 		if existingTimer, ok := intoAm.Timers[k]; ok {
 			existingTimer.merge(v)
 		} else {
@@ -58,6 +64,9 @@ func (intoAm *aggregationMaps) merge(fromAm *aggregationMaps) {
 	}
 
 	for k, v := range fromAm.EventErrs {
+		if v == nil {
+			continue
+		}
 		if existingErrCounter, ok := intoAm.EventErrs[k]; ok {
 			existingErrCounter.Count += v.Count
 
-- 
2.43.0


From d08fbb30cda3d129671e70645e543bda63f493f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 13/14] fix: statsd Drain and Stop requests queued behind a
 drain are acknowledged

---
 statsd_sink.go | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/statsd_sink.go b/statsd_sink.go
index a0b8868..1dde8c3 100644
--- a/statsd_sink.go
+++ b/statsd_sink.go
@@ -44,9 +44,7 @@ var defaultStatsDOptions = StatsDSinkOptions{SanitizationFunc: sanitizeKey}
 type StatsDSink struct {
 	options StatsDSinkOptions
 
-	cmdChan       chan statsdEmitCmd
-	drainDoneChan chan struct{}
-	stopDoneChan  chan struct{}
+	cmdChan chan statsdEmitCmd
 
 	flushPeriod time.Duration
 
@@ -82,6 +80,9 @@ type statsdEmitCmd struct {
 	Nanos  int64
 	Value  float64
 	Status CompletionStatus
+
+	// Done acknowledges this very drain or stop request.
+	Done chan struct{}
 }
 
 const cmdChanBuffSize = 8192 // random-ass-guess
@@ -102,8 +103,6 @@ func NewStatsDSink(addr string, options *StatsDSinkOptions) (*StatsDSink, error)
 		udpConn:       c.(*net.UDPConn),
 		udpAddr:       ra,
 		cmdChan:       make(chan statsdEmitCmd, cmdChanBuffSize),
-		drainDoneChan: make(chan struct{}),
-		stopDoneChan:  make(chan struct{}),
 		flushPeriod:   100 * time.Millisecond,
 		prefixBuffers: make(map[eventKey]prefixBuffer),
 	}
@@ -123,13 +122,15 @@ func NewStatsDSink(addr string, options *StatsDSinkOptions) (*StatsDSink, error)
 }
 
 func (s *StatsDSink) Stop() {
-	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindStop}
-	<-s.stopDoneChan
+	done := make(chan struct{})
+	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindStop, Done: done}
+	<-done
 }
 
 func (s *StatsDSink) Drain() {
-	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindDrain}
-	<-s.drainDoneChan
+	done := make(chan struct{})
+	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindDrain, Done: done}
+	<-done
 }
 
 func (s *StatsDSink) EmitEvent(job string, event string, kvs map[string]string) {
@@ -166,19 +167,11 @@ LOOP:
 	for cmd := range cmdChan {
 		switch cmd.Kind {
 		case statsdCmdKindDrain:
-		DRAIN_LOOP:
-			for {
-				select {
-				case cmd := <-cmdChan:
-					s.processCmd(&cmd)
-				default:
-					s.flush()
-					s.drainDoneChan <- struct{}{}
-					break DRAIN_LOOP
-				}
-			}
+			// cmdChan is FIFO: everything emitted before the drain was requested has been processed.
+			s.flush()
+			cmd.Done <- struct{}{}
 		case statsdCmdKindStop:
-			s.stopDoneChan <- struct{}{}
+			cmd.Done <- struct{}{}
 			break LOOP
 		case statsdCmdKindFlush:
 			s.flush()
-- 
2.43.0


From abf0ca7ea36202bcd292f2300c3aa7669a3f1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:04 +0000
Subject: [PATCH 14/14] fix: name the right function in stack frames of inlined
 calls

---
 stack/frame.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stack/frame.go b/stack/frame.go
index a8b042c..e2f62e4 100644
--- a/stack/frame.go
+++ b/stack/frame.go
@@ -39,7 +39,8 @@ func (frame *Frame) Func() *runtime.Func {
 	if frame.ProgramCounter == 0 {
 		return nil
 	}
-	return runtime.FuncForPC(frame.ProgramCounter)
+	// The program counter is a return address. It can belong to another function than the call did when that was inlined.
+	return runtime.FuncForPC(frame.ProgramCounter - 1)
 }
 
 func (frame *Frame) String() string {
-- 
2.43.0

