From df8ab6e89ad29c664157ba76a869de6150132ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:40 +0000
Subject: [PATCH 1/8] fix: merging timers ignores the min/max of a side with no
 observations

---
 interval_aggregation_merge.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/interval_aggregation_merge.go b/interval_aggregation_merge.go
index eaa776e..25cd3e0 100644
--- a/interval_aggregation_merge.go
+++ b/interval_aggregation_merge.go
@@ -27,15 +27,18 @@ func (intoJob *JobAggregation) merge(fromJob *JobAggregation) {
 }
 
 func (intoTa *TimerAggregation) merge(fromTa *TimerAggregation) {
+	// The min and max of a side without any observation mean nothing.
+	if fromTa.Count != 0 {
+		if intoTa.Count == 0 || fromTa.NanosMin < intoTa.NanosMin {
+			intoTa.NanosMin = fromTa.NanosMin
+		}
+		if intoTa.Count == 0 || fromTa.NanosMax > intoTa.NanosMax {
+			intoTa.NanosMax = fromTa.NanosMax
+		}
+	}
 	intoTa.Count += fromTa.Count
 	intoTa.NanosSum += fromTa.NanosSum
 	intoTa.NanosSumSquares += fromTa.NanosSumSquares
-	if fromTa.NanosMin < intoTa.NanosMin {
-		intoTa.NanosMin = fromTa.NanosMin
-	}
-	if fromTa.NanosMax > intoTa.NanosMax {
-		intoTa.NanosMax = fromTa.NanosMax
-	}
 }
 
 func (intoAm *aggregationMaps) merge(fromAm *aggregationMaps) {
-- 
2.43.0


From ae7cc5f84889c6ba0d3468ad2c29c6432eb393f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:07 +0000
Subject: [PATCH 2/8] fix: JSON responses are not format strings

A '%' in a job, event or host name was interpreted as a formatting verb
and corrupted the response body.
---
 healthd/api.go            | 2 +-
 json_polling_sink_http.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/healthd/api.go b/healthd/api.go
index 0334f22..9bcf928 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -185,7 +185,7 @@ func renderJson(rw http.ResponseWriter, data interface{}) {
 		renderError(rw, err)
 		return
 	}
-	fmt.Fprintf(rw, string(jsonData))
+	rw.Write(jsonData)
 }
 
 func renderNotFound(rw http.ResponseWriter) {
diff --git a/json_polling_sink_http.go b/json_polling_sink_http.go
index 7bd4a0c..40dac13 100644
--- a/json_polling_sink_http.go
+++ b/json_polling_sink_http.go
@@ -31,7 +31,7 @@ func (s *JsonPollingSink) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
 			renderError(rw, err)
 			return
 		}
-		fmt.Fprintf(rw, string(jsonData))
+		rw.Write(jsonData)
 	} else {
 		renderNotFound(rw)
 	}
-- 
2.43.0


From 972eba4e853d693a2f4dea99b43df50a09dcb7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:07 +0000
Subject: [PATCH 3/8] fix: rounding no longer turns a job's standard deviation
 into NaN

A NaN cannot be encoded as JSON, so the whole jobs response failed.
---
 healthd/api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/healthd/api.go b/healthd/api.go
index 9bcf928..37a5290 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -322,6 +322,9 @@ func filterJobs(overall *health.IntervalAggregation, sort string, limit int) []*
 				stddev = 0
 			} else {
 				num := (float64(j.Count) * j.NanosSumSquares) - math.Pow(float64(j.NanosSum), 2)
+				if num < 0 {
+					num = 0 // rounding; the exact value is never negative
+				}
 				div := float64(j.Count * (j.Count - 1))
 				stddev = math.Sqrt(num / div)
 			}
-- 
2.43.0


From a00be7893e044d9d1b610269b865323c40542c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:07 +0000
Subject: [PATCH 4/8] fix: a StatsD drain no longer swallows concurrent Drain
 and Stop requests

They were consumed without being answered, so their callers hung forever.
---
 statsd_sink.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/statsd_sink.go b/statsd_sink.go
index a0b8868..2c7e03a 100644
--- a/statsd_sink.go
+++ b/statsd_sink.go
@@ -166,17 +166,32 @@ LOOP:
 	for cmd := range cmdChan {
 		switch cmd.Kind {
 		case statsdCmdKindDrain:
+			drains, stop := 1, false
 		DRAIN_LOOP:
 			for {
 				select {
 				case cmd := <-cmdChan:
-					s.processCmd(&cmd)
+					switch cmd.Kind {
+					case statsdCmdKindDrain:
+						drains++
+					case statsdCmdKindStop:
+						stop = true
+						break DRAIN_LOOP
+					default:
+						s.processCmd(&cmd)
+					}
 				default:
-					s.flush()
-					s.drainDoneChan <- struct{}{}
 					break DRAIN_LOOP
 				}
 			}
+			s.flush()
+			for ; drains > 0; drains-- {
+				s.drainDoneChan <- struct{}{}
+			}
+			if stop {
+				s.stopDoneChan <- struct{}{}
+				break LOOP
+			}
 		case statsdCmdKindStop:
 			s.stopDoneChan <- struct{}{}
 			break LOOP
-- 
2.43.0


From 97ae0a981a1921586bbf59ef098b199923f277ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:07 +0000
Subject: [PATCH 5/8] fix: a retention shorter than the interval no longer
 panics

The first metric crashed the process with an index out of range.
---
 aggregator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aggregator.go b/aggregator.go
index 951aacc..0bb2b62 100644
--- a/aggregator.go
+++ b/aggregator.go
@@ -55,6 +55,9 @@ AGGREGATE_LOOP:
 
 func newAggregator(intervalDuration time.Duration, retain time.Duration) *aggregator {
 	maxIntervals := int(retain / intervalDuration)
+	if maxIntervals < 1 {
+		maxIntervals = 1 // always keep the current interval
+	}
 	return &aggregator{
 		intervalDuration:     intervalDuration,
 		retain:               retain,
-- 
2.43.0


From 6d558eb0b006b344a7390d332c1f06debd3cdcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:07 +0000
Subject: [PATCH 6/8] fix: healthd counts hosts in other time zones once

Parsing a non-local UTC offset allocates a new time.Location every time, so
equal instants compared unequal and intervals were duplicated on each poll.
---
 healthd/healthd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index b2013cb..a0d4796 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -245,6 +245,9 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		}
 
 		for _, intAgg := range resp.IntervalAggregations {
+			// Hosts may be in different time zones. These times are compared with ==, so normalize them.
+			intAgg.IntervalStart = intAgg.IntervalStart.UTC()
+
 			key := hostAggregationKey{
 				Time:       intAgg.IntervalStart,
 				InstanceId: resp.InstanceId,
-- 
2.43.0


From 6713a22d3df45577bed75451415b2b942d17b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:07 +0000
Subject: [PATCH 7/8] fix: bugsnag sink no longer reads the caller's map from
 its own goroutine

---
 sinks/bugsnag/sink.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sinks/bugsnag/sink.go b/sinks/bugsnag/sink.go
index 16a2c9f..fb44b58 100644
--- a/sinks/bugsnag/sink.go
+++ b/sinks/bugsnag/sink.go
@@ -46,7 +46,15 @@ func (s *Sink) EmitEventErr(job string, event string, inputErr error, kvs map[st
 	switch inputErr := inputErr.(type) {
 	case *health.UnmutedError:
 		if !inputErr.Emitted {
-			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: kvs}
+			// The caller keeps using its map while we process it in another goroutine.
+			var dup map[string]string
+			if kvs != nil {
+				dup = make(map[string]string, len(kvs))
+				for k, v := range kvs {
+					dup[k] = v
+				}
+			}
+			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: dup}
 		}
 	case *health.MutedError:
 	// Do nothing!
-- 
2.43.0


From 6c145e2415cdd8c9404ffffeec555ea04f666c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:07 +0000
Subject: [PATCH 8/8] fix: a malformed host response is a failed poll and no
 longer crashes healthd

A missing interval duration divided by zero, and JSON nulls were dereferenced.
---
 healthd/poll.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/healthd/poll.go b/healthd/poll.go
index 548a43f..29e64e6 100644
--- a/healthd/poll.go
+++ b/healthd/poll.go
@@ -2,6 +2,7 @@ package healthd
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/gocraft/health"
 	"io/ioutil"
 	"net/http"
@@ -58,6 +59,12 @@ func poll(stream *health.Stream, hostPort string, responses chan<- *pollResponse
 		goto POLL_FINISH
 	}
 
+	if response.Code == 200 {
+		if err := checkResponse(&response.HealthAggregationsResponse); err != nil {
+			response.Err = job.EventErr("poll.check_response", err)
+		}
+	}
+
 POLL_FINISH:
 
 	if response.Err != nil {
@@ -72,3 +79,37 @@ POLL_FINISH:
 func metricsUrl(hostPort string) string {
 	return "http://" + hostPort + "/health"
 }
+
+var errMalformedResponse = errors.New("malformed response")
+
+// checkResponse makes sure that we can aggregate resp: a host could send us anything.
+func checkResponse(resp *health.HealthAggregationsResponse) error {
+	if resp.IntervalDuration <= 0 {
+		return errMalformedResponse
+	}
+	for _, ia := range resp.IntervalAggregations {
+		if ia == nil || hasNil(ia.Timers, ia.EventErrs) {
+			return errMalformedResponse
+		}
+		for _, ja := range ia.Jobs {
+			if ja == nil || hasNil(ja.Timers, ja.EventErrs) {
+				return errMalformedResponse
+			}
+		}
+	}
+	return nil
+}
+
+func hasNil(timers map[string]*health.TimerAggregation, errs map[string]*health.ErrorCounter) bool {
+	for _, t := range timers {
+		if t == nil {
+			return true
+		}
+	}
+	for _, e := range errs {
+		if e == nil {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0

