From 0e4f59e9d7b360fbbaf5a3b1db662933c6f9c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:20 +0000
Subject: [PATCH 01/51] fix: deliver the tracker that fills a packet

The packet was flushed before its last slot was counted, so every
PacketSize-th tracker was never delivered.
---
 generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator.go b/generator.go
index 457f4a0..6dbaedd 100644
--- a/generator.go
+++ b/generator.go
@@ -240,6 +240,7 @@ loop:
 
 				if g.index+1 == g.packetSize {
 					g.mu.RUnlock()
+					g.index++
 					g.flush()
 					g.mu.RLock()
 					g.index = 0
-- 
2.43.0


From ef54dd104a56309524ebdedb133eb0d0ef39dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 02/51] fix: let Close end Run in the middle of a flush

The tick loop and the workers could block for ever on sliceCh/waitCh when
Close arrived between two channel operations: Run never returned, or left
worker goroutines behind.
---
 generator.go | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/generator.go b/generator.go
index 6dbaedd..2be567e 100644
--- a/generator.go
+++ b/generator.go
@@ -264,11 +264,8 @@ type slice struct {
 }
 
 func (g *Generator) doWorker(n int) {
-	defer func() {
-		g.wg.Done()
-		g.waitCh <- struct{}{}
-	}()
-	
+	defer g.wg.Done()
+
 	pck := &pb.Packet{}
 	enc := proto.MarshalOptions{}
 
@@ -282,7 +279,7 @@ func (g *Generator) doWorker(n int) {
 			}
 
 			if s.from == 0 && s.to == 0 {
-				g.waitCh <- struct{}{}
+				g.ack()
 				continue
 			}
 
@@ -304,7 +301,7 @@ func (g *Generator) doWorker(n int) {
 				return
 			}
 
-			g.waitCh <- struct{}{}
+			g.ack()
 		}
 	}
 }
@@ -337,11 +334,10 @@ func (g *Generator) doNext() {
 
 func (g *Generator) flush() {
 	if g.index <= g.numWorkers+g.workerSize {
-		g.sliceCh <- slice{from: 0, to: g.index}
-		if g.isClosed() {
+		if !g.send(slice{from: 0, to: g.index}) {
 			return
 		}
-		<-g.waitCh
+		g.wait()
 	} else {
 		step := g.index / g.numWorkers
 		rem := g.index % g.numWorkers
@@ -355,17 +351,45 @@ func (g *Generator) flush() {
 			if i == g.numWorkers-1 {
 				s.to += rem
 			}
-			g.sliceCh <- s
+			if !g.send(s) {
+				return
+			}
 		}
 		for i := 0; i < g.numWorkers; i++ {
 			if g.isClosed() {
 				return
 			}
-			<-g.waitCh
+			g.wait()
 		}
 	}
 }
 
+// send hands a slice of the packet to the workers, unless the generator is closed.
+func (g *Generator) send(s slice) bool {
+	select {
+	case <-g.ctx.Done():
+		return false
+	case g.sliceCh <- s:
+		return true
+	}
+}
+
+// wait waits until a worker has processed a slice, unless the generator is closed.
+func (g *Generator) wait() {
+	select {
+	case <-g.ctx.Done():
+	case <-g.waitCh:
+	}
+}
+
+// ack reports a processed slice, unless the generator is closed.
+func (g *Generator) ack() {
+	select {
+	case <-g.ctx.Done():
+	case g.waitCh <- struct{}{}:
+	}
+}
+
 func (g *Generator) isClosed() bool {
 	select {
 	case <-g.ctx.Done():
-- 
2.43.0


From 143072bb968dd36a6241107434ad17e572dca944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 03/51] fix: do not send blank records when the generator is
 closed

After Close the tick loop resets the packet without waiting for the
workers, which then encoded empty records and handed them out.
---
 generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator.go b/generator.go
index 2be567e..99f1334 100644
--- a/generator.go
+++ b/generator.go
@@ -287,6 +287,11 @@ func (g *Generator) doWorker(n int) {
 
 			buf := make([]byte, 0, g.workerSize)
 			g.dmu.RLock()
+			if g.isClosed() {
+				// the tick loop no longer waits and may have reset the packet
+				g.dmu.RUnlock()
+				return
+			}
 			pck.Devices = g.packet.Devices[s.from:s.to]
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
-- 
2.43.0


From 037e3448a6b9597c5b88016f19260f879a28b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 04/51] fix: never hand out a packet that could not be encoded

Without an error callback the partially encoded packet was passed to the
packet callback.
---
 generator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index 99f1334..12332c7 100644
--- a/generator.go
+++ b/generator.go
@@ -296,8 +296,10 @@ func (g *Generator) doWorker(n int) {
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
 
-			if err != nil && g.onError != nil {
-				g.onError(err)
+			if err != nil {
+				if g.onError != nil {
+					g.onError(err)
+				}
 			} else if g.onPacket != nil {
 				g.onPacket(data)
 			}
-- 
2.43.0


From e3d12b4a12f25cf8da60318a060e5dfc9f1fc72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 05/51] fix: read the generator callbacks under the lock they
 are set under

Setting a callback while the generator runs was a data race.
---
 generator.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/generator.go b/generator.go
index 12332c7..68f3e4b 100644
--- a/generator.go
+++ b/generator.go
@@ -296,12 +296,16 @@ func (g *Generator) doWorker(n int) {
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
 
+			g.mu.RLock()
+			onError, onPacket := g.onError, g.onPacket
+			g.mu.RUnlock()
+
 			if err != nil {
-				if g.onError != nil {
-					g.onError(err)
+				if onError != nil {
+					onError(err)
 				}
-			} else if g.onPacket != nil {
-				g.onPacket(data)
+			} else if onPacket != nil {
+				onPacket(data)
 			}
 
 			if g.isClosed() {
@@ -331,10 +335,13 @@ func (g *Generator) doNext() {
 			if g.isClosed() {
 				return
 			}
-			if g.onNext == nil {
+			g.mu.RLock()
+			onNext := g.onNext
+			g.mu.RUnlock()
+			if onNext == nil {
 				continue
 			}
-			g.onNext()
+			onNext()
 		}
 	}
 }
-- 
2.43.0


From 6d68ab1eca059d622a6cd9c55f0895b7701fe1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 06/51] fix: deliver all trackers of a tick when others are
 detached meanwhile

The list of trackers can change while the lock is released to flush a full
packet; the loop then skipped trackers or delivered trackers that had not
been stepped.
---
 generator.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/generator.go b/generator.go
index 68f3e4b..aacb2de 100644
--- a/generator.go
+++ b/generator.go
@@ -211,6 +211,7 @@ func (g *Generator) run() {
 
 	lastTime := time.Now()
 	var tick float64
+	var devices []*Device
 
 loop:
 	for {
@@ -228,14 +229,16 @@ loop:
 			}
 
 			g.mu.RLock()
-			for i := 0; i < len(g.devices); i++ {
-				g.devices[i].Next(tick)
+			// the lock is released while a full packet is flushed
+			devices = append(devices[:0], g.devices...)
+			for i := 0; i < len(devices); i++ {
+				devices[i].Next(tick)
 			}
 
 			g.index = 0
-			for i := 0; i < len(g.devices); i++ {
+			for i := 0; i < len(devices); i++ {
 				g.dmu.Lock()
-				g.packet.Devices[g.index] = g.devices[i].State()
+				g.packet.Devices[g.index] = devices[i].State()
 				g.dmu.Unlock()
 
 				if g.index+1 == g.packetSize {
-- 
2.43.0


From 75c02e5cbc8d6a26ec26bb8fac7795ea3612a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 07/51] fix: return a copy of the tracker state

State returned the live message, which later steps and edits changed while
the caller (for example the packet encoder) was reading it.
---
 device.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index 16f5bcd..0b6850b 100644
--- a/device.go
+++ b/device.go
@@ -365,11 +365,11 @@ func (d *Device) Status() Status {
 	return d.status
 }
 
-// State returns a protobuf representation of the current device state.
+// State returns a copy of the protobuf representation of the current device state.
 func (d *Device) State() *pb.Device {
 	d.mu.RLock()
 	defer d.mu.RUnlock()
-	return d.state
+	return proto.Clone(d.state).(*pb.Device)
 }
 
 // Update updates the device's state and routes based on its current navigator state.
-- 
2.43.0


From 0f3260ef1aba7557bbff73f769d811c2bb9f799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 08/51] fix: take the whole tracker snapshot under the lock

A snapshot taken while the tracker was stepping mixed two states.
---
 device.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index 0b6850b..3f7c188 100644
--- a/device.go
+++ b/device.go
@@ -717,6 +717,9 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 // Snapshot creates and returns a snapshot of the device's current state.
 // The snapshot includes device information, status, duration, navigator, speed, battery, and sensors (if any).
 func (d *Device) Snapshot() *pb.Snapshot {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	snap := &pb.Snapshot{
 		Id:        d.state.Id,
 		UserId:    d.state.UserId,
@@ -733,11 +736,9 @@ func (d *Device) Snapshot() *pb.Snapshot {
 
 	if len(d.sensors) > 0 {
 		snap.Sensors = make([]*pb.Snapshot_SensorType, len(d.sensors))
-		d.mu.RLock()
 		for i := 0; i < len(d.sensors); i++ {
 			snap.Sensors[i] = d.sensors[i].Snapshot()
 		}
-		d.mu.RUnlock()
 	}
 	return snap
 }
-- 
2.43.0


From 59dabc45185961901789f3c9c3d4af0af4294bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 09/51] fix: check the sensor index under the lock in SensorAt

A sensor removed between the check and the access made SensorAt panic.
---
 device.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/device.go b/device.go
index 3f7c188..0cf74bf 100644
--- a/device.go
+++ b/device.go
@@ -284,13 +284,13 @@ func (d *Device) NumSensors() int {
 
 // SensorAt returns the sensor at the specified index from the device's navigator.
 func (d *Device) SensorAt(i int) *types.Sensor {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	if len(d.sensors) == 0 || i > len(d.sensors)-1 || i < 0 {
 		return nil
 	}
 
-	d.mu.RLock()
-	defer d.mu.RUnlock()
-
 	return d.sensors[i]
 }
 
-- 
2.43.0


From 7869a60106eb4ff602600e4cc469b68797f9e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 10/51] fix: lock IsFinish for writing

Navigator.IsFinish consumes the end-of-path mark, so Device.IsFinish raced
with readers while holding the read lock.
---
 device.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index 0cf74bf..fcd98be 100644
--- a/device.go
+++ b/device.go
@@ -447,8 +447,8 @@ func (d *Device) CurrentSegmentDistance() float64 {
 
 // IsFinish checks if the device has reached the end of its current route.
 func (d *Device) IsFinish() bool {
-	d.mu.RLock()
-	defer d.mu.RUnlock()
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	return d.navigator.IsFinish()
 }
 
-- 
2.43.0


From 73b8227437c2b45a85284cfb0a307f5a97f05971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 11/51] fix: remember that the path is finished instead of
 guessing it from a travelled distance of 0.1

---
 navigator/navigator.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 45157e3..64613fc 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -18,6 +18,7 @@ type Navigator struct {
 	currentRouteDistance   float64
 	currentTrackDistance   float64
 	currentDistance        float64
+	finished               bool
 	offlineIndex           int
 	point                  geo.LatLonPoint
 	elevation              *types.Sensor
@@ -237,14 +238,12 @@ func (n *Navigator) CurrentSegmentDistance() float64 {
 
 // IsFinish checks if the navigator has finished its navigation path.
 func (n *Navigator) IsFinish() bool {
-	if n.routeIndex == 0 &&
-		n.trackIndex == 0 &&
-		n.segmentIndex == 0 &&
-		n.currentDistance == 0.1 {
-		n.currentDistance = 0
-		return true
+	if !n.finished {
+		return false
 	}
-	return false
+	n.finished = false
+	n.currentDistance = 0
+	return true
 }
 
 // Routes returns a copy of the navigator's routes slice.
@@ -468,6 +467,7 @@ func (n *Navigator) MoveToSegment(routeIndex int, trackIndex int, segmentIndex i
 	n.trackIndex = trackIndex
 	n.segmentIndex = segmentIndex
 	n.offlineIndex = 0
+	n.finished = false
 	return true
 }
 
@@ -680,6 +680,7 @@ func (n *Navigator) jump(distance float64) bool {
 	n.currentDistance = routeDist + diff
 	n.currentRouteDistance = curRouteDist + diff
 	n.currentTrackDistance = curTrackDist + diff
+	n.finished = false
 	return true
 }
 
@@ -757,6 +758,7 @@ func (n *Navigator) nextRoute() {
 	}
 	n.routeIndex = 0
 	n.currentDistance = 0.1
+	n.finished = true
 }
 
 func (n *Navigator) calcRouteDistance() {
@@ -774,6 +776,7 @@ func (n *Navigator) resetIndexes() {
 	n.currentRouteDistance = 0
 	n.currentTrackDistance = 0
 	n.currentDistance = 0
+	n.finished = false
 }
 
 func (n *Navigator) hasRoute(id string) bool {
-- 
2.43.0


From 57820e0d0bc12a55935de3234f477cb3a7a9c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 12/51] fix: report the total distance of the routes the
 navigator has now

---
 navigator/navigator.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 64613fc..05a32c3 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -23,7 +23,6 @@ type Navigator struct {
 	point                  geo.LatLonPoint
 	elevation              *types.Sensor
 	offline                *types.Random
-	distance               float64
 	skipOffline            bool
 	version                int
 }
@@ -186,7 +185,11 @@ func (n *Navigator) RemoveTrack(routeID string, trackID string) bool {
 
 // Distance returns the total distance of the navigator's routes.
 func (n *Navigator) Distance() float64 {
-	return n.distance
+	dist := 0.0
+	for i := 0; i < len(n.routes); i++ {
+		dist += n.routes[i].dist
+	}
+	return dist
 }
 
 // CurrentDistance returns the current accumulated distance.
@@ -334,7 +337,7 @@ func (n *Navigator) OfflineDuration() int {
 func (n *Navigator) Update(state *proto.Device) {
 	n.normalizeDeviceState(state)
 
-	state.Distance.Distance = n.distance
+	state.Distance.Distance = n.Distance()
 	state.Distance.CurrentDistance = n.currentDistance
 	state.Distance.RouteDistance = n.RouteDistance()
 	state.Distance.CurrentRouteDistance = n.currentRouteDistance
@@ -562,7 +565,7 @@ func (n *Navigator) Snapshot() *proto.Snapshot_Navigator {
 		OfflineIndex:           int64(n.offlineIndex),
 		Point:                  &proto.Snapshot_PointLatLon{Lon: n.point.Lon, Lat: n.point.Lat},
 		Elevation:              n.elevation.Snapshot(),
-		Distance:               n.distance,
+		Distance:               n.Distance(),
 		SkipOffline:            n.skipOffline,
 		Version:                int64(n.version),
 	}
@@ -601,14 +604,13 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	if !n.skipOffline {
 		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
-	n.distance = snap.Distance
 	n.skipOffline = snap.SkipOffline
 	n.version = int(snap.Version)
 }
 
 func (n *Navigator) jump(distance float64) bool {
-	if distance > n.distance {
-		distance = n.distance
+	if total := n.Distance(); distance > total {
+		distance = total
 	}
 	if distance < 1 {
 		return false
@@ -684,10 +686,9 @@ func (n *Navigator) jump(distance float64) bool {
 	return true
 }
 
-// Reset resets the Navigator's state, including indexes and calculated route distance.
+// Reset resets the Navigator's state, including indexes and travelled distances.
 func (n *Navigator) Reset() {
 	n.resetIndexes()
-	n.calcRouteDistance()
 }
 
 func (n *Navigator) updateDist(newDist float64) {
@@ -761,13 +762,6 @@ func (n *Navigator) nextRoute() {
 	n.finished = true
 }
 
-func (n *Navigator) calcRouteDistance() {
-	n.distance = 0
-	for i := 0; i < len(n.routes); i++ {
-		n.distance += n.routes[i].dist
-	}
-}
-
 func (n *Navigator) resetIndexes() {
 	n.routeIndex = 0
 	n.trackIndex = 0
-- 
2.43.0


From 57d401a8de50915ab9d1d35245bf02b884c9c60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 13/51] fix: do not keep the position on a track that was
 removed

---
 navigator/navigator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 05a32c3..4d19001 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -179,6 +179,7 @@ func (n *Navigator) RemoveTrack(routeID string, trackID string) bool {
 	ok := route.RemoveTrack(trackID)
 	if ok {
 		n.nextVersion()
+		n.Reset()
 	}
 	return ok
 }
-- 
2.43.0


From 0e812cfb988bba67dbfaeafd5da1637be5b7f05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 14/51] fix: walk over zero-length segments instead of leaving
 the track

---
 navigator/navigator.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 4d19001..e9eb77d 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -284,11 +284,7 @@ func (n *Navigator) CurrentSegment() Segment {
 	if track == nil {
 		return Segment{}
 	}
-	segment := track.SegmentAt(n.segmentIndex)
-	if segment.IsEmpty() {
-		return Segment{}
-	}
-	return segment
+	return track.SegmentAt(n.segmentIndex)
 }
 
 // NumRoutes returns the number of routes in the navigator.
@@ -526,9 +522,7 @@ loop:
 			}
 			break
 		} else {
-			seg := n.nextSegment()
-			foundSegment := !seg.IsEmpty()
-			notFoundSegment := seg.IsEmpty()
+			seg, foundSegment := n.nextSegment()
 			switch {
 			case foundSegment:
 				if !seg.hasRelation() {
@@ -536,7 +530,7 @@ loop:
 					break loop
 				}
 				continue
-			case notFoundSegment:
+			default:
 				if !n.nextTrack() {
 					n.nextRoute()
 				}
@@ -722,18 +716,18 @@ func (n *Navigator) nextOffline() bool {
 	return false
 }
 
-func (n *Navigator) nextSegment() Segment {
+func (n *Navigator) nextSegment() (Segment, bool) {
 	track := n.CurrentTrack()
 	if track == nil {
-		return Segment{}
+		return Segment{}, false
 	}
-	if n.segmentIndex == track.NumSegments()-1 {
-		return Segment{}
+	if n.segmentIndex >= track.NumSegments()-1 {
+		return Segment{}, false
 	}
 	segment := n.CurrentSegment()
 	n.currentSegmentDistance = 0
 	n.segmentIndex++
-	return segment
+	return segment, true
 }
 
 func (n *Navigator) nextTrack() bool {
-- 
2.43.0


From 569bdf9432a379651b216ea73401a2a64a5066d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 15/51] fix: start no further than the end of a first segment
 shorter than a metre

---
 navigator/navigator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index e9eb77d..8c642fa 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -514,7 +514,7 @@ loop:
 			segment := n.CurrentSegment()
 			if !segment.IsEmpty() {
 				if isStartSeg {
-					n.point = segment.DestinationTo(1)
+					n.point = segment.DestinationTo(math.Min(1, segment.Distance()))
 				} else {
 					n.point = segment.DestinationTo(n.currentSegmentDistance)
 				}
-- 
2.43.0


From ecab41877b8a9385c9e7503f071e5dc586591271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 16/51] fix: move to the route, track and segment that lie at
 the requested distance

---
 navigator/navigator.go | 78 ++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 49 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 8c642fa..d0b1c2e 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -607,76 +607,56 @@ func (n *Navigator) jump(distance float64) bool {
 	if total := n.Distance(); distance > total {
 		distance = total
 	}
-	if distance < 1 {
+	if !(distance >= 1) {
 		return false
 	}
 
 	var (
-		route        *Route
-		track        *Track
 		segment      Segment
-		trackIndex   int
 		routeIndex   int
+		trackIndex   int
 		segmentIndex int
-		routeDist    float64
-		curRouteDist float64
-		curTrackDist float64
+		routeStart   float64
+		trackStart   float64
+		segmentStart float64
+		passed       float64
 	)
 
+search:
 	for i := 0; i < len(n.routes); i++ {
-		route = n.routes[i]
-		routeIndex += i
-		if route.dist+routeDist > distance {
-			break
-		}
-		routeDist += route.dist
-	}
-	if route == nil {
-		return false
-	}
-
-	for i := 0; i < route.NumTracks(); i++ {
-		track = route.TrackAt(i)
-		if track == nil {
-			continue
-		}
-		trackIndex += i
-		if track.dist+routeDist > distance {
-			break
-		}
-		curRouteDist += track.dist
-		routeDist += track.dist
-	}
-	if track == nil {
-		return false
-	}
-
-	for i := 0; i < track.NumSegments(); i++ {
-		segment = track.SegmentAt(i)
-		if segment.IsEmpty() {
-			continue
-		}
-		segmentIndex = i
-		if segment.dist+routeDist > distance {
-			break
+		route := n.routes[i]
+		passedRoutes := passed
+		for j := 0; j < route.NumTracks(); j++ {
+			track := route.TrackAt(j)
+			passedTracks := passed
+			for k := 0; k < track.NumSegments(); k++ {
+				next := track.SegmentAt(k)
+				if next.IsEmpty() {
+					continue
+				}
+				segment = next
+				routeIndex, trackIndex, segmentIndex = i, j, k
+				routeStart, trackStart, segmentStart = passedRoutes, passedTracks, passed
+				if passed+segment.dist > distance {
+					break search
+				}
+				passed += segment.dist
+			}
 		}
-		routeDist += segment.dist
-		curRouteDist += segment.dist
-		curTrackDist += segment.dist
 	}
 	if segment.IsEmpty() {
 		return false
 	}
 
-	diff := math.Abs(distance - routeDist)
+	diff := math.Min(distance-segmentStart, segment.dist)
 	n.point = segment.DestinationTo(diff)
 	n.routeIndex = routeIndex
 	n.trackIndex = trackIndex
 	n.segmentIndex = segmentIndex
 	n.currentSegmentDistance = diff
-	n.currentDistance = routeDist + diff
-	n.currentRouteDistance = curRouteDist + diff
-	n.currentTrackDistance = curTrackDist + diff
+	n.currentDistance = distance
+	n.currentRouteDistance = distance - routeStart
+	n.currentTrackDistance = distance - trackStart
 	n.finished = false
 	return true
 }
-- 
2.43.0


From 9186769c388667840b5e939f779e79decddab68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 17/51] fix: report saved data that cannot be restored as an
 error

---
 device.go              |  20 +++++--
 io.go                  |   7 ++-
 navigator/navigator.go |  19 +++++--
 navigator/route.go     |   3 ++
 proto/validate.go      | 116 +++++++++++++++++++++++++++++++++++++++++
 5 files changed, 155 insertions(+), 10 deletions(-)
 create mode 100644 proto/validate.go

diff --git a/device.go b/device.go
index fcd98be..bf3db06 100644
--- a/device.go
+++ b/device.go
@@ -710,8 +710,7 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 	if err := proto.Unmarshal(data, snap); err != nil {
 		return err
 	}
-	d.FromSnapshot(snap)
-	return nil
+	return d.fromSnapshot(snap)
 }
 
 // Snapshot creates and returns a snapshot of the device's current state.
@@ -746,7 +745,20 @@ func (d *Device) Snapshot() *pb.Snapshot {
 // FromSnapshot updates the device's state using the provided snapshot data.
 // It populates the device's state with the values
 // from the snapshot, including device information, status, navigator, speed, battery, and sensors.
+// A snapshot from which no device can be restored leaves the device as it was.
 func (d *Device) FromSnapshot(snap *pb.Snapshot) {
+	_ = d.fromSnapshot(snap)
+}
+
+func (d *Device) fromSnapshot(snap *pb.Snapshot) error {
+	if err := snap.Validate(); err != nil {
+		return err
+	}
+	nav := new(navigator.Navigator)
+	if err := nav.FromSnapshot(snap.Navigator); err != nil {
+		return err
+	}
+
 	d.mu.Lock()
 	defer d.mu.Unlock()
 
@@ -759,8 +771,7 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Description = snap.Descr
 	d.state.Duration = snap.Duration
 	d.status = Status(snap.Status)
-	d.navigator = new(navigator.Navigator)
-	d.navigator.FromSnapshot(snap.Navigator)
+	d.navigator = nav
 	d.speed = new(types.Speed)
 	d.speed.FromSnapshot(snap.Speed)
 	d.state.Speed = d.speed.Value()
@@ -777,6 +788,7 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.updateSensors()
 	d.updateState()
 	d.updateRoutes()
+	return nil
 }
 
 // NewSensor creates a new Sensor instance with the given name,
diff --git a/io.go b/io.go
index d664a69..77e46bc 100644
--- a/io.go
+++ b/io.go
@@ -58,6 +58,9 @@ func DecodeSensors(data []byte) ([]*types.Sensor, error) {
 	}
 	sensors := make([]*types.Sensor, len(pbsensors.Sensors))
 	for i := 0; i < len(pbsensors.Sensors); i++ {
+		if err := pbsensors.Sensors[i].Validate(); err != nil {
+			return nil, err
+		}
 		sensor := new(types.Sensor)
 		sensor.FromSnapshot(pbsensors.Sensors[i])
 		sensors[i] = sensor
@@ -91,7 +94,9 @@ func DecodeRoutes(data []byte) ([]*navigator.Route, error) {
 	routes := make([]*navigator.Route, len(pbroutes.Routes))
 	for i := 0; i < len(pbroutes.Routes); i++ {
 		route := new(navigator.Route)
-		route.RouteFromSnapshot(pbroutes.Routes[i])
+		if err := route.RouteFromSnapshot(pbroutes.Routes[i]); err != nil {
+			return nil, err
+		}
 		routes[i] = route
 	}
 	return routes, nil
diff --git a/navigator/navigator.go b/navigator/navigator.go
index d0b1c2e..d1b140d 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -572,16 +572,24 @@ func (n *Navigator) Snapshot() *proto.Snapshot_Navigator {
 }
 
 // FromSnapshot restores the navigator's state from a snapshot.
-func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
+// A snapshot from which no navigator can be restored is reported
+// as an error and leaves the navigator as it was.
+func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) error {
 	if snap == nil {
-		return
+		return nil
+	}
+	if err := snap.Validate(); err != nil {
+		return err
 	}
-	n.routes = make([]*Route, len(snap.Routes))
+	routes := make([]*Route, len(snap.Routes))
 	for i := 0; i < len(snap.Routes); i++ {
 		route := new(Route)
-		route.RouteFromSnapshot(snap.Routes[i])
-		n.routes[i] = route
+		if err := route.RouteFromSnapshot(snap.Routes[i]); err != nil {
+			return err
+		}
+		routes[i] = route
 	}
+	n.routes = routes
 	n.routeIndex = int(snap.RouteIndex)
 	n.trackIndex = int(snap.TrackIndex)
 	n.segmentIndex = int(snap.SegmentIndex)
@@ -601,6 +609,7 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	}
 	n.skipOffline = snap.SkipOffline
 	n.version = int(snap.Version)
+	return nil
 }
 
 func (n *Navigator) jump(distance float64) bool {
diff --git a/navigator/route.go b/navigator/route.go
index 69e9b0b..afca071 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -201,6 +201,9 @@ func (r *Route) RouteFromSnapshot(snap *RouteSnapshot) error {
 	if snap == nil {
 		return nil
 	}
+	if err := snap.Validate(); err != nil {
+		return err
+	}
 	tracks := make([]*Track, len(snap.Tracks))
 	for i := 0; i < len(snap.Tracks); i++ {
 		track := new(Track)
diff --git a/proto/validate.go b/proto/validate.go
new file mode 100644
index 0000000..a310c89
--- /dev/null
+++ b/proto/validate.go
@@ -0,0 +1,116 @@
+package proto
+
+import (
+	"encoding/json"
+	"errors"
+	"fmt"
+)
+
+// Validate reports an error if the snapshot lacks a part
+// without which a device cannot be restored.
+func (x *Snapshot) Validate() error {
+	if x == nil {
+		return errors.New("gpsgen/proto: empty snapshot")
+	}
+	if err := x.Navigator.Validate(); err != nil {
+		return err
+	}
+	if x.Speed == nil {
+		return errors.New("gpsgen/proto: snapshot without speed")
+	}
+	if err := x.Speed.Gen.Validate(); err != nil {
+		return fmt.Errorf("speed: %w", err)
+	}
+	if x.Battery == nil {
+		return errors.New("gpsgen/proto: snapshot without battery")
+	}
+	for i := 0; i < len(x.Sensors); i++ {
+		if err := x.Sensors[i].Validate(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// Validate reports an error if a curve cannot be restored from the snapshot.
+func (x *Snapshot_Curve) Validate() error {
+	if x == nil || len(x.Points) == 0 {
+		return errors.New("gpsgen/proto: curve without control points")
+	}
+	for i := 0; i < len(x.Points); i++ {
+		if x.Points[i] == nil || x.Points[i].Vp == nil || x.Points[i].Cp == nil {
+			return fmt.Errorf("gpsgen/proto: incomplete control point %d of a curve", i)
+		}
+	}
+	return nil
+}
+
+// Validate reports an error if a sensor cannot be restored from the snapshot.
+func (x *Snapshot_SensorType) Validate() error {
+	if x == nil {
+		return errors.New("gpsgen/proto: empty sensor")
+	}
+	if err := x.Gen.Validate(); err != nil {
+		return fmt.Errorf("sensor %s: %w", x.Name, err)
+	}
+	return nil
+}
+
+// Validate reports an error if a navigator cannot be restored from the snapshot.
+func (x *Snapshot_Navigator) Validate() error {
+	if x == nil {
+		return errors.New("gpsgen/proto: snapshot without navigator")
+	}
+	if x.Point == nil {
+		return errors.New("gpsgen/proto: navigator without location")
+	}
+	if err := x.Elevation.Validate(); err != nil {
+		return err
+	}
+	for i := 0; i < len(x.Routes); i++ {
+		if err := x.Routes[i].Validate(); err != nil {
+			return err
+		}
+	}
+	if x.RouteIndex < 0 || x.TrackIndex < 0 || x.SegmentIndex < 0 {
+		return errors.New("gpsgen/proto: negative index")
+	}
+	if x.RouteIndex > 0 && x.RouteIndex >= int64(len(x.Routes)) {
+		return fmt.Errorf("gpsgen/proto: route index %d out of range", x.RouteIndex)
+	}
+	return nil
+}
+
+// Validate reports an error if a route cannot be restored from the snapshot.
+func (x *Snapshot_Navigator_Route) Validate() error {
+	if x == nil {
+		return errors.New("gpsgen/proto: empty route")
+	}
+	if err := validateProps(x.Props); err != nil {
+		return fmt.Errorf("gpsgen/proto: route %s: %w", x.Id, err)
+	}
+	for i := 0; i < len(x.Tracks); i++ {
+		track := x.Tracks[i]
+		if track == nil {
+			return fmt.Errorf("gpsgen/proto: empty track of route %s", x.Id)
+		}
+		if err := validateProps(track.Props); err != nil {
+			return fmt.Errorf("gpsgen/proto: track %s: %w", track.Id, err)
+		}
+		for j := 0; j < len(track.Segmenets); j++ {
+			segment := track.Segmenets[j]
+			if segment == nil || segment.PointA == nil || segment.PointB == nil {
+				return fmt.Errorf("gpsgen/proto: incomplete segment %d of track %s", j, track.Id)
+			}
+		}
+	}
+	return nil
+}
+
+func validateProps(props []byte) error {
+	if len(props) == 0 {
+		return nil
+	}
+	var p map[string]interface{}
+	return json.Unmarshal(props, &p)
+}
-- 
2.43.0


From d9ba24ecf76f7330beaaebb187382c3784bd0c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 18/51] fix: replace the sensors of a device restored from a
 snapshot without sensors

---
 device.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/device.go b/device.go
index bf3db06..4b038a7 100644
--- a/device.go
+++ b/device.go
@@ -777,6 +777,7 @@ func (d *Device) fromSnapshot(snap *pb.Snapshot) error {
 	d.state.Speed = d.speed.Value()
 	d.battery = new(types.Battery)
 	d.battery.FromSnapshot(snap.Battery)
+	d.sensors = nil
 	if len(snap.Sensors) > 0 {
 		d.sensors = make([]*types.Sensor, len(snap.Sensors))
 		for i := 0; i < len(snap.Sensors); i++ {
-- 
2.43.0


From 50888efe412fb5fcea9d96da8370c577dee82bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 19/51] fix: keep a device that is attached to a generator
 running when it is restored

---
 device.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 4b038a7..91fbd4f 100644
--- a/device.go
+++ b/device.go
@@ -770,7 +770,9 @@ func (d *Device) fromSnapshot(snap *pb.Snapshot) error {
 	d.state.Color = snap.Color
 	d.state.Description = snap.Descr
 	d.state.Duration = snap.Duration
-	d.status = Status(snap.Status)
+	if d.status != Running {
+		d.status = Stopped
+	}
 	d.navigator = nav
 	d.speed = new(types.Speed)
 	d.speed.FromSnapshot(snap.Speed)
-- 
2.43.0


From 53d28118469e7d2628190fecba4cc8b36e56315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:39 +0000
Subject: [PATCH 20/51] fix: restore the offline range whatever the navigator
 had before

---
 navigator/navigator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index d1b140d..f7c0e61 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -604,10 +604,12 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) error {
 	}
 	n.elevation = new(types.Sensor)
 	n.elevation.FromSnapshot(snap.Elevation)
+	n.skipOffline = snap.SkipOffline
+	n.offline = nil
 	if !n.skipOffline {
 		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
-	n.skipOffline = snap.SkipOffline
+	n.finished = false
 	n.version = int(snap.Version)
 	return nil
 }
-- 
2.43.0


From ef9e043d7c3572b1561c284ada631692d2fdcf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:41 +0000
Subject: [PATCH 21/51] fix: do not publish the ids of a route and track that
 were removed

---
 navigator/navigator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index f7c0e61..c0709a8 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -346,9 +346,11 @@ func (n *Navigator) Update(state *proto.Device) {
 	state.Navigator.CurrentRouteIndex = int64(n.routeIndex)
 	state.Navigator.CurrentTrackIndex = int64(n.trackIndex)
 	state.Navigator.CurrentSegmentIndex = int64(n.segmentIndex)
+	state.Navigator.CurrentRouteId = ""
 	if route := n.CurrentRoute(); route != nil {
 		state.Navigator.CurrentRouteId = route.ID()
 	}
+	state.Navigator.CurrentTrackId = ""
 	if track := n.CurrentTrack(); track != nil {
 		state.Navigator.CurrentTrackId = track.ID()
 	}
-- 
2.43.0


From b0b1bf5a908518c82106d13e2934a71488d609b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 22/51] fix: publish the current speed with every update of the
 state

---
 device.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/device.go b/device.go
index 91fbd4f..5aeccd1 100644
--- a/device.go
+++ b/device.go
@@ -838,6 +838,7 @@ func (d *Device) nextT(tick float64) float64 {
 
 func (d *Device) updateState() {
 	d.navigator.Update(d.state)
+	d.state.Speed = d.speed.Value()
 	d.state.Battery.Charge = d.battery.Value()
 	d.state.Battery.ChargeTime = int64(d.battery.ChargeTime().Seconds())
 	d.state.TimeEstimate = d.state.Distance.Distance / d.state.Speed
-- 
2.43.0


From 31011686f71f879a94dac5a0cce8b768855a6773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 23/51] fix: keep the speed a number on routes without length

---
 device.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/device.go b/device.go
index 5aeccd1..d19eb5b 100644
--- a/device.go
+++ b/device.go
@@ -832,6 +832,9 @@ func (d *Device) resetTick() {
 }
 
 func (d *Device) nextT(tick float64) float64 {
+	if d.avgT <= 0 {
+		return 1.0
+	}
 	dur := d.state.Duration + tick
 	return math.Min(dur/d.avgT, 1.0)
 }
-- 
2.43.0


From 751021eb66a1ce9e6621469c11f7e136aec241d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 24/51] fix: call a track closed only if it ends at the
 latitude it starts at

---
 navigator/route_track.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/navigator/route_track.go b/navigator/route_track.go
index d283e05..b3c4d48 100644
--- a/navigator/route_track.go
+++ b/navigator/route_track.go
@@ -183,5 +183,5 @@ func isClosed(points []geo.LatLonPoint) bool {
 	p1 := points[0]
 	p2 := points[len(points)-1]
 	return p1.Lon == p2.Lon &&
-		p2.Lat == p2.Lat
+		p1.Lat == p2.Lat
 }
-- 
2.43.0


From 915ef17804ad3bf8adc58a3591b93834d6ebb2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:33 +0000
Subject: [PATCH 25/51] fix: carry over the time of a skipped step, not a count
 of skipped steps

---
 device.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/device.go b/device.go
index d19eb5b..081cae5 100644
--- a/device.go
+++ b/device.go
@@ -38,6 +38,7 @@ type Device struct {
 	sensors   []*types.Sensor
 	avgT      float64
 	tick      uint32
+	skipped   atomic.Uint64 // bits of the time of the skipped ticks
 	ns        [3]int
 }
 
@@ -633,7 +634,7 @@ func (d *Device) Version() [3]int {
 func (d *Device) Next(tick float64) bool {
 	ok := d.mu.TryLock()
 	if !ok {
-		d.incTick()
+		d.incTick(tick)
 		return false
 	}
 	defer d.mu.Unlock()
@@ -642,9 +643,7 @@ func (d *Device) Next(tick float64) bool {
 		return false
 	}
 
-	tickLock := atomic.LoadUint32(&d.tick)
-	seconds := float64(float64(tickLock) + tick)
-	d.resetTick()
+	seconds := d.resetTick() + tick
 	d.state.Duration += seconds
 	d.state.Tick = seconds
 
@@ -823,12 +822,20 @@ func (d *Device) unmount() error {
 	return nil
 }
 
-func (d *Device) incTick() {
+func (d *Device) incTick(tick float64) {
+	for {
+		old := d.skipped.Load()
+		sum := math.Float64bits(math.Float64frombits(old) + tick)
+		if d.skipped.CompareAndSwap(old, sum) {
+			break
+		}
+	}
 	atomic.AddUint32(&d.tick, 1)
 }
 
-func (d *Device) resetTick() {
+func (d *Device) resetTick() float64 {
 	atomic.StoreUint32(&d.tick, 0)
+	return math.Float64frombits(d.skipped.Swap(0))
 }
 
 func (d *Device) nextT(tick float64) float64 {
-- 
2.43.0


From 8d674410bd62e390fc0038aaa9bb7cccba6f28d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:13 +0000
Subject: [PATCH 26/51] fix: do not count the time before Run as simulated time

---
 generator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generator.go b/generator.go
index aacb2de..9adedf0 100644
--- a/generator.go
+++ b/generator.go
@@ -209,6 +209,13 @@ func (g *Generator) run() {
 		g.ticker.Stop()
 	}()
 
+	// the time before Run is not simulated
+	g.ticker.Reset(g.interval)
+	select {
+	case <-g.ticker.C:
+	default:
+	}
+
 	lastTime := time.Now()
 	var tick float64
 	var devices []*Device
-- 
2.43.0


From e0fdd2423f2e4543e7ca65577a284163674b71b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 27/51] fix: restore each track of a GeoJSON collection from
 its own info

---
 geojson/encoding.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index 442db31..bdcdbe2 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -140,7 +140,11 @@ func parseGeometries(route *navigator.Route, tracks []trackInfo, geom orb.Geomet
 	}
 
 	for i := 0; i < len(collection); i++ {
-		if err := parseGeometry(route, tracks, collection[i]); err != nil {
+		var info []trackInfo
+		if tracks != nil {
+			info = tracks[i : i+1]
+		}
+		if err := parseGeometry(route, info, collection[i]); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 6a3580db467f9595f4a3dd909589f554e7034e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:12 +0000
Subject: [PATCH 28/51] fix: restore the names of GeoJSON tracks and report
 tracks that cannot be restored

---
 geojson/encoding.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index bdcdbe2..d434cac 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -161,8 +161,7 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 			track, err = navigator.NewTrack(toPoints(geom))
 		} else {
 			trackInfo := tracks[0]
-			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom))
-			track.Props().Merge(trackInfo.Props)
+			track, err = trackInfo.restore(toPoints(geom))
 		}
 		if err != nil {
 			return err
@@ -189,8 +188,7 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 			track, err = navigator.NewTrack(toPoints(geom[0]))
 		} else {
 			trackInfo := tracks[0]
-			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom[0]))
-			track.Props().Merge(trackInfo.Props)
+			track, err = trackInfo.restore(toPoints(geom[0]))
 		}
 		if err != nil {
 			return err
@@ -224,6 +222,20 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 	return
 }
 
+func (t trackInfo) restore(points []geo.LatLonPoint) (*navigator.Track, error) {
+	track, err := navigator.RestoreTrack(t.ID, t.Color, points)
+	if err != nil {
+		return nil, err
+	}
+	if len(t.Props) > 0 {
+		track.Props().Merge(t.Props)
+	}
+	if len(t.Name) > 0 {
+		_ = track.ChangeName(t.Name)
+	}
+	return track, nil
+}
+
 func toPoints(points []orb.Point) []geo.LatLonPoint {
 	latLons := make([]geo.LatLonPoint, len(points))
 	for i := 0; i < len(points); i++ {
-- 
2.43.0


From 9a6da3be2dbecde901927d621b8dbceef0e68394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 29/51] fix: report GeoJSON without features or geometry as an
 error

---
 geojson/encoding.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index d434cac..a236747 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -32,9 +32,15 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 	if err := json.Unmarshal(data, &fc); err != nil {
 		return nil, err
 	}
+	if fc == nil {
+		return nil, ErrNoRoutes
+	}
 	routes := make([]*navigator.Route, 0, len(fc.Features))
 	for i := 0; i < len(fc.Features); i++ {
 		feature := fc.Features[i]
+		if feature == nil {
+			return nil, ErrInvalidRoute
+		}
 		if feature.Type != "Feature" {
 			continue
 		}
@@ -152,6 +158,9 @@ func parseGeometries(route *navigator.Route, tracks []trackInfo, geom orb.Geomet
 }
 
 func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geometry) (err error) {
+	if geometry == nil {
+		return ErrInvalidGeometryType
+	}
 	trackExists := len(tracks) > 0
 	switch geom := geometry.(type) {
 	case orb.LineString:
-- 
2.43.0


From 2c4fc6ad5b35ebd45fefdf97e72bb1f67980e1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 30/51] fix: write the properties of tracks to GPX

---
 gpx/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 584a28e..1116c18 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -63,10 +63,10 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 			trackNode.SetAttr("color", track.Color())
 			trackNode.SetAttr("distance", f2s(track.Distance()))
 			trackNode.Data = track.ID()
-			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 			if attrs := makeAttrs(track.Props()); len(attrs) > 0 {
 				trackNode.Attrs = append(trackNode.Attrs, attrs...)
 			}
+			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 
 			gpxTrack.Segments = append(gpxTrack.Segments, gpxSegment)
 		}
-- 
2.43.0


From 881e8a3a57a3f4b75620b24420e5cc70cd4d88de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 31/51] fix: keep GPX ids and names that read as numbers or
 booleans

---
 gpx/encoding.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 1116c18..1eebb97 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -104,12 +104,12 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 			}
 			routeInfo := root.Nodes[i]
 			routeProps := makeProps(routeInfo.Attrs)
-			routeID, ok := routeProps.String("id")
+			routeID, ok := routeInfo.GetAttr("id")
 			if !ok {
 				return nil, ErrInvalidRoute
 			}
-			color, _ := routeProps.String("color")
-			routeName, _ := routeProps.String("name")
+			color, _ := routeInfo.GetAttr("color")
+			routeName, _ := routeInfo.GetAttr("name")
 			resetProps(routeProps)
 			route := navigator.RestoreRoute(routeID, color, routeProps)
 			if len(routeName) > 0 {
@@ -122,8 +122,8 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 				trackInfo := root.Nodes[i].Nodes[j]
 				trackID := trackInfo.Data
 				trackProps := makeProps(trackInfo.Attrs)
-				color, _ := trackProps.String("color")
-				trackName, _ := trackProps.String("name")
+				color, _ := trackInfo.GetAttr("color")
+				trackName, _ := trackInfo.GetAttr("name")
 				resetProps(trackProps)
 				track, err := navigator.RestoreTrack(
 					trackID,
-- 
2.43.0


From 72f8acee0e04f50a27290caa8cf33fb6624c0bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 32/51] fix: a battery without charge time starts full, not NaN

---
 types/battery.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/battery.go b/types/battery.go
index 18b73a7..a356862 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -79,6 +79,9 @@ func (t *Battery) IsLow() bool {
 
 // Value returns the current value of the battery.
 func (t *Battery) Value() float64 {
+	if t.val == 0 {
+		return 100
+	}
 	val := 100 - (t.val / t.chargeTime.Seconds() * 100)
 	if val < t.min {
 		val = t.min
-- 
2.43.0


From 85d18d0c09cc81b2d1b9d4e49d65400cd90d6b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:08 +0000
Subject: [PATCH 33/51] fix: snapshot of a route or track does not depend on
 whether its properties were read

Reading the properties creates an empty map, which was then saved, so
that saving a tracker changed its snapshot.
---
 navigator/route.go       | 2 +-
 navigator/route_track.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/navigator/route.go b/navigator/route.go
index afca071..19b56bc 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -182,7 +182,7 @@ func (r *Route) Snapshot() *RouteSnapshot {
 		tracks[i] = r.tracks[i].Snapshot()
 	}
 	var rawProto []byte
-	if r.props != nil {
+	if len(r.props) > 0 {
 		rawProto, _ = json.Marshal(r.props)
 	}
 	return &RouteSnapshot{
diff --git a/navigator/route_track.go b/navigator/route_track.go
index b3c4d48..7d4c925 100644
--- a/navigator/route_track.go
+++ b/navigator/route_track.go
@@ -134,7 +134,7 @@ func (t *Track) Snapshot() *TrackSnapshot {
 		segments[i] = t.segments[i].Snapshot()
 	}
 	var rawProps []byte
-	if t.props != nil {
+	if len(t.props) > 0 {
 		rawProps, _ = json.Marshal(t.props)
 	}
 	return &TrackSnapshot{
-- 
2.43.0


From a1fe1b6676a6c9e474805249f60bda59e4ea519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:10 +0000
Subject: [PATCH 34/51] fix: restoring onto a tracker drops the time owed by
 its skipped steps

---
 device.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/device.go b/device.go
index 081cae5..647f867 100644
--- a/device.go
+++ b/device.go
@@ -761,6 +761,7 @@ func (d *Device) fromSnapshot(snap *pb.Snapshot) error {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 
+	d.resetTick()
 	d.state = initDeviceState()
 	d.state.Id = snap.Id
 	d.state.UserId = snap.UserId
-- 
2.43.0


From bd0be38c95035be911343f8c72088be341a0cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:32 +0000
Subject: [PATCH 35/51] fix: a step after a direct edit of a route uses the new
 average time

The curve position of a step was computed from the old length of the
routes, unless the tracker had been saved and restored in between.
---
 device.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/device.go b/device.go
index 647f867..367a77e 100644
--- a/device.go
+++ b/device.go
@@ -653,6 +653,11 @@ func (d *Device) Next(tick float64) bool {
 		d.navigator.ToOffline()
 	}
 
+	ns := d.navigator.Sum()
+	if d.isNotValidNS(ns) {
+		d.updateRoutes()
+	}
+
 	t := d.nextT(seconds)
 	d.speed.Next(t)
 	nextSpeed := d.speed.Value()
@@ -681,11 +686,6 @@ func (d *Device) Next(tick float64) bool {
 		}
 	}
 
-	ns := d.navigator.Sum()
-	if d.isNotValidNS(ns) {
-		d.updateRoutes()
-	}
-
 	d.updateState()
 	return true
 }
-- 
2.43.0


From 4616f5881a1b44ac45b5b7469e4ab2e8944c6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:28 +0000
Subject: [PATCH 36/51] fix: compute destinations at and near the poles

---
 geo/destination.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geo/destination.go b/geo/destination.go
index b898cfd..4824b25 100644
--- a/geo/destination.go
+++ b/geo/destination.go
@@ -10,10 +10,11 @@ func Destination(lat, lon, meters, bearingDegrees float64) (
 	θ := bearingDegrees * radians
 	φ1 := lat * radians
 	λ1 := lon * radians
-	φ2 := math.Asin(math.Sin(φ1)*math.Cos(δ) +
-		math.Cos(φ1)*math.Sin(δ)*math.Cos(θ))
-	λ2 := λ1 + math.Atan2(math.Sin(θ)*math.Sin(δ)*math.Cos(φ1),
-		math.Cos(δ)-math.Sin(φ1)*math.Sin(φ2))
+	x := math.Cos(φ1)*math.Cos(δ) - math.Sin(φ1)*math.Sin(δ)*math.Cos(θ)
+	y := math.Sin(θ) * math.Sin(δ)
+	z := math.Sin(φ1)*math.Cos(δ) + math.Cos(φ1)*math.Sin(δ)*math.Cos(θ)
+	φ2 := math.Atan2(z, math.Hypot(x, y)) // exact at the poles too, unlike the arcsine of z
+	λ2 := λ1 + math.Atan2(y, x)
 	λ2 = math.Mod(λ2+3*math.Pi, 2*math.Pi) - math.Pi // normalise to -180..+180°
 	return φ2 * degrees, λ2 * degrees
 }
-- 
2.43.0


From 4d722f6a04fd109ed816cefc82b67893d7bfd732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:31 +0000
Subject: [PATCH 37/51] fix: the distance between antipodes is a number

---
 geo/distance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geo/distance.go b/geo/distance.go
index 7ed99c1..2707132 100644
--- a/geo/distance.go
+++ b/geo/distance.go
@@ -18,7 +18,8 @@ func Haversine(latA, lonA, latB, lonB float64) float64 {
 	Δλ := λ2 - λ1
 	sΔφ2 := math.Sin(Δφ / 2)
 	sΔλ2 := math.Sin(Δλ / 2)
-	return sΔφ2*sΔφ2 + math.Cos(φ1)*math.Cos(φ2)*sΔλ2*sΔλ2
+	// rounding must not lead beyond the antipode
+	return math.Min(1, sΔφ2*sΔφ2+math.Cos(φ1)*math.Cos(φ2)*sΔλ2*sΔλ2)
 }
 
 // NormalizeDistance normalizes a distance value by wrapping it around the Earth's circumference.
-- 
2.43.0


From 31e2a7d3a8aac8e372a562dabb178df6034a545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:05 +0000
Subject: [PATCH 38/51] fix: the antimeridian lies in UTM zone 1, not 61

---
 navigator/location.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/navigator/location.go b/navigator/location.go
index d4d54c2..e4137d3 100644
--- a/navigator/location.go
+++ b/navigator/location.go
@@ -44,6 +44,9 @@ func setDMS(lat, lon float64, latDMS *proto.Device_Location_DMS, lonDMS *proto.D
 }
 
 func setUTM(lat, lon float64, u *proto.Device_Location_UTM) {
+	if lon >= 180 {
+		lon -= 360 // the last zone ends at the antimeridian, where the first starts
+	}
 	e, n, z := utm.ToUTM(lat, lon)
 	hemisphere := "S"
 	if z.North {
-- 
2.43.0


From aefcc9994049ae1c526a5b1db0f3432a703db089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:30 +0000
Subject: [PATCH 39/51] fix: a random polygon of zero points has the default
 number of points instead of panicking

---
 random/polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/polygon.go b/random/polygon.go
index a38415f..220b25c 100644
--- a/random/polygon.go
+++ b/random/polygon.go
@@ -17,7 +17,7 @@ const (
 // Polygon generates a random polygon with the specified number of points and zoom level.
 // It returns a slice of [2]float64 representing the polygon's coordinates.
 func Polygon(points int, zoom float64) [][2]float64 {
-	if points < 0 {
+	if points <= 0 {
 		points = defaultPoints
 	}
 	if zoom < minZoom {
-- 
2.43.0


From 1688a133939c900c8b4cdc41c47319721bac2d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:33 +0000
Subject: [PATCH 40/51] fix: no random draws make a polygon of NaN

---
 random/polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/polygon.go b/random/polygon.go
index 220b25c..36e6050 100644
--- a/random/polygon.go
+++ b/random/polygon.go
@@ -29,7 +29,7 @@ func Polygon(points int, zoom float64) [][2]float64 {
 	coordinates := make([][2]float64, points+1)
 	offsets := make([]float64, points)
 	for i := 0; i < points; i++ {
-		v := defaultRnd.Float64()
+		v := 1 - defaultRnd.Float64() // never 0, so that the offsets can be scaled by their sum
 		if i == 0 {
 			offsets[i] = v
 		} else {
-- 
2.43.0


From 12619f5de34d859c5366fa9dc218eabe2deba045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:01 +0000
Subject: [PATCH 41/51] fix: a negative battery maximum is reported as an error

---
 types/battery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/battery.go b/types/battery.go
index a356862..e91f9f1 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -37,7 +37,7 @@ type Battery struct {
 // If the min value is greater than the max value, the min value is adjusted to match the max value.
 // If the chargeTime is less than or equal to zero, it is set to a default value of 9 hours.
 func NewBattery(min, max float64, chargeTime time.Duration) (*Battery, error) {
-	if min < minBatteryVal {
+	if min < minBatteryVal || max < minBatteryVal {
 		return nil, ErrMinBattery
 	}
 	if max > maxBatteryVal {
-- 
2.43.0


From ee14396c1772874c891214629dece3f09d3a96ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:01 +0000
Subject: [PATCH 42/51] fix: a speed above the limit is reported as an error
 without a maximum, too

---
 types/speed.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/speed.go b/types/speed.go
index f3a5744..e2cda51 100644
--- a/types/speed.go
+++ b/types/speed.go
@@ -37,12 +37,12 @@ func NewSpeed(min, max float64, amplitude int) (*Speed, error) {
 	if min < MinSpeedVal {
 		return nil, ErrMinSpeed
 	}
-	if max > MaxSpeedVal {
-		return nil, ErrMaxSpeed
-	}
 	if max <= 0 {
 		max = min
 	}
+	if max > MaxSpeedVal {
+		return nil, ErrMaxSpeed
+	}
 	if min > max {
 		return nil, ErrSpeedMinGreaterMax
 	}
-- 
2.43.0


From eb63f5ec6a5c3488072c4d5adba2855520bd4eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:01 +0000
Subject: [PATCH 43/51] fix: negative elevation and offline maxima are errors,
 and adjusted minima stay in range

---
 navigator/options.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/navigator/options.go b/navigator/options.go
index 774df88..3931eda 100644
--- a/navigator/options.go
+++ b/navigator/options.go
@@ -2,6 +2,7 @@ package navigator
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/mmadfox/go-gpsgen/types"
 )
@@ -62,11 +63,12 @@ func (o *navigatorOptions) validateElevation() error {
 		return fmt.Errorf("invalid maximum navigator elevation value got %.2f, expected < %.2f meters",
 			o.elevationMax, MaxElevation)
 	}
-	if o.elevationMin > o.elevationMax {
-		o.elevationMin = o.elevationMax - 1
+	if o.elevationMax < MinElevation {
+		return fmt.Errorf("invalid maximum navigator elevation value got %.2f, expected > %.2f meters",
+			o.elevationMax, MinElevation)
 	}
-	if o.elevationMax < o.elevationMin {
-		o.elevationMax = o.elevationMin + 1
+	if o.elevationMin > o.elevationMax {
+		o.elevationMin = math.Max(o.elevationMax-1, MinElevation)
 	}
 	if o.elevationMin == 0 && o.elevationMax == 0 {
 		o.elevationMin = MinElevation
@@ -84,11 +86,15 @@ func (o *navigatorOptions) validateOffline() error {
 		return fmt.Errorf("invalid maximum navigator offline value got %d, expected < %d seconds",
 			o.maxOffline, MaxOffline)
 	}
+	if o.maxOffline < MinOffline {
+		return fmt.Errorf("invalid maximum navigator offline value got %d, expected > %d seconds",
+			o.maxOffline, MinOffline)
+	}
 	if o.minOffline > o.maxOffline {
 		o.minOffline = o.maxOffline - 1
 	}
-	if o.maxOffline < o.minOffline {
-		o.maxOffline = o.minOffline + 1
+	if o.minOffline < MinOffline {
+		o.minOffline = MinOffline
 	}
 	if o.minOffline == 0 && o.maxOffline == 0 {
 		o.minOffline = MinOffline
-- 
2.43.0


From dcff336bf86ffc691a89e169cddef2f19f45181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 44/51] fix: trackers created from the same options have
 distinct generated ids

---
 device_options.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/device_options.go b/device_options.go
index c015148..f23543f 100644
--- a/device_options.go
+++ b/device_options.go
@@ -47,10 +47,10 @@ type DeviceOptions struct {
 }
 
 func (o *DeviceOptions) applyFor(s *pb.Device) error {
-	if len(o.ID) == 0 {
-		o.ID = uuid.NewString()
-	}
 	s.Id = o.ID
+	if len(s.Id) == 0 {
+		s.Id = uuid.NewString()
+	}
 	s.Description = o.Descr
 	if len(o.Model) > 0 {
 		model, err := types.NewModel(o.Model)
-- 
2.43.0


From 842f7a4bae0b15dd48287d84c0e07a14bb0ca90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 45/51] fix: whole coordinates ending in zero survive GPX
 export

---
 gpx/encoding.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 1eebb97..ba87e08 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"errors"
 	"fmt"
+	"regexp"
 	"strconv"
 
 	"github.com/mmadfox/go-gpsgen/geo"
@@ -77,7 +78,30 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 
 	gpxData.Extensions.Nodes = append(gpxData.Extensions.Nodes, routesNode)
 
-	return gpxData.ToXml(gpx.ToXmlParams{Version: "1.1", Indent: true})
+	data, err := gpxData.ToXml(gpx.ToXmlParams{Version: "1.1", Indent: true})
+	if err != nil {
+		return nil, err
+	}
+	return writeCoordinates(data, gpxData.Tracks), nil
+}
+
+var trackPoint = regexp.MustCompile(`<trkpt lat="[^"]*" lon="[^"]*"`)
+
+// writeCoordinates writes the coordinates of the track points in full:
+// the gpx package cuts the zeros off whole numbers, 20 becomes 2.
+func writeCoordinates(data []byte, tracks []gpx.GPXTrack) []byte {
+	points := make([]gpx.GPXPoint, 0)
+	for i := 0; i < len(tracks); i++ {
+		for j := 0; j < len(tracks[i].Segments); j++ {
+			points = append(points, tracks[i].Segments[j].Points...)
+		}
+	}
+	next := 0
+	return trackPoint.ReplaceAllFunc(data, func([]byte) []byte {
+		point := points[next]
+		next++
+		return []byte(fmt.Sprintf(`<trkpt lat="%s" lon="%s"`, f2s(point.Latitude), f2s(point.Longitude)))
+	})
 }
 
 // Decode converts GPX data into a slice of navigator.Routes.
-- 
2.43.0


From c57ddc84704539433ec15e78c6c61eee2e3265cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:17 +0000
Subject: [PATCH 46/51] fix: routes without tracks do not break the GPX export
 of the others

---
 gpx/encoding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index ba87e08..459a679 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -35,6 +35,9 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 	// map: tracks=routes, segments=tracks
 	for i := 0; i < len(routes); i++ {
 		route := routes[i]
+		if route.NumTracks() == 0 {
+			continue // its node would be dropped, and the others attributed to the wrong routes
+		}
 		gpxTrack := gpx.GPXTrack{
 			Segments: make([]gpx.GPXTrackSegment, 0, route.NumTracks()),
 		}
-- 
2.43.0


From 41fba88cfe252bae76b213340d102809e54120f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:54 +0000
Subject: [PATCH 47/51] fix: waypoints do not replace the tracks and routes of
 a GPX file

---
 gpx/encoding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 459a679..86eabc8 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -175,7 +175,7 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 
 	} else {
 		// new routes
-		if len(gpxData.Routes) > 0 {
+		if len(gpxData.Routes) > 0 && len(gpxData.Tracks) == 0 {
 			routes = make([]*navigator.Route, 0, len(gpxData.Routes))
 			for i := 0; i < len(gpxData.Routes); i++ {
 				route := navigator.NewRoute()
@@ -209,7 +209,7 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 			}
 		}
 
-		if len(gpxData.Waypoints) > 0 {
+		if len(gpxData.Waypoints) > 0 && len(gpxData.Tracks) == 0 && len(gpxData.Routes) == 0 {
 			route := navigator.NewRoute()
 			track, err := navigator.NewTrack(makePoints(gpxData.Waypoints))
 			if err != nil {
-- 
2.43.0


From 58f6844366a67ea6904aef9f2d22be174c01c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:59 +0000
Subject: [PATCH 48/51] fix: a null among the geometries of a GeoJSON
 collection is an error instead of a panic

---
 geojson/encoding.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index a236747..a8c3f26 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -28,8 +28,8 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 
 // Decode converts GeoJSON data into a slice of navigator.Routes.
 func Decode(data []byte) ([]*navigator.Route, error) {
-	fc := geojson.NewFeatureCollection()
-	if err := json.Unmarshal(data, &fc); err != nil {
+	fc, err := unmarshal(data)
+	if err != nil {
 		return nil, err
 	}
 	if fc == nil {
@@ -71,6 +71,19 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 	return routes, nil
 }
 
+// unmarshal parses a feature collection. The parser panics on collections
+// of geometries with null among them: that is an error, too.
+func unmarshal(data []byte) (fc *geojson.FeatureCollection, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			fc, err = nil, fmt.Errorf("gpsgen/geojson: invalid geometry: %v", r)
+		}
+	}()
+	fc = geojson.NewFeatureCollection()
+	err = json.Unmarshal(data, &fc)
+	return fc, err
+}
+
 func routeExists(props map[string]interface{}) bool {
 	_, ok1 := props["routeID"]
 	_, ok2 := props["color"]
-- 
2.43.0


From 1511bf4dde446a00bd4b9919ababf750ccde14bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:01 +0000
Subject: [PATCH 49/51] fix: a function given to Generator.Each may call the
 generator

---
 generator.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index 9adedf0..366ac4f 100644
--- a/generator.go
+++ b/generator.go
@@ -132,10 +132,13 @@ func (g *Generator) Detach(deviceID string) error {
 // Each iterates over the collection of Device objects managed by the Generator
 // and applies the provided function to each device.
 func (g *Generator) Each(fn func(int, *Device) bool) {
+	// fn may call the generator, so it is not called under the lock
 	g.mu.RLock()
-	defer g.mu.RUnlock()
-	for i := 0; i < len(g.devices); i++ {
-		if next := fn(i, g.devices[i]); !next {
+	devices := append([]*Device(nil), g.devices...)
+	g.mu.RUnlock()
+
+	for i := 0; i < len(devices); i++ {
+		if next := fn(i, devices[i]); !next {
 			break
 		}
 	}
-- 
2.43.0


From d60b123404d62b00d8ec271eb0e3caba56d52048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:02 +0000
Subject: [PATCH 50/51] fix: reading the properties of a route or track does
 not write to it

Routes and tracks without properties got their map on the first call of
Props, so two trackers given the same routes, or two exports of them,
raced. They have the map from the start now.
---
 navigator/route.go       | 7 +++++--
 navigator/route_track.go | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/navigator/route.go b/navigator/route.go
index 19b56bc..054cd96 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -29,6 +29,7 @@ func NewRoute() *Route {
 	return &Route{
 		id:     uuid.NewString(),
 		color:  colorful.FastHappyColor().Hex(),
+		props:  properties.Make(),
 		tracks: make([]*Track, 0),
 	}
 }
@@ -39,6 +40,9 @@ func RestoreRoute(
 	color string,
 	props properties.Properties,
 ) *Route {
+	if props == nil {
+		props = properties.Make()
+	}
 	return &Route{
 		id:     routeID,
 		color:  color,
@@ -210,9 +214,8 @@ func (r *Route) RouteFromSnapshot(snap *RouteSnapshot) error {
 		TrackFromSnapshot(track, snap.Tracks[i])
 		tracks[i] = track
 	}
-	var props properties.Properties
+	props := properties.Make()
 	if len(snap.Props) > 0 {
-		props = properties.Make()
 		if err := json.Unmarshal(snap.Props, &props); err != nil {
 			return err
 		}
diff --git a/navigator/route_track.go b/navigator/route_track.go
index 7d4c925..d627aab 100644
--- a/navigator/route_track.go
+++ b/navigator/route_track.go
@@ -38,6 +38,7 @@ func NewTrack(points []geo.LatLonPoint) (*Track, error) {
 		color:    colorful.FastHappyColor().Hex(),
 		dist:     dist,
 		isClosed: isClosed(points),
+		props:    properties.Make(),
 	}, nil
 }
 
@@ -56,6 +57,7 @@ func RestoreTrack(trackID, color string, points []geo.LatLonPoint) (*Track, erro
 		dist:     dist,
 		isClosed: isClosed(points),
 		color:    color,
+		props:    properties.Make(),
 	}, nil
 }
 
@@ -158,9 +160,8 @@ func TrackFromSnapshot(track *Track, snap *TrackSnapshot) {
 	if track == nil || snap == nil {
 		return
 	}
-	var props properties.Properties
+	props := properties.Make()
 	if len(snap.Props) > 0 {
-		props = properties.Make()
 		_ = json.Unmarshal(snap.Props, &props)
 	}
 	track.id = snap.Id
-- 
2.43.0


From 2a5a23a35db53b6f25131f28b1d7bee7fbc25362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:12 +0000
Subject: [PATCH 51/51] fix: restoring an unnamed route onto a named one kept
 the old name

---
 navigator/route.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/navigator/route.go b/navigator/route.go
index 054cd96..a8dedee 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -221,15 +221,16 @@ func (r *Route) RouteFromSnapshot(snap *RouteSnapshot) error {
 		}
 	}
 
+	var name Name
 	if len(snap.Name) > 0 {
-		name, err := ParseName(snap.Name)
-		if err != nil {
+		var err error
+		if name, err = ParseName(snap.Name); err != nil {
 			return err
 		}
-		r.name = name
 	}
 
 	r.id = snap.Id
+	r.name = name
 	r.dist = snap.Distance
 	r.color = snap.Color
 	r.props = props
-- 
2.43.0

