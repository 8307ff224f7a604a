From 2d5821b6e59e2f502ae854a28dee146897783122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 01/43] fix: take the device lock for the whole snapshot

---
 device.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index 16f5bcd..2d03580 100644
--- a/device.go
+++ b/device.go
@@ -717,6 +717,9 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 // Snapshot creates and returns a snapshot of the device's current state.
 // The snapshot includes device information, status, duration, navigator, speed, battery, and sensors (if any).
 func (d *Device) Snapshot() *pb.Snapshot {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	snap := &pb.Snapshot{
 		Id:        d.state.Id,
 		UserId:    d.state.UserId,
@@ -733,11 +736,9 @@ func (d *Device) Snapshot() *pb.Snapshot {
 
 	if len(d.sensors) > 0 {
 		snap.Sensors = make([]*pb.Snapshot_SensorType, len(d.sensors))
-		d.mu.RLock()
 		for i := 0; i < len(d.sensors); i++ {
 			snap.Sensors[i] = d.sensors[i].Snapshot()
 		}
-		d.mu.RUnlock()
 	}
 	return snap
 }
-- 
2.43.0


From 7edce51753a88b1947c0f75194b2a793f2109c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 02/43] fix: check the sensor index under the device lock

---
 device.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/device.go b/device.go
index 2d03580..c5a3832 100644
--- a/device.go
+++ b/device.go
@@ -284,13 +284,13 @@ func (d *Device) NumSensors() int {
 
 // SensorAt returns the sensor at the specified index from the device's navigator.
 func (d *Device) SensorAt(i int) *types.Sensor {
-	if len(d.sensors) == 0 || i > len(d.sensors)-1 || i < 0 {
-		return nil
-	}
-
 	d.mu.RLock()
 	defer d.mu.RUnlock()
 
+	if i < 0 || i >= len(d.sensors) {
+		return nil
+	}
+
 	return d.sensors[i]
 }
 
-- 
2.43.0


From ab701c0e9e8cd05bf576988c7bf9cf51a2681719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 03/43] fix: lock the device exclusively while consuming the
 finish flag

---
 device.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index c5a3832..5cb4659 100644
--- a/device.go
+++ b/device.go
@@ -447,8 +447,9 @@ func (d *Device) CurrentSegmentDistance() float64 {
 
 // IsFinish checks if the device has reached the end of its current route.
 func (d *Device) IsFinish() bool {
-	d.mu.RLock()
-	defer d.mu.RUnlock()
+	// The navigator consumes its finish flag, so this is a write.
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	return d.navigator.IsFinish()
 }
 
-- 
2.43.0


From 5680b1741e6bbc6e35c5c40fac88237edf766eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 04/43] fix: hand out a copy of the device state

---
 device.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index 5cb4659..457258f 100644
--- a/device.go
+++ b/device.go
@@ -365,11 +365,11 @@ func (d *Device) Status() Status {
 	return d.status
 }
 
-// State returns a protobuf representation of the current device state.
+// State returns a copy of the protobuf representation of the current device state.
 func (d *Device) State() *pb.Device {
 	d.mu.RLock()
 	defer d.mu.RUnlock()
-	return d.state
+	return proto.Clone(d.state).(*pb.Device)
 }
 
 // Update updates the device's state and routes based on its current navigator state.
-- 
2.43.0


From b3d42ed597cae4a4fdcb885914d1b408508c7981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 05/43] fix: include the last device of a full packet

---
 generator.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index 457f4a0..9cacf54 100644
--- a/generator.go
+++ b/generator.go
@@ -238,13 +238,12 @@ loop:
 				g.packet.Devices[g.index] = g.devices[i].State()
 				g.dmu.Unlock()
 
-				if g.index+1 == g.packetSize {
+				g.index++
+				if g.index == g.packetSize {
 					g.mu.RUnlock()
 					g.flush()
 					g.mu.RLock()
 					g.index = 0
-				} else {
-					g.index++
 				}
 			}
 			g.mu.RUnlock()
-- 
2.43.0


From 043c2747c59cb39e83f9074ab7fade9d60f49b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 06/43] fix: tick over a stable copy of the device list

---
 generator.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/generator.go b/generator.go
index 9cacf54..b2fce3f 100644
--- a/generator.go
+++ b/generator.go
@@ -227,26 +227,28 @@ loop:
 				tick = 1
 			}
 
+			// Work on a copy: devices may be attached or detached during the tick.
 			g.mu.RLock()
-			for i := 0; i < len(g.devices); i++ {
-				g.devices[i].Next(tick)
+			devices := make([]*Device, len(g.devices))
+			copy(devices, g.devices)
+			g.mu.RUnlock()
+
+			for i := 0; i < len(devices); i++ {
+				devices[i].Next(tick)
 			}
 
 			g.index = 0
-			for i := 0; i < len(g.devices); i++ {
+			for i := 0; i < len(devices); i++ {
 				g.dmu.Lock()
-				g.packet.Devices[g.index] = g.devices[i].State()
+				g.packet.Devices[g.index] = devices[i].State()
 				g.dmu.Unlock()
 
 				g.index++
 				if g.index == g.packetSize {
-					g.mu.RUnlock()
 					g.flush()
-					g.mu.RLock()
 					g.index = 0
 				}
 			}
-			g.mu.RUnlock()
 
 			g.flush()
 			g.resetPacket()
-- 
2.43.0


From 7be7d4f3867e8097e75befa66ff880c83b1ffda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 07/43] fix: never block on the pipeline channels after Close

---
 generator.go | 60 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/generator.go b/generator.go
index b2fce3f..c8133a3 100644
--- a/generator.go
+++ b/generator.go
@@ -264,11 +264,8 @@ type slice struct {
 }
 
 func (g *Generator) doWorker(n int) {
-	defer func() {
-		g.wg.Done()
-		g.waitCh <- struct{}{}
-	}()
-	
+	defer g.wg.Done()
+
 	pck := &pb.Packet{}
 	enc := proto.MarshalOptions{}
 
@@ -282,7 +279,9 @@ func (g *Generator) doWorker(n int) {
 			}
 
 			if s.from == 0 && s.to == 0 {
-				g.waitCh <- struct{}{}
+				if !g.ack() {
+					return
+				}
 				continue
 			}
 
@@ -300,11 +299,9 @@ func (g *Generator) doWorker(n int) {
 				g.onPacket(data)
 			}
 
-			if g.isClosed() {
+			if !g.ack() {
 				return
 			}
-
-			g.waitCh <- struct{}{}
 		}
 	}
 }
@@ -337,35 +334,62 @@ func (g *Generator) doNext() {
 
 func (g *Generator) flush() {
 	if g.index <= g.numWorkers+g.workerSize {
-		g.sliceCh <- slice{from: 0, to: g.index}
-		if g.isClosed() {
+		if !g.dispatch(slice{from: 0, to: g.index}) {
 			return
 		}
-		<-g.waitCh
+		g.wait()
 	} else {
 		step := g.index / g.numWorkers
 		rem := g.index % g.numWorkers
 		for i := 0; i < g.numWorkers; i++ {
-			if g.isClosed() {
-				return
-			}
 			var s slice
 			s.from = i * step
 			s.to = i*step + step
 			if i == g.numWorkers-1 {
 				s.to += rem
 			}
-			g.sliceCh <- s
+			if !g.dispatch(s) {
+				return
+			}
 		}
 		for i := 0; i < g.numWorkers; i++ {
-			if g.isClosed() {
+			if !g.wait() {
 				return
 			}
-			<-g.waitCh
 		}
 	}
 }
 
+// dispatch hands a slice to a worker, returns false if the generator is closed.
+func (g *Generator) dispatch(s slice) bool {
+	select {
+	case g.sliceCh <- s:
+		return true
+	case <-g.ctx.Done():
+		return false
+	}
+}
+
+// ack reports a processed slice, returns false if the generator is closed.
+func (g *Generator) ack() bool {
+	select {
+	case g.waitCh <- struct{}{}:
+		return true
+	case <-g.ctx.Done():
+		return false
+	}
+}
+
+// wait waits for a processed slice, returns false if the generator is closed.
+func (g *Generator) wait() bool {
+	select {
+	case <-g.waitCh:
+		return true
+	case <-g.ctx.Done():
+		return false
+	}
+}
+
 func (g *Generator) isClosed() bool {
 	select {
 	case <-g.ctx.Done():
-- 
2.43.0


From 3aa964a0ea99815aef88655068c8b14d396809b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 08/43] fix: do not pass a partially encoded packet to the
 packet callback

---
 generator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index c8133a3..be5178b 100644
--- a/generator.go
+++ b/generator.go
@@ -293,8 +293,10 @@ func (g *Generator) doWorker(n int) {
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
 
-			if err != nil && g.onError != nil {
-				g.onError(err)
+			if err != nil {
+				if g.onError != nil {
+					g.onError(err)
+				}
 			} else if g.onPacket != nil {
 				g.onPacket(data)
 			}
-- 
2.43.0


From 082be4aa5e2dab98ac8dc1539ef919d5d4a848e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 09/43] fix: read the generator callbacks under the lock that
 guards them

---
 generator.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/generator.go b/generator.go
index be5178b..34de474 100644
--- a/generator.go
+++ b/generator.go
@@ -293,12 +293,16 @@ func (g *Generator) doWorker(n int) {
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
 
+			g.mu.RLock()
+			onError, onPacket := g.onError, g.onPacket
+			g.mu.RUnlock()
+
 			if err != nil {
-				if g.onError != nil {
-					g.onError(err)
+				if onError != nil {
+					onError(err)
 				}
-			} else if g.onPacket != nil {
-				g.onPacket(data)
+			} else if onPacket != nil {
+				onPacket(data)
 			}
 
 			if !g.ack() {
@@ -326,10 +330,13 @@ func (g *Generator) doNext() {
 			if g.isClosed() {
 				return
 			}
-			if g.onNext == nil {
+			g.mu.RLock()
+			onNext := g.onNext
+			g.mu.RUnlock()
+			if onNext == nil {
 				continue
 			}
-			g.onNext()
+			onNext()
 		}
 	}
 }
-- 
2.43.0


From 4aac363e391303bc49e5c4f4fe625c5b865388eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 10/43] fix: do not lose ticks missed while the counter is
 being reset

---
 device.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/device.go b/device.go
index 457258f..69e8fc9 100644
--- a/device.go
+++ b/device.go
@@ -643,9 +643,7 @@ func (d *Device) Next(tick float64) bool {
 		return false
 	}
 
-	tickLock := atomic.LoadUint32(&d.tick)
-	seconds := float64(float64(tickLock) + tick)
-	d.resetTick()
+	seconds := float64(d.takeTick()) + tick
 	d.state.Duration += seconds
 	d.state.Tick = seconds
 
@@ -813,8 +811,9 @@ func (d *Device) incTick() {
 	atomic.AddUint32(&d.tick, 1)
 }
 
-func (d *Device) resetTick() {
-	atomic.StoreUint32(&d.tick, 0)
+// takeTick returns the number of missed ticks and starts counting anew.
+func (d *Device) takeTick() uint32 {
+	return atomic.SwapUint32(&d.tick, 0)
 }
 
 func (d *Device) nextT(tick float64) float64 {
-- 
2.43.0


From a2b4a83ee3347635d4868b01c26cc5b600098df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 11/43] fix: restore the offline mode before the offline range
 that depends on it

---
 navigator/navigator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 45157e3..344d187 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -598,11 +598,12 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	}
 	n.elevation = new(types.Sensor)
 	n.elevation.FromSnapshot(snap.Elevation)
+	n.skipOffline = snap.SkipOffline
+	n.offline = nil
 	if !n.skipOffline {
 		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
 	n.distance = snap.Distance
-	n.skipOffline = snap.SkipOffline
 	n.version = int(snap.Version)
 }
 
-- 
2.43.0


From e3607dc1113a45bb888250ba728a69802241592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 12/43] fix: drop stale sensors when restoring a snapshot
 without sensors

---
 device.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/device.go b/device.go
index 69e8fc9..f8d40a6 100644
--- a/device.go
+++ b/device.go
@@ -765,6 +765,7 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Speed = d.speed.Value()
 	d.battery = new(types.Battery)
 	d.battery.FromSnapshot(snap.Battery)
+	d.sensors = nil
 	if len(snap.Sensors) > 0 {
 		d.sensors = make([]*types.Sensor, len(snap.Sensors))
 		for i := 0; i < len(snap.Sensors); i++ {
-- 
2.43.0


From d727325ab93046ddc10205d54b369fed2e49cb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 13/43] fix: keep an attached device running when a snapshot is
 restored into it

---
 device.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index f8d40a6..cdc1bd9 100644
--- a/device.go
+++ b/device.go
@@ -757,7 +757,10 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Color = snap.Color
 	d.state.Description = snap.Descr
 	d.state.Duration = snap.Duration
-	d.status = Status(snap.Status)
+	if d.status != Running {
+		// A restored device is not attached to a generator.
+		d.status = Stopped
+	}
 	d.navigator = new(navigator.Navigator)
 	d.navigator.FromSnapshot(snap.Navigator)
 	d.speed = new(types.Speed)
-- 
2.43.0


From d6d4aa99cecd515f1398f4517c1289daec4e7467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 14/43] fix: tolerate absent parts when restoring snapshots

---
 curve/curve.go                   | 19 ++++++++++++-------
 device.go                        |  3 +++
 navigator/navigator.go           |  4 ++--
 navigator/route_track_segment.go |  4 ++--
 types/battery.go                 |  8 ++++----
 types/sensor.go                  | 14 +++++++-------
 types/speed.go                   |  8 ++++----
 7 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/curve/curve.go b/curve/curve.go
index c49075a..7cd3589 100644
--- a/curve/curve.go
+++ b/curve/curve.go
@@ -79,6 +79,9 @@ func (c *Curve) Shuffle() {
 
 // Point returns a point on the curve for a given parameter t.
 func (c *Curve) Point(t float64) Point {
+	if len(c.points) == 0 {
+		return Point{}
+	}
 	c.points[0].vp = c.points[0].cp
 	u := t
 	for i, p := range c.points[1:] {
@@ -129,14 +132,16 @@ func (c *Curve) Snapshot() *proto.Snapshot_Curve {
 
 // FromSnapshot restores the curve's state from a snapshot.
 func (c *Curve) FromSnapshot(snap *proto.Snapshot_Curve) {
-	c.mode = int(snap.Mode)
-	c.min = snap.Min
-	c.max = snap.Max
-	c.points = make([]point, len(snap.Points))
-	for i := 0; i < len(snap.Points); i++ {
+	c.mode = int(snap.GetMode())
+	c.min = snap.GetMin()
+	c.max = snap.GetMax()
+	points := snap.GetPoints()
+	c.points = make([]point, len(points))
+	for i := 0; i < len(points); i++ {
+		vp, cp := points[i].GetVp(), points[i].GetCp()
 		c.points[i] = point{
-			vp: Point{X: snap.Points[i].Vp.X, Y: snap.Points[i].Vp.Y},
-			cp: Point{X: snap.Points[i].Cp.X, Y: snap.Points[i].Cp.Y},
+			vp: Point{X: vp.GetX(), Y: vp.GetY()},
+			cp: Point{X: cp.GetX(), Y: cp.GetY()},
 		}
 	}
 }
diff --git a/device.go b/device.go
index cdc1bd9..eba13ef 100644
--- a/device.go
+++ b/device.go
@@ -709,6 +709,9 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 	if err := proto.Unmarshal(data, snap); err != nil {
 		return err
 	}
+	if snap.Navigator == nil {
+		return fmt.Errorf("gpsgen: invalid snapshot data")
+	}
 	d.FromSnapshot(snap)
 	return nil
 }
diff --git a/navigator/navigator.go b/navigator/navigator.go
index 344d187..8467948 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -593,8 +593,8 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	n.currentDistance = snap.CurrentDistance
 	n.offlineIndex = int(snap.OfflineIndex)
 	n.point = geo.LatLonPoint{
-		Lon: snap.Point.Lon,
-		Lat: snap.Point.Lat,
+		Lon: snap.GetPoint().GetLon(),
+		Lat: snap.GetPoint().GetLat(),
 	}
 	n.elevation = new(types.Sensor)
 	n.elevation.FromSnapshot(snap.Elevation)
diff --git a/navigator/route_track_segment.go b/navigator/route_track_segment.go
index ada403f..39434de 100644
--- a/navigator/route_track_segment.go
+++ b/navigator/route_track_segment.go
@@ -79,8 +79,8 @@ func SegmentFromSnapshot(snap *SegmentSnapshot) Segment {
 		return Segment{}
 	}
 	return Segment{
-		pointA:  geo.LatLonPoint{Lon: snap.PointA.Lon, Lat: snap.PointA.Lat},
-		pointB:  geo.LatLonPoint{Lon: snap.PointB.Lon, Lat: snap.PointB.Lat},
+		pointA:  geo.LatLonPoint{Lon: snap.GetPointA().GetLon(), Lat: snap.GetPointA().GetLat()},
+		pointB:  geo.LatLonPoint{Lon: snap.GetPointB().GetLon(), Lat: snap.GetPointB().GetLat()},
 		dist:    snap.Distance,
 		bearing: snap.Bearing,
 		index:   int(snap.Index),
diff --git a/types/battery.go b/types/battery.go
index 18b73a7..ce1f080 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -114,8 +114,8 @@ func (t *Battery) Snapshot() *proto.Snapshot_BatteryType {
 
 // FromSnapshot restores the Battery instance from a protobuf snapshot.
 func (t *Battery) FromSnapshot(snap *proto.Snapshot_BatteryType) {
-	t.min = snap.Min
-	t.max = snap.Max
-	t.val = snap.Val
-	t.chargeTime = time.Duration(snap.ChargeTime)
+	t.min = snap.GetMin()
+	t.max = snap.GetMax()
+	t.val = snap.GetVal()
+	t.chargeTime = time.Duration(snap.GetChargeTime())
 }
diff --git a/types/sensor.go b/types/sensor.go
index 39ea461..caa0cbb 100644
--- a/types/sensor.go
+++ b/types/sensor.go
@@ -168,12 +168,12 @@ func (t *Sensor) Snapshot() *SensorSnapshot {
 
 // FromSnapshot restores the Sensor instance from a protobuf snapshot.
 func (t *Sensor) FromSnapshot(snap *SensorSnapshot) {
-	t.id = snap.Id
-	t.name = snap.Name
-	t.min = snap.Min
-	t.max = snap.Max
-	t.valX = snap.ValX
-	t.valY = snap.ValY
+	t.id = snap.GetId()
+	t.name = snap.GetName()
+	t.min = snap.GetMin()
+	t.max = snap.GetMax()
+	t.valX = snap.GetValX()
+	t.valY = snap.GetValY()
 	t.gen = new(curve.Curve)
-	t.gen.FromSnapshot(snap.Gen)
+	t.gen.FromSnapshot(snap.GetGen())
 }
diff --git a/types/speed.go b/types/speed.go
index f3a5744..b558860 100644
--- a/types/speed.go
+++ b/types/speed.go
@@ -118,11 +118,11 @@ func (t *Speed) Snapshot() *proto.Snapshot_CommonType {
 
 // FromSnapshot restores the Speed instance from a protobuf snapshot.
 func (t *Speed) FromSnapshot(snap *proto.Snapshot_CommonType) {
-	t.min = snap.Min
-	t.max = snap.Max
-	t.val = snap.Val
+	t.min = snap.GetMin()
+	t.max = snap.GetMax()
+	t.val = snap.GetVal()
 	t.gen = new(curve.Curve)
-	t.gen.FromSnapshot(snap.Gen)
+	t.gen.FromSnapshot(snap.GetGen())
 }
 
 func (t *Speed) isStatic() bool {
-- 
2.43.0


From df2c8b59e69c6b5ea9d4568d22dac0871bf65de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 15/43] fix: check the route index before using it

---
 navigator/navigator.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 8467948..2407e11 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -256,10 +256,7 @@ func (n *Navigator) Routes() []*Route {
 
 // CurrentRoute returns the current route.
 func (n *Navigator) CurrentRoute() *Route {
-	if len(n.routes) == 0 {
-		return nil
-	}
-	return n.routes[n.routeIndex]
+	return n.RouteAt(n.routeIndex)
 }
 
 // CurrentTrack returns the current track.
-- 
2.43.0


From b74d03e57d393af6ce2f9aa042257858a5b9af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 16/43] fix: use the route and track reached by a jump

---
 navigator/navigator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 2407e11..85ce0ba 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -626,7 +626,7 @@ func (n *Navigator) jump(distance float64) bool {
 
 	for i := 0; i < len(n.routes); i++ {
 		route = n.routes[i]
-		routeIndex += i
+		routeIndex = i
 		if route.dist+routeDist > distance {
 			break
 		}
@@ -641,7 +641,7 @@ func (n *Navigator) jump(distance float64) bool {
 		if track == nil {
 			continue
 		}
-		trackIndex += i
+		trackIndex = i
 		if track.dist+routeDist > distance {
 			break
 		}
-- 
2.43.0


From 0c4c59d3f51d2ddfc0e66465e01dc5e85c4d61f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:12 +0000
Subject: [PATCH 17/43] fix: recalculate position and distance when a track is
 removed

---
 navigator/navigator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 85ce0ba..e8f77bd 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -179,6 +179,7 @@ func (n *Navigator) RemoveTrack(routeID string, trackID string) bool {
 	ok := route.RemoveTrack(trackID)
 	if ok {
 		n.nextVersion()
+		n.Reset()
 	}
 	return ok
 }
-- 
2.43.0


From 9bc2a3ac8f6303fae77bf3dbe5d32d0ea56d61ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 18/43] fix: compare both coordinates when deciding whether a
 track is closed

---
 navigator/route_track.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/navigator/route_track.go b/navigator/route_track.go
index d283e05..b3c4d48 100644
--- a/navigator/route_track.go
+++ b/navigator/route_track.go
@@ -183,5 +183,5 @@ func isClosed(points []geo.LatLonPoint) bool {
 	p1 := points[0]
 	p2 := points[len(points)-1]
 	return p1.Lon == p2.Lon &&
-		p2.Lat == p2.Lat
+		p1.Lat == p2.Lat
 }
-- 
2.43.0


From ece97e3c6f2ca261d5a0bd74546190192bc1aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 19/43] fix: do not change the route version when looking up a
 track

---
 navigator/route.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/navigator/route.go b/navigator/route.go
index 69e9b0b..4c7f0af 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -146,7 +146,6 @@ func (r *Route) TrackByID(trackID string) (*Track, error) {
 	}
 	for i := 0; i < len(r.tracks); i++ {
 		if r.tracks[i].ID() == trackID {
-			r.nextVersion()
 			return r.tracks[i], nil
 		}
 	}
-- 
2.43.0


From 25e01857e8973fdd8e6e1511e587f6708b66d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 20/43] fix: clear the reported route and track when there is
 none

---
 navigator/navigator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index e8f77bd..4a36670 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -345,9 +345,11 @@ func (n *Navigator) Update(state *proto.Device) {
 	state.Navigator.CurrentRouteIndex = int64(n.routeIndex)
 	state.Navigator.CurrentTrackIndex = int64(n.trackIndex)
 	state.Navigator.CurrentSegmentIndex = int64(n.segmentIndex)
+	state.Navigator.CurrentRouteId = ""
 	if route := n.CurrentRoute(); route != nil {
 		state.Navigator.CurrentRouteId = route.ID()
 	}
+	state.Navigator.CurrentTrackId = ""
 	if track := n.CurrentTrack(); track != nil {
 		state.Navigator.CurrentTrackId = track.ID()
 	}
-- 
2.43.0


From 3ddf0c999f9a47d68b0b20b797b3e33fe646021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 21/43] fix: land on the end of the last segment when jumping
 to the total distance

---
 navigator/navigator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 4a36670..34dc39d 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -630,7 +630,7 @@ func (n *Navigator) jump(distance float64) bool {
 	for i := 0; i < len(n.routes); i++ {
 		route = n.routes[i]
 		routeIndex = i
-		if route.dist+routeDist > distance {
+		if i == len(n.routes)-1 || route.dist+routeDist > distance {
 			break
 		}
 		routeDist += route.dist
@@ -645,7 +645,7 @@ func (n *Navigator) jump(distance float64) bool {
 			continue
 		}
 		trackIndex = i
-		if track.dist+routeDist > distance {
+		if i == route.NumTracks()-1 || track.dist+routeDist > distance {
 			break
 		}
 		curRouteDist += track.dist
@@ -661,7 +661,7 @@ func (n *Navigator) jump(distance float64) bool {
 			continue
 		}
 		segmentIndex = i
-		if segment.dist+routeDist > distance {
+		if i == track.NumSegments()-1 || segment.dist+routeDist > distance {
 			break
 		}
 		routeDist += segment.dist
-- 
2.43.0


From 576623a7503e4c9d261883e7662a71834ecd07b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 22/43] fix: keep the battery charge finite and within its
 range

---
 types/battery.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/types/battery.go b/types/battery.go
index ce1f080..079de34 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -79,7 +79,15 @@ func (t *Battery) IsLow() bool {
 
 // Value returns the current value of the battery.
 func (t *Battery) Value() float64 {
-	val := 100 - (t.val / t.chargeTime.Seconds() * 100)
+	val := 100.0
+	if chargeTime := t.chargeTime.Seconds(); chargeTime > 0 {
+		val = 100 - (t.val / chargeTime * 100)
+	} else if t.val > 0 {
+		val = t.min
+	}
+	if val > t.max {
+		val = t.max
+	}
 	if val < t.min {
 		val = t.min
 	}
-- 
2.43.0


From fb55898bfc436e4e6064a7a44faf3d8021882470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:44 +0000
Subject: [PATCH 23/43] fix: reject a negative maximum battery charge

---
 types/battery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/battery.go b/types/battery.go
index 079de34..f3f8e22 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -37,7 +37,7 @@ type Battery struct {
 // If the min value is greater than the max value, the min value is adjusted to match the max value.
 // If the chargeTime is less than or equal to zero, it is set to a default value of 9 hours.
 func NewBattery(min, max float64, chargeTime time.Duration) (*Battery, error) {
-	if min < minBatteryVal {
+	if min < minBatteryVal || max < minBatteryVal {
 		return nil, ErrMinBattery
 	}
 	if max > maxBatteryVal {
-- 
2.43.0


From 7aaf7aa1a79a65144df0984388ad6ee7eadd137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 24/43] fix: check the maximum speed after it has been derived
 from the minimum

---
 types/speed.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/speed.go b/types/speed.go
index b558860..c8a6eb6 100644
--- a/types/speed.go
+++ b/types/speed.go
@@ -37,12 +37,12 @@ func NewSpeed(min, max float64, amplitude int) (*Speed, error) {
 	if min < MinSpeedVal {
 		return nil, ErrMinSpeed
 	}
-	if max > MaxSpeedVal {
-		return nil, ErrMaxSpeed
-	}
 	if max <= 0 {
 		max = min
 	}
+	if max > MaxSpeedVal {
+		return nil, ErrMaxSpeed
+	}
 	if min > max {
 		return nil, ErrSpeedMinGreaterMax
 	}
-- 
2.43.0


From b09ae750aff668d512a603a21e50d89cb7208960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 25/43] fix: keep corrected offline and elevation ranges
 non-negative

---
 navigator/options.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/navigator/options.go b/navigator/options.go
index 774df88..0877b17 100644
--- a/navigator/options.go
+++ b/navigator/options.go
@@ -2,6 +2,7 @@ package navigator
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/mmadfox/go-gpsgen/types"
 )
@@ -54,16 +55,16 @@ func (o *navigatorOptions) validate() error {
 }
 
 func (o *navigatorOptions) validateElevation() error {
-	if o.elevationMin < MinElevation {
+	if o.elevationMin < MinElevation || o.elevationMax < MinElevation {
 		return fmt.Errorf("invalid minimum navigator elevation value got %.2f, expected > %.2f meters",
-			o.elevationMin, MinElevation)
+			math.Min(o.elevationMin, o.elevationMax), MinElevation)
 	}
 	if o.elevationMax > MaxElevation {
 		return fmt.Errorf("invalid maximum navigator elevation value got %.2f, expected < %.2f meters",
 			o.elevationMax, MaxElevation)
 	}
 	if o.elevationMin > o.elevationMax {
-		o.elevationMin = o.elevationMax - 1
+		o.elevationMin = math.Max(o.elevationMax-1, MinElevation)
 	}
 	if o.elevationMax < o.elevationMin {
 		o.elevationMax = o.elevationMin + 1
@@ -84,9 +85,16 @@ func (o *navigatorOptions) validateOffline() error {
 		return fmt.Errorf("invalid maximum navigator offline value got %d, expected < %d seconds",
 			o.maxOffline, MaxOffline)
 	}
+	if o.maxOffline < MinOffline {
+		return fmt.Errorf("invalid maximum navigator offline value got %d, expected > %d seconds",
+			o.maxOffline, MinOffline)
+	}
 	if o.minOffline > o.maxOffline {
 		o.minOffline = o.maxOffline - 1
 	}
+	if o.minOffline < MinOffline {
+		o.minOffline = MinOffline
+	}
 	if o.maxOffline < o.minOffline {
 		o.maxOffline = o.minOffline + 1
 	}
-- 
2.43.0


From 34a69e550f31f353f9075164ea8837ea097e016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 26/43] fix: order the bounds of a random range

---
 types/random.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/random.go b/types/random.go
index 85c3356..c16f3b4 100644
--- a/types/random.go
+++ b/types/random.go
@@ -36,6 +36,10 @@ func NewRandom(min, max int) *Random {
 		max = 1
 	}
 
+	if min > max {
+		min, max = max, min
+	}
+
 	if min == 0 && max == 0 {
 		max = 1
 	}
-- 
2.43.0


From da0b543748903ab5b37e9fa2f2ea2c0bcc211e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:53 +0000
Subject: [PATCH 27/43] fix: do not divide by a zero speed or average time

---
 device.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index eba13ef..4e60e93 100644
--- a/device.go
+++ b/device.go
@@ -824,15 +824,21 @@ func (d *Device) takeTick() uint32 {
 }
 
 func (d *Device) nextT(tick float64) float64 {
+	if !(d.avgT > 0) {
+		return 1
+	}
 	dur := d.state.Duration + tick
-	return math.Min(dur/d.avgT, 1.0)
+	return math.Max(0, math.Min(dur/d.avgT, 1.0))
 }
 
 func (d *Device) updateState() {
 	d.navigator.Update(d.state)
 	d.state.Battery.Charge = d.battery.Value()
 	d.state.Battery.ChargeTime = int64(d.battery.ChargeTime().Seconds())
-	d.state.TimeEstimate = d.state.Distance.Distance / d.state.Speed
+	d.state.TimeEstimate = 0
+	if d.state.Speed > 0 {
+		d.state.TimeEstimate = d.state.Distance.Distance / d.state.Speed
+	}
 	if len(d.sensors) != len(d.state.Sensors) {
 		d.updateSensors()
 	} else {
-- 
2.43.0


From 58152062b76f09e97fff42c65a8529b0a2c2977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 28/43] fix: use the default number of points for an empty
 random polygon

---
 random/polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/polygon.go b/random/polygon.go
index a38415f..220b25c 100644
--- a/random/polygon.go
+++ b/random/polygon.go
@@ -17,7 +17,7 @@ const (
 // Polygon generates a random polygon with the specified number of points and zoom level.
 // It returns a slice of [2]float64 representing the polygon's coordinates.
 func Polygon(points int, zoom float64) [][2]float64 {
-	if points < 0 {
+	if points <= 0 {
 		points = defaultPoints
 	}
 	if zoom < minZoom {
-- 
2.43.0


From e431397c0b56125e9e16a5ed37b90b8a5484eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 29/43] fix: keep rounding errors out of the arc sine

---
 geo/destination.go | 5 +++--
 geo/distance.go    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/geo/destination.go b/geo/destination.go
index b898cfd..4184d85 100644
--- a/geo/destination.go
+++ b/geo/destination.go
@@ -10,8 +10,9 @@ func Destination(lat, lon, meters, bearingDegrees float64) (
 	θ := bearingDegrees * radians
 	φ1 := lat * radians
 	λ1 := lon * radians
-	φ2 := math.Asin(math.Sin(φ1)*math.Cos(δ) +
-		math.Cos(φ1)*math.Sin(δ)*math.Cos(θ))
+	sinφ2 := math.Sin(φ1)*math.Cos(δ) +
+		math.Cos(φ1)*math.Sin(δ)*math.Cos(θ)
+	φ2 := math.Asin(math.Max(-1, math.Min(sinφ2, 1)))
 	λ2 := λ1 + math.Atan2(math.Sin(θ)*math.Sin(δ)*math.Cos(φ1),
 		math.Cos(δ)-math.Sin(φ1)*math.Sin(φ2))
 	λ2 = math.Mod(λ2+3*math.Pi, 2*math.Pi) - math.Pi // normalise to -180..+180°
diff --git a/geo/distance.go b/geo/distance.go
index 7ed99c1..d466509 100644
--- a/geo/distance.go
+++ b/geo/distance.go
@@ -34,5 +34,5 @@ func DistanceToHaversine(meters float64) float64 {
 
 // DistanceFromHaversine converts a haversine value to a distance in meters.
 func DistanceFromHaversine(haversine float64) float64 {
-	return earthRadius * 2 * math.Asin(math.Sqrt(haversine))
+	return earthRadius * 2 * math.Asin(math.Sqrt(math.Max(0, math.Min(haversine, 1))))
 }
-- 
2.43.0


From 4df0c9ec24f87f4ee8d8f4e47e62618a8d08fe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 30/43] fix: report errors of nested routes and tracks when
 restoring snapshots

---
 device.go                | 15 ++++++++++-----
 io.go                    |  4 +++-
 navigator/navigator.go   | 14 +++++++++-----
 navigator/route.go       |  4 +++-
 navigator/route_track.go |  9 ++++++---
 5 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/device.go b/device.go
index 4e60e93..d71f483 100644
--- a/device.go
+++ b/device.go
@@ -712,8 +712,7 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 	if snap.Navigator == nil {
 		return fmt.Errorf("gpsgen: invalid snapshot data")
 	}
-	d.FromSnapshot(snap)
-	return nil
+	return d.FromSnapshot(snap)
 }
 
 // Snapshot creates and returns a snapshot of the device's current state.
@@ -748,10 +747,16 @@ func (d *Device) Snapshot() *pb.Snapshot {
 // FromSnapshot updates the device's state using the provided snapshot data.
 // It populates the device's state with the values
 // from the snapshot, including device information, status, navigator, speed, battery, and sensors.
-func (d *Device) FromSnapshot(snap *pb.Snapshot) {
+// It returns an error, and leaves the device as it was, if the routes cannot be restored.
+func (d *Device) FromSnapshot(snap *pb.Snapshot) error {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 
+	nav := new(navigator.Navigator)
+	if err := nav.FromSnapshot(snap.Navigator); err != nil {
+		return err
+	}
+
 	d.state = initDeviceState()
 	d.state.Id = snap.Id
 	d.state.UserId = snap.UserId
@@ -764,8 +769,7 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 		// A restored device is not attached to a generator.
 		d.status = Stopped
 	}
-	d.navigator = new(navigator.Navigator)
-	d.navigator.FromSnapshot(snap.Navigator)
+	d.navigator = nav
 	d.speed = new(types.Speed)
 	d.speed.FromSnapshot(snap.Speed)
 	d.state.Speed = d.speed.Value()
@@ -783,6 +787,7 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.updateSensors()
 	d.updateState()
 	d.updateRoutes()
+	return nil
 }
 
 // NewSensor creates a new Sensor instance with the given name,
diff --git a/io.go b/io.go
index d664a69..8cf7283 100644
--- a/io.go
+++ b/io.go
@@ -91,7 +91,9 @@ func DecodeRoutes(data []byte) ([]*navigator.Route, error) {
 	routes := make([]*navigator.Route, len(pbroutes.Routes))
 	for i := 0; i < len(pbroutes.Routes); i++ {
 		route := new(navigator.Route)
-		route.RouteFromSnapshot(pbroutes.Routes[i])
+		if err := route.RouteFromSnapshot(pbroutes.Routes[i]); err != nil {
+			return nil, err
+		}
 		routes[i] = route
 	}
 	return routes, nil
diff --git a/navigator/navigator.go b/navigator/navigator.go
index 34dc39d..9350f54 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -574,16 +574,19 @@ func (n *Navigator) Snapshot() *proto.Snapshot_Navigator {
 }
 
 // FromSnapshot restores the navigator's state from a snapshot.
-func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
+func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) error {
 	if snap == nil {
-		return
+		return nil
 	}
-	n.routes = make([]*Route, len(snap.Routes))
+	routes := make([]*Route, len(snap.Routes))
 	for i := 0; i < len(snap.Routes); i++ {
 		route := new(Route)
-		route.RouteFromSnapshot(snap.Routes[i])
-		n.routes[i] = route
+		if err := route.RouteFromSnapshot(snap.Routes[i]); err != nil {
+			return err
+		}
+		routes[i] = route
 	}
+	n.routes = routes
 	n.routeIndex = int(snap.RouteIndex)
 	n.trackIndex = int(snap.TrackIndex)
 	n.segmentIndex = int(snap.SegmentIndex)
@@ -605,6 +608,7 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	}
 	n.distance = snap.Distance
 	n.version = int(snap.Version)
+	return nil
 }
 
 func (n *Navigator) jump(distance float64) bool {
diff --git a/navigator/route.go b/navigator/route.go
index 4c7f0af..836f846 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -203,7 +203,9 @@ func (r *Route) RouteFromSnapshot(snap *RouteSnapshot) error {
 	tracks := make([]*Track, len(snap.Tracks))
 	for i := 0; i < len(snap.Tracks); i++ {
 		track := new(Track)
-		TrackFromSnapshot(track, snap.Tracks[i])
+		if err := TrackFromSnapshot(track, snap.Tracks[i]); err != nil {
+			return err
+		}
 		tracks[i] = track
 	}
 	var props properties.Properties
diff --git a/navigator/route_track.go b/navigator/route_track.go
index b3c4d48..20142ff 100644
--- a/navigator/route_track.go
+++ b/navigator/route_track.go
@@ -154,14 +154,16 @@ func (t *Track) nextVersion() {
 }
 
 // TrackFromSnapshot restores a track from a snapshot.
-func TrackFromSnapshot(track *Track, snap *TrackSnapshot) {
+func TrackFromSnapshot(track *Track, snap *TrackSnapshot) error {
 	if track == nil || snap == nil {
-		return
+		return nil
 	}
 	var props properties.Properties
 	if len(snap.Props) > 0 {
 		props = properties.Make()
-		_ = json.Unmarshal(snap.Props, &props)
+		if err := json.Unmarshal(snap.Props, &props); err != nil {
+			return err
+		}
 	}
 	track.id = snap.Id
 	track.color = snap.Color
@@ -174,6 +176,7 @@ func TrackFromSnapshot(track *Track, snap *TrackSnapshot) {
 	}
 	track.name.value = snap.Name
 	track.version = int(snap.Version)
+	return nil
 }
 
 func isClosed(points []geo.LatLonPoint) bool {
-- 
2.43.0


From b1b4bdc8211010e784d912feb88481bf3d1e2ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 31/43] fix: keep each track's own metadata when importing
 GeoJSON

---
 geojson/encoding.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index 442db31..af009c3 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -140,7 +140,11 @@ func parseGeometries(route *navigator.Route, tracks []trackInfo, geom orb.Geomet
 	}
 
 	for i := 0; i < len(collection); i++ {
-		if err := parseGeometry(route, tracks, collection[i]); err != nil {
+		var info []trackInfo
+		if tracks != nil {
+			info = tracks[i : i+1]
+		}
+		if err := parseGeometry(route, info, collection[i]); err != nil {
 			return err
 		}
 	}
@@ -156,9 +160,7 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 		if !trackExists {
 			track, err = navigator.NewTrack(toPoints(geom))
 		} else {
-			trackInfo := tracks[0]
-			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom))
-			track.Props().Merge(trackInfo.Props)
+			track, err = restoreTrack(tracks[0], toPoints(geom))
 		}
 		if err != nil {
 			return err
@@ -184,9 +186,7 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 		if !trackExists {
 			track, err = navigator.NewTrack(toPoints(geom[0]))
 		} else {
-			trackInfo := tracks[0]
-			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom[0]))
-			track.Props().Merge(trackInfo.Props)
+			track, err = restoreTrack(tracks[0], toPoints(geom[0]))
 		}
 		if err != nil {
 			return err
@@ -220,6 +220,20 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 	return
 }
 
+func restoreTrack(info trackInfo, points []geo.LatLonPoint) (*navigator.Track, error) {
+	track, err := navigator.RestoreTrack(info.ID, info.Color, points)
+	if err != nil {
+		return nil, err
+	}
+	if len(info.Name) > 0 {
+		if err := track.ChangeName(info.Name); err != nil {
+			return nil, err
+		}
+	}
+	track.Props().Merge(info.Props)
+	return track, nil
+}
+
 func toPoints(points []orb.Point) []geo.LatLonPoint {
 	latLons := make([]geo.LatLonPoint, len(points))
 	for i := 0; i < len(points); i++ {
-- 
2.43.0


From 74e7d1c1f70c999c2de12fa1997c552a73797563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 32/43] fix: reject GeoJSON with absent features or geometries

---
 geojson/encoding.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index af009c3..166e8fd 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -32,9 +32,15 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 	if err := json.Unmarshal(data, &fc); err != nil {
 		return nil, err
 	}
+	if fc == nil {
+		return nil, ErrInvalidRoute
+	}
 	routes := make([]*navigator.Route, 0, len(fc.Features))
 	for i := 0; i < len(fc.Features); i++ {
 		feature := fc.Features[i]
+		if feature == nil {
+			return nil, ErrInvalidRoute
+		}
 		if feature.Type != "Feature" {
 			continue
 		}
@@ -214,6 +220,8 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 			return err
 		}
 		route.AddTrack(track)
+	case nil:
+		err = ErrInvalidGeometryType
 	default:
 		err = fmt.Errorf("%w - %s", ErrInvalidGeometryType, geom.GeoJSONType())
 	}
-- 
2.43.0


From baa614b35dbf70ad6a7c4a9314d31ab845b91a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 33/43] fix: report an invalid route name when importing
 GeoJSON

---
 geojson/encoding.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index 166e8fd..99992e6 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -109,7 +109,9 @@ func restoreRoute(props map[string]interface{}) (*navigator.Route, []trackInfo,
 	}
 	route := navigator.RestoreRoute(routeID, color, p)
 	if len(name) > 0 {
-		_ = route.ChangeName(name)
+		if err := route.ChangeName(name); err != nil {
+			return nil, nil, err
+		}
 	}
 	return route, tracksInfo, nil
 }
-- 
2.43.0


From 9ac3100d2e4b7a19d93f45980326ab3485c4ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 34/43] fix: do not let user properties overwrite exported
 route metadata

---
 geojson/feature_collection.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geojson/feature_collection.go b/geojson/feature_collection.go
index 9270fec..58be15c 100644
--- a/geojson/feature_collection.go
+++ b/geojson/feature_collection.go
@@ -52,6 +52,9 @@ func ToFeatureCollection(routes []*navigator.Route) *geojson.FeatureCollection {
 			feature = geojson.NewFeature(collection[0])
 		}
 
+		for k, v := range route.Props() {
+			feature.Properties[k] = v
+		}
 		feature.Properties["routeID"] = route.ID()
 		feature.Properties["color"] = route.Color()
 		feature.Properties["name"] = route.Name().String()
@@ -59,9 +62,6 @@ func ToFeatureCollection(routes []*navigator.Route) *geojson.FeatureCollection {
 		feature.Properties["tracksInfo"] = tracksInfo
 		feature.Properties["distance"] = route.Distance()
 		feature.Properties["units"] = "meters"
-		for k, v := range route.Props() {
-			feature.Properties[k] = v
-		}
 		fc.Append(feature)
 	}
 	return fc
-- 
2.43.0


From 63233634d674a8f4742d93d6082ebc2dcc021a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 35/43] fix: export track properties to GPX

---
 gpx/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 584a28e..1116c18 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -63,10 +63,10 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 			trackNode.SetAttr("color", track.Color())
 			trackNode.SetAttr("distance", f2s(track.Distance()))
 			trackNode.Data = track.ID()
-			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 			if attrs := makeAttrs(track.Props()); len(attrs) > 0 {
 				trackNode.Attrs = append(trackNode.Attrs, attrs...)
 			}
+			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 
 			gpxTrack.Segments = append(gpxTrack.Segments, gpxSegment)
 		}
-- 
2.43.0


From 4daa48859ecca5bb7ceb660b6e685eabdd5acde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 36/43] fix: read GPX identifiers, names and colors as text

---
 gpx/encoding.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 1116c18..f01fe7b 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -104,12 +104,12 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 			}
 			routeInfo := root.Nodes[i]
 			routeProps := makeProps(routeInfo.Attrs)
-			routeID, ok := routeProps.String("id")
+			routeID, ok := attr(routeInfo.Attrs, "id")
 			if !ok {
 				return nil, ErrInvalidRoute
 			}
-			color, _ := routeProps.String("color")
-			routeName, _ := routeProps.String("name")
+			color, _ := attr(routeInfo.Attrs, "color")
+			routeName, _ := attr(routeInfo.Attrs, "name")
 			resetProps(routeProps)
 			route := navigator.RestoreRoute(routeID, color, routeProps)
 			if len(routeName) > 0 {
@@ -122,8 +122,8 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 				trackInfo := root.Nodes[i].Nodes[j]
 				trackID := trackInfo.Data
 				trackProps := makeProps(trackInfo.Attrs)
-				color, _ := trackProps.String("color")
-				trackName, _ := trackProps.String("name")
+				color, _ := attr(trackInfo.Attrs, "color")
+				trackName, _ := attr(trackInfo.Attrs, "name")
 				resetProps(trackProps)
 				track, err := navigator.RestoreTrack(
 					trackID,
@@ -231,6 +231,16 @@ func makeProps(attrs []xml.Attr) properties.Properties {
 	return props
 }
 
+// attr returns the text of the first attribute with the given name.
+func attr(attrs []xml.Attr, name string) (string, bool) {
+	for i := 0; i < len(attrs); i++ {
+		if attrs[i].Name.Local == name {
+			return attrs[i].Value, true
+		}
+	}
+	return "", false
+}
+
 func resetProps(props properties.Properties) {
 	delete(props, "id")
 	delete(props, "color")
-- 
2.43.0


From 26ee5c1210e85392ab0e77d24e517a6047334938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:35 +0000
Subject: [PATCH 37/43] fix: report invalid route and track names when
 importing GPX

---
 gpx/encoding.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index f01fe7b..218f393 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -113,7 +113,9 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 			resetProps(routeProps)
 			route := navigator.RestoreRoute(routeID, color, routeProps)
 			if len(routeName) > 0 {
-				_ = route.ChangeName(routeName)
+				if err := route.ChangeName(routeName); err != nil {
+					return nil, err
+				}
 			}
 			var trackErr error
 		loop:
@@ -136,7 +138,9 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 				}
 				track.Props().Merge(trackProps)
 				if len(trackName) > 0 {
-					_ = track.ChangeName(trackName)
+					if err := track.ChangeName(trackName); err != nil {
+						return nil, err
+					}
 				}
 				route.AddTrack(track)
 			}
-- 
2.43.0


From 441b261997212a7a023127e994f0827a72d610b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 38/43] fix: keep routes from every section of a GPX file

---
 gpx/encoding.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 218f393..0235899 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -166,7 +166,6 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 		}
 
 		if len(gpxData.Tracks) > 0 {
-			routes = make([]*navigator.Route, 0, len(gpxData.Tracks))
 			for i := 0; i < len(gpxData.Tracks); i++ {
 				route := navigator.NewRoute()
 				var trackErr error
@@ -193,7 +192,7 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 				return nil, err
 			}
 			route.AddTrack(track)
-			routes = []*navigator.Route{route}
+			routes = append(routes, route)
 		}
 	}
 
-- 
2.43.0


From 6569f28bd2e0de696768c1c4a84d7d12ed0c9abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 39/43] fix: do not crash on a GeoJSON geometry collection with
 absent members

---
 geojson/encoding.go           | 13 ++++++++++++-
 geojson/feature_collection.go |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index 99992e6..858bcf6 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -29,7 +29,7 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 // Decode converts GeoJSON data into a slice of navigator.Routes.
 func Decode(data []byte) ([]*navigator.Route, error) {
 	fc := geojson.NewFeatureCollection()
-	if err := json.Unmarshal(data, &fc); err != nil {
+	if err := unmarshal(data, &fc); err != nil {
 		return nil, err
 	}
 	if fc == nil {
@@ -71,6 +71,17 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 	return routes, nil
 }
 
+// unmarshal decodes GeoJSON data. The orb package panics
+// if a geometry collection contains null, which is reported as an error.
+func unmarshal(data []byte, v interface{}) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w - %v", ErrInvalidGeometryType, r)
+		}
+	}()
+	return json.Unmarshal(data, v)
+}
+
 func routeExists(props map[string]interface{}) bool {
 	_, ok1 := props["routeID"]
 	_, ok2 := props["color"]
diff --git a/geojson/feature_collection.go b/geojson/feature_collection.go
index 58be15c..eb3e572 100644
--- a/geojson/feature_collection.go
+++ b/geojson/feature_collection.go
@@ -9,7 +9,7 @@ import (
 // ParseFeatureCollection parses a GeoJSON FeatureCollection from the provided data.
 func ParseFeatureCollection(data []byte) (*geojson.FeatureCollection, error) {
 	fc := geojson.NewFeatureCollection()
-	if err := fc.UnmarshalJSON(data); err != nil {
+	if err := unmarshal(data, fc); err != nil {
 		return nil, err
 	}
 	return fc, nil
-- 
2.43.0


From f1ffd6d6b3dae2f5681290719e0ce62d4bb6542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:33 +0000
Subject: [PATCH 40/43] fix: a restored navigator that skips offline mode is
 not offline

---
 navigator/navigator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 9350f54..6be7a4d 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -603,7 +603,9 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) error {
 	n.elevation.FromSnapshot(snap.Elevation)
 	n.skipOffline = snap.SkipOffline
 	n.offline = nil
-	if !n.skipOffline {
+	if n.skipOffline {
+		n.offlineIndex = 0
+	} else {
 		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
 	n.distance = snap.Distance
-- 
2.43.0


From 8ca52f0f75c65de9146d10a7709bbf836f8458d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:25 +0000
Subject: [PATCH 41/43] fix: Device.FromSnapshot refuses a snapshot without a
 navigator

Restoring a snapshot that has no navigator left a navigator without
elevation behind and panicked while refreshing the state.
---
 device.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/device.go b/device.go
index d71f483..278590e 100644
--- a/device.go
+++ b/device.go
@@ -709,9 +709,6 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 	if err := proto.Unmarshal(data, snap); err != nil {
 		return err
 	}
-	if snap.Navigator == nil {
-		return fmt.Errorf("gpsgen: invalid snapshot data")
-	}
 	return d.FromSnapshot(snap)
 }
 
@@ -747,8 +744,13 @@ func (d *Device) Snapshot() *pb.Snapshot {
 // FromSnapshot updates the device's state using the provided snapshot data.
 // It populates the device's state with the values
 // from the snapshot, including device information, status, navigator, speed, battery, and sensors.
-// It returns an error, and leaves the device as it was, if the routes cannot be restored.
+// It returns an error, and leaves the device as it was, if there is no navigator
+// or the routes cannot be restored.
 func (d *Device) FromSnapshot(snap *pb.Snapshot) error {
+	if snap.GetNavigator() == nil {
+		return fmt.Errorf("gpsgen: invalid snapshot data")
+	}
+
 	d.mu.Lock()
 	defer d.mu.Unlock()
 
-- 
2.43.0


From d1c51d6daff5a5e2e92d16a18dc8eb5dbd435486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:13 +0000
Subject: [PATCH 42/43] fix: restoring a route without a name clears the name
 the target had

---
 navigator/route.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/navigator/route.go b/navigator/route.go
index 836f846..60c4733 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -216,15 +216,17 @@ func (r *Route) RouteFromSnapshot(snap *RouteSnapshot) error {
 		}
 	}
 
+	var name Name
 	if len(snap.Name) > 0 {
-		name, err := ParseName(snap.Name)
+		var err error
+		name, err = ParseName(snap.Name)
 		if err != nil {
 			return err
 		}
-		r.name = name
 	}
 
 	r.id = snap.Id
+	r.name = name
 	r.dist = snap.Distance
 	r.color = snap.Color
 	r.props = props
-- 
2.43.0


From ca0c8b5139385350021c27c68809f39c294042bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:38 +0000
Subject: [PATCH 43/43] fix: leave routes without tracks out of a GPX document

The XML encoder drops nodes without content, so the description of a route
without tracks was missing and the whole document could not be imported.
---
 gpx/encoding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 0235899..e389f8b 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -34,6 +34,9 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 	// map: tracks=routes, segments=tracks
 	for i := 0; i < len(routes); i++ {
 		route := routes[i]
+		if route.NumTracks() == 0 {
+			continue
+		}
 		gpxTrack := gpx.GPXTrack{
 			Segments: make([]gpx.GPXTrackSegment, 0, route.NumTracks()),
 		}
-- 
2.43.0

